from hypothesis import strategies as st
from bitcoin.core.script import CScript, SignatureHash, RawSignatureHash
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Valid scripts (code separators over-represented, also inside pushed data), transactions with 0-5 inputs and outputs,
every relation between index and counts, and 32-bit hash types around the base types, flags and unknown bits; every
low byte of the hash type with several shapes; raw and checked signature hashes are compared with a reference implementation, and the transaction's bytes before and after.
Non-trivial: index in range and a transaction with at least two inputs or two outputs."""
ASSUMPTIONS = ['Scripts consist of whole operations', 'Indices are not negative']


def sighash(case, T):
    script, tx, i, ht, mutable = case
    t = F.r_tx(tx, mutable)
    before = t.serialize()
    parts = (list(t.vin), list(t.vout), [id(x) for x in t.vin], [id(x) for x in t.vout])
    want, err = R.sighash(script, tx, i, ht)
    got, goterr = RawSignatureHash(CScript(script), t, i, ht)
    eq(got, want, 'raw signature hash')
    eq(goterr is not None, err is not None, 'whether the raw variant reports an error (%r)' % goterr)
    if err is None:
        eq(SignatureHash(CScript(script), t, i, ht), want, 'checked signature hash')
    else:
        raises(ValueError, SignatureHash, CScript(script), t, i, ht, what='checked signature hash, ' + err)
        T.label(err)
    eq(t.serialize(), before, 'the transaction afterwards')
    eq((list(t.vin), list(t.vout), [id(x) for x in t.vin], [id(x) for x in t.vout]), parts, 'the parts of the transaction afterwards')
    T.label('base %d%s' % (ht & 0x1f if ht & 0x1f < 5 else 5, ' anyone' if ht & 0x80 else ''), 'separator' if b'\xab' in script else 'plain')
    T.nt(err is None and (len(tx[1]) > 1 or len(tx[2]) > 1))


SEP = st.just(b'\xab')
SCRIPT = gen.mix(F.valid_script(), st.lists(gen.mix(SEP, F.op(), st.sampled_from([b'\x01\xab', b'\x02\xab\xab', b'\x4c\x01\xab', b'\x4d\x01\x00\xab'])),
                                            max_size=8).map(b''.join))
HT = gen.mix(st.sampled_from([0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83, 4, 0x1f, 0x41, 0x21, 0x42, 0xc3, 0x23, 0xff, 0x9f]),
             st.tuples(st.sampled_from([1, 2, 3]), st.sampled_from([0, 0x80]), st.sampled_from([0, 0x20, 0x40, 0x100, 0x8000, 0x80000000, 0xffffff00])).map(
                 lambda t: t[0] | t[1] | t[2]),
             st.integers(0, 2**32 - 1))


def relations():
    """Every count and index relation with every kind of hash type"""
    s = b'\x76\xab\x01\xab\x51'
    for nin in range(5):
        for nout in range(5):
            tx = (2, [(bytes([j + 1]) * 32, j, bytes([0x50 + j]), 100 + j) for j in range(nin)], [(1000 + j, bytes([0x60 + j])) for j in range(nout)], 9)
            for i in range(nin + 2):
                for ht in (0, 1, 2, 3, 4, 0x81, 0x82, 0x83, 0x43):
                    yield (s, tx, i, ht, False)


def big(case, T):
    nin, nout, i, ht, n = case
    tx = (1, [(j.to_bytes(32, 'little'), j, b'\x51', j) for j in range(nin)], [(j, b'\x52') for j in range(nout)], 5)
    sighash((b'\xab' + R.push(b'\xab' * n) + b'\xab', tx, i, ht, False), T)


def big_enum():
    for nin, nout in ((260, 300), (300, 260), (700, 600)):
        for i in (127, 128, 251, 252, 253, 254, 255, 256, 257, nout - 1, nout, nin - 1, nin):
            for ht in (1, 2, 3, 0x81, 0x82, 0x83):
                yield nin, nout, i, ht, 1


def types():
    for ht in range(256):
        yield ht


def every_type(case, T):
    """Every one-byte hash type, and some with high bits, over every relation of counts and index"""
    for nin, nout in ((1, 1), (2, 1), (2, 3), (3, 2), (3, 0)):
        tx = (1, [(bytes([j + 1]) * 32, j, bytes([0x50 + j]), 100 + j) for j in range(nin)], [(1000 + j, bytes([0x60 + j])) for j in range(nout)], 9)
        for i in range(nin):
            for high in (0, 0x100, 0x80000000):
                sighash((b'\x51\xab\x52', tx, i, case | high, bool(i % 2)), T)


SUBS = [
    Sub('types', every_type, enum=types),
    Sub('sighash', sighash, gen=st.tuples(SCRIPT, F.tx(5, 5, F.raw_script(8, False)), st.integers(0, 6), HT, st.booleans()), quick=10500),
    Sub('related', sighash, gen=st.tuples(SCRIPT, F.tx(5, 5, F.raw_script(4, False), min_in=1, min_out=1), st.integers(0, 3), HT, st.booleans()), quick=3600),
    Sub('relations', sighash, enum=relations),
    Sub('big', big, gen=st.tuples(st.sampled_from([1, 252, 253, 260]), st.sampled_from([0, 1, 252, 253, 300]), st.integers(0, 260), HT,
                                  st.sampled_from([0, 75, 76, 252, 253, 520, 65535])), quick=120, enum=big_enum),
]
