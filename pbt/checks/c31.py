from hypothesis import strategies as st
from bitcoin.core import CTxOut, CTransaction, CTxIn, COutPoint, GetLegacySigOpCount
from bitcoin.core.script import CScript
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Scripts made of operations (signature opcodes and small numbers over-represented), near-miss P2SH and
OP_RETURN patterns, non-canonical pushes, cuts and mutations; every two-byte script and every operation around each kind of cut push; every predicate and both signature-operation counts are compared
with byte-level definitions. Non-trivial: the script has at least two operations, or an invalid push, or is within one
edit of a P2SH script."""
ASSUMPTIONS = []


def canonical(s):
    got, bad = R.ops(s)
    if bad is not None:
        return False
    for op, data, _ in got:
        if op > 0x60 or data is None:
            continue
        n = len(data)
        if 0 < op < 0x4c and n == 1 and data[0] <= 16:
            return False
        if op == 0x4c and n < 0x4c or op == 0x4d and n <= 0xff or op == 0x4e and n <= 0xffff:
            return False
    return True


def push_only(s):
    got, bad = R.ops(s)
    return bad is None and all(op <= 0x60 for op, _, _ in got)


def predicates(case, T):
    s = gen.mutate(*case)
    c = CScript(s)
    got, bad = R.ops(s)
    eq(bool(c.is_p2sh()), R.is_p2sh(s), 'is_p2sh')
    eq(bool(c.is_push_only()), push_only(s), 'is_push_only')
    eq(bool(c.has_canonical_pushes()), canonical(s), 'has_canonical_pushes')
    eq(bool(c.is_unspendable()), s[:1] == b'\x6a', 'is_unspendable')
    eq(bool(c.is_valid()), bad is None, 'is_valid')
    for acc in (True, False):
        eq(c.GetSigOpCount(acc), R.sigops(s, acc), 'GetSigOpCount(%r)' % acc)
    for v in (0, 21 * 10**14, -1, 21 * 10**14 + 1):
        eq(bool(CTxOut(v, c).is_valid()), 0 <= v <= 21 * 10**14 and bad is None, 'output validity, value %d' % v)
    for name, v in (('p2sh', R.is_p2sh(s)), ('push only', push_only(s)), ('canonical', canonical(s)), ('invalid', bad is not None),
                    ('unspendable', s[:1] == b'\x6a'), ('sigops', R.sigops(s, False) > 0),
                    ('accurate differs', R.sigops(s, False) != R.sigops(s, True))):
        if v:
            T.label(name)
    T.nt(len(got) >= 2 or bad is not None or len(s) in (22, 23, 24))


def pairs_of():
    for a in range(256):
        yield a


ENDS = [b'\1', b'\x4b', b'\x4b\7', b'\x4c', b'\x4c\1', b'\x4c\0', b'\x4c\xff\xae', b'\x4d', b'\x4d\1', b'\x4d\1\0', b'\x4d\0\0', b'\x4e', b'\x4e\1', b'\x4e\0\0\0',
        b'\x4e\1\0\0\0', b'\x4e\0\0\0\0', b'\x4e\xff\xff\xff\xff\xac', b'\2\xac']


def all_pairs(case, T):
    """Every script of two bytes, and every operation before and after each kind of cut push"""
    for b in range(256):
        predicates((bytes([case, b]), []), T)
    for e in ENDS:
        for n in (1, 2):
            predicates((bytes([case]) * n + e, []), T)
        predicates((e + bytes([case]), []), T)


def wrapper(case, T):
    s = case if isinstance(case, bytes) else bytes([case[1]]) * case[0]
    c = CScript(s)
    want = R.p2sh_script(R.hash160(s))
    if len(s) > 520:
        raises(ValueError, c.to_p2sh_scriptPubKey, what='wrapping %d bytes' % len(s))
        raises(ValueError, c.to_p2sh_scriptPubKey, checksize=True, what='wrapping %d bytes' % len(s))
    else:
        r = c.to_p2sh_scriptPubKey()
        ok(type(r) is CScript, 'type')
        eq(bytes(r), want, 'wrapper')
        eq(bytes(c.to_p2sh_scriptPubKey(checksize=True)), want, 'wrapper, size checked')
    r = c.to_p2sh_scriptPubKey(checksize=False)
    eq(bytes(r), want, 'wrapper, size not checked')
    ok(r.is_p2sh(), 'a wrapper is P2SH')
    T.label('%d' % len(s) if len(s) in (0, 519, 520, 521) else 'other')
    T.nt(len(s) > 0)


def legacy(case, T):
    tx = case
    n = sum(R.sigops(i[2], False) for i in tx[1]) + sum(R.sigops(o[1], False) for o in tx[2])
    eq(GetLegacySigOpCount(F.r_tx(tx)), n, 'legacy count')
    eq(GetLegacySigOpCount(F.r_tx(tx, True)), n, 'legacy count, mutable')
    T.nt(n > 0)


def numbers():
    for op in range(256):
        for check in (0xac, 0xad, 0xae, 0xaf):
            yield bytes([op, check])
            yield b'\x52' + bytes([op, check, check])
            for before in (b'\xac', b'\xaf', b'\x53\xae\x61', b'\xad' * 20, b'\1\xac\xae'):
                yield before + bytes([op, check])
                yield before + bytes([op, 0x61, check]) + before
            yield bytes([op]) * 2 + bytes([check]) * 3


def near(case, T):
    predicates((case, []), T)


SIGOP = st.sampled_from([0xac, 0xad, 0xae, 0xaf, 0xae]).map(lambda b: bytes([b]))
SMALL = st.sampled_from(list(range(0x4f, 0x63)) + [0]).map(lambda b: bytes([b]))
PUSH = st.one_of(
    st.integers(0, 255).map(lambda v: b'\1' + bytes([v])), st.integers(0, 20).map(lambda v: b'\1' + bytes([v])),
    st.tuples(st.sampled_from([0, 1, 2, 74, 75, 76, 77, 254, 255, 256, 257]), st.sampled_from([1, 2, 4])).map(
        lambda t: bytes([{1: 0x4c, 2: 0x4d, 4: 0x4e}[t[1]]]) + min(t[0], 256**t[1] - 1).to_bytes(t[1], 'little') + b'\xae' * min(t[0], 256**t[1] - 1)),
    st.sampled_from([65534, 65535, 65536]).map(lambda n: b'\x4e' + n.to_bytes(4, 'little') + b'\1' * n))
SCRIPT = gen.mix(
    st.lists(gen.mix(SIGOP, SMALL, PUSH, F.op()), max_size=8).map(b''.join),
    st.lists(gen.mix(SMALL, PUSH), max_size=5).map(b''.join),
    st.tuples(st.sampled_from([SMALL, SIGOP]).flatmap(lambda s: s), st.binary(max_size=20)).map(b''.join))
P2SH = gen.fixed(20).map(R.p2sh_script)
NONE = st.just([])
CASES = gen.mix(
    st.tuples(SCRIPT, gen.mutations(2, 0, kinds=('trunc', 'trunc', 'set', 'ins', 'del'))),
    st.tuples(SCRIPT, NONE),
    st.tuples(P2SH, gen.mutations(2)),
    st.tuples(P2SH, st.tuples(st.sampled_from(['xor', 'set', 'del', 'ins']), st.sampled_from([0, 1, 2, 21, 22, 23]), st.integers(0, 255)).map(lambda m: [m])),
    st.tuples(gen.fixed(21).map(lambda b: b'\xa9' + b + b'\x87'), NONE),
    st.tuples(st.binary(max_size=10).map(lambda b: b'\x6a' + b), gen.mutations(1)),
    st.tuples(st.binary(max_size=60), NONE))

SUBS = [
    Sub('predicates', predicates, gen=CASES, quick=18000),
    Sub('pairs', all_pairs, enum=pairs_of),
    Sub('numbers', near, enum=numbers),
    Sub('wrapper', wrapper, gen=st.one_of(st.binary(max_size=40), st.tuples(st.sampled_from([518, 519, 520, 521, 522, 600, 10000]), st.integers(0, 255)),
                                          st.tuples(st.integers(0, 700), st.integers(0, 3))), quick=2100),
    Sub('legacy', legacy, gen=F.tx(3, 3, script=gen.mix(SCRIPT, F.raw_script()), value=st.integers(0, 5)), quick=1500),
]
