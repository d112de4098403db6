from hypothesis import strategies as st
from bitcoin.core.serialize import SerializationError, SerializationTruncationError, DeserializationExtraDataError
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises, outcome

RULE = """Valid encodings of every structure are cut at a position, extended, mutated (1-4 byte edits, often in the
CompactSizes), given non-minimal or enormous counts, or replaced by arbitrary bytes; an independent reader says whether
they decode (to which fields, with which padding) or are truncated or oversized. Non-trivial: not an unmodified valid
encoding."""
ASSUMPTIONS = ['The maximum read size is 0x02000000 bytes, as in the reference implementation']

KINDS = ('outpoint', 'txin', 'txout', 'tx', 'header', 'block')


def judge(kind, data):
    """('ok', plain, consumed, minimal) or the kind of error"""
    r = R.Reader(data)
    try:
        p = getattr(r, kind)()
    except R.Bad as e:
        return (e.kind,)
    return ('ok', p, r.i, r.minimal)


def decode(kind, data, T):
    cls = F.CLS[kind]
    want = judge(kind, data)
    T.label(kind, want[0])
    for pad in (False, True):
        got = outcome(cls.deserialize, data, allow_padding=True) if pad else outcome(cls.deserialize, data)
        if want[0] == 'truncated':
            ok(got[0] == 'exc' and isinstance(got[1], SerializationTruncationError), '%s: %r, expected a truncation error' % (kind, got))
        elif want[0] == 'size':
            ok(got[0] == 'exc' and isinstance(got[1], SerializationError) and
               not isinstance(got[1], (SerializationTruncationError, DeserializationExtraDataError)),
               '%s: %r, expected a size error' % (kind, got))
        else:
            _, p, n, minimal = want
            if n < len(data) and not pad:
                ok(got[0] == 'exc' and type(got[1]) is DeserializationExtraDataError, '%s: %r, expected an extra data error' % (kind, got))
                ok(isinstance(got[1], SerializationError), 'extra data error is a serialization error')
                eq(bytes(got[1].padding), data[n:], 'padding')
                obj = got[1].obj
                T.label('padding')
            else:
                ok(got[0] == 'ok', '%s: %r, expected an object' % (kind, got))
                obj = got[1]
            ok(type(obj) is cls, 'type %r' % type(obj))
            eq(F.PLAIN[kind](obj), p, '%s fields' % kind)
            eq(obj.serialize(), R.SER[kind](p), 're-serialized')
            if minimal:
                eq(obj.serialize(), data[:n], 're-serialized, minimal')
            else:
                T.label('nonminimal')


def prefixes(case, T):
    kind, p = case
    data = R.SER[kind](p)
    step = max(1, len(data) // 60)
    for n in sorted(set(range(0, len(data), step)) | set(range(max(0, len(data) - 10), len(data)))):
        raises(SerializationTruncationError, F.CLS[kind].deserialize, data[:n], what='prefix of %d of %d' % (n, len(data)))
        raises(SerializationTruncationError, F.CLS[kind].deserialize, data[:n], allow_padding=True, what='prefix, padding allowed')
    T.label(kind)
    T.nt(len(data) > 1)


def padded(case, T):
    (kind, p), pad = case
    if isinstance(pad, tuple):
        T.label('long padding')
        pad = bytes(i * 7 & 255 for i in range(pad[0]))
    decode(kind, R.SER[kind](p) + pad, T)
    T.nt(pad != b'')


def mutated(case, T):
    (kind, p), muts = case
    data = gen.mutate(R.SER[kind](p), muts)
    decode(kind, data, T)
    T.nt(data != R.SER[kind](p))


def arbitrary(case, T):
    kind, data = case
    decode(kind, data, T)
    T.nt(data != b'')


def sized(case, T):
    """A CompactSize replaced by another value or a longer form"""
    kind, which, width, value, p = case
    c = value.to_bytes(8, 'little')[:width]
    c = {1: b'', 2: b'\xfd', 4: b'\xfe', 8: b'\xff'}[width] + c
    if kind == 'txin':
        data = p[0] + R.u32(p[1]) + c + p[2] + R.u32(p[3])
    elif kind == 'txout':
        data = R.i64(p[0]) + c + p[1]
    elif kind == 'tx':
        ins = b''.join(map(R.ser_txin, p[1]))
        outs = b''.join(map(R.ser_txout, p[2]))
        data = (R.i32(p[0]) + (c if which else R.compact(len(p[1]))) + ins + (R.compact(len(p[2])) if which else c) + outs + R.u32(p[3]))
    else:
        data = R.ser_header(p[0]) + c + b''.join(map(R.ser_tx, p[1]))
    decode(kind, data, T)
    T.nt()


def _sized(draw):
    kind = draw(st.sampled_from(['txin', 'txout', 'tx', 'block']))
    p = draw(getattr(F, kind)())
    which = draw(st.booleans())
    n = {'txin': lambda: len(p[2]), 'txout': lambda: len(p[1]), 'tx': lambda: len(p[1] if which else p[2]), 'block': lambda: len(p[1])}[kind]()
    width = draw(st.sampled_from([1, 2, 4, 8]))
    value = draw(st.one_of(st.just(n), st.sampled_from([n + 1, max(0, n - 1), 0, 1]),
                           st.sampled_from([0x02000000 - 1, 0x02000000, 0x02000001, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, 252, 253, 65535, 65536])))
    value %= 256**width
    if width == 1 and value >= 253:
        value = 252
    return (kind, which, width, value, p)


KP = gen.mix(*[st.tuples(st.just(k), getattr(F, k)()) for k in KINDS])

SUBS = [
    Sub('prefixes', prefixes, gen=KP, quick=2100),
    Sub('padded', padded, gen=st.tuples(KP, st.one_of(st.binary(max_size=8), st.sampled_from([b'\0', b'\xff' * 100, (1000,), (4095,), (4096,), (4097,), (8193,), (65535,), (65537,), (300001,)]))), quick=2700),
    Sub('mutated', mutated, gen=st.tuples(KP, gen.mutations(4, 1)), quick=7500),
    Sub('sized', sized, gen=st.composite(_sized)(), quick=7500),
    Sub('arbitrary', arbitrary, gen=st.tuples(st.sampled_from(KINDS), st.one_of(
        st.binary(max_size=200), st.tuples(st.binary(max_size=8), st.sampled_from([0, 1, 0xff]), st.integers(0, 300)).map(
            lambda t: t[0] + bytes([t[1]]) * t[2]))), quick=6000),
]
