from hypothesis import strategies as st
from bitcoin.core import CBlock, CBlockHeader, CTransaction
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok

RULE = """Outpoints, inputs, outputs, transactions, headers and blocks from plain field values (edges of every field
over-represented; script lengths and vector counts at 0, 252..254, 65535, 65536 in separate cases) are serialized and
compared with an encoder written from the protocol documentation, deserialized and compared field by field, alone and
several in one stream; pairs differing in one place are unequal, equal ones have equal hash(). Non-trivial: at least one script, input, output or transaction (or, for headers and outpoints,
a field that is neither 0 nor the maximum)."""
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 of hashlib are correct', 'Field values are in the range of their protocol types']


def check(kind, p, T, mutable=False):
    want = R.SER[kind](p)
    obj = F.REAL[kind](p, True) if mutable else F.REAL[kind](p)
    eq(obj.serialize(), want, '%s bytes' % kind)
    eq(F.PLAIN[kind](obj), p, '%s fields after construction' % kind)
    back = F.CLS[kind].deserialize(want)
    ok(type(back) is F.CLS[kind], '%s: type %r' % (kind, type(back)))
    eq(F.PLAIN[kind](back), p, '%s fields after deserialization' % kind)
    ok(back == obj and obj == back and not (back != obj), '%s: equality' % kind)
    eq(back.serialize(), want, '%s bytes again' % kind)
    h = R.sha256d(R.ser_header(p[0])) if kind == 'block' else R.sha256d(want)
    eq(obj.GetHash(), h, '%s hash' % kind)
    eq(back.GetHash(), h, '%s hash after deserialization' % kind)
    eq(back.GetHash(), h, '%s hash asked again' % kind)
    if kind == 'block':
        hd = obj.get_header()
        ok(type(hd) is CBlockHeader, 'header type')
        eq(hd.serialize(), R.ser_header(p[0]), 'header of the block')
        eq(hd.GetHash(), h, 'hash of the header of the block')
        eq([t.GetHash() for t in back.vtx], [R.txid(t) for t in p[1]], 'txids')
    if kind == 'tx':
        eq(obj.is_coinbase(), len(p[1]) == 1 and p[1][0][:2] == (bytes(32), 2**32 - 1), 'is_coinbase')
        for i, pi in zip(back.vin, p[1]):
            eq(i.is_final(), pi[3] == 2**32 - 1, 'is_final')
            eq(i.prevout.is_null(), pi[:2] == (bytes(32), 2**32 - 1), 'is_null')
    return obj


def struct(case, T):
    kind, p, mutable = case
    mutable = mutable and kind in ('outpoint', 'txin', 'txout', 'tx')
    check(kind, p, T, mutable)
    T.label(kind, 'mutable' if mutable else 'immutable')
    if kind == 'tx':
        T.label('%d in' % len(p[1]), '%d out' % len(p[2]))
    T.nt({'outpoint': lambda: 0 < p[1] < 2**32 - 1, 'txin': lambda: p[2] != b'', 'txout': lambda: p[1] != b'',
          'tx': lambda: bool(p[1] or p[2]), 'header': lambda: 0 < p[5] < 2**32 - 1, 'block': lambda: bool(p[1])}[kind]())


def expand(case):
    kind, ns, nin, nout, ntx, edge = case
    s = b'\x51' * ns
    if kind == 'txin':
        return (b'\7' * 32, edge, s, edge)
    if kind == 'txout':
        return (edge, s)
    t = (1, [(bytes([i % 251]) * 32, i, s if i == 0 else b'', edge) for i in range(nin)], [(i, s if i == 0 else b'') for i in range(nout)], edge)
    if kind == 'tx':
        return t
    return ((2, b'\1' * 32, b'\2' * 32, edge, edge, edge), [t] + [(i % 2, [], [(i, b'')], 0) for i in range(ntx)])


def sizes(case, T):
    check(case[0], expand(case), T)
    T.label(case[0], 'script %d' % case[1], 'vin %d' % case[2], 'vout %d' % case[3])
    T.nt()


LENS = [0, 1, 2, 127, 128, 251, 252, 253, 254, 255, 256, 257, 519, 520, 521, 32767, 32768, 65534, 65535, 65536, 65537, 100000]
COUNTS = [0, 1, 2, 3, 127, 128, 251, 252, 253, 254, 255, 256, 257]
BIG = [65535, 65536]


def sized_cases():
    for n in LENS:
        for k in ('txin', 'txout', 'tx', 'block'):
            yield (k, n, 1, 1, 0, 0xfffffffe)
    for c in COUNTS:
        yield ('tx', 0, c, 0, 0, 1)
        yield ('tx', 0, 0, c, 0, 1)
        yield ('tx', 3, c, c, 0, 1)
        yield ('block', 0, 1, 1, c, 1)


def big_cases():
    for c in BIG:
        yield ('tx', 0, 0, c, 0, 1)
        yield ('tx', 0, c, 1, 0, 1)
        yield ('block', 0, 1, 1, c - 1, 1)


def stream(case, T):
    import io
    data = b''.join(R.SER[k](p) for k, p in case)
    f = io.BytesIO(data + b'tail')
    for k, p in case:
        eq(F.PLAIN[k](F.CLS[k].stream_deserialize(f)), p, 'object in the stream')
    eq(f.read(), b'tail', 'what is left in the stream')
    g = io.BytesIO()
    for k, p in case:
        F.REAL[k](p).stream_serialize(g)
    eq(g.getvalue(), data, 'stream written')
    T.label('%d objects' % len(case))
    T.nt(len(case) > 1)


def varied(kind, p, what, v):
    """A value of the same kind, or the header of a block, that differs in about one place"""
    if kind == 'outpoint':
        return kind, (p[0], p[1] ^ 1 << v % 32) if what % 2 else (p[0][:v % 32] + bytes([p[0][v % 32] ^ 1 << v % 8]) + p[0][v % 32 + 1:], p[1])
    if kind == 'txin':
        return kind, [varied('outpoint', p[:2], v, what)[1] + p[2:], p[:2] + (p[2] + b'\x51', p[3]), p[:3] + (p[3] ^ 1 << v % 32,), p[:2] + (p[2][:-1], p[3])][what % 4]
    if kind == 'txout':
        return kind, [(p[0] ^ 1 << v % 63, p[1]), (p[0], p[1] + b'\0'), (p[0], p[1][1:])][what % 3]
    if kind == 'tx':
        vin, vout = list(p[1]), list(p[2])
        if what % 6 == 0 and vin:
            vin[v % len(vin)] = varied('txin', vin[v % len(vin)], v, what)[1]
        elif what % 6 == 1 and vout:
            vout[v % len(vout)] = varied('txout', vout[v % len(vout)], v, what)[1]
        elif what % 6 == 2:
            vin, vout = vin[1:] + vin[:1], vout[::-1]
        elif what % 6 == 3:
            vin, vout = (vin, vout[:-1]) if v % 2 else (vin[:-1], vout)
        else:
            return kind, (p[0] ^ (1 << v % 31), vin, vout, p[3]) if what % 6 == 4 else (p[0], vin, vout, p[3] ^ 1 << v % 32)
        return kind, (p[0], vin, vout, p[3])
    h = list(p if kind == 'header' else p[0])
    if kind == 'block' and what % 3:
        txs = list(p[1])
        if what % 6 == 1 and txs:
            txs[v % len(txs)] = varied('tx', txs[v % len(txs)], v, what)[1]
        elif what % 6 == 2:
            txs = txs[1:] + txs[:1]
        elif what % 6 == 4:
            txs = txs[:-1]
        elif txs:
            txs.append(txs[-1])
        return kind, (p[0], txs)
    f = v % 6
    h[f] = h[f] ^ 1 << what % 31 if f not in (1, 2) else h[f][:31] + bytes([h[f][31] ^ 1])
    return kind, tuple(h) if kind == 'header' else (tuple(h), p[1])


def equality(case, T):
    """Equal exactly when the bytes are; hash() agrees"""
    (kind, p), what, v, mutable = case
    _, q = varied(kind, p, what, v) if what else (kind, p)
    mutable = mutable and kind in ('outpoint', 'txin', 'txout', 'tx')
    a, b = F.REAL[kind](p), F.REAL[kind](q, True) if mutable else F.REAL[kind](q)
    same = R.SER[kind](p) == R.SER[kind](q)
    for x, y in ((a, b), (b, a), (F.CLS[kind].deserialize(R.SER[kind](p)), b), (a, F.CLS[kind].deserialize(R.SER[kind](q)))):
        eq(bool(x == y), same, '%s: ==' % kind)
        eq(bool(x != y), not same, '%s: !=' % kind)
        eq(y in [x], same, '%s: in a list' % kind)
        if same:
            eq(hash(x), hash(y), '%s: hash() of equals' % kind)
        if not mutable:
            eq(len({x, y}), 2 - same, '%s: in a set' % kind)
    if kind == 'block':
        eq(a.get_header() == b.get_header(), p[0] == q[0], 'headers of blocks')
        if p[0] == q[0]:
            eq(a.GetHash(), b.GetHash(), 'hashes of blocks with one header')
    T.label(kind, 'equal' if same else 'different')
    T.nt(not same)


KP = gen.mix(*[st.tuples(st.just(k), getattr(F, k)()) for k in ('outpoint', 'txin', 'txout', 'tx', 'header', 'block')])

SUBS = [
    Sub('struct', struct, gen=st.tuples(KP, st.booleans()).map(lambda t: t[0] + (t[1],)), quick=12000),
    Sub('sizes', sizes, enum=sized_cases),
    Sub('bigsizes', sizes, enum=big_cases, heavy=True),
    Sub('equality', equality, gen=st.tuples(KP, st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), st.integers(0, 999), st.booleans()), quick=4500),
    Sub('stream', stream, gen=st.lists(KP, max_size=4), quick=2400),
]
