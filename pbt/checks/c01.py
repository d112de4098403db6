import io
from hypothesis import strategies as st
import proofmarshal.serialize as ps
from .. import gen, ref_pm, fx_tree
from ..core import Sub, eq, ok, raises

RULE = """Values of every primitive type (booleans, integers of each width and unbounded varuints with all 7-bit-group
boundaries, fixed, variable and digest bytes with boundary lengths up to 4 MiB) are generated with Hypothesis, and
sequences of them for one context. Non-trivial: an integer needing two or more groups, a non-empty byte string, or a
sequence of two or more values."""
ASSUMPTIONS = ['The documented format is the reference encoder in pbt/ref_pm.py']

UINTS = {8: ps.UInt8, 16: ps.UInt16, 32: ps.UInt32, 64: ps.UInt64}
# integer types with a bound that is not a power of two, as a user may declare
MAXES = {m: type('UIntTo%d' % m, (ps.UInt,), {'MAX_INT': m}) for m in (0, 1, 2, 5, 100, 127, 128, 129, 1000, 16384, 100000, 21 * 10**14, 10**30)}


def kinds():
    return st.one_of(
        st.sampled_from([8, 16, 32, 64]).flatmap(lambda b: gen.uints(2**b - 1).map(lambda v: (('uint', b), v))),
        st.sampled_from(sorted(MAXES)).flatmap(lambda m: gen.uints(m).map(lambda v: (('max', m), v))),
        st.booleans().map(lambda v: (('bool',), v)),
        gen.blob(300).map(lambda v: (('fixed', len(v)), v)),
        gen.digest().map(lambda v: (('digest',), v)),
        st.tuples(gen.blob(300), st.integers(0, 200), st.integers(1, 200)).map(
            lambda t: (('var', max(0, len(t[0]) - t[1]), len(t[0]) + (t[2] if t[1] else max(t[2], 1))), t[0])),
        gen.blob(200).map(lambda v: (('var', 0, max(1, len(v))), v)))


def ser(kind):
    if kind[0] == 'uint':
        return UINTS[kind[1]]
    if kind[0] == 'max':
        return MAXES[kind[1]]
    if kind[0] == 'bool':
        return ps.SerBool
    if kind[0] == 'fixed':
        return ps.FixedBytes(kind[1])
    if kind[0] == 'digest':
        return ps.Digest
    if kind[0] == 'var':
        return ps.VarBytes(kind[2]) if kind[1] == 0 else ps.VarBytes(kind[1], kind[2])


def enc(kind, v):
    return ref_pm.enc_plain(('fixed', 32) if kind[0] == 'digest' else kind, v)


def single(case, T):
    kind, v = case
    s = ser(kind)
    s.check_instance(v)
    b = s.serialize(v)
    eq(b, enc(kind, v), 'serialization of %r' % (kind,))
    r = s.deserialize(b)
    eq((r, type(r)), (v, type(v)), 'round trip of %r' % (kind,))
    eq(s.serialize(v), b, 'second serialization')
    T.label(kind[0])
    T.nt(bool(v) and len(b) > 1 or kind[0] == 'bool')


def sequence(case, T):
    ctx = ps.BytesSerializationContext()
    want = b''
    for kind, v in case:
        ser(kind).ctx_serialize(v, ctx)
        want += enc(kind, v)
        eq(ctx.getbytes(), want, 'context after writing %r' % (kind,))
    fd = io.BytesIO()
    ctx2 = ps.StreamSerializationContext(fd)
    for kind, v in case:
        ctx2.write_obj(v, serialization_class=ser(kind))
    eq(fd.getvalue(), want, 'write_obj stream')
    rctx = ps.BytesDeserializationContext(want)
    for kind, v in case:
        eq(ser(kind).ctx_deserialize(rctx), v, 'read back %r' % (kind,))
    rctx.check_eof()
    rctx = ps.StreamDeserializationContext(io.BytesIO(want))
    for kind, v in case:
        r = rctx.read_obj(ser(kind))
        eq((r, type(r)), (v, type(v)), 'read_obj %r' % (kind,))
    T.label('len %d' % min(len(case), 5))
    T.nt(len(case) >= 2)


def raw(case, T):
    """The context methods themselves, with unbounded integers and length-less byte strings"""
    ctx = ps.BytesSerializationContext()
    want = b''
    for k, v in case:
        if k == 'u':
            ctx.write_varuint(v)
            want += ref_pm.leb128(v)
        elif k == 'b':
            ctx.write_bool(v)
            want += b'\xff' if v else b'\x00'
        elif k in 'fF':
            ctx.write_bytes(v)
            want += v
        elif k == 'v':
            ctx.write_varuint(len(v))
            ctx.write_bytes(v)
            want += ref_pm.leb128(len(v)) + v
    eq(ctx.getbytes(), want, 'raw context')
    r = ps.BytesDeserializationContext(want)
    for k, v in case:
        if k == 'u':
            eq(r.read_varuint(), v, 'read_varuint')
        elif k == 'b':
            eq(r.read_bool(), v, 'read_bool')
        elif k == 'f':
            eq(r.read_bytes(len(v)), v, 'read_bytes')
        elif k == 'F':
            eq(r.read_bytes(expected_length=len(v)), v, 'read_bytes')
        elif k == 'v':
            eq(r.read_bytes(), v, 'read_bytes()')
    r.check_eof()
    T.label(*[k for k, v in case])
    T.nt(len(case) >= 2 or any(k == 'u' and v > 127 for k, v in case))


def objects(case, T):
    """Proofs and primitive values mixed in one context, with the serializer given and (for proofs) left to be the class"""
    ctx = ps.BytesSerializationContext()
    want = b''
    for n, v, explicit in case:
        p = fx_tree.Item(n=n, data=v)
        if explicit:
            ctx.write_obj(p, serialization_class=fx_tree.Item)
        else:
            ctx.write_obj(p)
        ctx.write_obj(n, ps.UInt32)
        want += b'\0' + ref_pm.leb128(n) + ref_pm.leb128(len(v)) + v + ref_pm.leb128(n)
        eq(ctx.getbytes(), want, 'context')
    r = ps.BytesDeserializationContext(want)
    for n, v, explicit in case:
        p = r.read_obj(fx_tree.Item)
        eq((type(p), p.n, p.data), (fx_tree.Item, n, v), 'read_obj of a proof')
        eq(r.read_obj(ps.UInt32), n, 'read_obj')
    r.check_eof()
    T.nt(len(case) > 1)


def not_bool(case, T):
    ctx = ps.BytesSerializationContext()
    raises(TypeError, ctx.write_bool, case, what='write_bool(%r)' % (case,))
    raises(TypeError, ps.SerBool.serialize, case, what='SerBool.serialize(%r)' % (case,))
    T.nt()


def raw_gen():
    return st.lists(st.one_of(
        st.tuples(st.just('u'), gen.uints(2**140)),
        st.tuples(st.just('b'), st.booleans()),
        st.tuples(st.sampled_from('fFv'), gen.blob(300))), max_size=8)


def edges():
    for b in (8, 16, 32, 64):
        for v in gen.VARINT_EDGES:
            if v < 2**b:
                yield (('uint', b), v)
    for v in range(0, 256):
        yield (('uint', 8), v)
    for m in MAXES:
        for v in gen.VARINT_EDGES + [m - 1, m]:
            if 0 <= v <= m:
                yield (('max', m), v)
    for v in range(0, 65536, 7):
        yield (('uint', 16), v)
    for n in list(range(0, 300)) + [16383, 16384, 16385, 65535, 65536, 70000]:
        v = bytes([n % 251]) * n
        yield (('fixed', n), v)
        yield (('var', 0, max(1, n)), v)
        if n:
            yield (('var', n, n + 1), v)
            yield (('var', n - 1, n), v)
    for n in range(250, 312):
        for lo, hi in ((256, 300), (255, 256), (256, 257), (250, 512)):
            if lo <= n <= hi:
                yield (('var', lo, hi), bytes([n % 251]) * n)
    for n in (2**21 - 1, 2**21, 2**21 + 1, 2**22):
        yield (('var', 0, n), bytes([n % 251]) * n)
        yield (('var', n, n + 1), bytes([n % 251]) * n)
    yield (('bool',), True)
    yield (('bool',), False)


SUBS = [
    Sub('single', single, gen=kinds, quick=24000, enum=edges),
    Sub('sequence', sequence, gen=lambda: st.lists(kinds(), max_size=8), quick=9000),
    Sub('objects', objects, gen=lambda: st.lists(st.tuples(gen.uints(2**32 - 1), gen.blob(100), st.booleans()), max_size=5), quick=2400),
    Sub('not_bool', not_bool, enum=lambda: [0, 1, None, 'x', b'', b'\xff', 2, 1.0, []]),
    Sub('raw', raw, gen=raw_gen, quick=12000, examples=[[('v', b'abc')], [('v', b'')], [('v', b'a' * 2**21), ('b', True)], [('v', b'a' * (2**21 - 1)), ('u', 5)]]),
]
