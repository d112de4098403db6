from hypothesis import strategies as st
import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer
from .. import gen, ref_pm, fx_bits as fb
from ..core import Sub, eq, ok, raises, fail

RULE = """Bit strings produced by generated expressions are serialized and compared with the reference packing; pairs
(equal but differently produced, or different) must serialize equal or different accordingly; encodings with garbage
in the padding must be rejected. Non-trivial: at least one bit."""
ASSUMPTIONS = []


def roundtrip(case, T):
    b, v = fb.real(case), fb.model(case)
    s = BitsSerializer.serialize(b)
    eq(s, ref_pm.enc_plain(('bits',), v), 'serialization')
    d = BitsSerializer.deserialize(s)
    ok(type(d) is Bits and d == b, 'round trip')
    eq(tuple(d), v, 'round trip bits')
    BitsSerializer.check_instance(b)
    ctx = ps.BytesSerializationContext()
    ctx.write_varuint(7)
    ctx.write_obj(b, BitsSerializer)
    ctx.write_bool(True)
    r = ps.BytesDeserializationContext(ctx.getbytes())
    eq(r.read_varuint(), 7, 'before')
    eq(tuple(r.read_obj(BitsSerializer)), v, 'within a context')
    eq(r.read_bool(), True, 'after')
    # garbage in the padding
    pad = (-len(v)) % 8
    for k in range(pad):
        bad = s[:-1] + bytes([s[-1] | (1 << k)])
        raises(ps.DeserializationError, BitsSerializer.deserialize, bad, what='padding bit %d set' % k)
    T.label('mod8=%d' % (len(v) % 8))
    T.nt(len(v) > 0)


def pair(case, T):
    a, b = fb.real(case[0]), fb.real(case[1])
    va, vb = fb.model(case[0]), fb.model(case[1])
    eq(BitsSerializer.serialize(a) == BitsSerializer.serialize(b), va == vb, 'serializations equal')
    T.label('equal' if va == vb else 'different')
    T.nt(case[0] != case[1])


def lengths():
    for n in list(range(0, 70)) + [127, 128, 129, 135, 136, 1015, 1016, 1017, 1023, 1024, 1025, 16383, 16384, 16385, 20000, 65535, 65536, 65541, 131072, 2**19 + 3, 2**21 - 1, 2**21 + 5]:
        for fill in (b'\x00', b'\xff', b'\xa5'):
            yield ('bytes', fill * (n // 8 + 2), n)


SUBS = [
    Sub('roundtrip', roundtrip, gen=fb.exprs, quick=15000, enum=lengths, examples=[('empty',), ('lit', [1] * 8), ('lit', [0] * 16)]),
    Sub('pair', pair, gen=fb.pairs, quick=12000),
]
