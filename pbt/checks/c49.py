import io
import struct

from hypothesis import strategies as st
from bitcoin.core import COutPoint, CTxOut, CTransaction, Hash, Hash160
from bitcoin.core.serialize import (BytesSerializer, SerializationError, SerializationTruncationError, VarIntSerializer, VarStringSerializer,
                                    VectorSerializer, intVectorSerialzer, uint256VectorSerializer, uint256_from_str, uint256_to_shortstr, ser_read)
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Counts at and around every CompactSize threshold and random up to 64 bits, negative numbers, non-minimal and cut
encodings; byte strings, hash, integer, string and object lists with 0 to 300 elements (and 65535 to 65537 small ones), alone
and followed by other data in a stream, cut at every kind of place; 256-bit conversions. Non-trivial: a value at or past the
253 threshold, a list of at least two elements, or damaged data."""
ASSUMPTIONS = ['Counts are below 2**64', 'Strings handed to the 256-bit conversion have at least 32 bytes, of which the first 32 count']


def both(ser, de, value, want, what, tail=b'\xab\xcd'):
    """Serialize, deserialize alone and inside a stream, and cut"""
    f = io.BytesIO()
    ser(value, f)
    eq(f.getvalue(), want, '%s: encoding' % what)
    f = io.BytesIO(want + tail)
    eq(de(f), value, '%s: decoding' % what)
    eq(f.tell(), len(want), '%s: bytes read' % what)
    for n in sorted({0, 1, len(want) // 2, len(want) - 1}):
        if n < len(want):
            raises(SerializationTruncationError, de, io.BytesIO(want[:n]), what='%s: cut to %d of %d bytes' % (what, n, len(want)))


def counts(case, T):
    n = case
    want = R.compact(n)
    both(VarIntSerializer.stream_serialize, VarIntSerializer.stream_deserialize, n, want, 'count %d' % n)
    eq(VarIntSerializer.serialize(n), want, 'serialize')
    eq(VarIntSerializer.deserialize(want), n, 'deserialize')
    for w, c in ((2, 253), (4, 254), (8, 255)):
        if n < 256**w:
            eq(VarIntSerializer.deserialize(bytes([c]) + n.to_bytes(w, 'little')), n, 'decoding of a %d byte form' % w)
    for neg in (-1, -n - 1):
        f = io.BytesIO()
        raises(ValueError, VarIntSerializer.stream_serialize, neg, f, what='count %d' % neg)
        eq(f.getvalue(), b'', 'bytes written for a negative count')
        raises(ValueError, VarIntSerializer.serialize, neg, what='count %d' % neg)
    T.label('%d bytes' % len(want))
    T.nt(n >= 253)


def strings(case, T):
    b = case
    want = R.compact(len(b)) + b
    for cls in (BytesSerializer, VarStringSerializer):
        both(cls.stream_serialize, cls.stream_deserialize, b, want, cls.__name__)
        eq(cls.serialize(b), want, 'serialize')
        eq(cls.deserialize(want), b, 'deserialize')
    for n in (R.MAX_SIZE + 1, 2**32, 2**63, 2**64 - 1):
        e = raises(SerializationError, BytesSerializer.deserialize, R.compact(n) + b, what='length %d' % n)
        ok(not isinstance(e, SerializationTruncationError), 'length %d: %r' % (n, e))
    if len(b) < R.MAX_SIZE:
        raises(SerializationTruncationError, BytesSerializer.deserialize, R.compact(len(b) + 1) + b, what='one byte missing')
        raises(SerializationTruncationError, BytesSerializer.deserialize, R.compact(R.MAX_SIZE) + b, what='many bytes missing')
    eq(ser_read(io.BytesIO(b + b'x'), len(b)), b, 'ser_read')
    raises(SerializationTruncationError, ser_read, io.BytesIO(b), len(b) + 1, what='ser_read past the end')
    T.label('length byte' if len(b) < 253 else 'longer')
    T.nt(len(b) >= 253)


def lists(case, T):
    kind, xs = case[0], case[1]
    if len(case) > 2:
        xs = [xs] * case[2]
    if kind == 'hashes':
        ser, de, enc = uint256VectorSerializer.stream_serialize, uint256VectorSerializer.stream_deserialize, bytes
        eq(uint256VectorSerializer.deserialize(uint256VectorSerializer.serialize(xs)), xs, 'round trip')
        eq(uint256VectorSerializer.serialize(tuple(xs)), R.compact(len(xs)) + b''.join(xs), 'tuple')
    elif kind == 'ints':
        ser, de, enc = intVectorSerialzer.stream_serialize, intVectorSerialzer.stream_deserialize, lambda i: struct.pack('<i', i)
        eq(intVectorSerialzer.deserialize(intVectorSerialzer.serialize(xs)), xs, 'round trip')
    else:
        cls, enc, real = {'strings': (VarStringSerializer, R.ser_script, lambda s: s), 'outpoints': (COutPoint, R.ser_outpoint, F.r_outpoint), 'outputs': (CTxOut, R.ser_txout, F.r_txout),
                          'txs': (CTransaction, R.ser_tx, F.r_tx), 'counts': (VarIntSerializer, R.compact, lambda n: n)}[kind]
        want = R.compact(len(xs)) + b''.join(map(enc, xs))
        ser, de = lambda v, f: VectorSerializer.stream_serialize(cls, v, f), lambda f: VectorSerializer.stream_deserialize(cls, f)
        plain, xs = xs, [real(v) for v in xs]
        both(ser, de, xs, want, 'list of %s' % kind)
        T.label(kind)
        T.nt(len(xs) > 1)
        return
    want = R.compact(len(xs)) + b''.join(map(enc, xs))
    both(ser, de, xs, want, 'list of %s' % kind)
    T.label(kind, 'long' if len(xs) > 252 else 'short')
    T.nt(len(xs) > 1)


def numbers(case, T):
    n, tail = case
    b = n.to_bytes(32, 'little')
    eq(uint256_from_str(b), n, 'uint256_from_str')
    eq(uint256_from_str(b + tail), n, 'uint256_from_str of a longer string')
    eq(uint256_to_shortstr(n), ('%064x' % n)[:16], 'uint256_to_shortstr')
    T.nt(n > 2**32)


def hashes(case, T):
    eq(Hash(case), R.sha256d(case), 'Hash')
    eq(Hash160(case), R.hash160(case), 'Hash160')
    T.nt(len(case) > 0)


EDGES = sorted({v for b in (0, 253, 2**8, 2**15, 2**16, 2**31, 2**32, 2**40, 2**63, 2**64 - 1) for v in range(b - 3, b + 4) if 0 <= v < 2**64})
I32 = F.i32()
SUBS = [
    Sub('counts', counts, gen=gen.uints(2**64 - 1), quick=7500, enum=lambda: EDGES + list(range(300))),
    Sub('strings', strings, gen=gen.blob(70000), quick=2400, enum=lambda: [b'\x5a' * n for n in list(range(250, 260)) + [65534, 65535, 65536, 65537, 10**6]]),
    Sub('lists', lists, gen=gen.mix(st.tuples(st.just('hashes'), st.lists(F.hash32(), max_size=6)), st.tuples(st.just('ints'), st.lists(I32, max_size=12)),
                                    st.tuples(st.just('strings'), st.lists(gen.blob(300), max_size=5)), st.tuples(st.just('outpoints'), st.lists(F.outpoint(), max_size=5)),
                                    st.tuples(st.just('outputs'), st.lists(F.txout(), max_size=5)), st.tuples(st.just('txs'), st.lists(F.tx(2, 2), max_size=3)),
                                    st.tuples(st.just('counts'), st.lists(gen.uints(2**64 - 1), max_size=6)),
                                    st.tuples(st.just('ints'), I32, st.sampled_from([252, 253, 254, 300])), st.tuples(st.just('hashes'), F.hash32(), st.sampled_from([252, 253, 254, 300]))), quick=4500,
        enum=lambda: [(k, v, n) for k, v in (('ints', -5), ('hashes', b'\7' * 32), ('strings', b'x'), ('counts', 300)) for n in (252, 253, 254, 65535, 65536, 65537)]),
    Sub('numbers', numbers, gen=st.tuples(gen.mix(st.integers(0, 2**256 - 1), st.integers(0, 255).map(lambda b: 1 << b), st.integers(0, 255).map(lambda b: (1 << b) - 1)), st.sampled_from([b'', b'\xff', b'\1' * 40])), quick=2400),
    Sub('hashes', hashes, gen=gen.blob(600), quick=1500),
]
