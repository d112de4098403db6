import itertools
import math
import struct
from decimal import Decimal, getcontext

from hypothesis import strategies as st
from bitcoin.bloom import CBloomFilter, MurmurHash3
from bitcoin.core import COutPoint, CMutableOutPoint
from bitcoin.core.serialize import SerializationTruncationError
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """MurmurHash3 over all lengths modulo four, seeds and byte patterns; filters created from element counts and
false-positive rates around the protocol limits, and filters deserialized with any contents (up to 65537 bytes, nearly full ones, up to 1000 hash functions, all flags), followed by histories of
inserts, queries, copies through serialization and comparisons, over bytes (empty to 300) and outpoints; a bit-array model
decides every answer and every bit. Non-trivial: an insert followed by a query, or a hash of data with a tail."""
ASSUMPTIONS = ['Filters with hash functions have at least one byte of data', 'Rates lie strictly between 0 and 1 and counts are at least 1',
               'Where the size formula comes within 1e-9 of a whole number either rounding is accepted']


def murmur(case, T):
    seed, data = case
    eq(MurmurHash3(seed, data), R.murmur3(seed, data), 'MurmurHash3(%08x, %s)' % (seed, data.hex()))
    T.label('length %% 4 = %d' % (len(data) % 4))
    T.nt(len(data) % 4 != 0)


def floors(x, lo=None):
    """Acceptable results of rounding down a number computed in floating point"""
    return {math.floor(x), math.floor(x + Decimal('1e-9')), math.floor(x - Decimal('1e-9'))}


def create(case, T):
    n, rate, tweak, flags = case
    getcontext().prec = 60
    ln2 = Decimal(2).ln()
    f = CBloomFilter(n, rate, tweak, flags)
    bits = -1 / (ln2 * ln2) * n * Decimal(rate).ln()
    sizes = floors(min(bits, Decimal(36000 * 8)) / 8)
    ok(len(f.vData) in sizes, 'size %d for %r elements at %r, expected %r' % (len(f.vData), n, rate, sorted(sizes)))
    ok(not any(f.vData), 'the new filter is not empty')
    funcs = floors(min(Decimal(len(f.vData)) * 8 / n * ln2, Decimal(50)))
    ok(f.nHashFuncs in funcs, '%d hash functions for %r elements in %d bytes, expected %r' % (f.nHashFuncs, n, len(f.vData), sorted(funcs)))
    eq((f.nTweak, f.nFlags), (tweak, flags), 'tweak and flags')
    eq(f.IsWithinSizeConstraints(), True, 'limits')
    eq([CBloomFilter.UPDATE_NONE, CBloomFilter.UPDATE_ALL, CBloomFilter.UPDATE_P2PUBKEY_ONLY, CBloomFilter.UPDATE_MASK], [0, 1, 2, 3], 'flags of the protocol')
    T.label('full size' if len(f.vData) == 36000 else 'below', '50 functions' if f.nHashFuncs == 50 else 'fewer')
    T.nt(len(f.vData) == 36000 or f.nHashFuncs == 50 or len(f.vData) < 3)
    return f


def enc(data, funcs, tweak, flags):
    return R.compact(len(data)) + data + struct.pack('<IIB', funcs, tweak, flags)


class Model:
    def __init__(self, data, funcs, tweak, flags):
        self.data, self.funcs, self.tweak, self.flags = bytearray(data), funcs, tweak, flags

    def bits(self, e):
        return [R.murmur3((i * 0xFBA4C795 + self.tweak) & 0xffffffff, e) % (len(self.data) * 8) for i in range(self.funcs)]

    def insert(self, e):
        if self.data != b'\xff':
            for b in self.bits(e):
                self.data[b // 8] |= 1 << b % 8

    def contains(self, e):
        return self.data == b'\xff' or all(self.data[b // 8] >> b % 8 & 1 for b in self.bits(e))


def elem(e):
    """(plain bytes, what to pass)"""
    if e[0] == 'bytes':
        return e[1], e[1]
    return R.ser_outpoint(e[1:]), (CMutableOutPoint if e[0] == 'mutable' else COutPoint)(e[1], e[2])


def history(case, T):
    start, ops = case
    if start[0] == 'new':
        f = CBloomFilter(*start[1:])
        m = Model(bytes(len(f.vData)), f.nHashFuncs, start[3], start[4])
    else:
        f = CBloomFilter.deserialize(enc(*start[1:]))
        m = Model(*start[1:])
    inserted = []
    for op in ops:
        if op[0] == 'insert':
            e, real = elem(op[1])
            eq(f.insert(real), None, 'insert')
            m.insert(e)
            inserted.append((e, real))
        elif op[0] == 'query':
            e, real = elem(op[1])
            eq(f.contains(real), m.contains(e), 'contains %r' % (op[1],))
            T.label('contained' if m.contains(e) else 'not contained')
        elif op[0] == 'copy':
            b = enc(bytes(m.data), m.funcs, m.tweak, m.flags)
            eq(f.serialize(), b, 'serialization')
            g = CBloomFilter.deserialize(b)
            ok(g == f and not (g != f), 'equality after a copy')
            g.insert(b'something else')
            g.vData[:] = bytes(len(g.vData))
            f = CBloomFilter.deserialize(f.serialize())
        elif op[0] == 'cut':
            b = f.serialize()
            raises(SerializationTruncationError, CBloomFilter.deserialize, b[:op[1] % len(b)], what='cut filter')
        eq(bytes(f.vData), bytes(m.data), 'bits after %r' % (op,))
        for e, real in inserted:
            ok(f.contains(real) and f.contains(e), 'inserted element %s is missing' % e.hex())
            ok(f.contains(COutPoint.deserialize(e)) if len(e) == 36 else True, 'inserted element is missing as an outpoint')
        if m.data:
            e = op[1] if op[0] == 'insert' else ('bytes', b'abc')
            for i in (0, 1, m.funcs):
                eq(f.bloom_hash(i, elem(e)[0]), R.murmur3((i * 0xFBA4C795 + m.tweak) & 0xffffffff, elem(e)[0]) % (len(m.data) * 8), 'bit %d' % i)
    eq((f.nHashFuncs, f.nTweak, f.nFlags), (m.funcs, m.tweak, m.flags), 'parameters')
    eq(f.IsWithinSizeConstraints(), len(m.data) <= 36000 and m.funcs <= 50, 'limits')
    T.label(start[0], 'full byte' if m.data == b'\xff' else 'ordinary')
    T.nt(len(inserted) > 0 and len(ops) > 1)


def big(case, T):
    """Long and nearly full filters, many hash functions, all flags"""
    size, fill, funcs, flags = case
    data = {'empty': bytes(size), 'full': b'\xff' * size, 'last': b'\xff' * (size - 1) + b'\xfe', 'first': b'\x7f' + b'\xff' * (size - 1),
            'half': b'\xff' * (size // 2) + bytes(size - size // 2), 'mixed': (R.sha256(b'%d' % size) * (size // 32 + 1))[:size]}[fill]
    tweak = (size * 0x9E3779B1 + funcs) & 0xffffffff
    m = Model(data, funcs, tweak, flags)
    f = CBloomFilter.deserialize(enc(data, funcs, tweak, flags))
    eq(f.serialize(), enc(data, funcs, tweak, flags), 'serialization')
    eq((f.nHashFuncs, f.nTweak, f.nFlags), (funcs, tweak, flags), 'parameters')
    seen = set()
    for k in range(6 if size < 20000 else 40 // max(1, funcs // 10)):
        e = b'%d of %d' % (k, size)
        eq(f.contains(e), m.contains(e), 'contains %r' % e)
        seen.add(m.contains(e))
        # Query the rest before most of it is in
        if k % 3 == 0:
            f.insert(e)
            m.insert(e)
            ok(f.contains(e), 'inserted element %r is missing' % e)
    if fill in ('last', 'first'):
        # An element on the one bit that is missing, if there is one nearby
        at = size * 8 - 8 if fill == 'last' else 7
        for k in range(min(2000, 12 * size)):
            e = k.to_bytes(3, 'big')
            if (size < 40 or k < 200) and at in m.bits(e)[:60]:
                eq(f.contains(e), m.contains(e), 'the only missing bit')
                T.label('the only missing bit')
                break
    eq(f.serialize(), enc(bytes(m.data), funcs, tweak, flags), 'serialization after inserts')
    eq(f.IsWithinSizeConstraints(), size <= 36000 and funcs <= 50, 'limits')
    T.label(fill, *['%s' % s for s in seen])
    T.nt()


def big_filters():
    for size in (2, 16, 31, 63, 64, 65, 127, 128, 252, 253, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 35999, 36000, 36001, 65535, 65536, 65537):
        for fill in ('empty', 'full', 'last', 'first', 'half', 'mixed'):
            for funcs in (1, 11):
                yield size, fill, funcs, size * 3 + funcs & 255
    for funcs in (0, 50, 51, 127, 128, 255, 256, 257, 300, 1000):
        for size in (3, 64, 300, 2000, 40000):
            for fill in ('empty', 'first', 'mixed'):
                yield size, fill, funcs, funcs & 255
    for flags in range(256):
        yield 5, 'mixed', 3, flags
        yield 1500, 'mixed', 3, flags


def limits(case, T):
    size, funcs = case
    f = CBloomFilter.deserialize(enc(bytes(size), funcs, 5, 1))
    eq(f.IsWithinSizeConstraints(), size <= 36000 and funcs <= 50, '%d bytes, %d functions' % case)
    T.nt()


SEED = F.u32()
DATA = gen.mix(st.binary(max_size=9), st.binary(max_size=40), gen.blob(300), st.sampled_from([b'\xff' * n for n in range(12)]), st.sampled_from([b'\x80' * n for n in range(12)]))
RATE = gen.mix(st.sampled_from([0.01, 0.001, 0.0001, 1e-6, 1e-12, 1e-300, 0.5, 0.9, 0.99, 0.999999]), st.floats(1e-9, 0.999))
COUNT = gen.mix(st.integers(1, 30), st.integers(1, 20000), st.sampled_from([1, 2, 3, 20000, 20033, 20034, 100000, 10**6, 10**9]))
FLAGS = st.sampled_from([0, 1, 2, 3, 255])
TWEAK = F.u32()
ELEM = gen.mix(st.integers(0, 3).map(lambda i: ('bytes', bytes([i]))), DATA.map(lambda d: ('bytes', d)), st.tuples(st.sampled_from(['outpoint', 'mutable']), F.hash32(), F.u32()),
               st.tuples(st.sampled_from(['outpoint', 'mutable']), st.just(b'\1' * 32), st.integers(0, 2)), st.integers(0, 2).map(lambda i: ('bytes', b'\1' * 32 + R.u32(i))))
NEW = st.tuples(st.just('new'), st.integers(1, 12), st.sampled_from([0.01, 0.3, 0.0001, 1e-20, 0.9]), TWEAK, FLAGS)
RAW = st.tuples(st.just('raw'), gen.mix(st.integers(1, 30).map(bytes), st.binary(min_size=1, max_size=20), st.sampled_from([b'\xff', b'\xfe', b'\xff\xff', b'\x7f', b'\0']), st.lists(st.sampled_from([0, 0xff, 0xfe, 0x7f]), min_size=1, max_size=4).map(bytes)),
                gen.mix(st.integers(0, 12), st.sampled_from([0, 1, 49, 50, 51])), TWEAK, FLAGS)
OP = gen.mix(st.tuples(st.just('insert'), ELEM), st.tuples(st.just('insert'), ELEM), st.tuples(st.just('query'), ELEM), st.tuples(st.just('query'), ELEM), st.just(('copy',)),
             st.tuples(st.just('cut'), st.integers(0, 100)))
def lengths():
    for n in list(range(0, 600)) + [767, 768, 1021, 1022, 1023, 1024, 4095, 4099, 65535, 65536, 65537, 65539]:
        yield (n * 0x9E3779B1 & 0xffffffff, bytes((i * 7 + i // 256 + n) & 255 for i in range(n)))
        if n < 70:
            yield (0xffffffff, b'\xff' * n)
            yield (0, b'\x80' * n)



def tiny_filters():
    bs = [0, 1, 0x7f, 0x80, 0xfe, 0xff]
    for n in (1, 2, 3):
        for t in itertools.product(bs if n < 3 else [0, 0xfe, 0xff], repeat=n):
            for funcs in (1, 2, 7):
                yield bytes(t), funcs


def tiny(case, T):
    data, funcs = case
    for k in range(24):
        e = bytes([k] * (k % 6))
        history((('raw', data, funcs, k * 77777, k % 3), [('query', ('bytes', e)), ('query', ('outpoint', bytes([k]) * 32, k)), ('insert', ('bytes', e + b'a')), ('query', ('bytes', e))]), T)


SUBS = [
    Sub('big', big, enum=big_filters),
    Sub('tiny', tiny, enum=tiny_filters),
    Sub('lengths', murmur, enum=lengths),
    Sub('murmur', murmur, gen=st.tuples(SEED, DATA), quick=12000),
    Sub('create', create, gen=st.tuples(COUNT, RATE, TWEAK, FLAGS), quick=2400),
    Sub('history', history, gen=st.tuples(gen.mix(NEW, RAW), st.lists(OP, min_size=1, max_size=8)), quick=3000),
    Sub('limits', limits, enum=lambda: [(s, n) for s in (0, 1, 35999, 36000, 36001, 72000) for n in (0, 1, 49, 50, 51, 2**32 - 1)]),
]
