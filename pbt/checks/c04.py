from hypothesis import strategies as st
from .. import gen, ref_pm, fx_bits as fb
from ..core import Sub, eq, ok, raises, fail
from proofmarshal.bits import Bits

RULE = """Bit strings are the values of generated expressions (literals, bytes with any length and garbage in unused bits,
slices, concatenations, inversions, common prefixes, copies, round trips), compared with tuples of bits under every
operation; every slice of sample strings is enumerated, and lengths around every power of two to 65536 bits; pairs are unrelated or related (equal, extended, cut, one bit flipped). Non-trivial: a bit string of more
than eight bits or not a multiple of eight, produced by at least one operation."""
ASSUMPTIONS = ['Subclasses of Bits are outside the domain']


def agree(b, v, what):
    ok(type(b) is Bits, what + ': class')
    eq(len(b), len(v), what + ': length')
    eq(tuple(b), v, what + ': iteration')


def observe(case, T):
    e, slices, idxs = case
    seen = []
    b = fb.real(e, seen)
    v = fb.model(e)
    agree(b, v, 'value')
    n = len(v)
    for i in range(-n - 2, n + 2):
        if -n <= i < n:
            eq(b[i], v[i], 'index %d' % i)
        else:
            raises(IndexError, b.__getitem__, i, what='index %d of %d' % (i, n))
    for i in idxs:
        if not -n <= i < n:
            raises(IndexError, b.__getitem__, i, what='index %d of %d' % (i, n))
    for s in slices:
        agree(b[slice(*s)], v[slice(*s)], 'slice %r' % (s,))
    agree(~b, tuple(1 - x for x in v), 'inversion')
    ok(bool(b) is bool(v), 'truth value')
    for bad in ('0', 1.0, None, b'a'):
        raises(TypeError, b.__getitem__, bad, what='index %r' % (bad,))
    raises(ValueError, b.__getitem__, slice(None, None, 0), what='step zero')
    # operands never change
    for x, ex in seen:
        agree(x, fb.model(ex), 'operand %s' % ex[0])
    T.label(e[0])
    T.nt(n > 8 or n % 8 != 0 and e[0] not in ('lit', 'empty'))


def two(case, T):
    ea, eb = case
    a, b = fb.real(ea), fb.real(eb)
    va, vb = fb.model(ea), fb.model(eb)
    agree(a + b, va + vb, 'concatenation')
    agree(b + a, vb + va, 'concatenation')
    eq(a == b, va == vb, 'equality')
    eq(a != b, va != vb, 'inequality')
    eq(a.startswith(b), va[:len(vb)] == vb, 'startswith')
    eq(b.startswith(a), vb[:len(va)] == va, 'startswith')
    cp = ref_pm.common(va, vb)
    agree(a.common_prefix(b), cp, 'common prefix')
    agree(b.common_prefix(a), cp, 'common prefix')
    ok(a.common_prefix(b) == Bits(cp), 'common prefix compares equal to its bits')
    agree((a + b)[len(va):], vb, 'slice of a concatenation')
    agree(a, va, 'left operand afterwards')
    agree(b, vb, 'right operand afterwards')
    T.label('equal' if va == vb else 'prefix' if cp in (va, vb) else 'differ')
    T.nt(len(cp) > 0 or va == vb)


def types(case, T):
    e, other = case
    b = fb.real(e)
    raises(TypeError, lambda: b + other, what='concatenation with %r' % (other,))
    raises(TypeError, b.startswith, other, what='startswith')
    raises(TypeError, b.common_prefix, other, what='common_prefix')
    eq(b == other, False, 'equality with %r' % (other,))
    eq(b != other, True, 'inequality')
    T.nt()


def frombytes(case, T):
    """Only lengths that fit"""
    buf, n = case
    if 0 <= n <= len(buf) * 8:
        agree(Bits.from_bytes(buf, n), ref_pm.bits_of(buf)[:n], 'from_bytes')
        T.nt(n > 0)
    else:
        raises(ValueError, Bits.from_bytes, buf, n, what='length %d of %d bytes' % (n, len(buf)))
    for bad in ('a', bytearray(b'a'), None, [1]):
        raises(TypeError, Bits.from_bytes, bad)
    for bad in ('a', 1.0, b'1'):
        raises(TypeError, Bits.from_bytes, buf, bad)


def small_enum():
    """Every pair of bit strings of up to five bits, and with a whole byte in front"""
    def all_bits(mx):
        for n in range(mx + 1):
            for i in range(2**n):
                yield [(i >> k) & 1 for k in range(n)]
    for pre in ([], [1, 0, 1, 0, 1, 1, 0, 0], [0] * 7, [1] * 9):
        for a in all_bits(4):
            for b in all_bits(4):
                yield (('lit', pre + a), ('lit', pre + b))

    yield from fb.crossed()


def slice_enum():
    for n in list(range(0, 12)) + [15, 16, 17, 23, 24, 25]:
        for start in [None] + list(range(-n - 1, n + 2)):
            yield n, start


def every_slice(case, T):
    """Every start, stop and step over bit strings of short lengths and of whole bytes and one more or less"""
    n, start = case
    v = tuple((i * 5 + i * i // 7) & 1 for i in range(n))
    b = [Bits(v), Bits.from_bytes(ref_pm.pack_bits(v + (1,) * (-n % 8)), n), Bits.from_bytes(ref_pm.pack_bits((1,) + v + (1,) * (-(n + 1) % 8)), n + 1)[1:]][(n + (start or 0)) % 3]
    for stop in [None] + list(range(-n - 1, n + 2)):
        for step in (None, 1, 2, 3, 7, 8, 9, -1, -2, -3, -8):
            r = b[start:stop:step]
            want = v[start:stop:step]
            ok(len(r) == len(want) and tuple(r) == want, 'slice %r of %d bits is %r, expected %r' % ((start, stop, step), n, tuple(r), want))
            ok(r == Bits(want), 'slice %r compares equal to its bits' % ((start, stop, step),))
    T.nt()


def long_enum():
    """Lengths around every power of two of bytes up to 8192, with the second operand starting or differing anywhere"""
    for k in range(5, 14):
        for d in (-9, -8, -1, 0, 1, 8, 13):
            for r in (0, 1, 2):
                yield 2**k * 8 + d, r


def long(case, T):
    n, r = case
    whole = ref_pm.sha_stream(n // 8 + 4)
    big = int.from_bytes(whole, 'big')
    total = len(whole) * 8

    def model(a, b):
        # bits a to b as (number, length)
        return (big >> (total - b)) & ((1 << (b - a)) - 1), b - a

    def check(b, m, what):
        v, l = m
        eq(len(b), l, what + ': length')
        bits = iter(b)
        got = 0
        acc = []
        for bit in bits:
            acc.append('1' if bit else '0')
        ok(''.join(acc) == (bin(v)[2:].zfill(l) if l else ''), what + ': bits')

    x = Bits.from_bytes(whole)
    a = Bits.from_bytes(whole, n)
    check(a, model(0, n), 'from bytes')
    check(x[:n], model(0, n), 'start')
    cut = [5, n // 2 + 3, n - 7][r]
    left, right = x[:cut], x[cut:n]
    check(right, model(cut, n), 'rest')
    check(left + right, model(0, n), 'concatenation')
    ok(left + right == a and not left + right != a, 'equality')
    check(~a, ((1 << n) - 1 - model(0, n)[0], n), 'inversion')
    ok(a.startswith(left) and x.startswith(a) and not a.startswith(x), 'startswith')
    # differing at one place only
    for at in {0, cut, n - 1, n // 2, 8 * (n // 16), max(0, n - 8), n - 9}:
        w = bytearray(whole)
        w[at // 8] ^= 0x80 >> at % 8
        y = Bits.from_bytes(bytes(w), n)
        ok(a != y and not a == y, 'bit strings differing at %d of %d' % (at, n))
        ok(not y.startswith(a) and not x.startswith(y), 'startswith, differing at %d of %d' % (at, n))
        eq(len(a.common_prefix(y)), at, 'common prefix, differing at %d of %d' % (at, n))
        eq(len(y.common_prefix(x)), at, 'common prefix, differing at %d of %d' % (at, n))
        ok(a.common_prefix(y) == x[:at], 'common prefix')
    for i in (0, n - 1, -1, -n, cut):
        eq(a[i], model(i % n, i % n + 1)[0], 'item %d of %d' % (i, n))
    for i in (n, -n - 1, n + 2**16, n + 2**32, 2**64):
        raises(IndexError, a.__getitem__, i, what='index %d of %d' % (i, n))
    T.nt()


SUBS = [
    Sub('long', long, enum=long_enum),
    Sub('slices', every_slice, enum=slice_enum),
    Sub('observe', observe, gen=lambda: st.tuples(fb.exprs(), st.lists(st.tuples(fb.bound(), fb.bound(), fb.step()), max_size=6),
                                                  st.lists(st.integers(-2000, 2000), max_size=2)), quick=9000),
    Sub('two', two, gen=fb.pairs, quick=12000, enum=small_enum),
    Sub('types', types, gen=lambda: st.tuples(fb.exprs(1), st.sampled_from([None, (1, 0), [1], b'\x80', 'x', 5])), quick=900),
    Sub('frombytes', frombytes, gen=lambda: st.tuples(st.binary(max_size=5), st.integers(-3, 45)), quick=2400),
]
