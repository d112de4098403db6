import sys

from hypothesis import strategies as st
import bitcoin.core
import bitcoin.core._bignum as B
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, outcome

RULE = """Integers around every sign-bit and byte boundary up to 32768 bits and all byte strings (with redundant zeros and
negative zeros) are converted in both directions and compared with the definition; scripts made of integers and arithmetic
opcodes on all argument values of up to four bytes must show the same encoding. Non-trivial: an integer outside -1..16 or a
byte string of at least two bytes."""
ASSUMPTIONS = []
# So that failures with long integers can be reported
sys.set_int_max_str_digits(0)

TX = F.r_tx((1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [], 0))


def integer(case, T):
    n = case
    v = B.bn2vch(n)
    ok(isinstance(v, bytes), 'type')
    eq(bytes(v), R.num(n), 'encoding of %d' % n)
    eq(B.vch2bn(v), n, 'decoding of the encoding of %d' % n)
    m = B.bn2mpi(n)
    want = R.num(n)[::-1]
    eq(bytes(m), len(want).to_bytes(4, 'big') + want, 'MPI form of %d' % n)
    eq(B.mpi2bn(m), n, 'decoding of the MPI form of %d' % n)
    if not -1 <= n <= 16:
        eq(bytes(CScript([n])), R.push(R.num(n)), 'script of the integer')
    T.label('%d bytes' % len(v), 'negative' if n < 0 else 'nonnegative')
    T.nt(not -1 <= n <= 16)


def every():
    for n in range(-70000, 70001):
        yield n


def boundaries():
    for b in range(0, 80):
        for d in range(-3, 4):
            for s in (1, -1):
                yield s * (2**b + d)


def large():
    for p in range(7, 16):
        for b in (2**p - 9, 2**p - 8, 2**p - 1, 2**p, 2**p + 7, 2**p + 8, 2**p + 9):
            for n in (2**b, 2**b - 1, 2**b + 1, int.from_bytes(bytes(i * 37 + 1 & 255 for i in range(b // 8)), 'big') | 1 << b):
                yield n
                yield -n


def large_mpi():
    """The size in front is compared as a whole"""
    for n in (0, 1, 3, 4, 5, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537):
        data = bytes(i * 37 + 1 & 255 for i in range(n))
        for d in (0, 1, -1, 4, -4, 256, -256, 65536, -65536, 2**24, 2**31):
            if 0 <= n + d < 2**32:
                yield (n + d).to_bytes(4, 'big') + data


def string(case, T):
    b = case
    eq(B.vch2bn(b), R.unnum(b), 'value of %s' % b.hex())
    r = B.bn2vch(R.unnum(b))
    eq(B.vch2bn(r), R.unnum(b), 'the minimal form has the same value')
    ok(len(r) <= len(b) or not b, 'the minimal form is not longer')
    T.label('%d bytes' % len(b), 'minimal' if R.num(R.unnum(b)) == b else 'not minimal')
    T.nt(len(b) >= 2)


def short_strings():
    yield b''
    for a in range(256):
        yield bytes([a])
        for b in (0, 1, 0x7f, 0x80, 0x81, 0xff):
            yield bytes([a, b])
            for c in (0, 1, 0x7f, 0x80, 0x81, 0xff):
                yield bytes([a, b, c])


def mpi(case, T):
    """mpi2bn gives a value exactly for byte strings whose length matches their size"""
    b = case
    r = B.mpi2bn(b)
    if len(b) < 4 or int.from_bytes(b[:4], 'big') != len(b) - 4:
        ok(r is None, 'mpi2bn(%s) = %r' % (b.hex(), r))
        T.label('bad')
    else:
        eq(r, R.unnum(b[4:][::-1]), 'mpi2bn')
        T.label('good')
    T.nt(len(b) > 4)


OPS = {0x8b: lambda a, b: b + 1, 0x8c: lambda a, b: b - 1, 0x8f: lambda a, b: -b, 0x90: lambda a, b: abs(b), 0x93: lambda a, b: a + b,
       0x94: lambda a, b: a - b, 0xa3: lambda a, b: min(a, b), 0xa4: lambda a, b: max(a, b)}


def arithmetic(case, T):
    a, b, op = case
    st_ = [a, b]
    want = R.num(OPS[op](R.unnum(a), R.unnum(b)))
    EvalScript(st_, CScript(bytes([op])), TX, 0)
    eq(bytes(st_[-1]), want, 'result of opcode 0x%x on %s %s' % (op, a.hex(), b.hex()))
    # size and depth are numbers too
    st_ = [a]
    EvalScript(st_, CScript(b'\x82\x74'), TX, 0)
    eq([bytes(x) for x in st_], [a, R.num(len(a)), b'\2'], 'SIZE and DEPTH')
    n = len(a) * 37
    st_ = [b'z' * n]
    EvalScript(st_, CScript(b'\x82'), TX, 0)
    eq(bytes(st_[1]), R.num(n), 'SIZE of %d bytes' % n)
    T.label('op %x' % op)
    T.nt(len(a) > 1 or len(b) > 1)


INT = st.one_of(st.tuples(st.integers(0, 600), st.integers(-3, 3), st.sampled_from([1, -1])).map(lambda t: t[2] * (2**t[0] + t[1])),
                st.integers(-2**600, 2**600), st.integers(-1000, 1000))
STR = gen.mix(st.binary(max_size=12), st.tuples(INT.map(R.num), st.integers(0, 3), st.sampled_from([b'', b'\0', b'\x80'])).map(lambda t: t[0] + bytes(t[1]) + t[2]),
              st.binary(max_size=90))
FOUR = gen.mix(st.binary(max_size=4), st.integers(-2**31 + 1, 2**31 - 1).map(R.num), st.sampled_from([b'\0\0\0\x80', b'\xff\xff\xff\xff', b'\xff\xff\xff\x7f', b'\x80', b'\0']))

SUBS = [
    Sub('integer', integer, gen=INT, quick=7500),
    Sub('string', string, gen=STR, quick=7500),
    Sub('mpi', mpi, gen=gen.mix(st.binary(max_size=10), STR.map(lambda b: len(b).to_bytes(4, 'big') + b), st.tuples(STR, st.integers(-1, 1)).map(
        lambda t: max(0, len(t[0]) + t[1]).to_bytes(4, 'big') + t[0])), quick=1800),
    Sub('arithmetic', arithmetic, gen=st.tuples(FOUR, FOUR, st.sampled_from(sorted(OPS))), quick=4500),
    Sub('large', integer, enum=large),
    Sub('large_mpi', mpi, enum=large_mpi),
    Sub('boundaries', integer, enum=boundaries),
    Sub('every', integer, enum=every),
    Sub('short_strings', string, enum=short_strings),
]
