from fractions import Fraction

from hypothesis import strategies as st
import bitcoin
import bitcoin.core
from bitcoin.core import CBlockHeader, CheckBlockHeader, CheckProofOfWork, CheckProofOfWorkError
from bitcoin.core.serialize import uint256_from_compact
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises, outcome

RULE = """32-bit compact targets of every exponent (0 to 255 enumerated with boundary mantissas), both signs, near each
network's limit; hashes equal to the target, one above and below it, with swapped byte order, random; all networks after
any sequence of switches. Compared with exact rational arithmetic. Non-trivial: a hash within one of the target, a target
within one compact step of the limit, an exponent below four, or a set sign bit."""
ASSUMPTIONS = ['The decoded value is claimed for targets without the sign bit (with it, only the rejection)', 'Difficulty is claimed for non-zero mantissas without the sign bit and exponents up to 64, to a relative error of 2**-45']


def value(case, T):
    bits = case
    mant, exp = bits & 0x7fffff, bits >> 24
    want = mant * Fraction(256)**(exp - 3)
    if not bits & 0x800000:
        eq(uint256_from_compact(bits), want.numerator // want.denominator, 'value of %08x' % bits)
        if mant and exp <= 64:
            d = CBlockHeader.calc_difficulty(bits)
            exact = Fraction(0xffff) * Fraction(256)**(29 - exp) / mant
            ok(isinstance(d, float) and abs(Fraction(d) - exact) <= exact * Fraction(1, 2**45), 'difficulty of %08x: %r, expected %r' % (bits, d, float(exact)))
            eq(CBlockHeader(nBits=bits).difficulty, d, 'difficulty of a header')
            eq(bitcoin.core.CBlock(nBits=bits).difficulty, d, 'difficulty of a block')
            T.label('difficulty')
    T.label('negative' if bits & 0x800000 else 'exponent %d' % exp if exp < 5 else 'exponent 5+')
    T.nt(exp < 4 or bits & 0x800000 or mant in (0, 1, 0x7fffff))


def work(case, T):
    nets, bits, how, other = case
    for n in nets:
        bitcoin.SelectParams(n)
    net = nets[-1]
    t, _ = R.target(bits)
    if how[0] == 'off':
        v = min(max(t + how[1], 0), 2**256 - 1)
    elif how[0] == 'any':
        v = int.from_bytes(other, 'little')
    elif how[0] == 'reversed':
        v = int.from_bytes(min(t, 2**256 - 1).to_bytes(32, 'little'), 'big')
    else:
        v = min(t, 2**256 - 1) ^ (1 << how[1])
    h = v.to_bytes(32, 'little')
    want = R.pow_ok(h, bits, net)
    if want:
        eq(CheckProofOfWork(h, bits), None, 'proof of work')
    else:
        raises(CheckProofOfWorkError, CheckProofOfWork, h, bits, what='%s: bits %08x, hash %064x' % (net, bits, v))
    T.label('accepted' if want else 'rejected', net, how[0], 'negative' if bits & 0x800000 else 'zero' if not t else 'above limit' if t > R.POW_LIMIT[net] else 'fine')
    T.nt()


def headers(case, T):
    """Real headers, solved on regtest, checked on each network"""
    nets, header, nonces = case
    for n in nets:
        bitcoin.SelectParams(n)
    for nonce in range(nonces):
        h = header[:5] + (nonce,)
        want = R.pow_ok(R.sha256d(R.ser_header(h)), h[4], nets[-1])
        got = outcome(CheckBlockHeader, F.r_header(h), True, 2**32)
        ok((got[0] == 'ok') == want, '%s: %r, expected %r' % (nets[-1], got[1], want))
        if not want:
            ok(isinstance(got[1], CheckProofOfWorkError), '%r' % (got[1],))
        eq(CheckBlockHeader(F.r_header(h), False, 2**32), None, 'unchecked work')
        T.label('accepted' if want else 'rejected')
    T.nt()


def limits(case, T):
    for n in case:
        bitcoin.SelectParams(n)
    eq(bitcoin.core.coreparams.PROOF_OF_WORK_LIMIT, R.POW_LIMIT[case[-1]], 'limit of the core parameters')
    eq(bitcoin.params.PROOF_OF_WORK_LIMIT, R.POW_LIMIT[case[-1]], 'limit of the parameters')
    T.label(case[-1])
    T.nt(len(case) > 1)


def grid():
    for exp in range(256):
        for m in (0, 1, 2, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0x123456, 0x7fff00, 0x7fffff, 0x800000, 0x800001, 0x812345, 0xffffff):
            yield exp << 24 | m


NET = st.sampled_from(sorted(R.POW_LIMIT))
SEQ = gen.mix(st.lists(NET, min_size=1, max_size=1), st.lists(NET, min_size=2, max_size=3))
LIMITISH = st.tuples(st.sampled_from([0x1d00ffff, 0x1c7fffff, 0x1d010000, 0x1e0000ff, 0x1e000100, 0x1f000001, 0x207fffff, 0x20800000, 0x21007fff, 0x21008000, 0x2200007f, 0x22000080, 0x23000001]),
                     st.integers(-2, 2)).map(lambda t: t[0] + t[1])
BITS = gen.mix(LIMITISH, st.integers(0, 2**32 - 1), st.tuples(st.integers(0, 35), st.integers(0, 0x7fffff)).map(lambda t: t[0] << 24 | t[1]),
               st.tuples(st.integers(0, 5), st.sampled_from([0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff])).map(lambda t: t[0] << 24 | t[1]),
               st.tuples(st.integers(1, 35), st.integers(0x800000, 0xffffff)).map(lambda t: t[0] << 24 | t[1]))
HOW = gen.mix(st.tuples(st.just('off'), st.sampled_from([0, 0, -1, 1, 2])), st.tuples(st.just('any')), st.tuples(st.just('reversed')), st.tuples(st.just('bit'), st.integers(0, 255)),
              st.tuples(st.just('off'), st.integers(-2**200, 2**200)), st.tuples(st.just('off'), st.just(-2**256)))
HASH = gen.mix(gen.fixed(32), st.tuples(st.binary(min_size=1, max_size=32)).map(lambda t: t[0].ljust(32, b'\0')))
HEADER = st.tuples(F.i32(), gen.fixed(32), gen.fixed(32), F.u32(), st.sampled_from([0x207fffff, 0x207ffffe, 0x20400000, 0x1f7fffff, 0x1d00ffff, 0x2100ffff]))
SUBS = [
    Sub('value', value, gen=BITS, quick=9000, enum=grid),
    Sub('work', work, gen=st.tuples(SEQ, BITS, HOW, HASH), quick=12000),
    Sub('headers', headers, gen=st.tuples(SEQ, HEADER, st.integers(1, 8)), quick=1200),
    Sub('limits', limits, gen=SEQ, quick=180, thorough=200),
]
