import binascii
from decimal import Decimal

from hypothesis import strategies as st
from bitcoin.core import x, lx, b2x, b2lx, str_money_value, MoneyRange, COIN, MAX_MONEY
from .. import gen, ref_btc as R
from ..core import Sub, eq, ok, raises

RULE = """Byte strings of 0 to 70000 bytes (all of up to two bytes enumerated in part), their hex text in lower, upper and
mixed case; texts with odd lengths, non-hex and non-ASCII characters anywhere; amounts of either sign around every power of ten and
the money limit. Non-trivial: a non-palindromic byte string, a broken text, or an amount with a fraction."""
ASSUMPTIONS = ['Amounts to be formatted are integers']

HEX = '0123456789abcdef'


def hexes(case, T):
    b, case_bits = case
    want = ''.join(HEX[c >> 4] + HEX[c & 15] for c in b)
    rev = ''.join(HEX[c >> 4] + HEX[c & 15] for c in reversed(b))
    eq(b2x(b), want, 'b2x')
    eq(b2lx(b), rev, 'b2lx')
    eq(x(want), b, 'x')
    eq(lx(rev), b, 'lx')
    mixed = ''.join(c.upper() if case_bits >> (i % 31) & 1 else c for i, c in enumerate(want))
    eq(x(mixed), b, 'x of %s' % mixed[:100])
    eq(lx(mixed), b[::-1], 'lx of %s' % mixed[:100])
    eq(x(b2x(b)), b, 'x(b2x())')
    eq(lx(b2lx(b)), b, 'lx(b2lx())')
    eq(b2x(bytearray(b)), want, 'b2x of a bytearray')
    T.label('length %d' % len(b) if len(b) < 4 else 'longer', 'palindrome' if b == b[::-1] else 'not a palindrome')
    T.nt(b != b[::-1])


def texts(case, T):
    s = case
    good = len(s) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in s)
    if good:
        b = bytes(int(s[i:i + 2], 16) for i in range(0, len(s), 2))
        eq(x(s), b, 'x')
        eq(lx(s), b[::-1], 'lx')
    else:
        for f in (x, lx):
            raises(ValueError, f, s, what='%s(%r)' % (f.__name__, s))
    T.label('hex' if good else 'odd' if len(s) % 2 else 'not hex')
    T.nt(not good)


def money(case, T):
    v = case
    s = str_money_value(v)
    ok(type(s) is str, 'type')
    text = s
    ok((s[:1] == '-') == (v < 0), 'sign of %r' % s)
    s = s.lstrip('-')
    ok(len(text) - len(s) == (v < 0), 'one sign in %r' % text)
    whole, dot, frac = s.partition('.')
    ok(dot == '.' and whole.isdigit() and frac.isdigit() and s.isascii(), 'format %r' % s)
    eq(whole, str(abs(v) // 10**8), 'whole part of %d' % v)
    eq(int(frac.ljust(8, '0')), abs(v) % 10**8, 'fraction of %d' % v)
    ok(1 <= len(frac) <= 8 and (len(frac) == 1 or frac[-1] != '0'), 'superfluous digits in %r' % s)
    eq(int(Decimal(text) * 10**8), v, 'value')
    T.label('fraction of %d' % len(frac), 'negative' if v < 0 else 'not negative')
    T.nt(v % 10**8 != 0)


def ranges(case, T):
    eq(bool(MoneyRange(case)), 0 <= case <= 21 * 10**14, 'MoneyRange(%d)' % case)
    eq((COIN, MAX_MONEY), (10**8, 21 * 10**14), 'constants')
    T.label('in' if 0 <= case <= 21 * 10**14 else 'out')
    T.nt()


AMOUNT = gen.mix(st.integers(0, 21 * 10**14), st.integers(0, 2 * 10**8), st.tuples(st.integers(0, 18), st.integers(-2, 2)).map(lambda t: max(0, 10**t[0] + t[1])),
                 st.tuples(st.integers(0, 10**7), st.integers(0, 8), st.integers(0, 99)).map(lambda t: t[0] * 10**8 + t[2] * 10**t[1]), st.integers(0, 2**80))
AMOUNT = st.tuples(AMOUNT, st.sampled_from([1, 1, 1, -1])).map(lambda t: t[0] * t[1])
SPACES = [' ', '\n', '\t', '\r\n', '  ', '\0', '\0\0', ':', '\u00a0', '\ufeff', '\x0b', '0x', '0X', '%', '=', '""', "b'", '-', '+', '_', '__']


def spaced():
    """Whitespace and other decorations at every place"""
    for h in ('', 'ab', '00', 'abcd', 'deadbeef', 'a', 'abc', 'ABCDEF0123456789'):
        for s in SPACES:
            for i in range(len(h) + 1):
                yield h[:i] + s + h[i:]
            yield s + h + s


HEXTEXT = st.text('0123456789abcdefABCDEF', max_size=12)
SUBS = [
    Sub('hex', hexes, gen=st.tuples(gen.mix(st.binary(max_size=40), gen.blob(70000), gen.fixed(32)), st.integers(0, 2**31)), quick=3600, enum=lambda: [(bytes([a, b][:n]), 5) for n in (0, 1, 2) for a in range(256) for b in ((0, 255, 16, 10) if n == 2 else (0,))]),
    Sub('texts', texts, gen=gen.mix(HEXTEXT, st.tuples(HEXTEXT, st.sampled_from(list('gGzxX-+_.') + ['é', '٣', '1', '0x', '\\']), st.integers(0, 12)).map(lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:]),
                                    st.text('0123456789abcdefABCDEFgx', max_size=9),
                                    st.tuples(HEXTEXT, st.sampled_from(SPACES), st.integers(0, 12)).map(lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:])), quick=3600, enum=spaced),
    Sub('money', money, gen=AMOUNT, quick=7500, enum=lambda: [10**k * d + e for k in range(19) for d in (1, 5, 21, -1, -5, -21) for e in (-1, 0, 1)]),
    Sub('ranges', ranges, gen=gen.mix(st.integers(-5, 5), st.integers(-2**70, 2**70), st.integers(-3, 3).map(lambda d: 21 * 10**14 + d), st.integers(0, 22 * 10**14)), quick=1800),
]
