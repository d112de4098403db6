from hypothesis import strategies as st
from bitcoin.base58 import encode, decode, CBase58Data, Base58Error, InvalidBase58Error, Base58ChecksumError
from .. import gen, ref_btc as R
from ..core import Sub, eq, ok, raises, outcome

RULE = """Byte strings (leading zeros over-represented; lengths up to 4097) and strings over the alphabet are encoded and decoded both ways and
compared with the reference algorithm; strings with characters outside the alphabet (look-alikes, white space, non-ASCII)
must be rejected; Base58Check strings with right and wrong checksums, every kind of corruption and too little data must
decode exactly or raise. Non-trivial: at least two bytes or characters."""
ASSUMPTIONS = ['A corrupted string is judged by its own checksum, so chance collisions are no matter']

ALPHABET = R.B58


def blob(case, T):
    b = case
    s = encode(b)
    ok(isinstance(s, str), 'type')
    eq(s, R.b58(b), 'encoding of %s' % b.hex())
    r = decode(s)
    ok(isinstance(r, bytes), 'type')
    eq(r, b, 'decoding of the encoding')
    T.label('zeros %d' % min(4, len(b) - len(b.lstrip(b'\0'))))
    T.nt(len(b) >= 2)


def text(case, T):
    s = case
    bad = [c for c in s if c not in ALPHABET]
    if bad:
        e = raises(InvalidBase58Error, decode, s, what='decoding %r' % s)
        ok(isinstance(e, Base58Error), 'a Base58 error')
        ok(isinstance(raises(Base58Error, CBase58Data, s, what='checked decoding of %r' % s), InvalidBase58Error), 'an invalid character error')
        T.label('bad character')
    else:
        b = decode(s)
        eq(b, R.unb58(s), 'decoding of %r' % s)
        eq(encode(b), s, 'encoding of the decoding')
        T.label('good')
    T.nt(len(s) >= 2)


def check(s):
    """(version, payload) or None"""
    k = R.unb58(s)
    if len(k) < 5 or R.sha256d(k[:-4])[:4] != k[-4:]:
        return None
    return k[0], k[1:-4]


def judge(s, T, what):
    want = check(s)
    got = outcome(CBase58Data, s)
    if want is None:
        ok(got[0] == 'exc' and isinstance(got[1], Base58ChecksumError), '%s: %r, expected a checksum error' % (what, got[1]))
        ok(isinstance(got[1], Base58Error), 'a Base58 error')
        T.label('rejected')
    else:
        ok(got[0] == 'ok', '%s: %r, expected %r' % (what, got[1], want))
        d = got[1]
        eq((d.nVersion, bytes(d)), want, what)
        eq(d.to_bytes(), want[1], '%s: to_bytes' % what)
        eq(str(d), s, '%s: back to a string' % what)
        T.label('accepted')


def checked(case, T):
    version, payload = case
    s = R.b58check(version, payload)
    d = CBase58Data.from_bytes(payload, version)
    eq(str(d), s, 'string of from_bytes')
    eq((d.nVersion, bytes(d), d.to_bytes()), (version, payload, payload), 'from_bytes')
    judge(s, T, 'round trip')
    ok(check(s) is not None, 'reference')
    for v in (-1, 256, 1000 + version):
        raises(ValueError, CBase58Data.from_bytes, payload, v, what='version %d' % v)
    T.label('version %d' % version if version in (0, 5, 111, 128, 196, 239) else 'other version')
    T.nt(len(payload) > 0)


def corrupted(case, T):
    version, payload, edits = case
    s = list(R.b58check(version, payload))
    for kind, pos, c in edits:
        ch = ALPHABET[c % 58]
        if kind == 'set' and s:
            s[pos % len(s)] = ch
        elif kind == 'ins':
            s.insert(pos % (len(s) + 1), ch)
        elif kind == 'del' and s:
            del s[pos % len(s)]
        elif kind == 'swap' and len(s) > 1:
            i = pos % (len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
        elif kind == 'one':
            s.insert(0, '1')
        elif kind == 'unone' and s and s[0] == '1':
            del s[0]
    judge(''.join(s), T, 'corrupted %s' % ''.join(s))
    T.nt(''.join(s) != R.b58check(version, payload))


def raw(case, T):
    """Arbitrary bytes under Base58, with the checksum of some part of them"""
    data, n, flip = case
    k = data + R.sha256d(data[:len(data) - n] if n <= len(data) else data)[:4]
    if flip is not None:
        i, v = flip
        k = bytearray(k)
        k[i % len(k)] ^= v
        k = bytes(k)
    judge(R.b58(k), T, 'bytes %s' % k.hex())
    T.label('length %d' % min(len(k), 9))
    T.nt(len(k) >= 2)


def short(case, T):
    judge(case, T, 'short string %r' % case)
    T.nt(len(case) >= 2)


def short_strings():
    yield ''
    for a in ALPHABET:
        yield a
        for b in ALPHABET:
            yield a + b
            yield '1' + a + b
    # four bytes, which are their own checksum of nothing, and everything shorter
    k = R.sha256d(b'')[:4]
    for n in range(5):
        yield R.b58(k[:n])
        yield R.b58(b'\0' * n)
    for v in range(256):
        yield R.b58(bytes([v]) + R.sha256d(bytes([v]))[:4])
        yield R.b58(R.sha256d(bytes([v]))[:4])


def altered():
    """Data of every length with each byte of the checksum altered, and each of the data under an old checksum"""
    for n in list(range(84)) + [127, 128, 255, 256]:
        data = (b'\0' * (n % 3) + R.sha256(b'%d' % n) * 8)[:n + 1]
        k = data + R.sha256d(data)[:4]
        yield R.b58(k)
        for at in list(range(len(k) - 4, len(k))) + [0, n // 2, n]:
            for v in (1, 0x80, 0xff):
                yield R.b58(k[:at] + bytes([k[at] ^ v]) + k[at + 1:])
        yield R.b58(data + R.sha256d(data)[3::-1])
        yield R.b58(data + R.sha256(data)[:4])
        yield R.b58(data + R.sha256d(data)[-4:])
        yield R.b58(data + R.sha256d(data[1:])[:4])


def long_blobs():
    """Lengths around powers of two, with zeros at the front, in the middle, at the end and none"""
    for p in (5, 6, 7, 8, 9, 10, 11, 12):
        for n in (2**p - 1, 2**p, 2**p + 1):
            b = bytes((i * 37 + i // 256 * 11 + n) % 255 + 1 for i in range(n))
            yield b
            yield bytes(n)
            yield bytes(n - 1) + b'\1'
            yield bytes(n // 2) + b[n // 2:]
            yield b[:n // 2] + bytes(n - n // 2)
            yield b'\xff' * n


def singles(case, T):
    """Every single character corruption of a short payload"""
    version, payload = case
    s = R.b58check(version, payload)
    n = 0
    for i in range(len(s)):
        for c in ALPHABET:
            if c != s[i]:
                t = s[:i] + c + s[i + 1:]
                if check(t) is None:
                    raises(Base58ChecksumError, CBase58Data, t, what='corruption %r' % t)
                    n += 1
    T.label('corruptions')
    T.nt(n > 0)


ZERO = st.tuples(st.integers(0, 6), st.binary(max_size=20)).map(lambda t: bytes(t[0]) + t[1])
BLOB = gen.mix(ZERO, st.binary(max_size=80), gen.fixed(20), gen.fixed(32), st.integers(0, 30).map(bytes),
               st.tuples(st.sampled_from([31, 39, 40, 41, 42, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300]), st.binary(max_size=3)).map(lambda t: bytes(t[0]) + t[1]))
CHARS = st.text(alphabet=ALPHABET, max_size=50)
BADCHAR = st.one_of(st.sampled_from(list('0OIl +/-_.\n\t') + ['\u0661', '\u00e9', '\uff11', '\0', '\u4e00']), st.characters())
BADTEXT = st.tuples(CHARS, st.integers(0, 50), BADCHAR).map(lambda t: t[0][:t[1]] + t[2] + t[0][t[1]:])
VERSION = st.one_of(st.sampled_from([0, 5, 111, 128, 196, 239, 255, 1]), st.integers(0, 255))
PAYLOAD = gen.mix(gen.fixed(20), st.binary(max_size=6), gen.fixed(32), ZERO, st.integers(0, 3).map(bytes))
EDIT = st.lists(st.tuples(st.sampled_from(['set', 'set', 'ins', 'del', 'swap', 'one', 'unone']), st.integers(0, 60), st.integers(0, 57)), min_size=1, max_size=3)

SUBS = [
    Sub('long', blob, enum=long_blobs),
    Sub('blob', blob, gen=BLOB, quick=7500),
    Sub('text', text, gen=gen.mix(CHARS, CHARS.map(lambda s: '1' * (len(s) % 5) + s), BADTEXT, st.text(max_size=6)), quick=7500),
    Sub('checked', checked, gen=st.tuples(VERSION, PAYLOAD), quick=4500),
    Sub('corrupted', corrupted, gen=st.tuples(VERSION, PAYLOAD, EDIT), quick=4500),
    Sub('raw', raw, gen=st.tuples(ZERO, st.integers(0, 3), st.none() | st.tuples(st.integers(0, 30), st.integers(1, 255))), quick=4500),
    Sub('singles', singles, gen=st.tuples(VERSION, PAYLOAD), quick=48),
    Sub('altered', short, enum=altered),
    Sub('short', short, enum=short_strings),
]
