"""secp256k1 ECDSA in pure Python, with strict DER signatures."""
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def jdbl(p):
    x, y, z = p
    if not y or not z:
        return 0, 1, 0
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * y**4) % P, 2 * y * z % P


def jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z12, z22 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z22 % P, x2 * z12 % P
    s1, s2 = y1 * z22 * z2 % P, y2 * z12 * z1 % P
    if u1 == u2:
        return jdbl(p) if s1 == s2 else (0, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P
    h3 = h2 * h % P
    v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * z1 * z2 % P


def mul(k, p):
    if p is None or k % N == 0:
        return None
    k %= N
    acc, base = (0, 1, 0), (p[0], p[1], 1)
    while k:
        if k & 1:
            acc = jadd(acc, base)
        base = jdbl(base)
        k >>= 1
    if not acc[2]:
        return None
    zi = pow(acc[2], -1, P)
    return acc[0] * zi * zi % P, acc[1] * zi**3 % P


def encode(p, compressed):
    x = p[0].to_bytes(32, 'big')
    return bytes([2 + (p[1] & 1)]) + x if compressed else b'\4' + x + p[1].to_bytes(32, 'big')


def decode(b):
    """Point or None; hybrid forms included, as OpenSSL accepts them"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            return None
        y2 = (x**3 + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2:
            return None
        return x, y if y & 1 == b[0] & 1 else P - y
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x**3 - 7) % P:
            return None
        if b[0] != 4 and (y & 1) != (b[0] & 1):
            return None
        return x, y
    return None


def der_int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b'\2' + bytes([len(b)]) + b


def der(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def un_der(b):
    """(r, s) of a strict DER signature, or None"""
    if len(b) < 8 or b[0] != 0x30 or b[1] != len(b) - 2 or b[1] > 0x7f:
        return None
    out, i = [], 2
    for _ in range(2):
        if i + 2 > len(b) or b[i] != 2:
            return None
        n = b[i + 1]
        v = b[i + 2:i + 2 + n]
        if not 1 <= n <= 33 or len(v) != n or v[0] & 0x80 or (n > 1 and v[0] == 0 and not v[1] & 0x80):
            return None
        out.append(int.from_bytes(v, 'big'))
        i += 2 + n
    return tuple(out) if i == len(b) else None


def sign(d, h, k):
    """Deterministic in its arguments"""
    z = int.from_bytes(h, 'big')
    r = mul(k, G)[0] % N
    s = pow(k, -1, N) * (z + r * d) % N
    assert r and s
    return r, s


def verify(point, h, r, s):
    if point is None or not (0 < r < N and 0 < s < N):
        return False
    z = int.from_bytes(h, 'big')
    w = pow(s, -1, N)
    q = add(mul(z * w % N, G), mul(r * w % N, point))
    return q is not None and q[0] % N == r


_pub = {}


def pubkey(d, compressed=True):
    if d not in _pub:
        _pub[d] = mul(d, G)
    return encode(_pub[d], compressed)
