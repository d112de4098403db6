"""Strategies shared by the checks.  Every strategy yields plain data."""
from hypothesis import strategies as st

VARINT_EDGES = sorted({max(0, v) for k in range(0, 71, 7) for v in (2**k - 1, 2**k, 2**k + 1, 2 * 2**k)} |
                      {v for b in (8, 16, 32, 64, 128) for v in (2**b - 2, 2**b - 1, 2**b, 2**b + 1)})


def uints(max_value, edges=VARINT_EDGES):
    """0..max_value, boundaries over-represented"""
    es = [e for e in edges if e <= max_value] + [max_value]
    return st.one_of(
        st.sampled_from(es),
        st.integers(0, min(max_value, 300)),
        st.integers(0, max(1, max_value.bit_length())).flatmap(
            lambda b: st.integers(0, min(max_value, 2**b))),
        st.integers(0, max_value))


LEN_EDGES = [0, 1, 2, 31, 32, 33, 75, 76, 77, 127, 128, 129, 252, 253, 254, 255, 256, 257]


def blob(max_size=64, edges=True, min_size=0):
    """bytes, sizes up to max_size with boundary lengths and repeated fill"""
    es = [e for e in LEN_EDGES + [511, 512, 519, 520, 521, 65534, 65535, 65536, 65537] if min_size <= e <= max_size] or [min_size]
    opts = [st.binary(min_size=min_size, max_size=min(max(min_size, 8), max_size)),
            st.binary(min_size=min_size, max_size=min(max_size, max(min_size, 64)))]
    if edges:
        opts.append(st.tuples(st.sampled_from(es), st.binary(min_size=1, max_size=4)).map(
            lambda t: (t[1] * (t[0] // len(t[1]) + 1))[:t[0]]))
    return st.one_of(*opts)


def fixed(n):
    """n bytes: random or patterned (zeros, ones, small differences)"""
    return st.one_of(st.binary(min_size=n, max_size=n),
                     st.sampled_from([b'\x00' * n, b'\xff' * n]),
                     st.integers(0, 20).map(lambda i: i.to_bytes(4, 'little')[:n].ljust(n, b'\0')),
                     st.integers(0, 20).map(lambda i: i.to_bytes(4, 'big')[-n:].rjust(n, b'\0')))


digest = lambda: fixed(32)


def small_digest(k):
    """Few distinct digests, so that collisions and duplicates are common"""
    return st.integers(0, k - 1).map(lambda i: bytes([i]) * 32)


def mutate(data, muts):
    """Apply byte-level mutations: list of (kind, pos, val)"""
    b = bytearray(data)
    for kind, pos, val in muts:
        if kind == 'set' and b:
            b[pos % len(b)] = val
        elif kind == 'xor' and b:
            b[pos % len(b)] ^= (val or 1)
        elif kind == 'del' and b:
            del b[pos % len(b)]
        elif kind == 'ins':
            b.insert(pos % (len(b) + 1), val)
        elif kind == 'trunc' and b:
            del b[pos % len(b):]
        elif kind == 'app':
            b.append(val)
        elif kind == 'dup' and b:
            i = pos % len(b)
            b[i:i] = b[i:i + 1 + val % 8]
        elif kind == 'swap' and len(b) > 1:
            i, j = pos % len(b), val % len(b)
            b[i], b[j] = b[j], b[i]
    return bytes(b)


def mutations(max_size=3, min_size=0, kinds=('set', 'xor', 'del', 'ins', 'trunc', 'app', 'dup', 'swap')):
    return st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2000),
                              st.one_of(st.sampled_from([0, 1, 2, 0x7f, 0x80, 0xff, 0xfd, 0xfe]), st.integers(0, 255))),
                    min_size=min_size, max_size=max_size)


def opaque(s):
    """Keeps one_of() from merging the alternatives of s into its own"""
    return st.tuples(s).map(lambda t: t[0])


def mix(*ss):
    """Each argument equally likely, however many alternatives it has itself"""
    return st.one_of(*[opaque(s) for s in ss])
