"""Histories over radix trees, run against a dict."""
from hypothesis import strategies as st

from . import gen, ref_pm, fx_tree


def ops(fam, mx=12):
    return st.lists(st.one_of(
        st.tuples(st.just('put'), fam.key(), fam.value()),
        st.tuples(st.just('put'), fam.key(), fam.value()),
        st.tuples(st.just('over'), st.integers(0, 50), fam.value()),
        st.tuples(st.just('remove'), st.integers(0, 50)),
        st.tuples(st.just('absent'), fam.key()),
        st.tuples(st.sampled_from(['ser', 'rebuild', 'prune', 'detour', 'foreign', 'new', 'usedser']), fam.key(), fam.value())), max_size=mx)


def apply(fam, m, d, op):
    """One operation on the tree and on the dict -> (tree, dict)"""
    k = op[0]
    d = dict(d)
    if k == 'put':
        m = m.put(fam.rk(op[1]), fam.real(op[2]))
        d[op[1]] = op[2]
    elif k == 'over' and d:
        key = fam.order(d)[op[1] % len(d)]
        m = m.put(fam.rk(key), fam.real(op[2]))
        d[key] = op[2]
    elif k == 'remove' and d:
        key = fam.order(d)[op[1] % len(d)]
        m = m.remove(fam.rk(key))
        del d[key]
    elif k == 'absent':
        if op[1] not in d:
            try:
                m.remove(fam.rk(op[1]))
            except KeyError:
                pass
            else:
                raise AssertionError('removing an absent key did not raise KeyError')
    elif k == 'ser':
        m = fam.cls.deserialize(m.serialize())
    elif k == 'rebuild':
        m = fam.build_dict(d)
    elif k == 'prune':
        m = m.prune()
    elif k == 'new':
        m = fam.cls(m)
    elif k == 'foreign':
        # from a tree of another family with the same keys and values
        m = fam.cls(fx_tree.FAMILIES[fx_tree.TWIN.get(fam.name, fam.name)].cls(m))
    elif k == 'usedser':
        p = m.prune()
        [(fam.uk(k), fam.unreal(v)) for k, v in p.items()]
        if d:
            m = fam.cls.deserialize(p.serialize())
    elif k == 'detour':
        if op[1] not in d:
            m = m.put(fam.rk(op[1]), fam.real(op[2])).remove(fam.rk(op[1]))
    return m, d


def cases(mx=12, items=14):
    return gen.mix(*[st.tuples(st.just(w), fx_tree.FAMILIES[w].items(items), ops(fx_tree.FAMILIES[w], mx)) for w in fx_tree.MBTS])


# Combs: trees as deep as their keys have bits

def combs():
    n = 256
    for base in (0, (1 << n) - 1, int('5a' * 32, 16)):
        for j, bits in enumerate((range(n), range(n - 1, -1, -1), range(0, n, 2), list(range(100, n)) + list(range(100)), range(60, 100))):
            junk = (1 << n) - 1 if (base + j) & 1 else 0
            keys = [(base ^ 1 << (n - 1 - i) ^ (junk & (1 << (n - 1 - i)) - 1)).to_bytes(32, 'big') for i in bits]
            yield base.to_bytes(32, 'big'), list(bits), keys


def comb_dict(case):
    base, bits, keys = case
    d = {k: b'%d' % i for i, k in zip(bits, keys)}
    d.setdefault(base, b'base')
    return d


def comb_hash(fam, case, d):
    """The commitment, without recursion"""
    base, bits, keys = case
    S, name = fam.schema, fam.name
    b = ref_pm.bits_of(base)
    node = S.hash(('%s.Leaf' % name, base, d[base])) if base in d else None
    for i, k in sorted(zip(bits, keys), reverse=True):
        if k not in d:
            continue
        leaf = S.hash(('%s.Leaf' % name, k, d[k]))
        if node is None:
            node = leaf
            continue
        l, r = (leaf, node) if b[i] else (node, leaf)
        node = ref_pm.sha(S.types['%s.Inner' % name][0] + ref_pm.sha(ref_pm.enc_plain(('bits',), b[:i]) + l + r))
    return node


# Small worlds, for trying everything

def small_value(which, n):
    return {'MBTA': n, 'MBTB': bytes([n]), 'MBTC': n, 'MBTP': (n, b''), 'MBTD': bytes([n]), 'MBTE': n, 'MBTF': n * (2**61 - 1)}[which]


WORLDS = [('MBTA', [b'\x00', b'\x01', b'\x80', b'\x81']), ('MBTA', [b'\x00', b'\x40', b'\x60', b'\x61']), ('MBTA', [b'\x10', b'\x11', b'\x12', b'\x1f', b'\xf0']),
          ('MBTC', [0, 1, 1024, 5]), ('MBTP', [b'\0\0', b'\0\1', b'\1\0', b'\x80\0']), ('MBTE', [b'\x00', b'\x01', b'\x80', b'\x81']),
          ('MBTD', [(0, b''), (1, b''), (2, b''), (3, b'')]), ('MBTF', [bytes(40), bytes(39) + b'\1', bytes(32) + b'\x80' * 8, b'\xff' * 40]),
          ('MBTB', [bytes(32), bytes(31) + b'\1', b'\x80' + bytes(31), b'\xff' * 32])]


def worlds():
    """(family, keys, items): every subset of the keys"""
    for which, keys in WORLDS:
        for i in range(2**len(keys)):
            yield which, keys, [(k, small_value(which, n % 3)) for n, k in enumerate(keys) if i >> n & 1]


# Keys of thousands of bits, large values, many keys

LONG_FORKS = [0, 1, 7, 8, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 4798, 4799]


def long_cases():
    """(base byte, forks, sizes of values)"""
    for b in (0, 255, 0x5a):
        for i in range(0, len(LONG_FORKS)):
            yield b, LONG_FORKS[i:i + 3] + LONG_FORKS[-1:], [0, 5, 70000 if i % 6 == 0 else 300]
        yield b, LONG_FORKS, [1, 255, 256]


def long_items(case):
    b, forks, sizes = case
    n = 600 * 8
    base = int.from_bytes(bytes([b]) * 600, 'big')
    keys = [base] + [base ^ 1 << (n - 1 - f) for f in dict.fromkeys(forks)]
    return [(k.to_bytes(600, 'big'), bytes([i % 256]) * sizes[i % len(sizes)]) for i, k in enumerate(keys)]


def many_items(which, n):
    """n different keys of a family, with values"""
    if which == 'MBTC':
        return [(i * 37 % 2048, i % 4) for i in range(min(n, 2048))]
    if which == 'MBTP':
        return [((i * 40503 % 65536).to_bytes(2, 'big'), (i, b'')) for i in range(n)]
    if which == 'MBTF':
        return [(ref_pm.sha(b'%d' % i) + bytes(8), i) for i in range(n)]
    return [(ref_pm.sha(b'%d' % i), b'%d' % i) for i in range(n)]


MANY = [('MBTB', 1100), ('MBTC', 2048), ('MBTP', 1500), ('MBTF', 1030)]
