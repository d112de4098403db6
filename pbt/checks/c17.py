from hypothesis import strategies as st
from .. import gen, ref_pm, fx_tree, fx_mbt
from ..core import Sub, eq, ok, raises, fail, outcome, shallow

RULE = """Pairs of related mappings (sub-mappings, sub-mappings with a value or key changed, added entries, unrelated ones)
are built into trees and issubset() compared in both directions with inclusion of the dicts; trees of different families
must raise TypeError. Non-trivial: both trees have two or more keys and share one."""
ASSUMPTIONS = ['All keys of a tree have prefixes of one length']


def included(a, b):
    return all(k in b and b[k] == v for k, v in a.items())


def subset(case, T):
    which, items, mask, edits, transport = case
    fam = fx_tree.FAMILIES[which]
    b = dict(items)
    a = {k: b[k] for i, k in enumerate(fam.order(b)) if mask >> i & 1}
    for side, how, i, key, value in edits:
        d = a if side else b
        if how == 'set':
            d[key] = value
        elif how == 'over' and d:
            d[fam.order(d)[i % len(d)]] = value
        elif how == 'del' and d:
            del d[fam.order(d)[i % len(d)]]
    x, y = fam.build(a.items()), fam.build(b.items())
    if transport & 1:
        x = fam.cls.deserialize(x.serialize())
    if transport & 2:
        y = fam.cls.deserialize(y.serialize())
    if transport & 4:
        x = x.prune()
    if transport & 8:
        y = y.prune()
    eq(x.issubset(y), included(a, b), 'issubset of %r in %r' % (a, b))
    eq(y.issubset(x), included(b, a), 'issubset of %r in %r' % (b, a))
    eq(x.issubset(x), True, 'issubset of itself')
    eq(x.issubset(fam.cls()), not a, 'issubset of nothing')
    eq(fam.cls().issubset(x), True, 'nothing is a subset')
    eq(x.issubset(y), included(a, b), 'issubset a second time')
    T.label(which, 'a in b' if included(a, b) else 'a not in b', 'b in a' if included(b, a) else 'b not in a')
    T.nt(len(a) > 1 and len(b) > 1 and any(k in b for k in a))


def families(case, T):
    w1, items1, w2, items2 = case
    f1, f2 = fx_tree.FAMILIES[w1], fx_tree.FAMILIES[w2]
    x, y = f1.build(items1), f2.build(items2)
    if w1 != w2:
        raises(TypeError, x.issubset, y, what='other family')
        raises(TypeError, y.issubset, x, what='other family')
        T.nt(len(x) > 0 and len(y) > 0)
    for bad in (None, dict(items2), 1, b''):
        raises(TypeError, x.issubset, bad, what='not a tree')
    # a mountain range isn't a tree
    raises(TypeError, x.issubset, fx_tree.FAMILIES['MMRA'].build([1, 2]), what='not a tree')


def gen_subset():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        edit = st.tuples(st.booleans(), st.sampled_from(['set', 'over', 'del']), st.integers(0, 50), fam.key(), fam.value())
        return st.tuples(st.just(w), fam.items(12), st.one_of(st.integers(0, 2**12 - 1), st.integers(0, 12).map(lambda i: 2**12 - 1 - (1 << i)), st.integers(0, 12).map(lambda i: 1 << i)),
                         st.lists(edit, max_size=2), st.one_of(st.just(0), st.integers(0, 15)))
    return gen.mix(*[g(w) for w in fx_tree.MBTS])


def gen_families():
    def g(w):
        return st.tuples(st.just(w), fx_tree.FAMILIES[w].items(3))
    s = gen.mix(*[g(w) for w in fx_tree.MBTS])
    return st.tuples(s, s).map(lambda t: t[0] + t[1])


def allsmall(case, T):
    """All pairs of mappings over a few keys"""
    which, keys, i = case
    fam = fx_tree.FAMILIES[which]
    vals = [fam_value(which, 0), fam_value(which, 1)]
    def mk(n):
        d = {}
        for k in keys:
            n, r = divmod(n, 3)
            if r:
                d[k] = vals[r - 1]
        return d
    a = mk(i)
    x = fam.build(a.items())
    for j in range(3**len(keys)):
        b = mk(j)
        y = fam.build(b.items())
        eq(x.issubset(y), included(a, b), 'issubset of %r in %r' % (a, b))
    T.nt(len(a) > 1)


def fam_value(which, n):
    return {'MBTA': n, 'MBTB': bytes([n]), 'MBTC': n, 'MBTP': (n, b''), 'MBTD': bytes([n]), 'MBTE': n, 'MBTF': n * (2**61 - 1)}[which]


def allsmall_enum():
    for which, keys in [('MBTA', [b'\x00', b'\x01', b'\x80', b'\x81']), ('MBTA', [b'\x00', b'\x40', b'\x60', b'\x61']),
                        ('MBTC', [0, 1, 1024, 5]), ('MBTP', [b'\0\0', b'\0\1', b'\1\0', b'\x80\0']),
                        ('MBTE', [b'\x00', b'\x01', b'\x80', b'\x81']), ('MBTD', [(0, b''), (1, b''), (2, b''), (3, b'')]),
                        ('MBTF', [bytes(40), bytes(39) + b'\1', bytes(32) + b'\x80' * 8, b'\xff' * 40]),
                        ('MBTB', [bytes(32), bytes(31) + b'\1', b'\x80' + bytes(31), b'\xff' * 32])]:
        for i in range(3**4):
            yield (which, keys, i)


def deep(case, T):
    """Trees as deep as their keys have bits"""
    fam = fx_tree.FAMILIES['MBTB']
    d = fx_mbt.comb_dict(case)

    def go():
        ks = list(d)
        subs = [d, {}, dict(list(d.items())[::2]), dict(list(d.items())[5:]), dict(list(d.items())[-3:]), {k: v for k, v in d.items() if k != case[0]},
                {**d, ks[3]: b'other'}, {**d, ks[-2]: b'other'}, {ks[0]: d[ks[0]]}, {**d, bytes([7]) * 32: b'x'}]
        trees = [(x, fam.build(x.items())) for x in subs]
        for a, x in trees:
            for b, y in trees:
                eq(x.issubset(y), included(a, b), 'issubset of %d keys in %d' % (len(a), len(b)))
    shallow(go)
    T.label('depth %d' % len(d))
    T.nt()


SUBS = [
    Sub('deep', deep, enum=fx_mbt.combs),
    Sub('subset', subset, gen=gen_subset, quick=15000, heavy=True),
    Sub('families', families, gen=gen_families, quick=900),
    Sub('allsmall', allsmall, enum=allsmall_enum),
]
