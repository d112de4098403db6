import collections
import types
import zlib

from hypothesis import strategies as st
from .. import gen, ref_pm, fx_tree, fx_mbt
from ..core import Sub, eq, ok, raises, fail, outcome, shallow

RULE = """Histories of puts of new and existing keys, removals, failing removals, rebuilds, transports and prunings, over
families with 1-byte, 2-byte, 32-byte, 40-byte and 11-bit keys (shared prefixes and single-bit differences common), are applied
to the tree and to a dict, which must agree on everything after every step. All short histories over small key worlds are enumerated. Non-trivial: a history with an overwrite or
removal in a tree of three or more keys."""
ASSUMPTIONS = ['All keys of a tree have prefixes of one length', '"key in tree" is documented as not implemented']


def agree(fam, m, d, probes):
    eq(len(m), len(d), 'len')
    order = fam.order(d)
    eq([fam.uk(k) for k in m.keys()], order, 'keys')
    eq([fam.uk(k) for k in m], order, 'iteration')
    eq([fam.unreal(v) for v in m.values()], [d[k] for k in order], 'values')
    eq([(fam.uk(k), fam.unreal(v)) for k, v in m.items()], [(k, d[k]) for k in order], 'items')
    for k in order:
        eq(fam.unreal(m[fam.rk(k)]), d[k], 'lookup of %r' % (k,))
    for k in probes:
        if k in d:
            eq(fam.unreal(m[fam.rk(k)]), d[k], 'lookup of %r' % (k,))
        else:
            raises(KeyError, m.__getitem__, fam.rk(k), what='lookup of absent %r' % (k,))
            raises(KeyError, m.remove, fam.rk(k), what='removal of absent %r' % (k,))


def history(case, T):
    which, items, ops, probes = case
    fam = fx_tree.FAMILIES[which]
    m, d = fam.build(items), dict(items)
    agree(fam, m, d, probes)
    busy = False
    for op in ops:
        before = dict(d)
        m, d = fx_mbt.apply(fam, m, d, op)
        agree(fam, m, d, probes)
        busy |= len(before) >= 3 and op[0] in ('over', 'remove')
    agree(fam, m, d, [k for k, v in items] + [o[1] for o in ops if o[0] in ('put', 'absent', 'detour')])
    T.label(which, 'max %s' % (len(d) if len(d) < 5 else '5+'), *[o[0] for o in ops])
    T.nt(busy)


def building(case, T):
    """Mapping, pairs in any order, step by step, with repeated keys"""
    which, items, perm = case
    fam = fx_tree.FAMILIES[which]
    d = dict(items)
    a = fam.build_dict(d)
    b = fam.build(items)
    order = sorted(d, key=lambda k: (perm * (zlib.crc32(bytes(str(k), 'ascii')) | 1)) % 1000003)
    c = fam.cls((fam.rk(k), fam.real(d[k])) for k in order)
    e = fam.cls()
    for k in reversed(order):
        e = e.put(fam.rk(k), fam.real(d[k]))
    f = fam.cls(a)
    twin = fx_tree.FAMILIES[fx_tree.TWIN.get(which, which)]
    others = [fam.cls(twin.build(items)), fam.cls(twin.build(items).prune()), fam.cls(a.prune()), fam.cls(fam.cls.deserialize(a.serialize())),
        fam.cls(d and [(fam.rk(k), fam.real(v)) for k, v in d.items()]), fam.cls(collections.OrderedDict((fam.rk(k), fam.real(d[k])) for k in order)),
        fam.cls({fam.rk(k): fam.real(v) for k, v in d.items()}.items()), fam.cls(zip(a.keys(), a.values())),
        fam.cls(types.MappingProxyType({fam.rk(k): fam.real(v) for k, v in d.items()}))]
    for m in others:
        ok(isinstance(m, fam.cls), 'class of a tree built from another')
        ok(m == a and a == m, 'built from another tree')
        agree(fam, m, d, [])
        eq(m.hash, fam.schema.hash(fam.term(items)), 'commitment')
        eq(m.serialize(), a.serialize(), 'serialization')
    ok(a == b == c == e == f, 'built in different ways')
    for m in (a, b, c, e, f):
        agree(fam, m, d, [])
        eq(m.serialize(), a.serialize(), 'serialization')
    T.nt(len(d) >= 3)


def dense(case, T):
    """All one-byte keys of a set, inserted in an order, then removed in another"""
    bits, step, step2 = case
    fam = fx_tree.FAMILIES['MBTA']
    keys = [bytes([i * (2 * step + 1) % 256]) for i in range(256) if bits >> (i % len_bits) & 1]
    m, d = fam.cls(), {}
    for n, k in enumerate(keys):
        m, d = m.put(k, n), dict(d, **{}) if False else {**d, k: n}
    agree(fam, m, d, [bytes([i]) for i in range(256)])
    out = sorted(keys, key=lambda k: k[0] * (2 * step2 + 1) % 256)
    for n, k in enumerate(out):
        m = m.remove(k)
        del d[k]
        if n % 37 == 0:
            agree(fam, m, d, [k])
    ok(m == fam.cls() and len(m) == 0, 'empty at the end')
    T.nt(len(keys) > 2)


len_bits = 16


def deep(case, T):
    """Trees as deep as their keys have bits"""
    fam = fx_tree.FAMILIES['MBTB']
    d = fx_mbt.comb_dict(case)

    def go():
        m = fam.build(d.items())
        probes = [bytes([i]) * 32 for i in range(1, 9)]
        agree(fam, m, d, probes)
        agree(fam, fam.cls.deserialize(m.serialize()), d, probes)
        agree(fam, m.prune(), d, probes)
        e = dict(d)
        for i, k in enumerate(list(d)[::17] + [case[0]]):
            if k not in e:
                continue
            m = m.remove(k)
            del e[k]
            eq(len(m), len(e), 'len after removals')
            raises(KeyError, m.__getitem__, k, what='removed key')
        agree(fam, m, e, probes)
        ok(m == fam.build(e.items()), 'equality')
        for k in case[2][:5]:
            m = m.put(k, b'new')
            e[k] = b'new'
        agree(fam, m, e, probes)
    shallow(go)
    T.label('depth %d' % len(d))
    T.nt()


def gen_history():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        return st.tuples(st.just(w), fam.items(12), fx_mbt.ops(fam), st.lists(fam.key(), max_size=4))
    return gen.mix(*[g(w) for w in fx_tree.MBTS])


def every(case, T):
    """Every two changes of every mapping over a few keys"""
    which, keys, items = case
    ops = [('put', k, fx_mbt.small_value(which, 3)) for k in keys] + [('absent', k) for k in keys] + [('remove', n) for n in range(len(items) + 1)]
    for a in ops:
        for b in ops:
            history((which, items, [a, b], keys), T)


def long(case, T):
    """Keys of thousands of bits, large values"""
    fam = fx_tree.LONG
    items = fx_mbt.long_items(case)
    probes = [items[0][0][:-1] + b'\x07', b'\x33' * 600]
    m, d = fam.cls(), {}
    for k, v in items:
        m = m.put(k, v)
        d[k] = v
    agree(fam, m, d, probes)
    agree(fam, fam.build(items[::-1]), d, probes)
    agree(fam, fam.cls.deserialize(m.serialize()), d, probes)
    for k, v in items:
        m, d = m.put(k, v + b'.'), {**d, k: v + b'.'}
        eq(m[k], v + b'.', 'replaced value')
    agree(fam, m, d, probes)
    for k, v in items[::2]:
        m = m.remove(k)
        del d[k]
    agree(fam, m, d, probes + [items[0][0]])
    T.nt()


def many(case, T):
    """A thousand keys and more"""
    which, n = case
    fam = fx_tree.FAMILIES[which]
    items = fx_mbt.many_items(which, n)
    d = dict(items)
    m = fam.build(items)
    agree(fam, m, d, [])
    ok(m == fam.build(items[::-1]) == fam.cls(m), 'built in another order, and from itself')
    for k, v in items[::3]:
        m = m.remove(fam.rk(k))
        del d[k]
    agree(fam, m, d, [k for k, v in items[::9]])
    for k, v in items[::5]:
        m = m.put(fam.rk(k), fam.real(items[1][1]))
        d[k] = items[1][1]
    agree(fam, m, d, [])
    agree(fam, m.prune(), d, [])
    T.nt()


SUBS = [
    Sub('every', every, enum=fx_mbt.worlds),
    Sub('history', history, gen=gen_history, quick=9000, heavy=True, examples=[('MBTA', [(b'a', 1)], [('put', b'a', 2)], []),
        ('MBTA', [(b'a', 1), (b'b', 2), (b'c', 3)], [('over', 1, 2), ('remove', 0)], [b'd'])]),
    Sub('building', building, gen=lambda: gen.mix(*[st.tuples(st.just(w), fx_tree.FAMILIES[w].items(20), st.integers(1, 10**6)) for w in fx_tree.MBTS]),
        quick=3600),
    Sub('deep', deep, enum=fx_mbt.combs),
    Sub('dense', dense, gen=lambda: st.tuples(st.integers(0, 2**len_bits - 1), st.integers(0, 127), st.integers(0, 127)), quick=300),
    Sub('long', long, enum=fx_mbt.long_cases),
    Sub('many', many, enum=lambda: iter(fx_mbt.MANY)),
]
