import itertools
from hypothesis import strategies as st
from .. import gen, ref_pm, fx_tree, fx_mbt
from ..core import Sub, eq, ok, raises, fail, outcome, shallow

RULE = """Radix trees reached by arbitrary histories (puts, overwrites, removals, insert-then-remove detours, rebuilds,
transports) are compared, node by node, hash and serialization, with the documented recursive construction over the
final mapping; mappings differing in one key or value must have different hashes, equal ones the same. All mappings of small key worlds are enumerated. Non-trivial: three
or more keys."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases', 'All keys of a tree have prefixes of one length']


def same_shape(fam, node, term):
    name = term[0].split('.')[1]
    cls = fam.names()[term[0]]
    ok(isinstance(node, cls), 'a node for %s is a %s' % (term[0], type(node).__name__))
    if name == 'Inner':
        eq(tuple(node.prefix), term[1], 'prefix of an inner node')
        same_shape(fam, node.left, term[2])
        same_shape(fam, node.right, term[3])
    elif name == 'Leaf':
        k = fam.uk(node.key)
        eq(fam.mk(k), term[1], 'key of a leaf')
        eq(tuple(node.prefix), fam.bits(k), 'prefix of a leaf')
        eq(fam.model(fam.unreal(node.value)), term[2], 'value of a leaf')


def commit(case, T):
    which, items, ops = case
    fam = fx_tree.FAMILIES[which]
    m, d = fam.build(items), dict(items)
    pruned = False
    for op in [None] + list(ops):
        if op is not None:
            m, d = fx_mbt.apply(fam, m, d, op)
            pruned |= op[0] == 'prune'
        term = fam.term(d.items())
        eq(m.hash, fam.schema.hash(term), 'hash after %r' % (op,))
        same_shape(fam, m, term)
        # every value used, so even a pruned view is serialized whole
        for k, v in m.items():
            fam.uk(k), fam.unreal(v)
        len(m)
        if d or not pruned:     # (a pruned empty tree has no attribute to use)
            eq(m.serialize(), fam.schema.wire(term), 'serialization after %r' % (op,))
    ok(m == fam.build(sorted(d.items(), key=repr)), 'equality with the tree built afresh')
    T.label(which, '%s keys' % (len(d) if len(d) < 4 else '4+'), *[o[0] for o in ops])
    T.nt(len(d) >= 3)


def change(fam, d, how, i, key, value):
    d = dict(d)
    if how == 'value' and d:
        d[fam.order(d)[i % len(d)]] = value
    elif how == 'drop' and d:
        del d[fam.order(d)[i % len(d)]]
    elif how == 'add':
        d.setdefault(key, value)
    elif how == 'rename' and d:
        k = fam.order(d)[i % len(d)]
        v = d.pop(k)
        d[key] = v
    elif how == 'swap' and len(d) > 1:
        a, b = fam.order(d)[i % len(d)], fam.order(d)[(i + 1) % len(d)]
        d[a], d[b] = d[b], d[a]
    return d


def different(case, T):
    which, items, how, i, key, value, perm = case
    fam = fx_tree.FAMILIES[which]
    a = dict(items)
    b = change(fam, a, how, i, key, value)
    x = fam.build(a.items())
    y = fam.build([list(b.items())[(j * perm) % len(b)] for j in range(len(b))] if b and perm % len(b) == 1 else list(b.items())[::-1])
    eq(y.hash == x.hash, a == b, 'hashes equal')
    eq(x == y, a == b, 'equality')
    eq(hash(x) == hash(y), a == b, 'dictionary hash') if a == b else None
    eq(x.serialize() == y.serialize(), a == b, 'serializations equal')
    # and going from one to the other by hand
    z = x
    for k in a:
        if k not in b:
            z = z.remove(fam.rk(k))
    for k, v in b.items():
        if a.get(k, None) != v or k not in a:
            z = z.put(fam.rk(k), fam.real(v))
    eq(z.hash, y.hash, 'hash after making the change step by step')
    T.label(which, how, 'same' if a == b else 'different')
    T.nt(len(a) >= 3 and a != b)


def dense(case, T):
    """Random subsets of all one-byte (or 11-bit) keys in random order"""
    which, seed_keys, order = case
    fam = fx_tree.FAMILIES[which]
    if which == 'MBTA':
        keys = [bytes([k % 256]) for k in seed_keys]
    else:
        keys = [k % 2048 for k in seed_keys]
    d = {k: i % 4 for i, k in enumerate(keys)}
    ks = list(d)
    m = fam.cls()
    for j in sorted(range(len(ks)), key=lambda j: (j * (2 * order + 1)) % 1009):
        m = m.put(ks[j], d[ks[j]])
    eq(m.hash, fam.schema.hash(fam.term(d.items())), 'hash')
    same_shape(fam, m, fam.term(d.items()))
    T.label(which)
    T.nt(len(d) > 10)


def depths():
    """Three keys of 32 bytes of which two agree in exactly the first k bits, in every order, and a fourth put and removed"""
    n = 256
    for k in range(n):
        for base in (0, (1 << n) - 1, int('5a' * 32, 16)):
            a = base.to_bytes(32, 'big')
            b = (base ^ 1 << (n - 1 - k)).to_bytes(32, 'big')                           # differs in bit k only
            c = (base ^ ((1 << (n - k)) - 1)).to_bytes(32, 'big')                       # and in all after it
            far = (base ^ 1 << (n - 1 - (k * 7 + 3) % n)).to_bytes(32, 'big')
            yield ('MBTB', [a, b, c, far], k)


def depth(case, T):
    which, keys, k = case
    fam = fx_tree.FAMILIES[which]
    d = {}
    for i, x in enumerate(keys):
        d.setdefault(x, b'%d' % i)
    want = fam.schema.hash(fam.term(d.items()))
    for order in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 3, 0, 1)):
        m = fam.cls()
        for i in order:
            m = m.put(keys[i], d[keys[i]])
        eq(m.hash, want, 'hash with keys put in order %r' % (order,))
        same_shape(fam, m, fam.term(d.items()))
    for x in d:
        e = {y: v for y, v in d.items() if y != x}
        eq(m.remove(x).hash, fam.schema.hash(fam.term(e.items())), 'hash after removing %s' % x.hex())
    T.label('byte boundary' if k % 8 == 0 else 'inside a byte')
    T.nt()


def deep(case, T):
    """Trees as deep as their keys have bits"""
    fam = fx_tree.FAMILIES['MBTB']
    d = fx_mbt.comb_dict(case)

    def go():
        m = fam.build(d.items())
        eq(m.hash, fx_mbt.comb_hash(fam, case, d), 'hash')
        r = fam.build(list(d.items())[::-1])
        ok(r == m and hash(r) == hash(m), 'equality with the tree built in another order')
        eq(r.serialize(), m.serialize(), 'serialization')
        x = fam.cls.deserialize(m.serialize())
        eq(x.hash, m.hash, 'hash of the deserialized tree')
        p = fam.build(d.items()).prune()
        eq(p.hash, m.hash, 'hash of the pruned tree')
        eq(p[case[2][0]], d[case[2][0]], 'lookup')
        y = fam.cls.deserialize(p.serialize())
        eq(y.hash, m.hash, 'hash of a deserialized proof')
        k = case[2][len(d) // 2]
        e = {a: b for a, b in d.items() if a != k}
        eq(x.remove(k).hash, fx_mbt.comb_hash(fam, case, e), 'hash after a removal')
        e = {**d, k: b'other'}
        eq(x.put(k, b'other').hash, fx_mbt.comb_hash(fam, case, e), 'hash after a replacement')
    shallow(go)
    T.label('depth %d' % len(d))
    T.nt()


def gen_different():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        return st.tuples(st.just(w), fam.items(10), st.sampled_from(['value', 'drop', 'add', 'rename', 'swap']), st.integers(0, 50),
                         fam.key(), fam.value(), st.integers(1, 60))
    return gen.mix(*[g(w) for w in fx_tree.MBTS])


def every(case, T):
    """Every two changes of every mapping over a few keys"""
    which, keys, items = case
    ops = [('put', k, fx_mbt.small_value(which, 3)) for k in keys] + [('remove', n) for n in range(len(items) + 1)]
    for a in ops:
        for b in ops:
            commit((which, items, [a, b]), T)
    for order in itertools.permutations(items):
        commit((which, list(order), []), T)


def long(case, T):
    """Keys of thousands of bits, large values"""
    fam = fx_tree.LONG
    items = fx_mbt.long_items(case)
    m = fam.build(items)
    term = fam.term(items)
    eq(m.hash, fam.schema.hash(term), 'hash')
    eq(m.serialize(), fam.schema.wire(term), 'serialization')
    same_shape(fam, m, term)
    eq(fam.build(items[::-1]).hash, m.hash, 'hash with the keys put in another order')
    for i in range(len(items)):
        rest = items[:i] + items[i + 1:]
        eq(m.remove(items[i][0]).hash, fam.schema.hash(fam.term(rest)), 'hash after a removal')
        other = rest + [(items[i][0], items[i][1] + b'.')]
        eq(m.put(*other[-1]).hash, fam.schema.hash(fam.term(other)), 'hash after a replacement')
    T.nt()


def many(case, T):
    """A thousand keys and more"""
    which, n = case
    fam = fx_tree.FAMILIES[which]
    items = fx_mbt.many_items(which, n)
    m = fam.build(items)
    term = fam.term(items)
    eq(m.hash, fam.schema.hash(term), 'hash')
    eq(m.serialize(), fam.schema.wire(term), 'serialization')
    eq(fam.cls.deserialize(m.serialize()).hash, m.hash, 'hash of the deserialized tree')
    T.nt()


SUBS = [
    Sub('every', every, enum=fx_mbt.worlds),
    Sub('deep', deep, enum=fx_mbt.combs),
    Sub('depths', depth, enum=depths),
    Sub('commit', commit, gen=lambda: fx_mbt.cases(10, 12), quick=10500, heavy=True),
    Sub('different', different, gen=gen_different, quick=7500),
    Sub('dense', dense, gen=lambda: st.tuples(st.sampled_from(['MBTA', 'MBTC']), st.lists(st.integers(0, 2047), min_size=1, max_size=120), st.integers(0, 500)), quick=750),
    Sub('long', long, enum=fx_mbt.long_cases),
    Sub('many', many, enum=lambda: iter(fx_mbt.MANY)),
]
