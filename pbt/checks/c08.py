from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from .. import gen, ref_pm, fx_pm, fx_tree, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_pm.S

RULE = """Histories of attribute reads (any depth), method calls, hash, equality, repr, serialization, failing attribute
lookups and reads through references held earlier, on a pruned view of a nested proof (and on one pruned again after use), are compared with a reference
model tracking which nodes were used; several views of one proof and of its parts are used in turns, each with a model of its own; and proofs are built with an arbitrary set of pruned components in proof, variant
and union fields. Non-trivial: at least two reads at different depths, or at least one pruned component."""
ASSUMPTIONS = ['The state tracked by a pruned view of a pruned view is only compared on the outer view']


def proof_paths(term):
    return [()] + [p for p in fx_pm.paths(term) if fx_pm.is_proof_kind(fx_pm.at(term, p)[0])]


def state(obj, path, used, what):
    eq(obj.is_pruned, True, what + ': is_pruned')
    eq(obj.is_fully_pruned, not any(len(u) > len(path) and u[:len(path)] == path for u in used), what + ': is_fully_pruned')


def history(case, T):
    term, ops, twice = case
    orig = fx_pm.build(term)
    wire = S.wire(term)
    if fx_used.sometimes(case):
        fx_used.use(orig)
        T.label('used before')
    p = orig.prune()
    if twice:
        p = p.prune()
    used = set()
    held = []
    pps = proof_paths(term)
    aps = fx_pm.paths(term)
    state(p, (), used, 'fresh')
    depths = set()
    for op, i, j in ops:
        if op == 'get' and aps:
            path = aps[i % len(aps)]
            k, v = fx_pm.at(term, path)
            x = fx_pm.walk(p, path)
            used.update(path[:n] for n in range(1, len(path) + 1))
            depths.add(len(path))
            if fx_pm.is_proof_kind(k):
                ok(type(x) is fx_pm.CLASSES[v[0]], 'class of attribute')
                eq(x.hash, S.hash(v), 'hash of attribute')
                ok(x == fx_pm.build(v), 'equality of attribute')
                state(x, path, used, 'attribute %r' % (path,))
                held.append((x, path))
            else:
                eq(fx_pm.from_real(k, x), v, 'attribute %r' % (path,))
        elif op == 'held' and held:
            x, path = held[i % len(held)]
            k, v = fx_pm.at(term, path)
            fl = fx_pm.fields(v[0])
            if fl:
                f, kk = fl[j % len(fl)]
                y = getattr(x, f)
                used.add(path + (f,))
                depths.add(len(path) + 1)
                if not fx_pm.is_proof_kind(kk):
                    eq(fx_pm.from_real(kk, y), fx_pm.get(v, f)[1], 'attribute through a held reference')
                else:
                    held.append((y, path + (f,)))
            state(x, path, used, 'held %r' % (path,))
        else:
            path = pps[i % len(pps)]
            k, v = fx_pm.at(term, path)
            x = fx_pm.walk(p, path)
            used.update(path[:n] for n in range(1, len(path) + 1))
            state(x, path, used, 'node %r' % (path,))
            if op == 'hash':
                eq(x.hash, S.hash(v), 'hash')
                eq(hash(x), hash(fx_pm.build(v)), 'hash()')
                eq(x.data_hash, S.data_hash(v), 'data_hash')
            elif op == 'eq':
                ok(x == fx_pm.walk(orig, path) and fx_pm.walk(orig, path) == x and not x != fx_pm.walk(orig, path), 'equality')
            elif op == 'repr':
                repr(x)
            elif op == 'missing':
                for name in ('no_such_attribute', 'lefty', 'n_', '_n', 'Value'):
                    e = raises(AttributeError, getattr, x, name)
                    ok(not isinstance(e, PrunedError), 'attribute error')
                ok(not hasattr(x, 'no_such_attribute'), 'hasattr')
                eq(getattr(x, 'nope', 7), 7, 'getattr default')
            elif op == 'ser':
                eq(x.serialize(), S.wire(v, fx_pm.used_tree(v, [u[len(path):] for u in used if len(u) > len(path) and u[:len(path)] == path])),
                   'serialization of a pruned view')
            elif op == 'method':
                if v[0] == 'Leaf':
                    eq(x.total(), v[1] + len(v[2]), 'method')
                    used.update([path + ('n',), path + ('data',)])
                elif v[0] in ('Pair', 'Sub'):
                    eq(x.left_total(), v[1][1] + len(v[1][2]) + v[2], 'method')
                    used.update([path + ('left',), path + ('left', 'n'), path + ('left', 'data'), path + ('k',)])
            elif op == 'class':
                ok(type(x) is fx_pm.CLASSES[v[0]], 'class')
                ok(isinstance(x, fx_pm.top_class(v[0])), 'isinstance')
            state(x, path, used, 'node %r after %s' % (path, op))
    # the view as a whole
    eq(p.hash, S.hash(term), 'hash')
    eq(p.serialize(), S.wire(term, fx_pm.used_tree(term, used)), 'final serialization')
    for path in pps:
        if path == () or path in used:
            state(fx_pm.walk(p, path), path, used, 'final state of %r' % (path,))
    # pruned again, nothing has been used yet, whatever was used of the first view
    q = p.prune()
    again = set()
    state(q, (), again, 'pruned again')
    for op, i, j in ops[::2]:
        if aps:
            path = aps[i % len(aps)]
            k, v = fx_pm.at(term, path)
            x = fx_pm.walk(q, path)
            again.update(path[:n] for n in range(1, len(path) + 1))
            if fx_pm.is_proof_kind(k):
                eq(x.hash, S.hash(v), 'hash of attribute, pruned again')
                state(x, path, again, 'attribute %r, pruned again' % (path,))
            else:
                eq(fx_pm.from_real(k, x), v, 'attribute %r, pruned again' % (path,))
    eq(q.serialize(), S.wire(term, fx_pm.used_tree(term, again)), 'serialization, pruned again')
    eq(q.hash, S.hash(term), 'hash, pruned again')
    # the original never changes
    eq(orig.is_pruned, False, 'is_pruned of the original')
    eq(orig.is_fully_pruned, False, 'is_fully_pruned of the original')
    eq(orig.serialize(), wire, 'serialization of the original')
    eq(orig.hash, S.hash(term), 'hash of the original')
    for path in pps:
        eq(fx_pm.walk(orig, path).is_pruned, False, 'is_pruned inside the original')
    T.label(*[o[0] for o in ops])
    T.label(term[0])
    T.nt(len(depths) > 1)


OPS = ['get', 'get', 'get', 'held', 'hash', 'eq', 'repr', 'missing', 'ser', 'method', 'class']


def history_gen(terms):
    return st.tuples(terms, st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 60), st.integers(0, 7)), max_size=12), st.booleans())


def components(case, T):
    """Proofs built from components some of which are pruned"""
    term, choice = case
    any_pruned = False
    kwargs = {}
    for n, ((f, k), v) in enumerate(zip(fx_pm.fields(term[0]), term[1:])):
        if not fx_pm.is_proof_kind(k):
            kwargs[f] = fx_pm.to_real(k, v)
            continue
        how = choice[n % len(choice)]
        x = fx_pm.build(v)
        if how == 'pruned':
            x = x.prune()
        elif how == 'used':
            x = x.prune()
            for g, kk in fx_pm.fields(v[0]):
                getattr(x, g)
        elif how == 'transported':
            x = fx_pm.top_class(v[0]).deserialize(x.prune().serialize())
        elif how == 'whole':
            x = fx_pm.top_class(v[0]).deserialize(x.serialize())
        elif how == 'deep':
            # only something below is pruned
            kw = {}
            deep = False
            for (g, kk), vv in zip(fx_pm.fields(v[0]), v[1:]):
                kw[g] = fx_pm.to_real(kk, vv)
                if fx_pm.is_proof_kind(kk):
                    kw[g] = kw[g].prune()
                    deep = True
            x = fx_pm.CLASSES[v[0]](**kw)
            eq(x.is_pruned, deep, 'inner is_pruned')
            any_pruned |= deep
        any_pruned |= how in ('pruned', 'used', 'transported')
        kwargs[f] = x
        T.label('%s %s' % (k[0], how))
    p = fx_pm.CLASSES[term[0]](**kwargs)
    eq(bool(p.is_pruned), any_pruned, 'is_pruned')
    eq(p.is_fully_pruned, False, 'is_fully_pruned')
    eq(p.hash, S.hash(term), 'hash')
    ok(p == fx_pm.build(term), 'equality')
    T.nt(any_pruned)


def views(case, T):
    """Several pruned views of one proof and of its parts, used in turns: none of them sees the use of another"""
    term, starts, ops = case
    orig = fx_pm.build(term)
    wire = S.wire(term)
    pps = proof_paths(term)
    vs = []
    for n in starts:
        path = pps[n % len(pps)] if n >= 0 else ()
        t = fx_pm.at(term, path)[1]
        vs.append((fx_pm.walk(orig, path).prune(), t, set(), fx_pm.paths(t)))
    for w, op, i in ops:
        if op == 'view' and len(vs) < 6:
            path = pps[i % len(pps)] if i % 2 else ()
            t = fx_pm.at(term, path)[1]
            vs.append((fx_pm.walk(orig, path).prune(), t, set(), fx_pm.paths(t)))
            w = -1
        p, t, used, aps = vs[w % len(vs)]
        if op == 'hash':
            eq(p.hash, S.hash(t), 'hash of a view')
        elif op == 'ser':
            eq(p.serialize(), S.wire(t, fx_pm.used_tree(t, used)), 'serialization of a view')
        elif op == 'get' and aps:
            path = aps[i % len(aps)]
            k, v = fx_pm.at(t, path)
            x = fx_pm.walk(p, path)
            used.update(path[:n] for n in range(1, len(path) + 1))
            if fx_pm.is_proof_kind(k):
                state(x, path, used, 'attribute %r of a view' % (path,))
            else:
                eq(fx_pm.from_real(k, x), v, 'attribute %r of a view' % (path,))
        state(p, (), used, 'view')
    for n, (p, t, used, aps) in enumerate(vs):
        state(p, (), used, 'view %d in the end' % n)
        for path in used:
            if fx_pm.is_proof_kind(fx_pm.at(t, path)[0]):
                state(fx_pm.walk(p, path), path, used, 'part %r of view %d in the end' % (path, n))
        eq(p.serialize(), S.wire(t, fx_pm.used_tree(t, used)), 'serialization of view %d' % n)
        eq(p.hash, S.hash(t), 'hash of view %d' % n)
    eq((orig.is_pruned, orig.is_fully_pruned, orig.serialize()), (False, False, wire), 'the original')
    T.label('%d views' % len(vs), term[0])
    T.nt(sum(1 for v in vs if v[2]) > 1 and len({tuple(sorted(map(repr, v[2]))) for v in vs}) > 1)


def views_gen():
    ops = st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['get', 'get', 'get', 'view', 'hash', 'ser']), st.integers(0, 60)), min_size=1, max_size=12)
    return st.tuples(gen.mix(fx_pm.structured_term(), fx_pm.structured_term(True), fx_pm.any_term()), st.lists(st.integers(-3, 12), min_size=1, max_size=4), ops)


SUBS = [
    Sub('views', views, gen=views_gen, quick=4000),
    Sub('history', history, gen=lambda: history_gen(gen.mix(fx_pm.structured_term(), fx_pm.structured_term(True), fx_pm.any_term())), quick=15000),
    Sub('firstuse', history, gen=lambda: history_gen(fx_pm.any_term(True)), quick=480, fork=True),
    Sub('components', components, gen=lambda: st.tuples(fx_pm.structured_term(True), st.lists(
        st.sampled_from(['plain', 'pruned', 'used', 'transported', 'whole', 'deep']), min_size=1, max_size=4)), quick=4800,
        examples=[(('Holder', ('Nothing',), ('VD',), ('Pair', ('Leaf', 0, b'', b'\0' * 4, False, b'\0' * 32, ()), 0, ('Leaf', 0, b'', b'\0' * 4, False, b'\0' * 32, ()))),
                   ['pruned', 'plain', 'plain'])]),
]
