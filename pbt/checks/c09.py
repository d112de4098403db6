from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from .. import gen, ref_pm, fx_pm, fx_tree, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_pm.S

RULE = """A nested proof is pruned, an arbitrary set of its attributes at any depth is used, and it is serialized (compared
with reference bytes) and read back; then every attribute path is visited: present ones must have the original's value,
missing ones must raise a pruned error naming the attribute. It (and its components) are also serialized between uses. Then it is pruned, used and transported again. Half of the
cases are read in a process that has not used the classes before. Non-trivial: some nested proof present and some
missing."""
ASSUMPTIONS = []


def visible(term, tree, path=()):
    """paths present / missing on the wire: {path: bool}, children of missing nodes are not listed"""
    out = {}
    for (f, k), v in zip(fx_pm.fields(term[0]), term[1:]):
        p = path + (f,)
        out[p] = tree is not None
        if tree is not None and fx_pm.is_proof_kind(k):
            out.update(visible(v, True and tree[f], p))
    return out


def full_tree(term):
    return {f: full_tree(v) for (f, k), v in zip(fx_pm.fields(term[0]), term[1:]) if fx_pm.is_proof_kind(k)}


def check_view(d, term, tree, what, order):
    eq(d.hash, S.hash(term), what + ': hash')
    ok(type(d) is fx_pm.CLASSES[term[0]], what + ': class')
    vis = visible(term, tree)
    paths = sorted(vis)
    if order:
        paths.reverse()
    for path in paths:
        k, v = fx_pm.at(term, path)
        if vis[path]:
            x = fx_pm.walk(d, path)
            if fx_pm.is_proof_kind(k):
                ok(type(x) is fx_pm.CLASSES[v[0]], '%s: class of %r' % (what, path))
                eq(x.hash, S.hash(v), '%s: hash of %r' % (what, path))
            else:
                eq(fx_pm.from_real(k, x), v, '%s: value of %r' % (what, path))
        else:
            e = raises(PrunedError, fx_pm.walk, d, path, what='%s: %r' % (what, path))
            eq(e.attr_name, path[-1], 'attribute named by the error')
            # still missing, and says so again
            raises(PrunedError, fx_pm.walk, d, path, what='%s: %r again' % (what, path))
    node = d
    raises(AttributeError, getattr, d, 'no_such_attribute')


def make(case, T, real):
    term, picks, picks2, order, look, parts = case
    ps = fx_pm.paths(term)
    top = fx_pm.top_class(term[0])
    used = [ps[i % len(ps)] for i in picks] if ps else []
    tree = fx_pm.used_tree(term, used)
    if real:
        p = fx_pm.build(term)
        if fx_used.sometimes(case):
            fx_used.use(p)
            T.label('used before')
        p = p.prune()
        for n, u in enumerate(used):
            if look >> n & 1:
                # between uses it is serialized and compared
                eq(p.serialize(), S.wire(term, fx_pm.used_tree(term, used[:n])), 'wire after %d uses' % n)
            fx_pm.walk(p, u)
        if parts:
            # so are its components, before some of their attributes are used through them
            for u in used:
                k, v = fx_pm.at(term, u)
                if fx_pm.is_proof_kind(k):
                    eq(fx_pm.walk(p, u).serialize(), S.wire(v, fx_pm.used_tree(v, [x[len(u):] for x in used if len(x) > len(u) and x[:len(u)] == u])),
                       'wire of component %r' % (u,))
            for u, j in zip(list(used), picks2):
                k, v = fx_pm.at(term, u)
                fl = fx_pm.fields(v[0]) if fx_pm.is_proof_kind(k) else []
                if fl:
                    f = fl[j % len(fl)][0]
                    getattr(fx_pm.walk(p, u), f)
                    used.append(u + (f,))
                    tree = fx_pm.used_tree(term, used)
                    eq(p.serialize(), S.wire(term, tree), 'wire after using %r of component %r' % (f, u))
        wire = p.serialize()
        eq(wire, S.wire(term, tree), 'wire')
        eq(p.serialize(), wire, 'serialized again')
    else:
        wire = S.wire(term, tree)
    d = top.deserialize(wire)
    eq(d.serialize(), wire, 're-serialization')
    vis = visible(term, tree)
    if real and order:
        # equal to the original, to itself and to differently pruned ones
        ok(d == fx_pm.build(term) and d == top.deserialize(S.wire(term)) and d == top.deserialize(S.wire(term, None)), 'equality')
    eq(d.is_fully_pruned, tree is None, 'is_fully_pruned')
    missing = [p for p in vis if not vis[p]]
    eq(bool(d.is_pruned), tree is None or any(
        fx_pm.is_proof_kind(fx_pm.at(term, p)[0]) and fully(tree, p) for p in vis if vis[p]), 'is_pruned')
    check_view(d, term, tree, 'read back', order)
    eq(d.serialize(), wire, 're-serialization after use')
    # second leg: prune what arrived, use some of what is there
    d = top.deserialize(wire)
    q = d.prune()
    eq(q.hash, S.hash(term), 'hash of the pruned copy')
    used2 = []
    for i in picks2:
        cand = sorted(p for p in vis)
        if not cand:
            break
        path = cand[i % len(cand)]
        if vis[path]:
            k, v = fx_pm.at(term, path)
            x = fx_pm.walk(q, path)
            if not fx_pm.is_proof_kind(k):
                eq(fx_pm.from_real(k, x), v, 'value through second pruning')
            used2.append(path)
        else:
            e = raises(PrunedError, fx_pm.walk, q, path, what='second pruning %r' % (path,))
            eq(e.attr_name, path[-1], 'attribute named by the error')
            # everything above it was used
            if len(path) > 1:
                used2.append(path[:-1])
    tree2 = fx_pm.used_tree(term, used2)
    wire2 = q.serialize()
    eq(wire2, S.wire(term, tree2), 'second wire')
    check_view(top.deserialize(wire2), term, tree2, 'read back twice', not order)
    T.label(term[0], 'all' if not missing else 'none' if tree is None else 'some')
    nested = [p for p in vis if fx_pm.is_proof_kind(fx_pm.at(term, p)[0])]
    T.nt(any(vis[p] and not fully(tree, p) for p in nested) and any(fully(tree, p) or not vis[p] for p in nested))


def fully(tree, path):
    for f in path:
        if tree is None:
            return True
        tree = tree[f]
    return tree is None


def here(case, T):
    make(case, T, True)


def elsewhere(case, T):
    make(case, T, False)


def fullpruned(case, T):
    """Only the digest is there"""
    term, order = case
    top = fx_pm.top_class(term[0])
    wire = S.wire(term, None)
    d = top.deserialize(wire)
    names = [f for f, k in fx_pm.fields(term[0])]
    if order:
        names.reverse()
    for f in names:
        e = raises(PrunedError, getattr, d, f, what='attribute %s of a fully pruned %s' % (f, term[0]))
        eq(e.attr_name, f, 'attribute named')
        T.nt()
    eq(d.hash, S.hash(term), 'hash')
    eq(d.data_hash, S.data_hash(term), 'data_hash')
    eq(d.serialize(), wire, 're-serialization')
    T.label(term[0])


def cases(terms):
    return st.tuples(terms, st.lists(st.integers(0, 60), max_size=6), st.lists(st.integers(0, 60), max_size=4), st.booleans(),
                     st.one_of(st.just(0), st.integers(0, 63)), st.booleans())


SUBS = [
    Sub('here', here, gen=lambda: cases(gen.mix(fx_pm.structured_term(), fx_pm.structured_term(True), fx_pm.any_term())), quick=12000),
    Sub('elsewhere', elsewhere, gen=lambda: cases(gen.mix(fx_pm.structured_term(True), fx_pm.any_term(True))), quick=1200, fork=True),
    Sub('fullpruned', fullpruned, gen=lambda: st.tuples(fx_pm.any_term(True), st.booleans()), quick=480, fork=True),
]
