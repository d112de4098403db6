from hypothesis import strategies as st
from .. import gen, ref_pm, fx_pm, fx_tree
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_pm.S

RULE = """On proofs, ranges and trees that were built, pruned, partly used, deserialized or deserialized pruned, every
serialized attribute, the cached digests, flags and unknown names are assigned and deleted at every depth, which must
fail and change nothing; and histories of append, extend, slice, put, overwrite, remove, prune and serialize are run over
a growing set of versions, every version being compared with its own snapshot (contents, hash, bytes) after every step.
Non-trivial: a nested proof, or a history with three or more versions."""
ASSUMPTIONS = ['object.__setattr__ and other ways around Python attribute assignment are outside the domain']

NAMES = ['hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'new_attribute', '_orig', 'HASHTAG', 'SERIALIZED_ATTRS', '__class__', '_Proof__orig_instance']


def attack(p, names, what):
    for n in names:
        for v in (None, 0, b'\0' * 32, True):
            raises((TypeError, AttributeError), setattr, p, n, v, what='%s: setting %s' % (what, n))
        raises((TypeError, AttributeError), delattr, p, n, what='%s: deleting %s' % (what, n))


def immutable(case, T):
    term, how, picks = case
    top = fx_pm.top_class(term[0])
    p = fx_pm.build(term)
    tree = True
    if how in ('pruned', 'transported'):
        p = p.prune()
        ps = fx_pm.paths(term)
        used = [ps[i % len(ps)] for i in picks] if ps else []
        for u in used:
            fx_pm.walk(p, u)
        tree = fx_pm.used_tree(term, used)
        if how == 'transported':
            p = top.deserialize(p.serialize())
    elif how == 'deserialized':
        p = top.deserialize(p.serialize())
    before = p.serialize()
    flag, flag2 = p.is_pruned, p.is_fully_pruned

    def visit(x, t, path):
        attack(x, NAMES + [f for f, k in fx_pm.fields(t[0])], '%s %s %r' % (how, t[0], path))
        if path == () or not x.is_fully_pruned:
            for (f, k), v in zip(fx_pm.fields(t[0]), t[1:]):
                if fx_pm.is_proof_kind(k) and not x.is_fully_pruned:
                    visit(getattr(x, f), v, path + (f,))
                    T.nt()
    visit(p, term, ())
    eq(p.serialize(), before, 'serialization afterwards')
    eq(p.hash, S.hash(term), 'hash afterwards')
    eq((p.is_pruned, p.is_fully_pruned), (flag, flag2), 'flags afterwards')
    T.label(how, term[0])


def snap_mmr(fam, m):
    return (len(m), [fam.unreal(v) for v in m], m.hash, m.serialize())


def mmr(case, T):
    which, items, ops = case
    fam = fx_tree.FAMILIES[which]
    versions = [fam.build(items)]
    snaps = [snap_mmr(fam, versions[0])]
    for op, i, a, b, v in ops:
        m = versions[i % len(versions)]
        snap = snaps[i % len(versions)]
        if op == 'append':
            new = m.append(fam.real(v[0] if v else fam_default(fam)))
        elif op == 'extend':
            new = m.extend([fam.real(x) for x in v])
        elif op == 'slice':
            new = m[a:b]
        elif op == 'prune':
            q = m.prune()
            eq([fam.unreal(x) for x in q], snap[1], 'items of the pruned view')
            q.append(fam.real(v[0] if v else fam_default(fam)))
            new = None
        elif op == 'ser':
            new = fam.cls.deserialize(m.serialize())
        elif op == 'pruneappend':
            new = m.prune().append(fam.real(v[0] if v else fam_default(fam)))
            eq(list(map(fam.unreal, new)), snap[1] + [v[0] if v else fam_default(fam)], 'append to a pruned view')
            new = None
        elif op == 'set':
            for idx in (0, -1, a, slice(None), 'x'):
                raises(TypeError, m.__setitem__, idx, fam.real(fam_default(fam)), what='item assignment')
                raises(TypeError, m.__delitem__, idx, what='item deletion')

                def f():
                    del m[idx]
                raises(TypeError, f, what='del')
            attack(m, NAMES + ['left', 'right', 'length', 'value'], 'mountain range')
            new = None
        elif op == 'iter':
            eq([fam.unreal(x) for x in reversed(m)], snap[1][::-1], 'reversed')
            new = None
        if new is not None:
            versions.append(new)
            snaps.append(snap_mmr(fam, new))
        for k, (x, s) in enumerate(zip(versions, snaps)):
            ok(snap_mmr(fam, x) == s, 'version %d changed by %s on version %d' % (k, op, i % len(versions)))
    T.label(*[o[0] for o in ops])
    T.nt(len(versions) >= 3)


def fam_default(fam):
    return {'MMRA': 1, 'MMRE': 1, 'MMRB': b'd', 'MMRP': (1, b'x'), 'MBTA': 1, 'MBTB': b'd', 'MBTC': 1, 'MBTP': (1, b'x'), 'MBTD': b'd', 'MBTE': 1, 'MBTF': 1}[fam.name]


def snap_mbt(fam, m):
    return (len(m), [(fam.uk(k), fam.unreal(v)) for k, v in m.items()], m.hash, m.serialize())


def mbt(case, T):
    which, items, ops = case
    fam = fx_tree.FAMILIES[which]
    versions = [fam.build(items)]
    snaps = [snap_mbt(fam, versions[0])]
    for op, i, j, k, v in ops:
        m = versions[i % len(versions)]
        snap = snaps[i % len(versions)]
        keys = [x[0] for x in snap[1]]
        new = None
        if op == 'put':
            new = m.put(fam.rk(k), fam.real(v))
        elif op == 'over' and keys:
            new = m.put(fam.rk(keys[j % len(keys)]), fam.real(v))
        elif op == 'remove' and keys:
            new = m.remove(fam.rk(keys[j % len(keys)]))
        elif op == 'absent' and k not in keys:
            raises(KeyError, m.remove, fam.rk(k))
        elif op == 'prune':
            q = m.prune()
            if keys:
                q.remove(fam.rk(keys[j % len(keys)]))
            q.put(fam.rk(k), fam.real(v))
            eq([fam.uk(x) for x, y in q.items()], keys, 'keys of the pruned view')
        elif op == 'ser':
            new = fam.cls.deserialize(m.serialize())
        elif op == 'subset':
            versions[j % len(versions)].issubset(m)
        elif op == 'set':
            def f():
                m[fam.rk(k)] = fam.real(v)

            def g():
                del m[fam.rk(k)]
            raises((TypeError, AttributeError), f, what='item assignment')
            raises((TypeError, AttributeError), g, what='item deletion')
            attack(m, NAMES + ['left', 'right', 'key', 'value', 'prefix'], 'radix tree')
        if new is not None:
            versions.append(new)
            snaps.append(snap_mbt(fam, new))
        for n, (x, s) in enumerate(zip(versions, snaps)):
            ok(snap_mbt(fam, x) == s, 'version %d changed by %s on version %d' % (n, op, i % len(versions)))
    T.label(*[o[0] for o in ops])
    T.nt(len(versions) >= 3)


def mmr_gen():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        return st.tuples(st.just(w), fam.items(9), st.lists(st.tuples(
            st.sampled_from(['append', 'append', 'extend', 'slice', 'prune', 'ser', 'pruneappend', 'set', 'iter']), st.integers(0, 9),
            st.integers(-9, 12), st.integers(-9, 12), st.lists(fam.value(), max_size=4)), max_size=8))
    return gen.mix(*[g(w) for w in fx_tree.MMRS])


def mbt_gen():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        return st.tuples(st.just(w), fam.items(8), st.lists(st.tuples(
            st.sampled_from(['put', 'put', 'over', 'remove', 'absent', 'prune', 'ser', 'subset', 'set']), st.integers(0, 9), st.integers(0, 9),
            fam.key(), fam.value()), max_size=8))
    return gen.mix(*[g(w) for w in fx_tree.MBTS])


SUBS = [
    Sub('immutable', immutable, gen=lambda: st.tuples(gen.mix(fx_pm.any_term(True), fx_pm.structured_term(True)),
        st.sampled_from(['built', 'pruned', 'deserialized', 'transported']), st.lists(st.integers(0, 50), max_size=4)), quick=3600),
    Sub('mmr', mmr, gen=mmr_gen, quick=4500),
    Sub('mbt', mbt, gen=mbt_gen, quick=4500),
]
