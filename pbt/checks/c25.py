from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import DeserializationError
from bitcoin.core.serialize import SerializationError
from .. import gen, ref_pm, ref_btc as R, fx_btc, fx_seal, fx_gumap, fx_tree, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome
from .c24 import same, replace, HOWS, gen_closing, gen_replaced

RULE = """Maps of any shape, proper and tampered with, with fake and Bitcoin seals, are written (compared with reference bytes),
read back and compared node by node including the verdict; a pruned view verifies (at the root, or at a node further
down), is transported, and must still give the same verdict, with everything not used replaced by digests (the wire is
compared with a reference parse) and raising pruned errors. Non-trivial: a leaf or inner prefix."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases']


def transport(case, T):
    w, r, how, key, value, other, i = case
    fam = fx_gumap.FAMS[w]
    m = replace(fam, fx_gumap.cook(fam, r), how, (key, value, fx_gumap.cook(fam, other), i))
    obj = fam.build(m)
    term = fam.term(m)
    wire = obj.serialize()
    eq(wire, fam.schema.wire(term), 'wire')
    d = fam.cls.deserialize(wire)
    same(fam, d, m, 'read back')
    ok(d == obj and hash(d) == hash(obj), 'equality')
    eq(d.serialize(), wire, 're-serialization')
    ok(not d.is_pruned, 'not pruned')
    gone = fam.cls.deserialize(obj.prune().serialize())
    eq(obj.prune().serialize(), fam.schema.wire(term, None), 'fully pruned wire')
    ok(type(gone) is fam.class_of(m), 'class of a fully pruned one')
    eq(gone.hash, obj.hash, 'hash of a fully pruned one')
    raises(PrunedError, getattr, gone, 'seal', what='seal of a fully pruned map')
    if m[0] != 'unused':
        raises(PrunedError, gone.verify, what='verification of a fully pruned map')
    raises(PrunedError, getattr, gone, 'prefix', what='prefix of a fully pruned map')
    T.label(w, m[0])
    T.nt(m[0] != 'unused')


def descend(m, obj, path):
    for step in path:
        if m[0] != 'inner':
            break
        m, obj = (m[3], obj.left) if step == 0 else (m[4], obj.right)
    return m, obj


def kept(fam, parsed, m, what):
    """Nodes below the one that was verified"""
    return parsed


def pruned(case, T):
    (w, r, how, key, value, other, i), path = case
    fam = fx_gumap.FAMS[w]
    m = replace(fam, fx_gumap.cook(fam, r), how, (key, value, fx_gumap.cook(fam, other), i))
    obj = fam.build(m)
    if fx_used.sometimes(case):
        # the map was used already, this cannot show in the pruned view
        fx_used.use(obj)
        T.label('used before')
    p = obj.prune()
    sub_m, sub_p = descend(m, p, path)
    r0 = fx_seal.verdict(sub_p.verify)
    eq(r0 is True, fam.verifies(sub_m), 'verdict on the pruned view')
    ok(not isinstance(r0, PrunedError), 'pruned error on the pruned view')
    wire = p.serialize()
    parsed = fam.schema.parse(('family', w), wire)
    eq(fam.schema.hash_read(parsed), fam.schema.hash(fam.term(m)), 'hash of the wire')
    d = fam.cls.deserialize(wire)
    eq(d.hash, obj.hash, 'hash')
    ok(d == obj, 'equality')
    eq(d.serialize(), wire, 're-serialization')
    sub_m, sub_d = descend(m, d, path)
    if not (sub_m[0] == 'unused'):      # (verifying an unused prefix uses nothing)
        r1 = fx_seal.verdict(sub_d.verify)
        eq(r1 is True, fam.verifies(sub_m), 'verdict after transport')
        ok(not isinstance(r1, PrunedError), 'pruned error after transport')
        node = parsed
        mm = m
        for step in path:
            if mm[0] != 'inner':
                break
            # the other side was not looked at
            sib = node[4] if step == 0 else node[3]
            ok(sib[0] == 'PRUNED', 'a sibling not looked at is on the wire')
            sib_d = (d.right if step == 0 else d.left)
            raises(PrunedError, getattr, sib_d, 'seal', what='a sibling not looked at')
            node = node[3] if step == 0 else node[4]
            d = d.left if step == 0 else d.right
            mm = mm[3] if step == 0 else mm[4]
        if mm[0] == 'inner':
            # of the children only the seals are needed
            for child, cm, rc in ((node[3], mm[3], d.left), (node[4], mm[4], d.right)):
                eq(rc.seal.hash, fam.seal_hash(cm), 'seal of a child')
                if cm[0] == 'inner':
                    ok(child[3][0] == 'PRUNED' and child[4][0] == 'PRUNED', 'grandchildren are on the wire')
                    raises(PrunedError, getattr, rc.left, 'prefix', what='prefix of a grandchild')
                if cm[0] == 'leaf' and fam.value_kind[0] == 'proof':
                    ok(child[3][0] == 'PRUNED', "a child's value is on the wire")
                    raises(PrunedError, getattr, rc.value, 'n', what="a child's value")
                if cm[0] != 'unused':
                    wit = child[1] if cm[0] == 'leaf' else child[2]
                    if wit[0] == 'BtcWitness':
                        ok(wit[2][0] == 'PRUNED' and wit[3][0] == 'PRUNED', "a child's witness transaction is on the wire")
        if mm[0] == 'leaf' and fam.value_kind[0] == 'proof':
            # the value's hash is enough
            ok(node[3][0] == 'PRUNED', 'the value of the leaf is on the wire')
    else:
        ok(fx_seal.verdict(sub_p.verify) is True, 'unused prefix')
    T.label('%s at depth %d' % (sub_m[0], len(path)), 'verifies' if fam.verifies(sub_m) else 'refused')
    T.nt(m[0] != 'unused')


def parts(case, T):
    """Maps with any parts missing: correct verdict or a pruned error"""
    (w, r, how, key, value, other, i), cut = case
    fam = fx_gumap.FAMS[w]
    m = replace(fam, fx_gumap.cook(fam, r), how, (key, value, fx_gumap.cook(fam, other), i))
    term = fam.term(m)
    wire = fam.schema.wire(term, fx_tree.cut(fam.schema, term, cut))
    d = fam.cls.deserialize(wire)
    eq(d.hash, fam.schema.hash(term), 'hash')
    eq(d.serialize(), wire, 're-serialization')
    todo = [(m, d)]
    answers = 0
    while todo:
        mm, dd = todo.pop()
        for what, got, want in (('verdict', lambda: fx_seal.verdict(dd.verify), None), ('prefix', lambda: tuple(dd.prefix), fam.map_prefix(mm)),
                                ('seal', lambda: dd.seal.hash, fam.seal_hash(mm))):
            try:
                g = got()
            except PrunedError:
                continue
            if what == 'verdict':
                if isinstance(g, PrunedError):
                    continue
                g, want = g is True, fam.verifies(mm)
            eq(g, want, what)
            answers += 1
        if mm[0] == 'inner':
            o = outcome(lambda: (dd.left, dd.right))
            if o[0] == 'ok':
                todo += [(mm[3], o[1][0]), (mm[4], o[1][1])]
            else:
                ok(isinstance(o[1], PrunedError), 'raised %r' % (o[1],))
    T.label('answers %s' % min(answers, 5))
    T.nt(answers > 0 and m[0] != 'unused')


def garbage(case, T):
    (w, r), muts = case
    fam = fx_gumap.FAMS[w]
    data = gen.mutate(fam.schema.wire(fam.term(fx_gumap.cook(fam, r))), muts)
    res = outcome(fam.cls.deserialize, data)
    if res[0] == 'ok':
        if res[1].serialize() != data:
            # only non-minimal sizes inside transactions may be normalized
            try:
                parsed = fam.schema.parse(('family', w), data)
            except ref_pm.Reject as e:
                fail('reads what is not a valid encoding: %s' % e)
            ok(not all_minimal(parsed), 'reads and writes back different bytes')
        T.label('reads')
    else:
        ok(isinstance(res[1], (DeserializationError, SerializationError)), 'raised %r' % (res[1],))
        T.label('refused')
    T.nt(r[0] != 'unused')


def all_minimal(v):
    if isinstance(v, tuple) and v and v[0] == 'TxProof':
        rd = R.Reader(v[1])
        rd.tx()
        return rd.minimal
    if isinstance(v, tuple) and v and v[0] == 'GME.Leaf':
        rd = R.Reader(v[3])
        rd.tx()
        return rd.minimal and all_minimal(v[1])
    return all(all_minimal(x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) if isinstance(v, tuple) else True


SUBS = [
    Sub('transport', transport, gen=gen_replaced, quick=7500, heavy=True),
    Sub('pruned', pruned, gen=lambda: st.tuples(gen_replaced2(), st.lists(st.integers(0, 1), max_size=2)), quick=9000, heavy=True),
    Sub('parts', parts, gen=lambda: st.tuples(gen_replaced2(), st.lists(st.integers(0, 4), max_size=14)), quick=4500),
    Sub('garbage', garbage, gen=lambda: st.tuples(gen_closing(1), gen.mutations(2, 1)), quick=4500),
]


def gen_replaced2():
    """Deeper maps"""
    def g(w):
        fam = fx_gumap.FAMS[w]
        r = fx_gumap.recipes(w, 2)
        inner = st.tuples(st.just('inner'), fx_gumap.seals(), fx_gumap.hows(), fx_gumap.bits_st(), r, r)
        return st.tuples(st.just(w), st.one_of(r, inner, st.tuples(st.just('children'), r, r)), st.sampled_from(HOWS + [''] * 8), fam.key(), fam.value(), fx_gumap.recipes(w, 0), st.integers(0, 300))
    return gen.mix(*[g(w) for w in fx_gumap.FAMS])
