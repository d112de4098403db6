from hypothesis import strategies as st
import proofmarshal.serialize as ps
from proofmarshal.proof import ProofUnion, VarProof, Proof
from proofmarshal.serialize import HashTag
from .. import gen, ref_pm, fx_pm, fx_tree, fx_gumap
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_pm.S

RULE = """Values of variant families and of unions (of classes and families, in any declared order and number) are
serialized and compared with the reference number and bytes, whole, pruned and partly used, and read back; values of
other classes are validated and serialized expecting refusal; every variant number from 0 to 300 and some huge ones is
read; one value of every kind of every variant family, range, tree and map (whole, pruned, transported) is offered to all the
others. Families declared on the fly with identical fields must differ pairwise in hash. Classes of one name are joined in unions and must be told apart. Non-trivial: a union or family
of two or more classes with the value not the first."""
ASSUMPTIONS = ['When a value belongs to several alternatives of a union the first one counts']

ALTS = [('proof', 'Leaf'), ('proof', 'Twin'), ('family', 'V'), ('family', 'W'), ('proof', 'Nothing'), ('proof', 'Holder')]
CLS = {('proof', 'Leaf'): fx_pm.Leaf, ('proof', 'Twin'): fx_pm.Twin, ('family', 'V'): fx_pm.V, ('family', 'W'): fx_pm.W,
       ('proof', 'Nothing'): fx_pm.Nothing, ('proof', 'Holder'): fx_pm.Holder}


def encoded(term, picks, how):
    """a real proof and the expected wire of it"""
    p = fx_pm.build(term)
    tree = True
    if how != 'whole':
        p = p.prune()
        ps_ = fx_pm.paths(term)
        used = [ps_[i % len(ps_)] for i in picks] if ps_ else []
        for u in used:
            fx_pm.walk(p, u)
        tree = fx_pm.used_tree(term, used)
    return p, tree


def union(case, T):
    alts, term, picks, how = case
    u = ProofUnion(*[CLS[a] for a in alts])
    p, tree = encoded(term, picks, how)
    matching = [i for i, a in enumerate(alts) if S.matches(a, term)]
    if not matching:
        raises(ps.SerializerTypeError, u.check_instance, p, what='validation of %s by a union of %r' % (term[0], alts))
        raises(ps.SerializerTypeError, u.serialize, p, what='serialization of %s by a union of %r' % (term[0], alts))
        T.label('refused')
        T.nt(len(alts) > 1)
        return
    u.check_instance(p)
    b = u.serialize(p)
    eq(b, ref_pm.leb128(matching[0]) + S.wire(term, tree), 'wire')
    q = u.deserialize(b)
    ok(type(q) is fx_pm.CLASSES[term[0]], 'class')
    eq(q.hash, S.hash(term), 'hash')
    ok(q == p, 'equality')
    eq(u.serialize(q), b, 're-serialization')
    eq(u.get_hash(p), S.hash(term), 'get_hash')
    # any other number is another class or an error
    for i in (len(alts), len(alts) + 1, 127, 128, 2**32, 2**70):
        if i >= len(alts):
            raises(ps.DeserializationError, u.deserialize, ref_pm.leb128(i) + b[1:], what='union number %d of %d' % (i, len(alts)))
    T.label('accepted', how)
    T.nt(len(alts) > 1 and matching[0] > 0)


def family(case, T):
    fam, term, picks, how = case
    cls = fx_pm.FAMILIES[fam]
    p, tree = encoded(term, picks, how)
    if S.family_of(term[0]) != fam:
        raises(ps.SerializerTypeError, cls.check_instance, p, what='validation of %s by %s' % (term[0], fam))
        T.label('refused')
        T.nt()
        return
    cls.check_instance(p)
    b = p.serialize()
    eq(b, S.wire(term, tree), 'wire')
    q = cls.deserialize(b)
    ok(type(q) is fx_pm.CLASSES[term[0]], 'class')
    eq(q.hash, S.hash(term), 'hash')
    eq(q.serialize(), b, 're-serialization')
    ctx = ps.BytesSerializationContext()
    cls.ctx_serialize(p, ctx)
    eq(ctx.getbytes(), b, 'serialization through the family')
    i = S.families[fam].index(term[0])
    eq(b[1], i, 'number')
    for j in list(range(len(S.families[fam]), 140)) + [2**14, 2**32, 2**64]:
        raises(ps.DeserializationError, cls.deserialize, b[:1] + ref_pm.leb128(j) + b[2:], what='variant number %d' % j)
    T.label(term[0], how)
    T.nt(i > 0)


def declare(case, T):
    """Families made on the fly: same fields everywhere"""
    fams, n = case
    seen = {}
    values = {}
    for fi, (famtag, subs) in enumerate(fams):
        base = type('Fam%d' % fi, (VarProof,), {'HASHTAG': HashTag(famtag), '__slots__': []})
        schema = ref_pm.Schema()
        schema.family('F', ref_pm.tag(famtag), [('F%d' % i, ref_pm.tag(s), [('n', ('uint', 32))]) for i, s in enumerate(subs)])
        classes = []
        for i, s in enumerate(subs):
            c = type('Var%d_%d' % (fi, i), (base,), {'SUB_HASHTAG': HashTag(s), '__slots__': ['n'], 'SERIALIZED_ATTRS': [('n', ps.UInt32)]})
            ok(base.declare_variant(c) is c, 'declare_variant returns the class')
            classes.append(c)
        for i, c in enumerate(classes):
            eq(bytes(c.HASHTAG), ref_pm.derive(ref_pm.tag(subs[i]), ref_pm.tag(famtag)), 'variant tag')
            p = c(n=n)
            eq(p.hash, schema.hash(('F%d' % i, n)), 'hash')
            eq(p.serialize(), schema.wire(('F%d' % i, n)), 'wire')
            eq(p.prune().serialize(), schema.wire(('F%d' % i, n), None), 'pruned wire')
            q = base.deserialize(p.serialize())
            ok(type(q) is c and q == p, 'round trip')
            q = base.deserialize(p.prune().serialize())
            ok(type(q) is c and q == p and q.hash == p.hash, 'pruned round trip')
            key = (famtag, subs[i])
            if key not in seen:
                for k, h in seen.items():
                    ok(h != p.hash, 'variants %r and %r share a hash' % (k, key))
                seen[key] = p.hash
    T.label('%d variants' % len(seen))
    T.nt(len(seen) > 1)
    raises(TypeError, fx_pm.V.declare_variant, fx_pm.Leaf, what='declaring a non-variant class')


def distinct(case, T):
    """No two types share a hash for the same fields"""
    n, leaf = case
    groups = [[('VA', n), ('VB', n), ('WA', n), ('WB', n)], [('Leaf',) + leaf, ('Twin',) + leaf], [('VD',), ('Nothing',)]]
    for g in groups:
        hs = [fx_pm.build(t).hash for t in g]
        eq(len(set(hs)), len(hs), 'distinct hashes')
        for a in g:
            for b in g:
                eq(fx_pm.build(a) == fx_pm.build(b), a == b, 'equality of %r and %r' % (a, b))
                eq(fx_pm.build(a).prune() == fx_pm.build(b), a == b, 'equality of pruned %r and %r' % (a, b))
    empties = [f.cls().hash for f in fx_tree.FAMILIES.values()]
    eq(len(set(empties)), len(empties), 'empty ranges and trees of different families')
    T.nt()


def refuse(case, T):
    """Fields of a family type refuse values of another family"""
    a, b = case
    for x in (a, b):
        wanted = S.family_of(x[0]) == 'V'
        for pruned in (False, True):
            p = fx_pm.build(x)
            if pruned:
                p = p.prune()
            for kw in ({'x': p, 'y': fx_pm.VD(), 'm': b'm'}, {'x': fx_pm.VD(), 'y': p, 'm': b'm'}):
                if wanted:
                    fx_pm.VC(**kw)
                else:
                    raises(ps.SerializerTypeError, fx_pm.VC, what='field of family V given %s' % x[0], **kw)
    T.nt()


ITEMS = {'MMRA': [3, 1, 4], 'MMRE': [3, 1, 4], 'MMRB': [b'a', b'b', b'c'], 'MMRP': [(1, b''), (2, b'x'), (3, b'')], 'MBTA': [(b'\0', 1), (b'\x80', 2), (b'\xff', 3)],
         'MBTB': [(bytes(32), b'1'), (b'\x80' * 32, b'2'), (b'\xff' * 32, b'3')], 'MBTC': [(0, 1), (1, 2), (2047, 3)],
         'MBTP': [(b'\0\0', (1, b'')), (b'\x80\0', (2, b'')), (b'\xff\xff', (3, b''))], 'MBTD': [((1, b''), b'1'), ((2, b''), b'2'), ((3, b''), b'3')],
         'MBTE': [(b'\0', 1), (b'\x80', 2), (b'\xff', 3)], 'MBTF': [(bytes(40), 1), (b'\x80' * 40, 2), (b'\xff' * 40, 3)]}
TERMS = {'V': [('VA', 1), ('VB', 1), ('VC', ('VA', 1), b'm', ('VD',)), ('VD',)], 'W': [('WA', 1), ('WB', 1)]}


def nodes(name):
    """How many kinds of values of a family there are below"""
    return len(TERMS[name]) if name in TERMS else 3


def family_class(name):
    return fx_pm.FAMILIES[name] if name in fx_pm.FAMILIES else fx_gumap.FAMS[name].cls if name in fx_gumap.FAMS else fx_tree.FAMILIES[name].cls


def family_value(name, i):
    if name in TERMS:
        return fx_pm.build(TERMS[name][i])
    if name in fx_gumap.FAMS:
        fam = fx_gumap.FAMS[name]
        key, value = {'GMA': (1, 2), 'GMB': (b'\2' * 32, (1, b'')), 'GMC': ((1, b''), b'v'), 'GMD': (1, 2),
                      'GME': (bytes(36), bytes(10)), 'GMF': (bytes(32), bytes(32))}[name]
        u = ('unused', (1, 0), ('fake', b'\1' * 32))
        leaf = ('leaf', ('fake', fam.leaf_digest(key, value)), key, value)
        return fam.build([u, leaf, ('inner', (1,), ('fake', fam.inner_digest(u, leaf)), u, leaf)][i])
    return fx_tree.FAMILIES[name].build(ITEMS[name][:[0, 1, 3][i]])


def lookalike_enum():
    names = sorted(TERMS) + sorted(fx_tree.FAMILIES) + sorted(fx_gumap.FAMS)
    for a in names:
        for i in range(nodes(a)):
            for how in ('whole', 'pruned', 'gone', 'read'):
                yield (a, i, how, names)


def lookalike(case, T):
    """A value of one family is refused by every other one, however alike the classes of the two are"""
    a, i, how, names = case
    p = family_value(a, i)
    whole = p
    if how == 'pruned':
        p = p.prune()
    elif how == 'gone':
        p = family_class(a).deserialize(p.prune().serialize())
    elif how == 'read':
        p = family_class(a).deserialize(p.serialize())
    for b in names:
        cls = family_class(b)
        u = ProofUnion(fx_pm.Leaf, cls)
        both = ProofUnion(cls, family_class(a)) if a != b else ProofUnion(cls)
        if a == b:
            cls.check_instance(p)
            u.check_instance(p)
            eq(u.serialize(p), b'\x01' + p.serialize(), 'union')
            eq(both.serialize(p), b'\x00' + p.serialize(), 'union')
        else:
            raises(ps.SerializerTypeError, cls.check_instance, p, what='validation of a value of %s by %s' % (a, b))
            raises(ps.SerializerTypeError, u.check_instance, p, what='validation of a value of %s by a union with %s' % (a, b))
            raises(ps.SerializerTypeError, u.serialize, p, what='serialization of a value of %s by a union with %s' % (a, b))
            both.check_instance(p)
            eq(both.serialize(p), b'\x01' + p.serialize(), 'union of %s and %s' % (b, a))
            # as a component
            holder = type('Holder_%s' % b, (Proof,), {'HASHTAG': HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0022'), '__slots__': [],
                                                     'SERIALIZED_ATTRS': [('x', cls)]})
            raises(ps.SerializerTypeError, holder, what='a component of family %s given a value of %s' % (b, a), x=p)
    ok(p == whole, 'equality')
    for b in names:
        for j in range(nodes(b)):
            if (a, i) != (b, j):
                ok(family_value(b, j).hash != p.hash and not family_value(b, j) == p, 'values %r and %r are equal' % ((a, i), (b, j)))
    T.label(a, how)
    T.nt()


def namesakes(case, T):
    """Classes are told apart by what they are, not by their names"""
    n, order, fams = case
    schema = ref_pm.Schema()
    classes = []
    for i in range(n):
        u = '0b6f6a42-16a5-4b38-9b0b-5a9a8f3e01%02x' % i
        if fams >> i & 1:
            base = type('Same', (VarProof,), {'HASHTAG': HashTag(u), '__slots__': []})
            c = base.declare_variant(type('Same', (base,), {'SUB_HASHTAG': HashTag(u), '__slots__': ['n'], 'SERIALIZED_ATTRS': [('n', ps.UInt32)]}))
            schema.family('F%d' % i, ref_pm.tag(u), [('S%d' % i, ref_pm.tag(u), [('n', ('uint', 32))])])
            classes.append((base, c, ('family', 'F%d' % i)))
        else:
            c = type('Same', (Proof,), {'HASHTAG': HashTag(u), '__slots__': ['n'], 'SERIALIZED_ATTRS': [('n', ps.UInt32)]})
            schema.add('S%d' % i, ref_pm.tag(u), [('n', ('uint', 32))])
            classes.append((c, c, ('proof', 'S%d' % i)))
    order = [i % n for i in order] or [0]
    order = [i for k, i in enumerate(order) if i not in order[:k]]
    u = ProofUnion(*[classes[i][0] for i in order])
    for i in range(n):
        p = classes[i][1](n=1)
        for q in (p, p.prune(), classes[i][0].deserialize(p.prune().serialize())):
            if i in order:
                k = order.index(i)
                b = u.serialize(q)
                eq(b, ref_pm.leb128(k) + schema.wire(('S%d' % i, 1), True if q is p else None), 'wire of number %d' % k)
                r = u.deserialize(b)
                ok(type(r) is classes[i][1] and r == p, 'read number %d' % k)
            else:
                raises(ps.SerializerTypeError, u.check_instance, q, what='a class of the same name as one of a union')
                raises(ps.SerializerTypeError, u.serialize, q, what='a class of the same name as one of a union')
            for j in range(n):
                if i == j:
                    classes[j][0].check_instance(q)
                else:
                    raises(ps.SerializerTypeError, classes[j][0].check_instance, q, what='a class of the same name')
    for k in range(len(order), 12):
        raises(ps.DeserializationError, u.deserialize, ref_pm.leb128(k) + bytes(5), what='union number %d of %d' % (k, len(order)))
    T.label('%d of %d' % (len(order), n))
    T.nt(n > 1)


hows = lambda: st.sampled_from(['whole', 'pruned', 'used'])
picks = lambda: st.lists(st.integers(0, 40), max_size=3)

def many(case, T):
    """Families and unions of more alternatives than fit in one byte of the number"""
    n, picks = case
    schema = ref_pm.Schema()
    uuid = lambda k, i: '0b6f6a42-16a5-4b38-9b0b-%04x%08x' % (k, i)
    base = type('Big', (VarProof,), {'HASHTAG': HashTag(uuid(1, 0)), '__slots__': []})
    attrs = {'__slots__': ['n'], 'SERIALIZED_ATTRS': [('n', ps.UInt32)]}
    classes = [base.declare_variant(type('B%d' % i, (base,), dict(attrs, SUB_HASHTAG=HashTag(uuid(2, i))))) for i in range(n)]
    schema.family('F', ref_pm.tag(uuid(1, 0)), [('B%d' % i, ref_pm.tag(uuid(2, i)), [('n', ('uint', 32))]) for i in range(n)])
    singles = [type('P%d' % i, (Proof,), dict(attrs, HASHTAG=HashTag(uuid(3, i)))) for i in range(n)]
    for i in range(n):
        schema.add('P%d' % i, ref_pm.tag(uuid(3, i)), [('n', ('uint', 32))])
    u = ProofUnion(*singles)
    for i in sorted({p % n for p in picks} | {0, n - 1}):
        for p in (classes[i](n=i), classes[i](n=i).prune()):
            b = p.serialize()
            eq(b, schema.wire(('B%d' % i, i), None if p.is_pruned else True), 'wire of variant %d of %d' % (i, n))
            q = base.deserialize(b)
            ok(type(q) is classes[i] and q == p, 'variant %d of %d read back' % (i, n))
        for p in (singles[i](n=i), singles[i](n=i).prune()):
            b = u.serialize(p)
            eq(b, ref_pm.leb128(i) + schema.wire(('P%d' % i, i), None if p.is_pruned else True), 'wire of alternative %d of %d' % (i, n))
            q = u.deserialize(b)
            ok(type(q) is singles[i] and q == p, 'alternative %d of %d read back' % (i, n))
    for j in (n, n + 1, n + 127, n + 128, n + 256, n + 2**14, n + 2**32):
        raises(ps.DeserializationError, base.deserialize, b'\0' + ref_pm.leb128(j) + b'\0', what='variant number %d of %d' % (j, n))
        raises(ps.DeserializationError, u.deserialize, ref_pm.leb128(j) + b'\0\0', what='alternative number %d of %d' % (j, n))
    T.label('up to %d' % (n // 100 * 100 + 100))
    T.nt(n > 127)



SUBS = [
    Sub('union', union, gen=lambda: st.tuples(st.lists(st.sampled_from(ALTS), min_size=1, max_size=6, unique=True), fx_pm.any_term(True), picks(), hows()),
        quick=9000),
    Sub('union_first', union, gen=lambda: st.tuples(st.permutations(ALTS), fx_pm.any_term(True), picks(), hows()), quick=360, fork=True),
    Sub('family', family, gen=lambda: st.tuples(st.sampled_from('VW'), gen.mix(fx_pm.var_v(), fx_pm.var_w(), fx_pm.any_term(True)), picks(), hows()),
        quick=4500),
    Sub('lookalike', lookalike, enum=lookalike_enum),
    Sub('namesakes', namesakes, gen=lambda: st.tuples(st.integers(2, 6), st.lists(st.integers(0, 5), min_size=1, max_size=6), st.integers(0, 63)), quick=400,
        examples=[(2, [0, 1], 0), (2, [1, 0], 3), (3, [2, 0], 1)]),
    Sub('declare', declare, gen=lambda: st.tuples(st.lists(st.tuples(
        st.sampled_from(['0b6f6a42-16a5-4b38-9b0b-5a9a8f3e000%d' % i for i in range(3)]),
        st.lists(st.sampled_from(['0b6f6a42-16a5-4b38-9b0b-5a9a8f3f000%d' % i for i in range(5)]), min_size=1, max_size=5, unique=True)),
        min_size=1, max_size=3), gen.uints(2**32 - 1)), quick=1200),
    Sub('distinct', distinct, gen=lambda: st.tuples(gen.uints(2**16 - 1), fx_pm.leaf_fields()), quick=750),
    Sub('refuse', refuse, gen=lambda: st.tuples(gen.mix(fx_pm.var_v(), fx_pm.var_w()), gen.mix(fx_pm.any_term(True), fx_pm.var_w())), quick=1200),
    Sub('many', many, enum=lambda: iter([(n, [1, 2, 126, 127, 128, 129, 200, 255, 256, 257, n - 2, n // 2]) for n in (3, 127, 128, 129, 255, 256, 257, 300, 520)])),
]
