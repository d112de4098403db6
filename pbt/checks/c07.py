from hypothesis import strategies as st
from proofmarshal.serialize import HashTag
from .. import gen, ref_pm, fx_pm, fx_tree, fx_decl
from ..core import Sub, eq, ok, raises, fail, shallow
S = fx_pm.S

RULE = """Nested proofs (plain fields of every kind, proof, variant and union fields, inherited classes) are built, and
their hash compared with an independent implementation of the documented commitment, however the proof was obtained
(built, pruned, used in various orders, deserialized, deserialized pruned, built from pruned parts). Pairs of proofs are
equal, almost equal (one field changed, another type with the same fields, swapped fields) or unrelated. Classes are also declared on the fly, in
hierarchies, with fields of every kind (values with hashes of their own among them), and used in any order. Non-trivial: a
proof with nested proofs, or a pair of different proofs with the same fields or all but one."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases']


def check_hash(p, term, what):
    eq(bytes(p.hash), S.hash(term), what + ': hash')
    eq(bytes(p.data_hash), S.data_hash(term), what + ': data_hash')
    eq(bytes(p.get_hash()), S.hash(term), what + ': get_hash()')
    eq(bytes(p.hash), S.hash(term), what + ': hash again')


def use(p, term, picks):
    ps = fx_pm.paths(term)
    for i in picks:
        if ps:
            fx_pm.walk(p, ps[i % len(ps)])


def single(case, T):
    term, picks, order = case
    cls = fx_pm.CLASSES[term[0]]
    top = fx_pm.top_class(term[0])
    versions = [('built', fx_pm.build(term))]
    p = fx_pm.build(term)
    b = p.serialize()
    eq(b, S.wire(term), 'wire format')
    versions.append(('serialized first', p))
    versions.append(('deserialized', top.deserialize(b)))
    q = fx_pm.build(term).prune()
    versions.append(('pruned', q))
    q = fx_pm.build(term).prune()
    use(q, term, picks)
    if order:
        check_hash(q, term, 'used before serializing')
    w = q.serialize()
    versions.append(('used', q))
    versions.append(('deserialized pruned', top.deserialize(w)))
    versions.append(('deserialized pruned, pruned', top.deserialize(w).prune()))
    versions.append(('pruned twice', fx_pm.build(term).prune().prune()))
    q = fx_pm.build(term).prune()
    use(q, term, picks)
    parts = {f: getattr(q, f) for f, k in fx_pm.fields(term[0])}
    versions.append(('rebuilt from pruned parts', cls(**parts)))
    r = top.deserialize(b)
    versions.append(('rebuilt from deserialized parts', cls(**{f: getattr(r, f) for f, k in fx_pm.fields(term[0])})))
    if order:
        versions.reverse()
    for what, v in versions:
        ok(type(v) is cls, what + ': class')
        check_hash(v, term, what)
    d = {}
    for what, v in versions:
        ok(v == versions[0][1] and not (v != versions[0][1]), what + ': equality')
        eq(hash(v), hash(versions[0][1]), what + ': hash()')
        d[v] = what
    eq(len(d), 1, 'dictionary keys')
    ok(versions[0][1] != b and not (versions[0][1] == term), 'comparison with a non-proof')
    # nested proofs too
    for path in fx_pm.paths(term):
        k, v = fx_pm.at(term, path)
        if fx_pm.is_proof_kind(k):
            check_hash(fx_pm.walk(versions[0][1], path), v, 'nested %s' % '.'.join(path))
            T.nt()
    T.label(term[0])


def variants(t):
    """An almost equal proof"""
    term, how, i, other = t
    if how == 'same':
        return term
    if how == 'twin':
        swap = {'Leaf': 'Twin', 'Twin': 'Leaf', 'VA': 'VB', 'VB': 'WB', 'WA': 'VA', 'WB': 'WA'}
        return (swap.get(term[0], term[0]),) + term[1:]
    if how == 'other':
        return other
    if how == 'swap' and term[0] in ('Pair', 'VC', 'Sub'):
        return (term[0], term[3], term[2], term[1]) + term[4:]
    fl = fx_pm.fields(term[0])
    if how == 'field' and fl:
        j = i % len(fl)
        k, v = fl[j][1], term[1 + j]
        return term[:1 + j] + (tweak(k, v, i),) + term[2 + j:]
    return term


def tweak(k, v, i):
    if k[0] == 'uint':
        return (v + 1 + i) % 2**k[1]
    if k[0] == 'bool':
        return not v
    if k[0] == 'fixed':
        return v[:i % len(v)] + bytes([v[i % len(v)] ^ (1 << i % 8)]) + v[i % len(v) + 1:]
    if k[0] == 'var':
        return (v + b'\0') if len(v) < k[2] and (i % 2 or not v) else v[:-1] + bytes([v[-1] ^ 1])
    if k[0] == 'bits':
        return v + (0,) if i % 2 or not v else v[:-1] + (1 - v[-1],)
    return variants((v, 'field', i // 3, None)) if len(v) > 1 else v


def pairs(case, T):
    ta, tb = case
    a, b = fx_pm.build(ta), fx_pm.build(tb)
    same = ta == tb
    for x, y in ((a, b), (a.prune(), b), (a, b.prune()), (a.prune(), b.prune())):
        eq(x == y, same, 'equality')
        eq(x != y, not same, 'inequality')
        eq(len({x, y}), 1 if same else 2, 'as set members')
    eq(a.hash == b.hash, same, 'equal hashes')
    if same:
        eq(hash(a), hash(b), 'hash()')
    if not same and (len(ta) == len(tb) and sum(x != y for x, y in zip(ta, tb)) == 1):
        T.nt()
        T.label('one difference')
    T.label('same' if same else 'different')


def pairs_gen():
    t = gen.mix(fx_pm.any_term(True), fx_pm.any_term())
    return st.tuples(t, st.sampled_from(['same', 'twin', 'other', 'swap', 'field', 'field', 'field']), st.integers(0, 100), fx_pm.any_term(True)).map(
        lambda x: (x[0], variants(x)))


def tags(case, T):
    u, subs = case
    t = HashTag(u)
    eq(bytes(t), ref_pm.tag(u), 'tag bytes')
    eq(str(t), u, 'str(tag)')
    want = ref_pm.tag(u)
    for s in subs:
        x = t.derive(s)
        ok(isinstance(x, HashTag), 'derived tag class')
        want = ref_pm.derive(want, s)
        eq(bytes(x), want, 'derived tag')
        eq(t.derive(s), x, 'derivation repeated')
        t = x
    for m in subs:
        eq(t(m).digest(), ref_pm.sha(want + m), 'tagged hash')
    eq(t().digest(), ref_pm.sha(want), 'tagged hash of nothing')
    # hashers given more in pieces, two at a time
    for first in [b''] + subs:
        x, y = (t(first), t(first)) if first else (t(), t())
        said = first
        for m in subs:
            x.update(m)
            said += m
            eq(x.digest(), ref_pm.sha(want + said), 'tagged hash in pieces')
            eq(y.digest(), ref_pm.sha(want + first), 'another hasher of the same tag')
        eq(t(first).digest(), ref_pm.sha(want + first), 'tagged hash afterwards')
    eq(t().digest(), ref_pm.sha(want), 'tagged hash of nothing afterwards')
    T.nt(len(subs) > 0)


def uuids():
    return st.binary(min_size=16, max_size=16).map(lambda b: '-'.join([b.hex()[:8], b.hex()[8:12], b.hex()[12:16], b.hex()[16:20], b.hex()[20:]]))


def trees(case, T):
    """Commitments of ranges and trees as proofs: built, deserialized, pruned"""
    which, items, cut = case
    fam = fx_tree.FAMILIES[which]
    term = fam.term(items)
    p = fam.build(items)
    h = fam.schema.hash(term)
    eq(p.hash, h, 'hash')
    eq(p.data_hash, fam.schema.data_hash(term), 'data_hash')
    eq(p.prune().hash, h, 'pruned hash')
    for used in (True, fx_tree.cut(fam.schema, term, cut), None):
        d = fam.cls.deserialize(fam.schema.wire(term, used))
        eq(d.hash, h, 'deserialized hash')
        ok(d == p and type(d) is type(p), 'deserialized equality')
    T.label(which)
    T.nt(len(items) > 1)


def chains(case, T):
    """Long chains of proofs, whose hash is only asked for at the end"""
    n, side, first, parts, how = case

    def go():
        p = fx_pm.VA(value=first)
        h = S.hash(('VA', first))
        tag = S.types['VC'][0]
        leaf = S.hash(('VD',))
        hs = [h]
        for i in range(n):
            m = b'%d' % (i % 100)
            down = (i >> side) & 1
            p = fx_pm.VC(x=p, y=fx_pm.VD(), m=m) if down else fx_pm.VC(x=fx_pm.VD(), y=p, m=m)
            l, r = (h, leaf) if down else (leaf, h)
            h = ref_pm.sha(tag + ref_pm.sha(l + ref_pm.leb128(len(m)) + m + r))
            hs.append(h)
            if parts and i % parts == 0:
                p = p.prune()
            if how & 1 and i % 40 == 7:
                p.hash
        if how & 2:
            q = p.prune()
            eq(q.hash, h, 'hash of the end of a chain of %d, pruned' % n)
        if how & 4:
            ok(p == p.prune(), 'equal to itself pruned')
        eq(p.hash, h, 'hash of the end of a chain of %d' % n)
        eq(p.data_hash, p.prune().data_hash, 'data_hash')
        i, q = n, p.prune()
        while i > max(0, n - 50):
            q = q.x if (i - 1 >> side) & 1 else q.y
            i -= 1
            eq(q.hash, hs[i], 'hash of a link')
        # shared parts: each link has the previous one twice
        q, g = fx_pm.VB(value=first), S.hash(('VB', first))
        for i in range(n % 400):
            q = fx_pm.VC(x=q, y=q, m=b'-')
            g = ref_pm.sha(tag + ref_pm.sha(g + b'\1-' + g))
        eq(q.hash, g, 'hash of %d shared links' % (n % 400))
    shallow(go)
    T.label('<200' if n < 200 else '<1000' if n < 1000 else '1000+')
    T.nt(n > 2)


SUBS = [
    Sub('chains', chains, gen=lambda: st.tuples(st.one_of(st.integers(0, 50), st.integers(150, 700), st.integers(0, 3000)), st.integers(0, 3), st.integers(0, 9),
        st.sampled_from([0, 0, 1, 2, 3, 50]), st.integers(0, 7)), quick=450, examples=[(3000, 0, 1, 0, 0), (1500, 1, 2, 3, 6)]),
    Sub('single', single, gen=lambda: st.tuples(gen.mix(fx_pm.any_term(), fx_pm.structured_term()), st.lists(st.integers(0, 50), max_size=4), st.booleans()),
        quick=4800),
    Sub('firstuse', single, gen=lambda: st.tuples(fx_pm.any_term(True), st.lists(st.integers(0, 50), max_size=2), st.booleans()), quick=480, fork=True),
    Sub('pairs', pairs, gen=pairs_gen, quick=9000),
    Sub('declared', fx_decl.history, gen=fx_decl.histories, quick=1500),
    Sub('tags', tags, gen=lambda: st.tuples(uuids(), st.lists(st.binary(max_size=70), max_size=4)), quick=2400,
        examples=[('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0001', [b'', b'a', b'bc'])]),
    Sub('trees', trees, gen=lambda: gen.mix(*[st.tuples(st.just(w), fx_tree.FAMILIES[w].items(16), st.lists(st.integers(0, 3), max_size=8))
                                              for w in sorted(fx_tree.FAMILIES)]), quick=3600),
]
