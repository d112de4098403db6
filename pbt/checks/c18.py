from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from .. import gen, ref_pm, fx_tree, fx_mbt, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """A pruned tree answers lookups (present, absent, near misses), puts and removals; what was used is serialized, read
back and asked again: the same questions must get the same answers, others the right answer or a pruned error, and puts
and removals the true commitment of the modified mapping. The nodes revealed are compared with the paths to the keys
asked for. Fake trees (arbitrary prefixes and children) are pruned in two ways and their answers compared. All mappings of small key worlds with every question are enumerated. Non-trivial:
three or more keys and a proof that reveals only a part, or a fake of which both prunings answer."""
ASSUMPTIONS = ['All keys of a tree have prefixes of one length', 'Refusals of a fake proof may be any exception; only contradictory answers count']

ABSENT = ('absent',)


def ask(fam, m, q):
    k = q[0]
    try:
        if k == 'get':
            return fam.unreal(m[fam.rk(q[1])])
        if k == 'put':
            return m.put(fam.rk(q[1]), fam.real(q[2])).hash
        if k == 'remove':
            return m.remove(fam.rk(q[1])).hash
    except KeyError:
        return ABSENT
    if k == 'len':
        return len(m)
    if k == 'keys':
        return [fam.uk(x) for x in m.keys()]
    raise KeyError(k)


def expect(fam, d, q):
    k = q[0]
    if k == 'get':
        return d.get(q[1], ABSENT)
    if k == 'put':
        return fam.schema.hash(fam.term({**d, q[1]: q[2]}.items()))
    if k == 'remove':
        if q[1] not in d:
            return ABSENT
        return fam.schema.hash(fam.term([(a, b) for a, b in d.items() if a != q[1]]))
    if k == 'len':
        return len(d)
    if k == 'keys':
        return fam.order(d)


def check(fam, m, q, want, what, may_prune):
    try:
        got = ask(fam, m, q)
    except PrunedError:
        ok(may_prune, '%s: %r raised a pruned error' % (what, q))
        return False
    eq(got, want, '%s: %r' % (what, q))
    return True


def resolve(fam, d, q):
    """('get', i) of the i-th key present -> ('get', key)"""
    if q[0] in ('hit', 'hitput', 'hitremove', 'hitsame'):
        if not d:
            return ('len',)
        key = fam.order(d)[q[1] % len(d)]
        return {'hit': ('get', key), 'hitput': ('put', key) + q[2:], 'hitremove': ('remove', key), 'hitsame': ('put', key, d[key])}[q[0]]
    return q


def path_nodes(fam, parsed_term, keybits):
    """Positions (tuples of 'left'/'right') of nodes on the path to a key in a full term"""
    pos = ()
    t = parsed_term
    out = {pos}
    while t[0].endswith('.Inner') and keybits[:len(t[1])] == t[1]:
        side = keybits[len(t[1])]
        pos = pos + (side,)
        t = t[3] if side else t[2]
        out.add(pos)
    return out


def revealed(v, pos=()):
    if v[0] == 'PRUNED':
        return set()
    out = {pos}
    if v[0].endswith('.Inner'):
        out |= revealed(v[2], pos + (0,)) | revealed(v[3], pos + (1,))
    return out


def use(fam, whole, d, questions):
    for q in questions:
        eq(ask(fam, whole, q), expect(fam, d, q), 'whole: %r' % (q,))
    fx_used.use(whole)
    for q in questions:
        eq(ask(fam, whole, q), expect(fam, d, q), 'whole: %r' % (q,))


def proofs(case, T):
    which, items, asked, others, between = case
    fam = fx_tree.FAMILIES[which]
    d = dict(items)
    asked = [resolve(fam, d, q) for q in asked]
    others = [resolve(fam, d, q) for q in others]
    whole = fam.build(items)
    term = fam.term(d.items())
    h = fam.schema.hash(term)
    if fx_used.sometimes(case):
        # the whole was used already, this cannot show in the proof
        use(fam, whole, d, asked + others)
        T.label('used before')
    p = whole.prune()
    for n, q in enumerate(asked):
        check(fam, p, q, expect(fam, d, q), 'pruned', False)
        if between:
            # every proof along the way answers what was asked so far
            r = fam.cls.deserialize(p.serialize())
            for q2 in asked[:n + 1]:
                check(fam, r, q2, expect(fam, d, q2), 'read back in between', False)
    wire = p.serialize()
    parsed = fam.schema.parse(('family', which), wire)
    eq(fam.schema.hash_read(parsed), h, 'commitment of the serialized proof')
    r = fam.cls.deserialize(wire)
    eq(r.hash, h, 'commitment read back')
    ok(r == whole, 'equality with the whole')
    for q in asked:
        check(fam, r, q, expect(fam, d, q), 'read back', False)
    for q in others + [('get', k) for k in list(d)[:4]]:
        check(fam, r, q, expect(fam, d, q), 'other question', True)
    eq(r.serialize(), wire, 're-serialization')
    shown = revealed(parsed)
    if all(q[0] == 'get' for q in asked):
        allowed = set()
        for q in asked:
            allowed |= path_nodes(fam, term, fam.bits(q[1]))
        ok(shown <= allowed, 'revealed %r, but only %r is on the path to the keys' % (sorted(shown - allowed), sorted(allowed)))
    elif all(q[0] in ('get', 'put', 'remove') for q in asked):
        allowed = set()
        for q in asked:
            path = path_nodes(fam, term, fam.bits(q[1]))
            allowed |= path | {x[:-1] + (1 - x[-1],) for x in path if x}
        ok(shown <= allowed, 'revealed %r, but only %r is next to the path to the keys' % (sorted(shown - allowed), sorted(allowed)))
    T.label(which, '%s keys' % (len(d) if len(d) < 4 else '4+'), *['%s %s' % (q[0], 'absent' if q[0] in ('get', 'remove') and q[1] not in d else '') for q in asked])
    T.nt(len(d) >= 3 and 0 < len(shown) < 2 * len(d) - 1)


def modify(case, T):
    """Chains of modifications, each on a proof made by doing it on the previous version"""
    which, items, rounds = case
    fam = fx_tree.FAMILIES[which]
    d = dict(items)
    m = fam.build(items)
    done = 0
    for q in rounds:
        q = resolve(fam, d, q)
        if q[0] not in ('put', 'remove'):
            continue
        want = expect(fam, d, q)
        p = m.prune()
        check(fam, p, q, want, 'pruned', False)
        r = fam.cls.deserialize(p.serialize())
        check(fam, r, q, want, 'read back', False)
        r2 = fam.cls.deserialize(r.serialize())
        check(fam, r2, q, want, 'read back twice', False)
        if q[0] == 'put':
            m = m.put(fam.rk(q[1]), fam.real(q[2]))
            d[q[1]] = q[2]
            # the proof's own new version answers for the new key
            for again in (r, r2, fam.cls.deserialize(r.serialize())):
                eq(fam.unreal(again.put(fam.rk(q[1]), fam.real(q[2]))[fam.rk(q[1])]), q[2], 'lookup in the new version')
        elif q[1] in d:
            m = m.remove(fam.rk(q[1]))
            del d[q[1]]
        eq(m.hash, fam.schema.hash(fam.term(d.items())), 'commitment of the new version')
        done += 1
    T.label(which)
    T.nt(done >= 1 and len(d) >= 3)


# Fakes

def fake_terms(which):
    fam = fx_tree.FAMILIES[which]
    key = {'MBTA': st.sampled_from([b'\x00', b'\x01', b'\x02', b'\x40', b'\x80', b'\xc0', b'\xff']),
           'MBTC': st.sampled_from([0, 1, 2, 3, 4, 1024, 2047]),
           'MBTP': st.sampled_from([b'\0\0', b'\0\1', b'\x80\0', b'\xff\xff'])}[which]
    value = st.integers(0, 2).map(lambda n: {'MBTA': n, 'MBTC': n, 'MBTP': ('Item', n, b'')}[which])
    leaf = st.tuples(st.just('%s.Leaf' % which), key, value)
    prefix = st.one_of(st.just(()), st.lists(st.integers(0, 1), max_size=3).map(tuple), st.tuples(key, st.integers(0, 16)).map(lambda t: fam.bits(t[0])[:t[1]]))
    s = st.one_of(leaf, leaf, leaf, st.just(('%s.Empty' % which,)))
    for _ in range(3):
        s = st.one_of(s, st.tuples(st.just('%s.Inner' % which), prefix, s, s))
    return st.tuples(st.just('%s.Inner' % which), prefix, s, s), key


def fake(case, T):
    which, term, cut1, cut2, ask1, ask2, keys = case
    fam = fx_tree.FAMILIES[which]
    proofs = []
    h = fam.schema.hash(term)
    whole = fam.cls.deserialize(fam.schema.wire(term))
    eq(whole.hash, h, 'commitment')
    proofs.append(whole)
    for cut, asked in ((cut1, ask1), (cut2, ask2)):
        d = fam.cls.deserialize(fam.schema.wire(term, fx_tree.cut(fam.schema, term, cut)))
        eq(d.hash, h, 'commitment')
        proofs.append(d)
        p = whole.prune()
        for k in asked:
            outcome(ask, fam, p, ('get', k))
        d = fam.cls.deserialize(p.serialize())
        eq(d.hash, h, 'commitment')
        proofs.append(d)
    answers = {}
    n = 0
    for d in proofs:
        for k in keys + ask1 + ask2:
            r = outcome(ask, fam, d, ('get', k))
            if r[0] == 'ok':
                n += 1
                if k in answers:
                    ok(answers[k] == r[1], 'key %r is both %r and %r' % (k, answers[k], r[1]))
                answers[k] = r[1]
    T.label(which)
    T.nt(n > 2)


def questions(fam):
    i = st.integers(0, 30)
    return st.one_of(st.tuples(st.just('hit'), i), st.tuples(st.just('get'), fam.key()), st.tuples(st.just('hit'), i), st.tuples(st.just('get'), fam.key()),
                     st.tuples(st.just('put'), fam.key(), fam.value()), st.tuples(st.just('hitput'), i, fam.value()),
                     st.tuples(st.just('hitremove'), i), st.tuples(st.just('hitsame'), i), st.tuples(st.just('remove'), fam.key()))


def proofs_gen():
    def g(w):
        fam = fx_tree.FAMILIES[w]
        i = st.integers(0, 30)
        gets = st.lists(st.one_of(st.tuples(st.just('hit'), i), st.tuples(st.just('get'), fam.key())), min_size=1, max_size=3)
        return st.tuples(st.just(w), fam.items(14), st.one_of(gets, st.lists(st.one_of(questions(fam), questions(fam), st.just(('len',))), max_size=3)),
                         st.lists(st.one_of(questions(fam), st.sampled_from([('len',), ('keys',)])), max_size=4), st.booleans())
    return gen.mix(*[g(w) for w in fx_tree.MBTS])


def modify_gen():
    return gen.mix(*[st.tuples(st.just(w), fx_tree.FAMILIES[w].items(12), st.lists(questions(fx_tree.FAMILIES[w]), min_size=1, max_size=5)) for w in fx_tree.MBTS])


def fake_gen():
    cut = st.lists(st.integers(0, 4), max_size=12)
    def g(w):
        terms, key = fake_terms(w)
        ks = st.lists(key, max_size=3)
        return st.tuples(st.just(w), terms, cut, cut, ks, ks, st.lists(key, min_size=1, max_size=5))
    return gen.mix(*[g(w) for w in ('MBTA', 'MBTC', 'MBTP')])


def every(case, T):
    """Every one or two questions to every mapping over a few keys, then every other one"""
    which, keys, items = case
    qs = [(k, key) + ((fx_mbt.small_value(which, 3),) if k == 'put' else ()) for key in keys for k in ('get', 'put', 'remove')]
    for a in qs + [('len',)]:
        proofs((which, items, [a], qs, False), T)
        for b in qs:
            if a != b and (a[0] == b[0] == 'get' or len(keys) < 5 and which in ('MBTA', 'MBTC')):
                proofs((which, items, [a, b], qs[::3], False), T)


SUBS = [
    Sub('every', every, enum=fx_mbt.worlds),
    Sub('proofs', proofs, gen=proofs_gen, quick=10500, heavy=True),
    Sub('modify', modify, gen=modify_gen, quick=4500),
    Sub('fake', fake, gen=fake_gen, quick=9000),
]
