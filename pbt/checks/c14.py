from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from .. import gen, ref_pm, fx_tree, fx_mmr, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """A pruned mountain range is queried (items, lengths, slices, iteration prefixes, appends), serialized, read back and
queried again: the same queries must give the same answers, other queries the right answer or a pruned error; appends
to it the true commitment or a pruned error. The number of nodes revealed by one item is counted, also
in ranges of up to 2**62 repeating items. Fake commitments
(inner nodes with arbitrary lengths and children) are pruned in two ways and all their answers compared. Every small range under every small question is enumerated. Non-trivial:
a range of four or more items partly revealed, or a fake whose two prunings both answer something."""
ASSUMPTIONS = ['Refusals of a fake proof may be any exception; only contradictory answers count']


def ask(fam, m, q):
    """An answer as plain data"""
    k = q[0]
    if k == 'item':
        return fam.unreal(m[q[1]])
    if k == 'len':
        return len(m)
    if k == 'slice':
        return [fam.unreal(v) for v in m[q[1]:q[2]]]
    if k == 'slicelen':
        return len(m[q[1]:q[2]])
    if k == 'first':
        out = []
        for v in m:
            if len(out) >= q[1]:
                break
            out.append(fam.unreal(v))
        return out
    if k == 'last':
        out = []
        for v in reversed(m):
            if len(out) >= q[1]:
                break
            out.append(fam.unreal(v))
        return out
    if k == 'append':
        for v in q[1]:
            m = m.append(fam.real(fx_mmr.val(fam.name, v)))
        return m.hash
    if k == 'perfect':
        return m.is_perfect_tree()
    raise KeyError(k)


def expect(fam, l, q):
    k = q[0]
    if k == 'item':
        return l[q[1]] if -len(l) <= q[1] < len(l) else IndexError
    if k == 'len':
        return len(l)
    if k == 'slice':
        return l[q[1]:q[2]]
    if k == 'slicelen':
        return len(l[q[1]:q[2]])
    if k == 'first':
        return l[:q[1]]
    if k == 'last':
        return l[::-1][:q[1]]
    if k == 'append':
        return fam.schema.hash(fam.term(l + [fx_mmr.val(fam.name, v) for v in q[1]]))
    if k == 'perfect':
        return bool(l) and len(l) & (len(l) - 1) == 0
    raise KeyError(k)


def check_answer(fam, m, q, want, what, may_prune):
    try:
        got = ask(fam, m, q)
    except PrunedError:
        ok(may_prune, '%s: %r raised a pruned error' % (what, q))
        return False
    except IndexError:
        ok(want is IndexError, '%s: %r raised an index error' % (what, q))
        return True
    ok(want is not IndexError, '%s: %r did not raise an index error' % (what, q))
    eq(got, want, '%s: %r' % (what, q))
    return True


def count(schema, v):
    if v[0] == 'PRUNED':
        return 0
    return 1 + sum(count(schema, x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) and (x[0] in schema.types or x[0] == 'PRUNED'))


def proofs(case, T):
    which, chunks, asked, others, between = case
    fam = fx_tree.FAMILIES[which]
    l = fx_mmr.expand(which, chunks)
    n = len(l)
    whole = fam.build(l)
    if fx_used.sometimes(case):
        # the whole was used already, this cannot show in the proof
        fx_used.use(whole)
        for q in asked:
            check_answer(fam, whole, q, expect(fam, l, q), 'whole', False)
        T.label('used before')
    p = whole.prune()
    for q in asked:
        check_answer(fam, p, q, expect(fam, l, q), 'pruned', False)
        if between:
            # every proof along the way answers what was asked so far
            d = fam.cls.deserialize(p.serialize())
            for q2 in asked[:asked.index(q) + 1]:
                check_answer(fam, d, q2, expect(fam, l, q2), 'read back in between', False)
    wire = p.serialize()
    h = fam.schema.hash(fam.term(l))
    parsed = fam.schema.parse(('family', which), wire)
    eq(fam.schema.hash_read(parsed), h, 'commitment of the serialized proof')
    d = fam.cls.deserialize(wire)
    eq(d.hash, h, 'commitment read back')
    for q in asked:
        check_answer(fam, d, q, expect(fam, l, q), 'read back', False)
    answered = 0
    for q in others + [('len',), ('item', 0), ('item', -1), ('item', n // 2), ('item', n), ('append', [1])]:
        answered += check_answer(fam, d, q, expect(fam, l, q), 'other query', True)
    eq(d.serialize(), wire, 're-serialization')
    ok(fam.build(l) == d, 'equality with the whole')
    nodes = count(fam.schema, parsed)
    T.label('n %s' % ('<4' if n < 4 else '<20' if n < 20 else '20+'), *['asked ' + q[0] for q in asked])
    T.nt(n >= 4 and 0 < nodes < 2 * n - 1)


def logarithmic(case, T):
    """A single item, or the length, reveals few nodes; one append needs few"""
    which, n, i = case
    fam = fx_tree.FAMILIES[which]
    l = [fx_mmr.val(which, k % 200) for k in range(n)]
    whole = fam.build(l)
    limit = 6 * n.bit_length() + 8
    for q in (('item', i % n), ('item', -1 - i % n), ('append', [1]), ('slicelen', 0, n), ('slicelen', None, None), ('slicelen', -n, None)):
        p = whole.prune()
        eq(ask(fam, p, q), expect(fam, l, q), repr(q))
        wire = p.serialize()
        nodes = count(fam.schema, fam.schema.parse(('family', which), wire))
        ok(nodes <= limit, '%r of %d items revealed %d nodes' % (q, n, nodes))
        d = fam.cls.deserialize(wire)
        eq(ask(fam, d, q), expect(fam, l, q), '%r read back' % (q,))
    p = whole.prune()
    eq(len(p), n, 'length')
    nodes = count(fam.schema, fam.schema.parse(('family', which), p.serialize()))
    ok(nodes <= limit, 'the length of %d items revealed %d nodes' % (n, nodes))
    T.nt(n > 8)


def growing(case, T):
    """Appends and transports in turn"""
    which, chunks, rounds = case
    fam = fx_tree.FAMILIES[which]
    l = fx_mmr.expand(which, chunks)
    m = fam.build(l)
    for vs, q in rounds:
        # what the appends will need
        p = m.prune()
        full = True
        try:
            ask(fam, p, ('append', vs))
            ask(fam, p, q)
        except PrunedError:
            full = False
        except IndexError:
            pass
        d = fam.cls.deserialize(p.serialize())
        try:
            for v in vs:
                d = d.append(fam.real(fx_mmr.val(which, v)))
                l = l + [fx_mmr.val(which, v)]
        except PrunedError:
            ok(not full, 'an append that worked before transport raised a pruned error')
            break
        h = fam.schema.hash(fam.term(l))
        eq(d.hash, h, 'commitment of the extended list of %d' % len(l))
        m = d
        T.nt(len(l) >= 4)
    T.label('rounds %d' % len(rounds))


# Fake commitments

def fake_terms(which):
    leaf = st.integers(0, 5).map(lambda k: ('%s.Leaf' % which, fx_tree.FAMILIES[which].model(fx_mmr.val(which, k))))
    s = st.one_of(leaf, leaf, st.just(('%s.Empty' % which,)))
    length = st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 2**64 - 1))
    for _ in range(4):
        s = st.one_of(s, st.tuples(st.just('%s.Inner' % which), s, s, length))
    return st.tuples(st.just('%s.Inner' % which), s, s, length)


def fake(case, T):
    which, term, cut1, cut2, ask1, ask2 = case
    fam = fx_tree.FAMILIES[which]
    ds = []
    for cut, asked in ((cut1, ask1), (cut2, ask2)):
        d = fam.cls.deserialize(fam.schema.wire(term, fx_tree.cut(fam.schema, term, cut)))
        eq(d.hash, fam.schema.hash(term), 'commitment')
        if asked:
            # also a proof made by pruning: ask, then transport
            q = d.prune()
            for i in asked:
                outcome(ask, fam, q, ('item', i))
            d2 = fam.cls.deserialize(q.serialize())
            eq(d2.hash, fam.schema.hash(term), 'commitment')
            ds.append(d2)
        ds.append(d)
    items = {}
    lengths = set()
    answered = 0
    for d in ds:
        r = outcome(len, d)
        got_len = None
        if r[0] == 'ok':
            lengths.add(r[1])
            got_len = r[1]
        for i in range(-12, 12):
            r = outcome(ask, fam, d, ('item', i))
            if r[0] != 'ok':
                continue
            answered += 1
            pos = i
            if i < 0:
                if got_len is None:
                    continue
                pos = i + got_len
                ok(pos >= 0, 'item %d of a list of length %d' % (i, got_len))
            if pos in items:
                ok(items[pos] == r[1], 'position %d is both %r and %r' % (pos, items[pos], r[1]))
            items[pos] = r[1]
    ok(len(lengths) <= 1, 'lengths %r' % (lengths,))
    for n in lengths:
        for pos in items:
            ok(pos < n, 'item at %d of a list of length %d' % (pos, n))
    T.label('answers' if answered else 'no answer')
    T.nt(answered >= 2)


def queries():
    i = st.one_of(st.integers(-6, 6), st.integers(-130, 130))
    return st.one_of(st.tuples(st.just('item'), i), st.tuples(st.just('item'), i), st.tuples(st.just('item'), i), st.just(('len',)),
                     st.tuples(st.just('slice'), i, i), st.tuples(st.just('slicelen'), i, i),
                     st.tuples(st.sampled_from(['first', 'last']), st.integers(0, 4)),
                     st.tuples(st.just('append'), st.lists(st.integers(0, 5), min_size=1, max_size=3)), st.just(('perfect',)))


def proofs_gen():
    return st.tuples(st.sampled_from(fx_tree.MMRS), fx_mmr.lists(), st.lists(queries(), max_size=4), st.lists(queries(), max_size=5), st.booleans())


def growing_gen():
    return st.tuples(st.sampled_from(fx_tree.MMRS), fx_mmr.lists(), st.lists(st.tuples(st.lists(st.integers(0, 5), min_size=1, max_size=4), queries()), max_size=4))


def fake_gen():
    cut = st.lists(st.integers(0, 4), max_size=16)
    return gen.mix(*[st.tuples(st.just(w), fake_terms(w), cut, cut, st.lists(st.integers(-6, 9), max_size=3), st.lists(st.integers(-6, 9), max_size=3))
                     for w in fx_tree.MMRS])


def every_enum():
    for which in fx_tree.MMRS:
        for n in range(0, 18 if which == 'MMRA' else 9):
            for first in range(-n - 1, n + 2):
                yield which, n, first


def every(case, T):
    """Every question, and every two, to ranges of every short length"""
    which, n, first = case
    chunks = [(0, n, 1)] if n % 2 else [(7, n, 3)]
    others = [('item', i) for i in range(-n - 1, n + 1)] + [('append', [k]) for k in range(3)] + [('append', [1, 2, 3])]
    if first == n + 1:
        for q in [('len',), ('perfect',), ('append', [4]), ('append', [4, 5]), ('append', [4, 5, 6, 7]), ('first', 1), ('last', 1), ('first', n), ('last', n)]:
            proofs((which, chunks, [q], others, False), T)
        return
    proofs((which, chunks, [('item', first)], others, False), T)
    for second in range(-n - 1, n + 1):
        if n <= 9:
            proofs((which, chunks, [('item', first), ('item', second)], others[:2 * n], False), T)
        if n <= 9 or abs(second - first) in (1, 2, 7, 8, 9):
            proofs((which, chunks, [('slice', first, second)], others[:2 * n], False), T)


def huge(case, T):
    """Proofs about ranges of up to 2**62 items"""
    which, mountains, positions = case
    x = fx_mmr.Huge(which, mountains)
    fam, n, h = x.fam, x.len, x.hash_with()
    limit = 6 * n.bit_length() + 8
    everything = fam.cls.deserialize(x.real.prune().serialize())
    eq(everything.hash, h, 'commitment of a fully pruned range')
    for k, d in positions:
        i = x.position(k, d)
        for j in (i, i - n):
            p = x.real.prune()
            eq(fam.unreal(p[j]), x[i], 'item %d of %d, pruned' % (j, n))
            wire = p.serialize()
            parsed = fam.schema.parse(('family', which), wire)
            eq(fam.schema.hash_read(parsed), h, 'commitment of the serialized proof')
            nodes = count(fam.schema, parsed)
            ok(nodes <= limit, 'item %d of %d revealed %d nodes' % (j, n, nodes))
            q = fam.cls.deserialize(wire)
            eq(q.hash, h, 'commitment read back')
            eq(fam.unreal(q[j]), x[i], 'item %d of %d, read back' % (j, n))
            check_answer(fam, q, ('len',), n, 'read back', False)
            eq(q.serialize(), wire, 're-serialization')
            r = outcome(lambda: fam.unreal(q[(i + n // 3) % n]))
            ok(r == ('ok', x[(i + n // 3) % n]) or isinstance(r[1], PrunedError), 'another item: %r' % (r,))
    p = x.real.prune()
    l = [fx_mmr.val(which, v) for v in range(3)]
    eq(p.extend([fam.real(v) for v in l]).hash, x.hash_with(l), 'commitment after appending to a pruned range')
    q = fam.cls.deserialize(p.serialize())
    eq(q.extend([fam.real(v) for v in l]).hash, x.hash_with(l), 'commitment after appending to what was read back')
    T.label('2**%d' % (n.bit_length() // 8 * 8))
    T.nt(n > 1000)


SUBS = [
    Sub('every', every, enum=every_enum),
    Sub('proofs', proofs, gen=proofs_gen, quick=9000, heavy=True),
    Sub('logarithmic', logarithmic, gen=lambda: st.tuples(st.sampled_from(fx_tree.MMRS), st.sampled_from([1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 127, 128, 129, 255]), st.integers(0, 300)),
        quick=900, enum=lambda: iter([('MMRA', 1023, 0), ('MMRA', 1024, 1023), ('MMRA', 1000, 500), ('MMRA', 1025, 1024), ('MMRA', 1023, 1022)])),
    Sub('growing', growing, gen=growing_gen, quick=3600),
    Sub('fake', fake, gen=fake_gen, quick=7500),
    Sub('huge', huge, gen=fx_mmr.huge, enum=lambda: iter(fx_mmr.HUGE), quick=600),
]
