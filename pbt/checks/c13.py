from hypothesis import strategies as st
from .. import gen, ref_pm, fx_tree, fx_mmr
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """Mountain ranges built by arbitrary histories (see C12) are compared, hash and serialization, with the documented
recursive construction over the same list, and pairs of related lists (one item changed, swapped, dropped, duplicated,
extended, split elsewhere) must have different commitments. Every length from 0 to 130 (thorough: 600) is covered,
and ranges of up to 2**62 repeating items.
Non-trivial: three or more items."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases']


def commit(case, T):
    which, chunks, ops = case
    fam = fx_tree.FAMILIES[which]
    l = fx_mmr.model(which, chunks, ops)
    m = fx_mmr.run(which, chunks, ops)
    want = fam.term(l)
    eq(m.hash, fam.schema.hash(want), 'commitment of %d items' % len(l))
    f = fam.build(l)
    ok(f == m and hash(f) == hash(m), 'equality with the range built afresh')
    eq(f.serialize(), fam.schema.wire(want), 'serialization')
    T.label('len %s' % ('0-2' if len(l) < 3 else '<10' if len(l) < 10 else '<50' if len(l) < 50 else '50+'), *[o[0] for o in ops])
    T.nt(len(l) >= 3)


def lengths(case, T):
    which, lo, hi, dup = case
    fam = fx_tree.FAMILIES[which]
    seen = {}
    for n in range(lo, hi):
        l = [fx_mmr.val(which, 3 if dup else i) for i in range(n)]
        m = fam.build(l)
        eq(m.hash, fam.schema.hash(fam.term(l)), 'commitment of %d items' % n)
        eq(m.serialize(), fam.schema.wire(fam.term(l)), 'serialization of %d items' % n)
        ok(m.hash not in seen, 'lengths %r and %r share a commitment' % (seen.get(m.hash), n))
        seen[m.hash] = n
    T.nt()


def different(case, T):
    which, chunks, how, i, j, v = case
    fam = fx_tree.FAMILIES[which]
    a = fx_mmr.expand(which, chunks)
    b = list(a)
    v = fx_mmr.val(which, v)
    n = len(a)
    if how == 'set' and n:
        b[i % n] = v
    elif how == 'swap' and n:
        b[i % n], b[j % n] = b[j % n], b[i % n]
    elif how == 'del' and n:
        del b[i % n]
    elif how == 'ins':
        b.insert(i % (n + 1), v)
    elif how == 'dup':
        b = b + b
    elif how == 'duplast' and n:
        b = b + b[-1:]
    elif how == 'rev':
        b.reverse()
    elif how == 'rot' and n:
        b = b[i % n:] + b[:i % n]
    x, y = fam.build(a), fam.build(b)
    eq(x == y, a == b, 'equality')
    eq(x.hash == y.hash, a == b, 'commitments equal')
    eq(x.serialize() == y.serialize(), a == b, 'serializations equal')
    T.label(how, 'same' if a == b else 'different')
    T.nt(a != b and n >= 3)


def huge(case, T):
    """Ranges of up to 2**62 items"""
    which, mountains, positions = case
    x = fx_mmr.Huge(which, mountains)
    eq(x.real.hash, x.hash_with(), 'commitment of %d items' % x.len)
    m = x.real
    l = []
    for k, d in positions:
        v = fx_mmr.val(which, d % 7)
        l.append(v)
        m = m.append(x.fam.real(v))
        eq(m.hash, x.hash_with(l), 'commitment of %d items and %d more' % (x.len, len(l)))
    eq(x.real.extend([x.fam.real(v) for v in l]).hash, x.hash_with(l), 'commitment of the extended list')
    ok(fx_mmr.Huge(which, mountains).real == x.real, 'equality with the same list')
    T.label('2**%d' % (x.len.bit_length() // 8 * 8))
    T.nt(x.len > 1000)


SUBS = [
    Sub('commit', commit, gen=fx_mmr.cases, quick=7500, heavy=True),
    Sub('lengths', lengths, enum=lambda: iter([('MMRA', k, k + 10, d) for d in (False, True) for k in range(0, 130, 10)] +
                                              [('MMRA', 250, 260, False), ('MMRA', 510, 516, False), ('MMRB', 0, 70, False), ('MMRP', 0, 70, False)])),
    Sub('morelengths', lengths, gen=lambda: st.tuples(st.sampled_from(fx_tree.MMRS), st.integers(130, 600), st.just(0), st.booleans()).map(
        lambda t: (t[0], t[1], t[1] + 2, t[3])), quick=72, thorough=900),
    Sub('different', different, gen=lambda: st.tuples(st.sampled_from(fx_tree.MMRS), fx_mmr.lists(),
        st.sampled_from(['set', 'swap', 'del', 'ins', 'dup', 'duplast', 'rev', 'rot']), st.integers(0, 400), st.integers(0, 400), st.integers(0, 4)), quick=7500),
    Sub('huge', huge, gen=fx_mmr.huge, enum=lambda: iter(fx_mmr.HUGE), quick=900),
]
