import functools
from hypothesis import strategies as st
from .. import gen, ref_pm, fx_bits as fb
from ..core import Sub, eq, ok, raises, fail

RULE = """Pairs, triples and lists of bit strings, unrelated or related (equal, one a prefix of the other, differing in
the last bits, with garbage in unused bits), compared with tuple ordering. Non-trivial: two different bit strings with
a non-empty common prefix, or equal ones produced differently; and every pair of short bit strings exhaustively."""
ASSUMPTIONS = []


def cmp_all(a, b, va, vb):
    eq(a < b, va < vb, '<')
    eq(a <= b, va <= vb, '<=')
    eq(a > b, va > vb, '>')
    eq(a >= b, va >= vb, '>=')
    eq(a == b, va == vb, '==')
    eq(a != b, va != vb, '!=')


def pair(case, T):
    ea, eb = case
    a, b, va, vb = fb.real(ea), fb.real(eb), fb.model(ea), fb.model(eb)
    cmp_all(a, b, va, vb)
    cmp_all(b, a, vb, va)
    cmp_all(a, a, va, va)
    eq(sum([a < b, a == b, a > b]), 1, 'trichotomy')
    cp = ref_pm.common(va, vb)
    T.label('equal' if va == vb else 'prefix' if cp in (va, vb) else 'differ in last byte' if max(len(va), len(vb)) - len(cp) <= 8 else 'differ')
    T.nt(va == vb and ea != eb or va != vb and len(cp) > 0)


def many(case, T):
    bs = [(fb.real(e), fb.model(e)) for e in case]
    got = [tuple(b) for b in sorted(b for b, v in bs)]
    eq(got, sorted(v for b, v in bs), 'sorted()')
    if bs:
        eq(tuple(max(b for b, v in bs)), max(v for b, v in bs), 'max()')
        eq(tuple(min(b for b, v in bs)), min(v for b, v in bs), 'min()')
    T.nt(len(set(v for b, v in bs)) >= 3)


def types(case, T):
    b = fb.real(case[0])
    x = case[1]
    for op in (lambda: b < x, lambda: b <= x, lambda: b > x, lambda: b >= x):
        raises(TypeError, op, what='comparison with %r' % (x,))
    T.nt()


def many_gen():
    e = fb.exprs(2)
    fam = st.tuples(e, st.lists(st.tuples(st.sampled_from(['same', 'junk', 'extend', 'cut', 'flip', 'fliptail']), st.integers(0, 400),
                    st.lists(st.integers(0, 1), min_size=20, max_size=20).map(tuple)), max_size=8)).map(
        lambda t: [t[0]] + [fb.related((t[0],) + r) for r in t[1]])
    return st.one_of(fam, st.lists(e, max_size=8))


def small_enum():
    def all_bits(mx):
        for n in range(mx + 1):
            for i in range(2**n):
                yield [(i >> k) & 1 for k in range(n)]
    for pre in ([], [1, 0, 1, 0, 1, 1], [0] * 8):
        for a in all_bits(4):
            for b in all_bits(4):
                yield (('lit', pre + a), ('lit', pre + b))
                yield (('bytes', ref_pm.pack_bits(pre + a) + b'\xff', len(pre) + len(a)), ('lit', pre + b))
    yield from fb.crossed()


SUBS = [
    Sub('pair', pair, gen=fb.pairs, quick=24000, enum=small_enum, examples=[(('lit', [0]), ('lit', [0, 0])), (('empty',), ('lit', [0]))]),
    Sub('many', many, gen=many_gen, quick=4500),
    Sub('types', types, gen=lambda: st.tuples(fb.exprs(1), st.sampled_from([(1, 0), [1], b'\x80', 'x', 5])), quick=600),
]
