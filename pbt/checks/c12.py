from hypothesis import strategies as st
from .. import gen, ref_pm, fx_tree, fx_mmr
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """Lists of 0 to a few hundred values (duplicates common, lengths around powers of two over-represented) are built
into mountain ranges by histories of construction, append, extend, slicing, pruning and deserialization, and every query
(length, each index of both signs and beyond, both iterations, slices with arbitrary bounds) is compared with the list.
Ranges of up to 2**62 items, their mountains repeating a few values, answer the same questions.
Non-trivial: three or more items."""
ASSUMPTIONS = ['Slices with a step other than one may be refused']


def values(fam, m):
    return [fam.unreal(v) for v in m]


def listlike(case, T):
    which, chunks, ops, slices, idxs = case
    fam = fx_tree.FAMILIES[which]
    l = fx_mmr.model(which, chunks, ops)
    m = fx_mmr.run(which, chunks, ops)
    n = len(l)
    eq(len(m), n, 'len')
    eq(values(fam, m), l, 'iteration')
    eq([fam.unreal(v) for v in reversed(m)], l[::-1], 'reverse iteration')
    eq(bool(m), bool(l), 'truth')
    for i in range(-n - 2, n + 2):
        if -n <= i < n:
            eq(fam.unreal(m[i]), l[i], 'item %d' % i)
        else:
            raises(IndexError, m.__getitem__, i, what='index %d of %d' % (i, n))
    for i in idxs:
        if not -n <= i < n:
            raises(IndexError, m.__getitem__, i, what='index %d of %d' % (i, n))
    # numbers that mean an index modulo some power of two
    for p in (8, 16, 31, 32, 63, 64, 65, 128):
        for i in {0, n - 1, n // 2} if n else {0}:
            for j in (i + 2**p, i - 2**p, i - n - 2**p):
                if not -n <= j < n:
                    raises(IndexError, m.__getitem__, j, what='index %d of %d' % (j, n))
    for a, b in slices:
        s = m[a:b]
        want = l[a:b]
        ok(isinstance(s, fam.cls), 'class of a slice')
        eq(len(s), len(want), 'length of slice %r:%r of %d' % (a, b, n))
        eq(values(fam, s), want, 'slice %r:%r of %d' % (a, b, n))
        ok(s == fam.build(want), 'slice equal to a range of the sliced list')
        eq(values(fam, m[a:b:1]), want, 'slice with step one')
        for step in (2, 3, -1, -2, n + 1):
            # what isn't implemented is refused, rather than ignored
            r = outcome(lambda: values(fam, m[a:b:step]))
            if r[0] == 'ok':
                eq(r[1], l[a:b:step], 'slice %r:%r:%r of %d' % (a, b, step, n))
            else:
                ok(step != 1, 'slice with step one')
        raises(ValueError, m.__getitem__, slice(a, b, 0), what='step of zero')
    for bad in ('0', 1.5, None, b'', (0,), [0]):
        raises(TypeError, m.__getitem__, bad, what='index %r' % (bad,))
    raises(TypeError, m.__getitem__, slice('0', None), what='slice bounds')
    raises(TypeError, m.__getitem__, slice(None, '0'), what='slice bounds')
    eq(values(fam, m), l, 'iteration afterwards')
    T.label('len %s' % (n if n < 3 else '<10' if n < 10 else '<50' if n < 50 else '<150' if n < 150 else '150+'), which)
    T.nt(n >= 3)


def bounds():
    b = st.one_of(st.none(), st.integers(-6, 6), st.integers(-70, 70), st.integers(-400, 400),
                  st.sampled_from([8, 16, 32, 64, -8, -16, 10**6, -10**6, 2**31, 2**32, 2**64, 2**64 + 3, -2**32, -2**64 + 2]))
    return st.tuples(b, b)


def allslices(case, T):
    """Every index and every slice of one length"""
    which, n, off = case
    fam = fx_tree.FAMILIES[which]
    l = [fx_mmr.val(which, i % 5 + off) for i in range(n)]
    m = fam.build(l)
    hashes = {}
    for i in range(n + 1):
        for j in range(i, n + 1):
            hashes[i, j] = fam.build(l[i:j]).hash
    rng = list(range(-n - 1, n + 2)) + [None]
    for a in rng:
        for b in rng:
            i, j, _ = slice(a, b).indices(n)
            s = m[a:b]
            eq(values(fam, s), l[a:b], 'slice %r:%r of %d' % (a, b, n))
            eq(s.hash, hashes[(i, j) if i <= j else (0, 0)], 'hash of slice %r:%r of %d' % (a, b, n))
    T.nt(n >= 3)


def allslices_enum():
    for n in range(0, 18):
        for w in fx_tree.MMRS:
            yield (w, n, 0)


def perfect(case, T):
    """is_perfect_tree() and incremental append at every length up to n"""
    which, n = case
    fam = fx_tree.FAMILIES[which]
    m = fam.cls()
    l = []
    for i in range(n):
        v = fx_mmr.val(which, i % 7)
        m = m.append(fam.real(v))
        l.append(v)
        eq(len(m), i + 1, 'length')
        eq(fam.unreal(m[i]), v, 'last item')
        eq(fam.unreal(m[-1]), v, 'last item')
        eq(fam.unreal(m[i // 2]), l[i // 2], 'middle item')
        eq(fam.unreal(m[0]), l[0], 'first item')
        eq(m.is_perfect_tree(), (i + 1) & i == 0, 'is_perfect_tree at %d' % (i + 1))
        if i % 13 == 0:
            eq(values(fam, m), l, 'iteration')
    T.nt()


def huge(case, T):
    """Ranges of up to 2**62 items"""
    which, mountains, positions = case
    x = fx_mmr.Huge(which, mountains)
    fam, m, n = x.fam, x.real, x.len
    eq(len(m), n, 'len')
    eq(m.is_perfect_tree(), len(mountains) == 1, 'is_perfect_tree of %d items' % n)
    for k, d in positions:
        i = x.position(k, d)
        eq(fam.unreal(m[i]), x[i], 'item %d of %d' % (i, n))
        eq(fam.unreal(m[i - n]), x[i], 'item %d of %d' % (i - n, n))
        for w in (0, 1, 2, 7, 20):
            j = min(i + w, n)
            want = [x[q] for q in range(i, j)]
            for a, b in ((i, j), (i - n, j), (i, j - n if j < n else n + 5)):
                s = m[a:b]
                eq(len(s), j - i, 'length of slice %d:%d of %d' % (a, b, n))
                eq(values(fam, s), want, 'slice %d:%d of %d' % (a, b, n))
        for out in (n, n + i, -n - 1, -n - 1 - i, i + 2**64, i - 2**64):
            raises(IndexError, m.__getitem__, out, what='index %d of %d' % (out, n))
    it, back = iter(m), reversed(m)
    for i in range(30):
        if i < n:
            eq(fam.unreal(next(it)), x[i], 'iteration')
            eq(fam.unreal(next(back)), x[n - 1 - i], 'reverse iteration')
    # whole mountains
    at = x.mountains[0][0]
    if at < n:
        eq(len(m[:at]), at, 'length of the first mountain')
        eq(len(m[at - n:]), n - at, 'length of the others') if n - at < 300 else None
    eq(len(m[:]), n, 'length of a whole slice')
    for w in range(1, 4):
        m = m.append(fam.real(fx_mmr.val(which, w)))
        eq(len(m), n + w, 'length after appending')
        for q in range(w):
            eq(fam.unreal(m[n + q]), fx_mmr.val(which, q + 1), 'item appended')
        eq(fam.unreal(m[n - 1]), x[n - 1], 'item before those appended')
    T.label('%d mountains' % len(mountains), '2**%d' % (n.bit_length() // 8 * 8))
    T.nt(n > 1000)


SUBS = [
    Sub('listlike', listlike, gen=lambda: st.tuples(st.sampled_from(fx_tree.MMRS), fx_mmr.lists(), fx_mmr.builds(), st.lists(bounds(), max_size=5),
        st.lists(st.integers(-10**6, 10**6), max_size=2)), quick=7500, heavy=True, examples=[('MMRA', [(0, 5, 1)], [], [(3, 1), (4, 4), (9, 7), (-1, -3)], [])]),
    Sub('allslices', allslices, enum=allslices_enum),
    Sub('perfect', perfect, enum=lambda: iter([('MMRA', 600), ('MMRB', 270), ('MMRP', 140)])),
    Sub('huge', huge, gen=fx_mmr.huge, enum=lambda: iter(fx_mmr.HUGE), quick=600),
]
