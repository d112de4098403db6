"""Compact descriptions of lists and of ways to build mountain ranges from them."""
from hypothesis import strategies as st

from . import gen, ref_pm, fx_tree

FAMS = {w: fx_tree.FAMILIES[w] for w in fx_tree.MMRS}


def val(which, k):
    """The k-th value of a family"""
    if which in ('MMRA', 'MMRE'):
        return k
    if which == 'MMRB':
        return k.to_bytes(1 + k % 3 + (k > 255), 'little')
    return (k, b'x' * (k % 3))


def expand(which, chunks):
    """[(start, count, stride)] -> values"""
    return [val(which, s + i * d) for s, n, d in chunks for i in range(n)]


LENGTHS = sorted(set(list(range(0, 40)) + [2**k + d for k in range(3, 9) for d in (-1, 0, 1)] + [100, 150, 170, 204, 213, 300]))


def lists():
    """Lists with few distinct values (duplicates are common), lengths 0..~320 with powers of two over-represented"""
    small = st.lists(st.tuples(st.integers(0, 3), st.integers(1, 3), st.integers(0, 1)), max_size=6)
    one = st.tuples(st.integers(0, 200), st.sampled_from(LENGTHS), st.integers(0, 2)).map(lambda c: [c])
    two = st.tuples(one, small).map(lambda t: t[0] + t[1])
    return gen.mix(small, one, two)


def builds():
    """[op]: how a range is put together; see run()"""
    return st.lists(st.one_of(
        st.tuples(st.just('append'), st.integers(0, 5)),
        st.tuples(st.just('extend'), lists()),
        st.tuples(st.just('slice'), st.integers(-40, 80), st.integers(-40, 80)),
        st.tuples(st.just('keep'), st.integers(0, 300)),
        st.tuples(st.just('drop'), st.integers(0, 20)),
        st.tuples(st.sampled_from(['new', 'ser', 'prune', 'prunedser', 'gen', 'foreign', 'twice', 'foreigntail', 'empty']))), max_size=4)


def model(which, chunks, ops):
    l = expand(which, chunks)
    for op in ops:
        if op[0] == 'append':
            l = l + [val(which, op[1])]
        elif op[0] == 'extend':
            l = l + expand(which, op[1])
        elif op[0] == 'slice':
            l = l[op[1]:op[2]]
        elif op[0] == 'keep':
            l = l[:op[1]]
        elif op[0] == 'drop':
            l = l[op[1]:]
        elif op[0] == 'twice' and len(l) < 200:
            l = l + l
        elif op[0] == 'foreigntail' and len(l) < 200:
            l = l + l[len(l) // 3:]
    return l


def run(which, chunks, ops, step=None):
    """The real thing; step(m, model list) after every operation"""
    fam = FAMS[which]
    m = fam.cls([fam.real(v) for v in expand(which, chunks)])
    l = expand(which, chunks)
    for op in ops:
        if op[0] == 'append':
            m = m.append(fam.real(val(which, op[1])))
        elif op[0] == 'extend':
            m = m.extend([fam.real(v) for v in expand(which, op[1])])
        elif op[0] == 'foreign':
            # from a range of another family with the same values
            m = fam.cls(fx_tree.FAMILIES[fx_tree.TWIN.get(which, which)].cls(list(m)))
        elif op[0] == 'twice' and len(m) < 200:
            m = m.extend(m)
        elif op[0] == 'foreigntail' and len(m) < 200:
            m = m.extend(fx_tree.FAMILIES[fx_tree.TWIN.get(which, which)].cls(m[len(m) // 3:]).prune())
        elif op[0] == 'empty':
            m = fam.cls().extend(m)
        elif op[0] == 'gen':
            m = fam.cls(iter(list(m)))
        elif op[0] == 'slice':
            m = m[op[1]:op[2]]
        elif op[0] == 'keep':
            m = m[:op[1]]
        elif op[0] == 'drop':
            m = m[op[1]:]
        elif op[0] == 'new':
            m = fam.cls(m)
        elif op[0] == 'ser':
            [fam.unreal(v) for v in m]      # a pruned view serializes what was used
            len(m)
            m = fam.cls.deserialize(m.serialize())
        elif op[0] == 'prune':
            m = m.prune()
        elif op[0] == 'prunedser':
            p = m.prune()
            [fam.unreal(v) for v in p]
            len(p)
            m = fam.cls.deserialize(p.serialize())
    return m


def cases():
    return st.tuples(st.sampled_from(fx_tree.MMRS), lists(), builds())


class Huge:
    """A range of 2**a + 2**b + ... items (a > b > ...), too many to store: each mountain repeats a short list of values"""
    def __init__(self, which, mountains):
        """mountains: [(exponent, short list of 2**k numbers)]"""
        self.fam = fam = FAMS[which]
        self.which = which
        self.mountains = []         # (size, values, real mountain, its hash)
        for e, ks in mountains:
            l = [val(which, k) for k in ks]
            m = fam.build(l)
            h = fam.schema.hash(fam.term(l))
            n = len(l)
            while n < 2**e:
                m = fam.cls.InnerNodeClass(m, m)
                n *= 2
                h = self.inner(h, h, n)
            self.mountains.append((n, l, m, h))
        self.real = None
        for n, l, m, h in self.mountains:
            self.real = m if self.real is None else fam.cls.InnerNodeClass(self.real, m)
        self.len = sum(t[0] for t in self.mountains)

    def inner(self, left, right, n):
        return ref_pm.sha(self.fam.schema.types['%s.Inner' % self.which][0] + ref_pm.sha(left + right + ref_pm.leb128(n)))

    def __getitem__(self, i):
        for n, l, m, h in self.mountains:
            if i < n:
                return l[i % len(l)]
            i -= n
        raise IndexError

    def hash_with(self, values=()):
        """The commitment after appending values"""
        peaks = [(n, h) for n, l, m, h in self.mountains]
        for v in values:
            peaks.append((1, self.fam.schema.hash(self.fam.term([v]))))
            while len(peaks) > 1 and peaks[-1][0] == peaks[-2][0]:
                (n, h), (_, h2) = peaks[-2:]
                peaks[-2:] = [(2 * n, self.inner(h, h2, 2 * n))]
        n, h = peaks[0]
        for n2, h2 in peaks[1:]:
            n += n2
            h = self.inner(h, h2, n)
        return h

    def position(self, k, d):
        """A position near the border of the k-th mountain or inside it"""
        ends = [0]
        for t in self.mountains:
            ends.append(ends[-1] + t[0])
        return (ends[k % len(ends)] + d) % self.len


def huge():
    """Cases of Huge: mountains, and positions"""
    ks = st.integers(0, 3).flatmap(lambda k: st.lists(st.integers(0, 9), min_size=2**k, max_size=2**k))
    exps = st.one_of(st.lists(st.integers(3, 62), min_size=1, max_size=5, unique=True),
                     st.lists(st.sampled_from([3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 49, 53, 61]), min_size=1, max_size=4, unique=True))
    mountains = exps.flatmap(lambda es: st.tuples(*[st.tuples(st.just(e), ks) for e in sorted(es, reverse=True)]))
    pos = st.tuples(st.integers(0, 5), st.one_of(st.integers(-5, 5), st.integers(-2**62, 2**62), st.integers(0, 62).map(lambda e: 2**e)))
    return st.tuples(st.sampled_from(sorted(FAMS)), mountains, st.lists(pos, min_size=1, max_size=6))


HUGE = [(w, [(e, [1, 2]), (4, [3] * 8)], [(0, 0), (1, -1), (1, 0), (2, -1), (0, 65536), (0, 65537), (0, 2**e // 3)])
        for w in ('MMRA', 'MMRP') for e in (16, 17, 31, 32, 33, 40, 49, 62)] + \
       [('MMRA', [(e, [1, 2, 3, 4])], [(0, 0), (0, 2**e - 1), (0, 2**16 + 1)]) for e in (17, 32, 49, 62)]
