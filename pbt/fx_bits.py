"""Expressions producing bit strings: ways of making a Bits value, evaluated for real and on tuples."""
from hypothesis import strategies as st

from proofmarshal.bits import Bits, BitsSerializer

from . import ref_pm


def model(e):
    k = e[0]
    if k == 'lit':
        return tuple(1 if b else 0 for b in e[1])
    if k == 'empty':
        return ()
    if k == 'bytes':
        b = ref_pm.bits_of(e[1])
        return b if e[2] is None else b[:e[2]]
    if k == 'slice':
        return model(e[1])[slice(*e[2])]
    if k == 'add':
        return model(e[1]) + model(e[2])
    if k == 'inv':
        return tuple(1 - b for b in model(e[1]))
    if k == 'cp':
        return ref_pm.common(model(e[1]), model(e[2]))
    if k in ('re', 'deser', 'iter'):
        return model(e[1])
    raise KeyError(k)


def real(e, seen=None):
    """seen collects (Bits, model) of every intermediate value"""
    k = e[0]
    if k == 'lit':
        r = Bits(e[1])
    elif k == 'empty':
        r = Bits()
    elif k == 'bytes':
        r = Bits.from_bytes(e[1]) if e[2] is None else Bits.from_bytes(e[1], e[2])
    elif k == 'slice':
        r = real(e[1], seen)[slice(*e[2])]
    elif k == 'add':
        r = real(e[1], seen) + real(e[2], seen)
    elif k == 'inv':
        r = ~real(e[1], seen)
    elif k == 'cp':
        r = real(e[1], seen).common_prefix(real(e[2], seen))
    elif k == 're':
        r = Bits(real(e[1], seen))
    elif k == 'iter':
        r = Bits(b for b in real(e[1], seen))
    elif k == 'deser':
        r = BitsSerializer.deserialize(BitsSerializer.serialize(real(e[1], seen)))
    if seen is not None:
        seen.append((r, e))
    return r


def base():
    def frombytes(t):
        buf, cut, none = t
        return ('bytes', buf, None if none else max(0, len(buf) * 8 - cut))
    return st.one_of(
        st.lists(st.integers(0, 1), max_size=20).map(lambda l: ('lit', l)),
        st.lists(st.sampled_from([0, 1, True, False, 2, 255, '', 'x', None]), max_size=6).map(lambda l: ('lit', l)),
        st.tuples(st.sampled_from([b'\xff', b'\x00', b'\xaa', b'\x80', b'\x01']), st.integers(0, 5)).map(lambda t: ('bytes', t[0] * t[1], None)),
        st.tuples(st.binary(max_size=6), st.integers(0, 20), st.booleans()).map(frombytes),
        st.tuples(st.binary(min_size=1, max_size=4), st.integers(0, 8), st.just(False)).map(frombytes),
        st.tuples(st.binary(min_size=15, max_size=40), st.integers(0, 20), st.booleans()).map(frombytes),
        st.just(('empty',)))


def bound():
    return st.one_of(st.none(), st.integers(-40, 40), st.integers(-9, 9), st.sampled_from([8, 16, 24, -8, 1000, -1000]))


def step():
    return st.one_of(st.none(), st.just(1), st.sampled_from([2, 3, -1, -2, 7, -8, 8, 100]))


def exprs(depth=3):
    s = base()
    b = base()
    for _ in range(depth):
        s = st.one_of(b, st.tuples(st.just('slice'), s, st.tuples(bound(), bound(), step())),
                      st.tuples(st.just('slice'), s, st.tuples(st.none(), bound(), st.none())),
                      st.tuples(st.just('add'), s, s), st.tuples(st.just('inv'), s), st.tuples(st.just('cp'), s, s),
                      st.tuples(st.sampled_from(['re', 'iter', 'deser']), s))
    return s


def related(t):
    """A second expression derived from the first: same value made otherwise, extended, cut, one bit flipped"""
    e, how, n, junk = t
    v = model(e)
    if how == 'same':
        return ('lit', list(v))
    if how == 'junk':       # same value with garbage in the unused bits
        p = ref_pm.pack_bits(v + junk[:(-len(v)) % 8])
        return ('bytes', p + b'\xa5' * (n % 3), len(v))
    if how == 'extend':
        return ('lit', list(v + junk[:n % 20 + 1]))
    if how == 'cut':
        return ('slice', e, (None, n % (len(v) + 1), None))
    if how == 'flip' and v:
        i = n % len(v)
        return ('lit', list(v[:i] + (1 - v[i],) + v[i + 1:]))
    if how == 'fliptail' and v:
        i = n % len(v)
        return ('lit', list(v[:i] + (1 - v[i],)))
    return e


def pairs(depth=2):
    e = exprs(depth)
    rel = st.tuples(e, st.sampled_from(['same', 'junk', 'extend', 'cut', 'flip', 'fliptail']), st.integers(0, 400),
                    st.lists(st.integers(0, 1), min_size=20, max_size=20).map(tuple)).map(lambda t: (t[0], related(t)))
    return st.one_of(rel, rel, st.tuples(e, e)).flatmap(lambda p: st.sampled_from([p, (p[1], p[0])]))


def crossed():
    """Every pair of lengths up to 26 and every place of the first difference, in every way of being made"""
    pat = [i * i // 3 & 1 ^ (i % 5 == 2) for i in range(64)]
    for la in range(27):
        for lb in range(27):
            for p in sorted({q for q in (0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 25, la - 2, la - 1, la, lb - 1) if 0 <= q <= min(la, lb)}):
                a = pat[:la]
                b = pat[:p] + [1 - pat[p]] * (p < lb) + [1 - x for x in pat[p + 1:lb]] if p < min(la, lb) else pat[:lb]
                junk = bytes(0xff for _ in range(5))
                yield ([('lit', a), ('slice', ('lit', pat), (None, la, None)), ('bytes', ref_pm.pack_bits(tuple(a + [1] * (-la % 8))), la)][(la + p) % 3],
                       [('lit', b), ('bytes', ref_pm.pack_bits(tuple(b + [1] * (-lb % 8))) + junk[:p % 3], lb), ('slice', ('add', ('lit', b), ('lit', pat)), (None, lb, None))][(lb + p) % 3])
