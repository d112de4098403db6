"""Proof classes declared through proofmarshal's public API, mirrored by a reference Schema."""
from hypothesis import strategies as st

import proofmarshal.proof as pp
import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, VarProof, ProofUnion, PrunedError
from proofmarshal.serialize import HashTag

from . import gen, ref_pm

T_LEAF = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a01'
T_TWIN = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a02'
T_PAIR = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a03'
T_NONE = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a04'
T_SUB = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a05'
T_HOLD = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a06'
T_V = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a07'
T_W = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a08'
T_WIDE = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a09'
T_A = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a11'
T_B = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a12'
T_C = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a13'
T_D = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0c9a14'

LEAF_FIELDS = [('n', ('uint', 32)), ('data', ('var', 0, 300)), ('four', ('fixed', 4)), ('flag', ('bool',)),
               ('dig', ('fixed', 32)), ('bits', ('bits',))]
LEAF_ATTRS = [('n', ps.UInt32), ('data', ps.VarBytes(300)), ('four', ps.FixedBytes(4)), ('flag', ps.SerBool),
              ('dig', ps.Digest), ('bits', BitsSerializer)]


class Leaf(Proof):
    HASHTAG = HashTag(T_LEAF)
    __slots__ = ['n', 'data', 'four', 'flag', 'dig', 'bits']
    SERIALIZED_ATTRS = LEAF_ATTRS

    def total(self):
        """An operation that uses some of the attributes"""
        return self.n + len(self.data)


class Twin(Proof):
    HASHTAG = HashTag(T_TWIN)
    SERIALIZED_ATTRS = LEAF_ATTRS


class Pair(Proof):
    HASHTAG = HashTag(T_PAIR)
    __slots__ = ['left', 'right', 'k']
    SERIALIZED_ATTRS = [('left', Leaf), ('k', ps.UInt8), ('right', Leaf)]

    def left_total(self):
        return self.left.total() + self.k


class Nothing(Proof):
    HASHTAG = HashTag(T_NONE)
    __slots__ = []
    SERIALIZED_ATTRS = []


class Sub(Pair):
    """Subclass of another proof class, with other attributes"""
    HASHTAG = HashTag(T_SUB)
    __slots__ = ['extra']
    SERIALIZED_ATTRS = Pair.SERIALIZED_ATTRS + [('extra', ps.UInt64)]


class V(VarProof):
    HASHTAG = HashTag(T_V)
    __slots__ = []


@V.declare_variant
class VA(V):
    SUB_HASHTAG = HashTag(T_A)
    __slots__ = ['value']
    SERIALIZED_ATTRS = [('value', ps.UInt16)]


@V.declare_variant
class VB(V):
    SUB_HASHTAG = HashTag(T_B)
    __slots__ = ['value']
    SERIALIZED_ATTRS = [('value', ps.UInt16)]


@V.declare_variant
class VC(V):
    SUB_HASHTAG = HashTag(T_C)
    __slots__ = ['x', 'y', 'm']
    SERIALIZED_ATTRS = [('x', V), ('m', ps.VarBytes(1, 200)), ('y', V)]


@V.declare_variant
class VD(V):
    SUB_HASHTAG = HashTag(T_D)
    __slots__ = []
    SERIALIZED_ATTRS = []


class W(VarProof):
    HASHTAG = HashTag(T_W)
    __slots__ = []


@W.declare_variant
class WB(W):
    SUB_HASHTAG = HashTag(T_B)
    __slots__ = ['value']
    SERIALIZED_ATTRS = [('value', ps.UInt16)]


@W.declare_variant
class WA(W):
    SUB_HASHTAG = HashTag(T_A)
    __slots__ = ['value']
    SERIALIZED_ATTRS = [('value', ps.UInt16)]


class Holder(Proof):
    HASHTAG = HashTag(T_HOLD)
    __slots__ = ['u', 'v', 'p']
    SERIALIZED_ATTRS = [('u', ProofUnion(Leaf, V, Nothing, W)), ('v', V), ('p', Pair)]


class Wide(Proof):
    """More components than the others, proofs and plain ones in turn"""
    HASHTAG = HashTag(T_WIDE)
    __slots__ = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
    SERIALIZED_ATTRS = [('a', V), ('b', ps.UInt8), ('c', W), ('d', ProofUnion(W, Nothing, V)), ('e', BitsSerializer), ('f', V), ('g', Nothing)]


CLASSES = {'Wide': Wide, 'Leaf': Leaf, 'Twin': Twin, 'Pair': Pair, 'Nothing': Nothing, 'Sub': Sub, 'Holder': Holder,
           'VA': VA, 'VB': VB, 'VC': VC, 'VD': VD, 'WA': WA, 'WB': WB}
NAMES = {c: n for n, c in CLASSES.items()}
FAMILIES = {'V': V, 'W': W}

S = ref_pm.Schema()
S.add('Leaf', ref_pm.tag(T_LEAF), LEAF_FIELDS)
S.add('Twin', ref_pm.tag(T_TWIN), LEAF_FIELDS)
PAIR_FIELDS = [('left', ('proof', 'Leaf')), ('k', ('uint', 8)), ('right', ('proof', 'Leaf'))]
S.add('Pair', ref_pm.tag(T_PAIR), PAIR_FIELDS)
S.add('Nothing', ref_pm.tag(T_NONE), [])
S.add('Sub', ref_pm.tag(T_SUB), PAIR_FIELDS + [('extra', ('uint', 64))])
S.family('V', ref_pm.tag(T_V), [
    ('VA', ref_pm.tag(T_A), [('value', ('uint', 16))]),
    ('VB', ref_pm.tag(T_B), [('value', ('uint', 16))]),
    ('VC', ref_pm.tag(T_C), [('x', ('family', 'V')), ('m', ('var', 1, 200)), ('y', ('family', 'V'))]),
    ('VD', ref_pm.tag(T_D), [])])
S.family('W', ref_pm.tag(T_W), [
    ('WB', ref_pm.tag(T_B), [('value', ('uint', 16))]),
    ('WA', ref_pm.tag(T_A), [('value', ('uint', 16))])])
S.add('Holder', ref_pm.tag(T_HOLD), [('u', ('union', [('proof', 'Leaf'), ('family', 'V'), ('proof', 'Nothing'), ('family', 'W')])),
                                     ('v', ('family', 'V')), ('p', ('proof', 'Pair'))])

S.add('Wide', ref_pm.tag(T_WIDE), [('a', ('family', 'V')), ('b', ('uint', 8)), ('c', ('family', 'W')),
                                   ('d', ('union', [('family', 'W'), ('proof', 'Nothing'), ('family', 'V')])), ('e', ('bits',)), ('f', ('family', 'V')), ('g', ('proof', 'Nothing'))])


def top_kind(name):
    fam = S.family_of(name)
    return ('family', fam) if fam else ('proof', name)


def top_class(name):
    """The class whose deserialize() reads a term of that name"""
    fam = S.family_of(name)
    return FAMILIES[fam] if fam else CLASSES[name]


def fields(name):
    return S.types[name][1]


def is_proof_kind(kind):
    return kind[0] in ('proof', 'family', 'union')


def to_real(kind, v):
    if kind[0] == 'bits':
        return Bits(v)
    if is_proof_kind(kind):
        return build(v)
    return v


def from_real(kind, v):
    if kind[0] == 'bits':
        return tuple(v)
    return v


def build(term):
    return CLASSES[term[0]](**{f: to_real(k, v) for (f, k), v in zip(fields(term[0]), term[1:])})


def get(term, field):
    for (f, k), v in zip(fields(term[0]), term[1:]):
        if f == field:
            return k, v
    raise KeyError(field)


# ---- strategies

bits_st = lambda mx=20: st.lists(st.integers(0, 1), max_size=mx).map(tuple)


def leaf_fields():
    return st.tuples(gen.uints(2**32 - 1), gen.blob(300), gen.fixed(4), st.booleans(), gen.digest(), bits_st())


def small_leaf_fields():
    """Few values, so that equal and almost equal proofs are common"""
    return st.tuples(st.integers(0, 1), st.sampled_from([b'', b'a']), st.sampled_from([b'\0' * 4, b'abcd']), st.booleans(),
                     st.sampled_from([b'\0' * 32, b'\1' * 32]), bits_st(2))


def leaf(name='Leaf', small=False):
    return (small_leaf_fields() if small else leaf_fields()).map(lambda t: (name,) + t)


def pair(small=False):
    return st.tuples(st.just('Pair'), leaf(small=small), st.integers(0, 1) if small else gen.uints(255), leaf(small=small))


def sub(small=False):
    return st.tuples(st.just('Sub'), leaf(small=small), gen.uints(255), leaf(small=small),
                     st.one_of(st.sampled_from([0, 1, 2**61 - 1, 2**61]), gen.uints(2**64 - 1)))      # of some, Python's hash() is the same


def var_v(small=False, depth=3):
    val = st.integers(0, 1) if small else gen.uints(2**16 - 1)
    base = st.one_of(st.tuples(st.sampled_from(['VA', 'VB']), val), st.just(('VD',)))
    m = st.sampled_from([b'a', b'b']) if small else gen.blob(200, min_size=1)
    s = base
    for _ in range(depth):
        s = st.one_of(base, st.tuples(st.just('VC'), s, m, s))
    return s


def var_w(small=False):
    return st.tuples(st.sampled_from(['WA', 'WB']), st.integers(0, 1) if small else gen.uints(2**16 - 1))


def holder(small=False):
    return st.tuples(st.just('Holder'),
                     st.one_of(leaf(small=small), var_v(small), st.just(('Nothing',)), st.tuples(st.just('WA'), st.integers(0, 1))),
                     var_v(small), pair(small))


def wide(small=False):
    return st.tuples(st.just('Wide'), var_v(small, 1), st.integers(0, 1) if small else gen.uints(255), var_w(small),
                     st.one_of(var_w(small), st.just(('Nothing',)), var_v(small, 1)), bits_st(2 if small else 20), var_v(small, 2), st.just(('Nothing',)))


def any_term(small=False):
    return st.one_of(leaf(small=small), leaf('Twin', small), pair(small), st.just(('Nothing',)), sub(small),
                     var_v(small), var_w(small), holder(small), wide(small))


def structured_term(small=False):
    """Terms with proofs inside"""
    return st.one_of(pair(small), sub(small), holder(small), wide(small),
                     st.tuples(st.just('VC'), var_v(small), st.sampled_from([b'a', b'bb']), var_v(small)))


# ---- paths

def paths(term, prefix=()):
    """Every path to a field, proofs and plain data"""
    out = []
    for (f, k), v in zip(fields(term[0]), term[1:]):
        p = prefix + (f,)
        out.append(p)
        if is_proof_kind(k):
            out.extend(paths(v, p))
    return out


def at(term, path):
    """(kind, value) at a path"""
    kind, v = top_kind(term[0]), term
    for f in path:
        kind, v = get(v, f)
    return kind, v


def used_tree(term, used_paths):
    """None if nothing was used, else {proof field: tree}"""
    if not used_paths:
        return None
    out = {}
    for (f, k), v in zip(fields(term[0]), term[1:]):
        if is_proof_kind(k):
            out[f] = used_tree(v, [p[1:] for p in used_paths if len(p) > 1 and p[0] == f])
    return out


def walk(obj, path):
    for f in path:
        obj = getattr(obj, f)
    return obj
