"""Mountain range and radix tree classes declared through the public API, with their reference schemas."""
import hashlib
from hypothesis import strategies as st

import proofmarshal.serialize as ps
from proofmarshal.bits import Bits
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import HashTag

from . import gen, ref_pm


@make_mmr_subclass
class MMRA(MerkleMountainRange):
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0001')
    VALUE_SERIALIZER = ps.UInt32
    __slots__ = []


@make_mmr_subclass
class MMRB(MerkleMountainRange):
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0002')
    VALUE_SERIALIZER = ps.VarBytes(300)
    __slots__ = []


@make_mmr_subclass
class MMRE(MerkleMountainRange):
    """Values of MMRA, in another family"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d000b')
    VALUE_SERIALIZER = ps.UInt32
    __slots__ = []


class Item(Proof):
    """A proof used as a value of trees and ranges"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0003')
    __slots__ = ['n', 'data']
    SERIALIZED_ATTRS = [('n', ps.UInt32), ('data', ps.VarBytes(100))]


@make_mmr_subclass
class MMRP(MerkleMountainRange):
    """Values are proofs themselves"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0004')
    VALUE_SERIALIZER = Item
    __slots__ = []


@make_MerbinnerTree_subclass
class MBTA(MerbinnerTree):
    """One-byte keys: dense trees"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0005')
    KEY_SERIALIZER = ps.FixedBytes(1)
    VALUE_SERIALIZER = ps.UInt32
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class MBTB(MerbinnerTree):
    """32-byte keys"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0006')
    KEY_SERIALIZER = ps.Digest
    VALUE_SERIALIZER = ps.VarBytes(50)
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class MBTC(MerbinnerTree):
    """Integer keys with prefixes of an odd number of bits (the low 11 bits, least significant first)"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0007')
    KEY_SERIALIZER = ps.UInt16
    VALUE_SERIALIZER = ps.UInt8
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits([(key >> i) & 1 for i in range(11)])


@make_MerbinnerTree_subclass
class MBTP(MerbinnerTree):
    """Values are proofs"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0008')
    KEY_SERIALIZER = ps.FixedBytes(2)
    VALUE_SERIALIZER = Item
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class MBTD(MerbinnerTree):
    """Keys are proofs, with the library's own prefixes"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0009')
    KEY_SERIALIZER = Item
    VALUE_SERIALIZER = ps.VarBytes(50)
    __slots__ = []


@make_MerbinnerTree_subclass
class MBTE(MerbinnerTree):
    """Keys and values of MBTA, other prefixes"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d000a')
    KEY_SERIALIZER = ps.FixedBytes(1)
    VALUE_SERIALIZER = ps.UInt32
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits([(key[0] >> i) & 1 ^ 1 for i in range(8)])


@make_MerbinnerTree_subclass
class MBTF(MerbinnerTree):
    """Keys longer than a digest"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d000c')
    KEY_SERIALIZER = ps.FixedBytes(40)
    VALUE_SERIALIZER = ps.UInt64
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class MBTG(MerbinnerTree):
    """Keys of thousands of bits"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d000d')
    KEY_SERIALIZER = ps.FixedBytes(600)
    VALUE_SERIALIZER = ps.VarBytes(100000)
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


def item_term(v):
    return ('Item',) + v


class Fam:
    def __init__(self, name, cls, kind):
        self.name, self.cls, self.kind = name, cls, kind
        self.schema = ref_pm.Schema()
        self.schema.add('Item', ref_pm.tag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0003'), [('n', ('uint', 32)), ('data', ('var', 0, 100))])

    def names(self):
        return {'%s.Empty' % self.name: self.cls.EmptyNodeClass, '%s.Leaf' % self.name: self.cls.LeafNodeClass,
                '%s.Inner' % self.name: self.cls.InnerNodeClass, 'Item': Item}


class MmrFam(Fam):
    def __init__(self, name, cls, value_kind, values):
        super().__init__(name, cls, 'mmr')
        self.value_kind, self._values = value_kind, values
        self.schema.family(name, bytes(cls.HASHTAG), ref_pm.mmr_variants(value_kind, name))

    def real(self, v):
        return Item(n=v[0], data=v[1]) if self.value_kind[0] == 'proof' else v

    def model(self, v):
        return item_term(v) if self.value_kind[0] == 'proof' else v

    def unreal(self, v):
        return (v.n, v.data) if self.value_kind[0] == 'proof' else v

    def value(self):
        return self._values()

    def items(self, mx=20):
        return st.lists(self._values(), max_size=mx)

    def term(self, items):
        return ref_pm.mmr_term(self.name, [self.model(v) for v in items])

    def build(self, items):
        return self.cls([self.real(v) for v in items])


class MbtFam(Fam):
    def __init__(self, name, cls, key_kind, value_kind, keys, values, bits):
        super().__init__(name, cls, 'mbt')
        self.key_kind, self.value_kind, self._keys, self._values, self.bits = key_kind, value_kind, keys, values, bits
        self.schema.family(name, bytes(cls.HASHTAG), ref_pm.mbt_variants(key_kind, value_kind, name))

    def real(self, v):
        return Item(n=v[0], data=v[1]) if self.value_kind[0] == 'proof' else v

    def model(self, v):
        return item_term(v) if self.value_kind[0] == 'proof' else v

    def unreal(self, v):
        return (v.n, v.data) if self.value_kind[0] == 'proof' else v

    def key(self):
        return self._keys()

    def value(self):
        return self._values()

    def items(self, mx=20):
        return st.lists(st.tuples(self._keys(), self._values()), max_size=mx)

    # keys: plain <-> real, plain -> model
    def rk(self, k):
        return Item(n=k[0], data=k[1]) if self.key_kind[0] == 'proof' else k

    def uk(self, k):
        return (k.n, k.data) if self.key_kind[0] == 'proof' else k

    def mk(self, k):
        return item_term(k) if self.key_kind[0] == 'proof' else k

    def term(self, items):
        return ref_pm.mbt_term(self.name, [(self.bits(k), self.mk(k), self.model(v)) for k, v in dict(items).items()])

    def build(self, items):
        return self.cls([(self.rk(k), self.real(v)) for k, v in items])

    def build_dict(self, d):
        return self.cls({self.rk(k): self.real(v) for k, v in d.items()})

    def order(self, d):
        """keys of a dict in key order"""
        return sorted(d, key=self.bits)


def near_keys(n):
    """n-byte keys: random, few distinct, keys differing from a common one in a single bit, and keys leaving one of three
    bases at any byte or bit"""
    base = lambda b, k: (b'\x00' * n, b'\xff' * n, bytes((i * 37 + 90) % 256 for i in range(n)))[b][:k]
    fork = lambda t: (base(t[0], t[1]) + bytes([t[2]]) + bytes([t[3]]) * n)[:n]
    return st.one_of(
        st.tuples(st.integers(0, 2), st.just(n - 1), st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 127, 128, 255])), st.just(0)).map(fork),
        st.tuples(st.integers(0, 2), st.integers(0, n - 1), st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 127, 128, 255])), st.sampled_from([0, 0, 255, 90])).map(fork),
        st.binary(min_size=n, max_size=n),
        st.integers(0, 5).map(lambda i: bytes(n - 1) + bytes([i])),
        st.integers(0, n * 8 - 1).map(lambda i: (1 << i).to_bytes(n, 'big')),
        st.integers(0, n * 8 - 1).map(lambda i: ((1 << (n * 8)) - 1 - (1 << i)).to_bytes(n, 'big')),
        st.integers(0, n * 8).map(lambda i: ((1 << i) - 1).to_bytes(n, 'big')),
        st.integers(0, n * 8 - 1).map(lambda i: (0x5a << max(0, n * 8 - 8) ^ (1 << i)).to_bytes(n, 'big')))


# integers of which Python's hash() is the same, among others
HASHED_ALIKE = lambda: st.one_of(st.sampled_from([0, 1, 2**61 - 1, 2**61, 2**62 - 2, 2**62 - 1]), gen.uints(2**64 - 1))

item_value = lambda: st.tuples(st.integers(0, 5), st.sampled_from([b'', b'x', b'yy']))

FAMILIES = {
    'MMRA': MmrFam('MMRA', MMRA, ('uint', 32), lambda: st.one_of(st.integers(0, 3), gen.uints(2**32 - 1))),
    'MMRB': MmrFam('MMRB', MMRB, ('var', 0, 300), lambda: gen.blob(300)),
    'MMRE': MmrFam('MMRE', MMRE, ('uint', 32), lambda: st.one_of(st.integers(0, 3), gen.uints(2**32 - 1))),
    'MMRP': MmrFam('MMRP', MMRP, ('proof', 'Item'), item_value),
    'MBTA': MbtFam('MBTA', MBTA, ('fixed', 1), ('uint', 32), lambda: near_keys(1),
                   lambda: st.one_of(st.integers(0, 2), gen.uints(2**32 - 1)), ref_pm.bits_of),
    'MBTB': MbtFam('MBTB', MBTB, ('fixed', 32), ('var', 0, 50), lambda: near_keys(32),
                   lambda: st.one_of(st.sampled_from([b'', b'a', b'b']), gen.blob(50)), ref_pm.bits_of),
    'MBTC': MbtFam('MBTC', MBTC, ('uint', 16), ('uint', 8),
                   lambda: st.one_of(st.integers(0, 7), st.integers(0, 2047), st.integers(0, 10).map(lambda i: 1 << i)),
                   lambda: st.integers(0, 3), lambda k: tuple((k >> i) & 1 for i in range(11))),
    'MBTP': MbtFam('MBTP', MBTP, ('fixed', 2), ('proof', 'Item'), lambda: near_keys(2), item_value, ref_pm.bits_of),
    'MBTD': MbtFam('MBTD', MBTD, ('proof', 'Item'), ('var', 0, 50), lambda: st.tuples(st.integers(0, 9), st.sampled_from([b'', b'x', b'yy'])),
                   lambda: st.one_of(st.sampled_from([b'', b'a', b'b']), gen.blob(50)), lambda k: ITEM_BITS(k)),
    'MBTE': MbtFam('MBTE', MBTE, ('fixed', 1), ('uint', 32), lambda: near_keys(1),
                   lambda: st.one_of(st.integers(0, 2), gen.uints(2**32 - 1)), lambda k: tuple((k[0] >> i) & 1 ^ 1 for i in range(8))),
    'MBTF': MbtFam('MBTF', MBTF, ('fixed', 40), ('uint', 64), lambda: near_keys(40), HASHED_ALIKE, ref_pm.bits_of),
}
# not one of FAMILIES, as it is slow
LONG = MbtFam('MBTG', MBTG, ('fixed', 600), ('var', 0, 100000), lambda: near_keys(600), lambda: gen.blob(300), ref_pm.bits_of)
ITEM_BITS = lambda k: ref_pm.bits_of(FAMILIES['MBTD'].schema.hash(item_term(k)))
TWIN = {'MMRA': 'MMRE', 'MMRE': 'MMRA', 'MBTA': 'MBTE', 'MBTE': 'MBTA'}     # same values, different families
MMRS = [n for n in sorted(FAMILIES) if n.startswith('MMR')]
MBTS = [n for n in sorted(FAMILIES) if n.startswith('MBT')]


def cut(schema, term, choices):
    """A `used` tree: at each proof-valued position take the next choice; 0 prunes it away"""
    it = iter(choices)

    def go(t):
        if next(it, 1) == 0:
            return None
        out = {}
        for (f, k), v in zip(schema.types[t[0]][1], t[1:]):
            if k[0] in ('proof', 'family', 'union'):
                out[f] = go(v)
        return out
    return go(term)
