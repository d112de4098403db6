"""GuMap families with their reference schema, and maps as plain data.

A map is described by
  ('unused', prefix bits, seal)
  ('leaf', witness, key, value)
  ('inner', prefix bits, witness, left map, right map)
where a seal is ('fake', digest) or ('btc', txid, n, nonce) and a witness is ('fake', digest) or
('btc', (txid, n, nonce), input index, tx, output index, tx).
"""
from hypothesis import strategies as st

import proofmarshal.serialize as ps
from proofmarshal.bits import Bits
from proofmarshal.serialize import HashTag
from bitcoin.core import COutPoint, CTransaction
from proofchains.core.bitcoin import COutPointSerializer, CTransactionSerializer
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits.singleuseseal import (FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal, BitcoinSealWitness)

from . import gen, ref_pm, ref_btc as R, fx_btc, fx_seal, fx_tree


@make_GuMap_subclass
class GMA(GuMap):
    """Integers to integers"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0011')
    KEY_SERIALIZER = ps.UInt64
    VALUE_SERIALIZER = ps.UInt64
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.to_bytes(8, 'big'))


@make_GuMap_subclass
class GMB(GuMap):
    """Digests to proofs"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0012')
    KEY_SERIALIZER = ps.Digest
    VALUE_SERIALIZER = fx_tree.Item
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_GuMap_subclass
class GMC(GuMap):
    """Proofs to byte strings, prefixes from the key's hash as by default"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0013')
    KEY_SERIALIZER = fx_tree.Item
    VALUE_SERIALIZER = ps.VarBytes(40)
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []


@make_GuMap_subclass
class GMD(GuMap):
    """Keys and values of GMA, other prefixes"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0014')
    KEY_SERIALIZER = ps.UInt64
    VALUE_SERIALIZER = ps.UInt64
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.to_bytes(8, 'little'))


class Hashed(ps.HashingSerializer):
    """32 bytes, with a hash of their own but not proofs"""
    @classmethod
    def check_instance(cls, value):
        if type(value) is not bytes or len(value) != 32:
            raise ps.SerializerTypeError('32 bytes expected')

    @classmethod
    def get_hash(cls, value):
        return ref_pm.hash_of(value)

    @classmethod
    def ctx_serialize(cls, value, ctx):
        ctx.write_bytes(value)

    @classmethod
    def ctx_deserialize(cls, ctx):
        return ctx.read_bytes(32)


@make_GuMap_subclass
class GME(GuMap):
    """Outpoints to transactions, neither of which have hashes of the proof kind"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0015')
    KEY_SERIALIZER = COutPointSerializer
    VALUE_SERIALIZER = CTransactionSerializer
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.serialize())


@make_GuMap_subclass
class GMF(GuMap):
    """Plain values with hashes of their own"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0016')
    KEY_SERIALIZER = Hashed
    VALUE_SERIALIZER = Hashed
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_GuMap_subclass
class GMG(GuMap):
    """Long byte strings to long byte strings"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0017')
    KEY_SERIALIZER = ps.VarBytes(100000)
    VALUE_SERIALIZER = ps.VarBytes(100000)
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    __slots__ = []

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(ref_pm.sha(key))


class Fam:
    def __init__(self, name, cls, key_kind, value_kind, key, value, bits):
        self.name, self.cls, self.key_kind, self.value_kind, self.key, self.value = name, cls, key_kind, value_kind, key, value
        self._bits = bits
        S = fx_seal.schema()
        self.schema = S
        S.add('Item', ref_pm.tag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0003'), [('n', ('uint', 32)), ('data', ('var', 0, 100))])
        famtag = bytes(cls.HASHTAG)
        seal = ('union', [('proof', 'FakeSeal'), ('proof', 'BtcSeal')])
        wit = ('union', [('proof', 'FakeWitness'), ('proof', 'BtcWitness')])
        S.family(name, famtag, [
            ('%s.Unused' % name, ref_pm.tag('dae47bef-d9a3-4971-a6a4-1c67c5f02c11'), [('prefix', ('bits',)), ('seal', seal)]),
            ('%s.Leaf' % name, ref_pm.tag('0c60f344-9109-4930-aec1-432c5750fcba'), [('witness', wit), ('key', key_kind), ('value', value_kind)]),
            ('%s.Inner' % name, ref_pm.tag('6893cac7-e834-49cd-8e95-77707b0499b5'),
             [('prefix', ('bits',)), ('witness', wit), ('left', ('family', name)), ('right', ('family', name))])])
        # sealed hashes use tags derived with the variant's own tag
        self.leaf_tag = ref_pm.derive(ref_pm.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), S.types['%s.Leaf' % name][0])
        self.inner_tag = ref_pm.derive(ref_pm.tag('b925044d-320e-4c1f-9ef8-20614d260676'), S.types['%s.Inner' % name][0])

    def bits(self, key):
        return self._bits(self, key)

    def real(self, kind, v):
        if kind[0] == 'varlen':
            return {'outpoint': COutPoint, 'tx': CTransaction}[kind[1]].deserialize(v)
        return fx_tree.Item(n=v[0], data=v[1]) if kind[0] == 'proof' else v

    def plain(self, kind, v):
        """the inverse of real()"""
        return v.serialize() if kind[0] == 'varlen' else (v.n, v.data) if kind[0] == 'proof' else v

    def model(self, kind, v):
        return ('Item',) + v if kind[0] == 'proof' else v

    def digest_of(self, kind, v):
        return self.schema.hash(self.model(kind, v)) if kind[0] == 'proof' else ref_pm.enc_hash(kind, v)

    # documented digests
    def leaf_digest(self, key, value):
        return ref_pm.sha(self.leaf_tag + self.digest_of(self.key_kind, key) + self.digest_of(self.value_kind, value))

    def inner_digest(self, left, right):
        return ref_pm.sha(self.inner_tag + self.seal_hash(left) + self.seal_hash(right))

    # seals and witnesses
    def seal_term(self, seal):
        return ('FakeSeal', seal[1]) if seal[0] == 'fake' else fx_seal.t_seal(seal[1:])

    def seal_real(self, seal):
        return FakeSingleUseSeal(committed_hash=seal[1]) if seal[0] == 'fake' else fx_seal.r_seal(seal[1:])

    def wit_term(self, w):
        return fx_seal.t_fake(w[1]) if w[0] == 'fake' else fx_seal.t_witness(*w[1:])

    def wit_real(self, w):
        return fx_seal.r_fake(w[1]) if w[0] == 'fake' else fx_seal.r_witness(*w[1:])

    def wit_accepts(self, w, digest):
        if w[0] == 'fake':
            return w[1] == digest
        o, otx = w[4], w[5]
        return o < len(otx[2]) and otx[2][o][1] in fx_seal.closing_scripts(digest).values()

    def map_seal(self, m):
        """the seal of a map, as plain data"""
        if m[0] == 'unused':
            return m[2]
        w = m[1] if m[0] == 'leaf' else m[2]
        return ('fake', w[1]) if w[0] == 'fake' else ('btc',) + w[1]

    def seal_hash(self, m):
        return self.schema.hash(self.seal_term(self.map_seal(m)))

    def map_prefix(self, m):
        return self.bits(m[2]) if m[0] == 'leaf' else m[1]

    def verifies(self, m):
        if m[0] == 'unused':
            return True
        if m[0] == 'leaf':
            return self.wit_accepts(m[1], self.leaf_digest(m[2], m[3]))
        return self.wit_accepts(m[2], self.inner_digest(m[3], m[4]))

    def term(self, m):
        if m[0] == 'unused':
            return ('%s.Unused' % self.name, m[1], self.seal_term(m[2]))
        if m[0] == 'leaf':
            return ('%s.Leaf' % self.name, self.wit_term(m[1]), self.model(self.key_kind, m[2]), self.model(self.value_kind, m[3]))
        return ('%s.Inner' % self.name, m[1], self.wit_term(m[2]), self.term(m[3]), self.term(m[4]))

    def build(self, m):
        """The object, through the plain proof constructor (fields given)"""
        from proofmarshal.proof import VarProof
        if m[0] == 'unused':
            return self.cls.UnusedPrefix(prefix=Bits(m[1]), seal=self.seal_real(m[2]))
        if m[0] == 'leaf':
            return self.cls.LeafPrefix(witness=self.wit_real(m[1]), key=self.real(self.key_kind, m[2]), value=self.real(self.value_kind, m[3]))
        return self.cls.InnerPrefix(prefix=Bits(m[1]), witness=self.wit_real(m[2]), left=self.build(m[3]), right=self.build(m[4]))

    def build_mixed(self, m, picks):
        """The object, with components that are themselves pruned views, some used; picks is consumed"""
        def mix(x):
            how = picks.pop() if picks else 0
            if how and hasattr(x, 'prune'):
                x = x.prune()
                if how & 2:
                    x.hash
                if how & 4:
                    fx_seal.verdict(x.verify) if hasattr(x, 'verify') else getattr(x, 'seal', None)
            return x
        if m[0] == 'unused':
            return self.cls.UnusedPrefix(prefix=Bits(m[1]), seal=mix(self.seal_real(m[2])))
        if m[0] == 'leaf':
            return self.cls.LeafPrefix(witness=mix(self.wit_real(m[1])), key=mix(self.real(self.key_kind, m[2])), value=mix(self.real(self.value_kind, m[3])))
        return self.cls.InnerPrefix(prefix=Bits(m[1]), witness=mix(self.wit_real(m[2])), left=mix(self.build_mixed(m[3], picks)), right=mix(self.build_mixed(m[4], picks)))

    def class_of(self, m):
        return {'unused': self.cls.UnusedPrefix, 'leaf': self.cls.LeafPrefix, 'inner': self.cls.InnerPrefix}[m[0]]


item = lambda: st.tuples(st.integers(0, 3), st.sampled_from([b'', b'a']))
FAMS = {
    'GMA': Fam('GMA', GMA, ('uint', 64), ('uint', 64), lambda: st.one_of(st.integers(0, 3), gen.uints(2**64 - 1)),
               lambda: st.one_of(st.integers(0, 3), gen.uints(2**64 - 1)), lambda f, k: ref_pm.bits_of(k.to_bytes(8, 'big'))),
    'GMB': Fam('GMB', GMB, ('fixed', 32), ('proof', 'Item'), gen.digest, item, lambda f, k: ref_pm.bits_of(k)),
    'GMC': Fam('GMC', GMC, ('proof', 'Item'), ('var', 0, 40), item, lambda: st.one_of(st.sampled_from([b'', b'a', b'\0']), gen.blob(40)),
               lambda f, k: ref_pm.bits_of(f.schema.hash(('Item',) + k))),
    'GMD': Fam('GMD', GMD, ('uint', 64), ('uint', 64), lambda: st.one_of(st.integers(0, 3), gen.uints(2**64 - 1)),
               lambda: st.one_of(st.integers(0, 3), gen.uints(2**64 - 1)), lambda f, k: ref_pm.bits_of(k.to_bytes(8, 'little'))),
    'GME': Fam('GME', GME, ('varlen', 'outpoint'), ('varlen', 'tx'),
               lambda: st.tuples(st.sampled_from([b'\0', b'\1']), st.one_of(st.integers(0, 3), st.integers(0, 2**32 - 1))).map(lambda t: R.ser_outpoint((t[0] * 32, t[1]))),
               lambda: st.tuples(st.integers(1, 2), st.lists(st.tuples(st.just(b'\3' * 32), st.integers(0, 2), st.sampled_from([b'', b'\1']), st.just(0)), min_size=1, max_size=2),
                                 st.lists(st.tuples(st.integers(0, 3), st.just(b'')), max_size=2), st.integers(0, 1)).map(R.ser_tx),
               lambda f, k: ref_pm.bits_of(k)),
    'GMF': Fam('GMF', GMF, ('hashed', 32), ('hashed', 32), gen.digest, gen.digest, lambda f, k: ref_pm.bits_of(k)),
}
# not one of FAMS, as it is slow
LONG = Fam('GMG', GMG, ('var', 0, 100000), ('var', 0, 100000), lambda: gen.blob(300), lambda: gen.blob(300), lambda f, k: ref_pm.bits_of(ref_pm.sha(k)))

METHS = ['op_return', 'p2sh', 'p2pkh']


def make_wit(fam, how, digest, seal):
    """A witness over a digest as plain data; how: ('fake',) or ('btc', meth, output index, extra output value)"""
    if how[0] == 'fake' or seal[0] == 'fake':
        return ('fake', digest)
    script = fx_seal.closing_scripts(digest)[how[1]]
    outs = [(how[3], b'\x51')] * how[2] + [(0, script)]
    tx = (1, [(seal[1], seal[2], b'', 2**32 - 1)], outs, 0)
    return ('btc', seal[1:], 0, tx, how[2], tx)


def seals():
    return st.one_of(st.tuples(st.just('fake'), gen.digest()), fx_seal.seal().map(lambda s: ('btc',) + s))


def hows():
    return st.one_of(st.just(('fake',)), st.tuples(st.just('btc'), st.sampled_from(METHS), st.integers(0, 2), st.integers(0, 2)),
                     st.tuples(st.just('btc'), st.sampled_from(METHS), st.integers(0, 2), st.integers(0, 2)))


bits_st = lambda: st.lists(st.integers(0, 1), max_size=9).map(tuple)


def recipes(w, depth=2):
    """How to make a map: ('unused', prefix, seal) | ('leaf', seal, how, key, value) | ('inner', seal, how, prefix, left, right) | ('children', left, right)"""
    fam = FAMS[w]
    base = st.one_of(st.tuples(st.just('unused'), bits_st(), seals()),
                     st.tuples(st.just('leaf'), seals(), hows(), fam.key(), fam.value()))
    s = base
    for _ in range(depth):
        s = st.one_of(base, st.tuples(st.just('inner'), seals(), hows(), bits_st(), s, s), st.tuples(st.just('children'), s, s))
    return s


def cook(fam, r):
    """recipe -> plain map"""
    if r[0] == 'unused':
        return r
    if r[0] == 'leaf':
        return ('leaf', make_wit(fam, r[2], fam.leaf_digest(r[3], r[4]), r[1]), r[3], r[4])
    if r[0] == 'inner':
        left, right = cook(fam, r[4]), cook(fam, r[5])
        return ('inner', r[3], make_wit(fam, r[2], fam.inner_digest(left, right), r[1]), left, right)
    left, right = cook(fam, r[1]), cook(fam, r[2])
    return ('inner', ref_pm.common(fam.map_prefix(left), fam.map_prefix(right)), ('fake', fam.inner_digest(left, right)), left, right)


def make(fam, r, calls):
    """recipe -> object, through the documented ways of making maps; calls collects what make_witness was asked"""
    if r[0] == 'unused':
        return fam.build(r)
    def witness_maker(how):
        def make_witness(seal, digest):
            calls.append((seal, digest))
            plain = ('fake', seal.committed_hash) if isinstance(seal, FakeSingleUseSeal) else ('btc', seal.outpoint.hash, seal.outpoint.n, seal.nonce)
            return fam.wit_real(make_wit(fam, how, digest, plain))
        return make_witness
    if r[0] == 'leaf':
        key, value = fam.real(fam.key_kind, r[3]), fam.real(fam.value_kind, r[4])
        u = fam.cls.UnusedPrefix(prefix=Bits(fam.bits(r[3])[:5]), seal=fam.seal_real(r[1]))
        return fam.cls.LeafPrefix.from_unused_prefix(u, key, value, witness_maker(r[2]))
    if r[0] == 'inner':
        left, right = make(fam, r[4], calls), make(fam, r[5], calls)
        u = fam.cls.UnusedPrefix(prefix=Bits(r[3]), seal=fam.seal_real(r[1]))
        return fam.cls.InnerPrefix.from_unused_prefix(u, left, right, witness_maker(r[2]))
    return fam.cls.InnerPrefix.from_children(make(fam, r[1], calls), make(fam, r[2], calls))
