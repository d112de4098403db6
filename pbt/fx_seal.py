"""Seals, witnesses and transaction proofs, with their reference schema and a model of what verifies."""
from hypothesis import strategies as st

import bitcoin.core
from bitcoin.core import COutPoint, CTransaction
from proofchains.core.bitcoin import TxProof, OutPointProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import (FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal, BitcoinSealWitness)

from . import gen, ref_pm, ref_btc as R, fx_btc

PAD = bytes.fromhex('4cf810b73dc605fbe6c2156a7041e370f4750e39d2d1573199c772c7324bd054')


class SealSchema(ref_pm.Schema):
    """A transaction proof commits to the transaction id"""
    def data_hash(self, term):
        if term[0] == 'TxProof':
            return R.sha256d(term[1])
        return super().data_hash(term)

    def hash(self, term):
        if term[0] == 'TxProof':
            return bytes(a ^ b for a, b in zip(self.data_hash(term), PAD))
        return super().hash(term)

    def hash_read(self, v):
        if v[0] == 'TxProof':
            return self.hash(v)
        if v[0] == 'PRUNED' and v[1] == 'TxProof':
            return bytes(a ^ b for a, b in zip(v[2], PAD))
        return super().hash_read(v)


def schema():
    S = SealSchema()
    t = ref_pm.tag
    S.add('TxProof', None, [('tx', ('varlen',))])
    S.add('OutPointProof', t('557eb533-63be-497d-b163-7d1875de9681'), [('txproof', ('proof', 'TxProof')), ('n', ('uint', 32))])
    S.add('TxInProof', t('65d34d83-3291-4813-9119-bd7e29b9dea3'), [('i', ('uint', 32)), ('txproof', ('proof', 'TxProof'))])
    S.add('TxOutProof', t('ed624663-7a20-4dd6-8980-9870003dfbe7'), [('i', ('uint', 32)), ('txproof', ('proof', 'TxProof'))])
    S.add('FakeSeal', t('e5690d73-16e3-4f8f-bd4f-148c32d37baf'), [('committed_hash', ('fixed', 32))])
    S.add('FakeWitness', t('a5092f56-3a31-476a-ac81-1b00211140eb'), [('seal', ('proof', 'FakeSeal'))])
    S.add('BtcSeal', t('b59093bf-527f-4d2a-9a51-3c2e3d2f0c25'), [('outpoint', ('varlen',)), ('nonce', ('fixed', 16))])
    S.add('BtcWitness', t('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd'),
          [('seal', ('proof', 'BtcSeal')), ('txinproof', ('proof', 'TxInProof')), ('txoutproof', ('proof', 'TxOutProof'))])
    return S


S = schema()
CLASSES = {'TxProof': TxProof, 'OutPointProof': OutPointProof, 'TxInProof': TxInProof, 'TxOutProof': TxOutProof, 'FakeSeal': FakeSingleUseSeal,
           'FakeWitness': FakeSealWitness, 'BtcSeal': BitcoinSingleUseSeal, 'BtcWitness': BitcoinSealWitness}


# ---- terms from plain data

def t_tx(tx):
    return ('TxProof', R.ser_tx(tx))


def t_in(i, tx):
    return ('TxInProof', i, t_tx(tx))


def t_out(i, tx):
    return ('TxOutProof', i, t_tx(tx))


def t_outpoint(tx, n):
    return ('OutPointProof', t_tx(tx), n)


def t_fake(d):
    return ('FakeWitness', ('FakeSeal', d))


def t_seal(seal):
    """seal: (txid, n, nonce)"""
    return ('BtcSeal', R.ser_outpoint(seal[:2]), seal[2])


def t_witness(seal, i, itx, o, otx):
    return ('BtcWitness', t_seal(seal), t_in(i, itx), t_out(o, otx))


# ---- real objects

def r_seal(seal):
    return BitcoinSingleUseSeal(outpoint=COutPoint(seal[0], seal[1]), nonce=seal[2])


def r_txproof(tx):
    return TxProof(tx=fx_btc.r_tx(tx))


def r_in(i, tx):
    return TxInProof(i=i, txproof=r_txproof(tx))


def r_out(i, tx):
    return TxOutProof(i=i, txproof=r_txproof(tx))


def r_witness(seal, i, itx, o, otx):
    return BitcoinSealWitness(seal=r_seal(seal), txinproof=r_in(i, itx), txoutproof=r_out(o, otx))


def r_fake(d):
    return FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=d))


# ---- what closes what

def closing_scripts(digest):
    h = R.hash160(digest)
    return {'op_return': b'\x6a\x20' + digest, 'p2sh': R.p2sh_script(h), 'p2pkh': R.p2pkh_script(h)}


def verdict(fn, *args):
    """True, or the exception that refused"""
    try:
        fn(*args)
    except Exception as e:
        return e
    return True


def seal():
    return st.tuples(fx_btc.hash32(), st.one_of(st.integers(0, 3), fx_btc.u32()), gen.fixed(16))


def digest():
    return gen.digest()


def bitflip(d, i):
    b = bytearray(d)
    b[i // 8 % len(b)] ^= 1 << (i % 8)
    return bytes(b)
