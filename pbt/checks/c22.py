from hypothesis import strategies as st
from bitcoin.core import CTransaction
from proofmarshal.proof import PrunedError
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template
from .. import gen, ref_btc as R, fx_btc, fx_seal
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """The template for arbitrary digests, one to many seals (also several on equal transaction ids or equal indexes),
methods and dust values is compared with the reference closing transaction, and for every seal a witness is made from it
and asked to verify, to verify the digest, and to verify other digests; also after transport. Non-trivial: two or more
seals."""
ASSUMPTIONS = ['The template is compared by content; whether it is a mutable transaction object is left open']


def close(case, T):
    digest, seals, meth, dust, other, extra = case
    reals = [fx_seal.r_seal(s) for s in seals]
    before = [s.serialize() for s in reals]
    kw = {}
    if meth is not None:
        kw['meth'] = meth
    if dust is not None:
        kw['dust'] = dust
    tx = make_close_seal_tx_template(digest, *reals, **kw)
    m = meth or 'op_return'
    value = 0 if m == 'op_return' else (600 if dust is None else dust)
    eq(len(tx.vin), len(seals), 'number of inputs')
    eq([(i.prevout.hash, i.prevout.n) for i in tx.vin], [s[:2] for s in seals], 'inputs')
    eq([bytes(i.scriptSig) for i in tx.vin], [b''] * len(seals), 'input scripts')
    eq(len(tx.vout), 1, 'number of outputs')
    eq(tx.vout[0].nValue, value, 'value')
    eq(bytes(tx.vout[0].scriptPubKey), fx_seal.closing_scripts(digest)[m], 'output script')
    # the same transaction with signatures added closes the seals too
    plain = fx_btc.p_tx(tx)
    if extra:
        plain = (plain[0], [(h, n, extra, q) for h, n, s, q in plain[1]], plain[2] + [(5, extra)], plain[3])
    itx = CTransaction.deserialize(R.ser_tx(plain))
    for i, seal in enumerate(seals):
        proof = TxProof(tx=itx)
        w = BitcoinSealWitness(seal=fx_seal.r_seal(seal), txinproof=TxInProof(i=i, txproof=proof), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=itx)))
        for v in (w, BitcoinSealWitness.deserialize(w.serialize()), w.prune()):
            ok(fx_seal.verdict(v.verify) is True, 'witness of seal %d of %d does not verify' % (i, len(seals)))
            ok(fx_seal.verdict(v.verify_hash, digest) is True, 'witness of seal %d does not verify the digest' % i)
            for d in (other, fx_seal.bitflip(digest, i), R.sha256(digest)):
                if d != digest:
                    ok(fx_seal.verdict(v.verify_hash, d) is not True, 'witness verifies another digest')
    eq([s.serialize() for s in reals], before, 'the seals afterwards')
    # making it again gives the same
    eq(fx_btc.p_tx(make_close_seal_tx_template(digest, *reals, **kw)), fx_btc.p_tx(tx), 'a second template')
    T.label(str(meth), '%s seals' % (len(seals) if len(seals) < 4 else '4+'))
    T.nt(len(seals) >= 2)


def many(case, T):
    digest, n, meth = case
    seals = [(bytes([i % 5]) * 32, i, bytes(16)) for i in range(n)]
    close((digest, seals, meth, None, bytes(32), b''), T)


def seals_st():
    return st.one_of(st.lists(fx_seal.seal(), min_size=1, max_size=6, unique_by=lambda s: s[:2]),
                     st.lists(st.tuples(st.sampled_from([b'\1' * 32, b'\2' * 32]), st.integers(0, 3), st.just(bytes(16))), min_size=1, max_size=8, unique_by=lambda s: s[:2]))


def close_gen():
    return st.tuples(gen.digest(), seals_st(), st.sampled_from([None, 'op_return', 'p2sh', 'p2pkh']),
                     st.one_of(st.none(), st.none(), st.sampled_from([0, 1, 546, 600, 10**8, 21 * 10**14])), gen.digest(), st.sampled_from([b'', b'', b'\1\1', b'\2' * 80]))


SUBS = [
    Sub('close', close, gen=close_gen, quick=10500),
    Sub('many', many, enum=lambda: iter([(bytes(range(32)), n, m) for n in (1, 2, 10, 60, 252, 253, 300) for m in ('op_return', 'p2sh', 'p2pkh')])),
]
