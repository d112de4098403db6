from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness
from .. import gen, ref_btc as R, fx_btc, fx_seal, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_seal.S

RULE = """A seal, an input transaction with several inputs (one of them usually the seal's outpoint), an input index and an
output proof over the same, an equal, or a slightly different transaction are combined into a witness. verify() must
accept exactly when the seal's outpoint is the one at the index and the transaction ids agree: directly, pruned, after
transport whole, with the output's transaction known by a wrong id only (every bit), and pruned to what verification used, and never when too pruned to decide. Non-trivial: exactly one of
the two conditions is decisive (outpoint near miss, or transactions differing slightly), or it verifies."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases']


def tweak_tx(tx, how, i):
    v, vin, vout, lock = tx
    if how == 'same':
        return tx
    if how == 'version':
        return (v ^ 1, vin, vout, lock)
    if how == 'lock':
        return (v, vin, vout, lock ^ 1)
    if how == 'seq' and vin:
        k = i % len(vin)
        h, n, s, q = vin[k]
        return (v, vin[:k] + [(h, n, s, q ^ 1)] + vin[k + 1:], vout, lock)
    if how == 'sig' and vin:
        k = i % len(vin)
        h, n, s, q = vin[k]
        return (v, vin[:k] + [(h, n, s + b'\0', q)] + vin[k + 1:], vout, lock)
    if how == 'value' and vout:
        k = i % len(vout)
        return (v, vin, vout[:k] + [(vout[k][0] ^ 1, vout[k][1])] + vout[k + 1:], lock)
    if how == 'script' and vout:
        k = i % len(vout)
        return (v, vin, vout[:k] + [(vout[k][0], vout[k][1] + b'\0')] + vout[k + 1:], lock)
    if how == 'order':
        return (v, vin[::-1], vout, lock)
    if how == 'outorder':
        return (v, vin, vout[::-1], lock)
    return tx


def near_outpoint(seal, how, i):
    h, n = seal[:2]
    if how == 'same':
        return (h, n)
    if how == 'n':
        return (h, (n + 1 + i) % 2**32)
    if how == 'nbit':
        return (h, n ^ (1 << (i % 32)))
    if how == 'hash':
        return (fx_seal.bitflip(h, i), n)
    if how == 'rev':
        return (h[::-1], n)
    return (R.sha256(h), n)


def build_case(case):
    seal, pos, how_out, k, others, i, outs, o, how_tx, base = case
    op = near_outpoint(seal, how_out, k)
    vin = [(h, n, s, q) for h, n, s, q in others]
    vin.insert(pos % (len(vin) + 1), op + (b'', 2**32 - 1))
    if base[2]:
        # many inputs before it, distinct and unrelated
        fill = [(R.sha256(bytes([j & 255, j >> 8])), j, b'', j) for j in range(base[2])]
        vin, pos = fill + vin, pos % len(vin) + base[2]
    itx = (base[0], vin, outs, base[1])
    at = pos % len(vin) if i < 0 else fx_btc.at_index(i, len(vin)) if i >= 16 else (i + base[2]) % (len(vin) + 2)
    otx = tweak_tx(itx, how_tx, k)
    return seal, itx, at, otx, o


def verify(case, T):
    seal, itx, i, otx, o = build_case(case)
    inrange = i < len(itx[1])
    want = inrange and itx[1][i][:2] == seal[:2] and itx == otx
    w = fx_seal.r_witness(seal, i, itx, o, otx)
    term = fx_seal.t_witness(seal, i, itx, o, otx)
    eq(w.hash, S.hash(term), 'hash')
    eq(w.serialize(), S.wire(term), 'serialization')
    if fx_used.sometimes(case):
        fx_used.use(w)
        T.label('used before')
    used = w.prune()
    views = {'direct': w, 'used': used, 'transported': BitcoinSealWitness.deserialize(w.serialize())}
    for name, v in views.items():
        r = fx_seal.verdict(v.verify)
        eq(r is True, want, name)
        ok(not isinstance(r, PrunedError), '%s: pruned error' % name)
    q = BitcoinSealWitness.deserialize(used.serialize())
    eq(q.hash, w.hash, 'hash of the pruned witness read back')
    r = fx_seal.verdict(q.verify)
    eq(r is True, want, 'pruned to what verification used and read back')
    ok(not isinstance(r, PrunedError), 'pruned to what verification used: pruned error')
    r = fx_seal.verdict(w.verify)
    eq(r is True, want, 'a second time')
    if inrange:
        T.label('input %s' % ('matches' if itx[1][i][:2] == seal[:2] else 'differs'))
    T.label('tx same' if itx == otx else 'tx differs', 'verifies' if want else 'refused', case[2], case[8])
    T.nt(want or (inrange and (itx[1][i][:2] == seal[:2]) != (itx == otx)))


def pruned(case, T):
    """Any part may be missing: correct verdict or pruned error, never a wrong one"""
    case, cut = case
    seal, itx, i, otx, o = build_case(case)
    want = i < len(itx[1]) and itx[1][i][:2] == seal[:2] and itx == otx
    term = fx_seal.t_witness(seal, i, itx, o, otx)
    tree = {'seal': {} if cut & 1 else None,
            'txinproof': {'txproof': {} if cut & 2 else None} if cut & 4 else None,
            'txoutproof': {'txproof': {} if cut & 8 else None} if cut & 16 else None}
    v = BitcoinSealWitness.deserialize(S.wire(term, tree))
    eq(v.hash, S.hash(term), 'hash')
    r = fx_seal.verdict(v.verify)
    if r is True:
        ok(want, 'a pruned witness verifies, the whole one does not')
    missing = not cut & 1 or not cut & 2 or not cut & 4 or not cut & 16
    if missing and (want or not isinstance(r, PrunedError)):
        # what is needed to say yes is not there
        ok(r is not True, 'verifies without the parts needed')
        if want:
            ok(isinstance(r, PrunedError), 'raised %r rather than a pruned error' % (r,))
    if not missing:
        if cut & 8 or not isinstance(r, PrunedError):
            eq(r is True, want, 'verdict with everything needed')
            ok(not isinstance(r, PrunedError), 'pruned error with everything needed')
    # fully pruned
    v = BitcoinSealWitness.deserialize(S.wire(term, None))
    raises(PrunedError, v.verify, what='fully pruned witness')
    T.label('missing' if missing else 'enough', 'cut %d' % cut)
    T.nt(True)


def hidden(case, T):
    """The output proof's transaction is known by its id only, which differs anywhere or nowhere"""
    seal, bit, cut = case
    tx = (1, [seal[:2] + (b'', 0)], [(1, b'\x51')], 0)
    txid = R.txid(tx)
    if bit >= 0:
        txid = fx_seal.bitflip(txid, bit)
    # an output proof whose transaction proof is a pruned one with that id
    b = S.wire(fx_seal.t_witness(seal, 0, tx, 0, tx), {'seal': {}, 'txinproof': {'txproof': {}}, 'txoutproof': {'txproof': None}})
    ok(b.count(R.txid(tx)) == 1 and b.endswith(R.txid(tx)), 'a witness with a pruned output transaction ends with its id')
    v = BitcoinSealWitness.deserialize(b[:-32] + txid)
    r = fx_seal.verdict(v.verify)
    eq(r is True, bit < 0, 'output transaction id differing in bit %d' % bit)
    ok(not isinstance(r, PrunedError), 'pruned error')
    T.nt()


def case_gen():
    hows = ['same', 'same', 'same', 'n', 'nbit', 'hash', 'rev', 'other']
    txs = ['same', 'same', 'same', 'version', 'lock', 'seq', 'sig', 'value', 'script', 'order', 'outorder']
    return st.tuples(fx_seal.seal(), st.integers(0, 3), st.sampled_from(hows), st.integers(0, 300), st.lists(fx_btc.txin(st.binary(max_size=3)), max_size=3),
                     st.one_of(st.just(-1), st.just(-1), st.integers(0, 5), st.integers(fx_btc.ALIAS, fx_btc.ALIAS + 16 * 300)), st.lists(fx_btc.txout(st.binary(max_size=30)), max_size=2),
                     fx_btc.u32(), st.sampled_from(txs),
                     st.tuples(st.integers(1, 2), fx_btc.u32(), st.one_of(st.just(0), st.just(0), st.just(0), st.sampled_from([1, 63, 127, 128, 252, 253, 255, 256, 257, 300]))))


SUBS = [
    Sub('verify', verify, gen=case_gen, quick=13500, heavy=True, optimized=400),
    Sub('hidden', hidden, enum=lambda: iter([((bytes([k]) * 32, k, bytes(16)), bit, 0) for k in (1, 2) for bit in range(-1, 256)])),
    Sub('pruned', pruned, gen=lambda: st.tuples(case_gen(), st.one_of(st.integers(0, 31), st.just(31), st.sampled_from([23, 21, 30, 29, 15]))), quick=7500),
]
