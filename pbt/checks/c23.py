from hypothesis import strategies as st
from bitcoin.core import CTransaction, COutPoint
from bitcoin.core.serialize import SerializationError
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import DeserializationError
from proofchains.core.bitcoin import TxProof, OutPointProof, TxInProof, TxOutProof
from .. import gen, ref_btc as R, fx_btc, fx_seal, fx_pm, fx_used
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_seal.S

RULE = """Proofs of arbitrary transactions, and of their inputs, outputs and outpoints with indexes in and out of range, are
compared (hash, transaction id, wire bytes) with the reference whole, pruned before and after use, transported whole,
partly and fully pruned, and transported twice. Non-trivial: the transaction has inputs and outputs."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases', 'Transactions inside proofs are immutable CTransaction objects']


def txproof(case, T):
    tx, order = case
    tx = fx_btc.expand(tx)
    term = fx_seal.t_tx(tx)
    txid = R.txid(tx)
    want = S.hash(term)
    p = fx_seal.r_txproof(tx)
    full = S.wire(term)
    gone = S.wire(term, None)
    views = [('whole', p, True), ('pruned', p.prune(), True), ('pruned twice', p.prune().prune(), True), ('transported', TxProof.deserialize(full), True),
             ('digest', TxProof.deserialize(gone), False), ('digest pruned', TxProof.deserialize(gone).prune(), False)]
    used = p.prune()
    used.tx
    views.append(('used', used, True))
    eq(p.prune().serialize(), gone, 'wire of a pruned proof')
    eq(used.serialize(), full, 'wire of a used proof')
    eq(p.serialize(), full, 'wire')
    if order:
        views.reverse()
    for name, v, has in views:
        if order & 1:
            eq(v.txhash, txid, '%s: txhash' % name)
        eq(v.hash, want, '%s: hash' % name)
        eq(v.txhash, txid, '%s: txhash' % name)
        ok(v == p and hash(v) == hash(p), '%s: equality' % name)
        if has:
            eq(fx_btc.p_tx(v.tx), tx, '%s: transaction' % name)
            eq(v.tx.GetHash(), txid, '%s: id of the transaction' % name)
        else:
            raises(PrunedError, getattr, v, 'tx', what='%s: transaction' % name)
            eq(v.serialize(), gone, '%s: wire' % name)
            eq(TxProof.deserialize(v.serialize()).txhash, txid, '%s: txhash transported again' % name)
        eq(v.hash, want, '%s: hash afterwards' % name)
    eq(used.prune().txhash, txid, 'txhash of a used proof pruned')
    T.nt(bool(tx[1] and tx[2]))


def make(kind, i, tx):
    if kind == 'in':
        return fx_seal.r_in(i, tx), fx_seal.t_in(i, tx), TxInProof
    if kind == 'out':
        return fx_seal.r_out(i, tx), fx_seal.t_out(i, tx), TxOutProof
    return OutPointProof(txproof=fx_seal.r_txproof(tx), n=i), fx_seal.t_outpoint(tx, i), OutPointProof


def exposed(v, kind):
    return fx_btc.p_txin(v.txin) if kind == 'in' else fx_btc.p_txout(v.txout)


def parts(case, T):
    tx, kind, i = case
    tx = fx_btc.expand(tx)
    i = fx_btc.at_index(i, len(tx[1] if kind == 'in' else tx[2]))
    p, term, cls = make(kind, i, tx)
    want = S.hash(term)
    if fx_used.sometimes(case):
        fx_used.use(p)
        T.label('used before')
    eq(p.hash, want, 'hash')
    eq(p.serialize(), S.wire(term), 'wire')
    eq(p.prune().serialize(), S.wire(term, None), 'wire of a fully pruned one')
    q = p.prune()
    (q.n if kind == 'point' else q.i)
    eq(q.serialize(), S.wire(term, {'txproof': None}), 'wire with only the index used')
    thin = cls.deserialize(q.serialize())
    eq(thin.hash, want, 'hash of a thin one')
    eq(thin.txproof.txhash, R.txid(tx), 'transaction id of a thin one')
    eq(thin.n if kind == 'point' else thin.i, i, 'index of a thin one')
    eq(thin.serialize(), q.serialize(), 're-serialization')
    gone = cls.deserialize(p.prune().serialize())
    eq(gone.hash, want, 'hash of a fully pruned one')
    ok(gone == p and thin == p, 'equality')
    raises(PrunedError, getattr, gone, 'txproof')
    views = {'whole': p, 'pruned': p.prune(), 'transported': cls.deserialize(p.serialize())}
    if kind != 'point':
        lst = tx[1] if kind == 'in' else tx[2]
        u = p.prune()
        outcome(u.verify)
        outcome(getattr, u, 'txin' if kind == 'in' else 'txout')
        views['used and transported'] = cls.deserialize(u.serialize())
        u = p.prune()
        fx_seal.verdict(u.verify)
        views['verified and transported'] = cls.deserialize(u.serialize())
        u = p.prune()
        if i < len(lst):
            exposed(u, kind)
            views['looked at and transported'] = cls.deserialize(u.serialize())
        for name, v in views.items():
            r = fx_seal.verdict(v.verify)
            eq(r is True, i < len(lst), '%s: verifies' % name)
            ok(not isinstance(r, PrunedError), '%s: pruned error' % name)
            if i < len(lst):
                eq(exposed(v, kind), lst[i], '%s: the indexed part' % name)
            else:
                ok(outcome(exposed, v, kind)[0] == 'exc', '%s: part %d of %d' % (name, i, len(lst)))
            eq(v.hash, want, '%s: hash' % name)
        raises(PrunedError, thin.verify, what='thin one verifying')
        raises(PrunedError, gone.verify, what='pruned one verifying')
        T.label('in range' if i < len(lst) else 'out of range')
    else:
        for name, v in views.items():
            eq(v.n, i, '%s: index' % name)
            eq(v.txproof.txhash, R.txid(tx), '%s: txhash' % name)
            eq(v.hash, want, '%s: hash' % name)
    T.label(kind)
    T.nt(bool(tx[1] and tx[2]))


def binding(case, T):
    """Proofs over different transactions, indexes or kinds differ"""
    a, i, how, k, j = case
    from .c21 import tweak_tx
    a = fx_btc.expand(a)
    i, j = (fx_btc.at_index(x, len(a[2])) for x in (i, j))
    b = tweak_tx(a, how, k)
    seen = {}
    for tx in (a, b):
        eq(fx_seal.r_txproof(tx).hash, S.hash(fx_seal.t_tx(tx)), 'hash')
        for n in (i, j):
            for kind in ('in', 'out', 'point'):
                p, term, cls = make(kind, n, tx)
                key = (kind, n, R.ser_tx(tx))
                eq(p.hash, S.hash(term), 'hash')
                if p.hash in seen:
                    eq(seen[p.hash], key, 'same hash')
                seen[p.hash] = key
    eq(len(seen), 3 * len({i, j}) * len({R.ser_tx(a), R.ser_tx(b)}), 'distinct hashes')
    eq(fx_seal.r_txproof(a) == fx_seal.r_txproof(b), a == b, 'equality')
    T.label(how)
    T.nt(a != b)


def garbage(case, T):
    """Bytes near valid encodings: an error, or something that serializes to the same bytes"""
    tx, kind, i, muts = case
    i = fx_btc.at_index(i, 1)
    p, term, cls = make(kind, i, tx)
    data = gen.mutate(S.wire(term), muts)
    r = outcome(cls.deserialize, data)
    if r[0] == 'ok':
        ok(r[1].serialize() == data or not minimal(data, cls), 'reads and writes back different bytes')
        T.label('reads')
    else:
        ok(isinstance(r[1], (DeserializationError, SerializationError)), 'raised %r' % (r[1],))
        T.label('refused')
    T.nt(data != S.wire(term))


def minimal(data, cls):
    """Are the sizes inside the transaction minimal (non-minimal CompactSizes are legal there)?"""
    name = {v: k for k, v in fx_seal.CLASSES.items()}[cls]
    parsed = S.parse(('proof', name), data)
    txb = [x for x in parsed[1:] if isinstance(x, tuple)][0]
    if txb[0] == 'PRUNED':
        return True
    rd = R.Reader(txb[1])
    rd.tx()
    return rd.minimal


KIND = st.sampled_from(['in', 'out', 'point'])


def index():
    return fx_btc.index()


def any_tx(*args):
    """Many with few inputs and outputs, some with hundreds"""
    return gen.mix(fx_btc.tx(*args), fx_btc.tx(*args), fx_btc.tx(*args), fx_btc.tx(*args), fx_btc.wide())


def large(case, T):
    """Transactions of tens of thousands of bytes, and of exactly the sizes at which lengths grow"""
    size, where, i = case
    fixed = (1, [(b'\1' * 32, 0, b'', 5)], [(7, b''), (8, b'\x51')], 0)
    grow = lambda s: (1, [(b'\1' * 32, 0, s if where == 'in' else b'', 5)], [(7, s if where == 'out' else b''), (8, b'\x51')], 0)
    s = max(0, size - len(R.ser_tx(fixed)))
    while len(R.ser_tx(grow(bytes(s)))) > size and s:
        s -= 1
    tx = grow((b'%d.' % size * (s // 2 + 1))[:s])
    txproof((tx, i), T)
    for kind in ('in', 'out', 'point'):
        parts((tx, kind, i % 3), T)
    T.label('under 64k' if size < 2**16 else '64k and over')
    T.nt()


SUBS = [
    Sub('txproof', txproof, gen=lambda: st.tuples(any_tx(), st.integers(0, 3)), quick=6000, heavy=True),
    Sub('parts', parts, gen=lambda: st.tuples(any_tx(), KIND, index()), quick=9000, heavy=True),
    Sub('binding', binding, gen=lambda: st.tuples(any_tx(2, 2), index(), st.sampled_from(['same', 'version', 'lock', 'seq', 'sig', 'value', 'script', 'order', 'outorder']),
        st.integers(0, 5), index()), quick=2400),
    Sub('garbage', garbage, gen=lambda: st.tuples(fx_btc.tx(2, 2, st.binary(max_size=4)), KIND, index(), gen.mutations(2, 1)), quick=6000),
    Sub('large', large, enum=lambda: iter([(size, where, i) for i, size in enumerate([127, 128, 129, 252, 253, 300, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 131071, 131072, 200000, 2**21 - 1, 2**21]) for where in ('in', 'out')])),
]
