from hypothesis import strategies as st
from bitcoin.core import CBlock
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Lists of 0 to 70 transaction ids (every length is enumerated, as distinct ids) with random, equal and repeated
ids, and blocks of small and of repeated transactions, built directly and by deserialization, compared with a level-by-level reference.
Non-trivial: an odd number of nodes on some level above one."""
ASSUMPTIONS = ['Transactions of a block are given as lists or tuples; ids as any iterable']


def odd(n):
    while n > 1:
        if n % 2:
            return True
        n = (n + 1) // 2
    return False


def ids(case, T):
    hashes = list(case) if not isinstance(case, int) else [R.sha256(b'%d' % k) for k in range(case)]
    want = R.merkle_levels(hashes)
    for seq in (hashes, tuple(hashes), iter(hashes), (h for h in hashes), map(bytes, hashes)):
        eq(list(CBlock.build_merkle_tree_from_txids(seq)), want, 'tree of %d ids' % len(hashes))
    eq(hashes, list(case) if not isinstance(case, int) else [R.sha256(b'%d' % k) for k in range(case)], 'input changed')
    T.label('odd' if odd(len(hashes)) else 'even')
    T.nt(odd(len(hashes)))


def blocks(case, T):
    header, txs, mutable = case
    want = R.merkle_levels([R.txid(t) for t in txs])
    real = [F.r_tx(t, mutable) for t in txs]
    b = CBlock(nVersion=header[0], hashPrevBlock=header[1], hashMerkleRoot=header[2], nTime=header[3], nBits=header[4], nNonce=header[5], vtx=real)
    again = CBlock.deserialize(R.ser_block((header, txs)))
    eq(list(CBlock.build_merkle_tree_from_txs(real)), want, 'tree of transactions')
    for what, x in (('built', b), ('deserialized', again), ('from a tuple', CBlock(vtx=tuple(real))), ('from immutable ones', CBlock(vtx=[F.r_tx(t) for t in txs]))):
        eq(list(x.vMerkleTree), want, '%s: stored tree' % what)
        if txs:
            eq(x.calc_merkle_root(), want[-1], '%s: calculated root' % what)
        else:
            raises(ValueError, x.calc_merkle_root, what='%s: root of nothing' % what)
    eq((b.hashMerkleRoot, again.hashMerkleRoot), (header[2], header[2]), 'header field')
    if mutable and txs:
        # the block keeps its own transactions
        real[0].nLockTime ^= 1
        eq(b.calc_merkle_root(), want[-1], 'after changing a transaction the block was made from')
        eq(list(b.vMerkleTree), want, 'after changing a transaction the block was made from')
    T.label('%d transactions' % len(txs) if len(txs) < 8 else '8 or more')
    T.nt(odd(len(txs)))


def repeated(case):
    """A list of transactions with repeats, from few distinct ones"""
    n, picks = case
    txs = numbered(n)
    return [txs[k % n] for k in picks]


def numbered(n):
    return [(1, [(bytes([k % 256]) * 32, k, b'', 0)], [(k, b'')], 0) for k in range(n)]


IDS = gen.mix(st.lists(gen.fixed(32), max_size=20), st.lists(st.integers(0, 2).map(lambda k: bytes([k]) * 32), max_size=40),
              st.lists(st.binary(min_size=32, max_size=32), min_size=15, max_size=70))
SUBS = [
    Sub('ids', ids, gen=IDS, quick=3600, enum=lambda: list(range(0, 140)) + [k + d for k in (255, 511, 512, 767, 1023, 2047, 4095) for d in (-1, 0, 1, 2, 3)]),
    Sub('blocks', blocks, gen=st.tuples(F.header(), gen.mix(st.lists(F.small_tx(), max_size=9), st.lists(F.tx(2, 2), max_size=5), st.integers(0, 35).map(numbered),
                  st.tuples(st.integers(1, 6), st.lists(st.integers(0, 5), min_size=2, max_size=24)).map(repeated)),
                                        st.booleans()), quick=2100),
]
