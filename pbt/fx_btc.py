"""Strategies for Bitcoin structures as plain data, and the real objects made from them."""
from hypothesis import strategies as st

import bitcoin
import bitcoin.core
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CMutableOutPoint, CMutableTxIn, CMutableTxOut,
                          CMutableTransaction, CBlock, CBlockHeader)
from bitcoin.core.script import CScript

from . import gen, ref_btc as R

U32 = 2**32 - 1
EDGE32 = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def u32():
    return st.one_of(st.sampled_from(EDGE32), st.integers(0, U32), st.integers(0, 5))


def i32():
    return st.one_of(st.sampled_from([1, 2, 0, -1, 2**31 - 1, -2**31]), st.integers(-2**31, 2**31 - 1))


def i64():
    return st.one_of(st.sampled_from([0, 1, -1, 21 * 10**14, 21 * 10**14 + 1, 2**63 - 1, -2**63, 5 * 10**9]), st.integers(-2**63, 2**63 - 1),
                     st.integers(0, 10**6))


def hash32():
    return st.one_of(gen.fixed(32), st.integers(0, 3).map(lambda i: bytes([i]) * 32))


def raw_script(mx=64, big=True):
    """Any bytes at all"""
    opts = [st.binary(max_size=mx), st.just(b''), st.lists(op(), max_size=8).map(b''.join)]
    if big:
        opts.append(st.tuples(st.sampled_from([75, 76, 252, 253, 254, 255, 256, 300]), st.integers(0, 255)).map(lambda t: bytes([t[1]]) * t[0]))
    return gen.mix(*opts)


def op():
    """One valid operation, as bytes"""
    return st.one_of(
        st.integers(0x4f, 0xff).map(lambda b: bytes([b])),
        st.sampled_from([0xab, 0xac, 0xad, 0xae, 0xaf, 0x51, 0x52, 0x60, 0x61, 0x6a, 0x87, 0xa9]).map(lambda b: bytes([b])),
        st.binary(max_size=6).map(R.push),
        st.sampled_from([20, 32, 33, 65, 75, 76, 80, 255, 256, 300]).map(lambda n: R.push(b'\x2a' * n)),
        st.tuples(st.sampled_from([1, 2, 4]), st.binary(max_size=4)).map(
            lambda t: bytes([{1: 0x4c, 2: 0x4d, 4: 0x4e}[t[0]]]) + len(t[1]).to_bytes(t[0], 'little') + t[1]))


def valid_script(mx=8):
    """Whole operations only"""
    return st.lists(op(), max_size=mx).map(b''.join)


def outpoint():
    return st.tuples(hash32(), u32())


def txin(script=None):
    return st.tuples(hash32(), u32(), script or raw_script(), u32())


def txout(script=None, value=None):
    return st.tuples(value or i64(), script or raw_script())


def tx(max_in=3, max_out=3, script=None, value=None, min_in=0, min_out=0):
    return st.tuples(i32(), st.lists(txin(script), min_size=min_in, max_size=max_in), st.lists(txout(script, value), min_size=min_out, max_size=max_out), u32())


def small_tx():
    """Few distinct transactions, so duplicates are common"""
    i = st.integers(0, 2)
    return st.tuples(st.just(1), st.lists(st.tuples(i.map(lambda k: bytes([k]) * 32), i, st.just(b''), st.just(U32)), max_size=2),
                     st.lists(st.tuples(i, st.just(b'')), max_size=1), st.integers(0, 3))


def wide():
    """A transaction of many inputs and outputs, expanded by expand()"""
    n = st.one_of(st.sampled_from([15, 16, 17, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 300]), st.integers(4, 300))
    return st.tuples(st.just('wide'), i32(), n, n, st.binary(max_size=2), u32())


def expand(t):
    """A transaction as plain data, of the compact form of a wide one"""
    if t[0] != 'wide':
        return t
    _, version, nin, nout, salt, lock = t
    return (version, [(R.sha256(salt + bytes([i & 255, i >> 8])), i * 7 % 300, b'\x51' * (i % 3), U32 - i) for i in range(nin)],
            [(i * 1000 + 1, b'\x52' * (i % 4) + bytes([0x51 + i % 16])) for i in range(nout)], lock)


def index(mx=4):
    """An index into a list, in range or not, some of them coded: see at_index()"""
    return st.one_of(st.integers(0, mx), st.integers(0, 2), u32(), st.integers(ALIAS, ALIAS + 16 * 300))


ALIAS = 2**32


def at_index(i, n):
    """The 32 bit index meant by i in a list of n; coded ones alias an element, or are near the edges"""
    if i < ALIAS:
        return i
    k, p = i % 16, (i - ALIAS) // 16 % max(n, 1)
    return [p, p + 256, p + 2**16, p + 2**24, p + 2**31, 2**32 - n + p, 2**32 - 1 - p, n + p, 2 * n + p, p + 128, p + 2**15, n, max(n, 1) - 1, p ^ 0x80000000,
            p * 257, p << 8][k] % 2**32


def aliases(n):
    """Every out of range index at_index() codes"""
    return sorted(i for i in {at_index(ALIAS + 16 * p + k, n) for p in range(max(n, 1)) for k in range(16)} if i >= n)


def header():
    return st.tuples(i32(), hash32(), hash32(), u32(), u32(), u32())


def block(max_tx=4):
    return st.tuples(header(), st.lists(gen.mix(tx(2, 2), small_tx()), max_size=max_tx))


# ---- real objects

def r_outpoint(o, mutable=False):
    return (CMutableOutPoint if mutable else COutPoint)(o[0], o[1])


def r_txin(i, mutable=False):
    return (CMutableTxIn if mutable else CTxIn)(r_outpoint(i[:2], mutable), CScript(i[2]), i[3])


def r_txout(o, mutable=False):
    return (CMutableTxOut if mutable else CTxOut)(o[0], CScript(o[1]))


def r_tx(t, mutable=False):
    return (CMutableTransaction if mutable else CTransaction)(
        [r_txin(i, mutable) for i in t[1]], [r_txout(o, mutable) for o in t[2]], t[3], t[0])


def r_header(h):
    return CBlockHeader(nVersion=h[0], hashPrevBlock=h[1], hashMerkleRoot=h[2], nTime=h[3], nBits=h[4], nNonce=h[5])


def r_block(b):
    h = b[0]
    return CBlock(nVersion=h[0], hashPrevBlock=h[1], hashMerkleRoot=h[2], nTime=h[3], nBits=h[4], nNonce=h[5],
                  vtx=[r_tx(t) for t in b[1]])


REAL = {'outpoint': r_outpoint, 'txin': r_txin, 'txout': r_txout, 'tx': r_tx, 'header': r_header, 'block': r_block}
CLS = {'outpoint': COutPoint, 'txin': CTxIn, 'txout': CTxOut, 'tx': CTransaction, 'header': CBlockHeader, 'block': CBlock}


# ---- plain data of real objects

def p_outpoint(o):
    return (o.hash, o.n)


def p_txin(i):
    return (i.prevout.hash, i.prevout.n, bytes(i.scriptSig), i.nSequence)


def p_txout(o):
    return (o.nValue, bytes(o.scriptPubKey))


def p_tx(t):
    return (t.nVersion, [p_txin(i) for i in t.vin], [p_txout(o) for o in t.vout], t.nLockTime)


def p_header(h):
    return (h.nVersion, h.hashPrevBlock, h.hashMerkleRoot, h.nTime, h.nBits, h.nNonce)


def p_block(b):
    return (p_header(b), [p_tx(t) for t in b.vtx])


PLAIN = {'outpoint': p_outpoint, 'txin': p_txin, 'txout': p_txout, 'tx': p_tx, 'header': p_header, 'block': p_block}
