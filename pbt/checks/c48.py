import hashlib

from hypothesis import strategies as st
import bitcoin
import bitcoin.core
from bitcoin.core import CheckBlock, CheckProofOfWork, CheckBlockHeaderError
from bitcoin.messages import msg_verack
from bitcoin.wallet import CBitcoinAddress, CBitcoinSecret, CBitcoinAddressError, P2PKHBitcoinAddress, P2SHBitcoinAddress
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises, outcome

RULE = """Sequences of up to eight selections, valid and invalid mixed, with every parameter read after each one through
both modules, and the dependent functions (addresses, secrets, message framing, proof of work, genesis block check) called.
All ordered pairs are enumerated. Non-trivial: at least two selections with different names."""
ASSUMPTIONS = ['DNS seeds are not claimed']

NETS = {
    'mainnet': {'magic': 'f9beb4d9', 'port': 8333, 'rpc': 8332, 'b58': {'PUBKEY_ADDR': 0, 'SCRIPT_ADDR': 5, 'SECRET_KEY': 128}, 'halving': 210000,
                'genesis': '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f', 'bits': 0x1d00ffff},
    'testnet': {'magic': '0b110907', 'port': 18333, 'rpc': 18332, 'b58': {'PUBKEY_ADDR': 111, 'SCRIPT_ADDR': 196, 'SECRET_KEY': 239}, 'halving': 210000,
                'genesis': '000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943', 'bits': 0x1d00ffff},
    'regtest': {'magic': 'fabfb5da', 'port': 18444, 'rpc': 18332, 'b58': {'PUBKEY_ADDR': 111, 'SCRIPT_ADDR': 196, 'SECRET_KEY': 239}, 'halving': 150,
                'genesis': '0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206', 'bits': 0x207fffff},
}
MERKLE = '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b'


def everything(net, what):
    n = NETS[net]
    for where, p in (('bitcoin.params', bitcoin.params), ('bitcoin.core.coreparams', bitcoin.core.coreparams)):
        w = '%s: %s.' % (what, where)
        eq(p.NAME, net, w + 'NAME')
        eq(p.PROOF_OF_WORK_LIMIT, R.POW_LIMIT[net], w + 'PROOF_OF_WORK_LIMIT')
        eq(p.SUBSIDY_HALVING_INTERVAL, n['halving'], w + 'SUBSIDY_HALVING_INTERVAL')
        g = p.GENESIS_BLOCK
        eq(g.GetHash()[::-1].hex(), n['genesis'], w + 'GENESIS_BLOCK')
        eq((g.nBits, g.hashPrevBlock, g.hashMerkleRoot[::-1].hex(), len(g.vtx)), (n['bits'], bytes(32), MERKLE, 1), w + 'GENESIS_BLOCK')
    p = bitcoin.params
    eq(p.MESSAGE_START.hex(), n['magic'], what + ': MESSAGE_START')
    eq((p.DEFAULT_PORT, p.RPC_PORT), (n['port'], n['rpc']), what + ': ports')
    eq(p.BASE58_PREFIXES, n['b58'], what + ': BASE58_PREFIXES')
    # what depends on it
    eq(CheckBlock(p.GENESIS_BLOCK), None, what + ': genesis block')
    for other in NETS:
        g = R.POW_LIMIT[other]
        bits = NETS[other]['bits']
        fine = R.pow_ok(bytes(32), bits, net)
        got = outcome(CheckProofOfWork, bytes(32), bits)
        ok((got[0] == 'ok') == fine, '%s: easiest work of %s: %r' % (what, other, got[1]))
    h = bytes(range(20))
    eq(str(P2PKHBitcoinAddress.from_bytes(h)), R.b58check(n['b58']['PUBKEY_ADDR'], h), what + ': address')
    eq(str(P2SHBitcoinAddress.from_bytes(h)), R.b58check(n['b58']['SCRIPT_ADDR'], h), what + ': address')
    eq(str(CBitcoinAddress.from_scriptPubKey(bitcoin.core.CScript(R.p2sh_script(h)))), R.b58check(n['b58']['SCRIPT_ADDR'], h), what + ': address')
    eq(str(CBitcoinSecret.from_secret_bytes(bytes(31) + b'\5')), R.b58check(n['b58']['SECRET_KEY'], bytes(31) + b'\5\1'), what + ': secret')
    for other in NETS:
        got = outcome(CBitcoinAddress, R.b58check(NETS[other]['b58']['PUBKEY_ADDR'], h))
        ok((got[0] == 'ok') == (NETS[other]['b58'] == n['b58']), '%s: address of %s: %r' % (what, other, got[1]))
    eq(msg_verack().to_bytes(bitcoin.params)[:4].hex(), n['magic'], what + ': message')


def check(case, T):
    current = None
    for name in case:
        if name in NETS:
            eq(bitcoin.SelectParams(name), None, 'SelectParams')
            current = name
        else:
            raises(ValueError, bitcoin.SelectParams, name, what='selecting %r' % (name,))
            T.label('invalid name')
        if current is not None:
            everything(current, 'after %r' % (case,))
    T.label('%d selections' % len(case))
    T.nt(len(set(case)) > 1)


def fresh(case, T):
    """Runs in a process that has not selected anything (the runner forks one for each case)"""
    if case:
        raises(ValueError, bitcoin.SelectParams, case, what='selecting %r' % case)
    everything('mainnet', 'by default')
    T.nt()


BAD = ['', 'Mainnet', 'MAINNET', 'main', 'mainnet ', 'testnet3', 'regression', 'signet', None, 0, b'mainnet', ('mainnet',)]
NAME = st.sampled_from(sorted(NETS))
SUBS = [
    Sub('default', fresh, enum=lambda: ['', 'nonet', 'Testnet'], fork=True, max_shards=1),
    Sub('pairs', check, enum=lambda: [(a, b) for a in list(NETS) + BAD for b in list(NETS) + BAD] + [(a, b, c) for a in NETS for b in NETS for c in NETS]),
    Sub('sequences', check, gen=st.lists(gen.mix(NAME, NAME, NAME, st.sampled_from(BAD)), min_size=1, max_size=8), quick=900),
    Sub('texts', check, gen=st.tuples(NAME, st.text(max_size=8).filter(lambda s: s not in NETS)), quick=600),
]
