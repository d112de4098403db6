"""Operations of every module, each closed: made from plain data, giving a plain outcome.

OPS maps a name to (function, strategy of its arguments, may run in threads).  A function returns a view, which when called gives
the plain outcome, and can be called again later to see whether the objects it looks at are still what they were.
"""
import io

from hypothesis import strategies as st

import bitcoin
import bitcoin.core
from bitcoin.base58 import CBase58Data
from bitcoin.bloom import CBloomFilter, MurmurHash3
from bitcoin.core import b2lx, b2x, lx, str_money_value, x, CheckBlock, CheckBlockHeader, CheckProofOfWork, CheckTransaction, CBlock, COutPoint
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript, CScriptOp, FindAndDelete, OP_RETURN, SignatureHash, RawSignatureHash
from bitcoin.core.scripteval import EvalScript, SCRIPT_VERIFY_P2SH, VerifyScript, VerifySignature
from bitcoin.core.serialize import VarIntSerializer, BytesSerializer, uint256_from_compact
from bitcoin.core import _bignum
from bitcoin.messages import MsgSerializable
from bitcoin.net import CAddress
from bitcoin.wallet import CBitcoinAddress, CBitcoinSecret, P2PKHBitcoinAddress, P2SHBitcoinAddress
import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer

from . import gen, ref_btc as R, ref_ec as E, ref_pm, fx_btc as F, fx_sig as K, fx_pm, fx_tree, fx_mbt, fx_mmr, fx_seal, fx_gumap, fx_script as X

OPS = {}


def op(name, args, threads=True):
    def deco(fn):
        OPS[name] = (fn, args, threads)
        return fn
    return deco


def plain(v):
    """Plain, and of a repr that does not depend on the process"""
    if isinstance(v, (bool, int, str, type(None), float)):
        return v
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(e) for e in v)
    if isinstance(v, dict):
        return tuple((plain(a), plain(b)) for a, b in v.items())
    raise SystemExit("harness: not plain: %r" % (v,))


def guarded(fn):
    try:
        return ('ok', plain(fn()))
    except Exception as e:
        return ('exc', type(e).__name__)


def start(o):
    """Runs an operation -> (outcome, view or None)"""
    fn = OPS[o[0]][0]
    try:
        view = fn(*o[1:])
    except Exception as e:
        return ('exc', type(e).__name__), None
    return guarded(view), view


def strategy(threads=False, names=None):
    return gen.mix(*[v[1].map(lambda a, n=n: (n,) + tuple(a)) for n, v in sorted(OPS.items()) if (v[2] or not threads) and (names is None or n in names)])


T = st.tuples
small = st.integers(0, 3)
few_bytes = st.sampled_from([b'', b'\0', b'a', b'ab', b'\xff' * 3])
dig = st.integers(0, 2).map(lambda i: bytes([i]) * 32)


# ---- proofmarshal

@op('pm-serialize', T(st.sampled_from(['bool', 'u8', 'u16', 'u32', 'u64', 'fix2', 'var3', 'dig']),
                      st.sampled_from([True, False, 0, 1, 255, 256, 2**64 - 1, b'', b'ab', b'abc', b'\1' * 32, 'ab', None, -1])))
def _ser(kind, v):
    s = {'bool': ps.SerBool, 'u8': ps.UInt8, 'u16': ps.UInt16, 'u32': ps.UInt32, 'u64': ps.UInt64, 'fix2': ps.FixedBytes(2), 'var3': ps.VarBytes(3), 'dig': ps.Digest}[kind]
    s.check_instance(v)
    b = s.serialize(v)
    return lambda: (b, s.deserialize(b), s.calc_hash(v) if hasattr(s, 'calc_hash') else None)


@op('pm-deserialize', T(st.sampled_from(['bool', 'u8', 'u32', 'u64', 'fix2', 'var3', 'bits']), st.sampled_from([b'', b'\0', b'\1', b'\xff', b'ab', b'\x80\1', b'\x80\0', b'\3abc', b'\3\xe0', b'\3\xff', b'\xff' * 9, b'\2a'])))
def _deser(kind, b):
    s = {'bool': ps.SerBool, 'u8': ps.UInt8, 'u32': ps.UInt32, 'u64': ps.UInt64, 'fix2': ps.FixedBytes(2), 'var3': ps.VarBytes(3), 'bits': BitsSerializer}[kind]
    v = s.deserialize(b)
    return lambda: tuple(v) if isinstance(v, Bits) else v


bits_arg = st.one_of(st.lists(st.integers(0, 1), max_size=10).map(tuple), st.sampled_from([(1,) * 8, (1,) * 9, (0,) * 8, (0, 1) * 5]))


@op('bits', T(bits_arg, bits_arg, st.integers(-4, 9), st.integers(-4, 12)))
def _bits(a, b, i, j):
    p, q = Bits(a), Bits.from_bytes(ref_pm.pack_bits(b), len(b))
    r = (p + q)[i:j]

    def view():
        return (tuple(r), tuple(~r), tuple(p), tuple(q), p == q, p < q, p.startswith(q), tuple(p.common_prefix(q)), BitsSerializer.serialize(r), len(r),
                [tuple(s) for s in sorted([p, q, r])], repr(r))
    return view


@op('proof', T(fx_pm.any_term(small=True), st.integers(0, 3)))
def _proof(term, path):
    p = fx_pm.build(term)
    paths = fx_pm.paths(term)
    q = p.prune()
    if paths:
        try:
            fx_pm.walk(q, paths[path % len(paths)])
        except fx_pm.PrunedError:
            pass
    wire = q.serialize()
    again = fx_pm.top_class(term[0]).deserialize(wire)

    def view():
        return p.hash, p.serialize(), wire, again.hash, again.serialize(), type(again).__name__, again == p, p == fx_pm.build(term)
    return view


@op('proof-pair', T(fx_pm.any_term(small=True), fx_pm.any_term(small=True)))
def _proof_pair(a, b):
    p, q = fx_pm.build(a), fx_pm.build(b)
    return lambda: (p == q, p != q, p == fx_pm.build(a), len({p, q, fx_pm.build(b)}), p.hash == q.hash)


@op('proof-deserialize', T(fx_pm.any_term(small=True), gen.mutations(2)))
def _proof_deser(term, muts):
    b = gen.mutate(fx_pm.build(term).serialize(), muts)
    p = fx_pm.top_class(term[0]).deserialize(b)
    return lambda: (p.hash, p.serialize(), type(p).__name__)


@op('proof-bad', T(st.sampled_from([0, -1, 2**32, 'x', None]), st.sampled_from([b'', b'a' * 301, 'a', None])))
def _proof_bad(n, data):
    p = fx_pm.Leaf(n=n, data=data, four=b'abcd', flag=True, dig=bytes(32), bits=Bits())
    return lambda: (p.hash, p.serialize())


@op('mmr', T(st.sampled_from(fx_tree.MMRS), st.lists(small, max_size=9), st.integers(-3, 9), st.integers(-3, 9)))
def _mmr(which, ks, i, j):
    fam = fx_tree.FAMILIES[which]
    m = fam.build([fx_mmr.val(which, k) for k in ks])
    n = m[i:j]
    p = m.prune()
    e = guarded(lambda: fam.unreal(p[i]))
    w = p.serialize()
    d = fam.cls.deserialize(w)

    def view():
        return (m.hash, len(m), [fam.unreal(v) for v in m], n.hash, [fam.unreal(v) for v in n], e, w, d.hash, guarded(lambda: fam.unreal(d[i])), m == n, m.append(fam.real(fx_mmr.val(which, 1))).hash)
    return view


def mbt_keys(which):
    return {'MBTA': [b'\0', b'\1', b'\x80', b'\xff'], 'MBTE': [b'\0', b'\1', b'\x80', b'\xff'], 'MBTF': [bytes(40), bytes(39) + b'\1', bytes(32) + b'\1' * 8, b'\1' * 40], 'MBTB': [bytes(32), b'\1' * 32, b'\1' * 31 + b'\0', b'\xff' * 32], 'MBTC': [0, 1, 2, 1024],
            'MBTP': [b'aa', b'ab', b'ba', b'\0\0'], 'MBTD': [(0, b''), (1, b''), (0, b'x'), (2, b'yy')]}[which]


def mbt_val(which, k):
    return {'MBTA': k, 'MBTE': k, 'MBTF': k * (2**61 - 1), 'MBTB': b'v' * k, 'MBTC': k, 'MBTP': (k, b''), 'MBTD': b'v' * k}[which]


@op('mbt', T(st.sampled_from(fx_tree.MBTS), st.lists(T(small, small), max_size=5), small, small))
def _mbt(which, items, i, j):
    fam = fx_tree.FAMILIES[which]
    keys = mbt_keys(which)
    d = {keys[a]: mbt_val(which, b) for a, b in items}
    t = fam.build_dict(d)
    u = t.put(fam.rk(keys[i]), fam.real(mbt_val(which, j)))
    r = guarded(lambda: t.remove(fam.rk(keys[j])).hash)
    p = t.prune()
    e = guarded(lambda: fam.unreal(p[fam.rk(keys[i])]))
    w = p.serialize()
    z = fam.cls.deserialize(w)

    def view():
        return (t.hash, len(t), [(fam.uk(k), fam.unreal(v)) for k, v in t.items()], u.hash, r, e, w, z.hash, guarded(lambda: fam.unreal(z[fam.rk(keys[i])])), t == u, t.issubset(u), u.issubset(t), r)
    return view


# ---- proofchains

TXS = [(1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [(5, b'\x51')], 0),
       (1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [(5, b'\x51'), (0, b'\x6a\x20' + b'\2' * 32)], 0),
       (2, [(b'\2' * 32, 1, b'\x51', 0), (b'\1' * 32, 1, b'', 2**32 - 1)], [(0, R.p2sh_script(R.hash160(b'\1' * 32)))], 7),
       (1, [(bytes(32), 2**32 - 1, b'\2\0\0', 0)], [(50 * 10**8, R.p2pkh_script(R.hash160(bytes(32))))], 0),
       (1, [], [], 0), (1, [(b'\1' * 32, 0, b'', 0)] * 2, [(21 * 10**14 + 1, b'')], 0)]
txi = st.integers(0, len(TXS) - 1)
seal_arg = T(dig, st.integers(0, 1), st.sampled_from([bytes(16), b'\1' * 16]))


@op('seal', T(seal_arg, st.integers(0, 2), txi, st.integers(0, 2), txi, dig))
def _seal(seal, i, itx, o, otx, digest):
    w = fx_seal.r_witness(seal, i, TXS[itx], o, TXS[otx])
    f = fx_seal.r_fake(digest)

    def view():
        return (w.hash, w.serialize(), guarded(lambda: w.verify()), guarded(lambda: w.verify_hash(digest)), guarded(lambda: f.verify_hash(seal[0])), f.hash, f.seal.hash, w.seal.hash,
                type(w).deserialize(w.serialize()).hash)
    return view


@op('txproof', T(txi, st.integers(0, 2)))
def _txproof(k, i):
    a, b, c = fx_seal.r_in(i, TXS[k]), fx_seal.r_out(i, TXS[k]), fx_seal.OutPointProof(txproof=fx_seal.r_txproof(TXS[k]), n=i)
    p = a.prune()
    e = guarded(lambda: R.ser_txin(F.p_txin(p.txin)))
    w = p.serialize()
    return lambda: (a.hash, b.hash, c.hash, a.txproof.hash, a.serialize(), e, w, guarded(lambda: F.p_txout(b.txout)), c.txproof.hash, type(c).deserialize(c.serialize()).hash)


@op('gumap', st.sampled_from(sorted(fx_gumap.FAMS)).flatmap(lambda w: T(st.just(w), fx_gumap.recipes(w, 1))))
def _gumap(which, recipe):
    fam = fx_gumap.FAMS[which]
    m = fam.build(fx_gumap.cook(fam, recipe))

    def view():
        return m.hash, m.serialize(), tuple(m.prefix), m.seal.hash, guarded(lambda: m.verify()), fam.cls.deserialize(m.serialize()).hash, type(m).__name__
    return view


# ---- Bitcoin structures

@op('tx', T(txi, st.booleans(), st.integers(0, 2)))
def _tx(k, mutable, change):
    t = F.r_tx(TXS[k], mutable)
    u = F.r_tx(TXS[k], True)
    h = u.GetHash()
    if change == 1:
        u.nLockTime ^= 1
    elif change == 2 and u.vin:
        u.vin[0].nSequence ^= 1
    c = bitcoin.core.CTransaction.from_tx(u)

    def view():
        return t.GetHash(), t.serialize(), h, u.GetHash(), c.GetHash(), t == c, t.is_coinbase(), F.p_tx(c), F.p_tx(type(t).deserialize(t.serialize())), repr(t)
    return view


@op('tx-check', T(txi, st.sampled_from(['mainnet', 'testnet', 'regtest'])), threads=False)
def _tx_check(k, net):
    bitcoin.SelectParams(net)
    t = F.r_tx(TXS[k])
    v = guarded(lambda: CheckTransaction(t))
    w = guarded(lambda: CheckTransaction(F.r_tx(TXS[k], True)))
    return lambda: (v, w)


HEADERS = [(1, bytes(32), b'\3' * 32, 5, 0x207fffff, 0), (2, b'\1' * 32, bytes(32), 2**32 - 1, 0x1d00ffff, 7), (1, bytes(32), bytes(32), 0, 0x1d00ffff, 2083236893)]


@op('block', T(st.integers(0, 2), st.lists(txi, max_size=3), st.booleans()))
def _block(h, ks, good):
    txs = ([TXS[3]] if good else []) + [TXS[k] for k in ks]
    header = HEADERS[h]
    if good and txs:
        header = header[:2] + (R.merkle_levels([R.txid(t) for t in txs])[-1],) + header[3:]
    b = F.r_block((header, txs))

    def view():
        return (b.GetHash(), b.get_header().GetHash(), b.serialize(), guarded(b.calc_merkle_root), list(b.vMerkleTree), guarded(lambda: CheckBlock(b, fCheckPoW=False)), F.p_block(CBlock.deserialize(b.serialize())),
                repr(b.get_header()))
    return view


@op('pow', T(st.sampled_from([b'\0' * 32, b'\xff' * 28 + bytes(4), b'\xff' * 31 + b'\x7f', b'\xff' * 32]), st.sampled_from([0x1d00ffff, 0x207fffff, 0, 0x1e00ffff]), st.sampled_from(['mainnet', 'testnet', 'regtest'])), threads=False)
def _pow(h, bits, net):
    bitcoin.SelectParams(net)
    v = guarded(lambda: CheckProofOfWork(h, bits))
    return lambda: (v, uint256_from_compact(bits))


@op('compact', T(st.sampled_from([0, 252, 253, 65535, 65536, 2**32, -1]), few_bytes))
def _compact(n, b):
    return lambda: (guarded(lambda: VarIntSerializer.serialize(n)), BytesSerializer.serialize(b), _bignum.bn2vch(n), _bignum.vch2bn(bytes(b)))


# ---- scripts

script_arg = st.sampled_from([b'', b'\x51', b'\0', b'\1\1', b'\x4c\1a', b'\x51\x52\xae', b'\xac', b'\x6a\x01a', R.p2pkh_script(b'\1' * 20), R.p2sh_script(b'\2' * 20), b'\x63\x51\x67\0\x68', b'\5a', b'\xab\xac\xab',
                              b'\x51\x21' + b'\2' * 33 + b'\x51\xae', b'\x76\x87', b'\x93\x51\x87', b'\x75\x51', b'\x6b\x6c\x87'])


@op('script', T(script_arg))
def _script(b):
    s = CScript(b)

    def view():
        return (guarded(lambda: [(int(o[0]), None if o[1] is None else bytes(o[1]), o[2]) for o in s.raw_iter()]), guarded(lambda: [int(e) if isinstance(e, int) else bytes(e) for e in s]), s.is_p2sh(),
                s.is_push_only(), s.is_valid(), s.is_unspendable(), s.GetSigOpCount(True), s.GetSigOpCount(False), s.has_canonical_pushes(), bytes(s.to_p2sh_scriptPubKey()), repr(s))
    return view


@op('script-build', T(st.lists(st.one_of(st.sampled_from([0, 1, 16, 17, -1, -2, 128, 255, 256]), st.sampled_from([b'', b'a', b'\1', b'x' * 76, b'x' * 256])), max_size=4), st.booleans()))
def _build(items, ops):
    l = list(items) + ([OP_RETURN, CScriptOp(0x51)] if ops else [])
    s = CScript(l)
    t = s + CScriptOp(0xac)
    return lambda: (bytes(s), bytes(t), len(l), [int(e) if isinstance(e, int) else bytes(e) for e in s])


@op('script-eval', T(st.lists(st.sampled_from([b'', b'\1', b'\2', b'\x81', b'abc', b'\0\0\0\0\0']), max_size=3), st.one_of(script_arg, X.program(3)), txi))
def _eval(stack, script, k):
    t = F.r_tx(TXS[k])
    s = list(stack)
    e = guarded(lambda: EvalScript(s, CScript(script), t, 0))
    return lambda: (e, s)


STEPS = [b'\x51', b'\x52\x6b', b'\x6b', b'\x6c', b'\x53\x6b\x61\x6c', b'\x63', b'\x67', b'\x68', b'\x51\x63', b'\0\x63', b'\xab', b'\x6a', b'\x69', b'\x76', b'\x93', b'\x87', b'\x74', b'\x61' * 100, b'\x6b\x51\x6a']


@op('script-state', T(st.lists(st.sampled_from([b'', b'\1', b'\2']), max_size=2), st.lists(st.sampled_from(STEPS), max_size=4), txi))
def _state(stack, steps, k):
    return _eval(stack, b''.join(steps), k)


@op('script-verify', T(script_arg, script_arg, st.booleans(), txi))
def _verify(sig, pub, p2sh, k):
    t = F.r_tx(TXS[k])
    return lambda: guarded(lambda: VerifyScript(CScript(sig), CScript(pub), t, 0, (SCRIPT_VERIFY_P2SH,) if p2sh else ()))


@op('sighash', T(script_arg, txi, st.integers(0, 2), st.sampled_from([0, 1, 2, 3, 0x81, 0x82, 0x83]), st.booleans()))
def _sighash(script, k, i, how, mutable):
    t = F.r_tx(TXS[k], mutable)
    return lambda: (guarded(lambda: RawSignatureHash(CScript(script), t, i, how)[0]), guarded(lambda: SignatureHash(CScript(script), t, i, how)), F.p_tx(t))


@op('delete', T(script_arg, st.sampled_from([b'\x51', b'\xac', b'\1\1', b'\xab'])))
def _delete(script, what):
    return lambda: guarded(lambda: bytes(FindAndDelete(CScript(script), CScript(what))))


# ---- keys, addresses, text

SPENT = [(1, [(b'\7' * 32, 0, b'', 2**32 - 1)], [(9, R.push(K.pub(k)) + b'\xac')], 0) for k in (0, 1)]


@op('spend', T(st.integers(0, 1), st.integers(0, 1), st.sampled_from([1, 2, 3, 0x81]), st.sampled_from(['good', 'good', 'high', 'cut', 's+1', 'type'])))
def _spend(k, signer, how, spoil):
    out = SPENT[k]
    bare = (1, [(R.txid(out), 0, b'', 5)], [(3, b'\x51')], 0)
    h, _ = R.sighash(out[2][0][1], bare, 0, how)
    sig = K.sign(signer, h, how, 0, spoil)
    tx = (1, [(R.txid(out), 0, R.push(sig), 5)], [(3, b'\x51')], 0)
    a, b = F.r_tx(out), F.r_tx(tx)
    return lambda: guarded(lambda: VerifySignature(a, b, 0))


@op('pubkey', T(st.integers(0, 2), st.sampled_from('cuhxnslez'), dig, st.booleans()))
def _pubkey(k, form, h, right):
    p = CPubKey(K.pub(k, form))
    r, s = K.raw_sign(k if right else (k + 1) % 3, h, 0)
    return lambda: (bytes(p), p.is_valid, p.is_fullyvalid, p.is_compressed, p.verify(h, E.der(r, s)), p.verify(h, b''), repr(p))


NET = st.sampled_from(['mainnet', 'testnet', 'regtest'])
VERS = st.sampled_from([0, 5, 111, 196, 128, 239, 1])


@op('address', T(NET, VERS, st.integers(0, 2)), threads=False)
def _address(net, version, k):
    bitcoin.SelectParams(net)
    s = R.b58check(version, bytes([k]) * 20)

    def parts():
        a = CBitcoinAddress(s)
        return type(a).__name__, a.nVersion, bytes(a), str(a), bytes(a.to_scriptPubKey()), repr(a)
    v = guarded(parts)
    return lambda: v


@op('address-script', T(NET, st.sampled_from([R.p2pkh_script(b'\1' * 20), R.p2sh_script(b'\1' * 20), b'\x51', b'\x76\xa9\x4c\x14' + b'\1' * 20 + b'\x88\xac', R.push(K.pub(0)) + b'\xac']), st.booleans(), st.booleans()), threads=False)
def _address_script(net, script, a, b):
    bitcoin.SelectParams(net)

    def parts():
        r = []
        for fn in (CBitcoinAddress.from_scriptPubKey, P2SHBitcoinAddress.from_scriptPubKey, lambda s: P2PKHBitcoinAddress.from_scriptPubKey(s, a, b)):
            r.append(guarded(lambda: str(fn(CScript(script)))))
        r.append(str(P2SHBitcoinAddress.from_redeemScript(CScript(script))))
        r.append(str(P2PKHBitcoinAddress.from_pubkey(CPubKey(K.pub(1)))))
        return r
    v = guarded(parts)
    return lambda: v


@op('secret', T(NET, VERS, st.integers(0, 2), st.booleans()), threads=False)
def _secret(net, version, k, compressed):
    bitcoin.SelectParams(net)
    payload = E_SECRETS[k] + (b'\1' if compressed else b'')

    def parts():
        s = CBitcoinSecret(R.b58check(version, payload))
        return str(s), bytes(s), bytes(s.pub), s.is_compressed, str(P2PKHBitcoinAddress.from_pubkey(s.pub)), str(CBitcoinSecret.from_secret_bytes(E_SECRETS[k], not compressed))
    v = guarded(parts)
    return lambda: v


E_SECRETS = [K.SECRETS[k].to_bytes(32, 'big') for k in range(3)]


@op('params', T(NET), threads=False)
def _params(net):
    bitcoin.SelectParams(net)
    p, c = bitcoin.params, bitcoin.core.coreparams
    v = (p.NAME, p.MESSAGE_START, p.DEFAULT_PORT, p.RPC_PORT, sorted(p.BASE58_PREFIXES.items()), c.NAME, c.PROOF_OF_WORK_LIMIT, c.SUBSIDY_HALVING_INTERVAL, c.GENESIS_BLOCK.GetHash())
    return lambda: v


@op('base58', T(st.sampled_from([b'', b'\0', b'\0\0a', b'abc', b'\1' * 21]), st.sampled_from(['', '1', '11', 'StV1', '0', R.b58check(0, b'\1' * 20), R.b58check(5, b''), 'l'])))
def _base58(b, s):
    from bitcoin.base58 import encode, decode

    def checked():
        d = CBase58Data(s)
        return d.nVersion, bytes(d), str(d), repr(d)
    return lambda: (encode(b), guarded(lambda: decode(s)), guarded(checked), str(CBase58Data.from_bytes(b, 7)))


@op('hex', T(st.sampled_from(['', 'ab', 'ABcd', 'a', 'zz', '00ff']), st.sampled_from([0, 1, 10**8, 10**8 + 1, 123456789, 21 * 10**14])))
def _hex(s, n):
    return lambda: (guarded(lambda: x(s)), guarded(lambda: lx(s)), b2x(s.encode()), b2lx(s.encode()), str_money_value(n), bitcoin.core.MoneyRange(n))


# ---- messages and filters

@op('message', T(st.sampled_from([b'ping', b'inv', b'tx', b'addr', b'verack', b'version']), small, NET), threads=True)
def _message(cmd, k, net):
    from bitcoin import MainParams, RegTestParams, TestNetParams
    from .checks import c44
    d = {b'ping': k, b'inv': [(1, bytes([k]) * 32)] * k, b'tx': TXS[k], b'addr': [(k, 1, bytes(10) + b'\xff\xff', (1, 2, 3, k), 8333)] * k, b'verack': None,
         b'version': (60002, 1, k, (0, 1, bytes(10) + b'\xff\xff', (1, 2, 3, k), 8333), (0, 1, bytes(10) + b'\xff\xff', (9, 2, 3, k), 8333), 77, b'/x/', k)}[cmd]
    params = {'mainnet': MainParams(), 'testnet': TestNetParams(), 'regtest': RegTestParams()}[net]
    m = c44.build((cmd, d))
    b = m.to_bytes(params)
    r = MsgSerializable.stream_deserialize(io.BytesIO(b), params)
    return lambda: (b, c44.plain(r), c44.plain(m), repr(type(m)))


@op('message-default', T(st.sampled_from([b'version', b'addr', b'inv', b'getblocks', b'headers', b'tx', b'block', b'alert', b'ping']), st.booleans()))
def _message_default(cmd, touch):
    from .checks import c44
    m = c44.CLASSES[cmd]()
    if touch:
        # changes to this object only
        for a in ('addrs', 'inv', 'headers'):
            if hasattr(m, a):
                getattr(m, a).append(CAddress() if a == 'addrs' else c44.r_inv((1, bytes(32))) if a == 'inv' else F.r_header(HEADERS[0]))
        if hasattr(m, 'locator'):
            m.locator.vHave.append(b'\1' * 32)
        if hasattr(m, 'addrTo'):
            m.addrTo.port += 1
    m2 = c44.CLASSES[cmd]()
    for o in (m, m2):
        if hasattr(o, 'nTime'):
            o.nTime = 1
        if hasattr(o, 'nNonce'):
            o.nNonce = 2
    f = io.BytesIO()
    m2.msg_ser(f)
    g = io.BytesIO()
    guarded(lambda: m.msg_ser(g))
    return lambda: (f.getvalue(), g.getvalue() if cmd != b'addr' else None)


@op('bloom', T(st.integers(1, 20), st.sampled_from([0.01, 0.3]), st.sampled_from([0, 5, 2**32 - 1]), st.lists(few_bytes, max_size=3), few_bytes))
def _bloom(n, rate, tweak, ins, q):
    f = CBloomFilter(n, rate, tweak, 0)
    before = f.contains(q)
    for e in ins:
        f.insert(e)
    f.insert(COutPoint(b'\1' * 32, n))
    return lambda: (before, f.contains(q), f.serialize(), MurmurHash3(tweak, q))
