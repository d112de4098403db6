import re
from decimal import Decimal
from hypothesis import strategies as st
import bitcoin
import bitcoin.core
from bitcoin.base58 import CBase58Data
from bitcoin.core import (CBlock, CBlockHeader, CMutableOutPoint, CMutableTransaction, CMutableTxIn, CMutableTxOut, COutPoint, CTransaction,
                          CTxIn, CTxOut, b2lx, b2x, lx, str_money_value, x)
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript, CScriptOp, OPCODE_NAMES, OPCODES_BY_NAME
from bitcoin.messages import MsgSerializable
from bitcoin.net import CAddress, CAlert, CBlockLocator, CInv, CUnsignedAlert
from bitcoin.wallet import CBitcoinAddress, CBitcoinSecret, P2PKHBitcoinAddress, P2SHBitcoinAddress
from proofmarshal.bits import Bits
from proofmarshal.serialize import HashTag
from .. import gen, ref_btc as R, fx_btc as F, fx_bits, fx_pm, fx_seal, fx_tree, fx_gumap
from ..core import Sub, eq, ok, raises
from .. import ref_ec as EC
from . import c44

RULE = """Every kind of object, from generated plain data: scripts of any bytes (complete, cut, oversized pushes), all 256 opcodes,
outpoints, inputs, outputs, transactions, headers and blocks (mutable and not), messages of every kind and version with any times and
types, keys, addresses, bit strings, hash tags, proofs, pruned proofs, trees and ranges, seals and maps. repr() must give text, and where that
text is a Python expression, evaluating it must give the object back; amounts are compared as exact decimals. Non-trivial: anything but an
empty object."""
ASSUMPTIONS = ['The printed form of an output ("1.5*COIN") is read as an exact decimal, that of a header with quotes put around its hashes',
               'A push that is not in its shortest form is printed as the push of the same data', 'Pruned mountain ranges are not printed as lists']

NAMES = {0: '0', 0x4c: 'PUSHDATA1', 0x4d: 'PUSHDATA2', 0x4e: 'PUSHDATA4', 0x4f: '1NEGATE', 0x50: 'RESERVED',
         0xfa: 'SMALLINTEGER', 0xfb: 'PUBKEYS', 0xfd: 'PUBKEYHASH', 0xfe: 'PUBKEY', 0xff: 'INVALIDOPCODE'}
NAMES.update({0x50 + i: '%d' % i for i in range(1, 17)})
NAMES.update(enumerate(
    'NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER '
    'PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT '
    '0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL '
    'GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG '
    'CHECKMULTISIGVERIFY NOP1 NOP2 NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10'.split(), 0x61))
assert len(NAMES) == 0xb9 - 0x60 + 27 and NAMES[0xac] == 'CHECKSIG' and NAMES[0xb9] == 'NOP10'


def money(s):
    n = Decimal(s) * 10**8
    ok(n == int(n), 'amount %s is not in satoshis' % s)
    return int(n)


ENV = dict(x=x, lx=lx, CScript=CScript, CScriptOp=CScriptOp, COutPoint=COutPoint, CTxIn=CTxIn, CTxOut=CTxOut, CTransaction=CTransaction,
           CBlockHeader=CBlockHeader, CBlock=CBlock, CPubKey=CPubKey, CBase58Data=CBase58Data, CBitcoinAddress=CBitcoinAddress, CBitcoinSecret=CBitcoinSecret,
           CMutableOutPoint=CMutableOutPoint, CMutableTxIn=CMutableTxIn, CMutableTxOut=CMutableTxOut, CMutableTransaction=CMutableTransaction,
           P2PKHBitcoinAddress=P2PKHBitcoinAddress, P2SHBitcoinAddress=P2SHBitcoinAddress, Bits=Bits, HashTag=HashTag, money=money)
ENV.update(('OP_' + n, getattr(bitcoin.core.script, 'OP_' + n)) for n in NAMES.values())


def text(o, what):
    r = repr(o)
    ok(isinstance(r, str) and r, '%s: repr is %r' % (what, r))
    s = str(o)
    ok(isinstance(s, str) and s, '%s: str is %r' % (what, s))
    return r


def evaluate(r, what):
    r = re.sub(r'\blx\(([0-9a-f]+)\)', r"lx('\1')", r)
    r = re.sub(r'\b([0-9.]+)\*COIN\b', r"money('\1')", r)
    try:
        return eval(r, dict(ENV))
    except Exception as e:
        raise AssertionError('%s: %s cannot be evaluated: %r' % (what, r, e)) from e


def shortest(s):
    """The script with every push in its shortest form, and what is wrong with the rest if it has been cut: (script, rest)"""
    out, i = b'', 0
    while i < len(s):
        c = s[i]
        if c > 0x4e:
            out += s[i:i + 1]
            i += 1
            continue
        w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(c, 0)
        if i + 1 + w > len(s):
            return out, s[i:]
        n = c if w == 0 else int.from_bytes(s[i + 1:i + 1 + w], 'little')
        data = s[i + 1 + w:i + 1 + w + n]
        if len(data) < n:
            return out, s[i:]
        out += b'\0' if n == 0 else R.push(data)
        i += 1 + w + n
    return out, b''


def scripts(case, T):
    s = CScript(case)
    r = text(s, 'script %s' % case.hex())
    good, rest = shortest(case)
    if not rest:
        back = evaluate(r, 'script %s' % case.hex())
        ok(type(back) is CScript, 'type')
        eq(bytes(back), good, 'script %s printed as %s' % (case.hex(), r))
        T.label('shortest' if good == case else 'other pushes')
    else:
        ok('ERROR' in r, 'cut script %s printed as %s' % (case.hex(), r))
        head = repr(CScript(good))[:-2]
        ok(r.startswith(head), 'cut script %s printed as %s, expected %s...' % (case.hex(), r, head))
        w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(rest[0], 0)
        if len(rest) > 1 + w:
            ok(rest[1 + w:].hex() in r, 'data of the cut push not in %s' % r)
        T.label('cut push' if len(rest) > w else 'cut length')
    T.nt(len(case) > 1)


def opcodes(case, T):
    o = CScriptOp(case)
    r = text(o, 'opcode')
    if case in NAMES:
        eq(r, 'OP_' + NAMES[case], 'name of 0x%x' % case)
        eq(OPCODE_NAMES[o], r, 'name in the table')
        eq(OPCODE_NAMES[case], r, 'name of the number in the table')
        eq(getattr(bitcoin.core.script, r), o, 'constant')
        if case < 0xfa:
            eq(OPCODES_BY_NAME[r], o, 'opcode of that name')
        T.label('named')
    else:
        ok(o not in OPCODE_NAMES, 'name of 0x%x' % case)
        T.label('unnamed')
    back = evaluate(r, 'opcode')
    ok(back is o, 'opcode 0x%x printed as %s' % (case, r))
    ok(all(OPCODE_NAMES[o] == n for n, o in OPCODES_BY_NAME.items()), 'tables disagree')
    T.nt()


def structures(case, T):
    kind, d, mutable = case
    T.label(kind, 'mutable' if mutable else 'immutable')
    o = F.REAL[kind](d, True) if mutable and kind not in ('header', 'block') else F.REAL[kind](d)
    what = 'printed %s' % kind
    r = text(o, what)
    T.nt()
    if kind == 'outpoint' and not (d[0] == b'\0' * 32 and d[1] == F.U32):
        ok(d[0][::-1].hex() in r and str(d[1]) in r, '%s as %s' % (d, r))
    if kind in ('header', 'block'):
        h = d if kind == 'header' else d[0]
        ok(h[1][::-1].hex() in r and h[2][::-1].hex() in r, 'hashes of the header are not in %s' % r)
    if kind == 'tx':
        for p in list(o.vin) + list(o.vout):
            ok(repr(p) in r, '%s is not in the transaction printed as %s' % (repr(p), r))
    plain = {'outpoint': F.p_outpoint, 'txin': F.p_txin, 'txout': F.p_txout, 'tx': F.p_tx, 'header': F.p_header, 'block': F.p_header}[kind]
    whole = lambda s: shortest(s) == (s, b'')
    if kind == 'txout' or kind == 'tx':
        for out in ([o] if kind == 'txout' else o.vout):
            m = re.search(r'\(([0-9.]+)\*COIN,', repr(out))
            eq(money(m.group(1)) if m else int(re.search(r'\((-?[0-9]+),', repr(out)).group(1)), out.nValue, 'amount in %r' % (out,))
    ss = {'txin': lambda: [d[2]], 'txout': lambda: [d[1]], 'tx': lambda: [i[2] for i in d[1]] + [i[1] for i in d[2]]}.get(kind, lambda: [])()
    if all(map(whole, ss)):
        back = evaluate(r, what)
        eq(plain(back), plain(o), '%s as %s' % (what, r))
        T.label('evaluated')


def messages(case, T):
    how, m = case
    r = c44.build(m)
    if how == 'received':
        r = MsgSerializable.from_bytes(c44.frame('mainnet', m[0], c44.payload(m)))
    t = text(r, 'message %s' % m[0])
    ok(m[0].decode() in t, 'message %s printed as %s' % (m[0], t))
    cmd, d = c44.norm(m) if how == 'received' else m
    parts = {b'tx': lambda: [repr(r.tx)], b'block': lambda: [repr(r.block)], b'headers': lambda: [repr(h) for h in r.headers], b'addr': lambda: [repr(a) for a in r.addrs],
             b'inv': lambda: [repr(i) for i in r.inv], b'getdata': lambda: [repr(i) for i in r.inv], b'getblocks': lambda: [repr(r.locator), d[1].hex()],
             b'getheaders': lambda: [repr(r.locator), d[1].hex()], b'alert': lambda: [repr(r.alert)], b'ping': lambda: ['%x' % d], b'pong': lambda: ['%x' % d],
             b'version': lambda: [str(v) for v in (d[0], d[1], d[7])] + [repr(r.addrTo), repr(r.addrFrom), repr(d[6])]}.get(cmd, lambda: [])()
    for p in parts:
        ok(p in t, '%s is not in %s' % (p, t))
    T.label(cmd.decode(), how)
    T.nt(cmd not in c44.EMPTY)


def parts(case, T):
    kind, d = case
    if kind == 'addr':
        t = text(c44.r_addr(d), kind)
        ok('.'.join(map(str, d[3])) in t and str(d[4]) in t and str(d[0]) in t and str(d[1]) in t, 'address %r printed as %s' % (d, t))
    elif kind == 'inv':
        t = text(c44.r_inv(d), kind)
        name = {0: 'Error', 1: 'TX', 2: 'Block'}.get(d[0])
        ok(d[1].hex() in t and (name is None or name in t), 'inventory %r printed as %s' % (d, t))
        ok(not (name is None and re.search('type=(Error|TX|Block)', t)), 'inventory %r printed as %s' % (d, t))
    elif kind == 'locator':
        t = text(c44.r_locator(d), kind)
        ok(str(d[0]) in t and all(repr(h) in t or h.hex() in t for h in d[1]), 'locator printed as %s' % t)
    elif kind == 'unsigned':
        t = text(c44.r_unsigned(d), kind)
        ok(all(str(d[i]) in t for i in (0, 1, 2, 3, 4, 6, 7, 9)), 'alert printed as %s' % t)
    T.label(kind)
    T.nt()


def encodings(case, T):
    kind, d = case
    T.label(kind)
    T.nt(len(d) > 1 if isinstance(d, (bytes, tuple)) else True)
    if kind == 'hex':
        eq(b2x(d), d.hex(), 'hex')
        eq(x(b2x(d)), d, 'hex and back')
        eq(x(d.hex().upper()), d, 'upper case')
        eq(b2lx(d), d[::-1].hex(), 'reversed hex')
        eq(lx(b2lx(d)), d, 'reversed hex and back')
        return
    if kind == 'money':
        s = str_money_value(d)
        ok(re.fullmatch(r'[0-9]+(\.[0-9]{1,8})?', s), 'amount %d printed as %s' % (d, s))
        eq(money(s), d, 'amount %d printed as %s' % (d, s))
        return
    if kind == 'pubkey':
        o = CPubKey(d)
    elif kind == 'base58':
        o = CBase58Data.from_bytes(d[1], d[0])
    elif kind == 'address':
        o = CBitcoinAddress.from_bytes(d[1], (0, 5)[d[0]])
    elif kind == 'secret':
        o = CBitcoinSecret.from_secret_bytes(d[1], d[0])
    r = text(o, kind)
    back = evaluate(r, kind)
    ok(type(back) is type(o), '%s: %s printed as %s' % (kind, type(o).__name__, r))
    eq(bytes(back), bytes(o), '%s printed as %s' % (kind, r))
    eq(getattr(back, 'nVersion', None), getattr(o, 'nVersion', None), 'version of %s' % r)


def bitstrings(case, T):
    b, m = fx_bits.real(case), fx_bits.model(case)
    r = text(b, 'bits')
    back = evaluate(r, 'bits')
    ok(type(back) is Bits and back == b and tuple(back) == m, 'bits %r printed as %s' % (m, r))
    T.label('len %% 8 = %d' % (len(m) % 8))
    T.nt(len(m) > 1)


def tags(case, T):
    import uuid
    t, subs = case
    h = HashTag(str(uuid.UUID(bytes=t)))
    for s in subs:
        h = h.derive(s)
    r = text(h, 'tag')
    back = evaluate(r, 'tag')
    ok(type(back) is HashTag, 'type of %s' % r)
    eq(bytes(back), bytes(h), 'tag printed as %s' % r)
    eq(str(h), str(uuid.UUID(bytes=bytes(h))), 'text of a tag')
    T.label('derived' if subs else 'given')
    T.nt()


def is_proof(o, schema, term, what, T):
    r = text(o, what)
    ok(schema.hash(term).hex() in r, '%s printed as %s, without its hash' % (what, r))
    ok(type(o).__name__ in r or type(o).__qualname__ in r, '%s printed as %s, without its class' % (what, r))


def proofs(case, T):
    term, used = case
    o = fx_pm.build(term)
    is_proof(o, fx_pm.S, term, 'proof', T)
    full = o.serialize()
    cls = fx_pm.top_class(term[0])
    back = cls.deserialize(full)
    is_proof(back, fx_pm.S, term, 'proof read back', T)
    p = cls.deserialize(full)
    ps = fx_pm.paths(term)
    chosen = [ps[u % len(ps)] for u in used] if ps else []
    pr = o.prune()
    is_proof(pr, fx_pm.S, term, 'proof being pruned', T)
    for path in chosen:
        fx_pm.walk(pr, path)
    is_proof(pr, fx_pm.S, term, 'proof being pruned, used', T)
    data = pr.serialize()
    # printing uses nothing: the pruned form is that of a copy which has not been printed
    pr2 = o.prune()
    for path in chosen:
        fx_pm.walk(pr2, path)
    eq(pr2.serialize(), data, 'pruned form after printing')
    is_proof(cls.deserialize(data), fx_pm.S, term, 'pruned proof read back', T)
    T.label(term[0])
    T.nt(bool(ps))


def trees(case, T):
    which, items = case
    fam = fx_tree.FAMILIES[which]
    o = fam.build(items)
    T.label(which)
    T.nt(len(items) > 1)
    if fam.kind == 'mmr':
        for what, m in (('range', o), ('range read back', fam.cls.deserialize(o.serialize()))):
            r = text(m, what)
            if which == 'MMRP':
                # values are proofs, printed with their hashes
                at = 0
                for v in items:
                    at = r.find(fam.schema.hash(fx_tree.item_term(v)).hex(), at)
                    ok(at >= 0, 'values in order in %s' % r)
                    at += 64
            else:
                try:
                    back = eval(r, {fam.cls.__name__: fam.cls})
                except Exception as e:
                    raise AssertionError('range printed as %s cannot be evaluated: %r' % (r, e))
                ok(back == m and isinstance(back, fam.cls), 'range printed as %s' % r)
                eq([fam.unreal(v) for v in back], list(items), 'values of the range printed as %s' % r)
    else:
        term = fam.term(items)
        is_proof(o, fam.schema, term, 'tree', T)
        is_proof(o.prune(), fam.schema, term, 'pruned tree', T)
        is_proof(fam.cls.deserialize(o.prune().serialize()), fam.schema, term, 'pruned tree read back', T)


def seals(case, T):
    seal, i, itx, o, otx = case
    S = fx_seal.schema()
    w = fx_seal.r_witness(seal, i, itx, o, otx)
    t = fx_seal.t_witness(seal, i, itx, o, otx)
    is_proof(w, S, t, 'seal witness', T)
    is_proof(w.seal, S, fx_seal.t_seal(seal), 'seal', T)
    is_proof(w.txinproof.txproof, S, fx_seal.t_tx(itx), 'transaction proof', T)
    is_proof(w.prune(), S, t, 'pruned seal witness', T)
    T.nt()


def maps(case, T):
    fam = fx_gumap.FAMS[case[0]]
    plain = fx_gumap.cook(fam, case[1])
    o = fam.build(plain)
    for what, m in (('map', o), ('map being pruned', o.prune()), ('pruned map', fam.cls.deserialize(o.prune().serialize()))):
        r = text(m, what)
        ok(o.hash.hex() in r, '%s printed as %s' % (what, r))
    T.label(case[1][0])
    T.nt(case[1][0] != 'unused')


DEFAULTS = {c.__name__: c for c in list(c44.CLASSES.values()) + [CAddress, CInv, CBlockLocator, CUnsignedAlert, CAlert, COutPoint, CTxIn, CTxOut, CTransaction, CMutableOutPoint, CMutableTxIn,
                                                                 CMutableTxOut, CMutableTransaction, CBlockHeader, CBlock, CScript, Bits]}


def defaults(case, T):
    """Objects made without arguments"""
    o = DEFAULTS[case]()
    r = text(o, 'default %s' % case)
    if isinstance(o, (COutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CScript, Bits)):
        back = evaluate(r, case)
        ok(back == o if not isinstance(o, CBlock) else back.get_header() == o.get_header(), 'default %s printed as %s' % (case, r))
    T.nt()


# ---- strategies

ANY = lambda: gen.mix(F.raw_script(), F.valid_script(),
                      st.tuples(F.valid_script(4), st.sampled_from([b'\x01', b'\x05abc', b'\x4c', b'\x4c\x05abcd', b'\x4d', b'\x4d\x01', b'\x4d\x02\0a', b'\x4e', b'\x4e\x01\0\0',
                                                                    b'\x4e\x02\0\0\0a', b'\x4e\xff\xff\xff\xff', b'\x4b' + b'z' * 74])).map(lambda t: t[0] + t[1]))
SMALL = lambda: gen.mix(F.valid_script(4), F.raw_script(8, False))
AMOUNT = lambda: st.one_of(F.i64(), st.integers(0, 21 * 10**14), st.tuples(st.integers(0, 9), st.integers(0, 99)).map(lambda t: t[1] * 10**t[0]))
STRUCT = {'outpoint': F.outpoint(), 'txin': F.txin(SMALL()), 'txout': F.txout(SMALL(), AMOUNT()), 'tx': F.tx(2, 2, SMALL(), AMOUNT()), 'header': F.header(), 'block': F.block(2)}
PUB = st.one_of(st.binary(max_size=70), st.tuples(st.sampled_from([2, 3, 4, 6]), gen.fixed(32)).map(lambda t: bytes([t[0]]) + t[1]))
SECRET = st.integers(1, EC.N - 1).map(lambda n: n.to_bytes(32, 'big'))
SUBS = [
    Sub('scripts', scripts, gen=ANY(), quick=6000),
    Sub('opcodes', opcodes, enum=lambda: list(range(256))),
    Sub('structures', structures, gen=gen.mix(*[st.tuples(st.just(k), s, st.booleans()) for k, s in STRUCT.items()]), quick=7500,
        examples=[('outpoint', (b'\0' * 32, n), False) for n in (0, 1, F.U32)] + [('txout', (n, b''), False) for n in (0, 1, -1, 10, 10**8, 10**8 + 10, 2**63 - 1, -2**63, 10**7)]),
    Sub('messages', messages, gen=st.tuples(st.sampled_from(['built', 'received']), c44.MSG), quick=4500),
    Sub('defaults', defaults, enum=lambda: list(DEFAULTS)),
    Sub('parts', parts, gen=gen.mix(st.tuples(st.just('addr'), c44.ADDR), st.tuples(st.just('inv'), c44.INV), st.tuples(st.just('locator'), c44.LOC), st.tuples(st.just('unsigned'), c44.UNS)), quick=2400),
    Sub('encodings', encodings, gen=gen.mix(st.tuples(st.just('hex'), gen.blob(40)), st.tuples(st.just('money'), AMOUNT().filter(lambda n: n >= 0)), st.tuples(st.just('pubkey'), PUB),
                                            st.tuples(st.just('base58'), st.tuples(st.integers(0, 255), gen.blob(40))), st.tuples(st.just('address'), st.tuples(st.integers(0, 1), gen.fixed(20))),
                                            st.tuples(st.just('secret'), st.tuples(st.booleans(), SECRET))), quick=6000),
    Sub('bitstrings', bitstrings, gen=fx_bits.exprs(2), quick=2400),
    Sub('tags', tags, gen=st.tuples(gen.fixed(16), st.lists(gen.blob(20), max_size=2)), quick=1500),
    Sub('proofs', proofs, gen=st.tuples(fx_pm.any_term(), st.lists(st.integers(0, 40), max_size=4)), quick=2400),
    Sub('trees', trees, gen=st.sampled_from(sorted(fx_tree.FAMILIES)).flatmap(lambda n: st.tuples(st.just(n), fx_tree.FAMILIES[n].items(9))), quick=2400),
    Sub('seals', seals, gen=st.tuples(fx_seal.seal(), st.integers(0, 3), F.tx(2, 2), st.integers(0, 3), F.tx(2, 2)), quick=600),
    Sub('maps', maps, gen=st.sampled_from(sorted(fx_gumap.FAMS)).flatmap(lambda n: st.tuples(st.just(n), fx_gumap.recipes(n))), quick=1500),
]
