import bitcoin
from hypothesis import strategies as st
from bitcoin.core import COutPoint, CTransaction, CMutableTransaction
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript, OP_CHECKMULTISIG, OP_CHECKSIG, OP_DUP, OP_EQUALVERIFY, OP_HASH160, SignatureHash
from bitcoin.core.scripteval import SCRIPT_VERIFY_P2SH, VerifyScript, VerifySignature
from bitcoin.wallet import CBitcoinAddress, CBitcoinSecret, CKey, P2PKHBitcoinAddress, P2SHBitcoinAddress
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, fail, ok, outcome

RULE = """A transaction of one to four inputs and outputs spends, in one of its inputs, an output locked to a key, to the address of a key, to m of n
keys, or to the pay-to-script-hash address of one of these; it is signed with the library's own keys, hashes, scripts and addresses under each of
the six hash types, and has to verify. Then the transaction, the signature or the output is altered in one place, and
it has to verify just if the hash type leaves that place out of what is signed. Non-trivial: an altered case."""
ASSUMPTIONS = ['Where the type is SINGLE the signed input has an output of its number', 'Signatures of other inputs are arbitrary bytes', 'Keys are distinct',
               'An altered signature or key still has a form that the script can parse']

KINDS = ['p2pk', 'p2pkh', 'multi', 'p2sh-p2pk', 'p2sh-p2pkh', 'p2sh-multi']
TYPES = [1, 2, 3, 0x81, 0x82, 0x83]


class Lock:
    """An output script, and how to fill in the signature script, from keys of the library"""
    def __init__(self, kind, net, nums, m, compressed, bare):
        self.kind = kind
        self.keys = [(CKey if bare else CBitcoinSecret.from_secret_bytes)(n.to_bytes(32, 'big'), compressed) for n in nums]
        base = kind.split('-')[-1]
        self.base = base
        if base == 'multi':
            self.m = min(m, len(self.keys))
            self.script = CScript([self.m] + [k.pub for k in self.keys] + [len(self.keys), OP_CHECKMULTISIG])
        elif base == 'p2pk':
            self.m = 1
            self.script = CScript([self.keys[0].pub, OP_CHECKSIG])
        else:
            self.m = 1
            self.script = P2PKHBitcoinAddress.from_pubkey(self.keys[0].pub).to_scriptPubKey()
        self.pub = self.script.to_p2sh_scriptPubKey() if kind.startswith('p2sh') else self.script
        if kind.startswith('p2sh'):
            a = P2SHBitcoinAddress.from_redeemScript(self.script)
            ok(bytes(CBitcoinAddress(str(a)).to_scriptPubKey()) == bytes(self.pub), 'address %s and script %r differ' % (a, self.pub))

    def sign(self, tx, i, types, pick):
        """Signatures of m keys, in the order of the keys"""
        if self.base != 'multi':
            chosen = [0]
        else:
            rot = [(pick + j) % len(self.keys) for j in range(len(self.keys))]
            chosen = sorted(rot[:self.m])
        return [self.keys[k].sign(SignatureHash(self.script, tx, i, types[j % len(types)])) + bytes([types[j % len(types)]]) for j, k in enumerate(chosen)]

    def fill(self, sigs, script=None):
        script = self.script if script is None else script
        if self.base == 'multi':
            parts = [0] + sigs
        elif self.base == 'p2pk':
            parts = sigs
        else:
            parts = sigs + [self.keys[0].pub]
        if self.kind.startswith('p2sh'):
            parts = parts + [bytes(script)]
        return CScript(parts)


def covers(t, what, i, j, nout):
    """Does a signature of type t on input i cover the place"""
    base, acp = t & 0x1f, bool(t & 0x80)
    if what in ('version', 'lock', 'own prevout', 'own sequence', 'own n'):
        return True
    if what in ('other prevout', 'other n', 'append input', 'drop last input', 'insert input before'):
        return not acp
    if what == 'other sequence':
        return not acp and base not in (2, 3)
    if what == 'other signature':
        return False
    if what in ('value', 'script'):
        return base not in (2, 3) or base == 3 and j == i
    if what == 'append output':
        return base not in (2, 3)
    if what == 'drop last output':
        return base not in (2, 3) or base == 3 and nout - 1 == i
    if what == 'insert output first':
        return base != 2
    raise KeyError(what)


TX_CHANGES = ['version', 'lock', 'own prevout', 'own n', 'own sequence', 'other prevout', 'other n', 'other sequence', 'other signature', 'append input', 'drop last input', 'insert input before',
              'value', 'script', 'append output', 'drop last output', 'insert output first']
SIG_CHANGES = ['none', 'hash type', 's', 'r', 'signature of another key', 'swap signatures', 'one signature twice', 'too few', 'other output script', 'other redeem script', 'other input', 'extra item']


def change(tx, what, i, j, junk):
    """(transaction, number of the signed input), or None if there is no such place"""
    ver, vin, vout, lock = tx
    vin, vout = list(vin), list(vout)
    h, n, val = junk
    k = None
    if what.startswith('other') and len(vin) > 1:
        k = (i + 1 + j % (len(vin) - 1)) % len(vin)
    if what.startswith('own'):
        k = i
    if what == 'version':
        ver ^= 1 << (n % 31)
    elif what == 'lock':
        lock ^= 1 << (n % 32)
    elif what == 'append input':
        vin.append((h, n, b'', 5))
    elif what == 'insert input before':
        vin.insert(0, (h, n, b'', 5))
        i += 1
    elif what == 'drop last input':
        if i == len(vin) - 1:
            return None
        vin.pop()
    elif what == 'append output':
        vout.append((val, b'\x51'))
    elif what == 'insert output first':
        vout.insert(0, (val ^ 1 << 40, b'\x51'))
    elif what == 'drop last output':
        vout.pop()
    elif what in ('value', 'script'):
        v, s = vout[j]
        vout[j] = (v ^ 1 << (n % 50), s) if what == 'value' else (v, s + bytes([n % 256]) if n & 1 or not s else s[:-1] + bytes([s[-1] ^ 1 + n % 255]))
    elif k is None:
        return None
    elif what.endswith('prevout'):
        b = bytearray(vin[k][0])
        b[n % 32] ^= 1 << (val % 8)
        vin[k] = (bytes(b),) + vin[k][1:]
    elif what.endswith(' n'):
        vin[k] = (vin[k][0], vin[k][1] ^ 1 << (n % 32)) + vin[k][2:]
    elif what.endswith('sequence'):
        vin[k] = vin[k][:3] + (vin[k][3] ^ 1 << (n % 32),)
    elif what.endswith('signature'):
        vin[k] = vin[k][:2] + (vin[k][2] + bytes([n % 256]),) + vin[k][3:]
    else:
        raise KeyError(what)
    return (ver, vin, vout, lock), i


def verdict(sig, pub, tx, i, mutable=False):
    t = F.r_tx(tx, mutable)
    before = F.p_tx(t)
    r = outcome(VerifyScript, sig, pub, t, i, (SCRIPT_VERIFY_P2SH,))
    if r[0] == 'exc' and not isinstance(r[1], bitcoin.core.ValidationError):
        fail('verification raised %r' % (r[1],))
    ok(F.p_tx(t) == before, 'verification changed the transaction')
    ok(r[0] == 'exc' or r[1] is not False, 'verification returned False')
    return r[0] == 'ok', r[1]


def want(good, got, what):
    if good and not got[0]:
        fail('%s: does not verify: %r' % (what, got[1]))
    if not good and got[0]:
        fail('%s: verifies' % what)


def outcome_of(source, t, at):
    r = outcome(VerifySignature, F.r_tx(source), CTransaction.deserialize(R.ser_tx(t)), at)
    if r[0] == 'exc' and not isinstance(r[1], bitcoin.core.ValidationError):
        fail('VerifySignature raised %r' % (r[1],))
    return r[0] == 'ok', r[1]


def spends(case, T):
    net, kind, nums, m, compressed, bare, tx, i, types, pick, changes, mutable = case
    bitcoin.SelectParams(net)
    lock = Lock(kind, net, nums, m, compressed, bare)
    i %= len(tx[1])
    ver, vin, vout, nlock = tx
    vin, vout = list(vin), list(vout)
    while any(t & 0x1f == 3 for t in types) and len(vout) <= i:
        vout.append((7, b'\x52'))
    source = (1, [(b'\x55' * 32, 0, b'', 2**32 - 1)], [(9, b'\x51')] * (pick % 3) + [(1000 + pick, bytes(lock.pub))], 0)
    vin[i] = (R.txid(source), pick % 3, b'', vin[i][3])
    tx = (ver, vin, vout, nlock)
    sigs = lock.sign(F.r_tx(tx, mutable), i, types, pick)
    types = [s[-1] for s in sigs]
    filled = lock.fill(sigs)

    def signed(t, at, script):
        return (t[0], [v[:2] + (bytes(script),) + v[3:] if k == at else v for k, v in enumerate(t[1])], t[2], t[3])
    full = signed(tx, i, filled)
    want(True, verdict(filled, lock.pub, full, i, mutable), 'signed')
    want(True, verdict(filled, lock.pub, full, i, not mutable), 'signed')
    r = outcome(VerifySignature, F.r_tx(source), CTransaction.deserialize(R.ser_tx(full)), i)
    ok(r[0] == 'ok', 'VerifySignature: %r' % (r[1],))
    T.label(kind, *['type %02x' % t for t in types])

    def looked_up(good, t, at, what):
        """The same through VerifySignature, which looks up the output itself (and knows nothing of P2SH)"""
        if kind.startswith('p2sh') or t[1][at][0] == vin[i][0] and t[1][at][1] < pick % 3:      # those outputs are free for all
            return
        want(good and t[1][at][:2] == vin[i][:2], outcome_of(source, t, at), what + ' (VerifySignature)')
    for what, j, junk in changes:
        j %= len(vout)
        if what in SIG_CHANGES:
            s2, pub, at, good, script = list(sigs), lock.pub, i, what in ('none',), lock.script
            if what == 'hash type':
                s2[-1] = s2[-1][:-1] + bytes([s2[-1][-1] ^ (1, 2, 3, 0x80, 4, 0x40)[junk[1] % 6]])
            elif what in ('s', 'r'):
                from .. import ref_ec as E
                r_, s_ = E.un_der(s2[0][:-1])
                s2[0] = (E.der(r_ ^ 2, s_) if what == 'r' else E.der(r_, s_ ^ 2)) + s2[0][-1:]
            elif what == 'signature of another key':
                k = (CBitcoinSecret.from_secret_bytes)(b'\x13' * 32)
                s2[0] = k.sign(SignatureHash(lock.script, F.r_tx(tx), i, types[0])) + sigs[0][-1:]
            elif what == 'swap signatures':
                if len(s2) < 2:
                    continue
                s2[0], s2[-1] = s2[-1], s2[0]
            elif what == 'one signature twice':
                if len(s2) < 2:
                    continue
                k = junk[1] % (len(s2) - 1)
                s2[k + 1] = s2[k] if junk[2] & 1 else s2[k + 1]
                s2[k] = s2[k + 1]
            elif what == 'too few':
                s2 = s2[1:]
            elif what == 'other output script':
                b = bytearray(lock.pub)
                k = {'p2pk': 5, 'p2pkh': 5, 'multi': 5}.get(kind, 4) + junk[1] % 15
                b[k] ^= 1 << (junk[2] % 8)
                if lock.base != 'p2pkh' and not kind.startswith('p2sh'):
                    # another key altogether, for some signature in use
                    other = CBitcoinSecret.from_secret_bytes(b'\x17' * 32, compressed).pub
                    b = bytes(lock.pub)
                    for key in lock.keys:
                        b = b.replace(bytes(key.pub), bytes(other))
                pub = CScript(bytes(b))
            elif what == 'other redeem script':
                if not kind.startswith('p2sh'):
                    continue
                script = bytes(lock.script) + b'\x61'
            elif what == 'other input':
                if len(vin) < 2:
                    continue
                at = (i + 1) % len(vin)
                if all(t & 0x9f == 0x82 for t in types) and vin[at][:2] == vin[i][:2] and vin[at][3] == vin[i][3]:
                    continue
                if all(t & 0x80 for t in types) and vin[at][:2] == vin[i][:2]:
                    continue
            elif what == 'extra item':
                good = True         # nothing demands a clean stack
                got = verdict(CScript(b'\x51' + bytes(filled)), pub, signed(tx, i, filled), i)
                want(True, got, 'an item more')
                T.label(what)
                continue
            new = lock.fill(s2, script)
            want(good, verdict(new, pub, signed(tx, at, new), at, mutable), '%s (types %r, input %d)' % (what, types, i))
            if pub is lock.pub:
                looked_up(good, signed(tx, at, new), at, what)
            T.label(what)
        else:
            new = change(tx, what, i, j, junk)
            if new is None:
                continue
            t2, at = new
            single = any(t & 0x1f == 3 for t in types)
            if what == 'insert input before' and single and any(t == 0x83 for t in types):
                continue        # the number of the output moves along
            if what == 'insert output first' and single and i < len(t2[2]) and t2[2][i] == vout[i]:
                if all(t & 0x1f in (2, 3) for t in types):
                    continue
            good = not any(covers(t, what, i, j, len(vout)) for t in types)
            want(good, verdict(filled, lock.pub, signed(t2, at, filled), at, mutable), '%s changed (types %r, input %d of %d, output %d of %d)' % (what, types, i, len(vin), j, len(vout)))
            looked_up(good, signed(t2, at, filled), at, what)
            T.label('%s %s' % (what, 'left out' if good else 'covered'))
        T.nt()
    looked_up(True, full, i, 'unaltered, in the end')
    want(True, verdict(filled, lock.pub, full, i, mutable), 'unaltered, in the end')


def nums():
    return st.lists(st.one_of(st.integers(1, 50), st.integers(1, 2**255)), min_size=1, max_size=4, unique=True)


def cases():
    vin = st.lists(st.tuples(gen.fixed(32), st.integers(0, 5), st.binary(max_size=4), F.u32()), min_size=1, max_size=4)
    vout = st.lists(st.tuples(st.integers(0, 2**50), st.sampled_from([b'', b'\x51', b'\x52\x53', R.p2pkh_script(b'\1' * 20)])), min_size=1, max_size=4)
    tx = st.tuples(st.sampled_from([1, 2, 0, -1]), vin, vout, F.u32())
    ch = st.tuples(st.one_of(st.sampled_from(TX_CHANGES), st.sampled_from(TX_CHANGES), st.sampled_from(SIG_CHANGES)), st.integers(0, 3), st.tuples(gen.fixed(32), st.integers(0, 255), st.integers(0, 1000)))
    types = st.one_of(st.sampled_from(TYPES).map(lambda t: [t]), st.lists(st.sampled_from(TYPES), min_size=2, max_size=3))
    return st.tuples(st.sampled_from(['mainnet', 'testnet', 'regtest']), st.sampled_from(KINDS), nums(), st.integers(1, 4), st.booleans(), st.booleans(), tx, st.integers(0, 3), types, st.integers(0, 11),
                     st.lists(ch, min_size=1, max_size=6), st.booleans())


def table():
    """Every kind, type and alteration"""
    vin = [(bytes([k + 1]) * 32, k, b'\x51', 10 + k) for k in range(3)]
    vout = [(1000 + k, bytes([0x51 + k])) for k in range(3)]
    n = 0
    for kind in KINDS:
        for t in TYPES:
            for i in (0, 1, 2):
                n += 1
                yield ('mainnet', kind, [n + 1, n + 2, n + 3], 2, n % 2 == 0, n % 3 == 0, (1, vin, vout, 0), i, [t], n,
                       [(w, j, (bytes([n % 256]) * 32, n * 7 % 256, n)) for w in TX_CHANGES + SIG_CHANGES for j in ((0, 1, 2) if w in ('value', 'script') else (0,))], n % 2 == 1)


SUBS = [Sub('spends', spends, gen=cases, quick=3600, thorough=24000, enum=table)]
