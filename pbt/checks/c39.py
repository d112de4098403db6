import hashlib

from hypothesis import strategies as st
import bitcoin
from bitcoin.base58 import Base58Error
from bitcoin.core.key import CECKey, CPubKey
from bitcoin.wallet import CBitcoinSecret, CBitcoinSecretError, CKey
from .. import gen, ref_btc as R, ref_ec as E, fx_sig as K
from ..core import Sub, eq, ok, raises, outcome

RULE = """Secrets (small, near the group order, random, sparse) in both forms on every network after any sequence of
switches; public keys, signatures, shared secrets and DER private keys compared with a pure-Python secp256k1; public key
bytes of every form, valid and broken; reference signatures spoiled in every field; wrong hashes, keys and lengths; one key object given secrets, public keys and forms one after another.
Non-trivial: a case with a spoiled part, a boundary secret, or a network switch."""
ASSUMPTIONS = ['Secrets are in [1, n-1]', 'Signatures have to be strict DER, as OpenSSL 3 requires', 'Hashes to be verified are 32 bytes',
               'The public key 00 (the point at infinity), which an existing test wants flagged as valid, is left out',
               'Base58 secrets carry 32 or 33 bytes']

SECRET_VERSION = {'mainnet': 128, 'testnet': 239, 'regtest': 239}


def select(nets):
    for n in nets:
        bitcoin.SelectParams(n)
    return SECRET_VERSION[nets[-1]]


def sec(s):
    return s.to_bytes(32, 'big')


def check_pub(p, d, compressed, what):
    ok(type(p) is CPubKey, '%s: %s' % (what, type(p)))
    eq(bytes(p), E.pubkey(d, compressed), '%s: public key' % what)
    eq((p.is_compressed, bool(p.is_valid), p.is_fullyvalid), (compressed, True, True), '%s: flags' % what)


def check_sig(sig, d, h, what):
    rs = E.un_der(sig)
    ok(rs is not None, '%s: signature %s is not strict DER' % (what, sig.hex()))
    ok(E.verify(E.decode(E.pubkey(d, True)), h, *rs), '%s: signature does not verify' % what)


def keys(case, T):
    nets, d, compressed, h, other = case
    v = select(nets)
    k = CKey(sec(d), compressed)
    check_pub(k.pub, d, compressed, 'CKey')
    eq(k.is_compressed, compressed, 'CKey.is_compressed')
    s = CBitcoinSecret.from_secret_bytes(sec(d), compressed)
    payload = sec(d) + (b'\1' if compressed else b'')
    text = R.b58check(v, payload)
    for what, x in (('from_secret_bytes', s), ('from text', CBitcoinSecret(text)), ('from its own text', CBitcoinSecret(str(s)))):
        ok(type(x) is CBitcoinSecret, what)
        eq((str(x), bytes(x), x.nVersion, x.is_compressed), (text, payload, v, compressed), what)
        check_pub(x.pub, d, compressed, what)
    if compressed:
        check_pub(CKey(sec(d)).pub, d, True, 'CKey, default')
        eq(str(CBitcoinSecret.from_secret_bytes(sec(d))), text, 'from_secret_bytes, default')
    sig = s.sign(h)
    check_sig(sig, d, h, 'CBitcoinSecret')
    sig2 = k.sign(h)
    check_sig(sig2, d, h, 'CKey')
    for c in (True, False):
        p = CPubKey(E.pubkey(d, c))
        ok(p.verify(h, sig) is True and p.verify(h, sig2) is True, 'own signature does not verify')
        wrong = bytes([h[0] ^ 1]) + h[1:]
        ok(p.verify(wrong, sig) is False, 'verifies for another hash')
        ok(p.verify(h[:-1] + bytes([h[-1] ^ 0x80]), sig) is False, 'verifies for another hash')
    want = E.verify(E.decode(E.pubkey(other, True)), h, *E.un_der(sig))      # true for the negated key if h is zero
    eq(CPubKey(E.pubkey(other, compressed)).verify(h, sig), want, 'verification with another key')
    ok(k.pub.verify(h, sig), 'the key made with the secret does not verify')
    for junk in (h[:-1], h + b'\0', b''):
        raises(ValueError, k.sign, junk, what='signing %d bytes' % len(junk))
    for junk in (h.hex(), None, bytearray(h), 5):
        raises(TypeError, k.sign, junk, what='signing %r' % (junk,))
    raises(ValueError, CKey, sec(d)[1:], compressed, what='31 byte secret')
    raises(ValueError, CKey, sec(d) + b'\1', compressed, what='33 byte secret')
    raises(ValueError, CKey, b'', compressed, what='empty secret')
    T.label(nets[-1], 'compressed' if compressed else 'uncompressed', 'switched' if len(nets) > 1 else 'single')
    T.nt(len(nets) > 1 or d < 10 or d > E.N - 10)


def foreign(case, T):
    nets, version, d, tail = case
    v = select(nets)
    compressed = tail == b'\1'
    text = R.b58check(version, sec(d) + tail)
    got = outcome(CBitcoinSecret, text)
    if version == v:
        ok(got[0] == 'ok', 'own secret rejected')
        eq(got[1].is_compressed, compressed, 'compression')
        check_pub(got[1].pub, d, compressed, 'own')
        T.label('own', 'other flag byte' if tail not in (b'', b'\1') else 'usual')
    else:
        ok(got[0] == 'exc' and isinstance(got[1], CBitcoinSecretError), 'version %d on %s: %r' % (version, nets[-1], got[1]))
        T.label('foreign')
    bad = text[:-1] + ('2' if text[-1] != '2' else '3')
    raises(Base58Error, CBitcoinSecret, bad, what='bad checksum')
    if len(nets) > 1:
        # a secret made on an earlier network is accepted on the last one iff the versions agree
        bitcoin.SelectParams(nets[0])
        s = CBitcoinSecret.from_secret_bytes(sec(d), compressed)
        text0 = str(s)
        bitcoin.SelectParams(nets[-1])
        eq(text0, R.b58check(SECRET_VERSION[nets[0]], sec(d) + (b'\1' if compressed else b'')), 'text on the first network')
        eq(str(s), text0, 'text after a switch')
        got = outcome(CBitcoinSecret, text0)
        ok((got[0] == 'ok') == (SECRET_VERSION[nets[0]] == v), 'after a switch: %r' % (got[1],))
        T.label('switched')
    T.nt()


def pubkeys(case, T):
    k, form, muts, h = case
    b = gen.mutate(K.pub(k, form), muts)
    if b == b'\0':
        b = b''
    pt = E.decode(b)
    p = CPubKey(b)
    eq(bytes(p), b, 'bytes')
    eq(p.is_fullyvalid, pt is not None, 'is_fullyvalid of %s' % b.hex())
    eq(bool(p.is_valid), len(b) > 0, 'is_valid')
    eq(p.is_compressed, len(b) == 33, 'is_compressed')
    good = K.sign(k, h, 1)[:-1]
    want = pt is not None and E.verify(pt, h, *E.un_der(good))
    eq(p.verify(h, good), want, 'verify with public key %s' % b.hex())
    T.label('valid' if pt is not None else 'invalid', 'verifies' if want else 'does not verify')
    T.nt()


def signatures(case, T):
    k, form, h, nonce, how, muts, kind = case
    b = K.pub(k, form)
    sig = K.sign(k, h, 1, nonce, how)[:-1] if how != 'der' else gen.mutate(K.sign(k, h, 1, nonce)[:-1], muts)
    h2 = h
    key = b
    if kind == 'hash':
        h2 = gen.mutate(h, [m for m in muts if m[0] in ('set', 'xor')] or [('xor', 3, 4)])
    elif kind == 'key':
        key = K.pub((k + 1) % len(K.SECRETS), form)
    rs = E.un_der(sig)
    want = rs is not None and E.verify(E.decode(key), h2, *rs)
    eq(CPubKey(key).verify(h2, sig), want, 'verify(%s, %s) with %s' % (h2.hex(), sig.hex(), key.hex()))
    T.label('accepted' if want else 'rejected', how, kind)
    T.nt(how != 'good' or kind != 'same')


def shared(case, T):
    a, b, ca, cb = case
    ka, kb, pb = CECKey(), CECKey(), CECKey()
    ka.set_secretbytes(sec(a))
    kb.set_secretbytes(sec(b))
    ka.set_compressed(ca)
    kb.set_compressed(cb)
    eq(ka.get_pubkey(), E.pubkey(a, ca), 'get_pubkey')
    ok(pb.set_pubkey(E.pubkey(b, cb)) != 0, 'set_pubkey')
    eq(pb.get_pubkey(), E.pubkey(b, cb), 'get_pubkey after set_pubkey')
    x = E.mul(a * b % E.N, E.G)[0].to_bytes(32, 'big')
    for what, got in (('ab', ka.get_raw_ecdh_key(kb)), ('ba', kb.get_raw_ecdh_key(ka)), ('a, public b', ka.get_raw_ecdh_key(pb))):
        eq(got, x, 'raw shared secret, %s' % what)
    eq(ka.get_ecdh_key(pb), hashlib.sha256(x).digest(), 'shared secret')
    eq(ka.get_ecdh_key(pb, lambda k: k[::-1]), x[::-1], 'shared secret with another derivation')
    # export and import
    der = ka.get_privkey()
    ok(sec(a) in der, 'exported key does not hold the secret')
    kc = CECKey()
    ok(kc.set_privkey(der) != 0, 'import failed')
    eq(kc.get_pubkey(), E.pubkey(a, ca), 'public key after import')
    eq(kc.get_privkey(), der, 'export after import')
    h = R.sha256(der)
    check_sig(kc.sign(h), a, h, 'imported key')
    ok(ka.verify(h, kc.sign(h)) and pb.verify(h, kb.sign(h)), 'signatures do not verify')
    ok(a == b or not pb.verify(h, kc.sign(h)), 'another key verifies')     # h is not zero
    # a key object takes on the last secret it was given
    kc.set_secretbytes(sec(b))
    eq(kc.get_pubkey(), E.pubkey(b, ca), 'public key after another secret')
    check_sig(kc.sign(h), b, h, 'replaced secret')
    T.label('same form' if ca == cb else 'mixed forms')
    T.nt()


def form_bytes(d, form):
    u = E.pubkey(d, False)
    return {'c': E.pubkey(d, True), 'u': u, 'h': bytes([6 + (u[-1] & 1)]) + u[1:]}[form]


def reuse(case, T):
    """One key object given one key after another answers as the last one"""
    ds, ops, h = case
    key = CECKey()
    form, d, secret = 'u', None, False
    sigs = {x: K.raw_sign_any(x, h) for x in ds}
    done = 0
    for op, i, f in ops:
        x = ds[i % len(ds)]
        if i >= 8:
            x = E.N - x
            sigs.setdefault(x, K.raw_sign_any(x, h))
        if op == 'pub':
            ok(key.set_pubkey(form_bytes(x, f)) != 0, 'set_pubkey')
            form, d, secret = f, x, False
        elif op == 'secret':
            key.set_secretbytes(sec(x))
            d, secret = x, True
        elif op == 'form':
            key.set_compressed(f == 'c')
            form = 'c' if f == 'c' else 'u'
        if d is None:
            continue
        done += 1
        eq(key.get_pubkey(), form_bytes(d, form), 'public key after %s' % op)
        for x, sig in sigs.items():
            want = x == d or E.verify(E.decode(E.pubkey(d, True)), h, *E.un_der(sig))
            eq(key.verify(h, sig), want, 'verify after %s' % op)
        if secret:
            check_sig(key.sign(h), d, h, 'signature after %s' % op)
        peer = CECKey()
        peer.set_secretbytes(sec(7))
        eq(peer.get_raw_ecdh_key(key), E.mul(7 * d % E.N, E.G)[0].to_bytes(32, 'big'), 'shared secret after %s' % op)
    T.label(*['%s %s' % (o[0], o[2]) for o in ops])
    T.nt(done > 2)


def reuse_gen():
    op = st.tuples(st.sampled_from(['pub', 'pub', 'pub', 'secret', 'form', 'form']), st.integers(0, 15), st.sampled_from('ccuh'))
    return st.tuples(st.lists(D, min_size=1, max_size=3, unique=True), st.lists(op, min_size=2, max_size=6), H)


NET = st.sampled_from(sorted(SECRET_VERSION))
SEQ = gen.mix(st.lists(NET, min_size=1, max_size=1), st.lists(NET, min_size=2, max_size=4))
H = gen.fixed(32)
D = st.one_of(st.sampled_from(K.SECRETS), st.integers(1, 20), st.integers(1, 20).map(lambda i: E.N - i), st.integers(1, E.N - 1),
              st.integers(0, 255).map(lambda i: 1 << i))
SUBS = [
    Sub('reuse', reuse, gen=reuse_gen, quick=300),
    Sub('keys', keys, gen=st.tuples(SEQ, D, st.booleans(), H, D), quick=1050),
    Sub('foreign', foreign, gen=st.tuples(SEQ, st.one_of(st.sampled_from([128, 239]), st.integers(0, 255)), D, st.one_of(st.just(b'\1'), st.just(b''), gen.fixed(1), st.sampled_from([b'\0', b'\2', b'\xff']))), quick=1200),
    Sub('pubkeys', pubkeys, gen=st.tuples(st.integers(0, 7), st.one_of(st.sampled_from('cuh'), K.keyform()), gen.mix(st.just([]), gen.mutations(1, 1)), H), quick=1200),
    Sub('signatures', signatures, gen=st.tuples(st.integers(0, 7), st.sampled_from('cuh'), H, st.integers(0, 3), st.sampled_from(['good', 'high', 'der', 'der'] + K.SPOILS),
                                                gen.mutations(2, 1), st.sampled_from(['same', 'same', 'hash', 'key'])), quick=1500),
    Sub('shared', shared, gen=st.tuples(D, D, st.booleans(), st.booleans()), quick=450),
]
