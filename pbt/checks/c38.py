from hypothesis import strategies as st
import bitcoin
from bitcoin.base58 import Base58Error
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript
from bitcoin.wallet import CBitcoinAddress, CBitcoinAddressError, P2SHBitcoinAddress, P2PKHBitcoinAddress
from .. import gen, ref_btc as R, ref_ec as E, fx_btc as F, fx_sig as K
from ..core import Sub, eq, ok, raises, outcome

RULE = """On every network, after any sequence of switches: addresses from hashes, strings, public keys of every form
(valid and broken), redeem scripts and output scripts near the standard templates (every push encoding, edited bytes, cut
pushes, bare keys) under every combination of the two acceptance flags, compared with template matching on parsed
operations. Non-trivial: a script within one edit of a template, or a conversion after a switch."""
ASSUMPTIONS = ['Strings carry 20-byte payloads', 'Scripts are given as CScript',
               'Conversion to a script happens on a network with the version byte of the address',
               'An address string of the wrong kind given to one of the two subclasses, rather than to CBitcoinAddress, may raise any ValueError',
               'The public key 00 (the point at infinity), which an existing test wants flagged as valid, is left out',
               'Redeem scripts are at most 520 bytes']

NETS = {'mainnet': (0, 5), 'testnet': (111, 196), 'regtest': (111, 196)}


def select(nets):
    for n in nets:
        bitcoin.SelectParams(n)
    return NETS[nets[-1]]


def same(a, kind, h, net, what):
    """a is the address of kind ('pkh' or 'sh') for h"""
    cls = {'pkh': P2PKHBitcoinAddress, 'sh': P2SHBitcoinAddress}[kind]
    ok(type(a) is cls, '%s: type %s' % (what, type(a).__name__))
    v = net[kind == 'sh']
    eq((a.nVersion, bytes(a)), (v, h), what)
    s = R.b58check(v, h)
    eq(str(a), s, '%s: string' % what)
    sc = a.to_scriptPubKey()
    ok(type(sc) is CScript, '%s: script type' % what)
    eq(bytes(sc), R.p2pkh_script(h) if kind == 'pkh' else R.p2sh_script(h), '%s: script' % what)
    for what2, b in (('string', CBitcoinAddress(s)), ('script', CBitcoinAddress.from_scriptPubKey(sc)), ('own class', cls.from_scriptPubKey(sc)),
                     ('own class string', cls(s)), ('bytes', cls.from_bytes(h)), ('bytes and version', CBitcoinAddress.from_bytes(h, v))):
        ok(type(b) is cls and bytes(b) == h and b.nVersion == v and b == a, '%s: back from its %s: %s %r' % (what, what2, type(b).__name__, bytes(b).hex()))
        eq(str(b), s, '%s: back from its %s' % (what, what2))
    other = {'pkh': P2SHBitcoinAddress, 'sh': P2PKHBitcoinAddress}[kind]
    raises(CBitcoinAddressError, other.from_scriptPubKey, sc, what='%s: script to the other class' % what)


def hashes(case, T):
    nets, kind, h = case
    net = select(nets)
    v = net[kind == 'sh']
    same(CBitcoinAddress(R.b58check(v, h)), kind, h, net, 'from string')
    T.label(nets[-1], kind)
    T.nt(len(nets) > 1)


def foreign(case, T):
    nets, version, h = case
    net = select(nets)
    s = R.b58check(version, h)
    got = outcome(CBitcoinAddress, s)
    if version in net:
        ok(got[0] == 'ok', 'own address rejected: %r' % got[1])
        same(got[1], 'sh' if version == net[1] else 'pkh', h, net, 'version %d' % version)
        T.label('own')
    else:
        ok(got[0] == 'exc' and isinstance(got[1], CBitcoinAddressError) and isinstance(got[1], Base58Error), 'version %d on %s: %r' % (version, nets[-1], got[1]))
        raises(CBitcoinAddressError, CBitcoinAddress.from_bytes, h, version, what='version %d' % version)
        T.label('foreign')
    for cls, v in ((P2PKHBitcoinAddress, net[0]), (P2SHBitcoinAddress, net[1])):
        if version != v:
            # another network's or kind's, given to one of the two subclasses
            raises((ValueError, CBitcoinAddressError), cls, s, what='version %d to %s' % (version, cls.__name__))
            raises((ValueError, CBitcoinAddressError), cls.from_bytes, h, version, what='version %d to %s' % (version, cls.__name__))
    bad = s[:-1] + ('2' if s[-1] != '2' else '3')
    raises(Base58Error, CBitcoinAddress, bad, what='bad checksum')
    T.nt()


class Bytes(bytes):
    pass


def pubkeys(case, T):
    nets, k, form, wrap = case
    net = select(nets)
    b = K.pub(k, form)
    valid = E.decode(b) is not None
    arg = CPubKey(b) if wrap else b
    if valid:
        same(P2PKHBitcoinAddress.from_pubkey(arg), 'pkh', R.hash160(b), net, 'from a public key')
    else:
        raises(CBitcoinAddressError, P2PKHBitcoinAddress.from_pubkey, arg, what='invalid public key')
    same(P2PKHBitcoinAddress.from_pubkey(arg, accept_invalid=True), 'pkh', R.hash160(b), net, 'from a public key, not checked')
    # other kinds of bytes
    for other in (CScript(b), Bytes(b)):
        if valid:
            same(P2PKHBitcoinAddress.from_pubkey(other), 'pkh', R.hash160(b), net, 'from a public key in %s' % type(other).__name__)
        else:
            raises(CBitcoinAddressError, P2PKHBitcoinAddress.from_pubkey, other, what='invalid public key in %s' % type(other).__name__)
    for junk in (b.hex(), None, bytearray(b)):
        raises(TypeError, P2PKHBitcoinAddress.from_pubkey, junk, what='a public key that is not bytes')
    # the bare key script
    if len(b) in (33, 65):
        scripts(([nets[-1]], R.push(b) + b'\xac', []), T)
    T.label('valid' if valid else 'invalid', 'form ' + form)
    T.nt()


def redeem(case, T):
    nets, s = case
    net = select(nets)
    same(P2SHBitcoinAddress.from_redeemScript(CScript(s)), 'sh', R.hash160(s), net, 'from a redeem script')
    T.nt(len(s) > 0)


def match(s, noncanonical, bare):
    """('pkh', hash) or None, by template"""
    got, bad = R.ops(s)
    if bad is not None:
        return None
    if not noncanonical:
        for op, data, _ in got:
            if data is not None and R.push(data)[:1] != bytes([op]):
                return None
    shape = [d if d is not None else op for op, d, _ in got]
    if len(shape) == 5 and shape[:2] == [0x76, 0xa9] and isinstance(shape[2], bytes) and len(shape[2]) == 20 and shape[3:] == [0x88, 0xac]:
        return ('pkh', shape[2])
    if bare and len(shape) == 2 and isinstance(shape[0], bytes) and len(shape[0]) in (33, 65) and shape[1] == 0xac:
        return ('bare', shape[0])
    return None


def scripts(case, T):
    nets, script, muts = case
    net = select(nets)
    s = gen.mutate(script, muts)
    for nc in (True, False):
        for bare in (True, False):
            want = match(s, nc, bare)
            got = outcome(P2PKHBitcoinAddress.from_scriptPubKey, CScript(s), nc, bare)
            decide(want, got, net, 'from_scriptPubKey(%s, %r, %r)' % (s.hex(), nc, bare), T)
    got = outcome(P2PKHBitcoinAddress.from_scriptPubKey, CScript(s))
    decide(match(s, True, True), got, net, 'from_scriptPubKey(%s), defaults' % s.hex(), T)
    got = outcome(P2PKHBitcoinAddress.from_scriptPubKey, s)
    decide(match(s, True, True), got, net, 'from_scriptPubKey(%s) of bytes' % s.hex(), T)
    got = outcome(P2SHBitcoinAddress.from_scriptPubKey, CScript(s))
    sh = ('sh', s[2:22]) if R.is_p2sh(s) else None
    decide(sh, got, net, 'P2SH from_scriptPubKey(%s)' % s.hex(), T)
    got = outcome(CBitcoinAddress.from_scriptPubKey, CScript(s))
    decide(sh or match(s, True, True), got, net, 'CBitcoinAddress.from_scriptPubKey(%s)' % s.hex(), T)
    T.label('match' if sh or match(s, True, True) else 'no match')
    T.nt()


def decide(want, got, net, what, T):
    if want is None:
        ok(got[0] == 'exc' and isinstance(got[1], CBitcoinAddressError), '%s: %r, expected an address error' % (what, got[1]))
        return
    ok(got[0] == 'ok', '%s: %r, expected an address for %r' % (what, got[1], want))
    kind, h = want
    if kind == 'bare':
        if len(h) == 65 and bytes(got[1]) == R.hash160(h[:64]) and T.known_finding('bare-uncompressed-64-of-65'):
            T.label('known finding')
            return
        kind, h = 'pkh', R.hash160(h)
    same(got[1], kind, h, net, what)


def push_as(t):
    d, how = t
    return {0: R.push(d), 1: b'\x4c' + bytes([len(d)]) + d, 2: b'\x4d' + len(d).to_bytes(2, 'little') + d, 4: b'\x4e' + len(d).to_bytes(4, 'little') + d}[how]


def pkh_script(t):
    return b'\x76\xa9' + push_as(t) + b'\x88\xac'


def near(case, T):
    scripts((['mainnet'], case, []), T)


def near_templates():
    """Every value of every byte of the templates that is not part of a hash or key, single insertions and deletions, other pushes"""
    h = R.sha256(b'near')[:20]
    bases = [(R.p2pkh_script(h), (0, 1, 2, 23, 24)), (R.p2sh_script(h), (0, 1, 22)), (R.push(K.pub(3, 'c')) + b'\xac', (0, 1, 34)),
             (b'\x41' + K.pub(3, 'u')[:64] + b'\xac\xac', (0, 1, 66)), (R.push(b'\4' + b'\x11' * 64) + b'\xac', (0, 1, 65, 66))]
    for s, places in bases:
        for i in places:
            for v in range(256):
                yield s[:i] + bytes([v]) + s[i + 1:]
        for i in range(len(s)):
            yield s[:i] + s[i + 1:]
            yield s[:i]
        for i in places + (len(s),):
            for v in (0, 1, 2, 20, 0x4c, 0x51, 0x61, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xad):
                yield s[:i] + bytes([v]) + s[i:]
    for d in (h, h[:19], h + b'\0', b'', K.pub(3, 'c'), h + h):
        for a, b in ((b'\xa9', b'\x87'), (b'\x76\xa9', b'\x88\xac'), (b'', b'\xac'), (b'\x76\xa9', b'\x88\xad'), (b'\xa9', b'\x88'), (b'\xaa', b'\x87'), (b'', b'\xad'), (b'', b'\xae'),
                     (b'\x51', b'\x51\xae'), (b'\x76\xaa', b'\x88\xac'), (b'\x76\xa9', b'\x87\xac'), (b'\x6a', b'')):
            for how in (0, 1, 2, 4):
                yield a + push_as((d, how)) + b


NET = st.sampled_from(sorted(NETS))
SEQ = gen.mix(st.lists(NET, min_size=1, max_size=1), st.lists(NET, min_size=2, max_size=4))
H = gen.fixed(20)
HOW = st.sampled_from([0, 0, 1, 2, 4])
LEN = st.sampled_from([19, 20, 20, 20, 21])
TEMPLATE = gen.mix(
    st.tuples(H, HOW).map(pkh_script),
    st.tuples(st.binary(min_size=19, max_size=21), HOW).map(pkh_script),
    H.map(R.p2sh_script),
    st.tuples(st.tuples(st.sampled_from([32, 33, 33, 33, 34, 64, 65, 65, 66]), st.integers(2, 4)).map(lambda t: bytes([t[1]]) + b'\x11' * (t[0] - 1)), HOW).map(
        lambda t: push_as(t) + b'\xac'),
    st.tuples(st.integers(0, 7), st.sampled_from('cu')).map(lambda t: R.push(K.pub(*t)) + b'\xac'))
NONE = st.just([])
EDIT = gen.mutations(2, 1, kinds=('set', 'xor', 'del', 'ins', 'trunc', 'app', 'swap'))
SCRIPTS = gen.mix(st.tuples(SEQ, TEMPLATE, NONE), st.tuples(SEQ, TEMPLATE, EDIT),
                  st.tuples(SEQ, TEMPLATE, st.tuples(st.sampled_from(['xor', 'set']), st.sampled_from([0, 1, 2, 22, 23, 24, 34, 66]), st.integers(0, 255)).map(lambda m: [m])),
                  st.tuples(SEQ, F.raw_script(), NONE))

SUBS = [
    Sub('hashes', hashes, gen=st.tuples(SEQ, st.sampled_from(['pkh', 'sh']), H), quick=1800),
    Sub('foreign', foreign, gen=st.tuples(SEQ, st.one_of(st.sampled_from([0, 5, 111, 196, 128, 239]), st.integers(0, 255)), H), quick=2100),
    Sub('pubkeys', pubkeys, gen=st.tuples(SEQ, st.integers(0, 7), K.keyform().filter(lambda f: f != '0'), st.booleans()), quick=1200),
    Sub('redeem', redeem, gen=st.tuples(SEQ, st.one_of(F.raw_script().filter(lambda b: len(b) <= 520), st.sampled_from([519, 520]).map(lambda n: b'\x51' * n))), quick=900),
    Sub('near', near, enum=near_templates),
    Sub('scripts', scripts, gen=SCRIPTS, quick=4500, examples=[
        (['mainnet'], b'\x41' + K.pub(0, 'u') + b'\xac', []), (['mainnet'], b'\x21' + K.pub(0, 'c') + b'\xac', [])]),
]
