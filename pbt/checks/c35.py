from hypothesis import strategies as st
import bitcoin.core.script
import bitcoin.core.scripteval
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import VerifyScript, VerifySignature, EvalScriptError
from .. import gen, ref_btc as R, ref_script as S, fx_btc as F, fx_script as X, fx_sig as K
from ..core import Sub, eq, ok, outcome

RULE = """Input and output script pairs: programs after programs, P2SH outputs of redeem programs with matching and wrong
redeem scripts, push-only and other input scripts, nested P2SH, near-miss P2SH, and signed P2PKH, P2PK and (P2SH)
multisig spends; scripts that reach deep into the stack below the redeem script; each with no flag, with the P2SH flag under each of its exported names, and with other flags, compared
with the reference composition. Signature verification between transactions with the right and wrong previous transactions
and indices, also of mutable transactions that change between verifications. Non-trivial: both scripts non-empty, or a transaction pair with an existing output."""
ASSUMPTIONS = ['The rules are those of the reference client around 0.9', 'Output indices of inputs are not negative']

P2SH_NAMES = [bitcoin.core.script.SCRIPT_VERIFY_P2SH, bitcoin.core.scripteval.SCRIPT_VERIFY_P2SH]
OTHERS = [bitcoin.core.script.SCRIPT_VERIFY_STRICTENC, bitcoin.core.scripteval.SCRIPT_VERIFY_EVEN_S, bitcoin.core.scripteval.SCRIPT_VERIFY_NOCACHE]
FLAGS = [((), False), ((P2SH_NAMES[0],), True), ((P2SH_NAMES[1],), True), ([P2SH_NAMES[1], OTHERS[0]], True), ({P2SH_NAMES[0]}, True),
         (tuple(OTHERS), False), (None, False)]


def verdict(sig, pub, tx, i, p2sh):
    try:
        S.verify(sig, pub, K.checker(tx, i), p2sh)
        return None
    except S.Failed as e:
        return e.why


def compare(sig, pub, tx, i, T, what='', flag_sets=FLAGS):
    rtx = F.r_tx(tx)
    out = []
    for flags, p2sh in flag_sets:
        want = verdict(sig, pub, tx, i, p2sh)
        kw = {} if flags is None else {'flags': flags}
        got = outcome(VerifyScript, CScript(sig), CScript(pub), rtx, i, **kw)
        if want is None:
            ok(got[0] == 'ok', '%s p2sh=%r: %r, the reference accepts' % (what, p2sh, got[1]))
        else:
            ok(got[0] == 'exc', '%s p2sh=%r: accepted, the reference rejects: %s' % (what, p2sh, want))
            ok(isinstance(got[1], ValidationError), '%s: %r is not a validation error' % (what, got[1]))
        out.append(want)
        T.label('%s %s' % ('p2sh' if p2sh else 'plain', want or 'accepted'))
    if len(set(out)) > 1:
        T.label('flag matters')
    return out


TX0 = (1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [(5, b'\x51')], 0)


def pairs(case, T):
    sig, pub = case
    compare(sig, pub, TX0, 0, T, 'pair')
    T.nt(bool(sig and pub))


def p2sh(case, T):
    stack, redeem, style, wrong = case
    if isinstance(stack, tuple):
        stack = [bytes([i % 16 + 1]) for i in range(stack[0])]
        T.label('deep stack')
    pushes = b''.join(R.push(v) for v in stack)
    red = redeem
    inner = R.p2sh_script(R.hash160(redeem))
    if style == 'nested':
        # the redeem script is itself P2SH: that is not evaluated a second time
        red, sig = inner, pushes + R.push(redeem)
        sig += R.push(red)
        pub = R.p2sh_script(R.hash160(red))
    else:
        sig = pushes + R.push(red)
        pub = inner
    if style == 'nop':
        sig = b'\x61' + sig
    elif style == 'dup':
        sig = pushes + R.push(red) + b'\x76\x75'
    elif style == 'reserved':
        sig = b'\x50' + sig
    elif style == 'skip reserved':
        sig = b'\0\x63\x50\x68' + sig
    elif style == 'lone':
        sig = R.push(red)
    elif style == 'empty':
        sig = b''
    elif style == 'near':
        pub = [b'\xa9\x4c\x14' + pub[2:22] + b'\x87', b'\x61' + pub, pub + b'\x61', pub[:-1] + b'\x88\x51', b'\xaa' + pub[1:],
               b'\xa9\x14' + pub[2:22] + b'\x87\xab'][wrong % 6]
    elif style == 'wrong':
        pub = R.p2sh_script(bytes([pub[2] ^ 1]) + pub[3:22])
    elif style == 'pushdata':
        n = len(red)
        sig = pushes + b'\x4d' + n.to_bytes(2, 'little') + red
    elif style == 'number op':
        # a redeem script of at most one byte, pushed by OP_0, OP_1NEGATE or OP_1 to OP_16
        red = [b'', b'\x81'][len(redeem) % 2] if wrong == 0 else bytes([1 + (len(redeem) * 6 + wrong) % 16])
        pub = R.p2sh_script(R.hash160(red))
        sig = pushes + R.push(b'z' * (red[0] if red and red[0] < 17 else 0) if wrong % 2 else b'\1') + \
            (b'\0' if not red else b'\x4f' if red == b'\x81' else bytes([0x50 + red[0]]))
    elif style == 'cut':
        sig = sig[:-1]
    out = compare(sig, pub, TX0, 0, T, style)
    T.label(style)
    T.nt()


def spend(kind, keys, m, ht, how, tx, i, order):
    """(input script, output script) of a signed spend"""
    if 'multi' not in kind:
        keys = keys[:1]
        m = 1
    pubs = [K.pub(k, f) for k, f in keys]
    if kind in ('p2pk', 'p2sh p2pk'):
        code = R.push(pubs[0]) + b'\xac'
    elif kind in ('p2pkh', 'p2sh p2pkh'):
        code = R.p2pkh_script(R.hash160(pubs[0]))
    else:
        code = R.push(R.num(m)) + b''.join(map(R.push, pubs)) + R.push(R.num(len(pubs))) + b'\xae'
    h, _ = R.sighash(code, tx, i, ht)
    idx = list(range(len(keys)))
    if order == 1:
        idx = idx[::-1]
    elif order == 2:
        idx = idx[len(idx) - m:]
    sigs = [K.sign(keys[j][0], h, ht, 0, how if n == 0 else 'good') for n, j in enumerate(idx[:m])]
    if kind in ('p2pk', 'p2sh p2pk'):
        sig = R.push(sigs[0])
    elif kind in ('p2pkh', 'p2sh p2pkh'):
        sig = R.push(sigs[0]) + R.push(pubs[0])
    else:
        sig = b'\0' + b''.join(map(R.push, sigs))
    if kind.startswith('p2sh'):
        return sig + R.push(code), R.p2sh_script(R.hash160(code))
    return sig, code


def signed(case, T):
    kind, keys, m, ht, how, tx, i, order = case
    i %= len(tx[1])
    m = max(1, min(m, len(keys)))
    sig, pub = spend(kind, keys, m, ht, how, tx, i, order)
    out = compare(sig, pub, tx, i, T, kind, [FLAGS[0], FLAGS[1], FLAGS[2]])
    fine = how in ('good', 'high') and all(f in 'cu' for _, f in keys) and (order != 1 or m == 1 or 'multi' not in kind)
    if fine and 'multi' not in kind:
        eq(set(out), {None}, 'reference verdict on a good %s spend' % kind)
    T.label(kind, how)
    T.nt(how == 'good')


FROMS = {'usual': [(b'\x55' * 32, 7, b'', 5)], 'coinbase': [(R.NULL, 2**32 - 1, b'\1\1', 2**32 - 1)], 'no inputs': [], 'wide': [(b'\x55' * 32, 7, b'', 5)],
         'several': [(b'\x55' * 32, k, b'\x51', 5) for k in range(4)]}


def between(case, T):
    prev, n, outs, tx, i, change, v, shape = case
    # tx spends output n of prev with its input i; then something is off
    kind, keys, ht = prev
    ins = tx[1]
    i %= len(ins)
    n %= len(outs)
    if kind == 'true':
        sig, pub = b'\x51', b'\x61'
    elif kind == 'false':
        sig, pub = b'\0', b'\x61'
    elif kind == 'bad p2sh':
        # only plain evaluation is applied
        sig, pub = R.push(b'\0'), R.p2sh_script(R.hash160(b'\0'))
    elif kind == 'not push only':
        sig, pub = b'\x61' + R.push(b'\x51'), R.p2sh_script(R.hash160(b'\x51'))
    else:
        sig, pub = b'', b''
    outs = [(a, pub if j == n else b) for j, (a, b) in enumerate(outs)]
    if shape == 'wide':
        outs = outs + [(k, [b'\x51', b'\0', b'\x61'][k % 3]) for k in range(300 - v % 60)]
    txfrom = (1, FROMS[shape], outs, v)
    fid = R.txid(txfrom)
    vin = list(ins)
    vin[i] = (fid, n, sig, vin[i][3])
    if kind in ('p2pkh', 'p2pk'):
        tmp = (tx[0], vin, tx[2], tx[3])
        sig, pub = None, None
        k, f = keys[0]
        code = R.push(K.pub(k, f)) + b'\xac' if kind == 'p2pk' else R.p2pkh_script(R.hash160(K.pub(k, f)))
        outs = [(a, code if j == n else b) for j, (a, b) in enumerate(outs)]
        txfrom = (1, txfrom[1], outs, v)
        fid = R.txid(txfrom)
        vin[i] = (fid, n, b'', vin[i][3])
        h, _ = R.sighash(code, (tx[0], vin, tx[2], tx[3]), i, ht)
        s = K.sign(k, h, ht)
        vin[i] = (fid, n, R.push(s) + (R.push(K.pub(k, f)) if kind == 'p2pkh' else b''), vin[i][3])
    at = i
    expect = None
    if change == 'hash':
        vin[i] = (vin[i][0][:31] + bytes([vin[i][0][31] ^ 1]),) + vin[i][1:]
        expect = False
    elif change == 'index':
        vin[i] = (fid, len(outs) + v % 3) + vin[i][2:]
        expect = False
    elif change == 'alias index':
        # an index that means the same output modulo some power of two, or counted from the end
        vin[i] = (fid, [n + 2**31, n + 2**16, n + 2**24, 2**32 - len(outs) + n, n + len(outs), n | 2**30][v % 6]) + vin[i][2:]
        expect = False
    elif change == 'hash byte':
        h = bytearray(fid)
        h[v % 32] ^= 1 << (v >> 8) % 8
        vin[i] = (bytes(h),) + vin[i][1:]
        expect = False
    elif change == 'hash reversed':
        vin[i] = (fid[::-1],) + vin[i][1:]
        expect = False
    elif change == 'null':
        vin[i] = (R.NULL, vin[i][1]) + vin[i][2:]
        expect = False
    elif change == 'big index':
        vin[i] = (fid, 2**32 - 1) + vin[i][2:]
        expect = False
    elif change == 'negative input':
        at = -1 - v % 3
        expect = False
    elif change == 'input':
        at = len(vin) + v % 3
        expect = False
    elif change == 'other from':
        txfrom = (1, txfrom[1], outs, v ^ 1)
        expect = False
    elif change == 'other output' and len(outs) > 1:
        vin[i] = (fid, (n + 1) % len(outs)) + vin[i][2:]
    elif change == 'other input' and len(vin) > 1:
        at = (i + 1) % len(vin)
    t = (tx[0], vin, tx[2], tx[3])
    if expect is None:
        h, k, s, _ = vin[at]
        expect = h == fid and k < len(outs) and verdict(s, outs[k][1], t, at, False) is None
    for mutable in (False, True):
        got = outcome(VerifySignature, F.r_tx(txfrom, mutable), F.r_tx(t, mutable), at)
        if expect:
            ok(got[0] == 'ok', '%s: %r, expected success' % (change, got[1]))
        else:
            ok(got[0] == 'exc', '%s: accepted' % change)
            ok(isinstance(got[1], ValidationError), '%s: %r is not a validation error' % (change, got[1]))
    T.label(kind, change, 'from ' + shape, 'accepted' if expect else 'rejected')
    T.nt()


def changing(case, T):
    """Mutable transactions that change between one verification and the next"""
    outs, steps = case
    txfrom = (1, [(b'\x55' * 32, 7, b'', 5)], outs, 0)
    f = F.r_tx(txfrom, True)
    tx = (1, [(R.txid(txfrom), 0, b'\x51', 9), (b'\3' * 32, 0, b'', 9)], [(5, b'')], 0)
    t = F.r_tx(tx, True)
    seen = set()
    for what, v in steps:
        if what == 'lock':
            f.nLockTime = v % 3
        elif what == 'value':
            f.vout[v % len(outs)].nValue = v % 4
        elif what == 'script':
            f.vout[v % len(outs)].scriptPubKey = CScript([b'\x51', b'\0', b'\x61'][v % 3])
        elif what == 'drop':
            if len(f.vout) > 1:
                f.vout.pop()
                outs = outs[:-1]
        elif what == 'input':
            t.vin[0].prevout.n = v % (len(outs) + 1)
        elif what == 'sig':
            t.vin[0].scriptSig = CScript([b'\x51', b'\0', b''][v % 3])
        elif what == 'follow':
            t.vin[0].prevout.hash = R.txid(F.p_tx(f))
        elif what == 'look':
            f.GetHash(), hash(f), t.GetHash(), f == t
        a, b = F.p_tx(f), F.p_tx(t)
        h, k, s, _ = b[1][0]
        expect = h == R.txid(a) and k < len(a[2]) and verdict(s, a[2][k][1], b, 0, False) is None
        seen.add(expect)
        got = outcome(VerifySignature, f, t, 0)
        if expect:
            ok(got[0] == 'ok', 'after %s: %r, expected success' % (what, got[1]))
        else:
            ok(got[0] == 'exc', 'after %s: accepted' % what)
            ok(isinstance(got[1], ValidationError), 'after %s: %r is not a validation error' % (what, got[1]))
    T.label('both verdicts' if len(seen) == 2 else 'accepted' if True in seen else 'rejected')
    T.nt(len(seen) == 2)


PROG = gen.mix(X.program(3), st.lists(X.push_item(), max_size=4).map(b''.join), st.lists(X.push_item(), max_size=2).map(b''.join))
SHORT = gen.mix(st.sampled_from([b'', b'\x51', b'\0', b'\x87', b'\x61', b'\x69\x51', b'\x75\x51', b'\x76', b'\x4b', b'\x51\x63', b'\x68']), X.program(3))
REDEEM = gen.mix(st.sampled_from([b'\x51', b'\0', b'', b'\x87', b'\x93\x52\x87', b'\x75', b'\x69\x51', b'\x76\x87', b'\x51\x63', b'\x4c', b'\x6a', b'\x74\x52\x9c']),
                 X.program(3).filter(lambda b: len(b) <= 520), st.sampled_from([519, 520, 521]).map(lambda n: R.push(b'r' * (n - 6)) + b'\x75\x51\x51'))
def _deep(draw):
    n = draw(st.one_of(st.integers(4, 40), st.sampled_from([19, 20, 21, 22, 99, 100, 101, 199, 200, 201, 255, 256, 257, 900, 997, 998, 999, 1000, 1001])))
    k = draw(st.one_of(st.integers(0, n + 2), st.sampled_from([0, n - 2, n - 1, n, n + 1])))
    # the item k below the top, or the depth, compared with what it should be, or off by one
    v = (n - 1 - k) % 16 + 1 if draw(st.booleans()) else draw(st.integers(0, 17))
    red = draw(st.sampled_from([R.push(R.num(k)) + b'\x79' + R.push(R.num(v)) + b'\x87', R.push(R.num(k)) + b'\x7a' + R.push(R.num(v)) + b'\x9c',
                                b'\x74' + R.push(R.num(k)) + b'\x87', b'\x6d' * min(k // 2, 150), b'\x74' + R.push(R.num(n)) + b'\x88' + b'\x51', b'\x6e' * 3 + b'\x74' + R.push(R.num(n + 6)) + b'\x87']))
    return ((n,), red, draw(st.sampled_from(['plain', 'plain', 'plain', 'nested', 'pushdata', 'dup', 'wrong'])), draw(st.integers(0, 5)))


DEEP = st.composite(_deep)()
STYLE = st.sampled_from(['plain', 'plain', 'plain', 'nested', 'nop', 'dup', 'reserved', 'skip reserved', 'lone', 'empty', 'near', 'wrong', 'pushdata', 'cut', 'number op'])
KEY = st.tuples(st.integers(0, len(K.SECRETS) - 1), st.one_of(st.sampled_from('cu'), st.sampled_from('ccch')))
SMALL = F.raw_script(6, False)
TX = st.tuples(st.sampled_from([1, 2]), st.lists(F.txin(SMALL), min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 2**50), SMALL), max_size=3), F.u32())
IDX = st.integers(0, 2)
SIGNED = st.tuples(st.sampled_from(['p2pk', 'p2pkh', 'multi', 'p2sh p2pk', 'p2sh p2pkh', 'p2sh multi']), st.lists(KEY, min_size=1, max_size=3), st.integers(1, 3),
                   K.hashtype(), K.how(), TX, IDX, st.integers(0, 2))
BETWEEN = st.tuples(st.tuples(st.sampled_from(['true', 'true', 'false', 'bad p2sh', 'not push only', 'empty', 'p2pkh', 'p2pk']), st.lists(KEY, min_size=1, max_size=1), K.hashtype()),
                    IDX, st.lists(st.tuples(st.integers(0, 2**50), st.sampled_from([b'\x51', b'\0', b'\x61', b''])), min_size=1, max_size=3), TX, IDX,
                    st.sampled_from(['none', 'none', 'hash', 'index', 'big index', 'negative input', 'input', 'other from', 'other output', 'other input',
                                                   'alias index', 'hash byte', 'hash reversed', 'null']), F.u32(), st.sampled_from(sorted(FROMS)))

SUBS = [
    Sub('pairs', pairs, gen=st.tuples(PROG, SHORT), quick=3600),
    Sub('p2sh', p2sh, gen=st.tuples(st.lists(X.item().filter(lambda b: len(b) <= 520), max_size=3), REDEEM, STYLE, st.integers(0, 5)), quick=3600),
    Sub('deep', p2sh, gen=DEEP, quick=1500),
    Sub('signed', signed, gen=SIGNED, quick=1500),
    Sub('between', between, gen=BETWEEN, quick=2700),
    Sub('changing', changing, gen=st.tuples(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([b'\x51', b'\x61', b'\0'])), min_size=1, max_size=3),
        st.lists(st.tuples(st.sampled_from(['lock', 'value', 'script', 'drop', 'input', 'sig', 'follow', 'follow', 'follow', 'look']), st.integers(0, 11)), min_size=2, max_size=8)), quick=900),
]
