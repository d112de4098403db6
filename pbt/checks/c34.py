import itertools
from hypothesis import strategies as st
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError
from .. import gen, ref_btc as R, ref_ec as E, ref_script as S, fx_btc as F, fx_sig as K
from ..core import Sub, eq, ok, outcome

RULE = """Real ECDSA signatures (made by a pure-Python implementation) over reference signature hashes: single and
m-of-n checks with every key form, hash type, order, duplicate, missing or spoiled signature, dummy element, wrong counts,
code separators before, between and in skipped branches, the signature itself inside the script, and a transaction
changed after signing. Every sequence of up to three signatures over up to five keys is enumerated. Verdict and final stack are those of a reference interpreter with a reference ECDSA verification, and
for changed transactions those of the table of what each hash type commits to. Non-trivial: at least one signature that is
valid for its key before any spoiling or tampering."""
ASSUMPTIONS = ['Signatures are strict DER (what OpenSSL makes of other encodings depends on its version)',
               'Public keys are compressed, uncompressed or hybrid points as OpenSSL decodes them']

SEQ = 2**32 - 1


def run(stack, script, tx, i, T, what=''):
    try:
        want = ('ok', S.evaluate(stack, script, K.checker(tx, i)))
    except S.Failed as e:
        want = ('failed', e)
    s = list(stack)
    got = outcome(EvalScript, s, CScript(script), F.r_tx(tx), i)
    if want[0] == 'ok':
        ok(got[0] == 'ok', '%s: failed with %r, reference leaves %r' % (what, got[1], want[1]))
        eq([bytes(x) for x in s], want[1], '%s: final stack' % what)
    else:
        ok(got[0] == 'exc', '%s: succeeded with %r, reference fails: %s' % (what, s, want[1].why))
        ok(isinstance(got[1], EvalScriptError), '%s: raised %r' % (what, got[1]))
    return want


def code_for(script, seps):
    """The part of the script that is signed: what follows the last executed separator"""
    return script


def single(case, T):
    k, form, ht, how, tx, i, pre, mid, op, other, inside = case
    i %= max(1, len(tx[1]))
    # script: pre <pubkey> mid CHECKSIG [post]; mid may hold separators
    key = K.pub(k, form)
    tail = bytes([op])
    body = pre + R.push(key) + mid + tail
    code = signed_part(body, [b'sig'])
    h, _ = R.sighash(code, tx, i, ht)
    sig = K.sign(other if how == 'otherkey' else k, h, ht, 0, how)
    script = body
    if inside == 1:
        # the signature pushed and dropped in the script: removed before hashing
        script = R.push(sig) + b'\x75' + body
        script_code_same = signed_part(script, [sig])
        want_code = S.find_and_delete(script_code_same, sig)
        # sign again over the script without the signature: the drop stays
        code = signed_part(b'\x75' + body, [b'sig'])
        if want_code == code:
            h, _ = R.sighash(code, tx, i, ht)
            sig = K.sign(k, h, ht, 0, how)
            script = R.push(sig) + b'\x75' + body
        else:
            # a separator came after it, so the code is as before
            pass
    want = run([b'\7', sig], script, tx, i, T, 'single')
    good = how in ('good', 'high') and form in ('c', 'u', 'h')
    if good and not inside:
        ok(want[0] == 'ok' and (op == 0xad or want[1][-1] == b'\1'), 'the reference rejects a good signature')
    T.label('op %x' % op, how, 'form ' + form, 'type %x' % ht, want[0], 'inside' if inside else 'outside', 'sep' if b'\xab' in mid + pre else 'nosep')
    T.nt(form in 'cuh')


def signed_part(script, stack):
    """What follows the last separator executed before the check at the end of script (conditions in it are constant)"""
    last, cond = 0, []
    for op, data, at in R.ops(script)[0]:
        if op == 0x63:
            cond.append(False)        # always written after OP_0
        elif op == 0x68:
            cond.pop()
        elif op == 0xab and not cond:
            last = at
    return script[last:]


def multi(case, T):
    keys, sigs, op, tx, i, dummy, dn, dm, pre, mid, inside = case
    i %= max(1, len(tx[1]))
    pubs = [K.pub(k, f) for k, f in keys]
    # <dummy> <sigs> m | pre <m> <pubs> n mid CHECKMULTISIG
    rest = b''.join(map(R.push, pubs)) + R.push(R.num(len(pubs) + dn)) + mid + bytes([op])
    inside = inside if sigs else []
    body = pre + b'\x75' * len(inside) + rest
    code = signed_part(body, [])
    out = []
    for n, (which, ht, how) in enumerate(sigs):
        k = keys[which % len(keys)][0] if keys and which < 100 else which % len(K.SECRETS)
        h, _ = R.sighash(code, tx, i, ht)
        out.append(K.sign(k, h, ht, n % 2, how))
    # some of the signatures are also pushed and dropped in the script, in their shortest encoding or another
    for which, how in inside:
        s = out[which % len(out)]
        pre += {0: R.push(s), 1: b'\x4c' + bytes([len(s)]) + s, 2: R.push(s + b'\1'), 3: R.push(s[:-1])}[how]
    body = pre + b'\x75' * len(inside) + rest
    stack = ([b'\7'] if dummy != 'none' else []) + {'empty': [b''], 'none': [], 'one': [b'\1'], 'junk': [b'abc']}[dummy] + out + [R.num(len(out) + dm)]
    if dummy == 'none':
        stack = out + [R.num(len(out) + dm)]
    want = run(stack, body, tx, i, T, 'multi')
    T.label('op %x' % op, '%d of %d' % (len(sigs), len(keys)), want[0] + (':' + (want[1][-1].hex() if want[1] else '') if want[0] == 'ok' and op == 0xae else ''),
            'dummy ' + dummy, '%d inside' % len(inside))
    T.nt(any(h == 'good' for _, _, h in sigs) and bool(keys))


def tampering(case, T):
    """A good signature, then one change of the transaction; the outcome is that of the commitment table"""
    k, ht, tx, i, field, j, v, multisig = case
    i %= len(tx[1])
    form = 'c'
    script = b'\x51' + R.push(K.pub(k, form)) + R.push(K.pub((k + 1) % 8, 'u')) + b'\x52\xae' if multisig else R.push(K.pub(k, form)) + b'\xac'
    h, err = R.sighash(script, tx, i, ht)
    sig = K.sign(k, h, ht)
    stack = [b'', sig] if multisig else [sig]
    version, vin, vout, lock = tx
    vin, vout = list(vin), list(vout)
    base, anyone = ht & 0x1f, bool(ht & 0x80)
    single_, none_ = base == 3, base == 2
    j_in, j_out = j % len(vin), j % len(vout) if vout else None
    committed = True
    if field == 'version':
        version = version ^ (1 << (v % 31))
    elif field == 'locktime':
        lock = lock ^ (1 << (v % 32))
    elif field in ('prevhash', 'previndex', 'sequence', 'scriptsig'):
        a, b, c, d = vin[j_in]
        if field == 'prevhash':
            a = a[:v % 32] + bytes([a[v % 32] ^ 1]) + a[v % 32 + 1:]
        elif field == 'previndex':
            b ^= 1 << (v % 32)
        elif field == 'sequence':
            d ^= 1 << (v % 32)
        else:
            c = c + b'\x51'
        vin[j_in] = (a, b, c, d)
        committed = (j_in == i or not anyone) if field in ('prevhash', 'previndex') else \
            (j_in == i or not (anyone or single_ or none_)) if field == 'sequence' else False
    elif field == 'addinput':
        vin.append((b'\x99' * 32, v % 1000, b'', v % 2**32))
        committed = not anyone
    elif field in ('value', 'outscript') and vout:
        a, b = vout[j_out]
        if field == 'value':
            a ^= 1 << (v % 50)
        else:
            b = b + b'\x61'
        vout[j_out] = (a, b)
        committed = not none_ and (not single_ or j_out == i)
    elif field == 'addoutput':
        vout.append((v % 10**6, b'\x51'))
        committed = not none_ and not single_
    elif field == 'dropoutput' and vout and len(vout) - 1 != i:
        vout.pop()
        committed = not none_ and not single_
    else:
        committed = False
    single_bug = err is not None
    tx2 = (version, vin, vout, lock)
    if single_bug:
        # nothing at all is committed to as long as there is no output for the input
        committed = i < len(vout)
    want = run(stack, script, tx, i, T, 'untampered')
    eq(want, ('ok', [b'\1']), 'reference verdict on the untampered transaction')
    want = run(stack, script, tx2, i, T, 'tampered')
    eq(want, ('ok', [b'' if committed else b'\1']), 'reference verdict after changing %s' % field)
    s = list(stack)
    EvalScript(s, CScript(script), F.r_tx(tx2), i)
    eq([bytes(x) for x in s], [b'' if committed else b'\1'], 'after changing %s under hash type 0x%x' % (field, ht))
    T.label(field, 'type %x' % ht, 'committed' if committed else 'free', 'single bug' if single_bug else 'normal')
    T.nt()


def scripts(case, T):
    """A signature for one script does not do for another, and separators decide which part counts"""
    k, ht, tx, i, a, b = case
    i %= len(tx[1])
    end = R.push(K.pub(k)) + b'\xac'
    h, _ = R.sighash(a + end, tx, i, ht)
    sig = K.sign(k, h, ht)
    for s in (a + end, b + end, a + b'\xab' + end, b'\xab' + a + end, b + b'\xab' + a + end, a + b'\0\x63\xab\x68' + end, b + b'\xab' + a + b'\xab' + end):
        run([sig], s, tx, i, T, 'script %s' % s.hex())
    T.nt()


def twenty(case, T):
    """Up to twenty keys and the operation count they add"""
    n, m, skip, filler, ht = case
    m = min(m, n)
    keys = [(j * 3 + skip) % len(K.SECRETS) for j in range(n)]
    body = R.push(R.num(m)) + b''.join(R.push(K.pub(k)) for k in keys) + R.push(R.num(n)) + b'\xae' + b'\x61' * filler
    tx = (1, [(b'\1' * 32, 0, b'', SEQ)], [(5, b'')], 0)
    h, _ = R.sighash(body, tx, 0, ht)
    idx = list(range(n))[n - m:] if skip % 2 else list(range(m))
    sigs = [K.sign(keys[j], h, ht) for j in idx]
    want = run([b''] + sigs, body, tx, 0, T, 'twenty')
    T.label('%d keys' % n, want[0])
    T.nt(m > 0 and n <= 20)


def infinity(case, T):
    """A signature anyone can make for the point at infinity"""
    s, ht, tx, i, multisig = case
    i %= len(tx[1])
    script = b'\x51' + R.push(b'\0') + b'\x51\xae' if multisig else R.push(b'\0') + b'\xac'
    h, _ = R.sighash(script, tx, i, ht)
    z = int.from_bytes(h, 'big')
    r = E.mul(z * pow(s, -1, E.N), E.G)[0] % E.N
    sig = E.der(r, s) + bytes([ht])
    want = run([b'', sig], script, tx, i, T, 'infinity')
    eq(want[1][-1], b'', 'reference verdict')
    T.nt()


def many_inside(case, T):
    """m of n, with every one of the signatures also pushed and dropped in the script"""
    n, m, how, ht = case
    keys = [(j * 3 + how) % len(K.SECRETS) for j in range(n)]
    tail = b'\x75' * m + R.push(R.num(m)) + b''.join(R.push(K.pub(k)) for k in keys) + R.push(R.num(n)) + b'\xae'
    tx = (1, [(b'\1' * 32, 0, b'', SEQ)], [(5, b'')], 0)
    # all of them different, as the same secret signs with another hash type
    hts = [(ht + 4 * (j // 8)) & 0xff for j in range(n)]
    sigs = [K.sign(keys[j], R.sighash(tail, tx, 0, hts[j])[0], hts[j]) for j in range(n - m, n)]
    order = sigs if how == 0 else sigs[::-1]
    if how == 2:
        order = sigs[:m // 2] + sigs[:m - m // 2]
    want = run([b''] + sigs, b''.join(map(R.push, order)) + tail, tx, 0, T, 'many inside')
    T.label('%d of %d inside' % (m, n), want[0])
    T.nt()


SEP = st.sampled_from([b'', b'', b'\xab', b'\x61', b'\0\x63\xab\x68', b'\xab\x61\xab', b'\x61\xab\x51\x75'])
SMALLSCRIPT = F.raw_script(6, False)
TX = st.tuples(st.sampled_from([1, 2, -1]), st.lists(F.txin(SMALLSCRIPT), min_size=1, max_size=3),
               st.lists(st.tuples(st.integers(0, 2**50), SMALLSCRIPT), max_size=3), F.u32())
KEY = st.integers(0, len(K.SECRETS) - 1)
IDX = st.integers(0, 2)
OP1 = st.sampled_from([0xac, 0xac, 0xad])
SINGLE = st.tuples(KEY, K.keyform(), K.hashtype(), st.one_of(K.how(), st.just('otherkey')), TX, IDX, SEP, SEP, OP1, KEY, st.sampled_from([0, 0, 1]))
SIG = st.tuples(st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(100, 108)), K.hashtype(), K.how())


INSIDE = st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3])), max_size=4))


def _ordered(draw):
    """Mostly signatures in the order of their keys"""
    keys = draw(st.lists(st.tuples(KEY, st.one_of(st.sampled_from('cu'), K.keyform())), max_size=draw(st.sampled_from([4, 4, 8]))))
    if draw(st.booleans()):
        # no two with the same secret
        keys = [k for j, k in enumerate(keys) if k[0] not in [a for a, _ in keys[:j]]]
    subset = [j for j in range(len(keys)) if draw(st.booleans())]
    ht = draw(K.hashtype())
    sigs = [(j, draw(K.hashtype()) if draw(st.integers(0, 3)) == 0 else ht, 'good') for j in subset]
    change = draw(st.sampled_from(['no', 'no', 'swap', 'dup', 'same', 'spoil', 'drop', 'other', 'exchange']))
    if sigs and change != 'no':
        j = draw(st.integers(0, len(sigs) - 1))
        if change == 'swap':
            sigs = sigs[j:] + sigs[:j]
        elif change == 'dup':
            sigs.insert(j, sigs[j])
        elif change == 'same':
            # one signature twice and another missing
            sigs[draw(st.integers(0, len(sigs) - 1))] = sigs[j]
        elif change == 'exchange':
            i = draw(st.integers(0, len(sigs) - 1))
            sigs[i], sigs[j] = sigs[j], sigs[i]
        elif change == 'spoil':
            sigs[j] = sigs[j][:2] + (draw(K.how()),)
        elif change == 'drop':
            del sigs[j]
        else:
            sigs[j] = (100 + draw(KEY),) + sigs[j][1:]
    return (keys, sigs, draw(st.sampled_from([0xae, 0xae, 0xaf])), draw(TX), draw(IDX), draw(st.sampled_from(['empty', 'empty', 'empty', 'one', 'junk', 'none'])),
            draw(st.sampled_from([0] * 10 + [1, -1])), draw(st.sampled_from([0] * 10 + [1, -1])), draw(SEP), draw(SEP), draw(INSIDE))


MULTI = gen.mix(st.composite(_ordered)(), st.composite(_ordered)(), st.tuples(
    st.lists(st.tuples(KEY, K.keyform()), max_size=3), st.lists(SIG, max_size=3), st.sampled_from([0xae, 0xaf]), TX, IDX,
    st.sampled_from(['empty', 'one', 'none']), st.sampled_from([0, 0, 0, 1, -1]), st.sampled_from([0, 0, 0, 1, -1]), SEP, SEP, INSIDE))
FIELDS = ['version', 'locktime', 'prevhash', 'previndex', 'sequence', 'scriptsig', 'addinput', 'value', 'outscript', 'addoutput', 'dropoutput']
TAMPER = st.tuples(KEY, st.sampled_from([1, 2, 3, 0x81, 0x82, 0x83, 0, 0x41, 0x43, 0xc2]), TX, IDX, st.sampled_from(FIELDS), st.integers(0, 5), F.u32(), st.booleans())

TX1 = (1, [(b'\1' * 32, 0, b'', 2**32 - 1), (b'\2' * 32, 1, b'', 5)], [(5, b'\x51')], 0)


def orders():
    """Every sequence of up to three signatures by up to five keys, and of two or three by up to eight"""
    for n, ms in ((1, (1, 2)), (2, (1, 2, 3)), (3, (1, 2, 3)), (4, (1, 2, 3)), (5, (1, 2, 3)), (6, (2,)), (7, (2,)), (8, (2,))):
        for m in ms:
            for which in itertools.product(range(n), repeat=m):
                yield n, which
    for n in (6, 7, 8):
        for a in range(n):
            for gap in (1, 2):
                b = a + gap
                for which in ((a, b % n, n - 1), (0, a, b % n), (a, a, b % n), (a, b % n, b % n)):
                    yield n, which


def order(case, T):
    n, which = case
    keys = [((j * 3 + 1) % 8, 'c' if j % 3 else 'u') for j in range(n)]
    sigs = [(j, [1, 2, 0x83][(n + sum(which)) % 3], 'good') for j in which]
    multi((keys, sigs, 0xae, TX1, sum(which), 'empty', 0, 0, b'', b'', []), T)
    want = all(a < b for a, b in zip(which, which[1:]))
    T.label('in order' if want else 'out of order')
    T.nt()


SUBS = [
    Sub('orders', order, enum=orders),
    Sub('single', single, gen=SINGLE, quick=2700),
    Sub('multi', multi, gen=MULTI, quick=2700),
    Sub('tampering', tampering, gen=TAMPER, quick=2700),
    Sub('many_inside', many_inside, enum=lambda: iter([(n, m, how, ht) for n in (1, 2, 3, 16, 17, 20) for m in range(1, n + 1) for how in range(3) for ht in ((1, 0x83) if n < 4 else (1,)) if m < 4 or m > 13])),
    Sub('scripts', scripts, gen=st.tuples(KEY, K.hashtype(), TX, IDX, st.sampled_from([b'', b'\x61', b'\x51\x75']), st.sampled_from([b'\x61\x61', b'\x52\x75', b'\x61'])), quick=480),
    Sub('infinity', infinity, gen=st.tuples(st.integers(1, 2**64), K.hashtype(), TX, IDX, st.booleans()), quick=120),
    Sub('twenty', twenty, gen=st.tuples(st.integers(0, 21), st.integers(0, 21), st.integers(0, 3), st.sampled_from([0, 178, 179, 180, 181, 190]), K.hashtype()), quick=300),
]
