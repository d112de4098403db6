import io
import os
import shutil
import subprocess
import sys
import tempfile
from hypothesis import strategies as st

import bitcoin
import bitcoin.rpc
from bitcoin.core import CTransaction
import proofchains.core.bitcoin
import proofchains.core.uniquebits.singleuseseal
import proofchains.uniquebits.singleuseseal

from .. import core, gen, ref_pm, ref_btc as R, fx_btc, fx_seal
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_seal.S

RULE = """Sequences of sus-tool commands run in a scratch directory (in forked processes with argv set; a part of the cases as
real subprocesses): seals are made from generated outpoints, closed over a generated digest with a generated method,
witnessed, shown and verified, and every file and printed value compared with the reference; then the same in
directories and under names of every sort, for up to 100 seals and transactions of thousands of inputs; then with one
thing wrong (digest, seal file, seal id, witness bytes, existing files, duplicate seals, unrelated transactions,
malformed arguments), where the exit status must be non-zero and existing files unchanged. Tampered witnesses are judged
by a reference parse. Non-trivial: a whole mkseal - mkclosetx - mkwitness - verifywitness chain."""
ASSUMPTIONS = ['A bitcoin.conf with rpcuser and rpcpassword exists in the home directory; --txid is answered by a stand-in for the RPC proxy']

TOOL = os.path.join(core.REPO, 'sus-tool.py')
_code = []


def run(cwd, *args, tx=None):
    """Run the tool in a forked process -> (exit status, stdout)"""
    if not _code:
        with open(TOOL) as f:
            _code.append(compile(f.read(), TOOL, 'exec'))
    out = os.path.join(cwd, '.stdout')
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.environ['HOME'] = os.path.join(cwd, 'home')
            os.chdir(cwd)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 0)
            os.dup2(fd, 1)
            os.dup2(nul, 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            sys.argv = [TOOL] + list(args)
            if tx is not None:
                class Proxy:
                    def __init__(self, *a, **k):
                        self.network = bitcoin.params.NAME

                    def getrawtransaction(self, txid, verbose=False):
                        if txid != R.txid(tx) or self.network != ('testnet' if '-t' in args else 'mainnet'):
                            raise IndexError('no such transaction')
                        return CTransaction.deserialize(R.ser_tx(tx))
                bitcoin.rpc.Proxy = Proxy
            ns = {'__name__': '__main__', '__file__': TOOL, '__builtins__': __builtins__}
            try:
                exec(_code[0], ns)
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                status = 1
            # files are closed and flushed as at interpreter exit
            a = ns.get('args')
            for v in list(vars(a).values()) if a is not None else []:
                for f in v if isinstance(v, list) else [v]:
                    if isinstance(f, io.IOBase):
                        f.close()
            sys.stdout.flush()
        finally:
            os._exit(status & 0xff)
    _, st_ = os.waitpid(pid, 0)
    with open(out) as f:
        text = f.read()
    return (os.waitstatus_to_exitcode(st_), text)


def run_real(cwd, *args, tx=None):
    """Run the tool as a subprocess"""
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONOPTIMIZE')}
    env['HOME'] = os.path.join(cwd, 'home')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([sys.executable, '-W', 'ignore', TOOL] + list(args), cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return (p.returncode, p.stdout.decode())


class Box:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='pbt-sus-')
        os.makedirs(os.path.join(self.dir, 'home', '.bitcoin'))
        os.makedirs(os.path.join(self.dir, 'd', 'e.f'))
        with open(os.path.join(self.dir, 'home', '.bitcoin', 'bitcoin.conf'), 'w') as f:
            f.write('rpcuser=u\nrpcpassword=p\n')
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def read(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def write(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data)

    def files(self):
        out = {}
        for d, dirs, names in os.walk(self.dir):
            if d == self.dir:
                dirs.remove('home')
            out.update({os.path.relpath(os.path.join(d, n), self.dir): self.read(os.path.join(d, n)) for n in names if n != '.stdout'})
        return out


STYLES = ['s%d', 'd/s%d', 'd/e.f/s%d', './s%d', '%%s/d/s%d.seal', 's%d.seal', 's%d.a-rather-long-extension', 's %d .x', 'd/../s%d.a.b.c', '.s%d', 'd/.s%d',
          's%d.witness', 'sé%d.sèàl', 's%d' + 'n' * 200, 'd/e.f/s%d.witness.seal', 's%d.', 'S%d.SEAL', '%%s/s%d', 's%d%%%%s', 'd//s%d', '~s%d', '$HOME%d', '*%d', 's%d;x']


def naming(box, style):
    def name(i):
        n = STYLES[style] % i
        return n.replace('%s', box.dir, 1) if n.startswith('%s') else n
    return name


def outpoint_arg(o):
    return '%s:%d' % (o[0][::-1].hex(), o[1])


def read_seal(data):
    t = S.parse(('proof', 'BtcSeal'), data)
    o = R.Reader(t[1]).outpoint()
    eq(len(t[1]), 36, 'size of the outpoint in a seal')
    return o + (t[2],)


def printed(text):
    out = {}
    for line in text.splitlines():
        k, sep, v = line.partition(':')
        ok(sep and k not in out, 'printed %r' % text)
        out[k] = v.strip()
    return out


def judge(witness, digest, seal, sid):
    """Should verification of these witness bytes succeed?"""
    try:
        w = S.parse(('proof', 'BtcWitness'), witness)
        if S.contains_pruned(w):
            need = [w[1], w[2], w[3]]
            if any(x[0] == 'PRUNED' for x in need) or w[2][2][0] == 'PRUNED':
                return False
            if w[3][2][0] == 'PRUNED':
                if digest is not None:
                    return False
        r = R.Reader(w[1][1])
        o = r.outpoint()
        if r.i != len(r.b):
            return False
        txs = []
        for part in (w[2], w[3]):
            if part[2][0] == 'PRUNED':
                txs.append((None, part[2][2]))
                continue
            r = R.Reader(part[2][1])
            tx = r.tx()
            if r.i != len(r.b):
                return False
            txs.append((tx, R.txid(tx)))
    except (ref_pm.Reject, R.Bad):
        return False
    (itx, iid), (otx, oid) = txs
    if iid != oid or not w[2][1] < len(itx[1]) or itx[1][w[2][1]][:2] != o:
        return False
    if digest is not None and not (w[3][1] < len(otx[2]) and otx[2][w[3][1]][1] in fx_seal.closing_scripts(digest).values()):
        return False
    term = ('BtcSeal', R.ser_outpoint(o), w[1][2])
    if seal is not None and S.hash(fx_seal.t_seal(seal)) != S.hash(term):
        return False
    if sid is not None and sid != S.hash(term):
        return False
    return True


FLAGS = {'op_return': '--op-return', 'p2sh': '--p2sh', 'p2pkh': '--p2pkh'}


def make_seals(box, runner, outpoints, options=(), naming=lambda i: 's%d' % i):
    seals = []
    for i, o in enumerate(outpoints):
        name = naming(i)
        eq(runner(box.dir, *options, 'mkseal', outpoint_arg(o), name), (0, ''), 'mkseal')
        seal = read_seal(box.read(name))
        eq(seal[:2], o, 'outpoint in the seal file')
        eq(box.read(name), S.wire(fx_seal.t_seal(seal)), 'seal file')
        seals.append(seal)
        status, text = runner(box.dir, *options, 'sealinfo', name)
        eq(status, 0, 'sealinfo')
        eq(printed(text), {'Hash': S.hash(fx_seal.t_seal(seal)).hex(), 'OutPoint': outpoint_arg(o)}, 'sealinfo')
    eq(runner(box.dir, *options, 'mkseal', outpoint_arg(outpoints[0]), 'again'), (0, ''), 'mkseal')
    again = read_seal(box.read('again'))
    eq(again[:2], outpoints[0], 'outpoint in the seal file')
    ok(len(set(s[2] for s in seals + [again])) == len(seals) + 1, 'a nonce was used twice')
    for k in range(len(seals) + 1):
        n = (seals + [again])[k][2]
        halves = (n[:8], n[8:])
        ok(halves[0] != halves[1] and len(set(n)) > 4, 'nonce %s' % n.hex())
    for a in seals + [again]:
        for b in seals + [again]:
            ok(a is b or a[2][:8] != b[2][:8] and a[2][8:] != b[2][8:], 'nonces sharing a half')
    return seals


def near_inputs(seal, k):
    """Outpoints that are not quite the seal's"""
    h, n = seal[:2]
    return [x for x in [(fx_seal.bitflip(h, k), n), (h, (n + 1) % 2**32), (h, (n - 1) % 2**32), (h[::-1], n), (h, n ^ (1 << k % 32)), (h[:31] + bytes([h[31] ^ 1]), n),
            (bytes([h[0] ^ 1]) + h[1:], n), (b'\0' * 32, n), (h, n ^ 0x100), (R.sha256(h), n)]
            if x != (h, n)]


def chain(case, T, runner=run):
    outpoints, digest, meth, extra, txid, options, other, muts, style = case
    with Box() as box:
        seals = make_seals(box, runner, outpoints, options, naming(box, style))
        names = [naming(box, style)(i) for i in range(len(seals))]
        before = box.files()
        flags = [FLAGS[meth]] if meth else []
        status, text = runner(box.dir, *options, 'mkclosetx', *flags, digest.hex(), *names)
        eq(status, 0, 'mkclosetx')
        r = R.Reader(bytes.fromhex(text.strip()))
        tx = r.tx()
        eq(r.i, len(r.b), 'size of the closing transaction')
        eq(text, R.ser_tx(tx).hex() + '\n', 'printed closing transaction')
        eq([(h, n, s) for h, n, s, q in tx[1]], [s[:2] + (b'',) for s in seals], 'inputs of the closing transaction')
        eq([s for v, s in tx[2]], [fx_seal.closing_scripts(digest)[meth or 'op_return']], 'outputs of the closing transaction')
        # signing and change don't matter, nor do other inputs, even those that are not quite the seals'
        near = [x + (b'', 1) for k, s in enumerate(seals) for x in near_inputs(s, 8 * len(extra) + k) if x not in [s[:2] for s in seals]] if extra else []
        vin = [(h, n, extra, q) for h, n, s, q in tx[1]]
        tx = (tx[0], near + vin + [(b'\x77' * 32, 7, b'', 1)] if len(extra) % 2 else vin + near, tx[2] + [(1, extra)] * bool(extra), tx[3])
        if txid and runner is run:
            eq(runner(box.dir, *options, 'mkwitness', '--txid', R.txid(tx)[::-1].hex(), *names, tx=tx), (0, ''), 'mkwitness --txid')
        else:
            eq(runner(box.dir, *options, 'mkwitness', '--tx', R.ser_tx(tx).hex(), *names), (0, ''), 'mkwitness --tx')
        eq(set(box.files()), set(before) | {os.path.relpath(os.path.normpath(box.path(n + '.witness')), box.dir) for n in names}, 'files after mkwitness')
        for i, (name, seal) in enumerate(zip(names, seals)):
            wf = name + '.witness'
            at = [k for k, x in enumerate(tx[1]) if x[:2] == seal[:2]][0]
            term = fx_seal.t_witness(seal, at, tx, 0, tx)
            eq(box.read(wf), S.wire(term), 'witness file')
            status, text = runner(box.dir, *options, 'witnessinfo', wf)
            eq(status, 0, 'witnessinfo')
            eq(printed(text), {'Hash': S.hash(term).hex(), 'Txid': R.txid(tx)[::-1].hex(), 'Seal Hash': S.hash(term[1]).hex(),
                               'Seal OutPoint': outpoint_arg(seal)}, 'witnessinfo')
            sid = S.hash(term[1]).hex()
            good = ['-d', digest.hex(), '--seal-file', name, '--seal-id', sid]
            for opts in ([], good, good[:2], good[2:4], good[4:]) if i == 0 else (good,):
                eq(runner(box.dir, *options, 'verifywitness', *opts, wf), (0, ''), 'verifywitness %r' % (opts,))
            # one thing wrong
            for wrong in (other, fx_seal.bitflip(digest, i), digest[::-1], R.sha256(digest)):
                if wrong != digest:
                    bad = runner(box.dir, *options, 'verifywitness', '-d', wrong.hex(), *good[2:], wf)
                    ok(bad[0] != 0, 'verifywitness with a wrong digest succeeds')
                    if runner is not run:
                        break
            if i == 0:
                box.write('other', S.wire(fx_seal.t_seal(seal[:2] + (fx_seal.bitflip(seal[2], 5),))))
                box.write('other2', S.wire(fx_seal.t_seal(near_inputs(seal, len(muts))[len(extra) % 8] + (seal[2],))))
                badd, badid = fx_seal.bitflip(digest, len(extra) + 7).hex(), fx_seal.bitflip(bytes.fromhex(sid), 9 + len(muts)).hex()
                oid = S.hash(fx_seal.t_seal(seal[:2] + (fx_seal.bitflip(seal[2], 5),))).hex()
                for k, wrong in [(0, ['-d', badd]), (1, ['--seal-file', 'other']), (1, ['--seal-file', 'other2']), (2, ['--seal-id', badid]), (2, ['--seal-id', oid]),
                                 (2, ['--seal-id', digest.hex()])]:
                    for keep in range(4) if runner is run else (3,):
                        rest = [good[2 * j:2 * j + 2] for j in range(3) if j != k]
                        bad = (rest[0] if keep & 1 else []) + wrong + (rest[1] if keep & 2 else [])
                        ok(runner(box.dir, *options, 'verifywitness', *bad, wf)[0] != 0, 'verifywitness succeeds with wrong %s (%r)' % (wrong[0], bad))
                for m in muts:
                    data = gen.mutate(S.wire(term), m)
                    box.write('t.witness', data)
                    d, sl, si = (digest, seal, bytes.fromhex(sid))
                    want = judge(data, d, sl, si)
                    got = runner(box.dir, *options, 'verifywitness', *good, 't.witness')
                    eq(got[0] == 0, want, 'verification of tampered witness %s' % data.hex())
                    T.label('tampered ' + ('accepted' if want else 'refused'))
        if len(seals) > 1:
            ok(runner(box.dir, *options, 'verifywitness', '--seal-file', names[1], names[0] + '.witness')[0] != 0, 'verifywitness with the other seal succeeds')
        # nothing is overwritten
        before = box.files()
        ok(runner(box.dir, *options, 'mkwitness', '--tx', R.ser_tx(tx).hex(), *names)[0] != 0, 'mkwitness over existing files')
        ok(runner(box.dir, *options, 'mkseal', outpoint_arg(outpoints[0]), names[0])[0] != 0, 'mkseal over an existing file')
        eq(box.files(), before, 'files')
    T.label(str(meth), '%d seals' % len(seals), *options)
    T.nt()


def many(case, T):
    """Many seals and long transactions: order, duplicates and positions"""
    n, pad, long, k, dup, digest, meth, cut = case
    outpoints = [(R.sha256(bytes([i % 256, k % 256])), (i * 7919 + k) % 2**32) for i in range(n)]
    if k % 2:
        outpoints = [(outpoints[0][0], o[1]) for o in outpoints]
    seals = [o + (R.sha256(bytes([i % 256, 255 - k % 256]))[:16],) for i, o in enumerate(outpoints)]
    with Box() as box:
        names = ['d/s%d' % i if k % 3 else 's%d.seal' % i for i in range(n)]
        for name, s in zip(names, seals):
            box.write(name, S.wire(fx_seal.t_seal(s)))
        status, text = run(box.dir, 'mkclosetx', *[FLAGS[meth]], digest.hex(), *names)
        eq(status, 0, 'mkclosetx')
        tx = R.Reader(bytes.fromhex(text.strip())).tx()
        eq([i[:2] for i in tx[1]], outpoints, 'inputs of the closing transaction')
        eq([o[1] for o in tx[2]], [fx_seal.closing_scripts(digest)[meth]], 'outputs of the closing transaction')
        if n > 1:
            # the same seal again, further along, under its own name or another
            i, j = dup % n, k % (n + 1)
            box.write('again', box.read(names[i]))
            again = names[:j] + [['again', names[i]][dup % 2]] + names[j:]
            status, text = run(box.dir, 'mkclosetx', digest.hex(), *again)
            ok(status != 0 and text == '', 'mkclosetx with seal %d again at %d of %d' % (i, j, n))
        fill = [(R.sha256(bytes([i % 256, i // 256, k % 256])), i, b'', 0) for i in range(pad)]
        at = k % (pad + 1)
        closing = [o + (b'\1' * (long % 5), 1) for o in outpoints]
        tx = (tx[0], fill[:at] + closing[:n // 2] + fill[at:] + closing[n // 2:], tx[2] + [(i, b'\6' * 20) for i in range(long % 7)] + [(9, b'\7' * long)], tx[3])
        before = box.files()
        if len(R.ser_tx(tx)) < 60000:
            eq(run(box.dir, 'mkwitness', '--tx', R.ser_tx(tx).hex(), *names), (0, ''), 'mkwitness --tx')
        else:
            eq(run(box.dir, 'mkwitness', '--txid', R.txid(tx)[::-1].hex(), *names, tx=tx), (0, ''), 'mkwitness --txid')
        eq(set(box.files()), set(before) | {x + '.witness' for x in names}, 'files after mkwitness')
        where = {x[:2]: i for i, x in enumerate(tx[1])}
        for i, (name, s) in enumerate(zip(names, seals)):
            term = fx_seal.t_witness(s, where[s[:2]], tx, 0, tx)
            data = box.read(name + '.witness')
            eq(data, S.wire(term), 'witness file %d' % i)
            if i in (0, n // 2, n - 1):
                eq(run(box.dir, 'verifywitness', '-d', digest.hex(), '--seal-file', name, name + '.witness'), (0, ''), 'verifywitness')
                ok(run(box.dir, 'verifywitness', '-d', fx_seal.bitflip(digest, k).hex(), name + '.witness')[0] != 0, 'verifywitness with another digest')
                status, text = run(box.dir, 'witnessinfo', name + '.witness')
                eq((status, printed(text)), (0, {'Hash': S.hash(term).hex(), 'Txid': R.txid(tx)[::-1].hex(), 'Seal Hash': S.hash(term[1]).hex(),
                                                 'Seal OutPoint': outpoint_arg(s)}), 'witnessinfo')
                # a witness or seal cut short, or with something after it
                box.write('t', data[:-1 - cut % len(data)])
                ok(run(box.dir, 'verifywitness', 't')[0] != 0, 'verifywitness of %d of %d bytes' % (len(box.read('t')), len(data)))
                box.write('t', data + bytes(1 + cut % 3))
                for cmd in ('verifywitness', 'witnessinfo'):
                    ok(run(box.dir, cmd, 't')[0] != 0, '%s with something after the witness of %d bytes' % (cmd, len(data)))
    T.label('%d seals' % n if n < 3 else 'many seals', 'witness of %s bytes' % ('<= 64k' if len(data) <= 65536 else '> 64k'))
    T.nt()


def many_gen():
    return st.tuples(st.integers(1, 12), st.one_of(st.integers(0, 4), st.integers(245, 300)), st.one_of(st.integers(0, 600), st.integers(30000, 140000)),
                     st.integers(0, 2**20), st.integers(0, 2**20), gen.digest(), st.sampled_from(sorted(FLAGS)), st.integers(0, 2**20))


def many_cases():
    return [(2, 252, 0, 252, 1, b'\5' * 32, 'op_return', 0), (30, 3, 100, 1, 0, b'\5' * 32, 'p2sh', 9), (3, 260, 0, 0, 4, b'\6' * 32, 'p2pkh', 100),
            (5, 0, 70000, 3, 2, b'\5' * 32, 'op_return', 40), (1, 1700, 5, 1700, 0, b'\6' * 32, 'p2sh', 70000), (100, 0, 0, 6, 50, b'\5' * 32, 'op_return', 1)]


def nonces(case, T):
    """Seals for one outpoint: every bit of the nonce varies"""
    with Box() as box:
        seen = []
        for i in range(48):
            eq(run(box.dir, 'mkseal', outpoint_arg(case), 's%d' % i), (0, ''), 'mkseal')
            seal = read_seal(box.read('s%d' % i))
            eq(seal[:2], case, 'outpoint in the seal file')
            seen.append(int.from_bytes(seal[2], 'big'))
        zeros, ones = 0, 0
        for n in seen:
            ones |= n
            zeros |= ~n
        ok(ones == 2**128 - 1 and zeros & (2**128 - 1) == 2**128 - 1, 'bits of the nonce never vary: %032x' % ((ones & zeros) ^ (2**128 - 1)))
        eq(len({n >> s & 0xffffffff for n in seen for s in range(0, 128, 32)}) > 48 * 4 - 3, True, 'nonces made of repeated parts')
    T.nt()


def pruned(case, T):
    """witnessinfo and verifywitness on witnesses with pruned transactions"""
    c21case, digest, meth, at, use, which, cut = case
    from .c21 import build_case
    seal, itx, i, otx, o = build_case(c21case)
    otx = (otx[0], otx[1], list(otx[2]) + [(0, fx_seal.closing_scripts(digest)[meth])], otx[3])
    if at % 4:
        itx = otx
        o = len(otx[2]) - 1 if at % 3 else o
        if at % 2 and itx[1]:
            i %= len(itx[1])
            seal = itx[1][i][:2] + (seal[2],)
    parts = [fx_seal.t_seal(seal), fx_seal.t_in(i, itx), fx_seal.t_out(o, otx)]
    h = [S.hash(p) for p in parts]
    whash = S.hash(('BtcWitness',) + tuple(parts))
    used = {'seal': True, 'txinproof': True, 'txoutproof': True}
    if which & 1:
        used['txinproof'] = {}
    if which & 2:
        used['txoutproof'] = {}
    if which & 4:
        used['txinproof'] = None
    if which & 8:
        used['txoutproof'] = None
    if which & 16:
        used['seal'] = None
    data = S.wire(('BtcWitness',) + tuple(parts), used)
    w = S.parse(('proof', 'BtcWitness'), data)
    eq(S.hash_read(w), whash, '(machinery) hash of the pruned witness')
    with Box() as box:
        box.write('w', data)
        box.write('s', S.wire(parts[0]))
        args = (['-d', digest.hex()] if use & 1 else []) + (['--seal-file', 's'] if use & 2 else []) + (['--seal-id', h[0].hex()] if use & 4 else [])
        want = judge(data, digest if use & 1 else None, seal if use & 2 else None, h[0] if use & 4 else None)
        status, out = run(box.dir, 'verifywitness', *args, 'w')
        eq(status == 0, want, 'verifywitness %r of a pruned witness' % (args,))
        status, out = run(box.dir, 'witnessinfo', 'w')
        if which & (4 | 16):
            ok(status != 0, 'witnessinfo without the seal or the input proof succeeds')
        else:
            eq((status, printed(out)), (0, {'Hash': whash.hex(), 'Txid': R.txid(itx)[::-1].hex(), 'Seal Hash': h[0].hex(), 'Seal OutPoint': outpoint_arg(seal)}),
               'witnessinfo of a pruned witness')
    T.label('accepted' if want else 'refused', 'pruned %d' % which)
    T.nt(which > 0)


def pruned_gen():
    from .c21 import case_gen
    return st.tuples(case_gen(), gen.digest(), st.sampled_from(sorted(FLAGS)), st.integers(0, 11), st.integers(0, 7),
                     st.one_of(st.integers(0, 3), st.integers(0, 31)), st.just(0))


def refused(case, T):
    """Everything malformed or inconsistent is refused"""
    outpoints, digest, unrelated, how, text = case
    with Box() as box:
        for i, o in enumerate(outpoints):
            box.write('s%d' % i, S.wire(fx_seal.t_seal(o + (bytes([i]) * 16,))))
        names = ['s%d' % i for i in range(len(outpoints))]
        before = box.files()
        o = outpoints[0]
        if how == 'duplicate':
            args = ['mkclosetx', digest.hex()] + names + [names[text[0] % len(names)]]
        elif how == 'copy':
            box.write('copy', before['s0'])
            args = ['mkclosetx', digest.hex(), 'copy'] + names
            before = box.files()
        elif how == 'unrelated':
            vin = [i for i in unrelated[1] + [x + (b'', 0) for y in outpoints for x in near_inputs(y, text[0])] * (text[0] % 3 > 0) if i[:2] not in outpoints]
            args = ['mkwitness', '--tx', R.ser_tx((unrelated[0], vin) + unrelated[2:]).hex()] + names
        elif how == 'badtx':
            args = ['mkwitness', '--tx', R.ser_tx(unrelated).hex()[:-2 - 2 * (text[0] % 10)]] + names
        elif how == 'junktx':
            vin = [o + (b'', 0)] + unrelated[1]
            args = ['mkwitness', '--tx', R.ser_tx((unrelated[0], vin) + unrelated[2:]).hex() + '00'] + names[:1]
        elif how == 'nohex':
            args = ['mkwitness', '--tx', 'zz' + R.ser_tx(unrelated).hex()] + names
        elif how == 'digest':
            bad = gen.mutate(digest.hex().encode(), text[1]).decode('latin-1')
            try:
                good = len(bytes.fromhex(bad)) == 32
            except ValueError:
                good = False
            if good or bad.startswith('-') or '\0' in bad:
                return
            args = ['mkclosetx', bad] + names
        elif how == 'digestlen':
            args = ['mkclosetx', digest.hex()[:2 * (text[0] % 32)] if text[0] % 2 else digest.hex() + '00'] + names
        elif how == 'outpoint':
            args = ['mkseal', [o[0][::-1].hex(), o[0][::-1].hex() + ':', o[0].hex() + ':x', ':1', ':', '', o[0].hex() + '00:1', o[0].hex()[2:] + ':1',
                               o[0].hex()[1:] + ':1', o[0].hex() + ':1:1', o[0].hex() + ':-1', o[0].hex() + ':4294967296', o[0].hex() + '::1',
                               'zz' + o[0].hex()[2:] + ':0', o[0].hex() + ':1.5', o[0].hex() + ':0x1',
                               o[0].hex() + ':0b1', o[0].hex() + ':0o7', o[0].hex() + ':1e3', o[0].hex() + ':0xff', o[0].hex() + ':ff', o[0].hex() + ':1,',
                               o[0].hex() + ':99999999999999999999'][text[0] % 23], 'new']
        elif how == 'badseal':
            box.write('s0', gen.mutate(before['s0'], text[1]))
            before = box.files()
            try:
                read_seal(before['s0'])
                return
            except (ref_pm.Reject, R.Bad, core.Violation):
                pass
            args = [['sealinfo', 's0'], ['mkclosetx', digest.hex(), 's0'], ['mkwitness', '--tx', R.ser_tx(unrelated).hex(), 's0']][text[0] % 3]
        elif how == 'missing':
            args = [['sealinfo', 'nofile'], ['witnessinfo', 'nofile'], ['verifywitness', 'nofile'], ['mkclosetx', digest.hex(), 'nofile'],
                    ['mkclosetx', digest.hex()], ['mkwitness', 's0'], ['mkwitness', '--tx', R.ser_tx(unrelated).hex()], [], ['nocommand'],
                    ['mkseal', outpoint_arg(o)], ['mkclosetx', '--p2sh', '--p2pkh', digest.hex(), 's0'],
                    ['verifywitness', '-d', digest.hex()[2:], 's0'], ['verifywitness', '--seal-id', 'xx', 's0']][text[0] % 13]
        status, out = run(box.dir, *args)
        ok(status != 0, '%r succeeds' % (args,))
        after = box.files()
        for n in before:
            eq(after.get(n), before[n], 'file %s after %r' % (n, args))
        ok(not any(n.endswith('.witness') for n in after), 'a witness was made')
        if how == 'duplicate' or how == 'copy':
            eq(out, '', 'output')
    T.label(how)
    T.nt()


def forged(case, T):
    """verifywitness on arbitrary combinations of seal, transactions and indexes"""
    c21case, digest, meth, at, use = case
    from .c21 import build_case
    seal, itx, i, otx, o = build_case(c21case)
    script = fx_seal.closing_scripts(digest)[meth]
    def withscript(tx):
        vout = list(tx[2])
        vout.insert(at % (len(vout) + 1), (0, script))
        return (tx[0], tx[1], vout, tx[3])
    itx, otx = withscript(itx), withscript(otx)
    o = o % (len(otx[2]) + 1)
    data = S.wire(fx_seal.t_witness(seal, i, itx, o, otx))
    sid = S.hash(fx_seal.t_seal(seal))
    with Box() as box:
        box.write('w', data)
        box.write('s', S.wire(fx_seal.t_seal(seal)))
        args = []
        if use & 1:
            args += ['-d', digest.hex()]
        if use & 2:
            args += ['--seal-file', 's']
        if use & 4:
            args += ['--seal-id', sid.hex()]
        want = judge(data, digest if use & 1 else None, seal if use & 2 else None, sid if use & 4 else None)
        status, out = run(box.dir, 'verifywitness', *args, 'w')
        eq(status == 0, want, 'verifywitness %r' % (args,))
    T.label('accepted' if want else 'refused')
    T.nt()


def real(case, T):
    chain(case, T, run_real)


def outpoint():
    return st.tuples(fx_btc.hash32(), st.one_of(st.integers(0, 3), fx_btc.u32()))


def chain_gen():
    return st.tuples(st.lists(outpoint(), min_size=1, max_size=3, unique=True), gen.digest(), st.sampled_from([None, 'op_return', 'p2sh', 'p2pkh']),
                     st.sampled_from([b'', b'\x01', b'\x01\x01', b'\x51\x51\x51', bytes(range(255))]), st.booleans(),
                     st.sampled_from([(), (), (), ('-t',), ('-q',), ('-t', '-q'), ('-v', '-t'), ('-q', '-q', '-t'), ('-v', '-v'), ('-n',), ('-t', '-n')]), gen.digest(), st.lists(gen.mutations(2, 1), max_size=3), st.integers(0, len(STYLES) - 1))


def refused_gen():
    return st.tuples(st.lists(outpoint(), min_size=1, max_size=3, unique=True), gen.digest(), fx_btc.tx(2, 2, st.binary(max_size=4), min_in=1),
                     st.sampled_from(['duplicate', 'copy', 'unrelated', 'badtx', 'junktx', 'nohex', 'digest', 'digestlen', 'outpoint', 'badseal', 'missing']),
                     st.tuples(st.integers(0, 10**4), gen.mutations(2, 1)))


def refused_enum():
    """Every fixed malformed form"""
    tx = (1, [(b'\7' * 32, 0, b'', 0)], [(0, b'')], 0)
    for how, n in (('outpoint', 23), ('missing', 13), ('badtx', 10), ('digestlen', 64), ('nohex', 1), ('junktx', 1), ('unrelated', 3), ('duplicate', 2), ('copy', 1)):
        for i in range(n):
            yield ([(bytes(range(1, 33)), 1), (b'\1' * 32, 0)], b'\5' * 32, tx, how, (i, []))


def forged_gen():
    from .c21 import case_gen
    return st.tuples(case_gen(), gen.digest(), st.sampled_from(['op_return', 'p2sh', 'p2pkh']), st.integers(0, 3), st.integers(0, 7))


SUBS = [
    Sub('chain', chain, gen=chain_gen, quick=130, thorough=5000, heavy=True, optimized=15),
    Sub('many', many, examples=many_cases(), gen=many_gen, quick=24, thorough=1500, heavy=True),
    Sub('nonces', nonces, examples=[(bytes(range(32)), 1), (b'\xff' * 32, 0)]),
    Sub('pruned', pruned, gen=pruned_gen, quick=300, thorough=9000, optimized=60),
    Sub('refused', refused, gen=refused_gen, quick=480, thorough=12000, optimized=60),
    Sub('malformed', refused, enum=refused_enum),
    Sub('forged', forged, gen=forged_gen, quick=480, thorough=12000, optimized=150),
    Sub('real', real, examples=[([(bytes(range(32)), 1)], b'\5' * 32, None, b'', False, (), b'\6' * 32, [[('xor', 30, 1)]], 4)],
        gen=lambda: chain_gen().filter(lambda c: len(c[0]) == 1), quick=1, thorough=60),
]
