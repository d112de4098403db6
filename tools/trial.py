#!/usr/bin/env python3
"""Development helper. trial.py SPEC [ONLY_ID...]: for every bug of a mk_bug.py spec (DEMO not needed): apply its EDITS to a scratch
copy, run the stable tests and then the check of its property (or CHECKS); prints what each check said."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.environ.get('VERIF', '/verif')
bugs = [b for b in runpy.run_path(sys.argv[1])['BUGS'] if not sys.argv[2:] or b['ID'] in sys.argv[2:]]

def go(s):
    W = tempfile.mkdtemp(prefix='trial.'); R = W + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', R])
        for f, old, new in s['EDITS']:
            p = R + '/' + f; t = open(p).read()
            if t.count(old) != 1: return '%s: %s has %d of: %s' % (s['ID'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        t = subprocess.run('''. /opt/vp/env.sh; cd %s; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=300 --continue-on-collection-errors proofchains lib/python-bitcoinlib/bitcoin lib/python-proofmarshal/proofmarshal 2>&1 | grep -E "^FAILED|^ERROR|passed" | grep -v test_tx_valid''' % (R, R), shell=True, capture_output=True, text=True, executable='/bin/bash', env=env)
        tests = 'TESTS ' + t.stdout.strip() if 'FAILED' in t.stdout or 'ERROR' in t.stdout or '147 passed' not in t.stdout else 'tests ok'
        res = []
        if 'DEMO' in s:
            open(W + '/demo.py', 'w').write(s['DEMO'])
            def demo(r):
                e = dict(env, PYTHONPATH='%s:%s/lib/python-bitcoinlib:%s/lib/python-proofmarshal' % (r, r, r))
                return subprocess.run(['python3-vt', W + '/demo.py'], cwd=r, env=e, capture_output=True, text=True, timeout=300)
            a, b = demo('/repo'), demo(R)
            res.append('demo %d/%d%s' % (a.returncode, b.returncode, '' if a.returncode == 0 else a.stderr[-300:]))
        for c in s.get('CHECKS', [s['PROP']]):
            e = dict(os.environ, PBT_REPO=R, PBT_OUT=W + '/out', PBT_JOBS='4')
            r = subprocess.run(['timeout', '600', 'python3-vt', VERIF + '/run_check.py', c], env=e, capture_output=True, text=True, cwd=VERIF)
            hit = r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout
            sub = r.stdout.split(':')[0][-40:] if hit else ''
            res.append('%s %s' % (c, 'CAUGHT ' + sub if hit else '**MISSED** exit %d %s' % (r.returncode, (r.stdout + r.stderr)[-300:].strip())))
        return '%s: %s; %s' % (s['ID'], tests, '; '.join(res))
    finally:
        shutil.rmtree(W)
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for line in ex.map(go, bugs): print(line, flush=True)
