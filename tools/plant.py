#!/usr/bin/env python3
"""Development helper: plant.py ID [check ...]
Confirms /verif/seeded/ID in a scratch copy: the patch applies, the stable tests pass, demo.sh exits 0 without and
non-zero with it; then runs the checks (default: the property's) against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile, glob
bug = sys.argv[1]; D = '/verif/seeded/' + bug
meta = json.load(open(D + '/meta.json'))
checks = sys.argv[2:] or [meta['property']]
W = tempfile.mkdtemp(prefix='plant.'); R = W + '/repo'
try:
    subprocess.check_call(['cp', '-a', '/repo', R])
    shutil.copytree(D, W + '/demo')
    for f in glob.glob(W + '/demo/*.diff') + [W + '/demo/meta.json']: os.unlink(f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    demo = lambda: subprocess.run(['bash', W + '/demo/demo.sh'], cwd=R, env=env, capture_output=True, text=True, timeout=300)
    a = demo(); 
    if a.returncode: print(a.stdout, a.stderr); sys.exit('demo fails on the clean tree')
    subprocess.check_call(['git', '-C', R, 'apply', D + '/patch.diff'])
    b = demo(); print('demo with patch:', b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:])
    if not b.returncode: sys.exit('demo does not fail with the patch')
    t = subprocess.run('''. /opt/vp/env.sh; cd %s; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=300 --continue-on-collection-errors proofchains lib/python-bitcoinlib/bitcoin lib/python-proofmarshal/proofmarshal 2>&1 | grep -E "^FAILED|passed" | grep -v test_tx_valid''' % (R, R), shell=True, capture_output=True, text=True, executable='/bin/bash')
    print(t.stdout.strip())
    for c in checks:
        e = dict(os.environ, PBT_REPO=R, PBT_OUT=W + '/out', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        r = subprocess.run(['python3-vt', '/verif/run_check.py', c], env=e, capture_output=True, text=True, cwd='/verif')
        out = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        hit = r.returncode == 1 and bool(out) and ('property=%s ' % c) in out[0]
        print(c, 'CAUGHT' if hit else 'MISSED exit %d %s' % (r.returncode, (r.stdout + r.stderr)[-500:]))
finally:
    shutil.rmtree(W)
