"""Development helper. mk_bug.py SPEC...: each SPEC is a Python file with BUGS, a list of dicts with ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)] and DEMO; writes /verif/seeded/ID/."""
import sys, os, subprocess, shutil, json, tempfile, runpy
for s in [s for spec in sys.argv[1:] for s in runpy.run_path(spec)['BUGS']]:
    D = '/verif/seeded/' + s['ID']; os.makedirs(D, exist_ok=True)
    W = tempfile.mkdtemp(); R = W + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    for f, old, new in s['EDITS']:
        p = R + '/' + f; t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = subprocess.check_output(['git', '-C', R, 'diff'], text=True); shutil.rmtree(W)
    open(D + '/patch.diff', 'w').write(d)
    open(D + '/demo.py', 'w').write(s['DEMO'])
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:$PWD/lib/python-bitcoinlib:$PWD/lib/python-proofmarshal"
exec python3-vt "$(dirname "$0")/demo.py"
''')
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
    print(s['ID'])
