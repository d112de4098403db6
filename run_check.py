#!/usr/bin/env python3
"""Entry point: python3-vt /verif/run_check.py <property> [--replay FILE] [--tier quick|thorough] [--sub NAME]

Re-executes itself with a fixed hash seed and with the code under test first on the
import path, then hands over to pbt.core.  PBT_REPO (development only) points the
check at a scratch copy of the repository.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get('PBT_REPO', '/repo'))

if os.environ.get('PBT_REEXEC') != '1':
    env = dict(os.environ)
    env['PBT_REEXEC'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = os.pathsep.join([
        REPO,
        os.path.join(REPO, 'lib', 'python-bitcoinlib'),
        os.path.join(REPO, 'lib', 'python-proofmarshal'),
        HERE,
    ])
    env['PBT_REPO'] = REPO
    env.pop('PYTHONOPTIMIZE', None)
    env.pop('PYTHONSAFEPATH', None)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, '-W', 'ignore', '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

from pbt import core
sys.exit(core.main(sys.argv[1:]))
