#!/usr/bin/env python3
"""Development helper: systematic small mutations of one module.
mutate.py FILE CHECKS OUT [JOBS] [ONLY_RE]: for every mutant of /repo/FILE that passes the stable tests, run the checks
(comma separated) against a scratch copy and list the ones that no check reports in OUT."""
import ast, copy, os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
import threading, queue

FILE, CHECKS, OUT = sys.argv[1:4]
JOBS = int(sys.argv[4]) if len(sys.argv) > 4 else 7
ONLY = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
SRC = open('/repo/' + FILE).read()
TREE = ast.parse(SRC)
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def docstring(parent, node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def mutations(tree):
    """yields (description, apply) where apply mutates the tree in place and returns an undo"""
    in_raise = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.FunctionDef) and n.name in ('__repr__',) or isinstance(n, ast.Assert) or (isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id in ('__slots__', '__all__') for t in n.targets)) or isinstance(n, (ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                if m is not n:
                    in_raise.add(id(m))

    def setter(obj, field, new):
        def go():
            old = getattr(obj, field)
            setattr(obj, field, new)
            return lambda: setattr(obj, field, old)
        return go

    def lset(lst, i, new):
        def go():
            old = lst[i]
            lst[i] = new
            def undo():
                lst[i] = old
            return undo
        return go

    for n in ast.walk(tree):
        if id(n) in in_raise:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for c in CMP[type(o)]:
                    yield ln, '%s->%s' % (type(o).__name__, c.__name__), lset(n.ops, i, c())
        elif isinstance(n, ast.BoolOp):
            yield ln, 'and<->or', setter(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())
            for i in range(len(n.values)):
                yield ln, 'drop operand %d' % i, lset(n.values, i, ast.Constant(isinstance(n.op, ast.And)))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for c in BIN.get(type(n.op), []):
                yield ln, '%s->%s' % (type(n.op).__name__, c.__name__), setter(n, 'op', c())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield ln, 'not removed', setter(n, 'op', ast.UAdd()) if False else setter(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
            yield ln, 'sign removed', setter(n, 'op', ast.UAdd())
        elif isinstance(n, ast.Constant):
            if type(n.value) is bool:
                yield ln, 'bool', setter(n, 'value', not n.value)
            elif type(n.value) is int:
                yield ln, '%d+1' % n.value, setter(n, 'value', n.value + 1)
                if n.value:
                    yield ln, '%d-1' % n.value, setter(n, 'value', n.value - 1)
            elif type(n.value) is bytes and n.value:
                yield ln, 'bytes', setter(n, 'value', n.value[:-1] + bytes([n.value[-1] ^ 1]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield ln, 'cond True', setter(n, 'test', ast.Constant(True)) if not isinstance(n, ast.While) else setter(n, 'test', ast.Constant(False))
            if not isinstance(n, ast.While):
                yield ln, 'cond False', setter(n, 'test', ast.Constant(False))
        elif isinstance(n, ast.Return) and n.value is not None:
            yield ln, 'return None', setter(n, 'value', ast.Constant(None))
        elif isinstance(n, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(n, f) is not None:
                    yield ln, 'slice %s dropped' % f, setter(n, f, None)
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            def go(n=n):
                old = n.args
                n.args = old[::-1]
                return lambda: setattr(n, 'args', old)
            yield ln, 'args swapped', go
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) and not docstring(n, s) and id(s) not in in_raise:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ('__slots__', '__all__') for t in s.targets):
                            continue
                        yield s.lineno, 'deleted: ' + ast.unparse(s)[:60], lset(b, i, ast.Pass())
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield ln, 'except ZeroDivisionError', setter(n, 'type', ast.Name('ZeroDivisionError', ast.Load()))


M = []
for ln, d, go in mutations(TREE):
    undo = go()
    try:
        text = ast.unparse(ast.fix_missing_locations(TREE))
        compile(text, 'm', 'exec')
        M.append((ln, d, text))
    except Exception:
        pass
    undo()
if ONLY:
    M = [m for m in M if ONLY.search('%d %s' % m[:2])]
print(len(M), 'mutants of', FILE, flush=True)
q = queue.Queue()
base = tempfile.mkdtemp(prefix='mut.', dir='/dev/shm')
dirs = queue.Queue()
for i in range(JOBS):
    R = '%s/%d/repo' % (base, i)
    os.makedirs('%s/%d' % (base, i))
    subprocess.check_call(['cp', '-a', '/repo', R])
    dirs.put(R)
TEST = '''ulimit -v 4000000; . /opt/vp/env.sh; cd %s; timeout 60 /opt/venv/bin/python -B -m pytest -x -q -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=20 --deselect lib/python-bitcoinlib/bitcoin/tests/test_transactions.py::Test_CTransaction::test_tx_valid proofchains lib/python-bitcoinlib/bitcoin lib/python-proofmarshal/proofmarshal 2>&1 | tail -1'''
stats = {'tests': 0, 'caught': 0, 'survived': 0, 'harness': 0}
lock = threading.Lock()
lines = SRC.splitlines()
out = open(OUT, 'w')


def one(m):
    ln, d, text = m
    R = dirs.get()
    try:
        open(R + '/' + FILE, 'w').write(text)
        t = subprocess.run(TEST % (R, R), shell=True, capture_output=True, text=True, executable='/bin/bash').stdout
        if 'passed' not in t or 'failed' in t or 'error' in t:
            return 'tests', ''
        notes = []
        for c in CHECKS.split(','):
            e = dict(os.environ, PBT_REPO=R, PBT_OUT=R + '/../out', PBT_JOBS='1')
            try:
                r = subprocess.run(['bash', '-c', 'ulimit -v 8000000; exec python3-vt /verif/run_check.py ' + c], env=e, capture_output=True, text=True, cwd='/verif', timeout=400)
            except subprocess.TimeoutExpired:
                notes.append(c + ' timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return 'caught', c
            if r.returncode != 0:
                notes.append('%s exit %d %s' % (c, r.returncode, (r.stdout + r.stderr)[-150:].replace('\n', ' ')))
        return ('harness' if notes else 'survived'), '; '.join(notes)
    finally:
        dirs.put(R)


def run(m):
    v, note = one(m)
    with lock:
        stats[v] += 1
        if v in ('survived', 'harness'):
            out.write('%s %d: %s | %s %s\n' % (v, m[0], m[1], lines[m[0] - 1].strip()[:110] if m[0] else '', note))
            out.flush()


with ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(run, M))
out.write('%r\n' % stats)
out.close()
print(FILE, stats)
shutil.rmtree(base)
