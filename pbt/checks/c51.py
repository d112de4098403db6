import json
import os
import subprocess
import sys
import threading

from hypothesis import strategies as st

from .. import core, fx_decl, fx_ops
from ..core import Sub, fail, ok

RULE = """Sequences of operations of every module (encodings, bit strings, proofs, ranges, trees, seals, maps, transactions, blocks, scripts,
keys, addresses, messages, filters), each made from plain data of a small domain with failing operations among them. What an
operation gives when it is the only one a process has done is compared with what it gives after others, in another order, with
three threads doing them at once (as the interpreter switches between them, and taking turns at the lines of the repository a generated
schedule names), and in processes started with assertions disabled and other hash seeds; whatever was
made is also looked at again when everything is done. Proof classes of hierarchies declared on the fly are used
in any order and compared with the reference. Non-trivial: at least two different operations, or another process."""
ASSUMPTIONS = ['Operations select the network they are about, and those that do are not run by several threads',
               'Threads share objects that are read, not views in which a proof is being pruned',
               'Python hash values and object identities are not compared, nor texts of exceptions']

_alone = {}


def in_child(fn, *args):
    """What fn gives in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(repr(fn(*args)).encode())
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    ok(status == 0, 'process doing %s ended with wait status %d' % (core.short(args), status))
    return eval(data)


def alone(o):
    k = repr(o)
    if k not in _alone:
        _alone[k] = in_child(lambda: fx_ops.start(o)[0])
    return _alone[k]


def one_by_one(ops):
    done = [fx_ops.start(o) for o in ops]
    return [(out, out if view is None else fx_ops.guarded(view)) for out, view in done]


def compare(ops, results, what):
    for i, (o, (first, later)) in enumerate(zip(ops, results)):
        want = alone(o)
        if first != want:
            fail('%s: operation %d %s gave %s, alone it gives %s' % (what, i, core.short(o), core.short(first, 1500), core.short(want, 1500)))
        if later != want:
            fail('%s: what operation %d %s gave is later %s, it was %s' % (what, i, core.short(o), core.short(later, 1500), core.short(want, 1500)))


def label(ops, T):
    T.label(*{o[0] for o in ops})
    T.nt(len(set(map(repr, ops))) > 1)


def history(case, T):
    ops, order = case
    compare(ops, in_child(one_by_one, ops), 'in sequence')
    again = [ops[i % len(ops)] for i in order] if ops else []
    compare(again, in_child(one_by_one, again), 'in another order')
    label(ops, T)


def threaded(lists):
    res = [None] * len(lists)
    gate = threading.Barrier(len(lists))

    def go(k):
        gate.wait()
        res[k] = one_by_one(lists[k])
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(lists))]
    sys.setswitchinterval(1e-6)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def threads(case, T):
    lists = [l for l in case if l]
    if lists:
        for l, r in zip(lists, in_child(threaded, lists)):
            ok(r is not None, 'a thread ended early')
            compare(l, r, 'with %d threads' % len(lists))
    label([o for l in lists for o in l], T)
    T.nt(len(lists) > 1)


class Turns:
    """Threads of which one runs at a time, the next one at the lines of the repository a schedule names"""
    def __init__(self, n, gaps):
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.gaps, self.at = gaps, 0
        self.left = gaps[0]
        self.switches = 0

    def next_after(self, k):
        n = len(self.gates)
        return next((j % n for j in range(k + 1, k + n) if self.alive[j % n]), None)

    def line(self, k):
        self.left -= 1
        if self.left > 0:
            return
        self.at += 1
        self.left = self.gaps[self.at % len(self.gaps)]
        j = self.next_after(k)
        if j is not None:
            self.switches += 1
            self.gates[j].release()
            self.gates[k].acquire()

    def end(self, k):
        self.alive[k] = False
        j = self.next_after(k)
        if j is not None:
            self.gates[j].release()


def scheduled(lists, gaps):
    return in_turns([lambda l=l: one_by_one(l) for l in lists], gaps)


def in_turns(fns, gaps):
    turns = Turns(len(fns), gaps)
    results = [None] * len(fns)

    def go(k):
        def local(frame, event, arg):
            if event == 'line':
                turns.line(k)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(core.REPO) else None
        turns.gates[k].acquire()
        try:
            sys.settrace(trace)
            try:
                results[k] = fns[k]()
            finally:
                sys.settrace(None)
        finally:
            turns.end(k)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(fns))]
    for t in ts:
        t.start()
    turns.gates[0].release()
    for t in ts:
        t.join()
    return results, turns.switches


def schedules(case, T):
    """Threads in a schedule of the case: which takes over after how many lines"""
    lists, gaps = [l for l in case[0] if l], case[1]
    if lists:
        results, switches = in_child(scheduled, lists, gaps)
        for l, r in zip(lists, results):
            ok(r is not None, 'a thread ended early')
            compare(l, r, 'with %d threads taking turns' % len(lists))
        T.label('%d switches' % switches if switches < 4 else '4 to 99 switches' if switches < 100 else '100 switches or more')
        T.nt(switches > 1)


def looked_at(o, n, gaps):
    try:
        view = fx_ops.OPS[o[0]][0](*o[1:])
    except Exception as e:
        return [('exc', type(e).__name__)] * n, 0
    return in_turns([lambda: fx_ops.guarded(view)] * n, gaps)


def shared(case, T):
    """Several threads look at what one operation made, taking turns"""
    o, n, gaps = case
    results, switches = in_child(looked_at, o, n, gaps)
    want = alone(o)
    for r in results:
        if r != want:
            fail('%s seen by one of %d threads taking turns: %s, alone %s' % (core.short(o), n, core.short(r), core.short(want)))
    T.label(o[0])
    T.nt(switches > 1)


def processes(case, T):
    ops, optimize, seed = case
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PBT_REEXEC='1')
    r = subprocess.run([sys.executable] + (['-O'] if optimize else []) + ['-W', 'ignore', '-B', '-c', 'from pbt.checks import c51; c51.serve()'], input=repr(ops).encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ok(r.returncode == 0, 'process ended with %d: %s' % (r.returncode, r.stderr[-2000:]))
    compare(ops, eval(r.stdout), 'in a process with %shash seed %d' % ('assertions disabled and ' if optimize else '', seed))
    label(ops, T)
    T.label('-O' if optimize else 'assertions', 'seed %d' % seed)
    T.nt()


def serve():
    ops = eval(sys.stdin.buffer.read())
    sys.stdout.write(repr(one_by_one(ops)))




def related(case, T):
    """Classes of one hierarchy are used in any order, with their components as declared"""
    decls, uses = case
    fx_decl.history((decls, uses), T)
    fx_decl.history((decls, uses[::-1]), T)


SUBS = [
    Sub('related', related, gen=lambda: fx_decl.histories(3), quick=800, thorough=16000),
    Sub('history', history, gen=lambda: st.tuples(st.lists(fx_ops.strategy(), min_size=1, max_size=8), st.lists(st.integers(0, 7), max_size=8)), quick=800, thorough=16000, heavy=True),
    Sub('same', history, gen=lambda: st.sampled_from(sorted(fx_ops.OPS)).flatmap(lambda n: st.tuples(st.lists(fx_ops.strategy(names=[n]), min_size=2, max_size=8), st.lists(st.integers(0, 7), max_size=8))),
        quick=1200, thorough=24000, heavy=True),
    Sub('long', history, gen=lambda: gen_long(), quick=240, thorough=6000, heavy=True),
    Sub('threads', threads, gen=lambda: gen_threads(), quick=500, thorough=10000, heavy=True),
    Sub('schedules', schedules, gen=lambda: st.tuples(gen_threads(), st.lists(gen_gap(), min_size=1, max_size=12)), quick=700, thorough=10000, heavy=True),
    Sub('shared', shared, gen=lambda: st.tuples(gen_shared(), st.integers(2, 3), st.lists(gen_gap(), min_size=1, max_size=12)), quick=900, thorough=18000, heavy=True),
    Sub('processes', processes, gen=lambda: st.tuples(st.lists(fx_ops.strategy(), min_size=20, max_size=60), st.booleans(), st.integers(0, 4)), quick=80, thorough=1600, heavy=True),
]


STATEFUL = ['script-state'] * 12 + ['script-eval', 'script-verify', 'sighash', 'proof', 'mmr', 'mbt'] * 3


def gen_long():
    """Long sequences of one operation, those with most internal state more often"""
    return st.sampled_from(sorted(fx_ops.OPS) + STATEFUL).flatmap(lambda n: st.tuples(st.lists(fx_ops.strategy(names=[n]), min_size=12, max_size=24), st.just([])))


def gen_shared():
    return st.sampled_from([n for n in sorted(fx_ops.OPS) + STATEFUL + ['sighash'] * 6 if fx_ops.OPS[n][2] and not n.startswith('script-s')]).flatmap(lambda n: fx_ops.strategy(names=[n]))


def gen_gap():
    """Lines until the next thread takes over, often few"""
    return st.one_of(st.integers(1, 4), st.integers(1, 40), st.integers(1, 600))


def gen_threads():
    several = st.lists(st.lists(fx_ops.strategy(threads=True), min_size=1, max_size=6), min_size=3, max_size=3)
    same = st.sampled_from([n for n in sorted(fx_ops.OPS) + STATEFUL if fx_ops.OPS[n][2]]).flatmap(
        lambda n: st.lists(st.lists(fx_ops.strategy(names=[n]), min_size=1, max_size=6), min_size=3, max_size=3))
    return st.one_of(several, same)
