"""Runner for generated-input checks.

A check module (pbt/checks/cNN.py) defines

    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of strings
    SUBS         list of Sub

and every Sub is one executable statement of (a part of) the property:

    fn(case, T)  raises anything at all iff the property is broken on `case`;
                 `case` is plain data (what repr/ast.literal_eval round-trip), so
                 that a failure is replayed without the generator;
                 T.label(..) classifies, T.nt() marks the case as non-trivial.

Cases come from a Hypothesis strategy (`gen`), from an exhaustive enumeration
(`enum`) or both; `examples` always run first.  Shards run in forked workers, so
each starts from an untouched import of the code under test.
"""
import ast
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
NPROC = 8
CPU_LIMIT = 45          # seconds of CPU for a single case before it counts as not terminating
SHRINK_SECONDS = 12
AS_LIMIT = 4 << 30
MMAP_SIZE = 1 << 20


class Hang(BaseException):
    pass


class Violation(AssertionError):
    pass


def fail(msg):
    raise Violation(msg)


def short(v, n=300):
    try:
        s = repr(v)
    except Exception as e:
        s = '<%s without repr: %s>' % (type(v).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...<%d chars>' % len(s)


def eq(got, want, what=''):
    """got == want, and of the same type"""
    if type(got) is not type(want) or not (got == want):
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def ok(cond, what=''):
    if not cond:
        raise Violation(what)


def raises(exc, fn, *args, what='', exact=False, **kwargs):
    """fn(*args) raises exc; returns the exception"""
    try:
        r = fn(*args, **kwargs)
    except exc as e:
        if exact and type(e) is not exc:
            raise Violation('%s: raised %r, expected exactly %r' % (what, e, exc)) from e
        return e
    except Exception as e:
        raise Violation('%s: raised %s: %s, expected %r' % (what, type(e).__name__, e, exc)) from e
    raise Violation('%s: returned %s, expected %r' % (what, short(r), exc))


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('exc', exception)"""
    try:
        return ('ok', fn(*args, **kwargs))
    except Exception as e:
        return ('exc', e)


def shallow(fn, *args):
    """fn(*args), with the stack of a new thread and Python's default recursion limit"""
    res = []

    def go():
        try:
            res.append((True, fn(*args)))
        except BaseException as e:
            res.append((False, e))
    limit = sys.getrecursionlimit()
    t = threading.Thread(target=go)
    try:
        sys.setrecursionlimit(1000)
        t.start()
        t.join()
    finally:
        sys.setrecursionlimit(limit)
    good, v = res[0]
    if not good:
        raise v
    return v


class Sub:
    def __init__(self, name, fn, gen=None, quick=0, thorough=None, enum=None, examples=(), fork=False, max_shards=NPROC,
                 heavy=False, optimized=0):
        self.name = name
        self.fn = fn
        self.gen = gen if gen is None or callable(gen) else (lambda: gen)
        self.quick = quick
        self.thorough = quick * 10 if thorough is None else thorough
        self.enum = enum
        self.examples = list(examples)
        self.fork = fork
        self.max_shards = max_shards
        self.heavy = heavy
        self.optimized = optimized      # so many cases also run under python -O (assert statements disabled)


class Tally:
    """What a worker measured"""
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.sample_sizes = []
        self._nt = False
        self._cur_labels = None
        self.known = {}

    def begin(self):
        self._nt = False
        self._cur_labels = set()

    def label(self, *names):
        for n in names:
            self._cur_labels.add(n)

    def nt(self, cond=True):
        if cond:
            self._nt = True

    listed = {}

    def known_finding(self, key):
        """True (and counted) if known-findings.txt lists this finding of the property being checked"""
        if key not in self.listed:
            return False
        self.known[key] = self.known.get(key, 0) + 1
        return True

    def end(self, sub, case_repr):
        self.evaluations += 1
        for n in self._cur_labels:
            k = '%s:%s' % (sub.name, n)
            self.labels[k] = self.labels.get(k, 0) + 1
        if self._nt:
            d = hashlib.blake2b(sub.name.encode() + b'\0' + case_repr.encode('utf8', 'replace'), digest_size=8).digest()
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                # keep the first few, then ever larger ones, so samples show the spread
                if len(case_repr) < 3000 and (len(self.samples) < 2 or
                        (len(self.samples) < 6 and len(case_repr) > 2 * self.sample_sizes[-1])):
                    self.samples.append({'sub': sub.name, 'case': case_repr[:1500]})
                    self.sample_sizes.append(len(case_repr))


class Failure:
    def __init__(self):
        self.case_repr = None
        self.error = None
        self.hang = False
        self.first_time = None

    def record(self, case_repr, error, hang=False):
        if self.first_time is None:
            self.first_time = time.monotonic()
        if self.case_repr is None or len(case_repr) <= len(self.case_repr):
            self.case_repr = case_repr
            self.error = error
            self.hang = hang


def _on_vtalrm(signum, frame):
    raise Hang('no result after %d s of CPU' % CPU_LIMIT)


def _format_exc():
    return traceback.format_exc(limit=-12)


def run_case(sub, case, case_repr, T):
    """Run one case; raises on violation"""
    T.begin()
    if sub.fork:
        _run_forked(sub, case, T)
    else:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            sub.fn(case, T)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    T.end(sub, case_repr)


def _run_forked(sub, case, T):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, _on_vtalrm)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            try:
                sub.fn(case, T)
                res = ('ok', T._nt, T._cur_labels, T.known)
            except BaseException as e:
                res = ('fail', _format_exc(), isinstance(e, Hang))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise Violation('process running the case died with wait status %d' % status)
    res = pickle.loads(data)
    if res[0] == 'ok':
        T._nt, T._cur_labels, T.known = res[1], res[2], res[3]
    else:
        if res[2]:
            raise Hang(res[1])
        raise Violation(res[1])


class Worker:
    """One shard, in its own process"""
    def __init__(self, prop, sub, seed, n, mode, lo, step, mm):
        self.prop, self.sub, self.seed, self.n, self.mode, self.lo, self.step, self.mm = \
            prop, sub, seed, n, mode, lo, step, mm
        self.T = Tally()
        self.F = Failure()

    def one(self, case):
        case_repr = repr(case)
        F = self.F
        if F.first_time is not None and (F.hang or time.monotonic() - F.first_time > SHRINK_SECONDS):
            return          # shrinking budget used up; the smallest failure so far is reported
        b = case_repr.encode('utf8', 'replace')[:MMAP_SIZE - 8]
        self.mm[8:8 + len(b)] = b
        self.mm[0:8] = len(b).to_bytes(8, 'little')
        try:
            run_case(self.sub, case, case_repr, self.T)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, Exception):
                if isinstance(e, KeyboardInterrupt):
                    raise
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            F.record(case_repr, _format_exc(), isinstance(e, Hang))
            raise Violation('violated') from None

    def run(self):
        signal.signal(signal.SIGVTALRM, _on_vtalrm)
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        if self.mode == 'examples':
            for case in self.sub.examples:
                self.one_plain(case)
                if self.F.case_repr:
                    break
        elif self.mode == 'enum':
            for i, case in enumerate(self.sub.enum()):
                if i % self.step == self.lo:
                    self.one_plain(case)
                    if self.F.case_repr:
                        break
        else:
            self.run_hypothesis()

    def one_plain(self, case):
        try:
            self.one(case)
        except Violation:
            pass

    def run_hypothesis(self):
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given
        test = given(self.sub.gen())(lambda case: self.one(case))
        test = settings(max_examples=self.n, database=None, deadline=None, report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                        print_blob=False)(test)
        test = hypothesis.seed(self.seed)(test)
        try:
            test()
        except BaseException:
            if self.F.case_repr is None:
                raise

    def result(self):
        T = self.T
        return {'evaluations': T.evaluations, 'labels': T.labels, 'nontrivial': T.nontrivial,
                'samples': T.samples, 'known': T.known, 'case': self.F.case_repr, 'error': self.F.error, 'infra': None}


def optimized_worker(prop, mod, name, n, seed, out):
    """One shard in an interpreter started with -O"""
    if not sys.flags.optimize:
        raise RuntimeError('assert statements are enabled')
    sub = [s for s in mod.SUBS if s.name == name][0]
    w = Worker(prop, sub, seed, n, 'gen', 0, 1, bytearray(MMAP_SIZE))
    try:
        w.run()
        res = w.result()
    except BaseException:
        res = w.result()
        res['infra'] = traceback.format_exc()
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out + '.tmp', out)
    return 0


def spawn(prop, task, tmp, k):
    sub, seed, n, mode, lo, step = task
    mm = mmap.mmap(-1, MMAP_SIZE)
    out = os.path.join(tmp, 'r%d' % k)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            err = os.open(os.path.join(tmp, 'err%d' % k), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.dup2(err, 1)
            os.dup2(err, 2)
            if mode == 'optimized':
                os.execv(sys.executable, [sys.executable, '-O', '-W', 'ignore', '-B', os.path.join(VERIF, 'run_check.py'), prop,
                                          '--optimized-worker', json.dumps([sub.name, n, seed, out])])
            w = Worker(prop, sub, seed, n, mode, lo, step, mm)
            try:
                w.run()
                res = w.result()
            except BaseException:
                res = w.result()
                res['infra'] = traceback.format_exc()
            with open(out + '.tmp', 'wb') as f:
                pickle.dump(res, f)
            os.rename(out + '.tmp', out)
        except BaseException:
            code = 3
        os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    return pid, mm, out


def make_tasks(subs, tier, seed):
    tasks = []
    for si, sub in enumerate(subs):
        if sub.examples:
            tasks.append((sub, 0, len(sub.examples), 'examples', 0, 1))
        if sub.enum is not None:
            k = min(NPROC, sub.max_shards)
            for i in range(k):
                tasks.append((sub, 0, 0, 'enum', i, k))
        n = sub.quick if tier == 'quick' else sub.thorough
        scale = float(os.environ.get('PBT_SCALE', '1'))
        n = int(n * scale)
        if sub.gen is not None and n > 0:
            shards = max(1, min(sub.max_shards, n // (5 if sub.heavy else 40)))
            if tier == 'thorough':
                shards = max(shards, min(4 * NPROC, n // 2000))
            for i in range(shards):
                m = n // shards + (1 if i < n % shards else 0)
                s = int.from_bytes(hashlib.sha256(('%d/%s/%d/%d' % (seed, sub.name, i, 0)).encode()).digest()[:6], 'big')
                tasks.append((sub, s, m, 'gen', i, shards))
        n = int(sub.optimized * (1 if tier == 'quick' else 25) * scale)
        if n > 0:
            s = int.from_bytes(hashlib.sha256(('%d/%s/-O' % (seed, sub.name)).encode()).digest()[:6], 'big')
            tasks.append((sub, s, n, 'optimized', -1, 1))
    # interleave so that expensive subs start first
    tasks.sort(key=lambda t: (not t[0].heavy, t[4]))
    return tasks


def load_known(prop):
    """Entries "known: property=<id> key=<key> <what>" of known-findings.txt for a property"""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                key, _, what = rest.partition(' ')
                ok(key.startswith('key='), 'malformed known-findings line')
                out[key[4:]] = what
    return out


def kill_group(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass


def write_replay(prop, sub_name, case_repr, error, optimized=False):
    d = os.path.join(os.environ.get('PBT_OUT', VERIF), 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((sub_name + case_repr).encode('utf8', 'replace')).hexdigest()[:12]
    path = os.path.join(d, '%s-%s-%s.json' % (prop, sub_name, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': sub_name, 'case': case_repr, 'error': error, 'optimized': optimized,
                   'how': 'python3-vt /verif/run_check.py %s --replay %s' % (prop, path)}, f, indent=1)
    return path


def write_evidence(prop, mod, tier, seed, ev, wall):
    d = os.path.join(os.environ.get('PBT_OUT', VERIF), 'evidence')
    os.makedirs(d, exist_ok=True)
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev['evaluations'],
            'distinct_nontrivial': len(ev['nontrivial']),
            'rule': ' '.join(mod.RULE.split()),
            'samples': ev['samples'],
            'labels': dict(sorted(ev['labels'].items())),
            'subchecks': ev['subs'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 3),
        'violations': ev['violations'],
    }
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % prop))


def run(prop, mod, tier, seed, only=None):
    t0 = time.monotonic()
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    ok(len(set(s.name for s in subs)) == len(subs), 'duplicate sub names')
    tasks = make_tasks(subs, tier, seed)
    ev = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'subs': {s.name: 0 for s in subs},
          'violations': 0}
    known_seen = {}
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % prop)
    live = {}
    failure = None
    infra = None
    k = 0
    pend = list(tasks)
    sub_samples = {}
    busy = {}
    try:
        while (pend or live) and failure is None and infra is None:
            while pend and len(live) < int(os.environ.get("PBT_JOBS", NPROC)):
                task = pend.pop(0)
                pid, mm, out = spawn(prop, task, tmp, k)
                live[pid] = (task, mm, out, time.monotonic(), k)
                k += 1
            pid, status = os.waitpid(-1, 0)
            if pid not in live:
                continue
            task, mm, out, started, kk = live.pop(pid)
            mmlen = int.from_bytes(mm[0:8], 'little')
            last = mm[8:8 + mmlen].decode('utf8', 'replace')
            mm.close()
            busy[task[0].name] = busy.get(task[0].name, 0) + time.monotonic() - started
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    res = pickle.load(f)
                ev['evaluations'] += res['evaluations']
                ev['subs'][task[0].name] += res['evaluations']
                if task[3] == 'optimized':
                    l = '%s:under python -O' % task[0].name
                    ev['labels'][l] = ev['labels'].get(l, 0) + res['evaluations']
                ev['nontrivial'] |= res['nontrivial']
                for l, c in res['labels'].items():
                    ev['labels'][l] = ev['labels'].get(l, 0) + c
                for key, c in res['known'].items():
                    known_seen[key] = known_seen.get(key, 0) + c
                have = sub_samples.setdefault(task[0].name, [])
                for smp in res['samples']:
                    if len(have) < 3:
                        have.append(smp)
                if res['case'] is not None:
                    failure = (task[0].name, res['case'], res['error'], task[3] == 'optimized')
                elif res['infra']:
                    infra = res['infra']
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                                    signal.SIGFPE, signal.SIGILL):
                failure = (task[0].name, last, 'the interpreter crashed with signal %d on this case' % os.WTERMSIG(status))
            else:
                infra = 'worker for %s ended with wait status %d and no result' % (task[0].name, status)
                try:
                    infra += '\n' + open(os.path.join(tmp, 'err%d' % kk)).read()[-3000:]
                except OSError:
                    pass
    finally:
        for pid in live:
            kill_group(pid)
        for pid in live:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    for name in [s.name for s in subs]:
        ev['samples'].extend(sub_samples.get(name, []))
    if failure is not None:
        ev['violations'] = 1
    wall = time.monotonic() - t0
    if only is None:
        write_evidence(prop, mod, tier, seed, ev, wall)
    if os.environ.get('PBT_VERBOSE'):
        for name, n in ev['subs'].items():
            print('  %-24s %7d cases  %.2f cpu-s' % (name, n, busy.get(name, 0)))
        for l, c in sorted(ev['labels'].items()):
            print('    %-60s %d' % (l, c))
    if failure is not None:
        path = write_replay(prop, *failure)
        print('%s/%s%s: %s' % (prop, failure[0], ' under python -O' if failure[3:] == (True,) else '', failure[2]))
        print('case: %s' % failure[1][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if infra is not None:
        print('ERROR %s: %s' % (prop, infra), file=sys.stderr)
        return 2
    known = load_known(prop)
    for key in sorted(known_seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, known.get(key, key)))
    print('%s held: %d cases, %d distinct non-trivial, %.1f s (%s, seed %d)' % (
        prop, ev['evaluations'], len(ev['nontrivial']), wall, tier, seed))
    return 0


def replay(prop, mod, path):
    d = json.load(open(path))
    if d.get('optimized') and not sys.flags.optimize:
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, '-O', '-W', 'ignore', '-B'] + sys.argv)
    sub = [s for s in mod.SUBS if s.name == d['sub']][0]
    case = ast.literal_eval(d['case'])
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    T = Tally()
    try:
        run_case(sub, case, d['case'], T)
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: the replayed case does not violate the property' % prop)
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--sub')
    ap.add_argument('--optimized-worker')
    a = ap.parse_args(argv)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        mod = importlib.import_module('pbt.checks.' + a.property.lower())
    except Exception:
        traceback.print_exc()
        return 2
    try:
        Tally.listed = load_known(a.property)
        if a.optimized_worker:
            return optimized_worker(a.property, mod, *json.loads(a.optimized_worker))
        if a.replay:
            return replay(a.property, mod, a.replay)
        return run(a.property, mod, tier, seed, a.sub)
    except Exception:
        traceback.print_exc()
        return 2
