from hypothesis import strategies as st
import bitcoin.core.script
import bitcoin.core.scripteval
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import (EvalScript, VerifyScript, EvalScriptError, MaxOpCountError, MissingOpArgumentsError, VerifyOpFailedError,
                                     ArgumentsInvalidError)
from .. import gen, ref_btc as R, ref_script as S, fx_btc as F, fx_script as X
from ..core import Sub, eq, ok, outcome
from .c33 import STACK, RANDOM, LIMIT, op_table

RULE = """Programs that fail, at any operation and for any reason, in and out of branches, with items on the alternate stack, over random
initial stacks, alone and as the input, output or redeem script of a pair: the error's stack, alternate stack, branches, operation count,
operation, position, script, transaction, index and flags are compared with a reference interpreter that remembers the state before every
operation. Every operation is enumerated over argument tuples that reach its rules, in six contexts. Non-trivial: the reference fails at an operation
that has a stack of two or more items, or branches or an alternate stack, below it."""
ASSUMPTIONS = ['No real signatures occur, so every signature check is false', 'The limit on the number of items is reported with the item that exceeds it on the stack',
               'How far a disabled operation has been counted is not claimed',
               'In a script that cannot be read to its end, signature checks may fail without being named']

TX = F.r_tx((1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [(5, b'\x51')], 0))
P2SH = bitcoin.core.script.SCRIPT_VERIFY_P2SH


class Remembering(S.Machine):
    """The state before the operation that is being done"""
    script_only = False

    def step(self, op, data, at):
        self.before = list(self.st), list(self.alt), list(self.cond)
        super().step(op, data, at)


def run(stack, script):
    """(final stack, None, machine) or (None, failure, machine)"""
    m = Remembering(list(stack), script, lambda sig, key, code: False)
    try:
        return m.run(), None, m
    except S.Failed as e:
        return None, e, m


CLASS = {'missing arguments': MissingOpArgumentsError, 'verify': VerifyOpFailedError, 'op count': MaxOpCountError, 'key count': ArgumentsInvalidError,
         'signature count': ArgumentsInvalidError}


def compare(err, e, m, sc, inidx, flags, T, what=''):
    ok(isinstance(err, EvalScriptError), '%s raised %r' % (what, err))
    eq(bytes(err.scriptIn), bytes(sc), what + 'script')
    ok(err.txTo is TX and err.inIdx == inidx, what + 'transaction and index')
    ok(err.flags is flags or err.flags == flags, what + 'flags')
    items = lambda l: [bytes(i) for i in l]
    multisig = False
    if err.sop_pc is None and e.at is not None:
        # the rest of the script can't be read, which a signature check has to
        ok(R.ops(bytes(sc))[1] is not None, what + 'does not name the failing operation %r (%s)' % (e.at, e.why))
        T.label(what + 'unreadable')
        return
    if e.at is None:
        # no operation to blame: the script as a whole
        ok(err.sop is None and err.sop_data is None and err.sop_pc is None, what + 'names an operation: %r' % ((err.sop, err.sop_data, err.sop_pc),))
        eq(items(err.stack), m.st, what + 'stack (%s)' % e.why)
        ok(not isinstance(err, (MissingOpArgumentsError, VerifyOpFailedError, MaxOpCountError, ArgumentsInvalidError)), what + 'class: %r' % (err,))
    else:
        eq((int(err.sop), err.sop_data, err.sop_pc), e.at, what + 'operation')
        if e.why == 'stack items':
            want = m.st, m.alt, m.cond
        else:
            want = m.before
        multisig = e.at[0] in (0xae, 0xaf) and all(m.cond)
        eq(items(err.stack), want[0], what + 'stack before operation 0x%x (%s)' % (e.at[0], e.why))
        eq(items(err.altstack), want[1], what + 'alternate stack (%s)' % e.why)
        eq([bool(b) for b in err.vfExec], want[2], what + 'branches (%s)' % e.why)
        disabled = e.at[0] in S.DISABLED
        if not disabled:
            eq(err.nOpCount, m.count, what + 'operation count (%s)' % e.why)
            cls = CLASS.get(e.why)
            if cls is not None and not (multisig and cls is MissingOpArgumentsError):
                ok(isinstance(err, cls), what + 'class for %s: %r' % (e.why, err))
            if cls is None or cls is not MissingOpArgumentsError:
                ok(not isinstance(err, MissingOpArgumentsError), what + 'class for %s: %r' % (e.why, err))
            if e.why != 'verify':
                ok(not isinstance(err, VerifyOpFailedError), what + 'class for %s: %r' % (e.why, err))
            if e.why != 'op count':
                ok(not isinstance(err, MaxOpCountError), what + 'class for %s: %r' % (e.why, err))
    ok(isinstance(str(err), str) and repr(err), what + 'text')
    T.label(what + e.why)
    T.nt(e.at is not None and (len(m.before[0]) > 1 or bool(m.before[1]) or bool(m.before[2])))


FLAGS = [(), (P2SH,), [P2SH], {P2SH, bitcoin.core.script.SCRIPT_VERIFY_STRICTENC}]


def evaluate(case, T):
    stack, script, k = case
    final, e, m = run(stack, script)
    if e is None:
        T.label('succeeds')
        return
    flags = FLAGS[k % 4]
    mine, sc = list(stack), CScript(script)
    got = outcome(EvalScript, mine, sc, TX, k, flags=flags) if k % 3 else outcome(EvalScript, mine, sc, TX, k, flags)
    ok(got[0] == 'exc', 'evaluation succeeds, the reference fails: %s' % e.why)
    compare(got[1], e, m, sc, k, flags, T)


def failing(case, T):
    """Operations that fail for certain, after a program and within branches"""
    stack, script, tail, wrap, k = case
    if wrap == 1:
        script = script + b'\x51\x63' + tail + b'\x68'
    elif wrap == 2:
        script = script + b'\0\x63\x51\x67' + tail + b'\x68'
    elif wrap == 3:
        script = b'\x51\x6b' + script + b'\x5a\x6b' + tail
    else:
        script = script + tail
    evaluate((stack, script, k), T)


def table(case, T):
    stack, script = case
    for pre, post, st2 in ((b'', b'', []), (b'\x51\x63', b'\x68', []), (b'\x51\x6b', b'', []), (b'\0\x63\x67', b'\x68', []), (b'\x61\x52\x75', b'', []), (b'', b'', [b'bottom', b'x'])):
        evaluate((st2 + stack, pre + script + post, 0), T)


def pairs(case, T):
    """Which of the scripts of a pair failed"""
    sig, pub, redeem, k = case
    flags = FLAGS[k % 4]
    p2sh = P2SH in flags
    if redeem:
        sig = sig + R.push(pub)
        inner, pub = pub, b'\xa9\x14' + R.hash160(pub) + b'\x87'
    scs, scp = CScript(sig), CScript(pub)
    todo = [('input script: ', sig, []), ('output script: ', pub, None)]
    if redeem and p2sh:
        todo.append(('redeem script: ', inner, None))
    got = outcome(VerifyScript, scs, scp, TX, 0, flags)
    after = None
    for what, script, stack in todo:
        if stack is None:
            stack = after if not what.startswith('redeem') else after[:-1]
            if what.startswith('redeem') and not S.push_only(sig):
                return
        final, e, m = run(stack, script)
        if e is not None:
            ok(got[0] == 'exc', what + 'succeeds, the reference fails: %s' % e.why)
            compare(got[1], e, m, script, 0, flags, T, what)
            return
        if what.startswith('input'):
            after = list(final)
        elif not final or not S.truth(final[-1]):
            return
    T.label('all succeed')


def limits(case, T):
    from . import c33
    kept = []

    class Take:
        """The program c33 makes of the case"""
        def label(self, *a):
            pass

        def nt(self, *a):
            pass
    save = c33.evaluate
    c33.evaluate = lambda c, t: kept.append(c)
    try:
        c33.limits(case, Take())
    finally:
        c33.evaluate = save
    for stack, script in kept:
        evaluate((stack, script, 0), T)


BAD = gen.mix(st.sampled_from([b'\x6a', b'\x69', b'\x88', b'\x9d', b'\x79', b'\x7a', b'\x5a\x79', b'\x5f\x7a', b'\x4f\x79', b'\x4f\x7a', b'\x01\x80\x7a', b'\0\x69', b'\x51\x52\x88', b'\x51\x52\x9d', b'\x6d', b'\x71', b'\x72', b'\x6c',
                               b'\x50', b'\x62', b'\x89', b'\xba', b'\xff', b'\x7e', b'\x95', b'\x67', b'\x68', b'\x02a', b'\x4c', b'\xac', b'\x51\xad', b'\0\0\xad', b'\xae', b'\0\0\0\xaf', b'\0\0\x51\x51\xaf',
                               b'\x4f\xae', b'\x01\x15\xae', b'\x52\x51\xae', b'\x51\x52\x51\xae', b'\0\x51\x52\x51\xae', b'\x05aaaaa\x8b', b'\x51\x05aaaaa\x93', b'\x05aaaaa\x51\x93', b'\x05aaaaa\x51\x51\xa5', b'\x05aaaaa\x79', b'\x05aaaaa\x7a', b'\x51\x05aaaaa\xae',
                               b'\x4d\x09\x02' + b'z' * 521, b'\x74\x7a', b'\x74\x79', b'\x63', b'\x64', b'\0\x63']),
              X.any_op())
K = st.integers(0, 11)
SUBS = [
    Sub('programs', evaluate, gen=st.tuples(STACK, X.program(), K), quick=6000),
    Sub('failing', failing, gen=gen.mix(st.tuples(STACK, X.program(), BAD, st.integers(0, 4), K), st.tuples(STACK, st.lists(X.push_item(), max_size=6).map(b''.join), BAD, st.integers(0, 4), K)), quick=9000),
    Sub('random', evaluate, gen=st.tuples(STACK, gen.mix(RANDOM, st.binary(max_size=30)), K), quick=4500),
    Sub('pairs', pairs, gen=st.tuples(gen.mix(st.lists(X.push_item(), max_size=5).map(b''.join), X.program()), gen.mix(X.program(), st.tuples(X.program(), BAD).map(b''.join), BAD), st.booleans(), K), quick=4500),
    Sub('limits', limits, gen=LIMIT, quick=1500),
    Sub('table', table, enum=op_table),
]
