from hypothesis import strategies as st
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError
from .. import gen, ref_btc as R, ref_script as S, fx_btc as F, fx_script as X
from ..core import Sub, eq, ok, outcome

RULE = """Programs composed of operations with fitting, missing or odd arguments (numbers at every byte-length and sign
boundary, non-minimal and five-byte numbers), nested and unbalanced conditionals with several ELSEs, alternate stack,
disabled and reserved opcodes in executed and skipped branches, random opcode strings, edits of all these, every
operation followed by every other in and out of a branch, and the limits (10000 bytes, 520 bytes, 201 operations, 1000 items), over random initial stacks; outcome, final stack and the
failing operation are compared with a reference interpreter. Non-trivial: the reference executes at least three operations
before ending, or succeeds with at least two operations."""
ASSUMPTIONS = ['No real signatures occur (C34), so every signature check is false',
               'The rules are those of the reference client around 0.9: number arguments of up to 4 bytes, NOP1-NOP10 do nothing']

TX = F.r_tx((1, [(b'\1' * 32, 0, b'', 2**32 - 1)], [(5, b'\x51')], 0))


def no_signature(sig, key, code):
    return False


def evaluate(case, T):
    stack, script = case
    m = S.Machine(list(stack), script, no_signature)
    try:
        want = ('ok', m.run())
    except S.Failed as e:
        want = ('failed', e)
    st_, sc = list(stack), CScript(script)
    got = outcome(EvalScript, st_, sc, TX, 0)
    n = len(R.ops(script)[0])
    if want[0] == 'ok':
        ok(got[0] == 'ok', 'evaluation failed (%r), reference leaves %r' % (got[1], want[1]))
        eq([bytes(i) for i in st_], want[1], 'final stack')
        ok(all(type(i) is bytes for i in st_), 'stack items are bytes')
        T.label('ok')
        T.nt(n >= 2)
    else:
        e = want[1]
        ok(got[0] == 'exc', 'evaluation succeeded with %r, reference fails: %s' % (st_, e.why))
        err = got[1]
        ok(isinstance(err, EvalScriptError) and isinstance(err, ValidationError), 'evaluation raised %s: %s (reference: %s)' % (type(err).__name__, err, e.why))
        ok(err.scriptIn is sc and err.txTo is TX and err.inIdx == 0, 'the error carries script, transaction and index')
        ok(isinstance(err.stack, list), 'the error carries the stack')
        if err.sop_pc is not None:
            ok(e.at is not None, 'the error names an operation (%r), reference fails at none: %s' % (err.sop_pc, e.why))
            eq((int(err.sop), err.sop_data, err.sop_pc), e.at, 'failing operation')
            ok(isinstance(err.altstack, list) and isinstance(err.vfExec, list) and isinstance(err.nOpCount, int), 'the error carries the rest of the state')
        elif e.at is not None:
            ok(R.ops(script)[1] is not None, 'the error does not name the failing operation %r (%s)' % (e.at, e.why))
        T.label(e.why)
        T.nt(e.at is not None and sum(1 for o in R.ops(script)[0] if o[2] < e.at[2]) >= 3)
    eq(bytes(sc), script, 'the script afterwards')


def edited(case, T):
    stack, script, muts = case
    evaluate((stack, gen.mutate(script, muts)), T)


def op_table():
    """Every opcode over argument tuples that reach its rules, executed and skipped"""
    vals = [b'', b'\1', b'\x81', b'\2', b'\x7f', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\0', b'\x80', b'\0\0\0\0\0', b'\5\0', b'abc', b'\0\0\0\x80']
    for op in range(0x4f, 256):
        o = bytes([op])
        for k in range(0, 7):
            yield ([bytes([i + 1]) for i in range(k)], o)
        for a in vals:
            yield ([a], o)
            yield ([b'\7', b'\6', b'\5', a], o)
            for b in vals:
                yield ([a, b], o)
        yield ([], b'\0\x63' + o + b'\x68\x51')
        yield ([], b'\x51\x63' + o + b'\x67' + o + b'\x68\x51')
        yield ([], b'\0\x63' + o + b'\x67\x51\x68')
        yield ([b'\3', b'\4'], b'\x6b' + o + b'\x6c')
    for a in vals:
        for b in vals:
            for c in vals:
                yield ([a, b, c], b'\xa5')


def limits(case, T):
    kind, n, extra, op = case
    o = bytes([op])
    if kind == 'ops':
        s, stk = b'\x61' * n + extra, []
    elif kind == 'skipped ops':
        s, stk = b'\0\x63' + b'\x61' * (n - 2) + b'\x68' + extra, []
    elif kind == 'branch ops':
        # several skipped and executed arms; every operation above OP_16 counts
        a = (op * 7) % 60
        arms = [b'\x61' * a, b'\x75' * (op % 40), b'\xb0' * 20]
        s, stk = b'\0\x63' + arms[0] + b'\x67' + arms[2] + b'\0\x64' + arms[2] + b'\x67' + arms[1] + b'\x68\x68' + b'\x51\x64' + b'\xac' * 5 + b'\x68', []
        s += b'\x61' * (n - sum(1 for o in R.ops(s)[0] if o[0] > 0x60)) + extra
    elif kind == 'argument ops':
        s, stk = (b'\x51' + o) * n + extra, [b'\1'] * 3
    elif kind == 'multisig ops':
        k = 1 + op % 20
        one = b'\0\0' + b'\0' * k + R.push(R.num(k)) + b'\xaf'
        s, stk = one * (201 // (k + 1)) + b'\x61' * (n - 190) + extra, []
    elif kind == 'last multisig':
        # the keys of the final operation are what reaches the limit; nothing that counts comes after it
        k = (n * 7 + op) % 21
        m = op % 3 if k > 2 else 0
        s, stk = b'\x61' * (n - k - 1) + b'\0' + b'\0' * m + R.push(R.num(m)) + b'\0' * k + R.push(R.num(k)) + bytes([0xae + op % 2]), []
        s += extra.replace(b'\x61', b'\x51')
    elif kind == 'element':
        s, stk = (R.push(b'x' * (319 + n)) + b'\x75' if op % 3 else b'\0\x63' + R.push(b'x' * (319 + n)) + b'\x68') + extra, []
    elif kind == 'script':
        body = (R.push(b'x' * 518) + b'\x75') * 19 if op % 2 else b'\x51\x75' * 100
        s, stk = body + b'\x51', []
        s += extra
        pad = 10000 + (n - 201) - len(s)
        while pad > 523:
            s += R.push(b'x' * 519)
            pad -= 522
        s += R.push(b'y' * max(0, pad - (1 if pad < 77 else 2 if pad < 258 else 3)))
    elif kind == 'items':
        stk = [b'\1'] * (1000 - 201 + n)
        s = extra + o
    elif kind == 'alt items':
        stk = [b'\1'] * 900
        s = b'\x6b' * 50 + b'\x51' * (100 + n - 201) + extra
    elif kind == 'initial items':
        stk = [b'\2'] * (1000 + n - 201)
        s = (b'' if op % 2 else b'\x61') + extra
    elif kind == 'each op':
        # this operation alone, executed and skipped
        s, stk = b'\0\x63' + o * (n - 2) + b'\x68' + extra, []
        if op <= 0x60:
            evaluate(([], o * (n - 1) + extra), T)
    T.label(kind, 'at %d' % (n - 201))
    evaluate((stk, s), T)
    T.nt()


LIMIT = st.tuples(st.sampled_from(['ops', 'skipped ops', 'branch ops', 'argument ops', 'multisig ops', 'last multisig', 'last multisig', 'element', 'script', 'items', 'alt items', 'initial items']),
                  st.integers(197, 205), gen.mix(st.sampled_from([b'', b'\x51', b'\x61', b'\x6e', b'\x75', b'\x76', b'\x6f', b'\x52\x53\x75']), X.leaf_chunk()),
                  st.sampled_from([0x51, 0x00, 0x6e, 0x6f, 0x70, 0x74, 0x76, 0x73, 0x7d, 0x78, 0x75, 0x61, 0x82, 0x6b, 0x4f, 0x93, 0x87]))


def limit_table():
    for kind in ('ops', 'skipped ops', 'branch ops', 'argument ops', 'multisig ops', 'last multisig', 'element', 'script', 'items', 'alt items', 'initial items'):
        for n in range(197, 206):
            for op in (0x51, 0x6e, 0x6f, 0x74, 0x61, 0x75, 0x93):
                for extra in (b'', b'\x61', b'\x75'):
                    yield (kind, n, extra, op)
    for op in range(256):
        if op == 0 or op >= 0x4f:
            for n in (200, 201, 202, 203):
                for extra in (b'', b'\x51'):
                    yield ('each op', n, extra, op)


FIRST = [[], [b'\1', b'\2', b'\3', b'\4', b'\5', b'\6', b'\1'], [b'', b'\x81', b'\x80', b'abc', b'', b'\2', b'']]


def pairs(case, T):
    """Every operation after `first`, over stacks that have enough, nothing, or odd items"""
    first, k = case
    for second in [0] + list(range(0x4f, 256)):
        evaluate((FIRST[k], bytes([first, second])), T)
        evaluate((FIRST[k], bytes([0x51, 0x63, first, second, 0x67, second, 0x68])), T)
    T.nt()


def pair_table():
    for first in [0] + list(range(0x4f, 256)):
        for k in range(len(FIRST)):
            yield (first, k)


STACK = st.lists(X.item(), max_size=7)
RANDOM = st.lists(gen.mix(X.any_op(), X.push_item(), X.plain_op()), max_size=14).map(b''.join)

SUBS = [
    Sub('programs', evaluate, gen=st.tuples(STACK, X.program()), quick=10800),
    Sub('edited', edited, gen=st.tuples(STACK, X.program(), gen.mutations(3, 1)), quick=3600),
    Sub('random', evaluate, gen=st.tuples(STACK, gen.mix(RANDOM, st.binary(max_size=30))), quick=7500),
    Sub('limits', limits, gen=LIMIT, quick=2100),
    Sub('op_table', evaluate, enum=op_table),
    Sub('pairs', pairs, enum=pair_table),
    Sub('limit_table', limits, enum=limit_table),
]
