from hypothesis import strategies as st
from bitcoin.core.script import CScript, CScriptOp, CScriptInvalidError, CScriptTruncatedPushDataError
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Scripts are built from lists of opcodes, integers and byte strings (lengths around 75/76/255/256/520/65535/65536;
integers around every sign-bit boundary up to 40 bytes), at once from lists, tuples and generators and by repeated addition,
compared with reference bytes and iterated back. Arbitrary bytes (every two-byte script, every operation around each kind of cut push, operations, cut or mutated) are iterated raw and
compared with an independent parser, error position and partial data included. Non-trivial: a list of at least two
elements, or a raw script with a data push or a cut-off push."""
ASSUMPTIONS = []


def element_bytes(e):
    kind, v = e
    if kind == 'op':
        return bytes([v])
    if kind == 'int':
        if v == 0:
            return b'\0'
        if v == -1:
            return b'\x4f'
        if 1 <= v <= 16:
            return bytes([0x50 + v])
        return R.push(R.num(v))
    return R.push(grow(v))


def grow(v):
    return v if isinstance(v, bytes) else bytes([v[1]]) * v[0]


def real(e):
    kind, v = e
    if kind == 'op':
        return CScriptOp(v)
    if kind == 'int':
        return v
    d = grow(v)
    return bytearray(d) if kind == 'bytearray' else CScript(d) if kind == 'script' else d


def cooked(e):
    """What iteration gives for an element"""
    kind, v = e
    if kind == 'op':
        if 0x51 <= v <= 0x60:
            return v - 0x50
        return b'' if v == 0 else ('op', v)
    if kind == 'int':
        if v == 0:
            return b''
        if v == -1:
            return ('op', 0x4f)
        return v if 1 <= v <= 16 else R.num(v)
    return grow(v)


def same_items(got, want, what):
    eq(len(got), len(want), '%s: number of items' % what)
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            ok(type(g) is CScriptOp and int(g) == w[1], '%s: item %r, expected opcode 0x%x' % (what, g, w[1]))
        elif isinstance(w, int):
            ok(isinstance(g, int) and not isinstance(g, CScriptOp) and g == w, '%s: item %r, expected the integer %d' % (what, g, w))
        else:
            eq(g, w, '%s: item' % what)


def build(case, T):
    els, style, cut = case
    want = b''.join(element_bytes(e) for e in els)
    objs = [real(e) for e in els]
    if style == 'list':
        s = CScript(objs)
    elif style == 'tuple':
        s = CScript(tuple(objs))
    elif style == 'generator':
        s = CScript(o for o in objs)
    elif style == 'add':
        s = CScript()
        for o in objs:
            s = s + o
            ok(type(s) is CScript, 'the sum is a script')
    else:
        k = cut % (len(objs) + 1)
        s = CScript(objs[:k])
        first = s
        for o in objs[k:]:
            s += o
        eq(bytes(first), b''.join(element_bytes(e) for e in els[:k]), 'a script added to is left alone')
    ok(type(s) is CScript, 'type')
    eq(bytes(s), want, 'script bytes')
    same_items(list(s), [cooked(e) for e in els], 'iteration')
    eq(bytes(CScript(iter(s))), b''.join(element_bytes(c) for c in
                                         [('op', x[1]) if isinstance(x, tuple) else ('int', x) if isinstance(x, int) else ('data', x)
                                          for x in map(cooked, els)]), 'a script made from the iteration of another')
    ok(CScript(want) == s and bytes(CScript(bytearray(want))) == want, 'a script made from bytes')
    T.label(style, *['%s' % e[0] for e in els])
    for e in els:
        if e[0] != 'op' and e[0] != 'int':
            T.label('length %d' % len(grow(e[1])) if len(grow(e[1])) in (0, 75, 76, 255, 256, 520, 65535, 65536) else 'other length')
    T.nt(len(els) >= 2)


def integer(case, T):
    n = case
    e = ('int', n)
    eq(bytes(CScript([n])), element_bytes(e), 'script of an integer')
    eq(bytes(CScript() + n), element_bytes(e), 'integer added')
    T.label('%d bytes' % len(R.num(n)))
    T.nt(not -1 <= n <= 16)


def expand(case):
    """Operations, then edits"""
    data, muts = case
    return gen.mutate(data, muts)


def raw(case, T):
    s = expand(case)
    got, bad = R.ops(s)
    it = CScript(s).raw_iter()
    for w in got:
        g = next(it, None)
        ok(g is not None, 'raw iteration ends before %r' % (w,))
        eq(tuple(g)[1:], w[1:], 'data and offset')
        eq(int(g[0]), w[0], 'opcode')
    if bad is None:
        ok(next(it, None) is None, 'raw iteration goes on')
    else:
        e = raises(CScriptInvalidError, next, it, what='cut-off push')
        if bad[1] is None:
            ok(not isinstance(e, CScriptTruncatedPushDataError), 'a missing length is not truncated data')
            T.label('no length')
        else:
            ok(isinstance(e, CScriptTruncatedPushDataError), 'truncated data: %r' % e)
            eq(bytes(e.data), bad[1], 'partial data')
            T.label('partial data')
    it = iter(CScript(s))
    want = [w[1] if w[1] is not None else w[0] - 0x50 if 0x51 <= w[0] <= 0x60 else ('op', w[0]) for w in got]
    same_items([next(it) for _ in got], want, 'iteration')
    if bad is None:
        raises(StopIteration, next, it)
    else:
        raises(CScriptInvalidError, next, it, what='iteration into a cut-off push')
    repr(CScript(s))
    T.label('%d ops' % min(len(got), 9), 'invalid' if bad else 'valid')
    T.nt(bad is not None or any(d is not None for _, d, _ in got))


def pairs_of():
    for a in range(256):
        yield a


ENDS = [b'\1', b'\x4b', b'\x4b\7', b'\x4c', b'\x4c\1', b'\x4c\0', b'\x4c\xff\xae', b'\x4d', b'\x4d\1', b'\x4d\1\0', b'\x4d\0\0', b'\x4e', b'\x4e\1', b'\x4e\0\0\0',
        b'\x4e\1\0\0\0', b'\x4e\0\0\0\0', b'\x4e\xff\xff\xff\xff\xac', b'\2\xac']


def all_pairs(case, T):
    """Every script of two bytes, and every operation before and after each kind of cut push"""
    for b in range(256):
        raw((bytes([case, b]), []), T)
    for e in ENDS:
        for n in (1, 2):
            raw((bytes([case]) * n + e, []), T)
        raw((e + bytes([case]), []), T)


def opcodes():
    for n in range(256):
        yield n


def opcode(case, T):
    n = case
    op = CScriptOp(n)
    ok(type(op) is CScriptOp and int(op) == n and CScriptOp(n) is op, 'opcode instance')
    small = n == 0 or 0x51 <= n <= 0x60
    eq(bool(op.is_small_int()), small, 'is_small_int')
    if small:
        eq(op.decode_op_n(), n - 0x50 if n else 0, 'decode_op_n')
        eq(int(CScriptOp.encode_op_n(n - 0x50 if n else 0)), n, 'encode_op_n')
    else:
        raises(ValueError, op.decode_op_n, what='decode_op_n')
    raises(ValueError, CScriptOp.encode_op_n, 17 + n, what='encode_op_n out of range')
    raises(ValueError, CScriptOp.encode_op_n, -1 - n, what='encode_op_n out of range')
    T.nt()


INT = st.one_of(
    st.integers(-20, 20),
    st.tuples(st.integers(0, 320), st.integers(-2, 2), st.sampled_from([1, -1])).map(lambda t: t[2] * (2**t[0] + t[1])),
    st.integers(-2**33, 2**33))
DATA = gen.mix(
    st.binary(max_size=5),
    st.tuples(st.sampled_from([74, 75, 76, 77, 254, 255, 256, 257, 519, 520, 521]), st.integers(0, 255)),
    st.integers(0, 255).map(lambda v: bytes([v])),
    st.tuples(st.sampled_from([65534, 65535, 65536, 65537]), st.integers(0, 255)))
ELEMENT = gen.mix(
    st.tuples(st.just('op'), st.one_of(st.integers(0x4f, 0xff), st.just(0))),
    st.tuples(st.just('int'), INT),
    st.tuples(st.sampled_from(['data', 'data', 'bytearray', 'script']), DATA))
RAWS = gen.mix(
    st.tuples(F.valid_script(), gen.mutations(2, 0, kinds=('trunc', 'set', 'ins', 'del'))),
    st.tuples(F.valid_script(), st.just([])),
    st.tuples(st.binary(max_size=40), st.just([])),
    st.tuples(st.tuples(F.valid_script(3), st.sampled_from([1, 74, 75, 76, 255, 256, 65535, 65536, 70000, 2**24, 2**31, 2**32 - 1]), st.integers(0, 80),
                        st.sampled_from([0, 1, 2, 4])).map(
        lambda t: t[0] + ((bytes([t[1]]) if t[1] < 0x4c else b'\x4b') if t[3] == 0 else
                          bytes([{1: 0x4c, 2: 0x4d, 4: 0x4e}[t[3]]]) + (t[1] % 256**t[3]).to_bytes(t[3], 'little')) + b'\x07' * t[2]), st.just([])))

SUBS = [
    Sub('build', build, gen=st.tuples(st.lists(ELEMENT, max_size=7), st.sampled_from(['list', 'tuple', 'generator', 'add', 'mixed']), st.integers(0, 7)), quick=10500),
    Sub('integer', integer, gen=INT, quick=4500),
    Sub('raw', raw, gen=RAWS, quick=15000),
    Sub('pairs', all_pairs, enum=pairs_of),
    Sub('opcode', opcode, enum=opcodes),
]
