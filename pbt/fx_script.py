"""Strategies for scripts that get somewhere, as plain bytes."""
from hypothesis import strategies as st

from . import gen, ref_btc as R, ref_script as S

FLOW = [0x63, 0x64, 0x67, 0x68]
CHECKS = [0xac, 0xad, 0xae, 0xaf]

NUMS = st.one_of(
    st.integers(-3, 17),
    st.tuples(st.sampled_from([7, 8, 15, 16, 23, 24, 31, 32]), st.integers(-2, 2), st.sampled_from([1, -1])).map(lambda t: t[2] * (2**t[0] + t[1])),
    st.integers(-2**31, 2**31)).map(R.num)
ODD = st.sampled_from([b'\0', b'\x80', b'\0\0', b'\0\x80', b'\1\0', b'\1\x80', b'\x81\0', b'\0\0\0\0', b'\0\0\0\x80', b'\xff\xff\xff\xff',
                       b'\xff\xff\xff\x7f', b'\0\0\0\0\0', b'\1\0\0\0\0', b'\0\0\0\0\x80', b'\xff\xff\xff\xff\x7f', b'\x80\0\0\0\1'])
SMALLNUM = st.integers(0, 6).map(R.num)


def item():
    return gen.mix(NUMS, SMALLNUM, ODD, st.binary(max_size=6), st.sampled_from([b'', b'\1', b'a' * 20, b'b' * 520]))


def push_item():
    """A push, sometimes with the small-number opcodes, sometimes in a longer form"""
    def enc(t):
        v, how = t
        if how == 0 and (v == b'' or len(v) == 1 and (1 <= v[0] <= 16 or v[0] == 0x81)):
            return b'\0' if v == b'' else b'\x4f' if v[0] == 0x81 else bytes([0x50 + v[0]])
        if how == 1 and len(v) < 256:
            return b'\x4c' + bytes([len(v)]) + v
        if how == 2:
            return b'\x4d' + len(v).to_bytes(2, 'little') + v
        return R.push(v)
    return st.tuples(item(), st.integers(0, 5)).map(enc)


STEADY = sorted(set(S.ARGS) - {0xac, 0xad})


def apply(op):
    """An operation after pushes of about as many arguments as it needs"""
    n = S.ARGS[op]
    numeric = op in S.UNARY or op in S.BINARY or op in (0x9d, 0xa5)
    arg = push_num() if numeric else push_item()
    args = st.lists(arg, min_size=n, max_size=n)
    if op in (0x79, 0x7a):
        args = st.tuples(st.lists(push_item(), min_size=1, max_size=4), st.integers(-1, 5).map(R.num).map(R.push)).map(lambda t: t[0] + [t[1]])
    elif op in (0x87, 0x88, 0x9d):
        args = gen.mix(args, arg.map(lambda a: [a, a]))
    return args.map(lambda a: b''.join(a) + bytes([op]))


def push_num():
    return gen.mix(NUMS, ODD, SMALLNUM).map(R.push)


def plain_op():
    return gen.mix(st.sampled_from(STEADY), st.sampled_from([0x74, 0x61, 0x6c, 0xab, 0xb0, 0xb1, 0xb9, 0x6b])).map(lambda b: bytes([b]))


def any_op():
    return st.integers(0x4f, 0xff).map(lambda b: bytes([b]))


def multisig_none():
    """No signatures: dummy 0 <keys> n CHECKMULTISIG"""
    return st.tuples(push_item(), st.lists(push_item(), max_size=4), st.sampled_from([0xae, 0xaf]), st.integers(-1, 1), st.integers(0, 9)).map(
        lambda t: t[0] + R.push(R.num(0 if t[4] else 1)) + b''.join(t[1]) + R.push(R.num(len(t[1]) + (t[3] if t[4] == 1 else 0))) + bytes([t[2]]))


def junk_sig():
    return st.tuples(st.one_of(st.just(b''), st.binary(max_size=10), st.just(b'\x30\6\2\1\1\2\1\1\1')), st.one_of(st.just(b''), st.binary(max_size=5), st.just(b'\2' + b'\7' * 32)),
                     st.sampled_from([0xac, 0xad])).map(lambda t: R.push(t[0]) + R.push(t[1]) + bytes([t[2]]))


def leaf_chunk():
    return gen.mix(push_item(), st.sampled_from(STEADY).flatmap(apply), plain_op(), st.sampled_from(STEADY).flatmap(apply), push_item())


def rare_chunk():
    return gen.mix(multisig_none(), junk_sig(), any_op(), st.sampled_from([b'\x6a', b'\x50', b'\x62', b'\x65', b'\x66', b'\x89', b'\x8a', b'\x7e', b'\xba', b'\xff', b'\x67', b'\x68']),
                   st.sampled_from([519, 520, 521]).map(lambda n: R.push(b'z' * n)))


def branch(inner):
    def make(t):
        test, op, arms, sloppy = t
        out = test + bytes([op]) + b'\x67'.join(arms) + b'\x68'
        if sloppy == 0:
            out = out[:-1]
        return out
    test = gen.mix(push_item(), st.sampled_from([b'\0', b'\x51', b'\1\x80', b'\2\0\x80', b'']))
    return st.tuples(test, st.sampled_from([0x63, 0x64]), st.lists(inner, min_size=1, max_size=3), st.integers(0, 15)).map(make)


def program(mx=8):
    leaf = st.lists(gen.mix(leaf_chunk(), leaf_chunk(), leaf_chunk(), leaf_chunk(), rare_chunk()), max_size=mx).map(b''.join)
    tame = st.lists(leaf_chunk(), max_size=mx).map(b''.join)
    base = gen.mix(tame, tame, leaf)
    nested = st.recursive(base, lambda inner: st.lists(gen.mix(leaf_chunk(), branch(inner)), max_size=4).map(b''.join), max_leaves=6)
    return gen.mix(tame, nested, leaf, nested)
