import sys
from hashlib import sha256

from hypothesis import strategies as st
from bitcoin.core import CBlock, CheckTransaction, CMutableTransaction, CTransaction
from bitcoin.core.script import CScript, FindAndDelete, SignatureHash
from proofmarshal.bits import Bits, BitsSerializer
from .. import fx_btc as F, fx_pm, fx_tree
from ..core import Sub, eq, ok

RULE = """Long ranges, wide, narrow and deep trees, chains of proofs sharing their parts, and large transactions, scripts and bit strings; operations
on them are done and the calls of functions they make counted. The work of looking up, adding, replacing and removing one item, of hashing what changed,
and of making, sending and reading a proof of it must stay within a constant (some five times what it takes) for each node on the
path, and that of operations about everything within a constant for each item. Results are compared with the expected values too.
Non-trivial: 2000 items or a path of 20 nodes."""
ASSUMPTIONS = ['Effort is counted in calls of Python and built-in functions, which a refactoring can change by a factor of five at most',
               'The depth of a tree is that of the documented construction']


def effort(fn, *args):
    """(calls made, result)"""
    n = [0]

    def count(frame, event, arg):
        if event == 'call' or event == 'c_call':
            n[0] += 1
    old = sys.getprofile()
    sys.setprofile(count)
    try:
        r = fn(*args)
    finally:
        sys.setprofile(old)
    return n[0], r


def within(what, bound, fn, *args):
    n, r = effort(fn, *args)
    ok(n <= bound, '%s made %d calls, more than %d' % (what, n, bound))
    return r


_made = {}


def mmr_base(n):
    if n not in _made:
        m = within('building a range of %d' % n, 500 * n + 500, fx_tree.MMRA, [i * 7 % 4999 for i in range(n)])
        within('hashing a range of %d' % n, 500 * n + 500, lambda: m.hash)
        _made[n] = m
    return _made[n]


def ranges(case, T):
    n, ops = case
    m = mmr_base(n)
    items = [i * 7 % 4999 for i in range(n)]
    L = n.bit_length() + 1
    one = 90 * L + 100
    for op, i, j in ops:
        T.label(op)
        n = len(items)
        i %= max(n, 1)
        what = '%s on a range of %d items' % (op, n)
        if op == 'get' and n:
            eq(within(what, one, lambda: m[i]), items[i], what)
            eq(within(what, one, lambda: m[i - n]), items[i], what)
        elif op == 'len':
            eq(within(what, 60, len, m), n, what)
        elif op == 'append':
            m = within(what, 2 * one, m.append, j)
            items = items + [j]
            within('hash after ' + what, 4 * one, lambda: m.hash)
        elif op == 'extend':
            more = [j, i, j + 1]
            m = within(what, 6 * one, m.extend, more)
            items = items + more
            within('hash after ' + what, 6 * one, lambda: m.hash)
        elif op == 'hash':
            within(what, 20, lambda: m.hash)
        elif op == 'compare':
            other = m.append(1)
            h = other.hash
            eq(within(what, 60, lambda: m == other), False, what)
        elif op == 'prune':
            p = within(what, 60, m.prune)
            within('hash of pruned, ' + what, 60, lambda: p.hash)
            eq(within('len of pruned, ' + what, 200, len, p), n, what)
            if n:
                eq(within('get of pruned, ' + what, 3 * one, lambda: p[i]), items[i], what)
                eq(within('get of pruned, ' + what, 3 * one, lambda: p[j % n]), items[j % n], what)
            w = within('serialization of pruned, ' + what, 10 * one, p.serialize)
            ok(len(w) <= 2 * (L + 1) * 60 + 100, 'proof of two items of %d takes %d bytes' % (n, len(w)))
            q = within('reading of pruned, ' + what, 12 * one, fx_tree.MMRA.deserialize, w)
            if n:
                eq(within('get of read, ' + what, one, lambda: q[i]), items[i], what)
            eq(within('hash of read, ' + what, 12 * one, lambda: q.hash), m.hash, what)
        elif op == 'iterate':
            eq(within(what, (40 + 5 * L) * n + 200, list, m), items, what)
        elif op == 'reverse':
            eq(within(what, (40 + 5 * L) * n + 200, lambda: list(reversed(m))), items[::-1], what)
        elif op == 'serialize':
            within(what, 200 * n + 500, m.serialize)
        elif op == 'slice':
            # the right end is shared, what was left of it is appended again
            k = j % 40
            eq(within(what, 8 * (k + 1) * one, lambda: list(m[i:i + k])), items[i:i + k], what)
        elif op == 'first':
            # up to some items behind the end of a mountain
            ends, at = [0], 0
            for b in range(n.bit_length(), -1, -1):
                if n >> b & 1:
                    at += 1 << b
                    ends.append(at)
            k = min(n, ends[i % len(ends)] + j % 8)
            s = within(what, 12 * one, lambda: m[:k])
            eq(len(s), k, what)
            ok(k == 0 or (s[k - 1], s[k // 2]) == (items[k - 1], items[k // 2]), what)
        elif op == 'last':
            # from some items ahead of the start of a mountain
            eq(within(what, 40 * one, lambda: m[n - j % 8:]).hash, fx_tree.MMRA(items[n - j % 8:]).hash, what)
        elif op == 'whole':
            ok(within(what, one, lambda: m[0:n]) == m, what)
    T.nt(n >= 2000)


def depths(keys, key):
    """How many nodes of the tree of these (integer) keys are above the leaf of key"""
    return len({(k ^ key).bit_length() for k in keys if k != key})


def keys_of(shape, n):
    if shape == 'spread':
        return [sha256(b'%d' % i).digest() for i in range(n)]
    if shape == 'counting':
        return [i.to_bytes(32, 'big') for i in range(n)]
    if shape == 'top':
        return [i.to_bytes(2, 'big') + bytes(30) for i in range(n)]
    if shape == 'chain':
        return [(1 << i).to_bytes(32, 'big') for i in range(min(n, 256))]
    # chain of chains
    return [(1 << 255 | 1 << (i % 128) + 100 | 1 << i % 90).to_bytes(32, 'big') for i in range(min(n, 1000))]


def mbt_base(shape, n):
    k = (shape, n)
    if k not in _made:
        keys = list(dict.fromkeys(keys_of(shape, n)))
        d = max(depths([int.from_bytes(x, 'big') for x in keys], int.from_bytes(y, 'big')) for y in keys[:50] + keys[-50:]) + 15
        m = within('building a tree of %d (%s)' % (n, shape), (300 * d + 1000) * len(keys) + 500, fx_tree.MBTB, [(x, x[-3:]) for x in keys])
        within('hashing a tree of %d (%s)' % (n, shape), 800 * len(keys) + 500, lambda: m.hash)
        _made[k] = m, {x: x[-3:] for x in keys}
    return _made[k]


def mbt_twin(shape, n):
    """The same tree, of other objects"""
    k = (shape, n, 'twin')
    if k not in _made:
        _made[k] = fx_tree.MBTB([(x, x[-3:]) for x in dict.fromkeys(keys_of(shape, n))][::-1])
        _made[k].hash
    return _made[k]


def trees(case, T):
    shape, n, ops = case
    m, d = mbt_base(shape, n)
    d = dict(d)
    deepest = 0
    for op, i, v in ops:
        T.label(op)
        keys = list(d)
        if not keys:
            break
        if op == 'put new' or op == 'get new':
            key = sha256(b'new %d' % i).digest() if i % 2 else (i % 1000 << i % 200).to_bytes(32, 'big')
        else:
            key = keys[i % len(keys)]
        depth = depths([int.from_bytes(k, 'big') for k in keys], int.from_bytes(key, 'big')) + 2
        deepest = max(deepest, depth)
        one = 180 * depth + 4 * depth * depth + 300     # the generators of a path are nested
        what = '%s at depth %d of a tree of %d (%s)' % (op, depth, len(d), shape)
        if op == 'get':
            eq(within(what, one, lambda: m[key]), d[key], what)
        elif op == 'get new':
            eq(within(what, one, lambda: fx_tree_get(m, key)), d.get(key), what)
        elif op == 'put new' or op == 'put':
            m = within(what, 3 * one, m.put, key, v)
            d[key] = v
            within('hash after ' + what, 3 * one, lambda: m.hash)
            eq(m[key], v, what)
        elif op == 'remove':
            m = within(what, 3 * one, m.remove, key)
            del d[key]
            within('hash after ' + what, 3 * one, lambda: m.hash)
        elif op == 'len':
            eq(within(what, 25 * len(d) + 100, len, m), len(d), what)
        elif op == 'hash':
            within(what, 20, lambda: m.hash)
        elif op == 'prune':
            p = within(what, 60, m.prune)
            within('hash of pruned, ' + what, 60, lambda: p.hash)
            eq(within('get of pruned, ' + what, 2 * one, lambda: p[key]), d[key], what)
            w = within('serialization of pruned, ' + what, 3 * one, p.serialize)
            ok(len(w) <= depth * 80 + 200, 'proof of depth %d takes %d bytes' % (depth, len(w)))
            q = within('reading of pruned, ' + what, 4 * one, fx_tree.MBTB.deserialize, w)
            eq(within('get of read, ' + what, one, lambda: q[key]), d[key], what)
            eq(within('hash of read, ' + what, 4 * one, lambda: q.hash), m.hash, what)
        elif op == 'iterate':
            eq(within(what, (200 + 10 * 20) * len(d) + 500 if shape != 'chain' else 20 * 256 * 256, lambda: dict(m.items())), d, what)
        elif op == 'subset':
            # one other value at this key: all else is the same node and need not be entered
            other = m.put(key, d[key] + b'!')
            more = other.put(sha256(b'more').digest(), b'')
            _ = other.hash, more.hash
            eq(within(what, 2 * one, m.issubset, other), False, what)
            eq(within(what, 2 * one, other.issubset, m), False, what)
            eq(within(what, 20 * one, other.issubset, more), True, what)
            # neither is this one if the rest only is equal, not the same
            twin = mbt_twin(shape, n)
            if len(d) == len(twin) and d == dict(zip(twin.keys(), twin.values())):
                eq(within(what, one, twin.issubset, m), True, what)
                other = twin.put(key, d[key] + b'!')
                _ = other.hash
                eq(within(what, 2 * one, m.issubset, other), False, what)
                eq(within(what, 2 * one, other.issubset, m), False, what)
                more = twin.put(sha256(b'more').digest(), b'')
                _ = more.hash
                eq(within(what, 20 * one, m.issubset, more), True, what)
                eq(within(what, 20 * one, more.issubset, m), False, what)
                T.label('twin')
    T.label(shape)
    T.nt(len(d) >= 2000 or deepest >= 20)


def fx_tree_get(m, key):
    try:
        return m[key]
    except KeyError:
        return None


def sharing(case, T):
    """Every level uses the one below it twice: twice as many paths with each, yet each is hashed once"""
    n, seed, upto = case
    p = fx_pm.build(('VA', seed % 65536))
    chain = [p]
    for i in range(n):
        p = fx_pm.VC(x=p, m=b'a', y=p)
        chain.append(p)
    if upto <= n:
        within('hash of the lower levels', 300 * (upto + 2), lambda: chain[upto].hash)
    within('hash of %d levels used twice each' % n, 300 * (n + 2), lambda: p.hash)
    q = within('prune', 60, p.prune)
    within('hash of pruned', 60, lambda: q.hash)
    node = q
    for i in range(n):
        node = within('one step of a pruned proof', 100, lambda: node.x if (seed >> i % 30) & 1 else node.y)
    ok(node.hash == chain[0].hash, 'the same proof at the end')
    T.nt(n >= 20)


def outpoints(n, seed):
    return (1, [(sha256(b'%d' % (i * seed)).digest(), i, b'\x51', 5) for i in range(n)], [(i, b'\x51\xab\x52') for i in range(n)], 0)


PIECES = [b'\x51', b'\xab', b'\xac', b'\x51\xae', b'\x02ab', b'\x01\x07', b'\x4c\x01\x00', b'\x63', b'\x68', b'\x76']


def one_pass(case, T):
    """Bitcoin structures, scripts and bit strings: a constant for each element"""
    what, n, seed = case
    T.label(what)
    T.nt(n >= 2000)
    if what == 'tx':
        t = outpoints(n, seed)
        x = F.r_tx(t)
        b = within('serialization', 115 * n + 500, x.serialize)
        y = within('reading', 260 * n + 500, CTransaction.deserialize, b)
        m = within('copying', 60 * n + 500, CMutableTransaction.from_tx, x)
        within('copying', 120 * n + 500, CTransaction.from_tx, m)
        within('checking', 180 * n + 500, CheckTransaction, x)
        within('hash', 150 * n + 500, y.GetHash)
        within('signature hash', 300 * n + 1000, SignatureHash, CScript(b'\xac'), x, seed % n, 1)
        within('signature hash', 300 * n + 1000, SignatureHash, CScript(b'\xac'), x, seed % n, 0x83)
        ok(y == x, 'read back')
    elif what == 'script':
        s = CScript(b''.join(PIECES[(seed >> i % 20) % 10] for i in range(n)))
        within('iteration', 80 * n + 500, list, s)
        within('counting', 60 * n + 500, s.GetSigOpCount, True)
        within('counting', 60 * n + 500, s.GetSigOpCount, False)
        within('printing', 120 * n + 500, repr, s)
        within('deleting', 100 * n + 500, FindAndDelete, s, CScript(PIECES[seed % 10]))
        within('templates', 100 * n + 500, lambda: (s.is_p2sh(), s.is_push_only(), s.has_canonical_pushes(), s.is_unspendable(), s.is_valid()))
        l = within('building', 100 * n + 500, CScript, [1, b'ab'] * n)
        within('adding', 60, lambda: l + 1)
    elif what == 'ids':
        within('merkle tree', 50 * n + 500, CBlock.build_merkle_tree_from_txids, [sha256(b'%d' % i).digest() for i in range(n)])
    elif what == 'bits':
        data = bytes((seed * i) & 255 for i in range(n))
        a = Bits.from_bytes(data)
        b = Bits.from_bytes(data[:-1] + bytes([data[-1] ^ 1]))
        within('comparison', 60 * n + 200, lambda: (a == b, a < b, ~a, a[n], a[-1], len(a)))
        l = within('iteration', 60 * 8 * n + 200, list, a)
        ok(within('building', 100 * 8 * n + 200, Bits, l) == a, 'built from its bits')
        within('slicing', 60 * 8 * n + 200, lambda: a[3:])
        within('adding', 60 * n + 200, lambda: a + b)
        within('prefix', 60 * n + 200, lambda: a.common_prefix(b))
        within('prefix', 60 * n + 200, lambda: a.startswith(b))
        w = within('serialization', 60 * 8 * n + 200, BitsSerializer.serialize, a[:8 * min(n, 4000)])
        within('reading', 60 * 8 * n + 200, BitsSerializer.deserialize, w)


mmr_op = st.tuples(st.sampled_from(['get', 'get', 'len', 'append', 'append', 'extend', 'hash', 'compare', 'prune', 'prune', 'slice', 'slice', 'first', 'first', 'last', 'whole', 'whole',
                                    'get', 'iterate', 'reverse', 'serialize']), st.integers(0, 20000), st.integers(0, 20000))
mbt_op = st.tuples(st.sampled_from(['get', 'get new', 'put', 'put', 'put new', 'put new', 'remove', 'remove', 'len', 'hash', 'prune', 'prune', 'subset', 'subset', 'subset', 'iterate']),
                   st.integers(0, 10**6), st.sampled_from([b'', b'a', b'bc']))
SIZES = [1, 2, 3, 15, 100, 2047, 2048, 4095, 4097, 8000, 8191]

SUBS = [
    Sub('ranges', ranges, st.tuples(st.sampled_from(SIZES + [4095, 4097, 8000, 8191]), st.lists(mmr_op, min_size=1, max_size=12)), quick=900, thorough=12000),
    Sub('trees', trees, st.tuples(st.sampled_from(['spread', 'counting', 'top', 'chain', 'chains']), st.sampled_from([20, 1000, 2500]),
                                  st.lists(mbt_op, min_size=1, max_size=10)), quick=700, thorough=10000),
    Sub('sharing', sharing, st.tuples(st.integers(1, 150), st.integers(0, 2**32 - 1), st.integers(0, 200)), quick=600, thorough=6000),
    Sub('one-pass', one_pass, st.tuples(st.sampled_from(['tx', 'script', 'ids', 'bits']), st.sampled_from([1, 10, 400, 2000, 3001]),
                                        st.integers(1, 2**20)), quick=120, thorough=2000),
]
