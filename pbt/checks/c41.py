import time

from hypothesis import strategies as st
import bitcoin
from bitcoin.core import CBlock, CheckBlock, CheckBlockHeader, CheckBlockHeaderError, CheckProofOfWorkError, ValidationError
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises, outcome

RULE = """(And a block too far in the future is tried again and again until it no longer is.) Blocks assembled from valid transactions and any number of faults: missing, misplaced, additional or ill-sized
coinbases, invalid or repeated transactions at any place, signature operations of all transactions summing up to the limit
and around it (in inputs, outputs and the coinbase, with cut-off pushes), sizes around the limit, wrong or recomputed
merkle roots, solved and unsolved proofs of work on every network, times around the two-hour limit, all switch settings; blocks with one header and different transactions checked one after another.
Compared with a list of the rules. Non-trivial: a rule at its boundary or broken."""
ASSUMPTIONS = ['The current time is passed explicitly, or lies away from the limit by more than the call takes when it is taken from the clock',
               'Scripts are CScript instances']

NOW = 1400000000


def script(s):
    """bytes, or (opcode, count), or (opcode, count, suffix)"""
    if isinstance(s, bytes):
        return s
    return bytes([s[0]]) * s[1] + (s[2] if len(s) > 2 else b'')


def filler(n):
    if n > 300:
        return b'\x4e' + (n - 5).to_bytes(4, 'little') + b'\xac' * (n - 5)
    return b'\x6a' * n


def plain_tx(t):
    return (t[0], [(i[0], i[1], script(i[2]), i[3]) for i in t[1]], [(o[0], script(o[1])) for o in t[2]], t[3])


def build(case):
    net, header, txs, dup, size, root, work, dt, pow, merkle = case
    txs = [plain_tx(t) for t in txs]
    if dup is not None and txs:
        txs.insert(dup[1] % (len(txs) + 1), txs[dup[0] % len(txs)])
    h = list(header)
    h[3] = NOW + dt
    if size is not None and txs:
        k = size[0] % len(txs)
        if txs[k][2]:
            for d in range(12):
                need = size[1] - len(R.ser_block((tuple(h), txs))) - d
                if need >= 0:
                    t = txs[k]
                    o = t[2][-1]
                    new = (t[0], t[1], t[2][:-1] + [(o[0], o[1] + filler(need))], t[3])
                    cand = txs[:k] + [new] + txs[k + 1:]
                    if len(R.ser_block((tuple(h), cand))) == size[1]:
                        txs = cand
                        break
    if root == 'right' and txs:
        h[2] = R.merkle_levels([R.txid(t) for t in txs])[-1]
    elif root == 'level' and txs:
        h[2] = R.merkle_levels([R.txid(t) for t in txs])[0]
    elif root == 'near' and txs:
        m = R.merkle_levels([R.txid(t) for t in txs])[-1]
        h[2] = m[:-1] + bytes([m[-1] ^ 1])
    if work == 'solve':
        h[4] = 0x207fffff
        for n in range(1000):
            h[5] = n
            if R.pow_ok(R.sha256d(R.ser_header(tuple(h))), h[4], 'regtest'):
                break
    elif work == 'fail':
        h[4] = 0x207fffff
        for n in range(1000):
            h[5] = n
            if not R.pow_ok(R.sha256d(R.ser_header(tuple(h))), h[4], 'regtest'):
                break
    return net, (tuple(h), txs), pow, merkle


def verdict(fn, faults, T, what):
    got = outcome(fn)
    if faults:
        ok(got[0] == 'exc' and isinstance(got[1], ValidationError), '%s: %r, expected a validation error for %r' % (what, got[1], faults))
    else:
        ok(got[0] == 'ok', '%s: %r, expected to pass' % (what, got[1]))


def blocks(case, T):
    net, b, pow, merkle = build(case)
    bitcoin.SelectParams(net)
    faults = R.block_faults(b, net, pow, merkle, NOW)
    real = F.r_block(b)
    if case[2] and len(R.ser_block(b)) < 5000:
        real2 = CBlock.deserialize(R.ser_block(b))
        verdict(lambda: CheckBlock(real2, pow, merkle, NOW), faults, T, 'deserialized block')
    for _ in range(2):
        verdict(lambda: CheckBlock(real, fCheckPoW=pow, fCheckMerkleRoot=merkle, cur_time=NOW), faults, T, 'block')
    if pow and merkle:
        verdict(lambda: CheckBlock(real, cur_time=NOW), faults, T, 'block, default switches')
    hf = R.header_faults(b[0], net, pow, NOW)
    for hd in (real, real.get_header()):
        got = outcome(CheckBlockHeader, hd, fCheckPoW=pow, cur_time=NOW)
        ok((got[0] == 'ok') == (not hf), 'header check: %r, expected faults %r' % (got[1], hf))
        if hf:
            ok(isinstance(got[1], CheckBlockHeaderError), 'header check raised %r' % (got[1],))
            ok('work' not in hf or len(hf) > 1 or isinstance(got[1], CheckProofOfWorkError), 'header check raised %r' % (got[1],))
    eq(real.serialize(), R.ser_block(b), 'the block changed')
    for f in faults or ['valid']:
        T.label(f)
    T.label(net, 'pow' if pow else 'no pow', 'merkle' if merkle else 'no merkle')
    if not faults:
        T.label('valid with %d' % len(b[1]))
    T.nt(bool(faults) or case[4] is not None or case[7] > 7000 or len(b[1]) > 1)


def twins(case, T):
    """Blocks with one header and different transactions, checked one after another with different switches"""
    base, steps = case
    net, b, pow, merkle = build(base)
    bitcoin.SelectParams(net)
    verdicts = set()
    for how, at, other, pow, merkle, now in steps:
        txs = list(b[1])
        if txs:
            k = at % len(txs)
            if how == 'repeat':
                # with an odd number of transactions this has the same merkle root
                txs = txs + [txs[-1]]
            elif how == 'drop':
                del txs[k]
            elif how == 'swap':
                txs[k], txs[-1] = txs[-1], txs[k]
            elif how == 'change':
                t = txs[k]
                txs[k] = (t[0], t[1], t[2], t[3] ^ 1)
            elif how == 'replace':
                txs[k] = plain_tx(other)
            elif how == 'insert':
                txs.insert(k + 1, plain_tx(other))
            elif how == 'empty':
                txs = []
        twin = (b[0], txs)
        faults = R.block_faults(twin, net, pow, merkle, NOW + now)
        if how == 'header':
            hf = R.header_faults(b[0], net, pow, NOW + now)
            verdict(lambda: CheckBlockHeader(F.r_block((b[0], [])).get_header(), pow, NOW + now), hf, T, 'header')
            continue
        real = F.r_block(twin)
        verdict(lambda: CheckBlock(real, pow, merkle, NOW + now), faults, T, how)
        verdicts.add(bool(faults))
        T.label(how, *faults or ['valid'])
    T.nt(len(verdicts) == 2)


def clock(case, T):
    dt, pow = case
    bitcoin.SelectParams('regtest')
    cb = (1, [(R.NULL, 2**32 - 1, b"\x51\x51", 0)], [(5, b'')], 0)
    h = [2, R.NULL, R.txid(cb), int(time.time()) + dt, 0x207fffff, 0]
    while not R.pow_ok(R.sha256d(R.ser_header(tuple(h))), h[4], 'regtest'):
        h[5] += 1
    b = F.r_block((tuple(h), [cb]))
    for fn in (CheckBlock, lambda x: CheckBlockHeader(x.get_header())):
        verdict(lambda: fn(b), ['future'] if dt > 7200 else [], T, 'clock + %d' % dt)
    T.label('future' if dt > 7200 else 'fine')
    T.nt()


def soon(case, T):
    """A block too far in the future becomes fine as time passes"""
    bitcoin.SelectParams('regtest')
    cb = (1, [(R.NULL, 2**32 - 1, b"\x51\x51", 0)], [(5, b'')], 0)
    h = [2, R.NULL, R.txid(cb), int(time.time()) + 7200 + case, 0x207fffff, 0]
    while not R.pow_ok(R.sha256d(R.ser_header(tuple(h))), h[4], 'regtest'):
        h[5] += 1
    b = F.r_block((tuple(h), [cb]))
    fine = refused = 0
    while not fine:
        for fn in (CheckBlock, lambda x: CheckBlockHeader(x.get_header())):
            before = time.time()
            got = outcome(fn, b)
            after = time.time()
            ok(got[0] == 'ok' or isinstance(got[1], ValidationError), 'the check raised %r' % (got[1],))
            if after < h[3] - 7200 - 0.01:
                ok(got[0] == 'exc', 'a block more than two hours ahead passes')
                refused += 1
            elif before >= h[3] - 7200 + 1:
                ok(got[0] == 'ok', 'a block not two hours ahead any more is refused: %r' % (got[1],))
                fine += 1
        time.sleep(0.2)
    T.label('refused first' if refused else 'fine at once')
    T.nt(bool(refused))


N32 = 2**32 - 1
CB = st.tuples(st.just(1), st.sampled_from([2, 2, 2, 50, 100, 99, 1, 101, 0]).map(lambda n: [(R.NULL, N32, (0x51, n), 0)]),
               st.lists(st.tuples(st.integers(0, 100), st.sampled_from([b'', (0xac, 1), (0xae, 1)])), min_size=1, max_size=2), st.integers(0, 3))
GOODCB = st.tuples(st.just(1), st.integers(2, 100).map(lambda n: [(R.NULL, N32, (0x51, n), 0)]),
                   st.lists(st.tuples(st.integers(0, 100), st.sampled_from([b'', (0xac, 1)])), min_size=1, max_size=2), st.integers(0, 3))
COUNT = st.sampled_from([0, 1, 2, 3, 9999, 10000, 10001, 19980, 19998, 19999, 20000, 20001, 5000])
MSCOUNT = st.sampled_from([0, 1, 499, 500, 501, 999, 1000, 1001])
SCR = st.one_of(st.just(b''), st.just(b'\x51'), st.tuples(st.sampled_from([0xac, 0xad]), st.integers(0, 3)), st.tuples(st.sampled_from([0xae, 0xaf]), st.integers(0, 2)),
                st.just(b'\x05\xac'), st.just(b'\x01\xac'), st.just(b'\x52\xae'))
LOADED = st.one_of(st.tuples(st.sampled_from([0xac, 0xad]), COUNT), st.tuples(st.sampled_from([0xae, 0xaf]), MSCOUNT),
                   st.tuples(st.just(0xac), COUNT, st.just(b'\x4c')), st.tuples(st.just(0xac), COUNT, st.just(b'\x05\xac\xac')),
                   st.tuples(st.just(0xac), COUNT, st.just(b'\x51\xae')))
KEYS = st.integers(0, 40)


def txs(scr):
    return st.tuples(st.just(1), st.lists(KEYS, min_size=1, max_size=3, unique=True).flatmap(
        lambda ks: st.tuples(*[st.tuples(st.just(bytes([k + 1]) * 32), st.just(k), scr, st.just(0)) for k in ks]).map(list)),
        st.lists(st.tuples(st.integers(0, 1000), scr), min_size=1, max_size=3), st.integers(0, 2))


GOOD = txs(SCR)
ANY = gen.mix(GOOD, txs(SCR), CB, st.sampled_from([
    (1, [], [(1, b'')], 0), (1, [(b'\1' * 32, 0, b'', 0)], [], 0), (1, [(b'\1' * 32, 0, b'', 0)], [(-1, b'')], 0),
    (1, [(b'\1' * 32, 0, b'', 0)], [(R.MAX_MONEY + 1, b'')], 0), (1, [(b'\1' * 32, 0, b'', 0)], [(R.MAX_MONEY, b''), (1, b'')], 0),
    (1, [(b'\1' * 32, 0, b'', 0)] * 2, [(1, b'')], 0), (1, [(b'\1' * 32, 0, b'', 0), (R.NULL, N32, b'', 0)], [(1, b'')], 0)]))


def distinct(ts):
    seen, out = [], []
    for t in ts:
        if t not in seen:
            seen.append(t)
            out.append(t)
    return out


BODY = st.lists(GOOD, max_size=4).map(distinct)
VALIDTXS = st.tuples(GOODCB, BODY).map(lambda t: [t[0]] + t[1])
ANYTXS = gen.mix(VALIDTXS, st.lists(ANY, max_size=4), st.tuples(CB, st.lists(ANY, max_size=3)).map(lambda t: [t[0]] + t[1]),
                 st.tuples(VALIDTXS, ANY, st.integers(0, 9)).map(lambda t: t[0][:t[2] % (len(t[0]) + 1)] + [t[1]] + t[0][t[2] % (len(t[0]) + 1):]),
                 BODY, st.permutations([0, 1, 2]).flatmap(lambda p: VALIDTXS.map(lambda v: v[::-1])))


def loaded_cb():
    return st.tuples(st.just(1), st.sampled_from([(0xac, 100), (0xac, 50), (0xae, 5), (0x51, 2)]).map(lambda s: [(R.NULL, N32, s, 0)]),
                     st.lists(st.tuples(st.integers(0, 100), LOADED), min_size=1, max_size=2), st.integers(0, 3))


def fill(t):
    """Top the signature operations up to a total, in the output script of some transaction"""
    txs, where, total, kind = t
    have = sum(R.sigops(script(s), False) for x in txs for s in [i[2] for i in x[1]] + [o[1] for o in x[2]])
    need = total - have
    if need < 0:
        return txs
    k = where % len(txs)
    x = txs[k]
    if kind == 'in' and k > 0:
        new = (x[0], [x[1][0][:2] + ((0xac, need), x[1][0][3])] + x[1][1:], x[2], x[3])
    elif kind == 'multi':
        new = (x[0], x[1], x[2] + [(1, (0xae, need // 20)), (1, (0xad, need % 20))], x[3])
    else:
        new = (x[0], x[1], x[2] + [(1, (0xac, need))], x[3])
    return txs[:k] + [new] + txs[k + 1:]


FILLED = gen.mix(st.tuples(VALIDTXS, st.integers(0, 9), st.sampled_from([19999, 20000, 20000, 20001, 20001]), st.sampled_from(['out', 'in', 'multi'])).map(fill),
                 st.tuples(loaded_cb(), st.lists(txs(gen.mix(SCR, LOADED)), max_size=2).map(distinct)).map(lambda t: [t[0]] + t[1]))

NET = st.sampled_from(['regtest', 'regtest', 'mainnet', 'testnet'])
HEADER = st.tuples(st.sampled_from([1, 2, -1]), st.just(b'\7' * 32), gen.fixed(32), st.just(0), st.sampled_from([0x1d00ffff, 0x207fffff, 0x1d00ffff, 0, 0x01003456]), st.integers(0, 2**32 - 1))
DUP = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 5), st.integers(0, 5)))
NODUP = st.none()
ROOT = st.sampled_from(['right', 'right', 'right', 'as is', 'near', 'level'])
RIGHT = st.just('right')
WORK = st.sampled_from(['solve', 'solve', 'solve', 'fail', 'as is'])
DT = st.sampled_from([0, 0, 0, 7199, 7200, 7201, 7202, 100000, -NOW])
ZERO = st.just(0)
B = st.booleans()
TRUE = st.just(True)
REG = st.just('regtest')
SOLVE = st.just('solve')
SIZE = st.tuples(st.integers(0, 5), st.sampled_from([R.MAX_BLOCK_SIZE + d for d in (-1, 0, 0, 1, 1, 5)]))
NOSIZE = st.none()
HOW = st.sampled_from(['same', 'same', 'same', 'header', 'repeat', 'drop', 'swap', 'change', 'replace', 'insert', 'empty'])
STEP = st.tuples(HOW, st.integers(0, 5), ANY, gen.mix(TRUE, TRUE, TRUE, B), gen.mix(TRUE, TRUE, B), st.sampled_from([0, 0, 0, 1, -7200, -7201, 3]))
SUBS = [
    Sub('twins', twins, gen=gen.mix(st.tuples(st.tuples(REG, HEADER, VALIDTXS, NODUP, NOSIZE, RIGHT, SOLVE, ZERO, TRUE, TRUE), st.lists(STEP, min_size=2, max_size=6)),
                                    st.tuples(st.tuples(NET, HEADER, VALIDTXS, NODUP, NOSIZE, ROOT, WORK, DT, B, B), st.lists(STEP, min_size=2, max_size=6))), quick=2400),
    Sub('transactions', blocks, gen=gen.mix(st.tuples(REG, HEADER, ANYTXS, DUP, NOSIZE, RIGHT, SOLVE, ZERO, TRUE, TRUE),
                                            st.tuples(REG, HEADER, VALIDTXS, DUP, NOSIZE, RIGHT, SOLVE, ZERO, TRUE, TRUE)), quick=3900),
    Sub('switches', blocks, gen=gen.mix(st.tuples(NET, HEADER, VALIDTXS, NODUP, NOSIZE, ROOT, WORK, DT, B, B),
                                        st.tuples(REG, HEADER, VALIDTXS, NODUP, NOSIZE, ROOT, SOLVE, ZERO, TRUE, B),
                                        st.tuples(REG, HEADER, VALIDTXS, NODUP, NOSIZE, RIGHT, WORK, ZERO, B, TRUE),
                                        st.tuples(NET, HEADER, ANYTXS, DUP, NOSIZE, ROOT, WORK, DT, B, B)), quick=3000),
    Sub('sigops', blocks, gen=st.tuples(REG, HEADER, FILLED, NODUP, NOSIZE, RIGHT, SOLVE, ZERO, TRUE, TRUE), quick=900, thorough=5000),
    Sub('size', blocks, gen=st.tuples(REG, HEADER, VALIDTXS, NODUP, SIZE, RIGHT, SOLVE, ZERO, TRUE, TRUE), quick=120, thorough=1000, heavy=True),
    Sub('soon', soon, enum=lambda: [3]),
    Sub('clock', clock, gen=st.tuples(st.sampled_from([-10000, 0, 3600, 7200 + 3600, 100000]), B), quick=36, thorough=100),
]
