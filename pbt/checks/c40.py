from hypothesis import strategies as st
from bitcoin.core import CheckTransaction, CheckTransactionError, CTransaction, CMutableTransaction, CMutableOutPoint, ValidationError
from bitcoin.core.script import CScript
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Transactions assembled from valid parts and up to three faults (no inputs or outputs, size around the limit by
padding a script, values and totals around the money limit, duplicate inputs, null outpoints among several inputs,
coinbase scripts of 0 to 102 bytes, up to 300 inputs or outputs, outpoints differing in one bit), immutable and mutable, compared with a list of the rules. Non-trivial: at least one
rule at its boundary or broken. One mutable transaction is changed in place again and again, between checks."""
ASSUMPTIONS = ['Scripts are CScript instances and values fit 64 bits']

M = R.MAX_MONEY


def build(case):
    """Plain transaction of a recipe"""
    vin, vout, size, lock = case
    vin = [(i[0], i[1], i[2] if isinstance(i[2], bytes) else b'\x51' * i[2], i[3]) for i in vin]
    tx = (lock % 3 + 1 if lock < 100 else -1, vin, list(vout), lock)
    if size is not None and (vin or vout):
        where, target = size
        where %= len(vin) + len(vout)
        n = target - len(R.ser_tx(tx))
        def padded(n):
            if where < len(vin):
                i = vin[where]
                return (tx[0], vin[:where] + [i[:2] + (i[2] + b'\x6a' * n,) + i[3:]] + vin[where + 1:], tx[2], lock)
            k = where - len(vin)
            o = tx[2][k]
            return (tx[0], vin, tx[2][:k] + [(o[0], o[1] + b'\x6a' * n)] + tx[2][k + 1:], lock)
        best = tx
        for d in range(12):
            if n - d >= 0:
                t = padded(n - d)
                if len(R.ser_tx(t)) == target:
                    best = t
                    break
        tx = best
    return tx


def check(case, T):
    tx = build(case[0])
    mutable = case[1]
    faults = R.tx_faults(tx)
    real = F.r_tx(tx, mutable)
    if mutable == 2:
        real = CMutableTransaction.from_tx(F.r_tx(tx))
    before = R.ser_tx(tx)
    eq(real.is_coinbase(), R.is_coinbase(tx), 'is_coinbase')
    for _ in range(2):
        if faults:
            e = raises(CheckTransactionError, CheckTransaction, real, what='faults %r' % faults)
            ok(isinstance(e, ValidationError), 'not a validation error')
        else:
            eq(CheckTransaction(real), None, 'valid transaction')
        eq(real.serialize(), before, 'the transaction changed')
        eq(F.p_tx(real), tx, 'the transaction changed')
        eq(type(real), CMutableTransaction if mutable else CTransaction, 'type')
    for f in faults or ['valid']:
        T.label(f)
    T.label('mutable' if mutable else 'immutable', 'coinbase' if R.is_coinbase(tx) else 'not coinbase')
    T.nt(bool(faults) or len(tx[1]) > 1 or len(tx[2]) > 14 or case[0][2] is not None or sum(o[0] for o in tx[2]) >= M - 3 or R.is_coinbase(tx))


def history(case, T):
    """One mutable transaction is checked, changed in place and checked again"""
    recipe, how, changes = case
    tx = build(recipe)
    real = F.r_tx(tx, True) if how else CMutableTransaction.from_tx(F.r_tx(tx))
    seen = set()
    for c in [None] + changes:
        vin, vout = list(tx[1]), list(tx[2])
        if c is None:
            pass
        elif c[0] == 'value' and vout:
            k = c[1] % len(vout)
            v = c[2] if c[3] is None else c[3] - sum(o[0] for i, o in enumerate(vout) if i != k)
            if -2**63 <= v < 2**63:
                vout[k] = (v,) + vout[k][1:]
                real.vout[k].nValue = v
        elif c[0] == 'prevout' and vin:
            k = c[1] % len(vin)
            o = vin[c[2] % len(vin)][:2] if c[3] is None else c[3]
            vin[k] = o + vin[k][2:]
            if c[2] & 1:
                real.vin[k].prevout = CMutableOutPoint(*o)
            else:
                real.vin[k].prevout.hash, real.vin[k].prevout.n = o
        elif c[0] == 'script' and vin:
            k = c[1] % len(vin)
            vin[k] = vin[k][:2] + (b'\x51' * c[2],) + vin[k][3:]
            real.vin[k].scriptSig = CScript(vin[k][2])
        elif c[0] == 'drop':
            if c[1] % 2:
                vin, real.vin = [], []
            else:
                vout = []
                real.vout.clear()
        elif c[0] == 'size' and vout:
            k = c[1] % len(vout)
            pad = b'\x6a' * (c[2] - len(R.ser_tx(tx)) - 4) if c[2] else b''
            vout[k] = (vout[k][0], pad)
            real.vout[k].scriptPubKey = CScript(pad)
        elif c[0] == 'back':
            # what it was in the beginning
            tx0 = build(recipe)
            vin, vout = list(tx0[1]), list(tx0[2])
            new = F.r_tx(tx0, True)
            real.vin, real.vout = new.vin, new.vout
        tx = (tx[0], vin, vout, tx[3])
        faults = R.tx_faults(tx)
        eq(real.is_coinbase(), R.is_coinbase(tx), 'is_coinbase after %r' % (c,))
        for what, t in (('changed', real), ('an immutable copy', CTransaction.from_tx(real))):
            if faults:
                raises(CheckTransactionError, CheckTransaction, t, what='%s, %r: faults %r' % (what, c, faults))
            else:
                eq(CheckTransaction(t), None, 'valid transaction')
        eq(real.serialize(), R.ser_tx(tx), 'the transaction changed')
        seen.add(bool(faults))
        for f in faults or ['valid']:
            T.label(f)
    T.nt(len(seen) == 2)


H = st.integers(0, 2).map(lambda k: bytes([k]) * 32)
NUL = (R.NULL, 2**32 - 1)
IN = st.tuples(gen.mix(H, gen.fixed(32)), st.sampled_from([0, 1, 2, 2**32 - 1]), st.integers(0, 3), st.just(2**32 - 1))
NULIN = st.tuples(st.sampled_from([0, 1, 2, 3, 50, 99, 100, 101, 102])).map(lambda t: NUL + (t[0], 0))
NEARNULL = st.sampled_from([(R.NULL, 2**32 - 2), (R.NULL, 0), (b'\0' * 31 + b'\1', 2**32 - 1), (b'\1' + b'\0' * 31, 2**32 - 1)]).flatmap(
    lambda o: st.sampled_from([0, 1, 2, 100, 101]).map(lambda n: o + (n, 0)))
VAL = st.one_of(st.integers(0, 5), st.sampled_from([0, M, M - 1, M // 2, M // 2 + 1, M + 1, -1, 2**63 - 1, -2**63]), st.integers(0, M))
OUT = st.tuples(VAL, st.binary(max_size=3))
SANE = st.tuples(st.integers(0, M // 8), st.binary(max_size=3))


def unique(vin):
    seen, out = set(), []
    for i in vin:
        if i[:2] not in seen and i[:2] != NUL:
            seen.add(i[:2])
            out.append(i)
    return out


INS = st.lists(IN, min_size=1, max_size=6).map(unique)
ANYINS = gen.mix(INS, NULIN.map(lambda i: [i]), NEARNULL.map(lambda i: [i]), st.lists(st.one_of(IN, NULIN, NEARNULL), max_size=5),
                 INS.flatmap(lambda v: st.integers(0, len(v) - 1).map(lambda k: v + [v[k]]) if v else st.just(v)),
                 st.tuples(INS, NULIN, st.integers(0, 5)).map(lambda t: t[0][:t[2]] + [t[1]] + t[0][t[2]:]))


def split(t):
    """Values with a given total"""
    total, cuts = t
    cuts = sorted(min(c, total) for c in cuts)
    return [(b - a, b'') for a, b in zip([0] + cuts, cuts + [total])]


def pieces(t):
    """Many values with a given total"""
    n, total, at = t
    v = [total // n] * n
    v[at % n] += total - sum(v)
    return [(x, b'') for x in v]


MANY = st.sampled_from([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 300])
MANYOUT = st.tuples(MANY, st.sampled_from([M, M, M + 1, M + 1, M - 1, M + 2, 2 * M]), st.integers(0, 300)).map(pieces)


def aliases(t):
    """Inputs spending outpoints that differ in a few bits only"""
    h, n, bits, dup = t
    out = [(h, n, b'', 0)]
    for b in bits:
        hh, nn = h, n
        if b < 32:
            nn = n ^ 1 << b
        else:
            b -= 32
            hh = h[:b // 8] + bytes([h[b // 8] ^ 1 << b % 8]) + h[b // 8 + 1:]
        out.append((hh, nn, b'', 0))
    if dup is not None:
        out.append(out[dup % len(out)])
    return out


def many_inputs(t):
    n, h, dup = t
    out = [(h, k, b'', k) for k in range(n)]
    if dup is not None:
        i, j = dup
        out.insert(j % (n + 1), out[i % n])
    return out


ALIASES = st.tuples(gen.mix(H, gen.fixed(32)), gen.mix(st.integers(0, 3), F.u32()), st.lists(st.one_of(st.integers(0, 31), st.integers(32, 32 + 255)), min_size=1, max_size=5, unique=True),
                    st.one_of(st.none(), st.none(), st.integers(0, 5))).map(aliases)
MANYIN = st.tuples(MANY, H.filter(any), st.one_of(st.none(), st.tuples(st.integers(0, 300), st.integers(0, 300)))).map(many_inputs)
TOTALS = st.tuples(st.sampled_from([M, M, M + 1, M - 1, M + 2]), st.lists(st.integers(0, M), max_size=4)).map(split)
OUTS = gen.mix(st.lists(SANE, min_size=1, max_size=5), TOTALS, st.lists(OUT, max_size=5),
               st.tuples(TOTALS, st.sampled_from([-1, -2, M + 1, 1, 0]), st.integers(0, 5)).map(lambda t: t[0][:t[2]] + [(t[1], b'')] + t[0][t[2]:]))
NOSIZE = st.none()
SIZE = st.tuples(st.integers(0, 9), st.sampled_from([R.MAX_BLOCK_SIZE + d for d in (-2, -1, 0, 0, 1, 1, 2, 300)]))
LOCK = st.sampled_from([0, 0, 1, 5, 99, 2**32 - 1])
MUT = st.sampled_from([0, 0, 1, 2])
K = st.integers(0, 7)
OP = gen.mix(st.none(), st.tuples(H, st.integers(0, 2)), st.just(NUL))
CHANGE = gen.mix(st.tuples(st.just('value'), K, VAL, st.one_of(st.none(), st.sampled_from([M, M + 1]))), st.tuples(st.just('prevout'), K, K, OP),
                 st.tuples(st.just('script'), K, st.sampled_from([0, 1, 2, 3, 100, 101])), st.tuples(st.just('drop'), K), st.tuples(st.just('back')),
                 st.tuples(st.just('value'), K, VAL, st.none()), st.tuples(st.just('prevout'), K, K, OP), st.tuples(st.just('back')),
                 st.tuples(st.just('size'), K, st.sampled_from([0, 0, 5000, R.MAX_BLOCK_SIZE, R.MAX_BLOCK_SIZE + 1, R.MAX_BLOCK_SIZE - 300])))
SUBS = [
    Sub('history', history, gen=st.tuples(st.tuples(gen.mix(INS, INS, ANYINS), gen.mix(st.lists(SANE, min_size=1, max_size=3), OUTS), NOSIZE, LOCK), st.booleans(), st.lists(CHANGE, min_size=1, max_size=5)), quick=2400),
    Sub('rules', check, gen=st.tuples(st.tuples(ANYINS, OUTS, NOSIZE, LOCK), MUT), quick=7500, examples=[
        (([NUL + (n, 0)], [(5, b'')], None, 0), 0) for n in (1, 2, 100, 101)]),
    Sub('one fault', check, gen=gen.mix(st.tuples(st.tuples(ANYINS, st.lists(SANE, min_size=1, max_size=3), NOSIZE, LOCK), MUT),
                                        st.tuples(st.tuples(INS, OUTS, NOSIZE, LOCK), MUT)), quick=6000),
    Sub('many', check, gen=gen.mix(st.tuples(st.tuples(INS, MANYOUT, NOSIZE, LOCK), MUT), st.tuples(st.tuples(MANYIN, st.lists(SANE, min_size=1, max_size=2), NOSIZE, LOCK), MUT),
                                   st.tuples(st.tuples(ALIASES, st.lists(SANE, min_size=1, max_size=2), NOSIZE, LOCK), MUT)), quick=2700),
    Sub('size', check, gen=st.tuples(st.tuples(gen.mix(INS, NULIN.map(lambda i: [i])), st.lists(SANE, min_size=1, max_size=3), SIZE, LOCK), MUT), quick=240, thorough=2000),
]
