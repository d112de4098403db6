from hypothesis import strategies as st
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CMutableOutPoint, CMutableTxIn, CMutableTxOut,
                          CMutableTransaction)
from bitcoin.core.script import CScript
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises

RULE = """Histories over a pool of outpoints, inputs, outputs and transactions: creation (mutable or not), conversion in
both directions, construction of immutable transactions from mutable parts, field changes at any depth, adding and removing
inputs and outputs, attempted changes of immutable objects, and queries of GetHash, hash() and ==. Setting and deleting every
slot of an immutable object is refused. After every step every object in the pool must match a model made of plain values, so any aliasing or stale hash shows.
Non-trivial: at least one conversion and one successful change."""
ASSUMPTIONS = ['Mutable objects are changed only through their own attributes and lists',
               'An immutable input is made from an immutable outpoint']

IMM = {'outpoint': COutPoint, 'txin': CTxIn, 'txout': CTxOut, 'tx': CTransaction}
MUT = {'outpoint': CMutableOutPoint, 'txin': CMutableTxIn, 'txout': CMutableTxOut, 'tx': CMutableTransaction}
FROM = {'outpoint': 'from_outpoint', 'txin': 'from_txin', 'txout': 'from_txout', 'tx': 'from_tx'}


class Box:
    """An object and what it should contain (lists and tuples become lists, so that the model can be changed)"""
    def __init__(self, kind, mutable, obj, model):
        self.kind, self.mutable, self.obj, self.model = kind, mutable, obj, model


def thaw(v):
    return [thaw(i) for i in v] if isinstance(v, (list, tuple)) else v


def freeze(kind, m):
    if kind == 'tx':
        return (m[0], [tuple(i) for i in m[1]], [tuple(o) for o in m[2]], m[3])
    return tuple(m)


def parts(box):
    """Every (object, kind, model, mutable) inside"""
    out = [(box.obj, box.kind, box.model)]
    if box.kind == 'tx':
        for o, m in zip(box.obj.vin, box.model[1]):
            out.append((o, 'txin', m))
            out.append((o.prevout, 'outpoint', m[:2]))
        for o, m in zip(box.obj.vout, box.model[2]):
            out.append((o, 'txout', m))
    elif box.kind == 'txin':
        out.append((box.obj.prevout, 'outpoint', box.model[:2]))
    return out


def inspect(box, full):
    p = freeze(box.kind, box.model)
    eq(F.PLAIN[box.kind](box.obj), p, '%s contents' % box.kind)
    if full:
        for o, kind, m in parts(box):
            ok(type(o) is (MUT if box.mutable else IMM)[kind], 'part of a %s %s has type %s' % (
                'mutable' if box.mutable else 'immutable', box.kind, type(o).__name__))
            want = R.SER[kind](freeze(kind, m))
            eq(o.serialize(), want, '%s bytes' % kind)
            eq(o.GetHash(), R.sha256d(want), '%s GetHash' % kind)
            eq(hash(o), hash(want), '%s hash()' % kind)


NAMES = {'outpoint': ['hash', 'n'], 'txin': ['scriptSig', 'nSequence', 'prevout'], 'txout': ['nValue', 'scriptPubKey'],
         'tx': ['nVersion', 'nLockTime', 'vin', 'vout']}
VALUES = {'hash': lambda v: bytes([v % 256]) * 32, 'n': lambda v: v, 'scriptSig': lambda v: CScript(v.to_bytes(4, 'big')),
          'nSequence': lambda v: v, 'nValue': lambda v: v - 2**31, 'scriptPubKey': lambda v: CScript(v.to_bytes(4, 'big') * 2),
          'nVersion': lambda v: v - 2**31, 'nLockTime': lambda v: v}
SLOT = {('outpoint', 'hash'): 0, ('outpoint', 'n'): 1, ('txin', 'scriptSig'): 2, ('txin', 'nSequence'): 3,
        ('txout', 'nValue'): 0, ('txout', 'scriptPubKey'): 1, ('tx', 'nVersion'): 0, ('tx', 'nLockTime'): 3}


def model_set(m, kind, name, value):
    m[SLOT[kind, name]] = bytes(value) if isinstance(value, bytes) else value


def step(pool, s, T, done):
    what = s[0]
    if what == 'new':
        _, (kind, p), mutable = s
        pool.append(Box(kind, mutable, F.REAL[kind](p, mutable), thaw(p)))
        return
    if not pool:
        return
    b = pool[s[1] % len(pool)]
    if what == 'convert':
        to_mutable = s[2]
        cls = (MUT if to_mutable else IMM)[b.kind]
        new = getattr(cls, FROM[b.kind])(b.obj)
        if not to_mutable and not b.mutable:
            ok(new is b.obj, 'an immutable %s is returned unchanged' % b.kind)
        else:
            ok(new is not b.obj, 'a conversion that copies')
            pool.append(Box(b.kind, to_mutable, new, thaw(b.model)))
        done.add('convert')
        T.label('%s %s->%s' % (b.kind, 'mut' if b.mutable else 'imm', 'mut' if to_mutable else 'imm'))
    elif what == 'assemble':
        # an immutable transaction from the inputs and outputs in the pool, whatever they are
        ins = [x for x in pool if x.kind == 'txin'][:3]
        outs = [x for x in pool if x.kind == 'txout'][:3]
        vin, vout = [x.obj for x in ins], [x.obj for x in outs]
        if s[2]:
            t = CTransaction(tuple(vin), tuple(vout), 7, 2)
        else:
            t = CTransaction(vin, vout, 7, 2)
        pool.append(Box('tx', False, t, [2, [thaw(x.model) for x in ins], [thaw(x.model) for x in outs], 7]))
        vin.clear()
        vout.clear()
        done.add('convert')
        T.label('assemble')
    elif what == 'query':
        for o, kind, m in parts(b):
            o.GetHash()
            hash(o)
            o == o
    elif what == 'set':
        _, _, which, field, v = s
        ps = parts(b)
        o, kind, m = ps[which % len(ps)]
        name = NAMES[kind][field % len(NAMES[kind])]
        if not b.mutable:
            before = o.serialize()
            value = VALUES[name](v) if name in VALUES else []
            raises(AttributeError, setattr, o, name, value, what='setting %s of an immutable %s' % (name, kind))
            raises(AttributeError, delattr, o, name, what='deleting %s of an immutable %s' % (name, kind))
            raises(AttributeError, setattr, o, 'unknown', value, what='setting an unknown attribute of an immutable %s' % kind)
            for k in type(o).__mro__:
                for name in getattr(k, '__slots__', ()):
                    # whatever is kept besides the fields can't be reached either
                    raises(AttributeError, setattr, o, name, value, what='setting %s of an immutable %s' % (name, kind))
                    raises(AttributeError, delattr, o, name, what='deleting %s of an immutable %s' % (name, kind))
            eq(o.serialize(), before, 'bytes after a rejected change')
            T.label('rejected ' + kind)
            return
        if name == 'prevout':
            h, n = VALUES['hash'](v), v
            o.prevout = CMutableOutPoint(h, n)
            m[0], m[1] = h, n
        elif name in ('vin', 'vout'):
            lst, mod = getattr(o, name), m[1 if name == 'vin' else 2]
            if v % 3 == 0 and lst:
                i = v % len(lst)
                del lst[i]
                del mod[i]
            elif v % 3 == 1:
                if name == 'vin':
                    lst.append(CMutableTxIn(CMutableOutPoint(VALUES['hash'](v), v), CScript(b'\x51'), 5))
                    mod.append([VALUES['hash'](v), v, b'\x51', 5])
                else:
                    lst.append(CMutableTxOut(v, CScript(b'\x52')))
                    mod.append([v, b'\x52'])
            else:
                setattr(o, name, list(reversed(lst)))
                mod.reverse()
        elif kind == 'outpoint':
            # the model of an outpoint inside an input is a copy; write through to the input
            setattr(o, name, VALUES[name](v))
            owner = next((mm for oo, kk, mm in ps if kk == 'txin' and oo.prevout is o), m)
            model_set(owner, 'outpoint', name, VALUES[name](v))
        else:
            setattr(o, name, VALUES[name](v))
            model_set(m, kind, name, VALUES[name](v))
        done.add('set')
        T.label('set %s.%s in %s' % (kind, name, b.kind))


def history(case, T):
    pool, done = [], set()
    for n, s in enumerate(case):
        step(pool, s, T, done)
        for b in pool:
            inspect(b, full=True)
        for a in pool:
            for b in pool:
                if a.kind != b.kind:
                    ok(not (a.obj == b.obj) and a.obj != b.obj, 'a %s equals a %s' % (a.kind, b.kind))
                else:
                    same = R.SER[a.kind](freeze(a.kind, a.model)) == R.SER[b.kind](freeze(b.kind, b.model))
                    eq(a.obj == b.obj, same, '==')
                    eq(a.obj != b.obj, not same, '!=')
        if len(pool) > 6:
            del pool[0]
    T.nt({'convert', 'set'} <= done)


i = st.integers(0, 9)
KP = gen.mix(*[st.tuples(st.just(k), s) for k, s in (
    ('outpoint', F.outpoint()), ('txin', F.txin(F.raw_script(8, False))), ('txout', F.txout(F.raw_script(8, False))),
    ('tx', F.tx(2, 2, F.raw_script(8, False))), ('tx', F.small_tx()))])
new = st.tuples(st.just('new'), KP, st.booleans())
STEP = gen.mix(
    new,
    st.tuples(st.just('convert'), i, st.booleans()),
    st.tuples(st.just('convert'), i, st.booleans()),
    st.tuples(st.just('assemble'), i, st.booleans()),
    st.tuples(st.just('query'), i),
    st.tuples(st.just('set'), i, i, i, F.u32()),
    st.tuples(st.just('set'), i, i, i, F.u32()))


def defaults(case, T):
    """Objects made without arguments share nothing that can be changed"""
    n, v = case
    a, b = CMutableTransaction(), CMutableTransaction()
    a.vin.append(CMutableTxIn())
    a.vout.append(CMutableTxOut())
    a.vin[0].prevout.n = v
    c = CMutableTransaction()
    for t in (b, c):
        eq((t.vin, t.vout), ([], []), 'a new mutable transaction')
    i2 = CMutableTxIn()
    eq((i2.prevout.hash, i2.prevout.n, bytes(i2.scriptSig), i2.nSequence), (bytes(32), 2**32 - 1, b'', 2**32 - 1), 'a new mutable input')
    i2.prevout.n = v
    eq(CTxIn().prevout.n, 2**32 - 1, 'a new input')
    eq(CMutableTxIn().prevout.n, 2**32 - 1, 'a new mutable input after a change of another')
    d = CMutableTxOut()
    eq((d.nValue, bytes(d.scriptPubKey)), (-1, b''), 'a new output')
    t = CTransaction()
    eq((t.nVersion, t.vin, t.vout, t.nLockTime), (1, (), (), 0), 'a new transaction')
    m = CMutableTransaction.from_tx(t)
    eq((m.vin, m.vout), ([], []), 'a mutable copy of an empty transaction')
    m.vin.append(CMutableTxIn())
    eq(CMutableTransaction.from_tx(t).vin, [], 'another mutable copy')
    eq(CMutableTransaction().vin, [], 'a new mutable transaction')
    T.nt()


SUBS = [
    Sub('history', history, gen=st.tuples(new, st.lists(STEP, min_size=2, max_size=14)).map(lambda t: [t[0]] + t[1]), quick=5400),
    Sub('defaults', defaults, gen=st.tuples(i, F.u32()), quick=180),
]
