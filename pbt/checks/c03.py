from hypothesis import strategies as st
import bitcoin.core as bc
from bitcoin.core.script import CScript
import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, ProofUnion
from proofmarshal.serialize import HashTag
import proofchains.core.bitcoin as pbtc
from proofchains.core.uniquebits.singleuseseal import FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal
from .. import gen, ref_pm, fx_decl, fx_pm, fx_tree
from ..core import Sub, eq, ok, raises, outcome, fail, short
from . import c01

RULE = """Arbitrary Python values (right class in range, right class at and beyond each bound, look-alike classes such as
bool for int, bytearray and bytes subclasses for bytes, int subclasses, other proofs, variants of other families, None) are
checked against every serializer kind, with the verdict computed independently; and proofs are constructed with each
attribute in turn replaced by such a value. Classes declared on the fly, in
hierarchies with other fields than their parents, are used in any order. Non-trivial: the value's class is right, or a look-alike, or the
replaced attribute is not the first."""
ASSUMPTIONS = ['Instances of strict subclasses of a non-variant proof class used as a field type are outside the domain']


class MyInt(int):
    pass


class MyBytes(bytes):
    pass


def value(v):
    """Plain description -> value"""
    k = v[0]
    if k == 'int':
        return v[1]
    if k == 'myint':
        return MyInt(v[1])
    if k == 'float':
        return float(v[1])
    if k == 'bytes':
        return v[1]
    if k == 'fill':
        return bytes([v[2]]) * v[1]
    if k == 'mybytes':
        return MyBytes(v[1])
    if k == 'bytearray':
        return bytearray(v[1])
    if k == 'str':
        return v[1]
    if k == 'bool':
        return v[1]
    if k == 'none':
        return None
    if k == 'bits':
        return Bits(v[1])
    if k == 'list':
        return list(v[1])
    if k == 'term':
        return fx_pm.build(v[1])
    if k == 'pterm':
        # pruned and partly used, perhaps transported
        p = fx_pm.build(v[1]).prune()
        ps_ = fx_pm.paths(v[1])
        for i in v[2] if ps_ else ():
            fx_pm.walk(p, ps_[i % len(ps_)])
        return fx_pm.top_class(v[1][0]).deserialize(p.serialize()) if v[3] else p
    if k == 'ptree':
        p = fx_tree.FAMILIES[v[1]].build(v[2]).prune()
        if v[3] & 1:
            len(p)
        return type(p).deserialize(p.serialize()) if v[3] & 2 else p
    if k == 'class':
        return fx_pm.CLASSES[v[1]]
    if k == 'tx':
        return tx(v[1])
    if k == 'outpoint':
        return bc.COutPoint(v[1], v[2])
    if k == 'txin':
        return bc.CTxIn(bc.COutPoint(b'\x01' * 32, 0))
    if k == 'btc':
        return BTC[v[1]]()
    if k == 'seal':
        return FakeSingleUseSeal(committed_hash=v[1])
    if k == 'tree':
        return fx_tree.FAMILIES[v[1]].build(v[2])
    if k == 'item':
        return fx_tree.Item(n=v[1], data=v[2])
    raise KeyError(k)


BTC = {
    'header': lambda: bc.CBlockHeader(), 'block': lambda: bc.CBlock(), 'txout': lambda: bc.CTxOut(5, CScript(b'\x51')), 'txin': lambda: bc.CTxIn(bc.COutPoint(b'\2' * 32, 1)),
    'mutable txin': lambda: bc.CMutableTxIn(bc.CMutableOutPoint(b'\2' * 32, 1)), 'script': lambda: CScript(b'\x51'),
    'tx class': lambda: bc.CTransaction, 'outpoint class': lambda: bc.COutPoint, 'pair': lambda: (b'\2' * 32, 1),
}


def tx(n):
    return bc.CTransaction([bc.CTxIn(bc.COutPoint(bytes([i]) * 32, i)) for i in range(n)],
                           [bc.CTxOut(i, CScript(bytes([0x51]) * i)) for i in range(n)])


def plain_values():
    return st.one_of(
        gen.uints(2**70).map(lambda v: ('int', v)),
        st.sampled_from([-1, -2, -255, -2**64, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, 2**64]).map(lambda v: ('int', v)),
        gen.uints(300).map(lambda v: ('myint', v)),
        st.integers(0, 3).map(lambda v: ('float', v)),
        st.binary(max_size=6).map(lambda v: ('bytes', v)),
        st.tuples(st.just('fill'), st.sampled_from([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 254, 255, 256, 257, 299, 300, 301]), st.integers(0, 255)),
        st.tuples(st.sampled_from(['mybytes', 'bytearray']), st.one_of(st.binary(max_size=5), st.binary(min_size=32, max_size=32))),
        st.text(max_size=5).map(lambda v: ('str', v)),
        st.booleans().map(lambda v: ('bool', v)),
        st.just(('none',)),
        fx_pm.bits_st(12).map(lambda v: ('bits', v)),
        fx_pm.bits_st(12).map(lambda v: ('list', v)))


def pterms(terms):
    return st.tuples(st.just('pterm'), terms, st.lists(st.integers(0, 40), max_size=2), st.booleans())


def fam_trees():
    return st.sampled_from(sorted(fx_tree.FAMILIES)).flatmap(lambda w: st.one_of(
        st.tuples(st.just('tree'), st.just(w), fx_tree.FAMILIES[w].items(3)),
        st.tuples(st.just('ptree'), st.just(w), fx_tree.FAMILIES[w].items(3), st.integers(0, 3))))


def proof_values():
    return st.one_of(
        fx_pm.any_term(small=True).map(lambda t: ('term', t)),
        pterms(fx_pm.any_term(small=True)),
        fam_trees(),
        st.sampled_from(sorted(fx_pm.CLASSES)).map(lambda n: ('class', n)),
        st.integers(0, 3).map(lambda n: ('tx', n)),
        st.tuples(st.just('outpoint'), st.just(b'\x02' * 32), st.integers(0, 2)),
        st.just(('txin',)),
        st.sampled_from(sorted(BTC)).map(lambda n: ('btc', n)),
        st.sampled_from(sorted(BTC)).map(lambda n: ('btc', n)),
        st.just(('seal', b'\x03' * 32)),
        st.sampled_from([('tree', 'MMRA', [1, 2, 3]), ('tree', 'MMRA', []), ('tree', 'MMRB', [b'a']), ('tree', 'MBTA', [(b'a', 1)]),
                         ('tree', 'MBTA', []), ('item', 1, b'x')]))


def values():
    return st.one_of(plain_values(), plain_values(), proof_values())


UNION = ('union', [('proof', 'Leaf'), ('family', 'V'), ('proof', 'Nothing'), ('family', 'W')])
UNION_SER = ProofUnion(fx_pm.Leaf, fx_pm.V, fx_pm.Nothing, fx_pm.W)
UNION2 = ('union', [('proof', 'Nothing'), ('proof', 'Twin')])
UNION2_SER = ProofUnion(fx_pm.Nothing, fx_pm.Twin)

PLAIN_KINDS = [('uint', 8), ('uint', 16), ('uint', 32), ('uint', 64), ('max', 100), ('max', 1000), ('bool',), ('fixed', 0), ('fixed', 3), ('fixed', 16),
               ('digest',), ('var', 0, 4), ('var', 2, 4), ('var', 0, 300), ('var', 256, 300), ('bits',)]
PROOF_KINDS = [('proof', 'Leaf'), ('proof', 'Twin'), ('proof', 'Nothing'), ('family', 'V'), ('family', 'W'), UNION, UNION2,
               ('tx',), ('outpoint',), ('fakeseal',)] + [('tree', w) for w in sorted(fx_tree.FAMILIES)]


def ser(kind):
    k = kind[0]
    if k == 'bits':
        return BitsSerializer
    if k == 'proof':
        return fx_pm.CLASSES[kind[1]]
    if k == 'family':
        return fx_pm.FAMILIES[kind[1]]
    if kind == UNION:
        return UNION_SER
    if kind == UNION2:
        return UNION2_SER
    if k == 'tx':
        return pbtc.CTransactionSerializer
    if k == 'outpoint':
        return pbtc.COutPointSerializer
    if k == 'tree':
        return fx_tree.FAMILIES[kind[1]].cls
    if k == 'fakeseal':
        return FakeSingleUseSeal
    return c01.ser(kind)


def verdict(kind, d):
    """'ok', 'type' or 'value', from the description alone"""
    k = kind[0]
    if k == 'max':
        if d[0] != 'int':
            return 'type'
        return 'ok' if 0 <= d[1] <= kind[1] else 'value'
    if k == 'uint':
        if d[0] != 'int':
            return 'type'
        return 'ok' if 0 <= d[1] < 2**kind[1] else 'value'
    if k == 'bool':
        return 'ok' if d[0] == 'bool' else 'type'
    if k in ('fixed', 'digest', 'var'):
        if d[0] not in ('bytes', 'fill'):
            return 'type'
        n = len(d[1]) if d[0] == 'bytes' else d[1]
        lo, hi = {'fixed': lambda: (kind[1], kind[1]), 'digest': lambda: (32, 32), 'var': lambda: kind[1:]}[k]()
        return 'ok' if lo <= n <= hi else 'value'
    if k == 'bits':
        return 'ok' if d[0] == 'bits' else 'type'
    if k == 'tx':
        return 'ok' if d[0] == 'tx' else 'type'
    if k == 'outpoint':
        return 'ok' if d[0] == 'outpoint' else 'type'
    if k == 'tree':
        return 'ok' if d[0] in ('tree', 'ptree') and d[1] == kind[1] else 'type'
    if k == 'fakeseal':
        return 'ok' if d[0] == 'seal' else 'type'
    if d[0] not in ('term', 'pterm'):
        return 'type'
    if k == 'union':
        return 'ok' if any(fx_pm.S.matches(a, d[1]) for a in kind[1]) else 'type'
    return 'ok' if fx_pm.S.matches(kind, d[1]) else 'type'


# a strict subclass of Pair is not used where a Pair is expected
def check(case, T):
    kind, d = case
    v = value(d)
    s = ser(kind)
    want = verdict(kind, d)
    if want == 'ok':
        s.check_instance(v)
        b = s.serialize(v)
        got = s.deserialize(b)
        ok(type(got) is type(v), 'deserialized class %r' % type(got))
        ok(got == v, 'round trip of a value that passes the check')
    elif want == 'type':
        raises(ps.SerializerTypeError, s.check_instance, v, what='%r against %r' % (d, kind))
    else:
        raises(ps.SerializerValueError, s.check_instance, v, what='%r against %r' % (d, kind))
    T.label('%s %s' % (kind[0], want))
    T.nt(want != 'type' or d[0] in ('bool', 'myint', 'mybytes', 'bytearray', 'list', 'term', 'pterm', 'class', 'tree', 'ptree'))


def near(kind):
    """Values of the right class, in and around the range"""
    k = kind[0]
    if k in ('uint', 'max'):
        m = 2**kind[1] if k == 'uint' else kind[1] + 1
        return st.one_of(st.sampled_from([-1, 0, 1, m - 1, m, m + 1, -m]), gen.uints(2 * m)).map(lambda v: ('int', v))
    if k == 'bool':
        return st.one_of(st.booleans().map(lambda v: ('bool', v)), st.integers(0, 1).map(lambda v: ('int', v)))
    if k in ('fixed', 'digest', 'var'):
        lo, hi = (kind[1], kind[1]) if k == 'fixed' else (32, 32) if k == 'digest' else kind[1:]
        return st.tuples(st.just('fill'), st.sampled_from(sorted({max(0, x) for x in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1)})),
                         st.integers(0, 255))
    if k == 'bits':
        return fx_pm.bits_st(20).map(lambda v: ('bits', v))
    if k == 'tx':
        return st.integers(0, 3).map(lambda n: ('tx', n))
    if k == 'outpoint':
        return st.tuples(st.just('outpoint'), st.binary(min_size=32, max_size=32), st.integers(0, 2**32 - 1))
    if k == 'tree':
        return st.one_of(fx_tree.FAMILIES[kind[1]].items(6).map(lambda i: ('tree', kind[1], i)), fam_trees())
    if k == 'fakeseal':
        return st.binary(min_size=32, max_size=32).map(lambda b: ('seal', b))
    if k == 'proof':
        t = {'Leaf': fx_pm.leaf(), 'Twin': fx_pm.leaf('Twin'), 'Pair': fx_pm.pair(), 'Nothing': st.just(('Nothing',))}[kind[1]]
    elif k == 'family':
        t = fx_pm.var_v() if kind[1] == 'V' else fx_pm.var_w()
    else:
        t = st.one_of(fx_pm.leaf(), fx_pm.leaf('Twin'), fx_pm.var_v(), st.just(('Nothing',)), fx_pm.var_w())
    return st.one_of(t.map(lambda x: ('term', x)), pterms(t), pterms(fx_pm.any_term(True)))


def check_gen():
    vs, ps_ = values(), proof_values()
    return gen.mix(*[st.tuples(st.just(k), gen.mix(near(k), vs if k in PLAIN_KINDS else ps_)) for k in PLAIN_KINDS + PROOF_KINDS])


def check_enum():
    vals = [('int', v) for v in (-1, 0, 1, 100, 101, 127, 128, 1000, 1001, 1023, 1024, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, 2**64, 2**64 + 1)]
    vals += [('bool', True), ('bool', False), ('none',), ('float', 1), ('myint', 1), ('str', ''), ('str', 'abc'), ('bits', ()), ('bits', (1, 0)),
             ('list', (1, 0)), ('mybytes', b'abc'), ('bytearray', b'abc')]
    vals += [('btc', n) for n in sorted(BTC)]
    vals += [('fill', n, 7) for n in (0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 299, 300, 301)]
    for k in PLAIN_KINDS:
        for v in vals:
            yield (k, v)
    proofs = [('tx', 0), ('tx', 2), ('outpoint', b'\x02' * 32, 1), ('txin',), ('seal', b'\x03' * 32), ('item', 1, b'x'), ('none',), ('int', 0), ('bytes', b''), ('str', ''),
              ('list', (1, 0)), ('bool', True), ('bytes', tx(1).serialize()), ('bytes', tx(1).GetHash()), ('bytes', bc.COutPoint(b'\2' * 32, 1).serialize())]
    proofs += [('btc', n) for n in sorted(BTC)] + [('class', n) for n in sorted(fx_pm.CLASSES)] + [('tree', w, []) for w in sorted(fx_tree.FAMILIES)]
    for k in PROOF_KINDS:
        for v in proofs:
            yield (k, v)


# Proof construction

class Twigs(Proof):
    """Ranges and trees as components"""
    HASHTAG = HashTag('0b6f6a42-16a5-4b38-9b0b-5a9a8f3d0021')
    __slots__ = []
    SERIALIZED_ATTRS = [('r', fx_tree.MMRA), ('t', fx_tree.MBTA), ('e', fx_tree.MBTE), ('q', fx_tree.MMRP)]


CONSTRUCT = {
    'Leaf': (fx_pm.Leaf, [('n', ('uint', 32)), ('data', ('var', 0, 300)), ('four', ('fixed', 4)), ('flag', ('bool',)), ('dig', ('digest',)), ('bits', ('bits',))]),
    'Pair': (fx_pm.Pair, [('left', ('proof', 'Leaf')), ('k', ('uint', 8)), ('right', ('proof', 'Leaf'))]),
    'Sub': (fx_pm.Sub, [('left', ('proof', 'Leaf')), ('k', ('uint', 8)), ('right', ('proof', 'Leaf')), ('extra', ('uint', 64))]),
    'VC': (fx_pm.VC, [('x', ('family', 'V')), ('m', ('var', 1, 200)), ('y', ('family', 'V'))]),
    'WA': (fx_pm.WA, [('value', ('uint', 16))]),
    'Holder': (fx_pm.Holder, [('u', UNION), ('v', ('family', 'V')), ('p', ('proof', 'Pair'))]),
    'FakeSingleUseSeal': (FakeSingleUseSeal, [('committed_hash', ('digest',))]),
    'FakeSealWitness': (FakeSealWitness, [('seal', ('fakeseal',))]),
    'BitcoinSingleUseSeal': (BitcoinSingleUseSeal, [('outpoint', ('outpoint',)), ('nonce', ('fixed', 16))]),
    'Twigs': (Twigs, [('r', ('tree', 'MMRA')), ('t', ('tree', 'MBTA')), ('e', ('tree', 'MBTE')), ('q', ('tree', 'MMRP'))]),
    'TxProof': (pbtc.TxProof, [('tx', ('tx',))]),
}

GOOD = {
    ('uint', 8): [('int', 0), ('int', 255)], ('uint', 16): [('int', 0), ('int', 65535)], ('uint', 32): [('int', 5), ('int', 2**32 - 1)],
    ('uint', 64): [('int', 2**64 - 1)], ('bool',): [('bool', True), ('bool', False)], ('fixed', 4): [('bytes', b'abcd')],
    ('fixed', 16): [('fill', 16, 1)], ('digest',): [('fill', 32, 9)], ('var', 0, 300): [('bytes', b''), ('fill', 300, 1)],
    ('var', 1, 200): [('bytes', b'x'), ('fill', 200, 1)], ('bits',): [('bits', ()), ('bits', (1, 0, 1))],
    ('tx',): [('tx', 0), ('tx', 2)], ('outpoint',): [('outpoint', b'\x02' * 32, 1)], ('fakeseal',): [('seal', b'\x03' * 32)],
}


def good(kind):
    if kind[0] != 'union' and kind in GOOD:
        return st.sampled_from(GOOD[kind])
    if kind[0] == 'tree':
        return fx_tree.FAMILIES[kind[1]].items(3).map(lambda i: ('tree', kind[1], i))
    if kind[0] == 'proof':
        t = {'Leaf': fx_pm.leaf(small=True), 'Pair': fx_pm.pair(small=True)}[kind[1]]
    elif kind == ('family', 'V'):
        t = fx_pm.var_v(True, 1)
    else:
        t = st.one_of(fx_pm.leaf(small=True), fx_pm.var_v(True, 1), st.just(('Nothing',)), fx_pm.var_w(True))
    return st.one_of(t.map(lambda x: ('term', x)), t.map(lambda x: ('term', x)), pterms(t))


def construct_gen():
    def one(name):
        flds = CONSTRUCT[name][1]
        goods = st.tuples(*[good(k) for f, k in flds])
        repl = gen.mix(*[st.tuples(st.just(i), gen.mix(near(k), vs)) for i, (f, k) in enumerate(flds)])
        return st.tuples(st.just(name), goods, st.lists(repl, max_size=2))
    vs = values()
    return gen.mix(*[one(n) for n in sorted(CONSTRUCT)])


def construct(case, T):
    name, goods, repl = case
    cls, flds = CONSTRUCT[name]
    ds = list(goods)
    for i, d in repl:
        ds[i] = d
    if any(k == ('proof', 'Pair') and d[0] in ('term', 'pterm') and d[1][0] == 'Sub' for (f, k), d in zip(flds, ds)):
        return              # outside the domain, see ASSUMPTIONS
    verdicts = [verdict(k, d) for (f, k), d in zip(flds, ds)]
    kwargs = {f: value(d) for (f, k), d in zip(flds, ds)}
    if all(v == 'ok' for v in verdicts):
        p = cls(**kwargs)
        for f, v in kwargs.items():
            got = getattr(p, f)
            ok(type(got) is type(v) and got == v, 'attribute %s' % f)
        base = fx_pm.top_class(name) if name in fx_pm.CLASSES else cls
        q = base.deserialize(p.serialize())
        ok(type(q) is cls and q == p and q.hash == p.hash, 'round trip of an accepted proof')
        T.label('accepted')
    else:
        # the first bad attribute need not be the one reported
        e = raises((ps.SerializerTypeError, ps.SerializerValueError), cls, what='%s built with %s' % (name, short(ds)), **kwargs)
        kinds = set(verdicts)
        if 'type' not in kinds:
            ok(isinstance(e, ps.SerializerValueError), 'value error expected, got %r' % e)
        if 'value' not in kinds:
            ok(isinstance(e, ps.SerializerTypeError), 'type error expected, got %r' % e)
        T.label('refused', 'position %d' % min(i for i, v in enumerate(verdicts) if v != 'ok'))
    T.label(name)
    T.nt(bool(repl) or len(ds) > 1)


def constructors(case, T):
    """Serializer factories and other entry points that validate their own arguments"""
    kind, args = case
    args = [value(a) for a in args]
    if kind == 'FixedBytes':
        (n,) = args
        if type(n) is not int:
            if isinstance(n, int):
                return
            raises(TypeError, ps.FixedBytes, n, what='FixedBytes(%r)' % (n,))
        elif n < 0:
            raises(ValueError, ps.FixedBytes, n, what='FixedBytes(%r)' % n)
        else:
            s = ps.FixedBytes(n)
            if n < 1000:
                s.check_instance(b'a' * n)
                raises(ps.SerializerValueError, s.check_instance, b'a' * (n + 1))
            T.nt()
    else:
        lo, hi = args if len(args) == 2 else (0, args[0])
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raises(TypeError, ps.VarBytes, *args, what='VarBytes%r' % (args,))
        elif not 0 <= lo < hi:
            raises(ValueError, ps.VarBytes, *args, what='VarBytes%r' % (args,))
        else:
            s = ps.VarBytes(*args)
            for n in {lo, hi, lo - 1, hi + 1, (lo + hi) // 2}:
                if 0 <= n < 70000:
                    if lo <= n <= hi:
                        s.check_instance(b'a' * n)
                    else:
                        raises(ps.SerializerValueError, s.check_instance, b'a' * n)
            T.nt()
    T.label(kind)


def constructors_gen():
    v = st.one_of(st.integers(-3, 10).map(lambda i: ('int', i)), gen.uints(2**33).map(lambda i: ('int', i)),
                  st.just(('str', '1')), st.just(('float', 1)), st.just(('bytes', b'1')), st.just(('none',)))
    v1 = v.filter(lambda d: d[0] != 'none')
    return st.one_of(st.tuples(st.just('FixedBytes'), st.tuples(v)), st.tuples(st.just('VarBytes'), st.tuples(v1)),
                     st.tuples(st.just('VarBytes'), st.tuples(v1, v1)))


SUBS = [
    Sub('check', check, gen=check_gen, quick=24000, enum=check_enum,
        examples=[(('bits',), ('list', (1, 0))), (('tx',), ('none',)), (('outpoint',), ('none',)), (('proof', 'Leaf'), ('seal', b'\3' * 32))]),
    Sub('construct', construct, gen=construct_gen, quick=12000),
    Sub('declared', fx_decl.history, gen=fx_decl.histories, quick=800),
    Sub('constructors', constructors, gen=constructors_gen, quick=3000),
]
