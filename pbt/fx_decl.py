"""Proof classes declared on the fly, in hierarchies, with their reference schema.

A declaration is (parent index or None, own tag or not, own fields or not, fields) with fields [(name, kind)]; parents and
component classes are earlier ones.
"""
from hashlib import sha256

from hypothesis import strategies as st

import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, ProofUnion, PrunedError
from proofmarshal.serialize import HashTag

from . import ref_pm, fx_pm, fx_gumap
from .core import eq, ok, raises

PLAIN = [('uint', 8), ('uint', 32), ('uint', 64), ('bool',), ('fixed', 4), ('fixed', 32), ('var', 0, 20), ('bits',), ('hashed', 32)]
SERS = {('uint', 8): ps.UInt8, ('uint', 32): ps.UInt32, ('uint', 64): ps.UInt64, ('bool',): ps.SerBool, ('fixed', 4): ps.FixedBytes(4), ('fixed', 32): ps.Digest,
        ('var', 0, 20): ps.VarBytes(20), ('bits',): BitsSerializer, ('hashed', 32): fx_gumap.Hashed}
UNION = ('union', [('proof', 'Leaf'), ('family', 'V'), ('proof', 'Nothing'), ('family', 'W')])
NAMES = ['a', 'b', 'c', 'd', 'value']


def declarations(most=4):
    """Strategy for lists of declarations"""
    def fields(i):
        kinds = st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN), st.sampled_from(PLAIN + [('leaf',), ('family',), ('union',)] + [('class', k) for k in range(i)] * 3))
        return st.lists(st.tuples(st.sampled_from(NAMES), kinds), max_size=4, unique_by=lambda f: f[0])

    def one(i):
        return st.tuples(st.integers(-1, i - 1) if i else st.just(-1), st.booleans(), st.sampled_from([True, True, True, False]), fields(i), st.booleans())
    return st.integers(1, most).flatmap(lambda n: st.tuples(*[one(i) for i in range(n)]))


def declare(decls):
    """(classes, schema)"""
    schema = ref_pm.Schema()
    schema.types.update(fx_pm.S.types)
    schema.families.update(fx_pm.S.families)
    classes = []
    for i, (parent, own_tag, own_fields, fields, slots) in enumerate(decls):
        d = {'__module__': __name__}
        if parent < 0 or own_tag:
            u = '6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0caa%02x' % i
            d['HASHTAG'] = HashTag(u)
            tag = ref_pm.tag(u)
        else:
            tag = schema.types['D%d' % parent][0]
        if parent >= 0 and not own_fields:
            kinds = schema.types['D%d' % parent][1]
        else:
            sers, kinds = [], []
            for name, k in fields:
                if k[0] == 'class':
                    sers.append((name, classes[k[1]]))
                    k = ('proof', 'D%d' % k[1])
                elif k[0] == 'leaf':
                    sers.append((name, fx_pm.Leaf))
                    k = ('proof', 'Leaf')
                elif k[0] == 'family':
                    sers.append((name, fx_pm.V))
                    k = ('family', 'V')
                elif k[0] == 'union':
                    sers.append((name, ProofUnion(fx_pm.Leaf, fx_pm.V, fx_pm.Nothing, fx_pm.W)))
                    k = UNION
                else:
                    sers.append((name, SERS[k]))
                kinds.append((name, k))
            d['SERIALIZED_ATTRS'] = sers
        if slots:
            have = set() if parent < 0 else {n for c in classes[parent].__mro__ for n in c.__dict__.get('__slots__', ())}
            d['__slots__'] = [n for n, k in kinds if n not in have]
        classes.append(type('D%d' % i, (classes[parent] if parent >= 0 else Proof,), d))
        schema.add('D%d' % i, tag, kinds)
    return classes, schema


LEAFS = [('Leaf', 1, b'', b'abcd', True, bytes(32), ()), ('Leaf', 0xffffffff, b'x' * 40, bytes(4), False, b'\xff' * 32, (1, 0, 1)), ('Leaf', 258, b'\0', b'\1\2\3\4', True, bytes(range(32)), (0,) * 9)]
VS = [('VA', 1), ('VB', 0xfffe), ('VC', ('VA', 7), b'm', ('VD',)), ('VD',), ('VC', ('VD',), b'n' * 130, ('VB', 7))]


def sample(schema, kind, seed):
    """A value of a kind"""
    r = sha256(repr((kind, seed)).encode()).digest()
    if kind[0] == 'uint':
        v = int.from_bytes(r[:kind[1] // 8], 'big')
        return [v, 0, 2**kind[1] - 1, v & 127][r[31] % 4]
    if kind[0] == 'bool':
        return bool(r[0] & 1)
    if kind[0] in ('fixed', 'hashed'):
        return r[:kind[1]]
    if kind[0] == 'var':
        return r[:r[31] % (kind[2] + 1)]
    if kind[0] == 'bits':
        return tuple(b & 1 for b in r[:r[31] % 20])
    if kind == ('proof', 'Leaf'):
        return LEAFS[r[0] % 3]
    if kind[0] == 'family':
        return VS[r[0] % 5]
    if kind[0] == 'union':
        return (LEAFS + VS + [('Nothing',), ('WA', 3), ('WB', 3)])[r[0] % 11]
    return term(schema, kind[1], seed)


def term(schema, name, seed):
    return (name,) + tuple(sample(schema, k, (seed, i)) for i, (n, k) in enumerate(schema.types[name][1]))


def build(classes, schema, t):
    if t[0] in fx_pm.CLASSES:
        return fx_pm.build(t)
    kw = {}
    for (n, k), v in zip(schema.types[t[0]][1], t[1:]):
        kw[n] = build(classes, schema, v) if isinstance(v, tuple) and k[0] != 'bits' else Bits(v) if k[0] == 'bits' else v
    return classes[int(t[0][1:])](**kw)


def same(schema, kind, got, v, what):
    """A component is what was given"""
    if kind[0] in ('proof', 'family', 'union'):
        eq(got.hash, schema.hash(v), what)
        eq(type(got).__name__, v[0], what + ' class')
    elif kind[0] == 'bits':
        eq(tuple(int(b) for b in got), v, what)
    else:
        eq(got, v, what)
        ok(type(got) is type(v), what + ' class')


WRONG = {'uint': [b'', '1', None, 1.0, -1, 2**64], 'bool': [1, 0, None, b''], 'fixed': [b'', b'x' * 33, 'abcd', None, bytearray(4)], 'hashed': [b'', 'x', None], 'var': [b'x' * 21, '', None],
         'bits': [None, [1, 0], b'']}


def use(classes, schema, i, op, seed, T):
    """One use of a class, checked"""
    name = 'D%d' % i
    t = term(schema, name, seed)
    p = build(classes, schema, t)
    fields = schema.types[name][1]
    if op == 'hash':
        eq(p.hash, schema.hash(t), 'hash')
        eq(p.prune().hash, schema.hash(t), 'hash of pruned')
    elif op == 'wire':
        eq(p.serialize(), schema.wire(t), 'wire')
        eq(p.prune().serialize(), schema.wire(t, None), 'wire of pruned')
        q = classes[i].deserialize(schema.wire(t))
        ok(type(q) is classes[i] and q == p, 'read')
        for (n, k), v in zip(fields, t[1:]):
            same(schema, k, getattr(q, n), v, 'component %s' % n)
        q = classes[i].deserialize(schema.wire(t, None))
        eq(q.hash, schema.hash(t), 'hash of read')
        for n, k in fields:
            raises(PrunedError, getattr, q, n, what='component %s of a pruned proof' % n)
    elif op == 'prune':
        q = p.prune()
        tree = None
        for j, ((n, k), v) in enumerate(zip(fields, t[1:])):
            if sha256(repr((seed, j)).encode()).digest()[0] & 1:
                got = getattr(q, n)
                if tree is None:
                    tree = {f: None for f, _ in fields}
                tree[n] = True if k[0] not in ('proof', 'family', 'union') else None
                if k[0] in ('proof', 'family', 'union'):
                    ok(got.is_fully_pruned, 'component used before it was')
                else:
                    same(schema, k, got, v, 'component %s' % n)
        eq(q.serialize(), schema.wire(t, tree), 'wire of the used')
        q = classes[i].deserialize(schema.wire(t, tree))
        eq(q.hash, schema.hash(t), 'hash of the read')
    elif op == 'refuse':
        for j, (n, k) in enumerate(fields):
            kw = {m: getattr(p, m) for m, _ in fields}
            for bad in WRONG.get(k[0], [None, 1, b'', Unrelated(), Unrelated().prune()]):
                raises((ps.SerializerTypeError, ps.SerializerValueError), classes[i], what='component %s %r given %r' % (n, k, bad), **dict(kw, **{n: bad}))
    else:
        eq([m for m, _ in fields], [m for m, _ in classes[i].SERIALIZED_ATTRS], 'components')
        for (n, k), v in zip(fields, t[1:]):
            same(schema, k, getattr(p, n), v, 'component %s' % n)
        raises(AttributeError, getattr, p, 'nosuch')
        raises(AttributeError, getattr, p.prune(), 'nosuch')
        raises(TypeError, setattr, p, 'a', 1)
        raises(TypeError, delattr, p, 'a')
    T.label(op)


class Unrelated(Proof):
    HASHTAG = HashTag('6f4a3b0e-6c2f-4a3c-9a52-6a2b6f0caaff')


OPS = ['hash', 'wire', 'prune', 'refuse', 'look']


def histories(most=4):
    uses = st.lists(st.tuples(st.integers(0, 7), st.sampled_from(OPS), st.integers(0, 10**6)), min_size=1, max_size=8)
    return st.tuples(declarations(most), uses)


def history(case, T):
    """Classes are declared, some before and some after others were used"""
    decls, uses = case
    classes, schema = declare(decls)
    for i, op, seed in uses:
        use(classes, schema, i % len(decls), op, seed, T)
    for i in range(len(decls)):
        for op in OPS:
            use(classes, schema, i, op, i, T)
    T.label('%d classes' % len(decls))
    T.nt(any(d[0] >= 0 for d in decls) or any(len(d[3]) > 1 for d in decls))
