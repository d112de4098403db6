import io

from hypothesis import strategies as st
from bitcoin.core import CTransaction
from bitcoin.core.script import CScript
from .. import gen, ref_btc as R, fx_btc as F, fx_pm, fx_seal, fx_tree
from ..core import Sub, fail, ok
from . import c53

RULE = """Up to six objects of all kinds together (Bitcoin structures mutable and not, inventory, addresses, locators, filters, messages, bit strings, proofs,
ranges, trees, seals, maps, and plain values of Python), many of them the same data again made anew, read back, pruned or copied, or changed in
one place; all pairs are compared by ==, != and, where they can be hashed, hash(), and kept in dictionaries and sets. Equal must be exactly
the same kind with the same contents, where any proof counts as what its hash commits to. Non-trivial: two objects of one kind."""
ASSUMPTIONS = ['Byte strings with a meaning (scripts, keys, hash tags, Base58 data) compare as the bytes they are and are left out',
               'Mutable objects are not changed while they are keys']

PROOFS = ['proof', 'pruned proof', 'tree', 'seal', 'map']
KINDS = [k for k in c53.NAMES if c53.KINDS[k].real is not None and k != 'value']
MUTABLE = ['outpoint', 'txin', 'txout', 'tx']
FOREIGN = [None, 0, 1, True, '', 'x', b'', b'x', (), [], {}, 1.5, object, NotImplemented]


def group(kind, v):
    """What decides equality"""
    if kind == 'proof':
        return ('proof', fx_pm.S.hash(v))
    if kind == 'pruned proof':
        return ('proof', fx_pm.S.hash(v[0]))
    if kind == 'tree':
        fam = fx_tree.FAMILIES[v[0]]
        return ('proof', fam.schema.hash(fam.term(v[1])))
    if kind == 'seal':
        return ('proof', fx_seal.S.hash(c53.SEAL_TERM[v[0]](*v[1:])))
    if kind == 'map':
        fam, m = c53.gm(v)
        return ('proof', fam.schema.hash(fam.term(m)))
    if kind == 'message':
        return ('message', v[0], c53.KINDS[kind].enc(v))
    return (kind, c53.KINDS[kind].enc(v))


def make(kind, v, how):
    K = c53.KINDS[kind]
    o = K.real(v)
    if how == 'read':
        if kind == 'pruned proof':
            o.serialize()
        return K.load(v, K.enc(v))
    if how == 'pruned' and kind in PROOFS:
        return o.prune()
    if how == 'mutable' and kind in MUTABLE:
        return F.REAL[kind](v, True)
    if how == 'copied':
        if kind == 'tx':
            return CTransaction.from_tx(F.r_tx(v, True))
        if kind == 'block':
            return F.CLS[kind].deserialize(o.serialize())
    if how == 'hashed':
        try:
            hash(o)
        except TypeError:
            pass
    return o


def hashable(o):
    try:
        hash(o)
    except TypeError:
        return False
    return True


def objects(case, T):
    made = [(group(k, v), make(k, v, how)) for k, v, how in case]
    for i, (g, a) in enumerate(made):
        for j, (h, b) in enumerate(made):
            want = g == h
            e, n = a == b, a != b
            what = '%s (%s) and %s (%s)' % (case[i][0], case[i][2], case[j][0], case[j][2])
            ok(type(e) is bool and type(n) is bool, '%s: == gives %r, != gives %r' % (what, e, n))
            ok(e == want, '%s: == gives %r' % (what, e))
            ok(n != e, '%s: == gives %r, != gives %r' % (what, e, n))
            if want and hashable(a) and hashable(b):
                ok(hash(a) == hash(b), '%s: equal with different hash()' % what)
        for f in FOREIGN:
            ok(not (a == f) and a != f and not (f == a) and f != a, '%s equals %r' % (case[i][0], f))
        ok(hashable(a) == hashable(made[i][1]), 'hash')
    keep = [(g, o) for g, o in made if hashable(o)]
    d = {}
    for k, (g, o) in enumerate(keep):
        d[o] = g
    ok(len(d) == len({g for g, o in keep}), '%d keys for %d different objects' % (len(d), len({g for g, o in keep})))
    ok(len({o for g, o in keep}) == len(d), 'set')
    for g, o in keep:
        ok(d.get(o) == g, 'an object is not found again')
    for (k, v, how), (g, o) in zip(case, made):
        ok(o in [x for h, x in made], 'membership')
        if hashable(o):
            ok(o in d, 'membership')
    T.label(*{k for k, v, how in case})
    T.label(*{how for k, v, how in case})
    T.nt(len({k for k, v, how in case}) < len(case))


HOWS = st.sampled_from(['made', 'made', 'read', 'pruned', 'mutable', 'copied', 'hashed'])


def one(kinds=KINDS):
    return st.sampled_from(kinds).flatmap(lambda k: st.tuples(st.just(k), c53.KINDS[k].gen))


def varied(kind, v, what, n):
    """Nearly the same data"""
    from . import c27
    if kind in F.CLS:
        return c27.varied(kind, v, what, n)
    if kind == 'bits':
        return kind, [v + (0,), v[:-1], v[::-1], tuple(1 - b for b in v)][what % 4]
    if kind == 'tree':
        return kind, (fx_tree.TWIN.get(v[0], v[0]), v[1]) if what % 2 else (v[0], list(v[1])[::-1][1:])
    if kind == 'seal' and v[0] in ('TxInProof', 'TxOutProof'):
        return kind, ('TxOutProof' if v[0] == 'TxInProof' else 'TxInProof',) + v[1:]
    if kind == 'inventory':
        return kind, (v[0] ^ 1, v[1]) if what % 2 else (v[0], v[1][::-1])
    if kind == 'message' and v[0] in (b'ping', b'inv', b'getblocks'):
        return kind, ({b'ping': b'pong', b'inv': b'getdata', b'getblocks': b'getheaders'}[v[0]], v[1])
    return kind, v


def cases():
    def spread(t):
        base, picks = t
        out = []
        for i, how, change, what, n in picks:
            k, v = base[i % len(base)]
            if change:
                k, v = varied(k, v, what, n)
            out.append((k, v, how))
        return out
    picks = st.lists(st.tuples(st.integers(0, 2), HOWS, st.booleans(), st.integers(0, 11), st.integers(0, 255)), min_size=2, max_size=6)
    return st.tuples(st.lists(one(), min_size=1, max_size=3), picks).map(spread)


SUBS = [Sub('objects', objects, gen=cases, quick=9000)]
