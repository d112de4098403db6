from hypothesis import strategies as st
from proofmarshal.bits import Bits
from proofmarshal.proof import PrunedError
from .. import gen, ref_pm, ref_btc as R, fx_btc, fx_seal, fx_gumap
from ..core import Sub, eq, ok, raises, fail, outcome

RULE = """Maps of unused, leaf and inner prefixes over six key/value types (integers, digests, proofs, byte strings, outpoints, transactions, and values with hashes of their own) with fake and Bitcoin seals are made by closing
unused prefixes and from children; the digest handed to the witness maker, prefix, seal, fields and hash are compared
with the reference; then one ingredient (key, value, a child, the order of children, the witness or its digest) is
replaced and verification must follow the reference verdict, also when components are pruned views of their own. Non-trivial: a leaf or inner prefix with something
replaced."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases',
               'verify() of a prefix is about that prefix only; whether a Bitcoin witness is itself consistent is its own verify() (C21)',
               'The caller gives keys and children under the prefix being closed']


def same(fam, obj, m, what):
    """The object is the map, all the way down"""
    ok(type(obj) is fam.class_of(m), '%s: class %s' % (what, type(obj).__name__))
    eq(obj.hash, fam.schema.hash(fam.term(m)), '%s: hash' % what)
    eq(tuple(obj.prefix), fam.map_prefix(m), '%s: prefix' % what)
    eq(obj.seal.hash, fam.seal_hash(m), '%s: seal' % what)
    r = fx_seal.verdict(obj.verify)
    eq(r is True, fam.verifies(m), '%s: verifies' % what)
    ok(not isinstance(r, PrunedError), '%s: pruned error' % what)
    if m[0] == 'leaf':
        k, v = obj.key, obj.value
        eq(fam.plain(fam.key_kind, k), m[2], '%s: key' % what)
        eq(fam.plain(fam.value_kind, v), m[3], '%s: value' % what)
        eq(obj.witness.hash, fam.schema.hash(fam.wit_term(m[1])), '%s: witness' % what)
    elif m[0] == 'inner':
        eq(obj.witness.hash, fam.schema.hash(fam.wit_term(m[2])), '%s: witness' % what)
        same(fam, obj.left, m[3], what + '.left')
        same(fam, obj.right, m[4], what + '.right')


def expected_calls(fam, r, out):
    """What make_witness must be asked, in any order"""
    if r[0] == 'leaf':
        out.append((fam.schema.hash(fam.seal_term(r[1])), fam.leaf_digest(r[3], r[4])))
    elif r[0] == 'inner':
        left, right = fx_gumap.cook(fam, r[4]), fx_gumap.cook(fam, r[5])
        expected_calls(fam, r[4], out)
        expected_calls(fam, r[5], out)
        out.append((fam.schema.hash(fam.seal_term(r[1])), fam.inner_digest(left, right)))
    elif r[0] == 'children':
        expected_calls(fam, r[1], out)
        expected_calls(fam, r[2], out)
    return out


def closing(case, T):
    w, r = case
    fam = fx_gumap.FAMS[w]
    m = fx_gumap.cook(fam, r)
    calls = []
    obj = fx_gumap.make(fam, r, calls)
    eq([(s.hash, d) for s, d in calls], expected_calls(fam, r, []), 'seals and digests to be witnessed')
    same(fam, obj, m, 'map')
    ok(fx_seal.verdict(obj.verify) is True, 'a map that was made properly verifies')
    ok(obj == fam.build(m), 'equality')
    T.label(w, r[0])
    T.nt(r[0] != 'unused')


def replace(fam, m, how, x):
    """Replace one ingredient (the nearest applicable one, if `how` doesn't apply to this kind of prefix)"""
    key, value, other, i = x
    mine = {'leaf': LEAF_HOWS, 'inner': INNER_HOWS, 'unused': []}[m[0]]
    if how and how not in mine and mine:
        how = mine[HOWS.index(how) % len(mine)]
    if m[0] == 'leaf':
        wit = m[1]
        if how == 'key':
            return ('leaf', wit, key, m[3])
        if how == 'value':
            return ('leaf', wit, m[2], value)
        if how == 'swapkv' and fam.name in ('GMA', 'GMD', 'GMF'):
            return ('leaf', wit, m[3], m[2])
        if how == 'witness':
            return ('leaf', fx_gumap.make_wit(fam, ('btc', 'p2sh', 0, 0), fam.leaf_digest(key, value), fam.map_seal(m)), m[2], m[3])
        if how == 'goodwitness':
            return ('leaf', fx_gumap.make_wit(fam, ('btc', 'p2pkh', 1, 1), fam.leaf_digest(m[2], m[3]), ('btc', b'\5' * 32, 1, bytes(16))), m[2], m[3])
        if how == 'innerdigest':
            return ('leaf', ('fake', ref_pm.sha(fam.inner_tag + fam.digest_of(fam.key_kind, m[2]) + fam.digest_of(fam.value_kind, m[3]))), m[2], m[3])
        if how == 'otherfamily':
            f2 = fx_gumap.FAMS[{'GMA': 'GMD', 'GMD': 'GMA', 'GMB': 'GMC', 'GMC': 'GMB', 'GME': 'GMF', 'GMF': 'GMA'}[fam.name]]
            return ('leaf', ('fake', ref_pm.sha(f2.leaf_tag + fam.digest_of(fam.key_kind, m[2]) + fam.digest_of(fam.value_kind, m[3]))), m[2], m[3])
        if how == 'fakeseal' :
            return ('leaf', ('fake', fx_seal.bitflip(fam.leaf_digest(m[2], m[3]), i)), m[2], m[3])
        if how == 'oindex' and wit[0] == 'btc':
            return ('leaf', wit[:4] + (i % 4,) + wit[5:], m[2], m[3])
        if how == 'script' and wit[0] == 'btc':
            v, vin, vout, lock = wit[5]
            k = wit[4]
            vout = vout[:k] + [(vout[k][0], fx_seal.bitflip(vout[k][1], i))] + vout[k + 1:]
            return ('leaf', wit[:5] + ((v, vin, vout, lock),), m[2], m[3])
    elif m[0] == 'inner':
        wit, left, right = m[2:]
        if how == 'left':
            return m[:3] + (other, right)
        if how == 'right':
            return m[:4] + (other,)
        if how == 'order':
            return m[:3] + (right, left)
        if how == 'prefix':
            return ('inner', tuple(1 - b for b in m[1]) + (1,)) + m[2:]
        if how == 'witness':
            return m[:2] + (fx_gumap.make_wit(fam, ('btc', 'p2sh', 0, 0), fam.inner_digest(left, other), fam.map_seal(m)),) + m[3:]
        if how == 'goodwitness':
            return m[:2] + (fx_gumap.make_wit(fam, ('btc', 'op_return', 1, 1), fam.inner_digest(left, right), ('btc', b'\5' * 32, 1, bytes(16))),) + m[3:]
        if how == 'fakeseal':
            return m[:2] + (('fake', fx_seal.bitflip(fam.inner_digest(left, right), i)),) + m[3:]
        if how == 'innerdigest':
            return m[:2] + (('fake', ref_pm.sha(fam.leaf_tag + fam.seal_hash(left) + fam.seal_hash(right))),) + m[3:]
        if how == 'otherfamily':
            return m[:2] + (('fake', ref_pm.sha(fam.inner_tag + fam.schema.hash(fam.term(left)) + fam.schema.hash(fam.term(right)))),) + m[3:]
        if how == 'samesealchild':
            # another child with the same seal: the seals are what is committed to
            return m[:3] + (('unused', (1, 0, 1), fam.map_seal(left)), right)
        if how == 'oindex' and wit[0] == 'btc':
            return m[:2] + (wit[:4] + (i % 4,) + wit[5:],) + m[3:]
        if how == 'script' and wit[0] == 'btc':
            v, vin, vout, lock = wit[5]
            k = wit[4]
            vout = vout[:k] + [(vout[k][0], fx_seal.bitflip(vout[k][1], i))] + vout[k + 1:]
            return m[:2] + (wit[:5] + ((v, vin, vout, lock),),) + m[3:]
    return m


HOWS = ['key', 'value', 'swapkv', 'witness', 'goodwitness', 'innerdigest', 'otherfamily', 'fakeseal', 'oindex', 'script', 'left', 'right', 'order', 'prefix', 'samesealchild']
LEAF_HOWS = ['key', 'value', 'swapkv', 'witness', 'goodwitness', 'innerdigest', 'otherfamily', 'fakeseal', 'oindex', 'script']
INNER_HOWS = ['left', 'right', 'order', 'prefix', 'witness', 'goodwitness', 'innerdigest', 'otherfamily', 'fakeseal', 'samesealchild', 'oindex', 'script']


def replaced(case, T):
    w, r, how, key, value, other, i = case
    fam = fx_gumap.FAMS[w]
    m = fx_gumap.cook(fam, r)
    m2 = replace(fam, m, how, (key, value, fx_gumap.cook(fam, other), i))
    obj = fam.build(m2)
    same(fam, obj, m2, 'map with %s replaced' % how)
    # verification of pruned and transported views agrees (details in C25)
    eq(fx_seal.verdict(obj.prune().verify) is True, fam.verifies(m2), 'pruned view')
    eq(fx_seal.verdict(fam.cls.deserialize(obj.serialize()).verify) is True, fam.verifies(m2), 'transported')
    if m != m2:
        ok(fam.build(m) != obj, 'a different map is equal')
        T.label('%s %s' % (m[0], how), 'verifies' if fam.verifies(m2) else 'refused')
    T.nt(m != m2)


def mixed(case, T):
    """Components that are pruned views of their own, some of them used"""
    (w, r, how, key, value, other, i), picks = case
    fam = fx_gumap.FAMS[w]
    m0 = fx_gumap.cook(fam, r)
    m = replace(fam, m0, how, (key, value, fx_gumap.cook(fam, other), i))
    obj = fam.build_mixed(m, list(picks))
    first = fx_seal.verdict(obj.verify)
    eq(first is True, fam.verifies(m), 'verdict')
    ok(not isinstance(first, PrunedError), 'pruned error')
    same(fam, obj, m, 'map of pruned components')
    plain = fam.build(m)
    ok(obj == plain and hash(obj) == hash(plain), 'equality')
    p = fam.build_mixed(m, list(picks)).prune()
    eq(fx_seal.verdict(p.verify) is True, fam.verifies(m), 'verdict on a pruned view')
    d = fam.cls.deserialize(p.serialize())
    eq(d.hash, plain.hash, 'hash after transport')
    T.label(m[0], 'verifies' if fam.verifies(m) else 'refused')
    T.nt(m[0] != 'unused' and any(picks))


def children(case, T):
    """An inner prefix made from two children sits at their longest common prefix, at any depth"""
    w, pa, pb, sa, sb = case
    fam = fx_gumap.FAMS[w]
    a, b = ('unused', pa, sa), ('unused', pb, sb)
    obj = fam.cls.InnerPrefix.from_children(fam.build(a), fam.build(b))
    m = fx_gumap.cook(fam, ('children', a, b))
    same(fam, obj, m, 'inner prefix')
    eq(tuple(obj.prefix), ref_pm.common(pa, pb), 'prefix')
    ok(fx_seal.verdict(obj.verify) is True, 'verifies')
    swapped = fam.cls.InnerPrefix.from_children(fam.build(b), fam.build(a))
    eq(swapped == obj, sa == sb and pa == pb, 'equality with the children the other way round')
    T.nt(len(pa) > 8 or len(pb) > 8)


def longbits():
    return st.one_of(st.lists(st.integers(0, 1), max_size=20).map(tuple), gen.digest().map(ref_pm.bits_of),
                     st.tuples(st.integers(0, 255), st.integers(0, 256)).map(lambda t: ref_pm.bits_of(fx_seal.bitflip(b'\x5a' * 32, t[0]))[:t[1]]))


def gen_closing(depth=2):
    return gen.mix(*[st.tuples(st.just(w), fx_gumap.recipes(w, depth)) for w in fx_gumap.FAMS])


def gen_replaced():
    def g(w):
        fam = fx_gumap.FAMS[w]
        r = fx_gumap.recipes(w, 1)
        return st.tuples(st.just(w), r, st.sampled_from(HOWS), fam.key(), fam.value(), r, st.integers(0, 300))
    return gen.mix(*[g(w) for w in fx_gumap.FAMS])


def long(case, T):
    """Long keys and values: a change anywhere in them shows"""
    a, b, at = case
    fam = fx_gumap.LONG
    key, value = ref_pm.sha_stream(a), ref_pm.sha_stream(b + 1)[1:]
    for how in (('fake',), ('btc', 'p2sh', 1, 0)):
        r = ('leaf', ('btc', b'\2' * 32, 3, bytes(16)), how, key, value)
        m = fx_gumap.cook(fam, r)
        calls = []
        obj = fx_gumap.make(fam, r, calls)
        eq([(s.hash, d) for s, d in calls], expected_calls(fam, r, []), 'seals and digests to be witnessed')
        same(fam, obj, m, 'map')
        same(fam, fam.cls.deserialize(obj.serialize()), m, 'map read back')
        others = [(key + b'\0', value), (key, value + b'\0'), (key + value[:1], value[1:]), (key[:-1], value), (key, value[:-1])]
        for s in {at, a - 1, b - 1, at % max(1, a), at % max(1, b), 0}:
            if 0 <= s < a:
                others.append((fx_seal.bitflip(key, 8 * s + 3), value))
            if 0 <= s < b:
                others.append((key, fx_seal.bitflip(value, 8 * s + 3)))
        for k2, v2 in others:
            changed = ('leaf', m[1], k2, v2)
            eq(fx_seal.verdict(fam.build(changed).verify) is True, fam.verifies(changed), 'verdict with another key or value of %d and %d bytes' % (len(k2), len(v2)))
    T.nt()


SUBS = [
    Sub('closing', closing, gen=gen_closing, quick=4500, heavy=True),
    Sub('replaced', replaced, gen=gen_replaced, quick=12000, heavy=True, optimized=300),
    Sub('mixed', mixed, gen=lambda: st.tuples(gen_replaced(), st.lists(st.integers(0, 7), max_size=12)), quick=4500, heavy=True),
    Sub('children', children, gen=lambda: st.tuples(st.sampled_from(sorted(fx_gumap.FAMS)), longbits(), longbits(), fx_gumap.seals(), fx_gumap.seals()), quick=2400),
    Sub('long', long, enum=lambda: iter([(a, b, at) for a in (0, 1, 31, 32, 33, 127, 128, 129, 255, 256, 257, 1000, 16384, 65535, 65536, 70000)
        for b in (0, 1, 32, 128, 255, 256, 300, 20000, 65537) if a < 1000 or b < 1000 for at in (100, 300, 66000)])),
]
