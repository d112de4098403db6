from hypothesis import strategies as st
import proofmarshal.serialize as ps
from bitcoin.core import SerializationError
from proofmarshal.bits import BitsSerializer
from .. import gen, ref_pm, fx_pm
from .. import fx_tree, fx_btc, fx_seal, ref_btc as R
from ..core import Sub, eq, ok, raises, outcome, fail, short, shallow
from . import c01

RULE = """Byte strings are random, boundary-shaped, or valid encodings mutated (bytes set, flipped, inserted, deleted,
duplicated, cut, appended), decoded as every primitive type, bit strings, nested proofs, variants, unions, mountain
ranges, radix trees, seals, witnesses and transaction proofs (their Bitcoin structures too short or too long as well); an independent parser decides accept, truncated or reject. Every proper prefix of every valid
encoding is also decoded. Non-trivial: the bytes are accepted or get past their first byte; or a prefix set of a
non-empty encoding."""
ASSUMPTIONS = ['Encodings are read with Bytes contexts; raw Bitcoin structures inside of proofs keep their own codec']

KINDS = [('uint', 8), ('uint', 16), ('uint', 32), ('uint', 64), ('bool',), ('fixed', 0), ('fixed', 3), ('fixed', 32),
         ('var', 0, 5), ('var', 2, 4), ('var', 0, 300), ('var', 256, 300), ('bits',)]
MAX_KINDS = [('max', m) for m in sorted(c01.MAXES)]


def ser(kind):
    if kind[0] == 'bits':
        return BitsSerializer
    return c01.ser(kind)


def ref_decode(kind, b):
    r = ref_pm.Reader(b)
    v = ref_pm.dec_plain(kind, r)
    r.done()
    return v


def judge(b, dec, reenc, ref, T, same):
    """dec(b) against the reference parser"""
    try:
        want = ('ok', ref(b))
    except ref_pm.Truncated:
        want = ('trunc',)
    except ref_pm.Reject:
        want = ('reject',)
    try:
        got = dec(b)
    except ps.DeserializationError as e:
        ok(want[0] != 'ok', 'rejected a valid encoding %s: %r' % (b.hex()[:200], e))
        T.label(want[0])
        return
    if want[0] != 'ok':
        fail('accepted an invalid (%s) encoding %s as %s' % (want[0], b.hex()[:200], short(got)))
    same(got, want[1])
    eq(reenc(got), b, 're-serialization')
    T.label('ok')
    T.nt()


def plain(case, T):
    kind, b = case
    s = ser(kind)

    def same(got, want):
        if kind[0] == 'bits':
            eq(tuple(got), want, 'value')
        else:
            eq(got, want, 'value')
    judge(b, s.deserialize, s.serialize, lambda x: ref_decode(kind, x), T, same)
    T.label(kind[0])
    T.nt(len(b) > 1)


def plain_gen():
    ints = gen.uints(2**70).map(ref_pm.leb128)
    padded = st.tuples(ints, st.integers(1, 3)).map(lambda t: t[0][:-1] + bytes([t[0][-1] | 128]) + b'\x80' * (t[1] - 1) + b'\x00')
    lenpre = st.tuples(st.integers(0, 8).map(ref_pm.leb128), st.binary(max_size=9)).map(b''.join)
    bitsy = st.tuples(st.integers(0, 40).map(ref_pm.leb128), st.binary(max_size=6)).map(b''.join)
    bitsv = fx_pm.bits_st(40).map(lambda v: ref_pm.enc_plain(('bits',), v))
    huge = st.tuples(st.sampled_from([2**31, 2**32, 2**63 - 1, 2**63, 2**64, 2**66, 2**200]).map(ref_pm.leb128),
                     st.binary(max_size=3)).map(b''.join)
    raw = st.one_of(ints, padded, lenpre, bitsy, bitsv, huge, st.binary(max_size=6), st.binary(min_size=31, max_size=34))
    withmut = st.tuples(raw, gen.mutations()).map(lambda t: gen.mutate(*t))
    near = st.sampled_from(sorted(c01.MAXES)).flatmap(lambda m: st.tuples(st.just(('max', m)), st.one_of(
        st.integers(max(0, m - 2), m + 3), gen.uints(2 * m + 2)).map(ref_pm.leb128)))
    return gen.mix(st.tuples(st.sampled_from(KINDS), st.one_of(raw, withmut)), st.tuples(st.sampled_from(KINDS), st.one_of(raw, withmut)),
                   st.tuples(st.sampled_from(KINDS), st.one_of(raw, withmut)), near,
                   st.tuples(st.sampled_from(MAX_KINDS), st.one_of(raw, withmut)))


def plain_enum():
    """Every one- and two-byte string for every kind"""
    for kind in KINDS:
        yield (kind, b'')
        for a in range(256):
            yield (kind, bytes([a]))
    for kind in [('uint', 8), ('uint', 16), ('uint', 64), ('var', 0, 5), ('bits',), ('bool',)]:
        for a in list(range(0, 20)) + [0x7f, 0x80, 0x81, 0x82, 0xfe, 0xff]:
            for c in range(256):
                yield (kind, bytes([a, c]))
    for kind in [('var', 0, 5), ('var', 2, 4), ('var', 0, 300), ('var', 256, 300)]:
        for n in range(310):
            yield (kind, ref_pm.leb128(n) + b'y' * n)
    for m in c01.MAXES:
        for v in gen.VARINT_EDGES + list(range(max(0, m - 130), m + 130)) + [2 * m, 2 * m + 1, 2**m.bit_length() - 1, 2**m.bit_length()]:
            yield (('max', m), ref_pm.leb128(v))


def cmp_proof(S, names):
    def same(got, want):
        name = want[1] if want[0] == 'PRUNED' else want[0]
        ok(type(got) is names[name], 'class: got %r, expected %r' % (type(got), names[name]))
        eq(got.hash, S.hash_read(want), 'hash of what was read')
        eq(got.is_fully_pruned, want[0] == 'PRUNED', 'is_fully_pruned')
        eq(got.is_pruned, S.contains_pruned(want), 'is_pruned')
    return same


def proofs(case, T):
    name, b = case
    cls = fx_pm.top_class(name)
    judge(b, cls.deserialize, lambda o: o.serialize(), lambda x: fx_pm.S.parse(fx_pm.top_kind(name), x), T,
          cmp_proof(fx_pm.S, fx_pm.CLASSES))
    T.nt(len(b) > 1)
    T.label(name)


def wire_of(t):
    """a term with some of its paths used -> bytes"""
    term, picks, pruned = t
    ps_ = fx_pm.paths(term)
    if not pruned:
        return term[0], fx_pm.S.wire(term)
    used = [ps_[i % len(ps_)] for i in picks] if ps_ else []
    return term[0], fx_pm.S.wire(term, fx_pm.used_tree(term, used))


def wires():
    return st.tuples(fx_pm.any_term(), st.lists(st.integers(0, 50), max_size=4), st.booleans()).map(wire_of)


def proofs_gen():
    return st.one_of(
        st.tuples(wires(), gen.mutations()).map(lambda t: (t[0][0], gen.mutate(t[0][1], t[1]))),
        # structural edits aimed at flags and variant numbers near the front
        st.tuples(wires(), st.lists(st.tuples(st.sampled_from(['set', 'xor', 'ins']), st.integers(0, 3),
                                              st.sampled_from([0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x81, 0xff])), min_size=1, max_size=2)
                  ).map(lambda t: (t[0][0], gen.mutate(t[0][1], t[1]))),
        st.tuples(st.sampled_from(sorted(fx_pm.CLASSES)), st.binary(max_size=80)),
        # read as another type
        st.tuples(st.sampled_from(sorted(fx_pm.CLASSES)), wires().map(lambda w: w[1])))


def prefixes(case, T):
    name, b = case
    cls = fx_pm.top_class(name)
    cls.deserialize(b)
    n = len(b)
    cuts = range(n) if n <= 400 else list(range(0, 200)) + list(range(200, n, 7)) + list(range(n - 100, n))
    for i in cuts:
        raises(ps.TruncationError, cls.deserialize, b[:i], what='%s cut to %d of %d bytes' % (name, i, n))
    for junk in (b'\x00', b'\xff', b[:1], b):
        raises(ps.DeserializationError, cls.deserialize, b + junk, what='%s followed by junk' % name)
    T.label(name)
    T.nt(n > 2)


def plain_prefixes(case, T):
    kind, v = case
    s = ser(kind)
    b = s.serialize(fx_pm.Bits(v) if kind[0] == 'bits' else v)
    for i in range(len(b)):
        raises(ps.TruncationError, s.deserialize, b[:i], what='%r cut to %d of %d bytes' % (kind, i, len(b)))
    for junk in (b'\x00', b'\xff', b'\x80'):
        raises(ps.DeserializationError, s.deserialize, b + junk, what='%r followed by junk' % (kind,))
    T.label(kind[0])
    T.nt(len(b) > 1)


def trees(case, T):
    which, b = case
    fam = fx_tree.FAMILIES[which]
    judge(b, fam.cls.deserialize, lambda o: o.serialize(), lambda x: fam.schema.parse(('family', which), x), T,
          cmp_proof(fam.schema, fam.names()))
    T.nt(len(b) > 1)
    T.label(which)


def tree_wires():
    def mk(t):
        which, items, depth = t
        fam = fx_tree.FAMILIES[which]
        term = fam.term(items)
        return which, fam.schema.wire(term, fx_tree.cut(fam.schema, term, depth))
    return st.sampled_from(sorted(fx_tree.FAMILIES)).flatmap(
        lambda w: st.tuples(st.just(w), fx_tree.FAMILIES[w].items(12), st.lists(st.integers(0, 3), max_size=12))).map(mk)


def trees_gen():
    return st.one_of(
        st.tuples(tree_wires(), gen.mutations()).map(lambda t: (t[0][0], gen.mutate(t[0][1], t[1]))),
        st.tuples(st.sampled_from(sorted(fx_tree.FAMILIES)), st.binary(max_size=60)))


def nested(case, T):
    """Encodings nested more deeply than anything that can be made: refused, whatever the depth"""
    which, n, tail = case
    cls, unit = {'MMR': (fx_tree.MMRA, b'\x00\x02'), 'V': (fx_pm.V, b'\x00\x02'),
                 'tree': (fx_tree.MBTB, b'\x00\x02\x00'), 'union': (fx_pm.Holder, b'\x00\x01\x00\x02')}[which]
    if which == 'union':
        b = unit + b'\x00\x02' * n + tail
    else:
        b = unit * n + tail

    def go():
        try:
            p = cls.deserialize(b)
        except ps.DeserializationError:
            pass
        else:
            eq(p.serialize(), b, 'serialization of what was accepted')
    shallow(go)
    T.label(which, '<250' if n < 250 else '<1000' if n < 1000 else '1000+')
    T.nt(n > 250)


def inner(v):
    """The Bitcoin structures inside what was read: 'ok', 'padded' (some size is not minimal) or 'bad'"""
    worst = 'ok'
    if v[0] == 'PRUNED':
        return 'ok'
    for x in v[1:]:
        if isinstance(x, tuple):
            w = inner(x)
        elif isinstance(x, bytes) and v[0] == 'TxProof':
            r = R.Reader(x)
            try:
                r.tx()
                w = 'bad' if r.i != len(x) else 'ok' if r.minimal else 'padded'
            except R.Bad:
                w = 'bad'
        else:
            w = 'bad' if v[0] == 'BtcSeal' and x is v[1] and len(x) != 36 else 'ok'
        if w != 'ok' and worst != 'bad':
            worst = w
    return worst


def seals(case, T):
    """Seals, witnesses and transaction proofs"""
    name, b = case
    try:
        want = ('ok', fx_seal.S.parse(('proof', name), b))
        how = inner(want[1])
    except ref_pm.Reject:
        want, how = ('reject', None), 'bad'
    got = outcome(fx_seal.CLASSES[name].deserialize, b)
    T.label(name, how)
    if how == 'bad':
        ok(got[0] == 'exc', 'accepted an invalid encoding %s as %s' % (b.hex()[:300], short(got[1])))
        ok(isinstance(got[1], (ps.DeserializationError, SerializationError)), 'raised %r' % (got[1],))
        T.nt(want[0] == 'ok')
        return
    ok(got[0] == 'ok', 'rejected a valid encoding %s: %r' % (b.hex()[:300], got[1]))
    p = got[1]
    ok(type(p) is fx_seal.CLASSES[name], 'class')
    if how == 'ok':
        eq(p.serialize(), b, 're-serialization')
        eq(p.hash, fx_seal.S.hash_read(want[1]), 'hash of what was read')
    T.nt()


def seal_wires():
    def mk(t):
        (tx, seal, i, o), name, cut, lens = t
        term = {'TxProof': fx_seal.t_tx(tx), 'OutPointProof': fx_seal.t_outpoint(tx, i), 'TxInProof': fx_seal.t_in(i, tx), 'TxOutProof': fx_seal.t_out(o, tx),
                'FakeSeal': ('FakeSeal', seal[0]), 'FakeWitness': fx_seal.t_fake(seal[0]), 'BtcSeal': fx_seal.t_seal(seal), 'BtcWitness': fx_seal.t_witness(seal, i, tx, o, tx)}[name]

        def resize(x):
            # the Bitcoin structure itself made longer or shorter, its length in front being right
            if x[0] in ('TxProof', 'BtcSeal'):
                return (x[0], x[1] + bytes(lens) if lens > 0 else x[1][:lens or None]) + x[2:]
            return (x[0],) + tuple(resize(y) if isinstance(y, tuple) else y for y in x[1:])
        used = True
        if cut & 1 and name in ('TxInProof', 'TxOutProof', 'OutPointProof', 'BtcWitness'):
            used = {k: None if cut >> j & 1 else True for j, k in enumerate(('seal', 'txproof', 'txinproof', 'txoutproof'), 1)}
        elif cut == 2:
            used = None
        return name, fx_seal.S.wire(resize(term), used)
    return st.tuples(st.tuples(fx_btc.tx(2, 2, st.binary(max_size=4)), fx_seal.seal(), fx_btc.u32(), fx_btc.u32()), st.sampled_from(sorted(fx_seal.CLASSES)),
                     st.one_of(st.just(0), st.integers(0, 31)), st.one_of(st.just(0), st.just(0), st.integers(-5, 5), st.sampled_from([32, -32, -36, 36]))).map(mk)


def seals_gen():
    return st.one_of(st.tuples(seal_wires(), st.one_of(st.just([]), gen.mutations(2, 1))).map(lambda t: (t[0][0], gen.mutate(t[0][1], t[1]))),
                     st.tuples(st.sampled_from(sorted(fx_seal.CLASSES)), st.one_of(st.binary(max_size=60), seal_wires().map(lambda w: w[1]))))


SUBS = [
    Sub('seals', seals, gen=seals_gen, quick=9000),
    Sub('nested', nested, gen=lambda: st.tuples(st.sampled_from(['MMR', 'V', 'tree', 'union']), st.one_of(st.integers(0, 250), st.integers(200, 500), st.integers(0, 20000)),
        st.binary(max_size=20)), quick=900, examples=[(w, n, b'') for w in ('MMR', 'V', 'tree', 'union') for n in (200, 400, 5000, 200000)]),
    Sub('plain', plain, gen=plain_gen, quick=24000, enum=plain_enum,
        examples=[(('uint', 64), b'\x80\x00'), (('uint', 8), b'\x01\x00'), (('var', 0, 300), ref_pm.leb128(2**66)),
                  (('bits',), b'\x08\xff'), (('bits',), b'\x00'), (('bits',), ref_pm.leb128(2**70)), (('bits',), b'\x01\xc0')]),
    Sub('plain_prefixes', plain_prefixes,
        gen=lambda: st.one_of(c01.kinds().filter(lambda c: c[0][0] != 'digest'), fx_pm.bits_st(40).map(lambda v: (('bits',), v))),
        quick=4500),
    Sub('proofs', proofs, gen=proofs_gen, quick=15000, examples=[('VA', b'\x00\x09'), ('Leaf', b'\x01'), ('Holder', b'\x00\x07')]),
    Sub('prefixes', prefixes, gen=wires, quick=1800),
    Sub('trees', trees, gen=trees_gen, quick=9000),
]
