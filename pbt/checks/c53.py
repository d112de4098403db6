import io
import tempfile

from hypothesis import strategies as st
import proofmarshal.serialize as ps
from proofmarshal.bits import Bits, BitsSerializer
from bitcoin.core.serialize import BytesSerializer, SerializationTruncationError, VarIntSerializer
from bitcoin.bloom import CBloomFilter
from bitcoin.messages import MsgSerializable
from bitcoin.net import CAddress, CBlockLocator, CInv
from .. import gen, ref_btc as R, ref_pm, fx_btc as F, fx_pm, fx_tree, fx_seal, fx_gumap
from ..core import Sub, eq, fail, ok, raises
from . import c01, c44, c45

RULE = """Lists of up to eight objects of all kinds together (proofmarshal values, bit strings, proofs whole, pruned and nested, ranges, trees, transaction
proofs, seals, witnesses, maps; Bitcoin structures, counts, strings, filters, inventory, addresses, locators, and messages) are written one after
another into one stream, and have to come out as the reference encodings; read back in order each has to be itself and leave the stream at its end.
Streams cut inside an object give everything before it, and then the truncation error of the codec. The same with elements of up to 300000 bytes. Pairs of a kind: neither of two different encodings
begins with the other. Non-trivial: at least two objects in the stream, or two different encodings."""
ASSUMPTIONS = ['Streams return as many bytes as asked for unless they end', 'The position of a stream after an error is not specified']


class Kind:
    """gen: strategy of plain data; enc: plain -> bytes; write(plain, fd); read(plain, fd) compares; real: plain -> object; raw: reads anything of the type of
    a plain value"""
    def __init__(self, gen, enc, write, read, truncated, real=None, load=None, raw=None):
        self.gen, self.enc, self.write, self.read, self.truncated, self.real, self.load, self.raw = gen, enc, write, read, truncated, real, load, raw


def pm(gen, enc, real, serializer, check):
    def write(v, fd):
        ps.StreamSerializationContext(fd).write_obj(real(v), serialization_class=serializer(v))

    def read(v, fd):
        check(v, ps.StreamDeserializationContext(fd).read_obj(serializer(v)))
    return Kind(gen, enc, write, read, ps.TruncationError, real, lambda v, b: serializer(v).deserialize(b),
                lambda v, fd: ps.StreamDeserializationContext(fd).read_obj(serializer(v)))


def btc(gen, enc, real, cls, plain):
    def write(v, fd):
        real(v).stream_serialize(fd)

    def read(v, fd):
        r = cls(v).stream_deserialize(fd)
        ok(type(r) is cls(v), 'read %s' % type(r).__name__)
        eq(plain(v, r), v, 'read back')
    return Kind(gen, enc, write, read, SerializationTruncationError, real, lambda v, b: cls(v).deserialize(b), lambda v, fd: cls(v).stream_deserialize(fd))


def static(gen, enc, cls):
    def read(v, fd):
        eq(cls.stream_deserialize(fd), v, 'read back')
    return Kind(gen, enc, lambda v, fd: cls.stream_serialize(v, fd), read, SerializationTruncationError, raw=lambda v, fd: cls.stream_deserialize(fd))


def check_pm(v, r):
    eq((r, type(r)), (v[1], type(v[1])), 'read back')


def check_proof(schema, term, p):
    eq(p.hash, schema.hash(term), 'hash')


def pruned_wire(t):
    term, paths = t
    return fx_pm.S.wire(term, fx_pm.used_tree(term, paths) or {f: None for (f, k) in fx_pm.fields(term[0]) if fx_pm.is_proof_kind(k)})


def pruned():
    """(term, used paths): a pruned view of which these paths were used"""
    return fx_pm.structured_term(small=True).flatmap(lambda t: st.tuples(st.just(t), st.lists(st.sampled_from(fx_pm.paths(t)), min_size=1, max_size=2).map(tuple)))


def make_pruned(t):
    p = fx_pm.build(t[0]).prune()
    for path in t[1]:
        fx_pm.walk(p, path)
    return p


MSGS = gen.mix(*[st.tuples(st.just(c), c44.BODY[c]) for c in c44.COMMANDS if c != b'version'])


def gm_case():
    return st.sampled_from(sorted(fx_gumap.FAMS)).flatmap(lambda w: st.tuples(st.just(w), fx_gumap.recipes(w, 1)))


def gm(t):
    fam = fx_gumap.FAMS[t[0]]
    return fam, fx_gumap.cook(fam, t[1])


def tree_case():
    return st.sampled_from(sorted(fx_tree.FAMILIES)).flatmap(lambda w: st.tuples(st.just(w), fx_tree.FAMILIES[w].items(6)))


def tree_check(t, r):
    fam = fx_tree.FAMILIES[t[0]]
    if fam.kind == 'mmr':
        eq([fam.unreal(v) for v in r], list(t[1]), 'values')
    else:
        eq({fam.uk(k): fam.unreal(v) for k, v in r.items()}, dict(t[1]), 'items')
    eq(r.hash, fam.schema.hash(fam.term(t[1])), 'hash')


SEALS = gen.mix(st.tuples(st.just('TxProof'), F.tx(2, 2)), st.tuples(st.just('OutPointProof'), F.tx(2, 2), F.u32()), st.tuples(st.just('TxInProof'), F.u32(), F.tx(2, 2)), st.tuples(st.just('TxOutProof'), F.u32(), F.tx(2, 2)),
                st.tuples(st.just('FakeWitness'), gen.digest()), st.tuples(st.just('BtcSeal'), fx_seal.seal()),
                st.tuples(st.just('BtcWitness'), fx_seal.seal(), F.u32(), F.tx(1, 1), F.u32(), F.tx(1, 1)))
SEAL_TERM = {'TxProof': fx_seal.t_tx, 'OutPointProof': fx_seal.t_outpoint, 'TxInProof': fx_seal.t_in, 'TxOutProof': fx_seal.t_out, 'FakeWitness': fx_seal.t_fake, 'BtcSeal': fx_seal.t_seal, 'BtcWitness': fx_seal.t_witness}
SEAL_REAL = {'TxProof': fx_seal.r_txproof, 'OutPointProof': lambda tx, n: fx_seal.OutPointProof(txproof=fx_seal.r_txproof(tx), n=n), 'TxInProof': fx_seal.r_in, 'TxOutProof': fx_seal.r_out,
             'FakeWitness': fx_seal.r_fake, 'BtcSeal': fx_seal.r_seal, 'BtcWitness': fx_seal.r_witness}


def seal_wire(t):
    return fx_seal.S.wire(SEAL_TERM[t[0]](*t[1:]))


def write_message(m, fd):
    c44.build(m).stream_serialize(fd)


def read_message(m, fd):
    c44.same(MsgSerializable.stream_deserialize(fd), m, 'message')


def bloom(v):
    return CBloomFilter.deserialize(c45.enc(*v))


KINDS = {
    'value': pm(c01.kinds(), lambda v: c01.enc(*v), lambda v: v[1], lambda v: c01.ser(v[0]), check_pm),
    'bits': pm(st.lists(st.integers(0, 1), max_size=30).map(tuple), lambda v: ref_pm.leb128(len(v)) + ref_pm.pack_bits(v), Bits, lambda v: BitsSerializer, lambda v, r: eq((tuple(r), type(r)), (v, Bits), 'read back')),
    'proof': pm(fx_pm.any_term(), lambda t: fx_pm.S.wire(t), fx_pm.build, lambda t: fx_pm.top_class(t[0]), lambda t, r: (eq(r.hash, fx_pm.S.hash(t), 'hash'), ok(r == fx_pm.build(t), 'equality'))),
    'pruned proof': pm(pruned(), pruned_wire, make_pruned, lambda t: fx_pm.top_class(t[0][0]), lambda t, r: (eq(r.hash, fx_pm.S.hash(t[0]), 'hash'), [fx_pm.walk(r, p) for p in t[1]])),
    'tree': pm(tree_case(), lambda t: fx_tree.FAMILIES[t[0]].schema.wire(fx_tree.FAMILIES[t[0]].term(t[1])), lambda t: fx_tree.FAMILIES[t[0]].build(t[1]), lambda t: fx_tree.FAMILIES[t[0]].cls, tree_check),
    'seal': pm(SEALS, seal_wire, lambda t: SEAL_REAL[t[0]](*t[1:]), lambda t: fx_seal.CLASSES[t[0]], lambda t, r: (eq(r.hash, fx_seal.S.hash(SEAL_TERM[t[0]](*t[1:])), 'hash'), eq(r.serialize(), seal_wire(t), 'written again'))),
    'map': pm(gm_case(), lambda t: gm(t)[0].schema.wire(gm(t)[0].term(gm(t)[1])), lambda t: gm(t)[0].build(gm(t)[1]), lambda t: gm(t)[0].cls, lambda t, r: eq(r.hash, gm(t)[0].schema.hash(gm(t)[0].term(gm(t)[1])), 'hash')),
    'address': btc(c44.ADDR, c44.e_addr, c44.r_addr, lambda v: CAddress, lambda v, r: c44.p_addr(r)),
    'inventory': btc(c44.INV, c44.e_inv, c44.r_inv, lambda v: CInv, lambda v, r: (r.type, r.hash)),
    'locator': btc(c44.LOC, c44.e_locator, c44.r_locator, lambda v: CBlockLocator, lambda v, r: (r.nVersion, r.vHave)),
    'filter': btc(st.tuples(gen.blob(300, min_size=1), st.integers(0, 60), F.u32(), st.integers(0, 255)), lambda v: c45.enc(*v), bloom, lambda v: CBloomFilter, lambda v, r: (bytes(r.vData), r.nHashFuncs, r.nTweak, r.nFlags)),
    'count': static(gen.uints(2**64 - 1), R.compact, VarIntSerializer),
    'string': static(gen.blob(300), R.ser_script, BytesSerializer),
    'message': Kind(MSGS, lambda m: c44.frame('mainnet', m[0], c44.payload(m)), write_message, read_message, SerializationTruncationError, c44.build, lambda v, b: MsgSerializable.from_bytes(b), lambda v, fd: MsgSerializable.stream_deserialize(fd)),
}
for _k in F.CLS:
    _g = {'outpoint': F.outpoint(), 'txin': F.txin(), 'txout': F.txout(), 'tx': F.tx(), 'header': F.header(), 'block': F.block(2)}[_k]
    KINDS[_k] = btc(_g, R.SER[_k], F.REAL[_k], lambda v, k=_k: F.CLS[k], lambda v, r, k=_k: F.PLAIN[k](r))
NAMES = sorted(KINDS)
# kinds that one reader reads: everything of one of these groups is told apart by its bytes alone
CLOSED = ['bits', 'message', 'address', 'inventory', 'locator', 'filter', 'count', 'string'] + sorted(F.CLS)


def stream(case, T):
    items, cut, on_disk = case
    want, ends = b'', []
    f = tempfile.TemporaryFile() if on_disk else io.BytesIO()
    with f:
        for k, v in items:
            KINDS[k].write(v, f)
            want += KINDS[k].enc(v)
            ends.append(len(want))
            eq(f.tell(), len(want), 'bytes written up to %s' % k)
        f.seek(0)
        eq(f.read(), want, 'the stream')
        f.write(b'\xff\0tail')
        f.seek(0)
        for (k, v), end in zip(items, ends):
            try:
                KINDS[k].read(v, f)
            except Exception as e:
                raise AssertionError('reading %s back: %r' % (k, e)) from e
            eq(f.tell(), end, 'position after %s' % k)
        eq(f.read(), b'\xff\0tail', 'rest of the stream')
        cut %= len(want) + 1
        f.seek(cut)
        f.truncate()
        f.seek(0)
        for (k, v), end in zip(items, ends):
            if end <= cut:
                KINDS[k].read(v, f)
            else:
                raises(KINDS[k].truncated, KINDS[k].read, v, f, what='%s in a stream that ends %d bytes early' % (k, end - cut))
                break
    T.label(*{k for k, v in items})
    T.nt(len(items) > 1)




def prefixes(case, T):
    """No encoding begins with another one of the same reader: what is written is found again whatever follows"""
    kind, v, w, tail = case
    K = KINDS[kind]
    f, g = io.BytesIO(), io.BytesIO()
    K.write(v, f)
    K.write(w, g)
    a, b = f.getvalue(), g.getvalue()
    if a != b:
        ok(not a.startswith(b) and not b.startswith(a), 'one of %s and %s begins with the other' % (a.hex()[:300], b.hex()[:300]))
    for x, y in ((v, b), (w, a), (v, tail), (w, tail)):
        e = a if x is v else b
        h = io.BytesIO(e + y)
        K.read(x, h)
        eq(h.tell(), len(e), 'bytes read with %s following' % y[:20].hex())
    T.label(kind)
    T.nt(a != b)


def expand(kind, size, fill, more):
    data = bytes([fill]) * size
    if kind == 'value':
        return ('value', (('var', 0, size + more), data))
    if kind == 'fixed':
        return ('value', (('fixed', size), data))
    if kind == 'bits':
        return ('bits', (fill & 1,) * size)
    if kind == 'txin':
        return ('txin', (b'\7' * 32, fill, data, more))
    if kind == 'txout':
        return ('txout', (more, data))
    if kind == 'tx':
        return ('tx', (1, [(b'\7' * 32, fill, data, more), (b'\7' * 32, fill, data[more:], more)], [(more, b'\x51')], more))
    if kind == 'message':
        return ('message', (b'tx', expand('tx', size, fill, more)[1]))
    if kind == 'alert':
        return ('message', (b'alert', (data, b'x' * more)))
    return (kind, data)


def long(case, T):
    """Elements of tens of thousands of bytes between small ones"""
    items, cut, on_disk = case
    stream(([expand(*i[1:]) if i[0] == 'long' else i for i in items], cut, on_disk), T)
    T.label(*['long %s' % i[1] for i in items if i[0] == 'long'])


def long_cases():
    size = st.one_of(st.sampled_from([4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 131072]), st.integers(1000, 70000), st.integers(1000, 300000))
    big = st.tuples(st.just('long'), st.sampled_from(['value', 'fixed', 'bits', 'txin', 'txout', 'tx', 'message', 'alert', 'string', 'string']), size, st.integers(0, 255), st.integers(1, 200))
    small = st.sampled_from(NAMES).flatmap(lambda k: st.tuples(st.just(k), KINDS[k].gen))
    return st.tuples(st.lists(st.one_of(big, big, small), min_size=1, max_size=4), st.integers(0, 10**6), st.integers(0, 3).map(lambda n: n == 0))


def pairs():
    return st.sampled_from(CLOSED).flatmap(lambda k: st.tuples(st.just(k), KINDS[k].gen, KINDS[k].gen, st.binary(max_size=9)))


def cases():
    one = st.sampled_from(NAMES).flatmap(lambda k: st.tuples(st.just(k), KINDS[k].gen))
    return st.tuples(st.lists(one, max_size=8), st.one_of(st.integers(0, 200), st.integers(0, 10000)), st.integers(0, 15).map(lambda n: n == 0))


SUBS = [Sub('stream', stream, gen=cases, quick=6000), Sub('long', long, gen=long_cases, quick=1200, thorough=8000), Sub('prefixes', prefixes, gen=pairs, quick=4500)]
