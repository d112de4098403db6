from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import SerializerTypeError, SerializerValueError
SerializerError = (SerializerTypeError, SerializerValueError)
from proofchains.core.uniquebits.singleuseseal import FakeSingleUseSeal, FakeSealWitness
from .. import gen, ref_pm, fx_seal
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_seal.S

RULE = """A witness made for one digest is asked to verify that digest, every single-bit change of it, truncations and
extensions, and unrelated digests: directly, pruned, and after transport whole, pruned to what verification used and
fully pruned. Hashes and encodings are compared with the reference. Non-trivial: the two digests differ."""
ASSUMPTIONS = ['SHA-256 does not collide on the generated cases']


def witness(case, T):
    a, b, bits = case
    w = FakeSealWitness.from_hash(a)
    wb = FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=b))
    used = w.prune()
    ok(fx_seal.verdict(used.verify_hash, a) is True, 'a pruned witness verifies')
    term = fx_seal.t_fake(a)
    eq(w.hash, S.hash(term), 'hash of the witness')
    eq(w.seal.hash, S.hash(term[1]), 'hash of the seal')
    eq(w.serialize(), S.wire(term), 'serialization')
    eq(w.seal.committed_hash, a, 'committed hash')
    eq(used.serialize(), S.wire(term), 'serialization of what was used')
    views = {'direct': w, 'pruned': w.prune(), 'used': used,
             'transported': FakeSealWitness.deserialize(w.serialize()),
             'transported pruned': FakeSealWitness.deserialize(used.serialize())}
    others = [b, b'', a[:-1], a[1:], a + b'\0', b'\0' + a, a[::-1], b'\0' * 32, b'\xff' * 32] + [fx_seal.bitflip(a, i) for i in bits]
    for name, v in views.items():
        ok(fx_seal.verdict(v.verify_hash, a) is True, '%s: does not verify its digest' % name)
        for o in others:
            if o != a:
                r = fx_seal.verdict(v.verify_hash, o)
                ok(r is not True, '%s: witness for %r verifies %r' % (name, a, o))
                ok(not isinstance(r, PrunedError), '%s: pruned error' % name)
        eq(v.hash, w.hash, '%s: hash' % name)
        ok(v == w and v.seal == w.seal, '%s: equality' % name)
    # a witness too pruned to decide never verifies
    for wire in (w.prune().serialize(), S.wire(term, {'seal': None})):
        v = FakeSealWitness.deserialize(wire)
        for d in (a, b):
            raises(PrunedError, v.verify_hash, d, what='fully pruned witness')
    eq(w == wb, a == b, 'equality of witnesses')
    eq(w.hash == wb.hash, a == b, 'hashes of witnesses')
    eq(w.seal == wb.seal, a == b, 'equality of seals')
    eq(w.seal.hash == wb.seal.hash, a == b, 'hashes of seals')
    eq(len({w, wb, FakeSealWitness.from_hash(a)}), 1 if a == b else 2, 'as dictionary keys')
    T.label('same' if a == b else 'different')
    T.nt(a != b)


def badlength(case, T):
    """A seal over something that isn't a digest can't be made"""
    if len(case) != 32:
        raises(SerializerError, FakeSealWitness.from_hash, case, what='digest of %d bytes' % len(case))
        raises(SerializerError, FakeSingleUseSeal, committed_hash=case, what='digest of %d bytes' % len(case))
        T.nt()
    for bad in (None, 1, 'x' * 32, FakeSingleUseSeal):
        raises(SerializerError, FakeSealWitness.from_hash, bad, what='digest %r' % (bad,))


def allbits(case, T):
    w = FakeSealWitness.from_hash(case)
    v = FakeSealWitness.deserialize(w.serialize())
    for i in range(256):
        ok(fx_seal.verdict(w.verify_hash, fx_seal.bitflip(case, i)) is not True, 'bit %d' % i)
        ok(fx_seal.verdict(v.verify_hash, fx_seal.bitflip(case, i)) is not True, 'bit %d' % i)
    T.nt()


SUBS = [
    Sub('witness', witness, gen=lambda: st.tuples(gen.digest(), gen.digest(), st.lists(st.integers(0, 255), max_size=6)), quick=7500, optimized=300),
    Sub('badlength', badlength, gen=lambda: st.one_of(st.binary(max_size=80), st.sampled_from([31, 33, 64]).map(bytes)), quick=600),
    Sub('allbits', allbits, gen=gen.digest, quick=450),
]
