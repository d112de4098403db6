from hypothesis import strategies as st
from proofmarshal.proof import PrunedError
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness
from .. import gen, ref_btc as R, fx_btc, fx_seal
from ..core import Sub, eq, ok, raises, fail, outcome
S = fx_seal.S

RULE = """The output script of a witnessed transaction is one of the three closing scripts of a digest, or that script with
bytes changed, inserted, removed or re-encoded (other pushes of the same data, other opcodes, other hash function), and
the digest asked for is that one, a related one or one of another length. The verdict must be "equal to one of the
three reference scripts of a 32-byte digest", directly, pruned and after transport. Non-trivial: the script resembles a
closing script (made from one)."""
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 do not collide on the generated cases']


def reencode(script, digest, how):
    h = R.hash160(digest)
    return {
        'ret_pushdata1': b'\x6a\x4c\x20' + digest,
        'ret_pushdata2': b'\x6a\x4d\x20\x00' + digest,
        'ret_pushdata4': b'\x6a\x4e\x20\0\0\0' + digest,
        'ret_hash160': b'\x6a\x14' + h,
        'ret_double': b'\x6a\x20' + R.sha256(digest),
        'ret_twice': b'\x6a\x20' + digest + b'\x20' + digest,
        'noret': b'\x20' + digest,
        'nop': b'\x61' + script,
        'append_nop': script + b'\x61',
        'append_zero': script + b'\0',
        'sh_pushdata1': b'\xa9\x4c\x14' + h + b'\x87',
        'sh_sha': b'\xa9\x14' + R.sha256(digest)[:20] + b'\x87',
        'sh_ripemd': b'\xa6\x14' + h + b'\x87',
        'sh_hash256': b'\xaa\x14' + h + b'\x87',
        'sh_equalverify': b'\xa9\x14' + h + b'\x88',
        'sh_rmd': b'\xa9\x14' + R.ripemd160(digest) + b'\x87',
        'sh_digest': b'\xa9\x20' + digest + b'\x87',
        'pkh_pushdata1': b'\x76\xa9\x4c\x14' + h + b'\x88\xac',
        'pkh_equal': b'\x76\xa9\x14' + h + b'\x87\xac',
        'pkh_checksigverify': b'\x76\xa9\x14' + h + b'\x88\xad',
        'pkh_nodup': b'\xa9\x14' + h + b'\x88\xac',
        'pkh_digest': b'\x76\xa9\x20' + digest + b'\x88\xac',
        'empty': b'',
        'digest': digest,
    }[how]


HOWS = ['ret_pushdata1', 'ret_pushdata2', 'ret_pushdata4', 'ret_hash160', 'ret_double', 'ret_twice', 'noret', 'nop', 'append_nop', 'append_zero',
        'sh_pushdata1', 'sh_sha', 'sh_ripemd', 'sh_hash256', 'sh_equalverify', 'sh_rmd', 'sh_digest', 'pkh_pushdata1', 'pkh_equal',
        'pkh_checksigverify', 'pkh_nodup', 'pkh_digest', 'empty', 'digest']


def make_script(digest, edit):
    kind = edit[0]
    if kind == 'closing':
        return fx_seal.closing_scripts(digest)[edit[1]]
    if kind == 'mutated':
        return gen.mutate(fx_seal.closing_scripts(digest)[edit[1]], edit[2])
    if kind == 're':
        return reencode(fx_seal.closing_scripts(digest)[edit[1]], digest, edit[2])
    return edit[1]


def should(script, digest):
    return len(digest) == 32 and script in fx_seal.closing_scripts(digest).values()


def views(w, wire_ok=True):
    return {'direct': w, 'pruned': w.prune(), 'transported': BitcoinSealWitness.deserialize(w.serialize())}


def verify(case, T):
    digest, edits, at, asked, seal, value, before, around = case
    scripts = [make_script(digest, e) for e in edits]
    at = before + at % len(scripts)
    # as many outputs before it, of another digest or of the same one closed
    fill = [b'\x51', fx_seal.closing_scripts(R.sha256(digest))['op_return'], fx_seal.closing_scripts(digest)['p2sh'], b''][around % 4]
    scripts = [fill] * before + scripts
    tx = (around // 4, [seal[:2] + (b'', 2**32 - 1)], [(value, s) for s in scripts], around // 2)
    w = fx_seal.r_witness(seal, 0, tx, at, tx)
    for d in [digest] + asked:
        want = should(scripts[at], d)
        for name, v in views(w).items():
            r = fx_seal.verdict(v.verify_hash, d)
            eq(r is True, want, '%s: output script %s, digest %s' % (name, scripts[at].hex(), d.hex()))
            ok(not isinstance(r, PrunedError), '%s: pruned error' % name)
        # only what verification used
        p = w.prune()
        r = fx_seal.verdict(p.verify_hash, d)
        q = BitcoinSealWitness.deserialize(p.serialize())
        eq(q.hash, w.hash, 'hash of the pruned witness')
        if len(d) == 32:
            r = fx_seal.verdict(q.verify_hash, d)
            eq(r is True, want, 'read back from a pruned one: output script %s, digest %s' % (scripts[at].hex(), d.hex()))
            ok(not isinstance(r, PrunedError), 'read back from a pruned one: pruned error')
        T.label('accepts' if want else 'refuses')
    T.label(*[e[0] + (' ' + e[1] if e[0] == 'closing' else '') for e in edits])
    T.nt(edits[at - before][0] in ('closing', 'mutated', 're'))


def outofrange(case, T):
    """An output that doesn't exist closes nothing"""
    digest, seal, n, meth = case
    script = fx_seal.closing_scripts(digest)[meth]
    outs = [(0, script)] * n
    if n:
        # one of them closes nothing
        outs[0] = (0, b'\x6a')
    tx = (1, [seal[:2] + (b'', 2**32 - 1)], outs, 0)
    al = fx_btc.aliases(n)
    for i in [n, n + 1, 2**31, 2**32 - 1] + [al[k * 37 % len(al)] for k in range(12)] + (al if n < 4 else []):
        w = fx_seal.r_witness(seal, 0, tx, i, tx)
        for v in views(w).values():
            ok(fx_seal.verdict(v.verify_hash, digest) is not True, 'output %d of %d' % (i, n))
    T.nt()


def toopruned(case, T):
    """Without the transaction there is no verdict"""
    digest, seal, meth = case
    tx = (1, [seal[:2] + (b'', 2**32 - 1)], [(0, fx_seal.closing_scripts(digest)[meth])], 0)
    term = fx_seal.t_witness(seal, 0, tx, 0, tx)
    for tree in (None, {}, {'txoutproof': None, 'seal': True, 'txinproof': True}, {'txoutproof': {'txproof': None}, 'txinproof': True}):
        v = BitcoinSealWitness.deserialize(S.wire(term, tree))
        raises(PrunedError, v.verify_hash, digest, what='pruned to %r' % (tree,))
    T.nt()


def allbits(case, T):
    """Every single-bit change of the script and of the digest"""
    digest, meth, seal = case
    script = fx_seal.closing_scripts(digest)[meth]
    for i in range(8 * len(script)):
        s = fx_seal.bitflip(script, i)
        tx = (1, [seal[:2] + (b'', 2**32 - 1)], [(0, s)], 0)
        ok(fx_seal.verdict(fx_seal.r_witness(seal, 0, tx, 0, tx).verify_hash, digest) is not True, 'script %s' % s.hex())
    tx = (1, [seal[:2] + (b'', 2**32 - 1)], [(0, script)], 0)
    w = fx_seal.r_witness(seal, 0, tx, 0, tx)
    ok(fx_seal.verdict(w.verify_hash, digest) is True, 'verifies')
    for i in range(256):
        ok(fx_seal.verdict(w.verify_hash, fx_seal.bitflip(digest, i)) is not True, 'digest bit %d' % i)
    for n in range(len(script)):
        tx = (1, [seal[:2] + (b'', 2**32 - 1)], [(0, script[:n])], 0)
        ok(fx_seal.verdict(fx_seal.r_witness(seal, 0, tx, 0, tx).verify_hash, digest) is not True, 'script cut to %d' % n)
    T.nt()


METHS = st.sampled_from(['op_return', 'p2sh', 'p2pkh'])


def edits():
    return gen.mix(st.tuples(st.just('closing'), METHS), st.tuples(st.just('mutated'), METHS, gen.mutations(2, 1)),
                   st.tuples(st.just('re'), METHS, st.sampled_from(HOWS)), st.tuples(st.just('raw'), fx_btc.raw_script()))


def verify_gen():
    def asked(digest):
        # related digests and wrong lengths, computed from the case
        return st.one_of(gen.digest(), st.sampled_from([b'', digest[:31], digest + b'\0', R.hash160(digest), R.sha256(digest), digest[::-1], digest * 2]),
                         st.integers(0, 255).map(lambda i: fx_seal.bitflip(digest, i)), st.integers(0, 40).map(lambda n: bytes(n)))
    return gen.digest().flatmap(lambda d: st.tuples(st.just(d), st.lists(edits(), min_size=1, max_size=3), st.integers(0, 2), st.lists(asked(d), max_size=2),
                                                     fx_seal.seal(), st.integers(0, 1000),
                                                     st.one_of(st.just(0), st.just(0), st.just(0), st.just(0), st.sampled_from([1, 127, 128, 252, 253, 255, 256, 257, 300])),
                                                     st.integers(0, 255)))


def shortdigest(case, T):
    """Scripts that would fit a digest of a wrong length"""
    d, seal = case
    scripts = [b'\x6a' + R.push(d), R.p2sh_script(R.hash160(d)), R.p2pkh_script(R.hash160(d))]
    tx = (1, [seal[:2] + (b'', 2**32 - 1)], [(0, s) for s in scripts], 0)
    for i in range(3):
        for v in views(fx_seal.r_witness(seal, 0, tx, i, tx)).values():
            eq(fx_seal.verdict(v.verify_hash, d) is True, len(d) == 32, 'digest of %d bytes, script %s' % (len(d), scripts[i].hex()))
    T.nt(len(d) != 32)


SUBS = [
    Sub('verify', verify, gen=verify_gen, quick=9000, heavy=True, optimized=300),
    Sub('shortdigest', shortdigest, gen=lambda: st.tuples(st.integers(0, 80).map(lambda n: bytes(range(n))), fx_seal.seal()), quick=300, optimized=60,
        enum=lambda: iter([(bytes((i + k) % 256 for i in range(n)), (b'\1' * 32, 0, bytes(16))) for n in list(range(140)) + [252, 253, 255, 256, 257, 512, 520, 521, 65536 + 32] for k in (0, 97)])),
    Sub('outofrange', outofrange, gen=lambda: st.tuples(gen.digest(), fx_seal.seal(), st.one_of(st.integers(0, 5), st.sampled_from([128, 255, 256, 257])), METHS), quick=600),
    Sub('toopruned', toopruned, gen=lambda: st.tuples(gen.digest(), fx_seal.seal(), METHS), quick=600),
    Sub('allbits', allbits, gen=lambda: st.tuples(gen.digest(), METHS, fx_seal.seal()), quick=120),
]
