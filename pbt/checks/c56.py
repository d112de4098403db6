import gc
import io
import struct
import tempfile
import tracemalloc

from hypothesis import strategies as st
import proofmarshal.serialize as ps
from bitcoin.core.serialize import SerializationError
from .. import gen, ref_btc as R, ref_pm, core
from ..core import Sub, fail, ok
from . import c53
from .c55 import effort

RULE = """Encodings of objects of all kinds (proofmarshal values, bit strings, proofs, trees, seals, maps; Bitcoin structures, messages, filters)
of which lengths and counts are replaced by enormous ones, bytes are changed, and parts are repeated up to ten thousand times, nested too, are read
from memory and from a file. Calls made and memory taken at any time must be within a constant for each byte there
is, plus what the protocol lets one ask for at most (32 MiB, from files only), and both must give the same. The outcome is an object or the error of its codec.
Non-trivial: a number replaced or a part repeated."""
ASSUMPTIONS = ['Memory is what Python allocates (tracemalloc)', 'At most 10000 times repeated',
               'Calls are counted, not their cost: assembling a base-128 integer of n bytes shifts integers of up to 7n bits']

HUGE = [2**15, 2**16, 2**24 + 1, 0x02000000, 0x02000001, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 2**36, 2**40, 2**50, 2**62, 2**63 - 1, 2**63, 2**64 - 1]
MORE = [2**64, 2**66, 2**100, 2**1000, 2**20000]
BITCOIN = ['address', 'inventory', 'locator', 'filter', 'count', 'string', 'message', 'outpoint', 'txin', 'txout', 'tx', 'header', 'block']


def spoil(kind, data, changes):
    b = data
    for how, pos, val, times in changes:
        i = pos % (len(b) + 1)
        if how == 'claim':
            n = HUGE[val % len(HUGE)] if kind in BITCOIN else (HUGE + MORE)[val % len(HUGE + MORE)]
            e = R.compact(n) if kind in BITCOIN else ref_pm.leb128(n)
            b = b[:i] + e + b[i + times % 3:]
        elif how == 'claim32':
            if kind == 'message':
                i = 16
            b = b[:i] + struct.pack('<I', HUGE[val % 8] & 0xffffffff) + b[i + 4:]
        elif how == 'repeat':
            b = b[:i] + b[i:i + 1 + val % 40] * times + b[i + 1 + val % 40:]
        elif how == 'nest':
            b = b[:1 + val % 3] * times + b
        elif how == 'cut':
            b = b[:i]
        else:
            b = gen.mutate(b, [(how, pos, val)])
        b = b[:60000]
    if kind == 'message' and len(b) >= 24 and any(c[0] != 'claim32' for c in changes):
        # so that it is not refused for its checksum
        b = b[:4] + data[4:16] + struct.pack('<I', len(b) - 24) + R.sha256d(b[24:])[:4] + b[24:]
    return b


def read(kind, v, fd):
    K = c53.KINDS[kind]
    try:
        r = K.raw(v, fd)
    except (ps.DeserializationError, SerializationError) as e:
        return ('refused', type(e).__name__)
    except ValueError as e:
        if kind != 'message' and kind not in BITCOIN:
            raise
        return ('refused', 'ValueError')
    return ('read', r)


def plain(o):
    if hasattr(o, 'hash') and isinstance(getattr(o, 'hash'), bytes) and not hasattr(o, 'type'):
        return (type(o).__name__, o.hash)
    if hasattr(o, 'serialize'):
        return (type(o).__name__, o.serialize())
    if hasattr(o, 'to_bytes') and not isinstance(o, int):
        return (type(o).__name__, o.to_bytes())
    return (type(o).__name__, repr(o))


def hostile(case, T):
    kind, v, changes = case
    data = spoil(kind, c53.KINDS[kind].enc(v), changes)
    n = len(data)
    calls, r = effort(read, kind, v, io.BytesIO(data))
    ok(calls <= 500 * n + 5000, 'reading %d bytes of %s made %d calls' % (n, kind, calls))
    if r[0] == 'read' and kind not in ('count', 'string', 'value', 'bits'):
        calls, r = effort(lambda: ('read', plain(r[1])))
        ok(calls <= 500 * n + 5000, 'hashing or writing what %d bytes of %s gave made %d calls' % (n, kind, calls))
    elif r[0] == 'read':
        r = ('read', plain(r[1]))
    T.label(kind, '%s %s' % (kind, r[0]), *[c[0] for c in changes])
    with tempfile.TemporaryFile() as f:
        f.write(data)
        f.seek(0)
        for what, fd, more in (('memory', io.BytesIO(data), 0), ('a file', f, 70 << 20 if kind in BITCOIN else 0)):
            tracemalloc.start(1)
            try:
                s = read(kind, v, fd)
                peak = tracemalloc.get_traced_memory()[1]
            finally:
                tracemalloc.stop()
            ok(peak <= 3000 * n + 500000 + more, 'reading %d bytes of %s from %s took %d bytes' % (n, kind, what, peak))
            if s[0] == 'read':
                s = ('read', plain(s[1]))
            ok(s == r, 'from %s: %s, before: %s' % (what, core.short(s), core.short(r)))
    T.nt(any(c[0] in ('claim', 'claim32', 'repeat', 'nest') for c in changes))


def cases():
    change = gen.mix(
        st.tuples(st.just('claim'), st.one_of(st.integers(0, 6), st.integers(0, 200)), st.integers(0, 43), st.integers(0, 2)),
        st.tuples(st.just('claim'), st.one_of(st.integers(0, 6), st.integers(0, 200)), st.integers(0, 43), st.integers(0, 2)),
        st.tuples(st.sampled_from(['repeat', 'nest']), st.one_of(st.integers(0, 6), st.integers(0, 200)), st.one_of(st.integers(0, 5), st.integers(0, 39)), st.sampled_from([2, 10, 100, 1000, 10000])),
        st.tuples(st.sampled_from(['claim32', 'cut', 'set', 'xor', 'del', 'ins']), st.integers(0, 200), st.integers(0, 255), st.just(1)))
    claims = st.tuples(st.just('claim32'), st.just(16), st.integers(0, 7), st.just(1))
    return st.sampled_from(c53.NAMES + ['message']).flatmap(lambda k: st.tuples(st.just(k), c53.KINDS[k].gen,
        st.lists(gen.mix(change, claims) if k == 'message' else change, min_size=1, max_size=3)))


SUBS = [Sub('hostile', hostile, gen=cases, quick=12000, thorough=60000)]
