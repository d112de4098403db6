"""Reference model of proofmarshal's formats, written from its documentation.

Terms are plain tuples:  ('Name', field, field, ...) with fields in declared order;
schemas describe the fields.  Nothing here imports the code under test.
"""
import hashlib
import uuid


class Reject(Exception):
    """The bytes are not a valid encoding"""


class Truncated(Reject):
    pass


def sha(b):
    return hashlib.sha256(b).digest()


def leb128(n):
    out = bytearray()
    while True:
        n, low = divmod(n, 128)
        if n:
            out.append(low + 128)
        else:
            out.append(low)
            return bytes(out)


def tag(u):
    return uuid.UUID(u).bytes


def derive(t, sub):
    return sha(tag('8125d227-981c-4ca0-afa7-ab9911352c85') + t + sub)[:16]


class Reader:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Truncated()
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def uint(self):
        digits = []
        while True:
            c = self.take(1)[0]
            digits.append(c % 128)
            if c < 128:
                break
        if len(digits) > 1 and digits[-1] == 0:
            raise Reject('non-minimal')
        return sum(d << (7 * k) for k, d in enumerate(digits))

    def bool(self):
        c = self.take(1)
        if c == b'\xff':
            return True
        if c == b'\x00':
            return False
        raise Reject('bool')

    def done(self):
        if self.i != len(self.b):
            raise Reject('junk')


def pack_bits(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        if b:
            out[i // 8] |= 128 >> (i % 8)
    return bytes(out)


# Kinds of fields
#   ('uint', bits) ('max', largest) ('bool',) ('fixed', n) ('var', lo, hi) ('bits',)  plain data
#   ('varlen', ...)  length-prefixed opaque bytes without a limit
#   ('hashed', n)  n bytes on the wire, hash_of() of them in hashes
#   ('proof', [names])      value is a term of one of these schemas, no number on the wire (single proof class)
#   ('family', fam)         variant family
#   ('union', [alt, ...])   alternatives are ('proof', name) or ('family', fam)

def enc_plain(kind, v):
    k = kind[0]
    if k in ('uint', 'max'):
        return leb128(v)
    if k == 'bool':
        return b'\xff' if v else b'\x00'
    if k in ('fixed', 'hashed'):
        return v
    if k in ('var', 'varlen'):
        return leb128(len(v)) + v
    if k == 'bits':
        return leb128(len(v)) + pack_bits(v)
    raise KeyError(kind)


def dec_plain(kind, r):
    k = kind[0]
    if k == 'uint':
        v = r.uint()
        if v >= 2**kind[1]:
            raise Reject('range')
        return v
    if k == 'max':
        v = r.uint()
        if v > kind[1]:
            raise Reject('range')
        return v
    if k == 'bool':
        return r.bool()
    if k in ('fixed', 'hashed'):
        return r.take(kind[1])
    if k == 'varlen':
        return r.take(r.uint())
    if k == 'var':
        n = r.uint()
        if not kind[1] <= n <= kind[2]:
            raise Reject('length')
        return r.take(n)
    if k == 'bits':
        n = r.uint()
        b = r.take((n + 7) // 8)
        bits = tuple((b[i // 8] >> (7 - i % 8)) & 1 for i in range(n))
        if pack_bits(bits) != b:
            raise Reject('padding')
        return bits
    raise KeyError(kind)


PLAIN = ('uint', 'max', 'bool', 'fixed', 'var', 'varlen', 'bits', 'hashed')


def hash_of(v):
    return sha(b'hashed ' + v)


def enc_hash(kind, v):
    """What stands for a plain field in hashes"""
    return hash_of(v) if kind[0] == 'hashed' else enc_plain(kind, v)


class Schema:
    """A set of proof types: name -> (tag bytes, [(field, kind)]), and families: fam -> [names]"""
    def __init__(self):
        self.types = {}
        self.families = {}

    def add(self, name, tag, fields):
        self.types[name] = (tag, fields)

    def family(self, fam, famtag, variants):
        """variants: [(name, subtag, fields)]"""
        self.families[fam] = [v[0] for v in variants]
        for name, subtag, fields in variants:
            self.types[name] = (derive(subtag, famtag), fields)

    def family_of(self, name):
        for fam, names in self.families.items():
            if name in names:
                return fam
        return None

    # hashing
    def data_hash(self, term):
        fields = self.types[term[0]][1]
        h = hashlib.sha256()
        for (fname, kind), v in zip(fields, term[1:]):
            h.update(enc_hash(kind, v) if kind[0] in PLAIN else self.hash(v))
        return h.digest()

    def hash(self, term):
        return sha(self.types[term[0]][0] + self.data_hash(term))

    # the wire.  `used` is True (everything), None (nothing) or {field: used}
    def wire(self, term, used=True):
        name = term[0]
        fam = self.family_of(name)
        variant = leb128(self.families[fam].index(name)) if fam else b''
        if used is None:
            return b'\xff' + variant + self.data_hash(term)
        out = [b'\x00', variant]
        for (fname, kind), v in zip(self.types[name][1], term[1:]):
            if kind[0] in PLAIN:
                out.append(enc_plain(kind, v))
            else:
                sub = True if used is True else used.get(fname)
                out.append(self.wire_field(kind, v, sub))
        return b''.join(out)

    def wire_field(self, kind, v, used):
        if kind[0] == 'union':
            for i, alt in enumerate(kind[1]):
                if self.matches(alt, v):
                    return leb128(i) + self.wire(v, used)
            raise KeyError((kind, v[0]))
        return self.wire(v, used)

    def matches(self, alt, term):
        if alt[0] == 'proof':
            return term[0] == alt[1]
        return term[0] in self.families[alt[1]]

    # reading: returns ('Name', fields...) or ('PRUNED', name, data_hash)
    def read(self, kind, r):
        if kind[0] == 'union':
            i = r.uint()
            if i >= len(kind[1]):
                raise Reject('union')
            return self.read(kind[1][i], r)
        pruned = r.bool()
        if kind[0] == 'family':
            i = r.uint()
            if i >= len(self.families[kind[1]]):
                raise Reject('variant')
            name = self.families[kind[1]][i]
        else:
            name = kind[1]
        if pruned:
            return ('PRUNED', name, r.take(32))
        vals = []
        for fname, k in self.types[name][1]:
            vals.append(dec_plain(k, r) if k[0] in PLAIN else self.read(k, r))
        return (name,) + tuple(vals)

    def parse(self, kind, b):
        r = Reader(b)
        v = self.read(kind, r)
        r.done()
        return v

    def contains_pruned(self, v):
        if isinstance(v, tuple) and v and v[0] == 'PRUNED':
            return True
        return isinstance(v, tuple) and any(self.contains_pruned(x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def hash_read(self, v):
        """hash of something read, possibly pruned"""
        if v[0] == 'PRUNED':
            return sha(self.types[v[1]][0] + v[2])
        h = hashlib.sha256()
        for (fname, kind), x in zip(self.types[v[0]][1], v[1:]):
            h.update(enc_hash(kind, x) if kind[0] in PLAIN else self.hash_read(x))
        return sha(self.types[v[0]][0] + h.digest())


# Mountain ranges and radix trees

def mmr_variants(value_kind, fam):
    return [('%s.Empty' % fam, tag('390de307-8787-47b7-b25d-250aba02b1e5'), []),
            ('%s.Leaf' % fam, tag('4ea09c8e-87f5-4978-a829-78d42ab8638a'), [('value', value_kind)]),
            ('%s.Inner' % fam, tag('a7ca25ce-8fee-4063-b022-96b2dbcb392e'),
             [('left', ('family', fam)), ('right', ('family', fam)), ('length', ('uint', 64))])]


def mmr_split(n):
    """Items on the right: the smallest power of two below n dividing its binary representation, else half"""
    k = 1
    while k < n:
        if n & k:
            return k
        k *= 2
    return n // 2


def mmr_term(fam, values):
    n = len(values)
    if n == 0:
        return ('%s.Empty' % fam,)
    if n == 1:
        return ('%s.Leaf' % fam, values[0])
    k = mmr_split(n)
    return ('%s.Inner' % fam, mmr_term(fam, values[:n - k]), mmr_term(fam, values[n - k:]), n)


def mbt_variants(key_kind, value_kind, fam):
    return [('%s.Empty' % fam, tag('ca380e10-c7d5-44df-aef0-55bce2125329'), []),
            ('%s.Leaf' % fam, tag('f5cc855e-9d21-4f8d-ab42-7883c765c323'), [('key', key_kind), ('value', value_kind)]),
            ('%s.Inner' % fam, tag('66d74741-0ffd-4178-9a79-641a45e23dda'),
             [('prefix', ('bits',)), ('left', ('family', fam)), ('right', ('family', fam))])]


def bits_of(b):
    return tuple((c >> (7 - i)) & 1 for c in b for i in range(8))


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def mbt_term(fam, entries):
    """entries: list of (keybits, key, value), keybits distinct and of one length"""
    entries = sorted(entries)
    if not entries:
        return ('%s.Empty' % fam,)
    if len(entries) == 1:
        return ('%s.Leaf' % fam, entries[0][1], entries[0][2])
    p = common(entries[0][0], entries[-1][0])
    left = [e for e in entries if e[0][len(p)] == 0]
    right = [e for e in entries if e[0][len(p)] == 1]
    return ('%s.Inner' % fam, p, mbt_term(fam, left), mbt_term(fam, right))


def sha_stream(n):
    """n bytes without any pattern"""
    return b''.join(hashlib.sha256(b'stream %d' % i).digest() for i in range(n // 32 + 1))[:n]
