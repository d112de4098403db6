"""Reference encodings and rules of the Bitcoin protocol, written from its documentation.

Structures are plain data:
  outpoint (hash, n)          input (hash, n, script, sequence)       output (value, script)
  tx (version, [input], [output], locktime)
  header (version, prev, merkle, time, bits, nonce)                   block (header, [tx])
Nothing here imports the code under test.
"""
import hashlib
import struct


def sha256(b):
    return hashlib.sha256(b).digest()


def sha256d(b):
    return sha256(sha256(b))


def ripemd160(b):
    return hashlib.new('ripemd160', b).digest()


def hash160(b):
    return ripemd160(sha256(b))


def compact(n):
    if n < 253:
        return bytes([n])
    if n < 2**16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 2**32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def u32(n):
    return n.to_bytes(4, 'little')


def i32(n):
    return n.to_bytes(4, 'little', signed=True)


def i64(n):
    return n.to_bytes(8, 'little', signed=True)


def ser_outpoint(o):
    return o[0] + u32(o[1])


def ser_script(s):
    return compact(len(s)) + s


def ser_txin(i):
    return i[0] + u32(i[1]) + ser_script(i[2]) + u32(i[3])


def ser_txout(o):
    return i64(o[0]) + ser_script(o[1])


def ser_tx(tx):
    return (i32(tx[0]) + compact(len(tx[1])) + b''.join(map(ser_txin, tx[1])) +
            compact(len(tx[2])) + b''.join(map(ser_txout, tx[2])) + u32(tx[3]))


def ser_header(h):
    return i32(h[0]) + h[1] + h[2] + u32(h[3]) + u32(h[4]) + u32(h[5])


def ser_block(b):
    return ser_header(b[0]) + compact(len(b[1])) + b''.join(map(ser_tx, b[1]))


def txid(tx):
    return sha256d(ser_tx(tx))


class Bad(Exception):
    """The bytes are not a valid encoding; kind is 'truncated' or 'size'"""
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


MAX_SIZE = 0x02000000


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0
        self.minimal = True

    def take(self, n):
        if n > MAX_SIZE:
            raise Bad('size')
        if self.i + n > len(self.b):
            raise Bad('truncated')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u32(self):
        return int.from_bytes(self.take(4), 'little')

    def i32(self):
        return int.from_bytes(self.take(4), 'little', signed=True)

    def i64(self):
        return int.from_bytes(self.take(8), 'little', signed=True)

    def compact(self):
        c = self.take(1)[0]
        if c < 253:
            return c
        n = {253: 2, 254: 4, 255: 8}[c]
        v = int.from_bytes(self.take(n), 'little')
        if len(compact(v)) != n + 1:
            self.minimal = False
        return v

    def script(self):
        return self.take(self.compact())

    def vector(self, f):
        n = self.compact()
        return [f() for _ in range(n)]

    def outpoint(self):
        return (self.take(32), self.u32())

    def txin(self):
        h, n = self.outpoint()
        s = self.script()
        return (h, n, s, self.u32())

    def txout(self):
        return (self.i64(), self.script())

    def tx(self):
        v = self.i32()
        vin = self.vector(self.txin)
        vout = self.vector(self.txout)
        return (v, vin, vout, self.u32())

    def header(self):
        return (self.i32(), self.take(32), self.take(32), self.u32(), self.u32(), self.u32())

    def block(self):
        h = self.header()
        return (h, self.vector(self.tx))


SER = {'outpoint': ser_outpoint, 'txin': ser_txin, 'txout': ser_txout, 'tx': ser_tx, 'header': ser_header, 'block': ser_block}


# Merkle trees

def merkle_levels(hashes):
    """All nodes, level by level, leaves first"""
    out = list(hashes)
    level = list(hashes)
    while len(level) > 1:
        if len(level) % 2:
            level = level + [level[-1]]
        level = [sha256d(level[i] + level[i + 1]) for i in range(0, len(level), 2)]
        out += level
    return out


# Compact targets

def target(bits):
    """(value, negative)"""
    exp = bits >> 24
    mant = bits & 0x7fffff
    v = mant * 256**(exp - 3) if exp >= 3 else mant // 256**(3 - exp)
    return v, bool(bits & 0x800000) and v != 0


# Scripts

def push(data):
    """Shortest push of a byte string, without using the small-number opcodes"""
    n = len(data)
    if n < 0x4c:
        return bytes([n]) + data
    if n <= 0xff:
        return b'\x4c' + bytes([n]) + data
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


def num(n):
    """Minimal little-endian sign-magnitude"""
    if n == 0:
        return b''
    m = abs(n)
    b = bytearray(m.to_bytes((m.bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0)
    if n < 0:
        b[-1] |= 0x80
    return bytes(b)


def unnum(b):
    if not b:
        return 0
    m = int.from_bytes(b, 'little')
    top = 1 << (8 * len(b) - 1)
    if m & top:
        return -(m - top)
    return m


def ops(script):
    """[(opcode, data or None, offset)] and, if the last push is cut off, (opcode, partial data, offset)"""
    out = []
    i = 0
    while i < len(script):
        at = i
        op = script[i]
        i += 1
        if op > 0x4e:
            out.append((op, None, at))
            continue
        if op < 0x4c:
            n = op
        else:
            w = {0x4c: 1, 0x4d: 2, 0x4e: 4}[op]
            if i + w > len(script):
                return out, (op, None, at)
            n = int.from_bytes(script[i:i + w], 'little')
            i += w
        data = script[i:i + n]
        if len(data) < n:
            return out, (op, data, at)
        i += n
        out.append((op, data, at))
    return out, None


def p2pkh_script(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh_script(h):
    return b'\xa9\x14' + h + b'\x87'


def is_p2sh(s):
    return len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87'


def sigops(script, accurate):
    got, bad = ops(script)
    n = 0
    last = None
    for op, data, _ in got:
        if op in (0xac, 0xad):
            n += 1
        elif op in (0xae, 0xaf):
            if accurate and last is not None and 0x51 <= last <= 0x60:
                n += last - 0x50
            else:
                n += 20
        last = op
    return n


# Signature hashes

SIGHASH_ALL, SIGHASH_NONE, SIGHASH_SINGLE, ANYONECANPAY = 1, 2, 3, 0x80


def strip_code_separators(script):
    """Only for scripts without a cut-off push"""
    got, bad = ops(script)
    assert bad is None
    ends = [at for _, _, at in got[1:]] + [len(script)]
    return b''.join(script[at:end] for (op, _, at), end in zip(got, ends) if op != 0xab)


def sighash(script, tx, i, hashtype):
    """-> (hash, error or None)"""
    one = (1).to_bytes(32, 'little')
    version, vin, vout, lock = tx
    if i >= len(vin):
        return one, 'input index'
    code = strip_code_separators(script)
    base = hashtype & 0x1f
    ins = []
    for j, (h, n, s, seq) in enumerate(vin):
        ins.append((h, n, code if j == i else b'', 0 if base in (SIGHASH_NONE, SIGHASH_SINGLE) and j != i else seq))
    outs = list(vout)
    if base == SIGHASH_NONE:
        outs = []
    elif base == SIGHASH_SINGLE:
        if i >= len(vout):
            return one, 'output index'
        outs = [(-1, b'')] * i + [vout[i]]
    if hashtype & ANYONECANPAY:
        ins = [ins[i]]
    return sha256d(ser_tx((version, ins, outs, lock)) + (hashtype & 0xffffffff).to_bytes(4, 'little')), None


# Base58

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    for c in b:
        if c:
            break
        s = '1' + s
    return s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    zeros = len(s) - len(s.lstrip('1'))
    return b'\0' * zeros + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(version, payload):
    b = bytes([version]) + payload
    return b58(b + sha256d(b)[:4])


# Context-free validity

COIN = 100000000
MAX_MONEY = 21000000 * COIN
MAX_BLOCK_SIZE = 1000000
MAX_BLOCK_SIGOPS = 20000
NULL = b'\0' * 32


def is_null(i):
    return i[0] == NULL and i[1] == 0xffffffff


def is_coinbase(tx):
    return len(tx[1]) == 1 and is_null(tx[1][0])


def tx_faults(tx):
    version, vin, vout, lock = tx
    out = []
    if not vin:
        out.append('no inputs')
    if not vout:
        out.append('no outputs')
    if len(ser_tx(tx)) > MAX_BLOCK_SIZE:
        out.append('size')
    total = 0
    for v, _ in vout:
        if v < 0:
            out.append('negative')
        if v > MAX_MONEY:
            out.append('too high')
        total += v
        if not 0 <= total <= MAX_MONEY:
            out.append('total')
    if len(set(i[:2] for i in vin)) != len(vin):
        out.append('duplicate inputs')
    if is_coinbase(tx):
        if not 2 <= len(vin[0][2]) <= 100:
            out.append('coinbase script')
    elif any(is_null(i) for i in vin):
        out.append('null outpoint')
    return out


POW_LIMIT = {'mainnet': 2**224 - 1, 'testnet': 2**224 - 1, 'regtest': 2**255 - 1}


def pow_ok(h, bits, net):
    t, _ = target(bits)
    return not bits & 0x800000 and 0 < t <= POW_LIMIT[net] and int.from_bytes(h, 'little') <= t


def header_faults(h, net, pow, now):
    out = []
    if pow and not pow_ok(sha256d(ser_header(h)), h[4], net):
        out.append('work')
    if h[3] > now + 7200:
        out.append('future')
    return out


def block_faults(b, net, pow, merkle, now):
    h, txs = b
    out = header_faults(h, net, pow, now)
    if not txs:
        return out + ['empty']
    if len(ser_block(b)) > MAX_BLOCK_SIZE:
        out.append('block size')
    if not is_coinbase(txs[0]):
        out.append('no coinbase')
    if any(is_coinbase(t) for t in txs[1:]):
        out.append('second coinbase')
    for t in txs:
        out += tx_faults(t)
    ids = [txid(t) for t in txs]
    if len(set(ids)) < len(ids):
        out.append('duplicate transaction')
    if sum(sigops(s, False) for t in txs for s in [i[2] for i in t[1]] + [o[1] for o in t[2]]) > MAX_BLOCK_SIGOPS:
        out.append('sigops')
    if merkle and merkle_levels(ids)[-1] != h[2]:
        out.append('merkle root')
    return out


def murmur3(seed, data):
    m = 0xffffffff
    rotl = lambda v, r: (v << r | v >> (32 - r)) & m
    h = seed
    words, tail = len(data) // 4, data[len(data) // 4 * 4:]
    for i in range(words):
        k = int.from_bytes(data[4 * i:4 * i + 4], 'little') * 0xcc9e2d51 & m
        k = rotl(k, 15) * 0x1b873593 & m
        h = rotl(h ^ k, 13) * 5 + 0xe6546b64 & m
    if tail:
        k = int.from_bytes(tail, 'little') * 0xcc9e2d51 & m
        h ^= rotl(k, 15) * 0x1b873593 & m
    h ^= len(data)
    h ^= h >> 16
    h = h * 0x85ebca6b & m
    h ^= h >> 13
    h = h * 0xc2b2ae35 & m
    return h ^ h >> 16
