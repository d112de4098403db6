import io
import struct

from hypothesis import strategies as st
import bitcoin
from bitcoin import MainParams, TestNetParams, RegTestParams
from bitcoin.core.serialize import SerializationError, SerializationTruncationError
from bitcoin.messages import (MsgSerializable, msg_version, msg_verack, msg_addr, msg_alert, msg_inv, msg_getdata, msg_getblocks,
                              msg_getheaders, msg_headers, msg_tx, msg_block, msg_getaddr, msg_ping, msg_pong, msg_mempool, messagemap)
from bitcoin.net import CAddress, CInv, CBlockLocator, CAlert, CUnsignedAlert
from .. import gen, ref_btc as R, fx_btc as F
from ..core import Sub, eq, ok, raises, outcome

RULE = """Messages of all fifteen kinds with boundary, random and empty fields, version messages of every protocol variant,
framed for each network, alone and in streams mixed with unknown commands; frames with any byte changed (every bit of sample frames), cut at any point,
with rewritten lengths, checksums or commands, and re-framed cut payloads. Compared with an independent encoder. Also the
address, inventory, locator and alert structures alone; lists of up to 65537 differing items and strings of up to a megabyte. Non-trivial: a payload with a list or nested structure, or damage."""
ASSUMPTIONS = ['Messages are framed for the main network unless parameters are passed', 'Padding after the NUL that ends a command is not claimed to be checked',
               'Inventory hashes and locator entries are 32 bytes, addresses IPv4', 'Protocol version 10300 is read as 300, as in the reference client']

PARAMS = {'mainnet': MainParams, 'testnet': TestNetParams, 'regtest': RegTestParams}
MAGIC = {'mainnet': bytes.fromhex('f9beb4d9'), 'testnet': bytes.fromhex('0b110907'), 'regtest': bytes.fromhex('fabfb5da')}
CLASSES = {c.command: c for c in (msg_version, msg_verack, msg_addr, msg_alert, msg_inv, msg_getdata, msg_getblocks, msg_getheaders,
                                  msg_headers, msg_tx, msg_block, msg_getaddr, msg_ping, msg_pong, msg_mempool)}
COMMANDS = [b'version', b'verack', b'addr', b'alert', b'inv', b'getdata', b'getblocks', b'getheaders', b'headers', b'tx', b'block', b'getaddr', b'ping',
            b'pong', b'mempool']


# ---- reference payloads of plain data

def e_addr(a, time=True):
    t, services, reserved, ip, port = a
    return (struct.pack('<I', t) if time else b'') + struct.pack('<Q', services) + reserved + bytes(ip) + struct.pack('>H', port)


def e_vec(f, xs):
    return R.compact(len(xs)) + b''.join(f(x) for x in xs)


def e_str(s):
    return R.compact(len(s)) + s


def e_inv(i):
    return struct.pack('<i', i[0]) + i[1]


def e_locator(l):
    return struct.pack('<i', l[0]) + e_vec(bytes, l[1])


def e_unsigned(a):
    return (struct.pack('<iqqii', *a[:5]) + e_vec(lambda i: struct.pack('<i', i), a[5]) + struct.pack('<ii', *a[6:8]) + e_vec(e_str, a[8]) +
            struct.pack('<i', a[9]) + e_str(a[10]) + e_str(a[11]) + e_str(a[12]))


def e_version(v):
    ver, services, time, to, frm, nonce, sub, height = v
    out = struct.pack('<iQq', ver, services, time) + e_addr(to, False)
    if ver >= 106:
        out += e_addr(frm, False) + struct.pack('<Q', nonce) + e_str(sub)
        if ver >= 209:
            out += struct.pack('<i', height)
    return out


EMPTY = (b'verack', b'getaddr', b'mempool')


def payload(m):
    cmd, d = m
    if cmd in EMPTY:
        return b''
    if cmd in (b'ping', b'pong'):
        return struct.pack('<Q', d)
    if cmd == b'version':
        return e_version(d)
    if cmd == b'addr':
        return e_vec(e_addr, d)
    if cmd in (b'inv', b'getdata'):
        return e_vec(e_inv, d)
    if cmd in (b'getblocks', b'getheaders'):
        return e_locator(d[0]) + d[1]
    if cmd == b'headers':
        return e_vec(lambda h: R.ser_block((h, [])), d)
    if cmd == b'tx':
        return R.ser_tx(d)
    if cmd == b'block':
        return R.ser_block(d)
    if cmd == b'alert':
        return e_str(d[0]) + e_str(d[1])
    raise KeyError(cmd)


def frame(net, cmd, body):
    return MAGIC[net] + cmd.ljust(12, b'\0') + struct.pack('<I', len(body)) + R.sha256d(body)[:4] + body


# ---- real objects

def r_addr(a):
    c = CAddress()
    c.nTime, c.nServices, c.pchReserved, c.ip, c.port = a[0], a[1], a[2], '.'.join(map(str, a[3])), a[4]
    return c


def p_addr(c, time=True):
    return (c.nTime if time else 0, c.nServices, c.pchReserved, tuple(map(int, c.ip.split('.'))), c.port)


def r_inv(i):
    c = CInv()
    c.type, c.hash = i
    return c


def r_locator(l):
    c = CBlockLocator()
    c.nVersion, c.vHave = l[0], list(l[1])
    return c


def r_unsigned(a):
    c = CUnsignedAlert()
    (c.nVersion, c.nRelayUntil, c.nExpiration, c.nID, c.nCancel, c.setCancel, c.nMinVer, c.nMaxVer, c.setSubVer, c.nPriority,
     c.strComment, c.strStatusBar, c.strReserved) = a
    return c


def p_unsigned(c):
    return (c.nVersion, c.nRelayUntil, c.nExpiration, c.nID, c.nCancel, c.setCancel, c.nMinVer, c.nMaxVer, c.setSubVer, c.nPriority,
            c.strComment, c.strStatusBar, c.strReserved)


def build(m):
    cmd, d = m
    r = CLASSES[cmd]()
    if cmd in (b'ping', b'pong'):
        r.nonce = d
    elif cmd == b'version':
        r.nVersion, r.nServices, r.nTime = d[:3]
        r.addrTo = r_addr(d[3])
        r.addrFrom = r_addr(d[4]) if d[4] is not None else None
        r.nNonce, r.strSubVer, r.nStartingHeight = d[5:]
    elif cmd == b'addr':
        r.addrs = [r_addr(a) for a in d]
    elif cmd in (b'inv', b'getdata'):
        r.inv = [r_inv(i) for i in d]
    elif cmd in (b'getblocks', b'getheaders'):
        r.locator, r.hashstop = r_locator(d[0]), d[1]
    elif cmd == b'headers':
        r.headers = [F.r_block((h, [])) for h in d]
    elif cmd == b'tx':
        r.tx = F.r_tx(d)
    elif cmd == b'block':
        r.block = F.r_block(d)
    elif cmd == b'alert':
        r.alert.vchMsg, r.alert.vchSig = d
    return r


def plain(r):
    cmd = r.command
    if cmd in EMPTY:
        return (cmd, None)
    if cmd in (b'ping', b'pong'):
        return (cmd, r.nonce)
    if cmd == b'version':
        return (cmd, (r.nVersion, r.nServices, r.nTime, p_addr(r.addrTo, False), None if r.addrFrom is None else p_addr(r.addrFrom, False),
                      r.nNonce, r.strSubVer, r.nStartingHeight))
    if cmd == b'addr':
        return (cmd, [p_addr(a) for a in r.addrs])
    if cmd in (b'inv', b'getdata'):
        return (cmd, [(i.type, i.hash) for i in r.inv])
    if cmd in (b'getblocks', b'getheaders'):
        return (cmd, ((r.locator.nVersion, r.locator.vHave), r.hashstop))
    if cmd == b'headers':
        ok(all(not h.vtx for h in r.headers), 'headers with transactions')
        return (cmd, [F.p_header(h) for h in r.headers])
    if cmd == b'tx':
        return (cmd, F.p_tx(r.tx))
    if cmd == b'block':
        return (cmd, F.p_block(r.block))
    if cmd == b'alert':
        return (cmd, (r.alert.vchMsg, r.alert.vchSig))


def norm(m):
    """What a reader gets"""
    cmd, d = m
    if cmd in EMPTY:
        return (cmd, None)
    if cmd == b'version':
        d = list(d)
        if d[0] == 10300:
            d[0] = 300
        z = lambda a: (0,) + tuple(a[1:])
        d[3] = z(d[3])
        d[4] = z(d[4]) if d[0] >= 106 else None
        if d[0] < 106:
            d[5] = d[6] = None
        if d[0] < 209:
            d[7] = None
        return (cmd, tuple(d))
    return m


def same(r, m, what):
    ok(type(r) is CLASSES[m[0]], '%s: %s instead of %s' % (what, type(r).__name__, m[0]))
    eq(plain(r), norm(m), what)


def one(case, T):
    net, m = case
    cmd = m[0]
    r = build(m)
    want = frame(net, cmd, payload(m))
    eq(r.to_bytes(PARAMS[net]()), want, 'frame of %s' % cmd)
    main = frame('mainnet', cmd, payload(m))
    eq(r.to_bytes(), main, 'frame by default')
    eq(r.serialize(), main, 'serialize')
    back = MsgSerializable.stream_deserialize(io.BytesIO(want), PARAMS[net]())
    same(back, m, 'read back on %s' % net)
    for what, x in (('from_bytes', MsgSerializable.from_bytes(main)), ('from_bytes of the class', CLASSES[cmd].from_bytes(main)),
                    ('deserialize', MsgSerializable.deserialize(main)), ('with a protocol version', MsgSerializable.from_bytes(main, protover=60001))):
        same(x, m, what)
        again = norm(m)
        eq(x.to_bytes(), frame('mainnet', cmd, payload(again)), '%s: written again' % what)
    if norm(m) == m:
        ok(back == r and not (back != r), 'not equal')
    T.label(cmd.decode(), net)
    T.nt(cmd not in EMPTY + (b'ping', b'pong'))


def changed(case, T):
    """One message object is given other contents again and again"""
    net, ms, how, read = case
    cmd = ms[0][0]
    r = build(ms[0]) if not read else MsgSerializable.from_bytes(frame('mainnet', cmd, payload(ms[0])))
    other = build(ms[-1])
    for n, m in enumerate(ms):
        if n:
            new = build(m)
            for k, v in vars(new).items():
                old = getattr(r, k, None)
                if how & 1 and isinstance(old, list):
                    old[:] = v
                elif how & 2 and hasattr(v, '__dict__') and type(old) is type(v):
                    for kk, vv in vars(v).items():
                        setattr(old, kk, vv)
                else:
                    setattr(r, k, v)
            eq(r.to_bytes(PARAMS[net]()), frame(net, cmd, payload(m)), 'frame of the changed message')
            eq(r.to_bytes(), frame('mainnet', cmd, payload(m)), 'frame by default')
            eq(r.serialize(), frame('mainnet', cmd, payload(m)), 'serialize')
            ok((r == other) == (payload(m) == payload(ms[-1])), 'equality')
            ok((r != other) == (payload(m) != payload(ms[-1])), 'inequality')
        elif norm(m) == m:
            eq(r.to_bytes(PARAMS[net]()), frame(net, cmd, payload(m)), 'frame')
            eq(r.to_bytes(), frame('mainnet', cmd, payload(m)), 'frame by default')
            hash(r)
        else:
            r.to_bytes()
    T.label(cmd.decode(), 'read' if read else 'built')
    T.nt(len({payload(m) for m in ms}) > 1)


UNKNOWN = [b'', b'x', b'filterload', b'merkleblock', b'twelve-bytes', b'\xff\xfe\x80', b'PING', b'pingg', b'pin', b'versio', b'reject', b'\0ping', b'\0\0version', b'\0verack', b' ping', b'verack2']


def streams(case, T):
    net, items, cut = case
    data, ends = b'', []
    for it in items:
        if it[0] == 'unknown':
            data += frame(net, it[1], it[2])
        else:
            data += frame(net, it[0], payload(it))
        ends.append(len(data))
    f = io.BytesIO(data)
    p = PARAMS[net]()
    for it, end in zip(items, ends):
        r = MsgSerializable.stream_deserialize(f, p)
        if it[0] == 'unknown':
            eq(r, None, 'unknown command %r' % it[1])
        else:
            same(r, it, 'in a stream')
        eq(f.tell(), end, 'position in the stream')
    raises(SerializationTruncationError, MsgSerializable.stream_deserialize, f, p, what='end of the stream')
    # a stream cut inside some message
    cut = cut % len(data) if data else 0
    if data:
        f = io.BytesIO(data[:cut])
        for it, end in zip(items, ends):
            if end <= cut:
                r = MsgSerializable.stream_deserialize(f, p)
                if it[0] != 'unknown':
                    same(r, it, 'in a stream that is cut later')
            else:
                raises(SerializationTruncationError, MsgSerializable.stream_deserialize, f, p, what='cut stream')
                break
    T.label('%d messages' % len(items), 'unknown' if any(it[0] == 'unknown' for it in items) else 'known only')
    T.nt(len(items) > 1)


def damaged(case, T):
    net, m, kind, pos, val = case
    cmd = m[0]
    body = payload(m)
    good = frame(net, cmd, body)
    p = PARAMS[net]()
    read = lambda b, q=p: MsgSerializable.stream_deserialize(io.BytesIO(b), q)
    T.label(kind)
    T.nt()
    if kind == 'net':
        other = sorted(PARAMS)[pos % 3]
        if other != net:
            raises(ValueError, read, good, PARAMS[other](), what='message of another network')
            if net != 'mainnet':
                raises(ValueError, MsgSerializable.from_bytes, good, what='not the main network')
        return
    if kind == 'cut':
        raises(SerializationTruncationError, read, good[:pos % len(good)], what='cut after %d of %d' % (pos % len(good), len(good)))
        return
    if kind == 'length':
        n = val
        b = good[:16] + struct.pack('<I', n) + good[20:]
        if n == len(body):
            same(read(b), m, 'right length')
        elif n > R.MAX_SIZE:
            e = raises(SerializationError, read, b, what='absurd length %d' % n)
            ok(not isinstance(e, SerializationTruncationError), 'absurd length %d: %r' % (n, e))
            T.label('absurd')
        elif n > len(body):
            raises(SerializationTruncationError, read, b, what='length %d' % n)
        else:
            raises(ValueError, read, b, what='length %d' % n)
        return
    if kind == 'payload cut':
        # well framed, but the payload is cut
        if body:
            b = frame(net, cmd, body[:pos % len(body)])
            raises(SerializationTruncationError, read, b, what='payload of %s cut' % cmd)
        return
    if kind == 'command':
        new = UNKNOWN[pos % len(UNKNOWN)]
        eq(read(frame(net, new, body)), None, 'unknown command')
        new = COMMANDS[pos % len(COMMANDS)]
        b = frame(net, new, body)
        got = outcome(read, b)
        ok(got[0] == 'ok' and type(got[1]) is CLASSES[new] or got[0] == 'exc' and isinstance(got[1], (SerializationError, ValueError)), 'payload of %s as %s: %s' % (cmd, new, type(got[1])))
        return
    # one byte changed
    at = pos % len(good)
    b = good[:at] + bytes([good[at] ^ (val % 255 + 1)]) + good[at + 1:]
    if at < 4:
        raises(ValueError, read, b, what='magic')
        T.label('magic')
    elif at < 16:
        if at <= 4 + len(cmd):
            c2 = b[4:16].split(b'\0')[0]
            if c2 not in CLASSES:
                eq(read(b), None, 'changed command')
                T.label('command byte')
    elif at < 20:
        n = struct.unpack('<I', b[16:20])[0]
        raises(SerializationError if n > len(body) else ValueError, read, b, what='length')
        T.label('length byte')
    else:
        raises(ValueError, read, b, what='checksum or payload')
        T.label('checksum byte' if at < 24 else 'payload byte')


def parts(case, T):
    kind, d = case
    if kind == 'addr':
        c = r_addr(d)
        eq(c.serialize(), e_addr(d), 'address')
        eq(p_addr(CAddress.deserialize(e_addr(d))), d, 'address read back')
        f = io.BytesIO()
        c.stream_serialize(f, True)
        eq(f.getvalue(), e_addr(d, False), 'address without time')
        x = CAddress.stream_deserialize(io.BytesIO(f.getvalue()), True)
        eq(p_addr(x), (0,) + d[1:], 'address without time read back')
        f = io.BytesIO()
        old = CAddress(31401)
        old.nTime, old.nServices, old.pchReserved, old.ip, old.port = c.nTime, c.nServices, c.pchReserved, c.ip, c.port
        eq(old.serialize(), e_addr(d, False), 'address for an old protocol')
        old.protover = 31402
        eq(old.serialize(), e_addr(d), 'address for the first protocol with times')
        cls, data = CAddress, e_addr(d)
        # what is not set stays IPv4-mapped, without a time
        c = CAddress()
        c.nServices, c.ip, c.port = d[1], '.'.join(map(str, d[3])), d[4]
        eq(c.serialize(), e_addr((0, d[1], b'\0' * 10 + b'\xff\xff') + d[3:]), 'address of which only the services, host and port are given')
    elif kind == 'inv':
        cls, data = CInv, e_inv(d)
        eq(r_inv(d).serialize(), data, 'inventory')
        x = CInv.deserialize(data)
        eq((x.type, x.hash), d, 'inventory read back')
    elif kind == 'locator':
        cls, data = CBlockLocator, e_locator(d)
        # without a hash to stop at
        for m in (msg_getblocks(), msg_getheaders()):
            m.locator = r_locator(d)
            eq(m.to_bytes(), frame('mainnet', m.command, data + bytes(32)), '%s without a stop' % m.command)
        eq(r_locator(d).serialize(), data, 'locator')
        x = CBlockLocator.deserialize(data)
        eq((x.nVersion, x.vHave), d, 'locator read back')
    elif kind == 'unsigned':
        cls, data = CUnsignedAlert, e_unsigned(d)
        eq(r_unsigned(d).serialize(), data, 'alert contents')
        eq(p_unsigned(CUnsignedAlert.deserialize(data)), d, 'alert contents read back')
        # inside a signed alert, inside a message
        sig = b'\5' * (len(data) % 80)
        m = msg_alert()
        m.alert.vchMsg, m.alert.vchSig = data, sig
        back = MsgSerializable.from_bytes(m.to_bytes())
        eq(p_unsigned(CUnsignedAlert.deserialize(back.alert.vchMsg)), d, 'alert from a message')
        eq(back.alert.vchSig, sig, 'signature from a message')
    a, b = cls.deserialize(data), cls.deserialize(data)
    ok(a == b and not (a != b), 'equality')
    eq(a.GetHash(), R.sha256d(data), 'hash')
    for n in sorted({0, len(data) // 2, len(data) - 1}):
        raises(SerializationTruncationError, cls.deserialize, data[:n], what='cut')
    # lists of two objects are independent
    x, y = cls(), cls()
    for k, v in x.__dict__.items():
        if isinstance(v, list):
            v.append(1)
            ok(not y.__dict__[k] and not cls().__dict__[k], 'objects share a list')
    T.label(kind)
    T.nt()


def long_enum():
    for cmd in (b'addr', b'inv', b'getdata', b'getblocks', b'getheaders', b'headers'):
        for n in (5, 9, 17, 33, 65, 101, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 2000, 2001, 4097):
            yield cmd, n
    for cmd in (b'inv', b'getblocks'):
        for n in (32768, 50000, 50001, 65535, 65536, 65537):
            yield cmd, n
    for cmd in (b'alert', b'version', b'subver', b'cancel', b'strings'):
        for n in list(range(1, 34)) + [63, 64, 65, 75, 76, 77, 100, 101, 127, 128, 129, 252, 253, 254, 255, 256, 257, 300, 512, 513, 1000, 4096, 4097]:
            yield cmd, n
    for cmd in (b'alert', b'version', b'strings', b'tx', b'block'):
        for n in (32767, 32768, 65535, 65536, 65537, 70000, 2**20):
            yield cmd, n


def long(case, T):
    """Lists and strings of every length that matters, with items that differ and are out of order"""
    cmd, n = case
    h = lambda i: (i * 0x9E3779B1 + 5 & 0xffffffff).to_bytes(4, 'big') + bytes(24) + i.to_bytes(4, 'little')
    s = (R.sha256(b'%d' % n) * (n // 32 + 1))[:n]
    net = sorted(PARAMS)[n % 3]
    if cmd == b'addr':
        d = [(i * 77, i, b'\0' * 10 + b'\xff\xff' if i % 3 else h(i)[:12], (10, i >> 16, i >> 8 & 255, i & 255), i * 31 & 65535) for i in range(n)]
    elif cmd in (b'inv', b'getdata'):
        d = [(i % 5, h(i)) for i in range(n)]
    elif cmd in (b'getblocks', b'getheaders'):
        d = ((70002, [h(i) for i in range(n)]), h(n))
    elif cmd == b'headers':
        d = [(2, h(i), h(i + 1), i, 0x1d00ffff, i * 3) for i in range(n)]
    elif cmd == b'alert':
        d = (s, s[::-1])
    elif cmd == b'version':
        d = (70002, 1, 1400000000, A, A, 9, s, 5)
    elif cmd == b'tx':
        d = (1, [(b'\1' * 32, 0, s, 5)], [(5, s[::-1])], 0)
    elif cmd == b'block':
        d = (HEAD, [X, (1, [(b'\1' * 32, 0, s, 5)], [(5, s[::-1])], 0), X])
    else:
        u = [1, 2**40, 2**41, 77, 66, [5, 3, 5], 1, 2, [b'/b/', b'/a/'], 9, b'comment', b'status', b'']
        if cmd == b'subver':
            u[8] = [b'/%d/' % (i * 7919 % 1009) for i in range(n)]
        elif cmd == b'cancel':
            u[5] = [(i * 7919 % 1009) - 500 for i in range(n)]
        else:
            u[10], u[11], u[12] = s, s[:n // 2], s[::-1]
        parts(('unsigned', tuple(u)), T)
        return
    one((net, (cmd, d)), T)


def defaults(case, T):
    cls = CLASSES[case]
    ok(messagemap.get(case) is cls, 'not in the message map')
    a, b = cls(), cls()
    if case not in (b'inv', b'getdata'):
        back = MsgSerializable.from_bytes(a.to_bytes())
        ok(type(back) is cls, 'type')
        eq(plain(back), norm(plain(a)), 'default message')
    def nodes(path, x):
        if isinstance(x, list):
            yield path, x
        elif hasattr(x, '__dict__') and not isinstance(x, (bytes, type)) and isinstance(getattr(x, '__dict__'), dict):
            if path:
                yield path, x
            for k in sorted(vars(x)):
                for y in nodes(path + (k,), vars(x)[k]):
                    yield y
    # changing one part in place shows nowhere else, in this message or in another
    one_, two, three = cls(), cls(), cls()
    if case not in (b'inv', b'getdata', b'block', b'headers', b'tx'):
        for path, x in list(nodes((), one_)):
            before = [plain(two)] + [(p, repr(sorted(vars(y).items())) if not isinstance(y, list) else list(y)) for p, y in nodes((), one_)]
            if isinstance(x, list):
                x.append(1)
            else:
                for k, v in list(vars(x).items()):
                    if isinstance(v, int) and not isinstance(v, bool):
                        try:
                            setattr(x, k, v + 1)
                        except AttributeError:
                            pass
            now = [plain(two)] + [(p, repr(sorted(vars(y).items())) if not isinstance(y, list) else list(y)) for p, y in nodes((), one_)]
            eq(now[0], before[0], 'two messages share a part')
            for (p, u), (_, w) in zip(before[1:], now[1:]):
                ok(p[:len(path)] == path or path[:len(p)] == p or u == w, 'changing %r of a message changes %r' % (path, p))
    eq(plain(b), plain(three) if case != b'version' else plain(b), 'a message made later differs')
    for k, v in a.__dict__.items():
        if isinstance(v, list):
            v.append(1)
            eq(b.__dict__[k], [], 'two messages share a list')
    if case in (b'ping', b'pong'):
        eq(cls(nonce=77).nonce, 77, 'nonce argument')
    eq(sorted(messagemap), sorted(COMMANDS), 'message map')
    T.nt()


# ---- strategies

B = st.booleans()
U16 = st.one_of(st.sampled_from([0, 1, 255, 256, 8333, 65535]), st.integers(0, 65535))
U64 = st.one_of(st.sampled_from([0, 1, 2**32 - 1, 2**32, 2**63, 2**64 - 1]), st.integers(0, 2**64 - 1))
IP = st.tuples(*[st.one_of(st.sampled_from([0, 1, 127, 255]), st.integers(0, 255))] * 4)
RES = st.one_of(st.just(b'\0' * 10 + b'\xff\xff'), gen.fixed(12))
ADDR = st.tuples(F.u32(), U64, RES, IP, U16)
INV = st.tuples(st.one_of(st.integers(0, 4), F.i32()), F.hash32())
LOC = st.tuples(F.i32(), gen.mix(st.lists(F.hash32(), max_size=4), st.sampled_from([252, 253, 254]).map(lambda n: [bytes([n]) * 32] * n)))
STR = gen.blob(300)
UNS = st.tuples(F.i32(), F.i64(), F.i64(), F.i32(), F.i32(), st.lists(F.i32(), max_size=4), F.i32(), F.i32(), st.lists(gen.blob(40), max_size=4), F.i32(), STR, STR, STR)
VERS = st.one_of(st.sampled_from([60002, 70002, 209, 208, 210, 106, 105, 107, 300, 10300, 10299, 10301, 0, -1, 31402, 2**31 - 1]), st.integers(0, 80000))
VERSION = st.tuples(VERS, U64, F.i64(), ADDR, ADDR, U64, STR, F.i32())


def strip(v):
    """None for what old versions do not have, as a message read from such a peer"""
    v = list(v)
    if v[0] < 106:
        v[4] = v[5] = v[6] = None
    if v[0] < 209:
        v[7] = None
    return tuple(v)


BODY = {b'verack': st.none(), b'getaddr': st.none(), b'mempool': st.none(), b'ping': U64, b'pong': U64, b'version': gen.mix(VERSION, VERSION.map(strip)),
        b'addr': gen.mix(st.lists(ADDR, max_size=4), st.tuples(ADDR, st.sampled_from([252, 253, 1000])).map(lambda t: [t[0]] * t[1])),
        b'inv': st.lists(INV, max_size=4), b'getdata': st.lists(INV, max_size=4), b'getblocks': st.tuples(LOC, F.hash32()), b'getheaders': st.tuples(LOC, F.hash32()),
        b'headers': st.lists(F.header(), max_size=4), b'tx': F.tx(), b'block': F.block(3), b'alert': st.tuples(STR, STR)}
MSG = gen.mix(*[st.tuples(st.just(c), BODY[c]) for c in COMMANDS])
NET = st.sampled_from(sorted(PARAMS))
UNK = st.tuples(st.just('unknown'), st.one_of(st.sampled_from(UNKNOWN), st.binary(min_size=1, max_size=12).filter(lambda b: b not in CLASSES and b'\0' not in b)), st.binary(max_size=20))
LENS = st.one_of(st.sampled_from([0, 1, R.MAX_SIZE - 1, R.MAX_SIZE, R.MAX_SIZE + 1, 2**31 - 1, 2**31, 2**32 - 1]), st.integers(0, 400), st.integers(0, 2**32 - 1))
KIND = st.sampled_from(['byte', 'byte', 'byte', 'byte', 'net', 'cut', 'cut', 'payload cut', 'payload cut', 'command'])
ANY = st.one_of(st.sampled_from(range(24)), st.sampled_from(range(24, 400)), st.integers(0, 100000))

A = (5, 1, b'\0' * 10 + b'\xff\xff', (127, 0, 0, 1), 8333)
X = (1, [(b'\1' * 32, 0, b'\x51', 5)], [(5, b'\x51')], 0)
HEAD = (2, b'\2' * 32, b'\3' * 32, 1400000000, 0x1d00ffff, 77)
SAMPLE = {b'verack': None, b'getaddr': None, b'mempool': None, b'ping': 7, b'pong': 2**63, b'version': (70002, 1, 1400000000, A, A, 9, b'/x/', 5), b'addr': [A, A],
          b'inv': [(1, b'\4' * 32)], b'getdata': [(2, b'\4' * 32)], b'getblocks': ((60002, [b'\5' * 32]), b'\6' * 32), b'getheaders': ((60002, []), b'\6' * 32),
          b'headers': [HEAD], b'tx': X, b'block': (HEAD, [X]), b'alert': (b'abc', b'sig')}


def bits_enum():
    for c in COMMANDS:
        for at in range(24):
            yield c, at


def header_bits(case, T):
    """Every bit of the frame of one message of every kind"""
    cmd, at = case
    m = (cmd, SAMPLE[cmd])
    n = len(frame('mainnet', cmd, payload(m)))
    for bit in range(8):
        damaged((sorted(PARAMS)[at % 3], m, 'byte', at, (1 << bit) - 1), T)
    damaged((sorted(PARAMS)[at % 3], m, 'byte', at, 254), T)
    damaged((sorted(PARAMS)[at % 3], m, 'byte', 24 + at % max(1, n - 24), 1 << at % 8), T)


SUBS = [
    Sub('long', long, enum=long_enum),
    Sub('bits', header_bits, enum=bits_enum),
    Sub('messages', one, gen=st.tuples(NET, MSG), quick=5400),
    Sub('changed', changed, gen=gen.mix(*[st.tuples(NET, st.lists(BODY[c].map(lambda d, c=c: (c, d)), min_size=2, max_size=4), st.integers(0, 3), B) for c in COMMANDS if c not in EMPTY]), quick=1800),
    Sub('streams', streams, gen=st.tuples(NET, st.lists(gen.mix(MSG, MSG, MSG, UNK), max_size=5), ANY), quick=1500),
    Sub('damaged', damaged, gen=gen.mix(st.tuples(NET, MSG, KIND, ANY, ANY), st.tuples(NET, MSG, KIND, ANY, ANY), st.tuples(NET, MSG, st.just('length'), ANY, LENS)), quick=4500),
    Sub('parts', parts, gen=gen.mix(st.tuples(st.just('addr'), ADDR), st.tuples(st.just('inv'), INV), st.tuples(st.just('locator'), LOC), st.tuples(st.just('unsigned'), UNS)), quick=2400),
    Sub('defaults', defaults, enum=lambda: COMMANDS),
]
