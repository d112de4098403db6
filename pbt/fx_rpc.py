"""A stand-in for the network below http.client: requests are parsed from the bytes sent, replies are raw HTTP."""
import base64
import http.client
import io
import json
from decimal import Decimal


class Request:
    def __init__(self, where, raw):
        head, _, self.body = raw.partition(b'\r\n\r\n')
        lines = head.decode('latin1').split('\r\n')
        self.where = where                       # (host, port, tls, timeout)
        self.method, self.path, self.version = lines[0].split(' ')
        self.headers = {}
        for l in lines[1:]:
            k, _, v = l.partition(':')
            k = k.strip().lower()
            assert k not in self.headers or k == 'host', 'header %s twice' % k
            self.headers[k] = v.strip()

    @property
    def json(self):
        return json.loads(self.body.decode('utf8'), parse_float=Decimal)

    @property
    def auth(self):
        kind, _, v = self.headers['authorization'].partition(' ')
        assert kind == 'Basic'
        return base64.b64decode(v, validate=True).decode('utf8')


class FakeSocket:
    def __init__(self, net, where):
        self.net, self.where, self.out, self.reply = net, where, b'', b''

    def sendall(self, data):
        self.out += bytes(data)

    def makefile(self, *a, **k):
        raw, self.out = self.out, b''
        self.net.requests.append(Request(self.where, raw))
        status, body = self.net.replies.pop(0)
        return io.BytesIO(b'HTTP/1.1 %d Whatever\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n' % (status, len(body)) + body)

    def close(self):
        pass

    shutdown = setsockopt = settimeout = lambda self, *a: None


class Network:
    """with Network() as net: net.replies.append((status, bytes)); ...; net.requests"""
    def __enter__(self):
        self.requests, self.replies = [], []
        self.saved = http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect
        net = self

        def connector(tls):
            def connect(conn):
                conn.sock = FakeSocket(net, (conn.host, conn.port, tls, conn.timeout))
            return connect
        http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect = connector(False), connector(True)
        return self

    def __exit__(self, *a):
        http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect = self.saved

    def reply(self, result, error=None, status=200, **extra):
        """result is JSON text"""
        self.replies.append((status, ('{"result": %s, "error": %s, "id": 1}' % (result, error or 'null')).encode('utf8')))
