"""In-memory network attached to the virtual event loop: TCP peers, UDP endpoint, fake aiohttp."""
from __future__ import annotations

import asyncio
import errno
import socket
import json as _json
import warnings
from types import SimpleNamespace

import aiohttp
from yarl import URL

from core import simulator


class FakeSocket:
    family = 2
    type = 1
    proto = 6

    def __init__(self, peer=None):
        self.opts = []
        self.peer = peer

    def setsockopt(self, *a):
        self.opts.append(a)

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def fileno(self):
        return -1


class MemTransport(asyncio.Transport):
    """Client side of an in-memory TCP connection."""

    def __init__(self, loop, protocol, conn):
        super().__init__({"socket": FakeSocket(conn.addr), "peername": conn.addr,
                          "sockname": ("127.0.0.1", 40000)})
        self._loop = loop
        self._protocol = protocol
        self._conn = conn
        self._closing = False
        self._lost = False

    def is_closing(self):
        return self._closing

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    def is_reading(self):
        return not self._closing

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._conn.client_eof = True

    def write(self, data):
        if self._closing or self._lost:
            return
        self._conn.on_client_data(bytes(data))

    def writelines(self, datas):
        self.write(b"".join(datas))

    def close(self):
        if self._closing:
            return
        self._closing = True
        self._conn.client_closed = True
        self._conn.on_client_close()
        self._loop.call_soon(self._connection_lost, None)

    def abort(self):
        self.close()

    def _connection_lost(self, exc):
        if self._lost:
            return
        self._lost = True
        self._closing = True
        self._protocol.connection_lost(exc)

    # called by the peer
    def feed(self, data):
        if not self._closing and not self._lost:
            self._protocol.data_received(data)

    def feed_eof(self):
        if not self._closing and not self._lost:
            keep = self._protocol.eof_received()
            if not keep:
                self._closing = True
                self._loop.call_soon(self._connection_lost, None)

    def reset(self):
        if not self._lost:
            self._closing = True
            self._connection_lost(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))


class Conn:
    """Server-side view of one TCP connection; subclass/override on_data."""

    def __init__(self, net, addr, n, kw):
        self.net = net
        self.addr = addr
        self.n = n
        self.kw = kw
        self.transport = None
        self.client_closed = False
        self.client_eof = False
        self.server_closed = False
        self.data = b""
        self.handler = None

    def on_client_data(self, data):
        self.data += data
        if self.handler is not None:
            self.handler.data(self, data)

    def on_client_close(self):
        if self.handler is not None and hasattr(self.handler, "closed"):
            self.handler.closed(self)

    # peer actions; actions of one connection happen strictly in the order they were issued
    _last = 0.0

    def _at(self, delay, fn, *args):
        when = max(self.net.loop.time() + delay, self._last + 1e-6)
        self._last = when
        self.net.loop.call_at(when, fn, *args)

    def send(self, data, delay=0.0):
        self._at(delay, lambda: self.transport.feed(data))

    def eof(self, delay=0.0):
        self.server_closed = True
        self._at(delay, lambda: self.transport.feed_eof())

    def reset(self, delay=0.0):
        self.server_closed = True
        self._at(delay, lambda: self.transport.reset())


class MemUDP(asyncio.DatagramTransport):
    def __init__(self, net, protocol, local):
        super().__init__({"socket": FakeSocket(), "sockname": local})
        self.net = net
        self.protocol = protocol
        self.closed = False
        self.sent = []

    def sendto(self, data, addr=None):
        if self.closed:
            return
        t = self.net.loop.time()
        self.sent.append((t, bytes(data), addr))
        if self.net.udp_on_send is not None:
            self.net.udp_on_send(self, bytes(data), addr)

    def is_closing(self):
        return self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    def deliver(self, data, addr):
        if not self.closed:
            self.protocol.datagram_received(data, addr)


class Net:
    def __init__(self):
        self.loop = None
        self.tcp = {}            # (host, port) -> handler with .connect(conn) (may raise / delay)
        self.conns = []
        self.udp = []
        self.udp_on_send = None
        self.udp_on_open = None
        self.dns = {}

    def resolve(self, host):
        ip = self.dns.get(host, host)
        if ip is None:
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        return ip

    async def tcp_connect(self, loop, factory, host, port, kw):
        handler = self.tcp.get((host, port)) or self.tcp.get((host, None)) or self.tcp.get((None, port))
        if handler is None:
            await asyncio.sleep(0)
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connect call failed")
        conn = Conn(self, (host, port), len(self.conns), kw)
        conn.handler = handler
        res = handler.connect(conn)
        if asyncio.iscoroutine(res):
            await res
        protocol = factory()
        tr = MemTransport(loop, protocol, conn)
        conn.transport = tr
        self.conns.append(conn)
        protocol.connection_made(tr)
        if hasattr(handler, "connected"):
            handler.connected(conn)
        return tr, protocol

    async def udp_endpoint(self, loop, factory, local_addr, remote_addr, kw):
        protocol = factory()
        tr = MemUDP(self, protocol, local_addr)
        self.udp.append(tr)
        try:
            await asyncio.sleep(0)
        except BaseException:      # as asyncio does
            tr.close()
            raise
        protocol.connection_made(tr)
        if self.udp_on_open is not None:
            self.udp_on_open(tr)
        return tr, protocol

    @property
    def open_conns(self):
        return [c for c in self.conns if not c.client_closed and not c.transport._lost]


# --------------------------------------------------------------------- HTTP
class Reply:
    """An HTTP answer: status, body, cookies (dict) and behaviour."""

    def __init__(self, status=200, body=b"", cookies=None, headers=None, delay=0.0, exc=None,
                 exc_on_read=None):
        if isinstance(body, (dict, list)):
            body = _json.dumps(body).encode()
        elif isinstance(body, str):
            body = body.encode()
        self.status = status
        self.body = body
        self.cookies = cookies or {}
        self.headers = headers or {}
        self.delay = delay
        self.exc = exc
        self.exc_on_read = exc_on_read


class FakeResponse:
    def __init__(self, req, reply):
        self.status = reply.status
        self.ok = reply.status < 400
        self.reason = "OK" if self.ok else "ERR"
        self._reply = reply
        self.headers = reply.headers
        self.method = req.method
        self.url = URL(req.url)
        self.cookies = reply.cookies
        self.content_type = reply.headers.get("Content-Type", "application/json")
        self.closed = False
        self.released = False

    async def read(self):
        if self._reply.exc_on_read is not None:
            raise self._reply.exc_on_read
        return self._reply.body

    async def text(self, encoding="utf-8", errors="strict"):
        return (await self.read()).decode(encoding or "utf-8", errors)

    async def json(self, *, encoding=None, loads=_json.loads, content_type=None):
        return loads((await self.read()).decode())

    def raise_for_status(self):
        if not self.ok:
            raise aiohttp.ClientResponseError(None, (), status=self.status)

    def release(self):
        self.released = True

    def close(self):
        self.closed = True

    async def wait_for_close(self):
        return None

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.release()


class _Ctx:
    def __init__(self, coro):
        self._coro = coro

    def __await__(self):
        return self._coro.__await__()

    async def __aenter__(self):
        self._resp = await self._coro
        return self._resp

    async def __aexit__(self, *a):
        self._resp.release()


class FakeJar:
    """Host-keyed cookie jar with the part of aiohttp's interface that is needed."""

    def __init__(self):
        self.cookies = {}

    def clear(self, predicate=None):
        self.cookies = {}

    def clear_domain(self, domain):
        self.cookies.pop(domain, None)

    def update_cookies(self, cookies, response_url=URL()):
        host = URL(response_url).host
        self.cookies.setdefault(host, {}).update(dict(cookies))

    def filter_cookies(self, request_url=URL()):
        host = URL(request_url).host
        return {k: SimpleNamespace(key=k, value=v)
                for k, v in self.cookies.get(host, {}).items()}

    def __iter__(self):
        for host, cs in self.cookies.items():
            for k, v in cs.items():
                yield SimpleNamespace(key=k, value=v)

    def __len__(self):
        return sum(len(c) for c in self.cookies.values())


class Request:
    def __init__(self, method, url, params, data, json, headers, cookies, ssl, timeout, session):
        self.method = method
        self.url = str(url)
        u = URL(str(url))
        if params:
            u = u.update_query(params)
        self.full_url = str(u)
        self.u = u
        self.host = u.host
        self.port = u.port
        self.path = u.path
        self.query = dict(u.query)
        if json is not None:
            self.body = _json.dumps(json).encode()
        elif data is None:
            self.body = b""
        elif isinstance(data, str):
            self.body = data.encode()
        elif isinstance(data, (bytes, bytearray)):
            self.body = bytes(data)
        else:
            self.body = _json.dumps(data).encode()
        self.headers = {str(k).lower(): str(v) for k, v in dict(headers or {}).items()}
        self.cookies = dict(cookies or {})
        self.ssl = ssl
        self.timeout = timeout
        self.session = session

    def json(self):
        return _json.loads(self.body)


class HttpNet:
    """Shared record of sessions and requests; ``handler(request) -> Reply`` answers."""

    def __init__(self, handler=None):
        self.handler = handler
        self.requests = []
        self.sessions = []
        self.in_flight = 0
        self.max_in_flight = 0

    def session(self, **kw):
        s = FakeSession(self)
        self.sessions.append(s)
        return s


with warnings.catch_warnings():
    warnings.simplefilter("ignore")

    class FakeSession(aiohttp.ClientSession):
        """Stands in for aiohttp.ClientSession; routes requests to HttpNet.handler."""

        def __init__(self, net=None, *a, **kw):  # noqa: D107 - no super().__init__ on purpose
            object.__setattr__(self, "net", net)
            object.__setattr__(self, "_jar", FakeJar())
            object.__setattr__(self, "is_closed", False)
            object.__setattr__(self, "kw", kw)

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

        def __del__(self, *a, **k):
            pass

        @property
        def closed(self):
            return self.is_closed

        @property
        def cookie_jar(self):
            return self._jar

        async def close(self):
            self.is_closed = True

        def detach(self):
            self.is_closed = True

        def post(self, url, **kw):
            return _Ctx(self._do("POST", url, **kw))

        def get(self, url, **kw):
            return _Ctx(self._do("GET", url, **kw))

        def put(self, url, **kw):
            return _Ctx(self._do("PUT", url, **kw))

        def request(self, method, url, **kw):
            return _Ctx(self._do(method, url, **kw))

        async def _do(self, method, url, *, params=None, data=None, json=None, headers=None,
                      cookies=None, ssl=None, timeout=None, **kw):
            if self.is_closed:
                raise RuntimeError("Session is closed")
            net = self.net
            if hasattr(data, "__aiter__"):
                data = b"".join([c async for c in data])
            req = Request(method, url, params, data, json, headers, cookies, ssl, timeout, self)
            jarred = {c: m.value for c, m in self._jar.filter_cookies(req.full_url).items()}
            jarred.update(req.cookies)
            req.cookies = jarred
            net.requests.append(req)
            net.in_flight += 1
            net.max_in_flight = max(net.max_in_flight, net.in_flight)
            try:
                await asyncio.sleep(0)
                with simulator():
                    reply = net.handler(req)
                    if asyncio.iscoroutine(reply):
                        reply = await reply
                total = getattr(timeout, "total", timeout)
                if reply.delay:
                    if total is not None and reply.delay >= total:
                        await asyncio.sleep(total)
                        raise asyncio.TimeoutError()
                    await asyncio.sleep(reply.delay)
                if reply.exc is not None:
                    raise reply.exc
                if reply.cookies:
                    self._jar.update_cookies(reply.cookies, URL(req.full_url))
                return FakeResponse(req, reply)
            finally:
                net.in_flight -= 1


_REAL_SESSION = aiohttp.ClientSession


def patch_default_session(net):
    """Make ``aiohttp.ClientSession()`` (sessions the library opens itself) create fakes of ``net``.

    Returns an undo callable.
    """

    def factory(*a, **kw):
        s = FakeSession(net, **kw)
        net.sessions.append(s)
        return s

    class Meta(type):
        def __call__(cls, *a, **kw):
            return factory(*a, **kw)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, _REAL_SESSION)

        def __instancecheck__(cls, obj):
            return isinstance(obj, _REAL_SESSION)

    aiohttp.ClientSession = Meta("ClientSession", (), {})
    return lambda: setattr(aiohttp, "ClientSession", _REAL_SESSION)


class TcpJson:
    """A legacy device on a TCP port: answers XOR-coded, length-prefixed JSON; ``handler(obj) -> obj``."""

    def __init__(self, handler):
        self.handler = handler
        self.requests = []

    def connect(self, conn):
        conn.buf = b""

    def data(self, conn, data):
        conn.buf += data
        while len(conn.buf) >= 4:
            n = int.from_bytes(conn.buf[:4], "big")
            if len(conn.buf) < 4 + n:
                return
            body, conn.buf = conn.buf[4:4 + n], conn.buf[4 + n:]
            key, plain = 171, bytearray()
            for b in body:
                plain.append(key ^ b)
                key = b
            with simulator():
                req = _json.loads(plain)
                self.requests.append(req)
                ans = _json.dumps(self.handler(req)).encode()
            key, out = 171, bytearray()
            for b in ans:
                key ^= b
                out.append(key)
            conn.send(len(out).to_bytes(4, "big") + bytes(out))
