"""Virtual clock and a deterministic, in-memory asyncio event loop.

While ``CLOCK.active`` the functions ``time.time``, ``time.monotonic``, ``time.perf_counter`` and
``datetime.now`` follow the virtual clock; otherwise they are the real ones.  The loop never sleeps:
when nothing is ready it jumps to the next timer.  TCP connections and UDP endpoints are served by
an in-memory network attached to the loop.
"""
from __future__ import annotations

import asyncio
import contextlib
import datetime as _dt
import os
import random
import secrets
import selectors
import time as _time

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
REAL_PERF = _time.perf_counter
REAL_DT = _dt.datetime
REAL_DATE = _dt.date
REAL_URANDOM = os.urandom

DEFAULT_WALL = 1_735_732_800.0  # 2025-01-01 12:00:00 UTC


class Clock:
    def __init__(self):
        self.active = False
        self.mono = 1000.0
        self.offset = DEFAULT_WALL - 1000.0
        self.rng = random.Random(0)

    def reset(self, wall=DEFAULT_WALL, mono=1000.0, seed=0):
        self.mono = mono
        self.offset = wall - mono
        self.rng = random.Random(seed)

    @property
    def wall(self):
        return self.mono + self.offset

    def set_wall(self, wall):
        self.offset = wall - self.mono


CLOCK = Clock()


def _v_time():
    return CLOCK.wall if CLOCK.active else REAL_TIME()


def _v_mono():
    return CLOCK.mono if CLOCK.active else REAL_MONO()


def _v_perf():
    return CLOCK.mono if CLOCK.active else REAL_PERF()


def _v_urandom(n):
    return CLOCK.rng.randbytes(n) if CLOCK.active else REAL_URANDOM(n)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        if cls is VDatetime:
            return isinstance(obj, REAL_DT)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is VDatetime:
            return issubclass(sub, REAL_DT)
        return type.__subclasscheck__(cls, sub)


class VDatetime(REAL_DT, metaclass=_DTMeta):
    """datetime whose constructors of 'now' follow the virtual clock; yields plain datetimes."""

    def __new__(cls, *a, **kw):
        return REAL_DT.__new__(REAL_DT, *a, **kw)

    @classmethod
    def now(cls, tz=None):
        if not CLOCK.active:
            return REAL_DT.now(tz)
        return REAL_DT.fromtimestamp(CLOCK.wall, tz)

    @classmethod
    def utcnow(cls):
        if not CLOCK.active:
            return REAL_DT.utcnow()
        return REAL_DT.utcfromtimestamp(CLOCK.wall)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return REAL_DT.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return REAL_DT.utcfromtimestamp(t)

    @classmethod
    def fromisoformat(cls, s):
        return REAL_DT.fromisoformat(s)

    @classmethod
    def strptime(cls, s, f):
        return REAL_DT.strptime(s, f)

    @classmethod
    def combine(cls, *a, **k):
        return REAL_DT.combine(*a, **k)


class _DateMeta(type):
    def __instancecheck__(cls, obj):
        if cls is VDate:
            return isinstance(obj, REAL_DATE)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is VDate:
            return issubclass(sub, REAL_DATE)
        return type.__subclasscheck__(cls, sub)


class VDate(REAL_DATE, metaclass=_DateMeta):
    def __new__(cls, *a, **kw):
        return REAL_DATE.__new__(REAL_DATE, *a, **kw)

    @classmethod
    def today(cls):
        return VDatetime.now().date()

    @classmethod
    def fromtimestamp(cls, t):
        return REAL_DATE.fromtimestamp(t)

    @classmethod
    def fromisoformat(cls, s):
        return REAL_DATE.fromisoformat(s)


for _c, _n in ((VDatetime, "datetime"), (VDate, "date")):
    _c.__name__ = _c.__qualname__ = _n
    _c.__module__ = "datetime"

_installed = False


def install():
    """Install the clock; call before importing kasa."""
    global _installed
    if _installed:
        return
    _installed = True
    # Import the heavy third-party users of datetime first: they keep the real classes.
    import aiohttp  # noqa: F401
    import asyncclick  # noqa: F401
    import cryptography.hazmat.primitives.asymmetric.rsa  # noqa: F401
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import mashumaro.core.meta.types.pack  # noqa: F401
    import mashumaro.core.meta.types.unpack  # noqa: F401
    with contextlib.suppress(ImportError):
        import mashumaro.mixins.orjson  # noqa: F401
    import zoneinfo  # noqa: F401

    _time.time = _v_time
    _time.monotonic = _v_mono
    _time.perf_counter = _v_perf
    os.urandom = _v_urandom
    secrets.token_bytes = lambda n=32: _v_urandom(32 if n is None else n)
    secrets.token_hex = lambda n=32: _v_urandom(32 if n is None else n).hex()
    import uuid

    _real_uuid4 = uuid.uuid4

    def _v_uuid4():
        if not CLOCK.active:
            return _real_uuid4()
        return uuid.UUID(bytes=CLOCK.rng.randbytes(16), version=4)

    uuid.uuid4 = _v_uuid4
    _dt.datetime = VDatetime
    _dt.date = VDate


class Hang(Exception):
    """The loop has nothing left to run while the main task is unfinished, or never ends."""


class _VSelector(selectors._BaseSelectorImpl):
    def __init__(self, loop):
        super().__init__()
        self.vloop = loop

    def select(self, timeout=None):
        lp = self.vloop
        lp.steps += 1
        if lp.steps > lp.max_steps:
            raise Hang(f"no end after {lp.max_steps} loop iterations")
        if timeout is None:
            raise Hang("deadlock: no task can make progress")
        if timeout > 0:
            CLOCK.mono += timeout
            if CLOCK.mono - lp.t0 > lp.max_virtual:
                raise Hang(f"still running after {lp.max_virtual} virtual seconds")
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps=400_000, max_virtual=400 * 86400.0):
        self.steps = 0
        self.max_steps = max_steps
        self.max_virtual = max_virtual
        self.t0 = CLOCK.mono
        super().__init__(_VSelector(self))
        self._clock_resolution = 1e-9
        self.net = None
        self.unhandled = []
        self.set_exception_handler(lambda lp, ctx: self.unhandled.append(ctx))

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def _write_to_self(self):
        pass

    def time(self):
        return CLOCK.mono

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as ex:  # noqa: BLE001
            fut.set_exception(ex)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        import socket

        net = self.net
        if net is not None:
            ip = net.resolve(host)
        else:
            ip = host
        return [(socket.AF_INET, type or socket.SOCK_DGRAM, proto, "", (ip, port))]

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        if self.net is None:
            raise OSError(113, "No route to host (virtual)")
        return await self.net.tcp_connect(self, protocol_factory, host, port, kw)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None,
                                       remote_addr=None, **kw):
        if self.net is None:
            raise OSError(101, "Network is unreachable (virtual)")
        return await self.net.udp_endpoint(self, protocol_factory, local_addr, remote_addr, kw)


def run(main, *, net=None, wall=DEFAULT_WALL, seed=0, max_steps=400_000, max_virtual=400 * 86400.0,
        reset=True):
    """Run ``main(loop)`` (a coroutine function) to the end in virtual time."""
    if reset:
        CLOCK.reset(wall=wall, seed=seed)
    CLOCK.active = True
    loop = VLoop(max_steps=max_steps, max_virtual=max_virtual)
    loop.net = net
    if net is not None:
        net.loop = loop
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main(loop))
    finally:
        try:
            loop.steps = 0
            loop.max_steps = 20_000
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in tasks:
                t.cancel()
            if tasks:
                try:
                    loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
                except BaseException:  # noqa: BLE001
                    pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except BaseException:  # noqa: BLE001
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()
            CLOCK.active = False
