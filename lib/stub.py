"""A transport stand-in: hands every request to a Python callable and records calls."""
from __future__ import annotations

import asyncio
import json

from core import simulator
from kasa import DeviceConfig, KasaException
from kasa.transports import BaseTransport


class StubTransport(BaseTransport):
    DEFAULT_PORT = 4242

    def __init__(self, answer, host="10.0.0.2", config=None, batch_size=None):
        cfg = config or DeviceConfig(host, batch_size=batch_size)
        super().__init__(config=cfg)
        self.answer = answer        # callable(request object) -> object (or coroutine), may raise
        self.sent = []              # request objects in order
        self.events = []            # "send" / "reset" / "close"
        self.closed = 0
        self.busy = 0
        self.max_busy = 0

    @property
    def default_port(self):
        return self.DEFAULT_PORT

    @property
    def credentials_hash(self):
        return None

    async def send(self, request):
        obj = json.loads(request)
        self.sent.append(obj)
        self.events.append("send")
        self.busy += 1
        self.max_busy = max(self.max_busy, self.busy)
        try:
            await asyncio.sleep(0)
            with simulator(KasaException):
                res = self.answer(obj)
                if asyncio.iscoroutine(res):
                    res = await res
                return res
        finally:
            self.busy -= 1

    async def reset(self):
        self.events.append("reset")

    async def close(self):
        self.events.append("close")
        self.closed += 1
