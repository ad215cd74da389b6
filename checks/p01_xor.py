"""P01: legacy TCP transport."""
from __future__ import annotations

import asyncio
import errno
import importlib.util
import json
import struct
import sys

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, Violation, eq, judging, require
from net import Net

import kasa
from kasa import DeviceConfig, KasaException
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.protocols import IotProtocol
from kasa.transports import XorTransport
from kasa.transports.xortransport import XorEncryption

LEVEL = "fault_enumeration"
RULE = ("Cases are generated histories/strings; non-trivial = contains a fault, cancel, segmentation or "
        "non-ASCII/large payload.")
ASSUMPTIONS = ["asyncio streams are correct", "device answers each request at most once"]


# ------------------------------------------------------------ reference codec
def ref_cipher(plain: bytes) -> bytes:
    out, key = bytearray(), 0xAB
    for b in plain:
        key = b ^ key
        out.append(key)
    return bytes(out)


def ref_plain(cipher: bytes) -> bytes:
    out, key = bytearray(), 0xAB
    for c in cipher:
        out.append(c ^ key)
        key = c
    return bytes(out)


def ref_frame(text: str) -> bytes:
    raw = text.encode("utf-8")
    return struct.pack(">I", len(raw)) + ref_cipher(raw)


def _pure():
    """The same module loaded as if the C helper were not installed."""
    src = sys.modules[XorTransport.__module__].__file__
    spec = importlib.util.spec_from_file_location("kasa.transports._verif_pure_xor", src)
    mod = importlib.util.module_from_spec(spec)
    saved = sys.modules.get("kasa_crypt", False)
    sys.modules["kasa_crypt"] = None
    try:
        spec.loader.exec_module(mod)
    finally:
        if saved is False:
            sys.modules.pop("kasa_crypt", None)
        else:
            sys.modules["kasa_crypt"] = saved
    return mod.XorEncryption


_PURE = []


def check_codec(case, ctx):
    if not _PURE:
        _PURE.append(_pure())
    text = case["text"] * case["rep"]
    ctx.nontrivial(any(ord(c) > 127 for c in text) or len(text) > 200)
    for name, enc in (("c", XorEncryption), ("python", _PURE[0])):
        with judging(f"{name} codec"):
            eq(bytes(enc.encrypt(text)), ref_frame(text), f"{name} encrypt")
            eq(enc.decrypt(ref_cipher(text.encode())), text, f"{name} decrypt")
            eq(enc.decrypt(bytes(enc.encrypt(text))[4:]), text, f"{name} round trip")
    # the legacy name re-exported by the package
    eq(bytes(kasa.TPLinkSmartHomeProtocol.encrypt(text)), ref_frame(text), "legacy alias encrypt")


# ------------------------------------------------------------ histories
CONNECT = ["ok", "ok", "ok", "ok", "refused", "unreach", "hostdown", "reset", "stall", "slow"]
ANSWER = ["ok", "ok", "ok", "segment", "segment", "stall", "late", "reset", "reset_mid", "eof", "eof_mid",
          "garbage", "badutf", "empty", "short_len", "slow"]


def attempt():
    return st.fixed_dictionaries({
        "connect": st.sampled_from(CONNECT),
        "answer": st.sampled_from(ANSWER),
        "cuts": st.lists(st.integers(0, 4000), max_size=6),
        "gap": st.sampled_from([0.0, 0.0, 0.01, 0.2]),
    })


def histories():
    op = st.fixed_dictionaries({
        "req": gen.json_object(6),
        "resp": gen.json_object(8),
        "pad": st.sampled_from([0, 0, 0, 0, 0, 900, 70_000, 140_000]),
        "as_str": st.booleans(),
        "retry": st.integers(0, 3),
        "plan": st.lists(attempt(), min_size=1, max_size=5),
        "cancel": st.one_of(st.none(), st.none(), st.none(),
                            st.sampled_from([0.0, 0.0001, 0.005, 0.011, 0.1, 0.2, 0.5, 1.0, 1.5, 3.0, 6.0])),
        "pause": st.sampled_from([0.0, 0.0, 0.5, 5.0, 12.0]),
        "close": st.sampled_from([False, False, False, False, True]),
    })
    return st.fixed_dictionaries({
        "timeout": st.sampled_from([1, 2, 5, 10]),
        "port": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "ops": st.lists(op, min_size=1, max_size=5),
    })


class Peer:
    """In-memory device: executes the plan of the current operation."""

    def __init__(self, net, timeout):
        self.net = net
        self.timeout = timeout
        self.op = None
        self.n = -1              # attempt index within the op
        self.problems = []
        self.frames = []         # (op index, decoded)
        self.attempts = []
        self.opi = -1
        self.served = {}         # id(conn) -> bytes consumed

    def begin(self, i, op):
        self.opi, self.op = i, op
        self.n = -1
        self.attempts = []

    def plan(self):
        k = min(self.n, len(self.op["plan"]) - 1)
        return self.op["plan"][k]

    async def connect(self, conn):
        # every older connection must have been closed by the client first
        for c in self.net.conns:
            if not c.client_closed and not c.transport._lost:
                self.problems.append("a new connection was opened while an old one was still open")
        self.n += 1
        what = self.plan()["connect"]
        self.attempts.append(what)
        conn.fresh = True
        if what == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        if what == "unreach":
            raise OSError(errno.EHOSTUNREACH, "no route")
        if what == "hostdown":
            raise OSError(errno.EHOSTDOWN, "host down")
        if what == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if what == "stall":
            await asyncio.sleep(self.timeout * 3)
        if what == "slow":
            await asyncio.sleep(self.timeout * 0.5)

    def data(self, conn, data):
        done = self.served.get(id(conn), 0)
        buf = conn.data[done:]
        while len(buf) >= 4:
            ln = struct.unpack(">I", buf[:4])[0]
            if len(buf) < 4 + ln:
                if ln > 10_000_000:
                    self.problems.append(f"frame announces {ln} bytes")
                return
            frame, buf = buf[4:4 + ln], buf[4 + ln:]
            self.served[id(conn)] = self.served.get(id(conn), 0) + 4 + ln
            self.on_frame(conn, frame)

    def on_frame(self, conn, frame):
        if not conn.fresh:
            self.n += 1          # reused connection: a new attempt
            self.attempts.append("reuse")
        conn.fresh = False
        try:
            got = json.loads(ref_plain(frame).decode("utf-8"))
        except ValueError as ex:
            self.problems.append(f"request does not decode: {ex}")
            got = None
        self.frames.append((self.opi, got))
        p = self.plan()
        body = json.dumps(self.answer(), ensure_ascii=bool(len(p["cuts"]) % 2))
        out = ref_frame(body)
        kind = p["answer"]
        t = self.timeout
        if kind == "ok":
            conn.send(out, 0.001)
        elif kind == "slow":
            conn.send(out, t * 0.6)
        elif kind == "segment":
            cuts = sorted({c % (len(out) + 1) for c in p["cuts"]} | {2})
            pos, delay = 0, 0.001
            for c in [*cuts, len(out)]:
                if c > pos:
                    conn.send(out[pos:c], delay)
                    delay += p["gap"] * 0.5 * t / 10
                    pos = c
        elif kind == "stall":
            pass
        elif kind == "late":
            conn.send(out, t + 0.3 + p["gap"])
        elif kind == "reset":
            conn.reset(0.01)
        elif kind == "reset_mid":
            conn.send(out[: max(1, len(out) // 2)], 0.001)
            conn.reset(0.01)
        elif kind == "eof":
            conn.eof(0.01)
        elif kind == "eof_mid":
            conn.send(out[: max(1, len(out) - 1)], 0.001)
            conn.eof(0.01)
        elif kind == "garbage":
            conn.send(ref_frame(body[: max(1, len(body) // 2)] + "\x01"), 0.001)
        elif kind == "badutf":
            raw = b'{"a":"\xff\xfe"}'
            conn.send(struct.pack(">I", len(raw)) + ref_cipher(raw), 0.001)
        elif kind == "empty":
            conn.send(struct.pack(">I", 0), 0.001)
        elif kind == "short_len":
            conn.send(struct.pack(">I", len(out) - 5) + out[4:], 0.001)

    def answer(self):
        op = self.op
        return {"tag": self.opi, "data": op["resp"], "pad": "z" * op["pad"]}


RETRYABLE = {"reset", "reset_mid", "eof", "eof_mid", "garbage", "badutf", "empty", "short_len"}


def check_history(case, ctx):
    net = Net()
    timeout = case["timeout"]
    peer = Peer(net, timeout)
    port = case["port"] or 9999
    net.tcp[("10.0.0.1", port)] = peer
    faults = False

    async def main(loop):
        nonlocal faults
        cfg = DeviceConfig("10.0.0.1", timeout=timeout, port_override=case["port"])
        proto = IotProtocol(transport=XorTransport(config=cfg))
        for i, op in enumerate(case["ops"]):
            peer.begin(i, op)
            nframes = len(peer.frames)
            request = {"tag": i, "q": op["req"]}
            arg = json.dumps(request) if op["as_str"] else request
            t_start = loop.time()
            task = asyncio.ensure_future(proto.query(arg, retry_count=op["retry"]))
            if op["cancel"] is not None:
                loop.call_later(op["cancel"], task.cancel)
            try:
                res = ("ok", await task)
            except asyncio.CancelledError:
                if op["cancel"] is None:
                    raise Violation("query was cancelled by itself") from None
                res = ("cancelled", None)
            except KasaException as ex:
                res = ("timeout" if isinstance(ex, KasaTimeout) else "error", ex)
            ctx.label("res:" + res[0])
            require(not peer.problems, "wire problem", *peer.problems)
            with judging("frames"):
                for _, got in peer.frames[nframes:]:
                    eq(got, request, f"request {i} as received by the device")
            # reference outcome
            seen, outcome = 0, None
            for k in range(op["retry"] + 1):
                if k >= len(peer.attempts):
                    break
                p = op["plan"][min(k, len(op["plan"]) - 1)]
                con = peer.attempts[k]
                seen += 1
                if con in ("refused", "unreach", "hostdown"):
                    outcome = "error"
                    break
                if con == "reset":
                    outcome = "error"
                    continue
                if con == "stall":
                    outcome = "timeout"
                    continue
                a = p["answer"]
                if a in ("ok", "segment", "slow"):
                    outcome = "ok"
                    break
                outcome = "timeout" if a in ("stall", "late") else "error"
            if res[0] != "cancelled":
                eq(seen, len(peer.attempts), f"op {i}: number of attempts used")
                if outcome != "ok" and peer.attempts[-1] not in ("refused", "unreach", "hostdown"):
                    eq(len(peer.attempts), op["retry"] + 1, f"op {i}: attempts before giving up")
                eq(res[0], outcome, f"op {i}: outcome after attempts {peer.attempts}")
            if res[0] == "ok":
                with judging("answer"):
                    eq(res[1], peer.answer(), f"op {i}: answer")
            else:
                require(not net.open_conns,
                        f"op {i} ended with {res[0]} but the connection was left open")
            if res[0] != "ok" or op["pad"] or len(peer.attempts) > 1:
                faults = True
            for p in op["plan"][: len(peer.attempts)]:
                ctx.label("ans:" + p["answer"])
                if p["answer"] != "ok":
                    faults = True
            if op["close"]:
                await proto.close()
                require(not net.open_conns, "close() left a connection open")
            if op["pause"]:
                await asyncio.sleep(op["pause"])
            del t_start
        # a healthy device must answer now, whatever happened before
        peer.begin(len(case["ops"]), {"plan": [{"connect": "ok", "answer": "ok", "cuts": [], "gap": 0.0}],
                                      "resp": {"fin": 1}, "pad": 0})
        res = await proto.query({"final": 1}, retry_count=0)
        eq(res, peer.answer(), "answer to a final query on a healthy device")
        require(not peer.problems, "wire problem", *peer.problems)
        await proto.close()
        require(not net.open_conns, "close() left a connection open")

    vtime.run(main, net=net)
    ctx.nontrivial(faults)


SUBS = [
    Sub("codec", lambda: st.fixed_dictionaries({
        "text": st.one_of(gen.TEXT, st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=300)),
        "rep": st.sampled_from([1, 1, 1, 7, 500])}), check_codec, quick=2400, thorough=20000, shards=2,
        rule="text with non-ASCII characters or more than 200 characters"),
    Sub("history", histories, check_history, quick=4800, thorough=60000, shards=8,
        rule="history with a fault, cancel, segmentation, retry or large answer"),
]
