"""P18: connecting never leaks and ends with a usable device or a library error."""
from __future__ import annotations

import asyncio
import base64
import functools
import json
import os

from hypothesis import strategies as st

import disco
import env
import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from net import FakeSession, HttpNet, Net, Reply, patch_default_session
from p03_aes import KEYS
from servers import AesServer, CameraServer, KlapServer, LinkieServer, SslServer, exc_by_name

from kasa import (Credentials, Device, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily,
                  Discover, KasaException)

LEVEL = "fault_enumeration"
RULE = "A failure or cancellation at a generated step of connecting to simulated devices of every connection type."
ASSUMPTIONS = ["TCP connections and HTTP sessions are in-memory stand-ins that count opens and closes",
               "simulated devices seeded from the repository's recordings"]
HOST = "10.0.0.2"
ACC = ("user@example.com", "correct horse")
F, E = DeviceFamily, DeviceEncryptionType
CONN = {
    "xor": (F.IotSmartPlugSwitch, E.Xor, None, False),
    "klap1": (F.IotSmartPlugSwitch, E.Klap, None, False),
    "klap2": (F.SmartTapoPlug, E.Klap, 2, False),
    "aes": (F.SmartTapoPlug, E.Aes, 2, False),
    "token": (F.SmartTapoRobovac, E.Aes, 2, True),
    "cam": (F.SmartIpCamera, E.Aes, 2, True),
    "linkie": (F.IotIpCamera, E.Aes, None, True),
}
ROBOVAC = [n for n in sorted(smartsim.fixtures()) if n.startswith("RV")]
PLUGS = [n for n in sorted(smartsim.fixtures()) if n.split("(")[0] in
         ("P110", "P100", "L530E", "KS225", "P300", "H100", "S500D", "EP25", "L900-5", "KS240")]
#: devices whose class discovery by attempt can identify
EXC = ["disconnected", "oserror", "connector", "servertimeout", "timeout", "payload", "value"]


def fault():
    return st.one_of(
        st.tuples(st.just("exc"), st.sampled_from(EXC)),
        st.tuples(st.just("status"), st.sampled_from([400, 403, 404, 500, 503])),
        st.tuples(st.just("bytes"), st.sampled_from([b"", b"{}", b"\xff\xfe\x00", b"[]", b'{"error_code": -1}'])),
        st.just(("hang",)), st.just(("reset",)), st.just(("eof",)),
        st.tuples(st.just("app"), st.sampled_from([-1002, -1, -40401, 1, -1301, -1501])),
        st.just(("notype",)),
    )


def cases():
    return st.sampled_from(sorted(CONN)).flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k),
        "fixture": st.sampled_from(names(k)),
        "faults": st.lists(st.tuples(st.integers(0, 9), fault()), max_size=2),
        "forever": st.booleans(),
        "cancel": st.one_of(st.none(), st.none(), st.floats(0, 2).map(lambda x: round(x, 2))),
        "own": st.booleans(), "account": st.sampled_from(["right", "right", "right", "right", "wrong", "none"]),
        "how": st.sampled_from(["connect", "connect", "connect", "all", "single"]),
        "seed": st.integers(0, 2**31), "again": st.booleans(),
    }))


def names(k):
    if k == "xor":
        return sorted(iotsim.fixtures())
    if k == "klap1":                    # the families known with this connection
        return iotsim.names("plug")
    if k == "token":
        return ROBOVAC
    if k == "cam":
        return sorted(smartsim.cam_fixtures())
    if k == "linkie":
        return ["EC60(US)_4.0_2.3.22"]
    return PLUGS


@functools.lru_cache(None)
def camera():
    with open(os.path.join(env.FIXTURES, "iotcam", "EC60(US)_4.0_2.3.22.json")) as f:
        return json.load(f)


class CamSim:
    """Legacy camera: sections and commands as recorded."""

    def answer(self, req):
        out = {}
        for mod, cmds in req.items():
            src = camera().get(mod)
            if src is None:
                out[mod] = {"err_code": -1, "err_msg": "module not support"}
            else:
                out[mod] = {c: src.get(c, {"err_code": -2, "err_msg": "member not support"}) for c in cmds}
        return out


class World:
    """One host; counts exchanges and damages some."""

    def __init__(self, case, net):
        self.case, self.net = case, net
        self.n = -1
        self.on = True
        self.hit = 0
        k = case["kind"]
        seed = case["seed"]
        if k in ("xor", "klap1"):
            self.sim = iotsim.IotSim(case["fixture"])
        elif k == "linkie":
            self.sim = CamSim()
        else:
            self.sim = smartsim.SmartSim(case["fixture"])
        kw = dict(host=HOST, seed=seed, app=self.app)
        self.pending = None
        self.scheme, self.port = "http", 80
        self.server = None
        if k == "klap1":
            self.server = KlapServer(1, *ACC, **kw)
        elif k == "klap2":
            self.server = KlapServer(2, *ACC, **kw)
        elif k == "aes":
            self.server = AesServer(2, *ACC, **kw)
        elif k == "token":
            self.scheme, self.port = "https", 4433
            self.server = SslServer(*ACC, port=4433, **kw)
        elif k == "cam":
            self.scheme, self.port = "https", 443
            self.server = CameraServer(*ACC, port=443, **kw)
        elif k == "linkie":
            self.scheme, self.port = "https", 10443
            self.server = LinkieServer(port=10443, **kw)
        else:
            net.tcp[(HOST, 9999)] = self
        self.http = HttpNet(self.handle)

    def app(self, req):
        f, self.pending = self.pending, None
        if f and f[0] == "app":
            self.hit += 1
            if self.case["kind"] in ("xor", "klap1", "linkie"):
                return {k: {"err_code": f[1], "err_msg": "x"} for k in req}
            return {"error_code": f[1]}
        ans = self.sim.answer(req)
        if f and f[0] == "notype" and self.case["kind"] in ("xor", "klap1"):
            self.hit += 1
            return strip_type(ans)
        return ans

    def fault(self):
        self.n += 1
        if not self.on:
            return None
        fs = dict(reversed(self.case["faults"]))
        if self.n in fs:
            return fs[self.n]
        if fs and self.case["forever"] and self.n > max(fs):
            return fs[max(fs)]
        return None

    # ---- HTTP
    def handle(self, req):
        u = req.u
        if self.server is None or (u.scheme, u.port) != (self.scheme, self.port):
            return Reply(exc=exc_by_name("connector"))
        f = self.fault()
        self.pending = f if f and f[0] in ("app", "notype") else None
        rep = self.server(req)
        self.pending = None
        rep.delay = 0.05
        if f is None or f[0] in ("app", "notype"):
            return rep
        self.hit += 1
        if f[0] == "exc":
            return Reply(exc=exc_by_name(f[1]))
        if f[0] == "status":
            return Reply(f[1], rep.body)
        if f[0] == "bytes":
            rep.body = f[1]
        elif f[0] == "hang":
            rep.delay = 1000
        else:
            return Reply(exc_on_read=exc_by_name("disconnected"))
        return rep

    # ---- TCP
    def connect(self, conn):
        conn.buf = b""

        async def later():
            await asyncio.sleep(0.05)
            f = self.peek()
            if f and f[0] == "exc":
                self.fault()
                self.hit += 1
                raise ConnectionRefusedError(111, "refused") if f[1] != "oserror" else OSError(113, "No route")
        return later()

    def peek(self):
        self.n += 1
        f = None
        self.n -= 1
        fs = dict(reversed(self.case["faults"]))
        nxt = self.n + 1
        if self.on and nxt in fs:
            f = fs[nxt]
        elif self.on and fs and self.case["forever"] and nxt > max(fs):
            f = fs[max(fs)]
        return f

    def data(self, conn, data):
        conn.buf += data
        while len(conn.buf) >= 4:
            n = int.from_bytes(conn.buf[:4], "big")
            if len(conn.buf) < 4 + n:
                return
            body, conn.buf = conn.buf[4:4 + n], conn.buf[4 + n:]
            f = self.fault()
            self.pending = f if f and f[0] in ("app", "notype") else None
            ans = disco.xor(json.dumps(self.app(json.loads(disco.unxor(body)))).encode())
            self.pending = None
            out = len(ans).to_bytes(4, "big") + ans
            if f is None or f[0] in ("app", "notype"):
                conn.send(out, 0.05)
                continue
            self.hit += 1
            if f[0] == "reset":
                conn.reset(0.05)
            elif f[0] == "eof":
                conn.send(out[: len(out) // 2], 0.02)
                conn.eof(0.05)
            elif f[0] == "bytes":
                conn.send(len(f[1]).to_bytes(4, "big") + f[1], 0.05)
            elif f[0] == "status":
                conn.send(b"\xff\xff\xff\xff", 0.05)
            elif f[0] != "hang":
                conn.reset(0.01)


def strip_type(x):
    if isinstance(x, dict):
        return {k: strip_type(v) for k, v in x.items() if k not in ("type", "mic_type")}
    if isinstance(x, list):
        return [strip_type(v) for v in x]
    return x


def config(case, session):
    fam, enc, lv, https = CONN[case["kind"]]
    cred = {"right": Credentials(*ACC), "wrong": Credentials("someone@example.com", "else"), "none": None}[case["account"]]
    return DeviceConfig(HOST, connection_type=DeviceConnectionParameters(fam, enc, lv, https), credentials=cred,
                        http_client=session, aes_keys=KEYS[0] if case["kind"] == "aes" else None)


def check(case, ctx):
    if case["how"] == "single" and case["kind"] not in ("xor",):
        case = {**case, "how": "connect"}
    net = Net()
    w = World(case, net)
    undo = patch_default_session(w.http)
    mine = FakeSession(w.http)

    def leaks(when):
        require(not net.open_conns, f"{len(net.open_conns)} TCP connection(s) left open {when}")
        n = [s for s in w.http.sessions if not s.closed]
        require(not n, f"{len(n)} HTTP session(s) left open {when}")
        require(not mine.closed, f"the caller's HTTP session was closed {when}")

    attempts, errs = [], []

    async def main(loop):
        session = mine if case["own"] else None
        if case["how"] == "single":
            info = disco.legacy_packet({"system": {"get_sysinfo": w.sim.get_sysinfo()}})
            net.udp_on_open = lambda tr: loop.call_later(0.05, tr.deliver, info, (HOST, 9999))

        async def go():
            if case["how"] == "all":
                cfg = config(case, session)
                return await Discover.try_connect_all(
                    HOST, credentials=cfg.credentials, http_client=session,
                    on_attempt=lambda a, ok: attempts.append((a, ok)))
            if case["how"] == "single":
                dev = await Discover.discover_single(HOST, discovery_timeout=2)
                try:
                    await dev.update()
                except BaseException:
                    await dev.disconnect()
                    raise
                return dev
            return await Device.connect(config=config(case, session))

        task = asyncio.ensure_future(go())
        if case["cancel"] is not None:
            loop.call_later(case["cancel"], task.cancel)
        dev = None
        try:
            dev = await task
            outcome = "device" if dev is not None else "none"
        except asyncio.CancelledError:
            outcome = "cancelled"
            require(case["cancel"] is not None, "CancelledError without cancellation")
        except KasaException as ex:
            outcome = type(ex).__name__
            errs.append(str(ex)[:300])
        except Exception as ex:  # noqa: BLE001
            if case["how"] == "connect":
                fail(f"connecting failed with {ex!r}")
            raise
        ctx.label(case["how"] + ":" + ("device" if outcome == "device" else "failed"), case["kind"])
        ctx.nontrivial(outcome != "device" or w.hit or case["how"] == "all")
        clean = not w.hit and case["account"] == "right" and outcome != "cancelled"
        if case["kind"] == "xor" and not w.hit and outcome != "cancelled":
            clean = True
        if case["kind"] == "linkie":         # no device class yet
            clean = False
            require(outcome in ("UnsupportedDeviceError", "cancelled", "none"), "linkie camera", outcome)
        for tr in net.udp:
            require(tr.closed, "UDP socket left open")
        if outcome != "device":
            require(not clean, f"cannot connect to a healthy {case['kind']} device ({case['fixture']}): {outcome} {errs}")
            leaks(f"after {outcome} {errs}")
            check_attempts(None)
            return
        check_attempts(dev)
        if not w.hit:
            usable(dev)
        if case["how"] == "all":
            n = [s for s in w.http.sessions if not s.closed]
            require(len(n) <= 1 and len(net.open_conns) <= 1, "connections of rejected attempts left open", len(n))
        w.on = False
        await asyncio.sleep(100)
        for s in range(2 if case["again"] else 1):
            try:
                await dev.update()
            except KasaException as ex:
                if not w.hit:
                    fail(f"update of the connected device fails: {ex!r}")
                # state spoilt by an earlier damaged exchange may need one more round
                await dev.update()
        usable(dev)
        n = [s for s in w.http.sessions if not s.closed]
        require(len(n) + len(net.open_conns) <= 1, "more than one connection to one device is open", len(n))
        if case["own"]:
            require(not w.http.sessions, "a session was opened although the caller provided one")
        await dev.disconnect()
        await asyncio.sleep(0)
        leaks("after disconnecting")
        await dev.disconnect()
        leaks("after disconnecting twice")

    def usable(dev):
        with judging("reading the connected device"):
            require(isinstance(dev, Device), "not a device", dev)
            eq(dev.host, HOST, "host of the device")
            require(dev.device_id, "no device id")
            str(dev), dev.alias, dev.model, dev.features, dev.is_on
            if case["kind"] in ("xor", "klap1"):
                eq(dev.alias, w.sim.get_sysinfo().get("alias"), "alias of the connected device")
            elif case["kind"] not in ("linkie", "cam"):
                nick = w.sim.root.info.get("nickname")
                if nick is not None:
                    eq(dev.alias, base64.b64decode(nick).decode(), "alias of the connected device")

    def check_attempts(dev):
        if case["how"] != "all":
            return
        keys = [a for a, _ in attempts]
        require(len(set(keys)) == len(keys), "a candidate was tried twice", keys)
        oks = [ok for _, ok in attempts]
        require(not any(oks[:-1]), "attempts continued after a success", oks)
        if dev is not None:
            require(oks and oks[-1] is True, "the successful attempt was not reported", oks)
        else:
            require(not any(oks), "a success was reported although nothing was returned")

    try:
        vtime.run(main, net=net, max_virtual=40000)
    finally:
        undo()


def bad_args(case, ctx):
    """Arguments and configurations that cannot work."""
    net = Net()
    http = HttpNet(lambda req: Reply(exc=exc_by_name("connector")))
    undo = patch_default_session(http)

    async def main(loop):
        fam, enc = case["family"], case["enc"]
        cfg = DeviceConfig(HOST, connection_type=DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc),
                                                                            case["lv"], case["https"]))
        try:
            if case["form"] == "both":
                await Device.connect(host=HOST, config=cfg)
            elif case["form"] == "neither":
                await Device.connect()
            elif case["form"] == "host":
                await Device.connect(host=HOST)
            else:
                await Device.connect(config=cfg)
            fail("connected to nothing")
        except KasaException as ex:
            ctx.label(type(ex).__name__)
        except TypeError:
            require(case["form"] == "neither", "TypeError")
        ctx.nontrivial(True)
        require(not net.open_conns and all(s.closed for s in http.sessions), "connection left open")

    try:
        vtime.run(main, net=net)
    finally:
        undo()


def arg_cases():
    return st.fixed_dictionaries({
        "family": st.sampled_from([f.value for f in DeviceFamily]), "enc": st.sampled_from([e.value for e in E]),
        "lv": st.sampled_from([None, 1, 2, 3]), "https": st.booleans(),
        "form": st.sampled_from(["config", "config", "config", "both", "neither", "host"])})


SUBS = [
    Sub("faults", cases, check, quick=6000, thorough=20000, shards=6, tshards=8),
    Sub("arguments", arg_cases, bad_args, quick=600, thorough=1500),
]
