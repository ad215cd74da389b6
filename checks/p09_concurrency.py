"""P09: concurrent and cancelled queries never cross answers or wedge a device."""
from __future__ import annotations

import asyncio
import json
import struct

from hypothesis import strategies as st

import vtime
from core import Sub, eq, require
from net import FakeSession, HttpNet, Net
from servers import AesServer, CameraServer, KlapServer, LinkieServer, SslServer
from p01_xor import ref_frame, ref_plain
from p03_aes import KEYS

from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily, KasaException
from kasa.device_factory import get_protocol
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper

LEVEL = "exploration"
RULE = "Schedules of concurrent queries, device delays and cancellations on a virtual-time event loop."
ASSUMPTIONS = ["the event loop and the network are simulated; cancellation points are loop iterations and instants",
               "the device accepts a sequence number that skips a request it never saw"]
HOST = "10.0.0.2"
ACC = ("user@example.com", "correct horse")
CONN = {
    "iot-xor": (DeviceFamily.IotSmartPlugSwitch, DeviceEncryptionType.Xor, None, False),
    "iot-klap": (DeviceFamily.IotSmartPlugSwitch, DeviceEncryptionType.Klap, None, False),
    "iot-linkie": (DeviceFamily.IotIpCamera, DeviceEncryptionType.Aes, None, True),
    "smart-klap": (DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap, 2, False),
    "smart-aes": (DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, 2, False),
    "smart-token": (DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, 2, True),
    "cam": (DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, True),
}


def cases():
    query = st.fixed_dictionaries({
        "kind": st.sampled_from(["one", "one", "many", "child0", "child1", "childmany"]),
        "gap": st.sampled_from([0, 0, 0, 0.05, 0.3, 2]),
        "cancel": st.one_of(st.none(), st.none(), st.tuples(st.just("steps"), st.integers(0, 60)),
                            st.tuples(st.just("time"), st.sampled_from([0.0, 0.05, 0.3, 0.5, 1.0, 4.9, 5.0, 5.1, 6.0, 12.0]))),
    })
    return st.fixed_dictionaries({
        "conn": st.sampled_from(sorted(CONN)),
        "tasks": st.lists(st.fixed_dictionaries({
            "start": st.sampled_from([0, 0, 0, 0.05, 0.3, 1, 5]),
            "queries": st.lists(query, min_size=1, max_size=4)}), min_size=1, max_size=5),
        "delays": st.lists(st.sampled_from([0, 0, 0, 0.1, 0.3, 0.5, 1.0, 4.0, 6.0]), max_size=24),
        "hsdelays": st.lists(st.sampled_from([0, 0, 0.2, 1.0]), max_size=6),
        "expire": st.sampled_from([None, None, None, 3, 5]),
        "seed": st.integers(0, 2**32),
    })


def respond(req):
    """The device's application layer; every answer carries the request it belongs to."""
    if "method" not in req:                       # legacy or camera sections
        return {"echo": req}
    m = req["method"]
    if m in ("get", "do", "set"):
        return {"error_code": 0, **{k: {"echo": v} for k, v in req.items() if k != "method"}}

    def one(r):
        if r["method"] == "control_child":
            inner = r["params"]["requestData"]
            return {"device_id": r["params"]["device_id"],
                    "responseData": child(inner, r["params"]["device_id"])}
        if r["method"] == "controlChild":
            c = r["params"]["childControl"]
            return {"device_id": c["device_id"], "response_data": child(c["request_data"], c["device_id"])}
        return {"echo": r.get("params")}

    def child(inner, cid):
        if inner["method"] == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [
                {"method": r["method"], "error_code": 0, "result": {"child": cid, "echo": r.get("params")}}
                for r in inner["params"]["requests"]]}}
        return {"error_code": 0, "result": {"child": cid, "echo": inner.get("params")}}

    if m == "multipleRequest":
        return {"error_code": 0, "result": {"responses": [
            {"method": r["method"], "error_code": 0, "result": one(r)} for r in req["params"]["requests"]]}}
    return {"error_code": 0, "result": one(req)}


class TcpPeer:
    def __init__(self, net, delays):
        self.net = net
        self.delays = delays
        self.problems = []
        self.state = {}

    def connect(self, conn):
        return None

    def data(self, conn, chunk):
        st_ = self.state.setdefault(conn.n, {"buf": b"", "until": -1.0})
        st_["buf"] += chunk
        while len(st_["buf"]) >= 4:
            n = struct.unpack(">I", st_["buf"][:4])[0]
            if len(st_["buf"]) < 4 + n:
                return
            body, st_["buf"] = st_["buf"][4:4 + n], st_["buf"][4 + n:]
            now = self.net.loop.time()
            if now < st_["until"]:
                self.problems.append("a request was sent before the previous one was answered")
            d = self.delays.pop(0) if self.delays else 0
            st_["until"] = now + d
            out = ref_frame(json.dumps(respond(json.loads(ref_plain(body)))))
            half = len(out) // 2
            conn.send(out[:half], d)
            conn.send(out[half:], 0)


def check(case, ctx):
    conn = case["conn"]
    fam, enc, lv, https = CONN[conn]
    family = conn.split("-")[0]

    async def main(loop):
        ct = DeviceConnectionParameters(fam, enc, login_version=lv, https=https)
        cfg = DeviceConfig(HOST, connection_type=ct, credentials=Credentials(*ACC),
                           aes_keys=KEYS[0] if conn == "smart-aes" else None)
        delays = list(case["delays"])
        kw = dict(host=HOST, seed=case["seed"], app=respond)
        http = None
        if conn == "iot-xor":
            srv = TcpPeer(loop.net, delays)
            loop.net.tcp[(HOST, 9999)] = srv
        else:
            srv = {"iot-klap": lambda: KlapServer(1, *ACC, **kw), "smart-klap": lambda: KlapServer(2, *ACC, **kw),
                   "smart-aes": lambda: AesServer(2, *ACC, **kw), "smart-token": lambda: SslServer(*ACC, **kw),
                   "cam": lambda: CameraServer(*ACC, **kw), "iot-linkie": lambda: LinkieServer(**kw)}[conn]()
            srv.strict = False
            http = HttpNet(None)
            hsd = list(case["hsdelays"])
            async def handler(req):
                stage_before = len(srv.log)
                rep = srv(req)
                if "req" not in srv.log[stage_before:] and hsd:
                    d = hsd.pop(0)
                    rep.delay = rep.delay or d
                return rep

            http.handler = handler
            script = [("delay", d) if d else None for d in delays]
            if case["expire"] and conn != "iot-linkie":       # the device restarts under load
                script.insert(case["expire"], ("reboot",))
                srv.rebooted = True
                ctx.label("restart")
            srv.faults = {"req": script}
            cfg.http_client = FakeSession(http)
        proto = get_protocol(cfg)
        kids = {}
        for k in ("0", "1"):
            if family == "smart":
                kids[k] = _ChildProtocolWrapper("CHILD" + k, proto)
            elif family == "cam":
                kids[k] = _ChildCameraProtocolWrapper("CHILD" + k, proto)

        async def ask(tag, kind):
            """-> (got, want)"""
            cid = "CHILD" + ("1" if kind == "child1" else "0")
            if family == "iot":
                q = {"sys": {"tag": tag}}
                if kind != "one":
                    q["emeter"] = {"tag": tag}
                return await proto.query(q), {"echo": q}
            if kind.startswith("child"):
                w = kids[cid[-1]]
                names = ["getA", "getB"] if kind == "childmany" else ["getA"]
                q = {n: {"tag": tag, "n": n} for n in names}
                return await w.query(q), {n: {"child": cid, "echo": v} for n, v in q.items()}
            names = ["getA"] if kind == "one" else [f"get{x}" for x in "ABCDEFG"]
            if family == "cam":
                q = {n: {"m": {"tag": tag, "n": n}} for n in names}
            else:
                q = {n: {"tag": tag, "n": n} for n in names}
            return await proto.query(q), {n: {"echo": v} for n, v in q.items()}

        log = []

        async def worker(ti, t):
            await asyncio.sleep(t["start"])
            for qi, q in enumerate(t["queries"]):
                tag = f"{ti}.{qi}"
                task = asyncio.ensure_future(ask(tag, q["kind"]))
                c = q["cancel"]
                try:
                    if c is None:
                        got, want = await task
                        log.append((tag, "ok", got, want))
                    elif c[0] == "time":
                        try:
                            got, want = await asyncio.wait_for(task, c[1])
                            log.append((tag, "ok", got, want))
                        except asyncio.TimeoutError as ex:
                            if isinstance(ex, KasaException):
                                raise
                            log.append((tag, "cancelled", None, None))
                    else:
                        for _ in range(c[1]):
                            await asyncio.sleep(0)
                            if task.done():
                                break
                        task.cancel()
                        try:
                            got, want = await task
                            log.append((tag, "ok", got, want))
                        except asyncio.CancelledError:
                            log.append((tag, "cancelled", None, None))
                except KasaException as ex:
                    log.append((tag, "error", ex, None))
                if q["gap"]:
                    await asyncio.sleep(q["gap"])

        await asyncio.gather(*(worker(i, t) for i, t in enumerate(case["tasks"])))
        big = sum(1 for d in case["delays"] if d >= 5)
        # a query fails only if four attempts in a row failed
        failures = big + (1 if case["expire"] else 0)
        for tag, kind, got, want in log:
            ctx.label(kind)
            if kind == "ok":
                eq(got, want, f"answer of query {tag}")
            elif kind == "error":
                require(isinstance(got, KasaTimeout) and big >= 1 or failures >= 4
                        or (conn == "iot-linkie" and big >= 1), f"query {tag} failed: {got!r}")
        require(not srv.problems, "device saw", *srv.problems[:3])
        if http is not None:
            require(http.max_in_flight <= 1, f"{http.max_in_flight} requests at the same time on one session")
        # not wedged: later queries complete
        if http is not None:
            srv.faults = {}
            hsd.clear()
        else:
            delays.clear()
        for kind in (["one", "many"] + (["child0", "child1"] if kids else [])):
            t0 = loop.time()
            got, want = await ask("final", kind)
            eq(got, want, "answer of a later query")
            require(loop.time() - t0 < 5, f"later query took {loop.time() - t0}s")
        require(not srv.problems, "device saw (later)", *srv.problems[:3])
        await proto.close()
        if http is None:
            await asyncio.sleep(0.1)
            require(not loop.net.open_conns, "connections left open")
        ctx.label(conn)
        ctx.nontrivial(len(case["tasks"]) > 1 and len(log) > 2)

    vtime.run(main, net=Net(), seed=case["seed"], max_virtual=3600)


SUBS = [Sub("schedules", cases, check, quick=12500, thorough=50000, shards=8,
            rule="two or more concurrent tasks and three or more queries")]
