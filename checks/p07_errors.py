"""P07: device and network failures surface only as the documented error classes."""
from __future__ import annotations

import json

from hypothesis import strategies as st

import vtime
from core import Sub, eq, fail, require
from mutate import MUT, mutate
from net import FakeSession, HttpNet, Net, Reply
from p01_xor import ref_frame, ref_plain
from p03_aes import KEYS
from p04_camera import of_code
from p08_retry import classify
from p09_concurrency import ACC, CONN, HOST, respond
from servers import AesServer, CameraServer, KlapServer, LinkieServer, SslServer, exc_by_name
from stub import StubTransport

from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, KasaException
from kasa.device_factory import get_protocol
from kasa.exceptions import SmartErrorCode
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper

LEVEL = "fault_enumeration"
RULE = "Mutated answers and network faults at every exchange of every transport and protocol."
ASSUMPTIONS = ["the HTTP client library is replaced by a stand-in raising the exceptions aiohttp documents",
               "a forged answer that decrypts to well-formed data is data"]

CONNS = sorted(CONN) + ["cam-md5"]
EXCS = ["disconnected", "oserror", "connector", "servertimeout", "sockettimeout", "timeout", "payload", "badhttp",
        "response", "value"]
TIMEOUTS = {"servertimeout", "sockettimeout", "timeout"}
CODES = sorted({1002, 1112, -1001, 9999, -40401, -40413, -1501, 1111, -1005, 1100, 1003, -40412, -1, -1002, -1008,
                -40101, -40209, -40404, -40210, -90000, 7, -987654})


def fault():
    return st.one_of(
        st.tuples(st.just("status"), st.sampled_from([100, 201, 204, 301, 400, 401, 403, 404, 429, 500, 502, 503]),
                  st.one_of(st.none(), st.binary(max_size=20), st.just(b"{}"), st.just(b'{"error_code": -1}'))),
        st.tuples(st.just("exc"), st.sampled_from(EXCS)),
        st.tuples(st.just("exc_read"), st.sampled_from(EXCS)),
        st.tuples(st.just("late"), st.just(0)),
        st.tuples(st.just("bytes"), st.binary(max_size=80)),
        st.tuples(st.just("trunc"), st.integers(0, 400)),
        st.tuples(st.just("flip"), st.integers(0, 4000)),
        st.tuples(st.just("outer"), MUT),
        st.tuples(st.just("outer"), MUT),
        st.tuples(st.just("inner"), MUT),
        st.tuples(st.just("inner"), MUT),
        st.tuples(st.just("innertext"), st.one_of(
            st.sampled_from([b"", b"{", b"[]", b"null", b"1", b'"x"', b"\xff\xfe", b"{}", b'{"error_code":0}', b"NaN"]),
            st.binary(max_size=40))),
        st.tuples(st.just("code"), st.sampled_from(CODES)),
    )


def cases():
    return st.fixed_dictionaries({
        "conn": st.sampled_from(CONNS),
        "form": st.sampled_from(["one", "many", "child", "childmany"]),
        "faults": st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8]), fault()), min_size=1,
                           max_size=5),
        "forever": st.booleans(),
        "retry": st.sampled_from([0, 1, 3]),
        "seed": st.integers(0, 2**32),
    })


class Device:
    """A reference device whose n-th answer is damaged."""

    def __init__(self, case):
        self.case = case
        self.n = -1
        self.applied = []          # (exchange, fault kind)
        self.on = True
        self.inner = None

    def fault_for(self, n):
        if not self.on:
            return None
        fs = dict(reversed(self.case["faults"]))
        if n in fs:
            return fs[n]
        if self.case["forever"] and n > max(fs):
            return fs[max(fs)]
        return None

    def app(self, req):
        """Application layer; the pending inner fault damages it."""
        ans = respond(req)
        f = self.inner
        if f is None:
            return ans
        self.inner = None
        if f[0] == "innertext":
            self.applied.append(f[0])
            return f[1]
        if f[0] == "code":
            self.applied.append(f[0])
            return {"error_code": f[1]}
        out, changed = mutate(ans, f[1])
        if changed and out != ans:
            self.applied.append(f[0])
        return json.dumps(out)

    def handle(self, srv, req):
        self.n += 1
        f = self.fault_for(self.n)
        self.inner = f if f and f[0] in ("inner", "innertext", "code") else None
        rep = srv(req)
        self.inner = None
        if f is None or f[0] in ("inner", "innertext", "code"):
            return rep
        self.applied.append(f[0] if f[0] not in ("exc", "exc_read") else "exc:" + f[1])
        if f[0] == "status":
            return Reply(f[1], rep.body if f[2] is None else f[2], cookies=rep.cookies)
        if f[0] == "exc":
            return Reply(exc=exc_by_name(f[1]))
        if f[0] == "exc_read":
            return Reply(exc_on_read=exc_by_name(f[1]))
        if f[0] == "late":
            rep.delay = 30.0
            return rep
        if f[0] == "bytes":
            rep.body = f[1]
        elif f[0] == "trunc":
            rep.body = rep.body[: f[1] % (len(rep.body) + 1)]
        elif f[0] == "flip" and rep.body:
            b = bytearray(rep.body)
            b[f[1] // 8 % len(b)] ^= 1 << f[1] % 8
            rep.body = bytes(b)
        elif f[0] == "outer":
            try:
                rep.body = json.dumps(mutate(json.loads(rep.body), f[1])[0]).encode()
            except ValueError:
                rep.body = json.dumps(f[1][-1] if f[1][0] != "drop" else None).encode()
        return rep


class TcpDevice:
    def __init__(self, dev):
        self.dev = dev
        self.buf = {}

    def connect(self, conn):
        f = self.dev.fault_for(self.dev.n + 1)
        if f and f[0] == "exc":
            self.dev.n += 1
            self.dev.applied.append("exc:" + f[1])
            raise {"disconnected": ConnectionResetError(104, "reset"), "oserror": OSError(113, "no route"),
                   "connector": ConnectionRefusedError(111, "refused"), "payload": OSError(99, "other"),
                   "badhttp": UnicodeError("label"), "response": OSError(112, "down"),
                   "value": RuntimeError("odd")}.get(f[1], TimeoutError("t"))

    def data(self, conn, chunk):
        b = self.buf.setdefault(conn.n, b"") + chunk
        self.buf[conn.n] = b
        n = int.from_bytes(b[:4], "big") if len(b) >= 4 else 1 << 60
        if len(b) < 4 + n:
            return
        self.buf[conn.n] = b[4 + n:]
        dev = self.dev
        dev.n += 1
        f = dev.fault_for(dev.n)
        dev.inner = f if f and f[0] in ("inner", "innertext", "code") else None
        ans = dev.app(json.loads(ref_plain(b[4:4 + n])))
        dev.inner = None
        if f is None or f[0] in ("inner", "innertext", "code"):
            conn.send(ref_frame(ans if isinstance(ans, (bytes, str)) else json.dumps(ans)))
            return
        out = ref_frame(json.dumps(ans) if not isinstance(ans, (bytes, str)) else ans)
        dev.applied.append(f[0] if f[0] not in ("exc", "exc_read", "status") else "reset")
        if f[0] == "late":
            return
        if f[0] == "bytes":
            conn.send(f[1])
            conn.eof(0.1)
        elif f[0] == "trunc":
            conn.send(out[: f[1] % len(out)])
            conn.eof(0.1)
        elif f[0] == "flip":
            b = bytearray(out)
            i = 4 + f[1] // 8 % (len(b) - 4)
            b[i] ^= 1 << f[1] % 8
            conn.send(bytes(b))
        elif f[0] == "outer":
            conn.send(ref_frame(json.dumps(mutate(ans, f[1])[0] if not isinstance(ans, (bytes, str)) else None)))
        else:
            conn.reset()


def check(case, ctx):
    conn = case["conn"]
    base = "cam" if conn == "cam-md5" else conn
    fam, enc, lv, https = CONN[base]
    family = base.split("-")[0]

    async def main(loop):
        ct = DeviceConnectionParameters(fam, enc, login_version=lv, https=https)
        cfg = DeviceConfig(HOST, connection_type=ct, credentials=Credentials(*ACC),
                           aes_keys=KEYS[0] if conn == "smart-aes" else None)
        dev = Device(case)
        kw = dict(host=HOST, seed=case["seed"], app=dev.app)
        if conn == "iot-xor":
            loop.net.tcp[(HOST, 9999)] = TcpDevice(dev)
        else:
            srv = {"iot-klap": lambda: KlapServer(1, *ACC, **kw), "smart-klap": lambda: KlapServer(2, *ACC, **kw),
                   "smart-aes": lambda: AesServer(2, *ACC, **kw), "smart-token": lambda: SslServer(*ACC, **kw),
                   "cam": lambda: CameraServer(*ACC, **kw), "cam-md5": lambda: CameraServer(*ACC, secure=False, **kw),
                   "iot-linkie": lambda: LinkieServer(**kw)}[conn]()
            srv.strict = False
            srv.rebooted = True

            def handler(req):
                return dev.handle(srv, req)

            cfg.http_client = FakeSession(HttpNet(handler))
        proto = get_protocol(cfg)
        target = proto
        form = case["form"]
        if family == "iot":
            q = {"sys": {"tag": 1}} if form in ("one", "child") else {"sys": {"tag": 1}, "emeter": {"tag": 2}}
            want = {"echo": q}
        elif form.startswith("child"):
            names = ["getA"] if form == "child" else ["getA", "getB"]
            q = {n: {"tag": n} for n in names}
            want = {n: {"child": "CHILD0", "echo": v} for n, v in q.items()}
            target = (_ChildCameraProtocolWrapper if family == "cam" else _ChildProtocolWrapper)("CHILD0", proto)
        else:
            names = ["getA"] if form == "one" else [f"get{x}" for x in "ABCDEFG"]
            q = {n: ({"m": {"tag": n}} if family == "cam" else {"tag": n}) for n in names}
            want = {n: {"echo": v} for n, v in q.items()}
        got = exc = None
        try:
            got = await target.query(q, retry_count=case["retry"])
        except KasaException as ex:
            exc = ex
        ctx.label(conn, *dev.applied)
        ctx.nontrivial(bool(dev.applied))
        soft = {"inner", "innertext", "code", "outer", "bytes", "trunc", "flip"}
        if exc is None:
            ctx.label("answered")
            if not soft & set(dev.applied):
                eq(got, want, f"answer after {dev.applied}")
        else:
            ctx.label("raised")
            require(dev.applied, f"query failed without any fault: {exc!r}")
            last = dev.applied[-1]
            if all(a == last for a in dev.applied):
                if last in ("late", "exc:timeout", "exc:servertimeout", "exc:sockettimeout"):
                    require(isinstance(exc, KasaTimeout), f"timeouts reported as {exc!r}")
                elif last == "code" and conn not in ("iot-xor", "iot-klap", "iot-linkie"):
                    code = dict(reversed(case["faults"]))
                    f = [v for v in code.values()]
                    if len(f) == 1:
                        cls, num = of_code(f[0][1])
                        if num is not None and cls != "ok" and not (num in (-1003, -100000)):
                            eq((classify(exc), getattr(exc, "error_code", None)), (cls, num), f"failure for device code {f[0][1]}")
        # the next queries work again
        dev.on = False
        for i in range(2):
            try:
                got = await target.query(q)
                break
            except KasaException as ex:
                exc = ex
        else:
            fail(f"queries keep failing after the faults {dev.applied} are over: {exc!r}")
        eq(got, want, f"answer after the faults {dev.applied} are over")
        await proto.close()

    vtime.run(main, net=Net(), seed=case["seed"], max_virtual=7200)


# ------------------------------------------------------------------ protocol layer
def pcases():
    return st.fixed_dictionaries({
        "proto": st.sampled_from(["smart", "cam", "smartchild", "camchild"]),
        "form": st.sampled_from(["str", "one", "many", "paged", "get", "set", "do", "getdo"]),
        "muts": st.lists(MUT, min_size=1, max_size=4),
        "which": st.lists(st.booleans(), min_size=1, max_size=8),
        "batch": st.sampled_from([None, 1, 2]),
    })


def pcheck(case, ctx):
    child = case["proto"].endswith("child")
    cam = case["proto"].startswith("cam")
    form = case["form"]

    def one(method, params):
        if method == "getList":
            start = (params or {}).get("start_index", 0) if not cam else \
                next(iter((params or {"m": {}}).values()), {}).get("start_index", 0)
            return {"start_index": start, "sum": 5, "items": [{"id": i} for i in range(start, min(5, start + 2))]}
        if method in ("control_child", "controlChild"):
            c = params.get("childControl", params)
            inner = c.get("request_data") or c.get("requestData")
            if inner["method"] == "multipleRequest":
                r = {"error_code": 0, "result": {"responses": [
                    {"method": x["method"], "error_code": 0, "result": {"ok": 1}}
                    for x in inner["params"]["requests"]]}}
            else:
                r = {"error_code": 0, "result": one(inner["method"], inner.get("params"))}
            return {"device_id": "C", "response_data" if cam else "responseData": r}
        return {"ok": 1}

    def app(req):
        m = req["method"]
        if m == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [
                {"method": r["method"], "error_code": 0, "result": one(r["method"], r.get("params"))}
                for r in req["params"]["requests"]]}}
        if m in ("get", "set", "do"):
            return {"error_code": 0, **{k: {"ok": 1} for k in req if k != "method"}}
        return {"error_code": 0, "result": one(m, req.get("params"))}

    async def main(loop):
        state = {"n": 0, "applied": 0}

        def answer(req):
            ans = app(req)
            i = state["n"]
            state["n"] += 1
            require(i < 400, "query never ends")
            if i < len(case["which"]) and case["which"][i] or i >= len(case["which"]) and case["which"][-1]:
                for mut in case["muts"][: 1 + i % 3]:
                    ans, ch = mutate(ans, mut)
                    state["applied"] += ch
            return ans

        tr = StubTransport(answer, batch_size=case["batch"])
        proto = (SmartCamProtocol if cam else SmartProtocol)(transport=tr)
        target = proto
        if child:
            target = (_ChildCameraProtocolWrapper if cam else _ChildProtocolWrapper)("C", proto)
        p = {"m": {"name": 1}} if cam else {"p": 1}
        q = {"str": "getA", "one": {"getA": p}, "many": {"getA": p, "getB": p, "getC": p, "scanApList": p},
             "paged": {"getList": {"m": {"start_index": 0}} if cam else {"start_index": 0}},
             "get": {"get": {"sec": {"name": ["x"]}}}, "set": {"set": {"sec": {"name": {"x": 1}}}},
             "do": {"do": {"sec": {"name": {"x": 1}}}}, "getdo": "getUserID"}[form]
        ctx.label(case["proto"], form)
        try:
            await target.query(q)
            ctx.label("answered")
        except KasaException as ex:
            ctx.label("raised " + type(ex).__name__)
        ctx.nontrivial(state["applied"] > 0)

    vtime.run(main, max_virtual=7200)


# ------------------------------------------------------------------ nothing partial
PCODES = [-1001, -1008, -40101, 1002, -1, -1003, 9999, -40401, -1501, -90000, -40210, -40209]


def partial_cases():
    return st.fixed_dictionaries({
        "proto": st.sampled_from(["smart", "cam", "smart", "smartchild", "camchild"]),
        "methods": st.lists(st.tuples(st.booleans(), st.integers(0, 7), st.integers(1, 3)), min_size=1, max_size=5),
        "batch": st.sampled_from([None, 1, 2, 3]),
        "fault": st.one_of(st.tuples(st.sampled_from(["code", "hubcode"]), st.sampled_from(PCODES)),
                           st.tuples(st.sampled_from(["exception", "timeout", "noresult", "wrongtype"]), st.just(0))),
        "at": st.integers(0, 9), "stop": st.booleans(), "always": st.booleans(), "retries": st.integers(0, 3),
    })


async def partial(case, ctx):
    """Whatever fails and wherever, what a query returns is all there is of every value."""
    child, cam = case["proto"].endswith("child"), case["proto"].startswith("cam")
    lists = {f"getThing{i}": (n, size) for i, (is_list, n, size) in enumerate(case["methods"]) if is_list and not child}
    n_inner = n_outer = 0
    hits, pages = set(), 0

    def full(m):
        if m in lists:
            return {"items": [{"id": f"{m}-{i}"} for i in range(lists[m][0])], "start_index": 0, "sum": lists[m][0]}
        return {"v": m}

    def one(m, params):
        """-> the answer's fields to one method."""
        nonlocal n_inner, pages
        kind, code = case["fault"]
        i, n_inner = n_inner, n_inner + 1
        require(n_inner < 500, "query never ends")
        bad = kind != "hubcode" and (i >= case["at"] if case["always"] else i == case["at"])
        if isinstance(params, dict) and "m" in params:
            params = params["m"]
        start = (params or {}).get("start_index", 0)
        if bad:
            hits.add((m, bool(start)))
            if kind == "code":
                return {"error_code": code}
            if kind == "noresult":
                return {"error_code": 0}
            if kind == "wrongtype" and start:
                return {"error_code": 0, "result": {"other": []}}
            if kind == "exception":
                raise KasaException("gone")
            if kind == "timeout":
                raise KasaTimeout("late")
        r = full(m)
        if m in lists:
            r["items"] = r["items"][start:start + lists[m][1]]
            r["start_index"] = start
            pages += start > 0
        return {"error_code": 0, "result": r}

    def app(req):
        m, p = req["method"], req.get("params")
        if m == "multipleRequest":
            out = []
            for r in p["requests"]:
                out.append({"method": r["method"], **app(r)})
                if case["stop"] and out[-1]["error_code"]:
                    break
            return {"error_code": 0, "result": {"responses": out}}
        if m in ("control_child", "controlChild") and case["fault"][0] == "hubcode":
            nonlocal n_outer
            i, n_outer = n_outer, n_outer + 1
            require(n_outer < 500, "query never ends")
            if i >= case["at"] if case["always"] else i == case["at"]:
                inner = p.get("requestData") or p["childControl"]["request_data"]
                hits.update((r["method"], False) for r in (inner["params"]["requests"] if inner["method"] ==
                                                           "multipleRequest" else [inner]))
                return {"error_code": case["fault"][1]}
        if m == "control_child":
            return {"error_code": 0, "result": {"responseData": app(p["requestData"])}}
        if m == "controlChild":
            return {"error_code": 0, "result": {"response_data": app(p["childControl"]["request_data"])}}
        return one(m, p)

    tr = StubTransport(app, batch_size=case["batch"])
    proto = (SmartCamProtocol if cam else SmartProtocol)(transport=tr)
    target = proto
    if child:
        target = (_ChildCameraProtocolWrapper if cam else _ChildProtocolWrapper)("C", proto)
    names = [f"getThing{i}" for i in range(len(case["methods"]))]
    params = {"m": {"start_index": 0}} if cam else {"start_index": 0}
    kind, code = case["fault"]
    try:
        res = await target.query({m: dict(params) for m in names}, case["retries"])
    except KasaException as ex:
        require(hits, f"{ex!r} although nothing failed")
        ctx.label("raised", kind)
        ctx.nontrivial(pages > 0 or len(names) > 1)
        return
    except Exception as ex:  # noqa: BLE001
        fail(f"{type(ex).__name__}: {ex} for {case['fault']}")
    eq(sorted(res), sorted(names), "methods of the result")
    for m in names:
        got = res[m]
        if got == full(m):
            continue
        hit = (m, False) in hits
        if kind in ("code", "hubcode") and hit and len(names) > 1 and isinstance(got, SmartErrorCode):
            continue
        require(kind == "noresult" and hit and got is None,
                f"value of {m} is {got} although the device has {full(m)}, for {case['fault']}", sorted(hits))
    ctx.label("answered", kind)
    ctx.nontrivial(bool(hits))


SUBS = [
    Sub("exchanges", cases, check, quick=8000, thorough=160000, shards=8, rule="at least one fault was applied"),
    Sub("partial", partial_cases, lambda c, x: vtime.run(lambda loop: partial(c, x), max_virtual=7200), quick=6000,
        thorough=100000, shards=3, tshards=8, rule="a fault was met by a query of several methods or pages"),
    Sub("protocol", pcases, pcheck, quick=16000, thorough=300000, shards=8, rule="at least one answer was damaged"),
]
