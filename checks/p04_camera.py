"""P04: camera (SSL-AES) transport against an independently written camera."""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from net import FakeSession, HttpNet
from servers import DEFAULTS, CameraServer

from kasa import (AuthenticationError, Credentials, DeviceConfig, DeviceConnectionParameters,
                  DeviceEncryptionType, DeviceError, DeviceFamily, KasaException)
from kasa.exceptions import TimeoutError as KasaTimeout, _ConnectionError, _RetryableError
from kasa.protocols import SmartCamProtocol
from kasa.transports import SslAesTransport

LEVEL = "fault_enumeration"
RULE = "Generated histories against a reference camera in virtual time."
ASSUMPTIONS = ["AES-CBC and hashlib are correct",
               "TLS is replaced at the aiohttp session (the certificate of a camera is not verifiable)",
               "after an error other than a lost connection the owning protocol resets the transport (P08)"]
HOST = "10.0.0.2"
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}
RETRY = {1002, 1112, -1001, 9999, -40401, -40413}
DEV = {-40210, -40406, -1, -1002, -40101, -40106, -40404, 7, -987654}

excs = st.tuples(st.just("exc"), st.sampled_from(["disconnected", "oserror", "servertimeout", "timeout", "payload"]))
status = st.tuples(st.just("status"), st.sampled_from([400, 401, 403, 500, 503]))
codes = st.sampled_from(sorted(AUTH | RETRY | DEV))
fault_hs1 = st.one_of(excs, status, st.tuples(st.just("forge"), st.integers(0, 95)),
                      st.tuples(st.just("json"), st.sampled_from([
                          {"error_code": -40401}, {"error_code": -40413}, {"error_code": 0, "result": {}},
                          {"error_code": -40210}, {"error_code": -987654},
                          {"error_code": -40413, "result": {"data": {"code": -40413}}},
                      ])))
fault_hs2 = st.one_of(excs, status, st.tuples(st.just("code"), codes))
fault_req = st.one_of(excs, status, st.tuples(st.just("code"), codes), st.tuples(st.just("code"), codes),
                      st.tuples(st.just("reboot")), st.tuples(st.just("lost500")),
                      st.tuples(st.just("clear")), st.tuples(st.just("plainresp")),
                      st.tuples(st.just("garble"), st.sampled_from(["!!", "AAAA", "A" * 22 + "==", "é", "x" * 64])))


def maybe(s, n=5):
    return st.one_of(*[st.none()] * n, s)


def account():
    named = st.tuples(gen.credential_text().filter(bool), gen.credential_text().filter(bool))
    marked = st.tuples(gen.credential_text().filter(bool),
                       gen.credential_text().map(lambda t: "pw#" + t + "#secret"))
    return st.one_of(named, marked, st.just(DEFAULTS["TAPOCAMERA"]),
                     st.tuples(st.just("admin"), gen.credential_text().filter(bool)))


def histories():
    op = st.fixed_dictionaries({
        "req": gen.json_object(6), "resp": gen.json_object(8),
        "hs1": st.lists(maybe(fault_hs1), max_size=2),
        "hs2": st.lists(maybe(fault_hs2), max_size=1),
        "md5": st.lists(maybe(st.one_of(excs, status)), max_size=1),
        "reqf": maybe(fault_req, 2),
        "before": st.sampled_from([None, None, None, None, None, "reboot", "switch", "block"]),
        "pause": st.sampled_from([0, 0, 1, 30, 86400, 200000]),
    })
    return st.fixed_dictionaries({
        "configured": st.one_of(st.none(), account(), account(), account()),
        "as_hash": st.booleans(),
        "device": st.one_of(st.just("same"), st.just("same"), st.just("same"), st.just("admin"), account()),
        "variant": st.sampled_from(["sha256", "md5"]),
        "secure": st.sampled_from([True, True, True, False]),
        "http_port": st.one_of(st.none(), st.integers(1, 65535)),
        "override": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(op, min_size=1, max_size=5),
    })


def build(case):
    configured = case["configured"]
    port = case["override"] or case["http_port"] or 443
    dev = case["device"]
    if dev == "same":
        dev = configured or DEFAULTS["TAPOCAMERA"]
    elif dev == "admin":     # user name of the factory account, password of the owner
        dev = ("admin", (configured or DEFAULTS["TAPOCAMERA"])[1])
    srv = CameraServer(dev[0], dev[1], variant=case["variant"], secure=case["secure"], port=port,
                       host=HOST, seed=case["seed"])
    http = HttpNet(srv)
    ct = DeviceConnectionParameters(DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, login_version=2,
                                    https=True, http_port=case["http_port"])
    kw = {}
    if configured is not None:
        if case["as_hash"]:
            kw["credentials_hash"] = base64.b64encode(
                json.dumps({"un": configured[0], "pwd": configured[1]}).encode()).decode()
        else:
            kw["credentials"] = Credentials(*configured)
    cfg = DeviceConfig(HOST, connection_type=ct, port_override=case["override"], **kw)
    cfg.http_client = FakeSession(http)
    return SslAesTransport(config=cfg), srv, http, dev


def classify(ex):
    if isinstance(ex, KasaTimeout):
        return "timeout"
    if isinstance(ex, _ConnectionError):
        return "conn"
    code = getattr(ex, "error_code", None)
    if isinstance(ex, AuthenticationError):
        return ("auth", int(code) if code is not None else None)
    if isinstance(ex, _RetryableError):
        return ("retry", int(code) if code is not None else None)
    if isinstance(ex, DeviceError):
        return ("device", int(code) if code is not None else None)
    return "error"


def of_code(n):
    if n in AUTH:
        return ("auth", n)
    if n in RETRY:
        return ("retry", n)
    return ("device", n if n not in (7, -987654) else -100000)


def of_exc(name):
    return {"servertimeout": "timeout", "timeout": "timeout", "disconnected": "conn",
            "oserror": "conn"}.get(name, "error")


class Model:
    """What a conforming client may observe; consumes the same fault scripts as the camera."""

    def __init__(self, case, dev):
        self.dev = dev
        conf = case["configured"]
        self.user = conf[0] if conf else None
        self.pwd = conf[1] if conf else DEFAULTS["TAPOCAMERA"][1]
        self.has = conf is not None
        self.secure = case["secure"]
        self.blocked = False
        self.est = None            # None / "secure" / "md5"

    def hs1(self, user, f):
        """-> ("ok"|"forged"|"md5"|"no", detail)"""
        if f and f[0] == "exc":
            return ("raise", of_exc(f[1]))
        if f and f[0] == "status":
            return ("raise", "error")
        if f and f[0] == "json":
            return ("no", "auth")
        if self.blocked:
            return ("no", "blocked")
        if not self.secure:
            return ("md5", user == self.dev[0])
        if user != self.dev[0]:
            return ("no", "auth")
        return ("forged" if f else "ok", None)

    def md5login(self, user, f):
        if f:
            return ("raise", of_exc(f[1]) if f[0] == "exc" else "error")
        return user == self.dev[0] and self.pwd == self.dev[1]

    def handshake(self, h1, h2, m5):
        """-> outcome or None when established"""
        nxt = lambda q: q.pop(0) if q else None  # noqa: E731
        first = None
        done = None
        if self.user:
            first = self.hs1(self.user, nxt(h1))
            if first[0] == "raise":
                return first[1]
            if first[0] == "md5" and first[1]:      # a wrong user name is reported as such
                r = self.md5login(self.user, nxt(m5))
                if isinstance(r, tuple):
                    return r[1]
                if r:
                    self.est = "md5"
                    return None
            if first[0] in ("ok", "forged"):
                done = first
        if done is None:
            second = self.hs1("admin", nxt(h1))
            if second[0] == "raise":
                return second[1]
            if second[0] == "md5":
                r = self.md5login("admin", nxt(m5))
                if isinstance(r, tuple):
                    return r[1]
                if r:
                    self.est, self.user = "md5", "admin"
                    return None
            elif second[0] in ("ok", "forged"):
                done, self.user = second, "admin"
        if done is None:
            if first and first[1] == "blocked":
                return ("device", -40404)
            return "authlike"
        if done[0] == "forged" or self.pwd != self.dev[1]:
            return "authlike"
        f = nxt(h2)
        if f:
            if f[0] == "code":
                return of_code(f[1]) if f[1] != -40413 else "authlike"
            return of_exc(f[1]) if f[0] == "exc" else "error"
        self.est = "secure"
        return None

    def request(self, f, rebooted):
        if f and f[0] == "exc":
            return of_exc(f[1])
        if f and f[0] == "status":
            return "error" if f[1] != 500 or self.est == "md5" else ("retry", None)
        if f and f[0] == "code":
            return of_code(f[1])
        if rebooted or (f and f[0] == "reboot"):
            return ("retry", -40401)
        if self.est == "md5":
            return "ok"
        if f and f[0] == "lost500":
            return ("retry", None)
        if f and f[0] == "garble":
            return "error"
        return "ok"


def check_history(case, ctx):
    cur = {}

    async def main(loop):
        tr, srv, http, dev = build(case)
        srv.app = lambda req: {"error_code": 0, "answer": {"n": cur["i"], "echo": req, "resp": cur["resp"]}}
        md = Model(case, dev)
        rebooted = False
        for i, o in enumerate(case["ops"]):
            cur.update(i=i, resp=o["resp"])
            srv.blocked = md.blocked = None
            if o["before"] in ("reboot", "switch"):
                srv.reboot()
                rebooted = True
                if o["before"] == "switch":      # new firmware, other kind of login
                    srv.secure = md.secure = not srv.secure
                    ctx.label("firmware-switch")
            elif o["before"] == "block":
                srv.blocked, md.blocked = 120, True
            srv.faults = {"hs1": list(o["hs1"]), "hs2": list(o["hs2"]), "md5login": list(o["md5"]),
                          "req": [o["reqf"]]}
            nlog, nplain, nraw = len(srv.log), len(srv.plain), len(http.requests)
            request = {"method": "multipleRequest", "params": {"i": i, "q": o["req"]}}
            try:
                res = ("ok", await tr.send(json.dumps(request)))
                got = "ok"
            except KasaException as ex:
                res = (None, ex)
                got = classify(ex)
            stages = srv.log[nlog:]
            # ---- prediction
            want = None
            if md.est is None:
                rebooted = False
                want = md.handshake(list(o["hs1"]), list(o["hs2"]), list(o["md5"]))
                eq(stages[:1], ["hs1"], f"op {i}: first message without a session ({stages})")
                ctx.label("login-" + (md.est or "failed"))
            else:
                eq(stages, ["req"], f"op {i}: exchange on an established session")
                ctx.label("session-reused")
            if want is None:
                want = md.request(o["reqf"], rebooted)
                eq(stages[-1:], ["req"], f"op {i}: exchange with a session")
            else:
                require("req" not in stages, f"op {i}: a request was sent without a session ({stages})")
            info = f"op {i}: outcome ({stages}, {o['hs1']}, {o['hs2']}, {o['md5']}, {o['reqf']}, {res[1]!r})"
            if want == "authlike":
                require(isinstance(got, tuple) and got[0] == "auth", info + " must be an AuthenticationError")
            else:
                eq(got, want, info)
            require(not srv.problems, f"op {i}: camera saw ({stages})", *srv.problems)
            ctx.label(str(want[0] if isinstance(want, tuple) else want))
            if got == "ok":
                eq(srv.plain[nplain:], [request], f"op {i}: plaintext at the camera")
                eq(res[1], {"error_code": 0, "answer": {"n": i, "echo": request, "resp": o["resp"]}},
                   f"op {i}: answer")
            # no secret in any message
            if dev[1].startswith("pw#") or (case["configured"] and case["configured"][1].startswith("pw#")):
                ctx.label("secret-marked")
                for pw in {dev[1], *(case["configured"] or ("", ""))[1:]}:
                    if not pw.startswith("pw#"):
                        continue
                    secrets = [pw, json.dumps(pw)[1:-1], base64.b64encode(pw.encode()).decode(),
                               hashlib.sha256(pw.encode()).hexdigest()]
                    if "md5login" not in stages:
                        secrets.append(hashlib.md5(pw.encode()).hexdigest())
                    for r in http.requests[nraw:]:
                        blob = (r.body.decode("utf-8", "replace") + repr(r.headers) + r.full_url)
                        for s in secrets:
                            require(s.lower() not in blob.lower(), f"op {i}: the password is visible in {blob[:300]}")
            if got != "ok" and got != "conn":
                if not (isinstance(got, tuple) and got[0] == "auth" and stages[-1:] == ["req"]):
                    await tr.reset()
                md.est = None
                rebooted = False
            if o["pause"]:
                await asyncio.sleep(o["pause"])
        await tr.close()
        ctx.nontrivial(len(case["ops"]) > 1 or case["device"] != "same")

    vtime.run(main)


def recoveries():
    return st.fixed_dictionaries({
        "configured": account(), "as_hash": st.booleans(), "device": st.sampled_from(["same", "admin"]),
        "variant": st.sampled_from(["sha256", "md5"]), "secure": st.sampled_from([True, True, False]),
        "http_port": st.none(), "override": st.none(), "seed": st.integers(0, 2**32),
        "ops": st.lists(st.fixed_dictionaries({
            "req": gen.json_object(4), "switch": st.sampled_from([False, False, False, True]),
            "faults": st.lists(st.sampled_from([("reboot",), ("code", -40401), ("code", -1001), ("exc", "disconnected"),
                                                ("exc", "timeout"), ("exc", "servertimeout"), ("lost500",)]), max_size=3),
            "pause": st.sampled_from([0, 10, 90000]),
        }), min_size=1, max_size=4)})


def check_recovery(case, ctx):
    async def main(loop):
        tr, srv, http, _ = build(case)

        def app(req):
            # shape of a camera: either a single request or multipleRequest
            if req.get("method") == "multipleRequest":
                return {"error_code": 0, "result": {"responses": [
                    {"method": r["method"], "error_code": 0, "result": {"got": r.get("params")}}
                    for r in req["params"]["requests"]]}}
            return {"error_code": 0, "system": {"got": req}}

        srv.app = app
        proto = SmartCamProtocol(transport=tr)
        for i, o in enumerate(case["ops"]):
            if o["switch"]:
                srv.reboot()
                srv.secure = not srv.secure
            srv.faults = {"req": list(o["faults"])}
            q = {f"getA{i}": {"m": {"name": [o["req"]]}}, f"getB{i}": {"m": {"name": i}}}
            res = await proto.query(q, retry_count=4)
            eq(res, {k: {"got": v} for k, v in q.items()}, f"op {i}: answer")
            require(not srv.problems, f"op {i}: camera saw", *srv.problems)
            ctx.nontrivial(bool(o["faults"]) or o["switch"])
            await asyncio.sleep(o["pause"])
        await proto.close()

    vtime.run(main)


SUBS = [
    Sub("history", histories, check_history, quick=7500, thorough=60000, shards=8,
        rule="more than one request, or a camera with another account"),
    Sub("recovery", recoveries, check_recovery, quick=2000, thorough=15000, shards=4,
        rule="at least one session loss, disconnection, retryable code, timeout or firmware change"),
]
