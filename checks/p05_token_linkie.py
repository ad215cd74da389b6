"""P05: TLS token-login and Linkie transports against independently written devices."""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from net import FakeSession, HttpNet
from servers import DEFAULTS, LinkieServer, SslServer
from p04_camera import classify, codes, excs, maybe, of_code, of_exc, status

from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily, KasaException
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.transports import LinkieTransportV2, SslTransport

LEVEL = "fault_enumeration"
RULE = "Generated histories against reference devices in virtual time."
ASSUMPTIONS = ["TLS is replaced at the aiohttp session",
               "after an error other than a lost connection the owning protocol resets the transport (P08)"]
HOST = "10.0.0.2"


def account():
    return st.one_of(st.tuples(gen.credential_text(), gen.credential_text()),
                     st.just(DEFAULTS["TAPO"]), st.just(("", "")))


code = st.tuples(st.just("code"), codes)


def token_histories():
    op = st.fixed_dictionaries({
        "req": gen.json_object(6), "resp": gen.json_object(8),
        "login": st.lists(maybe(st.one_of(excs, status, code, code), 3), max_size=2),
        "reqf": maybe(st.one_of(excs, status, code, code, st.tuples(st.just("reboot"))), 2),
        "pause": st.sampled_from([0, 0, 0, 1, 30, 30000, 30000, 50000, 85198, 85201, 86400, 200000]),
    })
    return st.fixed_dictionaries({
        "configured": st.one_of(st.none(), account(), account()),
        "as_hash": st.booleans(),
        "device": st.one_of(st.just("same"), st.just("same"), st.just("default"), account()),
        "login_error": st.sampled_from([-1501, -1501, -1501, 1111, 1003]),
        "http_port": st.one_of(st.none(), st.integers(1, 65535)),
        "override": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(op, min_size=1, max_size=6),
    })


def params(acc):
    return {"username": acc[0], "password": hashlib.md5(acc[1].encode()).hexdigest().upper()}


def build_token(case):
    conf = case["configured"]
    port = case["override"] or case["http_port"] or 4433
    dev = {"same": conf or ("", ""), "default": DEFAULTS["TAPO"]}.get(case["device"], case["device"]) \
        if isinstance(case["device"], str) else case["device"]
    srv = SslServer(dev[0], dev[1], port=port, login_error=case["login_error"], host=HOST, seed=case["seed"])
    http = HttpNet(srv)
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, login_version=2,
                                    https=True, http_port=case["http_port"])
    kw = {}
    if conf is not None:
        if case["as_hash"]:
            kw["credentials_hash"] = base64.b64encode(json.dumps(params(conf)).encode()).decode()
        else:
            kw["credentials"] = Credentials(*conf)
    cfg = DeviceConfig(HOST, connection_type=ct, port_override=case["override"], **kw)
    cfg.http_client = FakeSession(http)
    return SslTransport(config=cfg), srv, http, dev


def check_token(case, ctx):
    cur = {}

    async def main(loop):
        tr, srv, http, dev = build_token(case)
        srv.app = lambda req: {"error_code": 0, "result": {"n": cur["i"], "echo": req, "resp": cur["resp"]}}
        conf, right, default = params(case["configured"] or ("", "")), params(dev), params(DEFAULTS["TAPO"])
        est, since = False, 0.0
        for i, o in enumerate(case["ops"]):
            cur.update(i=i, resp=o["resp"])
            srv.faults = {"login": list(o["login"]), "req": [o["reqf"]]}
            nlog, nplain, nlogin = len(srv.log), len(srv.plain), len(srv.logins)
            request = {"method": "m", "params": {"i": i, "q": o["req"]}}
            try:
                res = ("ok", await tr.send(json.dumps(request)))
                got = "ok"
            except KasaException as ex:
                res = (None, ex)
                got = classify(ex)
            stages = srv.log[nlog:]
            # ---- prediction
            lf = list(o["login"])
            want, stg, lgs = None, [], []

            def login(p):
                stg.append("login")
                f = lf.pop(0) if lf else None
                if f:
                    return of_exc(f[1]) if f[0] == "exc" else of_code(f[1]) if f[0] == "code" else "error"
                lgs.append(p)
                return None if p == right else of_code(case["login_error"])

            if stages[:1] == ["req"]:
                require(est, f"op {i}: request sent without a login")
                require(loop.time() - since < 86400, f"op {i}: request sent with an expired token")
                ctx.label("session-reused")
            else:
                est = False
                want = login(conf)
                if want == ("auth", -1501):
                    ctx.label("default-credentials")
                    want = login(default)
                    if want is not None and not (isinstance(want, tuple) and want[0] == "auth"):
                        want = "any-error"
                if want is None:
                    est, since = True, loop.time()
            if want is None:
                stg.append("req")
                f = o["reqf"]
                if f is None:
                    want = "ok"
                elif f[0] == "reboot":
                    want = ("retry", 9999)
                else:
                    want = of_exc(f[1]) if f[0] == "exc" else of_code(f[1]) if f[0] == "code" else "error"
            info = f"op {i}: outcome ({stages}, {o['login']}, {o['reqf']}, {res[1]!r})"
            eq(stages, stg, f"op {i}: exchange")
            eq(srv.logins[nlogin:], lgs, f"op {i}: logins")
            if want == "any-error":
                require(got != "ok", info)
            else:
                eq(got, want, info)
            require(not srv.problems, f"op {i}: device saw ({stages})", *srv.problems)
            ctx.label(str(want[0] if isinstance(want, tuple) else want))
            if got == "ok":
                eq(srv.plain[nplain:], [request], f"op {i}: request at the device")
                eq(res[1], {"error_code": 0, "result": {"n": i, "echo": request, "resp": o["resp"]}}, f"op {i}: answer")
            elif isinstance(got, tuple) and got[0] == "auth":
                est = False
            elif got != "conn":
                await tr.reset()
                est = False
            if o["pause"]:
                await asyncio.sleep(o["pause"])
        await tr.close()
        ctx.nontrivial(len(case["ops"]) > 1 or case["device"] != "same")

    vtime.run(main)


def token_recoveries():
    return st.fixed_dictionaries({
        "configured": account(), "as_hash": st.booleans(), "device": st.sampled_from(["same", "default"]),
        "login_error": st.just(-1501), "http_port": st.none(), "override": st.none(), "seed": st.integers(0, 2**32),
        "ops": st.lists(st.fixed_dictionaries({
            "req": gen.json_object(4),
            "faults": st.lists(st.sampled_from([("reboot",), ("code", 9999), ("code", -1001), ("exc", "disconnected"),
                                                ("exc", "timeout"), ("exc", "servertimeout")]), max_size=3),
            "pause": st.sampled_from([0, 10, 90000]),
        }), min_size=1, max_size=4)})


def check_token_recovery(case, ctx):
    async def main(loop):
        tr, srv, http, _ = build_token(case)
        srv.app = lambda req: {"error_code": 0, "result": {"got": req.get("params")}}
        proto = SmartProtocol(transport=tr)
        for i, o in enumerate(case["ops"]):
            srv.faults = {"req": list(o["faults"])}
            res = await proto.query({f"get_{i}": {"p": o["req"]}}, retry_count=3)
            eq(res, {f"get_{i}": {"got": {"p": o["req"]}}}, f"op {i}: answer")
            require(not srv.problems, f"op {i}: device saw", *srv.problems)
            ctx.nontrivial(bool(o["faults"]))
            await asyncio.sleep(o["pause"])
        await proto.close()

    vtime.run(main)


# ------------------------------------------------------------------ Linkie
def linkie_histories():
    fault = st.one_of(excs, status, st.tuples(st.just("body"), st.sampled_from(
        [b"", b"!!", b'{"err_code": -1}', b"AAAA", b"[1]", b"\xff\xfe", b"{"])))
    return st.fixed_dictionaries({
        "creds": st.one_of(st.none(), account()), "as_hash": st.booleans(),
        "http_port": st.one_of(st.none(), st.integers(1, 65535)),
        "override": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(st.fixed_dictionaries({
            "req": gen.json_object(8), "resp": gen.json_object(10),
            "faults": st.lists(maybe(fault, 1), max_size=3), "retry": st.integers(0, 3),
            "via": st.sampled_from(["send", "query"]), "pause": st.sampled_from([0, 0, 1, 100000]),
        }), min_size=1, max_size=5)})


def check_linkie(case, ctx):
    cur = {}

    async def main(loop):
        port = case["override"] or case["http_port"] or 10443
        srv = LinkieServer(port=port, host=HOST, seed=case["seed"])
        srv.app = lambda req: {"n": cur["i"], "echo": req, "resp": cur["resp"]}
        http = HttpNet(srv)
        ct = DeviceConnectionParameters(DeviceFamily.IotIpCamera, DeviceEncryptionType.Aes, https=True,
                                        http_port=case["http_port"])
        kw = {}
        if case["creds"]:
            if case["as_hash"]:
                kw["credentials_hash"] = base64.b64encode(":".join(case["creds"]).encode()).decode()
            else:
                kw["credentials"] = Credentials(*case["creds"])
        cfg = DeviceConfig(HOST, connection_type=ct, port_override=case["override"], **kw)
        cfg.http_client = FakeSession(http)
        tr = LinkieTransportV2(config=cfg)
        proto = IotProtocol(transport=tr)
        for i, o in enumerate(case["ops"]):
            cur.update(i=i, resp=o["resp"])
            srv.faults = {"req": list(o["faults"])}
            n, nlog = len(srv.plain), len(srv.log)
            request = {"smartlife.cam.ipcamera.x": {"i": i, "q": o["req"]}}
            try:
                if o["via"] == "send":
                    attempts = 1
                    res = ("ok", await tr.send(json.dumps(request)))
                else:
                    attempts = 1 + o["retry"]
                    res = ("ok", await proto.query(request, retry_count=o["retry"]))
            except KasaException as ex:
                res = ("error", ex)
            require(not srv.problems, f"op {i}: camera saw", *srv.problems)
            fs = (list(o["faults"]) + [None])[:attempts]
            want = "ok" if None in fs else "error"
            eq(res[0], want, f"op {i}: outcome of {o['via']} with {fs} ({res[1]!r})")
            require(len(srv.log) - nlog <= attempts, f"op {i}: more than {attempts} attempts")
            ctx.label(res[0], o["via"])
            if res[0] == "ok":
                eq(srv.plain[n:], [request], f"op {i}: plaintext at the camera")
                eq(res[1], {"n": i, "echo": request, "resp": o["resp"]}, f"op {i}: answer")
                ctx.nontrivial(bool(o["req"]) or bool(o["faults"]))
            await asyncio.sleep(o["pause"])
        await proto.close()

    vtime.run(main)


SUBS = [
    Sub("token", token_histories, check_token, quick=4000, thorough=80000, shards=8,
        rule="more than one request, or a device with another account"),
    Sub("token_recovery", token_recoveries, check_token_recovery, quick=800, thorough=15000, shards=4,
        rule="at least one injected session loss, disconnection, retryable code or timeout"),
    Sub("linkie", linkie_histories, check_linkie, quick=1500, thorough=30000, shards=4,
        rule="an answered request with content or injected faults"),
]
