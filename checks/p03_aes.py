"""P03: AES securePassthrough transport against an independent device."""
from __future__ import annotations

import asyncio
import base64
import json

from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import rsa
from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from net import FakeSession, HttpNet
from servers import DEFAULTS, AesServer

from kasa import (AuthenticationError, Credentials, DeviceConfig, DeviceConnectionParameters,
                  DeviceEncryptionType, DeviceError, DeviceFamily, KasaException)
from kasa.exceptions import TimeoutError as KasaTimeout, _ConnectionError
from kasa.protocols import SmartProtocol
from kasa.transports import AesTransport

LEVEL = "fault_enumeration"
RULE = "Generated histories against a reference securePassthrough device in virtual time."
ASSUMPTIONS = ["RSA/AES primitives of the cryptography package are correct",
               "after an error the owning protocol resets the transport (checked in P08)"]
HOST = "10.0.0.2"
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}
KNOWN = {1002, 1112, -1001, 9999, -40401, -40413, 1000, 1001, 1200, -1, -1002, -1003, -1008, -1101,
         -1301, -1601, -2101, -40101}


def mkkeys():
    out = []
    for _ in range(2):
        k = rsa.generate_private_key(public_exponent=65537, key_size=1024)
        out.append({
            "private": base64.b64encode(k.private_bytes(
                serialization.Encoding.DER, serialization.PrivateFormat.PKCS8,
                serialization.NoEncryption())).decode(),
            "public": base64.b64encode(k.public_key().public_bytes(
                serialization.Encoding.DER,
                serialization.PublicFormat.SubjectPublicKeyInfo)).decode()})
    return out


KEYS = mkkeys()

codes = st.one_of(st.sampled_from(sorted(AUTH)), st.sampled_from(sorted(KNOWN)),
                  st.sampled_from([7, -987654, 123456]))
excs = st.tuples(st.just("exc"), st.sampled_from(["disconnected", "oserror", "servertimeout", "timeout", "payload"]))
status = st.tuples(st.just("status"), st.sampled_from([400, 401, 403, 500, 503]))
code = st.tuples(st.just("code"), codes)
fault_hs = st.one_of(excs, status, code)
fault_login = st.one_of(excs, status, code, code, st.tuples(st.just("inner"), codes))
fault_req = st.one_of(excs, status, code, code, st.tuples(st.just("reboot")), st.tuples(st.just("plainresp")),
                      st.tuples(st.just("garble"), st.sampled_from(["", "!!", "AAAA", "A" * 22 + "==", "é", "x" * 64])))


def maybe(s, n=4):
    return st.one_of(*[st.none()] * n, s)


def account():
    return st.one_of(st.tuples(gen.credential_text(), gen.credential_text()),
                     st.just(DEFAULTS["TAPO"]), st.just(("", "")))


def histories():
    op = st.fixed_dictionaries({
        "req": gen.json_object(6), "resp": gen.json_object(8),
        "hs": st.lists(maybe(fault_hs), max_size=2),
        "login": st.lists(maybe(fault_login), max_size=2),
        "reqf": maybe(fault_req, 2),
        "pause": st.sampled_from([0, 0, 0, 1, 30, 599, 2399, 2401, 3600, 30000, 50000, 85199, 85201, 86400, 200000]),
    })
    return st.fixed_dictionaries({
        "lv": st.sampled_from([None, 1, 2, 2]),
        "configured": st.one_of(st.none(), account(), account(), account()),
        "as_hash": st.booleans(),
        "device": st.one_of(st.just("same"), st.just("same"), st.just("same"), account()),
        "login_error": st.sampled_from([-1501, -1501, -1501, 1111, 1003]),
        "cookie": st.sampled_from(["TP_SESSIONID", "TP_SESSIONID", "SESSIONID", None]),
        "timeout": st.sampled_from([86400, 86400, 3600, 1201, 600]),
        "timeout_cookie": st.sampled_from([True, True, False]),
        "http_port": st.one_of(st.none(), st.integers(1, 65535)),
        "override": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "keys": st.sampled_from([0, 1, 0, 1, 0, 1, 0, None]),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(op, min_size=1, max_size=5),
    })


def build(case):
    configured = case["configured"]
    dev = case["device"] if case["device"] != "same" else (configured or ("", ""))
    srv = AesServer(case["lv"], dev[0], dev[1], login_error=case["login_error"], cookie=case["cookie"],
                    timeout=case["timeout"] if case["timeout_cookie"] else 86400,
                    use_timeout_cookie=case["timeout_cookie"], host=HOST, seed=case["seed"])
    srv.ssl_expected = False
    http = HttpNet(srv)
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes,
                                    login_version=case["lv"], http_port=case["http_port"])
    kw = {}
    if configured is not None:
        if case["as_hash"]:
            kw["credentials_hash"] = base64.b64encode(
                json.dumps(srv.hashed(*configured)).encode()).decode()
        else:
            kw["credentials"] = Credentials(*configured)
    cfg = DeviceConfig(HOST, connection_type=ct, port_override=case["override"],
                       aes_keys=KEYS[case["keys"]] if case["keys"] is not None else None, **kw)
    cfg.http_client = FakeSession(http)
    return AesTransport(config=cfg), srv, http, dev


def of_exc(name):
    return {"servertimeout": "timeout", "timeout": "timeout", "disconnected": "conn",
            "oserror": "conn"}.get(name, "error")


def of_code(n):
    if n in AUTH:
        return ("auth", n)
    return ("device", n if n in KNOWN else -100000)


def classify(ex):
    if isinstance(ex, KasaTimeout):
        return "timeout"
    if isinstance(ex, _ConnectionError):
        return "conn"
    if isinstance(ex, AuthenticationError):
        return ("auth", int(ex.error_code) if ex.error_code is not None else None)
    if isinstance(ex, DeviceError):
        return ("device", int(ex.error_code) if ex.error_code is not None else None)
    return "error"


def check_history(case, ctx):
    cur = {}

    async def main(loop):
        tr, srv, http, dev = build(case)
        srv.app = lambda req: {"error_code": 0, "result": {"n": cur["i"], "echo": req, "resp": cur["resp"]}}
        port = case["override"] or case["http_port"] or 80
        configured = srv.hashed(*(case["configured"] or ("", "")))
        default = srv.hashed(*DEFAULTS["TAPO"])
        right = srv.hashed(*dev)
        est = False          # the session is established and was not refused
        half = False         # key exchange done, login still missing
        for i, o in enumerate(case["ops"]):
            cur.update(i=i, resp=o["resp"])
            hsf, lgf = list(o["hs"]), list(o["login"])
            srv.faults = {"hs": list(hsf), "login": list(lgf), "req": [o["reqf"]]}
            nlog, nplain, nraw, nlogin = len(srv.log), len(srv.plain), len(http.requests), len(srv.logins)
            request = {"method": "m", "params": {"i": i, "q": o["req"]}}
            try:
                res = ("ok", await tr.send(json.dumps(request)))
                got = "ok"
            except KasaException as ex:
                res = (None, ex)
                got = classify(ex)
            stages = srv.log[nlog:]
            require(not srv.problems, f"op {i}: device saw ({stages})", *srv.problems)
            for r in http.requests[nraw:]:
                eq(r.port, port, "port used")
            # ---- prediction
            want_stages, want_logins = [], []
            outcome = None

            def hs():
                want_stages.append("hs")
                f = hsf.pop(0) if hsf else None
                if f is None:
                    return None
                return of_exc(f[1]) if f[0] == "exc" else of_code(f[1]) if f[0] == "code" else "error"

            def login(params):
                want_stages.append("login")
                f = lgf.pop(0) if lgf else None
                if f and f[0] in ("exc", "status", "code"):
                    return of_exc(f[1]) if f[0] == "exc" else of_code(f[1]) if f[0] == "code" else "error"
                want_logins.append(params)
                if f:
                    return of_code(f[1])
                return None if params == right else of_code(case["login_error"])

            first = stages[0] if stages else None
            if first == "req":
                require(est, f"op {i}: request sent although the session was lost")
                ctx.label("session-reused")
            elif first == "login":
                require(half, f"op {i}: login without a key exchange")
            in_default = False
            if first == "hs":
                est = half = False
                outcome = hs()
                half = outcome is None
            if outcome is None and first in ("hs", "login"):
                outcome = login(configured)
                if outcome == ("auth", -1501):
                    ctx.label("default-credentials")
                    in_default = True
                    half = False
                    outcome = hs()
                    half = outcome is None
                    if outcome is None:
                        outcome = login(default)
                if outcome is None:
                    est, half = True, False
                elif isinstance(outcome, tuple) and outcome[0] == "auth":
                    est = half = False
            if outcome is None:
                want_stages.append("req")
                f = o["reqf"]
                if f is None or f[0] == "plainresp":
                    outcome = "ok"
                elif f[0] == "exc":
                    outcome = of_exc(f[1])
                elif f[0] == "code":
                    outcome = of_code(f[1])
                elif f[0] == "reboot":
                    outcome = ("device", 9999)
                else:
                    outcome = "error"
                if isinstance(outcome, tuple) and outcome[0] == "auth":
                    est = False
            eq(stages, want_stages, f"op {i}: exchange")
            eq(srv.logins[nlogin:], want_logins, f"op {i}: logins attempted")
            if in_default and isinstance(outcome, tuple) and outcome[0] == "device":
                require(got == "error" or got == outcome, f"op {i}: outcome {got}, expected a library error")
            else:
                eq(got, outcome, f"op {i}: outcome")
            ctx.label(str(outcome[0] if isinstance(outcome, tuple) else outcome))
            if res[0] == "ok":
                eq(srv.plain[nplain:], [request], f"op {i}: plaintext at the device")
                eq(res[1], {"error_code": 0, "result": {"n": i, "echo": request, "resp": o["resp"]}},
                   f"op {i}: answer")
            elif got != "conn" and not (isinstance(got, tuple) and got[0] == "auth"):
                await tr.reset()        # what the protocols do after any other failure
                est = half = False
            if o["pause"]:
                await asyncio.sleep(o["pause"])
        await tr.close()
        ctx.nontrivial(len(case["ops"]) > 1 or case["device"] != "same")

    vtime.run(main)


def recoveries():
    return st.fixed_dictionaries({
        "lv": st.sampled_from([1, 2]), "configured": account(), "as_hash": st.booleans(),
        "device": st.just("same"), "login_error": st.just(-1501), "cookie": st.just("TP_SESSIONID"),
        "timeout": st.just(86400), "timeout_cookie": st.just(True), "http_port": st.none(),
        "override": st.none(), "keys": st.sampled_from([0, 1]), "seed": st.integers(0, 2**32),
        "ops": st.lists(st.fixed_dictionaries({
            "req": gen.json_object(4),
            "faults": st.lists(st.sampled_from([("reboot",), ("code", 9999), ("code", -1001), ("exc", "disconnected"),
                                                ("exc", "timeout"), ("exc", "servertimeout")]), max_size=3),
            "pause": st.sampled_from([0, 10, 90000]),
        }), min_size=1, max_size=4)})


def check_recovery(case, ctx):
    async def main(loop):
        tr, srv, http, _ = build(case)
        srv.app = lambda req: {"error_code": 0, "result": {"got": req.get("params")}}
        proto = SmartProtocol(transport=tr)
        for i, o in enumerate(case["ops"]):
            srv.faults = {"req": list(o["faults"])}
            res = await proto.query({f"get_{i}": {"p": o["req"]}}, retry_count=3)
            eq(res, {f"get_{i}": {"got": {"p": o["req"]}}}, f"op {i}: answer")
            require(not srv.problems, f"op {i}: device saw", *srv.problems)
            ctx.nontrivial(bool(o["faults"]))
            await asyncio.sleep(o["pause"])
        await proto.close()

    vtime.run(main)


SUBS = [
    Sub("history", histories, check_history, quick=4800, thorough=50000, shards=8,
        rule="more than one request, or a device with other credentials"),
    Sub("recovery", recoveries, check_recovery, quick=1200, thorough=12000, shards=4,
        rule="at least one injected session loss, disconnection, retryable code or timeout"),
]
