"""P02: KLAP transport against an independently written KLAP device."""
from __future__ import annotations

import asyncio
import base64
import json

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, Violation, eq, judging, require
from net import FakeSession, HttpNet
from servers import DEFAULTS, KlapServer

from kasa import Credentials, DeviceConfig, KasaException, AuthenticationError
from kasa import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.transports import KlapTransport, KlapTransportV2

LEVEL = "fault_enumeration"
RULE = "Generated histories against a reference KLAP device in virtual time."
ASSUMPTIONS = ["hashlib and AES-CBC/PKCS7 of the cryptography package are correct",
               "HTTP layer replaced at the injected aiohttp session"]
HOST = "10.0.0.2"

fault_hs1 = st.one_of(
    st.tuples(st.just("status"), st.sampled_from([400, 401, 403, 404, 500, 503])),
    st.tuples(st.just("forge"), st.integers(0, 255)),
    st.tuples(st.just("forge_seed"), st.integers(0, 255)),
    st.tuples(st.just("len"), st.sampled_from([0, 1, 15, 16, 32, 47, 49, 64])),
    st.tuples(st.just("exc"), st.sampled_from(["disconnected", "oserror", "servertimeout", "timeout", "payload"])),
)
fault_hs2 = st.one_of(
    st.tuples(st.just("status"), st.sampled_from([400, 401, 403, 404, 500, 503])),
    st.tuples(st.just("exc"), st.sampled_from(["disconnected", "oserror", "servertimeout", "timeout"])),
)
fault_req = st.one_of(
    st.tuples(st.just("status"), st.sampled_from([403, 403, 403, 400, 401, 404, 500, 503])),
    st.tuples(st.just("reboot")),
    st.tuples(st.just("foreign"), st.integers(0, 255)),
    st.tuples(st.just("truncate"), st.integers(0, 14)),
    st.tuples(st.just("plain"), st.sampled_from([b"", b"not json", b'{"a":', b"\xff\xfe\x00", b'{"a":1}x'])),
    st.tuples(st.just("body"), st.sampled_from([b"", b"x", b"y" * 32, b"z" * 48, b"{}" * 40])),
    st.tuples(st.just("exc"), st.sampled_from(["disconnected", "oserror", "servertimeout", "timeout", "payload"])),
)


def account():
    return st.one_of(
        st.tuples(gen.credential_text(), gen.credential_text()),
        st.sampled_from(list(DEFAULTS.values())),
        st.just(("", "")),
    )


def op():
    return st.fixed_dictionaries({
        "req": gen.json_object(6), "resp": gen.json_object(8),
        "hs1": st.one_of(st.none(), st.none(), st.none(), st.none(), fault_hs1),
        "hs2": st.one_of(st.none(), st.none(), st.none(), st.none(), fault_hs2),
        "reqf": st.one_of(st.none(), st.none(), fault_req),
        "pause": st.sampled_from([0, 0, 0, 1, 30, 599, 2399, 2401, 3599, 3600, 30000, 45000, 85199, 85201, 86399, 86400, 200000]),
        "reset": st.sampled_from([False, False, False, False, True]),
        # the device is set up (again) with this account afterwards
        "setup": st.one_of(st.none(), st.none(), st.none(), st.none(), st.just("configured"), account()),
    })


def histories():
    return st.fixed_dictionaries({
        "version": st.sampled_from([1, 2]),
        "configured": st.one_of(st.none(), account(), account(), account()),
        "as_hash": st.booleans(),
        "device": st.one_of(st.just("same"), st.just("same"), st.just("same"), account()),
        "timeout": st.sampled_from([86400, 86400, 86400, 3600, 1201, 1200, 600]),
        "timeout_cookie": st.sampled_from([True, True, True, False]),
        "https": st.booleans(),
        "http_port": st.one_of(st.none(), st.integers(1, 65535)),
        "override": st.one_of(st.none(), st.none(), st.integers(1, 65535)),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(op(), min_size=1, max_size=6),
    })


def setup(case, resp):
    """-> (transport factory, server, httpnet, should_match)"""
    configured = case["configured"]
    if case["device"] == "same":
        dev = configured if configured is not None else ("", "")
    else:
        dev = case["device"]
    timeout = case["timeout"] if case["timeout_cookie"] else 86400
    srv = KlapServer(case["version"], dev[0], dev[1], timeout=timeout,
                     use_timeout_cookie=case["timeout_cookie"], host=HOST, seed=case["seed"])
    srv.app = resp
    srv.ssl_expected = case["https"]
    http = HttpNet(srv)
    def match(acc):
        return acc in [configured, ("", ""), *DEFAULTS.values()]
    cls = KlapTransport if case["version"] == 1 else KlapTransportV2

    def make():
        ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap,
                                        login_version=2, https=case["https"],
                                        http_port=case["http_port"])
        kw = {}
        if configured is not None:
            if case["as_hash"]:
                kw["credentials_hash"] = base64.b64encode(
                    KlapServer(case["version"], *configured).auth).decode()
            else:
                kw["credentials"] = Credentials(*configured)
        cfg = DeviceConfig(HOST, timeout=5, connection_type=ct, port_override=case["override"], **kw)
        cfg.http_client = FakeSession(http)
        return cls(config=cfg)

    port = case["override"] or case["http_port"] or (4433 if case["https"] else 80)
    return make, srv, http, match, port


def classify(ex):
    if isinstance(ex, KasaTimeout):
        return "timeout"
    if isinstance(ex, AuthenticationError):
        return "auth"
    return "error"


EXC = {"servertimeout": "timeout", "timeout": "timeout"}


def check_history(case, ctx):
    cur = {}

    def app(req):
        return {"n": cur["i"], "echo": req, "resp": cur["resp"]}

    async def main(loop):
        make, srv, http, matches, port = setup(case, app)
        tr = make()
        est = False
        dev = case["device"] if case["device"] != "same" else case["configured"] or ("", "")
        exported = tr.credentials_hash
        for i, o in enumerate(case["ops"]):
            cur.update(i=i, resp=o["resp"])
            srv.faults = {k: v for k, v in (("hs1", o["hs1"]), ("hs2", o["hs2"]), ("req", o["reqf"])) if v}
            nlog, nplain, nraw = len(srv.log), len(srv.plain), len(http.requests)
            srv.rebooted = False
            request = {"i": i, "q": o["req"]}
            try:
                res = ("ok", await tr.send(json.dumps(request)))
            except KasaException as ex:
                res = (classify(ex), ex)
            stages = srv.log[nlog:]
            match = matches(dev)
            ctx.label(res[0])
            eq(tr.credentials_hash, exported, f"op {i}: credentials hash of the transport")
            for r in http.requests[nraw:]:
                eq(r.port, port, "port used")
            require(not srv.problems, f"op {i}: device saw", *srv.problems)
            if stages[:1] == ["req"]:
                require(est, f"op {i}: request sent without a handshake after the session was lost")
                ctx.label("session-reused")
            require(stages in (["req"], ["hs1"], ["hs1", "hs2"], ["hs1", "hs2", "req"]),
                    f"op {i}: unexpected exchange {stages}")
            # expected outcome
            expected = "ok"
            if "hs1" in stages:
                f = o["hs1"]
                est = False
                if f and f[0] == "exc":
                    expected = EXC.get(f[1], "error")
                elif f and f[0] in ("status", "len"):
                    expected = "error"
                elif (f and (f[0] == "forge" or (f[0] == "forge_seed" and case["version"] == 2))) or not match:
                    expected = "auth"
                if expected != "ok":
                    eq(stages, ["hs1"], f"op {i}: exchange after a failed handshake1")
            if "hs2" in stages:
                f = o["hs2"]
                if f:
                    expected = EXC.get(f[1], "error") if f[0] == "exc" else "error"
                    eq(stages[-1], "hs2", f"op {i}: last message after a failed handshake2")
                else:
                    est = True
            if "req" in stages:
                f = o["reqf"]
                if f:
                    ctx.label("req:" + f[0])
                    expected = EXC.get(f[1], "error") if f[0] == "exc" else "error"
                    if f[0] == "reboot" or f[:2] == ("status", 403):
                        est = False
            eq(res[0], expected, f"op {i}: outcome ({stages}, {o['hs1']}, {o['hs2']}, {o['reqf']})")
            if res[0] == "ok":
                eq(srv.plain[nplain:], [request], f"op {i}: plaintext at the device")
                eq(res[1], {"n": i, "echo": request, "resp": o["resp"]}, f"op {i}: answer")
            if o["reset"]:
                await tr.reset()
                est = False
            if o["setup"] is not None:
                dev = (case["configured"] or ("", "")) if o["setup"] == "configured" else o["setup"]
                srv.set_account(*dev)
                srv.reboot()
                await tr.reset()
                est = False
                ctx.label("set up again")
            if o["pause"]:
                ctx.label("pause" if o["pause"] < 3000 else "long-pause")
                await asyncio.sleep(o["pause"])
        await tr.close()
        ctx.nontrivial(len(case["ops"]) > 1 or not match)
        ctx.label("match" if match else "mismatch", f"v{case['version']}")

    vtime.run(main)


def recoveries():
    return st.fixed_dictionaries({
        "version": st.sampled_from([1, 2]),
        "smart": st.booleans(),
        "creds": account(),
        "seed": st.integers(0, 2**32),
        "ops": st.lists(st.fixed_dictionaries({
            "req": gen.json_object(4),
            "faults": st.lists(st.sampled_from([("reboot",), ("status", 403), ("exc", "disconnected"),
                                                ("exc", "timeout"), ("exc", "servertimeout")]), max_size=3),
            "hsfaults": st.lists(st.sampled_from([None, None, ("exc", "oserror"), ("exc", "timeout")]), max_size=2),
            "pause": st.sampled_from([0, 10, 90000]),
        }), min_size=1, max_size=5),
    })


def check_recovery(case, ctx):
    """Through the protocol: any recoverable trouble within the retry budget ends in the right answer."""
    async def main(loop):
        c = {"configured": case["creds"], "as_hash": False, "device": "same", "timeout": 86400,
             "timeout_cookie": True, "https": False, "http_port": None, "override": None,
             "seed": case["seed"], "version": case["version"]}
        make, srv, http, _, _ = setup(c, None)
        proto = (SmartProtocol if case["smart"] else IotProtocol)(transport=make())

        def app(req):
            if not case["smart"]:
                return {"sys": req}
            return {"error_code": 0, "result": {"got": req.get("params"), "m": req["method"]}}
        srv.app = app
        for i, o in enumerate(case["ops"]):
            hsf = [f for f in o["hsfaults"] if f]
            faults = list(o["faults"])[: 3 - len(hsf)]
            srv.faults = {"req": faults, "hs1": list(hsf)}
            total = 3
            if case["smart"]:
                res = await proto.query({f"get_{i}": {"p": o["req"]}}, retry_count=total)
                eq(res, {f"get_{i}": {"got": {"p": o["req"]}, "m": f"get_{i}"}}, f"op {i}: answer")
            else:
                res = await proto.query({"i": i, "q": o["req"]}, retry_count=total)
                eq(res, {"sys": {"i": i, "q": o["req"]}}, f"op {i}: answer")
            require(not srv.problems, f"op {i}: device saw", *srv.problems)
            ctx.nontrivial(bool(faults or hsf))
            for f in faults:
                ctx.label(":".join(map(str, f)))
            await asyncio.sleep(o["pause"])
        await proto.close()

    vtime.run(main)


SUBS = [
    Sub("history", histories, check_history, quick=6000, thorough=60000, shards=8,
        rule="more than one request, or non-matching credentials"),
    Sub("recovery", recoveries, check_recovery, quick=2000, thorough=16000, shards=4,
        rule="at least one injected session loss, disconnection or timeout"),
]
