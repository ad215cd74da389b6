"""P15: a discovered device is reachable with the configuration discovery produced."""
from __future__ import annotations

import contextlib
import json
import logging

from hypothesis import strategies as st

import disco
import iotsim
import vtime
from core import Sub, eq, judging, require
from net import HttpNet, Net, Reply, TcpJson, patch_default_session

from kasa import Credentials, Device, DeviceConfig, Discover, KasaException, UnsupportedDeviceError
from kasa.iot import IotDevice
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

LEVEL = "exploration"
RULE = "Generated discovery answers against an independent table of device families and connection types."
ASSUMPTIONS = ["UDP endpoint, TCP and HTTP replaced in memory",
               "device classes' update() replaced by a recorder when reconnecting to devices that are not on port 9999"]

FAMILIES = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", *disco.SMART_FAMILIES, *disco.CAM_FAMILIES,
            "SMART.TAPOROBOVAC"]
IP = "10.0.0.2"


def cases():
    keep = st.just("keep")
    new = st.fixed_dictionaries({
        "kind": st.just("new"),
        "base": st.sampled_from(disco.new_names()),
        "family": st.one_of(keep, keep, st.sampled_from(FAMILIES), st.sampled_from(FAMILIES),
                            st.sampled_from(["SMART.TOASTER", "SMARTX", "IOT.TOASTER", "", "smart.tapoplug",
                                             "SMART.TAPOPLUG ", "MATTER.TAPOPLUG"])),
        "enc": st.one_of(keep, st.sampled_from(["AES", "KLAP", "XOR"]), st.sampled_from([None, "", "aes", "TPAP", "DES"])),
        "https": st.one_of(keep, st.booleans()),
        "lv": st.one_of(keep, st.sampled_from([None, 1, 2, 3])),
        "http_port": st.one_of(keep, st.sampled_from([None, 80, 443, 4433, 20443, 8080])),
        "types": st.sampled_from(["keep", None, ["1", "2"], ["3"], ["2"], ["1", "3", "2"]]),
        "schm": st.sampled_from(["keep"] * 8 + [None]),
        "model": st.one_of(keep, st.sampled_from(["P110(EU)", "P110", "X(Y)(Z)", "Böd(US)", "L 900"])),
        "drop": st.lists(st.sampled_from(["owner", "obd_src", "hw_ver", "factory_default", "is_support_iot_cloud",
                                          "device_name", "firmware_version", "isResetWiFi"]), max_size=3),
        "extra": st.dictionaries(st.sampled_from(["protocol_version", "xyz", "is_new"]),
                                 st.one_of(st.integers(), st.text(max_size=4), st.none(), st.lists(st.integers())), max_size=2),
        "info": st.sampled_from(["keep", "drop", "good", "good", "garbage", "othersym"]),
        "data": st.dictionaries(st.sampled_from(["connect_type", "connect_ssid", "device_id", "mac", "hw_version"]),
                                st.one_of(st.text(max_size=20), st.integers()), max_size=4),
        "port": st.sampled_from([None, None, None, 1234]),
    })
    legacy = st.fixed_dictionaries({
        "kind": st.just("legacy"),
        "base": st.sampled_from(disco.legacy_names() + ["CAMERA"]),
        "alias": st.text(max_size=10),
        "tweak": st.sampled_from(["keep"] * 5 + ["mic", "family", "notype", "dimmer", "light", "length"]),
        "port": st.sampled_from([None, None, 10001]),
    })
    return st.fixed_dictionaries({
        "dev": st.one_of(new, new, new, legacy),
        "creds": st.booleans(), "timeout": st.sampled_from([None, None, 7]), "debug": st.booleans(),
        "name": st.booleans(), "hash": st.booleans(),
    })


def legacy_info(d):
    if d["base"] == "CAMERA":
        info = {"system": {"get_sysinfo": json.loads(json.dumps(disco.camera_info()))}}
        return info
    info = disco.legacy_info(d["base"], d["alias"])
    s = info["system"]["get_sysinfo"]
    tkey = "type" if "type" in s else "mic_type"
    t = d["tweak"]
    if t == "mic":
        s["mic_type" if tkey == "type" else "type"] = s.pop(tkey)
    elif t == "family":
        s[tkey] = "IOT.TOASTER"
    elif t == "notype":
        s.pop(tkey)
    elif t == "dimmer":
        s["dev_name"] = "Wi-Fi Smart Dimmer"
    elif t == "light":
        s["dev_name"] = "Smart Wi-Fi Light Switch"
    elif t == "length":
        s["length"] = 16
    return info


def build(d, pub):
    """-> (source port, packet, verdict, expectation)"""
    if d["kind"] == "legacy":
        info = legacy_info(d)
        s = info["system"]["get_sysinfo"]
        t = s.get("mic_type", s.get("type"))
        cls = disco.legacy_class(s)
        verdict = "ok" if cls and d["tweak"] != "family" else "unsupported"
        if d["tweak"] == "notype":
            verdict = "invalid"
        exp = {"cls": cls, "protocol": "IotProtocol", "transport": "XorTransport", "port": 9999, "https": False,
               "login_version": None, "encryption": "XOR", "family": t, "http_port": None,
               "model": s["model"].partition("(")[0] if "model" in s else None, "alias": s.get("alias"),
               "long": s.get("model")}
        return d["port"] or 9999, disco.legacy_packet(info), verdict, exp, info
    r = disco.new_result(d["base"], IP + "/" + "A" * 30)
    if d["schm"] is None:
        r.pop("mgt_encrypt_schm", None)
    elif "mgt_encrypt_schm" in r:
        schm = r["mgt_encrypt_schm"]
        for key, name in (("enc", "encrypt_type"), ("https", "is_support_https"), ("lv", "lv"), ("http_port", "http_port")):
            if d[key] is None:
                schm.pop(name, None)
            elif d[key] != "keep":
                schm[name] = d[key]
    if d["family"] != "keep":
        r["device_type"] = d["family"]
    if d["types"] is None:
        r.pop("encrypt_type", None)
    elif d["types"] != "keep":
        r["encrypt_type"] = list(d["types"])
    if d["model"] != "keep":
        r["device_model"] = d["model"]
    for k in d["drop"]:
        r.pop(k, None)
    r.update(d["extra"])
    if d["info"] == "drop":
        r.pop("encrypt_info", None)
    elif d["info"] == "good":
        r["encrypt_info"] = disco.encrypt_info(pub, d["data"])
    elif d["info"] == "garbage":
        r["encrypt_info"] = {"sym_schm": "AES", "key": "AAAA", "data": "!!"}
    elif d["info"] == "othersym":
        r["encrypt_info"] = {"sym_schm": "ROT", "key": "AAAA", "data": "!!"}
    verdict, exp = disco.expected(r)
    if exp:
        exp["model"] = r["device_model"].partition("(")[0]
    info = {"error_code": 0, "result": r}
    return 20002, disco.new_packet(info), verdict, exp, info


def check(case, ctx):
    d = case["dev"]
    net = Net()
    host = "plug.example" if case["name"] else IP
    net.dns["plug.example"] = IP
    got = {}
    creds = Credentials("user@example.com", "pass word") if case["creds"] else None
    out = {}

    async def main(loop):
        def answer(tr):
            probe = [p for _, p, a in tr.sent if a[1] == 20002]
            pub = disco.public_key(probe[0]) if probe else None
            require(pub is not None, "no valid probe with a public key was sent to port 20002")
            port, data, out["verdict"], out["exp"], out["info"] = build(d, pub)
            tr.deliver(data, (IP, port))

        def opened(tr):
            loop.call_later(0.5, answer, tr)

        net.udp_on_open = opened
        try:
            got["dev"] = await Discover.discover_single(
                host, credentials=creds, port=d["port"], timeout=case["timeout"], discovery_timeout=3)
        except KasaException as ex:
            got["exc"] = ex
        require(not loop.unhandled, "the answer raised", *[repr(u.get("exception")) for u in loop.unhandled])
        if "dev" in got and out["verdict"] == "ok":
            await judge(loop)

    async def judge(loop):
        dev, exp = got["dev"], out["exp"]
        with judging("the discovered device"):
            eq(type(dev).__name__, exp["cls"], "class")
            eq(dev.host, host, "host")
            eq(dev.model, exp["model"], "model")
            eq(type(dev.protocol).__name__, exp["protocol"], "protocol")
            cfg = dev.config
            ct = cfg.connection_type
            eq(ct.device_family.value, exp["family"], "family")
            eq(ct.encryption_type.value, exp["encryption"], "encryption")
            eq(ct.https, exp["https"], "https")
            eq(ct.login_version, exp["login_version"], "login version")
            eq(ct.http_port, exp["http_port"], "http port")
            eq(cfg.credentials, creds, "credentials")
            eq(cfg.timeout, case["timeout"] or 5, "timeout")
            eq(cfg.port_override, d["port"], "port override")
            eq(cfg.host, host, "host of the configuration")
            repr(dev)
            if d["kind"] == "new":
                r = out["info"]["result"]
                if "Smart" in exp["cls"]:
                    eq(dev.device_id, r["device_id"], "device id")
                eq(dev.mac.replace("-", ":").lower(), r["mac"].replace("-", ":").lower(), "mac")
                if d["info"] == "good":
                    eq((dev._discovery_info or {}).get("decrypted_data"), d["data"], "decrypted discovery data")
            else:
                eq(dev.alias, exp["alias"], "alias")
        # ---- the same connection from the serialised configuration
        text = json.dumps(cfg.to_dict_control_credentials(exclude_credentials=case["hash"]))
        cfg2 = DeviceConfig.from_dict(json.loads(text))
        where = d["port"] or exp["port"]
        net.tcp[(host, where)] = TcpJson(lambda req: {"system": {"get_sysinfo": legacy_sys(out, exp)}})
        with recorded_updates() as updated:
            dev2 = await Device.connect(config=cfg2)
        eq(type(dev2).__name__, exp["cls"], "class after reconnecting")
        require(updated and updated[-1] is dev2, "the reconnected device was not updated")
        for what, dv in (("discovered", dev), ("reconnected", dev2)):
            eq(type(dv.protocol).__name__, exp["protocol"], f"protocol of the {what} device")
            eq(type(dv.protocol._transport).__name__, exp["transport"], f"transport of the {what} device")
        await dev2.disconnect()
        # ---- where does the device get contacted?
        for what, dv in (("discovered", dev), ("reconnected", dev2)):
            seen = await first_contact(net, dv, exp)
            require(seen is not None and seen[1] in (host, IP), f"the {what} device was contacted at {seen}")
            eq((seen[0], seen[2]), (("https" if exp["https"] else "http") if exp["transport"] != "XorTransport" else "tcp",
                                    where), f"the {what} device was contacted at")
            await dv.disconnect()

    log = logging.getLogger("kasa")
    level = log.level
    log.setLevel(logging.DEBUG if case["debug"] else logging.CRITICAL)
    try:
        vtime.run(main, net=net)
    finally:
        log.setLevel(level)
    verdict = out["verdict"]
    ctx.label(verdict, d["kind"])
    if verdict == "ok":
        require("dev" in got and got["dev"] is not None, f"discovery of {out['exp']} failed: {got.get('exc')!r}")
        ctx.label(out["exp"]["cls"] + "/" + out["exp"]["transport"])
        ctx.nontrivial()
    elif verdict == "unsupported":
        ex = got.get("exc")
        require(isinstance(ex, UnsupportedDeviceError),
                f"unsupported {out['info'].get('result', {}).get('device_type')}"
                f" {out['info'].get('result', {}).get('mgt_encrypt_schm')}: {ex!r} {got.get('dev')!r}")
        eq(ex.host, IP, "host of the error")
        ctx.nontrivial()
    elif verdict == "invalid":
        require(isinstance(got.get("exc"), KasaException), f"no device type: {got}")


def legacy_sys(out, exp):
    if "system" in out["info"]:
        return out["info"]["system"]["get_sysinfo"]
    name = next(n for n in iotsim.fixtures() if disco.legacy_class(iotsim.sysinfo(n)) == exp["cls"])
    return iotsim.sysinfo(name)


@contextlib.contextmanager
def recorded_updates():
    updated = []
    saved = [(c, c.update) for c in (IotDevice, SmartDevice)]
    sub = [(c, c.__dict__["update"]) for c in subclasses(IotDevice) + subclasses(SmartDevice)
           if "update" in c.__dict__ and c not in (IotDevice, SmartDevice)]

    async def update(self, *a, **k):
        updated.append(self)

    try:
        for c, _ in saved + sub:
            c.update = update
        yield updated
    finally:
        for c, f in saved + sub:
            c.update = f


def subclasses(c):
    out = []
    for s in c.__subclasses__():
        out += [s, *subclasses(s)]
    return out


async def first_contact(net, dev, exp):
    """Where the first request of a device goes; the request is refused."""
    seen = []

    def handler(req):
        seen.append((req.u.scheme, req.host, req.port))
        return Reply(status=400, body=b"")

    n = len(net.conns)
    undo = patch_default_session(HttpNet(handler))
    try:
        with contextlib.suppress(KasaException):
            await dev.protocol.query({"system": {"get_sysinfo": {}}} if exp["protocol"] == "IotProtocol"
                                     else {"get_device_info": None}, retry_count=0)
    finally:
        undo()
    if seen:
        return seen[0]
    return ("tcp", *net.conns[n].addr) if len(net.conns) > n else None


SUBS = [Sub("answers", cases, check, quick=15000, thorough=60000, shards=8,
            rule="the answer describes a supported device or an unsupported one (verdict not left open)")]
