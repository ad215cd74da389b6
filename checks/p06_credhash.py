"""P06: a credentials hash is equivalent to the credentials it came from."""
from __future__ import annotations

import json

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from net import FakeSession, HttpNet
from servers import DEFAULTS, AesServer, CameraServer, KlapServer, LinkieServer, SslServer
from p03_aes import KEYS

from kasa import (AuthenticationError, Credentials, DeviceConfig, DeviceConnectionParameters,
                  DeviceEncryptionType, DeviceFamily, KasaException)
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.iot import IotDevice
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice
from kasa.device_factory import get_protocol
from kasa.transports import (AesTransport, KlapTransport, KlapTransportV2, LinkieTransportV2, SslAesTransport,
                             SslTransport)

LEVEL = "exploration"
RULE = "A transport built from credentials and one built from its exported hash against one reference device."
ASSUMPTIONS = ["crypto primitives are trusted", "reference devices as in P02-P05"]
HOST = "10.0.0.2"
KINDS = ["klap1", "klap2", "aes1", "aes2", "token", "camera", "camera-md5", "camera-old", "linkie"]
FAMILY = {
    "klap1": (DeviceFamily.IotSmartPlugSwitch, DeviceEncryptionType.Klap, None, False),
    "klap2": (DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap, 2, False),
    "aes1": (DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, 1, False),
    "aes2": (DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, 2, False),
    "token": (DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, 2, True),
    "camera": (DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, True),
    "camera-md5": (DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, True),
    "camera-old": (DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, True),
    "linkie": (DeviceFamily.IotIpCamera, DeviceEncryptionType.Aes, None, True),
}
CLASSES = {"klap1": KlapTransport, "klap2": KlapTransportV2, "aes1": AesTransport, "aes2": AesTransport,
           "token": SslTransport, "camera": SslAesTransport, "camera-md5": SslAesTransport,
           "camera-old": SslAesTransport, "linkie": LinkieTransportV2}


def accounts():
    mark = st.builds(lambda u, p: ("usr#" + u + "@mail", "pwd#" + p + "#x"), gen.credential_text(), gen.credential_text())
    plain = st.tuples(gen.credential_text(), gen.credential_text())
    return st.one_of(mark, mark, plain, st.just(("", "")), st.sampled_from(list(DEFAULTS.values())))


PERTURB = ["same", "same", "swap", "upper", "lower", "strip", "space", "nopass", "nouser", "blank", "trunc",
           "default-tapo", "default-kasa", "admin-user", "concat"]


def perturb(acc, how):
    u, p = acc
    return {
        "same": acc, "swap": (p, u), "upper": (u.upper(), p.upper()), "lower": (u.lower(), p.lower()),
        "strip": (u.strip(), p.strip()), "space": (u, p + " "), "nopass": (u, ""), "nouser": ("", p),
        "blank": ("", ""), "trunc": (u[:-1], p), "default-tapo": DEFAULTS["TAPO"],
        "default-kasa": DEFAULTS["KASA"], "admin-user": ("admin", p), "concat": (u + p[:1], p[1:]),
    }[how]


def cases():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS), "creds": st.one_of(accounts(), accounts(), accounts(), st.none()),
        "dev": st.sampled_from(PERTURB), "seed": st.integers(0, 2**32),
        "via": st.sampled_from(["dict", "json", "direct"]),
        "decoy": st.sampled_from([False, False, True]),
        "port": st.one_of(st.none(), st.integers(1, 65535)),
    })


def server(kind, dev, seed, port):
    kw = dict(host=HOST, seed=seed)
    if kind.startswith("klap"):
        s = KlapServer(int(kind[-1]), *dev, **kw)
    elif kind.startswith("aes"):
        s = AesServer(int(kind[-1]), *dev, **kw)
    elif kind == "token":
        s = SslServer(*dev, port=port or 4433, **kw)
    elif kind == "linkie":
        s = LinkieServer(port=port or 10443, **kw)
    else:
        s = CameraServer(*dev, variant="md5" if kind == "camera-md5" else "sha256",
                         secure=kind != "camera-old", port=port or 443, **kw)
    s.app = lambda req: {"error_code": 0, "echo": req}
    return s


def expected(kind, creds, dev):
    """None when either outcome is acceptable."""
    c = creds or ("", "")
    if kind == "linkie":
        return True
    if dev == c and not kind.startswith("camera"):
        return True
    if kind.startswith("klap"):
        return dev == ("", "") or dev in DEFAULTS.values()
    if kind.startswith("aes") or kind == "token":
        return dev == DEFAULTS["TAPO"]
    if creds is None or creds == ("", ""):
        return dev == DEFAULTS["TAPOCAMERA"]
    return dev[1] == c[1] and dev[0] in ((c[0], "admin") if c[0] else ("admin",))


def attempt(kind, cfg, dev, case, decoy=None):
    out = {}

    async def main(loop):
        if decoy is not None:
            cfg.credentials_hash = CLASSES[kind](config=decoy).credentials_hash
        srv = server(kind, dev, case["seed"], case["port"])
        http = HttpNet(srv)
        cfg.http_client = FakeSession(http)
        proto = get_protocol(cfg)
        tr = proto._transport
        require(type(tr) is CLASSES[kind], f"transport {type(tr).__name__} selected for {kind}")
        d = {IotProtocol: IotDevice, SmartProtocol: SmartDevice, SmartCamProtocol: SmartCamDevice}[type(proto)](
            HOST, protocol=proto)
        out["hash"] = d.credentials_hash
        out["cfg"] = d.config
        try:
            out["answer"] = await tr.send(json.dumps({"method": "multipleRequest", "params": {"k": 1}}))
            out["ok"] = True
        except AuthenticationError:
            out["ok"], out["exc"] = False, "auth"
        except KasaException as ex:
            out["ok"], out["exc"] = False, repr(ex)
        require(not srv.problems or not out["ok"], "device saw", *srv.problems)
        out["logins"] = getattr(srv, "logins", None)
        out["users"] = getattr(srv, "users", None)
        await d.disconnect()

    vtime.run(main, seed=case["seed"])
    return out


def check(case, ctx):
    kind, creds = case["kind"], case["creds"]
    dev = perturb(creds or ("", ""), case["dev"])
    if kind.startswith("camera") and case["dev"] == "default-kasa":
        dev = DEFAULTS["TAPOCAMERA"]
    fam, enc, lv, https = FAMILY[kind]
    ct = DeviceConnectionParameters(fam, enc, login_version=lv, https=https, http_port=case["port"])
    cfg = DeviceConfig(HOST, connection_type=ct, credentials=Credentials(*creds) if creds else None,
                       aes_keys=KEYS[0] if kind.startswith("aes") else None)
    usable = bool(creds) and creds != ("", "")
    if kind.startswith("camera"):
        usable = bool(creds) and bool(creds[0]) and bool(creds[1])
    decoy = None
    if case["decoy"] and usable:       # documented: given credentials take precedence over a hash
        ctx.label("with-decoy-hash")
        decoy = DeviceConfig(HOST, connection_type=ct, credentials=Credentials("decoy", "decoy"))
    a = attempt(kind, cfg, dev, case, decoy)
    want = expected(kind, creds, dev)
    eq(a["ok"], want, f"{kind}: login with credentials {creds} on a device of {dev} ({a.get('exc')})")
    h = a["hash"]
    ctx.label(kind, "ok" if a["ok"] else "refused", case["dev"])
    if not usable:
        if kind not in ("token", "linkie"):
            eq(h, None, f"{kind}: hash exported for {creds}")
            return
    require(isinstance(h, str) and h, f"{kind}: no hash exported for {creds}: {h!r}")
    # ---- store with the hash instead of the credentials
    saved = a["cfg"].to_dict_control_credentials(credentials_hash=h)
    text = json.dumps(saved, ensure_ascii=False)
    if creds:
        for name, sec in zip(("user name", "password"), creds):
            if "#" in sec:
                require(sec not in text and json.dumps(sec)[1:-1] not in json.dumps(saved),
                        f"{kind}: plain {name} in the saved configuration")
    if case["via"] == "direct":
        cfg2 = DeviceConfig(HOST, connection_type=ct, credentials_hash=h, aes_keys=cfg.aes_keys)
    else:
        cfg2 = DeviceConfig.from_dict(json.loads(text) if case["via"] == "json" else saved)
    eq(cfg2.credentials, None, "credentials in the restored configuration")
    b = attempt(kind, cfg2, dev, case)
    eq(b["hash"], h, f"{kind}: hash exported again")
    eq(b["ok"], a["ok"], f"{kind}: login with the hash of {creds} on a device of {dev} ({b.get('exc')}), compared "
                         f"with the login with credentials")
    eq(b.get("exc"), a.get("exc"), f"{kind}: error with the hash")
    eq(b.get("answer"), a.get("answer"), f"{kind}: answer")
    eq(b["logins"], a["logins"], f"{kind}: login parameters sent")
    eq(b["users"], a["users"], f"{kind}: user names sent")
    ctx.nontrivial(usable)


SUBS = [Sub("equivalence", cases, check, quick=16000, thorough=80000, shards=8,
            rule="usable credentials, hash exported and used")]
