"""P16: device configuration survives serialisation unchanged."""
from __future__ import annotations

import copy
import json
from dataclasses import replace

from hypothesis import strategies as st

import disco
import vtime
from core import Sub, eq, require

from kasa import Credentials, Device, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa import json as kasa_json
from kasa.device_factory import get_protocol
from kasa.exceptions import KasaException

LEVEL = "exploration"
RULE = "Generated configurations over all fields and all connection types; malformed dictionaries."
ASSUMPTIONS = ["an unset timeout is not stored and reads back as the default of 5 seconds"]

FAMILIES = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", *disco.SMART_FAMILIES, *disco.CAM_FAMILIES,
            "SMART.TAPOROBOVAC"]
REJECT = (ValueError, LookupError, TypeError, KasaException)
TEXT = st.one_of(st.text(max_size=20), st.sampled_from(["", "user@example.com", "päss\"w\\ord\n", "null", "😀" * 3]))


def configs():
    opt = lambda s: st.one_of(st.none(), s)  # noqa: E731
    return st.fixed_dictionaries({
        "host": st.one_of(st.sampled_from(["127.0.0.1", "plug.example", "fe80::1"]), TEXT),
        "timeout": st.sampled_from(["default", None, 0, 1, 5, 30, 10 ** 6]),
        "port_override": opt(st.integers(0, 65535)),
        "credentials": opt(st.tuples(TEXT, TEXT)),
        "credentials_hash": opt(TEXT),
        "batch_size": opt(st.integers(0, 100)),
        "ctype": st.one_of(st.none(), st.tuples(
            st.sampled_from(FAMILIES), st.sampled_from(["KLAP", "AES", "XOR"]), opt(st.integers(0, 3)),
            st.booleans(), opt(st.integers(1, 65535)))),
        "aes_keys": opt(st.tuples(TEXT, TEXT)),
        "client": st.booleans(),
        "how": st.sampled_from(["dict", "json", "kasa_json", "to_json", "jsonb"]),
        "control": st.sampled_from(["plain", "defaults", "hash", "hash", "blank", "exclude", "hash+exclude"]),
        "hash": TEXT,
        "order": st.booleans(),
    })


def make(c):
    kw = {k: c[k] for k in ("port_override", "credentials_hash", "batch_size")}
    if c["timeout"] != "default":
        kw["timeout"] = c["timeout"]
    if c["credentials"]:
        kw["credentials"] = Credentials(*c["credentials"])
    if c["aes_keys"]:
        kw["aes_keys"] = {"private": c["aes_keys"][0], "public": c["aes_keys"][1]}
    if c["ctype"]:
        f, e, lv, https, port = c["ctype"]
        kw["connection_type"] = DeviceConnectionParameters(
            DeviceFamily(f), DeviceEncryptionType(e), lv, https, http_port=port)
    if c["client"]:
        kw["http_client"] = object()
    return DeviceConfig(c["host"], **kw)


def model(c):
    """The serialised form of a configuration."""
    d = {"host": c["host"]}
    if c["timeout"] is not None:
        d["timeout"] = 5 if c["timeout"] == "default" else c["timeout"]
    for k in ("port_override", "credentials_hash", "batch_size"):
        if c[k] is not None:
            d[k] = c[k]
    if c["credentials"]:
        d["credentials"] = {"username": c["credentials"][0], "password": c["credentials"][1]}
    f, e, lv, https, port = c["ctype"] or ("IOT.SMARTPLUGSWITCH", "XOR", None, False, None)
    d["connection_type"] = {"device_family": f, "encryption_type": e, "https": https}
    if lv is not None:
        d["connection_type"]["login_version"] = lv
    if port is not None:
        d["connection_type"]["http_port"] = port
    if c["aes_keys"]:
        d["aes_keys"] = {"private": c["aes_keys"][0], "public": c["aes_keys"][1]}
    return d


def connection(cfg):
    async def main(loop):
        p = get_protocol(replace(cfg, host="10.0.0.2"))
        if p is None:
            return None
        await p.close()
        return type(p).__name__, type(p._transport).__name__, p._transport._port

    return vtime.run(main)


def check(c, ctx):
    cfg, exp = make(c), model(c)
    eq(cfg.to_dict(), exp, "to_dict")
    how = c["how"]
    d = cfg.to_dict()
    if c["control"] == "defaults":
        d = cfg.to_dict_control_credentials()
    elif c["control"] == "exclude":
        d = cfg.to_dict_control_credentials(exclude_credentials=True)
        exp.pop("credentials", None)
    elif c["control"] in ("hash", "hash+exclude", "blank"):
        h = "" if c["control"] == "blank" else c["hash"]
        kw = {"exclude_credentials": True} if "exclude" in c["control"] else {}
        d = cfg.to_dict_control_credentials(credentials_hash=h, **kw)
        exp.pop("credentials", None)
        exp.pop("credentials_hash", None)
        if h:
            exp["credentials_hash"] = h
    ctx.label(how, c["control"])
    eq(d, exp, f"serialised form ({c['control']})")
    require(make(c) == cfg, "serialising changed the configuration")
    if c["order"]:
        d = dict(reversed(list(d.items())))
    if how == "dict":
        back = DeviceConfig.from_dict(copy.deepcopy(d))
    elif how == "json":
        back = DeviceConfig.from_dict(json.loads(json.dumps(d)))
    elif how == "kasa_json":
        back = Device.Config.from_dict(kasa_json.loads(kasa_json.dumps(d)))
    elif how == "jsonb":
        back = DeviceConfig.from_json(json.dumps(d).encode())
    elif c["control"] == "plain":
        back = DeviceConfig.from_json(cfg.to_json())
    else:
        back = DeviceConfig.from_json(json.dumps(d))
    m = dict(c, credentials=(exp["credentials"]["username"], exp["credentials"]["password"]) if "credentials" in exp else None,
             credentials_hash=exp.get("credentials_hash"), client=False,
             timeout="default" if c["timeout"] is None else c["timeout"])
    want = make(m)
    require(back == want, f"read back as {back!r} {back.to_dict()}, expected {want.to_dict()}")
    require(type(back.connection_type.device_family) is DeviceFamily
            and type(back.connection_type.encryption_type) is DeviceEncryptionType, f"types {back!r}")
    eq(back.uses_http, want.uses_http, "uses_http")
    if c["credentials"] and "credentials" in exp:
        require(type(back.credentials) is Credentials, f"credentials are {back.credentials!r}")
    shown = repr(DeviceConfig("h", credentials=Credentials("u~secret~user", "p~secret~word")))
    require("~secret~" not in shown, "credentials in repr of the configuration")
    hash_ok = back.credentials_hash in (None, "")
    if hash_ok and not c["aes_keys"]:
        base = make(dict(c, client=False))
        if base.credentials_hash in (None, ""):
            eq(connection(back), connection(base), "connection selected")
    ctx.nontrivial(sum(c[k] is not None for k in ("port_override", "credentials", "credentials_hash", "batch_size",
                                                  "ctype", "aes_keys")) >= 2)


# -------------------------------------------------------------- malformed
BADVALS = st.sampled_from(["x", 5, 1.5, [], [1], True])


def malformed():
    return st.fixed_dictionaries({
        "c": configs(),
        "bad": st.sampled_from(["nohost", "notdict", "family", "encryption", "ctype", "nofamily", "noencryption",
                                "creds", "timeout", "port", "keys", "empty", "json"]),
        "v": BADVALS, "s": st.text(max_size=6), "n": st.integers(0, 400),
    })


def check_malformed(case, ctx):
    c, bad, v = case["c"], case["bad"], case["v"]
    d = model(c)
    how = bad
    if bad == "nohost":
        d.pop("host")
    elif bad == "notdict":
        d = v if not isinstance(v, bool) else None
    elif bad == "family":
        if case["s"] in FAMILIES:
            return
        d["connection_type"]["device_family"] = case["s"] or None
    elif bad == "encryption":
        d["connection_type"]["encryption_type"] = case["s"].lower() + "?"
    elif bad == "ctype":
        d["connection_type"] = v
    elif bad == "nofamily":
        d["connection_type"].pop("device_family")
    elif bad == "noencryption":
        d["connection_type"].pop("encryption_type")
    elif bad == "creds":
        d["credentials"] = v
    elif bad == "timeout":
        d["timeout"] = [v] if case["n"] % 2 else "x" + case["s"]
    elif bad == "port":
        d["port_override"] = {"a": v} if case["n"] % 2 else "x" + case["s"]
    elif bad == "keys":
        d["aes_keys"] = v if isinstance(v, (str, list, int)) else {"private": "x"}
    elif bad == "empty":
        d = {}
    elif bad == "json":
        text = json.dumps(d)
        d = text[:case["n"] % len(text)]
        how = "from_json"
    ctx.label(bad)
    try:
        got = DeviceConfig.from_json(d) if how == "from_json" else DeviceConfig.from_dict(d)
    except REJECT:
        ctx.nontrivial()
        return
    except AttributeError:
        if bad == "notdict":
            ctx.nontrivial()
            return
        raise
    raise AssertionError(f"accepted {d!r} as {got!r}")


def wrapped(case, ctx):
    try:
        check_malformed(case, ctx)
    except AssertionError as ex:
        require(False, str(ex))


SUBS = [Sub("roundtrip", configs, check, quick=18000, thorough=100000, shards=4,
            rule="at least two optional fields set"),
        Sub("malformed", malformed, wrapped, quick=9000, thorough=30000, shards=2,
            rule="a malformed input that was rejected")]
