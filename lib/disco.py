"""Discovery answers of simulated devices, and what they mean (independent of kasa)."""
from __future__ import annotations

import base64
import copy
import functools
import glob
import json
import os
import struct
import zlib

import env
import iotsim
from servers import aes_cbc


def xor(data):
    key, out = 171, bytearray()
    for b in data:
        key ^= b
        out.append(key)
    return bytes(out)


def unxor(data):
    key, out = 171, bytearray()
    for b in data:
        out.append(key ^ b)
        key = b
    return bytes(out)


@functools.lru_cache(None)
def results():
    """Recorded answers on port 20002: name -> result object."""
    out = {}
    for f in sorted(glob.glob(os.path.join(env.FIXTURES, "**", "*.json"), recursive=True)):
        with open(f) as fh:
            d = json.load(fh).get("discovery_result")
        if d and "result" in d:
            out[os.path.basename(f)[:-5]] = d["result"]
    return out


@functools.lru_cache(None)
def camera_info():
    f = sorted(glob.glob(os.path.join(env.FIXTURES, "iotcam", "*.json")))[0]
    with open(f) as fh:
        return json.load(fh)["system"]["get_sysinfo"]


def legacy_packet(info):
    return xor(json.dumps(info, separators=(",", ":")).encode())


def new_packet(obj):
    body = json.dumps(obj).encode()
    return header(body, 2) + body


def header(body, op):
    h = bytearray(struct.pack(">BBHHBBII", 2, 0, op, len(body), 17, 0, 0x01020304, 0x5A6B7C8D))
    h[12:16] = zlib.crc32(bytes(h) + body).to_bytes(4, "big")
    return bytes(h)


def legacy_class(sysinfo):
    """Class of a device that answers on port 9999."""
    t = (sysinfo.get("type") or sysinfo.get("mic_type") or "").lower()
    name = (sysinfo.get("dev_name") or "").lower()
    if "dimmer" in name:
        return "IotDimmer"
    if "smartplug" in t:
        if "children" in sysinfo:
            return "IotStrip"
        return "IotWallSwitch" if "light" in name else "IotPlug"
    if "smartbulb" in t:
        return "IotLightStrip" if "length" in sysinfo else "IotBulb"
    return None


SMART_FAMILIES = ["SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH",
                  "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.TAPOCHIME"]
CAM_FAMILIES = ["SMART.IPCAMERA", "SMART.TAPODOORBELL"]


def expected(res):
    """What a client has to make of an answer on port 20002.

    -> ("unsupported", None) | ("unspecified", None) |
       ("ok", {cls, protocol, transport, port, https, login_version, encryption, family})
    """
    fam = res["device_type"]
    schm = res.get("mgt_encrypt_schm")
    if schm is None:
        return "unsupported", None
    https = schm["is_support_https"]
    enc = schm.get("encrypt_type") or (res.get("encrypt_info") or {}).get("sym_schm")
    if not enc:
        return "unsupported", None
    lv = schm.get("lv")
    if not lv and res.get("encrypt_type"):
        lv = max(int(i) for i in res["encrypt_type"])
    port = schm.get("http_port")
    d = {"https": https, "login_version": lv, "encryption": enc, "family": fam, "http_port": port}
    if enc not in ("AES", "KLAP", "XOR"):
        return "unsupported", None
    if fam in ("IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB"):
        d["cls"] = "IotPlug" if fam == "IOT.SMARTPLUGSWITCH" else "IotBulb"
        if https or enc == "AES":
            return "unsupported", None
        d["protocol"] = "IotProtocol"
        if enc == "XOR":
            d.update(transport="XorTransport", port=9999)
        else:
            d.update(transport="KlapTransport", port=port or 80)
        return "ok", d
    if fam == "IOT.IPCAMERA":
        return "unsupported", None
    if fam in CAM_FAMILIES:
        if not https:
            return "unspecified", None
        d.update(cls="SmartCamDevice", protocol="SmartCamProtocol", transport="SslAesTransport", port=port or 443)
        return ("ok", d) if enc == "AES" else ("unspecified", None)
    if fam == "SMART.TAPOROBOVAC":
        if enc == "AES":
            if not https:
                return "unspecified", None
            d.update(cls="SmartDevice", protocol="SmartProtocol", transport="SslTransport", port=port or 4433)
            return "ok", d
        if enc == "XOR":
            return "unsupported", None
        d.update(cls="SmartDevice", protocol="SmartProtocol", transport="KlapTransportV2",
                 port=port or (4433 if https else 80))
        return ("ok", d) if https else ("unspecified", None)
    if fam not in SMART_FAMILIES:
        return "unsupported", None
    if enc == "XOR":
        return "unsupported", None
    if fam == "SMART.TAPOHUB" and https and enc == "AES":
        d.update(cls="SmartCamDevice", protocol="SmartCamProtocol", transport="SslAesTransport", port=port or 443)
        return "ok", d
    if https:
        if enc == "AES" or fam == "SMART.TAPOHUB":
            return "unspecified", None
        d.update(cls="SmartDevice", protocol="SmartProtocol", transport="KlapTransportV2", port=port or 4433)
        return "ok", d
    d.update(cls="SmartDevice", protocol="SmartProtocol",
             transport="AesTransport" if enc == "AES" else "KlapTransportV2", port=port or 80)
    return "ok", d


def check_probes(packets, target, port, n, timeout):
    """-> list of problems with the (time, data, addr) probes of one discovery."""
    out = []
    legacy = [(t, d) for t, d, a in packets if a == (target, port)]
    new = [(t, d) for t, d, a in packets if a == (target, 20002)]
    other = [a for _, _, a in packets if a not in ((target, port), (target, 20002))]
    if port == 20002:
        return out
    if other:
        out.append(f"probes sent to {other[:3]}")
    for name, ps in (("legacy", legacy), ("new", new)):
        if n is not None and len(ps) != n:
            out.append(f"{len(ps)} {name} probes, expected {n}")
    for _, d in legacy:
        try:
            obj = json.loads(unxor(d))
        except ValueError as ex:
            out.append(f"legacy probe does not decode: {ex}")
            continue
        if obj != {"system": {"get_sysinfo": {}}}:
            out.append(f"legacy probe asks for {obj}")
    for _, d in new:
        if public_key(d) is None:
            out.append("new probe is not valid")
    return out


def public_key(d):
    """Checks a probe for port 20002 like a device does; returns the client's public key."""
    from cryptography.hazmat.primitives.serialization import load_pem_public_key

    if len(d) < 16:
        return None
    ver, typ, op, size, flags, _pad, _serial, crc = struct.unpack(">BBHHBBII", d[:16])
    h = bytearray(d)
    h[12:16] = (0x5A6B7C8D).to_bytes(4, "big")
    if ver != 2 or op != 1 or size != len(d) - 16 or flags != 17 or zlib.crc32(bytes(h)) != crc:
        return None
    try:
        return load_pem_public_key(json.loads(d[16:])["params"]["rsa_key"].encode())
    except (ValueError, KeyError, TypeError):
        return None


def encrypt_info(pub, data, key=bytes(range(16)), iv=bytes(range(16, 32))):
    """encrypt_info of a camera: data readable only by the client that sent the probe."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding

    enc = pub.encrypt(key + iv, padding.OAEP(mgf=padding.MGF1(hashes.SHA1()), algorithm=hashes.SHA1(), label=None))
    body = aes_cbc(key, iv, json.dumps(data).encode(), True)
    return {"sym_schm": "AES", "key": base64.b64encode(enc).decode(), "data": base64.b64encode(body).decode()}


def legacy_names():
    return sorted(iotsim.fixtures())


def new_names():
    return sorted(results())


def legacy_info(name, ident):
    s = copy.deepcopy(iotsim.sysinfo(name))
    s["alias"] = ident
    return {"system": {"get_sysinfo": s}}


def new_result(name, ident):
    r = copy.deepcopy(results()[name])
    r.pop("decrypted_data", None)
    r["device_id"] = ident
    if "/" in ident:
        r["ip"] = ident.split("/")[0]
    return r
