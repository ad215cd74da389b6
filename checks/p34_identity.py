"""P34: identity and device information are what the device reports."""
from __future__ import annotations

import base64
import copy
import re

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging

from kasa import Device, DeviceType, Module

LEVEL = "exploration"
RULE = ("A case is a recorded device whose identity fields (name, model, address, versions, signal, network, place, "
        "region, on state) are replaced by generated ones, optionally known from discovery first, and which change "
        "between two updates; non-trivial when at least three fields were replaced or changed.")
ASSUMPTIONS = ["signal strength 0 and an empty name may be reported as absent",
               "an absent location of a newer device may be reported as 0 or as absent",
               "device kinds are those of the recorded models frozen in the check"]


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode()).decode()


text = st.text(st.characters(exclude_categories=["Cs", "Cc"]), max_size=24) | st.sampled_from(
    ["Lamp", "Büro ☕", "客厅", "a b", "x" * 32, ""])
ssid = text.map(lambda s: s.encode()[:32]) | st.binary(min_size=1, max_size=32)
octets = st.binary(min_size=6, max_size=6)
fw = st.tuples(st.sampled_from(["1.0.3", "1.1.12", "2.10.0", "0.5"]),
               st.sampled_from([None, "Build 240101 Rel.123456", "Build 210330 Rel. 41", "Build 240717 Rel.1(4555)"]))
degrees = st.integers(-1_800_000, 1_800_000) | st.just(0)
region = st.sampled_from(["EU", "US", "UK", "AU", "JP", "TW", ""])


def fmt_mac(raw, style):
    h = raw.hex()
    h = h.upper() if style[0] == "U" else h
    return style[1:].join(h[i:i + 2] for i in range(0, 12, 2))


def norm_mac(m):
    return re.sub("[-:]", "", m).lower()


def same_mac(dev, raw, what):
    m = dev.mac
    if not re.fullmatch("[0-9a-fA-F]{2}(:[0-9a-fA-F]{2}){5}", m):
        fail(f"{what}: the mac address is not in hexadecimal with colons: {m!r}")
    eq(norm_mac(m), raw.hex(), f"{what}: mac")


def short(model):
    return model.partition("(")[0]


def region_of(model):
    return model.partition("(")[2].replace(")", "")


# ------------------------------------------------------------------ legacy
def iot_fields():
    return st.fixed_dictionaries({}, optional={
        "alias": text, "mac": st.tuples(octets, st.sampled_from(["U:", "U-", "l:", "U", "l"]), st.booleans()),
        "rssi": st.integers(-100, 0), "fw": fw, "hw": st.sampled_from(["1.0", "2.1", "5.20"]),
        "region": region, "place": st.tuples(st.sampled_from(["i", "f", "none"]), degrees, degrees), "on": st.booleans(),
        "socket": st.tuples(st.integers(0, 5), text)})


def put_iot(s, sim, f):
    s = sim.sys
    if "alias" in f:
        s["alias"] = f["alias"]
    if "mac" in f:
        raw, style, mic = f["mac"]
        s.pop("mac", None), s.pop("mic_mac", None)
        s["mic_mac" if mic else "mac"] = fmt_mac(raw, style)
    if "rssi" in f:
        s["rssi"] = f["rssi"]
    if "fw" in f:
        s["sw_ver"] = " ".join(x for x in f["fw"] if x)
    if "hw" in f:
        s["hw_ver"] = f["hw"]
    if "region" in f:
        s["model"] = short(s["model"]) + (f"({f['region']})" if f["region"] else "")
    if "place" in f:
        for k in ("latitude", "longitude", "latitude_i", "longitude_i"):
            s.pop(k, None)
        how, la, lo = f["place"]
        if how == "i":
            s["latitude_i"], s["longitude_i"] = la, lo
        elif how == "f":
            s["latitude"], s["longitude"] = la / 10000, lo / 10000
    if "on" in f:
        for o in sim.children or [None]:
            if sim.light is None:
                sim.switch(o, f["on"])
            else:
                sim.on = f["on"]
    if "socket" in f and sim.children:
        sim.child(sim.children[f["socket"][0] % len(sim.children)])["alias"] = f["socket"][1]


IOT_KIND = {"strip": DeviceType.Strip, "bulb": DeviceType.Bulb, "lightstrip": DeviceType.LightStrip,
            "dimmer": DeviceType.Dimmer}
WALL = ("HS200", "HS210", "KS200", "ES20M")


def iot_type(name):
    k = iotsim.kind(name)
    if k == "plug":
        return DeviceType.WallSwitch if name.startswith(WALL) and not name.startswith("KS200M_") or \
            "light" in iotsim.sysinfo(name).get("dev_name", "").lower() else DeviceType.Plug
    return IOT_KIND[k]


def judge_iot(dev, sim, name, what, auth):
    s = sim.get_sysinfo()
    with judging(f"{what}: reading the device information"):
        eq(dev.alias or "", s.get("alias") or "", f"{what}: alias")
        eq(dev.model, short(s["model"]), f"{what}: model")
        raw = bytes.fromhex(norm_mac(s.get("mac") or s["mic_mac"]))
        same_mac(dev, raw, what)
        eq(dev.rssi, s["rssi"], f"{what}: rssi")
        eq(norm_mac(dev.device_id), raw.hex(), f"{what}: device id")
        if "latitude_i" in s:
            want = (s["latitude_i"] / 10000, s["longitude_i"] / 10000)
        elif "latitude" in s:
            want = (s["latitude"], s["longitude"])
        else:
            want = (None, None)
        eq((dev.location["latitude"], dev.location["longitude"]), want, f"{what}: location")
        hw = dev.hw_info
        for k in ("sw_ver", "hw_ver", "mac", "mic_mac", "type", "mic_type", "hwId", "fwId", "oemId", "dev_name"):
            if k in s:
                eq(hw.get(k), s[k], f"{what}: hw_info {k}")
            elif k in hw:
                fail(f"{what}: hw_info has {k}={hw[k]!r}, which the device does not report")
        eq(dev.device_type, iot_type(name), f"{what}: device type")
        di = dev.device_info
        eq(di.short_name, short(s["model"]), f"{what}: device_info short name")
        eq(di.long_name, short(s["model"]), f"{what}: device_info long name")
        eq(di.region or "", region_of(s["model"]), f"{what}: device_info region")
        versions(di, s["sw_ver"], s["hw_ver"], what)
        eq(di.brand, "kasa", f"{what}: brand")
        eq(di.device_type, iot_type(name), f"{what}: device_info type")
        eq(di.device_family, s.get("type") or s.get("mic_type"), f"{what}: family")
        eq(di.requires_auth, auth, f"{what}: device_info requires auth")
        if sim.children:
            on = any(c["state"] for c in s["children"])
        elif sim.light is not None:
            on = sim.on
        else:
            on = bool(s["relay_state"])
        eq((dev.is_on, dev.is_off), (on, not on), f"{what}: is on")
        eq(dev.has_emeter, "ENE" in s.get("feature", "") or bool(sim.light), f"{what}: has energy meter")
        eq(dev.features["state"].value, on, f"{what}: feature state")
        eq(dev.features["rssi"].value, s["rssi"], f"{what}: feature rssi")
        eq(len(dev.children), len(sim.children), f"{what}: sockets")
        for c in dev.children:
            cid = c.device_id
            mine = [x for x in s["children"] if cid.endswith(x["id"])]
            if len(mine) != 1:
                fail(f"{what}: socket id {cid!r} is none of the device's {sim.children}")
            eq(c.alias or "", mine[0]["alias"], f"{what}: alias of socket {cid}")
            eq(c.is_on, bool(mine[0]["state"]), f"{what}: socket {cid} is on")
            eq(c.rssi, s["rssi"], f"{what}: rssi of socket {cid}")
            same_mac(c, raw, f"{what}: socket {cid}")
            eq(c.device_type, DeviceType.StripSocket, f"{what}: type of socket {cid}")
            if c.parent is not dev:
                fail(f"{what}: the parent of socket {cid} is not the strip")
        eq(len({c.device_id for c in dev.children}), len(sim.children), f"{what}: distinct socket ids")


def versions(di, sw, hw, what):
    eq(di.firmware_version, sw.split(" ")[0], f"{what}: firmware version")
    eq(di.firmware_build or "", sw.partition(" ")[2], f"{what}: firmware build")
    eq(di.hardware_version, hw, f"{what}: hardware version")


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(list(iotsim.fixtures())), "first": iot_fields(),
                                  "then": st.lists(iot_fields(), max_size=2),
                                  "disco": st.sampled_from([None, "legacy", "new"])})


def check_iot(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    put_iot(None, sim, case["first"])
    dev, proto = iotsim.make(sim)
    ctx.label(f"discovered:{case['disco']}")

    async def go(loop):
        what = case["fixture"]
        if case["disco"] == "legacy":
            dev.update_from_discover_info({"system": {"get_sysinfo": sim.get_sysinfo()}})
            s = sim.get_sysinfo()
            with judging(f"{what}: reading the discovered device"):
                eq(dev.alias or "", s.get("alias") or "", f"{what} discovered: alias")
                eq(dev.model, short(s["model"]), f"{what} discovered: model")
                same_mac(dev, bytes.fromhex(norm_mac(s.get("mac") or s["mic_mac"])), f"{what} discovered")
                eq(dev.rssi, s["rssi"], f"{what} discovered: rssi")
                eq(dev.device_info.hardware_version, s["hw_ver"], f"{what} discovered: hardware version")
        elif case["disco"] == "new":
            s = sim.get_sysinfo()
            raw = bytes.fromhex(norm_mac(s.get("mac") or s["mic_mac"]))
            dev.update_from_discover_info({
                "device_id": "ab" * 16, "device_type": "IOT.SMARTPLUGSWITCH", "device_model": s["model"],
                "ip": "10.0.0.2", "mac": fmt_mac(raw, "U-"), "owner": "cd" * 16, "hw_ver": "1.0",
                "mgt_encrypt_schm": {"encrypt_type": "KLAP", "http_port": 80, "is_support_https": False, "lv": 2}})
            with judging(f"{what}: reading the discovered device"):
                eq(dev.model, short(s["model"]), f"{what} discovered: model")
                same_mac(dev, raw, f"{what} discovered")
                eq(dev.alias, None, f"{what} discovered: alias (not part of the answer)")
        await dev.update()
        judge_iot(dev, sim, case["fixture"], what, case["disco"] == "new")
        for i, f in enumerate(case["then"]):
            f = {k: v for k, v in f.items() if k not in ("fw", "hw", "region")}
            put_iot(None, sim, f)
            await dev.update()
            judge_iot(dev, sim, case["fixture"], f"{what} after {sorted(f)} changed", case["disco"] == "new")

    vtime.run(go)
    if len(case["first"]) + sum(map(len, case["then"])) >= 3:
        ctx.nontrivial()


# ------------------------------------------------------------------ newer
def smart_fields():
    return st.fixed_dictionaries({}, optional={
        "alias": text, "mac": st.tuples(octets, st.sampled_from(["U-", "U:", "l-", "U", "l"])),
        "rssi": st.integers(-100, 0), "level": st.integers(0, 3), "fw": fw, "hw": st.sampled_from(["1.0", "2.1"]),
        "region": region, "place": st.none() | st.tuples(degrees, degrees), "ssid": ssid, "on": st.booleans()})


def put_smart(node, f, child):
    s = node.info
    if "alias" in f:
        s["nickname"] = b64(f["alias"])
    if "mac" in f and "mac" in s:
        s["mac"] = fmt_mac(*f["mac"])
    if "rssi" in f and "rssi" in s:
        s["rssi"] = f["rssi"]
    if "level" in f and "signal_level" in s:
        s["signal_level"] = f["level"]
    if "fw" in f:
        s["fw_ver"] = " ".join(x for x in f["fw"] if x)
    if "hw" in f:
        s["hw_ver"] = f["hw"]
    if "region" in f:
        s["specs"] = f["region"]
    if "ssid" in f and "ssid" in s:
        s["ssid"] = b64(f["ssid"])
    if "place" in f and "latitude" in s:
        if f["place"] is None:
            s.pop("latitude"), s.pop("longitude")
        else:
            s["latitude"], s["longitude"] = f["place"]
    if "on" in f and "device_on" in s:
        node.switch(f["on"])


def put_cam(sim, f):
    b = sim.root.methods["getDeviceInfo"]["device_info"]["basic_info"]
    if "alias" in f:
        b["device_alias"] = f["alias"]
    if "mac" in f:
        b["mac"] = fmt_mac(*f["mac"])
    if "fw" in f:
        b["sw_version"] = " ".join(x for x in f["fw"] if x)
    if "hw" in f:
        b["hw_version"] = f["hw"]
    if "region" in f:
        b["region"] = f["region"]
    if "place" in f and "latitude" in b and f["place"]:
        b["latitude"], b["longitude"] = f["place"]
    if "rssi" in f or "level" in f:
        c = sim.root.methods.get("getConnectionType")
        if isinstance(c, dict):
            if "rssi" in f and "rssiValue" in c:
                c["rssiValue"] = f["rssi"]
            if "level" in f and "rssi" in c:
                c["rssi"] = str(f["level"])


def smart_kind(fix_name, comps):
    """Kind of a recorded newer device, from its model."""
    m = re.match("[A-Z0-9]+", fix_name).group()
    table = {DeviceType.Hub: ("KH100", "H100", "H200"), DeviceType.LightStrip: ("L900", "L920", "L930", "KL4"),
             DeviceType.Bulb: ("L5", "L6", "KL1"), DeviceType.Vacuum: ("RV",), DeviceType.Chime: ("D100C",),
             DeviceType.Strip: ("P300", "P304", "P306", "P210", "TP25", "EP40", "P316", "P400"),
             DeviceType.Dimmer: ("S500D", "S505D", "KS225", "TS15", "HS220"),
             DeviceType.WallSwitch: ("KS205", "KS240", "S500", "S505", "S210", "S220", "HS200", "TS25")}
    best = max(((len(p), k) for k, ps in table.items() for p in ps if m.startswith(p)), key=lambda t: t[0],
               default=(0, DeviceType.Plug))
    return best[1]


def judge_common(dev, s, what):
    eq(dev.model, s["model"], f"{what}: model")
    if "mac" in s:
        same_mac(dev, bytes.fromhex(norm_mac(s["mac"])), what)
    eq(dev.device_id, s["device_id"], f"{what}: device id")


def judge_smart(dev, node, what, disco=None):
    s = node.info
    with judging(f"{what}: reading the device information"):
        judge_common(dev, s, what)
        eq(dev.alias or "", base64.b64decode(s.get("nickname", "")).decode(), f"{what}: alias")
        if s.get("rssi") is None:
            eq(dev.rssi, None, f"{what}: rssi")
        elif not (s["rssi"] == 0 and dev.rssi is None):
            eq(dev.rssi, s["rssi"], f"{what}: rssi")
        if "latitude" in s:
            eq(dev.location, {"latitude": s["latitude"] / 10000, "longitude": s["longitude"] / 10000},
               f"{what}: location")
        elif any(dev.location.values()):
            fail(f"{what}: location {dev.location}, the device reports none")
        if s.get("ssid"):
            raw = base64.b64decode(s["ssid"])
            try:
                eq(dev.ssid, raw.decode(), f"{what}: ssid")
            except UnicodeDecodeError:
                eq(dev.ssid.encode(errors="ignore") == b"" or isinstance(dev.ssid, str), True, f"{what}: ssid")
            eq(dev.features["ssid"].value, dev.ssid, f"{what}: feature ssid")
        hw = dev.hw_info
        for k, v in (("sw_ver", s["fw_ver"]), ("hw_ver", s["hw_ver"]), ("type", s["type"]),
                     ("oemId", s.get("oem_id"))):
            eq(hw[k], v, f"{what}: hw_info {k}")
        eq(norm_mac(hw["mac"] or ""), norm_mac(s.get("mac", "")), f"{what}: hw_info mac")
        eq(hw["dev_name"] or "", dev.alias or "", f"{what}: hw_info dev_name")
        eq(dev.features["device_id"].value, s["device_id"], f"{what}: feature device_id")
        if "rssi" in s:
            eq(dev.features["rssi"].value, s["rssi"], f"{what}: feature rssi")
        if "signal_level" in s:
            eq(dev.features["signal_level"].value, s["signal_level"], f"{what}: feature signal_level")
        if "device_on" in s:
            eq((dev.is_on, dev.is_off), (s["device_on"], not s["device_on"]), f"{what}: is on")
            eq(dev.features["state"].value, s["device_on"], f"{what}: feature state")
        di = dev.device_info
        versions(di, s["fw_ver"], s["hw_ver"], what)
        eq(di.short_name, s["model"], f"{what}: device_info short name")
        eq(di.device_family, s["type"], f"{what}: family")
        eq(di.brand, "kasa" if ".KASA" in s["type"] else "tapo", f"{what}: brand")
        eq(di.requires_auth, True, f"{what}: requires auth")
        eq(di.long_name, short(disco) if disco else s["model"], f"{what}: device_info long name")
        eq(di.region or "", (region_of(disco) if disco else "") or s.get("specs", ""), f"{what}: region")
        eq(dev.has_emeter, Module.Energy in dev.modules, f"{what}: has energy meter")


CATEGORY = {"plug.powerstrip.sub-plug": DeviceType.Plug, "subg.plugswitch.switch": DeviceType.WallSwitch,
            "subg.trigger.contact-sensor": DeviceType.Sensor, "subg.trigger.temp-hmdt-sensor": DeviceType.Sensor,
            "subg.trigger.water-leak-sensor": DeviceType.Sensor, "subg.trigger.motion-sensor": DeviceType.Sensor,
            "kasa.switch.outlet.sub-fan": DeviceType.Fan, "kasa.switch.outlet.sub-dimmer": DeviceType.Dimmer,
            "subg.trv": DeviceType.Thermostat, "subg.trigger.button": DeviceType.Sensor}


def judge_children(dev, sim, what):
    for c in dev.children:
        node = sim.kids[c.device_id]
        w = f"{what}: child {c.device_id}"
        if "device_model" in node.info:
            judge_camchild(c, node, w)
            continue
        judge_smart(c, node, w)
        if node.info["category"] in CATEGORY:
            eq(c.device_type, CATEGORY[node.info["category"]], f"{w}: device type")
        if c.parent is not dev:
            fail(f"{w}: its parent is another device")


def judge_camchild(c, node, w):
    s = node.info
    with judging(f"{w}: reading the device information"):
        eq(c.model, s["device_model"], f"{w}: model")
        eq(c.alias or "", s.get("alias") or "", f"{w}: alias")
        same_mac(c, bytes.fromhex(norm_mac(s["mac"])), w)
        eq(c.device_id, s["device_id"], f"{w}: device id")
        eq(c.device_type, DeviceType.Doorbell if "DOORBELL" in s["device_type"] else DeviceType.Camera,
           f"{w}: device type")
        eq(c.hw_info["sw_ver"], s["sw_ver"], f"{w}: hw_info sw_ver")
        eq(c.hw_info["hw_ver"], s["hw_ver"], f"{w}: hw_info hw_ver")
        di = c.device_info
        versions(di, s["sw_ver"], s["hw_ver"], w)
        eq((di.short_name, di.long_name), (s["device_model"],) * 2, f"{w}: names")
        eq(di.region or "", s.get("region") or "", f"{w}: region")
        eq(di.device_family, s["device_type"], f"{w}: family")
        eq(di.brand, "tapo", f"{w}: brand")
        eq(di.requires_auth, True, f"{w}: requires auth")


def judge_cam(dev, sim, what):
    b = sim.root.methods["getDeviceInfo"]["device_info"]["basic_info"]
    with judging(f"{what}: reading the device information"):
        eq(dev.model, b["device_model"], f"{what}: model")
        eq(dev.alias or "", b["device_alias"], f"{what}: alias")
        same_mac(dev, bytes.fromhex(norm_mac(b["mac"])), what)
        eq(dev.device_id, b["dev_id"], f"{what}: device id")
        eq(dev.features["device_id"].value, b["dev_id"], f"{what}: feature device_id")
        t = b["device_type"]
        kind = DeviceType.Hub if t.endswith("HUB") else DeviceType.Doorbell if "DOORBELL" in t else DeviceType.Camera
        eq(dev.device_type, kind, f"{what}: device type")
        for k, v in (("sw_ver", b["sw_version"]), ("hw_ver", b["hw_version"]), ("hwId", b.get("hw_id")),
                     ("oemId", b.get("oem_id"))):
            eq(dev.hw_info[k], v, f"{what}: hw_info {k}")
        if "latitude" in b:
            eq(dev.location, {"latitude": b["latitude"] / 10000, "longitude": b["longitude"] / 10000},
               f"{what}: location")
        c = sim.root.methods.get("getConnectionType")
        if isinstance(c, dict) and "rssiValue" in c:
            v = int(c["rssiValue"])
            if not (v == 0 and dev.rssi is None):
                eq(int(dev.rssi), v, f"{what}: rssi")
            eq(int(dev.features["rssi"].value), v, f"{what}: feature rssi")
            eq(dev.features["signal_level"].value, c["rssi"], f"{what}: feature signal_level")
        di = dev.device_info
        versions(di, b["sw_version"], b["hw_version"], what)
        eq((di.short_name, di.brand, di.requires_auth), (b["device_model"], "tapo", True), f"{what}: device_info")
        eq(di.region or "", b.get("region") or "", f"{what}: region")
        eq(di.device_family, t, f"{what}: family")
        eq(di.device_type, kind, f"{what}: device_info type")


def put_camchild(node, f):
    s = node.info
    if "alias" in f:
        s["alias"] = f["alias"]
    if "mac" in f:
        s["mac"] = fmt_mac(*f["mac"])
    if "fw" in f:
        s["sw_ver"] = " ".join(x for x in f["fw"] if x)
    if "hw" in f:
        s["hw_ver"] = f["hw"]
    if "region" in f:
        s["region"] = f["region"]


def smart_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(list(smartsim.fixtures())), "first": smart_fields(),
                                  "kids": st.lists(smart_fields(), max_size=3),
                                  "drop": st.lists(st.integers(0, 200), max_size=3),
                                  "then": st.lists(smart_fields(), max_size=2),
                                  "thenkids": st.lists(smart_fields(), max_size=3),
                                  "disco": st.none() | region})


# components that only tell what the device can do besides, not which kind it is
KINDLESS = ("time", "schedule", "countdown", "antitheft", "default_states", "auto_off", "led", "matter", "homekit",
            "account", "synchronize", "sunrise_sunset", "iot_cloud", "wireless", "quick_setup", "cloud_connect",
            "localSmart", "auto_light", "on_off_gradually", "preset", "segment", "music_rhythm", "energy_monitoring")


def smart_sim(case):
    fix = copy.deepcopy(smartsim.fixtures()[case["fixture"]])
    return smartsim.SmartSim(name=case["fixture"], fixture=fix)


def put_kids(sim, fs):
    for (cid, node), f in zip(sorted(sim.kids.items()), fs):
        if "device_model" in node.info:
            put_camchild(node, f)
        else:
            put_smart(node, f, True)


def check_smart(case, ctx):
    sim = smart_sim(case)
    cuts = [c for c in sim.root.comps if c["id"] in KINDLESS]
    for i in case["drop"]:
        if cuts:
            c = cuts.pop(i % len(cuts))
            sim.root.comps = [x for x in sim.root.comps if x is not c]
            sim.root.methods["component_nego"] = {"component_list": sim.root.comps}
    put_smart(sim.root, case["first"], False)
    put_kids(sim, case["kids"])
    dev, proto = smartsim.make(sim)
    disco = None
    if case["disco"] is not None:
        disco = sim.root.info["model"] + (f"({case['disco']})" if case["disco"] else "")
    ctx.label(f"children:{min(3, len(sim.kids))}")

    async def go(loop):
        what = case["fixture"]
        s = sim.root.info
        if disco:
            dev.update_from_discover_info({
                "device_id": "ab" * 16, "device_type": s["type"], "device_model": disco, "ip": "10.0.0.2",
                "mac": fmt_mac(bytes.fromhex(norm_mac(s["mac"])), "U-"), "owner": "cd" * 16, "hw_ver": "1.0",
                "mgt_encrypt_schm": {"encrypt_type": "KLAP", "http_port": 80, "is_support_https": False, "lv": 2}})
            with judging(f"{what}: reading the discovered device"):
                eq(dev.model, short(disco), f"{what} discovered: model")
                same_mac(dev, bytes.fromhex(norm_mac(s["mac"])), f"{what} discovered")
                eq(dev.device_id, "ab" * 16, f"{what} discovered: device id")
                eq(dev.alias, None, f"{what} discovered: alias (not part of the answer)")
        await dev.update()
        kind = smart_kind(case["fixture"], None)

        def judge(w):
            judge_smart(dev, sim.root, w, disco)
            with judging(f"{w}: reading the device type"):
                eq(dev.device_type, kind, f"{w}: device type")
                eq(dev.device_info.device_type, kind, f"{w}: device_info type")
            judge_children(dev, sim, w)
        judge(what)
        for i, f in enumerate(case["then"]):
            f = {k: v for k, v in f.items() if k not in ("fw", "hw", "region")}
            put_smart(sim.root, f, False)
            put_kids(sim, [{k: v for k, v in g.items() if k not in ("fw", "hw", "region")}
                           for g in case["thenkids"]] if i == 0 else [])
            await dev.update()
            judge(f"{what} after {sorted(f)} changed")

    vtime.run(go)
    if len(case["first"]) + sum(map(len, case["then"])) >= 3:
        ctx.nontrivial()


def cam_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(list(smartsim.cam_fixtures())), "first": smart_fields(),
                                  "kids": st.lists(smart_fields(), max_size=3),
                                  "then": st.lists(smart_fields(), max_size=2),
                                  "thenkids": st.lists(smart_fields(), max_size=3), "disco": st.booleans()})


def check_cam(case, ctx):
    sim = smartsim.SmartSim(case["fixture"])
    put_cam(sim, case["first"])
    put_kids(sim, case["kids"])
    dev, proto = smartsim.make(sim)
    ctx.label(f"children:{min(3, len(sim.kids))}")

    async def go(loop):
        what = case["fixture"]
        b = sim.root.methods["getDeviceInfo"]["device_info"]["basic_info"]
        if case["disco"]:
            dev.update_from_discover_info({
                "device_id": "ab" * 16, "device_type": b["device_type"], "device_model": b["device_model"],
                "device_name": "x", "ip": "10.0.0.2", "mac": fmt_mac(bytes.fromhex(norm_mac(b["mac"])), "U-"),
                "firmware_version": b["sw_version"], "hardware_version": b["hw_version"],
                "mgt_encrypt_schm": {"is_support_https": True}})
            with judging(f"{what}: reading the discovered device"):
                eq(dev.model, b["device_model"], f"{what} discovered: model")
                same_mac(dev, bytes.fromhex(norm_mac(b["mac"])), f"{what} discovered")
                eq(dev.device_id, "ab" * 16, f"{what} discovered: device id")
        await dev.update()
        judge_cam(dev, sim, what)
        judge_children(dev, sim, what)
        for i, f in enumerate(case["then"]):
            f = {k: v for k, v in f.items() if k not in ("fw", "hw", "region")}
            put_cam(sim, f)
            put_kids(sim, [{k: v for k, v in g.items() if k not in ("fw", "hw", "region")}
                           for g in case["thenkids"]] if i == 0 else [])
            await dev.update()
            w = f"{what} after {sorted(f)} changed"
            judge_cam(dev, sim, w)
            judge_children(dev, sim, w)

    vtime.run(go)
    if len(case["first"]) + sum(map(len, case["then"])) >= 3:
        ctx.nontrivial()


SUBS = [Sub("legacy", iot_cases, check_iot, quick=4500, thorough=150000),
        Sub("newer", smart_cases, check_smart, quick=4500, thorough=150000),
        Sub("camera", cam_cases, check_cam, quick=1200, thorough=15000)]
