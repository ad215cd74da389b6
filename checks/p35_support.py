"""P35: modules and features exist exactly when the device supports them."""
from __future__ import annotations

import copy
import functools
import warnings

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging

from kasa import DeviceType, KasaException, Module

LEVEL = "exploration"
RULE = ("A case is a recorded device (or hub, strip and its children) that lacks some of the capabilities it reported: "
        "components, status fields, feature flags or whole services are removed before the first update; non-trivial "
        "when something was removed that some module or feature depends on.")
ASSUMPTIONS = ["which component or status field gives which capability is the table frozen in the check",
               "modules whose own queries the recorded device answered with an error are not judged",
               "sockets of strips and switches use the clock, firmware and cloud of their parent"]

# capability -> module (newer devices)
SMART = {"alarm": "Alarm", "auto_off": "AutoOff", "battery_detect": "BatterySensor", "brightness": "Brightness",
         "child_device": "ChildDevice", "button_and_led": "ChildLock", "child_protection": "ChildProtection",
         "child_quick_setup": "ChildSetup", "clean": "Clean", "clean_percent": "CleanRecords",
         "cloud_connect": "Cloud", "color": "Color", "color_temperature": "ColorTemperature",
         "consumables": "Consumables", "device": "DeviceModule", "dust_bucket": "Dustbin",
         "energy_monitoring": "Energy", "fan_control": "Fan", "firmware": "Firmware",
         "frost_protection": "FrostProtection", "homekit": "HomeKit", "humidity": "HumiditySensor", "led": "Led",
         "light_effect": "LightEffect", "light_strip_lighting_effect": "LightEffect", "preset": "LightPreset",
         "on_off_gradually": "LightTransition", "matter": "Matter", "mop": "Mop", "sensitivity": "MotionSensor",
         "power_protection": "PowerProtection", "report_mode": "ReportMode", "speaker": "Speaker",
         "temp_control": "TemperatureControl", "temperature": "TemperatureSensor", "time": "Time",
         "trigger_log": "TriggerLogs", "sensor_alarm": "WaterleakSensor"}
# status fields a module needs besides
FIELD = {"AutoOff": "auto_off_status", "Brightness": "brightness", "LightPreset": "brightness",
         "LightTransition": "brightness", "Energy": "device_on", "Fan": "fan_speed_level",
         "PowerProtection": "power_protection_status"}
# status fields that alone give a module
ALONE = {"ContactSensor": ("open",), "OverheatProtection": ("overheated", "overheat_status")}
PARENTS = {"DeviceModule", "Time", "Firmware", "Cloud"}
CAM = {"tamperDetection": "TamperDetection", "matter": "Matter", "video": "Camera", "detection": "MotionDetection",
       "childControl": "childdevice", "petDetection": "PetDetection", "battery": "Battery",
       "babyCryDetection": "BabyCryDetection", "personDetection": "PersonDetection", "ptz": "PanTilt",
       "lensMask": "LensMask", "siren": "Alarm", "led": "Led", "childQuickSetup": "ChildSetup", "homekit": "HomeKit"}
# what is asked only because of a module
ASKS = {"Alarm": ("get_alarm_configure", "get_support_alarm_type_list", "getSirenConfig", "getSirenStatus",
                  "getSirenTypeList"),
        "AutoOff": ("get_auto_off_config",), "BabyCryDetection": ("getBCDConfig",),
        "ChildLock": ("getChildLockInfo",), "CleanRecords": ("getCleanRecords",),
        "ChildSetup": ("get_support_child_device_category", "getSupportChildDeviceCategory"),
        "Clean": ("getAreaUnit", "getBatteryInfo", "getCarpetClean", "getCleanInfo", "getCleanStatus", "getVacStatus"),
        "Consumables": ("getConsumablesInfo",), "Dustbin": ("getAutoDustCollection", "getDustCollectionInfo"),
        "Energy": ("get_current_power", "get_emeter_data", "get_emeter_vgain_igain", "get_energy_usage"),
        "Firmware": ("get_auto_update_info", "get_latest_fw"), "HomeKit": ("get_homekit_info",),
        "Led": ("get_led_info", "getLedStatus"), "LensMask": ("getLensMaskConfig",),
        "LightPreset": ("get_preset_rules",), "LightTransition": ("get_on_off_gradually_info",),
        "Matter": ("get_matter_setup_info", "getMatterSetupInfo"), "Mop": ("getMopState",),
        "MotionDetection": ("getDetectionConfig",), "PersonDetection": ("getPersonDetectionConfig",),
        "PetDetection": ("getPetDetectionConfig",), "PowerProtection": ("get_max_power", "get_protection_power"),
        "Speaker": ("getVolume",), "TamperDetection": ("getTamperDetectionConfig",), "Time": ("get_device_time",),
        "TriggerLogs": ("get_trigger_logs",)}
FIELDS = sorted({*FIELD.values(), "open", "overheated", "overheat_status", "color_temp_range", "rssi",
                 "signal_level", "ssid", "on_time"})


def comp_names(comps):
    return {c.get("id", c.get("name")) for c in comps}


def derived(mods):
    mods = set(mods)
    if mods & {"Brightness", "Color", "ColorTemperature"}:
        mods.add("Light")
    if {"TemperatureControl", "TemperatureSensor"} <= mods:
        mods.add("Thermostat")
    return mods


def expected(node, role, device_type=None):
    """Modules a newer device (role root, socket, hubchild) supports."""
    out = set()
    comps, info = comp_names(node.comps), node.info
    for c, m in SMART.items():
        if c not in comps or role == "socket" and m in PARENTS or role == "hubchild" and m == "Time":
            continue
        if m in FIELD and FIELD[m] not in info:
            continue
        if m == "ColorTemperature":
            r = info.get("color_temp_range", [0, 0])
            if r[0] == r[1]:
                continue
        out.add(m)
    for m, keys in ALONE.items():
        if any(info.get(k) is not None for k in keys):
            out.add(m)
    return derived(out)


def expected_cam(node, hub):
    out = {"devicemodule", "Time"}
    for c, m in CAM.items():
        if c in comp_names(node.comps) and (m != "childdevice" or hub):
            out.add(m)
    return out


def troubled(node):
    """Modules one of whose queries the device answers with an error."""
    out = set()
    for m, asks in ASKS.items():
        for a in asks:
            r = node.methods.get(a)
            silent = r is None and not hasattr(node, f"m_{a}")
            if silent or isinstance(r, int) or isinstance(r, dict) and r.get("error_code") or a in node.errors:
                out.add(m)
    return out


def judge_modules(dev, want, not_judged, what):
    have = set(map(str, dev.modules))
    lost, extra = want - have - not_judged, have - want - not_judged
    if lost:
        fail(f"{what}: supported by the device but missing: {sorted(lost)}")
    if extra:
        fail(f"{what}: present although the device does not support it: {sorted(extra)}")
    for m in have:
        if dev.modules.get(m) is not dev.modules[m] or m not in dev.modules:
            fail(f"{what}: modules.get({m!r}) is not modules[{m!r}]")


def bound(dev, what, skip=()):
    """has_feature and get_feature agree with the features of the device."""
    n = 0
    for name, mod in dev.modules.items():
        if name in skip:
            continue
        for attr in dir(type(mod)):
            if attr.startswith("_"):
                continue
            o = getattr(type(mod), attr)
            note = getattr(getattr(o, "fget", o), "__annotations__", {}).get("return", "")
            if "FeatureAttribute" not in str(note):
                continue
            f = mod.get_feature(attr)
            n += 1
            eq(mod.has_feature(attr), f is not None, f"{what}: {name}.has_feature({attr})")
            if f is None:
                continue
            if dev.features.get(f.id) is not f:
                fail(f"{what}: {name}.get_feature({attr}) gives {f.id}, which is not a feature of the device")
            if isinstance(getattr(type(mod), attr), property) and f.attribute_getter == attr:
                eq(f.value, getattr(mod, attr), f"{what}: feature {f.id} and {name}.{attr}")
    return n


OLD_TYPES = {"is_bulb": DeviceType.Bulb, "is_dimmer": DeviceType.Dimmer, "is_light_strip": DeviceType.LightStrip,
             "is_plug": DeviceType.Plug, "is_wallswitch": DeviceType.WallSwitch, "is_strip": DeviceType.Strip,
             "is_strip_socket": DeviceType.StripSocket}
OLD = {"brightness": ("Light", "brightness"), "hsv": ("Light", "hsv"), "color_temp": ("Light", "color_temp"),
       "led": ("Led", "led"), "emeter_realtime": ("Energy", "status"),
       "emeter_today": ("Energy", "consumption_today"), "emeter_this_month": ("Energy", "consumption_this_month"),
       "current_consumption": ("Energy", "current_consumption")}
FLAGS = {"is_dimmable": "brightness", "is_color": "hsv", "is_variable_color_temp": "color_temp"}
NONE = object()


def value(obj, attr):
    try:
        return ("value", getattr(obj, attr))
    except AttributeError:
        return ("no attribute",)
    except KasaException as ex:
        return ("error", type(ex).__name__)


def old_names(dev, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for a, t in OLD_TYPES.items():
            eq(getattr(dev, a), dev.device_type is t, f"{what}: {a}")
        for a, (m, new) in OLD.items():
            if a in dir(dev):       # the device's own attribute
                continue
            mod = dev.modules.get(m)
            want = ("no attribute",) if mod is None or new not in dir(mod) else value(mod, new)
            eq(value(dev, a), want, f"{what}: {a} and {m}.{new}")
        light = dev.modules.get("Light")
        for a, new in FLAGS.items():
            if a in dir(dev):
                continue
            want = ("no attribute",) if light is None else ("value", light.has_feature(new))
            eq(value(dev, a), want, f"{what}: {a}")
        if "has_effects" not in dir(dev):
            eq(value(dev, "has_effects"),
               ("no attribute",) if light is None else ("value", Module.LightEffect in dev.modules),
               f"{what}: has_effects")
        for a in ("nonexistent", "is_toaster", "set_nothing"):
            eq(value(dev, a), ("no attribute",), f"{what}: {a}")


def cut(node, drop, fields):
    names = sorted(comp_names(node.comps) & (set(SMART) | set(CAM)))
    gone = {names[i % len(names)] for i in drop} if names else set()
    gone -= {"device", "child_device", "childControl", "time"} if node.id is None else {"device"}
    node.comps[:] = [c for c in node.comps if c.get("id", c.get("name")) not in gone]
    for f in fields:
        if f == "color_temp_range" and f in node.info:
            node.info[f] = [2700, 2700]
        elif f == "device_on" and {"fan_speed_level", "brightness"} & set(node.info):
            pass        # lights and fans always tell whether they are on
        else:
            node.info.pop(f, None)
    return gone


def cuts():
    return st.tuples(st.lists(st.integers(0, 60), max_size=6), st.lists(st.sampled_from(FIELDS), max_size=2))


def smart_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(list(smartsim.fixtures())), "root": cuts(),
                                  "kids": st.lists(cuts(), max_size=3)})


def role(dev, child):
    return "hubchild" if dev.device_type is DeviceType.Hub else "socket"


@functools.lru_cache(None)
def baseline(name):
    """child or None -> {feature: (module or None, name, type)} of the device as recorded."""
    sim = smartsim.SmartSim(name)
    dev, _ = smartsim.make(sim)
    vtime.run(lambda loop: dev.update())
    return {k: describe(d) for k, d in [(None, dev), *((c.device_id, c) for c in dev.children)]}


def describe(dev):
    out = {}
    for f in dev.features.values():
        out[f.id] = (f.container.name if isinstance(f.container, Module) and f.container.device is dev
                     else None, f.name, f.type)
    return out


def judge_features(dev, base, fields, what):
    now = describe(dev)
    for k, v in now.items():
        if k in base and v[1:] != base[k][1:]:
            fail(f"{what}: feature {k} is {v}, on the complete device {base[k]}")
        if k not in base:
            fail(f"{what}: feature {k} appears only when the device supports less")
        if v[0] is not None and v[0] not in dev.modules:
            fail(f"{what}: feature {k} belongs to {v[0]}, which the device lacks")
    for k, v in base.items():
        if k in now or k in fields or k == "on_since" and {"on_time", "device_on"} & set(fields):
            continue
        if k in ("state", "on_since") and "device_on" in fields:
            continue
        if k == "unpair" and dev.parent is not None:
            eq("ChildSetup" in dev.parent.modules, False, f"{what}: unpair is missing; the hub pairs children")
            continue
        if v[0] is None or v[0] in dev.modules and not fields:
            fail(f"{what}: feature {k} of {v[0] or 'the device'} is missing")


def check_smart(case, ctx):
    # the recorded device is measured outside of the judged run
    base = baseline(case["fixture"])
    sim = smartsim.SmartSim(case["fixture"])
    gone = cut(sim.root, *case["root"])
    removed = {None: (gone, case["root"][1])}
    for (cid, node), c in zip(sorted(sim.kids.items()), case["kids"]):
        removed[cid] = (cut(node, *c), c[1])
    dev, proto = smartsim.make(sim)
    vtime.run(lambda loop: dev.update())
    what = case["fixture"]
    with judging(f"{what}: reading modules and features"):
        judge_modules(dev, expected(sim.root, "root"), troubled(sim.root), what)
        old_names(dev, what)
        bound(dev, what, troubled(sim.root))
        judge_features(dev, base[None], removed[None][1], what)
        for c in dev.children:
            node = sim.kids[c.device_id]
            w = f"{what}: child {c.device_id}"
            if "device_model" in node.info:
                continue
            judge_modules(c, expected(node, role(dev, c)), troubled(node), w)
            old_names(c, w)
            bound(c, w, troubled(node))
            judge_features(c, base[c.device_id], removed.get(c.device_id, ((), ()))[1], w)
    asked(sim, [None, *[c.device_id for c in dev.children]], what)
    ctx.nontrivial(bool(gone) or any(g for g, f in removed.values()))


def asked(sim, ids, what):
    nodes = sim.nodes()
    for owner in ids:
        node = nodes[owner]
        comps = comp_names(node.comps)
        can = {m for c, m in (*SMART.items(), *CAM.items()) if c in comps}
        for who, method, params in sim.log:
            if who != owner:
                continue
            for m, asks in ASKS.items():
                if method in asks and m not in can:
                    if m == "Time" and sim.cam:
                        continue
                    fail(f"{what}: {owner or 'the device'} was asked {method} although it does not support {m}")


def cam_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(list(smartsim.cam_fixtures())), "root": cuts(),
                                  "kids": st.lists(cuts(), max_size=3)})


def check_cam(case, ctx):
    sim = smartsim.SmartSim(case["fixture"])
    gone = cut(sim.root, case["root"][0], [])
    for (cid, node), c in zip(sorted(sim.kids.items()), case["kids"]):
        cut(node, *c)
    dev, proto = smartsim.make(sim)
    vtime.run(lambda loop: dev.update())
    what = case["fixture"]
    with judging(f"{what}: reading modules and features"):
        judge_modules(dev, expected_cam(sim.root, dev.device_type is DeviceType.Hub), troubled(sim.root), what)
        bound(dev, what, troubled(sim.root))
        old_names(dev, what)
        for c in dev.children:
            node = sim.kids[c.device_id]
            if "device_model" not in node.info:
                judge_modules(c, expected(node, "hubchild"), troubled(node), f"{what}: child {c.device_id}")
                bound(c, f"{what}: child {c.device_id}", troubled(node))
    asked(sim, [None], what)
    ctx.nontrivial(bool(gone))


# ------------------------------------------------------------------ legacy
SERVICES = {"anti_theft": ("anti_theft", "smartlife.iot.common.anti_theft"), "countdown": ("countdown",),
            "schedule": ("schedule", "smartlife.iot.common.schedule"), "cloud": ("cnCloud",
                                                                                 "smartlife.iot.common.cloud")}


def iot_cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(list(iotsim.fixtures())),
        "flags": st.sampled_from([None, (False, False, False), (True, False, False), (True, False, True),
                                  (True, True, True), (True, True, False)]),
        "meter": st.sampled_from([None, True, False]),
        "led": st.booleans(), "on_time": st.booleans()})


def check_iot(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    s = sim.sys
    kind = iotsim.kind(case["fixture"])
    flags = None
    if kind in ("bulb", "lightstrip"):
        if case["flags"] is not None:
            dim, color, temp = case["flags"]
            s["is_dimmable"], s["is_color"], s["is_variable_color_temp"] = int(dim), int(color), int(temp)
        flags = {"brightness": s["is_dimmable"], "hsv": s["is_color"], "color_temp": s["is_variable_color_temp"]}
    elif case["meter"] is not None and "feature" in s and (not case["meter"] or "ENE" in s["feature"]):
        s["feature"] = "TIM:ENE" if case["meter"] else "TIM"
    if not case["led"] and kind != "strip":
        s.pop("led_off", None)
    dev, proto = iotsim.make(sim)
    vtime.run(lambda loop: dev.update())
    what = case["fixture"]
    with judging(f"{what}: reading modules and features"):
        meter = "ENE" in s.get("feature", "") or sim.light is not None
        em = any((m, c) in sim.broken for m in iotsim.EMETERS for c in (None, "get_realtime"))
        have = dev.modules
        if not em:
            eq("Energy" in have, meter, f"{what}: has an energy module")
            eq("current_consumption" in dev.features, meter, f"{what}: has the consumption feature")
        eq(dev.has_emeter, meter, f"{what}: has an energy meter")
        eq("Light" in have, kind in ("bulb", "lightstrip", "dimmer"), f"{what}: has a light module")
        if flags is not None:
            light = have["Light"]
            for k, v in flags.items():
                eq(light.has_feature(k), bool(v), f"{what}: the light has {k}")
            if kind == "lightstrip":
                eq("LightEffect" in have, True, f"{what}: has light effects")
        else:
            eq("LightEffect" in have, False, f"{what}: has light effects")
        if kind == "plug" or kind == "dimmer":
            eq("Led" in have and "led" in dev.features, "led_off" in s, f"{what}: has an indicator")
        old_names(dev, what)
        bound(dev, what)
        for c in dev.children:
            w = f"{what}: socket {c.device_id}"
            if not em:
                eq("Energy" in c.modules, meter, f"{w}: has an energy module")
            old_names(c, w)
            bound(c, w)
        if not meter:
            for owner, mod, cmd, p in sim.log:
                if mod in iotsim.EMETERS:
                    fail(f"{what}: the device was asked {mod}.{cmd} although it has no energy meter")
    ctx.nontrivial(case["flags"] is not None and flags is not None or case["meter"] is not None or not case["led"])


SUBS = [Sub("newer", smart_cases, check_smart, quick=4500, thorough=300000),
        Sub("camera", cam_cases, check_cam, quick=900, thorough=20000),
        Sub("legacy", iot_cases, check_iot, quick=2250, thorough=30000)]
