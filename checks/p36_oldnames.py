"""P36: the names of earlier releases still work and mean the current thing."""
from __future__ import annotations

import copy
import warnings

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from p19_features import smart_devices
from p28_reads import norm, shake

import kasa
from kasa import DeviceType, KasaException, Module
from kasa.iot.modules.lightpreset import IotLightPreset
from kasa.protocols import IotProtocol
from kasa.transports.xortransport import XorEncryption

LEVEL = "exploration"
RULE = ("A case is a device and a history of uses of old names, each made with the current name on a twin of the device; non-trivial "
        "when at least two old names gave a value or did something that was compared.")
ASSUMPTIONS = ["old names of what the device is unable to do may be missing or fail", "warnings are DeprecationWarning naming the old name"]

TYPES = {"is_bulb": DeviceType.Bulb, "is_dimmer": DeviceType.Dimmer, "is_light_strip": DeviceType.LightStrip, "is_plug": DeviceType.Plug,
         "is_wallswitch": DeviceType.WallSwitch, "is_strip": DeviceType.Strip, "is_strip_socket": DeviceType.StripSocket}


class Missing(Exception):
    """There is no such thing on the device."""


def mod(d, name):
    if name not in d.modules:
        raise Missing
    return d.modules[name]


def old_lights(d):
    """Light strips gave their effect as the device holds it."""
    return Module.LightEffect in d.modules and mod(d, Module.LightEffect).has_custom_effects


def held_effect(h, d):
    e = mod(d, Module.LightEffect)
    if not old_lights(d):
        return e.effect
    if h.iot:
        return h.held["sys"].get("lighting_effect_state")
    return h.held["info"][d.device_id].get("lighting_effect")


def effect_list(h, d):
    e = mod(d, Module.LightEffect)
    return [x for x in e.effect_list if x != e.LIGHT_EFFECTS_OFF] if old_lights(d) else e.effect_list


def presets(h, d):
    m = mod(d, Module.LightPreset)
    if not h.iot:
        return m.preset_states_list
    return [IotLightPreset(**p) for p in h.held["sys"]["preferred_state"] if "id" not in p]


def kelvins(h, d):
    f = d.features.get("color_temperature")
    if f is None:
        mod(d, Module.Light)
        raise KasaException("not supported")
    return (f.minimum_value, f.maximum_value)


def light_has(name):
    return lambda h, d: mod(d, Module.Light).has_feature(name)


def attr(module, name):
    return lambda h, d: getattr(mod(d, module), name)


#: name -> what it means now (given the twin's device)
VALUES = {
    **{n: (lambda h, d, t=t: d.device_type is t) for n, t in TYPES.items()},
    "is_dimmable": light_has("brightness"), "is_color": light_has("hsv"), "is_variable_color_temp": light_has("color_temp"),
    "valid_temperature_range": kelvins,
    "has_effects": lambda h, d: mod(d, Module.Light) is not None and Module.LightEffect in d.modules,
    "brightness": attr(Module.Light, "brightness"), "hsv": attr(Module.Light, "hsv"), "color_temp": attr(Module.Light, "color_temp"),
    "led": attr(Module.Led, "led"), "effect": held_effect, "effect_list": effect_list, "presets": presets,
    "emeter_realtime": attr(Module.Energy, "status"), "emeter_today": attr(Module.Energy, "consumption_today"),
    "emeter_this_month": attr(Module.Energy, "consumption_this_month"), "current_consumption": attr(Module.Energy, "current_consumption"),
    "supported_modules": lambda h, d: list(d.modules),
}
#: of modules
LIGHT = {"is_dimmable": light_has("brightness"), "is_color": light_has("hsv"), "is_variable_color_temp": light_has("color_temp"),
         "valid_temperature_range": kelvins, "has_effects": lambda h, d: Module.LightEffect in d.modules}
ENERGY = {"emeter_today": attr(Module.Energy, "consumption_today"), "emeter_this_month": attr(Module.Energy, "consumption_this_month"),
          "realtime": attr(Module.Energy, "status")}


def cut(e, k):
    return e[k % len(e)]


#: name -> (module, current name, arguments from (device, x))
CALLS = {
    "set_brightness": (Module.Light, "set_brightness", lambda d, x: ((x % 104 - 2,), {"transition": 500} if x % 3 == 0 else {})),
    "set_hsv": (Module.Light, "set_hsv", lambda d, x: ((x % 365, x % 103, x % 102), {"transition": 300} if x % 5 == 0 else {})),
    "set_color_temp": (Module.Light, "set_color_temp", lambda d, x: ((2500 + x % 5000,), {"brightness": 1 + x % 100} if x % 2 else {})),
    "set_led": (Module.Led, "set_led", lambda d, x: ((bool(x % 2),), {})),
    "set_effect": (Module.LightEffect, "set_effect", lambda d, x: (
        (cut(d.modules[Module.LightEffect].effect_list, x) if x % 7 and Module.LightEffect in d.modules else "nonsense",),
        {"brightness": 1 + x % 100} if x % 2 else {})),
    "set_custom_effect": (Module.LightEffect, "set_custom_effect", lambda d, x: (
        ({"custom": 1, "id": f"id{x}", "name": f"custom {x}", "brightness": 1 + x % 100, "enable": 1, "type": "static",
          "hue_range": [0, 10], "segments": [0], "expansion_strategy": 1, "duration": 0, "sequence": [[x % 360, 100, 100]]},), {})),
    "save_preset": (Module.LightPreset, None, lambda d, x: (
        (IotLightPreset(index=x % 6, brightness=1 + x % 100, hue=x % 361, saturation=x % 101, color_temp=0),), {})),
    "get_emeter_realtime": (Module.Energy, "get_status", lambda d, x: ((), {})),
    "get_emeter_daily": (Module.Energy, "get_daily_stats", lambda d, x: ((), {"year": 2024 + x % 2, "month": 1 + x % 12, "kwh": bool(x % 3)})),
    "get_emeter_monthly": (Module.Energy, "get_monthly_stats", lambda d, x: ((), {"year": 2024 + x % 2, "kwh": bool(x % 3)})),
}
ENERGY_CALLS = {
    "get_realtime": ("get_status", lambda x: {}), "erase_emeter_stats": ("erase_stats", lambda x: {}),
    "get_daystat": ("get_daily_stats", lambda x: {"year": 2024 + x % 2, "month": 1 + x % 12}),
    "get_monthstat": ("get_monthly_stats", lambda x: {"year": 2024 + x % 2}),
}
NATIVE = {"get_daystat", "get_monthstat"}      # still proper names of the legacy module
UNKNOWN = ["no_such_thing", "is_lamp", "brightnes", "set_brightnes", "emeter", "_effects", "is_"]


class Handle:
    """A device, its simulator and what that held at the last update."""

    def __init__(self, case):
        self.iot = case["family"] == "iot"
        if self.iot:
            self.sim = iotsim.IotSim(case["fixture"])
            self.dev, self.tr = iotsim.make(self.sim)
            for k in list(self.sim.usage):
                self.sim.usage[k] = {"days": [{"year": 2024 + m % 2, "month": 1 + m, "day": 1 + m, "energy_wh": 10 + m} for m in range(12)],
                                     "months": [{"year": 2024 + m % 2, "month": 1 + m, "energy_wh": 100 + m} for m in range(12)]} \
                    if "emeter" in k[1] else self.sim.usage[k]
        else:
            self.sim = smartsim.SmartSim(case["fixture"], children=list(case["kids"]) if case["kids"] else None)
            self.dev, self.tr = smartsim.make(self.sim)

    async def update(self):
        await self.dev.update()
        self.held = {"sys": copy.deepcopy(self.sim.get_sysinfo())} if self.iot else {
            "info": {d.device_id: copy.deepcopy(d.sys_info) for d in [self.dev, *self.dev.children]}}

    def node(self, k):
        nodes = [self.dev, *self.dev.children]
        return nodes[k % len(nodes)]

    def state(self):
        return norm(self.sim.snapshot() if hasattr(self.sim, "snapshot") else self.sim.get_sysinfo())


def outcome(fn):
    """-> (how, value) and the warnings."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            res = ("value", fn())
        except Missing:
            res = ("missing", None)
        except AttributeError as ex:
            res = ("missing", str(ex))
        except Exception as ex:  # noqa: BLE001
            res = ("raises", type(ex).__name__)
    return res, [w for w in ws if issubclass(w.category, DeprecationWarning)]


async def called(fn):
    try:
        return "value", norm(await fn())
    except Missing:
        return "missing", None
    except Exception as ex:  # noqa: BLE001
        return "raises", type(ex).__name__


def bare(reqs):
    return [norm({k: v for k, v in r.items() if k not in ("request_time_milis", "terminal_uuid")}) for r in reqs]


def warned(ws, name, used):
    eq([w for w in ws if name in str(w.message)] != [], used, f"warned about the use of {name}")


async def run(case, ctx):
    a, b = Handle(case), Handle(case)
    names = {**{k: ("value", k) for k in VALUES}, **{k: ("call", k) for k in CALLS}, **{"light." + k: ("light", k) for k in LIGHT},
             **{"energy." + k: ("energy", k) for k in ENERGY}, **{"energy()." + k: ("energycall", k) for k in ENERGY_CALLS},
             **{k: ("unknown", k) for k in UNKNOWN}}
    if case["early"]:
        for k in sorted(VALUES) + UNKNOWN:
            (how, v), _ = outcome(lambda k=k: getattr(a.dev, k))
            require(how == "missing" or v is not None, f"{k} before the first update is {v!r}")
            require(how != "raises" or v in ("KasaException",), f"{k} before the first update raises {v}")
        eq(a.tr.sent, [], "requests sent by reading old names before the update")
    with judging("update"):
        await a.update()
        await b.update()
    used = 0
    for op in case["ops"]:
        if op[0] == "outside":
            shake(a.sim, op[1])
            shake(b.sim, op[1])
            continue
        if op[0] == "update":
            with judging("update"):
                await a.update()
                await b.update()
            continue
        _, which, k, x = op
        kind, name = names[sorted(names)[which % len(names)]]
        da, db = a.node(k), b.node(k)
        n0 = len(a.tr.sent), len(b.tr.sent)
        what = f"{name} of {type(da).__name__} {da.model}"
        if name == "led" and a.iot and da is not a.dev:
            eq(da.led, False, "sockets have no led of their own")
            continue
        if kind in ("value", "light", "energy"):
            if kind != "value":
                m = {"light": Module.Light, "energy": Module.Energy}[kind]
                if m not in da.modules:
                    continue
                get, new = (lambda: getattr(da.modules[m], name)), {"light": LIGHT, "energy": ENERGY}[kind][name]
            else:
                get, new = (lambda: getattr(da, name)), VALUES[name]
            (how, v), ws = outcome(get)
            (how2, v2), _ = outcome(lambda: new(b, db))
            if name == "supported_modules" and how == "value":
                v = list(v)
            eq((how, norm(v) if how == "value" else v if how == "raises" else None),
               (how2, norm(v2) if how2 == "value" else v2 if how2 == "raises" else None), what)
            if how != "missing":
                warned(ws, name, True)
            eq((len(a.tr.sent), len(b.tr.sent)), n0, f"requests sent by reading {what}")
            used += how == "value"
            ctx.label(name, how)
            continue
        if kind == "unknown":
            (how, v), ws = outcome(lambda: getattr(da, name))
            eq(how, "missing", f"unknown {what}")
            eq(hasattr(da, name), False, f"hasattr of {what}")
            for m in (Module.Light, Module.Energy):
                if m in da.modules:
                    eq(hasattr(da.modules[m], name), False, f"unknown {name} of {m}")
            continue
        if kind == "call":
            mname, cur, args = CALLS[name]
            pa, kw = args(db, x)
            (how, fn), ws = outcome(lambda: getattr(da, name))
            there = mname in db.modules and (cur is not None or a.iot)
            if there and mname is Module.LightEffect and not hasattr(db.modules[mname], cur):
                there = False
            eq(how == "value", there, f"{what} is there")
            if not there:
                continue
            warned(ws, name, True)
            ra = await called(lambda: fn(*pa, **kw))
            if cur is None:      # what save_preset is to send
                p, n = pa[0], len(b.held["sys"]["preferred_state"])
                usable = [s for s in b.held["sys"]["preferred_state"] if "id" not in s]
                sent = a.tr.sent[n0[0]:]
                if not usable or p.index >= n:
                    eq((ra, sent), (("raises", "KasaException"), []), f"saving preset {p.index} of {n}")
                else:
                    eq([next(iter(next(iter(r.values())).items())) for r in sent],
                       [("set_preferred_state", {"index": p.index, "brightness": p.brightness, "hue": p.hue, "saturation": p.saturation,
                                                 "color_temp": 0})], f"request of {what}")
                    eq(ra[0], "value" if not a.sim.rejected else ra[0], what)
                used += 1
                b.sim.sys["preferred_state"] = copy.deepcopy(a.sim.sys["preferred_state"])
                a.sim.rejected.clear()
                continue
            pa2, kw2 = args(db, x)
            rb = await called(lambda: getattr(mod(db, mname), cur)(*pa2, **kw2))
        else:
            if Module.Energy not in da.modules:
                continue
            cur, args = ENERGY_CALLS[name]
            ea, eb = da.modules[Module.Energy], db.modules[Module.Energy]
            (how, fn), ws = outcome(lambda: getattr(ea, name))
            eq(how, "value", what)
            warned(ws, name, not (name in NATIVE and hasattr(type(ea), name)))
            ra = await called(lambda: fn(**args(x)))
            rb = await called(lambda: getattr(eb, cur)(**args(x)))
        eq(ra, rb, f"result of {what} against {cur}")
        eq(bare(a.tr.sent[n0[0]:]), bare(b.tr.sent[n0[1]:]), f"requests of {what} against {cur}")
        eq(a.state(), b.state(), f"state of the device after {what} and {cur}")
        used += 1
        ctx.label(name, ra[0])
    ctx.nontrivial(used >= 2)


X = st.integers(0, 100_000)


def ops():
    return st.lists(st.one_of(st.tuples(st.just("use"), st.integers(0, 300), st.integers(0, 6), X),
                              st.tuples(st.just("use"), st.integers(0, 300), st.just(0), X),
                              st.tuples(st.just("outside"), X), st.just(("update",))), min_size=4, max_size=14)


def iot_cases():
    lights = iotsim.names("bulb", "lightstrip", "dimmer")
    return st.fixed_dictionaries({"family": st.just("iot"), "fixture": st.sampled_from(sorted(iotsim.fixtures())) | st.sampled_from(lights) | st.sampled_from(lights),
                                  "kids": st.just(()), "early": st.booleans(), "ops": ops()})


def smart_cases():
    lights = [n for n in smartsim.fixtures() if "brightness" in smartsim.components(smartsim.fixtures()[n])]
    return (smart_devices() | st.sampled_from(lights).map(lambda n: (n, ()))).flatmap(lambda d: st.fixed_dictionaries({
        "family": st.just("smart"), "fixture": st.just(d[0]), "kids": st.just(d[1]), "early": st.booleans(), "ops": ops()}))


# ------------------------------------------------------------- names of the package
CLASSES = {"SmartDevice": "kasa.iot:IotDevice", "SmartPlug": "kasa.iot:IotPlug", "SmartBulb": "kasa.iot:IotBulb",
           "SmartLightStrip": "kasa.iot:IotLightStrip", "SmartStrip": "kasa.iot:IotStrip", "SmartDimmer": "kasa.iot:IotDimmer",
           "SmartBulbPreset": "kasa.iot.modules:IotLightPreset", "SmartDeviceException": "kasa:KasaException",
           "UnsupportedDeviceException": "kasa:UnsupportedDeviceError", "AuthenticationException": "kasa:AuthenticationError",
           "TimeoutException": "kasa:TimeoutError", "ConnectionType": "kasa:DeviceConnectionParameters",
           "EncryptType": "kasa:DeviceEncryptionType", "DeviceFamilyType": "kasa:DeviceFamily"}


def package_cases():
    return st.fixed_dictionaries({"name": st.sampled_from([*CLASSES, "TPLinkSmartHomeProtocol", "NoSuchName", "SmartLamp"]),
                                  "text": st.text(max_size=30), "port": st.none() | st.integers(1, 65535), "host": st.sampled_from(["10.0.0.9", "lamp.local"]),
                                  "timeout": st.none() | st.integers(1, 60)})


def package(case, ctx):
    name = case["name"]
    (how, v), ws = outcome(lambda: getattr(kasa, name))
    if name in CLASSES:
        m, c = CLASSES[name].split(":")
        now = getattr(__import__(m, fromlist=[c]), c) if c != "IotLightPreset" else IotLightPreset
        require(how == "value" and v is now, f"kasa.{name} is {v}")
        warned(ws, name, True)
    elif name == "TPLinkSmartHomeProtocol":
        warned(ws, name, True)
        require(issubclass(v, IotProtocol), f"kasa.{name} is {v}")
        with judging("the old protocol"):
            p = v(case["host"], port=case["port"], timeout=case["timeout"])
            enc = v.encrypt(case["text"])
            eq(enc, XorEncryption.encrypt(case["text"]), "encrypted text")
            eq(v.decrypt(enc[4:]), case["text"], "decrypted text")
        cfg = p._transport._config
        eq((cfg.host, cfg.port_override, cfg.timeout), (case["host"], case["port"], case["timeout"] or 5), "where the old protocol connects to")
        (how, _), _ = outcome(lambda: v())
        eq(how, "raises", "the old protocol without a host")
    else:
        eq(how, "missing", f"kasa.{name}")
        return
    ctx.label(name)
    ctx.nontrivial()


SUBS = [
    Sub("legacy", iot_cases, lambda c, x: vtime.run(lambda loop: run(c, x)), quick=5000, thorough=30000, shards=3, tshards=8),
    Sub("newer", smart_cases, lambda c, x: vtime.run(lambda loop: run(c, x)), quick=5000, thorough=30000, shards=4, tshards=8),
    Sub("package", package_cases, package, quick=600, thorough=3000, rule="the name exists"),
]
