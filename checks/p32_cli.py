"""P32: the command line does what the API does and prints what the device says."""
from __future__ import annotations

import ast
import copy
import json
import zoneinfo
from datetime import datetime, timedelta
from unittest import mock

from hypothesis import strategies as st

import clirun
import gen
import iotsim
import smartsim
import tztable
import vtime
from core import Sub, eq, fail, judging, require

from kasa import AuthenticationError, Credentials, Device, DeviceConfig, DeviceType, Feature, KasaException, Module
from kasa.exceptions import _ConnectionError
from kasa.interfaces import Energy
from kasa.iot import IotBulb, IotDevice
from kasa.smart import SmartDevice

LEVEL = "exploration"
RULE = ("A case is a command line for a simulated device; the same call is made through the API on a twin of the device.  "
        "Non-trivial when the command succeeded and its requests, result and output were compared.")
ASSUMPTIONS = ["discovery and connecting hand the tool a device object of the simulator", "interactive prompts are answered through "
               "stdin, and their texts are not judged", "texts with control characters are compared in JSON mode only",
               "on errors JSON mode prints nothing but JSON to stdout (nothing at all is allowed)"]
HOST, SECRET, USER = "10.0.0.2", "Zq7xSecretW9", "Uw5nameK3@example.com"

SMART = sorted(smartsim.fixtures())
IOT = sorted(iotsim.fixtures())
CAMS = sorted(smartsim.cam_fixtures())
HUBS = sorted(n for n in smartsim.all_names() if smartsim.is_hub(n) and not smartsim.is_cam(n))
KIDS = sorted(smartsim.child_fixtures())
MULTI = [("iot", n) for n in IOT if iotsim.sysinfo(n).get("children")] + [
    ("smart", n) for n in SMART if "child_device" in smartsim.components(smartsim.fixtures()[n])]
ALL = [("smart", n) for n in SMART] + [("iot", n) for n in IOT] + [("smart", n) for n in CAMS]
NAME = st.one_of(gen.TEXT, st.sampled_from(["[bold]x[/bold]", "[/]", "[/x]", "[red]", ":smile:", "lamp [1]", "\\[a]", "x" * 200,
                                            "a  b", "-x", "100%", "[link=http://x]y"]))


class Unsupported(Exception):
    """The device cannot do that; the tool has to fail."""


def lines(text):
    return text.isprintable() and text.strip() == text and text


# ------------------------------------------------------------- the operations
# Every operation: strategy of its parameters, the arguments of the tool, and the same thing through the API.
OPS = {}


def op(name, /, **params):
    def add(fn):
        OPS[name] = (params, fn)
        return fn
    return add


TRANS = st.sampled_from([None, None, 0, 500, 3000])


def opt(flag, value):
    return [] if value is None else [flag, str(value)]


def module(dev, mod):
    if (m := dev.modules.get(mod)) is None:
        raise Unsupported(str(mod))
    return m


@op("on", transition=TRANS)
def _on(p):
    async def api(dev, root):
        return await dev.turn_on(transition=p["transition"]), [f"Turning on {dev.alias}"]
    return ["on", *opt("--transition", p["transition"])], api


@op("off", transition=TRANS)
def _off(p):
    async def api(dev, root):
        return await dev.turn_off(transition=p["transition"]), [f"Turning off {dev.alias}"]
    return ["device", "off", *opt("--transition", p["transition"])], api


@op("toggle", transition=TRANS)
def _toggle(p):
    async def api(dev, root):
        if dev.is_on:
            return await dev.turn_off(transition=p["transition"]), [f"Turning off {dev.alias}"]
        return await dev.turn_on(transition=p["transition"]), [f"Turning on {dev.alias}"]
    return ["toggle", *opt("--transition", p["transition"])], api


@op("led", state=st.sampled_from([None, True, False]))
def _led(p):
    async def api(dev, root):
        led = module(dev, Module.Led)
        if p["state"] is None:
            return led.led, [f"LED state: {led.led}"]
        return await led.set_led(p["state"]), [f"Turning led to {p['state']}"]
    return ["led", *([] if p["state"] is None else [["off", "on"][p["state"]]])], api


@op("alias", name=st.none() | NAME.filter(lambda s: not s.startswith("-")))
def _alias(p):
    async def api(dev, root):
        if p["name"] is None:
            return dev.alias, [f"Alias: {dev.alias}"] + [f"* {c.alias}" for c in dev.children]
        res = await dev.set_alias(p["name"])
        await root.update()
        return res, [f"Alias set to: {dev.alias}"]
    return ["alias", *([] if p["name"] is None else [p["name"]])], api


@op("reboot", delay=st.none() | st.integers(0, 30))
def _reboot(p):
    async def api(dev, root):
        return await root.reboot(1 if p["delay"] is None else p["delay"]), ["Rebooting the device.."]
    api.no_child = True
    return ["reboot", *opt("--delay", p["delay"])], api


@op("factory", sure=st.booleans())
def _factory(p):
    async def api(dev, root):
        return (await root.factory_reset(), []) if p["sure"] else (None, [])
    api.no_child, api.input = True, ["n\n", "y\n"][p["sure"]]
    return ["device", "factory-reset"], api


@op("credentials", sure=st.booleans(), username=st.sampled_from(["new@example.com", "n ü"]), password=st.sampled_from(["Pp4newSecretX", "Pp4new SecretX ß"]))
def _credentials(p):
    async def api(dev, root):
        if not isinstance(root, SmartDevice):
            raise Unsupported
        return (await root.update_credentials(p["username"], p["password"]), []) if p["sure"] else (None, [])
    api.no_child, api.input, api.secret = True, ["n\n", "y\n"][p["sure"]], p["password"]
    return ["update_credentials", "--username", p["username"], "--password", p["password"]], api


@op("sysinfo")
def _sysinfo(p):
    async def api(dev, root):
        return dev.sys_info, ["System info"]
    return ["sysinfo"], api


@op("state", implicit=st.integers(0, 2), verbose=st.booleans())
def _state(p):
    async def api(dev, root):
        info = dev.device_info
        frags = [f"Device state: {dev.is_on}", f"{dev.alias} - {dev.model}", f"Host: {dev.host}", f"Port: {dev.port}",
                 f"Hardware:     {info.hardware_version}" + (f" ({dev.region})" if dev.region else ""),
                 f"Firmware:     {info.firmware_version}" + (f" {info.firmware_build}" if info.firmware_build else ""),
                 f"MAC (rssi):   {dev.mac} ({dev.rssi})"]
        if p["verbose"]:
            frags.append(f"Location:     {dev.location}")
        for f in dev.features.values():
            if p["verbose"]:
                frags.append(f"Category: {f.category}")
            if f.category is Feature.Category.Primary and f.type in (Feature.Type.Switch, Feature.Type.Number):
                try:
                    frags.append(f"({f.id}): {f.value}")
                except Exception:  # noqa: BLE001
                    pass
        return dev.internal_state, frags
    if not p["implicit"]:
        api.no_child = True
    if p["verbose"]:
        api.top = ["--verbose"]
    return {0: [], 1: ["state"], 2: ["device", "state"]}[p["implicit"]], api


def literal(value):
    return repr(value)


@op("feature", which=st.integers(0, 200), value=st.one_of(
    st.none(), st.none(), st.booleans(), st.integers(-5, 110), st.sampled_from([2700, 3000, "x", "Off", None]), st.floats(-5, 50).map(lambda x: round(x, 1)),
    st.integers(0, 30).map(lambda n: ["choice", n]), st.just("<current>"), st.just("<bare>")), missing=st.sampled_from([False] * 9 + [True]))
def _feature(p):
    def pick(dev):
        ids = sorted(f.id for f in dev.features.values() if f.id not in SKIP_FEATURES)
        return ids[p["which"] % len(ids)] if ids and not p["missing"] else "no_such_feature"

    def value(dev):
        v, name = p["value"], pick(dev)
        if name not in dev.features:
            return v
        f = dev.features[name]
        if v == "<current>":
            try:
                v = f.value
            except Exception:  # noqa: BLE001
                v = None
            return v if isinstance(v, (bool, int, float, str)) and not hasattr(v, "name") else None
        if isinstance(v, (list, tuple)):
            return f.choices[v[1] % len(f.choices)] if f.type is Feature.Type.Choice and f.choices else v[1]
        return v

    async def api(dev, root):
        name = pick(dev)
        if name not in dev.features:
            raise Unsupported
        f, v = dev.features[name], value(dev)
        if v == "<bare>":
            raise Unsupported
        if v is None and f.type is Feature.Type.Action:
            res = await f.set_value(None)
            return res, [f"Executing action {name}"]
        if v is None:
            return f.value, [f"{f.name} ({name}): {f.value}" + (f" {f.unit}" if f.unit else "")]
        res = await f.set_value(v)
        await root.update()
        return res, [f"New state: {f.value}"]

    def args(dev):
        v = value(dev)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and repr(v).startswith("-"):
            return ["feature", "--", pick(dev), literal(v)]
        return ["feature", pick(dev), *([] if v is None else ["bare" if v == "<bare>" else literal(v)])]
    return args, api


SKIP_FEATURES = {"on_since", "device_time", "pir_value", "device_id", "check_latest_firmware"}


@op("brightness", value=st.none() | st.integers(-5, 120), transition=TRANS)
def _brightness(p):
    async def api(dev, root):
        light = module(dev, Module.Light)
        if not light.has_feature("brightness"):
            raise Unsupported
        if p["value"] is None:
            return light.brightness, [f"Brightness: {light.brightness}"]
        return await light.set_brightness(p["value"], transition=p["transition"]), [f"Setting brightness to {p['value']}"]
    return ["brightness", *opt("--transition", p["transition"]), *([] if p["value"] is None else ["--", str(p["value"])])], api


@op("temperature", value=st.none() | st.integers(2400, 9100) | st.sampled_from([2700, 3000, 4000, 6500]), transition=TRANS)
def _temperature(p):
    async def api(dev, root):
        light = module(dev, Module.Light)
        if not (f := light.get_feature("color_temp")):
            raise Unsupported
        if p["value"] is None:
            return list(f.range), [f"Color temperature: {light.color_temp}", f"(min: {f.range[0]}, max: {f.range[1]})"]
        return await light.set_color_temp(p["value"], transition=p["transition"]), [f"Setting color temperature to {p['value']}"]
    return ["light", "temperature", *([] if p["value"] is None else [str(p["value"])]), *opt("--transition", p["transition"])], api


@op("hsv", value=st.one_of(st.none(), st.tuples(st.integers(-3, 370), st.integers(-3, 105), st.integers(-3, 105)),
                           st.tuples(st.integers(0, 360), st.integers(0, 100))), transition=TRANS)
def _hsv(p):
    async def api(dev, root):
        light = module(dev, Module.Light)
        if not light.has_feature("hsv"):
            raise Unsupported
        if p["value"] is None:
            return list(light.hsv), [f"Current HSV: {light.hsv}"]
        if len(p["value"]) != 3:
            raise Unsupported
        h, s, v = p["value"]
        return await light.set_hsv(h, s, v, transition=p["transition"]), [f"Setting HSV: {h} {s} {v}"]
    return ["hsv", *opt("--transition", p["transition"]), *([] if p["value"] is None else ["--", *map(str, p["value"])])], api


@op("effect", which=st.none() | st.integers(0, 30) | st.just("nonsense"))
def _effect(p):
    def pick(dev):
        e = dev.modules.get(Module.LightEffect)
        return "nonsense" if e is None or p["which"] == "nonsense" else e.effect_list[p["which"] % len(e.effect_list)]

    async def api(dev, root):
        e = module(dev, Module.LightEffect)
        if p["which"] is None:
            return e.effect, [f"Light effect: {e.effect}", f"Available Effects: {e.effect_list}"]
        if p["which"] == "nonsense":
            raise Unsupported
        return await e.set_effect(pick(dev)), [f"Setting Effect: {pick(dev)}"]
    return (lambda dev: ["effect", *([] if p["which"] is None else [pick(dev)])]), api


@op("presets")
def _presets(p):
    async def api(dev, root):
        m = module(dev, Module.LightPreset)
        return [str(s) for s in m.preset_states_list], [f"[{k}] Hue: {s.hue or '':3}  Saturation: {s.saturation or '':3}  "
                                                        f"Brightness/Value: {s.brightness or '':3}  Temp: {s.color_temp or '':4}".strip()
                                                        for k, s in enumerate(m.preset_states_list)]
    return ["presets"], api


@op("modify", index=st.sampled_from([0, 0, 0, 1, 1, 2, 3, 8, -1, -2]), brightness=st.none() | st.integers(1, 100),
    hue=st.none() | st.sampled_from([0, 0, 1, 359, 360]) | st.integers(0, 360),
    saturation=st.none() | st.sampled_from([0, 0, 100]) | st.integers(0, 100), temperature=st.none() | st.sampled_from([2700, 4000, 6500]))
def _modify(p):
    keys = ("brightness", "hue", "saturation", "temperature")

    async def api(dev, root):
        m = module(dev, Module.LightPreset)
        if not 0 <= p["index"] < len(m.preset_states_list) or all(p[k] is None for k in keys):
            raise Unsupported
        s = m.preset_states_list[p["index"]]
        for k in keys:
            attr = "color_temp" if k == "temperature" else k
            if p[k] is not None and getattr(s, attr) is not None:
                setattr(s, attr, p[k])
        return await m.save_preset(m.preset_list[p["index"] + 1], s), []
    return ["presets", "modify", *[a for k in keys for a in opt(f"--{k}", p[k])], "--", str(p["index"])], api


@op("behavior", type=st.sampled_from([None, "soft", "hard"]), last=st.booleans(), preset=st.none() | st.integers(0, 3))
def _behavior(p):
    async def api(dev, root):
        if dev.device_type is not DeviceType.Bulb or not isinstance(dev, IotBulb):
            raise Unsupported
        s = await dev.get_turn_on_behavior()
        if not p["last"] and p["preset"] is None:
            if p["type"]:
                return await dev.set_turn_on_behavior(s), []      # the type alone changes nothing
            return str(s), [f"Current turn on behavior: {s}"]
        if p["type"] is None:
            raise Unsupported
        b = getattr(s, p["type"])
        b.preset = None if p["last"] else p["preset"]
        b.mode = type(b.mode)("last_status" if b.preset is None else "customize_preset")
        return await dev.set_turn_on_behavior(s), []
    return ["light", "turn-on-behavior", *opt("--type", p["type"]), *(["--last"] if p["last"] else []), *opt("--preset", p["preset"])], api


@op("energy", what=st.sampled_from([None, None, "year", "month", "erase"]), year=st.integers(2019, 2026), month=st.integers(1, 12))
def _energy(p):
    async def api(dev, root):
        m = module(dev, Module.Energy)
        if p["what"] and not m.supports(Energy.ModuleFeature.PERIODIC_STATS):
            raise Unsupported
        if p["what"] == "erase":
            return await m.erase_stats(), ["Erasing emeter statistics.."]
        if p["what"]:
            data = await (m.get_monthly_stats(year=p["year"]) if p["what"] == "year" else m.get_daily_stats(year=p["year"], month=p["month"]))
            return data, [f"{k}, {v}" for k, v in data.items()]
        s = m.status
        return s, [f"Current: {s['current']} A", f"Voltage: {s['voltage']} V", f"Power: {s['power']} W",
                   f"Total consumption: {s['total']} kWh", f"Today: {m.consumption_today} kWh", f"This month: {m.consumption_this_month} kWh"]
    return ["energy", *stat_args(p)], api


def stat_args(p):
    return {None: [], "erase": ["--erase"], "year": ["--year", str(p["year"])],
            "month": ["--month", f"{p['year']}-{p['month']:02}"]}[p["what"]]


@op("usage", what=st.sampled_from([None, "year", "month", "erase"]), year=st.integers(2019, 2026), month=st.integers(1, 12))
def _usage(p):
    async def api(dev, root):
        m = module(dev, "usage")
        if p["what"] == "erase":
            return await m.erase_stats(), []
        if p["what"]:
            data = await (m.get_monthstat(year=p["year"]) if p["what"] == "year" else m.get_daystat(year=p["year"], month=p["month"]))
            return data, [f"{k}, {v}" for k, v in data.items()]
        return ANY, [f"Today: {m.usage_today} minutes", f"This month: {m.usage_this_month} minutes"]
    return ["usage", *stat_args(p)], api


ANY = object()


@op("scan")
def _scan(p):
    async def api(dev, root):
        nets = await root.wifi_scan()
        return [str(n) for n in nets], [f"Found {len(nets)} wifi networks!", *[str(n) for n in nets]]
    api.no_child = True
    return ["wifi", "scan"], api


@op("join", ssid=NAME.filter(lambda s: not s.startswith("-")), password=st.sampled_from(["Wf8keyWordZ", "Wf8key Word ß"]), keytype=st.sampled_from(["3", "0"]))
def _join(p):
    async def api(dev, root):
        return await root.wifi_join(p["ssid"], p["password"], keytype=p["keytype"]), []
    api.no_child, api.secret = True, p["password"]
    return ["wifi", "join", "--keytype", p["keytype"], "--password", p["password"], p["ssid"]], api


@op("time")
def _time(p):
    async def api(dev, root):
        return ANY, ["Current time:"]
    api.no_child = True
    return ["time"], api


ZONES = ["Europe/Berlin", "Europe/Copenhagen", "Asia/Kolkata", "America/New_York", "US/Eastern", "UTC", "Asia/Kathmandu", "Asia/Pyongyang"]


@op("settime", zone=st.sampled_from([None] * 4 + ZONES + ["Nowhere/Land", "", "bst"]), sure=st.sampled_from([True, True, False]),
    skip=st.booleans(), t=st.tuples(st.integers(2020, 2030), st.integers(1, 12), st.integers(1, 30), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)))
def _settime(p):
    async def api(dev, root):
        m = module(root, Module.Time)
        zone = None
        if p["zone"]:
            if p["zone"] not in zoneinfo.available_timezones():
                raise Unsupported
            zone = zoneinfo.ZoneInfo(p["zone"])
            if isinstance(root, IotDevice) and p["zone"] not in tztable.ZONES.values():
                same_zone(zone)
                if not (p["skip"] or p["sure"]):
                    return ANY, []
        await m.set_time(datetime(*p["t"], tzinfo=zone))
        await root.update()
        return ANY, ["New time:"] + ([f"New time: {m.time} ({m.timezone})"] if root.model else [])
    api.no_child = True
    if p["zone"]:
        api.input = ["n\n", "y\n"][p["sure"]]
    return ["time", "set", *map(str, p["t"]), *opt("--timezone", p["zone"]), *(["--skip-confirm"] if p["skip"] else [])], api


def same_zone(zone):
    """The device has to have a zone that is the same all year."""
    year = datetime.now().year
    days = [datetime(year, 1, 1, 12) + timedelta(days=k) for k in range(365)]
    if not any(all(zone.utcoffset(d) == z.utcoffset(d) for d in days) for z in map(zoneinfo.ZoneInfo, tztable.ZONES.values())):
        raise Unsupported


@op("logs")
def _logs(p):
    async def api(dev, root):
        if (m := dev.modules.get(Module.TriggerLogs)) is None:
            return None, []
        await dev.update(update_children=True)
        return None, [str(e) for e in m.logs]
    return ["device", "logs"], api


@op("rules", kind=st.sampled_from(["schedule", "countdown", "antitheft"]))
def _rules(p):
    async def api(dev, root):
        m = module(dev, p["kind"])
        if not m.rules:
            raise Unsupported
        return [str(r) for r in m.rules], [str(r) for r in m.rules]
    return ["schedule", "list", p["kind"]], api


@op("delrule", which=st.integers(0, 3))
def _delrule(p):
    def pick(dev):
        m = dev.modules.get("schedule")
        return m.rules[p["which"] % len(m.rules)].id if m is not None and m.rules and p["which"] < 3 else "nope"

    async def api(dev, root):
        m = module(dev, "schedule")
        r = next((r for r in m.rules if r.id == pick(dev)), None)
        if r is None:
            raise Unsupported
        return await m.delete_rule(r), [f"Deleting rule id {r.id}"]
    return (lambda dev: ["schedule", "delete", "--id", pick(dev)]), api


def hub(dev):
    if dev.device_type is not DeviceType.Hub:
        raise Unsupported
    return module(dev, Module.ChildSetup)


@op("hublist")
def _hublist(p):
    async def api(dev, root):
        hub(root)
        return None, [f"{c.device_id}: {c}" for c in root.children]
    api.no_child = True
    return ["hub", "list"], api


@op("hubsupported")
def _hubsupported(p):
    async def api(dev, root):
        return None, [f"Supports: {c}" for c in hub(root).supported_categories]
    api.no_child = True
    return ["hub", "supported"], api


@op("unpair", which=st.integers(0, 4))
def _unpair(p):
    def pick(dev):
        return dev.children[p["which"]].device_id if p["which"] < len(dev.children) else "nope"

    async def api(dev, root):
        m = hub(root)
        cid = pick(root)
        if cid == "nope":
            raise Unsupported
        return await m.unpair(device_id=cid), [f"Unpaired {cid}"]
    api.no_child = True
    return (lambda dev: ["hub", "unpair", pick(dev)]), api


@op("records", all=st.booleans())
def _records(p):
    async def api(dev, root):
        m = module(dev, Module.CleanRecords)
        d = m.parsed_data
        frags = [f"Totals: {m.total_clean_area} {m.area_unit} in {m.total_clean_time} (cleaned {m.total_clean_count} times)",
                 f"Last clean: {d.last_clean.clean_area} {m.area_unit} @ {d.last_clean.clean_time}"]
        if p["all"]:
            frags += [f"* {r.timestamp}: cleaned {r.clean_area} {m.area_unit} in {r.clean_time}" for r in d.records]
        return None, frags
    return ["vacuum", "records", *(["list"] if p["all"] else [])], api


@op("consumables", reset=st.none() | st.integers(0, 8))
def _consumables(p):
    def pick(dev):
        m = dev.modules.get(Module.Consumables)
        ids = sorted(m.consumables) if m is not None else []
        return ids[p["reset"]] if p["reset"] < len(ids) else "nope"

    async def api(dev, root):
        m = module(dev, Module.Consumables)
        if p["reset"] is None:
            return None, [f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining" for c in m.consumables.values()]
        if pick(dev) == "nope":
            raise Unsupported
        await m.reset_consumable(pick(dev))
        return None, [f"Consumable {pick(dev)} reset"]
    return (lambda dev: ["vacuum", "consumables", *([] if p["reset"] is None else ["reset", pick(dev)])]), api


@op("command", kind=st.sampled_from(["info", "info", "alias", "bad"]), name=NAME)
def _command(p):
    def parts(dev):
        if isinstance(dev, SmartDevice):
            return {"info": ("", "get_device_info", None), "bad": ("", "no_such_method", None),
                    "alias": ("", "set_device_info", {"nickname": __import__("base64").b64encode(p["name"].encode()).decode()})}[p["kind"]]
        return {"info": ("system", "get_sysinfo", None), "alias": ("system", "set_dev_alias", {"alias": p["name"]}),
                "bad": ("system", "no_such_method", None)}[p["kind"]]

    async def api(dev, root):
        mod, cmd, par = parts(dev)
        res = await (dev._query_helper(mod, cmd, par) if mod else dev._query_helper(cmd, par))
        return res, [json.dumps(res)]
    api.skip_update = True
    return (lambda dev: ["command", *opt("--module", parts(dev)[0] or None), parts(dev)[1], *([] if parts(dev)[2] is None else [repr(parts(dev)[2])])]), api


# ------------------------------------------------------------- running both
def cases():
    one = st.sampled_from(sorted(OPS)).flatmap(lambda name: st.fixed_dictionaries(
        {"op": st.just(name), **OPS[name][0], "device": device_for(name)}))
    def sober(c):
        """Few commands for children of devices that have none."""
        if c["child"] and c["run"]["device"] not in MULTI and c.pop("odd") % 5:
            c["child"] = None
        c.pop("odd", None)
        return c

    return st.fixed_dictionaries({
        "odd": st.integers(0, 9), "run": one, "json": st.booleans(), "kids": st.lists(st.sampled_from(KIDS), max_size=3), "alias": st.none() | NAME,
        "child": st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["index", "id", "name"]), st.integers(0, 5))),
        "how": st.sampled_from(["discover", "discover", "connect"]), "debug": st.sampled_from([False, False, True]),
        "fault": st.sampled_from([None] * 12 + ["update", "command", "later"])}).map(sober)


def device_for(name):
    every = st.one_of(st.sampled_from(ALL), st.sampled_from(ALL), st.sampled_from(MULTI))
    light = st.sampled_from([("smart", n) for n in SMART if "brightness" in smartsim.components(smartsim.fixtures()[n])] +
                            [("iot", n) for n in iotsim.names("bulb", "lightstrip", "dimmer")])
    color = st.sampled_from([("smart", n) for n in SMART if "color" in smartsim.components(smartsim.fixtures()[n])] +
                            [("iot", n) for n in iotsim.names("bulb", "lightstrip") if iotsim.sysinfo(n)["is_color"]])
    iot = st.sampled_from([("iot", n) for n in IOT])
    hubs = st.sampled_from([("smart", n) for n in HUBS])
    vacuums = st.sampled_from([("smart", n) for n in SMART if n.startswith("RV")])
    special = {"brightness": light, "temperature": light, "hsv": color, "effect": color, "presets": light | color,
               "modify": light | color,
               "behavior": iot, "usage": iot, "rules": iot, "delrule": iot, "hublist": hubs, "logs": hubs, "hubsupported": hubs, "unpair": hubs,
               "records": vacuums, "consumables": vacuums}
    return st.one_of(special[name], special[name], special[name], every) if name in special else every


RULE_ITEM = {"name": "r", "enable": 1, "wday": [1, 0, 1, 0, 0, 0, 1], "repeat": 1, "sact": 1, "stime_opt": 0, "smin": 600}


def build(case):
    fam, name = case["run"]["device"]
    if fam == "iot":
        sim = iotsim.IotSim(name)
        if case["alias"] is not None:
            sim.sys["alias"] = case["alias"]
        for mod in ("schedule", "smartlife.iot.common.schedule"):
            for owner in (None, *[c["id"] for c in sim.sys.get("children", [])]):
                sim.rules[(owner, mod)] = [{**RULE_ITEM, "id": f"RULE{k}", "name": f"[r{k}]"} for k in range(3)]
        sim.wifi["ap_list"] = [{"ssid": "[net] a", "key_type": 3}]
        return sim, (lambda: iotsim.make(sim))
    sim = smartsim.SmartSim(name, children=case["kids"] if smartsim.is_hub(name) and not smartsim.is_cam(name) else None)
    if case["alias"] is not None and "nickname" in sim.root.info:
        sim.root.info["nickname"] = __import__("base64").b64encode(case["alias"].encode()).decode()
    return sim, (lambda: smartsim.make(sim))


def writes(sent, fam):
    """The requests that are no readings."""
    out = []
    for r in sent:
        if fam == "iot":
            for mod, cmds in r.items():
                if mod != "context":
                    out += [(json.dumps(r.get("context")), mod, c, json.dumps(a)) for c, a in cmds.items() if not c.startswith("get_")]
            continue
        stack = [(None, r)]
        while stack:
            who, q = stack.pop(0)
            m, p = q.get("method"), q.get("params")
            if m == "multipleRequest":
                stack = [(who, x) for x in p["requests"]] + stack
            elif m in ("control_child", "controlChild"):
                inner = p.get("requestData") or p["childControl"].get("request_data")
                stack.insert(0, (p.get("device_id") or p["childControl"].get("device_id"), inner))
            elif m and not m.startswith("get") and m not in ("component_nego", "do", "scanChildDevice"):
                out.append((who, m, json.dumps(p, sort_keys=True)))
    return out


def break_it(case, sim, tr):
    """Makes the device fail as the case says."""
    if case["fault"] is None:
        return
    inner = sim.answer

    def answer(req):
        write = writes([req], case["run"]["device"][0])
        if case["fault"] == "update" or case["fault"] == "command" and write:
            raise _ConnectionError("the device is gone")
        return inner(req)
    tr.answer = answer


def child_of(case, dev, api):
    if case["child"] is None or getattr(api, "no_child", False):
        return dev, []
    how, k = case["child"]
    if how == "index":
        if k >= len(dev.children):
            raise Unsupported
        return dev.children[k], None
    if k >= len(dev.children):
        raise Unsupported
    c = dev.children[k]
    if how == "id":
        return dev.get_child_device(c.device_id), None
    if not c.alias:
        raise Unsupported
    return dev.get_child_device(c.alias), None


def child_args(case, dev, api):
    if case["child"] is None or getattr(api, "no_child", False):
        return []
    how, k = case["child"]
    if how == "index":
        return ["--child-index", str(k)]
    if k >= len(dev.children):
        return ["--child", "no such child"]
    c = dev.children[k]
    return ["--child", c.device_id if how == "id" or not c.alias or c.alias.startswith("-") else c.alias]


def check(case, ctx):
    fn = OPS[case["run"]["op"]][1]
    params = {k: v for k, v in case["run"].items() if k not in ("op", "device")}
    args, api = fn(params)
    fam, name = case["run"]["device"]
    if case["child"] and not getattr(api, "no_child", False) and case["child"][0] == "name":
        case = {**case, "child": ("id", case["child"][1])} if case["run"]["op"] == "alias" and params["name"] is not None else case

    # -- the API on one twin
    async def by_api():
        sim, make = build(case)
        dev, tr = make()
        try:
            if case["fault"] == "update":
                break_it(case, sim, tr)
            needs_update = not getattr(api, "skip_update", False) or case["how"] == "connect" or case["child"]
            if needs_update:
                await dev.update()
            target, _ = child_of(case, dev, api)
            n0 = len(tr.sent)
            break_it(case, sim, tr)
            res, frags = await api(target, dev)
        except Unsupported:
            return "fails", None, [], [], None
        except Exception as ex:  # noqa: BLE001
            return "fails", None, [], [], ex
        return "ok", res, frags, writes(tr.sent, fam), None

    # -- the arguments are chosen with the help of a third one
    async def arguments():
        sim, make = build(case)
        dev, tr = make()
        await dev.update()
        a = list(args(find(dev)) if callable(args) else args)
        extra = child_args(case, dev, api)
        if not extra:
            return a
        k = a.index("--") if "--" in a else len(a)
        return a[:k] + extra + a[k:]

    def find(dev):
        try:
            return child_of(case, dev, api)[0]
        except Unsupported:
            return dev

    # -- the tool on the other twin
    async def by_tool(argv):
        sim, make = build(case)
        dev, tr = make()
        break_it(case, sim, tr)

        async def single(host, **kw):
            eq((host, kw.get("credentials")), (HOST, Credentials(USER, SECRET)), "host and credentials used")
            return dev

        async def connect(*, host=None, config=None):
            eq((config.host, config.credentials), (HOST, Credentials(USER, SECRET)), "host and credentials used")
            await dev.update()
            return dev
        top = ["--host", HOST, "--username", USER, "--password", SECRET]
        top += ["--json"] if case["json"] else []
        top += ["--debug"] if case["debug"] else []
        top += ["--type", "smart"] if case["how"] == "connect" else []
        top += getattr(api, "top", [])
        r = await clirun.run([*top, *argv], single=single, connect=connect, input=getattr(api, "input", None))
        return r, writes(tr.sent, fam), tr

    with judging("arguments"):
        argv = vtime.run(lambda loop: arguments())
    how, res, frags, want, ex = vtime.run(lambda loop: by_api())
    r, did, tr = vtime.run(lambda loop: by_tool(argv))
    where = (argv, name, r.exit_code, r.stdout[-300:], r.stderr[-300:])
    if r.exception is not None and not isinstance(r.exception, SystemExit) \
            and not (case["debug"] or params.get("verbose")):      # these ask for the traceback
        fail(f"the tool raised {type(r.exception).__name__}: {r.exception}: {where}")
    # Exit code
    require((r.exit_code == 0) == (how == "ok"), "exit code", where, how, repr(ex))
    for s in {SECRET, getattr(api, "secret", SECRET)}:
        require(s not in r.stdout and s not in r.stderr, "a secret was printed", where)
    ctx.label(case["run"]["op"], how)
    if how != "ok":
        if case["json"] and r.stdout.strip() and not getattr(api, "input", None):
            with judging(f"output of a failing command {where}"):
                json.loads(r.stdout)
        return
    eq(did, want, f"requests of {where}")
    require(tr.closed, "the connection was not closed", where)
    if case["json"]:
        out = r.stdout
        if getattr(api, "input", None):
            return
        with judging(f"output {where}"):
            got = json.loads(out)
        if res is not ANY and case["run"]["op"] not in ("sysinfo", "state"):
            eq(got, json.loads(json.dumps(res, default=str)), f"output of {where}")
        elif res is not ANY:
            similar(got, json.loads(json.dumps(res, default=str)), where)
    else:
        text = r.stdout
        for f in frags:
            if lines(f):
                require(f in text or f.expandtabs() in text, "output", f, where)
    ctx.nontrivial()


def similar(got, want, where):
    """Equal but for what a second update adds."""
    require(set(want) <= set(got), "parts of the output", set(want) - set(got), where)
    for k in want:
        eq(got[k], want[k], f"{k} in the output of {where}")


# ------------------------------------------------------------- several devices
PLAIN = [n for n in SMART if not smartsim.is_hub(n)]


def many_cases():
    dev = st.fixed_dictionaries({
        "device": st.one_of(st.sampled_from([("smart", n) for n in PLAIN]), st.sampled_from([("iot", n) for n in IOT])),
        "alias": st.sampled_from(["lamp", "Lamp", "LAMP 2", "[x] lamp", "straße", "Straße", ""]),
        "state": st.sampled_from(["ok", "ok", "ok", "ok", "auth", "timeout", "error"])})
    return st.fixed_dictionaries({
        "devices": st.lists(dev, max_size=4), "json": st.booleans(),
        "unsupported": st.integers(0, 2), "fails": st.sampled_from([False] * 6 + [True]),
        "run": st.one_of(st.sampled_from(["list", "detail", "raw", "redact"]),
                         st.sampled_from(["lamp", "LAMP", "lamp 2", "straSSe", "STRASSE", "straße", "nothing", "[x] lamp"]).map(lambda a: ["alias", a]))})


async def several(case, ctx):
    from kasa import TimeoutError as KasaTimeout, UnsupportedDeviceError
    made = []
    for k, d in enumerate(case["devices"]):
        host = f"10.0.1.{k + 1}"
        sim, _ = build({"run": d, "alias": d["alias"], "kids": []})
        dev, tr = (iotsim if d["device"][0] == "iot" else smartsim).make(sim, host=host)
        if d["device"][0] == "iot":
            dev.update_from_discover_info({"system": {"get_sysinfo": sim.get_sysinfo()}})
        elif "discovery_result" in sim.fix:
            found = sim.fix["discovery_result"]
            dev.update_from_discover_info(copy.deepcopy(found.get("result", found)))
        err = {"auth": AuthenticationError("who"), "timeout": KasaTimeout("slow"), "error": KasaException("what")}.get(d["state"])
        if err:
            def answer(req, err=err):
                raise err
            tr.answer = answer
        made.append((host, d, sim, dev, tr))

    async def many(*, on_discovered=None, on_unsupported=None, on_discovered_raw=None, credentials=None, **kw):
        eq(credentials, Credentials(USER, SECRET), "credentials used to discover")
        if case["fails"]:
            raise OSError("network is unreachable")
        for host, d, sim, dev, tr in made:
            if on_discovered_raw:
                on_discovered_raw({"discovery_response": {"result": {"ip": host, "mac": "AA-BB-CC-DD-EE-FF", "device_id": "SECRETID0123456789"}},
                                   "meta": {"ip": host, "port": 20002}})
            if on_discovered:
                await on_discovered(dev)
        for k in range(case["unsupported"]):
            if on_unsupported:
                await on_unsupported(UnsupportedDeviceError("unsupported", host=f"10.0.9.{k}"))
        return {host: dev for host, d, sim, dev, tr in made}
    run = case["run"]
    # (found devices keep the state of an update; detail gives up on unexpected errors)
    if run == "detail" and any(d["state"] in ("timeout", "error") for d in case["devices"]):
        return
    top = ["--username", USER, "--password", SECRET, *(["--json"] if case["json"] else [])]
    argv = {"list": ["discover", "list"], "detail": ["discover"], "raw": ["discover", "raw"],
            "redact": ["discover", "raw", "--redact"]}.get(run if isinstance(run, str) else "") or ["--alias", run[1], "alias", "renamed"]
    before = [copy.deepcopy(sim.sys if d["device"][0] == "iot" else sim.root.info) for _, d, sim, *_ in made]
    r = await clirun.run([*top, *argv], many=many)
    where = (argv, r.exit_code, r.stdout[-400:], r.stderr[-300:])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail(f"the tool raised {type(r.exception).__name__}: {r.exception}: {where}")
    require(SECRET not in r.stdout and SECRET not in r.stderr, "a secret was printed", where)
    if not isinstance(run, str):
        hits = [m for m in made if m[1]["state"] == "ok" and m[1]["alias"] and m[1]["alias"].lower() == run[1].lower()
                and aliased(m)]
        ok = bool(hits) and not case["fails"]
        require((r.exit_code == 0) == ok, "exit code", where, len(hits))
        for k, m in enumerate(made):
            now = copy.deepcopy(m[2].sys if m[1]["device"][0] == "iot" else m[2].root.info)
            changed = named(m) == "renamed"
            require(changed == (ok and m is hits[0]), "which device got the command", m[0], where)
            if not changed and m[1]["device"][0] == "iot":
                eq(now.get("alias"), before[k].get("alias"), "name of another device")
        if ok:
            ctx.nontrivial()
        return
    require((r.exit_code == 0) == (not case["fails"]), "exit code", where)
    if case["fails"]:
        return
    if case["json"]:
        with judging(f"output {where}"):
            got = json.loads(r.stdout)
        eq(sorted(got), sorted(m[0] for m in made), "devices in the output")
        if run in ("detail", "list"):
            for m in made:
                eq(got[m[0]], json.loads(json.dumps(m[3].internal_state, default=str)), "device in the output")
    else:
        rows = r.stdout.splitlines()
        for host, d, sim, dev, tr in made:
            if run == "list":
                row = [x for x in rows if x.split(" ")[0] == host]
                eq(len(row), 1, f"rows of {host} in {where}")
                end = {"auth": "Authentication failed", "timeout": "Timed out", "error": "Error: what"}.get(d["state"], dev.alias if d["state"] == "ok" else "")
                require(row[0].rstrip().endswith(str(end).strip()), "row", row, end)
                require(dev.config.connection_type.device_family.value in row[0], "row", row)
            if run == "detail" and d["state"] == "ok":
                require(f"== {dev.alias} - {dev.model} ==" in r.stdout, "title of a device", dev.alias, where)
                require(f"Host: {host}" in r.stdout, "host of a device", where)
            if run in ("raw", "redact"):
                require(f'"ip": "{host}"' in r.stdout or host in r.stdout, "raw data", where)
                require(("SECRETID0123456789" in r.stdout) == (run == "raw"), "redaction", where)
        if run == "detail":
            require(f"Found {len(made)} devices" in r.stdout, "number of devices", where)
            n = sum(m[1]["state"] == "auth" for m in made)
            require((f"Found {n} devices that failed to authenticate" in r.stdout) == bool(n), "failed devices", where)
            require((f"Found {case['unsupported']} unsupported" in r.stdout) == bool(case["unsupported"]), "unsupported devices", where)
    for m in made:
        require(m[4].closed or m[1]["state"] != "ok" or run in ("raw", "redact"), "a connection was left open", m[0])
    if made:
        ctx.nontrivial()


def named(m):
    if m[1]["device"][0] == "iot":
        return m[2].sys.get("alias")
    n = m[2].root.info.get("nickname")
    return __import__("base64").b64decode(n).decode() if n is not None else None


def aliased(m):
    return m[1]["device"][0] == "iot" or "nickname" in m[2].root.info


# ------------------------------------------------------------- how the device is reached
LEGACY = {"plug": "IotPlug", "switch": "IotWallSwitch", "bulb": "IotBulb", "dimmer": "IotDimmer", "strip": "IotStrip", "lightstrip": "IotLightStrip"}


def reach_cases():
    mb = st.none()
    return st.fixed_dictionaries({
        "type": st.sampled_from([None, None, None, "smart", "smart", "camera", "camera", *LEGACY]), "upper": st.booleans(),
        "family": st.one_of(mb, st.sampled_from([f.value for f in Device.Family])),
        "encrypt": st.one_of(mb, st.sampled_from([e.value for e in Device.EncryptionType])),
        "lv": mb | st.integers(1, 3), "https": st.sampled_from([None, True, False]),
        "port": mb | st.integers(1, 65535), "timeout": mb | st.integers(1, 90), "dtimeout": mb | st.integers(1, 90),
        "hash": mb | st.sampled_from(["aGFzaA==", "x y", '{"un":"a"}']), "user": st.sampled_from([True, True, True, False]),
        "pass": st.sampled_from([True, True, True, False]), "target": mb | mb | st.sampled_from(["192.168.7.255", "10.1.255.255"]),
        "host": st.sampled_from(["10.0.0.2", "10.0.0.2", "lamp.example", "fe80::1", None]), "alias": mb | mb | st.just("the lamp"), "k": st.integers(0, 5),
        "env": st.sampled_from([False, False, True]), "config": st.sampled_from([False] * 6 + [True]), "found": st.sampled_from([True] * 5 + [False]),
        "cmd": st.sampled_from([["alias", "renamed"], ["command", "get_device_info"], ["discover", "list"]])}).map(mostly_sensible)


def mostly_sensible(c):
    k = c.pop("k")
    if k:
        if c["alias"]:
            c["host"], c["config"] = None, False
            if k > 2:
                c["type"] = c["encrypt"] = None
            if c["cmd"][0] == "discover":
                c["cmd"] = ["alias", "renamed"]
        elif c["target"]:
            c["host"], c["cmd"], c["config"] = None, ["discover", "list"], False
        elif c["host"] is None:
            c["host"] = "10.0.0.2"
        if k > 1:
            c["pass"] = c["user"]
    return c


async def reach(case, ctx):
    """The device is reached with exactly the options given."""
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    vals = {"--type": case["type"].upper() if case["upper"] and case["type"] else case["type"], "--device-family": case["family"],
            "--encrypt-type": case["encrypt"], "--login-version": case["lv"], "--port": case["port"], "--timeout": case["timeout"],
            "--discovery-timeout": case["dtimeout"], "--credentials-hash": case["hash"], "--username": USER if case["user"] else None,
            "--password": SECRET if case["pass"] else None, "--target": case["target"], "--host": case["host"], "--alias": case["alias"]}
    names = {"--alias": "KASA_NAME"}
    top, env = [], {}
    for k, v in vals.items():
        if v is not None:
            if case["env"]:
                env[names.get(k, "KASA_" + k[2:].upper().replace("-", "_"))] = str(v)
            else:
                top += [k, str(v)]
    if case["https"] is not None:
        top += ["--https" if case["https"] else "--no-https"]
    creds = Credentials(USER, SECRET) if case["user"] and case["pass"] else None
    timeout, dtimeout = case["timeout"] or 5, case["dtimeout"] or 10
    calls = []
    model = "P110(UK)_1.0_1.3.0.json"
    sim = smartsim.SmartSim(model) if model in SMART else smartsim.SmartSim(SMART[0])
    sim.root.info["nickname"] = __import__("base64").b64encode(b"The Lamp").decode()
    dev, tr = smartsim.make(sim, host=case["host"] or "10.0.0.9")

    async def single(host, **kw):
        kw = {k: v for k, v in kw.items() if not k.startswith("on_")}
        calls.append(("single", host, kw))
        return dev if case["found"] else None

    async def many(*, on_discovered=None, **kw):
        kw = {k: v for k, v in kw.items() if not k.startswith("on_")}
        calls.append(("many", kw))
        if on_discovered and case["found"]:
            await on_discovered(dev)
        return {dev.host: dev} if case["found"] else {}

    async def connect(*, host=None, config=None):
        calls.append(("connect", config))
        await dev.update()
        return dev

    async def legacy_update(self, update_children=True):
        calls.append(("legacy", type(self).__name__, self.config))
        raise KasaException("the device is gone")

    async def legacy_query(self, request, retry_count=3):
        if ("legacy" not in [c[0] for c in calls]):
            calls.append(("legacy", None, self._transport._config))
        raise KasaException("the device is gone")

    async def try_all(host, **kw):
        kw.pop("on_attempt", None)
        kw.pop("http_client", None)
        calls.append(("all", host, kw))
        return dev if case["found"] else None
    fam, enc = case["family"] or "SMART.TAPOPLUG", case["encrypt"]
    cmd = ["discover", "config"] if case["config"] else case["cmd"]
    if cmd[0] == "discover" and case["host"] is None and case["alias"] is not None:
        return
    if case["type"] in LEGACY and cmd[0] == "command":
        cmd = ["alias", "renamed"]
    if case["config"]:
        dev.config.connection_type = DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc or "KLAP"), 2, bool(case["https"]))
    from kasa import Discover
    from kasa.protocols import IotProtocol
    with mock.patch.object(Discover, "try_connect_all", try_all), mock.patch.object(IotProtocol, "query", legacy_query), \
            mock.patch.object(IotDevice, "update", legacy_update):
        r = await clirun.run([*top, *cmd], single=single, many=many, connect=connect, env=env)
    where = (top, env, cmd, r.exit_code, r.stdout[-300:], r.stderr[-300:])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail(f"the tool raised {type(r.exception).__name__}: {r.exception}: {where}")
    require(SECRET not in r.stdout and SECRET not in r.stderr, "a secret was printed", where)

    def expect(want, ok):
        eq(calls, want, f"how the device is reached by {where}")
        require((r.exit_code == 0) == ok, "exit code", where)
    timed = {"timeout": timeout, "credentials": creds, "port": case["port"]}
    if case["target"] is not None and case["host"] is not None:
        expect([], False)
        ctx.label("refused")
        return
    if cmd[0] == "discover":
        if case["config"]:
            ctx.label("config")
            if case["host"] is None:
                expect([], False)
                return
            expect([("all", case["host"], timed)], case["found"])
            if case["found"]:
                line = [x for x in r.stdout.splitlines() if x.startswith("--device-family")]
                eq(len(line), 1, f"lines with options to connect in {where}")
                calls.clear()
                # the options printed connect to that device
                r2 = await clirun.run(["--host", case["host"], *line[0].split(), "alias", "renamed"], single=single, many=many, connect=connect)
                require(r2.exit_code == 0 and [c[0] for c in calls] == ["connect"], "the options printed do not connect", line, r2.stdout[-300:])
                eq(calls[0][1].connection_type, dev.config.connection_type, f"connection with the options printed: {line}")
                ctx.nontrivial()
            return
        ctx.label("discover")
        if case["host"] is not None:
            expect([("single", case["host"], {**timed, "discovery_timeout": dtimeout})], True)
        else:
            expect([("many", {**timed, "discovery_timeout": dtimeout, "target": case["target"] or "255.255.255.255"})], True)
        ctx.nontrivial()
        return
    if case["alias"] is not None and case["host"] is not None or case["user"] != case["pass"] \
            or case["host"] is None and case["alias"] is None:
        expect([], False)
        ctx.label("refused")
        return
    ctx.nontrivial()
    if case["type"] in LEGACY:
        ctx.label("legacy")
        require(r.exit_code != 0, "exit code", where)
        require([c[0] for c in calls] == ["legacy"], "how the device is reached", calls, where)
        _, cls, cfg = calls[0]
        eq(cls, LEGACY[case["type"]], f"kind of device of {where}")
        if case["alias"] is None:
            eq((cfg.host, cfg.port_override, cfg.timeout), (case["host"], case["port"], timeout), f"connection of {where}")
        return
    if case["type"] or enc:
        ctx.label("connect")
        if case["type"] == "camera":
            conn = ("SMART.IPCAMERA", "AES", 2, True)
        else:
            conn = (fam, enc or "KLAP", case["lv"] or 2, bool(case["https"]))
        if case["alias"] is not None:
            return      # (there is no address to connect to)
        require([c[0] for c in calls] == ["connect"], "how the device is reached", calls, where)
        cfg = calls[0][1]
        ct = cfg.connection_type
        eq((ct.device_family.value, ct.encryption_type.value, ct.login_version, ct.https), conn, f"connection of {where}")
        eq((cfg.host, cfg.port_override, cfg.credentials, cfg.credentials_hash, cfg.timeout),
           (case["host"], case["port"], creds, case["hash"], timeout), f"configuration of {where}")
        require(r.exit_code == 0, "exit code", where)
        return
    if case["alias"] is not None:
        ctx.label("alias")
        require(calls and all(c[0] == "many" for c in calls), "how the device is reached", calls, where)
        for _, kw in calls:
            eq((kw.get("target"), kw.get("credentials")), (case["target"] or "255.255.255.255", creds), f"discovery of {where}")
        require((r.exit_code == 0) == case["found"], "exit code", where)
        return
    ctx.label("single")
    expect([("single", case["host"], {**timed, "discovery_timeout": dtimeout})], case["found"])


SUBS = [
    Sub("commands", cases, check, quick=16000, thorough=60000, shards=8, tshards=8, rule="the command succeeded and was compared"),
    Sub("reach", reach_cases, lambda c, x: vtime.run(lambda loop: reach(c, x)), quick=1500, thorough=20000, shards=2, tshards=8,
        rule="a device was reached or looked for"),
    Sub("several", many_cases, lambda c, x: vtime.run(lambda loop: several(c, x)), quick=1000, thorough=10000, shards=4, tshards=8,
        rule="the output for at least one device was compared"),
]
