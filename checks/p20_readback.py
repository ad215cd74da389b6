"""P20: what is written to a device reads back as written, and nothing else changes."""
from __future__ import annotations

import datetime as dt
from enum import Enum

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from p19_features import flawed, legal_value, smart_devices

from kasa import Feature, KasaException

LEVEL = "exploration"
RULE = ("A case is a history of writes of legal values and updates on one recorded device, comparing every feature of "
        "every node with what the history implies; non-trivial when a value was changed to a different one and read back.")
ASSUMPTIONS = ["simulated devices seeded from the repository's recordings apply what they are told"]

OPS = st.lists(st.fixed_dictionaries({
    "pick": st.integers(0, 80), "x": st.integers(0, 1000),
    "sleep": st.sampled_from([0, 1, 5, 61, 86400]), "via": st.booleans(),
    "text": st.text(max_size=12),
}), min_size=1, max_size=8)

#: features that legitimately follow another one on the same node
GROUPS = [
    {"brightness", "color_temperature", "hsv", "light_preset", "light_effect", "state"},
    {"pir_range", "pir_threshold", "pir_percent", "pir_triggered"},
    {"pir_enabled", "pir_triggered"},
    {"alarm_volume", "alarm_volume_level"},
    {"test_alarm", "stop_alarm", "alarm", "alarm_source"},
    {"state", "fan_speed_level"},
    {"state", "target_temperature", "thermostat_mode"},
    {"temperature_offset", "thermostat_mode"},
    {"dustbin_mode", "dustbin_autocollection_enabled"},
    {"vacuum_start", "vacuum_pause", "vacuum_return_home", "vacuum_status"},
    {"state", "overloaded"},
    {"power_protection_threshold", "overloaded"},
    {"light_preset", "brightness"},
] + [{n + "_used", n + "_remaining", n + "_reset"} for n in
     ("main_brush", "side_brush", "filter", "sensor", "charging_contacts")]
VOLATILE = {"device_time", "on_since", "auto_off_at"}
LOCAL = {"pan_step", "tilt_step", "check_latest_firmware", "pair", "unpair"}


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(sorted(iotsim.fixtures())), "ops": OPS})


def smart_cases():
    return smart_devices().flatmap(lambda d: st.fixed_dictionaries({"fixture": st.just(d[0]), "kids": st.just(d[1]), "ops": OPS}))


def transitions(sim):
    """Where the device and its children store the durations of gradual on and off."""
    if isinstance(sim, iotsim.IotSim):
        return []
    out = []
    for n in sim.nodes().values():
        t = n.methods.get("get_on_off_gradually_info")
        if "gradually_on_mode" in n.info:
            out += [("smooth_transition_on", n.info, "fade_on_time"), ("smooth_transition_off", n.info, "fade_off_time")]
        elif isinstance(t, dict) and "on_state" in t:
            out += [("smooth_transition_on", t["on_state"], "duration"), ("smooth_transition_off", t["off_state"], "duration")]
    return out


def related(fid):
    out = {fid}
    for g in GROUPS:
        if fid in g:
            out |= g
    return out


def value(f):
    try:
        v = f.value
    except KasaException as ex:
        return "ERROR " + type(ex).__name__
    if isinstance(v, Enum):
        v = v.name
    return v


def picture(nodes):
    out = {}
    for n in nodes:
        for f in n.features.values():
            if f.type is not Feature.Type.Action and f.id not in VOLATILE:
                out[(n.device_id, f.id)] = value(f)
        out[(n.device_id, "alias")] = n.alias
    return out


def others(sim):
    """State of the device as a whole, by node."""
    if hasattr(sim, "snapshot"):
        return sim.snapshot()
    s = sim.get_sysinfo()
    return s


def same_preset(mod, a, b):
    if a == b:
        return True
    if a not in mod.preset_list or b not in mod.preset_list or mod.PRESET_NOT_SET in (a, b):
        return False
    states = dict(zip(mod.preset_list[1:], mod.preset_states_list, strict=True))
    keys = ("brightness", "hue", "saturation", "color_temp")
    x, y = states[a], states[b]
    return all(getattr(x, k) == getattr(y, k) for k in keys)


async def run(dev, sim, case, ctx):
    for k, (_, t, key) in enumerate(transitions(sim)):
        t[key] = 1 + (case["ops"][0]["x"] // 7 + 13 * k) % 59
    with judging("first update"):
        await dev.update()
    changed = False
    iot = isinstance(sim, iotsim.IotSim)
    for op in case["ops"]:
        nodes = [dev, *dev.children]
        with judging("reading features"):
            before = picture(nodes)
        acts = sorted({(f.type.name, f.id) for n in nodes for f in n.features.values()
                       if f.attribute_setter is not None and f.type is not Feature.Type.Unknown
                       and f.id not in LOCAL}) + [("Alias", "alias")]
        fid = acts[op["pick"] % len(acts)][1]
        if fid == "alias":
            cands = nodes
        else:
            cands = [n for n in nodes if fid in n.features]
        node = cands[op["x"] % len(cands)]
        r0 = len(sim.rejected)
        unknown0 = len(getattr(sim, "unknown", ()))
        nid = node.device_id
        running = None
        if op["x"] % 4 == 1:        # an update is under way when the value is written
            await vtime.asyncio.sleep(90_000 * (op["x"] // 32 % 2))
            running = vtime.asyncio.create_task(dev.update())
            for _ in range(op["x"] // 4 % 8):
                await vtime.asyncio.sleep(0)
        stored = [t[key] for _, t, key in transitions(sim)]
        if fid == "alias":
            v = op["text"] or "name"
            try:
                await node.set_alias(v)
            except Exception as ex:  # noqa: BLE001
                if isinstance(ex, KasaException) and (flawed(sim, None) or not iot and len(sim.unknown) > unknown0):
                    if running is not None:
                        await vtime.asyncio.wait([running])
                    continue
                fail(f"set_alias({v!r}) of {node}: {type(ex).__name__}: {ex}")
            f = None
        else:
            f = node.features[fid]
            if isinstance(value(f), str) and value(f).startswith("ERROR"):
                if running is not None:
                    await vtime.asyncio.wait([running])
                continue
            v = legal_value(f, op["x"])
            try:
                await f.set_value(v)
            except Exception as ex:  # noqa: BLE001
                if not iot and len(sim.unknown) > unknown0 or isinstance(ex, KasaException) and flawed(sim, None) \
                        and len(sim.rejected) == r0:
                    ctx.label("not supported by the recorded device")
                    if running is not None:
                        await vtime.asyncio.wait([running])
                    continue
                fail(f"writing {fid}={v!r}: {type(ex).__name__}: {ex}; refused {sim.rejected[r0:]}")
        if running is not None:
            with judging(f"update while writing {fid}"):
                await running
            ctx.label("written during an update")
        await vtime.asyncio.sleep(op["sleep"])
        with judging(f"update after writing {fid}"):
            await dev.update()
        with judging("reading features"):
            after = picture([dev, *dev.children])
        eq(set(after), set(before), "the set of features")
        what = f"{fid} of {type(node).__name__} after writing {v!r}"
        got = after[(nid, fid)] if fid == "alias" or f.type is not Feature.Type.Action else None
        if fid == "alias":
            eq(got, v, what)
        elif f.type is Feature.Type.Switch:
            eq(got, v, what)
        elif f.type is Feature.Type.Number:
            want = dt.timedelta(milliseconds=v) if isinstance(got, dt.timedelta) else v
            if fid == "brightness" and v == 0:
                eq(after[(nid, "state")], False, "state after brightness 0")
                want = got
            eq(got, want, what)
            if fid == "brightness" and v:
                eq(after[(nid, "state")], True if iot and iotsim.kind(case["fixture"]) in ("bulb", "lightstrip")
                   else after[(nid, "state")], "state after setting the brightness of a bulb")
        elif f.type is Feature.Type.Choice:
            if fid == "light_preset":
                if v != "Not set":
                    mod = f.container
                    require(same_preset(mod, got, v), what, got, v)
            else:
                eq(got, v, what)
        elif fid.endswith("_reset"):
            eq(after[(nid, fid[:-6] + "_used")], dt.timedelta(0), what)
        if f is not None and f.type is not Feature.Type.Action and before.get((nid, fid)) != got:
            changed = True
        ctx.label(fid)
        for (g, t, key), old in zip(transitions(sim), stored, strict=True):
            if fid != g or not v:
                eq(t[key], old, f"duration stored for {g} after writing {fid}={v!r}")
        rel = related(fid)
        for (n, g), w in before.items():
            if g in rel and n == nid:
                continue
            if fid == "state" and g in ("state", "overloaded"):
                # a strip and its sockets are switched together
                continue
            if any(isinstance(x, str) and x.startswith("ERROR ") for x in (w, after[(n, g)])):
                continue
            eq(after[(n, g)], w, f"{g} of {n} after writing {fid}={v!r} of {nid}")
        ctx.evals(len(after))
        eq(sim.rejected[r0:], [], f"commands the device refused when writing {fid}={v!r}")
    ctx.nontrivial(changed)


def check_iot(case, ctx):
    async def main(loop):
        sim = iotsim.IotSim(case["fixture"])
        dev, _ = iotsim.make(sim)
        await run(dev, sim, case, ctx)

    vtime.run(main)


def check_smart(case, ctx):
    async def main(loop):
        sim = smartsim.SmartSim(case["fixture"], children=list(case["kids"]) if case["kids"] else None)
        dev, _ = smartsim.make(sim)
        await run(dev, sim, case, ctx)

    vtime.run(main)


SUBS = [
    Sub("iot", iot_cases, check_iot, quick=6250, thorough=15000, shards=3, tshards=8, rule="a value was changed"),
    Sub("smart", smart_cases, check_smart, quick=6250, thorough=15000, shards=4, tshards=8,
        rule="a value was changed"),
]
