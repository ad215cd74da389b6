"""P19: features are readable, accept exactly their legal values and refuse the rest without effect."""
from __future__ import annotations

import datetime as dt
import math
from enum import Enum

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require

from kasa import Feature, KasaException

LEVEL = "exploration"
RULE = ("A case reads every feature of a recorded device and performs a history of feature writes, legal and illegal; "
        "non-trivial when a legal write reached the device and an illegal one was refused.")
ASSUMPTIONS = ["simulated devices seeded from the repository's recordings",
               "wrong types are checked for numbers and choices; truthiness of switch arguments is not judged",
               "a feature of a module whose data the device does not deliver may raise a library error when read"]

OPS = st.lists(st.fixed_dictionaries({
    "pick": st.integers(0, 60),
    "legal": st.booleans(),
    "x": st.integers(0, 1000),
    "bad": st.sampled_from(["below", "above", "nan", "inf", "-inf", "str", "none", "list", "bool", "dict", "alike",
                            "unlisted", "case", "int", "frac"]),
    "update": st.booleans(), "fewer": st.sampled_from([0, 0, 0, 1, 2]),
}), min_size=2, max_size=10)


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(sorted(iotsim.fixtures())), "ops": OPS})


def smart_cases():
    return smart_devices().flatmap(lambda d: st.fixed_dictionaries({"fixture": st.just(d[0]), "kids": st.just(d[1]), "ops": OPS}))


def smart_devices():
    """(recording, recordings of the children or none for those it was recorded with)"""
    names = smartsim.all_names()
    kids, cams = sorted(smartsim.child_fixtures()), sorted(smartsim.cam_child_fixtures())
    hubs = [n for n in names if smartsim.is_hub(n)]
    some = {True: st.lists(st.sampled_from(kids + cams), max_size=3), False: st.lists(st.sampled_from(kids), max_size=3)}
    plain = st.tuples(st.sampled_from(names), st.just(()))
    hub = st.sampled_from(hubs).flatmap(lambda n: st.tuples(st.just(n), some[smartsim.is_cam(n)].map(tuple)))
    return st.one_of(plain, plain, hub)


def flawed(sim, owner):
    """The device did not answer everything it was asked."""
    if isinstance(sim, iotsim.IotSim):
        return bool(sim.broken)
    return bool(sim.unknown) or any(isinstance(v, int) for n in sim.nodes().values() for v in n.methods.values())


def custom_effect(sim, v):
    """v is the name of the custom effect the device was recorded with, which no list can contain."""
    if isinstance(sim, iotsim.IotSim):
        e = iotsim.sysinfo(sim.name).get("lighting_effect_state", {})
    else:
        e = sim.fix.get("get_device_info", {}).get("lighting_effect", {})
    return bool(e) and v == e.get("name")


def readable(f, sim, ctx):
    what = f"{f.id} of {f.container.__class__.__name__}"
    with judging(f"repr of {what}"):
        s = repr(f)
        require(isinstance(s, str) and f.id in s, f"repr of {what} does not name it", s)
    try:
        v = f.value
    except KasaException:
        require(flawed(sim, None), f"{what} is not readable on a device that answers everything")
        return None
    except Exception as ex:  # noqa: BLE001
        fail(f"reading {what}: {type(ex).__name__}: {ex}")
    with judging(f"metadata of {what}"):
        f.unit
        if f.type is Feature.Type.Number:
            lo, hi = f.minimum_value, f.maximum_value
            require(lo < hi, f"empty range of {what}", (lo, hi))
            if not isinstance(v, dt.timedelta):
                require(isinstance(v, int | float) and not isinstance(v, bool), f"{what} is not a number", v)
        elif f.type in (Feature.Type.Switch, Feature.Type.BinarySensor):
            require(isinstance(v, bool) or v is None and f.type is Feature.Type.BinarySensor,
                    f"{what} is not a boolean", v)
        elif f.type is Feature.Type.Choice:
            ch = f.choices
            now = f.choices_getter() if callable(f.choices_getter) else getattr(f.container, f.choices_getter)
            eq(ch, now, f"choices of {what}")
            require(isinstance(ch, list) and ch and all(isinstance(c, str) for c in ch), f"choices of {what}", ch)
            custom = f.id == "light_effect" and custom_effect(sim, v)
            require(v in ch or isinstance(v, Enum) and v.name in ch or custom, f"value of {what} not among its choices", v, ch)
        elif f.type is Feature.Type.Sensor:
            require(f.attribute_setter is None, f"{what} is a writable sensor")
    return v


def legal_value(f, x):
    if f.type is Feature.Type.Number:
        lo, hi = f.minimum_value, f.maximum_value
        return (lo, hi)[x % 2] if x % 5 < 2 else lo + x * 7919 % (hi - lo + 1)
    if f.type is Feature.Type.Choice:
        now = f.choices_getter() if callable(f.choices_getter) else getattr(f.container, f.choices_getter)
        return now[x % len(now)]
    if f.type is Feature.Type.Switch:
        return bool(x % 2)
    return None


class Alike:
    """Prints like a legal value but is none."""

    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)

    __repr__ = __str__


def illegal_value(f, op):
    b, x = op["bad"], op["x"]
    anyway = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "none": None, "list": [1], "dict": {},
              "bool": bool(x % 2)}
    if f.type is Feature.Type.Number:
        if b == "alike":
            return Alike(legal_value(f, x))
        if b == "str":
            return str(legal_value(f, x))
        by = 1 if x % 2 else 1 + x
        if b == "frac":
            return f.minimum_value - 0.25 if x % 2 else f.maximum_value + (0.5, 0.001)[x % 4 // 2]
        return anyway.get(b, f.minimum_value - by if b in ("below", "int") else f.maximum_value + by)
    if f.type is Feature.Type.Choice:
        c = f.choices[x % len(f.choices)]
        if b == "case" and c.swapcase() not in f.choices:
            return c.swapcase()
        if b == "unlisted" or b == "case":
            return c + " "
        if b == "int":
            return x
        if b == "alike":
            return Alike(c)
        return anyway.get(b, "")
    return x


def fewer(sim, n):
    """The device forgets its last presets and effects."""
    lists = []
    if isinstance(sim, iotsim.IotSim):
        lists = [sim.sys.get("preferred_state")]
    else:
        for node in sim.nodes().values():
            for m, key in (("get_preset_rules", "states"), ("get_preset_rules", "brightness")):
                if isinstance(node.methods.get(m), dict):
                    lists.append(node.methods[m].get(key))
    lists = [x for x in lists if x and len(x) > n]
    for x in lists:
        del x[-n:]
    return bool(lists)


async def run(dev, tr, sim, case, ctx):
    with judging("first update"):
        await dev.update()
    nodes = [dev, *dev.children]
    allf = [(n, f) for n in nodes for f in n.features.values()]
    before = len(tr.sent)
    for _, f in allf:
        readable(f, sim, ctx)
    ctx.evals(len(allf))
    eq(len(tr.sent), before, "reading the features sent requests")
    writable = [(n, f) for n, f in allf if f.attribute_setter is not None and f.type is not Feature.Type.Unknown]
    kinds = {}
    for _, f in writable:
        kinds.setdefault((f.type, f.id), []).append(f)
    done = refused = False
    for op in case["ops"]:
        if not op["legal"] and op["pick"] % 5 == 0:
            ro = [f for _, f in allf if f.attribute_setter is None]
            f = ro[op["x"] % len(ro)]
            n0, state = len(tr.sent), sim.snapshot() if hasattr(sim, "snapshot") else None
            try:
                cur = f.value
            except KasaException:
                cur = 1
            for v in (cur, 1):
                try:
                    await f.set_value(v)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    fail(f"read-only feature {f.id} accepted {v!r}")
            eq(len(tr.sent), n0, f"a refused write of {f.id} reached the device")
            refused = True
            continue
        keys = sorted(kinds, key=str)
        fs = kinds[keys[op["pick"] % len(keys)]]
        f = fs[op["x"] % len(fs)]
        if readable(f, sim, ctx) is None:
            continue
        n0, r0 = len(tr.sent), len(sim.rejected)
        if op["legal"]:
            v = legal_value(f, op["x"])
            if f.id in ("pan_step", "tilt_step"):
                await f.set_value(v)
                eq(f.value, v, f"{f.id} after setting it")
                continue
            if f.id in ("check_latest_firmware", "pair"):
                continue
            unknown0 = len(getattr(sim, "unknown", ()))
            try:
                await f.set_value(v)
            except Exception as ex:  # noqa: BLE001
                if len(getattr(sim, "unknown", ())) > unknown0 or isinstance(ex, KasaException) and flawed(sim, None) \
                        and len(sim.rejected) == r0:
                    ctx.label("not supported by the recorded device")
                    continue
                fail(f"legal value {v!r} for {f.id}: {type(ex).__name__}: {ex}; refused by the device: "
                     f"{sim.rejected[r0:]}")
            idle = f.id == "state" and getattr(sim, "children", None)    # every socket is off already
            require(len(tr.sent) > n0 or idle, f"setting {f.id} to {v!r} sent nothing")
            eq(sim.rejected[r0:], [], f"setting {f.id} to legal {v!r}: commands the device refused")
            done = True
            ctx.label(f.type.name, f.id)
            if f.id == "unpair":
                break     # the child is gone
        elif f.type in (Feature.Type.Number, Feature.Type.Choice):
            v = illegal_value(f, op)
            with judging(f"value of {f.id}"):
                old = f.value
            try:
                await f.set_value(v)
            except Exception:  # noqa: BLE001
                pass
            else:
                fail(f"{f.type.name} {f.id} accepted {v!r} (range {f.range}, choices {f.choices})")
            eq(len(tr.sent), n0, f"refused value {v!r} for {f.id} reached the device")
            with judging(f"value of {f.id}"):
                eq(f.value, old, f"{f.id} after a refused write")
            refused = True
            ctx.label("refused " + f.type.name, op["bad"])
        if op["fewer"] and fewer(sim, op["fewer"]):
            ctx.label("fewer choices")
        if op["update"] or op["fewer"]:
            with judging("update"):
                await dev.update()
            for _, g in allf:
                if g.id in dev.features and dev.features[g.id] is g:
                    readable(g, sim, ctx)
            ctx.evals(len(allf))
    ctx.nontrivial(done and refused)


def check_iot(case, ctx):
    async def main(loop):
        sim = iotsim.IotSim(case["fixture"])
        dev, tr = iotsim.make(sim)
        await run(dev, tr, sim, case, ctx)

    vtime.run(main)


def check_smart(case, ctx):
    async def main(loop):
        sim = smartsim.SmartSim(case["fixture"], children=list(case["kids"]) if case["kids"] else None)
        dev, tr = smartsim.make(sim)
        await run(dev, tr, sim, case, ctx)

    vtime.run(main)


SUBS = [
    Sub("iot", iot_cases, check_iot, quick=8000, thorough=9000, shards=3, tshards=8,
        rule="a legal write reached the device and an illegal one was refused"),
    Sub("smart", smart_cases, check_smart, quick=8000, thorough=9000, shards=4, tshards=8,
        rule="a legal write reached the device and an illegal one was refused"),
]
