"""P28: reading does no I/O and reflects only the last successful update."""
from __future__ import annotations

import copy
import datetime as dt
import enum
import inspect
import random
import warnings

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import Device, Feature, KasaException, Module, TimeoutError
from kasa.exceptions import _ConnectionError

LEVEL = "exploration"
RULE = ("A case is one or more recorded devices and a history of updates, outside changes, failures and reads of every "
        "public property; non-trivial when at least two updates gave different values and everything was re-read.")
ASSUMPTIONS = ["public properties and features of the device, its children and modules, found by reflection",
               "the current time of devices that do not tell one is the host's"]

SKIP = {"protocol", "config", "credentials", "internal_state"}


def norm(v, depth=0):
    """A comparable picture of a value, independent of object identity."""
    if isinstance(v, float | int | str | bytes | bool | type(None) | dt.timedelta | dt.tzinfo):
        return repr(v)
    if isinstance(v, dt.datetime):
        return v.isoformat(), str(v.tzinfo)
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, Device | Module | Feature):
        return type(v).__name__
    if depth > 6:
        return "..."
    if isinstance(v, dict):
        return type(v).__name__, sorted(((norm(k), norm(x, depth + 1)) for k, x in v.items()), key=str)
    if isinstance(v, set | frozenset):
        return sorted(norm(x, depth + 1) for x in v)
    if hasattr(v, "items") and hasattr(v, "keys"):
        return sorted(((norm(k), norm(x, depth + 1)) for k, x in v.items()), key=str)
    if isinstance(v, list | tuple):
        return [norm(x, depth + 1) for x in v]
    if hasattr(v, "__dict__"):
        return type(v).__name__, {k: norm(x, depth + 1) for k, x in vars(v).items()}
    return type(v).__name__


def props(obj):
    for name in sorted(dir(type(obj))):
        if not name.startswith("_") and name not in SKIP and isinstance(inspect.getattr_static(type(obj), name, None), property):
            yield name


def readers(dev):
    """[(key, callable)] for everything that can be read."""
    out = []
    for n, d in enumerate([dev, *dev.children]):
        out += [((n, "device", p), lambda d=d, p=p: getattr(d, p)) for p in props(d)]
        out.append(((n, "repr"), lambda d=d: repr(d)))
        for mk, m in d.modules.items():
            out += [((n, f"{type(m).__name__}/{mk}", p), lambda m=m, p=p: getattr(m, p)) for p in props(m)]
        for f in d.features.values():
            for p in ("value", "unit", "choices", "minimum_value", "maximum_value", "range"):
                out.append(((n, f.id, p), lambda f=f, p=p: getattr(f, p)))
            out.append(((n, f.id, "repr"), lambda f=f: repr(f)))
    return out


def read(dev, rng=None, lib=True):
    rs = readers(dev)
    if rng:
        rng.shuffle(rs)
    got = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for key, fn in rs:
            try:
                got[key] = norm(fn())
            except KasaException as ex:
                got[key] = ("raises", type(ex).__name__)
            except Exception as ex:  # noqa: BLE001
                got[key] = ("raises", type(ex).__name__, str(ex))
    return got


def same(a, b, what, dev=None, lost=False):
    hosttime = {(n, "device", p) for n in range(40) for p in ("time", "on_since", "timezone")} if dev is not None and \
        dev.modules.get(Module.Time) is None else set()
    bad = []
    for k in sorted(set(a) | set(b), key=str):
        x, y = a.get(k, "missing"), b.get(k, "missing")
        if x != y and k not in hosttime and not (lost and isinstance(y, tuple) and y[0] == "raises" and len(y) == 2):
            bad.append((k, x, y))
    require(not bad, what, [(k, str(x)[:150], str(y)[:150]) for k, x, y in bad[:4]])


def build(name, kids=()):
    if name in iotsim.fixtures():
        sim = iotsim.IotSim(name)
        dev, tr = iotsim.make(sim)
    else:
        sim = smartsim.SmartSim(name, children=list(kids) if kids and smartsim.is_hub(name) and not smartsim.is_cam(name) else None)
        dev, tr = smartsim.make(sim)
    return sim, dev, tr


def shake(sim, x):
    """Something changes outside the library."""
    rng = random.Random(x)
    if isinstance(sim, iotsim.IotSim):
        owners = [None, *sim.children]
        sim.switch(owners[x % len(owners)], bool(x % 3))
        sim.sys["alias"] = f"Alias {x}"
        if "rssi" in sim.sys:
            sim.sys["rssi"] = -(x % 90)
        ls = sim.sys.get("light_state")
        if ls and "brightness" in ls:
            ls["brightness"] = 1 + x % 100
        return
    for node in sim.nodes().values():
        i = node.info
        for k, v in (("rssi", -(x % 90)), ("brightness", 1 + x % 100), ("signal_level", x % 4), ("current_temp", x % 40),
                     ("current_humidity", x % 100), ("fan_speed_level", 1 + x % 4), ("alias", f"Alias {x}"),
                     ("device_alias", f"Alias {x}")):
            if k in i and rng.random() < 0.8:
                i[k] = v
        if "device_on" in i:
            node.switch(bool(rng.randrange(2)))
        if "trv_states" in i:
            i["trv_states"] = [["heating"], [], ["low_battery"], ["heating", "low_battery"], ["calibrating"]][x % 5]
        for m, r in node.methods.items():
            if isinstance(r, dict) and rng.random() < 0.5:
                for k, v in r.items():
                    if k.endswith(("_time", "_energy", "clean_area", "total_number", "battery_percentage")) and \
                            isinstance(v, int) and not isinstance(v, bool):
                        r[k] = v + x % 7
                    elif k == "enable" and isinstance(v, bool):
                        r[k] = bool(x % 2)
        vac = node.methods.get("getVacStatus")
        if isinstance(vac, dict):
            vac["err_status"] = [[], [0], [2, 3], [14]][x % 4]
            vac["status"] = x % 8


ALL = sorted(iotsim.fixtures()) + smartsim.all_names()
HUBS = [n for n in smartsim.all_names() if smartsim.is_hub(n) and not smartsim.is_cam(n)]
KIDS = sorted(smartsim.child_fixtures())
X = st.integers(0, 10_000)
GAP = st.sampled_from([0, 1, 61, 3601, 90_000])


def read_cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(ALL) | st.sampled_from(HUBS), "kids": st.lists(st.sampled_from(KIDS), max_size=4), "seed": X,
        "ops": st.lists(st.tuples(X, GAP, st.booleans()), min_size=1, max_size=4)})


async def reads(case, ctx):
    sim, dev, tr = build(case["fixture"], case["kids"])
    rng = random.Random(case["seed"])
    last, differ = None, 0
    for x, gap, out in case["ops"]:
        with judging("update"):
            await dev.update()
        sent = len(tr.sent)
        a = read(dev, rng if x % 2 else None)
        bad = {k: v for k, v in a.items() if isinstance(v, tuple) and v and v[0] == "raises" and len(v) == 3}
        if bad:
            ctx.label("odd:" + str(sorted(bad.items(), key=str)[0]))
        CLOCK.mono += gap
        if out:
            shake(sim, x)
        b = read(dev, rng)
        same(a, b, "values changed between updates", dev)
        eq(len(tr.sent), sent, "reading sent requests")
        if last is not None and last != a:
            differ += 1
        last = a
        shake(sim, x)
    if differ:
        ctx.nontrivial()




# ------------------------------------------------------------- before the first update
async def before(case, ctx):
    sim, dev, tr = build(case["fixture"])
    got = {}
    rs = [(("device", p), lambda p=p: getattr(dev, p)) for p in props(dev)] + [(("repr",), lambda: repr(dev))]
    random.Random(case["seed"]).shuffle(rs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for key, fn in rs:
            try:
                got[key] = fn()
            except KasaException:
                got[key] = "raises"
                ctx.nontrivial()
            except Exception as ex:  # noqa: BLE001
                fail(f"reading {key} of {type(dev).__name__} before the first update: {type(ex).__name__}: {ex}")
    eq(tr.sent, [], "reading before the update sent requests")
    for k, v in got.items():
        require(k[0] == "repr" or k[1] in FREE or v == "raises" or not v or isinstance(v, Device.Type)
                or k[1] in ("model", "mac", "location")
                or k[1] == "is_on" and smartsim.is_cam(case["fixture"]),
                f"{k} before the first update", v)
    for what in ("alias", "sys_info", "is_on", "model") if isinstance(sim, iotsim.IotSim) else ():
        require(what not in dict.fromkeys(k[-1] for k in got) or got[("device", what)] == "raises" or not got[("device", what)],
                f"{what} before the first update", got.get(("device", what)))


# ------------------------------------------------------------- several devices
def command(dev, x):
    """A legal write of one of the features."""
    feats = sorted((f for d in [dev, *dev.children] for f in d.features.values()
                    if f.attribute_setter is not None and f.type in (Feature.Type.Switch, Feature.Type.Number,
                                                                     Feature.Type.Choice)), key=lambda f: f.id)
    return feats[x % len(feats)] if feats else None


async def act(h, op):
    """-> what could be seen of it."""
    sim, dev, tr = h
    what, x = op
    n0 = len(tr.sent)
    res = None
    try:
        if what == "update":
            await dev.update()
        elif what == "outside":
            shake(sim, x)
        elif what == "effect" and Module.LightEffect in dev.modules:
            e = dev.modules[Module.LightEffect]
            await e.set_effect(e.effect_list[x % len(e.effect_list)], **({"brightness": 1 + x % 100} if x % 3 else {}))
        elif what == "write":
            f = command(dev, x)
            if f is not None:
                if f.type is Feature.Type.Number:
                    v = f.minimum_value + x % (f.maximum_value - f.minimum_value + 1)
                elif f.type is Feature.Type.Choice:
                    v = f.choices[x % len(f.choices)]
                else:
                    v = bool(x % 2)
                await f.set_value(v)
    except Exception as ex:  # noqa: BLE001
        res = type(ex).__name__
    return res, [plain(r) for r in tr.sent[n0:]]


def plain(v):
    """A request without what identifies the library's object rather than the request."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if k not in ("terminal_uuid", "request_time_milis")}
    return [plain(x) for x in v] if isinstance(v, list | tuple) else v


def pair_cases():
    many = [n for n in ALL if any(x in n for x in ("RV", "L9", "L530", "KL4", "LB130", "HS300", "H200", "C2", "KS240"))]
    op = st.tuples(st.integers(0, 2), st.sampled_from(["update", "outside", "write", "write", "effect"]), X)
    fixture = st.sampled_from(ALL) | st.sampled_from(many)
    return fixture.flatmap(lambda f: st.fixed_dictionaries({
        "fixtures": st.tuples(st.just(f), st.just(f) | fixture, st.just(f) | fixture),
        "ops": st.lists(op, min_size=3, max_size=14)}))


async def together(case, ctx):
    """Several devices in one process behave as each of them does alone."""
    def strip(op):
        return op[1], op[2]

    def script(k):
        return [("update", 0)] + [strip(o) for o in case["ops"] if o[0] == k] + [("update", 0)]

    # The clock is the same for all: nothing lets time pass.
    alone = []
    for k, name in enumerate(case["fixtures"]):
        h = build(name)
        seen = []
        for n, o in enumerate(script(k)):
            seen.append(await act(h, o))
            if o[0] == "update":
                seen.append(read(h[1]))
        alone.append(seen)
    hs = [build(n) for n in case["fixtures"]]
    seen = [[], [], []]

    async def step(k, o):
        seen[k].append(await act(hs[k], o))
        if o[0] == "update":
            seen[k].append(read(hs[k][1]))

    for k in range(3):
        await step(k, ("update", 0))
    for o in case["ops"]:
        await step(o[0], strip(o))
    for k in range(3):
        await step(k, ("update", 0))
    for k, name in enumerate(case["fixtures"]):
        for n, (a, b) in enumerate(zip(alone[k], seen[k], strict=True)):
            if isinstance(a, dict):
                same(a, b, f"device {k} ({name}) is seen differently next to the others")
            else:
                eq(b, a, f"device {k} ({name}): requests of step {n} next to the others")
    if len({o[0] for o in case["ops"]}) > 1:
        ctx.nontrivial()


# ------------------------------------------------------------- failed updates
def failing_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(ALL), "ops": st.lists(st.tuples(
        X, st.integers(0, 12), st.sampled_from(["timeout", "connection", "kasa"])), min_size=1, max_size=3)})


async def failed(case, ctx):
    sim, dev, tr = build(case["fixture"])
    with judging("update"):
        await dev.update()
    real = tr.answer
    for x, n, how in case["ops"]:
        a = read(dev)
        shake(sim, x)
        left = [n]

        def answer(req, left=left, how=how):
            left[0] -= 1
            if left[0] < 0:
                raise {"timeout": TimeoutError, "connection": _ConnectionError, "kasa": KasaException}[how]("down")
            return real(req)

        tr.answer = answer
        try:
            await dev.update()
            ok = True
        except KasaException:
            ok = False
        except Exception as ex:  # noqa: BLE001
            fail(f"update with failure after {n} requests: {type(ex).__name__}: {ex}")
        tr.answer = real
        sent = len(tr.sent)
        if ok:
            continue
        ctx.nontrivial()
        b = read(dev)
        bad = {k: v for k, v in b.items() if isinstance(v, tuple) and v and v[0] == "raises" and len(v) == 3
               and v != a.get(k)}
        require(not bad, "values no longer readable after a failed update", dict(list(bad.items())[:3]))
        if not n:
            same(a, b, "values changed with a failed update", dev)
        eq(len(tr.sent), sent, "reading sent requests")
    CLOCK.mono += 100_000
    with judging("update after failures"):
        await dev.update()
    ref = build(case["fixture"])
    ref[0].__dict__.update({k: v for k, v in sim.__dict__.items() if k not in ("log",)})
    with judging("update of a new device"):
        await ref[1].update()
        CLOCK.mono += 100_000
        await ref[1].update()
        await dev.update()

    def now(d):  # how often a module failed is not the same, and the switch on time may be some seconds off
        return {k: v for k, v in read(d).items() if k[-1] not in ("update_interval", "disabled", "state_information")
                and "on_since" not in k}

    same(now(ref[1]), now(dev), "after recovery the device is not seen as by a new object", dev)


#: properties that do not depend on the device's answers
FREE = {"host", "port", "device_type", "credentials_hash", "has_children", "is_updated", "update_interval", "time", "timezone",
        "features", "modules", "children", "parent", "is_off", "has_emeter", "supported_modules", "internal_state", "hw_info",
        "ssid", "max_device_response_size", "device_id"}

SUBS = [
    Sub("reads", read_cases, lambda c, x: vtime.run(lambda loop: reads(c, x)), quick=1000, thorough=15000, shards=4, tshards=8,
        rule="two updates with different values"),
    Sub("before", lambda: st.fixed_dictionaries({"fixture": st.sampled_from(ALL), "seed": X}),
        lambda c, x: vtime.run(lambda loop: before(c, x)), quick=400, thorough=1000, rule="something could not be read yet"),
    Sub("together", pair_cases, lambda c, x: vtime.run(lambda loop: together(c, x)), quick=600, thorough=8000, shards=4,
        tshards=8, rule="operations on at least two devices"),
    Sub("failed", failing_cases, lambda c, x: vtime.run(lambda loop: failed(c, x)), quick=800, thorough=10000, shards=4,
        tshards=8, rule="an update failed"),
]
