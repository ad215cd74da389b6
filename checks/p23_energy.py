"""P23: energy readings are converted, aggregated and reported consistently."""
from __future__ import annotations

import datetime as dt

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK, REAL_DT

from kasa import KasaException, Module
from kasa.emeterstatus import EmeterStatus

LEVEL = "exploration"
RULE = ("A case is a device with generated readings, daily and monthly records, a date and a sequence of reads, "
        "changes and clock advances (or one reading dictionary); non-trivial when at least two distinct non-zero "
        "readings were compared.")
ASSUMPTIONS = ["the device's clock shows the date of the host", "a device uses one unit form for all its readings",
               "the status of first generation Tapo plugs carries today's energy as total (long-standing convention)",
               "strip sums cover the sockets that provide a reading",
               "a day or month without a record may be reported as zero or absent"]

QUANT = ("voltage", "power", "current", "total")
SUFFIX = {"voltage": "voltage_mv", "power": "power_mw", "current": "current_ma", "total": "total_wh",
          "energy": "energy_wh"}


def near(got, want, tol=1e-9):
    return got is not None and not isinstance(got, (bool, str)) and abs(got - want) <= tol * max(1.0, abs(want))


# ------------------------------------------------------------------ readings
def readings():
    milli = st.integers(0, 300_000) | st.sampled_from([0, 1, 999, 1000, 1001])
    return st.fixed_dictionaries({"power": milli, "voltage": milli, "current": milli, "total": milli, "energy": milli})


def encode(r, keys, new):
    """Reading in the device's form; r is in milli units."""
    return {(SUFFIX[k] if new else k): (r[k] if new else r[k] / 1000) for k in keys}


def status_cases():
    return st.fixed_dictionaries({
        "r": readings(), "have": st.lists(st.sampled_from([*QUANT, "energy"]), unique=True),
        "new": st.lists(st.sampled_from([*QUANT, "energy"])), "both": st.lists(st.sampled_from([*QUANT, "energy"])),
        "extra": st.lists(st.sampled_from(["slot_id", "err_code", "igain", "vgain"]), unique=True),
        "order": st.integers(0, 10_000)})


async def status(case, ctx):
    d = {k: 0 for k in case["extra"]}
    for k in case["have"]:
        if k in case["new"] or k in case["both"]:
            d[SUFFIX[k]] = case["r"][k]
        if k not in case["new"] or k in case["both"]:
            d[k] = case["r"][k] / 1000
    items = list(d.items())
    import random
    random.Random(case["order"]).shuffle(items)
    s = EmeterStatus(dict(items))
    for k in (*QUANT, "energy"):
        with judging(f"reading {k} of {dict(items)}"):
            got = s[k]
            props = getattr(s, k) if k != "energy" else got
        if k not in case["have"]:
            eq((got, props), (None, None), f"{k} that is not provided")
        else:
            require(near(got, case["r"][k] / 1000) and near(props, case["r"][k] / 1000),
                    f"{k}: {got}, {props} for {dict(items)}")
            with judging(f"reading {SUFFIX[k]} of {dict(items)}"):
                got = s[SUFFIX[k]]
            require(near(got, case["r"][k]), f"{SUFFIX[k]}: {got} for {dict(items)}")
        if k not in case["have"]:
            try:
                got = s[SUFFIX[k]]
            except (KeyError, KasaException):
                got = None
            eq(got, None, f"{SUFFIX[k]} that is not provided")
    for k in ("watts", "power_kw", "", "voltage_v"):
        try:
            s[k]
        except KeyError:
            pass
        else:
            fail(f"{k!r} read from {dict(items)}")
    with judging("printing a status"):
        repr(s)
    ctx.nontrivial(len([k for k in case["have"] if case["r"][k]]) >= 2)


# --------------------------------------------------------------------- legacy
def moments():
    """Host time: any, often close to the end of a day, month or year."""
    base = [REAL_DT(2024, 2, 28), REAL_DT(2024, 2, 29), REAL_DT(2024, 12, 31), REAL_DT(2025, 1, 1),
            REAL_DT(2025, 1, 31), REAL_DT(2025, 3, 1), REAL_DT(2025, 6, 15), REAL_DT(2025, 11, 30)]
    return st.tuples(st.sampled_from(base) | st.datetimes(REAL_DT(2023, 1, 1), REAL_DT(2027, 12, 31)),
                     st.integers(0, 86399)).map(
        lambda t: (REAL_DT(t[0].year, t[0].month, t[0].day) + dt.timedelta(seconds=t[1])).timestamp())


def records():
    def dense(n, most):
        # every day / month has a record
        return st.tuples(st.integers(1, most), st.booleans()).map(
            lambda t: sorted(((i, (t[0] * (i + 1) * 7919) % most + 1) for i in range(n)), reverse=t[1]))
    return st.fixed_dictionaries({
        "days": st.lists(st.tuples(st.integers(0, 70) | st.integers(0, 2), st.integers(0, 90_000)), max_size=12,
                         unique_by=lambda t: t[0]) | dense(62, 90_000),
        "months": st.lists(st.tuples(st.integers(0, 26) | st.integers(0, 1), st.integers(0, 900_000)), max_size=8,
                           unique_by=lambda t: t[0]) | dense(26, 900_000)})


def back_months(d, n):
    i = d.year * 12 + d.month - 1 - n
    return i // 12, i % 12 + 1


def tables(rec, today, field):
    """Device tables: list order as generated.  field(value) -> the record's value part."""
    days = []
    for off, v in rec["days"]:
        d = today - dt.timedelta(days=off)
        days.append({"year": d.year, "month": d.month, "day": d.day, **field(v)})
    months = []
    for off, v in rec["months"]:
        y, m = back_months(today, off)
        months.append({"year": y, "month": m, **field(v)})
    return {"days": days, "months": months}


def iot_names():
    return [n for n in iotsim.fixtures() if "ENE" in (iotsim.sysinfo(n).get("feature") or "")
            or iotsim.kind(n) in ("bulb", "lightstrip")]


def iot_cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(iot_names()), "wall": moments(), "new": st.booleans(), "kwh": st.booleans(),
        "keys": st.sets(st.sampled_from(["power", "total"])), "vc": st.booleans(), "partial": st.booleans(),
        "sockets": st.lists(st.tuples(readings(), records()), min_size=6, max_size=6),
        "ops": st.lists(st.one_of(
            st.tuples(st.just("advance"), st.integers(0, 40 * 86400) | st.integers(0, 90000) | st.just(86400)),
            st.tuples(st.just("set"), st.integers(0, 5), readings(), records()),
            st.tuples(st.just("update")),
            st.tuples(st.just("status"), st.integers(-1, 5)),
            st.tuples(st.just("daily"), st.integers(-1, 5), st.integers(-1, 3), st.booleans()),
            st.tuples(st.just("monthly"), st.integers(-1, 5), st.integers(-1, 2), st.booleans()),
            st.tuples(st.just("erase"), st.integers(-1, 5))), max_size=8)})


async def iot(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    k = iotsim.kind(case["fixture"])
    mod = "smartlife.iot.common.emeter" if k in ("bulb", "lightstrip") else "emeter"
    for m in list(sim.broken):
        if m[0] == mod:
            del sim.broken[m]
    owners = sim.children or [None]
    keys = [q for q in QUANT if q in case["keys"] or (case["vc"] and q in ("voltage", "current"))]
    have = {o: keys for o in owners}
    if case["partial"] and len(owners) > 1:
        have[owners[-1]] = [q for q in keys if q != "power"]
    field = (lambda v: {"energy_wh": v}) if case["kwh"] else (lambda v: {"energy": v / 1000})
    dev = {}   # owner -> (reading in milli units, tables in Wh)

    def today():
        return REAL_DT.fromtimestamp(CLOCK.wall).date()

    def put(o, r, rec):
        dev[o] = [r, tables(rec, today(), lambda v: {"wh": v})]
        sim.realtime[(o, mod)] = encode(r, have[o], case["new"])
        sim.usage[(o, mod)] = tables(rec, today(), field)

    for o, (r, rec) in zip(owners, case["sockets"], strict=False):
        put(o, r, rec)
    d, tr = iotsim.make(sim)
    with judging("update"):
        await d.update()
    strip = bool(sim.children)
    compared = set()

    def target(i):
        if i < 0 or not strip:
            return d, owners
        i %= len(owners)
        return d.children[i], [owners[i]]

    seen = {}

    def snap():
        seen.clear()
        seen.update(day=today(), **{str(o): (dict(dev[o][0]), {kk: list(v) for kk, v in dev[o][1].items()})
                                    for o in owners})

    def status_is(s, own, what, live=False):
        src = {o: dev[o][0] for o in own} if live else {o: seen[str(o)][0] for o in own}
        for q in QUANT:
            vals = [src[o][q] / 1000 for o in own if q in have[o]]
            with judging(f"{what}: {q}"):
                got = getattr(s, q)
            if not vals:
                eq(got, None, f"{what}: {q} that is not provided")
            elif q == "voltage":
                require(got is not None and abs(got - sum(vals) / len(own)) <= (0.001 if len(own) > 1 else 1e-9),
                        f"{what}: voltage {got} of {vals}")
            else:
                require(near(got, sum(vals)), f"{what}: {q} is {got}, expected the sum of {vals}")
                compared.update(v for v in vals if v)

    def wh(own, table, sel, data):
        return [e["wh"] for o in own for e in data(o)[table] if sel(e)]

    def judge(what):
        units = [(d, owners)] + ([(c, [o]) for c, o in zip(d.children, owners, strict=True)] if strip else [])
        for unit, own in units:
            e = unit.modules[Module.Energy]
            with judging(f"reading energy after {what}"):
                vals = {n: getattr(e, n) for n in ("current_consumption", "consumption_total", "voltage", "current",
                                                   "consumption_today", "consumption_this_month")}
                st_ = e.status
            status_is(st_, own, f"status after {what}")
            whole = strip and unit is d
            for n, q in (("current_consumption", "power"), ("consumption_total", "total"), ("voltage", "voltage"),
                         ("current", "current")):
                nums = [seen[str(o)][0][q] / 1000 for o in own if q in have[o]]
                if not nums:
                    require(vals[n] is None or (whole and vals[n] == 0), f"{n} {vals[n]} is not provided, after {what}")
                elif q == "voltage" and whole:
                    require(abs(vals[n] - sum(nums) / len(own)) <= 0.001, f"strip voltage {vals[n]}", nums)
                else:
                    require(near(vals[n], sum(nums)), f"{n} is {vals[n]}, expected the sum of {nums}, after {what}")
            data = lambda o: seen[str(o)][1]  # noqa: E731
            upd = seen["day"]
            for n, table, match in (("consumption_today", "days", ("year", "month", "day")),
                                    ("consumption_this_month", "months", ("year", "month"))):
                def at(day):
                    # tables are those of the month / year of the update
                    if table == "days" and (day.year, day.month) != (upd.year, upd.month):
                        return 0
                    if day.year != upd.year:
                        return 0
                    return sum(wh(own, table, lambda x: all(x[a] == getattr(day, a) for a in match), data)) / 1000
                ok = [at(today())] + ([at(upd)] if today() != upd else [])
                got = vals[n]
                require(any(near(got, x) or (not x and got is None) for x in ok),
                        f"{n} is {got} on {today()} after {what}, expected {ok} (updated {upd})")
                compared.update(x for x in ok if x)
            feats = {"current_consumption": True, "consumption_today": True, "consumption_this_month": True,
                     "voltage": "voltage" in have[own[0]] or whole, "current": "voltage" in have[own[0]] or whole,
                     "consumption_total": "total" in have[own[0]] or whole}
            for n, there in feats.items():
                eq(n in unit.features, there, f"presence of feature {n}")
                if there:
                    with judging(f"feature {n}"):
                        eq(unit.features[n].value, vals[n], f"feature {n}")
                        eq(unit.features[n].unit, {"current_consumption": "W", "voltage": "V",
                                                   "current": "A"}.get(n, "kWh"), f"unit of {n}")

    snap()
    judge("the first update")
    for op in case["ops"]:
        kind, what = op[0], repr(op)
        if kind == "advance":
            CLOCK.mono += op[1]
            judge(what)
        elif kind == "set":
            put(owners[op[1] % len(owners)], op[2], op[3])
        elif kind == "update":
            with judging("update"):
                await d.update()
            snap()
            judge(what)
        else:
            unit, own = target(op[1])
            e = unit.modules[Module.Energy]
            t = today()
            if kind == "status":
                with judging(what):
                    s = await e.get_status()
                status_is(s, own, what, live=True)
            elif kind == "daily":
                y, m = back_months(t, max(op[2], 0))
                kw = {} if op[2] < 0 else {"year": y, "month": m}
                with judging(what):
                    got = await e.get_daily_stats(kwh=op[3], **kw)
                want = {}
                for o in own:
                    for r in dev[o][1]["days"]:
                        if (r["year"], r["month"]) == (y, m):
                            want[r["day"]] = want.get(r["day"], 0) + r["wh"] / (1000 if op[3] else 1)
                eq(sorted(got), sorted(want), f"days of {what}")
                require(all(near(got[x], want[x]) for x in want), f"{what}: {dict(got)} instead of {want}")
                compared.update(x for x in want.values() if x)
            elif kind == "monthly":
                y = t.year - max(op[2], 0)
                with judging(what):
                    got = await e.get_monthly_stats(kwh=op[3], **({} if op[2] < 0 else {"year": y}))
                want = {}
                for o in own:
                    for r in dev[o][1]["months"]:
                        if r["year"] == y:
                            want[r["month"]] = want.get(r["month"], 0) + r["wh"] / (1000 if op[3] else 1)
                eq(sorted(got), sorted(want), f"months of {what}")
                require(all(near(got[x], want[x]) for x in want), f"{what}: {dict(got)} instead of {want}")
                compared.update(x for x in want.values() if x)
            elif kind == "erase":
                before = {str(o): sim.usage[(o, mod)] for o in owners}
                with judging(what):
                    await e.erase_stats()
                for o in owners:
                    if o in own:
                        eq(sim.usage[(o, mod)], {"days": [], "months": []}, f"statistics of {o} after {what}")
                        dev[o][1] = {"days": [], "months": []}
                    else:
                        eq(sim.usage[(o, mod)], before[str(o)], f"statistics of {o} after {what}")
        ctx.label(kind)
    eq(sim.rejected, [], "requests the device refused")
    ctx.nontrivial(len(compared) >= 2)


# ---------------------------------------------------------------------- smart
def smart_names():
    out = []
    for n in smartsim.fixtures():
        try:
            comps = smartsim.components(smartsim.fixtures()[n])
        except TypeError:
            continue
        if "energy_monitoring" in comps:
            out.append(n)
    return out


def smart_cases():
    opt = lambda s: st.none() | s  # noqa: E731
    src = st.fixed_dictionaries({
        "power": st.integers(0, 4_000_000), "today": opt(st.integers(0, 100_000)), "month": opt(st.integers(0, 10**6)),
        "voltage": opt(st.integers(0, 260_000)), "current": opt(st.integers(0, 20_000)),
        "energy": opt(st.integers(0, 10**6)), "usage_power": st.booleans(), "emeter_power": st.booleans(),
        "failing": st.sets(st.sampled_from(["get_energy_usage", "get_emeter_data", "get_current_power",
                                            "get_emeter_vgain_igain"]), max_size=2) | st.just(set()),
        "code": st.sampled_from([-1001, -1008, -1, 1002, -40401])})
    return st.fixed_dictionaries({"fixture": st.sampled_from(smart_names()),
                                  "steps": st.lists(st.tuples(src, st.integers(0, 90000)), min_size=1, max_size=4)})


async def smart(case, ctx):
    sim = smartsim.SmartSim(case["fixture"], page_size=8)
    nodes = [n for n in sim.nodes().values() if "device_on" in n.info
             and any(c["id"] == "energy_monitoring" for c in n.comps)]
    require(nodes, "no energy node")
    version = next(c["ver_code"] for c in nodes[0].comps if c["id"] == "energy_monitoring")

    def put(node, s, k):
        p = s["power"] + 1000 * k
        usage = {"electricity_charge": [0, 0, 0], "local_time": "2025-01-01 12:00:00", "month_runtime": 1,
                 "today_runtime": 1}
        if s["usage_power"]:
            usage["current_power"] = p
        for f in ("today", "month"):
            if s[f] is not None:
                usage[f + "_energy"] = s[f] + k
        em = {}
        for f, name in (("voltage", "voltage_mv"), ("current", "current_ma"), ("energy", "energy_wh")):
            if s[f] is not None:
                em[name] = s[f] + k
        if s["emeter_power"]:
            em["power_mw"] = p
        node.methods.update(get_energy_usage=usage, get_emeter_data=em or {"energy_wh": 0},
                            get_current_power={"current_power": round(p / 1000)},
                            get_emeter_vgain_igain={"igain": 1, "vgain": 2})
        for m in ("get_energy_usage", "get_emeter_data", "get_current_power", "get_emeter_vgain_igain"):
            node.errors.pop(m, None)
            if m in s["failing"]:
                node.errors[m] = s["code"]

    dev, tr = smartsim.make(sim)
    compared = 0
    first = True
    for s, gap in case["steps"]:
        for k, node in enumerate(nodes):
            put(node, s, k)
        if first and s["failing"]:
            for node in nodes:
                for m in s["failing"]:
                    node.errors.pop(m)   # failures from the beginning are P26's
        failing = set() if first else s["failing"]
        with judging("update"):
            await dev.update()
        first = False
        for k, node in enumerate(nodes):
            unit = dev if node.id is None else next(c for c in dev.children if c.device_id == node.id)
            e = unit.modules.get(Module.Energy)
            if e is None:
                # nothing usable was answered at the first update
                continue
            p = s["power"] + 1000 * k
            need = {"get_energy_usage"} if version < 2 else {"get_emeter_data", "get_current_power",
                                                            "get_emeter_vgain_igain"}
            dead = bool(need & failing)
            usage_ok = "get_energy_usage" not in failing
            want = {"consumption_today": s["today"] + k if usage_ok and s["today"] is not None else None,
                    "consumption_this_month": s["month"] + k if usage_ok and s["month"] is not None else None,
                    "voltage": s["voltage"] + k if version > 1 and s["voltage"] is not None else None,
                    "current": s["current"] + k if version > 1 and s["current"] is not None else None,
                    "consumption_total": None}
            if usage_ok and s["usage_power"]:
                want["current_consumption"] = p
            elif version > 1 and s["emeter_power"]:
                want["current_consumption"] = p
            elif version > 1:
                want["current_consumption"] = round(p / 1000) * 1000
            else:
                want["current_consumption"] = None
            for n, w in want.items():
                try:
                    got = getattr(e, n)
                except KasaException:
                    require(dead, f"{n} raises although the device answers", s)
                    continue
                except Exception as ex:  # noqa: BLE001
                    fail(f"{n}: {type(ex).__name__}: {ex}", s)
                if dead:
                    # the module's queries failed: nothing may be invented
                    require(got is None, f"{n} is {got} although {failing} failed")
                elif w is None:
                    eq(got, None, f"{n} is not provided")
                else:
                    require(near(got, w / 1000), f"{n} is {got}, device has {w} milli units", s)
                    compared += bool(w)
                if n in unit.features:
                    with judging(f"feature {n}"):
                        eq(unit.features[n].value, got, f"feature {n}")
            if dead:
                CLOCK.mono += 10_000
                continue
            for live in (False, True):
                d = 0
                if live:      # the device measures on; asking again gives what it reads by then
                    d = 3000
                    put(node, {**s, "failing": failing, **{f: s[f] + d for f in ("power", "today", "month", "voltage", "current")
                                       if s[f] is not None}}, k)
                with judging("status"):
                    stt = await e.get_status() if live else e.status
                later = {n: None if x is None else x + d for n, x in want.items()}
                if version > 1:
                    w = {"power": p + d if s["emeter_power"] else None, "voltage": later["voltage"],
                         "current": later["current"], "total": None}
                else:
                    w = {"power": later["current_consumption"], "voltage": None, "current": None,
                         "total": later["consumption_today"]}
                for n, x in w.items():
                    got = getattr(stt, n)
                    if x is None:
                        eq(got, None, f"status {n} that is not provided (live {live})")
                    else:
                        require(near(got, x / 1000), f"status {n} is {got}, device has {x} milli units")
        for m in ("get_energy_usage", "get_emeter_data", "get_current_power", "get_emeter_vgain_igain"):
            for node in nodes:
                node.errors.pop(m, None)
        CLOCK.mono += gap
    ctx.label(f"version {version}", "children" if len(nodes) > 1 else "single")
    ctx.nontrivial(compared >= 2)


SUBS = [
    Sub("status", status_cases, lambda c, x: vtime.run(lambda loop: status(c, x)), quick=4500, thorough=20000,
        tshards=4, rule="two distinct quantities provided"),
    Sub("iot", iot_cases, lambda c, x: vtime.run(lambda loop: iot(c, x), wall=c["wall"]), quick=6000, thorough=20000,
        shards=4, tshards=8, rule="two non-zero readings compared"),
    Sub("smart", smart_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=3600, thorough=12000,
        shards=2, tshards=8, rule="two non-zero readings compared"),
]
