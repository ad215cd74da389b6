"""P33: usage statistics and rules are read exactly as the device holds them."""
from __future__ import annotations

import copy

from hypothesis import strategies as st

import iotsim
import vtime
from core import Sub, eq, judging, require
from p23_energy import back_months, moments, records, tables
from vtime import CLOCK, REAL_DT

from kasa import Module
from kasa.iot.modules import AmbientLight  # noqa: F401  (package import)
from kasa.iot.modules.rulemodule import Action, TimeOption

LEVEL = "exploration"
RULE = ("A case is a legacy device with generated usage tables and rules per socket, a date and a history of reads, "
        "changes, deletions, erasures and clock advances; non-trivial when the history compared at least two "
        "non-empty tables or rule lists.")
ASSUMPTIONS = ["the device's clock shows the date of the host",
               "rules have the fields recorded from devices; rules with unknown codes are not generated"]


def rule():
    act, topt = st.sampled_from([-1, 0, 1, 2]), st.sampled_from([-1, 0, 1, 2])
    need = st.fixed_dictionaries({
        "name": st.text(max_size=10), "enable": st.integers(0, 1), "repeat": st.integers(0, 1),
        "wday": st.lists(st.integers(0, 1), min_size=7, max_size=7)}, optional={
        "sact": act, "stime_opt": topt, "smin": st.integers(0, 1440), "eact": act, "etime_opt": topt,
        "emin": st.integers(0, 1440), "soffset": st.integers(-60, 60), "eoffset": st.integers(-60, 60),
        "s_light": st.fixed_dictionaries({"on_off": st.integers(0, 1), "brightness": st.integers(0, 100),
                                          "mode": st.just("customize_preset")}),
        "frequency": st.integers(1, 10), "year": st.integers(2024, 2026), "month": st.integers(1, 12),
        "day": st.integers(1, 28)})
    return need


def rules():
    return st.lists(rule(), max_size=5)


def cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(list(iotsim.fixtures())), "wall": moments(),
        "usage": st.lists(records(), min_size=6, max_size=6),
        "rules": st.lists(st.tuples(rules(), rules(), rules()), min_size=6, max_size=6),
        "ops": st.lists(st.one_of(
            st.tuples(st.just("advance"), st.integers(0, 40 * 86400) | st.integers(0, 90000) | st.just(86400)),
            st.tuples(st.just("new"), st.sampled_from(["month", "year"])),
            st.tuples(st.just("update")),
            st.tuples(st.just("usage"), st.integers(0, 5), records()),
            st.tuples(st.just("rules"), st.integers(0, 5), st.integers(0, 2), rules()),
            st.tuples(st.just("daily"), st.integers(0, 5), st.integers(-3, 3)),
            st.tuples(st.just("monthly"), st.integers(0, 5), st.integers(-1, 2)),
            st.tuples(st.just("erase"), st.integers(0, 5)),
            st.tuples(st.just("delete"), st.integers(0, 5), st.integers(0, 2), st.integers(0, 9)),
            st.tuples(st.just("delete all"), st.integers(0, 5), st.integers(0, 2)),
            st.tuples(st.just("enable"), st.integers(0, 5), st.integers(0, 2), st.booleans())), max_size=8)})


def until_new(what):
    """Seconds up to a bit after the next month or year begins."""
    now = REAL_DT.fromtimestamp(CLOCK.wall)
    y, m = (now.year + 1, 1) if what == "year" or now.month == 12 else (now.year, now.month + 1)
    return (REAL_DT(y, m, 1, 3) - now).total_seconds()


async def run(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    bulb = iotsim.kind(case["fixture"]) in ("bulb", "lightstrip")
    usage_mod = "smartlife.iot.common.schedule" if bulb else "schedule"
    rule_mods = [usage_mod, "smartlife.iot.common.anti_theft" if bulb else "anti_theft", "countdown"]
    for m in list(sim.broken):
        if m[0] in rule_mods:
            del sim.broken[m]
    owners = sim.children or [None]
    compared = 0
    ids = iter(range(10_000))

    def today():
        return REAL_DT.fromtimestamp(CLOCK.wall).date()

    def put_usage(o, rec):
        sim.usage[(o, usage_mod)] = tables(rec, today(), lambda v: {"time": v % 1500})

    def put_rules(o, k, rl):
        sim.rules[(o, rule_mods[k])] = [{"id": f"{next(ids):032X}", **copy.deepcopy(r)} for r in rl]

    for o, rec, rl in zip(owners, case["usage"], case["rules"], strict=False):
        put_usage(o, rec)
        for k in range(3):
            put_rules(o, k, rl[k])
    d, tr = iotsim.make(sim)
    with judging("update"):
        await d.update()
    names = (Module.IotSchedule, Module.IotAntitheft, Module.IotCountdown)
    seen = {}

    def snap():
        seen.clear()
        seen.update(day=today(), usage=copy.deepcopy(sim.usage), rules=copy.deepcopy(sim.rules))

    def units():
        return list(zip(d.children, owners, strict=True)) if sim.children else [(d, None)]

    def judge(what):
        nonlocal compared
        for unit, o in units():
            u = unit.modules[Module.IotUsage]
            tab, upd, t = seen["usage"][(o, usage_mod)], seen["day"], today()
            days = [e for e in tab["days"] if (e["year"], e["month"]) == (upd.year, upd.month)]
            months = [e for e in tab["months"] if e["year"] == upd.year]
            with judging(f"reading usage after {what}"):
                eq((u.daily_data, u.monthly_data), (days, months), f"tables after {what}")
                got = u.usage_today, u.usage_this_month
            compared += bool(days) + bool(months)

            def day_of(day):
                return next((e["time"] for e in days if (e["year"], e["month"], e["day"])
                             == (day.year, day.month, day.day)), None)

            def month_of(day):
                return next((e["time"] for e in months if (e["year"], e["month"]) == (day.year, day.month)), None)

            require(got[0] in (day_of(t), day_of(upd)), f"usage today is {got[0]} after {what}",
                    f"{t}: {day_of(t)}, {upd}: {day_of(upd)}")
            require(got[1] in (month_of(t), month_of(upd)), f"usage this month is {got[1]} after {what}",
                    f"{t}: {month_of(t)}, {upd}: {month_of(upd)}")
            for k, n in enumerate(names):
                if n not in unit.modules:
                    continue
                held = seen["rules"].get((o, rule_mods[k]), [])
                with judging(f"reading {n} after {what}"):
                    got_rules = unit.modules[n].rules
                eq([r.id for r in got_rules], [r["id"] for r in held], f"rules of {n} after {what}")
                compared += bool(held)
                for r, h in zip(got_rules, held, strict=True):
                    for f in ("name", "enable", "wday", "repeat", "smin", "emin", "s_light"):
                        eq(getattr(r, f), h.get(f), f"{f} of a rule")
                    for f, cls in (("sact", Action), ("eact", Action), ("stime_opt", TimeOption),
                                   ("etime_opt", TimeOption)):
                        v = getattr(r, f)
                        require((v is None) == (f not in h) and (v is None or type(v) is cls and v.value == h[f]),
                                f"{f} of a rule is {v}, stored {h.get(f)}")

    snap()
    judge("the first update")
    for op in case["ops"]:
        kind, what = op[0], repr(op)
        if kind in ("advance", "new"):
            CLOCK.mono += op[1] if kind == "advance" else until_new(op[1])
            judge(what)
            continue
        if kind == "update":
            with judging("update"):
                await d.update()
            snap()
            judge(what)
            continue
        unit, o = units()[op[1] % len(owners)]
        u = unit.modules[Module.IotUsage]
        before_rules, before_usage = copy.deepcopy(sim.rules), copy.deepcopy(sim.usage)
        before_enabled = dict(sim.rules_enabled)
        if kind == "usage":
            put_usage(o, op[2])
            continue
        if kind == "rules":
            put_rules(o, op[2], op[3])
            continue
        if kind in ("daily", "monthly"):
            t = today()
            y, m = back_months(t, max(op[2], 0)) if kind == "daily" else (t.year - max(op[2], 0), None)
            kw = {} if op[2] < 0 else {"year": y, "month": m} if kind == "daily" else {"year": y}
            if kind == "daily" and op[2] == -2:         # only one of both is given
                y -= op[1] % 3
                kw = {"year": y}
            elif kind == "daily" and op[2] == -3:
                m = max(1, m - op[1] % 3)
                kw = {"month": m}
            with judging(what):
                got = await (u.get_daystat if kind == "daily" else u.get_monthstat)(**kw)
                raw = await (u.get_raw_daystat if kind == "daily" else u.get_raw_monthstat)(**kw)
            if kind == "daily":
                rows = [e for e in sim.usage[(o, usage_mod)]["days"] if (e["year"], e["month"]) == (y, m)]
                want = {e["day"]: e["time"] for e in rows}
            else:
                rows = [e for e in sim.usage[(o, usage_mod)]["months"] if e["year"] == y]
                want = {e["month"]: e["time"] for e in rows}
            eq(got, want, what)
            eq(raw.get("day_list" if kind == "daily" else "month_list"), rows, f"raw {what}")
            compared += bool(want)
        elif kind == "erase":
            with judging(what):
                await u.erase_stats()
            before_usage[(o, usage_mod)] = {"days": [], "months": []}
        else:
            k = op[2]
            if names[k] not in unit.modules:
                continue
            mod = unit.modules[names[k]]
            with judging(f"rules before {what}"):
                rl = mod.rules
            held = before_rules.get((o, rule_mods[k]), [])
            if kind == "delete":
                if not rl:
                    continue
                r = rl[op[3] % len(rl)]
                there = r.id in [h["id"] for h in held]
                try:
                    await mod.delete_rule(r)
                except Exception as ex:  # noqa: BLE001
                    require(not there, f"{what}: {type(ex).__name__}: {ex}")
                else:
                    require(there, "deleting a rule the device no longer has succeeded")
                before_rules[(o, rule_mods[k])] = [h for h in held if h["id"] != r.id]
            elif kind == "delete all":
                with judging(what):
                    await mod.delete_all_rules()
                before_rules[(o, rule_mods[k])] = []
            else:
                with judging(what):
                    await mod.set_enabled(op[3])
                before_enabled[(o, rule_mods[k])] = int(op[3])
        clean = lambda r: {k: v for k, v in r.items() if v}  # noqa: E731
        eq(clean(sim.rules), clean(before_rules), f"rules on the device after {what}")
        eq(sim.usage, before_usage, f"usage on the device after {what}")
        eq(sim.rules_enabled, before_enabled, f"enabled services after {what}")
        judge(what)   # reading reflects the last update
        ctx.label(kind)
    eq(sim.rejected, [], "requests the device refused")
    ctx.nontrivial(compared >= 2)


SUBS = [Sub("rules and usage", cases, lambda c, x: vtime.run(lambda loop: run(c, x), wall=c["wall"]), quick=2250,
            thorough=25000, shards=6, tshards=8, rule="two non-empty tables or rule lists compared")]
