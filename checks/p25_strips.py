"""P25: strip sockets are independent and the strip summarises them correctly."""
from __future__ import annotations

import asyncio
import base64
import copy

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import KasaException, Module

LEVEL = "exploration"
RULE = ("A case is a strip with 1 to 12 sockets and a history of switching, renaming, outside changes, parallel commands "
        "and updates; non-trivial when at least two sockets were changed and re-read.")
ASSUMPTIONS = ["switching a strip switches the sockets that were in the other state at the last update",
               "SMART strips have no state of their own: only their sockets are judged",
               "the name of a socket is what the device stores"]


def cases(kind):
    names = [n for n in iotsim.fixtures() if iotsim.kind(n) == "strip"] if kind == "iot" else [
        n for n in smartsim.fixtures() if not smartsim.is_hub(n) and smartsim.SmartSim(n).kids]
    i = st.integers(0, 11)
    alias = st.text(min_size=1, max_size=12) | st.sampled_from(["Lamp", "lamp", "LAMP", "\u0130", "\u00df", "SS"])
    return st.fixed_dictionaries({
        "ids": st.sampled_from(["end", "end", "start", "middle", "before end"]), "same": st.booleans(),
        "fixture": st.sampled_from(names), "count": st.integers(1, 12), "states": st.lists(st.booleans(), min_size=12,
                                                                                          max_size=12),
        "ops": st.lists(st.one_of(
            st.tuples(st.just("child"), i, st.booleans()), st.tuples(st.just("strip"), st.booleans()),
            st.tuples(st.just("alias"), i, alias), st.tuples(st.just("outside"), i, st.booleans()),
            st.tuples(st.just("outside alias"), i, alias), st.tuples(st.just("update"), st.booleans()),
            st.tuples(st.just("child update"), i), st.tuples(st.just("wait"), st.integers(0, 5000)),
            st.tuples(st.just("parallel"), st.lists(st.tuples(i, st.booleans()), min_size=2, max_size=6,
                                                    unique_by=lambda t: t[0])),
            st.tuples(st.just("state"), i, st.booleans()), st.tuples(st.just("energy"), i),
            st.tuples(st.just("reboot"))), min_size=2, max_size=10)})


def ident(base, form, k):
    """Sockets are told apart by any part of their identifier."""
    if form == "end" or len(base) < 8:
        return f"{base[:-2]}{k:02d}"
    at = {"start": 0, "middle": len(base) // 2, "before end": len(base) - 4}[form]
    return f"{base[:at]}{k:02d}{base[at + 2:]}"


class Iot:
    def __init__(self, case):
        fix = copy.deepcopy(iotsim.fixtures()[case["fixture"]])
        info = fix["system"]["get_sysinfo"]
        base = info["children"]
        info["children"] = [{**copy.deepcopy(base[k % len(base)]), "id": ident(base[0]["id"], case["ids"], k),
                             "alias": "Socket" if case["same"] else f"Socket {k}", "state": int(case["states"][k])} for k in range(case["count"])]
        info["child_num"] = case["count"]
        self.sim = iotsim.IotSim(fixture=fix)
        self.dev, self.tr = iotsim.make(self.sim)
        self.ids = list(self.sim.children)
        for k, c in enumerate(self.ids):
            self.sim.on_at[c] = CLOCK.mono - 100 * k
            self.sim.realtime[(c, "emeter")] = {"power_mw": 1000 + k, "voltage_mv": 2000 + k, "current_ma": 3000 + k,
                                                "total_wh": 4000 + k}

    def state(self):
        return [(bool(self.sim.child(c)["state"]), self.sim.child(c)["alias"]) for c in self.ids]

    def switch(self, k, on):
        self.sim.switch(self.ids[k], on)

    def name(self, k, alias):
        self.sim.child(self.ids[k])["alias"] = alias

    def view(self, c):
        return c.is_on, c.alias

    def has_energy(self):
        return "ENE" in self.sim.sys["feature"]


class Smart:
    def __init__(self, case):
        self.sim = smartsim.SmartSim(case["fixture"], page_size=2)
        self.dev, self.tr = smartsim.make(self.sim)
        self.ids = list(self.sim.kids)
        for k, c in enumerate(self.ids):
            n = self.sim.kids[c]
            n.switch(case["states"][k])
            n.info["nickname"] = base64.b64encode(f"Socket {k}".encode()).decode()
            if "get_energy_usage" in n.methods or any(x["id"] == "energy_monitoring" for x in n.comps):
                n.methods.update(get_energy_usage={"today_energy": 5000 + k, "month_energy": 6000 + k,
                                                   "current_power": 1000 + k, "local_time": "2025-01-01 00:00:00"},
                                 get_current_power={"current_power": 1},
                                 get_emeter_data={"power_mw": 1000 + k, "voltage_mv": 2000 + k, "current_ma": 3000 + k,
                                                  "energy_wh": 1},
                                 get_emeter_vgain_igain={"igain": 1, "vgain": 1})

    def state(self):
        return [(bool(self.sim.kids[c].info["device_on"]), base64.b64decode(self.sim.kids[c].info["nickname"]).decode())
                for c in self.ids]

    def switch(self, k, on):
        self.sim.kids[self.ids[k]].switch(on)

    def name(self, k, alias):
        self.sim.kids[self.ids[k]].info["nickname"] = base64.b64encode(alias.encode()).decode()

    def view(self, c):
        return c.is_on, c.alias

    def has_energy(self):
        return True


async def run(case, ctx, kind):
    h = (Iot if kind == "iot" else Smart)(case)
    d = h.dev
    with judging("first update"):
        await d.update()
    n = len(h.ids)
    first = list(d.children)
    require(len(first) == n, f"{len(first)} children for {n} sockets")
    eq([c.device_id if kind == "smart" else c.child_id for c in first], h.ids, "order of the children")
    known = h.state()      # as of the last update
    touched, reread = set(), 0

    def judge(what, fresh=True):
        nonlocal reread
        kids = list(d.children)
        require(len(kids) == n and all(a is b for a, b in zip(kids, first, strict=True)),
                f"children changed identity or order after {what}")
        for k, c in enumerate(kids):
            require(c.parent is d, f"parent of socket {k} after {what}")
            with judging(f"reading socket {k} after {what}"):
                eq(h.view(c), known[k], f"state and name of socket {k} after {what}")
                eq(c.is_off, not known[k][0], f"is_off of socket {k}")
                eq(c.features["state"].value, known[k][0], f"state feature of socket {k}")
                eq((d.get_plug_by_index(k) is c, d.get_child_device(c.device_id) is c), (True, True),
                   f"socket {k} by index and id")
        names = [x[1] for x in known]
        for k, name in enumerate(names):
            if name:
                require(d.get_plug_by_name(name) is kids[names.index(name)], f"socket by name {name!r}")
                got = d.get_child_device(name)
                require(got is not None and got.alias.lower() == name.lower(), f"child by name {name!r}: {got}")
        for bad in (n, -1):
            try:
                d.get_plug_by_index(bad)
            except KasaException:
                pass
            else:
                fail(f"socket {bad} of {n} exists")
        if kind == "iot":
            with judging(f"strip state after {what}"):
                eq((d.is_on, d.is_off), (any(x[0] for x in known), not any(x[0] for x in known)),
                   f"strip on after {what}")
        if h.has_energy():
            for k, c in enumerate(kids):
                e = c.modules.get(Module.Energy)
                if e is None:
                    require(kind == "smart", "socket without energy")
                    continue
                with judging(f"energy of socket {k}"):
                    got = e.current_consumption, e.voltage, e.current
                require(all(abs(a - b) < 1e-9 for a, b in zip(got, (
                    (1000 + k) / 1000, (2000 + k) / 1000, (3000 + k) / 1000), strict=True)),
                    f"energy of socket {k} is {got}")
        reread = len(touched)

    judge("the first update")
    for op in case["ops"]:
        what = repr(op)
        want = h.state()
        k = op[1] % n if len(op) > 1 and type(op[1]) is int else None
        c = first[k] if k is not None else None
        try:
            if op[0] in ("child", "state"):
                if op[0] == "state":
                    await c.set_state(op[2])
                else:
                    await (c.turn_on() if op[2] else c.turn_off())
                want[k] = (op[2], want[k][1])
                touched.add(k)
            elif op[0] == "strip" and kind == "iot":
                await (d.turn_on() if op[1] else d.turn_off())
                for j in range(n):
                    if known[j][0] != op[1]:
                        want[j] = (op[1], want[j][1])
                        touched.add(j)
            elif op[0] == "alias":
                await c.set_alias(op[2])
                want[k] = (want[k][0], op[2])
                touched.add(k)
            elif op[0] == "outside":
                h.switch(k, op[2])
                want[k] = (op[2], want[k][1])
            elif op[0] == "outside alias":
                h.name(k, op[2])
                want[k] = (want[k][0], op[2])
            elif op[0] == "update":
                await d.update(update_children=op[1])
                known = h.state()
                judge(what)
            elif op[0] == "child update":
                await c.update()
            elif op[0] == "wait":
                CLOCK.mono += op[1]
            elif op[0] == "parallel":
                jobs = {j % n: on for j, on in op[1]}
                await asyncio.gather(*[first[j].turn_on() if on else first[j].turn_off() for j, on in jobs.items()])
                for j, on in jobs.items():
                    want[j] = (on, want[j][1])
                    touched.add(j)
            elif op[0] == "energy":
                e = c.modules.get(Module.Energy)
                if e is None or not h.has_energy():
                    continue
                s = await e.get_status()
                require(abs(s.power - (1000 + k) / 1000) < 1e-9 and abs(s.voltage - (2000 + k) / 1000) < 1e-9,
                        f"live energy of socket {k}: {s}")
            elif op[0] == "reboot":
                continue
        except Exception as ex:  # noqa: BLE001
            if type(ex).__name__ == "Violation":
                raise
            fail(f"{what}: {type(ex).__name__}: {ex}; refused {h.sim.rejected}")
        eq(h.state(), want, f"sockets after {what}")
        if op[0] in ("child update", "energy") and kind == "smart":
            pass
        ctx.label(op[0])
    with judging("last update"):
        await d.update()
    known = h.state()
    judge("the last update")
    eq(h.sim.rejected, [], "requests the device refused")
    ctx.nontrivial(reread >= 2)


SUBS = [
    Sub("iot", lambda: cases("iot"), lambda c, x: vtime.run(lambda loop: run(c, x, "iot")), quick=7200, thorough=12000,
        shards=4, tshards=8, rule="two sockets changed and re-read"),
    Sub("smart", lambda: cases("smart"), lambda c, x: vtime.run(lambda loop: run(c, x, "smart")), quick=3600,
        thorough=8000, shards=4, tshards=8, rule="two sockets changed and re-read"),
]
