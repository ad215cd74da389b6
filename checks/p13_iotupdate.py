"""P13: legacy update merges split queries without loss, and tolerates missing modules."""
from __future__ import annotations

import copy
import json

from hypothesis import strategies as st

import iotsim
import vtime
from core import Sub, eq, judging, require
from vtime import CLOCK

from kasa import KasaException

LEVEL = "exploration"
RULE = "Random module data, unsupported modules/commands and several updates over every recorded legacy device."
ASSUMPTIONS = ["simulated devices seeded from the repository's recordings",
               "a device refuses to build answers larger than its documented limit"]

MODS = {
    "plug": ["schedule", "anti_theft", "time", "cnCloud", "emeter"],
    "dimmer": ["schedule", "anti_theft", "time", "cnCloud", "smartlife.iot.PIR", "smartlife.iot.LAS",
               "smartlife.iot.dimmer"],
    "bulb": ["smartlife.iot.common.schedule", "smartlife.iot.common.anti_theft", "smartlife.iot.common.timesetting",
             "smartlife.iot.common.emeter", "countdown", "smartlife.iot.common.cloud"],
    "strip": ["anti_theft", "schedule", "time", "countdown", "cnCloud", "emeter"],
}
MODS["lightstrip"] = MODS["bulb"]
CMDS = {"schedule": ["get_rules", "get_next_action", "get_daystat", "get_monthstat"], "time": ["get_time", "get_timezone"],
        "emeter": ["get_realtime", "get_daystat"], "anti_theft": ["get_rules", "get_next_action"],
        "countdown": ["get_rules"], "smartlife.iot.PIR": ["get_adc_value", "get_config"],
        "smartlife.iot.LAS": ["get_current_brt"], "smartlife.iot.dimmer": ["get_default_behavior"]}
for _a in ("schedule", "anti_theft", "emeter"):
    CMDS["smartlife.iot.common." + _a] = CMDS[_a]
CMDS["smartlife.iot.common.timesetting"] = CMDS["time"]
HARD = [{"err_code": -1, "err_msg": "module not support"}, {"err_code": -1}, {"err_code": -10008, "err_msg": "x"},
        {"err_code": -99999, "err_msg": ""}]
SOFT = [{"err_code": -2, "err_msg": "member not support"}, {"err_code": -10008, "err_msg": "Unsupported API call."}]


def cases():
    return st.sampled_from(sorted(iotsim.fixtures())).flatmap(_cases)


def _cases(name):
    mods = MODS[iotsim.kind(name)]
    cmds = [(m, c) for m in mods for c in CMDS.get(m, [])]
    update = st.fixed_dictionaries({
        "seed": st.integers(0, 10**6),
        "days": st.integers(0, 31), "months": st.integers(0, 12), "rules": st.integers(0, 1),
        "gap": st.sampled_from([0, 1, 60, 86400, 40 * 86400]),
    })
    return st.fixed_dictionaries({
        "fixture": st.just(name),
        "hard": st.lists(st.tuples(st.sampled_from(mods), st.sampled_from(HARD)), max_size=3),
        "soft": st.lists(st.tuples(st.sampled_from(cmds), st.sampled_from(SOFT)), max_size=3),
        "big": st.booleans(),
        "updates": st.lists(update, min_size=1, max_size=3),
    })


def load(sim, u):
    """Give every module new data."""
    s = u["seed"]
    now = vtime.VDatetime.now()
    for owner in [None] + sim.children:
        s += 1000
        for mod in iotsim.SCHEDULES + iotsim.EMETERS:
            val = "time" if mod in iotsim.SCHEDULES else "energy_wh"
            sim.usage[(owner, mod)] = {
                "days": [{"year": now.year, "month": now.month, "day": d + 1, val: s + d} for d in range(u["days"])],
                "months": [{"year": now.year, "month": m + 1, val: s + m} for m in range(u["months"])]}
            s += 50
        for mod in iotsim.EMETERS:
            sim.realtime[(owner, mod)] = {"power_mw": s, "voltage_mv": s + 1, "current_ma": s + 2, "total_wh": s + 3}
        for mod in iotsim.RULES:
            sim.rules[(owner, mod)] = [{"id": f"{s:032d}", "name": "n"}][: u["rules"]]
            sim.next_action[(owner, mod)] = {"type": s % 3}
            s += 7
    sim.cloud["username"] = f"user{s}@example.com"
    sim.tz_index = 38 + s % 5
    sim.sys["rssi"] = -(s % 90)


def check(case, ctx):
    async def main(loop):
        sim = iotsim.IotSim(case["fixture"])
        hard = dict(case["hard"])
        soft = {k: v for k, v in case["soft"] if k[0] not in hard}
        for m, e in hard.items():
            sim.broken[(m, None)] = e
        for k, e in soft.items():
            sim.broken[k] = e
        dev, tr = iotsim.make(sim)
        limit = dev.max_device_response_size
        sent = []
        first = [True]

        def answer(req):
            if first[0]:
                first[0] = False
                eq(req, {"system": {"get_sysinfo": {}}}, "first request to an unknown device")
            before = len(sim.log)
            res = sim.answer(req)
            owner = (req.get("context") or {}).get("child_ids", [None])[0]
            for o, mod, cmd, params in sim.log[before:]:
                sent.append((o, mod, cmd, params))
            if len(json.dumps(res, separators=(",", ":"))) > limit:
                ctx.label("too large")
                raise KasaException("device gave up")
            return res

        # the device cannot build larger answers; keep recorded sysinfo within what the library may assume
        tr.answer = answer
        wall0 = CLOCK.wall
        kids = {}
        for n, u in enumerate(case["updates"]):
            await vtime.asyncio.sleep(u["gap"])
            load(sim, u)
            sent.clear()
            with judging(f"update {n}"):
                await dev.update()
            eq(dev.sys_info, sim.get_sysinfo(), "sys_info")
            nodes = [(None, dev)] + [(c.child_id, c) for c in dev.children]
            if n == 0:
                kids = {c.child_id: c for c in dev.children}
            eq([c.child_id for c in dev.children], sim.children, "children")
            for owner, node in nodes:
                asked = [(m, c, p) for o, m, c, p in sent if o == owner]
                # every module the device supports is asked in every update, and its data is the answer
                for m, c, p in asked:
                    if (m, None) in sim.broken or m == "system":
                        continue
                    truth = sim.answer({"context": {"child_ids": [owner]}, m: {c: p}} if owner else {m: {c: p}})
                    with judging(f"{m}.{c} of {owner}"):
                        got = node.internal_state[m][c]
                    eq(got, truth[m][c], f"{m}.{c} of {owner} after update {n}")
                    ctx.nontrivial(n > 0)
                seen = {(m, c) for m, c, _ in asked}
                for name, mod in node._modules.items() if n == 0 else node.modules.items():
                    q = {k: v for k, v in mod.query().items() if k != "context"}
                    for m, cs in q.items():
                        if (m, None) in sim.broken:
                            if n > 0:
                                require(False, f"module {name} ({m}) offered although unsupported")
                            require(name not in node.modules, f"unsupported module {name} offered")
                            continue
                        for c, p in cs.items():
                            if owner is None or True:
                                require((m, c) in seen, f"{m}.{c} of {owner} was not asked in update {n}")
                            got = [pp for mm, cc, pp in asked if (mm, cc) == (m, c)]
                            eq(got[-1], p, f"arguments of {m}.{c}")
                if n > 0:
                    require(not any((m, None) in sim.broken for m, _, _ in asked),
                            "unsupported modules are asked again", asked)
                for name, mod in node.modules.items():
                    with judging(f"data of {name}"):
                        data = mod.data
                    q = [k for k in mod.query() if k != "context"]
                    if not q:
                        eq(data, dev.sys_info, f"data of {name}")
                        continue
                    for c in mod.query()[q[0]]:
                        p = mod.query()[q[0]][c]
                        r = {q[0]: {c: p}}
                        truth = sim.answer({"context": {"child_ids": [owner]}, **r} if owner else r)
                        eq(data[c], truth[q[0]][c], f"data of {name}: {c} of {owner}")
                    ctx.evals(1)
            for c, v in kids.items():
                require({k.child_id: k for k in dev.children}[c] is v, "child object replaced by an update")
        for f in sorted(hard):
            ctx.label("hard " + f.split(".")[-1])
        for f in sorted(soft):
            ctx.label("soft " + f[0].split(".")[-1] + "." + f[1])
        ctx.label(iotsim.kind(case["fixture"]))

    vtime.run(main)


def splits():
    mod = st.tuples(st.integers(0, 5), st.integers(1, 3), st.sampled_from([16, 100, 256, 1000, 2048, 4096, 9000]),
                    st.sampled_from([None, None, None, None, "hard", "soft"]))
    return st.fixed_dictionaries({
        "mods": st.lists(mod, min_size=1, max_size=9),
        "limit": st.sampled_from([1024, 2048, 4096, 5000, 16384]),
        "fixture": st.sampled_from(iotsim.names("plug")[:3]),
        "updates": st.integers(1, 3),
    })


def check_split(case, ctx):
    """Modules of any size: no query may ask for more than the device can answer."""
    from kasa.iot import IotPlug
    from kasa.iot.iotmodule import IotModule
    from stub import StubTransport
    from kasa.protocols import IotProtocol

    class Mod(IotModule):
        def __init__(self, device, name, cmds, size):
            super().__init__(device, name)
            self.cmds, self.size = cmds, size

        estimated_query_response_size = property(lambda self: self.size)

        def query(self):
            return {self._module: {c: {"arg": c} for c in self.cmds}}

    class Plug(IotPlug):
        max_device_response_size = property(lambda self: case["limit"])

        async def _initialize_modules(self):
            """Only the generated modules."""

    info = iotsim.sysinfo(case["fixture"])
    hard = {f"m{n}" for n, _, _, broken in case["mods"] if broken == "hard"}
    soft = {(f"m{n}", f"c{i}_0") for i, (n, _, _, broken) in enumerate(case["mods"]) if broken == "soft"}
    update = [0]

    def one(m, c, p):
        if (m, c) in soft:
            return {"err_code": -2, "err_msg": "member not support"}
        return {"n": update[0], "m": m, "c": c, "p": p, "err_code": 0}

    def answer(req):
        res = {}
        for m, q in req.items():
            if m == "system":
                eq(q, {"get_sysinfo": {}}, "sysinfo request")
                res[m] = {"get_sysinfo": copy.deepcopy(info)}
            elif m in hard:
                res[m] = {"err_code": -1, "err_msg": "module not support"}
            else:
                res[m] = {c: one(m, c, p) for c, p in q.items()}
        return res

    async def main(loop):
        tr = StubTransport(answer)
        dev = Plug("10.0.0.2", protocol=IotProtocol(transport=tr))
        mods = []
        for i, (n, k, size, _) in enumerate(case["mods"]):
            mods.append(Mod(dev, f"m{n}", [f"c{i}_{j}" for j in range(k)], size))
            dev.add_module(f"mod{i}", mods[-1])
        for u in range(case["updates"]):
            update[0] = u
            before = len(tr.sent)
            with judging(f"update {u}"):
                await dev.update()
            reqs = tr.sent[before + (1 if u == 0 else 0):]
            seen = []
            for r in reqs:
                parts = [m for m in mods if m._module in r and set(m.cmds) & set(r[m._module])]
                for m in parts:
                    require(set(m.cmds) <= set(r[m._module]), f"query of a module was torn apart: {r}")
                need = sum(m.size for m in parts) + (1024 if "system" in r else 0)
                require(need <= case["limit"] or len(parts) == 1,
                        f"update {u}: a query for {[(m._module, m.size) for m in parts]} may be answered with {need} "
                        f"bytes, the device is limited to {case['limit']}")
                seen += parts
            eq(sum("system" in r for r in reqs), 1, f"update {u}: number of sysinfo queries")
            for i, m in enumerate(mods):
                if m._module in hard:
                    require(u == 0 or m not in seen, f"update {u}: unsupported module asked again")
                    require(f"mod{i}" not in dev.modules, "unsupported module offered")
                    continue
                eq(seen.count(m), 1, f"update {u}: how often module {i} was asked")
                require(f"mod{i}" in dev.modules, f"module {i} is missing")
                for c in m.cmds:
                    with judging(f"{m._module}.{c}"):
                        got = m.data[c]
                    eq(got, one(m._module, c, {"arg": c}), f"update {u}: {m._module}.{c}")
            ctx.nontrivial(len(reqs) > 1)
            ctx.label(f"{min(len(reqs), 4)} queries")

    vtime.run(main)


SUBS = [Sub("update", cases, check, quick=15000, thorough=100000, shards=8, rule="at least two updates ran"),
        Sub("split", splits, check_split, quick=4500, thorough=30000, shards=4, rule="more than one query was needed")]
