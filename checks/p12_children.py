"""P12: requests for a child device reach only that child and its errors stay its own."""
from __future__ import annotations

import asyncio
import copy

from hypothesis import strategies as st

import gen
import iotsim
import vtime
from core import Sub, eq, require, simulator
from p04_camera import of_code
from p08_retry import classify
from stub import StubTransport

from kasa import KasaException
from kasa.exceptions import SmartErrorCode
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper

LEVEL = "exploration"
RULE = ("Several tasks use several children of one parent at random times; a reference parent executes the requests "
        "on per-child stores and returns tagged answers.")
ASSUMPTIONS = ["transport replaced by a stand-in with random delays", "the parent answers every request it is sent"]
CODES = [-1, -1002, -1008, -40101, -40106, -1501, 7, -987654]
RETRYABLE_CODES = [-1301, -1302]
KIDS = ["c1", "c2", "c3"]
KEYS = ["alpha", "beta", "gamma"]


def hub_cases(cam):
    err = st.sampled_from([None, None, None] + CODES)
    one = st.tuples(st.sampled_from(KEYS), st.sampled_from(["get", "set"]), gen.json_object(3), err)
    reqs = st.lists(one, min_size=1, max_size=5, unique_by=lambda t: (t[0], t[1]))
    # outer: the parent itself refuses the control request
    op = st.tuples(st.sampled_from(KIDS), reqs, st.sampled_from([None] * 8 + CODES), st.integers(0, 3),
                   st.booleans())
    return st.fixed_dictionaries({
        "cam": st.just(cam),
        "tasks": st.lists(st.lists(op, min_size=1, max_size=4), min_size=1, max_size=4),
        "delays": st.lists(st.integers(0, 3), min_size=1, max_size=8),
        "batch": st.sampled_from([None, 1, 2, 5]),
        "stops": st.booleans(),     # no more is answered after an error
    })


class Hub:
    """Children hold one value per key; a set stores (task, value), a get returns what is stored."""

    def __init__(self, delays, stops=False):
        self.stops = stops
        self.store = {k: {} for k in KIDS}
        self.log = []
        self.delays = delays
        self.n = 0
        self.problems = []
        self.direct = 0

    def run(self, kid, method, params):
        if kid not in self.store or method.split("_")[-1] not in KEYS:
            self.problems.append(f"request {method} {params} for {kid}")
            return {"error_code": -1}
        params = params or {}
        if set(params) != {"op", "v", "err"}:
            self.problems.append(f"params of {method}: {params}")
            return {"error_code": -1}
        self.log.append((kid, params["op"], method, params["v"]))
        if params["err"] is not None:
            return {"error_code": params["err"]}
        verb, key = method.split("_")
        if verb == "set":
            self.store[kid][key] = copy.deepcopy(params["v"])
            return {"error_code": 0, "result": {"who": kid, "m": method, "op": params["op"]}}
        return {"error_code": 0, "result": {"who": kid, "m": method, "op": params["op"],
                                            "v": copy.deepcopy(self.store[kid].get(key))}}

    def wrap(self, method, res):
        return {"method": method, **res}

    async def __call__(self, req):
        self.n += 1
        d = self.delays[self.n % len(self.delays)]
        if d:
            await asyncio.sleep(d / 4)
        return self.handle(req)

    def handle(self, req):
        m, p = req["method"], req.get("params")
        if m == "multipleRequest":
            out = []
            for r in p["requests"]:
                out.append(self.wrap(r["method"], self.handle(r)))
                res = out[-1].get("result") or {}
                if self.stops and (out[-1]["error_code"] or (res.get("response_data") or {}).get("error_code")):
                    break
            return {"error_code": 0, "result": {"responses": out}}
        if m == "control_child":
            kid, rd = p["device_id"], p["requestData"]
            if rd["method"] == "multipleRequest":
                subs = rd["params"]["requests"]
                if (oc := subs[0]["params"].get("outer")) is not None:
                    self.log.append((kid, subs[0]["params"]["op"], "outer", None))
                    return {"error_code": oc}
                out = []
                for r in subs:
                    out.append(self.wrap(r["method"], self.run(kid, r["method"], r.get("params"))))
                    if self.stops and out[-1]["error_code"]:
                        break
                inner = {"error_code": 0, "result": {"responses": out}}
            else:
                if (oc := (rd.get("params") or {}).get("outer")) is not None:
                    self.log.append((kid, rd["params"]["op"], "outer", None))
                    return {"error_code": oc}
                inner = self.run(kid, rd["method"], rd.get("params"))
            return {"error_code": 0, "result": {"responseData": inner}}
        if m == "controlChild":
            c = p["childControl"]
            rd = c["request_data"]
            if (oc := (rd.get("params") or {}).get("outer")) is not None:
                self.log.append((c["device_id"], rd["params"]["op"], "outer", None))
                return {"error_code": oc}
            return {"error_code": 0, "result": {"response_data": self.run(c["device_id"], rd["method"],
                                                                          rd.get("params"))}}
        if m == "get_parent":
            self.direct += 1
            return {"error_code": 0, "result": {"n": self.direct}}
        self.problems.append(f"request {req} to the parent")
        return {"error_code": -1}


def hub(case, ctx):
    cam = case["cam"]

    async def main(loop):
        dev = Hub(case["delays"], case["stops"])
        tr = StubTransport(dev, batch_size=case["batch"])
        proto = (SmartCamProtocol if cam else SmartProtocol)(transport=tr)
        wrap = _ChildCameraProtocolWrapper if cam else _ChildProtocolWrapper
        kids = {k: wrap(k, proto) for k in KIDS}

        results = []

        async def task(ti, ops):
            for oi, (kid, reqs, outer, wait, parent_too) in enumerate(ops):
                if wait:
                    await asyncio.sleep(wait / 3)
                if parent_too and not cam:
                    r = await proto.query({"get_parent": None})
                    require(list(r) == ["get_parent"] and list(r["get_parent"]) == ["n"], "parent's answer", r)
                tag = f"{ti}.{oi}"
                q = {}
                for key, verb, v, err in reqs:
                    q[f"{verb}_{key}"] = {"op": tag, "v": copy.deepcopy(v), "err": err}
                if outer is not None:
                    for p in q.values():
                        p["outer"] = outer
                    if cam and len(q) > 1:
                        pass
                keep = copy.deepcopy(q)
                start = len(dev.log)
                res = exc = None
                try:
                    res = await kids[kid].query(q, retry_count=0)
                except KasaException as ex:
                    exc = ex
                eq(q, keep, "request object after the call")
                mine = [e for e in dev.log[start:] if e[1] == tag]
                require(all(e[0] == kid for e in mine), f"requests for {kid} executed by", mine)
                results.append((kid, reqs, outer, tag, res, exc, mine))

        await asyncio.gather(*(task(i, ops) for i, ops in enumerate(case["tasks"])))
        require(not dev.problems, "hub saw", *dev.problems[:3])
        ctx.label(f"tasks {len(case['tasks'])}")
        # replay the log to know what each get had to return
        store = {k: {} for k in KIDS}
        expected = {}
        errs = {r[3]: {f"{verb}_{key}": err for key, verb, _, err in r[1]} for r in results}
        for kid, tag, method, v in dev.log:
            if method == "outer" or errs[tag][method] is not None:
                continue
            verb, key = method.split("_")
            if verb == "set":
                store[kid][key] = v
                expected[tag, method] = {"who": kid, "m": method, "op": tag}
            else:
                expected[tag, method] = {"who": kid, "m": method, "op": tag, "v": store[kid].get(key)}
        for kid, reqs, outer, tag, res, exc, mine in results:
            what = f"{kid} {[(f'{v}_{k}', e) for k, v, _, e in reqs]} outer={outer}"
            single = len(reqs) == 1
            if case["stops"] and any(r[3] is not None or outer is not None for r in reqs[:-1]):
                ctx.label("cut short")
            if outer is not None and (not cam or single):
                require(exc is not None, f"{what}: error of the parent returned as {res}")
                eq((classify(exc), int(exc.error_code)), of_code(outer), what)
                ctx.label("parent error")
                continue
            if outer is not None:
                require(exc is None, f"{what} raised {exc!r}")
                for k, v in res.items():
                    eq(v, SmartErrorCode(of_code(outer)[1]), f"{what}: {k}")
                eq(sorted(res), sorted(f"{v}_{k}" for k, v, _, _ in reqs), f"{what}: methods answered")
                ctx.label("parent error")
                continue
            eq([e[2] for e in mine], [f"{v}_{k}" for k, v, _, _ in reqs], f"{what}: requests executed")
            if single and reqs[0][3] is not None:
                require(exc is not None, f"{what}: child error returned as {res}")
                eq((classify(exc), int(exc.error_code)), of_code(reqs[0][3]), what)
                ctx.label("child error")
                continue
            require(exc is None, f"{what} raised {exc!r}")
            eq(sorted(res), sorted(f"{v}_{k}" for k, v, _, _ in reqs), f"{what}: methods answered")
            for key, verb, v, err in reqs:
                m = f"{verb}_{key}"
                if err is not None:
                    require(isinstance(res[m], SmartErrorCode), f"{what}: error of {m} reported as {res[m]!r}")
                    eq(res[m], SmartErrorCode(of_code(err)[1]), f"{what}: {m}")
                    ctx.label("method error")
                else:
                    eq(res[m], expected[tag, m], f"{what}: answer of {m}")
        ctx.nontrivial(len({r[0] for r in results}) > 1)

    vtime.run(main)


# ------------------------------------------------------------------------- strips
def strip_cases():
    op = st.one_of(
        st.tuples(st.just("on"), st.booleans()),
        st.tuples(st.just("alias"), gen.TEXT),
        st.tuples(st.just("call"), st.sampled_from(["schedule", "anti_theft", "countdown"]), st.booleans()),
        st.tuples(st.just("daystat"), st.integers(2020, 2025), st.integers(1, 12)),
        st.tuples(st.just("erase")),
        st.tuples(st.just("emeter")),
    )
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(iotsim.names("strip")),
        "tasks": st.lists(st.lists(st.tuples(st.integers(0, 5), op, st.integers(0, 2)), min_size=1, max_size=5),
                          min_size=1, max_size=3),
        "broken": st.lists(st.sampled_from(["schedule", "anti_theft", "countdown"]), max_size=1),
        "delays": st.lists(st.integers(0, 3), min_size=1, max_size=6),
    })


def strip(case, ctx):
    async def main(loop):
        from kasa import Module

        sim = iotsim.IotSim(case["fixture"])
        dev, tr = iotsim.make(sim)
        for i, c in enumerate(sim.children):
            sim.usage[(c, "schedule")] = {"days": [{"year": y, "month": m, "day": 1, "time": y + m + 10000 * i}
                                                   for y in range(2020, 2026) for m in range(1, 13)], "months": []}
            sim.realtime[(c, "emeter")] = {"power_mw": 1000 * i, "voltage_mv": 1, "current_ma": i, "total_wh": i}
        await dev.update()
        n = [0]
        owner_of = {}

        async def slow(req):
            n[0] += 1
            d = case["delays"][n[0] % len(case["delays"])]
            if d:
                await asyncio.sleep(d / 4)
            with simulator(KasaException):
                return sim.answer(req)

        tr.answer = slow
        broken = set(case["broken"])
        for b in broken:
            sim.broken[(b, "set_overall_enable")] = {"err_code": -5, "err_msg": "refused"}
        sim.log.clear()
        state = {c: {"on": bool(sim.child(c)["state"]), "alias": sim.child(c)["alias"]} for c in sim.children}
        touched = {c: 0 for c in sim.children}
        kids = list(dev.children)
        want = []

        async def task(ti, ops):
            for idx, op, wait in ops:
                if wait:
                    await asyncio.sleep(wait / 3)
                i = idx % len(kids)
                if i % len(case["tasks"]) != ti:      # each task owns its sockets
                    i = (i - i % len(case["tasks"]) + ti) % len(kids)
                if i % len(case["tasks"]) != ti:
                    continue
                cid, plug = sim.children[i], kids[i]
                touched[cid] += 1
                if op[0] == "on":
                    await (plug.turn_on() if op[1] else plug.turn_off())
                    state[cid]["on"] = op[1]
                    want.append((cid, "system", "set_relay_state"))
                elif op[0] == "alias":
                    await plug.set_alias(op[1])
                    state[cid]["alias"] = op[1]
                    want.append((cid, "system", "set_dev_alias"))
                elif op[0] == "call":
                    mod = {"schedule": Module.IotSchedule, "anti_theft": Module.IotAntitheft,
                           "countdown": Module.IotCountdown}[op[1]]
                    want.append((cid, op[1], "set_overall_enable"))
                    try:
                        await plug.modules[mod].set_enabled(op[2])
                        require(op[1] not in broken, "error of the socket returned as success")
                        eq(sim.rules_enabled[(cid, op[1])], int(op[2]), f"{op[1]} enabled of {cid}")
                    except KasaException:
                        require(op[1] in broken, f"{op} raised an error the socket did not give")
                        ctx.label("error")
                elif op[0] == "daystat":
                    want.append((cid, "schedule", "get_daystat"))
                    got = await plug.modules[Module.IotUsage].get_daystat(year=op[1], month=op[2])
                    eq(got, {1: op[1] + op[2] + 10000 * i}
                       if (cid, "schedule") in sim.usage and sim.usage[(cid, "schedule")]["days"] else {},
                       f"usage of socket {i}")
                elif op[0] == "erase":
                    want.append((cid, "schedule", "erase_runtime_stat"))
                    await plug.modules[Module.IotUsage].erase_stats()
                    owner_of[cid] = True
                elif op[0] == "emeter" and dev.has_emeter:
                    want.append((cid, "emeter", "get_realtime"))
                    got = await plug.modules[Module.Energy].get_status()
                    eq(got.power, float(i), f"power of socket {i}")

        await asyncio.gather(*(task(i, ops) for i, ops in enumerate(case["tasks"])))
        require(not sim.rejected, "the strip refused", *sim.rejected[:3])
        eq(sorted(e[:3] for e in sim.log), sorted(want), "commands executed")
        for c in sim.children:
            eq((bool(sim.child(c)["state"]), sim.child(c)["alias"]), (state[c]["on"], state[c]["alias"]),
               f"state of socket {c}")
            eq(bool(sim.usage[(c, "schedule")]["days"]), c not in owner_of, f"statistics of {c}")
        ctx.nontrivial(sum(1 for v in touched.values() if v) > 1)
        ctx.label(f"{len(case['tasks'])} tasks")

    vtime.run(main)


SUBS = [
    Sub("hub", lambda: hub_cases(False), hub, quick=2000, thorough=60000, shards=4,
        rule="more than one child was used"),
    Sub("camhub", lambda: hub_cases(True), hub, quick=1500, thorough=40000, shards=4,
        rule="more than one child was used"),
    Sub("strip", strip_cases, strip, quick=1000, thorough=30000, shards=4, rule="more than one socket was used"),
]
