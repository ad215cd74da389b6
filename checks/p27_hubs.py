"""P27: hub children track the hub's list as devices come, go and change."""
from __future__ import annotations

import base64
import copy

from hypothesis import strategies as st

import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import KasaException, Module

LEVEL = "exploration"
RULE = ("A case is a recorded hub and a history of devices being paired, removed, renamed, hidden, broken and of updates "
        "between them; non-trivial when the list of children changed at least twice between updates.")
ASSUMPTIONS = ["hubs of the camera family support the children whose category is published, other hubs every child that "
               "comes with components",
               "after a failed listing the children stay as they were until the hub lists them again",
               "settings of children are read once a day, their state with every update of the hub"]

SMART_CATEGORIES = {"subg.plugswitch.switch", "subg.trigger.contact-sensor", "subg.trigger.temp-hmdt-sensor",
                    "subg.trigger.water-leak-sensor", "subg.trigger.motion-sensor", "subg.trv", "subg.trigger.button",
                    "camera"}


def hubs(cam):
    return [n for n in smartsim.all_names() if smartsim.is_hub(n) and smartsim.is_cam(n) == cam]


def kinds(cam):
    return sorted(smartsim.child_fixtures()) + (sorted(smartsim.cam_child_fixtures()) if cam else [])


def cases(cam):
    i = st.integers(0, 30)
    n = st.integers(0, 11)
    name = st.text(min_size=1, max_size=10)
    op = st.one_of(
        st.tuples(st.just("pair"), i, n), st.tuples(st.just("pair"), i, n), st.tuples(st.just("unpair"), n),
        st.tuples(st.just("swap"), i, n), st.tuples(st.just("rename"), n, name), st.tuples(st.just("state"), n, i),
        st.tuples(st.just("hide"), n, st.booleans()), st.tuples(st.just("only components"), n, st.booleans()), st.tuples(st.just("no components"), n, st.booleans()),
        st.tuples(st.just("stranger"), st.sampled_from(["category", "no category", "no id", "sparse"]), i),
        st.tuples(st.just("child fails"), n, i, st.booleans()), st.tuples(st.just("list fails"), st.integers(0, 2)),
        st.tuples(st.just("api pair"), i, n, st.integers(0, 3)), st.tuples(st.just("api unpair"), n),
        st.tuples(st.just("reverse")))
    steps = st.lists(st.tuples(st.lists(op, min_size=1, max_size=3), st.sampled_from([True, True, False])), min_size=2,
                     max_size=8).map(lambda xs: [o for ops, kids in xs for o in (*ops, ("update", kids))])
    return st.fixed_dictionaries({"hub": st.sampled_from(hubs(cam)), "page": st.sampled_from([None, 1, 2, 3, 10]),
                                  "first": st.lists(st.tuples(i, n), max_size=5), "ops": steps})


def cid(n):
    return f"KID{n:037d}"


async def run(case, ctx, cam):
    sim = smartsim.SmartSim(case["hub"], children=[], page_size=case["page"])
    pool, kind_of = kinds(cam), {}

    def pair(k, n):
        if cid(n) in sim.kids:
            return
        kind = kind_of.setdefault(n, pool[k % len(pool)])     # an id always belongs to the same thing
        node = sim.add_child(kind, cid(n))
        node.info["nickname" if "nickname" in node.info or not node.cam else "alias"] = (
            f"Kid {n}" if node.cam else base64.b64encode(f"Kid {n}".encode()).decode())

    for k, n in case["first"]:
        pair(k, n)
    dev, tr = smartsim.make(sim)
    objects, changes, lists = {}, 0, []
    failing_list, recovering = None, False
    down = set()

    def answer(req):
        if "ontrol" in str(req) and any(f"'device_id': '{x}', 'request" in str(req) for x in down):
            raise KasaException("child unreachable")
        return sim.answer(req)

    tr.answer = answer
    list_methods = ["getChildDeviceList", "getChildDeviceComponentList"] if cam else [
        "get_child_device_list", "get_child_device_component_list"]

    def expected():
        out = []
        for c, node in sim.kids.items():
            if c in sim.hidden or c in sim.no_components or c in sim.unlisted:
                continue
            if cam and node.info.get("category") not in SMART_CATEGORIES:
                continue
            out.append(c)
        return out

    strangers, fresh = set(), set()

    async def update(kids=True):
        nonlocal changes
        CLOCK.mono += 2000
        first = not objects and not lists
        held = None if first else dev.children
        before = None if first else [c.device_id for c in held]
        try:
            await dev.update(update_children=kids)
        except Exception as ex:  # noqa: BLE001
            fail(f"update of the hub: {type(ex).__name__}: {ex}; strangers {sim.extra}, down {sorted(down)}")
        if not first:
            eq([c.device_id for c in held], before, "a list of children taken before the update")
        judge(first)

    def judge(first):
        nonlocal changes
        got = {c.device_id: c for c in dev.children}
        require(len(got) == len(dev.children), "a child appears twice", [c.device_id for c in dev.children])
        want = set(expected())
        if failing_list is None:
            unknown = set(got) - want
            if cam or not unknown <= strangers:
                require(not unknown, "children the hub does not list or support", unknown)
            require(want <= set(got), "children missing", want - set(got))
            for c in set(objects) - set(got):
                del objects[c]
        else:
            eq(set(got) - strangers, set(objects), "children after a failed listing")
        if not lists or lists[-1] != set(got):
            lists.append(set(got))
            changes += 1
        for c, d in got.items():
            if c in strangers:
                continue
            if c in objects and c not in fresh:
                require(objects[c] is d, f"child {c} changed identity")
            objects[c] = d
            require(d.parent is dev, f"parent of {c}")
            if failing_list is not None or c not in sim.kids:
                continue
            fresh.discard(c)
            node = sim.kids[c]
            info = node.info_now()
            with judging(f"reading child {c}"):
                name = info.get("alias") if node.cam else base64.b64decode(info["nickname"]).decode()
                eq(d.alias, name, f"name of child {c}")
                eq(d.model, info["device_model"].split("(")[0] if node.cam else info["model"].split("(")[0], "model")
                mac = info["mac"].replace("-", "").replace(":", "")
                eq(d.mac, ":".join(mac[k:k + 2] for k in range(0, len(mac), 2)), f"mac of child {c}")
                eq(d.hw_info["sw_ver"], info["sw_ver" if node.cam else "fw_ver"], "firmware")
                if not node.cam:
                    eq(d.sys_info, info, f"state of child {c}")
                    eq(d.is_on, bool(info.get("device_on")), f"is_on of {c}")
                require(dev.get_child_device(c) is d, "child by id")
                repr(d)
            for m, key in ((Module.TemperatureSensor, "current_temp"), (Module.HumiditySensor, "current_humidity"),
                           (Module.BatterySensor, "battery_percentage")):
                if m in d.modules and key in info and not node.cam:
                    f = {"current_temp": "temperature", "current_humidity": "humidity",
                         "battery_percentage": "battery_level"}[key]
                    with judging(f"reading {f} of child {c}"):
                        eq(d.features[f].value, info[key], f"{f} of {c}")
        ctx.label(f"{min(len(got), 6)} children")

    await update()
    can_pair = Module.ChildSetup in dev.modules and all(isinstance(sim.root.methods.get(m), dict) for m in dev.modules[
        Module.ChildSetup].query())
    for op in case["ops"]:
        what = op[0]
        live = [c for c in sim.kids]
        pick = live[op[1] % len(live)] if live and len(op) > 1 and isinstance(op[1], int) else None
        if what == "pair":
            pair(op[1], op[2])
        elif what == "unpair" and pick:
            sim.remove_child(pick)
        elif what == "swap" and live:
            gone = live[op[2] % len(live)]
            sim.remove_child(gone)
            fresh.add(gone)
            pair(op[1], (int(gone[3:]) + 1) % 12)
        elif what == "rename" and pick:
            node = sim.kids[pick]
            if node.cam:
                node.info["alias"] = op[2]
            else:
                node.info["nickname"] = base64.b64encode(op[2].encode()).decode()
        elif what == "state" and pick:
            i = sim.kids[pick].info
            for k, v in (("current_temp", op[2] + 0.5), ("current_humidity", op[2]), ("battery_percentage", op[2]),
                         ("device_on", bool(op[2] % 2)), ("rssi", -op[2]), ("at_low_battery", bool(op[2] % 2))):
                if k in i:
                    i[k] = v
        elif what == "hide" and pick:
            (sim.hidden.add if op[2] else sim.hidden.discard)(pick)
        elif what == "only components" and pick:
            (sim.unlisted.add if op[2] else sim.unlisted.discard)(pick)
        elif what == "no components" and pick:
            (sim.no_components.add if op[2] else sim.no_components.discard)(pick)
        elif what == "stranger":
            ids = cid(900 + op[2])
            lk, ck = ("child_device_list", "child_component_list")
            key = ["subg.trigger.unheard-of", "hub.unknown"][op[2] % 2]
            base = {"device_id": ids, "category": key, "model": "X1", "type": "SMART.X", "fw_ver": "1", "hw_ver": "1",
                    "nickname": "", "mac": "00-00-00-00-00-00", "status": "online"}
            if op[1] == "no category":
                base.pop("category")
            elif op[1] == "no id":
                base.pop("device_id")
            elif op[1] == "sparse":
                base = {"device_id": ids, "category": key}
            comp = [{"name": "x", "version": 1}] if cam else [
                {"id": "x", "ver_code": 1}, {"id": "temperature", "ver_code": 1}, {"id": "battery_detect", "ver_code": 1}]
            sim.extra = {lk: [base], ck: [{"device_id": ids, "component_list": comp}]}
            strangers.add(ids)
            if not cam:
                strangers.add("None")
        elif what == "child fails" and pick:
            node = sim.kids[pick]
            if op[3]:
                (down.discard if pick in down else down.add)(pick)
            else:
                ms = sorted(m for m in node.methods if m.startswith("get"))
                node.errors = {} if node.errors or not ms else {ms[op[2] % len(ms)]: -1001}
        elif what == "list fails":
            for m in list_methods:
                sim.root.errors.pop(m, None)
            if op[1] < 2:
                sim.root.errors[list_methods[op[1]]] = -1001
            recovering = recovering or failing_list is not None
            failing_list = op[1] if op[1] < 2 else None
        elif what == "reverse":
            sim.kids = dict(reversed(sim.kids.items()))
        elif what == "api pair" and can_pair and failing_list is None and not recovering and not strangers:
            setup = dev.modules[Module.ChildSetup]
            new = [(op[1] + j, (op[2] + j) % 12) for j in range(op[3])]
            new = [(k, n) for k, n in new if cid(n) not in sim.kids]
            found = []
            for j, (k, n) in enumerate(new):
                model = "KE100"
                found.append({"device_id": cid(n), "device_model": model, "category": "subg.trv"})
                if j != 2:       # the third device is not accepted by the hub
                    sim.pairable[cid(n)] = lambda k=k, n=n: pair(k, n)
            sim.scan_found = found
            n0 = len(sim.log)
            try:
                res = await setup.pair(timeout=1 + op[3])
            except Exception as ex:  # noqa: BLE001
                fail(f"pairing: {type(ex).__name__}: {ex}; refused {sim.rejected}")
            eq(sorted(r["device_id"] for r in res), sorted(f["device_id"] for f in found if f["device_id"] in expected()),
               "devices reported as paired")
            sim.pairable.clear()
            names = [m for c, m, _ in sim.log[n0:] if c is None and "Scan" in m or "scan" in m or "add_child" in m]
            require(len(names) == (3 if found else 2), "commands of pairing", names)
            if found:
                judge(False)
            ctx.label("api pair")
        elif what == "api unpair" and can_pair and failing_list is None and not recovering and not strangers:
            if pick in objects:
                kids = set(sim.kids)
                with judging("unpairing"):
                    if op[1] % 2 and "unpair" in objects[pick].features:
                        await objects[pick].features["unpair"].set_value(None)
                    else:
                        await dev.modules[Module.ChildSetup].unpair(pick)
                eq(kids - set(sim.kids), {pick}, "removed children")
                judge(False)
                ctx.label("api unpair")
        elif what == "update":
            # a replacement needs the hub to have listed the change: ids that left and came back between
            # updates may or may not keep their object
            fresh.update(c for c in objects if c not in sim.kids)
            await update(op[1])
            recovering = recovering and failing_list is not None
    if changes > 2:
        ctx.nontrivial()


SUBS = [
    Sub("smart", lambda: cases(False), lambda c, x: vtime.run(lambda loop: run(c, x, False)), quick=4200, thorough=12000,
        shards=4, tshards=8, rule="the children changed at least twice"),
    Sub("camera", lambda: cases(True), lambda c, x: vtime.run(lambda loop: run(c, x, True)), quick=4200, thorough=12000,
        shards=4, tshards=8, rule="the children changed at least twice"),
]
