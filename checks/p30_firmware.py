"""P30: firmware updates are checked, driven and reported as the device tells."""
from __future__ import annotations

import asyncio
import datetime as dt

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import KasaException, Module, TimeoutError as KasaTimeout
from kasa.exceptions import _ConnectionError, _RetryableError

LEVEL = "fault_enumeration"
RULE = ("A case is a script of the states a device goes through while it updates, with the times it answers slowly, with errors "
        "or not at all; non-trivial when an update was started and the callbacks and requests were compared.")
ASSUMPTIONS = ["the overall deadline is five minutes after the download was requested", "polls are at most 1.5 s apart on a device "
               "that answers at once", "callbacks are judged one turn of the event loop after the update returned"]
DEADLINE = 300


def firmware_names():
    return sorted(n for n in smartsim.fixtures() if "firmware" in smartsim.components(smartsim.fixtures()[n]))


PHASE = st.fixed_dictionaries({
    "for": st.sampled_from([0.0, 0.3, 0.6, 1.0, 3.0, 10.0, 45.0, 100.0]),
    "status": st.sampled_from([1, 2, 2, 2, 3, 3, 4, 7]),
    "progress": st.integers(0, 100), "upgrade": st.sampled_from([0, 1, 5, 40, 90]),
    "fault": st.sampled_from([None, None, None, None, "connection", "timeout", "retryable", "error", "garbage", "other", "slow"]),
})
END = st.one_of(st.sampled_from([0, 0, 0, -1, -1001]), st.none())
LATEST = st.fixed_dictionaries({
    "type": st.sampled_from([0, 0, 1, 2, 3]), "need_to_upgrade": st.booleans(),
    "fw_ver": st.sampled_from(["1.1.0 Build 230905 Rel.184939", "", None, "9.9"]) | st.text(max_size=8),
    "release_date": st.sampled_from(["2023-10-13", "", None, "2024-02-29"]), "release_note": st.text(max_size=8),
    "fw_size": st.sampled_from([786432, 0, None]), "oem_id": st.sampled_from(["0" * 32, None]),
    "hw_id": st.just("0" * 32),
}, optional={})


class Update:
    """What the device says about the update at any time."""

    def __init__(self, sim, phases, end, v2):
        self.sim, self.phases, self.end, self.v2 = sim, phases, end, v2
        self.start = None
        self.told = []          # (time, state) delivered
        self.asked = []
        self.starts = 0
        self.fail_start = False

    def now(self):
        """-> (status, progress, upgrade, fault)"""
        t = CLOCK.mono - self.start
        for p in self.phases:
            if t < p["for"]:
                return p["status"], p["progress"], p["upgrade"], p["fault"]
            t -= p["for"]
        if self.end is None and self.phases:
            p = self.phases[-1]
            return p["status"], p["progress"], p["upgrade"], None
        return (2 if self.end is None else self.end), 100, 5, None

    def m_fw_download(self, p):
        self.starts += 1
        if self.fail_start:
            return -1001
        self.start = CLOCK.mono
        return {}

    def state(self):
        status, progress, upgrade, _ = self.now()
        s = {"status": status, "download_progress": progress, "reboot_time": 5, "upgrade_time": upgrade}
        return {**s, "auto_upgrade": False} if self.v2 else s

    def m_state(self, p):
        if self.start is None:
            return {"status": 0, "download_progress": 0, "reboot_time": 5, "upgrade_time": 5,
                    **({"auto_upgrade": False} if self.v2 else {})}
        s = self.state()
        self.told.append((CLOCK.mono, s))
        return s

    def answer(self, req):
        if req["method"] != "get_fw_download_state" or self.start is None:
            return self.sim.answer(req)
        self.asked.append(CLOCK.mono)
        fault = self.now()[3]
        if fault == "connection":
            raise _ConnectionError("down")
        if fault == "timeout":
            raise KasaTimeout("slow")
        if fault == "retryable":
            raise _RetryableError("again")
        if fault == "other":
            raise KasaException("what")
        if fault == "error":
            return {"error_code": -1001}
        if fault == "garbage":
            return {"error_code": 0, "result": {"status": "x"}}
        if fault == "slow":
            async def later():
                await asyncio.sleep(7)
                return self.sim.answer(req)
            return later()
        return self.sim.answer(req)


def cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(firmware_names()), "phases": st.lists(PHASE, max_size=6), "end": END,
        "latest": LATEST, "cloud": st.sampled_from([0, 0, 0, 0, 1, 2, "error"]),
        "check": st.sampled_from(["ok", "ok", "ok", "ok", "ok", "no", "fails", "stale"]),
        "start": st.sampled_from(["ok"] * 6 + ["fails"]),
        "callback": st.sampled_from(["plain", "plain", "slow", "raises", None])})


def set_cloud(sim, how):
    if how == "error":
        sim.root.errors["get_connect_cloud_state"] = -1001
    else:
        sim.root.errors.pop("get_connect_cloud_state", None)
        sim.root.methods["get_connect_cloud_state"] = {"status": how}


def same_info(fw, latest, cloud, ctx):
    i = fw.firmware_update_info
    with judging("update info"):
        eq((i.status, i.needs_upgrade, i.version, i.release_notes, i.fw_size, i.oem_id),
           (latest["type"], latest["need_to_upgrade"], latest["fw_ver"], latest["release_note"], latest["fw_size"],
            latest["oem_id"]), "firmware_update_info")
        eq(i.release_date, dt.date.fromisoformat(latest["release_date"]) if latest["release_date"] else None, "release date")
        eq(fw.latest_firmware, latest["fw_ver"], "latest_firmware")
        eq(fw.update_available, latest["type"] != 0 if cloud == 0 else None, "update_available")


async def main(case, ctx):
    sim = smartsim.SmartSim(case["fixture"])
    set_cloud(sim, case["cloud"])
    v2 = smartsim.components(sim.fix)["firmware"] > 1
    up = Update(sim, case["phases"], case["end"], v2)
    has_cloud = "cloud_connect" in smartsim.components(sim.fix)
    cloud = case["cloud"] if has_cloud else 1
    sim.root.handlers.update(get_latest_fw=lambda p: case["latest"], fw_download=up.m_fw_download,
                             get_fw_download_state=up.m_state)
    up.fail_start = case["start"] == "fails"
    dev, tr = smartsim.make(sim)
    tr.answer = up.answer
    with judging("first update"):
        await dev.update()
    fw = dev.modules.get(Module.Firmware)
    if fw is None:
        ctx.label("no firmware module")
        return
    with judging("firmware module"):
        eq(fw.current_firmware, sim.root.info["fw_ver"], "current_firmware")
        eq((fw.firmware_update_info, fw.latest_firmware, fw.update_available), (None, None, None), "before any check")
        s = await fw.get_update_state()
        eq((s.status, s.progress, s.reboot_time, s.upgrade_time, bool(s.auto_upgrade)), (0, 0, 5, 5, False), "idle update state")
    known = False
    if case["check"] != "no":
        with judging("check_latest_firmware"):
            res = await fw.check_latest_firmware()
        require(res is fw.firmware_update_info and res is not None, "check_latest_firmware result", res)
        same_info(fw, case["latest"], cloud, ctx)
        known = True
    if case["check"] in ("fails", "stale"):
        sim.root.errors["get_latest_fw"] = -1001
        with judging("failing check_latest_firmware"):
            eq(await fw.check_latest_firmware(), None, "result of a failing check")
            eq((fw.firmware_update_info, fw.latest_firmware, fw.update_available), (None, None, None), "after a failing check")
        known = False
        if case["check"] == "stale":
            del sim.root.errors["get_latest_fw"]
            with judging("check_latest_firmware"):
                await fw.check_latest_firmware()
            known = True
    calls = []

    async def cb(state):
        calls.append(state)
        if case["callback"] == "slow":
            await asyncio.sleep(20)
        if case["callback"] == "raises":
            raise RuntimeError("callback")

    n0 = len(tr.sent)
    t0 = CLOCK.mono
    legal = known and cloud == 0 and case["latest"]["type"] != 0
    result = None
    try:
        result = await fw.update(progress_cb=cb if case["callback"] else None)
        how = "done"
    except TimeoutError:
        how = "deadline"
    except KasaException as ex:
        how = f"refused {type(ex).__name__}"
    except Exception as ex:  # noqa: BLE001
        fail(f"update: {type(ex).__name__}: {ex}")
    took = CLOCK.mono - t0
    asked, told = list(up.asked), list(up.told)
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    if not legal:
        require(how.startswith("refused"), "an update was not refused although none was known to be available", how)
        eq([r for r in tr.sent[n0:]], [], "requests of a refused update")
        return
    eq(up.starts >= 1, True, "download was requested")
    if case["start"] == "fails":
        require(how.startswith("refused"), "the download could not be started", how)
        eq(asked, [], "polls of an update that did not start")
        return
    eq(up.starts, 1, "number of downloads started")
    ctx.nontrivial()
    ctx.label(how, f"callback {case['callback']}")
    # Every delivered state reaches the callback, once and in order.  A state that arrives with the deadline may be lost.
    seen = [(s.status, s.progress, s.upgrade_time) for s in calls]
    want = [(s["status"], s["download_progress"], s["upgrade_time"]) for _, s in told]
    if case["callback"]:
        late = how == "deadline" and seen == want[:-1]
        require(seen == want or late, "states passed to the callback", seen, want)
    else:
        eq(calls, [], "callbacks")
    ends = [k for k, (_, s) in enumerate(told) if s["status"] <= 0]
    if how == "done":
        eq(ends, [len(told) - 1], "the update ended with the first state that ends it")
        last = told[-1][1]
        with judging("result"):
            eq((result["status"], result["progress"], result["upgrade_time"], result["reboot_time"]),
               (last["status"], 100, last["upgrade_time"], 5), "result of the update")
        require(took <= DEADLINE + 0.01, "took longer than the deadline", took)
    else:
        eq(how, "deadline", "outcome of an update the device started")
        require(abs(took - DEADLINE) <= 1, "the deadline", took)
        require(not ends or told[ends[0]][0] - t0 > DEADLINE - 8, "the end of the update was not noticed",
                [round(told[k][0] - t0, 1) for k in ends])
    # Polling: not while the device flashes, otherwise regularly.
    for (ta, a), nxt in zip(told, [next((x for x in asked if x > ta + 1e-9), None) for ta, _ in told], strict=True):
        if nxt is None:
            continue
        if a["status"] == 3:
            require(nxt - ta >= a["upgrade_time"], "polled while the device is flashing", nxt - ta, a)
            require(nxt - ta <= a["upgrade_time"] + 8.6, "not polled after flashing", nxt - ta, a)
        elif a["status"] > 0:
            require(0.2 <= nxt - ta <= 8.6, "poll interval", nxt - ta, a)
    if asked:
        require(asked[0] - t0 <= 1.5, "first poll", asked[0] - t0)
        if how == "deadline":
            waiting = 8.6 + (told[-1][1]["upgrade_time"] if told and told[-1][1]["status"] == 3 else 0)
            require(t0 + DEADLINE - asked[-1] <= waiting, "polling stopped before the deadline", t0 + DEADLINE - asked[-1])
    # Without faults the end is noticed promptly.
    if not any(p["fault"] for p in case["phases"]) and case["end"] is not None:
        total = sum(p["for"] for p in case["phases"])
        sleeps = max([p["upgrade"] for p in case["phases"] if p["status"] == 3], default=0)
        if total + sleeps + 2 < DEADLINE:
            eq(how, "done", "outcome")
            require(took <= total + sleeps + 2, "end of the update noticed late", took, total)


# ------------------------------------------------------------- histories of checks
def history_cases():
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("check"), "latest": LATEST,
                               "how": st.sampled_from(["ok", "ok", "error", "offline", "garbage"])}),
        st.fixed_dictionaries({"op": st.just("cloud"), "status": st.sampled_from([0, 1, 2, "error"])}),
        st.fixed_dictionaries({"op": st.just("installed"), "version": st.sampled_from(["1.0.1 Build 1", "2.0.0 Build 230905 Rel.1"])}),
        st.fixed_dictionaries({"op": st.just("auto"), "on": st.booleans()}))
    return st.fixed_dictionaries({"fixture": st.sampled_from(firmware_names()), "ops": st.lists(op, min_size=2, max_size=8)})


async def history(case, ctx):
    sim = smartsim.SmartSim(case["fixture"])
    comps = smartsim.components(sim.fix)
    dev, tr = smartsim.make(sim)
    set_cloud(sim, 0)
    with judging("first update"):
        await dev.update()
    fw = dev.modules.get(Module.Firmware)
    if fw is None:
        return
    cloud, known, n = 0, None, 0
    for op in case["ops"]:
        if op["op"] == "check":
            sim.root.errors.pop("get_latest_fw", None)
            sim.root.handlers["get_latest_fw"] = lambda p, r=op["latest"]: r
            if op["how"] == "error":
                sim.root.errors["get_latest_fw"] = -1001
            if op["how"] == "garbage":
                sim.root.handlers["get_latest_fw"] = lambda p: {"type": "many"}
            if op["how"] == "offline":
                def down(req):
                    raise _ConnectionError("down")
                tr.answer = down
            with judging("check_latest_firmware"):
                res = await fw.check_latest_firmware()
            tr.answer = sim.answer
            known = op["latest"] if op["how"] == "ok" else None
            require((res is None) == (known is None), "result of the check", res)
            n += 1
        elif op["op"] == "cloud":
            cloud = op["status"]
            set_cloud(sim, cloud)
        elif op["op"] == "installed":
            sim.root.info["fw_ver"] = op["version"]
        elif comps["firmware"] > 1 and fw.supported_version > 1 and isinstance(sim.root.methods.get("get_auto_update_info"), dict):
            r = sim.root.methods["get_auto_update_info"]
            before = dict(r)
            with judging("set_auto_update_enabled"):
                await fw.set_auto_update_enabled(op["on"])
            eq(sim.root.methods["get_auto_update_info"], {**before, "enable": op["on"]}, "auto update settings of the device")
        CLOCK.mono += 100_000
        with judging("update"):
            await dev.update()
            eq(fw.current_firmware, sim.root.info["fw_ver"], "current_firmware")
            if isinstance(sim.root.methods.get("get_auto_update_info"), dict) and fw.supported_version > 1:
                eq(fw.auto_update_enabled, sim.root.methods["get_auto_update_info"]["enable"], "auto_update_enabled")
        if known is None:
            with judging("update info"):
                eq((fw.firmware_update_info, fw.latest_firmware, fw.update_available), (None, None, None), "no known firmware")
        else:
            same_info(fw, known, cloud if "cloud_connect" in comps else 1, ctx)
        ctx.evals(1)
    if n > 1:
        ctx.nontrivial()


# ------------------------------------------------------------- legacy devices
def legacy_cases():
    return st.fixed_dictionaries({
        "fixture": st.sampled_from([n for n in sorted(iotsim.fixtures())
                                    if {"cnCloud", "smartlife.iot.common.cloud"} & set(iotsim.fixtures()[n])]),
        "states": st.lists(st.fixed_dictionaries({
            "binded": st.sampled_from([0, 1]), "cld_connection": st.sampled_from([0, 1]), "server": st.sampled_from(["", "n-devs.tplinkcloud.com"]),
            "username": st.sampled_from(["", "user@example.com"]), "stopConnect": st.sampled_from([0, 1]),
            "fwNotifyType": st.sampled_from([-1, 0, 1]), "tcspStatus": st.sampled_from([0, 1]),
            "fwDlPage": st.sampled_from(["", "http://x"]), "illegalType": st.sampled_from([0, 1])}), min_size=2, max_size=4)})


async def legacy(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    dev, tr = iotsim.make(sim)
    for s in case["states"]:
        sim.cloud.update(s)
        with judging("update"):
            await dev.update()
        mod = dev.modules.get(Module.IotCloud)
        if mod is None:
            return
        with judging("cloud information"):
            eq(mod.is_connected, bool(s["cld_connection"]), "is_connected")
            i = mod.info
            eq((i.provisioned, i.cloud_connected, i.server, i.username, i.stop_connect, i.firmware_notify_type, i.tcsp_status,
                i.firmware_download_page, i.illegal_type),
               tuple(s[k] for k in ("binded", "cld_connection", "server", "username", "stopConnect", "fwNotifyType",
                                    "tcspStatus", "fwDlPage", "illegalType")), "cloud info")
            eq(dev.features["cloud_connection"].value, bool(s["cld_connection"]), "cloud_connection feature")
    if len({s["cld_connection"] for s in case["states"]}) > 1:
        ctx.nontrivial()


SUBS = [
    Sub("update", cases, lambda c, x: vtime.run(lambda loop: main(c, x)), quick=7200, thorough=40000, shards=4, tshards=8,
        rule="an update was started and its polls and callbacks compared"),
    Sub("history", history_cases, lambda c, x: vtime.run(lambda loop: history(c, x)), quick=2400, thorough=10000, shards=4,
        tshards=8, rule="more than one check of the firmware"),
    Sub("legacy", legacy_cases, lambda c, x: vtime.run(lambda loop: legacy(c, x)), quick=900, thorough=2000, shards=2, tshards=4,
        rule="the connection to the cloud changed"),
]
