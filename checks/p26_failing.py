"""P26: one failing module never breaks the others, and it recovers."""
from __future__ import annotations

import copy
import functools

from hypothesis import strategies as st

import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import AuthenticationError, DeviceError, DeviceType, KasaException, TimeoutError
from kasa.exceptions import SmartErrorCode, _ConnectionError, _RetryableError

LEVEL = "fault_enumeration"
RULE = ("A case is a recorded device (or hub with children) and up to five periods of repeated updates, each with a set "
        "of methods that fail in one of several ways; non-trivial when a module failed and another kept working, or a "
        "module recovered.")
ASSUMPTIONS = ["a failing module is asked again 30 seconds times the number of failures in a row later and given up after "
               "ten of them",
               "the usual interval of a module is its published minimum interval, one day for children of hubs",
               "an update may fail, with a library error, when the device information itself cannot be read"]

RETRY, LIMIT, DAY = 30, 10, 24 * 3600
CRITICAL = {"get_device_info", "getDeviceInfo", "component_nego", "getAppComponentList"}
NEGOTIATED = {"component_nego", "getAppComponentList", "getConnectionType"}
#: modules that stay active whatever happens
ALWAYS = {"DeviceModule", "devicemodule", "Light"}
FIRST = {"DeviceModule", "devicemodule", "ChildDevice", "childdevice", "Cloud"}
CODES = [-1002, -1008, -1001, -1, -1301, -1501, -40106, -40209, 1111, -12345]
RETRYABLE = [1001, 1002, 1112]
#: features whose value comes from the device information, and the connection state that is then "no"
ELSEWHERE = {"alarm", "alarm_source", "current_firmware_version", "overloaded", "cloud_connection"}
EXC = {"kasa": lambda: KasaException("down"), "timeout": lambda: TimeoutError("down"),
       "connection": lambda: _ConnectionError("down"), "retry": lambda: _RetryableError("down"),
       "device": lambda: DeviceError("down", error_code=SmartErrorCode.UNSPECIFIC_ERROR),
       "auth": lambda: AuthenticationError("down")}


def names():
    """Devices and a representative set of hubs with children."""
    kids = sorted(smartsim.child_fixtures())
    camkids = sorted(smartsim.cam_child_fixtures())
    out = [(n, None) for n in smartsim.all_names()]
    hubs = [n for n in smartsim.all_names() if smartsim.is_hub(n)]
    for k, c in enumerate(kids + camkids):
        cands = [h for h in hubs if smartsim.is_cam(h)] if c in camkids else hubs
        out.append((cands[k % len(cands)], (c, kids[(k * 7 + 3) % len(kids)])))
    return out


CASES = names()
#: with many kinds of modules
SPECIAL = [n for n, (f, kids) in enumerate(CASES) if kids or any(x in f for x in ("RV", "L530", "L630", "KS240", "KP125M",
                                                                                  "H200", "C2", "C5", "P304", "L900"))]


class Faulty:
    """A simulated device whose answers carry the number of the update and fail on demand."""

    def __init__(self, name, children):
        self.sim = smartsim.SmartSim(name, children=list(children) if children else None)
        self.last = {}       # (node, method) -> ("ok", answer) | ("bad",)
        self.asked = set()   # since the start of the update
        self.err = {}        # (node, method) -> code
        self.down = {}       # (node, method) -> exception name
        self.tick = 0
        for nid, node in self.sim.nodes().items():
            node.run = functools.partial(self.run, nid, node.run)
        self.dev, self.tr = smartsim.make(self.sim)
        self.tr.answer = self.answer

    def run(self, nid, real, m, p):
        self.asked.add((nid, m))
        if (nid, m) in self.err:
            code, res = self.err[(nid, m)], None
        else:
            code, res = real(m, p)
            if isinstance(res, dict) and not any(isinstance(v, list) and "start_index" in res for v in res.values()):
                res["tick"] = self.tick
                for v in res.values():
                    if isinstance(v, dict):
                        v["tick"] = self.tick
        self.last[(nid, m)] = ("bad",) if code else ("ok", copy.deepcopy(res))
        return code, res

    def methods(self, nid, req):
        m, p = req["method"], req.get("params")
        if m == "multipleRequest":
            return [x for r in p["requests"] for x in self.methods(nid, r)]
        if m == "control_child":
            return self.methods(p["device_id"], p["requestData"])
        if m == "controlChild":
            return self.methods(p["childControl"]["device_id"], p["childControl"]["request_data"])
        return [(nid, m)]

    def answer(self, req):
        ms = self.methods(None, req)
        for x in ms:
            if x in self.down:
                self.asked.update(ms)
                for y in ms:
                    self.last[y] = ("bad",)
                raise EXC[self.down[x]]()
        return self.sim.answer(req)

    def nodes(self):
        yield None, self.dev
        for c in self.dev.children:
            yield c.device_id, c


@functools.lru_cache(None)
def targets(name, children):
    """Every (node, method) the modules of the device ask for."""
    out = set()

    async def go(loop):
        f = Faulty(name, children)
        await f.dev.update()
        for nid, d in f.nodes():
            for m in d.modules.values():
                out.update((nid, k) for k in m.query())
        out.update((None, k) for k in (NEGOTIATED | CRITICAL) if k in f.sim.root.methods)

    vtime.run(go)
    return sorted(out, key=str)


def cases():
    gap = st.sampled_from([1, 5, 29, 30, 31, 59, 60, 61, 90, 120, 150, 300, 301, 3600, DAY, DAY + 1]) | st.integers(1, 700)
    step = st.fixed_dictionaries({
        "n": st.sampled_from([1, 2, 3, 5, 11, 14]), "gap": gap, "children": st.sampled_from([True, True, True, False]),
        "fail": st.lists(st.tuples(st.integers(0, 60), st.sampled_from(["code"] * 4 + ["retryable"] + sorted(EXC)),
                                   st.integers(0, 20)), max_size=3)})
    return st.fixed_dictionaries({"stop": st.booleans(), "device": st.sampled_from(range(len(CASES))) | st.sampled_from(SPECIAL),
                                  "keep": st.lists(st.tuples(st.integers(0, 60), st.sampled_from(["code", "kasa"]),
                                                             st.integers(0, 20)), max_size=2),
                                  "steps": st.lists(step, min_size=2, max_size=5)})


class Model:
    """When each module is to be asked."""

    def __init__(self):
        self.count, self.at, self.bad = {}, {}, {}

    def due(self, key, mod, t, child):
        if self.count.get(key, 0) >= LIMIT:
            return False
        every = RETRY * self.count[key] if self.count.get(key) else (DAY if child else mod.MINIMUM_UPDATE_INTERVAL_SECS)
        return not every or self.at.get(key) is None or t - self.at[key] >= every

    def done(self, key, mod, t, bad):
        self.at[key] = t
        if type(mod).__name__ in ALWAYS or mod.name in ALWAYS:
            return
        self.count[key] = self.count.get(key, 0) + 1 if bad else 0


def outcome(f, nid, mod):
    """-> (failed, data expected)."""
    keys = list(mod.query())
    opt = mod.optional_response_keys
    got = {}
    dropped = False
    for k in keys:
        o = f.last.get((nid, k))
        if o is None:
            continue      # not asked yet
        if o[0] == "bad":
            if k not in opt:
                return True, None
            dropped = True
            continue
        got[k] = o[1]
    cam = hasattr(mod, "QUERY_MODULE_NAME")
    if len(keys) == 1 and not dropped:
        r = next(iter(got.values()), None)
        if cam and isinstance(r, dict):
            r = r.get(mod.QUERY_MODULE_NAME, r)
        return False, r
    if len(got) == 1 and not dropped and not cam:
        return False, next(iter(got.values()))
    return False, got


def arm(f, pool, picks):
    f.err, f.down = {}, {}
    for n, (p, how, c) in enumerate(picks):
        nid, m = pool[p * 7919 % len(pool)]
        if m in CRITICAL and n:      # at most now and then
            continue
        if how == "code":
            f.err[(nid, m)] = CODES[c % len(CODES)]
        elif how == "retryable" and nid is None:
            f.err[(nid, m)] = RETRYABLE[c % len(RETRYABLE)]
        elif nid is None or how in ("kasa", "device", "auth"):
            f.down[(nid, m)] = how if how in EXC else "kasa"
        else:
            f.down[(nid, m)] = "kasa"


async def judge(case, ctx, name, children, pool):
    f = Faulty(name, children)
    f.sim.stop_on_error = case["stop"]     # some devices ignore what follows a failing method
    d, model = f.dev, Model()
    ready = False
    seen = set()
    for step in case["steps"]:
        arm(f, pool, step["fail"] + case["keep"])
        failing = set(f.err) | set(f.down)
        for _ in range(step["n"]):
            CLOCK.mono += step["gap"]
            f.tick += 1
            f.asked = set()
            start, known = CLOCK.mono, dict(f.last)
            with_kids = step["children"] or d.device_type is not DeviceType.Hub
            before = {nid: c for nid, c in f.nodes()} if ready else {}
            try:
                await d.update(update_children=step["children"])
            except KasaException as ex:
                crit = failing & {(None, c) for c in CRITICAL}
                first = not ready and any(x[0] is None for x in f.down)
                require(crit or first, f"update {f.tick} failed: {ex!r}", sorted(failing, key=str))
                ctx.label("update failed")
                # nothing of a failed update is stored or scheduled
                f.last.clear()
                if ready:
                    f.last.update(known)
                continue
            except Exception as ex:  # noqa: BLE001
                fail(f"update {f.tick} with failing {sorted(failing, key=str)} raised {type(ex).__name__}: {ex}")
            require(not (ready and failing & {(None, "get_device_info"), (None, "getDeviceInfo")}),
                    "update succeeded although the device information could not be read")
            end = CLOCK.mono
            first_time, ready = not ready, True
            good = False
            for nid, dev in f.nodes():
                child = nid is not None
                new = nid not in before
                if child and not (with_kids or set(before) != {n for n, _ in f.nodes()}):
                    require(not any(n == nid for n, _ in f.asked), f"child {nid} asked although not requested")
                    continue
                hubkid = child and d.device_type is DeviceType.Hub
                t = end if child else start
                want = set()
                for mod in dev.modules.values():
                    q = list(mod.query())
                    key = (nid, mod.name)
                    if not q:
                        continue
                    if (first_time and not child) or (child and new):
                        due = True
                    else:
                        due = model.due(key, mod, t, hubkid)
                    if due:
                        want.update((nid, k) for k in q)
                        if first_time and not child and mod.name in FIRST:
                            model.at[key] = t
                            if mod.name == "Cloud":
                                model.done(key, mod, t, outcome(f, nid, mod)[0])
                            continue
                        bad = outcome(f, nid, mod)[0]
                        if bad:
                            seen.add(key)
                            ctx.label("failing")
                        elif model.count.get(key):
                            ctx.label("recovered")
                            ctx.nontrivial()
                        model.done(key, mod, t, bad)
                        if model.count.get(key, 0) == LIMIT:
                            ctx.label("given up")
                asked = {x for x in f.asked if x[0] == nid}
                if not first_time and not (child and new):
                    require(asked == want, f"update {f.tick}: asked of {nid}", "missing:", sorted(want - asked, key=str),
                            "not due:", sorted(asked - want, key=str), {k: v for k, v in model.count.items() if v})
                else:
                    # the first update leaves the usage of the device to the next one
                    lacking = {x for x in want - asked if x[1] != "get_device_usage"}
                    require(not lacking, f"not asked in the first update of {nid}", lacking)
                for mod in dev.modules.values():
                    if not mod.query() or mod.name in FIRST and not all((nid, k) in f.last for k in mod.query()):
                        continue
                    bad, want_data = outcome(f, nid, mod)
                    what = f"{mod.name} of {nid} after update {f.tick}"
                    try:
                        data = mod.data
                    except KasaException as ex:
                        require(bad, f"data of {what} unavailable: {ex!r}", [f.last.get((nid, k)) for k in mod.query()])
                        continue
                    except Exception as ex:  # noqa: BLE001
                        fail(f"data of {what}: {type(ex).__name__}: {ex}")
                    require(not bad, f"data of failing {what}", data)
                    eq(data, want_data, f"data of {what}")
                    good = True
                features(dev, nid, f, model, ctx)
            if good and any(model.count.values()):
                ctx.nontrivial()


def features(dev, nid, f, model, ctx):
    for feat in dev.features.values():
        mod = feat.container
        if mod is None or mod is dev or not hasattr(mod, "query"):
            continue
        bad = bool(mod.query()) and outcome(f, nid, mod)[0] and mod.name not in ALWAYS
        try:
            v = feat.value
        except KasaException:
            continue
        except Exception as ex:  # noqa: BLE001
            if bad:
                fail(f"{feat.id} of failing {mod.name} of {nid}: {type(ex).__name__}: {ex}")
            continue
        require(not bad or v is None or not feat.attribute_getter or feat.id in ELSEWHERE,
                f"{feat.id} of failing {mod.name} of {nid} still has a value", v)


def check(case, ctx):
    name, children = CASES[case["device"]]
    pool = targets(name, children)
    vtime.run(lambda loop: judge(case, ctx, name, children, pool))


SUBS = [Sub("faults", cases, check, quick=2000, thorough=40000, shards=4, tshards=8, rule="a module failed and another kept working")]
