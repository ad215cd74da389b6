"""P11: camera protocol translation preserves every request and answer."""
from __future__ import annotations

import copy

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from stub import StubTransport
from p04_camera import of_code
from p08_retry import classify

from kasa import KasaException
from kasa.exceptions import SmartErrorCode
from kasa.protocols import SmartCamProtocol
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper

LEVEL = "exploration"
RULE = "Random requests in every form the protocol accepts, executed by a reference camera that logs what it executes."
ASSUMPTIONS = ["transport replaced by a stand-in", "the camera answers every request of a multipleRequest, in order",
               "short method names use CamelCase words"]
CODES = [-1, -1002, -1008, -40101, -40106, -40209, -40210, -40401, -40413, 9999, -1501, -40412, 7, -987654]
WORDS = ["Led", "Status", "Clock", "Alarm", "Config", "Lens", "Mask", "Msg", "Push", "Motor", "Preset", "Tamper",
         "Wifi", "A"]
DO_NAMES = ["getSdCardFormatStatus", "getConnectionType", "getWhitelampStatus"]


def cases():
    words = st.lists(st.sampled_from(WORDS), min_size=1, max_size=4)
    payload = gen.json_object(4)
    name = st.one_of(st.builds(lambda p, w: p + "".join(w), st.sampled_from(["get", "set", "do", "scan", "test"]), words))
    ans = st.one_of(st.tuples(st.just("value"), payload), st.tuples(st.just("value"), payload),
                    st.tuples(st.just("empty")), st.tuples(st.just("nocode"), payload),
                    st.tuples(st.just("err"), st.sampled_from(CODES)),
                    st.tuples(st.just("outer"), st.sampled_from(CODES)))
    section = st.sampled_from(["led", "system", "image", "motion_detection", "x"])
    named = st.lists(st.tuples(name, section, payload, ans), min_size=1, max_size=8, unique_by=lambda t: t[0])
    op = st.one_of(
        st.tuples(st.just("short"), st.one_of(name, st.sampled_from(DO_NAMES)), ans),
        st.tuples(st.just("low"), st.sampled_from(["get", "set", "do"]), section, payload, ans),
        st.tuples(st.just("named"), named),
        st.tuples(st.just("named"), named),
        st.tuples(st.just("raw"), named),
        st.tuples(st.just("child"), st.sampled_from(["A", "B"]), named),
        st.tuples(st.just("child"), st.sampled_from(["A", "B"]), named),
    )
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=5),
                                  "batch": st.sampled_from([None, None, 1, 2, 3]),
                                  "retry": st.sampled_from([0, 1])})


def snake(words_name):
    out = ""
    for ch in words_name:
        out += ("_" + ch.lower()) if ch.isupper() else ch
    return out


class Camera:
    def __init__(self):
        self.log = []          # (target, method, params)
        self.answers = {}      # (target, method) -> answer spec
        self.problems = []

    def execute(self, target, method, params):
        self.log.append((target, method, copy.deepcopy(params)))
        a = self.answers.get((target, method))
        if a is None:
            self.problems.append(f"unexpected request {method} {params} for {target}")
            return {"error_code": -40106}
        if a[0] in ("err", "outer"):
            return {"error_code": a[1]}
        if a[0] == "empty":
            return {"error_code": 0, "result": {}}
        return {"error_code": 0, "result": {"who": f"{target}/{method}", "v": copy.deepcopy(a[1])}}

    def __call__(self, req):
        m = req["method"]
        if m == "multipleRequest":
            res = []
            for r in req["params"]["requests"]:
                if r["method"] == "controlChild":
                    c = r["params"]["childControl"]
                    rd = c["request_data"]
                    a = self.answers.get((c["device_id"], rd["method"]))
                    inner = self.execute(c["device_id"], rd["method"], rd.get("params"))
                    if a and a[0] == "outer":       # the hub could not reach the child
                        res.append({"method": "controlChild", "error_code": a[1]})
                    else:
                        res.append({"method": "controlChild", "error_code": 0,
                                    "result": {"device_id": c["device_id"], "response_data": inner}})
                else:
                    res.append({"method": r["method"], **self.execute("cam", r["method"], r.get("params"))})
            return {"error_code": 0, "result": {"responses": res}}
        if m in ("get", "set", "do"):
            secs = [k for k in req if k != "method"]
            if len(secs) != 1:
                self.problems.append(f"{len(secs)} sections in {req}")
                return {"error_code": -40210}
            sec = secs[0]
            r = self.execute("cam", (m, sec), req[sec])
            a = self.answers.get(("cam", (m, sec)))
            if r["error_code"]:
                return {"error_code": r["error_code"]}
            if a[0] == "empty":
                return {}
            out = {sec: r["result"]}
            return out if a[0] == "nocode" else {"error_code": 0, **out}
        # a method sent on its own (requests that are not batched)
        return self.execute("cam", m, req.get("params"))


def check(case, ctx):
    async def main(loop):
        cam = Camera()
        tr = StubTransport(cam, batch_size=case["batch"])
        proto = SmartCamProtocol(transport=tr)
        kids = {k: _ChildCameraProtocolWrapper(k, proto) for k in "AB"}
        for op in case["ops"]:
            cam.log.clear()
            cam.answers.clear()
            ctx.label(op[0])
            kind = op[0]
            want = None                # result or ("raise", code)
            expect_log = []
            exp_raise = None
            target = proto
            if kind in ("short", "low"):
                ans = op[-1]
                if kind == "short":
                    name = op[1]
                    s = snake(name)
                    if name[:3] in ("get", "set") and name not in DO_NAMES:
                        m, sec = name[:3], s[4:]
                    else:
                        m, sec = "do", s
                    q, params, key = name, {}, name
                else:
                    m, sec, params = op[1], op[2], op[3]
                    q, key = {m: {sec: copy.deepcopy(params)}}, m
                cam.answers[("cam", (m, sec))] = ans
                expect_log = [("cam", (m, sec), params)]
                val = {"who": f"cam/{(m, sec)}", "v": ans[1] if len(ans) > 1 else None}
                if ans[0] in ("err", "outer"):
                    exp_raise = ans[1]
                elif m == "get":
                    if ans[0] == "empty":
                        exp_raise = "none"
                    want = {key: {sec: val}}
                elif m == "set":
                    want = {}
                else:
                    want = {key: {}} if ans[0] == "empty" else \
                        {key: {sec: val}} if ans[0] == "nocode" else {key: {"error_code": 0, sec: val}}
            else:
                tgt = "cam" if kind != "child" else op[1]
                reqs = op[-1]
                single = len(reqs) == 1
                want = {}
                raw = []
                for name, sec, payload, ans in reqs:
                    params = {sec: payload}
                    cam.answers[(tgt, name)] = ans
                    expect_log.append((tgt, name, params))
                    if ans[0] in ("err", "outer"):
                        num = of_code(ans[1])[1]
                        want[name] = SmartErrorCode(num)
                        raw.append({"method": name, "error_code": ans[1]})
                        if single and kind != "raw":
                            exp_raise = ans[1]
                    else:
                        r = {} if ans[0] == "empty" else {"who": f"{tgt}/{name}", "v": ans[1]}
                        want[name] = r
                        raw.append({"method": name, "error_code": 0, "result": r})
                if kind == "raw":
                    q = {"multipleRequest": {"requests": [{"method": n, "params": {s: copy.deepcopy(p)}}
                                                          for n, s, p, _ in reqs]}}
                    want = {"multipleRequest": {"responses": raw}}
                else:
                    q = {n: {s: copy.deepcopy(p)} for n, s, p, _ in reqs}
                    target = proto if kind == "named" else kids[tgt]
            keep = copy.deepcopy(q)
            got = exc = None
            try:
                got = await target.query(q, retry_count=case["retry"])
            except KasaException as ex:
                exc = ex
            eq(q, keep, "request object after the call")
            require(not cam.problems, "camera saw", *cam.problems[:3])
            retried = exp_raise is not None and exp_raise != "none" and of_code(exp_raise)[0] == "retry"
            if kind == "child" and retried:      # errors of a child may or may not be retried
                require(cam.log in [expect_log * k for k in range(1, case["retry"] + 2)],
                        f"requests executed for {keep}", cam.log)
            elif not retried:
                eq(cam.log, expect_log, f"requests executed for {keep}")
            else:
                eq(cam.log, expect_log * (case["retry"] + 1), f"requests executed for {keep}")
            if exp_raise is not None:
                require(exc is not None, f"error {exp_raise} of the camera returned as {got}")
                if exp_raise != "none":
                    cls, num = of_code(exp_raise)
                    eq((classify(exc), int(exc.error_code)), (cls, num), f"failure for {keep}")
                ctx.label("raised")
            else:
                require(exc is None, f"{keep} raised {exc!r}")
                eq(got, want, f"answer to {keep}")
                for k, v in got.items():
                    if isinstance(want.get(k), SmartErrorCode):
                        require(isinstance(v, SmartErrorCode), f"error of {k} reported as {v!r}")
                        ctx.label("method error")
            ctx.nontrivial(True)

    vtime.run(main)


SUBS = [Sub("translate", cases, check, quick=3000, thorough=100000, shards=8, rule="always")]
