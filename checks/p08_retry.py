"""P08: retries are bounded, only for retryable failures, and return the right answer."""
from __future__ import annotations

import copy

from hypothesis import strategies as st

import vtime
from core import Sub, eq, require
from stub import StubTransport
from p04_camera import AUTH, RETRY, of_code

from kasa import AuthenticationError, DeviceError, KasaException
from kasa.exceptions import SmartErrorCode
from kasa.exceptions import TimeoutError as KasaTimeout, _ConnectionError, _RetryableError
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol

LEVEL = "fault_enumeration"
RULE = "Sequences of per-message outcomes against a reference model of the retry contract (virtual time)."
ASSUMPTIONS = ["the transport is replaced by a scripted stand-in that raises what real transports raise (P01-P05)"]

BATCH_BREAKERS = {-1003, 7, -100000}
CODES = sorted(AUTH | RETRY) + [-1003, -1, -1002, -40101, -1008, 7, -987654]
EXCS = ["conn", "timeout", "retry", "auth", "device", "kasa"]


def mk_exc(kind, tag):
    return {
        "conn": lambda: _ConnectionError(f"lost {tag}"),
        "timeout": lambda: KasaTimeout(f"timeout {tag}"),
        "retry": lambda: _RetryableError(f"busy {tag}", error_code=SmartErrorCode.SESSION_TIMEOUT_ERROR),
        "auth": lambda: AuthenticationError(f"auth {tag}"),
        "device": lambda: DeviceError(f"device {tag}", error_code=SmartErrorCode.PARAMS_ERROR),
        "kasa": lambda: KasaException(f"other {tag}"),
    }[kind]()


def classify(ex):
    if isinstance(ex, KasaTimeout):
        return "timeout"
    if isinstance(ex, _ConnectionError):
        return "conn"
    if isinstance(ex, AuthenticationError):
        return "auth"
    if isinstance(ex, _RetryableError):
        return "retry"
    if isinstance(ex, DeviceError):
        return "device"
    return "kasa"


def cases():
    outcome = st.one_of(
        st.just(("ok",)), st.just(("ok",)),
        st.tuples(st.just("exc"), st.sampled_from(EXCS)),
        st.tuples(st.just("exc"), st.sampled_from(["conn", "timeout", "retry"])),
        st.tuples(st.just("exc"), st.sampled_from(["conn", "timeout", "retry"])),
        st.tuples(st.just("code"), st.sampled_from(CODES)),
        st.tuples(st.just("code"), st.sampled_from(sorted(RETRY) + [-1003])),
    )
    return st.fixed_dictionaries({
        "proto": st.sampled_from(["iot", "smart", "smart", "cam"]),
        "form": st.sampled_from(["str", "single", "multi"]),
        "methods": st.integers(2, 7),
        "batch": st.sampled_from([None, 1, 2, 3, 5]),
        "retry": st.one_of(st.none(), st.integers(0, 5)),
        "queries": st.lists(st.lists(outcome, max_size=12), min_size=1, max_size=3),
    })


class Model:
    def __init__(self, case):
        self.case = case
        self.proto = case["proto"]
        self.batch = case["batch"] or 5

    def chunks(self, form, n):
        """Messages of one fault-free attempt, as lists of method indexes."""
        if self.proto == "iot" or form != "multi":
            return [[0]] if self.proto != "cam" or form == "str" or self.batch > 0 else []
        if self.batch == 1:
            return [[i] for i in range(n)]
        return [list(range(i, min(n, i + self.batch))) for i in range(0, n, self.batch)]

    def is_batched(self, form):
        if self.proto == "iot":
            return False
        if self.proto == "cam":
            return form != "str" and self.batch != 1
        return form == "multi" and self.batch != 1

    def query(self, form, n, retry, script):
        """-> (result or failure class, error code or None, number of sends, events between attempts, messages)"""
        script = list(script)
        sends, attempts, msgs = 0, 0, []
        retryable = {"conn", "timeout", "retry"}
        while True:
            attempts += 1
            result, fail, code = {}, None, None
            for ch in self.chunks(form, n):
                o = script.pop(0) if script else ("ok",)
                sends += 1
                msgs.append((attempts, ch, self.is_batched(form)))
                if o[0] == "exc":
                    fail = o[1]
                    break
                if o[0] == "code" and self.proto != "iot":
                    cls, num = of_code(o[1])
                    raises = self.is_batched(form) or form != "multi"
                    if not raises:
                        result[ch[0]] = num
                        continue
                    if self.is_batched(form) and cls == "device" and num in (-1003, -100000):
                        self.batch = 1
                        fail, code = "retry", None
                    else:
                        fail, code = cls, num
                    break
                for m in ch:
                    result[m] = ("ans", sends)
            if fail is None:
                return result, None, sends, attempts, msgs
            if fail not in retryable or attempts > retry:
                return fail, code, sends, attempts, msgs


def check(case, ctx):
    async def main(loop):
        model = Model(case)
        state = {}

        def answer(req):
            state["n"] += 1
            tag = state["n"]
            o = state["script"].pop(0) if state["script"] else ("ok",)
            state["msgs"].append(req)
            if o[0] == "exc":
                raise mk_exc(o[1], tag)
            if case["proto"] == "iot":
                return {"system": {"tag": tag}}
            if o[0] == "code":
                return {"error_code": o[1]}
            m = req["method"]
            if m == "multipleRequest":
                return {"error_code": 0, "result": {"responses": [
                    {"method": r["method"], "error_code": 0, "result": {"tag": tag}}
                    for r in req["params"]["requests"]]}}
            if m == "get" and case["proto"] == "cam":
                return {"error_code": 0, "thing0": {"tag": tag}}
            return {"error_code": 0, "result": {"tag": tag}}

        tr = StubTransport(answer, batch_size=case["batch"])
        proto = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[case["proto"]](transport=tr)
        for qi, script in enumerate(case["queries"]):
            retry = 3 if case["retry"] is None else case["retry"]
            form, n = case["form"], case["methods"]
            names = [f"getThing{i}" for i in range(n)]
            if case["proto"] == "cam":
                request = {"str": names[0], "single": {names[0]: {"m": {"name": 1}}},
                           "multi": {k: {"m": {"name": 1}} for k in names}}[form]
            elif case["proto"] == "iot":
                request = {"str": '{"system": {"get_sysinfo": {}}}', "single": {"system": {"get_sysinfo": {}}},
                           "multi": {"system": {"get_sysinfo": {}}, "b": {"x": {}}}}[form]
            else:
                request = {"str": names[0], "single": {names[0]: {"p": 1}},
                           "multi": {k: {"p": 1} for k in names}}[form]
            state.update(n=0, script=list(script), msgs=[])
            ev0, t0 = len(tr.events), loop.time()
            want, code, sends, attempts, msgs = model.query(form, n, retry, script)
            kw = {} if case["retry"] is None else {"retry_count": retry}
            try:
                got = await proto.query(copy.deepcopy(request), **kw)
                exc = None
            except KasaException as ex:
                got, exc = None, ex
            ev = tr.events[ev0:]
            info = f"query {qi} ({case['proto']}/{form}, retry_count={retry}, {script[:sends]})"
            eq(ev.count("send"), sends, f"{info}: messages sent")
            # resets between attempts
            bounds = [i for i, e in enumerate(ev) if e == "send"]
            for k in range(1, sends):
                if msgs[k][0] != msgs[k - 1][0]:
                    o = script[k - 1] if k - 1 < len(script) else ("ok",)
                    between = ev[bounds[k - 1] + 1: bounds[k]]
                    if o != ("exc", "conn"):
                        require("reset" in between, f"{info}: no reset of the transport before attempt {msgs[k][0]}")
            ctx.label(case["proto"], form, "retried" if attempts > 1 else "first")
            if isinstance(want, str):
                require(exc is not None, f"{info}: returned {got} instead of raising {want}")
                eq(classify(exc), want, f"{info}: failure class ({exc!r})")
                if code is not None:
                    eq(int(exc.error_code) if exc.error_code is not None else None, code, f"{info}: error code")
                if script[sends - 1][0] == "exc" and script[sends - 1][1] != "retry":
                    require(str(sends) in str(exc), f"{info}: not the last failure: {exc}")
                ctx.label("fail-" + want)
            else:
                require(exc is None, f"{info}: raised {exc!r}")
                if case["proto"] == "iot":
                    eq(got, {"system": {"tag": sends}}, f"{info}: answer")
                elif case["proto"] == "cam" and form == "str":
                    eq(got, {names[0]: {"thing0": {"tag": sends}}}, f"{info}: answer")
                else:
                    exp = {names[i]: ({"tag": v[1]} if isinstance(v, tuple) else SmartErrorCode(v))
                           for i, v in want.items()}
                    eq(got, exp, f"{info}: answer")
            require(loop.time() - t0 <= 5 * (retry + 1), f"{info}: took {loop.time() - t0} s")
            ctx.nontrivial(attempts > 1 or isinstance(want, str))
        # nothing left wedged
        state.update(n=0, script=[], msgs=[])
        got = await proto.query("getThing0" if case["proto"] != "iot" else {"system": {}})
        require(got, "no answer after the faults")

    vtime.run(main)


SUBS = [Sub("faults", cases, check, quick=30000, thorough=120000, shards=8,
            rule="a retried or failed query")]
