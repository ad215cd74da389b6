"""P10: SMART batching and list paging are transparent."""
from __future__ import annotations

import copy
import math

from hypothesis import strategies as st

import gen
import vtime
from core import Sub, eq, require
from stub import StubTransport
from p04_camera import AUTH, RETRY, of_code

from kasa import DeviceError, KasaException
from kasa.exceptions import SmartErrorCode
from kasa.protocols import SmartCamProtocol, SmartProtocol

LEVEL = "exploration"
RULE = "Random method sets against a device model; the query result must be the union of the device's own answers."
ASSUMPTIONS = ["transport replaced by a stand-in", "device model: pages, errors, stop-after-error, methods without "
               "a method key in batches, firmware that cannot parse batches"]
CODES = sorted(AUTH | RETRY) + [-1, -1002, -1003, -1008, -40101, 7, -987654]
SINGLE_ONLY = ["getConnectStatus", "scanApList"]


def methods():
    val = st.one_of(
        st.tuples(st.just("value"), gen.json_object(5)),
        st.tuples(st.just("value"), gen.json_object(5)),
        st.tuples(st.just("set")),
        st.tuples(st.just("err"), st.sampled_from(CODES)),
        st.tuples(st.just("list"), st.sampled_from(["rules", "device_list", "ap_list"]), st.integers(0, 23),
                  st.one_of(st.integers(1, 9).map(lambda n: (n,)),
                            st.lists(st.integers(1, 6), min_size=2, max_size=4).map(tuple)),
                  st.sampled_from([0, 0, 0, 3]), st.booleans()),
        st.tuples(st.just("list"), st.sampled_from(["rules", "device_list", "ap_list"]), st.integers(0, 23),
                  st.one_of(st.integers(1, 9).map(lambda n: (n,)),
                            st.lists(st.integers(1, 6), min_size=2, max_size=4).map(tuple)),
                  st.sampled_from([0, 0, 0, 3]), st.booleans()),
        st.tuples(st.just("plainlist"), st.integers(0, 6)),
    )
    return st.fixed_dictionaries({
        "kind": val, "params": st.one_of(st.none(), st.just({}), gen.json_object(3)),
        "pagefail": st.sampled_from([None] * 8 + [-1, -1008, -40101]),
        "nokey": st.sampled_from([False, False, False, False, True]),
    })


def cases():
    return st.fixed_dictionaries({
        "proto": st.sampled_from(["smart", "smart", "cam"]),
        "batch": st.sampled_from([None, None, 1, 2, 3, 4, 5, 10]),
        "methods": st.lists(methods(), min_size=1, max_size=13),
        "single_only": st.lists(st.sampled_from(SINGLE_ONLY), max_size=2, unique=True),
        "single_pos": st.integers(0, 13),
        "stop": st.booleans(),
        "broken_batch": st.sampled_from([None] * 6 + [-1003, -987654]),
        "twice": st.booleans(),
    })


def starts(kind):
    """Start index of every page that holds items."""
    out, pos = [], 0
    while pos < kind[2]:
        out.append(pos)
        pos += kind[3][(len(out) - 1) % len(kind[3])]
    return out


def page_size(kind, start):
    at = starts(kind)
    return kind[3][at.index(start) % len(kind[3])] if start in at else kind[3][0]


class Model:
    def __init__(self, case):
        self.case = case
        self.m = {}
        names = [f"getThing{i}" for i in range(len(case["methods"]))]
        for n, d in zip(names, case["methods"]):
            self.m[n] = d
        so = [(n, {"kind": ("value", {"ap": n}), "params": None, "pagefail": None, "nokey": False})
              for n in case["single_only"]]
        items = list(self.m.items())
        p = min(case["single_pos"], len(items))
        self.m = dict(items[:p] + so + items[p:])
        self.problems = []
        self.count = {"batch": 0, "single": 0}
        self.limit = case["batch"] or 5

    def items(self, name, kind):
        return [{"id": f"{name}-{i}", "v": i} for i in range(kind[2])]

    def params_of(self, name):
        d = self.m[name]
        cam = self.case["proto"] == "cam"
        if d["kind"][0] == "list":
            if d["kind"][5] and not cam:
                return None
            return {"mod": {"start_index": 0}} if cam else {"start_index": 0}
        if cam:
            return {"mod": d["params"] or {}}
        return d["params"]

    def answer_one(self, name, params):
        """Own answer of the device for one method: (code, result)"""
        if name not in self.m:
            self.problems.append(f"unknown method {name}")
            return -1002, None
        d = self.m[name]
        kind = d["kind"]
        if kind[0] == "list":
            if self.case["proto"] == "cam":
                if not isinstance(params, dict) or list(params) != ["mod"]:
                    self.problems.append(f"list request of {name} with params {params}")
                    return -1008, None
                params = params["mod"]
            start = (params or {}).get("start_index", 0)
            if start and d["pagefail"]:
                return d["pagefail"], None
            items = self.items(name, kind)
            return 0, {kind[1]: items[start:start + page_size(kind, start)], "start_index": start,
                       "sum": kind[2] + kind[4], "extra": name}
        want = self.params_of(name) or None
        if (params or None) != want:
            self.problems.append(f"{name} arrived with params {params}, expected {want}")
        if kind[0] == "err":
            return kind[1], None
        if kind[0] == "set":
            return 0, None
        if kind[0] == "plainlist":
            return 0, {"list": list(range(kind[1])), "n": name}
        return 0, kind[1]

    def expected(self, name):
        d = self.m[name]
        kind = d["kind"]
        if kind[0] == "list":
            items = self.items(name, kind)
            first = min(kind[2], kind[3][0])
            if d["pagefail"] and first and kind[2] + kind[4] > first:
                return ("pagefail", d["pagefail"])
            return {kind[1]: items, "start_index": 0, "sum": kind[2] + kind[4], "extra": name}
        if kind[0] == "err":
            return SmartErrorCode(of_code(kind[1])[1])
        if kind[0] == "set":
            return None
        if kind[0] == "plainlist":
            return {"list": list(range(kind[1])), "n": name}
        return kind[1]

    @staticmethod
    def reply(code, result):
        r = {"error_code": code}
        if result is not None:
            r["result"] = copy.deepcopy(result)
        return r

    def __call__(self, req):
        if req.get("method") != "multipleRequest":
            self.count["single"] += 1
            return self.reply(*self.answer_one(req["method"], req.get("params")))
        self.count["batch"] += 1
        reqs = req["params"]["requests"]
        if not reqs:
            self.problems.append("empty multipleRequest")
        if len(reqs) > self.limit:
            self.problems.append(f"batch of {len(reqs)} requests, limit {self.limit}")
        for r in reqs:
            if r["method"] in SINGLE_ONLY:
                self.problems.append(f"{r['method']} was sent in a batch")
        if self.limit == 1 and self.case["proto"] == "smart":
            self.problems.append("batch sent although batches are disabled")
        if self.case["broken_batch"] is not None:
            return {"error_code": self.case["broken_batch"]}
        out = []
        for r in reqs:
            code, result = self.answer_one(r["method"], r.get("params"))
            a = self.reply(code, result)
            if not (self.m.get(r["method"], {}).get("nokey")):
                a = {"method": r["method"], **a}
            out.append(a)
            if code != 0 and self.case["stop"]:
                break
        return {"error_code": 0, "result": {"responses": out}}


def check(case, ctx):
    async def main(loop):
        model = Model(case)
        cam = case["proto"] == "cam"
        tr = StubTransport(model, batch_size=case["batch"])
        proto = (SmartCamProtocol if cam else SmartProtocol)(transport=tr)
        single = len(model.m) == 1
        request = {n: model.params_of(n) for n in model.m}
        want = {n: model.expected(n) for n in model.m}
        fails = [v[1] for v in want.values() if isinstance(v, tuple)]
        for rnd in range(2 if case["twice"] else 1):
            model.count = {"batch": 0, "single": 0}
            req = copy.deepcopy(request)
            try:
                got = await proto.query(req, retry_count=1)
                exc = None
            except KasaException as ex:
                got, exc = None, ex
            require(not model.problems, f"round {rnd}: device saw", *model.problems[:3])
            eq(req, request, f"round {rnd}: the caller's request object")
            ctx.label(case["proto"], f"batch={case['batch'] or 5}")
            if single and isinstance(next(iter(want.values())), SmartErrorCode) or (
                    single and isinstance(next(iter(want.values())), tuple)):
                v = next(iter(want.values()))
                require(isinstance(exc, DeviceError) or (exc is not None and exc.error_code is not None),
                        f"round {rnd}: error {v!r} of a single request was not raised: {got} {exc!r}")
                code = v[1] if isinstance(v, tuple) else int(v)
                eq(int(exc.error_code), code, f"round {rnd}: error code raised")
                ctx.label("single-error")
                ctx.nontrivial()
                continue
            if fails:
                ctx.label("page-failure")
                if exc is not None:
                    require(getattr(exc, "error_code", None) is not None and int(exc.error_code) in fails,
                            f"round {rnd}: {exc!r} raised for page errors {fails}")
                else:
                    for n, v in want.items():
                        if isinstance(v, tuple):
                            eq(got.get(n), SmartErrorCode(v[1]), f"round {rnd}: partial list returned for {n}")
                ctx.nontrivial()
                continue
            require(exc is None, f"round {rnd}: raised {exc!r}")
            eq(set(got), set(want), f"round {rnd}: methods in the result")
            for n in want:
                eq(got[n], want[n], f"round {rnd}: result of {n}")
            # ---- number of messages
            n_batched = len([n for n in model.m if n not in SINGLE_ONLY])
            pages = 0
            for n, d in model.m.items():
                k = d["kind"]
                if k[0] == "list":
                    # one message per further page, and one more to learn that there are no more items
                    more = max(0, len(starts(k)) - 1) + (1 if k[4] else 0)
                    pages += 2 * (more + 1) if d["nokey"] else more
            size = model.limit if not (single and not cam) else 1
            disabled = case["broken_batch"] is not None
            singles = len(case["single_only"])
            extra = sum(1 for d in model.m.values() if d["nokey"])
            if case["stop"] and any(d["kind"][0] == "err" for d in model.m.values()):
                extra = n_batched
            if disabled or size == 1:
                allowed = n_batched + singles + pages + (1 if disabled else 0)
            else:
                allowed = math.ceil(n_batched / size) + singles + extra + pages
            total = sum(model.count.values())
            require(total <= allowed, f"round {rnd}: {total} messages ({model.count}), {allowed} would do")
            ctx.nontrivial(len(want) > size or pages > 0 or any(isinstance(v, SmartErrorCode) for v in want.values()))
            ctx.label("pages" if pages else "no-pages")

    vtime.run(main)


SUBS = [Sub("union", cases, check, quick=15000, thorough=100000, shards=8,
            rule="more than one batch, a paged list, or a method error")]
