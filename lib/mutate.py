"""Structural mutation of JSON values driven by plain integers."""
from __future__ import annotations

import copy

from hypothesis import strategies as st

from gen import json_value

WEIRD = st.one_of(
    st.sampled_from([None, True, False, 0, 1, -1, 9999, -1501, 7, -987654, 1.5, "", "0", "-1501", "abc", [], {}, [[]],
                     [None], {"a": 1}, 2**70, -40413, -40401, "é", [1, 2], {"result": {}}, {"code": -40413},
                     {"error_code": 0}, {"error_code": -1}]),
    json_value(4),
)

MUT = st.one_of(
    st.tuples(st.just("drop"), st.integers(0, 40)),
    st.tuples(st.just("set"), st.integers(0, 40), WEIRD),
    st.tuples(st.just("key"), st.sampled_from(["error_code", "result", "responses", "responseData", "method",
                                               "response_data", "token", "key", "response", "stok", "start_seq",
                                               "data", "code", "nonce", "device_confirm", "start_index", "sum"]), WEIRD),
    st.tuples(st.just("dup"), st.integers(0, 40)),
    st.tuples(st.just("root"), WEIRD),
)


def paths(x, p=()):
    out = [p]
    if isinstance(x, dict):
        for k in x:
            out += paths(x[k], p + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += paths(v, p + (i,))
    return out


def get(x, p):
    for k in p:
        x = x[k]
    return x


def mutate(obj, mut):
    """-> (mutated copy, changed?)"""
    obj = copy.deepcopy(obj)
    if mut[0] == "root":
        return mut[1], True
    if mut[0] == "key":
        for p in paths(obj):
            if p and p[-1] == mut[1]:
                get(obj, p[:-1])[p[-1]] = mut[2]
                return obj, True
        if isinstance(obj, dict):
            obj[mut[1]] = mut[2]
            return obj, True
        return obj, False
    ps = [p for p in paths(obj) if p]
    if not ps:
        return obj, False
    p = ps[mut[1] % len(ps)]
    parent = get(obj, p[:-1])
    if mut[0] == "drop":
        del parent[p[-1]]
    elif mut[0] == "set":
        parent[p[-1]] = mut[2]
    elif mut[0] == "dup":
        if isinstance(parent, list):
            parent.insert(p[-1], copy.deepcopy(parent[p[-1]]))
        else:
            parent["x" + str(p[-1])] = parent[p[-1]]
    return obj, True
