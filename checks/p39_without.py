"""P39: without its optional packages the library does the same."""
from __future__ import annotations

import importlib.util
import json
import math
import sys

from hypothesis import strategies as st

import p01_xor
import p02_klap
import p03_aes
import p04_camera
import p05_token_linkie
import p10_batching
import p13_iotupdate
import p14_discovery
import p15_discovered
import p16_config
import p19_features
import p20_readback
import p29_appliances
import p31_provisioning
import p32_cli
import env
from core import Sub, eq, fail, judging, require

from kasa import json as plain

OPTIONAL = env.WITHOUT["P39"]
assert all(sys.modules[n] is None for n in OPTIONAL)

LEVEL = "exploration"
RULE = "As for the property each part belongs to; for JSON text: the value holds a container, an escape or a large number."
ASSUMPTIONS = ["made unimportable: orjson, kasa_crypt, mashumaro.mixins.orjson",
               "JSON text that the standard library accepts and the optional one refuses (NaN, repeated keys) is not judged"]


def fast():
    """The same module with the optional package."""
    saved = {n: sys.modules.pop(n) for n in OPTIONAL}
    try:
        spec = importlib.util.spec_from_file_location("kasa._verif_fast_json", plain.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod
    finally:
        for n in OPTIONAL:
            sys.modules.pop(n, None)
        sys.modules.update(saved)


FAST = fast()

TEXT = st.text(st.characters(exclude_categories=["Cs"]), max_size=12)
NUMBER = st.integers(-2**53, 2**53) | st.floats(allow_nan=False, allow_infinity=False)
VALUE = st.recursive(st.none() | st.booleans() | NUMBER | TEXT,
                     lambda c: st.lists(c, max_size=4) | st.dictionaries(TEXT, c, max_size=4), max_leaves=20)


def json_cases():
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("value"), "value": VALUE, "indent": st.booleans(), "bytes": st.booleans()}),
        st.fixed_dictionaries({"kind": st.just("text"), "value": VALUE, "cut": st.integers(0, 80),
                               "put": st.sampled_from(["", "x", "}", "]", ",", '"', "\\", "\x00", "'", "0", " ", "\n"])}))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def load(mod, text):
    try:
        return True, mod.loads(text)
    except ValueError:
        return False, None
    except Exception as ex:  # noqa: BLE001
        fail(f"loads of {text!r} raised {type(ex).__name__}: {ex}")


def json_check(case, ctx):
    v = case["value"]
    with judging("dumps"):
        text = plain.dumps(v, indent=case.get("indent", False))
    require(isinstance(text, str), "text", text)
    if case["kind"] == "value":
        other = FAST.dumps(v, indent=case["indent"])
        for t in (text, other):
            ok, got = load(plain, t.encode() if case["bytes"] else t)
            require(ok and same(got, v), f"{t!r} reads back as {got!r}, not {v!r}")
        got = FAST.loads(text)
        require(same(got, v), f"{text!r} means {got!r} to others, not {v!r}")
        body = json.dumps(v)
        if body.isascii() and "\\" not in body and "e" not in body.replace("true", "").replace("false", "") \
                and not case["indent"]:
            eq(text, other, "text written")       # its length is announced to devices
            ctx.label("same text")
        if case["indent"] and isinstance(v, dict | list) and v:
            require("\n" in text, "indented text is on one line", text)
        ctx.nontrivial(isinstance(v, dict | list) and bool(v) or not body.isascii() or "\\" in body)
        return
    text = text[:case["cut"]] + case["put"] + text[case["cut"] + 1:]
    ok, got = load(FAST, text)
    ok2, got2 = load(plain, text)
    if ok:
        require(ok2 and same(got, got2), f"{text!r} reads as {got2!r}, not {got!r}")
    ctx.label("readable" if ok else "malformed")
    ctx.nontrivial()


def others():
    wanted = [
        (p01_xor, {"codec": 2000, "history": 800}), (p02_klap, {"history": 600}), (p03_aes, {"history": 600}),
        (p04_camera, {"history": 600}), (p05_token_linkie, {"token": 500, "linkie": 500}), (p10_batching, {"union": 1500}),
        (p13_iotupdate, {"update": 1000}), (p14_discovery, {"datagrams": 1500}), (p15_discovered, {"answers": 1500}),
        (p16_config, {"roundtrip": 3000, "malformed": 1500}), (p19_features, {"iot": 600, "smart": 600}),
        (p20_readback, {"iot": 600, "smart": 600}), (p29_appliances, {"cam": 60}),
        (p31_provisioning, {"smart": 400, "iot": 400, "names": 300}), (p32_cli, {"commands": 1200}),
    ]
    for mod, names in wanted:
        for sub in mod.SUBS:
            if n := names.get(sub.name):
                yield Sub(f"{mod.__name__.split('_')[0]}-{sub.name}", sub.strategy, sub.check, quick=n,
                          thorough=min(sub.thorough, 10 * n), shards=1, tshards=2, rule=sub.rule,
                          cases=sub.cases, case_timeout=sub.case_timeout)


SUBS = [Sub("json", json_cases, json_check, quick=4000, thorough=100000, rule="a container or an escape"), *others()]
