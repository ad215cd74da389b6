"""P17: redacted debug output never contains the sensitive values it must hide."""
from __future__ import annotations

import asyncio
import copy
import json

from hypothesis import strategies as st

import disco
import gen
import iotsim
import p06_credhash as p06
import smartsim
import taint
import vtime
from core import Sub, eq, fail, require
from net import FakeSession, HttpNet, Net
from stub import StubTransport
from taint import B64, DECRYPTED, DISCOVERY, IDS, IOT, MAC, NUM, SMART, TEXT

from kasa import Credentials, Discover, KasaException
from kasa.discover import DECRYPTED_REDACTORS, NEW_DISCOVERY_REDACTORS
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.protocols.iotprotocol import REDACTORS as IOT_REDACTORS
from kasa.protocols.protocol import redact_data
from kasa.protocols.smartprotocol import REDACTORS as SMART_REDACTORS

LEVEL = "exploration"
RULE = "Generated device data with unique values under every listed key, at any depth; all log output scanned."
ASSUMPTIONS = ["the listed keys are those of the library's tables at the pinned commit",
               "identifiers keep their tail and MAC addresses their vendor part by design",
               "answers that cannot be decoded are logged as received"]
TABLES = {"iot": (IOT, IOT_REDACTORS), "smart": (SMART, SMART_REDACTORS),
          "discovery": (DISCOVERY, NEW_DISCOVERY_REDACTORS), "decrypted": (DECRYPTED, DECRYPTED_REDACTORS)}
HIDDEN_WHOLE = {"iot": {"children"}, "smart": {"area_list"}, "discovery": {"encrypt_info", "decrypted_data"},
                "decrypted": set()}
SPECIAL = {"iot": set(), "smart": {"ip", "local_ip"}, "discovery": {"ip"}, "decrypted": set()}
PLAIN = ["relay_state", "model", "err_code", "result", "get_sysinfo", "data", "list", "mac_list", "aliases",
         "device", "DeviceId", "MAC", "x", "ids"]


# ------------------------------------------------------------------ redact_data itself
def structures(table):
    keys = sorted(TABLES[table][0])
    leaf = st.one_of(gen.SCALAR, st.text("0123456789ABCDEF", min_size=1, max_size=40),
                     st.sampled_from(["50C7BF000000", "50:C7:BF:01:02:03", "50-C7-BF-01-02-03", "", 0, 0.0, -1]))

    def layer(ch):
        kv = st.one_of(st.sampled_from(keys), st.sampled_from(keys), st.sampled_from(PLAIN))
        return st.one_of(st.dictionaries(kv, ch, max_size=5), st.lists(ch, max_size=4))
    return st.recursive(leaf, layer, max_leaves=25)


def unit_cases():
    return st.sampled_from(sorted(TABLES)).flatmap(lambda t: st.fixed_dictionaries({
        "table": st.just(t), "data": structures(t), "children": st.lists(st.fixed_dictionaries({
            "id": st.text("0123456789ABCDEF", min_size=1, max_size=30), "alias": gen.TEXT,
            "state": st.integers(0, 1)}), max_size=4),
        "wrap": st.sampled_from(["dict", "list", "none"])}))


def compare(a, b, table, path=""):
    """a: what the device said; b: what would be logged."""
    if isinstance(a, dict):
        require(isinstance(b, dict), f"redaction changed the type of {path}", b)
        eq(list(b), list(a), f"keys of {path} after redaction")
        for k, v in a.items():
            w = b[k]
            p = f"{path}/{k}"
            kind = table.get(k)
            if kind is None:
                compare(v, w, table, p)
            elif v is None or v == "" and isinstance(v, str):
                eq(w, v, f"empty value {p}")
            else:
                hidden(kind, v, w, p)
    elif isinstance(a, list):
        require(isinstance(b, list) and len(b) == len(a), f"redaction changed list {path}", a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, table, f"{path}[{i}]")
    else:
        require(type(a) is type(b) and (a == b), f"redaction changed the ordinary value {path}", a, b)


def hidden(kind, v, w, p):
    if isinstance(v, str) and kind == MAC and len(v) in (12, 17):
        tail = v[6:] if len(v) == 12 else v[9:]
        blank = {"000000", "00:00:00", "00-00-00"}
        require(isinstance(w, str) and not (tail not in blank and w.endswith(tail)), f"{p} not masked", v, w)
        return
    if isinstance(v, str) and kind == MAC:
        return                                     # not a MAC address
    if isinstance(v, str) and kind == IDS:
        require(isinstance(w, str), f"{p} not masked", v, w)
        if len(v) > 9:
            require(v not in w and v[8:] not in w.removeprefix("REDACTED_"), f"{p} not masked", v, w)
        else:
            require(not w.removeprefix("REDACTED_") or v not in w.removeprefix("REDACTED_"), f"{p} not masked", v, w)
        return
    if isinstance(v, str):
        if any(c.isalnum() and c != "0" for c in v) and len(v) > 2:
            require(v not in repr(w) or v in "**REDACTED** #MASKED_NAME# #MASKED_SSID# user@example.com I01BU0tFRF9OQU1FIw==",
                    f"{p} not masked", v, w)
        return
    if isinstance(v, dict | list):
        if v and not all(not x for x in (v.values() if isinstance(v, dict) else v)):
            require(w != v, f"{p} not masked", v, w)
        return
    if v not in (0, False, True) and v == v:
        require(w != v, f"{p} not masked", v, w)


def check_unit(case, ctx):
    table, redactors = TABLES[case["table"]]
    data = copy.deepcopy(case["data"])
    kids = None
    if case["wrap"] == "dict":
        data = {"wrapped": data}
        if case["table"] == "iot" and case["children"]:
            data["children"] = kids = copy.deepcopy(case["children"])
        elif case["table"] == "smart" and case["children"]:
            data["area_list"] = kids = [{"name": c["alias"], "type": c["state"]} for c in case["children"]]
        elif case["table"] == "discovery" and case["children"]:
            data["encrypt_info"] = {"sym_schm": "AES", "key": case["children"][0]["id"], "data": case["children"][0]["alias"]}
    elif case["wrap"] == "list":
        data = [data, data]
    before = copy.deepcopy(data)
    try:
        out = redact_data(data, redactors)
    except Exception as ex:  # noqa: BLE001
        fail(f"redaction raised {ex!r} for {before!r}")
    require(repr(data) == repr(before), "redaction changed the caller's data", before, data)
    if not isinstance(data, dict | list):
        return
    n = json.dumps(data, default=repr)
    ctx.nontrivial(any(f'"{k}"' in n for k in table))
    if isinstance(out, dict) and case["wrap"] == "dict":
        for key in ("children", "area_list"):
            if key in data:
                got = out.pop(key)
                data.pop(key)
                require(isinstance(got, list) and len(got) == len(kids), "number of list entries after redaction", got)
                for c, g in zip(kids, got):
                    for f in ("id", "alias", "name"):
                        if c.get(f):
                            require(g[f] != c[f], f"{key}/{f} not masked", g)
                    for f in ("state", "type"):
                        if f in c:
                            eq(g[f], c[f], f"{key}/{f}")
        if "encrypt_info" in data:
            e, g = data.pop("encrypt_info"), out.pop("encrypt_info")
            require(not e["key"] or g["key"] != e["key"], "encrypt_info/key not masked", g)
            require(not e["data"] or g["data"] != e["data"], "encrypt_info/data not masked", g)
            eq(g["sym_schm"], "AES", "encrypt_info/sym_schm")
    compare(data, out, table)


# ------------------------------------------------------------------ queries
def shaped(keys):
    """JSON whose sensitive leaves are realistic."""
    names = sorted(keys)
    leaf = st.one_of(st.integers(-5, 100), st.booleans(), st.none(), st.sampled_from(["", "on", "HS100"]))

    def sens(k):
        kind = keys[k]
        if kind == NUM:
            return st.one_of(st.integers(1, 99), st.floats(1, 80))
        if kind == MAC:
            return st.sampled_from(["50C7BF000001", "50:C7:BF:01:02:03", "50-C7-BF-01-02-03"])
        return st.text("ABCDEF0123456789", min_size=1, max_size=40)

    def layer(ch):
        pair = st.one_of(st.sampled_from(names).flatmap(lambda k: st.tuples(st.just(k), sens(k))),
                         st.sampled_from(names).flatmap(lambda k: st.tuples(st.just(k), sens(k))),
                         st.tuples(st.sampled_from(PLAIN), ch))
        return st.one_of(st.lists(pair, min_size=1, max_size=6).map(lambda x: dict(reversed(x))),
                         st.lists(ch, max_size=3))
    return st.recursive(leaf, layer, max_leaves=12)


def obj(keys):
    return st.dictionaries(st.sampled_from(["info", "extra", "list"]), shaped(keys), min_size=1, max_size=2)


ERR = [0, 0, 0, 0, 0, -1002, -1008, -40401, 1, -123456, -1101]


def query_cases():
    return st.sampled_from(["iot", "smart", "smart", "cam", "cam"]).flatmap(lambda p: st.fixed_dictionaries({
        "proto": st.just(p), "seed": st.integers(0, 10**6),
        "answers": st.lists(st.fixed_dictionaries({
            "data": obj(IOT if p == "iot" else SMART), "err": st.sampled_from(ERR),
            "nomethod": st.sampled_from([False] * 5 + [True])}), min_size=1, max_size=7),
        "outer": st.sampled_from(ERR), "batch": st.sampled_from([None, None, 1, 2, 3]),
        "kind": st.sampled_from(["name", "name", "low"]),
        "drop": st.booleans()}))


def check_query(case, ctx):
    t = taint.Taint(case["seed"])
    p = case["proto"]
    names = [f"get_thing_{i}" if p == "smart" else f"getThing{i}" for i in range(len(case["answers"]))]
    results = [t.plant(copy.deepcopy(a["data"]), IOT if p == "iot" else SMART) for a in case["answers"]]
    by_name = dict(zip(names, zip(case["answers"], results)))
    broken = set()

    def one(name):
        a, res = by_name[name]
        r = {"method": name, "error_code": a["err"]}
        if a["err"] == 0:
            r["result"] = copy.deepcopy(res)
        if a["nomethod"] and name not in broken:
            broken.add(name)
            r.pop("method")
        return r

    def answer(req):
        if p == "iot":
            return {"system": copy.deepcopy(results[0]), "err_code": case["outer"]}
        if req["method"] == "multipleRequest":
            out = {"error_code": case["outer"], "result": {"responses": [one(r["method"]) for r in req["params"]["requests"]]}}
            if case["drop"] and len(out["result"]["responses"]) > 1:
                out["result"]["responses"].pop()
            return out
        if req["method"] in ("get", "set", "do"):
            return {"thing": copy.deepcopy(results[0]), "error_code": case["outer"]}
        return one(req["method"])

    async def main(loop):
        tr = StubTransport(answer, batch_size=case["batch"])
        if p == "iot":
            proto, req = IotProtocol(transport=tr), {"system": {"get_sysinfo": None}}
        elif p == "smart":
            proto, req = SmartProtocol(transport=tr), {n: None for n in names}
            if len(names) == 1 and case["kind"] == "name":
                req = names[0]
        else:
            proto = SmartCamProtocol(transport=tr)
            req = {"get": {"thing": {"name": ["info"]}}} if case["kind"] == "low" else {n: {"thing": {}} for n in names}
            if len(names) == 1 and case["kind"] == "name":
                req = names[0]
        with taint.captured() as lines:
            res = None
            try:
                res = await proto.query(copy.deepcopy(req), retry_count=1)
            except KasaException:
                ctx.label("error")
        scan(t, lines)
        if res is not None:
            ctx.nontrivial(bool(t.marks))
            if p == "iot":
                eq(res, {"system": results[0], "err_code": case["outer"]}, "answer given to the caller")
            else:
                for n in names:
                    if n in res and by_name[n][0]["err"] == 0 and isinstance(res[n], dict) and req != {"get": None}:
                        got = res[n]
                        if p == "cam" and len(tr.sent) == 1 and tr.sent[0]["method"] != "multipleRequest":
                            continue
                        eq(got, by_name[n][1], f"answer of {n} given to the caller")
                if "thing" in res:
                    eq(res["thing"], results[0], "answer given to the caller")

    vtime.run(main)


def scan(t, lines, skip=lambda text, template, key: False):
    for template, text in lines:
        for mark, (key, val) in t.marks.items():
            if mark in text and not skip(text, template, key):
                fail(f"{key} value {val!r} shows in the log: {text[:400]!r}")


# ------------------------------------------------------------------ whole updates
def update_cases():
    return st.fixed_dictionaries({
        "name": st.sampled_from(sorted(iotsim.fixtures()) + smartsim.all_names() * 2),
        "seed": st.integers(0, 10**6), "kids": st.lists(st.sampled_from(sorted(smartsim.child_fixtures())), max_size=3),
        "odd": st.sampled_from(["", "", "nocomp", "noid", "category"]), "gone": st.booleans()})


def check_update(case, ctx):
    t = taint.Taint(case["seed"])
    name = case["name"]
    iot = name in iotsim.fixtures()

    async def main(loop):
        if iot:
            fix = t.plant(copy.deepcopy(iotsim.fixtures()[name]), IOT)
            sim = iotsim.IotSim(fixture=fix)
            dev, tr = iotsim.make(sim)
        else:
            fix = t.plant(copy.deepcopy(smartsim.any_fixture(name)), SMART)
            hub = smartsim.is_hub(name)
            sim = smartsim.SmartSim(name, fixture=fix, children=case["kids"] if hub and case["kids"] else None)
            for i, kid in enumerate(sim.kids.values()):
                t.plant(kid.info, {k: v for k, v in SMART.items() if k not in ("device_id", "parent_device_id")})
                t.plant(kid.methods, {k: v for k, v in SMART.items() if k not in ("device_id", "parent_device_id")})
                ctx.label("children")
                if case["odd"] == "category" and i == 0:
                    kid.info["category"] = "subg.unheard.of"
                if case["odd"] == "nocomp" and i == 0:
                    sim.no_components.add(kid.id)
            if hub and case["odd"] == "noid":
                sim.extra[[k for k in smartsim.CHILD_LISTS if ("get_" in k) != smartsim.is_cam(name)][0]] = [
                    {"nickname": t.put("nickname", B64, "odd"), "mac": t.put("mac", MAC, "001122334455")}]
            dev, tr = smartsim.make(sim)
        with taint.captured() as lines:
            try:
                await dev.update()
                await asyncio.sleep(100)
                if case["gone"] and not iot and sim.kids:
                    sim.remove_child(next(iter(sim.kids)))
                await dev.update()
            except KasaException as ex:
                ctx.label(type(ex).__name__)
        ctx.nontrivial(len(t.marks) > 3)
        # requests name the child they are for
        scan(t, lines, skip=lambda text, template, key: key in ("deviceId", "device_id") and (
            ">>" in template or "'child_ids'" in text))

    vtime.run(main)


# ------------------------------------------------------------------ discovery
def disco_cases():
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10**6),
        "what": st.one_of(st.tuples(st.just("legacy"), st.sampled_from(disco.legacy_names())),
                          st.tuples(st.just("new"), st.sampled_from(disco.new_names()))),
        "spoil": st.sampled_from(["", "", "", "type", "enc", "noschm", "nofield", "noresult", "emptysys"]),
        "secret": st.booleans(),
        "mode": st.sampled_from(["discover", "single"])})


def check_disco(case, ctx):
    t = taint.Taint(case["seed"])
    kind, name = case["what"]
    spoil = case["spoil"]
    net = Net()
    if kind == "legacy":
        info = t.plant(disco.legacy_info(name, "a" * 40), IOT)
        s = next(iter(info["system"].values()))
        if spoil == "type":
            s["type" if "type" in s else "mic_type"] = "IOT.TOASTER"
        elif spoil == "nofield":
            s.pop("type", None)
            s.pop("mic_type", None)
        elif spoil == "emptysys":
            info = {"system": {"other": s}}
        elif spoil == "noresult":
            info = {"sys": info["system"]}
        port, data = 9999, disco.legacy_packet(info)
    else:
        r = disco.new_result(name, "a" * 40)
        if case["secret"]:
            r["owner"], r["group_name"], r["device_name"] = "own", "grp", "dev"
            r["group_id"], r["master_device_id"] = "g", "m"
        t.plant(r, DISCOVERY)
        if spoil == "type":
            r["device_type"] = "SMART.TOASTER"
        elif spoil == "enc":
            r["mgt_encrypt_schm"] = {**(r.get("mgt_encrypt_schm") or {}), "encrypt_type": "ROT13"}
        elif spoil == "noschm":
            r.pop("mgt_encrypt_schm", None)
        elif spoil == "nofield":
            r.pop("device_type", None)
        info = {"error_code": 0, "result": r}
        if spoil == "noresult":
            info = {"error_code": 0, "answer": r}
        port, data = 20002, None

    sent = []

    def respond(d, addr):
        if sent:
            return
        if kind == "new":
            if addr[1] != 20002:
                return
            if case["secret"] and "encrypt_info" not in r:
                plain = t.plant({"connect_ssid": "home", "device_id": "a" * 40, "owner": "own", "connect_type": "wireless"},
                                DECRYPTED)
                r["encrypt_info"] = disco.encrypt_info(disco.public_key(d), plain)
                t.marks[r["encrypt_info"]["key"]] = ("encrypt_info", "key")
            body = disco.new_packet(info)
        else:
            body = data
        sent.append(1)
        loop = asyncio.get_running_loop()
        loop.call_later(0.1, lambda: [u.deliver(body, ("10.0.0.2", port)) for u in net.udp])

    async def main(loop):
        net.udp_on_send = lambda udp, d, addr: respond(d, addr)
        with taint.captured() as lines:
            try:
                if case["mode"] == "single":
                    await Discover.discover_single("10.0.0.2", discovery_timeout=2)
                else:
                    await Discover.discover(target="10.0.0.2", discovery_timeout=2)
            except KasaException as ex:
                ctx.label(type(ex).__name__)
        require(sent, "HARNESS: nothing was answered")
        ctx.nontrivial(True)
        ctx.label(kind + ":" + spoil)
        scan(t, lines)

    vtime.run(main, net=net)


# ------------------------------------------------------------------ passwords
def login_cases():
    word = st.text("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789#!", min_size=10, max_size=30)
    return st.fixed_dictionaries({
        "kind": st.sampled_from([k for k in p06.KINDS if k != "linkie"]), "user": word, "password": word,
        "dev": st.sampled_from(["same", "same", "upper", "default-tapo", "admin-user", "trunc"]),
        "hash": st.booleans(), "seed": st.integers(0, 2**32), "twice": st.booleans()})


def check_login(case, ctx):
    kind = case["kind"]
    creds = (case["user"] + "@m.org", "Pq#" + case["password"])
    srv = p06.server(kind, p06.perturb(creds, case["dev"]), case["seed"], None)
    http = HttpNet(srv)
    secrets = taint.secrets_of(*creds)

    def cfg(**kw):
        fam, enc, lv, https = p06.FAMILY[kind]
        c = p06.DeviceConfig(p06.HOST, connection_type=p06.DeviceConnectionParameters(fam, enc, lv, https), **kw)
        c.http_client = FakeSession(http)
        if kind.startswith("aes"):
            c.aes_keys = p06.KEYS[0]
        return c

    async def main(loop):
        c = cfg(credentials=Credentials(*creds))
        h = p06.CLASSES[kind](config=c).credentials_hash
        if h:
            secrets[h] = "credentials hash"
        if case["hash"]:
            c = cfg(credentials_hash=h)
        with taint.captured() as lines:
            proto = p06.get_protocol(c)
            for n in range(2 if case["twice"] else 1):
                try:
                    await proto.query({"system": {"get_sysinfo": None}} if kind == "klap1" else {"get_thing": None},
                                      retry_count=1)
                    ctx.label("logged in")
                    ctx.nontrivial(True)
                except KasaException as ex:
                    ctx.label(type(ex).__name__)
                if n == 0:
                    await asyncio.sleep(90000)
            await proto.close()
        for template, text in lines:
            for s, what in secrets.items():
                if s in text:
                    fail(f"{what} shows in the log: {text[:400]!r}")

    vtime.run(main, net=None)


SUBS = [
    Sub("redactdata", unit_cases, check_unit, quick=3000, thorough=60000, shards=2, tshards=4),
    Sub("query", query_cases, check_query, quick=1000, thorough=12000, shards=2, tshards=4),
    Sub("update", update_cases, check_update, quick=320, thorough=4000, shards=4, tshards=8),
    Sub("discovery", disco_cases, check_disco, quick=600, thorough=6000, shards=2, tshards=4),
    Sub("login", login_cases, check_login, quick=300, thorough=4000, shards=4, tshards=8),
]
