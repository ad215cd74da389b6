"""P37: the fixtures the dump tool writes hide who and where, and hold the rest as the device said it."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import logging
import os
import re
import shutil
import sys
import tempfile
from unittest import mock

from hypothesis import strategies as st

import disco
import iotsim
import smartsim
import taint
import vtime
from core import Sub, eq, fail, judging, require
from taint import B64, DECRYPTED, DISCOVERY, IDS, IOT, MAC, SMART, TEXT

from kasa import Device, Discover, KasaException

LEVEL = "exploration"
RULE = ("At least one device is dumped by the real command-line tool, every identifying value of it being unique; "
        "labels name the ways in.")
ASSUMPTIONS = ["the kinds of identifying values are those of the library's redaction tables at the pinned commit, "
               "and IP addresses", "identifiers and MAC addresses keep their shape; a MAC address its vendor part",
               "the read that names the device, its components and the list of its children's components answer",
               "two children of the same model and firmware give one file"]

ALL = {**SMART, "ip": TEXT, "local_ip": TEXT}
DISCO = {**DISCOVERY, "ip": TEXT}
INSIDE = {**DECRYPTED, "ip": TEXT}
KID = {k: v for k, v in ALL.items() if k not in ("device_id", "dev_id")}
HIDDEN = set(ALL) | {"channel", "device_id", "dev_id"}
IOT_HIDDEN = set(IOT)
DISCO_HIDDEN = set(DISCO) | {"encrypt_info", "decrypted_data"}
CLOCKS = {"on_time", "timestamp", "local_time", "seconds_from_1970", "past7", "past30", "today", "current_ma", "time",
          "sec", "min", "hour", "mday", "month", "year"}
ESSENTIAL = {"component_nego", "get_device_info", "getDeviceInfo", "get_child_device_component_list",
             "getAppComponentList"}
EXTRA = ["latitude", "la", "bssid", "setup_code", "mfi_setup_id", "mfi_token_uuid", "board_sn", "location", "ssid",
         "nickname", "mac", "oem_id", "hw_id", "fw_id", "custom_sn", "device_name", "longitude", "setup_payload", "ip", "local_ip",
         "mfi_setup_code", "mfi_token_token", "device_alias", "ext_addr", "original_device_id"]
READS = re.compile(r"(get|scan|component_nego$|qs_component_nego$|check)")


# ------------------------------------------------------------------ devices
def rename_areas(t, obj):
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k == "area_list" and isinstance(v, list):
                for a in v:
                    if a.get("name"):
                        a["name"] = t.put("map_name", B64, a["name"])
            else:
                rename_areas(t, v)
    elif isinstance(obj, list):
        for v in obj:
            rename_areas(t, v)


class Subject:
    """A simulated device and what must come out of dumping it."""

    def __init__(self, case, t):
        self.case, self.t, self.name = case, t, case["name"]
        self.iot = self.name in iotsim.fixtures()
        self.answered = {}      # (owner, method) -> call giving the whole answer again
        self.silent = set()
        (self.make_iot if self.iot else self.make_smart)()

    def make_iot(self):
        fix = self.t.plant(copy.deepcopy(iotsim.fixtures()[self.name]), IOT)
        self.sim = sim = iotsim.IotSim(fixture=fix)
        sim.cloud["username"] = self.t.put("username", TEXT, "user@example.com")
        for n in self.case["fail"]:
            mods = ["emeter", "cnCloud", "smartlife.iot.LAS", "smartlife.iot.PIR", "smartlife.iot.dimmer", "schedule",
                    "smartlife.iot.common.schedule"]
            sim.broken[(mods[n % len(mods)], None)] = {"err_code": -1, "err_msg": "module not support"}

    def make_smart(self):
        t, case = self.t, self.case
        fix = t.plant(copy.deepcopy(smartsim.any_fixture(self.name)), ALL)
        if "child_devices" in fix:
            fix["child_devices"] = {t.put("device_id", IDS, k): v for k, v in fix["child_devices"].items()}
        hub = smartsim.is_hub(self.name)
        cam = smartsim.is_cam(self.name)
        names = [k for k in case["kids"] if cam or k in smartsim.child_fixtures()]
        self.sim = sim = smartsim.SmartSim(self.name, fixture=fix, children=[] if hub and names else None)
        if hub:
            for i, k in enumerate(names):
                sim.add_child(k, t.put("device_id", IDS, f"KID{i:037d}"))
        sim.page_size = case["page"]
        for i, kid in enumerate(sim.kids.values()):
            t.plant(kid.info, KID)
            t.plant(kid.methods, KID)
            if i in case["silent"]:
                self.silent.add(kid.id)
        plain = sim.handle

        def handle(owner, req):
            if owner in self.silent and req["method"] != "multipleRequest":
                return {"error_code": smartsim.CAM_PARAMS if sim.cam else smartsim.PARAMS}
            return plain(owner, req)
        sim.handle = handle
        for n, node in enumerate(sim.nodes().values()):
            for key in case["extra"][n % len(case["extra"]):][:2]:
                node.info[key] = t.put(key, ALL[key], f"x{n}{key}") if ALL[key] != taint.NUM else \
                    t.put(key, taint.NUM, 12)
            rename_areas(t, node.methods)
            readable = sorted(m for m in node.methods if m not in ESSENTIAL)
            if not node.cam and node.id is None:
                readable.append("get_child_device_list")
            for f in case["fail"]:
                if f % 3 == n % 3 and readable:
                    node.errors[readable[f // 3 % len(readable)]] = (
                        smartsim.CAM_PARAMS if node.cam else smartsim.PARAMS) if f % 2 else smartsim.UNKNOWN_METHOD
            self.watch(node)

    def watch(self, node):
        orig = node.run

        def run(method, p):
            size = self.sim.page_size
            if node.id is not None:
                self.sim.page_size = None      # answers of children come in one piece
            try:
                code, res = orig(method, p)
            finally:
                self.sim.page_size = size
            if not code and res is not None:
                self.answered[node.id, method] = (orig, p)
            return code, res
        node.run = run

    def whole(self, owner, method):
        """The complete answer of a read, not in pages."""
        orig, p = self.answered[owner, method]
        size, self.sim.page_size = self.sim.page_size, None
        try:
            return orig(method, restart(p))[1]
        finally:
            self.sim.page_size = size

    def device(self, host):
        dev, self.tr = (iotsim if self.iot else smartsim).make(self.sim, host)
        if self.iot and self.case["apart"]:
            inner = self.tr.answer

            def answer(req):
                if len(req) > 1:
                    raise KasaException("too much at once")
                return inner(req)
            self.tr.answer = answer
        return dev


def restart(p):
    if isinstance(p, dict):
        return {k: 0 if k == "start_index" else restart(v) for k, v in p.items()}
    return p


def subjects():
    names = sorted(smartsim.all_names())
    hubs = [n for n in names if smartsim.is_hub(n)]
    strips = [n for n in names if not smartsim.is_hub(n) and smartsim.any_fixture(n).get("child_devices")]
    kids = sorted(smartsim.child_fixtures()) + sorted(smartsim.cam_child_fixtures()) * 4
    return st.fixed_dictionaries({
        "name": st.one_of(st.sampled_from(sorted(iotsim.fixtures())), st.sampled_from(names), st.sampled_from(hubs),
                          st.sampled_from(strips)),
        "kids": st.lists(st.sampled_from(kids), min_size=1, max_size=4),
        "silent": st.one_of(st.just([]), st.lists(st.integers(0, 3), max_size=2, unique=True)),
        "page": st.sampled_from([None, None, 1, 2, 3]),
        "extra": st.lists(st.sampled_from(EXTRA), min_size=1, max_size=4, unique=True),
        "fail": st.one_of(st.just([]), st.lists(st.integers(0, 600), max_size=4)),
        "apart": st.booleans(),
        "disco": st.booleans(), "owner": st.booleans()})


def cases():
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10**6),
        "way": st.sampled_from(["host", "host", "target", "params", "bypass"]),
        "devs": st.lists(subjects(), min_size=1, max_size=2),
        "batch": st.one_of(st.none(), st.integers(1, 9)),
        "tree": st.booleans(), "save": st.sampled_from(["auto", "auto", "y", "n"])})


# ------------------------------------------------------------------ what is expected of a file
def same(want, got, hidden, moved, path):
    """Everything that identifies nobody is as the device said it."""
    if isinstance(want, dict):
        require(isinstance(got, dict), f"fixture: {path} is of another type", got)
        eq(sorted(got), sorted(want), f"fixture: keys of {path}")
        for k, v in want.items():
            p = f"{path}/{k}"
            if k in ("children", "area_list") and isinstance(v, list):
                require(isinstance(got[k], list), f"fixture: {p} is of another type")
                same(v, got[k], hidden | {"id", "name"} if k == "area_list" else hidden | {"id"}, moved, p)
            elif k in hidden:
                eq(isinstance(got[k], dict), isinstance(v, dict), f"fixture: type of {p}")
                if v in ("", None) and k != "encrypt_info":
                    eq(got[k], v, f"fixture: empty {p}")
            elif not (moved and k in CLOCKS):
                same(v, got[k], hidden, moved, p)
    elif isinstance(want, list):
        require(isinstance(got, list) and len(want) == len(got), f"fixture: {path} of another length", want, got)
        for i, (a, b) in enumerate(zip(want, got)):
            same(a, b, hidden, moved, f"{path}[{i}]")
    else:
        eq(got, want, f"fixture: {path}")


def check_answers(sub, owner, got, moved, what):
    """got: the reads stored for one device."""
    cam_raw = {k for k in got if k == "get" or k.startswith("get_") and (owner, k) not in sub.answered}
    want = {m for (o, m) in sub.answered if o == owner}
    eq(sorted(set(got) - cam_raw), sorted(want), f"fixture: reads of {what}")
    for m in want:
        same(sub.whole(owner, m), got[m], HIDDEN, moved, f"{what}/{m}")


def kid_ids(sub, main):
    """Scrubbed name of each child the main fixture lists, by its real id."""
    out = {}
    sim = sub.sim
    for list_key, method in (("child_device_list", "getChildDeviceList" if sim.cam else "get_child_device_list"),
                             ("child_component_list",
                              "getChildDeviceComponentList" if sim.cam else "get_child_device_component_list")):
        if method not in main:
            continue
        for kid, e in zip(sub.whole(None, method)[list_key], main[method][list_key], strict=True):
            cid = e["device_id"]
            require(re.fullmatch(r"SCRUBBED_CHILD_DEVICE_ID_\d+", str(cid)), f"fixture: id of a child in {method}", cid)
            if out.setdefault(kid["device_id"], cid) != cid:
                fail(f"fixture: a child has two ids: {cid} and {out[kid['device_id']]}")
    eq(len(set(out.values())), len(out), "fixture: number of different child ids")
    return out


def expected_name(sub):
    """Model, region, hardware and firmware version as the name of the file."""
    d = sub.result if sub.with_disco else None
    if sub.iot:
        s = sub.sim.sys
        return f"{s['model']}_{s['hw_ver']}_{s['sw_ver'].split(' ')[0]}"
    i = sub.sim.root.info
    if sub.sim.cam:
        model, region = (d["device_model"] if d else i["device_model"]), i.get("region")
        hw, fw = i["hw_version"], i["sw_version"]
    else:
        model, region = i["model"], i.get("specs")
        if d:
            model, _, r = d["device_model"].partition("(")
            region = r.replace(")", "") or region
        hw, fw = i["hw_ver"], i["fw_ver"]
    return (f"{model}({region})" if region else model) + f"_{hw}_{fw.split(' ')[0]}"


def kid_name(kid):
    if kid.cam:
        i = kid.info
        model, region, hw, fw = i["device_model"], i.get("region"), i["hw_ver"], i["sw_ver"]
    else:
        i = kid.info
        model, region, hw, fw = i["model"], i.get("specs"), i["hw_ver"], i["fw_ver"]
    return (f"{model}({region})" if region else model) + f"_{hw}_{fw.split(' ')[0]}"


def check_files(sub, files, moved, where, ctx):
    """files: name -> data; removes those belonging to this device."""
    fold = {"iot": "tests/fixtures/iot", "smart": "tests/fixtures/smart", "cam": "tests/fixtures/smartcam"}
    suffix = {"iot": "IOT", "smart": "SMART", "cam": "SMARTCAM"}

    def fetch(name, kind, child):
        if where:
            path = f"{fold[kind]}/{'child/' if child else ''}{name}.json"
        else:
            path = f"kasa-fixtures/{name}-{suffix[kind]}{'.CHILD' if child else ''}.json"
        require(path in files, f"no fixture {path} was written", sorted(files))
        used.add(path)
        return files[path]

    used = set()
    sim = sub.sim
    main = fetch(expected_name(sub), "iot" if sub.iot else "cam" if sim.cam else "smart", False)
    main = copy.deepcopy(main)
    if sub.with_disco and not (sub.iot and sub.legacy):
        dr = main.pop("discovery_result", None)
        require(dr is not None, "fixture: discovery_result is missing")
        same({"error_code": 0, "result": sub.result}, {"error_code": 0, **dr}, DISCO_HIDDEN, False, "discovery_result")
    else:
        require("discovery_result" not in main, "fixture: unexpected discovery_result")
    if sub.iot:
        for mod, res in main.items():
            for cmd, r in (res.items() if "err_code" not in res else ()):
                same(sim.answer({mod: {cmd: {}}})[mod][cmd], r, IOT_HIDDEN, moved, f"{mod}/{cmd}")
        for mod in ("system", "schedule", "emeter"):
            if (mod, None) not in sim.broken:
                require(mod in main, f"fixture: nothing of module {mod}")
        ids = [c["id"] for c in main["system"]["get_sysinfo"].get("children", [])]
        eq(len(set(ids)), len(ids), "fixture: number of different child ids")
        return used
    inner = main.pop("child_devices", {})
    ids = kid_ids(sub, main)
    check_answers(sub, None, main, moved, "the device")
    root_model = sim.root.info["device_model" if sim.cam else "model"]
    for cid, kid in sim.kids.items():
        if not any(o == cid for o, _ in sub.answered):
            if cid in ids:
                require(ids[cid] not in inner, "fixture: answers of a child that gave none")
            continue
        ctx.label("child answered")
        model = kid.info.get("device_model") if kid.cam else kid.info.get("model")
        known = (cid, "getDeviceInfo" if kid.cam else "get_device_info") in sub.answered
        if known and model != root_model:
            got = copy.deepcopy(fetch(kid_name(kid), "cam" if kid.cam else "smart", True))
            twins = [k for k in sim.kids.values() if k is not kid and k.cam == kid.cam and k.id not in sub.silent
                     and kid_name(k) == kid_name(kid)]
            if twins:
                continue      # the last one dumped is on disk
            if kid.cam:
                info = got.pop("child_info_from_parent", None)
                require(info is not None, "fixture: child_info_from_parent is missing")
                same(kid.info, info, HIDDEN, moved, "child_info_from_parent")
                eq(info["device_id"], ids[cid], "fixture: id of the child in child_info_from_parent")
            ctx.label("child of another model")
        else:
            require(cid in ids and ids[cid] in inner, "fixture: a child is missing in child_devices", sorted(inner))
            got = inner.pop(ids[cid])
            ctx.label("child of the same model")
        check_answers(sub, cid, got, moved, "a child")
        i = got.get("get_device_info") or got.get("getDeviceInfo", {}).get("device_info", {}).get("basic_info", {})
        if known and cid in ids:
            eq(i.get("device_id") or i.get("dev_id"), ids[cid], "fixture: id of the child in its own info")
    eq(sorted(inner), [], "fixture: child_devices no child of this device gave")
    return used


# ------------------------------------------------------------------ running the tool
def find_result(sub, n):
    """A discovery answer fitting the device."""
    t, sim = sub.t, sub.sim
    r = disco.new_result(disco.new_names()[n % len(disco.new_names())], "a" * 40)
    t.plant(r, DISCO)
    r["device_id"] = t.put("device_id", IDS, f"disco{n}")
    r["ip"] = t.put("ip", TEXT, f"ip{n}")
    if sub.case["owner"]:
        for k in ("owner", "device_name", "group_name", "group_id", "master_device_id"):
            r[k] = t.put(k, DISCO[k], k)
    r["mac"] = t.put("mac", MAC, "00-11-22-33-44-55")
    if sub.iot:
        r["device_model"] = sim.sys["model"]
    elif sim.cam:
        r["device_model"] = sim.root.info["device_model"]
    else:
        r["device_model"] = sim.root.info["model"] + ("(EU)" if n % 2 else "")
    return r


async def run_tool(args, stdin, **stand_ins):
    from asyncclick.testing import CliRunner
    from devtools import dump_devinfo as dd

    async def nothing(*a, **kw):
        raise AssertionError("not expected to be called")
    with contextlib.ExitStack() as s:
        s.enter_context(mock.patch.object(Discover, "discover_single", stand_ins.get("single", nothing)))
        s.enter_context(mock.patch.object(Discover, "discover", stand_ins.get("many", nothing)))
        s.enter_context(mock.patch.object(Device, "connect", stand_ins.get("connect", nothing)))
        s.enter_context(mock.patch.object(dd, "get_protocol", stand_ins.get("protocol", nothing)))
        s.enter_context(mock.patch.object(dd, "pprint", lambda *a, **k: None))
        return await CliRunner(mix_stderr=False).invoke(dd.cli, args, input=stdin, env={
            k: None for k in ("KASA_HOST", "KASA_USERNAME", "KASA_PASSWORD", "KASA_ENCRYPT_TYPE", "KASA_DEVICE_FAMILY",
                              "KASA_DISCOVERY_TIMEOUT", "KASA_LOGIN_VERSION", "KASA_HTTPS")})


def check(case, ctx):
    t = taint.Taint(case["seed"])
    base = tempfile.mkdtemp(prefix="p37-")
    try:
        vtime.run(lambda loop: judge(case, ctx, t, base))
    finally:
        shutil.rmtree(base)


async def judge(case, ctx, t, base):
    way = case["way"]
    subs = [Subject(c, t) for c in (case["devs"] if way == "target" else case["devs"][:1])]
    if len(subs) == 2 and (file_names(subs[0]) & file_names(subs[1])):
        subs = subs[:1]
    raws, devs = {}, {}
    for n, sub in enumerate(subs):
        host = f"10.0.0.{n + 2}"
        dev = devs[host] = sub.device(host)
        sub.legacy = sub.iot and not sub.case["disco"]
        sub.with_disco = way != "params"
        sub.result = find_result(sub, case["seed"] + n)
        if sub.legacy:
            raws[host] = {"system": {"get_sysinfo": sub.sim.get_sysinfo()}}
            dev._discovery_info = copy.deepcopy(raws[host])
        else:
            raws[host] = {"error_code": 0, "result": copy.deepcopy(sub.result)}
            dev._discovery_info = copy.deepcopy(sub.result)
            if sub.case["owner"] and "encrypt_info" in sub.result and way != "bypass":
                plain = t.plant({"connect_ssid": "home", "device_id": "b" * 40, "owner": "own",
                                 "connect_type": "wireless"}, INSIDE)
                sub.result["decrypted_data"] = plain
                dev._discovery_info["decrypted_data"] = copy.deepcopy(plain)
    sub = subs[0]
    host = "10.0.0.2"
    before = [s.sim.snapshot() for s in subs if not s.iot]
    if case["tree"]:
        for d in ("iot", "smart/child", "smartcam/child"):
            os.makedirs(os.path.join(base, "tests/fixtures", d))
    args = ["--basedir", base, "--username", "user@example.com", "--password", "a secret pass"]
    if case["batch"]:
        args += ["--batch-size", str(case["batch"])]
    if case["save"] == "auto":
        args.append("--autosave")
    seen = []

    def told(h, kw):
        with judging("credentials given to the tool"):
            c = kw["credentials"]
            eq((c.username, c.password), ("user@example.com", "a secret pass"), "credentials given to the tool")
        seen.append(h)
        if cb := kw.get("on_discovered_raw"):
            cb({"meta": {"ip": h, "port": 9999}, "discovery_response": raws[h]})

    async def single(h, **kw):
        told(h, kw)
        return devs[h]

    async def many(**kw):
        for h in devs:
            told(h, kw)
        return devs

    async def connect(*, config):
        seen.append(config.host)
        return devs[config.host]

    def protocol(config):
        seen.append(config.host)
        return devs[config.host].protocol
    if way == "bypass":
        if sub.legacy or not sub.result.get("mgt_encrypt_schm", {}).get("encrypt_type"):
            ctx.label("bypass impossible")
            way = "host"
        else:
            from kasa.discover import DiscoveryResult
            args += ["--discovery-info", json.dumps(sub.result)]
            sub.result = DiscoveryResult.from_dict(sub.result).to_dict()
    if way == "params":
        args += ["--encrypt-type", "KLAP", "--device-family", "IOT.SMARTPLUGSWITCH" if sub.iot else "SMART.TAPOPLUG"]
    args += ["--target", "10.0.0.255"] if way == "target" else ["--host", host]
    old = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        t0 = vtime.CLOCK.wall
        res = await run_tool(args, "n\n" * 60 if case["save"] == "n" else "y\n" * 60, single=single, many=many,
                             connect=connect, protocol=protocol)
        moved = vtime.CLOCK.wall != t0
    finally:
        logging.disable(old)
    ctx.label(way)
    if res.exception is not None:
        fail(f"the tool ended with {type(res.exception).__name__}: {res.exception}"
             + "".join(f" [{l.strip()}]" for l in res.stderr.splitlines()[-1:]))
    eq(seen, list(devs), "devices dumped")
    files = {}
    for d, _, names in os.walk(base):
        for f in names:
            p = os.path.join(d, f)
            with open(p) as fh:
                text = fh.read()
            rel = os.path.relpath(p, base)
            if found := t.found(text):
                fail(f"{rel} holds {', '.join(sorted(found)[:3])}")
            files[rel] = json.loads(text)
    if case["save"] == "n":
        eq(sorted(files), [], "files written though not confirmed")
        ctx.label("not saved")
        return
    used = set()
    for s in subs:
        used |= check_files(s, files, moved, case["tree"], ctx)
    eq(sorted(files), sorted(used), "files written")
    for s, b in zip([s for s in subs if not s.iot], before):
        if s.sim.snapshot() != b:
            fail("dumping changed the device")
    for s in subs:
        for entry in s.sim.log:
            m = entry[-2]
            require(READS.match(m), "dumping sent a command that reads nothing", entry)
        if not s.iot:
            require(all(m == "get" for _, m, _ in s.sim.raw), "dumping sent a command that reads nothing", s.sim.raw)
        ctx.label("iot" if s.iot else "cam" if s.sim.cam else "smart")
        if s.silent:
            ctx.label("silent child")
        if s.case["fail"]:
            ctx.label("failing reads")
        elif not s.silent:
            await check_reload(s, main_file(s, files, case["tree"]), ctx)
    ctx.nontrivial(True)


def main_file(s, files, tree):
    name = expected_name(s)
    if tree:
        return files[f"tests/fixtures/{'iot' if s.iot else 'smartcam' if s.sim.cam else 'smart'}/{name}.json"]
    return files[f"kasa-fixtures/{name}-{'IOT' if s.iot else 'SMARTCAM' if s.sim.cam else 'SMART'}.json"]


def portrait(dev):
    return {"model": dev.model, "type": dev.device_type, "class": type(dev).__name__,
            "features": sorted(dev.features), "modules": sorted(map(str, dev.modules)),
            "children": sorted((c.model, type(c).__name__) for c in dev.children)}


async def check_reload(s, data, ctx):
    """A device simulated from the fixture shows what the original shows."""
    if s.iot:
        again, _ = iotsim.make(iotsim.IotSim(fixture=data))
        first, _ = iotsim.make(s.sim)
    else:
        s.sim.page_size = None
        again, _ = smartsim.make(smartsim.SmartSim(fixture=data))
        first, _ = smartsim.make(s.sim)
    await first.update()
    try:
        await again.update()
    except KasaException as ex:
        fail(f"a device like the fixture cannot be read: {ex}")
    eq(portrait(again), portrait(first), "device simulated from the fixture")
    ctx.label("reloaded")


def file_names(s):
    """Model and versions of everything that may be dumped with a device."""
    if s.iot:
        return {s.name}
    return {s.name.partition("(")[0]} | {kid_name(k) for k in s.sim.kids.values()}


SUBS = [Sub("dump", cases, check, quick=2500, thorough=40000, shards=4, tshards=8,
            rule="the tool wrote its files and they were compared with the device")]
