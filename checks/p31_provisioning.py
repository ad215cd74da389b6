"""P31: provisioning uses exactly the names and secrets the caller gave."""
from __future__ import annotations

import base64
import copy
import json
from urllib.parse import unquote, urlsplit

from hypothesis import strategies as st

import gen
import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from vtime import CLOCK

from kasa import AuthenticationError, Credentials, DeviceConfig, DeviceError, KasaException, Module, TimeoutError as KasaTimeout
from kasa.exceptions import _ConnectionError
from kasa.smartcam.modules.camera import StreamResolution

LEVEL = "exploration"
RULE = ("A case is a device with operations that set up networks, names and accounts, using generated texts; non-trivial when a "
        "text has a character that an encoding could damage (not an ASCII letter or digit).")
ASSUMPTIONS = ["hub children and cameras do not join networks themselves", "texts have no lone surrogates"]

SSID = st.one_of(st.sampled_from(["home", "Café", "a b", "网络", "🔑", "", 'a"b\\', "x" * 32, "a+b/c=="]), gen.TEXT)
SECRET = gen.credential_text()
HARD = st.one_of(st.sampled_from(["a b", "a+b", "p@ss:word/", "%41", "#?&=", "ä ö", "a@b.c", " ", "~._-", "\\", "[::1]"]), SECRET)
SMART = sorted(n for n in smartsim.fixtures())
KEYTYPE = st.sampled_from(["wpa2_psk", "wpa_psk", "none", "wep", "wpa3_sae"])


def dec(s):
    return base64.b64decode(s, validate=True).decode()


def spicy(*texts):
    return any(not (c.isascii() and c.isalnum()) for t in texts for c in t)


# ------------------------------------------------------------- SMART networks and accounts
def ap():
    return st.fixed_dictionaries({
        "ssid": st.one_of(SSID.map(lambda s: s.encode()), st.binary(max_size=32)),
        "cipher_type": st.integers(0, 3), "key_type": KEYTYPE, "signal_level": st.integers(0, 3),
        "channel": st.sampled_from([0, 1, 6, 36]), "bssid": st.sampled_from(["AA:BB:CC:00:11:22", "00:00:00:00:00:00", ""])})


def smart_cases():
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("scan"), "aps": st.lists(ap(), max_size=25)}),
        st.fixed_dictionaries({"op": st.just("join"), "ssid": SSID, "password": SECRET, "keytype": st.none() | KEYTYPE,
                               "how": st.sampled_from(["ok", "ok", "gone", "timeout", "refused"])}),
        st.fixed_dictionaries({"op": st.just("account"), "username": SECRET, "password": SECRET,
                               "how": st.sampled_from(["ok", "ok", "refused"])}),
        st.fixed_dictionaries({"op": st.just("alias"), "alias": gen.TEXT}),
        st.fixed_dictionaries({"op": st.just("reboot"), "delay": st.none() | st.integers(0, 60)}),
        st.just({"op": "reset"}))
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(SMART), "username": SECRET, "secret": SECRET, "with": st.sampled_from([True] * 5 + [False]),
        "page": st.sampled_from([None, 1, 3, 10]), "ops": st.lists(op, min_size=1, max_size=5)})


async def smart(case, ctx):
    sim = smartsim.SmartSim(case["fixture"], page_size=case["page"])
    user, secret = case["username"], case["secret"]
    cfg = DeviceConfig("10.0.0.2", credentials=Credentials(user, secret))
    dev, tr = smartsim.make(sim, config=cfg)
    with judging("first update"):
        await dev.update()
    if not isinstance(sim.root.methods.get("get_device_time"), dict):
        return
    if not case["with"]:
        cfg.credentials = tr._credentials = None
    zone = {k: v for k, v in sim.root.methods["get_device_time"].items() if k != "timestamp"}
    updated = CLOCK.mono, sim.now()
    others = [(n.id, copy.deepcopy(n.info)) for n in sim.nodes().values() if n is not sim.root]
    for op in case["ops"]:
        n0, a0 = len(tr.sent), len(sim.root.actions)
        if op["op"] == "scan":
            aps = [{**a, "ssid": base64.b64encode(a["ssid"]).decode()} for a in op["aps"]]
            per = case["page"] or 10

            def page(p, aps=aps, per=per):
                k = (p or {}).get("start_index", 0)
                return {"ap_list": aps[k:k + per], "start_index": k, "sum": len(aps), "wep_supported": False}
            sim.root.handlers["get_wireless_scan_info"] = page
            with judging("wifi_scan"):
                nets = await dev.wifi_scan()
                eq([(n.ssid, n.cipher_type, n.key_type, n.signal_level, n.channel, n.bssid) for n in nets],
                   [(a["ssid"].decode(errors="replace"), a["cipher_type"], a["key_type"], a["signal_level"], a["channel"], a["bssid"])
                    for a in op["aps"]], "networks found")
            if len(aps) > per or any(spicy(a["ssid"].decode(errors="replace")) for a in op["aps"]):
                ctx.nontrivial()
        elif op["op"] == "join":
            if op["how"] in ("gone", "timeout"):
                def lost(req, how=op["how"]):
                    res = sim.answer(req)
                    if "set_qs_info" in json.dumps(req):
                        raise _ConnectionError("gone") if how == "gone" else KasaTimeout("slow")
                    return res
                tr.answer = lost
            if op["how"] == "refused":
                sim.root.errors["set_qs_info"] = -1001
            kw = {} if op["keytype"] is None else {"keytype": op["keytype"]}
            try:
                got = await dev.wifi_join(op["ssid"], op["password"], **kw)
                how = "ok"
            except AuthenticationError:
                how = "no credentials"
            except DeviceError:
                how = "refused"
            except Exception as ex:  # noqa: BLE001
                fail(f"wifi_join: {type(ex).__name__}: {ex}")
            tr.answer = sim.answer
            sim.root.errors.pop("set_qs_info", None)
            if not case["with"]:
                eq((how, len(tr.sent)), ("no credentials", n0), "joining without an account")
                continue
            eq(len(tr.sent) - n0, 1, "requests sent to join a network")
            if op["how"] == "refused":
                eq(how, "refused", "outcome of a refused join")
                continue
            eq((how, got), ("ok", {} if op["how"] != "ok" else got), "outcome of a join")
            acts = sim.root.actions[a0:]
            eq([a[0] for a in acts], ["qs"], "what the device was told")
            q = acts[0][1]
            with judging("join request"):
                eq(sorted(q), ["account", "time", "wireless"], "parts of the join request")
                eq((dec(q["account"]["username"]), dec(q["account"]["password"])), (user, secret), "account sent with the join")
                eq((dec(q["wireless"]["ssid"]), dec(q["wireless"]["password"]), q["wireless"]["key_type"]),
                   (op["ssid"], op["password"], op["keytype"] or "wpa2_psk"), "network to join")
                time_ok(q["time"], zone, updated)
            if spicy(op["ssid"], op["password"]):
                ctx.nontrivial()
        elif op["op"] == "account":
            if op["how"] == "refused":
                sim.root.errors["set_qs_info"] = -1001
            try:
                await dev.update_credentials(op["username"], op["password"])
                how = "ok"
            except DeviceError:
                how = "refused"
            except Exception as ex:  # noqa: BLE001
                fail(f"update_credentials: {type(ex).__name__}: {ex}")
            sim.root.errors.pop("set_qs_info", None)
            eq(how, op["how"], "outcome of update_credentials")
            if how == "ok":
                acts = sim.root.actions[a0:]
                eq([a[0] for a in acts], ["qs"], "what the device was told")
                q = acts[0][1]
                with judging("account request"):
                    eq(sorted(q), ["account", "time"], "parts of the account request")
                    eq((dec(q["account"]["username"]), dec(q["account"]["password"])), (op["username"], op["password"]), "new account")
                    time_ok(q["time"], zone, updated)
                if spicy(op["username"], op["password"]):
                    ctx.nontrivial()
        elif op["op"] == "alias":
            with judging("set_alias"):
                await dev.set_alias(op["alias"])
                eq(dec(sim.root.info["nickname"]), op["alias"], "name stored by the device")
            ctx.nontrivial(spicy(op["alias"]))
        elif op["op"] == "reboot":
            with judging("reboot"):
                await (dev.reboot() if op["delay"] is None else dev.reboot(op["delay"]))
            eq(sim.root.actions[a0:], [("reboot", {"delay": 1 if op["delay"] is None else op["delay"]})], "reboot command")
        else:
            with judging("factory_reset"):
                await dev.factory_reset()
            eq([a[0] for a in sim.root.actions[a0:]], ["reset"], "reset command")
        ctx.evals(1)
    eq([(n.id, n.info) for n in sim.nodes().values() if n is not sim.root], others, "children of the device")


def time_ok(t, zone, updated):
    eq({k: v for k, v in t.items() if k != "timestamp"}, zone, "zone sent along")
    require(abs(t["timestamp"] - updated[1]) <= 2, "time sent along", t["timestamp"], updated)


# ------------------------------------------------------------- legacy devices
IOT = sorted(iotsim.fixtures())
CLOUDY = [n for n in IOT if {"cnCloud", "smartlife.iot.common.cloud"} & set(iotsim.fixtures()[n])]


def iot_cases():
    net = st.fixed_dictionaries({"ssid": SSID, "key_type": st.integers(0, 4)},
                                optional={"rssi": st.integers(-99, 0), "cipher_type": st.integers(0, 3),
                                          "bssid": st.just("AA:BB:CC:00:11:22"), "channel": st.integers(1, 13)})
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("scan"), "aps": st.lists(net, max_size=12)}),
        st.fixed_dictionaries({"op": st.just("join"), "ssid": SSID, "password": SECRET,
                               "keytype": st.none() | st.sampled_from(["0", "1", "2", "3"])}),
        st.fixed_dictionaries({"op": st.just("alias"), "who": st.integers(0, 6), "alias": gen.TEXT}),
        st.fixed_dictionaries({"op": st.just("bind"), "username": SECRET, "password": SECRET}),
        st.fixed_dictionaries({"op": st.just("server"), "url": SSID}),
        st.just({"op": "unbind"}), st.just({"op": "firmwares"}),
        st.fixed_dictionaries({"op": st.just("mac"), "mac": st.sampled_from(["01:23:45:67:89:ab", "FF:00:00:00:00:01"])}),
        st.fixed_dictionaries({"op": st.just("reboot"), "delay": st.none() | st.integers(0, 60)}),
        st.just({"op": "reset"}))
    return st.fixed_dictionaries({
        "fixture": st.one_of(st.sampled_from(IOT), st.sampled_from(CLOUDY)),
        "netif": st.sampled_from(["here", "here", "absent", "error"]),
        "ops": st.lists(op, min_size=1, max_size=6)})


async def iot(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    dev, tr = iotsim.make(sim)
    with judging("first update"):
        await dev.update()
    if case["netif"] != "here":
        sim.broken[("netif", None)] = {"err_code": -1, "err_msg": "module not support"} if case["netif"] == "absent" else \
            {"err_code": -3, "err_msg": "invalid argument"}
    service = "netif" if case["netif"] == "here" else "smartlife.iot.common.softaponboarding"
    for svc in ("cnCloud", "smartlife.iot.common.cloud"):
        sim.broken.pop((svc, "get_intl_fw_list"), None)
    sent = []
    inner = sim.answer

    def spy(req):
        sent.append(copy.deepcopy(req))
        return inner(req)
    tr.answer = spy
    cloud_mod = dev.modules.get(Module.IotCloud)
    asked = {m for r in tr.sent for m in r if m in ("cnCloud", "smartlife.iot.common.cloud")}
    for op in case["ops"]:
        sent.clear()
        before = copy.deepcopy(sim.sys)
        if op["op"] == "scan":
            sim.wifi["ap_list"] = op["aps"]
            with judging("wifi_scan"):
                nets = await dev.wifi_scan()
                eq([{k: v for k, v in vars(n).items() if v is not None} for n in nets], op["aps"], "networks found")
            eq(sent[-1], {service: {"get_scaninfo": {"refresh": 1}}}, "scan request")
            ctx.nontrivial(any(spicy(a["ssid"]) for a in op["aps"]))
        elif op["op"] == "join":
            sim.wifi["joined"] = None
            kw = {} if op["keytype"] is None else {"keytype": op["keytype"]}
            with judging("wifi_join"):
                await dev.wifi_join(op["ssid"], op["password"], **kw)
            eq(sim.wifi["joined"], {"ssid": op["ssid"], "password": op["password"], "key_type": int(op["keytype"] or "3")},
               "network the device joined")
            ctx.nontrivial(spicy(op["ssid"], op["password"]))
        elif op["op"] == "alias":
            devs = [dev, *dev.children]
            d = devs[op["who"] % len(devs)]
            with judging("set_alias"):
                await d.set_alias(op["alias"])
            want = copy.deepcopy(before)
            if d is dev:
                want["alias"] = op["alias"]
            else:
                want["children"][devs.index(d) - 1]["alias"] = op["alias"]
            eq(sim.sys, want, "names stored by the device")
            with judging("update after set_alias"):
                await dev.update()
                eq(d.alias, op["alias"], "name after an update")
            ctx.nontrivial(spicy(op["alias"]) or d is not dev)
        elif op["op"] in ("bind", "server", "unbind", "firmwares"):
            if cloud_mod is None:
                continue
            cmd = {"bind": ("bind", {"username": op.get("username"), "password": op.get("password")}),
                   "server": ("set_server_url", {"server": op.get("url")}), "unbind": ("unbind", None),
                   "firmwares": ("get_intl_fw_list", None)}[op["op"]]
            with judging(f"cloud {op['op']}"):
                await {"bind": lambda: cloud_mod.connect(op["username"], op["password"]),
                       "server": lambda: cloud_mod.set_server(op["url"]), "unbind": cloud_mod.disconnect,
                       "firmwares": cloud_mod.get_available_firmwares}[op["op"]]()
            eq(len(sent), 1, "requests sent to the device")
            req = {k: v for k, v in sent[0].items() if k != "context"}
            require(len(req) == 1 and set(req) == asked, "service addressed", req, asked)
            cloud_name = [*req][0]
            eq([*req[cloud_name]], [cmd[0]], "command sent")
            require((req[cloud_name][cmd[0]] or None) == cmd[1], "parameters sent", req)
            if op["op"] in ("bind", "server"):
                ctx.nontrivial(spicy(*[v for v in cmd[1].values()]))
        elif op["op"] == "mac":
            with judging("set_mac"):
                await dev.set_mac(op["mac"])
            eq(sim.sys.get("mac"), op["mac"], "address stored")
        elif op["op"] == "reboot":
            n = len(sim.reboots)
            with judging("reboot"):
                await (dev.reboot() if op["delay"] is None else dev.reboot(op["delay"]))
            eq(sim.reboots[n:], [("reboot", {"delay": 1 if op["delay"] is None else op["delay"]})], "reboot command")
        else:
            n = len(sim.reboots)
            with judging("factory_reset"):
                await dev.factory_reset()
            eq([r[0] for r in sim.reboots[n:]], ["reset"], "reset command")
        if op["op"] not in ("alias", "mac"):
            eq(sim.sys, before, "state of the device")
        ctx.evals(1)


# ------------------------------------------------------------- names of every kind of device
HUBS = sorted(n for n in smartsim.all_names() if smartsim.is_hub(n))
CAMS = sorted(smartsim.cam_fixtures())
KIDS = sorted(smartsim.child_fixtures())


def name_cases():
    return st.fixed_dictionaries({
        "fixture": st.one_of(st.sampled_from(SMART), st.sampled_from(CAMS), st.sampled_from(HUBS)),
        "kids": st.lists(st.sampled_from(KIDS), max_size=3),
        "names": st.lists(st.tuples(st.integers(0, 6), gen.TEXT), min_size=1, max_size=4)})


def stored(node):
    if "nickname" in node.info:
        return dec(node.info["nickname"])
    return None


async def names(case, ctx):
    hub = smartsim.is_hub(case["fixture"])
    sim = smartsim.SmartSim(case["fixture"], children=case["kids"] if hub and not smartsim.is_cam(case["fixture"]) else None)
    dev, tr = smartsim.make(sim)
    with judging("first update"):
        await dev.update()
    want = {}
    for who, name in case["names"]:
        devs = [dev, *dev.children]
        d = devs[who % len(devs)]
        if d is not dev and sim.cam:
            d = dev
        was = {id(n): stored(n) for n in sim.nodes().values()}
        with judging("set_alias"):
            await d.set_alias(name)
        want[d] = name
        if d is not dev or not sim.cam:
            changed = [n for n in sim.nodes().values() if stored(n) != was[id(n)]]
            node = sim.root if d is dev else next(n for n in sim.nodes().values() if n.id == d.device_id)
            eq(stored(node), name, "name stored by the device")
            require(all(n is node for n in changed), "another device was renamed", [n.id for n in changed])
        CLOCK.mono += 3600
        with judging("update"):
            await dev.update(update_children=True)
        for x, alias in want.items():
            if alias or x is dev and sim.cam:
                eq(x.alias, alias, "name after an update")
        ctx.nontrivial(spicy(name) or d is not dev)
        ctx.evals(1)


# ------------------------------------------------------------- streams of cameras
def stream_cases():
    cred = st.one_of(st.none(), st.tuples(HARD, HARD))
    return st.fixed_dictionaries({
        "fixture": st.sampled_from(CAMS), "given": cred, "config": cred, "hash": st.one_of(st.none(), st.tuples(HARD, HARD),
                                                                                       st.sampled_from(["junk", "{}", "[]x"])),
        "resolution": st.sampled_from([None, "HD", "SD"]), "host": st.sampled_from(["10.0.0.9", "cam.example", "127.0.0.1"])})


async def stream(case, ctx):
    sim = smartsim.SmartSim(case["fixture"])
    h = case["hash"]
    if isinstance(h, (tuple, list)):
        h = base64.b64encode(json.dumps({"un": h[0], "pwd": h[1]}).encode()).decode()
    elif h == "{}":
        h = base64.b64encode(b"{}").decode()
    cfg = DeviceConfig(case["host"], credentials=Credentials("user", "secret"))
    dev, tr = smartsim.make(sim, host=case["host"], config=cfg)
    with judging("first update"):
        await dev.update()
    cfg.credentials, cfg.credentials_hash = Credentials(*case["config"]) if case["config"] else None, h
    cam = dev.modules.get(Module.Camera)
    if cam is None:
        return
    with judging("stream_rtsp_url"):
        kw = {} if case["resolution"] is None else {"stream_resolution": StreamResolution(case["resolution"])}
        url = cam.stream_rtsp_url(*([Credentials(*case["given"])] if case["given"] else []), **kw)
        onvif = cam.onvif_url()
    eq(onvif, f"http://{case['host']}:2020/onvif/device_service", "onvif url")
    # The given account, else the one of the configuration, else the one of the hash.  An incomplete account of the first is not replaced.
    cands = [case["given"], case["config"]]
    hashed = case["hash"] if isinstance(case["hash"], (tuple, list)) else None
    cands.append(hashed if hashed and all(hashed) else None)
    use = next((tuple(c) for c in cands if c), None)
    if use is None or not all(use):
        eq(url, None, "url without a complete account")
        return
    require(isinstance(url, str), "no url", url)
    with judging("url"):
        u = urlsplit(url)
        user, _, pwd = u.netloc.rpartition("@")[0].partition(":")
        eq((u.scheme, unquote(user), unquote(pwd), u.hostname, u.port, u.path, u.query, u.fragment),
           ("rtsp", *use, case["host"], 554, "/stream2" if case["resolution"] == "SD" else "/stream1", "", ""), "parts of the url")
        require(url.isascii() and " " not in url and url.count("@") == 1, "characters of the url", url)
    ctx.nontrivial(spicy(*use))


SUBS = [
    Sub("smart", smart_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=4000, thorough=20000, shards=4, tshards=8,
        rule="a text with special characters was used"),
    Sub("iot", iot_cases, lambda c, x: vtime.run(lambda loop: iot(c, x)), quick=4000, thorough=20000, shards=4, tshards=8,
        rule="a text with special characters was used"),
    Sub("names", name_cases, lambda c, x: vtime.run(lambda loop: names(c, x)), quick=2000, thorough=8000, shards=4, tshards=8,
        rule="a special name or a child was used"),
    Sub("stream", stream_cases, lambda c, x: vtime.run(lambda loop: stream(c, x)), quick=2400, thorough=8000, shards=3, tshards=8,
        rule="an account with special characters"),
]
