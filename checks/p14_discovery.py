"""P14: discovery reports each responder exactly once and survives any datagram."""
from __future__ import annotations

import asyncio
import copy
import json
import logging

from hypothesis import strategies as st

import disco
import mutate
import vtime
from core import Sub, eq, judging, require
from net import Net

from kasa import Credentials, Discover, KasaException, UnsupportedDeviceError
from kasa.exceptions import TimeoutError as KasaTimeout

LEVEL = "exploration"
RULE = "Generated datagrams (hosts, ports, times, contents) on a simulated network in virtual time."
ASSUMPTIONS = ["UDP endpoint replaced at the event loop", "a host's first datagram from a discovery port decides",
               "datagrams of one host after an unreadable one may or may not count"]
EPS = 1e-6

UNSUP = ["family", "noschm", "enc", "noenc", "iotaes", "camera"]


def payloads():
    legacy = st.tuples(st.just("legacy"), st.sampled_from(disco.legacy_names()))
    new = st.tuples(st.just("new"), st.sampled_from(disco.new_names()))
    return st.one_of(
        legacy, legacy, new, new,
        st.tuples(st.just("unsup"), st.sampled_from(UNSUP)),
        st.tuples(st.just("unreadable"), st.sampled_from([b"", b"\x00", b"{", b"\xff" * 20, b"[[[", b"x" * 2000])),
        st.tuples(st.just("bytes"), st.binary(max_size=60)),
        st.tuples(st.just("truncated"), st.one_of(legacy, new), st.integers(0, 200)),
        st.tuples(st.just("mutated"), st.one_of(legacy, new), st.lists(mutate.MUT, min_size=1, max_size=3)),
        st.tuples(st.just("swapped"), st.one_of(legacy, new)),
    )


def packets():
    return st.fixed_dictionaries({
        "t": st.one_of(st.just(0.0), st.floats(0, 12).map(lambda x: round(x, 2))),
        "port": st.sampled_from(["known", "known", "known", "known", "stray"]),
        "what": payloads(),
        "repeat": st.sampled_from([1, 1, 2, 4]),
    })


def cases():
    return st.fixed_dictionaries({
        "hosts": st.lists(st.lists(packets(), min_size=0, max_size=3), min_size=1, max_size=6),
        "mode": st.sampled_from(["discover", "discover", "single", "single-name"]),
        "target": st.sampled_from([None, None, None, "10.0.0.255", 0, 1]),
        "timeout": st.integers(1, 10), "packets": st.integers(1, 5),
        "port": st.sampled_from([None, None, None, 10000]),
        "creds": st.sampled_from([None, "creds", "userpass", "useronly", "both"]),
        "devtimeout": st.sampled_from([None, 3, 11]),
        "cb": st.sampled_from(["none", "plain", "plain", "plain", "slow"]),
        "raw": st.booleans(), "debug": st.booleans(), "on_unsupported": st.booleans(),
        "exists": st.sampled_from([True] * 6 + [False]),
    })


def build(what, ident, port):
    """-> (source port, bytes, verdict, info); verdict: ok/unsup/bad/any"""
    kind = what[0]
    if kind == "legacy":
        info = disco.legacy_info(what[1], ident)
        return port, disco.legacy_packet(info), "ok", info
    if kind == "new":
        info = {"error_code": 0, "result": disco.new_result(what[1], ident)}
        verdict, _ = disco.expected(info["result"])
        return 20002, disco.new_packet(info), {"ok": "ok", "unsupported": "unsup"}.get(verdict, "any"), info
    if kind == "unsup":
        if what[1] == "camera":
            info = {"system": {"get_sysinfo": copy.deepcopy(disco.camera_info())}}
            return port, disco.legacy_packet(info), "unsup", info
        r = disco.new_result(disco.new_names()[len(ident) % 7], ident)
        r["device_type"] = "SMART.TAPOPLUG"
        r["mgt_encrypt_schm"] = {"encrypt_type": "KLAP", "http_port": 80, "is_support_https": False, "lv": 2}
        r.pop("encrypt_info", None)
        if what[1] == "family":
            r["device_type"] = "SMART.TOASTER"
        elif what[1] == "noschm":
            r.pop("mgt_encrypt_schm")
        elif what[1] == "enc":
            r["mgt_encrypt_schm"]["encrypt_type"] = "ROT13"
        elif what[1] == "noenc":
            r["mgt_encrypt_schm"].pop("encrypt_type")
        elif what[1] == "iotaes":
            r["device_type"] = "IOT.SMARTPLUGSWITCH"
            r["mgt_encrypt_schm"]["encrypt_type"] = "AES"
        info = {"error_code": 0, "result": r}
        return 20002, disco.new_packet(info), "unsup", info
    if kind == "unreadable":
        p = port if len(what[1]) % 2 else 20002
        return p, (disco.xor(what[1]) if p == port else b"\x02" * 16 + what[1]), "bad", None
    if kind == "bytes":
        return (port if len(what[1]) % 2 else 20002), what[1], "any", None
    p, data, _, info = build(what[1], ident, port)
    if kind == "truncated":
        return p, data[:what[2]], ("bad" if what[2] < len(data) and what[2] != 16 else "any"), None
    if kind == "swapped":
        return (20002 if p == port else port), data, "any", None
    for m in what[2]:
        info, _ = mutate.mutate(info, m)
    try:
        data = disco.legacy_packet(info) if p == port else disco.new_packet(info)
    except UnicodeEncodeError:
        data = b""
    return p, data, "any", None


def check(case, ctx):
    net = Net()
    legacy_port = case["port"] or 9999
    timeout = case["timeout"]
    n_packets = case["packets"] if case["mode"] == "discover" else 3
    ips = [f"10.0.0.{i + 2}" for i in range(len(case["hosts"]))]
    single = case["mode"] != "discover"
    if single:
        target = ips[(case["target"] if isinstance(case["target"], int) else 0) % len(ips)]
    elif isinstance(case["target"], int):
        target = ips[case["target"] % len(ips)]
    else:
        target = case["target"] or "255.255.255.255"
    # ---- datagrams in the order in which they arrive
    events = []
    for ip, script in zip(ips, case["hosts"]):
        for k, p in enumerate(script):
            port, data, verdict, info = build(p["what"], f"{ip}/{k}".ljust(40, "x"), legacy_port)
            if p["port"] == "stray":
                port, verdict = [9998, 20001, 80, 9999 if legacy_port != 9999 else 1][k % 4], "stray"
            for r in range(p["repeat"]):
                events.append([p["t"] + r * 0.001, ip, port, data, verdict, info, p["what"]])
    events.sort(key=lambda e: e[0])
    for i, e in enumerate(events):
        e[0] += 0.005 + i * EPS
    # ---- the model
    first = {}
    for e in events:
        if e[4] != "stray":
            first.setdefault(e[1], e)
    end = float(timeout)
    if target in first and first[target][0] < timeout:
        end = first[target][0]
    margin = 0.01
    creds = {"creds": Credentials("u", "p"), "both": Credentials("u", "p"), "userpass": Credentials("u", "p")}.get(case["creds"])
    calls, unsupported, raws = [], [], []
    got = {}

    async def main(loop):
        t0 = loop.time()

        def opened(tr):
            for e in events:
                loop.call_at(t0 + e[0], tr.deliver, e[3], (e[1], e[2]))

        net.udp_on_open = opened

        async def on_discovered(dev):
            calls.append((loop.time() - t0, dev))
            if case["cb"] == "slow":
                await asyncio.sleep(20)

        async def on_unsupported(ex):
            unsupported.append(ex)

        kw = {"discovery_timeout": timeout, "port": case["port"], "timeout": case["devtimeout"]}
        if case["creds"] == "creds":
            kw["credentials"] = creds
        elif case["creds"] == "both":     # the credentials win
            kw.update(credentials=creds, username="x", password="y")
        elif case["creds"] == "userpass":
            kw.update(username="u", password="p")
        elif case["creds"] == "useronly":
            kw.update(username="u")
        if case["raw"]:
            kw["on_discovered_raw"] = raws.append
        if case["on_unsupported"]:
            kw["on_unsupported"] = on_unsupported
        host = target
        if case["mode"] == "single-name":
            host = "plug.example"
            net.dns[host] = target if case["exists"] else None
        try:
            if single:
                got["result"] = await Discover.discover_single(host, **kw)
            else:
                if case["cb"] != "none":
                    kw["on_discovered"] = on_discovered
                if case["target"] is not None:
                    kw["target"] = target
                got["result"] = await Discover.discover(discovery_packets=n_packets, **kw)
        except KasaException as ex:
            got["exc"] = ex
        got["took"] = loop.time() - t0
        await asyncio.sleep(60)
        got["unhandled"] = list(loop.unhandled)
        return host

    log = logging.getLogger("kasa")
    level = log.level
    log.setLevel(logging.DEBUG if case["debug"] else logging.CRITICAL)
    try:
        host = vtime.run(main, net=net)
    finally:
        log.setLevel(level)
    if case["mode"] == "single-name" and not case["exists"]:
        require(isinstance(got.get("exc"), KasaException) and not isinstance(got["exc"], KasaTimeout),
                f"unknown host name: {got}")
        ctx.label("unknown host")
        return
    require(not got["unhandled"], "a datagram raised", *[repr(u.get("exception")) + " " + str(u.get("message"))
                                                         for u in got["unhandled"][:2]])
    eq(len(net.udp), 1, "number of UDP endpoints")
    require(net.udp[0].closed, "the UDP endpoint was left open")
    eq(len(net.conns), 0, "TCP connections opened by discovery")
    # ---- probes
    spacing = timeout / n_packets
    sent = net.udp[0].sent
    base = sent[0][0] if sent else 0
    due = [i * spacing for i in range(n_packets)]
    n_due = len([d for d in due if d < end])
    ambiguous = any(abs(d - end) < margin for d in due)
    problems = disco.check_probes(sent, target, legacy_port, None if ambiguous else n_due, timeout)
    require(not problems, "probes", *problems[:3])
    for t, _, _ in sent:
        require(any(abs(t - base - d) < margin for d in due), f"probe sent after {t - base} seconds, expected at {due}")
    # ---- end
    slow = 20 if case["cb"] == "slow" and not single else 0
    require(got["took"] <= end + slow + margin, f"discovery took {got['took']} seconds, should have ended after {end}")
    if not single or target not in first:
        require(got["took"] >= end - margin, f"discovery took {got['took']} seconds, should have waited for {end}")
    # ---- results
    if single:
        check_single(case, ctx, got, first, target, host, end, margin, unsupported, creds)
        return
    require("exc" not in got, f"discovery raised {got.get('exc')!r}")
    devices = got["result"]
    require(set(devices) <= set(ips), f"devices for hosts that did not answer: {set(devices) - set(ips)}")
    called = [d.host for _, d in calls]
    if case["cb"] != "none":
        eq(len(called), len(set(called)), f"on_discovered called repeatedly ({called})")
    un = [getattr(u, "host", None) for u in unsupported]
    eq(len(un), len(set(un)), f"on_unsupported called repeatedly ({un})")
    require(None not in un, f"on_unsupported without the host: {unsupported!r}")
    require(not set(un) & set(devices), "a host is both discovered and unsupported")
    require(set(un) <= set(ips), f"on_unsupported for hosts that did not answer: {un}")
    for ip in ips:
        e = first.get(ip)
        ctx.label(e[6][0] if e else "silent")
        late = e is not None and e[0] > end + margin
        unsure = e is not None and abs(e[0] - end) <= margin and ip != target
        if e is None or (late and not slow):
            require(ip not in devices and ip not in un, f"{ip} reported although it did not answer in time")
            continue
        if late or unsure:
            continue
        if e[4] == "ok":
            require(ip in devices, f"{ip} answered with {e[6]} and is missing from the result {sorted(devices)}")
            check_device(devices[ip], ip, e, case, creds)
        elif e[4] == "unsup":
            require(ip not in devices, f"{ip} ({e[6]}) is not supported but was returned as {devices.get(ip)!r}")
            if case["on_unsupported"]:
                require(ip in un, f"on_unsupported not called for {ip} ({e[6]}): {un}")
        elif e[4] == "bad":
            require(ip not in devices and ip not in un, f"{ip} sent {e[6]} and was reported")
        if case["cb"] != "none":
            eq(ip in called, ip in devices, f"on_discovered called for {ip} ({e[6]})")
            for _, d in calls:
                if d.host == ip:
                    require(d is devices[ip], "on_discovered was given another device object")
        if case["raw"] and e[4] in ("ok", "unsup"):
            mine = [r for r in raws if r["meta"]["ip"] == ip]
            eq(mine, [{"discovery_response": e[5], "meta": {"ip": ip, "port": e[2]}}], f"raw callback for {ip}")
    kinds = {e[6][0] for e in first.values()}
    ctx.nontrivial(len(first) > 1 and len(kinds) > 1 or len(events) > len(first))


def check_device(dev, ip, e, case, creds):
    with judging(f"device at {ip} ({e[6]})"):
        eq(dev.host, ip, "host")
        if e[6][0] == "legacy":
            eq(type(dev).__name__, disco.legacy_class(e[5]["system"]["get_sysinfo"]), "class")
            eq(dev.alias, e[5]["system"]["get_sysinfo"]["alias"], "alias")
        else:
            exp = disco.expected(e[5]["result"])[1]
            eq(type(dev).__name__, exp["cls"], "class")
            if "Smart" in exp["cls"]:
                eq(dev.device_id, e[5]["result"]["device_id"], "device_id")
        eq(dev.config.credentials, creds, "credentials")
        eq(dev.config.timeout, case["devtimeout"] or 5, "timeout")
        eq(dev.config.port_override, case["port"], "port override")


def check_single(case, ctx, got, first, target, host, end, margin, unsupported, creds):
    e = first.get(target)
    exc, res = got.get("exc"), got.get("result")
    ctx.label("single " + (e[4] if e else "silent"))
    if e is not None and abs(e[0] - case["timeout"]) <= margin:
        return
    if e is None or e[0] > case["timeout"]:
        require(isinstance(exc, KasaTimeout), f"no answer: {exc!r} {res!r}")
    elif e[4] == "ok":
        require(exc is None and res is not None, f"{target} answered {e[6]}: {exc!r}")
        eq(res.host, host, "host of the device")
        res.host = target
        check_device(res, target, e, case, creds)
    elif e[4] == "unsup":
        if case["on_unsupported"]:
            require(exc is None and res is None and len(unsupported) == 1, f"{e[6]}: {exc!r} {res!r} {unsupported}")
        else:
            require(isinstance(exc, UnsupportedDeviceError), f"{target} answered {e[6]}: {exc!r} {res!r}")
            eq(exc.host, target, "host of the error")
    elif e[4] == "bad":
        require(exc is not None and not isinstance(exc, UnsupportedDeviceError), f"{target} sent {e[6]}: {exc!r}, {res!r}")
        require(not isinstance(exc, KasaTimeout), f"the invalid answer {e[6]} was reported as a timeout")
    else:
        require(not isinstance(exc, KasaTimeout), f"the answer {e[6]} was reported as a timeout")
    ctx.nontrivial()


SUBS = [Sub("datagrams", cases, check, quick=20000, thorough=100000, shards=8,
            rule="several hosts with different kinds of answers, or duplicated/stray datagrams")]
