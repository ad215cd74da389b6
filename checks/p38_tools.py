"""P38: the developer tools list, decode and update recorded devices faithfully."""
from __future__ import annotations

import asyncio
import contextlib
import copy
import hashlib
import io
import json
import os
import re
import shutil
import struct
import sys
import tempfile
import types
from collections import Counter
from pathlib import Path
from unittest import mock

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from hypothesis import strategies as st

import env
import gen
import taint
import vtime
from core import Sub, eq, fail, judging, require

LEVEL = "exploration"
RULE = ("Lists of supported devices: at least two devices were listed; captures: at least one request was decoded; "
        "fixture updates: an identifying value had to go.")
ASSUMPTIONS = ["pyshark and dpkt, which the capture tools read files with, are not installed: stand-ins give the "
               "packets with the fields those libraries document",
               "the product group of a model is the one the list names at the pinned commit",
               "fixtures are changed in model, region, versions and discovery data only"]
GROUPS = {k: tuple(v) for k, v in json.loads((Path(__file__).parent.parent / "lib/supported_groups.json").read_text()).items()}


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="p38-")
    try:
        os.chdir(d)
        yield Path(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


# ------------------------------------------------------------------ supported devices
FOLDERS = {"iot": "tests/fixtures/iot", "smart": "tests/fixtures/smart", "smartchild": "tests/fixtures/smart/child",
           "cam": "tests/fixtures/smartcam", "camchild": "tests/fixtures/smartcam/child"}


def recorded():
    out = []
    for kind, folder in FOLDERS.items():
        for f in sorted((Path(env.REPO) / folder).glob("*.json")):
            out.append((kind, f.name))
    return out


def load(kind, name):
    return json.loads((Path(env.REPO) / FOLDERS[kind] / name).read_text())


def supported_cases():
    word = st.text("ABCDEFGHKLMPSTX0123456789", min_size=2, max_size=6)
    ver = st.builds(lambda a, b, c: f"{a}.{b}.{c}", st.integers(0, 12), st.integers(0, 30), st.integers(0, 30))
    one = st.fixed_dictionaries({
        "file": st.sampled_from(recorded()), "model": st.none() | st.none() | word, "region": st.sampled_from([None, None, "", "EU", "US", "AU(2)"[:2], "JP"]),
        "hw": st.none() | st.sampled_from(["1.0", "2.0", "10.0", "3.26"]), "fw": st.none() | ver, "build": st.sampled_from([None, " Build 240101 Rel.1", ""]),
        "disco": st.sampled_from(["keep", "keep", "drop", "auth", "noauth"])})
    return st.fixed_dictionaries({"devs": st.lists(one, max_size=12), "gone": st.one_of(st.just([]), st.lists(one, max_size=3)), "twice": st.booleans(), "names": st.integers(0, 10**6),
                                  "before": st.sampled_from(["", "# Title\n\nText\n", "a\n<!--SUPPORTED_START -->\n"]),
                                  "after": st.sampled_from(["", "[^1]: note\n", "## Kasa devices\n- **X**\n"]),
                                  "old": st.sampled_from(["", "## Kasa devices\n\n- **OLD1**\n", "\n\n"]), "ci": st.booleans()})


def prepare(c):
    """The fixture as changed by the case -> data, (brand, group, model), (region, hw, fw, auth)."""
    kind, name = c["file"]
    d = load(kind, name)
    disco = d.get("discovery_result")
    if disco and c["disco"] == "drop":
        del d["discovery_result"]
        disco = None
    res = disco.get("result") if disco else None
    fw = lambda old: old if c["fw"] is None else c["fw"] + (c["build"] or "")    # noqa: E731
    if kind == "iot":
        s = d["system"]["get_sysinfo"]
        s = s.get("system", s).get("get_sysinfo", s) if "system" in s else s
        model, _, region = s["model"].partition("(")
        region = region.replace(")", "")
        orig = model
        model = c["model"] or model
        region = region if c["region"] is None else c["region"]
        s["model"] = f"{model}({region})" if region else model
        s["hw_ver"], s["sw_ver"] = c["hw"] or s["hw_ver"], fw(s["sw_ver"])
        if res is not None and c["disco"] in ("auth", "noauth"):
            if c["disco"] == "noauth":
                res.pop("mgt_encrypt_schm", None)
            else:
                res.setdefault("mgt_encrypt_schm", {"encrypt_type": "KLAP"})
        auth = bool(res and "mgt_encrypt_schm" in res)
        hw, ver = s["hw_ver"], s["sw_ver"]
    elif kind in ("smart", "smartchild"):
        s = d["get_device_info"]
        orig = s["model"]
        if res is not None:
            orig = res["device_model"].partition("(")[0]
            old = res["device_model"].partition("(")[2].replace(")", "")
            model, region = c["model"] or orig, old if c["region"] is None else c["region"]
            res["device_model"] = f"{model}({region})" if region else model
            region = region or s.get("specs")
        else:
            model = s["model"] = c["model"] or s["model"]
            if c["region"] is not None:
                s["specs"] = c["region"]
            region = s.get("specs")
        s["hw_ver"], s["fw_ver"] = c["hw"] or s["hw_ver"], fw(s["fw_ver"])
        hw, ver, auth = s["hw_ver"], s["fw_ver"], True
    else:
        s = d.get("child_info_from_parent") if kind == "camchild" else None
        if s:
            key = "sw_ver", "hw_ver"
        else:
            s, key = d["getDeviceInfo"]["device_info"]["basic_info"], ("sw_version", "hw_version")
        if res is not None and key[0] == "sw_version":
            orig = res["device_model"]
            model = res["device_model"] = c["model"] or orig
        else:
            orig = s["device_model"]
            model = s["device_model"] = c["model"] or orig
        if c["region"] is not None:
            s["region"] = c["region"]
        region = s.get("region")
        s[key[1]], s[key[0]] = c["hw"] or s[key[1]], fw(s[key[0]])
        hw, ver, auth = s[key[1]], s[key[0]], True
    if orig not in GROUPS:
        orig = {"model": orig}[("model")]
        return None
    brand, group = GROUPS[orig]
    return d, (brand, group, model), (region or "", hw, ver.split(" ")[0], auth)


def parse_supported(text):
    out, brand, group, model, order = {}, None, None, None, []
    for line in text.splitlines():
        if m := re.fullmatch(r"## (\w+) devices", line):
            brand, group, model = m[1].lower(), None, None
        elif m := re.fullmatch(r"### (.+)", line):
            group, model = m[1], None
        elif m := re.fullmatch(r"- \*\*(.+)\*\*", line):
            model = m[1]
            require((brand, group, model) not in out, "a model is listed twice", line)
            out[brand, group, model] = Counter()
            order.append((brand, group, model))
        elif m := re.fullmatch(r"  - Hardware: (\S+)(?: \((.+)\))? / Firmware: (\S+?)(\[\^1\])?", line):
            out[brand, group, model][m[2] or "", m[1], m[3], bool(m[4])] += 1
        elif line.strip() and not line.startswith(("Some newer Kasa", "All Tapo devices")):
            fail(f"unexpected line in the list: {line!r}")
    return out, order


def supported(case, ctx):
    with judging("tool"):
        from devtools import generate_supported as gs
    want, files = {}, []
    for k, c in enumerate(case["devs"]):
        p = prepare(copy.deepcopy(c))
        if p is None:
            continue
        data, key, version = p
        files.append((c["file"][0], data))
        want.setdefault(key, Counter())[version] += 1
    with scratch() as tmp:
        for f in FOLDERS.values():
            (tmp / f).mkdir(parents=True, exist_ok=True)
        (tmp / "tests/fixtures/smart/notes.txt").write_text("no fixture")
        for k, (kind, data) in enumerate(files):
            n = hashlib.sha1(f"{case['names']}{k}".encode()).hexdigest()[:10]
            (tmp / FOLDERS[kind] / f"{n}.json").write_text(json.dumps(data))
        doc = case["before"] + "<!--SUPPORTED_START-->\n" + case["old"] + "<!--SUPPORTED_END-->\n" + case["after"]
        for f in ("README.md", "SUPPORTED.md"):
            Path(f).write_text(doc)
        e = {**os.environ, **({"CI": "1"} if case["ci"] else {})}
        if not case["ci"]:
            e.pop("CI", None)
        out = []
        if case["gone"]:
            # the list was made when there were more devices
            extra = []
            for k, c in enumerate(case["gone"]):
                if p := prepare(copy.deepcopy(c)):
                    extra.append(tmp / FOLDERS[c["file"][0]] / f"zz{k}.json")
                    extra[-1].write_text(json.dumps(p[0]))
            with judging("generate_supported"), contextlib.redirect_stdout(io.StringIO()):
                gs.generate_supported([])
            for f in extra:
                f.unlink()
        for _ in range(2):
            with judging("generate_supported"), contextlib.redirect_stdout(io.StringIO()), mock.patch.dict(os.environ, e, clear=True):
                gs.generate_supported([])
            out.append([Path(f).read_text() for f in ("README.md", "SUPPORTED.md")])
        eq(out[1], out[0], "lists after a second run")
        readme, detail = out[0]
        pre, post = case["before"] + "<!--SUPPORTED_START-->\n", "<!--SUPPORTED_END-->\n" + case["after"]
        for t, f in ((readme, "README.md"), (detail, "SUPPORTED.md")):
            require(t.startswith(pre) and t.endswith(post), f"{f}: text around the list changed", t[:80], t[-80:])
        with judging("list"):
            got, order = parse_supported(detail[len(pre):len(detail) - len(post)])
    marked = {k: Counter({(r, h, f, a and k[0] == "kasa"): n for (r, h, f, a), n in sorted(v.items())}) for k, v in want.items()}
    eq(sorted(got), sorted(marked), "models listed")
    for k, v in marked.items():
        eq(sorted(got[k]), sorted(v), f"versions listed for {k}")
        require(all(got[k][x] <= n for x, n in v.items()), f"a version of {k} is listed too often", dict(got[k]))
    for bg in {k[:2] for k in order}:
        ms = [k[2] for k in order if k[:2] == bg]
        eq(ms, sorted(ms), f"order of the models of {bg}")
    # the summary
    got, brand = {}, None
    for line in readme[len(pre):len(readme) - len(post)].splitlines():
        if m := re.fullmatch(r"### Supported (\w+)(\[\^1\])? devices", line):
            brand = m[1].lower()
            eq(bool(m[2]), brand == "tapo", f"mark of {brand}")
        elif m := re.fullmatch(r"- \*\*(.+?)(\[\^3\])?\*\*: (.+)", line):
            eq(bool(m[2]), m[1] == "Hub-Connected Devices", f"mark of {m[1]}")
            for x in m[3].split(", "):
                mm = re.fullmatch(r"(.+?)(\[\^[12]\])?", x)
                require((brand, m[1], mm[1]) not in got, "a model is in the summary twice", line)
                got[brand, m[1], mm[1]] = mm[2]
        else:
            require(not line.strip(), "unexpected line in the summary", line)
    exp = {}
    for k, v in want.items():
        n = sum(c for x, c in v.items() if x[3])
        exp[k] = None if k[0] != "kasa" or not n else "[^1]" if n == sum(v.values()) else "[^2]"
    eq(got, exp, "summary")
    ctx.label(f"{min(len(files), 5)} devices")
    ctx.nontrivial(len(files) >= 2)


# ------------------------------------------------------------------ captures of KLAP devices
sha256 = lambda b: hashlib.sha256(b).digest()     # noqa: E731
sha1 = lambda b: hashlib.sha1(b).digest()         # noqa: E731


class Layer:
    """What the capture library gives of a layer."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def get(self, name, default=None):
        return self.__dict__.get(name, default)

    def get_field_value(self, name, raw=False):
        require(raw, "the formatted value of a field depends on the platform", name)
        return self.__dict__.get(name)


class Packet:
    pass


def packet(src, dst, uri=None, query=None, body=b"", response_for=None, new=False):
    p = Packet()
    p.ip = Layer(src=src, dst=dst)
    if response_for is not None:
        p.http = Layer(file_data=body.hex(), response_code="200")
        if new:
            p.http.request_uri = response_for
        else:
            p.http.response_for_uri = f"http://{src}{response_for}"
    elif uri is not None:
        full = uri + (f"?{query}" if query else "")
        p.http = Layer(request_uri=full, request_full_uri=f"http://{dst}{full}", file_data=body.hex())
        if query:
            p.http.request_uri_path, p.http.request_uri_query = uri, query
    return p


class Phone:
    """A client of a KLAP device, written from the protocol's description."""

    def __init__(self, user, password, rnd):
        self.auth = sha256(sha1(user.encode()) + sha1(password.encode()))
        self.rnd = rnd

    def handshake(self, auth, seq):
        self.l, self.r, self.a = self.rnd(16), self.rnd(16), auth
        self.key = sha256(b"lsk" + self.l + self.r + auth)[:16]
        iv = sha256(b"iv" + self.l + self.r + auth)
        self.iv, self.seq = iv[:12], int.from_bytes(iv[-4:], "big", signed=True) if seq is None else seq
        self.sig = sha256(b"ldk" + self.l + self.r + auth)[:28]
        return self.l, self.r + sha256(self.l + self.r + auth), sha256(self.r + self.l + auth)

    def encrypt(self, text):
        self.seq += 1
        q = (self.seq & 0xFFFFFFFF).to_bytes(4, "big")
        raw = text.encode()
        n = 16 - len(raw) % 16
        c = Cipher(algorithms.AES(self.key), modes.CBC(self.iv + q)).encryptor()
        ct = c.update(raw + bytes([n]) * n) + c.finalize()
        return f"seq={self.seq}", sha256(self.sig + q + ct) + ct


def klap_cases():
    payload = st.dictionaries(st.sampled_from(["method", "params", "x", "terminal_uuid"]), st.one_of(gen.TEXT, st.integers(), st.lists(gen.TEXT, max_size=3)), max_size=4)
    op = st.one_of(st.tuples(st.just("request"), payload), st.tuples(st.just("request"), payload), st.tuples(st.just("request"), payload),
                   st.tuples(st.just("handshake"), st.sampled_from(["own", "own", "kasa", "tapo"])),
                   st.tuples(st.just("noise"), st.sampled_from(["other source", "other phone", "other device", "other path", "plain", "answer"])))
    return st.fixed_dictionaries({
        "user": gen.TEXT, "password": gen.TEXT, "first": st.sampled_from(["own", "own", "own", "kasa", "tapo", "none"]),
        "seq": st.sampled_from([None, None, None, -1, 0, -2, -2**31, 2**31 - 40]), "seed": st.integers(0, 2**32), "new": st.booleans(),
        "ops": st.lists(op, max_size=12), "wrong": st.sampled_from([False] * 7 + [True])})


def klap_tool():
    """The decoder, with a stand-in for the capture library."""
    if "pyshark" not in sys.modules:
        m = types.ModuleType("pyshark")
        m.FileCapture = None
        sys.modules["pyshark"] = m
    with judging("tool"):
        from devtools import parse_pcap_klap as tool
    return tool


def klap(case, ctx):
    from kasa.credentials import DEFAULT_CREDENTIALS, get_default_credentials
    tool = klap_tool()
    rng = __import__("random").Random(case["seed"])
    ph = Phone(case["user"], case["password"], rng.randbytes)
    dev, me = "10.0.0.9", "10.0.0.2"
    accounts = {"own": ph.auth}
    for k, v in (("kasa", DEFAULT_CREDENTIALS["KASA"]), ("tapo", DEFAULT_CREDENTIALS["TAPO"])):
        c = get_default_credentials(v)
        accounts[k] = sha256(sha1(c.username.encode()) + sha1(c.password.encode()))
    if case["wrong"]:
        accounts["own"] = sha256(b"another account")
    packets, want, refused = [], [], False

    def hello(who):
        nonlocal refused
        l, r, p = ph.handshake(accounts[who], case["seq"])
        refused |= who == "own" and case["wrong"]
        packets.append(packet(me, dev, "/app/handshake1", body=l))
        packets.append(packet(dev, me, body=r, response_for="/app/handshake1", new=case["new"]))
        packets.append(packet(me, dev, "/app/handshake2", body=p))
        packets.append(packet(dev, me, body=b"", response_for="/app/handshake2", new=case["new"]))
    if case["first"] != "none":
        hello(case["first"])
    else:
        ph.handshake(ph.auth, case["seq"])
    known = case["first"] != "none"
    for kind, arg in case["ops"]:
        if kind == "handshake":
            hello(arg)
            known = True
        elif kind == "request":
            q, body = ph.encrypt(json.dumps(arg))
            packets.append(packet(me, dev, "/app/request", q, body))
            packets.append(packet(dev, me, body=body, response_for=f"/app/request?{q}", new=case["new"]))
            if known:
                want.append(arg)
        elif arg == "other source":
            packets.append(packet("10.0.0.3", dev, "/app/request", "seq=5", b"\1" * 48))
        elif arg == "other phone":
            o = Phone(case["user"], case["password"], rng.randbytes)
            l, r, pr = o.handshake(accounts["own"], None)
            q, body = o.encrypt('{"method": "other"}')
            packets.extend([packet("10.0.0.3", dev, "/app/handshake1", body=l), packet(dev, "10.0.0.3", body=r, response_for="/app/handshake1", new=case["new"]),
                            packet("10.0.0.3", dev, "/app/request", q, body)])
        elif arg == "other device":
            packets.append(packet(me, "10.0.0.8", "/app/request", f"seq={ph.seq + 9}", b"\2" * 48))
            packets.append(packet(me, "10.0.0.8", "/app/handshake1", body=b"\3" * 16))
        elif arg == "other path":
            packets.append(packet(me, dev, "/index.html"))
            packets.append(packet(me, dev, "/other", "a=1"))
        elif arg == "plain":
            packets.append(packet(me, dev))
        else:
            packets.append(packet(dev, me, body=b"x" * 48, response_for="/other", new=case["new"]))
    run = []

    class Capture:
        def __init__(self, path, display_filter=None, eventloop=None):
            self._current_packet, self.closed = 0, False
            run.append(self)

        def next(self):
            if self._current_packet >= len(packets):
                raise StopIteration
            self._current_packet += 1
            return packets[self._current_packet - 1]

        def close(self):
            self.closed = True
    loop = asyncio.new_event_loop()
    ctx.label(case["first"], "wrong password" if refused else "right password")
    with scratch(), mock.patch.object(tool.pyshark, "FileCapture", Capture, create=True), contextlib.redirect_stdout(io.StringIO()):
        try:
            if refused:
                # nothing can be decoded, and nothing is invented
                try:
                    tool.main(loop, case["user"], case["password"], dev, me, "x.pcap", "out.json")
                except ValueError:
                    return
                fail("a capture of another account is decoded")
            with judging("decoding a capture"):
                tool.main(loop, case["user"], case["password"], dev, me, "x.pcap", "out.json")
            with judging("output"):
                got = json.loads(Path("out.json").read_text())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    eq(got, want, "requests decoded")
    ctx.nontrivial(len(want) >= 1)


# ------------------------------------------------------------------ captures of legacy devices
def xor(text):
    k, out = 171, bytearray()
    for b in text.encode():
        k ^= b
        out.append(k)
    return bytes(out)


def xor_tool():
    if "dpkt" not in sys.modules:
        import asyncclick
        dpkt, eth, pcap = types.ModuleType("dpkt"), types.ModuleType("dpkt.ethernet"), types.ModuleType("dpkt.pcap")
        eth.ETH_TYPE_IP = 0x0800

        class Part:
            pass

        class Ethernet(Part):
            """Frames as dpkt takes them apart."""

            def __init__(self, buf):
                self.type = struct.unpack("!H", buf[12:14])[0]
                self.data = buf[14:]
                if self.type == 0x0800:
                    self.ip = self.data = IP(buf[14:])

        class IP(Part):
            def __init__(self, buf):
                self.p = buf[9]
                size = struct.unpack("!H", buf[2:4])[0]
                body = buf[(buf[0] & 15) * 4:size]
                self.data = body
                if self.p in (6, 17):
                    t = Part()
                    t.sport, t.dport = struct.unpack("!HH", body[:4])
                    t.data = body[(body[12] >> 4) * 4:] if self.p == 6 else body[8:]
                    self.data = t
                    setattr(self, "tcp" if self.p == 6 else "udp", t)

        class Reader:
            def __init__(self, f):
                self.f = f

            def __iter__(self):
                return iter(self.f)
        eth.Ethernet, pcap.Reader = Ethernet, Reader
        dpkt.ethernet, dpkt.pcap = eth, pcap
        sys.modules.update({"dpkt": dpkt, "dpkt.ethernet": eth, "dpkt.pcap": pcap})
        sys.modules.setdefault("click", asyncclick)
    with judging("tool"):
        from devtools import parse_pcap as tool
    return tool


def frame(proto, sport, dport, data, etype=0x0800):
    if proto == 6:
        body = struct.pack("!HHLLBBHHH", sport, dport, 1, 2, 5 << 4, 16, 1000, 0, 0) + data
    else:
        body = struct.pack("!HHHH", sport, dport, 8 + len(data), 0) + data
    ip = struct.pack("!BBHHHBBH4s4s", 0x45, 0, 20 + len(body), 1, 0, 64, proto, 0, b"\x0a\0\0\1", b"\x0a\0\0\2") + body
    return b"\1" * 12 + struct.pack("!H", etype) + ip


def xor_cases():
    payload = st.dictionaries(st.sampled_from(["system", "time", "context"]), st.dictionaries(st.sampled_from(["get_sysinfo", "set"]), st.one_of(
        st.none(), st.dictionaries(st.sampled_from(["alias", "x"]), gen.TEXT, max_size=2),
        st.fixed_dictionaries({"err_code": st.just(0), "alias": gen.TEXT}),
        st.fixed_dictionaries({"err_code": st.integers(-9, -1), "err_msg": st.sampled_from(["module not support", "[x]"])})), max_size=2) |
        st.fixed_dictionaries({"err_code": st.just(-1), "err_msg": st.just("module not support")}), max_size=2)
    return st.lists(st.fixed_dictionaries({
        "payload": payload, "proto": st.sampled_from([6, 6, 17, 17, 1]), "to": st.booleans(), "port": st.sampled_from([9999, 9999, 9999, 80]),
        "etype": st.sampled_from([0x0800] * 6 + [0x86DD]), "raw": st.sampled_from([None] * 5 + [b"", b"\xd0", b"\0\0\0\1\xd0garbage"])}), max_size=6)


async def summary(tool):
    from asyncclick.testing import CliRunner
    return await CliRunner(mix_stderr=False).invoke(tool.parse_pcap, ["x.pcap"], env={"COLUMNS": "1000"})


def legacy(case, ctx):
    tool = xor_tool()
    import asyncclick
    frames, want = [], []
    for c in case:
        text = json.dumps(c["payload"])
        enc = xor(text)
        data = (struct.pack("!L", len(enc)) + enc if c["proto"] == 6 else enc) if c["raw"] is None else c["raw"]
        sp, dp = (54321, c["port"]) if c["to"] else (c["port"], 54321)
        frames.append((1.0, frame(c["proto"], sp, dp, data, c["etype"])))
        if c["raw"] is None and c["proto"] in (6, 17) and c["port"] == 9999 and c["etype"] == 0x0800 and c["payload"]:
            want.append(c["payload"])
    asyncclick.globals.push_context(asyncclick.Context(asyncclick.Command("x")))
    try:
        with judging("decoding a capture"), contextlib.redirect_stdout(io.StringIO()):
            got = list(tool.read_payloads_from_file(frames))
    finally:
        asyncclick.globals.pop_context()
    eq(got, want, "payloads decoded")
    # the tool counts what it saw
    with scratch(), mock.patch.object(tool.dpkt.pcap, "Reader", lambda f: iter(frames)):
        Path("x.pcap").write_bytes(b"capture")
        r = vtime.run(lambda loop: summary(tool))
    if r.exception is not None:
        fail(f"the tool raised {type(r.exception).__name__}: {r.exception}", r.stdout[-200:])
    count = Counter(f"{m}.{c}" for w in want for m, cmds in w.items() if m != "context" and "err_code" not in cmds for c in cmds)
    for k, n in count.items():
        require(re.search(rf"'{re.escape(k)}': {n}\b", r.stdout), "count of a command", k, n, r.stdout[-400:])
    ctx.nontrivial(len(want) >= 1)


# ------------------------------------------------------------------ updating fixtures
def update_cases():
    return st.fixed_dictionaries({"files": st.lists(st.sampled_from(recorded()), min_size=1, max_size=4, unique=True), "seed": st.integers(0, 10**6),
                                  "plant": st.lists(st.booleans(), min_size=4, max_size=4), "flat": st.booleans(), "shuffle": st.booleans(), "dry": st.booleans()})


def update(case, ctx):
    from asyncclick.testing import CliRunner
    with judging("tool"):
        from devtools import update_fixtures as tool
    import p37_dump as dump
    t = taint.Taint(case["seed"])
    data = {}
    for k, (kind, name) in enumerate(case["files"]):
        d = load(kind, name)
        pairs = None
        if case["plant"][k]:
            disco = d.pop("discovery_result", None)
            t.plant(d, dump.IOT if kind == "iot" else dump.ALL)
            if disco is not None:
                t.plant(disco, dump.DISCO)
                d["discovery_result"] = disco
            ctx.nontrivial()
        if case["flat"] and "result" in d.get("discovery_result", {}):
            d["discovery_result"] = d["discovery_result"]["result"]
        if case["shuffle"] and "get_child_device_component_list" in d:
            d["get_child_device_component_list"]["child_component_list"].reverse()
        if "get_child_device_list" in d and "get_child_device_component_list" in d:
            comps = d["get_child_device_component_list"]["child_component_list"]
            pairs = [[c["device_id"] for c in comps].index(x["device_id"]) if x.get("device_id") in [c["device_id"] for c in comps] else None
                     for x in d["get_child_device_list"]["child_device_list"]]
        data[FOLDERS[kind] + "/" + name] = (kind, d, pairs)
    with scratch() as tmp:
        for f in (*FOLDERS.values(), "tests/fixtures/serialization"):
            (tmp / f).mkdir(parents=True, exist_ok=True)
        keep = json.dumps({"discovery_result": {"mac": "11:22:33:44:55:66"}, "mac": "11:22:33:44:55:66"})
        (tmp / "tests/fixtures/serialization/x.json").write_text(keep)
        for path, (kind, d, _) in data.items():
            (tmp / path).write_text(json.dumps(d, sort_keys=True, indent=4) + "\n")
        texts = []
        async def go(*args):
            return await CliRunner(mix_stderr=False).invoke(tool.cli, list(args))
        for n in range(3):
            if n or case["dry"]:
                r = vtime.run(lambda loop: go(*(["--dry-run"] if not n else [])))
                if r.exception is not None:
                    fail(f"the tool raised {type(r.exception).__name__}: {r.exception}", r.stdout[-200:])
            texts.append({p: (tmp / p).read_text() for p in data})
            if not n:
                for p, (kind, d, _) in data.items():
                    eq(json.loads(texts[0][p]), d, "fixture after a dry run")
        eq((tmp / "tests/fixtures/serialization/x.json").read_text(), keep, "file that is no fixture")
    eq(texts[2], texts[1], "fixtures after a second update")
    for path, (kind, d, pairs) in data.items():
        text = texts[1][path]
        with judging(f"fixture {path}"):
            got = json.loads(text)
        require(not t.found(text), f"{path}: identifying values left", t.found(text)[:4])
        require(text.count("REDACTED_") <= texts[0][path].count("REDACTED_"), f"{path}: values are partly left", text[text.find("REDACTED_") - 40:][:80])
        want = copy.deepcopy(d)
        disco, gdisco = want.pop("discovery_result", None), got.pop("discovery_result", None)
        eq(gdisco is None, disco is None, "presence of discovery_result")
        if disco is not None:
            if "result" not in disco:
                disco = {"result": disco, "error_code": 0}
            dump.same(disco, gdisco, dump.DISCO_HIDDEN, False, "discovery_result")
        if kind != "iot":
            got["child_devices"] = dict(enumerate(got.get("child_devices", {}).values()))
            want["child_devices"] = dict(enumerate(want.get("child_devices", {}).values()))
        dump.same(want, got, dump.IOT_HIDDEN if kind == "iot" else dump.HIDDEN, False, path)
        if pairs:
            comps = [c["device_id"] for c in got["get_child_device_component_list"]["child_component_list"]]
            kids = [x.get("device_id") for x in got["get_child_device_list"]["child_device_list"]]
            for x, j in zip(kids, pairs):
                if j is not None:
                    eq(comps[j], x, f"{path}: id of a child and its components")


SUBS = [
    Sub("supported", supported_cases, supported, quick=1200, thorough=20000, shards=2, tshards=4, rule="two devices listed"),
    Sub("klap", klap_cases, klap, quick=3000, thorough=40000, shards=2, tshards=4, rule="a request was decoded"),
    Sub("legacy", xor_cases, legacy, quick=6000, thorough=60000, tshards=2, rule="a payload was decoded"),
    Sub("update", update_cases, update, quick=300, thorough=4000, shards=2, tshards=4, rule="identifying values were planted"),
]
