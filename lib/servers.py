"""Independent reference devices speaking the HTTP based protocols.

They are written from the protocol descriptions, never by calling kasa code, and record in
``problems`` everything a client does that a real device could not accept.
"""
from __future__ import annotations

import base64
import hashlib
import json
import random
import re

import aiohttp
from cryptography.hazmat.primitives import padding as _pad
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding as _rsapad
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from net import Reply
from vtime import CLOCK

sha256 = lambda b: hashlib.sha256(b).digest()  # noqa: E731
sha1 = lambda b: hashlib.sha1(b).digest()  # noqa: E731
md5 = lambda b: hashlib.md5(b).digest()  # noqa: E731

# factory accounts (user, password)
DEFAULTS = {
    "KASA": ("kasa@tp-link.net", "kasaSetup"),
    "KASACAMERA": ("admin", "21232f297a57a5a743894a0e4a801fc3"),
    "TAPO": ("test@tp-link.net", "test"),
    "TAPOCAMERA": ("admin", "admin"),
}


def aes_cbc(key, iv, data, enc):
    c = Cipher(algorithms.AES(key), modes.CBC(iv))
    if enc:
        p = _pad.PKCS7(128).padder()
        data = p.update(data) + p.finalize()
        e = c.encryptor()
        return e.update(data) + e.finalize()
    d = c.decryptor()
    raw = d.update(data) + d.finalize()
    u = _pad.PKCS7(128).unpadder()
    return u.update(raw) + u.finalize()


def exc_by_name(name):
    import asyncio

    return {
        "disconnected": lambda: aiohttp.ServerDisconnectedError(),
        "oserror": lambda: aiohttp.ClientOSError(104, "Connection reset by peer"),
        "connector": lambda: aiohttp.ClientConnectorError(
            aiohttp.client_reqrep.ConnectionKey("h", 80, False, None, None, None, None),
            OSError(111, "refused")),
        "servertimeout": lambda: aiohttp.ServerTimeoutError("timeout"),
        "sockettimeout": lambda: aiohttp.SocketTimeoutError("timeout"),
        "timeout": lambda: asyncio.TimeoutError(),
        "payload": lambda: aiohttp.ClientPayloadError("incomplete"),
        "badhttp": lambda: aiohttp.ServerFingerprintMismatch(b"a", b"b", "h", 1),
        "response": lambda: aiohttp.ClientResponseError(None, (), status=400, message="bad"),
        "value": lambda: ValueError("odd"),
    }[name]()


class Server:
    """Base: counts requests, injects per-stage faults, holds the plaintext application."""

    def __init__(self, app=None, host="10.0.0.2", seed=0):
        self.app = app or (lambda req: {"error_code": 0, "result": {"echo": req}})
        self.host = host
        self.rng = random.Random(seed)
        self.problems = []
        self.faults = {}          # stage -> fault (consumed once) or list of faults
        self.log = []             # stages seen
        self.plain = []           # plaintext requests delivered to the application
        self.ssl_expected = None  # True/False/None
        self.raw = []

    def take(self, stage):
        self.log.append(stage)
        f = self.faults.get(stage)
        if isinstance(f, list):
            return f.pop(0) if f else None
        if f is not None:
            del self.faults[stage]
        return f

    def bad(self, msg):
        self.problems.append(msg)

    def common(self, req, fault):
        """Faults that do not depend on the protocol; returns a Reply or None."""
        if fault is None:
            return None
        kind = fault[0]
        if kind == "status":
            body = fault[2] if len(fault) > 2 else b""
            return Reply(fault[1], body)
        if kind == "exc":
            return Reply(exc=exc_by_name(fault[1]))
        if kind == "exc_read":
            return Reply(exc_on_read=exc_by_name(fault[1]))
        if kind == "body":
            return Reply(200, fault[1])
        return None

    def __call__(self, req):
        self.raw.append((req.full_url, req.body, req.headers, req.cookies))
        if req.host != self.host:
            self.bad(f"request for host {req.host} arrived at {self.host}")
        if req.method != "POST":
            self.bad(f"method {req.method}")
        if self.ssl_expected is True and req.u.scheme != "https":
            self.bad(f"plain http request {req.full_url}")
        if self.ssl_expected is False and req.u.scheme != "http":
            self.bad(f"https request {req.full_url}")
        return self.handle(req)

    def deliver(self, text):
        """Plaintext request text -> plaintext answer text (str) or bytes."""
        try:
            obj = json.loads(text)
        except ValueError as ex:
            self.bad(f"plaintext request is not JSON: {ex}")
            return json.dumps({"error_code": -1003})
        self.plain.append(obj)
        ans = self.app(obj)
        if isinstance(ans, bytes):
            return ans
        return ans if isinstance(ans, str) else json.dumps(ans, ensure_ascii=self.rng.random() < 0.5)


# ------------------------------------------------------------------ KLAP
class KlapServer(Server):
    def __init__(self, version, user, password, timeout=86400, use_timeout_cookie=True, **kw):
        super().__init__(**kw)
        self.version = version
        self.sessions = {}
        self.timeout = timeout
        self.use_timeout_cookie = use_timeout_cookie
        self.strict = True
        self.set_account(user, password)

    def set_account(self, user, password):
        u, p = user.encode(), password.encode()
        self.auth = md5(md5(u) + md5(p)) if self.version == 1 else sha256(sha1(u) + sha1(p))

    def reboot(self):
        self.sessions = {}

    def handle(self, req):
        stage = {"/app/handshake1": "hs1", "/app/handshake2": "hs2",
                 "/app/request": "req"}.get(req.path)
        if stage is None:
            self.bad(f"unknown path {req.path}")
            return Reply(404)
        fault = self.take(stage)
        if fault and fault[0] == "reboot":
            self.reboot()
        common = self.common(req, fault)
        if common is not None and fault[0] in ("status", "exc") and stage != "req":
            return common
        out = getattr(self, stage)(req, fault)
        return common if common is not None else out

    def hs1(self, req, fault):
        if len(req.body) != 16:
            self.bad(f"handshake1 body of {len(req.body)} bytes")
            return Reply(400)
        remote = self.rng.randbytes(16)
        sid = "S%016X" % self.rng.getrandbits(64)
        local = req.body
        h = sha256(local + self.auth) if self.version == 1 else sha256(local + remote + self.auth)
        self.sessions[sid] = {"local": local, "remote": remote, "stage": 1, "t": CLOCK.mono,
                              "seq": None}
        body = remote + h
        if fault:
            if fault[0] == "forge":
                b = bytearray(body)
                b[16 + fault[1] % 32] ^= 1 << (fault[1] % 8)
                body = bytes(b)
            elif fault[0] == "forge_seed":
                b = bytearray(body)
                b[fault[1] % 16] ^= 1 << (fault[1] % 8)
                body = bytes(b)
                if self.version == 1:   # v1 proof does not cover the remote seed
                    self.sessions[sid]["remote"] = body[:16]
            elif fault[0] == "len":
                body = (body * 3)[: fault[1]]
        cookies = {"TP_SESSIONID": sid}
        if self.use_timeout_cookie:
            cookies["TIMEOUT"] = str(self.timeout)
        return Reply(200, body, cookies=cookies)

    def session(self, req):
        if "TIMEOUT" in req.cookies:
            self.bad("the TIMEOUT cookie was sent back to the device")
        sid = req.cookies.get("TP_SESSIONID")
        return self.sessions.get(sid)

    def hs2(self, req, fault):
        s = self.session(req)
        if s is None or s["stage"] != 1:
            self.bad("handshake2 without a matching handshake1 session")
            return Reply(403)
        l, r, a = s["local"], s["remote"], self.auth
        want = sha256(r + a) if self.version == 1 else sha256(r + l + a)
        if req.body != want:
            self.bad("handshake2 proof is wrong")
            return Reply(403)
        s["stage"] = 2
        s["key"] = sha256(b"lsk" + l + r + a)[:16]
        iv = sha256(b"iv" + l + r + a)
        s["iv"] = iv[:12]
        s["seq"] = int.from_bytes(iv[-4:], "big", signed=True)
        s["sig"] = sha256(b"ldk" + l + r + a)[:28]
        return Reply(200, b"")

    def req(self, req, fault):
        s = self.session(req)
        if s is None or s["stage"] != 2:
            if fault is None or fault[0] != "reboot":
                if not getattr(self, "rebooted", False):
                    self.bad("request on a session the device does not have")
            return Reply(403)
        age = CLOCK.mono - s["t"]
        if age >= self.timeout:
            self.bad(f"request on a session that expired ({age:.0f}s >= {self.timeout}s)")
            return Reply(403)
        try:
            seq = int(req.query["seq"])
        except (KeyError, ValueError):
            self.bad(f"bad seq in {req.full_url}")
            return Reply(400)
        if seq <= s["seq"] or (self.strict and seq != s["seq"] + 1):
            self.bad(f"sequence number {seq}, expected {s['seq'] + 1}")
            return Reply(403)
        s["seq"] = seq
        packed = (seq & 0xFFFFFFFF).to_bytes(4, "big")
        sig, ct = req.body[:32], req.body[32:]
        if sig != sha256(s["sig"] + packed + ct):
            self.bad("request signature is wrong")
            return Reply(403)
        try:
            text = aes_cbc(s["key"], s["iv"] + packed, ct, False).decode()
        except ValueError as ex:
            self.bad(f"request does not decrypt: {ex}")
            return Reply(400)
        ans = self.deliver(text)
        raw = ans if isinstance(ans, bytes) else ans.encode()
        key, iv = s["key"], s["iv"] + packed
        if fault and fault[0] == "foreign":      # answer encrypted for another session
            key = sha256(b"other" + bytes([fault[1] % 256]))[:16]
        if fault and fault[0] == "plain":
            raw = fault[1]
        out = aes_cbc(key, iv, raw, True)
        out = sha256(s["sig"] + packed + out) + out
        if fault and fault[0] == "truncate":
            out = out[: len(out) - 1 - fault[1] % 15]
        if fault and fault[0] == "delay":
            return Reply(200, out, delay=fault[1])
        return Reply(200, out)


# ------------------------------------------------------------------ AES securePassthrough
class AesServer(Server):
    def __init__(self, login_version, user, password, timeout=86400, login_error=-1501,
                 cookie="TP_SESSIONID", use_timeout_cookie=True, **kw):
        super().__init__(**kw)
        self.login_version = login_version
        self.timeout = timeout
        self.cookie = cookie
        self.use_timeout_cookie = use_timeout_cookie
        self.login_error = login_error
        self.session = None
        self.logins = []
        self.unencrypted = False
        self.user, self.password = user, password

    def hashed(self, user, password):
        un = base64.b64encode(hashlib.sha1(user.encode()).hexdigest().encode()).decode()
        if self.login_version == 2:
            pw = base64.b64encode(hashlib.sha1(password.encode()).hexdigest().encode()).decode()
            return {"username": un, "password2": pw}
        return {"username": un, "password": base64.b64encode(password.encode()).decode()}

    def reboot(self):
        self.session = None

    def err(self, code):
        return Reply(200, {"error_code": code})

    def handle(self, req):
        if req.path != "/app":
            self.bad(f"unknown path {req.path}")
            return Reply(404)
        try:
            obj = req.json()
            method = obj["method"]
        except (ValueError, KeyError, TypeError) as ex:
            self.bad(f"bad envelope: {ex!r}")
            return self.err(-1003)
        if req.headers.get("requestbyapp") != "true":
            self.bad("header requestByApp is missing")
        if method == "handshake":
            return self.handshake(req, obj)
        if method != "securePassthrough":
            self.bad(f"clear-text method {method}")
            return self.err(-1002)
        return self.passthrough(req, obj)

    def handshake(self, req, obj):
        fault = self.take("hs")
        if fault and fault[0] == "reboot":
            self.reboot()
            fault = None
        common = self.common(req, fault)
        if common is not None:
            return common
        if fault and fault[0] == "code":
            return Reply(200, {"error_code": fault[1], **({"result": {}} if fault[1] % 2 else {})})
        clen = req.headers.get("content-length")
        if clen is None or int(clen) != len(req.body):
            self.bad(f"handshake Content-Length {clen} for {len(req.body)} bytes")
        pem = obj["params"]["key"]
        m = re.fullmatch(r"-----BEGIN PUBLIC KEY-----\n(.*)\n-----END PUBLIC KEY-----\n", pem, re.S)
        if not m:
            self.bad("public key is not PEM")
            return self.err(-1010)
        pub = serialization.load_der_public_key(base64.b64decode(m.group(1)))
        key, iv = self.rng.randbytes(16), self.rng.randbytes(16)
        sid = "A%016X" % self.rng.getrandbits(64)
        self.session = {"sid": sid, "key": key, "iv": iv, "token": None, "t": CLOCK.wall, "dead": False}
        enc = base64.b64encode(pub.encrypt(key + iv, _rsapad.PKCS1v15())).decode()
        cookies = {}
        if self.cookie:
            cookies[self.cookie] = sid
        if self.use_timeout_cookie:
            cookies["TIMEOUT"] = str(self.timeout)
        return Reply(200, {"error_code": 0, "result": {"key": enc}}, cookies=cookies)

    def passthrough(self, req, obj):
        s = self.session
        token = req.query.get("token")
        stage = "login" if token is None else "req"
        fault = self.take(stage)
        if fault and fault[0] == "reboot":
            self.reboot()
            s = None
        if fault and fault[0] in ("status", "exc", "exc_read", "body"):
            return self.common(req, fault)
        if fault and fault[0] == "code":
            return self.err(fault[1])
        if s is None or s["dead"] or (self.cookie and req.cookies.get("TP_SESSIONID") != s["sid"]):
            if s is not None and not s["dead"]:
                self.bad("session cookie missing or wrong")
            elif s is not None and s["dead"]:
                self.bad("request on a session the device already refused")
            return self.err(9999)
        if CLOCK.wall - s["t"] >= self.timeout:
            self.bad("request on an expired session")
            return self.err(9999)
        try:
            text = aes_cbc(s["key"], s["iv"], base64.b64decode(obj["params"]["request"]), False).decode()
            plain = json.loads(text)
        except (ValueError, KeyError) as ex:
            self.bad(f"request does not decrypt: {ex}")
            return self.err(-1005)
        if stage == "login":
            if plain.get("method") != "login_device":
                self.bad(f"{plain.get('method')} sent before login")
                s["dead"] = True
                return self.err(9999)
            self.logins.append(plain["params"])
            if fault and fault[0] == "inner":
                s["dead"] = True
                ans = {"error_code": fault[1]}
            elif plain["params"] == self.hashed(self.user, self.password):
                s["token"] = "T%08X" % self.rng.getrandbits(32)
                ans = {"error_code": 0, "result": {"token": s["token"]}}
            else:
                s["dead"] = True
                ans = {"error_code": self.login_error}
            ans = json.dumps(ans)
        else:
            if token != s["token"]:
                self.bad("request with a wrong token")
                return self.err(9999)
            ans = self.deliver(text)
        raw = ans if isinstance(ans, bytes) else ans.encode()
        if fault and fault[0] == "plainresp":
            return Reply(200, {"error_code": 0, "result": {"response": raw.decode()}})
        if fault and fault[0] == "garble":
            return Reply(200, {"error_code": 0, "result": {"response": fault[1]}})
        out = base64.b64encode(aes_cbc(s["key"], s["iv"], raw, True)).decode()
        return Reply(200, {"error_code": 0, "result": {"response": out}},
                     delay=fault[1] if fault and fault[0] == "delay" else 0.0)


# ------------------------------------------------------------------ SSL AES (cameras)
HEX = lambda b: hashlib.sha256(b).hexdigest().upper()  # noqa: E731


class CameraServer(Server):
    """Camera with the encrypted digest login (secure) or the older md5 login."""

    def __init__(self, user, password, variant="sha256", secure=True, port=443, **kw):
        super().__init__(**kw)
        self.user, self.password = user, password
        self.variant = variant
        self.secure = secure
        self.pending = None
        self.session = None
        self.ssl_expected = True
        self.port = port
        self.blocked = None
        self.lost = 0
        self.strict = True
        self.users = []
        self.secrets = []

    def pwhash(self):
        h = hashlib.sha256 if self.variant == "sha256" else hashlib.md5
        return h(self.password.encode()).hexdigest().upper()

    def reboot(self):
        self.session = None
        self.pending = None

    def handle(self, req):
        if req.port != self.port:
            self.bad(f"request to port {req.port}, expected {self.port}")
        try:
            obj = req.json()
            method = obj["method"]
        except (ValueError, KeyError, TypeError) as ex:
            self.bad(f"bad envelope: {ex!r}")
            return Reply(200, {"error_code": -40210})
        if req.headers.get("requestbyapp") != "true":
            self.bad("header requestByApp is missing")
        if method == "login":
            if req.path not in ("/", ""):
                self.bad(f"login sent to {req.path}")
            return self.login(req, obj["params"])
        return self.request(req, obj)

    def login(self, req, p):
        if "digest_passwd" in p:
            return self.hs2(req, p)
        if p.get("hashed"):
            return self.md5login(req, p)
        fault = self.take("hs1")
        self.users.append(p.get("username"))
        common = self.common(req, fault)
        if common is not None:
            return common
        if fault and fault[0] == "json":
            return Reply(200, fault[1])
        if self.blocked is not None:
            return Reply(200, {"error_code": -40401,
                               "data": {"code": -40404, "sec_left": self.blocked}})
        if not re.fullmatch(r"[0-9A-F]{16}", p.get("cnonce", "")) or p.get("encrypt_type") != "3":
            self.bad(f"bad handshake1 {p}")
        if not self.secure:
            ok = p.get("username") == self.user
            return Reply(200, {"error_code": -40401, "result": {"data": {
                "code": -40401 if ok else -40411, "time": 9, "max_time": 10, "sec_left": 0,
                "encrypt_type": ["1", "2"], "key": "K", "nonce": "N"}}})
        if p.get("username") != self.user:
            return Reply(200, {"error_code": -40401, "result": {"data": {"code": -60502}}})
        nonce = self.rng.randbytes(8).hex().upper()
        c = p["cnonce"]
        confirm = HEX((c + self.pwhash() + nonce).encode()) + nonce + c
        if fault and fault[0] == "forge":
            i = fault[1] % len(confirm)
            confirm = confirm[:i] + ("0" if confirm[i] != "0" else "1") + confirm[i + 1:]
            self.pending = None
            self.forged = True
        else:
            self.pending = {"c": c, "n": nonce}
            self.forged = False
        return Reply(200, {"error_code": -40413, "result": {"data": {
            "code": -40413, "encrypt_type": ["3"], "key": "K", "nonce": nonce,
            "device_confirm": confirm}}})

    def hs2(self, req, p):
        fault = self.take("hs2")
        if getattr(self, "forged", False):
            self.bad("the client proved its password to a camera that failed to prove itself")
        common = self.common(req, fault)
        if common is not None:
            return common
        if fault and fault[0] == "code":
            return Reply(200, {"error_code": fault[1]})
        pend, self.pending = self.pending, None
        if pend is None or p.get("cnonce") != pend["c"]:
            self.bad("handshake2 does not belong to the last handshake1")
            return Reply(200, {"error_code": -40413, "result": {"data": {"code": -40401}}})
        c, n = pend["c"], pend["n"]
        want = HEX((self.pwhash() + c + n).encode()) + c + n
        if p.get("digest_passwd") != want or p.get("username") != self.user:
            self.bad("handshake2 proof is wrong")
            return Reply(200, {"error_code": -40413, "result": {"data": {"code": -40401}}})
        hk = HEX((c + self.pwhash() + n).encode())
        stok = "%032x" % self.rng.getrandbits(128)
        self.session = {
            "stok": stok, "c": c, "seq": self.rng.choice([0, 1, 100, 12345]) or 100,
            "key": sha256(("lsk" + c + n + hk).encode())[:16],
            "iv": sha256(("ivb" + c + n + hk).encode())[:16],
        }
        return Reply(200, {"error_code": 0, "result": {
            "stok": stok, "user_group": "root", "start_seq": self.session["seq"]}})

    def md5login(self, req, p):
        fault = self.take("md5login")
        common = self.common(req, fault)
        if common is not None:
            return common
        if self.secure:
            self.bad("md5 password sent to a camera that offers the digest login")
        want = hashlib.md5(self.password.encode()).hexdigest().upper()
        if p.get("username") == self.user and p.get("password") == want:
            stok = "%032x" % self.rng.getrandbits(128)
            self.session = {"stok": stok}
            return Reply(200, {"error_code": 0, "result": {"stok": stok, "user_group": "root"}})
        return Reply(200, {"error_code": -40401, "result": {"data": {
            "code": -40401, "encrypt_type": ["1", "2"], "key": "K", "nonce": "N"}}})

    def request(self, req, obj):
        fault = self.take("req")
        if fault and fault[0] == "reboot":
            self.reboot()
        s = self.session
        if s is not None and "seq" in s and req.path == f"/stok={s['stok']}/ds" and "seq" in req.headers:
            # the camera may have executed a request although its answer got lost
            if req.headers["seq"] in s.setdefault("seen", set()):
                self.bad(f"sequence number {req.headers['seq']} is used twice")
            s["seen"].add(req.headers["seq"])
        common = self.common(req, fault)
        if common is not None:
            self.lost += 1
            return common
        if fault and fault[0] == "code":
            self.lost += 1
            return Reply(200, {"error_code": fault[1]})
        s = self.session
        m = re.fullmatch(r"/stok=([^/]*)/ds", req.path)
        if s is None or m is None or m.group(1) != s["stok"]:
            if s is not None:
                self.bad(f"request with a wrong session token {req.path}")
            return Reply(200, {"error_code": -40401})
        if not self.secure:
            if obj["method"] == "securePassthrough":
                self.bad("securePassthrough sent to a camera using the md5 login")
            ans = self.deliver(req.body.decode())
            return Reply(200, ans, delay=fault[1] if fault and fault[0] == "delay" else 0.0)
        if obj["method"] != "securePassthrough":
            self.bad(f"clear-text {obj['method']} sent on a secure session")
            return Reply(200, {"error_code": -40210})
        try:
            seq = int(req.headers["seq"])
        except (KeyError, ValueError):
            self.bad("Seq header missing")
            return Reply(200, {"error_code": -40210})
        if seq < s["seq"] or (self.strict and seq > s["seq"] + self.lost):
            self.bad(f"sequence number {seq}, expected {s['seq']}")
        self.lost = 0
        s["seq"] = seq + 1
        tag = HEX((HEX((self.pwhash() + s["c"]).encode()) + req.body.decode() + str(seq)).encode())
        if req.headers.get("tapo_tag") != tag:
            self.bad("Tapo_tag is wrong")
            return Reply(500, {"error_code": -1})
        try:
            text = aes_cbc(s["key"], s["iv"], base64.b64decode(obj["params"]["request"]), False).decode()
        except (ValueError, KeyError) as ex:
            self.bad(f"request does not decrypt: {ex}")
            return Reply(200, {"error_code": -40210})
        ans = self.deliver(text)
        raw = ans if isinstance(ans, bytes) else ans.encode()
        if fault and fault[0] == "clear":       # single requests are answered in the clear
            return Reply(200, raw)
        if fault and fault[0] == "plainresp":
            return Reply(200, {"error_code": 0, "result": {"response": raw.decode()}})
        if fault and fault[0] == "garble":
            return Reply(200, {"error_code": 0, "result": {"response": fault[1]}})
        if fault and fault[0] == "lost500":
            self.reboot()
            out = base64.b64encode(aes_cbc(s["key"], s["iv"], raw, True)).decode()
            return Reply(500, {"error_code": 0, "result": {"response": out}})
        out = base64.b64encode(aes_cbc(s["key"], s["iv"], raw, True)).decode()
        return Reply(200, {"error_code": 0, "seq": seq, "result": {"response": out}},
                     delay=fault[1] if fault and fault[0] == "delay" else 0.0)


# ------------------------------------------------------------------ SSL token login
class SslServer(Server):
    def __init__(self, user, password, port=4433, login_error=-1501, **kw):
        super().__init__(**kw)
        self.user, self.password = user, password
        self.port = port
        self.ssl_expected = True
        self.token = None
        self.t = 0.0
        self.login_error = login_error
        self.logins = []

    def reboot(self):
        self.token = None

    def handle(self, req):
        if req.port != self.port:
            self.bad(f"request to port {req.port}, expected {self.port}")
        if req.path != "/app":
            self.bad(f"unknown path {req.path}")
        try:
            obj = req.json()
        except ValueError as ex:
            self.bad(f"not JSON: {ex}")
            return Reply(200, {"error_code": -1003})
        if obj.get("method") == "login":
            fault = self.take("login")
            if fault and fault[0] == "reboot":
                self.reboot()
                fault = None
            common = self.common(req, fault)
            if common is not None:
                return common
            if fault and fault[0] == "code":
                return Reply(200, {"error_code": fault[1]})
            self.logins.append(obj["params"])
            want = {"username": self.user,
                    "password": hashlib.md5(self.password.encode()).hexdigest().upper()}
            if obj["params"] != want:
                return Reply(200, {"error_code": self.login_error})
            self.token = "T%08X" % self.rng.getrandbits(32)
            self.t = CLOCK.wall
            return Reply(200, {"error_code": 0, "result": {"token": self.token}})
        fault = self.take("req")
        if fault and fault[0] == "reboot":
            self.reboot()
        common = self.common(req, fault)
        if common is not None:
            return common
        if fault and fault[0] == "code":
            return Reply(200, {"error_code": fault[1]})
        if self.token is None:
            return Reply(200, {"error_code": 9999})
        if req.query.get("token") != self.token:
            self.bad(f"wrong token in {req.full_url}")
            return Reply(200, {"error_code": 9999})
        if CLOCK.wall - self.t >= 86400:
            self.bad("request with an expired token")
            return Reply(200, {"error_code": 9999})
        return Reply(200, self.deliver(req.body.decode()),
                     delay=fault[1] if fault and fault[0] == "delay" else 0.0)


# ------------------------------------------------------------------ Linkie
def xor_enc(plain):
    out, k = bytearray(), 171
    for b in plain:
        k ^= b
        out.append(k)
    return bytes(out)


def xor_dec(ct):
    out, k = bytearray(), 171
    for c in ct:
        out.append(k ^ c)
        k = c
    return bytes(out)


class LinkieServer(Server):
    def __init__(self, port=10443, **kw):
        super().__init__(**kw)
        self.port = port
        self.ssl_expected = True

    def handle(self, req):
        from urllib.parse import parse_qs

        if req.port != self.port:
            self.bad(f"request to port {req.port}, expected {self.port}")
        if req.path != "/data/LINKIE2.json":
            self.bad(f"unknown path {req.path}")
        want = "Basic " + base64.b64encode(":".join(DEFAULTS["KASACAMERA"]).encode()).decode()
        if req.headers.get("authorization") != want:
            self.bad(f"authorization header {req.headers.get('authorization')}")
        if req.headers.get("content-type") != "application/x-www-form-urlencoded":
            self.bad(f"content type {req.headers.get('content-type')}")
        fault = self.take("req")
        common = self.common(req, fault)
        if common is not None:
            return common
        q = parse_qs(req.body.decode(), strict_parsing=True)
        if list(q) != ["content"] or len(q["content"]) != 1:
            self.bad(f"form {req.body[:60]!r}")
            return Reply(400)
        try:
            text = xor_dec(base64.b64decode(q["content"][0], validate=True)).decode()
        except ValueError as ex:
            self.bad(f"content does not decode: {ex}")
            return Reply(400)
        ans = self.deliver(text)
        raw = ans if isinstance(ans, bytes) else ans.encode()
        return Reply(200, base64.b64encode(xor_enc(raw)),
                     delay=fault[1] if fault and fault[0] == "delay" else 0.0)
