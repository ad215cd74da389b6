"""Planting recognisable sensitive values in device data and looking for them in log output."""
from __future__ import annotations

import base64
import contextlib
import hashlib
import logging

IDS = "id"          # long identifiers; at least the first nine characters must be hidden
MAC = "mac"         # last three octets must be hidden
TEXT = "text"       # must be hidden completely
B64 = "b64"         # base64 of a name: neither it nor the name may show
NUM = "num"         # numbers

#: what the library promises to hide, per kind of answer
IOT = {"latitude": NUM, "longitude": NUM, "latitude_i": NUM, "longitude_i": NUM, "deviceId": IDS, "alias": TEXT,
       "mac": MAC, "mic_mac": MAC, "ssid": TEXT, "oemId": IDS, "username": TEXT, "hwId": IDS}
SMART = {"latitude": NUM, "longitude": NUM, "la": NUM, "lo": NUM, "device_id": IDS, "parent_device_id": IDS,
         "original_device_id": IDS, "nickname": B64, "mac": MAC, "ssid": B64, "bssid": TEXT, "oem_id": IDS,
         "hw_id": IDS, "fw_id": IDS, "setup_code": TEXT, "setup_payload": TEXT, "mfi_setup_code": TEXT,
         "mfi_setup_id": TEXT, "mfi_token_token": TEXT, "mfi_token_uuid": TEXT, "dev_id": IDS, "ext_addr": IDS,
         "device_name": TEXT, "device_alias": TEXT, "alias": TEXT, "board_sn": TEXT, "custom_sn": TEXT,
         "location": TEXT, "map_data": TEXT, "map_name": B64, "cd": B64}
DISCOVERY = {"device_id": IDS, "device_name": TEXT, "owner": IDS, "mac": MAC, "master_device_id": IDS,
             "group_id": IDS, "group_name": B64}
DECRYPTED = {"connect_ssid": TEXT, "device_id": IDS, "owner": IDS}


def digest(*a):
    return hashlib.sha256(repr(a).encode()).hexdigest()


class Taint:
    """Consistent replacement of sensitive values by unique ones."""

    def __init__(self, seed):
        self.seed = seed
        self.map = {}
        self.marks = {}        # text that must not show -> (key, value)

    def value(self, key, kind, old):
        h = digest(self.seed, key if kind in (TEXT, B64, NUM) else "", old)
        if kind == NUM:
            # long enough to be unmistakable in a log
            v = int(h[:12], 16) % 8_999_999_999 + 1_000_000_000
            if isinstance(old, float):
                v = float(str(v % 90) + "." + str(v) + "1")
            self.marks[str(v)] = (key, v)
        elif kind == MAC:
            old = str(old)
            sep = "-" if "-" in old else ":" if ":" in old else ""
            h = h.upper()
            v = sep.join(h[i:i + 2] for i in range(0, 12, 2))
            if sep:
                self.marks[v[9:]] = (key, v)
            self.marks[v] = (key, v)
        elif kind == IDS:
            n = max(24, len(str(old)))
            v = (h * 3).upper()[:n]
            self.marks[v[8:]] = (key, v)
        elif kind == B64:
            name = "nm " + h[:20]
            v = base64.b64encode(name.encode()).decode()
            self.marks[v] = self.marks[name] = (key, v)
        else:
            v = "v" + h[:24]
            self.marks[v] = (key, v)
        return v

    def plant(self, obj, table, path=()):
        """Replace in place every listed value that is a non-empty string or a number."""
        if isinstance(obj, dict):
            for k, v in obj.items():
                kind = table.get(k)
                if kind and isinstance(v, str) and v and kind != NUM:
                    obj[k] = self.put(k, kind, v)
                elif kind == NUM and isinstance(v, int | float) and not isinstance(v, bool):
                    obj[k] = self.put(k, kind, v)
                elif k == "id" and path and path[-1] == "children" and isinstance(v, str):
                    obj[k] = self.put("deviceId", IDS, v)
                else:
                    self.plant(v, table, path + (k,))
        elif isinstance(obj, list):
            for v in obj:
                self.plant(v, table, path)
        return obj

    def put(self, key, kind, old):
        k = (kind, old) if kind in (IDS, MAC) else (key, old)
        if k not in self.map:
            self.map[k] = self.value(key, kind, old)
        return self.map[k]

    def found(self, text):
        return [f"{k}={v!r}" for m, (k, v) in self.marks.items() if m in text]


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []        # (template, text)

    def emit(self, record):
        try:
            text = record.getMessage()
        except Exception:  # noqa: BLE001
            text = f"{record.msg!r} {record.args!r}"
        if record.exc_info and record.exc_info[1] is not None:
            ex = record.exc_info[1]
            while ex is not None:
                text += f"\n{type(ex).__name__}: {ex}"
                ex = ex.__cause__ or ex.__context__
        self.lines.append((str(record.msg), text))


@contextlib.contextmanager
def captured():
    log = logging.getLogger("kasa")
    old = log.level
    h = Handler()
    log.addHandler(h)
    log.setLevel(logging.DEBUG)
    try:
        yield h.lines
    finally:
        log.removeHandler(h)
        log.setLevel(old)


def secrets_of(user, password):
    """Everything a password must not be recognisable from -> description."""
    out = {}

    def add(b, what):
        out[b] = what
    p = password.encode()
    add(password, "password")
    add(base64.b64encode(p).decode(), "base64 of the password")
    for name in ("md5", "sha1", "sha256"):
        d = hashlib.new(name, p)
        h = d.hexdigest()
        for t in (h, h.upper()):
            add(t, f"{name} of the password")
            add(base64.b64encode(t.encode()).decode(), f"base64 {name} of the password")
        add(base64.b64encode(d.digest()).decode(), f"base64 {name} of the password")
    u = user.encode()
    md5 = lambda x: hashlib.md5(x).digest()
    v1 = md5(md5(u) + md5(p))
    v2 = hashlib.sha256(hashlib.sha1(u).digest() + hashlib.sha1(p).digest()).digest()
    for v in (v1, v2):
        for t in (v.hex(), v.hex().upper(), base64.b64encode(v).decode(), repr(v)[2:-1]):
            add(t, "hash of the credentials")
    return {k: v for k, v in out.items() if len(k) >= 8}
