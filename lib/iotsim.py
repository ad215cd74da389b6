"""A simulated legacy (IOT) device: seeded from a recorded fixture, stateful, written from the
device's protocol (module / command / child context), independent of the library and of the
repository's test doubles."""
from __future__ import annotations

import copy
import datetime as dt
import functools
import glob
import json
import os
import zoneinfo

import env
from tztable import ZONES
from vtime import CLOCK, REAL_DT

LIGHT = {"smartlife.iot.smartbulb.lightingservice": "transition_light_state",
         "smartlife.iot.lightStrip": "set_light_state"}
TIME_MODS = ("time", "smartlife.iot.common.timesetting")
EMETERS = ("emeter", "smartlife.iot.common.emeter")
SCHEDULES = ("schedule", "smartlife.iot.common.schedule")
RULES = SCHEDULES + ("anti_theft", "smartlife.iot.common.anti_theft", "countdown", "count_down")
CLOUDS = ("cnCloud", "smartlife.iot.common.cloud")
SYSTEMS = ("system", "smartlife.iot.common.system")

NO_MODULE = {"err_code": -1, "err_msg": "module not support"}
NO_MEMBER = {"err_code": -2, "err_msg": "member not support"}
INVALID = {"err_code": -3, "err_msg": "invalid argument"}


@functools.lru_cache(None)
def fixtures():
    """name -> fixture of every recorded legacy device (cameras excluded)."""
    out = {}
    for f in sorted(glob.glob(os.path.join(env.FIXTURES, "iot", "*.json"))):
        with open(f) as fh:
            d = json.load(fh)
        if "system" in d:
            out[os.path.basename(f)[:-5]] = d
    return out


def sysinfo(name):
    return fixtures()[name]["system"]["get_sysinfo"]


def kind(name):
    s = sysinfo(name)
    t = s.get("type", s.get("mic_type", "")).lower()
    if "children" in s:
        return "strip"
    if "smartbulb" in t:
        return "lightstrip" if "length" in s else "bulb"
    if "dimmer" in s.get("dev_name", "").lower():
        return "dimmer"
    return "plug"


def names(*kinds):
    return [n for n in fixtures() if kind(n) in kinds]


def bad(x):
    return type(x) is bool or not isinstance(x, int)


class IotSim:
    """answer(request) is what the device sends back."""

    def __init__(self, name=None, fixture=None):
        fix = copy.deepcopy(fixture if fixture is not None else fixtures()[name])
        self.name = name
        self.sys = fix["system"]["get_sysinfo"]
        self.sys.pop("err_code", None)
        self.fix = fix
        self.log = []            # (child or None, module, cmd, params)
        self.rejected = []       # commands the device refused as invalid
        self.refuse = False      # every command that is not a read is answered with an error
        self.broken = {}         # (module, cmd or None) -> error dict
        self.requests = 0
        self.children = [c["id"] for c in self.sys.get("children", [])]
        # clock: offset of the device's clock from the virtual wall clock, and its zone
        self.skew = 0.0
        self.tz_index = 38
        self.on_at = {}
        for c in self.sys.get("children", []):
            self.on_at[c["id"]] = CLOCK.mono - c.get("on_time", 0)
        if "on_time" in self.sys:
            self.on_at[None] = CLOCK.mono - self.sys["on_time"]
        self.rules = {}          # (owner, module) -> {"rule_list": [...], ...}
        self.rules_enabled = {}
        self.next_action = {}
        self.usage = {}          # (owner, module) -> {"days": [...], "months": [...]}
        self.realtime = {}       # (owner, module) -> dict
        self.cloud = {"username": "user@example.com", "server": "devs.tplinkcloud.com", "binded": 1,
                      "cld_connection": 1, "illegalType": 0, "stopConnect": 0, "tcspStatus": 1,
                      "fwDlPage": "", "tcspInfo": "", "fwNotifyType": 0}
        self.dimmer = copy.deepcopy(fix.get("smartlife.iot.dimmer", {}).get("get_dimmer_parameters", {
            "minThreshold": 0, "fadeOnTime": 0, "fadeOffTime": 0, "gentleOnTime": 3000,
            "gentleOffTime": 10000, "rampRate": 30, "bulb_type": 1}))
        self.behaviour = {"hard_on": {"mode": "last_status"}, "soft_on": {"mode": "last_status"},
                          "long_press": {"mode": "instant_on_off"}, "double_click": {"mode": "gentle_on_off"}}
        self.pir = copy.deepcopy(fix.get("smartlife.iot.PIR", {}).get("get_config"))
        self.pir_adc = copy.deepcopy(fix.get("smartlife.iot.PIR", {}).get("get_adc_value", {"value": 2047}))
        self.las = copy.deepcopy(fix.get("smartlife.iot.LAS", {}).get("get_config"))
        self.las_brt = copy.deepcopy(fix.get("smartlife.iot.LAS", {}).get("get_current_brt", {"value": 11}))
        self.wifi = {"ap_list": [], "joined": None}
        self.effect = None
        self.transitions = []
        self.reboots = []
        ls = self.sys.get("light_state")
        if ls is not None:
            self.on = bool(ls["on_off"])
            self.light = {k: v for k, v in (ls.get("dft_on_state") or ls).items() if k != "on_off"}
            self.sys.pop("light_state")
        else:
            self.light = None
        for m in fix:
            if m == "discovery_result":
                continue
            if fix[m].get("err_code"):
                self.broken[(m, None)] = fix[m]
            else:
                for c, v in fix[m].items():
                    if isinstance(v, dict) and v.get("err_code"):
                        self.broken[(m, c)] = v
        if self.pir is None:
            self.broken.setdefault(("smartlife.iot.PIR", None), NO_MODULE)
        if self.las is None:
            self.broken.setdefault(("smartlife.iot.LAS", None), NO_MODULE)
        if "smartlife.iot.dimmer" not in fix:
            self.broken.setdefault(("smartlife.iot.dimmer", "get_dimmer_parameters"), NO_MEMBER)

    # ------------------------------------------------------------------ state
    def child(self, cid):
        for c in self.sys.get("children", []):
            if c["id"] == cid:
                return c
        return None

    def get_sysinfo(self):
        s = copy.deepcopy(self.sys)
        if self.light is not None:
            if self.on:
                s["light_state"] = {"on_off": 1, **copy.deepcopy(self.light)}
            else:
                s["light_state"] = {"on_off": 0, "dft_on_state": copy.deepcopy(self.light)}
        if "on_time" in s:
            s["on_time"] = int(CLOCK.mono - self.on_at[None]) if s.get("relay_state") else 0
        for c in s.get("children", []):
            c["on_time"] = int(CLOCK.mono - self.on_at[c["id"]]) if c["state"] else 0
        s["err_code"] = 0
        return s

    def zone(self):
        return zoneinfo.ZoneInfo(ZONES.get(self.tz_index, "Etc/UTC"))

    def utc(self):
        return REAL_DT.fromtimestamp(CLOCK.wall + self.skew, dt.UTC)

    def local(self):
        return self.utc().astimezone(self.zone())

    def set_clock(self, p):
        loc = REAL_DT(p["year"], p["month"], p["mday"], p["hour"], p["min"], p["sec"], tzinfo=self.zone())
        self.skew = loc.timestamp() - CLOCK.wall

    def switch(self, owner, on):
        tgt = self.sys if owner is None else self.child(owner)
        key = "relay_state" if owner is None else "state"
        if on and not tgt.get(key):
            self.on_at[owner] = CLOCK.mono
        tgt[key] = int(on)

    # ----------------------------------------------------------------- answers
    def answer(self, req):
        self.requests += 1
        req = dict(req)
        ctx = req.pop("context", None)
        ids = [None]
        if ctx is not None:
            ids = ctx.get("child_ids", [])
            if not ids or any(self.child(i) is None for i in ids):
                self.rejected.append(("context", copy.deepcopy(ctx)))
                return {m: dict(INVALID) for m in req}
        out = {}
        for mod, cmds in req.items():
            if (mod, None) in self.broken:
                for c in cmds:
                    self.log.append((ids[0], mod, c, copy.deepcopy(cmds[c])))
                out[mod] = copy.deepcopy(self.broken[(mod, None)])
                continue
            res = {}
            for cmd, params in cmds.items():
                for owner in ids:
                    self.log.append((owner, mod, cmd, copy.deepcopy(params)))
                    if self.refuse and not cmd.startswith("get"):
                        res[cmd] = dict(INVALID)
                        continue
                    if (mod, cmd) in self.broken:
                        res[cmd] = copy.deepcopy(self.broken[(mod, cmd)])
                        continue
                    r = self.execute(owner, mod, cmd, params)
                    if r is None:
                        self.rejected.append((owner, mod, cmd, copy.deepcopy(params)))
                        r = dict(INVALID)
                    elif "err_code" not in r:
                        r = {**copy.deepcopy(r), "err_code": 0}
                    res[cmd] = r
            out[mod] = res
        return out

    def execute(self, owner, mod, cmd, p):
        """-> result dict; None = invalid argument."""
        if p is None and not cmd.startswith(("get_", "erase_", "delete_all")):
            return None
        p = {} if p is None else p
        if not isinstance(p, dict):
            return None
        for family, handler in ((SYSTEMS, self.m_system), (TIME_MODS, self.m_time), (EMETERS, self.m_emeter),
                                (RULES, self.m_rules), (CLOUDS, self.m_cloud), (LIGHT, self.m_light),
                                (("smartlife.iot.dimmer",), self.m_dimmer), (("smartlife.iot.PIR",), self.m_pir),
                                (("smartlife.iot.LAS",), self.m_las),
                                (("smartlife.iot.lighting_effect",), self.m_effect),
                                (("netif", "smartlife.iot.common.softaponboarding"), self.m_wifi)):
            if mod in family:
                return handler(owner, mod, cmd, p)
        return dict(NO_MODULE)

    def m_system(self, owner, mod, cmd, p):
        if cmd == "get_sysinfo":
            return self.get_sysinfo()
        if cmd == "set_relay_state":
            if bad(p.get("state")) or p["state"] not in (0, 1) or set(p) != {"state"}:
                return None
            if owner is None and self.children:
                for c in self.children:
                    self.switch(c, p["state"])
            else:
                self.switch(owner, p["state"])
            return {}
        if cmd == "set_dev_alias":
            if not isinstance(p.get("alias"), str) or set(p) != {"alias"}:
                return None
            (self.sys if owner is None else self.child(owner))["alias"] = p["alias"]
            return {}
        if cmd == "set_led_off":
            if "led_off" not in self.sys:
                return dict(NO_MEMBER)
            if bad(p.get("off")) or p["off"] not in (0, 1) or owner is not None:
                return None
            self.sys["led_off"] = p["off"]
            return {}
        if cmd == "set_mac_addr":
            self.sys["mac"] = p["mac"]
            return {}
        if cmd in ("reboot", "reset"):
            self.reboots.append((cmd, dict(p)))
            return {}
        return dict(NO_MEMBER)

    def m_time(self, owner, mod, cmd, p):
        if cmd == "get_time":
            t = self.local()
            return {"year": t.year, "month": t.month, "mday": t.day, "hour": t.hour, "min": t.minute,
                    "sec": t.second}
        if cmd == "get_timezone":
            return {"index": self.tz_index}
        if cmd in ("set_time", "set_timezone"):
            want = {"year", "month", "mday", "hour", "min", "sec"} | ({"index"} if cmd == "set_timezone" else set())
            if set(p) != want or any(bad(v) for v in p.values()):
                return None
            if cmd == "set_timezone":
                if not 0 <= p["index"] <= 109:
                    return None
                self.tz_index = p["index"]
            self.set_clock(p)
            return {}
        return dict(NO_MEMBER)

    def stats(self, owner, mod):
        return self.usage.setdefault((owner, mod), {"days": [], "months": []})

    def m_stats(self, owner, mod, cmd, p):
        if cmd == "get_daystat":
            if bad(p.get("year")) or bad(p.get("month")) or not 1 <= p["month"] <= 12:
                return None
            return {"day_list": [e for e in self.stats(owner, mod)["days"]
                                 if e["year"] == p["year"] and e["month"] == p["month"]]}
        if cmd == "get_monthstat":
            if bad(p.get("year")):
                return None
            return {"month_list": [e for e in self.stats(owner, mod)["months"] if e["year"] == p["year"]]}
        return None

    def m_emeter(self, owner, mod, cmd, p):
        if cmd == "get_realtime":
            r = self.realtime.get((owner, mod))
            if r is None:
                r = {k: v for k, v in self.fix.get(mod, {}).get("get_realtime", {"power": 0, "voltage": 0,
                     "current": 0, "total": 0}).items() if k != "err_code"}
            return r
        if cmd == "erase_emeter_stat":
            self.usage[(owner, mod)] = {"days": [], "months": []}
            return {}
        return self.m_stats(owner, mod, cmd, p) if cmd in ("get_daystat", "get_monthstat") else dict(NO_MEMBER)

    def m_rules(self, owner, mod, cmd, p):
        k = (owner, mod)
        if cmd in ("get_daystat", "get_monthstat"):
            return self.m_stats(owner, mod, cmd, p)
        if cmd == "erase_runtime_stat":
            self.usage[k] = {"days": [], "months": []}
            return {}
        if cmd == "get_realtime":
            return dict(NO_MEMBER)
        st = self.rules.setdefault(k, [])
        if cmd == "get_rules":
            return {"rule_list": st, "version": 2, "enable": int(self.rules_enabled.get(k, 1))}
        if cmd == "get_next_action":
            return self.next_action.get(k, {"type": -1})
        if cmd == "set_overall_enable":
            if set(p) != {"enable"} or p["enable"] not in (0, 1, True, False):
                return None
            self.rules_enabled[k] = int(p["enable"])
            return {}
        if cmd == "delete_rule":
            if set(p) != {"id"} or p["id"] not in [r["id"] for r in st]:
                return {"err_code": -14, "err_msg": "entry not exist"}
            self.rules[k] = [r for r in st if r["id"] != p["id"]]
            return {}
        if cmd == "delete_all_rules":
            self.rules[k] = []
            return {}
        return dict(NO_MEMBER)

    def m_cloud(self, owner, mod, cmd, p):
        if cmd == "get_info":
            return dict(self.cloud)
        if cmd == "get_intl_fw_list":
            return {"fw_list": []}
        if cmd == "bind":
            self.cloud.update(username=p["username"], binded=1)
            return {}
        if cmd == "unbind":
            self.cloud.update(username="", binded=0)
            return {}
        if cmd == "set_server_url":
            self.cloud["server"] = p["server"]
            return {}
        return dict(NO_MEMBER)

    # ------------------------------------------------------------------ lights
    def kelvin(self):
        m = self.sys["model"]
        for prefix, r in (("LB130", (2500, 9000)), ("LB120", (2700, 6500)), ("LB230", (2500, 9000)),
                          ("KB130", (2500, 9000)), ("KL130", (2500, 9000)), ("KL125", (2500, 6500)),
                          ("KL135", (2500, 9000)), ("KL120(EU)", (2700, 6500)), ("KL120(US)", (2700, 5000)),
                          ("KL430", (2500, 9000))):
            if m.startswith(prefix):
                return r
        return (2700, 5000)

    def m_light(self, owner, mod, cmd, p):
        if self.light is None:
            return dict(NO_MODULE)
        if cmd == LIGHT[mod]:
            return self.set_light(p)
        if cmd == "get_light_state":
            return self.get_sysinfo()["light_state"]
        if cmd == "get_light_details":
            return self.fix.get(mod, {}).get("get_light_details", {"lamp_beam_angle": 150, "min_voltage": 110,
                    "max_voltage": 120, "wattage": 10, "incandescent_equivalent": 60, "max_lumens": 800,
                    "color_rendering_index": 80})
        if cmd == "get_default_behavior":
            return {k: self.behaviour[k] for k in ("hard_on", "soft_on")}
        if cmd == "set_default_behavior":
            if not set(p) <= {"hard_on", "soft_on"}:
                return None
            self.behaviour.update(copy.deepcopy(p))
            return {}
        if cmd == "set_preferred_state":
            prefs = self.sys["preferred_state"]
            if bad(p.get("index")) or not 0 <= p["index"] < len(prefs):
                return None
            if not self.valid_light(p, preset=True):
                return None
            prefs[p["index"]] = copy.deepcopy(p)
            return {}
        return dict(NO_MEMBER)

    def valid_light(self, p, preset=False):
        lo, hi = self.kelvin()
        allowed = {"on_off", "brightness", "hue", "saturation", "color_temp", "transition_period",
                   "ignore_default", "mode", "index", "custom", "id"}
        if preset:
            allowed = {"index", "brightness", "hue", "saturation", "color_temp", "mode", "custom", "id"}
        for k, v in p.items():
            if k not in allowed:
                return False
            if k in ("mode", "id", "index", "custom") and not preset:
                continue     # ignored
            if k in ("mode", "id"):
                continue
            if bad(v):
                return False
            if k in ("hue", "saturation") and not self.sys["is_color"] \
                    or k == "color_temp" and not self.sys["is_variable_color_temp"]:
                continue     # ignored
            if k == "brightness" and not 0 <= v <= 100 or k == "hue" and not 0 <= v <= 360 \
                    or k == "saturation" and not 0 <= v <= 100 or k == "color_temp" and v != 0 and not lo <= v <= hi \
                    or k == "on_off" and v not in (0, 1) or k == "transition_period" and v < 0:
                return False
        return True

    def set_light(self, p):
        if not self.valid_light(p):
            return None
        eff = self.sys.get("lighting_effect_state")
        fields = {k: v for k, v in p.items() if k == "brightness"
                  or k in ("hue", "saturation") and self.sys["is_color"]
                  or k == "color_temp" and self.sys["is_variable_color_temp"]}
        if eff is not None:
            if set(fields) & {"hue", "saturation", "color_temp"}:
                eff["enable"] = 0
            elif eff["enable"] and p.get("on_off") != 0 and fields.get("brightness"):
                eff["brightness"] = fields["brightness"]
                self.on = True
                return self.light_result()
        self.transitions.append(p.get("transition_period"))
        if not self.on and p.get("on_off"):
            if not p.get("ignore_default"):
                fields = {}                      # comes on as it was
            elif not fields:
                fields = {"brightness": 100}     # neither a state nor the default was asked for
        if "on_off" in p:
            self.on = bool(p["on_off"])
        self.light.update(fields)
        return self.light_result()

    def light_result(self):
        return {"on_off": int(self.on), **self.light}

    def m_effect(self, owner, mod, cmd, p):
        if "lighting_effect_state" not in self.sys:
            return dict(NO_MODULE)
        if cmd == "set_lighting_effect":
            if not isinstance(p.get("name"), str) or "enable" not in p:
                return None
            self.effect = copy.deepcopy(p)
            self.sys["lighting_effect_state"] = {k: p.get(k) for k in ("brightness", "custom", "enable", "id",
                                                                       "name")}
            if p["enable"]:
                self.on = True
            return {}
        if cmd == "get_lighting_effect":
            return self.effect or {}
        return dict(NO_MEMBER)

    def m_dimmer(self, owner, mod, cmd, p):
        one = {"set_fade_on_time": ("fadeTime", "fadeOnTime"), "set_fade_off_time": ("fadeTime", "fadeOffTime"),
               "set_gentle_on_time": ("duration", "gentleOnTime"),
               "set_gentle_off_time": ("duration", "gentleOffTime"),
               "set_button_ramp_rate": ("rampRate", "rampRate"),
               "calibrate_brightness": ("minThreshold", "minThreshold")}
        if cmd == "get_dimmer_parameters":
            return self.dimmer
        if cmd == "get_default_behavior":
            return self.behaviour
        if cmd == "set_brightness":
            if "brightness" not in self.sys or set(p) != {"brightness"} or bad(p["brightness"]) \
                    or not 1 <= p["brightness"] <= 100:
                return None
            self.sys["brightness"] = p["brightness"]
            return {}
        if cmd == "set_dimmer_transition":
            if set(p) != {"brightness", "duration"} or any(bad(v) for v in p.values()) \
                    or not 0 <= p["brightness"] <= 100 or p["duration"] <= 0:
                return None
            self.transitions.append(p["duration"])
            if p["brightness"] == 0:
                self.switch(None, 0)
            else:
                self.switch(None, 1)
                self.sys["brightness"] = p["brightness"]
            return {}
        if cmd in one:
            key, store = one[cmd]
            if set(p) != {key} or bad(p[key]) or p[key] < 0:
                return None
            self.dimmer[store] = p[key]
            return {}
        if cmd in ("set_double_click_action", "set_long_press_action"):
            if p.get("mode") not in ("none", "instant_on_off", "gentle_on_off", "customize_preset") \
                    or not set(p) <= {"mode", "index"}:
                return None
            self.behaviour[cmd[4:-7]] = dict(p)
            return {}
        return dict(NO_MEMBER)

    def m_pir(self, owner, mod, cmd, p):
        c = self.pir
        if cmd == "get_config":
            return c
        if cmd == "get_adc_value":
            return self.pir_adc
        if cmd == "set_enable":
            if set(p) != {"enable"} or p["enable"] not in (0, 1):
                return None
            c["enable"] = int(p["enable"])
            return {}
        if cmd == "set_trigger_sens":
            if bad(p.get("index")) or not 0 <= p["index"] < len(c["array"]) or not set(p) <= {"index", "value"}:
                return None
            c["trigger_index"] = p["index"]
            if "value" in p:
                if bad(p["value"]) or not 0 <= p["value"] <= 100 or p["index"] != 3:
                    return None
                c["array"][3] = p["value"]
            return {}
        if cmd == "set_cold_time":
            if set(p) != {"cold_time"} or bad(p["cold_time"]) or p["cold_time"] < 0:
                return None
            c["cold_time"] = p["cold_time"]
            return {}
        return dict(NO_MEMBER)

    def m_las(self, owner, mod, cmd, p):
        if cmd == "get_config":
            return self.las
        if cmd == "get_current_brt":
            return self.las_brt
        if cmd == "set_enable":
            if set(p) != {"enable"} or p["enable"] not in (0, 1):
                return None
            self.las["devs"][0]["enable"] = int(p["enable"])
            return {}
        if cmd == "set_brt_level":
            if set(p) != {"index", "value"} or p["index"] != 0 or bad(p["value"]):
                return None
            self.las["devs"][0]["level"] = p["value"]
            return {}
        return dict(NO_MEMBER)

    def m_wifi(self, owner, mod, cmd, p):
        if cmd == "get_scaninfo":
            return {"ap_list": self.wifi["ap_list"]}
        if cmd == "set_stainfo":
            self.wifi["joined"] = copy.deepcopy(p)
            return {}
        return dict(NO_MEMBER)


def make(sim, host="10.0.0.2"):
    """-> (device object driving the simulator, its transport)."""
    from kasa.device_factory import get_device_class_from_sys_info
    from kasa.protocols import IotProtocol
    from stub import StubTransport

    tr = StubTransport(sim.answer, host=host)
    cls = get_device_class_from_sys_info({"system": {"get_sysinfo": sim.get_sysinfo()}})
    dev = cls(host, protocol=IotProtocol(transport=tr), config=tr._config)
    return dev, tr
