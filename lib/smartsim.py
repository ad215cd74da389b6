"""Simulated SMART devices, hubs and cameras: seeded from recorded fixtures, stateful, written from
the device's protocol (methods, multipleRequest, child envelopes), independent of the library and
of the repository's test doubles."""
from __future__ import annotations

import base64
import copy
import functools
import glob
import json
import os

import env
from vtime import CLOCK, REAL_DT

UNKNOWN_METHOD = -1002
PARAMS = -1008
CAM_UNKNOWN = -40106
CAM_PARAMS = -40209

CHILD_LISTS = {"get_child_device_list": "child_device_list",
               "get_child_device_component_list": "child_component_list",
               "getChildDeviceList": "child_device_list",
               "getChildDeviceComponentList": "child_component_list"}
#: camera setter -> getter holding the setting
CAM_SET = {"setLedStatus": "getLedStatus", "setLensMaskConfig": "getLensMaskConfig",
           "setDetectionConfig": "getDetectionConfig", "setPersonDetectionConfig": "getPersonDetectionConfig",
           "setPetDetectionConfig": "getPetDetectionConfig", "setTamperDetectionConfig": "getTamperDetectionConfig",
           "setBCDConfig": "getBCDConfig"}


@functools.lru_cache(None)
def load(sub):
    out = {}
    for f in sorted(glob.glob(os.path.join(env.FIXTURES, sub, "*.json"))):
        with open(f) as fh:
            out[os.path.basename(f)[:-5]] = json.load(fh)
    return out


def fixtures():
    return load("smart")


def cam_fixtures():
    return load("smartcam")


def child_fixtures():
    return load("smart/child")


def cam_child_fixtures():
    return load("smartcam/child")


def any_fixture(name):
    return fixtures().get(name) or cam_fixtures()[name]


def is_cam(name):
    return name not in fixtures()


def components(fix):
    if "component_nego" in fix:
        return {c["id"]: c["ver_code"] for c in fix["component_nego"]["component_list"]}
    return {c["name"]: c["version"] for c in fix["getAppComponentList"]["app_component"]["app_component_list"]}


def all_names():
    return sorted(fixtures()) + sorted(cam_fixtures())


def is_hub(name):
    f = any_fixture(name)
    if is_cam(name):
        return f["getDeviceInfo"]["device_info"]["basic_info"]["device_type"].endswith("HUB")
    return "HUB" in f["get_device_info"]["type"]


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def isnum(v):
    return isinstance(v, int | float) and not isinstance(v, bool)


class Bad(Exception):
    """The device refuses the parameters."""


def need(cond):
    if not cond:
        raise Bad


def only(p, *keys, required=()):
    need(isinstance(p, dict) and set(p) <= set(keys) | set(required) and set(required) <= set(p))


class Node:
    """One device: the connected one or one of its children."""

    def __init__(self, sim, nid, methods, info, comps, cam=False):
        self.sim, self.id, self.methods, self.info, self.comps, self.cam = sim, nid, methods, info, comps, cam
        self.on_at = CLOCK.mono - (info.get("on_time") or 0)
        self.actions = []      # things done that leave no state: reboot, locate, ...
        self.errors = {}       # method -> error code answered instead
        self.handlers = {}     # method -> callable(params) -> result (scripted devices)

    # ------------------------------------------------------------- state
    def info_now(self):
        i = copy.deepcopy(self.info)
        if "on_time" in i:
            i["on_time"] = int(CLOCK.mono - self.on_at) if i.get("device_on") else 0
        return i

    def on_time(self):
        return int(CLOCK.mono - self.on_at) if self.info.get("device_on") else 0

    def switch(self, on):
        if on and not self.info.get("device_on"):
            self.on_at = CLOCK.mono
        self.info["device_on"] = on
        if "power_protection_status" in self.info and on:
            self.info["power_protection_status"] = "normal"

    # ------------------------------------------------------------- dispatch
    def run(self, method, p):
        """-> (error_code, result or None)."""
        self.sim.log.append((self.id, method, copy.deepcopy(p)))
        if method in self.errors:
            return self.errors[method], None
        if method in self.handlers:
            r = self.handlers[method](p)
            return (r, None) if isinstance(r, int) else (0, copy.deepcopy(r))
        try:
            fn = getattr(self, "m_" + method, None)
            if fn is None and method in CAM_SET and self.cam:
                r = self.cam_set(CAM_SET[method], p)
            elif fn is not None:
                r = fn(p)
            elif method in self.methods:
                r = self.methods[method]
                if isinstance(r, int) and not isinstance(r, bool):
                    return r, None
                r = self.page(method, r, p)
            else:
                self.sim.unknown.append((self.id, method))
                return (CAM_UNKNOWN if self.cam else UNKNOWN_METHOD), None
        except (Bad, KeyError, TypeError, IndexError):     # parameters no device could make sense of
            self.sim.rejected.append((self.id, method, copy.deepcopy(p)))
            return (CAM_PARAMS if self.cam else PARAMS), None
        return 0, copy.deepcopy(r)

    def page(self, method, r, p):
        if not isinstance(r, dict) or "start_index" not in r or "sum" not in r:
            return r
        lists = [k for k, v in r.items() if isinstance(v, list)]
        if not lists:
            return r
        start = 0
        if isinstance(p, dict):
            start = p.get("start_index", 0) if "start_index" in p else \
                next((v.get("start_index", 0) for v in p.values() if isinstance(v, dict)), 0)
        out = copy.copy(r)
        size = self.sim.page_size or len(r[lists[0]])
        out[lists[0]] = r[lists[0]][start: start + max(1, size)]
        out["start_index"] = start
        out["sum"] = len(r[lists[0]])
        return out

    # ------------------------------------------------------------- children
    def child_list(self, method, p):
        need(self.id is None)
        key = CHILD_LISTS[method]
        entries = [k.list_entry(key) for k in self.sim.kids.values() if k.id not in self.sim.hidden]
        if key == "child_component_list":
            entries = [e for e in entries if e["device_id"] not in self.sim.no_components]
        else:
            entries = [e for e in entries if e["device_id"] not in self.sim.unlisted]
        entries += copy.deepcopy(self.sim.extra.get(key, []))
        return self.page(method, {key: entries, "start_index": 0, "sum": len(entries)}, p)

    def list_entry(self, key):
        if key == "child_device_list":
            return self.info_now()
        return {"component_list": copy.deepcopy(self.comps), "device_id": self.id}

    def m_get_child_device_list(self, p):
        return self.child_list("get_child_device_list", p)

    def m_get_child_device_component_list(self, p):
        return self.child_list("get_child_device_component_list", p)

    def m_getChildDeviceList(self, p):
        return self.child_list("getChildDeviceList", p)

    def m_getChildDeviceComponentList(self, p):
        return self.child_list("getChildDeviceComponentList", p)

    # ------------------------------------------------------------- basics
    def m_get_device_info(self, p):
        return self.info_now()

    def m_getDeviceInfo(self, p):
        return self.methods["getDeviceInfo"]

    def m_get_device_time(self, p):
        t = self.methods.get("get_device_time")
        need(isinstance(t, dict))
        return {**t, "timestamp": int(self.sim.now())}

    def m_set_device_time(self, p):
        only(p, "region", required=("timestamp", "time_diff"))
        need(isint(p["timestamp"]) and isint(p["time_diff"]) and abs(p["time_diff"]) <= 24 * 60)
        need(isinstance(p.get("region", ""), str))
        self.sim.set_now(p["timestamp"])
        t = self.methods["get_device_time"]
        t["time_diff"] = p["time_diff"]
        if "region" in p:
            t["region"] = p["region"]
        return {}

    def m_device_reboot(self, p):
        only(p, "delay")
        self.actions.append(("reboot", dict(p)))
        return {}

    def m_device_reset(self, p):
        self.actions.append(("reset", p))
        return {}

    def m_set_qs_info(self, p):
        self.actions.append(("qs", copy.deepcopy(p)))
        return {}

    def m_set_device_info(self, p):
        only(p, *p)
        need(p)
        i = self.info
        for k, v in p.items():
            need(k in i or k == "nickname")
            if k in ("device_on", "fan_sleep_mode_on", "frost_protection_on"):
                need(isinstance(v, bool))
            elif k in ("brightness",):
                need(isint(v) and 1 <= v <= 100)
            elif k == "hue":
                need(isint(v) and 0 <= v <= 360)
            elif k == "saturation":
                need(isint(v) and 0 <= v <= 100)
            elif k == "color_temp":
                lo, hi = i.get("color_temp_range") or (2500, 6500)
                need(isint(v) and (v == 0 or lo <= v <= hi))
            elif k == "fan_speed_level":
                need(isint(v) and 1 <= v <= 4)
            elif k == "target_temp":
                need(isnum(v) and i["min_control_temp"] <= v <= i["max_control_temp"])
            elif k == "temp_offset":
                need(isint(v) and -10 <= v <= 10)
            elif k == "nickname":
                need(isinstance(v, str))
                try:
                    base64.b64decode(v, validate=True)
                except ValueError:
                    raise Bad from None
            else:
                raise Bad
        if {"hue", "saturation", "color_temp"} & set(p):
            self.end_effects()
        for k, v in p.items():
            if k == "device_on":
                self.switch(v)
            else:
                i[k] = v
        if self.comps_version("frost_protection") and "frost_protection_on" in p and "trv_states" in i:
            i["trv_states"] = [] if p["frost_protection_on"] else i["trv_states"]
        return {}

    def comps_version(self, name):
        for c in self.comps:
            if c.get("id", c.get("name")) == name:
                return c.get("ver_code", c.get("version"))
        return 0

    # ------------------------------------------------------------- lights
    def end_effects(self):
        if "lighting_effect" in self.info:
            self.info["lighting_effect"]["enable"] = 0
        if "dynamic_light_effect_enable" in self.info:
            self.info["dynamic_light_effect_enable"] = False
            self.info.pop("dynamic_light_effect_id", None)
            rules = self.methods.get("get_dynamic_light_effect_rules")
            if rules:
                rules["enable"] = False
                rules.pop("current_rule_id", None)

    def m_set_lighting_effect(self, p):
        need("lighting_effect" in self.info and isinstance(p, dict))
        eff = self.info["lighting_effect"]
        if "brightness" in p:
            need(isint(p["brightness"]) and 0 <= p["brightness"] <= 100)
        if p.get("bAdjusted"):
            need("brightness" in p)
            eff["brightness"] = p["brightness"]
            return {}
        need(isinstance(p.get("name"), str) and p.get("enable") in (0, 1))
        self.methods["get_lighting_effect"] = copy.deepcopy(p)
        for k in ("brightness", "custom", "display_colors", "enable", "id", "name"):
            if k in p:
                eff[k] = copy.deepcopy(p[k])
        if p["enable"]:
            self.switch(True)
        return {}

    def rules(self):
        r = self.methods.get("get_dynamic_light_effect_rules")
        need(isinstance(r, dict))
        return r

    def m_set_dynamic_light_effect_rule_enable(self, p):
        only(p, "id", required=("enable",))
        need(isinstance(p["enable"], bool))
        r = self.rules()
        if not p["enable"]:
            self.end_effects()
            return {}
        need(p.get("id") in [x["id"] for x in r["rule_list"]])
        r["enable"], r["current_rule_id"] = True, p["id"]
        self.info["dynamic_light_effect_enable"] = True
        self.info["dynamic_light_effect_id"] = p["id"]
        self.switch(True)
        return {}

    def m_edit_dynamic_light_effect_rule(self, p):
        r = self.rules()
        need(isinstance(p, dict) and isinstance(p.get("color_status_list"), list))
        for c in p["color_status_list"]:
            need(len(c) == 4 and all(isint(x) for x in c) and 0 <= c[0] <= 100)
        for n, x in enumerate(r["rule_list"]):
            if x["id"] == p.get("id"):
                need(set(p) == set(x))
                r["rule_list"][n] = copy.deepcopy(p)
                return {}
        raise Bad

    def valid_state(self, s):
        need(isinstance(s, dict))
        lo, hi = self.info.get("color_temp_range") or (2500, 6500)
        for k, v in s.items():
            need(k in ("brightness", "hue", "saturation", "color_temp") and isint(v))
            need({"brightness": 1 <= v <= 100, "hue": 0 <= v <= 360, "saturation": 0 <= v <= 100,
                  "color_temp": v == 0 or lo <= v <= hi}[k])

    def m_edit_preset_rules(self, p):
        only(p, required=("index", "state"))
        states = self.methods["get_preset_rules"]["states"]
        need(isint(p["index"]) and 0 <= p["index"] < len(states))
        self.valid_state(p["state"])
        states[p["index"]] = copy.deepcopy(p["state"])
        return {}

    def m_set_preset_rules(self, p):
        only(p, required=("brightness",))
        need(isinstance(p["brightness"], list) and all(isint(b) and 1 <= b <= 100 for b in p["brightness"]))
        if "preset_state" in self.info:
            need(len(p["brightness"]) == len(self.info["preset_state"]))
            self.info["preset_state"] = [{"brightness": b} for b in p["brightness"]]
        else:
            r = self.methods["get_preset_rules"]
            need("brightness" in r and len(p["brightness"]) == len(r["brightness"]))
            r["brightness"] = list(p["brightness"])
        return {}

    def m_set_on_off_gradually_info(self, p):
        need(isinstance(p, dict) and p)
        sysinfo = "gradually_on_mode" in self.info
        cur = self.methods.get("get_on_off_gradually_info")
        need(sysinfo or isinstance(cur, dict))
        if "enable" in p:
            only(p, required=("enable",))
            need(not sysinfo and "enable" in cur and isinstance(p["enable"], bool))
            cur["enable"] = p["enable"]
            return {}
        only(p, "on_state", "off_state")
        for which, s in p.items():
            only(s, "enable", "duration")
            need(isinstance(s.get("enable", True), bool))
            need(isint(s.get("duration", 1)))
            w = which.split("_")[0]
            if sysinfo:
                need(0 <= s.get("duration", 1) <= self.info.get(f"max_fade_{w}_time", 60))
                if "enable" in s:
                    self.info[f"gradually_{w}_mode"] = int(s["enable"])
                if "duration" in s:
                    self.info[f"fade_{w}_time"] = s["duration"]
            else:
                need(which in cur)
                need(0 <= s.get("duration", 1) <= cur[which].get("max_duration", 60))
                cur[which].update(s)
        return {}

    # ------------------------------------------------------------- settings
    def stored(self, getter):
        r = self.methods.get(getter)
        need(isinstance(r, dict))
        return r

    def m_set_led_info(self, p):
        r = self.stored("get_led_info")
        need(isinstance(p, dict) and set(p) <= set(r) and p.get("led_rule") in ("always", "never", "night_mode"))
        r.update(copy.deepcopy(p))
        r["led_status"] = r["led_rule"] != "never"
        return {}

    def m_set_auto_off_config(self, p):
        only(p, required=("enable", "delay_min"))
        need(isinstance(p["enable"], bool) and isint(p["delay_min"]) and p["delay_min"] >= 0)
        self.stored("get_auto_off_config").update(p)
        return {}

    def m_set_auto_update_info(self, p):
        r = self.stored("get_auto_update_info")
        need(isinstance(p, dict) and isinstance(p.get("enable"), bool) and set(p) <= set(r))
        r.update(p)
        return {}

    def m_set_alarm_configure(self, p):
        r = self.stored("get_alarm_configure")
        only(p, *r)
        sounds = self.stored("get_support_alarm_type_list")["alarm_type_list"]
        need(p.get("type", sounds[0]) in sounds and isint(p.get("duration", 1)) and 1 <= p.get("duration", 1) <= 600)
        need(p.get("volume", "low") in ("mute", "low", "normal", "high"))
        r.update(p)
        return {}

    def m_play_alarm(self, p):
        p = p or {}
        only(p, "alarm_duration", "alarm_volume", "alarm_type")
        if "alarm_type" in p:
            need(p["alarm_type"] in self.stored("get_support_alarm_type_list")["alarm_type_list"])
        need(isint(p.get("alarm_duration", 1)) and 1 <= p.get("alarm_duration", 1) <= 600)
        need(p.get("alarm_volume", "low") in ("mute", "low", "normal", "high"))
        self.info["in_alarm"] = True
        self.info["in_alarm_source"] = "hub"
        self.actions.append(("play", dict(p)))
        return {}

    def m_stop_alarm(self, p):
        self.info["in_alarm"] = False
        self.info["in_alarm_source"] = ""
        return {}

    def m_set_child_protection(self, p):
        only(p, required=("enable",))
        need(isinstance(p["enable"], bool) and "child_protection" in self.info)
        self.info["child_protection"] = p["enable"]
        return {}

    def m_set_temperature_unit(self, p):
        only(p, required=("temp_unit",))
        need(p["temp_unit"] in ("celsius", "fahrenheit") and "temp_unit" in self.info)
        self.info["temp_unit"] = p["temp_unit"]
        return {}

    def m_set_protection_power(self, p):
        only(p, "protection_power", required=("enabled",))
        need(isinstance(p["enabled"], bool) and (not p["enabled"] or "protection_power" in p))
        need(isint(p.get("protection_power", 0)))
        need(0 <= p.get("protection_power", 0) <= self.stored("get_max_power")["max_power"])
        self.stored("get_protection_power").update(p)
        return {}

    # ------------------------------------------------------------- vacuum
    def m_getCleanAttr(self, p):
        need(isinstance(p, dict) and p.get("type") in ("global", "pose"))
        return self.stored("getCleanAttr")

    def m_setCleanAttr(self, p):
        r = self.stored("getCleanAttr")
        only(p, "type", *r)
        need(p.get("type", "global") == "global")
        need(isint(p.get("suction", 1)) and 1 <= p.get("suction", 1) <= 5)
        need(isint(p.get("cistern", 1)) and 0 <= p.get("cistern", 1) <= 3)
        need(isint(p.get("clean_number", 1)) and 1 <= p.get("clean_number", 1) <= 3)
        r.update({k: v for k, v in p.items() if k != "type"})
        return {}

    def status(self, n):
        self.stored("getVacStatus")["status"] = n

    def m_setSwitchClean(self, p):
        only(p, required=("clean_mode", "clean_on", "clean_order", "force_clean"))
        self.status(1 if p["clean_on"] else 0)
        return {}

    def m_setRobotPause(self, p):
        only(p, required=("pause",))
        need(isinstance(p["pause"], bool))
        self.status(7 if p["pause"] else 1)
        return {}

    def m_setSwitchCharge(self, p):
        only(p, required=("switch_charge",))
        need(isinstance(p["switch_charge"], bool))
        self.status(4 if p["switch_charge"] else 7)
        return {}

    def m_setCarpetClean(self, p):
        only(p, required=("carpet_clean_prefer",))
        need(p["carpet_clean_prefer"] in ("boost", "normal"))
        self.stored("getCarpetClean").update(p)
        return {}

    def m_setChildLockInfo(self, p):
        only(p, required=("child_lock_status",))
        need(isinstance(p["child_lock_status"], bool))
        self.stored("getChildLockInfo").update(p)
        return {}

    def m_setDustCollectionInfo(self, p):
        r = self.stored("getDustCollectionInfo")
        only(p, *r)
        need(isinstance(p.get("auto_dust_collection", True), bool) and p.get("dust_collection_mode", 0) in (0, 1, 2, 3))
        r.update(p)
        self.stored("getAutoDustCollection")["auto_dust_collection"] = int(r["auto_dust_collection"])
        return {}

    def m_setSwitchDustCollection(self, p):
        only(p, required=("switch_dust_collection",))
        self.actions.append(("empty", dict(p)))
        return {}

    def m_setVolume(self, p):
        only(p, required=("volume",))
        need(isint(p["volume"]) and 0 <= p["volume"] <= 100)
        self.stored("getVolume").update(p)
        return {}

    def m_playSelectAudio(self, p):
        only(p, required=("audio_type",))
        self.actions.append(("audio", dict(p)))
        return {}

    def m_resetConsumablesTime(self, p):
        only(p, required=("reset_list",))
        r = self.stored("getConsumablesInfo")
        for n in p["reset_list"]:
            need(n + "_time" in r)
            r[n + "_time"] = 0
        return {}

    # ------------------------------------------------------------- pairing
    def m_begin_scanning_child_device(self, p):
        self.sim.scanning = True
        return {}

    def m_get_scan_child_device_list(self, p):
        only(p, required=("scan_list",))
        need(p["scan_list"] == self.stored("get_support_child_device_category")["device_category_list"])
        found = [x for x in self.sim.scan_found] if self.sim.scanning else []
        return {"child_device_list": found, "scan_status": "idle", "scan_wait_time": 0}

    def m_add_child_device_list(self, p):
        need(isinstance(p, dict) and isinstance(p.get("child_device_list"), list))
        for d in p["child_device_list"]:
            self.sim.pair(d["device_id"])
        return {}

    def m_remove_child_device_list(self, p):
        only(p, required=("child_device_list",))
        for d in p["child_device_list"]:
            only(d, required=("device_id",))
            need(d["device_id"] in self.sim.kids)
            self.sim.remove_child(d["device_id"])
        return {}

    def cat(self, p):
        need(isinstance(p, dict) and list(p) == ["childControl"])
        return p["childControl"]

    def m_startScanChildDevice(self, p):
        need(isinstance(self.cat(p).get("category"), list))
        self.sim.scanning = True
        return {}

    def m_getScanChildDeviceList(self, p):
        need(isinstance(self.cat(p).get("category"), list))
        return {"child_device_list": [x for x in self.sim.scan_found] if self.sim.scanning else []}

    def m_addScanChildDeviceList(self, p):
        return self.m_add_child_device_list(self.cat(p))

    def m_removeChildDeviceList(self, p):
        return self.m_remove_child_device_list(self.cat(p))

    # ------------------------------------------------------------- cameras
    def cam_set(self, getter, p):
        r = self.stored(getter)
        need(isinstance(p, dict) and len(p) == 1)
        (mod, sections), = p.items()
        need(mod in r and isinstance(sections, dict) and sections)
        for sec, vals in sections.items():
            need(sec in r[mod] and isinstance(vals, dict) and set(vals) <= set(r[mod][sec]))
            need(vals.get("enabled", "on") in ("on", "off"))
        for sec, vals in sections.items():
            r[mod][sec].update(copy.deepcopy(vals))
        return {}

    def m_setSirenConfig(self, p):
        need(isinstance(p, dict) and list(p) == ["siren"])
        r, v = self.stored("getSirenConfig"), p["siren"]
        only(v, "siren_type", "duration", "volume")
        need(v)
        need(v.get("siren_type", r["siren_type"]) in self.stored("getSirenTypeList")["siren_type_list"])
        need(isint(v.get("duration", 1)) and 0 <= v.get("duration", 1) <= 6000)
        need(isinstance(v.get("volume", "1"), str) and v.get("volume", "1") in map(str, range(11)))
        r.update(v)
        return {}

    def m_setSirenStatus(self, p):
        need(isinstance(p, dict) and list(p) == ["siren"])
        only(p["siren"], required=("status",))
        need(p["siren"]["status"] in ("on", "off"))
        self.stored("getSirenStatus")["status"] = p["siren"]["status"]
        return {}

    def m_setDeviceAlias(self, p):
        try:
            alias = p["system"]["sys"]["dev_alias"]
        except (KeyError, TypeError):
            raise Bad from None
        need(isinstance(alias, str) and len(p) == 1 and len(p["system"]) == 1)
        self.methods["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = alias
        if "alias" in self.info:
            self.info["alias"] = alias       # child of a hub
        return {}

    def m_getClockStatus(self, p):
        r = copy.deepcopy(self.methods["getClockStatus"])
        now = int(self.sim.now())
        r["system"]["clock_status"] = {"local_time": self.sim.local_string(now), "seconds_from_1970": now}
        return r

    def m_setTimezone(self, p):
        need(isinstance(p, dict) and list(p) == ["system"])
        for sec, v in p["system"].items():
            if sec == "clock_status":
                only(v, required=("seconds_from_1970", "local_time"))
                need(isint(v["seconds_from_1970"]))
                self.sim.set_now(v["seconds_from_1970"])
                self.sim.local_times.append((v["seconds_from_1970"], v["local_time"]))
            elif sec == "basic":
                only(v, "zone_id", "timezone", "timing_mode")
                self.stored("getTimezone")["system"]["basic"].update(v)
            else:
                raise Bad
        return {}


class SmartSim:
    """answer(request) is what the device sends back."""

    def __init__(self, name=None, fixture=None, children=None, page_size=None):
        fix = copy.deepcopy(fixture if fixture is not None else any_fixture(name))
        self.name, self.fix = name, fix
        self.cam = "getAppComponentList" in fix
        self.log = []          # (child id or None, method, params)
        self.rejected = []
        self.unknown = []
        self.page_size = page_size
        self.stop_on_error = False
        self.skew = 0.0
        self.local_times = []
        self.scanning = False
        self.scan_found = []
        self.pairable = {}     # device_id -> callable adding it
        self.extra = {}        # list key -> additional raw entries
        self.hidden = set()    # children not listed at the moment
        self.no_components = set()
        self.unlisted = set()  # children left out of the list whose components are still listed
        self.motor = []
        self.requests = 0
        self.raw = []          # low-level requests
        methods = {k: v for k, v in fix.items() if k not in ("discovery_result", "child_devices")}
        if self.cam:
            basic = methods["getDeviceInfo"]["device_info"]["basic_info"]
            self.root = Node(self, None, methods, basic,
                             methods["getAppComponentList"]["app_component"]["app_component_list"], cam=True)
            infos = methods.get("getChildDeviceList", {}).get("child_device_list", [])
            comps = methods.get("getChildDeviceComponentList", {}).get("child_component_list", [])
        else:
            self.root = Node(self, None, methods, methods["get_device_info"],
                             methods["component_nego"]["component_list"])
            infos = methods.get("get_child_device_list", {}).get("child_device_list", [])
            comps = methods.get("get_child_device_component_list", {}).get("child_component_list", [])
        comps = {c["device_id"]: c["component_list"] for c in comps}
        self.kids = {}
        if children is None:
            for i in infos:
                m = copy.deepcopy(fix.get("child_devices", {}).get(i["device_id"], {}))
                cam = i.get("category") == "camera"
                if cam and not m:
                    m = copy.deepcopy(next(iter(cam_child_fixtures().values())))
                if not m:
                    m = self.like(i)
                self.kids[i["device_id"]] = Node(self, i["device_id"], m, i, comps[i["device_id"]], cam=cam)
        else:
            for n, c in enumerate(children):
                self.add_child(c, f"KID{n:037d}")

    @staticmethod
    def like(info):
        """Methods of a recorded child of the same model."""
        for src in child_fixtures().values():
            if src["get_device_info"]["model"] == info.get("model"):
                return copy.deepcopy({k: v for k, v in src.items() if k != "get_device_info"})
        return {"get_connect_cloud_state": {"status": 0}}

    def add_child(self, fixname, cid):
        if fixname in child_fixtures():
            f = copy.deepcopy(child_fixtures()[fixname])
            info = f.pop("get_device_info")
            info["device_id"] = cid
            self.kids[cid] = Node(self, cid, f, info, f["component_nego"]["component_list"])
        else:
            f = copy.deepcopy(cam_child_fixtures()[fixname])
            info = f.pop("child_info_from_parent")
            info["device_id"] = cid
            f["getDeviceInfo"]["device_info"]["basic_info"]["dev_id"] = cid
            self.kids[cid] = Node(self, cid, f, info,
                                  f["getAppComponentList"]["app_component"]["app_component_list"], cam=True)
        return self.kids[cid]

    def remove_child(self, cid):
        return self.kids.pop(cid)

    def pair(self, cid):
        if cid in self.pairable:
            self.pairable[cid]()

    def node(self, cid):
        return self.root if cid is None else self.kids[cid]

    def nodes(self):
        return {None: self.root, **self.kids}

    # ------------------------------------------------------------- clock
    def now(self):
        return CLOCK.wall + self.skew

    def set_now(self, ts):
        self.skew = ts - CLOCK.wall

    def local_string(self, ts):
        import zoneinfo

        z = self.root.methods["getTimezone"]["system"]["basic"].get("zone_id")
        try:
            tz = zoneinfo.ZoneInfo(z)
        except Exception:  # noqa: BLE001
            tz = zoneinfo.ZoneInfo("Etc/UTC")
        return REAL_DT.fromtimestamp(ts, tz).strftime("%Y-%m-%d %H:%M:%S")

    def snapshot(self):
        """Everything the devices hold."""
        return copy.deepcopy({k: (n.info, {m: v for m, v in n.methods.items()}) for k, n in self.nodes().items()})

    # ------------------------------------------------------------- answers
    def answer(self, req):
        self.requests += 1
        return self.handle(None, req)

    def handle(self, owner, req):
        m, p = req["method"], req.get("params")
        if m == "multipleRequest":
            out = []
            for r in p["requests"]:
                res = self.handle(owner, r)
                out.append({"method": r["method"], **res})
                if res["error_code"] and self.stop_on_error:
                    break
            return {"result": {"responses": out}, "error_code": 0}
        if owner is None and m == "control_child":
            if p.get("device_id") not in self.kids:
                self.rejected.append((None, m, copy.deepcopy(p)))
                return {"error_code": PARAMS}
            return {"result": {"responseData": self.handle(p["device_id"], p["requestData"])}, "error_code": 0}
        if owner is None and m == "controlChild":
            c = p["childControl"]
            if c.get("device_id") not in self.kids:
                self.rejected.append((None, m, copy.deepcopy(p)))
                return {"error_code": CAM_PARAMS}
            return {"result": {"response_data": self.handle(c["device_id"], c["request_data"])}, "error_code": 0}
        if m in ("get", "set", "do") and self.cam:
            body = {k: v for k, v in req.items() if k != "method"}
            self.raw.append((owner, m, copy.deepcopy(body)))
            if m in self.node(owner).errors:
                return {"error_code": self.node(owner).errors[m]}
            if m == "do" and "motor" in body:
                self.motor.append(copy.deepcopy(body["motor"]))
            return {"error_code": 0, **{k: {} for k in body}}
        code, res = self.node(owner).run(m, p)
        if code:
            return {"error_code": code}
        return {"result": res, "error_code": 0} if res is not None else {"error_code": 0}


def make(sim, host="10.0.0.2", config=None):
    """-> (device object driving the simulator, its transport)."""
    from kasa import Credentials, DeviceConfig
    from kasa.protocols import SmartCamProtocol, SmartProtocol
    from kasa.smart import SmartDevice
    from kasa.smartcam import SmartCamDevice
    from stub import StubTransport

    cfg = config or DeviceConfig(host, credentials=Credentials("user@example.com", "a secret pass"))
    tr = StubTransport(sim.answer, host=host, config=cfg)
    cls, proto = (SmartCamDevice, SmartCamProtocol) if sim.cam else (SmartDevice, SmartProtocol)
    return cls(host, config=cfg, protocol=proto(transport=tr)), tr
