"""P29: appliance modules set exactly what is asked for and report what the device reports."""
from __future__ import annotations

import copy
import datetime as dt
import random

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require

from kasa import Feature, KasaException, Module
from kasa.interfaces.thermostat import ThermostatState
from kasa.iot.iotdimmer import ActionType, ButtonAction, FadeType
from kasa.iot.modules.motion import Range

LEVEL = "exploration"
RULE = ("A case is a history of commands and outside changes on one recorded appliance; non-trivial when a legal command "
        "was compared with the reference and an illegal one was refused.")
ASSUMPTIONS = ["commands that send several settings together repeat the values of the last update, which is awaited between "
               "commands", "values the enumerations of the library do not know (other than those with an unknown member) may "
               "raise", "wrong types are not judged, out-of-range numbers and unknown names are"]


# ------------------------------------------------------------- commands of SMART appliances
# (module, setter) -> (legal values, illegal values, effect on the device's state).  The effect gets the
# state {"info", method: answer} of the device and the value; s["!"] collects what is not state.
def info(key, conv=lambda v: v, **more):
    def effect(s, v):
        s["info"][key] = conv(v)
        s["info"].update(more)
    return effect


def stored(getter, key, conv=lambda v: v, **more):
    def effect(s, v):
        s[getter][key] = conv(v)
        s[getter].update(more)
    return effect


def do(what):
    return lambda s, v: s["!"].append(what)


FLAG = [True, False]
SUCTION = {"Quiet": 1, "Standard": 2, "Turbo": 3, "Max": 4, "Ultra": 5}
WATER = {"Disable": 0, "Low": 1, "Medium": 2, "High": 3}
DUST = {"Smart": 0, "Light": 1, "Balanced": 2, "Max": 3}
VOLUMES = ["mute", "low", "normal", "high"]


def alarm_play(s, v):
    s["info"].update(in_alarm=True, in_alarm_source="hub")
    p = {}
    for k, n in (("duration", "alarm_duration"), ("volume", "alarm_volume"), ("sound", "alarm_type")):
        if v.get(k) is not None:
            p[n] = VOLUMES[v[k]] if isinstance(v[k], int) and k == "volume" else v[k]
    s["!"].append(("play", p))


def target_temp(s, v):
    s["info"]["target_temp"] = v
    frost(s, False)


def frost(s, on):
    if "frost_protection_on" in s["info"]:
        s["info"]["frost_protection_on"] = on
        if on and s["frost"]:
            s["info"]["trv_states"] = []


def fan_level(s, v):
    if v:
        s["info"].update(device_on=True, fan_speed_level=v)
    else:
        s["info"]["device_on"] = False


def dust_mode(s, v):
    on = v != "Off"
    s["getDustCollectionInfo"]["auto_dust_collection"] = on
    if on:
        s["getDustCollectionInfo"]["dust_collection_mode"] = DUST[v]
    s["getAutoDustCollection"]["auto_dust_collection"] = int(on)


def dust_auto(s, v):
    s["getDustCollectionInfo"]["auto_dust_collection"] = v
    s["getAutoDustCollection"]["auto_dust_collection"] = int(v)


def vac_start(s, v):
    s["getVacStatus"]["status"] = 1


def vac_pause(s, v):
    going = s["getVacStatus"]["status"] == 4 and (s["getVacStatus"].get("err_status") or [0])[0] == 0
    s["getVacStatus"]["status"] = 7
    s["!"].append("stop return" if going else "pause")


def protect(s, v):
    on, threshold = v
    r, top = s["get_protection_power"], s["get_max_power"]["max_power"]
    r["enabled"] = on
    if threshold is not None:
        r["protection_power"] = threshold
    elif on and r.get("protection_power", 0) == 0:
        r["protection_power"] = top // 2


def reset(s, v):
    key = {"main_brush": "roll_brush_time", "side_brush": "edge_brush_time", "filter": "filter_time",
           "sensor": "sensor_time", "charging_contacts": "charge_contact_time"}[v]
    s["getConsumablesInfo"][key] = 0


def siren(s, v):
    v = dict(v)
    play = v.pop("!", False)
    for k, n in (("duration", "duration"), ("volume", "volume"), ("sound", "siren_type")):
        if v.get(k) is not None:
            s["getSirenConfig"][n] = str(v[k]) if k == "volume" else v[k]
    if play:
        s["getSirenStatus"]["status"] = "on"


def section(getter, mod, sec, neg=False):
    def effect(s, v):
        s[getter][mod][sec]["enabled"] = "on" if v is not neg else "off"
    return effect


def ints(lo, hi):
    return lambda m: sorted({lo, hi, lo + 1, hi - 1, (lo + hi) // 2})


def outside(lo, hi):
    return lambda m: [lo - 1, hi + 1, hi + 100, lo - 1000]


def plays(m):
    out = [{}, {"duration": 1}, {"duration": 600}, {"volume": 3}, {"volume": "mute"}, {"volume": 0}]
    out += [{"sound": x, "volume": "low", "duration": 7} for x in m.alarm_sounds[:3]]
    return out


BAD_PLAYS = [{"duration": 0}, {"duration": 601}, {"volume": 4}, {"volume": -1}, {"volume": "loud"}, {"sound": "Silence?"},
             {"sound": "", "duration": 5}, {"duration": 5, "volume": "HIGH"}]
SMART = {
    ("Alarm", "set_alarm_sound"): (lambda m: m.alarm_sounds, ["Silence?", "", "doorbell ring 1"],
                                   stored("get_alarm_configure", "type")),
    ("Alarm", "set_alarm_volume"): ([0, 1, 2, 3, *VOLUMES], [4, -1, "loud", "", "High"],
                                    stored("get_alarm_configure", "volume", lambda v: VOLUMES[v] if isinstance(v, int) else v)),
    ("Alarm", "set_alarm_duration"): (ints(1, 600), outside(1, 600), stored("get_alarm_configure", "duration")),
    ("Alarm", "play"): (plays, BAD_PLAYS, alarm_play),
    ("Alarm", "stop"): ([None], [], info("in_alarm", lambda v: False, in_alarm_source="")),
    ("AutoOff", "set_enabled"): (FLAG, [], stored("get_auto_off_config", "enable")),
    ("AutoOff", "set_delay"): ([1, 5, 120, 1440], [], stored("get_auto_off_config", "delay_min")),
    ("Fan", "set_fan_speed_level"): (ints(0, 4), outside(0, 4), fan_level),
    ("Fan", "set_sleep_mode"): (FLAG, [], info("fan_sleep_mode_on")),
    ("TemperatureControl", "set_state"): (FLAG, [], lambda s, v: frost(s, not v)),
    ("TemperatureControl", "set_target_temperature"): (
        lambda m: [m.minimum_target_temperature, m.maximum_target_temperature, 20, 21.5, 7],
        lambda m: [m.minimum_target_temperature - 0.5, m.maximum_target_temperature + 0.5, -100, 1000], target_temp),
    ("TemperatureControl", "set_temperature_offset"): (ints(-10, 10), outside(-10, 10), info("temp_offset")),
    ("Thermostat", "set_state"): (FLAG, [], lambda s, v: frost(s, not v)),
    ("Thermostat", "set_target_temperature"): ([10, 17.5, 29], [1000, -3], target_temp),
    ("Thermostat", "set_temperature_unit"): (["celsius", "fahrenheit"], ["kelvin", "", "Celsius"], info("temp_unit")),
    ("TemperatureSensor", "set_temperature_unit"): (["celsius", "fahrenheit"], ["kelvin", "C"], info("temp_unit")),
    ("FrostProtection", "set_enabled"): (FLAG, [], frost),
    ("ChildProtection", "set_enabled"): (FLAG, [], info("child_protection")),
    ("ChildLock", "set_enabled"): (FLAG, [], stored("getChildLockInfo", "child_lock_status")),
    ("PowerProtection", "set_enabled"): (lambda m: [(True, None), (False, None), (True, 1), (True, m._max_power),
                                                    (False, 500)],
                                         lambda m: [(True, -1), (True, m._max_power + 1), (False, m._max_power + 50)], protect),
    ("PowerProtection", "set_protection_threshold"): (lambda m: [0, 1, m._max_power, m._max_power // 3],
                                                      lambda m: [-1, m._max_power + 1],
                                                      stored("get_protection_power", "protection_power")),
    ("Clean", "start"): ([None], [], vac_start),
    ("Clean", "pause"): ([None], [], vac_pause),
    ("Clean", "resume"): ([None], [], lambda s, v: s["getVacStatus"].update(status=1)),
    ("Clean", "return_home"): ([None], [], lambda s, v: s["getVacStatus"].update(status=4)),
    ("Clean", "set_pause"): (FLAG, [], lambda s, v: s["getVacStatus"].update(status=7 if v else 1)),
    ("Clean", "set_return_home"): (FLAG, [], lambda s, v: s["getVacStatus"].update(status=4 if v else 7)),
    ("Clean", "set_fan_speed_preset"): (list(SUCTION), ["quiet", "", "Unknown"], stored("getCleanAttr", "suction", SUCTION.get)),
    ("Clean", "set_carpet_boost"): (FLAG, [], stored("getCarpetClean", "carpet_clean_prefer",
                                                     lambda v: "boost" if v else "normal")),
    ("Clean", "set_clean_count"): ([1, 2, 3], [0, 4, -1], stored("getCleanAttr", "clean_number")),
    ("Mop", "set_waterlevel"): (list(WATER), ["low", "", "Max"], stored("getCleanAttr", "cistern", WATER.get)),
    ("Dustbin", "set_mode"): ([*DUST, "Off"], ["off", "", "Turbo"], dust_mode),
    ("Dustbin", "set_auto_collection"): (FLAG, [], dust_auto),
    ("Dustbin", "start_emptying"): ([None], [], do(("empty", {"switch_dust_collection": True}))),
    ("Speaker", "set_volume"): (ints(0, 100), outside(0, 100), stored("getVolume", "volume")),
    ("Speaker", "locate"): ([None], [], do(("audio", {"audio_type": "seek_me"}))),
    ("Consumables", "reset_consumable"): (["main_brush", "side_brush", "filter", "sensor", "charging_contacts"],
                                          ["brush", "", "Filter"], reset),
}
CAM = {
    ("Alarm", "set_alarm_sound"): (lambda m: m.alarm_sounds, ["Silence?", ""], lambda s, v: siren(s, {"sound": v})),
    ("Alarm", "set_alarm_volume"): (ints(0, 10), outside(0, 10), lambda s, v: siren(s, {"volume": v})),
    ("Alarm", "set_alarm_duration"): (ints(0, 6000), outside(0, 6000), lambda s, v: siren(s, {"duration": v})),
    ("Alarm", "play"): (lambda m: [{}, {"duration": 0}, {"volume": 0}, {"sound": m.alarm_sounds[-1], "volume": 10},
                                   {"duration": 30, "volume": 5}],
                        [{"duration": -1}, {"duration": 6001}, {"volume": 11}, {"volume": -1}, {"sound": "x"}],
                        lambda s, v: siren(s, {**v, "!": True})),
    ("Alarm", "stop"): ([None], [], lambda s, v: s["getSirenStatus"].update(status="off")),
    ("LensMask", "set_enabled"): (FLAG, [], section("getLensMaskConfig", "lens_mask", "lens_mask_info")),
    ("Camera", "set_state"): (FLAG, [], section("getLensMaskConfig", "lens_mask", "lens_mask_info", neg=True)),
    ("MotionDetection", "set_enabled"): (FLAG, [], section("getDetectionConfig", "motion_detection", "motion_det")),
    ("PersonDetection", "set_enabled"): (FLAG, [], section("getPersonDetectionConfig", "people_detection", "detection")),
    ("PetDetection", "set_enabled"): (FLAG, [], section("getPetDetectionConfig", "pet_detection", "detection")),
    ("TamperDetection", "set_enabled"): (FLAG, [], section("getTamperDetectionConfig", "tamper_detection", "tamper_det")),
    ("BabyCryDetection", "set_enabled"): (FLAG, [], section("getBCDConfig", "sound_detection", "bcd")),
    ("PanTilt", "pan"): ([-180, -10, 0, 5, 90], [], lambda s, v: s["!"].append({"x": v, "y": 0})),
    ("PanTilt", "tilt"): ([-180, -10, 0, 5, 90], [], lambda s, v: s["!"].append({"x": 0, "y": v})),
    ("PanTilt", "move"): ([(3, 4), (-3, 0), (0, -90), (10, -10)], [], lambda s, v: s["!"].append({"x": v[0], "y": v[1]})),
}


def find(dev, name):
    for k, m in dev.modules.items():
        if str(k) == name or type(m).__name__ == name:
            return m
    return None


def spread(v, name, setter):
    """-> (args, kwargs) of a call."""
    if v is None:
        return (), {}
    if setter == "play":
        return (), v
    if setter == "move":
        return (), {"pan": v[0], "tilt": v[1]}
    if (name, setter) == ("PowerProtection", "set_enabled"):
        return (v[0],), {} if v[1] is None else {"threshold": v[1]}
    return (v,), {}


def state(sim):
    out = {}
    for cid, (i, methods) in sim.snapshot().items():
        node = sim.nodes()[cid]
        acts = [a for a in node.actions]
        if node.cam and cid is None:
            acts += [{"x": int(m["move"]["x_coord"]), "y": int(m["move"]["y_coord"])} for m in sim.motor]
        out[cid] = {"info": i, **methods, "!": acts, "frost": bool(node.comps_version("frost_protection"))}
        for own in ("get_device_info", "getDeviceInfo", "get_device_time", "getClockStatus"):
            out[cid].pop(own, None)
    return out


# ------------------------------------------------------------- states of SMART appliances
def shake(sim, cid, rng):
    """The appliance reaches some state by itself."""
    node = sim.nodes()[cid]
    i, m = node.info, node.methods

    def put(d, key, values):
        if isinstance(d, dict) and key in d:
            d[key] = rng.choice(values)

    put(i, "in_alarm", FLAG)
    if "in_alarm_source" in i:
        i["in_alarm_source"] = rng.choice(["hub", "siren", "contact sensor"]) if i.get("in_alarm") else ""
    put(i, "fan_speed_level", [1, 2, 3, 4])
    put(i, "fan_sleep_mode_on", FLAG)
    if "trv_states" in i:
        i["trv_states"] = rng.sample(["heating", "low_battery", "progress_calibration", "shutdown", "idle"],
                                     rng.choice([0, 0, 1, 1, 2]))
        i["frost_protection_on"] = rng.random() < 0.3
    put(i, "target_temp", [5, 10, 20.5, 29.9])
    put(i, "temp_offset", [-10, -1, 0, 3])
    put(i, "current_temp", [-5.5, 0, 19.7, 30])
    put(i, "current_temp_exception", [0, 1, -3])
    put(i, "current_humidity", [0, 42, 99])
    put(i, "current_humidity_exception", [0, 1, -1])
    put(i, "temp_unit", ["celsius", "fahrenheit"])
    put(i, "child_protection", FLAG)
    put(i, "battery_percentage", [0, 1, 50, 100])
    put(i, "at_low_battery", FLAG)
    put(i, "detected", FLAG)
    put(i, "open", FLAG)
    put(i, "report_interval", [4, 16, 60])
    put(i, "water_leak_status", ["normal", "water_leak", "water_dry"])
    put(i, "trigger_timestamp", [1, 1_700_000_000, 1_720_000_123])
    put(i, "power_protection_status", ["normal", "overloaded"])
    put(i, "overheated", FLAG)
    put(i, "overheat_status", ["normal", "overheated", "warning"])
    put(i, "auto_off_status", ["on", "off"])
    put(i, "auto_off_remain_time", [0, 59, 7200])
    put(i, "battery_percent", [0, 17, 100])
    put(i, "low_battery", FLAG)
    put(i, "battery_charging", ["NO", "YES", "SOLAR"])
    put(i, "battery_voltage", [0, 3600, 12_022])
    put(i, "battery_temperature", [-5, 20])
    if "device_on" in i and "auto_off_status" not in i:
        node.switch(rng.choice(FLAG))
    put(m.get("get_alarm_configure"), "volume", VOLUMES)
    put(m.get("get_alarm_configure"), "duration", [1, 17, 600])
    put(m.get("get_protection_power"), "enabled", FLAG)
    if isinstance(r := m.get("get_protection_power"), dict):
        if rng.random() < 0.3:
            r.pop("protection_power", None)
            r["enabled"] = False
        elif "max_power" in (m.get("get_max_power") or {}):
            r["protection_power"] = rng.choice([0, 1, m["get_max_power"]["max_power"]])
    put(m.get("get_auto_off_config"), "enable", FLAG)
    put(m.get("get_auto_off_config"), "delay_min", [0, 1, 30, 600])
    put(m.get("getVacStatus"), "status", [*range(12), 42, -1, 4, 4, 7, 7, 7])
    put(m.get("getVacStatus"), "err_status", [[], [0], [0], [0], [2], [14, 2], [22], [99], [4, 99], None])
    put(m.get("getBatteryInfo"), "battery_percentage", [0, 17, 100])
    put(m.get("getCleanInfo"), "clean_area", [0, 12])
    put(m.get("getCleanInfo"), "clean_time", [0, 125])
    put(m.get("getCleanInfo"), "clean_percent", [0, 100])
    put(m.get("getCleanAttr"), "suction", list(SUCTION.values()))
    put(m.get("getCleanAttr"), "cistern", list(WATER.values()))
    put(m.get("getCleanAttr"), "clean_number", [1, 2, 3])
    put(m.get("getCarpetClean"), "carpet_clean_prefer", ["boost", "normal"])
    put(m.get("getAreaUnit"), "area_unit", [0, 1, 2])
    put(m.get("getMopState"), "mop_state", FLAG)
    put(m.get("getChildLockInfo"), "child_lock_status", FLAG)
    put(m.get("getVolume"), "volume", [0, 50, 100])
    if isinstance(r := m.get("getDustCollectionInfo"), dict):
        r["auto_dust_collection"], r["dust_collection_mode"] = rng.choice(FLAG), rng.choice([0, 1, 2, 3])
        m["getAutoDustCollection"]["auto_dust_collection"] = int(r["auto_dust_collection"])
    for k in m.get("getConsumablesInfo") or ():
        if k.endswith("_time"):
            m["getConsumablesInfo"][k] = rng.choice([0, 1, 600, 24_000, 30_000])
    if isinstance(r := m.get("get_trigger_logs"), dict):
        r["logs"] = [{"id": n, "eventId": f"{n:08x}", "timestamp": 1_700_000_000 + n, "event": e}
                     for n, e in enumerate(rng.choices(["open", "close", "motion", "waterLeak", "rotation"], k=rng.randrange(4)))]
        r["sum"] = len(r["logs"])
    put(m.get("getSirenStatus"), "status", ["on", "off"])
    put(m.get("getSirenConfig"), "volume", [str(n) for n in range(11)])
    put(m.get("getSirenConfig"), "duration", [0, 30, 6000])
    for getter, mod, sec in SECTIONS:
        if isinstance(r := m.get(getter), dict) and mod in r:
            put(r[mod][sec], "enabled", ["on", "off"])


SECTIONS = [("getLensMaskConfig", "lens_mask", "lens_mask_info"), ("getDetectionConfig", "motion_detection", "motion_det"),
            ("getPersonDetectionConfig", "people_detection", "detection"),
            ("getPetDetectionConfig", "pet_detection", "detection"),
            ("getTamperDetectionConfig", "tamper_detection", "tamper_det"), ("getBCDConfig", "sound_detection", "bcd")]
STATUS = {0: "Idle", 1: "Cleaning", 2: "Mapping", 4: "GoingHome", 5: "Charging", 6: "Charged", 7: "Paused", 8: "Undocked",
          100: "Error"}
ERRORS = {0: "Ok", 2: "SideBrushStuck", 3: "MainBrushStuck", 4: "WheelBlocked", 6: "Trapped", 7: "TrappedCliff",
          14: "DustBinRemoved", 15: "UnableToMove", 16: "LidarBlocked", 21: "UnableToFindDock", 22: "BatteryLow"}
LIVES = {"main_brush": ("roll_brush_time", 400), "side_brush": ("edge_brush_time", 200), "filter": ("filter_time", 200),
         "sensor": ("sensor_time", 30), "charging_contacts": ("charge_contact_time", 30)}


def vac_error(s):
    e = s["getVacStatus"].get("err_status") or [0]
    return ERRORS.get(e[0], "UnknownInternal")


def thermo(s):
    i = s["info"]
    if i.get("frost_protection_on"):
        return {"off"}
    states = set(i["trv_states"]) - {"low_battery"}
    if not states:
        return {"idle"}
    known = states & {x.value for x in ThermostatState}
    return known or {"unknown"}


def utc(ts):
    return dt.datetime.fromtimestamp(ts, dt.UTC)


#: (module, property) -> what it has to be; CHECK ones compare themselves
READ = {
    ("Alarm", "active"): lambda s: s["info"]["in_alarm"],
    ("Alarm", "source"): lambda s: s["info"]["in_alarm_source"] or None,
    ("Alarm", "alarm_sound"): lambda s: s["get_alarm_configure"]["type"],
    ("Alarm", "alarm_volume"): lambda s: VOLUMES.index(s["get_alarm_configure"]["volume"]),
    ("Alarm", "alarm_duration"): lambda s: s["get_alarm_configure"]["duration"],
    ("Alarm", "alarm_sounds"): lambda s: s["get_support_alarm_type_list"]["alarm_type_list"],
    ("AutoOff", "enabled"): lambda s: s["get_auto_off_config"]["enable"],
    ("AutoOff", "delay"): lambda s: s["get_auto_off_config"]["delay_min"],
    ("AutoOff", "is_timer_active"): lambda s: s["info"]["auto_off_status"] == "on",
    ("Fan", "fan_speed_level"): lambda s: s["info"]["fan_speed_level"] if s["info"]["device_on"] else 0,
    ("Fan", "sleep_mode"): lambda s: s["info"]["fan_sleep_mode_on"],
    ("TemperatureControl", "state"): lambda s: not s["info"]["frost_protection_on"],
    ("TemperatureControl", "target_temperature"): lambda s: s["info"]["target_temp"],
    ("TemperatureControl", "temperature_offset"): lambda s: s["info"]["temp_offset"],
    ("TemperatureControl", "states"): lambda s: set(s["info"]["trv_states"]),
    ("TemperatureControl", "minimum_target_temperature"): lambda s: s["info"]["min_control_temp"],
    ("TemperatureControl", "maximum_target_temperature"): lambda s: s["info"]["max_control_temp"],
    ("TemperatureControl", "allowed_temperature_range"): lambda s: (s["info"]["min_control_temp"], s["info"]["max_control_temp"]),
    ("Thermostat", "state"): lambda s: not s["info"]["frost_protection_on"],
    ("Thermostat", "target_temperature"): lambda s: s["info"]["target_temp"],
    ("Thermostat", "temperature"): lambda s: s["info"]["current_temp"],
    ("Thermostat", "temperature_unit"): lambda s: s["info"]["temp_unit"],
    ("TemperatureSensor", "temperature"): lambda s: s["info"]["current_temp"],
    ("TemperatureSensor", "temperature_unit"): lambda s: s["info"]["temp_unit"],
    ("TemperatureSensor", "temperature_warning"): lambda s: s["info"].get("current_temp_exception", 0) != 0,
    ("HumiditySensor", "humidity"): lambda s: s["info"]["current_humidity"],
    ("HumiditySensor", "humidity_warning"): lambda s: s["info"]["current_humidity_exception"] != 0,
    ("FrostProtection", "enabled"): lambda s: s["info"]["frost_protection_on"],
    ("ChildProtection", "enabled"): lambda s: s["info"]["child_protection"],
    ("ChildLock", "enabled"): lambda s: s["getChildLockInfo"]["child_lock_status"],
    ("MotionSensor", "motion_detected"): lambda s: s["info"]["detected"],
    ("ContactSensor", "is_open"): lambda s: s["info"]["open"],
    ("ReportMode", "report_interval"): lambda s: s["info"]["report_interval"],
    ("WaterleakSensor", "alert"): lambda s: s["info"]["in_alarm"],
    ("WaterleakSensor", "alert_timestamp"): lambda s: utc(t) if (t := s["info"].get("trigger_timestamp")) is not None else None,
    ("PowerProtection", "overloaded"): lambda s: s["info"]["power_protection_status"] == "overloaded",
    ("PowerProtection", "enabled"): lambda s: s["get_protection_power"]["enabled"],
    ("PowerProtection", "protection_threshold"): lambda s: s["get_protection_power"].get("protection_power", 0),
    ("OverheatProtection", "overheated"): lambda s: s["info"]["overheat_status"] != "normal"
    if "overheat_status" in s["info"] else s["info"]["overheated"],
    ("Speaker", "volume"): lambda s: s["getVolume"]["volume"],
    ("Mop", "mop_attached"): lambda s: s["getMopState"]["mop_state"],
    ("Mop", "waterlevel"): lambda s: next(k for k, v in WATER.items() if v == s["getCleanAttr"]["cistern"]),
    ("Dustbin", "auto_collection"): lambda s: s["getDustCollectionInfo"]["auto_dust_collection"],
    ("Dustbin", "mode"): lambda s: next(k for k, v in DUST.items() if v == s["getDustCollectionInfo"]["dust_collection_mode"])
    if s["getDustCollectionInfo"]["auto_dust_collection"] else "Off",
    ("Clean", "battery"): lambda s: s["getBatteryInfo"]["battery_percentage"],
    ("Clean", "carpet_boost"): lambda s: s["getCarpetClean"]["carpet_clean_prefer"] == "boost",
    ("Clean", "clean_area"): lambda s: s["getCleanInfo"]["clean_area"],
    ("Clean", "clean_time"): lambda s: dt.timedelta(minutes=s["getCleanInfo"]["clean_time"]),
    ("Clean", "clean_progress"): lambda s: s["getCleanInfo"]["clean_percent"],
    ("Clean", "clean_count"): lambda s: s["getCleanAttr"]["clean_number"],
    ("Clean", "fan_speed_preset"): lambda s: next(k for k, v in SUCTION.items() if v == s["getCleanAttr"]["suction"]),
    ("Clean", "area_unit"): lambda s: s["getAreaUnit"]["area_unit"],
}
READ_CAM = {
    ("Alarm", "active"): lambda s: s["getSirenStatus"]["status"] != "off",
    ("Alarm", "alarm_sound"): lambda s: s["getSirenConfig"]["siren_type"],
    ("Alarm", "alarm_volume"): lambda s: int(s["getSirenConfig"]["volume"]),
    ("Alarm", "alarm_duration"): lambda s: s["getSirenConfig"]["duration"],
    ("Alarm", "alarm_sounds"): lambda s: s["getSirenTypeList"]["siren_type_list"],
    ("Battery", "battery_percent"): lambda s: s["info"]["battery_percent"],
    ("Battery", "battery_low"): lambda s: s["info"]["low_battery"],
    ("Battery", "battery_voltage"): lambda s: s["info"]["battery_voltage"] / 1000,
    ("Battery", "battery_temperature"): lambda s: s["info"]["battery_temperature"],
    ("Battery", "battery_charging"): lambda s: s["info"]["battery_charging"] != "NO",
    ("Camera", "is_on"): lambda s: s["getLensMaskConfig"]["lens_mask"]["lens_mask_info"]["enabled"] != "on"
    if isinstance(s.get("getLensMaskConfig"), dict) else True,
    **{(name, "enabled"): lambda s, g=g, m=m, sec=sec: s[g][m][sec]["enabled"] == "on" for name, (g, m, sec) in zip(
        ("LensMask", "MotionDetection", "PersonDetection", "PetDetection", "TamperDetection", "BabyCryDetection"), SECTIONS,
        strict=True)},
}


def smart_reads(sim, dev, cid, node_dev, ctx):
    s = state(sim)[cid]
    cam = sim.nodes()[cid].cam
    n = 0
    for (name, prop), fn in (READ_CAM if cam else READ).items():
        mod = find(node_dev, name)
        if mod is None or not hasattr(type(mod), prop):
            continue
        what = f"{name}.{prop}"
        try:
            want = fn(s)
        except (KeyError, TypeError):
            continue        # the recorded device does not tell
        with judging(what):
            got = getattr(mod, prop)
            eq(getattr(got, "value", got) if name == "Clean" and prop == "area_unit" else got, want, what)
        n += 1
    for name in ("TemperatureControl", "Thermostat"):
        if not cam and (mod := find(node_dev, name)) is not None and "trv_states" in s["info"]:
            with judging(name + ".mode"):
                require(mod.mode.value in thermo(s), f"{name}.mode", str(mod.mode), thermo(s), s["info"]["trv_states"])
    if (mod := find(node_dev, "WaterleakSensor")) is not None:
        with judging("WaterleakSensor.status"):
            eq(mod.status.value, s["info"]["water_leak_status"], "WaterleakSensor.status")
    if (mod := find(node_dev, "BatterySensor")) is not None:
        with judging("BatterySensor"):
            if "battery_percentage" in s["info"]:
                eq(mod.battery, s["info"]["battery_percentage"], "BatterySensor.battery")
            if "at_low_battery" in s["info"]:
                eq(mod.battery_low, s["info"]["at_low_battery"], "BatterySensor.battery_low")
    if (mod := find(node_dev, "AutoOff")) is not None:
        with judging("AutoOff.auto_off_at"):
            at = mod.auto_off_at
            if s["info"]["auto_off_status"] != "on":
                eq(at, None, "AutoOff.auto_off_at without timer")
            else:
                left = at - node_dev.time
                require(abs(left.total_seconds() - s["info"]["auto_off_remain_time"]) <= 2, "AutoOff.auto_off_at", at)
    if (mod := find(node_dev, "Clean")) is not None:
        with judging("Clean.status"):
            eq(mod.error.name, vac_error(s), f"Clean.error with {s['getVacStatus']['err_status']}")
            eq(mod.status.name, "Error" if vac_error(s) != "Ok" else
               STATUS.get(s["getVacStatus"]["status"], "UnknownInternal"), f"Clean.status {s['getVacStatus']['status']}")
    if (mod := find(node_dev, "Consumables")) is not None:
        with judging("Consumables"):
            eq(sorted(mod.consumables), sorted(k for k, (d, _) in LIVES.items() if d in s["getConsumablesInfo"]), "consumables")
            for k, c in mod.consumables.items():
                used, life = dt.timedelta(minutes=s["getConsumablesInfo"][LIVES[k][0]]), dt.timedelta(hours=LIVES[k][1])
                eq((c.used, c.remaining, c.lifetime), (used, life - used, life), f"consumable {k}")
    if (mod := find(node_dev, "TriggerLogs")) is not None and isinstance(s.get("get_trigger_logs"), dict):
        with judging("TriggerLogs.logs"):
            eq([(x.id, x.event_id, x.timestamp, x.event) for x in mod.logs],
               [(x["id"], x["eventId"], x["timestamp"], x["event"]) for x in s["get_trigger_logs"]["logs"]], "TriggerLogs.logs")
    ctx.evals(n)
    return n


APPL = ("alarm", "clean", "fan_control", "temp_control", "auto_off", "power_protection", "siren", "child_protection",
        "button_and_led", "ptz", "lensMask", "detection", "battery")
KIDS = st.lists(st.sampled_from(sorted(smartsim.child_fixtures())), min_size=1, max_size=3)
OPS = st.lists(st.fixed_dictionaries({"what": st.sampled_from(["set", "set", "set", "bad", "bad", "shake", "shake", "fail"]), "node": st.integers(0, 20),
                                      "x": st.integers(0, 10_000), "y": st.integers(0, 10_000)}), min_size=2, max_size=10)


def smart_names():
    out = []
    for n in smartsim.fixtures():
        c = smartsim.components(smartsim.fixtures()[n])
        kids = smartsim.fixtures()[n].get("get_child_device_component_list", {})
        if set(c) & set(APPL) or any(x["id"] in APPL for k in kids.get("child_component_list", []) for x in k["component_list"]):
            out.append(n)
    return sorted(out)


def hub_cases():
    return st.tuples(st.sampled_from([n for n in smartsim.all_names() if smartsim.is_hub(n)]), KIDS, OPS).map(
        lambda t: {"fixture": t[0], "kids": t[1], "ops": t[2]})


def smart_cases():
    vac = [n for n in smartsim.fixtures() if n.startswith("RV")]
    fans = [n for n in smartsim.fixtures() if n.startswith("KS240")]
    return st.tuples(st.sampled_from(vac) | st.sampled_from(vac + fans) | st.sampled_from(smart_names()), OPS).map(
        lambda t: {"fixture": t[0], "kids": None, "ops": t[1]})


def vac_cases():
    """Cleaning commands in every combination of status and errors."""
    cmds = [k[1] for k in SMART if k[0] == "Clean" and k[1] not in ("set_clean_count", "set_fan_speed_preset")]
    op = st.tuples(st.sampled_from([4, 7, 4, 7, *range(12), 100]), st.sampled_from([[], [0], None, [2], [0, 2], [99]]),
                   st.sampled_from(["start", "pause", "start", "pause", *cmds]), st.integers(0, 1)).map(
        lambda t: {"what": "set", "key": ["Clean", t[2]], "vac": [t[0], t[1]], "node": 0, "x": 0, "y": t[3]})
    return st.tuples(st.sampled_from([n for n in smartsim.fixtures() if n.startswith("RV")]),
                     st.lists(op, min_size=2, max_size=8)).map(lambda t: {"fixture": t[0], "kids": None, "ops": t[1]})


def cam_cases():
    return st.tuples(st.sampled_from(sorted(smartsim.cam_fixtures())), OPS).map(
        lambda t: {"fixture": t[0], "kids": None, "ops": t[1]})


async def smart(case, ctx):
    name = case["fixture"]
    sim = smartsim.SmartSim(name)
    if case["kids"] is not None:
        for n, k in enumerate(case["kids"]):
            sim.add_child(k, f"KID{n:037d}")
    dev, tr = smartsim.make(sim)
    with judging("first update"):
        await dev.update()
    done = refused = False

    def targets():
        return [(None, dev), *((c.device_id, c) for c in dev.children)]

    for cid, d in targets():
        smart_reads(sim, dev, cid, d, ctx)
    for op in case["ops"]:
        rng = random.Random(op["y"])
        ts = targets()
        if op["what"] == "shake":
            for cid, _ in ts:
                shake(sim, cid, rng)
        else:
            if "vac" in op:
                sim.root.methods["getVacStatus"].update(status=op["vac"][0], err_status=op["vac"][1])
                with judging("update"):
                    await dev.update()
            cmds = [(cid, d, k, spec) for cid, d in ts for k, spec in (CAM if sim.nodes()[cid].cam else SMART).items()
                    if find(d, k[0]) is not None and (op["what"] != "bad" or spec[1])
                    and op.get("key", list(k)) == list(k)]
            if not cmds:
                continue
            # every module and owner gets its share
            pick = sorted({(str(c), k[0]) for c, _, k, _ in cmds})[op["node"] % len({(str(c), k[0]) for c, _, k, _ in cmds})]
            cmds = [c for c in cmds if (str(c[0]), c[2][0]) == pick]
            cid, d, key, (good, bad, effect) = cmds[op["x"] % len(cmds)]
            mod = find(d, key[0])
            if key == ("Camera", "set_state") and find(d, "LensMask") is None:
                continue
            values = bad if op["what"] == "bad" else good
            with judging(f"choices of {key}"):
                try:
                    values = values(mod) if callable(values) else values
                except KasaException:
                    continue            # not delivered by the recorded device
            v = values[op["y"] % len(values)]
            if key[0] == "Consumables" and LIVES[v][0] not in sim.nodes()[cid].methods["getConsumablesInfo"] \
                    if op["what"] != "bad" else False:
                continue
            args, kw = spread(v, *key)
            before, n0, r0 = state(sim), len(tr.sent), len(sim.rejected)
            what = f"{key[0]}.{key[1]}({v!r})"
            if op["what"] == "bad":
                try:
                    await getattr(mod, key[1])(*args, **kw)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    fail(f"{what} was accepted")
                eq(len(tr.sent), n0, f"refused {what} reached the device")
                eq(state(sim), before, f"state after the refused {what}")
                refused = True
                ctx.label("refused " + ".".join(key))
            elif op["what"] == "fail":
                node = sim.nodes()[cid]
                node.errors = RefuseCommands()
                try:
                    await getattr(mod, key[1])(*args, **kw)
                except KasaException:
                    pass
                except Exception as ex:  # noqa: BLE001
                    fail(f"{what} refused by the device: {type(ex).__name__}: {ex}")
                else:
                    require(len(tr.sent) == n0, f"{what} was refused by the device but returned")
                node.errors = {}
                eq(state(sim), before, f"state after the device refused {what}")
                if len(tr.sent) > n0:
                    ctx.label("failed " + ".".join(key))
                    smart_reads(sim, d, cid, d, ctx)
            else:
                unknown0 = len(sim.unknown)
                want = copy.deepcopy(before)
                try:
                    effect(want[cid], v)
                except (KeyError, TypeError):
                    continue            # not recorded
                try:
                    await getattr(mod, key[1])(*args, **kw)
                except Exception as ex:  # noqa: BLE001
                    if len(sim.unknown) > unknown0:
                        continue
                    fail(f"{what}: {type(ex).__name__}: {ex}; refused by the device: {sim.rejected[r0:]}")
                eq(sim.rejected[r0:], [], f"{what}: commands the device refused")
                got = state(sim)
                for c in want:
                    acts = want[c].pop("!"), got[c].pop("!")
                    eq(got[c], want[c], f"state of {c or 'the device'} after {what}") if got[c] != want[c] else None
                    if not (key[0] == "Clean" and c == cid):
                        eq(acts[1], acts[0], f"actions after {what}")
                if key == ("Clean", "pause"):
                    stop = any("setSwitchCharge" in str(r) for r in tr.sent[n0:])
                    eq("stop return" if stop else "pause", acts_of(before, cid, effect)[-1], "how pausing happened")
                if key == ("Clean", "start"):
                    resumed = any("setRobotPause" in str(r) for r in tr.sent[n0:])
                    paused = vac_error(before[cid]) == "Ok" and before[cid]["getVacStatus"]["status"] == 7
                    eq(resumed, paused, "cleaning was resumed rather than started anew")
                done = True
                ctx.label(".".join(key))
        vtime.CLOCK.mono += 90_000
        with judging("update"):
            await dev.update()
        for cid, d in targets():
            smart_reads(sim, dev, cid, d, ctx)
    ctx.nontrivial(done and (refused or any("vac" in op for op in case["ops"])))


class RefuseCommands(dict):
    """Error codes of a device that answers but refuses every command."""

    def __contains__(self, method):
        return not method.startswith(("get", "component", "scan"))

    def __getitem__(self, method):
        return -1008


def acts_of(before, cid, effect):
    s = copy.deepcopy(before[cid])
    effect(s, None)
    return s["!"]


# ------------------------------------------------------------- legacy motion, light sensors and dimmers
def iot_effect(key, many=False):
    def effect(d, v):
        d[key] = v
    return effect


MS = dt.timedelta(milliseconds=1)


def ms(v):
    return v if isinstance(v, int) else v // MS


RANGES = ["Far", "Mid", "Near", "Custom"]
DIM = "dimmer"
IOT = {
    ("Motion", "set_enabled"): (FLAG, [], lambda s, v: s["pir"].update(enable=int(v))),
    ("Motion", "set_range"): (lambda m: [Range[x] for x in m.ranges], [], lambda s, v: s["pir"].update(trigger_index=v.value)),
    ("Motion", "_set_range_from_str"): (lambda m: [*m.ranges, m.ranges[0].lower(), " " + m.ranges[-1]],
                                        ["Close", "", "0"],
                                        lambda s, v: s["pir"].update(trigger_index=RANGES.index(v.strip().capitalize()))),
    ("Motion", "set_threshold"): (ints(0, 100), [],
                                  lambda s, v: (s["pir"].update(trigger_index=3), s["pir"]["array"].__setitem__(3, v))),
    ("Motion", "set_inactivity_timeout"): ([0, 5000, 60000], [], lambda s, v: s["pir"].update(cold_time=v)),
    ("AmbientLight", "set_enabled"): (FLAG, [], lambda s, v: s["las"]["devs"][0].update(enable=int(v))),
    ("AmbientLight", "set_brightness_limit"): ([0, 5, 100], [], lambda s, v: s["las"]["devs"][0].update(level=v)),
    ("Dimmer", "set_threshold_min"): (ints(0, 51), outside(0, 51), lambda s, v: s[DIM].update(minThreshold=v)),
    ("Dimmer", "set_ramp_rate"): (ints(10, 50), outside(10, 50), lambda s, v: s[DIM].update(rampRate=v)),
    ("Dimmer", "set_fade_on_time"): ([0, 10_000, 1, 500 * MS, dt.timedelta(seconds=10)],
                                     [-1, 10_001, dt.timedelta(seconds=11), -MS], lambda s, v: s[DIM].update(fadeOnTime=ms(v))),
    ("Dimmer", "set_fade_off_time"): ([0, 10_000, 1, 500 * MS, dt.timedelta(seconds=10)],
                                      [-1, 10_001, dt.timedelta(seconds=11), -MS],
                                      lambda s, v: s[DIM].update(fadeOffTime=ms(v))),
    ("Dimmer", "set_gentle_on_time"): ([0, 120_000, 7, dt.timedelta(minutes=2)], [-1, 120_001, dt.timedelta(minutes=3)],
                                       lambda s, v: s[DIM].update(gentleOnTime=ms(v))),
    ("Dimmer", "set_gentle_off_time"): ([0, 120_000, 7, dt.timedelta(minutes=2)], [-1, 120_001, dt.timedelta(minutes=3)],
                                        lambda s, v: s[DIM].update(gentleOffTime=ms(v))),
    ("device", "set_button_action"): (
        [(t, a, i) for t in ActionType for a in ButtonAction for i in ((None, 0, 2) if a is ButtonAction.Preset else (None,))],
        [("triple_click", ButtonAction.Gentle, None), (ActionType.DoubleClick, "dance", None)],
        lambda s, v: s["behaviour"].__setitem__(v[0].value.removesuffix("_action"),
                                                {"mode": v[1].value, **({} if v[2] is None else {"index": v[2]})})),
    ("device", "set_fade_time"): ([(t, x) for t in FadeType for x in (0, 500, 10_000)], [("fade_up", 3)],
                                  lambda s, v: s[DIM].__setitem__(
                                      {"fade_on": "fadeOnTime", "fade_off": "fadeOffTime"}[v[0].value], v[1])),
}


def iot_state(sim):
    return copy.deepcopy({"pir": sim.pir, "adc": sim.pir_adc, "las": sim.las, "brt": sim.las_brt, "dimmer": sim.dimmer,
                          "behaviour": sim.behaviour, "sys": sim.sys})


def iot_shake(sim, rng):
    if sim.pir:
        sim.pir.update(enable=rng.choice([0, 1]), trigger_index=rng.randrange(len(sim.pir["array"])),
                       cold_time=rng.choice([0, 15000, 600000]), min_adc=0, max_adc=rng.choice([4095, 1000, 801]))
        sim.pir["array"][rng.randrange(len(sim.pir["array"]))] = rng.randrange(101)
        sim.pir_adc["value"] = rng.randrange(0, sim.pir["max_adc"] + 1)
    if sim.las:
        sim.las["devs"][0]["enable"] = rng.choice([0, 1])
        sim.las_brt["value"] = rng.randrange(101)
    for k, top in (("fadeOnTime", 10_000), ("fadeOffTime", 10_000), ("gentleOnTime", 120_000), ("gentleOffTime", 120_000),
                   ("minThreshold", 51), ("rampRate", 50)):
        if k in sim.dimmer:
            sim.dimmer[k] = rng.randrange(top + 1)


def iot_reads(sim, dev, ctx):
    s = iot_state(sim)
    if (m := find(dev, "Motion")) is not None:
        c, adc = s["pir"], s["adc"]["value"]
        with judging("Motion"):
            mid = (c["max_adc"] - c["min_adc"]) // 2
            value = mid - adc
            pct = value / ((mid - c["min_adc"]) if value < 0 else (c["max_adc"] - mid)) * 100
            level = c["array"][c["trigger_index"]]
            eq((m.enabled, m.adc_min, m.adc_max, m.adc_mid), (bool(c["enable"]), c["min_adc"], c["max_adc"], mid), "Motion config")
            eq(m.range.name, RANGES[c["trigger_index"]], "Motion.range")
            eq(m.ranges, RANGES[:len(c["array"])], "Motion.ranges")
            eq(m.threshold, level, "Motion.threshold")
            eq(m.inactivity_timeout, c["cold_time"], "Motion.inactivity_timeout")
            eq((m.adc_value, m.pir_value), (adc, value), "Motion readings")
            require(abs(m.pir_percent - pct) < 1e-6, "Motion.pir_percent", m.pir_percent, pct)
            eq(m.pir_triggered, bool(c["enable"]) and abs(pct) > 100 - level, "Motion.pir_triggered")
    if (m := find(dev, "AmbientLight")) is not None:
        with judging("AmbientLight"):
            eq(m.enabled, bool(s["las"]["devs"][0]["enable"]), "AmbientLight.enabled")
            eq(m.ambientlight_brightness, s["brt"]["value"], "AmbientLight.ambientlight_brightness")
            eq(m.presets, s["las"]["devs"][0]["level_array"], "AmbientLight.presets")
    if (m := find(dev, "Dimmer")) is not None:
        d = s["dimmer"]
        with judging("Dimmer"):
            eq((m.threshold_min, m.ramp_rate), (d["minThreshold"], d["rampRate"]), "Dimmer")
            eq([m.fade_on_time, m.fade_off_time, m.gentle_on_time, m.gentle_off_time],
               [d[k] * MS for k in ("fadeOnTime", "fadeOffTime", "gentleOnTime", "gentleOffTime")], "Dimmer times")
    ctx.evals(12)


def iot_names():
    return [n for n in sorted(iotsim.fixtures()) if iotsim.kind(n) == "dimmer" or
            {"smartlife.iot.PIR", "smartlife.iot.LAS"} & set(iotsim.fixtures()[n])]


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(iot_names()), "ops": OPS})


async def iot(case, ctx):
    sim = iotsim.IotSim(case["fixture"])
    dev, tr = iotsim.make(sim)
    with judging("first update"):
        await dev.update()
    iot_reads(sim, dev, ctx)
    done = refused = False
    for op in case["ops"]:
        rng = random.Random(op["y"])
        if op["what"] == "shake":
            iot_shake(sim, rng)
        else:
            cmds = [(k, spec) for k, spec in IOT.items() if (k[0] == "device" and hasattr(dev, k[1])
                    or find(dev, k[0]) is not None) and (op["what"] != "bad" or spec[1])]
            names = sorted({k[0] for k, _ in cmds})
            if not names:
                continue
            cmds = [c for c in cmds if c[0][0] == names[op["node"] % len(names)]]
            key, (good, bad, effect) = cmds[op["x"] % len(cmds)]
            mod = dev if key[0] == "device" else find(dev, key[0])
            values = bad if op["what"] == "bad" else good
            with judging(f"choices of {key}"):
                values = values(mod) if callable(values) else values
            v = values[op["y"] % len(values)]
            args = v if isinstance(v, tuple) else (v,)
            what = f"{key[0]}.{key[1]}{args!r}"
            before, n0, r0 = iot_state(sim), len(tr.sent), len(sim.rejected)
            if op["what"] == "bad":
                try:
                    await getattr(mod, key[1])(*args)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    fail(f"{what} was accepted")
                eq(len(tr.sent), n0, f"refused {what} reached the device")
                refused = True
                ctx.label("refused " + ".".join(key))
            elif op["what"] == "fail":
                sim.refuse = True
                try:
                    await getattr(mod, key[1])(*args)
                except KasaException:
                    pass
                except Exception as ex:  # noqa: BLE001
                    fail(f"{what} refused by the device: {type(ex).__name__}: {ex}")
                else:
                    fail(f"{what} was refused by the device but returned")
                sim.refuse = False
                eq(iot_state(sim), before, f"state after the device refused {what}")
                iot_reads(sim, dev, ctx)
                ctx.label("failed " + ".".join(key))
            else:
                want = copy.deepcopy(before)
                effect(want, v)
                with judging(what):
                    await getattr(mod, key[1])(*args)
                eq(sim.rejected[r0:], [], f"{what}: commands the device refused")
                got = iot_state(sim)
                if got != want:
                    fail(f"{what}: " + "; ".join(f"{k}: {got[k]} instead of {want[k]}" for k in got if got[k] != want[k]))
                done = True
                ctx.label(".".join(key))
        with judging("update"):
            await dev.update()
        iot_reads(sim, dev, ctx)
    ctx.nontrivial(done and refused)


SUBS = [
    Sub("smart", smart_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=1400, thorough=20000, shards=4, tshards=8),
    Sub("vacuum", vac_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=200, thorough=3000, shards=1, tshards=2),
    Sub("hub", hub_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=800, thorough=10000, shards=4, tshards=8),
    Sub("cam", cam_cases, lambda c, x: vtime.run(lambda loop: smart(c, x)), quick=1000, thorough=10000, shards=4, tshards=8),
    Sub("iot", iot_cases, lambda c, x: vtime.run(lambda loop: iot(c, x)), quick=1000, thorough=10000, shards=3, tshards=8),
]
