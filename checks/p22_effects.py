"""P22: light effects and presets are selected, saved and reported consistently."""
from __future__ import annotations

import base64
import copy

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require
from p21_light import light_fixtures

from kasa import LightState, Module
from kasa.iot.effects import EFFECT_MAPPING_V1
from kasa.smart.effects import EFFECT_MAPPING

LEVEL = "exploration"
RULE = ("A case is a history of effect and preset commands, plain colours, external changes and refused names on one "
        "recorded light; non-trivial when at least two commands changed the light.")
ASSUMPTIONS = ["simulated lights seeded from the repository's recordings",
               "the definitions of the built-in effects are taken from the library's tables as loaded",
               "presets reported while an effect runs, and selecting the pseudo preset 'Not set', are not judged",
               "effect names stored by bulbs are base64 or empty"]

MAP = {"iot": copy.deepcopy(EFFECT_MAPPING_V1), "smart": copy.deepcopy(EFFECT_MAPPING)}
STATE = st.fixed_dictionaries({"brightness": st.integers(1, 100), "hue": st.integers(0, 360),
                               "saturation": st.integers(0, 100), "ct": st.integers(0, 5000), "white": st.booleans()})


def ops():
    bright = st.none() | st.integers(1, 100)
    return st.lists(st.one_of(
        st.tuples(st.just("effect"), st.integers(0, 40), bright, st.none() | st.integers(0, 10000)),
        st.tuples(st.just("off")),
        st.tuples(st.just("custom"), st.integers(1, 100), st.text(max_size=8), st.booleans()),
        st.tuples(st.just("hsv"), st.integers(0, 360), st.integers(0, 100)),
        st.tuples(st.just("ct"), st.integers(0, 5000)),
        st.tuples(st.just("brightness"), st.integers(1, 100)),
        st.tuples(st.just("dark")),
        st.tuples(st.just("preset"), st.integers(0, 13)),
        st.tuples(st.just("save"), st.integers(0, 13), STATE),
        st.tuples(st.just("oldsave"), st.integers(0, 13), STATE),
        st.tuples(st.just("bad"), st.sampled_from(["", "off", "Not a name", "Light preset 0", "Light preset 99",
                                                   "aurora", "L1"])),
        st.tuples(st.just("outside"), st.integers(0, 40), STATE),
    ), min_size=2, max_size=9)


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(iotsim.names("bulb", "lightstrip")), "ops": ops(),
                                  "presets": st.lists(st.one_of(STATE, st.just("effect")), max_size=6) |
                                  st.lists(STATE | st.just("effect"), min_size=9, max_size=14)})


def smart_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(light_fixtures()), "ops": ops(),
                                  "presets": st.lists(st.one_of(STATE, st.just("effect")), max_size=8) |
                                  st.lists(STATE | st.just("effect"), min_size=9, max_size=14),
                                  "names": st.lists(st.text(min_size=1, max_size=8), max_size=2)})


async def run(case, ctx, smart):
    if smart:
        sim = smartsim.SmartSim(case["fixture"], page_size=4)
        node = next(n for n in sim.nodes().values() if "brightness" in n.info)
        info = node.info
        comps = [c["id"] for c in node.comps]
        color = "color" in comps
        lo, hi = info.get("color_temp_range") or (2500, 6500)
        cct = "color_temperature" in comps and lo != hi
        strip = "lighting_effect" in info
        dynamic = "light_effect" in comps and "dynamic_light_effect_enable" in info
        if color:
            info.setdefault("hue", 0), info.setdefault("saturation", 0)
        if isinstance(node.methods.get("get_dynamic_light_effect_rules"), dict):
            for r, n in zip(node.methods["get_dynamic_light_effect_rules"]["rule_list"], case["names"], strict=False):
                r["scene_name"] = base64.b64encode((n + "~" + r["id"]).encode()).decode()
            for r in node.methods["get_dynamic_light_effect_rules"]["rule_list"]:
                if r["scene_name"] and not r["scene_name"].endswith("=") and len(r["scene_name"]) % 4:
                    r["scene_name"] = ""
        eff = info.get("lighting_effect")
        if eff is not None and eff["name"] == "softAP":
            eff["enable"] = 0
    else:
        sim = iotsim.IotSim(case["fixture"])
        color, cct = bool(sim.sys["is_color"]), bool(sim.sys["is_variable_color_temp"])
        lo, hi = sim.kelvin()
        strip, dynamic = "lighting_effect_state" in sim.sys, False
        eff = sim.sys.get("lighting_effect_state")
        if color:
            sim.light.setdefault("hue", 0), sim.light.setdefault("saturation", 0), sim.light.setdefault("color_temp", 0)

    def plain(s):
        """A preset or plain state of this light."""
        out = {"brightness": s["brightness"]}
        if color:
            out.update(hue=s["hue"], saturation=s["saturation"],
                       color_temp=(lo + s["ct"] % (hi - lo + 1)) if s["white"] and cct else 0)
        elif cct:
            out.update(color_temp=lo + s["ct"] % (hi - lo + 1))
        return out

    full = color     # presets of a white bulb hold what was recorded
    # -- stored presets
    if smart and case["presets"] and full and isinstance(node.methods.get("get_preset_rules"), dict) \
            and "states" in node.methods["get_preset_rules"]:
        effp = {"lighting_effect": {"brightness": 100, "custom": 0, "enable": 1, "id": "x", "name": "Sunrise"}}
        node.methods["get_preset_rules"] = {"start_index": 0, "sum": len(case["presets"]), "states": [
            copy.deepcopy(effp) if p == "effect" else plain(p) for p in case["presets"]]}
    elif smart and not full and case["presets"]:
        bright = [50 if p == "effect" else p["brightness"] for p in case["presets"]]
        rules = node.methods.get("get_preset_rules")
        if all(set(p) == {"brightness"} for p in info.get("preset_state", [{}])):
            info["preset_state"] = [{"brightness": b} for b in bright]
        elif "preset_state" not in info and isinstance(rules, dict) and "brightness" in rules:
            rules["brightness"] = bright
    elif not smart and case["presets"] and full and "preferred_state" in sim.sys:
        sim.sys["preferred_state"] = [
            {"brightness": 100, "custom": 0, "id": "QglBhMShPHUAuxLqzNEefFrGiJwahOmz", "index": i, "mode": 2}
            if p == "effect" else {"index": i, **plain(p)} for i, p in enumerate(case["presets"])]
    dev, tr = (smartsim if smart else iotsim).make(sim)
    with judging("update"):
        await dev.update()
        target = dev if not smart or node.id is None else next(c for c in dev.children if c.device_id == node.id)
        light = target.modules[Module.Light]
        emod = target.modules.get(Module.LightEffect)
        pmod = target.modules.get(Module.LightPreset)
    require((emod is not None) == (strip or dynamic), "presence of the effects module")
    mapping = MAP["smart" if smart else "iot"]

    def stored():
        """The device's presets: list of dicts."""
        if not smart:
            return sim.sys.get("preferred_state", [])
        if "preset_state" in info:
            return info["preset_state"]
        r = node.methods.get("get_preset_rules")
        if not isinstance(r, dict):
            return []
        return r["states"] if "states" in r else [{"brightness": b} for b in r["brightness"]]

    def now():
        src = info if smart else sim.light
        return {k: src[k] for k in ("brightness", "hue", "saturation", "color_temp") if k in src and
                (k == "brightness" or k in ("hue", "saturation") and color or k == "color_temp" and cct)}

    def running():
        """Name of the running effect, None if none runs."""
        if strip:
            return eff_now()["name"] if eff_now()["enable"] else None
        if dynamic:
            if not info["dynamic_light_effect_enable"]:
                return None
            return names()[info["dynamic_light_effect_id"]]
        return None

    def eff_now():
        return info["lighting_effect"] if smart else sim.sys["lighting_effect_state"]

    def names():
        out = {}
        for r in node.methods["get_dynamic_light_effect_rules"]["rule_list"]:
            n = r["scene_name"]
            if not n:
                n = {"L1": "Party", "L2": "Relax"}[r["id"]]
            else:
                try:
                    n = base64.b64decode(n).decode()
                except ValueError:
                    pass
            out[r["id"]] = n
        return out

    def listed():
        return list(names().values()) if dynamic else list(mapping)

    def matches(p):
        cur = now()
        return all(cur[k] == p.get(k, cur[k] if not smart else None) for k in cur)

    async def judge(what):
        with judging(f"update after {what}"):
            await dev.update()
        with judging(f"reading after {what}"):
            if emod is not None:
                r = running()
                eq(emod.effect, "Off" if r is None else r or "Custom", f"effect after {what}")
                eq(sorted(emod.effect_list), sorted(["Off", *listed()]), "effect list")
                f = target.features["light_effect"]
                eq((f.value, f.choices), (emod.effect, emod.effect_list), "effect feature")
                if r is not None and r in listed():
                    want = eff_now()["brightness"] if strip else next(
                        x for x in node.methods["get_dynamic_light_effect_rules"]["rule_list"]
                        if x["id"] == info["dynamic_light_effect_id"])["color_status_list"][0][0]
                    eq(emod.brightness, want, f"brightness of the effect after {what}")
                    eq(light.brightness, want, f"brightness while an effect runs after {what}")
            if pmod is not None:
                usable = [p for p in stored() if "id" not in p and "lighting_effect" not in p]
                ls = pmod.preset_states_list
                eq(len(ls), len(usable), "number of presets")
                eq(pmod.preset_list[0], "Not set", "first preset")
                eq(len(pmod.preset_list), len(ls) + 1, "names of presets")
                for s, p in zip(ls, usable, strict=True):
                    eq({k: getattr(s, k) for k in ("brightness", "hue", "saturation", "color_temp") if k in p},
                       {k: v for k, v in p.items() if k in ("brightness", "hue", "saturation", "color_temp")},
                       "values of a preset")
                if running() is None:
                    got = pmod.preset
                    fit = [n for n, p in zip(pmod.preset_list[1:], usable, strict=True) if matches(p)]
                    if got == "Not set":
                        eq(fit, [], f"presets matching {now()} although none is reported")
                    else:
                        require(got in fit, f"reported preset {got} does not match {now()}", fit, usable)
                    eq(target.features["light_preset"].value, got, "preset feature")

    await judge("nothing")
    done = 0
    for op in case["ops"]:
        kind, what = op[0], repr(op)
        n0, r0 = len(tr.sent), len(sim.rejected)
        before_presets, before_now, before_run = copy.deepcopy(stored()), now(), running()
        before_rules = copy.deepcopy(node.methods.get("get_dynamic_light_effect_rules")) if dynamic else None
        try:
            if kind == "effect" and emod is not None:
                name = listed()[op[1] % len(listed())]
                cur = light.brightness
                await emod.set_effect(name, brightness=op[2], transition=op[3])
                eq(running(), name, f"running effect after {what}")
                if strip:
                    want = copy.deepcopy(mapping[name])
                    if op[2] is not None:
                        want["brightness"] = op[2]
                    elif smart and cur:
                        want["brightness"] = cur
                    if op[3] is not None:
                        want["transition"] = op[3]
                    eq(node.methods["get_lighting_effect"] if smart else sim.effect, want, f"effect sent for {what}")
                else:
                    b = op[2] if op[2] is not None else cur
                    for r in before_rules["rule_list"]:
                        if names()[r["id"]] == name:
                            r["color_status_list"] = [[b, *c[1:]] for c in r["color_status_list"]]
                    eq(node.methods["get_dynamic_light_effect_rules"]["rule_list"], before_rules["rule_list"],
                       f"stored effects after {what}")
                done += 1
            elif kind == "off" and emod is not None:
                await emod.set_effect("Off")
                eq(running(), None, f"running effect after {what}")
                eq(now(), before_now, f"light after {what}")
            elif kind == "custom" and strip:
                custom = {"custom": 1, "id": "Y" * 8, "brightness": op[1], "name": "c" + op[2], "enable": 1,
                          "segments": [0], "expansion_strategy": 1, "type": "sequence", "duration": 0,
                          "transition": 500, "repeat_times": 0, "spread": 1, "direction": 4,
                          "sequence": [[op[1], 100, 100]], "display_colors": [[op[1], 1, 2]]}
                sent = copy.deepcopy(custom)
                await emod.set_custom_effect(custom)
                eq(custom, sent, "the caller's custom effect")
                eq(node.methods["get_lighting_effect"] if smart else sim.effect, sent, "custom effect sent")
                require(emod.has_custom_effects, "custom effects")
                done += 1
            elif kind == "custom" and dynamic:
                try:
                    await emod.set_custom_effect({"name": "x"})
                except Exception:  # noqa: BLE001
                    eq(len(tr.sent), n0, "unsupported custom effect was sent")
                else:
                    fail("custom effect accepted by a bulb that has none")
            elif kind == "hsv" and color:
                await light.set_hsv(op[1], op[2])
                eq(running(), None, f"running effect after {what}")
                done += 1
            elif kind == "ct" and cct:
                await light.set_color_temp(lo + op[1] % (hi - lo + 1))
                eq(running(), None, f"running effect after {what}")
                done += 1
            elif kind == "brightness":
                await light.set_brightness(op[1])
                eq(running(), before_run, f"running effect after {what}")
                if running() is not None and running() in listed():
                    got = eff_now()["brightness"] if strip else next(
                        x for x in node.methods["get_dynamic_light_effect_rules"]["rule_list"]
                        if x["id"] == info["dynamic_light_effect_id"])["color_status_list"][0][0]
                    eq(got, op[1], "brightness of the running effect")
                    eq({k: v for k, v in now().items() if k != "brightness"},
                       {k: v for k, v in before_now.items() if k != "brightness"}, "light")
                    if dynamic:
                        for r in before_rules["rule_list"]:
                            if r["id"] == info["dynamic_light_effect_id"]:
                                r["color_status_list"] = [[op[1], *c[1:]] for c in r["color_status_list"]]
                        eq(node.methods["get_dynamic_light_effect_rules"]["rule_list"], before_rules["rule_list"],
                           f"stored effects after {what}")
                    done += 1
            elif kind == "dark" and smart and strip and running() is not None:
                await emod.set_brightness(0)
                eq(running(), None, "running effect after its brightness was set to 0")
                done += 1
            elif kind == "preset" and pmod is not None and len(pmod.preset_list) > 1:
                i = op[1] % (len(pmod.preset_list) - 1)
                p = [p for p in stored() if "id" not in p and "lighting_effect" not in p][i]
                await pmod.set_preset(pmod.preset_list[i + 1])
                cur = now()
                eq({k: v for k, v in cur.items() if k in p}, {k: p[k] for k in cur if k in p}, f"light after {what}")
                eq(sim.on if not smart else info["device_on"], True, f"on after {what}")
                if color:
                    eq(running(), None, f"running effect after {what}")
                done += 1
            elif kind in ("save", "oldsave") and pmod is not None and len(pmod.preset_list) > 1 \
                    and (kind == "save" or not smart):
                i = op[1] % (len(pmod.preset_list) - 1)
                usable = [n for n, p in enumerate(stored()) if "id" not in p and "lighting_effect" not in p]
                new = plain(op[2])
                if not full and smart:
                    new = {k: v for k, v in new.items() if k in stored()[usable[i]]}
                state = LightState(**new)
                if kind == "oldsave":
                    old = dev.modules[Module.LightPreset]._deprecated_presets[i]
                    for k, v in new.items():
                        setattr(old, k, v)
                    await dev.modules[Module.LightPreset]._deprecated_save_preset(old)
                else:
                    await pmod.save_preset(pmod.preset_list[i + 1], state)
                after = stored()
                eq(len(after), len(before_presets), "number of stored presets")
                for n, (a, b) in enumerate(zip(after, before_presets, strict=True)):
                    if n != usable[i]:
                        eq(a, b, f"preset {n} after saving preset {usable[i]}")
                    else:
                        eq({k: a.get(k) for k in new}, new, f"saved preset after {what}")
                        eq(a.get("index", n), n, "index of the saved preset")
                eq(now(), before_now, f"light after {what}")
                done += 1
            elif kind == "bad":
                for mod, meth in ((emod, "set_effect"), (pmod, "set_preset")):
                    if mod is None or op[1] in (mod.effect_list if mod is emod else mod.preset_list):
                        continue
                    try:
                        await getattr(mod, meth)(op[1])
                    except Exception:  # noqa: BLE001
                        pass
                    else:
                        fail(f"{meth}({op[1]!r}) was accepted")
                if pmod is not None and op[1] not in pmod.preset_list:
                    try:
                        await pmod.save_preset(op[1], LightState(brightness=10))
                    except Exception:  # noqa: BLE001
                        pass
                    else:
                        fail(f"save_preset({op[1]!r}) was accepted")
                eq(tr.sent[n0:], [], f"{what}: an unknown name was sent")
            elif kind == "outside":
                if emod is not None and op[1] % 3 == 0:
                    name = listed()[op[1] % len(listed())]
                    if strip:
                        eff_now().update(enable=1, name=name, custom=0, brightness=op[2]["brightness"])
                    else:
                        rid = next(k for k, v in names().items() if v == name)
                        info.update(dynamic_light_effect_enable=True, dynamic_light_effect_id=rid)
                        node.methods["get_dynamic_light_effect_rules"].update(enable=True, current_rule_id=rid)
                else:
                    if strip:
                        eff_now()["enable"] = 0
                    if dynamic:
                        node.end_effects()
                    usable = [p for p in stored() if "id" not in p and "lighting_effect" not in p]
                    new = plain(op[2])
                    if usable and op[1] % 2:
                        p = usable[op[1] % len(usable)]
                        new = {k: p[k] for k in new if k in p}
                    (info if smart else sim.light).update(new)
            else:
                continue
        except Exception as ex:  # noqa: BLE001
            if type(ex).__name__ == "Violation":
                raise
            fail(f"{what}: {type(ex).__name__}: {ex}; refused by the device {sim.rejected[r0:]}")
        eq(sim.rejected[r0:], [], f"commands refused by the device for {what}")
        ctx.label(kind, "strip" if strip else "dynamic" if dynamic else "no effects")
        await judge(what)
    eq(dict(MAP["smart" if smart else "iot"]), dict(EFFECT_MAPPING if smart else EFFECT_MAPPING_V1),
       "tables of the built-in effects after the history")
    ctx.nontrivial(done >= 2)


SUBS = [
    Sub("iot", iot_cases, lambda c, x: vtime.run(lambda loop: run(c, x, False)), quick=6000, thorough=20000, shards=3,
        tshards=8, rule="two commands changed the light"),
    Sub("smart", smart_cases, lambda c, x: vtime.run(lambda loop: run(c, x, True)), quick=6000, thorough=20000,
        shards=4, tshards=8, rule="two commands changed the light"),
]
