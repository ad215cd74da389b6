"""P21: light commands mean exactly what was asked, within the limits of the bulb."""
from __future__ import annotations

import math

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, fail, judging, require

from kasa import KasaException, LightState, Module

LEVEL = "exploration"
RULE = ("A case is a history of light commands, refused commands and external changes on one recorded light; non-trivial "
        "when at least two commands changed the light and one was refused.")
ASSUMPTIONS = ["simulated lights seeded from the repository's recordings; a colour temperature other than 0 takes "
               "precedence over hue and saturation; a legacy light turned on without ignore_default comes on as it was",
               "combined states name a colour temperature (0 for colours) whenever they name a hue, as presets do; "
               "their hue, saturation and temperature are within limits",
               "brightness 0 next to a colour is not judged"]

BAD_INT = {"low": -1, "high": 101, "frac": 50.5, "str": "50", "nan": math.nan, "huge": 10**6, "inf": math.inf,
           "list": [50]}
#: models whose colour temperature limits are documented (others: 2700-5000)
MODELS = ["LB130(EU)", "LB120(US)", "LB230(US)", "KB130(EU)", "KL130(US)", "KL130(UN)", "KL130B(UN)", "KL125(US)",
          "KL135(US)", "KL120(EU)", "KL120(US)", "KL430(US)", "KL400(US)"]
trans = st.none() | st.integers(0, 60000)


def ops():
    b = st.integers(1, 100)
    return st.lists(st.one_of(
        st.tuples(st.just("brightness"), st.integers(0, 100), trans),
        st.tuples(st.just("hsv"), st.integers(0, 360), st.integers(0, 100), st.none() | b, trans),
        st.tuples(st.just("ct"), st.integers(0, 1000), st.none() | b, trans),
        st.tuples(st.just("state"), st.fixed_dictionaries({
            "light_on": st.sampled_from([None, True, False]), "brightness": st.none() | st.integers(0, 100),
            "colour": st.sampled_from(["none", "hs", "ct"]), "hue": st.integers(0, 360), "sat": st.integers(0, 100),
            "ct": st.integers(0, 1000), "transition": trans})),
        st.tuples(st.just("on"), trans), st.tuples(st.just("off"), trans),
        st.tuples(st.just("outside"), st.booleans(), b, st.integers(0, 360), st.integers(0, 100),
                  st.integers(0, 1000), st.booleans(), st.booleans()),
        st.tuples(st.just("bad"), st.sampled_from(["brightness", "hue", "saturation", "value", "ct", "ctb", "state"]),
                  st.sampled_from(sorted(BAD_INT)), st.integers(1, 500)),
    ), min_size=2, max_size=9)


def iot_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(iotsim.names("bulb", "lightstrip", "dimmer")),
                                  "model": st.none() | st.sampled_from(MODELS), "ops": ops()})


def light_fixtures():
    out = []
    for n, f in smartsim.fixtures().items():
        infos = [f["get_device_info"]] + f.get("get_child_device_list", {}).get("child_device_list", [])
        if any("brightness" in i for i in infos):
            out.append(n)
    return out


def smart_cases():
    return st.fixed_dictionaries({"fixture": st.sampled_from(light_fixtures()), "ops": ops()})


class IotLight:
    """What the simulated light really holds."""

    def __init__(self, sim, node):
        self.sim, self.dimmer = sim, sim.light is None
        self.color = not self.dimmer and bool(sim.sys["is_color"])
        self.cct = not self.dimmer and bool(sim.sys["is_variable_color_temp"])
        self.dim = self.dimmer or bool(sim.sys["is_dimmable"])
        self.range = sim.kelvin() if self.cct else None
        if "lighting_effect_state" in sim.sys:
            sim.sys["lighting_effect_state"]["enable"] = 0
        if not self.dimmer:
            sim.light = {k: v for k, v in sim.light.items() if k in ("brightness", "hue", "saturation", "color_temp",
                                                                     "mode")}
            if self.color:
                sim.light.setdefault("hue", 0), sim.light.setdefault("saturation", 0)
            if self.cct:
                sim.light.setdefault("color_temp", 0 if self.color else self.range[0])

    def get(self):
        if self.dimmer:
            return {"on": bool(self.sim.sys["relay_state"]), "brightness": self.sim.sys["brightness"]}
        out = {"on": self.sim.on, "brightness": self.sim.light["brightness"]}
        if self.color:
            out.update(hue=self.sim.light["hue"], saturation=self.sim.light["saturation"])
        if self.cct:
            out["color_temp"] = self.sim.light["color_temp"]
        return out

    def put(self, new):
        if self.dimmer:
            self.sim.switch(None, new["on"])
            self.sim.sys["brightness"] = new["brightness"]
            return
        self.sim.on = new["on"]
        self.sim.light.update({k: v for k, v in new.items() if k != "on"})


class SmartLight:
    def __init__(self, sim, node):
        self.node = node
        i = node.info
        node.end_effects()
        comps = [c["id"] for c in node.comps]
        self.dim = True
        self.dimmer = False
        self.range = tuple(i.get("color_temp_range") or (2500, 6500))
        self.color = "color" in comps
        self.cct = "color_temperature" in comps and self.range[0] != self.range[1]
        if self.color:
            i.setdefault("hue", 0), i.setdefault("saturation", 0)

    def get(self):
        i = self.node.info
        out = {"on": i["device_on"], "brightness": i["brightness"]}
        if self.color:
            out.update(hue=i["hue"], saturation=i["saturation"])
        if self.cct:
            out["color_temp"] = i["color_temp"]
        return out

    def put(self, new):
        self.node.switch(new["on"])
        self.node.info.update({k: v for k, v in new.items() if k != "on"})


async def run(root, dev, light_mod, truth, sim, tr, case, ctx, smart):
    model = truth.get()
    n_done = n_bad = 0

    async def refused(what, coro):
        n0 = len(tr.sent)
        try:
            await coro
        except Exception:  # noqa: BLE001
            pass
        else:
            fail(f"{what} was accepted")
        eq(tr.sent[n0:], [], f"{what} was sent to the device")

    async def readback(what):
        with judging(f"update after {what}"):
            await root.update()
        with judging(f"reading the light after {what}"):
            eq(dev.is_on, model["on"], f"is_on after {what}")
            eq(light_mod.brightness, model["brightness"], f"brightness after {what}")
            eq(dev.features["brightness"].value, model["brightness"], f"brightness feature after {what}")
            if truth.color:
                eq(tuple(light_mod.hsv), (model["hue"], model["saturation"], model["brightness"]), f"hsv after {what}")
                eq(tuple(dev.features["hsv"].value), tuple(light_mod.hsv), f"hsv feature after {what}")
            if truth.cct:
                eq(light_mod.color_temp, model["color_temp"], f"color_temp after {what}")
                eq(dev.features["color_temperature"].value, model["color_temp"], "feature")
                f = dev.features["color_temperature"]
                eq((f.minimum_value, f.maximum_value), truth.range, "colour temperature limits")
            s = light_mod.state
            if model["on"]:
                eq((s.light_on, s.brightness, s.hue, s.saturation, s.color_temp),
                   (True, model["brightness"], model.get("hue"), model.get("saturation"), model.get("color_temp")),
                   f"state after {what}")
            else:
                eq(s.light_on, False, f"state after {what}")
        for have, read in ((truth.color, lambda: light_mod.hsv), (truth.cct, lambda: light_mod.color_temp)):
            if not have:
                try:
                    got = read()
                except KasaException:
                    pass
                else:
                    fail(f"unsupported property reads as {got!r}")

    await readback("nothing")
    for op in case["ops"]:
        kind = op[0]
        what = repr(op)
        n0, r0, t0 = len(tr.sent), len(sim.rejected), len(getattr(sim, "transitions", ()))
        want = dict(model)
        transition = None
        lo, hi = truth.range or (2700, 5000)
        if kind == "outside":
            want.update(on=op[1], brightness=op[2])
            if truth.color:
                want.update(hue=op[3], saturation=op[4])
            if truth.cct:
                want["color_temp"] = 0 if truth.color and op[6] else lo + op[5] % (hi - lo + 1)
            if op[7] and not truth.dimmer:
                want["on"] = model["on"]
            truth.put(want)
            model = want
            if op[7] and not truth.dimmer:
                ctx.label("not seen yet")
            else:
                await readback(what)
            continue
        if kind == "bad":
            _, field, how, delta = op
            v = BAD_INT[how]
            if field == "hue" and how in ("high", "frac", "str"):
                v = {"high": 360 + delta, "frac": 180.5, "str": "180"}[how]
            if field in ("ct", "ctb"):
                if not truth.cct:
                    await refused("set_color_temp on a light without it", light_mod.set_color_temp(lo))
                elif field == "ct":
                    v = {"low": lo - delta, "high": hi + delta, "frac": lo + 0.5, "str": str(lo), "huge": 10**6}.get(how, v)
                    await refused(f"set_color_temp({v!r})", light_mod.set_color_temp(v))
                else:
                    await refused(f"set_color_temp(brightness={v!r})", light_mod.set_color_temp(lo, brightness=v))
            elif field in ("hue", "saturation", "value"):
                if not truth.color:
                    await refused("set_hsv on a light without colours", light_mod.set_hsv(10, 10, 10))
                else:
                    args = {"hue": 10, "saturation": 10, "value": 10, field: v}
                    await refused(f"set_hsv({args})", light_mod.set_hsv(**args))
            elif field == "state" and not smart:
                await refused(f"set_state(brightness={v!r})", light_mod.set_state(LightState(brightness=v)))
            else:
                await refused(f"set_brightness({v!r})", light_mod.set_brightness(v))
            n_bad += 1
            await readback(what)
            continue
        try:
            if kind == "brightness":
                transition = op[2]
                await light_mod.set_brightness(op[1], transition=transition)
                if op[1] == 0:
                    want["on"] = False
                else:
                    want["brightness"] = op[1]
                    if not smart:
                        want["on"] = True
            elif kind == "hsv":
                if not truth.color:
                    await refused("set_hsv on a light without colours", light_mod.set_hsv(*op[1:4]))
                    continue
                transition = op[4]
                await light_mod.set_hsv(op[1], op[2], op[3], transition=transition)
                want.update(hue=op[1], saturation=op[2])
                if "color_temp" in want:
                    want["color_temp"] = 0
                if op[3] is not None:
                    want["brightness"] = op[3]
                if not smart:
                    want["on"] = True
            elif kind == "ct":
                temp = lo + op[1] % (hi - lo + 1) if op[1] < 990 else (lo, hi)[op[1] % 2]
                if not truth.cct:
                    await refused("set_color_temp on a light without it", light_mod.set_color_temp(temp))
                    continue
                transition = op[3]
                await light_mod.set_color_temp(temp, brightness=op[2], transition=transition)
                want["color_temp"] = temp
                if op[2] is not None:
                    want["brightness"] = op[2]
                if not smart:
                    want["on"] = True
            elif kind == "state":
                s = op[1]
                transition = s["transition"]
                args = {"light_on": s["light_on"], "brightness": s["brightness"], "transition": transition}
                if s["colour"] == "hs" and truth.color:
                    args.update(hue=s["hue"], saturation=s["sat"], **({"color_temp": 0} if truth.cct else {}))
                if s["colour"] == "ct" and truth.cct:
                    args["color_temp"] = lo + s["ct"] % (hi - lo + 1)
                if args["brightness"] == 0:
                    # turns the light off; what else was asked next to it is not judged
                    args = {"light_on": s["light_on"], "brightness": 0, "transition": transition}
                await light_mod.set_state(LightState(**args))
                want["on"] = args["light_on"] is not False and args["brightness"] != 0
                for k in ("brightness", "hue", "saturation", "color_temp"):
                    if args.get(k) is not None and (k != "brightness" or args[k]):
                        want[k] = args[k]
                if truth.dimmer and not want["on"]:
                    want["brightness"] = model["brightness"]
            elif kind == "on":
                transition = op[1]
                await dev.turn_on(transition=transition)
                want["on"] = True
            elif kind == "off":
                transition = op[1]
                await dev.turn_off(transition=transition)
                want["on"] = False
        except Exception as ex:  # noqa: BLE001
            if isinstance(ex, AssertionError) or type(ex).__name__ == "Violation":
                raise
            fail(f"{what}: {type(ex).__name__}: {ex}; refused by the device: {sim.rejected[r0:]}")
        eq(sim.rejected[r0:], [], f"commands refused by the device for {what}")
        require(len(tr.sent) > n0, f"{what} sent nothing")
        eq(truth.get(), want, f"the light after {what}")
        if not smart and (transition is not None):
            if transition or not truth.dimmer:
                got = [t for t in sim.transitions[t0:] if t is not None]
                eq(got, [transition], f"transition of {what}")
        elif not smart and not truth.dimmer:
            eq([t for t in sim.transitions[t0:] if t is not None], [], f"transition of {what}")
        n_done += want != model
        model = want
        ctx.label(kind)
        await readback(what)
    ctx.nontrivial(n_done >= 2 and n_bad)


def check_iot(case, ctx):
    async def main(loop):
        sim = iotsim.IotSim(case["fixture"])
        if case["model"] and sim.sys.get("is_variable_color_temp"):
            sim.sys["model"] = case["model"]
            ctx.label(case["model"])
        truth = IotLight(sim, None)
        dev, tr = iotsim.make(sim)
        with judging("update"):
            await dev.update()
            light = dev.modules[Module.Light]
        await run(dev, dev, light, truth, sim, tr, case, ctx, False)

    vtime.run(main)


def check_smart(case, ctx):
    async def main(loop):
        sim = smartsim.SmartSim(case["fixture"])
        node = next(n for n in sim.nodes().values() if "brightness" in n.info)
        truth = SmartLight(sim, node)
        dev, tr = smartsim.make(sim)
        with judging("update"):
            await dev.update()
            target = dev if node.id is None else next(c for c in dev.children if c.device_id == node.id)
            light = target.modules[Module.Light]
        await run(dev, target, light, truth, sim, tr, case, ctx, True)

    vtime.run(main)


SUBS = [
    Sub("iot", iot_cases, check_iot, quick=7500, thorough=20000, shards=3, tshards=8,
        rule="two commands changed the light and one was refused"),
    Sub("smart", smart_cases, check_smart, quick=7500, thorough=20000, shards=4, tshards=8,
        rule="two commands changed the light and one was refused"),
]
