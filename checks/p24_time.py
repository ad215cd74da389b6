"""P24: device time, time zone and uptime are read and set exactly."""
from __future__ import annotations

import datetime as dt
import os
import time as _time
import zoneinfo

from hypothesis import strategies as st

import iotsim
import smartsim
import vtime
from core import Sub, eq, judging, require
from tztable import ZONES
from vtime import CLOCK, REAL_DT

from kasa import Module

LEVEL = "exploration"
RULE = ("A case is a device in some time zone at some instant (often around a daylight saving change), a host in some "
        "other zone and a history of updates, clock jitter, clock and zone changes, switching and set-time calls; "
        "non-trivial when the clock was read at two or more distinct instants in a zone with an offset.")
ASSUMPTIONS = ["devices that report local time cannot express the repeated hour: not judged in it",
               "the zones of the legacy index are those of the firmware list frozen in lib/tztable.py",
               "zones a legacy device does not have are mapped by equal offsets during this year, judged at noon",
               "on-times within five seconds are jitter"]

UTC = dt.UTC
ALL = sorted({*ZONES.values(), "Asia/Kathmandu", "Europe/Berlin", "Europe/London", "America/New_York",
              "America/Los_Angeles", "Australia/Lord_Howe", "America/St_Johns", "Asia/Kolkata", "Pacific/Chatham",
              "Africa/Casablanca", "America/Sao_Paulo", "Australia/Sydney", "Etc/UTC", "UTC"})
HOST = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Europe/Berlin", "Pacific/Honolulu"]
ODD = ["", "Foo/Bar", "UTC+05:30", "GMT+3", "../etc", "/etc/localtime", "Europe", "\u0130stanbul", "x" * 300, " "]


def aware(d):
    return d.tzinfo is not None and d.utcoffset() is not None


def ambiguous(ts, tz):
    """Local time of the instant is repeated or belongs to no single instant."""
    a = REAL_DT.fromtimestamp(ts, tz)
    return a.replace(fold=0).utcoffset() != a.replace(fold=1).utcoffset()


def instants():
    edges = [REAL_DT(2025, 3, 9, 10), REAL_DT(2025, 3, 30, 1), REAL_DT(2025, 10, 26, 1), REAL_DT(2025, 11, 2, 9),
             REAL_DT(2025, 11, 2, 6), REAL_DT(2025, 4, 5, 15), REAL_DT(2025, 9, 27, 14), REAL_DT(2024, 12, 31, 23),
             REAL_DT(2024, 2, 29, 12), REAL_DT(2025, 7, 1, 12), REAL_DT(2025, 1, 1, 0)]
    return st.tuples(st.sampled_from(edges), st.integers(-8 * 3600, 8 * 3600)).map(
        lambda t: int(t[0].replace(tzinfo=UTC).timestamp()) + t[1]) | st.integers(1_672_531_200, 1_830_297_600)


def ops(zone):
    when = instants()
    return st.lists(st.one_of(
        st.tuples(st.just("advance"), st.integers(0, 7 * 3600) | st.integers(0, 200 * 86400) | st.integers(0, 30)),
        st.tuples(st.just("jitter"), st.sampled_from([-3, -2, -1, 1, 2, 3, 0.5, -0.5])),
        st.tuples(st.just("clock"), st.integers(-8 * 3600, 8 * 3600) | st.integers(-20, 20)),
        st.tuples(st.just("zone"), zone),
        st.tuples(st.just("switch"), st.integers(0, 5), st.booleans(), st.booleans()),
        st.tuples(st.just("again"), st.integers(0, 5), st.integers(0, 30)),
        st.tuples(st.just("set"), st.sampled_from(["naive", "zone", "fixed", "utc", "own", "named"]), when,
                  st.sampled_from(ALL), st.integers(-12 * 60, 14 * 60), st.integers(0, 999_999)),
    ), min_size=1, max_size=9)


def cases(kind):
    zone = {"iot": st.sampled_from(sorted(ZONES)) | st.sampled_from([110, 255, -1, None]),
            "smart": st.tuples(st.sampled_from(ALL) | st.sampled_from(ODD) | st.none(), st.integers(-720, 840)),
            "cam": st.tuples(st.sampled_from(ALL) | st.sampled_from(ODD), st.integers(-720, 840))}[kind]
    fx = {"iot": list(iotsim.fixtures()),
          "smart": [n for n in smartsim.fixtures() if "get_device_time" in smartsim.fixtures()[n]],
          "cam": list(smartsim.cam_fixtures())}[kind]
    return st.fixed_dictionaries({"fixture": st.sampled_from(fx), "at": instants(), "zone": zone, "ops": ops(zone),
                                  "host": st.sampled_from(HOST), "on": st.integers(0, 40 * 86400) |
                                  st.integers(0, 8 * 3600), "skew": st.integers(-86400, 86400) | st.just(0)})


class Iot:
    def __init__(self, case):
        self.sim = iotsim.IotSim(case["fixture"])
        for m in list(self.sim.broken):
            if m[0] in iotsim.TIME_MODS:
                del self.sim.broken[m]
        self.own = self.sim.children or [None]
        for o in self.own:
            self.sim.on_at[o] = CLOCK.mono - case["on"]
        self.dev, self.tr = iotsim.make(self.sim)
        self.units = [None] if self.own == [None] else self.own

    def set_zone(self, z):
        if z is None:
            self.sim.broken[("time", "get_timezone")] = dict(iotsim.NO_MEMBER)
            self.sim.broken[("smartlife.iot.common.timesetting", "get_timezone")] = dict(iotsim.NO_MEMBER)
            self.sim.tz_index = 110
            return
        for m in iotsim.TIME_MODS:
            self.sim.broken.pop((m, "get_timezone"), None)
        self.sim.tz_index = z

    def zone(self):
        return self.sim.zone()

    def now(self):
        return int(self.sim.utc().timestamp())

    def shift(self, s):
        self.sim.skew += s

    def unit(self, o):
        return self.dev if o is None else self.dev.children[self.own.index(o)]

    def has_on_time(self, o):
        return o is not None or "on_time" in self.sim.sys

    def on(self, o):
        s = self.sim
        if o is not None:
            return bool(s.child(o)["state"])
        return bool(s.on) if s.light is not None else bool(s.sys["relay_state"])

    def on_time(self, o):
        return int(CLOCK.mono - self.sim.on_at[o])

    def switch(self, o, on):
        if self.sim.light is not None:
            self.sim.on = on
            return
        self.sim.switch(o, on)

    def refused(self):
        return self.sim.rejected


class Smart:
    def __init__(self, case):
        self.sim = smartsim.SmartSim(case["fixture"], page_size=8)
        self.units = [k for k, n in self.sim.nodes().items() if "on_time" in n.info]
        for k in self.units:
            self.sim.nodes()[k].on_at = CLOCK.mono - case["on"]
        self.dev, self.tr = smartsim.make(self.sim)
        self.fallback = dt.timezone.utc

    def set_zone(self, z):
        region, off = z
        t = self.sim.root.methods["get_device_time"]
        t.pop("region", None)
        if region is not None:
            t["region"] = region
        t["time_diff"] = off

    def zone(self):
        t = self.sim.root.methods["get_device_time"]
        if t.get("region"):
            try:
                return zoneinfo.ZoneInfo(t["region"])
            except (ValueError, KeyError, OSError):
                pass
        return dt.timezone(dt.timedelta(minutes=t["time_diff"]))

    def now(self):
        return int(self.sim.now())

    def shift(self, s):
        self.sim.skew += s

    def node(self, k):
        return self.sim.nodes()[k]

    def unit(self, k):
        return self.dev if self.node(k).id is None else next(
            c for c in self.dev.children if c.device_id == self.node(k).id)

    def has_on_time(self, k):
        return True

    def on(self, k):
        return bool(self.node(k).info.get("device_on"))

    def on_time(self, k):
        return int(CLOCK.mono - self.node(k).on_at)

    def switch(self, k, on):
        self.node(k).switch(on)

    def refused(self):
        return self.sim.rejected


class Cam(Smart):
    def __init__(self, case):
        super().__init__(case)
        self.units = []

    def set_zone(self, z):
        b = self.sim.root.methods["getTimezone"]["system"]["basic"]
        b["zone_id"] = z[0]
        sign, m = "-" if z[1] < 0 else "+", abs(z[1])
        b["timezone"] = f"UTC{sign}{m // 60:02d}:{m % 60:02d}"

    def zone(self):
        b = self.sim.root.methods["getTimezone"]["system"]["basic"]
        try:
            return zoneinfo.ZoneInfo(b["zone_id"])
        except (ValueError, KeyError, OSError):
            off = b["timezone"][3:]
            h, m = int(off[1:3]), int(off[4:6])
            return dt.timezone((-1 if off[0] == "-" else 1) * dt.timedelta(hours=h, minutes=m))


def same_zone(a, b, ts):
    """Same offsets around the instant and over its year."""
    return all(a.utcoffset(REAL_DT.fromtimestamp(t, UTC).astimezone(a)) == b.utcoffset(
        REAL_DT.fromtimestamp(t, UTC).astimezone(b)) for t in (ts, ts + 90 * 86400, ts + 180 * 86400, ts + 270 * 86400))


async def run(case, ctx, kind):
    h = {"iot": Iot, "smart": Smart, "cam": Cam}[kind](case)
    h.set_zone(case["zone"])
    h.shift(case["skew"])
    d = h.dev
    local = kind == "iot"
    cached, reads = {}, set()

    async def judge(what):
        with judging(f"update after {what}"):
            await d.update()
        z, now = h.zone(), h.now()
        with judging(f"reading the time after {what}"):
            t = d.time
            tm = d.modules[Module.Time].time
            tz = d.timezone
        require(aware(t), f"time {t!r} has no time zone")
        blurred = local and ambiguous(now, z)
        if not blurred:
            require(t.timestamp() == now and tm.timestamp() == now,
                    f"time is {t.isoformat()} after {what}, device has {REAL_DT.fromtimestamp(now, z).isoformat()} {z}")
            eq(t.utcoffset(), z.utcoffset(REAL_DT.fromtimestamp(now, UTC).astimezone(z)), f"offset of {t!r} in {z}")
            require(same_zone(tz, z, now), f"time zone is {tz!r}, device has {z!r}")
            reads.add(now)
        if "device_time" in d.features:
            eq(d.features["device_time"].value, tm, "device_time feature")
        for c in d.children:
            if not local and Module.Time in c.modules:
                continue  # has a clock of its own
            with judging(f"time of a child after {what}"):
                eq((c.time, str(c.timezone)), (t, str(tz)), "time of a child")
        firsts = []
        for o in h.units:
            u = h.unit(o)
            with judging(f"reading on_since after {what}"):
                got = u.on_since
                eq(u.on_since, got, "on_since read again")
            if not h.on(o) or not h.has_on_time(o):
                eq(got, None, f"on_since of {o} that is off or does not tell after {what}")
                cached.pop(o, None)
                continue
            require(got is not None and aware(got), f"on_since of {o} is {got!r}")
            if "on_since" in u.features:
                eq(u.features["on_since"].value, got, "on_since feature")
            firsts.append(got)
            if blurred:
                cached[o] = got.timestamp()
                continue
            want = now - h.on_time(o)
            ts = got.timestamp()
            require(abs(ts - want) <= 5.001, f"on_since of {o} is {got.isoformat()} after {what}",
                    f"device time {t.isoformat()} - {h.on_time(o)} s = {REAL_DT.fromtimestamp(want, z).isoformat()}")
            prev = cached.get(o)
            if prev is not None and abs(want - prev) < 4.9:
                eq(ts, prev, f"on_since of {o} changed by jitter after {what}")
            elif prev is None or abs(want - prev) > 5.1:
                eq(ts, want, f"on_since of {o} after {what}")
            cached[o] = ts
        if kind == "iot" and d.children:
            with judging("on_since of the strip"):
                got = d.on_since
            eq(got and got.timestamp(), min((x.timestamp() for x in firsts), default=None), "on_since of the strip")

    await judge("nothing")
    for op in case["ops"]:
        what = repr(op)
        if op[0] == "advance":
            CLOCK.mono += op[1]
        elif op[0] in ("jitter", "clock"):
            h.shift(op[1])
        elif op[0] == "zone":
            if op[1] is None:
                continue
            h.set_zone(op[1])
        elif op[0] in ("switch", "again"):
            if not h.units:
                continue
            o = h.units[op[1] % len(h.units)]
            if op[0] == "again":     # off and on again
                h.switch(o, False)
                CLOCK.mono += op[2]
                h.switch(o, True)
                if o is None and hasattr(h.sim, "on_at"):
                    h.sim.on_at[None] = CLOCK.mono
            elif op[3]:
                with judging(what):
                    await (h.unit(o).turn_on() if op[2] else h.unit(o).turn_off())
            else:
                h.switch(o, op[2])
        elif op[0] == "set":
            _, form, ts, zname, off, micro = op
            z0 = h.zone()
            tz = {"naive": z0, "zone": zoneinfo.ZoneInfo(zname), "own": z0, "utc": UTC,
                  "fixed": dt.timezone(dt.timedelta(minutes=off)),
                  "named": dt.timezone(dt.timedelta(minutes=off), "Local")}[form]
            if local:
                if case["zone"] is None and form not in ("naive",):
                    continue     # device with an unknown zone
                if h.sim.tz_index not in ZONES or any(k[1] == "get_timezone" for k in h.sim.broken):
                    continue
                if form in ("fixed", "named", "utc") or form == "zone" and zname not in ZONES.values():
                    # zones are matched over the current year
                    this = REAL_DT.fromtimestamp(CLOCK.wall).year
                    noon = REAL_DT(this, 1, 2, 12, tzinfo=tz) + dt.timedelta(days=ts // 86400 % 360)
                    ts = int(noon.timestamp())
                if ambiguous(ts, tz):
                    continue
            arg = REAL_DT.fromtimestamp(ts, tz)
            if form == "naive":
                # the device's zone as of the last update is meant
                arg = arg.replace(tzinfo=None)
            arg = arg.replace(microsecond=micro if micro % 3 else 0)
            n0, before = len(h.tr.sent), h.now()
            try:
                await d.modules[Module.Time].set_time(arg)
            except ValueError:
                if not (local and form in ("zone", "fixed", "named", "utc")):
                    raise
                eq(len(h.tr.sent), n0, f"{what} failed but something was sent")
                require(not exact_zone(tz), f"{what}: zone {tz} is refused although the device has it")
                ctx.label("zone refused")
                continue
            except Exception as ex:  # noqa: BLE001
                require(False, f"{what}: {type(ex).__name__}: {ex}; refused {h.refused()}")
            require(abs(h.now() - ts) <= 1, f"device holds {REAL_DT.fromtimestamp(h.now(), UTC)} after {what}",
                    f"wanted {REAL_DT.fromtimestamp(ts, UTC)}, before {REAL_DT.fromtimestamp(before, UTC)}")
            if kind == "cam":
                sec, text = h.sim.local_times[-1]
                zone_at = z0 if form != "zone" else tz
                eq(text, REAL_DT.fromtimestamp(sec, zone_at).strftime("%Y-%m-%d %H:%M:%S"),
                   f"local time sent along {sec} for {what} in {zone_at}")
            if kind == "smart":
                eq(h.sim.root.methods["get_device_time"]["time_diff"],
                   int(REAL_DT.fromtimestamp(ts, tz).utcoffset() / dt.timedelta(minutes=1)), f"offset from UTC sent by {what}")
            if form == "zone":
                require(h.zone().utcoffset(REAL_DT.fromtimestamp(ts, UTC).astimezone(h.zone())) ==
                        tz.utcoffset(REAL_DT.fromtimestamp(ts, UTC).astimezone(tz)),
                        f"device zone is {h.zone()} after {what}")
            elif form in ("naive", "own"):
                require(same_zone(h.zone(), z0, ts), f"device zone changed from {z0} to {h.zone()} by {what}")
        ctx.label(op[0] if op[0] != "set" else f"set {op[1]}")
        await judge(what)
    eq(h.refused(), [], "requests the device refused")
    ctx.nontrivial(len(reads) >= 2)


def exact_zone(tz):
    return isinstance(tz, zoneinfo.ZoneInfo) and tz.key in ZONES.values() or tz is UTC


def at(case, ctx, kind):
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["host"]
    _time.tzset()
    try:
        vtime.run(lambda loop: run(case, ctx, kind), wall=case["at"])
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        _time.tzset()


SUBS = [
    Sub("iot", lambda: cases("iot"), lambda c, x: at(c, x, "iot"), quick=6000, thorough=15000, shards=4, tshards=8,
        rule="two distinct instants read"),
    Sub("smart", lambda: cases("smart"), lambda c, x: at(c, x, "smart"), quick=5000, thorough=12000, shards=3,
        tshards=8, rule="two distinct instants read"),
    Sub("camera", lambda: cases("cam"), lambda c, x: at(c, x, "cam"), quick=2500, thorough=8000, shards=1, tshards=8,
        rule="two distinct instants read"),
]
