"""Driver: the reported switch-on time (C23)."""
from __future__ import annotations

import json
import random
from datetime import UTC, datetime
from zoneinfo import ZoneInfo

import vt
import fakedev

from kasa import KasaException
from kasa.iot import IotDimmer, IotPlug, IotStrip, IotWallSwitch
from kasa.smart import SmartDevice

IOT = [(IotPlug, ["HS100(UK)_4.1_1.1.0", "HS110(EU)_4.0_1.0.4", "KP115(US)_1.0_1.0.17"]), (IotWallSwitch, ["HS200(US)_5.0_1.0.2", "KS200M(US)_1.0_1.0.10"]),
       (IotDimmer, ["HS220(US)_2.0_1.0.3"]), (IotStrip, ["HS300(US)_2.0_1.0.12", "KP303(UK)_1.0_1.0.3", "EP40(US)_1.0_1.0.2"])]
SMART = ["EP25(US)_2.6_1.0.2", "P110(EU)_1.0_1.2.3", "P100(US)_1.0.0_1.4.0", "HS220(US)_3.26_1.0.1", "KS225(US)_1.0_1.1.0", "TP15(US)_1.0_1.0.3"]
SMARTS = ["P300(EU)_1.0_1.0.15", "P210M(US)_1.0_1.0.3", "EP40M(US)_1.0_1.1.0"]
# index of legacy devices -> zone
IDX = {41: "Europe/Amsterdam", 13: "CST6CDT", 93: "Australia/Adelaide", 90: "Asia/Tokyo", 48: "Europe/Athens", 23: "Canada/Atlantic", 77: "Asia/Kathmandu", 39: "GB"}
ZONES = ["Europe/Berlin", "America/New_York", "Australia/Lord_Howe", "Asia/Kolkata", "Europe/London", "America/St_Johns", None]
# moments at which many zones change their offset: 31 Mar, 27 Oct, 10 Mar, 3 Nov and 6/7 Apr, 5/6 Oct 2024
EDGES = [1711846800, 1729990800, 1710054000, 1730613600, 1712419200, 1728142200]


def ambiguous(t, zone):
    """Local times that occur twice, or a clock that shows them, do not tell the time."""
    d = datetime.fromtimestamp(t, ZoneInfo(zone))
    return d.replace(fold=0).utcoffset() != d.replace(fold=1).utcoffset()


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    kind = script["kind"]
    zone = None
    if kind in ("smart", "smarts"):
        data = fakedev.fixture(R.choice(SMART if kind == "smart" else SMARTS))
        st = fakedev.Smart(data)
        zone = R.choice(ZONES)
        t = data["get_device_time"]
        t["region"] = zone or ""
        t["time_diff"] = R.choice([0, 60, -300])
    else:
        cls, names = IOT[{"plug": 0, "switch": 1, "dimmer": 2, "strip": 3}[kind]]
        data = fakedev.fixture(R.choice(names), "iot")
        st = fakedev.Iot(data)
        idx = R.choice(list(IDX))
        zone = IDX[idx]
        data["time"]["get_timezone"] = {"index": idx, "err_code": 0}
    units = list(st.kids.values()) if kind == "smarts" else st.sys["children"] if kind == "strip" else [st]
    n = len(units)
    # seconds: now, error of the clock, moment of switching on per unit
    start = R.choice(EDGES) - R.choice([60, 3600, 7200, 86400, 40000]) if R.random() < 0.6 else 1700000000 + R.randrange(30000000)
    w = {"t": start, "off": 0, "jit": [0] * n, "since": [start - R.choice([0, 1, 5, 100, 100000, 7000000]) if R.random() < 0.7 else -1 for _ in range(n)]}
    lose = [False]

    def log(e, **kw):
        ev.append({"e": e, **kw})

    def raw():
        return [-1 if s < 0 else s + w["off"] + j for s, j in zip(w["since"], w["jit"])]

    def put():
        """What the device has in its registers now."""
        clock = w["t"] + w["off"]
        for i, u in enumerate(units):
            s = w["since"][i]
            w["jit"][i] = min(w["jit"][i], clock - s - w["off"]) if s >= 0 else 0     # an on-time is never negative
            ot = 0 if s < 0 else clock - (s + w["off"] + w["jit"][i])
            if kind in ("smart", "smarts"):
                u.info["device_on"] = s >= 0
                u.info["on_time"] = ot
            elif kind == "strip":
                u["state"], u["on_time"] = int(s >= 0), ot
            else:
                st.sys["relay_state"], st.sys["on_time"] = int(s >= 0), ot
        if kind in ("smart", "smarts"):
            data["get_device_time"]["timestamp"] = clock
        else:
            d = datetime.fromtimestamp(clock, ZoneInfo(zone))
            data["time"]["get_time"] = {"year": d.year, "month": d.month, "mday": d.day, "hour": d.hour, "min": d.minute, "sec": d.second, "err_code": 0}

    async def main():
        proto = st.wire(lambda n, r: "lost" if lose[0] else None)
        dev = SmartDevice("127.0.0.1", protocol=proto) if kind in ("smart", "smarts") else cls("127.0.0.1", protocol=proto)
        put()
        await dev.update()
        log("poll", r=raw())
        kids = []
        if kind == "smarts":
            kids = [next(c for c in dev.children if c.device_id == i) for i in st.kids]
        elif kind == "strip":
            kids = [next(c for c in dev.children if c.device_id.endswith(u["id"])) for u in units]
        objs = kids or [dev]

        def val(o):
            try:
                v = o.on_since if R.random() < 0.6 or "on_since" not in o.features else o.features["on_since"].value
            except KasaException:
                return -2
            if v is None:
                return -1
            if v.tzinfo is None or v.utcoffset() is None:
                return -7
            return round(v.astimezone(UTC).timestamp())

        def read():
            if kind == "strip" and R.random() < 0.4:
                v = val(dev)
                for i, o in enumerate(objs):
                    log("read", i=i + 1, v=val(o))
                log("whole", v=v)
                return
            for i, o in enumerate(objs):
                if R.random() < 0.8:
                    log("read", i=i + 1, v=val(o))
                    if R.random() < 0.2:
                        log("read", i=i + 1, v=val(o))

        for s in script["steps"]:
            a = s["a"]
            if a == "tick":
                dt = R.choice([1, 3, 30, 600, 3600, 20000, 90000, 500000])
                w["t"] += dt
                if zone and kind not in ("smart", "smarts"):
                    while ambiguous(w["t"] + w["off"], zone):
                        w["t"] += 3600
            elif a in ("on", "off"):
                for i in range(n):
                    if R.random() < 0.7 or i == 0:
                        if a == "off":
                            w["since"][i] = -1
                        elif w["since"][i] < 0:
                            w["since"][i] = w["t"] - R.choice([0, 0, 0, 2])
                put()
            elif a == "clock":
                w["off"] += s["d"] * R.choice([1, 1, 3, 4000])
                while zone and kind not in ("smart", "smarts") and ambiguous(w["t"] + w["off"], zone):
                    w["off"] += 3600
            elif a in ("poll", "fail"):
                w["t"] += R.choice([0, 1, 5])
                while zone and kind not in ("smart", "smarts") and ambiguous(w["t"] + w["off"], zone):
                    w["t"] += 3600
                w["jit"] = [s["j"] if i == 0 else R.randint(-2, 2) for i in range(n)]
                put()
                lose[0] = a == "fail"
                try:
                    await dev.update()
                    log("poll", r=raw())
                except KasaException:
                    log("fail", r=raw(), lib=True)
                lose[0] = False
            elif a == "read":
                read()
        read()

    try:
        vt.run(main, vtime=36000, iterations=400000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-600:])
    return {"n": n, "ev": ev}
