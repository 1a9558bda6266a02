"""Driver: light commands against stateful lamps (C17)."""
from __future__ import annotations

import random
import json

import vt
import fakedev

from kasa import Device, KasaException, LightState, Module
from kasa.iot import IotBulb, IotDimmer, IotLightStrip
from kasa.smart import SmartDevice

# model -> (kind, directory, color, temp, lo, hi, class)
MODELS = {
    "L530E(EU)_3.0_1.1.6": ("smart", "smart", True, True, 2500, 6500, SmartDevice),
    "L630(EU)_1.0_1.1.2": ("smart", "smart", True, True, 2200, 6500, SmartDevice),
    "L510B(EU)_3.0_1.0.5": ("smart", "smart", False, False, 0, 0, SmartDevice),
    "KS225(US)_1.0_1.1.1": ("smart", "smart", False, False, 0, 0, SmartDevice),
    "L900-5(EU)_1.0_1.1.0": ("smart", "smart", True, False, 0, 0, SmartDevice),
    "L930-5(EU)_1.0_1.2.5": ("smart", "smart", True, True, 2500, 6500, SmartDevice),
    "KL130(EU)_1.0_1.8.8": ("bulb", "iot", True, True, 2500, 9000, IotBulb),
    "KL120(US)_1.0_1.8.11": ("bulb", "iot", False, True, 2700, 5000, IotBulb),
    "KL125(US)_4.0_1.0.5": ("bulb", "iot", True, True, 2500, 6500, IotBulb),
    "LB110(US)_1.0_1.8.11": ("bulb", "iot", False, False, 0, 0, IotBulb),
    "KL430(US)_2.0_1.0.9": ("strip", "iot", True, True, 2500, 9000, IotLightStrip),
    "KL420L5(US)_1.0_1.0.2": ("strip", "iot", True, False, 0, 0, IotLightStrip),
    "HS220(US)_1.0_1.5.7": ("dimmer", "iot", False, False, 0, 0, IotDimmer),
    "KS230(US)_2.0_1.0.11": ("dimmer", "iot", False, False, 0, 0, IotDimmer),
}
WRONG = {"b": [50.5, "50", -1], "h": [12.5, "1", -1], "s": [1.5, "x", -1]}


def n(x):
    return None if x == -1 else x


class Lamp:
    """Reads and writes the state of a stand-in in the terms of the specification."""

    def __init__(self, kind, dev):
        self.kind, self.dev = kind, dev

    def get(self):
        d = self.dev
        if self.kind == "dimmer":
            return {"on": bool(d.sys["relay_state"]), "bri": d.sys["brightness"], "hue": 0, "sat": 0, "ct": 0}
        if self.kind == "smart":
            i = d.info
            return {"on": i["device_on"], "bri": i["brightness"], "hue": i.get("hue", 0), "sat": i.get("saturation", 0), "ct": i.get("color_temp", 0)}
        ls = d.sys["light_state"]
        v = ls if ls["on_off"] else ls["dft_on_state"]
        return {"on": bool(ls["on_off"]), "bri": v["brightness"], "hue": v["hue"], "sat": v["saturation"], "ct": v["color_temp"]}

    def set(self, x):
        d = self.dev
        if self.kind == "dimmer":
            d.sys.update(relay_state=int(x["on"]), brightness=x["bri"])
        elif self.kind == "smart":
            i = d.info
            i.update(device_on=x["on"], brightness=x["bri"])
            for k, s in (("hue", "hue"), ("saturation", "sat"), ("color_temp", "ct")):
                if k in i:
                    i[k] = x[s]
        else:
            v = {"brightness": x["bri"], "hue": x["hue"], "saturation": x["sat"], "color_temp": x["ct"], "mode": "normal"}
            d.sys["light_state"] = {"on_off": 1, **v} if x["on"] else {"on_off": 0, "dft_on_state": v}


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    kind, sub, color, temp, lo, hi, cls = MODELS[script["model"]]
    data = fakedev.fixture(script["model"], sub)
    raw = fakedev.Smart(data) if kind == "smart" else fakedev.Iot(data)
    if kind == "smart":
        i = raw.info
        i["dynamic_light_effect_enable"] = False
        if "lighting_effect" in i:
            i["lighting_effect"]["enable"] = 0
    elif "lighting_effect_state" in raw.sys:
        raw.sys["lighting_effect_state"]["enable"] = 0
    lamp = Lamp(kind, raw)

    def norm():
        x = lamp.get()
        if not color:
            x["hue"] = x["sat"] = 0
        if not temp:
            x["ct"] = 0
        return x
    lamp.set({**norm(), **script["lamp"]})
    start = norm()
    faults = {}

    def plan(k, req):
        return faults.pop("next", None)

    def log(e, **kw):
        ev.append({"e": e, **kw})

    async def main():
        p = raw.wire(plan)
        dev = cls("127.0.0.1", protocol=p)
        await dev.update()
        L = dev.modules[Module.Light]
        assert L.has_feature("hsv") == color and L.has_feature("color_temp") == temp, "model table"
        if temp:
            f = L.get_feature("color_temp")
            assert (f.minimum_value, f.maximum_value) == (lo, hi), (f.minimum_value, f.maximum_value)
        for st in script["steps"]:
            if st["k"] == "other":
                lamp.set({**norm(), **st["lamp"]})
                log("other", lamp=norm())
                if st.get("skip"):
                    continue
            else:
                c = st["cmd"]
                tr = st.get("tr")
                kw = {"transition": tr} if tr is not None else {}
                b, h, s, t = ((R.choice(WRONG[k]) if c[k] == -2 else n(c[k])) if k in WRONG else n(c[k]) for k in ("b", "h", "s", "t"))
                if c["c"] == "hsv" and c["b"] == -2:
                    b = R.choice([50.5, "50", -1])
                feats = dev.features
                via = st.get("via") == "feature"
                if c["c"] == "on":
                    co = feats["state"].set_value(True) if via else dev.turn_on(**(kw if kind != "smart" else {}))
                elif c["c"] == "off":
                    co = feats["state"].set_value(False) if via else dev.turn_off(**(kw if kind != "smart" else {}))
                elif c["c"] == "bri":
                    co = feats["brightness"].set_value(b) if via else L.set_brightness(b, **kw)
                elif c["c"] == "ct":
                    co = feats["color_temperature"].set_value(t) if via and b is None and temp else L.set_color_temp(t, brightness=b, **kw)
                elif c["c"] == "hsv":
                    co = L.set_hsv(h, s, b, **kw)
                else:
                    co = L.set_state(LightState(light_on=None if c["on"] == -1 else bool(c["on"]), brightness=b, hue=h, saturation=s, color_temp=t, **kw))
                raw.log.clear()
                if kind == "smart":
                    raw.refuse = {"set_device_info": -1003} if st.get("refuse") else {}
                    faults.update({"next": st["fault"]} if st.get("fault") else {})
                else:
                    faults.update({"next": st["fault"]} if st.get("fault") == "lost" else {})
                try:
                    await co
                    ok = True
                except (KasaException, ValueError, TypeError):
                    ok = False
                raw.refuse = {}
                faults.clear()
                log("cmd", cmd=c, ok=ok, sent=len(raw.log), refused=bool(st.get("refuse")) and kind == "smart")
                log("lamp", lamp=norm())
                if st.get("skip"):
                    continue
            await dev.update()
            x = {"on": dev.is_on, "bri": L.brightness, "hue": -1, "sat": -1, "val": -1, "ct": -1}
            if color:
                x["hue"], x["sat"], x["val"] = L.hsv
            if temp:
                x["ct"] = L.color_temp
            q = L.state
            m = {"on": q.light_on, "bri": q.brightness, "hue": q.hue, "sat": q.saturation, "ct": q.color_temp}
            x["st"] = {k: -1 if v is None else v for k, v in m.items()}
            log("view", v=x)
            f = dev.features
            if (f["state"].value, f["brightness"].value) != (x["on"], x["bri"]) or (temp and f["color_temperature"].value != x["ct"]) or (
                    color and tuple(f["hsv"].value) != (x["hue"], x["sat"], x["val"])) or dev.is_off == x["on"]:
                log("features-differ")

    try:
        vt.run(main, vtime=10 ** 6, iterations=200000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except AssertionError:
        raise
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {"cfg": {"kind": kind, "color": color, "temp": temp, "lo": lo, "hi": hi}, "lamp": start, "ev": ev}
