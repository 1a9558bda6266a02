"""Driver: light effects and presets (C24)."""
from __future__ import annotations

import asyncio
import copy
import json
import random
import re

import vt
import fakedev
from drv_light import Lamp

from kasa import KasaException, LightState, Module
from kasa.iot import IotBulb, IotLightStrip
from kasa.iot.effects import EFFECT_MAPPING_V1
from kasa.smart import SmartDevice
from kasa.smart.effects import EFFECT_MAPPING

# what the built-in effects are, before anything has run
TABLE = {"istrip": copy.deepcopy(EFFECT_MAPPING_V1), "sstrip": copy.deepcopy(EFFECT_MAPPING)}
# model -> (kind, color, temp, brightness only, class, child)
MODELS = {
    "L530E(EU)_3.0_1.1.6": ("rules", True, True, False, SmartDevice, None),
    "L530E(EU)_3.0_1.1.0": ("rules", True, True, False, SmartDevice, None),
    "L630(EU)_1.0_1.1.2": ("rules", True, True, False, SmartDevice, None),
    "L900-5(EU)_1.0_1.1.0": ("sstrip", True, False, False, SmartDevice, None),
    "L920-5(EU)_1.0_1.1.3": ("sstrip", True, False, False, SmartDevice, None),
    "L930-5(EU)_1.0_1.2.5": ("sstrip", True, True, False, SmartDevice, None),
    "KL430(US)_1.0_1.0.10": ("istrip", True, True, False, IotLightStrip, None),
    "KL430(UN)_2.0_1.0.8": ("istrip", True, True, False, IotLightStrip, None),
    "KL420L5(US)_1.0_1.0.2": ("istrip", True, False, False, IotLightStrip, None),
    "L510B(EU)_3.0_1.0.5": ("smart", False, False, True, SmartDevice, None),
    "KS225(US)_1.0_1.1.1": ("smart", False, False, True, SmartDevice, None),
    "KS240(US)_1.0_1.0.5": ("smart", False, False, True, SmartDevice, "SCRUBBED_CHILD_DEVICE_ID_1"),
    "LB110(US)_1.0_1.8.11": ("iot", False, False, False, IotBulb, None),
    "KL120(US)_1.0_1.8.11": ("iot", False, True, False, IotBulb, None),
    "KL130(EU)_1.0_1.8.8": ("iot", True, True, False, IotBulb, None),
}
CUSTOM = {"custom": 1, "id": "oJnFHsVQzFUTeIOBAhMRfVeujmSauhjJ", "segments": [0], "expansion_strategy": 1, "enable": 1, "duration": 0, "transition": 500,
          "type": "sequence", "direction": 1, "spread": 1, "repeat_times": 0, "sequence": [[30, 81, 80], [40, 60, 80]]}
PROPS = ("brightness", "hue", "saturation", "color_temp")
KEYS = ("bri", "hue", "sat", "ct")


class Stage:
    """The stand-in in the terms of the specification."""

    def __init__(self, model, names=None):
        self.kind, self.color, self.temp, self.bonly, self.cls, child = MODELS[model]
        self.legacy = self.kind in ("istrip", "iot")
        data = fakedev.fixture(model, "iot" if self.legacy else "smart")
        if child:
            comps = {c["device_id"]: c["component_list"] for c in data["get_child_device_component_list"]["child_component_list"]}
            data["child_devices"] = {c["device_id"]: {"get_device_info": c, "component_nego": {"component_list": comps[c["device_id"]]}}
                                     for c in copy.deepcopy(data["get_child_device_list"]["child_device_list"])}
        self.root = fakedev.Iot(data) if self.legacy else fakedev.Smart(data)
        self.dev = self.root.kids[child] if child else self.root
        self.child = child
        self.lamp = Lamp("bulb" if self.legacy else "smart", self.dev)
        if self.kind in TABLE:
            self.names = list(TABLE[self.kind])
        elif self.kind == "rules":
            self.names = []
            for x, stored in zip(self.data["get_dynamic_light_effect_rules"]["rule_list"], names or ["", "", ""]):
                x["scene_name"] = stored
                self.names.append({"": {"L1": "Party", "L2": "Relax"}[x["id"]], "cGFydHky": "party2", "w6RiYw==": "\u00e4bc"}.get(stored, stored))
        else:
            self.names = []

    @property
    def data(self):
        return self.dev.data

    def rulelist(self):
        return self.data["get_dynamic_light_effect_rules"]["rule_list"]

    def effrec(self):
        return self.dev.sys["lighting_effect_state"] if self.legacy else self.dev.info["lighting_effect"]

    def slotlist(self):
        if self.legacy:
            return self.dev.sys["preferred_state"]
        if "preset_state" in self.dev.info:
            return self.dev.info["preset_state"]
        return self.data["get_preset_rules"]["brightness" if self.bonly else "states"]

    def get(self):
        x = self.lamp.get()
        x.pop("on")
        if not self.color:
            x["hue"] = x["sat"] = 0
        if not self.temp:
            x["ct"] = 0
        eff, rules = {"k": 0, "bri": 0}, [0]
        if self.kind == "rules":
            rules = [r["color_status_list"][0][0] if len({c[0] for c in r["color_status_list"]}) == 1 else -7 for r in self.rulelist()]
            i = self.dev.info
            if i["dynamic_light_effect_enable"]:
                eff = {"k": [r["id"] for r in self.rulelist()].index(i["dynamic_light_effect_id"]) + 1, "bri": 0}
        elif self.kind in TABLE:
            e = self.effrec()
            if e["enable"]:
                eff = {"k": -1 if e["custom"] else self.names.index(e["name"]) + 1 if e["name"] in self.names else -7, "bri": e["brightness"]}
        slots = []
        for s in self.slotlist():
            if type(s) is int:
                s = {"brightness": s}
            if "lighting_effect" in s or "id" in s:
                slots.append({"e": True, "bri": 100, "hue": -1, "sat": -1, "ct": -1})
            else:
                slots.append({"e": False, **{k: s.get(p, -1) for p, k in zip(PROPS, KEYS)}})
        return {"lamp": x, "eff": eff, "rules": rules, "slots": slots}

    def set(self, s):
        if "lamp" in s:
            self.lamp.set({"on": True, **s["lamp"]})
        if "rules" in s and self.kind == "rules":
            for r, b in zip(self.rulelist(), s["rules"]):
                for c in r["color_status_list"]:
                    c[0] = b
        if "eff" in s:
            k, b = s["eff"]["k"], s["eff"]["bri"]
            if self.kind == "rules":
                i, g = self.dev.info, self.data["get_dynamic_light_effect_rules"]
                i["dynamic_light_effect_enable"] = g["enable"] = k > 0
                i.pop("dynamic_light_effect_id", None), g.pop("current_rule_id", None)
                if k > 0:
                    i["dynamic_light_effect_id"] = g["current_rule_id"] = self.rulelist()[k - 1]["id"]
            elif self.kind in TABLE:
                e = self.effrec()
                src = TABLE[self.kind][self.names[k - 1]] if k > 0 else CUSTOM if k else e
                e.update(name=src.get("name", "Mine"), id=src["id"], custom=src["custom"], enable=int(k != 0), brightness=b if k else 70)
        if "slots" in s:
            out = []
            for n, x in enumerate(s["slots"]):
                if self.bonly and "preset_state" not in self.dev.info:
                    out.append(x["bri"])
                elif x["e"]:
                    out.append({"index": n, "brightness": 100, "custom": 0, "id": "bCTItKETDFfrKANolgldxfgOakaarARs", "mode": 2} if self.legacy
                               else {"lighting_effect": {"brightness": 100, "custom": 0, "id": "TapoStrip_4HVKmMc6vEzjm36jXaGwMs", "name": "Bubbling Cauldron"}})
                else:
                    x = x if self.temp or not self.color else {**x, "ct": 0}
                    out.append({**({"index": n} if self.legacy else {}), **{p: x[k] for p, k in zip(PROPS, KEYS) if x[k] != -1}})
            if self.legacy:
                self.dev.sys["preferred_state"] = out
            elif "preset_state" in self.dev.info:
                self.dev.info["preset_state"] = out
            else:
                g = self.data["get_preset_rules"]
                g["brightness" if self.bonly else "states"] = out
                if "sum" in g:
                    g["sum"] = len(out)

    def rest(self):
        """Everything that effects and presets must leave alone."""
        d = copy.deepcopy(self.root.data)
        node = d["child_devices"][self.child] if self.child else d
        if self.legacy:
            s = node["system"]["get_sysinfo"]
            for k in ("light_state", "lighting_effect_state", "preferred_state"):
                s.pop(k, None)
            node.pop("smartlife.iot.lighting_effect", None)
        else:
            i = node["get_device_info"]
            for k in ("brightness", "hue", "saturation", "color_temp", "device_on", "dynamic_light_effect_enable", "dynamic_light_effect_id", "lighting_effect",
                      "preset_state"):
                i.pop(k, None)
            node.pop("get_preset_rules", None)
            node.pop("get_lighting_effect", None)
            g = node.get("get_dynamic_light_effect_rules", {})
            for k in ("enable", "current_rule_id"):
                g.pop(k, None)
            for r in g.get("rule_list", []):
                for c in r["color_status_list"]:
                    c[0] = 0
        return d


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    st = Stage(script["model"], script.get("names"))
    n = len(st.names)
    pos = lambda k: (k - 1) % n + 1 if k > 0 and n else k  # noqa: E731
    for x in [script["start"], *(x["s"] if x["k"] == "other" else x["cmd"] for x in script["steps"])]:
        x = x.get("eff", x)
        if "k" in x and x.get("c", "effect") == "effect":
            x["k"] = pos(x["k"])
    st.set(script["start"])
    cfg = {"kind": st.kind, "color": st.color, "temp": st.temp, "bonly": st.bonly, "n": n,
           "dflt": [TABLE["istrip"][x]["brightness"] for x in st.names] if st.kind == "istrip" else [0]}
    head = {"cfg": cfg, **st.get()}
    raw = st.root

    def log(e, **kw):
        ev.append({"e": e, **kw})

    def exact(c, tr):
        """Was a selected effect sent as it is defined?"""
        if st.kind not in TABLE or not (c["c"] == "effect" and c["k"] > 0 or c["c"] == "custom"):
            return True
        sent = raw.log[-1][2]
        want = dict(TABLE[st.kind][st.names[c["k"] - 1]]) if c["c"] == "effect" else dict(c["dict"])
        if c["c"] == "effect":
            if tr is not None:
                want["transition"] = tr
            want["brightness"] = sent.get("brightness")
        return sent == want

    async def main():
        dev = st.cls("127.0.0.1", protocol=raw.wire())
        await dev.update()
        root = dev
        if st.child:
            dev = next(c for c in dev.children if c.device_id == st.child)
        M = dev.modules
        L, P = M[Module.Light], M[Module.LightPreset]
        E = M.get(Module.LightEffect)
        assert (E is not None) == (n > 0), "model table"

        def ename(k):
            return "Off" if k == 0 else st.names[k - 1] if k > 0 else R.choice(["", "nope", "aurora", "Light preset 1"])

        def pname(k):
            return P.preset_list[k] if 0 <= k < len(P.preset_list) else R.choice(["", "Light preset 99", "Off"])

        for step in script["steps"]:
            if step["k"] == "other":
                before = st.get()
                st.set(step["s"])
                after = st.get()
                log("other", **after)
                if before["rules"] != after["rules"]:
                    await asyncio.sleep(90000)
                elif before["slots"] != after["slots"]:
                    await asyncio.sleep(100)
            else:
                c = dict(step["cmd"])
                if c["c"] == "save" and st.color and not st.temp:
                    c["ct"] = 0
                via, tr = step.get("via"), step.get("tr")
                kw = {"transition": tr} if tr is not None else {}
                F = dev.features
                if c["c"] == "effect":
                    if c["b"] != -1:
                        kw["brightness"] = c["b"]
                    co = F["light_effect"].set_value(ename(c["k"])) if via and c["b"] == -1 and tr is None else E.set_effect(ename(c["k"]), **kw)
                elif c["c"] == "custom":
                    c["dict"] = {**CUSTOM, "name": R.choice(["Mine", ""]), "brightness": c["b"]}
                    co = E.set_custom_effect(dict(c["dict"]))
                elif c["c"] == "ebri":
                    co = E.set_brightness(c["b"])
                elif c["c"] == "bri":
                    co = F["brightness"].set_value(c["b"]) if via else L.set_brightness(c["b"])
                elif c["c"] == "preset":
                    co = F["light_preset"].set_value(pname(c["k"])) if via else P.set_preset(pname(c["k"]))
                else:
                    x = LightState(**{p: c[k] for p, k in zip(PROPS, ("b", "hue", "sat", "ct")) if c[k] != -1})
                    co = P.save_preset(pname(c["k"]), x)
                rest = st.rest()
                raw.log.clear()
                if step.get("refuse"):
                    st.dev.refuse = {m: -1003 if not st.legacy else -3 for m in
                                     R.sample(["set_dynamic_light_effect_rule_enable", "edit_dynamic_light_effect_rule"], R.choice([1, 2]))
                                     + ["set_lighting_effect", "set_device_info", "set_preset_rules", "edit_preset_rules", "transition_light_state", "set_light_state",
                                        "set_preferred_state"]}
                try:
                    await co
                    ok = True
                except (KasaException, ValueError, NotImplementedError):
                    ok = False
                refused = any(m in st.dev.refuse for (*_, m) in [(x[1],) for x in raw.log])
                st.dev.refuse = {}
                cmd = {k: c[k] for k in ("c", "k", "b", "hue", "sat", "ct")}
                log("cmd", cmd=cmd, ok=ok, sent=len(raw.log), refused=refused, exact=ok and exact(c, tr))
                log("held", **st.get(), rest=st.rest() == rest)
            await root.update()
            v = {"eff": 0, "running": False, "ebri": 0, "bri": L.brightness, "preset": 0}
            same = True
            if E is not None:
                e = E.effect
                v["eff"] = 0 if e == "Off" else -1 if e in ("Mine", "Custom") else st.names.index(e) + 1 if e in st.names else -7
                if list(E.effect_list) != ["Off", *st.names] or dev.features["light_effect"].value != e:
                    same = False
                v["running"] = bool(getattr(E, "is_active", False))
                if v["eff"] > 0:
                    v["ebri"] = E.brightness
            v["names"] = [int(re.search(r"(\d+)$", x)[1]) for x in P.preset_list[1:]]
            v["states"] = [[-1 if getattr(x, p) is None else getattr(x, p) for p in PROPS] for x in P.preset_states_list]
            p = P.preset
            v["preset"] = list(P.preset_list).index(p)
            same = same and dev.features["light_preset"].value == p and P.preset_list[0] == "Not set" and dev.features["brightness"].value == v["bri"]
            log("view", v=v, same=same)

    try:
        vt.run(main, vtime=10 ** 7, iterations=200000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except AssertionError:
        raise
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {**head, "ev": ev}
