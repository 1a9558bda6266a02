"""Driver: module settings against stateful stand-ins (C25)."""
from __future__ import annotations

import asyncio
import copy
import json
import random

import vt
import fakedev
from drv_feature import iot_class

from kasa import KasaException, Module
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

NO, WRONG = -9999, -8888
VOL = ["mute", "low", "normal", "high"]
RULES = ["always", "never", "night_mode"]
SUCTION = {1: "Quiet", 2: "Standard", 3: "Turbo", 4: "Max", 5: "Ultra"}
WATER = ["Disable", "Low", "Medium", "High"]
DUST = {-1000: "Off", 0: "Smart", 1: "Light", 2: "Balanced", 3: "Max"}
RANGES = ["Far", "Mid", "Near", "Custom"]
UNITS = ["celsius", "fahrenheit"]
BAD = ["", "nope", "LOW", "Alarm 99"]


def b(x):
    return int(bool(x))


def opt(x):
    return None if x == NO else x


def wrong(x, names):
    """Name of a position; something unknown for anything else."""
    return names[x] if x in (names if isinstance(names, dict) else range(len(names))) else BAD[abs(x) % 4]


class Base:
    """How a group of settings is held (get/set), commanded (cmd) and read back (view, feats)."""
    mod = None
    models = []
    hub = None      # the model of the hub that the device is connected to
    top, top2, lo, hi, n = 60, 60, 0, 0, 1

    def __init__(self, node):
        self.d = node

    def feats(self, f):
        return {}

    def prep(self):
        pass

    def noise(self, R):
        """Let what else the device reports vary."""
        i = getattr(self.d, "info", None)
        if not isinstance(i, dict):
            return
        for k, vs in (("auto_off_status", ("on", "off")), ("auto_off_remain_time", (0, 7, 3000)), ("power_protection_status", ("normal", "overloaded")),
                      ("trv_states", ([], ["heating"], ["low_battery"], ["heating", "low_battery"])), ("overheat_status", ("normal", "overheated"))):
            if k in i:
                v = R.choice(vs)
                i[k] = list(v) if isinstance(v, list) else v

    def limits(self):
        return {"mod": self.mod, "n": self.n, "lo": self.lo, "hi": self.hi, "top": self.top, "top2": self.top2}


def numfeat(f, key):
    return f[key].value


class Switch(Base):
    """One switch: at(d) -> (container, key, off value, on value)."""
    module = None
    feat = None
    vals = (False, True)

    def get(self):
        c, k = self.at()
        return {"on": self.vals.index(c[k])}

    def set(self, s):
        c, k = self.at()
        c[k] = self.vals[s["on"]]

    def cmd(self, dev, c, via, R):
        if via:
            return dev.features[self.feat].set_value(bool(c["v"]))
        return dev.modules[self.module].set_enabled(bool(c["v"]))

    def view(self, dev):
        return {"on": b(dev.modules[self.module].enabled)}

    def feats(self, f):
        return {"on": b(f[self.feat].value)}


class ChildLock(Switch):
    mod, module, feat = "childlock", Module.ChildLock, "child_lock"
    models = [("smart", "RV20 Max Plus(EU)_1.0_1.0.7", None), ("smart", "RV30 Max(US)_1.0_1.2.0", None)]

    def at(self):
        return self.d.data["getChildLockInfo"], "child_lock_status"


KE = [("child", f"KE100({x})", None) for x in ("EU)_1.0_2.8.0", "EU)_1.0_2.4.0", "UK)_1.0_2.8.0")]
KE = [("child", "KE100(EU)_1.0_2.8.0", None), ("child", "KE100(EU)_1.0_2.4.0", None), ("child", "KE100(UK)_1.0_2.8.0", None)]


class ChildProt(Switch):
    mod, module, feat, models = "childprot", Module.ChildProtection, "child_lock", KE

    def at(self):
        return self.d.info, "child_protection"


class Frost(Switch):
    mod, module, models = "frost", Module.FrostProtection, KE

    def at(self):
        return self.d.info, "frost_protection_on"

    def cmd(self, dev, c, via, R):
        return dev.modules[self.module].set_enabled(bool(c["v"]))

    def feats(self, f):
        return {}


class Unit(Switch):
    mod, feat, models = "unit", "temperature_unit", KE + [("child", "T310(EU)_1.0_1.5.0", None), ("child", "T315(EU)_1.0_1.7.0", None)]
    vals = UNITS

    def at(self):
        return self.d.info, "temp_unit"

    def cmd(self, dev, c, via, R):
        if via or c["v"] == WRONG:
            return dev.features[self.feat].set_value(wrong(c["v"], UNITS))
        return dev.modules[Module.TemperatureSensor].set_temperature_unit(UNITS[c["v"]])

    def view(self, dev):
        return {"on": UNITS.index(dev.modules[Module.TemperatureSensor].temperature_unit)}

    def feats(self, f):
        return {"on": UNITS.index(f[self.feat].value)}


class Trans1(Switch):
    mod, module, feat = "trans1", Module.LightTransition, "smooth_transitions"
    models = [("smart", x, None) for x in ("L530E(EU)_3.0_1.1.0", "L900-5(EU)_1.0_1.1.0", "L930-5(EU)_1.0_1.2.5")]

    def at(self):
        return self.d.data["get_on_off_gradually_info"], "enable"


class AutoUpd(Switch):
    mod, feat = "autoupd", "auto_update_enabled"
    models = [("smart", x, None) for x in ("EP25(US)_2.6_1.0.2", "KS225(US)_1.0_1.1.1", "H100(EU)_1.0_1.5.10")]

    def at(self):
        return self.d.data["get_auto_update_info"], "enable"

    def cmd(self, dev, c, via, R):
        if via:
            return dev.features[self.feat].set_value(bool(c["v"]))
        return dev.modules[Module.Firmware].set_auto_update_enabled(bool(c["v"]))

    def view(self, dev):
        return {"on": b(dev.modules[Module.Firmware].auto_update_enabled)}


class SleepMode(Switch):
    mod, feat = "sleepmode", "fan_sleep_mode"
    models = [("smart", "KS240(US)_1.0_1.0.7", "SCRUBBED_CHILD_DEVICE_ID_2"), ("smart", "KS240(US)_1.0_1.0.4", "SCRUBBED_CHILD_DEVICE_ID_2")]

    def at(self):
        return self.d.info, "fan_sleep_mode_on"

    def cmd(self, dev, c, via, R):
        return dev.features[self.feat].set_value(bool(c["v"])) if via else dev.modules[Module.Fan].set_sleep_mode(bool(c["v"]))

    def view(self, dev):
        return {"on": b(dev.modules[Module.Fan].sleep_mode)}


CAMS = [("smartcam", x, None) for x in ("C210(EU)_2.0_1.4.3", "C100_4.0_1.3.14", "TC70_3.0_1.3.11")]
PETS = [("smartcam", x, None) for x in ("C220(EU)_1.0_1.2.2", "C225(US)_2.0_1.0.11", "D130(US)_1.0_1.1.9")]


def camswitch(mod_, module_, feat_, getter, section, key, models_):
    class Cs(Switch):
        mod, module, feat, models, vals = mod_, module_, feat_, models_, ("off", "on")

        def at(self):
            return self.d.data[getter][section][key], "enabled"
    return Cs


from kasa.smartcam.modules.lensmask import LensMask as _Lens  # noqa: E402

CamMods = [camswitch("motion-det", "MotionDetection", "motion_detection", "getDetectionConfig", "motion_detection", "motion_det", CAMS + PETS),
           camswitch("person-det", "PersonDetection", "person_detection", "getPersonDetectionConfig", "people_detection", "detection", CAMS + PETS),
           camswitch("pet-det", "PetDetection", "pet_detection", "getPetDetectionConfig", "pet_detection", "detection", PETS),
           camswitch("cry-det", "BabyCryDetection", "baby_cry_detection", "getBCDConfig", "sound_detection", "bcd", CAMS),
           camswitch("tamper-det", "TamperDetection", "tamper_detection", "getTamperDetectionConfig", "tamper_detection", "tamper_det", CAMS[:1] + PETS)]


class Lens(camswitch("lens", Module.LensMask, None, "getLensMaskConfig", "lens_mask", "lens_mask_info", CAMS + PETS)):
    def cmd(self, dev, c, via, R):
        return dev.modules[Module.LensMask].set_enabled(bool(c["v"]))

    def feats(self, f):
        return {}


class CamLed(camswitch("camled", Module.Led, "led", "getLedStatus", "led", "config", CAMS + PETS + [("smartcam", "H200(EU)_1.0_1.3.6", None)])):
    def cmd(self, dev, c, via, R):
        return dev.features["led"].set_value(bool(c["v"])) if via else dev.modules[Module.Led].set_led(bool(c["v"]))

    def view(self, dev):
        return {"on": b(dev.modules[Module.Led].led)}


class Las(Switch):
    mod, module, feat, vals = "las", Module.IotAmbientLight, "ambient_light_enabled", (0, 1)
    models = [("iot", x, None) for x in ("ES20M(US)_1.0_1.0.11", "KS200M(US)_1.0_1.0.12", "KS220M(US)_1.0_1.0.4")]

    def at(self):
        return self.d.data["smartlife.iot.LAS"]["get_config"]["devs"][0], "enable"


class IotLed(Switch):
    mod, vals = "iotled", (1, 0)
    models = [("iot", x, None) for x in ("HS110(US)_1.0_1.2.6", "HS220(US)_1.0_1.5.7", "KP303(UK)_1.0_1.0.3", "HS200(US)_3.0_1.1.5")]

    def at(self):
        return self.d.sys, "led_off"

    def cmd(self, dev, c, via, R):
        return dev.features["led"].set_value(bool(c["v"])) if via else dev.modules[Module.Led].set_led(bool(c["v"]))

    def view(self, dev):
        m = dev.modules[Module.Led]
        return {"on": b(m.led) if m.mode == ("always" if m.led else "never") else 9}

    def feats(self, f):
        return {"on": b(f["led"].value)}


class Alarm(Base):
    mod = "alarm"
    models = [("smart", x, None) for x in ("H100(EU)_1.0_1.5.10", "KH100(EU)_1.0_1.5.12", "H100(AU)_1.0_1.5.23")]

    def prep(self):
        self.d.playing = None
        self.d.info["in_alarm"] = False

    def sounds(self):
        return self.d.data["get_support_alarm_type_list"]["alarm_type_list"]

    def limits(self):
        return {**super().limits(), "n": len(self.sounds())}

    def played(self):
        p = self.d.playing
        return {"rdur": p[0], "rvol": self.vol(p[1]), "rsound": self.sounds().index(p[2])} if p else {"rdur": NO, "rvol": NO, "rsound": NO}

    def vol(self, v):
        return VOL.index(v)

    def get(self):
        c = self.d.data["get_alarm_configure"]
        return {"sound": self.sounds().index(c["type"]), "volume": VOL.index(c["volume"]), "duration": c["duration"], "ring": b(self.d.info["in_alarm"]), **self.played()}

    def set(self, s):
        self.d.data["get_alarm_configure"].update(type=self.sounds()[s["sound"]], volume=VOL[s["volume"]], duration=s["duration"])
        self.d.info["in_alarm"] = bool(s["ring"])
        self.d.playing = (s["rdur"], VOL[s["rvol"]], self.sounds()[s["rsound"]]) if s["ring"] else None

    def cmd(self, dev, c, via, R):
        m, k, v, f = dev.modules[Module.Alarm], c["k"], c["v"], dev.features
        sound = (lambda x: None if x == NO else wrong(x, self.sounds()))
        vol = (lambda x: None if x == NO else x if 0 <= x <= 3 and R.random() < 0.5 else wrong(x, VOL) if R.random() < 0.5 or x == WRONG else x)
        if k == "sound":
            return f["alarm_sound"].set_value(sound(v)) if via else m.set_alarm_sound(sound(v))
        if k == "volume":
            if via:
                return f["alarm_volume_level"].set_value(v) if v != WRONG and R.random() < 0.5 else f["alarm_volume"].set_value(wrong(v, VOL))
            return m.set_alarm_volume(vol(v))
        if k == "duration":
            return f["alarm_duration"].set_value(v) if via else m.set_alarm_duration(v)
        if k == "stop":
            return f["stop_alarm"].set_value(None) if via else m.stop()
        if via and (v, c["w"], c["x"]) == (NO, NO, NO):
            return f["test_alarm"].set_value(None)
        return m.play(duration=opt(v), volume=vol(c["w"]), sound=sound(c["x"]))

    def view(self, dev):
        m = dev.modules[Module.Alarm]
        return {"sound": self.sounds().index(m.alarm_sound), "volume": m.alarm_volume, "duration": m.alarm_duration, "ring": b(m.active)}

    def feats(self, f):
        if f["alarm_volume"].value != VOL[f["alarm_volume_level"].value]:
            return {"volume": -1}
        return {"sound": self.sounds().index(f["alarm_sound"].value), "volume": f["alarm_volume_level"].value, "duration": f["alarm_duration"].value,
                "ring": b(f["alarm"].value)}


class Siren(Alarm):
    mod = "siren"
    models = [("smartcam", x, None) for x in ("H200(EU)_1.0_1.3.6", "H200(EU)_1.0_1.3.2", "H200(US)_1.0_1.3.6")]

    def prep(self):
        self.d.playing = None
        self.d.data["getSirenStatus"]["status"] = "off"

    def sounds(self):
        return self.d.data["getSirenTypeList"]["siren_type_list"]

    def vol(self, v):
        return int(v)

    def get(self):
        c = self.d.data["getSirenConfig"]
        return {"sound": self.sounds().index(c["siren_type"]), "volume": int(c["volume"]), "duration": c["duration"],
                "ring": b(self.d.data["getSirenStatus"]["status"] == "on"), **self.played()}

    def set(self, s):
        self.d.data["getSirenConfig"].update(siren_type=self.sounds()[s["sound"]], volume=str(s["volume"]), duration=s["duration"])
        self.d.data["getSirenStatus"]["status"] = "on" if s["ring"] else "off"
        self.d.playing = (s["rdur"], str(s["rvol"]), self.sounds()[s["rsound"]]) if s["ring"] else None

    def cmd(self, dev, c, via, R):
        m, k, v, f = dev.modules[Module.Alarm], c["k"], c["v"], dev.features
        sound = (lambda x: None if x == NO else self.sounds()[x] if 0 <= x < len(self.sounds()) else R.choice(BAD[1:]))
        if k == "sound":
            return f["alarm_sound"].set_value(sound(v)) if via else m.set_alarm_sound(sound(v))
        if k == "volume":
            return f["alarm_volume"].set_value(v) if via else m.set_alarm_volume(v)
        if k == "duration":
            return f["alarm_duration"].set_value(v) if via else m.set_alarm_duration(v)
        if k == "stop":
            return f["stop_alarm"].set_value(None) if via else m.stop()
        if via and (v, c["w"], c["x"]) == (NO, NO, NO):
            return f["test_alarm"].set_value(None)
        return m.play(duration=opt(v), volume=opt(c["w"]), sound=sound(c["x"]))

    def feats(self, f):
        return {"sound": self.sounds().index(f["alarm_sound"].value), "volume": f["alarm_volume"].value, "duration": f["alarm_duration"].value,
                "ring": b(f["alarm"].value)}


class AutoOff(Base):
    mod = "autooff"
    models = [("smart", "EP25(US)_2.6_1.0.2", None), ("smart", "KS205(US)_1.0_1.1.0", None), ("smart", "P304M(UK)_1.0_1.0.3", "SCRUBBED_CHILD_DEVICE_ID_2")]

    def get(self):
        c = self.d.data["get_auto_off_config"]
        return {"enabled": b(c["enable"]), "delay": c["delay_min"]}

    def set(self, s):
        self.d.data["get_auto_off_config"].update(enable=bool(s["enabled"]), delay_min=s["delay"])

    def cmd(self, dev, c, via, R):
        m, f = dev.modules[Module.AutoOff], dev.features
        if c["k"] == "enabled":
            return f["auto_off_enabled"].set_value(bool(c["v"])) if via else m.set_enabled(bool(c["v"]))
        return f["auto_off_minutes"].set_value(c["v"]) if via else m.set_delay(c["v"])

    def view(self, dev):
        m = dev.modules[Module.AutoOff]
        return {"enabled": b(m.enabled), "delay": m.delay}

    def feats(self, f):
        return {"enabled": b(f["auto_off_enabled"].value), "delay": f["auto_off_minutes"].value}


class Trans(Base):
    mod = "trans"
    models = [("smart", "L530E(EU)_3.0_1.1.6", None), ("smart", "KS225(US)_1.0_1.1.1", None), ("smart", "HS220(US)_3.26_1.0.1", None),
              ("smart", "KS240(US)_1.0_1.0.7", "SCRUBBED_CHILD_DEVICE_ID_1")]

    def prep(self):
        if "gradually_on_mode" in self.d.info:
            self.top, self.top2 = self.d.info.get("max_fade_on_time", 60), self.d.info.get("max_fade_off_time", 60)
        else:
            g = self.d.data["get_on_off_gradually_info"]
            g["off_state"]["max_duration"] = 40
            self.top, self.top2 = g["on_state"].get("max_duration", 60), 40

    def get(self):
        i = self.d.info
        if "gradually_on_mode" in i:
            return {"on": i["gradually_on_mode"], "off": i["gradually_off_mode"], "onsec": i["fade_on_time"], "offsec": i["fade_off_time"]}
        g = self.d.data["get_on_off_gradually_info"]
        return {"on": b(g["on_state"]["enable"]), "off": b(g["off_state"]["enable"]), "onsec": g["on_state"]["duration"], "offsec": g["off_state"]["duration"]}

    def set(self, s):
        i = self.d.info
        if "gradually_on_mode" in i:
            i.update(gradually_on_mode=s["on"], gradually_off_mode=s["off"], fade_on_time=s["onsec"], fade_off_time=s["offsec"])
            return
        g = self.d.data["get_on_off_gradually_info"]
        g["on_state"].update(enable=bool(s["on"]), duration=s["onsec"])
        g["off_state"].update(enable=bool(s["off"]), duration=s["offsec"])

    def cmd(self, dev, c, via, R):
        m, f, k, v = dev.modules[Module.LightTransition], dev.features, c["k"], c["v"]
        if k == "enabled":
            return m.set_enabled(bool(v))
        if via or v < 0:
            return f["smooth_transition_on" if k == "onsec" else "smooth_transition_off"].set_value(v)
        return m.set_turn_on_transition(v) if k == "onsec" else m.set_turn_off_transition(v)

    def view(self, dev):
        m = dev.modules[Module.LightTransition]
        return {"on": m.turn_on_transition, "off": m.turn_off_transition, "enabled": b(m.enabled)}

    def feats(self, f):
        return {"on": f["smooth_transition_on"].value, "off": f["smooth_transition_off"].value}


class Trv(Base):
    mod, models = "trv", KE

    def limits(self):
        return {**super().limits(), "lo": self.d.info["min_control_temp"], "hi": self.d.info["max_control_temp"]}

    def get(self):
        i = self.d.info
        return {"target": int(i["target_temp"]) if i["target_temp"] == int(i["target_temp"]) else 99, "offset": i["temp_offset"], "frost": b(i["frost_protection_on"])}

    def set(self, s):
        self.d.info.update(target_temp=s["target"], temp_offset=s["offset"], frost_protection_on=bool(s["frost"]))

    def cmd(self, dev, c, via, R):
        m, f, k, v = dev.modules[Module.TemperatureControl], dev.features, c["k"], c["v"]
        if k == "target":
            v = R.choice([v, float(v)])
            return f["target_temperature"].set_value(v) if via else m.set_target_temperature(v)
        if k == "offset":
            return f["temperature_offset"].set_value(v) if via else m.set_temperature_offset(v)
        if k == "state":
            return f["state"].set_value(bool(v)) if via else m.set_state(bool(v))
        return dev.modules[Module.FrostProtection].set_enabled(bool(v))

    def view(self, dev):
        m = dev.modules[Module.TemperatureControl]
        return {"target": int(m.target_temperature), "offset": m.temperature_offset, "state": b(m.state)}

    def feats(self, f):
        return {"target": int(f["target_temperature"].value), "offset": f["temperature_offset"].value, "state": b(f["state"].value)}


class Fan(Base):
    mod, models = "fan", SleepMode.models

    def get(self):
        i = self.d.info
        return {"on": b(i["device_on"]), "level": i["fan_speed_level"], "sleep": b(i["fan_sleep_mode_on"])}

    def set(self, s):
        self.d.info.update(device_on=bool(s["on"]), fan_speed_level=s["level"], fan_sleep_mode_on=bool(s["sleep"]))

    def cmd(self, dev, c, via, R):
        m, f = dev.modules[Module.Fan], dev.features
        if c["k"] == "level":
            return f["fan_speed_level"].set_value(c["v"]) if via else m.set_fan_speed_level(c["v"])
        return f["fan_sleep_mode"].set_value(bool(c["v"])) if via else m.set_sleep_mode(bool(c["v"]))

    def view(self, dev):
        m = dev.modules[Module.Fan]
        return {"level": m.fan_speed_level, "sleep": b(m.sleep_mode)}

    def feats(self, f):
        return {"level": f["fan_speed_level"].value, "sleep": b(f["fan_sleep_mode"].value)}


class Led(Base):
    mod = "led"
    models = [("smart", x, None) for x in ("EP25(US)_2.6_1.0.2", "KS225(US)_1.0_1.1.1", "P100(US)_1.0.0_1.4.0", "HS220(US)_3.26_1.0.1")]

    def get(self):
        return {"rule": RULES.index(self.d.data["get_led_info"]["led_rule"])}

    def set(self, s):
        self.d.data["get_led_info"]["led_rule"] = RULES[s["rule"]]

    def cmd(self, dev, c, via, R):
        return dev.features["led"].set_value(bool(c["v"])) if via else dev.modules[Module.Led].set_led(bool(c["v"]))

    def view(self, dev):
        m = dev.modules[Module.Led]
        return {"rule": RULES.index(m.mode), "led": b(m.led)}

    def feats(self, f):
        return {"led": b(f["led"].value)}


class Vacuum(Base):
    mod, models = "vacuum", [("smart", "RV20 Max Plus(EU)_1.0_1.0.7", None)]

    def get(self):
        d = self.d.data
        a, u = d["getCleanAttr"], d["getDustCollectionInfo"]
        return {"suction": a["suction"], "water": a["cistern"], "count": a["clean_number"], "carpet": b(d["getCarpetClean"]["carpet_clean_prefer"] == "boost"),
                "volume": d["getVolume"]["volume"], "auto": b(u["auto_dust_collection"]), "dust": u["dust_collection_mode"], "status": d["getVacStatus"]["status"]}

    def set(self, s):
        d = self.d.data
        d["getCleanAttr"].update(suction=s["suction"], cistern=s["water"], clean_number=s["count"])
        d["getCarpetClean"]["carpet_clean_prefer"] = "boost" if s["carpet"] else "normal"
        d["getVolume"]["volume"] = s["volume"]
        d["getDustCollectionInfo"].update(auto_dust_collection=bool(s["auto"]), dust_collection_mode=s["dust"])
        d["getVacStatus"]["status"] = s["status"]

    def cmd(self, dev, c, via, R):
        cl, mop, du, sp = (dev.modules[x] for x in (Module.Clean, Module.Mop, Module.Dustbin, Module.Speaker))
        f, k, v = dev.features, c["k"], c["v"]
        if k == "suction":
            v = wrong(v, SUCTION)
            return f["vacuum_fan_speed"].set_value(v) if via else cl.set_fan_speed_preset(v)
        if k == "water":
            v = wrong(v, WATER)
            return f["mop_waterlevel"].set_value(v) if via else mop.set_waterlevel(v)
        if k == "count":
            return f["clean_count"].set_value(v) if via or not 1 <= v <= 3 else cl.set_clean_count(v)
        if k == "carpet":
            return f["carpet_boost"].set_value(bool(v)) if via else cl.set_carpet_boost(bool(v))
        if k == "volume":
            return f["volume"].set_value(v) if via else sp.set_volume(v)
        if k == "auto":
            return f["dustbin_autocollection_enabled"].set_value(bool(v)) if via else du.set_auto_collection(bool(v))
        if k == "dustmode":
            v = wrong(v, DUST)
            return f["dustbin_mode"].set_value(v) if via else du.set_mode(v)
        if via:
            return f[{"start": "vacuum_start", "pause": "vacuum_pause", "home": "vacuum_return_home"}[k]].set_value(None)
        return {"start": cl.start, "pause": cl.pause, "home": cl.return_home}[k]()

    def view(self, dev):
        cl, mop, du, sp = (dev.modules[x] for x in (Module.Clean, Module.Mop, Module.Dustbin, Module.Speaker))
        rev = {y: x for x, y in SUCTION.items()}
        return {"suction": rev[cl.fan_speed_preset], "water": WATER.index(mop.waterlevel), "count": cl.clean_count, "carpet": b(cl.carpet_boost),
                "volume": sp.volume, "auto": b(du.auto_collection), "dust": {y: x for x, y in DUST.items()}[du.mode], "status": int(cl.status)}

    def feats(self, f):
        rev = {y: x for x, y in SUCTION.items()}
        return {"suction": rev[f["vacuum_fan_speed"].value], "water": WATER.index(f["mop_waterlevel"].value), "count": f["clean_count"].value,
                "carpet": b(f["carpet_boost"].value), "volume": f["volume"].value, "auto": b(f["dustbin_autocollection_enabled"].value),
                "dust": {y: x for x, y in DUST.items()}[f["dustbin_mode"].value], "status": int(f["vacuum_status"].value)}


class Power(Base):
    mod = "power"
    models = [("smart", "EP25(US)_2.6_1.0.2", None), ("smart", "P110(EU)_1.0_1.2.3", None), ("smart", "P304M(UK)_1.0_1.0.3", "SCRUBBED_CHILD_DEVICE_ID_3")]

    def limits(self):
        return {**super().limits(), "top": self.d.data["get_max_power"]["max_power"]}

    def get(self):
        c = self.d.data["get_protection_power"]
        return {"enabled": b(c["enabled"]), "limit": c.get("protection_power", 0)}

    def set(self, s):
        c = self.d.data["get_protection_power"]
        c.update(enabled=bool(s["enabled"]), protection_power=s["limit"])
        if s["limit"] == 0 and s.get("bare"):
            del c["protection_power"]

    def cmd(self, dev, c, via, R):
        m, f, k, v = dev.modules[Module.PowerProtection], dev.features, c["k"], c["v"]
        if k == "both":
            return f["power_protection_threshold"].set_value(v)
        if k == "limit":
            return m.set_protection_threshold(v)
        return m.set_enabled(bool(v), **({} if c["w"] == NO else {"threshold": c["w"]}))

    def view(self, dev):
        m = dev.modules[Module.PowerProtection]
        return {"enabled": b(m.enabled), "limit": m.protection_threshold, "zero": m._threshold_or_zero}

    def feats(self, f):
        return {"zero": f["power_protection_threshold"].value}


class Dimmer(Base):
    mod = "dimmer"
    models = [("iot", x, None) for x in ("HS220(US)_1.0_1.5.7", "KS230(US)_2.0_1.0.11", "ES20M(US)_1.0_1.0.8", "KP405(US)_1.0_1.0.6")]
    K = {"low": "minThreshold", "fadeon": "fadeOnTime", "fadeoff": "fadeOffTime", "gentleon": "gentleOnTime", "gentleoff": "gentleOffTime", "ramp": "rampRate"}
    F = {"low": "dimmer_threshold_min", "fadeon": "dimmer_fade_on_time", "fadeoff": "dimmer_fade_off_time", "gentleon": "dimmer_gentle_on_time",
         "gentleoff": "dimmer_gentle_off_time", "ramp": "dimmer_ramp_rate"}

    def at(self):
        return self.d.data["smartlife.iot.dimmer"]["get_dimmer_parameters"]

    def get(self):
        return {k: self.at()[x] for k, x in self.K.items()}

    def set(self, s):
        self.at().update({x: s[k] for k, x in self.K.items()})

    def cmd(self, dev, c, via, R):
        from datetime import timedelta
        m, k, v = dev.modules[Module.IotDimmer], c["k"], c["v"]
        if via:
            return dev.features[self.F[k]].set_value(v)
        if k not in ("low", "ramp") and R.random() < 0.5:
            v = timedelta(milliseconds=v)
        return {"low": m.set_threshold_min, "fadeon": m.set_fade_on_time, "fadeoff": m.set_fade_off_time, "gentleon": m.set_gentle_on_time,
                "gentleoff": m.set_gentle_off_time, "ramp": m.set_ramp_rate}[k](v)

    def view(self, dev):
        m = dev.modules[Module.IotDimmer]
        ms = (lambda t: round(t.total_seconds() * 1000))
        return {"low": m.threshold_min, "fadeon": ms(m.fade_on_time), "fadeoff": ms(m.fade_off_time), "gentleon": ms(m.gentle_on_time),
                "gentleoff": ms(m.gentle_off_time), "ramp": m.ramp_rate}

    def feats(self, f):
        return {k: f[x].value for k, x in self.F.items()}


class Pir(Base):
    mod = "pir"
    models = Las.models

    def at(self):
        return self.d.data["smartlife.iot.PIR"]["get_config"]

    def get(self):
        c = self.at()
        return {"enabled": c["enable"], "range": c["trigger_index"], "cold": c["cold_time"], **dict(zip(("far", "mid", "near", "custom"), c["array"]))}

    def set(self, s):
        self.at().update(enable=s["enabled"], trigger_index=s["range"], cold_time=s["cold"], array=[s[x] for x in ("far", "mid", "near", "custom")])

    def cmd(self, dev, c, via, R):
        m, f, k, v = dev.modules[Module.IotMotion], dev.features, c["k"], c["v"]
        if k == "enabled":
            return f["pir_enabled"].set_value(bool(v)) if via else m.set_enabled(bool(v))
        if k == "range":
            from kasa.iot.modules.motion import Range
            if via or v == WRONG:
                return f["pir_range"].set_value(wrong(v, RANGES))
            return m.set_range(Range[RANGES[v]])
        if k == "threshold":
            return f["pir_threshold"].set_value(v) if via or not 0 <= v <= 100 else m.set_threshold(v)
        return m.set_inactivity_timeout(v)

    def view(self, dev):
        m = dev.modules[Module.IotMotion]
        return {"enabled": b(m.enabled), "range": RANGES.index(m.range.name), "cold": m.inactivity_timeout, "threshold": m.threshold}

    def feats(self, f):
        return {"enabled": b(f["pir_enabled"].value), "threshold": f["pir_threshold"].value}


ALL = {c.mod: c for c in [ChildLock, ChildProt, Frost, Unit, Trans1, AutoUpd, SleepMode, *CamMods, Lens, CamLed, Las, IotLed, Alarm, Siren, AutoOff, Trans, Trv, Fan,
                          Led, Vacuum, Power, Dimmer, Pir]}


def load(sub, name, child):
    """-> (root stand-in, path to the node of interest)"""
    if sub == "child":
        hub = fakedev.fixture("H100(EU)_1.0_1.5.10", "smart")
        kid = fakedev.fixture(name, "smart/child")
        i = kid["get_device_info"]
        cid = i["device_id"] = "KID"
        hub["get_child_device_list"] = {"child_device_list": [copy.deepcopy(i)], "start_index": 0, "sum": 1}
        hub["get_child_device_component_list"] = {"child_component_list": [{"device_id": cid, "component_list": kid["component_nego"]["component_list"]}],
                                                 "start_index": 0, "sum": 1}
        hub["child_devices"] = {cid: kid}
        return fakedev.Smart(hub), cid
    data = fakedev.fixture(name, sub)
    if sub == "iot":
        return fakedev.Iot(data), None
    if sub == "smartcam":
        return fakedev.Cam(data), None
    return fakedev.Smart(data), child


def node(raw, cid):
    return raw.kids[cid] if cid else raw


def dump(raw):
    return [raw.data, {k: dump(x) for k, x in getattr(raw, "kids", {}).items()}]


def scale(c, lim):
    """From the limits of the specification's model (n 19, top 60, top2 40) to those of the device."""
    c = dict(c)
    m, k = lim["mod"], c["k"]
    f = {60: lim["top"], 61: lim["top"] + 1}
    if m == "power":
        c["w"] = f.get(c["w"], c["w"])
    if m == "power" and k != "enabled" or k == "onsec":
        c["v"] = f.get(c["v"], c["v"])
    elif k == "offsec":
        c["v"] = {40: lim["top2"], 41: lim["top2"] + 1}.get(c["v"], c["v"])
    elif k == "sound" and c["v"] == 18:
        c["v"] = lim["n"] - 1
    elif k == "target":
        c["v"] = {4: lim["lo"] - 1, 5: lim["lo"], 30: lim["hi"], 31: lim["hi"] + 1}.get(c["v"], c["v"])
    return c


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    A = ALL[script["mod"]]
    sub, name, child = A.models[script["model"] % len(A.models)]
    raw, cid = load(sub, name, child)
    box = A(node(raw, cid))
    box.prep()
    bare = script.get("bare")

    def norm(s):
        """Scale the limits of the specification's model to those of the device."""
        lim = box.limits()
        s = dict(s)
        if A.mod == "trv":
            s["target"] = min(max(s["target"], lim["lo"]), lim["hi"])
        if bare:
            s["bare"] = True
        return s
    box.set(norm(script["s"]))
    start, lim = box.get(), box.limits()
    neutral = dict(start)
    faults = {}

    def rest():
        r2 = copy.deepcopy(raw)
        A(node(r2, cid)).set(neutral)
        return json.dumps(dump(r2), sort_keys=True, default=str)

    def log(e, **kw):
        ev.append({"e": e, **kw})

    def plan(k, req):
        return faults.pop("next", None)

    async def main():
        p = raw.wire(plan)
        cls = {"iot": lambda: iot_class(raw.data), "smartcam": lambda: SmartCamDevice}.get(sub, lambda: SmartDevice)()
        top = cls("127.0.0.1", protocol=p)
        box.noise(R)
        await top.update()
        dev = next(k for k in top.children if k.device_id == cid) if cid else top

        def views():
            log("view", v=box.view(dev))
            log("feat", v=box.feats(dev.features))
        views()
        for st in script["steps"]:
            if st["k"] == "other":
                box.set(norm({**box.get(), **st["s"]}))
                log("other", s=box.get())
                await asyncio.sleep(90000)
            else:
                c = scale(st["cmd"], lim)
                before = rest()
                root_log = raw.log
                root_log.clear()
                nd = node(raw, cid)
                try:
                    co = box.cmd(dev, c, st["via"], R)
                    if st.get("refuse"):
                        nd.refuse = _All(-1003)
                    elif st.get("fault"):
                        faults["next"] = st["fault"]
                    await co
                    ok = True
                except (KasaException, ValueError, TypeError):
                    ok = False
                nd.refuse = {}
                faults.clear()
                log("cmd", cmd=c, ok=ok, sent=len(root_log), refused=bool(st.get("refuse")), rest=rest() == before)
                log("held", s=box.get())
                if not ok and st.get("noupd"):
                    continue        # what was last reported is still what the device has
            box.noise(R)
            await top.update()
            views()

    try:
        vt.run(main, vtime=10 ** 9, iterations=400000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-600:])
    return {"cfg": lim, "s": start, "ev": ev}


class _All(dict):
    """Refuses everything that is not a plain read."""

    def __init__(self, code):
        self.code = code

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.code
