"""Driver: SmartDevice / SmartChildDevice updates over a scripted query interface (C10)."""
from __future__ import annotations

import json
import random

import vt
import fakedev

from kasa import Credentials, DeviceConfig, Module
from kasa.exceptions import (AuthenticationError, DeviceError, KasaException, SmartErrorCode, TimeoutError, _ConnectionError)
from kasa.protocols import SmartProtocol
from kasa.smart import SmartChildDevice, SmartDevice
from kasa.smartcam import SmartCamDevice
from kasa.transports import BaseTransport

H, D = 3600_000, 86400_000


def mod(n, ms, q1=None, int=0, kind="std", first=False, opt=()):
    return {"n": n, "ms": list(ms), "q1": q1 or ms[0], "int": int, "kind": kind, "first": first, "opt": list(opt)}


DEV2 = mod("DeviceModule", ["get_device_info", "get_device_usage"], kind="device", first=True)
DEV1 = mod("DeviceModule", ["get_device_info"], kind="device", first=True)
CLOUD = mod("Cloud", ["get_connect_cloud_state"], int=60_000, first=True)
FW2 = mod("Firmware", ["get_auto_update_info"], int=D)
TIME = mod("Time", ["get_device_time"])
LED = mod("Led", ["get_led_info"], int=H)
AUTO = mod("AutoOff", ["get_auto_off_config"])
EN2 = mod("Energy", ["get_energy_usage", "get_current_power", "get_emeter_data", "get_emeter_vgain_igain"], opt=["get_energy_usage"])
EN1 = mod("Energy", ["get_energy_usage"])
LOCK = mod("ChildLock", ["getChildLockInfo"])
PRESET = mod("LightPreset", ["get_preset_rules"], int=60_000)
TRANS = mod("LightTransition", ["get_on_off_gradually_info"], int=60_000)
DEVC = mod("devicemodule", ["getDeviceInfo", "getConnectionType"], kind="device", first=True)
CTIME = mod("Time", ["getTimezone", "getClockStatus"])
CLED = mod("Led", ["getLedStatus"])
MOTION = mod("MotionDetection", ["getDetectionConfig"])
PERSON = mod("PersonDetection", ["getPersonDetectionConfig"])
FROST = mod("FrostProtection", ["get_frost_protection"])


def day(m):
    return {**m, "int": D}


PROFILES = {
    "plug": ({"device": 2, "cloud_connect": 1, "firmware": 2, "time": 1, "led": 1, "auto_off": 2, "energy_monitoring": 2, "button_and_led": 1},
             [DEV2, CLOUD, FW2, TIME, LED, AUTO, EN2, LOCK], "SMART.TAPOPLUG", None),
    "plug1": ({"device": 1, "cloud_connect": 1, "firmware": 1, "time": 1, "led": 1, "energy_monitoring": 1},
              [DEV1, CLOUD, TIME, LED, EN1], "SMART.TAPOPLUG", None),
    "dimmer": ({"device": 2, "cloud_connect": 1, "time": 1, "brightness": 1, "preset": 1, "on_off_gradually": 2},
               [DEV2, CLOUD, TIME, PRESET, TRANS], "SMART.KASASWITCH", None),
    "bare": ({"device": 1}, [DEV1], "SMART.TAPOPLUG", None),
    "cam": ({"led": 1, "detection": 3, "personDetection": 2}, [DEVC, CTIME, CLED, MOTION, PERSON], "SMART.IPCAMERA", None),
    "hubchild": ({"device": 2, "firmware": 2, "cloud_connect": 1, "time": 1, "trigger_log": 1, "button_and_led": 1},
                 [day(FW2), day(mod("TriggerLogs", ["get_trigger_logs"])), day(LOCK), day(CLOUD)], "SMART.TAPOSENSOR", "SMART.TAPOHUB"),
    "socket": ({"device": 2, "firmware": 2, "cloud_connect": 1, "time": 1, "led": 1, "auto_off": 2, "energy_monitoring": 2,
                "button_and_led": 1}, [LED, AUTO, EN2, LOCK], "SMART.TAPOPLUG", "SMART.TAPOPLUG"),
    "childdimmer": ({"brightness": 1, "preset": 1, "on_off_gradually": 2}, [PRESET, TRANS], "SMART.KASASWITCH", "SMART.KASASWITCH"),
}
for _p in ("hubchild",):
    for _m in PROFILES[_p][1]:
        _m["first"] = False

MIN = 60_000
# modules of a SMART device: component, lowest version, name, methods, polling interval, whether it needs a key in the device's information
RULES = [("firmware", 2, "Firmware", ["get_auto_update_info"], D, None), ("time", 1, "Time", ["get_device_time"], 0, "!hubchild"),
         ("led", 1, "Led", ["get_led_info"], H, None), ("auto_off", 1, "AutoOff", ["get_auto_off_config"], 0, "auto_off_status"),
         ("button_and_led", 1, "ChildLock", ["getChildLockInfo"], 0, None), ("preset", 1, "LightPreset", ["get_preset_rules"], MIN, "brightness"),
         ("on_off_gradually", 1, "LightTransition", ["get_on_off_gradually_info"], MIN, "brightness"),
         ("alarm", 1, "Alarm", ["get_alarm_configure", "get_support_alarm_type_list"], 0, None),
         ("clean", 1, "Clean", ["getVacStatus", "getCleanInfo", "getCarpetClean", "getAreaUnit", "getBatteryInfo", "getCleanStatus", "getCleanAttr"], 0, None),
         ("clean_percent", 1, "CleanRecords", ["getCleanRecords"], 0, None), ("consumables", 1, "Consumables", ["getConsumablesInfo"], 0, None),
         ("dust_bucket", 1, "Dustbin", ["getAutoDustCollection", "getDustCollectionInfo"], 0, None),
         ("mop", 1, "Mop", ["getMopState", "getCleanAttr"], 0, None), ("speaker", 1, "Speaker", ["getVolume"], 0, None),
         ("homekit", 1, "HomeKit", ["get_homekit_info"], 0, None), ("matter", 1, "Matter", ["get_matter_setup_info"], 0, None),
         ("light_effect", 1, "LightEffect", ["get_dynamic_light_effect_rules"], D, None), ("trigger_log", 1, "TriggerLogs", ["get_trigger_logs"], H, None),
         ("power_protection", 1, "PowerProtection", ["get_protection_power", "get_max_power"], 0, "power_protection_status")]
CAMRULES = [("siren", "SmartCamAlarm", ["getSirenStatus", "getSirenConfig", "getSirenTypeList"]), ("babyCryDetection", "BabyCryDetection", ["getBCDConfig"]),
            ("led", "Led", ["getLedStatus"]), ("lensMask", "LensMask", ["getLensMaskConfig"]), ("matter", "Matter", ["getMatterSetupInfo"]),
            ("detection", "MotionDetection", ["getDetectionConfig"]), ("personDetection", "PersonDetection", ["getPersonDetectionConfig"]),
            ("petDetection", "PetDetection", ["getPetDetectionConfig"]), ("tamperDetection", "TamperDetection", ["getTamperDetectionConfig"])]
_REC = {}


def recorded(profile):
    """A profile made of the recording of a real device: components, module table, type, parent's type, data."""
    if profile in _REC:
        return _REC[profile]
    _, sub, name = profile.split(":")
    data = fakedev.fixture(name, sub)
    if sub == "smartcam":
        comps = {c["name"]: c["version"] for c in data["getAppComponentList"]["app_component"]["app_component_list"]}
        table = [DEVC, CTIME] + [mod(n, ms) for c, n, ms in CAMRULES if c in comps]
        _REC[profile] = comps, table, "", None, data
        return _REC[profile]
    hub = sub == "smart/child"
    comps = {c["id"]: c["ver_code"] for c in data["component_nego"]["component_list"]}
    info = data["get_device_info"]
    table = []
    if not hub:
        table.append(DEV2 if comps["device"] >= 2 else DEV1)
    if "cloud_connect" in comps:
        table.append({**CLOUD, "first": not hub})
    for c, v, n, ms, every, key in RULES:
        if comps.get(c, 0) < v or (key == "!hubchild" and hub) or (key and key[0] != "!" and key not in info):
            continue
        if n == "LightPreset" and "preset_state" in info or n == "LightTransition" and "fade_on_time" in info and "gradually_on_mode" in info:
            continue
        table.append(mod(n, ms, int=every))
    if "energy_monitoring" in comps and "device_on" in info:
        table.append(EN2 if comps["energy_monitoring"] > 1 else EN1)
    if hub:
        table = [day(m) for m in table]
    _REC[profile] = comps, table, info["type"], "SMART.TAPOHUB" if hub else None, data
    return _REC[profile]


def profile_of(p):
    return recorded(p) if p.startswith("rec:") else (*PROFILES[p], None)


TOUCH = {"LightEffect": lambda m: m.set_effect(m.LIGHT_EFFECTS_OFF), "Led": lambda m: m.set_led(True), "Firmware": lambda m: m.set_auto_update_enabled(True),
         "LightTransition": lambda m: m.set_enabled(True)}


CFG = DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"))


class NullTransport(BaseTransport):
    default_port = 80
    credentials_hash = None

    async def send(self, request):
        raise AssertionError

    async def reset(self):
        pass

    async def close(self):
        pass


class Proto(SmartProtocol):
    def __init__(self, script, log, comps, typ, plan, data=None):
        super().__init__(transport=NullTransport(config=CFG))
        self.log, self.plan, self.comps, self.typ = log, plan, comps, typ
        self.R = random.Random(json.dumps(script, sort_keys=True))
        self.tok = 0
        self.quiet = False
        self.data = data

    def value(self, m):
        if self.data is not None:
            v = self.data.get(m)
            if not isinstance(v, dict) or v.get("error_code"):
                return None, -1      # the device does not know this method
            self.tok += 1
            v = {**json.loads(json.dumps(v)), "tok": self.tok, "mm": m}
            for sub in ("device_info",):
                if sub in v:
                    v[sub]["basic_info"]["tok"] = self.tok
            for x in v.values():
                if isinstance(x, dict):
                    x.update(tok=self.tok, mm=m)
            return v, self.tok
        self.tok += 1
        v = {"tok": self.tok, "mm": m}
        if m == "getAppComponentList":
            v["app_component"] = {"app_component_list": [{"name": k, "version": x} for k, x in self.comps.items()]}
        elif m == "getDeviceInfo":
            v["device_info"] = {"basic_info": {"tok": self.tok, "device_type": "SMART.IPCAMERA", "device_model": "C2", "sw_version": "1.0 b",
                                               "hw_version": "1", "device_alias": "a", "dev_id": "CAM", "mac": "00", "hw_id": "h", "oem_id": "o"}}
        elif m == "getConnectionType":
            v.update(self.R.choice([{"rssi": "2", "rssiValue": -50}, {"link_type": "ethernet"}]))
        elif m == "getTimezone":
            v["system"] = {"basic": {"zone_id": self.R.choice(["Europe/Berlin", "Nowhere/X"]), "timezone": "UTC+01:00"}}
        elif m == "getClockStatus":
            v["system"] = {"clock_status": {"seconds_from_1970": 1700000000 + self.tok, "local_time": ""}}
        elif m in ("getLedStatus", "getDetectionConfig", "getPersonDetectionConfig"):
            k, sec = {"getLedStatus": ("led", "config"), "getDetectionConfig": ("motion_detection", "motion_det"),
                      "getPersonDetectionConfig": ("people_detection", "detection")}[m]
            v[k] = {"tok": self.tok, "mm": m, sec: {"enabled": "on"}}
        elif m == "component_nego":
            v["component_list"] = [{"id": k, "ver_code": x} for k, x in self.comps.items()]
        elif m == "get_device_info":
            v.update(device_id="DEV", type=self.typ, model="P1", device_on=True, on_time=10, auto_off_status="on", brightness=50,
                     nickname="", ssid="", rssi=-50, signal_level=2, hw_ver="1", fw_ver="1.0", mac="00-00-00-00-00-00", region="Europe/Berlin")
        elif m == "get_connect_cloud_state":
            v["status"] = 0
        elif m == "get_device_time":
            v.update(timestamp=1700000000 + self.tok, time_diff=60, region=self.R.choice(["Europe/Berlin", "", "Nowhere/X"]))
        elif m == "get_auto_update_info":
            v.update(enable=True, random_range=120, time=180)
        elif m == "get_led_info":
            v.update(led_rule="always", start_time=0, end_time=1, night_mode_type="x", sunrise_offset=0, sunset_offset=0)
        elif m == "get_auto_off_config":
            v.update(enable=True, delay_min=self.tok)
        elif m == "get_energy_usage":
            v.update(current_power=self.tok, today_energy=1, month_energy=2)
        elif m == "get_current_power":
            v.update(current_power=self.tok)
        elif m == "get_emeter_data":
            v.update(voltage_mv=230000 + self.tok, current_ma=5, power_mw=7, energy_wh=1)
        elif m == "get_emeter_vgain_igain":
            v.update(igain=1, vgain=2)
        elif m == "getChildLockInfo":
            v.update(child_lock_status=False)
        elif m == "get_preset_rules":
            v.update(brightness=[10, 20, 30])
        elif m == "get_on_off_gradually_info":
            v.update(on_state={"enable": True, "duration": 3, "max_duration": 60}, off_state={"enable": True, "duration": 3, "max_duration": 60})
        elif m == "get_trigger_logs":
            v.update(logs=[], sum=0, start_id=0)
        return v, self.tok

    def failure(self):
        return self.R.choice([TimeoutError, _ConnectionError, KasaException, DeviceError, AuthenticationError])("x")

    async def query(self, request, retry_count=3):
        if isinstance(request, str):
            request = {request: None}
        ms = list(request)
        if any(m.startswith(("set", "edit")) for m in ms):
            return {m: None for m in ms}
        if not ms:
            return {}
        p = {"k": "ans", "errs": []} if self.quiet or not self.plan else self.plan.pop(0)
        k = p["k"]
        if k == "rand":
            k = "fail" if self.R.random() < p["f"] else "ans"
            p = {"k": k, "errs": [m for m in ms if self.R.random() < p["e"]]}
        if k == "single":       # spec-generated: the fallback queries have their own outcomes
            k, p = ("fail", p) if p["bad"] else ("ans", {"errs": []})
        errs = set(p.get("errs", ())) | {m for m in ms if self.data is not None and self.value(m)[0] is None}
        if k == "ans" and len(ms) == 1 and errs & set(ms):
            k = "fail"          # a single request with an error code raises
        if k == "fail":
            self.log("q", ms=ms, fail=True, res=[])
            raise self.failure()
        res, log = {}, []
        for m in ms:
            if m in errs:
                res[m] = self.R.choice([SmartErrorCode.UNKNOWN_METHOD_ERROR, SmartErrorCode.PARAMS_ERROR,
                                        SmartErrorCode.SESSION_EXPIRED, SmartErrorCode.INTERNAL_UNKNOWN_ERROR])
                log.append({"m": m, "tok": -1})
            else:
                res[m], t = self.value(m)
                log.append({"m": m, "tok": t})
        self.log("q", ms=ms, fail=False, res=log)
        return res


FEATS = {}
OPTFEATS = {"rssi", "signal_level", "voltage", "current"}   # offered depending on the first answer


def features(profile, dev):
    """Features of each module of an undisturbed device of this profile; recorded by the first quiet run."""
    return FEATS.get(profile, {})


def observe(dev, table, profile):
    out = []
    want = VALUES.get(profile)
    for t in table:
        if t["n"] not in dev.modules:
            out.append({"k": "missing", "feats": False, "toks": [], "disabled": False, "broken": 2})
            continue
        m = dev.modules[t["n"]]
        o = {"disabled": m.disabled, "broken": 2, "toks": []}
        try:
            d = m.data
        except KasaException:
            o["k"] = "err"
        except Exception as ex:  # noqa: BLE001
            o["k"] = f"foreign {ex!r}"
        else:
            o["k"] = "ok"
            o["toks"] = ([{"m": d["mm"], "tok": d["tok"]}] if "tok" in d else
                         [{"m": k, "tok": v["tok"] if v["mm"] == k else -5} for k, v in d.items()])
        o["feats"] = all(f in dev.features and f in m._module_features for f in features(profile, dev).get(t["n"], ()))
        if want and o["k"] == "ok" and len(o["toks"]) == len(t["ms"]) and not all(same(m, i, x) for i, x in want[t["n"]].items()):
            o["k"] = "values differ: " + ",".join(i for i, x in want[t["n"]].items() if not same(m, i, x))
        if t["n"] == "Energy" and not profile.startswith("rec:"):
            try:
                m.voltage  # noqa: B018
                o["broken"] = 0
            except KasaException:
                o["broken"] = 1
        out.append(o)
    return out


VALUES = {}      # what the features of an undisturbed device of a recorded profile say
CROSS = {"last_clean_timestamp", "auto_off_at", "device_time"}


def read(m, i):
    try:
        f = m._module_features[i]
        return (f.value, f.choices) if f.type is not f.Type.Number else (f.value, f.range)
    except Exception as ex:  # noqa: BLE001
        return "error " + type(ex).__name__


def same(m, i, x):
    return (read(m, i) == x) if i in m._module_features else i in OPTFEATS


def drive(script):
    if script["profile"] not in FEATS and not script.get("quiet"):
        drive({"profile": script["profile"], "quiet": True, "steps": [{"k": "update", "d": 0}]})
    ev = []

    def log(e, **kw):
        ev.append({"e": e, **kw})

    comps, table, typ, parent_typ, data = profile_of(script["profile"])

    cam = script["profile"] == "cam" or script["profile"].startswith("rec:smartcam")

    async def main():
        plan = [p for p in script["steps"] if p["k"] in ("ans", "fail", "single", "rand")]
        R = random.Random(json.dumps(script, sort_keys=True))
        proto = Proto(script, log, comps, typ, plan, data)
        cfg = CFG
        if parent_typ:
            pp = Proto(script, lambda *a, **k: None, {"device": 1, "child_device": 1} if "HUB" not in parent_typ else {"device": 1}, parent_typ, [])

            class Quiet(Proto):
                async def query(self, request, retry_count=3):
                    r = await super().query(request, retry_count)
                    if "get_child_device_list" in r:
                        r["get_child_device_list"] = {"child_device_list": [], "start_index": 0, "sum": 0}
                        r["get_child_device_component_list"] = {"child_component_list": []}
                    return r
            pp.__class__ = Quiet
            parent = SmartDevice("127.0.0.1", config=cfg, protocol=pp)
            await parent.update()
            info, _ = proto.value("get_device_info")
            proto.tok = 0
            info.update(device_id="CHILD", category="plug.powerstrip.sub-plug" if data is None else info["category"])
            dev = await SmartChildDevice.create(
                parent=parent, child_info=info, protocol=proto,
                child_components_raw={"device_id": "CHILD", "component_list": [{"id": k, "ver_code": v} for k, v in comps.items()]})
        else:
            dev = (SmartCamDevice if cam else SmartDevice)("127.0.0.1", config=cfg, protocol=proto)
        for s in script["steps"]:
            if s["k"] == "touch":
                if s["n"] not in {t["n"] for t in table}:
                    continue
                if s["n"] in dev.modules and s["n"] in TOUCH:
                    try:
                        await TOUCH[s["n"]](dev.modules[s["n"]])
                    except Exception:  # noqa: BLE001
                        pass
                    log("touch", n=s["n"])
                continue
            if s["k"] != "update":
                continue
            vt_sleep = s["d"] / 1000
            if vt_sleep:
                import asyncio
                await asyncio.sleep(vt_sleep)
            log("update", t=vt.now_ms())
            try:
                await dev.update()
            except Exception as ex:  # noqa: BLE001
                log("err", lib=isinstance(ex, KasaException), why=repr(ex)[:120])
            else:
                log("ok", data=observe(dev, table, script["profile"]), info=dev.sys_info.get("tok", -9))
        if script.get("quiet"):
            if data is not None:
                VALUES[script["profile"]] = {t["n"]: {i: read(m, i) for i in m._module_features if i not in CROSS}
                                             for t in table if t["n"] in dev.modules for m in [dev.modules[t["n"]]]}
            FEATS[script["profile"]] = {t["n"]: sorted(set(dev.modules[t["n"]]._module_features) - OPTFEATS) for t in table if t["n"] in dev.modules}
        log("end")

    try:
        vt.run(main, vtime=10**9, iterations=60000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {"child": parent_typ is not None, "cam": cam, "mods": table, "ev": ev}
