"""Stateful stand-ins for real devices, behind the real protocol classes.

The initial data of a device comes from a recording (json files of /repo/tests/fixtures, data only); what commands do to it is
written down here, independently of the library and of its tests.
"""
from __future__ import annotations

import base64
import copy
import json
from functools import cache
from pathlib import Path

from kasa import Credentials, DeviceConfig
from kasa.exceptions import SmartErrorCode, TimeoutError
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import SmartCamProtocol
from kasa.transports import BaseTransport

FIX = Path("/repo/tests/fixtures")
CFG = DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"))
PARAMS, UNKNOWN = -1008, -1002


@cache
def _load(path):
    return json.loads(Path(path).read_text())


def fixture(name, sub="smart"):
    return copy.deepcopy(_load(str(FIX / sub / f"{name}.json")))


class Wire(BaseTransport):
    """Carries requests to the stand-in; `plan(n)` may name a fault for the n-th request."""
    default_port = 80
    credentials_hash = None

    def __init__(self, dev, plan=None):
        super().__init__(config=CFG)
        self.dev, self.plan, self.n = dev, plan, 0

    async def send(self, request):
        self.n += 1
        fault = self.plan(self.n, request) if self.plan else None
        if fault == "lost":
            raise TimeoutError("x")
        res = self.dev.serve(json.loads(request))
        if fault == "lost-after":
            raise TimeoutError("x")
        return json.loads(json.dumps(res))

    async def reset(self):
        pass

    async def close(self):
        pass


class Smart:
    """A SMART device (or a child of one)."""

    def __init__(self, data, *, lenient=False, parent=None):
        self.data = data
        self.info = data.setdefault("get_device_info", {})
        self.comps = {c["id"]: c["ver_code"] for c in data.get("component_nego", {}).get("component_list", [])}
        self.kids = {i: Smart(d, lenient=lenient, parent=self) for i, d in data.get("child_devices", {}).items()}
        self.parent, self.lenient = parent, lenient
        self.playing = None    # duration, volume and sound of a running alarm
        self.log = []          # (path, method, params) of everything that is not a plain read
        self.refuse = {}       # method -> error code
        self.gaps = 0          # reads that the recording has no answer to

    def wire(self, plan=None):
        return SmartProtocol(transport=Wire(self, plan))

    def root(self):
        return self.parent.root() if self.parent else self

    def path(self):
        return [i for i, k in self.parent.kids.items() if k is self] if self.parent else []

    # -- protocol
    def serve(self, req):
        err, res = self.handle(req["method"], req.get("params"))
        return {"error_code": err, **({} if res is None else {"result": res})}

    def handle(self, m, p):
        if m == "multipleRequest":
            out = []
            for r in p["requests"]:
                err, res = self.handle(r["method"], r.get("params"))
                out.append({"method": r["method"], "error_code": err, **({} if res is None else {"result": res})})
            return 0, {"responses": out}
        if m == "control_child":
            kid = self.kids.get(p["device_id"])
            if kid is None:
                return PARAMS, None
            return 0, {"responseData": kid.serve(p["requestData"])}
        h = getattr(self, "do_" + m, None)
        if h is None:
            if m in self.data:
                v = self.data[m]
                if not (isinstance(v, dict) and v.get("error_code")):
                    return 0, self.read(m, p)
            self.root().gaps += 1
            return v["error_code"] if m in self.data else UNKNOWN, None
        self.root().log.append((self.path(), m, copy.deepcopy(p)))
        if m in self.refuse:
            return self.refuse[m], None
        r = h(p)
        return r if isinstance(r, tuple) else (r or 0, {})

    def read(self, m, p):
        v = copy.deepcopy(self.data[m])
        if m == "get_child_device_list":
            for c in v["child_device_list"]:
                k = self.kids.get(c["device_id"])
                if k:
                    c.update({x: y for x, y in copy.deepcopy(k.info).items() if x != "category"})
        if isinstance(p, dict) and "start_index" in p and "sum" in v:
            for k, x in v.items():
                if isinstance(x, list):
                    v[k] = x[p["start_index"]:]
            v["start_index"] = p["start_index"]
        return v

    # -- commands
    def bad_light(self, p):
        i = self.info
        lo, hi = i.get("color_temp_range") or (2500, 6500)
        rng = {"brightness": (1, 100), "hue": (0, 360), "saturation": (0, 100)}
        for k, (a, b) in rng.items():
            if k in p and not (type(p[k]) is int and a <= p[k] <= b):
                return True
        return "color_temp" in p and not (p["color_temp"] == 0 or lo <= p["color_temp"] <= hi)

    def do_set_device_info(self, p):
        if not self.lenient and self.bad_light(p):
            return PARAMS
        i = self.info
        for k, v in p.items():
            if k in i or k in ("hue", "saturation"):
                i[k] = copy.deepcopy(v)
        return 0

    def do_set_dynamic_light_effect_rule_enable(self, p):
        r = self.data["get_dynamic_light_effect_rules"]
        if p["enable"] and p.get("id") not in [x["id"] for x in r["rule_list"]]:
            return PARAMS
        self.info["dynamic_light_effect_enable"] = r["enable"] = p["enable"]
        for d, k in ((self.info, "dynamic_light_effect_id"), (r, "current_rule_id")):
            d.pop(k, None)
            if p["enable"]:
                d[k] = p["id"]

    def do_edit_dynamic_light_effect_rule(self, p):
        rl = self.data["get_dynamic_light_effect_rules"]["rule_list"]
        for n, x in enumerate(rl):
            if x["id"] == p.get("id"):
                rl[n] = copy.deepcopy(p)
                return 0
        return PARAMS

    def do_set_lighting_effect(self, p):
        e = self.info["lighting_effect"]
        if p.get("bAdjusted"):
            if not e["enable"]:
                return PARAMS
            e["brightness"] = p["brightness"]
            return 0
        if "enable" not in p:
            e["enable"] = 0         # a new effect that is not switched on; the one that ran is gone
        self.data["get_lighting_effect"] = copy.deepcopy(p)
        for k in ("name", "id", "enable", "custom", "brightness"):
            if k in p:
                e[k] = copy.deepcopy(p[k])
        return 0

    def do_set_preset_rules(self, p):
        if "preset_state" in self.info:
            self.info["preset_state"] = [{"brightness": b} for b in p["brightness"]]
        else:
            self.data["get_preset_rules"]["brightness"] = copy.deepcopy(p["brightness"])

    def do_edit_preset_rules(self, p):
        st = self.info["preset_state"] if "preset_state" in self.info else self.data["get_preset_rules"]["states"]
        if not 0 <= p["index"] < len(st):
            return PARAMS
        st[p["index"]] = copy.deepcopy(p["state"])

    def do_set_on_off_gradually_info(self, p):
        g = self.data.get("get_on_off_gradually_info")
        i = self.info
        if "gradually_on_mode" in i:
            for k, m, t in (("on_state", "gradually_on_mode", "fade_on_time"), ("off_state", "gradually_off_mode", "fade_off_time")):
                if k in p:
                    i[m], i[t] = int(p[k]["enable"]), p[k]["duration"]
            return 0
        if "enable" in g:
            g["enable"] = p["enable"]
            return 0
        for k in ("on_state", "off_state"):
            if k in p:
                g[k].update(p[k])
        return 0

    def whole(self, get, p, need=()):
        """A setting that is always written as a whole."""
        if any(k not in p for k in need):
            return PARAMS
        old = self.data[get]
        keep = {k: v for k, v in old.items() if k not in need and k not in p} if need else {}
        self.data[get] = {**keep, **copy.deepcopy(p)}
        return 0

    def do_set_led_info(self, p):
        return self.whole("get_led_info", p, tuple(self.data["get_led_info"]))

    def do_set_auto_off_config(self, p):
        return self.whole("get_auto_off_config", p, ("enable", "delay_min"))

    def do_set_alarm_configure(self, p):
        if p.get("volume") not in ("mute", "low", "normal", "high"):
            return PARAMS
        return self.whole("get_alarm_configure", p, ("type", "volume", "duration"))

    def do_play_alarm(self, p):
        p = p or {}
        c = self.data["get_alarm_configure"]
        d, v, t = p.get("alarm_duration", c["duration"]), p.get("alarm_volume", c["volume"]), p.get("alarm_type", c["type"])
        if set(p) - {"alarm_duration", "alarm_volume", "alarm_type"} or v not in ("mute", "low", "normal", "high"):
            return PARAMS
        self.playing = (d, v, t)
        self.info["in_alarm"] = True

    def do_stop_alarm(self, p):
        self.playing = None
        self.info["in_alarm"] = False

    def do_set_child_protection(self, p):
        self.info["child_protection"] = p["enable"]

    def do_set_temperature_unit(self, p):
        self.info["temp_unit"] = p["temp_unit"]

    def do_setChildLockInfo(self, p):
        self.data["getChildLockInfo"] = {"child_lock_status": p["child_lock_status"]}

    def do_setVolume(self, p):
        self.data["getVolume"] = {"volume": p["volume"]}

    def do_setCleanAttr(self, p):
        if p.get("type", "global") != "global" or set(p) - {"type"} - set(self.data["getCleanAttr"]):
            return PARAMS
        self.data["getCleanAttr"] = {**self.data["getCleanAttr"], **{k: v for k, v in p.items() if k != "type"}}

    def do_setCarpetClean(self, p):
        self.data["getCarpetClean"] = {"carpet_clean_prefer": p["carpet_clean_prefer"]}

    def do_setDustCollectionInfo(self, p):
        return self.whole("getDustCollectionInfo", p, tuple(self.data["getDustCollectionInfo"]))

    def do_setSwitchClean(self, p):
        self.data["getVacStatus"]["status"] = 1 if p["clean_on"] else 0

    def do_setRobotPause(self, p):
        self.data["getVacStatus"]["status"] = 7 if p["pause"] else 1

    def do_setSwitchCharge(self, p):
        self.data["getVacStatus"]["status"] = 4 if p["switch_charge"] else 0

    def do_set_protection_power(self, p):
        if "protection_power" not in p and "protection_power" in self.data["get_protection_power"]:
            return PARAMS
        return self.whole("get_protection_power", p, ("enabled",))

    def do_set_auto_update_info(self, p):
        return self.whole("get_auto_update_info", p, ("enable", "random_range", "time"))


RULE = {"eact": -1, "enable": 1, "id": "8AA75A50A8440B17941D192BD9E01FFA", "name": "name", "repeat": 1, "sact": 1, "smin": 1027, "soffset": 0,
        "stime_opt": 2, "wday": [1, 1, 1, 1, 1, 1, 1]}
# What old recordings lack
COMMON = {
    "time": {"get_time": {"year": 2024, "month": 3, "mday": 2, "hour": 3, "min": 4, "sec": 5, "err_code": 0}, "get_timezone": {"index": 39, "err_code": 0}},
    "cnCloud": {"get_info": {"username": "u@x", "server": "n-devs.tplinkcloud.com", "binded": 1, "cld_connection": 1, "illegalType": 0, "stopConnect": 0,
                             "tcspStatus": 1, "fwDlPage": "", "tcspInfo": "", "fwNotifyType": 0, "err_code": 0}},
    "schedule": {"get_rules": {"rule_list": [RULE], "enable": 1, "version": 2, "err_code": 0}, "get_next_action": {"type": -1, "err_code": 0},
                 "get_daystat": {"day_list": [{"year": 2024, "month": 3, "day": 2, "time": 17}], "err_code": 0},
                 "get_monthstat": {"month_list": [{"year": 2024, "month": 3, "time": 170}], "err_code": 0},
                 "get_realtime": {"err_code": -2, "err_msg": "member not support"}},
    "emeter": {"get_daystat": {"day_list": [{"year": 2024, "month": 3, "day": 2, "energy_wh": 210}], "err_code": 0},
               "get_monthstat": {"month_list": [{"year": 2024, "month": 3, "energy_wh": 2100}], "err_code": 0}},
    "smartlife.iot.LAS": {"get_current_brt": {"value": 26, "err_code": 0}},
    "smartlife.iot.PIR": {"get_adc_value": {"value": 50, "err_code": 0}},
    "smartlife.iot.dimmer": {"get_default_behavior": {"hard_on": {"mode": "last_status"}, "soft_on": {"mode": "last_status"}, "long_press": {"mode": "none"},
                                                      "double_click": {"mode": "none"}, "err_code": 0}},
}
COMMON["anti_theft"] = COMMON["count_down"] = {"get_rules": {"rule_list": [], "enable": 1, "version": 2, "err_code": 0}}
BULB = {"smartlife.iot.common.timesetting": "time", "smartlife.iot.common.cloud": "cnCloud", "smartlife.iot.common.schedule": "schedule",
        "smartlife.iot.common.emeter": "emeter", "smartlife.iot.common.anti_theft": "anti_theft"}


class Iot:
    """A legacy device: module -> command."""

    def __init__(self, data, *, lenient=False):
        self.data = data
        self.sys = data["system"]["get_sysinfo"]
        self.log = []
        self.lenient = lenient
        self.refuse = {}      # command -> err_code
        self.gaps = 0
        bulb = "light_state" in self.sys or "SMARTBULB" in self.sys.get("mic_type", "")
        for mod, cmds in COMMON.items():
            if mod.startswith("smartlife") and mod not in data:
                continue
            if bulb:
                mod = next((b for b, m in BULB.items() if m == mod), mod)
            if "emeter" in mod and "get_realtime" not in data.get(mod, {}):
                continue
            for c, v in cmds.items():
                old = data.get(mod)
                if not (isinstance(old, dict) and "err_code" in old):
                    data.setdefault(mod, {}).setdefault(c, copy.deepcopy(v))

    def wire(self, plan=None):
        return IotProtocol(transport=Wire(self, plan))

    def serve(self, req):
        req = dict(req)
        ctx = req.pop("context", {}).get("child_ids")
        out = {}
        for mod, cmds in req.items():
            out[mod] = {c: self.cmd(mod, c, a or {}, ctx) for c, a in cmds.items()}
            if all(isinstance(v, dict) and v.get("err_msg") == "module not support" for v in out[mod].values()):
                out[mod] = {"err_code": -1, "err_msg": "module not support"}
        return out

    def cmd(self, mod, c, a, ctx):
        h = getattr(self, "do_" + c, None)
        if h is None or (c == "set_brightness" and mod != "smartlife.iot.dimmer"):
            v = self.data.get(mod, {}).get(c)
            if v is None or (isinstance(v, dict) and v.get("err_code")):
                self.gaps += 1
            if v is None:
                return {"err_code": -1, "err_msg": "module not support"} if mod not in self.data else {"err_code": -2, "err_msg": "member not support"}
            return copy.deepcopy(v)
        self.log.append((mod, c, copy.deepcopy(a), ctx))
        if c in self.refuse:
            return {"err_code": self.refuse[c], "err_msg": "refused"}
        r = h(mod, a, ctx)
        return r if isinstance(r, dict) else {"err_code": r or 0, **({"err_msg": "x"} if r else {})}

    def bad_light(self, a):
        rng = {"brightness": (0, 100), "hue": (0, 360), "saturation": (0, 100)}
        for k, (x, y) in rng.items():
            if k in a and not (type(a[k]) is int and x <= a[k] <= y):
                return True
        return "color_temp" in a and not (a["color_temp"] == 0 or 2000 <= a["color_temp"] <= 9000)

    def do_set_relay_state(self, mod, a, ctx):
        kids = self.sys.get("children")
        if kids is None or not ctx:
            if kids is not None:
                for k in kids:
                    k["state"] = a["state"]
            else:
                self.sys["relay_state"] = a["state"]
            return 0
        for k in kids:
            if k["id"] in ctx:
                k["state"] = a["state"]
        return 0

    def do_transition_light_state(self, mod, a, ctx):
        if not self.lenient and self.bad_light(a):
            return -3
        ls = self.sys["light_state"]
        vals = dict(ls) if ls["on_off"] else dict(ls["dft_on_state"])
        vals.pop("on_off", None)
        if not a["on_off"]:
            new = {"on_off": 0, "dft_on_state": vals}
        else:
            if a.get("ignore_default"):
                vals.update({k: a[k] for k in ("brightness", "hue", "saturation", "color_temp") if k in a})
            new = {"on_off": 1, **vals}
            eff = self.sys.get("lighting_effect_state")
            if eff and eff["enable"] and a.get("ignore_default"):
                if {"hue", "saturation", "color_temp"} & set(a):
                    eff["enable"] = 0
                elif "brightness" in a:
                    eff["brightness"] = a["brightness"]
        self.sys["light_state"] = new
        return {"err_code": 0, **copy.deepcopy(new)}

    do_set_light_state = do_transition_light_state

    def do_set_lighting_effect(self, mod, a, ctx):
        e = self.sys["lighting_effect_state"]
        for k in ("name", "id", "enable", "custom", "brightness"):
            if k in a:
                e[k] = copy.deepcopy(a[k])
        self.data.setdefault(mod, {})["get_lighting_effect"] = copy.deepcopy(a)
        return 0

    def do_set_preferred_state(self, mod, a, ctx):
        ps = self.sys["preferred_state"]
        for n, p in enumerate(ps):
            if p["index"] == a["index"]:
                ps[n] = copy.deepcopy(a)
                return 0
        return -3

    def do_set_brightness(self, mod, a, ctx):
        if not (type(a["brightness"]) is int and 1 <= a["brightness"] <= 100):
            return -3
        self.sys["brightness"] = a["brightness"]
        return 0

    def do_set_led_off(self, mod, a, ctx):
        self.sys["led_off"] = a["off"]

    def do_set_dev_alias(self, mod, a, ctx):
        if ctx:
            for k in self.sys["children"]:
                if k["id"] in ctx:
                    k["alias"] = a["alias"]
        else:
            self.sys["alias"] = a["alias"]

    def do_set_enable(self, mod, a, ctx):
        c = self.data[mod]["get_config"]
        (c["devs"][0] if "devs" in c else c)["enable"] = a["enable"]

    def do_set_trigger_sens(self, mod, a, ctx):
        c = self.data[mod]["get_config"]
        if not 0 <= a["index"] < len(c["array"]):
            return -3
        c["trigger_index"] = a["index"]
        if "value" in a:
            c["array"][a["index"]] = a["value"]

    def do_set_cold_time(self, mod, a, ctx):
        self.data[mod]["get_config"]["cold_time"] = a["cold_time"]

    def dim(self, key, val):
        self.data["smartlife.iot.dimmer"]["get_dimmer_parameters"][key] = val

    def do_calibrate_brightness(self, mod, a, ctx):
        self.dim("minThreshold", a["minThreshold"])

    def do_set_fade_on_time(self, mod, a, ctx):
        self.dim("fadeOnTime", a["fadeTime"])

    def do_set_fade_off_time(self, mod, a, ctx):
        self.dim("fadeOffTime", a["fadeTime"])

    def do_set_gentle_on_time(self, mod, a, ctx):
        self.dim("gentleOnTime", a["duration"])

    def do_set_gentle_off_time(self, mod, a, ctx):
        self.dim("gentleOffTime", a["duration"])

    def do_set_button_ramp_rate(self, mod, a, ctx):
        self.dim("rampRate", a["rampRate"])

    def do_set_time(self, mod, a, ctx):
        self.data[mod]["get_time"].update(a)

    def do_set_timezone(self, mod, a, ctx):
        a = dict(a)
        self.data[mod]["get_timezone"]["index"] = a.pop("index")
        self.data[mod]["get_time"].update(a)

    def do_set_dimmer_transition(self, mod, a, ctx):
        if not self.lenient and not (type(a["brightness"]) is int and 0 <= a["brightness"] <= 100 and type(a["duration"]) is int and a["duration"] > 0):
            return -3
        if a["brightness"] == 0:
            self.sys["relay_state"] = 0
        else:
            self.sys["relay_state"] = 1
            self.sys["brightness"] = a["brightness"]
        return 0


class Cam:
    """A SMARTCAM device or hub (children: SMART devices or cameras, from fixtures)."""
    WRITES = {"setDeviceAlias": ("getDeviceInfo", ("device_info", "basic_info"), {"dev_alias": "device_alias"})}

    def __init__(self, data, *, kids=None):
        self.data = data
        self.info = data.get("getDeviceInfo", {}).get("device_info", {}).get("basic_info", {})
        self.kids = kids or {}      # id -> Smart / Cam
        self.log, self.refuse, self.gaps = [], {}, 0
        self.parent = None
        for k in self.kids.values():
            k.parent = self

    def wire(self, plan=None):
        return SmartCamProtocol(transport=Wire(self, plan))

    def root(self):
        return self.parent.root() if self.parent else self

    def path(self):
        return [i for i, k in self.parent.kids.items() if k is self] if self.parent else []

    def serve(self, req):
        m = req["method"]
        if m == "multipleRequest":
            out = []
            for r in req["params"]["requests"]:
                x = self.one(r["method"], r.get("params"))
                out.append({"method": r["method"], **x})
                if x["error_code"]:
                    break
            return {"error_code": 0, "result": {"responses": out}}
        if m in ("get", "set", "do"):
            (mod, arg), = [(k, v) for k, v in req.items() if k != "method"]
            if m == "get":
                v = self.data.get("get_" + mod, {}).get("get")
                return {"error_code": 0, **copy.deepcopy(v)} if v else {"error_code": -1}
            self.root().log.append((self.path(), m, {mod: copy.deepcopy(arg)}))
            return {"error_code": self.refuse.get(m, 0)}
        return self.one(m, req.get("params"))

    def kid(self, p):
        k = self.kids.get(p["device_id"])
        if k is None:
            return {"error_code": -40101}
        r = p["request_data"]
        if isinstance(k, Smart):
            err, res = k.handle(r["method"], r.get("params"))
            return {"error_code": 0, "result": {"response_data": {"method": r["method"], "error_code": err, **({} if res is None else {"result": res})}}}
        return {"error_code": 0, "result": {"response_data": {"method": r["method"], **k.one(r["method"], r.get("params"))}}}

    def one(self, m, p):
        if m == "controlChild":
            return self.kid(p["childControl"])
        if not (m.startswith(("set", "add", "remove", "start", "stop", "play")) or getattr(self, "do_" + m, None)):
            v = self.data.get(m)
            if v is None or (isinstance(v, dict) and v.get("error_code")):
                self.root().gaps += 1
                return {"error_code": -40106 if v is None else v["error_code"]}
            return {"error_code": 0, "result": self.read(m, p)}
        self.root().log.append((self.path(), m, copy.deepcopy(p)))
        if m in self.refuse:
            return {"error_code": self.refuse[m]}
        h = getattr(self, "do_" + m, None)
        r = h(p) if h else self.write(m, p)
        return r if isinstance(r, dict) else {"error_code": r or 0, **({} if r else {"result": {}})}

    def read(self, m, p):
        v = copy.deepcopy(self.data[m])
        if m == "getChildDeviceList":
            for c in v["child_device_list"]:
                k = self.kids.get(c["device_id"])
                if isinstance(k, Smart):
                    c.update({x: y for x, y in copy.deepcopy(k.info).items() if x != "category"})
        start = next((x.get("start_index") for x in (p or {}).values() if isinstance(x, dict)), None) if isinstance(p, dict) else None
        if start is not None and "sum" in v:
            for k, x in v.items():
                if isinstance(x, list):
                    v[k] = x[start:]
            v["start_index"] = start
        return v

    def write(self, m, p):
        get = "g" + m[1:]
        if m == "setTimezone" and "clock_status" in p["system"]:
            get = "getClockStatus"
        if get not in self.data:
            return -40106
        (mod, secs), = p.items()
        for sec, vals in secs.items():
            if not isinstance(vals, dict):
                self.data[get][sec] = copy.deepcopy(vals)
                continue
            self.data[get].setdefault(mod, {}).setdefault(sec, {}).update(copy.deepcopy(vals))
        return 0

    playing = None

    def do_setSirenConfig(self, p):
        c, n = self.data["getSirenConfig"], p["siren"]
        if set(n) - set(c) or not isinstance(n.get("volume", "1"), str):
            return -40105
        c.update(copy.deepcopy(n))

    def do_setSirenStatus(self, p):
        c = self.data["getSirenConfig"]
        on = p["siren"]["status"] == "on"
        self.data["getSirenStatus"]["status"] = "on" if on else "off"
        self.playing = (c["duration"], c["volume"], c["siren_type"]) if on else None

    def do_setDeviceAlias(self, p):
        self.info["device_alias"] = p["system"]["sys"]["dev_alias"]
