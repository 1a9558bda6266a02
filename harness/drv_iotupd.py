"""Driver: updates of legacy devices whose answers carry tokens (C19)."""
from __future__ import annotations

import asyncio
import copy
import json
import random

import vt
import fakedev

from kasa import KasaException, Module
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.iot import IotBulb, IotDimmer, IotLightStrip, IotPlug, IotStrip, IotWallSwitch
from kasa.protocols import IotProtocol

RULES, USE = ["get_rules", "get_next_action"], ["get_realtime", "get_daystat", "get_monthstat"]


def plug(extra=(), ene=False):
    return [("IotSchedule", "schedule", RULES), ("IotUsage", "schedule", USE), ("IotAntitheft", "anti_theft", RULES), ("Time", "time", ["get_time", "get_timezone"]),
            ("IotCloud", "cnCloud", ["get_info"]), *extra] + ([("Energy", "emeter", USE)] if ene else [])


PIR = [("IotMotion", "smartlife.iot.PIR", ["get_config", "get_adc_value"]), ("IotAmbientLight", "smartlife.iot.LAS", ["get_config", "get_current_brt"])]
DIM = [("IotDimmer", "smartlife.iot.dimmer", ["get_dimmer_parameters", "get_default_behavior"])]
BULB = [("IotSchedule", "smartlife.iot.common.schedule", RULES), ("IotUsage", "smartlife.iot.common.schedule", USE), ("IotAntitheft", "smartlife.iot.common.anti_theft", RULES),
        ("Time", "smartlife.iot.common.timesetting", ["get_time", "get_timezone"]), ("IotCloud", "smartlife.iot.common.cloud", ["get_info"]),
        ("Energy", "smartlife.iot.common.emeter", USE), ("IotCountdown", "countdown", RULES)]
KINDS = {
    "plug": (IotPlug, ["HS100(UK)_4.1_1.1.0", "KP105(UK)_1.0_1.0.5"], plug()),
    "meter": (IotPlug, ["HS110(EU)_4.0_1.0.4", "KP115(US)_1.0_1.0.17"], plug(ene=True)),
    "switch": (IotWallSwitch, ["HS200(US)_5.0_1.0.2"], plug()),
    "motion": (IotWallSwitch, ["KS200M(US)_1.0_1.0.10"], plug(PIR)),
    "dimmer": (IotDimmer, ["HS220(US)_2.0_1.0.3", "ES20M(US)_1.0_1.0.11", "KS220(US)_1.0_1.0.13"], plug(PIR + DIM)),
    "bulb": (IotBulb, ["KL130(EU)_1.0_1.8.8", "LB110(US)_1.0_1.8.11", "KL125(US)_4.0_1.0.5"], BULB),
    "strip-light": (IotLightStrip, ["KL430(US)_1.0_1.0.10", "KL400L5(US)_1.0_1.0.8"], BULB),
    "strip": (IotStrip, ["HS300(US)_2.0_1.0.12", "KP303(UK)_1.0_1.0.3"], plug([("IotCountdown", "countdown", RULES)])),
}
DAYS = [{"year": 2024, "month": 12, "day": d, "X": 1000 + d} for d in range(1, 32)]
MONTHS = [{"year": 2024, "month": d, "X": 10000 + d} for d in range(1, 13)]
BASE = {"get_time": {"year": 2024, "month": 3, "mday": 2, "hour": 3, "min": 4, "sec": 5}, "get_timezone": {"index": 39},
        "get_realtime": {"voltage_mv": 230000, "current_ma": 100, "power_mw": 23000, "total_wh": 100}, "get_daystat": {"day_list": DAYS}, "get_monthstat": {"month_list": MONTHS},
        "get_rules": {"rule_list": [], "enable": 1, "version": 2}, "get_next_action": {"type": -1},
        "get_config": {"enable": 1, "devs": [{"enable": 1, "level_array": []}], "trigger_index": 0, "array": [1, 2, 3, 4], "min_adc": 0, "max_adc": 10, "cold_time": 10},
        "get_adc_value": {"value": 5}, "get_current_brt": {"value": 5},
        "get_info": {"username": "u", "server": "s", "binded": 1, "cld_connection": 1, "illegalType": 0, "stopConnect": 0, "tcspStatus": 1, "fwDlPage": "", "tcspInfo": "", "fwNotifyType": 0},
        "get_dimmer_parameters": {"minThreshold": 1, "fadeOnTime": 1, "fadeOffTime": 1, "gentleOnTime": 1, "gentleOffTime": 1, "rampRate": 1, "bulb_type": 1},
        "get_default_behavior": {"hard_on": {"mode": "last_status"}, "soft_on": {"mode": "last_status"}, "long_press": {"mode": "none"}, "double_click": {"mode": "none"}}}


class Wire(fakedev.Wire):
    def __init__(self, h):
        super().__init__(None)
        self.h = h

    async def send(self, request):
        return await self.h(json.loads(request))


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    cls, models, mods = KINDS[script["kind"]]
    data = fakedev.fixture(R.choice(models), "iot")
    info = data["system"]["get_sysinfo"]
    names = sorted({m for _, m, _ in mods})
    # what the device can build, with some tolerance as the library goes by rough estimates
    limit = 4700 if script["kind"] in ("bulb", "strip-light") else 16384
    sup, partial, hide = set(names), set(), set()
    tok = [0]
    st = {"lose": None, "n": 0, "lost": False}

    def log(e, **kw):
        ev.append({"e": e, **kw})

    def answer(m, c):
        tok[0] += 1
        if (m, c) in partial:
            return tok[0], {"err_code": -2, "err_msg": "member not support", "tok": tok[0]}
        if m == "system" and c == "get_sysinfo":
            return tok[0], {**copy.deepcopy(info), "tok": tok[0], "rssi": -tok[0]}
        if c not in BASE:
            return -1, {"err_code": -2, "err_msg": "member not support"}
        a = json.loads(json.dumps(BASE[c]).replace('"X"', '"energy_wh"' if "emeter" in m else '"time"'))
        return tok[0], {**a, "err_code": 0, "tok": tok[0]}

    async def serve(req):
        await asyncio.sleep(0)
        if "context" in req:      # one socket of a strip: not of interest here
            return {m: {c: answer(m, c)[1] for c in cmds} if m == "schedule" and m in sup else {"err_code": -1, "err_msg": "module not support"}
                    for m, cmds in req.items() if m != "context"}
        if st["lost"]:
            raise KasaTimeout("x")
        qs, no, out = [], [], {}
        for m, cmds in req.items():
            if m != "system" and m not in sup:
                no.append(m)
                out[m] = R.choice([{"err_code": -1, "err_msg": "module not support"}, {"err_code": -2001, "err_msg": "Module not support"}])
                qs += [{"m": m, "c": c, "tok": -1} for c in cmds]
                continue
            out[m] = {}
            for c in cmds:
                t, out[m][c] = answer(m, c)
                qs.append({"m": m, "c": c, "tok": t})
        st["n"] += 1
        st["lost"] = st["lose"] == st["n"]
        if len(json.dumps(out, separators=(",", ":"))) > limit:
            log("too big", n=len(json.dumps(out, separators=(",", ":"))))
            st["lost"] = True
        log("req", qs=qs, no=no, lost=st["lost"])
        if st["lost"]:
            raise KasaTimeout("x")
        keys = list(out)
        R.shuffle(keys)
        return {k: out[k] for k in keys}

    async def main():
        d = cls("127.0.0.1", protocol=IotProtocol(transport=Wire(serve)))
        done = [False]

        def early():
            ok = True
            for a in ("is_on", "sys_info", "modules", "features", "model", "mac", "rssi", "hw_info", "location", "has_emeter", "on_since", "time", "timezone", "device_id"):
                try:
                    getattr(d, a)
                    ok = False
                except KasaException:
                    pass
            log("early", raised=ok)

        def view():
            vs, absent = [], []
            for lib, m, cmds in mods:
                mod = d.modules.get(getattr(Module, lib))
                if mod is None:
                    absent.append(m)
                    continue
                dd = mod.data
                vs += [{"m": m, "c": c, "tok": dd[c].get("tok", -9)} for c in cmds if c in dd]
            vs.append({"m": "system", "c": "get_sysinfo", "tok": d.sys_info["tok"]})
            if d.rssi != -d.sys_info["tok"] or d.sys_info["alias"] != d.alias:
                vs.append({"m": "system", "c": "get_sysinfo", "tok": -8})
            log("view", vs=vs, absent=sorted(set(absent)))

        fresh = True
        for s in script["steps"]:
            if s["a"] == "disc":
                if fresh:
                    t, i = answer("system", "get_sysinfo")
                    d.update_from_discover_info({"system": {"get_sysinfo": i}})
                    log("discovered", tok=t)
                    fresh = False
            elif s["a"] == "sup":
                sup.intersection_update(s["sup"])
            elif s["a"] == "partial":
                partial.clear()
                partial.update((m, c) for m, c in s["p"])
            elif s["a"] == "early":
                if fresh:
                    early()
            elif s["a"] == "update":
                st.update(lose=s.get("lose"), n=0, lost=False)
                fresh = False
                log("begin")
                try:
                    await (d.update(update_children=False) if s.get("nokids") else d.update())
                    done[0] = True
                    log("ok")
                except Exception as ex:  # noqa: BLE001
                    log("err", lib=isinstance(ex, KasaException), why=repr(ex))
                if done[0]:
                    view()

    try:
        vt.run(main, vtime=10 ** 6, iterations=500000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    never = [m for m in names if m not in script["first"]]
    return {"ev": ev, "needs": [{"m": m, "c": c} for _, m, cmds in mods for c in cmds] + [{"m": "system", "c": "get_sysinfo"}], "never": never}
