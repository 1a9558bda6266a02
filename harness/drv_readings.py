"""Driver: what devices measure and what the library tells of it (C27)."""
from __future__ import annotations

import base64
import copy
import json
import random
from datetime import UTC, datetime, timedelta
from enum import Enum

import vt
import fakedev

from kasa import KasaException, Module
from kasa.iot import IotBulb, IotDimmer, IotPlug, IotWallSwitch
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

NONE, FAILS, WRONG = -99999999, -99999998, -77777777
ZONES = ["Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Brisbane", "America/Phoenix"]
ZIDX = {1: 90, 2: 75, 3: 77, 4: 95}


# -- values as whole numbers
def num(x):
    if x is None:
        return NONE
    if isinstance(x, Enum):
        x = x.value
    if isinstance(x, (int, float)) and int(x) == x:
        return int(x)
    return WRONG


def milli(x, k=1000):
    if x is None:
        return NONE
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return WRONG
    v = round(x * k)
    return v if abs(v - x * k) < 1e-3 else WRONG


def permyriad(x):
    return milli(x, 10000)


def near(x):
    return round(x * 1000) if isinstance(x, (int, float)) else WRONG


def when(x):
    if x is None:
        return NONE
    return int(x.timestamp()) if isinstance(x, datetime) and x.utcoffset() is not None else WRONG


def mins(x):
    return int(x.total_seconds()) // 60 if isinstance(x, timedelta) and x.total_seconds() % 60 == 0 else WRONG


def text(prefix):
    def f(x):
        if x is None:
            return NONE
        if x == "No SSID":
            return 0
        return int(x[len(prefix):]) if x.startswith(prefix) and x[len(prefix):].isdigit() else WRONG
    return f


def mac(x):
    return int(x.replace(":", "")[-2:], 16) if len(x) == 17 and x[2] == x[14] == ":" and x.lower().startswith("a8:6e:84:00:1f:") else WRONG


def off(x):
    return round(x.utcoffset(datetime(2024, 5, 5)).total_seconds() / 60)


def choice(*names):
    return lambda x: names.index(x) if x in names else WRONG


NAME = "Küche ☕ "
SSID = "net é"


def b64(s):
    return base64.b64encode(s.encode()).decode()


def put(d, k, v, f=lambda v: v):
    if v == NONE:
        d.pop(k, None)
    else:
        d[k] = f(v)


def boo(R):
    return R.randrange(2)


class Unit:
    """Something that measures: fields (raw data as whole numbers), how they get into the stand-in, what is told of them."""

    def __init__(self, R):
        self.R, self.f, self.gen, self.puts, self.reads, self.asks = R, {}, {}, [], {}, {}
        self.pick = lambda dev: dev

    def field(self, name, gen, *puts):
        self.gen[name] = gen
        self.puts += [(name, p) for p in puts]

    def read(self, q, get, norm=num, feat=None):
        self.reads[q] = (get, norm, feat)

    def ask(self, q, get, norm=num):
        self.asks[q] = (get, norm)

    async def asked(self, dev, q, k):
        get, norm = self.asks[q]
        try:
            x = await get(self.pick(dev))
            return norm(x.get(k) if isinstance(x, dict) and k else x)
        except KasaException:
            return FAILS
        except Exception:
            return WRONG - 1

    def change(self):
        for k, g in self.gen.items():
            if k not in self.f or self.R.random() < 0.5:
                self.f[k] = g(self.R)
        for k, p in self.puts:
            p(self.f[k])

    def told(self, dev, q):
        get, norm, feat = self.reads[q]
        o = self.pick(dev)
        try:
            if feat and feat in o.features and self.R.random() < 0.5:
                x = o.features[feat].value
            else:
                x = get(o)
            return norm(x)
        except KasaException:
            return FAILS
        except Exception:
            return WRONG - 1


def mod(name, attr):
    return lambda o: getattr(o.modules[name], attr)


def some(p, g):
    return lambda R: g(R) if R.random() < p else NONE


def rng(*a):
    return lambda R: R.choice([a[0], a[-1], R.randint(a[0], a[-1])])


# -- parts of SMART devices
def named(u, i):
    u.field("alias", some(0.9, rng(1, 999)), lambda v: i.__setitem__("nickname", "" if v == NONE else b64(NAME + str(v))))
    u.read("alias", lambda o: o.alias, text(NAME))
    u.field("mac", rng(0, 255), lambda v: i.__setitem__("mac", f"A8-6E-84-00-1F-{v:02X}"))
    u.read("mac", lambda o: o.mac, mac)
    u.field("rssi", lambda R: R.choice([-1, -99, -R.randint(2, 90)]), lambda v: i.__setitem__("rssi", v))
    u.read("rssi", lambda o: o.rssi, num, "rssi")


def device(u, st):
    i = st.info
    named(u, i)
    u.field("ssid", some(0.9, rng(1, 999)), lambda v: i.__setitem__("ssid", "" if v == NONE else b64(SSID + str(v))))
    u.read("ssid", lambda o: o.ssid, text(SSID), "ssid")
    for k, full in (("lat", "latitude"), ("lon", "longitude")):
        u.field(k, some(0.9, rng(-1800000, 0, 1800000)), lambda v, full=full: put(i, full, v))
        u.read(k, lambda o, full=full: o.location[full], permyriad)
    t = st.data["get_device_time"]
    u.field("ts", rng(0, 1700000000, 2000000000), lambda v: t.__setitem__("timestamp", v))
    u.read("ts", lambda o: o.time, when, "device_time")
    u.field("zone", rng(0, 5), lambda v: t.__setitem__("region", ZONES[v - 1] if v else u.R.choice(["", "CET-DST-nowhere"])))
    u.field("td", lambda R: R.choice([0, 60, -300, 345]), lambda v: t.__setitem__("time_diff", v))
    u.read("tz", lambda o: o.modules[Module.Time].timezone if u.R.random() < 0.5 and Module.Time in o.modules else o.timezone, off)
    c = st.data["get_connect_cloud_state"]
    u.field("cl", rng(0, 2), lambda v: c.__setitem__("status", v))
    if "cloud_connect" in st.comps:
        u.read("cloud", mod("Cloud", "is_connected"), num, "cloud_connection")
    if "auto_off_status" in i:
        u.field("aos", boo, lambda v: i.__setitem__("auto_off_status", "on" if v else "off"))
        u.field("aor", rng(0, 7200), lambda v: i.__setitem__("auto_off_remain_time", v))
        u.read("offat", mod("AutoOff", "auto_off_at"), when, "auto_off_at")
        u.read("aos", mod("AutoOff", "is_timer_active"))
    if "overheat_status" in i:
        u.field("oh", rng(0, 2), lambda v: i.__setitem__("overheat_status", ["normal", "cooldown", "overheated"][v]))
        u.field("ohb", boo)
        u.read("overheated", lambda o: o.features["overheated"].value, num, "overheated")
    elif "overheated" in i:
        u.field("oh", lambda R: NONE)
        u.field("ohb", boo, lambda v: i.__setitem__("overheated", bool(v)))
        u.read("overheated", lambda o: o.features["overheated"].value, num, "overheated")
    if "power_protection_status" in i and "get_protection_power" in st.data:
        u.field("ovl", boo, lambda v: i.__setitem__("power_protection_status", "overloaded" if v else "normal"))
        u.read("ovl", mod("PowerProtection", "overloaded"), num, "overloaded")


def energy(u, st):
    d = st.data
    v2 = "get_emeter_data" in d
    usage, em, cur = d.get("get_energy_usage"), d.get("get_emeter_data"), d.get("get_current_power")
    W = rng(0, 1, 999, 3680000)
    u.field("em", lambda R: int(v2))
    gone = u.R.random() < 0.3 and v2      # newer devices that do not answer get_energy_usage
    if gone:
        d["get_energy_usage"] = {"error_code": -1001}
        for k in ("cp", "te", "me"):
            u.field(k, lambda R: NONE)
    else:
        u.field("cp", some(0.6, W), lambda v: put(usage, "current_power", v))
        u.field("te", some(0.85, W), lambda v: put(usage, "today_energy", v))
        u.field("me", some(0.85, W), lambda v: put(usage, "month_energy", v))
    if v2:
        u.field("pm", some(0.6, W), lambda v: put(em, "power_mw", v))
        u.field("mv", some(0.8, rng(0, 119999, 250000)), lambda v: put(em, "voltage_mv", v))
        u.field("ma", some(0.8, rng(0, 17, 16000)), lambda v: put(em, "current_ma", v))
        u.field("gp", some(0.8, rng(0, 3680)), lambda v: put(cur, "current_power", v))
    else:
        for k in ("pm", "mv", "ma", "gp"):
            u.field(k, lambda R: NONE)
    E = Module.Energy
    u.read("power", mod(E, "current_consumption"), milli, "current_consumption")
    u.read("te", mod(E, "consumption_today"), milli, "consumption_today")
    u.read("me", mod(E, "consumption_this_month"), milli, "consumption_this_month")
    u.read("mv", mod(E, "voltage"), milli, "voltage")
    u.read("ma", mod(E, "current"), milli, "current")
    for q, a in (("stpower", "power"), ("stvolt", "voltage"), ("stcur", "current"), ("sttotal", "total")):
        u.read(q, lambda o, a=a: getattr(o.modules[E].status, a), milli)


ENERGY = ["KP125M(US)_1.0_1.2.3", "P110(AU)_1.0_1.3.1", "P110(EU)_1.0_1.0.7", "P110M(EU)_1.0_1.2.3", "P115(US)_1.0_1.1.3"]
PLAIN = ["P100(US)_1.0.0_1.4.0", "EP25(US)_2.6_1.0.2", "HS220(US)_3.26_1.0.1", "L530E(EU)_3.0_1.1.6", "S500D(US)_1.0_1.0.5", "TP15(US)_1.0_1.0.3"]


def plug(R):
    name = R.choice(ENERGY + PLAIN)
    st = fakedev.Smart(fakedev.fixture(name))
    st.data.setdefault("get_connect_cloud_state", {"status": 0})
    u = Unit(R)
    device(u, st)
    if name in ENERGY:
        energy(u, st)
    return st, SmartDevice, [u]


def strip(R):
    st = fakedev.Smart(fakedev.fixture(R.choice(["P304M(UK)_1.0_1.0.3", "P210M(US)_1.0_1.0.3"])))
    us = []
    for i, k in st.kids.items():
        if not isinstance(k.data.get("get_emeter_data"), dict):
            continue
        u = Unit(R)
        u.pick = lambda dev, i=i: next(c for c in dev.children if c.device_id == i)
        energy(u, k)
        inf = k.info
        u.field("alias", rng(1, 999), lambda v, inf=inf: inf.__setitem__("nickname", b64(NAME + str(v))))
        u.read("alias", lambda o: o.alias, text(NAME))
        us.append(u)
    return st, SmartDevice, us


# -- sensors
SENSORS = ["T100(EU)_1.0_1.12.0", "T110(EU)_1.0_1.9.0", "T110(US)_1.0_1.9.0", "T300(EU)_1.0_1.7.0", "T310(EU)_1.0_1.5.0", "T315(EU)_1.0_1.7.0", "T315(US)_1.0_1.8.0",
           "KE100(EU)_1.0_2.8.0", "KE100(UK)_1.0_2.8.0", "S200B(EU)_1.0_1.11.0", "S200D(EU)_1.0_1.12.0", "T100(US)_1.0_1.12.0"]
TRV = ["", "heating", "progress_calibration", "idle", "off", "unknown", "shutdown", "drying", "low_battery"]


def sensor(u, k):
    i, d = k.info, k.data
    comps = k.comps
    named(u, i)
    if "report_mode" in comps and "report_interval" in i:
        u.field("report", rng(1, 3600), lambda v: i.__setitem__("report_interval", v))
        u.read("report", mod("ReportMode", "report_interval"), num, "report_interval")
    if "battery_detect" in comps:
        has = u.R.choice(["alow", "ilow", "both"])
        u.field("alow", boo if has != "ilow" else lambda R: NONE, lambda v: put(i, "at_low_battery", v, bool))
        u.field("ilow", boo if has != "alow" else lambda R: NONE, lambda v: put(i, "is_low", v, bool))
        u.read("low", mod("BatterySensor", "battery_low"), num, "battery_low")
        if "battery_percentage" in i:
            u.field("bat", rng(0, 100), lambda v: i.__setitem__("battery_percentage", v))
            u.read("bat", mod("BatterySensor", "battery"), num, "battery_level")
    if "open" in i:
        u.field("open", boo, lambda v: i.__setitem__("open", bool(v)))
        u.read("open", mod("ContactSensor", "is_open"), num, "is_open")
    if "detected" in i:
        u.field("detected", boo, lambda v: i.__setitem__("detected", bool(v)))
        u.read("detected", mod("MotionSensor", "motion_detected"), num, "motion_detected")
    if "water_leak_status" in i:
        S = ["normal", "water_leak", "water_dry"]
        u.field("leak", rng(0, 2), lambda v: i.__setitem__("water_leak_status", S[v]))
        u.read("leak", mod("WaterleakSensor", "status"), lambda e: S.index(e.value), "water_leak")
        u.field("alarm", boo, lambda v: i.__setitem__("in_alarm", bool(v)))
        u.read("alarm", mod("WaterleakSensor", "alert"), num, "water_alert")
        u.field("leakat", some(0.7, rng(1600000000, 1800000000)), lambda v: put(i, "trigger_timestamp", v))
        u.read("leakat", mod("WaterleakSensor", "alert_timestamp"), when, "water_alert_timestamp")
    if "current_temp" in i:
        u.field("temp", lambda R: 100 * R.choice([0, -1, 215, 800, R.randint(-200, 600)]), lambda v: i.__setitem__("current_temp", v / 1000))
        u.read("temp", mod("TemperatureSensor", "temperature"), milli, "temperature")
        u.field("tex", some(0.7, lambda R: R.choice([0, 0, -12, 4])), lambda v: put(i, "current_temp_exception", v))
        if "temperature_warning" in _feats(k):
            u.read("tempwarn", mod("TemperatureSensor", "temperature_warning"), num)
        u.field("unit", boo, lambda v: i.__setitem__("temp_unit", ["celsius", "fahrenheit"][v]))
        u.read("unit", mod("TemperatureSensor", "temperature_unit"), choice("celsius", "fahrenheit"), "temperature_unit")
    if "current_humidity" in i:
        u.field("hum", rng(0, 100), lambda v: i.__setitem__("current_humidity", v))
        u.read("hum", mod("HumiditySensor", "humidity"), num, "humidity")
        u.field("hex", lambda R: R.choice([0, 0, -3, 40]), lambda v: i.__setitem__("current_humidity_exception", v))
        u.read("humwarn", mod("HumiditySensor", "humidity_warning"), num, "humidity_warning")
    if "trv_states" in i:
        u.field("trv", lambda R: R.sample(range(1, 9), R.choice([0, 1, 1, 1, 2, 3])), lambda v: i.__setitem__("trv_states", [TRV[x] for x in v]))
        u.field("frost", lambda R: int(R.random() < 0.25), lambda v: i.__setitem__("frost_protection_on", bool(v)))
        u.field("target", lambda R: R.choice([5000, 30000, 500 * R.randint(10, 60)]), lambda v: i.__setitem__("target_temp", v / 1000))
        u.field("toff", rng(-10, 0, 10), lambda v: i.__setitem__("temp_offset", v))
        u.field("lo", rng(4, 8), lambda v: i.__setitem__("min_control_temp", v))
        u.field("hi", rng(25, 35), lambda v: i.__setitem__("max_control_temp", v))
        T = "TemperatureControl"
        u.read("mode", mod(T, "mode"), lambda e: TRV.index(e.value), "thermostat_mode")
        u.read("heat", mod(T, "state"), num, "state")
        u.read("target", mod(T, "target_temperature"), milli, "target_temperature")
        u.read("toff", mod(T, "temperature_offset"), num, "temperature_offset")
        u.read("lo", mod(T, "minimum_target_temperature"))
        u.read("hi", lambda o: o.modules[T].allowed_temperature_range[1])
    if isinstance(d.get("get_trigger_logs"), dict) and "logs" in d["get_trigger_logs"] and "trigger_log" in comps:
        lg = d["get_trigger_logs"]

        def logs(v):
            lg["logs"] = [{"event": "motion", "eventId": f"e{n}", "id": 100 - n, "timestamp": t} for n, t in enumerate(v)]
            lg["sum"], lg["start_id"] = len(v), 100 if v else 0
        u.field("lts", lambda R: [R.randint(1600000000, 1700000000) for _ in range(R.choice([0, 1, 3, 5]))], logs)
        u.read("logs", lambda o: len(o.modules["TriggerLogs"].logs))
        u.read("firstlog", lambda o: (o.modules["TriggerLogs"].logs or [None])[0] and o.modules["TriggerLogs"].logs[0].timestamp)


def _feats(k):
    return ("temperature_warning",) if "current_temp_exception" in k.info else ()


def hub(R):
    cam = R.random() < 0.4
    names = R.sample(SENSORS, R.randint(1, 4))
    if R.random() < 0.5:
        names.append(names[0])      # two alike
    kids, lst, comps = {}, [], []
    for n, name in enumerate(names):
        kd = fakedev.fixture(name, "smart/child")
        did = f"8022{n}AB"
        kd["get_device_info"]["device_id"] = did
        kids[did] = kd
        lst.append(kd["get_device_info"])
        comps.append({"device_id": did, "component_list": kd["component_nego"]["component_list"]})
    us = []
    if cam:
        data = fakedev.fixture(R.choice(["H200(EU)_1.0_1.3.6", "H200(US)_1.0_1.3.6"]), "smartcam")
        kids = {i: fakedev.Smart(d) for i, d in kids.items()}
        bell = None
        if R.random() < 0.6:
            d = fakedev.fixture("D230(EU)_1.20_1.1.19", "smartcam/child")
            bell = d.pop("child_info_from_parent")
            bell.update(device_id="80BELL", category="camera")
            kids["80BELL"] = fakedev.Cam(d)
            lst.append(bell)
            comps.append({"device_id": "80BELL", "component_list": d["getAppComponentList"]["app_component"]["app_component_list"]})
        data["getChildDeviceList"] = {"child_device_list": lst, "start_index": 0, "sum": len(lst)}
        data["getChildDeviceComponentList"] = {"child_component_list": comps, "start_index": 0, "sum": len(lst)}
        st = fakedev.Cam(data, kids=kids)
        us.append(camera(Unit(R), st, None))
        if bell is not None:
            u = Unit(R)
            u.pick = lambda dev: next(c for c in dev.children if c.device_id == "80BELL")
            battery(u, bell)
            us.append(u)
        cls = SmartCamDevice
    else:
        data = fakedev.fixture(R.choice(["H100(EU)_1.0_1.5.5", "H100(EU)_1.0_1.2.3"]))
        data["child_devices"] = kids
        data["get_child_device_list"] = {"child_device_list": lst, "start_index": 0, "sum": len(lst)}
        data["get_child_device_component_list"] = {"child_component_list": comps, "start_index": 0, "sum": len(lst)}
        st = fakedev.Smart(data)
        u = Unit(R)
        device(u, st)
        if "in_alarm_source" in st.info and "get_alarm_configure" in data:
            u.field("alarm", boo, lambda v: st.info.__setitem__("in_alarm", bool(v)))
            u.read("alarm", mod("Alarm", "active"), num, "alarm")
            u.field("src", some(0.5, rng(1, 9)), lambda v: st.info.__setitem__("in_alarm_source", "" if v == NONE else f"src{v}"))
            u.read("src", mod("Alarm", "source"), text("src"), "alarm_source")
        us.append(u)
        cls = SmartDevice
    for i, k in st.kids.items():
        if isinstance(k, fakedev.Smart):
            u = Unit(R)
            u.pick = lambda dev, i=i: next(c for c in dev.children if c.device_id == i)
            sensor(u, k)
            us.append(u)
    return st, cls, us


# -- vacuums
KEYS = {"roll": ("roll_brush_time", "main_brush"), "edge": ("edge_brush_time", "side_brush"), "filter": ("filter_time", "filter"),
        "sensor": ("sensor_time", "sensor"), "contact": ("charge_contact_time", "charging_contacts")}


def vacuum(R):
    st = fakedev.Smart(fakedev.fixture(R.choice(["RV20 Max Plus(EU)_1.0_1.0.7", "RV30 Max(US)_1.0_1.2.0"])))
    d = st.data
    d.setdefault("get_connect_cloud_state", {"status": 0})
    u = Unit(R)
    device(u, st)
    vs, ci = d["getVacStatus"], d["getCleanInfo"]
    code = lambda R: R.choice([0, 2, 3, 4, 6, 7, 14, 15, 16, 21, 22, 99, 99, 99, 99, 99])  # noqa: E731
    u.field("errs", lambda R: [code(R) for _ in range(R.choice([0, 1, 1, 1, 2, 3]))] if R.random() < 0.6 else [0], lambda v: vs.__setitem__("err_status", list(v)))
    u.field("st", lambda R: R.choice([0, 1, 2, 4, 5, 6, 7, 8, 3, 9]), lambda v: vs.__setitem__("status", v))
    C = "Clean"
    u.read("error", mod(C, "error"), num, "vacuum_error")
    u.read("status", mod(C, "status"), num, "vacuum_status")
    u.field("bat", rng(0, 100), lambda v: d["getBatteryInfo"].__setitem__("battery_percentage", v))
    u.read("bat", mod(C, "battery"), num, "battery_level")
    for k, key, norm, feat in (("area", "clean_area", num, "clean_area"), ("ctime", "clean_time", mins, "clean_time"), ("prog", "clean_percent", num, "clean_progress")):
        u.field(k, rng(0, 100), lambda v, key=key: ci.__setitem__(key, v))
        u.read(k, mod(C, feat), norm, feat)
    u.field("aunit", rng(0, 2), lambda v: d["getAreaUnit"].__setitem__("area_unit", v))
    u.read("aunit", mod(C, "area_unit"))
    a = d["getCleanAttr"]
    u.field("fan", rng(1, 5), lambda v: a.__setitem__("suction", v))
    u.read("fan", mod(C, "fan_speed_preset"), choice("", "Quiet", "Standard", "Turbo", "Max", "Ultra"), "vacuum_fan_speed")
    u.field("count", rng(1, 3), lambda v: a.__setitem__("clean_number", v))
    u.read("count", mod(C, "clean_count"), num, "clean_count")
    u.field("boost", boo, lambda v: d["getCarpetClean"].__setitem__("carpet_clean_prefer", "boost" if v else "normal"))
    u.read("boost", mod(C, "carpet_boost"), num, "carpet_boost")
    u.field("vol", rng(0, 100), lambda v: d["getVolume"].__setitem__("volume", v))
    u.read("vol", mod("Speaker", "volume"), num, "volume")
    if isinstance(d.get("getMopState"), dict) and "mop" in st.comps:
        u.field("mop", boo, lambda v: d["getMopState"].__setitem__("mop_state", bool(v)))
        u.read("mop", mod("Mop", "mop_attached"), num, "mop_attached")
        u.field("water", rng(0, 3), lambda v: a.__setitem__("cistern", v))
        u.read("water", mod("Mop", "waterlevel"), choice("Disable", "Low", "Medium", "High"), "mop_waterlevel")
    if isinstance(d.get("getDustCollectionInfo"), dict) and "dust_bucket" in st.comps:
        b = d["getDustCollectionInfo"]
        u.field("auto", boo, lambda v: b.__setitem__("auto_dust_collection", bool(v)))
        u.field("bin", rng(0, 3), lambda v: b.__setitem__("dust_collection_mode", v))
        u.read("auto", mod("Dustbin", "auto_collection"), num, "dustbin_autocollection_enabled")
        u.read("binmode", mod("Dustbin", "mode"), lambda x: {"Smart": 0, "Light": 1, "Balanced": 2, "Max": 3, "Off": -1000}[x], "dustbin_mode")
    r = d["getCleanRecords"]
    u.field("rtime", rng(0, 99999), lambda v: r.__setitem__("total_time", v))
    u.field("rarea1", rng(0, 99999), lambda v: r.__setitem__("total_area", v))
    u.field("rcount", rng(0, 999), lambda v: r.__setitem__("total_number", v))
    u.field("lrec", lambda R: [R.randint(1600000000, 1700000000), R.randint(0, 300), R.randint(0, 200), boo(R)], lambda v: r.__setitem__("lastest_day_record", list(v)))
    u.field("rts", lambda R: [R.randint(1, 1000000) for _ in range(R.choice([0, 1, 4]))])
    u.field("rarea", lambda R: [])

    def recs(_):
        while len(u.f["rarea"]) < len(u.f["rts"]):
            u.f["rarea"] = u.f["rarea"] + [R.randint(0, 200)]
        u.f["rarea"] = u.f["rarea"][:len(u.f["rts"])]
        r["record_list"] = [{"clean_area": x, "clean_time": 3, "dust_collection": False, "error": 0, "info_num": 0, "map_id": 1, "message": 0, "record_index": n,
                             "start_type": 1, "task_type": 0, "timestamp": t} for n, (t, x) in enumerate(zip(u.f["rts"], u.f["rarea"]))]
    u.puts.append(("rts", recs))
    N = "CleanRecords"
    u.read("rtime", mod(N, "total_clean_time"), mins, "total_clean_time")
    u.read("rarea1", mod(N, "total_clean_area"), num, "total_clean_area")
    u.read("rcount", mod(N, "total_clean_count"), num, "total_clean_count")
    u.read("lastat", mod(N, "last_clean_timestamp"), when, "last_clean_timestamp")
    u.read("lasttime", mod(N, "last_clean_time"), mins, "last_clean_time")
    u.read("lastarea", mod(N, "last_clean_area"), num, "last_clean_area")
    u.read("recs", lambda o: len(o.modules[N].parsed_data.records))
    u.read("recsum", lambda o: (lambda x: int(x[0].timestamp.timestamp()) + x[-1].clean_area if x else None)(o.modules[N].parsed_data.records))
    c = d["getConsumablesInfo"]
    for q, (key, cid) in KEYS.items():
        if key not in c:
            continue
        u.field(q, rng(0, 1, 30000), lambda v, key=key: c.__setitem__(key, v))
        u.read(q, lambda o, cid=cid: o.modules["Consumables"].consumables[cid].used, mins, f"{cid}_used")
        u.read(q + "left", lambda o, cid=cid: o.modules["Consumables"].consumables[cid].remaining, mins, f"{cid}_remaining")
    return st, SmartDevice, [u]


# -- cameras
def battery(u, i):
    u.field("bat", rng(0, 100), lambda v: i.__setitem__("battery_percent", v))
    u.read("bat", mod("Battery", "battery_percent"), num, "battery_level")
    u.field("lowb", boo, lambda v: i.__setitem__("low_battery", bool(v)))
    u.read("lowb", mod("Battery", "battery_low"), num, "battery_low")
    u.field("chg", boo, lambda v: i.__setitem__("battery_charging", "YES" if v else "NO"))
    u.read("charging", mod("Battery", "battery_charging"), num, "battery_charging")
    if u.R.random() < 0.5:
        u.field("btemp", rng(-20, 0, 60), lambda v: i.__setitem__("battery_temperature", v))
        u.read("btemp", mod("Battery", "battery_temperature"), num, "battery_temperature")
        u.field("bvolt", rng(0, 3333, 8400), lambda v: i.__setitem__("battery_voltage", v))
        u.read("bvolt", mod("Battery", "battery_voltage"), milli, "battery_voltage")


def camera(u, st, batt):
    d, i = st.data, st.info
    u.field("alias", rng(1, 999), lambda v: i.__setitem__("device_alias", NAME + str(v)))
    u.read("alias", lambda o: o.alias, text(NAME))
    cs, tz = d["getClockStatus"]["system"]["clock_status"], d["getTimezone"]["system"]["basic"]
    u.field("ts", rng(0, 1700000000, 2000000000), lambda v: cs.__setitem__("seconds_from_1970", v))
    u.read("ts", lambda o: o.time, when, "device_time")
    u.field("zone", rng(0, 5), lambda v: tz.__setitem__("zone_id", ZONES[v - 1] if v else "Nowhere/At_All"))
    u.field("td", lambda R: R.choice([0, 60, -300, 345]), lambda v: tz.__setitem__("timezone", f"UTC{'-' if v < 0 else '+'}{abs(v) // 60:02d}:{abs(v) % 60:02d}"))
    u.read("tz", lambda o: o.modules[Module.Time].timezone if u.R.random() < 0.5 and Module.Time in o.modules else o.timezone, off)
    ct = d["getConnectionType"]
    if "rssiValue" in ct:
        u.field("crssi", rng(-99, -1), lambda v: ct.__setitem__("rssiValue", v))
        u.read("crssi", lambda o: o.rssi, num, "rssi")
        u.field("sig", rng(0, 4), lambda v: ct.__setitem__("rssi", str(v)))
        u.read("sig", lambda o: o.features["signal_level"].value, lambda x: int(x))
    lm = d.get("getLensMaskConfig")
    if isinstance(lm, dict) and "lens_mask" in lm:
        u.field("on", boo, lambda v: lm["lens_mask"]["lens_mask_info"].__setitem__("enabled", "off" if v else "on"))
        u.read("on", lambda o: o.is_on, num, "state")
    return u


def cam(R):
    st = fakedev.Cam(fakedev.fixture(R.choice(["C110(EU)_2.0_1.4.3", "C210(EU)_2.0_1.4.3", "C225(US)_2.0_1.0.11", "C520WS(US)_1.0_1.2.8", "C720(US)_1.0_1.2.3"]), "smartcam"))
    return st, SmartCamDevice, [camera(Unit(R), st, None)]


# -- legacy devices
IOTE = ["HS110(EU)_1.0_1.2.5", "HS110(EU)_4.0_1.0.4", "HS110(US)_1.0_1.2.6", "KP115(EU)_1.0_1.0.16", "KP125(US)_1.0_1.0.6"]
IOTP = ["HS100(UK)_1.0_1.2.6", "HS100(UK)_4.1_1.1.0", "HS103(US)_2.1_1.1.4", "EP10(US)_1.0_1.0.2"]
IOTB = ["KL110(US)_1.0_1.8.11", "KL130(EU)_1.0_1.8.8", "KL125(US)_4.0_1.0.5", "KL50(US)_1.0_1.1.13", "LB110(US)_1.0_1.8.11"]


def legacy(R):
    kind = R.choice(["e", "e", "p", "b", "m"])
    name = R.choice({"e": IOTE, "p": IOTP, "b": IOTB, "m": ["ES20M(US)_1.0_1.0.8", "ES20M(US)_1.0_1.0.11"]}[kind])
    data = fakedev.fixture(name, "iot")
    st = fakedev.Iot(data)
    s = st.sys
    bulb = kind == "b"
    cls = {"e": IotPlug, "p": IotPlug, "b": IotBulb, "m": IotDimmer}[kind]
    u = Unit(R)
    u.field("alias", rng(1, 999), lambda v: s.__setitem__("alias", NAME + str(v)))
    u.read("alias", lambda o: o.alias, text(NAME))
    if "mac" in s:
        u.field("mac", rng(0, 255), lambda v: s.__setitem__("mac", f"A8:6E:84:00:1F:{v:02X}"))
    else:
        u.field("mac", rng(0, 255), lambda v: s.__setitem__("mic_mac", f"A86E84001F{v:02X}"))
    u.read("mac", lambda o: o.mac, mac)
    u.field("lrssi", some(0.9, rng(-90, -1)), lambda v: put(s, "rssi", v))
    u.read("lrssi", lambda o: o.rssi)
    has = "i" if "latitude_i" in s else "f" if "latitude" in s else ""
    for k, full in (("llat", "latitude"), ("llon", "longitude")):
        if has == "i":
            u.field(k, rng(-1800000, 0, 1800000), lambda v, full=full: s.__setitem__(full + "_i", v))
        elif has == "f":
            u.field(k, rng(-1800000, 0, 1800000), lambda v, full=full: s.__setitem__(full, v / 10000))
        else:
            u.field(k, lambda R: NONE)
        u.read(k, lambda o, full=full: o.location[full], permyriad)
    tm = data["smartlife.iot.common.timesetting" if bulb else "time"]
    u.field("zone", lambda R: R.choice(list(ZIDX)), lambda v: tm.__setitem__("get_timezone", {"index": ZIDX[v], "err_code": 0}))
    u.field("td", lambda R: 0)

    def clock(v):
        t = datetime.fromtimestamp(v, UTC) + timedelta(minutes=[0, 540, 330, 345, 600, -420][u.f["zone"]])
        tm["get_time"] = {"year": t.year, "month": t.month, "mday": t.day, "hour": t.hour, "min": t.minute, "sec": t.second, "err_code": 0}
    u.field("ts", rng(1000000000, 1700000000, 2000000000), clock)
    u.read("ts", lambda o: o.time, when)
    u.read("tz", lambda o: o.modules[Module.Time].timezone if u.R.random() < 0.5 and Module.Time in o.modules else o.timezone, off)
    cl = data["smartlife.iot.common.cloud" if bulb else "cnCloud"]
    if isinstance(cl.get("get_info"), dict) and "cld_connection" in cl["get_info"]:
        u.field("cld", boo, lambda v: cl["get_info"].__setitem__("cld_connection", v))
        u.read("cld", lambda o: o.features["cloud_connection"].value)
    # statistics: several entries for one day can occur, the last one counts
    now = datetime.now()
    u.field("day", lambda R: now.day)
    u.field("mon", lambda R: now.month)

    def table(keys, vals, cont, cmd, lst, key, val, top, cur):
        u.field(keys, lambda R: [R.choice([cur, R.randint(1, top)]) for _ in range(R.choice([0, 1, 3, 6]))])
        u.field(vals, lambda R: [])

        def p(_):
            u.f[vals] = [R.randint(0, 5000) for _ in u.f[keys]]
            old = {"year": now.year, "month": now.month}
            if key == "month":
                del old["month"]
            cont[cmd] = {lst: [{**old, key: k, **val(v)} for k, v in zip(u.f[keys], u.f[vals])], "err_code": 0}
        u.puts.append((keys, p))
    em = data.get("smartlife.iot.common.emeter" if bulb else "emeter")
    if isinstance(em, dict) and isinstance(em.get("get_realtime"), dict) and kind in "eb":
        rt = em["get_realtime"]
        old = "power" in rt
        for f, new, o, q, a in (("lpm", "power_mw", "power", "lpower", "current_consumption"), ("lmv", "voltage_mv", "voltage", "lvolt", "voltage"),
                                ("lma", "current_ma", "current", "lcur", "current"), ("lwh", "total_wh", "total", "ltotal", "consumption_total")):
            key = o if old else new
            if key in rt:
                u.field(f, rng(0, 1, 999, 3680000), lambda v, key=key: rt.__setitem__(key, v / 1000 if old else v))
            else:
                u.field(f, lambda R: NONE)
            u.read(f, mod(Module.Energy, a), milli)
            u.read(f + "s", lambda o_, o=o: getattr(o_.modules[Module.Energy].status, o), milli)
        wh = (lambda v: {"energy": v / 1000}) if old else (lambda v: {"energy_wh": v})
        table("dk", "dv", em, "get_daystat", "day_list", "day", wh, 28, now.day)
        table("mk", "mvs", em, "get_monthstat", "month_list", "month", wh, 12, now.month)
        E = Module.Energy
        for kwh, nm in ((True, "kwh"), (False, "wh")):
            u.ask("day" + nm, lambda o, kwh=kwh: o.modules[E].get_daily_stats(year=now.year, month=now.month, kwh=kwh), (lambda x: milli(x)) if kwh else (lambda x: milli(x, 1)))
            u.ask("mon" + nm, lambda o, kwh=kwh: o.modules[E].get_monthly_stats(year=now.year, kwh=kwh), (lambda x: milli(x)) if kwh else (lambda x: milli(x, 1)))

        async def realtime(o):
            return (await o.modules[E].get_status()).power
        u.ask("lpms", realtime, milli)
        u.read("today", mod(Module.Energy, "consumption_today"), milli, "consumption_today")
        u.read("month", mod(Module.Energy, "consumption_this_month"), milli, "consumption_this_month")
    sch = data["smartlife.iot.common.schedule" if bulb else "schedule"]
    table("uk", "uv", sch, "get_daystat", "day_list", "day", lambda v: {"time": v}, 28, now.day)
    table("umk", "umv", sch, "get_monthstat", "month_list", "month", lambda v: {"time": v}, 12, now.month)
    u.ask("dayuse", lambda o: o.modules["usage"].get_daystat(year=now.year, month=now.month))
    u.ask("monuse", lambda o: o.modules["usage"].get_monthstat(year=now.year))
    u.read("usetoday", mod("usage", "usage_today"))
    u.read("usemonth", mod("usage", "usage_this_month"))
    if kind == "m":
        pir, las = data["smartlife.iot.PIR"], data["smartlife.iot.LAS"]
        cfg = pir["get_config"]
        u.field("pmin", lambda R: 0, lambda v: cfg.__setitem__("min_adc", v))
        u.field("pmax", rng(100, 4095), lambda v: cfg.__setitem__("max_adc", v))
        u.field("adc", rng(0, 2047, 4095), lambda v: pir["get_adc_value"].__setitem__("value", v))
        u.field("pen", boo, lambda v: cfg.__setitem__("enable", v))
        u.field("pidx", rng(0, 3), lambda v: cfg.__setitem__("trigger_index", v))
        u.field("thr", lambda R: [R.choice([80, 50, 20, 0, 100, R.randint(0, 100)]) for _ in range(4)], lambda v: cfg.__setitem__("array", list(v)))
        M = Module.IotMotion
        u.read("pen", mod(M, "enabled"), num, "pir_enabled")
        u.read("pmax", mod(M, "adc_max"), num, "pir_adc_max")
        u.read("adc", mod(M, "adc_value"), num, "pir_adc_value")
        u.read("pirmid", mod(M, "adc_mid"), num, "pir_adc_mid")
        u.read("pirvalue", mod(M, "pir_value"), num, "pir_value")
        u.read("pirpercent", mod(M, "pir_percent"), near, "pir_percent")
        u.read("pirtrig", mod(M, "pir_triggered"), num, "pir_triggered")
        u.read("pidx", mod(M, "range"), num)
        u.read("thridx", lambda o: o.modules[M].threshold, num, "pir_threshold")
        u.field("lasb", rng(0, 100), lambda v: las["get_current_brt"].__setitem__("value", v))
        u.read("lasb", mod(Module.IotAmbientLight, "ambientlight_brightness"), num, "ambient_light")
        u.field("lasen", boo, lambda v: las["get_config"]["devs"][0].__setitem__("enable", v))
        u.read("lasen", mod(Module.IotAmbientLight, "enabled"), num, "ambient_light_enabled")
    return st, cls, [u]


KINDS = {"plug": plug, "strip": strip, "hub": hub, "vacuum": vacuum, "cam": cam, "legacy": legacy}


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    now = datetime.now()
    day = now.date()

    def log(e, **kw):
        ev.append({"e": e, **kw})

    roots = [KINDS[script["kind"]](R) for _ in range(2)]
    base, n = [], 0
    for _, _, us in roots:
        base.append(n)
        n += len(us)
    lose = [None, None]

    async def main():
        devs = []
        for x, (st, cls, us) in enumerate(roots):
            def plan(k, r, x=x):
                if lose[x] is None:
                    return None
                lose[x] -= 1
                return "lost" if lose[x] < 0 else None
            devs.append(cls("127.0.0.1", protocol=st.wire(plan)))
            for i, u in enumerate(us):
                u.change()
                log("change", d=base[x] + i + 1, r=copy.deepcopy(u.f))
        first = [True, True]

        async def poll(x, fail):
            us = roots[x][2]
            long = first[x] or R.random() < 0.4
            if long and not first[x]:
                await vt.asyncio.sleep(90001)
            if fail:
                lose[x] = R.choice([0, 0, 1, 2])
            try:
                await devs[x].update()
                e = "poll"
            except KasaException:
                e = "fail"
            if fail and lose[x] is not None and lose[x] < 0:
                e = "fail"      # answers were lost, but the update went on
            lose[x] = None
            for i in range(len(us)):
                if e == "poll":
                    log("poll", d=base[x] + i + 1, long=long)
                else:
                    log("fail", d=base[x] + i + 1, lib=fail)
            first[x] = False

        for s in script["steps"]:
            x = s["d"] - 1
            us = roots[x][2]
            if s["a"] == "change":
                for i, u in enumerate(us):
                    if R.random() < 0.7:
                        u.change()
                        log("change", d=base[x] + i + 1, r=copy.deepcopy(u.f))
            elif s["a"] in ("poll", "long"):
                if s["a"] == "long" and not first[x]:
                    await vt.asyncio.sleep(90001)
                await poll(x, False)
            elif s["a"] == "fail":
                await poll(x, True)
            elif s["a"] == "read":
                for i, u in enumerate(us):
                    qs = list(u.reads)
                    for q in R.sample(qs, min(len(qs), R.choice([3, 8, 40]))):
                        log("read", d=base[x] + i + 1, q=q, v=u.told(devs[x], q))
                    if u.asks and not first[x]:
                        for q in R.sample(list(u.asks), min(len(u.asks), 3)):
                            k = R.choice([now.day, now.month, R.randint(1, 12)]) if q[-3:] in ("kwh", "use") or q.endswith("wh") else 0
                            log("ask", d=base[x] + i + 1, q=q, k=k, v=await u.asked(devs[x], q, k))

    try:
        vt.run(main, vtime=10000000, iterations=2000000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-900:])
    if datetime.now().date() != day:
        ev = []
    return {"n": n, "ev": ev}
