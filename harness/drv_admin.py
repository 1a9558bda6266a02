"""Driver: administration of devices (C28)."""
from __future__ import annotations

import base64
import copy
import json
import random
from datetime import UTC, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import vt
import fakedev

from kasa import KasaException, Module
from kasa.iot import IotBulb, IotDimmer, IotPlug, IotStrip, IotWallSwitch
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

WRONG = -77777777
# zones that legacy devices know, in their order
LEGACY = """
Etc/GMT+12 Pacific/Samoa US/Hawaii US/Alaska Mexico/BajaNorte Etc/GMT+8 PST8PDT US/Arizona America/Mazatlan MST MST7MDT Mexico/General Etc/GMT+6
CST6CDT America/Monterrey Canada/Saskatchewan America/Bogota Etc/GMT+5 EST America/Indiana/Indianapolis America/Caracas America/Asuncion Etc/GMT+4
Canada/Atlantic America/Cuiaba Brazil/West America/Santiago Canada/Newfoundland America/Sao_Paulo America/Argentina/Buenos_Aires America/Cayenne
America/Miquelon America/Montevideo Chile/Continental Etc/GMT+2 Atlantic/Azores Atlantic/Cape_Verde Africa/Casablanca UCT GB Africa/Monrovia
Europe/Amsterdam Europe/Belgrade Europe/Brussels Europe/Sarajevo Africa/Lagos Africa/Windhoek Asia/Amman Europe/Athens Asia/Beirut Africa/Cairo
Asia/Damascus EET Africa/Harare Europe/Helsinki Asia/Istanbul Asia/Jerusalem Europe/Kaliningrad Africa/Tripoli Asia/Baghdad Asia/Kuwait Europe/Minsk
Europe/Moscow Africa/Nairobi Asia/Tehran Asia/Muscat Asia/Baku Europe/Samara Indian/Mauritius Asia/Tbilisi Asia/Yerevan Asia/Kabul Asia/Ashgabat
Asia/Yekaterinburg Asia/Karachi Asia/Kolkata Asia/Colombo Asia/Kathmandu Asia/Almaty Asia/Dhaka Asia/Novosibirsk Asia/Rangoon Asia/Bangkok
Asia/Krasnoyarsk Asia/Chongqing Asia/Irkutsk Asia/Singapore Australia/Perth Asia/Taipei Asia/Ulaanbaatar Asia/Tokyo Asia/Seoul Asia/Yakutsk
Australia/Adelaide Australia/Darwin Australia/Brisbane Australia/Canberra Pacific/Guam Australia/Hobart Antarctica/DumontDUrville Asia/Magadan
Asia/Srednekolymsk Etc/GMT-11 Asia/Anadyr Pacific/Auckland Etc/GMT-12 Pacific/Fiji Etc/GMT-13 Pacific/Apia Etc/GMT-14
""".split()
ZONES = [ZoneInfo("Asia/Tokyo"), ZoneInfo("Asia/Kolkata"), ZoneInfo("America/Phoenix"), ZoneInfo("Europe/Amsterdam"), ZoneInfo("Australia/Sydney"),
         timezone(timedelta(minutes=345)), timezone(timedelta(minutes=20)), ZoneInfo("Pacific/Marquesas"), ZoneInfo("Pacific/Chatham"), UTC,
         ZoneInfo("America/New_York"), ZoneInfo("Pacific/Kanton")]
START = [0, 1, 2, 3, 4, 10]     # where devices are at first
NAME, SSID, PW, USER = "Küche ☕ ", "net é ", "pä'ss\"\\ ", "user+é@"
KEYS = ["none", "wep", "wpa_psk", "wpa2_psk", "wpa3_psk"]


def offs(z):
    """Winter and summer offset of a zone in minutes."""
    return [int(z.utcoffset(datetime(2026, m, 15, 12)).total_seconds()) // 60 for m in (1, 7)]


def b64(s):
    return base64.b64encode(s.encode()).decode()


def unb64(s):
    return base64.b64decode(s).decode()


def unpre(prefix, s):
    return int(s[len(prefix):]) if isinstance(s, str) and s.startswith(prefix) and s[len(prefix):].isdigit() else WRONG


def summer(inst):
    return int(datetime.fromtimestamp(inst, UTC).month in (6, 7, 8))


class Smart(fakedev.Smart):
    def setup(self, R):
        for k in self.kids.values():
            k.__class__ = Smart
        self.net, self.acc, self.boots, self.resets, self.nets, self.writes, self.off = [0, 0, 0], [1, 1], [], 0, [], 0, False
        self.info.setdefault("nickname", "")

    def handle(self, m, p):
        if getattr(self, "do_" + m, None) and self.root().off:
            self.root().log.append(m)
            return -1008, None
        err, res = super().handle(m, p)
        if getattr(self, "do_" + m, None) and err == 0 and m != "get_wireless_scan_info":
            self.root().writes += 1
        return err, res

    def do_get_wireless_scan_info(self, p):
        s = (p or {}).get("start_index", 0)
        lst = [{"bssid": f"0000{n}", "channel": 0, "cipher_type": 2, "key_type": "wpa2_psk", "signal_level": n % 4, "ssid": b64(SSID + str(n))} for n in self.nets]
        return 0, {"ap_list": lst[s:s + 10], "start_index": s, "sum": len(lst), "wep_supported": False}

    def do_set_device_time(self, p):
        if set(p) - {"timestamp", "time_diff", "region"} or type(p.get("timestamp")) is not int or type(p.get("time_diff")) is not int:
            return -1008
        self.data["get_device_time"].update(p)

    def do_set_qs_info(self, p):
        if not isinstance(p.get("time"), dict) or "timestamp" not in p["time"] or set(p) - {"account", "time", "wireless"}:
            return -1008
        self.acc = self.account(p["account"])
        if "wireless" in p:
            w = p["wireless"]
            self.net = [unpre(SSID, unb64(w["ssid"])), unpre(PW, unb64(w["password"])), KEYS.index(w["key_type"])]

    def account(self, a):
        u, p = unb64(a["username"]), unb64(a["password"])
        return [1, 1] if (u, p) == ("a", "b") else [unpre(USER, u), unpre(PW, p)]

    def do_device_reboot(self, p):
        self.boots.append(p["delay"])

    def do_device_reset(self, p):
        self.resets += 1

    # what it has
    def get(self):
        t = self.data["get_device_time"]
        try:
            zw, zs = offs(ZoneInfo(t["region"]))
        except Exception:
            zw = zs = int(t["time_diff"])
        return {"td": t["time_diff"], "inst": t["timestamp"], "su": summer(t["timestamp"]), "zw": zw, "zs": zs, "names": [unpre(NAME, unb64(x["nickname"])) for x in self.units()]}

    def units(self):
        return [self.info] + [k.info for k in self.kids.values() if "nickname" in k.info]

    def rename(self, n, v):
        self.units()[n]["nickname"] = b64(NAME + str(v))

    def clock(self, inst, z):
        self.data["get_device_time"] = {"timestamp": inst, "region": ZONES[z].key, "time_diff": offs(ZONES[z])[summer(inst)]}


MODS = ("schedule", "anti_theft")


class Iot(fakedev.Iot):
    def setup(self, R):
        self.net, self.boots, self.resets, self.nets, self.writes, self.off = [0, 0, 0], [], 0, [], 0, False
        self.b = "smartlife.iot.common.schedule" in self.data and "light_state" in self.sys
        self.time = "smartlife.iot.common.timesetting" if self.b else "time"
        self.old = R.random() < 0.5     # knows the "netif" commands
        self.rmods = []
        for m in MODS:
            full = "smartlife.iot.common." + m if self.b else m
            if isinstance(self.data.get(full), dict) and "get_rules" in self.data[full]:
                self.rmods.append(full)
                self.data[full]["get_next_action"] = {"type": -1, "err_code": 0}
        self.smods = [m for m in (("smartlife.iot.common.schedule", "smartlife.iot.common.emeter") if self.b else ("schedule", "emeter"))
                      if ("emeter" not in m or "children" not in self.sys and (self.b or "ENE" in self.sys.get("feature", ""))) and "get_daystat" in self.data.get(m, {})]
        self.stats = [3 for _ in self.smods]
        self.en = [1 for _ in self.rmods]

    def cmd(self, mod, c, a, ctx):
        if c in ("get_scaninfo", "set_stainfo") and mod != ("netif" if self.old else "smartlife.iot.common.softaponboarding"):
            return {"err_code": -1, "err_msg": "module not support"}
        if getattr(self, "do_" + c, None) and self.off:
            return {"err_code": -3, "err_msg": "invalid argument"}
        r = super().cmd(mod, c, a, ctx)
        if getattr(self, "do_" + c, None) and not r.get("err_code") and c != "get_scaninfo":
            self.writes += 1
        return r

    def do_get_scaninfo(self, mod, a, ctx):
        return {"ap_list": [{"ssid": SSID + str(n), "key_type": 3} for n in self.nets], "err_code": 0} if a == {"refresh": 1} else -3

    def do_set_stainfo(self, mod, a, ctx):
        self.net = [unpre(SSID, a["ssid"]), unpre(PW, a["password"]), a["key_type"]]

    def do_reboot(self, mod, a, ctx):
        if mod != "system":
            return -1
        self.boots.append(a["delay"])

    def do_reset(self, mod, a, ctx):
        if mod != "system":
            return -1
        self.resets += 1

    def do_delete_rule(self, mod, a, ctx):
        r = self.data[mod]["get_rules"]
        r["rule_list"] = [x for x in r["rule_list"] if x["id"] != a["id"]]

    def do_delete_all_rules(self, mod, a, ctx):
        self.data[mod]["get_rules"]["rule_list"] = []

    def do_set_overall_enable(self, mod, a, ctx):
        self.en[self.rmods.index(mod)] = int(a["enable"])

    def do_erase_runtime_stat(self, mod, a, ctx):
        self.stats[self.smods.index(mod)] = 0

    def do_erase_emeter_stat(self, mod, a, ctx):
        if "emeter" not in mod:
            return -1
        self.stats[self.smods.index(mod)] = 0

    def do_set_time(self, mod, a, ctx):
        if mod != self.time or set(a) != {"year", "month", "mday", "hour", "min", "sec"}:
            return -3
        super().do_set_time(mod, a, ctx)

    def do_set_timezone(self, mod, a, ctx):
        if mod != self.time or set(a) != {"year", "month", "mday", "hour", "min", "sec", "index"} or not 0 <= a["index"] < 110:
            return -3
        super().do_set_timezone(mod, a, ctx)

    def get(self):
        t, i = self.data[self.time]["get_time"], self.data[self.time]["get_timezone"]["index"]
        zw, zs = offs(ZoneInfo(LEGACY[i]))
        wall = int(datetime(t["year"], t["month"], t["mday"], t["hour"], t["min"], t["sec"], tzinfo=UTC).timestamp())
        su = summer(wall)
        rules = [[int(r["id"], 16) for r in self.data[m]["get_rules"]["rule_list"]] for m in self.rmods]
        return {"inst": wall - 60 * (zs if su else zw), "su": su, "zw": zw, "zs": zs, "names": [unpre(NAME, x["alias"]) for x in self.units()],
                "rules": rules, "en": list(self.en), "stats": list(self.stats)}

    def units(self):
        return [self.sys] + self.sys.get("children", [])

    def rename(self, n, v):
        self.units()[n]["alias"] = NAME + str(v)

    def clock(self, inst, z):
        i = {4: 96, 10: 19}.get(z)
        i = LEGACY.index({2: "US/Arizona"}.get(z) or ZONES[z].key) if i is None else i
        t = datetime.fromtimestamp(inst, UTC) + timedelta(minutes=offs(ZoneInfo(LEGACY[i]))[summer(inst)])
        self.data[self.time]["get_time"] = {"year": t.year, "month": t.month, "mday": t.day, "hour": t.hour, "min": t.minute, "sec": t.second, "err_code": 0}
        self.data[self.time]["get_timezone"] = {"index": i, "err_code": 0}


class Cam(fakedev.Cam):
    def setup(self, R):
        for k in self.kids.values():
            k.__class__ = Smart
        self.boots, self.resets, self.nets, self.writes, self.off = [], 0, [], 0, False

    def one(self, m, p):
        w = m.startswith(("set", "add", "remove", "start", "stop", "play"))
        if w and self.off:
            return {"error_code": -40105}
        r = super().one(m, p)
        if w and not r.get("error_code"):
            self.writes += 1
        return r

    def get(self):
        cs, tz = self.data["getClockStatus"]["system"]["clock_status"], self.data["getTimezone"]["system"]["basic"]
        zw, zs = offs(ZoneInfo(tz["zone_id"]))
        t = cs["seconds_from_1970"]
        return {"inst": t if type(t) is int else WRONG, "su": summer(t), "zw": zw, "zs": zs,
                "names": [unpre(NAME, self.info["device_alias"])] + [unpre(NAME, unb64(k.info["nickname"])) for k in self.kids.values()]}

    def rename(self, n, v):
        if n == 0:
            self.info["device_alias"] = NAME + str(v)
        else:
            list(self.kids.values())[n - 1].info["nickname"] = b64(NAME + str(v))

    def units(self):
        return [self.info] + list(self.kids)

    def clock(self, inst, z):
        self.data["getClockStatus"]["system"]["clock_status"]["seconds_from_1970"] = inst
        self.data["getTimezone"]["system"]["basic"]["zone_id"] = ZONES[z].key


def smart(R):
    name = R.choice(["P100(US)_1.0.0_1.4.0", "L530E(EU)_3.0_1.1.6", "P110(EU)_1.0_1.0.7", "S500D(US)_1.0_1.0.5", "P304M(UK)_1.0_1.0.3", "P210M(US)_1.0_1.0.3",
                     "RV20 Max Plus(EU)_1.0_1.0.7", "H100(EU)_1.0_1.5.5"])
    st = Smart(fakedev.fixture(name))
    st.data.setdefault("get_connect_cloud_state", {"status": 0})
    return st, SmartDevice


def iot(R):
    name, cls = R.choice([("HS110(EU)_4.0_1.0.4", IotPlug), ("HS100(UK)_1.0_1.2.6", IotPlug), ("KP115(EU)_1.0_1.0.16", IotPlug), ("KL130(EU)_1.0_1.8.8", IotBulb),
                          ("KL110(US)_1.0_1.8.11", IotBulb), ("HS220(US)_2.0_1.0.3", IotDimmer), ("KP303(US)_2.0_1.0.3", IotStrip), ("HS107(US)_1.0_1.0.8", IotStrip),
                          ("HS200(US)_2.0_1.5.7", IotWallSwitch)])
    return Iot(fakedev.fixture(name, "iot")), cls


def cam(R):
    if R.random() < 0.6:
        return Cam(fakedev.fixture(R.choice(["C110(EU)_2.0_1.4.3", "C210(EU)_2.0_1.4.3", "C225(US)_2.0_1.0.11", "C720(US)_1.0_1.2.3"]), "smartcam")), SmartCamDevice
    data = fakedev.fixture("H200(EU)_1.0_1.3.6", "smartcam")
    kids, lst, comps = {}, [], []
    for n, name in enumerate(["T110(EU)_1.0_1.9.0", "T110(EU)_1.0_1.9.0", "T310(EU)_1.0_1.5.0"]):
        kd = fakedev.fixture(name, "smart/child")
        did = f"8022{n}AB"
        kd["get_device_info"]["device_id"] = did
        kids[did] = Smart(kd)
        lst.append(kd["get_device_info"])
        comps.append({"device_id": did, "component_list": kd["component_nego"]["component_list"]})
    data["getChildDeviceList"] = {"child_device_list": lst, "start_index": 0, "sum": len(lst)}
    data["getChildDeviceComponentList"] = {"child_component_list": comps, "start_index": 0, "sum": len(lst)}
    return Cam(data, kids=kids), SmartCamDevice


A0 = {"u": 1, "x": 0, "y": 0, "k": 0, "z": 1, "i": 0, "su": 0}
RMODS = {"schedule": Module.IotSchedule, "anti_theft": Module.IotAntitheft}


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    kind = script["kind"]

    def log(e, **kw):
        ev.append({"e": e, **kw})

    st, cls = {"smart": smart, "iot": iot, "cam": cam}[kind](R)
    st.setup(R)

    def instant():
        su = R.randrange(2)
        return int(datetime(R.randint(2010, 2035), 7 if su else 1, R.randint(3, 28), R.randrange(24), R.randrange(60), R.randrange(60), tzinfo=UTC).timestamp()), su

    def rule(n):
        return {**fakedev.RULE, "id": f"{n:032X}", "name": f"r{n}"}

    def change(p):
        for n in range(len(st.units())):
            if R.random() < p:
                st.rename(n, R.randint(1, 99))
        if R.random() < p:
            st.clock(instant()[0], R.choice(START))
        if R.random() < p:
            st.nets = R.sample(range(1, 90), R.choice([0, 1, 5, 10, 11, 25]))
        for m in getattr(st, "rmods", ()):
            if R.random() < p:
                st.data[m]["get_rules"]["rule_list"] = [rule(n) for n in R.sample(range(1, 9), R.randint(0, 4))]
            st.en[st.rmods.index(m)] = R.randrange(2)
        for n in range(len(getattr(st, "stats", ()))):
            if R.random() < p:
                st.stats[n] = R.randint(1, 9)

    def state():
        s = {"td": 0, "net": [0, 0, 0], "acc": [1, 1], "boots": st.boots, "resets": st.resets, "rules": [], "en": [], "stats": [], "nets": st.nets, "writes": st.writes}
        for k in ("net", "acc"):
            if hasattr(st, k):
                s[k] = getattr(st, k)
        return copy.deepcopy({**s, **st.get()})

    change(2)
    hdr = {"kind": kind, "st": state()}
    deaf = [False]

    def plan(n, req):
        return "lost-after" if deaf[0] and ("set_" in req or "device_re" in req) else None

    async def main():
        dev = cls("127.0.0.1", protocol=st.wire(plan))
        dirty = [True]

        def unit(n):
            if n == 0:
                return dev
            if kind == "smart":
                did = [i for i, k in st.kids.items() if "nickname" in k.info][n - 1]
            elif kind == "cam":
                did = list(st.kids)[n - 1]
            else:
                return dev.children[n - 1]
            return next(c for c in dev.children if c.device_id == did)

        def rules(n):
            return dev.modules[RMODS[st.rmods[n].removeprefix("smartlife.iot.common.")]]

        def tell():
            t = R.choice([lambda: dev.time, lambda: dev.modules[Module.Time].time])()
            z = R.choice([lambda: dev.timezone, lambda: dev.modules[Module.Time].timezone])()
            log("tell", v={"names": [unpre(NAME, unit(n).alias) for n in range(len(st.units()))], "inst": int(t.timestamp()),
                           "off": int(t.astimezone(z).utcoffset().total_seconds()) // 60 if t.utcoffset() == t.astimezone(z).utcoffset() else WRONG,
                           "rules": [[int(r.id, 16) if r.name == f"r{int(r.id, 16)}" else WRONG for r in rules(n).rules] for n in range(len(getattr(st, "rmods", ())))]})

        async def update():
            await dev.update()
            dirty[0] = False
            log("update")
            tell()

        async def cmd(c):
            a = dict(A0)
            if c in ("clock", "nclock") and dirty[0] and (c == "nclock" or kind == "iot"):
                await update()
            if c == "name":
                n = R.randrange(len(st.units()))
                a.update(u=n + 1, x=R.randint(1, 99))
                go = lambda: unit(n).set_alias(NAME + str(a["x"]))  # noqa: E731
            elif c == "clock":
                z = R.randrange(len(ZONES))
                i, su = instant()
                a.update(z=z + 1, i=i, su=su)
                dt = datetime.fromtimestamp(i, ZONES[z])
                go = lambda: dev.modules[Module.Time].set_time(dt)  # noqa: E731
            elif c == "nclock":
                i, su = instant()
                a.update(i=i, su=su)
                dt = datetime.fromtimestamp(i, UTC).replace(tzinfo=None)
                go = lambda: dev.modules[Module.Time].set_time(dt)  # noqa: E731
            elif c == "join":
                k = R.randrange(5)
                a.update(x=R.randint(1, 9), y=R.randint(1, 9), k=k)
                if k == 3 and R.random() < 0.5:
                    go = lambda: dev.wifi_join(SSID + str(a["x"]), PW + str(a["y"]))  # noqa: E731
                else:
                    go = lambda: dev.wifi_join(SSID + str(a["x"]), PW + str(a["y"]), KEYS[k] if kind == "smart" else str(k))  # noqa: E731
            elif c == "cred":
                a.update(x=R.randint(2, 9), y=R.randint(2, 9))
                go = lambda: dev.update_credentials(USER + str(a["x"]), PW + str(a["y"]))  # noqa: E731
            elif c == "reboot":
                x = R.choice([None, 0, 1, 2, 30])
                a.update(x=1 if x is None else x)
                go = (lambda: dev.reboot()) if x is None else (lambda: dev.reboot(x))
            elif c == "reset":
                go = lambda: dev.factory_reset()  # noqa: E731
            elif c in ("delrule", "delrules", "enable"):
                if not st.rmods:
                    return
                n = R.randrange(len(st.rmods))
                if c == "delrule":
                    rs = rules(n).rules
                    if not rs:
                        return
                    r = R.choice(rs)
                    a.update(u=n + 1, x=int(r.id, 16))
                    go = lambda: rules(n).delete_rule(r)  # noqa: E731
                elif c == "delrules":
                    a.update(u=n + 1)
                    go = lambda: rules(n).delete_all_rules()  # noqa: E731
                else:
                    a.update(u=n + 1, x=R.randrange(2))
                    go = lambda: rules(n).set_enabled(bool(a["x"]))  # noqa: E731
            elif c == "erase":
                if not st.smods:
                    return
                n = R.randrange(len(st.smods))
                m = dev.modules[Module.Energy if "emeter" in st.smods[n] else "usage"]
                a.update(u=n + 1)
                go = lambda: m.erase_stats()  # noqa: E731
            try:
                await go()
                res = "ok"
            except KasaException:
                res = "lib"
            except ValueError:
                res = "value"
            except Exception as ex:
                res = "weird " + repr(ex)
            dirty[0] = True
            log("cmd", c=c, a=a, res=res, st=state())

        await update()
        for s in script["steps"]:
            if s == "update":
                await update()
            elif s == "other":
                change(0.5)
                dirty[0] = True
                log("other", st=state())
            elif s in ("refuse", "heal"):
                st.off = s == "refuse"
                log("refuse", b=st.off)
            elif s in ("deaf", "hear"):
                deaf[0] = s == "deaf"
                log("deaf", b=deaf[0])
            elif s == "scan":
                try:
                    nets = await dev.wifi_scan()
                    log("scan", res="ok", nets=[unpre(SSID, n.ssid) for n in nets])
                except KasaException:
                    log("scan", res="lib", nets=[])
                dirty[0] = True
            else:
                await cmd(s)
            if R.random() < 0.2:
                tell()

    try:
        vt.run(main, vtime=1000000, iterations=2000000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-900:])
    return {**hdr, "ev": ev}
