"""Driver: the command line tool (C29)."""
from __future__ import annotations

import copy
import json
import logging
import random
import re
from datetime import UTC, datetime, timedelta
from zoneinfo import ZoneInfo

import vt
import fakedev
from drv_admin import KEYS, NAME, PW, SSID, USER, LEGACY, Iot, Smart, b64, offs, summer, unb64, unpre

from asyncclick.testing import CliRunner
from kasa import Credentials, Device, DeviceConfig, Discover
from kasa.exceptions import KasaException, TimeoutError as TimeoutError_
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.cli.main import cli
from kasa.iot import IotBulb, IotPlug, IotStrip
from kasa.smart import SmartDevice

NONUM, WRONG = -9999, -7777
ZONES = ["Asia/Tokyo", "Asia/Kolkata", "Europe/Amsterdam", "Australia/Sydney"]
FAMS = {"SMART.TAPOPLUG": 1, "SMART.KASAPLUG": 2, "SMART.TAPOBULB": 3, "SMART.IPCAMERA": 9}
ENCS = {"AES": 1, "KLAP": 2}
CIDS = {"main_brush": "roll_brush_time", "side_brush": "edge_brush_time", "filter": "filter_time", "sensor": "sensor_time", "charging_contacts": "charge_contact_time"}
TEXT = {"state": re.compile("Device state: (True|False)"), "getalias": re.compile("Alias: (.*)"), "getled": re.compile(r"LED(?: state| \(led\)): (True|False)"),
        "getbri": re.compile(r"Brightness(?: \(brightness\))?: (\d+)"), "gethsv": re.compile(r"hue=(\d+), saturation=(\d+), value=(\d+)")}
LIGHT = "smartlife.iot.smartbulb.lightingservice"


class CSmart(Smart):
    def setup(self, R):
        super().setup(R)
        for k in self.kids.values():
            k.__class__ = CSmart

    def do_resetConsumablesTime(self, p):
        for n in p["reset_list"]:
            if n + "_time" not in self.data["getConsumablesInfo"]:
                return -1008
            self.data["getConsumablesInfo"][n + "_time"] = 0


class CIot(Iot):
    def do_set_default_behavior(self, mod, a, ctx):
        if set(a) != {"soft_on", "hard_on"} or mod != LIGHT:
            return -3
        self.data[LIGHT]["get_default_behavior"] = {**copy.deepcopy(a), "err_code": 0}


class Wire(fakedev.Wire):
    open = False

    def __init__(self, dev, config):
        super().__init__(dev)
        self._host, self._config, self._credentials = config.host, config, config.credentials

    async def send(self, request):
        self.open = True
        return await super().send(request)

    async def close(self):
        self.open = False


def smart(name):
    st = CSmart(fakedev.fixture(name))
    st.data.setdefault("get_connect_cloud_state", {"status": 0})
    return st, SmartDevice


def make(kind, R):
    if kind == "plug":
        return smart(R.choice(["P110(EU)_1.0_1.0.7", "P100(US)_1.0.0_1.4.0"]))
    if kind == "strip":
        return smart(R.choice(["P304M(UK)_1.0_1.0.3", "P210M(US)_1.0_1.0.3"]))
    if kind == "bulb":
        return smart("L530E(EU)_3.0_1.1.6")
    if kind == "vacuum":
        return smart("RV20 Max Plus(EU)_1.0_1.0.7")
    n, cls = {"iplug": ("KP115(EU)_1.0_1.0.16", IotPlug), "istrip": (R.choice(["KP303(UK)_1.0_1.0.3", "KP303(US)_2.0_1.0.3"]), IotStrip),
              "ibulb": ("KL130(EU)_1.0_1.8.8", IotBulb)}[kind]
    return CIot(fakedev.fixture(n, "iot")), cls


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    kind = script["kind"]
    legacy = kind in ("iplug", "istrip", "ibulb")
    strips = kind in ("strip", "istrip")
    bulbs = kind in ("bulb", "ibulb")

    def log(e, **kw):
        ev.append({"e": e, **kw})

    st, cls = make(kind, R)
    st.setup(R)
    units = st.units
    rmod = next((m for m in getattr(st, "rmods", ()) if m.endswith("schedule")), None)
    presets = (st.sys["preferred_state"] if kind == "ibulb" else st.data["get_preset_rules"]["states"]) if bulbs else []
    PK = {"b": "brightness", "h": "hue", "s": "saturation", "t": "color_temp"}

    def light():
        if not bulbs:
            return {"b": 0, "h": 0, "s": 0, "t": 0}
        d = st.info if kind == "bulb" else st.sys["light_state"]
        if kind == "ibulb" and not d["on_off"]:
            d = d["dft_on_state"]
        return {k: d.get(v, 0) for k, v in PK.items()}

    def pre():
        return [{k: x.get(v, WRONG) for k, v in PK.items()} for x in (st.sys["preferred_state"] if kind == "ibulb" else st.data["get_preset_rules"]["states"])] if bulbs else []

    def tob():
        if kind != "ibulb":
            return [-1, -1]
        d = st.data[LIGHT]["get_default_behavior"]
        r = []
        for k in ("soft_on", "hard_on"):
            m, i = d[k]["mode"], d[k].get("index")
            r.append(i if m == "customize_preset" and i is not None else -1 if m == "last_status" and i is None else WRONG)
        return r

    def on():
        if strips:
            return [0] + [int(bool(u["device_on" if kind == "strip" else "state"])) for u in units()[1:]]
        if kind == "ibulb":
            return [st.sys["light_state"]["on_off"]]
        return [int(bool(units()[0].get("relay_state" if legacy else "device_on", 0)))]

    def led():
        if kind in ("bulb", "ibulb", "vacuum"):
            return 0
        if legacy:
            return 1 - st.sys["led_off"]
        return int(st.data["get_led_info"]["led_rule"] != "never")

    def state():
        g = st.get()
        s = {"on": on(), "names": g["names"], "led": led(), "light": light(), "acc": getattr(st, "acc", [1, 1]), "net": st.net, "nets": st.nets, "boots": st.boots,
             "resets": st.resets, "wall": g["inst"] + 60 * (g["zs"] if g["su"] else g["zw"]), "zw": g["zw"], "zs": g["zs"],
             "rules": g["rules"][st.rmods.index(rmod)] if rmod else [], "pre": pre(), "tob": tob(),
             "cons": [st.data["getConsumablesInfo"][k] for k in CIDS.values()] if kind == "vacuum" else [],
             "stats": (list(st.stats) + [0, 0])[:2] if legacy else [0, 0], "writes": st.writes}
        return copy.deepcopy(s)

    def instant():
        su = R.randrange(2)
        return datetime(R.randint(2010, 2035), 7 if su else 1, R.randint(3, 28), R.randrange(24), R.randrange(60), R.randrange(60))

    def rule(n):
        return {**fakedev.RULE, "id": f"{n:032X}", "name": f"r{n}"}

    def put_clock():
        z, t = R.choice(ZONES), instant()
        if legacy:
            i = LEGACY.index("Australia/Canberra" if z == "Australia/Sydney" else z)
            st.data[st.time]["get_time"] = {"year": t.year, "month": t.month, "mday": t.day, "hour": t.hour, "min": t.minute, "sec": t.second, "err_code": 0}
            st.data[st.time]["get_timezone"] = {"index": i, "err_code": 0}
        else:
            d = offs(ZoneInfo(z))[int(t.month == 7)]
            st.data["get_device_time"] = {"timestamp": int((t - timedelta(minutes=d)).replace(tzinfo=UTC).timestamp()), "region": z, "time_diff": d}

    def change(p):
        names = R.sample(range(1, 99), len(units()))
        for n in range(len(units())):
            if p > 1 or (R.random() < p and names[n] not in st.get()["names"]):
                st.rename(n, names[n])
        if R.random() < p:
            put_clock()
        if R.random() < p:
            st.nets = R.sample(range(1, 90), R.choice([0, 1, 3, 11]))
        if rmod and R.random() < p:
            st.data[rmod]["get_rules"]["rule_list"] = [rule(n) for n in R.sample(range(1, 9), R.randint(0, 4))]
        for n in range(len(getattr(st, "stats", ()))):
            st.stats[n] = R.randint(1, 9)
        if kind == "vacuum":
            for k in CIDS.values():
                st.data["getConsumablesInfo"][k] = R.randint(0, 500)
        for u in units()[1:] if strips else units():
            if R.random() < p and kind not in ("vacuum", "ibulb"):
                u["relay_state" if kind == "iplug" else "state" if kind == "istrip" else "device_on"] = R.randrange(2) if legacy else bool(R.randrange(2))
        for i, x in enumerate(presets):
            x.update(brightness=R.randint(1, 100), hue=R.randint(0, 360), saturation=R.randint(0, 100), color_temp=0)

    if kind == "bulb":
        st.info["dynamic_light_effect_enable"] = False
        st.info.pop("dynamic_light_effect_id", None)
        if isinstance(st.data.get("get_dynamic_light_effect_rules"), dict):
            st.data["get_dynamic_light_effect_rules"]["enable"] = False
    if kind == "ibulb":
        st.data[LIGHT]["get_default_behavior"] = {"soft_on": {"mode": "last_status"}, "hard_on": {"mode": "customize_preset", "index": 1}, "err_code": 0}
    change(2)
    hdr = {"kind": kind, "st": state()}
    decoy, dcls = smart("P100(US)_1.0.0_1.4.0")
    decoy.setup(R)
    decoy.rename(0, 999)
    wires, conns, miss = [], [], [None]

    def device(host, *, fake=False):
        d, c = (decoy, dcls) if fake else (st, cls)
        acc = getattr(d, "acc", [1, 1])
        w = Wire(d, DeviceConfig(host, credentials=Credentials(USER + str(acc[0]), PW + str(acc[1]))))
        wires.append(w)
        return c(host, protocol=(IotProtocol if c is not SmartDevice else SmartProtocol)(transport=w))

    def creds(c):
        return (unpre("us", c.username), unpre("pw ", c.password)) if c else (0, 0)

    Z = {"via": "none", "host": 0, "port": 0, "timeout": 0, "dt": 0, "user": 0, "pw": 0, "fam": 0, "enc": 0, "https": 0, "lv": 0, "hash": 0}

    async def connect(*, host=None, config=None):
        u, p = creds(config.credentials)
        ct = config.connection_type
        conns.append({**Z, "via": "connect", "host": int(config.host == "127.0.0.9"), "port": config.port_override or 0, "timeout": config.timeout, "user": u, "pw": p,
                      "fam": FAMS.get(ct.device_family.value, WRONG), "enc": ENCS.get(ct.encryption_type.value, WRONG), "https": int(ct.https), "lv": ct.login_version or 0,
                      "hash": 0 if config.credentials_hash is None else unpre("hash", config.credentials_hash)})
        if miss[0]:
            raise miss[0]
        dev = device(config.host)
        await dev.update()
        return dev

    async def discover_single(host, *, discovery_timeout=5, port=None, timeout=None, credentials=None, **kw):
        u, p = creds(credentials)
        conns.append({**Z, "via": "single", "host": int(host == "127.0.0.9"), "port": port or 0, "timeout": timeout or 0, "dt": discovery_timeout, "user": u, "pw": p})
        if isinstance(miss[0], TimeoutError_):
            return None
        if miss[0]:
            raise miss[0]
        return device(host)

    async def discover(*, target="", on_discovered=None, credentials=None, **kw):
        u, p = creds(credentials)
        x = {**Z, "via": "discover", "user": u, "pw": p}
        if x not in conns:
            conns.append(x)
        if miss[0]:
            raise miss[0]
        found = {}
        for h in R.sample(["127.0.0.9", "127.0.0.8"], 2):
            found[h] = device(h, fake=h == "127.0.0.8")
            await on_discovered(found[h])
        return found

    def options():
        o = {"host": 1, "alias": 0, "type": "", "enc": 0, "port": 0, "timeout": 5, "dt": 10, "user": 0, "pw": 0, "fam": 1, "https": 0, "lv": 2, "hash": 0, "miss": int(R.random() < 0.06)}
        args = []

        def opt(k, v, *a):
            o[k] = v
            args.append([str(x) for x in a])
        if R.random() < 0.4:
            opt("user", R.randint(1, 9), "--username", "us")
            args[-1][1] += str(o["user"])
        if R.random() < (0.95 if o["user"] else 0.04):
            opt("pw", R.randint(1, 9), "--password", "pw ")
            args[-1][1] += str(o["pw"])
        if R.random() < 0.3:
            opt("port", R.choice([80, 9999, 4433]), "--port", 0)
            args[-1][1] = str(o["port"])
        if R.random() < 0.3:
            opt("timeout", R.choice([1, 7]), "--timeout", 0)
            args[-1][1] = str(o["timeout"])
        if R.random() < 0.2:
            opt("dt", R.choice([1, 3]), "--discovery-timeout", 0)
            args[-1][1] = str(o["dt"])
        how = R.random()
        if how < 0.45:
            if R.random() < 0.7:
                opt("type", R.choice(["smart", "smart", "camera"]), "--type", "")
                args[-1][1] = R.choice([o["type"], o["type"].upper()])
            if not o["type"] or R.random() < 0.4:
                opt("enc", R.choice([1, 2]), "--encrypt-type", "")
                args[-1][1] = ["AES", "KLAP"][o["enc"] - 1]
            if R.random() < 0.4:
                f = R.choice(list(FAMS)[:3])
                opt("fam", FAMS[f], "--device-family", f)
            if R.random() < 0.4:
                opt("https", 1, "--https")
            if R.random() < 0.4:
                opt("lv", R.choice([1, 3]), "--login-version", 0)
                args[-1][1] = str(o["lv"])
            if R.random() < 0.3:
                opt("hash", R.randint(1, 9), "--credentials-hash", "hash")
                args[-1][1] += str(o["hash"])
        elif how < 0.65:
            o["host"] = 0
            v = R.choice([1, 1, 1, 2])
            n = NAME + str(st.get()["names"][0])
            opt("alias", v, "--alias", R.choice([n, n.upper(), n.lower()]) if v == 1 else NAME + "998")
            if R.random() < 0.1:
                o["host"] = 1
        elif how < 0.68:
            o["host"] = 0
        if o["host"]:
            args.append(["--host", "127.0.0.9"])
        R.shuffle(args)
        return o, [y for x in args for y in x]

    async def run(c):
        a = {"ch": 0, "x": NONUM, "y": NONUM, "z": NONUM, "w": NONUM, "i": 0}
        o, opts = options()
        kids = len(units()) - 1
        sub, top, grp, ans = [], [], [], 1
        dev = ["device"]
        choose = []
        if c in ("on", "off", "toggle", "state", "alias", "getalias", "led", "getled") and R.random() < (0.75 if kids and c[-3:] != "led" else 0.08):
            how = R.random()
            n = R.randint(1, max(kids, 1))
            if how < 0.08:
                a["ch"], choose = -1, R.choice([["--child", NAME + "997"], ["--child-index", str(kids)], ["--child-index", "-1"]])
            elif how < 0.12:
                a["ch"], choose = -2, ["--child", "x", "--child-index", "0"]
            elif not kids:
                a["ch"], choose = -1, ["--child-index", "0"]
            else:
                a["ch"] = n
                i = units()[n]
                did = i["device_id"] if kind == "strip" else st.sys["mac"] + "_" + i["id"]
                choose = R.choice([["--child-index", str(n - 1)], ["--index", str(n - 1)], ["--child", did], ["--name", NAME + str(st.get()["names"][n])]])
        if c in ("toggle", "on", "off") and (kind == "vacuum" or kind == "strip" and a["ch"] == 0):
            c = "state"  # not a thing to do to these
        if c in ("toggle", "on", "off", "state"):
            sub = [c]
        elif c == "alias":
            a["x"] = R.choice([x for x in range(100, 199) if x not in st.get()["names"]])
            sub = ["alias", NAME + str(a["x"])]
        elif c == "getalias":
            sub = ["alias"]
        elif c == "led":
            a["x"] = R.randrange(2)
            sub = ["led", R.choice(["on", "true", "1"] if a["x"] else ["off", "false", "0"])]
        elif c == "getled":
            sub = ["led"]
        elif c == "reboot":
            a["x"] = R.choice([1, 0, 5])
            sub = ["reboot"] + (["--delay", str(a["x"])] if a["x"] != 1 or R.random() < 0.5 else [])
        elif c == "reset":
            sub = ["factory-reset"]
            ans = R.randrange(2)
        elif c == "cred":
            a.update(x=R.randint(2, 9), y=R.randint(2, 9))
            sub = ["update-credentials", "--username", USER + str(a["x"]), "--password", PW + str(a["y"])]
            ans = R.randrange(2)
        elif c == "bri":
            a["x"] = R.choice([1, 100, R.randint(2, 99), 101, -1])
            sub, dev = ["brightness", str(a["x"])], ["light"]
        elif c == "getbri":
            sub, dev = ["brightness"], ["light"]
        elif c == "hsv":
            a.update(x=R.choice([0, 360, R.randint(1, 359), 361]), y=R.choice([0, 100, R.randint(1, 99), 101]), z=R.choice([1, 100, R.randint(2, 99), 50]))
            sub, dev = ["hsv", str(a["x"]), str(a["y"]), str(a["z"])], ["light"]
            if R.random() < 0.1:
                a["z"] = NONUM
                sub = sub[:3]
        elif c == "gethsv":
            sub, dev = ["hsv"], ["light"]
        elif c == "temp":
            a["x"] = R.choice([2500, 6500, 6501, 9000, 9001, 2499, R.randint(2600, 6000)])
            sub, dev = ["temperature", str(a["x"])], ["light"]
        elif c == "preset":
            a["i"] = R.randint(0, len(presets)) if R.random() < 0.3 else R.randrange(max(len(presets), 1))
            sub, dev = ["presets", "modify", str(a["i"])], ["light"]
            for k, f, v in (("x", "--brightness", R.randint(1, 100)), ("y", "--hue", R.randint(0, 360)), ("z", "--saturation", R.randint(0, 100)), ("w", "--temperature", R.randint(2500, 6500))):
                if R.random() < 0.5:
                    a[k] = v
                    sub += [f, str(v)]
        elif c == "scan":
            sub, dev = ["scan"], ["wifi"]
        elif c == "join":
            a.update(x=R.randint(1, 9), y=R.randint(1, 9), z=R.randrange(5))
            sub, dev = ["join", SSID + str(a["x"]), "--keytype", str(a["z"]) if legacy else KEYS[a["z"]], "--password", PW + str(a["y"])], ["wifi"]
        elif c == "time":
            t = instant()
            if R.random() < 0.3:
                t = t.replace(second=0)
            a["x"] = int(t.replace(tzinfo=UTC).timestamp())
            sub, dev = ["set"] + [str(v) for v in (t.year, t.month, t.day, t.hour, t.minute)] + ([str(t.second)] if t.second else []), ["time"]
            if R.random() < 0.6:
                z = R.choice(ZONES)
                a["y"], a["z"] = offs(ZoneInfo(z))
                sub += ["--timezone", z, "--skip-confirm"]
        elif c == "sched":
            sub, dev = ["list"], ["schedule"]
        elif c == "del":
            a["x"] = R.randint(1, 9) if R.random() < 0.4 else R.choice((state()["rules"] or [3]))
            sub, dev = ["delete", "--id", f"{a['x']:032X}"], ["schedule"]
        elif c == "tob":
            a.update(i=R.randint(1, 2), x=R.choice([-1, 0, 1, 2]))
            sub, dev = ["turn-on-behavior", "--type", ["soft", "hard"][a["i"] - 1]] + (["--last"] if a["x"] < 0 else ["--preset", str(a["x"])]), ["light"]
        elif c == "cons":
            a["x"] = R.randint(1, 6)
            sub, dev = ["consumables", "reset", (list(CIDS) + ["nothing"])[a["x"] - 1]], ["vacuum"]
        elif c == "erase":
            sm = getattr(st, "smods", [])
            a["i"] = R.randint(1, max(len(sm), 1))
            sub, dev = [["usage", "energy"]["emeter" in (sm[a["i"] - 1] if sm else "")], "--erase"], []
        feat = {"on": ["state", "True"], "off": ["state", "False"], "led": ["led", str(bool(a["x"]))], "getled": ["led"], "bri": ["brightness", str(a["x"])], "getbri": ["brightness"],
                "temp": ["color_temperature", str(a["x"])], "reboot": ["reboot"] if a["x"] == 1 else None}.get(c)
        feat = feat if feat and not (strips and c in ("on", "off") and not a["ch"]) and R.random() < 0.3 else None
        if feat:
            sub, dev = ["feature", *feat], []
        js = c not in ("reset", "cred") and R.random() < 0.7
        if feat or dev == ["device"] and c not in ("reset", "cred") and R.random() < 0.5 or dev == ["light"] and c not in ("tob",) and R.random() < 0.5:
            dev = []
        if choose and dev and R.random() < 0.4:
            dev = dev + choose
        elif choose:
            sub = sub[:1] + choose + sub[1:]
        if c in ("bri", "hsv", "temp") and not feat and str(a["x"]).startswith("-"):
            sub = sub[:1] + ["--"] + sub[1:]
        args = opts + (["--json"] if js else []) + dev + sub
        miss[:] = [R.choice([TimeoutError_("x"), KasaException("x"), OSError("x")]) if o["miss"] else None]
        wires.clear()
        conns.clear()
        lg = logging.getLogger()
        lg.handlers.clear()
        runner = CliRunner()
        res = await runner.invoke(cli, args, input="y\n" if ans else "n\n")
        exit = res.exit_code if res.exception is None or isinstance(res.exception, SystemExit) else 99
        out = []
        if exit == 0:
            out = answer(c, a, js, res.output)
        log("run", o=o, c=c, a=a, ans=ans, chk=js or c in TEXT, exit=exit, conn=conns[0] if len(conns) == 1 else {**Z, "via": "many"} if conns else Z, out=out,
            left=sum(w.open for w in wires) + decoy.writes, st=state(), args=args, text=res.output[-200:])

    def answer(c, a, js, text):
        t = a["ch"] if a["ch"] > 0 else 0
        try:
            if not js:
                got = TEXT[c].search(text).groups() if c in TEXT else ()
                if c == "state":
                    return [int(got[0] == "True") if t or not strips else 0]
                return [unpre(NAME, x) if c == "getalias" else int({"True": 1, "False": 0}.get(x, x)) for x in got]
            d = json.loads(text)
            if c == "state":
                u = units()[t]
                if strips and t == 0 or kind == "vacuum":
                    return [0 if d else WRONG]
                if kind == "strip":
                    return [int(bool(u["device_on"])) if d and "get_child_device_list" not in d else WRONG]
                if legacy:
                    s = d["system"]["get_sysinfo"]
                    if kind == "istrip":
                        return [next(x["state"] for x in s["children"] if x["id"] in (u["id"], u["id"][-2:]))]
                    return [s["light_state"]["on_off"] if kind == "ibulb" else s["relay_state"]]
                return [int(d["get_device_info"]["device_on"])]
            if c == "getalias":
                return [unpre(NAME, d)]
            if c in ("getled", "getbri"):
                return [int(d)]
            if c == "gethsv":
                return [int(x) for x in d]
            if c == "scan":
                return [unpre(SSID, x["ssid"]) if isinstance(x, dict) else int(re.search(re.escape(SSID) + r"(\d+)", x).group(1)) for x in d]
            if c == "sched":
                return [int(re.search(r"id='([0-9A-F]{32})'", x).group(1) if isinstance(x, str) else x["id"], 16) for x in d]
        except Exception:
            return [WRONG]
        return []

    async def main():
        for s in script["steps"]:
            if s == "other":
                change(0.5)
                log("other", st=state())
            elif s in ("refuse", "heal"):
                st.off = s == "refuse"
                log("refuse", b=st.off)
            else:
                await run(s)

    saved = Device.connect, Discover.discover_single, Discover.discover
    lsaved, lvl = logging.getLogger().handlers[:], logging.getLogger().level
    Device.connect, Discover.discover_single, Discover.discover = staticmethod(connect), staticmethod(discover_single), staticmethod(discover)
    try:
        vt.run(main, vtime=1000000, iterations=2000000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-900:])
    finally:
        Device.connect, Discover.discover_single, Discover.discover = saved
        logging.getLogger().handlers[:] = lsaved
        logging.getLogger().setLevel(lvl)
    return {**hdr, "ev": ev}
