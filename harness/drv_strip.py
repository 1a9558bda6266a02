"""Driver: sockets of legacy strips (C20)."""
from __future__ import annotations

import copy
import json
import random
from datetime import datetime

import vt
import fakedev

from kasa import KasaException, Module
from kasa.iot import IotStrip

MODELS = ["HS300(US)_2.0_1.0.12", "HS300(US)_1.0_1.0.21", "HS300(US)_2.0_1.0.12", "KP303(UK)_1.0_1.0.3", "KP303(US)_2.0_1.0.9", "HS107(US)_1.0_1.0.8", "EP40(US)_1.0_1.0.2",
          "KP400(US)_3.0_1.0.4", "KP200(US)_3.0_1.0.3"]
RULES = {"schedule": 0, "anti_theft": 100, "count_down": 200, "countdown": 200}


def rule(n):
    return {"id": f"R{n}", "name": "n", "enable": 1, "wday": [1] * 7, "repeat": 1, "sact": 1, "stime_opt": 0, "smin": 5, "eact": -1, "etime_opt": -1, "emin": 0}


class Strip(fakedev.Iot):
    """Every socket has its own usage, energy and rules; the strip itself has others."""

    def __init__(self, data, n, style, R):
        super().__init__(data)
        self.R = R
        self.meter = "ENE" in self.sys["feature"]
        kids = self.sys["children"]
        while len(kids) < n:
            kids.append(copy.deepcopy(kids[0]))
        del kids[n:]
        self.ids = [{"long": f"8006{'AB' * 16}{i:04X}", "short": f"{i:02d}", "odd": f"{(i * 7) % 10}{i}X01"}[style] for i in range(n)]
        for k, i in zip(kids, self.ids):
            k["id"] = i
        self.sys["child_num"] = n
        self.us, self.en, self.su = [0] * n, [0] * n, 0
        self.now = datetime.now()
        self.reads = []
        self.old_style = False      # W, V and A instead of mW, mV and mA

    def kid(self, i):
        return next(k for k in self.sys["children"] if k["id"] == self.ids[i])

    def cmd(self, mod, c, a, ctx):
        if mod in ("schedule", "emeter", "anti_theft", "countdown", "count_down") and c.startswith("get_"):
            if mod == "emeter" and (not self.meter or not ctx):
                return {"err_code": -1, "err_msg": "module not support"}
            if ctx is not None and (len(ctx) != 1 or ctx[0] not in self.ids):
                return {"err_code": -14, "err_msg": "entry not exist"}
            i = None if not ctx else self.ids.index(ctx[0])
            self.reads.append((i, mod, c))
            use = self.su if i is None else self.us[i]
            en = 0 if i is None else self.en[i]
            y, m = a.get("year"), a.get("month")
            t = self.now
            this = y == t.year and m in (None, t.month)
            if c == "get_rules":
                return {"rule_list": [rule(use + RULES[mod])], "enable": 1, "version": 2, "err_code": 0}
            if c == "get_next_action":
                return {"type": -1, "err_code": 0}
            if c == "get_realtime":
                if mod != "emeter":
                    return {"err_code": -2, "err_msg": "member not support"}
                if self.old_style:
                    return {"voltage": (200000 + en) / 1000, "current": en / 1000, "power": en / 1000, "total": en / 1000, "err_code": 0}
                return {"voltage_mv": 200000 + en, "current_ma": en, "power_mw": en, "total_wh": en, "slot_id": i, "err_code": 0}
            key = "energy_wh" if mod == "emeter" else "time"
            val = en if mod == "emeter" else use
            if c == "get_daystat":
                if this:
                    days = [{"year": y, "month": m, "day": d, key: 900 + d} for d in range(1, t.day)] + ([{"year": y, "month": m, "day": t.day, key: val}] if val else [])
                else:
                    days = [{"year": y, "month": m, "day": 5, key: val * 1000000 + (y - 2000) * 100 + m}, {"year": y, "month": m, "day": 6, key: 3}]
                return {"day_list": self.conv(days), "err_code": 0}
            if y == t.year:
                mon = [{"year": y, "month": x, key: 900 + x} for x in range(1, t.month)] + ([{"year": y, "month": t.month, key: val * 2}] if val else [])
            else:
                mon = [{"year": y, "month": 5, key: val * 1000000 + (y - 2000) * 100}, {"year": y, "month": 6, key: 3}]
            return {"month_list": self.conv(mon), "err_code": 0}
        return super().cmd(mod, c, a, ctx)

    def conv(self, entries):
        if self.old_style:
            for e in entries:
                if "energy_wh" in e:
                    e["energy"] = e.pop("energy_wh") / 1000
        return entries

    def do_set_relay_state(self, mod, a, ctx):
        return super().do_set_relay_state(mod, a, ctx)

    def do_erase_emeter_stat(self, mod, a, ctx):
        for i in range(len(self.ids)):
            if not ctx or self.ids[i] in ctx:
                self.en[i] = 0

    def do_erase_runtime_stat(self, mod, a, ctx):
        if not ctx:
            self.su = 0
        for i in range(len(self.ids)):
            if ctx and self.ids[i] in ctx:
                self.us[i] = 0

    def state(self):
        n = range(len(self.ids))
        return {"on": [self.kid(i)["state"] for i in n], "al": [int(self.kid(i)["alias"][1:]) for i in n], "us": list(self.us), "en": list(self.en), "su": self.su}


WIRE = {"set_relay_state": ("on", lambda a: a["state"]), "set_dev_alias": ("al", lambda a: int(a["alias"][1:])), "erase_emeter_stat": ("en", lambda a: 0),
        "erase_runtime_stat": ("us", lambda a: 0)}


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    n = len(script["on"])
    meter = script["meter"]
    name = R.choice(MODELS[:3] if meter else MODELS[3:])
    st = Strip(fakedev.fixture(name, "iot"), n, R.choice(["long", "short", "odd"]), R)
    tok = [10]

    def fresh():
        tok[0] += 1 + R.randrange(3)
        return tok[0]

    for i in range(n):
        st.kid(i)["state"] = int(script["on"][i])
        st.kid(i)["alias"] = f"A{fresh()}"
        st.us[i], st.en[i] = (fresh() if R.random() < 0.9 else 0), (fresh() if R.random() < 0.9 else 0)
    st.su = fresh()
    start = st.state()
    cur = {"op": None, "lose": None, "n": 0, "kind": ""}

    def log(e, **kw):
        ev.append({"e": e, **kw})

    def plan(k, request):
        """Name a fault for the k-th request of the running operation."""
        cur["n"] += 1
        req = json.loads(request)
        c = next((c for m, x in req.items() if m != "context" for c in x if c in WIRE), None)
        f = None
        if cur["lose"] and cur["lose"][0] <= cur["n"] < cur["lose"][0] + cur["lose"][1]:
            f = cur["lose"][2]
            cur["hit"] = True
        if c and f == "lost":
            cur["unsent"] = True
        if c and cur["op"] and f != "lost":
            kind, val = WIRE[c]
            a = next(x[c] for m, x in req.items() if m != "context" and c in x) or {}
            ctx = req.get("context", {}).get("child_ids")
            if not ctx and kind == "us":
                kind = "su"
            ss = [st.ids.index(x) + 1 if x in st.ids else 99 for x in ctx] if ctx else ([] if kind == "su" else list(range(1, n + 1)))
            log("wire", s=ss, k=kind, v=val(a), refused=c in st.refuse, lost=bool(f) or cur.get("unsent", False), odd=ctx == [] or len(req) > 2 or len(set(ss)) != len(ss))
        elif c and not cur["op"]:
            log("stray", c=c)
        elif c:
            log("unsent")
        return f

    async def main():
        d = IotStrip("127.0.0.1", protocol=st.wire(plan))
        child = lambda i: next(c for c in d.children if c.device_id.endswith("_" + st.ids[i - 1]))

        def energy(m, extra=0):
            """One reading from which all the others must follow."""
            e = round(m.current_consumption * 1000)
            ok = [round((m.current or 0) * 1000) == e, round((m.consumption_total or 0) * 1000) == e, round((m.consumption_today or 0) * 1000) == e,
                  round((m.consumption_this_month or 0) * 1000) == 2 * e]
            return e if all(ok) else -100 - e

        def view():
            v = {k: [] for k in ("on", "al", "us", "en")}
            for i in range(1, n + 1):
                c = child(i)
                v["on"].append(int(c.is_on))
                v["al"].append(int(c.alias[1:]))
                if c.is_off == c.is_on or c.features["state"].value != c.is_on:
                    v["al"][-1] = -5
                u = c.modules[Module.IotUsage]
                t = u.usage_today or 0
                same = [(u.usage_this_month or 0) == 2 * t, c.modules[Module.IotSchedule].rules[0].id == f"R{t}", c.modules[Module.IotAntitheft].rules[0].id == f"R{t + 100}"]
                if Module.IotCountdown in c.modules:
                    same.append(c.modules[Module.IotCountdown].rules[0].id == f"R{t + 200}")
                v["us"].append(t if all(same) else -100 - t)
                if meter:
                    m = c.modules[Module.Energy]
                    e = energy(m)
                    v["en"].append(e if round(m.voltage * 1000) == 200000 + e and c.features["current_consumption"].value in (e / 1000, round(e / 1000, 1)) else -200 - e)
                else:
                    v["en"].append(0)
            t = d.modules[Module.IotUsage].usage_today or 0
            v["su"] = t if d.modules[Module.IotSchedule].rules[0].id == f"R{t}" else -100 - t
            v["any"] = d.is_on
            v["meter"] = meter
            v["sum"], v["volt"] = (energy(d.modules[Module.Energy]), round(d.modules[Module.Energy].voltage * 1000)) if meter else (0, 0)
            log("view", v=v)

        def arm(s):
            cur.update(n=0, hit=False, unsent=False, lose=s.get("lose"))
            st.refuse = {}

        async def update(full, i, s):
            arm(s)
            if i and R.random() < 0.2:
                R.shuffle(st.sys["children"])
            try:
                if i:
                    await child(i).update()
                else:
                    await d.update(update_children=full)
                log("sock", i=i) if i else log("updated", full=full)
            except KasaException:
                log("upfail", lib=True, lost=cur["hit"], full=full, i=i)
            except Exception as ex:
                log("upfail", lib=False, lost=cur["hit"], full=full, i=i, why=repr(ex))

        async def command(s):
            i, k, on = s.get("i", 0), s.get("k", "su"), s.get("on")
            if k == "en" and not meter:
                return
            arm(s)
            who = child(i) if i else d
            v = on if k == "on" else fresh() if k == "al" else 0
            if s["a"] == "own":
                log("own")
                call = lambda: d.modules[Module.IotUsage].erase_stats()
            else:
                log("cmd", s=[i] if i else list(range(1, n + 1)), k=k, v=v)
                call = {"on": lambda: R.choice([lambda: who.set_state(bool(on)), who.turn_on if on else who.turn_off])(), "al": lambda: who.set_alias(f"A{v}"),
                        "us": lambda: who.modules[Module.IotUsage].erase_stats(), "en": lambda: who.modules[Module.Energy].erase_stats()}[k]
            cur["op"] = True
            if s.get("refuse"):
                st.refuse = {c: -3 for c in WIRE}
            try:
                await call()
                log("done")
            except KasaException:
                log("failed", lib=True)
            except Exception as ex:
                log("failed", lib=False, why=repr(ex))
            cur["op"] = None
            st.refuse = {}

        async def stats(s):
            if not meter:
                return
            arm({})
            i = s["i"]
            m = (child(i) if i else d).modules[Module.Energy]
            y, mon = 2010 + R.randrange(10), 1 + R.randrange(12)
            kwh = R.random() < 0.5
            sc = 1000 if kwh else 1
            if R.random() < 0.5:
                x = (await m.get_daily_stats(year=y, month=mon, kwh=kwh))[5]
            else:
                mon = 0
                x = (await m.get_monthly_stats(year=y, kwh=kwh))[5]
            log("stats", i=i, y=y, m=mon, got=round(x * sc))
            x = await m.get_status()
            e = round(x.power * 1000)
            if round(x.current * 1000) != e or round(x.total * 1000) != e:
                e = -1
            log("status", i=i, sum=e, volt=round(x.voltage * 1000))

        steps = list(script["steps"])
        if steps[:1] != [{"a": "update"}]:
            steps.insert(0, {"a": "update"})
        up = False
        for s in steps:
            a = s["a"]
            if a == "update":
                if not up:
                    await update(True, 0, {})
                    up = True
                else:
                    await update(True, 0, s)
            elif a == "quick":
                await update(False, 0, s)
            elif a == "sock":
                await update(True, s["i"], s)
            elif a == "other":
                i = s["i"] - 1
                if s["k"] == "on":
                    st.kid(i)["state"] = int(s["on"])
                elif s["k"] == "al":
                    st.kid(i)["alias"] = f"A{fresh()}"
                else:
                    getattr(st, s["k"])[i] = fresh()
                if R.random() < 0.2:
                    st.su = fresh()
                log("other", d=st.state())
            elif a in ("cmd", "own"):
                if a == "cmd" and s["k"] == "us" and not s["i"]:
                    s = {**s, "a": "own"}
                await command(s)
            elif a == "stats":
                await stats(s)
            if a in ("update", "quick", "sock") or R.random() < 0.4:
                view()

    try:
        vt.run(main, vtime=36000, iterations=400000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:
        import traceback
        log("crash", why=repr(ex), tb=traceback.format_exc()[-600:])
    return {"dev": {**start, "en": start["en"] if meter else [0] * n}, "ev": ev if meter else [fix(e) for e in ev]}


def fix(e):
    if e["e"] == "other":
        e["d"]["en"] = [0] * len(e["d"]["en"])
    return e
