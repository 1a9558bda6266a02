"""Driver: pairing devices with SMART and camera hubs (C22)."""
from __future__ import annotations

import asyncio
import copy
import json
import random

import vt
import fakedev

from kasa import KasaException, Module
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

POOL = ["T110(EU)_1.0_1.8.0", "T315(EU)_1.0_1.7.0", "KE100(EU)_1.0_2.4.0", "S200B(EU)_1.0_1.11.0", "S220(EU)_1.0_1.9.0", "T110(US)_1.0_1.9.0", "T310(EU)_1.0_1.5.0", "cam", "cam", "odd"]
CATS = ["subg.trv", "subg.trigger", "subg.plugswitch", "odd"]


class Mixin:
    """What both kinds of hubs have in common: what is around, what is being scanned for."""
    def setup(self, pool, cats, log, script):
        self.pool, self.cats, self.ev, self.s = pool, cats, log, script
        self.near, self.scanning, self.acc, self.bad = [], None, [], None
        self.detected = []
        self.R = random.Random(json.dumps(script, sort_keys=True))

    def ok(self, m, step):
        if self.bad == step:
            self.bad = None
            return self.R.choice([-1003, -1008, -1])
        return 0

    def cat(self, i):
        k = self.pool[i]
        return k["cat"]

    def entry(self, i):
        return {"category": self.cat(i), "device_id": i, "device_model": self.pool[i]["model"], "name": "I01BU0tFRF9OQU1FIw=="}

    def scan(self, step_ok):
        if step_ok:
            self.scanning = True
        self.ev("scan", ok=step_ok)

    def ask(self, cats, step_ok):
        got = [i for i in self.near if self.scanning and any(self.cat(i).startswith(c) for c in cats)]
        self.R.shuffle(got)
        self.detected = [self.entry(i) for i in got]
        self.ev("ask", ok=step_ok, ids=got)
        return copy.deepcopy(self.detected)

    def take(self, lst, step_ok):
        ids = [x["device_id"] for x in lst]
        acc = [i for i in ids if i in self.acc] if step_ok else []
        self.ev("add", ok=step_ok, ids=ids, acc=acc, same=sorted(map(repr, lst)) == sorted(map(repr, self.detected)))
        for i in acc:
            self.join(i)

    def drop(self, lst, step_ok):
        ids = [x["device_id"] for x in lst]
        if step_ok and not all(i in self.kids for i in ids):
            step_ok = False
        self.ev("remove", ok=step_ok, ids=ids)
        if step_ok:
            for i in ids:
                self.kids.pop(i)
                self.lists()
        return step_ok

    def join(self, i):
        k = self.pool[i]
        self.kids[i] = k["dev"]
        k["dev"].parent = self
        self.lists()

    def listing(self):
        return ([copy.deepcopy(self.pool[i]["info"]) for i in self.kids],
                [{"device_id": i, "component_list": copy.deepcopy(self.pool[i]["comps"])} for i in self.kids])


class Hub(Mixin, fakedev.Smart):
    def lists(self):
        a, b = self.listing()
        self.data["get_child_device_list"] = {"child_device_list": a, "start_index": 0, "sum": len(a)}
        self.data["get_child_device_component_list"] = {"child_component_list": b, "start_index": 0, "sum": len(b)}

    def do_begin_scanning_child_device(self, p):
        e = self.ok("", "scan")
        self.scan(not e)
        return e

    def do_get_scan_child_device_list(self, p):
        e = self.ok("", "ask")
        d = self.ask([c["category"] for c in p["scan_list"]], not e)
        return (e, None) if e else (0, {"child_device_list": d, "scan_status": "scanning", "scan_wait_time": 28})

    def do_add_child_device_list(self, p):
        e = self.ok("", "add")
        self.take(p["child_device_list"], not e)
        return e

    def do_remove_child_device_list(self, p):
        e = self.ok("", "remove")
        return 0 if self.drop(p["child_device_list"], not e) else e or -1008

    def wire(self):
        p = super().wire()
        p._transport = Wire(self)
        return p


class CamHub(Mixin, fakedev.Cam):
    def lists(self):
        a, b = self.listing()
        self.data["getChildDeviceList"] = {"child_device_list": a, "start_index": 0, "sum": len(a)}
        self.data["getChildDeviceComponentList"] = {"child_component_list": b, "start_index": 0, "sum": len(b)}

    def do_startScanChildDevice(self, p):
        e = self.ok("", "scan")
        self.cats_scan = p["childControl"]["category"]
        self.scan(not e)
        return e

    def do_getScanChildDeviceList(self, p):
        e = self.ok("", "ask")
        d = self.ask([c for c in p["childControl"]["category"] if c in self.cats_scan], not e)
        return {"error_code": e} if e else {"error_code": 0, "result": {"child_device_list": d, "scan_wait_time": 55, "scan_status": "scanning"}}

    def do_addScanChildDeviceList(self, p):
        e = self.ok("", "add")
        self.take(p["childControl"]["child_device_list"], not e)
        return e

    def do_removeChildDeviceList(self, p):
        e = self.ok("", "remove")
        return 0 if self.drop(p["childControl"]["child_device_list"], not e) else e or -40101

    def wire(self):
        p = super().wire()
        p._transport = Wire(self)
        return p


class Wire(fakedev.Wire):
    async def send(self, request):
        d = self.dev.R.choice([0, 0, 0, 30])
        if d:
            await asyncio.sleep(d / 1000)
        return await super().send(request)


def member(i, name):
    if name == "cam":
        d = fakedev.fixture("D230(EU)_1.20_1.1.19", "smartcam/child")
        info = d["child_info_from_parent"]
        info.update(device_id=i, category="camera")
        d["getDeviceInfo"]["device_info"]["basic_info"]["dev_id"] = i
        return {"dev": fakedev.Cam(d), "info": info, "model": "D230", "cat": "camera", "comps": d["getAppComponentList"]["app_component"]["app_component_list"]}
    d = fakedev.fixture(POOL[0] if name == "odd" else name, "smart/child")
    d["get_device_info"]["device_id"] = i
    if name == "odd":
        d["get_device_info"]["category"] = "odd.thing"
    info = d["get_device_info"]
    return {"dev": fakedev.Smart(d, lenient=True), "info": info, "model": info["model"], "cat": info["category"], "comps": d["component_nego"]["component_list"]}


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    cam = script["cam"]
    pool = {i: member(i, n) for i, n in script["pool"].items()}
    cats = script["cats"]

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    if cam:
        data = fakedev.fixture(R.choice(["H200(EU)_1.0_1.3.6", "H200(US)_1.0_1.3.6"]), "smartcam")
        data["getSupportChildDeviceCategory"] = {"device_category_list": [{"category": "ipcamera" if c == "camera" else c} for c in cats]}
        hub, cls = CamHub(data), SmartCamDevice
    else:
        data = fakedev.fixture("H100(EU)_1.0_1.5.10")
        data["get_support_child_device_category"] = {"device_category_list": [{"category": c} for c in cats]}
        hub, cls = Hub(data), SmartDevice
    hub.setup(pool, cats, log, script)
    hub.kids = {}
    hub.lists()
    for i in script["init"]:
        hub.join(i)
    sup = [i for i in pool if any(hub.cat(i).startswith(c) for c in cats)]
    shown = [i for i in pool if not (cam and script["pool"][i] == "odd")]

    async def main():
        asyncio.get_running_loop().set_exception_handler(lambda *_: None)
        d = cls("127.0.0.1", protocol=hub.wire())
        await d.update()
        cs = d.modules[Module.ChildSetup]

        def view():
            log("view", ids=[c.device_id for c in d.children], cats=sorted(cs.supported_categories) == sorted(cats))

        async def surroundings(steps, total):
            """Things that change while the caller waits."""
            for s in steps:
                await asyncio.sleep(total / (len(steps) + 1))
                if not t_done:
                    hub.near = list(s["ids"])
                    log("near", ids=hub.near)

        view()
        S = list(script["steps"])
        while S:
            s = S.pop(0)
            a = s["a"]
            if a == "near":
                hub.near = list(s["ids"])
                log("near", ids=hub.near)
            elif a == "elsewhere":
                for i in list(hub.kids):
                    if i not in s["ids"]:
                        hub.kids.pop(i)
                for i in s["ids"]:
                    if i not in hub.kids:
                        hub.join(i)
                hub.lists()
                log("elsewhere", ids=s["ids"])
                await d.update()
                log("update")
                view()
            elif a == "update":
                await d.update()
                log("update")
                view()
            elif a == "pair":
                run, t_done = [], False
                while S and S[0]["a"] in ("scan", "ask", "add", "giveup", "near") and not (run and run[-1]["a"] in ("add", "giveup") or run and not run[-1]["ok"]):
                    run.append(S.pop(0))
                by = {x["a"]: x for x in run}
                hub.scanning = False
                hub.bad = next((x["a"] for x in run if x["a"] in ("scan", "ask", "add") and not x["ok"]), None)
                hub.acc = by["add"]["ids"] if "add" in by and by["add"]["ok"] else list(pool) if R.random() < 0.5 else []
                kw = R.choice([{}, {"timeout": 10}, {"timeout": 3}, {"timeout": 25}, {"timeout": 0}])
                feat = not kw and R.random() < 0.5
                w = kw.get("timeout", 10)
                log("pair", w=w * 1000)
                t = asyncio.create_task(d.features["pair"].set_value(None) if feat else cs.pair(**kw))
                env = asyncio.create_task(surroundings([x for x in run if x["a"] == "near"], w))
                if "giveup" in by and w:
                    await asyncio.wait({t}, timeout=w * R.choice([0.1, 0.5, 0.9]))
                    t.cancel()
                try:
                    res = await t
                    t_done = True
                    log("paired", ids=[x["device_id"] for x in res], same=all(x in hub.detected for x in res))
                except asyncio.CancelledError:
                    t_done = True
                    log("giveup")
                except Exception as ex:  # noqa: BLE001
                    t_done = True
                    log("failed", lib=isinstance(ex, KasaException), why=repr(ex))
                env.cancel()
                if R.random() < 0.7:
                    view()
                else:
                    await d.update()
                    log("update")
                    view()
                await asyncio.sleep(R.choice([0, 30, 100]))
            elif a == "unpair":
                i = s["ids"][0]
                ok = True
                if S and S[0]["a"] == "remove":
                    ok = S.pop(0)["ok"]
                hub.bad = None if ok else "remove"
                log("unpair", id=i)
                try:
                    await cs.unpair(i)
                    log("unpaired")
                except Exception as ex:  # noqa: BLE001
                    log("failed", lib=isinstance(ex, KasaException), why=repr(ex))
                view()

    try:
        vt.run(main, vtime=10 ** 6, iterations=500000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {"ev": ev, "init": script["init"], "sup": sup, "shown": shown}
