"""Driver: hubs (SMART and camera) and strips whose child lists change between updates (C11)."""
from __future__ import annotations

import asyncio
import json
import random

import vt  # noqa: F401

from kasa import Credentials, DeviceConfig, Module
from kasa.exceptions import DeviceError, KasaException, SmartErrorCode, TimeoutError, _ConnectionError
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.smart import SmartChildDevice, SmartDevice
from kasa.smartcam import SmartCamDevice
from kasa.smartcam.smartcamchild import SmartCamChild

from drv_smartupd import CFG, NullTransport

SMART_CATS = ["subg.trv", "subg.trigger.contact-sensor", "subg.plugswitch.switch", "subg.trigger.button"]


class Hub:
    """The device: answers the queries of one update."""

    def __init__(self, script, log):
        self.kind = script["kind"]
        self.cam = self.kind == "cam"
        self.log = log
        self.kids, self.comps, self.err, self.kfail, self.fail, self.single = [], [], set(), set(), False, True
        self.R = random.Random(json.dumps(script, sort_keys=True))
        self.tok = 0

    def failure(self):
        return self.R.choice([TimeoutError, _ConnectionError, KasaException, DeviceError])("x")

    def code(self):
        return self.R.choice([SmartErrorCode.INTERNAL_UNKNOWN_ERROR, SmartErrorCode.SESSION_EXPIRED, SmartErrorCode.PARAMS_ERROR,
                              SmartErrorCode.TRANSPORT_NOT_AVAILABLE_ERROR])

    def sup(self, k):
        if self.kind != "cam":
            return True
        return k["cat"] in SmartChildDevice.CHILD_DEVICE_TYPE_MAP or k["cat"] in SmartCamChild.CHILD_DEVICE_TYPE_MAP

    # -- answers
    def info_of(self, k):
        d = {"tok": k["tok"], "status": "online"}
        if k["id"]:
            d["device_id"] = k["id"]
        if k["cat"]:
            d["category"] = k["cat"]
        if k["cat"] == "camera":
            d.update(device_model="C1", device_type="SMART.IPCAMERA", sw_ver="1.0 b", hw_ver="1", alias="a", mac="00", hw_id="h", oem_id="o")
        else:
            d.update(model="S1", type="SMART.TAPOSENSOR", fw_ver="1.0", hw_ver="1", nickname="", mac="00", device_on=True, region="Europe/Berlin")
        return d

    def comp_of(self, c):
        cat = next((k["cat"] for k in self.kids if k["id"] == c["id"]), "")
        names = {"led": 1} if cat == "camera" else {"device": 2, "firmware": 2, "cloud_connect": 1, "led": 1}
        i, v = ("name", "version") if cat == "camera" else ("id", "ver_code")
        lst = [{i: n, v: x} for n, x in names.items()]
        if not c["good"]:
            lst = self.R.choice([lst + [{i: "x", v: "not a number"}], lst + [{"zz": 1}], lst + ["x"]])
        return {"device_id": c["id"], "component_list": lst}

    def answer(self, m):
        if m in ("get_child_device_list", "getChildDeviceList"):
            if "list" in self.err:
                self.log("list", err=True, kids=[])
                return self.code()
            self.log("list", err=False, kids=[{"id": k["id"], "tok": k["tok"], "sup": self.sup(k)} for k in self.kids])
            return {"child_device_list": [self.info_of(k) for k in self.kids], "start_index": 0, "sum": len(self.kids)}
        if m in ("get_child_device_component_list", "getChildDeviceComponentList"):
            if "comps" in self.err:
                self.log("comps", err=True, ids=[])
                return self.code()
            self.log("comps", err=False, ids=self.comps)
            return {"child_component_list": [self.comp_of(c) for c in self.comps], "start_index": 0, "sum": len(self.comps)}
        if m in ("get_device_info", "getDeviceInfo") and "info" in self.err:
            return self.code()
        if m == "getDeviceInfo":
            return {"device_info": {"basic_info": {"device_type": "SMART.TAPOHUB", "device_model": "H2", "sw_version": "1.0 b", "hw_version": "1",
                                                   "device_alias": "hub", "dev_id": "HUB", "mac": "00", "hw_id": "h", "oem_id": "o"}}}
        if m == "getAppComponentList":
            return {"app_component": {"app_component_list": [{"name": "childControl", "version": 1}, {"name": "led", "version": 1}]}}
        if m == "getConnectionType":
            return {"rssi": "2", "rssiValue": -50}
        if m == "getLedStatus":
            return {"led": {"config": {"enabled": "on"}, "cid": "HUB"}}
        if m == "component_nego":
            return {"component_list": [{"id": "device", "ver_code": 1}, {"id": "child_device", "ver_code": 1},
                                       {"id": "cloud_connect", "ver_code": 1}, {"id": "led", "ver_code": 1}]}
        if m == "get_device_info":
            return {"device_id": "HUB", "type": "SMART.TAPOHUB" if self.kind == "smart" else "SMART.TAPOPLUG", "model": "H1", "hw_ver": "1", "fw_ver": "1.0",
                    "nickname": "", "mac": "00", "region": "Europe/Berlin", "ssid": ""}
        if m == "get_connect_cloud_state":
            return {"status": 0, "cid": "HUB"}
        if m == "get_led_info":
            return {"led_rule": "always", "cid": "HUB"}
        return SmartErrorCode.UNKNOWN_METHOD_ERROR

    def kid_answer(self, cid, m):
        if m == "get_connect_cloud_state":
            return {"status": 0, "cid": cid}
        if m == "get_auto_update_info":
            return {"enable": True, "random_range": 1, "time": 1, "cid": cid}
        if m == "get_led_info":
            return {"led_rule": "always", "cid": cid}
        if m == "getLedStatus":
            return {"led": {"config": {"enabled": "on"}, "cid": cid}}
        return None

    async def kid(self, cid, m):
        await asyncio.sleep(0)
        bad = cid in self.kfail
        a = None if bad else self.kid_answer(cid, m)
        if bad or a is None and not m.startswith("set"):
            self.log("kidfail", id=cid)
            return self.R.choice([-1001, -1008, -1, 1200])
        return a

    async def query(self, request):
        if isinstance(request, str):
            request = {request: None}
        ms = list(request)
        if ms == ["control_child"]:
            p = request["control_child"]
            cid, rd = p["device_id"], p["requestData"]
            if cid not in {k["id"] for k in self.kids}:
                self.log("kidfail", id=cid)
                raise DeviceError("x", error_code=SmartErrorCode.DEVICE_ERROR)
            if cid in self.kfail and self.R.random() < 0.4:
                self.log("kidfail", id=cid)
                raise self.failure()
            if rd["method"] == "multipleRequest":
                out = []
                for e in rd["params"]["requests"]:
                    a = await self.kid(cid, e["method"])
                    out.append({"method": e["method"], **({"error_code": a} if isinstance(a, int) else {"error_code": 0, "result": a})})
                return {"control_child": {"responseData": {"error_code": 0, "result": {"responses": out}}}}
            a = await self.kid(cid, rd["method"])
            return {"control_child": {"responseData": {"error_code": a} if isinstance(a, int) else {"error_code": 0, "result": a}}}
        if ms == ["multipleRequest"]:
            out = []
            for e in request["multipleRequest"]["requests"]:
                p = e["params"]["childControl"]
                if p["device_id"] not in {k["id"] for k in self.kids} or (p["device_id"] in self.kfail and self.R.random() < 0.2):
                    self.log("kidfail", id=p["device_id"])
                    if self.R.random() < 0.5:
                        raise DeviceError("x", error_code=SmartErrorCode.DEVICE_ERROR)
                    out.append({"method": "controlChild", "error_code": -1})
                    continue
                a = await self.kid(p["device_id"], p["request_data"]["method"])
                out.append({"method": "controlChild", "error_code": 0,
                            "result": {"response_data": {"error_code": a} if isinstance(a, int) else {"error_code": 0, "result": a}}})
            return {"multipleRequest": {"responses": out}}
        await asyncio.sleep(0)
        if self.fail and len(ms) > 1:
            raise self.failure()
        res = {m: self.answer(m) for m in ms}
        if len(ms) == 1 and isinstance(res[ms[0]], SmartErrorCode):
            raise DeviceError("x", error_code=res[ms[0]])
        return res


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, **kw})

    async def main():
        hub = Hub(script, log)
        base = SmartCamProtocol if hub.cam else SmartProtocol

        class Proto(base):
            async def query(self, request, retry_count=3):
                return await hub.query(request)

        dev = (SmartCamDevice if hub.cam else SmartDevice)("127.0.0.1", config=CFG, protocol=Proto(transport=NullTransport(config=CFG)))
        objs = []

        def number(o):
            for i, x in enumerate(objs, 1):
                if x is o:
                    return i
            objs.append(o)
            return len(objs)

        def own(c):
            r = "own"
            cid = c.device_id
            for m in c.modules.values():
                if m.name not in ("Led", "Cloud", "Firmware"):
                    continue
                try:
                    if m.data.get("cid") != cid:
                        return "foreign"
                except KasaException:
                    r = "err"
                except Exception as ex:  # noqa: BLE001
                    return repr(ex)
            return r if Module.Led in c.modules else "no modules"

        for s in script["steps"]:
            hub.kids = [{**k, "tok": hub.tok + 1 + i} for i, k in enumerate(s["kids"])]
            hub.tok += len(hub.kids)
            hub.comps = s["comps"]
            hub.err, hub.kfail, hub.fail = set(s.get("errs", ())), set(s.get("kfail", ())), s.get("fail", False)
            if s.get("d"):
                await asyncio.sleep(s["d"])
            log("update")
            try:
                await dev.update(s.get("uc", True))
            except Exception as ex:  # noqa: BLE001
                log("err", lib=isinstance(ex, KasaException), info="info" in hub.err or (hub.fail and not dev.modules), why=repr(ex)[:120])
            else:
                log("ok", children=[{"id": c.device_id, "obj": number(c), "tok": c.sys_info.get("tok", -1), "own": own(c),
                                     "parent": c.parent is dev and dev.get_plug_by_name is not None} for c in dev.children])
        log("end")

    try:
        vt.run(main, vtime=10**8, iterations=60000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {"kind": script["kind"], "ev": ev}
