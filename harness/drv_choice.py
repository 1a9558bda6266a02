"""Driver: from discovery answers and configurations to protocol, transport, class and kind of device (C15)."""
from __future__ import annotations

import asyncio
import json
import types

import vt
from drv_smartupd import Proto

from kasa import Credentials, Device, DeviceConfig, Discover
from kasa.device_factory import get_device_class_from_family, get_protocol
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import KasaException, SmartErrorCode, TimeoutError, UnsupportedDeviceError
from kasa.iot import IotDevice
from kasa.protocols import IotProtocol
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice
from kasa.transports.xortransport import XorEncryption

DEVNAMES = {"dimmer": ["Smart Wi-Fi Dimmer", "Wi-Fi Smart Dimmer with sensor"], "light": ["Smart Light Switch with PIR", "Wi-Fi light"],
            "other": ["Wi-Fi Smart Plug", "Smart Outdoor Plug"]}
CRED = Credentials("user", "pass")


def params(c):
    return {"fam": c.device_family.value, "enc": c.encryption_type.value, "login": c.login_version or 0, "https": c.https, "hport": c.http_port or 0}


NOP = {"fam": "", "enc": "", "login": 0, "https": False, "hport": 0}


def choice(dev):
    p = dev.protocol
    return {"res": "dev", "cls": type(dev).__name__, "p": type(p).__name__, "t": type(p._transport).__name__, "c": params(dev.config.connection_type)}


def nochoice(res):
    return {"res": res, "cls": "", "p": "", "t": "", "c": NOP}


def new_payload(r, var):
    d = {"device_type": r["type"], "device_model": "X1(EU)", "device_id": "D", "ip": "10.0.0.1", "mac": "00-00-00-00-00-00"}
    if r["scheme"]:
        s = d["mgt_encrypt_schm"] = {"is_support_https": r["https"]}
        if r["enc"]:
            s["encrypt_type"] = r["enc"]
        elif var % 2:
            s["encrypt_type"] = None
        if r["lv"]:
            s["lv"] = r["lv"]
        elif var % 5 == 2:
            s["lv"] = 0
        if r["port"]:
            s["http_port"] = r["port"]
    if r["sym"]:
        d["encrypt_info"] = {"sym_schm": r["sym"], "key": "", "data": ""}
    if r["ets"]:
        e = [str(x) for x in r["ets"]]
        d["encrypt_type"] = e[::-1] if var % 3 == 1 else e
    if not r["sound"]:
        del d[["device_type", "device_model", "device_id", "ip", "mac"][var % 5]]
    if var % 4 == 1:
        d["something_new"] = {"a": 1}
    return b"\x02\x00\x00\x01" + b"\x00" * 12 + json.dumps({"result": d, "error_code": 0}).encode()


def sysinfo(r, var):
    d = {"model": "HS100(EU)", "sw_ver": "1.0 b", "hw_ver": "1", "mac": "00:00:00:00:00:00", "deviceId": "D", "alias": "a", "err_code": 0}
    if r["type"]:
        d["type"] = r["type"]
    if r["mic"]:
        d["mic_type"] = r["mic"]
    if r["dev"]:
        d["dev_name"] = DEVNAMES[r["dev"]][var % 2]
    if r["kids"]:
        d["children"] = [{"id": "00", "state": 1, "alias": "x"}]
        d["child_num"] = 1
    else:
        d["relay_state"] = 1
    if r["len"]:
        d["length"] = (1, 16, 50)[var % 3]
    if r["cam"]:
        d = {"system": d}
    return {"system": {"get_sysinfo": d}}


class Fake(Proto):
    """A SMART device that answers whatever is needed to find out what it is."""

    def __init__(self, typ, comps, cats=()):
        super().__init__({"x": 1}, lambda *a, **kw: None, {c: 1 for c in ["device", *comps]}, typ, {})
        self.cats = cats

    def value(self, m):
        if m == "get_child_device_list":
            return {"child_device_list": [{"device_id": f"K{i}", "category": c, "model": "T1", "type": "SMART.TAPOSENSOR", "nickname": "", "fw_ver": "1.0",
                                           "hw_ver": "1", "mac": "00", "status": "online"} for i, c in enumerate(self.cats)], "sum": len(self.cats), "start_index": 0}
        if m == "get_child_device_component_list":
            return {"child_component_list": [{"device_id": f"K{i}", "component_list": [{"id": "device", "ver_code": 1}]} for i, c in enumerate(self.cats)],
                    "sum": len(self.cats), "start_index": 0}
        v, _ = super().value(m)
        if m == "getDeviceInfo":
            v["device_info"]["basic_info"]["device_type"] = self.typ
        return v

    async def query(self, request, retry_count=3):
        out = {}
        for m in [request] if isinstance(request, str) else request:
            if m == "control_child":
                r = request[m]["requestData"]
                out[m] = {"responseData": {"result": {"responses": [{"method": x["method"], "error_code": -1001} for x in r["params"]["requests"]]}}
                          if r["method"] == "multipleRequest" else {"error_code": -1001}}
                continue
            v = self.value(m)
            out[m] = v if len(v) > 2 or m in ("getAppComponentList", "component_nego", "get_child_device_list") else SmartErrorCode.UNKNOWN_METHOD_ERROR
        return out


def drive(script):
    ev = []
    var = script.get("var", 0)

    def log(e, **kw):
        ev.append({"e": e, **kw})

    class Transport:
        def get_extra_info(self, n):
            return types.SimpleNamespace(setsockopt=lambda *a: None)

        def sendto(self, *a):
            pass

        def close(self):
            asyncio.get_running_loop().call_soon(self.proto.connection_lost, None)

    dgram = []

    async def endpoint(loop, factory, **kw):
        tr = Transport()
        pr = tr.proto = factory()
        loop.call_soon(pr.connection_made, tr)
        loop.call_later(0.1, lambda: pr.datagram_received(dgram[0], (dgram[1], dgram[2])))
        return tr, pr

    async def find(data, port):
        dgram[:] = [data, "10.0.0.1", port]
        try:
            dev = await Discover.discover_single("10.0.0.1", discovery_timeout=2, credentials=CRED)
        except UnsupportedDeviceError:
            return None, nochoice("unsup")
        except TimeoutError:
            return None, nochoice("timeout")
        except KasaException:
            return None, nochoice("invalid")
        r = choice(dev)
        return dev, r

    async def connect(cfg, r):
        async def query(self, request, retry_count=3):
            assert request == {"system": {"get_sysinfo": {}}}, request
            return json.loads(json.dumps(sysinfo(r, var)))

        async def update(self, *a, **kw):
            pass
        saved = [(c, "update", c.update) for c in (SmartDevice, IotDevice, SmartCamDevice) if "update" in vars(c)] + [(IotProtocol, "query", IotProtocol.query)]
        for c in {x[0] for x in saved if x[1] == "update"}:
            c.update = update
        from kasa.iot import IotStrip
        if "update" in vars(IotStrip):
            saved.append((IotStrip, "update", IotStrip.update))
            IotStrip.update = update
        IotProtocol.query = query
        try:
            dev = await Device.connect(config=cfg)
            return dev, choice(dev)
        except UnsupportedDeviceError:
            return None, nochoice("unsup")
        except KasaException:
            return None, nochoice("invalid")
        finally:
            for c, n, f in saved:
                setattr(c, n, f)

    def reload(c, how):
        if how == 1:
            return DeviceConfig.from_dict(c.to_dict())
        if how == 2:
            return DeviceConfig.from_json(c.to_json())
        return c

    async def main():
        k = script["kind"]
        if k == "table":
            for e in script["protos"]:
                c = DeviceConfig("10.0.0.1", credentials=CRED, connection_type=DeviceConnectionParameters(
                    DeviceFamily(e["fam"]), DeviceEncryptionType(e["enc"]), e["login"] or None, e["https"], e["port"] or None))
                p = get_protocol(c, strict=e["strict"])
                log("proto", fam=e["fam"], enc=e["enc"], https=e["https"], strict=e["strict"], p=type(p).__name__ if p else "",
                    t=type(p._transport).__name__ if p else "", same=p is None or (p._transport._config is c and params(c.connection_type) == {
                        "fam": e["fam"], "enc": e["enc"], "login": e["login"], "https": e["https"], "hport": e["port"]}))
                if p:
                    await p.close()
            for e in script["classes"]:
                x = get_device_class_from_family(e["fam"], https=e["https"], require_exact=e["exact"])
                log("class", **e, cls=x.__name__ if x else "")
            for e in script["params"]:
                try:
                    x = DeviceConnectionParameters.from_values(e["fam"], e["enc"], login_version=e["login"] or None, https=e["https"], http_port=e["hport"] or None)
                except KasaException:
                    log("params", c=e, ok=False, same=True)
                else:
                    log("params", c=e, ok=True, same=params(x) == e)
            for e in script["given"]:
                log("given", c=e)
                c = DeviceConfig("10.0.0.1", credentials=CRED, connection_type=DeviceConnectionParameters(
                    DeviceFamily(e["fam"]), DeviceEncryptionType(e["enc"]), e["login"] or None, e["https"], e["hport"] or None))
                dev, ch = await connect(reload(c, var % 3), script["body"])
                log("again", r=script["body"], **ch)
                if dev:
                    await dev.disconnect()
        elif k == "kinds":
            for e in script["kinds"]:
                dev = SmartDevice("10.0.0.1", protocol=Fake(e["fam"], e["comps"]))
                await dev.update()
                log("kind", fam=e["fam"], comps=e["comps"], got=dev.device_type.value)
        elif k == "camkinds":
            for f in script["fams"]:
                dev = SmartCamDevice("10.0.0.1", protocol=Fake(f, ["detection"]))
                await dev.update()
                log("camkind", fam=f, got=dev.device_type.value)
        elif k == "childkinds":
            dev = SmartDevice("10.0.0.1", protocol=Fake("SMART.TAPOHUB", ["device", "child_device"], script["cats"]))
            await dev.update()
            for i, c in enumerate(script["cats"]):
                log("childkind", cat=c, got=next((x.device_type.value for x in dev.children if x.device_id == f"K{i}"), "missing"))
        else:
            r = script["r"]
            if k == "new":
                dev, ch = await find(new_payload(r, var), 20002)
            else:
                dev, ch = await find(XorEncryption.encrypt(json.dumps(sysinfo(r, var)))[4:], 9999)
            body = r if k == "old" else script["body"]
            log(k, r=r, **ch)
            if dev:
                if k == "old":
                    log("oldkind", cls=ch["cls"], got=dev.device_type.value)
                log("save")
                cfg = reload(dev.config, script["how"])
                await dev.disconnect()
                dev, ch = await connect(cfg, body)
                log("again", r=body, **ch)
                if dev:
                    await dev.disconnect()

    vt.HOOKS["datagram"] = endpoint
    try:
        vt.run(main, vtime=10000, iterations=400000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    finally:
        vt.HOOKS.clear()
    return {"ev": ev}
