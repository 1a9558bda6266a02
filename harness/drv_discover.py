"""Driver: UDP discovery with scripted datagrams (C12)."""
from __future__ import annotations

import asyncio
import binascii
import json
import random
import socket
import struct

import vt

from kasa import Credentials, Discover
from kasa.exceptions import KasaException, TimeoutError, UnsupportedDeviceError
from kasa.transports.xortransport import XorEncryption


def sysinfo(**kw):
    return {"system": {"get_sysinfo": {"model": "HS100(EU)", "sw_ver": "1.0 b", "hw_ver": "1", "mac": "00:00:00:00:00:00", "deviceId": "D",
                                       "alias": "a", "relay_state": 1, "feature": "TIM", "err_code": 0, **kw}}}


def result(typ, scheme="KLAP", https=False, **kw):
    r = {"device_type": typ, "device_model": "X1(EU)", "device_id": "D", "ip": "1.1.1.1", "mac": "00-00-00-00-00-00",
         "mgt_encrypt_schm": {"is_support_https": https, "encrypt_type": scheme, "http_port": 80, "lv": 2}}
    for k, v in kw.items():
        if v is None:
            del r[k]
        else:
            r[k] = v
    return {"result": r, "error_code": 0}


def scheme(typ, **s):
    return result(typ, mgt_encrypt_schm=s)


# name -> (port, payload object or bytes, kind, class, raw callback)
KINDS = {
    "plug": (1, sysinfo(type="IOT.SMARTPLUGSWITCH"), "dev", "IotPlug"),
    "strip": (1, sysinfo(type="IOT.SMARTPLUGSWITCH", children=[{"id": "00", "state": 1, "alias": "x"}], child_num=1), "dev", "IotStrip"),
    "bulb": (1, sysinfo(mic_type="IOT.SMARTBULB"), "dev", "IotBulb"),
    "dimmer": (1, sysinfo(type="IOT.SMARTPLUGSWITCH", dev_name="Smart Dimmer"), "dev", "IotDimmer"),
    "wall": (1, sysinfo(type="IOT.SMARTPLUGSWITCH", dev_name="Light Switch"), "dev", "IotWallSwitch"),
    "lightstrip": (1, sysinfo(mic_type="IOT.SMARTBULB", length=16), "dev", "IotLightStrip"),
    "legacycam": (1, {"system": {"get_sysinfo": {"system": {"type": "IOT.IPCAMERA", "model": "C", "a": 1, "b": 2}}}}, "unsup", ""),
    "weird": (1, sysinfo(type="IOT.WEIRD"), "invalid", ""),
    "notype": (1, sysinfo(), "invalid", ""),
    "type5": (1, sysinfo(type=5), "invalid", ""),
    "list": (1, [], "invalid", ""),
    "five": (1, 5, "invalid", ""),
    "null": (1, None, "invalid", ""),
    "empty": (1, {}, "invalid", ""),
    "sys5": (1, {"system": 5}, "invalid", ""),
    "nosys": (1, {"system": {}}, "invalid", ""),
    "garbage1": (1, b"\x01\x02\xff\xfe garbage", "garbage", ""),
    "none1": (1, b"", "garbage", ""),
    "tapoplug": (2, result("SMART.TAPOPLUG"), "dev", "SmartDevice"),
    "tapoaes": (2, result("SMART.TAPOBULB", "AES"), "dev", "SmartDevice"),
    "kasaiot": (2, result("IOT.SMARTPLUGSWITCH"), "dev", "IotPlug"),
    "kasabulb": (2, result("IOT.SMARTBULB"), "dev", "IotBulb"),
    "camera": (2, result("SMART.IPCAMERA", "AES", True), "dev", "SmartCamDevice"),
    "camhub": (2, result("SMART.TAPOHUB", "AES", True), "dev", "SmartCamDevice"),
    "hub": (2, result("SMART.TAPOHUB"), "dev", "SmartDevice"),
    "robovac": (2, result("SMART.TAPOROBOVAC", "AES", True), "dev", "SmartDevice"),
    "badinfo": (2, result("SMART.TAPOPLUG", encrypt_info={"sym_schm": "AES", "key": "!!", "data": "zz"}), "dev", "SmartDevice"),
    "symschm": (2, result("SMART.TAPOPLUG", encrypt_info={"sym_schm": "KLAP", "key": "", "data": ""},
                          mgt_encrypt_schm={"is_support_https": False}), "dev", "SmartDevice"),
    "noscheme": (2, result("SMART.TAPOPLUG", mgt_encrypt_schm=None), "unsup", ""),
    "noenc": (2, scheme("SMART.TAPOPLUG", is_support_https=False), "unsup", ""),
    "unkenc": (2, scheme("SMART.TAPOPLUG", is_support_https=False, encrypt_type="FOO"), "unsup", ""),
    "unkfam": (2, result("SMART.UNKNOWN"), "unsup", ""),
    "iotaes": (2, result("IOT.SMARTBULB", "AES"), "unsup", ""),
    "smartxor": (2, result("SMART.TAPOPLUG", "XOR"), "unsup", ""),
    "nofields": (2, {"result": {}}, "unsup", ""),
    "noresult": (2, {"error_code": -1}, "unsup", ""),
    "newlist": (2, [], "unsup", ""),
    "newnull": (2, None, "unsup", ""),
    "resfive": (2, {"result": 5}, "unsup", ""),
    "badjson": (2, b"\x00" * 16 + b"{", "garbage", ""),
    "short": (2, b"\x02\x00", "garbage", ""),
}


def payload(kind):
    p, obj, k, cls = KINDS[kind]
    if isinstance(obj, bytes):
        return obj
    raw = json.dumps(obj)
    if p == 1:
        return XorEncryption.encrypt(raw)[4:]
    return b"\x02\x00\x00\x01" + b"\x00" * 12 + raw.encode()


CRED = Credentials("user", "pass")


def drive(script):
    ev = []
    port = script.get("port")
    target = script["target"]
    nm = {f"10.0.0.{i}": f"h{i}" for i in range(1, 9)}

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    class Sock:
        def setsockopt(self, *a):
            pass

    class Transport:
        def __init__(self):
            self.closed = False
            self.proto = None

        def get_extra_info(self, n):
            return Sock()

        def sendto(self, data, addr):
            want = target_addr
            p = 1 if addr[1] == (port or 9999) else 2 if addr[1] == 20002 else 0
            good = addr[0] == want
            try:
                if p == 1:
                    good &= json.loads(XorEncryption.decrypt(bytes(data))) == {"system": {"get_sysinfo": {}}}
                else:
                    d = bytearray(data)
                    v, mt, op, size, fl, pad, ser, crc = struct.unpack(">BBHHBBII", d[:16])
                    good &= (v, mt, op, fl, pad) == (2, 0, 1, 17, 0) and size == len(d) - 16 and "BEGIN PUBLIC KEY" in json.loads(d[16:])["params"]["rsa_key"]
                    d[12:16] = bytes.fromhex("5A6B7C8D")
                    good &= binascii.crc32(d) == crc
            except Exception:  # noqa: BLE001
                good = False
            log("send", p=p, good=bool(good))

        def close(self):
            if not self.closed:
                self.closed = True
                log("close", cancelled=state["cancelled"])
                asyncio.get_running_loop().call_soon(self.proto.connection_lost, None)

    state = {"cancelled": False}
    protos = []
    target_addr = {"*": "255.255.255.255"}.get(target) or next((i for i, h in nm.items() if h == target), "10.0.9.9")

    async def endpoint(loop, factory, **kw):
        tr = Transport()
        pr = tr.proto = factory()
        protos.append(pr)
        loop.call_soon(pr.connection_made, tr)

        def arrive(d):
            if tr.closed:
                return
            p, obj, k, cls = KINDS[d["kind"]]
            src = d.get("p", p)
            if k == "garbage" or src != p:
                k, cls, raw = "invalid", "", False
            else:
                raw = True
            log("recv", h=nm[d["ip"]], p=src, k=k, cls=cls, raw=raw)
            pr.datagram_received(payload(d["kind"]), (d["ip"], {0: 5353, 1: port or 9999, 2: 20002}[src]))

        for d in script["dgrams"]:
            loop.call_later(d["t"] / 1000, arrive, d)
        for t in script.get("errs", []):
            loop.call_later(t / 1000, pr.error_received, OSError("x"))
        return tr, pr

    def resolve(host):
        if target_addr == "10.0.9.9":
            raise socket.gaierror("x")
        return [(2, 2, 17, "", (target_addr, 0))]

    def cfg_ok(dev):
        c = dev.config
        return ((c.credentials or Credentials()) == (CRED if script["cred"] else Credentials()) and c.timeout == (script["dto"] or 5)
                and c.port_override == port)

    async def main():
        dur = script.get("dur", {})
        async def work(h, k, good):
            log("cb", h=h, k=k, good=good)
            if dur.get(h):
                await asyncio.sleep(dur[h] / 1000)
            log("cbend", h=h)

        async def on_disc(dev):
            await work(nm[dev.host], "dev", cfg_ok(dev))

        # an exception need not carry the host: identify it by the datagram
        async def on_unsup_any(ex):
            h = next((nm[ip] for pr in protos for d in vars(pr).values() if isinstance(d, dict)
                      for ip, e in d.items() if e is ex), "?")
            await work(h, "unsup", isinstance(ex, UnsupportedDeviceError))

        def on_raw(r):
            ip = r["meta"]["ip"]
            log("raw", h=nm[ip])

        kw = dict(discovery_timeout=script["timeout"], port=port, timeout=script["dto"])
        if script["cred"]:
            kw.update(credentials=CRED) if script["cred"] == 1 else kw.update(username="user", password="pass")
        if script["raw"]:
            kw["on_discovered_raw"] = on_raw
        if script["onunsup"]:
            kw["on_unsupported"] = on_unsup_any
        if script["single"]:
            host = "myhost" if script.get("name") else target_addr
            if target == "?":
                host = "nowhere"
            co = Discover.discover_single(host, **kw)
        else:
            if script["ondisc"]:
                kw["on_discovered"] = on_disc
            co = Discover.discover(target=target_addr, discovery_packets=script["packets"], **kw)
        task = asyncio.ensure_future(co)
        if script.get("cancel"):
            def cancel():
                if not task.done():
                    state["cancelled"] = True
                    task.cancel()
            asyncio.get_running_loop().call_later(script["cancel"] / 1000, cancel)
        k, devs, good = "", [], True
        try:
            r = await task
        except asyncio.CancelledError:
            log("cancelled", good=state["cancelled"])
            return
        except TimeoutError:
            k = "timeout"
        except UnsupportedDeviceError:
            k = "unsup"
        except KasaException:
            k = "invalid"
        except Exception as ex:  # noqa: BLE001
            k = repr(ex)
        else:
            if script["single"]:
                k = "none" if r is None else "dev"
                if r is not None:
                    good = cfg_ok(r) and r.host == (host)
                    devs = [{"h": target, "cls": type(r).__name__}]
            else:
                k = "devs"
                good = all(cfg_ok(d) and d.host == ip for ip, d in r.items())
                devs = [{"h": nm[ip], "cls": type(d).__name__} for ip, d in r.items()]
        log("ret", k=k, devs=devs, good=good)

    vt.HOOKS["datagram"] = endpoint
    vt.HOOKS["getaddrinfo"] = resolve
    try:
        vt.run(main, vtime=10000, iterations=60000)
        log("end")
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    finally:
        vt.HOOKS.clear()
    return {"cfg": {"single": script["single"], "target": target, "timeout": script["timeout"] * 1000, "packets": 3 if script["single"] else script["packets"],
                    "ondisc": script["ondisc"], "onunsup": script["onunsup"], "onraw": script["raw"]}, "ev": ev}
