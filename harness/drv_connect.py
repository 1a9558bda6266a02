"""Driver: connecting to one device / trying all kinds of connections (C13)."""
from __future__ import annotations

import asyncio
import errno
import json
import random
import types

import aiohttp
import vt
import fakehttp
from drv_smartupd import Proto
from drv_xor import xor_dec, xor_enc

import kasa
from kasa import Credentials, Device, DeviceConfig, Discover
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import (AuthenticationError, DeviceError, KasaException, SmartErrorCode, TimeoutError, UnsupportedDeviceError,
                             _ConnectionError, _RetryableError)
from kasa.httpclient import HttpClient
import kasa.transports as TR

ERRS = {"conn": lambda: _ConnectionError("x"), "timeout": lambda: TimeoutError("x"), "auth": lambda: AuthenticationError("x"),
        "dev": lambda: DeviceError("x", error_code=SmartErrorCode.INTERNAL_UNKNOWN_ERROR), "kasa": lambda: KasaException("x"),
        "retry": lambda: _RetryableError("x"), "odd": lambda: ValueError("x"), "os": lambda: OSError(errno.ECONNREFUSED, "x")}
SYS = {"err_code": 0, "model": "HS100(EU)", "sw_ver": "1.0 b", "hw_ver": "1", "mac": "00:00:00:00:00:00", "deviceId": "D", "type": "IOT.SMARTPLUGSWITCH",
       "alias": "a", "relay_state": 1, "feature": "TIM", "on_time": 1, "rssi": -50, "is_dimmable": 1, "is_color": 0, "is_variable_color_temp": 0, "light_state": {"on_off": 1, "brightness": 50, "hue": 0, "saturation": 0, "color_temp": 0, "mode": "normal"}, "preferred_state": []}
HTTPT = ["KlapTransport", "KlapTransportV2", "AesTransport", "SslTransport", "SslAesTransport", "LinkieTransportV2"]


def answer(proto_iot, ns, req):
    d = json.loads(req)
    if proto_iot:
        return {m: {"get_sysinfo": SYS} if m == "system" else {c: {"err_code": 0, "power_mw": 10, "total_wh": 1} for c in cs} if m.endswith("emeter") else {"err_code": -1, "err_msg": "module not support"}
                for m, cs in d.items()}

    def one(r):
        m = r["method"]
        v, _ = Proto.value(ns, m)
        if len(v) <= 2:
            return {"method": m, "error_code": -1001}
        return {"method": m, "error_code": 0, "result": v}
    if d["method"] == "multipleRequest":
        return {"error_code": 0, "result": {"responses": [one(r) for r in d["params"]["requests"]]}}
    return one(d)


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    nm = {}
    st = {"n": {}, "gone": False}
    user_session = []

    def log(e, **kw):
        ev.append({"e": e, **kw})

    ns = types.SimpleNamespace(tok=0, R=random.Random(1), comps={"device": 1}, typ="SMART.TAPOPLUG", data=None)
    fates = {(f["t"], f["h"]): f for f in script["fate"]}

    def fate(tr, https):
        """What happens to this send: None (answered) or an exception / hang."""
        key = (type(tr).__name__, https)
        n = st["n"][key] = st["n"].get(key, 0) + 1
        f = fates[key]
        if st.get("found") or f["f"] == "ok" or n < f["at"]:
            return None
        return f["how"]

    def use(tr):
        c = tr._config.connection_type
        p = {"KlapTransport": "IotProtocol", "XorTransport": "IotProtocol", "LinkieTransportV2": "IotProtocol",
             "SslAesTransport": "SmartCamProtocol"}.get(type(tr).__name__, "SmartProtocol")
        log("use", p=p, t=type(tr).__name__, h=c.https)
        return p == "IotProtocol"

    async def send(self, request):
        iot = use(self)
        hc = next(v for v in vars(self).values() if isinstance(v, HttpClient))
        s = hc.client
        if user_session and s is not user_session[0]:
            log("wrong-session")
        h = fate(self, self._config.connection_type.https)
        await asyncio.sleep(script.get("lat", 0) / 1000)
        if h == "hang":
            await asyncio.sleep(10 ** 9)
        if h:
            raise ERRS[h]()
        return answer(iot, ns, request)

    # the stream of the legacy TCP protocol
    class Writer:
        def __init__(self, reader):
            self.reader, self.rid = reader, None

        def get_extra_info(self, n):
            return types.SimpleNamespace(setsockopt=lambda *a: None)

        def write(self, data):
            log("use", p="IotProtocol", t="XorTransport", h=False)
            h = fate_xor()
            if h == "hang":
                return
            if h in ("conn", "os", "retry"):
                self.reader.feed_eof()
            elif h:
                self.reader.feed_data(b"\x00\x00\x00\x03abc")
            else:
                self.reader.feed_data(xor_enc(json.dumps(answer(True, ns, xor_dec(data[4:]).decode())).encode()))

        async def drain(self):
            await asyncio.sleep(script.get("lat", 0) / 1000)

        def close(self):
            if self.rid is not None:
                log("close", r=self.rid)
                self.rid = None

        async def wait_closed(self):
            pass

    class XT:
        pass
    XT.__name__ = "XorTransport"
    xt = XT()

    def fate_xor():
        return fate(xt, False)

    def rid():
        st["rid"] = st.get("rid", 0) + 1
        return st["rid"]

    async def open_connection(*a, **kw):
        f = fates[("XorTransport", False)]
        if f["f"] != "ok" and f["at"] == 1 and f["how"] in ("os", "conn", "kasa") and not st.get("found"):
            log("use", p="IotProtocol", t="XorTransport", h=False)
            raise OSError({"os": errno.ECONNREFUSED, "conn": errno.EHOSTUNREACH, "kasa": errno.EIO}[f["how"]], "x")
        r = asyncio.StreamReader()
        w = Writer(r)
        w.rid = rid()
        log("use", p="IotProtocol", t="XorTransport", h=False)
        log("open", r=w.rid)
        return r, w

    def s_init(self, *a, **kw):
        real_init(self, *a, **kw)
        self._rid = None
        if not st.get("user"):
            self._rid = rid()
            log("open", r=self._rid)

    async def s_close(self):
        if not self.closed and self._rid is not None:
            log("close", r=self._rid)
        await real_close(self)

    saved = {t: getattr(TR, t).send for t in HTTPT}
    cfgd = script["cfg"]

    async def main():
        cred = Credentials("user", "pass")
        kw = {}
        if script["user_session"]:
            st["user"] = True
            user_session.append(aiohttp.ClientSession())
            st["user"] = False
            kw["http_client"] = user_session[0]
        task = None

        def attempt(ca, good):
            log("report", p=ca.protocol.__name__, t=ca.transport.__name__, c=ca.device.__name__, h=ca.https, good=good)
            st["reports"] = st.get("reports", 0) + 1
            if script.get("cbfail") == st["reports"]:
                st["gone"] = True
                log("gone")
                raise RuntimeError("callback")

        if cfgd["mode"] == "all":
            co = Discover.try_connect_all("127.0.0.1", port=script["port"], timeout=script["timeout"], credentials=cred,
                                          on_attempt=attempt if cfgd["cb"] else None, **kw)
        else:
            ct = DeviceConnectionParameters(DeviceFamily(cfgd["fam"]), DeviceEncryptionType(cfgd["enc"]), 2, cfgd["https"])
            cfg = DeviceConfig("127.0.0.1", timeout=script["timeout"], port_override=script["port"], credentials=cred, connection_type=ct, **kw)
            co = Device.connect(config=cfg)
        task = asyncio.ensure_future(co)
        if script["cancel"] is not None:
            def cancel():
                if not task.done():
                    st["gone"] = True
                    log("gone")
                    task.cancel()
            asyncio.get_running_loop().call_later(script["cancel"] / 1000, cancel)
        dev = None
        try:
            dev = await task
        except asyncio.CancelledError:
            log("err", k="gone" if st["gone"] else "cancelled")
        except UnsupportedDeviceError:
            log("err", k="unsup")
        except KasaException:
            log("err", k="lib")
        except RuntimeError as ex:
            log("err", k="gone" if str(ex) == "callback" else repr(ex))
        except Exception as ex:  # noqa: BLE001
            log("err", k=repr(ex))
        else:
            if dev is None:
                log("ret", dev=False, cls="", good=True)
            else:
                c = dev.config
                good = c.host == "127.0.0.1" and c.timeout == script["timeout"] and c.port_override == script["port"] and c.credentials == cred
                if cfgd["mode"] == "one":
                    good = good and c is cfg
                good = good and bool(dev.sys_info)
                log("ret", dev=True, cls=type(dev).__name__, good=good)
                st["found"] = True
                for s in script["after"]:
                    if s == "upd":
                        try:
                            await dev.update()
                            log("upd", good=True)
                        except Exception:  # noqa: BLE001
                            log("upd", good=False)
                    else:
                        await dev.disconnect()
                        log("disc")
        if user_session:
            if user_session[0].closed:
                log("user-session-closed")
            await user_session[0].close()
        log("end")

    for t in HTTPT:
        setattr(getattr(TR, t), "send", send)
    aiohttp.ClientSession.__init__, aiohttp.ClientSession.close = s_init, s_close
    vt.HOOKS["open_connection"] = open_connection
    try:
        vt.run(main, vtime=100000, iterations=100000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.clear()
        aiohttp.ClientSession.__init__, aiohttp.ClientSession.close = real_init, real_close
        for t in HTTPT:
            setattr(getattr(TR, t), "send", saved[t])
    return {"cfg": {**cfgd, "fate": [{"t": f["t"], "h": f["h"], "f": f["f"]} for f in script["fate"]]}, "ev": ev}


real_init, real_close = aiohttp.ClientSession.__init__, aiohttp.ClientSession.close
