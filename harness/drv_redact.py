"""Driver: what the debug log shows of answers (C26)."""
from __future__ import annotations

import base64
import copy
import json
import logging
import random

import vt
import fakedev

from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, Discover
from kasa.deviceconfig import DeviceEncryptionType, DeviceFamily
from kasa.exceptions import KasaException
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import SmartCamProtocol, _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper
from kasa.transports import BaseTransport, SslTransport
from kasa.transports.linkietransport import LinkieTransportV2
from kasa.transports.xortransport import XorEncryption

ALNUM = "ABCDEFGHJKLMNPQRSTUVWXYZ23456789"
NUM = {"latitude", "longitude", "latitude_i", "longitude_i", "la", "lo"}


class Cap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, rec):
        m = rec.getMessage()
        if " >> " not in m and not (rec.name.endswith("ssltransport") and m.startswith("Sending")):
            self.out.append(m + (logging.Formatter().formatException(rec.exc_info) if rec.exc_info else ""))


class Wire(BaseTransport):
    default_port = 80
    credentials_hash = None

    def __init__(self, f):
        super().__init__(config=fakedev.CFG)
        self.f = f

    async def send(self, request):
        return self.f(json.loads(request))

    async def reset(self):
        pass

    async def close(self):
        pass


def drive(script):
    ev = []
    R = random.Random(json.dumps(script, sort_keys=True))
    fam, route = script["fam"], script["route"]
    log = logging.getLogger("kasa")
    cap = Cap()

    def text(n):
        return "".join(R.choice(ALNUM) for _ in range(n))

    def secret(key):
        """A value for the key and its pieces."""
        if key in NUM:
            v = R.randint(10 ** 8, 10 ** 9)
            return v, [str(v)] * 3
        if "mac" in key:
            h = "".join(R.choice("0123456789abcdef") for _ in range(12)) if R.random() < 0.5 else "".join(R.choice("0123456789ABCDEF") for _ in range(12))
            sep = R.choice(["", ":", "-"])
            v = sep.join(h[i:i + 2] for i in range(0, 12, 2))
            return v, [v[:6 + 2 * len(sep)] + "~", v[-6 - 2 * len(sep):], "~"]
        if key in ("nickname", "ssid", "map_name") and R.random() < 0.3:
            v = base64.b64encode(text(18).encode()).decode()
        else:
            v = text(R.choice([9, 12, 32, 40]))
        return v, [v[:9], v[-6:] if len(v) > 15 else v, v[len(v) // 2 - 2:len(v) // 2 + 4]]

    leaves = []     # (path of keys, pieces)

    def build(fields):
        """An answer with the given fields at their places."""
        top = {}
        for f in fields:
            v, pieces = secret(f["key"])
            keys, cur, name = [], top, None
            for i, c in enumerate(f["path"]):
                name = f"x{i}{R.choice('abc')}"
                if c == "map":
                    nxt = {}
                    if isinstance(cur, dict):
                        nxt = cur.setdefault(name, nxt)
                        if not isinstance(nxt, dict):
                            nxt = cur[name + "m"] = {}
                            name += "m"
                        keys.append(name)
                    else:
                        cur.append(nxt)
                else:
                    nxt = []
                    if isinstance(cur, dict):
                        nxt = cur.setdefault(name, nxt)
                        if not isinstance(nxt, list):
                            nxt = cur[name + "l"] = []
                            name += "l"
                        keys.append(name)
                    else:
                        cur.append(nxt)
                cur = nxt
            if isinstance(cur, list):
                el = {}
                cur.append(el)
                cur = el
            if f["key"] in cur:
                continue
            w = v
            if f.get("odd") == "list" and isinstance(v, str):
                w = [v]
            elif f.get("odd") == "map" and isinstance(v, str):
                w = {"y": v}
            elif f.get("odd") == "empty":
                w, pieces = "", ["~"] * 3
            cur[f["key"]] = w
            leaves.append((keys + [f["key"]], pieces))
            cur[f"plain{R.randrange(9)}"] = R.randrange(1000)
        return top

    async def main():
        on = script["on"]
        Discover._redact_data = on
        if not on:
            ev.append({"e": "switch", "on": False})
        fields = script["fields"]
        err = script.get("err", 0)
        got = want = None
        body = build(fields)
        if fam == "iot":
            if route == "list":      # a strip: sockets
                a, pa = secret("alias")
                b, pb = secret("deviceId")
                body["children"] = [{"id": b, "alias": a, "state": 1}, {"id": "00", "alias": "", "state": 0}]
                leaves.extend([(["alias"], pa), (["deviceId"], pb)])
            if route == "disc":
                body = {"system": {"get_sysinfo": {"model": "HS100(EU)", "sw_ver": "1", "hw_ver": "1", "type": R.choice(["IOT.SMARTPLUGSWITCH", "IOT.SMARTPLUGSWITCH", "IOT.X"]),
                                                   "feature": "TIM", "err_code": 0, **body}}}
                if "mac" not in body["system"]["get_sysinfo"]:
                    v, p = secret("mac")
                    body["system"]["get_sysinfo"]["mac"] = v
                    leaves.append((["mac"], p))
                try:
                    info = copy.deepcopy(body)
                    d = Discover._get_device_instance_legacy(info, DeviceConfig("127.0.0.1"))
                    got, want = d._last_update, body
                except KasaException as ex:
                    log.getChild("discover").debug("%s", ex)     # as the discovery does
                    got, want = info, body
            elif route == "linkie":
                enc = base64.b64encode(XorEncryption.encrypt(json.dumps(body))[4:])
                t = LinkieTransportV2(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))

                async def post(*a, **k):
                    return 200, enc

                t._http_client.post = post
                p = IotProtocol(transport=t)
                p._redact_data = on
                got, want = await p.query({"smartlife.cam.ipcamera.motionDetect": {"get_x": {}}}), body
                await p.close()
            else:
                p = IotProtocol(transport=Wire(lambda r: copy.deepcopy(body)))
                p._redact_data = on
                got, want = await p.query({"system": {"get_sysinfo": {}}}), body
        elif fam == "new":
            base = {"device_type": "SMART.TAPOPLUG", "device_model": "P100(EU)", "ip": "1.1.1.1",
                    "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}}
            for k in ("device_id", "mac"):
                v, p = secret(k)
                base[k] = v
                leaves.append(([k], p))
            kind = route if route in ("nofam", "noenc", "missing", "crypt") else "ok"
            if kind == "nofam":
                base["device_type"] = "SMART.X"
            elif kind == "noenc":
                base["mgt_encrypt_schm"]["encrypt_type"] = R.choice(["FOO", "XOR"])
            elif kind == "missing":
                del base["device_model"]
            elif kind == "crypt":
                from kasa.discover import _AesDiscoveryQuery
                from kasa.transports.aestransport import AesEncyptionSession
                _AesDiscoveryQuery.generate_query()
                v, p = secret("connect_ssid")
                v2, p2 = secret("owner")
                leaves.extend([(["connect_ssid"], p), (["owner"], p2)])
                key, iv = bytes(R.randrange(256) for _ in range(16)), bytes(R.randrange(256) for _ in range(16))
                from cryptography.hazmat.primitives.asymmetric import padding
                from cryptography.hazmat.primitives import hashes
                pub = _AesDiscoveryQuery.keypair.public_key
                enc = pub.encrypt(key + iv, padding.OAEP(mgf=padding.MGF1(algorithm=hashes.SHA1()), algorithm=hashes.SHA1(), label=None))
                data = AesEncyptionSession(key, iv).encrypt(json.dumps({"connect_ssid": v, "owner": v2, "sta": {"connect_ssid": v}, "x": 1}).encode()).decode()
                if R.random() < 0.2:
                    data = data[:-8]
                base["encrypt_info"] = {"sym_schm": "AES", "key": base64.b64encode(enc).decode(), "data": data}
            for k, v in body.items():
                if k not in base:
                    base[k] = v
                else:
                    leaves[:] = [x for x in leaves if not (x[0] == [k] and x[1][1] not in str(base[k]))]
            info = {"result": base, "error_code": 0}
            want = copy.deepcopy(info)
            try:
                cfg = DeviceConfig("127.0.0.1", connection_type=DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap))
                d = Discover._get_device_instance(info, cfg)
                await d.protocol.close()
            except KasaException as ex:
                log.getChild("discover").debug("%s", ex)
            got = info
        else:
            def send(r):
                m = r["method"]
                if m == "multipleRequest":
                    rs = []
                    for q in r["params"]["requests"]:
                        if q["method"] == "controlChild":
                            rs.append({"method": q["method"], "result": {"response_data": {"method": q["params"]["childControl"]["request_data"]["method"], "result": copy.deepcopy(body), "error_code": err}}, "error_code": 0})
                            continue
                        x = {"method": q["method"], "result": copy.deepcopy(body), "error_code": err}
                        if route == "nomethod":
                            del x["method"]
                        rs.append(x)
                    return {"result": {"responses": rs}, "error_code": 0}
                if m == "control_child":
                    q = r["params"]["requestData"]
                    if q["method"] == "multipleRequest":
                        res = {"responses": [{"method": x["method"], "result": copy.deepcopy(body), "error_code": err} for x in q["params"]["requests"]]}
                        return {"result": {"responseData": {"result": res, "error_code": 0}}, "error_code": 0}
                    return {"result": {"responseData": {"result": copy.deepcopy(body), "error_code": err}}, "error_code": 0}
                if m == "get":
                    return {**{k: copy.deepcopy(body) for k in r if k != "method"}, "error_code": err}
                res = copy.deepcopy(body)
                if route == "paged":
                    first = (r.get("params") or {}).get("start_index", 0) == 0
                    res = {"thelist": [copy.deepcopy(body)], "start_index": 0 if first else 1, "sum": 2}
                return {"result": res, "error_code": err}
            kind = {"smart": SmartProtocol, "cam": SmartCamProtocol, "ssl": SmartProtocol}[fam]
            if fam == "ssl":
                tok, p = secret("mfi_token_token")
                leaves.append((["mfi_token_token"], p))
                t = SslTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))

                async def post(url, *, json=None, headers=None, **k):
                    r = __import__("json").loads(json)
                    if r["method"] == "login":
                        return 200, {"error_code": 0, "result": {"token": tok}}
                    return 200, send(r)

                t._http_client.post = post
            else:
                t = Wire(send)
            p = kind(transport=t)
            p._redact_data = on
            q = p
            if route == "child":
                q = _ChildCameraProtocolWrapper("KID", p) if fam == "cam" else _ChildProtocolWrapper("KID", p)
            if route == "step1":
                p._multi_request_batch_size = 1
            req = {"get_a": {"x": 1}} if route in ("single", "paged", "child") else {"get_a": {"x": 1}, "get_b": {"y": 1}}
            if fam == "cam" and route == "single":
                req = {"get": {"mod": {"name": "sec"}}}
            if route == "child" and R.random() < 0.5:
                req["get_b"] = {"y": 1}
            try:
                got = await q.query(req)
                if err:
                    got = want = 0
                elif route == "paged" and fam != "cam":
                    want = {"get_a": {"thelist": [body, body], "start_index": 0, "sum": 2}}
                elif fam == "cam" and route == "single":
                    want = {"get": {"mod": body}}
                else:
                    want = {k: body for k in req}
                    if route == "paged":
                        got = want
            except KasaException:
                got = want = 0
            await p.close()
        textlog = "\n".join(cap.out)
        fm = fam if fam in ("iot", "new") else "smart"
        ev.append({"e": "answer", "fam": fm, "same": got == want, "n": len(cap.out),
                   "leaves": [{"p": k, "head": p[0] in textlog, "tail": p[1] in textlog, "mid": p[2] in textlog} for k, p in leaves]})
        if got != want:
            ev[-1]["why"] = repr((got, want))[:800]

    old, prop, dis = log.level, log.propagate, logging.root.manager.disable
    log.addHandler(cap)
    log.setLevel(logging.DEBUG)
    log.propagate = False
    logging.disable(logging.NOTSET)
    try:
        vt.run(main, vtime=3600, iterations=100000)
    except vt.Hang as ex:
        ev.append({"e": "hang", "why": str(ex)})
    except Exception as ex:
        import traceback
        ev.append({"e": "crash", "why": repr(ex), "tb": traceback.format_exc()[-600:]})
    finally:
        Discover._redact_data = True
        log.removeHandler(cap)
        log.setLevel(old)
        log.propagate = prop
        logging.disable(dis)
    return {"ev": ev, "ev_debug": [m[:1500] for m in cap.out]}
