"""Driver: every HTTP transport with arbitrary faults and malformed answers (C18).

The devices of the session drivers answer properly; on the way back the answer
is replaced or damaged as the script says - damaged JSON is damaged before the
device encrypts it, so that it decrypts fine and is merely malformed.
"""
from __future__ import annotations

import asyncio
import base64
import copy
import json as _json
import random
import types
import urllib.parse

import vt
import fakehttp  # noqa: F401

import drv_aes
import drv_klap
import drv_ssl
import drv_sslaes
from drv_xor import xor_dec, xor_enc

from kasa import DeviceConfig
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.protocols import IotProtocol
from kasa.transports import LinkieTransportV2

JUNK = [None, 0, 1, -1, "", "x", [], {}, [1], {"a": 1}, True, 1.5, 10 ** 12, "é", -1002, 4242, "-40413"]
DAMAGE = {"rng": None, "done": False}


def damage_json(d, R):
    d = copy.deepcopy(d)
    paths = []

    def walk(x, p):
        paths.append(p)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], p + [k])
        elif isinstance(x, list):
            for i in range(len(x)):
                walk(x[i], p + [i])
    walk(d, [])
    p = R.choice(paths)
    if not p:
        return R.choice(JUNK)
    x = d
    for k in p[:-1]:
        x = x[k]
    if R.random() < 0.4:
        del x[p[-1]]
    else:
        x[p[-1]] = R.choice(JUNK)
    return d


def _dumps(o, *a, **k):
    R = DAMAGE["rng"]
    if R is not None and isinstance(o, dict) and not DAMAGE["done"]:
        DAMAGE["done"] = True
        o = damage_json(o, R)
    return _json.dumps(o, *a, **k)


_shim = types.SimpleNamespace(dumps=_dumps, loads=_json.loads)


class LinkieDevice:
    def __init__(self, script, log):
        self.tok = 0

    async def handle(self, method, url, body, ck, headers, kw):
        c = urllib.parse.unquote(body.decode().split("=", 1)[1])
        d = _json.loads(xor_dec(base64.b64decode(c)))
        r = int(next(iter(d)).split("_r")[1])
        self.tok += 1
        ans = _shim.dumps({f"get_r{r}": {"x": {"tok": self.tok}}})
        return {"body": base64.b64encode(xor_enc(ans.encode())[4:])}


def make_linkie(script):
    ct = DeviceConnectionParameters(DeviceFamily.IotIpCamera, DeviceEncryptionType.Xor, https=True)
    return IotProtocol(transport=LinkieTransportV2(config=DeviceConfig("127.0.0.1", connection_type=ct)))


KINDS = {
    "klap": (drv_klap.KlapDevice, drv_klap.make, drv_klap),
    "aes": (drv_aes.AesDevice, drv_aes.make, drv_aes),
    "sslaes": (drv_sslaes.Camera, drv_sslaes.make, drv_sslaes),
    "ssl": (drv_ssl.SslDevice, drv_ssl.make, drv_ssl),
    "linkie": (LinkieDevice, make_linkie, None),
}


def drive(script):
    ev = []
    R = random.Random(_json.dumps(script, sort_keys=True))
    out = list(script["out"])
    slow = list(script.get("slow", []))
    kind = script["kind"]
    dcls, mk, mod = KINDS[kind]

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    dev = dcls(script, lambda *a, **k: None)

    async def handle(method, url, body, ck, headers, kw):
        log("post")
        if slow and (d := slow.pop(0)):
            await asyncio.sleep(d / 1000)
        k = out.pop(0) if out else "ok"
        if k == "ok":
            res = await dev.handle(method, url, body, ck, headers, kw)
            log("resp", k="ok" if not state["dirty"] else "bad")
            return res
        if k in ("conn", "timeout"):
            where = R.choice(["post", "read"])
            if where == "read" and R.random() < 0.5:
                await dev.handle(method, url, body, ck, headers, kw)   # processed, answer lost
            log("resp", k=k)
            return {"exc": (k, R.randrange(4)), "where": where}
        if k == "payload":
            log("resp", k="bad")
            return {"exc": ("payload", R.randrange(4)), "where": R.choice(["post", "read"])}
        if k == "http":
            log("resp", k="http")
            return {"status": R.choice([201, 204, 301, 400, 401, 403, 404, 429, 500, 502, 503]),
                    "body": R.choice([b"", b"x", b"{}", b'{"error_code":0}', b'[1]', b"null", b"\xff"])}
        # malformed answer
        state["dirty"] = True
        how = R.random()
        if how < 0.65:
            DAMAGE.update(rng=R, done=False)
            try:
                res = await dev.handle(method, url, body, ck, headers, kw)
            finally:
                hit = DAMAGE["done"]
                DAMAGE.update(rng=None, done=False)
        else:
            hit = False
            res = await dev.handle(method, url, body, ck, headers, kw)
        res = dict(res)
        if not hit:
            b = res.get("body") or b""
            m = R.randrange(7)
            if m == 0:
                b = b[:R.randrange(len(b) + 1)]
            elif m == 1 and b:
                i = R.randrange(len(b))
                b = b[:i] + bytes([b[i] ^ (1 << R.randrange(8))]) + b[i + 1:]
            elif m == 2:
                b = b + bytes(R.randrange(256) for _ in range(R.randint(1, 20)))
            elif m == 3:
                b = R.choice([b"", b"null", b"[]", b"0", b'"x"', b"{}", b"\xff\xfe", b"{", b"NaN", b"\x00" * 48])
            elif m == 4:
                b = bytes(R.randrange(256) for _ in range(R.choice([16, 32, 48, 64, 100])))
            elif m == 5:
                res["cookies"] = {**(res.get("cookies") or {}), "TIMEOUT": R.choice(["abc", "", "-5", "1e9", "0", "99999999999"])}
            else:
                res["cookies"] = {}
            res["body"] = b
        log("resp", k="bad")
        return res

    state = {"dirty": False}

    def request(r):
        if kind == "sslaes":
            return {"get": {f"r{r}": {"a": 1}}} if r % 2 else {f"getR{r}": {"x": {"a": 1}}}
        return {f"get_r{r}": {"a": 1}}

    def token(r, res):
        if kind == "sslaes" and r % 2:
            good = isinstance(res, dict) and set(res) == {"get"}
        else:
            good = isinstance(res, dict) and set(res) == set(request(r))
        state["good"] = good
        return r

    def log2(e, **kw):
        if e == "ok":
            kw["good"] = state.get("good", False)
        log(e, **kw)

    async def main():
        vt.HOOKS["http"] = handle
        proto = mk(script)
        await drv_klap.run_queries(script, proto, log2, request, token)
        log("end")
        await proto.close()

    saved = mod.json if mod else None
    if mod:
        mod.json = _shim
    try:
        vt.run(main)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("http", None)
        if mod:
            mod.json = saved
    fam = "iot" if kind == "linkie" or (kind == "klap" and script["fam"] == "iot") else "smart"
    return {"fam": fam, "lump": kind == "linkie", "ev": [e for e in ev if e["e"] != "close"]}
