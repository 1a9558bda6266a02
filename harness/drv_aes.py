"""Driver: SmartProtocol over the AES transport against a scripted device (C05)."""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json
import random

import vt
import fakehttp  # noqa: F401

from cryptography.hazmat.primitives import padding, serialization
from cryptography.hazmat.primitives.asymmetric import padding as apad
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from kasa import Credentials, DeviceConfig
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.protocols import SmartProtocol
from kasa.transports import AesTransport

from drv_klap import DEFAULTS, USER, run_queries, token

CODES = {"auth": [1111, -1005, 1100, 1003],
         "retryable": [1002, 1112, -1001, 9999, -40401, -40413],
         "device": [-1, -1002, -1008, 1000, -1301, 1200, -1003, 4242, -987654]}
LOGIN_ERROR = -1501

_k = rsa.generate_private_key(public_exponent=65537, key_size=1024)
KEYS = {"private": base64.b64encode(_k.private_bytes(
            serialization.Encoding.DER, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())).decode(),
        "public": base64.b64encode(_k.public_key().public_bytes(
            serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)).decode()}


def b64sha(s):
    return base64.b64encode(hashlib.sha1(s.encode()).hexdigest().encode()).decode()


def login_params(v, up):
    u, p = up
    if v == 2:
        return {"username": b64sha(u), "password2": b64sha(p)}
    return {"username": b64sha(u), "password": base64.b64encode(p.encode()).decode()}


class CbcSession:
    def __init__(self, h, key, iv):
        self.h, self.key, self.iv = h, key, iv

    def _c(self):
        return Cipher(algorithms.AES(self.key), modes.CBC(self.iv))

    def open(self, b):
        d = self._c().decryptor()
        u = padding.PKCS7(128).unpadder()
        return u.update(d.update(base64.b64decode(b)) + d.finalize()) + u.finalize()

    def seal(self, m):
        p = padding.PKCS7(128).padder()
        e = self._c().encryptor()
        return base64.b64encode(e.update(p.update(m) + p.finalize()) + e.finalize()).decode()


class AesDevice:
    def __init__(self, script, log):
        self.s, self.log = script, log
        self.v = script["v"]
        self.rng = random.Random(json.dumps(script, sort_keys=True))
        self.q = {k: list(script.get(k, [])) for k in ("hs", "login", "req")}
        self.sess = {}
        self.nh = self.nl = self.tok = 0

    def plan(self, stage):
        p = self.q[stage].pop(0) if self.q[stage] else "ok"
        return {"k": p} if isinstance(p, str) else p

    @staticmethod
    def cookie(ck):
        if not ck:
            return 0
        if set(ck) == {"TP_SESSIONID"} and ck["TP_SESSIONID"].startswith("SID"):
            return int(ck["TP_SESSIONID"][3:])
        return -1

    async def handle(self, method, url, body, ck, headers, kw):
        try:
            d = json.loads(body)
        except Exception:  # noqa: BLE001
            d = {}
        tk = url.query.get("token", "T0")
        tk = int(tk[1:]) if tk[:1] == "T" and tk[1:].isdigit() else -1
        if url.path != "/app":
            self.log("unknown-post", path=url.path)
            return {"status": 404}
        if d.get("method") == "handshake":
            return await self.hs(d, self.cookie(ck), tk)
        if d.get("method") == "securePassthrough":
            return await self.pass_(d, self.cookie(ck), tk)
        self.log("unknown-post", body=str(d)[:80])
        return {"status": 404}

    async def fault(self, p, ev):
        k, c = p["k"], p.get("c", "-")
        if p.get("delay"):
            await asyncio.sleep(p["delay"] / 1000)
        if k in ("conn", "timeout", "payload"):
            self.log(ev, k=k, c=c)
            return {"exc": (k, self.rng.randrange(4)), "where": self.rng.choice(["post", "read"])}
        if k == "http":
            self.log(ev, k=k, c=c)
            return {"status": self.rng.choice([400, 403, 404, 500, 503]), "body": b"x" * self.rng.randrange(3)}
        if k == "outer":
            self.log(ev, k=k, c=c)
            return self.js({"error_code": self.rng.choice(CODES[c])})
        return None

    @staticmethod
    def js(d, cookies=None):
        return {"body": json.dumps(d).encode(), "cookies": cookies}

    async def hs(self, d, ck, tk):
        self.nh += 1
        h = self.nh
        self.log("hs", h=h, ck=ck if tk == 0 else -1)
        p = self.plan("hs")
        f = await self.fault(p, "hsr")
        if f:
            return f
        pub = serialization.load_pem_public_key(d["params"]["key"].encode())
        kiv = bytes(self.rng.randrange(256) for _ in range(32))
        self.sess[h] = CbcSession(h, kiv[:16], kiv[16:])
        to, hasck = p.get("to", 0), p.get("ck", True)
        cookies = {}
        if hasck:
            cookies[p.get("ckname", "TP_SESSIONID")] = f"SID{h}"
        if to:
            cookies["TIMEOUT"] = str(to)
        self.log("hsr", k="ok", c="-", to=to, hasck=hasck)
        return self.js({"error_code": 0, "result": {"key": base64.b64encode(
            pub.encrypt(kiv, apad.PKCS1v15())).decode()}}, cookies)

    def answer(self, s0, msg, plain=False):
        txt = json.dumps(msg)
        return self.js({"error_code": 0, "result": {"response": txt if plain else s0.seal(txt.encode())}})

    async def pass_(self, d, ck, tk):
        key, msg, s0 = -1, None, None
        for h in sorted(self.sess, reverse=True):
            try:
                msg = json.loads(self.sess[h].open(d["params"]["request"]))
                key, s0 = h, self.sess[h]
                break
            except Exception:  # noqa: BLE001
                continue
        if msg and msg.get("method") == "login_device":
            stage = "login"
            pr = msg.get("params")
            own = ("", "") if self.s["cfg"] == "none" else USER
            who = ("user" if pr == login_params(self.v, own) else
                   "default" if pr == login_params(self.v, DEFAULTS["tapo"]) else "other")
            self.nl += 1
            self.log("login", who=who, key=key, ck=ck, tk=tk)
        else:
            stage = "req"
            try:
                r = int(msg["method"].split("_r")[1])
            except Exception:  # noqa: BLE001
                r = -1
            self.log("req", r=r, key=key, ck=ck, tk=tk)
        p = self.plan(stage)
        f = await self.fault(p, stage + "r")
        if f:
            return f
        k, c = p["k"], p.get("c", "-")
        if s0 is None or k == "garbage":
            self.log(stage + "r", k="garbage", c=c)
            n = self.rng.choice([0, 5, 16, 32])
            txt = base64.b64encode(bytes(self.rng.randrange(256) for _ in range(n))).decode()
            return self.js({"error_code": 0, "result": {"response": self.rng.choice([txt, txt, "!!", "{"])}})
        if k == "refused":
            self.log("loginr" if stage == "login" else "reqr", k="refused" if stage == "login" else "inner",
                     c="-" if stage == "login" else "auth")
            if p.get("at") == "outer":
                return self.js({"error_code": LOGIN_ERROR})
            return self.answer(s0, {"error_code": LOGIN_ERROR}, p.get("plain"))
        if k == "inner":
            self.log(stage + "r", k="inner", c=c)
            return self.answer(s0, {"error_code": self.rng.choice(CODES[c])}, p.get("plain"))
        if stage == "login":
            self.log("loginr", k="ok", n=self.nl)
            return self.answer(s0, {"error_code": 0, "result": {"token": f"T{self.nl}"}}, p.get("plain"))
        self.tok += 1
        self.log("reqr", k="ok", tok=self.tok)
        return self.answer(s0, {"error_code": 0, "result": {"x": {"tok": self.tok}}}, p.get("plain"))


def make(script):
    v = script["v"]
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, 2 if v == 2 else None)
    cred = Credentials(*USER)
    kw = {} if script.get("newkey") else {"aes_keys": dict(KEYS)}
    if script["cfg"] == "creds":
        cfg = DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct, **kw)
    elif script["cfg"] == "both":
        other = AesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"),
                                                 connection_type=ct)).credentials_hash
        cfg = DeviceConfig("127.0.0.1", credentials=cred, credentials_hash=other, connection_type=ct, **kw)
    elif script["cfg"] == "hash":
        exported = AesTransport(config=DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct)).credentials_hash
        cfg = DeviceConfig("127.0.0.1", credentials_hash=exported, connection_type=ct, **kw)
    else:
        cfg = DeviceConfig("127.0.0.1", connection_type=ct, **kw)
    return SmartProtocol(transport=AesTransport(config=cfg))


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    async def main():
        dev = AesDevice(script, log)
        vt.HOOKS["http"] = dev.handle
        proto = make(script)
        await run_queries(script, proto, log, lambda r: {f"get_r{r}": {"a": 1}}, token)
        log("end")
        await proto.close()

    try:
        vt.run(main)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("http", None)
    return {"fam": "smart", "ev": ev}
