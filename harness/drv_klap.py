"""Driver: IotProtocol/SmartProtocol over KLAP v1/v2 against a scripted device (C04)."""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json
import random
import struct

import vt
import fakehttp  # noqa: F401

from cryptography.hazmat.primitives import padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from kasa import Credentials, DeviceConfig
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.transports import KlapTransport, KlapTransportV2

from drv_query import classify

USER = ("user@example.com", "hunter2")
OTHER = ("other@example.com", "password")
DEFAULTS = {"kasa": ("kasa@tp-link.net", "kasaSetup"),
            "kasacamera": ("admin", "21232f297a57a5a743894a0e4a801fc3"),
            "tapo": ("test@tp-link.net", "test"), "tapocamera": ("admin", "admin"), "blank": ("", "")}


def md5(b):
    return hashlib.md5(b).digest()


def sha1(b):
    return hashlib.sha1(b).digest()


def sha256(b):
    return hashlib.sha256(b).digest()


def auth_hash(v, up):
    u, p = (x.encode() for x in up)
    return md5(md5(u) + md5(p)) if v == 1 else sha256(sha1(u) + sha1(p))


class Session:
    def __init__(self, v, h, local, remote, auth):
        self.h, self.v, self.local, self.remote, self.auth = h, v, local, remote, auth
        s = local + remote + auth
        self.key = sha256(b"lsk" + s)[:16]
        iv = sha256(b"iv" + s)
        self.iv, self.seq0 = iv[:12], int.from_bytes(iv[-4:], "big", signed=True)
        self.sig = sha256(b"ldk" + s)[:28]

    def hs1_proof(self):
        return sha256(self.local + self.auth) if self.v == 1 else sha256(self.local + self.remote + self.auth)

    def hs2_proof(self):
        return sha256(self.remote + self.auth) if self.v == 1 else sha256(self.remote + self.local + self.auth)

    def cipher(self, seq):
        return Cipher(algorithms.AES(self.key), modes.CBC(self.iv + struct.pack(">i", seq)))

    def open(self, seq, body):
        ct = body[32:]
        if sha256(self.sig + struct.pack(">i", seq) + ct) != body[:32]:
            raise ValueError("signature")
        d = self.cipher(seq).decryptor()
        u = padding.PKCS7(128).unpadder()
        return u.update(d.update(ct) + d.finalize()) + u.finalize()

    def seal(self, seq, msg):
        p = padding.PKCS7(128).padder()
        e = self.cipher(seq).encryptor()
        ct = e.update(p.update(msg) + p.finalize()) + e.finalize()
        return sha256(self.sig + struct.pack(">i", seq) + ct) + ct


class KlapDevice:
    def __init__(self, script, log):
        self.s, self.log = script, log
        self.v = script["v"]
        self.rng = random.Random(json.dumps(script, sort_keys=True))
        self.q = {k: list(script.get(k, [])) for k in ("hs1", "hs2", "req")}
        self.sess = {}
        self.n = 0
        self.tok = 0

    def plan(self, stage, default):
        p = self.q[stage].pop(0) if self.q[stage] else default
        return {"k": p} if isinstance(p, str) else p

    @staticmethod
    def cookie(ck):
        if not ck:
            return 0
        if set(ck) == {"TP_SESSIONID"} and ck["TP_SESSIONID"].startswith("SID"):
            return int(ck["TP_SESSIONID"][3:])
        return -1

    async def fault(self, p, ev, **kw):
        k = p["k"]
        if p.get("delay"):
            await asyncio.sleep(p["delay"] / 1000)
        if k in ("conn", "timeout", "payload"):
            self.log(ev, k=k, **kw)
            return {"exc": (k, self.rng.randrange(4)), "where": p.get("where", self.rng.choice(["post", "read"]))}
        if k == "http":
            self.log(ev, k=k, **kw)
            return {"status": p.get("status", self.rng.choice([400, 404, 500, 503])), "body": b"x" * self.rng.randrange(3)}
        if k == "http403":
            self.log(ev, k=k, **kw)
            return {"status": 403, "body": b""}
        return None

    async def handle(self, method, url, body, ck, headers, kw):
        path = url.path
        if path == "/app/handshake1":
            return await self.hs1(body, self.cookie(ck))
        if path == "/app/handshake2":
            return await self.hs2(body, self.cookie(ck))
        if path == "/app/request":
            return await self.req(url, body, self.cookie(ck))
        self.log("unknown-post", path=path)
        return {"status": 404, "body": b""}

    async def hs1(self, body, ck):
        self.n += 1
        h = self.n
        self.log("hs1", h=h, ck=ck, len=len(body or b""))
        p = self.plan("hs1", "own")
        f = await self.fault(p, "hs1r")
        if f:
            return f
        k = p["k"]
        if k == "badlen":
            self.log("hs1r", k=k)
            return {"body": bytes(self.rng.choice([0, 10, 47, 49, 64]))}
        own = USER if self.s["cfg"] != "none" else ("", "")
        up = own if k == "own" else OTHER if k == "wrong" else DEFAULTS[k]
        s = Session(self.v, h, body, bytes(self.rng.randrange(256) for _ in range(16)), auth_hash(self.v, up))
        self.sess[h] = s
        cookies = {}
        hasck = p.get("ck", True)
        to = p.get("to", 0)
        if hasck:
            cookies["TP_SESSIONID"] = f"SID{h}"
        if to:
            cookies["TIMEOUT"] = str(to)
        self.log("hs1r", k=k, to=to, hasck=hasck)
        return {"body": s.remote + s.hs1_proof(), "cookies": cookies}

    async def hs2(self, body, ck):
        s = self.sess.get(ck or self.n)
        self.log("hs2", ck=ck, proof=bool(s and body == s.hs2_proof()))
        p = self.plan("hs2", "ok")
        f = await self.fault(p, "hs2r")
        if f:
            return f
        self.log("hs2r", k="ok")
        return {"body": b""}

    async def req(self, url, body, ck):
        try:
            seq = int(url.query["seq"])
        except Exception:  # noqa: BLE001
            seq = None
        key, off, r, s0 = -1, -1, -1, None
        for h in sorted(self.sess, reverse=True):
            try:
                msg = json.loads(self.sess[h].open(seq, body))
                key, s0 = h, self.sess[h]
                off = seq - s0.seq0
                name = msg["method"] if "method" in msg else next(iter(msg))
                r = int(name.split("_r")[1])
                break
            except Exception:  # noqa: BLE001
                continue
        self.log("req", r=r, key=key, ck=ck, off=off)
        p = self.plan("req", "ok")
        f = await self.fault(p, "reqr")
        if f:
            return f
        if p["k"] == "garbage" or s0 is None:
            self.log("reqr", k="garbage")
            return {"body": bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 16, 31, 32, 33, 47, 49, 81])))}
        self.tok += 1
        self.log("reqr", k="ok", tok=self.tok)
        if self.s["fam"] == "iot":
            ans = {f"get_r{r}": {"x": {"tok": self.tok}}}
        else:
            ans = {"error_code": 0, "result": {"x": {"tok": self.tok}}}
        return {"body": s0.seal(seq, json.dumps(ans).encode())}


def make(script):
    fam, v = script["fam"], script["v"]
    cls = KlapTransport if v == 1 else KlapTransportV2
    ct = DeviceConnectionParameters(
        DeviceFamily.IotSmartPlugSwitch if fam == "iot" else DeviceFamily.SmartTapoPlug,
        DeviceEncryptionType.Klap, 2 if v == 2 else None, https=bool(script.get("https")))
    cred = Credentials(*USER)
    if script["cfg"] == "creds":
        cfg = DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct)
    elif script["cfg"] == "both":   # credentials take precedence over a hash
        cfg = DeviceConfig("127.0.0.1", credentials=cred, credentials_hash=base64.b64encode(b"0" * 16).decode(),
                           connection_type=ct)
    elif script["cfg"] == "hash":
        exported = cls(config=DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct)).credentials_hash
        cfg = DeviceConfig("127.0.0.1", credentials_hash=exported, connection_type=ct)
    else:
        cfg = DeviceConfig("127.0.0.1", connection_type=ct)
    return (IotProtocol if fam == "iot" else SmartProtocol)(transport=cls(config=cfg))


def token(r, res):
    try:
        assert list(res) == [f"get_r{r}"]
        return res[f"get_r{r}"]["x"]["tok"]
    except Exception:  # noqa: BLE001
        return -1


async def run_queries(script, proto, log, request, token):
    """Shared by the HTTP drivers: sequential queries with waits, cancellation and close."""
    r = 0
    for q in script["q"]:
        if q.get("wait"):
            await asyncio.sleep(q["wait"] / 1000)
        if q.get("close"):
            await proto.close()
            log("close")
            continue
        r += 1
        state = {"on": True}

        async def one(r=r, q=q, state=state):
            log("call", r=r, retry=q.get("retry", 0))
            try:
                res = await proto.query(request(r), q.get("retry", 0))
            except asyncio.CancelledError:
                log("cancelled")
            except Exception as ex:  # noqa: BLE001
                log("err", k=classify(ex))
            else:
                log("ok", tok=token(r, res))
            state["on"] = False

        task = asyncio.ensure_future(one())
        ct = None
        if q.get("cancel") is not None:
            async def canc(task=task, q=q, state=state):
                await asyncio.sleep(q["cancel"] / 1000)
                if not task.done() and state["on"]:
                    log("cancel")
                    task.cancel()
            ct = asyncio.ensure_future(canc())
        await asyncio.gather(task, return_exceptions=True)
        if ct:
            ct.cancel()


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    async def main():
        dev = KlapDevice(script, log)
        vt.HOOKS["http"] = dev.handle
        proto = make(script)
        await run_queries(script, proto, log, lambda r: {f"get_r{r}": {"a": 1}}, token)
        log("end")
        await proto.close()

    try:
        vt.run(main)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("http", None)
    return {"fam": script["fam"], "ev": ev}
