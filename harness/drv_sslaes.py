"""Driver: SmartCamProtocol over the SSL AES transport against a scripted camera (C06)."""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json
import random

import vt
import fakehttp  # noqa: F401

from kasa import Credentials, DeviceConfig
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.protocols import SmartCamProtocol
from kasa.transports import SslAesTransport

from drv_aes import CODES, CbcSession
from drv_klap import DEFAULTS, USER, run_queries

DEF = DEFAULTS["tapocamera"]
OTHER_PW = "not-the-password"


def SHA(s):
    return hashlib.sha256(s if isinstance(s, bytes) else s.encode()).hexdigest().upper()


def MD5(s):
    return hashlib.md5(s.encode()).hexdigest().upper()


class Hs:
    def __init__(self, h, who, cnonce, nonce, pwhash):
        self.h, self.who, self.cnonce, self.nonce, self.pwhash = h, who, cnonce, nonce, pwhash
        hk = SHA(cnonce + pwhash + nonce)
        k = lambda t: hashlib.sha256((t + cnonce + nonce + hk).encode()).digest()[:16]  # noqa: E731
        self.cbc = CbcSession(h, k("lsk"), k("ivb"))

    def confirm(self):
        return SHA(self.cnonce + self.pwhash + self.nonce) + self.nonce + self.cnonce

    def digest(self):
        return SHA(self.pwhash + self.cnonce + self.nonce) + self.cnonce + self.nonce

    def tag(self, body, seq):
        return SHA(SHA(self.pwhash + self.cnonce) + body.decode() + str(seq))


class Camera:
    def __init__(self, script, log):
        self.s, self.log = script, log
        self.rng = random.Random(json.dumps(script, sort_keys=True))
        self.q = {k: list(script.get(k, [])) for k in ("h1", "less", "h2", "req")}
        self.hs, self.login = {}, {}
        self.nh = self.nl = self.tok = 0

    def plan(self, stage, default):
        p = self.q[stage].pop(0) if self.q[stage] else default
        return dict(p) if isinstance(p, dict) else {"k": p}

    def who(self, name):
        return "user" if name == USER[0] else "default" if name == DEF[0] else "other"

    @staticmethod
    def js(d, status=200):
        return {"body": json.dumps(d).encode(), "status": status}

    async def fault(self, p, ev):
        k, c = p["k"], p.get("c", "-")
        if p.get("delay"):
            await asyncio.sleep(p["delay"] / 1000)
        if k in ("conn", "timeout", "payload"):
            self.log(ev, k=k, c="-")
            return {"exc": (k, self.rng.randrange(4)), "where": self.rng.choice(["post", "read"])}
        if k == "http":
            self.log(ev, k=k, c="-")
            return {"status": self.rng.choice([400, 401, 403, 404, 503]), "body": b"x" * self.rng.randrange(3)}
        if k == "outer":
            self.log(ev, k=k, c=c)
            codes = CODES[c] + ([-40412] if c == "auth" else [])
            if ev == "h2r":
                codes = codes + [-40413] if c == "auth" else [x for x in codes if x != -40413]
            return self.js({"error_code": self.rng.choice(codes)})
        return None

    async def handle(self, method, url, body, ck, headers, kw):
        try:
            d = json.loads(body)
        except Exception:  # noqa: BLE001
            d = {}
        if ck:
            self.log("unexpected-cookie")
        parts = url.path.strip("/").split("/")
        if url.path == "/" and d.get("method") == "login":
            pr = d["params"]
            if "digest_passwd" in pr:
                return await self.h2(pr)
            if "cnonce" in pr:
                return await self.h1(pr)
            return await self.lesslogin(pr)
        if len(parts) == 2 and parts[0].startswith("stok=ST") and parts[1] == "ds":
            return await self.req(int(parts[0][7:]), d, body, headers)
        self.log("unknown-post", path=url.path, m=d.get("method"))
        return {"status": 404}

    async def h1(self, pr):
        self.nh += 1
        h = self.nh
        who = self.who(pr["username"])
        self.log("h1", h=h, who=who)
        p = self.plan("h1", {"k": "nonce", "c": "own" if self.s["cfg"] != "none" else "def"})
        f = await self.fault(p, "h1r")
        if f:
            return f
        k, c = p["k"], p.get("c", "-")
        R = self.rng
        self.log("h1r", k=k, c=c)
        if k == "nonce":
            pw = {"own": USER[1], "def": DEF[1], "wrong": OTHER_PW}[c]
            alg = SHA if R.random() < 0.5 else MD5
            x = Hs(h, who, pr["cnonce"], "%016X" % R.randrange(16 ** 16), alg(pw))
            self.hs[h] = x
            return self.js({"error_code": -40413, "result": {"data": {
                "code": -40401, "encrypt_type": ["3"], "key": "x", "nonce": x.nonce, "device_confirm": x.confirm()}}})
        if k in ("less", "lessbad"):
            d = {"encrypt_type": R.choice([["1"], ["1", "2"], ["2", "3"]])}
            if k == "lessbad":
                d["code"] = -40411
            elif R.random() < 0.5:
                d["code"] = -40401
            return self.js({"error_code": -40401, "result": {"data": d}})
        if k == "blocked":
            return self.js({"error_code": -40401, "data": {"code": -40404, **({"sec_left": 1700} if R.random() < .5 else {})}})
        return self.js(R.choice([
            {"error_code": -40401, "result": {"data": {"code": -40411, "encrypt_type": ["3"]}}},
            {"error_code": -40401, "result": {"data": {"code": -40401, "encrypt_type": ["3"], "nonce": "AB", "device_confirm": "AB"}}},
            {"error_code": -40413, "result": {"data": {"code": -40401, "encrypt_type": ["3"]}}},
            {"error_code": -1}, {"error_code": 9999}, {"error_code": 0}]))

    async def lesslogin(self, pr):
        pw = ("own" if pr.get("password") == MD5(USER[1]) else "def" if pr.get("password") == MD5(DEF[1]) else "other")
        if not pr.get("hashed"):
            pw = "clear"
        self.log("less", who=self.who(pr["username"]), pw=pw)
        p = self.plan("less", "ok")
        f = await self.fault(p, "lessr")
        if f:
            return f
        if p["k"] == "refused":
            self.log("lessr", k="refused")
            return self.js(self.rng.choice([{"error_code": -40401, "result": {"data": {"code": -40401}}},
                                            {"error_code": -40401}, {"error_code": 0, "result": {}}]))
        self.nl += 1
        self.login[self.nl] = None
        self.log("lessr", k="ok", n=self.nl)
        return self.js({"error_code": 0, "result": {"stok": f"ST{self.nl}", "user_group": "root"}})

    async def h2(self, pr):
        x = next((x for x in self.hs.values() if x.cnonce == pr.get("cnonce")), None)
        self.log("h2", who=self.who(pr["username"]), h=x.h if x else -1,
                 proof=bool(x and pr["digest_passwd"] == x.digest()))
        p = self.plan("h2", "ok")
        f = await self.fault(p, "h2r")
        if f:
            return f
        self.nl += 1
        x.seq0 = self.rng.choice([1, 256, 999, 100000])
        self.login[self.nl] = x
        self.log("h2r", k="ok", n=self.nl)
        return self.js({"error_code": 0, "result": {"stok": f"ST{self.nl}", "start_seq": x.seq0, "user_group": "root"}})

    def rnum(self, msg):
        try:
            if msg["method"] == "multipleRequest":
                (q,) = msg["params"]["requests"]
                return int(q["method"][4:]), "multi"
            assert msg["method"] == "get"
            (k,) = [k for k in msg if k != "method"]
            return int(k[1:]), "get"
        except Exception:  # noqa: BLE001
            return -1, "?"

    async def req(self, n, d, body, headers):
        x = self.login.get(n)
        sec = d.get("method") == "securePassthrough"
        key, off, tag, msg = -1, -1, False, d
        if sec:
            for y in self.hs.values():
                try:
                    msg = json.loads(y.cbc.open(d["params"]["request"]))
                    key = y.h
                    off = int(headers["Seq"]) - y.seq0
                    tag = headers.get("Tapo_tag") == y.tag(body, int(headers["Seq"]))
                    break
                except Exception:  # noqa: BLE001
                    continue
        r, form = self.rnum(msg)
        self.log("req", r=r, mode="secure" if sec else "plain", n=n, key=key, off=off, tag=tag)
        p = self.plan("req", "ok")
        if p["k"] == "inner" and form == "get":
            p["k"] = "outer" if not sec else "inner"
        f = await self.fault(p, "reqr")
        if f:
            return f
        k, c = p["k"], p.get("c", "-")
        R = self.rng

        def wrap(m, plain=False):
            if not sec or plain:
                return self.js(m)
            return self.js({"error_code": 0, "result": {"response": x.cbc.seal(json.dumps(m).encode())}})
        if k == "http500":
            self.log("reqr", k=k, c=c)
            return self.js({"error_code": -1, "result": {"response": "abc"}}, 500) if R.random() < 0.5 else {"status": 500}
        if k == "garbage":
            # not even JSON: the post itself fails
            self.log("reqr", k="garbage" if sec else "payload", c=c)
            if not sec:
                return {"body": R.choice([b"", b"{", b"\xff\xfe"])}
            t = base64.b64encode(bytes(R.randrange(256) for _ in range(R.choice([5, 16, 32])))).decode()
            return self.js({"error_code": 0, "result": {"response": R.choice([t, t, "!!", "{"])}})
        if k == "inner":
            self.log("reqr", k="inner", c=c)
            code = R.choice(CODES[c])
            if form == "get":
                return wrap({f"r{r}": {}, "error_code": code})
            return wrap({"error_code": 0, "result": {"responses": [{"method": f"getR{r}", "error_code": code}]}})
        self.tok += 1
        self.log("reqr", k="ok", tok=self.tok)
        if form == "get":
            return wrap({f"r{r}": {"tok": self.tok}, "error_code": 0}, R.random() < 0.3)
        return wrap({"error_code": 0, "result": {"responses": [
            {"method": f"getR{r}", "error_code": 0, "result": {"x": {"tok": self.tok}}}]}}, False)


def make(script):
    fam = DeviceFamily.SmartIpCamera
    ct = DeviceConnectionParameters(fam, DeviceEncryptionType.Aes, 2, https=True)
    cred = Credentials(*USER)
    exported = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct)).credentials_hash
    if script["cfg"] == "creds":
        cfg = DeviceConfig("127.0.0.1", credentials=cred, connection_type=ct)
    elif script["cfg"] == "both":
        other = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"),
                                                    connection_type=ct)).credentials_hash
        cfg = DeviceConfig("127.0.0.1", credentials=cred, credentials_hash=other, connection_type=ct)
    elif script["cfg"] == "hash":
        cfg = DeviceConfig("127.0.0.1", credentials_hash=exported, connection_type=ct)
    else:
        cfg = DeviceConfig("127.0.0.1", connection_type=ct)
    return SmartCamProtocol(transport=SslAesTransport(config=cfg))


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    def form(r):
        f = script.get("form", "mix")
        return f if f != "mix" else ("get" if r % 2 else "multi")

    def request(r):
        return {"get": {f"r{r}": {"a": 1}}} if form(r) == "get" else {f"getR{r}": {"x": {"a": 1}}}

    def token(r, res):
        try:
            assert len(res) == 1
            return res["get"][f"r{r}"]["tok"] if form(r) == "get" else res[f"getR{r}"]["x"]["tok"]
        except Exception:  # noqa: BLE001
            return -1

    async def main():
        dev = Camera(script, log)
        vt.HOOKS["http"] = dev.handle
        proto = make(script)
        await run_queries(script, proto, log, request, token)
        log("end")
        await proto.close()

    try:
        vt.run(main)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("http", None)
    return {"fam": "smart", "cred": script["cfg"] != "none", "ev": ev}
