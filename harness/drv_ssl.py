"""Driver: SmartProtocol over the token HTTPS transport against a scripted device (C07)."""
from __future__ import annotations

import asyncio
import hashlib
import json
import random

import vt
import fakehttp  # noqa: F401

from kasa import Credentials, DeviceConfig
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.protocols import SmartProtocol
from kasa.transports import SslTransport

from drv_aes import CODES, LOGIN_ERROR
from drv_klap import DEFAULTS, USER, run_queries, token


def login_params(up):
    return {"username": up[0], "password": hashlib.md5(up[1].encode()).hexdigest().upper()}


class SslDevice:
    def __init__(self, script, log):
        self.s, self.log = script, log
        self.rng = random.Random(json.dumps(script, sort_keys=True))
        self.q = {k: list(script.get(k, [])) for k in ("login", "req")}
        self.nl = self.tok = 0

    def plan(self, stage):
        p = self.q[stage].pop(0) if self.q[stage] else "ok"
        return dict(p) if isinstance(p, dict) else {"k": p}

    @staticmethod
    def js(d):
        return {"body": json.dumps(d).encode()}

    async def handle(self, method, url, body, ck, headers, kw):
        try:
            d = json.loads(body)
        except Exception:  # noqa: BLE001
            d = {}
        tk = url.query.get("token", "T0")
        tk = int(tk[1:]) if tk[:1] == "T" and tk[1:].isdigit() else -1
        if url.path != "/app" or url.scheme != "https" or "method" not in d:
            self.log("unknown-post", path=str(url))
            return {"status": 404}
        if d["method"] == "login":
            stage = "login"
            self.nl += 1
            own = ("", "") if self.s["cfg"] == "none" else USER
            who = ("user" if d["params"] == login_params(own) else
                   "default" if d["params"] == login_params(DEFAULTS["tapo"]) else "other")
            self.log("login", who=who, tk=tk)
        else:
            stage = "req"
            try:
                r = int(d["method"].split("_r")[1])
            except Exception:  # noqa: BLE001
                r = -1
            self.log("req", r=r, tk=tk)
        p = self.plan(stage)
        k, c = p["k"], p.get("c", "-")
        if p.get("delay"):
            await asyncio.sleep(p["delay"] / 1000)
        ev = stage + "r"
        if k in ("conn", "timeout", "payload"):
            self.log(ev, k=k, c="-")
            if k == "payload" and self.rng.random() < 0.5:
                return {"body": self.rng.choice([b"", b"{", b"\xff"])}
            return {"exc": (k, self.rng.randrange(4)), "where": self.rng.choice(["post", "read"])}
        if k == "http":
            self.log(ev, k=k, c="-")
            return {"status": self.rng.choice([400, 401, 403, 404, 500, 503]), "body": b"x" * self.rng.randrange(3)}
        if k == "code":
            self.log(ev, k=k, c=c)
            return self.js({"error_code": self.rng.choice(CODES[c] + ([-40412] if c == "auth" else []))})
        if k == "refused":
            self.log(ev, k="refused" if stage == "login" else "code", c="-" if stage == "login" else "auth")
            return self.js({"error_code": LOGIN_ERROR})
        if stage == "login":
            self.log(ev, k="ok", n=self.nl)
            return self.js({"error_code": 0, "result": {"token": f"T{self.nl}"}})
        self.tok += 1
        self.log(ev, k="ok", tok=self.tok)
        return self.js({"error_code": 0, "result": {"x": {"tok": self.tok}}})


def make(script):
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, 2, https=True)
    cred = Credentials(*USER)
    D = lambda **k: DeviceConfig("127.0.0.1", connection_type=ct, **k)  # noqa: E731
    if script["cfg"] == "creds":
        cfg = D(credentials=cred)
    elif script["cfg"] == "both":
        cfg = D(credentials=cred,
                credentials_hash=SslTransport(config=D(credentials=Credentials("a", "b"))).credentials_hash)
    elif script["cfg"] == "hash":
        cfg = D(credentials_hash=SslTransport(config=D(credentials=cred)).credentials_hash)
    else:
        cfg = D()
    return SmartProtocol(transport=SslTransport(config=cfg))


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    async def main():
        vt.HOOKS["http"] = SslDevice(script, log).handle
        proto = make(script)
        await run_queries(script, proto, log, lambda r: {f"get_r{r}": {"a": 1}}, token)
        log("end")
        await proto.close()

    try:
        vt.run(main)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("http", None)
    return {"fam": "smart", "ev": ev}
