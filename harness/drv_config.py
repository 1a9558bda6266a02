"""Driver: saving, reloading and using a device configuration (C14)."""
from __future__ import annotations

import asyncio
import base64
import json
import random
import types
from dataclasses import replace
import urllib.parse

import vt
import fakehttp  # noqa: F401
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding as apad
from drv_aes import KEYS, CbcSession
from drv_aes import login_params as aes_params
from drv_klap import DEFAULTS, USER, Session, auth_hash
from drv_ssl import login_params as ssl_params
from drv_sslaes import MD5, SHA, Hs
from drv_xor import xor_dec, xor_enc

from kasa import AuthenticationError, Credentials, DeviceConfig
from kasa.device_factory import get_protocol
from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.iot import IotPlug
from kasa.smart import SmartDevice

CRED = {"A": USER, "B": ("other@example.com", "s3cond Pass"), **DEFAULTS}
DEVS = ["A", "B", "blank", "kasa", "kasacamera", "tapo", "tapocamera"]
METHODS = 12


def b64(x):
    return base64.b64encode(x if isinstance(x, bytes) else json.dumps(x, separators=(",", ":")).encode()).decode()


def hash_of(trans, login, who):
    """The stored form of a user's credentials, per transport."""
    up = CRED[who]
    if trans == "KlapTransport":
        return b64(auth_hash(1, up))
    if trans == "KlapTransportV2":
        return b64(auth_hash(2, up))
    if trans == "AesTransport":
        return b64(aes_params(2 if login == 2 else 1, up))
    if trans == "SslTransport":
        return b64(ssl_params(up))
    if trans == "SslAesTransport":
        return b64({"un": up[0], "pwd": up[1]})
    return b64(f"{up[0]}:{up[1]}".encode())


def who_hash(trans, login, h):
    if h is None:
        return "none"
    for w in DEVS:
        x = hash_of(trans, login, w)
        if x == h:
            return w
        try:
            if trans in ("AesTransport", "SslTransport", "SslAesTransport") and \
                    json.loads(base64.b64decode(x)) == json.loads(base64.b64decode(h)):
                return w
        except ValueError:
            pass
    return "?" + h


def build(c, trans):
    return DeviceConfig(
        c["host"], timeout=c["timeout"] or None, port_override=c["port"] or None,
        credentials=None if c["cred"] == "none" else Credentials(*CRED[c["cred"]]),
        credentials_hash=None if c["hash"] == "none" else hash_of(trans, c["login"], c["hash"]),
        batch_size=c["batch"] or None, aes_keys=dict(KEYS) if c["keys"] == "k" else None,
        connection_type=DeviceConnectionParameters(DeviceFamily(c["fam"]), DeviceEncryptionType(c["enc"]), c["login"] or None,
                                                   c["https"], c["hport"] or None))


def fields(cfg, trans):
    def n(x):
        return 0 if x is None else x if type(x) is int else -1
    ct, cr = cfg.connection_type, cfg.credentials
    return {"host": cfg.host, "timeout": n(cfg.timeout), "port": n(cfg.port_override),
            "cred": "none" if cr is None else next((w for w in ("A", "B", "blank") if (cr.username, cr.password) == CRED[w]), "?"),
            "hash": who_hash(trans, ct.login_version or 0, cfg.credentials_hash), "batch": n(cfg.batch_size),
            "keys": "none" if cfg.aes_keys is None else "k" if cfg.aes_keys == KEYS else "gen" if set(cfg.aes_keys) == {"private", "public"} else "?",
            "fam": ct.device_family.value, "enc": ct.encryption_type.value, "login": n(ct.login_version), "https": ct.https, "hport": n(ct.http_port)}


def generic(iot, d, seen):
    if iot:
        return {m: {"x": {"v": 1}} for m in d}
    if d["method"] == "multipleRequest":
        rs = d["params"]["requests"]
        seen["batch"] = max(seen["batch"], len(rs))
        return {"error_code": 0, "result": {"responses": [{"method": r["method"], "error_code": 0, "result": {"v": 1}} for r in rs]}}
    seen["batch"] = max(seen["batch"], 1)
    return {"error_code": 0, "result": {"v": 1}}


class Dev:
    """A device that knows exactly one user (who), for each transport."""

    def __init__(self, trans, login, who, rng, iot):
        self.t, self.login, self.up, self.R, self.iot = trans, login, CRED[who], rng, iot
        self.seen = {"batch": 0, "key": None, "urls": set(), "timeout": set()}
        self.sess = None

    async def handle(self, method, url, body, ck, headers, kw):
        self.seen["urls"].add((url.scheme, url.host, url.port))
        self.seen["timeout"].add(kw["timeout"].total)
        return await getattr(self, self.t)(url, body, headers)

    def js(self, d, **kw):
        return {"body": json.dumps(d).encode(), **kw}

    async def klap(self, v, url, body):
        p = url.path
        if p.endswith("handshake1"):
            self.sess = s = Session(v, 1, body, bytes(self.R.randrange(256) for _ in range(16)), auth_hash(v, self.up))
            return {"body": s.remote + s.hs1_proof(), "cookies": {"TP_SESSIONID": "S"}}
        if p.endswith("handshake2"):
            return {"body": b""} if body == self.sess.hs2_proof() else {"status": 403}
        seq = int(url.query["seq"])
        return {"body": self.sess.seal(seq, json.dumps(generic(self.iot, json.loads(self.sess.open(seq, body)), self.seen)).encode())}

    async def KlapTransport(self, url, body, headers):
        return await self.klap(1, url, body)

    async def KlapTransportV2(self, url, body, headers):
        return await self.klap(2, url, body)

    async def AesTransport(self, url, body, headers):
        d = json.loads(body)
        if d["method"] == "handshake":
            pub = serialization.load_pem_public_key(d["params"]["key"].encode())
            der = b64(pub.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo))
            self.seen["key"] = "k" if der == KEYS["public"] else "gen"
            kiv = bytes(self.R.randrange(256) for _ in range(32))
            self.sess = CbcSession(1, kiv[:16], kiv[16:])
            return self.js({"error_code": 0, "result": {"key": b64(pub.encrypt(kiv, apad.PKCS1v15()))}}, cookies={"TP_SESSIONID": "S"})
        m = json.loads(self.sess.open(d["params"]["request"]))
        if m["method"] == "login_device":
            ok = m["params"] == aes_params(2 if self.login == 2 else 1, self.up)
            a = {"error_code": 0, "result": {"token": "T"}} if ok else {"error_code": -1501}
        else:
            a = generic(False, m, self.seen)
        return self.js({"error_code": 0, "result": {"response": self.sess.seal(json.dumps(a).encode())}})

    async def SslTransport(self, url, body, headers):
        d = json.loads(body)
        if d["method"] == "login":
            return self.js({"error_code": 0, "result": {"token": "T"}} if d["params"] == ssl_params(self.up) else {"error_code": -1501})
        return self.js(generic(False, d, self.seen))

    async def SslAesTransport(self, url, body, headers):
        d = json.loads(body)
        if d["method"] == "login":
            p = d["params"]
            if "digest_passwd" in p:
                if p["username"] != self.up[0] or p["digest_passwd"] != self.sess.digest():
                    return self.js({"error_code": -40401, "result": {"data": {"code": -40401}}})
                return self.js({"error_code": 0, "result": {"stok": "T", "start_seq": 100, "user_group": "root"}})
            if p["username"] != self.up[0]:
                return self.js({"error_code": -40401, "result": {"data": {"code": -40411, "encrypt_type": ["3"]}}})
            alg = self.R.choice([SHA, MD5])
            self.sess = x = Hs(1, p["username"], p["cnonce"], "%016X" % self.R.randrange(16 ** 16), alg(self.up[1]))
            return self.js({"error_code": -40413, "result": {"data": {"code": -40401, "encrypt_type": ["3"], "key": "x", "nonce": x.nonce,
                                                                      "device_confirm": x.confirm()}}})
        m = json.loads(self.sess.cbc.open(d["params"]["request"]))
        return self.js({"error_code": 0, "result": {"response": self.sess.cbc.seal(json.dumps(generic(False, m, self.seen)).encode())}})

    async def LinkieTransportV2(self, url, body, headers):
        d = json.loads(xor_dec(base64.b64decode(urllib.parse.unquote(body.decode().split("=", 1)[1]))))
        ok = headers.get("Authorization") == "Basic " + b64(":".join(DEFAULTS["kasacamera"]).encode())
        return {"body": b64(xor_enc(json.dumps(generic(True, d, self.seen)).encode())[4:]).encode()} if ok else {"status": 401}

    # tcp
    async def open(self, host, port, *a, **kw):
        self.seen["urls"].add(("tcp", host, port))
        r = asyncio.StreamReader()

        def write(data):
            if self.up is not None:
                r.feed_data(xor_enc(json.dumps(generic(True, json.loads(xor_dec(data[4:])), self.seen)).encode()))

        async def nothing():
            pass
        return r, types.SimpleNamespace(get_extra_info=lambda n: types.SimpleNamespace(setsockopt=lambda *a: None), write=write,
                                        drain=nothing, close=lambda: None, wait_closed=nothing)


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    secrets = [x for w in ("A", "B") for x in CRED[w]]

    trans = "?"

    def log(e, **kw):
        ev.append({"e": e, **kw})

    async def wire(cfg):
        proto = get_protocol(cfg)
        if proto is None:
            log("unsup")
            return
        pn, tn = type(proto).__name__, type(proto._transport).__name__
        iot = pn == "IotProtocol"
        req = {(f"getM{i}" if pn == "SmartCamProtocol" else f"get_m{i}"): {"x": {"a": 1}} for i in range(METHODS if not iot else 3)}
        acc, urls, tos, batch, keys = [], set(), set(), 0, set()
        for who in DEVS:
            proto = get_protocol(cfg)
            dev = Dev(tn, cfg.connection_type.login_version or 0, who, R, iot)
            vt.HOOKS["http"], vt.HOOKS["open_connection"] = dev.handle, dev.open
            try:
                res = await proto.query(req, 0)
            except AuthenticationError:
                pass
            except Exception as ex:  # noqa: BLE001
                log("crash", who=who, ex=repr(ex)[:200])
                acc.append("?" + who)
            else:
                acc.append(who if set(res) == set(req) else "?" + who)
            await proto.close()
            urls |= dev.seen["urls"]
            tos |= dev.seen["timeout"]
            batch = max(batch, dev.seen["batch"])
            keys.add(dev.seen["key"])
        if tn == "XorTransport":
            # the timeout: a device that does not answer
            dev = Dev(tn, 0, "A", R, True)
            dev.up = None
            vt.HOOKS["open_connection"] = dev.open
            t0, proto = vt.now_ms(), get_protocol(cfg)
            try:
                await proto.query(req, 0)
            except Exception:  # noqa: BLE001
                pass
            tos.add((vt.now_ms() - t0) / 1000)
            await proto.close()
        keys.discard(None)
        (u,) = urls if len(urls) == 1 else [("?", "?", -1)]
        (to,) = tos if len(tos) == 1 else [-1]
        key = fields(cfg, trans)["keys"] if not keys else keys.pop() if len(keys) == 1 else "?"
        log("wire", proto=pn, trans=tn, scheme=u[0], host=u[1], port=u[2], timeout=int(to), batch=batch, acc=sorted(acc), key=key)

    async def main():
        nonlocal trans
        probe = get_protocol(build({**script["cfg"], "hash": "none", "cred": "none"}, "?"))
        trans = type(probe._transport).__name__ if probe else "?"
        cfg = build(script["cfg"], trans)
        d = None
        via = "dict"
        for s in script["steps"]:
            k = s["k"]
            if k == "wire":
                await wire(cfg)
                log("fields", c=fields(cfg, trans))
            elif k == "export":
                opt = s["opt"]
                via = s["via"]
                if opt in ("own", "hash?"):
                    p = get_protocol(cfg)
                    if p is None:
                        log("unsup")
                        continue
                    h = (IotPlug if type(p).__name__ == "IotProtocol" else SmartDevice)(cfg.host, protocol=p).credentials_hash
                    log("hash", of=who_hash(trans, cfg.connection_type.login_version or 0, h))
                    # making the connection object has settled the timeout
                    if opt == "hash?":
                        continue
                kw = {"plain": {}, "exclude": {"exclude_credentials": True}, "drop": {"credentials_hash": ""},
                      "own": {"credentials_hash": h, "exclude_credentials": s["x"] == "ex"} if opt == "own" else {},
                      "other": {"credentials_hash": hash_of(trans, script["cfg"]["login"], s["x"]) if opt == "other" else None}}[opt]
                if opt in ("drop", "other") and s.get("both"):
                    kw["exclude_credentials"] = True
                d = cfg.to_dict_control_credentials(**kw) if kw or R.random() < 0.5 else cfg.to_dict()
                if via == "json":
                    d = json.loads(json.dumps(d))
                elif via == "jsons" and opt == "plain":
                    d = json.loads(cfg.to_json())
                txt = json.dumps(d)
                log("export", opt=opt, x=s["x"], clear=any(x in txt for x in secrets))
            elif d is None:
                continue
            elif k == "reload":
                new = DeviceConfig.from_json(json.dumps(d)) if via == "jsons" else DeviceConfig.from_dict(d)
                # the same credentials may be stored in different words
                n2 = replace(new, credentials_hash=cfg.credentials_hash) if fields(new, trans)["hash"] == fields(cfg, trans)["hash"] else new
                log("equal", same=n2 == cfg)
                cfg = new
                log("reload", c=fields(cfg, trans))
            elif k == "bad":
                x = json.loads(json.dumps(d))
                how = s["how"]
                if how == "extra":
                    x["unknown"], x["connection_type"]["later"] = {"a": 1}, 7
                    log("extra", c=fields(DeviceConfig.from_dict(x), trans))
                    continue
                if how == "host":
                    del x["host"]
                elif how in ("device_family", "encryption_type"):
                    del x["connection_type"][how]
                elif how in ("fam", "enc"):
                    x["connection_type"]["device_family" if how == "fam" else "encryption_type"] = R.choice(["SMART.NOSUCH", "", None, 5, "smart.tapoplug"])
                elif how == "ct":
                    x["connection_type"] = R.choice(["x", 5, []])
                else:
                    x = R.choice([None, 5, "x", []])
                try:
                    DeviceConfig.from_dict(x)
                except Exception:  # noqa: BLE001
                    log("bad", how=how, refused=True)
                else:
                    log("bad", how=how, refused=False)
        log("end")

    try:
        vt.run(main, vtime=100000, iterations=100000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", ex=repr(ex)[:300])
    finally:
        vt.HOOKS.clear()
    return {"cfg": script["cfg"], "ev": ev}
