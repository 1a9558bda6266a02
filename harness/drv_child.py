"""Driver: queries through the child protocol wrappers of one parent (C09)."""
from __future__ import annotations

import asyncio
import json
import random

import vt

from kasa import DeviceConfig
from kasa.exceptions import KasaException, SmartErrorCode, TimeoutError, _ConnectionError, _RetryableError
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper
from kasa.transports import BaseTransport

from drv_aes import CODES
from drv_query import classify

DEVCODES = [-1, -1002, -1003, -1008, 1000, 1200, -40106, 4242]
RES = {"device": DEVCODES, "auth": CODES["auth"], "retryable": CODES["retryable"]}


def cid(ch):
    return f"ID{ch:04d}"


class Hub(BaseTransport):
    default_port = 80
    credentials_hash = None

    def __init__(self, script, log):
        super().__init__(config=DeviceConfig("127.0.0.1"))
        self.s, self.log, self.cam = script, log, script["cam"]
        self.R = random.Random(json.dumps(script, sort_keys=True))
        self.plan = list(script["ans"])
        self.tok = 0

    def mid(self, name):
        try:
            return int(name.split("_m")[1])
        except Exception:  # noqa: BLE001
            return -1

    def unwrap(self, d):
        """(child, methods) of a request."""
        if self.cam:
            assert d["method"] == "multipleRequest"
            env = d["params"]["requests"]
            if all(e["method"] != "controlChild" for e in env):
                return 0, [self.mid(e["method"]) for e in env]
            ids = {e["params"]["childControl"]["device_id"] for e in env}
            ms = [self.mid(e["params"]["childControl"]["request_data"]["method"]) for e in env]
            for e in env:
                rd = e["params"]["childControl"]["request_data"]
                assert set(rd) == {"method", "params"} and rd["params"]["p"] == self.mid(rd["method"])
        else:
            if d["method"] == "multipleRequest":
                return 0, [self.mid(e["method"]) for e in d["params"]["requests"]]
            if d["method"] != "control_child":
                return 0, [self.mid(d["method"])]
            p = d["params"]
            ids = {p["device_id"]}
            rd = p["requestData"]
            if rd["method"] == "multipleRequest":
                reqs = rd["params"]["requests"]
                for e in reqs:
                    if e.get("params") and e["params"].get("p") != self.mid(e["method"]):
                        return -1, []
                ms = [self.mid(e["method"]) for e in reqs]
            else:
                ms = [self.mid(rd["method"])]
                if rd.get("params") and rd["params"].get("p") != ms[0]:
                    return -1, []
        if len(ids) != 1:
            return -1, ms
        return int(next(iter(ids))[2:]), ms

    async def send(self, request):
        d = json.loads(request)
        p = self.plan.pop(0) if self.plan else {"k": "ans", "j": 99, "e": 0}
        ch, ms = self.unwrap(d)
        self.log("send", ch=ch, ms=ms)
        if p.get("delay"):
            await asyncio.sleep(p["delay"] / 1000)
        k = p["k"]
        if k == "env" and p["c"] in ("conn", "timeout", "kasa"):
            self.log("envfail", c=p["c"])
            raise {"conn": _ConnectionError, "timeout": TimeoutError, "kasa": KasaException}[p["c"]]("x")
        if k == "env":
            self.log("envfail", c=p["c"])
            # codes that do not switch batching off
            codes = [c for c in RES[p["c"]] if c not in (-1003, 4242)]
            return {"error_code": self.R.choice(codes)}
        if k == "child":
            k, p = ("child", p) if ch > 0 else ("ans", {"k": "ans", "j": 99, "e": 0})
        if k == "child":
            code = self.R.choice(RES[p["c"]])
            if self.cam:
                # the hub could not pass the request on
                if len(ms) == 1:
                    self.log("childfail", c=p["c"])
                    it = {"method": "controlChild", "error_code": code}
                    if self.R.random() < 0.3:
                        it["result"] = {}
                    return {"error_code": 0, "result": {"responses": [it]}}
                its = [{"m": m, "k": "code", "tok": self.shown(code), "c": p["c"]} for m in ms]
                self.log("ans", items=its)
                return {"error_code": 0, "result": {"responses": [
                    {"method": "controlChild", "error_code": code} for m in ms]}}
            self.log("childfail", c=p["c"])
            return {"error_code": 0, "result": {"responseData": {"error_code": code}}}
        if k == "odd":
            if ch == 0:
                p = {"k": "ans", "j": 99, "e": 0}
            else:
                self.log("childfail", c="any")
                if self.cam:
                    return {"error_code": 0, "result": {"responses": self.R.choice(
                        [["x"] * len(ms), [{"error_code": 0, "result": 5}] * len(ms), [None], 7])}}
                if len(ms) == 1:
                    return {"error_code": 0, "result": {"responseData": self.R.choice(["x", [1], {"error_code": "zz"}, {"result": {}}])}}
                return {"error_code": 0, "result": {"responseData": self.R.choice(
                    ["x", {"result": 4, "error_code": 0}, {"result": {"responses": [{"error_code": 0, "result": {}}]}, "error_code": 0},
                     {"result": {"responses": ["x"]}, "error_code": 0}])}}
        j = min(p.get("j", 99), len(ms))
        if ch == 0:
            j = len(ms)      # the parent's own batches are specified in Batch.tla
        codes = {str(p["e"] - 1): p.get("c", "device")} if p.get("e") else p.get("codes", {})
        items, parts = [], []
        for i in range(j):
            m = ms[i]
            self.tok += 1
            c = codes.get(str(i))
            if c:
                code = self.R.choice(RES[c])
                items.append({"m": m, "k": "code", "tok": self.shown(code), "c": c})
                parts.append((m, {"error_code": code}))
            elif self.R.random() < 0.1 and ch > 0:
                items.append({"m": m, "k": "none", "tok": 0, "c": "none"})
                parts.append((m, {"error_code": 0}))
            else:
                items.append({"m": m, "k": "val", "tok": self.tok, "c": "none"})
                parts.append((m, {"error_code": 0, "result": {"tok": self.tok, "m": m, "ch": ch}}))
        if not self.cam and len(ms) == 1 and not parts:
            # a single request is always answered
            items.append({"m": ms[0], "k": "none", "tok": 0, "c": "none"})
            parts.append((ms[0], {"error_code": 0}))
        if ch == 0 and (self.cam or len(ms) > 1):
            self.log("ans", items=items)
            return {"error_code": 0, "result": {"responses": [{"method": f"get_m{m}", **x} for m, x in parts]}}
        self.log("ans", items=items)
        if ch == 0:
            return parts[0][1]
        if self.cam:
            return {"error_code": 0, "result": {"responses": [
                {"method": "controlChild", "error_code": 0, "result": {"response_data": x}} for m, x in parts]}}
        if len(ms) == 1:
            return {"error_code": 0, "result": {"responseData": parts[0][1]}}
        if self.R.random() < 0.3:
            self.R.shuffle(parts)
        return {"error_code": 0, "result": {"responseData": {"error_code": 0, "result": {"responses": [
            {"method": f"get_m{m}", **x} for m, x in parts]}}}}

    def shown(self, code):
        return code if code in SmartErrorCode._value2member_map_ else int(SmartErrorCode.INTERNAL_UNKNOWN_ERROR)

    async def reset(self):
        pass

    async def close(self):
        self.log("closed")


def record(m, v, ch):
    if isinstance(v, SmartErrorCode):
        return {"m": m, "k": "code", "tok": int(v)}
    if v is None:
        return {"m": m, "k": "none", "tok": 0}
    try:
        assert v["m"] == m and v["ch"] == ch and set(v) == {"m", "ch", "tok"}
        return {"m": m, "k": "val", "tok": v["tok"]}
    except Exception:  # noqa: BLE001
        return {"m": m, "k": "odd", "tok": 0}


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, **kw})

    async def main():
        tr = Hub(script, log)
        parent = (SmartCamProtocol if script["cam"] else SmartProtocol)(transport=tr)
        W = _ChildCameraProtocolWrapper if script["cam"] else _ChildProtocolWrapper
        kids = {ch: W(cid(ch), parent) for ch in range(1, 5)}
        R = random.Random(script.get("n", 0))

        async def one(i, q):
            log("call", ch=q["ch"], ms=q["ms"], retry=q["retry"])
            req = {f"get_m{m}": {"p": m} for m in q["ms"]}
            if q["ch"] == 0 and script["cam"]:
                req = {f"get_m{m}": {"mod": {}} for m in q["ms"]}
            elif not script["cam"] and R.random() < 0.2:
                req = {k: None for k in req}
                if len(req) == 1 and R.random() < 0.5:
                    req = next(iter(req))
            pr = parent if q["ch"] == 0 else kids[q["ch"]]
            try:
                res = await pr.query(req, q["retry"])
            except Exception as ex:  # noqa: BLE001
                log("err", q=i, k=classify(ex))
            else:
                log("ok", q=i, res=[record(tr.mid(k), v, q["ch"]) for k, v in res.items()])

        tasks = []
        for i, q in enumerate(script["q"], 1):
            if not q.get("par"):
                await asyncio.gather(*tasks)
                tasks = []
            tasks.append(asyncio.ensure_future(one(i, q)))
            await asyncio.sleep(0)
        await asyncio.gather(*tasks)
        await kids[1].close()       # the parent owns the connection
        log("end")

    try:
        vt.run(main, vtime=100000, iterations=20000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    return {"cam": script["cam"], "ev": ev}
