"""Driver: Smart(Cam)Protocol batching and paging over a scripted transport (C08)."""
from __future__ import annotations

import json
import random

import vt

from kasa import DeviceConfig
from kasa.exceptions import (KasaException, SmartErrorCode, TimeoutError, _ConnectionError, _RetryableError)
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.transports import BaseTransport

from drv_aes import CODES
from drv_query import classify

FORCED = {"getConnectStatus": 101, "scanApList": 102}
FNAME = {v: k for k, v in FORCED.items()}
BATCH_CODES = {"nobatch": [-1003, -100000, 4242, -31337], "device": [-1, -1002, -1008, 1000, 1200, -40106],
               "auth": CODES["auth"], "retryable": CODES["retryable"]}


class Dev(BaseTransport):
    default_port = 80
    credentials_hash = None

    def __init__(self, script, log):
        super().__init__(config=DeviceConfig("127.0.0.1", batch_size=script["bs"]))
        self.s, self.log = script, log
        self.cam = script["cam"]
        self.R = random.Random(json.dumps(script, sort_keys=True))
        self.plan = list(script["ans"])
        self.tok = 0
        # methods: m -> ("val"|"none"|"list", total, page)
        self.kinds = {int(k): v for k, v in script["kinds"].items()}

    def mid(self, name):
        if name in FORCED:
            return FORCED[name]
        try:
            return int(name.split("_m")[1])
        except Exception:  # noqa: BLE001
            return -1

    def start(self, params):
        if not params:
            return None
        p = params.get("mod", params) if self.cam else params
        return p.get("start_index") if isinstance(p, dict) else None

    def one(self, m, start, code=None, n=None):
        """The device's answer for one method: (json part, record)"""
        self.tok += 1
        rec = {"m": m, "k": "val", "tok": self.tok, "n": 0, "total": 0, "c": "none"}
        if code:
            rec.update(k="code", tok=0, c=code)
            c = self.R.choice(BATCH_CODES[code] + ([-1003, 4242] if code == "device" else []))
            rec["tok"] = c
            if c not in SmartErrorCode._value2member_map_:
                rec["tok"] = int(SmartErrorCode.INTERNAL_UNKNOWN_ERROR)
            return {"error_code": c}, rec
        kind, total, page = self.kinds.get(m, ("val", 0, 0))
        if kind == "none":
            rec.update(k="none", tok=0)
            return {"error_code": 0}, rec
        if kind == "list":
            s = start or 0
            cnt = min(page, total - s) if n is None else n
            rec.update(k="list", n=cnt, total=total)
            return {"error_code": 0, "result": {"tok": self.tok, "start_index": s, "sum": total,
                                                "items": [s + i + 1 for i in range(cnt)]}}, rec
        return {"error_code": 0, "result": {"tok": self.tok, "x": {"m": m}}}, rec

    async def send(self, request):
        d = json.loads(request)
        p = self.plan.pop(0) if self.plan else {"k": "all"}
        k = p["k"]
        if d["method"] == "multipleRequest":
            reqs = d["params"]["requests"]
            ms = [self.mid(q["method"]) for q in reqs]
            st = [self.start(q.get("params")) for q in reqs]
            if len(ms) == 1 and st[0]:
                ev = dict(kind="page", m=ms[0], start=st[0], batch=True)
            else:
                ev = dict(kind="batch", ms=ms)
        else:
            ms, st = [self.mid(d["method"])], [self.start(d.get("params"))]
            ev = dict(kind="page", m=ms[0], start=st[0], batch=False) if st[0] else dict(kind="single", m=ms[0])
            reqs = None
        self.log("send", **ev)
        if k in ("conn", "timeout", "kasa", "retryable"):
            self.log("fault", c=k)
            raise {"conn": _ConnectionError("x"), "timeout": TimeoutError("x"), "kasa": KasaException("x"),
                   "retryable": _RetryableError("x")}[k]
        if reqs is None:
            code = p.get("c", "device") if k == "code" else None
            j, rec = self.one(ms[0], st[0], code, p.get("n") if k == "page" and ev["kind"] == "page" else None)
            self.log("ans", items=[rec])
            return j
        if k == "refuse":
            self.log("refuse", c=p["c"])
            return {"error_code": self.R.choice(BATCH_CODES[p["c"]])}
        items, parts = [], []
        cut = p.get("j", len(ms)) if k == "some" else len(ms)
        drop = set(p.get("drop", ()))
        nokey = set(p.get("nokey", ()))
        codes = p.get("codes", {})
        for i, m in enumerate(ms[:cut]):
            if i in drop:
                continue
            code = codes.get(str(i)) or ("device" if k == "some" and p.get("e") and i == cut - 1 else
                                         p.get("c", "device") if k == "code" else None)
            j, rec = self.one(m, st[i], code, p.get("n") if k == "page" and ev["kind"] == "page" else None)
            if i in nokey:
                rec = {**rec, "k": "nokey"}
            else:
                j = {"method": reqs[i]["method"], **j}
            items.append(rec)
            parts.append(j)
        order = list(range(len(parts)))
        if p.get("rev"):
            order.reverse()
        if p.get("shuffle"):
            self.R.shuffle(order)
        self.log("ans", items=[items[i] for i in order])
        return {"error_code": 0, "result": {"responses": [parts[i] for i in order]}}

    async def reset(self):
        pass

    async def close(self):
        pass


def record(m, v):
    if isinstance(v, SmartErrorCode):
        return {"m": m, "k": "code", "tok": int(v), "items": []}
    if v is None:
        return {"m": m, "k": "none", "tok": 0, "items": []}
    try:
        if "items" in v:
            return {"m": m, "k": "list", "tok": v["tok"], "items": v["items"]}
        assert v["x"]["m"] == m
        return {"m": m, "k": "val", "tok": v["tok"], "items": []}
    except Exception:  # noqa: BLE001
        return {"m": m, "k": "odd", "tok": 0, "items": []}


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, **kw})

    async def main():
        tr = Dev(script, log)
        proto = (SmartCamProtocol if script["cam"] else SmartProtocol)(transport=tr)
        R = random.Random(script.get("n", 0))
        for q in script["q"]:
            ms = list(q["ms"])
            if q.get("shuffle"):
                R.shuffle(ms)
            req = {}
            for m in ms:
                name = FNAME.get(m, f"get_m{m}")
                lst = tr.kinds.get(m, ("val",))[0] == "list"
                if script["cam"]:
                    req[name] = {"mod": {"start_index": 0} if lst else {}}
                else:
                    req[name] = {"start_index": 0} if lst and R.random() < 0.5 else R.choice([None, {"a": 1}])
            log("call", ms=ms, force=[m for m in ms if m in FNAME], retry=q["retry"])
            if not script["cam"] and len(ms) == 1 and R.random() < 0.3:
                req = next(iter(req))
            try:
                res = await proto.query(req, q["retry"])
            except Exception as ex:  # noqa: BLE001
                log("err", k=classify(ex))
            else:
                log("ok", res=[record(tr.mid(k), v) for k, v in res.items()])
        log("end")

    try:
        vt.run(main, vtime=100000, iterations=20000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    return {"cam": script["cam"], "bs": script["bs"], "ev": ev}
