"""Driver for protocol.query over a scripted transport (C01, C02)."""
from __future__ import annotations

import asyncio
import json

import vt

import kasa  # noqa: F401
from kasa import DeviceConfig
from kasa.exceptions import (
    AuthenticationError,
    DeviceError,
    KasaException,
    TimeoutError as KTimeout,
    _ConnectionError,
    _RetryableError,
)
from kasa.protocols import IotProtocol, SmartProtocol
from kasa.protocols.smartcamprotocol import SmartCamProtocol
from kasa.transports import BaseTransport

EXC = {"conn": _ConnectionError, "retryable": _RetryableError, "timeout": KTimeout,
       "auth": AuthenticationError, "device": DeviceError, "kasa": KasaException}


def classify(ex):
    for k in ("timeout", "conn", "retryable", "auth", "device", "kasa"):
        if isinstance(ex, EXC[k]):
            return k
    return f"foreign:{type(ex).__name__}"


def err_tok(ex):
    s = str(ex)
    if "tok#" in s:
        return int(s.split("tok#")[1].split("#")[0])
    ec = getattr(ex, "error_code", None)
    return int(ec) if ec is not None else 0


class ScriptTransport(BaseTransport):
    def __init__(self, fam, sends, log, batch=2):
        super().__init__(config=DeviceConfig("127.0.0.1", batch_size=batch))
        self.fam, self.sends, self.log = fam, list(sends), log
        self.n = 0

    default_port = 80
    credentials_hash = None

    def who(self, request):
        d = json.loads(request) if isinstance(request, str) else request
        if self.fam == "iot":
            return int(next(iter(d))[1:]), None
        if d["method"] == "multipleRequest":
            ms = [r["method"] for r in d["params"]["requests"]]
        else:
            ms = [d["method"]]
        cs = {int(m.split("_c")[1].split("_")[0]) for m in ms}
        if len(cs) != 1:
            return -1, ms
        return cs.pop(), (ms if d["method"] == "multipleRequest" else ms[0])

    def answer(self, c, ms, tok):
        if self.fam == "iot":
            return {f"m{c}": {"get": {"tok": tok, "err_code": 0}}}
        if isinstance(ms, list):
            return {"error_code": 0, "result": {"responses": [
                {"method": m, "error_code": 0, "result": {"tok": tok}} for m in ms]}}
        return {"error_code": 0, "result": {"tok": tok}}

    async def send(self, request):
        self.n += 1
        tok = self.n
        step = self.sends.pop(0) if self.sends else {"k": "answer"}
        c, ms = self.who(request)
        self.log("send", c=c)
        try:
            if step.get("delay"):
                await asyncio.sleep(step["delay"] / 1000)
        except asyncio.CancelledError:
            self.log("interrupted", c=c)
            raise
        k = step["k"]
        if k == "answer":
            self.log("answer", c=c, tok=tok)
            return self.answer(c, ms, tok)
        if k == "code":
            code = step["code"]
            self.log("fail", c=c, k="code", code=code if code is not None else 123456,
                     tok=step.get("tok", code))
            if isinstance(ms, list) and self.fam == "cam":
                return {"error_code": 0, "result": {"responses": [
                    {"method": m, "error_code": code} for m in ms]}}
            return {"error_code": code}
        self.log("fail", c=c, k=k, tok=tok)
        raise EXC[k](f"tok#{tok}#")

    async def reset(self):
        self.log("reset")
        await asyncio.sleep(0)

    async def close(self):
        self.log("close")


def request_for(fam, c, need):
    if fam == "iot":
        return {f"m{c}": {"get": {}}}
    if need == 1:
        if fam == "cam":
            return {f"getX_c{c}_0_0": {"mod": {"name": "x"}}}
        return {f"get_c{c}_0_0": {"p": 1}}
    return {f"get_c{c}_{i}_{j}": {"p": {"name": "x"}} for i in range(need) for j in range(2)}


def tokens(fam, c, need, res):
    try:
        if fam == "iot":
            assert list(res) == [f"m{c}"]
            return [res[f"m{c}"]["get"]["tok"]]
        req = request_for(fam, c, need)
        assert set(res) == set(req)
        if need == 1:
            return [res[next(iter(req))]["tok"]]
        out = []
        for i in range(need):
            a, b = (res[f"get_c{c}_{i}_{j}"]["tok"] for j in range(2))
            assert a == b
            out.append(a)
        return out
    except Exception as ex:  # noqa: BLE001
        return [f"bad result {type(ex).__name__} {res!r}"[:200]]


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    fam = script["fam"]

    async def main():
        tr = ScriptTransport(fam, script["sends"], log)
        proto = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[fam](transport=tr)

        async def caller(spec):
            c = spec["c"]
            for q in spec["q"]:
                if q.get("wait"):
                    await asyncio.sleep(q["wait"] / 1000)
                log("call", c=c, retry=q["retry"], need=q["need"])
                state[c] = True
                try:
                    res = await proto.query(request_for(fam, c, q["need"]), q["retry"])
                except asyncio.CancelledError:
                    log("cancelled", c=c)
                    state[c] = False
                    return
                except Exception as ex:  # noqa: BLE001
                    log("err", c=c, k=classify(ex), tok=err_tok(ex))
                else:
                    log("ok", c=c, toks=tokens(fam, c, q["need"], res))
                state[c] = False

        state = {}
        tasks = {s["c"]: asyncio.ensure_future(caller(s)) for s in script["callers"]}

        async def canceller(c, at):
            await asyncio.sleep(at / 1000)
            if not tasks[c].done() and state.get(c):
                log("cancel", c=c)
                tasks[c].cancel()

        cs = [asyncio.ensure_future(canceller(s["c"], s["cancel"]))
              for s in script["callers"] if s.get("cancel") is not None]
        await asyncio.gather(*tasks.values(), *cs, return_exceptions=True)
        log("end")

    try:
        vt.run(main, vtime=3600)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    return {"fam": "smart" if fam == "cam" else fam, "ev": ev}
