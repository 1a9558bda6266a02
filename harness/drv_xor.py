"""Driver for IotProtocol over XorTransport with a scripted TCP device (C03)."""
from __future__ import annotations

import asyncio
import errno
import json
import struct

import vt

from kasa import DeviceConfig
from kasa.protocols import IotProtocol
from kasa.transports import XorTransport

from drv_query import classify


def xor_enc(b: bytes) -> bytes:
    key, out = 171, bytearray()
    for x in b:
        key ^= x
        out.append(key)
    return struct.pack(">I", len(b)) + bytes(out)


def xor_dec(b: bytes) -> bytes:
    key, out = 171, bytearray()
    for x in b:
        out.append(key ^ x)
        key = x
    return bytes(out)


class FakeSock:
    def setsockopt(self, *a):
        pass


class Conn:
    """One accepted connection: device side of the stream."""

    def __init__(self, world, cid):
        self.w, self.id = world, cid
        self.reader = asyncio.StreamReader()
        self.closed = False
        self.drain_plan = None
        self.pending = b""

    # StreamWriter interface used by clients
    def get_extra_info(self, name, default=None):
        return FakeSock() if name == "socket" else default

    def is_closing(self):
        return self.closed

    def writelines(self, parts):
        self.write(b"".join(parts))

    def write(self, data):
        self.pending += data
        while len(self.pending) >= 4:
            n = struct.unpack(">I", self.pending[:4])[0]
            if len(self.pending) < 4 + n:
                return
            body, self.pending = self.pending[4:4 + n], self.pending[4 + n:]
            try:
                d = json.loads(xor_dec(body).decode())
                r = int(next(iter(d))[1:])
            except Exception:  # noqa: BLE001
                r = -1
            self.w.written(self, r)

    async def drain(self):
        p, self.drain_plan = self.drain_plan, None
        if p == "reset":
            self.w.log("break", conn=self.id)
            raise ConnectionResetError("drain")
        if isinstance(p, int):
            await asyncio.sleep(p / 1000)

    def close(self):
        if not self.closed:
            self.closed = True
            self.w.log("close", conn=self.id)

    async def wait_closed(self):
        await asyncio.sleep(0)
        if self.w.script.get("wait_closed") == "error":
            raise ConnectionResetError("wait_closed")


class World:
    def __init__(self, script, log):
        self.script, self.log = script, log
        self.conns = list(script.get("conns", []))
        self.answers = list(script.get("answers", []))
        self.n = 0
        self.tok = 0
        self.bg = []

    async def open_connection(self, host=None, port=None, **kw):
        self.n += 1
        cid = self.n
        plan = self.conns.pop(0) if self.conns else {"k": "ok"}
        self.log("open", conn=cid)
        try:
            if plan["k"] == "hang":
                await asyncio.sleep(10 ** 6)
            if plan.get("delay"):
                await asyncio.sleep(plan["delay"] / 1000)
        except asyncio.CancelledError:
            self.log("openaborted")
            raise
        k = plan["k"]
        if k == "ok":
            c = Conn(self, cid)
            self.log("openok", conn=cid)
            return c.reader, c
        self.log("openfail", k=k)
        raise {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "refused"),
               "hostdown": OSError(errno.EHOSTDOWN, "down"),
               "hostunreach": OSError(errno.EHOSTUNREACH, "unreach"),
               "timedout": TimeoutError(errno.ETIMEDOUT, "timed out"),
               "oserror": OSError(errno.ENETUNREACH, "net"),
               "reset": ConnectionResetError(errno.ECONNRESET, "reset"),
               "noaddr": OSError(errno.EADDRNOTAVAIL, "addr"),
               "gai": __import__("socket").gaierror(-2, "name"),
               "value": ValueError("odd")}[k]

    def written(self, conn, r):
        self.log("write", conn=conn.id, r=r)
        plan = self.answers.pop(0) if self.answers else {"k": "answer"}
        if plan["k"] == "drainreset":
            conn.drain_plan = "reset"
            return
        if plan.get("drain"):
            conn.drain_plan = plan["drain"]
        self.bg.append(asyncio.ensure_future(self.respond(conn, r, plan)))

    async def respond(self, conn, r, plan):
        k, d = plan["k"], plan.get("delay", 0)
        if k == "hang":
            return
        if d:
            await asyncio.sleep(d / 1000)
        self.tok += 1
        tok = self.tok
        msg = xor_enc(json.dumps({f"m{r}": {"get": {"tok": tok, "pad": "x" * plan.get("pad", 0)}}}).encode())
        rd = conn.reader

        def feed(b):
            if not rd._eof and rd.exception() is None:
                rd.feed_data(b)

        def brk():
            self.log("break", conn=conn.id)

        if k == "answer":
            self.log("deliver", conn=conn.id, r=r, tok=tok)
            feed(msg)
        elif k == "chunks":
            a, b = sorted((plan["a"] % len(msg), plan["b"] % len(msg)))
            feed(msg[:a])
            await asyncio.sleep(plan.get("gap", 10) / 1000)
            feed(msg[a:b])
            await asyncio.sleep(plan.get("gap", 10) / 1000)
            self.log("deliver", conn=conn.id, r=r, tok=tok)
            feed(msg[b:])
        elif k == "idleeof":
            self.log("deliver", conn=conn.id, r=r, tok=tok)
            feed(msg)
            await asyncio.sleep(plan.get("gap", 5) / 1000)
            brk()
            rd.feed_eof()
        elif k == "eof":
            brk()
            rd.feed_eof()
        elif k == "short":
            feed(msg[:max(1, plan["a"] % len(msg))])
            await asyncio.sleep(plan.get("gap", 5) / 1000)
            brk()
            rd.feed_eof()
        elif k == "reset":
            brk()
            rd.set_exception(ConnectionResetError("reset"))
        elif k == "garbage":
            brk()
            feed(struct.pack(">I", 9) + bytes(range(200, 209)))
        elif k == "badjson":
            brk()
            feed(xor_enc(b'{"m1": {'))
        elif k == "empty":
            brk()
            feed(struct.pack(">I", 0))


def token(r, res):
    try:
        assert list(res) == [f"m{r}"] or True
        return next(iter(next(iter(res.values())).values()))["tok"]
    except Exception:  # noqa: BLE001
        return -1


def drive(script):
    ev = []

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    async def main():
        w = World(script, log)
        vt.HOOKS["open_connection"] = w.open_connection
        proto = IotProtocol(transport=XorTransport(config=DeviceConfig("127.0.0.1", timeout=5)))
        r = 0
        for q in script["q"]:
            if q.get("wait"):
                await asyncio.sleep(q["wait"] / 1000)
            if q.get("close"):
                log("closecall")
                await proto.close()
                log("closeret")
                continue
            r += 1
            state = {"on": True}

            async def one(r=r, q=q):
                log("call", r=r, retry=q.get("retry", 0))
                try:
                    res = await proto.query({f"m{r}": {"get": {}}}, q.get("retry", 0))
                except asyncio.CancelledError:
                    log("cancelled")
                except Exception as ex:  # noqa: BLE001
                    log("err", k=classify(ex))
                else:
                    log("ok", tok=token(r, res))
                state["on"] = False

            task = asyncio.ensure_future(one())
            if q.get("cancel") is not None:
                async def canc(task=task, q=q, state=state):
                    await asyncio.sleep(q["cancel"] / 1000)
                    if not task.done() and state["on"]:
                        log("cancel")
                        task.cancel()
                ct = asyncio.ensure_future(canc())
                await asyncio.gather(task, return_exceptions=True)
                ct.cancel()
            else:
                await asyncio.gather(task, return_exceptions=True)
        await asyncio.sleep(60)
        log("end")
        for b in w.bg:
            b.cancel()

    try:
        vt.run(main, vtime=3600)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    finally:
        vt.HOOKS.pop("open_connection", None)
    return {"ev": ev}
