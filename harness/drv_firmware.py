"""Driver: firmware checks and updates (C21)."""
from __future__ import annotations

import asyncio
import json
import random

import vt
import fakedev

from kasa import KasaException, Module
from kasa.exceptions import TimeoutError as KasaTimeout
from kasa.smart import SmartDevice



class Dev(fakedev.Smart):
    """Answers to update related queries as told."""
    latest = None
    poll = None      # () -> (state or None)

    def handle(self, m, p):
        if m == "get_latest_fw" and self.latest is not None:
            return self.latest if isinstance(self.latest, tuple) else (0, self.latest)
        if m == "get_fw_download_state":
            return self.poll()
        if m == "fw_download":
            self.on_download()
        return super().handle(m, p)

    def do_fw_download(self, p):
        pass


class Wire(fakedev.Wire):
    async def send(self, request):
        self.n += 1
        r = json.loads(request)
        d, lost = self.plan(r)
        if d:
            await asyncio.sleep(d / 1000)
        if lost:
            raise KasaTimeout("x")
        return json.loads(json.dumps(self.dev.serve(r)))


def has(r, m):
    return r["method"] == m or r["method"] == "multipleRequest" and any(x["method"] == m for x in r["params"]["requests"])


def drive(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    data = fakedev.fixture(script["model"])
    if "get_connect_cloud_state" in data:
        data["get_connect_cloud_state"] = {"status": 0}
    dev = Dev(data, lenient=True)
    polls = []      # what the coming polls meet

    def log(e, **kw):
        ev.append({"e": e, "t": vt.now_ms(), **kw})

    def answer(s):
        return {"status": s, "download_progress": R.randint(0, 100), "reboot_time": R.randint(0, 10), "upgrade_time": R.choice([0, 1, 3, 7]), "auto_upgrade": False}

    def poll():
        x = polls.pop(0) if len(polls) > 1 else polls[0]
        if x == "junk":
            log("poll", k="junk")
            return R.choice([(0, {}), (0, {"status": "x"}), (-1001, None), (-1, None), (0, None)])
        a = answer(x)
        log("poll", k="answer", s=x)
        return 0, a

    def plan(r):
        if has(r, "get_fw_download_state") and polls:
            delay = R.choice([0, 0, 37, 3137]) if script.get("slow") else 0
            if polls[0] == "lost":
                if len(polls) > 1:
                    polls.pop(0)
                log("poll", k="lost")
                return delay, True
            return delay, False
        return 0, False

    dev.on_download = lambda: log("download")
    dev.poll = poll
    async def tell(st):
        log("tell", s=st.status)
        if script.get("badcb"):
            raise RuntimeError("callback")
        if script.get("slowcb"):
            await asyncio.sleep(1.3)

    async def main():
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda *_: None)
        proto = dev.wire()
        proto._transport = Wire(dev, plan)
        d = SmartDevice("127.0.0.1", protocol=proto)
        await d.update()
        F = d.modules[Module.Firmware]

        async def view():
            f = d.features
            a = F.update_available
            ok = f["update_available"].value == a and f["available_firmware_version"].value == F.latest_firmware
            log("view", v={"available": (-1 if a is None else int(a)) if ok else 9, "version": F.latest_firmware == "9.9.9 Build 1" if F.latest_firmware else False,
                           "current": F.current_firmware == dev.info["fw_ver"] == f["current_firmware_version"].value})
        i = 0
        S = script["steps"]
        while i < len(S):
            a = S[i]["a"]
            i += 1
            if a == "cloud":
                data["get_connect_cloud_state"] = {"status": 0 if S[i - 1]["c"] else R.choice([1, 2])}
                await asyncio.sleep(100)
                await d.update()
                log("cloud", c=S[i - 1]["c"])
                await view()
            elif a == "check":
                r = S[i - 1]["r"]
                if r == "none":
                    dev.latest = R.choice([(-1001, None), (-1, None), (0, {"x": 1}), (0, {"type": 1, "need_to_upgrade": True, "fw_ver": "9", "release_date": "yesterday"})])
                else:
                    dev.latest = {"type": 0 if r == "no" else R.choice([1, 2, 3]), "need_to_upgrade": r == "yes", "fw_ver": "9.9.9 Build 1", "release_date": R.choice(["", "2024-03-02"]),
                                  "release_note": "x", "fw_size": 0, "oem_id": "x", "hw_id": "x"}
                x = await F.check_latest_firmware()
                log("check", r=r, ret=x is not None and x == F.firmware_update_info)
                await view()
            elif a in ("begin", "deny"):
                run = []
                while a == "begin" and i < len(S) and S[i]["a"] in ("download", "answer", "lost", "refused", "cancel"):
                    run.append(S[i])
                    i += 1
                polls[:] = [R.choice(["lost", "junk"]) if x["a"] == "lost" else x["s"] for x in run if x["a"] in ("answer", "lost")]
                names = [x["a"] for x in run]
                if not polls or "cancel" in names and polls[-1] not in (0, -1):
                    polls.append(R.choice([2, "lost", "junk", 3]))
                if "expire" not in names and polls[-1] not in (0, -1) and R.random() < 0.5:
                    polls.append(R.choice([0, -1, -2]))
                if "refused" in names:
                    dev.refuse = {"fw_download": -1003}
                kw = {"progress_cb": tell}
                log("call")
                before = len(dev.log)
                t = asyncio.create_task(F.update(**kw))
                if "cancel" in names:
                    await asyncio.wait({t}, timeout=R.choice([0.1, 0.7, 2.3, 20.1]))
                    t.cancel()
                try:
                    r = await t
                    log("end", s=r["status"])
                except asyncio.CancelledError:
                    log("cancelled")
                except TimeoutError:
                    log("timeout")
                except KasaException:
                    log("refused" if dev.refuse and any(x[1] == "fw_download" for x in dev.log[before:]) else "denied")
                dev.refuse = {}
                await asyncio.sleep(400)
                log("quiet")
                await d.update()
                await view()

    try:
        vt.run(main, vtime=10 ** 6, iterations=500000)
    except vt.Hang as ex:
        log("hang", why=str(ex))
    except Exception as ex:  # noqa: BLE001
        log("crash", why=repr(ex))
    return {"ev": ev}
