"""Driver: features, synthetic ones and those of recorded devices (C16)."""
from __future__ import annotations

import random
import json
from enum import Enum

import vt
import fakedev

from kasa import Feature, KasaException
from kasa import iot, smart
from kasa.smartcam import SmartCamDevice

T = Feature.Type
WORDS = ["alpha", "beta", "gamma", "delta", "Alpha", "alpha ", "alph"]
ERRORS = [KasaException, ValueError, TypeError, KeyError, RuntimeError]
STRS = {"numstr": {0: "0", 500: "50"}}


def value(v, words=WORDS):
    t, x = v["t"], v["x"]
    if t == "int":
        return x // 10
    if t == "float":
        return x / 10
    if t == "nan":
        return float("nan")
    if t == "bool":
        return bool(x)
    if t == "none":
        return None
    if t == "list":
        return [1]
    if t == "dict":
        return {"a": 1}
    if t == "numstr":
        return STRS["numstr"][x]
    return words[x - 1]


def kind(x):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int) and not isinstance(x, Enum):
        return "int"
    if isinstance(x, float):
        return "float"
    return "str" if isinstance(x, str | Enum) else type(x).__name__


class Box:
    pass


def synthetic(script):
    ev, R = [], random.Random(json.dumps(script, sort_keys=True))
    f0, shape = script["feat"], script["shape"]
    ty, ro = getattr(T, f0["type"]), f0["ro"]
    box, dev = Box(), Box()
    now = {"range": (f0["lo"] / 10, f0["hi"] / 10), "opts": [WORDS[i - 1] for i in f0["opts"]], "up": True}
    if all(x == int(x) for x in now["range"]):
        now["range"] = tuple(int(x) for x in now["range"])
    got = []

    async def setter(*a):
        got.append(a)
        if not now["up"]:
            raise R.choice(ERRORS)("no")
        return {"done": 1}
    target = box if shape["container"] else dev
    target.set_it = setter
    target.it = 1
    Box.rng = property(lambda s: now["range"])
    Box.opts = property(lambda s: now["opts"])
    kw = {}
    if ty is T.Number and not (shape["norange"] and now["range"] == (0, 65536)):
        kw["range_getter"] = "rng" if shape["byname"] else lambda: now["range"]
    if ty is T.Choice and not (shape["norange"] and not now["opts"]):
        kw["choices_getter"] = "opts" if shape["byname"] else lambda: now["opts"]
    if not ro:
        kw["attribute_setter"] = "set_it" if shape["setname"] else setter
    if ty is not T.Action:
        kw["attribute_getter"] = "it"
    feat = Feature(dev, "f", "f", ty, container=box if shape["container"] else None, **kw)

    def advert(first):
        lo, hi = (round(feat.minimum_value * 10), round(feat.maximum_value * 10)) if ty is T.Number else (f0["lo"], f0["hi"])
        ev.append({"e": "advert", "f": 1, "lo": lo, "hi": hi, "opts": [WORDS.index(w) + 1 for w in feat.choices or []] if ty is T.Choice else f0["opts"],
                   "lo0": first[0], "hi0": first[1]})
        return lo, hi

    async def main():
        first = (f0["lo"], f0["hi"])
        if shape["early"]:
            advert(first)
        for st in script["steps"]:
            if st["k"] == "range":
                now["range"] = (st["lo"] // 10, st["hi"] // 10)
                ev.append({"e": "range", "f": 1, "lo": st["lo"], "hi": st["hi"]})
            elif st["k"] == "choices":
                now["opts"] = [WORDS[i - 1] for i in st["opts"]]
                ev.append({"e": "choices", "f": 1, "opts": st["opts"]})
            else:
                advert(first)
                now["up"] = not st.get("down")
                v = value(st["v"])
                got.clear()
                try:
                    r = await feat.set_value(v)
                    ok = True
                    if r != {"done": 1}:
                        ev.append({"e": "result-lost"})
                except tuple(ERRORS):
                    ok = False
                want = () if ty is T.Action else (v,)
                calls = [st["v"] if len(a) == len(want) and all(x is y for x, y in zip(a, want)) else {"t": "other", "x": 0} for a in got]
                ev.append({"e": "set", "f": 1, "v": st["v"], "calls": calls, "ok": ok, "up": now["up"], "sent": len(got)})

    try:
        vt.run(main, vtime=10 ** 6, iterations=100000)
    except vt.Hang as ex:
        ev.append({"e": "hang", "why": str(ex)})
    except Exception as ex:  # noqa: BLE001
        ev.append({"e": "crash", "why": repr(ex)})
    return {"feats": [{k: f0[k] for k in ("type", "ro", "lo", "hi", "opts")}], "ev": ev}


def iot_class(data):
    s = data["system"]["get_sysinfo"]
    if s.get("child_num"):
        return iot.IotStrip
    if "length" in s:
        return iot.IotLightStrip
    if "light_state" in s or s.get("mic_type", s.get("type", "")) == "IOT.SMARTBULB":
        return iot.IotBulb
    if s["model"].startswith(("HS220", "KS220", "KS230", "ES20M", "KP405")):
        return iot.IotDimmer
    return iot.IotWallSwitch if s["model"].startswith(("HS200", "HS210", "KS200")) else iot.IotPlug


def build(sub, name):
    data = fakedev.fixture(name, sub)
    if sub == "iot":
        raw = fakedev.Iot(data)
        return raw, iot_class(data)("127.0.0.1", protocol=raw.wire())
    if sub == "smartcam":
        raw = fakedev.Cam(data)
        return raw, SmartCamDevice("127.0.0.1", protocol=raw.wire())
    raw = fakedev.Smart(data)
    return raw, smart.SmartDevice("127.0.0.1", protocol=raw.wire())


LO, HI = -10 ** 8, 10 ** 8


def real(script):
    ev, feats = [], []
    R = random.Random(json.dumps(script, sort_keys=True))
    raw, dev = build(script["sub"], script["name"])

    async def main():
        await dev.update()
        todo = [(d, i, f) for d in [dev, *dev.children] for i, f in d.features.items()]
        told = []
        for d, i, f in todo:
            try:
                f.value, f.choices, f.range
            except Exception:
                if raw.gaps and script["sub"] != "iot":
                    continue    # the recording lacks what this feature shows
                raise
            told.append((d, i, f))
        todo = told
        for d, i, f in todo:
            ty = f.type.name if f.type is not T.Unknown else "Unknown"
            opts = list(f.choices or []) if f.type is T.Choice else []
            lo, hi = (round(f.minimum_value * 10), round(f.maximum_value * 10)) if f.type is T.Number else (0, 0)
            feats.append({"type": ty, "ro": f.attribute_setter is None, "lo": lo, "hi": hi, "opts": list(range(1, len(opts) + 1)), "id": i})
            n = len(feats)
            val = kind(f.value)
            ev.append({"e": "desc", "f": n, "val": val, "id": i})
        for n, (d, i, f) in enumerate(todo, 1):
            info, opts = feats[n - 1], list(f.choices or []) if f.type is T.Choice else []
            words = [*opts, "no such choice", ""]
            for w in [*map(str, opts)]:
                words += [x for x in {w.upper(), w.lower(), w.title(), w + " ", w[:-1]} if x not in words and x not in opts]
            words[len(opts) + 2:] = R.sample(sorted(words[len(opts) + 2:]), min(4, len(words) - len(opts) - 2))
            if f.type is T.Number:
                lo, hi = info["lo"], info["hi"]
                xs = {lo, hi, lo - 10, hi + 10, lo - 1, hi + 1, R.randint(lo, hi), LO, HI}
                vals = [{"t": "float", "x": x} for x in xs] + [{"t": "int", "x": x} for x in xs if x % 10 == 0]
                vals += [{"t": t, "x": 0} for t in ("nan", "none", "list", "numstr")]
            elif f.type is T.Choice:
                vals = [{"t": "str", "x": x} for x in range(1, len(words) + 1)] + [{"t": t, "x": 0} for t in ("none", "int", "numstr")]
                if "0" in opts:
                    vals = [v for v in vals if v["t"] != "numstr"]
            else:
                vals = [{"t": "bool", "x": 1}]
            if i in SKIP:
                continue
            vals = [v for v in vals if R.random() < script["share"]] or vals[:1]
            R.shuffle(vals)
            for v in vals:
                if f.type is T.Choice and list(f.choices or []) != opts:
                    break      # something else changed the choices
                x = value(v, words)
                got = []
                holder = f.container if f.container is not None else f.device
                orig = f.attribute_setter
                if orig is not None:
                    fn = orig if callable(orig) else getattr(holder, orig)

                    async def spy(*a, fn=fn, got=got):
                        got.append(a)
                        return await fn(*a)
                    if callable(orig):
                        f.attribute_setter = spy
                    else:
                        setattr(holder, orig, spy)
                raw.log.clear()
                try:
                    await f.set_value(x)
                    ok = True
                except (KasaException, ValueError, TypeError, AttributeError, KeyError):
                    ok = False
                finally:
                    if orig is not None:
                        if callable(orig):
                            f.attribute_setter = orig
                        else:
                            delattr(holder, orig)
                want = () if f.type is T.Action else (x,)
                calls = [v if len(a) == len(want) and all(p is q for p, q in zip(a, want)) else {"t": "other", "x": 0} for a in got]
                # whether a value that was passed on is then accepted is up to the device
                ev.append({"e": "set", "f": n, "v": v, "calls": calls, "ok": ok, "up": ok, "sent": len(raw.log), "id": i})

    try:
        vt.run(main, vtime=10 ** 7, iterations=10 ** 6)
    except vt.Hang as ex:
        ev.append({"e": "hang", "why": str(ex)})
    except Exception as ex:  # noqa: BLE001
        import traceback
        ev.append({"e": "crash", "why": repr(ex) + traceback.format_exc()[-600:]})
    return {"feats": feats, "ev": ev}


SKIP = {"pair", "unpair", "reboot", "update_latest_firmware"}


def drive(script):
    return real(script) if "name" in script else synthetic(script)
