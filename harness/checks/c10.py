"""C10: updating SMART devices.  Spec: SmartUpd.tla."""
from pathlib import Path

from drv_smartupd import TOUCH, PROFILES, profile_of, recorded

FIX = Path("/repo/tests/fixtures")


def recordings():
    """The recorded devices without children of their own."""
    out = []
    for sub in ("smart", "smart/child", "smartcam"):
        for p in sorted((FIX / sub).glob("*.json")):
            n = f"rec:{sub}:{p.stem}"
            try:
                comps = recorded(n)[0]
            except KeyError:
                continue
            if not {"child_device", "childControl", "child_quick_setup"} & set(comps):
                out.append(n)
    return out

PROPS = ["Ends", "FailsOnlyForInfo", "Fresh", "Isolated", "Recovers", "KeepsData"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] == "ok" or (e["e"] == "q" and len(e["ms"]) > 1)]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "q":
        x = e["ms"].pop()
        e["res"] = [r for r in e["res"] if r["m"] != x]
    else:
        d = rng.choice(e["data"])
        if d["toks"] and rng.random() < 0.5:
            rng.choice(d["toks"])["tok"] += 1000
        elif rng.random() < 0.5:
            e["info"] += 1
            if tr["child"]:
                return None
        else:
            d["k"] = "ok" if d["k"] == "err" else "err"
    return tr


def check(ctx):
    R = ctx.rng
    for t in (1, 2, 3, 4):
        n = 3 if ctx.quick else 4
        ctx.mc("SmartUpdMC", constants=dict(DisableAt=2 if ctx.quick else 3, MaxUpd=n, Steps="{30000,60000}", TableNo=t),
               invariants=["NotSooner"], properties=PROPS, timeout=850,
               allow_zero=("MNoQuery", "MNegoOk", "MNegoFail", "MRaise", "NegoOk", "NegoFail") if t == 3 else ("MNoQuery", "NoQuery"))
    gen = ctx.gen("SmartUpdGen", constants=dict(DisableAt=10, MaxUpd=3 if ctx.quick else 4, Steps="{30000,60000}", TableNo=1), timeout=800,
                  simulate=4000 if ctx.quick else 40000, depth=40, workers=8)
    ren = {"usage": "get_device_usage", "a": "get_device_time"}
    scripts = []
    for g in ctx.sample(gen, 1500 if ctx.quick else 15000):
        st = []
        for s in g:
            s = dict(s)
            if "errs" in s:
                s["errs"] = [ren.get(x, x) for x in s["errs"]]
            st.append(s)
        scripts.append({"profile": R.choice(["plug", "plug1", "dimmer"]), "steps": st})
    pn, recs = list(PROFILES), recordings()
    for n in range(3000 if ctx.quick else 60000):
        prof = R.choice(pn) if n % 3 else recs[n // 3 % len(recs)]
        steps = []
        f, e = R.choice([(0, 0), (0, 0.1), (0.1, 0.1), (0.3, 0.3), (0.1, 0.6), (0, 0.9)])
        burst = R.random() < 0.3
        for i in range(R.randint(2, 30 if burst else 12)):
            steps.append({"k": "update", "d": R.choice([0, 1000, 29000, 30000, 30000, 31000, 59000, 60000, 61000, 90000, 300000, 3600000,
                                                       3599000, 86400000, 86399000])})
            if R.random() < 0.15:
                steps.append({"k": "touch", "n": R.choice(list(TOUCH))})
        bad = R.choice([None, R.choice(profile_of(prof)[1])["ms"][0]])
        for i in range(400):
            if bad and (i < 60 or R.random() < 0.1) and bad not in ("get_device_info",):
                steps.append({"k": "ans", "errs": [bad]})
            else:
                q = R.random()
                steps.append({"k": "rand", "f": f if q < 0.8 else 0, "e": e if q < 0.8 else 0})
        scripts.append({"profile": prof, "steps": steps, "n": n})
    ctx.validate("SmartUpdTrace", ctx.run("drv_smartupd", "drive", scripts), constants=dict(DisableAt=10), selftest=mutate)
