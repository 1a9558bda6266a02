"""C16: features.  Spec: Feature.tla."""
from pathlib import Path

FIX = Path("/repo/tests/fixtures")


def mutate(tr, rng):
    e = rng.choice([x for x in tr["ev"] if x["e"] == "set" and x["v"]["t"] not in ("bool",)] or [x for x in tr["ev"] if x["e"] == "advert"] or tr["ev"])
    if e["e"] == "set":
        if e["calls"] and rng.random() < 0.5:
            e["calls"] = e["calls"] * 2
        else:
            e["calls"], e["ok"], e["up"] = ([], True, True) if e["calls"] else ([{"t": "other", "x": 0}], True, True)
    elif e["e"] == "desc":
        e["val"] = "bytes"
        f = tr["feats"][e["f"] - 1]
        f["type"], f["ro"] = "Number", False
    else:
        e["opts"] = [9] if e["e"] == "advert" else []
        if e["e"] == "range":
            e["lo"] = e["hi"] = 7777
            tr["ev"].append({"e": "nothing"})
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("FeatureMC", constants=dict(MaxN=2 if ctx.quick else 3), invariants=["ReadOnlyUntouched"], properties=["OnlyValid", "AtMostOnce"])
    gen = ctx.gen("FeatureGen", constants=dict(MaxN=1)) + ctx.gen("FeatureGen", constants=dict(MaxN=2 if ctx.quick else 3))
    TF = (False, True)
    scripts = []
    for g in ctx.sample(gen, 12000 if ctx.quick else 100000):
        g = dict(g, shape={k: R.choice(TF) for k in ("container", "norange", "byname", "setname", "early")})
        if any(st["k"] != "set" for st in g["steps"]):
            g["shape"]["norange"] = False
        for st in g["steps"]:
            if st["k"] == "set" and R.random() < 0.15:
                st["down"] = True
        scripts.append(g)
    names = [(sub, p.stem) for sub in ("iot", "smart", "smartcam") for p in sorted((FIX / sub).glob("*.json"))]
    for sub, name in names:
        for i in range(1 if ctx.quick else 5):
            scripts.append({"sub": sub, "name": name, "share": 0.6 if ctx.quick else 1, "i": i})
    ctx.validate("FeatureTrace", ctx.run("drv_feature", "drive", scripts), selftest=mutate)
