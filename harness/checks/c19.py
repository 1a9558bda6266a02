"""C19: updates of legacy devices.  Spec: IotUpd.tla."""
from drv_iotupd import KINDS


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] == "view" and e["vs"]]
    if not c:
        return None
    rng.choice(rng.choice(c)["vs"])["tok"] += 1000
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("IotUpdMC", constants=dict(Mods='{"a","b"}' if ctx.quick else '{"a","b","c"}', MaxUpd=3), invariants=["Truthful"], properties=["Dropped", "OthersStay", "FirstAlone"], timeout=850)
    gen = ctx.gen("IotUpdGen", constants=dict(Mods='{"a","b","c"}', MaxUpd=5, MaxLen=30), simulate=1500 if ctx.quick else 20000, depth=40)
    scripts = []
    for g in ctx.sample(gen, 2000 if ctx.quick else 25000):
        kind = R.choice(list(KINDS))
        mods = KINDS[kind][2]
        names = sorted({m for _, m, _ in mods})
        assoc = {m: R.choice("abc") for m in names}      # what happens to a, b, c of the model happens to the modules of that group
        real = lambda s: [m for m in names if assoc[m] in s]
        steps, cur = [{"a": "early"}] if R.random() < 0.3 else [], set(g["init"])
        steps.append({"a": "sup", "sup": real(cur)})
        pick = [(m, c) for _, m, cs in mods for c in cs if R.random() < (0.1 if R.random() < 0.3 else 0)]
        steps.append({"a": "partial", "p": pick})
        for x in g["steps"]:
            if x["a"] == "loses":
                steps.append({"a": "sup", "sup": real(x["sup"])})
            elif x["a"] == "begin":
                steps.append({"a": "update", "nokids": kind == "strip" and R.random() < 0.5})
                k = 0
            elif x["a"] == "req":
                k += 1
            elif x["a"] == "lost":
                if R.random() < 0.4:
                    steps[-1]["lose"] = min(k + 1, R.choice([1, 2, 3]))
            elif x["a"] == "disc":
                steps.append({"a": "disc"})
        scripts.append({"kind": kind, "steps": steps, "first": real(cur)})
    ctx.validate("IotUpdTrace", ctx.run("drv_iotupd", "drive", scripts), selftest=mutate)
