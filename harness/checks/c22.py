"""C22: pairing devices with a hub.  Spec: Pairing.tla."""
from drv_pairing import CATS, POOL

CONST = dict(Slack=1000)


def mutate(tr, rng):
    ev = tr["ev"]
    e = rng.choice([e for e in ev if e["e"] in ("view", "add", "paired", "remove", "scan")])
    if e["e"] in ("view", "add", "paired", "remove"):
        e["ids"] = e["ids"] + ["zz"]
    else:
        ev.insert(ev.index(e), dict(e))
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("PairingMC", constants=dict(Slack=1, Ids='{"a","b"}', Sup='{"a","b"}', Shown='{"a"}', MaxCalls=3), invariants=["TypeOK"],
           properties=["OnlyDetected", "NoAddUnlessFound", "OneRemoved", "SeenAfter", "Ends"])
    if not ctx.quick:
        ctx.mc("PairingMC", constants=dict(Slack=1, Ids='{"a","b","c"}', Sup='{"a","b"}', Shown='{"a","c"}', MaxCalls=3), invariants=["TypeOK"],
               properties=["OnlyDetected", "NoAddUnlessFound", "OneRemoved", "SeenAfter", "Ends"], timeout=2000)
    gen = ctx.gen("PairingGen", constants=dict(Slack=1, Ids='{"A","B","C","D"}', Sup='{"A","B","C","D"}', Shown='{"A","B","C","D"}', MaxCalls=100, MaxLen=14),
                  simulate=1200 if ctx.quick else 60000, depth=60)
    gen += ctx.gen("PairingGen", constants=dict(Slack=1, Ids='{"A","B"}', Sup='{"A","B"}', Shown='{"A","B"}', MaxCalls=100, MaxLen=5))
    scripts = []
    for g in ctx.sample(gen, 5000 if ctx.quick else 40000):
        if not any(x["a"] in ("pair", "unpair") for x in g["steps"]):
            continue
        cam = R.random() < 0.4
        names = R.sample([x for x in POOL if x != "cam" or cam], 4)
        cats = [c for c in CATS + (["camera"] if cam else []) if R.random() < 0.85]
        R.shuffle(cats)
        steps = []
        for x in g["steps"]:      # half of all steps that the specification allows fail: thin them out
            x = dict(x)
            if x["a"] in ("scan", "ask", "add", "remove") and not x["ok"] and R.random() < 0.8:
                x["ok"] = True
            if x["a"] == "giveup" and R.random() < 0.8 or x["a"] in ("near", "elsewhere") and len(steps) > 1 and R.random() < 0.5:
                continue
            if x["a"] == "near" and R.random() < 0.5:
                x["ids"] = R.sample("ABCD", R.randint(1, 4))
            steps.append(x)
        scripts.append({"cam": cam, "pool": dict(zip("ABCD", names)), "cats": cats, "init": g["init"], "steps": steps})
    ctx.validate("PairingTrace", ctx.run("drv_pairing", "drive", scripts), constants=CONST, selftest=mutate)
