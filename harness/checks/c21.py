"""C21: firmware updates.  Spec: Firmware.tla."""
CONST = dict(Limit=300000, Slack=1000)


def mutate(tr, rng):
    ev = tr["ev"]
    c = [e for e in ev if e["e"] in ("tell", "end", "download", "view", "poll")]
    e = rng.choice(c)
    if e["e"] == "tell":
        e["s"] += 1
    elif e["e"] == "end":
        e["s"] = 2
    elif e["e"] == "download":
        ev.insert(ev.index(e), dict(e))
    elif e["e"] == "view":
        e["v"]["available"] = 7
    else:
        ev.insert(ev.index(e), {"e": "end", "t": e["t"], "s": 2})
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("FirmwareMC", constants=dict(Limit=3, Slack=1, MaxRuns=2 if ctx.quick else 3), invariants=["TypeOK", "OnlyAllowed", "InOrder", "NothingAfterEnd"],
           properties=["StartsWhenKnown", "Ends", "Told", "Tolerates"], allow_zero=["FInit"])
    gen = ctx.gen("FirmwareGen", constants=dict(Limit=3, Slack=1, MaxRuns=3, MaxLen=14), simulate=3000 if ctx.quick else 60000, depth=40)
    gen += ctx.gen("FirmwareGen", constants=dict(Limit=3, Slack=1, MaxRuns=3, MaxLen=4))
    scripts = []
    for g in ctx.sample(gen, 3000 if ctx.quick else 40000):
        steps = [x for x in (g if isinstance(g, list) else g["v"])]
        if not any(x["a"] == "begin" for x in steps) and R.random() < 0.7:
            continue
        model = R.choice(["P110(EU)_1.0_1.2.3", "H100(EU)_1.0_1.5.10", "L530E(EU)_3.0_1.1.6"])
        scripts.append({"model": model, "steps": steps, "slow": R.random() < 0.3, "badcb": R.random() < 0.15, "slowcb": R.random() < 0.2})
    ctx.validate("FirmwareTrace", ctx.run("drv_firmware", "drive", scripts), constants=CONST, selftest=mutate)
