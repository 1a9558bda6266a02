"""C28: administration.  Spec: Admin.tla."""


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] == "cmd"]
    t = [e for e in tr["ev"] if e["e"] == "tell"]
    if c and rng.random() < 0.6:
        e = rng.choice(c)
        k = rng.choice(["inst", "writes", "resets"])
        e["st"][k] = e["st"][k] + rng.choice([7, 60, 3600])
    elif t:
        e = rng.choice(t)
        rng.choice([lambda: e["v"].update(off=e["v"]["off"] + 15), lambda: e["v"]["names"].append(3), lambda: e["v"].update(inst=e["v"]["inst"] + 1)])()
    else:
        return None
    return tr


def check(ctx):
    ctx.mc("AdminMC", constants=dict(MaxN=3 if ctx.quick else 4), invariants=["Tells"], properties=["FailsClean", "Once", "Only", "Instant", "Local"], timeout=850)
    gen = ctx.gen("AdminGen", constants=dict(MaxN=14), simulate=800 if ctx.quick else 12000, depth=16)
    ctx.validate("AdminTrace", ctx.run("drv_admin", "drive", ctx.sample(gen, 1200 if ctx.quick else 20000)), selftest=mutate)
