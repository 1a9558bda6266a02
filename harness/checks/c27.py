"""C27: reported readings.  Spec: Readings.tla."""


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] in ("read", "ask")]
    if not c:
        return None
    e = rng.choice(c)
    e["v"] = 424242 if e["v"] < -1000 else e["v"] + 3777777
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("ReadingsMC", constants=dict(MaxChg=2, MaxOps=4 if ctx.quick else 6), invariants=["Settled", "Laws"], properties=["Fresh", "Honest", "Apart"], timeout=850)
    gen = ctx.gen("ReadingsGen", constants=dict(MaxN=16), simulate=600 if ctx.quick else 10000, depth=18)
    kinds = ["plug", "plug", "strip", "hub", "hub", "vacuum", "vacuum", "cam", "legacy", "legacy"]
    scripts = [{"kind": R.choice(kinds), "steps": g, "n": n} for n, g in enumerate(ctx.sample(gen, 1000 if ctx.quick else 15000))]
    ctx.validate("ReadingsTrace", ctx.run("drv_readings", "drive", scripts), selftest=mutate)
