"""C29: the command line tool.  Spec: Cli.tla."""


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] == "run"]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.choice(["exit", "st", "left", "conn"])
    if k == "exit":
        if e["exit"] == 0 and e["c"] in ("reset", "cred"):
            return None
        e["exit"] = 1 if e["exit"] == 0 else 0
    elif k == "st":
        e["st"]["resets"] += 1
    elif k == "left":
        e["left"] = 1
    else:
        e["conn"]["port"] += 1
    return tr


def check(ctx):
    ctx.mc("CliMC", constants=dict(MaxN=2 if ctx.quick else 3), invariants=["Honest"], properties=["ErrorsAreClean", "OnlyChosen", "ReadsReadOnly", "OneWrite"], timeout=850)
    gen = ctx.gen("CliGen", constants=dict(MaxN=12), simulate=700 if ctx.quick else 8000, depth=14)
    ctx.validate("CliTrace", ctx.run("drv_cli", "drive", ctx.sample(gen, 700 if ctx.quick else 9000)), selftest=mutate)
