"""C20: sockets of legacy strips.  Spec: Strip.tla."""


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] in ("view", "wire", "stats")]
    e = rng.choice(c)
    if e["e"] == "view":
        k = rng.choice(["on", "al", "us", "en"])
        i = rng.randrange(len(e["v"][k]))
        e["v"][k][i] = 1 - e["v"][k][i] if k == "on" else e["v"][k][i] + 1000
    elif e["e"] == "wire":
        e["s"] = [99]
    else:
        e["got"] += 1
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("StripMC", constants=dict(NS=2, Vals="{1,2}", MaxN=3 if ctx.quick else 4), invariants=["TypeOK", "Isolated", "Fresh"], properties=["Reached"], timeout=850)
    scripts = []
    for ns, k in ((1, 60), (2, 500), (3, 700), (6, 500)):
        gen = ctx.gen("StripGen", constants=dict(NS=ns, Vals="{1}", MaxN=9), simulate=k // 8 if ctx.quick else 2 * k, depth=24)
        for g in ctx.sample(gen, k if ctx.quick else 10 * k):
            steps = []
            for s in g["steps"]:
                s = dict(s)
                x = R.random()
                if s["a"] in ("cmd", "own"):
                    if x < 0.08:
                        s["refuse"] = True
                    elif x < 0.25:
                        s["lose"] = [R.randint(1, 3), R.choice([1, 1, 2, 9]), R.choice(["lost", "lost-after"])]
                elif s["a"] in ("update", "quick", "sock") and x < 0.2:
                    s["lose"] = [R.randint(1, 5), R.choice([1, 9]), R.choice(["lost", "lost-after"])]
                steps.append(s)
                if R.random() < 0.12:
                    steps.append({"a": "stats", "i": R.randint(0, ns)})
            scripts.append({"on": g["on"], "meter": R.random() < 0.6, "steps": steps})
    ctx.validate("StripTrace", ctx.run("drv_strip", "drive", scripts), selftest=mutate)
