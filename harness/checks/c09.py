"""C09: queries through children.  Spec: Child.tla."""


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] == "send" or (e["e"] == "ok" and e["res"])]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "ok":
        x = rng.choice(e["res"])
        if rng.random() < 0.3:
            e["res"].remove(x)
        else:
            x["tok"] += 1
    elif rng.random() < 0.5:
        e["ch"] += 1
    else:
        e["ms"] = e["ms"][1:]
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("ChildMC", constants=dict(NC=2, NM=3, MaxRetry=1, MaxQ=2) if ctx.quick else dict(NC=2, NM=3, MaxRetry=1, MaxQ=3),
           invariants=["OneOnAir", "OwnMethods", "AirIsHead", "Attempts"], properties=["Drains", "Routed"], timeout=850)
    gen = ctx.gen("ChildGen", constants=dict(NC=2, NM=2, MaxRetry=1, MaxQ=2, MaxAns=2 if ctx.quick else 3), constraint="Short",
                  timeout=600, workers=8)
    scripts = [{"cam": i % 2 == 0, "n": i, **g} for i, g in enumerate(ctx.sample(gen, 1500 if ctx.quick else 15000))]
    CL = ["device", "auth", "retryable"]
    for n in range(2500 if ctx.quick else 40000):
        ans = []
        f = R.choice([0, 0.2, 0.5])
        for _ in range(30):
            a = {"k": "ans", "j": 99, "e": 0}
            if R.random() < f:
                k = R.choice(["ans", "ans", "ans", "env", "child", "odd"])
                a = {"k": k}
                if k == "ans":
                    a.update(j=R.choice([0, 1, 2, 99, 99]), e=0, codes={str(i): R.choice(CL) for i in range(8) if R.random() < 0.3})
                elif k == "env":
                    a["c"] = R.choice(CL + ["conn", "timeout", "kasa"])
                elif k == "child":
                    a["c"] = R.choice(CL)
            if R.random() < 0.2:
                a["delay"] = R.choice([1, 100, 3000])
            ans.append(a)
        q = []
        for _ in range(R.randint(1, 6)):
            ch = R.choice([0, 1, 1, 2, 2, 3, 4])
            ms = R.sample(range(1, 9), R.choice([1, 1, 2, 3, 5] if ch == 0 else [1, 1, 2, 3, 5, 8]))
            q.append({"ch": ch, "ms": ms, "retry": R.choice([0, 0, 1, 3]), "par": R.random() < 0.6})
        scripts.append({"cam": R.random() < 0.5, "n": n, "ans": ans, "q": q})
    ctx.validate("ChildTrace", ctx.run("drv_child", "drive", scripts), selftest=mutate)
