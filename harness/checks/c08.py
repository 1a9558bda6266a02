"""C08: batching, paging, individual requeries.  Spec: Batch.tla."""

INV = ["OneAnswerEach", "OnlyAsked", "BatchBound", "NoBatchWhenDisabled"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] == "ok" or (e["e"] == "send" and e["kind"] == "batch")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "ok":
        if rng.random() < 0.3 and len(e["res"]) > 1:
            e["res"].pop()
        else:
            x = rng.choice(e["res"])
            if x["items"]:
                x["items"].pop()
            else:
                x["tok"] += 1
    else:
        e["ms"] = [] if rng.random() < 0.5 else e["ms"] + [e["ms"][0]]
    return tr


def check(ctx):
    R = ctx.rng
    for cam in ("TRUE", "FALSE"):
        ctx.mc("BatchMC", constants=dict(NM=4, MaxRetry=1, BS="{1,2,3}" if ctx.quick else "{1,2,3,5}", MaxQ=1 if ctx.quick else 2, Cams=f"{{{cam}}}"),
               invariants=INV, properties=["Ends", "SentOnce"],
               allow_zero=("MAnsPageMissing",) if cam == "FALSE" else ())
    gen = ctx.gen("BatchGen", constants=dict(NM=4, MaxRetry=1, BS="{1,2,3}", MaxQ=1, Cams="{TRUE,FALSE}",
                                              MaxAns=3 if ctx.quick else 4),
                  constraint="Short", timeout=600, workers=8)
    gen = ctx.sample(gen, 2500 if ctx.quick else 30000)
    scripts = []
    for i, g in enumerate(gen):
        mp = {1: 1, 2: 2, 3: 3, 4: 101}
        scripts.append({"cam": g["cam"], "bs": g["bs"], "kinds": {"1": ["list", 3, 2]}, "n": i, "ans": g["ans"],
                        "q": [{"ms": [mp[m] for m in q["ms"]], "retry": q["retry"]} for q in g["q"]]
                        + [{"ms": [1, 2, 101], "retry": 1}]})
    CL = ["device", "auth", "retryable"]
    for n in range(2500 if ctx.quick else 40000):
        nm = R.randint(1, 14)
        kinds = {}
        for m in range(1, nm + 1):
            x = R.random()
            if x < 0.3:
                kinds[str(m)] = ["list", R.choice([0, 1, 2, 5, 7, 23]), R.choice([1, 2, 3, 10])]
            elif x < 0.4:
                kinds[str(m)] = ["none", 0, 0]
        f = R.choice([0, 0.1, 0.3, 0.6])
        ans = []
        for _ in range(40):
            if R.random() >= f:
                ans.append({"k": "all", "shuffle": R.random() < 0.3})
                continue
            k = R.choice(["some", "some", "mix", "mix", "mix", "code", "page", "refuse", "conn", "timeout", "kasa", "retryable"])
            a = {"k": k}
            if k == "some":
                a.update(j=R.randint(0, 6), e=R.random() < 0.5, rev=R.random() < 0.3)
            elif k == "mix":
                a.update(drop=[i for i in range(6) if R.random() < 0.2], nokey=[i for i in range(6) if R.random() < 0.15],
                         codes={str(i): R.choice(CL) for i in range(6) if R.random() < 0.2}, shuffle=R.random() < 0.4)
            elif k == "code":
                a["c"] = R.choice(CL)
            elif k == "page":
                a["n"] = R.choice([0, 1])
            elif k == "refuse":
                a["c"] = R.choice(["nobatch", "nobatch", "device", "auth", "retryable"])
            ans.append(a)
        qs = []
        for _ in range(R.randint(1, 3)):
            k = R.choice([1, 2, nm, nm, R.randint(1, nm)])
            ms = R.sample(range(1, nm + 1), min(k, nm)) + [x for x in (101, 102) if R.random() < 0.25]
            qs.append({"ms": ms, "retry": R.choice([0, 1, 2, 3]), "shuffle": True})
        scripts.append({"cam": R.random() < 0.4, "bs": R.choice([1, 2, 3, 4, 5, 5, 6, 7]), "kinds": kinds, "n": n, "ans": ans, "q": qs})
    tr = ctx.run("drv_batch", "drive", scripts)
    ctx.validate("BatchTrace", tr, selftest=mutate)
    ctx.assumptions += ["a page answer contains the items following the requested start index"]
