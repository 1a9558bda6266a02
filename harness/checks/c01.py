"""C01: query retry discipline.  Spec: Query.tla (+ QueryMC, QueryGen, QueryTrace)."""
INV = ["TypeOK", "AttemptsBounded", "SendsBounded", "OwnAnswers"]
PROPS = ["OnlyRetryableRetried", "ResetBetweenAttempts", "BackoffRespected", "Contiguous", "EveryoneReturns"]
CODES = [-1501, 1111, -1005, 1100, 1003, -40412, 1002, 1112, -1001, 9999, -40401, -40413,
         -1, -1008, -1002, -1101, -1301, -40404, -40405, 1000, 1001, 1200, -2201, -3001, -40106, -1007]


def mc(ctx, n, retry, need, props=True):
    for fam in ("iot", "smart"):
        ctx.mc("QueryMC", constants=dict(NoCaller=0, Callers="{" + ",".join(map(str, range(1, n + 1))) + "}",
                                         MaxRetry=retry, MaxNeed=need if fam == "smart" else 1, Family=f'"{fam}"'),
               invariants=INV, properties=PROPS if props else PROPS[:-1], label=f"QueryMC/{fam}")


def mutate(tr, rng):
    """Corrupt one observed field that the property constrains."""
    evs = tr["ev"]
    kinds = []
    for i, e in enumerate(evs):
        if e["e"] == "send":
            kinds += [("dup", i), ("time", i)]
        if e["e"] in ("ok",):
            kinds.append(("toks", i))
        if e["e"] == "err":
            kinds.append(("tok", i))
        if e["e"] == "reset":
            kinds.append(("drop", i))
    if not kinds:
        return None
    k, i = rng.choice(kinds)
    if k == "dup":
        evs.insert(i, dict(evs[i]))
    elif k == "time":
        for e in evs[i:]:
            e["t"] += 7
        if i == 0:
            return None
    elif k == "toks":
        evs[i]["toks"] = [t + 1 for t in evs[i]["toks"]]
    elif k == "tok":
        evs[i]["tok"] += 1
    else:
        del evs[i]
    return tr


def check(ctx):
    mc(ctx, 2, 1 if ctx.quick else 2, 2)
    gen = {}
    for fam in ("iot", "smart"):
        gen[fam] = ctx.gen("QueryGen", constants=dict(NoCaller=0, Callers="{1}", MaxRetry=3,
                                                      MaxNeed=2 if fam == "smart" else 1, Family=f'"{fam}"'))
    scripts = []

    def one(fam, s):
        return {"fam": fam, "callers": [{"c": 1, "q": [{"retry": s["retry"], "need": s["need"]}]}],
                "sends": [{"k": k} for k in s["out"]]}

    for s in gen["iot"]:
        scripts.append(one("iot", s))
    for s in (gen["smart"] if not ctx.quick else ctx.sample(gen["smart"], 2500)):
        scripts.append(one("smart", s))
    cam = [s for s in gen["smart"]]
    for s in ctx.sample(cam, 800 if ctx.quick else 4000):
        scripts.append(one("cam", s))
    # every SMART error code as the device's answer, at every attempt position
    for fam in ("smart", "cam"):
        for code in CODES + [None, 777777]:
            for pos in range(3):
                for r in (0, 1, 3):
                    st = {"k": "code", "code": code}
                    if code in (None, 777777):
                        st["tok"] = -100000
                    scripts.append({"fam": fam, "callers": [{"c": 1, "q": [{"retry": r, "need": 1}]}],
                                    "sends": [{"k": "timeout"}] * pos + [st] * 4})
    # histories: several queries on one protocol object, nothing carried over
    kinds = ["answer", "conn", "retryable", "timeout", "auth", "device", "kasa"]
    for _ in range(400 if ctx.quick else 4000):
        fam = ctx.rng.choice(["iot", "smart", "cam"])
        q = [{"retry": ctx.rng.randint(0, 4), "need": 1 if fam == "iot" else ctx.rng.randint(1, 3),
              "wait": ctx.rng.choice([0, 0, 300])} for _ in range(ctx.rng.randint(2, 4))]
        w = ctx.rng.choice([[3, 2, 2, 2, 1, 1, 1], [1, 3, 3, 3, 0, 0, 0], [1, 1, 1, 1, 1, 1, 1]])
        sends = [{"k": k, "delay": ctx.rng.choice([0, 0, 50, 1500])} for k in ctx.rng.choices(kinds, w, k=24)]
        scripts.append({"fam": fam, "callers": [{"c": 1, "q": q}], "sends": sends})
    tr = ctx.run("drv_query", "drive", scripts)
    ctx.validate("QueryTrace", tr, constants=dict(NoCaller=0), selftest=mutate)
    ctx.assumptions += ["faults are injected at the transport interface (BaseTransport.send/reset)",
                        "virtual clock; response delays are finite"]
