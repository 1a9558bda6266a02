"""C18: faults surface only as classified library errors.  Spec: Faults.tla."""
import itertools

KINDS = [("klap", {"fam": "iot", "v": 1}), ("klap", {"fam": "smart", "v": 2}), ("aes", {"v": 1}), ("aes", {"v": 2}),
         ("sslaes", {}), ("ssl", {}), ("linkie", {})]
OUT = ["conn", "timeout", "payload", "http", "bad"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] == "err" or (e["e"] == "ok" and not any(
        x.get("k") == "bad" for x in tr["ev"]))]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "err":
        e["k"] = "foreign:KeyError"
    else:
        e["good"] = False
    return tr


def check(ctx):
    R = ctx.rng
    for n in (1, 3):
        ctx.mc("FaultsMC", constants=dict(MaxReq=2, MaxRetry=1 if ctx.quick else 2, Exch=n),
               invariants=["OnlyLibrary", "AttemptsBounded"], properties=["Ends"])
    gen = ctx.gen("FaultsGen", constants=dict(MaxReq=1, MaxRetry=2 if ctx.quick else 3, Exch=3))
    gen = ctx.sample(gen, 250 if ctx.quick else 3000)
    scripts = []
    for i, g in enumerate(gen):
        for kind, a in KINDS:
            scripts.append({"kind": kind, **a, "cfg": "creds", "out": g["out"], "n": i,
                            "q": [{"retry": n} for n in g["retry"]] + [{"retry": 1}, {"retry": 0}]})
    # every single malformed/faulty exchange at every stage, many damages each
    for (kind, a), pos, o in itertools.product(KINDS, range(5), OUT):
        for n in range((6 if ctx.quick else 150) if o in ("bad", "http") else 2):
            scripts.append({"kind": kind, **a, "cfg": R.choice(["creds", "none", "hash"]), "out": ["ok"] * pos + [o], "n": n,
                            "q": [{"retry": 1}, {"retry": 1}, {"retry": 0}]})
    for n in range(2500 if ctx.quick else 40000):
        kind, a = R.choice(KINDS)
        f = R.choice([0.1, 0.3, 0.6])
        s = {"kind": kind, **a, "cfg": R.choice(["creds", "none", "hash", "both"]), "n": n,
             "out": [R.choice(OUT + ["bad"]) if R.random() < f else "ok" for _ in range(25)], "q": []}
        for _ in range(R.randint(1, 5)):
            x = {"retry": R.choice([0, 1, 2, 3]), "wait": R.choice([0, 0, 100, 300, 5000])}
            if R.random() < 0.2:
                x["cancel"] = R.choice([0, 20, 260, 1100])
            s["q"].append(x)
        if R.random() < 0.5:
            s["slow"] = [R.choice([0, 10, 30, 300]) for _ in range(25)]
        scripts.append(s)
    # cancelled at every stage while the answer is outstanding
    for (kind, a), pos in itertools.product(KINDS, range(6)):
        for c in (5, 15):
            scripts.append({"kind": kind, **a, "cfg": "creds", "out": [], "slow": [0] * pos + [10, 10], "n": c,
                            "q": [{"retry": 1, "cancel": c}, {"retry": 0}, {"retry": 0, "cancel": c}, {"retry": 0}]})
    tr = ctx.run("drv_faults", "drive", scripts)
    ctx.validate("FaultsTrace", tr, selftest=mutate)
    ctx.assumptions += ["faults are injected at aiohttp's request call; answers are damaged before encryption and on the wire",
                        "the raw TCP transport's faults are decided by C03 with the same classes"]
