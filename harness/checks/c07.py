"""C07: token login sessions.  Spec: HttpSession.tla + Token.tla."""
CODES = ["auth", "retryable", "device"]
POST = ["conn", "timeout", "payload", "http"]
INV = ["ReqOnlyLoggedIn", "FreshAfterFailure", "DeadNotUsed", "DefaultMeansRefused"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] in ("req", "login", "ok", "err")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "req":
        e[rng.choice(["tk", "r"])] += 1
    elif e["e"] == "login":
        e["who"] = "default" if e["who"] == "user" else "user"
    elif e["e"] == "ok":
        e["tok"] += 1
    else:
        e["k"] = "other"
    return tr


def plan(R, st, f):
    if R.random() >= f:
        p = {"k": "ok"}
    else:
        k = R.choice(POST + ["code"] * 3 + ["refused"] * (4 if st == "login" else 1))
        p = {"k": k, "c": R.choice(CODES)} if k == "code" else {"k": k}
    if R.random() < 0.3:
        p["delay"] = R.choice([1, 40, 700])
    return p


def check(ctx):
    R = ctx.rng
    ctx.mc("TokenMC", constants=dict(MaxReq=2, MaxRetry=1, MaxLogin=4 if ctx.quick else 6), invariants=INV,
           properties=["DefaultOnlyAfterRefusal", "Ends"])
    gen = ctx.gen("TokenGen", constants=dict(MaxReq=1 if ctx.quick else 2, MaxRetry=2 if ctx.quick else 1, MaxLogin=6))
    gen = ctx.sample(gen, 2500 if ctx.quick else 30000)
    CFG = ["creds", "hash", "none", "both"]
    scripts = []
    for i, g in enumerate(gen):
        d = (lambda p: {**p, "delay": R.choice([1, 40])}) if i % 3 == 0 else (lambda p: p)
        scripts.append({"cfg": CFG[i % 4], "login": [d(p) for p in g["login"]], "req": [d(p) for p in g["req"]],
                        "q": [{"retry": n} for n in g["retry"]] + [{"retry": 1}, {"retry": 0}]})
    life = (86400 - 1200) * 1000
    for d in (-1500, -1, 0, 1, 1500):
        for delay in (0, 300):
            for cfg in CFG:
                for l in (["ok"] * 6, ["ok", "refused", "ok", "refused", "ok"], ["refused"] * 5):
                    scripts.append({"cfg": cfg, "login": [{"k": k, "delay": delay} for k in l],
                                    "q": [{"retry": 0}, {"wait": max(0, life + d)}, {"wait": 1000}, {"wait": life // 2},
                                          {"wait": life // 2 + 2000}]})
    for _ in range(1500 if ctx.quick else 20000):
        f = R.random() * 0.7
        s = {"cfg": R.choice(CFG), **{st: [plan(R, st, f) for _ in range(14)] for st in ("login", "req")}, "q": []}
        for _ in range(R.randint(2, 6)):
            x = {"retry": R.choice([0, 1, 2, 3]), "wait": R.choice([0, 0, 50, 240, 4000, 59_000, 43_200_000])}
            if R.random() < 0.12:
                x["cancel"] = R.choice([0, 20, 41, 100, 260, 705, 1100])
            if R.random() < 0.08:
                x = {"close": True}
            s["q"].append(x)
        scripts.append(s)
    tr = ctx.run("drv_ssl", "drive", scripts)
    ctx.validate("TokenTrace", tr, selftest=mutate)
    ctx.assumptions += ["faults are injected at aiohttp's request call"]
