"""C06: camera secure session.  Spec: HttpSession.tla + SslAes.tla."""
import itertools

CODES = ["auth", "retryable", "device"]
POST = ["conn", "timeout", "payload", "http"]
INV = ["ReqOnlyLoggedIn", "FreshAfterFailure", "SecureIffDigest", "BlockedNotRetried", "SeqNeverReused",
       "SecureMeansConfirmed", "H2MeansConfirmed"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] in ("req", "h2", "less", "ok", "err", "h1")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "req":
        if e["mode"] == "secure":
            f = rng.choice(["off", "key", "n", "r"])
            e[f] += 1
        else:
            e["n"] += 1
    elif e["e"] == "h2":
        e["proof"] = False
    elif e["e"] == "less":
        e["pw"] = "other"
    elif e["e"] == "h1":
        e["who"] = "other"
    elif e["e"] == "ok":
        e["tok"] += 1
    else:
        e["k"] = "other"
    return tr


def any_plan(R, st, f):
    good = R.random() >= f
    if st == "h1":
        if good:
            return {"k": "nonce", "c": R.choice(["own", "own", "def"])} if R.random() < 0.7 else {"k": "less"}
        k = R.choice(POST + ["blocked", "other", "lessbad", "less", "nonce"])
        return {"k": k, "c": R.choice(["wrong", "own", "def"])} if k == "nonce" else {"k": k}
    if st == "less":
        return {"k": "ok"} if good else {"k": R.choice(POST + ["refused"] * 3)}
    if good:
        return {"k": "ok"}
    k = R.choice(POST + ["outer", "outer"] + (["inner", "inner", "garbage", "http500"] if st == "req" else []))
    return {"k": k, "c": R.choice(CODES)} if k in ("outer", "inner") else {"k": k}


def delay(R, p):
    if R.random() < 0.3:
        p = {**p, "delay": R.choice([1, 40, 700])}
    return p


STAGES = ("h1", "less", "h2", "req")


def check(ctx):
    R = ctx.rng
    ctx.mc("SslAesMC", constants=dict(MaxReq=2, MaxRetry=1, MaxHs=3 if ctx.quick else 5), invariants=INV,
           properties=["SeqStepsByOne", "Ends"])
    gen = ctx.gen("SslAesGen", constants=dict(MaxReq=1, MaxRetry=1, MaxHs=4))
    gen = ctx.sample(gen, 2000 if ctx.quick else 30000)
    scripts = []
    for i, g in enumerate(gen):
        scripts.append({"cfg": ["creds", "hash", "both"][i % 3] if g["cred"] else "none", "form": ["mix", "multi", "get"][i % 3],
                        **{s: [delay(R, p) if i % 3 == 0 else p for p in g[s]] for s in STAGES},
                        "q": [{"retry": g["retry"]}, {"retry": 1}, {"retry": 0}]})
    CFG = ["creds", "hash", "none", "both"]
    H1 = [("nonce", "own"), ("nonce", "def"), ("nonce", "wrong"), ("less", "-"), ("lessbad", "-"), ("blocked", "-"),
          ("other", "-")]
    for a, b, l1, cfg in itertools.product(H1, H1, ("ok", "refused"), CFG):
        scripts.append({"cfg": cfg, "h1": [{"k": a[0], "c": a[1]}, {"k": b[0], "c": b[1]}] * 3,
                        "less": [l1, "ok", l1], "q": [{"retry": 1}, {"retry": 1}, {"close": True}, {"retry": 1}]})
    for _ in range(1500 if ctx.quick else 20000):
        f = R.random() * 0.7
        s = {"cfg": R.choice(CFG), **{st: [delay(R, any_plan(R, st, f)) for _ in range(14)] for st in STAGES}, "q": []}
        for _ in range(R.randint(2, 6)):
            x = {"retry": R.choice([0, 1, 2, 3]), "wait": R.choice([0, 0, 50, 240, 4000, 59_000, 600_000, 43_200_000])}
            if R.random() < 0.12:
                x["cancel"] = R.choice([0, 20, 41, 100, 260, 705, 1100])
            if R.random() < 0.08:
                x = {"close": True}
            s["q"].append(x)
        scripts.append(s)
    tr = ctx.run("drv_sslaes", "drive", scripts)
    ctx.validate("SslAesTrace", tr, selftest=mutate)
    ctx.assumptions += ["the simulated camera implements the digest login, tags and encryption independently",
                        "faults are injected at aiohttp's request call"]
