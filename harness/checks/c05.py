"""C05: AES session discipline.  Spec: HttpSession.tla + Aes.tla."""
import itertools

CODES = ["auth", "retryable", "device"]
POST = ["conn", "timeout", "payload", "http"]
INV = ["ReqOnlyLoggedIn", "LoginOnlyAfterHs", "FreshAfterFailure", "DeadNotUsed", "DefaultMeansRefused"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] in ("req", "login", "ok", "err", "hs")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "req":
        f = rng.choice(["tk", "key", "ck", "r"])
        e[f] += 1
    elif e["e"] == "login":
        e["who"] = "default" if e["who"] == "user" else "user"
    elif e["e"] == "hs":
        e["ck"] = 77
    elif e["e"] == "ok":
        e["tok"] += 1
    else:
        e["k"] = "other"
    return tr


def bad(R, stage):
    k = R.choice(POST + ["outer"] + (["inner", "inner", "refused", "refused", "garbage"] if stage != "hs" else []))
    p = {"k": k}
    if k in ("outer", "inner"):
        p["c"] = R.choice(CODES)
    return p


def dress(R, stage, p):
    p = dict(p)
    if R.random() < 0.3:
        p["delay"] = R.choice([1, 40, 700])
    if stage == "hs" and p["k"] == "ok":
        if R.random() < 0.4:
            p["to"] = R.choice([1260, 1800, 86400, 43200, 1201, 1200, 600])
        if R.random() < 0.1:
            p["ck"] = False
        elif R.random() < 0.2:
            p["ckname"] = "SESSIONID"
    if p["k"] == "refused" and R.random() < 0.4:
        p["at"] = "outer"
    elif R.random() < 0.1:
        p["plain"] = True
    return p


def check(ctx):
    R = ctx.rng
    ctx.mc("AesMC", constants=dict(MaxReq=2, MaxRetry=1, MaxHs=3 if ctx.quick else 5), invariants=INV,
           properties=["DefaultOnlyAfterRefusal", "FallbackOnFreshHandshake", "Ends"])
    gen = ctx.gen("AesGen", constants=dict(MaxReq=1, MaxRetry=1, MaxHs=4))
    gen = ctx.sample(gen, 1500 if ctx.quick else 20000)
    CFG = ["creds", "hash", "none", "both"]
    scripts = []
    for i, g in enumerate(gen):
        scripts.append({"v": 1 + i % 2, "cfg": CFG[(i // 2) % 4],
                        **{s: [dress(R, s, p) if i % 3 == 0 else p for p in g[s]] for s in ("hs", "login", "req")},
                        "q": [{"retry": g["retry"]}, {"retry": 1}, {"retry": 0}]})
    for v, cfg, n, at in itertools.product((1, 2), CFG, (0, 1, 2, 3), ("inner", "outer")):
        for j, last in enumerate(["ok"] + POST + [("inner", c) for c in CODES] + ["garbage"]):
            lp = {"k": last[0], "c": last[1]} if isinstance(last, tuple) else {"k": last}
            scripts.append({"v": v, "cfg": cfg, "login": [{"k": "refused", "at": at}] * n + [lp],
                            "newkey": j == 0 and n == 1, "q": [{"retry": 1}, {"retry": 1}, {"retry": 1}]})
    for to in (0, 1201, 1260, 1800, 3600, 86400):
        life = ((to or 86400) - 1200) * 1000
        for d in (-1500, -1, 0, 1, 1500):
            for delay in (0, 300):
                scripts.append({"v": R.choice([1, 2]), "cfg": R.choice(CFG),
                                "hs": [{"k": "ok", "to": to, "delay": delay}] * 5, "login": [{"k": "ok", "delay": 5}] * 5,
                                "q": [{"retry": 0}, {"wait": max(0, life + d)}, {"wait": 1000}, {"wait": life // 2},
                                      {"wait": life // 2 + 2000}]})
    for _ in range(1500 if ctx.quick else 20000):
        f = R.random() * 0.7
        s = {"v": R.choice([1, 2]), "cfg": R.choice(CFG),
             **{st: [dress(R, st, bad(R, st) if R.random() < f else {"k": "ok"}) for _ in range(14)]
                for st in ("hs", "login", "req")}, "q": []}
        for _ in range(R.randint(2, 6)):
            x = {"retry": R.choice([0, 1, 2, 3]), "wait": R.choice([0, 0, 50, 240, 4000, 59_000, 600_000, 43_200_000])}
            if R.random() < 0.12:
                x["cancel"] = R.choice([0, 20, 41, 100, 260, 705, 1100])
            if R.random() < 0.08:
                x = {"close": True}
            s["q"].append(x)
        scripts.append(s)
    tr = ctx.run("drv_aes", "drive", scripts)
    ctx.validate("AesTrace", tr, selftest=mutate)
    ctx.assumptions += ["the simulated device implements the AES handshake and passthrough independently",
                        "faults are injected at aiohttp's request call"]
