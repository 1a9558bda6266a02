"""C04: KLAP session discipline.  Spec: HttpSession.tla + Klap.tla."""
import itertools

OKS = ["own", "kasa", "kasacamera", "tapo", "tapocamera", "blank"]
HS1 = OKS + ["wrong", "badlen", "http", "conn", "timeout", "payload"]
HS2 = ["ok", "http", "conn", "timeout", "payload"]
REQ = ["ok", "http403", "http", "garbage", "conn", "timeout", "payload"]
INV = ["ReqOnlyInSession", "FreshAfterFailure", "SeqNeverReused", "RejectedNotUsed", "OnlyCompleted"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] in ("req", "hs2", "ok", "err", "hs1")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "req":
        f = rng.choice(["off", "key", "ck", "r"])
        e[f] += 1
    elif e["e"] == "hs2":
        e["proof"] = False
    elif e["e"] == "hs1":
        e["ck"] = 77
    elif e["e"] == "ok":
        e["tok"] += 1
    else:
        e["k"] = "device"
    return tr


def check(ctx):
    R = ctx.rng
    for fam in ("iot", "smart") if not ctx.quick else ("smart",):
        ctx.mc("KlapMC", constants=dict(MaxReq=2, MaxRetry=1, Fam=f'"{fam}"', MaxHs=3 if ctx.quick else 4),
               invariants=INV, properties=["SeqStepsByOne", "NoReqWithoutProof", "Ends"])
    gen = ctx.gen("KlapGen", constants=dict(MaxReq=1, MaxRetry=1 if ctx.quick else 2, Fam='"smart"', MaxHs=4))
    if not ctx.quick:
        gen = ctx.sample(gen, 12000)
    CFG = ["creds", "hash", "none", "both"]
    scripts = []

    def dress(stage, k):
        p = {"k": k}
        if R.random() < 0.3:
            p["delay"] = R.choice([1, 40, 700])
        if stage == "hs1" and k in OKS:
            if R.random() < 0.4:
                p["to"] = R.choice([1260, 1800, 86400, 43200, 1201, 1200, 600])
            if R.random() < 0.1:
                p["ck"] = False
        return p

    for i, g in enumerate(gen):
        for fam in ("iot", "smart"):
            scripts.append({"fam": fam, "v": 1 + i % 2, "cfg": CFG[(i // 2) % 4], "https": i % 5 == 0,
                            "hs1": g["hs1"], "hs2": g["hs2"], "req": g["req"],
                            "q": [{"retry": g["retry"]}, {"retry": 1}, {"retry": 0}]})
    # every proof kind for every configuration and version
    for k, v, cfg, fam in itertools.product(OKS + ["wrong"], (1, 2), CFG, ("iot", "smart")):
        for https in (False, True):
            scripts.append({"fam": fam, "v": v, "cfg": cfg, "https": https, "hs1": [k, "own"],
                            "q": [{"retry": 1}, {"retry": 1}, {"retry": 1}]})
    # expiry boundaries
    for to in (0, 1201, 1260, 1800, 3600, 86400):
        life = ((to or 86400) - 1200) * 1000
        for d in (-1500, -1, 0, 1, 1500):
            for delay in (0, 300):
                scripts.append({"fam": R.choice(["iot", "smart"]), "v": R.choice([1, 2]), "cfg": R.choice(CFG),
                                "hs1": [{"k": "own", "to": to, "delay": delay}] * 5, "hs2": [{"k": "ok", "delay": 5}] * 5,
                                "q": [{"retry": 0}, {"wait": max(0, life + d)}, {"wait": 1000}, {"wait": life // 2},
                                      {"wait": life // 2 + 2000}]})
    for _ in range(1500 if ctx.quick else 15000):
        f = R.random() * 0.7
        s = {"fam": R.choice(["iot", "smart"]), "v": R.choice([1, 2]), "cfg": R.choice(CFG), "https": R.random() < 0.2,
             "hs1": [dress("hs1", R.choice(HS1) if R.random() < f else R.choice(OKS)) for _ in range(14)],
             "hs2": [dress("hs2", R.choice(HS2) if R.random() < f else "ok") for _ in range(14)],
             "req": [dress("req", R.choice(REQ) if R.random() < f else "ok") for _ in range(14)], "q": []}
        for _ in range(R.randint(2, 6)):
            x = {"retry": R.choice([0, 1, 2, 3]), "wait": R.choice([0, 0, 50, 240, 4000, 59_000, 600_000, 43_200_000])}
            if R.random() < 0.12:
                x["cancel"] = R.choice([0, 20, 41, 100, 260, 705, 1100])
            if R.random() < 0.08:
                x = {"close": True}
            s["q"].append(x)
        scripts.append(s)
    tr = ctx.run("drv_klap", "drive", scripts)
    ctx.validate("KlapTrace", tr, selftest=mutate)
    ctx.assumptions += ["the simulated device implements KLAP v1/v2 independently (own key derivation, own AES)",
                        "faults are injected at aiohttp's request call"]
