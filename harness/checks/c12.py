"""C12: discovery.  Spec: Discover.tla."""
from drv_discover import KINDS

PROPS = ["Ends", "OneOutcome"]
INV = ["RoundsBound", "CallbackOnce", "Finished", "CallbacksRun", "InTime"]
CBS = ("MCb", "MCbEnd", "Cb", "CbEnd")
UNS = ("MUnsup", "MUnsupEnd", "UnsupCb", "UnsupCbEnd")


def mutate(tr, rng):
    ev = tr["ev"]
    c = [i for i, e in enumerate(ev) if e["e"] in ("ret", "cb", "send", "close")]
    if not c:
        return None
    e = ev[rng.choice(c)]
    if e["e"] == "ret":
        if e["devs"] and rng.random() < 0.5:
            e["devs"].pop()
        else:
            e["t"] += 1
    elif e["e"] == "cb":
        ev.remove(e)
    elif e["e"] == "send":
        ev.insert(ev.index(e), dict(e))
    else:
        ev.remove(e)
    return tr


def check(ctx):
    R = ctx.rng
    for s in ("TRUE", "FALSE"):
        ctx.mc("DiscoverMC", constants=dict(Hosts='{"a","b"}', Single=s, MaxRecv=3 if ctx.quick else 4), invariants=INV, properties=PROPS,
               allow_zero=CBS if s == "TRUE" else UNS, timeout=850)
    kinds = list(KINDS)
    gen = ctx.gen("DiscoverGen", constants=dict(Hosts='{"h1","h2","h3"}', Single="FALSE", MaxRecv=4), simulate=1500 if ctx.quick else 20000, depth=40, workers=8)
    gen += ctx.gen("DiscoverGen", constants=dict(Hosts='{"h1","h2"}', Single="TRUE", MaxRecv=3), simulate=1000 if ctx.quick else 10000, depth=40, workers=8)
    by = {}
    for n, (p, o, k, c) in KINDS.items():
        by.setdefault((p, "invalid" if k == "garbage" else k), []).append(n)
    scripts = []
    for g in ctx.sample(gen, 1500 if ctx.quick else 20000):
        c = g["cfg"]
        # one model tick is 500 ms; datagrams come shortly after the tick
        ds = []
        for i, d in enumerate(g["d"]):
            p = d["p"] or R.choice([1, 2])
            x = {"t": d["t"] * 500 + 1 + i, "ip": "10.0.0." + d["h"][1:], "kind": R.choice(by[(p, d["k"])])}
            if d["p"] == 0:
                x["p"] = 0
            ds.append(x)
        scripts.append({"single": c["single"], "target": c["target"], "timeout": 2, "packets": c["packets"], "ondisc": True, "onunsup": c["onunsup"],
                        "raw": True, "port": None, "dto": None, "cred": 0, "dgrams": ds, "dur": {h: 100 + 500 * x for h, x in g["dur"].items()}})
    for n in range(2500 if ctx.quick else 50000):
        single = R.random() < 0.4
        hosts = [f"10.0.0.{i}" for i in range(1, R.randint(2, 8))]
        to = R.choice([1, 2, 5, 5, 10])
        ds = []
        for _ in range(R.choice([0, 1, 2, 4, 8, 16])):
            d = {"t": R.choice([R.randint(1, to * 1000 + 500), R.randint(1, 300), to * 1000 - 1, to * 1000 + 1]), "ip": R.choice(hosts), "kind": R.choice(kinds)}
            if R.random() < 0.1:
                d["p"] = R.choice([0, 1, 2])
            ds.append(d)
        # every datagram at its own millisecond and none at a round boundary
        used, out = set(), []
        pk = 3 if single else R.choice([1, 2, 3, 4, 5])
        for d in ds:
            while d["t"] in used or any(abs(d["t"] - to * 1000 * k / pk) < 1 for k in range(pk + 1)):
                d["t"] += 1
            used.add(d["t"])
        target = R.choice(["h1", "h1", "h2"]) if single else R.choice(["*", "*", "*", "h1"])
        scripts.append({"single": single, "target": target, "name": R.random() < 0.3, "timeout": to, "packets": pk, "ondisc": R.random() < 0.85,
                        "onunsup": R.random() < 0.6, "raw": R.random() < 0.5, "port": R.choice([None, None, None, 12345]), "dto": R.choice([None, 3]),
                        "cred": R.choice([0, 1, 2]), "dgrams": ds, "dur": {f"h{i}": R.choice([0, 0, 50, 700, 3333]) for i in range(1, 9)},
                        "errs": [R.randint(1, 900)] if R.random() < 0.1 else [],
                        "cancel": R.choice([None] * 9 + [R.randint(1, to * 1000)]), "n": n})
        if scripts[-1]["cancel"] in used or (scripts[-1]["cancel"] and scripts[-1]["cancel"] * pk % (to * 1000) == 0):
            scripts[-1]["cancel"] = None
    ctx.validate("DiscoverTrace", ctx.run("drv_discover", "drive", scripts), selftest=mutate)
