"""C03: XOR TCP connection hygiene.  Spec: XorConn.tla."""
import itertools

CONN = ["ok", "refused", "hostdown", "hostunreach", "timedout", "oserror", "reset", "noaddr", "gai", "value", "hang"]
ANS = ["answer", "chunks", "idleeof", "eof", "short", "reset", "drainreset", "garbage", "badjson", "empty", "hang", "late"]


def plan(R, k):
    p = {"k": k}
    if k == "late":
        p = {"k": "answer", "delay": R.choice([5003, 5500, 6200, 8000, 12000])}
    elif k in ("answer", "eof", "reset", "garbage", "badjson", "empty", "chunks", "short", "idleeof"):
        p["delay"] = R.choice([0, 0, 10, 40])
    if k in ("chunks", "short"):
        p.update(a=R.randrange(1, 60), b=R.randrange(1, 60))
        if R.random() < 0.2:
            p["pad"] = R.choice([100, 70000])
    if R.random() < 0.15 and k not in ("drainreset",):
        p["drain"] = 7
        p["delay"] = p.get("delay", 0) + 9      # the device answers after the drain
    return p


def mutate(tr, rng):
    evs = tr["ev"]
    c = [i for i, e in enumerate(evs) if e["e"] in ("close", "ok", "write", "err")]
    if not c:
        return None
    i = rng.choice(c)
    e = evs[i]
    if e["e"] == "close":
        del evs[i]
    elif e["e"] == "ok":
        e["tok"] += 1
    elif e["e"] == "write":
        e["conn"] += 1
    else:
        e["k"] = "device"
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("XorConnMC", constants=dict(MaxReq=2 if ctx.quick else 3, MaxRetry=1, MaxConn=3 if ctx.quick else 4),
           invariants=["NoStale", "AtMostOneOpen", "IdleIsClean", "ErrorsClose"], properties=["Ends"])
    scripts = []
    # every pair of exchange faults / connect outcomes, then a healthy query
    for a, b in itertools.product(ANS, ANS):
        for retry in (0, 1, 3):
            scripts.append({"answers": [plan(R, a), plan(R, b)],
                            "q": [{"retry": retry}, {"retry": retry, "wait": R.choice([0, 30, 1300])}, {"retry": 0}]})
    for a, b in itertools.product(CONN, CONN):
        for retry in (0, 2):
            scripts.append({"conns": [{"k": a, "delay": R.choice([0, 20])}, {"k": b, "delay": R.choice([0, 20])}],
                            "q": [{"retry": retry}, {"retry": retry}, {"retry": 0}]})
    # cancellation at connect, drain and read, followed by a healthy query
    for at in range(0, 60, 3):
        for k in ("answer", "chunks", "hang", "late", "short"):
            p = plan(R, k)
            p["drain"] = 10
            p["delay"] = p.get("delay", 0) + 25
            for first in (0, 1):
                q = [{"retry": 1, "cancel": at}, {"retry": 1}, {"retry": 1}]
                if first:
                    q.insert(0, {"retry": 0})
                scripts.append({"conns": [{"k": "ok", "delay": 10}] * 3,
                                "answers": ([{"k": "answer"}] if first else []) + [p, {"k": "answer", "delay": 5}],
                                "q": q})
    for _ in range(2500 if ctx.quick else 20000):
        q = []
        for _ in range(R.randint(2, 6)):
            x = {"retry": R.choice([0, 0, 1, 2, 3]), "wait": R.choice([0, 0, 10, 700, 3000])}
            if R.random() < 0.2:
                x["cancel"] = R.choice([0, 3, 8, 14, 26, 33, 1001, 5002])
            if R.random() < 0.1:
                x = {"close": True}
            q.append(x)
        f = R.random()
        scripts.append({
            "conns": [{"k": R.choice(CONN) if R.random() < f * 0.6 else "ok", "delay": R.choice([0, 12, 4900])}
                      for _ in range(8)],
            "answers": [plan(R, R.choice(ANS) if R.random() < f else "answer") for _ in range(12)],
            "q": q, "wait_closed": R.choice([None, "error"])})
    tr = ctx.run("drv_xor", "drive", scripts)
    ctx.validate("XorConnTrace", tr, selftest=mutate)
    ctx.assumptions += ["the TCP stack is replaced at asyncio.open_connection; the stream reader is asyncio's own",
                        "a healthy device never sends bytes that no request asked for"]
