"""C02: concurrent queries are serialized, FIFO, with response ownership and safe cancellation."""
from checks.c01 import mc, mutate


def check(ctx):
    if ctx.quick:
        mc(ctx, 2, 1, 2)
        ctx.mc("QueryMC", constants=dict(NoCaller=0, Callers="{1,2,3}", MaxRetry=0, MaxNeed=2, Family='"smart"'),
               invariants=["TypeOK", "OwnAnswers"], properties=["Contiguous", "EveryoneReturns"],
               allow_zero=("Retry",), label="QueryMC/3 callers")
    else:
        mc(ctx, 3, 1, 2)
    kinds = ["answer", "conn", "retryable", "timeout", "auth", "device", "kasa"]
    scripts = []
    R = ctx.rng

    def script(fam, n, faulty):
        callers = []
        for c in range(1, n + 1):
            qs = [{"retry": R.randint(0, 2), "need": 1 if fam == "iot" else R.randint(1, 3),
                   "wait": R.choice([0, 0, 0, 10, 20, 30, 500])} for _ in range(R.randint(1, 2))]
            s = {"c": c, "q": qs}
            if R.random() < 0.4:
                s["cancel"] = R.choice([0, 5, 10, 15, 20, 25, 30, 40, 60, 500, 1000, 1010])
            callers.append(s)
        w = [6, 1, 1, 1, 1, 1, 1] if faulty else [1, 0, 0, 0, 0, 0, 0]
        sends = [{"k": k, "delay": R.choice([0, 10, 20, 30])} for k in R.choices(kinds, w, k=20)]
        return {"fam": fam, "callers": callers, "sends": sends}

    # every cancellation point of each of two/three overlapping callers, no faults and one fault
    for fam in ("iot", "smart", "cam"):
        for n in (2, 3):
            for who in range(1, n + 1):
                for at in range(0, 75, 5):
                    for fault in (None, "conn", "timeout", "retryable", "auth"):
                        callers = [{"c": c, "q": [{"retry": 1, "need": 1 if fam == "iot" else 2, "wait": 2 * (c - 1)}]}
                                   for c in range(1, n + 1)]
                        callers[who - 1]["cancel"] = at
                        sends = [{"k": "answer", "delay": 10}, {"k": fault or "answer", "delay": 10}] + \
                                [{"k": "answer", "delay": 10}] * 20
                        scripts.append({"fam": fam, "callers": callers, "sends": sends})
    for _ in range(1500 if ctx.quick else 12000):
        scripts.append(script(R.choice(["iot", "smart", "cam"]), R.randint(2, 5), R.random() < 0.6))
    tr = ctx.run("drv_query", "drive", scripts)
    ctx.validate("QueryTrace", tr, constants=dict(NoCaller=0), selftest=mutate)
    ctx.assumptions += ["schedules are generated by response delays, start offsets and cancellation times on a "
                        "deterministic virtual-time loop (asyncio runs ready callbacks in FIFO order)"]
