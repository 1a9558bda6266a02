"""C23: the reported switch-on time.  Spec: OnSince.tla."""


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] == "read"]
    if not c:
        return None
    e = rng.choice(c)
    e["v"] = e["v"] + rng.choice([1, 3600, -3600]) if e["v"] > 0 else 12345
    return tr


def check(ctx):
    R = ctx.rng
    props = ["Stable", "True_", "None_", "Fresh"]
    ctx.mc("OnSinceMC", constants=dict(Tol=2, MaxT=101 if ctx.quick else 105, J=1, Jumps="{5}"), properties=props, timeout=850, label="wide jitter")
    ctx.mc("OnSinceMC", constants=dict(Tol=3, MaxT=101 if ctx.quick else 104, J=1, Jumps="{7}"), properties=props, timeout=850, label="small jitter")
    scripts = []
    for j in (2, 4):
        gen = ctx.gen("OnSinceGen", constants=dict(Tol=5, MaxT=200, J=j, Jumps="{3,5,7,60}", MaxN=22), simulate=300 if ctx.quick else 20000, depth=24)
        gen = [g for g in ctx.sample(gen, 1500 if ctx.quick else 30000)]
        for g in gen:
            if R.random() < 0.4:    # on, off and on again within seconds, looked at each time
                i = R.randrange(len(g))
                g = g[:i] + [{"a": a, "j": 0, "d": 0} for a in ("off", "on", "poll", "read", "off", "poll", "read", "on", "poll", "read")] + g[i:]
            scripts.append({"kind": R.choice(["plug", "switch", "dimmer", "strip", "strip", "smart", "smart", "smarts"]), "steps": g})
    ctx.validate("OnSinceTrace", ctx.run("drv_onsince", "drive", scripts), selftest=mutate, constants=dict(Tol=5))
