"""C26: masking in debug logs.  Spec: Redact.tla."""
ROUTES = {"iot": ["query", "list", "disc", "linkie"], "new": ["ok", "nofam", "noenc", "missing", "crypt"],
          "smart": ["single", "batch", "paged", "child", "step1", "nomethod"], "cam": ["single", "batch", "child", "paged", "nomethod"], "ssl": ["single", "batch"]}


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] == "answer"]
    if not c or any(e["e"] == "switch" for e in tr["ev"]):
        return None
    e = rng.choice(c)
    if not e["leaves"] or rng.random() < 0.3:
        e["same"] = False
    else:
        rng.choice(e["leaves"]).update(head=True, tail=True, mid=True)
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("RedactMC", constants=dict(Fams='{"iot","smart","new"}', Depth=2 if ctx.quick else 3), invariants=["NoLeak", "Useful", "Same"], timeout=850)
    scripts = []
    for fam, routes in ROUTES.items():
        f = fam if fam in ("iot", "new") else "smart"
        gen = ctx.gen("RedactGen", constants=dict(MaxD=3 if ctx.quick else 5, Fams=f'{{"{f}"}}', Routes="{" + ",".join(f'"{r}"' for r in routes) + "}"))
        gen = ctx.sample(gen, 900 if ctx.quick else 20000)
        for i, g in enumerate(gen):
            fields = [g] + [R.choice(gen) for _ in range(R.choice([0, 1, 3]))]
            # a value of an unusual type under a sensitive key must not appear either
            fields = [{"key": x["key"], "path": x["path"], **({"odd": R.choice(["list", "map", "empty"])} if fam != "new" and "mac" not in x["key"] and R.random() < 0.1 else {})} for x in fields]
            if fam == "new":
                fields = [x for x in fields if x["key"] != "connect_ssid"]
            scripts.append({"fam": fam, "route": g["route"], "fields": fields, "on": R.random() < 0.93, "err": R.choice([0, 0, 0, -1008]) if f == "smart" else 0})
    ctx.validate("RedactTrace", ctx.run("drv_redact", "drive", scripts), selftest=mutate)
