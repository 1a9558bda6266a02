"""C25: module settings.  Spec: Settings.tla."""
INV = ["TypeOK", "Siblings", "Untouched", "ReadBack", "Remembers"]
VALS = {"sound": (0, 17), "duration": (1, 600), "delay": (0, 5000), "onsec": (0, 40), "offsec": (0, 40), "target": (5, 30), "offset": (-10, 10), "level": (1, 4),
        "count": (1, 3), "low": (0, 51), "ramp": (10, 50), "fadeon": (0, 10000), "fadeoff": (0, 10000), "gentleon": (0, 120000), "gentleoff": (0, 120000),
        "limit": (0, 60), "cold": (0, 600000), "far": (0, 100), "mid": (0, 100), "near": (0, 100), "custom": (0, 100)}

FEW = {("siren", "sound"), ("alarm", "sound"), ("fan", "level"), ("vacuum", "count")}


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] in ("held", "view", "feat") and (e.get("s") or e.get("v"))] + [e for e in tr["ev"] if e["e"] == "cmd" and not e["refused"]]
    e = rng.choice(c)
    if e["e"] == "cmd":
        if rng.random() < 0.5:
            e["ok"] = not e["ok"]
        else:
            e["rest"] = False
    else:
        x = e.get("s") or e["v"]
        k = rng.choice(sorted(x))
        x[k] = 1 - x[k] if x[k] in (0, 1) else x[k] + 1
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("SettingsMC", constants=dict(MaxN=2 if ctx.quick else 3), invariants=INV)
    gen = ctx.gen("SettingsGen", constants=dict(MaxN=1, Only='""'))
    single = list(gen)
    for mod in sorted({g["mod"] for g in single}):
        size = sum(g["mod"] == mod for g in single)
        multi = ctx.gen("SettingsGen", constants=dict(MaxN=5, Only=f'"{mod}"'), simulate=min(60, 6 + size // 4) if ctx.quick else 600, depth=7)
        gen += ctx.sample(multi, 30 + size // 2 if ctx.quick else 4000)
        # the generated commands in further orders, each kind as often as any other
        mine = [g for g in single if g["mod"] == mod]
        kinds = {}
        for g in mine:
            kinds.setdefault(g["cmds"][0]["k"], []).append(g["cmds"][0])
        if len(kinds) > 1:
            for _ in range(40 * min(len(kinds), 4) if ctx.quick else 3000):
                gen.append({**R.choice(mine), "cmds": [R.choice(kinds[R.choice(sorted(kinds))]) for _ in range(6)]})
    scripts = []
    for n, g in enumerate(gen):
        for rep in range(2 if len(g["cmds"]) == 1 else 1):
            steps = []
            for c in g["cmds"]:
                lo, hi = VALS.get(c["k"], (0, 0)) if (g["mod"], c["k"]) not in FEW else (0, 0)
                if lo < c["v"] < hi and R.random() < 0.6:
                    c = {**c, "v": R.randint(lo + 1, hi - 1)}
                st = {"k": "cmd", "noupd": R.random() < 0.7, "cmd": c, "via": rep == 0 if len(g["cmds"]) == 1 else R.random() < 0.4}
                x = R.random()
                if x < (0.06 if len(g["cmds"]) == 1 else 0.3):
                    st["refuse"] = True
                elif x < 0.36 and c["k"] not in ("start", "pause"):
                    st["fault"] = R.choice(["lost", "lost-after"])
                steps.append(st)
                if R.random() < 0.12:
                    steps.append({"k": "other", "s": {k: R.randint(*VALS[k]) for k in g["s"] if k in VALS and R.random() < 0.5}})
            s = {k: R.randint(*VALS[k]) if k in VALS and R.random() < 0.5 else v for k, v in g["s"].items()}
            scripts.append({"mod": g["mod"], "model": R.randrange(12), "s": s, "steps": steps, "bare": R.random() < 0.3})
    scripts = ctx.sample(scripts, 4400 if ctx.quick else 60000)
    ctx.validate("SettingsTrace", ctx.run("drv_settings", "drive", scripts), selftest=mutate)
