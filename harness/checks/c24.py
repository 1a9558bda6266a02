"""C24: effects and presets.  Spec: Scenes.tla."""
MODELS = {"rules": ["L530E(EU)_3.0_1.1.6", "L530E(EU)_3.0_1.1.0", "L630(EU)_1.0_1.1.2"],
          ("sstrip", False): ["L900-5(EU)_1.0_1.1.0", "L920-5(EU)_1.0_1.1.3"], ("sstrip", True): ["L930-5(EU)_1.0_1.2.5"],
          ("istrip", False): ["KL420L5(US)_1.0_1.0.2"], ("istrip", True): ["KL430(US)_1.0_1.0.10", "KL430(UN)_2.0_1.0.8"],
          "smart": ["L510B(EU)_3.0_1.0.5", "KS225(US)_1.0_1.1.1", "KS240(US)_1.0_1.0.5"],
          ("iot", False, False): ["LB110(US)_1.0_1.8.11"], ("iot", False, True): ["KL120(US)_1.0_1.8.11"], ("iot", True, True): ["KL130(EU)_1.0_1.8.8"]}
COUNT = {"rules": 2, "sstrip": 60, "istrip": 60, "smart": 0, "iot": 0}   # taken modulo the number of effects there are
INV = ["Untouched", "RunsSelected", "OneSlot", "SavedListed", "Applied", "EffectsApart"]


def mutate(tr, rng):
    e = rng.choice([x for x in tr["ev"] if x["e"] in ("held", "cmd", "view") and not x.get("refused")])
    if e["e"] == "cmd":
        e["ok"] = not e["ok"]
    elif e["e"] == "held":
        if rng.random() < 0.5 and e["slots"]:
            e["slots"][-1]["bri"] += 1
        else:
            e["lamp"]["bri"] += 1
    elif e["v"]["names"] and rng.random() < 0.5:
        e["v"]["names"][0] += 1
    else:
        e["same"] = False
    return tr


def models(c):
    return MODELS.get(c["kind"]) or MODELS.get((c["kind"], c["temp"])) or MODELS[(c["kind"], c["color"], c["temp"])]


def check(ctx):
    R = ctx.rng
    ctx.mc("ScenesMC", constants=dict(MaxN=2 if ctx.quick else 3), invariants=INV)
    gen = ctx.gen("ScenesGen", constants=dict(MaxN=1)) + ctx.gen("ScenesGen", constants=dict(MaxN=5), simulate=250 if ctx.quick else 8000, depth=7)
    scripts = []
    for g in ctx.sample(gen, 3000 if ctx.quick else 60000):
        s = {k: v for k, v in g["start"].items() if k != "cfg"}
        cfg = g["start"]["cfg"]
        num = COUNT[cfg["kind"]]
        pick = R.sample(range(1, num + 1), 2) if num else [1, 2]
        ren = lambda k: pick[k - 1] if k > 0 else k
        pos = lambda: [{"bri": b, "hue": h, "sat": x, "ct": t} for b, h, x, t in R.choices([(50, 0, 20, 0), (50, 0, 60, 0), (50, 10, 20, 0), (50, 0, 0, 3000), (80, 10, 20, 0), (50, 10, 20, 0), (100, 0, 0, 0), (R.randint(1, 100), R.randint(0, 360), 100, 0)], k=1)][0]

        def near(slots):
            """The lamp as a preset says, or almost."""
            ps = [x for x in slots if not x["e"]]
            if not ps or R.random() < 0.2:
                return pos()
            x = {k: max(v, 0) for k, v in R.choice(ps).items() if k != "e"}
            if R.random() < 0.75:
                k = R.choice(["bri", "hue", "sat", "ct"])
                x[k] = {"bri": R.randint(1, 100), "hue": R.randint(0, 360), "sat": R.choice([0, R.randint(0, 100)]), "ct": R.choice([0, 2700, 4000])}[k]
            return x
        s["eff"] = {**s["eff"], "k": ren(s["eff"]["k"])}
        if R.random() < 0.5 and cfg["kind"] != "smart":
            s["slots"] = [{"e": True, "bri": 100, "hue": -1, "sat": -1, "ct": -1} if cfg["kind"] in ("sstrip", "istrip") and R.random() < 0.3 else {"e": False, **pos()}
                          for _ in range(R.randint(0 if cfg["kind"] != "rules" else 1, 7))]
        if cfg["kind"] == "rules":
            s["rules"] = [R.randint(1, 100), R.randint(1, 100)]
        if R.random() < 0.5:
            s["lamp"] = near(s["slots"])
        slots = s["slots"]
        steps = []
        count = sum(not x["e"] for x in s["slots"])
        running = s["eff"]["k"]
        for c in g["cmds"]:
            c = dict(c)
            if c["c"] == "effect":
                c["k"] = ren(c["k"])
                if c["b"] > 0:
                    c["b"] = R.randint(1, 100)
            if c["c"] in ("preset", "save") and c["k"] > 0:
                c["k"] = R.randint(1, count) if count else -2
            if c["c"] in ("ebri", "bri") and c["b"] > 0:
                c["b"] = R.randint(1, 100)
            if c["c"] == "save" and R.random() < 0.5:
                p = pos()
                c.update(b=p["bri"], hue=p["hue"], sat=p["sat"], ct=p["ct"])
            if R.random() < 0.25:
                o = {}
                if R.random() < 0.6:
                    o["lamp"] = near(slots)
                if num and R.random() < 0.7:
                    running = R.choice([0, *pick])
                    o["eff"] = {"k": running, "bri": R.randint(1, 100) if running else 0}
                    if cfg["kind"] == "rules":
                        o["eff"]["bri"] = 0
                        if R.random() < 0.3:
                            o["rules"] = [R.randint(1, 100), R.randint(1, 100)]
                if R.random() < 0.2 and not cfg["bonly"]:
                    o["slots"] = [{"e": False, **pos()} for _ in range(max(1, count))]
                    slots = o["slots"]
                    count = len(slots)
                steps.append({"k": "other", "s": o})
            # commands whose effect depends on what is running
            if c["c"] == "effect" and 0 <= c["k"] <= num and num:
                running = c["k"]
            elif c["c"] == "custom" and cfg["kind"] != "rules" and num:
                running = -1
            elif c["c"] == "ebri":
                if running <= 0 or cfg["kind"] == "istrip" or not num:
                    continue
                if c["b"] == 0:
                    if cfg["kind"] != "sstrip":
                        continue
                    running = 0
            elif c["c"] == "preset" and c["k"] >= 0 and running:
                continue
            elif c["c"] == "bri" and running < 0:
                continue
            st = {"k": "cmd", "cmd": c, "via": R.random() < 0.4}
            if R.random() < 0.2 and c["c"] == "effect":
                st["tr"] = R.choice([0, 100, 2000])
            if R.random() < 0.06 and c["c"] != "effect" and c["c"] != "custom" and not (c["c"] == "ebri" and c["b"] == 0):
                st["refuse"] = True
            steps.append(st)
        if R.random() < 0.15 and num:
            steps.append({"k": "cmd", "refuse": True, "cmd": {"c": "effect", "k": R.choice(pick), "b": R.choice([-1, 40]), "hue": -1, "sat": -1, "ct": -1}})
        if R.random() < 0.05 and cfg["kind"] in ("sstrip", "istrip"):
            steps.append({"k": "cmd", "cmd": {"c": "effect", "k": R.choice(pick), "b": 0, "hue": -1, "sat": -1, "ct": -1}})
        scripts.append({"model": R.choice(models(cfg)), "start": s, "steps": steps, "names": R.sample(["", "cGFydHky", "w6RiYw==", "Cozy", "Mein Licht", "Relax!"], 2)})
    ctx.validate("ScenesTrace", ctx.run("drv_scenes", "drive", scripts), selftest=mutate)
