"""C17: light commands.  Spec: Light.tla."""
MODELS = {"smart": ["L530E(EU)_3.0_1.1.6", "L630(EU)_1.0_1.1.2", "L510B(EU)_3.0_1.0.5", "KS225(US)_1.0_1.1.1", "L900-5(EU)_1.0_1.1.0", "L930-5(EU)_1.0_1.2.5"],
          "bulb": ["KL130(EU)_1.0_1.8.8", "KL120(US)_1.0_1.8.11", "KL125(US)_4.0_1.0.5", "LB110(US)_1.0_1.8.11"],
          "strip": ["KL430(US)_2.0_1.0.9", "KL420L5(US)_1.0_1.0.2"], "dimmer": ["HS220(US)_1.0_1.5.7", "KS230(US)_2.0_1.0.11"]}
RANGE = {"L530E(EU)_3.0_1.1.6": (2500, 6500), "L630(EU)_1.0_1.1.2": (2200, 6500), "L930-5(EU)_1.0_1.2.5": (2500, 6500), "KL130(EU)_1.0_1.8.8": (2500, 9000),
         "KL120(US)_1.0_1.8.11": (2700, 5000), "KL125(US)_4.0_1.0.5": (2500, 6500), "KL430(US)_2.0_1.0.9": (2500, 9000)}
PLAIN = ["L510B(EU)_3.0_1.0.5", "KS225(US)_1.0_1.1.1", "KL120(US)_1.0_1.8.11", "LB110(US)_1.0_1.8.11"]   # no colour
INV = ["TypeOK", "ZeroIsOff", "Untouched", "OnlyNamed", "StateOn", "ReadBack"]


def mutate(tr, rng):
    c = [e for e in tr["ev"] if e["e"] in ("lamp", "view") or (e["e"] == "cmd" and not e["refused"] and e["cmd"]["c"] != "state")]
    e = rng.choice(c)
    if e["e"] == "cmd":
        e["ok"] = not e["ok"]
    else:
        x = e.get("lamp") or e["v"]
        k = rng.choice(["on", "bri", "hue", "sat", "ct"])
        x[k] = (not x[k]) if k == "on" else x[k] + 1
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("LightMC", constants=dict(MaxN=2 if ctx.quick else 3), invariants=INV)
    gen = ctx.gen("LightGen", constants=dict(MaxN=1))
    gen += ctx.gen("LightGen", constants=dict(MaxN=6), simulate=60 if ctx.quick else 1000, depth=8)
    scripts = []

    def lamp(m):
        lo, hi = RANGE.get(m, (2500, 6500))
        return {"on": R.random() < 0.5, "bri": R.randint(1, 100), "hue": R.randint(0, 360), "sat": R.randint(0, 100), "ct": R.choice([0, lo, hi, R.randint(lo, hi)])}

    def step(c, m):
        lo, hi = RANGE.get(m, (2500, 6500))
        c = dict(c)
        if c["c"] == "state":   # combined states name only what the lamp has
            if m in PLAIN:
                c["h"] = c["s"] = -1
            if m not in RANGE and m not in MODELS["dimmer"]:
                c["t"] = -1
        if c["t"] > 0:   # scale to the range of the model
            c["t"] = {2499: lo - 1, 2500: lo, 6500: hi, 6501: hi + 1}.get(c["t"], R.randint(lo, hi))
        for k, top in (("b", 100), ("h", 360), ("s", 100)):
            if c[k] not in (-1, -2, 0, 1, top) and c[k] <= top:
                c[k] = R.randint(2, top - 1)
            elif c[k] > top:
                c[k] = R.choice([top + 1, 1000, -5])
        st = {"k": "cmd", "cmd": c, "via": R.choice(["", "feature"])}
        if R.random() < 0.3:
            st["tr"] = R.choice([0, 1, 500, 10000])
        x = R.random()
        if x < 0.06:
            st["refuse"] = True
        elif x < 0.14:
            st["fault"] = R.choice(["lost", "lost-after"])
        elif x < 0.2 and m not in MODELS["dimmer"]:
            st["skip"] = True
        return st

    for n, g in enumerate(gen):
        for m in MODELS[g["cfg"]["kind"]] if len(g["cmds"]) == 1 and n % 5 == 0 or not ctx.quick else [R.choice(MODELS[g["cfg"]["kind"]])]:
            steps = []
            for c in g["cmds"]:
                steps.append(step(c, m))
                if R.random() < 0.12:
                    steps.append({"k": "other", "lamp": lamp(m), "skip": m not in MODELS["dimmer"] and R.random() < 0.6})
            if R.random() < 0.15 and m not in MODELS["dimmer"]:
                # somebody else changes the lamp unseen, and a command asks for what the library last saw
                i = R.randrange(len(steps)) + 1
                if steps[i - 1]["k"] == "cmd":
                    again = {k: v for k, v in steps[i - 1].items() if k not in ("refuse", "fault", "skip")}
                    steps[i - 1].pop("skip", None)
                    steps[i:i] = [{"k": "other", "lamp": lamp(m), "skip": True}, again]
            if steps[-1].get("skip"):
                steps[-1].pop("skip")
            scripts.append({"model": m, "lamp": lamp(m), "steps": steps})
    scripts = ctx.sample(scripts, 5000 if ctx.quick else 60000)
    ctx.validate("LightTrace", ctx.run("drv_light", "drive", scripts), selftest=mutate)
