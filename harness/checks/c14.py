"""C14: saving and reloading a configuration.  Spec: Config.tla (kinds: Select.tla)."""
INV = ["RoundTrip", "Same", "OwnSame", "NoSecret", "NoCreds", "Rest"]
FAM = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH",
       "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
# one family of each sort
SORTS = ["IOT.SMARTPLUGSWITCH", "IOT.IPCAMERA", "SMART.TAPOPLUG", "SMART.TAPOROBOVAC", "SMART.IPCAMERA"]


def tset(xs):
    return "{" + ",".join(f'"{x}"' for x in xs) + "}"


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] in ("wire", "reload", "export", "equal", "hash")]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    if e["e"] == "wire":
        k = rng.choice(["port", "timeout", "batch", "acc", "scheme"])
        if k == "acc":
            e["acc"] = [x for x in ("A", "B") if x not in e["acc"]] or e["acc"][1:]
        elif k == "scheme":
            e["scheme"] += "x"
        else:
            e[k] += 1
    elif e["e"] == "reload":
        k = rng.choice(sorted(e["c"]))
        e["c"][k] = (not e["c"][k]) if k == "https" else e["c"][k] + 1 if isinstance(e["c"][k], int) else e["c"][k] + "x"
    elif e["e"] == "export":
        e["clear"] = not e["clear"]
    elif e["e"] == "equal":
        e["same"] = not e["same"]
    else:
        e["of"] += "x"
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("ConfigMC", constants=dict(Fams=tset(SORTS), Depth=1), invariants=INV, allow_zero=("DoExport", "Reload", "Connect"))
    gen = ctx.gen("ConfigGen", constants=dict(Fams=tset(SORTS), Depth=1))
    scripts = []

    def steps():
        out = []
        for _ in range(R.randint(1, 3)):
            if R.random() < 0.4:
                out.append({"k": "wire"})
            o = R.choice(["plain", "plain", "exclude", "drop", "own", "own", "own", "other"])
            out.append({"k": "export", "opt": o, "via": R.choice(["dict", "json", "jsons"]), "both": R.random() < 0.3,
                        "x": R.choice(["", "ex"]) if o == "own" else R.choice(["A", "B"]) if o == "other" else ""})
            if R.random() < 0.2:
                out.append({"k": "bad", "how": R.choice(["extra", "host", "device_family", "encryption_type", "fam", "enc", "ct", "all"])})
            out.append({"k": "reload"})
        return out + [{"k": "wire"}]

    for c in ctx.sample(gen, 1500 if ctx.quick else 15000):
        fam = c["fam"]
        if fam == "SMART.TAPOPLUG":
            fam = R.choice([f for f in FAM if f not in SORTS and f.startswith("SMART.") and f != "SMART.TAPODOORBELL"] + [fam])
        elif fam == "SMART.IPCAMERA":
            fam = R.choice([fam, "SMART.TAPODOORBELL"])
        elif fam == "IOT.SMARTPLUGSWITCH":
            fam = R.choice([fam, "IOT.SMARTBULB"])
        c = {**c, "fam": fam, "host": R.choice(["127.0.0.1", "10.1.2.3", "h.local"]), "timeout": R.choice([c["timeout"], 1, 7, 60]) if c["timeout"] else 0,
             "batch": R.choice([1, 2, 3, 7]) if c["batch"] else 0}
        scripts.append({"cfg": c, "steps": steps()})
    ctx.validate("ConfigTrace", ctx.run("drv_config", "drive", scripts), selftest=mutate)
