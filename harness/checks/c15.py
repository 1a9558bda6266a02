"""C15: protocol, transport, class and kind of device.  Spec: Choice.tla (decision table: Select.tla)."""
import itertools

FAM = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH",
       "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
ENC = ["KLAP", "AES", "XOR"]
TF = [False, True]
COMPS = ["child_device", "light_strip", "dimmer_calibration", "brightness"]
KFAM = ["SMART.TAPOHUB", "SMART.KASAHUB", "SMART.TAPOPLUG", "SMART.KASAPLUG", "SMART.TAPOSWITCH", "SMART.KASASWITCH", "SMART.TAPOSENSOR", "SMART.KASAENERGY",
        "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPOBULB", "SMART.TAPOFOO"]
CATS = ["plug.powerstrip.sub-plug", "subg.plugswitch.switch", "subg.trigger.contact-sensor", "subg.trigger.temp-hmdt-sensor", "subg.trigger.water-leak-sensor",
        "subg.trigger.motion-sensor", "subg.trigger.button", "kasa.switch.outlet.sub-fan", "kasa.switch.outlet.sub-dimmer", "subg.trv", "subg.foo"]
BODY = {"cam": False, "type": "IOT.SMARTPLUGSWITCH", "mic": "", "dev": "", "kids": False, "len": False}


def mutate(tr, rng):
    e = rng.choice([x for x in tr["ev"] if x["e"] not in ("save", "given")])
    if "got" in e:
        e["got"] = "fan" if e["got"] != "fan" else "hub"
    elif e["e"] == "class":
        e["cls"] = "IotStrip"
    elif e["e"] == "params":
        e["ok"] = not e["ok"]
    elif e["e"] == "proto":
        e["t"] += "x"
    elif e["res"] == "dev":
        k = rng.choice(["cls", "p", "t", "c"])
        if k == "c":
            k = rng.choice(["fam", "login", "https", "hport"])
            e["c"][k] = (not e["c"][k]) if k == "https" else e["c"][k] + (1 if k != "fam" else "x")
        else:
            e[k] += "x"
    else:
        e["res"] = "dev"
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("ChoiceMC", constants=dict(Full="FALSE"), invariants=["Total", "NoGuess", "NoCam", "Kin", "ProtKin", "CamKin"], properties=["SameAgain"])
    gen = ctx.gen("ChoiceGen", constants=dict(Full="FALSE"))
    scripts = []
    bodies = [g for g in gen if g["kind"] == "old"]
    for r in ctx.sample(gen, 6000) if ctx.quick else gen:
        r = dict(r)
        s = {"kind": r.pop("kind"), "r": r, "var": R.randrange(60), "how": R.randrange(3)}
        if s["kind"] == "new":
            b = dict(R.choice(bodies))
            b.pop("kind")
            s["body"] = b
        scripts.append(s)
    # tables: every combination
    protos = [dict(fam=f, enc=e, https=h, strict=st, login=lo, port=po) for f, e, h, st, lo, po in itertools.product(FAM, ENC, TF, TF, (0, 2), (0, 4433))]
    classes = [dict(fam=f, https=h, exact=x) for f, h, x in itertools.product(FAM + ["SMART.UNKNOWN", "SMART.TAPOFOO", "IOT.UNKNOWN", "FOO.BAR"], TF, TF)]
    pars = [dict(fam=f, enc=e, login=lo, https=h, hport=po) for f, e, lo, h, po in itertools.product(
        FAM + ["SMART.UNKNOWN", "IOT.UNKNOWN", "", "iot.smartbulb"], ENC + ["FOO", "", "klap"], (0, 2), TF, (0, 80))]
    given = [dict(fam=f, enc=e, login=R.choice((0, 2, 3)), https=h, hport=R.choice((0, 80, 4433))) for f, e, h in itertools.product(FAM, ENC, TF)]
    for i in range(4 if ctx.quick else 40):
        b = dict(R.choice(bodies)) if i else dict(BODY)
        b.pop("kind", None)
        scripts.append({"kind": "table", "protos": protos if i < 2 else [], "classes": classes if i < 2 else [], "params": pars if i < 2 else [],
                        "given": given, "body": b, "var": i})
    kinds = [dict(fam=f, comps=[c for j, c in enumerate(COMPS) if m >> j & 1]) for f in KFAM for m in range(16)]
    scripts.append({"kind": "kinds", "kinds": kinds})
    scripts.append({"kind": "camkinds", "fams": ["SMART.IPCAMERA", "SMART.TAPOHUB", "SMART.TAPODOORBELL", "SMART.TAPOCAMERA"]})
    scripts += [{"kind": "childkinds", "cats": c} for c in (CATS, CATS[::-1], CATS[3:6])]
    ctx.validate("ChoiceTrace", ctx.run("drv_choice", "drive", scripts), selftest=mutate)
