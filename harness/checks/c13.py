"""C13: connecting and trying all kinds of connections.  Spec: Connect.tla (kinds: Select.tla)."""
INV = ["NoLeak", "AllTried", "OneOpen", "FirstWins"]
TS = [(t, h) for t in ("KlapTransport", "KlapTransportV2", "AesTransport", "SslTransport", "SslAesTransport", "LinkieTransportV2", "XorTransport")
      for h in (False, True)]
HOW = ["conn", "timeout", "auth", "dev", "kasa", "retry", "odd", "os"]
FAM = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH",
       "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
# the kinds in the order of the model's numbers
NUM = [("KlapTransport", False), ("KlapTransportV2", False), ("KlapTransportV2", True), ("AesTransport", False), ("SslTransport", True),
       ("SslAesTransport", True), ("XorTransport", False)]


def mutate(tr, rng):
    ev = tr["ev"]
    c = [i for i, e in enumerate(ev) if e["e"] in ("close", "report", "ret", "err")]
    if not c:
        return None
    i = rng.choice(c)
    e = ev[i]
    if e["e"] == "close":
        # the connection stays open until another one is opened or everything ends
        if not any(x["e"] in ("disc", "open", "err") or (x["e"] == "ret" and not x["dev"]) for x in ev[i:]):
            return None
        del ev[i]
    elif e["e"] == "report":
        if rng.random() < 0.5:
            ev.insert(i, dict(e))
        else:
            e["c"] = "IotStrip"
    elif e["e"] == "ret":
        e["cls" if e["dev"] else "e"] = "err"
    else:
        e["k"] = "ValueError()"
    return tr


def check(ctx):
    R = ctx.rng
    ctx.mc("ConnectMC", constants=dict(N=3 if ctx.quick else 4, Mode='"all"'), invariants=INV, properties=["Ends"],
           allow_zero=("MUnsup", "Unsupported", "MAgain"))
    ctx.mc("ConnectMC", constants=dict(N=2, Mode='"one"'), invariants=INV + ["TableSane"], properties=["Ends"],
           allow_zero=("MReport", "Reported", "MNext1", "Next", "MNothing", "Nothing"))
    gen = ctx.gen("ConnectGen", constants=dict(N=7, Mode='"all"'))
    scripts = []

    def base():
        return {"port": R.choice([None, None, 12345]), "timeout": R.choice([5, 3]), "user_session": R.random() < 0.2,
                "cancel": None, "lat": R.choice([0, 10]), "after": R.choice([[], ["disc"], ["upd"], ["upd", "disc"], ["disc", "upd", "disc"], ["disc", "disc", "upd"]])}

    def fates(f):
        out = []
        for t, h in TS:
            k = f(t, h)
            how, at = R.choice(HOW), 1
            if k == "maybe":
                at = R.choice([2, 2, 3, 4, 6])
            elif k == "fail":
                # later failures of the first exchanges that cannot be done without
                at = R.choice([1, 1, 2]) if t in ("KlapTransport", "XorTransport") and False else 1
            if R.random() < 0.05 and k != "ok":
                how = "hang"
            out.append({"t": t, "h": h, "f": k, "at": at, "how": how})
        return out

    def cancels(s):
        if any(f["how"] == "hang" and f["f"] != "ok" for f in s["fate"]) or R.random() < 0.1:
            s["cancel"] = R.choice([1, 5, 15, 25, 50, 500, 3001, 7001, 60001])
            if any(f["how"] == "hang" and f["f"] != "ok" for f in s["fate"]):
                s["cancel"] = R.choice([5, 500, 3001, 60001, 90001])

    for g in ctx.sample(gen, 1500 if ctx.quick else 6000):
        gf = dict(zip(NUM, g["fate"]))
        s = {**base(), "cfg": {"mode": "all", "cb": g["cb"]}, "fate": fates(lambda t, h: gf.get((t, h), "ok"))}
        if g["cb"] and R.random() < 0.1:
            s["cbfail"] = R.randint(1, 4)
        cancels(s)
        scripts.append(s)
    for f in FAM:
        for enc in ("KLAP", "AES", "XOR"):
            for h in (False, True):
                for n in range(12 if ctx.quick else 150):
                    k = R.choice(["ok", "fail", "maybe"])
                    s = {**base(), "cfg": {"mode": "one", "cb": False, "fam": f, "enc": enc, "https": h}, "fate": fates(lambda t, hh: k), "n": n}
                    cancels(s)
                    scripts.append(s)
    ctx.validate("ConnectTrace", ctx.run("drv_connect", "drive", scripts), selftest=mutate)
