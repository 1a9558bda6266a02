"""C11: the children of a hub.  Spec: HubKids.tla."""
from drv_kids import SMART_CATS

PROPS = ["Mirror", "Identity", "NewObject", "FreshInfo", "ErrKeeps"]


def mutate(tr, rng):
    c = [i for i, e in enumerate(tr["ev"]) if e["e"] == "ok" and e["children"]]
    if not c:
        return None
    e = tr["ev"][rng.choice(c)]
    ch = rng.choice(e["children"])
    q = rng.random()
    if q < 0.3:
        ch["tok"] += 1
    elif q < 0.6:
        ch["obj"] = 77
        f = [x for x in tr["ev"] if x["e"] == "ok" and any(y["id"] == ch["id"] for y in x["children"])]
        if len(f) < 2:
            ch["tok"] += 1
    else:
        ch["own"] = "foreign"
    return tr


def cats(kind, R):
    if kind == "strip":
        return "plug.powerstrip.sub-plug"
    if kind == "smart":
        return R.choice(SMART_CATS + ["subg.trv", "subg.unknown"])
    return R.choice(SMART_CATS + ["camera", "camera", "subg.unknown", ""])


def check(ctx):
    R = ctx.rng
    ctx.mc("HubKidsMC", constants=dict(MaxUpd=2, Ids='{"a","b"}' if not ctx.quick else '{"a"}'), invariants=["OneObjectEach"], properties=PROPS, timeout=850)
    gen = ctx.gen("HubKidsGen", constants=dict(MaxUpd=4 if ctx.quick else 6, Ids='{"A","B","C"}'), simulate=2500 if ctx.quick else 20000, depth=40, workers=8,
                  timeout=800)
    scripts = []
    for g in ctx.sample(gen, 1500 if ctx.quick else 15000):
        kind = R.choice(["smart", "cam"])
        cat = {}
        steps = []
        for s in g:
            if s["k"] == "update":
                steps.append({"kids": [], "comps": [], "errs": [], "d": R.choice([1, 40, 100, 700, 86401])})
            x = steps[-1]
            if s["k"] == "list":
                for k in s["kids"]:
                    good = SMART_CATS + ["camera"]
                    if kind == "smart":
                        cat.setdefault(k["id"], R.choice(SMART_CATS + ["subg.unknown"]))
                    else:
                        c = cat.get(k["id"])
                        if c is None or (c in good) != k["sup"]:
                            cat[k["id"]] = R.choice(good) if k["sup"] else R.choice(["subg.unknown", ""])
                x["kids"] = [{"id": k["id"], "cat": cat[k["id"]]} for k in s["kids"]]
            elif s["k"] == "listerr":
                x["errs"].append("list")
            elif s["k"] == "comps":
                x["comps"] = s["c"]
            elif s["k"] == "compserr":
                x["errs"].append("comps")
            elif s["k"] == "kidfail":
                x["kfail"] = s["ids"]
            elif s["k"] == "fails":
                x["errs"].append("info")
        scripts.append({"kind": kind, "steps": steps})
    for n in range(2500 if ctx.quick else 40000):
        kind = R.choice(["smart", "cam", "smart", "cam", "strip"])
        ids = [f"K{i}" for i in range(R.randint(1, 7))]
        cat = {i: cats(kind, R) for i in ids}
        alive = [i for i in ids if R.random() < 0.6 or kind == "strip"]
        pe = R.choice([0, 0, 0.1, 0.3])
        steps = []
        for _ in range(R.randint(2, 14)):
            if kind != "strip":
                for i in ids:
                    if R.random() < 0.15:
                        alive.remove(i) if i in alive else alive.insert(R.randint(0, len(alive)), i)
                if R.random() < 0.2:
                    R.shuffle(alive)
            s = {"kids": [{"id": i, "cat": cat[i]} for i in alive],
                 "comps": [{"id": i, "good": kind == "strip" or R.random() < 0.95} for i in (alive if R.random() < 0.5 else ids)
                           if kind == "strip" or R.random() < 0.95],
                 "errs": [x for x in ("list", "comps", "info") if R.random() < pe], "fail": R.random() < pe,
                 "kfail": [i for i in ids if R.random() < pe], "uc": R.random() < 0.8,
                 "d": R.choice([0, 1, 5, 31, 100, 301, 86401])}
            if kind != "strip" and R.random() < 0.1:
                s["kids"].insert(R.randint(0, len(s["kids"])), {"id": "", "cat": cats(kind, R)})
            steps.append(s)
        scripts.append({"kind": kind, "steps": steps, "n": n})
    ctx.validate("HubKidsTrace", ctx.run("drv_kids", "drive", scripts), selftest=mutate)
