"""Check context: model checking, replaying scripts in the real code, trace validation, evidence."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from pathlib import Path

import vt  # noqa: F401  (patches time before kasa is imported)
import fakehttp  # noqa: F401
import tlc

ROOT = Path(__file__).resolve().parent.parent
OUT = Path(os.environ.get("VERIF_OUT", ROOT / "out"))
KNOWN = ROOT / "known_findings.jsonl"


class MachineryError(RuntimeError):
    pass


def _subset(pat, val):
    if isinstance(pat, dict):
        return isinstance(val, dict) and all(k in val and _subset(v, val[k]) for k, v in pat.items())
    if isinstance(pat, list):
        return isinstance(val, list) and len(pat) == len(val) and all(_subset(a, b) for a, b in zip(pat, val))
    return pat == val


def _run_one(args):
    modname, fname, script = args
    mod = importlib.import_module(modname)
    try:
        tr = getattr(mod, fname)(script)
    except vt.Hang as ex:
        tr = {"ev": [{"e": "hang", "why": str(ex)}]}
    except Exception as ex:  # noqa: BLE001
        tr = {"ev": [{"e": "harness-exception", "why": f"{type(ex).__name__}: {ex}",
                      "tb": traceback.format_exc()[-1500:]}]}
    return tr


def _worker_init():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.quick = tier == "quick"
        self.states = self.transitions = self.validated = 0
        self.executions = 0
        self.samples = []
        self.models = []
        self.violations = []
        self.known_hits = {}
        self.assumptions = []
        self.notes = []
        self.extra = {}
        self.t0 = time.time()
        self.seltests = 0
        self.known = []
        if KNOWN.exists():
            for ln in KNOWN.read_text().splitlines():
                if ln.strip() and not ln.startswith(("#", "fixed:")):
                    e = json.loads(ln)
                    if e["property"] == prop and e.get("kind") == "known":
                        self.known.append(e)
        self._rep_n = 0

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- model side --------------------------------------------------------
    def mc(self, module, *, constants=None, spec="MSpec", invariants=(), properties=(),
           constraint=None, view=None, allow_zero=(), workers=6, timeout=600, heap="6g",
           expect_actions=True, label=None):
        r = tlc.model_check(module, tlc.cfg(spec, constants, invariants, properties, constraint, view),
                            workers=workers, timeout=timeout, heap=heap,
                            allow_zero=allow_zero, expect_actions=expect_actions)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "constants": constants, "distinct": r.distinct,
                            "generated": r.generated, "checked": list(invariants) + list(properties)})
        self.log(f"model {label or module}: {r.distinct} states, {r.generated} transitions ok")
        return r

    def gen(self, module, *, constants=None, spec="GSpec", invariants=("Emit",), constraint=None,
            tag="SCRIPT", workers=4, timeout=300, simulate=None, depth=60, heap="4g"):
        """Behaviours of the specification as environment scripts."""
        args = []
        if simulate:
            args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)]
        r = tlc.tlc(module, tlc.cfg(spec, constants, list(invariants), constraint=constraint),
                    workers=workers, timeout=timeout, args=args, heap=heap)
        sc = r.lines(tag)
        if not sc or (r.rc != 0 and not simulate) or "Error:" in r.out:
            raise tlc.TlcError(f"{module}: generation failed rc={r.rc}\n" + r.errors())
        seen, res = set(), []
        for s in sc:
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(s)
        res.sort(key=lambda s: json.dumps(s, sort_keys=True))
        self.states += r.distinct
        self.transitions += r.generated
        self.log(f"spec-generated scripts from {module}: {len(res)}")
        return res

    def sample(self, scripts, n):
        if len(scripts) <= n:
            return list(scripts)
        return self.rng.sample(scripts, n)

    # -- implementation side ----------------------------------------------
    def run(self, mod, fname, scripts, procs=8):
        """Replay every script in the real code; returns traces."""
        scripts = list(scripts)
        jobs = [(mod, fname, s) for s in scripts]
        if len(jobs) < 16 or procs == 1:
            importlib.import_module(mod)
            _worker_init()
            trs = [_run_one(j) for j in jobs]
        else:
            importlib.import_module(mod)
            with mp.get_context("fork").Pool(procs, _worker_init) as pool:
                trs = pool.map(_run_one, jobs, chunksize=max(1, min(50, len(jobs) // (procs * 4) or 1)))
        for s, t in zip(scripts, trs):
            t["script"] = s
            t["driver"] = f"{mod}:{fname}"
        self.executions += len(trs)
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "a") as f:
                f.writelines(json.dumps(t) + "\n" for t in trs)
        return trs

    # -- conformance -------------------------------------------------------
    def validate(self, module, traces, *, constants=None, selftest=True, chunk=400, timeout=600,
                 strip=("script", "driver", "ev_debug")):
        slim = [{k: v for k, v in t.items() if k not in strip} for t in traces]
        # several scripts may lead to the same trace: validate each distinct one once
        keys, uniq = {}, []
        owner = []
        for i, t in enumerate(slim):
            k = hashlib.md5(json.dumps(t, sort_keys=True).encode()).digest()
            if k not in keys:
                keys[k] = len(uniq)
                uniq.append(t)
                owner.append(i)
        # order-insensitive chunk balance
        acc, rej, st, tn = tlc.validate(module, uniq, constants=constants, chunk=chunk, timeout=timeout)
        self.states += st
        self.transitions += tn
        badk = {r["index"]: r for r in rej}
        good = [t for i, t in enumerate(uniq) if i not in badk]
        self.validated += len(traces) - sum(1 for t in slim if keys[hashlib.md5(
            json.dumps(t, sort_keys=True).encode()).digest()] in badk)
        if len(self.samples) < 6 and good:
            g = max(good[:200], key=lambda t: len(t["ev"]))
            s = json.dumps(g)
            self.samples.append(g if len(s) < 6000 else {"truncated": s[:6000]})
        self.log(f"{module}: {len(traces)} executions, {len(uniq)} distinct traces, "
                 f"{len(rej)} rejected")
        for r in rej:
            full = traces[owner[r["index"]]]
            self.reject(module, full, r, constants)
        if selftest and good:
            self.selftest(module, good, constants, selftest if callable(selftest) else None)
        return rej

    def selftest(self, module, good, constants, mutate=None, n=24):
        """Corrupt accepted traces; TLC must reject (demonstrates the binding)."""
        rng = random.Random(self.seed + 7)
        pool = [t for t in good if len(t["ev"]) >= 2]
        muts = []
        for t in rng.sample(pool, min(n, len(pool))):
            m = json.loads(json.dumps(t))
            if mutate:
                m2 = mutate(m, rng)
                if m2 is None:
                    continue
                m = m2
            else:
                i = rng.randrange(len(m["ev"]))
                del m["ev"][i]
                m["ev"].insert(0, {"e": "corrupted"})
            muts.append(m)
        if not muts:
            return
        acc, rej, _, _ = tlc.validate(module, muts, constants=constants, diagnose=0)
        if acc:
            raise MachineryError(f"{module}: {acc} corrupted traces were accepted")
        self.seltests += len(muts)

    def reject(self, module, full, r, constants=None):
        ev = r["event"] or {"e": "(missing)"}
        for k in self.known:
            m = k["match"]
            if (m.get("module", module) == module and _subset(m.get("script", {}), full.get("script", {}))
                    and _subset(m.get("event", {}), ev)):
                self.known_hits[k["what"]] = self.known_hits.get(k["what"], 0) + 1
                return
        self._rep_n += 1
        if self._rep_n > 40:
            self.violations.append(None)
            return
        d = OUT / "replays"
        d.mkdir(parents=True, exist_ok=True)
        p = d / f"{self.prop}-{self._rep_n}.json"
        p.write_text(json.dumps({
            "property": self.prop, "module": module, "constants": constants,
            "driver": full.get("driver"), "script": full.get("script"),
            "rejected_at": r["at"], "event": ev, "spec_state_before": r.get("state"),
            "trace": full}, indent=1, default=str))
        self.violations.append((p, f"{module}: event #{r['at']} {json.dumps(ev, default=str)[:300]} "
                                   f"is not a step of the specification", r.get("state")))

    # -- end ---------------------------------------------------------------
    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "executions_of_real_code": self.executions,
            "corrupted_traces_rejected": self.seltests,
            "models": self.models,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        e = ROOT / "evidence"
        e.mkdir(exist_ok=True)
        (e / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']} "
                  f"(seen {self.known_hits.get(k['what'], 0)}x in this run)")
        for v in [v for v in self.violations if v][:12]:
            print(f"VIOLATION property={self.prop} replay={v[0]}")
            print("   " + v[1])
            if v[2]:
                print("   spec state before: " + " ".join(str(v[2]).split())[:900])
        if len(self.violations) > 12:
            print(f"   ... {len(self.violations)} rejected traces in total")
        self.log(f"done: {self.states} states, {self.validated} traces validated, "
                 f"{len(self.violations)} violations")
        return 1 if self.violations else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    import logging
    logging.disable(logging.CRITICAL)
    ctx = Ctx(a.prop, a.tier, a.seed)
    if a.replay:
        rep = json.loads(Path(a.replay).read_text())
        mod, fn = rep["driver"].split(":")
        trs = ctx.run(mod, fn, [rep["script"]], procs=1)
        print(json.dumps(trs[0]["ev"], indent=0, default=str))
        ctx.validate(rep["module"], trs, constants=rep.get("constants"), selftest=False)
        return ctx.finish()
    try:
        importlib.import_module(f"checks.{a.prop.lower()}").check(ctx)
    except (tlc.TlcError, MachineryError) as ex:
        print(f"MACHINERY ERROR in {a.prop}: {ex}", file=sys.stderr)
        if ctx.violations:
            return ctx.finish()
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
