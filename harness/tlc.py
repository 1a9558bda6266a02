"""Running TLC: exhaustive checks, behaviour generation and trace validation."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    cm = sorted(Path("/opt/veriftools/tla").rglob("*ommunityModules*.jar"))
    return ":".join([JARS] + [str(c) for c in cm])


class TlcError(RuntimeError):
    """TLC did not give a verdict (machinery failure)."""


class Result:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal properties|Property) ?(\S*) ?(?:is|was|were) violated", out)
        self.ok = "Model checking completed. No error has been found" in out or (
            "Finished in" in out and "Error:" not in out)

    def errors(self):
        keep = [ln for ln in self.out.splitlines()
                if not re.match(r"^ *\|*(line \d|<\w+ line)", ln)]
        return "\n".join(keep)[-5000:]

    def lines(self, tag):
        """Lines printed with PrintT(tag \\o " " \\o ToJson(x))."""
        pre = '"' + tag + " "
        return [json.loads(json.loads(ln)[len(tag) + 1:])
                for ln in self.out.splitlines() if ln.startswith(pre)]

    def coverage_zero(self):
        """Names of actions never taken (needs -coverage)."""
        zero = set()
        seen = set()
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            name, _, total = m.group(1), int(m.group(2)), int(m.group(3))
            if total:
                seen.add(name)
            else:
                zero.add(name)
        return sorted(zero - seen)


def tlc(module, cfg_text, *, env=None, workers=4, timeout=600, args=(), heap="3g",
        deadlock=False, extra_files=None):
    """Run TLC on spec/<module>.tla in a scratch dir with the given cfg text."""
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in SPEC.glob("*.tla"):
            os.symlink(f, os.path.join(d, f.name))
        for n, t in (extra_files or {}).items():
            Path(d, n).write_text(t)
        Path(d, "M.cfg").write_text(cfg_text)
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d,
               "-cp", _classpath(), "tlc2.TLC", "-config", "M.cfg",
               "-workers", str(workers), "-metadir", d + "/states", "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise TlcError(f"TLC timed out on {module}") from ex
        return Result(p.returncode, p.stdout + p.stderr)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraint=None,
        view=None, postcondition=None, action_constraint=None, init=None, next_=None):
    t = []
    if init:
        t += [f"INIT {init}", f"NEXT {next_}"]
    else:
        t.append(f"SPECIFICATION {spec}")
    if constants:
        t.append("CONSTANTS")
        t += [f"  {k} = {v}" for k, v in constants.items()]
    for i in invariants:
        t.append(f"INVARIANT {i}")
    for p in properties:
        t.append(f"PROPERTY {p}")
    if constraint:
        t.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        t.append(f"ACTION_CONSTRAINT {action_constraint}")
    if view:
        t.append(f"VIEW {view}")
    if postcondition:
        t.append(f"POSTCONDITION {postcondition}")
    return "\n".join(t) + "\n"


def model_check(module, cfg_text, *, expect_actions=True, allow_zero=(), **kw):
    """Exhaustive check; raises TlcError unless TLC finished without error."""
    args = list(kw.pop("args", ()))
    if expect_actions:
        args += ["-coverage", "60"]
    r = tlc(module, cfg_text, args=args, **kw)
    if not r.ok or r.rc != 0:
        raise TlcError(f"{module}: rc={r.rc}\n" + r.errors())
    if expect_actions:
        z = [a for a in r.coverage_zero() if a not in allow_zero and a not in ("Init",)]
        if z:
            raise TlcError(f"{module}: actions never taken (vacuous model): {z}")
    return r


def _val_chunk(module, traces, cfg_text, timeout):
    fd, path = tempfile.mkstemp(prefix="traces_", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = tlc(module, cfg_text, env={"TRACES": path, "STOPAT": "-1"}, workers=1, timeout=timeout, heap="3g")
        return r
    finally:
        os.unlink(path)


TRACE_CFG = dict(spec="TraceSpec", constraint="Track", postcondition="Report")


def validate(module, traces, *, constants=None, chunk=400, jobs=6, timeout=500, diagnose=3):
    """Validate traces (list of {"id":..., "ev":[...], ...}).

    Returns (accepted_count, rejected, states, transitions) where rejected is a list of
    dicts {index, at, event, state, trace}.
    """
    if not traces:
        raise TlcError("no traces to validate")
    ctext = cfg(constants=constants, **TRACE_CFG)
    n = len(traces)
    chunk = max(20, min(chunk, -(-n // jobs)))
    chunks = [(i, traces[i:i + chunk]) for i in range(0, n, chunk)]
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(lambda c: _val_chunk(module, c[1], ctext, timeout), chunks))
    rejected = []
    states = trans = 0
    for (base, ch), r in zip(chunks, results):
        rl = r.lines("REPORT")
        if len(rl) != 1:
            raise TlcError(f"{module}: no verdict\n" + r.out[-5000:])
        rep = rl[0]["bad"]
        if rl[0]["n"] != len(ch):
            raise TlcError(f"{module}: trace count mismatch")
        states += r.distinct
        trans += r.generated
        for idx, at in rep:
            t = ch[idx - 1]
            rejected.append({"index": base + idx - 1, "at": at,
                             "event": t["ev"][at - 1] if 1 <= at <= len(t["ev"]) else None,
                             "trace": t})
    for rej in rejected[:diagnose]:
        rej["state"] = state_at(module, rej["trace"], rej["at"], constants)
    return n - len(rejected), rejected, states, trans


def state_at(module, trace, at, constants=None):
    """The specification state(s) reached just before the rejected event."""
    fd, path = tempfile.mkstemp(prefix="traces_", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps(trace) + "\n")
        r = tlc(module, cfg(constants=constants, spec="TraceSpec", invariants=["NotAt"]),
                env={"TRACES": path, "STOPAT": str(at)}, workers=1, timeout=120)
        parts = re.split(r"^State \d+:.*$|^\d+: <?.*$", r.out, flags=re.M)
        m = re.findall(r"^State \d+: .*?\n(.*?)(?=^State \d+:|\n\n)", r.out, re.M | re.S)
        m = m or re.findall(r"violated by the initial state:\n(.*?)\n\n", r.out, re.S)
        return m[-1].strip() if m else parts[-1][-1500:]
    except TlcError as ex:
        return f"(no diagnosis: {ex})"
    finally:
        os.unlink(path)
