#!/opt/venv/bin/python
"""Mutation campaign: camp.py MUTS.py [-t] [ID...]
MUTS.py defines M = [(id, "C20 C13", file, old, new), ...]; each edit is made in a scratch copy of /repo and the
properties' checks are run against it.  -t runs the tests as well (for edits the checks miss)."""
import concurrent.futures, os, pathlib, shutil, subprocess, sys, tempfile, runpy
R = pathlib.Path(__file__).parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("-")]
muts = runpy.run_path(args[0])["M"]
if args[1:]:
    muts = [m for m in muts if any(m[0].startswith(a) for a in args[1:])]


def one(m):
    i, props, f, old, new = m
    t = tempfile.mkdtemp(prefix="camp.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", os.environ.get("BASE", "/repo") + "/.", t], check=True)
        subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
        p = pathlib.Path(t) / f
        s = p.read_text()
        if s.count(old) < 1:
            return f"{i}: PATTERN {s.count(old)}"
        p.write_text(s.replace(old, new) if s.count(old) == 1 else s.replace(old, new, 1))
        res = []
        for c in props.split():
            r = subprocess.run([str(R / "bin/check"), c], env={**os.environ, "VERIF_KASA": t, "VERIF_OUT": t + "/out"}, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            res.append(f"{c} rc={r.returncode} {len(v)}" + ("" if v else "  *** MISSED " + (r.stdout + r.stderr)[-200:] if r.returncode not in (0, 1) else "" if v else "  *** MISSED"))
        if "-t" in sys.argv and any("MISSED" in x for x in res):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60", "-x",
                                "--basetemp=" + t + "/bt"], cwd=t, env={**os.environ, "PYTHONPATH": t, "TZ": "UTC", "PYTHONHASHSEED": "0"}, capture_output=True, text=True)
            res.append("tests: " + r.stdout.strip().splitlines()[-1])
        return f"{i}: " + "; ".join(res)
    finally:
        shutil.rmtree(t)


with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for x in ex.map(one, muts):
        print(x, flush=True)
