#!/opt/venv/bin/python
"""Planted bugs: seed.py ID...  confirms each of /verif/seeded/ID in a scratch copy of /repo:
the patch applies, the demonstration passes without and fails with it, the tests pass, and the property's check reports it.
  -t  skip the tests   -c skip the checks"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
S = pathlib.Path(__file__).parent.parent / "seeded"
opts = [a for a in sys.argv[1:] if a.startswith("-")]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.name for p in S.iterdir())
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
for i in ids:
    d = S / i
    meta = json.load(open(d / "meta.json"))
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", t], check=True)
        subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
        env = {**os.environ, "PYTHONPATH": t, "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
        demo = lambda: subprocess.run(["bash", str(d / "demo.sh")], cwd=t, env=env, capture_output=True, text=True, timeout=300)
        a = demo()
        subprocess.run(["git", "-C", t, "apply", str(d / "patch.diff")], check=True)
        b = demo()
        res = [f"clean={a.returncode}", f"patched={b.returncode}"]
        if a.returncode:
            print(a.stdout[-2000:], a.stderr[-2000:])
        if b.returncode == 0:
            print("DEMO DOES NOT FAIL", b.stdout[-500:])
        else:
            res.append((b.stderr.strip().splitlines() or [""])[-1][:150])
        if "-t" not in opts:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60",
                                "--basetemp=" + t + "/bt"], cwd=t, env={**env, "PYTHONHASHSEED": "0"}, capture_output=True, text=True)
            tail = [x for x in r.stdout.splitlines() if "FAILED" in x or "ERROR" in x][:4]
            res.append("tests: " + r.stdout.strip().splitlines()[-1] + ("\n   " + "\n   ".join(tail) if tail else ""))
        if "-c" not in opts:
            r = subprocess.run([str(S.parent / "bin/check"), meta["property"]], env={**os.environ, "VERIF_KASA": t, "VERIF_OUT": t + "/out"}, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            res.append(f"check rc={r.returncode} violations={len(v)}")
            if not v:
                res.append("   *** NOT CAUGHT ***")
        print(i, meta["property"], *res, sep="  ", flush=True)
    finally:
        shutil.rmtree(t)
