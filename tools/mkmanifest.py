"""Regenerates /verif/MANIFEST.json from the checks present and CLAIMS below."""
import json, pathlib
ROOT = pathlib.Path(__file__).parent.parent
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
NA = {}
NOTES = json.loads((ROOT / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif (ROOT / "harness" / "checks" / f"{i.lower()}.py").exists():
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} --tier quick",
            "thorough_cmd": f"bin/check {i} --tier thorough",
            "technique": n.get("technique", "TLA+ spec model-checked with TLC; spec-generated scripts replayed in the real code; recorded traces validated by TLC"),
            "level": "model_checking",
            "level_note": n.get("note", "Exhaustive over the model's small constants; the code is bound by trace validation over the replayed scripts."),
        })
    else:
        na.append({"property": i, "reason": "No check built yet."})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "KASA_VERIF_HOOKS", "enable": "no hooks are needed: the harness observes library boundaries only; the guard variable is unused", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All specifications are TLA+ checked with TLC (see DESIGN.md)."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
