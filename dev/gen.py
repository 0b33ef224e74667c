"""Write properties.jsonl and MANIFEST.json from dev/props.py and the rules present."""
import json, os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(BASE + "/dev/props.py").read(), ns)
P = sorted(ns["P"], key=lambda p: p["id"])
NA = ns.get("NA", [])
with open(BASE + "/properties.jsonl", "w") as f:
    for p in P + [n["prop"] for n in NA if "prop" in n]:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(f"{BASE}/sa/rules/{i.lower()}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -m sa.run {i} --tier quick",
            "thorough_cmd": f"python3 -m sa.run {i} --tier thorough",
            "technique": p["technique"],
            "level": "other",
            "level_note": "Static analysis of the current source. Sound over the paths and values the engine models; instances it cannot decide are counted as undecided in the evidence and raise no alarm.",
        })
    else:
        na.append({"property": i, "reason": p.get("na") or "No check is built for it yet."})
for n in NA:
    na.append({"property": n["prop"]["id"], "reason": n["reason"]})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/subsetter on every run and never import or execute it. No hooks are needed."},
          open(BASE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
