"""Write DESIGN.md from dev/design_head.md, the properties, the rules' descriptions and the planted bugs."""
import ast, collections, json, os, re, sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE + "/dev")
sys.path.insert(0, BASE)
import mut

ns = {}
exec(open(BASE + "/dev/props.py").read(), ns)
LIM = {}
exec(open(BASE + "/dev/limits.py").read(), LIM)
edits = collections.Counter(p for f in ("mutants", "mutants2") for p, _ in mut.load(f))
neutral = len(mut.load("neutral"))
seeds = {}
for i in sorted(os.listdir(BASE + "/seeded")):
    seeds[i] = json.load(open(f"{BASE}/seeded/{i}/meta.json"))
caught = json.load(open(BASE + "/dev/caught.json")) if os.path.exists(BASE + "/dev/caught.json") else {}
out = [open(BASE + "/dev/design_head.md").read().rstrip().replace("@EDITS@", str(sum(edits.values()))).replace("@NEUTRAL@", str(neutral)).replace("@SEEDS@", str(len(seeds)))]
out.append("\n## Properties\n")
for p in sorted(ns["P"], key=lambda p: p["id"]):
    f = f"{BASE}/sa/rules/{p['id'].lower()}.py"
    if not os.path.exists(f):
        continue
    tree = ast.parse(open(f).read())
    doc = ast.get_docstring(tree)
    floors = next((ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "FLOORS"), {})
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"*Technique*: {p['technique']}. *Rules* (`sa/rules/{p['id'].lower()}.py`): " + " ".join(doc.split()) + "\n")
    out.append("*Reach*: " + p["text"] + ". Tests cannot: " + p["why"] + "\n")
    if floors:
        out.append("*Obligations*: at least " + ", ".join(f"{n} {r}" for r, n in floors.items()) + " per run; what is left undecided is counted in the evidence.\n")
    if p["id"] in LIM["LIMITS"]:
        out.append("*Limits*: " + " ".join(LIM["LIMITS"][p["id"]].split()) + "\n")
    mine = [i for i, m in seeds.items() if m["property"] == p["id"]]
    out.append(f"*Exercised with*: {edits[p['id']]} breaking edits" + (", planted bugs " + ", ".join(f"`{i}`" for i in mine) if mine else "") + ".\n")
out.append("## Not applicable\n")
for n in ns.get("NA", []):
    out.append(f"- **{n['prop']['id']} {n['prop']['title']}**: {n['prop']['statement']} Not applicable: {n['reason']}")
out.append("\n## Planted bugs and the checks that catch them\n")
out.append("| bug | property | caught by | needs |\n|---|---|---|---|")
for i, m in seeds.items():
    out.append(f"| {i} | {m['property']} | {', '.join(caught.get(i, ['not run']))} | {m['needs']} |")
open(BASE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
