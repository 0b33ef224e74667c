"""Show what is not decided `ok` for one edit: python3 dev/one.py PROP N (N-th mutant of PROP), or PROP nNAME for a neutral edit index."""
import os, shutil, sys, tempfile
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE); sys.path.insert(0, BASE + "/dev")
from mut import SRC, load
prop, n = sys.argv[1], sys.argv[2]
if n.startswith("s:"):
    import seeds
    s = next(s for s in seeds.ALL if s["id"].startswith(n[2:]))
    edits = s["edits"]
elif n.startswith("n"):
    edits = [x for m in ("neutral2" if n[1] == "q" else "neutral3" if n[1] == "r" else "neutral4" if n[1] == "s" else "neutral5" if n[1] == "t" else "neutral6" if n[1] == "u" else "neutral7" if n[1] == "v" else "neutral8" if n[1] == "w" else "neutral9" if n[1] == "x" else "neutral10" if n[1] == "y" else "neutral11" if n[1] == "z" else "neutral12" if n[1] == "o" else "neutral13" if n[1] == "l" else "neutral",) for x in load(m)][int(n[1:].lstrip("qrstuvwxyzol"))][1]
elif n.startswith("m"):  # m3:N, N-th edit of PROP in mutants3.py
    f, k = n[1:].split(":")
    edits = [e for p, e in load("mutants" + f) if p == prop][int(k)]
elif n.startswith("p"):  # p1:N, N-th probe of PROP in probes1.py
    f, k = n[1:].split(":")
    edits = [e for p, e in load("probes" + f) if p == prop][int(k)]
else:
    edits = [e for p, e in load("mutants") + load("mutants2") if p == prop][int(n)]
d = tempfile.mkdtemp(prefix="one_")
try:
    shutil.copytree(SRC + "/subsetter", d + "/subsetter", ignore=shutil.ignore_patterns("__pycache__"))
    for extra in ("subsetter.example.yaml", "README.md"):
        if os.path.exists(f"{SRC}/{extra}"):
            shutil.copy(f"{SRC}/{extra}", d)
    for f, old, new in edits:
        p = f"{d}/subsetter/{f}"
        s = open(p).read()
        assert old in s, old
        open(p, "w").write(s.replace(old, new, 1))
        print("---", f, old[:70].strip(), "=>", new[:100].strip())
    from sa.ctx import Ctx
    from sa.run import run_property
    mod, rep = run_property(prop, Ctx(d))
    seen = set()
    for i in rep.items:
        if i["status"] != "ok":
            k = (i["rule"], i["detail"])
            if k in seen:
                continue
            seen.add(k)
            print(f"  {i['status']:9} {i['rule']} [{i['instance']}] {i['where']} {i['detail'][:300]}")
finally:
    shutil.rmtree(d)
