"""Developer aid: write and verify the planted bugs of dev/seeds.py.

python3 dev/seed.py [ID...] [-n]     (-n: do not run the test suite)
"""
import json, os, re, shutil, subprocess, sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
sys.path.insert(0, BASE + "/dev")
import seeds
from concurrent.futures import ProcessPoolExecutor

ORIG = "4d1f09d"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def blame_ok(patch):
    """Every removed line belongs to the original repository."""
    f, bad, n = None, [], 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            bl = sh(f"git -C /repo blame -l -s HEAD -- {f}").stdout.splitlines()
        elif l.startswith("@@"):
            k = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-"):
            n += 1
            if not bl[k - 1].lstrip("^").startswith(ORIG_FULL[: 39]):
                bad.append(l)
            k += 1
        elif f and not l.startswith("+"):
            k += 1
    return bad, n


ORIG_FULL = sh(f"git -C /repo rev-parse {ORIG}").stdout.strip()
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
assert not sh("git -C /repo status --short").stdout
res = {}
for s in seeds.ALL:
    if sel and s["id"] not in sel:
        continue
    d = f"{BASE}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, old, new in s["edits"]:
            p = "/repo/subsetter/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(patch)
    for f in ("h.py", "demo.sh"):
        shutil.copy(BASE + "/dev/seedlib/" + f, d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write("from h import *\n\n" + s["demo"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    bad, n = blame_ok(patch)
    msg = []
    if bad or not n:
        msg.append(f"NOT ORIGINAL {n} {bad}")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r0.returncode:
        msg.append("DEMO FAILS UNPATCHED " + (r0.stdout + r0.stderr)[-600:])
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        assert a.returncode == 0, a.stderr
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        if not r1.returncode:
            msg.append("DEMO PASSES PATCHED")
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            msg.append("BUILD " + b.stderr[-300:])
        if "-n" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            t = json.load(open("/tmp/seed.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("passed") or base
            if isinstance(names, dict):
                names = list(names)
            passed = t.get("passed", t)
            miss = [x for x in names if x not in passed]
            if miss:
                msg.append(f"TESTS FAIL {len(miss)} {miss[:3]}")
        import mut
        rules = sorted(f[:-3].upper() for f in os.listdir(BASE + "/sa/rules") if f.startswith("c") and f.endswith(".py"))
        with ProcessPoolExecutor(8) as ex:
            outs = list(ex.map(mut.job, [("bug", q, [], [q]) for q in rules]))
        caught = []
        for q, (_, o) in zip(rules, outs):
            if isinstance(o, str):
                caught.append(q + "?" + o)
            elif o[q][0]:
                caught.append(q)
            elif o[q][1]:
                caught.append(q + "?" + o[q][1])
    finally:
        sh("git -C /repo checkout -- .")
    last = (r1.stdout + r1.stderr).strip().splitlines()[-1:] or [""]
    print(s["id"], s["prop"], "CAUGHT" if s["prop"] in caught else "missed", caught, "|", "; ".join(msg) or "good", "|", last[0][:150], flush=True)
