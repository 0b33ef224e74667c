"""Developer aid: run the rules on edited copies of the package.

python3 dev/mut.py [PROP...]   expected violations (dev/mutants.py) and neutral edits (dev/neutral.py)
"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
NEUTRAL = ["neutral", "neutral2", "neutral3", "neutral4", "neutral5", "neutral6", "neutral7", "neutral8", "neutral9", "neutral10", "neutral11", "neutral12", "neutral13"]
SRC = os.environ.get("SRC", "/repo")


def load(name):
    p = os.path.join(BASE, "dev", name + ".py")
    ns = {}
    if os.path.exists(p):
        if name.startswith("neutral") and name != "neutral":
            exec(compile(open(os.path.join(BASE, "dev", "neutral.py")).read().split("# --- filters")[0], p, "exec"), ns)
        if name.startswith("probes") or (name.startswith("mutants") and name != "mutants"):  # written with the names of mutants.py
            head = open(os.path.join(BASE, "dev", "mutants.py")).read().split("# C01\n")[0]
            exec(compile(head, p, "exec"), ns)
        exec(compile(open(p).read(), p, "exec"), ns)
    return ns.get("ALL", [])


def job(a):
    kind, prop, edits, props = a
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(SRC + "/subsetter", d + "/subsetter", ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("subsetter.example.yaml", "README.md"):
            if os.path.exists(f"{SRC}/{extra}"):
                shutil.copy(f"{SRC}/{extra}", d)
        for f, old, new in edits:
            p = f"{d}/subsetter/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return (a, "EDIT DOES NOT APPLY: " + old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        for f, old, new in edits:
            p = f"{d}/subsetter/{f}"
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError as e:
                return (a, f"SYNTAX {e}")
        from sa.ctx import Ctx
        from sa.rule import AnalysisBroken
        from sa.run import run_property, load_known
        out = {}
        try:
            ctx = Ctx(d)
        except AnalysisBroken as e:
            return (a, f"BROKEN {e}")
        known = load_known()
        for q in props:
            try:
                mod, rep = run_property(q, ctx)
                bad = [i for i in rep.items if i["status"] == "violation" and not [k for k in known if (k[0], k[1], k[2]) == (q, i["rule"], i["instance"])]]
                br = [r for r, n in getattr(mod, "FLOORS", {}).items() if sum(1 for i in rep.items if i["rule"] == r) < n] if not bad else []
                out[q] = (bad, "FLOOR " + ",".join(br) if br else "")
            except AnalysisBroken as e:
                out[q] = ([], f"BROKEN {e}")
            except Exception as e:
                import traceback
                out[q] = ([], f"CRASH {type(e).__name__} {e} " + " @ ".join(l.strip() for l in traceback.format_exc().splitlines() if l.strip().startswith("File"))[-200:])
        return (a, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    rules = sorted(f[:-3].upper() for f in os.listdir(BASE + "/sa/rules") if f.startswith("c") and f.endswith(".py"))
    jobs = []
    only = [a[2:] for a in sys.argv[1:] if a.startswith("-f")]
    for prop, edits in [x for n in (only or ([] if any(a.startswith("-q") for a in sys.argv) else ["mutants", "mutants2", "mutants3", "mutants4", "mutants5", "mutants6", "mutants7", "mutants8", "mutants9", "mutants10"])) for x in load(n)]:
        if not sel or prop in sel:
            if prop in rules:
                jobs.append(("bug", prop, edits, [prop]))
    quiet = [a[2:] for a in sys.argv[1:] if a.startswith("-q")]
    for name, edits in [x for n in (quiet or [] if only or quiet else NEUTRAL) for x in load(n)]:
        jobs.append(("neutral", name, edits, [p for p in rules if not sel or p in sel]))
    miss = fa = 0
    with ProcessPoolExecutor(8) as ex:
        for a, out in ex.map(job, jobs, chunksize=1):
            kind, prop, edits, props = a
            lab = f"{prop} {edits[0][0]}: {edits[0][1].strip().splitlines()[0][:50]!r} -> {edits[0][2].strip().splitlines()[0][:60] if edits[0][2].strip() else ''!r}"
            if isinstance(out, str):
                print("??", kind, lab, out)
                continue
            if kind == "bug":
                bad, err = out[prop]
                if not bad:
                    miss += 1
                    print("MISS", lab, err)
                elif "-v" in sys.argv:
                    print("hit ", lab, "|", bad[0]["rule"], bad[0]["detail"][:100])
            else:
                for q, (bad, err) in out.items():
                    if bad or err:
                        fa += 1
                        print("ALARM", q, lab, err, [(b["rule"], b["instance"], b["detail"][:150]) for b in bad][:2])
    print(f"{len(jobs)} edits, {miss} bugs missed, {fa} false alarms")


if __name__ == "__main__":
    main()
