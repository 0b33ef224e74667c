"""Which checks report which planted bug: writes dev/caught.json."""
import json, os, subprocess, shutil, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
sys.path.insert(0, BASE + "/dev")
from mut import SRC


def one(i):
    from sa.ctx import Ctx
    from sa.run import run_property, load_known
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(SRC + "/subsetter", d + "/subsetter", ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("subsetter.example.yaml", "README.md"):
            shutil.copy(f"{SRC}/{extra}", d)
        subprocess.run(["git", "apply", "--directory", "", f"{BASE}/seeded/{i}/patch.diff"], cwd=d, check=True, env={**os.environ, "GIT_CEILING_DIRECTORIES": "/tmp"})
        ctx, known, out = Ctx(d), load_known(), []
        for f in sorted(os.listdir(BASE + "/sa/rules")):
            if f.startswith("c") and f.endswith(".py"):
                q = f[:-3].upper()
                try:
                    _, rep = run_property(q, ctx)
                except Exception:
                    continue
                if any(x["status"] == "violation" and not [k for k in known if (k[0], k[1], k[2]) == (q, x["rule"], x["instance"])] for x in rep.items):
                    out.append(q)
        return i, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with ProcessPoolExecutor() as ex:
        r = dict(ex.map(one, sorted(os.listdir(BASE + "/seeded"))))
    json.dump(r, open(BASE + "/dev/caught.json", "w"), indent=0)
    for i, ps in r.items():
        print(i, ps)
