"""Run the rules of one property: python3 -m sa.run C01 [--tier quick|thorough] [--root /repo]"""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    out = []
    p = os.path.join(BASE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                d = dict(kv.split("=", 1) for kv in line[7:].split(" | ")[0].split())
                out.append((d["property"], d["rule"], d["instance"], line.split(" | ", 1)[1] if " | " in line else ""))
    return out


def run_property(prop, ctx):
    from .rule import Report, fill

    mod = importlib.import_module(f"sa.rules.{prop.lower()}")
    rep = Report(prop)
    mod.check(ctx, rep)
    if rep.count("ok") and not rep.count("violation"):
        # the anchors were found, other obligations were not got to: undecided
        fill(rep, getattr(mod, "FLOORS", {}))
    return mod, rep


def main(argv):
    prop = argv[1]
    root = "/repo"
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--root" in argv:
        root = argv[argv.index("--root") + 1]
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    from .ctx import Ctx
    from .interp import AnalysisBroken

    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(BASE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    try:
        ctx = Ctx(root)
        mod, rep = run_property(prop, ctx)
        if "--show" in argv:
            for i in rep.items:
                print(f"   {i['status']:9} {i['rule']} [{i['instance']}] {i['where']} {i['detail'][:300]}")
        for rule, n in getattr(mod, "FLOORS", {}).items():
            got = sum(1 for i in rep.items if i["rule"] == rule)
            if got < n and not rep.count("violation"):
                raise AnalysisBroken(f"rule {rule} matched {got} instances, at least {n} were confirmed by hand")
    except AnalysisBroken as exc:
        print(f"ANALYSIS-BROKEN property={prop}: {exc}")
        return 2
    except RecursionError:
        print(f"ANALYSIS-BROKEN property={prop}: recursion limit")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop}: internal error")
        return 3
    known = load_known()
    bad, kf = [], []
    for i in rep.items:
        if i["status"] != "violation":
            continue
        m = [k for k in known if k[0] == prop and k[1] == i["rule"] and k[2] == i["instance"]]
        (kf if m else bad).append((i, m[0][3] if m else ""))
    by_rule = {}
    for i in rep.items:
        d = by_rule.setdefault(i["rule"], {"instances": 0, "ok": 0, "violation": 0, "undecided": 0})
        d["instances"] += 1
        d[i["status"]] += 1
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "obligations": len(rep.items),
            "discharged": rep.count("ok"),
            "undecided": rep.count("undecided"),
            "rules": by_rule,
            "entry_points": [{"name": str(k), "effects": len(r.effects)} for k, r in ctx.runs.items()],
            "functions_analysed": len(getattr(ctx.e, "analysed", ())),
            "modules": sorted(ctx.e.modules),
            "instances": rep.items,
        },
        "assumptions": list(getattr(mod, "ASSUMES", ())) + [
            "Calls that leave the package behave as documented by SQLAlchemy, pydantic, PyYAML, Faker and the standard library.",
            "Loop bodies are summarised once; only structure visible in the source is decided.",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(rep.items)} rule instances, {rep.count('ok')} hold, {rep.count('undecided')} undecided, {len(bad)} violated ({ev['wall_s']} s)")
    for txt in dict.fromkeys(t for _, t in kf):
        print(f"KNOWN-FINDING: property={prop} {txt}")
    if bad:
        rp = os.path.join(evdir, f"{prop}.replay.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for i, _ in bad:
                f.write(f"{i['where']} in {i['function']}: rule {i['rule']} [{i['instance']}]\n    {i['detail']}\n")
        for i, _ in bad:
            print(f"  {i['where']} in {i['function']}: {i['rule']} [{i['instance']}] {i['detail']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
