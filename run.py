#!/usr/bin/env python3
"""run.py <property> [--thorough]: decide one property from /repo's source.

Exit 0 held, 1 violated (VIOLATION line), 2 analysis broken."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known():
    """Committed findings: {(property, key): text}, fixed entries ignored."""
    out = {}
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for k in json.load(f).get("known", []):
                out[(k["property"], k["key"])] = k["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get(
        "VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from sflow.project import AnalysisError
    from checks.base import Ctx, decide
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(prop=pid)
    ctx.thorough = tier == "thorough"
    decide(mod, ctx)
    extra = {}
    if tier == "thorough":
        import selftest
        extra = selftest.run(pid, ctx)
    kn = known()
    bad, listed = [], []
    seen = set()
    for f in ctx.findings:
        if (pid, f.key) in kn:
            if f.key not in seen:
                listed.append(f)
        elif (f.rule, f.key) not in seen:
            bad.append(f)
        seen.add(f.key)
        seen.add((f.rule, f.key))
    cov = {
        "explanation": (mod.RULE + ". Decided on the source text of "
                        f"{ctx.p.root}/sofar as it is now; nothing was "
                        "executed."),
        "modules": len(ctx.p.modules),
        "functions_analysed": len(ctx.functions),
        "entry_runs": ctx.runs,
        "events_examined": ctx.events,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "rules": {k: {"checked": v[0], "held": v[1]}
                  for k, v in sorted(ctx.rules.items())},
        "functions": sorted(ctx.functions),
        "notes": ctx.notes,
    }
    cov.update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = None
    if bad:
        os.makedirs(os.path.join(HERE, "evidence", "reports"), exist_ok=True)
        rep = os.path.join(HERE, "evidence", "reports", f"{pid}.txt")
        with open(rep, "w", encoding="utf-8") as f:
            f.write(f"property {pid}\nrule set: {mod.RULE}\n\n")
            for b in bad:
                f.write(f"{b.where}\n  rule {b.rule} [{b.key}]\n"
                        f"  {b.text}\n\n")
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w",
              encoding="utf-8") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed,
                   "level": "other", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUME", []),
                   "wall_s": round(time.time() - t0, 3),
                   "violations": len(bad)}, f, indent=1)
    for f in listed:
        print(f"KNOWN-FINDING: property={pid} {kn[(pid, f.key)]}")
    for b in bad:
        print(f"{b.where}: {b.rule} [{b.key}] {b.text}")
    if bad:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"{pid} held: {ctx.discharged}/{ctx.obligations} obligations, "
          f"{len(ctx.functions)} functions, {ctx.events} events")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
