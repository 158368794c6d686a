"""Thorough tier: how well does a check tell broken from sound code?

The check itself has decided the current tree already.  Here the same rules
are applied, in memory, to variants of the current sources: small edits that
break the property (they must be reported) and edits that keep the behaviour
(they must not).  Nothing is executed and nothing is written; the outcome is
part of the evidence and never changes the verdict."""
import os
import time
from concurrent.futures import ProcessPoolExecutor, as_completed


def _one(job):
    kind, vid, pid, edits = job
    import ast
    from corpus.engine import variant, judge, Skip
    from sflow.project import Project
    try:
        src = variant(Project(), edits)
        for n, (p, s, k) in src.items():
            ast.parse(s)
    except (Skip, SyntaxError):
        return kind, vid, "not applicable"
    try:
        return kind, vid, "reported" if judge(pid, src) else "quiet"
    except BaseException as e:
        return kind, vid, f"undecided ({type(e).__name__})"


def run(pid, ctx, limit=700):
    from corpus import mutants, rewrites
    jobs = [("m", v, pid, e) for v, ps, e in mutants.MUTANTS if pid in ps]
    jobs += [("r", v, pid, e) for v, e in rewrites.REWRITES]
    out = {"m": {}, "r": {}}
    t0 = time.time()
    try:
        with ProcessPoolExecutor(min(8, os.cpu_count() or 1),
                                 max_tasks_per_child=10) as ex:
            fs = [ex.submit(_one, j) for j in jobs]
            try:
                for f in as_completed(fs, timeout=limit):
                    kind, vid, res = f.result()
                    out[kind].setdefault(res, []).append(vid)
            finally:
                for f in fs:
                    f.cancel()
    except Exception as e:          # never decides anything
        out["m"].setdefault(f"stopped: {type(e).__name__}", [])
    m, r = out["m"], out["r"]
    return {"selftest": {
        "breaking_edits": {k: len(v) for k, v in sorted(m.items())},
        "missed": sorted(m.get("quiet", [])),
        "preserving_edits": {k: len(v) for k, v in sorted(r.items())},
        "false_alarms": sorted(r.get("reported", [])),
        "seconds": round(time.time() - t0, 1)}}
