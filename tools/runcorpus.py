#!/usr/bin/env python3
"""Run checks on the corpus: corpus.py [m|r] [PID ...] [id=substr]"""
import glob, json, os, random, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True


def one(job):
    kind, vid, pid, edits = job
    from corpus.engine import variant, judge, Skip
    from sflow.project import Project
    t = time.time()
    try:
        src = variant(Project(), edits)
    except Skip as e:
        return job, "SKIP", str(e), 0
    try:
        import ast
        for n, (p, s, k) in src.items():
            ast.parse(s)
        f = judge(pid, src)
    except Exception as e:
        return job, "ERROR", f"{type(e).__name__}: {e}", time.time() - t
    return job, "FIRES" if f else "quiet", "; ".join(
        f"{r}[{k}] {x}"[:260] for r, k, x in f[:2]), time.time() - t


def known():
    return {(k["property"], k["key"]) for k in json.load(open(
        os.path.join(H, "known_findings.json")))["known"]}


def main():
    from corpus import mutants, rewrites
    args = sys.argv[1:]
    kinds = [a for a in args if a in "mr"] or ["m", "r"]
    pids = [a for a in args if a.startswith("C")]
    sub = [a[3:] for a in args if a.startswith("id=")]
    have = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(
        os.path.join(H, "checks", "c[0-9]*.py")))
    pids = pids or have
    jobs = []
    if "m" in kinds:
        for vid, props, edits in mutants.MUTANTS:
            for p in props:
                if p in pids and (not sub or any(s in vid for s in sub)):
                    jobs.append(("m", vid, p, edits))
    if "r" in kinds:
        for vid, edits in rewrites.REWRITES:
            for p in pids:
                if not sub or any(s in vid for s in sub):
                    jobs.append(("r", vid, p, edits))
    part = [int(a[7:]) for a in args if a.startswith("sample=")]
    if part:
        jobs = random.sample(jobs, min(part[0], len(jobs)))
    bad = 0
    n = 0
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as ex:
        for (k, vid, pid, _), res, txt, dt in ex.map(one, jobs):
            n += 1
            want = "FIRES" if k == "m" else "quiet"
            if res == want and "-v" not in args:
                continue
            if k == "r" and res == "FIRES":
                txt = "  !!! " + txt
            bad += res != want
            print(f"{k} {vid:40} {pid} {res:6} {dt:5.1f}s {txt[:400]}", flush=True)
    print(f"{n} runs, {bad} unexpected")


if __name__ == "__main__":
    main()
