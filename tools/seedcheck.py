#!/usr/bin/env python3
"""Judge the planted bugs in memory: seedcheck.py [ID ...] [all]
'all' runs every check on each bug, otherwise only the bug's property."""
import glob
import os
import sys
from concurrent.futures import ProcessPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
import runcorpus                                        # noqa: E402
from seed import load                                   # noqa: E402


def main():
    every = "all" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "all"]
    have = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(
        os.path.join(H, "checks", "c[0-9]*.py")))
    jobs = []
    for f in sorted(glob.glob(os.path.join(H, "tools", "seeds", "*.py"))):
        sid = os.path.basename(f)[:-3]
        if ids and sid not in ids:
            continue
        m = load(f)
        mod = os.path.basename(m.FILE)[:-3]
        for p in have if every else [m.PROPERTY]:
            if p in have:
                jobs.append(("m", sid, p, [(mod, a, b) for a, b in m.EDITS]))
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as ex:
        for (k, vid, pid, _), res, txt, dt in ex.map(runcorpus.one, jobs):
            if not every or res != "quiet":
                print(vid, pid, res, f"{dt:.0f}s", txt[:150])


if __name__ == "__main__":
    main()
