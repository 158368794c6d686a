"""Write and confirm the planted bugs of /verif/seeded from tools/seeds/*.py.

usage: seed.py [ID ...]        write the folders and confirm them
Each definition is a python file with PROPERTY, FILE, EDITS [(old, new)],
NEEDS, BREAKS and DEMO (python code run with cwd = repository; exit 0 when
the property holds). Everything is confirmed in a scratch copy under /tmp."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SH = """#!/bin/sh
# run with cwd = repository
here=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
"""
HEAD = """import os
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fixture
warnings.simplefilter("ignore")
"""


def load(path):
    spec = importlib.util.spec_from_file_location("seed", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main(only):
    seeds = os.path.join(HERE, "seeds")
    bad = 0
    for n in sorted(os.listdir(seeds)):
        sid = n[:-3]
        if not n.endswith(".py") or (only and sid not in only):
            continue
        m = load(os.path.join(seeds, n))
        out = os.path.join(VERIF, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            repo = os.path.join(tmp, "repo")
            sh(["cp", "-a", "/repo", repo], "/")
            sh(["git", "checkout", "-q", "--", "."], repo)
            shutil.copy(os.path.join(HERE, "fixture.py"), out)
            with open(os.path.join(out, "demo.py"), "w") as f:
                f.write(HEAD + m.DEMO)
            with open(os.path.join(out, "demo.sh"), "w") as f:
                f.write(SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            meta = {"property": m.PROPERTY, "needs": m.NEEDS,
                    "what_it_breaks": m.BREAKS}
            with open(os.path.join(out, "meta.json"), "w") as f:
                json.dump(meta, f, indent=1)
                f.write("\n")
            demo = ["sh", os.path.join(out, "demo.sh")]
            a = sh(demo, repo)
            problems = []
            if a.returncode:
                problems.append("demo fails unchanged: " + a.stderr[-600:])
            p = os.path.join(repo, m.FILE)
            s = open(p).read()
            for old, new in m.EDITS:
                if s.count(old) != 1:
                    problems.append(f"{s.count(old)} matches of {old[:50]!r}")
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
            d = sh(["git", "diff"], repo).stdout
            with open(os.path.join(out, "patch.diff"), "w") as f:
                f.write(d)
            b = sh(demo, repo)
            if not b.returncode:
                problems.append("demo passes with the change")
            base = sh(["git", "log", "--format=%an", "-1"], repo)
            blame = sh(["git", "stash"], repo), \
                sh(["git", "blame", "-l", "c41ad88..HEAD", m.FILE], repo)
            own = {i + 1 for i, x in enumerate(
                blame[1].stdout.split("\n")) if x and x[0] != "^"}
            rm, line = [], 0
            for x in d.split("\n"):
                if x.startswith("@@"):
                    line = int(x.split("-")[1].split(",")[0].split(" ")[0])
                elif x.startswith("-") and not x.startswith("---"):
                    rm.append(line)
                    line += 1
                elif x.startswith(" "):
                    line += 1
            if not rm:
                problems.append("no original line is changed")
            if set(rm) & own:
                problems.append(f"lines of a fix: {sorted(set(rm) & own)}")
            sh(["git", "stash", "pop"], repo)
            t = sh([sys.executable, "-m", "compileall", "-q", "sofar"], repo)
            if t.returncode:
                problems.append("does not compile")
            with open("/opt/vp/BASELINE.json") as f:
                ids = [x.replace(".", "/", 1).replace("::", ".py::")
                       for x in json.load(f)["stable"]]
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                    "no:cacheprovider", *ids], repo)
            if t.returncode:
                problems.append("tests fail: " + t.stdout[-200:])
            print(sid, m.PROPERTY, "; ".join(problems) or "ok",
                  "|", b.stderr.strip().split("\n")[-1][:110])
            bad += bool(problems)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main(sys.argv[1:]) else 0)
