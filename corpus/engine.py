"""Variants of the current source, built in memory by text replacement."""
import importlib
from sflow.project import Project
from checks.base import Ctx, decide


class Skip(Exception):
    pass


def variant(project, edits):
    src = {m.name: [m.path, m.src, m.is_pkg]
           for m in project.modules.values()}
    for mod, old, new in edits:
        name = "sofar" + ("." + mod if mod else "")
        if name not in src or src[name][1].count(old) < 1:
            raise Skip(f"{name} has no {old[:50]!r}")
        src[name][1] = src[name][1].replace(old, new, 1)
    return {k: tuple(v) for k, v in src.items()}


def judge(pid, sources):
    """[(rule, key, text)] of one check on a variant."""
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(project=Project.from_sources(sources), prop=pid)
    ctx.thorough = False
    decide(mod, ctx, 280, 3 << 30)
    import run
    seen, out = {("", k) for p, k in run.known() if p == pid}, []
    for f in ctx.findings:
        if (f.rule, f.key) not in seen and ("", f.key) not in seen:
            seen.add((f.rule, f.key))
            out.append((f.rule, f.key, f.text))
    return out
