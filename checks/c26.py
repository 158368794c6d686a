"""C26: file and network content is never executed."""
import ast
from .base import *
from .effects import *

RULE = ("forbidden sinks and path provenance: no call anywhere in the "
        "package evaluates code, imports dynamically, unpickles or starts "
        "processes, and every path that is opened, written or deleted is "
        "built only from constants, the package folder, the caller's own "
        "path arguments, temporary folders, directory listings and base "
        "names, never from the text of file or network content")

PATH_ARGS = {"write_sofa": 0, "read_sofa": 0, "read_sofa_as_netcdf": 0,
             "update_conventions": 0, "_check_congruency": 0, "Sofa.inspect": 1,
             "SofaStream.inspect": 1, "SofaStream.__init__": 1}


def check(c):
    # 1. every call of every function, reachable or not
    n = 0
    for m in c.p.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            n += 1
            d = m.dotted(node.func)
            if d is None:
                continue
            d = c.p.canon(d)
            bad = forbidden(d, node)
            c.ob("no-code-execution", f"{m.name}:{d}", not bad,
                 f"call of {d} executes or deserializes content",
                 f"{m.path}:{node.lineno} in {m.name}") if bad else None
    c.ob("no-code-execution", "calls", True)
    c.need(n, "calls", 200)
    c.notes.append(f"{n} call expressions")
    # 2. values: indirect calls of the same functions
    k = 0
    extra = [f for m in c.p.modules.values()
             for f in m.funcs.values() if f.name == "_check_congruency"]
    for fn in c.entries() + extra:
        I = c.run(fn)
        for e in ev(I, ("call",)):
            if forbidden(e.name, None):
                c.ob("no-code-execution", f"{e.pos[2]}:{e.name}", False,
                     f"call of {e.name} executes or deserializes content",
                     e.where())
            if e.name in ("numpy.load", "numpy.fromfile") and truthy(
                    e.arg(None, "allow_pickle")):
                c.ob("no-code-execution", f"{e.pos[2]}:{e.name}", False,
                     "pickled objects are loaded", e.where())
        name = q(fn)
        own = None
        if name in PATH_ARGS and len(fn.node.args.args) > PATH_ARGS[name]:
            own = mk("param", fn.node.args.args[PATH_ARGS[name]].arg)
        paths = [(e, p) for e, p in write_effects(I)] + \
            [(e, p) for e, p, _ in file_opens(I)]
        for e, p in paths:
            if p is None:
                continue
            k += 1
            for kind, t in path_leaves(p):
                ok = kind != "other" or t is own or (
                    t.op == "attr" and t.args[0].op == "param" and
                    isinstance(t.args[1], str) and
                    t.args[1].startswith("_") and
                    fn.cls is not None and fn.cls.name == "SofaStream")
                c.ob("path-provenance", f"{e.pos[2]}:{e.name}", ok,
                     f"the path of {e.name} is built from {show(t, 4)}",
                     e.where())
    c.need(k, "paths", 8)


def truthy(t):
    return t is not None and t is not const(False)


def forbidden(d, node):
    if matches(d, EXECUTE) or matches(d, PROCESS):
        if d in ("importlib.metadata.version", "ast.literal_eval",
                 "importlib.resources.files", "threading.Lock",
                 "threading.RLock", "threading.local",
                 "importlib.resources.as_file", "importlib.resources.path"):
            return False
        return True
    return False
