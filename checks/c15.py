"""C15: only writing functions touch the disk, only updating the network."""
import ast
from .base import *
from .effects import *

RULE = ("effect analysis: the write and network effects reachable from every "
        "public operation and from importing the package are collected with "
        "the paths they act on and compared with what the operation may do "
        "(write_sofa: the target file; inspect: the file argument, only if "
        "one is given; update_conventions: the conventions folder and a "
        "temporary folder, and network access)")


def check(c):
    n = 0
    for fn in c.entries():
        I = c.run(fn)
        n += 1
        name = q(fn)
        bad = False
        for e, path in write_effects(I):
            ok, reason = allowed(c, fn, name, e, path)
            c.ob("disk-effects", f"{e.pos[2]}:{e.name}", ok,
                 f"{name} {reason}", e.where())
            bad = bad or not ok
        for e in network(I):
            ok = name == "update_conventions"
            c.ob("network-effects", f"{e.pos[2]}:{e.name}", ok,
                 f"{name} accesses the network: {e.name}", e.where())
        c.ob("operation-effects", name, True)
    c.need(n, "public operations", 15)
    imports(c)


def allowed(c, fn, name, e, path):
    params = [mk("param", a.arg) for a in fn.node.args.args
              + fn.node.args.kwonlyargs]
    base = list(path_base(path)) if path is not None else []
    text = show(path, 4) if path is not None else ""
    if name == "write_sofa":
        if e.name in DATASETS and base and all(b is params[0] for b in base):
            return True, ""
        return False, f"changes something else than its target: {e.name} " \
            f"{text}"
    if fn.name == "inspect" and fn.cls is not None and len(params) > 1:
        f = params[1]
        if e.name in OPENERS | {".open", ".write_text"} and base and all(
                b is f for b in base):
            if entails(e.guard, b_not(N.c_isnone(f))) or \
                    entails(e.guard, c_truth(f)):
                return True, ""
            return False, "writes a file although no file argument is given"
        return False, f"changes something else than the file argument: {text}"
    if name == "update_conventions":
        if e.name in TEMP:
            return True, ""
        ok = bool(base)
        for b in base:
            if b is params[0] or module_dir(b) or (
                    b.op == "call" and b.args[0] in TEMP):
                continue
            ok = False
        return ok, ("changes files outside the conventions folder and its "
                    f"temporary folder: {e.name} {text}")
    return False, f"changes the disk: {e.name} {text}"


def module_dir(b):
    return b.op == "call" and b.args[0] in DIRNAME and \
        b.args[1].op == "glob" and b.args[1].args[0].endswith("__file__") or \
        b.op == "glob" and b.args[0].endswith("__file__")


def import_time(m):
    """Calls evaluated when a module is imported."""
    todo = list(m.tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults + [
                d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            continue
        if isinstance(n, ast.Call):
            yield n
        todo += list(ast.iter_child_nodes(n))


def imports(c):
    for m in c.p.modules.values():
        bad = 0
        for n in import_time(m):
            d = m.dotted(n.func)
            if d is None:
                continue
            d = c.p.canon(d)
            kind, o = c.p.lookup(d)
            w = f"{m.path}:{n.lineno} in {m.name}"
            if kind == "func" or (kind == "class" and "__init__"
                                  in o.methods):
                f = o if kind == "func" else o.methods["__init__"]
                I = c.run(f, boundary=())
                for e, path in write_effects(I):
                    c.ob("import-effects", m.name, False,
                         f"importing {m.name} changes the disk: {e.name}", w)
                for e in network(I):
                    c.ob("import-effects", m.name, False,
                         f"importing {m.name} uses the network: {e.name}", w)
                continue
            if matches(d, NETWORK):
                c.ob("import-effects", m.name, False,
                     f"importing {m.name} uses the network: {d}", w)
            elif d in WRITERS or d in OPENERS and not static_read(n):
                c.ob("import-effects", m.name, False,
                     f"importing {m.name} changes the disk: {d}", w)
        c.ob("import-effects", m.name, True)


def static_read(n):
    mode = n.args[1] if len(n.args) > 1 else next(
        (k.value for k in n.keywords if k.arg == "mode"), None)
    return mode is None or (isinstance(mode, ast.Constant) and isinstance(
        mode.value, str) and mode.value[0] == "r" and "+" not in mode.value)
