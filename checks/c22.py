"""C22: no entry is skipped because its collection changes during a loop."""
import ast

from .base import *

RULE = ("loop effect analysis: for every loop (for statement, comprehension, "
        "lazy iterator) the identities of the collections walked over "
        "without a copy are computed; every event inside the loop, "
        "including those of called helpers, that adds elements to, removes "
        "them from or reorders one of these collections and after which the "
        "loop can go on is a violation")
SAFE = {"copy", "count", "index"}


def check(c):
    loops = {}
    for fn in functions(c):
        I = c.run(fn, boundary=())if fn.name == "__init__" else c.run(fn)
        for e in I.events:
            for x in e.loopctx:
                if x.live:
                    loops.setdefault(place(e, x), (fn, x))
            hit = changes(e)
            if hit is None:
                continue
            ident, key, what = hit
            for x in e.loopctx:
                if not x.live or ident not in x.live:
                    continue
                if key is not None and same_key(x, key, what, e):
                    continue
                on = b_and(e.guard, x.goes_on)
                c.ob("collection-unchanged-in-loop",
                     f"{e.pos[2]}:{show(ident, 3)}"[:90], not sat(on),
                     f"{what} {show(ident, 4)} while it is walked over, "
                     f"when {why(on)}", e.where())
    for k, (fn, x) in loops.items():
        c.ob("loops", str(k)[:90], True)
    c.need(len(loops), "loops over collections", 10)


def functions(c):
    """Every function and method of the package."""
    out, seen = [], set()
    for m in c.p.modules.values():
        for f in list(m.funcs.values()) + [
                f for k in m.classes.values() for f in k.all_funcs()]:
            if f.qual not in seen:
                seen.add(f.qual)
                out.append(f)
    return out


def place(e, x):
    n = x.node
    return (e.pos[0], getattr(n, "lineno", 0), getattr(n, "col_offset", 0))


def changes(e):
    """(identity, key or None, text) of a change of a collection's
    elements."""
    if e.kind == "mutate" and e.name not in SAFE:
        key = None
        if e.name in ("setdefault",) and e.args:
            key = e.args[0]
        return e.extra, key, f".{e.name}() changes"
    if e.kind == "setitem":
        return e.extra, e.args[0], "an assignment may add to"
    if e.kind == "delitem":
        return e.extra, None, "del removes from"
    if e.kind in ("setattr", "rawset"):
        return mk("attr", e.recv, "__dict__"), e.args[0], \
            "an assignment may add to"
    if e.kind in ("delattr", "rawdel"):
        return mk("attr", e.recv, "__dict__"), None, "a removal changes"
    if e.kind == "inplace" and e.name in ("Add", "BitOr", "Sub") and \
            e.args and e.args[0].op != "tup":
        return e.recv, None, "an in-place operation changes"


def same_key(x, key, what, e):
    """Does the assignment replace the value of an existing element?"""
    if x.term is None:
        return key.op == "const"
    E = mk("elem", x.term)
    if key is E or key.op == "idx" or key.op == "const" and isinstance(
            key.args[0], int):
        return True
    # protection flag and the like exist in every object
    if is_const(key, str) and key.args[0] in (
            "_protected", "_convention", "_read_only_attr"):
        return True
    if E in (key, ):
        return True
    return entails(e.guard, c_in(key, x.term.args[0]))
