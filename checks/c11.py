"""C11: looking at an object never changes its data."""
from .base import *
from .c08 import changes
from .c06 import flags

RULE = ("effect and alias analysis: for every operation that only looks at "
        "an object, each change of an entry and each operation that works "
        "in place on a value that may share memory with an entry (views, "
        "slices, results of functions that need not copy) is enumerated; "
        "none may be feasible, except that Sofa.verify may add the default "
        "of a missing mandatory entry if issues are not raised")
LOOKING = ("Sofa.verify", "Sofa.inspect", "Sofa.info", "Sofa.list_dimensions",
           "Sofa.get_dimension", "Sofa.copy", "Sofa.__repr__", "equals",
           "write_sofa")
# functions and methods whose result may be (a view of) their argument
NP_VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d",
            "atleast_2d", "atleast_3d", "squeeze", "reshape", "ravel",
            "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims",
            "broadcast_to", "require", "diagonal", "flip", "fliplr",
            "flipud", "rot90", "asfarray", "nan_to_num_", "split",
            "array_split", "broadcast_arrays", "real", "imag"}
METH_VIEWS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes",
              "diagonal", "values", "items", "get", "setdefault", "pop",
              "__getitem__"}
ATTR_VIEWS = {"T", "real", "imag", "flat", "base", "data"}
IN_PLACE = {".sort", ".fill", ".resize", ".put", ".partition", ".itemset",
            ".setflags", ".setfield", ".append", ".extend", ".insert",
            ".remove", ".pop", ".clear", ".reverse", ".update",
            ".setdefault", ".popitem", ".__setitem__", ".__delitem__",
            ".__iadd__", ".__imul__"}
NP_IN_PLACE = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask",
               "numpy.fill_diagonal", "numpy.put_along_axis",
               "numpy.random.shuffle", "random.shuffle",
               "operator.setitem", "operator.iadd", "operator.imul"}


def private(k):
    return k.op == "const" and (str(k.args[0]).startswith("_")
                                or k.args[0] == "protected")


def shares(t, o, d=0):
    """May the value of term t share memory with an entry of object o?"""
    if not isinstance(t, Term) or d > 12:
        return False
    op, a = t.op, t.args
    if op == "dyn":
        return same(a[0], o) and not private(a[1]) or shares(a[0], o, d + 1)
    if op == "attr":
        if same(a[0], o):
            return not a[1].startswith("_") and a[1] != "protected"
        return a[1] in ATTR_VIEWS and shares(a[0], o, d + 1)
    if op == "item":
        if table(a[0], o):
            return not private(a[1])
        if a[1].op == "const" and isinstance(a[1].args[0], int) and \
                isinstance(a[0], Term) and a[0].op in ("bag", "tup"):
            return any(shares(x, o, d + 1) for x in parts_of(a[0]))
        return shares(a[0], o, d + 1)
    if op == "elem":
        src = a[0].args[0]
        if src.op in ("values", "items"):
            return table(src.args[0], o) or shares(src.args[0], o, d + 1)
        if src.op == "meth" and src.args[0] in ("values", "items"):
            return table(src.args[1], o) or shares(src.args[1], o, d + 1)
        return any(shares(x, o, d + 1) for x in parts_of(src)) if src.op in (
            "bag", "tup") else shares(src, o, d + 1)
    if op == "phi":
        return any(shares(x, o, d + 1) for _, x in alts(t))
    if op == "meth":
        if a[0] == "astype":
            return keeps(t) and shares(a[1], o, d + 1)
        if a[0] in ("get", "pop", "setdefault", "__getitem__") and \
                table(a[1], o):
            return True
        return a[0] in METH_VIEWS and shares(a[1], o, d + 1)
    if op == "call":
        n = str(a[0])
        last = n.rsplit(".", 1)[-1]
        if n.startswith("numpy.") and last == "array":
            return keeps(t) and any(shares(x, o, d + 1) for x in a[1:2])
        if n.startswith("numpy.") and last in NP_VIEWS:
            return any(shares(x, o, d + 1) for x in a[1:])
        if n in ("builtins.getattr", "object.__getattribute__"):
            return len(a) > 1 and same(a[1], o)
        return n in ("builtins.iter", "builtins.reversed") and any(
            shares(x, o, d + 1) for x in a[1:])
    if op in ("fold", "carry", "sel"):
        return any(isinstance(x, Term) and x.op != "loop"
                   and shares(x, o, d + 1) for x in a)
    return False


def keeps(t):
    """copy=False (or not known) was asked for."""
    return any(isinstance(x, Term) and x.op == "kw" and x.args[0] == "copy"
               and x.args[1] is not const(True) for x in t.args)


def parts_of(t):
    return [p.args[0] if p.op in ("p", "u") else p for p in t.args
            if isinstance(p, Term)]


def same(t, o):
    """The object itself or a shallow copy of it (same values)."""
    while isinstance(t, Term) and t.op == "call" and t.args[0] == "copy.copy":
        t = t.args[1]
    return t is o


def table(t, o):
    return isinstance(t, Term) and (
        t.op == "attr" and t.args[1] == "__dict__" and same(t.args[0], o)
        or t.op == "call" and t.args[0] == "builtins.vars"
        and len(t.args) > 1 and same(t.args[1], o)
        or t.op in ("call", "meth") and str(t.args[0]) in (
            "copy.copy", "builtins.dict", "copy") and len(t.args) > 1
        and table(t.args[1], o))


def check(c):
    n = 0
    for name in LOOKING:
        fn = c.func(name)
        I = c.run(fn)
        par = [a.arg for a in fn.node.args.args]
        objs = [p for p in par if p in ("self",) or "sofa" in p.lower()]
        if fn.cls is None and name == "equals":
            objs = par[:2]
        c.need(len(objs), f"objects given to {name}")
        for p in objs:
            n += looking(c, fn, I, mk("param", p))
    c.need(n, "operations that read the entries of an object", 6)


def looking(c, fn, I, o):
    name = q(fn)
    for e, T, k in changes(I, o):
        if T != "entry" or k is not None and private(k):
            continue
        if not sat(e.guard):
            continue
        ok, text = adds_default(c, fn, I, e, o, k)
        c.ob("entries-untouched", f"{name}:{e.kind}:{e.pos[2]}", ok,
             f"{name} {text}", e.where())
    for e in I.events:
        t = None
        if e.kind in ("setitem", "delitem", "mutate", "inplace", "setattr",
                      "delattr", "rawset", "rawdel"):
            t = e.recv if e.recv is not o else None
        elif e.kind == "call" and e.name in IN_PLACE:
            t = e.recv
        elif e.kind == "call" and e.name in NP_IN_PLACE and e.args:
            t = e.args[0]
        elif e.kind == "call" and e.arg(99, "out") is not None:
            t = e.arg(99, "out")
            t = t if t.op != "tup" else t.args[0]
        if t is None or not shares(t, o):
            continue
        if e.kind == "inplace" and immutable(e, t):
            continue
        c.ob("values-untouched", f"{name}:{e.kind}:{e.pos[2]}",
             not sat(e.guard), f"{name} works in place on {show(t, 4)}, "
             "which may be the value of an entry", e.where())
    if name == "write_sofa":
        for e in ev(I, ("call",), (VERIFY,)):
            h = e.arg(1, "issue_handling")
            if e.recv is o and h is not None:
                c.ob("verified-without-additions", name, not sat(b_and(
                    e.guard, b_not(c_eq(h, const("raise"))))),
                    "write_sofa lets the verification add missing entries",
                    e.where())
    reads = sum(1 for e in I.events)
    c.ob("operation-looked-at", f"{name}:{show(o, 1)}", True)
    return reads > 0


def immutable(e, t):
    return any(entails(e.guard, N.c_isinst(t, mk("glob", n))) for n in (
        "builtins.str", "builtins.int", "builtins.float", "builtins.tuple"))


def adds_default(c, fn, I, e, o, k):
    """Is this change the addition of a missing mandatory entry?"""
    if e.kind not in ("setattr", "rawset") or k is None or fn.name != "verify":
        return False, f"changes an entry ({e.kind} of {show(k, 3)})"
    par = [a.arg for a in fn.node.args.args]
    mode = mk("param", par[1])
    g = b_and(e.guard, b_not(N.c_starts(k, const("_"))))
    if sat(b_and(g, c_in(k, mk("attr", o, "__dict__")))):
        return False, f"changes the existing entry {show(k, 3)}"
    if sat(b_and(g, c_eq(mode, const("raise")))):
        return False, "adds entries although issues are raised"
    if not entails(g, flags(o, k, "m")):
        return False, "adds entries that are not mandatory"
    want = t_item(t_item(mk("attr", o, "_convention"), k), const("default"))
    if not any(y is want for y in subterms(e.args[1])):
        return False, f"adds {show(k, 3)} with another value than its default"
    return True, ""
