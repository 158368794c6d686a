"""C13: Sofa objects never share mutable state."""
from .base import *
from .c11 import parts_of, METH_VIEWS, ATTR_VIEWS, NP_VIEWS

RULE = ("sharing analysis: mutable values that outlive a call (module and "
        "class level containers, default values of parameters, results of "
        "memoised functions, attributes of functions and classes) are "
        "tracked through all operations; none may be changed, become part of "
        "an object or be returned. Values put into a Sofa object must not "
        "share memory with another Sofa object, a copy must be deep, and "
        "functions that read the tables must not be memoised")
# calls whose result holds the same elements / shares memory
SHALLOW = {"copy.copy", "builtins.list", "builtins.dict", "builtins.tuple",
           "builtins.set", "builtins.sorted", "builtins.reversed",
           "builtins.iter", "builtins.zip", "builtins.enumerate",
           "builtins.vars", "itertools.chain", "builtins.next",
           "builtins.filter", "collections.ChainMap",
           "types.MappingProxyType", "builtins.getattr"}
CHANGES = ("mutate", "inplace", "setitem", "delitem", "setattr", "delattr",
           "rawset", "rawdel")
IMMUTABLE_ATTRS = {"shape", "size", "ndim", "dtype", "name", "isopen"}


def holders(t, d=0, depth=0):
    """Mutable long-lived values that t may be (a part of): (term, kind).

    depth: number of lookups that led from the value to t."""
    if not isinstance(t, Term) or d > 14:
        return
    op, a = t.op, t.args
    if op == "shared":
        if depth < a[1]:
            yield t
    elif op == "phi":
        for _, x in alts(t):
            yield from holders(x, d + 1, depth)
    elif op in ("item",):
        yield from holders(a[0], d + 1, depth + 1)
    elif op == "attr":
        if a[1] not in IMMUTABLE_ATTRS:
            yield from holders(a[0], d + 1, depth)
    elif op == "dyn":
        yield from holders(a[0], d + 1, depth + 1)
    elif op == "elem":
        yield from holders(a[0].args[0], d + 1, depth + 1)
    elif op in ("values", "items"):
        yield from holders(a[0], d + 1, depth)
    elif op == "meth":
        if a[0] in METH_VIEWS | {"copy", "popitem"}:
            # a shallow copy is new, what it holds is not
            new = a[0] == "copy"
            deref = a[0] in ("get", "pop", "setdefault", "__getitem__",
                             "popitem")
            for h in holders(a[1], d + 1, depth + deref):
                if not new or depth > 0:
                    yield h
    elif op == "call":
        n = str(a[0])
        if n in SHALLOW:
            for x in a[1:]:
                if depth > 0 or n in ("builtins.iter", "builtins.next",
                                      "builtins.vars", "builtins.getattr",
                                      "types.MappingProxyType"):
                    yield from holders(x, d + 1, depth)
        elif n.startswith("numpy.") and n.rsplit(".", 1)[-1] in NP_VIEWS:
            for x in a[1:2]:
                yield from holders(x, d + 1, depth)
    elif op in ("bag", "tup"):
        if depth > 0 or op == "tup":
            for x in parts_of(t):
                yield from holders(x, d + 1, max(depth - 1, 0))


def inside(t, d=0):
    """Long-lived values t is or contains."""
    yield from holders(t)
    if isinstance(t, Term) and d < 4:
        if t.op in ("bag", "tup"):
            for p in t.args:
                if isinstance(p, Term):
                    for x in p.args[:2] if p.op in ("p", "u") else [p]:
                        if isinstance(x, Term):
                            yield from inside(x, d + 1)
        elif t.op == "phi":
            for _, x in alts(t):
                yield from inside(x, d + 1)


def sofas(t, types, d=0):
    """Sofa objects t may share memory with."""
    if not isinstance(t, Term) or d > 14:
        return
    op, a = t.op, t.args
    if op == "param" or op == "new":
        if t in types or op == "new" and a[0] == "Sofa":
            yield t
    elif op == "phi":
        for _, x in alts(t):
            yield from sofas(x, types, d + 1)
    elif op in ("attr", "item", "dyn", "values", "items"):
        if op == "attr" and a[1] in IMMUTABLE_ATTRS:
            return
        yield from sofas(a[0], types, d + 1)
    elif op == "elem":
        # the names of entries are strings
        src = a[0].args[0]
        if src.op in ("values", "items") or src.op == "meth" and \
                src.args[0] in ("values", "items"):
            yield from sofas(src.args[0] if src.op != "meth"
                             else src.args[1], types, d + 1)
        elif src.op in ("bag", "tup"):
            for x in parts_of(src):
                yield from sofas(x, types, d + 1)
    elif op == "meth":
        if a[0] in METH_VIEWS:
            yield from sofas(a[1], types, d + 1)
        elif a[0] == "copy" and table_like(a[1]):
            yield from sofas(a[1], types, d + 1)
    elif op == "call":
        n = str(a[0])
        if n in SHALLOW or n.startswith("numpy.") and n.rsplit(
                ".", 1)[-1] in NP_VIEWS:
            for x in a[1:2]:
                yield from sofas(x, types, d + 1)
    elif op in ("bag", "tup"):
        for p in t.args:
            if isinstance(p, Term):
                for x in p.args[:2] if p.op == "p" else \
                        p.args[:1] if p.op == "u" else [p]:
                    if isinstance(x, Term):
                        yield from sofas(x, types, d + 1)


def table_like(t):
    return isinstance(t, Term) and (
        t.op == "attr" and t.args[1] in ("__dict__", "_convention",
                                         "_custom", "_api", "_dimensions")
        or t.op == "call" and str(t.args[0]) == "builtins.vars")


def constants(t):
    """Items of the tables that are strings or flags, not containers."""
    return isinstance(t, Term) and t.op == "item" and t.args[1].op == \
        "const" and t.args[1].args[0] in ("type", "flags", "dimensions",
                                          "creation", "comment")


def analyse(c, fn):
    own = f"{fn.cls.name}.{fn.name}" if fn.cls else fn.name
    I = Interp(c.p, frozenset({VERIFY, INIT}) - {own})
    I.share = True
    I.run(fn)
    c.functions |= I.functions
    c.events += len(I.events)
    c.runs += 1
    return I


def name_of(h):
    return str(h.args[0])


def check(c):
    n = 0
    for fn in c.entries():
        I = analyse(c, fn)
        w = q(fn)
        n += changes(c, I, w)
        n += stores(c, I, fn, w)
        returned(c, I, fn, w)
        lasting(c, I, w)
    c.need(n, "stores into objects", 5)
    copies(c)
    memoised(c)


def changes(c, I, w):
    n = 0
    mutable = class_level(c)
    for e in I.events:
        if e.kind not in CHANGES or e.recv is None:
            continue
        n += 1
        hs = {name_of(h) for h in holders(e.recv)}
        for h in sorted(hs):
            c.ob("long-lived value changed", f"{h}", not sat(e.guard),
                 f"{w} changes {h}, which all objects and calls share",
                 e.where())
        # globals that are assigned in functions
        g = base_glob(c, e.recv)
        if g is not None and e.kind not in ("setattr", "delattr"):
            c.ob("long-lived value changed", g, not sat(e.guard),
                 f"{w} changes the module level value {g}", e.where())
        r = e.recv
        if e.kind in ("setattr", "delattr") and (
                r.op in ("cls", "fn", "bm") or r.op == "attr"
                and r.args[1] == "__class__" or r.op == "call"
                and r.args[0] == "builtins.type" or g is not None
                or r.op == "glob" and str(r.args[0]).startswith("sofar")):
            c.ob("state kept between calls", f"{show(r, 3)}",
                 not sat(e.guard), f"{w} stores state in {show(r, 3)}",
                 e.where())
        if e.kind in ("mutate", "inplace", "setitem", "delitem"):
            x = r
            while x.op == "item":
                x = x.args[0]
            if x.op == "attr" and x.args[0].op in ("param", "new", "call") \
                    and x.args[1] in mutable and not owned(I, e, x):
                c.ob("long-lived value changed", f"{x.args[1]}",
                     not sat(e.guard), f"{w} changes {x.args[1]} in place, "
                     "which may still be the value of the class that all "
                     "objects share", e.where())
    c.ob("changes", w, True)
    return n


def base_glob(c, t):
    while isinstance(t, Term) and t.op in ("item", "attr"):
        t = t.args[0]
    if isinstance(t, Term) and t.op == "glob":
        d = str(t.args[0])
        m, _, n = d.rpartition(".")
        k = c.p.modules.get(m)
        if k is not None and n in top_names(k):
            return d
    return None


def top_names(m):
    import ast
    out = set()
    for n in m.tree.body:
        for x in ast.walk(n) if not isinstance(
                n, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def class_level(c):
    """Mutable class attributes of the public classes."""
    from sflow.interp import mutable_depth
    out = set()
    for n in c.public_names():
        o = c.p.public(n)
        if hasattr(o, "methods"):
            out |= {k for k, v in o.attrs.items()
                    if mutable_depth(v, o.mod)}
    return out


def owned(I, e, x):
    """The object got its own value before event e, on all its paths."""
    g = FALSE
    for s in I.events:
        if s.seq < e.seq and s.kind in ("setattr", "rawset") and \
                s.recv is x.args[0] and s.args[0] is const(x.args[1]):
            g = b_or(g, s.guard)
    g = b_or(g, N.c_in(const(x.args[1]), mk("attr", x.args[0], "__dict__")))
    return not sat(b_and(e.guard, b_not(g)))


def stores(c, I, fn, w):
    """Values that become part of objects."""
    par = [a.arg for a in fn.node.args.args]
    types = {mk("param", p) for p in par if p == "self" and fn.cls and
             fn.cls.name == "Sofa" or fn.cls is None and "sofa" in p.lower()}
    n = 0
    for e in I.events:
        if e.kind in ("setattr", "rawset", "setitem") and len(e.args) > 1:
            vals = [e.args[1]]
        elif e.kind == "mutate" and e.name in (
                ".update", ".append", ".extend", ".setdefault", ".insert",
                ".__setitem__", ".add", "update", "append", "extend",
                "setdefault", "insert", "__setitem__", "add"):
            vals = list(e.args) + [v for _, v in e.kw]
        else:
            continue
        if e.recv is None:
            continue
        to = set(sofas(e.recv, types))
        if not to:
            continue
        for v in vals:
            if not isinstance(v, Term):
                continue
            n += 1
            for h in sorted({name_of(h) for h in inside(v)}):
                c.ob("long-lived value stored", h, not sat(e.guard),
                     f"{w} makes {h}, which outlives the call, part of an "
                     "object", e.where())
            other = [] if constants(v) else [
                s for s in sofas(v, types) if s not in to]
            c.ob("separate objects", f"{w}-{e.pos[2]}", not other or not sat(
                e.guard), f"{w} makes data of another object ("
                f"{show(v, 3)}) part of {show(e.recv, 2)}", e.where())
    return n


def returned(c, I, fn, w):
    for g, t, _ in I.returns:
        for h in sorted({name_of(h) for h in inside(t)}):
            c.ob("long-lived value returned", f"{w}-{h}", not sat(g),
                 f"{w} returns {h}, which later calls use again", w)
    c.ob("returns", w, True)


def lasting(c, I, w):
    for e in I.events:
        if e.kind == "setglobal":
            c.ob("state kept between calls", e.name, not sat(e.guard),
                 f"{w} assigns the module level name {e.name}", e.where())


def copies(c):
    for name in ("Sofa.copy", "Sofa.__copy__", "Sofa.__deepcopy__"):
        cls = c.p.public("Sofa")
        if name != "Sofa.copy" and name.split(".")[1] not in cls.methods:
            continue
        fn = c.func(name)
        I = analyse(c, fn)
        o = mk("param", "self")
        ok = False
        for g, t, _ in I.returns:
            if not sat(g):
                continue
            bad = None
            for _, x in alts(t):
                ok = True
                if x.op == "call" and x.args[0] == "copy.deepcopy" and \
                        x.args[1] is o and len(x.args) == 2 and \
                        name == "Sofa.copy":
                    full = filled(I, x, o, True)
                    c.ob("deep copy", name, full is None, f"{name}: {full}",
                         fwhere(fn))
                    continue
                if x is o or o in set(sofas(x, {o})):
                    bad = x
                    continue
                # a new object that is filled
                full = filled(I, x, o)
                if full is not None:
                    bad = x
                    c.ob("deep copy", name, False, f"{name}: {full}",
                         fwhere(fn))
            c.ob("deep copy", name, bad is None, f"{name} returns "
                 f"{show(bad, 3) if bad is not None else ''}, which shares "
                 "data with the object", fwhere(fn))
        c.ob("copy", name, ok, f"{name} returns no object", fwhere(fn))


def plain(v):
    """Values that can not be changed: flags and global attributes."""
    return v.op == "attr" and (str(v.args[1]) in ("_protected", "protected")
                               or str(v.args[1]).startswith("GLOBAL_"))


def filled(I, new, o, got=False):
    """Why the data put into object new would be shared with o (or None)."""
    for e in I.events:
        if e.recv is None or not sat(e.guard):
            continue
        if e.kind not in ("setattr", "rawset", "mutate", "setitem"):
            continue
        r = e.recv
        while r.op in ("attr", "item") and r is not new:
            r = r.args[0]
        if r is not new:
            continue
        got = True
        for v in e.args:
            if isinstance(v, Term) and o in set(sofas(v, {o})) and \
                    not constants(v) and not plain(v):
                return f"{show(v, 3)} becomes part of the copy"
    return None if got else "the copy does not get the data of the object"


READS = ("json.load", "json.loads", "os.listdir", "glob.glob",
         "os.scandir", "os.walk", "builtins.open")


def memoised(c):
    seen = 0
    for m in c.p.modules.values():
        for fn in all_functions(m):
            seen += 1
            if not any(d.split(".")[-1] in ("lru_cache", "cache",
                                            "cached_property", "memoize")
                       for d in fn.decorators):
                continue
            I = Interp(c.p, frozenset({VERIFY, INIT}))
            try:
                I.run(fn)
            except AnalysisError:
                pass
            read = [e for e in I.events if e.kind == "call" and (
                e.name in READS or e.name.split(".")[-1] in (
                    "read_text", "iterdir", "rglob"))]
            c.ob("memoised", fn.qual, not read,
                 f"{fn.qual} is memoised although its result depends on "
                 "files: later objects get the table of an earlier call",
                 fwhere(fn))
    c.ob("memoised", "none", seen > 0)


def all_functions(m):
    yield from m.funcs.values()
    for k in m.classes.values():
        yield from k.all_funcs()
