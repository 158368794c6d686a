"""C08: a rejected addition leaves the object unchanged."""
from .base import *
from .c07 import can_fail, catches_all, misused

RULE = ("effect-before-failure ordering for add_variable and add_attribute: "
        "no explicit raise and no operation on the name, value, type or "
        "dimensions that can fail may follow (on a common path) a change of "
        "an entry, of the custom definitions or of the convention table, "
        "unless a handler or finally block on the way out takes the change "
        "back; no such change is made when the entry already exists")
TABLES = ("_custom", "_convention")
CHANGE = ("setattr", "rawset", "delattr", "rawdel", "setitem", "delitem",
          "mutate", "inplace")


def check(c):
    for name in ("Sofa.add_variable", "Sofa.add_attribute"):
        addition(c, c.func(name))
    rejections(c)


def rejections(c):
    """Additions that must not succeed."""
    fn = c.func("Sofa.add_variable")
    name, dtype, dims = [mk("param", n) for n in (
        "name", "dtype", "dimensions")]
    I = c.run(fn)
    attr, dbl, text = [N.c_eq(dtype, const(x)) for x in (
        "attribute", "double", "string")]
    var = b_or(dbl, text)
    for what, g in (
            ("an unknown type", b_not(b_or(attr, var))),
            ("a variable without dimensions", b_and(var, N.c_isnone(dims))),
            ("a variable with an underscore in its name",
             b_and(var, N.c_in(const("_"), name)))):
        g = b_and(I.normal, g)
        c.ob("invalid-addition-rejected", f"{q(fn)}:{what}", not sat(g),
             f"{q(fn)} accepts {what} when {why(g)}", fwhere(fn))
    fn = c.func("Sofa.add_attribute")
    so = mk("param", fn.node.args.args[0].arg)
    V = mk("sym", "V", "_.", ("GLOBAL", "Data"))
    A = mk("sym", "A", "_.", ())
    conv = mk("attr", so, "_convention")
    for what, n, ok in (
            ("an attribute without the form Variable_Attribute", A, FALSE),
            ("an attribute of a variable that does not exist", N.mk_cat(
                [N.P(V), N.P(const("_")), N.P(A)]), c_in(V, conv))):
        I = c.run(fn, {"name": n})
        g = b_and(I.normal, b_not(ok))
        c.ob("invalid-addition-rejected", f"{q(fn)}:{what}", not sat(g),
             f"{q(fn)} accepts {what} when {why(g)}", fwhere(fn))


def table(t, o):
    """The table of object o (or 'entry') that term t belongs to."""
    while t is not None and t.op in ("item", "meth"):
        t = t.args[1] if t.op == "meth" else t.args[0]
    if t is not None and t.op == "attr" and t.args[0] is o:
        if t.args[1] in TABLES:
            return t.args[1]
        if t.args[1] == "__dict__":
            return "entry"
    return None


def changes(I, o):
    """(event, table, key) of the changes of the object's content."""
    for e in I.events:
        if e.kind in ("setattr", "rawset", "delattr", "rawdel") and \
                e.recv is o:
            k = e.args[0]
            if k.op == "const" and str(k.args[0]).startswith("_"):
                if k.args[0] in TABLES and not empty(e):
                    yield e, k.args[0], k
                continue
            yield e, "entry", k
        elif e.kind in ("setitem", "delitem", "mutate", "inplace") and \
                e.recv is not None:
            T = table(e.recv, o)
            if T is None and e.recv.op == "dyn" and e.recv.args[0] is o:
                T = "entry"
            if T is not None:
                yield e, T, (e.args[0] if e.args else None)
        elif e.kind == "call" and e.recv is not None and e.name in (
                ".update", ".setdefault", ".pop", ".clear", ".popitem",
                ".__setitem__"):
            T = table(e.recv, o)
            if T is not None:
                yield e, T, (e.args[0] if e.args else None)


def empty(e):
    return e.kind in ("setattr", "rawset") and e.args[1].op == "bag" and \
        len(e.args[1].args) == 1


def removal(e):
    return e.kind in ("delattr", "rawdel", "delitem") or (
        e.kind == "call" and e.name in (".pop", ".__delitem__"))


def addition(c, fn):
    I = c.run(fn)
    par = [mk("param", a.arg) for a in fn.node.args.args]
    so, name = par[0], par[1]
    H = N.c_has(so, name)
    ch = list(changes(I, so))
    c.need(len(ch), f"changes made by {fn.qual}")
    for s, T, k in ch:
        g = b_and(s.guard, H)
        if removal(s) and (s.handler or s.final):
            continue
        c.ob("existing-entry-untouched", f"{q(fn)}:{T}:{s.kind}", not sat(g),
             f"{q(fn)} changes the {label(T)} although the entry exists "
             f"when {why(g)}", s.where())
    fails = [f for f in I.events if failing(I, f, so, par[1:])]
    c.need(len(fails), f"failures of {fn.qual}")
    for s, T, k in ch:
        if s.handler and removal(s):
            continue
        bad = None
        for f in fails:
            if f is s:
                continue
            again = [L for L in s.loops if L in f.loops]
            if f.seq < s.seq and not again:
                continue
            if absorbed(I, f):
                continue
            g = b_and(s.guard, f.guard)
            if f.kind == "raise" and f.handler and not others(I, f, s, so,
                                                              par[1:]):
                continue
            if not sat(g) or undone(I, s, T, k, f):
                continue
            if f.kind == "use" and not misused(I, f):
                continue
            bad = f
            break
        c.ob("no-failure-after-change", f"{q(fn)}:{T}:{s.kind}", bad is None,
             "" if bad is None else
             f"{q(fn)} changes the {label(T)} before {say(bad)} at "
             f"{bad.where()} can fail", s.where())


def others(I, f, s, o, par):
    """Is f (raised by a handler) caused by anything but the failing change
    s itself?"""
    for tc in s.trys:
        if tc.id in f.handler:
            return any(tc in x.trys and x.seq > s.seq and x is not f
                       and failing(I, x, o, par) for x in I.events)
    return True


def label(T):
    return {"entry": "entries", "_custom": "custom definitions",
            "_convention": "convention table"}[T]


def say(f):
    if f.kind in ("raise", "assert"):
        return f"the {f.kind} statement"
    if f.kind == "call":
        return f"the call of {f.name}"
    if f.kind == "use":
        return f"the use of {show(f.recv, 2)} ({f.name.strip('.')})"
    return f"{f.kind} of {show(f.args[0], 2)}"


def uses(t, par):
    return any(x in par for x in subterms(t))


def failing(I, f, o, par):
    if f.kind in ("raise", "assert"):
        return True
    if f.kind == "use":
        # the type is wrong (a loop over a string makes no difference)
        return f.recv in par or (f.recv.op == "elem" and uses(f.recv, par))
    if not can_fail(I, f, o):
        return False
    ts = list(f.args) + [v for _, v in f.kw] + (
        [f.recv] if f.recv is not None and f.recv is not o else [])
    return any(uses(t, par) for t in ts)


def undone(I, s, T, k, f):
    """Change s is taken back on the way out of the failure f."""
    if f.kind == "raise" and f.handler:
        # raised by a handler: what this handler (and its finally) did
        out = [u for u in I.events if set(u.handler) & set(f.handler)
               and u.seq < f.seq]
    else:
        out = [u for u in I.events if any(
            tc.id in u.handler and any(catches_all(h) for h in tc.handlers)
            or tc.id in u.final for tc in f.trys)]
    for u, T2, k2 in changes(I, s.recv if T == "entry" and s.kind in (
            "setattr", "rawset") else root(s.recv)):
        if u in out and T2 == T and k2 is k and removal(u):
            rest = b_and(b_and(s.guard, f.guard), b_not(u.guard))
            if not sat(rest) or all(a.op == "exc" for a in support(rest)):
                return True
    return False


def root(t):
    while t.op in ("item", "meth", "attr", "dyn"):
        t = t.args[1] if t.op == "meth" else t.args[0]
    return t
