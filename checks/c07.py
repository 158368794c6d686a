"""C07: no operation leaves the write protection switched off."""
from .base import *

RULE = ("typestate of the protection flag: for every public operation and "
        "every object whose flag it assigns, the flag-sensitive state at "
        "every normal exit must be 'protected' whenever the object was "
        "protected at the start (unconditionally for objects that are handed "
        "out), and every statement that can fail while the object is "
        "unprotected must lie in a try statement whose finally block or "
        "catch-all handler restores the flag")
STORE = ("setattr", "rawset")


def flag_events(I):
    for e in ev(I, STORE):
        if e.args and e.args[0] is const("_protected"):
            yield e


def final_state(I, o):
    k = (o.id, "_protected")
    if k in I.attrs:
        I.reach = I.normal
        return c_truth(I.read_alts(I.attrs[k]))
    return c_truth(I.attr_default(k))


def check(c):
    n = 0
    for fn in c.entries():
        if fn.name == "protected":
            continue
        I = c.run(fn)
        objs = {}
        for e in flag_events(I):
            objs.setdefault(e.recv, []).append(e)
        for o, sets in objs.items():
            n += 1
            one(c, fn, I, o, sets)
    c.need(n, "operations that change the protection")
    handed_out(c)


def one(c, fn, I, o, sets):
    if o.op != "param" or fn.name == "__init__":
        return                      # made here: see handed_out
    P0 = c_truth(I.attr_default((o.id, "_protected")))
    g = started(I, b_and(b_and(I.normal, P0), b_not(final_state(I, o))), o)
    c.ob("protected-at-return", f"{q(fn)}:{show(o, 2)}", not sat(g),
         f"{q(fn)} returns with the protection of {show(o, 2)} switched "
         f"off when {why(g)}", fwhere(fn))
    windows(c, fn, I, o, sets, P0)


def started(I, g, o):
    """The condition for an object that is protected at the start."""
    return N.subst_g(g, {I.attr_default((o.id, "_protected")): const(True)})


def windows(c, fn, I, o, sets, P0):
    seen = set()
    for e in I.events:
        if not can_fail(I, e, o) and not misused(I, e):
            continue
        off = b_and(b_and(e.guard, P0), b_not(prot_at(I, e, o)))
        off = started(I, off, o)
        if not sat(off):
            continue
        ok = restored(I, e, o, sets, off)
        key = f"{q(fn)}:{e.pos[2]}:{e.kind}:{e.name or ''}"
        c.ob("protected-at-failure", key, ok,
             f"if {describe(e)} fails, {q(fn)} leaves the protection of "
             f"{show(o, 2)} switched off when {why(off)}", e.where())


def misused(I, e):
    """A parameter of a wrong type is noticed here for the first time."""
    return e.kind == "use" and not any(
        u.kind == "use" and u.recv is e.recv and u.seq < e.seq
        and entails(e.guard, u.guard) for u in I.events)


def describe(e):
    if e.kind == "use":
        return f"the use of {show(e.recv, 2)} ({e.name.strip('.')})"
    if e.kind == "call":
        return f"the call of {e.name}"
    if e.kind in ("raise", "assert"):
        return f"the {e.kind} statement"
    return f"{e.kind} of {show(e.recv, 3)}[{show(e.args[0], 3)}]" \
        if e.recv is not None and e.args else e.kind


SURE = {"datetime.datetime.now", ".strftime", ".replace", ".upper",
        ".lower", ".split", ".rsplit", ".partition", ".join", ".strip",
        ".count", ".find", ".add", ".update", ".extend", ".sort",
        "builtins.sorted", "builtins.enumerate", "builtins.zip",
        "builtins.any", "builtins.all", "builtins.range",
        "builtins.dict.fromkeys", "builtins.issubclass", "builtins.super",
        "copy.copy", "builtins.object.__setattr__", "builtins.getattr"}
TABLES = ("_convention", "_custom", "__dict__")


def from_tables(t):
    """Is t (part of) a table that the package keeps or loads itself?"""
    while t is not None:
        if t.op == "attr" and t.args[1] in TABLES:
            return True
        if t.op == "call" and t.args[0] == "json.load" or t.op in (
                "bag", "ref", "fold", "carry"):
            return True
        if t.op == "attr" and t.args[1].startswith("_"):
            return True
        if t.op in ("item", "attr", "meth"):
            t = t.args[1] if t.op == "meth" else t.args[0]
        elif t.op == "elem":
            t = t.args[0].args[0]
        elif t.op == "phi":
            return all(from_tables(x) for _, x in alts(t))
        else:
            return False
    return False


def can_fail(I, e, o):
    if not fallible(e):
        return False
    if e.kind == "call":
        return e.name not in SURE and not e.name.startswith("platform.") \
            and not (e.name or "").endswith(("Error", "Exception", "Warning"))
    if e.kind in ("setattr", "setitem", "delitem", "getitem"):
        if e.kind == "setattr" and e.args[0] is const("_protected"):
            return False
        if e.kind == "setattr":
            v = e.args[1]
            return not (is_const(v) or from_tables(v) or v.op in (
                "str", "cat"))
        if e.kind == "getitem" and e.args[0].op == "slice":
            return False
        return not from_tables(e.recv)
    return True


def catches_all(types):
    return types is None or any(
        str(x).rsplit(".", 1)[-1] in ("Exception", "BaseException")
        for x in types)


def restored(I, e, o, sets, off):
    """Is the protection restored when the exception of e passes a finally
    block or the handlers of a try statement around it?"""
    for tc in e.trys:
        if tc.final:
            evs = [x for x in I.events if tc.id in x.final]
            if block_restores(I, evs, o, sets, off, tc.reach if tc.fex is
                              None else b_and(tc.reach, tc.fex)):
                return True
        good = 0
        for i, a, b, reach in tc.blocks:
            good += block_restores(I, I.events[a:b], o, sets, off, reach)
        if good and good == len(tc.blocks) and any(
                catches_all(h) for h in tc.handlers):
            return True
    return False


def block_restores(I, evs, o, sets, off, reach):
    for s in evs:
        if s not in sets or sat(b_and(off, started(I, b_not(c_truth(
                s.args[1])), o))):
            continue
        if not entails(reach, s.guard) and not entails(
                b_and(off, reach), s.guard):
            continue
        # nothing before it in the block may fail and nothing after it may
        # switch the protection off again
        if any(x.seq < s.seq and can_fail(I, x, o) for x in evs):
            continue
        if any(x.seq > s.seq and x in sets and sat(
                b_not(c_truth(x.args[1]))) for x in evs):
            continue
        return True
    return False


def handed_out(c):
    fn = c.func("Sofa.__init__")
    I = c.run(fn)
    so, conv = [mk("param", a.arg) for a in fn.node.args.args][:2]
    g = b_and(b_and(I.normal, b_not(c_isnone(conv))),
              b_not(final_state(I, so)))
    c.ob("new-objects-protected", q(fn), not sat(g),
         f"a new object for a convention is not protected when {why(g)}",
         fwhere(fn))
    for name in ("read_sofa", "read_sofa_as_netcdf"):
        fn = c.func(name)
        I = c.run(fn)
        n = 0
        for g, t, loops in I.returns:
            for ag, o in alts(t):
                gg = b_and(b_and(g, ag), b_and(I.normal, b_not(
                    final_state(I, o))))
                n += 1
                c.ob("read-objects-protected", name, not sat(gg),
                     f"{name} returns an object that is not protected when "
                     f"{why(gg)}", fwhere(fn))
        c.need(n, f"return values of {name}")
