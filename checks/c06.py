"""C06: protected objects refuse illegal changes."""
from .base import *
from .values import *

RULE = ("guarded effects of Sofa.__setattr__, Sofa.__delattr__ and "
        "Sofa.delete for an arbitrary name and value: under each reference "
        "condition (unknown name, read only entry, mandatory entry of a "
        "protected object) every path raises TypeError and has no effect on "
        "the object; under the complementary conditions the store or "
        "deletion covers every path with the given value; every function "
        "that installs a convention table refreshes the list of read only "
        "entries from that table")
CHANGES = ("setattr", "rawset", "delattr", "rawdel", "setitem", "delitem",
           "inplace", "mutate")


def check(c):
    setting(c)
    for name in ("Sofa.__delattr__", "Sofa.delete"):
        deleting(c, name)
    fresh(c)


def rooted(t, o):
    while t is not None:
        if t is o:
            return True
        if t.op in ("attr", "item", "dyn"):
            t = t.args[0]
        elif t.op == "meth":
            t = t.args[1]
        else:
            return False
    return False


def params(c, fn):
    a = [x.arg for x in fn.node.args.args]
    c.need(len(a), f"parameters of {fn.qual}", 2)
    return [mk("param", x) for x in a]


def flags(o, name, letter):
    f = t_item(t_item(mk("attr", o, "_convention"), name), const("flags"))
    return b_and(b_not(c_isnone(f)), c_in(const(letter), f))


def refused(c, I, fn, cond, what, o):
    """Under cond the operation raises TypeError and changes nothing."""
    if not sat(cond):
        return
    g = b_and(I.normal, cond)
    c.ob("refused", f"{q(fn)}:{what}", not sat(g),
         f"{q(fn)} accepts {what} of a protected object when {why(g)}",
         fwhere(fn))
    for gg, n, loops in I.escapes:
        if sat(b_and(gg, cond)):
            c.ob("refused-with-TypeError", f"{q(fn)}:{what}", n in (
                "TypeError", "builtins.TypeError", "sofa.TypeError"),
                 f"{q(fn)} raises {n} for {what}", fwhere(fn))
    for e in ev(I, CHANGES):
        if not rooted(e.recv, o):
            continue
        ok = not sat(b_and(e.guard, cond))
        c.ob("no-effect-when-refused", f"{q(fn)}:{what}:{e.kind}", ok,
             f"{q(fn)} changes {show(e.recv, 3)} although {what} is refused",
             e.where())


def setting(c):
    fn = c.func("Sofa.__setattr__")
    I = c.run(fn)
    so, name = params(c, fn)[:2]
    value = params(c, fn)[2]
    P = c_truth(t_attr(so, "_protected"))
    H = N.c_has(so, name)
    own = [mk("param", "x")]
    private = b_or(c_eq(name, const("protected")),
                   N.c_starts(name, const("_")))
    entry = b_and(b_not(private), b_not(class_names(I, so, name)))
    lists = [a for e in I.events for a in support(e.guard)
             if a.op == "in" and a.args[0] is name and a.args[1] is mk(
                 "attr", so, "_read_only_attr")]
    if lists:
        RO = atom(lists[0])
    else:
        RO = b_and(c_in(name, mk("attr", so, "_convention")),
                   flags(so, name, "r"))
    new = b_and(b_not(c_eq(name, const("protected"))),
                b_not(class_names(I, so, name)))
    refused(c, I, fn, b_and(b_and(P, new), b_not(H)),
            "assigning a new name", so)
    refused(c, I, fn, b_and(b_and(P, entry), b_and(H, RO)),
            "assigning a read only entry", so)
    want = b_and(entry, b_or(b_not(P), b_and(H, b_not(RO))))
    union = FALSE
    reason = []
    for e in I.events:
        st = None
        if e.kind in ("rawset", "setattr") and e.recv is so:
            st = e.args[0], e.args[1]
        elif e.kind == "setitem" and e.recv is mk("attr", so, "__dict__"):
            st = e.args[0], e.args[1]
        if st is None or not sat(b_and(e.guard, entry)):
            continue
        if st[0] is not name:
            if st[0].op == "const" and str(st[0].args[0]).startswith("_"):
                continue
            c.ob("stores-only-the-given-entry", f"{q(fn)}", False,
                 f"{show(st[0])} is changed when another entry is assigned",
                 e.where())
            continue
        p = Kept(lambda t: t is value)
        g = b_and(e.guard, entry)
        ok = all(p.ok(x, b_and(g, ag)) for ag, x in alts(st[1])
                 if sat(b_and(g, ag)))
        c.ob("stores-the-given-value", q(fn), ok,
             f"the value stored for an entry is {p.why}", e.where())
        if ok and not absorbed(I, e, I.normal):
            union = b_or(union, e.guard)
    rest = b_and(want, b_not(union))
    for e in ev(I, ("raise", "assert")):
        # a value that can not be stored
        rest = b_and(rest, b_not(e.guard)) if any(
            mentions(a, value) for a in support(e.guard)) else rest
    c.ob("legal-assignment-stores", q(fn), not sat(rest),
         f"an existing entry is not assigned when {why(rest)}", fwhere(fn))


def class_names(I, o, name):
    """Names of methods and properties (always attributes)."""
    g = FALSE
    for a in {a for e in I.events for a in support(e.guard)}:
        if a.op == "has" and a.args[1] is name and a.args[0] is not o:
            g = b_or(g, atom(a))
    return g


def mentions(t, x):
    return any(y is x for y in subterms(t))


def deleting(c, fname):
    fn = c.func(fname)
    I = c.run(fn)
    so, name = params(c, fn)[:2]
    P = c_truth(t_attr(so, "_protected"))
    H = N.c_has(so, name)
    entry = b_and(b_not(N.c_starts(name, const("_"))),
                  b_not(class_names(I, so, name)))
    M = flags(so, name, "m")
    # deletes by handing the name to Sofa.__delattr__, checked there
    handed = FALSE
    for e in ev(I, ("delattr",)):
        if e.recv is so and e.args[0] is name and not absorbed(
                I, e, I.normal) and fname != "Sofa.__delattr__" \
                and not sat(b_and(b_and(e.guard, P), b_not(
                    prot_at(I, e, so)))):
            handed = b_or(handed, e.guard)
    refused(c, I, fn, b_and(b_and(b_and(P, entry), b_and(H, M)),
                            b_not(handed)), "deleting a mandatory entry", so)
    want = b_and(b_and(H, entry), b_or(b_not(P), b_not(M)))
    want = b_and(want, b_not(handed))
    union = FALSE
    for e in ev(I, ("rawdel", "delattr")):
        if e.recv is so and e.args[0] is name and not absorbed(
                I, e, I.normal):
            union = b_or(union, e.guard)
    union = b_or(union, removals(c, I, mk("attr", so, "__dict__"), name))
    rest = b_and(want, b_not(union))
    c.ob("legal-deletion-removes", q(fn), not sat(rest),
         f"an entry is not deleted when {why(rest)}", fwhere(fn))
    cu = mk("attr", so, "_custom")
    K = b_and(N.c_has(so, const("_custom")), c_in(name, cu))
    conv = mk("attr", so, "_convention")
    for T, what in ((cu, "custom definitions"), (conv, "convention table")):
        rest = b_and(b_and(want, b_and(K, c_in(name, T))),
                     b_not(removals(c, I, T, name)))
        c.ob("definition-removed", f"{q(fn)}:{T.args[1]}", not sat(rest),
             f"the {what} keep a deleted custom entry when {why(rest)}",
             fwhere(fn))


def removals(c, I, T, name):
    """Condition under which key `name` is removed from mapping T."""
    u = FALSE
    for e in I.events:
        if e.kind == "delitem" and e.recv is T and e.args[0] is name or \
                e.kind == "call" and e.name == ".pop" and e.recv is T and \
                e.arg(0) is name:
            if not absorbed(I, e, I.normal):
                u = b_or(u, e.guard)
        elif e.kind in ("setattr", "rawset") and e.recv is T.args[0] and \
                e.args[0] is const(T.args[1]):
            # rebuilt without the name
            if not sat(c_in(name, e.args[1])):
                u = b_or(u, e.guard)
    return u


def fresh(c):
    n = 0
    for fn in c.entries():
        I = c.run(fn)
        sets = [e for e in ev(I, ("setattr", "rawset"))
                if e.args[0] is const("_convention")]
        ros = [e for e in ev(I, ("setattr", "rawset"))
               if e.args[0] is const("_read_only_attr")]
        for e in sets:
            if e.args[1].op == "bag" and len(e.args[1].args) == 1:
                continue                     # an empty table
            n += 1
            rest = b_and(e.guard, I.normal)
            for r in ros:
                if r.recv is e.recv and r.seq > e.seq and not r.loops:
                    if listing(built(I, r), e, r.guard):
                        rest = b_and(rest, b_not(r.guard))
            c.ob("read-only-list-follows-convention",
                 f"{q(fn)}:{e.pos[2]}", not sat(rest),
                 f"after {q(fn)} installed a convention the list of read "
                 f"only entries is the old one when {why(rest)}", e.where())
    used = any(a.op == "in" and a.args[1].op == "attr" and a.args[1].args[1]
               == "_read_only_attr" for e in c.run("Sofa.__setattr__").events
               for a in support(e.guard))
    if used:
        c.need(n, "assignments of convention tables")


def built(I, r):
    """The list assigned by r, with what is appended to it afterwards."""
    t = r.args[1]
    if t.op != "bag":
        return t
    at = mk("attr", r.recv, r.args[0].args[0])
    late = [e for e in ev(I, "mutate") if e.recv is at and e.seq > r.seq]
    if not late or any(e.name not in ("append", "add") for e in late):
        return t
    return mk("bag", *t.args, *[
        N.P(e.arg(0), e.guard, tuple(e.loops)) for e in late])


def listing(t, e, given):
    """Is t the list of all names the table flags read only?"""
    k = mk("param", "an entry name")
    o = e.recv
    conv = mk("attr", o, "_convention")
    for T in (conv, e.args[1]):
        spec = b_and(c_in(k, T), flags_in(T, k))
        got = c_in(k, t)
        if not sat(b_and(given, b_and(got, b_not(spec)))) and not sat(
                b_and(given, b_and(spec, b_not(got)))):
            return True
    return False


def flags_in(T, k):
    f = t_item(t_item(T, k), const("flags"))
    return b_and(b_not(c_isnone(f)), c_in(const("r"), f))
