"""C20: reported and written dimensions describe the current data."""
from .base import *
from .values import strip_str

RULE = ("freshness dataflow: the values of the tables _api, _dimensions and "
        "_convention are versioned by their assignments, verify is analysed "
        "in the context of its callers; every use of one of these tables "
        "in an operation that reports or writes dimensions must be "
        "dominated (condition implied) by an assignment in the same call, "
        "sizes must be computed from the entry of the current data, nothing "
        "may change data afterwards, and a call that ends normally must "
        "have sized every dimension and matched every shape")
# private attributes that are data of the user, not results of verify
DATA = {"_custom", "_protected", "_read_only_attr"}
TABLES = ("_api", "_dimensions", "_convention")


def check(c):
    for name in ("Sofa.get_dimension", "Sofa.list_dimensions",
                 "Sofa.inspect", "write_sofa"):
        fn = c.func(name)
        I = Interp(c.p, frozenset((INIT,)))
        I.versions = {}
        I.run(fn)
        c.functions |= I.functions
        c.events += len(I.events)
        c.runs += 1
        params = [a.arg for a in fn.node.args.args]
        o = mk("param", params[1 if name == "write_sofa" else 0])
        sets = fresh(c, fn, I, o)
        sized(c, fn, I, o, sets)
        unchanged(c, fn, I, o)
        if name.endswith("dimension") or name.endswith("dimensions"):
            complete(c, fn, I, o)
    reported(c)


def base(t):
    """(object, version) of a table's owner."""
    if t.op == "at":
        return t.args[0], t.args[1]
    return t, None


class Store:
    """table[key] = value under a condition, for each element of loops."""

    def __init__(s, key, value, guard, loops, e):
        s.key, s.value, s.guard = key, value, guard
        s.loops, s.e, s.seq = tuple(loops), e, e.seq

    def where(s):
        return s.e.where()


def stores(I, o, table):
    out = []

    def bag(t, e):
        if t.op == "bag":
            for p in t.args[1:]:
                if p.op == "p" and p.args[1] is not None:
                    out.append(Store(p.args[0], p.args[1],
                                     b_and(e.guard, N.p_guard(p)),
                                     tuple(e.loops) + tuple(N.p_loops(p)),
                                     e))

    for e in I.events:
        r = e.recv
        if r is None:
            continue
        mine = r.op == "attr" and r.args[1] == table and \
            base(r.args[0])[0] is o
        if e.kind == "setitem" and mine:
            out.append(Store(e.args[0], e.args[1], e.guard, e.loops, e))
        elif e.kind == "mutate" and e.name == "update" and mine:
            for t in e.args:
                bag(t, e)
            for k, v in e.kw or ():
                out.append(Store(const(k), v, e.guard, e.loops, e))
        elif e.kind in ("setattr", "rawset") and r is o and \
                e.args[0] is const(table):
            bag(e.args[1], e)
    return out


def fresh(c, fn, I, o):
    sets = {}
    for e in ev(I, ("setattr", "rawset")):
        if e.recv is o and is_const(e.args[0], str):
            n = e.args[0].args[0]
            sets[n] = b_or(sets.get(n, FALSE), e.guard)
    uses = []
    for e in I.events:
        ts = [t for t in list(e.args) + [e.recv] + [
            v for k, v in (e.kw or ())] if isinstance(t, Term)]
        uses.append((ts, e.guard, e.where()))
    for g, t, loops in I.returns:
        uses.append(([t], g, fwhere(fn)))
    found = set()
    for ts, g, where in uses:
        seen = set()
        for t in ts:
            for x in subterms(t):
                if x.op != "attr" or not isinstance(x.args[1], str) or \
                        not x.args[1].startswith("_") or x.args[1] in DATA \
                        or x.args[1].startswith("__") or x in seen:
                    continue
                seen.add(x)
                b, v = base(x.args[0])
                if b is not o:
                    continue
                found.add(x.args[1])
                done = sets.get(x.args[1], FALSE) if v is not None or \
                    x.args[1] not in TABLES else FALSE
                key = f"{q(fn)}:{x.args[1]}"
                if any(f.key == key for f in c.findings):
                    continue
                ok = entails(g, done)
                c.ob("computed-in-this-call", key, ok, "" if ok else
                     f"{q(fn)} uses {x.args[1]} of an earlier call when "
                     f"{why(b_and(g, b_not(done)))}", where)
    c.need(len(found & set(TABLES)), f"tables used by {q(fn)}")
    return sets


def sized(c, fn, I, o, sets):
    """Sizes are those of the entries of the object."""
    n = 0
    for e in stores(I, o, "_api"):
        n += 1
        k, v = e.key, e.value
        if v.op == "const":
            c.ob("fixed-size", f"{q(fn)}:{show(k)}",
                 k in (const("C"), const("I")) or not sat(e.guard),
                 f"the size of {show(k, 3)} is set to {show(v)}", e.where())
            continue
        own = [x for x in subterms(v) if x.op == "dyn" and x.args[0] is o]
        own += [x for x in subterms(v) if x.op == "attr" and x.args[0] is o
                and not str(x.args[1]).startswith("_")]
        c.ob("size-of-current-data", f"{q(fn)}:{show(k, 2)}"[:60],
             own or not sat(e.guard),
             f"the size of {show(k, 3)} is {show(v, 4)}, not the size of an "
             "entry", e.where())
        if k.op == "const":
            continue
        # the letter is a dimension of the entry that is measured
        keys = {x.args[1] for x in own if x.op == "dyn"}
        of = {x.args[0].args[1] for x in subterms(k) if x.op == "item"
              and x.args[1] is const("dimensions")
              and x.args[0].op == "item"}
        c.ob("size-of-own-dimension", f"{q(fn)}:{show(k, 2)}"[:60],
             not of or of <= keys or not sat(e.guard),
             f"the size of a dimension of {[show(x, 3) for x in of]} is "
             f"taken from {[show(x, 3) for x in keys]}", e.where())
        fixed = [x for x in subterms(v) if x.op == "item"
                 and x.args[0].op == "attr" and x.args[0].args[1] == "shape"
                 and x.args[1].op == "const"]
        c.ob("size-of-own-axis", f"{q(fn)}:{show(k, 2)}"[:60],
             not fixed or not sat(e.guard),
             "the size of every dimension is taken from the same axis",
             e.where())
    c.need(n, f"sizes computed by {q(fn)}")


def unchanged(c, fn, I, o):
    """No entry changes after it was measured."""
    first = min((e.seq for e in stores(I, o, "_api")), default=None)
    for e in ev(I, ("setattr", "delattr", "rawset", "rawdel")):
        if e.recv is not o or first is None or e.seq < first:
            continue
        k = e.args[0]
        if is_const(k, str) and k.args[0].startswith("_"):
            continue
        c.ob("measured-last", f"{q(fn)}:{show(k, 2)}"[:60],
             not sat(e.guard), f"{q(fn)} changes the entry {show(k, 3)} "
             "after the dimensions were computed", e.where())


def complete(c, fn, I, o):
    for d in "CIS":
        got = FALSE
        for e in stores(I, o, "_api"):
            if e.key is const(d) and not e.loops:
                got = b_or(got, e.guard)
        bad = b_and(I.normal, b_not(got))
        c.ob("sized-or-error", f"{q(fn)}:{d}", not sat(bad),
             f"{q(fn)} ends normally without sizes for the current data "
             f"when {why(bad)}", fwhere(fn))
    # an error of the operation itself is a ValueError
    for e in ev(I, ("raise",)):
        own = e.pos[2].rsplit(".", 1)[-1] == fn.name or not any(
            "verify" in str(x) for x in (e.pos[2], *(e.chain or ())))
        if own:
            n = str(e.name).rsplit(".", 1)[-1]
            c.ob("ValueError", f"{q(fn)}:{n}", n == "ValueError"
                 or not sat(e.guard),
                 f"{q(fn)} raises {n} for wrong data", e.where())
    # every variable has a matching shape
    groups = {}
    for e in stores(I, o, "_dimensions"):
        Ls = [L for L in e.loops if mk("elem", L) is e.key]
        if Ls:
            groups.setdefault(Ls[0].args[0], []).append((Ls[0], e))
    c.need(len(groups), f"shapes matched by {q(fn)}")
    for es in groups.values():
        bad = unmatched(I, o, es)
        c.ob("shapes-match-or-error", f"{q(fn)}:{show(es[0][0], 2)}"[:60],
             not sat(bad), f"{q(fn)} ends normally although the shape of a "
             "variable matches none of its dimensions when "
             f"{why(bad)}", es[0][1].where())


def unmatched(I, o, es):
    """Condition of a normal end with a variable without dimensions."""
    L = es[0][0]
    K = mk("elem", L)
    norm = I.normal
    if L.args[0].op == "attr" and L.args[0].args[1] == "_custom":
        norm = b_and(norm, N.c_has(o, const("_custom")))
    # what a normal end says about an element K of the loop
    hs = []
    for a in support(norm):
        if a.op == "exists" and a.args[0].args[0] is L.args[0] and \
                entails(norm, b_not(atom(a))):
            hs.append(N.rename_loop(a.args[0], L, g=N.g_of(a.args[1])))
    conv = [x for _, e in es for a in support(e.guard) for x in subterms(a)
            if x.op == "attr" and x.args[1] == "_convention"
            and base(x.args[0])[0] is o]
    if not conv:
        raise AnalysisError("dimensions of the convention")
    at = mk("at", o, 1)
    entry = b_and(b_not(c_isnone(t_item(t_item(
        conv[0], K), const("dimensions")))), b_not(
            N.c_starts(K, const("_"), "starts")))
    if L.args[0].op == "attr" and L.args[0].args[1] == "_custom":
        entry = b_and(entry, b_not(c_isnone(t_item(t_item(
            L.args[0], K), const("dimensions")))))
        for t in (mk("attr", at, "_custom"), mk("attr", o, "_custom")):
            entry = b_and(entry, c_in(K, t))
    entry = b_and(entry, c_in(K, conv[0]))
    path = b_and(norm, entry)
    for h in hs:
        path = b_and(path, b_not(h))
    got = FALSE
    lemmas = TRUE
    for L1, e in es:
        g = N.rename_loop(L1, L, g=e.guard)
        inner = [x for x in e.loops if x is not L1]
        for l in reversed(inner):
            g = unbroken(g, l, path)
            G = N.c_exists(l, g)
            # what is known of the same loop with other words
            for h in hs:
                for a in support(h):
                    if a.op == "exists" and \
                            a.args[0].args[0] is l.args[0]:
                        B = N.rename_loop(a.args[0], l,
                                          g=N.g_of(a.args[1]))
                        if not sat(b_and(path, b_and(B, b_not(g)))):
                            lemmas = b_and(lemmas, b_or(
                                b_not(atom(a)), G))
            g = G
        got = b_or(got, g)
    return b_and(b_and(path, lemmas), b_not(got))


def unbroken(g, L, path):
    """Without the condition that the loop goes on, if it is only left
    where g holds."""
    for a in list(support(g)):
        if a.op == "unbroken" and a.args[0] is L:
            g1 = cofactor(g, {a: True})
            b = N.g_of(a.args[1])
            if not sat(b_and(path, b_and(b, b_not(g1)))):
                g = g1
    return g


def reported(c):
    fn = c.func("Sofa.get_dimension")
    I = c.run(fn)
    names = [a.arg for a in fn.node.args.args]
    o, d = mk("param", names[0]), mk("param", names[1])
    api = mk("attr", o, "_api")
    for g, t, loops in I.returns:
        for ag, x in alts(t):
            gg = b_and(g, ag)
            while x.op == "call" and x.args[0] in ("builtins.int",):
                x = x.args[1]
            c.ob("size-of-the-dimension", q(fn),
                 x is t_item(api, d) or not sat(gg),
                 f"get_dimension returns {show(x, 4)} when {why(gg)}",
                 fwhere(fn))
    fn = c.func("Sofa.list_dimensions")
    I = c.run(fn)
    api = mk("attr", mk("param", fn.node.args.args[0].arg), "_api")
    shown = FALSE
    K = mk("sym", "dimension", "", ())
    for e in ev(I, ("call",), "builtins.print"):
        for x in e.args:
            for p in N.cat_parts(x) if x.op == "cat" else [x]:
                v = p.args[0] if p.op == "p" else p
                while v.op == "str":
                    v = v.args[0]
                Ls = list(N.p_loops(p) if p.op == "p" else ()) + list(e.loops)
                for L in Ls:
                    E = mk("elem", L)
                    if N.strip_iter(L.args[0]) is api and \
                            v is t_item(api, E):
                        g = b_and(e.guard, N.p_guard(p)
                                  if p.op == "p" else TRUE)
                        shown = b_or(shown, N.subst_g(g, {E: K}))
    bad = b_and(b_and(I.normal, c_in(K, api)), b_not(shown))
    c.ob("every-dimension-listed", q(fn), not sat(bad),
         f"list_dimensions leaves out a dimension when {why(bad)}",
         fwhere(fn))
    # the sizes in the file
    fn = c.func("write_sofa")
    I = c.run(fn)
    api = mk("attr", mk("param", fn.node.args.args[1].arg), "_api")
    es = list(ev(I, ("call",), ".createDimension"))
    c.need(len(es), "dimensions created by write_sofa")
    for e in es:
        d, v = e.arg(0, "dimname"), e.arg(1, "size")
        while v is not None and v.op == "call" and \
                v.args[0] == "builtins.int" and len(v.args) == 2:
            v = v.args[1]
        ok = d is not None and v is not None and (
            v is t_item(api, d) or v is t_item(api, strip_str(d)))
        c.ob("written-size", q(fn), ok or not sat(e.guard),
             "write_sofa creates a dimension of size "
             f"{show(v, 4) if v is not None else '?'}", e.where())
