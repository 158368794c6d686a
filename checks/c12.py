"""C12: equals reports identity only for identical content."""
from .base import *
from sflow.interp import catches
from .values import Prov, kwargs

RULE = ("equals is analysed for each documented value of exclude: the "
        "condition under which it returns True must imply, for an arbitrary "
        "entry that is not excluded, that both objects have it, that its "
        "kinds agree, that attributes are equal and that for variables a "
        "comparison of the shapes and of all values of both objects was "
        "passed; the condition may only refer to entries that are not "
        "excluded, not to verbose and not to assert statements")
MODES = {None: None, "GLOBAL": "GLOBAL", "ATTR": "ATTR", "DATE": "DATE"}
T = "numpy.testing."
# comparisons that raise AssertionError / that return the verdict, and the
# position of the limits
RAISING = {T + "assert_allclose": ("rtol", "atol"),
           T + "assert_array_equal": (), T + "assert_equal": (),
           T + "assert_array_almost_equal": ("decimal",),
           T + "assert_almost_equal": ("decimal",)}
BOOLEAN = {"numpy.allclose": ("rtol", "atol"), "numpy.array_equal": (),
           "numpy.array_equiv": ()}
ELEMENT = {"numpy.isclose": ("rtol", "atol"), "numpy.equal": ()}
BROADCASTS = {T + "assert_allclose", T + "assert_array_equal",
              T + "assert_equal", T + "assert_array_almost_equal",
              T + "assert_almost_equal", "numpy.allclose",
              "numpy.array_equiv", "numpy.isclose", "numpy.equal"}
LIMIT = {"rtol": 1e-5, "atol": 1e-8}


class Same(Prov):
    """All values of an entry, in any shape without single dimensions."""

    def __init__(self, base, text):
        super().__init__(base, text)
        self.squeezed = False

    def ok(self, t, g=TRUE, depth=0):
        flat = None
        if t.op == "call" and t.args[0] in ("numpy.squeeze", "numpy.ravel"):
            pos, kw = kwargs(t)
            if len(pos) == 1 and not kw:
                flat = pos[0]
        elif t.op == "meth" and t.args[0] in ("squeeze", "ravel", "flatten"):
            if len(t.args) == 2:
                flat = t.args[1]
        elif t.op == "meth" and t.args[0] == "reshape" and \
                t.args[2:] == (const(-1),):
            flat = t.args[1]
        if flat is not None:
            self.squeezed = True
            return self.ok(flat, g, depth + 1)
        return super().ok(t, g, depth)


def shape_of(t):
    """The term whose shape t is."""
    if t.op == "attr" and t.args[1] == "shape":
        return t.args[0]
    if t.op == "call" and t.args[0] == "numpy.shape" and len(t.args) == 2:
        return t.args[1]
    return None


class Pair:
    """What a comparison of two terms compares."""

    def __init__(self, x, y, A, B, K, text):
        self.kind = None
        self.why = f"{show(x, 4)} and {show(y, 4)}"
        sx, sy = shape_of(x), shape_of(y)
        if (sx is None) != (sy is None):
            return
        ux, uy = (x, y) if sx is None else (sx, sy)
        for P_, Q in ((A, B), (B, A)):
            p = Same(lambda t: t is N.t_dyn(P_, K), text)
            q = Same(lambda t: t is N.t_dyn(Q, K), text)
            if p.ok(ux) and q.ok(uy):
                self.kind = "values" if sx is None else "shape"
                self.squeezed = p.squeezed and q.squeezed
                return
            w = p.why or q.why
            if w and (p.why is None) != (q.why is None):
                self.why = w


def limits(c, name, pos, kw, names):
    for i, n in enumerate(names):
        v = kw.get(n) or (pos[2 + i] if len(pos) > 2 + i else None)
        if v is None:
            continue
        if v.op != "const" or not isinstance(v.args[0], (int, float)):
            return f"{n} = {show(v)}"
        if n == "decimal":
            if v.args[0] < 6:
                return f"only {v.args[0]} decimals"
        elif v.args[0] > LIMIT[n]:
            return f"{n} = {v.args[0]}"
    return None


def element(L, A, B):
    """The objects whose entries a loop runs over (directly)."""
    return [o for o in (A, B) if L.args[0] is mk("attr", o, "__dict__")]


def onto_key(t_or_g, loops, K, g):
    m = {mk("elem", L): K for L in loops}
    return (N.subst_g(t_or_g, m) if g else N.subst(t_or_g, m))


class Model:
    """One analysis of equals, for one value of exclude."""

    def __init__(self, c, fn, mode):
        self.c, self.fn, self.mode = c, fn, mode
        par = [a.arg for a in fn.node.args.args]
        c.need(len(par), "parameters of equals", 2)
        self.A, self.B = mk("param", par[0]), mk("param", par[1])
        args = {p: mk("param", p) for p in par}
        c.need("exclude" in par, "parameter exclude of equals")
        args["exclude"] = const(mode)
        self.verbose = args.get("verbose")
        self.I = c.run(fn, args, types={par[0]: "Sofa", par[1]: "Sofa"})
        self.K = mk("param", "entry")
        self.dict = {o: mk("attr", o, "__dict__") for o in (self.A, self.B)}
        self.has = {o: N.c_in(self.K, d) for o, d in self.dict.items()}
        self.R = FALSE
        for g, t, _ in self.I.returns:
            self.R = b_or(self.R, b_and(g, c_truth(t)))

    def kind(self, o):
        return N.t_item(N.t_item(N.t_attr(o, "_convention"), self.K),
                        const("type"))

    def keep(self, o):
        """The entry is compared (not private and not excluded)."""
        g = b_not(N.c_starts(self.K, const("_")))
        if self.mode == "GLOBAL":
            g = b_and(g, b_not(N.c_starts(self.K, const("GLOBAL_"))))
        elif self.mode == "ATTR":
            g = b_and(g, b_not(N.c_eq(self.kind(o), const("attribute"))))
        elif self.mode == "DATE":
            g = b_and(g, b_not(N.c_in(const("Date"), self.K)))
        return g

    def inst(self, g, stop=None):
        """A condition in loops over the entries, for the entry K; the
        condition that the loop has not been left before becomes the
        (stronger) one that it is not left for any entry."""
        g = unbroken(g, stop)
        Ls = [L for L in loops_of(g) if element(L, self.A, self.B)]
        return onto_key(g, Ls, self.K, True), Ls

    def member(self, X, d=0):
        """Condition that the entry is in a collection, or None."""
        X = N.strip_iter(X)
        if X.op == "bag" or X in self.dict.values():
            return self.inst(N.c_in(self.K, X))[0]
        if X.op == "bin" and len(X.args) == 3 and d < 5:
            a, b = self.member(X.args[1], d + 1), self.member(X.args[2], d + 1)
            if a is None or b is None:
                return None
            return {"Sub": b_and(a, b_not(b)), "BitAnd": b_and(a, b),
                    "BitOr": b_or(a, b),
                    "BitXor": b_ite(a, b_not(b), b)}.get(X.args[0])
        if X.op == "meth" and len(X.args) == 3 and d < 5:
            op = {"difference": "Sub", "intersection": "BitAnd",
                  "union": "BitOr",
                  "symmetric_difference": "BitXor"}.get(X.args[0])
            return op and self.member(mk("bin", op, *X.args[1:]), d + 1)
        return None

    def lemmas(self, f):
        """Facts about the entry K that follow from the conditions of f."""
        out = TRUE
        for a in support(f):
            if a.op == "exists":
                L, g = a.args[0], N.g_of(a.args[1])
                m = self.member(L.args[0])
                if m is None:
                    continue
                g = onto_key(unbroken(g), [L], self.K, True)
                g = self.inst(g)[0]
                out = b_and(out, b_implies(b_and(m, g), atom(a)))
            elif a.op == "eq":
                ms = [self.member(x) if isinstance(x, Term) else None
                      for x in a.args]
                if ms[0] is not None and ms[1] is not None:
                    out = b_and(out, b_implies(
                        atom(a), b_and(b_implies(ms[0], ms[1]),
                                       b_implies(ms[1], ms[0]))))
                elif ms[0] is not None and a.args[1] in (
                        mk("bag", "set"), const(())):
                    out = b_and(out, b_implies(atom(a), b_not(ms[0])))
                for x, y in (a.args, a.args[::-1]):
                    if isinstance(x, Term) and x.op == "len" and \
                            y is const(0):
                        m = self.member(x.args[0])
                        if m is not None:
                            out = b_and(out, b_implies(atom(a), b_not(m)))
            elif a.op in ("truth", "nonempty"):
                m = self.member(a.args[0])
                if m is not None:
                    out = b_and(out, b_implies(m, atom(a)))
            for x in subterms(a):
                if x.op == "meth" and x.args[0] in (
                        "issubset", "issuperset") and len(x.args) == 3:
                    ms = [self.member(y) for y in x.args[1:]]
                    if None in ms:
                        continue
                    if x.args[0] == "issuperset":
                        ms = ms[::-1]
                    out = b_and(out, b_implies(
                        c_truth(x), b_implies(*ms)))
        return out

    def same_number(self):
        """The verdict needs the same number of compared entries."""
        for a in support(self.R):
            if a.op == "eq" and all(isinstance(x, Term) and x.op == "len"
                                    for x in a.args):
                x, y = [N.strip_iter(z.args[0]) for z in a.args]
                if not entails(self.R, atom(a)):
                    continue
                mx, my = self.member(x), self.member(y)
                for o, p in ((self.A, self.B), (self.B, self.A)):
                    if mx is not None and my is not None and \
                            same_g(mx, self.listed(o)) and \
                            same_g(my, self.listed(p)):
                        return True
        return False

    def listed(self, o):
        return b_and(self.has[o], self.keep(o))


def same_g(a, b):
    return entails(a, b) and entails(b, a)


def unbroken(g, value=None):
    for a in support(g):
        if a.op == "unbroken":
            v = b_not(N.c_exists(a.args[0], N.g_of(a.args[1]))) \
                if value is None else value
            g = b_or(b_and(v, cofactor(g, {a: True})),
                     b_and(b_not(v), cofactor(g, {a: False})))
    return g


def loops_of(g):
    return sorted(N.fl_g(g), key=lambda L: L.id)


def check(c):
    fn = c.func("equals")
    n = 0
    for mode in MODES:
        m = Model(c, fn, mode)
        n += verdict(c, m)
        exclusion(c, m)
        failing(c, m)
        if mode is None:
            configuration(c, m)
    c.need(n, "comparisons of values")


def verdict(c, m):
    A, B, K = m.A, m.B, m.K
    w = fwhere(m.fn)
    tag = f"exclude={m.mode!r}"
    R = m.R
    c.ob("may be identical", f"{m.mode}", sat(R),
         f"equals never returns True with {tag}", w)
    R = b_and(R, m.lemmas(R))
    f = {}
    for o, p in ((A, B), (B, A)):
        g = b_and(b_and(R, m.listed(o)), b_not(m.listed(p)))
        f[o] = g
    ok = {o: not sat(g) for o, g in f.items()}
    if any(ok.values()) and not all(ok.values()) and m.same_number():
        ok = {A: True, B: True}
    for o in (A, B):
        c.ob("same entries", f"{m.mode}-{o.args[0]}", ok[o],
             f"with {tag}, equals can return True although {o.args[0]} has "
             "an entry that the other object does not have", w)
    both = b_and(b_and(R, m.listed(A)), m.listed(B))
    ka, kb = m.kind(A), m.kind(B)
    attr_a, attr_b = (N.c_eq(k, const("attribute")) for k in (ka, kb))
    g = b_and(both, b_not(N.c_eq(ka, kb)))
    kinds = [const(x) for x in ("attribute", "double", "string")]
    known = TRUE
    for k in (ka, kb):
        x = FALSE
        for y in kinds:
            x = b_or(x, N.c_eq(k, y))
        known = b_and(known, x)
    both = b_and(both, known)
    diff = FALSE
    for x in kinds:
        for y in kinds:
            if x is not y:
                diff = b_or(diff, b_and(N.c_eq(ka, x), N.c_eq(kb, y)))
    c.ob("same kind", f"{m.mode}", not sat(b_and(both, diff)),
         f"with {tag}, equals can return True although the types of an entry "
         "differ", w)
    if m.mode != "ATTR":
        c.ob("equal attributes", f"{m.mode}", not sat(b_and(b_and(
            both, b_and(attr_a, attr_b)), b_not(N.c_eq(
                N.t_dyn(A, K), N.t_dyn(B, K))))),
            f"with {tag}, equals can return True although the values of an "
            "attribute differ", w)
    n = 0
    for kind in ("double", "string"):
        g = b_and(both, b_and(N.c_eq(ka, const(kind)),
                              N.c_eq(kb, const(kind))))
        n += variables(c, m, kind, g, tag, w)
    return n


def inst_event(m, e, stop=None, passed=False):
    """The guard and arguments of an event for the entry K; passed: the
    event did not raise."""
    Ls = [L for L in e.loops if element(L, m.A, m.B)]
    x = e.guard
    if passed:
        for tc in e.trys:
            if tc.atom is not None:
                x = b_and(x, b_not(tc.atom))
    x = m.inst(x, stop)[0]
    Ls = list(dict.fromkeys(Ls + [L for L in loops_of(e.guard)
                                  if element(L, m.A, m.B)]))
    for a in list(e.args):
        if isinstance(a, Term):
            Ls += [L for L in N.fl(a) if L not in Ls
                   and element(L, m.A, m.B)]
    sub = {mk("elem", L): m.K for L in Ls}
    # elements of a derived collection (set, list) of the keys
    facts = TRUE
    for L in e.loops:
        mem = m.member(L.args[0])
        if mem is not None:
            sub[mk("elem", L)] = m.K
            facts = b_and(facts, mem)
    return (b_and(N.subst_g(x, sub), facts), [N.subst(a, sub) if isinstance(a, Term)
                                else a for a in e.args],
            {k: N.subst(v, sub) for k, v in dict(e.kw or ()).items()
             if isinstance(v, Term)})


def verdict_terms(m, g):
    """Boolean comparisons g depends on: (condition, name, pos, kw)."""
    seen = set()
    for a in support(g):
        for x in subterms(a):
            if x.op == "call" and x not in seen and isinstance(
                    x.args[0], str):
                seen.add(x)
                if x.args[0] in BOOLEAN:
                    pos, kw = kwargs(x)
                    yield c_truth(x), x.args[0], pos, kw
                elif x.args[0] in ("numpy.all", "builtins.all"):
                    y = x.args[1]
                    if y.op == "call" and y.args[0] in ELEMENT:
                        pos, kw = kwargs(y)
                        yield c_truth(x), y.args[0], pos, kw
            elif x.op == "meth" and x.args[0] == "all" and \
                    len(x.args) == 2 and x not in seen:
                seen.add(x)
                y = x.args[1]
                if y.op == "call" and y.args[0] in ELEMENT:
                    pos, kw = kwargs(y)
                    yield c_truth(x), y.args[0], pos, kw
        if a.op == "eq" and a not in seen and all(
                isinstance(x, Term) and shape_of(x) is not None
                for x in a.args):
            seen.add(a)
            yield atom(a), "==", list(a.args), {}


def reads_masks(m, ts):
    """The terms depend on the masks of the entry of both objects."""
    both = [N.t_dyn(P_, m.K) for P_ in (m.A, m.B)]
    seen = set()
    for t in ts:
        for x in subterms(t):
            if (x.op == "call" and str(x.args[0]).startswith("numpy.ma.")) \
                    or (x.op == "attr" and x.args[1] == "mask"):
                inner = set(subterms(x))
                seen |= {b for b in both if b in inner}
    return len(seen) == 2


def variables(c, m, kind, g, tag, w):
    """On g (True was returned, both have the entry with this kind) the
    values and shapes have been compared."""
    done = {"values": FALSE, "shape": FALSE}
    bad = []
    n = 0
    found = []
    for e in m.I.events:
        if e.kind == "call" and e.name in RAISING:
            eg, args, kw = inst_event(m, e, passed=True)
            found.append((eg, e.name, args, kw, e.where()))
    for cond, name, pos, kw in verdict_terms(m, g):
        found.append((cond, name, pos, kw, w))
    for cond, name, pos, kw, where in found:
        if len(pos) < 2 or not sat(b_and(g, cond)):
            continue
        n += 1
        if reads_masks(m, pos[:2]):
            continue
        p = Pair(pos[0], pos[1], m.A, m.B, m.K, kind == "string")
        if p.kind is None:
            bad.append(p.why)
            continue
        names = RAISING.get(name) or BOOLEAN.get(name) or ELEMENT.get(
            name) or ()
        lim = limits(c, name, pos, kw, names)
        c.ob("tolerance", f"{m.mode}-{kind}-{name}", lim is None,
             f"{name} accepts different values of {kind} variables: {lim}",
             where)
        c.ob("single dimensions", f"{m.mode}-{kind}-{name}", p.squeezed,
             f"{name} compares {kind} variables including their single "
             "dimensions", where)
        done[p.kind] = b_or(done[p.kind], cond)
        if p.kind == "values" and (name not in BROADCASTS or kw.get(
                "strict") is const(True)):
            done["shape"] = b_or(done["shape"], cond)
    if kind == "double":
        # masked values are equal to everything for numpy's comparisons
        masks = FALSE
        for cond, name, pos, kw, where in found:
            if len(pos) > 1 and reads_masks(m, pos[:2]):
                masks = b_or(masks, cond)
        if reads_masks(m, [x for a in support(g) for x in (a,)]):
            masks = TRUE
        done["missing data"] = masks
    for what, cond in done.items():
        x = b_and(g, b_not(cond))
        c.ob(f"{what} compared", f"{m.mode}-{kind}", not sat(x),
             f"with {tag}, equals can return True for {kind} variables "
             f"without having compared their {what}"
             + (f" ({'; '.join(bad)})" if bad else ""), w)
    return n


def exclusion(c, m):
    """Everything that decides belongs to entries that are compared."""
    w = fwhere(m.fn)
    tag = f"exclude={m.mode!r}"
    done = set()
    any_keep = b_or(m.listed(m.A), m.listed(m.B))
    for a in support(m.R):
        for x in subterms(a):
            if x.op != "bag" or x in done:
                continue
            done.add(x)
            src = {o for o in (m.A, m.B) for y in subterms(x)
                   if y.op == "loop" and y.args[0] is m.dict[o]}
            if len(src) != 1:
                continue
            mem = m.member(x)
            o = src.pop()
            if mem is None:
                continue
            # only a selection of keys that the mode allows for
            g = b_and(mem, b_not(m.listed(o)))
            c.ob("exclusion", f"{m.mode}-{o.args[0]}-{len(done)}",
                 not sat(g), f"with {tag}, an entry of {o.args[0]} that is "
                 f"excluded (or private) takes part in the comparison", w)
        if a.op == "exists":
            L, g = a.args[0], N.g_of(a.args[1])
            mem = m.member(L.args[0])
            if mem is None:
                continue
            g = b_and(mem, m.inst(onto_key(unbroken(g, TRUE), [L], m.K,
                                           True))[0])
            g = b_and(g, m.lemmas(g))
            c.ob("exclusion", f"{m.mode}-loop", not sat(b_and(
                g, b_not(any_keep))), f"with {tag}, an excluded (or "
                "private) entry decides about the result", w)


def failing(c, m):
    """Differences give False, not an exception."""
    A, B, K = m.A, m.B, m.K
    n = 0
    for e in m.I.events:
        if e.kind == "call" and (e.name in RAISING or e.name in (
                "numpy.allclose", "numpy.isclose")):
            need = {"ValueError", "TypeError"}
            if e.name in RAISING:
                need.add("AssertionError")
            got = set()
            for tc in e.trys:
                got |= {x for x in need if caught_by(tc, x)}
            n += 1
            c.ob("no exception", f"{m.mode}-{e.name}", got == need or not sat(
                     e.guard),
                 f"{e.name} can fail with "
                 f"{', '.join(sorted(need - got))} for different entries, "
                 "which reaches the caller instead of giving False",
                 e.where())
    for g, name, _ in m.I.escapes:
        c.ob("no exception", f"{m.mode}-{name}", not sat(g),
             f"equals raises {name} with exclude={m.mode!r} under {why(g)}",
             fwhere(m.fn))
    # an entry is only looked up in an object that has it
    for e in m.I.events:
        if e.kind not in ("getattr", "getitem"):
            continue
        for o in (A, B):
            if e.kind == "getattr" and e.recv is not o or \
                    e.kind == "getitem" and e.recv not in (
                        m.dict[o], N.t_attr(o, "_convention")):
                continue
            g, args, _ = inst_event(m, e, TRUE)
            if not args or args[0] is not K or len(args) > 1:
                continue
            x = b_and(b_and(g, m.lemmas(g)), b_not(m.has[o]))
            x = b_and(x, b_or(m.has[A], m.has[B]))
            caught = any(caught_by(tc, "AttributeError" if e.kind ==
                                   "getattr" else "KeyError")
                         for tc in e.trys)
            n += 1
            c.ob("no exception", f"{m.mode}-{e.kind}-{o.args[0]}",
                 caught or not sat(x), f"an entry is looked up in "
                 f"{o.args[0]} which need not have it", e.where())
    c.need(n, "lookups of entries")


def caught_by(tc, x):
    return any(catches(h, x) for h in tc.handlers)


def configuration(c, m):
    w = fwhere(m.fn)
    if m.verbose is not None:
        v = c_truth(m.verbose)
        a = [x for x in support(v)]
        other = any(m.verbose in subterms(x) for x in support(m.R)
                    if x not in a)
        r = [cofactor(m.R, {x: b for x in a}) for b in (True, False)]
        c.ob("verbose", "verdict", not other and not sat(b_or(
            b_and(r[0], b_not(r[1])), b_and(r[1], b_not(r[0])))),
            "the verdict depends on verbose", w)
    n = 0
    for e in m.I.events:
        if e.kind == "assert" and sat(e.guard):
            n += 1
            c.ob("assert", f"{e.pos[2]}", False,
                 "an assert statement decides, which python -O removes",
                 e.where())
    if not n:
        c.ob("assert", "none", True)
