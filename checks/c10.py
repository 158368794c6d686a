"""C10: verification examines every entry of the object."""
from .base import *
from sflow.terms import map_bdd

RULE = ("for an arbitrary entry, custom entry, convention entry, rule, "
        "dependency or unit the reference condition 'this violates the "
        "convention' (interpreted from reference code into the same term "
        "algebra) is conjoined with the condition that Sofa.verify with "
        "issue_handling='raise' ends normally; the conjunction must be "
        "unsatisfiable, i.e. the condition flows into an error on every "
        "path, for every iteration and whatever the other entries are")

# (the table names the replacement of every deprecated convention)
DEPRECATED = ("n in d['GLOBAL:SOFAConventions'] and "
              "d['GLOBAL:SOFAConventions'][n] is not None")


class Model:
    """Terms of the things Sofa.verify has to look at."""

    def __init__(s, c, I, fn):
        s.c, s.I, s.fn = c, I, fn
        p = [mk("param", a.arg) for a in fn.node.args.args]
        s.so = p[0]
        names = [a.arg for a in fn.node.args.args]
        c.need(int("mode" in names and "issue_handling" in names),
               "parameters of Sofa.verify")
        s.mode = mk("param", "mode")
        s.conv = mk("attr", s.so, "_convention")
        s.custom = mk("attr", s.so, "_custom")
        s.D = mk("attr", s.so, "__dict__")
        s.K = mk("elem", mk("loop", s.D, 0))
        s.tables = {}
        for e in I.events:
            for t in [e.recv, e.result, *e.args] + [L.args[0]
                                                    for L in e.loops]:
                if t is None:
                    continue
                for x in subterms(t):
                    if x.op == "call" and x.args[0] == "json.load":
                        n = {str(y.args[0]) for y in subterms(x)
                             if y.op == "const"}
                        for f in ("rules.json", "unit_aliases.json",
                                  "deprecations.json"):
                            if any(y.endswith(f) for y in n):
                                s.tables.setdefault(f, x)
        c.need(len(s.tables), "rule tables read by Sofa.verify", 3)
        s.rules = s.tables["rules.json"]
        s.aliases = s.tables["unit_aliases.json"]
        s.deprecated = s.tables["deprecations.json"]

    def spec(s, src, **terms):
        return spec(s.c, src, **terms)

    def entry(s, k):
        """k is a public entry of the object."""
        return b_and(b_not(N.c_starts(k, const("_"))), N.c_has(s.so, k))

    def var(s, k):
        return t_dyn(s.so, k)

    # ----------------------------------------------------------- conditions
    def detections(s):
        """(id, text, condition, elements that name the culprit)"""
        so, K, conv = s.so, s.K, s.conv
        C = mk("elem", mk("loop", conv, 0))
        flags = t_item(t_item(conv, C), const("flags"))
        miss = b_and(s.spec("f is not None and 'm' in f", f=flags),
                     b_and(b_not(N.c_has(so, C)),
                           b_not(N.c_starts(C, const("_")))))
        yield "mandatory", "a missing mandatory entry", miss, C
        E = s.entry(K)
        v = s.var(K)
        typ = t_item(t_item(conv, K), const("type"))

        def of(kind):
            return b_and(E, c_eq(typ, const(kind)))
        yield "type-attribute", "an attribute that is no string", b_and(
            of("attribute"), s.spec("not isinstance(v, str)", v=v)), K
        yield "type-double", "a variable that is neither int, float nor " \
            "a numpy type", b_and(of("double"), s.spec(
                "import numpy as np\n"
                "return not isinstance(v, (int, float, np.ndarray, "
                "np.number))", v=v)), K
        for cls in ("ndarray", "number"):
            yield f"type-double-{cls}", "numpy data that are neither " \
                "integer nor floating point", b_and(of("double"), s.spec(
                    f"""
import numpy as np
return isinstance(v, np.{cls}) and not (
    v.dtype.kind == "i" or v.dtype.kind == "f"
    or np.issubdtype(v.dtype, np.floating)
    or np.issubdtype(v.dtype, np.integer)
    or np.issubdtype(v.dtype, np.number))""", v=v)), K
        yield "type-string", "a string variable that is neither a string " \
            "nor an array", b_and(of("string"), s.spec(
                "import numpy as np\n"
                "return not isinstance(v, (str, np.ndarray))", v=v)), K
        yield "type-string-array", "a string variable that is an array of " \
            "other data", b_and(of("string"), s.spec("""
import numpy as np
d = str(v.dtype)
return isinstance(v, np.ndarray) and not (
    d.startswith("<U") or d.startswith("<S") or d.startswith("|S")
    or d.startswith("|U") or d.startswith("U") or d.startswith("S")
    or d[1] == "U" or d[1] == "S" or d[1:2] == "U" or d[1:2] == "S"
    or v.dtype.kind == "U" or v.dtype.kind == "S"
    or np.issubdtype(v.dtype, np.str_)
    or np.issubdtype(v.dtype, np.bytes_)
    or np.issubdtype(v.dtype, np.character))""", v=v)), K
        yield "type-unknown", "an entry of unknown type", b_and(E, s.spec(
            "t not in ('attribute', 'double', 'string')", t=typ)), K
        # names
        yield "name-attribute", "an attribute name without underscore", \
            b_and(of("attribute"), s.spec("'_' not in k", k=K)), K
        yield "name-variable-missing", "an attribute without variable", \
            b_and(of("attribute"), s.spec(
                "'_' in k and not k.startswith('GLOBAL_') and "
                "k[:k.rindex('_')] not in conv", k=K, conv=conv)), K
        nv = b_and(E, b_not(c_eq(typ, const("attribute"))))
        yield "name-variable", "a variable name with underscores", b_and(
            nv, s.spec("'_' in k.replace('Data_', '')", k=K)), K
        for w in ("PRIVATE", "API"):
            yield f"name-{w}", f"a name that starts with {w}", b_and(
                E, N.c_starts(K, const(w))), K
        yield "name-GLOBAL", "a name that starts with GLOBAL but not " \
            "GLOBAL_", b_and(E, s.spec(
                "k.startswith('GLOBAL') and not k.startswith('GLOBAL_')",
                k=K)), K
        yield "name-GLOBAL-variable", "a variable called GLOBAL", b_and(
            nv, N.c_starts(K, const("GLOBAL"))), K
        yield from s.custom_names()
        yield from s.from_rules()
        # units
        yield "units", "a unit with upper case letters when writing", b_and(
            b_and(E, c_eq(s.mode, const("write"))), s.spec(
                "k.endswith('Units') and v.lower() != v", k=K, v=v)), K
        name = t_attr(so, "GLOBAL_SOFAConventions")
        yield "deprecation", "a deprecated convention when writing", b_and(
            c_eq(s.mode, const("write")), s.spec(
                DEPRECATED, n=name, d=s.deprecated)), name

    def custom_names(s):
        """Custom entries named like entries of the plain convention."""
        cu = mk("elem", mk("loop", s.custom, 0))
        fresh = [e.result for e in ev(s.I, ("call",), INIT)
                 if e.arg(None, "convention") is t_attr(
                     s.so, "GLOBAL_SOFAConventions")]
        tabs = [mk("attr", f, "_convention") for f in fresh]
        # or the convention loaded once more
        for e in s.I.events:
            for L in e.loops:
                b = L.args[0]
                if b not in tabs and b is not s.conv and b.op in (
                        "bag",) and any(x.op == "call" and x.args[0] ==
                                        "json.load" for x in subterms(b)):
                    tabs.append(b)
        s.c.ob("custom names are compared with the plain convention",
               "custom-name-table", tabs, "verification does not load the "
               "convention without custom entries", fwhere(s.fn))
        g = N.c_has(s.so, const("_custom"))
        for T in tabs[:1]:
            yield "custom-name", "a custom entry with a reserved name", \
                b_and(g, s.spec(
                    "any(cu.replace('GLOBAL_', '') == "
                    "n.replace('GLOBAL_', '') for n in T)", cu=cu, T=T)), cu

    VALID = """
    def valid(test, ref, key, aliases):
        import re
        if ref is None or test in ref:
            return True
        if not isinstance(test, str):
            return False
        if key == "GLOBAL_DataType" or key == "GLOBAL_SOFAConventions":
            return False
        if test.lower() in ref:
            return True
        if not key.endswith("Units"):
            return False
        if not isinstance(ref, list) or len(ref) != 1:
            return False
        r = re.split(', ?', ref[0])
        t = re.split(', ?', test.lower())
        return len(r) == len(t) and all(
            a in aliases and aliases[a] == b for a, b in zip(t, r))
"""

    def from_rules(s):
        so = s.so
        R = mk("elem", mk("loop", s.rules, 0))
        rule = t_item(s.rules, R)

        def name(k):
            return spec(s.c, "k.replace('.', '_').replace(':', '_')",
                        cond=False, k=k)
        import textwrap
        valid = textwrap.dedent(s.VALID)
        kn = name(R)
        test = s.var(kn)
        here = N.c_has(so, kn)
        yield "rule-value", "an entry whose value violates its rule", b_and(
            here, s.spec(valid + "return not valid(t, rule['value'], k, al)",
                         t=test, rule=rule, k=kn, al=s.aliases)), R
        gen = t_item(rule, const("general"))
        G = mk("elem", mk("loop", gen, 0))
        yield "rule-general", "a missing general dependency", b_and(
            b_and(here, s.spec("'general' in rule", rule=rule)),
            b_not(N.c_has(so, name(G)))), G
        low = s.spec("isinstance(t, str) and t.lower() in ['cartesian', "
                     "'spherical', 'spherical harmonics']", t=test)
        lower = spec(s.c, "t.lower()", cond=False, t=test)
        for tag, cond, tv in (("", b_not(low), test), ("-lower", low,
                                                        lower)):
            base = b_and(b_and(here, cond), s.spec(
                "'specific' in rule and t in rule['specific']",
                rule=rule, t=tv))
            deps = t_item(t_item(rule, const("specific")), tv)
            P = mk("elem", mk("loop", deps, 0))
            dim = const("_dimensions")
            other = b_and(base, b_not(c_eq(P, dim)))
            yield f"rule-specific{tag}", "a missing specific dependency", \
                b_and(other, b_not(N.c_has(so, name(P)))), P
            ref = t_item(deps, P)
            yield f"rule-specific-value{tag}", "a specific dependency with " \
                "a wrong value", b_and(b_and(other, N.c_has(so, name(P))),
                                       s.spec(valid + "return not valid("
                                              "t, r, k, al)",
                                              t=s.var(name(P)), r=ref,
                                              k=name(P), al=s.aliases)), P
            dims = t_item(deps, dim)
            Q = mk("elem", mk("loop", dims, 0))
            qs = [(a, t, mk("elem", mk("loop", t, 0)))
                  for a in s.sizes() for t in (dims, ref)]
            yield f"rule-dimension{tag}", "a dimension of a wrong size", \
                [b_and(b_and(base, c_eq(P, dim)), b_not(c_in(
                    t_item(a, q), t_item(t_item(t, q), const("value")))))
                 for a, t, q in qs], [q for _, _, q in qs]

    def sizes(s):
        """Terms of the table of dimensions: the attribute and what is
        stored in it."""
        api = mk("attr", s.so, "_api")
        out = [api]
        for e in s.I.events:
            if e.kind in ("setattr", "rawset") and e.recv is s.so and \
                    e.args[0] is const("_api") and e.args[1] not in out:
                out.append(e.args[1])
        return out

    # --------------------------------------------------------------- shapes
    def leaves(s, t, d=0):
        if d > 6 or not isinstance(t, Term):
            return
        if t.op == "phi":
            for _, x in alts(t):
                yield from s.leaves(x, d + 1)
        elif t.op == "bag":
            for p in s.I.parts_of(t):
                yield from s.leaves(p[0], d + 1)
        elif t.op == "tup":
            for x in t.args:
                yield from s.leaves(x, d + 1)
        elif t.op == "call" and t.args[0] in ("builtins.tuple",
                                              "builtins.list"):
            for x in t.args[1:]:
                yield from s.leaves(x, d + 1)
        else:
            yield t

    LOSSY = {"numpy.prod", "builtins.sum", "builtins.max", "builtins.min",
             "builtins.sorted", "builtins.set", "numpy.sum", "numpy.max",
             "math.prod", "builtins.frozenset", "numpy.sort"}

    def weak(s, g, seen=None):
        """Comparisons that look at a digest of the sizes only."""
        seen = set() if seen is None else seen
        api = s.sizes()
        for a in support(g):
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.op == "exists":
                yield from s.weak(N.g_of(a.args[1]), seen)
            elif a.op in ("eq", "lt", "in"):
                for x in a.args:
                    if isinstance(x, Term) and x.op in ("call", "bag") and \
                            x.args[0] in s.LOSSY | {"set"} and \
                            any(y.op == "item" and y.args[0] in api
                                for y in subterms(x)):
                        yield a

    def is_size(s, t):
        api = s.sizes()
        return any(x.op == "item" and x.args[0] in api
                   for x in s.leaves(t))

    def compares(s, a):
        """(reference sizes, shape of the data) of a shape comparison."""
        if a.op != "eq":
            return None
        x, y = a.args
        for r, v in ((x, y), (y, x)):
            if isinstance(r, Term) and isinstance(v, Term) and s.is_size(r) \
                    and not s.is_size(v):
                return r, v
        return None

    def erase(s, g, found, memo=None, ctx=TRUE):
        """g with every shape comparison replaced by 'differs'.  Found are
        the comparisons with the condition under which they matter."""
        memo = {} if memo is None else memo
        if (g, ctx) in memo:
            return memo[g, ctx]
        sub = {}
        for a in support(g):
            cmp = s.compares(a)
            if not cmp and a.op != "exists":
                continue
            m = b_and(ctx, b_not(b_iff(cofactor(g, {a: True}),
                                       cofactor(g, {a: False}))))
            if cmp:
                found.append((a, m))
                sub[a] = FALSE
            else:
                b = N.g_of(a.args[1])
                n = s.erase(b, found, memo, m)
                if n != b:
                    # the comparison is made for at least one dimension
                    sub[a] = TRUE if n == TRUE else N.c_exists(a.args[0], n)
        r = map_bdd(g, lambda a: sub.get(a, atom(a)))
        memo[g, ctx] = r
        return r


def shapes(c, M):
    I, K = M.I, M.K
    found = []
    left = M.erase(I.normal, found)
    weak = sorted(M.weak(I.normal), key=lambda t: t.id)
    c.ob("sizes are compared one by one", "shape-compare",
         found and not weak, "the shape is not compared with the sizes of "
         "the dimensions: " + "; ".join(show(w, 3) for w in weak[:1]),
         fwhere(M.fn))
    V = b_and(b_and(M.entry(K), c_in(K, M.conv)), b_not(c_isnone(
        t_item(t_item(M.conv, K), const("dimensions")))))
    g = b_and(left, V)
    c.ob("every variable's shape is compared", "shape", not sat(g),
         "verification can end normally although the shape of a variable "
         f"matches none of its dimensions: {why(g)}", fwhere(M.fn))
    for a, m in found:
        ref, val = M.compares(a)
        for t, bad in partial(ref):
            c.ob("the reference covers every dimension", "shape-reference",
                 False, f"dimensions are left out: {show(t, 4)}",
                 fwhere(M.fn))
        for x, h in cropped(val):
            lo, hi, st = x.args[1].args
            ok = lo is NONE and st is NONE and hi is N.t_len(ref)
            rest = spec(c, "all(n == 1 for n in x[len(r):])", x=x.args[0],
                        r=ref)
            c.ob("dimensions that are ignored are one", "shape-crop",
                 ok and entails(b_and(m, h), rest),
                 "dimensions of the data are ignored although their size is "
                 f"not one: {show(x, 3)}", fwhere(M.fn))
        c.ob("the shape is compared", "shape-compared", True)


def partial(t):
    """Parts of the reference that stand for some dimensions only."""
    for x in subterms(t):
        if x.op == "slice":
            yield x, x
        elif x.op == "bag":
            for p in x.args[1:]:
                if p.op == "p" and gterm(N.g_of(p.args[2])) is not gterm(
                        TRUE):
                    yield p, x


def cropped(t, g=TRUE, seen=None):
    """Slices within t with the condition under which they are used."""
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or (t.id, g) in seen:
        return
    seen.add((t.id, g))
    if t.op == "phi":
        for h, x in alts(t):
            yield from cropped(x, b_and(g, h), seen)
        return
    if t.op == "item" and isinstance(t.args[1], Term) and \
            t.args[1].op == "slice":
        yield t, g
    if t.op not in ("exists", "loop"):
        for x in t.args:
            yield from cropped(x, g, seen)


def abandoned(c, I, fn):
    """Issues after which a loop does not look at the remaining entries."""
    n, seen = 0, set()
    for e in ev(I, "raise"):
        for t in e.args:
            if not isinstance(t, Term):
                continue
            for p in subterms(t):
                if p.op != "p" or not N.p_loops(p) or p.id in seen:
                    continue
                seen.add(p.id)
                n += 1
                G = N.p_guard(p)
                own = {x.id for x in subterms(p.args[0])}
                for a in support(G):
                    if a.op == "unbroken" and a.args[0].id in own and sat(
                            b_and(G, N.g_of(a.args[1]))):
                        c.ob("the remaining entries are examined",
                             f"{q(fn)}:{n}", False,
                             "an issue ends the loop that looks for further "
                             f"ones: {why(b_and(G, N.g_of(a.args[1])))}",
                             fwhere(fn))
                        return
    c.need(n, "reported issues")
    c.ob("the remaining entries are examined", q(fn), True)


def check(c):
    fn = c.func("Sofa.verify")
    I = c.run(fn, {"issue_handling": const("raise")})
    M = Model(c, I, fn)
    c.need(int(sat(I.normal)), "normal end of Sofa.verify")
    for tag, text, D, who in M.detections():
        Ds = D if isinstance(D, list) else [D]
        c.need(int(all(sat(d) for d in Ds)), f"condition of {tag}")
        left = [b_and(I.normal, d) for d in Ds]
        bad = next((g for g in left if not sat(g)), None) is None
        c.ob("every violation is an error", tag, not bad,
             f"verification can end normally despite {text}: " +
             (why(left[0]) if bad else ""), fwhere(fn))
    abandoned(c, I, fn)
    shapes(c, M)
