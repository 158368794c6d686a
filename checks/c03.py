"""C03: reading returns exactly what the file contains."""
from .base import *
from .effects import dataset
from .values import *

RULE = ("must-effect dataflow for an arbitrary global attribute, variable and "
        "variable attribute of the file: on every path on which a reader "
        "returns, the conditions of the events that store it on the returned "
        "object (under the mapped name, with a value traced back to the file "
        "through value preserving operations, while the object is not "
        "protected) cover everything; every other entry of the object is "
        "deleted and nothing else is stored")
ASSUME = ["netCDF4 returns what the file holds",
          "an array with one element may be returned as that element"]
SKIP = "_Encoding"


def check(c):
    for name, args in (("read_sofa", {"verify": const(False)}),
                       ("read_sofa", {"verify": const(True)}),
                       ("read_sofa_as_netcdf", {})):
        label = name + ("" if not args else
                        f" verify={args['verify'].args[0]}")
        one(c, name, args, label)


def returned(I):
    for g, t, loops in I.returns:
        for ag, x in alts(t):
            gg = b_and(g, ag)
            if sat(gg):
                yield gg, x


def one(c, name, args, label):
    fn = c.func(name)
    I = c.run(fn, args)
    outs = list(returned(I))
    c.need(len(outs), f"returns of {name}")
    files = {e.result for e in I.events if e.kind == "call"
             and dataset(e.result)}
    c.need(len(files), f"files opened by {name}")
    raises = [e for e in ev(I, ("raise", "assert"))]
    for g, obj in outs:
        if obj.op != "new":
            c.ob("returns-the-object", label, False,
                 f"{name} returns {show(obj, 3)} instead of a Sofa object",
                 fwhere(fn))
            continue
        e = Env(c, I, fn, obj, files, raises, label, g)
        e.stores()
        e.defaults()
        definitions(c, I, label)


def field(d, name):
    for p in d.args[1:]:
        if p.op == "p" and p.args[0] is const(name):
            return p.args[1]
    return t_item(d, const(name))


def definitions(c, I, label):
    """Custom variables keep the dimensions and type the file states."""
    for e in ev(I, "setitem"):
        r, d = e.recv, e.args[1]
        if r is None or r.op != "attr" or r.args[1] != "_custom" or \
                d.op != "bag" or not e.loops or not sat(e.guard):
            continue
        src = N.strip_iter(e.loops[-1].args[0])
        if src.op != "attr" or src.args[1] != "variables":
            continue
        t = field(d, "dimensions")
        of = [x for x in subterms(t) if x.op == "attr"
              and x.args[1] == "dimensions"]
        ok = of and not any(dataset(x.args[0]) for x in of) and not any(
            x.op == "slice" for x in subterms(t)) and not any(
            set(of) & set(subterms(a)) and sat(b_and(e.guard, f.guard))
            for f in ev(I, "reorder") if f.seq < e.seq
            for a in f.args)
        c.ob("custom-dimensions", f"{label}:{e.pos[2]}", bool(ok),
             "the dimensions of a custom variable are "
             f"{show(t, 4)}, not those of the file", e.where())
        ts = {x: g for g, x in alts(field(d, "type"))
              if sat(b_and(e.guard, g))}
        ok = set(ts) == {const("double"), const("string")}
        c.ob("custom-type", f"{label}:{e.pos[2]}", ok,
             "the type of a custom variable does not depend on the type of "
             "the data in the file", e.where())


def whole(t):
    """Strip keys()/list() wrappers the engine keeps."""
    return t


class Env:
    def __init__(s, c, I, fn, obj, files, raises, label, ret):
        s.c, s.I, s.fn, s.obj = c, I, fn, obj
        s.files, s.raises, s.label, s.ret = files, raises, label, ret
        s.file = next(iter(sorted(files, key=lambda t: t.id)))
        s.nc = {"attr": [], "var": [], "vattr": []}
        F = s.file
        s.A = mk("elem", mk("loop", mk("meth", "ncattrs", F), 0))
        s.V = mk("elem", mk("loop", mk("attr", F, "variables"), 0))
        s.VA = mk("elem", mk("loop", mk("meth", "ncattrs", mk(
            "item", F, s.V)), 0))

    # loop elements -------------------------------------------------------
    def canon(s, loops):
        """{element: canonical element} for loops over the file, or None."""
        m, V = {}, None
        kinds = []
        for L in loops:
            T = L.args[0]
            if T in [mk("meth", "ncattrs", f) for f in s.files] + [
                    mk("attr", f, "__dict__") for f in s.files]:
                m[mk("elem", L)] = s.A
                kinds.append("A")
            elif T.op == "attr" and T.args[1] == "variables" and \
                    T.args[0] in s.files:
                V = mk("elem", L)
                m[V] = s.V
                kinds.append("V")
            elif T.op == "meth" and T.args[0] == "ncattrs" and V is not None \
                    and s.is_var(T.args[1], V):
                m[mk("elem", L)] = s.VA
                kinds.append("VA")
            elif T.op == "attr" and T.args[1] == "__dict__" and \
                    V is not None and s.is_var(T.args[0], V):
                m[mk("elem", L)] = s.VA
                kinds.append("VA")
            else:
                return None, None
        return m, "".join(kinds)

    def is_var(s, t, V):
        """t is variable V of the file"""
        if t.op == "phi":
            return all(s.is_var(x, V) for _, x in alts(t))
        if t.op == "item" and t.args[1] is V:
            o = t.args[0]
            return o in s.files or (
                o.op == "attr" and o.args[1] == "variables" and
                o.args[0] in s.files)
        return False

    def rename(s, g, m):
        mm = {a: b for a, b in m.items() if a is not b}
        return N.subst_g(g, mm) if mm else g

    # stores --------------------------------------------------------------
    def stored(s, e):
        """(name, value) an event stores on the object."""
        o = s.obj
        if e.kind in ("setattr", "rawset") and s.same(e.recv):
            return e.args[0], e.args[1]
        if e.kind == "setitem" and e.recv is mk("attr", o, "__dict__"):
            return e.args[0], e.args[1]
        if e.kind == "call" and e.name == ".__setattr__" and \
                s.same(e.recv):
            return e.arg(0), e.arg(1)
        return None

    def same(s, t):
        return t is s.obj or (t is not None and t.op == "phi" and any(
            x is s.obj for _, x in alts(t)))

    def stores(s):
        c, I = s.c, s.I
        union = {"A": FALSE, "V": FALSE, "VVA": FALSE}
        why_not = {k: [] for k in union}
        where = {}
        for e in I.events:
            st = s.stored(e)
            if st is None:
                continue
            nm, val = st
            if is_const(nm, str) and nm.args[0].startswith("_"):
                continue
            m, k = s.canon(e.loops)
            good, reason = False, "it is not an entry of the file"
            if m is not None and k in union:
                good, reason = s.entry(k, m, e, nm, val)
            if good:
                r = absorbed(I, e, s.ret)
                if r:
                    good, reason = False, "a failing store is hidden: " + r
            if not good and k in union:
                why_not[k].append(reason)
            c.ob("only-file-content-is-stored",
                 f"{s.label}:{e.pos[2]}:{show(nm, 3)}", good,
                 f"{s.fn.name} stores {show(nm, 4)}: {reason}", e.where())
            if good:
                union[k] = b_or(union[k], s.rename(e.guard, m))
                where.setdefault(k, e)
                ok = not sat(b_and(e.guard, prot_at(I, e, s.obj)))
                c.ob("stored-while-unprotected",
                     f"{s.label}:{e.pos[2]}:{show(nm, 3)}", ok,
                     f"{show(nm, 4)} is stored while the object is "
                     "protected, read only entries fail", e.where())
        want = {"A": TRUE, "V": TRUE, "VVA": b_not(c_eq(s.VA, const(SKIP)))}
        label = {"A": "global attributes", "V": "variables",
                 "VVA": "attributes of variables"}
        for k, S in want.items():
            rest = b_and(b_and(s.ret, S), b_not(union[k]))
            rest0 = rest
            if sat(rest):
                for x in s.raises:
                    m, kk = s.canon(x.loops)
                    if m is not None:
                        rest = b_and(rest, b_not(s.rename(x.guard, m)))
            r = constrain(rest, s.ret)
            c.ob("everything-is-loaded", f"{s.label}:{label[k]}",
                 not sat(rest),
                 f"{s.fn.name} does not load {label[k]} "
                 + ("at all" if union[k] == FALSE else "when "
                    + why(r if r not in (TRUE, FALSE) else rest))
                 + ("; " + "; ".join(dict.fromkeys(why_not[k]))
                    if why_not[k] else ""),
                 where[k].where() if k in where else fwhere(s.fn))

    def entry(s, k, m, e, nm, val):
        inv = {b: a for a, b in m.items()}
        if k == "A":
            a = inv[s.A]
            if not s.global_entry(nm, a):
                return False, f"global attributes are named {show(nm, 4)}"
            return s.attr_value(val, lambda o: o in s.files, a, e)
        V = inv[s.V]
        if k == "V":
            if not entry_name(nm, V):
                return False, f"variables are named {show(nm, 4)}"
            p = FileValue(s, V)
            if not p.ok(val, e.guard):
                return False, f"the value is changed: {p.why}"
            return True, ""
        a = inv[s.VA]
        ps = nm.args if nm.op == "cat" else ()
        t = [x.args[0] for x in ps]
        if not (len(t) == 3 and entry_name(t[0], V) and t[1] is const("_")
                and strip_str(t[2]) is a):
            if not (len(t) == 2 and False):
                return False, f"attributes are named {show(nm, 4)}"
        return s.attr_value(val, lambda o: s.is_var(o, V), a, e)

    def global_entry(s, nm, a):
        t = [x.args[0] for x in nm.args] if nm.op == "cat" else []
        return len(t) == 2 and t[0] is const("GLOBAL_") and \
            strip_str(t[1]) is a

    def attr_value(s, val, holder, a, e):
        def base(t):
            if t.op == "dyn":
                return holder(t.args[0]) and strip_str(t.args[1]) is a
            if t.op == "meth" and t.args[0] in ("getncattr",
                                                "__getattr__",
                                                "__getattribute__"):
                return holder(t.args[1]) and strip_str(t.args[2]) is a
            if t.op == "item" and t.args[0].op == "attr" and \
                    t.args[0].args[1] == "__dict__":
                return holder(t.args[0].args[0]) and t.args[1] is a
            return False
        p = Prov(base)
        if p.ok(val, e.guard):
            return True, ""
        return False, f"the stored value is {p.why}"

    # defaults ------------------------------------------------------------
    def defaults(s):
        c, I, o = s.c, s.I, s.obj
        conv = kwargs(mk("m", "new", *o.args[1:]))[1].get("convention")
        if conv is None or conv is NONE:
            return
        for e in ev(I, ("call",), VERIFY):
            if s.same(e.recv):
                c.ob("verification-adds-nothing", f"{s.label}:{e.pos[2]}",
                     e.arg(None, "issue_handling") is const("raise"),
                     "verification is called in a mode that adds missing "
                     "entries with default values", e.where())
        D = mk("attr", o, "__dict__")
        E = mk("elem", mk("loop", D, 0))
        F = s.file
        lv = s.V.args[0]
        known = FALSE
        for gname in (None,):
            known = b_or(known, N.c_exists(s.A.args[0], c_eq(
                N.mk_cat([N.P(const("GLOBAL_")), N.P(s.A)]), E)))
            for vn in s.var_names():
                known = b_or(known, N.c_exists(lv, c_eq(vn, E)))
                known = b_or(known, N.c_exists(lv, N.c_exists(
                    s.VA.args[0], b_and(b_not(c_eq(s.VA, const(SKIP))), c_eq(
                        N.mk_cat([N.P(vn), N.P(const("_")), N.P(s.VA)]),
                        E)))))
        want = b_and(b_not(N.c_starts(E, const("_"))), b_not(known))
        union, place = FALSE, None
        for e in ev(I, ("delattr", "rawdel", "delitem")):
            if e.kind == "delitem":
                if e.recv is not D:
                    continue
            elif not s.same(e.recv):
                continue
            es = [mk("elem", L) for L in e.loops if L.args[0] is D]
            nm = e.args[0]
            if is_const(nm, str) and nm.args[0].startswith("_"):
                continue
            place = e
            if len(es) != 1 or len(e.loops) != 1 or nm is not es[0]:
                c.ob("only-defaults-are-removed",
                     f"{s.label}:{e.pos[2]}", False,
                     f"{show(nm, 4)} is removed in a loop that does not run "
                     "over the entries of the object", e.where())
                continue
            r = absorbed(I, e, s.ret)
            g = onto(e, es[0], E)
            bad = b_and(g, known)
            c.ob("only-defaults-are-removed", f"{s.label}:{e.pos[2]}",
                 not sat(bad) and not sat(b_and(g, N.c_starts(
                     E, const("_")))),
                 "entries that the file contains are removed when "
                 + why(bad), e.where())
            ok = not sat(b_and(e.guard, prot_at(I, e, o)))
            c.ob("removed-while-unprotected", f"{s.label}:{e.pos[2]}", ok,
                 "mandatory defaults can not be removed, because the object "
                 "is protected", e.where())
            if not r:
                union = b_or(union, g)
        rest = b_and(b_and(s.ret, want), b_not(union))
        for x in s.raises:
            if not x.loops:
                rest = b_and(rest, b_not(x.guard))
        r = constrain(rest, s.ret)
        c.ob("defaults-are-removed", s.label, not sat(rest),
             "defaults that the file does not contain stay in the object "
             + ("always" if union == FALSE else "when " + why(
                 r if r not in (TRUE, FALSE) else rest)),
             place.where() if place is not None else fwhere(s.fn))

    def var_names(s):
        """The names under which variables are stored."""
        out = []
        for e in s.I.events:
            st = s.stored(e)
            if st is None:
                continue
            m, k = s.canon(e.loops)
            if k == "V":
                V = {b: a for a, b in m.items()}[s.V]
                if entry_name(st[0], V):
                    t = N.subst(st[0], {V: s.V}) if V is not s.V else st[0]
                    if t not in out:
                        out.append(t)
        return out


def entry_name(t, v):
    """Variable name v of the file as entry name: '.' becomes '_'."""
    t = strip_str(t)
    if gives(t, [({v: SV}, SV), ({v: cat("Data.", SX)}, cat("Data_", SX))]):
        return True
    if t.op == "meth" and t.args[1] is v and t.args[0] == "replace":
        a = t.args[2:]
        return a[:2] in ((const("."), const("_")),
                         (const("Data."), const("Data_"))) and (
            len(a) == 2 or a[2] is const(1))
    if t.op == "meth" and t.args[0] == "join" and t.args[1] is const("_"):
        x = t.args[2]
        return x.op == "meth" and x.args[0] == "split" and \
            x.args[1] is v and x.args[2:] == (const("."),)
    if t.op == "phi":
        return all(entry_name(x, v) or (x is v and not sat(b_and(
            g, c_in(const("."), v)))) for g, x in alts(t))
    return False


class FileValue(Kept):
    """Values of one variable of the file."""

    def __init__(self, env, V):
        self.env, self.V = env, V
        super().__init__(self.all_values, text=True)

    def all_values(self, t):
        return t.op == "item" and self.env.is_var(t.args[0], self.V) and \
            full_slice(t.args[1])
