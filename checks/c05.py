"""C05: objects, files and streams agree on entry and file names."""
from .base import *
from .effects import dataset, file_opens
from .values import *
from . import c02, c03

RULE = ("abstract evaluation of names: the name terms of every store in "
        "write_sofa and in both readers and the resolution in "
        "SofaStream.__getattr__ are evaluated for arbitrary names of each "
        "shape (GLOBAL_X, V, Data_X, V_A, Data_X_A) and have to give the "
        "reference name; the paths opened by writer and readers are the "
        "same term of the file name and carry .sofa")
ASSUME = ["names of variables contain '.' only behind Data and '_' nowhere, "
          "as AES69 requires; additions with other names are refused "
          "(decided here and in C08)"]

SHAPES = [("global attribute", cat("GLOBAL_", ANY)),
          ("variable", SV), ("Data variable", cat("Data_", SX)),
          ("attribute of a variable", cat(SV, "_", SA)),
          ("attribute of a Data variable", cat("Data_", SX, "_", SA))]


def check(c):
    n = writer(c)
    c.need(n, "names stored by write_sofa", 3)
    for r in ("read_sofa", "read_sofa_as_netcdf"):
        n = reader(c, r)
        c.need(n, f"names stored by {r}", 3)
    stream(c)
    paths(c)
    accepted(c)


def accepted(c):
    """Names that do not survive a file are refused.

    '.' marks Data variables (and becomes '_'), '/' a group of the file."""
    fn = c.func("Sofa.add_variable")
    I = c.run(fn)
    name, dtype = mk("param", "name"), mk("param", "dtype")
    var = b_or(N.c_eq(dtype, const("double")), N.c_eq(dtype, const("string")))
    for x in "./":
        g = b_and(I.normal, var, N.c_in(const(x), name))
        c.ob("unstorable-name-refused", f"{q(fn)}:{x}", not sat(g),
             f"{q(fn)} accepts names of variables that contain {x!r}, which "
             "are not restored from a file", fwhere(fn))


def fits(c, rule, site, t, g, m, want, what, where):
    """Does name term t denote `want` for the shape given by m?"""
    if not sat(N.subst_g(g, m)):
        return False
    r = N.subst(strip_str(t), {k.id: v for k, v in m.items()})
    bad = None
    for ag, x in alts(r):
        if strip_str(x) is want or not sat(b_and(N.subst_g(g, m), ag)):
            continue
        bad = x
    c.ob(rule, site, bad is None,
         f"{what} is named {show(bad, 5) if bad is not None else ''} instead "
         f"of {show(want)}", where)
    return True


# ---------------------------------------------------------------- write_sofa
def writer(c):
    fn = c.func("write_sofa")
    I = c.run(fn)
    so = c02.sofa_param(fn)
    n = 0
    for e in I.events:
        if e.kind == "call" and e.name == ".createVariable" and dataset(
                e.recv):
            es, nm = keyed(e, so), e.arg(0, "varname")
            if len(es) != 1 or nm is None:
                continue
            for k, w in ((SV, SV), (cat("Data_", SX), cat("Data.", SX))):
                n += fits(c, "written-name", f"variable {show(k)}", nm,
                          e.guard, {es[0]: k}, w,
                          f"entry {show(k)}", e.where())
            continue
        st = c02.attr_store(e)
        if st is None:
            continue
        es = keyed(e, so)
        if dataset(st[0]):
            if len(es) == 1:
                n += fits(c, "written-name", "global attribute", st[1],
                          e.guard, {es[0]: SHAPES[0][1]}, ANY,
                          "entry GLOBAL_X", e.where())
        elif c02.from_dataset(st[0]) and len(es) == 2:
            for k in (SV, cat("Data_", SX)):
                a = cat(k, "_", SA)
                for x, y in (es, es[::-1]):
                    if mentions(st[0], x) and not mentions(st[0], y):
                        n += fits(c, "written-name", f"attribute of {show(k)}",
                                  st[1], e.guard, {x: k, y: a}, SA,
                                  f"entry {show(a)}", e.where())
    return n


def mentions(t, x):
    return any(y is x for y in subterms(t))


# -------------------------------------------------------------------- readers
def reader(c, name):
    fn = c.func(name)
    n = 0
    for val in (const(False), const(True)):
        args = {"verify": val} if any(
            a.arg == "verify" for a in fn.node.args.args) else {}
        I = c.run(fn, args)
        files = {e.result for e in I.events if e.kind == "call"
                 and dataset(e.result)}
        c.need(len(files), f"files opened by {name}")
        for g, obj in c03.returned(I):
            if obj.op == "new":
                n += reader_names(c, I, fn, obj, files, g)
        if not args:
            break
    return n


def reader_names(c, I, fn, obj, files, g):
    env = c03.Env(c, I, fn, obj, files, [], fn.name, g)
    n = 0
    for e in I.events:
        st = env.stored(e)
        if st is None or is_const(st[0], str) and st[0].args[0].startswith(
                "_"):
            continue
        m, k = env.canon(e.loops)
        if m is None:
            continue
        inv = {b: a for a, b in m.items()}
        site = f"{fn.name}:" + show(st[0], 3)
        if k == "A":
            n += fits(c, "read-name", site, st[0], e.guard,
                      {inv[env.A]: ANY}, cat("GLOBAL_", ANY),
                      "global attribute X of the file", e.where())
            continue
        if k not in ("V", "VVA"):
            continue
        for f, w in ((SV, SV), (cat("Data.", SX), cat("Data_", SX))):
            if k == "V":
                n += fits(c, "read-name", site + show(f), st[0], e.guard,
                          {inv[env.V]: f}, w,
                          f"variable {show(f)} of the file", e.where())
            else:
                n += fits(c, "read-name", site + show(f), st[0], e.guard,
                          {inv[env.V]: f, inv[env.VA]: ANY},
                          cat(w, "_", ANY),
                          f"attribute of variable {show(f)} of the file",
                          e.where())
    return n


# --------------------------------------------------------------------- stream
def stream_file(c):
    """The term for the open file of a SofaStream."""
    enter = c.func("SofaStream.__enter__")
    for fn in [enter] + list(c.p.public("SofaStream").all_funcs()):
        for e in c.run(fn).events:
            if e.kind in ("setattr", "rawset") and dataset(e.args[1]) and \
                    is_const(e.args[0], str):
                return mk("attr", e.recv, e.args[0].args[0])
    c.need(0, "the file opened by SofaStream")


def accessed(t, F):
    """(variable name, attribute name) an access denotes, or None."""
    t0 = t
    nm = None
    if t.op == "meth" and t.args[0] in ("getncattr", "__getattr__",
                                        "__getattribute__") and \
            len(t.args) == 3:
        nm, t = t.args[2], t.args[1]
    elif t.op == "dyn":
        nm, t = t.args[1], t.args[0]
    elif t.op == "item" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "__dict__":
        nm, t = t.args[1], t.args[0].args[0]
    if t is F:
        return (None, nm)
    if t.op == "item" and (t.args[0] is F or t.args[0] is mk(
            "attr", F, "variables")):
        return (t.args[1], nm)
    if t.op == "meth" and t.args[0] == "get" and len(t.args) == 3 and \
            t.args[1] is mk("attr", F, "variables"):
        return (t.args[2], nm)
    return None


def expected(shape, k):
    if k == "global attribute":
        return None, ANY
    if "attribute" not in k:
        return (SV, None) if k == "variable" else (cat("Data.", SX), None)
    return (SV if k == "attribute of a variable" else cat("Data.", SX)), SA


def stream(c):
    fn = c.func("SofaStream.__getattr__")
    F = stream_file(c)
    a = fn.node.args.args
    c.need(len(a) > 1, "name parameter of SofaStream.__getattr__")
    for what, shape in SHAPES:
        I = c.run(fn, {a[1].arg: shape})
        if I.returns and any(loops for _, _, loops in I.returns):
            c.notes.append(f"{what}: resolved in a loop")
        want = expected(shape, what)
        R, opaque = FALSE, False
        for g, t, loops in I.returns:
            for ag, x in alts(t):
                gg = b_and(g, ag)
                if not sat(gg):
                    continue
                got = accessed(x, F)
                if got is None or any(y is not None and fl(y)
                                      for y in got) or loops:
                    if fl(x) or loops or got is None and not named(x, shape):
                        opaque = True
                        continue
                ok = got is not None and got == want
                c.ob("stream-resolves", f"{what}", ok,
                     f"on a stream {show(shape)} gives {show(x, 5)} instead "
                     f"of {describe(want)}", fwhere(fn))
                R = b_or(R, gg)
        if opaque:
            c.notes.append(f"{what}: not resolved by string operations")
            continue
        bad = dependence(R, want, F)
        c.ob("stream-finds", f"{what}", R != FALSE and bad is None,
             f"on a stream {show(shape)} is not found "
             + ("at all" if R == FALSE else
                f"unless {show(bad, 5) if bad is not None else ''}"),
             fwhere(fn))


def named(t, shape):
    return any(s.op == "sym" for s in subterms(t))


def describe(w):
    v, a = w
    return (f"variable {show(v)}" if a is None else
            f"attribute {show(a)} of " + ("the file" if v is None else
                                          f"variable {show(v)}"))


def dependence(R, want, F):
    """An atom about the name, other than the test that the entry exists, on
    which finding it depends; or None."""
    v, a = want
    m = {}
    for x in support(R):
        if not any(s.op == "sym" for s in subterms(x)):
            continue
        if x.op == "in":
            k, T = x.args[0], container(x.args[1])
            if T is mk("attr", F, "variables") and k is v or \
                    T in (mk("meth", "ncattrs", F), mk(
                        "attr", F, "__dict__")) and v is None and k is a:
                m[x] = True
                continue
            if a is not None and v is not None and k is a and T.op in (
                    "meth", "attr") and "ncattrs" in (
                        T.args[0], ) and accessed(T.args[1], F) == (v, None):
                m[x] = True
                continue
            return x
        if x.op in ("isnone", "truth"):
            continue        # test of the result of a look up
        if x.op == "has" or x.op == "exc":
            m[x] = x.op == "has"
            continue
        return x
    if cofactor(R, m) == FALSE:
        return next(iter(m), None)
    return None


def container(t):
    while True:
        if t.op == "call" and t.args[0] in (
                "numpy.array", "numpy.asarray", "builtins.list",
                "builtins.set", "builtins.tuple", "builtins.sorted",
                "builtins.frozenset") and len(t.args) >= 2:
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("keys", "tolist", "copy"):
            t = t.args[1]
        else:
            return t


# ---------------------------------------------------------------------- paths
def paths(c):
    P0 = mk("param", "the file name")
    opened = []
    for name, mode in (("write_sofa", "w"), ("read_sofa", "r"),
                       ("read_sofa_as_netcdf", "r")):
        fn = c.func(name)
        I = c.run(fn, {fn.node.args.args[0].arg: P0})
        mine = [(e, p) for e, p, m in file_opens(I) if p is not None and
                any(s is P0 for s in subterms(p)) and dataset(e.result)]
        c.need(len(mine), f"files opened by {name}")
        for e, p in mine:
            for ag, x in alts(p):
                g = b_and(e.guard, ag)
                if not sat(g):
                    continue
                c.ob("suffix", f"{name}", sofa_suffix(x, g),
                     f"{name} opens {show(x, 5)}, which does not carry the "
                     "suffix .sofa", e.where())
                opened.append((name, e, g, path(x)))
        for e in ev(I, ("call",)):
            if e.name not in ("os.path.isfile", "os.path.exists",
                              ".is_file"):
                continue
            q = e.arg(0) if e.recv is None or e.name[0] != "." else e.recv
            if q is None or not any(s is P0 for s in subterms(q)):
                continue
            t = c_truth(e.result) if e.result is not None else TRUE
            refuses = any(entails(g, b_not(t)) for g, _, _ in I.escapes)
            if not refuses or t in (TRUE, FALSE):
                continue
            same = all(not sat(b_and(g, ag)) or path(x) is p
                       for ag, x in alts(q) for n, _, g, p in opened
                       if n == name)
            c.ob("tests-the-same-file", f"{name}:{e.name}", same,
                 f"{name} looks for {show(q, 5)} but opens another file",
                 e.where())
    w = [x for x in opened if x[0] == "write_sofa"]
    for name, e, g, p in opened:
        if name == "write_sofa":
            continue
        for _, e2, g2, p2 in w:
            if p is not p2 and sat(only(b_and(g, P0g(g)), P0, g2)):
                c.ob("same-file", name, False,
                     f"write_sofa writes {show(p2, 5)} but {name} reads "
                     f"{show(p, 5)}", e.where())
            else:
                c.ob("same-file", name, True, "", e.where())


def P0g(g):
    return TRUE


def only(g, P0, g2):
    """The parts of both conditions that are about the file name."""
    def proj(x):
        drop = [a for a in support(x) if not any(
            s is P0 for s in subterms(a)) or a.op == "exists"
            or a.op == "truth"]
        for a in drop:
            x = b_or(cofactor(x, {a: True}), cofactor(x, {a: False}))
        return x
    return b_and(proj(g), proj(g2))


def path(t):
    """Path without wrappers that denote the same file."""
    while True:
        if t.op == "call" and len(t.args) == 2 and t.args[0] in (
                "pathlib.Path", "pathlib.PurePath", "builtins.str",
                "os.fspath", "os.path.abspath"):
            t = t.args[1]
        elif t.op == "str":
            t = t.args[0]
        elif t.op == "cat" and len(t.args) == 1:
            t = t.args[0].args[0]
        elif t.op == "meth" and t.args[0] in ("resolve", "absolute",
                                              "as_posix", "expanduser") and \
                len(t.args) == 2:
            t = t.args[1]
        elif t.op == "meth" and t.args[0] == "with_suffix":
            q = path(t.args[1])
            return t if q is t.args[1] else mk(
                "meth", "with_suffix", q, *t.args[2:])
        else:
            return t


def sofa_suffix(t, g):
    t = path(t)
    if t.op == "meth" and t.args[0] == "with_suffix":
        return t.args[2:] == (const(".sofa"),)
    return entails(g, N.c_starts(t, const(".sofa"), "ends"))
