"""C19: SofaStream is read only, lazy and fails cleanly."""
from .base import *
from sflow.interp import catches
from .effects import (DATASETS, dataset, open_path, reads_only, open_mode,
                      write_effects)
from sflow.terms import map_bdd, b_ite
from . import c05

RULE = ("effect and exception analysis of the class SofaStream: every data "
        "set is opened in __enter__, for reading only, kept and closed; no "
        "method changes the data set or any part of it; every value that "
        "__getattr__ returns is an access of the file's own variable or "
        "attribute that fails for missing names, and nothing in it loads the "
        "values of a variable; every exception that can leave __getattr__ "
        "(raised explicitly or by a look up, an unpacking or a file that is "
        "not open) is an AttributeError; get_dimension returns the size of "
        "exactly the known dimensions and raises ValueError otherwise")
ASSUME = ["netCDF4: getncattr of a missing attribute raises AttributeError, "
          "look ups in variables, dimensions and data sets raise KeyError or "
          "IndexError, operations on closed files raise RuntimeError"]

# methods of netCDF4 data sets, variables, dimensions and groups that change
# the file
CHANGES = {".createVariable", ".createDimension", ".createGroup",
           ".createVLType", ".createCompoundType", ".createEnumType",
           ".renameVariable", ".renameDimension", ".renameAttribute",
           ".renameGroup", ".setncattr", ".setncatts", ".setncattr_string",
           ".delncattr", ".sync", ".assignValue", ".__setitem__",
           ".__setattr__", ".__delattr__", ".put"}
# what may be done with a variable without loading its values
LIGHT = {".getncattr", ".ncattrs", ".group", ".get_dims", ".dimensions",
         ".__getattr__", ".__getattribute__", ".filters", ".chunking",
         ".endian", ".isunlimited", ".__len__", ".name"}
LIGHT_CALLS = {"builtins.getattr", "builtins.hasattr", "builtins.isinstance",
               "builtins.type", "builtins.len", "builtins.id",
               "builtins.callable", "builtins.setattr",
               "builtins.object.__setattr__", "builtins.vars"}
LIGHT_ATTRS = {"shape", "ndim", "size", "dtype", "dimensions", "name",
               "__dict__", "datatype", "ncattrs"}
# operations of the file that fail when it is not open
NEEDS_OPEN = {".ncattrs", ".getncattr", ".__getattr__", ".filepath",
              ".set_auto_mask", ".set_auto_scale", ".set_auto_maskandscale",
              ".set_always_mask"}


def check(c):
    cls = c.p.public("SofaStream")
    F = c05.stream_file(c)
    fns = list(cls.all_funcs())
    c.need(len(fns), "methods of SofaStream", 5)
    kept = lifecycle(c, cls, F)
    for fn in fns:
        untouched(c, fn, F)
    lookup(c, cls, F, kept)
    dimension(c, F)


def part(t, F):
    """Path by which t is reached from the data set F, or None."""
    path = []
    while t is not None and t is not F:
        if t.op in ("item", "attr", "dyn"):
            path.append((t.op, t.args[1]))
            t = t.args[0]
        elif t.op == "meth":
            path.append(("meth", t.args[0]))
            t = t.args[1]
        elif t.op == "elem":
            path.append(("elem", None))
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0] in (
                "builtins.getattr",) and len(t.args) > 1:
            path.append(("attr", None))
            t = t.args[1]
        else:
            return None
    return path[::-1] if t is F else None


def parts(t, F):
    """The alternatives of t that belong to the file."""
    out = []
    for g, x in alts(t) if t is not None else ():
        p = part(x, F)
        if p is not None:
            out.append((g, x, p))
    return out


def variable(t, F):
    """Is t a variable of the file?"""
    p = part(t, F)
    if not p:
        return False
    if p[-1][0] == "elem":      # for v in file.variables.values()
        return len(p) > 2 and p[-2] == ("meth", "values")
    if p[-1][0] == "meth":
        return p[-1][1] in ("get", "pop") and p[:-1] == [("attr",
                                                          "variables")]
    return p[-1][0] == "item" and (len(p) == 1 or
                                   p[:-1] == [("attr", "variables")])


# ------------------------------------------------------------------ life cycle
def lifecycle(c, cls, F):
    """Opening and closing; True if the attribute keeps the closed file."""
    o = F.args[0]
    enter = c.func("SofaStream.__enter__")
    for fn in cls.all_funcs():
        I = c.run(fn)
        for e in I.events:
            if e.kind != "call" or e.name not in DATASETS:
                continue
            kw = dict(e.kw or ())
            c.ob("opened-for-reading", f"{q(fn)}:{e.name}",
                 reads_only(open_mode(e), e) and all(
                     is_const(kw.get(k, const(False))) and
                     not kw.get(k, const(False)).args[0]
                     for k in ("persist", "clobber") if k == "persist"),
                 f"the file is opened with mode {show(open_mode(e), 3)}",
                 e.where())
            c.ob("opened-on-entry", q(fn), fn is enter or fn.name in (
                "__enter__",) or reached(c, enter, fn),
                 f"the file is opened by {q(fn)}", e.where())
    I = c.run(enter)
    opened = [e for e in I.events if e.kind == "call" and e.name in DATASETS]
    stored = [e for e in I.events if e.kind in ("setattr", "rawset") and
              e.args[0] is const(F.args[1])]
    ok = FALSE
    for e in stored:
        for g, x in alts(e.args[1]):
            if dataset(x):
                ok = b_or(ok, b_and(e.guard, g))
    bad = b_and(I.normal, b_not(ok))
    c.ob("opened-on-entry", "__enter__", not sat(bad),
         f"no file is opened {why(bad)}", fwhere(enter))
    for e in opened:
        p = open_path(e)
        c.ob("opened-on-entry", "path", any(
            s.op == "attr" and s.args[0] is e_self(I, enter) or
            s.op == "param" for s in subterms(p)),
            f"the file that is opened is {show(p, 3)}, not the one given",
            e.where())
    for g, t, _ in I.returns:
        bad = [x for ag, x in alts(t) if x is not o and sat(b_and(g, ag))]
        c.ob("entry-returns-stream", "__enter__", not bad,
             f"with ... as gives {show(bad[0], 4) if bad else ''}",
             fwhere(enter))
    ex = c.func("SofaStream.__exit__")
    I = c.run(ex)
    I.reach = TRUE
    closed = FALSE
    for e in I.events:
        if e.kind == "call" and (e.name == ".close" and e.recv is F or
                                 e.name == ".__exit__" and e.recv is F):
            closed = b_or(closed, b_and(e.guard, TRUE))
    bad = b_and(I.normal, b_not(closed), is_open(F, o))
    c.ob("closed-on-exit", "__exit__", not sat(bad),
         f"the file is not closed {why(bad)}", fwhere(ex))
    for g, t, _ in I.returns:
        for ag, x in alts(t):
            gg = b_and(g, ag, c_truth(x))
            quiet = x.op == "meth" and x.args[0] in ("close", "__exit__")
            c.ob("errors-pass", "__exit__", quiet or not sat(gg),
                 f"__exit__ returns {show(x, 3)}: errors in the with block "
                 f"are swallowed {why(gg)}", fwhere(ex))
    gone = FALSE
    for e in I.events:
        if e.kind in ("delattr", "rawdel") and e.args[0] is const(
                F.args[1]):
            gone = b_or(gone, e.guard)
        if e.kind in ("setattr", "rawset") and e.args[0] is const(
                F.args[1]) and e.args[1] is NONE:
            gone = b_or(gone, e.guard)
    return sat(b_and(I.normal, is_open(F, o), b_not(gone)))


def plain(g):
    """Condition g with membership tests in copies of the tables of the file
    written as tests of the tables."""
    def one(a):
        if a.op == "in":
            return N.c_in(a.args[0], c05.container(a.args[1]))
        return of_length(a)
    return map_bdd(g, one)


def of_length(a):
    """An atom about the number of pieces of a split string, expressed by
    whether the string contains the separator."""
    if a.op in ("lt", "eq"):
        for x in a.args:
            if x.op == "len" and pieces(x.args[0]) is not None:
                s, sep, cut = pieces(x.args[0])
                v = [N.subst_g(atom(a), {x.id: const(k)}) for k in (1, 2)]
                return b_ite(N.c_in(sep, s), v[1] if cut == 1 else atom(a),
                             v[0])
    return atom(a)


def e_self(I, fn):
    return mk("param", fn.node.args.args[0].arg)


def reached(c, enter, fn):
    return fn.qual in {getattr(f, "qual", f) for f in c.run(enter).functions}


def is_open(F, o):
    """The stream has a file and the file is open."""
    return b_and(c_in(const(F.args[1]), mk("attr", o, "__dict__")),
                 N.c_has(o, const(F.args[1])), b_not(c_isnone(F)),
                 c_truth(mk("meth", "isopen", F)))


# ------------------------------------------------------------------- read only
def untouched(c, fn, F):
    I = c.run(fn)
    n = 0
    for e in I.events:
        tgt = e.recv
        if e.kind == "call" and e.name in CHANGES:
            pass
        elif e.kind == "call" and e.name in (
                "builtins.setattr", "builtins.delattr",
                "builtins.object.__setattr__") and e.args:
            tgt = e.args[0]
        elif e.kind in ("setattr", "delattr", "setitem", "delitem",
                        "inplace", "rawset", "rawdel"):
            pass
        else:
            continue
        if tgt is None:
            continue
        hit = [x for g, x in alts(tgt) if sat(b_and(g, e.guard)) and (
            part(x, F) is not None or dataset(x) or any(
                dataset(s) for s in subterms(x)) and not copied(x))]
        n += 1
        c.ob("file-unchanged", f"{q(fn)}:{e.name or e.kind}", not hit or
             e.kind in ("setitem", "delitem", "inplace") and all(
                 copied(x) for x in hit),
             f"{e.kind} {e.name or ''} changes "
             f"{show(hit[0], 4) if hit else ''}", e.where())
    name = mk("attr", F.args[0], "_filename")
    init = c.run(c.func("SofaStream.__init__"))
    names = {name} | {mk("attr", F.args[0], e.args[0].args[0])
                      for e in init.events if e.kind in ("setattr", "rawset")
                      and is_const(e.args[0], str) and any(
                          s.op == "param" for s in subterms(e.args[1]))}
    for e, p in write_effects(I):
        n += 1
        bad = p is not None and any(s in names or part(s, F) is not None
                                    for s in subterms(p))
        c.ob("file-unchanged", f"{q(fn)}:{e.name}", not bad,
             f"{e.name} changes {show(p, 3) if p is not None else ''}",
             e.where())
    c.ob("file-unchanged", q(fn), True)


def copied(t):
    """Values read from the file live in memory."""
    return t.op == "item" and t.args[1].op in ("slice", "ellipsis") or \
        t.op == "meth" and t.args[0] in (
            "ncattrs", "getncattr", "copy", "keys", "values", "items") or \
        t.op == "call" and t.args[0].startswith(("builtins.", "numpy."))


# --------------------------------------------------------------------- look up
def lookup(c, cls, F, kept):
    fn = c.func("SofaStream.__getattr__")
    o = F.args[0]
    a = fn.node.args.args
    c.need(len(a) > 1, "name parameter of SofaStream.__getattr__", 1)
    I = c.run(fn)
    c.need(len(I.returns), "values returned by SofaStream.__getattr__")
    own(c, fn, I, F)
    lazy(c, fn, I, F)
    clean(c, fn, I, F, kept)
    # before the file is opened, its own attribute is looked up
    init = c.run(c.func("SofaStream.__init__"))
    always = FALSE
    for e in init.events:
        if e.kind in ("setattr", "rawset") and e.args[0] is const(
                F.args[1]):
            always = b_or(always, e.guard)
    here = entails(init.normal, always) and not any(
        e.kind in ("delattr", "rawdel") for f in cls.all_funcs()
        for e in c.run(f).events) or any(
            isinstance(s, (ast.Assign, ast.AnnAssign)) and F.args[1] in
            {t.id for t in (s.targets if isinstance(s, ast.Assign)
                            else [s.target]) if isinstance(t, ast.Name)}
            for s in cls.node.body)
    if not here:
        absent(c, fn, a[1].arg, F)
    found(c, fn, a[1].arg, F)


def own(c, fn, I, F):
    """Every returned value is an access of the file that fails when the file
    does not have the entry."""
    for g, t, loops in I.returns:
        for L in loops:
            g = N.c_exists(L.term, g) if hasattr(L, "term") else g
        for ag, x in alts(t):
            gg = b_and(g, ag)
            if not sat(gg):
                continue
            while x.op == "meth" and x.args[0] == "strip_":
                x = x.args[1]
            v = variable(x, F)
            acc = c05.accessed(x, F) or (
                (None, None) if v else None)
            c.ob("own-entry-returned", "__getattr__", acc is not None,
                 f"{show(x, 5)} is returned, not a variable or an attribute "
                 f"of the file, {why(gg)}", fwhere(fn))
            if acc is None:
                continue
            # accesses that succeed for names that the file does not have
            bad = FALSE
            if x.op == "dyn" or x.op == "attr":
                nm = x.args[1] if x.op == "dyn" else const(x.args[1])
                own_ = mk("meth", "ncattrs", x.args[0])
                bad = b_and(gg, b_not(c_in(nm, own_)), b_not(c_in(
                    nm, mk("attr", x.args[0], "__dict__"))))
            elif x.op == "meth" and x.args[0] == "get":
                bad = b_and(gg, c_isnone(x))
            elif x.op == "meth" and x.args[0] in ("__getattr__",
                                                  "__getattribute__"):
                bad = b_and(gg, b_not(c_in(x.args[2], mk(
                    "meth", "ncattrs", x.args[1]))))
            bad = plain(bad)
            c.ob("missing-entry-fails", "__getattr__", not sat(bad),
                 f"{show(x, 5)} also succeeds for names that the file does "
                 f"not contain, {why(bad)}", fwhere(fn))


def lazy(c, fn, I, F):
    n = 0
    for e in I.events:
        for what, ts in (("receiver", (e.recv,)), ("argument", tuple(
                e.args) + tuple(v for _, v in (e.kw or ())))):
            for t in ts:
                if not isinstance(t, Term):
                    continue
                hit = [x for g, x in alts(t) if variable(x, F) and
                       sat(b_and(g, e.guard))]
                if not hit:
                    continue
                n += 1
                ok = True
                if e.kind == "call":
                    ok = e.name in LIGHT if what == "receiver" else \
                        e.name in LIGHT_CALLS or e.name in (
                            ".append", ".update", ".setdefault")
                elif e.kind == "getitem":
                    ok = what != "receiver"
                elif e.kind == "getattr" and what == "receiver":
                    ok = not is_const(e.args[0], str) or \
                        e.args[0].args[0] in LIGHT_ATTRS
                c.ob("lookup-is-lazy", f"__getattr__:{e.name or e.kind}", ok,
                     f"{e.name or e.kind} loads values of "
                     f"{show(hit[0], 4)}", e.where())
    for g, t, _ in I.returns:
        for s in subterms(t):
            if s.op == "item" and variable(s.args[0], F):
                c.ob("lookup-is-lazy", "__getattr__:item", False,
                     f"the values {show(s, 5)} are loaded", fwhere(fn))
    c.ob("lookup-is-lazy", "__getattr__", True)


def attribute_error(name):
    return catches(["AttributeError"], name)


def clean(c, fn, I, F, kept):
    """Only AttributeErrors leave __getattr__."""
    for g, name, loops in I.escapes:
        if name is None or not sat(g):
            continue
        c.ob("lookup-error-type", f"__getattr__:{name}",
             subclass(c, name, "AttributeError"),
             f"{name.split('.')[-1]} is raised {why(g)}", fwhere(fn))
    o = F.args[0]
    for e in I.events:
        for exc, bad, text in failures(c, e, F, kept):
            bad = plain(bad)
            if handled(e, exc) or not sat(bad):
                continue
            c.ob("lookup-error-type", f"__getattr__:{exc}", False,
                 f"{text} raises {exc} {why(bad)}", e.where())
        c.ob("lookup-error-type", f"__getattr__:{e.kind}", True)


def subclass(c, name, base):
    short = name.split(".")[-1]
    if catches([base], short):
        return True
    for m in c.p.modules.values():
        k = m.classes.get(short)
        if k is not None:
            return any(base in ast.unparse(b) for b in k.node.bases)
    return False


def handled(e, exc):
    for tc in e.trys:
        if any(catches(h, exc) for h in tc.handlers):
            return True
    return False


def failures(c, e, F, kept):
    """(exception, condition, what) of what event e may raise."""
    o = F.args[0]
    if e.kind in ("call", "getitem", "getattr") and kept:
        bad = b_and(e.guard, b_not(c_truth(mk("meth", "isopen", F))))
        t = e.recv
        hits = [(g, x) for g, x, p in parts(t, F)]
        for g, x in hits:
            if e.kind == "call" and e.name in NEEDS_OPEN:
                yield ("RuntimeError", b_and(bad, g),
                       f"{e.name}() of a file that is not open")
        if e.kind == "call" and e.name == "builtins.getattr" and e.args:
            for g, x, p in parts(e.args[0], F):
                yield ("RuntimeError", b_and(bad, g),
                       "getattr of a file that is not open")
    if e.kind == "getitem" and e.args and e.args[0].op != "slice":
        k = e.args[0]
        for g, x in alts(e.recv):
            for kg, kk in alts(k):
                gg = b_and(e.guard, g, kg)
                p = part(x, F)
                if p is not None and (not p or p[-1] in (
                        ("attr", "variables"), ("attr", "dimensions"),
                        ("attr", "groups"), ("attr", "__dict__"))):
                    exc = "IndexError" if not p else "KeyError"
                    bad = b_and(gg, b_not(c_in(kk, x)))
                    if not p:
                        bad = b_and(bad, b_not(c_in(kk, mk(
                            "attr", F, "variables"))))
                    if elements(kk, x):
                        continue
                    yield exc, bad, f"the look up {show(x, 4)}[...]"
                elif x.op == "attr" and x.args[1] == "__dict__":
                    yield ("KeyError", b_and(gg, b_not(c_in(kk, x))),
                           f"the look up {show(x, 4)}[...]")
                elif pieces(x) is not None:
                    yield from short_list(x, kk, gg)
    if e.kind == "unpack":
        for g, x in alts(e.args[1]):
            if pieces(x) is None:
                continue
            yield from short_unpack(x, e.args[0].args[0], e.extra,
                                    b_and(e.guard, g))
    if e.kind == "call":
        if e.name in ("builtins.int", "builtins.float"):
            yield ("ValueError", e.guard, f"{e.name}()")
        elif e.name == "builtins.next" and len(e.args) == 1:
            yield "StopIteration", e.guard, "next()"
        elif e.name == ".index" and e.args:
            yield ("ValueError", b_and(e.guard, b_not(c_in(
                e.args[0], e.recv))), ".index()")
        elif e.name == ".pop" and len(e.args) == 1 and part(
                e.recv, F) is not None:
            yield ("KeyError", b_and(e.guard, b_not(c_in(
                e.args[0], e.recv))), ".pop()")


def elements(k, T):
    """Is k an element of the collection T?"""
    if k.op != "elem":
        return False
    L = k.args[0].args[0]
    return N.strip_iter(L) is N.strip_iter(T)


def pieces(t):
    """(string, separator, maximal number of cuts) of a split."""
    if t.op != "meth" or t.args[0] not in ("split", "rsplit"):
        return None
    pos, kw = [], {}
    for x in t.args[2:]:
        if x.op == "kw":
            kw[x.args[0]] = x.args[1]
        else:
            pos.append(x)
    sep = kw.get("sep", pos[0] if pos else NONE)
    cut = kw.get("maxsplit", pos[1] if len(pos) > 1 else const(-1))
    if not is_const(sep, str) or not is_const(cut, int):
        return None
    return t.args[1], sep, cut.args[0]


def short_list(x, k, g):
    s, sep, cut = pieces(x)
    if not is_const(k, int) or k.args[0] in (0, -1):
        return
    i = k.args[0]
    if i in (1, -2):
        if cut != 0:
            g = b_and(g, b_not(c_in(sep, s)))
    yield "IndexError", g, f"item {i} of {show(x, 3)}"


def short_unpack(x, n, star, g):
    s, sep, cut = pieces(x)
    has = c_in(sep, s)
    if n - bool(star) == 2:
        yield ("ValueError", b_and(g, b_not(has)),
               f"the unpacking of {show(x, 3)}")
    elif n - bool(star) > 2:
        yield "ValueError", g, f"the unpacking of {show(x, 3)}"
    if not star and (cut < 0 or cut > n - 1):
        yield ("ValueError", b_and(g, has) if n < 3 else g,
               f"the unpacking of {show(x, 3)}")


def absent(c, fn, name, F):
    """Without a file, looking up the attribute of the file must not look it
    up again."""
    o = F.args[0]
    I = c.run(fn, {name: const(F.args[1])})
    gone = b_not(c_in(const(F.args[1]), mk("attr", o, "__dict__")))
    has = N.c_has(o, const(F.args[1]))

    def again(g):
        return any(x in support(has) for x in support(g))
    bad = None
    for e in I.events:
        ts = [e.recv] + list(e.args) + [v for _, v in (e.kw or ())]
        if again(e.guard):
            bad = bad or e
        if sat(b_and(e.guard, gone)) and any(
                s is F for t in ts if isinstance(t, Term)
                for s in subterms(t)):
            bad = bad or e
    c.ob("not-open-fails-cleanly", "__getattr__", bad is None,
         f"looking up {F.args[1]} before the file is opened looks it up "
         "again without end", bad.where() if bad else fwhere(fn))
    ok = FALSE
    for g, n, loops in I.escapes:
        if subclass(c, n or "", "AttributeError"):
            ok = b_or(ok, g)
    rest = b_and(gone, I.normal)
    c.ob("not-open-fails-cleanly", "__getattr__:normal", not sat(rest),
         f"a value is returned although the file is not open {why(rest)}",
         fwhere(fn))


def found(c, fn, name, F):
    """Names of the file are found while it is open."""
    o = F.args[0]
    for what, shape in c05.SHAPES:
        I = c.run(fn, {name: shape})
        want = c05.expected(shape, what)
        opaque = any(loops for _, _, loops in I.returns)
        for g, exc, loops in I.escapes:
            bad = b_and(g, is_open(F, o))
            m = {}
            for x in support(bad):
                if x.op == "in":
                    T = N.strip_iter(x.args[1])
                    m[x] = True
                elif x.op in ("exc",):
                    m[x] = False
                elif x.op == "isnone" and not (is_const(x.args[0])):
                    m[x] = False
                elif x.op in ("exists", "truth") and x.args[0] is not mk(
                        "meth", "isopen", F):
                    opaque = opaque or x.op == "exists"
                    m[x] = True
            bad = cofactor(bad, m)
            if opaque or loops:
                c.notes.append(f"{what}: found by a loop")
                continue
            c.ob("contained-entry-found", what, not sat(bad),
                 f"{show(shape)} is refused although the file contains it "
                 f"{why(bad)}", fwhere(fn))


# ------------------------------------------------------------------- dimension
def dimension(c, F):
    fn = c.func("SofaStream.get_dimension")
    a = fn.node.args.args
    c.need(len(a) > 1, "parameter of SofaStream.get_dimension", 1)
    d = mk("param", a[1].arg)
    D = mk("attr", F, "dimensions")
    I = c.run(fn)
    c.need(len(I.returns), "sizes returned by SofaStream.get_dimension")
    known = c_in(d, D)
    for g, t, loops in I.returns:
        for L in loops:
            g = N.c_exists(L.term, g)
        for ag, x in alts(t):
            gg = b_and(g, ag)
            if not sat(gg):
                continue
            ok = size_of(x, d, D, gg)
            c.ob("dimension-size", "get_dimension", ok,
                 f"{show(x, 5)} is returned, not the size of the dimension, "
                 f"{why(gg)}", fwhere(fn))
    for g, name, loops in I.escapes:
        if not sat(g) or name is None:
            continue
        c.ob("dimension-error-type", "get_dimension", subclass(
            c, name, "ValueError"),
            f"{name.split('.')[-1]} is raised {why(g)}", fwhere(fn))
        bad = plain(b_and(g, known))
        for L in loops:
            bad = N.c_exists(L.term, bad) if hasattr(L, "term") else bad
        m = {x: False for x in support(bad) if x.op == "exc"}
        bad = cofactor(bad, m)
        c.ob("dimension-known", "get_dimension", not sat(bad),
             f"a dimension of the file is refused {why(bad)}", fwhere(fn))
    for e in I.events:
        if e.kind == "getitem" and e.recv is D and not elements(
                e.args[0], D):
            bad = plain(b_and(e.guard, b_not(c_in(e.args[0], D))))
            c.ob("dimension-error-type", "get_dimension:look up",
                 handled(e, "KeyError") or not sat(bad),
                 f"KeyError is raised for unknown dimensions {why(bad)}",
                 e.where())


def size_of(t, d, D, g):
    if t.op == "attr" and t.args[1] == "size" or t.op == "len":
        x = t.args[0]
    elif t.op == "meth" and t.args[0] == "__len__":
        x = t.args[1]
    else:
        return False
    if x.op == "item" and x.args[0] is D:
        k = x.args[1]
    elif x.op == "meth" and x.args[0] == "get" and x.args[1] is D:
        k = x.args[2]
    else:
        return x.op == "elem"
    return k is d or k.op == "elem" and entails(g, c_eq(k, d)) or \
        k is mk("str", d)
