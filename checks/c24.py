"""C24: a convention request gets exactly that convention and version."""
import os.path
import re

from .base import *

RULE = ("selection provenance: the term of the path from which a convention "
        "table is loaded is decomposed into the listing it is taken from, "
        "the condition that selects the candidates and the index; the "
        "listing must cover the standardized and the deprecated folder, the "
        "condition must separate names that share a prefix or suffix, and "
        "the index must select the requested version, or the numerically "
        "highest one for 'latest', of these candidates; no alternative of "
        "the path may be selected in another way")
# (requested name, file, is it a file of this convention)
NAMES = [("GeneralTF", "GeneralTF_1.0.json", True),
         ("GeneralTF", "GeneralTF_2.0.json", True),
         ("GeneralTF", "GeneralTF-E_1.0.json", False),
         ("GeneralTF-E", "GeneralTF_1.0.json", False),
         ("GeneralTF-E", "GeneralTF-E_1.0.json", True),
         ("FreeFieldHRIR", "SimpleFreeFieldHRIR_1.0.json", False),
         ("SimpleFreeFieldHRIR", "SimpleFreeFieldHRIR_0.4.json", True),
         ("SimpleFreeFieldHRI", "SimpleFreeFieldHRIR_0.4.json", False),
         ("deprecated", "SimpleFreeFieldHRIR_0.4.json", False)]
VERSIONS = [("GeneralTF_1.0.json", "1.0"), ("GeneralTF-E_2.13.json", "2.13"),
            ("SimpleFreeFieldHRIR_0.4.json", "0.4")]
NUMBERS = ("builtins.float", "packaging.version.parse",
           "packaging.version.Version", "numpy.float64", "decimal.Decimal")
FOLDERS = ("/a_b/c.d/conventions/", "/a_b/c.d/conventions/deprecated/")


def check(c):
    fn = c.func("Sofa.__init__")
    names = [a.arg for a in fn.node.args.args]
    if names[1:4] != ["convention", "mandatory", "version"]:
        raise AnalysisError("parameters of Sofa changed")
    o, conv, version = (mk("param", names[i]) for i in (0, 1, 3))
    decide_loads(c, fn, o, conv, version)
    # the convention of an object, after changes of the object
    o = mk("param", "self")
    for name in ("Sofa.verify", "Sofa.add_missing"):
        decide_loads(c, c.func(name), o, t_attr(o, "GLOBAL_SOFAConventions"),
                     t_attr(o, "GLOBAL_SOFAConventionsVersion"))


REGEX = tuple("re." + n for n in ("escape", "compile", "match", "fullmatch",
                                  "search", "split", "sub", "findall"))


def lists(x):
    return x.op in ("call", "meth") and str(x.args[0]).rsplit(
        ".", 1)[-1] in ("glob", "iglob", "rglob", "listdir", "walk",
                        "scandir", "iterdir")


def listed(x):
    """Is x a collection of listed files?"""
    return isinstance(x, Term) and x.op not in ("elem", "idx") and (
        lists(x) or any(listed(a) for a in x.args))


class Unknown(Exception):
    pass


def value(t, env):
    """Constant propagation through a term that names one file."""
    if t.id in env:
        return env[t.id]
    op, a = t.op, t.args
    try:
        if op == "const":
            return a[0]
        if op == "str":
            return str(value(a[0], env))
        if op == "tup":
            return tuple(value(x, env) for x in a)
        if op == "slice":
            return slice(*[value(x, env) for x in a])
        if op == "item":
            return value(a[0], env)[value(a[1], env)]
        if op == "len":
            return len(value(a[0], env))
        if op == "cat":
            if any(N.p_guard(p) != TRUE or N.p_loops(p) for p in a):
                raise Unknown
            return "".join(str(value(p.args[0], env)) for p in a)
        if op == "attr" and a[1] in ("name", "stem", "suffix"):
            import pathlib
            return getattr(pathlib.PurePosixPath(value(a[0], env)), a[1])
        if op in ("call", "meth"):
            pos = [x for x in a[1:] if x.op != "kw"]
            kw = {(k.args[0] if isinstance(k.args[0], str)
                   else k.args[0].args[0]): value(k.args[1], env)
                  for k in a[1:] if k.op == "kw"}
            pos = [value(x, env) for x in pos]
            if op == "meth" and isinstance(pos[0], (
                    str, re.Pattern, re.Match)):
                return getattr(pos[0], a[0])(*pos[1:], **kw)
            if op == "call" and a[0] in REGEX:
                return getattr(re, a[0][3:])(*pos, **kw)
            if op == "call" and a[0] in (
                    "os.path.basename", "os.path.splitext", "os.path.split",
                    "os.path.dirname"):
                return getattr(os.path, a[0][8:])(*pos)
            if op == "call" and a[0] in ("builtins.str", "builtins.float"):
                return {"str": str, "float": float}[a[0][9:]](*pos)
            if op == "call" and a[0] in ("pathlib.Path", "pathlib.PurePath"):
                return pos[0]
    except (TypeError, ValueError, IndexError, AttributeError):
        raise Unknown
    raise Unknown


def holds(a, env):
    """The value of an atom, or Unknown."""
    x = a.args
    if a.op == "eq":
        return value(x[0], env) == value(x[1], env)
    if a.op == "in":
        return value(x[0], env) in value(x[1], env)
    if a.op == "starts":
        return value(x[0], env).startswith(value(x[1], env))
    if a.op == "ends":
        return value(x[0], env).endswith(value(x[1], env))
    if a.op == "truth":
        return bool(value(x[0], env))
    if a.op == "isnone":
        return value(x[0], env) is None
    raise Unknown


def settled(g, env):
    m = {}
    for a in support(g):
        try:
            m[a] = bool(holds(a, env))
        except (Unknown, TypeError, AttributeError):
            pass
    return cofactor(g, m)


def unstr(t):
    while t.op == "str" or t.op == "call" and t.args[0] == "builtins.str":
        t = t.args[-1]
    return t


class Choice:
    """Which file a path term selects."""

    def __init__(s, conv, version):
        s.conv, s.version = conv, version
        s.why = None

    def fail(s, text):
        s.why = s.why or text
        return False

    # ------------------------------------------------------------ candidates
    def names(s, g, E):
        """Does condition g select exactly the files of the convention?"""
        for folder in FOLDERS:
            for conv, file, yes in NAMES:
                env = {E.id: folder + file, s.conv.id: conv}
                r = settled(g, env)
                # an own name is needed; folders must not matter
                if yes and not sat(r):
                    return s.fail(f"'{file}' is not found for '{conv}'")
                if not yes and sat(r):
                    return s.fail(f"'{folder[-11:]}{file}' is taken for "
                                  f"'{conv}'")
        return True

    def is_version(s, t, E):
        try:
            return all(value(t, {E.id: f + file}) == v for f in FOLDERS
                       for file, v in VERSIONS)
        except Unknown:
            return False

    def is_number(s, t, E):
        """float(version), parse(version)"""
        return t.op == "call" and t.args[0] in NUMBERS and \
            len(t.args) == 2 and s.is_version(t.args[1], E)

    def same_version(s, g, E):
        """Does g require the requested version?"""
        for a in support(g):
            if a.op == "eq" and entails(g, atom(a)):
                x, y = map(unstr, a.args)
                if y is not s.version:
                    x, y = y, x
                if y is s.version and s.is_version(x, E):
                    return True
        return False

    def part(s, B):
        r = s.split(B)
        return r[0] if r is not None and len(r) == 1 else None

    def split(s, B):
        """[(L, element, value, guard)] of the parts of a collection."""
        while B.op in ("call", "meth") and (
                B.args[0] in ("numpy.array", "numpy.asarray", "builtins.list",
                              "builtins.tuple", "astype", "tolist", "keys")):
            B = B.args[1]
        if B.op != "bag" or len(B.args) < 2:
            return None
        out = []
        for p in B.args[1:]:
            Ls = N.p_loops(p)
            if len(Ls) != 1:
                return None
            L, e, v, g = Ls[0], p.args[0], p.args[1], N.p_guard(p)
            out.append((L, e, v, g))
        return out

    def listing(s, Ls):
        """Are both folders listed?"""
        std = dep = False
        for x in {x for L in Ls for x in subterms(L.args[0])}:
            if x.op == "item" and isinstance(x.args[1], Term) and \
                    x.args[1].op == "slice" and listed(x.args[0]):
                return s.fail("a part of the listed files is dropped")
        for x in {x for L in Ls for x in subterms(L.args[0])}:
            if not lists(x):
                continue
            text = [y.args[0] for y in subterms(x) if y.op == "const"
                    and isinstance(y.args[0], str)]
            if any("**" in y for y in text) or x.args[0] in ("rglob",
                                                             "os.walk"):
                return True
            if any("deprecated" in y for y in text):
                dep = True
            else:
                std = True
        return std and dep

    def candidates(s, B):
        """The parts of a collection of listed files."""
        r = s.split(B)
        if r is None or any(bare(e) is not mk("elem", L)
                            for L, e, v, g in r):
            return None
        return [(L, bare(e), v, g) for L, e, v, g in r]

    def numbers(s, B, A):
        """Terms of the numbers or texts B of the versions of candidates A,
        one for each part: [(term, element)]."""
        r = s.split(B)
        if r is None or len(r) != len(A):
            return None
        out = []
        for (L, e, v, g), (L0, E, _, g0) in zip(r, A):
            e = N.rename_loop(L, L0, t=e)
            g = N.rename_loop(L, L0, g=g)
            if L.args[0] is not L0.args[0] or g != g0:
                return None
            out.append((e, E))
        return out

    # --------------------------------------------------------------- choices
    def checked(s, parts):
        return (s.listing([p[0] for p in parts]) or s.fail(
            "the listing lacks one of the two folders")) and all(
                s.names(g, mk("elem", L)) for L, _, _, g in parts)

    def versions(s, B, A):
        r = s.numbers(B, A)
        return r is not None and all(s.is_version(v, E) for v, E in r)

    def numeric(s, B, A):
        r = s.numbers(B, A)
        return r is not None and all(s.is_number(v, E) for v, E in r)

    def by_version(s, A):
        """A mapping from versions to files."""
        p = s.split(A)
        return p if p and all(v is mk("elem", L) and s.is_version(k, v)
                              for L, k, v, g in p) else None

    def exact(s, t, g):
        """The file of exactly the requested version."""
        if t.op == "item":
            A, i = t.args
            r = s.candidates(A)
            if r and i.op == "index" and unstr(i.args[1]) is s.version and \
                    s.versions(i.args[0], r):
                return s.checked(r)
            if i in (const(0), const(-1)):
                r = r or s.candidates(unsorted(A))
                if r and all(s.same_version(p[3], p[1]) for p in r):
                    return s.checked(r)
            p = s.by_version(A)
            if p and unstr(i) is s.version:
                return s.checked(p)
        if t.op == "sel":
            L, pg, v = t.args[0], N.g_of(t.args[1]), t.args[2]
            E = mk("elem", L)
            if v is E and s.same_version(pg, E):
                return s.checked([(L, E, None, pg)])
        return s.fail(f"{show(t, 5)} is not the file of the requested "
                      "version")

    def highest(s, t, g):
        """The file of the numerically highest version."""
        if t.op == "item":
            A, i = t.args
            r = s.candidates(A)
            if r and i.op == "call" and i.args[0] == "numpy.argmax" and \
                    s.numeric(i.args[1], r):
                return s.checked(r)
            if r and i.op == "index":
                m = i.args[1]
                if m.op == "call" and m.args[0] in (
                        "builtins.max", "numpy.max", "numpy.amax"):
                    B = i.args[0]
                    if len(m.args) == 2 and s.numeric(B, r) and \
                            s.numbers(m.args[1], r) == s.numbers(B, r):
                        return s.checked(r)
                    if s.by_number(m) and s.versions(B, r) and \
                            s.numbers(m.args[1], r) == s.numbers(B, r):
                        return s.checked(r)
            p = s.by_version(A)
            if p and i.op == "call" and s.by_number(i) and i.args[1] in (
                    A, mk("bag", "list", *A.args[1:])):
                return s.checked(p)
            if i is const(-1) and A.op == "call" and A.args[0] == \
                    "builtins.sorted":
                return s.sorted_by(A)
        if t.op == "call" and t.args[0] == "builtins.max":
            return s.sorted_by(t)
        return s.fail(f"{show(t, 5)} is not the file of the highest version")

    def by_number(s, t):
        """max(versions, key=float)"""
        k = sort_key(t)
        return t.args[0] == "builtins.max" and k is not None and \
            k.args[1].op == "call" and k.args[1].args[0] in NUMBERS and \
            k.args[1].args[1:] == (k.args[0],)

    def sorted_by(s, t):
        r = s.candidates(t.args[1])
        k = sort_key(t)
        if r and k is not None and s.is_number(k.args[1], k.args[0]):
            return s.checked(r)
        return s.fail(f"{show(t, 5)} is not sorted by the number of the "
                      "version")


def sort_key(t):
    """The key function of max() or sorted(), its only option."""
    k = [x for x in t.args[1:] if x.op == "kw"]
    if len(k) == 1 and k[0].args[1].op == "lam":
        return k[0].args[1]


def bare(t):
    """The file, given as a text or as a path object."""
    while t.op == "str" or t.op == "call" and len(t.args) == 2 and \
            t.args[0] in ("builtins.str", "os.fspath", "pathlib.Path",
                          "pathlib.PurePath"):
        t = t.args[-1]
    return t


def unsorted(t):
    return t.args[1] if t.op == "call" and t.args[0] == "builtins.sorted" \
        else t


def decide_loads(c, fn, o, conv, version):
    I = c.run(fn)
    sets = [e for e in ev(I, ("setattr", "rawset"))
            if e.recv is o and e.args[0] is const("_convention")
            and sat(e.guard)]
    loads = []
    for e in sets:
        t = e.args[1]
        js = {x.id: x for x in subterms(t) if x.op == "call"
              and x.args[0] in ("json.load", "json.loads")}
        if not js:
            if not (t.op == "bag" and len(t.args) == 1):
                continue
            if fn.name == "__init__":
                g = b_and(e.guard, b_not(c_isnone(conv)))
                c.ob("no-empty-table", q(fn), not sat(g),
                     "an object for a convention gets an empty table when "
                     f"{why(g)}", e.where())
            continue
        loads.append(e)
        for J in js.values():
            whole(c, fn, e, J)
            source(c, fn, e, J, conv, version)
    c.need(len(loads), f"convention tables loaded by {q(fn)}")
    if fn.name == "__init__":
        g = b_and(I.normal, b_not(c_isnone(conv)))
        for e in loads:
            g = b_and(g, b_not(e.guard))
        c.ob("table-loaded-or-error", q(fn), not sat(g),
             "no convention is loaded and no error is raised when "
             f"{why(g)}", fwhere(fn))


def whole(c, fn, e, J):
    """All entries of the file become entries of the table."""
    t = e.args[1]
    ok, text = False, show(t, 4)
    if t is J:
        ok = True
    if t.op == "bag" and len(t.args) == 2:
        p = t.args[1]
        Ls = N.p_loops(p)
        if len(Ls) == 1:
            K = mk("elem", Ls[0])
            ok = N.strip_iter(Ls[0].args[0]) is J and \
                p.args[1] is t_item(J, K) and N.p_guard(p) == TRUE
            text = f"{show(p.args[0], 3)}: {show(p.args[1], 3)} if " \
                f"{show_g(N.p_guard(p))}"
    c.ob("whole-table", q(fn), ok, "the table is not the content of the "
         f"convention file: {text}", e.where())


def source(c, fn, e, J, conv, version):
    files = []
    for fg, f in alts(J.args[1]):
        found = None
        for x in subterms(f):
            if x.op == "call" and x.args[0] == "builtins.open" and \
                    len(x.args) > 1:
                found = x.args[1]
            if x.op == "meth" and x.args[0] in ("open", "read_text",
                                                "read_bytes"):
                found = x.args[1]
        if found is None:
            raise AnalysisError(f"file of the convention at {e.where()}")
        files += [(b_and(fg, pg), x) for pg, x in alts(found)]
    lat = c_eq(version, const("latest"))
    for ag, t in files:
        g = N.subst_g(b_and(e.guard, ag), {mk("str", version).id: version})
        t = bare(t)
        if sat(b_and(g, b_not(lat))):
            ch = Choice(conv, version)
            c.ob("requested-version", q(fn), ch.exact(t, g),
                 f"{q(fn)} does not load exactly the requested convention: "
                 f"{ch.why}", e.where())
        if sat(b_and(g, lat)):
            ch = Choice(conv, version)
            c.ob("latest-version", q(fn), ch.highest(t, g),
                 f"{q(fn)} does not load the highest version: {ch.why}",
                 e.where())
