"""C16: Updating conventions needs consent and never loses a convention."""
from .base import *
from .effects import *
from .values import kwargs
from .c23 import comps, same, source, listed, dumps, opened

RULE = ("effect and dominance analysis of update_conventions, for a given and "
        "for the default folder: the condition of every effect on a file of "
        "the conventions folder (write, copy, move, removal) entails that the "
        "answer read from the user is y (with assume_yes=False, which must be "
        "the default); a download is installed only where the condition "
        "entails that the file is missing or that the comparison of its "
        "content with the download failed, or that the convention is being "
        "deprecated; every response that is stored, and every page that lists "
        "the conventions, passed a status check that nothing absorbs; path "
        "components from the network are base names; every removal comes "
        "after the installation of the deprecated csv file and, for json "
        "files, after the compilation of the deprecated folder")
ASSUME = ["_compile_conventions compiles every csv file it lists (C23)",
          "base names end with csv, hence are not '..'"]

COPIES = {"shutil.copy", "shutil.copy2", "shutil.copyfile"}
MOVES = {"shutil.move", "os.rename", "os.replace", "os.renames",
         ".rename", ".replace"}
REMOVES = {"os.remove", "os.unlink", ".unlink", "shutil.rmtree", "os.rmdir",
           "os.removedirs", ".rmdir"}
MKDIR = {"os.mkdir", "os.makedirs", ".mkdir"}
EXISTS = {"os.path.isfile", "os.path.exists", "os.path.lexists"}
DIR = mk("sym", "the folder of the package", "", ())


def check(c):
    fn = c.func("update_conventions")
    a = fn.node.args
    names = [x.arg for x in a.args + a.kwonlyargs]
    c.need(1 if "assume_yes" in names else 0, "parameter assume_yes")
    folder = names[0] if names[0] != "assume_yes" else names[1]
    d = I_default(fn, "assume_yes")
    c.ob("consent", "default", d is not None and d.args[0] in (
        False, None, 0), "the conventions are updated without being asked "
        "for by default", fwhere(fn))
    given = mk("sym", "the given folder", "", ())
    n = 0
    for base, t in (([given], given),
                    ([DIR, "sofa_conventions", "conventions"], NONE)):
        I = c.run(fn, {folder: t, "assume_yes": const(False)})
        n += one(c, fn, I, base, given if t is given else None)
    # without asking
    I = c.run(fn, {folder: given, "assume_yes": const(True)})
    n += one(c, fn, I, [given], given, False)
    for e in ev(I, ("call",), {"builtins.input"}):
        c.ob("assume-yes", q(fn), not sat(e.guard), "the user is asked "
             f"although assume_yes is True, if {why(e.guard)}", e.where())
    c.need(n, "files changed by update_conventions", 4)


def I_default(fn, name):
    a = fn.node.args
    ds = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    ds.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)})
    v = ds.get(name)
    import ast
    return const(v.value) if isinstance(v, ast.Constant) else None


def temp(p):
    bs = list(path_base(p))
    return bool(bs) and all(b.op == "call" and b.args[0] in TEMP for b in bs)


def effects(I, base):
    """(event, kind, path, source) of what changes the conventions folder."""
    js = {id_of(w): e for e, p, _, _, _ in dumps(I) for w in (p,)}
    for e, p in write_effects(I):
        if e.name in TEMP or e.name in MKDIR:
            continue
        if e.name in MOVES:
            src = e.recv if e.name[0] == "." else e.arg(0, "src")
            dst = e.arg(0, "target") if e.name[0] == "." else e.arg(1, "dst")
            if src is not None and not temp(src):
                yield e, "remove", src, None
            if dst is not None and not temp(dst):
                yield e, "install", dst, src
            continue
        if p is None or temp(p):
            continue
        if e.name in REMOVES:
            yield e, "remove", p, None
        elif e.name in COPIES:
            src = e.arg(0, "src")
            if src is not None and e.name != "shutil.copyfile" and (
                    same(comps(p), base) or
                    same(comps(p), base + ["deprecated"])):
                x = comps(src)[-1]      # copied into a folder
                p = mk("call", "os.path.join", p, x if isinstance(
                    x, Term) else const(x))
            yield e, "install", p, src
        elif id_of(p) in js:
            yield e, "json", p, None
        else:
            yield e, "install", p, None


def id_of(p):
    return p.id


def asked(I):
    """Conditions under which the answer is y."""
    return [N.c_eq(e.result, const("y")) for e in ev(I, ("call",), {
        "builtins.input"}) if e.result is not None]


def one(c, fn, I, base, given, ask=True):
    effs = list(effects(I, base))
    answers = asked(I)
    for e, kind, p, src in effs if ask else ():
        key = f"{kind}:{e.name}:{last(p)}"
        g = e.guard
        for y in answers:
            g = b_and(g, b_not(y))
        c.ob("consent", key, not sat(g), f"{e.name} changes the conventions "
             "folder although the user did not answer y" + (
                 f", if {why(g)[:200]}" if sat(g) else ""), e.where())
    paths(c, I, given)
    for e, kind, p, src in effs:
        if kind == "install":
            installed(c, I, e, p, src, base)
        elif kind == "remove":
            removed(c, I, e, p, base, effs)
        if kind in ("install", "json"):
            for L in e.loops:
                responses(c, I, e, L.args[0], "the list of conventions")
    for e in ev(I, ("call",), {".write", ".write_bytes", ".write_text",
                               ".writelines"}):
        for x in e.args:
            responses(c, I, e, x, "a convention")
    return len(effs)


def last(p):
    cs = comps(p)
    x = cs[-1] if cs else p
    return "json" if source(p) is not None and source(p) != cs else \
        "/".join("*" if isinstance(y, Term) else y for y in cs[1:])


# ------------------------------------------------------------- what is installed
def same_path(t, p):
    return same(comps(t), comps(p))


def on_disk(a, p):
    """Atom a tells that file p exists."""
    if a.op != "truth":
        return False
    t = a.args[0]
    if t.op == "call" and t.args[0] in EXISTS and len(t.args) == 2:
        return same_path(t.args[1], p)
    if t.op == "meth" and t.args[0] in ("is_file", "exists"):
        return same_path(t.args[1], p)
    return False


def origin(t, depth=0):
    """What the content of a value is taken from: responses, files, others."""
    if t is None or depth > 30 or response(t) or opened(t) is not None:
        return {t}
    if t.op == "phi":
        xs = t.args[1::2]
    elif t.op == "meth":
        xs = t.args[2:] if is_const(t.args[1]) else t.args[1:2]
    elif t.op in ("attr", "str", "item", "slice"):
        xs = t.args[:1]
    elif t.op == "call" and t.args[0] in (
            "builtins.bytes", "builtins.str", "builtins.bytearray",
            "builtins.list", "io.BytesIO", "re.sub", "builtins.map"):
        xs = t.args[-1:]
    elif t.op in ("cat", "bag"):
        xs = [x.args[0] for x in t.args if isinstance(x, Term)
              and x.op == "p" and not is_const(x.args[0])]
    elif t.op == "elem":
        xs = [t.args[0].args[0]]
    else:
        return {t}
    out = set()
    for x in xs:
        if isinstance(x, Term):
            out |= origin(x, depth + 1)
    return out


def reads(t, p):
    os_ = origin(t)
    return bool(os_) and all(x is not None and opened(x) is not None and
                             same_path(opened(x)[0], p) for x in os_)


def download(t):
    os_ = origin(t)
    return bool(os_) and all(x is not None and response(x) for x in os_)


def equal(a, p):
    """Atom a tells that the content of p is the download."""
    return a.op == "eq" and any(reads(x, p) and download(y) for x, y in (
        a.args, a.args[::-1]))


def installed(c, I, e, p, src, base):
    cs = comps(p)
    if not (len(cs) > len(base) and same(cs[:len(base)], base)):
        c.ob("only-changed", "*", False, "a file of the conventions folder "
             f"is written that is not known ({show(p, 3)})", e.where())
        return
    g = e.guard
    as_ = list(support(g))
    known = {a: True for a in as_ if on_disk(a, p) or equal(a, p)}
    rest = cs[len(base):]
    text = "/".join("*" if isinstance(x, Term) else x for x in rest)
    if rest[0] == "deprecated" and len(rest) == 2:
        main = mk("call", "os.path.join", *[
            x if isinstance(x, Term) else const(x) for x in base], rest[1])
        known.update({a: False for a in as_ if on_disk(a, main)})
    c.ob("only-changed", text, not sat(cofactor(g, known)),
         "a convention file is written although it exists and has the content "
         "of the download", e.where())
    # its content was downloaded under the same condition
    if src is None:
        ws = [w for w in ev(I, ("call",), {".write", ".write_bytes",
                                           ".writelines"})
              if w.recv is not None and (
                  w.recv is e.result or opened(w.recv) and
                  same_path(opened(w.recv)[0], p))]
        ok = bool(ws) and all(download(x) for w in ws for x in w.args)
        c.ob("download-installed", text, ok, "what is written to the "
             "conventions folder is not the download", e.where())
        return
    ok = False
    for w in ev(I, ("call",), {".write", ".write_bytes"}):
        q_ = opened(w.recv)[0] if w.name == ".write" and w.recv is not None \
            and opened(w.recv) else w.recv
        if q_ is None or w.seq > e.seq or not same_path(q_, src):
            continue
        if any(download(x) for x in w.args) and entails(e.guard, w.guard):
            ok = True
    a, b = comps(src), comps(p)
    ok = ok and a and (a[-1] is b[-1] or a[-1] == b[-1])
    c.ob("download-installed", text, ok, "a file is installed that was not "
         "downloaded under the same condition and name", e.where())


# --------------------------------------------------------------------- responses
def response(t):
    if t.op == "call" and matches(t.args[0], NETWORK):
        return t.args[0].rsplit(".", 1)[-1] in (
            "get", "request", "post", "urlopen", "put", "head")
    return t.op == "meth" and t.args[0] in ("get", "request") and \
        t.args[1].op in ("call", "new") and isinstance(
            t.args[1].args[0], str) and "Session" in t.args[1].args[0]


def responses(c, I, e, x, what):
    for R in subterms(x):
        if not response(R) or R.args[0] == "urllib.request.urlopen":
            continue
        c.ob("status-checked", what, checked(I, R, e), f"{what} is taken from "
             f"a response whose status was not checked ({show(R, 3)})",
             e.where())


def checked(I, R, e):
    for s in ev(I, ("call",), {".raise_for_status"}):
        if s.recv is R and s.seq < e.seq and entails(e.guard, s.guard) and \
                not any(tc.atom is not None and sat(b_and(e.guard, tc.atom))
                        for tc in s.trys):
            return True
    ok = c_truth(mk("attr", R, "ok"))
    st = N.c_eq(mk("attr", R, "status_code"), const(200))
    return entails(e.guard, ok) or entails(e.guard, st)


# ------------------------------------------------------------------------- paths
def paths(c, I, given):
    for e, p in write_effects(I):
        if p is None:
            continue
        for kind, t in path_leaves(p):
            c.ob("inside-the-folder", f"{e.name}", kind != "other" or
                 t is given or t is DIR,
                 f"the path of {e.name} is built from {show(t, 4)}",
                 e.where())


# ----------------------------------------------------------------------- removal
def removed(c, I, e, p, base, effs):
    cs = comps(p)
    src = source(p)
    js = src is not None and not same(src, cs)
    cs = src if js else cs
    if not (len(cs) > len(base) and same(cs[:len(base)], base)):
        c.ob("kept", "*", False, "something else than a convention that is "
             f"being deprecated is removed ({show(p, 3)})", e.where())
        return
    rest = cs[len(base):]
    text = "json" if js else "csv"
    if len(rest) != 1 or e.name in ("shutil.rmtree", "os.rmdir",
                                    "os.removedirs", ".rmdir"):
        c.ob("kept", text, False, "something else than a convention that is "
             "being deprecated is removed", e.where())
        return
    want = base + ["deprecated", rest[0]]
    ins = [x for x, k, w, _ in effs if k == "install" and same(
        comps(w), want) and entails(e.guard, x.guard) and (
            x.seq < e.seq or x is e)]
    c.ob("kept", text, bool(ins), f"the {text} file of a convention is "
         "removed before its deprecated csv file is in place", e.where())
    if not js:
        return
    ok = any(compiled(I, d, e, base, x) for d in dumps(I) for x in ins)
    c.ob("kept", "compiled", ok, "the json file of a convention is removed "
         "before its deprecated csv file has been compiled", e.where())


def compiled(I, d, e, base, ins):
    """Dump d compiles all of the deprecated folder after ins, before e."""
    w = d[0]
    if not ins.seq < w.seq < e.seq or not w.loops:
        return False
    if any(tc.atom is not None and sat(b_and(e.guard, tc.atom))
           for tc in w.trys):
        return False
    for L in w.loops:
        fs = listed(L.args[0])
        if not fs or not any(same(f, base + ["deprecated"]) and pat in (
                "*.csv", "*csv", "*") for f, pat in fs):
            continue
        calls = [x for x in I.events if x.kind == "call" and x.result is not
                 None and x.result in subterms(L.args[0]) and
                 x.name in ("glob.glob", "glob.iglob", "os.listdir",
                            "os.scandir", ".glob", ".iterdir", ".rglob")
                 and x.seq < w.seq]
        if calls and all(ins.seq < x.seq and entails(e.guard, x.guard)
                         for x in calls):
            return True
    return False
