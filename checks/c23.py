"""C23: Compiling conventions covers every source and every line."""
from .base import *
from sflow.interp import catches
from .values import kwargs

RULE = ("dataflow from the csv files to the json files, for the given and "
        "for the default folder: the loop that writes runs over all csv "
        "files of the folder and of its deprecated sub folder, on every "
        "path; the path written is the path read with json instead of csv; "
        "the table written is filled from exactly that file, each iteration "
        "over its lines after the header stores one entry (under no "
        "condition) or leaves with a ValueError that names the file; an "
        "entry has the lower case of every header field with the cell of the "
        "same column; whatever is taken out of the table is stored again")
ASSUME = ["glob and os.listdir list all files of a folder",
          "no two lines of a file have the same name"]
DIR = mk("sym", "the folder of the package", "", ())


def check(c):
    m = c.p.modules.get("sofar.update_conventions")
    fn = m and m.funcs.get("_compile_conventions")
    c.need(1 if fn else 0, "update_conventions._compile_conventions")
    a = fn.node.args.args
    c.need(len(a), "parameter of _compile_conventions")
    given = mk("sym", "the given folder", "", ())
    one(c, fn, c.run(fn, {a[0].arg: given}), [given])
    I = c.run(fn, {a[0].arg: NONE})
    if any(d for d in dumps(I)):
        one(c, fn, I, [DIR, "sofa_conventions", "conventions"])


# ------------------------------------------------------------------- path terms
def comps(t):
    """Components of a path term, strings and terms."""
    if is_const(t, str):
        return [x for x in t.args[0].split("/") if x and x != "."]
    if t.op == "call":
        pos, kw = kwargs(t)
        n = t.args[0]
        if n in ("os.path.join", "pathlib.Path", "pathlib.PurePath",
                 "posixpath.join"):
            return [y for x in pos for y in comps(x)]
        if n in ("os.path.abspath", "os.path.realpath", "os.fspath",
                 "os.path.normpath", "builtins.str") and pos:
            return comps(pos[0])
        if n == "os.path.dirname" and pos:
            return parent(comps(pos[0]))
        if n == "os.path.basename" and pos:
            return comps(pos[0])[-1:]
    if t.op == "str":
        return comps(t.args[0])
    if t.op == "bin" and t.args[0] == "Div":
        return comps(t.args[1]) + comps(t.args[2])
    if t.op == "meth":
        if t.args[0] == "joinpath":
            return [y for x in t.args[1:] for y in comps(x)]
        if t.args[0] in ("resolve", "absolute", "as_posix", "expanduser"):
            return comps(t.args[1])
    if t.op == "attr" and t.args[1] == "parent":
        return parent(comps(t.args[0]))
    if t.op == "attr" and t.args[1] == "name":
        return comps(t.args[0])[-1:] if path_like(t.args[0]) else [t]
    if t.op == "attr" and t.args[1] == "path" and path_like(t.args[0]):
        return comps(t.args[0])
    if t.op == "cat":
        return glued(t)
    if t.op == "glob" and t.args[0].endswith("__file__"):
        return [DIR, "<module>"]
    return [t]


def glued(t):
    """Components of a concatenated path."""
    ps = N.cat_parts(t)
    if any(N.p_guard(p) != TRUE or N.p_loops(p) for p in ps):
        return [t]
    out, cur = [], []
    for p in ps:
        x = p.args[0]
        if is_const(x, str):
            first, *more = x.args[0].split("/")
            cur += [const(first)] if first else []
            for y in more:
                out.append(cur)
                cur = [const(y)] if y else []
        else:
            c = comps(x)
            if len(c) > 1 and cur:
                return [t]
            out += [[const(y) if isinstance(y, str) else y] for y in c[:-1]]
            cur += [const(y) if isinstance(y, str) else y for y in c[-1:]]
    if any(len(c) != 1 for c in out) or not cur:
        return [t]
    y = None
    if len(cur) == 2 and is_const(cur[1], str):
        n = {"csv": 3, ".csv": 4}.get(cur[1].args[0])
        y = cut(cur[0], n) if n else None
    cur = cur[0] if len(cur) == 1 else y if y is not None else cat_of(cur)
    return [c[0].args[0] if is_const(c[0], str) else c[0] for c in out] + [
        cur.args[0] if is_const(cur, str) else cur]


def cat_of(ts):
    return N.mk_cat([N.P(x) for x in ts])


def path_like(t):
    return t.op in ("elem", "call", "bin", "attr")


def parent(c):
    if not c:
        return c
    x = c[-1]
    if isinstance(x, str):
        return c[:-1]
    return c[:-1] + [mk("call", "os.path.dirname", x)] if len(c) == 1 else \
        c[:-1]


def simple(c):
    """[dirname(x), x] is the path x itself."""
    if len(c) == 2 and isinstance(c[0], Term) and c[0] is mk(
            "call", "os.path.dirname", c[1]):
        return c[1:]
    return c


def same(a, b):
    a, b = simple(a), simple(b)
    return len(a) == len(b) and all(
        x == y if isinstance(x, str) or isinstance(y, str) else x is y
        for x, y in zip(a, b))


def source(w):
    """Components of the csv path whose ending a written path replaces."""
    for _ in range(6):
        if w.op == "call" and w.args[0] in ("builtins.str", "pathlib.Path",
                                            "os.fspath") and len(
                w.args) == 2:
            w = w.args[1]
        elif w.op == "str":
            w = w.args[0]
        else:
            break
    if w.op == "meth" and w.args[0] == "with_suffix":
        return comps(w.args[1]) if w.args[2:] == (const(".json"),) else None
    if w.op == "meth" and w.args[0] == "with_name" and len(w.args) == 3:
        s = source(w.args[2])
        return parent(comps(w.args[1])) + s if s is not None else None
    if w.op == "call" and w.args[0] == "re.sub" and len(w.args) == 4:
        p, to, x = w.args[1:]
        if is_const(p, str) and is_const(to, str) and (
                p.args[0], to.args[0]) in (("\\.csv$", ".json"),
                                           ("csv$", "json")):
            return comps(x)
        return None
    if w.op == "cat":
        ps = [p.args[0] for p in w.args if isinstance(p, Term)]
        if len(ps) < 2:
            return None
        x, tail = ps[-2], ps[-1]
        head = ps[:-2]
        if not is_const(tail, str) or tail.args[0] not in ("json", ".json"):
            return None
        y = cut(x, 3 if tail.args[0] == "json" else 4)
        if y is None:
            cs = comps(cat_of(ps[:-1] + [const(
                tail.args[0].replace("json", "csv"))]))
            return cs if len(cs) > 1 and isinstance(
                cs[-1], Term) and cs[-1].op != "cat" else None
        if not head:
            return comps(y)
        # folder + "/" + name
        if len(head) == 2 and head[1] is const("/"):
            return comps(head[0]) + comps(y)
        return None
    cs = None
    if w.op == "call" and w.args[0] in ("os.path.join", "pathlib.Path") or \
            w.op == "bin" and w.args[0] == "Div" or \
            w.op == "meth" and w.args[0] == "joinpath":
        ts = [x for x in w.args[1:] if isinstance(x, Term)]
        last = source(ts[-1])
        if last is None:
            return None
        return [y for x in ts[:-1] for y in comps(x)] + last
    return cs


def cut(x, n):
    """The path of which x is everything but the ending (n characters)."""
    if x.op == "str":
        x = x.args[0]
    if x.op == "slice" or x.op == "item" and x.args[1].op == "slice":
        base, s = (x.args[0], x.args[1:]) if x.op == "slice" else (
            x.args[0], x.args[1].args)
        lo, hi = s[0], s[1]
        step = s[2] if len(s) > 2 else NONE
        if lo in (NONE, const(0)) and step in (NONE, const(1)) and \
                hi is const(-n):
            return base
        if n == 4 and lo in (NONE, const(0)) and step is NONE and \
                hi is mk("meth", "rindex", base, const(".")):
            return base
        if lo in (NONE, const(0)) and hi.op == "bin" and hi.args[
                0] == "Sub" and hi.args[2] is const(n):
            return base
        return None
    if n == 4 and x.op == "item" and x.args[1] is const(0):
        y = x.args[0]
        if y.op == "call" and y.args[0] == "os.path.splitext":
            return y.args[1]
        if y.op == "meth" and y.args[0] in ("rsplit", "rpartition") and \
                y.args[2] is const(".") and (
                    y.args[0] == "rpartition" or const(1) in y.args[3:] or
                    any(k is mk("kw", "maxsplit", const(1))
                        for k in y.args[3:])):
            return y.args[1]
    if n == 4 and x.op == "phi" and len(x.args) > 1:
        return cut(x.args[1], n)
    if n == 4 and x.op == "attr" and x.args[1] == "stem":
        return mk("attr", x.args[0], "name")
    if x.op == "meth" and x.args[0] == "removesuffix" and x.args[2] is const(
            ".csv" if n == 4 else "csv"):
        return x.args[1]
    return None


# --------------------------------------------------------------------- sources
WRAP = {"builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set",
        "builtins.reversed", "builtins.iter", "numpy.unique",
        "builtins.frozenset", "natsort.natsorted"}


def listed(T):
    """[(folder components, pattern)] of what the collection T contains, or
    None if that is not known; a pattern None is an incomplete part."""
    if T.op == "phi":
        return None
    if T.op == "call":
        pos, kw = kwargs(T)
        n = T.args[0]
        if n in ("glob.glob", "glob.iglob") and pos:
            if kw.get("recursive") is not None and any(
                    x == "**" for x in comps(pos[0])):
                c = comps(pos[0])
                i = c.index("**")
                return [(c[:i], c[-1]), (c[:i] + ["deprecated"], c[-1])]
            c = comps(pos[0])
            if kw.get("root_dir") is not None:
                return None
            if not isinstance(c[-1], str):
                return None
            return [(c[:-1], c[-1])]
        if n in ("os.listdir", "os.scandir") and pos:
            return [(comps(pos[0]), "*")]
        if n in WRAP and pos:
            return listed(pos[0])
        if n in ("itertools.chain",):
            return union(pos)
        return None
    if T.op == "meth":
        if T.args[0] in ("glob", "rglob") and len(T.args) > 2 and is_const(
                T.args[2], str):
            pat = T.args[2].args[0].split("/")
            base = comps(T.args[1])
            if T.args[0] == "rglob" or pat[0] == "**":
                return [(base, pat[-1]), (base + ["deprecated"], pat[-1])]
            return [(base + pat[:-1], pat[-1])]
        if T.args[0] == "iterdir":
            return [(comps(T.args[1]), "*")]
        return None
    if T.op == "bin" and T.args[0] == "Add":
        return union(T.args[1:])
    if T.op == "slice" or T.op == "item" and T.args[1].op == "slice":
        r = listed(T.args[0])
        return [(f, None) for f, _ in r] if r is not None else None
    if T.op == "bag":
        out = []
        for p in T.args[1:]:
            if not isinstance(p, Term) or p.op != "p":
                continue
            ls = N.p_loops(p)
            if len(ls) == 1 and N.p_guard(p) == TRUE and p.args[0] is mk(
                    "elem", ls[0]):
                r = listed(ls[0].args[0])
                if r is None:
                    return None
                out += r
            else:
                return None
        return out
    return None


def union(ts):
    out = []
    for t in ts:
        r = listed(t)
        if r is None:
            return None
        out += r
    return out


# ----------------------------------------------------------------------- writes
def opened(t):
    """(path, mode) of a file term."""
    if t.op == "call" and t.args[0] in ("builtins.open", "io.open",
                                        "codecs.open"):
        pos, kw = kwargs(t)
        return (kw.get("file", pos[0] if pos else None),
                kw.get("mode", pos[1] if len(pos) > 1 else const("r")))
    if t.op == "meth" and t.args[0] == "open":
        rest = [x for x in t.args[2:] if x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in t.args[2:] if x.op == "kw"}
        return t.args[1], kw.get("mode", rest[0] if rest else const("r"))
    if t.op == "meth" and t.args[0] in ("read_text", "read_bytes"):
        return t.args[1], const("r")
    if t.op == "call" and t.args[0] in ("numpy.loadtxt", "numpy.genfromtxt",
                                        "pandas.read_csv"):
        return (t.args[1], const("r")) if len(t.args) > 1 else None
    return None


def dumps(I):
    """(event, path written, mode, data, keywords of the dump)."""
    out = []
    for e in I.events:
        if e.kind != "call":
            continue
        if e.name == "json.dump":
            fp, obj = e.arg(1, "fp"), e.arg(0, "obj")
            f = opened(fp) if fp is not None else None
            if f is not None and obj is not None:
                out.append((e, f[0], f[1], obj, dict(e.kw or ())))
        elif e.name in (".write", ".write_text"):
            x = e.arg(0, "data")
            ds = [s for s in subterms(x) if s.op == "call" and
                  s.args[0] == "json.dumps"] if x is not None else []
            if not ds:
                continue
            pos, kw = kwargs(ds[0])
            f = opened(e.recv) if e.name == ".write" else (
                e.recv, const("w"))
            if f is not None:
                out.append((e, f[0], f[1], kw.get("obj", pos[0] if pos else
                                                  None), kw))
    return out


def one(c, fn, I, base):
    ds = dumps(I)
    c.need(len(ds), "json files written by _compile_conventions")
    reads = [(e, o[0]) for e in I.events if e.kind == "call" and
             e.result is not None and (o := opened(e.result)) and
             is_const(o[1], str) and not set(o[1].args[0]) & set("wax+")]
    c.need(len(reads), "csv files read by _compile_conventions")
    cover = {}
    unknown = False
    for e, path, mode, data, kw in ds:
        c.ob("json-replaced", "_compile_conventions", is_const(mode, str) and
             mode.args[0] in ("w", "wt"),
             f"a json file is opened with mode {show(mode, 3)}", e.where())
        c.ob("table-complete", "_compile_conventions:skipkeys", kw.get(
            "skipkeys", const(False)) is const(False),
            "entries are skipped on writing", e.where())
        mine = [(r, p) for r, p in reads if r.loops == e.loops[:len(r.loops)]
                and any(s is x for s in subterms(data) for x in (r.result,))
                or r.loops == e.loops]
        src = source(path)
        ok = src is not None and any(same(src, comps(p)) for _, p in mine)
        c.ob("json-beside-csv", "_compile_conventions", ok,
             f"the table is written to {show(path, 4)}, which is not the "
             "name of the csv file with ending json", e.where())
        other = [s for s in subterms(data) if (o := opened(s)) and not any(
            same(comps(o[0]), comps(p)) for _, p in mine)]
        got = [s for s in subterms(data) if opened(s)]
        c.ob("table-of-file", "_compile_conventions", got and not other,
             "the table written is not parsed from this csv file"
             + (f" but from {show(opened(other[0])[0], 3)}" if other else
                ""), e.where())
        # which files
        known = None
        for L in e.loops:
            r = listed(L.args[0])
            if r is not None:
                known = (L, r)
        if known is None:
            unknown = True
            continue
        L, r = known
        g = e.guard
        ends = [x for x in support(g) if x.op in ("starts", "ends")]
        for folder, pat in r:
            gg = g
            if pat == "*":
                # names filtered by their ending
                E = mk("elem", L)
                m = {x: True for x in support(g) if x.op in (
                    "starts", "ends", "eq") and mentions(x, E)
                    and any(is_const(y, str) and y.args[0] in (
                        ".csv", "csv") for y in x.args)}
                gg = cofactor(g, m)
            elif pat is None or pat.lower() not in ("*.csv", "*csv",
                                                    "*.[cc][ss][vv]"):
                continue
            k = tuple(folder)
            cover[k] = b_or(cover.get(k, FALSE), gg)
    # raised before any file is looked at
    stop = FALSE
    for g, name, loops in I.escapes:
        if not loops:
            stop = b_or(stop, g)
    go = no_exc(b_not(stop))
    for what, want in (("folder", base), ("deprecated",
                                          base + ["deprecated"])):
        u = FALSE
        for k, g in cover.items():
            if same(list(k), want):
                u = b_or(u, g)
        bad = b_and(go, b_not(no_exc(u)))
        if unknown and u == FALSE:
            c.notes.append("the list of csv files was not resolved")
            continue
        c.ob("every-csv-compiled", what, not sat(bad),
             f"a csv file in the conventions {what} is not compiled "
             + (why(bad) if u != FALSE else ""), fwhere(fn))
    for e, path, mode, data, kw in ds:
        table(c, fn, I, e, data, [p for _, p in reads])


def no_exc(g):
    """g if nothing fails."""
    return cofactor(g, {x: False for x in support(g) if x.op == "exc" or
                        x.op == "exists" and any(
                            s.op == "exc" for y in x.args[1:]
                            for s in (support(N.g_of(y)) if isinstance(
                                y, Term) else ()))})


# ------------------------------------------------------------------------ lines
def lines_of(T, paths):
    """Does T run over the lines of the csv file? The index of the first line
    it contains, or None."""
    if T.op == "call":
        pos, kw = kwargs(T)
        if opened(T):
            return 0 if any(same(comps(opened(T)[0]), comps(p))
                            for p in paths) else None
        if T.args[0] in WRAP | {"csv.reader"} and pos:
            return lines_of(pos[0], paths)
        return None
    if T.op == "meth":
        if T.args[0] in ("readlines", "splitlines", "read", "read_text"):
            if T.args[0] == "readlines" and len(T.args) > 2:
                return None
            return lines_of(T.args[1], paths) if not opened(T) else 0
        if T.args[0] == "split" and T.args[2:] == (const("\n"),):
            return lines_of(T.args[1], paths)
        if T.args[0] in ("strip", "rstrip", "copy"):
            return lines_of(T.args[1], paths)
        return None
    if T.op == "slice" or T.op == "item" and T.args[1].op == "slice":
        s = T.args[1:] if T.op == "slice" else T.args[1].args
        k = lines_of(T.args[0], paths)
        if k is None:
            return None
        if is_const(s[0], int) and s[0].args[0] >= 0 and s[1] is NONE and (
                len(s) < 3 or s[2] in (NONE, const(1))):
            return k + s[0].args[0]
        if s[0] is NONE and s[1] is NONE and (
                len(s) < 3 or s[2] in (NONE, const(1))):
            return k
        return -1
    if T.op == "bag" and len([p for p in T.args[1:] if isinstance(
            p, Term)]) == 1:
        p = T.args[1]
        ls = N.p_loops(p)
        if len(ls) == 1:
            k = lines_of(ls[0].args[0], paths)
            return k if N.p_guard(p) == TRUE or k is None else -1
    return None


def cells(t, L):
    """Is t the list of the cells of the line of loop L?"""
    E = mk("elem", L)
    if t is E:
        return True
    if t.op == "meth" and t.args[0] in ("split", "copy"):
        return any(s is E for s in subterms(t.args[1]))
    if t.op == "call" and t.args[0] in WRAP and len(t.args) > 1:
        return cells(t.args[1], L)
    if t.op == "bag":
        return any(s is E for s in subterms(t))
    return t.op == "phi" and all(cells(x, L) for _, x in alts(t))


def strip(t):
    while t.op == "meth" and t.args[0] in ("strip", "rstrip", "lstrip"):
        t = t.args[1]
    return t.args[0] if t.op == "str" else t


def name_cell(k, L):
    """Is k the first cell of the line?"""
    if k.op == "phi":
        return all(name_cell(x, L) for _, x in alts(k))
    k = strip(k)
    return k.op == "item" and k.args[1] is const(0) and cells(k.args[0], L)


def table(c, fn, I, e, data, paths):
    D = data
    while D.op == "call" and D.args[0] in WRAP | {
            "builtins.dict", "collections.OrderedDict"} and len(D.args) > 1:
        D = D.args[1]
    c.need(1 if D.op == "bag" else 0, "table written to a json file")
    # entries of the table as written
    seen = {}
    lost = [s for p in D.args[1:] if isinstance(p, Term) and p.op == "p"
            for s in (p.args[0],) if s.op == "unk"]
    c.ob("table-of-file", "_compile_conventions:table", not lost,
         "the table also holds what it held before this file", e.where())
    for p in D.args[1:]:
        if not isinstance(p, Term) or p.op != "p" or p.args[0].op == "unk":
            continue
        ls = [L for L in N.p_loops(p) if lines_of(L.args[0], paths)
              is not None]
        if not ls or not name_cell(p.args[0], ls[-1]):
            c.ob("entry-name", "_compile_conventions", False,
                 f"an entry is named {show(p.args[0], 4)}, not by the first "
                 "cell of its line", e.where())
            continue
        L = ls[-1]
        g = no_exc(N.p_guard(p))
        seen[L] = b_or(seen.get(L, FALSE), g)
    c.need(len(seen), "entries of the table")
    # lines that became entries, over all loops that fill the table
    start = {L: lines_of(L.args[0], paths) for L in seen}
    U, first = FALSE, None
    L0 = min(seen, key=lambda L: (start[L] < 0, start[L], L.id))
    head = c_eq(mk("idx", L0), const(0))
    for L, g in seen.items():
        k = start[L]
        if k < 0 or k > 1:
            continue
        if L is not L0 and k == start[L0]:
            g = N.rename_loop(g, L, L0) if False else g
        U = b_or(U, g)
    for L, k in start.items():
        c.ob("every-line-compiled", "lines", 0 <= k <= 1,
             f"only some lines of the file are parsed: {show(L, 3)}",
             e.where())
    rest = b_not(U) if start[L0] == 1 else b_and(b_not(U), b_not(head))
    c.ob("every-line-compiled", "table", not sat(rest),
         f"a line does not become an entry of the table {why(rest)}",
         e.where())
    stored(c, fn, I, L0, start[L0], paths)
    fields(c, fn, I, D, L0, paths)
    kept(c, fn, I, e)


def stored(c, fn, I, L, k, paths):
    """Each iteration over the lines stores an entry or raises."""
    head = c_eq(mk("idx", L), const(0)) if k == 0 else FALSE
    ins = [e for e in I.events if L in e.loops]
    U, n = FALSE, 0
    for e in ins:
        if stores(e, L):
            n += 1
            g = e.guard
            for tc in e.trys:
                g = b_and(g, b_not(tc.atom))
            U = b_or(U, g)
    esc = FALSE
    for e in ins:
        if e.kind == "raise" and not absorbed_by(e):
            esc = b_or(esc, e.guard)
    if n:
        start = ins[0].guard
        bad = b_and(start, b_not(b_or(U, b_or(esc, head))))
        c.ob("every-line-compiled", "iteration", not sat(bad),
             f"a line is neither stored nor refused {why(bad)}",
             ins[0].where())
    # what is raised
    for g, name, loops in I.escapes:
        if not any(getattr(x, "term", x) is L for x in loops):
            continue
        c.ob("bad-line-refused", f"error:{name}", catches(
            ["ValueError"], name or "") and name is not None,
            f"{name} is raised for a line that can not be parsed",
            fwhere(fn))
    for e in ins:
        if e.kind == "raise" and (e.name or "").endswith("ValueError") \
                and e.args and not absorbed_by(e):
            c.ob("bad-line-refused", "message", any(
                names_file(x, p) for p in paths
                for x in told(e.args[0])),
                "the error does not name the file", e.where())
    # what may fail has to end there
    for e in ins:
        need = ()
        if e.kind == "call" and e.name in ("builtins.int", "builtins.float"):
            need = ("ValueError",)
        elif e.kind == "getitem" and e.recv is not None and e.args and \
                e.args[0].op != "slice" and cells(e.recv, L):
            need = ("IndexError", "TypeError")
        elif e.kind == "unpack" and any(cells(x, L)
                                        for _, x in alts(e.args[1])):
            need = ("ValueError",)
        for x in need:
            c.ob("bad-line-refused", f"{e.kind} {e.name or ''}:{x}",
                 any(catches(h, x) for tc in e.trys for h in tc.handlers)
                 or any("suppress" in show(w, 3) for w in e.withs),
                 f"{x} of {e.kind} {e.name or ''} is not turned into a "
                 "ValueError that names the file", e.where())
    handlers(c, fn, I, L, ins, head)


def told(t):
    """The parts of an error message."""
    if t.op == "call" and t.args[0].startswith("builtins.") and len(
            t.args) > 1:
        for x in t.args[1:]:
            yield from told(x)
    elif t.op in ("cat", "tup", "bag"):
        for p in t.args:
            if isinstance(p, Term):
                yield from told(p.args[0] if p.op == "p" else p)
    elif t.op == "phi":
        for _, x in alts(t):
            yield from told(x)
    elif t.op == "str":
        yield from told(t.args[0])
    elif isinstance(t, Term):
        yield t


def names_file(t, p):
    a, b = comps(t), comps(p)
    return same(a, b) or same(a, b[-1:]) or t.op == "attr" and t.args[1] in (
        "name", "stem") and same(comps(t.args[0]), b) or t.op == "call" and \
        t.args[0] == "os.path.basename" and same(comps(t.args[1]), b)


def absorbed_by(e):
    """Is a raised ValueError caught again inside the compilation?"""
    return any(catches(h, "ValueError") for tc in e.trys
               for h in tc.handlers)


def handlers(c, fn, I, L, ins, head):
    """A failure inside the loop over the lines leaves it by an error, unless
    the line is stored nevertheless."""
    trys = {}
    for e in ins:
        for tc in e.trys:
            trys.setdefault(tc.id, (tc, e))
    for tc, e in trys.values():
        over = head
        for x in ins:
            if x.seq < e.seq:
                continue
            if x.kind == "raise" and not absorbed_by(x):
                over = b_or(over, x.guard)
            elif stores(x, L) and tc.id not in [t.id for t in x.trys]:
                g = x.guard
                for t in x.trys:
                    g = b_and(g, b_not(t.atom))
                over = b_or(over, g)
        bad = b_and(e.guard, tc.atom, b_not(over))
        for t in e.trys:
            if t.id != tc.id:
                bad = b_and(bad, b_not(t.atom))
        c.ob("bad-line-refused", "handler", not sat(bad),
             f"a failure is ignored {why(bad)}", e.where())


def stores(e, L):
    """Does event e store the entry of the line of loop L?"""
    return e.kind == "setitem" and e.loops[-1] is L and name_cell(
        e.args[0], L) or e.kind == "mutate" and e.name in (
            "update", "setdefault", "__setitem__") and \
        e.loops[-1] is L and any(name_cell(s, L) for a in e.args
                                 for s in subterms(a))


# ----------------------------------------------------------------------- fields
def header(T, I, L, paths):
    """Is T the list of the field names: 'plain' or 'lower', None if not,
    '?' if unknown."""
    if T.op == "carry":
        vs = I.carried.get(T)
        if vs is None:
            return "?"
        kinds = set()
        for g, v in vs:
            v = I.freeze(v) if isinstance(v, Term) else v
            if v is T or not isinstance(v, Term) or v.op in ("undef",
                                                             "undef0"):
                continue
            if sat(b_and(g, b_not(c_eq(mk("idx", L), const(0))))):
                return None
            kinds.add(names_in(v, lambda x: cells(x, L), 1))
        return kinds.pop() if len(kinds) == 1 else None

    def first(x):
        return any(s.op == "item" and s.args[1] is const(0) and lines_of(
            s.args[0], paths) == 0 for s in subterms(x)) or any(
                s.op == "call" and s.args[0] == "builtins.next"
                or s.op == "meth" and s.args[0] == "readline"
                for s in subterms(x))
    return names_in(T, first, 1)


def mentions_loop(x, L):
    return any(s is L for s in subterms(x))


def names_in(v, row, k):
    """v = row[k:], possibly in lower case."""
    if v.op == "phi":
        ks = {names_in(x, row, k) for _, x in alts(v)}
        return ks.pop() if len(ks) == 1 else None
    if v.op == "meth" and v.args[0] == "copy" or v.op == "call" and \
            v.args[0] in WRAP:
        return names_in(v.args[1], row, k)
    if v.op == "bag":
        ps = [p for p in v.args[1:] if isinstance(p, Term)]
        if len(ps) != 1:
            return None
        ls = N.p_loops(ps[0])[-1:]
        if not ls or any(mentions_loop(x, ls[0]) for x in support(
                N.p_guard(ps[0]))):
            return None
        x = ps[0].args[0]
        low = False
        while x.op == "meth" and x.args[0] in ("lower", "casefold", "strip"):
            low = low or x.args[0] != "strip"
            x = x.args[1]
        if x is not mk("elem", ls[0]):
            return None
        return names_in(ls[0].args[0], row, k) and (
            "lower" if low else "plain")
    if v.op == "slice" or v.op == "item" and v.args[1].op == "slice":
        s = v.args[1:] if v.op == "slice" else v.args[1].args
        if s[0] is const(k) and s[1] is NONE and row(v.args[0]):
            low = any(x.op == "meth" and x.args[0] in ("lower", "casefold")
                      for x in subterms(v.args[0]))
            return "lower" if low else "plain"
    return None


def fields(c, fn, I, D, L, paths):
    """Every entry has every field."""
    found = []      # (key, value, guard, loop over the fields, where)
    for e in I.events:
        if e.kind == "setitem" and L in e.loops and e.loops[-1] is not L:
            i = e.loops.index(L)
            if len(e.loops) == i + 2 and not cells(
                    e.recv, L) and e.args[0].op != "idx":
                found.append((e.args[0], e.args[1], e.guard, e.loops[-1],
                              e.where(), e.trys))
        v = None
        if e.kind == "setitem" and e.loops and e.loops[-1] is L and \
                name_cell(e.args[0], L):
            v = e.args[1]
        if v is None:
            continue
        v = I.freeze(v)
        if v.op == "call" and v.args[0] == "builtins.dict" and len(
                v.args) == 2:
            v = v.args[1]
        if v.op != "bag":
            continue
        for p in v.args[1:]:
            if isinstance(p, Term) and p.op == "p" and p.args[0].op != "unk":
                ls = N.p_loops(p)
                if ls:
                    found.append((p.args[0], p.args[1], b_and(
                        e.guard, N.p_guard(p)), ls[-1], e.where(), ()))
    if not found:
        for p in D.args[1:]:
            v = p.args[1] if isinstance(p, Term) and p.op == "p" else None
            if isinstance(v, Term) and v.op == "bag":
                for x in v.args[1:]:
                    ls = N.p_loops(x)
                    if ls:
                        found.append((x.args[0], x.args[1], N.p_guard(x),
                                      ls[-1], fwhere(fn), ()))
    c.need(len(found), "fields of the entries of the table")
    U, at, unknown = FALSE, None, False
    for key, val, g, LF, where, _ in found:
        T = LF.args[0]
        low = False
        x = key
        while x.op == "meth" and x.args[0] in ("lower", "casefold", "strip"):
            low = low or x.args[0] != "strip"
            x = x.args[1]
        plain = x is mk("elem", LF)
        i = mk("idx", LF)
        pair = None
        if x.op == "item" and x.args[1] is i:
            T, plain = x.args[0], True
        h = header(T, I, L, paths)
        if h == "?":
            unknown = True
            continue
        if h is None and isinstance(T, Term) and T.op in ("zip",) or \
                T.op == "call" and T.args[0] == "builtins.zip":
            pair = T
        c.ob("fields-of-header", "name", plain and h is not None,
             f"a field is named {show(key, 4)}, which is not a name of the "
             "header", where)
        c.ob("fields-of-header", "lower case", h is None or low or h ==
             "lower", f"a field name is not in lower case: {show(key, 4)}",
             where)
        ok = column(val, i, LF, L)
        c.ob("fields-of-header", "column", ok is True,
             f"the field holds {show(val, 4)} instead of the cell of its "
             "column", where)
        at = at or where
        U = b_or(U, g)
    if unknown and U == FALSE:
        c.notes.append("the header was not resolved")
        return
    k = lines_of(L.args[0], paths)
    head = c_eq(mk("idx", L), const(0)) if k == 0 else FALSE
    ins = [e for e in I.events if L in e.loops]
    rest = b_and(ins[0].guard if ins else TRUE, b_not(b_or(no_exc(U), head)))
    rest = no_exc(rest)
    c.ob("fields-of-header", "every field", not sat(rest),
         f"an entry lacks a field of the header {why(rest)}", at or "")
    for e in I.events:
        if e.kind != "zip" or L not in e.loops:
            continue
        rows = [a for a in e.args if not isinstance(
            header(a, I, L, paths), str) and any(
                s is mk("elem", L) for s in subterms(a))]
        heads = [a for a in e.args if header(a, I, L, paths)]
        if not rows or not heads or dict(e.kw or ()).get(
                "strict") is const(True):
            continue
        sizes = [x for x in support(e.guard) if x.op != "exc" and any(
            s.op == "len" and cells(s.args[0], L) for s in subterms(x))]
        c.ob("fields-of-header", "zip", bool(sizes),
             "zip drops the fields a short line does not have", e.where())


def column(v, i, LF, L):
    if v.op == "phi":
        return all(column(x, i, LF, L) for _, x in alts(v)) or None
    v = strip(v)
    if v.op == "item":
        k = v.args[1]
        if cells(v.args[0], L):
            return any(k is mk("bin", "Add", *x) for x in (
                (i, const(1)), (const(1), i)))
        s = v.args[0]
        if k is i and (s.op == "slice" or s.op == "item" and
                       s.args[1].op == "slice"):
            a = s.args[1:] if s.op == "slice" else s.args[1].args
            return a[0] is const(1) and a[1] is NONE and cells(s.args[0], L)
    if v.op == "elem":
        T = v.args[0].args[0]
        if T.op == "slice" or T.op == "item" and T.args[1].op == "slice":
            a = T.args[1:] if T.op == "slice" else T.args[1].args
            return a[0] is const(1) and a[1] is NONE and cells(T.args[0], L)
    return False


# ------------------------------------------------------------------------- kept
def kept(c, fn, I, dump):
    """What is taken out of a table is stored in it again."""
    refs = {e.extra for e in I.events if e.kind == "setitem" and
            e.recv is not None and e.extra is not None}
    for e in I.events:
        gone = None
        if e.kind == "mutate" and e.name in ("pop", "popitem", "clear"):
            gone = e.args[0] if e.args else NONE
        elif e.kind == "delitem":
            gone = e.args[0]
        if gone is None or e.seq > dump.seq or not table_ref(e):
            continue
        back = FALSE
        for s in I.events:
            if s.kind != "setitem" or s.seq <= e.seq or s.loops != e.loops:
                continue
            if s.args[0] is gone and str(s.extra) == str(e.extra):
                v = I.freeze(s.args[1])
                keys = {gone} | {x for _, x in alts(gone)}
                if all(x is e.result or x.op == "item" and x.args[1] in keys
                       or x.op == "meth" and x.args[0] in ("pop", "get")
                       for _, x in alts(v)):
                    back = b_or(back, s.guard)
        bad = b_and(e.guard, b_not(back))
        c.ob("table-complete", f"{e.name or e.kind}", not sat(bad),
             f"an entry is taken out of the table {why(bad)}", e.where())


def table_ref(e):
    """Is e about a table of entries, not about a list?"""
    t = e.recv
    return e.extra is not None and not (e.name == "pop" and e.args and
                                        is_const(e.args[0], int))
