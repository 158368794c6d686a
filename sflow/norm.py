"""Normalising constructors for conditions and values, substitution, and
the small theory used when one condition has to imply another."""
from .terms import (mk, const, Term, is_const, NONE, UNDEF, FALSE, TRUE, atom,
                    b_ite, b_and, b_or, b_not, b_implies, support, constrain,
                    cofactor, gterm, map_bdd)

from . import strs

TYPES = {}          # Term.id -> class name known for the value


def typeof(t):
    if t.id in TYPES:
        return TYPES[t.id]
    if t.op == "new":
        return t.args[0]
    if t.op == "phi":
        ts = {typeof(x) for x in t.args[1::2]}
        return ts.pop() if len(ts) == 1 else None
    return None


def g_of(t):
    """Condition embedded in a guard term."""
    if t.op == "g":
        return t.args[0]
    if t.op == "const":
        return TRUE if t.args[0] else FALSE
    raise ValueError(t)


def alts(t):
    if t.op == "phi":
        return [(g_of(t.args[i]), t.args[i + 1])
                for i in range(0, len(t.args), 2)]
    return [(TRUE, t)]


def is_bool(t):
    return t.op == "g" or (t.op == "const" and isinstance(t.args[0], bool))


def is_strlike(t):
    return t.op in ("cat", "str", "sym") or is_const(t, str)


def choose(options):
    """Value that is v_i where g_i holds (guards disjoint)."""
    flat = []
    for g, t in options:
        if g == FALSE:
            continue
        for g2, t2 in alts(t):
            gg = b_and(g, g2)
            if gg != FALSE:
                flat.append((gg, t2))
    if not flat:
        return UNDEF
    merged, order = {}, []
    for g, t in flat:
        if t.id in merged:
            merged[t.id] = (b_or(merged[t.id][0], g), t)
        else:
            merged[t.id] = (g, t)
            order.append(t.id)
    flat = [merged[i] for i in order]
    if len(flat) == 1:
        return flat[0][1]
    if all(is_bool(t) for _, t in flat):
        r = FALSE
        for g, t in flat:
            r = b_or(r, b_and(g, g_of(t)))
        return gterm(r)
    if any(t.op == "cat" for _, t in flat) and \
            all(is_strlike(t) for _, t in flat):
        return merge_cats(flat)
    args = []
    for g, t in flat:
        args += [gterm(g), t]
    return mk("phi", *args)


def lift(t, f):
    """Apply f to every alternative of a value."""
    a = alts(t)
    if len(a) == 1:
        return f(t)
    return choose([(g, f(x)) for g, x in a])


def lift_c(t, f):
    r = FALSE
    for g, x in alts(t):
        r = b_or(r, b_and(g, f(x)))
    return r


# ----------------------------------------------------------------- strings
def P(term, guard=TRUE, loops=(), val=NONE):
    return mk("p", term, val, gterm(guard), *loops)


def p_guard(p):
    return g_of(p.args[2])


def p_loops(p):
    return p.args[3:]


def t_len(t):
    """Length; a list made of one value per element has their number."""
    while t.op == "bag" and t.args[0] == "list" and len(t.args) == 2:
        p = t.args[1]
        if p.op != "p" or len(p_loops(p)) != 1 or p_guard(p) != TRUE or \
                p_loops(p)[0].op != "loop":
            break
        t = p_loops(p)[0].args[0]
    return mk("len", t)


def cat_parts(t):
    if t.op == "cat":
        return list(t.args)
    if is_const(t, str):
        return [P(t)] if t.args[0] else []
    if t.op == "str":
        return [P(t.args[0])]
    return [P(t)]


def mk_cat(parts):
    out = []
    for p in parts:
        if is_const(p.args[0], str) and p.args[0].args[0] == "":
            continue
        if p_guard(p) == FALSE:
            continue
        if out and is_const(p.args[0], str) and \
                is_const(out[-1].args[0], str) and \
                p.args[2].id == out[-1].args[2].id == gterm(TRUE).id and \
                not p_loops(p) and not p_loops(out[-1]):
            out[-1] = P(const(out[-1].args[0].args[0] + p.args[0].args[0]))
        else:
            out.append(p)
    if not out:
        return const("")
    if len(out) == 1 and p_guard(out[0]) == TRUE and not p_loops(out[0]):
        t = out[0].args[0]
        return t if is_strlike(t) else mk_str(t)
    return mk("cat", *out)


def mk_str(t):
    if t.op == "phi":
        return choose([(g, mk_str(x)) for g, x in alts(t)])
    if t.op == "const":
        return const(str(t.args[0]))
    if is_strlike(t) or t.op == "meth" and t.args[0] in STR_METHODS:
        return t
    return mk("str", t)


STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "replace",
               "removeprefix", "removesuffix", "join", "format", "decode",
               "title", "capitalize", "casefold"}


def guarded_parts(t, g):
    """Parts of string t restricted to condition g."""
    return [mk("p", p.args[0], p.args[1], gterm(b_and(g, p_guard(p))),
               *p_loops(p)) for p in cat_parts(t)]


def text_head(lists):
    if not all(ps and is_const(ps[0].args[0], str) and p_guard(ps[0]) == TRUE
               and not p_loops(ps[0]) for ps in lists):
        return None
    ts = [ps[0].args[0].args[0] for ps in lists]
    s = min(ts, key=len)
    return s if all(t.startswith(s) for t in ts) else None


def merge_cats(flat):
    lists = [(g, cat_parts(t)) for g, t in flat]
    pre = []
    while all(ps for _, ps in lists) and \
            len({ps[0].id for _, ps in lists}) == 1:
        pre.append(lists[0][1][0])
        lists = [(g, ps[1:]) for g, ps in lists]
    head = text_head([ps for _, ps in lists])
    if head:
        # one text begins with the whole constant the other begins with
        pre.append(P(const(head)))
        lists = [(g, ([P(const(ps[0].args[0].args[0][len(head):]))] if len(
            ps[0].args[0].args[0]) > len(head) else []) + list(ps[1:]))
            for g, ps in lists]
    for g, ps in lists:
        for p in ps:
            pre.append(mk("p", p.args[0], p.args[1],
                          gterm(b_and(g, p_guard(p))), *p_loops(p)))
    return mk_cat(pre)


# ---------------------------------------------------------------- free loops
_FL = {}


def fl(t):
    """Loops whose current element a term refers to."""
    r = _FL.get(t.id)
    if r is not None:
        return r
    _FL[t.id] = frozenset()
    s = set()
    if t.op in ("elem", "idx", "unbroken"):
        s.add(t.args[0])
        s |= fl(t.args[0])
    elif t.op in ("exists", "sel", "fold"):
        L = t.args[0]
        for a in t.args[1:]:
            if isinstance(a, Term):
                s |= fl(a)
        s.discard(L)
        s |= fl(L)
    elif t.op == "p":
        for a in t.args[:3]:
            s |= fl(a)
        loops = t.args[3:]
        for L in reversed(loops):
            s.discard(L)
            s |= fl(L)
    elif t.op == "g":
        for a in support(t.args[0]):
            s |= fl(a)
    else:
        for a in t.args:
            if isinstance(a, Term):
                s |= fl(a)
    r = frozenset(s)
    _FL[t.id] = r
    return r


def fl_g(g):
    s = set()
    for a in support(g):
        s |= fl(a)
    return s


# ---------------------------------------------------------------- conditions
KNOWN_TRUE_ITER = {"split", "rsplit", "splitlines"}


def strip_iter(t):
    """Collection whose elements a wrapper yields (order ignored)."""
    while True:
        if t.op == "call" and t.args[0] in (
                "builtins.list", "builtins.tuple", "builtins.set",
                "builtins.sorted", "builtins.iter", "builtins.reversed",
                "builtins.frozenset", "copy.copy", "copy.deepcopy",
                "builtins.dict") and len(t.args) >= 2 and \
                t.args[1].op != "kw":
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("keys", "copy") and \
                len(t.args) == 2:
            t = t.args[1]
        else:
            return t


def c_truth(t):
    if t.op == "const":
        return TRUE if t.args[0] else FALSE
    if t.op == "g":
        return t.args[0]
    if t.op == "phi":
        return lift_c(t, c_truth)
    if t.op == "cat":
        return parts_nonempty(t.args)
    if t.op == "str":
        return atom(mk("truth", t))
    if t.op == "tup":
        return TRUE if t.args else FALSE
    if t.op == "bag":
        r = FALSE
        for p in t.args[1:]:
            if p.op == "p":
                r = b_or(r, ex_loops(p_loops(p), p_guard(p)))
            else:
                r = b_or(r, c_truth(p.args[0]))
        return r
    if t.op in ("fn", "clo", "new", "cls", "glob", "bm", "sym"):
        return TRUE
    if t.op == "call" and t.args[0] == "builtins.bool" and len(t.args) == 2:
        return c_truth(t.args[1])
    if t.op == "len":
        return c_truth(t.args[0])
    if t.op == "meth" and t.args[0] == "count" and len(t.args) == 3:
        return c_in(t.args[2], t.args[1])
    if t.op == "idx":
        return b_not(c_eq(t, const(0)))
    t2 = strip_iter(t)
    if t2 is not t:
        return c_truth(t2)
    if t.op == "meth" and t.args[0] in KNOWN_TRUE_ITER:
        return TRUE
    if t.op == "call" and t.args[0] == "re.split":
        return TRUE
    return atom(mk("truth", t))


def parts_nonempty(parts):
    """Condition under which a text made of these parts is not empty.

    Parts that only occur together with another non-empty part add nothing
    to the condition and are left out."""
    sure = {}
    rest = []
    for p in parts:
        if is_definite(p.args[0]):
            k = tuple(p_loops(p))
            sure[k] = b_or(sure.get(k, FALSE), p_guard(p))
        else:
            rest.append(p)

    def covered(k, g):
        return any(set(x.id for x in k2) <= set(x.id for x in k)
                   and b_implies(g, g2) == TRUE for k2, g2 in done)
    r = FALSE
    done = []
    for k in sorted(sure, key=len):
        if covered(k, sure[k]):
            continue
        r = b_or(r, ex_loops(k, sure[k]))
        done.append((k, sure[k]))
    for p in rest:
        k, g = tuple(p_loops(p)), p_guard(p)
        if not covered(k, g):
            r = b_or(r, part_nonempty(p))
    return r


def is_definite(t):
    """A text part that is never empty."""
    if t.op == "const":
        return not isinstance(t.args[0], str) or bool(t.args[0])
    return t.op in ("bin", "len", "new")


def part_nonempty(p):
    t = p.args[0]
    g = p_guard(p)
    if is_const(t, str):
        inner = TRUE if t.args[0] else FALSE
    elif t.op == "const":
        inner = TRUE
    elif p.args[0].op in ("bin", "len", "new"):
        inner = TRUE
    else:
        inner = c_truth(t)
    return ex_loops(p_loops(p), b_and(g, inner))


def ex_loops(loops, g):
    for L in reversed(loops):
        g = c_exists(L, g)
    return g


def rename_loop(L, L2, t=None, g=None):
    m = {mk("elem", L).id: mk("elem", L2), mk("idx", L).id: mk("idx", L2),
         L.id: L2}
    return subst(t, m) if t is not None else subst_g(g, m)


def c_exists(L, g, depth=0):
    if g == FALSE:
        return FALSE
    T = L.args[0]
    if g == TRUE:
        return c_truth(T)
    # iteration-until-break marker is irrelevant if the break implies g
    for a in support(g):
        if a.op == "unbroken" and a.args[0] is L:
            g1 = cofactor(g, {a: True})
            if b_implies(g_of(a.args[1]), g1) == TRUE:
                g = g1
    if g < 2:
        return c_exists(L, g)
    indep = [a for a in support(g) if L not in fl(a)]
    # literals implied by g factor out
    for a in indep:
        lo, hi = cofactor(g, {a: False}), cofactor(g, {a: True})
        if lo == FALSE:
            return b_and(atom(a), c_exists(L, hi, depth + 1))
        if hi == FALSE:
            return b_and(b_not(atom(a)), c_exists(L, lo, depth + 1))
    if indep and len(indep) <= 6:
        a = indep[0]
        return b_ite(atom(a), c_exists(L, cofactor(g, {a: True}), depth + 1),
                     c_exists(L, cofactor(g, {a: False}), depth + 1))
    # membership of a fixed element: any(x == c for x in T)  ->  c in T
    if len(support(g)) == 1 and support(g)[0].op == "eq":
        a = support(g)[0]
        e = mk("elem", L)
        other = a.args[1] if a.args[0] is e else \
            a.args[0] if a.args[1] is e else None
        if other is not None and g == atom(a) and L not in fl(other):
            return c_in(other, T)
    # alpha normalisation of the bound element
    free = fl_g(g) - {L}
    for d in range(L.args[1]):
        L2 = mk("loop", T, d)
        if L2 not in free:
            g = rename_loop(L, L2, g=g)
            L = L2
            break
    return atom(mk("exists", L, gterm(g)))


def c_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "phi":
        return lift_c(a, lambda x: c_eq(x, b))
    if b.op == "phi":
        return lift_c(b, lambda x: c_eq(a, x))
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            return TRUE if x == y else FALSE
        except Exception:
            return FALSE
    if a.op == "const":
        a, b = b, a
    if b is NONE:
        return c_isnone(a)
    if is_const(b, bool):
        if is_bool(a):
            return g_of(a) if b.args[0] else b_not(g_of(a))
    if a.op == "g" or b.op == "g":
        if is_bool(a) and is_bool(b):
            ga, gb = g_of(a), g_of(b)
            return b_ite(ga, gb, b_not(gb))
    if is_const(b, int) and not is_const(b, bool):
        n = b.args[0]
        if a.op == "bin" and a.args[0] == "Add" and is_const(
                a.args[2], int) and a.args[1].op == "idx":
            return c_eq(a.args[1], const(n - a.args[2].args[0]))
        if n == 0:
            if a.op == "len":
                return b_not(c_truth(a.args[0]))
            if a.op == "meth" and a.args[0] == "count" and len(a.args) == 3:
                return b_not(c_in(a.args[2], a.args[1]))
        if n == -1 and a.op == "meth" and a.args[0] in ("find", "rfind"):
            return b_not(c_in(a.args[2], a.args[1]))
    if is_const(b, str):
        if b.args[0] == "" and is_strlike(a):
            return b_not(c_truth(a))
        k = strs.known(a)
        r = strs.equals(k, b.args[0]) if k else None
        if r is not None:
            return TRUE if r else FALSE
        if a.op == "cat":
            return cat_eq_const(a, b.args[0])
        r = slice_eq(a, b.args[0])
        if r is not None:
            return r
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = b_and(r, c_eq(x, y))
        return r
    if a.op == "bag" and b.op == "bag" and len(a.args) == 1 and \
            len(b.args) == 1:
        return TRUE
    if b.op == "bag" and len(b.args) == 1:
        return b_not(c_truth(a))
    if a.op == "bag" and len(a.args) == 1:
        return b_not(c_truth(b))
    ka = strs.known(a)
    kb = strs.known(b)
    if ka or kb:
        r = strs.equals(ka, b.args[0]) if ka and is_const(b, str) else \
            strs.equals(kb, a.args[0]) if kb and is_const(a, str) else \
            strs.same(ka, kb) if ka and kb else None
        if r is not None:
            return TRUE if r else FALSE
    if b.op != "const" and a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


def is_name(x):
    """Names of entries, of which none is empty."""
    return x.op == "elem" and x.args[0].op == "loop" and \
        x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] in (
            "__dict__", "_convention", "_custom", "_dimensions", "_api")


def slice_eq(a, s):
    """x[:n] == s and x[-n:] == s for strings of that length."""
    if a.op != "item" or not s:
        return None
    x, i = a.args
    if i is const(0) and x.op == "meth" and x.args[0] in (
            "partition", "split") and len(x.args) in (3, 4) and \
            is_const(x.args[2], str) and len(x.args[2].args[0]) == 1 and \
            x.args[2].args[0] not in s and all(
                y is const(1) for y in x.args[3:]) and (
                len(x.args) == 3 or x.args[0] == "split"):
        # everything before the first separator
        return b_or(c_eq(x.args[1], const(s)),
                    c_starts(x.args[1], const(s + x.args[2].args[0])))
    if i in (const(0), const(-1)) and len(s) == 1 and is_name(x):
        # the first or last letter of a name
        return c_starts(x, const(s)) if i is const(0) else \
            c_starts(x, const(s), "ends")
    if i.op == "slice" and i.args[2] in (NONE, const(1)):
        lo, hi, _ = i.args
        if lo in (NONE, const(0)) and is_const(hi, int) and hi.args[0] > 0:
            n = hi.args[0]
            return FALSE if len(s) > n else c_starts(x, const(s)) if \
                len(s) == n else c_eq(x, const(s))
        if hi is NONE and is_const(lo, int) and lo.args[0] < 0:
            n = -lo.args[0]
            return FALSE if len(s) > n else c_starts(
                x, const(s), "ends") if len(s) == n else c_eq(x, const(s))
    return None


def cat_eq_const(a, s):
    parts = list(a.args)
    while parts and is_const(parts[0].args[0], str) and \
            p_guard(parts[0]) == TRUE and not p_loops(parts[0]):
        c = parts[0].args[0].args[0]
        if not s.startswith(c):
            return FALSE
        s = s[len(c):]
        parts = parts[1:]
    while parts and is_const(parts[-1].args[0], str) and \
            p_guard(parts[-1]) == TRUE and not p_loops(parts[-1]):
        c = parts[-1].args[0].args[0]
        if not s.endswith(c):
            return FALSE
        s = s[:-len(c)]
        parts = parts[:-1]
    if s == "":
        return b_not(parts_nonempty(parts))
    if not parts:
        return FALSE
    if len(parts) == 1 and p_guard(parts[0]) == TRUE and \
            not p_loops(parts[0]):
        return c_eq(parts[0].args[0], const(s))
    return atom(mk("eq", mk_cat(parts), const(s)))


def c_isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "phi":
        return lift_c(t, c_isnone)
    if t.op in ("const", "cat", "tup", "bag", "g", "new", "str", "fn", "clo",
                "cls", "bin", "len", "bm", "sym"):
        return FALSE
    return atom(mk("isnone", t))


# every entry of a convention has a value in every column of the table
COLUMNS = ("default", "flags", "dimensions", "type")


def c_in(x, T):
    if x.op == "phi":
        return lift_c(x, lambda y: c_in(y, T))
    if T.op == "phi":
        return lift_c(T, lambda y: c_in(x, y))
    T = strip_iter(T)
    if T.op == "phi":
        return lift_c(T, lambda y: c_in(x, y))
    if is_const(x, str) and x.args[0] in COLUMNS and T.op == "item" and \
            T.args[0].op == "attr" and T.args[0].args[1] in (
                "_convention", "_custom"):
        return TRUE
    if T.op == "const":
        v = T.args[0]
        if x.op == "const":
            try:
                return TRUE if x.args[0] in v else FALSE
            except TypeError:
                return FALSE
        if isinstance(v, (tuple, list, set, frozenset)):
            r = FALSE
            for y in v:
                r = b_or(r, c_eq(x, const(y)))
            return r
        if isinstance(v, str) and is_char(x):
            r = FALSE
            for y in v:
                r = b_or(r, c_eq(x, const(y)))
            return r
        return atom(mk("in", x, T))
    if T.op == "tup":
        r = FALSE
        for y in T.args:
            r = b_or(r, c_eq(x, y))
        return r
    if T.op == "bag":
        r = FALSE
        for p in T.args[1:]:
            if p.op == "p":
                r = b_or(r, in_part(x, p))
            else:                     # update(other collection)
                r = b_or(r, c_in(x, p.args[0]))
        return r
    if is_const(x, str):
        k = strs.known(T)
        r = strs.contains(k, x.args[0]) if k else None
        if r is not None:
            return TRUE if r else FALSE
    if T.op == "cat" and is_const(x, str):
        # a constant part that contains it decides if unguarded
        r = FALSE
        rest = []
        for p in T.args:
            t = p.args[0]
            if is_const(t, str):
                if x.args[0] in t.args[0]:
                    r = b_or(r, ex_loops(p_loops(p), p_guard(p)))
            else:
                rest.append(p)
        if r == TRUE:
            return TRUE
        if rest:
            r2 = atom(mk("in", x, T))
            return b_or(r, r2)
        return b_or(r, atom(mk("in", x, T)))
    if x.op == "elem" and strip_iter(x.args[0].args[0]) is T:
        return TRUE
    return atom(mk("in", x, T))


def is_char(x):
    """Terms known to denote a single character."""
    if x.op == "attr" and x.args[1] == "kind":
        return True
    return False


def in_part(x, p):
    loops, g, e = p_loops(p), p_guard(p), p.args[0]
    if not loops:
        return b_and(g, c_eq(x, e))
    if len(loops) == 1 and e is mk("elem", loops[0]):
        L = loops[0]
        g2 = subst_g(g, {e.id: x})
        if L not in fl_g(g2) or L in fl(x):
            return b_and(c_in(x, L.args[0]), g2)
    # avoid capturing elements of x
    ren = list(loops)
    for i, L in enumerate(ren):
        if L in fl(x):
            d = 0
            while mk("loop", L.args[0], d) in fl(x) | set(ren):
                d += 1
            L2 = mk("loop", L.args[0], d)
            g = rename_loop(L, L2, g=g)
            e = rename_loop(L, L2, t=e)
            for j in range(i + 1, len(ren)):
                ren[j] = rename_loop(L, L2, t=ren[j])
            ren[i] = L2
    return ex_loops(ren, b_and(g, c_eq(x, e)))


def c_lt(a, b):
    if a.op == "phi":
        return lift_c(a, lambda x: c_lt(x, b))
    if b.op == "phi":
        return lift_c(b, lambda x: c_lt(a, x))
    if a.op == "const" and b.op == "const":
        try:
            return TRUE if a.args[0] < b.args[0] else FALSE
        except TypeError:
            return FALSE
    if is_const(a, int) and a.args[0] == 0:
        if b.op == "len":
            return c_truth(b.args[0])
        if b.op == "meth" and b.args[0] == "count":
            return c_in(b.args[2], b.args[1])
    if is_const(b, int) and b.args[0] == 1 and b is not const(True):
        if a.op == "len":
            return b_not(c_truth(a.args[0]))
        if a.op == "meth" and a.args[0] == "count":
            return b_not(c_in(a.args[2], a.args[1]))
    if is_const(b, int) and b.args[0] == 0:
        if a.op == "meth" and a.args[0] in ("find", "rfind"):
            return b_not(c_in(a.args[2], a.args[1]))
        if a.op in ("len", "idx"):
            return FALSE
    if is_const(a, int) and a.args[0] == -1 and b.op == "meth" and \
            b.args[0] in ("find", "rfind"):
        return c_in(b.args[2], b.args[1])
    if is_const(a, int) and a.args[0] == 0 and b.op == "idx":
        return b_not(c_eq(b, const(0)))
    if a.op == "idx" and is_const(b, int) and b.args[0] == 1:
        return c_eq(a, const(0))
    return atom(mk("lt", a, b))


def c_starts(t, p, op="starts"):
    if t is NONE:
        return FALSE        # raises
    if t.op == "phi":
        return lift_c(t, lambda x: c_starts(x, p, op))
    if p.op == "phi":
        return lift_c(p, lambda x: c_starts(t, x, op))
    if p.op == "tup":
        r = FALSE
        for q in p.args:
            r = b_or(r, c_starts(t, q, op))
        return r
    if p.op == "bag":
        r = FALSE
        for q in p.args[1:]:
            if q.op == "p":
                r = b_or(r, ex_loops(p_loops(q), b_and(
                    p_guard(q), c_starts(t, q.args[0], op))))
        return r
    if is_const(p) and isinstance(p.args[0], tuple):
        r = FALSE
        for q in p.args[0]:
            r = b_or(r, c_starts(t, const(q), op))
        return r
    if is_const(p, str):
        s = p.args[0]
        if s == "":
            return TRUE
        if is_const(t, str):
            f = t.args[0].startswith if op == "starts" else t.args[0].endswith
            return TRUE if f(s) else FALSE
        k = strs.known(t)
        if k:
            r = strs.starts(k, s, op)
            if r is not None:
                return TRUE if r else FALSE
        if t.op == "cat":
            parts = list(t.args)
            if op == "ends":
                parts.reverse()
            q = parts[0]
            if is_const(q.args[0], str) and p_guard(q) == TRUE and \
                    not p_loops(q):
                c = q.args[0].args[0]
                if op == "starts":
                    if c.startswith(s):
                        return TRUE
                    if not s.startswith(c):
                        return FALSE
                else:
                    if c.endswith(s):
                        return TRUE
                    if not s.endswith(c):
                        return FALSE
    if t.op == "str" and op in ("starts", "ends"):
        pass
    return atom(mk(op, t, p))


SUBCLS = {
    "builtins.bool": {"builtins.int"},
    "numpy.floating": {"numpy.number"}, "numpy.integer": {"numpy.number"},
    "numpy.float64": {"numpy.number", "numpy.floating", "builtins.float"},
}
DISJOINT = ["builtins.str", "builtins.dict", "builtins.list",
            "builtins.tuple", "numpy.ndarray", "builtins.set",
            "builtins.bytes"]
NUMERIC = ["builtins.int", "builtins.float", "numpy.number", "builtins.bool",
           "numpy.floating", "numpy.integer"]


def c_isinst(t, cls):
    if t.op == "phi":
        return lift_c(t, lambda x: c_isinst(x, cls))
    if cls.op in ("tup",):
        r = FALSE
        for c in cls.args:
            r = b_or(r, c_isinst(t, c))
        return r
    if cls.op == "bag":
        r = FALSE
        for p in cls.args[1:]:
            if p.op == "p":
                r = b_or(r, b_and(p_guard(p), c_isinst(t, p.args[0])))
        return r
    if cls.op == "bitor":
        return b_or(c_isinst(t, cls.args[0]), c_isinst(t, cls.args[1]))
    name = cls.args[0] if cls.op in ("glob", "cls") else None
    if name is not None:
        if t.op == "const":
            n = "builtins." + type(t.args[0]).__name__
            return TRUE if n == name or name in SUBCLS.get(n, ()) or \
                name == "builtins.object" else FALSE
        if t.op in ("cat", "str", "sym"):
            return TRUE if name == "builtins.str" else FALSE
    return atom(mk("isinst", t, cls))


def c_has(o, n):
    if o.op == "phi":
        return lift_c(o, lambda x: c_has(x, n))
    if n.op == "phi":
        return lift_c(n, lambda x: c_has(o, x))
    if typeof(o) == "Sofa":
        if is_const(n, str) and n.args[0] in SOFA_CLASS_ATTRS:
            return TRUE
        return c_in(n, mk("attr", o, "__dict__"))
    return atom(mk("has", o, n))


SOFA_CLASS_ATTRS = set()

REBUILD = {
    "eq": c_eq, "in": c_in, "lt": c_lt, "isnone": c_isnone,
    "truth": c_truth, "has": c_has, "isinst": c_isinst,
    "starts": lambda a, b: c_starts(a, b, "starts"),
    "ends": lambda a, b: c_starts(a, b, "ends"),
    "exists": lambda L, g: c_exists(L, g_of(g)),
}


# --------------------------------------------------------------- value terms
def t_attr(o, name):
    if o.op == "phi":
        return lift(o, lambda x: t_attr(x, name))
    return mk("attr", o, name)


def t_dyn(o, n):
    if n.op == "phi":
        return lift(n, lambda x: t_dyn(o, x))
    if o.op == "phi":
        return lift(o, lambda x: t_dyn(x, n))
    if is_const(n, str):
        return mk("attr", o, n.args[0])
    return mk("dyn", o, n)


def t_item(o, i):
    if o.op == "phi":
        return lift(o, lambda x: t_item(x, i))
    if i.op == "phi":
        return lift(i, lambda x: t_item(o, x))
    if o.op == "tup" and is_const(i, int) and \
            -len(o.args) <= i.args[0] < len(o.args):
        return o.args[i.args[0]]
    if is_const(o) and i.op == "const":
        try:
            return const(o.args[0][i.args[0]])
        except Exception:
            pass
    if is_const(o, str) and i.op == "slice" and \
            all(x.op == "const" for x in i.args):
        return const(o.args[0][slice(*[x.args[0] for x in i.args])])
    if i.op == "slice" and i.args[0] is NONE and i.args[1] is NONE and \
            i.args[2] is NONE and o.op in ("cat",):
        return o
    if i.op == "idx" and i.args[0].args[0] is o:
        return mk("elem", i.args[0])
    r = split_head(o, i)
    if r is not None:
        return r
    if o.op == "attr" and o.args[1] == "__dict__" and i.op in (
            "elem", "const", "param", "cat", "item", "meth"):
        return t_dyn(o.args[0], i)
    if o.op == "attr" and o.args[1] == "variables" and \
            o.args[0].op == "call" and o.args[0].args[0] == \
            "netCDF4.Dataset":
        return mk("item", o.args[0], i)
    if i.op == "slice" and i.args[2] is NONE:
        k = strs.known(o)
        r = strs.slice_(k, i.args[0], i.args[1]) if k else None
        if r is not None:
            return r
    if o.op == "cat" and i.op == "slice" and i.args[2] is NONE:
        r = cat_slice(o, i.args[0], i.args[1])
        if r is not None:
            return r
    return mk("item", o, i)


def split_head(o, i):
    """x.rsplit(c, 1)[0] and x.rpartition(c)[0] as x[:x.rindex(c)]."""
    if o.op != "meth" or len(o.args) < 3 or not is_const(o.args[2], str) \
            or not is_const(i, int) or i.args[0] != 0 or not o.args[2].args[0]:
        return None
    name, x, c = o.args[:3]
    one = [a.args[1] if a.op == "kw" and a.args[0] == "maxsplit" else a
           for a in o.args[3:]]
    if name == "rsplit" and len(one) == 1 and is_const(one[0], int) and \
            one[0].args[0] == 1:
        other = x
    elif name == "rpartition" and not one:
        other = const("")
    else:
        return None
    head = t_item(x, mk("slice", NONE, mk("meth", "rindex", x, c), NONE))
    at = c_in(c, x)
    return choose([(at, head), (b_not(at), other)])


def cat_slice(o, lo, hi):
    """Drop constant heads and tails of a concatenation exactly."""
    parts = list(o.args)
    if any(p_guard(p) != TRUE or p_loops(p) for p in parts):
        return None
    if is_const(lo, int) and lo.args[0] > 0:
        h = parts[0].args[0]
        if not is_const(h, str) or len(h.args[0]) < lo.args[0]:
            return None
        parts[0] = P(const(h.args[0][lo.args[0]:]))
    elif lo.op == "len":
        # x[len(p):] for a string that literally starts with p
        pre = cat_parts(lo.args[0])
        if len(pre) <= len(parts) and all(
                a is b for a, b in zip(pre, parts)):
            parts = parts[len(pre):]
        else:
            return None
    elif lo is not NONE and lo is not const(0):
        return None
    if is_const(hi, int) and hi.args[0] < 0:
        h = parts[-1].args[0]
        if not is_const(h, str) or len(h.args[0]) < -hi.args[0]:
            return None
        parts[-1] = P(const(h.args[0][:hi.args[0]]))
    elif hi is not NONE:
        return None
    return mk_cat(parts)


def t_meth(name, recv, *args):
    if recv.op == "phi":
        return lift(recv, lambda x: t_meth(name, x, *args))
    for i, a in enumerate(args):
        if a.op == "phi" and len(a.args) <= 8:
            return lift(a, lambda x: t_meth(
                name, recv, *args[:i], x, *args[i + 1:]))
    if is_const(recv, str) and all(a.op == "const" for a in args) and \
            name in STR_METHODS | {"split", "count", "find", "startswith",
                                   "endswith", "encode", "isdigit"}:
        try:
            v = getattr(recv.args[0], name)(*[a.args[0] for a in args])
            if isinstance(v, list):
                return mk("tup", *[const(x) for x in v])
            return const(v)
        except Exception:
            pass
    if name == "keys" and not args:
        return recv
    if name == "get" and args and args[0].op != "kw":
        d = args[1] if len(args) > 1 else NONE
        g = c_in(args[0], recv)
        return choose([(g, t_item(recv, args[0])), (b_not(g), d)])
    if name == "removeprefix" and len(args) == 1 and recv.op == "cat" and \
            is_const(args[0], str):
        r = cat_slice(recv, const(len(args[0].args[0])), NONE) \
            if c_starts(recv, args[0]) == TRUE else None
        if r is not None:
            return r
    k = strs.known(recv)
    if k:
        r = strs.meth(name, k, args)
        if r is not None:
            return r
    if name == "translate" and len(args) == 1:
        r = replaced(recv, char_table(args[0]))
        if r is not None:
            return r
    if name == "sub" and len(args) == 2 and recv.op == "call" and \
            recv.args[0] == "re.compile" and len(recv.args) == 2:
        r = re_sub(recv.args[1], *args)
        if r is not None:
            return r
    if name == "replace" and recv.op == "meth" and \
            recv.args[0] == "replace":
        # independent replacements in a fixed order
        r = recv.args[2:]
        if len(r) == len(args) == 2 and all(
                is_const(x, str) for x in (*r, *args)):
            (a, x), (b, y) = [[t.args[0] for t in z] for z in (r, args)]
            if len(a) == len(b) == 1 and b < a and b not in x and \
                    a not in y:
                return t_meth(name, t_meth(name, recv.args[1], *args), *r)
    return mk("meth", name, recv, *args)


def replaced(t, pairs):
    """t with texts replaced all at once, as a chain of replacements."""
    if pairs is None or any(
            a in y for i, (_, y) in enumerate(pairs)
            for a, _ in pairs[i + 1:]):
        return None
    for a, b in sorted(pairs):
        t = t_meth("replace", t, const(a), const(b))
    return t


def char_table(t):
    """Pairs of str.maketrans."""
    if t.op != "meth" or t.args[0] != "maketrans":
        return None
    a = t.args[1:]
    if len(a) == 2 and all(is_const(x, str) for x in a) and \
            len(a[0].args[0]) == len(a[1].args[0]):
        return list(zip(a[0].args[0], a[1].args[0]))
    if len(a) == 1 and a[0].op == "bag" and all(
            p.args[0].op == "const" and is_const(p.args[1], str)
            and is_const(p.args[0], str) and len(p.args[0].args[0]) == 1
            and p_guard(p) == TRUE and not p_loops(p)
            for p in a[0].args[1:]):
        return [(p.args[0].args[0], p.args[1].args[0])
                for p in a[0].args[1:]]
    return None


def re_sub(pattern, new, t):
    """re.sub with a pattern that matches literal texts only."""
    if not (is_const(pattern, str) and is_const(new, str)) or \
            "\\" in new.args[0]:
        return None
    import re
    try:
        toks = list(re._parser.parse(pattern.args[0]))
    except re.error:
        return None
    if toks and all(str(k) == "LITERAL" for k, _ in toks):
        return replaced(t, [("".join(chr(v) for _, v in toks), new.args[0])])
    if len(toks) == 1 and str(toks[0][0]) == "IN" and all(
            str(k) == "LITERAL" for k, _ in toks[0][1]):
        return replaced(t, [(chr(v), new.args[0]) for _, v in toks[0][1]])
    return None


# -------------------------------------------------------------- substitution
def subst(t, m):
    """Replace terms (keys are terms or their ids) and re-normalise."""
    return _subst(t, by_id(m), {})


def by_id(m):
    return {k.id if isinstance(k, Term) else k: v for k, v in m.items()}


def _subst(t, m, memo):
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.args or t.op == "const":
        return t
    if t.op in ("exists", "sel", "fold"):
        L = t.args[0]
        e = mk("elem", L).id
        if e in m or L.id in m:        # bound here: shadowed
            m2 = {k: v for k, v in m.items()
                  if k not in (e, L.id, mk("idx", L).id)}
            if not m2:
                return t
            memo2 = {}
            T2 = _subst(L.args[0], m, memo)
            if T2 is not L.args[0]:
                L2 = mk("loop", T2, L.args[1])
                body = rename_terms(t.args[1:], L, L2)
                out = [_subst(a, m2, memo2) if isinstance(a, Term) else a
                       for a in body]
                return _build(t.op, (L2,) + tuple(out))
            out = [_subst(a, m2, memo2) if isinstance(a, Term) else a
                   for a in t.args[1:]]
            return _build(t.op, (L,) + tuple(out))
        # capture: rename the bound loop if a replacement mentions it
        if any(L in fl(v) for v in m.values()):
            d = L.args[1] + 1
            L2 = mk("loop", L.args[0], d)
            while any(L2 in fl(v) for v in m.values()) or L2 in fl(t):
                d += 1
                L2 = mk("loop", L.args[0], d)
            t = mk(t.op, L2, *rename_terms(t.args[1:], L, L2))
            L = L2
        T2 = _subst(L.args[0], m, memo)
        if T2 is not L.args[0]:
            L2 = mk("loop", T2, L.args[1])
            t = mk(t.op, L2, *rename_terms(t.args[1:], L, L2))
            L = L2
        out = [_subst(a, m, memo) if isinstance(a, Term) else a
               for a in t.args[1:]]
        return _build(t.op, (L,) + tuple(out))
    if t.op == "g":
        r = gterm(subst_g(t.args[0], m, memo))
        memo[t.id] = r
        return r
    if t.op == "p" and len(t.args) > 3:
        bound = set()
        for L in t.args[3:]:
            if L.op == "loop":
                bound |= {L.id, mk("elem", L).id, mk("idx", L).id}
        if bound & set(m):
            m = {k: v for k, v in m.items() if k not in bound}
            if not m:
                return t
            memo = {}
    new = [(_subst(a, m, memo) if isinstance(a, Term) else a) for a in t.args]
    if all(x is y for x, y in zip(new, t.args)):
        memo[t.id] = t
        return t
    r = _build(t.op, tuple(new))
    memo[t.id] = r
    return r


def rename_terms(args, L, L2):
    return [rename_loop(L, L2, t=a) if isinstance(a, Term) else a
            for a in args]


def _build(op, args):
    if op == "attr":
        return t_attr(*args)
    if op == "dyn":
        return t_dyn(*args)
    if op == "item":
        return t_item(*args)
    if op == "meth":
        return t_meth(*args)
    if op == "cat":
        return mk_cat(list(args))
    if op == "str":
        return mk_str(args[0])
    if op == "phi":
        return choose([(g_of(args[i]), args[i + 1])
                       for i in range(0, len(args), 2)])
    if op in REBUILD:
        return gterm(REBUILD[op](*args))
    return mk(op, *args)


def subst_g(g, m, memo=None):
    memo = {} if memo is None else memo
    m = by_id(m)

    def f(a):
        r = _subst(a, m, memo)
        if r is a:
            return atom(a)
        if r.op in ("g", "const"):
            return g_of(r)
        return atom(r)
    return map_bdd(g, f)


# ------------------------------------------------------------------- theory
def clauses(F, rounds=2):
    """Axioms (conditions that always hold) over the atoms of F."""
    done = set()
    new = support(F)
    atoms = set()
    seen = set()
    for _ in range(rounds):
        new = [a for a in new if a.id not in done]
        if not new:
            break
        done |= {a.id for a in new}
        atoms |= set(new)
        nxt = set()
        for cl in _axioms(sorted(atoms, key=lambda t: t.id)):
            if cl != TRUE and cl not in seen:
                seen.add(cl)
                nxt |= set(support(cl))
                yield cl
        new = sorted(nxt, key=lambda t: t.id)
    # nested quantifiers: instances only
    loops = set()
    for a in list(atoms) + list(new):
        loops |= fl(a)
    for _ in range(3):
        new = [a for a in new if a.id not in done and a.op == "exists"]
        if not new:
            break
        done |= {a.id for a in new}
        nxt = set()
        for a in new:
            for cl in _instances(a, loops):
                if cl != TRUE and cl not in seen:
                    seen.add(cl)
                    nxt |= set(support(cl))
                    yield cl
        new = sorted(nxt, key=lambda t: t.id)


def theory(F, rounds=2):
    """Conjunction of the axioms over the atoms of F."""
    ax = TRUE
    for cl in clauses(F, rounds):
        ax = b_and(ax, cl)
    return ax


def pyval(t):
    return t.args[0]


def _axioms(atoms):
    by = {}
    loops = set()
    for a in atoms:
        loops |= fl(a)
        if a.op in ("eq", "starts", "ends", "isnone", "truth", "isinst"):
            by.setdefault(a.args[0].id, []).append(a)
            if a.op == "eq" and a.args[1].op != "const":
                by.setdefault(a.args[1].id, []).append(a)
        elif a.op == "in":
            by.setdefault(a.args[1].id, []).append(a)
            if a.args[1].op == "const":
                by.setdefault(a.args[0].id, []).append(a)
        elif a.op == "lt":
            by.setdefault(a.args[0].id, []).append(a)
            by.setdefault(a.args[1].id, []).append(a)
    for tid, group in by.items():
        for i, a in enumerate(group):
            A = atom(a)
            for b in group[i + 1:]:
                if a is b:
                    continue
                yield _pair(tid, a, A, b, atom(b))
    ex = [a for a in atoms if a.op == "exists"]
    for i, a in enumerate(ex):
        L, g = a.args[0], g_of(a.args[1])
        yield b_implies(atom(a), c_truth(L.args[0]))
        yield from _instances(a, loops)
        same = [b for b in ex if b is not a and b.args[0] is L]
        if same:
            u = FALSE
            for b in same:
                h = g_of(b.args[1])
                u = b_or(u, h)
                if _light_implies(g, h):
                    yield b_implies(atom(a), atom(b))
            if _light_implies(g, u):
                rhs = FALSE
                for b in same:
                    if b_and(g, g_of(b.args[1])) != FALSE:
                        rhs = b_or(rhs, atom(b))
                yield b_implies(atom(a), rhs)
    # x = y, x = c, y = d
    for a in atoms:
        if a.op == "eq" and a.args[1].op != "const":
            x, y = a.args
            cx, cy = [[b for b in by.get(z.id, ()) if b.op == "eq" and
                       b.args[0] is z and b.args[1].op == "const"]
                      for z in (x, y)]
            for b in cx:
                for d in cy:
                    if b.args[1] is d.args[1]:
                        yield b_implies(b_and(atom(b), atom(d)), atom(a))
                        yield b_implies(b_and(atom(a), atom(b)), atom(d))
                        yield b_implies(b_and(atom(a), atom(d)), atom(b))
                    elif type(b.args[1].args[0]) is type(d.args[1].args[0]):
                        yield b_not(b_and(atom(a), b_and(atom(b), atom(d))))
    # x in T and g(x)  =>  exists
    ins = [a for a in atoms if a.op == "in"]
    for a in ex:
        L, g = a.args[0], g_of(a.args[1])
        for b in ins:
            if b.args[1] is L.args[0] and L not in fl(b.args[0]):
                inst = subst_g(g, {mk("elem", L).id: b.args[0]})
                if L not in fl_g(inst):
                    yield b_implies(b_and(atom(b), inst), atom(a))
    # x is an element of T, x = y  =>  y in T
    for b in ins:
        for a in atoms:
            if a.op == "eq" and b.args[0] in a.args:
                x = a.args[0] if a.args[1] is b.args[0] else a.args[1]
                if isinstance(x, Term) and x.op == "elem" and \
                        x.args[0].args[0] is b.args[1]:
                    yield b_implies(atom(a), atom(b))
    # elements exist: a condition about elem(T) presupposes T non-empty
    for L in loops:
        yield c_truth(L.args[0])
    for b in ins:
        t = mk("truth", b.args[1])
        if not is_const(b.args[1]) and t in atoms:
            yield b_implies(atom(b), atom(t))
    # first element facts:  i == 0


def _instances(a, loops):
    """g(x) => exists x. g(x) for the elements x at hand."""
    L, g = a.args[0], g_of(a.args[1])
    for L2 in loops:
        if L2.args[0] is L.args[0]:
            inst = g if L2 is L else rename_loop(L, L2, g=g)
            if L2 is L or L2 not in (fl_g(g) - {L}):
                yield b_implies(inst, atom(a))


def _light_implies(a, b):
    f = b_and(a, b_not(b))
    if f == FALSE:
        return True
    atoms = [x for x in support(f) if x.op != "exists"]
    for cl in _axioms(atoms):
        f = b_and(f, cl)
        if f == FALSE:
            return True
    return False


def _pair(tid, a, A, b, B):
    """Axiom relating two atoms about the same term."""
    if b.op == "eq" and a.op != "eq":
        a, A, b, B = b, B, a, A
    if a.op == "eq":
        if a.args[1].op != "const":
            return TRUE
        if a.args[0].id != tid:
            return TRUE
        v = a.args[1].args[0]
        t = a.args[0]
        if b.op == "eq":
            if b.args[0] is t and b.args[1].op == "const":
                return b_not(b_and(A, B))
            return TRUE
        if b.op == "starts" and b.args[0] is t and is_const(b.args[1], str):
            r = isinstance(v, str) and v.startswith(b.args[1].args[0])
        elif b.op == "ends" and b.args[0] is t and is_const(b.args[1], str):
            r = isinstance(v, str) and v.endswith(b.args[1].args[0])
        elif b.op == "truth":
            r = bool(v)
        elif b.op == "isnone":
            r = v is None
        elif b.op == "isinst" and b.args[1].op == "glob":
            n = "builtins." + type(v).__name__
            c = b.args[1].args[0]
            if c == n or c in SUBCLS.get(n, ()):
                r = True
            elif c in DISJOINT + NUMERIC:
                r = False
            else:
                return TRUE
        elif b.op == "in" and b.args[1] is t and is_const(b.args[0], str) \
                and isinstance(v, str):
            r = b.args[0].args[0] in v
        elif b.op == "in" and b.args[0] is t and is_const(b.args[1]):
            try:
                r = v in b.args[1].args[0]
            except TypeError:
                return TRUE
        elif b.op == "lt" and isinstance(v, (int, float)):
            if b.args[0] is t and is_const(b.args[1]) and isinstance(
                    pyval(b.args[1]), (int, float)):
                r = v < pyval(b.args[1])
            elif b.args[1] is t and is_const(b.args[0]) and isinstance(
                    pyval(b.args[0]), (int, float)):
                r = pyval(b.args[0]) < v
            else:
                return TRUE
        else:
            return TRUE
        return b_implies(A, B if r else b_not(B))
    ops = {a.op, b.op}
    if ops == {"starts"} and a.args[0] is b.args[0]:
        if is_const(a.args[1], str) and is_const(b.args[1], str):
            p, q = a.args[1].args[0], b.args[1].args[0]
            if p.startswith(q):
                return b_implies(A, B)
            if q.startswith(p):
                return b_implies(B, A)
            return b_not(b_and(A, B))
        return TRUE
    if ops == {"ends"} and a.args[0] is b.args[0]:
        if is_const(a.args[1], str) and is_const(b.args[1], str):
            p, q = a.args[1].args[0], b.args[1].args[0]
            if p.endswith(q):
                return b_implies(A, B)
            if q.endswith(p):
                return b_implies(B, A)
            return b_not(b_and(A, B))
        return TRUE
    if b.op in ("starts", "ends") and a.op == "in":
        a, A, b, B = b, B, a, A
    if a.op in ("starts", "ends") and b.op == "in" and \
            b.args[1] is a.args[0]:
        if is_const(a.args[1], str) and is_const(b.args[0], str) and \
                b.args[0].args[0] in a.args[1].args[0]:
            return b_implies(A, B)
        if a.args[1].op == "cat" and is_const(b.args[0], str) and any(
                is_const(p.args[0], str) and p_guard(p) == TRUE and
                not p_loops(p) and b.args[0].args[0] in p.args[0].args[0]
                for p in a.args[1].args):
            return b_implies(A, B)
        return TRUE
    if b.op in ("starts", "ends") and a.op in ("truth", "isnone", "isinst"):
        a, A, b, B = b, B, a, A
    if a.op in ("starts", "ends"):
        if b.op == "truth":
            return b_implies(A, B)
        if b.op == "isnone":
            return b_not(b_and(A, B))
        return TRUE
    if b.op == "isnone":
        a, A, b, B = b, B, a, A
    if a.op == "isnone":
        if b.op == "truth":
            return b_not(b_and(A, B))
        if b.op == "isinst":
            return b_not(b_and(A, B))
        if b.op == "in" and b.args[1] is a.args[0]:
            return b_not(b_and(A, B))
        return TRUE
    if ops == {"isinst"} and a.args[0] is b.args[0]:
        if a.args[1].op == "glob" and b.args[1].op == "glob":
            m, n = a.args[1].args[0], b.args[1].args[0]
            if n in SUBCLS.get(m, ()):
                return b_implies(A, B)
            if m in SUBCLS.get(n, ()):
                return b_implies(B, A)
            if m in DISJOINT and (n in DISJOINT or n in NUMERIC):
                return b_not(b_and(A, B))
            if n in DISJOINT and m in NUMERIC:
                return b_not(b_and(A, B))
        return TRUE
    if ops == {"lt"}:
        if a.args[0] is b.args[1] and a.args[1] is b.args[0]:
            return b_not(b_and(A, B))
        if a.args[1] is b.args[1] and is_const(a.args[0]) and \
                is_const(b.args[0]):
            try:
                if pyval(a.args[0]) < pyval(b.args[0]):
                    return b_implies(B, A)
                return b_implies(A, B)
            except TypeError:
                return TRUE
        if a.args[0] is b.args[0] and is_const(a.args[1]) and \
                is_const(b.args[1]):
            try:
                if pyval(a.args[1]) < pyval(b.args[1]):
                    return b_implies(A, B)
                return b_implies(B, A)
            except TypeError:
                return TRUE
        return TRUE
    if ops == {"in", "truth"}:
        if a.op == "truth":
            a, A, b, B = b, B, a, A
        if a.args[1] is b.args[0]:
            return b_implies(A, B)
    return TRUE


_UNSAT = {}


def unsat(F):
    """F cannot hold (propositionally plus theory)."""
    if F == FALSE:
        return True
    if F == TRUE:
        return False
    k = F, _DEPTH[0]
    r = _UNSAT.get(k)
    if r is None:
        cur = F
        for cl in clauses(F):
            cur = b_and(cur, cl)
            if cur == FALSE:
                break
        if cur != FALSE:
            cur = _refine(cur)
        r = _UNSAT[k] = cur == FALSE
    return r


_DEPTH = [0]


def _one_cube(g):
    """Literals of one way to satisfy g."""
    from .terms import cubes
    return cubes(g, 1)[0]


def _refine(cur, limit=80):
    """Strengthen cur with consequences of its quantified atoms: where an
    element with g exists and none with h_1, h_2, ..., an element with g and
    none of the h_i must be possible."""
    if _DEPTH[0] >= 3:
        return cur
    _DEPTH[0] += 1
    try:
        for _ in range(limit):
            cl = _quantified(_one_cube(cur))
            if cl is None:
                return cur
            cur = b_and(cur, cl)
            if cur < 2:
                return cur
        return cur
    finally:
        _DEPTH[0] -= 1


def _quantified(cube):
    """A condition that always holds and excludes the cube, or None."""
    pos = [t for t, v in cube if v and t.op == "exists"]
    if not pos:
        return None
    neg = [t for t, v in cube if not v and t.op == "exists"]
    for a in pos:
        L = a.args[0]
        g = g_of(a.args[1])
        hs = []
        for b in neg:
            L2 = b.args[0]
            if L2.args[0] is not L.args[0]:
                continue
            h = g_of(b.args[1])
            if L2 is not L:
                if L in fl_g(h):
                    continue
                h = rename_loop(L2, L, g=h)
            hs.append((b, False, b_not(h)))
        if not hs:
            continue
        sup = set(_deep_support(g))
        for _, _, h in hs:
            sup |= _deep_support(h)
        fs = [(t, v, atom(t) if v else b_not(atom(t))) for t, v in cube
              if t in sup and L not in fl(t)]
        use = hs + fs
        if not _joint_unsat(g, use):
            continue
        i = 0
        while i < len(use):
            rest = use[:i] + use[i + 1:]
            if _joint_unsat(g, rest):
                use = rest
            else:
                i += 1
        cl = b_not(atom(a))
        for t, v, _ in use:
            cl = b_or(cl, b_not(atom(t)) if v else atom(t))
        return cl
    return None


_DEEP = {}


def _deep_support(g):
    """Atoms of g and of the conditions inside its quantified atoms."""
    r = _DEEP.get(g)
    if r is None:
        r = set()
        for t in support(g):
            r.add(t)
            if t.op == "exists":
                r |= _deep_support(g_of(t.args[1]))
        _DEEP[g] = r
    return r


def _joint_unsat(g, use):
    for _, _, h in use:
        g = b_and(g, h)
        if g == FALSE:
            return True
    return unsat(g)


def implies(a, b):
    return unsat(b_and(a, b_not(b)))
