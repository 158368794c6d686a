"""Hash-consed value terms and BDD guards over condition atoms.

A value is a Term (operator + arguments); a condition is a BDD node id over
atoms, each atom being a Term.  A term ``g(n)`` embeds a condition as a value.
"""
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


_TAB = {}


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, Term)
                        else a.id for a in args)
    t = _TAB.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_TAB)
        _TAB[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
UNDEF = mk("undef")


def is_const(t, typ=None):
    return t.op == "const" and (typ is None or isinstance(t.args[0], typ))


# --------------------------------------------------------------------- BDD
FALSE, TRUE = 0, 1
_NODES = [(1 << 30, 0, 0), (1 << 30, 1, 1)]     # (var, lo, hi)
_UNIQ = {}
_ATOMS = []                                      # var -> Term
_AVAR = {}                                       # Term.id -> var
_ITE = {}


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _UNIQ.get(k)
    if n is None:
        n = len(_NODES)
        _NODES.append(k)
        _UNIQ[k] = n
    return n


def atom(t):
    v = _AVAR.get(t.id)
    if v is None:
        v = _AVAR[t.id] = len(_ATOMS)
        _ATOMS.append(t)
    return _node(v, 0, 1)


def b_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ITE.get(k)
    if r is not None:
        return r
    nf, ng, nh = _NODES[f], _NODES[g], _NODES[h]
    v = min(nf[0], ng[0], nh[0])
    lo = b_ite(nf[1] if nf[0] == v else f, ng[1] if ng[0] == v else g,
               nh[1] if nh[0] == v else h)
    hi = b_ite(nf[2] if nf[0] == v else f, ng[2] if ng[0] == v else g,
               nh[2] if nh[0] == v else h)
    r = _node(v, lo, hi)
    _ITE[k] = r
    return r


def b_and(*xs):
    r = 1
    for x in xs:
        r = b_ite(r, x, 0)
    return r


def b_or(*xs):
    r = 0
    for x in xs:
        r = b_ite(r, 1, x)
    return r


def b_not(x):
    return b_ite(x, 0, 1)


def b_implies(a, b):
    return b_ite(a, b, 1)


def b_iff(a, b):
    return b_ite(a, b, b_not(b))


def support(n):
    """Atoms (terms) a condition depends on."""
    seen, out, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen or x < 2:
            continue
        seen.add(x)
        v, lo, hi = _NODES[x]
        out.add(v)
        todo += [lo, hi]
    return [_ATOMS[v] for v in sorted(out)]


_CON = {}


def constrain(f, c):
    """Generalized cofactor: simplify f where c is known to hold."""
    if c == 1 or f < 2:
        return f
    if c == 0:
        return f
    if f == c:
        return 1
    k = (f, c)
    r = _CON.get(k)
    if r is not None:
        return r
    vf, flo, fhi = _NODES[f]
    vc, clo, chi = _NODES[c]
    if vc < vf:
        # atom only in c: existentially quantify it from c
        r = constrain(f, b_or(clo, chi)) if clo and chi else \
            constrain(f, clo or chi)
    else:
        if vc > vf:
            clo = chi = c
        if clo == 0:
            r = constrain(fhi, chi)
        elif chi == 0:
            r = constrain(flo, clo)
        else:
            r = _node(vf, constrain(flo, clo), constrain(fhi, chi))
    _CON[k] = r
    return r


def cofactor(n, values):
    """Replace atoms by constants; values: {Term: bool}."""
    memo = {}
    vals = {_AVAR[t.id]: v for t, v in values.items() if t.id in _AVAR}

    def go(x):
        if x < 2:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _NODES[x]
        if v in vals:
            r = go(hi if vals[v] else lo)
        else:
            # atoms keep their order, so rebuilding nodes is enough
            r = _node(v, go(lo), go(hi))
        memo[x] = r
        return r
    return go(n)


def exists_q(n, atoms):
    """Existentially quantify atoms (terms) out of condition n."""
    for a in atoms:
        n = b_or(cofactor(n, {a: True}), cofactor(n, {a: False}))
    return n


def forall_q(n, atoms):
    for a in atoms:
        n = b_and(cofactor(n, {a: True}), cofactor(n, {a: False}))
    return n


def gterm(n):
    """Condition as a value."""
    if n == 1:
        return const(True)
    if n == 0:
        return const(False)
    return mk("g", n)


def map_bdd(n, f):
    """Rebuild a condition with every atom a replaced by condition f(a)."""
    memo = {}

    def go(x):
        if x < 2:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _NODES[x]
        r = b_ite(f(_ATOMS[v]), go(hi), go(lo))
        memo[x] = r
        return r
    return go(n)


def cubes(n, limit=12):
    """Satisfying paths as lists of (atom, bool) for printing."""
    out = []

    def go(x, acc):
        if len(out) >= limit or x == 0:
            return
        if x == 1:
            out.append(list(acc))
            return
        v, lo, hi = _NODES[x]
        go(hi, acc + [(_ATOMS[v], True)])
        go(lo, acc + [(_ATOMS[v], False)])
    go(n, [])
    return out


# ------------------------------------------------------------------ walking
def subterms(t, seen=None):
    """All subterms including those inside conditions."""
    if seen is None:
        seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                todo.append(a)
        if x.op == "g":
            todo += support(x.args[0])


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def g_contains(n, pred):
    return any(contains(a, pred) for a in support(n))


# ------------------------------------------------------------------ printing
def show_g(n, depth=3):
    if n == 1:
        return "always"
    if n == 0:
        return "never"
    cs = cubes(n, 5)
    txt = []
    for c in cs[:4]:
        txt.append(" and ".join(("" if v else "not ") + show(a, depth)
                                for a, v in c))
    if len(cs) > 4:
        txt.append("...")
    return " or ".join(f"({t})" if len(cs) > 1 else t for t in txt)


def show(t, depth=4):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if depth <= 0:
        return "…"
    d = depth - 1
    a = t.args
    if t.op == "param":
        return a[0]
    if t.op in ("glob", "fn", "cls"):
        return str(a[0])
    if t.op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if t.op == "dyn":
        return f"getattr({show(a[0], d)}, {show(a[1], d)})"
    if t.op == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if t.op == "elem":
        return f"each({show(a[0].args[0], d)})"
    if t.op == "loop":
        return f"loop({show(a[0], d)})"
    if t.op == "g":
        return "{" + show_g(a[0], d) + "}"
    if t.op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if t.op == "exists":
        return (f"any({show_g(a[1].args[0] if a[1].op == 'g' else 1, d)} "
                f"for {show(a[0], d)})")
    if t.op == "cat":
        return "+".join(show(p.args[0], d) for p in a)
    if t.op == "eq":
        return f"{show(a[0], d)} == {show(a[1], d)}"
    if t.op == "in":
        return f"{show(a[0], d)} in {show(a[1], d)}"
    if t.op == "lt":
        return f"{show(a[0], d)} < {show(a[1], d)}"
    if t.op == "isnone":
        return f"{show(a[0], d)} is None"
    if t.op == "has":
        return f"hasattr({show(a[0], d)}, {show(a[1], d)})"
    if t.op == "meth":
        return f"{show(a[1], d)}.{a[0]}(" + ", ".join(
            show(x, d) for x in a[2:]) + ")"
    if t.op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a[:2])
    return f"{t.op}(" + ", ".join(show(x, d) for x in a) + ")"
