"""Shared machinery of the checks: entry points, obligations, reports."""
import ast
from sflow.project import Project, AnalysisError
from sflow.interp import Interp
from sflow.terms import (mk, const, Term, is_const, NONE, UNDEF, FALSE, TRUE,
                         atom, b_and, b_or, b_not, b_implies, b_iff,
                         constrain, support, cofactor, cubes, show, show_g,
                         subterms, gterm)
from sflow import norm as N
from sflow.norm import (alts, choose, c_truth, c_eq, c_in, c_isnone, t_attr,
                        t_dyn, t_item, fl, g_of, implies, unsat)

# What the calls mean that the checks treat as public anchors.  Everything
# else (private helpers, wrappers) is analysed in the context of its caller.
VERIFY = "Sofa.verify"
INIT = "Sofa.__init__"


class Finding:
    def __init__(self, rule, key, text, where=""):
        self.rule, self.key, self.text, self.where = rule, key, text, where


class Ctx:
    """One run of one check."""

    def __init__(self, project=None, prop="?"):
        self.p = project or Project()
        self.prop = prop
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.functions = set()
        self.events = 0
        self.runs = 0
        self.notes = []
        self._cache = {}

    # ------------------------------------------------------------- analysis
    def func(self, name):
        """Public anchor 'write_sofa', 'Sofa.verify', ..."""
        if "." in name:
            c, m = name.split(".")
            return self.p.method(c, m)
        o = self.p.public(name)
        if not hasattr(o, "qual"):
            raise AnalysisError(f"public function {name} vanished")
        return o

    def run(self, name, args=None, boundary=(VERIFY, INIT), types=None):
        fn = self.func(name) if isinstance(name, str) else name
        own = f"{fn.cls.name}.{fn.name}" if fn.cls else fn.name
        b = frozenset(boundary) - {own}
        key = (fn.qual, tuple(sorted((k, v.id) for k, v in
                                     (args or {}).items())), b)
        if key not in self._cache:
            I = Interp(self.p, b).run(fn, args, types)
            self._cache[key] = I
            self.functions |= I.functions
            self.events += len(I.events)
            self.runs += 1
        return self._cache[key]

    def entries(self):
        """Every public operation: package functions and public methods."""
        out = []
        for n in self.public_names():
            o = self.p.public(n)
            if hasattr(o, "methods"):
                out += self.class_entries(o)
            else:
                out.append(o)
        return out

    def class_entries(self, c):
        out = []
        for m, f in c.methods.items():
            if not m.startswith("_") or (m.startswith("__")
                                         and m.endswith("__")):
                out.append(f)
        for g in (c.getters, c.setters):
            for m, f in g.items():
                if not m.startswith("_") and f not in out:
                    out.append(f)
        return out

    def public_names(self):
        m = self.p.modules.get(self.p.package)
        if m is None:
            raise AnalysisError("package vanished")
        v = m.globals.get("__all__")
        names = []
        if v is not None:
            names = [e.value for e in ast.walk(v)
                     if isinstance(e, ast.Constant)
                     and isinstance(e.value, str)]
        if not names:
            names = [n for n in m.imports if not n.startswith("_")]
        if not names:
            raise AnalysisError("no public names found")
        return names

    # ---------------------------------------------------------- obligations
    def ob(self, rule, key, ok, text="", where=""):
        """One obligation: ok or a finding identified by rule and key."""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
        else:
            self.findings.append(Finding(rule, key, text, where))
        return bool(ok)

    def need(self, n, what, least=1):
        if n < least:
            raise AnalysisError(
                f"{what}: {n} found, at least {least} expected")


def q(fn):
    return f"{fn.cls.name}.{fn.name}" if getattr(fn, "cls", None) else fn.name


def ev(I, kinds=None, name=None, pred=None):
    for e in I.events:
        if kinds and e.kind not in kinds:
            continue
        if name is not None and not (e.name == name if isinstance(name, str)
                                     else e.name in name):
            continue
        if pred and not pred(e):
            continue
        yield e


def sat(g):
    return g != FALSE and not unsat(g)


def entails(a, b):
    return a == FALSE or b == TRUE or unsat(b_and(a, b_not(b)))


def why(g, n=1):
    cs = cubes(g, n)
    return "; or ".join(" and ".join(
        ("" if v else "not ") + show(t, 4) for t, v in c[:12]) for c in cs)


def absorbed(I, e, g=TRUE):
    """Why an exception of event e would not reach the caller on paths
    with condition g, or None."""
    for tc in e.trys:
        if tc.atom is not None and sat(b_and(b_and(g, e.guard), tc.atom)):
            return "an exception handler absorbs it"
        if tc.final:
            for r in I.events:
                if r.kind == "return" and tc.id in r.final and \
                        tc.id not in e.final:
                    return "a return in a finally block absorbs it"
    return None


def fwhere(fn):
    return f"{fn.mod.path}:{fn.node.lineno} in {fn.qual}"


FALLIBLE = ("call", "raise", "assert", "getitem", "delitem", "setattr",
            "delattr", "setitem")
HARMLESS = {"builtins.print", "builtins.len", "builtins.isinstance",
            "builtins.str", "builtins.list", "builtins.dict",
            "builtins.tuple", "builtins.set", "builtins.hasattr",
            "builtins.repr", "builtins.bool", "builtins.type", ".append",
            ".isopen", ".keys", ".items", ".values", ".copy", ".startswith",
            ".endswith", "warnings.warn", "builtins.callable", ".close",
            "builtins.id", ".get"}


def fallible(e):
    return e.kind in FALLIBLE and not (
        e.kind == "call" and e.name in HARMLESS) and not (
        e.kind == "setattr" and e.recv is not None and
        e.recv.op == "param" and is_const(e.args[0], str)
        and e.args[0].args[0].startswith("_"))


# ------------------------------------------------------------ reference code
def spec(c, src, cond=True, **terms):
    """Condition (or value) of a reference expression, computed by the same
    interpreter from its source; free names are bound to the given terms."""
    import textwrap
    from sflow.project import Module, Func
    body = "def spec(" + ", ".join(terms) + "):\n" + textwrap.indent(
        src if "return" in src else "return " + src, "    ")
    m = Module("spec", "<spec>", body, False, c.p)
    fn = m.funcs["spec"]
    I = Interp(c.p, frozenset()).run(fn, dict(terms))
    if cond:
        r = FALSE
        for g, t, loops in I.returns:
            g = b_and(g, c_truth(t))
            for L in reversed(loops):
                g = N.c_exists(L.term, g)
            r = b_or(r, g)
        return r
    return choose([(g, t) for g, t, _ in I.returns])


def keyed(e, o, kind="__dict__"):
    """Loop elements of an event that run over the entries of object o."""
    T = mk("attr", o, kind)
    return [mk("elem", L) for L in e.loops if L.args[0] is T]


def onto(e, E, K, what=TRUE):
    """The guard of event e with its loop element E renamed to K."""
    if E is K:
        return e.guard
    return N.subst_g(e.guard, {E: K})


def prot_at(I, e, obj):
    """Condition under which obj is protected at event e."""
    k = (obj.id, "_protected")
    t = (e.prot or {}).get(k)
    if t is None:
        t = I.attr_default(k)
    return c_truth(t)


class Exhausted(Exception):
    """The analysis does not end within its bounds."""


def decide(mod, c, seconds=800, memory=12 << 30):
    """Run a check within bounds.  What it has found counts even if the
    analysis cannot be completed."""
    import resource
    import signal

    def stop(*_):
        raise Exhausted(f"no result within {seconds} s")
    old = signal.signal(signal.SIGALRM, stop)
    lim = resource.getrlimit(resource.RLIMIT_AS)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (memory, lim[1]))
        signal.alarm(seconds)
        mod.check(c)
    except (AnalysisError, Exhausted, MemoryError, RecursionError) as e:
        c.notes.append(f"incomplete: {type(e).__name__} {e}")
        if not c.findings:
            raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, lim)
