"""C14: upgrading changes an object only for a valid target, then fully."""
import copy

from sflow.interp import Interp
from sflow.terms import map_bdd
from .base import *
from .c08 import changes
from .c25 import reported
from .values import Prov, kwargs

RULE = ("guard-sensitive effect analysis of upgrade_convention: every change "
        "of an entry, and every use of the convention table of another "
        "convention, must lie under a condition that implies that the "
        "target is offered by the first upgrade rule for the convention and "
        "version of the object; under that condition every normal path must "
        "set the four describing attributes from the table of the target, "
        "move every datum of the rule, delete exactly the listed data, add "
        "missing mandatory data afterwards and verify as asked")
FOUR = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
        "GLOBAL_Version", "GLOBAL_DataType")
SAMPLES = ("Data.IR", "Data.SamplingRate:Units", "GLOBAL:Title",
           "SourcePosition", "Source_View:Type", "Data.A.B:C:D")


def check(c):
    m = Model(c)
    if not c.ob("upgrades-happen", "convention", m.ch and m.loads,
                "no upgrade ever changes the object", fwhere(m.fn)):
        return
    m.rejected()
    m.described()
    m.moved()
    m.removed()
    m.nothing_else()
    m.completed()
    m.verified()


class Model:
    def __init__(s, c):
        s._seen = None
        s.c, s.fn = c, c.func("Sofa.upgrade_convention")
        names = [a.arg for a in s.fn.node.args.args]
        c.need(len(names), "parameters of upgrade_convention", 3)
        if names[1:3] != ["target", "verify"]:
            raise AnalysisError("parameters of upgrade_convention changed")
        s.o, s.target, s.ver = [mk("param", n) for n in names[:3]]
        I = Interp(c.p, frozenset({VERIFY, INIT}))
        I.versions = {}
        s.I = I.run(s.fn)
        c.functions |= I.functions
        c.events += len(I.events)
        c.runs += 1
        T = {}
        for e in I.events:
            for t in list(e.args) + [e.recv]:
                for x in subterms(t) if t is not None else ():
                    if x.op == "call" and x.args[0] == "json.load" and \
                            has_text(x, "upgrade.json"):
                        T[x.id] = x
        c.need(len(T), "table of the upgrade rules")
        if len(T) > 1:
            raise AnalysisError("several tables of upgrade rules")
        s.T = list(T.values())[0]
        s.conv = t_attr(s.o, "GLOBAL_SOFAConventions")
        s.vers = t_attr(s.o, "GLOBAL_SOFAConventionsVersion")
        s.rules = t_item(s.T, s.conv)
        s.first_rule()
        s.ch = [(e, k) for e, T, k in changes(I, s.o) if T == "entry"]
        s.loads = [e for e in I.events if e.kind in ("setattr", "rawset")
                   and e.recv is s.o and e.args[0] is const("_convention")
                   and any(x is s.target for x in subterms(e.args[1]))]
        s.on = b_and(s.normal, s.offered)

    def first_rule(s):
        """Write R for the first row of the rules whose versions contain the
        version of the object, in all events."""
        I = s.I
        s.R = mk("sym", "rule", "", ())
        s.H = atom(mk("sym", "rule exists", "", ()))
        table = t_item(s.rules, const("from_to"))
        match = lambda x: c_in(s.vers, t_item(x, const(0)))
        rows, m, drop = set(), {}, {}
        for t in s.seen():
            if t.op == "loop" and N.strip_iter(t.args[0]) is table:
                rows.add(t)
        s.c.need(len(rows), "loops over the upgrade rules")
        for t in s.seen():
            if t.op == "elem" and t.args[0] in rows:
                m[t.id] = s.R
            elif t.op == "sel" and t.args[0] in rows:
                e = mk("elem", t.args[0])
                if entails(N.g_of(t.args[1]), match(e)):
                    m[t.id] = N.subst(t.args[2], {e.id: s.R})
            elif t.op == "item" and t.args[1] is const(0) and \
                    t.args[0].op == "bag" and len(t.args[0].args) == 2:
                p = t.args[0].args[1]
                L = N.p_loops(p)
                if len(L) == 1 and L[0] in rows and p.args[0].op == "elem" \
                        and entails(N.p_guard(p), match(p.args[0])):
                    m[t.id] = s.R

        def found(a):
            if a.op != "exists" or a.args[0] not in rows:
                return atom(a)
            e, g = mk("elem", a.args[0]), N.g_of(a.args[1])
            if not entails(g, match(e)):
                return atom(a)
            return b_and(s.H, clean(N.subst_g(drop_unbroken(g),
                                              {e.id: s.R})))

        def settled(a):
            if a.op == "isnone" and a.args[0] is s.R:
                return FALSE
            if a.op == "unbroken" and a.args[0] in rows:
                return TRUE
            return TRUE if atom(a) == match(s.R) else atom(a)

        def drop_unbroken(g):
            return map_bdd(g, lambda a: TRUE if a.op == "unbroken"
                           and a.args[0] in rows else atom(a))

        def clean(g):
            return map_bdd(g, settled)

        def guard(g):
            return clean(N.subst_g(map_bdd(g, found), m))
        term = lambda t: N.subst(t, m) if isinstance(t, Term) else t
        out = []
        for e in I.events:
            e2 = copy.copy(e)
            inside = any(L in rows for L in e.loops)
            e2.guard = guard(e.guard)
            if inside:
                e2.guard = b_and(e2.guard, s.H)
            e2.recv = term(e.recv)
            e2.args = tuple(term(t) for t in e.args)
            e2.loops = tuple(term(t) for t in e.loops if t not in rows)
            out.append(e2)
        I.events = out
        s.normal = guard(I.normal)
        s.offered = b_and(b_and(s.H, c_in(s.conv, s.T)),
                          c_in(s.target, t_item(s.R, const(1))))
        s._seen = None

    # ------------------------------------------------- a target not offered
    def rejected(s):
        done = FALSE
        for e, k in s.ch + [(e, None) for e in s.loads]:
            n = show(e.args[0], 3) if e.args else e.kind
            s.c.ob("only-offered-targets", f"{e.kind}:{n}"[:80],
                   entails(e.guard, s.offered),
                   f"upgrade_convention changes {n} although the target is "
                   f"not offered when "
                   f"{why(b_and(e.guard, b_not(s.offered)))}", e.where())

    # ------------------------------------------------------ the description
    def described(s):
        L = s.loads[-1]
        parts = {x for x in subterms(L.args[1]) if x.op in ("item", "slice")
                 and x.args[0].op == "meth" and any(
                     direct(y, s.target) for y in x.args[0].args[1:])}
        whole = any(x.op in ("cat", "eq", "str", "bin") and any(
            direct(y, s.target) for y in x.args) for x in subterms(L.args[1]))
        s.c.ob("table-of-the-target", "convention", len(parts) > 1 or whole,
               "the convention table that is loaded does not depend on the "
               f"name and the version of the target: "
               f"{[show(x, 4) for x in parts]}", L.where())
        g = b_and(s.on, b_not(L.guard))
        s.c.ob("table-loaded", "convention", not sat(g),
               "the convention of an offered target is not loaded when "
               f"{why(g)}", L.where())
        for key in FOUR:
            good, told = FALSE, ""
            for e, k in s.ch:
                if k is not const(key) or e.kind not in ("setattr", "rawset"):
                    continue
                g = FALSE
                for ag, t in alts(e.args[1]):
                    if s.default(t, key, L) or s.part(t, key):
                        g = b_or(g, ag)
                    elif sat(b_and(e.guard, ag)):
                        told = f" ({show(t, 4)})"
                if entails(e.guard, g):
                    good = b_or(good, e.guard)
                else:
                    good = b_and(good, b_not(e.guard))
            bad = b_and(s.on, b_not(good))
            s.c.ob("description-of-the-target", key, not sat(bad),
                   f"{key} is not set to the value{told} of the target when "
                   f"{why(bad)}", fwhere(s.fn))

    def tables(s, L):
        """Terms of the convention table from the load L on."""
        out = [L.args[1]]
        for t in s.seen():
            if t.op == "attr" and t.args[1] == "_convention" and \
                    t.args[0].op == "at" and t.args[0].args[0] is s.o and \
                    t.args[0].args[1] >= (L.version or 0):
                out.append(t)
        return out

    def seen(s):
        if s._seen is None:
            d = {}
            for e in s.I.events:
                for t in list(e.args) + [e.recv] + list(e.loops):
                    for x in subterms(t) if t is not None else ():
                        d[x.id] = x
                for a in support(e.guard):
                    for x in subterms(a):
                        d[x.id] = x
            s._seen = list(d.values())
        return s._seen

    def default(s, t, key, L):
        t = unstr(t)
        return any(t is t_item(t_item(x, const(key)), const("default"))
                   for x in s.tables(L))

    def part(s, t, key):
        """The value is part of the name of the target."""
        i = {"GLOBAL_SOFAConventions": 0,
             "GLOBAL_SOFAConventionsVersion": 1}.get(key)
        if i is None:
            return False
        return any(unstr(t) is spec(s.c, x, False, t=s.target) for x in (
            f"t.split('_')[{i}]", f"t.rsplit('_', 1)[{i}]",
            f"t.partition('_')[{2 * i}]", f"t.split('_', 1)[{i}]",
            f"t.rpartition('_')[{2 * i}]", f"t.split('_')[{i - 2}]"))

    # -------------------------------------------------------------- the data
    def listed(s, what):
        """Table terms rules[id][what] that are used, with the verdict on
        the id."""
        out = []
        for t in s.seen():
            if t.op == "item" and t.args[1] is const(what) and \
                    t.args[0].op == "item" and t.args[0].args[0] is s.rules:
                out.append((t, t.args[0].args[1]))
        return out

    def right_row(s, i, g):
        """Is i the id of the rule for the version of the object?"""
        return all(x is t_item(s.R, const(2)) for ag, x in alts(i)
                   if sat(b_and(g, ag)))

    def table(s, what):
        ts = s.listed(what)
        s.c.need(len(ts), f"the rule '{what}'")
        for t, i in ts:
            s.c.ob("rule-of-the-version", what, s.right_row(i, s.on),
                   f"'{what}' is taken from {show(i, 5)}, which is not the "
                   "rule for the version of the object", fwhere(s.fn))
        return [t for t, _ in ts]

    def renamed(s, t, k, K):
        """Is t the name, used in sofar, of the name term k (of element K)?"""
        t = unstr(t)
        if t is spec(s.c, "k.replace('.', '_').replace(':', '_')", False,
                     k=k):
            return True
        if t is k or not any(x is k for x in subterms(t)):
            return False
        return all(N.subst(t, {k.id: const(x)}) is const(
            x.replace(".", "_").replace(":", "_")) for x in SAMPLES)

    def over(s, e, tabs):
        """Elements of the loops of event e over one of the tables."""
        for L in e.loops:
            for T in tabs:
                if N.strip_iter(L.args[0]) is T:
                    yield mk("elem", L), T

    def moved(s):
        tabs = s.table("move")
        s.moves, done = [], FALSE
        K = mk("sym", "source", "", ())
        reach = {}
        for e, k in s.ch:
            for E, T in s.over(e, tabs):
                old = lambda t: s.renamed(t, E, E)
                to = t_item(t_item(T, E), const("target"))
                if e.kind in ("delattr", "rawdel") and old(k):
                    reach.setdefault("del", []).append((e, E, T))
                elif e.kind in ("setattr", "rawset") and s.renamed(
                        k, to, E):
                    reach.setdefault("set", []).append((e, E, T))
                    s.value(e, E, T)
                else:
                    continue
                s.moves.append(e)
                s.open(e)
        L = None
        for what, text in (("del", "is not deleted under its old name"),
                           ("set", "is not stored under its new name")):
            got = FALSE
            for e, E, T in reach.get(what, []):
                got = b_or(got, onto(e, E, K))
            old = spec(s.c, "k.replace('.', '_').replace(':', '_')", False,
                       k=K)
            want = b_and(s.on, FALSE)
            for T in tabs:
                g = b_and(b_and(s.on, c_in(K, T)), N.c_has(s.o, old))
                g = b_and(g, b_not(got))
                s.c.ob("every-datum-moved", what, not sat(g),
                       f"a datum the upgrade moves {text} when {why(g)}",
                       fwhere(s.fn))
        for d, E, T in reach.get("del", []):
            for w, E2, T2 in reach.get("set", []):
                s.c.ob("moved-in-order", "move", d.seq < w.seq and E is E2,
                       "the old name is deleted after the new one was "
                       "stored (a datum that keeps its name would be lost)",
                       d.where())
        s.order(reach)

    def open(s, e):
        p = prot_at(s.I, e, s.o)
        g = b_and(e.guard, p)
        s.c.ob("protection-off", f"{e.kind}", not sat(g),
               "read-only and mandatory data cannot be changed here because "
               f"the object is protected when {why(g)}", e.where())

    def order(s, reach):
        """The value is read before the datum is deleted."""
        for d, E, T in reach.get("del", []):
            for r in s.I.events:
                if r.kind == "getattr" and r.recv is s.o and \
                        r.args and r.args[0] is d.args[0]:
                    s.c.ob("read-before-delete", "move", r.seq < d.seq,
                           "the datum is read after it was deleted",
                           r.where())

    def value(s, e, E, T):
        axes = t_item(t_item(T, E), const("moveaxis"))
        none = c_isnone(axes)
        src = spec(s.c, "k.replace('.', '_').replace(':', '_')", False, k=E)

        class Moved(Prov):
            def ok(p, t, g=TRUE, depth=0):
                if t.op == "call" and t.args[0] == "numpy.moveaxis":
                    pos, kw = kwargs(t)
                    a = kw.get("source") or (pos[1] if len(pos) > 1 else None)
                    b = kw.get("destination") or (
                        pos[2] if len(pos) > 2 else None)
                    both = a is not None and a.op == "star" and \
                        a.args[0] is axes and b is None
                    if (both or a is t_item(axes, const(0)) and
                            b is t_item(axes, const(1))) and not sat(
                                b_and(g, none)):
                        p.turned = b_or(p.turned, g)
                        return Prov(p.base).ok(pos[0], g, depth + 1) or \
                            p.fail(t)
                    return p.fail(t, "the axes are moved differently: "
                                  + show(t, 4))
                return super().ok(t, g, depth)
        p = Moved(lambda t: t.op == "dyn" and t.args[0] is s.o
                  and s.renamed(t.args[1], E, E))
        p.turned = FALSE
        ok = True
        for ag, t in alts(e.args[1]):
            g = b_and(e.guard, ag)
            if not sat(g):
                continue
            before = p.turned
            p.turned = FALSE
            ok = p.ok(t, g) and ok
            left = b_and(b_and(g, b_not(none)), b_not(p.turned))
            if ok and sat(left):
                ok = p.fail(t, f"its axes are not moved when {why(left)}")
            p.turned = b_or(before, p.turned)
        s.c.ob("moved-unchanged", "move", ok,
               f"a datum that is moved does not keep its values: {p.why}",
               e.where())

    def removed(s):
        tabs = s.table("remove")
        K = mk("sym", "name", "", ())
        s.removals, got = [], FALSE
        for e, k in s.ch:
            for E, T in s.over(e, tabs):
                if e.kind in ("delattr", "rawdel") and s.renamed(k, E, E):
                    s.removals.append(e)
                    s.open(e)
                    got = b_or(got, onto(e, E, K))
        old = spec(s.c, "k.replace('.', '_').replace(':', '_')", False, k=K)
        for T in tabs:
            g = b_and(b_and(s.on, c_in(K, T)), N.c_has(s.o, old))
            g = b_and(g, b_not(got))
            s.c.ob("every-listed-datum-removed", "remove", not sat(g),
                   f"a datum the upgrade removes stays when {why(g)}",
                   fwhere(s.fn))

    def nothing_else(s):
        for e, k in s.ch:
            if e in s.moves or e in s.removals:
                continue
            if k is not None and k.op == "const" and k.args[0] in FOUR:
                s.open(e)
                continue
            ok = e.kind in ("setattr", "rawset") and s.missing(e, k)
            s.c.ob("nothing-else-changes", f"{e.kind}:{show(k, 2)}"[:60], ok,
                   f"upgrade_convention changes {show(k, 4)}, which the "
                   f"upgrade does not list, when {why(e.guard)}", e.where())

    def missing(s, e, k):
        """The default of missing data is stored."""
        if sat(b_and(e.guard, b_and(N.c_has(s.o, k), b_not(
                N.c_starts(k, const("_"), "starts"))))):
            return False
        return all(unstr(t) is t_item(t_item(x, k), const("default"))
                   for _, t in alts(e.args[1])
                   for x in [base_table(t)] if x is not None)

    def completed(s):
        K = mk("sym", "key", "", ())
        tabs, got, last = [], FALSE, 0
        evs = [(e, k) for e, k in s.ch if e not in s.moves
               and e not in s.removals and k is not None
               and k.op != "const" and e.kind in ("setattr", "rawset")]
        s.c.need(len(evs), "missing data that are added")
        for e, k in evs:
            x = base_table(e.args[1])
            if x is not None:
                f = t_item(t_item(x, k), const("flags"))
                g = b_and(e.guard, b_not(b_and(
                    b_not(c_isnone(f)), c_in(const("m"), f))))
                s.c.ob("only-mandatory-data-added", "missing", not sat(g),
                       f"data that are not mandatory are added when {why(g)}",
                       e.where())
            tabs += [x] if x is not None and x not in tabs else []
            for L in e.loops:
                if mk("elem", L) is k:
                    got = b_or(got, onto(e, k, K))
            before = [x for x in s.moves + s.removals if x.seq > e.seq]
            s.c.ob("completed-last", "missing", not before,
                   "missing data are added before the data are moved and "
                   "removed", e.where())
        for T in tabs:
            f = t_item(t_item(T, K), const("flags"))
            g = b_and(b_and(s.on, c_in(K, T)), b_and(
                b_not(c_isnone(f)), c_in(const("m"), f)))
            g = b_and(g, b_not(b_or(N.c_has(s.o, K), got)))
            s.c.ob("missing-mandatory-data-added", "missing", not sat(g),
                   "missing mandatory data are not added after an upgrade "
                   f"when {why(g)}", fwhere(s.fn))

    # ---------------------------------------------------------- verification
    def verified(s):
        calls = [e for e in s.I.events if e.kind == "call"
                 and e.name == VERIFY and e.recv is s.o]
        s.c.need(len(calls), "calls of verify")
        V = mk("sym", "version", "", ())
        L = s.loads[-1]
        same = {}
        for t in s.seen():
            if t.op == "attr" and t.args[1] == \
                    "GLOBAL_SOFAConventionsVersion" and t.args[0].op == "at":
                same[t.id] = V
            elif s.part(t, "GLOBAL_SOFAConventionsVersion") or s.default(
                    t, "GLOBAL_SOFAConventionsVersion", L):
                same[t.id] = V
        P = "packaging.version.parse"
        for t in s.seen():
            if t.op == "call" and t.args[0] == "packaging.version.Version":
                same[t.id] = mk("call", P, *[
                    N.subst(x, same) if isinstance(x, Term) else x
                    for x in t.args[1:]])
        asked = spec(s.c, "f(v) >= f('1.0') if verify == 'auto' else verify",
                     v=V, verify=s.ver, f=mk("glob", P))
        got = FALSE
        for e in calls:
            s.c.ob("issues-reported", "verify", reported(e),
                   "the issues found after the upgrade are not reported",
                   e.where())
            g = N.subst_g(e.guard, same)
            bad = b_and(g, b_not(asked))
            s.c.ob("verified-only-if-asked", "verify", not sat(bad),
                   f"verify is called when {why(bad)}", e.where())
            got = b_or(got, g)
            late = [x for x, _ in s.ch if x.seq > e.seq and sat(
                b_and(x.guard, e.guard))]
            s.c.ob("verified-last", "verify", not late,
                   "the object is verified before the upgrade is complete",
                   e.where())
        bad = b_and(b_and(N.subst_g(s.on, same), asked), b_not(got))
        s.c.ob("verified-if-asked", "verify", not sat(bad),
               f"the upgraded object is not verified when {why(bad)}",
               fwhere(s.fn))


def has_text(t, text):
    return any(x.op == "const" and isinstance(x.args[0], str)
               and x.args[0].endswith(text) for x in subterms(t))


def direct(t, x):
    if not isinstance(t, Term):
        return False
    return t is x or t.op in ("p", "str") and any(direct(y, x)
                                                  for y in t.args)


def unstr(t):
    while t.op == "str" or t.op == "call" and t.args[0] == "builtins.str":
        t = t.args[-1]
    return t


def base_table(t):
    t = unstr(t)
    if t.op == "item" and t.args[1] is const("default") and \
            t.args[0].op == "item":
        return t.args[0].args[0]
    return None
