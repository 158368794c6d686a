"""C09: every issue that verification detects reaches the caller."""
from sflow.interp import Event
from .base import *
from .c10 import Model, DEPRECATED

RULE = ("for each way to handle issues Sofa.verify is analysed with that "
        "constant: the term of the raised, printed, warned or returned text "
        "is decomposed into its guarded parts, and for an arbitrary entry, "
        "rule, dependency, dimension or unit the reference condition of an "
        "issue must imply the guard of a part that names the culprit; no "
        "text that names a culprit may leave through another channel, and "
        "no normal end is possible in 'raise' mode once an error exists")
MODES = ("raise", "print", "return", "ignore")
# Values no implementation may take for values of a wrong type.
STRICT = """
import numpy as np
if t == 'attribute':
    return isinstance(v, str)
if t == 'double':
    if isinstance(v, (np.ndarray, np.number)):
        return v.dtype.kind == 'f' and \
            np.issubdtype(v.dtype, np.floating) and \
            np.issubdtype(v.dtype, np.number)
    return isinstance(v, (int, float))
if t == 'string':
    if isinstance(v, np.ndarray):
        return v.dtype.kind == 'U' and \
            str(v.dtype).startswith('<U') and \
            np.issubdtype(v.dtype, np.str_) and \
            np.issubdtype(v.dtype, np.character)
    return isinstance(v, str)
return False
"""
SILENCE = ("warnings.simplefilter", "warnings.filterwarnings",
           "warnings.catch_warnings")


def parts(t, g=TRUE, d=0):
    """(term, condition) of the pieces of a text."""
    if not isinstance(t, Term) or d > 8:
        return
    if t.op == "phi":
        for h, x in alts(t):
            yield from parts(x, b_and(g, h), d + 1)
    elif t.op in ("cat", "str"):
        for p in N.cat_parts(t):
            h = b_and(g, N.p_guard(p))
            if p.args[0] is t:
                yield t, h
            else:
                yield from parts(p.args[0], h, d + 1)
    else:
        yield t, g


def mention(t, who):
    """Condition under which text t names who."""
    r = FALSE
    for x, g in parts(t):
        if any(y is who for y in subterms(x)):
            r = b_or(r, g)
    return r


def literals(g):
    """The literals that a condition implies."""
    r = TRUE
    for a in support(g):
        if cofactor(g, {a: False}) == FALSE:
            r = b_and(r, atom(a))
        elif cofactor(g, {a: True}) == FALSE:
            r = b_and(r, b_not(atom(a)))
    return r


def text(e):
    """Text of a raised exception, a warning or an output."""
    t = e.args[0] if e.args else e.arg(0, "message")
    while isinstance(t, Term) and t.op == "call" and len(t.args) > 1 and \
            isinstance(t.args[1], Term):
        t = t.args[1]
    return t


class Mode:
    def __init__(s, c, fn, mode):
        s.c, s.fn, s.mode = c, fn, mode
        s.I = c.run(fn, {"issue_handling": const(mode)})
        s.M = Model(c, s.I, fn)
        s.issues = []
        s.early = FALSE
        for tag, txt, D, who in s.M.detections():
            Ds = D if isinstance(D, list) else [D]
            D = Ds[0]
            s.issues.append((tag, txt, Ds, who if isinstance(
                who, list) else [who]))
            if tag == "mandatory" and mode == "raise":
                private = N.c_starts(who, const("_"))
                there = c_in(who, mk("attr", s.M.so, "__dict__"))
                must = cofactor(D, {a: False for a in support(b_or(
                    private, there))})
                s.early = b_or(s.early, N.c_exists(who.args[0], b_and(
                    must, b_or(private, b_not(there)))))
        K = s.M.K
        s.early = b_or(s.early, N.c_exists(K.args[0], b_and(
            s.M.entry(K), b_not(s.M.spec(STRICT, v=s.M.var(K), t=t_item(
                t_item(s.M.conv, K), const("type")))))))
        so = s.M.so
        version = t_attr(so, "GLOBAL_SOFAConventionsVersion")
        name = t_attr(so, "GLOBAL_SOFAConventions")
        s.warnings = [
            ("preliminary", "a preliminary version", [s.M.spec(
                "float(v) < 1.0", v=version)], [version]),
            ("deprecation-read", "a deprecated convention when reading",
             [b_and(b_not(c_eq(s.M.mode, const("write"))), s.M.spec(
                 DEPRECATED, n=name, d=s.M.deprecated))], [name])]
        if mode != "raise":
            s.warnings.append(s.issues[0])
            s.issues = s.issues[1:]
        s.elems = [w for _, _, _, ws in s.issues + s.warnings for w in ws
                   if w.op == "elem"]

    def names_culprit(s, t):
        return any(y in s.elems for x, _ in parts(t) for y in subterms(x))

    def rest(s, tag):
        """Condition under which the issue is looked for at all."""
        return b_not(s.early) if s.is_late(tag) else TRUE

    def is_late(s, tag):
        return not tag.startswith("type-") and tag != "mandatory"

    def is_early(s, g):
        """Does an exit need data of a wrong type (or missing data)?"""
        return entails(g, s.early)

    def outputs(s):
        """(kind, event, text)"""
        for e in s.I.events:
            if e.kind == "raise":
                yield e.name, e, text(e)
            elif e.kind == "call" and e.name in ("builtins.print",
                                                 "warnings.warn",
                                                 "sys.stdout.write"):
                yield e.name.replace("sys.stdout.write", "builtins.print"), \
                    e, text(e)

    def covered(s, tag, txt, conds, g, where):
        s.c.ob(f"'{s.mode}' reports every issue", f"{s.mode}-{tag}",
               any(entails(x, h) for x, h in zip(conds, g)),
               f"{txt} does not reach the caller: "
               + why(b_and(conds[0], b_not(g[0]))), where)

    def named(s, kinds, who, g):
        """Condition under which, on the way to an exit with condition g, who
        is named in one of these outputs."""
        r = FALSE
        for k, e, t in s.outputs():
            if k in kinds and t is not None:
                m = mention(t, who)
                if m != FALSE:
                    r = b_or(r, b_and(constrain(e.guard, g), m))
        return r


def check_mode(s):
    c, I, w = s.c, s.I, fwhere(s.fn)
    c.need(int(sat(I.normal)), "normal end of Sofa.verify")
    # ------------------------------------------------------- other channels
    for k, e, t in s.outputs():
        if t is None or not s.names_culprit(t):
            continue
        own = {"raise": ("builtins.ValueError", "warnings.warn"),
               "print": ("builtins.print",)}.get(s.mode, ())
        if k in own or k == "builtins.TypeError":
            continue
        c.ob(f"'{s.mode}' uses no other channel", f"channel-{k}", False,
             f"issues leave through {k} with issue_handling='{s.mode}'",
             e.where())
    for e in ev(I, ("call",), SILENCE):
        c.ob("warnings are not silenced", "silence", False,
             f"{e.name} hides warnings", e.where())
    if s.mode == "ignore":
        c.ob("nothing is reported", "ignore", True)
        return
    # ---------------------------------------------------------------- report
    exits = [(g, t, s.is_early(g), w) for g, t, _ in I.returns]
    if s.mode == "raise":
        exits += [(e.guard, e, s.is_early(e.guard), e.where())
                  for k, e, t in s.outputs()
                  if k == "builtins.ValueError" and s.names_culprit(t)]
    for issue in s.issues + s.warnings:
        tag, txt, Ds, ws = issue
        warned = issue in s.warnings
        for g, t, early, where in exits:
            if early and s.is_late(tag):
                continue
            here = b_and(s.rest(tag), literals(g))
            here = [b_and(D, here) for D in Ds]
            if here[0] == FALSE:
                continue
            if s.mode == "return":
                m = [mention(t, who) for who in ws]
            elif s.mode == "print":
                m = [s.named(("builtins.print",), who, g) for who in ws]
            elif warned:
                m = [s.named(("warnings.warn",), who, g) for who in ws]
            elif isinstance(t, Event):
                m = [mention(text(t), who) for who in ws]
            else:
                c.ob("'raise' never ends normally after an error", tag,
                     any(not sat(b_and(D, g)) for D in Ds),
                     f"verification ends normally despite {txt}", w)
                continue
            s.covered(tag, txt, here, m, where)
    found = 0
    for g, t, early, where in exits:
        t = text(t) if isinstance(t, Event) else t
        if s.mode == "print" or not isinstance(t, Term):
            continue
        # the shape of a variable: named whatever was reported before
        m = FALSE
        for x, h in parts(t):
            if x is s.M.K and any(
                    y.op == "item" and y.args[1] is const("dimensions")
                    for a in support(literals(h)) for y in subterms(a)):
                m = b_or(m, h)
        if m != FALSE:
            found += 1
            again = [a for a in support(m) if a.op in ("truth", "eq") and any(
                y.op == "carry" and y.args[0] is s.M.K.args[0]
                for y in subterms(a))]
            c.ob(f"'{s.mode}' names every entry", f"{s.mode}-each",
                 not again, "whether an entry is named depends on what has "
                 f"been reported before: {show(again[0]) if again else ''}",
                 where)
    if s.mode in ("raise", "return"):
        c.need(found, "names of entries in the text")


def check(c):
    fn = c.func("Sofa.verify")
    for mode in MODES:
        check_mode(Mode(c, fn, mode))
