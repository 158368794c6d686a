"""C04: read_sofa only returns verified data when asked to verify."""
from .base import *
from .effects import dataset
from .c01 import private

RULE = ("dominance with path conditions: on every path on which read_sofa "
        "returns (verify=True; verify='auto' except where the version is "
        "compared to be below 1.0) the returned object was verified in read "
        "mode with issues raised after its last change, no handler absorbs "
        "the exception, and the object was created by the constructor from "
        "the convention name and version found in the file")


def version_below_one(a):
    if a.op != "lt":
        return False
    x, y = a.args
    return mentions(x, "SOFAConventionsVersion") and one(y)


def mentions(t, name):
    return any((s.op == "attr" and s.args[1] in (name, "GLOBAL_" + name)) or
               (s.op == "const" and s.args[0] in (name, "GLOBAL_" + name))
               for s in subterms(t))


def one(t):
    if t.op == "const":
        return t.args[0] in (1, 1.0)
    if t.op == "call" and len(t.args) == 2 and t.args[1].op == "const":
        return str(t.args[1].args[0]) in ("1.0", "1", "1.0.0")
    return False


def check(c):
    fn = c.func("read_sofa")
    pv = "verify"
    for label, val in (("verify=True", const(True)),
                       ("verify='auto'", const("auto"))):
        I = c.run(fn, {pv: val})
        vs = list(ev(I, ("call",), VERIFY))
        c.need(len(I.returns), "returns of read_sofa")
        for rg, rt, loops in I.returns:
            for ag, obj in alts(rt):
                g = b_and(rg, ag)
                if not sat(g):
                    continue
                ok, reason = verified(c, I, vs, obj, g, val)
                c.ob("return-dominated-by-verify",
                     f"read_sofa:{label}", ok,
                     f"with {label} data can be returned without a passed "
                     f"read-mode verification: {reason}", fwhere(fn))
        for v in vs:
            for tc in v.trys:
                for r in ev(I, ("raise",)):
                    if tc.id in r.handler and sat(r.guard):
                        t = r.args[0] if r.args else NONE
                        okr = r.extra == "reraise" or not r.args or \
                            all(raises_value_error(x) for _, x in alts(t))
                        c.ob("verification-error-type",
                             f"{r.pos[2]}:{label}", okr,
                             "a failed verification is reported as "
                             f"{show(t)} instead of ValueError", r.where())
    for label, val in (("verify=False", const(False)), ("verify=True",
                                                        const(True))):
        I = c.run(fn, {pv: val})
        news = list(ev(I, ("call",), INIT))
        for rg, rt, loops in I.returns:
            for ag, obj in alts(rt):
                g = b_and(rg, ag)
                if not sat(g):
                    continue
                ok = False
                reason = "the object is not created by Sofa(convention)"
                for n in news:
                    if n.result is not obj:
                        continue
                    cn, vn = n.arg(None, "convention"), n.arg(None, "version")
                    if not from_file(cn, "SOFAConventions"):
                        reason = (f"convention is {show(cn)}, not the name "
                                  "in the file")
                    elif not from_file(vn, "SOFAConventionsVersion"):
                        reason = (f"version is {show(vn)}, not the version "
                                  "in the file")
                    elif absorbed(I, n, g):
                        reason = "the constructor's error is absorbed"
                    elif not entails(g, n.guard):
                        reason = "not constructed on every path"
                    else:
                        ok = True
                        break
                c.ob("convention-from-file", f"read_sofa:{label}", ok,
                     f"with {label} unknown conventions or versions are not "
                     f"rejected: {reason}", fwhere(fn))


def raises_value_error(t):
    return (t.op == "call" and t.args[0] == "builtins.ValueError") or \
        t.op == "excval" or t is mk("glob", "builtins.ValueError")


def from_file(t, name):
    """The value of attribute `name` of the opened data set."""
    if t is None:
        return False
    if t.op == "str" or (t.op == "call" and t.args[0] == "builtins.str"):
        t = t.args[-1]
    if t.op == "attr" and t.args[1] == name:
        return dataset(t.args[0])
    if t.op == "meth" and t.args[0] == "getncattr" and \
            t.args[2] is const(name):
        return dataset(t.args[1])
    return False


def verified(c, I, vs, obj, g, val):
    reason = "Sofa.verify is not called on the returned object"
    for v in vs:
        if v.recv is not obj:
            continue
        if v.arg(None, "mode") is not const("read"):
            reason = "verification is not in read mode"
            continue
        if v.arg(None, "issue_handling") is not const("raise"):
            reason = "detected errors are not raised"
            continue
        if v.loops:
            reason = "verification inside a loop"
            continue
        r = absorbed(I, v, g)
        if r:
            reason = "verification fails but " + r
            continue
        F = b_and(g, b_not(v.guard))
        if sat(F):
            if val is const("auto") and any(
                    version_below_one(a) and entails(F, atom(a))
                    for a in support(F)):
                pass
            else:
                reason = "it is skipped when " + why(F)
                continue
        late = [s for s in ev(I, ("setattr", "delattr", "rawset", "rawdel"))
                if s.seq > v.seq and s.recv is obj and not private(s)
                and sat(b_and(s.guard, v.guard))]
        if late:
            reason = ("the object is changed after verification: "
                      + late[0].where())
            continue
        return True, ""
    return False, reason
