"""C01: nothing is written unless the object passes verification."""
from .base import *
from .effects import write_effects

RULE = ("dominance with path conditions: every event of write_sofa that can "
        "create or change a file must be preceded on every path by "
        "Sofa.verify of the same object in write mode with issues raised, "
        "whose exception no handler or finally on the way to the event "
        "absorbs, and the object is not changed in between")


def dominates(v, w):
    """Verification v has normally returned whenever w happens."""
    if v.seq >= w.seq or not entails(w.guard, v.guard):
        return "not on every path to the write"
    if any(L not in w.loops for L in v.loops):
        return "verification inside a loop that may not run"
    for tc in v.trys:
        if tc in w.trys and tc.active is False and tc.id not in w.handler \
                and tc.id not in w.final:
            continue
        if tc.id in w.final:
            return "the write also runs when verification failed (finally)"
        if tc.atom is not None and sat(b_and(
                b_and(w.guard, v.guard), tc.atom)):
            return "an exception handler absorbs the failed verification"
    return None


def check(c):
    fn = c.func("write_sofa")
    I = c.run(fn)
    a = [x.arg for x in fn.node.args.args]
    c.need(len(a), "parameters of write_sofa", 2)
    sofa = next((t for t in (mk("param", n) for n in a)
                 if N.typeof(t) == "Sofa" or t.args[0] == "sofa"), None)
    if sofa is None:
        sofa = mk("param", a[1])
    vs = [e for e in ev(I, ("call",), VERIFY)]
    ws = list(write_effects(I))
    c.need(len(ws), "write effects in write_sofa")
    for w, _ in ws:
        reasons = ["no verification of the object"]
        for v in vs:
            if v.recv is not sofa:
                reasons.append("another object is verified")
                continue
            mode, ih = v.arg(None, "mode"), v.arg(None, "issue_handling")
            if mode is not const("write"):
                reasons.append("verification is not in write mode")
                continue
            if ih is not const("raise"):
                reasons.append("detected errors are not raised")
                continue
            r = dominates(v, w)
            if r is None:
                for s in ev(I, ("setattr", "delattr", "rawset", "rawdel"),
                            pred=lambda e: v.seq < e.seq and e.recv is sofa
                            and not private(e)):
                    if sat(b_and(s.guard, w.guard)):
                        r = ("the object is changed after it was verified: "
                             + s.where())
            if r is None:
                reasons = []
                break
            reasons.append(r)
        c.ob("write-dominated-by-verify", f"{w.pos[2]}:{w.name}",
             not reasons, f"{w.name} can change a file without a passed "
             f"verification: {'; '.join(reasons[1:] or reasons)}",
             w.where())
    # the path reaches the file system through no other effect: sinks counted
    c.notes.append(f"{len(ws)} write effects, {len(vs)} verifications")


def private(e):
    n = e.args[0]
    return is_const(n, str) and (n.args[0].startswith("_")
                                 or n.args[0] == "protected")
