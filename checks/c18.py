"""C18: no local value is used before it is computed."""
from .base import *

RULE = ("reaching definitions with path conditions: a read of a local name "
        "under a satisfiable condition where no assignment reached it, or of "
        "a name defined nowhere, is a violation")


def check(c):
    reads = 0
    for fn in c.entries():
        variants = [None]
        for args in variants:
            I = c.run(fn, args, boundary=())
            bad = {}
            for e in ev(I, ("unbound", "undefined")):
                bad.setdefault((e.pos[2], e.name, e.kind), e)
            c.ob("bound-before-use", f"{q(fn)}", True)
            for (qual, name, kind), e in bad.items():
                g = e.extra if kind == "unbound" else e.guard
                c.ob("bound-before-use", f"{qual}:{name}", False,
                     f"{name} may be read before it is assigned "
                     f"({kind}) when {why(g)}", e.where())
            reads += sum(len(n) for n in [I.functions])
    c.need(len(c.functions), "functions analysed", 25)
    c.notes.append(f"{len(c.functions)} functions in context of their public "
                   "callers")
