"""Raw terms of the effects of one operation (debugging aid)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from checks.base import *


def raw(t, d=9):
    if not isinstance(t, Term):
        return repr(t)
    if d == 0:
        return '..'
    return t.op + "(" + ", ".join(raw(a, d-1) for a in t.args) + ")"


if __name__ == "__main__":
    c = Ctx()
    d = 7
    args, kinds = {}, None
    for a in sys.argv[2:]:
        if a.isdigit():
            d = int(a)
        elif "=" in a:
            k, v = a.split("=")
            args[k] = const(eval(v))
        else:
            kinds = a.split(",")
    I = c.run(sys.argv[1], args)
    for e in ev(I, kinds):
        print(e.seq, e.kind, e.name, "@%d" % e.pos[1], "recv", raw(e.recv, d) if e.recv else None,
              "| args", [raw(x, d) for x in e.args], [(k, raw(v, d)) for k, v in e.kw], "L", [raw(x, d) for x in e.loops], "IF", show_g(e.guard, 4))
