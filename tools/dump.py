"""Print the effect summary of one public operation (debugging aid)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from checks.base import *
c = Ctx()
args = {}
kinds = None
for a in sys.argv[2:]:
    if "=" in a:
        k, v = a.split("=")
        args[k] = const(eval(v))
    else:
        kinds = a.split(",")
b = (VERIFY, INIT)
I = c.run(sys.argv[1], args, b)
for e in I.events:
    if kinds and e.kind not in kinds:
        continue
    print(f"[{e.seq}] {e.kind} {show(e.recv,5) if e.recv is not None else ''} . {e.name}({', '.join([show(x,5) for x in e.args]+[k+'='+show(v,5) for k,v in e.kw])}) @{e.pos[1]}"
          f" L{[show(l,4) for l in e.loops if l is not None]} IF {show_g(e.guard,4)}" + (f" -> {show(e.result,3)}" if e.result is not None else ""))
print("RETURNS")
for g, t, l in I.returns:
    print("  ", show_g(g, 4), "->", show(t, 6))
for e in I.escapes:
    print("  ESC", e)
