"""C17: every file that is opened is closed on every exit."""
from .base import *
from .effects import file_opens, TEMP, WRITERS

RULE = ("resource typestate: every event that opens a file or creates a "
        "temporary folder must be the context of a with statement, be closed "
        "in a finally block that covers everything after it, or be stored by "
        "__enter__ of a context manager class whose __exit__ closes it on "
        "every path and returns a false value")

CLOSERS = {".close", ".cleanup", ".__exit__"}


def resources(I):
    for e, path, mode in file_opens(I):
        yield e
    for e in ev(I, ("call",), set(TEMP)):
        yield e


def entered(I, e):
    """A with statement that takes over the resource at once."""
    r = e.result
    for w in ev(I, ("with",)):
        if w.seq <= e.seq:
            continue
        t = w.recv
        if t is not r and not (t.op == "call" and t.args[0] ==
                               "contextlib.closing" and r in t.args):
            if not any(x is r for _, x in alts(t)):
                continue
        if not entails(e.guard, w.guard) or any(
                L not in e.loops for L in w.loops):
            continue
        gap = [x for x in I.events if e.seq < x.seq < w.seq and fallible(x)
               and sat(b_and(x.guard, e.guard)) and
               x.name != "contextlib.closing"]
        if not gap:
            return True
    for s in ev(I, ("call",), {".enter_context", ".push", ".callback"}):
        if s.seq > e.seq and any(r in subterms(a) for a in s.args) and any(
                s.recv is w.term for w in s.withs):
            return True
    return False


def same_resource(t, r):
    return t is r or (t is not None and any(x is r for _, x in alts(t)))


def finally_closed(I, e):
    r = e.result
    for c in I.events:
        if c.kind == "call" and c.name in CLOSERS and same_resource(c.recv, r):
            pass
        elif c.kind == "call" and c.name in ("os.close", "shutil.rmtree",
                                             "os.rmdir") and c.args and \
                same_resource(c.args[0], r):
            pass
        else:
            continue
        for tid in c.final:
            if not entails(e.guard, c.guard):
                # closing may be conditional on the resource being there
                rest = b_and(e.guard, b_not(c.guard))
                if not any(entails(rest, x) for x in gone(r)):
                    continue
            gap = [x for x in I.events if e.seq < x.seq < c.seq
                   and fallible(x) and tid not in x.final
                   and not any(tc.id == tid for tc in x.trys)
                   and sat(b_and(x.guard, e.guard))]
            early = [x for x in I.events if tid in x.final and x.seq < c.seq
                     and fallible(x)]
            if not gap and not early:
                return True
    return False


def gone(r):
    yield N.c_isnone(r)
    yield b_not(c_truth(r))
    yield b_not(c_truth(mk("meth", "isopen", r)))
    yield c_truth(mk("attr", r, "closed"))


def check(c):
    n = 0
    for fn in c.entries():
        I = c.run(fn, boundary=(VERIFY, INIT))
        for e in resources(I):
            n += 1
            if entered(I, e) or finally_closed(I, e):
                c.ob("closed-on-every-exit", f"{e.pos[2]}:{e.name}", True)
                continue
            if fn.name == "__enter__" and fn.cls is not None:
                stream(c, fn, I, e)
                continue
            c.ob("closed-on-every-exit", f"{e.pos[2]}:{e.name}", False,
                 f"{show(e.result, 4)} is not closed on every exit (no with "
                 "statement and no covering finally block)", e.where())
    c.need(n, "resources opened", 4)
    k = c.p.public("SofaStream")
    c.need(int("__exit__" in k.methods), "SofaStream.__exit__")
    exits(c, k, None)
    c.notes.append(f"{n} resources")


def stream(c, fn, I, e):
    """Resource opened in __enter__ and kept on the object."""
    self_ = mk("param", fn.node.args.args[0].arg)
    names = {s.args[0].args[0] for s in ev(I, ("setattr",))
             if s.recv is self_ and is_const(s.args[0], str)
             and same_resource(s.args[1], e.result)}
    names |= {s.args[0].args[0] for s in ev(I, ("setitem",))
              if s.recv is mk("attr", self_, "__dict__")
              and is_const(s.args[0], str) and s.args[1] is e.result}
    c.ob("enter-keeps-resource", f"{fn.qual}:{e.name}", bool(names),
         "the opened file is not kept for __exit__", e.where())
    gap = [x for x in I.events if x.seq > e.seq and fallible(x)
           and sat(b_and(x.guard, e.guard)) and not (
               x.kind == "setattr" and x.recv is self_)
           and not x.handler and not x.final]
    if gap:
        closed = [x for x in I.events if x.kind == "call" and x.name in
                  CLOSERS and (x.handler or x.final)]
        gap = [g for g in gap if not any(
            any(tc.id in x.handler + x.final for tc in g.trys)
            for x in closed)]
    c.ob("enter-cannot-fail-after-open", f"{fn.qual}:{e.name}", not gap,
         "an exception in __enter__ after the file was opened leaves it "
         "open, because __exit__ is not called: "
         + (gap[0].where() if gap else ""), e.where())
    if names:
        exits(c, fn.cls, names)


def exits(c, k, names):
    if "__exit__" not in k.methods:
        c.ob("exit-closes", f"{k.name}.__exit__", False, "no __exit__")
        return
    fx = k.methods["__exit__"]
    I = c.run(fx, boundary=(VERIFY, INIT))
    self_ = mk("param", fx.node.args.args[0].arg)
    closes = [e for e in ev(I, ("call",), {".close", ".__exit__"})
              if e.recv is not None and attr_of(e.recv, self_)
              and (names is None or attr_of(e.recv, self_) in names)]
    total = FALSE
    for e in closes:
        total = b_or(total, e.guard)
        file = e.recv
        for g in gone(file):
            total = b_or(total, g)
        total = b_or(total, b_not(N.c_has(self_, const(attr_of(file,
                                                               self_)))))
        total = b_or(total, b_not(N.c_in(const(attr_of(file, self_)),
                                         mk("attr", self_, "__dict__"))))
    c.ob("exit-closes", f"{k.name}.__exit__", bool(closes)
         and not sat(b_not(total)),
         "the file is not closed when "
         + (why(b_not(total)) if closes else "the block is left"),
         fwhere(fx))
    for e in closes:
        pre = [x for x in I.events if x.seq < e.seq and fallible(x)
               and sat(x.guard) and not e.final and e.seq == min(
                   y.seq for y in closes)]
        c.ob("exit-closes-first", f"{k.name}.__exit__", not pre,
             "an exception before close leaves the file open: "
             + (pre[0].where() if pre else ""), e.where())
    for g, t, _ in I.returns:
        for ag, x in alts(t):
            bad = sat(b_and(b_and(g, ag), c_truth(x)))
            if bad and x.op == "meth" and x.args[0] in ("close",):
                bad = False
            c.ob("exit-does-not-suppress", f"{k.name}.__exit__", not bad,
                 f"__exit__ may return the true value {show(x)}, which "
                 "suppresses the exception", fwhere(fx))


def attr_of(t, self_):
    if t.op == "attr" and t.args[0] is self_:
        return t.args[1]
    if t.op == "meth" and t.args[0] == "get" and t.args[1] is mk(
            "attr", self_, "__dict__") and is_const(t.args[2], str):
        return t.args[2].args[0]
    if t.op == "item" and t.args[0] is mk("attr", self_, "__dict__") and \
            is_const(t.args[1], str):
        return t.args[1].args[0]
    if t.op == "phi":
        r = {attr_of(x, self_) for _, x in alts(t) if x is not NONE}
        return r.pop() if len(r) == 1 else None
    return None
