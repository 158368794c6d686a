"""Guarded effect summaries by abstract interpretation of the syntax tree.

One run analyses one entry function with its private helpers in context.
Every effect becomes an event with the condition under which it happens.
Nothing of the analysed program is executed.
"""
import ast
from .terms import (mk, const, Term, is_const, NONE, UNDEF, FALSE, TRUE, atom,
                    b_and, b_or, b_not, b_implies, constrain, gterm, support,
                    cofactor)
from . import norm as N
from .norm import (choose, alts, c_truth, c_eq, c_in, c_lt, c_isnone,
                   c_isinst, c_starts, c_exists, c_has, t_attr, t_dyn, t_item,
                   t_meth, mk_cat, mk_str, cat_parts, P, is_strlike, g_of, fl,
                   lift, lift_c, is_bool, TYPES, typeof, rename_loop,
                   strip_iter)
from .project import Func, Class, AnalysisError

SETS = ("set", "frozenset")
UNDEF0 = mk("undef0")       # unbound in the first iteration only
OPAQUE_ATTRS = {"_convention", "_dimensions", "_api", "_custom",
                "_read_only_attr", "__dict__", "__class__"}


class Part:
    __slots__ = ("elem", "val", "guard", "loops", "kind")

    def __init__(s, elem, val, guard, loops, kind="p"):
        s.elem, s.val, s.guard, s.loops, s.kind = elem, val, guard, loops, kind


class Acc:
    """String under construction: parts with absolute conditions."""
    __slots__ = ("parts",)

    def __init__(s, parts):
        s.parts = tuple(parts)


class Obj:
    __slots__ = ("kind", "parts", "birth", "loops", "alias", "cls", "weak",
                 "pos", "removed", "order", "lazy")

    def __init__(s, kind, birth, loops, pos):
        s.lazy = ()
        s.order = None
        s.kind, s.parts, s.birth, s.loops = kind, [], birth, loops
        s.alias = None
        s.weak = False
        s.pos = pos
        s.removed = False


class LoopCtx:
    def __init__(s, term, source, live):
        s.term, s.source, s.live = term, source, live
        s.break_g = s.cont = s.ret_g = s.exit_g = FALSE
        s.start = TRUE
        s.mod_refs = set()
        s.grow = {}
        s.base = TRUE
        s.goes_on = TRUE      # a later iteration may follow
        s.node = None


class TryCtx:
    n = 0

    def __init__(s, node, depth_frames, depth_loops):
        TryCtx.n += 1
        s.id = TryCtx.n
        s.node = node
        s.handlers = []       # list of set of dotted names or None (all)
        s.caught = []         # (guard, type, loops)
        s.loops = depth_loops
        s.calls = []
        s.final = False
        s.fex = None
        s.atom = None
        s.active = True
        s.exited = FALSE
        s.reach = TRUE        # condition under which the statement starts
        s.blocks = []         # handlers: (index, first, last event, condition)


class WithCtx:
    n = 0

    def __init__(s, term, pos):
        WithCtx.n += 1
        s.id, s.term, s.pos = WithCtx.n, term, pos


class Frame:
    def __init__(s, fn, parent=None):
        s.fn, s.parent = fn, parent
        s.env, s.returns = {}, []
        s.loopbase, s.bag, s.hook = 0, None, None
        s.nonlocals, s.globals = set(), set()
        s.locals = set()
        s.callpos = None
        s.trybase = 0


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "guard", "loops",
                 "loopctx", "seq", "pos", "chain", "trys", "withs", "final",
                 "handler", "result", "prot", "node", "extra", "version")

    def arg(s, i, key=None, default=None):
        if i is not None and i < len(s.args):
            return s.args[i]
        if key is not None:
            for k, v in s.kw:
                if k == key:
                    return v
        return default

    def where(s):
        f, line, q = s.pos
        return f"{f}:{line} in {q}"

    def __repr__(s):
        from .terms import show, show_g
        a = ", ".join([show(x) for x in s.args]
                      + [f"{k}={show(v)}" for k, v in s.kw])
        r = f"{show(s.recv)}." if s.recv is not None else ""
        return (f"[{s.seq}] {s.kind} {r}{s.name}({a}) @{s.pos[1]} "
                f"L{len(s.loops)} if {show_g(s.guard)}")


LIST_METHODS = {"append", "extend", "insert", "remove", "pop", "clear",
                "sort", "reverse", "copy", "index", "count"}
DICT_METHODS = {"keys", "values", "items", "get", "update", "pop", "popitem",
                "clear", "setdefault", "copy"}
SET_METHODS = {"add", "discard", "remove", "update", "pop", "clear", "union",
               "intersection", "difference", "symmetric_difference", "copy",
               "issubset", "issuperset", "isdisjoint", "difference_update",
               "intersection_update"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort",
            "reverse", "update", "popitem", "setdefault", "add", "discard",
            "difference_update", "intersection_update", "fill", "resize",
            "put", "itemset", "partition", "setfield", "setflags", "byteswap"}
STR_ALWAYS = {"str", "repr", "format", "chr", "ascii"}
MAX_INLINE = 14
MAX_UNROLL = 24


class Interp:
    def __init__(self, project, boundary=(), entry=None, max_events=200000):
        self.project = project
        self.boundary = set(boundary)
        self.reach = TRUE
        self.loops = []
        self.trys = []
        self.withs = []
        self.frames = []
        self.events = []
        self.heap = {}
        self.attrs = {}          # (objid, name) -> alternatives
        self.nref = 0
        self.seq = 0
        self.carried = {}      # value of a variable after an iteration
        self.final = ()
        self.handler = ()
        self.escapes = []
        self.stack = []
        self.active = []
        self.raws = {}
        self.notes = []
        self.dry = 0
        self.max_events = max_events
        self.node_pos = None
        self.functions = set()
        self.closures = {}
        self.globcache = {}
        sofa = project.classes.get("Sofa")
        N.SOFA_CLASS_ATTRS.clear()
        if sofa:
            N.SOFA_CLASS_ATTRS.update(sofa.methods)
            N.SOFA_CLASS_ATTRS.update(sofa.getters)

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None, types=None):
        """Analyse fn; args maps parameter names to terms."""
        args = dict(args or {})
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        fr = Frame(fn)
        for i, n in enumerate(names):
            if n in args:
                t = args[n]
            elif i == 0 and fn.cls and not fn.is_static:
                if fn.is_class:
                    t = mk("cls", self.project_name(fn.cls))
                else:
                    t = mk("param", n)
                    TYPES[t.id] = fn.cls.name
            else:
                t = mk("param", n)
                ann = self.ann_class(fn, n)
                if ann:
                    TYPES[t.id] = ann
            if types and n in types:
                TYPES[t.id] = types[n]
            fr.env[n] = [(TRUE, t)]
        if a.vararg:
            fr.env[a.vararg.arg] = [(TRUE, mk("param", "*" + a.vararg.arg))]
        if a.kwarg:
            fr.env[a.kwarg.arg] = [(TRUE, mk("param", "**" + a.kwarg.arg))]
        self.entry = fn
        self.prepare(fr)
        self.frames.append(fr)
        self.stack.append(fn.qual)
        self.functions.add(fn.qual)
        if fn.is_gen:
            fr.bag = self.new_ref("list")
        wrapper = self.decorated(fn)
        if wrapper is None:
            self.active.append((fn.qual, id(None)))
            self.block(fn.node.body, top=True)
        else:
            kwonly = {x.arg for x in a.kwonlyargs}
            v = self.call_value(
                wrapper, [fr.env[n][0][1] for n in names if n not in kwonly],
                [(n, fr.env[n][0][1]) for n in names if n in kwonly], fn.node)
            if self.reach != FALSE:
                self.emit("return", "return", args=[self.freeze(v)],
                          node=fn.node)
                fr.returns.append((self.reach, v, ()))
                self.reach = FALSE
        fall = self.reach
        self.frames.pop()
        rets = []
        for g, t, loops in fr.returns:
            rets.append((close_loops(g, loops), t, loops))
        if fall != FALSE:
            rets.append((fall, NONE, ()))
        self.returns = rets
        self.normal = FALSE
        for g, _, _ in rets:
            self.normal = b_or(self.normal, g)
        return self

    def decorated(self, fn):
        """The function a name stands for that has decorators of the
        package, or None."""
        v = None
        for d in reversed(getattr(fn.node, "decorator_list", [])):
            n = fn.mod.dotted(d)
            kind, o = self.project.lookup(n) if n else (None, None)
            if kind != "func" or o.is_cm or (o.qual, id(None)) in self.active:
                continue
            deco = self.eval_in_module(fn.mod, d)
            if v is None:
                self.raws[fn.qual] = fn
                v = mk("rawfn", fn.qual)
            saved = (self.reach, self.loops, self.trys, self.withs)
            self.reach, self.loops, self.trys, self.withs = TRUE, [], [], []
            ne = len(self.events)
            v = self.call_value(deco, [v], [], fn.node)
            del self.events[ne:]
            self.reach, self.loops, self.trys, self.withs = saved
        return v

    def project_name(self, cls):
        return f"{cls.mod.name}.{cls.name}"

    def ann_class(self, fn, pname):
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == pname and x.annotation is not None:
                d = fn.mod.dotted(x.annotation)
                if isinstance(x.annotation, ast.Constant) and isinstance(
                        x.annotation.value, str):
                    d = x.annotation.value.split(".")[-1]
                if d:
                    n = d.split(".")[-1]
                    if n in self.project.classes:
                        return n
        return None

    def prepare(self, fr):
        """Collect local names of a function (for unbound reads)."""
        fn = fr.fn.node
        if isinstance(fn, ast.Lambda):
            return
        for n in walk_scope(fn):
            if isinstance(n, ast.Global):
                fr.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                fr.nonlocals |= set(n.names)
        for n in walk_scope(fn):
            for name in bound_names(n):
                fr.locals.add(name)
        fr.locals -= fr.globals | fr.nonlocals

    # --------------------------------------------------------------- events
    def pos(self, node=None):
        node = node if node is not None and hasattr(node, "lineno") \
            else self.node_pos
        fr = self.frames[-1]
        path = fr.fn.mod.path
        root = self.project.root
        if path.startswith(root):
            path = path[len(root):].lstrip("/")
        return (path, getattr(node, "lineno", 0), fr.fn.qual)

    def emit(self, kind, name, recv=None, args=(), kw=(), node=None,
             result=None, extra=None):
        if self.reach == FALSE:
            return None
        self.seq += 1
        e = Event()
        e.kind, e.name, e.recv = kind, name, recv
        e.args, e.kw = tuple(args), tuple(kw)
        e.guard = self.reach
        e.loops = tuple(c.term for c in self.loops if c.term is not None)
        e.loopctx = tuple(self.loops)
        e.seq, e.pos = self.seq, self.pos(node)
        e.chain = tuple(self.stack)
        e.trys, e.withs = tuple(self.trys), tuple(self.withs)
        e.final, e.handler = tuple(self.final), tuple(self.handler)
        e.result, e.extra = result, extra
        e.node = node
        e.prot = e.version = None
        if self.watch:
            e.prot = {k: self.read_alts(v) for k, v in self.attrs.items()
                      if k[1] in self.watch}
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise AnalysisError("too many events")
        if kind in ("call", "setattr", "delattr", "getitem", "iterate"):
            for t in self.trys:
                if t.active:
                    t.calls.append(e)
        return e

    watch = frozenset({"_protected"})
    # keep the identity of mutable objects that outlive a call (module and
    # class level values, default values, results of memoised functions)
    share = False
    versions = None     # {}: tell apart successive values of the tables

    # --------------------------------------------------------------- values
    def new_ref(self, kind, parts=()):
        self.nref += 1
        t = mk("ref", self.nref)
        o = Obj(kind, self.reach, tuple(self.loops), self.pos()
                if self.frames else None)
        o.parts = list(parts)
        self.heap[self.nref] = o
        return t

    def obj(self, t):
        if t.op == "ref":
            return self.heap.get(t.args[0])
        return None

    def add_part(self, ref, elem, val=NONE, kind="p", guard=TRUE, loops=()):
        o = self.obj(ref)
        o.parts.append(Part(elem, val, b_and(self.reach, guard),
                            tuple(self.loops) + tuple(loops), kind))
        for c in self.loops:
            if c not in o.loops:
                c.mod_refs.add(ref.args[0])

    def rel(self, g):
        if b_and(g, self.reach) == FALSE:
            return FALSE
        return constrain(g, self.reach)

    def parts_of(self, t):
        """[(elem, val, guard, loops)] of a collection, or None if opaque.

        Guards are relative to the current reach; loops are canonical terms
        that do not clash with active loops."""
        t = self.unalias(t)
        if t.op == "ref":
            o = self.obj(t)
            out = []
            act = {c.term for c in self.loops}
            for p in o.parts:
                loops = [c for c in p.loops if c not in self.loops]
                terms = [c.term for c in loops if c.term is not None]
                clash = act.intersection(terms)
                if not clash and self.rel(p.guard) == FALSE:
                    continue
                elem, val = self.settled(p.elem, p), self.settled(p.val, p)
                g = p.guard
                if clash:
                    # the guard is over the element of an earlier loop, the
                    # reach over the one of the active loop
                    elem, val, g, terms = self.norm_part(elem, val, g, terms)
                g = self.rel(g)
                if g == FALSE:
                    continue
                if p.kind == "u":
                    sub = self.parts_of(elem)
                    if sub is None:
                        L = self.fresh_loop(elem, terms)
                        sub = [(mk("elem", L), t_item(elem, mk("elem", L)),
                                TRUE, [L])]
                    for e2, v2, g2, l2 in sub:
                        out.append(self.norm_part(
                            e2, v2, b_and(g, g2), terms + list(l2)))
                    continue
                out.append(self.norm_part(elem, val, g, terms))
            if o.weak or any(t.args[0] in c.mod_refs and c not in o.loops
                             for c in self.loops):
                out.append((mk("unk", "prev", t), NONE, TRUE,
                            [self.fresh_loop(mk("prev", t), [])]))
            return out
        if t.op == "tup":
            return [(x, NONE, TRUE, []) for x in t.args]
        if t.op == "const" and isinstance(t.args[0], (tuple, list)):
            return [(const(x), NONE, TRUE, []) for x in t.args[0]]
        if t.op == "bag":
            out = []
            for p in t.args[1:]:
                if p.op == "u":
                    sub = self.parts_of(p.args[0])
                    if sub is None:
                        return None
                    out += sub
                else:
                    out.append(self.norm_part(
                        p.args[0], p.args[1], N.p_guard(p),
                        list(N.p_loops(p))))
            return out
        if t.op == "phi":
            out = []
            for g, x in alts(t):
                sub = self.parts_of(x)
                if sub is None:
                    L = self.fresh_loop(x, [])
                    sub = [(mk("elem", L), NONE, TRUE, [L])]
                for e, v, g2, l2 in sub:
                    out.append((e, v, b_and(g, g2), l2))
            return out
        s = strip_iter(t)
        if s is not t:
            return self.parts_of(s)
        return None

    def settled(self, v, p):
        """A container filled in an iteration that is over."""
        o = self.obj(v) if isinstance(v, Term) and v.op == "ref" else None
        if o is None or o.alias is not None or o.kind.startswith("inst:"):
            return v
        over = [c for c in p.loops if c not in self.loops]
        if not any(c in x.loops for x in o.parts for c in over):
            return v
        saved = self.loops, self.reach
        self.loops, self.reach = list(p.loops), p.guard
        v = self.freeze(v)
        self.loops, self.reach = saved
        return v

    def fresh_loop(self, T, taken):
        d = 0
        act = {c.term for c in self.loops} | set(taken)
        while mk("loop", T, d) in act:
            d += 1
        return mk("loop", T, d)

    def norm_part(self, elem, val, g, terms):
        act = {c.term for c in self.loops}
        terms = list(terms)
        for i, L in enumerate(terms):
            if L in act or L in terms[:i]:
                L2 = self.fresh_loop(L.args[0], terms)
                elem = rename_loop(L, L2, t=elem)
                val = rename_loop(L, L2, t=val)
                g = rename_loop(L, L2, g=g)
                for j in range(i + 1, len(terms)):
                    terms[j] = rename_loop(L, L2, t=terms[j])
                terms[i] = L2
        return elem, val, g, terms

    def unalias(self, t):
        o = self.obj(t)
        if o is not None and o.alias is not None:
            return o.alias
        return t

    def freeze(self, t, depth=0):
        """Replace local containers by their current contents."""
        if t is None:
            return None
        if t.op == "ref":
            o = self.obj(t)
            if o is None:
                return t
            if o.alias is not None:
                return o.alias
            if depth > 6:
                return mk("unk", "deep")
            if o.kind.startswith("inst:"):
                return t
            ps = [P(self.freeze(e, depth + 1), g, tuple(l),
                    self.freeze(v, depth + 1))
                  for e, v, g, l in self.parts_of(t)]
            return mk("bag", o.kind, *ps)
        if t.op == "tup":
            return mk("tup", *[self.freeze(x, depth) for x in t.args])
        if t.op == "phi":
            return choose([(g, self.freeze(x, depth)) for g, x in alts(t)])
        return t

    def read_alts(self, al):
        opts = []
        for g, v in al:
            g = self.rel(g)
            if g == FALSE:
                continue
            if isinstance(v, Acc):
                ps = []
                for p in v.parts:
                    loops = [c.term for c in p.loops
                             if c not in self.loops and c.term is not None]
                    e, _, pg, loops = self.norm_part(
                        p.elem, NONE, p.guard, loops)
                    pg = self.rel(pg)
                    if pg == FALSE:
                        continue
                    if not loops and b_implies(g, pg) == TRUE:
                        pg = TRUE
                    ps.append(P(e, pg, tuple(loops)))
                v = mk_cat(ps)
            opts.append((g, v))
        return choose(opts)

    # ------------------------------------------------------------ variables
    def lookup_frame(self, name):
        fr = self.frames[-1]
        if name in fr.globals:
            return None
        f = fr
        first = True
        while f is not None:
            if first:
                if name in f.env or name in f.locals:
                    return f
            elif name in f.env or name in f.locals:
                return f
            first = False
            f = f.parent
        return None

    def read(self, name, node=None):
        if self.reach == FALSE:
            return UNDEF
        f = self.lookup_frame(name)
        if f is not None:
            al = f.env.get(name)
            if al is None:
                al = [(TRUE, UNDEF)]
            self.check_bound(name, al, node)
            for c in self.loops:
                # what earlier iterations have appended
                t = c.grow.get((id(f), name))
                if t is not None:
                    al = [(g, Acc(v.parts + (Part(
                        t, NONE, b_and(self.reach, c.start), ()),))
                        if isinstance(v, Acc) else v) for g, v in al]
            return self.read_alts(al)
        return self.global_name(name, node)

    def global_name(self, name, node=None):
        mod = self.frames[-1].fn.mod
        d = mod.resolve(name)
        if d is None:
            self.emit("undefined", name, node=node)
            return mk("glob", f"{mod.name}.{name}")
        return self.dotted_value(d)

    def dotted_value(self, d):
        kind, o = self.project.lookup(d)
        if kind == "func":
            return mk("fn", self.project.canon(d))
        if kind == "class":
            return mk("cls", self.project_name(o))
        if kind == "module":
            return mk("glob", d)
        if kind == "global":
            m, n = o
            return self.module_global(m, n)
        if kind == "missing":
            m, n = o
            if n in m.imports:
                return mk("glob", m.imports[n])
            if n not in ("__file__", "__name__", "__doc__"):
                self.emit("undefined", n)
            return mk("glob", self.project.canon(d))
        if kind == "classattr":
            k, n = o
            return self.class_attr(k, n)
        return mk("glob", self.project.canon(d))

    def module_global(self, m, n):
        key = (m.name, n)
        v = m.globals.get(n)
        if v is None:
            return mk("glob", f"{m.name}.{n}")
        if self.share and key not in self._gl_busy:
            d = mutable_depth(v, m)
            if d:
                return mk("shared", f"{m.name}.{n}", d)
        if key in self.globcache:
            r = self.globcache[key]
            return self.copy_ref(r)
        if key in self._gl_busy:
            return mk("glob", f"{m.name}.{n}")
        self._gl_busy.add(key)
        r = self.eval_in_module(m, v)
        self._gl_busy.discard(key)
        self.globcache[key] = r
        if self.obj(r) is not None:
            self.obj(r).pos = ("global", f"{m.name}.{n}")
        return self.copy_ref(r)

    _gl_busy = set()

    def copy_ref(self, r):
        o = self.obj(r)
        if o is None:
            return r
        t = self.new_ref(o.kind, o.parts)
        n = self.obj(t)
        n.birth, n.loops, n.pos = o.birth, o.loops, o.pos
        n.alias = o.alias
        return t

    def eval_in_module(self, m, node, cls=None):
        fn = Func("<module>", ast.parse("def m(): pass").body[0], m, cls)
        fr = Frame(fn)
        saved = (self.reach, self.loops, self.trys, self.withs)
        self.reach, self.loops, self.trys, self.withs = TRUE, [], [], []
        self.frames.append(fr)
        ne = len(self.events)
        try:
            t = self.ev(node)
        finally:
            self.frames.pop()
            self.reach, self.loops, self.trys, self.withs = saved
            del self.events[ne:]
        return t

    def class_attr(self, k, n):
        key = (k.name, n)
        if key in self._gl_busy:
            return mk("glob", f"{k.mod.name}.{k.name}.{n}")
        if self.share:
            d = mutable_depth(k.attrs[n], k.mod)
            if d:
                return mk("shared", f"{k.mod.name}.{k.name}.{n}", d)
        self._gl_busy.add(key)
        r = self.eval_in_module(k.mod, k.attrs[n], k)
        self._gl_busy.discard(key)
        return r

    def assign(self, name, v, node=None):
        if self.reach == FALSE:
            return
        fr = self.frames[-1]
        if name in fr.globals:
            self.emit("setglobal", f"{fr.fn.mod.name}.{name}",
                      args=[self.freeze(v)], node=node)
            return
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.env and \
                    name not in f.locals:
                f = f.parent
            f = f or fr
        if isinstance(v, Term) and (is_const(v, str) or v.op == "cat"):
            v = self.to_acc(v)
        f.env[name] = self.update_alts(f.env.get(name), v)

    def update_alts(self, old, v):
        R = self.reach
        if old is None:
            old = [(TRUE, UNDEF)]
        new = []
        nr = b_not(R)
        for g, o in old:
            gg = b_and(g, nr)
            if gg != FALSE:
                new.append((gg, o))
        new.append((R, v))
        return new

    def to_acc(self, t):
        ps = []
        for p in cat_parts(t):
            loops = N.p_loops(p)
            if loops:
                ctx = tuple(LoopCtx(L, None, None) for L in loops)
            else:
                ctx = ()
            ps.append(Part(p.args[0], NONE,
                           b_and(self.reach, N.p_guard(p)), ctx))
        return Acc(ps)

    def aug_string(self, name, t):
        """name += t for strings; keeps absolute conditions."""
        fr = self.frames[-1]
        f = self.lookup_frame(name)
        if f is None:
            return False
        al = f.env.get(name)
        if not al:
            return False
        vals = [(g, v) for g, v in al if b_and(g, self.reach) != FALSE]
        ok = any(isinstance(v, Acc) for _, v in vals)
        if not ok:
            return False
        if not all(isinstance(v, Acc) for _, v in vals):
            return False
        add = []
        for p in cat_parts(t):
            loops = N.p_loops(p)
            ctx = tuple(self.loops) + tuple(
                LoopCtx(L, None, None) for L in loops)
            add.append(Part(p.args[0], NONE,
                            b_and(self.reach, N.p_guard(p)), ctx))
        new = []
        for g, v in al:
            if isinstance(v, Acc) and b_and(g, self.reach) != FALSE:
                new.append((g, Acc(v.parts + tuple(add))))
            else:
                new.append((g, v))
        f.env[name] = new
        for c in self.loops:
            c.mod_refs.add(("acc", name))
        return True

    # ------------------------------------------------------------ statements
    def prune(self):
        """At a top level statement of a function every other path of that
        function has ended: forget the values it would have had there."""
        R = self.reach
        env = self.frames[-1].env
        for k, al in env.items():
            if len(al) > 1 or al[0][0] != TRUE:
                new = [(constrain(g, R), v) for g, v in al
                       if b_and(g, R) != FALSE]
                if len(new) == 1:
                    new = [(TRUE, new[0][1])]
                if new:
                    env[k] = new

    def block(self, stmts, top=False):
        for s in stmts:
            if self.reach == FALSE:
                return
            if top:
                self.prune()
            self.node_pos = s
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.notes.append(f"statement {type(s).__name__}")
                continue
            m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else n
            self.assign(n, self.dotted_value(d), s)

    def s_ImportFrom(self, s):
        base = self.frames[-1].fn.mod._rel(s)
        for a in s.names:
            if a.name == "*":
                continue
            self.assign(a.asname or a.name,
                        self.dotted_value(f"{base}.{a.name}"), s)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        fn = Func(s.name, s, fr.fn.mod, None, outer=fr.fn)
        fn.qual = f"{fr.fn.qual}.{s.name}"
        self.assign(s.name, self.closure(fn, fr), s)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.assign(s.name, mk("unk", "class", s.name), s)

    def closure(self, fn, fr):
        n = len(self.closures)
        self.closures[n] = (fn, fr)
        return mk("clo", n)

    def s_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            rest = self.self_concat(n, s.value)
            if rest is not None:
                self.do_aug(n, ast.Add(), rest, s)
                return
        v = self.ev(s.value)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                self.appended(s.targets[0].id, v):
            return
        for t in s.targets:
            self.store(t, v, s)

    def appended(self, n, v):
        """n = v where v is n with something appended, or n itself."""
        f = self.lookup_frame(n)
        al = f.env.get(n) if f else None
        if not al or v.op not in ("phi", "cat"):
            return False
        live = [(g, x) for g, x in al if b_and(g, self.reach) != FALSE]
        if not any(isinstance(x, Acc) for _, x in live):
            return False
        rest = self.reach
        for g, _ in live:
            rest = b_and(rest, b_not(g))
        if rest != FALSE:
            return False
        cur = cat_parts(self.read(n))
        adds = []
        for g, x in alts(v):
            r = appended_parts(cur, cat_parts(x))
            if r is None:
                return False
            if r:
                adds.append((g, mk_cat(r)))
        R = self.reach
        ok = True
        for g, t in adds:
            self.reach = b_and(R, g)
            ok = ok and (self.reach == FALSE or self.aug_string(n, t))
        self.reach = R
        return ok

    def growing(self, x):
        """A string under construction or a local list."""
        if isinstance(x, Acc):
            return True
        o = self.obj(x)
        return o is not None and o.kind == "list" and o.alias is None

    def self_concat(self, n, v):
        """For ``n = n + a + b`` the expression a + b (strings only)."""
        f = self.lookup_frame(n)
        al = f.env.get(n) if f else None
        if not al or not any(self.growing(x) for _, x in al):
            return None
        chain = []
        while isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            chain.append(v.right)
            v = v.left
        if isinstance(v, ast.Name) and v.id == n and chain:
            r = chain.pop()
            while chain:
                r = ast.copy_location(
                    ast.BinOp(r, ast.Add(), chain.pop()), r)
            return r
        if isinstance(v, ast.JoinedStr) and not chain and v.values and \
                isinstance(v.values[0], ast.FormattedValue) and \
                isinstance(v.values[0].value, ast.Name) and \
                v.values[0].value.id == n and v.values[0].format_spec is None:
            return ast.copy_location(
                ast.JoinedStr(values=v.values[1:]), v)
        return None

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.store(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            self.do_aug(t.id, s.op, s.value, s)
            return
        cur = self.ev(_load(t))
        rhs = self.ev(s.value)
        if isinstance(s.op, ast.BitOr) and isinstance(t, ast.Attribute) and \
                t.attr in OPAQUE_ATTRS:
            # d |= x changes the dictionary and stores it again
            self.call_method(cur, "update", [rhs], [], s)
            return
        v = self.binop(s.op, cur, rhs, s)
        self.emit("inplace", type(s.op).__name__, recv=self.freeze(cur),
                  args=[self.freeze(rhs)], node=s)
        self.store(t, v, s)

    def do_aug(self, n, op, value, s):
        if isinstance(op, ast.Add):
            f = self.lookup_frame(n)
            al = f.env.get(n) if f else None
            if al and any(isinstance(v, Acc) for _, v in al):
                self.read_check(n, s)
                rhs = self.ev(value)
                if rhs.op == "phi":
                    rhs = choose([(g, mk_str(x) if not is_strlike(x) else x)
                                  for g, x in alts(rhs)])
                if self.reach == FALSE:
                    return
                if self.aug_string(n, rhs):
                    return
                self.assign(n, self.binop(op, self.read(n), rhs, s), s)
                return
        cur = self.read(n, s)
        rhs = self.ev(value)
        o = self.obj(cur)
        if o is not None and isinstance(op, ast.Add) and o.kind == "list":
            self.extend(cur, rhs, s)
            return
        if o is not None and isinstance(op, ast.BitOr):
            self.extend(cur, rhs, s)
            return
        v = self.binop(op, cur, rhs, s)
        if cur.op == "attr" and cur.args[1] in ("shape", "dimensions"):
            # tuples are replaced, not changed
            self.assign(n, v, s)
            return
        self.emit("inplace", type(op).__name__, recv=self.freeze(cur),
                  args=[self.freeze(rhs)], node=s)
        self.assign(n, v, s)

    def read_check(self, n, s):
        f = self.lookup_frame(n)
        if f is not None:
            self.check_bound(n, f.env.get(n) or [(TRUE, UNDEF)], s)

    def check_bound(self, name, al, node):
        ung = FALSE
        for g, v in al:
            if v is UNDEF or (isinstance(v, Term) and v.op == "carry"
                              and v.args[2] is UNDEF):
                ung = b_or(ung, g)
            elif isinstance(v, Term) and v.op == "carry" and \
                    v.args[2] is UNDEF0:
                ung = b_or(ung, b_and(g, c_eq(
                    mk("idx", v.args[0]), const(0))))
        if ung != FALSE and not self.dry and \
                not N.unsat(b_and(ung, self.reach)):
            self.emit("unbound", name, node=node,
                      extra=b_and(ung, self.reach))

    def store(self, t, v, s):
        if self.reach == FALSE:
            return
        if isinstance(t, ast.Name):
            self.assign(t.id, v, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, s)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.set_attr(o, const(t.attr), v, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.set_item(o, i, v, s)

    def unpack(self, elts, v, s):
        if any(x.op == "meth" for _, x in alts(v)):
            self.emit("unpack", None, args=(const(len(elts)), v), node=s,
                      extra=any(isinstance(e, ast.Starred) for e in elts))
        for k, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.store(e.value, t_item(self.freeze(v), mk(
                    "slice", const(k), NONE, NONE)), s)
                continue
            self.store(e, self.item_value(v, const(k)), s)

    def item_value(self, v, i):
        if v.op == "phi":
            return choose([(g, self.item_value(x, i)) for g, x in alts(v)])
        v = self.unalias(v)
        o = self.obj(v)
        if o is not None and not o.kind.startswith("inst:"):
            if o.kind == "list" and is_const(i, int):
                ps = self.parts_of(v)
                if all(not l and g == TRUE for _, _, g, l in ps) and \
                        -len(ps) <= i.args[0] < len(ps):
                    return ps[i.args[0]][0]
            if o.kind == "dict":
                ps = self.parts_of(v)
                opts, rest = [], TRUE
                plain = True
                for e, val, g, l in reversed(ps):
                    if l:
                        if len(l) == 1 and e is mk("elem", l[0]):
                            m = {e.id: i}
                            g2 = N.subst_g(g, m)
                            if l[0] not in N.fl_g(g2):
                                hit = b_and(rest, g2, c_in(i, l[0].args[0]))
                                opts.append((hit, N.subst(val, m)))
                                rest = b_and(rest, b_not(hit))
                                continue
                        plain = False
                        break
                    hit = b_and(rest, g, c_eq(e, i))
                    opts.append((hit, val))
                    rest = b_and(rest, b_not(hit))
                if plain:
                    if rest != FALSE and not opts:
                        return mk("item", self.freeze(v), i)
                    if rest != FALSE:
                        opts.append((rest, mk("item", self.freeze(v), i)))
                    return choose(opts)
            if o.order is not None and is_const(i, int):
                return t_item(mk("call", "builtins.sorted", self.freeze(v),
                                 *o.order), i)
            return t_item(self.freeze(v), i)
        return t_item(v, i)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.lookup_frame(t.id)
                if f is not None:
                    f.env[t.id] = self.update_alts(f.env.get(t.id), UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.emit("delattr", "del", recv=self.freeze(o),
                          args=[const(t.attr)], node=t)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev_index(t.slice)
                self.del_item(o, i, t)

    def del_item(self, o, i, node):
        for g, x in alts(o):
            with self.under(g):
                if self.reach == FALSE:
                    continue
                self.emit("delitem", "del", recv=self.freeze(x),
                          args=[self.freeze(i)], node=node,
                          extra=self.ident(x))
                ob = self.obj(x)
                if ob is not None:
                    ob.removed = True

    def under(self, g):
        return _Under(self, g)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.reach == FALSE:
            return
        fr = self.frames[-1]
        self.emit("return", "return", args=[self.freeze(v)], node=s)
        fr.returns.append((self.reach, v, tuple(self.loops[fr.loopbase:])))
        self.leave_loops(fr.loopbase, True)
        self.reach = FALSE

    def leave_loops(self, base, returns=False):
        """Record that the current path leaves the loops from `base` on; an
        outer loop sees the elements of the inner ones quantified."""
        gg = self.reach
        for c in reversed(self.loops[base:]):
            if returns:
                c.ret_g = b_or(c.ret_g, gg)
            c.exit_g = b_or(c.exit_g, gg)
            T = getattr(c, "term", None)
            if T is not None and T.op == "loop":
                gg = b_and(c.base, c_exists(
                    T, constrain(gg, c.base) if gg else gg))

    def s_Break(self, s):
        c = self.loops[-1]
        c.break_g = b_or(c.break_g, self.reach)
        self.reach = FALSE

    def s_Continue(self, s):
        c = self.loops[-1]
        c.cont = b_or(c.cont, self.reach)
        self.reach = FALSE

    def s_Raise(self, s):
        exc = self.ev(s.exc) if s.exc is not None else mk("unk", "reraise")
        if s.cause is not None:
            self.ev(s.cause)
        self.do_raise(exc, s)

    def exc_name(self, t):
        if t.op == "call":
            return t.args[0]
        if t.op == "new":
            return t.args[0]
        if t.op in ("glob", "cls"):
            return t.args[0]
        return None

    def do_raise(self, exc, node, kind="raise"):
        if self.reach == FALSE:
            return
        n = self.exc_name(exc)
        self.emit(kind, n or "?", args=[self.freeze(exc)], node=node)
        target = None
        for tc in reversed(self.trys):
            if tc.active and any(catches(h, n) for h in tc.handlers):
                target = tc
                break
        base = target.loops if target else 0
        self.leave_loops(base)
        if target:
            target.caught.append((self.reach, n, tuple(self.loops[base:]),
                                  exc))
        else:
            self.escapes.append((self.reach, n, tuple(self.loops)))
        self.reach = FALSE

    def s_Assert(self, s):
        g = self.cond(s.test)
        R = self.reach
        self.reach = b_and(R, b_not(g))
        if self.reach != FALSE:
            self.do_raise(mk("glob", "builtins.AssertionError"), s,
                          kind="assert")
        self.reach = b_and(R, g)

    def s_If(self, s):
        g = self.cond(s.test)
        R = self.reach
        self.reach = b_and(R, g)
        if self.reach != FALSE:
            self.block(s.body)
        R1 = self.reach
        self.reach = b_and(R, b_not(g))
        if self.reach != FALSE and s.orelse:
            self.block(s.orelse)
        self.reach = b_or(R1, self.reach)

    def s_Match(self, s):
        subj = self.ev(s.subject)
        rest = self.reach
        done = FALSE
        for c in s.cases:
            self.reach = rest
            g = self.pattern(c.pattern, subj)
            self.reach = b_and(rest, g)
            if c.guard is not None and self.reach != FALSE:
                g = b_and(g, self.cond(c.guard))
                self.reach = b_and(rest, g)
            if self.reach != FALSE:
                self.block(c.body)
            done = b_or(done, self.reach)
            rest = b_and(rest, b_not(g))
        self.reach = b_or(done, rest)

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return c_eq(subj, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return c_eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = b_or(r, self.pattern(q, subj))
            return r
        if isinstance(p, ast.MatchAs):
            g = TRUE if p.pattern is None else self.pattern(p.pattern, subj)
            if p.name:
                self.assign(p.name, subj)
            return g
        if isinstance(p, ast.MatchClass) and not p.patterns:
            return c_isinst(subj, self.ev(p.cls))
        return atom(mk("truth", mk("match", subj, self.seqid())))

    def seqid(self):
        self.seq += 1
        return self.seq

    # loops ------------------------------------------------------------------
    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(s, it)

    s_AsyncFor = s_For

    def live_source(self, node, t):
        """Identity of the collection walked over without a copy."""
        while isinstance(node, ast.Call) and (
                (isinstance(node.func, ast.Attribute) and node.func.attr in
                 ("keys", "items", "values") and not node.args)):
            node = node.func.value
            t = None
        if isinstance(node, ast.Call):
            f = node.func
            name = f.id if isinstance(f, ast.Name) else getattr(
                f, "attr", None)
            if name in ("enumerate", "zip", "reversed", "iter", "filter",
                        "map", "chain") and node.args:
                args = node.args[1:] if name in ("filter", "map") \
                    else node.args
                return [x for a in args for x in self.live_source(a, None)]
        if isinstance(node, ast.GeneratorExp):
            return self.live_source(node.generators[0].iter, None)
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            n = len(self.events)
            v = self.ev(node)
            del self.events[n:]
            return [x for g, y in alts(v) for x in self.live_term(y)]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id == "vars" and node.args:
            n = len(self.events)
            v = self.ev(node.args[0])
            del self.events[n:]
            return [mk("attr", v, "__dict__")]
        return []

    def live_term(self, t):
        """Collections that a (possibly lazy) iterable walks over."""
        if t.op in ("enum", "zip", "items", "values"):
            return [x for a in t.args if isinstance(a, Term)
                    for x in self.live_term(a)]
        if t.op == "filter":
            return self.live_term(t.args[1])
        if t.op == "meth" and t.args[0] in ("keys", "items", "values"):
            return self.live_term(t.args[1])
        o = self.obj(t)
        return [self.ident(t), *(o.lazy if o is not None else ())]

    def ident(self, t):
        o = self.obj(t)
        if o is not None and o.alias is not None:
            return o.alias
        return t

    def sources(self, it):
        """Decompose an iterable into [(elem, guard, [loop terms])]."""
        if it.op == "phi":
            out = []
            for g, x in alts(it):
                out += [(e, b_and(g, g2), l) for e, g2, l in self.sources(x)]
            return out
        if it.op == "enum":
            out = []
            src = self.sources(it.args[0])
            simple = all(not l and g == TRUE for _, g, l in src)
            for k, (e, g, l) in enumerate(src):
                if simple:
                    i = const(k)
                elif l:
                    i = mk("idx", l[-1])
                else:
                    i = mk("unk", "pos", const(k))
                if it.args[1] is not NONE and it.args[1] is not const(0):
                    i = self.binop(ast.Add(), i, it.args[1], None)
                out.append((mk("tup", i, e), g, l))
            return out
        if it.op == "zip":
            srcs = [self.sources(a) for a in it.args]
            if all(all(not l and g == TRUE for _, g, l in s) for s in srcs):
                n = min(len(s) for s in srcs) if srcs else 0
                return [(mk("tup", *[s[k][0] for s in srcs]), TRUE, [])
                        for k in range(n)]
            e0 = srcs[0]
            out = []
            if self.parallel(it.args, srcs):
                return [(mk("tup", *[s[k][0] for s in srcs]), g, l)
                        for k, (e, g, l) in enumerate(e0)]
            for e, g, l in e0:
                if l:
                    i = mk("idx", l[-1])
                    els = [e] + [self.at(a, i, l[-1]) for a in it.args[1:]]
                    out.append((mk("tup", *els), g, l))
                else:
                    out.append((mk("tup", e, *[
                        mk("unk", "zip", a) for a in it.args[1:]]), g, l))
            return out
        if it.op == "range":
            return self.range_source(it)
        if it.op in ("items", "values"):
            d = it.args[0]
            ps = self.parts_of(d)
            if ps is None:
                L = self.fresh_loop(strip_iter(d), [])
                k = mk("elem", L)
                v = t_item(d, k)
                return [(mk("tup", k, v) if it.op == "items" else v,
                         TRUE, [L])]
            return [(mk("tup", e, v) if it.op == "items" else v, g, l)
                    for e, v, g, l in ps]
        if it.op == "ref" or it.op in ("tup", "bag") or (
                it.op == "const" and isinstance(it.args[0], (tuple, list))):
            ps = self.parts_of(it)
            if ps is not None:
                return [(e, g, l) for e, v, g, l in ps]
        if is_const(it, str) and len(it.args[0]) <= 8:
            return [(const(k), TRUE, []) for k in it.args[0]]
        if it.op == "filter":
            out = []
            for e, g, l in self.sources(it.args[1]):
                out.append((e, b_and(g, g_of(it.args[0])), l))
            return out
        base = strip_iter(self.unalias(it))
        if base is not it:
            return self.sources(base)
        if base.op == "meth" and base.args[0] == "items":
            return self.sources(mk("items", base.args[1]))
        L = self.fresh_loop(base, [])
        return [(mk("elem", L), TRUE, [L])]

    def at(self, a, i, L):
        a = self.unalias(a)
        if a.op in ("enum", "zip", "items", "values", "range"):
            return mk("unk", "at", a, i)
        b = self.freeze(a)
        if L.args[0] is b:
            return mk("elem", L)
        ps = self.parts_of(a) if a.op == "ref" else None
        if ps is not None and len(ps) == 1 and len(ps[0][3]) == 1 and \
                ps[0][2] == TRUE and ps[0][3][0].args[0] is L.args[0]:
            return rename_loop(ps[0][3][0], L, t=ps[0][0])
        return t_item(b, i)

    def range_source(self, it):
        a = it.args
        if all(x.op == "const" for x in a):
            try:
                r = range(*[x.args[0] for x in a])
                if len(r) <= MAX_UNROLL:
                    return [(const(k), TRUE, []) for k in r]
            except Exception:
                pass
        if len(a) == 1 and a[0].op == "len":
            T = a[0].args[0]
            if T.op == "bag":
                ps = self.parts_of(T)
                if ps is not None and len(ps) == 1 and len(ps[0][3]) == 1 \
                        and ps[0][2] == TRUE:
                    L = ps[0][3][0]
                    return [(mk("idx", L), TRUE, [L])]
            L = self.fresh_loop(T, [])
            return [(mk("idx", L), TRUE, [L])]
        T = mk("range", *a)
        L = self.fresh_loop(T, [])
        return [(mk("elem", L), TRUE, [L])]

    def use(self, t, name, n):
        """A method or a loop that fails if a parameter has a wrong type."""
        raw = t
        while raw.op == "elem":
            raw = raw.args[0].args[0]
        if raw.op == "param":
            self.emit("use", name, recv=t, node=n)

    def for_loop(self, s, it):
        if isinstance(it, Term):
            self.use(it, "loop", s.iter)
        live = self.live_source(s.iter, it)
        src = self.sources(it)
        if src and len(src) > MAX_UNROLL:
            src = [(mk("elem", mk("loop", self.freeze(it), 0)), TRUE,
                    [mk("loop", self.freeze(it), 0)])]
        broke = FALSE
        R0 = self.reach
        for elem, g, ls in src:
            if self.reach == FALSE:
                break
            if not ls:
                # single element: execute in place
                skip = b_and(self.reach, b_not(g))
                self.reach = b_and(self.reach, g)
                if self.reach == FALSE:
                    self.reach = skip
                    continue
                c = LoopCtx(None, it, live)
                c.node = s.iter
                c.start = self.reach
                c.unrolled = True
                nl = len(self.loops)
                self.loops.append(_Pseudo(c))
                self.store(s.target, elem, s)
                self.block(s.body)
                del self.loops[nl:]
                p = c
                broke = b_or(broke, p.break_g)
                c.goes_on = b_or(self.reach, p.cont)
                self.reach = b_or(c.goes_on, skip)
            else:
                b = self.star_loop(s, elem, g, ls, live)
                broke = b_or(broke, b)
                if b != FALSE:
                    # following sources only if not broken
                    self.reach = b_and(self.reach, b_not(b))
        if not src and s.orelse:
            self.block(s.orelse)
            return
        if s.orelse:
            self.reach = b_and(self.reach, b_not(broke))
            if self.reach != FALSE:
                self.block(s.orelse)
        self.reach = b_or(self.reach, b_and(R0, broke)
                          if broke != FALSE else FALSE)

    def star_loop(self, s, elem, g, ls, live, body=None):
        """Execute the body for an arbitrary element.  Returns the condition
        (after the loop) under which the loop was left by break."""
        R0 = self.reach
        act = {c.term for c in self.loops}
        ls = list(ls)
        for i, L in enumerate(ls):
            if L in act:
                L2 = self.fresh_loop(L.args[0], ls)
                elem = rename_loop(L, L2, t=elem)
                g = rename_loop(L, L2, g=g)
                for j in range(i + 1, len(ls)):
                    ls[j] = rename_loop(L, L2, t=ls[j])
                ls[i] = L2
        body_stmts = s.body if body is None else None
        names = set()
        if body is None:
            for st in s.body:
                for n in ast.walk(st):
                    names |= set(bound_names(n))
            names |= set(bound_names(s.target)) if hasattr(
                s, "target") else set()
            tnames = {n.id for n in ast.walk(s.target)
                      if isinstance(n, ast.Name)} if hasattr(
                          s, "target") else set()
        else:
            tnames = set()
        fr = self.frames[-1]
        names = [n for n in sorted(names)
                 if n not in fr.globals and self.lookup_frame(n) is not None]
        before = {n: self.lookup_frame(n).env.get(n) or [(TRUE, UNDEF)]
                  for n in names}

        def run(brk, ret, refs=(), grow=()):
            ctxs = [LoopCtx(L, None, live) for L in ls]
            for c in ctxs:
                c.node = getattr(s, "iter", None)
            ctxs[-1].mod_refs |= set(refs)
            ctxs[-1].grow = dict(grow)
            for c in ctxs:
                c.base = R0
            inner = ctxs[-1]
            inner.live = live
            self.loops += ctxs
            self.reach = b_and(R0, g)
            stop = b_or(brk, ret)
            if stop != FALSE:
                self.reach = b_and(self.reach, atom(mk(
                    "unbroken", ls[-1], gterm(stop))))
            inner.start = self.reach
            if self.reach != FALSE:
                if body is None:
                    if hasattr(s, "target"):
                        self.store(s.target, elem, s)
                    self.block(body_stmts)
                else:
                    body(elem)
            self.reach = b_or(self.reach, inner.cont)
            end = self.reach
            for c in ctxs:
                c.goes_on = end
            del self.loops[-len(ctxs):]
            return ctxs, inner, end

        # names the body only extends in place
        plain = set(tnames)
        if body is None:
            grow = set()
            for st in s.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.AugAssign):
                        grow.add(id(x.target))
                    elif isinstance(x, ast.Assign) and len(
                            x.targets) == 1 and isinstance(
                                x.targets[0], ast.Name) and \
                            x.targets[0].id in names and self.self_concat(
                                x.targets[0].id, x.value) is not None:
                        grow.add(id(x.targets[0]))
            for st in s.body:
                for x in ast.walk(st):
                    if id(x) not in grow:
                        plain |= set(bound_names(x))
        # pass 1: find what the body changes
        snap = self.snapshot()
        self.dry += 1
        carry = {}
        L = ls[-1]
        for n in names:
            f = self.lookup_frame(n)
            al = before[n]
            al = [(h, v) for h, v in al if b_and(h, R0) != FALSE]
            if any(isinstance(v, Acc) for _, v in al) and \
                    not any(v is UNDEF for _, v in al):
                continue
            if n not in plain and al and all(
                    self.obj(v) is not None and self.obj(v).alias is None
                    and self.obj(v).kind in ("list", "set")
                    for _, v in al if isinstance(v, Term)) and all(
                        isinstance(v, Term) for _, v in al):
                continue
            init_undef = all(v is UNDEF for _, v in al)
            carry[n] = mk("carry", L, n, UNDEF if init_undef else NONE)
            if init_undef and n in tnames:
                f.env[n] = [(TRUE, UNDEF)]
                del carry[n]
                continue
            f.env[n] = [(TRUE, carry[n])]
        attr0 = dict(self.attrs)
        ctxs, inner, end = run(FALSE, FALSE)
        attr1 = dict(self.attrs)
        brk = constrain(inner.break_g, R0) if inner.break_g else FALSE
        ret = constrain(inner.ret_g, R0) if inner.ret_g else FALSE
        mods = {x for c in ctxs for x in c.mod_refs}
        grow = {(id(self.lookup_frame(x[1])), x[1]): mk("carry", L, x[1])
                for x in mods if isinstance(x, tuple) and x[1] in names
                and x[1] not in carry}
        assigned = {}
        for n in carry:
            f = self.lookup_frame(n)
            assigned[n] = f.env.get(n)
        changed = [k for k in attr1 if attr1[k] is not attr0.get(k)]
        # does an attribute keep its value over an iteration?
        head = {}
        for k in changed:
            self.reach = R0
            init = self.read_alts(attr0.get(k) or [(TRUE, self.attr_default(
                k))])
            left = b_or(end, brk)
            self.reach = left
            fin = self.read_alts(attr1[k]) if left != FALSE else init
            new = {x for _, x in alts(fin)} - {y for _, y in alts(init)}
            if all(x is y for (_, x) in alts(fin) for (_, y) in alts(init)):
                head[k] = None
            elif len(new) == 1 and all(x.op == "const" for x in new):
                # an earlier iteration may have set it to the same constant
                A = c_truth(mk("carry", L, f"attr:{k[1]}", NONE))
                head[k] = choose([(b_not(A), init), (A, new.pop())])
            else:
                head[k] = mk("carry", L, f"attr:{k[1]}", NONE)
        self.dry -= 1
        self.restore(snap)

        # pass 2
        for n in names:
            f = self.lookup_frame(n)
            if n in carry:
                new = assigned[n]
                if all(isinstance(v, Term) and (v is carry[n])
                       for _, v in new):
                    continue                         # never reassigned
                if carry[n].args[2] is UNDEF:
                    # bound from the first iteration on?
                    first = c_eq(mk("idx", L), const(0))
                    keep = FALSE
                    for gn, v in new:
                        if v is carry[n] or v is UNDEF:
                            keep = b_or(keep, b_and(gn, end))
                    if N.unsat(b_and(keep, first)):
                        carry[n] = mk("carry", L, n, UNDEF0)
                f.env[n] = [(TRUE, carry[n])]
        for k, h in head.items():
            if h is not None:
                self.attrs[k] = [(TRUE, h)]
        ctxs, inner, end = run(brk, ret, {
            x for x in mods if not isinstance(x, tuple) and x in self.heap},
            grow)
        brk_abs, exit_abs = inner.break_g, inner.exit_g
        after_attrs = dict(self.attrs)

        def out(gg):
            for X in reversed(ls):
                gg = c_exists(X, constrain(gg, R0) if gg else gg)
            return gg
        exit_g = out(exit_abs) if exit_abs != FALSE else FALSE
        brk_g = out(brk_abs) if brk_abs != FALSE else FALSE
        post = b_and(R0, b_not(exit_g))
        for c in ctxs[:-1]:
            pass
        # variables after the loop
        for n in names:
            f = self.lookup_frame(n)
            al = f.env.get(n)
            if al is before[n] or al is None:
                continue
            if n in carry:
                self.carried[carry[n]] = list(al)
            f.env[n] = self.after_loop(n, before[n], al, carry.get(n), ls, R0,
                                       out, brk_abs, end)
        for k in list(after_attrs):
            if after_attrs[k] is attr0.get(k):
                continue
            if head.get(k, 0) is None:
                # unchanged over an iteration
                if k in attr0:
                    self.attrs[k] = attr0[k]
                else:
                    self.attrs[k] = [(TRUE, self.attr_default(k))]
            else:
                h = head.get(k)
                self.reach = R0
                init = self.read_alts(attr0.get(k) or
                                      [(TRUE, self.attr_default(k))])
                left = b_or(end, brk_abs)
                self.reach = left
                fin = self.read_alts(after_attrs[k]) if left != FALSE \
                    else init
                sets = [(g, x) for g, x in after_attrs[k] if x is not h and
                        b_and(g, left) != FALSE]
                if h is not None and h.op == "phi" and sets and len(
                        {x for _, x in sets}) == 1:
                    g1 = FALSE
                    for g, x in sets:
                        g1 = b_or(g1, b_and(g, left))
                    E = out(g1)
                    self.attrs[k] = [(b_not(E), init), (E, sets[0][1])]
                elif all(x.op == "const" for _, x in alts(fin)) and \
                        len(alts(fin)) == 1:
                    E = out(left) if left != FALSE else FALSE
                    self.attrs[k] = [(b_and(TRUE, b_not(E)), init), (E, fin)]
                else:
                    self.attrs[k] = [(TRUE, mk("fold", L, f"attr:{k[1]}",
                                               init, fin))]
        self.reach = post
        # propagate exits to enclosing loops happened via do_raise/return
        return brk_g

    def after_loop(self, n, before, al, carry, ls, R0, out, brk_abs, end):
        L = ls[-1]
        if carry is None:
            # string accumulators: parts carry their own loop contexts
            if any(isinstance(v, Acc) for _, v in al):
                return self.loop_acc(before, al, ls, R0, out)
        live = b_or(end, brk_abs)
        opts = []
        self_ref = False
        for g, v in al:
            if v is carry or v is UNDEF:
                continue
            gg = b_and(g, live)
            if gg == FALSE:
                continue
            if isinstance(v, Acc):
                sv = self.reach
                self.reach = gg
                v = self.read_alts([(TRUE, v)])
                self.reach = sv
            opts.append((gg, v))
        if not opts:
            return before
        if carry is not None:
            opts = [o for g, v in opts for o in self.running_alts(carry, g, v)]
        new = []
        any_g = FALSE
        for g, v in opts:
            any_g = b_or(any_g, g)
        # boolean folding with the carried value
        if carry is not None and len(opts) >= 1:
            r = self.bool_fold(carry, opts, before, ls, R0, out, any_g)
            if r is not None:
                return r
        E = out(any_g)
        dep = [v for _, v in opts]
        uses = any(contains_id(v, carry.id) for v in dep) if carry else False
        if uses:
            sv = self.reach
            self.reach = R0
            init = self.read_alts(before)
            self.reach = any_g
            nv = self.read_alts(opts)
            self.reach = sv
            if init.op == "tup" and nv.op == "bin" and nv.args[0] == "Add" \
                    and nv.args[1] is carry and nv.args[2].op == "tup" and \
                    not contains_id(nv.args[2], carry.id):
                # elements appended to a tuple
                return [(TRUE, mk("bag", "list", *[
                    N.P(x) for x in init.args], *[
                    N.P(x, constrain(any_g, R0), (L,))
                    for x in nv.args[2].args]))]
            val = mk("fold", L, n, init, nv, gterm(constrain(any_g, R0)))
        elif len(opts) == 1 and not (fl(self.freeze(opts[0][1])) & set(ls)):
            val = opts[0][1]
        elif len({v.id for _, v in opts}) == 1 and \
                not (fl(self.freeze(opts[0][1])) & set(ls)):
            val = opts[0][1]
        elif len(opts) > 1 and len({v.id for _, v in opts}) == 2 and \
                brk_abs != FALSE and self.break_flag(opts, brk_abs):
            # every iteration sets a, the breaking one sets b
            (ga, va), (gb, vb) = self.break_flag(opts, brk_abs)
            B = out(gb)
            A = b_and(out(any_g), b_not(B))
            new = [(b_and(g, b_not(b_or(A, B))), v) for g, v in before]
            new = [(g, v) for g, v in new if g != FALSE]
            return new + [(A, va), (B, vb)]
        else:
            sv = self.reach
            self.reach = any_g
            v1 = self.freeze(self.read_alts(opts))
            self.reach = sv
            val = mk("sel", L, gterm(constrain(any_g, R0)), v1)
        nE = b_not(E)
        for g, v in before:
            gg = b_and(g, nE)
            if gg != FALSE:
                new.append((gg, v))
        new.append((E, val))
        return new

    def break_flag(self, opts, brk):
        byv = {}
        for g, v in opts:
            byv.setdefault(v.id, [FALSE, v])
            byv[v.id][0] = b_or(byv[v.id][0], g)
        if len(byv) != 2:
            return None
        (g1, v1), (g2, v2) = byv.values()
        if b_and(g1, b_not(brk)) == FALSE and b_and(g2, brk) == FALSE:
            return (g2, v2), (g1, v1)
        if b_and(g2, b_not(brk)) == FALSE and b_and(g1, brk) == FALSE:
            return (g1, v1), (g2, v2)
        return None

    def running_alts(self, carry, g, v):
        if not any(x.op == "lt" and carry in x.args for x in support(g)):
            return [(g, v)]
        parts = [self.running(carry, b_and(g, ga), va) for ga, va in alts(v)
                 if b_and(g, ga) != FALSE]
        if any(x.op == "call" and carry in x.args for _, x in parts):
            return parts
        return [(g, v)]

    def running(self, carry, g, v):
        """if v > x: x = v  is  x = max(x, v), likewise for min."""
        if contains_id(v, carry.id):
            return g, v
        for name, a, b in (("builtins.max", carry, v),
                           ("builtins.min", v, carry)):
            for at in (N.c_lt(a, b), b_not(N.c_lt(b, a))):
                if at in (TRUE, FALSE) or len(support(at)) != 1:
                    continue
                x = next(iter(support(at)))
                rest = cofactor(g, {x: at == atom(x)})
                if g == b_and(at, rest) and g != rest and not any(
                        contains_id(y, carry.id) for y in support(rest)):
                    return rest, mk("call", name, carry, v)
        return g, v

    def bool_fold(self, carry, opts, before, ls, R0, out, any_g):
        at = mk("truth", carry)
        if not all(is_bool(v) or v is carry for _, v in opts):
            return None
        # new truth as function of the carried truth, within one iteration
        f = b_and(b_not(any_g), atom(at))
        for g, v in opts:
            f = b_or(f, b_and(g, c_truth(v)))
        if at not in support(f):
            return None
        f0, f1 = cofactor(f, {at: False}), cofactor(f, {at: True})
        sv = self.reach
        self.reach = R0
        init = c_truth(self.read_alts(before))
        self.reach = sv
        if f0 == FALSE:
            r = b_and(init, b_not(out(b_and(R0, b_not(f1)))))
        elif b_and(any_g, b_not(f1)) == FALSE or f1 == TRUE:
            r = b_or(init, out(f0))
        else:
            return None
        return [(TRUE, gterm(r))]

    def loop_acc(self, before, al, ls, R0, out):
        """Strings appended to in a loop: keep initial plus new parts."""
        new = []
        for g, v in al:
            if not isinstance(v, Acc):
                new.append((g, v))
                continue
            # an Acc created before the loop keeps its selection guard
            if fl_any(g, ls):
                gg = out(b_and(g, R0))
                new.append((gg, v))
            else:
                new.append((g, v))
        return new

    def s_While(self, s):
        f = while_to_for(s, self)
        if f is not None:
            self.block(f)
            return
        # one abstract iteration of an opaque loop
        names = set()
        for st in s.body:
            for n in ast.walk(st):
                names |= set(bound_names(n))
        T = mk("while", self.pos(s)[2], self.while_no(s))
        L = self.fresh_loop(T, [])

        def body(elem):
            g = self.cond(s.test)
            self.reach = b_and(self.reach, g)
            if self.reach != FALSE:
                self.block(s.body)
        R0 = self.reach
        fake = ast.For(target=ast.Name(id="_", ctx=ast.Store()),
                       iter=s.test, body=[ast.If(
                           test=s.test, body=s.body,
                           orelse=[ast.Break()])], orelse=[])
        ast.copy_location(fake, s)
        ast.fix_missing_locations(fake)
        infinite = isinstance(s.test, ast.Constant) and s.test.value
        ww = ast.copy_location(ast.While(test=s.test, body=s.body,
                                         orelse=[]), s)
        self.star_loop(_WhileBody(s), mk("elem", L), TRUE, [L], [])
        if s.orelse:
            self.block(s.orelse)

    def while_no(self, s):
        fn = self.frames[-1].fn.node
        k = 0
        for n in ast.walk(fn):
            if isinstance(n, ast.While):
                if n is s:
                    return k
                k += 1
        return -1

    # try / with ---------------------------------------------------------------
    def handler_types(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            v = self.ev(t)
            for _, x in alts(v):
                ps = self.parts_of(x)
                for y in ([p[0] for p in ps] if ps is not None else [x]):
                    out.add(y.args[0] if y.op in ("glob", "cls") else "?")
        return out

    def s_Try(self, s):
        self.try_block(lambda: self.block(s.body), s, s.handlers, s.orelse,
                       s.finalbody)

    s_TryStar = s_Try

    def try_block(self, body, s, handlers, orelse=(), finalbody=()):
        R0 = self.reach
        tc = TryCtx(s, len(self.frames), len(self.loops))
        tc.reach = R0
        tc.final = bool(finalbody)
        tc.finalbody = finalbody
        types = []
        for h in handlers:
            if isinstance(h, ast.ExceptHandler):
                types.append(self.handler_types(h))
            else:
                types.append(h[0])
        tc.handlers = types
        self.trys.append(tc)
        nret = [(f, len(f.returns)) for f in self.frames]
        nev = len(self.events)
        flags = self.final_flags(s, finalbody) if finalbody and \
            not handlers else {}
        body()
        self.trys.pop()
        tc.active = False
        self.try_ids = getattr(self, "try_ids", 0) + 1
        Rn = self.reach
        if handlers:
            ex = atom(mk("exc", self.exc_key(tc, nev)))
            tc.atom = ex
            # returns and escapes inside the body did not see the exception
            for f, k in nret:
                for i in range(k, len(f.returns)):
                    g, t, lp = f.returns[i]
                    f.returns[i] = (b_and(g, b_not(ex)), t, lp)
            Rn = b_and(Rn, b_not(ex))
        self.reach = Rn
        if orelse and Rn != FALSE:
            self.block(orelse)
            Rn = self.reach
        taken = FALSE
        for i, h in enumerate(handlers):
            g = FALSE
            for cg, name, loops, exc in tc.caught:
                first = next((j for j, ty in enumerate(types)
                              if catches(ty, name)), None)
                if first == i:
                    g = b_or(g, close_loops(cg, loops))
            gi = b_and(R0, ex)
            if i + 1 < len(handlers) or i > 0:
                gi = b_and(gi, atom(mk("exctype", self.exc_key(tc, nev),
                                       const(i)))) if len(handlers) > 1 \
                    else gi
            self.reach = b_or(g, gi)
            if self.reach == FALSE:
                continue
            self.handler += (tc.id,)
            begin = len(self.events), self.reach
            if isinstance(h, ast.ExceptHandler):
                if h.name:
                    self.assign(h.name, mk("excval", const(tc.id)), h)
                self.block(h.body)
            else:
                h[1]()
            tc.blocks.append((i, begin[0], len(self.events), begin[1]))
            self.handler = self.handler[:-1]
            taken = b_or(taken, self.reach)
        after = b_or(Rn, taken)
        if finalbody:
            self.reach = R0
            self.final += (tc.id,)
            k = [(f, len(f.returns)) for f in self.frames]
            if flags:
                # the block sees the old values after an exception
                ext = mk("exc", self.exc_key(tc, nev))
                tc.fex = ex = atom(ext)
                env = self.frames[-1].env
                for n, old in flags.items():
                    new = env[n]
                    env[n] = [(b_and(g, ex), v) for g, v in old] + [
                        (b_and(g, b_not(ex)), v) for g, v in new]
                    flags[n] = new
            self.block(finalbody)
            self.final = self.final[:-1]
            if flags:
                # afterwards there was none
                no = {ext: False}
                env.update(flags)
                self.reach = cofactor(self.reach, no)
                self.attrs = {k: [(cofactor(g, no), v) for g, v in al
                                  if cofactor(g, no) != FALSE]
                              for k, al in self.attrs.items()}
            if self.reach == FALSE:
                after = FALSE
            else:
                after = b_and(after, self.reach) if after != FALSE else after
        self.reach = after

    def final_flags(self, s, finalbody):
        """Local names a finally block reads and its try body changes."""
        stored = {n.id for b in s.body for n in ast.walk(b)
                  if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        read = {n.id for b in finalbody for n in ast.walk(b)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        env = self.frames[-1].env
        return {n: list(env[n]) for n in sorted(stored & read)
                if isinstance(env.get(n), list) and all(
                    isinstance(v, Term) and v.op == "const"
                    for _, v in env[n])}

    def exc_key(self, tc, nev):
        """Describe what may raise in a try body independent of position."""
        calls = []
        for e in tc.calls:
            if e.kind == "call" and len(e.chain) >= 1:
                calls.append(mk("c", e.name, *( [e.recv] if e.recv is not
                                               None else []), *e.args))
            if len(calls) > 4:
                break
        if not calls or len(calls) > 4:
            return mk("try", self.stack[-1], const(getattr(
                tc.node, "lineno", 0)))
        return mk("tup", *calls)

    def s_With(self, s):
        self.with_items(s, list(s.items))

    s_AsyncWith = s_With

    def with_items(self, s, items):
        if not items:
            self.block(s.body)
            return
        it = items[0]
        ce = it.context_expr
        rest = items[1:]

        def inner():
            self.with_items(s, rest)

        # repo generator based context managers
        if isinstance(ce, ast.Call):
            f = self.callee(ce.func)
            if f is not None and f[0] == "func":
                fn, selft = f[1], f[2]
                if fn.is_cm:
                    def hook(v):
                        if it.optional_vars is not None:
                            self.store(it.optional_vars, v, s)
                        inner()
                    args, kw = self.eval_args(ce)
                    self.inline(fn, selft, args, kw, ce, hook=hook)
                    return
                if f[1].name == "__init__" and fn.cls is not None and \
                        "__enter__" in fn.cls.methods:
                    pass
        cm = self.ev(ce)
        if self.reach == FALSE:
            return
        d = cm.args[0] if cm.op == "call" else None
        if d == "contextlib.suppress":
            names = set()
            for a in cm.args[1:]:
                for _, y in alts(a):
                    names.add(y.args[0] if y.op in ("glob", "cls") else "?")
            self.try_block(inner, s, [(names, lambda: None)])
            return
        # class based context managers of the package
        cls = typeof(cm)
        if cm.op == "new" or self.obj(cm) is not None and self.obj(
                cm).kind.startswith("inst:"):
            k = self.project.classes.get(cls or self.obj(cm).kind[5:])
            if k and "__enter__" in k.methods and "__exit__" in k.methods:
                v = self.inline(k.methods["__enter__"], cm, [], [], ce)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, v, s)
                ex = k.methods["__exit__"]

                def fin():
                    self.inline(ex, cm, [NONE, NONE, NONE], [], ce)
                self.try_final(inner, s, fin)
                return
        if d == "contextlib.closing" and len(cm.args) > 1:
            v = cm.args[1]
        else:
            v = cm
        if d == "contextlib.ExitStack":
            # everything entered into the stack is left with its body
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, s)
            depth = len(self.withs)
            inner()
            del self.withs[depth:]
            return
        w = WithCtx(self.freeze(cm), self.pos(s))
        self.emit("with", "enter", recv=self.freeze(cm), node=s, extra=w.id)
        if it.optional_vars is not None:
            self.store(it.optional_vars, v, s)
        self.withs.append(w)
        inner()
        self.withs.pop()

    def try_final(self, body, s, fin):
        R0 = self.reach
        tc = TryCtx(s, len(self.frames), len(self.loops))
        tc.reach = R0
        tc.final = True
        tc.finalbody = None
        self.trys.append(tc)
        body()
        self.trys.pop()
        tc.active = False
        Rn = self.reach
        self.reach = R0
        self.final += (tc.id,)
        fin()
        self.final = self.final[:-1]
        self.reach = Rn if self.reach != FALSE else FALSE

    # snapshots ----------------------------------------------------------------
    def snapshot(self):
        return (self.reach, list(self.events), self.seq,
                [(f, dict(f.env), list(f.returns)) for f in self.all_frames()],
                {k: (o, list(o.parts), o.alias, o.weak, o.removed)
                 for k, o in self.heap.items()},
                dict(self.attrs), list(self.loops),
                [(c, c.break_g, c.cont, c.ret_g, c.exit_g, set(c.mod_refs))
                 for c in self.loops],
                [(t, list(t.caught), list(t.calls)) for t in self.trys],
                list(self.escapes), list(self.notes), list(self.trys),
                list(self.withs))

    def all_frames(self):
        seen, out = set(), []
        for f in self.frames:
            while f is not None and id(f) not in seen:
                seen.add(id(f))
                out.append(f)
                f = f.parent
        return out

    def restore(self, s):
        (self.reach, self.events, self.seq, frames, heap, self.attrs,
         self.loops, lc, tr, self.escapes, self.notes, self.trys,
         self.withs) = s
        for f, env, rets in frames:
            f.env, f.returns = dict(env), list(rets)
        self.heap = {}
        for k, (o, parts, alias, weak, rem) in heap.items():
            o.parts, o.alias, o.weak, o.removed = list(parts), alias, weak, rem
            self.heap[k] = o
        for c, b, k, r, e, m in lc:
            c.break_g, c.cont, c.ret_g, c.exit_g = b, k, r, e
            c.mod_refs = set(m)
        for t, ca, cl in tr:
            t.caught, t.calls = list(ca), list(cl)

    # ----------------------------------------------------------- expressions
    def ev(self, n):
        if self.reach == FALSE:
            return UNDEF
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.notes.append(f"expression {type(n).__name__}")
            return mk("unk", type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.read(n.id, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store(n.target, v, n)
        return v

    def e_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n)
        return mk("tup", *[self.ev(e) for e in n.elts])

    def e_List(self, n):
        r = self.new_ref("list")
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(r, self.ev(e.value), n, silent=True)
            else:
                v = self.ev(e)
                if self.reach == FALSE:
                    return UNDEF
                self.add_part(r, v)
        self.fresh_mod(r)
        return r

    def fresh_mod(self, r):
        for c in self.loops:
            c.mod_refs.discard(r.args[0])

    def e_Set(self, n):
        r = self.e_List(n)
        if self.obj(r):
            self.obj(r).kind = "set"
        return r

    def e_Dict(self, n):
        r = self.new_ref("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.extend(r, self.ev(v), n, silent=True)
                continue
            kk, vv = self.ev(k), self.ev(v)
            if self.reach == FALSE:
                return UNDEF
            self.add_part(r, kk, vv)
        self.fresh_mod(r)
        return r

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += cat_parts(const(str(v.value)))
            else:
                t = self.ev(v.value)
                if self.reach == FALSE:
                    return UNDEF
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    t = mk("fmt", self.freeze(t), const(
                        ast.unparse(v.format_spec) if v.format_spec
                        else v.conversion))
                parts += self.str_parts(t)
        return mk_cat(parts)

    def str_parts(self, t):
        t = self.freeze(t)
        if t.op == "phi" and any(is_strlike(x) or x.op == "const"
                                 for _, x in alts(t)):
            t = choose([(g, mk_str(x)) for g, x in alts(t)])
        if t.op == "const":
            t = const(str(t.args[0]))
        return cat_parts(t)

    def e_FormattedValue(self, n):
        return mk_cat(self.str_parts(self.ev(n.value)))

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_IfExp(self, n):
        g = self.cond(n.test)
        R = self.reach
        self.reach = b_and(R, g)
        a = self.ev(n.body) if self.reach != FALSE else UNDEF
        Ra = self.reach
        self.reach = b_and(R, b_not(g))
        b = self.ev(n.orelse) if self.reach != FALSE else UNDEF
        self.reach = b_or(Ra, self.reach)
        return self.choose_here([(g, a), (b_not(g), b)])

    def choose_here(self, opts):
        out = []
        for g, t in opts:
            if b_and(g, self.reach) == FALSE:
                continue
            out.append((constrain(g, self.reach), t))
        return choose(out)

    def e_BoolOp(self, n):
        if all(self.is_cond(v) for v in n.values):
            return gterm(self.rel_g(self.cond(n)))
        v = self.ev(n.values[0])
        for nxt in n.values[1:]:
            g = c_truth(self.freeze(v))
            go = b_not(g) if isinstance(n.op, ast.Or) else g
            R = self.reach
            self.reach = b_and(R, go)
            w = self.ev(nxt) if self.reach != FALSE else UNDEF
            self.reach = b_or(self.reach, b_and(R, b_not(go)))
            v = self.choose_here([(go, w), (b_not(go), v)])
        return v

    def is_cond(self, n):
        return isinstance(n, ast.Compare) or (
            isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or (
            isinstance(n, ast.BoolOp) and all(
                self.is_cond(v) for v in n.values)) or (
            isinstance(n, ast.Call) and isinstance(n.func, (
                ast.Name, ast.Attribute)) and (
                getattr(n.func, "id", None) or n.func.attr) in (
                    "isinstance", "hasattr", "any", "all", "startswith",
                    "endswith", "bool", "issubclass", "callable")) or (
            isinstance(n, ast.Constant) and isinstance(n.value, bool))

    def rel_g(self, g):
        return g

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return gterm(b_not(self.cond(n.operand)))
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub) and is_const(v, (int, float)):
            return const(-v.args[0])
        return mk("unary", type(n.op).__name__, self.freeze(v))

    def e_Compare(self, n):
        return gterm(self.cond(n))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        if self.reach == FALSE:
            return UNDEF
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, node):
        o = type(op).__name__
        if a.op == "phi" and len(a.args) <= 8 and not self.obj(a):
            return self.choose_here([(g, self.binop(op, x, b, node))
                                     for g, x in alts(a)])
        if b.op == "phi" and len(b.args) <= 8:
            return self.choose_here([(g, self.binop(op, a, x, node))
                                     for g, x in alts(b)])
        if a.op == "const" and b.op == "const":
            import operator as om
            f = {"Add": om.add, "Sub": om.sub, "Mult": om.mul,
                 "FloorDiv": om.floordiv, "Mod": om.mod,
                 "BitOr": om.or_, "BitAnd": om.and_}.get(o)
            try:
                if f and not (o == "Mult" and isinstance(
                        b.args[0], int) and b.args[0] > 1000):
                    return const(f(a.args[0], b.args[0]))
            except Exception:
                pass
        if o == "Add":
            oa, ob = self.obj(a), self.obj(b)
            if (oa and oa.kind == "list") or (ob and ob.kind == "list") or \
                    a.op == "bag" and a.args[0] == "list":
                r = self.new_ref("list")
                self.extend(r, a, node, silent=True)
                self.extend(r, b, node, silent=True)
                self.fresh_mod(r)
                return r
            if a.op == "tup" and b.op == "tup":
                return mk("tup", *a.args, *b.args)
            if is_strlike(a) or is_strlike(b) or self.known_str(a) or \
                    self.known_str(b):
                return mk_cat(cat_parts(self.freeze(a))
                              + cat_parts(self.freeze(b)))
        if o == "Mod" and is_strlike(a):
            return mk_cat([P(mk("fmt", self.freeze(a), self.freeze(b)))])
        if o in ("BitAnd", "BitOr") and (is_bool(a) and is_bool(b)):
            f = b_and if o == "BitAnd" else b_or
            return gterm(f(c_truth(a), c_truth(b)))
        if o in ("BitAnd", "BitOr") and (
                a.op == "carry" and is_bool(b) or b.op == "carry" and
                is_bool(a)):
            f = b_and if o == "BitAnd" else b_or
            return gterm(f(c_truth(a), c_truth(b)))
        if o == "BitOr" and (a.op in ("glob", "cls", "bitor")):
            return mk("bitor", a, b)
        if o == "Sub":
            ra, rb = self.coll(a), self.coll(b)
            if ra and rb:
                return self.set_filter(a, b, False)
        if o == "BitAnd" and self.coll(a) and self.coll(b):
            return self.set_filter(a, b, True)
        if o == "BitOr" and self.coll(a) and self.coll(b):
            r = self.new_ref("set")
            self.extend(r, a, node, silent=True)
            self.extend(r, b, node, silent=True)
            self.fresh_mod(r)
            return r
        if o == "BitXor" and self.coll(a) and self.coll(b):
            r = self.set_filter(a, b, False)
            self.extend(r, self.set_filter(b, a, False), node, silent=True)
            return r
        if o == "Div" and self.is_path(a):
            return mk("call", "os.path.join", self.freeze(a), self.freeze(b))
        return mk("bin", o, self.freeze(a), self.freeze(b))

    def is_path(self, t):
        return t.op == "call" and t.args[0] in (
            "pathlib.Path", "os.path.join", "pathlib.PurePath") or \
            t.op == "attr" and t.args[1] == "parent"

    def coll(self, t):
        o = self.obj(t)
        if o is not None:
            return o.kind in ("set", "list", "dict")
        return t.op == "call" and t.args[0] in (
            "builtins.set", "builtins.frozenset") or (
            t.op == "meth" and t.args[0] in ("keys",)) or t.op == "attr" \
            and t.args[1] in ("__dict__", "_convention", "_custom")

    def set_filter(self, a, b, keep):
        r = self.new_ref("set")
        fb = self.freeze(b)
        for e, g, l in self.sources(a):
            c = c_in(e, fb)
            self.obj(r).parts.append(Part(
                e, NONE, b_and(self.reach, g, c if keep else b_not(c)),
                tuple(self.loops) + tuple(LoopCtx(x, None, None) for x in l)))
        return r

    def known_str(self, t):
        return t.op == "meth" and t.args[0] in N.STR_METHODS or \
            t.op == "fmt" or t.op == "call" and t.args[0] in (
                "os.path.basename", "os.path.join", "os.path.dirname") or \
            t.op == "phi" and all(is_strlike(x) or self.known_str(x)
                                  for _, x in alts(t))

    def e_Attribute(self, n):
        d = self.static_dotted(n)
        if d is not None:
            return self.dotted_value(d)
        o = self.ev(n.value)
        if self.reach == FALSE:
            return UNDEF
        return self.get_attr(o, n.attr, n)

    def static_dotted(self, n):
        """Dotted global name for np.x.y if the root is not a local."""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        fr = self.lookup_frame(n.id)
        if fr is not None:
            al = fr.env.get(n.id)
            if not isinstance(al, list):
                return None
            live = {x for g, x in al if b_and(g, self.reach) != FALSE}
            x = live.pop() if len(live) == 1 else None
            if not isinstance(x, Term) or x.op != "glob":
                return None
            d = x.args[0]
        else:
            d = self.frames[-1].fn.mod.resolve(n.id)
        if d is None:
            return None
        kind, o = self.project.lookup(d)
        if kind == "module" or kind is None:
            return ".".join([d] + parts[::-1])
        if kind == "class":
            c = o
            if len(parts) == 1 and (parts[0] in c.methods
                                    or parts[0] in c.attrs):
                return f"{self.project_name(c)}.{parts[0]}"
        return None

    def attr_default(self, k):
        oid, name = k
        o = self.termid.get(oid)
        if o is None:
            return mk("unk", "attr", name)
        cls = typeof(o)
        if cls == "Sofa" and o.op == "new" and name == "_protected":
            # the constructor protects objects with a convention (C07
            # decides that for the constructor itself)
            d = self.class_default(cls, name)
            conv = next((a.args[1] for a in o.args if isinstance(a, Term)
                         and a.op == "kw" and a.args[0] == "convention"),
                        None)
            if conv is None or conv is NONE:
                return d
            return N.choose([(c_isnone(conv), d),
                             (b_not(c_isnone(conv)), const(True))])
        return mk("attr", o, name)

    termid = {}

    def class_default(self, cls, name):
        k = self.project.classes.get(cls)
        if k and name in k.attrs:
            return self.class_attr(k, name)
        return mk("unk", "attr", name)

    def tracked(self, o, name):
        cls = typeof(o) or (self.obj(o).kind[5:] if self.obj(o) is not None
                            and self.obj(o).kind.startswith("inst:")
                            else None)
        if cls is None or cls not in self.project.classes:
            return False
        if name in OPAQUE_ATTRS:
            return False
        if cls == "Sofa":
            return name.startswith("_") and not name.startswith("__")
        return not name.startswith("__")

    def get_attr(self, o, name, node=None):
        if o.op == "phi":
            return self.choose_here([(g, self.get_attr(x, name, node))
                                     for g, x in alts(o)])
        o = self.unalias(o)
        if o.op == "glob":
            return self.dotted_value(f"{o.args[0]}.{name}")
        if o.op == "cls":
            k = self.project.lookup(o.args[0])[1]
            if name in k.methods:
                return mk("fn", f"{self.project_name(k)}.{name}")
            if name in k.attrs:
                return self.class_attr(k, name)
            return mk("attr", o, name)
        cls = typeof(o)
        ob = self.obj(o)
        if ob is not None and ob.kind.startswith("inst:"):
            cls = ob.kind[5:]
        k = self.project.classes.get(cls) if cls else None
        if k is not None:
            if name == "__class__":
                return mk("cls", self.project_name(k))
            if name in k.getters:
                return self.inline(k.getters[name], o, [], [], node)
            if name in k.methods:
                return mk("bm", o, f"{self.project_name(k)}.{name}")
            if self.tracked(o, name):
                al = self.attrs.get((o.id, name))
                if al is not None:
                    return self.read_alts(al)
                if name in k.attrs and name not in OPAQUE_ATTRS and \
                        not self.assigned_in_class(k, name):
                    return self.class_attr(k, name)
                self.termid[o.id] = o
                return self.opaque(o, name)
        elif name in self.project.unique and not name.startswith("__"):
            f = self.project.unique[name]
            return mk("bm", o, f"{self.project_name(f.cls)}.{name}")
        if ob is not None:
            return mk("attr", self.freeze(o), name)
        return t_attr(self.now(o, name), name)

    def opaque(self, o, name):
        """The value of an attribute that is not tracked; with `versions`,
        later assignments give different values."""
        return mk("attr", self.now(o, name), name)

    def now(self, o, name):
        m = (self.versions or {}).get((o.id, name))
        return o if m is None else mk("at", o, m)

    def assigned_in_class(self, k, name):
        for f in k.all_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name and \
                        isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Call) and any(
                        isinstance(a, ast.Constant) and a.value == name
                        for a in n.args[:2]) and (
                        isinstance(n.func, ast.Name) and
                        n.func.id == "setattr" or
                        isinstance(n.func, ast.Attribute) and
                        n.func.attr == "__setattr__"):
                    return True
                if isinstance(n, ast.Subscript) and \
                        isinstance(n.ctx, ast.Store) and \
                        isinstance(n.slice, ast.Constant) and \
                        n.slice.value == name:
                    return True
        return False

    def set_attr(self, o, n, v, node, via="assign"):
        for g, x in alts(o):
            with self.under(g):
                if self.reach != FALSE:
                    self.set_attr1(x, n, v, node, via)

    def set_attr1(self, o, n, v, node, via):
        o = self.unalias(o)
        cls = typeof(o)
        ob = self.obj(o)
        if ob is not None and ob.kind.startswith("inst:"):
            cls = ob.kind[5:]
        k = self.project.classes.get(cls) if cls else None
        if n.op == "const" and k is not None:
            name = n.args[0]
            if name in k.setters:
                self.inline(k.setters[name], o, [v], [], node)
                return
        e = self.emit("setattr", via, recv=self.freeze(o),
                      args=[self.freeze(n), self.freeze(v)], node=node,
                      extra=v)
        if n.op == "const" and k is not None:
            name = n.args[0]
            if self.tracked(o, name):
                self.termid[o.id] = o
                old = self.attrs.get((o.id, name)) or [
                    (TRUE, self.attr_default((o.id, name)))]
                vv = v
                self.attrs[(o.id, name)] = self.update_alts(old, vv)
                return
            if self.versions is not None:
                m = self.versions.get((o.id, name), 0) + 1
                self.versions[(o.id, name)] = e.version = m
            if name in OPAQUE_ATTRS:
                ob = self.obj(v) if v.op == "ref" else None
                if ob is not None and ob.alias is None:
                    ob.alias = self.opaque(o, name)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev_index(n.slice)
        if self.reach == FALSE:
            return UNDEF
        return self.get_item(o, i, n)

    def get_item(self, o, i, n):
        self.emit("getitem", "[]", recv=self.freeze(o),
                  args=[self.freeze(i)], node=n)
        return self.item_value(o, self.freeze(i))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", *[NONE if x is None else
                                 self.freeze(self.ev(x))
                                 for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return mk("tup", *[self.ev_index(e) for e in s.elts])
        return self.freeze(self.ev(s))

    e_Slice = lambda self, n: self.ev_index(n)

    def set_item(self, o, i, v, node):
        for g, x in alts(o):
            with self.under(g):
                if self.reach == FALSE:
                    continue
                x2 = self.unalias(x)
                self.emit("setitem", "[]", recv=self.freeze(x),
                          args=[i, self.freeze(v)], node=node,
                          extra=self.ident(x))
                ob = self.obj(x2)
                if ob is not None and ob.kind == "dict":
                    self.add_part(x2, i, v)
                elif ob is not None:
                    ob.weak = True

    def e_Lambda(self, n):
        fr = self.frames[-1]
        fn = Func("<lambda>", n, fr.fn.mod, None, outer=fr.fn)
        fn.qual = f"{fr.fn.qual}.<lambda>"
        return self.closure(fn, fr)

    # comprehension ------------------------------------------------------------
    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_GeneratorExp(self, n):
        r = self.comp(n, "list")
        o = self.obj(r)
        if o is not None:
            o.lazy = tuple(x for g in n.generators[:1]
                           for x in self.live_source(g.iter, None))
        return r

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def comp(self, n, kind):
        r = self.new_ref(kind)
        fr = self.frames[-1]
        names = {x.id for g in n.generators for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
        names = dict.fromkeys(sorted(names))
        saved = {k: fr.env.get(k) for k in names}
        had = {k: k in fr.locals for k in names}
        fr.locals |= set(names)

        def gen(k):
            if k == len(n.generators):
                if kind == "dict":
                    kk, vv = self.ev(n.key), self.ev(n.value)
                    if self.reach != FALSE:
                        self.add_part(r, kk, vv)
                else:
                    v = self.ev(n.elt)
                    if self.reach != FALSE:
                        self.add_part(r, v)
                return
            g = n.generators[k]
            it = self.ev(g.iter)
            R0 = self.reach
            if R0 == FALSE:
                return
            live = self.live_source(g.iter, it)
            for elem, gu, ls in self.sources(it):
                self.reach = b_and(R0, gu)
                if self.reach == FALSE:
                    continue
                ls = list(ls)
                act = {c.term for c in self.loops}
                for i, L in enumerate(ls):
                    if L in act:
                        L2 = self.fresh_loop(L.args[0], ls)
                        elem = rename_loop(L, L2, t=elem)
                        self.reach = b_and(R0, rename_loop(L, L2, g=gu))
                        ls[i] = L2
                ctx = [LoopCtx(L, None, live) for L in ls]
                for c in ctx:
                    c.start = self.reach
                    c.node = g.iter
                self.loops += ctx
                self.store(g.target, elem, n)
                for cnd in g.ifs:
                    c = self.cond(cnd)
                    self.reach = b_and(self.reach, c)
                    if self.reach == FALSE:
                        break
                if self.reach != FALSE:
                    gen(k + 1)
                if ctx:
                    ex = FALSE
                    del self.loops[-len(ctx):]
            self.reach = R0
        R = self.reach
        gen(0)
        self.reach = R
        for k in names:
            if saved[k] is None:
                fr.env.pop(k, None)
            else:
                fr.env[k] = saved[k]
            if not had[k]:
                fr.locals.discard(k)
        self.fresh_mod(r)
        return r

    def e_Yield(self, n):
        fr = self.frames[-1]
        v = self.ev(n.value) if n.value is not None else NONE
        if fr.hook is not None:
            hook = fr.hook
            # the with body runs in the caller's frame
            saved = self.frames
            idx = len(self.frames) - 1
            self.frames = saved[:fr.depth]
            st = self.stack
            self.stack = self.stack[:-1]
            ac = self.active
            self.active = self.active[:-1]
            hook(v)
            self.stack, self.active = st, ac
            self.frames = saved
            return NONE
        if fr.bag is not None and self.reach != FALSE:
            self.add_part(fr.bag, v)
        return mk("unk", "sent")

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        fr = self.frames[-1]
        if fr.bag is not None:
            self.extend(fr.bag, v, n, silent=True)
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    # conditions ---------------------------------------------------------------
    def cond(self, n):
        """Condition of an expression, evaluated under the current reach."""
        if self.reach == FALSE:
            return FALSE
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            R = self.reach
            acc = self.cond(n.values[0])
            raised = b_and(R, b_not(self.reach))
            for v in n.values[1:]:
                go = acc if is_and else b_not(acc)
                Rc = self.reach
                self.reach = b_and(Rc, go)
                if self.reach == FALSE:
                    self.reach = Rc
                    break
                c = self.cond(v)
                self.reach = b_or(self.reach, b_and(Rc, b_not(go)))
                acc = b_and(acc, c) if is_and else b_or(acc, c)
            return acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return b_not(self.cond(n.operand))
        if isinstance(n, ast.Compare):
            left = self.ev(n.left)
            r = TRUE
            for op, rn in zip(n.ops, n.comparators):
                right = self.ev(rn)
                if self.reach == FALSE:
                    return FALSE
                r = b_and(r, self.compare(op, left, right))
                left = right
            return r
        v = self.ev(n)
        if self.reach == FALSE:
            return FALSE
        return c_truth(self.freeze(v))

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            a2, b2 = self.freeze(a), self.freeze(b)
            if b2 is NONE or a2 is NONE:
                r = c_isnone(a2 if b2 is NONE else b2)
            elif a.op == "ref" and b.op == "ref":
                r = TRUE if a is b else FALSE
            else:
                r = c_eq(a2, b2)
            return r if o == "Is" else b_not(r)
        a, b = self.freeze(a), self.freeze(b)
        if o in ("LtE", "GtE"):
            x, y = (a, b) if o == "LtE" else (b, a)
            if x.op == y.op == "bag" and x.args[0] in SETS and \
                    y.args[0] in SETS:
                # every element of x is one of y
                bad = FALSE
                for p in x.args[1:]:
                    bad = b_or(bad, N.ex_loops(N.p_loops(p), b_and(
                        N.p_guard(p), b_not(c_in(p.args[0], y)))))
                return b_not(bad)
        if o in ("Eq", "NotEq"):
            r = c_eq(a, b)
            return r if o == "Eq" else b_not(r)
        if o in ("In", "NotIn"):
            r = c_in(a, b)
            return r if o == "In" else b_not(r)
        if o == "Lt":
            return c_lt(a, b)
        if o == "Gt":
            return c_lt(b, a)
        if o == "GtE":
            return b_not(c_lt(a, b))
        if o == "LtE":
            return b_not(c_lt(b, a))
        return atom(mk("truth", mk("cmp", o, a, b)))

    # calls --------------------------------------------------------------------
    def callee(self, f):
        """Resolve a call target: ('func', Func, self) etc. or None."""
        n = len(self.events)
        if isinstance(f, (ast.Name, ast.Attribute)):
            v = self.ev(f)
            return self.resolve_value(v)
        return None

    def resolve_value(self, v):
        if v.op == "fn":
            kind, o = self.project.lookup(v.args[0])
            if kind == "func":
                return ("func", o, None)
        if v.op == "bm":
            kind, o = self.project.lookup(v.args[1])
            if kind == "func":
                return ("func", o, v.args[0])
        if v.op == "clo":
            fn, fr = self.closures[v.args[0]]
            return ("clo", fn, fr)
        if v.op == "cls":
            kind, o = self.project.lookup(v.args[0])
            if kind == "class":
                return ("class", o, None)
        return None

    def eval_args(self, n):
        args, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                ps = self.parts_of(v)
                if ps is not None and all(
                        not l and g == TRUE for _, _, g, l in ps):
                    args += [p[0] for p in ps]
                else:
                    args.append(mk("star", self.freeze(v)))
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                o = self.obj(v)
                ps = self.parts_of(v) if o is not None else None
                if ps is not None and all(
                        not l and g == TRUE and e.op == "const"
                        for e, _, g, l in ps):
                    kw += [(e.args[0], val) for e, val, _, _ in ps]
                else:
                    kw.append(("**", self.freeze(v)))
            else:
                kw.append((k.arg, v))
        return args, kw

    def e_Call(self, n):
        f = n.func
        # str.join etc. on literals and all methods
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == "super" \
                    and self.lookup_frame("super") is None:
                of = None
                if len(f.value.args) == 2:
                    of = self.ev(f.value.args[1])
                args, kw = self.eval_args(n)
                return self.super_call(f.attr, args, kw, n, of)
            d = self.static_dotted(f)
            if d is None:
                recv = self.ev(f.value)
                if self.reach == FALSE:
                    return UNDEF
                args, kw = self.eval_args(n)
                if self.reach == FALSE:
                    return UNDEF
                return self.call_method(recv, f.attr, args, kw, n)
            v = self.dotted_value(d)
        else:
            v = self.ev(f)
        if self.reach == FALSE:
            return UNDEF
        args, kw = self.eval_args(n)
        if self.reach == FALSE:
            return UNDEF
        return self.call_value(v, args, kw, n)

    def call_value(self, v, args, kw, n):
        if v.op == "phi":
            out = []
            R = self.reach
            Ra = FALSE
            for g, x in alts(v):
                self.reach = b_and(R, g)
                if self.reach == FALSE:
                    continue
                out.append((g, self.call_value(x, args, kw, n)))
                Ra = b_or(Ra, self.reach)
            self.reach = Ra
            return self.choose_here(out)
        r = self.resolve_value(v)
        if r is not None:
            if r[0] == "func":
                fn, st = r[1], r[2]
                if fn.cls is not None and st is None and not fn.is_static \
                        and not fn.is_class and args:
                    st, args = args[0], args[1:]
                return self.call_func(fn, st, args, kw, n)
            if r[0] == "clo":
                return self.inline(r[1], None, args, kw, n, parent=r[2])
            if r[0] == "class":
                return self.construct(r[1], args, kw, n)
        if v.op == "rawfn":
            fn = self.raws[v.args[0]]
            st = None
            if fn.cls is not None and not fn.is_static and args:
                st, args = args[0], args[1:]
            return self.inline(fn, st, args, kw, n, raw=True)
        if v.op == "glob":
            return self.call_global(v.args[0], args, kw, n)
        if v.op == "attr":
            return self.call_method(v.args[0], v.args[1], args, kw, n)
        if v.op == "partial":
            inner = list(v.args[1:])
            pa = [x for x in inner if x.op != "kw"]
            pk = [(x.args[0], x.args[1]) for x in inner if x.op == "kw"]
            return self.call_value(v.args[0], pa + args, pk + kw, n)
        fa = [self.freeze(a) for a in args]
        fk = [(k, self.freeze(x)) for k, x in kw]
        t = mk("callv", self.freeze(v), *fa, *[mk("kw", k, x) for k, x in fk])
        self.emit("call", "?", recv=self.freeze(v), args=fa, kw=fk, node=n,
                  result=t)
        return t

    def qualshort(self, fn):
        return f"{fn.cls.name}.{fn.name}" if fn.cls else fn.name

    def call_func(self, fn, st, args, kw, n):
        q = self.qualshort(fn)
        if q in self.boundary or fn.qual in self.boundary:
            bound = self.bind(fn, st, args, kw)
            fa = tuple((k, self.freeze(v)) for k, v in bound.items()
                       if k not in (self.self_name(fn) if st is not None
                                    else "",))
            t = mk("call", q, *([self.freeze(st)] if st is not None else []),
                   *[mk("kw", k, x) for k, x in fa])
            self.emit("call", q, recv=self.freeze(st) if st is not None
                      else None, args=(), kw=fa, node=n, result=t,
                      extra="boundary")
            self.after_boundary(q, st)
            return t
        return self.inline(fn, st, args, kw, n)

    def after_boundary(self, q, st):
        pass

    def self_name(self, fn):
        a = fn.node.args
        ps = a.posonlyargs + a.args
        return ps[0].arg if ps else None

    def bind(self, fn, st, args, kw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        vals = list(args)
        if fn.cls is not None and not fn.is_static and st is not None:
            vals = [st] + vals
        elif fn.is_class:
            vals = [mk("cls", self.project_name(fn.cls))] + vals
        extra = []
        for i, v in enumerate(vals):
            if i < len(pos):
                bound[pos[i]] = v
            else:
                extra.append(v)
        kws = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw:
            if k in names:
                bound[k] = v
            else:
                kws.append((k, v))
        nd = len(a.defaults)
        for x, d in zip(pos[len(pos) - nd:], a.defaults):
            if x not in bound:
                bound[x] = self.default_value(fn, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bound and d is not None:
                bound[x.arg] = self.default_value(fn, d)
        for x in pos + [y.arg for y in a.kwonlyargs]:
            if x not in bound:
                bound[x] = mk("unk", "unboundarg", x)
        if a.vararg:
            bound[a.vararg.arg] = mk("tup", *extra)
        if a.kwarg:
            r = self.new_ref("dict")
            for k, v in kws:
                if k != "**":
                    self.add_part(r, const(k), v)
            bound[a.kwarg.arg] = r
        return bound

    def default_value(self, fn, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if self.share:
            k = mutable_depth(d, fn.mod)
            if k:
                return mk("shared", f"{fn.qual} (default value)", k)
        return self.eval_in_module(fn.mod, d, fn.cls)

    def inline(self, fn, st, args, kw, n, hook=None, parent=None,
               raw=False):
        if self.reach == FALSE:
            return UNDEF
        if not raw and not fn.is_cm and getattr(
                fn.node, "decorator_list", None):
            w = self.decorated(fn)
            if w is not None:
                return self.call_value(
                    w, ([st] if st is not None and fn.cls is not None else [])
                    + list(args), list(kw), n)
        key = (fn.qual, id(parent))
        if key in self.active or len(self.frames) > MAX_INLINE:
            t = mk("call", fn.qual, *([self.freeze(st)] if st is not None
                                      else []),
                   *[self.freeze(a) for a in args],
                   *[mk("kw", k, self.freeze(v)) for k, v in kw])
            self.emit("call", fn.qual, recv=self.freeze(st) if st is not None
                      else None, args=[self.freeze(a) for a in args],
                      kw=[(k, self.freeze(v)) for k, v in kw], node=n,
                      result=t, extra="recursion")
            return t
        memo = any(d.split(".")[-1] in ("lru_cache", "cache",
                                        "cached_property")
                   for d in fn.decorators)
        bound = self.bind(fn, st, args, kw)
        fr = Frame(fn, parent)
        fr.loopbase = len(self.loops)
        fr.depth = len(self.frames)
        fr.callpos = n
        fr.hook = hook
        sn = self.self_name(fn)
        if st is not None and fn.cls is not None and st.id not in TYPES and \
                st.op not in ("ref", "cls") and not fn.is_class:
            TYPES[st.id] = fn.cls.name
        for k, v in bound.items():
            if isinstance(v, Term) and (is_const(v, str) or v.op == "cat"):
                v = self.to_acc(v)
            fr.env[k] = [(TRUE, v)]
            ann = self.ann_class(fn, k)
            if ann and isinstance(v, Term) and v.id not in TYPES and \
                    v.op not in ("const", "ref", "phi"):
                TYPES[v.id] = ann
        self.prepare(fr)
        if fn.is_gen and hook is None:
            fr.bag = self.new_ref("list")
        self.functions.add(fn.qual)
        savepos = self.node_pos
        self.frames.append(fr)
        self.stack.append(fn.qual)
        self.active.append(key)
        if memo:
            self.emit("memo", fn.qual, node=n)
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body)
            self.stack.pop()
            self.active.pop()
            self.frames.pop()
            self.node_pos = savepos
            return v
        self.block(fn.node.body, top=True)
        fall = self.reach
        self.stack.pop()
        self.active.pop()
        self.frames.pop()
        self.node_pos = savepos
        opts, R = [], FALSE
        for g, t, loops in fr.returns:
            g = close_loops(g, loops)
            if g == FALSE:
                continue
            opts.append((g, t))
            R = b_or(R, g)
        if fall != FALSE:
            opts.append((fall, NONE))
            R = b_or(R, fall)
        self.reach = R
        if fr.bag is not None:
            return fr.bag
        if R == FALSE:
            return UNDEF
        if memo and self.share:
            if all(t.op in ("const", "cat", "str", "g") for _, t in opts):
                return self.choose_here(opts)
            return mk("shared", fn.qual, 9)
        return self.choose_here(opts)

    def construct(self, k, args, kw, n):
        q = f"{k.name}.__init__"
        init = k.methods.get("__init__")
        if init is None:
            if any(b and b.split(".")[-1].endswith(("Error", "Exception"))
                   for b in k.bases):
                return mk("call", self.project_name(k), *[
                    self.freeze(a) for a in args])
            r = self.new_ref("inst:" + k.name)
            return r
        if q in self.boundary or k.name == "Sofa":
            bound = self.bind(init, mk("unk", "self"), args, kw)
            fa = tuple((x, self.freeze(v)) for x, v in bound.items()
                       if x != self.self_name(init))
            t = mk("new", k.name, *[mk("kw", x, v) for x, v in fa])
            self.emit("call", q, args=(), kw=fa, node=n, result=t,
                      extra="boundary")
            return t
        if k.bases and any(b and b.split(".")[-1].endswith(
                ("Error", "Exception", "Warning")) for b in k.bases):
            return mk("call", self.project_name(k), *[
                self.freeze(a) for a in args])
        r = self.new_ref("inst:" + k.name)
        self.inline(init, r, args, kw, n)
        return r

    def super_call(self, name, args, kw, n, of=None):
        if of is not None:
            return self.raw_attr(name, of, args, kw, n)
        fr = self.frames[-1]
        st = fr.env.get(self.self_name(fr.fn))
        st = self.read_alts(st) if st else mk("unk", "self")
        return self.raw_attr(name, st, args, kw, n)

    def raw_attr(self, name, st, args, kw, n):
        fa = [self.freeze(a) for a in args]
        if name == "__setattr__" and len(fa) == 2:
            k = self.project.classes.get(typeof(st) or "")
            if fa[0].op == "const" and isinstance(fa[0].args[0], str) and (
                    fa[0].args[0].startswith("_") or k is not None and
                    fa[0].args[0] in k.setters):
                # private state and properties: as any other assignment
                self.set_attr(st, fa[0], args[1], n, "super")
                return NONE
            self.emit("rawset", "super", recv=self.freeze(st), args=fa,
                      node=n, extra=args[1])
            return NONE
        if name == "__delattr__" and len(fa) == 1:
            self.emit("rawdel", "super", recv=self.freeze(st), args=fa,
                      node=n)
            return NONE
        t = mk("meth", name, mk("super", self.freeze(st)), *fa)
        self.emit("call", "super." + name, recv=self.freeze(st), args=fa,
                  kw=[(k, self.freeze(v)) for k, v in kw], node=n, result=t)
        return t

    # builtins and library functions --------------------------------------------
    def call_global(self, d, args, kw, n):
        if d.startswith("builtins."):
            b = d[9:]
            m = getattr(self, "b_" + b, None)
            if m is not None:
                r = m(args, kw, n)
                if r is not None:
                    return r
            if b.split(".")[0] in ("super", "object", "type") and \
                    d.endswith((".__setattr__", ".__delattr__")) and args:
                return self.raw_attr(d.split(".")[-1], args[0], args[1:], kw,
                                     n)
            if b.startswith("str.") and args:
                return self.call_method(args[0], b[4:], args[1:], kw, n)
            if b.startswith("dict.fromkeys"):
                r = self.new_ref("dict")
                for e, g, l in self.sources(args[0]):
                    self.obj(r).parts.append(Part(
                        e, args[1] if len(args) > 1 else NONE,
                        b_and(self.reach, g), tuple(self.loops) + tuple(
                            LoopCtx(x, None, None) for x in l)))
                return r
        if d == "functools.partial" and args:
            return mk("partial", args[0], *args[1:],
                      *[mk("kw", k, v) for k, v in kw])
        if d in ("copy.copy", "copy.deepcopy") and args:
            o = self.obj(self.unalias(args[0]))
            if o is not None and not o.kind.startswith("inst:"):
                return self.copy_coll(args[0], o.kind)
        if d in ("itertools.chain",) and args:
            r = self.new_ref("list")
            for a in args:
                self.extend(r, a, n, silent=True)
            self.fresh_mod(r)
            return r
        if d == "itertools.chain.from_iterable" and len(args) == 1:
            r = self.new_ref("list")
            for e, g, l in self.sources(args[0]):
                with self.under(g):
                    if self.reach != FALSE:
                        self.extend(r, e, n, silent=True)
            self.fresh_mod(r)
            return r
        fa = [self.freeze(a) for a in args]
        fk = [(k, self.freeze(x)) for k, x in kw]
        if d == "os.path.join" and fa and fa[0].op == "call" and \
                fa[0].args[0] == "os.path.join" and not fk:
            fa = list(fa[0].args[1:]) + fa[1:]
        if d == "re.sub" and len(fa) == 3 and not fk:
            t = N.re_sub(*fa)
            if t is not None:
                return t
        t = mk("call", d, *fa, *[mk("kw", k, x) for k, x in fk])
        if d == "builtins.bool":
            return gterm(c_truth(fa[0]))
        self.emit("call", d, args=fa, kw=fk, node=n, result=t)
        return t

    def copy_coll(self, t, kind):
        r = self.new_ref(kind)
        t = self.unalias(t)
        for e, g, l in self.sources(t):
            v = NONE
            if kind == "dict":
                v = self.item_value(t, e)
            self.obj(r).parts.append(Part(
                e, v, b_and(self.reach, g), tuple(self.loops) + tuple(
                    LoopCtx(x, None, None) for x in l)))
        return r

    def b_len(self, args, kw, n):
        if len(args) != 1:
            return None
        t = self.freeze(args[0])
        if t.op == "const":
            try:
                return const(len(t.args[0]))
            except TypeError:
                return None
        if t.op == "tup":
            return const(len(t.args))
        if t.op == "phi":
            return choose([(g, mk("len", x) if x.op != "const" or
                            not isinstance(x.args[0], str) else
                            const(len(x.args[0]))) for g, x in alts(t)])
        if t.op == "bag" and t.args[0] in ("list",) and all(
                p.op == "p" and not N.p_loops(p) and N.p_guard(p) == TRUE
                for p in t.args[1:]):
            return const(len(t.args) - 1)
        if t.op == "cat" and all(
                is_const(p.args[0], str) and not N.p_loops(p)
                and N.p_guard(p) == TRUE for p in t.args):
            return const(sum(len(p.args[0].args[0]) for p in t.args))
        return N.t_len(t)

    def b_isinstance(self, args, kw, n):
        return gterm(c_isinst(self.freeze(args[0]), self.freeze(args[1])))

    def b_issubclass(self, args, kw, n):
        return gterm(atom(mk("truth", mk("call", "builtins.issubclass", *[
            self.freeze(a) for a in args]))))

    def b_hasattr(self, args, kw, n):
        return gterm(self.has_attr(args[0], self.freeze(args[1])))

    def has_attr(self, o, name):
        if o.op == "phi":
            r = FALSE
            for g, x in alts(o):
                r = b_or(r, b_and(g, self.has_attr(x, name)))
            return r
        if name.op == "const" and (o.id, name.args[0]) in self.attrs and \
                self.tracked(o, name.args[0]):
            pass
        return c_has(self.unalias(o), name)

    def b_getattr(self, args, kw, n):
        o, name = args[0], self.freeze(args[1])
        o = self.unalias(o)
        if is_const(name, str):
            v = self.get_attr(o, name.args[0], n)
        else:
            self.emit("getattr", "getattr", recv=self.freeze(o),
                      args=[name], node=n)
            v = t_dyn(self.freeze(o), name)
        if len(args) > 2:
            g = self.has_attr(o, name)
            return self.choose_here([(g, v), (b_not(g), args[2])])
        if is_const(name, str):
            self.emit("getattr", "getattr", recv=self.freeze(o),
                      args=[name], node=n)
        return v

    def b_setattr(self, args, kw, n):
        name = self.freeze(args[1])
        for g, x in alts(name):
            with self.under(g):
                if self.reach != FALSE:
                    self.set_attr(args[0], x, args[2], n, via="setattr")
        return NONE

    def b_delattr(self, args, kw, n):
        for g, x in alts(args[0]):
            with self.under(g):
                if self.reach != FALSE:
                    self.emit("delattr", "delattr", recv=self.freeze(x),
                              args=[self.freeze(args[1])], node=n)
        return NONE

    def b_vars(self, args, kw, n):
        if len(args) == 1:
            return self.get_attr(args[0], "__dict__", n)

    def b_str(self, args, kw, n):
        if not args:
            return const("")
        if len(args) > 1 or kw:
            return None
        t = self.freeze(args[0])
        if t.op in ("phi", "const", "cat", "str"):
            return mk_str(t)
        return mk_str(t)

    def b_list(self, args, kw, n):
        if not args:
            return self.new_ref("list")
        a = args[0]
        return self.wrap(a, "list", n)

    def wrap(self, a, kind, n):
        a = self.unalias(a)
        if a.op in ("ref", "tup", "enum", "zip", "items", "values", "range",
                    "filter", "bag") or a.op == "phi":
            r = self.new_ref(kind)
            for e, g, l in self.sources(a):
                self.obj(r).parts.append(Part(
                    e, NONE, b_and(self.reach, g), tuple(self.loops) + tuple(
                        LoopCtx(x, None, None) for x in l)))
            return r
        return mk("call", "builtins." + kind, self.freeze(a))

    def b_tuple(self, args, kw, n):
        if not args:
            return mk("tup")
        a = self.unalias(args[0])
        ps = self.parts_of(a) if a.op in ("ref", "tup") else None
        if ps is not None and all(not l and g == TRUE
                                  for _, _, g, l in ps):
            return mk("tup", *[p[0] for p in ps])
        return self.wrap(a, "list", n)

    def b_set(self, args, kw, n):
        if not args:
            return self.new_ref("set")
        return self.wrap(args[0], "set", n)

    b_frozenset = b_set

    def parallel(self, colls, srcs):
        """Are the collections derived element by element from the same?"""
        order = set()
        for a in colls:
            o = self.obj(self.unalias(a))
            if o is not None and (o.weak or o.removed or o.kind != "list"):
                return False
            order.add(o.order if o is not None else None)
        return len(order) == 1 and len({tuple(
            (g, tuple(l)) for e, g, l in s) for s in srcs}) == 1

    def key_kw(self, kw, n):
        """kw pairs with 'key' as a function term: lam(symbol, body)."""
        out = []
        for k, v in kw:
            v = self.unalias(v)
            if k == "key" and v is not NONE and (
                    v.op == "glob" or self.resolve_value(v) is not None):
                x = mk("param", "<key>")
                R = self.reach
                body = self.freeze(self.call_value(v, [x], [], n))
                self.reach = R
                out.append((k, mk("lam", x, body)))
            else:
                out.append((k, self.freeze(v)))
        return out

    def b_sorted(self, args, kw, n):
        kw = self.key_kw(kw, n)
        self.emit("reorder", "builtins.sorted", args=[self.freeze(args[0])],
                  node=n)
        r = self.wrap(args[0], "list", n)
        terms = [mk("kw", k, v) for k, v in kw]
        if r.op == "call":
            return mk("call", "builtins.sorted", *r.args[1:], *terms)
        if r.op == "ref":
            self.obj(r).order = tuple(terms)
        return r

    def extremum(self, name, args, kw, n):
        if not any(k == "key" for k, v in kw) or len(args) != 1:
            return None
        return mk("call", name, self.freeze(args[0]),
                  *[mk("kw", k, v) for k, v in self.key_kw(kw, n)])

    def b_max(self, args, kw, n):
        return self.extremum("builtins.max", args, kw, n)

    def b_min(self, args, kw, n):
        return self.extremum("builtins.min", args, kw, n)

    def b_reversed(self, args, kw, n):
        self.emit("reorder", "builtins.reversed",
                  args=[self.freeze(args[0])], node=n)
        return self.wrap(args[0], "list", n)

    def b_iter(self, args, kw, n):
        if len(args) == 1:
            return args[0]

    def b_dict(self, args, kw, n):
        r = self.new_ref("dict")
        if args:
            a = self.unalias(args[0])
            o = self.obj(a)
            if a.op == "zip" and len(a.args) == 2:
                for e, g, l in self.sources(a):
                    self.obj(r).parts.append(Part(
                        t_item(e, const(0)), t_item(e, const(1)),
                        b_and(self.reach, g), tuple(self.loops) + tuple(
                            LoopCtx(x, None, None) for x in l)))
            elif o is not None and o.kind in ("list",):
                for e, g, l in self.sources(a):
                    self.obj(r).parts.append(Part(
                        self.item_value(e, const(0)),
                        self.item_value(e, const(1)),
                        b_and(self.reach, g), tuple(self.loops) + tuple(
                            LoopCtx(x, None, None) for x in l)))
            else:
                r2 = self.copy_coll(a, "dict")
                self.obj(r).parts += self.obj(r2).parts
        for k, v in kw:
            if k != "**":
                self.add_part(r, const(k), v)
        self.fresh_mod(r)
        return r

    def b_enumerate(self, args, kw, n):
        start = args[1] if len(args) > 1 else next(
            (v for k, v in kw if k == "start"), NONE)
        return mk("enum", args[0], start)

    def b_zip(self, args, kw, n):
        if len(args) > 1:
            # stops at the shortest collection unless strict
            self.emit("zip", None, args=[self.freeze(a) for a in args],
                      kw=tuple((k, self.freeze(v)) for k, v in (
                          kw.items() if isinstance(kw, dict) else kw)
                          if isinstance(v, Term)), node=n)
        return mk("zip", *args)

    def b_range(self, args, kw, n):
        return mk("range", *[self.freeze(a) for a in args])

    def b_any(self, args, kw, n):
        return gterm(self.exists_in(args[0], lambda t: c_truth(
            self.freeze(t))))

    def b_all(self, args, kw, n):
        return gterm(b_not(self.exists_in(args[0], lambda t: b_not(c_truth(
            self.freeze(t))))))

    def exists_in(self, it, f):
        r = FALSE
        for e, g, l in self.sources(it):
            r = b_or(r, N.ex_loops(l, b_and(g, f(e))))
        return r

    def b_filter(self, args, kw, n):
        r = self.new_ref("list")
        for e, g, l in self.sources(args[1]):
            c = self.apply_cond(args[0], e, g, l, n)
            self.obj(r).parts.append(Part(
                e, NONE, b_and(self.reach, g, c), tuple(self.loops) + tuple(
                    LoopCtx(x, None, None) for x in l)))
        return r

    def b_map(self, args, kw, n):
        r = self.new_ref("list")
        if len(args) != 2:
            return None
        self.obj(r).lazy = tuple(self.live_term(args[1]))
        for e, g, l in self.sources(args[1]):
            ctx = [LoopCtx(x, None, None) for x in l]
            R = self.reach
            self.loops += ctx
            self.reach = b_and(R, g)
            if self.reach != FALSE:
                v = self.call_value(args[0], [e], [], n)
                if self.reach != FALSE:
                    self.add_part(r, v)
            if ctx:
                del self.loops[-len(ctx):]
            self.reach = R
        self.fresh_mod(r)
        return r

    def apply_cond(self, f, e, g, l, n):
        if f is NONE:
            return c_truth(self.freeze(e))
        ctx = [LoopCtx(x, None, None) for x in l]
        R = self.reach
        self.loops += ctx
        self.reach = b_and(R, g)
        c = FALSE
        if self.reach != FALSE:
            c = c_truth(self.freeze(self.call_value(f, [e], [], n)))
        if ctx:
            del self.loops[-len(ctx):]
        self.reach = R
        return c

    def b_next(self, args, kw, n):
        it = args[0]
        src = self.sources(it)
        opts, rest = [], TRUE
        for e, g, l in src:
            ex = b_and(rest, N.ex_loops(l, g))
            v = self.freeze(e)
            if l:
                v = mk("sel", l[-1], gterm(g), v)
            opts.append((ex, v))
            rest = b_and(rest, b_not(ex))
        if len(args) > 1:
            opts.append((rest, args[1]))
        elif rest != FALSE:
            R = self.reach
            self.reach = b_and(R, rest)
            if self.reach != FALSE:
                self.do_raise(mk("glob", "builtins.StopIteration"), n)
            self.reach = b_and(R, b_not(rest))
        if self.reach == FALSE:
            return UNDEF
        return self.choose_here(opts)

    def b_type(self, args, kw, n):
        if len(args) == 1:
            c = typeof(args[0])
            if c in self.project.classes:
                return mk("cls", self.project_name(self.project.classes[c]))
            return mk("type", self.freeze(args[0]))

    def b_callable(self, args, kw, n):
        return gterm(atom(mk("truth", mk("call", "builtins.callable",
                                         self.freeze(args[0])))))

    def b_format(self, args, kw, n):
        if len(args) == 1:
            return mk_cat(self.str_parts(args[0]))

    def b_sum(self, args, kw, n):
        return None

    # methods --------------------------------------------------------------------
    def call_method(self, recv, name, args, kw, n):
        if recv.op == "phi":
            out, R, Ra = [], self.reach, FALSE
            for g, x in alts(recv):
                self.reach = b_and(R, g)
                if self.reach == FALSE:
                    continue
                out.append((g, self.call_method(x, name, args, kw, n)))
                Ra = b_or(Ra, self.reach)
            self.reach = Ra
            return self.choose_here(out) if Ra != FALSE else UNDEF
        recv = self.unalias(recv)
        if name == "enter_context" and len(args) == 1 and \
                recv.op == "call" and recv.args[0] == "contextlib.ExitStack":
            cm = args[0]
            if cm.op == "call" and cm.args[0] == "contextlib.closing" and \
                    len(cm.args) > 1:
                cm = cm.args[1]
            w = WithCtx(self.freeze(args[0]), self.pos(n))
            self.emit("with", "enter", recv=self.freeze(args[0]), node=n,
                      extra=w.id)
            self.withs.append(w)
            return cm
        ob = self.obj(recv)
        if ob is None and name in MUTATORS and recv.op == "call" and \
                recv.args[0] in FRESH_LISTS and isinstance(
                    n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name):
            # the list gets an identity of its own before it is changed
            nm = n.func.value.id
            f = self.lookup_frame(nm)
            if f is not None and isinstance(f.env.get(nm), list):
                new = self.new_ref("list")
                for e, g, l in self.sources(recv):
                    self.obj(new).parts.append(Part(
                        e, NONE, b_and(self.reach, g),
                        tuple(self.loops) + tuple(
                            LoopCtx(x, None, None) for x in l)))
                f.env[nm] = [(g, new if v is recv else v)
                             for g, v in f.env[nm]]
                recv, ob = new, self.obj(new)
        cls = typeof(recv)
        if ob is not None and ob.kind.startswith("inst:"):
            cls = ob.kind[5:]
        k = self.project.classes.get(cls) if cls else None
        if recv.op == "cls":
            k = self.project.lookup(recv.args[0])[1]
            f = k.methods.get(name)
            if f is not None:
                if not f.is_static and not f.is_class and args:
                    return self.call_func(f, args[0], args[1:], kw, n)
                return self.call_func(f, None, args, kw, n)
        if name in ("__setattr__", "__delattr__") and recv.op in (
                "super", "glob"):
            return self.raw_attr(name, args[0], args[1:], kw, n)
        if k is not None:
            if name in k.methods:
                f = k.methods[name]
                return self.call_func(f, None if f.is_static else recv, args,
                                      kw, n)
            if name in ("__setattr__", "__delattr__"):
                return self.raw_attr(name, recv, args, kw, n)
            if name in k.getters:
                v = self.inline(k.getters[name], recv, [], [], n)
                return self.call_value(v, args, kw, n)
            al = self.attrs.get((recv.id, name))
            if al is not None:
                return self.call_value(self.read_alts(al), args, kw, n)
        elif k is None and name in self.project.unique:
            f = self.project.unique[name]
            return self.call_func(f, None if f.is_static else recv, args, kw,
                                  n)
        if ob is not None and not ob.kind.startswith("inst:"):
            r = self.container_method(recv, ob, name, args, kw, n)
            if r is not None:
                return r
        fa = [self.freeze(a) for a in args]
        fk = [(kk, self.freeze(x)) for kk, x in kw]
        fr = self.freeze(recv)
        if name in ("startswith", "endswith") and len(fa) == 1:
            return gterm(c_starts(fr, fa[0],
                                  "starts" if name == "startswith"
                                  else "ends"))
        if name == "join" and len(args) == 1 and (
                is_strlike(fr) or self.known_str(fr)):
            return self.join(fr, args[0])
        if name == "format" and is_const(fr, str) and not fk:
            return self.str_format(fr.args[0], args)
        if name == "__contains__" and len(fa) == 1:
            return gterm(c_in(fa[0], fr))
        if name in ("items", "values") and not fa:
            return mk(name, recv)
        if name == "get" and 1 <= len(fa) <= 2:
            g = c_in(fa[0], fr)
            return self.choose_here([
                (g, self.item_value(recv, fa[0])),
                (b_not(g), args[1] if len(args) > 1 else NONE)])
        if name == "joinpath" and self.is_path(fr):
            return mk("call", "os.path.join", fr, *fa)
        t = t_meth(name, fr, *fa, *[mk("kw", kk, x) for kk, x in fk])
        if name in PURE_STR and not fk:
            self.use(fr, "." + name, n)
            return t
        kind = "mutate" if name in MUTATORS else "call"
        if kind == "mutate":
            self.emit("mutate", name, recv=fr, args=fa, kw=fk, node=n,
                      result=t, extra=recv)
        self.emit("call", "." + name, recv=fr, args=fa, kw=fk, node=n,
                  result=t)
        return t

    def join(self, sep, it):
        parts = []
        if it.op == "meth" and it.args[0] == "split" and len(it.args) == 3 \
                and is_const(it.args[2], str) and is_const(sep, str):
            return t_meth("replace", it.args[1], it.args[2], sep)
        src = self.sources(it)
        for i, (e, g, l) in enumerate(src):
            for p in self.str_parts(e):
                parts.append(mk("p", p.args[0], p.args[1],
                                gterm(b_and(g, N.p_guard(p))),
                                *l, *N.p_loops(p)))
            if is_const(sep, str) and sep.args[0] == "":
                continue
            if i + 1 < len(src) or l:
                more = TRUE if not l and any(
                    x[1] == TRUE and not x[2] for x in src[i + 1:]) else \
                    atom(mk("truth", mk("more", const(i))))
                for p in cat_parts(sep):
                    parts.append(mk("p", p.args[0], p.args[1],
                                    gterm(b_and(g, more)), *l))
        return mk_cat(parts)

    def str_format(self, s, args):
        import string
        parts = []
        auto = 0
        try:
            for lit, fieldname, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts += cat_parts(const(lit))
                if fieldname is not None:
                    if fieldname == "":
                        a = args[auto]
                        auto += 1
                    elif fieldname.isdigit():
                        a = args[int(fieldname)]
                    else:
                        a = mk("unk", "fmt", fieldname)
                    parts += self.str_parts(a)
            return mk_cat(parts)
        except Exception:
            return mk_cat([P(mk("fmt", const(s), *[
                self.freeze(a) for a in args]))])

    def container_method(self, recv, ob, name, args, kw, n):
        if name in MUTATORS and name not in ("sort", "reverse"):
            ob.order = None
        ident = self.ident(recv)
        fa = [self.freeze(a) for a in args]
        if name in MUTATORS:
            self.emit("mutate", name, recv=recv, args=fa, node=n,
                      extra=ident)
        if ob.kind in ("list", "set") and name in ("append", "add"):
            self.add_part(recv, args[0])
            return NONE
        if ob.kind == "list" and name == "insert" and len(args) == 2:
            self.add_part(recv, args[1])
            return NONE
        if name in ("extend", "update"):
            for a in args:
                self.extend(recv, a, n, silent=True)
            for k, v in kw:
                self.add_part(recv, const(k), v)
            return NONE
        if ob.kind == "dict":
            if name == "setdefault":
                g = c_in(fa[0], self.freeze(recv))
                v = self.item_value(recv, fa[0])
                d = args[1] if len(args) > 1 else NONE
                with self.under(b_not(g)):
                    if self.reach != FALSE:
                        self.add_part(recv, fa[0], d)
                return self.choose_here([(g, v), (b_not(g), d)])
            if name == "pop":
                v = self.item_value(recv, fa[0])
                ob.weak = False
                return v
            if name in ("items", "values"):
                return mk(name, recv)
            if name == "keys":
                return recv
            if name == "get":
                g = c_in(fa[0], self.freeze(recv))
                return self.choose_here([
                    (g, self.item_value(recv, fa[0])),
                    (b_not(g), args[1] if len(args) > 1 else NONE)])
            if name == "copy":
                return self.copy_coll(recv, "dict")
        if name == "copy":
            return self.wrap(recv, ob.kind, n)
        if name in ("remove", "discard"):
            # elements equal to the argument are gone afterwards
            x = fa[0]
            for p in ob.parts:
                pe = p.elem
                if pe is x:
                    p2 = b_and(p.guard, b_not(self.reach))
                    ob.parts[ob.parts.index(p)] = Part(
                        p.elem, p.val, p2, p.loops, p.kind)
            ob.removed = True
            return NONE
        if name == "clear":
            ob.parts = [Part(p.elem, p.val, b_and(p.guard, b_not(self.reach)),
                             p.loops, p.kind) for p in ob.parts]
            return NONE
        if name == "pop":
            ob.removed = True
            t = mk("item", self.freeze(recv), fa[0] if fa else const(-1))
            ob.weak = True
            return t
        if name in ("sort", "reverse"):
            o = self.obj(recv)
            if o is not None and o.kind == "list" and name == "sort":
                o.order = tuple(mk("kw", k, v)
                                for k, v in self.key_kw(kw, n))
            elif o is not None and o.order is not None:
                o.order += (mk("kw", "reversed", const(True)),)
            return NONE
        if name in ("union",):
            r = self.new_ref("set")
            self.extend(r, recv, n, silent=True)
            for a in args:
                self.extend(r, a, n, silent=True)
            return r
        if name in ("difference", "intersection") and len(args) == 1:
            return self.set_filter(recv, args[0], name == "intersection")
        if name in ("issubset", "issuperset", "isdisjoint") and \
                len(args) == 1:
            x, y = self.freeze(recv), self.freeze(args[0])
            if name == "issuperset":
                x, y = y, x
            if x.op == "tup":
                ps = [(e, TRUE, ()) for e in x.args]
            elif x.op == "bag" and all(p.op == "p" for p in x.args[1:]):
                ps = [(p.args[0], N.p_guard(p), N.p_loops(p))
                      for p in x.args[1:]]
            else:
                return None
            bad = FALSE
            for e, g, l in ps:
                m = c_in(e, y)
                bad = b_or(bad, N.ex_loops(l, b_and(
                    g, m if name == "isdisjoint" else b_not(m))))
            return gterm(b_not(bad))
        if name == "symmetric_difference" and len(args) == 1:
            r = self.set_filter(recv, args[0], False)
            self.extend(r, self.set_filter(args[0], recv, False), n,
                        silent=True)
            return r
        if name == "index":
            t = self.freeze(recv)
            o = self.obj(recv)
            if o is not None and o.order is not None:
                t = mk("call", "builtins.sorted", t, *o.order)
            return mk("index", t, fa[0])
        return None

    def extend(self, ref, other, node, silent=False):
        if not silent:
            self.emit("mutate", "extend", recv=ref,
                      args=[self.freeze(other)], node=node,
                      extra=self.ident(ref))
        if other is ref:
            return
        kind = self.obj(ref).kind
        for e, g, l in self.sources(other):
            v = NONE
            if kind == "dict":
                v = self.item_value(other, e)
            self.add_part(ref, e, v, guard=g, loops=tuple(
                LoopCtx(x, None, None) for x in l))


PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "split",
            "rsplit", "count", "find", "rfind", "rindex", "index",
            "removeprefix", "removesuffix", "islower", "isupper", "isdigit",
            "partition", "rpartition", "splitlines", "casefold", "title",
            "capitalize", "keys"}


def close_loops(g, ctxs):
    """Condition seen after leaving the loops: some element satisfies g."""
    for c in reversed(ctxs):
        if c.term is None:
            continue
        if g == FALSE:
            return g
        g = b_and(c.base, c_exists(c.term, constrain(g, c.base)))
    return g


class _Under:
    """Temporarily narrow the reach; effects stay, control rejoins."""

    def __init__(self, it, g):
        self.it, self.g = it, g

    def __enter__(self):
        self.R = self.it.reach
        self.it.reach = b_and(self.R, self.g)

    def __exit__(self, *a):
        rest = b_and(self.R, b_not(self.g))
        self.it.reach = b_or(self.it.reach, rest)


class _Pseudo:
    """Loop context of an unrolled iteration (no loop term)."""

    def __new__(cls, c):
        c.term = None
        return c


IMMUTABLE = ("re.", "os.", "pathlib.", "logging.", "packaging.", "sys.",
             "platform.", "time.", "importlib.", "string.", "frozenset",
             "builtins.frozenset", "operator.", "functools.partial",
             "collections.namedtuple", "typing.", "contextvars.",
             "builtins.str", "builtins.int", "builtins.float",
             "builtins.bool", "builtins.range", "builtins.len",
             "builtins.sum", "builtins.max", "builtins.min",
             "builtins.object", "builtins.type", "numpy.dtype",
             "decimal.", "fractions.", "datetime.", "warnings.")


def mutable_depth(n, m):
    """How many levels of a value are mutable (0: none, 9: unknown)."""
    if isinstance(n, (ast.List, ast.Set)):
        return 1 + max([mutable_depth(x, m) for x in n.elts] or [0])
    if isinstance(n, ast.Dict):
        return 1 + max([mutable_depth(x, m) for x in n.values] or [0])
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        return 1 + mutable_depth(n.elt, m)
    if isinstance(n, ast.DictComp):
        return 1 + mutable_depth(n.value, m)
    if isinstance(n, ast.Tuple):
        return max([mutable_depth(x, m) for x in n.elts] or [0])
    if isinstance(n, ast.BinOp):
        return max(mutable_depth(n.left, m), mutable_depth(n.right, m))
    if isinstance(n, ast.BoolOp):
        return max(mutable_depth(x, m) for x in n.values)
    if isinstance(n, ast.IfExp):
        return max(mutable_depth(n.body, m), mutable_depth(n.orelse, m))
    if isinstance(n, ast.Starred):
        return mutable_depth(n.value, m)
    if isinstance(n, ast.Call):
        d = m.dotted(n.func)
        if d is None:
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "join", "format", "strip", "lower", "upper", "replace",
                    "encode", "decode", "compile", "parent", "resolve",
                    "with_suffix", "joinpath", "absolute"):
                return 0
            return 9
        if d in ("list", "set", "dict", "builtins.list", "builtins.set",
                 "builtins.dict", "collections.OrderedDict",
                 "collections.defaultdict", "collections.deque",
                 "collections.Counter", "sorted", "builtins.sorted"):
            return 1 + max([max(mutable_depth(x, m) - 1, 0)
                            for x in n.args] +
                           [mutable_depth(k.value, m) for k in n.keywords]
                           or [0])
        if d in ("tuple", "builtins.tuple", "types.MappingProxyType",
                 "frozenset", "builtins.frozenset"):
            return max([max(mutable_depth(x, m) - 1, 0)
                        for x in n.args] or [0])
        if ("builtins." + d).startswith(IMMUTABLE) or d.startswith(
                IMMUTABLE):
            return 0
        return 9
    return 0


class _WhileBody:
    def __init__(self, s):
        self.body = [ast.copy_location(ast.If(
            test=s.test, body=s.body, orelse=[]), s)]
        self.lineno = s.lineno
        self.orelse = []


def contains_id(t, i):
    from .terms import subterms
    return any(x.id == i for x in subterms(t))


def appended_parts(cur, new):
    """The parts of a string after the parts of its beginning."""
    k = len(cur)
    if len(new) < k or any(a is not b for a, b in zip(cur[:-1], new)):
        return None
    if k == 0 or cur[-1] is new[k - 1]:
        return list(new[k:])
    a, b = cur[-1], new[k - 1]
    x, y = a.args[0], b.args[0]
    if a.op == b.op == "p" and a.args[1:] == b.args[1:] and is_const(
            x, str) and is_const(y, str) and y.args[0].startswith(x.args[0]):
        return [mk("p", const(y.args[0][len(x.args[0]):]), *b.args[1:])] + \
            list(new[k:])
    return None


def fl_any(g, ls):
    s = N.fl_g(g)
    return any(L in s for L in ls)


FRESH_LISTS = {"glob.glob", "os.listdir"}


def catches(types, name):
    if types is None:
        return True
    if "?" in types or name is None:
        return True
    short = name.split(".")[-1]
    for t in types:
        b = t.split(".")[-1]
        if b in ("Exception", "BaseException"):
            return True
        if b == short:
            return True
        if b in EXC_BASES.get(short, ()):
            return True
    return False


EXC_BASES = {
    "KeyError": {"LookupError"}, "IndexError": {"LookupError"},
    "UnicodeDecodeError": {"ValueError", "UnicodeError"},
    "UnicodeEncodeError": {"ValueError", "UnicodeError"},
    "FileNotFoundError": {"OSError", "IOError"},
    "FileExistsError": {"OSError", "IOError"},
    "PermissionError": {"OSError", "IOError"},
    "ZeroDivisionError": {"ArithmeticError"},
    "NotImplementedError": {"RuntimeError"},
    "RecursionError": {"RuntimeError"},
    "UnboundLocalError": {"NameError"},
    "JSONDecodeError": {"ValueError"},
    "HTTPError": {"RequestException", "OSError"},
    "ConnectionError": {"RequestException", "OSError"},
}


def bound_names(n):
    """Names a single node binds."""
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return [n.id]
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [n.name]
    if isinstance(n, ast.ExceptHandler) and n.name:
        return [n.name]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name.split(".")[0]) for a in n.names]
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        return [n.name]
    return []


def walk_scope(fn):
    """Nodes of a function body without nested scopes."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # only the first iterable is evaluated in this scope; named
            # expressions inside still bind here
            todo.append(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    yield x.target
            continue
        todo += list(ast.iter_child_nodes(n))


def _load(t):
    t2 = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}),
                           t)
    t2.ctx = ast.Load()
    return t2


def pop_to_for(s, it):
    """while x: k = x.pop(); ...   ->  for k in copy of x: ...; x.clear()"""
    t = s.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.comparators[0], ast.Constant) and t.comparators[0].value == 0 \
            and isinstance(t.ops[0], (ast.Gt, ast.NotEq)):
        t = t.left
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
            t.func.id == "len" and len(t.args) == 1:
        t = t.args[0]
    if not isinstance(t, ast.Name) or not s.body:
        return None
    x, st = t.id, s.body[0]
    if not (isinstance(st, ast.Assign) and len(st.targets) == 1
            and isinstance(st.value, ast.Call)
            and isinstance(st.value.func, ast.Attribute)
            and st.value.func.attr in ("pop", "popleft")
            and isinstance(st.value.func.value, ast.Name)
            and st.value.func.value.id == x and not st.value.keywords):
        return None
    if any(isinstance(n, ast.Name) and n.id == x or x in bound_names(n)
           for b in s.body[1:] for n in ast.walk(b)):
        return None
    args = [ast.unparse(a) for a in st.value.args]
    if args not in ([], ["0"], ["-1"]):
        return None
    name = ast.Name(id=x, ctx=ast.Load())
    order = "list" if args == ["0"] or st.value.func.attr == "popleft" \
        else "reversed"
    it_ = ast.Call(func=ast.Name(id="list", ctx=ast.Load()), args=[name],
                   keywords=[])
    if order == "reversed":
        it_ = ast.Call(func=ast.Name(id="reversed", ctx=ast.Load()),
                       args=[it_], keywords=[])
    loop = ast.For(target=st.targets[0], iter=it_,
                   body=s.body[1:] or [ast.Pass()], orelse=s.orelse)
    clear = ast.Expr(ast.Call(func=ast.Attribute(
        value=name, attr="clear", ctx=ast.Load()), args=[], keywords=[]))
    for n in (loop, clear):
        ast.copy_location(n, s)
        ast.fix_missing_locations(n)
    return [loop, clear]


def while_to_for(s, it):
    """i = 0; while i < len(x): ...; i += 1   ->  for i in range(len(x))."""
    f = pop_to_for(s, it)
    if f is not None:
        return f
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1
            and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
            and isinstance(t.left, ast.Name)):
        return None
    i = t.left.id
    b = t.comparators[0]
    def step(st):
        if isinstance(st, ast.AugAssign):
            return isinstance(st.target, ast.Name) and st.target.id == i \
                and isinstance(st.op, ast.Add) and isinstance(
                    st.value, ast.Constant) and st.value.value == 1
        return isinstance(st, ast.Assign) and len(st.targets) == 1 and \
            isinstance(st.targets[0], ast.Name) and st.targets[0].id == i \
            and ast.unparse(st.value) in (f"{i} + 1", f"1 + {i}")
    at = [k for k, st in enumerate(s.body) if step(st)]
    if len(at) != 1:
        return None
    at = at[0]
    for k, st in enumerate(s.body):
        for n in ast.walk(st):
            if k != at and i in bound_names(n):
                return None
            if k < at and isinstance(n, ast.Continue):
                return None
            if k > at and isinstance(n, ast.Name) and n.id == i:
                return None
    f = it.lookup_frame(i)
    al = f.env.get(i) if f else None
    if not al or len([1 for g, v in al if b_and(g, it.reach) != FALSE]) != 1:
        return None
    v = [v for g, v in al if b_and(g, it.reach) != FALSE][0]
    if v is not const(0):
        return None
    loop = ast.For(target=ast.Name(id=i, ctx=ast.Store()),
                   iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()),
                                 args=[b], keywords=[]),
                   body=s.body[:at] + s.body[at + 1:] or [ast.Pass()],
                   orelse=s.orelse)
    ast.copy_location(loop, s)
    ast.fix_missing_locations(loop)
    return [loop]
