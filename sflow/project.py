"""Parse the current sofar sources and resolve names across modules."""
import ast
import os
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__",
                                 "__package__", "__spec__", "__path__",
                                 "__class__"}


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, parse error)."""


class Func:
    def __init__(self, name, node, mod, cls=None, outer=None):
        self.name, self.node, self.mod, self.cls = name, node, mod, cls
        self.outer = outer
        self.qual = f"{mod.name}." + (f"{cls.name}." if cls else "") + name
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(mod.dotted(d) or ast.unparse(d))
        self.is_static = "builtins.staticmethod" in self.decorators
        self.is_class = "builtins.classmethod" in self.decorators
        self.is_property = "builtins.property" in self.decorators or any(
            d.endswith("cached_property") for d in self.decorators)
        self.setter_of = None
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Attribute) and d.attr in (
                    "setter", "deleter") and isinstance(d.value, ast.Name):
                self.setter_of = (d.value.id, d.attr)
        self.is_cm = any(d in ("contextlib.contextmanager",
                               "contextlib.asynccontextmanager")
                         for d in self.decorators)
        self.is_gen = has_yield(node)

    def __repr__(self):
        return f"<Func {self.qual}>"


def has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.getters, self.setters = {}, {}, {}
        self.attrs = {}
        self.bases = [mod.dotted(b) for b in node.bases]
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, st, mod, self)
                if f.setter_of:
                    if f.setter_of[1] == "setter":
                        self.setters[f.setter_of[0]] = f
                elif f.is_property:
                    self.getters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
        # aliases such as  list_dims = property(_get)
        for n, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[n] = self.methods[v.id]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == "property":
                for fld, a in zip(("getters", "setters"), v.args):
                    if isinstance(a, ast.Name) and a.id in self.methods:
                        getattr(self, fld)[n] = self.methods[a.id]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == "staticmethod" and v.args and \
                    isinstance(v.args[0], ast.Name):
                tgt = mod.funcs.get(v.args[0].id)
                if tgt is not None:
                    f = Func(n, tgt.node, mod, self)
                    f.is_static = True
                    self.methods[n] = f

    def all_funcs(self):
        return (list(self.methods.values()) + list(self.getters.values())
                + list(self.setters.values()))


class Module:
    def __init__(self, name, path, src, is_pkg, project):
        self.name, self.path, self.src = name, path, src
        self.project, self.is_pkg = project, is_pkg
        try:
            self.tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisError(f"{path} does not parse: {e}")
        self.imports = {}      # local name -> dotted
        self.funcs, self.classes, self.globals = {}, {}, {}
        self.top_names = set()
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        r = a.name.split(".")[0]
                        self.imports[r] = r
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(st)
                for a in st.names:
                    if a.name == "*":
                        self.imports.setdefault("*", [])
                        self.imports["*"].append(base)
                    else:
                        self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(st.name, st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.globals[n.id] = \
                                st.value if n is t else None
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = st.value
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = None
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For,
                                 ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan(getattr(st, f, []))
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            self.globals[n.id] = None
                if isinstance(st, ast.With):
                    for it in st.items:
                        if it.optional_vars is not None:
                            for n in ast.walk(it.optional_vars):
                                if isinstance(n, ast.Name):
                                    self.globals[n.id] = None

    def _rel(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        return ".".join(parts + ([st.module] if st.module else []))

    def resolve(self, name):
        """Dotted meaning of a module level name, or None if undefined."""
        if name in self.funcs or name in self.classes or name in self.globals:
            return f"{self.name}.{name}"
        if name in self.imports:
            return self.imports[name]
        if "*" in self.imports:
            for b in self.imports["*"]:
                m = self.project.modules.get(b)
                if m and m.resolve(name) and not name.startswith("_"):
                    return f"{b}.{name}"
                if m is None:
                    return f"{b}.{name}"
        if name in BUILTINS:
            return f"builtins.{name}"
        return None

    def dotted(self, node):
        if isinstance(node, ast.Name):
            return self.resolve(node.id)
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value)
            return f"{b}.{node.attr}" if b else None
        if isinstance(node, ast.Call):
            return self.dotted(node.func)
        return None


class Project:
    """All modules of the package at ``root/package``."""

    def __init__(self, root="/repo", package="sofar"):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base} does not exist")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in (
                "sofa_conventions", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                pkg = f == "__init__.py"
                if pkg:
                    rel = rel[:-len(".__init__")]
                with open(p, encoding="utf-8") as fid:
                    src = fid.read()
                self.modules[rel] = None, p, src, pkg
        raw, self.modules = self.modules, {}
        for name, (_, p, src, pkg) in raw.items():
            self.modules[name] = Module(name, p, src, pkg, self)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.name] = c
        # methods that only one class defines, for receivers of unknown type
        self.unique = {}
        cnt = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                cnt.setdefault(n, []).append(f)
        for n, fs in cnt.items():
            if len(fs) == 1 and n.startswith("_") and not n.startswith("__"):
                self.unique[n] = fs[0]

    @classmethod
    def from_sources(cls, sources, package="sofar"):
        """Build from {module name: source} (self test variants)."""
        p = cls.__new__(cls)
        p.root, p.package, p.modules = "<memory>", package, {}
        for name, (path, src, pkg) in sources.items():
            p.modules[name] = Module(name, path, src, pkg, p)
        p.classes = {}
        for m in p.modules.values():
            for c in m.classes.values():
                p.classes[c.name] = c
        p.unique = {}
        cnt = {}
        for c in p.classes.values():
            for n, f in c.methods.items():
                cnt.setdefault(n, []).append(f)
        for n, fs in cnt.items():
            if len(fs) == 1 and n.startswith("_") and not n.startswith("__"):
                p.unique[n] = fs[0]
        return p

    def sources(self):
        return {m.name: (m.path, m.src, m.is_pkg)
                for m in self.modules.values()}

    def canon(self, dotted, seen=None):
        """Follow re-exports: sofar.Sofa -> sofar.sofa.Sofa."""
        seen = seen or set()
        if dotted in seen:
            return dotted
        seen.add(dotted)
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if not rest:
                # a package attribute may shadow its own submodule
                par = self.modules.get(".".join(parts[:-1]))
                if par is not None and par.is_pkg:
                    r = par.imports.get(parts[-1])
                    if r and r != dotted:
                        return self.canon(r, seen)
                return dotted
            n = rest[0]
            if n in m.funcs or n in m.classes or n in m.globals:
                return dotted
            r = m.resolve(n) if (n in m.imports or "*" in m.imports) else None
            if r and r != dotted:
                return self.canon(".".join([r] + rest[1:]), seen)
            return dotted
        return dotted

    def lookup(self, dotted):
        """('func'|'class'|'global'|'module'|None, object)."""
        d = self.canon(dotted)
        if d in self.modules:
            return "module", self.modules[d]
        head, _, n = d.rpartition(".")
        m = self.modules.get(head)
        if m:
            if n in m.funcs:
                return "func", m.funcs[n]
            if n in m.classes:
                return "class", m.classes[n]
            if n in m.globals:
                return "global", (m, n)
            return "missing", (m, n)
        h2, _, c = head.rpartition(".")
        m = self.modules.get(h2)
        if m and c in m.classes:
            k = m.classes[c]
            if n in k.methods:
                return "func", k.methods[n]
            if n in k.getters:
                return "func", k.getters[n]
            if n in k.attrs:
                return "classattr", (k, n)
        return None, None

    def public(self, name):
        """A public anchor: function or class exported by the package."""
        kind, obj = self.lookup(f"{self.package}.{name}")
        if kind not in ("func", "class"):
            raise AnalysisError(f"public name sofar.{name} has vanished")
        return obj

    def method(self, cls, name):
        c = self.public(cls)
        for tab in (c.methods, c.getters):
            if name in tab:
                return tab[name]
        raise AnalysisError(f"method sofar.{cls}.{name} has vanished")

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.all_funcs()
