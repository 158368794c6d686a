"""C02: writing stores every entry of the object in the file."""
from .base import *
from .effects import dataset
from .values import *

RULE = ("must-effect dataflow for an arbitrary entry: under the reference "
        "condition (global attribute, double variable, string variable, "
        "attribute of a variable, dimension) the union of the conditions of "
        "the matching store events covers every path that does not raise; "
        "names, dimensions and values of each store event are traced back "
        "to exactly that entry through value preserving operations only, "
        "and nothing else is stored")
ASSUME = ["names and types of entries are as verification leaves them: "
          "GLOBAL_ entries are attributes, attributes carry the name of "
          "their variable and an underscore, types are attribute, double or "
          "string", "netCDF4 stores what it is given"]

LOSSLESS = {"zlib", "complevel", "compression", "shuffle", "fletcher32",
            "contiguous", "chunksizes", "endian", "fill_value", "chunk_cache",
            "dimensions", "datatype", "varname", "size", "dimname",
            "blosc_shuffle", "szip_coding", "szip_pixels_per_block"}
DS_METHODS = {".createDimension", ".createVariable", ".setncattr",
              ".setncatts", ".setncattr_string", ".sync", ".close", ".isopen",
              ".filepath", ".ncattrs", ".__enter__", ".__exit__",
              ".set_fill_off", ".set_fill_on", ".getncattr"}
S1 = {"S1", "c", "|S1"}


def check(c):
    fn = c.func("write_sofa")
    I = c.run(fn)
    so = sofa_param(fn)
    T = mk("attr", so, "__dict__")
    ds = [e for e in I.events if e.kind == "call" and dataset(e.result)]
    c.need(len(ds), "opened data sets")
    raises = [e for e in ev(I, ("raise", "assert"))]
    K = mk("elem", mk("loop", T, 0))
    K2 = mk("elem", mk("loop", T, 1))
    typ = t_item(t_item(mk("attr", so, "_convention"), K), const("type"))
    typ2 = t_item(t_item(mk("attr", so, "_convention"), K2), const("type"))
    private = N.c_starts(K, const("_"))
    glob = N.c_starts(K, const("GLOBAL_"))
    env = dict(c=c, I=I, so=so, T=T, K=K, K2=K2, raises=raises)

    stores(c, env, dims, [
        ("dimension", TRUE)], "dimensions")
    G = b_and(b_not(private), glob, c_eq(typ, const("attribute")))
    stores(c, env, global_attrs, [("global attribute", G)],
           "global attributes")
    for kind in ("double", "string"):
        V = b_and(b_not(private), b_not(glob), c_eq(typ, const(kind)))
        stores(c, env, lambda e: variables(e, kind),
               [(f"{kind} variable", V)], f"{kind} variables")
        stores(c, env, lambda e: values(e, kind),
               [(f"values of {kind} variable", V)],
               f"{kind} values")
        A = b_and(V, b_not(N.c_starts(K2, const("_"))),
                  b_not(N.c_starts(K2, const("GLOBAL_"))),
                  c_eq(typ2, const("attribute")))
        tests = spec_tests(c, K, K2)
        for t in tests:
            if sat(b_and(A, t)):
                A = b_and(A, t)
        stores(c, env, lambda e: var_attrs(e, kind),
               [(f"attribute of {kind} variable", A)],
               f"attributes of {kind} variables")
    other_effects(c, env)
    only_attributes(c, env)
    string_length(c)
    orphans(c, env)


def sofa_param(fn):
    for x in fn.node.args.args:
        t = mk("param", x.arg)
        if x.arg == "sofa":
            return t
    return mk("param", fn.node.args.args[1].arg)


def spec_tests(c, K, K2):
    """Equivalent ways to say that K2 is an attribute of variable K."""
    out = []
    for s in ("a.startswith(v + '_')", "a.rsplit('_', 1)[0] == v",
              "a.rpartition('_')[0] == v", "a[:a.rindex('_')] == v",
              "a[:a.rfind('_')] == v", "a[:len(v) + 1] == v + '_'",
              "a[:len(v + '_')] == v + '_'", "'_' in a",
              "not v.startswith(a)", "a != v", "not a == v + '_'"):
        out.append(spec(c, s, a=K2, v=K))
    return out


def stores(c, env, match, specs, what):
    """Union of the conditions of matching events covers the spec."""
    I, K, K2 = env["I"], env["K"], env["K2"]
    union = FALSE
    reasons = []
    places = []
    n = 0
    for e in I.events:
        m = match(dict(env, e=e, reasons=reasons))
        if m is None:
            continue
        n += 1
        r = absorbed(I, e, I.normal)
        if r:
            reasons.append("a failing store is hidden: " + r)
            continue
        if e.final or e.handler:
            continue
        union = b_or(union, m)
        places.append(e)
    for label, S in specs:
        S0 = S
        rest = b_and(S, b_not(union))
        if sat(rest):
            for x in env["raises"]:
                g = renamed(env, x)
                rest = b_and(rest, b_not(g))
            for x in unread(env):
                rest = b_and(rest, b_not(x))
        ok = not sat(rest)
        c.ob("every-entry-stored", label, ok,
             f"{label} entries are not stored "
             + ("at all" if union == FALSE else
                "when " + why(relevant(rest, S0)))
             + ("; " + "; ".join(dict.fromkeys(reasons)) if reasons else ""),
             places[0].where() if places else
             fwhere(c.func("write_sofa")))
    c.notes.append(f"{what}: {n} store events")


def relevant(rest, S):
    r = constrain(rest, S)
    return r if r not in (TRUE, FALSE) else rest


def unread(env):
    """Entries without a convention entry or dimensions raise KeyError."""
    return ()


def renamed(env, e):
    """Guard of e over the canonical entry, for loops over the entries."""
    m = {}
    es = keyed(e, env["so"])
    for E, K in zip(es, (env["K"], env["K2"])):
        if E is not K:
            m[E] = K
    return N.subst_g(e.guard, m) if m else e.guard


def entry_loops(env, e, n):
    es = keyed(e, env["so"])
    return es if len(es) == n and all(
        L.args[0] is env["T"] for L in e.loops) else None


def attr_store(e):
    """[(holder, name, value)] an event stores as attribute."""
    if e.kind == "setattr":
        return e.recv, e.args[0], e.args[1]
    if e.kind == "call" and e.name in (".setncattr", ".setncattr_string"):
        return e.recv, e.arg(0, "name"), e.arg(1, "value")
    if e.kind == "call" and e.name == ".__setattr__":
        return e.recv, e.arg(0), e.arg(1)
    return None


def dims(env):
    e = env["e"]
    if e.kind != "call" or e.name != ".createDimension" or \
            not dataset(e.recv):
        return None
    api = mk("attr", env["so"], "_api")
    D = next((mk("elem", L) for L in e.loops if L.args[0] is api), None)
    name, size = e.arg(0, "dimname"), e.arg(1, "size")
    if D is None or len(e.loops) != 1:
        env["reasons"].append("a dimension is created outside a loop over "
                              "all dimensions")
        return None
    if strip_str(name) is not D:
        env["reasons"].append(f"the dimension is named {show(name)}")
        return None
    want = t_item(api, D)
    if size is None or not (size is want or (
            size.op == "call" and size.args[0] == "builtins.int" and
            size.args[1] is want)):
        env["reasons"].append("the dimension has size "
                              + (show(size) if size is not None else "?"))
        return None
    return e.guard


def text_of(env, k, v, e):
    vals = entry_value(env["so"], k)
    p = Prov(lambda t: t in vals, text=True)
    if p.ok(v, e.guard):
        return True
    env["reasons"].append(f"the stored text is {p.why}")
    return False


def global_attrs(env):
    e = env["e"]
    st = attr_store(e)
    if st is None or not dataset(st[0]):
        return None
    es = entry_loops(env, e, 1)
    if es is None:
        env["reasons"].append("global attribute stored outside a loop over "
                              "all entries")
        return None
    k = es[0]
    if not global_name(st[1], k):
        env["reasons"].append(f"it is stored as {show(st[1])}")
        return None
    if not entails(e.guard, N.c_starts(k, const("GLOBAL_"))):
        env["reasons"].append("names without GLOBAL_ are stored as global "
                              "attributes")
        return None
    if not text_of(env, k, st[2], e):
        return None
    return renamed(env, e)


def made_var(t, env, k, kind, g, reasons):
    """t is the result of createVariable for entry k; condition or None."""
    out = FALSE
    for ag, x in alts(t):
        if not sat(b_and(g, ag)):
            continue
        if x.op == "item" and x.args[0].op == "attr" and \
                x.args[0].args[1] == "variables" and \
                dataset(x.args[0].args[0]):
            if not netcdf_name(x.args[1], k, b_and(g, ag)):
                return None
            out = b_or(out, ag)
            continue
        if x.op == "item" and dataset(x.args[0]):
            if not netcdf_name(x.args[1], k, b_and(g, ag)):
                return None
            out = b_or(out, ag)
            continue
        if x.op != "meth" or x.args[0] != "createVariable" or \
                not dataset(x.args[1]):
            return None
        pos, kw = kwargs(mk("m", *x.args))
        if not good_var(pos[1:], kw, env, k, kind, b_and(g, ag), reasons):
            return None
        out = b_or(out, ag)
    return out


def good_var(pos, kw, env, k, kind, g, reasons):
    def get(i, n):
        return pos[i] if i < len(pos) else kw.get(n)
    name, dt, dm = get(0, "varname"), get(1, "datatype"), get(2, "dimensions")
    if name is None or not netcdf_name(name, k, g):
        reasons.append(f"the variable is named {show(name)}")
        return False
    bad = [n for n in kw if n not in LOSSLESS] + (
        ["more positional arguments"] if len(pos) > 5 else [])
    bad = [n for n in bad if not (n in kw and kw[n] in (NONE, const(False)))]
    if bad:
        reasons.append("the variable is created with " + ", ".join(bad))
        return False
    want = t_item(mk("attr", env["so"], "_dimensions"), k)
    if dm is None or not dims_of(dm, want):
        reasons.append("its dimensions are "
                       + (show(dm) if dm is not None else "missing"))
        return False
    for ag, x in alts(dt):
        if not sat(b_and(g, ag)):
            continue
        ok = is_double_type(x) if kind == "double" else (
            x.op == "const" and x.args[0] in S1)
        if not ok:
            reasons.append(f"a {kind} variable is stored as {show(x)}")
            return False
    return True


def dims_of(t, want):
    t2 = strip_str(t)
    if t2 is want:
        return True
    return t.op == "bag" and len(t.args) == 2 and len(
        t.args[1].args) == 4 and t.args[1].args[0].op == "elem" and \
        t.args[1].args[0].args[0] is t.args[1].args[3] and \
        t.args[1].args[3].args[0] is want and \
        t.args[1].args[2] is const(True)


def kind_guard(env, k, kind):
    typ = t_item(t_item(mk("attr", env["so"], "_convention"), k),
                 const("type"))
    return c_eq(typ, const(kind))


def variables(env, kind):
    e = env["e"]
    if e.kind != "call" or e.name != ".createVariable" or \
            not dataset(e.recv):
        return None
    es = entry_loops(env, e, 1)
    if es is None:
        env["reasons"].append("variable created outside a loop over all "
                              "entries")
        return None
    k = es[0]
    kg = kind_guard(env, k, kind)
    if not sat(b_and(e.guard, kg)):
        return None
    if not good_var(list(e.args), dict(e.kw), env, k, kind,
                    b_and(e.guard, kg), env["reasons"]):
        return None
    return renamed(env, e)


def values(env, kind):
    e = env["e"]
    if e.kind != "setitem":
        return None
    es = keyed(e, env["so"])
    if len(es) != 1 or any(L.args[0] is not env["T"] for L in e.loops):
        return None
    k = es[0]
    kg = b_and(e.guard, kind_guard(env, k, kind))
    if not sat(kg):
        return None
    m = made_var(e.recv, env, k, kind, kg, env["reasons"])
    if m is None:
        return None
    if not full_slice(e.args[0]):
        env["reasons"].append(f"only {show(e.args[0])} is assigned")
        return None
    vals = entry_value(env["so"], k)
    S = mk("item", mk("attr", env["so"], "_api"), const("S"))
    p = Prov(lambda t: t in vals, text=kind == "string",
             width=lambda t: strip_str(t) is S)
    if not p.ok(e.args[1], kg):
        env["reasons"].append(f"the assigned value is not the entry's: "
                              f"{p.why}")
        return None
    return b_and(renamed(env, e), m)


def var_attrs(env, kind):
    e = env["e"]
    st = attr_store(e)
    if st is None or dataset(st[0]):
        return None
    es = keyed(e, env["so"])
    if len(es) != 2 or any(L.args[0] is not env["T"] for L in e.loops):
        return None
    # the outer loop usually runs over the variables
    for k, a in ((es[0], es[1]), (es[1], es[0])):
        kg = b_and(e.guard, kind_guard(env, k, kind))
        if not sat(kg):
            continue
        m = made_var(st[0], env, k, kind, kg, [])
        if m is None:
            continue
        if not attr_name(st[1], a, k):
            env["reasons"].append(f"it is stored as {show(st[1])}")
            return None
        if not any(entails(e.guard, t) for t in spec_tests(
                env["c"], k, a)[:7]):
            env["reasons"].append("attributes are stored with variables "
                                  "they do not belong to")
            return None
        if not text_of(env, a, st[2], e):
            return None
        mm = {}
        if k is not env["K"]:
            mm[k] = env["K"]
        if a is not env["K2"]:
            mm[a] = env["K2"]
        g = b_and(e.guard, m)
        return N.subst_g(g, mm) if mm else g
    return None


def other_effects(c, env):
    """Nothing else is stored or changed in the file."""
    I = env["I"]
    n = 0
    for e in I.events:
        env2 = dict(env, e=e, reasons=[])
        r = e.recv
        if r is None:
            continue
        made = from_dataset(r)
        if not made:
            continue
        n += 1
        if e.kind in ("setattr", "delattr", "setitem", "delitem") or (
                e.kind == "call" and e.name in (
                    ".setncattr", ".setncattr_string")):
            ok = e.kind in ("setattr", "setitem", "call") and (
                global_attrs(env2) is not None or
                any(values(env2, k) is not None or
                    var_attrs(env2, k) is not None
                    for k in ("double", "string")))
            c.ob("nothing-else-stored", f"{e.pos[2]}:{e.kind}", ok,
                 "the file is changed by something that is not an entry of "
                 "the object: " + ("; ".join(env2["reasons"]) or
                                   f"{show(e.args[0])}"), e.where())
        elif e.kind == "call":
            ok = e.name in DS_METHODS or e.name.startswith(
                (".get_", ".set_always_mask"))
            if e.name == ".createVariable":
                ok = any(variables(env2, k) is not None
                         for k in ("double", "string"))
            elif e.name == ".createDimension":
                ok = dims(env2) is not None
            c.ob("nothing-else-stored", f"{e.pos[2]}:{e.name}", ok,
                 f"{e.name} changes what is stored: "
                 + "; ".join(env2["reasons"]), e.where())
    c.need(n, "operations on the file", 4)


def only_attributes(c, env):
    """What is stored as attribute of a variable is an attribute.

    Names of variables can start with the name of another variable and an
    underscore (Data_IR next to a custom variable called Data)."""
    for e in env["I"].events:
        st = attr_store(e)
        if st is None or dataset(st[0]) or not from_dataset(st[0]):
            continue
        es = keyed(e, env["so"])
        if len(es) != 2:
            continue
        for k, a in ((es[0], es[1]), (es[1], es[0])):
            if not attr_name(st[1], a, k):
                continue
            for kind in ("double", "string"):
                bad = b_and(e.guard, kind_guard(env, a, kind),
                            b_not(kind_guard(env, a, "attribute")))
                c.ob("attributes-are-attributes", f"{e.pos[2]}:{kind}",
                     not sat(bad),
                     f"a {kind} variable whose name starts with the name of "
                     "another variable and an underscore is stored as text, "
                     "as an attribute of that variable", e.where())
            break


def from_dataset(t):
    if dataset(t):
        return True
    if t.op == "phi":
        return any(from_dataset(x) for _, x in alts(t))
    if t.op == "meth" and t.args[0] == "createVariable":
        return dataset(t.args[1])
    if t.op == "item":
        o = t.args[0]
        return dataset(o) or (o.op == "attr" and o.args[1] == "variables"
                              and dataset(o.args[0]))
    return False


def string_length(c):
    """The length of string dimension S covers every string."""
    I = c.run("Sofa.verify", {"issue_handling": const("raise")})
    me = mk("param", "self")
    api = mk("attr", me, "_api")
    n = 0
    for e in I.events:
        if e.kind != "setitem" or not (
                e.recv is api and e.args[0] is const("S")):
            continue
        n += 1
        bad = grows(e.args[1], I)
        c.ob("string-length", f"{e.pos[2]}:S", bad is None,
             f"the length of strings is not the maximum over all string "
             f"variables: {bad}", e.where())
    if not n:
        c.notes.append("string length computed in another form")


def grows(t, I, depth=0):
    """None if t is a running maximum over encoded string lengths."""
    if depth > 40:
        return "too deep"
    if t.op == "phi":
        for _, x in alts(t):
            r = grows(x, I, depth + 1)
            if r:
                return r
        return None
    if t.op == "const" and t.args[0] == 0:
        return None
    if t.op == "carry":
        return None
    if t.op == "fold":
        return grows(t.args[2], I, depth + 1) or body_grows(
            t.args[3], t, I, depth + 1)
    if maxcall(t):
        return None
    return f"{show(t, 4)}"


def maxcall(t):
    return t.op == "call" and t.args[0] in (
        "builtins.max", "numpy.max", "numpy.maximum", "numpy.amax")


def body_grows(b, f, I, depth):
    if b.op == "phi":
        for _, x in alts(b):
            r = body_grows(x, f, I, depth + 1)
            if r:
                return r
        return None
    if b.op == "carry":
        return None
    if b.op == "fold":
        return body_grows(b.args[3], b, I, depth + 1)
    if maxcall(b):
        if any(s.op == "carry" for s in subterms(b)):
            return None
        return "the maximum of earlier variables is dropped"
    return f"{show(b, 4)} replaces the maximum of earlier variables"


def orphans(c, env):
    """Attributes whose variable is not in the object."""
    I, K = env["I"], env["K"]
    # such an entry must be rejected by verification; the name check of
    # verify looks for the variable in the convention, not in the object
    V = c.run("Sofa.verify", {"issue_handling": const("raise")})
    me = mk("param", "self")
    D = mk("attr", me, "__dict__")
    A = mk("elem", mk("loop", D, 0))
    typ = t_item(t_item(mk("attr", me, "_convention"), A), const("type"))
    owner = FALSE
    for s in ("a[:a.rindex('_')]", "a.rsplit('_', 1)[0]",
              "a.rpartition('_')[0]"):
        t = spec(c, s, False, a=A)
        owner = b_or(owner, c_in(t, D), c_has(me, t))
    ok = any(support_has(x.guard, owner) for x in ev(V, ("raise",))) or \
        support_has(V.normal, owner)
    c.ob("attribute-without-variable", "orphan-attribute", ok,
         "an attribute whose variable is part of the convention but not of "
         "the object passes verification and is not stored",
         fwhere(c.func("write_sofa")))


def c_has(o, n):
    return N.c_has(o, n)


def support_has(g, o):
    s = {a.id for a in support(o)}

    def inner(n, seen):
        for a in support(n):
            if a.id in s:
                return True
            for x in subterms(a):
                if x.op == "g" and x.args[0] not in seen:
                    seen.add(x.args[0])
                    if inner(x.args[0], seen):
                        return True
        return False
    return inner(g, set())
