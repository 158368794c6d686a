"""Where a value comes from: chains of value preserving operations."""
from .base import *

# texts for the abstract evaluation of names: V and X are names without '_'
# and '.', A is the name of an attribute, ANY is any text
SV = mk("sym", "V", "_.", ("Data", "GLOBAL"))
SX = mk("sym", "X", "_.", ())
SA = mk("sym", "A", "_.", ())
ANY = mk("sym", "N", "", ())


def cat(*ps):
    return N.mk_cat([N.P(const(p) if isinstance(p, str) else p)
                     for p in ps])


def gives(t, pairs, g=TRUE):
    """Is the value of name term t as listed in [({term: name}, result)],
    where condition g holds?"""
    for m, want in pairs:
        if g != TRUE and not sat(N.subst_g(g, m)):
            continue
        r = strip_str(N.subst(t, {k.id: v for k, v in m.items()}))
        if r is not want and not all(strip_str(x) is want
                                     for _, x in alts(r)):
            return False
    return True


# numpy and builtin functions that keep every value of their first argument
SAME = {"numpy.asarray", "numpy.array", "numpy.atleast_1d",
        "numpy.atleast_2d", "numpy.atleast_3d", "numpy.ascontiguousarray",
        "numpy.asanyarray", "numpy.copy", "copy.copy", "copy.deepcopy",
        "numpy.ma.asarray", "numpy.ma.getdata"}
SAME_METH = {"copy", "__copy__", "__deepcopy__"}
SHAPED = {"expand_dims", "reshape", "squeeze"}
DOUBLE = {"float64", "f8", "<f8", "=f8", "d", "double", "float",
          "numpy.float64", "numpy.double", "builtins.float", "float_",
          "numpy.float_"}


def is_double_type(t):
    if t.op == "const":
        return t.args[0] in DOUBLE
    if t.op in ("glob", "cls"):
        return t.args[0] in DOUBLE
    if t.op == "call" and t.args[0] == "numpy.dtype" and len(t.args) == 2:
        return is_double_type(t.args[1])
    return False


def kwargs(t):
    """Positional and keyword arguments of a call or method term."""
    pos, kw = [], {}
    for a in t.args[1:]:
        if isinstance(a, Term) and a.op == "kw":
            kw[a.args[0] if isinstance(a.args[0], str)
               else a.args[0].args[0]] = a.args[1]
        else:
            pos.append(a)
    return pos, kw


def trailing_axes(idx):
    """x[..., None], x[:], x[...], x[()]"""
    parts = idx.args if idx.op == "tup" else (idx,)
    for p in parts:
        if p.op == "const" and p.args[0] is Ellipsis:
            continue
        if full_slice(p) and p is parts[0] or p is const(()):
            continue
        if (p is NONE or p is mk("glob", "numpy.newaxis")) and p is not \
                parts[0]:
            continue
        return False
    return True


def trailing_shape(op, x, pos, kw):
    """Does the reshaping only add or remove single axes at the end?"""
    if op in ("squeeze", "expand_dims"):
        a = kw.get("axis") or (pos[0] if pos else None)
        return a is not None and (a is const(-1) or (
            a.op == "attr" and a.args[1] == "ndim"))
    a = kw.get("newshape") or kw.get("shape") or (pos[0] if pos else None)
    if len(pos) > 1 or a is None:
        return False
    if is_shape(a):
        return True
    if a.op == "tup" and a.args and a.args[0].op == "star" and is_shape(
            a.args[0].args[0]):
        return ones(mk("tup", *a.args[1:]))
    if a.op == "bag" and len(a.args) > 2:
        # (*x.shape, 1): the items of the shape are spliced in
        head, tail = a.args[1], [
            p.args[0] if p.op == "p" and N.p_guard(p) == TRUE and not
            N.p_loops(p) else NONE for p in a.args[2:]]
        return spliced(head) and ones(mk("tup", *tail))
    return a.op == "bin" and a.args[0] == "Add" and is_shape(a.args[1]) \
        and ones(a.args[2])


def spliced(p):
    if p.op in ("u", "star"):
        return is_shape(p.args[0])
    return p.op == "p" and p.args[0].op == "elem" and N.p_guard(p) == TRUE \
        and N.p_loops(p) == (p.args[0].args[0],) and is_shape(
            p.args[0].args[0].args[0])


def is_shape(t):
    if t.op == "phi":
        return all(is_shape(x) for _, x in alts(t))
    return t.op == "attr" and t.args[1] == "shape"


def ones(t):
    if t.op == "const" and t.args[0] == (-1,) or t.op in (
            "tup", "bag") and t.args[-1:] == (const(-1),) and len(
                t.args) == 1 + (t.op == "bag"):
        return True         # the characters of strings
    if t.op == "bin" and t.args[0] == "Mult":
        return any(ones(x) for x in t.args[1:])
    if t.op == "const":
        v = t.args[0]
        return isinstance(v, (tuple, list)) and all(x == 1 for x in v)
    return t.op in ("tup", "bag") and all(x is const(1) for x in t.args)


def full_slice(p):
    return p.op == "slice" and all(a is NONE for a in p.args) or (
        p.op == "const" and p.args[0] in (Ellipsis, ()))


class Prov:
    """Does a term hold exactly the values of a base term?

    text: the values are text (utf-8 encoding and decoding allowed);
    width: predicate for the fixed length of strings."""

    def __init__(self, base, text=False, width=None, single=True):
        self.base, self.text, self.width = base, text, width
        self.why = None

    def fail(self, t, reason=None):
        if self.why is None:
            self.why = reason or f"{show(t, 4)}"
        return False

    def ok(self, t, g=TRUE, depth=0):
        if depth > 60:
            return self.fail(t, "too deep")
        if self.base(t):
            return True
        d = depth + 1
        if t.op == "phi":
            for ag, x in alts(t):
                gg = b_and(g, ag)
                if gg != FALSE and sat(gg) and not self.ok(x, gg, d):
                    return False
            return True
        if t.op == "fold":
            return self.ok(t.args[2], g, d) and self.ok(t.args[3], TRUE, d)
        if t.op == "carry":
            return True
        if t.op == "item":
            if trailing_axes(t.args[1]):
                return self.ok(t.args[0], g, d)
            return self.fail(t, f"only a part is used: {show(t, 5)}")
        if t.op == "str" or (t.op == "call" and
                             t.args[0] == "builtins.str"):
            if not self.text:
                return self.fail(t)
            return self.ok(t.args[-1], g, d)
        if t.op == "cat" and len(t.args) == 1 and self.text:
            return self.ok(t.args[0].args[0], g, d)
        if t.op == "call":
            pos, kw = kwargs(t)
            n = t.args[0]
            if n in SAME and pos:
                if not self.dtype(kw.get("dtype") or (
                        pos[1] if len(pos) > 1 and n in (
                            "numpy.array", "numpy.asarray") else None), g):
                    return self.fail(t, "conversion to another type: "
                                     + show(t, 5))
                return self.ok(pos[0], g, d)
            if n.startswith("numpy.") and n[6:] in SHAPED and pos:
                if not trailing_shape(n[6:], pos[0], pos[1:], kw):
                    return self.fail(t, "the axes change: " + show(t, 5))
                return self.ok(pos[0], g, d)
            if n in ("numpy.char.encode", "numpy.char.decode") and self.text:
                enc = kw.get("encoding") or (pos[1] if len(pos) > 1 else None)
                err = kw.get("errors") or (pos[2] if len(pos) > 2 else None)
                if not utf8(enc) or not (
                        err is None or err is const("strict")):
                    return self.fail(t, f"encoding is {show(enc) if enc is not None else 'the default'}"
                                     + (f" with errors {show(err)}" if err is not None else ""))
                return self.ok(pos[0], g, d)
            if n in ("netCDF4.stringtochar", "netCDF4.chartostring") and \
                    self.text:
                enc = kw.get("encoding") or (pos[1] if len(pos) > 1 else None)
                if enc is not None and not utf8(enc):
                    return self.fail(t, f"encoding is {show(enc)}")
                return self.ok(pos[0], g, d)
            if n in ("builtins.float",) and not self.text:
                return self.ok(pos[0], g, d)
        if t.op == "meth":
            n = t.args[0]
            pos, kw = kwargs(mk("x", *t.args[1:])) if False else \
                kwargs(mk("m", t.args[0], *t.args[1:]))
            recv, pos = pos[0], pos[1:]
            if n in SAME_METH:
                return self.ok(recv, g, d)
            if n in SHAPED:
                if not trailing_shape(n, recv, pos, kw):
                    return self.fail(t, "the axes change: " + show(t, 5))
                return self.ok(recv, g, d)
            if n == "astype":
                if not self.dtype(kw.get("dtype") or
                                  (pos[0] if pos else None), g):
                    return self.fail(t, "conversion to another type: "
                                     + show(t, 5))
                return self.ok(recv, g, d)
            if n == "view" and self.text and pos and pos[0] in (
                    const("S1"), const("|S1")):
                return self.ok(recv, g, d)
            if n in ("encode", "decode") and self.text:
                enc = kw.get("encoding") or (pos[0] if pos else None)
                if enc is not None and not utf8(enc):
                    return self.fail(t, f"encoding is {show(enc)}")
                return self.ok(recv, g, d)
        return self.fail(t)

    def dtype(self, t, g):
        if t is None or t is NONE:
            return True
        if t.op == "phi":
            return all(self.dtype(x, g) for ag, x in alts(t)
                       if sat(b_and(g, ag)))
        if not self.text:
            return is_double_type(t)
        if t.op == "const":
            return t.args[0] in ("U", "S", "<U", "<S", "O", "object") or \
                t.args[0] in (str, bytes)
        if t.op == "glob":
            return t.args[0] in ("builtins.str", "builtins.bytes",
                                 "numpy.str_", "numpy.bytes_",
                                 "builtins.object")
        if t.op == "cat":
            ps = t.args
            if len(ps) == 2 and ps[0].args[0] in (const("S"), const("|S")):
                return self.width is not None and self.width(
                    ps[1].args[0])
        return False


class Kept(Prov):
    """All values are kept; single values may become scalars."""

    def ok(self, t, g=TRUE, depth=0):
        x = None
        if t.op == "item" and t.args[1] in (const(0), const(-1)):
            x = t.args[0]
        if t.op == "meth" and t.args[0] in ("item", "tolist") and len(
                t.args) == 2:
            x = t.args[1]
        if t.op == "meth" and t.args[0] in ("flatten", "ravel"):
            return self.ok(t.args[1], g, depth + 1)
        if x is not None:
            if self.single(x, g, depth):
                return self.ok(x, g, depth + 1)
            return self.fail(t, f"only one value is used: {show(t, 4)}")
        if t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array",
                                            "numpy.ma.getdata") and \
                self.numeric(g):
            if not self.unmasked(g):
                return self.fail(t, "missing data is replaced by fill "
                                 f"values: {show(t, 4)}")
        if t.op == "call" and t.args[0] in ("numpy.ma.filled",) or (
                t.op == "meth" and t.args[0] == "filled"):
            return self.fail(t, "missing data is replaced by fill values")
        return super().ok(t, g, depth)

    def numeric(self, g):
        """Text needs a conversion from characters, which is checked."""
        return not any("'S'" in show(a, 9) or "'U'" in show(a, 9)
                       for a in support(g) if entails(g, atom(a)))

    def unmasked(self, g):
        for a in support(g):
            if "mask" in show(a, 9):
                if entails(g, b_not(atom(a))) or entails(g, atom(a)):
                    return True
        return False

    def single(self, x, g, depth):
        for a in support(g):
            if a.op == "eq" and const(1) in a.args and entails(g, atom(a)):
                y = a.args[0] if a.args[1] is const(1) else a.args[1]
                if y.op == "attr" and y.args[1] == "size" or \
                        y.op == "len" or (
                            y.op == "call" and y.args[0] == "numpy.size"):
                    z = y.args[-1] if y.op != "attr" else y.args[0]
                    why = self.why
                    if self.ok(z, g, depth + 1):
                        return True
                    self.why = why
        return False


def utf8(t):
    return t is not None and t.op == "const" and isinstance(
        t.args[0], str) and t.args[0].lower().replace(
        "_", "-") in ("utf-8", "utf8")


def strip_str(t):
    while True:
        if t.op == "str" or (t.op == "call" and t.args[0] in (
                "builtins.str", "builtins.list", "builtins.tuple")
                and len(t.args) == 2):
            t = t.args[-1]
        elif t.op == "cat" and len(t.args) == 1:
            t = t.args[0].args[0]
        else:
            return t


# ------------------------------------------------------------- entry names
def suffix_of(t, x, n):
    """t is x without its first n characters (n: int or term predicate)."""
    t = strip_str(t)
    if t.op == "item" and t.args[0] is x and t.args[1].op == "slice":
        lo, hi, st = t.args[1].args
        return hi is NONE and st in (NONE, const(1)) and n(lo)
    return False


def global_name(t, x):
    """t is entry name x without GLOBAL_"""
    t = strip_str(t)
    if gives(t, [({x: cat("GLOBAL_", ANY)}, ANY)]):
        return True
    if suffix_of(t, x, lambda a: a is const(7)):
        return True
    if t.op == "meth" and t.args[1] is x:
        m, a = t.args[0], t.args[2:]
        if m == "removeprefix" and a == (const("GLOBAL_"),):
            return True
        if m == "replace" and a[:2] == (const("GLOBAL_"), const("")) and (
                len(a) == 2 or a[2] is const(1)):
            return True
    return after_sep(t, x)


def after_sep(t, x):
    """x.split('_', 1)[1] and relatives"""
    if t.op == "item" and t.args[0].op == "meth" and t.args[0].args[1] is x:
        m, a, i = t.args[0].args[0], t.args[0].args[2:], t.args[1]
        if m == "split" and a[:1] == (const("_"),) and len(a) == 2 and \
                maxsplit(a[1]) and i in (const(1), const(-1)):
            return True
        if m == "partition" and a == (const("_"),) and i in (
                const(2), const(-1)):
            return True
    return False


def maxsplit(a):
    return a is const(1) or (a.op == "kw" and a.args[1] is const(1))


def netcdf_name(t, x, g=TRUE):
    """t is variable name x with Data. instead of Data_"""
    t = strip_str(t)
    if gives(t, [({x: SV}, SV), ({x: cat("Data_", SX)},
                                 cat("Data.", SX))], g):
        return True
    if t.op == "meth" and t.args[1] is x and t.args[0] == "replace":
        a = t.args[2:]
        return a[:2] == (const("Data_"), const("Data.")) and (
            len(a) == 2 or a[2] is const(1))
    if t.op == "phi":
        ok = True
        for g, v in alts(t):
            if v is x:
                ok = ok and not sat(b_and(g, N.c_starts(x, const("Data_"))))
            elif v.op == "cat" and len(v.args) == 2 and v.args[0].args[0] is \
                    const("Data.") and suffix_of(
                        v.args[1].args[0], x, lambda a: a is const(5)):
                ok = ok and entails(g, N.c_starts(x, const("Data_")))
            elif netcdf_name(v, x):
                pass
            else:
                return False
        return ok
    return False


def attr_name(t, k, v):
    """t is the part of attribute entry name k behind variable name v_"""
    t = strip_str(t)
    if gives(t, [({v: w, k: cat(w, "_", SA)}, SA)
                 for w in (SV, cat("Data_", SX))]):
        return True

    def start(lo):
        return lo in LENS(v)
    if suffix_of(t, k, start):
        return True
    if t.op == "meth" and t.args[1] is k:
        m, a = t.args[0], t.args[2:]
        pre = N.mk_cat([N.P(v), N.P(const("_"))])
        if m == "removeprefix" and a == (pre,):
            return True
        if m == "replace" and a[:2] == (pre, const("")) and len(a) == 3 and \
                a[2] is const(1):
            return True
    if t.op == "item" and t.args[0].op == "meth" and t.args[0].args[1] is k:
        m, a, i = t.args[0].args[0], t.args[0].args[2:], t.args[1]
        if m == "rsplit" and a[:1] == (const("_"),) and i in (
                const(1), const(-1)):
            return True
        if m == "split" and a[:1] == (const("_"),) and i is const(-1):
            return True
        if m == "rpartition" and a == (const("_"),) and i in (
                const(2), const(-1)):
            return True
        if m in ("split", "rsplit") and a == (const("_"),) and \
                i is const(-1):
            return True
    return False


def LENS(v):
    ln = mk("len", v)
    return {mk("bin", "Add", ln, const(1)), mk("bin", "Add", const(1), ln),
            mk("len", N.mk_cat([N.P(v), N.P(const("_"))]))}


def entry_value(o, k):
    """Terms that denote the value of entry k of object o."""
    return {mk("dyn", o, k), mk("item", mk("attr", o, "__dict__"), k),
            mk("meth", "get", mk("attr", o, "__dict__"), k),
            mk("meth", "__getattribute__", o, k)}
