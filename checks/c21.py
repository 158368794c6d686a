"""C21: Text is handled independently of platform and locale."""
import codecs
import os
from .base import *
from .effects import *
from .values import kwargs

RULE = ("typestate of text: every file that any function opens in text mode "
        "has a constant encoding, or is data of the package that is read (and "
        "whose writer in the package emits ASCII only), or receives ASCII "
        "only (json.dump with ensure_ascii, ASCII constants); every encoding "
        "and decoding step of the SOFA reader, writer, comparison and size "
        "computation uses utf-8, and no text is converted to bytes or back "
        "by a dtype conversion, which would be ASCII; nothing reads the "
        "locale or the name of the platform to decide about text")
ASSUME = ["rules.json, unit_aliases.json, deprecations.json, upgrade.json and "
          "VERSION of the conventions contain ASCII only (checked if they are "
          "present)",
          "byte strings given by the user are utf-8 encoded"]

TEXT_OPEN = {"builtins.open", "io.open", "codecs.open", ".open", "os.fdopen",
             "gzip.open", "bz2.open", "lzma.open"}
LOCALE = ("locale.", "sys.getfilesystemencoding", "os.fsencode",
          "os.fsdecode", "os.device_encoding", "io.text_encoding")
CODES = ("%a", "%A", "%b", "%B", "%c", "%x", "%X", "%p", "%Z")


def functions(c):
    for m in c.p.modules.values():
        fs = list(m.funcs.values())
        for k in m.classes.values():
            fs += list(k.all_funcs())
        for f in fs:
            yield m, f


def codec(t):
    """Normal name of a constant encoding, None otherwise."""
    if t is None or not is_const(t, str):
        return None
    try:
        return codecs.lookup(t.args[0]).name
    except LookupError:
        return None


def check(c):
    runs = [(m, f, c.run(f)) for m, f in functions(c)]
    c.need(len(runs), "functions", 40)
    json_codecs = written(c, runs)
    n = 0
    for m, f, I in runs:
        for e in ev(I, ("call",)):
            n += file_text(c, m, f, I, e, json_codecs)
            steps(c, m, f, e)
            locale(c, e)
    c.need(n, "text files", 5)
    strings(c, runs)


# ------------------------------------------------------------------- text files
def mode_of(e):
    return e.arg(0, "mode") if e.name == ".open" else e.arg(1, "mode")


def encoding_of(e):
    i = {"builtins.open": 3, "io.open": 3, "codecs.open": 2, ".open": 2,
         "os.fdopen": 3, ".read_text": 0, ".write_text": 1,
         "gzip.open": 3, "bz2.open": 3, "lzma.open": None}.get(e.name)
    return e.arg(i, "encoding") if i is not None else e.arg(None, "encoding")


def is_text(e):
    if e.name in (".read_text", ".write_text"):
        return True
    if e.name not in TEXT_OPEN or e.recv is not None and e.recv.op == "new":
        return False
    m = mode_of(e)
    if m is None:
        return e.name not in ("gzip.open", "bz2.open", "lzma.open")
    return any(not is_const(t, str) or "b" not in t.args[0]
               for _, t in alts(m))


def is_write(e):
    if e.name == ".write_text":
        return True
    m = mode_of(e) if e.name != ".read_text" else None
    return m is not None and not all(
        is_const(t, str) and not set(t.args[0]) & set("wax+")
        for _, t in alts(m))


def path_of(e):
    return e.recv if e.name[0] == "." else e.arg(0, "file")


def constant_codec(t):
    """All alternatives of the encoding are the same constant."""
    cs = {codec(x) for _, x in alts(t)} if t is not None else {None}
    return next(iter(cs)) if len(cs) == 1 else None


def written(c, runs):
    """Encodings of the json files the package writes ('ascii' if it does
    not matter)."""
    out = set()
    for m, f, I in runs:
        for e in ev(I, ("call",)):
            if is_text(e) and is_write(e) and path_of(e) is not None and \
                    "json" in ends(path_of(e)):
                out.add("ascii" if ascii_only(I, e) else constant_codec(
                    encoding_of(e)))
    return out


def ends(p):
    t = p
    while t.op in ("cat", "str", "call", "bin") and t.args:
        xs = [x for x in t.args if isinstance(x, Term)]
        if not xs:
            return ""
        t = xs[-1]
        if t.op == "p":
            t = t.args[0]
    if t.op == "meth" and t.args[0] in ("with_suffix", "with_name"):
        t = t.args[2]
    return t.args[0] if is_const(t, str) else ""


def file_text(c, m, f, I, e, json_codecs):
    if not is_text(e):
        return 0
    enc = encoding_of(e)
    key = f"{e.pos[2]}:{e.name}"
    name = constant_codec(enc) if enc is not None and enc is not NONE else None
    if name is not None:
        c.ob("text-encoding", key, True)
        if not is_write(e) and package_data(path_of(e)) and \
                "json" in shown(path_of(e)):
            ok = all(j == name or j == "ascii" and ascii_like(name)
                     for j in json_codecs)
            c.ob("json-encoding", key, ok, "a json file is read with another "
                 "encoding than it is written with", e.where())
        return 1
    if enc is not None and enc is not NONE:
        c.ob("text-encoding", key, False, "the encoding of a text file is not "
             f"constant: {show(enc, 3)}", e.where())
        return 1
    if is_write(e):
        c.ob("text-encoding", key, ascii_only(I, e), "text that may not be "
             "ASCII is written with the encoding of the locale", e.where())
        return 1
    ok = package_data(path_of(e))
    if ok and "json" in shown(path_of(e)):
        c.ob("json-encoding", key, json_codecs <= {"ascii"}, "a json file is "
             "read with the encoding of the locale, but written with "
             f"{', '.join(str(x) for x in json_codecs)}", e.where())
    if ok:
        ok = not on_disk(c, path_of(e))
    c.ob("text-encoding", key, ok, "a text file is read with the encoding of "
         "the locale", e.where())
    return 1


def shown(p):
    return " ".join(s.args[0] for s in subterms(p) if is_const(s, str))


def ascii_like(name):
    s = "".join(map(chr, range(32, 127)))
    try:
        return s.encode(name) == s.encode("ascii")
    except (LookupError, UnicodeError):
        return False


def package_data(p):
    """Path p is built from the folder of the package and constants only."""
    if p is None:
        return False
    if any(s.op == "glob" and s.args[0].endswith("__file__")
           for s in subterms(p)) and "json" in shown(p):
        return True                 # selected out of a list of files
    kinds = {k for k, t in path_leaves(p)}
    return "file" in kinds and kinds <= {"file", "const", "base"}


def on_disk(c, p):
    """Package data with a constant name that is not ASCII."""
    cs = [s.args[0] for s in subterms(p) if is_const(s, str)]
    m = next(iter(c.p.modules.values()), None)
    root = os.path.dirname(m.path) if m is not None else None
    if not root or not cs:
        return False
    q_ = os.path.join(root, *cs)
    try:
        with open(q_, "rb") as fid:
            fid.read().decode("ascii")
    except UnicodeDecodeError:
        return True
    except (OSError, ValueError):
        pass
    return False


def ascii_only(I, e):
    """Everything written to the file opened by e is ASCII."""
    if e.name == ".write_text":
        return ascii_value(e.arg(0, "data"))
    r = e.result
    n = 0
    for w in ev(I, ("call",)):
        if w.name in (".write", ".writelines") and w.recv is r:
            if not all(ascii_value(x) for x in w.args):
                return False
        elif w.name == "json.dump" and w.arg(1, "fp") is r:
            if not json_ascii(dict(w.kw or ())):
                return False
        elif w.name == "builtins.print" and w.arg(None, "file") is r:
            if not all(ascii_value(x) for x in w.args):
                return False
        elif w.seq > e.seq and any(a is r for a in w.args) or w.seq > e.seq \
                and any(v is r for _, v in w.kw or ()):
            return False            # handed on
        else:
            continue
        n += 1
    return n > 0


def json_ascii(kw):
    v = kw.get("ensure_ascii")
    return v is None or v is const(True)


def ascii_value(t):
    if t is None:
        return False
    if t.op == "const":
        return str(t.args[0]).isascii()
    if t.op == "phi":
        return all(ascii_value(x) for x in t.args[1::2])
    if t.op == "cat":
        return all(ascii_value(p.args[0]) for p in t.args
                   if isinstance(p, Term) and p.op == "p")
    if t.op == "call":
        if t.args[0] == "json.dumps":
            return json_ascii(kwargs(t)[1])
        return t.args[0] in ("builtins.ascii", "builtins.len", "builtins.int")
    return t.op == "len"


# ---------------------------------------------------------------- SOFA strings
ENCODERS = {"numpy.char.encode": 1, "netCDF4.chartostring": 1,
            "netCDF4.stringtochar": 1, "numpy.char.decode": 1,
            ".encode": 0, ".decode": 0, "codecs.encode": 1,
            "codecs.decode": 1, "numpy.strings.encode": 1,
            "numpy.strings.decode": 1}


def steps(c, m, f, e):
    """Encoding and decoding steps."""
    if e.name in ENCODERS:
        i = ENCODERS[e.name]
    elif e.name in ("builtins.bytes", "builtins.bytearray") and (
            len(e.args) > 1 or e.arg(None, "encoding") is not None):
        i = 1
    elif e.name == "builtins.str" and (
            len(e.args) > 1 or e.arg(None, "encoding") is not None):
        i = 1
    else:
        return
    enc = e.arg(i, "encoding")
    err = e.arg(i + 1, "errors")
    key = f"{e.pos[2]}:{e.name}"
    other = m.name.endswith("update_conventions")
    if enc is None or enc is NONE:
        ok = e.name != "codecs.encode"      # utf-8 on all platforms
    else:
        names = {codec(x) for _, x in alts(enc)}
        ok = names == {"utf-8"} or (other and len(names) == 1
                                    and None not in names)
    c.ob("string-encoding", key, ok, f"strings are converted with the encoding"
         f" {show(enc, 3) if enc is not None else 'default'} instead of utf-8",
         e.where())
    if err is not None and "char" not in e.name or \
            err is not None and e.name.startswith("numpy.char"):
        c.ob("string-encoding", key + ":errors", err is const("strict"),
             "characters are replaced or dropped where the encoding fails: "
             f"errors={show(err, 3)}", e.where())


def strings(c, runs):
    """Conversions between text and bytes by dtype, and presence of the
    encoding in reader and writer."""
    done = set()
    for m, f, I in runs:
        for e in I.events:
            if e.args and e.args[0] is const("_Encoding") and (
                    e.kind in ("setattr", "rawset") or e.kind == "call" and
                    e.name in (".setncattr", ".setncattr_string")):
                c.ob("string-encoding", f"{e.pos[2]}:_Encoding",
                     len(e.args) > 1 and codec(e.args[1]) == "utf-8",
                     "netCDF4 converts strings with another encoding than "
                     "utf-8", e.where())
        for e in ev(I, ("call",)):
            k = (e.pos, e.name)
            to, x = converted(e)
            if to is None:
                continue
            for g, t in alts(x):
                g = b_and(g, e.guard)
                ok = clean(t, to) or not sat(no_kind(g, t, to))
                if k in done and ok:
                    continue
                done.add(k)
                c.ob("dtype-conversion", f"{e.pos[2]}:{e.name}", ok,
                     "text is converted to bytes by its dtype, which fails "
                     "for anything but ASCII" if to == "S" else "bytes are "
                     "converted to text by their dtype, which fails for "
                     "anything but ASCII", e.where())


def converted(e):
    """(kind of the new dtype, value) of a dtype conversion to strings."""
    if e.name == ".astype" and e.recv is not None:
        d, x = e.arg(0, "dtype"), e.recv
    elif e.name in ("numpy.array", "numpy.asarray", "numpy.full",
                    "numpy.asanyarray", "numpy.char.array"):
        d, x = e.arg(1, "dtype"), e.arg(0, "object") or e.arg(0, "a")
    elif e.name in ("numpy.bytes_", "numpy.str_") and e.args:
        return ("S" if e.name == "numpy.bytes_" else "U"), e.args[0]
    else:
        return None, None
    if d is None or x is None:
        return None, None
    s = d
    while s.op == "cat" and s.args:
        s = s.args[0].args[0]
    if is_const(s, str):
        s = s.args[0].lstrip("|<>=")
        return (s[:1] if s[:1] in ("S", "U") else "S" if s[:1] == "a"
                else None), x
    if s.op == "glob":
        return {"builtins.str": "U", "builtins.bytes": "S",
                "numpy.bytes_": "S", "numpy.str_": "U"}.get(s.args[0]), x
    return None, None


SAME = {"numpy.atleast_1d", "numpy.squeeze", "numpy.asarray", "numpy.array",
        "numpy.atleast_2d", "numpy.atleast_nd", "numpy.ravel",
        "numpy.ma.filled", "numpy.ma.getdata"}


def inner(t):
    """The value of which t is a rearrangement, with conditions."""
    for g, x in alts(t):
        if x.op == "call" and x.args[0] in SAME and len(x.args) > 1 and not \
                any(y.op == "kw" and y.args[0] == "dtype"
                    for y in x.args[1:]):
            for h, y in inner(x.args[1]):
                yield b_and(g, h), y
        elif x.op == "meth" and x.args[0] in (
                "copy", "squeeze", "flatten", "reshape", "filled", "ravel",
                "view") and x is not t:
            for h, y in inner(x.args[1]):
                yield b_and(g, h), y
        else:
            yield g, x


def clean(t, to):
    """Every alternative of t has the kind already."""
    return all(kind_of(x) == to for g, x in inner(t) if sat(g))


def kind_of(t):
    if is_const(t):
        return "U" if isinstance(t.args[0], str) else "S" if isinstance(
            t.args[0], bytes) else None
    if t.op in ("str", "cat"):
        return "U"
    if t.op == "call" and t.args[0] in ("numpy.char.encode",
                                        "numpy.strings.encode",
                                        "netCDF4.stringtochar"):
        return "S"
    if t.op == "call" and t.args[0] in ("numpy.char.decode",
                                        "numpy.strings.decode"):
        return "U"
    if t.op == "call" and t.args[0] == "netCDF4.chartostring":
        pos, kw = kwargs(t)
        enc = kw.get("encoding", pos[1] if len(pos) > 1 else None)
        return "U" if enc is None or codec(enc) else "S"
    if t.op == "meth" and t.args[0] in ("encode", "decode"):
        return "S" if t.args[0] == "encode" else "U"
    return None


def no_kind(g, t, to):
    """g where the values that remain are not of the wanted kind: text if
    bytes are wanted and bytes if text is wanted."""
    want = to == "U"                     # is it bytes?
    out = FALSE
    for h, x in inner(t):
        if kind_of(x) == to:
            continue
        k = b_and(g, h)
        known = {}
        for a in support(k):
            if a.op == "eq" and any(is_const(y, str) and y.args[0].lstrip(
                    "|<>")[:1] == "S" for y in a.args) and any(
                    y.op == "attr" and y.args[1] in ("dtype", "kind")
                    for y in subterms(a)):
                known[a] = want
        out = b_or(out, cofactor(k, known) if known else k)
    return out


# ----------------------------------------------------------------------- locale
def locale(c, e):
    key = f"{e.pos[2]}:{e.name}"
    if any(e.name == p or p.endswith(".") and e.name.startswith(p)
           for p in LOCALE):
        c.ob("no-locale", key, False, f"{e.name} depends on the locale",
             e.where())
    if e.name in (".strftime", "time.strftime", ".strptime"):
        fm = e.arg(0, "format")
        ok = fm is not None and all(
            is_const(t, str) and not any(x in t.args[0] for x in CODES)
            for _, t in alts(fm))
        c.ob("no-locale", key, ok, "a date is formatted with names of the "
             "locale", e.where())
