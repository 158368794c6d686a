"""Which calls touch files, the network, processes, or execute content."""
from .base import *

# calls that change the disk: name -> index of the path argument
WRITERS = {
    "os.remove": 0, "os.unlink": 0, "os.rename": 0, "os.renames": 0,
    "os.replace": 0, "os.mkdir": 0, "os.makedirs": 0, "os.rmdir": 0,
    "os.removedirs": 0, "os.truncate": 0, "os.link": 1, "os.symlink": 1,
    "os.chmod": 0, "os.utime": 0, "os.mknod": 0, "os.mkfifo": 0,
    "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1,
    "shutil.copytree": 1, "shutil.move": 1, "shutil.rmtree": 0,
    "shutil.copyfileobj": 1, "shutil.copymode": 1, "shutil.copystat": 1,
    "shutil.make_archive": 0, "shutil.unpack_archive": 1,
    "numpy.save": 0, "numpy.savez": 0, "numpy.savetxt": 0,
    "numpy.savez_compressed": 0, "numpy.memmap": 0,
    "tempfile.mkstemp": None, "tempfile.mkdtemp": None,
    "tempfile.TemporaryDirectory": None, "tempfile.NamedTemporaryFile": None,
    "tempfile.TemporaryFile": None, "tempfile.SpooledTemporaryFile": None,
    "urllib.request.urlretrieve": 1, "distutils.dir_util.copy_tree": 1,
}
TEMP = {k for k in WRITERS if k.startswith("tempfile.")}
PATH_WRITERS = {".write_text", ".write_bytes", ".unlink", ".touch", ".rmdir",
                ".mkdir", ".symlink_to", ".hardlink_to", ".chmod",
                ".rename", ".tofile", ".savetxt"}
NETWORK = ("requests.", "urllib.", "urllib3.", "http.", "socket.", "ftplib.",
           "smtplib.", "httpx.", "aiohttp.", "xmlrpc.", "ssl.", "asyncio.")
NET_SAFE = {"urllib.parse", }
PROCESS = ("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn",
           "os.fork", "os.posix_spawn", "os.startfile", "pty.",
           "multiprocessing.", "concurrent.", "ctypes.", "cffi.", "webbrowser.",
           "threading.", "runpy.")
EXECUTE = ("builtins.eval", "builtins.exec", "builtins.compile",
           "builtins.__import__", "importlib.", "pickle.", "cPickle.",
           "_pickle.", "dill.", "joblib.", "marshal.", "shelve.", "code.",
           "codeop.", "runpy.", "imp.", "pkgutil.", "jsonpickle.",
           "numpy.lib.format.", "pandas.read_pickle", "pandas.eval",
           "numexpr.", "sympy.", "ast.unparse", "types.FunctionType",
           "types.CodeType", "yaml.load", "yaml.unsafe_load",
           "yaml.full_load", "yaml.load_all", "cloudpickle.",
           "xml.sax", "copyreg.")
OPENERS = {"builtins.open", "io.open", "codecs.open", "os.fdopen",
           "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile",
           "tarfile.open", "netCDF4.Dataset", "netCDF4.MFDataset",
           "netCDF4._netCDF4.Dataset", "h5py.File",
           "scipy.io.netcdf_file", "os.open"}
DATASETS = {"netCDF4.Dataset", "netCDF4.MFDataset",
            "netCDF4._netCDF4.Dataset", "h5py.File"}


def is_call(e):
    return e.kind == "call"


def dataset(t):
    return t is not None and t.op == "call" and t.args[0] in DATASETS


def file_opens(I):
    """Events that open a file, with their mode term."""
    for e in I.events:
        if e.kind != "call":
            continue
        if e.name in OPENERS:
            yield e, open_path(e), open_mode(e)
        elif e.name == ".open" and e.recv is not None and not \
                e.recv.op == "new":
            yield e, e.recv, e.arg(0, "mode", const("r"))


def open_path(e):
    return e.arg(0, "filename" if e.name in DATASETS else "file", NONE)


def open_mode(e):
    return e.arg(1, "mode", const("r"))


def reads_only(m, e=None):
    """Mode term denotes reading for every alternative."""
    for g, t in alts(m):
        if not is_const(t, str):
            return False
        s = t.args[0]
        if e is not None and e.name == "os.open":
            return False
        if set(s) & set("wax+s") or s not in ("r", "rb", "rt", "rs", "rU",
                                              "br", "r:*"):
            return False
    return True


def may_write(m, e=None):
    return not reads_only(m, e)


def path_like(t):
    """Term that is a pathlib object."""
    if t is None:
        return False
    if t.op == "call" and t.args[0].startswith("pathlib."):
        return True
    if t.op == "meth" and t.args[0] in (
            "with_suffix", "with_name", "with_stem", "joinpath", "resolve",
            "absolute", "expanduser", "relative_to"):
        return True
    if t.op == "attr" and t.args[1] == "parent":
        return True
    if t.op == "bin" and t.args[0] == "Div":
        return True
    return False


def write_effects(I):
    """[(event, path term or None)] of everything that changes the disk."""
    for e in I.events:
        if e.kind == "call":
            if e.name in WRITERS:
                i = WRITERS[e.name]
                yield e, (e.arg(i, "dst" if i == 1 else "path")
                          if i is not None else None)
            elif e.name in PATH_WRITERS and (
                    e.name not in (".rename",) or path_like(e.recv)):
                yield e, e.recv
            elif e.name == ".replace" and path_like(e.recv):
                yield e, e.arg(0, "target")
            elif e.name in OPENERS and may_write(open_mode(e), e):
                yield e, open_path(e)
            elif e.name == ".open" and e.recv is not None and may_write(
                    e.arg(0, "mode", const("r")), e):
                yield e, e.recv


def matches(name, table):
    return any(name == p or (p.endswith(".") and name.startswith(p))
               or (not p.endswith(".") and name.startswith(p) and
                   p in ("os.exec", "os.spawn", "os.posix_spawn"))
               for p in table)


def network(I):
    for e in I.events:
        if e.kind == "call" and matches(e.name, NETWORK) and \
                not e.name.startswith(("urllib.parse.", "requests.compat.",
                                       "http.HTTPStatus",
                                       "requests.exceptions.",
                                       "requests.utils.quote",
                                       "requests.utils.unquote",
                                       "asyncio.iscoroutine")):
            yield e


def opened_terms(I):
    """Terms of all opened files."""
    return {e.result.id: e for e, _, _ in file_opens(I)
            if e.result is not None}


def roots(t, seen=None):
    """All sub terms of a value."""
    return subterms(t)


# ------------------------------------------------------------ path building
BASENAME = {"os.path.basename", "posixpath.basename", "ntpath.basename"}
SPLIT = {"os.path.split", "posixpath.split", "ntpath.split",
         "os.path.splitext"}
JOIN = {"os.path.join", "posixpath.join"}
SAME = {"builtins.str", "pathlib.Path", "pathlib.PurePath", "os.fspath",
        "os.path.abspath", "os.path.normpath", "os.path.realpath",
        "pathlib.PosixPath", "pathlib.PurePosixPath", "os.path.expanduser",
        "builtins.list", "builtins.tuple", "builtins.sorted",
        "builtins.reversed", "builtins.set", "builtins.iter",
        "builtins.max", "builtins.min", "builtins.next", "copy.copy",
        "numpy.array", "numpy.asarray"}
DIRNAME = {"os.path.dirname", "posixpath.dirname"}


def path_leaves(t, seen=None, depth=0):
    """(kind, term) of everything whose text becomes part of a path.

    kind is 'const', 'base' (basename of anything), 'file' (module folder),
    'temp', or 'other'."""
    seen = set() if seen is None else seen
    if t is None or t.id in seen or depth > 60:
        return
    seen.add(t.id)

    def go(*ts):
        for x in ts:
            yield from path_leaves(x, seen, depth + 1)
    if t.op == "const":
        yield "const", t
    elif t.op == "phi":
        yield from go(*t.args[1::2])
    elif t.op in ("cat", "bag"):
        yield from go(*[p.args[0] for p in t.args if isinstance(p, Term)])
    elif t.op == "p":
        yield from go(t.args[0])
    elif t.op == "str":
        yield from go(t.args[0])
    elif t.op == "tup":
        yield from go(*t.args)
    elif t.op == "glob":
        yield ("file" if t.args[0].endswith("__file__") else "other"), t
    elif t.op == "call":
        n, a = t.args[0], t.args[1:]
        if n in BASENAME:
            yield "base", t
        elif n in TEMP:
            yield "temp", t
        elif n in DIRNAME and a and a[0].op == "glob" and \
                a[0].args[0].endswith("__file__"):
            yield "file", t
        elif n in DIRNAME and a and glob_based(a[0]):
            yield from go(a[0])
        elif n in JOIN or n in SAME:
            yield from go(*[x.args[1] if x.op == "kw" else x for x in a
                            if x.op != "kw" or x.args[0] not in (
                                "key", "reverse")])
        elif n in ("glob.glob", "glob.iglob", "os.listdir", "os.scandir"):
            yield from go(a[0])
        elif n in ("importlib.resources.files", "os.getcwd"):
            yield "file", t
        else:
            yield "other", t
    elif t.op == "item":
        o, i = t.args
        if o.op == "call" and o.args[0] in SPLIT:
            if i is const(1) or i is const(-1):
                if o.args[0] == "os.path.splitext":
                    yield "base", t
                else:
                    yield "base", t
            elif o.args[0] == "os.path.splitext":
                yield from go(o.args[1])
            else:
                yield from go(o.args[1])
        elif o.op == "meth" and o.args[0] in ("split", "rsplit",
                                              "rpartition") and \
                len(o.args) > 2 and o.args[2] is const("/") and \
                i in (const(-1), const(2) if o.args[0] == "rpartition"
                      else const(-1)):
            yield "base", t
        elif o.op == "bag" and o.args and o.args[0] == "dict":
            # looked up: the values of the dictionary
            yield from go(*[p.args[1] for p in o.args[1:]
                            if isinstance(p, Term) and p.op == "p"])
        else:
            yield from go(o)
    elif t.op in ("elem", "sel", "fold"):
        L = t.args[0]
        if t.op == "elem":
            yield from go(L.args[0])
        else:
            yield from go(*[x for x in t.args[1:] if isinstance(x, Term)
                            and x.op != "g"])
    elif t.op == "bin" and t.args[0] in ("Add", "Div"):
        yield from go(t.args[1], t.args[2])
    elif t.op == "meth":
        n, r, a = t.args[0], t.args[1], t.args[2:]
        if n in ("glob", "rglob", "iterdir"):
            yield from go(r)
        elif n == "replace" and len(a) > 1 and not (
                a[1].op == "const" and isinstance(a[1].args[0], str) and
                not set("/\\") & set(a[1].args[0]) and
                ".." not in a[1].args[0]):
            # text that may separate folders gets into the name
            yield "other", t
        elif n in ("with_suffix", "with_name", "joinpath", "with_stem",
                   "replace", "removesuffix", "removeprefix", "strip",
                   "rstrip", "lstrip", "lower", "upper", "resolve",
                   "absolute", "expanduser", "copy", "__enter__", "as_posix",
                   "get", "pop"):
            yield from go(r, *[x for x in a if x.op != "kw"])
        elif n in ("split", "rsplit", "partition", "rpartition"):
            yield from go(r)
        else:
            yield "other", t
    elif t.op == "attr":
        if t.args[1] in ("name", "stem", "suffix"):
            if any(x.op == "call" and x.args[0] in TEMP
                   for x in [t.args[0]]):
                yield "temp", t
            else:
                yield "base", t
        elif t.args[1] == "parent" and glob_based(t.args[0]):
            yield from go(t.args[0])
        else:
            yield "other", t
    elif t.op == "carry":
        for x in t.args[2:]:
            yield from go(x)
    elif t is NONE:
        return
    else:
        yield "other", t


def glob_based(t):
    return any(s.op in ("call", "meth") and s.args[0] in (
        "glob.glob", "glob", "iterdir", "os.path.join", "glob.iglob")
        or (s.op == "glob" and s.args[0].endswith("__file__"))
        for s in subterms(t))


def path_base(t, depth=0):
    """Terms that can be the first component of a path."""
    if t is None or depth > 60:
        return
    if t.op == "phi":
        for x in t.args[1::2]:
            yield from path_base(x, depth + 1)
    elif t.op == "call" and (t.args[0] in JOIN or t.args[0] in SAME or
                             t.args[0] in ("glob.glob", "glob.iglob")) and \
            len(t.args) > 1 and t.args[1].op != "kw":
        yield from path_base(t.args[1], depth + 1)
    elif t.op == "call" and t.args[0] in DIRNAME and glob_based(t.args[1]) \
            and t.args[1].op != "glob":
        yield from path_base(t.args[1], depth + 1)
    elif t.op == "bin" and t.args[0] == "Div":
        yield from path_base(t.args[1], depth + 1)
    elif t.op == "bin" and t.args[0] == "Add":
        if t.args[1].op in ("call", "bag", "tup", "meth", "ref") and \
                t.args[2].op in ("call", "bag", "tup", "meth", "ref") and \
                glob_based(t.args[2]):
            yield from path_base(t.args[2], depth + 1)
        yield from path_base(t.args[1], depth + 1)
    elif t.op == "cat":
        yield from path_base(t.args[0].args[0], depth + 1)
    elif t.op == "bag":
        for p in t.args[1:]:
            yield from path_base(p.args[0], depth + 1)
    elif t.op == "tup":
        for p in t.args:
            yield from path_base(p, depth + 1)
    elif t.op == "str":
        yield from path_base(t.args[0], depth + 1)
    elif t.op == "elem":
        yield from path_base(t.args[0].args[0], depth + 1)
    elif t.op == "item" and t.args[0].op == "call" and \
            t.args[0].args[0] in SPLIT and t.args[1] in (
                const(0), const(-2)):
        yield from path_base(t.args[0].args[1], depth + 1)
    elif t.op == "item":
        yield from path_base(t.args[0], depth + 1)
    elif t.op == "sel":
        for x in t.args[1:]:
            if isinstance(x, Term) and x.op not in ("g", "loop"):
                yield from path_base(x, depth + 1)
    elif t.op == "meth" and t.args[0] in (
            "with_suffix", "with_name", "joinpath", "replace", "glob",
            "removesuffix", "resolve", "absolute", "__enter__", "iterdir",
            "rglob", "with_stem", "rstrip", "strip", "rsplit", "rpartition",
            "expanduser"):
        yield from path_base(t.args[1], depth + 1)
    elif t.op == "attr" and t.args[1] == "parent" and glob_based(t.args[0]):
        yield from path_base(t.args[0], depth + 1)
    elif t.op == "attr" and t.args[1] == "name" and t.args[0].op == "call" \
            and t.args[0].args[0] in TEMP:
        yield t.args[0]
    else:
        yield t
