"""Operations on strings that are known in parts.

A string is a sequence of characters and blocks.  A block, the term
``sym(name, absent, never)``, stands for any non-empty text that contains none
of the characters in ``absent`` and is none of the texts in ``never``.  An operation is carried out when its result is
the same for every such text and left symbolic otherwise."""
from .terms import mk, const, Term, is_const, NONE, TRUE, gterm


def pieces(t):
    """[str or sym term] of a string term, or None."""
    if is_const(t, str):
        return [t.args[0]] if t.args[0] else []
    if t.op == "sym":
        return [t]
    if t.op == "str":
        return pieces(t.args[0])
    if t.op != "cat":
        return None
    out = []
    for p in t.args:
        if len(p.args) != 3 or p.args[2] is not gterm(TRUE):
            return None
        x = pieces(p.args[0])
        if x is None:
            return None
        for y in x:
            if out and isinstance(out[-1], str) and isinstance(y, str):
                out[-1] += y
            else:
                out.append(y)
    return out


def known(t):
    """pieces of a string with at least one block, else None"""
    if t.op not in ("sym", "cat", "str"):
        return None
    p = pieces(t)
    return p if p and any(isinstance(x, Term) for x in p) else None


def term(ps):
    from .norm import mk_cat, P
    ps = [p for p in ps if p != ""]
    if not ps:
        return const("")
    if len(ps) == 1:
        return const(ps[0]) if isinstance(ps[0], str) else ps[0]
    return mk_cat([P(const(p) if isinstance(p, str) else p) for p in ps])


def symbols(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def join(sy):
    out = []
    for x in sy:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return term(out)


def matches(sy, s, start=None, end=None):
    """Can s occur in the symbols?  {(first symbol, touches a block)}."""
    n = len(sy)
    hits = set()

    def go(i, k0, k, touched, first):
        # i: symbol; k0: where the text of block i starts in s if it was
        # entered at its first character, -1 if in its middle
        inside = k0 is not None
        if k == len(s):
            if end is None or i == n or (i == n - 1 and inside and (
                    k0 < 0 or s[k0:k] not in sy[i].args[2])):
                hits.add((first, touched))
            return
        if i >= n:
            return
        x = sy[i]
        if isinstance(x, str):
            if x == s[k]:
                go(i + 1, None, k + 1, touched, first)
            return
        if s[k] not in x.args[1]:
            if k0 is None:
                k0 = k
            go(i, k0, k + 1, True, first)           # stay in the block
            if k0 < 0 or s[k0:k + 1] not in x.args[2]:
                go(i + 1, None, k + 1, True, first)  # the block ends here
    if start is not None:
        go(0, None, 0, False, 0)
    else:
        for i in range(n):
            go(i, None, 0, False, i)
            if isinstance(sy[i], Term):
                go(i, -1, 0, False, i)
    return hits


def find_all(ps, s, n=-1):
    """Start symbols of the (first n) non overlapping occurrences, or None
    if they are not the same for every text."""
    sy = symbols(ps)
    hits = matches(sy, s)
    out, last = [], 0
    for i in sorted({i for i, _ in hits}):
        if len(out) == n:
            break
        if i < last:
            continue
        if (i, True) in hits:
            return None
        out.append(i)
        last = i + len(s)
    return out


def contains(ps, s):
    """True, False or None"""
    hits = matches(symbols(ps), s)
    if any(not t for _, t in hits):
        return True
    return None if hits else False


def starts(ps, s, op="starts"):
    sy = symbols(ps)
    if op == "ends":
        # reversed
        hits = matches(sy[::-1], s[::-1], start=0)
    else:
        hits = matches(sy, s, start=0)
    if any(not t for _, t in hits):
        return True
    return None if hits else False


def equals(ps, s):
    hits = matches(symbols(ps), s, start=0, end=1)
    if any(not t for _, t in hits):
        return True
    return None if hits else False


def same(p, q):
    """Are two strings equal for all texts / for no text?"""
    a, b = symbols(p), symbols(q)
    if a == b:
        return True
    # common head and tail
    while a and b and a[0] is b[0] or (a and b and a[0] == b[0]):
        a, b = a[1:], b[1:]
    while a and b and (a[-1] is b[-1] or a[-1] == b[-1]):
        a, b = a[:-1], b[:-1]
    if not a or not b:
        return False if a or b else True
    if isinstance(a[0], str) and isinstance(b[0], str) or (
            isinstance(a[-1], str) and isinstance(b[-1], str)):
        return False

    # a character of one side that no block of the other can hold
    for x, y in ((a, b), (b, a)):
        for ch in x:
            if isinstance(ch, str) and ch not in y and all(
                    ch in z.args[1] for z in y if isinstance(z, Term)):
                return False
    return None


def offset(t, sy):
    """Number of symbols in front of position t, or None."""
    if is_const(t, int) and not isinstance(t.args[0], bool):
        k = t.args[0]
        if k >= 0:
            return k if all(isinstance(x, str) for x in sy[:k]) and \
                k <= len(sy) else None
        return len(sy) + k if -k <= len(sy) and all(
            isinstance(x, str) for x in sy[k:]) else None
    if t.op == "len":
        p = pieces(t.args[0])
        if p is None:
            return None
        q = symbols(p)
        return len(q) if sy[:len(q)] == q else None
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        a, b = t.args[1:3]
        if is_const(a, int) and t.args[0] == "Add":
            a, b = b, a
        if not is_const(b, int):
            if t.args[0] == "Add":
                i = offset(a, sy)
                if i is None:
                    return None
                j = offset(b, sy[i:])
                return None if j is None else i + j
            return None
        i = offset(a, sy)
        if i is None:
            return None
        k = b.args[0] if t.args[0] == "Add" else -b.args[0]
        j = i + k
        seg = sy[i:j] if k >= 0 else sy[max(j, 0):i]
        return j if 0 <= j <= len(sy) and all(
            isinstance(x, str) for x in seg) else None
    return None


def slice_(ps, lo, hi):
    sy = symbols(ps)
    i = 0 if lo is NONE else offset(lo, sy)
    j = len(sy) if hi is NONE else offset(hi, sy)
    if i is None or j is None:
        return None
    return join(sy[i:max(i, j)])


def position(sy, i):
    """The index of symbol i as a term."""
    if all(isinstance(x, str) for x in sy[:i]):
        return const(i)
    return mk("len", join(sy[:i]))


def meth(name, ps, args):
    """Result term of a string method or None."""
    if any(not isinstance(a, Term) for a in args):
        return None
    kw = {a.args[0] if isinstance(a.args[0], str) else a.args[0].args[0]:
          a.args[1] for a in args if a.op == "kw"}
    args = [a for a in args if a.op != "kw"]
    sy = symbols(ps)

    def s(i, key=None):
        t = args[i] if len(args) > i else kw.get(key)
        return t.args[0] if t is not None and is_const(t, str) and \
            t.args[0] else None

    def cnt(i, key):
        t = args[i] if len(args) > i else kw.get(key)
        if t is None:
            return -1
        return t.args[0] if is_const(t, int) else None
    if name == "replace":
        old = s(0)
        if old is None or len(args) < 2:
            return None
        new = pieces(args[1])
        n = cnt(2, "count")
        if new is None or n is None:
            return None
        at = find_all(ps, old, n)
        if at is None:
            return None
        out, i = [], 0
        for k in at:
            out += sy[i:k] + symbols(new)
            i = k + len(old)
        return join(out + sy[i:])
    if name in ("split", "rsplit"):
        sep = s(0, "sep")
        n = cnt(1, "maxsplit")
        if sep is None or n is None:
            return None
        at = find_all(ps, sep, n if name == "split" else -1)
        if at is None:
            return None
        if n >= 0:
            at = (at[:n] if name == "split" else at[len(at) - n:]
                  if n <= len(at) else at) if n else []
        out, i = [], 0
        for k in at:
            out.append(join(sy[i:k]))
            i = k + len(sep)
        out.append(join(sy[i:]))
        return mk("tup", *out)
    if name in ("partition", "rpartition"):
        sep = s(0)
        at = find_all(ps, sep, 1 if name == "partition" else -1) \
            if sep else None
        if at is None:
            return None
        if not at:
            return mk("tup", *([join(sy), const(""), const("")]
                               if name == "partition" else
                               [const(""), const(""), join(sy)]))
        k = at[0] if name == "partition" else at[-1]
        return mk("tup", join(sy[:k]), const(sep), join(sy[k + len(sep):]))
    if name in ("find", "index", "rfind", "rindex") and len(args) == 1:
        sub = s(0)
        at = find_all(ps, sub, -1 if name[0] == "r" else 1) if sub else None
        if at is None:
            return None
        if not at:
            return const(-1) if "find" in name else None
        return position(sy, at[-1] if name[0] == "r" else at[0])
    if name == "count" and len(args) == 1:
        sub = s(0)
        at = find_all(ps, sub) if sub else None
        return None if at is None else const(len(at))
    if name in ("removeprefix", "removesuffix") and len(args) == 1:
        p = pieces(args[0])
        if p is None:
            return None
        q = symbols(p)
        if name == "removeprefix":
            if sy[:len(q)] == q:
                return join(sy[len(q):])
        elif not q or sy[-len(q):] == q:
            return join(sy[:len(sy) - len(q)])
        if len(p) == 1 and isinstance(p[0], str) and starts(
                ps, p[0], "starts" if name == "removeprefix"
                else "ends") is False:
            return join(sy)
        return None
    return None
