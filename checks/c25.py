"""C25: new and completed objects contain all required entries."""
from .base import *
from .c06 import flags
from .c08 import changes, removal
from .values import Prov

RULE = ("guarded must-effect analysis: for an arbitrary entry of the "
        "convention the condition under which Sofa() and add_missing store "
        "its default is computed and compared, in both directions, with "
        "the condition asked for (kind of the entry, missing); no other "
        "entry may change, the stored value must be the default of the same "
        "entry, and Sofa() must verify exactly when asked")
STAMPS = {"GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
          "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
          "GLOBAL_ApplicationVersion"}


def check(c):
    new(c)
    missing(c)


def stored(c, fn, I, o, K, conv, skip=()):
    """Condition under which the default of entry K is stored; every other
    change is a violation."""
    got = FALSE
    stores = []
    for e, T, k in changes(I, o):
        if T != "entry":
            continue
        if removal(e):
            c.ob("nothing-removed", f"{q(fn)}:{show(k, 2)}"[:70],
                 not sat(e.guard), f"{q(fn)} removes {show(k, 4)} when "
                 f"{why(e.guard)}", e.where())
            continue
        if k is not None and k.op == "const" and k.args[0] in skip:
            continue
        it = [E for E in (mk("elem", L) for L in e.loops)
              if E is k and N.strip_iter(E.args[0].args[0]) is conv]
        ok = bool(it) and e.kind in ("setattr", "rawset")
        c.ob("only-entries-of-the-convention", f"{q(fn)}:{show(k, 2)}"[:70],
             ok or not sat(e.guard),
             f"{q(fn)} changes {show(k, 4)}, which is not an entry of the "
             f"convention it was asked for, when {why(e.guard)}", e.where())
        if not ok:
            continue
        default = t_item(t_item(conv, k), const("default"))
        p = Prov(lambda t: t is default)
        c.ob("default-of-the-entry", q(fn), p.ok(e.args[1], e.guard),
             f"{q(fn)} does not store the default of the entry: {p.why}",
             e.where())
        g = b_and(e.guard, prot_at(I, e, o))
        if fn.name == "__init__":
            # new objects are not protected
            g = N.subst_g(g, {I.attr_default((o.id, "_protected")):
                              const(False)})
        c.ob("protection-off", q(fn), not sat(g),
             "read-only defaults are refused because the object is "
             f"protected when {why(g)}", e.where())
        got = b_or(got, onto(e, k, K))
        stores.append(e)
    c.need(len(stores) or len(c.findings), f"defaults stored by {q(fn)}")
    return got, stores


def new(c):
    fn = c.func("Sofa.__init__")
    names = [a.arg for a in fn.node.args.args]
    if names[1:5] != ["convention", "mandatory", "version", "verify"]:
        raise AnalysisError("parameters of Sofa changed")
    I = c.run(fn)
    o, name, only, version, verify = [mk("param", n) for n in names[:5]]
    K = mk("sym", "key", "", ())
    conv = mk("attr", o, "_convention")
    got, stores = stored(c, fn, I, o, K, conv, STAMPS)
    asked = b_or(flags(o, K, "m"), b_not(c_truth(only)))
    on = b_and(b_and(I.normal, b_not(c_isnone(name))), c_in(K, conv))
    bad = b_and(b_and(on, asked), b_not(got))
    c.ob("all-entries-created", q(fn), not sat(bad),
         "a new object misses an entry of its convention when "
         f"{why(bad)}", fwhere(fn))
    bad = b_and(got, b_not(asked))
    c.ob("only-the-kind-asked-for", q(fn), not sat(bad),
         "a new object with mandatory=True holds an optional entry when "
         f"{why(bad)}", fwhere(fn))
    # ------------------------------------------------------------- verify
    V = mk("sym", "version", "", ())
    same = {}
    P = "packaging.version.parse"
    for e in I.events:
        for g in [e.guard]:
            for a in support(g):
                for t in subterms(a):
                    if t is t_item(t_item(conv, const(
                            "GLOBAL_SOFAConventionsVersion")),
                            const("default")) or t is t_attr(
                            o, "GLOBAL_SOFAConventionsVersion"):
                        same[t.id] = V
                    if t.op == "call" and t.args[0] == \
                            "packaging.version.Version":
                        same[t.id] = mk("call", P, *t.args[1:])
    want = b_and(b_not(c_truth(only)), spec(
        c, "f(v) >= f('1.0') if verify == 'auto' else verify",
        v=V, verify=verify, f=mk("glob", P)))
    called = FALSE
    calls = [e for e in ev(I, ("call",), VERIFY) if e.recv is o]
    for e in calls:
        c.ob("issues-reported", q(fn), reported(e),
             "the issues found on creation are not reported", e.where())
        g = N.subst_g(N.subst_g(e.guard, same), same)
        called = b_or(called, g)
        late = [s for s in stores if s.seq > e.seq and sat(
            b_and(s.guard, e.guard))]
        c.ob("verified-when-complete", q(fn), not late,
             "a new object is verified before all entries are stored",
             e.where())
    bad = b_and(b_and(N.subst_g(I.normal, same), b_not(c_isnone(name))),
                b_and(want, b_not(called)))
    c.ob("verified-on-creation", q(fn), not sat(bad),
         f"a new object is not verified when {why(bad)}", fwhere(fn))
    bad = b_and(called, b_not(want))
    c.ob("verified-only-if-asked", q(fn), not sat(bad),
         f"a new object is verified when {why(bad)}", fwhere(fn))


def missing(c):
    fn = c.func("Sofa.add_missing")
    names = [a.arg for a in fn.node.args.args]
    if names[1:3] != ["mandatory", "optional"]:
        raise AnalysisError("parameters of add_missing changed")
    I = c.run(fn)
    o, man, opt = [mk("param", n) for n in names[:3]]
    K = mk("sym", "key", "", ())
    conv = mk("attr", o, "_convention")
    got, _ = stored(c, fn, I, o, K, conv)
    m = flags(o, K, "m")
    has = N.c_has(o, K)
    asked = b_and(b_not(has), b_or(
        b_and(m, c_truth(man)), b_and(b_not(m), c_truth(opt))))
    # names of entries never start with an underscore
    entry = b_not(N.c_starts(K, const("_"), "starts"))
    bad = b_and(b_and(b_and(I.normal, entry), b_and(c_in(K, conv), asked)),
                b_not(got))
    c.ob("all-missing-entries-added", q(fn), not sat(bad),
         f"add_missing leaves out an entry when {why(bad)}", fwhere(fn))
    bad = b_and(b_and(got, entry), has)
    c.ob("existing-entries-kept", q(fn), not sat(bad),
         f"add_missing overwrites an existing entry when {why(bad)}",
         fwhere(fn))
    bad = b_and(b_and(got, entry), b_not(asked))
    c.ob("only-the-kind-asked-for", q(fn), not sat(bad),
         "add_missing adds an entry of a kind that was not asked for when "
         f"{why(bad)}", fwhere(fn))


def reported(e):
    """The issues found by this call of verify raise or warn."""
    v = dict(e.kw).get("issue_handling")
    return v is None or all(x in (const("raise"), const("warn"))
                            for _, x in alts(v))
