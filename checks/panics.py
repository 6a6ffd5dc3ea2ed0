"""Panic reachability, shared by P01, P02 and P03."""
import core
from terms import show


def key_of(F, root, e):
    """line-number-free identity of a panic site: entry point, the function of the crate it is in
    and the panicking operation"""
    inner = None
    for fnid, _ in reversed(e.stack):
        f = F.fns[fnid]
        if f["krate"] in ("ikal",):
            inner = f["path"]
            break
    return "%s|%s|%s" % (F.fns[root]["name"], inner or "?", e.what)


def check(ctx, roots, what):
    F = ctx.F
    for r in roots:
        try:
            res = ctx.run(r)
        except core.Undecided as e:
            ctx.undec(F.fns[r]["name"], e)
            continue
        bad = {}
        for e in res.events:
            bad.setdefault(key_of(F, r, e), e)
        if not bad:
            ctx.ob("%s|no panic" % F.fns[r]["name"], True, "every path of %s returns" % what)
        for k, e in bad.items():
            stack = " -> ".join("%s (%s)" % (F.fns[a]["path"], sp) for a, sp in e.stack)
            ctx.ob(k, False, "%s %s reached via %s when %s" % (
                e.kind, e.what, stack, "; ".join(show(g)[:160] for g in e.guards)[:600]))


def ikal_fns(F):
    for i, f in enumerate(F.fns):
        if f.get("body") and f["dk"] != "Closure" and "{closure" not in f["path"]:
            yield i, f


def is_ikal_type(F, ty):
    t = F.types[ty]
    while t["k"] == "ref":
        t = F.types[t["to"]]
    return t["k"] == "adt" and (t.get("path") or "").startswith("ikal::")
