"""Windows over the occurrences.

The value returned by between, after and at is taken apart into the chain of library adaptors around the unbounded
iteration. Each predicate is evaluated on a symbolic occurrence and must be equivalent, under every ordering of its start
and the bounds, to "starts before the lower bound" (skipped while it holds) or "starts before the upper bound" (taken while
it holds); the upper bound of `at` is the given date moved by exactly 86400 seconds, and only a date that cannot be moved
leaves it open. Adaptors that drop, limit or reorder occurrences otherwise are violations."""
import engine as E
import models
from checks.util import *
from checks import p25, occur, dateord
import core

RULE = "a window keeps the occurrences from its start up to, excluding, its end, in order"
FLOOR = 12
ADAPT = "core::iter::adapters::"
HARMLESS = ("Fuse", "Peekable", "Inspect", "Map", "Cloned", "Copied", "IntoIter")
NAMES = {"between": (True, True), "after": (True, False), "at": (True, True)}


def run(ctx):
    F = ctx.F
    n = 0
    for i, f in enumerate(F.fns):
        name = f["path"].rsplit("::", 1)[-1]
        if f["krate"] != "ikal" or not f.get("body") or name not in NAMES or not f["path"].startswith("ikal::iter::Recur::"):
            continue
        t = F.types[f["ins"][0]]
        if t.get("path") != occur.ITER:
            continue
        cty = t["args"][0]
        cname = F.types[cty]["path"].rsplit("::", 1)[1]
        dty = f["ins"][1]
        if F.types[dty].get("path") != p25.DATE:
            continue
        n += 1
        for kind, val, c, plain in p25.kinds(F, dty, E.typed(mk("sym", ("bound", 1, "")), dty)):
            key = "%s of %s from %s" % (name, cname, kind)
            try:
                one(ctx, key, i, name, cty, dty, val, c)
            except core.Undecided as e:
                ctx.undec(key, e)
    if not n:
        ctx.undec("windows", "no window function found")
    dateord.check(ctx)


def one(ctx, key, i, name, cty, dty, val, c):
    F = ctx.F
    f = F.fns[i]
    base = E.typed(mk("sym", ("occurrences", i, "")), f["ins"][0])
    args = [base, val]
    upper = None
    if name == "between":
        upper = E.typed(mk("sym", ("bound", 2, "")), dty)
        args.append(upper)
    r = ctx.run(i, args, key=("window", key))
    for g, v in alts(r.value):
        s = E.assume(r.st, g)
        if s is None:
            continue
        stages = chain(ctx, key, s, v, base)
        if stages is None:
            continue
        lower_ok = upper_ok = False
        x = E.typed(mk("sym", ("occurrence", i, "")), cty)
        start, present = start_of(F, cty, x)
        for kind, clo in stages:
            p = predicate(ctx, key, s, clo, x, cty, i)
            st = E.assume(s, present)
            if kind in ("SkipWhile", "Filter"):
                want = E.cond(order(ctx, start, val), -1)
                if kind == "Filter":
                    want = NOT(want)
                if same(st, p, want):
                    lower_ok = True
                    ctx.ob(key + " lower", True)
                    continue
                what = "lower"
                if kind == "Filter" and not lower_only(p, start, val):
                    ctx.ob(key + " filter", False, "occurrences are dropped: " + show(p, 0, 4)[:200])
                    continue
            else:
                what = "upper"
                ok, why = below(ctx, F, st, p, start, upper, name, c)
                if ok:
                    upper_ok = True
                    ctx.ob(key + " upper", True)
                    continue
            if what == "upper" and upper is None and timeless(ctx, p, start, c):
                ctx.ob(key + " upper", False, "the end of the window does not depend on the time of day of the given date")
                return
            if unknown(p):
                ctx.undec(key + " " + what, show(p, 0, 4)[:150])
                return
            ctx.ob(key + " " + what, False, "the %s bound is not start < bound: %s" % (what, show(p, 0, 5)[:200]))
            return
        ctx.ob(key + " lower", lower_ok, "occurrences before the start of the window are kept")
        if NAMES[name][1]:
            ctx.ob(key + " upper", upper_ok, "occurrences at or after the end of the window are kept")
        else:
            ctx.ob(key + " open", not any(k == "TakeWhile" for k, _ in stages), "the window has an end")


def chain(ctx, key, s, v, base):
    """[(adaptor, predicate)] from the outside in, None if undecided"""
    F = ctx.F
    out = []
    while v is not base:
        if v.op != "adt":
            ctx.undec(key, show(v, 0, 2)[:150])
            return None
        t = F.types[v.a[0]]
        p = t.get("path") or ""
        nm = p.rsplit("::", 1)[-1]
        fields = {f[0]: v.a[2 + k] for k, f in enumerate(t["v"][v.a[1]]["f"])}
        inner = fields.get("iter") or fields.get("inner")
        if not p.startswith("core::iter::") or inner is None:
            if p.startswith("alloc::"):
                ctx.ob(key, False, "the occurrences are collected first: " + p)
                return None
            ctx.undec(key, "adaptor " + (p or t["s"])[:100])
            return None
        if nm in ("SkipWhile", "TakeWhile", "Filter"):
            fl = fields.get("flag")
            if fl is not None and fl is not I(0):
                ctx.ob(key, False, "the window starts in the wrong state")
                return None
            out.append((nm, fields["predicate"]))
        elif nm in ("Fuse",):
            if path_of(F, inner) == OPTION:
                inner = inner.a[2]
        elif nm in ("Take", "Skip", "StepBy", "Rev", "Chain", "Cycle", "FilterMap", "MapWhile", "Scan", "Zip"):
            if nm in ("MapWhile", "FilterMap", "Scan", "Zip", "Chain"):
                ctx.undec(key, "adaptor " + nm)
            else:
                ctx.ob(key, False, "occurrences are dropped or moved by " + nm)
            return None
        else:
            ctx.undec(key, "adaptor " + nm)
            return None
        v = inner
    return out


def start_of(F, cty, x):
    k = field_index(F, cty, "dtstart")
    ty = F.types[cty]["v"][0]["f"][k][1]
    own = E.fld(x, k, ty)
    if F.types[ty].get("path") == OPTION:
        return E.vfld(own, 1, 0), E.cond(E.discr_of(own), 1)
    return own, TRUE


def predicate(ctx, key, s, clo, x, cty, i):
    """formula of a predicate applied to (a reference to) the occurrence x"""
    import policy
    en = E.Interp(ctx.F)
    en.is_opaque = policy.modular(ctx.F, i)
    en.stack.append((i, ("root", i)))
    slot, it = ("tmp", "pred", key), ("tmp", "occ", key)
    st = s.copy()
    st.mem[slot], st.mem[it] = clo, x
    arg = mk("ref", it, ())
    try:
        st2, v = en.call_value(st, mk("ref", slot, ()), [arg], ("window", key), None)
    except E.Unsupported as e:
        raise core.Undecided(str(e)[:150])
    if st2 is None:
        raise core.Undecided("the predicate never returns")
    return E.cond(v, 1)


def order(ctx, a, b):
    return occur.compare(ctx, a, b)


def same(s, p, q):
    return feasible(s, AND([p, NOT(q)])) is False and feasible(s, AND([NOT(p), q])) is False


def unknown(p):
    return has(p, lambda t: t.op == "call" and t.a[0].split("::")[-1] not in ("date", "date_naive", "naive_local", "Months", "Days"))


def lower_only(p, start, val):
    return uses(p, val)


def seconds(t):
    if t.op == "delta" and t.a[0].op == "int" and t.a[1].op == "int":
        return t.a[0].a[0] * t.a[1].a[0]
    if t.op == "tdsum":
        out = 0
        for y, n in t.a[0]:
            k = seconds(y)
            if k is None:
                return None
            out += k * n
        return out
    if t.op == "call" and "Days" in t.a[0].split("::") and t.a[1].op == "int":
        return t.a[1].a[0] * 86400
    return None


DAY = ("date", "date_naive")


def timeless(ctx, p, start, c):
    """is p about the calendar day of a date and time c only?"""
    if not uses(p, c) or not c.op == "vfld":
        return False
    days = {t: mk("sym", ("day", t.id, "")) for t in subterms(p)
            if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in DAY and not uses(t, start) and uses(t, c)}
    return bool(days) and not uses(E.subst(p, days), c)


def below(ctx, F, s, p, start, upper, name, c):
    if upper is not None:
        return same(s, p, E.cond(order(ctx, start, upper), -1)), ""
    # at: the given date one day later, unless there is no such date
    bounds = {}
    for t in subterms(p):
        if t.op == "ord":
            for y in t.a:
                if y is not start and not uses(y, start):
                    bounds[y.id] = y
    for y in bounds.values():
        cs, z = p25.unwrap(F, y)
        if z.op == "vfld":
            continue
        n, w = 0, z
        while w.op == "shift":
            k = seconds(w.a[2])
            if k is None:
                return False, ""
            n += -k if w.a[0].a[0].startswith("sub") else k
            w = w.a[1]
        if w is not c or n != 86400:
            continue
        u, fits = s, []
        for l in literals(p):
            if l.a[0].op == "fits" and u is not None:
                u = E.assume(u, E.cond(l.a[0], 1))
                fits.append(E.cond(l.a[0], 0))
        for g in fits:
            if feasible(s, AND([g, NOT(p)])) is not False:
                return False, ""
        return u is not None and same(u, p, E.cond(order(ctx, start, y), -1)), ""
    return False, ""
