"""Order of date values, for every combination of representations: by calendar day if one of them has no time, else by
wall clock (or by instant if both know their offset)."""
import engine as E
import models
from checks.util import *
from checks import p25
import core


def normal(F, o):
    """an ordering with constants as -1, 0, 1, and decided comparisons replaced by the comparison itself"""
    if o is None or o.op != "phi":
        return plain(F, o)
    out = []
    for g, x in alts(o):
        if path_of(F, x) == OPTION and x.a[1] == 1:
            for h, y in alts(x.a[2]):
                out += [(k, x.a[0], plain(F, y)) for k in split(AND([g, h]))]
        else:
            out += [(k, None, plain(F, x)) for k in split(g)]
    got = {}
    for g, w, x in out:
        t = decided(g, x)
        if t is not x and x.a[0] != 0:
            got[t] = 1
    res = []
    for g, w, x in out:
        t = decided(g, x)
        if t is not x and x.a[0] == 0 and t not in got:
            r = models.ord_rev(t)
            t = r if r in got else t
        res.append((g, t if w is None else mk("adt", w, 1, t)))
    if all(x is res[0][1] for _, x in res):
        return res[0][1]
    return E.mkphi(res)


def unfold(ctx, o, trait="core::cmp::Ord::cmp", depth=3):
    """comparisons of rebuilt values of a crate type replaced by what they do"""
    F = ctx.F
    if o is None or depth == 0:
        return o
    if o.op == "phi":
        return E.mkphi([(g, unfold(ctx, x, trait, depth)) for g, x in o.a[0]])
    if path_of(F, o) == OPTION and o.a[1] == 1:
        return mk("adt", o.a[0], 1, unfold(ctx, o.a[2], trait, depth))
    p = sides(ctx, o)
    if p is None or p[0].op != "adt" or p[1].op != "adt" or p[0].a[0] != p[1].a[0]:
        return o
    fn = F.fn_for("core::cmp::Ord::cmp", p[0].a[0])
    if fn is None or not F.body(fn):
        return o
    for x, y, back in ((p[0], p[1], False), (p[1], p[0], True)):
        st = E.St()
        args = []
        for n, z in enumerate((x, y)):
            st.mem[("tmp", "in", n)] = z
            args.append(mk("ref", ("tmp", "in", n), ()))
        v = normal(F, ctx.run(fn, args, st=st, key=("unfold", fn, x, y)).value)
        if has(v, lambda t: t.op in ("ord", "ordrev") and set(sides(ctx, t) or ()) == set(p)):
            continue        # defined by the other order
        return unfold(ctx, models.ord_back(v) if back else v, trait, depth - 1)
    return o


def split(g):
    if g.op == "or":
        return [k for x in g.a for k in split(x)]
    if g.op == "and":
        for x in g.a:
            if x.op == "or" and len(x.a) <= 4:
                rest = [y for y in g.a if y is not x]
                return [k for y in x.a for k in split(AND(rest + [y])) if k is not FALSE and E.assume(E.St(), k) is not None]
    return [g]


def plain(F, x):
    if path_of(F, x) == "core::cmp::Ordering":
        return I(x.a[1] - 1)
    if path_of(F, x) == OPTION and x.a[1] == 1:
        return mk("adt", x.a[0], 1, normal(F, x.a[2]))
    return x


def decided(g, x):
    if x.op != "int" or abs(x.a[0]) > 1:
        return x
    s = E.assume(E.St(), g)
    if s is None:
        return x
    for l in literals(g):
        t = l.a[0]
        if t.op in ("ord", "ordrev"):
            if E.ev(s, E.cond(t, x.a[0])) is TRUE:
                return t
            if E.ev(s, E.cond(t, -x.a[0])) is TRUE:
                return models.ord_rev(t) if t.op == "ord" else t.a[0]
    return x


def compare(ctx, ty, a, b, trait):
    F = ctx.F
    fn = F.fn_for(trait, ty)
    if fn is None or not F.body(fn):
        raise core.Undecided("no ordering of " + F.types[ty]["s"])
    st = E.St()
    args = []
    for n, x in enumerate((a, b)):
        st.mem[("tmp", "in", n)] = x
        args.append(mk("ref", ("tmp", "in", n), ()))
    r = ctx.run(fn, args, st=st, key=("dateord", trait, a, b))
    return unfold(ctx, normal(F, r.value), trait)


def level(t):
    """(day|wall|instant, core value)"""
    if t.op == "call":
        n = t.a[0].split("::")[-1]
        if n in ("date", "date_naive") and len(t.a) == 2:
            l = level(t.a[1])
            return l and ("day", l[1])
        if n == "naive_local" and len(t.a) == 2:
            return ("wall", t.a[1])
        if n in ("naive_utc", "timestamp", "to_utc") and len(t.a) == 2:
            return ("instant", t.a[1])
        if n in ("and_hms", "and_hms_opt", "and_time") and t.a[1].op in ("vfld", "sym"):
            return ("a time of that day", t.a[1])
        if n in ("year", "month", "day", "ordinal", "time", "hour", "minute", "second", "weekday") and len(t.a) == 2:
            return (n, t.a[1])
        return None
    if t.op in ("vfld", "sym"):
        return ("self", t)
    return None


def sides(ctx, o):
    """the two core values an ordering term compares"""
    rev = False
    while o.op == "ordrev":
        o, rev = o.a[0], not rev
    if o.op != "ord":
        return None
    a, b = o.a
    return (b, a) if rev else (a, b)


def resolve(ctx, F, o):
    """unfold comparisons of crate types down to library values"""
    for _ in range(3):
        s = sides(ctx, o)
        if s is None:
            return None
        a, b = s
        ty = a.a[0] if a.op == "adt" else None
        if ty is None or not F.types[ty].get("path", "").startswith("ikal::"):
            return s
        o = compare(ctx, ty, a, b, "core::cmp::Ord::cmp")
    return None


def check(ctx, types=(p25.DATE, p25.DATETIME)):
    F = ctx.F
    for path in types:
        ty = adt_type(F, path)
        if ty is None:
            continue
        A = list(p25.kinds(F, ty, E.typed(mk("sym", ("date", 1, "")), ty)))
        B = list(p25.kinds(F, ty, E.typed(mk("sym", ("date", 2, "")), ty)))
        for an, av, ac, ap in A:
            for bn, bv, bc, bp in B:
                for trait in ("core::cmp::PartialOrd::partial_cmp", "core::cmp::Ord::cmp"):
                    key = "%s of %s: %s/%s" % (trait.rsplit("::", 1)[1], path.rsplit("::", 1)[1], an, bn)
                    try:
                        one(ctx, key, ty, trait, (an, av, ac, ap), (bn, bv, bc, bp))
                    except core.Undecided as e:
                        ctx.undec(key, e)


def one(ctx, key, ty, trait, A, B):
    F = ctx.F
    o = compare(ctx, ty, A[1], B[1], trait)
    if trait.endswith("partial_cmp"):
        for g, x in alts(o):
            if path_of(F, x) == OPTION and x.a[1] == 0:
                ctx.ob(key, False, "two dates are not comparable")
                return
        o = E.vfld(o, 1, 0)
    if o.op == "int":
        ctx.ob(key, False, "the order does not depend on the dates")
        return
    s = resolve(ctx, F, o)
    if s is None:
        ctx.undec(key, show(o, 0, 3)[:150])
        return
    la, lb = level(s[0]), level(s[1])
    if la is None or lb is None:
        ctx.undec(key, show(s[0], 0, 3)[:100] + " / " + show(s[1], 0, 3)[:100])
        return
    if (la[1], lb[1]) != (A[2], B[2]):
        if {la[1], lb[1]} == {A[2], B[2]}:
            ctx.ob(key, False, "the order is reversed")
        else:
            ctx.undec(key, "compares something else")
        return
    ok = grade(la[0], A) == grade(lb[0], B) and grade(la[0], A) in (("day",) if A[3] or B[3] else ("wall", "instant"))
    ctx.ob(key, ok, "%s is compared by %s with %s by %s" % (A[0], grade(la[0], A), B[0], grade(lb[0], B)))


def grade(l, K):
    if l != "self":
        return l
    return "day" if K[3] else "instant" if K[0].endswith("Local") else "wall"
