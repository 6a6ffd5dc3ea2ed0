"""What distinguishes an occurrence from its component.

The component kept for the following call (and the one kept when an exception is skipped) is compared field by field with
the current one, under the conditions in which it is kept: every property outside the schedule is the very same value;
each of start, end and due is the same value moved by one step of the same rule (an absent one stays absent); the rule is
the same apart from its count. The component handed out is the current one; `recurrent` starts from the component itself."""
import engine as E
from checks.util import *
from checks.occur import *
from checks import p25
import core

RULE = "an occurrence keeps every property of its component except its dates, all moved by one step of the rule"
FLOOR = 60


def run(ctx):
    F = ctx.F
    its = iterators(ctx)
    if not its:
        ctx.undec("iterators", "no occurrence iterator found")
    for i in its:
        try:
            N = Next(ctx, i)
            one(ctx, N)
        except core.Undecided as e:
            ctx.undec(F.fns[i]["name"], e)
    starts(ctx)


def one(ctx, N):
    ys, _ = N.yields()
    if not ys:
        ctx.ob(N.name + " yields", False, "no occurrence is ever yielded")
    for g, y in ys:
        s = E.assume(N.r.st, g)
        if s is None:
            continue
        x = source(N, g, y)
        related(ctx, N, s, N.name + " yielded", y, x, moved=False)
        nxt = E.restrict(s, N.post(N.r.st))
        n = 0
        for h, z in live(s, nxt):
            if path_of(N.F, z) != OPTION:
                ctx.undec(N.name + " next", show(z, 0, 2)[:120])
            elif z.a[1] == 1:
                n += 1
                t = E.assume(s, h)
                related(ctx, N, t if t is not None else s, N.name + " next", z.a[2], x, moved=True)
        if not n:
            ctx.ob(N.name + " next", False, "nothing is kept for the following call")
    for x, v, rec in N.turns:
        for h, z in alts(v):
            if path_of(N.F, z) != OPTION:
                if any(z is q for q in N.X):
                    continue
                ctx.undec(N.name + " skipped", show(z, 0, 2)[:120])
            elif z.a[1] == 1:
                t = E.assume(rec["back"], h)
                if t is not None:
                    related(ctx, N, t, N.name + " skipped", z.a[2], N.cur(x), moved=True)


def source(N, g, y):
    """the component under consideration when y is handed out"""
    for x in reversed(N.X):
        if uses(y, x) or uses(g, x):
            return N.cur(x)
    return N.cur(N.X[0])


def related(ctx, N, s, where, z, cur, moved):
    """z is cur, its schedule moved by one step if asked"""
    F = N.F
    if z is cur:
        ctx.ob(where, not moved, "the same occurrence is kept" if moved else "")
        return
    rule = E.vfld(N.field(cur, "rrule"), 1, 0)
    for i, f in enumerate(F.types[N.ty]["v"][0]["f"]):
        name = f[0]
        key = "%s %s" % (where, name)
        a, own = N.field(z, name), N.field(cur, name)
        opt = F.types[f[1]].get("path") == OPTION
        if name == "rrule":
            bad = [x for _, x in live(s, a) if not same_but_count(F, x, own)]
            ctx.ob(key, not bad, "the rule changes: " + "; ".join(show(x, 0, 2)[:120] for x in bad[:2]))
        elif name not in SCHEDULE or not moved:
            ctx.ob(key, kept(s, a, own), "%s is not that of the component: %s" % (name, show(a, 0, 3)[:200]))
        else:
            moved_field(ctx, N, s, key, a, own, rule, opt)


def moved_field(ctx, N, s, key, a, own, rule, opt):
    F = N.F
    if not opt:
        for _, x in live(s, a):
            verdict(ctx, N, key, x, rule, own)
        return
    for want in (0, 1):
        t = E.assume(s, E.cond(E.discr_of(own), want))
        if t is None:
            continue
        for h, x in live(t, a):
            if path_of(F, x) != OPTION:
                if x is own and want == 0:
                    ctx.ob(key, True)
                elif x is own or uses(x, own):
                    v = is_step(N, x, rule, E.vfld(own, 1, 0))
                    if v == "unknown" or (x.op == "call" and x.a[0] in N.steps):
                        verdict(ctx, N, key, x, rule, E.vfld(own, 1, 0))
                    else:
                        ctx.ob(key, False, "a date that is present does not move")
                else:
                    ctx.undec(key, show(x, 0, 2)[:120])
            elif want == 0:
                ctx.ob(key, x.a[1] == 0, "a date that is absent appears: " + show(x, 0, 3)[:150])
            elif x.a[1] == 0:
                ctx.ob(key, False, "a date that is present disappears")
            else:
                u = E.assume(t, h)
                for _, y in live(u if u is not None else t, x.a[2]):
                    verdict(ctx, N, key, y, rule, E.vfld(own, 1, 0))


BOUNDS = ("max", "min", "clamp")


def verdict(ctx, N, key, x, rule, own):
    v = is_step(N, x, rule, own)
    if v == "unknown" and x.op == "call" and x.a[0].rsplit("::", 1)[-1] in BOUNDS and \
            any(hasattr(y, "op") and is_step(N, y, rule, own) == "yes" for y in x.a[1:]):
        v = "no"
    if v == "unknown":
        ctx.undec(key, show(x, 0, 3)[:150])
    else:
        ctx.ob(key, v == "yes", "the date is not moved by one step of the rule: " + show(x, 0, 4)[:200])


def same_but_count(F, x, own):
    """the optional rule x is `own` up to its count"""
    if x is own:
        return True
    rt = adt_type(F, p25.RECUR)
    if path_of(F, x) != OPTION:
        return False
    if x.a[1] == 0:
        return False
    names = [n for n in field_names(F, rt) if n != "count"]
    return same_rule(F, x.a[2], E.vfld(own, 1, 0), names)


def starts(ctx):
    F = ctx.F
    n = 0
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or len(f.get("ins") or ()) != 1 or i not in set(F.pubs):
            continue
        if not isinstance(f.get("out"), int) or F.types[f["out"]].get("path") != ITER:
            continue
        cty = strip_ref(F, f["ins"][0])
        if not F.types[cty].get("path", "").startswith("ikal::components::"):
            continue
        key = f["path"].rsplit("::", 2)[-2] + " start"
        slot = ("tmp", "comp", i)
        c = E.typed(mk("sym", ("comp", i, "")), cty)
        st = E.St()
        st.mem[slot] = c
        n += 1
        try:
            r = ctx.run(i, [mk("ref", slot, ())], st=st, key=("start", i))
        except core.Undecided as e:
            ctx.undec(key, e)
            continue
        for _, v in alts(r.value):
            item = v.a[2] if v.op == "adt" and len(v.a) == 3 else None
            ok = item is not None and path_of(F, item) == OPTION and item.a[1] == 1 and item.a[2] is c
            if ok or item is None or path_of(F, item) != OPTION:
                if ok:
                    ctx.ob(key, True)
                else:
                    ctx.undec(key, show(v, 0, 2)[:120])
            elif item.a[1] == 0:
                ctx.ob(key, False, "there may be no occurrence at all")
            else:
                z = item.a[2]
                for fi, ff in enumerate(F.types[cty]["v"][0]["f"]):
                    a = z.a[2 + fi] if z.op == "adt" else E.fld(z, fi)
                    ctx.ob(key + " " + ff[0], kept(E.St(), a, E.fld(c, fi)), "the first occurrence has another %s: %s" % (ff[0], show(a, 0, 2)[:120]))
    if not n:
        ctx.undec("recurrent", "no constructor found")
