"""Conversions and arithmetic of dates.

Every public function that turns one date value (Date, DateTime or a chrono date) into another, and every + and - of a
date, is evaluated on each representation of the date. The result must denote the same day and wall-clock time: a value
without time becomes midnight of its day and stays a date where the result type has dates, a local date-time keeps its
instant where the result can hold one, a conversion to local time may fail only where that local time does not exist."""
import engine as E
from checks.util import *
from checks import p25
import core

RULE = "conversions between date types keep the day and the wall-clock time; + keeps the kind of value; - is the wall-clock difference"
FLOOR = 30
TECHNIQUE = "symbolic evaluation of every conversion and operator over the representations of a date; the result term must be the source's day, wall clock or instant"
TYPES = (p25.DATE, p25.DATETIME, p25.NDATE, p25.NDT, p25.LDT)
DELTA = "chrono::time_delta::TimeDelta"


def last(t):
    if t.op != "call":
        return None
    n = t.a[0]
    if n.endswith(">") and "<" in n:        # the method's own type arguments
        d = 0
        for k in range(len(n) - 1, -1, -1):
            d += (n[k] == ">") - (n[k] == "<")
            if d == 0:
                n = n[:k]
                break
    return n.rstrip(":").split("::")[-1]


CHANGES = {"naive_utc", "and_utc", "from_utc_datetime", "to_utc", "succ_opt", "pred_opt", "with_hour", "with_minute", "with_second",
           "with_day", "with_month", "with_year", "with_nanosecond", "with_day0", "with_month0", "with_ordinal", "timestamp"}


def meaning(t, c, plain, local):
    """'self', 'day', 'midnight', 'wall', 'time', 'local' (local time of the wall clock), 'other' or None (not understood)"""
    if t is c:
        return "self"
    n = last(t)
    if n in CHANGES:
        return "other"
    if n is not None:
        xs = [meaning(x, c, plain, local) if hasattr(x, "op") else None for x in t.a[1:]]
        if "other" in xs:
            return "other"
        k = xs[0] if xs else None
        if n == "naive_local" and len(xs) == 1:
            return "wall" if k in ("self", "local") and (local or k == "local") else "wall" if k == "wall" else None
        if n in ("date", "date_naive") and len(xs) == 1:
            if k in ("wall", "midnight", "local") or k == "self" and not plain:
                return "day"
            return None
        if n == "time" and len(xs) == 1:
            return "time" if k in ("wall", "self", "local") and not plain else None
        if n in ("and_hms", "and_hms_opt"):
            if k in ("day",) or k == "self" and plain:
                zs = [x.a[0] if x.op == "int" else None for x in t.a[2:]]
                if all(z == 0 for z in zs):
                    return "midnight"
                return "other" if None not in zs else None
            return None
        if n in ("and_time", "new") and len(xs) == 2 and (k == "day" or k == "self" and plain):
            if xs[1] == "time":
                return "wall"
            if t.a[2].op == "call" and ("default" in t.a[2].a[0] or "MIN" in t.a[2].a[0]):
                return "midnight"
            if t.a[2].op == "adt" and all(hasattr(x, "op") and x.op == "int" for x in t.a[2].a[2:]):
                return "midnight" if all(x.a[0] == 0 for x in t.a[2].a[2:]) else "other"
            return None
        if n in ("and_local_timezone", "from_local_datetime"):
            ks = [x for x in xs if x is not None]
            return "localresult" if len(ks) == 1 and (ks[0] in ("wall", "midnight") or ks[0] == "self" and not plain and not local) else None
        if n in ("earliest", "latest", "single") and k == "localresult":
            return "localoption"
        if n == "with_timezone":
            return k if k in ("self", "local") else None
        return None
    if t.op == "shift":
        return "other"
    if t.op == "vfld":
        k = meaning(t.a[0], c, plain, local)
        if k in ("localoption", "localresult"):
            return "local"
    if t.op == "adt" and all(hasattr(x, "op") and x.op in ("int", "adt", "str") for x in t.a[2:]):
        return None
    return None


def functions(F):
    pubs = set(F.pubs)
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or "{closure" in f["path"] or i not in pubs:
            continue
        ins = f.get("ins") or ()
        if not ins or F.types[strip_ref(F, ins[0])].get("path") not in TYPES or (f.get("trait") or "").startswith("core::clone"):
            continue
        o = F.types[f["out"]]
        if o.get("path") in (RESULT, OPTION):
            o = F.types[o["args"][0]]
        out = o.get("path")
        if len(ins) == 1 and (out in TYPES or f["path"].endswith("::has_time")):
            yield i, "has" if out not in TYPES else "conv", out
        elif len(ins) == 2 and (f.get("trait") or "").startswith("core::ops::arith::"):
            rhs = F.types[strip_ref(F, ins[1])].get("path")
            if rhs == DELTA and out in TYPES:
                yield i, "shift", out
            elif rhs in TYPES and out == DELTA:
                yield i, "diff", out


def run(ctx):
    F = ctx.F
    seen = set()
    for i, what, out in functions(F):
        f = F.fns[i]
        ty = strip_ref(F, f["ins"][0])
        name = nice(F, f)
        for kname, val, c, plain in p25.kinds(F, ty, E.typed(mk("sym", ("date", 0, F.types[ty]["s"])), ty)):
            local = F.types[E.TYOF[c]].get("path") == p25.LDT if c in E.TYOF else False
            key = name + (" of " + kname if kname else "")
            try:
                if what == "diff":
                    ty2 = strip_ref(F, f["ins"][1])
                    for k2, v2, c2, p2 in p25.kinds(F, ty2, E.typed(mk("sym", ("date", 1, F.types[ty2]["s"])), ty2)):
                        l2 = F.types[E.TYOF[c2]].get("path") == p25.LDT
                        diff(ctx, key + " and " + k2, i, (val, c, plain, local), (v2, c2, p2, l2))
                else:
                    {"conv": conv, "has": has_time, "shift": shifted}[what](ctx, key, i, out, kname, val, c, plain, local)
            except core.Undecided as e:
                ctx.undec(key, e)
        seen.add(what)
    if "conv" not in seen:
        ctx.undec("conversions", "none found")


def nice(F, f):
    t = (f.get("trait") or "").split("::")
    if len(t) > 1 and t[-2] in ("From", "TryFrom", "Into", "TryInto"):
        return "%s -> %s" % (F.types[strip_ref(F, f["ins"][0])]["s"].split("<")[0].rsplit("::", 1)[-1],
                             F.types[f["self_ty"]]["s"].split("<")[0].rsplit("::", 1)[-1] if f.get("self_ty") is not None else "?")
    return f["path"].replace("ikal::properties::date::", "").replace("core::ops::arith::", "").replace("chrono::time_delta::", "")


def value(ctx, i, vals):
    F = ctx.F
    f = F.fns[i]
    st = E.St()
    args = []
    for n, v in enumerate(vals):
        if F.types[f["ins"][n]]["k"] == "ref":
            st.mem[("tmp", "in", n)] = v
            args.append(mk("ref", ("tmp", "in", n), ()))
        else:
            args.append(v)
    v = ctx.run(i, args, st=st, key=("p33",) + tuple(vals)).value
    if v is None:
        raise core.Undecided("never returns")
    return v


def cases(F, v):
    """(guard, 'some'/'none', value)"""
    for g, x in alts(v):
        if feasible(E.St(), g) is False:
            continue
        p = path_of(F, x)
        if p == RESULT:
            k, x = ("some" if x.a[1] == 0 else "none"), x.a[2]
        elif p == OPTION:
            k, x = ("some", x.a[2]) if x.a[1] == 1 else ("none", None)
        else:
            k = "some"
        if k == "none":
            yield g, k, None
            continue
        for h, y in alts(x):
            if feasible(E.assume(E.St(), g) or E.St(), h) is not False:
                yield AND([g, h]), k, y


def conv(ctx, key, i, out, kname, val, c, plain, local):
    F = ctx.F
    any_ = False
    for g, k, x in cases(F, value(ctx, i, [val])):
        if k == "none":
            # only if the local time does not exist
            s = E.assume(E.St(), g)
            ok = out == p25.LDT and not local and any(
                meaning(l.a[0].a[0], c, plain, local) == "localoption" and E.ev(s, E.cond(l.a[0], 1)) is FALSE
                for l in literals(g) if l.a[0].op == "discr")
            if not ok and any(l.a[0].op == "discr" and meaning(l.a[0].a[0], c, plain, local) == "localresult" for l in literals(g)):
                ok = True
            ctx.ob(key + " fails", ok, "the conversion fails although the value can be represented")
            continue
        cs, z = p25.unwrap(F, x)
        m = meaning(z, c, plain, local)
        any_ = True
        if m is None:
            ctx.undec(key, show(z, 0, 6)[:320])
            continue
        if z is not c and m == "self":
            m = "self"
        want = expected(out, cs, plain, local)
        if want is None:
            ctx.ob(key, False, "becomes a %s value" % "::".join(cs))
        else:
            ctx.ob(key, m in want, "the result is %s, expected %s" % (TEXT.get(m, m), " or ".join(TEXT.get(w, w) for w in want)))
    if not any_:
        ctx.ob(key, False, "there is never a result")


TEXT = {"self": "the value itself", "day": "its day", "midnight": "midnight of its day", "wall": "its wall-clock time",
        "local": "the local time of that wall clock", "other": "another point in time"}


def expected(out, cs, plain, local):
    """acceptable meanings of the innermost value, given the constructors around it"""
    if out in (p25.DATE, p25.DATETIME):
        inner = cs[-1] if cs else None
        if inner == "Date":
            return ("self", "day") if plain else None
        if out == p25.DATE and plain:
            return None
        if inner == "Local":
            return ("self",) if local else None
        if inner == "Naive":
            if local:
                return None
            return ("midnight",) if plain else ("self", "wall")
        return None
    if out == p25.NDATE:
        return ("self", "day") if plain else ("day",)
    if out == p25.NDT:
        return ("midnight",) if plain else ("wall",) if local else ("self", "wall")
    if out == p25.LDT:
        return ("self",) if local else ("local",)
    return None


def has_time(ctx, key, i, out, kname, val, c, plain, local):
    v = value(ctx, i, [val])
    if v.op != "int":
        ctx.undec(key, show(v, 0, 3)[:100])
    else:
        ctx.ob(key, bool(v.a[0]) == (not plain), "has_time is %s" % bool(v.a[0]))


def shifted(ctx, key, i, out, kname, val, c, plain, local):
    F = ctx.F
    f = F.fns[i]
    op = f["path"].rsplit("::", 1)[1].replace("_assign", "")
    rhs = E.typed(mk("sym", ("rhs", "delta")), f["ins"][1])
    cs0, _ = p25.unwrap(F, val)
    for g, k, x in cases(F, value(ctx, i, [val, rhs])):
        cs, z = p25.unwrap(F, x)
        if z.op != "shift":
            m = meaning(z, c, plain, local)
            if m is None:
                ctx.undec(key, show(z, 0, 6)[:320])
            else:
                ctx.ob(key, False, "the duration is ignored")
            continue
        m = meaning(z.a[1], c, plain, local)
        if z.a[1].op == "shift":
            ctx.ob(key, False, "moved twice")
            continue
        if m is None:
            ctx.undec(key, show(z, 0, 6)[:320])
            continue
        sign = 1 if z.a[0].a[0].startswith("add") else -1
        amount = z.a[2]
        if amount.op == "call" and last(amount) in ("neg",):
            amount, sign = amount.a[1], -sign
        if amount.op == "tdsum" and len(amount.a[0]) == 1 and abs(amount.a[0][0][1]) == 1:
            amount, sign = amount.a[0][0][0], sign * amount.a[0][0][1]
        if amount is not rhs:
            ctx.ob(key, False, "moved by " + show(amount, 0, 3)[:100]) if uses(amount, rhs) or amount.op in ("delta", "int") else ctx.undec(key, show(amount, 0, 3)[:100])
            continue
        ctx.ob(key + " direction", sign == (1 if op == "add" else -1), "moved in the wrong direction")
        if out in (p25.DATE, p25.DATETIME):
            ctx.ob(key, cs == cs0 and m == "self", "the result is %s moved, as %s" % (TEXT.get(m, m), "::".join(cs)))
        else:
            want = expected(out, cs, plain, local)
            ctx.ob(key, want is not None and m in want, "the result is %s moved" % TEXT.get(m, m))


def diff(ctx, key, i, A, B):
    F = ctx.F
    for g, x in alts(value(ctx, i, [A[0], B[0]])):
        if x.op == "call" and x.a[0].endswith("NaiveDate::signed_duration_since"):
            ctx.ob(key, False, "only the days are subtracted")
        elif x.op == "call" and "DateTime::<Tz>::signed_duration_since<" in x.a[0] and "Local" in x.a[0]:
            ctx.ob(key, False, "the difference is that of the instants, not of the wall clocks")
        elif x.op == "call" and x.a[0] == "since" and len(x.a) == 3:
            a, b = meaning(x.a[1], *A[1:]), meaning(x.a[2], *B[1:])
            if a is None or b is None:
                if meaning(x.a[1], *B[1:]) and meaning(x.a[2], *A[1:]):
                    ctx.ob(key, False, "the difference is reversed")
                else:
                    ctx.undec(key, show(x, 0, 3)[:120])
                continue
            lv = [("wall" if k == "self" and not s[3] else k) for k, s in ((a, A), (b, B))]
            ok = lv in (["wall", "wall"], ["midnight", "wall"], ["wall", "midnight"], ["midnight", "midnight"]) or (lv == ["self", "self"])
            ctx.ob(key, ok, "the difference is taken between %s and %s" % tuple(TEXT.get(k, k) for k in lv))
        else:
            ctx.undec(key, show(x, 0, 3)[:120])
