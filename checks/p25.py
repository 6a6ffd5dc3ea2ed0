"""One step of a rule.

Every public function (or operator) that takes a rule and one date value and returns a date value of the same kind is
analysed once for each frequency and each representation of the date. The result must be the date moved by exactly
INTERVAL times the unit of the frequency: a linear amount of seconds up to WEEKLY, of months beyond; dates stay dates
except that a frequency below DAILY starts from midnight of the day; there may be no result only when the moved date
does not exist."""
import engine as E
from checks.util import *
import core

RULE = "a step of a rule adds INTERVAL units of its frequency to every representation of a date"
FLOOR = 40
RECUR = "ikal::properties::recur::Recur"
DATE = "ikal::properties::date::Date"
DATETIME = "ikal::properties::date::DateTime"
NDATE, NDT, LDT = "chrono::naive::date::NaiveDate", "chrono::naive::datetime::NaiveDateTime", "chrono::datetime::DateTime"
UNITS = {"Secondly": ("s", 1), "Minutely": ("s", 60), "Hourly": ("s", 3600), "Daily": ("s", 86400), "Weekly": ("s", 604800),
         "Monthly": ("m", 1), "Yearly": ("m", 12)}


def rule(F, freq, src):
    """a rule of a known frequency, all else symbolic"""
    ty = adt_type(F, RECUR)
    fs = []
    for i, f in enumerate(F.types[ty]["v"][0]["f"]):
        fs.append(mk("adt", f[1], freq) if f[0] == "freq" else E.fld(src, i, f[1]))
    return mk("adt", ty, 0, *fs)


def coefficient(t, x):
    """k when t = k * x for a constant k (exact arithmetic), else None"""
    if t is x:
        return 1
    if t.op == "cast" and t.a[0] == "IntToInt":
        return coefficient(t.a[1], x)
    if t.op == "bin" and len(t.a) == 3:
        a, b = t.a[1], t.a[2]
        if t.a[0].startswith("Mul"):
            for p, q in ((a, b), (b, a)):
                if p.op == "int":
                    k = coefficient(q, x)
                    return None if k is None else k * p.a[0]
        if t.a[0].startswith(("Add", "Sub")):
            p, q = coefficient(a, x), coefficient(b, x)
            if p is not None and q is not None:
                return p + q if t.a[0].startswith("Add") else p - q
    return None


def amount(op, t, x):
    """('s' or 'm', coefficient) of a chrono amount"""
    if t.op == "delta":
        k = coefficient(t.a[0], x)
        return None if k is None else ("s", k * t.a[1].a[0])
    if t.op == "tdsum":
        tot = 0
        for y, n in t.a[0]:
            r = amount(op, y, x)
            if r is None:
                return None
            tot += r[1] * n
        return ("s", tot)
    if t.op == "call" and t.a[0] == "Months":
        k = coefficient(t.a[1], x)
        return None if k is None else ("m", k)
    if t.op == "call" and "Days" in t.a[0].split("::"):
        k = coefficient(t.a[1], x)
        return None if k is None else ("s", k * 86400)
    return None


def moved(t, x):
    """(start, unit, coefficient) of a shifted date"""
    unit, tot = None, 0
    while t.op == "shift":
        r = amount(t.a[0].a[0], t.a[2], x)
        if r is None or (unit is not None and r[0] != unit):
            return None
        op = t.a[0].a[0]
        tot += -r[1] if op.startswith("sub") else r[1]
        unit = r[0]
        t = t.a[1]
    return t, unit, tot


def steps(ctx):
    """(fn id, position of the rule, position of the date, type of the date)"""
    F = ctx.F
    rt = adt_type(F, RECUR)
    pubs = set(F.pubs)
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or len(f.get("ins") or ()) != 2:
            continue
        if i not in pubs and not f.get("trait"):
            continue
        for a, b in ((0, 1), (1, 0)):
            d = F.types[strip_ref(F, f["ins"][b])].get("path")
            if strip_ref(F, f["ins"][a]) != rt or d not in (DATE, DATETIME, NDATE, NDT, LDT):
                continue
            o = F.types[f["out"]]
            out = F.types[o["args"][0]].get("path") if o.get("path") == OPTION else o.get("path")
            if out == d:
                yield i, a, b, strip_ref(F, f["ins"][b])


def kinds(F, ty, src):
    """[(name, value, core date, is a plain date)] of a date type"""
    t = F.types[ty]
    if t["k"] == "adt" and t.get("path") in (DATE, DATETIME):
        for n, v in enumerate(t["v"]):
            x = E.vfld(src, n, 0, v["f"][0][1])
            for name, val, c, plain in kinds(F, v["f"][0][1], x):
                yield v["n"] + (" " + name if name else ""), mk("adt", ty, n, val), c, plain
    else:
        yield "", src, src, t.get("path") == NDATE


def rewrap(F, ty, plain, sub):
    """constructor path expected around a moved date: None when it is the one of the argument"""
    return plain and sub


def unwrap(F, v):
    """(constructors, core) of a date value"""
    cs = []
    while path_of(F, v) in (DATE, DATETIME):
        cs.append(F.types[v.a[0]]["v"][v.a[1]]["n"])
        v = v.a[2]
    return cs, v


def run(ctx):
    F = ctx.F
    rt = adt_type(F, RECUR)
    if rt is None:
        raise core.Missing(RECUR)
    fi = field_index(F, rt, "interval")
    names = variant_names(F, F.types[rt]["v"][0]["f"][field_index(F, rt, "freq")][1])
    n = 0
    for i, a, b, dty in steps(ctx):
        f = F.fns[i]
        if not F.types[dty].get("path"):
            continue
        src = E.typed(mk("sym", ("rule", 0, "")), rt)
        interval = E.fld(src, fi)
        for k, fname in enumerate(names):
            if fname not in UNITS:
                ctx.undec(f["path"], "unknown frequency " + fname)
                continue
            for kname, val, c, plain in kinds(F, dty, E.typed(mk("sym", ("date", 0, "")), dty)):
                sub = UNITS[fname][0] == "s" and UNITS[fname][1] < 86400
                if sub and F.types[dty]["path"] == NDATE:
                    continue
                key = "%s|%s|%s" % (short(f), fname, kname or F.types[dty]["path"].rsplit("::", 1)[1])
                n += 1
                try:
                    one(ctx, key, i, a, b, rule(F, k, src), val, c, plain, sub, interval, UNITS[fname])
                except core.Undecided as e:
                    ctx.undec(key, e)
    if not n:
        ctx.undec("steps", "no step function found")


def short(f):
    return f["path"].replace("ikal::properties::", "").replace("core::ops::arith::", "").replace("chrono::", "")


def one(ctx, key, i, a, b, rl, val, c, plain, sub, interval, unit):
    F = ctx.F
    f = F.fns[i]
    st = E.St()
    args = [None, None]
    for pos, v in ((a, rl), (b, val)):
        t = f["ins"][pos]
        if F.types[t]["k"] == "ref":
            slot = ("tmp", "in", pos)
            st.mem[slot] = v
            args[pos] = mk("ref", slot, ())
        else:
            args[pos] = v
    r = ctx.run(i, args, st=st, key=key)
    if r.value is None:
        ctx.ob(key, False, "never returns")
        return
    cs0, _ = unwrap(F, val)
    want = ["DateTime", "Naive"] if plain and sub else cs0
    got = False
    for g, x in alts(r.value):
        if path_of(F, x) == OPTION:
            if x.a[1] == 0:
                # only when some moved date does not exist
                s = E.assume(E.St(), g)
                ok = s is None or any(l.a[0].op == "fits" and E.ev(s, E.cond(l.a[0], 0)) is TRUE for l in literals(g)) \
                    or fits_needed(g)
                ctx.ob(key + " none", ok, "there may be no result although the moved date exists: when " + show(g, 0, 3)[:150])
                continue
            x = x.a[2]
        for h, y in live(E.assume(E.St(), g) or E.St(), x):
            cs, z = unwrap(F, y)
            m = moved(z, interval)
            stop = saturated(F, z, interval, E.assume(E.assume(E.St(), g) or E.St(), h) or E.St())
            if m is None and stop:
                got = True
                ctx.ob(key, False, "a step is no longer than " + stop)
                continue
            if m is None and foreign(z):
                got = True
                ctx.undec(key, show(z, 0, 3)[:150])
                continue
            if m is None:
                ctx.ob(key, False, "the step is not a multiple of the interval: " + show(z, 0, 4)[:150])
                continue
            base, u, k = m
            start = c
            got = True
            if cs != want:
                ctx.ob(key, False, "the result is a %s, expected %s" % ("::".join(cs), "::".join(want)))
            elif not (base is c or (plain and sub and midnight(base, c))):
                ctx.ob(key, False, "the step does not start from the date: " + show(base, 0, 4)[:150])
            elif (u, k) != unit:
                ctx.ob(key, False, "a step is %s x INTERVAL %s, expected %s %s" % (
                    k, {"s": "seconds", "m": "months", None: ""}[u], unit[1], {"s": "seconds", "m": "months"}[unit[0]]))
            else:
                ctx.ob(key, True)
    if not got and not any(o[0] == key for o in ctx.obs):
        ctx.ob(key, False, "there is never a result")


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}


def most(F, t):
    ty = E.TYOF.get(t)
    b = None if ty is None else BITS.get(F.types[ty]["s"])
    return None if b is None else (1 << b) - 1


def saturated(F, t, x, st):
    """a multiple of the interval that stops at the largest number of its type, though nothing bounds the interval"""
    for c in subterms(t):
        if c.op == "call" and c.a[0] == "saturating_Mul" and len(c.a) == 3:
            ns = [y.a[0] for y in c.a[1:] if y.op == "int"]
            ys = [y for y in c.a[1:] if y is x or y.op == "cast" and y.a[1] is x]
            m, n = most(F, x), most(F, c)
            if ns and ys and None not in (m, n) and m * ns[0] > n and not any(has(k, lambda z: z is x) for k in st.facts):
                return "%d: %s" % (n, show(c, 0, 2)[:80])
    return None


def fits_needed(g):
    """g holds only if some date does not fit: setting every 'fits' to true refutes it"""
    s = E.St()
    for l in literals(g):
        if l.a[0].op == "fits" and s is not None:
            s = E.assume(s, E.cond(l.a[0], 1))
    return s is None or feasible(s, g) is False


def midnight(t, c):
    return t.op == "call" and t.a[0].split("::")[-1] in ("and_hms", "and_hms_opt", "and_time", "from") and t.a[1] is c \
        and all(x is I(0) or (x.op == "adt" and all(y is I(0) for y in x.a[2:])) or
                (x.op == "call" and "default" in x.a[0]) for x in t.a[2:])


KNOWN = ("Months", "and_hms", "and_hms_opt", "and_time", "date", "naive_local", "date_naive", "min", "max")


def foreign(t):
    """a library function the analysis knows nothing about"""
    return has(t, lambda x: x.op == "call" and x.a[0].split("::")[-1] not in KNOWN and "Days" not in x.a[0].split("::"))
