"""Ranges of numbers.

For every integer property of a component and every integer part of a recurrence rule: the reader of its text is
evaluated, with the text a number v, for the bounds and all critical values of the range RFC 5545 gives it; the guards
that decide whether the reader succeeds may ask whether the text converts to a type (it does when v is in the range of
that type) and may compare numbers computed from it. The reader has to succeed with v itself; outside 0..9 a priority
has to be refused. Writers of integers have to write the number itself."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
from checks import p12
from checks.scen import Scenario, number
import core

RULE = "every number of the range RFC 5545 gives a property or rule part is accepted and kept as it is; a priority outside 0..9 is refused"
TECHNIQUE = "abstract evaluation of the integer readers' guarded summaries at the bounds and at every constant the guards compare with"
FLOOR = 24
BIG = 2**31 - 1
PROPS = {"sequence": (0, BIG), "repeat": (0, BIG), "percent_complete": (0, 100), "priority": (0, 9)}
PARTS = {"count": (1, 2**32 - 1), "interval": (1, 2**32 - 1), "by_second": (0, 60), "by_minute": (0, 59), "by_hour": (0, 23),
         "by_monthday": (-31, 31), "by_yearday": (-366, 366), "by_weekno": (-53, 53), "by_month": (1, 12), "by_setpos": (-366, 366)}
REFUSED = {"priority"}
INTS = {"%s%d" % (s, b): (-(2**(b - 1)), 2**(b - 1) - 1) if s == "i" else (0, 2**b - 1) for s in "iu" for b in (8, 16, 32, 64, 128)}
INTS["usize"], INTS["isize"] = INTS["u64"], INTS["i64"]


def int_of(F, ty):
    """name of the integer type of a field, an option or a list of it"""
    t = F.types[ty]
    if t.get("k") in ("uint", "int"):
        return t["s"]
    if t.get("path") in (OPTION, "alloc::vec::Vec"):
        return int_of(F, t["args"][0])
    return None


def samples(lo, hi, v):
    """critical values: bounds, bounds of the machine types and everything compared with, with neighbours"""
    xs = {lo, hi, 0, 1}
    for a, b in INTS.values():
        xs |= {a, b}
    for t in subterms(v):
        if t.op == "int":
            xs.add(t.a[0])
        if t.op == "lit" and t.a[1] == "=" and isinstance(t.a[2], int):
            xs.add(t.a[2])
    xs |= {x + d for x in xs for d in (-1, 1)}
    if hi - lo <= 1000:
        xs |= set(range(lo, hi + 1))
    return sorted(xs)


def plain(x, text):
    """x is the text itself, at most without the white space around it"""
    while True:
        if x is text:
            return True
        if x.op in ("deref", "ref") or x.op == "call" and x.a[0] in ("trim", "trim_end", "trim_start", "to_string", "into"):
            x = x.a[0] if x.op == "deref" else x.a[1] if x.op == "call" else x.a[0]
            if not hasattr(x, "op"):
                return False
            continue
        return False


class Number:
    """scenario: the text is the decimal number v; `extra` answers the questions that are not about it"""

    def __init__(self, texts, v, extra=lambda s: None):
        self.texts, self.v, self.extra = texts, v, extra
        self.odd = None
        self.scen = Scenario(self.answer)

    def parsed(self, c):
        if c.op == "call" and isinstance(c.a[0], str) and c.a[0].startswith("parse<") and c.a[0][6:-1] in INTS and len(c.a) == 2:
            return c.a[0][6:-1] if any(plain(c.a[1], t) for t in self.texts) else None
        return None

    def sub(self, t):
        if t.op == "vfld" and t.a[1] == 0 and t.a[0].op == "call":
            k = self.parsed(t.a[0])
            if k and not INTS[k][0] <= self.v <= INTS[k][1]:
                self.odd = True         # the value of a conversion that failed: never reached
            return self.v if k else None
        if t.op == "phi":
            y = self.scen.pick(t)
            return number(y, self.sub) if y is not t else None
        return None

    def answer(self, s):
        if s.op == "discr" and s.a[0].op == "call":
            k = self.parsed(s.a[0])
            if k:
                return int(not INTS[k][0] <= self.v <= INTS[k][1])
        n = number(s, self.sub)
        if n is not None:
            return n
        return self.extra(s)

    def value(self, x):
        y = self.scen.pick(x)
        return number(y, self.sub)


def judge(ctx, key, what, res, texts, lo, hi, get, extra=lambda s: None, refuse=False):
    """res: [(guard, kind, payload)]; get(payload, number) -> term of the number stored"""
    rejected, accepted, other = [], [], []
    xs = samples(lo, hi, mk("vec", *[x for g, k, p in res for x in (g, p)]))
    for v in xs:
        inside = lo <= v <= hi
        if not inside and not refuse:
            # outside the range a number may be refused, not changed
            n = Number(texts, v, extra)
            for g, p in [(g, p) for g, k, p in res if k == "ok" and n.scen.holds(g) is True]:
                t = get(p, n)
                n.odd = None
                got = None if t is None else n.value(t)
                if got is not None and got != v and not n.odd:
                    other.append((v, got))
            continue
        n = Number(texts, v, extra)
        oks = [(g, p) for g, k, p in res if k == "ok" and n.scen.holds(g) is not False]
        if not inside:
            for g, p in oks:
                if n.scen.holds(g) is None and open_lits(n, g, texts):
                    return ctx.undec(key, "outside: " + show(open_lits(n, g, texts)[0], 0, 3)[:150])
                accepted.append(v)
                break
            continue
        if not oks:
            rejected.append(v)
            continue
        for g, p in oks:
            ls = open_lits(n, g, texts)
            if ls:
                return ctx.undec(key, "guard " + show(ls[0], 0, 3)[:150])
            t = get(p, n)
            n.odd = None
            got = None if t is None else n.value(t)
            if n.odd:
                rejected.append(v)
                continue
            if got is None:
                return ctx.undec(key, "value " + (show(t, 0, 3)[:150] if t is not None else show(p, 0, 2)[:100]))
            if got != v:
                other.append((v, got))
    if not (rejected or accepted or other):
        ctx.ob(key, True)
    for l, text in ((rejected, "refuses %s"), (accepted, "accepts %s")):
        if l:
            k = text % ranges(l, xs)
            ctx.ob(key + " " + k, False, "%s %s; the range is %d..%d" % (what, k, lo, hi))
    if other:
        ctx.ob(key + " changes %d" % other[0][0], False, "%s: %d is read as %d" % ((what,) + other[0]))


def ranges(l, xs):
    out = []
    for v in l:
        if out and xs.index(v) == xs.index(out[-1][1]) + 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return ", ".join("%d" % a if a == b else "%d..%d" % (a, b) for a, b in out)


def open_lits(n, g, texts):
    """undecided questions of a guard that concern the text"""
    out = []
    seen = set()

    def walk(f):
        if f in seen or n.scen.holds(f) is not None:
            return
        seen.add(f)
        if f.op == "lit":
            if any(has(f.a[0], lambda x, t=t: x is t) for t in texts):
                out.append(f.a[0])
        elif f.op in ("and", "or"):
            for x in f.a:
                walk(x)
    walk(g)
    return out


# -- properties
def lines(ctx):
    F = ctx.F
    done = {}
    for rd in R.readers(ctx):
        for i, fname, ty, k in rd.fields:
            if int_of(F, ty) is None or k not in ("option", "plain"):
                continue
            key = "%s|%s" % (rd.short, R.rfc_name(fname))
            if fname not in PROPS:
                ctx.undec(key, "no range known for this property")
                continue
            lo, hi = PROPS[fname]
            a, b = INTS[int_of(F, ty)]
            ctx.ob(key + " type", a <= lo and hi <= b, "%s has type %s, the range is %d..%d" % (fname, int_of(F, ty), lo, hi))
            st, ch = rd.under_name(E.cond(rd.key, R.rfc_name(fname)))
            if st is None or i not in ch:
                ctx.undec(key, "its lines change nothing")
                continue
            names = {F.fns[j]["name"]: j for j in range(len(F.fns)) if R.is_line_parser(F, F.fns[j])}
            for g, x in ch[i][1]:
                if x.op == "adt" and path_of(F, x) == OPTION:
                    if x.a[1] == 0:
                        continue
                    x = x.a[2]
                c = [t for t in calls(x) if t.a[0] in names]
                if not (x.op == "vfld" and x.a[1] == 0 and x.a[0] in c):
                    ctx.undec(key, "value " + show(x, 0, 2)[:120])
                    continue
                ctx.ob(key + " reader", True)
                done.setdefault((names[c[0].a[0]], fname), 1)
    for fn, fname in sorted(done):
        f = F.fns[fn]
        r = ctx.run(fn)
        a = core.arg(F, 0, f["body"]["locals"][1])
        if F.types[f["ins"][0]]["k"] == "ref":
            a = mk("deref", a)
        text = E.fld(a, field_index(F, strip_ref(F, f["ins"][0]), "value"))
        res = list(results(F, r.value))
        if any(k == "?" for g, k, p in res):
            ctx.undec("read|" + fname, "result")
            continue
        judge(ctx, "read|" + R.rfc_name(fname), fname.upper().replace("_", "-"), res, (text,), *PROPS[fname], get=lambda p, n: p, refuse=fname in REFUSED)


# -- parts of a rule
def rule(ctx):
    F = ctx.F
    ty, fs = p12.fields_of(F)
    for i, fname, t, k in fs:
        if int_of(F, t) is None:
            continue
        if fname not in PARTS:
            ctx.undec("rule|" + fname, "no range known for this part")
    n = 0
    for j, f in enumerate(F.fns):
        if not (R.is_line_parser(F, f) and F.types[F.types[f["out"]]["args"][0]].get("path") == p12.RECUR and not f.get("trait")):
            continue
        n += 1
        r = ctx.run(j)
        res = []
        for g, k, p in results(F, r.value):
            if k == "?":
                raise core.Undecided("result of " + f["name"])
            res += [(h, k, x) for h, x in alts(p, g)] if k == "ok" else [(g, k, p)]
        maps = {t.a[0] for g, k, x in res if k == "ok" for y in (g, x) for ts in p12.map_keys(y).values() for t in ts}
        if len(maps) != 1:
            raise core.Undecided("%d maps of parts" % len(maps))
        m = maps.pop()
        for i, fname, t, k in fs:
            if fname in PARTS:
                part(ctx, r, res, m, i, fname, t, k)
    if not n:
        ctx.undec("rule", "no reader of rules found")
    ty = adt_type(F, "ikal::properties::recur::WeekdayNum")
    if ty is not None:
        t = F.types[ty]["v"][0]["f"][field_index(F, ty, "ord")][1]
        a, b = INTS[int_of(F, t)]
        ctx.ob("rule|BYDAY ordinal", a <= -53 and 53 <= b, "the ordinal of BYDAY has type %s" % int_of(F, t))


def part(ctx, r, res, m, i, fname, ty, k):
    F = ctx.F
    name = p12.part_name(fname)
    val = mk("mval", m, S(name))
    texts = {val, mk("deref", val)}
    elems = set()
    for g, kk, x in res:
        for t in subterms(mk("vec", g, x)):
            if t.op == "elem" and has(t, lambda y: y is val):
                elems.add(t)
    texts |= elems

    def extra(s):
        if s.op == "discr" and s.a[0].op == "mget" and s.a[0].a[0] is m:
            return int(s.a[0].a[1] in (S(name), S("FREQ")))
        if s.op == "discr" and s.a[0].op == "call" and has(s.a[0], lambda y: y.op == "mval" and y.a[0] is m and y is not val):
            return 0
        return None

    def get(p, n):
        x = n.scen.pick(p.a[2 + i])
        if path_of(F, x) == OPTION:
            return x.a[2] if x.a[1] == 1 else None
        if x.op == "rep":
            x = n.scen.pick(x.a[2])
            if x.op == "vec" and len(x.a) == 1 and x.a[0].op == "one":
                return x.a[0].a[0]
            return None
        if x.op == "vec":
            return x.a[0].a[0] if len(x.a) == 1 and x.a[0].op == "one" else None
        return x

    judge(ctx, "rule|" + name, name, res, tuple(texts), *PARTS[fname], get=get, extra=extra)


# -- writing
def writing(ctx):
    F = ctx.F
    tys = set()
    for name in [R_ for R_ in ("ikal::components::" + c for c in R.COMPONENTS)] + [p12.RECUR]:
        ty = adt_type(F, name)
        if ty is not None:
            tys |= {int_of(F, f[1]) for f in F.types[ty]["v"][0]["f"]} - {None}
    n = 0
    for s in sorted(tys):
        for i in ctx.impl(W.SER, s):
            n += 1
            r = ctx.run(i)
            d = mk("deref", core.arg(F, 0, F.fns[i]["body"]["locals"][1]))
            key = "write|" + s
            for g, k, p in results(F, r.value):
                if k != "ok":
                    continue
                fl = W.flat(p)
                if len(fl) == 1 and fl[0].op in ("call", "display", "dec") and has(fl[0], lambda t: t is d) and not has(fl[0], lambda t: t.op in ("cast", "bin")):
                    ctx.ob(key, True)
                elif fl and all(W.const(x) is not None for x in fl):
                    ctx.ob(key, False, "a number of type %s may be written as %s" % (s, "".join(W.const(x) for x in fl)))
                elif len(fl) == 1 and has(fl[0], lambda t: t.op in ("cast", "bin")):
                    ctx.ob(key, False, "a number of type %s is written as %s" % (s, show(fl[0], 0, 3)[:100]))
                else:
                    ctx.undec(key, show(p, 0, 3)[:150])
    if not n:
        ctx.undec("write", "no writer of integers found")


def run(ctx):
    for part in (lines, rule, writing):
        try:
            part(ctx)
        except core.Undecided as e:
            ctx.undec(part.__name__, e)
