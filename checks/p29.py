"""UTC offsets.

Writing: an offset is +-(3600h + 60m + s) with 0 <= m, s < 60; in every case of the sign and of h, m and s being zero
or not, the summary of the writer is reduced with this linear form (quotients and remainders by 60 and 3600 are exact
on it) and must be the sign, two digits of h, two of m, and two of s whenever s is not zero.
Reading: with the text sign h h m m [s s], the summary of the readers must be the offset of that linear form; a
conversion of the text by chrono's FromStr gives hours and minutes and passes over whatever follows."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
from checks.scen import Scenario, Shape, Tok
import core

RULE = "reading and writing an offset keep its sign, hours, minutes and seconds"
TECHNIQUE = "symbolic linear arithmetic with ranges over the guarded summaries of the readers and the writer of UTC offsets"
FLOOR = 20
OFF = "chrono::offset::fixed::FixedOffset"
PLUS, ZERO = 1 << 21, 1 << 24


class Lin:
    """sum of c*x over symbols with ranges, plus a constant"""

    def __init__(self, co, k, rg):
        k += sum(c * rg[x][0] for x, c in co.items() if rg[x][0] == rg[x][1])
        self.co, self.k, self.rg = {x: c for x, c in co.items() if c and rg[x][0] != rg[x][1]}, k, rg

    def __eq__(self, o):
        return self.co == o.co and self.k == o.k

    def range(self):
        lo = hi = self.k
        for x, c in self.co.items():
            a, b = self.rg[x]
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def scale(self, f):
        return Lin({x: c * f for x, c in self.co.items()}, self.k * f, self.rg)

    def add(self, o, f=1):
        co = dict(self.co)
        for x, c in o.co.items():
            co[x] = co.get(x, 0) + f * c
        return Lin(co, self.k + f * o.k, self.rg)

    def split(self, c):
        """(q, r) with self = c*q + r, r made of what c does not divide"""
        q = Lin({x: n // c for x, n in self.co.items() if n % c == 0}, 0, self.rg)
        r = Lin({x: n for x, n in self.co.items() if n % c}, self.k, self.rg)
        return q, r

    def divmod(self, c, euclid):
        if c <= 0:
            return None
        if not self.co:
            q, r = divmod(self.k, c) if euclid or self.k >= 0 else (-(-self.k // c), -(-self.k % c))
            return Lin({}, q, self.rg), Lin({}, r, self.rg)
        q, r = self.split(c)
        lo, hi = r.range()
        if 0 <= lo and hi < c and (euclid or self.range()[0] >= 0 or (lo, hi) == (0, 0)):
            return q, r
        if -c < lo and hi <= 0 and not euclid and self.range()[1] <= 0:
            return q, r
        if euclid:
            if (lo, hi) == (0, 0):
                return q, r
            if -c <= lo and hi < 0:
                return q.add(Lin({}, 1, self.rg), -1), r.add(Lin({}, c, self.rg))
        return None

    def __repr__(self):
        return " + ".join(["%d*%s" % (c, x) for x, c in sorted(self.co.items())] + ([str(self.k)] if self.k or not self.co else []))


class Calc:
    """values of integer terms, given those of the leaves"""

    def __init__(self, rg, leaf, extra=None):
        self.rg, self.leaf, self.extra = rg, leaf, extra
        self.memo = {}
        self.scen = Scenario(self.answer)

    def lin(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._lin(t)
        return self.memo[t]

    def _lin(self, t):
        x = self.leaf(t)
        if x is not None:
            return x
        if t.op == "int":
            return Lin({}, t.a[0], self.rg)
        if t.op == "phi":
            y = self.scen.pick(t)
            return None if y is t or y.op == "phi" else self.lin(y)
        if t.op == "cast" and t.a[0] == "IntToInt":
            return self.lin(t.a[1])
        if t.op == "un" and t.a[0] == "Neg":
            x = self.lin(t.a[1])
            return x and x.scale(-1)
        if t.op == "call" and len(t.a) == 2 and t.a[0].rsplit("::", 1)[-1] in ("abs", "unsigned_abs", "signum") and t.a[0].startswith("core::num"):
            x = self.lin(t.a[1])
            if x is None:
                return None
            lo, hi = x.range()
            if t.a[0].endswith("signum"):
                return Lin({}, 1 if lo > 0 else -1 if hi < 0 else 0, self.rg) if lo > 0 or hi < 0 or lo == hi == 0 else None
            return x if lo >= 0 else x.scale(-1) if hi <= 0 else None
        if t.op == "bin":
            a, b = self.lin(t.a[1]), self.lin(t.a[2])
            if a is None or b is None:
                return None
            op = t.a[0]
            if op == "Add":
                return a.add(b)
            if op == "Sub":
                return a.add(b, -1)
            if op == "Mul":
                return a.scale(b.k) if not b.co else b.scale(a.k) if not a.co else None
            if op in ("Div", "DivE", "Rem", "RemE", "DivF", "RemF"):
                if b.co or not b.k:
                    return None
                r = a.divmod(b.k, op[-1] in "EF")
                return None if r is None else r[0 if op.startswith("Div") else 1]
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                lo, hi = a.add(b, -1).range()
                v = {"Lt": (hi < 0, lo >= 0), "Le": (hi <= 0, lo > 0), "Gt": (lo > 0, hi <= 0), "Ge": (lo >= 0, hi < 0),
                     "Eq": (lo == hi == 0, lo > 0 or hi < 0), "Ne": (lo > 0 or hi < 0, lo == hi == 0)}[op]
                return Lin({}, 1, self.rg) if v[0] else Lin({}, 0, self.rg) if v[1] else None
        return None

    def answer(self, s):
        if self.extra is not None:
            a = self.extra(s)
            if a is not None:
                return a
        if s.op in ("call", "discr") and s.a and hasattr(s.a[0], "op") and s.a[0].op == "ordering":
            return None
        x = self.lin(s)
        if x is None:
            return None
        lo, hi = x.range()
        if lo == hi:
            return lo
        return ("not", 0) if lo > 0 or hi < 0 else None


# -- writing
def cases():
    for sign in (1, -1):
        for hz in (0, 1):
            for mz in (0, 1):
                for sz in (0, 1):
                    if sign < 0 and not (hz or mz or sz):
                        continue
                    rg = {"h": (1, 23) if hz else (0, 0), "m": (1, 59) if mz else (0, 0), "s": (1, 59) if sz else (0, 0)}
                    yield sign, rg


def value(sign, rg):
    return Lin({"h": sign * 3600, "m": sign * 60, "s": sign}, 0, rg)


def points(rg):
    """single values of the ranges, tried where the linear form does not settle a text or a value"""
    for h in (0, 1, 9, 12, 13, 23):
        for m in (0, 1, 9, 29, 30, 59):
            for s in (0, 1, 9, 30, 59):
                if all(rg[x][0] <= v <= rg[x][1] for x, v in (("h", h), ("m", m), ("s", s))):
                    yield {"h": (h, h), "m": (m, m), "s": (s, s)}


def pieces(calc, v):
    """the text as characters and (linear form, digits) pairs; None if not understood"""
    out = []
    for x in W.flat(calc.scen.pick(v)):
        c = W.const(x)
        if c is not None:
            out += list(c)
            continue
        if x.op == "phi":
            return None
        if x.op == "chr" or x.op == "char":
            return None
        if x.op != "dec" or x.a[1].op != "spec":
            return None
        n = calc.lin(x.a[0])
        flags, width, prec = x.a[1].a
        if n is None or not all(isinstance(k, int) for k in (flags, width)):
            return None
        lo, hi = n.range()
        if hi > 0 and lo < 0:
            return None
        if width > 0 and not flags & ZERO:
            out.append(("blank padded", n, width))
            continue
        if hi <= 0 and lo < 0:
            if hi == 0:
                return None
            out.append("-")
            n, width = n.scale(-1), width - 1
            lo, hi = n.range()
        elif flags & PLUS:
            out.append("+")
            width -= 1
        if lo == hi:
            out += list(str(lo).rjust(max(width, 0), "0"))
        else:
            out.append((n, width))
    return out


def two(n, p):
    """are the pieces p the two digits of n; how many pieces are used"""
    lo, hi = n.range()
    if lo == hi:
        s = "%02d" % lo
        return 2 if p[:2] == list(s) else 0
    if p and isinstance(p[0], tuple) and len(p[0]) == 2 and p[0][0] == n and (p[0][1] == 2 or lo >= 10 and p[0][1] <= 2):
        return 1
    return 0


def writing(ctx):
    F = ctx.F
    ids = ctx.impl(W.SER, OFF)
    if not ids:
        raise core.Missing("Serialize for FixedOffset")
    r = ctx.run(ids[0])
    a = core.arg(F, 0, F.fns[ids[0]]["body"]["locals"][1])
    own = (a, mk("deref", a))
    res = list(results(F, r.value))
    for sign, rg in cases():
        name = ("+" if sign > 0 else "-") + "".join(x if rg[x] != (0, 0) else "0" for x in "hms")
        key = "write|" + name
        ok, msg = written(F, res, own, sign, rg)
        if ok is None:
            for pt in points(rg):
                o, m = written(F, res, own, sign, pt)
                if o is False:
                    ok, msg = o, m
                    break
        if ok is None:
            ctx.undec(key, msg)
        else:
            ctx.ob(key, ok, msg)


def written(F, res, own, sign, rg):
    """(True, False or None, why)"""
    val = value(sign, rg)

    def leaf(t):
        if t.op == "call" and len(t.a) == 2 and t.a[1] in own:
            if t.a[0] == OFF + "::local_minus_utc":
                return val
            if t.a[0] == OFF + "::utc_minus_local":
                return val.scale(-1)
        return None
    calc = Calc(rg, leaf)
    n = 0
    for g, k, p in res:
        h = calc.scen.holds(g)
        if h is False:
            continue
        if h is None or k == "?":
            return None, "guard " + show(g, 0, 3)[:120]
        n += 1
        if k == "err":
            return False, "an offset %s cannot be written" % val
        ps = pieces(calc, p)
        if ps is None:
            return None, "text " + show(calc.scen.pick(p), 0, 4)[:200]
        if not shape(rg, sign, ps):
            return False, "an offset of %s seconds is written as %s" % (val, "".join(x if isinstance(x, str) else "{%s}" % x[0] for x in ps))
    return (True, "") if n else (None, "no result")


def shape(rg, sign, ps):
    if not ps or ps[0] != ("+" if sign > 0 else "-"):
        return False
    ps = ps[1:]
    for x in "hms":
        if x == "s" and not ps:
            return rg["s"] == (0, 0)
        n = two(Lin({x: 1}, 0, rg), ps)
        if not n:
            return False
        ps = ps[n:]
    return not ps


# -- reading
DIG = frozenset(range(48, 58))


def reading(ctx):
    F = ctx.F
    n = 0
    for i, f in enumerate(F.fns):
        if not (R.is_line_parser(F, f) and F.types[F.types[f["out"]]["args"][0]].get("path") == OFF and not f.get("trait")):
            continue
        n += 1
        r = ctx.run(i)
        a = core.arg(F, 0, f["body"]["locals"][1])
        if F.types[f["ins"][0]]["k"] == "ref":
            a = mk("deref", a)
        text = E.fld(a, field_index(F, strip_ref(F, f["ins"][0]), "value"))
        for sign in "+-":
            for secs in (False, True):
                key = "read|%s %shhmm%s" % (f["path"].split("::")[-1], sign, "ss" if secs else "")
                rg = {"h": (0, 23), "m": (0, 59), "s": (0, 59)}
                ok, msg = one(F, r, text, sign, secs, rg)
                if ok is None:
                    for pt in points(rg):
                        o, m = one(F, r, text, sign, secs, pt)
                        if o is False:
                            ok, msg = o, m
                            break
                if ok is None:
                    ctx.undec(key, msg)
                elif ok == "lost":
                    ctx.ob(key + " loses the seconds", False, msg)
                else:
                    ctx.ob(key, ok, msg)
    if not n:
        ctx.undec("read", "no reader of offsets found")


def one(F, r, text, sign, secs, rg):
    digs = [Tok("d%d" % k, DIG) for k in range(6 if secs else 4)]
    toks = [sign] + digs
    parts = [("h", 1), ("m", 3)] + ([("s", 5)] if secs else [])
    found = {}

    def chrono(t):
        """the offset that chrono reads from a part of the text"""
        if t.op == "call" and t.a[0] == "parse<%s>" % OFF and len(t.a) == 2:
            k = sh.rng(t.a[1])
            if k is not None and k[0] == 0:
                return k
        return None

    def extra(s, q):
        if q.op == "discr" and q.a[0].op == "call":
            c = q.a[0]
            k = chrono(c)
            if k is not None:
                return int(k[1] < 5)
            if c.a[0].startswith("parse<") and len(c.a) == 2:
                k = sh.rng(c.a[1])
                if k is not None and k[1] > k[0] and (k[0] > 0 or c.a[0][6] == "i" or sign == "+"):
                    return 0
            if c.a[0] in (OFF + "::east_opt", OFF + "::west_opt"):
                return 1
        if q.op in ("call", "len", "slen") and q.op != "discr":
            k = sh.rng(q.a[0]) if q.op in ("len", "slen") else None
            if k is not None:
                return k[1] - k[0]
        return None

    sh = Shape(text, toks, extra=extra)

    def leaf(t):
        if t.op == "vfld" and t.a[1] == 0 and t.a[0].op == "call":
            c = t.a[0]
            if c.a[0].startswith("parse<") and len(c.a) == 2 and chrono(c) is None:
                k = sh.rng(c.a[1])
                for x, at in parts:
                    if k == (at, at + 2):
                        return Lin({x: 1}, 0, rg)
                    if k == (0, 3) and x == "h":
                        return Lin({x: 1 if sign == "+" else -1}, 0, rg)
        if t.op == "call" and len(t.a) == 2 and t.a[0] in (OFF + "::local_minus_utc", OFF + "::utc_minus_local"):
            v = offset(t.a[1])
            return None if v is None else v.scale(1 if t.a[0].endswith("local_minus_utc") else -1)
        return None

    def offset(p):
        p = calc.scen.pick(p)
        if p.op == "vfld" and p.a[0].op == "call":
            c = p.a[0]
            if c.a[0] in (OFF + "::east_opt", OFF + "::west_opt"):
                v = calc.lin(c.a[1])
                return None if v is None else v.scale(1 if "east" in c.a[0] else -1)
            k = chrono(c)
            if k is not None and k[1] >= 5:
                s = 1 if sign == "+" else -1
                return Lin({"h": 3600 * s, "m": 60 * s}, 0, rg)
        return None

    calc = Calc(rg, leaf, extra=lambda q: sh.answer(q))
    s = 1 if sign == "+" else -1
    want = Lin({x: s * {"h": 3600, "m": 60, "s": 1}[x] for x, at in parts}, 0, rg)
    n = 0
    for g, k, p in results(F, r.value):
        h = calc.scen.holds(g)
        if h is False:
            continue
        if h is None or k == "?":
            return None, "guard " + show(g, 0, 3)[:150]
        n += 1
        if k == "err":
            return False, "an offset %shhmm%s is refused" % (sign, "ss" if secs else "")
        v = offset(p)
        if v is None:
            return None, "value " + show(calc.scen.pick(p), 0, 4)[:150]
        if v == want:
            continue
        msg = "the value is %s instead of %s" % (v, want)
        return "lost" if secs and v == want.add(Lin({"s": s}, 0, rg), -1) else False, msg
    return (True, "") if n else (None, "no result")


def run(ctx):
    for part in (writing, reading):
        try:
            part(ctx)
        except core.Undecided as e:
            ctx.undec(part.__name__, e)
