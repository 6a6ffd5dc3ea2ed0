"""Which occurrences are handed out, and when the iteration ends.

For the call of `next` summarised by occur.Next:
- an occurrence cannot be handed out under an assignment of the guards in which it starts after UNTIL, it is among the
  exception dates, or COUNT is 0; the count kept for the following call is exactly one less (or still absent), and
  unchanged when an exception is skipped;
- the iteration cannot end, lose the following component or skip an occurrence otherwise: only without a start or a rule,
  after UNTIL, with an exhausted COUNT, for an exception, or when the date of the next step does not exist;
- the ordering and the equality of dates that those tests rest on are those of the calendar."""
import engine as E
import models
from checks.util import *
from checks.occur import *
from checks import p25, dateord
import core

RULE = "occurrences are handed out exactly as UNTIL, EXDATE and COUNT say"
FLOOR = 30


def run(ctx):
    F = ctx.F
    its = iterators(ctx)
    if not its:
        ctx.undec("iterators", "no occurrence iterator found")
    for i in its:
        try:
            one(ctx, Next(ctx, i))
        except core.Undecided as e:
            ctx.undec(F.fns[i]["name"], e)
    dateord.check(ctx)


class Limits:
    """the conditions the property speaks about, for one component under consideration"""

    def __init__(self, ctx, N, x):
        F = ctx.F
        self.x, self.cur = x, N.cur(x)
        own = N.field(self.cur, "dtstart")
        i = field_index(F, N.ty, "dtstart")
        opt = F.types[F.types[N.ty]["v"][0]["f"][i][1]].get("path") == OPTION
        self.has_start = E.cond(E.discr_of(own), 1) if opt else TRUE
        self.start = E.vfld(own, 1, 0) if opt else own
        rr = N.field(self.cur, "rrule")
        self.has_rule = E.cond(E.discr_of(rr), 1)
        self.rule = E.vfld(rr, 1, 0)
        rt = adt_type(F, p25.RECUR)
        self.until = E.fld(self.rule, field_index(F, rt, "until"))
        self.count = E.fld(self.rule, field_index(F, rt, "count"))
        self.bounded = E.cond(E.discr_of(self.until), 1)
        self.counted = E.cond(E.discr_of(self.count), 1)
        self.left = E.vfld(self.count, 1, 0)
        self.exhausted = AND([self.counted, E.cond(self.left, 0)])
        self.last = AND([self.counted, E.cond(self.left, 1)])
        self.after = AND([self.bounded, self.later(ctx, self.start)])
        self.exdate = N.field(self.cur, "exdate")
        seq = models.seq_norm(self.exdate)
        self.member = models.isbool(mk("call", "contains", seq, self.start))
        self.excluded = E.cond(self.member, 1)

    def later(self, ctx, date):
        return E.cond(compare(ctx, date, E.vfld(self.until, 1, 0)), 1)

    def usual(self):
        """nothing withholds this occurrence"""
        return AND([E.cond(E.discr_of(self.x), 1), self.has_start, self.has_rule, NOT(self.after), NOT(self.exhausted), NOT(self.excluded)])


def steps_succeed(N, *vs):
    out = {}
    for v in vs:
        for t in subterms(v):
            if t.op == "call" and t.a[0] in N.steps:
                out[t.id] = t
            elif t.op == "fits":
                out[t.id] = t
    return [E.cond(t, 1) if t.op == "fits" else E.cond(E.discr_of(t), 1) for t in out.values()]


# uses of the exception dates that cannot tell whether the start is one of them
PARTIAL = {"len", "head", "last", "isempty", "seqlen", "get", "any", "elem", "binary_search", "binary_search_by", "binary_search_by_key"}


def tests(N, vs, L):
    """how the exception dates are used"""
    names = set()
    seq = models.seq_norm(L.exdate)
    for v in vs:
        for t in subterms(v):
            if any(y is L.exdate or y is seq for y in t.a if isinstance(y, T)):
                names.add(bare(t.a[0]) if t.op == "call" else t.op)
    for rec in N.r.loops.values():
        for k, v in rec.items():
            if isinstance(v, T) and k != "id" and uses(v, L.exdate):
                names.add("loop")
    return names


def bare(path):
    """name of a function without generic arguments"""
    out, depth = "", 0
    for c in path:
        depth += (c == "<") - (c == ">")
        if not depth and c != ">":
            out += c
    return [p for p in out.split("::") if p][-1]


def one(ctx, N):
    F = ctx.F
    ys, end = N.yields()
    Ls = [Limits(ctx, N, x) for x in N.X]
    rt = adt_type(F, p25.RECUR)
    everything = AND([L.usual() for L in Ls])
    for g, y in ys:
        s = E.assume(N.r.st, g)
        if s is None:
            continue
        L = next((L for L in reversed(Ls) if uses(y, L.x) or uses(g, L.x)), Ls[0])
        k = N.name + " "
        ctx.ob(k + "until", impossible(ctx, k + "until", s, L.after), "an occurrence that starts after UNTIL is handed out")
        ctx.ob(k + "count 0", impossible(ctx, k + "count 0", s, L.exhausted), "an occurrence is handed out although COUNT is 0")
        ex = impossible(ctx, k + "exdate", s, L.excluded)
        if not ex and not uses(g, L.member):
            how = tests(N, [g] + [t for _, _, rec in N.turns for t in [rec["back"]] if isinstance(t, T)], L)
            if how - PARTIAL:
                ctx.undec(k + "exdate", "exception dates used by " + ", ".join(sorted(how)))
                return
        ctx.ob(k + "exdate", ex, "an occurrence that is an exception date is handed out")
        post = E.restrict(s, N.post(N.r.st))
        # the count kept
        for h, z in live(s, post):
            if path_of(F, z) != OPTION or z.a[1] == 0:
                continue
            t = E.assume(s, h)
            count_kept(ctx, N, t if t is not None else s, k + "count", z.a[2], L, 1)
        # the following component
        usual = E.assume(s, AND([NOT(L.last)] + steps_succeed(N, post)))
        if usual is None:
            ctx.undec(k + "next", "no usual execution")
            continue
        nstart = next_start(N, L, post)
        lost = []
        for h, z in live(usual, post):
            if path_of(F, z) == OPTION and z.a[1] == 0:
                f = AND([h] + [NOT(AND([L.bounded, L.later(ctx, d)])) for d in nstart])
                if feasible(usual, f) is not False:
                    lost.append(h)
        ctx.ob(k + "next", not lost, "the occurrences that follow are lost: when " + "; ".join(show(h, 0, 3)[:200] for h in lost[:1]))
    # the end of the iteration
    u = E.assume(N.r.st, everything)
    for g in end:
        ok = u is None or feasible(u, g) is False
        ctx.ob(N.name + " end", ok, "the iteration may end although an occurrence is due: when " + show(g, 0, 3)[:200])
    # an exception is skipped, not the end
    for L in Ls:
        if not any(uses(g, L.x) for g in end):
            continue
        nexts = [v for x, v, _ in N.turns if x is L.x]
        skip = AND([E.cond(E.discr_of(L.x), 1), L.has_start, L.has_rule, NOT(L.after), NOT(L.exhausted), NOT(L.last), L.excluded])
        u = E.assume(N.r.st, AND([skip] + steps_succeed(N, N.r.value, *nexts)))
        if u is None:
            continue
        still = [E.cond(t, 0) for v in [N.r.value] + nexts for t in same_start(N, L, v)]
        u = E.assume(u, AND(still))
        for g in end:
            if u is not None:
                ctx.ob(N.name + " skip", feasible(u, g) is False, "the iteration ends at an exception date")
        for v in nexts:
            back = next(rec for x, w, rec in N.turns if w is v)["back"]
            b = E.assume(back, AND([skip] + steps_succeed(N, v) + [E.cond(t, 0) for t in same_start(N, L, v)]))
            for h, z in alts(v):
                if b is not None and path_of(F, z) == OPTION and z.a[1] == 0:
                    ctx.ob(N.name + " skip", feasible(b, h) is False, "the iteration ends at an exception date")
                elif path_of(F, z) == OPTION and z.a[1] == 1:
                    count_kept(ctx, N, E.assume(E.St(), h) or E.St(), N.name + " count of an exception", z.a[2], L, 0)
    for x, v, rec in N.turns:
        L = next(L for L in Ls if L.x is x)
        s = E.assume(rec["back"], L.usual())
        ctx.ob(N.name + " turn", s is None or feasible(s) is False, "an occurrence that nothing excludes is skipped")


def impossible(ctx, key, s, f):
    t = E.assume(s, f)
    return t is None or feasible(t) is False


def next_start(N, L, v):
    """the start dates of the components kept"""
    out = []
    for z in leaves(v):
        if path_of(N.F, z) == OPTION and z.a[1] == 1:
            d = N.field(z.a[2], "dtstart")
            if path_of(N.F, d) == OPTION:
                if d.a[1] == 0:
                    continue
                d = d.a[2]
            out.append(d)
    return out


def same_start(N, L, v):
    """comparisons of the start with the next one"""
    out = {}
    for t in subterms(v):
        if t.op == "eq" and any(y is L.start for y in t.a) and has(t, lambda q: q.op == "call" and q.a[0] in N.steps):
            out[t.id] = t
    return out.values()


def count_kept(ctx, N, s, key, z, L, used):
    F = ctx.F
    rt = adt_type(F, p25.RECUR)
    rr = N.field(z, "rrule")
    i = field_index(F, rt, "count")
    for h, r in live(s, rr):
        t = E.assume(s, h)
        t = t if t is not None else s
        own = N.field(L.cur, "rrule")
        if r is own:
            rule = L.rule
        elif path_of(F, r) == OPTION and r.a[1] == 1:
            rule = r.a[2]
        else:
            ctx.ob(key, False, "the rule is lost: " + show(r, 0, 2)[:120])
            continue
        for g, q in live(t, rule):
            u = E.assume(t, g)
            u = u if u is not None else t
            c = E.fld(q, i) if q.op != "adt" else q.a[2 + i]
            for want in (0, 1):
                w = E.assume(u, E.cond(E.discr_of(L.count), want))
                if w is None or feasible(w) is False:
                    continue
                for _, n in live(w, c):
                    judge(ctx, key, F, n, L, want, used)


def judge(ctx, key, F, n, L, want, used):
    if n is L.count:
        ok = want == 0 or not used
    elif path_of(F, n) != OPTION:
        ctx.undec(key, show(n, 0, 2)[:120])
        return
    elif want == 0:
        ok = n.a[1] == 0
    elif n.a[1] == 0:
        ok = False
    elif not used:
        ok = n.a[2] is L.left
    else:
        v = n.a[2]
        ok = v.op == "bin" and v.a[0].startswith("Sub") and v.a[1] is L.left and v.a[2] is I(1)
        if not ok and has(v, lambda t: t.op == "call"):
            ctx.undec(key, show(v, 0, 3)[:120])
            return
    ctx.ob(key, ok, ("an occurrence does not use up exactly one unit of COUNT: " if used else "a skipped exception changes COUNT: ") + show(n, 0, 4)[:150])
