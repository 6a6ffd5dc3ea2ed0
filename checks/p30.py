"""Progress of every loop and recursion.

Every natural loop of every function of the crate (compiled bodies, closures included) is listed, and the functions
containing them (or, for helpers private to a module, the functions that use these) are interpreted abstractly. For each
loop the state carried from one turn to the next is summarised, and
- it terminates when some part of the state gets strictly smaller on every way round: an iterator over a finite
  collection or text that has given an element, a remaining text that has lost at least one byte, a counter that goes
  down, or up towards a bound that the loop does not change; for the iteration over occurrences, a date that the step has
  moved and that is not the one of before;
- it cannot terminate (a violation) when there is a feasible way round that leaves everything the loop's conditions
  depend on as it was, or when no path leaves it;
- otherwise it is reported as undecided.
Recursion: the call graph (resolved calls, conversions through parse/to_string included) is searched for cycles, and a call
that is made again, inside itself, with the same arguments never returns (a violation). The repetition combinators of nom
refuse parsers that consume nothing (documented), and every adaptor that drives a collection is modelled on finite ones;
sources that never end are listed."""
import engine as E
from checks.util import *
from checks import occur, p25, panics
from checks.p04 import refs
from checks.p28 import closures
import core

RULE = "every loop makes progress on every way round and no call repeats itself (one obligation per loop and per function)"
FLOOR = 60

ENDLESS = ("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_with::repeat_with",
           "core::iter::sources::successors::successors", "core::iter::sources::from_fn::from_fn",
           "core::iter::traits::iterator::Iterator::cycle")


def run(ctx):
    F = ctx.F
    own = [i for i, f in enumerate(F.fns) if f["krate"] == "ikal" and f.get("body")]
    graph(ctx, own)
    its = set(occur.iterators(ctx))
    want, roots = {}, set()
    users = callers(F)
    for i in own:
        try:
            loops = E.CFG(F.fns[i]["body"]).loops
        except E.Unsupported as e:
            ctx.undec(F.fns[i]["name"], e)
            continue
        if loops and i not in its:
            want[i] = sorted(loops)
            roots |= entries(F, users, i)
    seen, turned, done = {}, set(), set()
    endless = {}
    # every reader, writer and entry point as well: recursion shows only there
    for i in own:
        f = F.fns[i]
        if f["dk"] != "Closure" and "{closure" not in f["path"] and (f.get("trait") or "").startswith(
                ("ikal::ser::Serialize", "core::fmt::Display", "core::convert::", "core::str::traits::FromStr",
                 "core::cmp::", "ikal::iter::Recurring")):
            roots.add(i)
    for r in sorted(roots - its):
        try:
            res = ctx.run(r)
        except core.Undecided as e:
            ctx.undec(F.fns[r]["name"], e)
            continue
        turned |= res.en.turned
        done.add(r)
        for l, rec in res.loops.items():
            if l.a[0] == "L":
                fid, header = l.a[1], l.a[2]
                seen.setdefault((fid.a[-1], header), []).append((r, rec, res))
        for fn, stack, guards in res.en.endless:
            endless.setdefault(fn, (r, guards))
        ctx.ob("%s|returns" % F.fns[r]["name"], not res.en.endless,
               "; ".join("%s is called again with the same arguments when %s" % (
                   F.fns[fn]["path"], ", ".join(show(g)[:80] for g in gs[:4])) for fn, _, gs in res.en.endless[:2]))
    for i in sorted(want):
        for k, header in enumerate(want[i]):
            name = "%s|loop %d" % (F.fns[i]["name"], k)
            recs = seen.get((i, header))
            if not recs:
                if (i, header) in turned:
                    ctx.ob(name, True, "the number of turns is a constant")
                elif i in done:
                    ctx.ob(name, True, "no execution enters the loop")
                else:
                    ctx.undec(name, "not reached by the analysis")
                continue
            verdicts = [Loop(ctx, rec, res).verdict() for _, rec, res in recs]
            for v, why in verdicts:
                if v is False:
                    ctx.ob(name, False, why)
                    break
            else:
                un = [why for v, why in verdicts if v is None]
                if un:
                    ctx.undec(name, un[0])
                else:
                    ctx.ob(name, True, verdicts[0][1])
    for i in sorted(its):
        try:
            occurrences(ctx, i)
        except core.Undecided as e:
            ctx.undec(F.fns[i]["name"], e)


# -- calls -----------------------------------------------------------------
def edges(F, i):
    f = F.fns[i]
    if f.get("body"):
        return [r for r in refs(f["body"]) if isinstance(r, int)] + closures(F, f)
    # library dispatchers that are not analysed call the implementation for their type argument
    tr = {"parse": "core::str::traits::FromStr::from_str", "to_string": "core::fmt::Display::fmt",
          "new_display": "core::fmt::Display::fmt", "new_debug": "core::fmt::Debug::fmt"}.get(f["path"].rsplit("::", 1)[-1])
    if tr is None:
        return []
    tys = [t for t in (f.get("args") or []) if isinstance(t, int)]
    if f.get("self_ty") is not None:
        tys.append(f["self_ty"])
    out = []
    for t in tys:
        while F.types[t]["k"] == "ref":
            t = F.types[t]["to"]
        fn = F.fn_for(tr, t)
        if fn is not None:
            out.append(fn)
    return out


def callers(F):
    out = {}
    for i in range(len(F.fns)):
        for r in edges(F, i):
            out.setdefault(r, set()).add(i)
    return out


def entries(F, users, i):
    """the functions to analyse to see function i at work"""
    out, todo, seen = set(), [i], set()
    while todo:
        j = todo.pop()
        if j in seen:
            continue
        seen.add(j)
        f = F.fns[j]
        closure = f["dk"] == "Closure" or "{closure" in f["path"]
        if f["krate"] == "ikal" and not closure and (f.get("vis") != "private" or f.get("trait")) and f.get("body"):
            out.add(j)
        elif f["krate"] in ("ikal", "ikal_witness") or closure:
            todo += users.get(j, ())
            if closure:
                head = f["path"].split("::{closure")[0]
                todo += [k for k, g in enumerate(F.fns) if g["path"] == head and g.get("body")]
    return out or {i}


def graph(ctx, own):
    """cycles of the call graph that pass through the crate"""
    F = ctx.F
    g = {}
    todo = list(own)
    while todo:
        i = todo.pop()
        if i in g:
            continue
        g[i] = edges(F, i)
        todo += g[i]
    comp = scc(g)
    for i in own:
        c = comp[i]
        if len(c) > 1 or i in g[i]:
            names = sorted({F.fns[j]["path"] for j in c if F.fns[j]["krate"] == "ikal"})
            if not leaves_cycle(F, i, c, g):
                ctx.ob("%s|recursion" % F.fns[i]["name"], False,
                       "every path of the function calls itself again, through " + ", ".join(names[:4]))
            else:
                ctx.undec("%s|recursion" % F.fns[i]["name"], "calls itself through " + ", ".join(names[:4]))
        else:
            ctx.ob("%s|no recursion" % F.fns[i]["name"], True)
        for r in g[i]:
            if F.fns[r]["path"] in ENDLESS:
                ctx.undec("%s|endless source" % F.fns[i]["name"], F.fns[r]["path"])


def leaves_cycle(F, i, c, g):
    """can the function return without a call into its cycle?"""
    inner = {j for j in c}
    blocks = F.fns[i]["body"]["blocks"] if F.fns[i].get("body") else []
    seen, todo = set(), [0]
    succ = E.CFG(F.fns[i]["body"]).succ if blocks else []
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        t = blocks[b][2]
        if t[0] == "return":
            return True
        if t[0] == "call":
            called = {r for r in refs(t) if isinstance(r, int)}
            if called & inner:
                continue
        todo += succ[b]
    return False


def scc(g):
    idx, low, st, on, out = {}, {}, [], set(), {}
    n = [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        s.append(w)
                        if w == v:
                            break
                    for w in s:
                        out[w] = s
    return out


# -- loops -----------------------------------------------------------------
class Loop:
    def __init__(self, ctx, rec, res):
        self.ctx, self.rec, self.res = ctx, rec, res

    def verdict(self):
        rec = self.rec
        if not rec["exits"] and not rec["rets"]:
            return False, "no path leaves the loop"
        if "back" not in rec:
            return True, "the loop is never gone round"
        self.back = rec["back"]
        why = []
        for x, nx in rec["nexts"].items():
            r = self.shrinks(x, nx)
            if r is True:
                return True, "%s gets smaller on every way round" % show(x, 0, 2)[:80]
            if r:
                why.append(r)
        stuck = self.stuck()
        if stuck is not None:
            return False, stuck
        return None, "no part of the state is seen to shrink: " + "; ".join(why)[:200]

    def shrinks(self, x, nx):
        last = None
        for g, y in alts(nx):
            st = E.assume(self.back, g)
            if st is None or not feasible(st):
                continue
            r = self.smaller(st, x, y)
            if r is not True:
                last = r or "%s may become %s" % (show(x, 0, 2)[:60], show(y, 0, 2)[:60])
                return last
        return True

    def smaller(self, st, x, y):
        n = y
        k = 0
        while n.op == "tail":
            n, k = n.a[0], k + 1
        if k and n is x:
            return True if self.drawn(st, x) else "an element may not have been there"
        if y.op == "sub" and y.a[0] is x and len(y.a) == 2:
            lo = self.least(st, y.a[1])
            return True if lo is not None and lo >= 1 else "the text may not get shorter"
        if y.op == "vfld" and y.a[0].op == "call" and y.a[0].a[0] in ("strip_prefix", "strip_suffix") and y.a[0].a[1] is x:
            p = y.a[0].a[2]
            return True if p.op != "str" or p.a[0] else None
        if y.op == "bin" and y.a[1] is x and y.a[2].op == "int":
            c = y.a[2].a[0]
            if y.a[0] == "Sub" and c >= 1 or y.a[0] == "Add" and c <= -1:
                return True
            if y.a[0] == "Add" and c >= 1:
                return True if self.bounded(st, x) else "the counter has no bound"
        return None

    def drawn(self, st, x):
        return E.ev(st, E.seq_empty(x)) is FALSE or E.ev(self.back, E.seq_empty(x)) is FALSE \
            or not feasible_with(st, E.seq_empty(x))

    def mine(self, t):
        return any(s in self.rec["nexts"] for s in subterms(t))

    def bounded(self, st, x):
        for t, (k, v) in st.facts.items():
            if t.op == "bin" and t.a[0] == "Lt" and k == "=":
                a, b = t.a[1], t.a[2]
                if v == 1 and a is x and not self.mine(b):
                    return True
                if v == 0 and b is x and not self.mine(a):
                    return True
        return False

    def least(self, st, t):
        """a lower bound of an index into a text"""
        lo, _ = self.res.en.rng_st(st, t)
        if lo is not None and lo >= 1:
            return lo
        if t.op == "phi":
            xs = []
            for g, y in t.a[0]:
                s = E.assume(st, g)
                if s is not None:
                    xs.append(self.least(s, y))
            return None if None in xs or not xs else min(xs)
        if t.op == "slen" and E.ev(st, cond_empty(t.a[0])) is FALSE:
            return 1
        if t.op == "call" and t.a[0] == "floor_char_boundary":
            return self.stepped_back(st, t.a[2], {t.a[1]})
        if t.op == "lv":
            # a position stepped back to the start of a character: no character has more than four bytes
            for l, rec in self.res.loops.items():
                if t in rec["nexts"] and l is not self.rec["id"]:
                    y = rec["nexts"][t]
                    if y.op == "bin" and y.a[0] == "Sub" and y.a[1] is t and y.a[2] is I(1) and stops_at_char(rec, t):
                        return self.stepped_back(st, rec["init"][t], stops_at_char(rec, t))
        return lo

    def stepped_back(self, st, n, texts):
        """the start of a character at n or just before"""
        xs = []
        for g, y in alts(n):
            s = E.assume(st, g)
            if s is None or not feasible(s):
                continue
            lo, _ = self.res.en.rng_st(s, y)
            if y.op == "slen" and y.a[0] in texts:
                xs.append(lo)       # the end of the text is one
            elif y.op == "call" and y.a[0] == "min" and len(y.a) == 3:
                xs += [self.stepped_back(s, z, text) for z in y.a[1:]]
            else:
                xs.append(lo - 3 if lo is not None and lo >= 4 else None)
        return None if None in xs or not xs else min(xs)

    def may_be_zero(self, t):
        """a position stepped back from too close to the start: a character may be longer"""
        if t.op == "lv":
            for l, rec in self.res.loops.items():
                if t in rec["nexts"] and l is not self.rec["id"] and stops_at_char(rec, t):
                    return any(y.op == "int" and y.a[0] < 4 for _, y in alts(rec["init"][t]))
        if t.op == "call" and t.a[0] == "floor_char_boundary":
            return any(y.op == "int" and y.a[0] < 4 for _, y in alts(t.a[2]))
        return False

    # -- no progress at all
    def stuck(self):
        """a way round that leaves everything the conditions depend on as it was"""
        nexts = self.rec["nexts"]
        cone, todo = set(), []

        def mention(t):
            for s in subterms(t):
                if s in nexts and s not in cone:
                    cone.add(s)
                    todo.append(s)
        for st in [self.back] + [e[1] for e in self.rec["exits"]]:
            for f in st.lits():
                mention(f)
        while todo:
            mention(nexts[todo.pop()])
        if not cone:
            return None
        same = []
        for x in cone:
            gs = []
            for g, y in alts(nexts[x]):
                if y is x:
                    gs.append(g)
                elif y.op in ("cat", "vec") and y.a and (y.a[0] is x or y.a[0].op == "all" and y.a[0].a[0] is x):
                    gs.append(AND([g] + [OR([h for h, z in alts(q.a[0] if q.op == "all" else q) if empty(z)])
                                         for q in y.a[1:]]))
                elif y.op == "sub" and y.a[0] is x and len(y.a) == 2 and self.may_be_zero(y.a[1]):
                    gs.append(AND([g, E.cond(y.a[1], 0)]))
                elif y.op == "int" or y.op == "str":
                    gs.append(AND([g, E.cond(x, y.a[0])]))
            if not gs:
                return None
            same.append(OR(gs))
        st = E.assume(self.back, AND(same))
        if st is None or not feasible(st):
            return None
        for i in range(3):
            for s in same:
                st = E.assume(st, s) if st is not None else None
        if st is None or not feasible(st):
            return None
        return "the loop goes round without any change when " + "; ".join(show(g)[:80] for g in st.lits()[:6])


def empty(z):
    return z.op == "str" and z.a[0] == "" or z.op == "vec" and not z.a


def cond_empty(s):
    return E.cond(s, "")


def feasible_with(st, f):
    s = E.assume(st, f)
    return s is not None and feasible(s)


def stops_at_char(rec, t):
    """the texts in which the position is known not to start a character, on the way round"""
    return {s.a[1] for f in rec["back"].lits() for s in subterms(f)
            if s.op == "call" and s.a[0] == "is_char_boundary" and s.a[2] is t}


# -- occurrences -------------------------------------------------------------
def occurrences(ctx, i):
    F = ctx.F
    N = occur.Next(ctx, i)
    ok, why = True, "the date of the next turn is later"
    rt = adt_type(F, p25.RECUR)
    k = field_index(F, rt, "interval")
    for x, v, rec in N.turns:
        old = N.field(N.cur(x), "dtstart")
        opt = F.types[F.types[N.ty]["v"][0]["f"][field_index(F, N.ty, "dtstart")][1]].get("path") == OPTION
        for g, y in alts(v):
            st = E.assume(rec["back"], g)
            if st is None or not feasible(st):
                continue
            if path_of(F, y) == OPTION and y.a[1] == 0:
                continue            # nothing is left: the next turn ends
            new = N.field(y.a[2], "dtstart") if path_of(F, y) == OPTION else None
            if new is None:
                if y is x:
                    ok, why = False, "the same component is considered again"
                    continue
                raise core.Undecided("the next component is " + show(y, 0, 2)[:80])
            if new is old:
                ok, why = False, "the component considered next starts at the same date"
                continue
            a, b = (strip_some(F, new), E.vfld(old, 1, 0)) if opt else (new, old)
            if not (a.op == "vfld" and a.a[0].op == "call" and a.a[0].a[0] in N.steps):
                raise core.Undecided("the next date is " + show(a, 0, 2)[:80])
            if a.a[0].a[2] is not b:
                raise core.Undecided("the next date is not a step from the current one: " + show(a, 0, 3)[:80])
            # an interval of 0 gives the same date again
            same = moved(st, a, b)
            interval = E.fld(a.a[0].a[1], k)
            zero = E.assume(st, E.cond(interval, 0))
            if same is not None and feasible(same) and zero is not None and feasible(zero):
                ok, why = False, "with an INTERVAL of 0 the same date is considered for ever, when " + "; ".join(
                    show(f, 0, 2)[:80] for f in st.lits()[:5])
    ctx.ob("%s|the next occurrence" % N.name, ok, why)


def moved(st, a, b):
    """the way round when the step gives the date it started from, if it can be taken"""
    fs = [E.subst(f, {a: b}) for f in st.lits()]
    for f in fs:
        if f.op == "lit" and f.a[0].op == "eq" and f.a[0].a[0] is f.a[0].a[1] and f.a[-1] in (0, I(0)):
            return None
    return E.assume(st, AND(fs))


def strip_some(F, t):
    if path_of(F, t) == OPTION:
        return t.a[2]
    return E.vfld(t, 1, 0)
