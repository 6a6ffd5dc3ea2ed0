"""Folding and unfolding.

Writers: in the text of every component each piece whose length is not bounded has to stand inside a fold: a list of
pieces joined with CRLF and a space. The pieces are examined by induction over the loop that makes them: each is a
prefix of what is left, what is left next is the rest behind that prefix, the loop ends when nothing is left, no piece
is empty, longer than the limit or cut inside a character; a line that is not folded is within the limit, and
one that is folded is not. Readers: the text given to the parser of a component is the whole input from which CRLF and
space as well as CRLF and tab, and nothing else, have been removed."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
import core

RULE = "lines over 75 octets are cut into pieces that make up the line, between characters; readers remove CRLF space and CRLF tab only"
FLOOR = 60
TECHNIQUE = "induction over the loops that fold and term matching of the unfolding"
LIMIT = 75
SEPS = ("\r\n ", "\r\n\t")


class Folds:
    def __init__(self, ctx, wr):
        self.ctx, self.wr, self.F = ctx, wr, ctx.F
        self.n = 0
        self.sites = []
        self.loose = []

    def walk(self, v, loops=()):
        for x in W.flat(v):
            if x.op == "str" or W.nested(x) is not None:
                continue
            if x.op == "joinseq" and isinstance(const(x.a[1]), str) and "\n" in const(x.a[1]):
                self.sites.append((None, [(TRUE, x)], None))
            elif x.op == "phi":
                t = self.site(x)
                if t is not None:
                    self.sites.append((x, list(alts(x)), t))
                else:
                    for _, y in x.a[0]:
                        self.walk(y, loops)
            elif x.op == "cat":
                self.walk(x, loops)
            elif x.op == "rep":
                self.walk(x.a[2], loops + (x.a[0],))
            else:
                self.loose.append(x)

    def site(self, x):
        """the text a choice folds"""
        ys = [y for _, y in alts(x)]
        plain = [y for y in ys if y.op != "joinseq"]
        if len(plain) < len(ys):
            return plain[0] if plain else None
        measured = {l.a[0].a[k].a[0] for g, _ in alts(x) for l in literals(g) if l.a[0].op == "bin" and len(l.a[0].a) == 3
                    for k in (1, 2) if l.a[0].a[k].op == "slen"}
        for y in ys:
            if y in measured:
                return y
        return None


def const(t):
    return t.a[0] if t.op == "str" else None


def bounded(x):
    """a text of bounded length"""
    return x.op in ("dec", "chr") or x.op == "disp"


def run(ctx):
    F = ctx.F
    for wr in W.writers(ctx):
        v = None
        for g, k, p in results(F, wr.r.value):
            if k == "ok":
                fs = Folds(ctx, wr)
                fs.walk(p)
                writer(ctx, wr, fs)
    unfolding(ctx)


def where(wr, t):
    fs = W.fields_used(t, wr.arg)
    return "%s|%s" % (wr.short, ",".join(wr.fields[i][1] for i in sorted(fs)) or "?")


def writer(ctx, wr, fs):
    for x in fs.loose:
        key = where(wr, x)
        if bounded(x):
            continue
        if x.op in ("lv", "call", "vfld") or any(t.op == "joinseq" for t in subterms(x)):
            ctx.undec(key, "written as " + show(x, 0, 2)[:120])
        else:
            ctx.ob(key, False, "is written without folding: " + show(x, 0, 2)[:80])
    seen = {}
    for whole, al, t in fs.sites:
        key = where(wr, whole if whole is not None else al[0][1])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            key += " (%d)" % seen[key]
        al = [(g, y if y is t else W.as_join(y)) for g, y in al]
        folded = [(g, y) for g, y in al if y.op == "joinseq"]
        plain = [(g, y) for g, y in al if y is t]
        for g, y in al:
            if y.op != "joinseq" and y is not t:
                ctx.undec(key, "folded as " + show(y, 0, 2)[:120])
        piece = None
        for g, j in folded:
            ctx.ob(key + ": continuation", const(j.a[1]) in SEPS, "the lines are continued with %r" % const(j.a[1]))
            got = pieces(ctx, wr, key, j.a[0], t)
            if got is not None:
                piece = max(piece or 0, got)
        for g, y in plain:
            m = longest(g, t)
            if m is None:
                m = counted(ctx, key, g, t)
                if m is None:
                    continue
            ctx.ob(key + ": long lines", m <= LIMIT, "a line of %s octets is not folded" % ("any number of" if m > 1 << 40 else m))
            if piece is not None:
                ctx.ob(key + ": short lines", max(m, piece) >= LIMIT, "a line of %d octets is folded" % (max(m, piece) + 1))
        if not plain and piece is not None:
            ctx.ob(key + ": short lines", piece >= LIMIT, "a line of %d octets is folded" % (piece + 1))


def bound(t, s):
    """(op, n): comparison of a text length with a constant, normalised to slen(s) op n"""
    if t.op != "bin" or len(t.a) != 3 or t.a[0] not in ("Lt", "Le", "Gt", "Ge"):
        return None
    a, b = t.a[1], t.a[2]
    if a.op == "slen" and a.a[0] is s and b.op == "int":
        return t.a[0], b.a[0]
    if b.op == "slen" and b.a[0] is s and a.op == "int":
        return {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[t.a[0]], a.a[0]
    return None


def longest(g, t):
    """the greatest length of t that the guard allows; None if it does not speak of it"""
    best = None
    st = E.assume(E.St(), g)
    if st is None:
        return 0
    for l in literals(g):
        b = bound(l.a[0], t)
        if b is None:
            continue
        op, n = b
        for val in (0, 1):
            if E.ev(st, E.cond(l.a[0], val)) is not TRUE:
                continue
            neg = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}
            o = op if val else neg[op]
            m = {"Lt": n - 1, "Le": n}.get(o)
            if m is not None:
                best = m if best is None else min(best, m)
    return best


def counted(ctx, key, g, t):
    """a guard that does not count octets"""
    if any(bound(l.a[0], t) for l in literals(g)):
        ctx.ob(key + ": long lines", False, "a long line may be left alone, under " + show(g, 0, 2)[:100])
        return None
    for l in literals(g):
        s = l.a[0]
        if s.op == "bin" and s.a[0] in ("Lt", "Le", "Gt", "Ge") and any(
                x.op == "slen" and x.a[0] is not t and any(y is z for y in W.flat(x.a[0]) for z in W.flat(t)) for x in s.a[1:]):
            ctx.ob(key + ": long lines", False, "only the length of a part of the line is considered")
            return None
        if s.op == "bin" and s.a[0] in ("Lt", "Le", "Gt", "Ge"):
            for x, y in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
                if y.op == "int" and x.op in ("len", "call") and any(z.op == "chars" for z in subterms(x)):
                    ctx.ob(key + ": long lines", False, "the length is counted in characters")
                    return None
    ctx.undec(key + ": long lines", "left alone under " + show(g, 0, 2)[:100])
    return None


def pieces(ctx, wr, key, seq, t):
    """the pieces make up the text; returns the greatest length of a piece"""
    items = list(seq.a) if seq.op == "vec" else [mk("all", seq)]
    cur, limit = t, 0
    loops = wr.r.loops
    last = False
    for n, it in enumerate(items):
        if last:
            continue
        if it.op == "one":
            p = it.a[0]
            if cur is None and p.op == "sub":
                cur = p.a[0]
            k = cut(ctx, key, p, cur)
            if k is None:
                return None
            z = size(ctx, wr, key, k, cur)
            if z is None:
                return None
            limit = max(limit, z)
            cur = E_rest(cur, k)
        elif it.op == "all" and it.a[0].op == "rep" and it.a[0].a[0] in loops:
            rep = it.a[0]
            rec = loops[rep.a[0]]
            body = rep.a[2]
            if body.op != "vec" or len(body.a) != 1 or body.a[0].op != "one":
                ctx.undec(key, "pieces: " + show(body, 0, 2)[:120])
                return None
            p = body.a[0].a[0]
            inner = [s for s in subterms(p) if s.op == "lv" and s.a[0] is rep.a[0]]
            left = [lv for lv in rec["nexts"] if lv in inner and lv in rec["init"] and any(x is lv for x in subterms(rec["nexts"][lv]))]
            if len(left) != 1:
                ctx.undec(key, "%d texts are being cut" % len(left))
                return None
            left = left[0]
            k = cut(ctx, key, p, left)
            if k is None:
                return None
            init = rec["init"][left]
            if init is not cur:
                elems = {}
                for l in loops.values():
                    elems.update(l.get("elem") or {})
                init = E.subst(init, elems)
            if cur is not None and init is not cur:
                return gap(ctx, key, init, cur)
            if rec["nexts"][left] is not E_rest(left, k):
                return gap(ctx, key, rec["nexts"][left], E_rest(left, k))
            z = size(ctx, wr, key, k, left)
            if z is None:
                return None
            limit = max(limit, z)
            # the end
            for _, st in rec["exits"]:
                a = E.ev(st, E.cond(left, ""))
                if a is not TRUE and E.ev(st, E.cond(mk("slen", left), 0)) is not TRUE:
                    m = longest(AND(st.lits()), left)
                    nxt = items[n + 1:]
                    if len(nxt) == 1 and nxt[0].op == "one" and nxt[0].a[0] is left and m is not None:
                        last = True
                        limit = max(limit, m)
                        continue
                    if not nxt and (a is FALSE or m):
                        ctx.ob(key + ": the end", False, "the end of the line is dropped")
                    else:
                        ctx.undec(key + ": the end", "the loop ends under other conditions")
                    return None
            cur = S("")
        else:
            ctx.undec(key, "pieces: " + show(it, 0, 2)[:120])
            return None
    ctx.ob(key + ": the pieces make up the line", cur is S(""), "the end of the line is dropped")
    ctx.ob(key + ": limit", limit <= LIMIT, "a piece has %d octets" % limit)
    if limit <= LIMIT:
        ctx.ob("continuation lines", limit + 1 <= LIMIT, "a continuation line has %d octets" % (limit + 1))
    return limit


def E_rest(x, k):
    return mk("sub", x, k)


def gap(ctx, key, got, want):
    if got.op == "sub" and want.op == "sub" and got.a[0] is want.a[0] or any(y is want for y in subterms(got)):
        ctx.ob(key + ": the pieces make up the line", False, "what is left after a piece is " + show(got, 0, 2)[:100])
    else:
        ctx.undec(key, "what is left after a piece is " + show(got, 0, 2)[:100])
    return None


def cut(ctx, key, p, cur):
    """k if the piece is the first k octets of what is left"""
    if p.op == "sub" and len(p.a) == 3 and p.a[0] is cur:
        if p.a[1] is I(0):
            return p.a[2]
        ctx.ob(key + ": the pieces make up the line", False, "a piece starts at " + show(p.a[1], 0, 2)[:60])
        return None
    if cur is not None and any(s.op == "sub" and s.a[0] is cur for s in subterms(p)):
        ctx.ob(key + ": the pieces make up the line", False, "a piece is " + show(p, 0, 2)[:100])
        return None
    ctx.undec(key, "a piece is " + show(p, 0, 2)[:100])
    return None


def size(ctx, wr, key, k, cur):
    """greatest value of a cut; it is positive and between characters"""
    if k.op == "call" and k.a[0].split("::")[-1] == "floor_char_boundary" and len(k.a) == 3:
        k0 = k.a[2]
    elif k.op == "lv" and k.a[0] in wr.r.loops:
        rec = wr.r.loops[k.a[0]]
        step = rec["nexts"].get(k)
        if step is None or step.op != "bin" or step.a[0] not in ("Sub", "Add") or step.a[1] is not k or step.a[2] is not I(1):
            ctx.undec(key, "cut at " + show(step or k, 0, 2)[:100])
            return None
        up = step.a[0] == "Add"
        ends = [c for c in {t for _, st in rec["exits"] for t in subterms(AND(st.lits()))} if c.op == "call" and "is_char_boundary" in c.a[0] and c.a[-1] is k]
        ok = ends and all(any(E.ev(st, E.cond(c, 1)) is TRUE for c in ends) for _, st in rec["exits"])
        if not ok:
            ctx.undec(key, "cut under other conditions")
            return None
        k0 = rec["init"].get(k)
        if k0 is None:
            ctx.undec(key, "cut at " + show(k, 0, 2)[:100])
            return None
        if up:
            n = top(k0)
            return None if n is None else n + 3
    else:
        ctx.undec(key, "cut at " + show(k, 0, 2)[:100])
        return None
    n = top(k0)
    if n is None:
        ctx.undec(key, "cut at " + show(k0, 0, 3)[:120])
        return None
    ctx.ob(key + ": pieces are not empty", n >= 4, "a character may not fit into %d octets" % n)
    return n


def top(k):
    """the constant in min(constant, length)"""
    ns = [x.a[0] for _, x in alts(k) if x.op == "int"]
    rest = [x for _, x in alts(k) if x.op != "int"]
    if len(ns) != 1 or any(x.op != "slen" for x in rest):
        if k.op == "call" and k.a[0].split("::")[-1] == "min" and any(x.op == "int" for x in k.a[1:]):
            return next(x.a[0] for x in k.a[1:] if x.op == "int")
        return None
    return ns[0]


def unfolding(ctx):
    F = ctx.F
    for c in list(R.COMPONENTS) + ["VAlarm"]:
        ty = adt_type(F, "ikal::components::" + c)
        if ty is None:
            ty = next((i for i, t in enumerate(F.types) if t["k"] == "adt" and (t.get("path") or "").startswith("ikal::") and t["path"].endswith("::" + c)), None)
        fn = None if ty is None else F.fn_for("core::str::traits::FromStr::from_str", ty)
        if fn is None or not F.body(fn):
            continue
        key = "reading %s" % c.split("::")[-1]
        opq = lambda g: g["path"].startswith("ikal::parser::") and len(g.get("ins") or ()) == 1 and F.types[g["ins"][0]]["s"] == "&str"
        try:
            r = ctx.run(fn, opaque=opq, key=("p17", fn))
        except core.Undecided as e:
            ctx.undec(key, e)
            continue
        arg = core.arg(F, 0, F.fns[fn]["body"]["locals"][1])
        texts = {x.a[-1] for x in subterms(r.value) if x.op in ("nomval", "nomok", "nomrest") or x.op == "call" and x.a[0].startswith("ikal::parser::")}
        texts = {t for t in texts if hasattr(t, "op") and uses(t, arg)}
        if not texts:
            ctx.undec(key, "no text is parsed")
        for t in texts:
            got = []
            while t.op == "replace":
                got.append((t.a[1], t.a[2]))
                t = t.a[0]
            if t.op == "call" and t.a[0] in ("trim", "trim_start", "trim_end") and t.a[1] is arg:
                ctx.ob(key + ": the whole input", False, "the text is changed by " + t.a[0])
                continue
            if t is not arg:
                ctx.undec(key, "reads " + show(t, 0, 2)[:100])
                continue
            for p, s in got:
                ctx.ob("%s: removes %s" % (key, show(p)[:30]), const(p) in SEPS and s is S(""),
                       "%s is replaced by %s" % (show(p)[:40], show(s)[:40]))
            for s in SEPS:
                ctx.ob("%s: unfolds %r" % (key, s), any(const(p) == s for p, _ in got), "lines continued with %r stay folded" % s)
