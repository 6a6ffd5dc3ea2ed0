"""The writing side of the components: the text `<Component as Serialize>::ical` returns.

Its summary is a concatenation of parts; a part depends on the fields of `self` it mentions. Lines are read in
the view where no line is long enough to be folded (folding is judged by P17)."""
import engine as E
from checks.util import *
from checks import compread as R
import core
import policy

SER = "ikal::ser::Serialize::ical"


def short_view(v):
    """v when no text is long enough to be folded"""
    st = E.St()
    for _ in range(6):
        facts = []
        for t in subterms(v):
            f = small(t)
            if f is not None:
                facts.append(f)
        if not facts:
            break
        for f in facts:
            st = E.assume(st, f)
        v = E.restrict(st, v)
    return v, st


def unfolded(v, loops):
    """v with the text that is cut into lines in the place of the lines (P17 judges the cutting)"""
    for _ in range(4):
        m = {}
        for t in subterms(v):
            if t.op in ("joinseq", "join", "cat"):
                j = as_join(t)
                if j.op == "joinseq" and (const(j.a[1]) or "").startswith("\r\n") and const(j.a[1])[2:] in (" ", "\t"):
                    x = cut_text(j.a[0], loops)
                    if x is not None and x is not t:
                        m[t] = x
        if not m:
            return v
        v = E.subst(v, m)
    return v


def cut_text(seq, loops):
    """the text whose pieces the sequence holds"""
    it = seq.a[0] if seq.op == "vec" and seq.a else mk("all", seq)
    if it.op == "one":
        return it.a[0].a[0] if it.a[0].op == "sub" else None
    rep = it.a[0]
    rec = loops.get(rep.a[0]) if rep.op == "rep" else None
    if rec is None or rep.a[2].op != "vec" or len(rep.a[2].a) != 1 or rep.a[2].a[0].op != "one":
        return None
    p = rep.a[2].a[0].a[0]
    return rec["init"].get(p.a[0]) if p.op == "sub" else None


def as_join(y):
    """the same text as the joining of a sequence of pieces, if it is of that form"""
    one = lambda p: mk("one", p)
    if y.op == "join" and len(y.a) == 4:
        return mk("joinseq", mk("vec", mk("all", mk("rep", y.a[0], y.a[1], mk("vec", one(y.a[2]))))), y.a[3])
    if y.op != "cat":
        return y
    out, sep, due = [], None, False
    for x in flat(y):
        c = const(x)
        if c is not None and due and c.startswith(("\r", "\n")):
            if sep is not None and sep is not x:
                return y
            sep, due = x, False
        elif x.op == "rep" and x.a[2].op == "cat" and len(x.a[2].a) == 2 and due:
            s, p = x.a[2].a
            if s.op != "str" or sep is not None and sep is not s:
                return y
            sep = s
            out.append(mk("all", mk("rep", x.a[0], x.a[1], mk("vec", one(p)))))
        elif not due and c is None:
            out.append(one(x))
            due = True
        else:
            return y
    return mk("joinseq", mk("vec", *out), sep) if sep is not None and due else y


def small(t):
    """comparison of the length of a line with a large constant, decided for a short line"""
    if t.op != "bin" or t.a[0] not in ("Lt", "Le", "Gt", "Ge"):
        return None
    for n, s, flip in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
        if s.op == "slen" and n.op == "int" and n.a[0] >= 40 and any(":" in (const(x) or "") for x in flat(s.a[0])):
            x, y = (n.a[0], n.a[0] // 2)
            if flip:
                x, y = y, x
            return E.cond(t, int({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t.a[0]]))
    return None


def flat(v):
    """top-level parts of a text"""
    if v.op == "cat":
        out = []
        for x in v.a:
            out += flat(x)
        return out
    if v.op == "str" and v.a and v.a[0] == "":
        return []
    return [v]


def lines_of(v):
    """the text cut after every part that is sure to end a line"""
    items = []
    for x in flat(v):
        c = const(x)
        if c is None:
            items.append(x)
        else:
            while "\r\n" in c:
                k = c.index("\r\n") + 2
                items.append(S(c[:k]))
                c = c[k:]
            if c:
                items.append(S(c))
    out, cur = [], []
    for x in items:
        cur.append(x)
        if closes(x, len(cur) == 1):
            out.append(cat(cur))
            cur = []
    if cur:
        out.append(cat(cur))
    return out


def closes(x, fresh):
    """x ends a line (or, at the beginning of one, may also be empty)"""
    if x.op == "str":
        return x.a[0].endswith("\r\n") or (fresh and x.a[0] == "")
    if x.op == "cat":
        return closes(x.a[-1], False)
    if x.op == "phi":
        return all(closes(y, fresh) for _, y in x.a[0])
    if x.op == "rep":
        return fresh and closes(x.a[2], True)
    return nested(x) is not None


def const(t):
    return t.a[0] if t.op == "str" else None


def fields_used(v, arg):
    """indices i with fld(deref(arg), i) in v"""
    d = mk("deref", arg)
    return {t.a[1] for t in subterms(v) if t.op == "fld" and (t.a[0] is d or t.a[0] is arg)}


class Line:
    """one alternative of what is written for a field: guard, enclosing loops, name (constant or term), params, value"""

    def __init__(self, guard, loops, items):
        self.guard = guard
        self.loops = loops
        self.items = items
        self.name = self.head = None
        self.attrs = []
        self.value = []
        self.ok = False
        self.split()

    def split(self):
        rest = list(self.items)
        if not rest:
            return
        # the name
        c = const(rest[0])
        if c is not None:
            k = min([c.find(x) for x in ":;" if x in c] or [len(c)])
            self.name = c[:k]
            rest = ([S(c[k:])] if c[k:] else []) + rest[1:]
        else:
            self.head = rest[0]
            rest = rest[1:]
        # parameters, up to the colon
        colon = False
        while rest:
            c = const(rest[0])
            if c is not None and ":" in c:
                k = c.index(":")
                if c[:k]:
                    self.attrs.append(S(c[:k]))
                rest = ([S(c[k + 1:])] if c[k + 1:] else []) + rest[1:]
                colon = True
                break
            self.attrs.append(rest.pop(0))
        if not colon or not rest:
            return
        c = const(rest[-1])
        self.ok = c is not None and c.endswith("\r\n")
        if self.ok:
            rest = rest[:-1] + ([S(c[:-2])] if c[:-2] else [])
        self.value = rest


class Part:
    """one contiguous piece of the text"""

    def __init__(self, wr, term):
        self.wr, self.term = wr, term
        self.fields = sorted(fields_used(term, wr.arg))
        self.empty = []      # (guard, loops) under which nothing is written
        self.lines = []      # Line alternatives
        self.subs = []       # (guard, loops, value written) of nested components
        self.other = []
        self.emit(term, TRUE, ())

    def emit(self, v, g, loops):
        for h, x in alts(v, g):
            if x is S(""):
                self.empty.append((h, loops))
            elif x.op == "rep":
                self.emit(x.a[2], h, loops + ((x.a[0], x.a[1]),))
            elif nested(x) is not None:
                self.subs.append((h, loops, nested(x)))
            else:
                for k, items in expand(flat(x), h):
                    l = Line(k, loops, items)
                    if l.ok:
                        self.lines.append(l)
                    else:
                        self.other.append((k, loops, x))


def expand(items, g, depth=6):
    """resolve choices at the beginning of a line"""
    if items and depth and items[0].op == "phi":
        for h, x in alts(items[0], g):
            yield from expand(flat(cat(flat(x) + items[1:])), h, depth - 1)
    else:
        yield g, items


def nested(x):
    """the component whose text x is"""
    if x.op == "vfld" and x.a[1] == 0 and x.a[0].op == "call" and x.a[0].a[0].endswith("ser::Serialize>::ical"):
        return x.a[0].a[-1]
    return None


class Writer:
    def __init__(self, ctx, short, opaque=None):
        self.ctx, self.F = ctx, ctx.F
        F = ctx.F
        self.name = "ikal::components::" + short
        self.short = short.split("::")[-1]
        self.ty = adt_type(F, self.name)
        if self.ty is None:
            raise core.Missing(self.name)
        self.fnid = ctx.impl(SER, self.name)[0]
        self.fnname = F.fns[self.fnid]["name"]
        self.fields = R.fields(F, self.ty)
        self.r = ctx.run(self.fnid) if opaque is None else ctx.run(self.fnid, opaque=lambda g, m=policy.modular(F, self.fnid): opaque(g) or m(g), key=("values opaque", self.fnid))
        self.arg = core.arg(F, 0, F.fns[self.fnid]["body"]["locals"][1])
        self.views = []
        for g, k, p in results(F, self.r.value):
            if k == "?":
                raise core.Undecided("%s: result %s" % (self.fnname, show(p, 0, 2)[:100]))
            if k == "ok":
                v, st = short_view(p)
                v = unfolded(v, self.r.loops)
                if v.op == "bottom":
                    continue
                self.views += self.split(g, lines_of(v))
        if not self.views:
            raise core.Undecided(self.fnname + ": no text found")

    def split(self, g, terms, depth=3):
        """views of a text; alternatives that span several fields become views of their own"""
        flats = [y for x in terms for y in flat(x)]
        for n, x in enumerate(flats):
            if depth and x.op == "phi" and len(fields_used(x, self.arg)) > 1:
                out = []
                for h, y in alts(x):
                    k = AND([g, h])
                    st = E.assume(E.St(), k)
                    if st is not None:
                        y = E.restrict(st, cat(flats[:n] + flat(y) + flats[n + 1:]))
                        out += self.split(k, lines_of(y), depth - 1)
                return out
        return [(g, [Part(self, x) for x in terms])]

    def parts_of(self, view, i):
        return [p for p in view if i in p.fields]

    def names(self):
        """[(field, set of names its lines start with)]"""
        out = []
        for f in self.fields:
            i, n, ty, k = f
            if k in ("sub", "map"):
                continue
            got = set()
            bad = False
            for g, view in self.views:
                for p in self.parts_of(view, i):
                    if p.other or p.subs or len(p.fields) != 1:
                        bad = True
                    for l in p.lines:
                        if l.name is None:
                            bad = True
                        else:
                            got.add(l.name)
            out.append((f, got if got and not bad else None))
        return out


def writers(ctx, opaque=None):
    for c in R.COMPONENTS:
        try:
            yield Writer(ctx, c, opaque)
        except core.Undecided as e:
            ctx.undec(c + "|writer", e)
