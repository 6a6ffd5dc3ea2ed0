"""The text level of reading: from the text of a component to its content lines and sub-components.

The nom parsers of the components are summarised as terms over the input text: `strip(x, tag)` is x without
the leading tag, `span(x, set)`/`spanrest(x, set)` the longest prefix within a character set and what follows it,
`nomval(f, x)`/`nomrest(f, x)` the value and the rest of a parser kept opaque, and a repetition is a loop over these."""
import engine as E
from checks.util import *
from checks import compread as R
from checks.scen import Shape
import core

TRY_FROM = "as core::convert::TryFrom<alloc::vec::Vec<ikal::content_line::ContentLine>>>::try_from"
BLOCK = {"VCalendar": "VCALENDAR", "VEvent": "VEVENT", "VTodo": "VTODO", "VJournal": "VJOURNAL", "VFreebusy": "VFREEBUSY",
         "VTimezone": "VTIMEZONE", "Standard": "STANDARD", "Daylight": "DAYLIGHT", "VAlarm": "VALARM"}


def line_type(F):
    return adt_type(F, "ikal::content_line::ContentLine")


def nom_parsers(F):
    """functions &str -> IResult<&str, T> with their payload type"""
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or f.get("out") is None:
            continue
        if len(f.get("ins") or ()) != 1 or F.types[f["ins"][0]]["s"] != "&str":
            continue
        o = F.types[f["out"]]
        if o.get("path") != RESULT or not o.get("args"):
            continue
        t = F.types[o["args"][0]]
        if t["k"] == "tuple" and len(t["f"]) == 2 and F.types[t["f"][0]]["s"] == "&str":
            yield i, f, t["f"][1]


class Text:
    """the parser of one component's text"""

    def __init__(self, ctx, fnid, ty):
        self.ctx, self.F, self.fnid, self.ty = ctx, ctx.F, fnid, ty
        self.short = ctx.F.types[ty]["path"].split("::")[-1]
        self.name = ctx.F.fns[fnid]["path"]
        self.r = ctx.run(fnid)
        self.arg = core.arg(ctx.F, 0, ctx.F.fns[fnid]["body"]["locals"][1])
        self.fields = R.fields(ctx.F, ty) if ctx.F.types[ty].get("adt", "struct") and len(ctx.F.types[ty]["v"]) == 1 else []
        self.oks = []
        for g, k, p in results(ctx.F, self.r.value):
            if k == "?":
                raise core.Undecided("%s: result %s" % (self.name, show(p, 0, 2)[:100]))
            if k == "ok":
                if p.op != "tuple" or len(p.a) != 2:
                    raise core.Undecided("%s: payload %s" % (self.name, show(p, 0, 2)[:100]))
                self.oks.append((g, p.a[0], p.a[1]))
        if not self.oks:
            raise core.Undecided(self.name + ": no successful result")

    def reader_calls(self, v):
        return [c for c in calls(v) if c.a[0].endswith(TRY_FROM)]

    def lines(self):
        """[(guard, sequence of lines handed to the reader)]"""
        out = []
        for g, rest, v in self.oks:
            out.append((g, sorted({c.a[-1] for c in self.reader_calls(v)}, key=lambda t: t.id), v))
        return out

    def check_lines(self):
        key = "%s text|lines" % self.short
        for g, seqs, v in self.lines():
            if not seqs:
                # the component is the value of another parser
                if v.op in ("nomval", "vfld"):
                    continue
                self.ctx.undec(key, "no reader call in " + show(v, 0, 2)[:100])
                return
            for s in seqs:
                k = every_line(self, s)
                if k is None:
                    self.ctx.undec(key, "lines are " + show(s, 0, 3)[:150])
                    return
                if not k:
                    self.ctx.ob(key, False, "the lines handed to the reader are not all those read: " + show(s, 0, 3)[:200])
                    return
        self.ctx.ob(key, True)


def every_line(tx, s):
    """s is the full list of lines of a parser; None: undecided"""
    if s.op == "nomval":
        return True
    if s.op == "rep":
        ok = True
        for _, x in alts(s.a[2]):
            if x.op == "vec" and len(x.a) == 1 and x.a[0].op == "one":
                continue
            ok = False
        if not ok:
            return False
        return True if s.a[1].op == "iters" else every_line(tx, s.a[1])
    if s.op == "vec":
        if len(s.a) == 1 and s.a[0].op == "all":
            return every_line(tx, s.a[0].a[0])
        return False if not s.a else None
    if s.op == "lv":
        for l, rec in tx.r.loops.items():
            if s in rec["nexts"]:
                for _, x in alts(rec["nexts"][s]):
                    if not (x.op == "vec" and x.a and x.a[0].op == "all" and x.a[0].a[0] is s and len(x.a) > 1):
                        return False
                    # at least one of the added pieces is never empty
                    if not any(p.op == "one" or (p.a[0].op == "phi" and all(y.op == "vec" and y.a for _, y in alts(p.a[0])))
                               or p.a[0].op not in ("phi", "vec") for p in x.a[1:]):
                        return False
                return True
    return None


def texts(ctx):
    F = ctx.F
    done = set()
    for i, f, ty in nom_parsers(F):
        p = F.types[ty].get("path") or ""
        short = p.split("::")[-1]
        if not p.startswith("ikal::components::") or short not in BLOCK:
            continue
        try:
            done.add(short)
            yield Text(ctx, i, ty)
        except core.Undecided as e:
            ctx.undec(short + " text", e)
    for s in BLOCK:
        if s not in done:
            ctx.undec(s + " text", "no parser found")


def check_lines(ctx):
    """the line parser leaves nothing out"""
    F = ctx.F
    lt = line_type(F)
    n = 0
    for i, f, ty in nom_parsers(F):
        if ty == lt:
            n += 1
            one_line(ctx, i, f)
        elif F.types[ty]["s"] == R.LINES:
            n += 1
            many_lines(ctx, i, f)
    if n < 2:
        ctx.undec("lines", "the parsers of content lines were not found")


def many_lines(ctx, i, f):
    key = "content lines|%s" % f["path"].split("::")[-1]
    try:
        r = ctx.run(i)
    except core.Undecided as e:
        ctx.undec(key, e)
        return
    tx = type("X", (), {"r": r})
    for g, k, p in results(F_(ctx), r.value):
        if k == "ok" and p.op == "tuple":
            e = every_line(tx, p.a[1])
            if e is None:
                ctx.undec(key, show(p.a[1], 0, 3)[:150])
            else:
                ctx.ob(key, e, "not every line read is in the result: " + show(p.a[1], 0, 3)[:200])


def F_(ctx):
    return ctx.F


EOL = {10, 13}


def behind(r, t):
    """the loops that t is the result of, directly or through other loops"""
    seen, todo, out = set(), [t], []
    while todo:
        for x in subterms(todo.pop()):
            if x.op in ("lv", "rep") and x.a[0] in r.loops and x.a[0] not in seen:
                seen.add(x.a[0])
                rec = r.loops[x.a[0]]
                out.append(rec)
                todo += list(rec["init"].values()) + list(rec.get("nexts", {}).values()) + list(rec.get("iters", {}).values())
    return out


def one_line(ctx, i, f):
    key = "content line|%s" % f["path"].split("::")[-1]
    F = ctx.F
    try:
        r = ctx.run(i)
    except core.Undecided as e:
        ctx.undec(key, e)
        return
    a = core.arg(F, 0, F.fns[i]["body"]["locals"][1])
    names = field_names(F, line_type(F))
    for w in ("ENDX", "BEGINX", "END-AT", "BEGIN-AT"):
        v = Shape(a, list(w + ":v\r\n")).scen.pick(r.value)
        if path_of(F, v) == RESULT:
            ctx.ob(key + "|a property named " + w, v.a[1] == 0, "is not a content line")
    for g, k, p in results(F, r.value):
        if k != "ok" or p.op != "tuple":
            continue
        c = p.a[1]
        if path_of(F, c) != "ikal::content_line::ContentLine":
            ctx.undec(key, show(c, 0, 2)[:100])
            return
        v = {n: c.a[2 + j] for j, n in enumerate(names)}
        # the name is a prefix of the line
        ks = leaves(v["key"])
        ctx.ob(key + "|name", all(x.op == "span" and x.a[0] is a for x in ks), "the name is not the beginning of the line: " + show(v["key"], 0, 3)[:150])
        rests = {mk("spanrest", x.a[0], x.a[1]) for x in ks if x.op == "span"}
        # the parameters start where the name ends
        par = set()
        for rec in behind(r, v["params"]):
            for u, init in rec["init"].items():
                if init in rests:
                    par.add(u)
        ok = bool(par)
        if not ok:
            ctx.undec(key + "|params", "the parameters do not start after the name")
            return
        # the value follows the colon after the parameters, up to the end of the line
        for h, x in alts(v["value"], g):
            if x is S(""):
                continue
            if x.op != "span":
                ctx.undec(key + "|value", show(x, 0, 3)[:150])
                return
            src = x.a[0]
            stop = excluded(x.a[1])
            ctx.ob(key + "|value start", src.op == "strip" and src.a[1] is S(":") and src.a[0] in par,
                   "the value does not start after the colon that ends the parameters: " + show(src, 0, 3)[:150])
            ctx.ob(key + "|value end", stop is not None and stop <= EOL, "the value ends at %s, before the end of the line" % sorted(stop or ()))
            for _, y in alts(p.a[0], h):
                ctx.ob(key + "|rest", y.op == "strip" and y.a[0] is mk("spanrest", src, x.a[1]) and y.a[1] in (S("\r\n"), S("\n"), S("\r")),
                       "what follows the line is not where the value ends: " + show(y, 0, 3)[:150])


def excluded(cs):
    """characters of the sample alphabet outside a set"""
    if cs.op != "cset":
        return None
    import nommodel
    return set(nommodel.ALLCH) - set(cs.a[0])
