"""Texts are understood completely.

Each reader of a typed value is evaluated symbolically. For each form of the value (a sequence of runs - digits of a
date, a number - and literal characters) that the reader accepts, a foreign character is put at each place: the
questions the reader asks about the text follow from its form, and the answer must be an error. A reader of items in
a loop, and a reader that leaves the rest of the text to its caller, must have compared the rest with the empty text."""
import engine as E
from checks.scen import Shape, Tok, line_value, number
from checks.util import *
from checks import p20
import core

RULE = "a value with a foreign character anywhere is an error; what a parser leaves unread is empty when the value is accepted"
FLOOR = 100
TECHNIQUE = "symbolic evaluation of every reader on forms of text with a foreign character at each place; entailment of an empty rest"
INT = Tok("int", range(48, 58), kinds=("int",))
FLOAT = Tok("float", range(48, 58), kinds=("float",))
DATE = Tok("date", range(48, 58), kinds=("date",), length=8)
TIME = Tok("datetime", [ord("T")] + list(range(48, 58)), first=range(48, 58), kinds=("datetime",), length=15)
DUR = Tok("duration", map(ord, "P0123456789DTHMSW"), first=map(ord, "P"), kinds=("dur",))
OFFSET = Tok("+hhmm", map(ord, "+-0123456789"), first=map(ord, "+-"), kinds=("offset",))
WORD = Tok("word", map(ord, "abcdefghijklmnopqrstuvwxyz"))
ALPHABET = {"int": "+-0123456789", "float": "+-.0123456789eEinfatyINFATY", "date": "+-0123456789 \t\n\r\v\f", "datetime": "+-0123456789 \t\n\r\v\fT",
            "datetimez": "+-0123456789 \t\n\r\v\fTZ", "dur": "+-PWDTHMSY0123456789"}
FOREIGN = "~xZ/"
BREAKS = ";,\"#"      # also characters at which a reader might stop, in values that are not parts of a list
STAMP = [(TIME,), (TIME, "Z")]
FORMS = {
    "ikal::properties::date::DateTime": STAMP,
    "ikal::properties::date::Date": [(DATE,)] + STAMP,
    "chrono::naive::date::NaiveDate": [(DATE,)],
    "ikal::properties::geo::Geo": [(FLOAT, ";", FLOAT)],
    "ikal::properties::request_status::RequestStatus": [(FLOAT, ";", WORD)],
    "ikal::properties::period::Period": [a + ("/",) + b for a in STAMP for b in STAMP + [(DUR,)]],
    "ikal::properties::trigger::Trigger": STAMP + [(DUR,)],
    "ikal::properties::recur::WeekdayNum": [(INT, "M", "O"), ("F", "R")],
    "ikal::properties::recur::Weekday": [tuple(w) for w in ("MO", "TU", "WE", "TH", "FR", "SA", "SU")],
    "ikal::properties::recur::Freq": [tuple(w) for w in ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY")],
    "ikal::properties::status::Status": [tuple(w) for w in ("TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL")],
    "ikal::properties::time_transparency::TimeTransparency": [tuple("OPAQUE"), tuple("TRANSPARENT")],
    p20.TD: [(DUR,)], "chrono::offset::fixed::FixedOffset": [(OFFSET,)],
    "u8": [(INT,)], "u32": [(INT,)], "i8": [(INT,)],
}
CLEAN = {"ikal::properties::request_status::RequestStatus": 1}      # the places after which text is free
STEPS = {"%Y%m%d": "date", "%Y%m%dT%H%M%S": "datetime", "%Y%m%dT%H%M%SZ": "datetimez"}


def kind(name):
    if p20.is_parse(name) or name in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "digit1"):
        return "int"
    if name in ("float", "double", "parse<f32>", "parse<f64>"):
        return "float"
    if name in ("ikal::parse_duration", "ikal::parser::duration", "parse<%s>" % p20.TD):
        return "dur"
    return None


class Form(Shape):
    def __init__(self, text, toks):
        super().__init__(text, toks, lambda sh, s: sh.more(s), kind)

    def reads(self, name, r):
        # a number that ends before a character which cannot belong to it
        b = super().reads(name, r)
        if b is None and self.kind(name) is not None:
            t = self.at(r)
            if t is not None and not isinstance(t, str) and t.kinds and self.kind(name) not in t.kinds:
                return False
        return b

    def _rng(self, x):
        # what the reader of a moment leaves
        if x.op == "fld" and x.a[1] == 1 and x.a[0].op == "vfld" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0].endswith("::parse_and_remainder"):
            c = x.a[0].a[0]
            r = self.rng(c.a[1])
            t = None if r is None else self.at(r)
            if t is not None and not isinstance(t, str) and STEPS.get(c.a[2].a[0]) in t.kinds:
                return (r[0] + 1, r[1])
            return None
        return super()._rng(x)

    def whole(self, k, r):
        if r[0] == r[1]:
            return False
        ts = self.toks[r[0]:r[1]]
        if k == "datetimez":
            if len(ts) == 2 and ts[0] is TIME and ts[1] == "Z":
                return True
        elif len(ts) == 1 and not isinstance(ts[0], str) and k in ts[0].kinds:
            return True
        ok = frozenset(map(ord, ALPHABET[k]))
        if any(not (frozenset((ord(t),)) if isinstance(t, str) else t.first) & ok for t in ts):
            return False
        if len(ts) == 1 and not isinstance(ts[0], str) and ts[0].kinds or all(t in (DATE, TIME, "Z") for t in ts):
            return False        # a run of another kind, such as a date for a moment
        if k == "dur" and not self.first(r) & frozenset(map(ord, "+-P")):
            return False
        return None

    def small(self, t):
        """a number that is read is 5, say"""
        if t.op == "vfld" and t.a[0].op == "call" and self.kind(t.a[0].a[0]) == "int":
            r = self.rng(line_value(t.a[0].a[1]))
            return 5 if r is not None and self.whole("int", r) else None
        return None

    def more(self, s):
        if s.op in ("fits", "ovf"):
            return int(s.op == "fits")
        if s.op in ("bin", "vfld"):
            n = number(s, self.small)
            if n is not None:
                return n
        if s.op == "discr" and s.a[0].op == "call":
            c = s.a[0]
            if len(c.a) == 3 and c.a[0].startswith("chrono::") and c.a[0].split("::")[-1] in ("parse_from_str", "parse_and_remainder") and c.a[2].op == "str":
                r = self.rng(c.a[1])
                k = STEPS.get(c.a[2].a[0])
                if r is None or k is None:
                    return None
                if c.a[0].endswith("remainder"):
                    t = self.at(r)
                    if t is None or isinstance(t, str):
                        return 1 if t is None or ord(t) not in map(ord, ALPHABET[k]) else None
                    if k in t.kinds or k == "date" and t is TIME:
                        return 0
                    return None
                b = self.whole(k, r)
                return None if b is None else int(not b)
            if c.a[0] == "parse<chrono::offset::fixed::FixedOffset>":
                # chrono reads sign, hours and minutes and leaves the rest
                r = self.rng(line_value(c.a[1]))
                return None if r is None else int(self.at(r) is not OFFSET)
            if c.a[0].endswith("LocalResult::<T>::earliest") or c.a[0].endswith("LocalResult::<T>::single"):
                return 1
        return None


def opaque(f):
    return kind(f["path"]) == "dur"


def nomish(F, o):
    t = F.types[o["args"][0]]
    if t["k"] == "tuple" and len(t["f"]) == 2 and F.types[t["f"][0]]["s"] == "&str":
        return t["f"][1]
    return None


def readers(F):
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or len(f.get("ins") or ()) != 1 or f.get("out") is None:
            continue
        o = F.types[f["out"]]
        if o.get("path") != RESULT or not o.get("args"):
            continue
        t = F.types[f["ins"][0]]["s"].split("::")[-1]
        if t not in ("&str", "String", "ContentLine"):
            continue
        yield i, f, o, t


def run(ctx):
    F = ctx.F
    n = 0
    for i, f, o, t in readers(F):
        if nomish(F, o) is not None and t == "&str":
            consumed(ctx, i, f)
        if nomish(F, o) is not None or kind(f["path"]) == "dur":
            continue        # P20 examines every form of duration
        out = F.types[o["args"][0]]
        name = (f["name"] if f["path"].startswith("<") or "{impl" in f["path"] else f["path"]).replace("ikal::", "")
        forms = FORMS.get(out.get("path") or out["s"])
        whole = (out.get("path") or "").startswith("ikal::components::")
        if whole and f.get("trait") != "core::str::traits::FromStr" and (f.get("trait") or "").startswith("core::convert::TryFrom"):
            continue        # through FromStr (P18)
        try:
            r = ctx.run(i, opaque=lambda g, f=f: g is not f and (kind(g["path"]) == "dur" or not forms and (partial(F, g) if whole else valued(F, g))),
                        key=("p13", i))
        except core.Undecided as e:
            ctx.undec(name, e)
            continue
        if r.value is None:
            ctx.undec(name, "never returns")
            continue
        n += 1
        text = core.arg(F, 0, F.fns[i]["body"]["locals"][1])
        if t == "ContentLine":
            text = mk("fld", text, 2)
        if whole:
            left_over(ctx, name, r)
        elif r.loops:
            items(ctx, name, r)
            left_over(ctx, name, r)
        elif forms is not None:
            foreign(ctx, name, r.value, text, forms, CLEAN.get(out.get("path")))
    if n < 10:
        ctx.undec("readers", "only %d found" % n)


def partial(F, g):
    """does the function give a component and the rest of the text?"""
    if g["krate"] != "ikal" or g.get("out") is None:
        return False
    o = F.types[g["out"]]
    if o.get("path") != RESULT or not o.get("args"):
        return False
    k = nomish(F, o)
    return k is not None and (F.types[k].get("path") or "").startswith("ikal::components::")


def valued(F, g):
    """is it a reader of a content line?"""
    return g["krate"] == "ikal" and len(g.get("ins") or ()) == 1 and F.types[g["ins"][0]]["s"].endswith("::ContentLine")


def in_value(v, out):
    """the terms that a value is made of, conditions left out"""
    todo = [v]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == "phi":
            todo += [y for _, y in x.a[0]]
            continue
        stack = list(x.a)
        while stack:
            y = stack.pop()
            if hasattr(y, "op"):
                todo.append(y)
            elif isinstance(y, (tuple, list)):
                stack += y
    return out


def consumed(ctx, i, f):
    """every part of the text that a parser of parts passes over is a fixed text, or is in its value"""
    F = ctx.F
    name = f["path"].replace("ikal::", "")

    def part(g):
        if g is f or g["krate"] != "ikal" or g.get("out") is None or not g.get("ins") or F.types[g["ins"][0]]["s"] != "&str":
            return False
        o = F.types[g["out"]]
        return o.get("path") == RESULT and bool(o.get("args")) and nomish(F, o) is not None
    try:
        r = ctx.run(i, opaque=part, key=("p13n", i))
    except core.Undecided as e:
        ctx.undec(name, e)
        return
    if r.value is None:
        return
    steps = {}
    for rec in r.loops.values():
        steps.update(rec.get("nexts") or {})
    inits = {lv: x for rec in r.loops.values() for lv, x in (rec.get("init") or {}).items()}
    for g, x in alts(r.value):
        if path_of(F, x) != RESULT or x.a[1] != 0:
            continue
        y = x.a[2]
        if y.op != "tuple" or len(y.a) != 2:
            ctx.undec(name, "what is left is not known")
            continue
        made = in_value(y.a[1], set())
        done = set()
        while True:
            more = [n for lv in made - done if lv.op == "lv" and "'rest'" not in str(lv.a[1]) for n in (steps.get(lv), inits.get(lv)) if n is not None]
            done |= {lv for lv in made if lv.op == "lv"}
            if not more:
                break
            for n in more:
                in_value(n, made)
        todo, seen = [y.a[0]], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += [z for _, z in x.a[0]]
            elif x.op == "lv":
                todo += [z for z in (steps.get(x), inits.get(x)) if z is not None]
            elif x.op == "strip":
                todo.append(x.a[0])
            elif x.op in ("spanrest", "nomrest"):
                todo.append(x.a[0] if x.op == "spanrest" else x.a[-1])
                used = mk("span" if x.op == "spanrest" else "nomval", *x.a) in made
                what = "characters" if x.op == "spanrest" else x.a[0].replace("ikal::", "")
                blank = x.op == "spanrest" and x.a[1].op == "cset" and frozenset(x.a[1].a[0]) <= frozenset((9, 10, 13, 32))
                key = "%s: %s passed over" % (name, what)
                if not used and not blank and otherwise(x, made, r.value):
                    ctx.undec(key, "what becomes of it is not understood")
                else:
                    ctx.ob(key, used or blank, "are not in the value")


def otherwise(x, made, value):
    """may the part be used in a way that is not followed?"""
    text = x.a[0] if x.op == "spanrest" else x.a[-1]
    part = mk("span" if x.op == "spanrest" else "nomval", *x.a)
    for t in made:
        if t.op not in ("spanrest", "nomrest", "strip", "phi", "span", "nomval", "nomok") and text in t.a:
            return True
    for t in subterms(value):
        if t.op == "lit" and t.a[0] is not part and t.a[0].op != "nomok" and part in set(subterms(t.a[0])):
            return True
        if t.op == "lit" and t.a[0] is part and (t.a[2] if t.a[1] == "=" else tuple(t.a[2])) not in ("", ("",)):
            return True
    return False


def conjuncts(g):
    if g.op == "and":
        for x in g.a:
            yield from conjuncts(x)
    else:
        yield g


def accepted(v, F):
    """the conditions under which a result is a value"""
    for g, x in alts(v):
        if path_of(F, x) != RESULT:
            return None
        if x.a[1] == 0:
            yield g


def left_over(ctx, name, r):
    """what the parsers of parts leave unread is compared with the empty text"""
    F = ctx.F
    rests = {t for rec in r.loops.values() for t in rec.get("init") or () if t.op == "lv" and "nom" in str(t.a[1]) and "'rest'" in str(t.a[1])}
    for g in alts(r.value):
        for t in subterms(g[0]):
            if t.op == "lit" and t.a[0].op == "nomok" and t.a[0].a[0].startswith("ikal::"):
                rests.add(mk("nomrest", *t.a[0].a))
    for g, x in alts(r.value):
        if path_of(F, x) != RESULT:
            if rests:
                ctx.undec(name, show(x, 0, 3)[:120])
            return
        if x.a[1] != 0:
            continue
        for rest in rests:
            if any(rest is not q and rest in set(subterms(q)) for q in rests):
                continue        # read on
            st = E.assume(E.St(), g)
            if st is None:
                continue
            ok = False
            for q in (rest, mk("call", "trim_end", rest), mk("call", "trim", rest)):
                ok = ok or E.ev(st, E.cond(q, "")) is TRUE or E.ev(st, E.cond(mk("isempty", q), 1)) is TRUE
            asked = any(rest in set(subterms(t.a[0])) for t in subterms(g) if t.op == "lit")
            key = "%s: the rest of the text" % name
            if not ok and asked:
                conds = [c for c in conjuncts(g) if rest in set(subterms(c))]
                fm = Form(rest, ("~",))
                asked = not all(fm.scen.holds(c) for c in conds)
            if ok or not asked:
                ctx.ob(key, ok, "is ignored")
            else:
                ctx.undec(key, "what is asked about it is not understood")


def items(ctx, name, r):
    """the elements of lists and the texts taken from a map"""
    F = ctx.F
    every = sorted({f for fs in FORMS.values() for f in fs}, key=lambda f: (len(f), str(f)))
    lists = set()
    for rec in r.loops.values():
        if "back" not in rec:
            continue
        for h, e in (rec.get("elem") or {}).items():
            src = [x for x in subterms(e) if x.op == "split"]
            if not src:
                continue
            back = AND(rec["back"].lits())
            conds = [c for c in conjuncts(back) if h in set(subterms(c))]
            lists |= set(subterms(src[0]))
            key = next((x.a[1].a[0] for x in subterms(src[0]) if x.op == "mval" and x.a[1].op == "str"), "")
            told(ctx, "%s, elements of %s" % (name, key or "the list"), h, conds, every, {h.a[0]})
    gs = list(accepted(r.value, F) or ())
    if len(gs) != 1:
        return
    for m in {t for t in subterms(gs[0]) if t.op == "mval" and t.a[1].op == "str"}:
        conds = [c for c in conjuncts(gs[0]) if m in set(subterms(c))]
        if m in lists:
            continue
        roots = [x for x in (m, mk("deref", m), mk("deref", mk("deref", m)))]
        told(ctx, "%s, %s" % (name, m.a[1].a[0]), roots, conds, every, ())


def simplified(fm, f):
    if f.op in ("and", "or"):
        return (AND if f.op == "and" else OR)([simplified(fm, x) for x in f.a])
    if f.op == "lit":
        h = fm.scen.holds(f)
        if h is not None:
            return TRUE if h else FALSE
    return f


def told(ctx, name, text, conds, every, lists):
    roots = text if isinstance(text, list) else [text]
    keys = {x.a[1] for x in roots if x.op == "mval"}

    pure = [c for c in conds if all(any(q in roots or q.op == "mget" for q in subterms(t.a[0])) for t in subterms(c) if t.op == "lit")]

    def judge(toks, ref=None):
        fm = Form(roots, toks)
        more = fm.extra

        def extra(sh, s):
            if s.op == "isempty" and s.a[0] in lists:
                return 0
            if s.op == "discr" and s.a[0].op == "mget" and keys and s.a[0].a[1] in keys:
                return 1
            return more(sh, s)
        fm.extra = extra
        hs = [fm.scen.holds(c) for c in pure]
        if False in hs:
            return 0
        if not pure or None in hs:
            return None
        if ref is None:
            return 1
        # accepted by these conditions: is there a difference in the others?
        for c in conds:
            if c in pure:
                continue
            if fm.scen.holds(c) is False:
                return 0
            x = simplified(fm, c)
            if any(q in roots for q in subterms(x)):
                return None
        return 1
    good = [f for f in every if judge(f) == 1]
    if not good:
        ctx.undec(name, "no form is accepted")
    for f in good:
        for k in range(len(f) + 1):
            for c in FOREIGN:
                bad = f[:k] + (c,) + f[k:]
                if bad in good:
                    continue
                w = "".join(map(str, bad))
                a = judge(bad, f)
                if a is None:
                    ctx.undec("%s: reads %s" % (name, w), "unknown")
                else:
                    ctx.ob("%s: refuses %s" % (name, w), a == 0, "the %s in it is ignored" % c)


def verdict(F, v, text, toks):
    """1 accepted, 0 an error, None unknown"""
    x = Form(text, toks).scen.pick(v)
    if path_of(F, x) == RESULT:
        return 1 - x.a[1]
    return None


def foreign(ctx, name, v, text, forms, clean):
    F = ctx.F
    some = False
    for toks in forms:
        word = "".join(map(str, toks))
        a = verdict(F, v, text, toks)
        if a == 0:
            continue
        if a is None:
            ctx.undec("%s reads %s" % (name, word), "unknown")
            continue
        some = True
        for k in range(len(toks) + 1 if clean is None else clean + 1):
            for c in FOREIGN + (BREAKS if clean is None else ""):
                bad = toks[:k] + (c,) + toks[k:]
                if bad in forms:
                    continue
                w = "".join(map(str, bad))
                a = verdict(F, v, text, bad)
                if a is None:
                    ctx.undec("%s reads %s" % (name, w), "unknown")
                else:
                    ctx.ob("%s refuses %s" % (name, w), a == 0, "the %s in it is ignored" % c)
    if not some:
        ctx.undec(name, "no form is accepted")
