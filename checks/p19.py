"""The textual form of dates.

Readers: every function that turns a text or a content line into a date value is evaluated on the three RFC 5545 forms
of a text (YYYYMMDD, YYYYMMDDTHHMMSS, YYYYMMDDTHHMMSSZ) and on any other text. Whether chrono accepts a format on a form
follows from the items of the format; the result must be a date, a floating date-time, a local date-time of that UTC
instant, and an error. Readers of lines may delegate to the readers of texts.
Writers: the text written for each representation of a date consists of exactly the items of its form, taken from it."""
import engine as E
from checks.util import *
from checks import p25, p33
import core

RULE = "every reader and writer of dates uses the basic formats of RFC 5545: the form decides the kind of value and back"
FLOOR = 60
TECHNIQUE = "symbolic evaluation of every date reader under each textual form, with format items matched statically; symbolic evaluation of the writers"
FORMS = {"YYYYMMDD": ("Y", "m", "d"), "YYYYMMDDTHHMMSS": ("Y", "m", "d", "T", "H", "M", "S"),
         "YYYYMMDDTHHMMSSZ": ("Y", "m", "d", "T", "H", "M", "S", "Z"), "another text": None}
D, N, Z, X = FORMS
TIMED = (N, Z)


def items(fmt):
    """items of a chrono format; None if unknown"""
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == "%":
            if i + 1 >= len(fmt) or not fmt[i + 1].isalpha():
                return None
            out.append(fmt[i + 1] if fmt[i + 1] in "YmdHMS" else "%" + fmt[i + 1])
            i += 2
        else:
            out.append(fmt[i] if fmt[i] not in "YmdHMS" else "'" + fmt[i])
            i += 1
    return tuple(out)


SHORT = {"%F": ("Y", "-", "m", "-", "d"), "%T": ("H", ":", "M", ":", "S"), "%D": ("m", "/", "d", "/", "y"), "%R": ("H", ":", "M")}


def foreign(t):
    """the text a chrono parser accepts, if it is no form of RFC 5545; None if it is one, or unknown"""
    x, n = stripped(t.a[1])
    if x.op == "phi" or t.a[2].op != "str":
        return None
    it = items(t.a[2].a[0])
    if it is None:
        return None
    it = tuple(y for x in it for y in SHORT.get(x, (x,))) + ("Z",) * n
    if it in FORMS.values() or any(len(y) > 1 for y in it):
        return None
    has_time, has_date = "H" in it, "Y" in it
    if not has_date or ("NaiveDateTime" in t.a[0]) != has_time:
        return None
    return "".join({"Y": "YYYY", "m": "MM", "d": "DD", "H": "HH", "M": "MM", "S": "SS"}.get(y, y) for y in it)


def stripped(t):
    """(text, number of Z removed from its end)"""
    n = 0
    while t.op == "call" and t.a[0] in ("strip_suffix", "trim_end_matches", "trim_suffix") and len(t.a) == 3 and zed(t.a[2]):
        t, n = t.a[1], n + 1
    return t, n


def zed(p):
    """a pattern that the Z of a time matches, but none of its digits"""
    return p is S("Z") or p.op == "cset" and 90 in p.a[0] and not set(p.a[0]) & set(range(48, 58))


def is_parse(t):
    return t.op == "call" and t.a[0].startswith("chrono::") and t.a[0].split("::")[-1] in ("parse_from_str", "parse_and_remainder") and len(t.a) == 3


def accepts(t, form):
    """does the chrono parser accept a text of this form: True, False, None"""
    x, n = stripped(t.a[1])
    if isinstance(form, int):
        # a time followed by this character
        if x.op == "phi" or t.a[2].op != "str" or items(t.a[2].a[0]) is None:
            return None
        return n == 1 and items(t.a[2].a[0]) == FORMS[N] and "NaiveDateTime" in t.a[0]
    if form == X:
        return False if t.a[2].op == "str" and items(t.a[2].a[0]) in FORMS.values() else None
    if x.op == "phi" or t.a[2].op != "str":
        return None
    f = FORMS[form]
    for _ in range(n):
        if f[-1] != "Z":
            return None
        f = f[:-1]
    it = items(t.a[2].a[0])
    if it is None:
        return None
    if it != f:
        return False
    if "NaiveDateTime" in t.a[0]:
        return "H" in it
    return "NaiveDate" in t.a[0]


class Leaf:
    """readers of a text that others may call"""

    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.F
        self.paths = {}
        for i, ty, src in readers(ctx.F):
            if src == "&str":
                self.paths[ctx.F.fns[i]["path"]] = (i, ctx.F.types[ty].get("path"))

    def accepts(self, path, form):
        if form == X or isinstance(form, int):
            return False
        ty = self.paths[path][1]
        return form in TIMED if ty in (p25.DATETIME, p25.NDT) else True if ty == p25.DATE else form == D

    def opaque(self, i):
        me = self.F.fns[i]["path"]
        return lambda f: f["path"] in self.paths and f["path"] != me


def readers(F):
    """(function, date type of the payload, '&str' or 'line')"""
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or len(f.get("ins") or ()) != 1 or f.get("out") is None:
            continue
        s = F.types[f["ins"][0]]
        src = "&str" if s["s"] == "&str" else "line" if s.get("path") == R_LINE else None
        o = F.types[f["out"]]
        if src is None or o.get("path") != RESULT:
            continue
        t = F.types[o["args"][0]]
        if t["k"] == "tuple" and len(t["f"]) == 2 and F.types[t["f"][0]]["s"] == "&str":
            t = F.types[t["f"][1]]
        if t.get("path") in (p25.DATE, p25.DATETIME, p25.NDATE, p25.NDT):
            yield i, F.types.index(t), src


R_LINE = "ikal::content_line::ContentLine"


def facts(leaf, v, form, st=None):
    """the state in which every text met has this form; None if undecidable"""
    st = E.St() if st is None else st.copy()
    for _ in range(6):
        n = len(st.facts) if hasattr(st, "facts") else 0
        changed = False
        for t in list(subterms(v)):
            if t.op != "lit":
                continue
            s = t.a[0]
            want = None
            if s.op == "call" and s.a[0] in ("ends_with", "is_suffix") and len(s.a) == 3 and zed(s.a[2]) and stripped(s.a[1])[1] == 0:
                if isinstance(form, int):
                    want = int(s.a[2].op == "cset" and form in s.a[2].a[0])
                elif form != X:
                    want = int(form == Z)
            elif s.op == "discr" and is_parse(s.a[0]):
                x = E.restrict(st, s.a[0])
                a = accepts(x, form) if is_parse(x) else None
                if a is not None:
                    want = 0 if a else 1
            elif s.op == "nomok" and s.a[0] in leaf.paths:
                want = int(leaf.accepts(s.a[0], form))
            elif s.op == "discr" and s.a[0].op == "call" and s.a[0].a[0] in leaf.paths:
                want = 0 if leaf.accepts(s.a[0].a[0], form) else 1
            if want is None or E.ev(st, E.cond(s, want)) is TRUE:
                continue
            st2 = E.assume(st, E.cond(s, want))
            if st2 is None:
                raise core.Undecided("contradictory readings of a text of the form " + form)
            st, changed = st2, True
        if not changed:
            break
    return st


def good(leaf, F, x, form, want):
    """is x the value of a text of this form: (True/False/None, why)"""
    if x.op == "nomval" or (x.op == "vfld" and x.a[0].op == "call" and x.a[0].a[0] in leaf.paths):
        p = x.a[0] if x.op == "nomval" else x.a[0].a[0]
        if p in leaf.paths:
            q = leaf.paths[p][1]
            return (True, "") if q == want else (None, "delegates to " + p)
    cs, z = p25.unwrap(F, x)
    inner = p25.unwrap(F, z)[1]
    if z.op == "nomval" and z.a[0] in leaf.paths or z.op == "vfld" and z.a[0].op == "call" and z.a[0].a[0] in leaf.paths:
        q = leaf.paths[z.a[0] if z.op == "nomval" else z.a[0].a[0]][1]
        if q == p25.NDATE:
            return (cs in ([], ["Date"]), "a date becomes " + "::".join(cs))
        if q == p25.DATETIME:
            return (cs in ([], ["DateTime"]), "a date-time becomes " + "::".join(cs))
        return (cs == [], "becomes " + "::".join(cs))
    zone = None
    if p33.last(z) == "with_timezone" and z.a[1].op == "call" and p33.last(z.a[1]) == "and_utc":
        zone, z = "utc", z.a[1].a[1]
    elif z.op == "vfld" and z.a[0].op == "call" and p33.last(z.a[0]) in ("earliest", "single", "latest"):
        w = z.a[0].a[1]
        if p33.last(w) in ("and_local_timezone",):
            zone, z = "local", w.a[1]
    elif p33.last(z) == "from_utc_datetime":
        zone, z = "utc", z.a[-1]
    if want in (p25.DATE, p25.DATETIME) and cs and x.op == "adt":
        kind = {"Date": D, "Naive": N, "Local": Z}.get(cs[-1])
        if kind is not None and kind != form:
            return False, "is read as %s" % "::".join(cs)
    if not any(is_parse(t) for t in subterms(z)) and not any(t.op in ("nomval", "sym") for t in subterms(z)):
        return False, "is read as a constant"
    if not (z.op == "vfld" and z.a[1] == 0 and is_parse(z.a[0])):
        return None, show(z, 0, 4)[:150]
    if accepts(z.a[0], form) is not True:
        return None, show(z, 0, 4)[:150]
    if form == D:
        return cs in ([], ["Date"]) and zone is None, "is read as %s" % "::".join(cs)
    if form == N:
        if want == p25.NDT:
            return cs == [], "is read as %s" % "::".join(cs)
        return cs[-1:] == ["Naive"] and zone is None, "is read as %s" % ("::".join(cs) or zone)
    if cs[-1:] == ["Local"]:
        if zone == "utc":
            return True, ""
        return False, "is read as that time in the local zone, not in UTC" if zone == "local" else "is read as " + show(z, 0, 2)[:80]
    return False, "is read as %s" % "::".join(cs)


def forms_of(path):
    return (D,) if path == p25.NDATE else TIMED if path == p25.DATETIME else (N,) if path == p25.NDT else (D, N, Z)


def payload(F, x):
    """the value of a parser's (rest, value)"""
    return x.a[1] if x.op == "tuple" and len(x.a) == 2 else x


def reading(ctx):
    F = ctx.F
    leaf = Leaf(ctx)
    n = 0
    for i, ty, src in readers(F):
        f = F.fns[i]
        want = F.types[ty].get("path")
        name = short(f["path"])
        n += 1
        try:
            # texts are read by the body itself, lines may delegate
            r = ctx.run(i, opaque=leaf.opaque(i) if src == "line" else None or (lambda g: False), key=("p19", i))
        except core.Undecided as e:
            ctx.undec(name, e)
            continue
        if r.value is None:
            ctx.ob(name, False, "never returns")
            continue
        try:
            others(ctx, leaf, name, r.value)
        except core.Undecided as e:
            ctx.undec(name + " other formats", e)
        for form in FORMS:
            key = "%s reads %s" % (name, form)
            if form in FORMS and form != X and form not in forms_of(want):
                continue
            try:
                one(ctx, leaf, key, r.value, form, want)
            except core.Undecided as e:
                ctx.undec(key, e)
    lists(ctx, leaf)
    if n < 6:
        ctx.undec("readers", "only %d readers of dates found" % n)


def others(ctx, leaf, key, v):
    """a text in another format must not be accepted"""
    st = facts(leaf, v, X)
    for t in {t for t in subterms(v) if t.op == "discr" and is_parse(t.a[0])}:
        x = E.restrict(st, t.a[0])
        w = foreign(x) if is_parse(x) else None
        if w is None:
            continue
        s = E.assume(st, E.cond(E.discr_of(x), 0))
        if s is not None and any(path_of(ctx.F, y) == RESULT and y.a[1] == 0 for g, y in live(s, v)):
            ctx.ob(key + " refuses " + w, False, "is accepted")
    for c in {c for t in subterms(v) if t.op == "cset" and zed(t) for c in t.a[0] if c != 90}:
        if any(path_of(ctx.F, y) == RESULT and y.a[1] == 0 for g, y in live(facts(leaf, v, c), v)):
            ctx.ob("%s refuses YYYYMMDDTHHMMSS%s" % (key, chr(c)), False, "is accepted")


def one(ctx, leaf, key, v, form, want):
    F = ctx.F
    st = facts(leaf, v, form)
    got = False
    for g, x in live(st, v):
        s = E.assume(st, g) or st
        p = path_of(F, x)
        if p != RESULT:
            ctx.undec(key, show(x, 0, 2)[:100])
            return
        if x.a[1] == 1:
            if form == X:
                got = True
                continue
            lits = [l for l in literals(g)]
            if any(l.a[0].op == "discr" and l.a[0].a[0].op == "call" and p33.last(l.a[0].a[0]) in ("earliest", "single", "latest") for l in lits):
                continue        # reported as a local reading
            ctx.ob(key, False, "is an error%s" % ("" if g is TRUE else " when " + show(g, 0, 3)[:150]))
            return
        if form == X:
            if any(is_parse(t.a[0]) and foreign(E.restrict(st, t.a[0])) for t in subterms(v) if t.op == "discr" and is_parse(t.a[0])):
                continue            # reported on its own
            if any(is_parse(t.a[0]) and accepts(E.restrict(st, t.a[0]), form) is None for t in subterms(v) if t.op == "discr" and is_parse(t.a[0])):
                ctx.undec(key, "unknown format")
                return
            # a value that no chrono parser accepted
            ctx.ob(key, False, "is accepted as " + show(x.a[2], 0, 3)[:120])
            return
        for h, y in live(s, payload(F, x.a[2]) if x.a[2].op == "tuple" else x.a[2]):
            y = payload(F, y)
            for h2, w in alts(y):
                if feasible(E.assume(s, h) or s, h2) is False:
                    continue
                for h3, w in flat(F, w):
                    if feasible(E.assume(s, AND([h, h2])) or s, h3) is False:
                        continue
                    ok, why = good(leaf, F, E.restrict(E.assume(s, AND([h, h2, h3])) or s, w), form, want)
                    if ok is None:
                        ctx.undec(key, why)
                        return
                    got = True
                    if not ok:
                        ctx.ob(key + (" " + why.split(",")[0] if "local zone" in why else ""), False, why)
                        return
    ctx.ob(key, got, "has no result")


def flat(F, x, g=TRUE):
    """alternatives inside the constructors of a date value"""
    if x.op == "phi":
        for h, y in x.a[0]:
            yield from flat(F, y, AND([g, h]))
    elif path_of(F, x) in (p25.DATE, p25.DATETIME):
        for h, y in flat(F, x.a[2], g):
            yield h, mk("adt", x.a[0], x.a[1], y)
    else:
        yield g, x


def short(p):
    return p.replace("ikal::parser::", "").replace("ikal::properties::", "").replace("core::str::traits::", "")


def lists(ctx, leaf):
    """readers of lists of dates: every element is read by a reader of dates, or as one"""
    F = ctx.F
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or len(f.get("ins") or ()) != 1 or f.get("out") is None:
            continue
        if F.types[f["ins"][0]].get("path") != R_LINE:
            continue
        o = F.types[f["out"]]
        if o.get("path") != RESULT:
            continue
        t = F.types[o["args"][0]]
        if not (t.get("path", "").endswith("::Vec") and F.types[t["args"][0]].get("path") == p25.DATE) and not (
                t.get("path", "").endswith("::RDate")):
            continue
        name = short(f["path"])
        opq = leaf.opaque(i)
        try:
            r = ctx.run(i, opaque=lambda g: opq(g) or g["path"].endswith("datatype::period"), key=("p19l", i))
        except core.Undecided as e:
            ctx.undec(name, e)
            continue
        found = 0
        for l, rec in r.loops.items():
            for lv, nx in rec["nexts"].items():
                for t in subterms(nx):
                    if t.op != "one":
                        continue
                    x = t.a[0]
                    if x.op == "vfld" and x.a[0].op == "call" and x.a[0].a[0].endswith("period"):
                        continue
                    found += 1
                    for form in (D, N, Z):
                        key = "%s reads %s" % (name, form)
                        st = facts(leaf, x, form)
                        for g, y in flat(F, E.restrict(st, x)):
                            if feasible(st, g) is False:
                                continue
                            ok, why = good(leaf, F, y, form, p25.DATE)
                            if ok is None:
                                ctx.undec(key, why)
                            else:
                                ctx.ob(key, ok, why)
        if not found:
            ctx.undec(name, "no element found")


def written(F, t, c, plain, local):
    """items of a written text, or None"""
    out = []
    for x in (t.a if t.op == "cat" else (t,)):
        if x.op == "str":
            out += list(x.a[0])
        elif x.op == "disp" and x.a[1].op == "call" and p33.last(x.a[1]) == "format" and len(x.a[1].a) == 3 and x.a[1].a[2].op == "str":
            it = items(x.a[1].a[2].a[0])
            if it is None or x.a[2] is not DEFAULT_SPEC():
                return None
            src = x.a[1].a[1]
            k = "utc" if p33.last(src) in ("naive_utc", "to_utc") and src.a[1] is c else p33.meaning(src, c, plain, local)
            out += [(k, y) if y in "YmdHMS" else y for y in it]
        else:
            return None
    return out


def DEFAULT_SPEC():
    return mk("spec", 0, -1, -1)


def one_text(ctx, key, text, c, plain, local):
    F = ctx.F
    its = None if text is None else written(F, text, c, plain, local)
    if its is None:
        ctx.undec(key, show(text, 0, 4)[:150] if text is not None else "nothing")
        return
    shape = tuple(x[1] if isinstance(x, tuple) else x for x in its)
    want = FORMS[D if plain else Z if local else N]
    if shape != want:
        ctx.ob(key, False, "written as %s" % "".join(shape))
        return
    ks = {x[0] for x in its if isinstance(x, tuple)}
    if not local:
        ctx.ob(key, ks <= {"self", "wall", "day"} and None not in ks, "the text is not that of the value")
    elif ks == {"utc"}:
        ctx.ob(key, True)
    else:
        ctx.ob(key + (" local time" if ks <= {"self", "wall"} else ""), False, "Z follows a time that is not in UTC")


def writing(ctx):
    F = ctx.F
    for path in (p25.DATE, p25.DATETIME):
        ty = adt_type(F, path)
        if ty is None:
            raise core.Missing(path)
        short_ = path.rsplit("::", 1)[1]
        for kname, val, c, plain in p25.kinds(F, ty, E.typed(mk("sym", ("date", 0, F.types[ty]["s"])), ty)):
            local = kname.endswith("Local")
            for what, text in texts(ctx, F, ty, val):
                key = "%s of %s %s" % (what, short_, kname)
                if isinstance(text, str):
                    ctx.undec(key, text)
                    continue
                for g, x in alts(text) if text is not None else [(TRUE, None)]:
                    if g is TRUE or feasible(E.St(), g) is not False and uses(g, c):
                        one_text(ctx, key, x, c, plain, local)
                    else:
                        ctx.undec(key, show(text, 0, 4)[:150])
            a = attribute(ctx, F, ty, val)
            if a is None:
                ctx.undec("VALUE of %s %s" % (short_, kname), "unknown")
            elif path == p25.DATE:
                ctx.ob("VALUE of %s %s" % (short_, kname), a == ("VALUE=DATE" if plain else ""), "the parameter is " + repr(a))
            else:
                ctx.ob("VALUE of %s %s" % (short_, kname), a in ("", "VALUE=DATE-TIME"), "the parameter is " + repr(a))


def method(F, trait, name, ty):
    fn = F.fn_for(trait + "::" + name, ty)
    return fn if fn is not None and F.body(fn) else None


def texts(ctx, F, ty, val):
    fn = method(F, "ikal::ser::Serialize", "ical", ty)
    st = E.St()
    st.mem[("tmp", "in", 0)] = val
    ref = mk("ref", ("tmp", "in", 0), ())
    if fn is not None:
        try:
            v = ctx.run(fn, [ref], st=st, key=("p19w", val)).value
            for g, k, p in results(F, v):
                yield "ical", p if k == "ok" else "the result is " + k
        except core.Undecided as e:
            yield "ical", str(e)
    fn = F.fn_for("core::fmt::Display::fmt", ty)
    if fn is not None and F.body(fn):
        try:
            st2 = E.St()
            st2.mem[("tmp", "in", 0)] = val
            fm = core.arg(F, 1, F.fns[fn]["body"]["locals"][2])
            r = ctx.run(fn, [ref, fm], st=st2, key=("p19f", val))
            yield "Display", fmt_cell(r) or "not understood"
        except core.Undecided as e:
            yield "Display", str(e)


def attribute(ctx, F, ty, val):
    fn = method(F, "ikal::ser::Serialize", "attr", ty)
    if fn is None:
        return ""
    st = E.St()
    st.mem[("tmp", "in", 0)] = val
    try:
        v = ctx.run(fn, [mk("ref", ("tmp", "in", 0), ())], st=st, key=("p19a", val)).value
    except core.Undecided:
        return None
    if path_of(F, v) == OPTION:
        if v.a[1] == 0:
            return ""
        return v.a[2].a[0] if v.a[2].op == "str" else None
    return None


def run(ctx):
    reading(ctx)
    writing(ctx)
