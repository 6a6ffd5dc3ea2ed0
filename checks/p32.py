"""Composite values: part for part in the order of RFC 5545.

Readers: every function that turns a text or a content line into a composite value is evaluated symbolically and its
result examined under each shape of the text (the parts are runs of unknown characters between the separators): each
field of the value must come from the part at its place. Writers: what is written for a value must be its fields at
their places, separated as RFC 5545 says."""
import engine as E
from checks.scen import Shape, number, Tok, ALL, chars_of, line_value
from checks.util import *
from checks import p25
import core

RULE = "GEO is latitude;longitude, REQUEST-STATUS code;description;data, PERIOD start/end or start/duration, a weekday number its ordinal and day"
FLOOR = 80
TECHNIQUE = "symbolic evaluation of every reader and writer of composite values under each shape of text"
GEO, RST, PERIOD, WDN = ("ikal::properties::geo::Geo", "ikal::properties::request_status::RequestStatus", "ikal::properties::period::Period",
                         "ikal::properties::recur::WeekdayNum")
LINE = "ikal::content_line::ContentLine"
TD = "chrono::time_delta::TimeDelta"
DIG = frozenset(range(48, 58))
NOSEMI = ALL - {59}


def F_(n):
    return Tok(n, DIG | frozenset(map(ord, "+-.eE")), frozenset(map(ord, "+-")) | DIG, ("float",))


LAT, LON, CODE = F_("latitude"), F_("longitude"), Tok("code", DIG | {46}, DIG, ("float",))
DESC, DATA = Tok("description", NOSEMI), Tok("data", NOSEMI)
START = Tok("start", DIG | frozenset(map(ord, "TZ")), DIG, ("date",))
END = Tok("end", DIG | frozenset(map(ord, "TZ")), DIG, ("date",))
DUR = Tok("duration", DIG | frozenset(map(ord, "PTWDHMS")), (ord("P"),), ("dur",))
PLUS = Tok("+duration", DUR.chars | {43}, (43,), ("dur",))
ORD = Tok("ordinal", DIG | frozenset(map(ord, "+-")), DIG | frozenset(map(ord, "+-")), ("int",))
# shapes: (tokens, variant or None, {field: token or literal})
DAYS = ("SU", "MO", "TU", "WE", "TH", "FR", "SA")
SHAPES = {
    GEO: [([LAT, ";", LON], None, {"lat": LAT, "lon": LON})],
    RST: [([CODE, ";", DESC], None, {"statcode": CODE, "statdesc": DESC, "extdata": None}),
          ([CODE, ";", DESC, ";", DATA], None, {"statcode": CODE, "statdesc": DESC, "extdata": DATA}),
          ([CODE, ";", ";", DATA], None, {"statcode": CODE, "statdesc": "", "extdata": DATA})],
    PERIOD: [([START, "/", END], "StartEnd", {"start": START, "end": END}),
             ([START, "/", DUR], "StartDur", {"start": START, "duration": DUR}),
             ([START, "/", PLUS], "StartDur", {"start": START, "duration": PLUS})],
    WDN: [(([o] if o else []) + list(d), None, {"weekday": k, "ord": o}) for k, d in enumerate(DAYS) for o in (None, ORD)],
}
NAMES = {GEO: "GEO", RST: "REQUEST-STATUS", PERIOD: "period", WDN: "weekday number"}


def kind(name):
    n = name.split("::")[-1]
    if name in ("float", "double") or n in ("parse<f32>", "parse<f64>"):
        return "float"
    if name in ("i8", "i16", "i32", "i64") or n.startswith("parse<i"):
        return "int"
    return None


class Readers:
    def __init__(self, F):
        self.F = F
        self.dates, self.durs, self.all = set(), set(), []
        for i, f in enumerate(F.fns):
            if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or len(f.get("ins") or ()) != 1 or f.get("out") is None:
                continue
            s = F.types[f["ins"][0]]
            if s["s"] != "&str" and s.get("path") not in (LINE, STRING_P):
                continue
            o = F.types[f["out"]]
            if o.get("path") != RESULT:
                continue
            t = F.types[o["args"][0]]
            if t["k"] == "tuple" and len(t["f"]) == 2 and F.types[t["f"][0]]["s"] == "&str":
                t = F.types[t["f"][1]]
            if t.get("path") in (p25.DATE, p25.DATETIME, p25.NDT):
                self.dates.add(f["path"])
            elif t.get("path") == TD:
                self.durs.add(f["path"])
            elif t.get("path") in SHAPES:
                self.all.append((i, f, t["path"], s))

    def kind(self, name):
        return "date" if name in self.dates else "dur" if name in self.durs else kind(name)


STRING_P = "alloc::string::String"


def run(ctx):
    F = ctx.F
    R = Readers(F)
    for i, f, path, s in R.all:
        name = f["path"].replace("ikal::parser::", "").replace("ikal::properties::", "")
        try:
            r = ctx.run(i, opaque=lambda g: g["path"] in R.dates or g["path"] in R.durs, key=("p32", i))
        except core.Undecided as e:
            ctx.undec(name, e)
            continue
        if r.value is None:
            ctx.ob(name, False, "never returns")
            continue
        arg = core.arg(F, 0, F.fns[i]["body"]["locals"][1])
        roots = [arg]
        if s.get("path") == LINE:
            roots = [t for t in subterms(r.value) if t.op == "fld" and t.a[0] is arg and t.a[1] == field_index(F, adt_type(F, LINE), "value")] or [arg]
        for toks, var, fields in SHAPES[path]:
            text = "".join(t if isinstance(t, str) else "<%s>" % t.name for t in toks)
            sh = Shape(roots, toks, kind=R.kind)
            if path == WDN and sampled(ctx, "%s reads %s" % (name, text), roots, toks, R, r.value, fields):
                continue
            reading(ctx, "%s reads %s" % (name, text), sh, r.value, path, var, fields)
    if len(R.all) < 8:
        ctx.undec("readers", "only %d readers found" % len(R.all))
    for path in SHAPES:
        writing(ctx, path)


def reading(ctx, key, sh, v, path, var, fields):
    F = ctx.F
    v = sh.scen.pick(v)
    if path_of(F, v) != RESULT:
        ctx.undec(key, show(v, 0, 3)[:150])
        return
    if v.a[1] == 1:
        ctx.ob(key, False, "is an error")
        return
    x = sh.scen.pick(v.a[2])
    if x.op == "tuple" and len(x.a) == 2:
        rest = sh.rng(x.a[0])
        if rest is not None and rest[0] < rest[1]:
            ctx.ob(key, False, "is read only in part")
            return
        x = sh.scen.pick(x.a[1])
    if var is not None:
        if path_of(F, x) != path:
            ctx.undec(key, show(x, 0, 3)[:150])
            return
        if variant(F, x) not in (var, (var,)) and var not in (variant(F, x) or ()):
            ctx.ob(key, False, "is read as " + str(variant(F, x)))
            return
        x = sh.scen.pick(x.a[2])
    if x.op != "adt":
        ctx.undec(key, show(x, 0, 3)[:150])
        return
    names = field_names(F, F_type(F, x))
    for n, want in fields.items():
        if n not in names:
            ctx.undec(key, "no field " + n)
            continue
        got = sh.scen.pick(x.a[2 + names.index(n)])
        ok, why = same(F, sh, got, want)
        if ok is None:
            ctx.undec("%s: %s" % (key, n), why)
        else:
            ctx.ob("%s: %s" % (key, n), ok, why)


ORDINALS = (1, 53, -1, -53)


def sampled(ctx, key, roots, toks, R, v, fields):
    """for ordinals of RFC 5545: is the value read definitely another"""
    F = ctx.F
    for n in ORDINALS:
        def leaf(y):
            if y.op == "nomval" and kind(y.a[0]) == "int" or y.op == "vfld" and y.a[1] == 0 and y.a[0].op == "call" and kind(y.a[0].a[0]) == "int":
                return n
            if y.op == "call" and y.a[0].rsplit("::", 1)[-1] in ("abs", "unsigned_abs") and len(y.a) == 2:
                k = number(y.a[1], leaf)
                return None if k is None else abs(k)
            return None

        def extra(sh, s):
            return number(s, leaf) if s.op in ("bin", "nomval", "vfld", "call") else None
        sh = Shape(roots, toks, extra, kind=R.kind)
        x = sh.scen.pick(v)
        if path_of(F, x) != RESULT:
            continue
        if x.a[1] == 1:
            ctx.ob(key, False, "is an error when the ordinal is %d" % n)
            return True
        x = sh.scen.pick(x.a[2])
        if x.op == "tuple" and len(x.a) == 2:
            x = sh.scen.pick(x.a[1])
        if path_of(F, x) != WDN:
            continue
        o = sh.scen.pick(x.a[2 + field_names(F, F_type(F, x)).index("ord")])
        if path_of(F, o) == OPTION and (o.a[1] == 1) != (fields["ord"] is not None):
            ctx.ob(key + ": ord", False, "is missing when it is %d" % n if o.a[1] == 0 else "is not empty")
            return True
    return False


def first_in(sh, r, cs):
    return bool(sh.first(r) & frozenset(cs.a[0]))


def F_type(F, x):
    for i, t in enumerate(F.types):
        if t.get("path") == path_of(F, x) and t["k"] == "adt":
            return i
    raise core.Missing("type")


def same(F, sh, got, want):
    """is the field the part of the text it should be"""
    if isinstance(want, int):
        if path_of(F, got) == "ikal::properties::recur::Weekday":
            return got.a[1] == want, "is %s" % (variant(F, got),)
        return None, show(got, 0, 3)[:150]
    if want == "":
        while got.op == "call" and got.a[0] in ("to_string", "into") and len(got.a) == 2:
            got = got.a[1]
        r = sh.rng(got)
        if got is S("") or r is not None:
            return got is S("") or r[0] == r[1], "is not empty"
        return None, show(got, 0, 3)[:150]
    if path_of(F, got) == OPTION:
        if got.a[1] == 0:
            return want is None, "is missing"
        if want is None:
            return False, "is not empty"
        got = sh.scen.pick(got.a[2])
    elif want is None:
        return None, show(got, 0, 3)[:150]
    g = got
    for _ in range(4):
        if g.op == "nomval" or g.op == "vfld" and g.a[0].op == "call" and g.a[1] == 0:
            src = g.a[-1] if g.op == "nomval" else g.a[0].a[-1]
            if not hasattr(src, "op"):
                break
            name = g.a[0] if g.op == "nomval" else g.a[0].a[0]
            k = sh.kind(name)
            r = sh.rng(line_value(src))
            if k is not None and r is not None:
                if g.op == "nomval" and r[0] < r[1] and k in ("float", "int"):
                    r = (r[0], r[0] + 1)
                return sh.toks[r[0]:r[1]] == [want] and k in want.kinds, "is " + ("".join(map(str, sh.toks[r[0]:r[1]])) or "empty")
            break
        if g.op == "call" and g.a[0] in ("to_string", "into") and len(g.a) == 2:
            g = g.a[1]
            continue
        break
    r = sh.rng(g)
    if r is not None:
        return sh.toks[r[0]:r[1]] == [want] and not want.kinds, "is " + ("".join(map(str, sh.toks[r[0]:r[1]])) or "empty")
    if g.op in ("int", "str", "float"):
        return False, "is constant"
    if g.op == "call" and g.a[0] in ("trim", "trim_start", "trim_end", "to_ascii_uppercase", "to_ascii_lowercase") or g.op in ("upper", "lower", "replace"):
        return False, "is changed by " + str(g.a[0] if g.op == "call" else g.op)
    if g.op == "call" and len(g.a) > 1 and g.a[0].split("::")[0] in ("core", "std") and any(
            y.op == "nomval" or sh.rng(y) is not None for a in g.a[1:] if hasattr(a, "op") for y in subterms(a)):
        # a reader turns the text into a value; anything else takes a value
        if sh.rng(g.a[1]) is None or g.a[1].op == "nomval":
            return False, "is changed by " + g.a[0].split("::")[-1]
    if g.op == "span":
        r = sh.rng(g.a[0])
        if r is not None and r[1] - r[0] == 1 and g.a[1].op == "cset" and not chars_of(sh.toks[r[0]]) <= frozenset(g.a[1].a[0]) and first_in(sh, r, g.a[1]):
            return False, "is cut at one of %s" % sorted(map(chr, chars_of(sh.toks[r[0]]) - frozenset(g.a[1].a[0])))[:5]
    if g.op == "call" and g.a[0] in ("max", "min", "clamp"):
        return False, "is changed by " + g.a[0]
    if g.op == "phi":
        # chosen by the value of a number: each choice is possible
        for c, y in alts(g):
            ls = list(literals(c))
            if len(ls) == 1 and ls[0].a[0].op == "fcmp":
                ok, why = same(F, sh, sh.scen.pick(y), want)
                if ok is False:
                    return False, why + " for some numbers"
    if g.op == "un" or g.op == "bin" or g.op == "cast" and g.a[0] != "IntToInt":
        return False, "is changed: " + show(g, 0, 2)[:80]
    return None, show(got, 0, 3)[:150]


# what is written: (fields present, [field or literal])
WRITTEN = {
    GEO: [({}, ["lat", ";", "lon"])],
    RST: [({"extdata": 0}, ["statcode", ";", "statdesc"]), ({"extdata": 1}, ["statcode", ";", "statdesc", ";", "extdata"])],
    PERIOD: [({"": "StartEnd"}, ["start", "/", "end"]), ({"": "StartDur"}, ["start", "/", "duration"])],
    WDN: [({"ord": o, "weekday": k}, (["ord"] if o else []) + [d]) for k, d in enumerate(DAYS) for o in (0, 1)],
}


def writing(ctx, path):
    F = ctx.F
    ty = adt_type(F, path)
    if ty is None:
        raise core.Missing(path)
    val = E.typed(mk("sym", ("p32", 0, F.types[ty]["s"])), ty)
    st = E.St()
    st.mem[("tmp", "in", 0)] = val
    ref = mk("ref", ("tmp", "in", 0), ())
    fn = F.fn_for("ikal::ser::Serialize::ical", ty)
    texts = []
    inner = {f["path"] for f in F.fns}
    opq = lambda g: False
    if fn is not None and F.body(fn):
        try:
            v = ctx.run(fn, [ref], st=st, opaque=opq, key=("p32w", path)).value
            texts.append(("ical", v))
        except core.Undecided as e:
            ctx.undec("ical of " + NAMES[path], e)
    fn = F.fn_for("core::fmt::Display::fmt", ty)
    if fn is not None and F.body(fn):
        try:
            st2 = E.St()
            st2.mem[("tmp", "in", 0)] = val
            fm = core.arg(F, 1, F.fns[fn]["body"]["locals"][2])
            r = ctx.run(fn, [ref, fm], st=st2, opaque=opq, key=("p32f", path))
            texts.append(("Display", fmt_cell(r)))
        except core.Undecided as e:
            ctx.undec("Display of " + NAMES[path], e)
    if not texts:
        ctx.undec("writer of " + NAMES[path], "not found")
    names = field_names(F, ty)
    for what, t in texts:
        for given, want in WRITTEN[path]:
            key = "%s of %s: %s" % (what, NAMES[path], "".join(w if len(w) == 1 or w in DAYS else "<%s>" % w for w in want))
            if t is None:
                ctx.undec(key, "not understood")
                continue
            one(ctx, key, path, ty, names, val, t, given, want)


def one(ctx, key, path, ty, names, val, t, given, want):
    F = ctx.F
    st = E.St()
    fields = names
    base = val
    if "" in given:
        vs = variant_names(F, ty)
        st = E.assume(st, E.cond(mk("discr", val), vs.index(given[""])))
        pay = F.types[ty]["variants"][vs.index(given[""])]["fields"][0]["ty"] if "variants" in F.types[ty] else None
        base = E.vfld(val, vs.index(given[""]), 0, pay)
        sub = adt_type(F, PERIOD.rsplit("::", 1)[0] + "::" + given[""])
        fields = field_names(F, sub)
    for n, k in given.items():
        if n:
            s2 = E.assume(st, E.cond(mk("discr", E.fld(base, fields.index(n), None)), k))
            st = s2 or st
    t = E.restrict(st, t)
    if path_of(F, t) == RESULT:
        if t.a[1] == 1:
            ctx.ob(key, False, "is an error")
            return
        t = E.restrict(st, t.a[2])
    w = []
    for x in want:
        w += list(x) if x in DAYS else [x]
    for st, t in chosen(st, t, base):
        got = []
        for x in parts(t):
            x = E.restrict(st, x)
            if x.op == "str":
                got += list(x.a[0])
            else:
                n = source(F, x, base, fields)
                if n is None:
                    ctx.undec(key, show(x, 0, 4)[:150])
                    return
                got.append(n)
        if got != w:
            ctx.ob(key, False, "is written as " + "".join(x if len(x) == 1 else "<%s>" % x for x in got))
            return
    ctx.ob(key, True, "")


def chosen(st, t, base):
    """alternatives, with the lesser or greater of two parts being either of them"""
    x = next((x for x in subterms(t) if x.op == "call" and x.a[0] in ("min", "max") and len(x.a) == 3 and x.a[1] is not x.a[2]
              and all(y.op == "fld" and y.a[0] is base for y in x.a[1:])), None)
    if x is None:
        yield from alternatives(st, t)
        return
    for y in x.a[1:]:
        yield from chosen(st, E.restrict(st, E.subst(t, {x: y})), base)


def alternatives(st, t):
    """the texts written in each case"""
    if t.op == "phi" and not any(y.op == "str" for _, y in t.a[0]):
        for g, y in t.a[0]:
            s2 = E.assume(st, g)
            if s2 is not None:
                yield from alternatives(s2, E.restrict(s2, y))
    else:
        yield st, t


def parts(t):
    return t.a if t.op == "cat" else (t,)


def source(F, x, base, fields):
    """the field whose text x is (escaped or formatted)"""
    for _ in range(8):
        if x.op == "phi":
            ns = {"" if y is S("") else source(F, y, base, fields) for _, y in x.a[0]}
            if len(ns) == 2 and "ord" in ns and "" in ns:
                return "ord if not " + show(next(g for g, y in x.a[0] if y is S("")), 0, 2)[:60]
            return ns.pop() if len(ns) == 1 else None
        if x.op == "dec":
            x = x.a[0]
        elif x.op == "disp":
            if x.a[0].split("::")[-1] in ("f32", "f64") or x.a[0] in ("f32", "f64"):
                sp = x.a[2]
                if sp.op == "spec" and sp.a[-1] == 0:
                    return "whole part of " + str(source(F, x.a[1], base, fields))
            x = x.a[1]
        elif x.op == "replace":
            x = x.a[0]
        elif x.op == "vfld" and x.a[1] in (0, 1) and x.a[0].op != "call":
            if x.a[0].op == "fld" and x.a[0].a[0] is base:
                return fields[x.a[0].a[1]]
            x = x.a[0]
        elif x.op == "fld" and x.a[0] is base:
            return fields[x.a[1]]
        elif x.op == "call" and x.a[0].split("::")[-1] == "format" and len(x.a) == 3:
            x = x.a[1]
        elif x.op == "call" and len(x.a) == 2 and (x.a[0] in ("to_string", "disp") or "escape" in x.a[0]):
            x = x.a[1]
        else:
            return None
    return None
