"""Keyword tables against RFC 5545, in both directions.

For every keyword type (STATUS, CLASS, TRANSP, FREQ, weekdays) the summary of its reader, of its writers
(Serialize::ical and Display) and of the parsers of the content lines carrying it is compared, keyword by
keyword and variant by variant, with the RFC 5545 table: under the fact `text = KEYWORD` the reader yields exactly
the variant of that name, under `variant = V` the writers yield exactly the keyword of V, and under the fact
that the text is none of the keywords the reader fails (CLASS: keeps the text as a custom value). The
dispatch of VALARM on ACTION is compared in the same way."""
import engine as E
from checks.util import *
import core

RULE = "reader[KEYWORD] = variant of that name, writer[variant] = its KEYWORD, reader[other] = error (CLASS: custom)"
FLOOR = 80

TABLES = {
    "ikal::properties::status::Status": ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"],
    "ikal::properties::class::Class": ["PUBLIC", "PRIVATE", "CONFIDENTIAL"],
    "ikal::properties::time_transparency::TimeTransparency": ["OPAQUE", "TRANSPARENT"],
    "ikal::properties::recur::Freq": ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"],
    "ikal::properties::recur::Weekday": ["SU", "MO", "TU", "WE", "TH", "FR", "SA"],
}
WEEKDAY = ("SU", "MO", "TU", "WE", "TH", "FR", "SA")


def matches(kw, name):
    if kw in WEEKDAY:
        return name[:2].upper() == kw
    return kw.replace("-", "").lower() == name.lower()


def of_name(kws, name):
    for k in kws:
        if matches(k, name):
            return k
    return None


def show_leaf(F, v):
    if v is None:
        return "unreachable"
    x = variant(F, v) if v.op == "adt" else None
    if x:
        return "%s(%s)" % (x[1], ", ".join(show_leaf(F, y) for y in x[2]))
    return show(v)[:200]


def reader(ctx, fnid, path, kws):
    F = ctx.F
    r = ctx.run(fnid)
    v = r.value
    name = F.fns[fnid]["name"]
    subj = {t: c for t, c in compared_strings(v).items() if c & set(kws)}
    if not subj:
        if len(kws[0]) == 2:
            return chars_reader(ctx, fnid, path, kws, v)
        ctx.undec(name, "no comparison of the text with the keywords found")
        return
    if len(subj) != 1:
        ctx.undec(name, "text compared through %d terms" % len(subj))
        return
    t, consts = next(iter(subj.items()))
    if not is_value(t):
        raw = altered(t)
        if raw is not None:
            for k in kws:
                got = under(AND([E.cond(t, k), nlit(raw, list(kws) + sorted(consts))]), v)
                rs = results(F, got) if got is not None else []
                if any(kind == "ok" and not (path.endswith("::Class") and variant(F, p) and variant(F, p)[2]) for _, kind, p in rs):
                    ctx.ob("%s|reads only %s" % (name, k), False, "texts other than %r are read as it: the text is compared after %s" % (k, t.a[0] if t.op == "call" else t.op))
        ctx.undec(name, "compared term %s is not the text" % show(t)[:200])
        return
    for k in kws:
        got = under(E.cond(t, k), v)
        rs = results(F, got) if got is not None else []
        good = bool(rs) and all(kind == "ok" and p.op == "adt" and path_of(F, p) == path and matches(k, variant(F, p)[1]) for _, kind, p in rs)
        if any(kind == "?" for _, kind, _ in rs):
            ctx.undec(name, "unresolved result for %s" % k)
            continue
        ctx.ob("%s|reads %s" % (name, k), good, "text %r gives %s" % (k, show_leaf(F, got)))
    others = consts | set(kws)
    # anything that is compared but is not a keyword
    for x in sorted(consts - set(kws)):
        rejected(ctx, name, path, v, E.cond(t, x), "the text %r" % x, t)
    rejected(ctx, name, path, v, nlit(t, others), "a text that is no keyword", t)


def is_value(t):
    """the raw text argument, or the value of the content-line argument"""
    if t.op in ("fld", "deref"):
        return is_value(t.a[0])
    return t.op == "sym"


ALTER = {"trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_uppercase", "to_lowercase",
         "replace"}
CASE = {"to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "upper", "lower"}


def altered(t):
    """the raw text, if t is the result of a function that maps several texts, not only of different case, to one"""
    n = 0
    while not is_value(t):
        name = str(t.a[0]).split("::")[-1] if t.op == "call" else t.op
        if name not in ALTER and name not in CASE:
            return None
        t = t.a[1] if t.op == "call" else t.a[0]
        n += name in ALTER
    return t if n else None


def rejected(ctx, name, path, v, f, what, t):
    F = ctx.F
    got = under(f, v)
    rs = results(F, got) if got is not None else []
    if path.endswith("::Class"):
        def custom(p):
            x = variant(F, p) if p.op == "adt" else None
            return x is not None and len(x[2]) == 1 and x[2][0] is t
        good = all(kind == "ok" and custom(p) for _, kind, p in rs)
    else:
        good = all(kind == "err" for _, kind, p in rs)
    if any(kind == "?" for _, kind, _ in rs):
        ctx.undec(name, "unresolved result for %s" % what)
        return
    ctx.ob("%s|%s" % (name, "reads " + what), good, "%s gives %s" % (what, show_leaf(F, got)))


def chars_reader(ctx, fnid, path, kws, v):
    """a reader that looks at the first two characters: decide every combination of tested characters"""
    F = ctx.F
    name = F.fns[fnid]["name"]
    ints = compared_ints(v)
    heads = {t: c for t, c in ints.items() if t.op in ("chhead", "head")}
    root = [t for t in heads if t.a[0].op == "sym"]
    if len(root) != 1:
        ctx.undec(name, "unrecognised reader of two-letter keywords")
        return
    h0 = root[0]
    tails = [t for t in heads if t is not h0 and t.a[0].op in ("chtail", "tail") and t.a[0].a[0] is h0.a[0]]
    if len(tails) != 1:
        ctx.undec(name, "unrecognised reader of two-letter keywords")
        return
    h1 = tails[0]
    base = AND([nlit(h0.a[0], [""]), nlit(h1.a[0], [""])])
    c0, c1 = sorted(heads[h0] | {ord(k[0]) for k in kws}), sorted(heads[h1] | {ord(k[1]) for k in kws})
    for a in c0 + [None]:
        for b in c1 + [None]:
            f = AND([base, E.cond(h0, a) if a is not None else nlit(h0, c0), E.cond(h1, b) if b is not None else nlit(h1, c1)])
            got = under(f, v)
            rs = results(F, got) if got is not None else []
            word = "".join(chr(x) if x is not None else "?" for x in (a, b))
            if any(kind == "?" for _, kind, _ in rs):
                ctx.undec(name, "unresolved result for %s" % word)
                continue
            oks = [p for _, kind, p in rs if kind == "ok"]
            vals = [p.a[-1] if p.op == "tuple" else p for p in oks]
            if word in kws:
                good = len(rs) > 0 and len(oks) == len(rs) and all(
                    p.op == "adt" and path_of(F, p) == path and matches(word, variant(F, p)[1]) for p in vals)
                ctx.ob("%s|reads %s" % (name, word), good, "text %r gives %s" % (word, show_leaf(F, got)))
            else:
                ctx.ob("%s|rejects %s" % (name, word), not oks, "text %r gives %s" % (word, show_leaf(F, got)))


def writer(ctx, fnid, path, kws, text, argt):
    F = ctx.F
    name = F.fns[fnid]["name"]
    ty = adt_type(F, path)
    for i, vn in enumerate(variant_names(F, ty)):
        k = of_name(kws, vn)
        d = F.types[ty]["v"][i]["d"]
        ds = [t for t in subterms(text) if t.op == "discr" and is_value(t.a[0])]
        ds = list(dict.fromkeys(ds))
        if len(ds) != 1:
            ctx.undec(name, "writer does not branch on the variant alone")
            return
        got = under(E.cond(ds[0], d), text)
        ls = [fold(x) for x in leaves(got)]
        ls = [x.a[2] if path_of(F, x) == RESULT and x.a[1] == 0 else x for x in ls]
        ls = [fold(x) for x in ls]
        if k is None:
            continue      # a variant that carries its own text
        consts = [x for x in ls if x.op == "str"]
        if len(consts) != len(ls):
            if any(x.op == "adt" for x in ls):
                ctx.ob("%s|writes %s" % (name, vn), False, "writing %s can fail" % vn)
            else:
                ctx.undec(name, "text of %s not constant: %s" % (vn, show(got)[:200]))
            continue
        good = bool(ls) and all(x.a[0] == k for x in ls)
        ctx.ob("%s|writes %s" % (name, vn), good, "%s is written as %s, expected %r" % (vn, [x.a[0] for x in ls], k))


def fold(t):
    """constant folding of text replacement on a known text"""
    if t.op == "replace" and t.a[0] is not None:
        s = fold(t.a[0])
        if s.op == "str" and t.a[2].op == "str":
            p = t.a[1]
            if p.op == "str":
                return S(s.a[0].replace(p.a[0], t.a[2].a[0]))
            if p.op == "int":
                return S(s.a[0].replace(chr(p.a[0]), t.a[2].a[0]))
            if p.op == "cset":
                return S("".join(t.a[2].a[0] if ord(c) in p.a[0] else c for c in s.a[0]))
    if t.op == "upper":
        s = fold(t.a[0])
        if s.op == "str":
            return S(s.a[0].upper())
    if t.op == "adt":
        return E.mk_adt(t.a[0], t.a[1], [fold(x) for x in t.a[2:]])
    return t


def out_value(F, f):
    """type carried by the Ok of a function's result"""
    t = F.types[f["out"]]
    return t["args"][0] if t.get("path") == RESULT else None


def run(ctx):
    F = ctx.F
    for path, kws in TABLES.items():
        ty = adt_type(F, path)
        if ty is None:
            raise core.Missing(path)
        tstr = F.types[ty]["s"]
        ctx.ob("%s|has a variant for every keyword" % path,
               all(any(matches(k, n) for n in variant_names(F, ty)) for k in kws), str(variant_names(F, ty)))
        readers = ctx.impl("core::str::traits::FromStr::from_str", tstr)
        for i, f in enumerate(F.fns):
            if f.get("body") and f["path"].startswith("ikal::parser::") and takes_text(F, f) and f["dk"] != "Closure" and "{closure" not in f["path"]:
                o = out_value(F, f)
                if o is not None and len(f["ins"]) == 1 and (o == ty or is_nom_of(F, o, ty)):
                    readers.append(i)
        if not readers:
            ctx.undec(path, "no reader found")
        for fnid in readers:
            try:
                if delegates(ctx, fnid, readers):
                    continue
                reader(ctx, fnid, path, kws)
            except core.Undecided as e:
                ctx.undec(F.fns[fnid]["name"], e)
        writers = 0
        for fnid in ctx.impl("ikal::ser::Serialize::ical", tstr):
            r = ctx.run(fnid)
            writer(ctx, fnid, path, kws, r.value, 0)
            writers += 1
        for fnid in ctx.impl("core::fmt::Display::fmt", tstr):
            r = ctx.run(fnid)
            text = fmt_cell(r)
            if text is None:
                ctx.undec(F.fns[fnid]["name"], "formatter output not recovered")
                continue
            writer(ctx, fnid, path, kws, text, 0)
            writers += 1
        if not writers:
            ctx.undec(path, "no writer found")
    alarm(ctx)


def takes_text(F, f):
    return len(f.get("ins", ())) == 1 and F.types[strip_ref(F, f["ins"][0])]["s"] in ("str", "ikal::content_line::ContentLine")


def is_nom_of(F, o, ty):
    t = F.types[o]
    return t["k"] == "tuple" and len(t["f"]) == 2 and t["f"][1] == ty


def delegates(ctx, fnid, readers):
    """the summary only forwards another reader of the list, on the same text"""
    F = ctx.F
    v = ctx.run(fnid).value
    names = {F.fns[r]["path"] for r in readers if r != fnid}
    vals = [t for t in subterms(v) if t.op == "nomval" and t.a[0] in names]
    if not vals:
        return False
    name = F.fns[fnid]["name"]
    oks = ok_alts(F, v)
    good = bool(oks) and all(p in vals and is_value(p.a[1]) for _, p in oks)
    if good:
        ctx.ob("%s|forwards its reader" % name, True, show(v)[:200])
    else:
        ctx.undec(name, "unrecognised use of another reader")
    return True


ACTIONS = {"AUDIO": "Audio", "DISPLAY": "Display", "EMAIL": "Email"}


def alarm(ctx):
    F = ctx.F
    ty = adt_type(F, "ikal::components::valarm::VAlarm")
    fns = [i for i in ctx.impl("core::convert::TryFrom::try_from", F.types[ty]["s"])
           if "ContentLine" in F.types[F.fns[i]["ins"][0]]["s"]]
    if not fns:
        raise core.Missing("VAlarm::try_from")
    for fnid in fns:
        name = F.fns[fnid]["name"]
        v = ctx.run(fnid).value
        subj = {t: c for t, c in compared_strings(v).items() if c & set(ACTIONS)}
        if len(subj) != 1:
            ctx.undec(name, "dispatch on ACTION not recognised")
            continue
        t, consts = next(iter(subj.items()))
        key = [u for u, c in compared_strings(v).items() if "ACTION" in c]
        ctx.ob("%s|dispatches on ACTION" % name, bool(key), "no property is compared with ACTION")
        for k, vn in ACTIONS.items():
            got = under(E.cond(t, k), v)
            oks = ok_alts(F, got) if got is not None else []
            if any(kind == "?" for _, kind, _ in results(F, got)):
                ctx.undec(name, "unresolved result for %s" % k)
                continue
            good = bool(oks) and all(variant(F, p) and variant(F, p)[1] == vn for _, p in oks)
            ctx.ob("%s|ACTION:%s" % (name, k), good, "ACTION:%s gives %s" % (k, [show_leaf(F, p)[:100] for _, p in oks]))
        got = under(nlit(t, consts), v)
        oks = ok_alts(F, got) if got is not None else []
        ctx.ob("%s|other ACTION rejected" % name, not oks, "another action gives %s" % [show_leaf(F, p)[:100] for _, p in oks])
        for x in sorted(consts - set(ACTIONS)):
            got = under(E.cond(t, x), v)
            oks = ok_alts(F, got) if got is not None else []
            ctx.ob("%s|ACTION:%s rejected" % (name, x), not oks, "ACTION:%s is accepted" % x)
