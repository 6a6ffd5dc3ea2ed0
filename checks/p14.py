"""A malformed property value is an error.

(a) Reading a line of a known name goes on to the next line only if the conversion of that line succeeded: no
    state that stores or skips the line is reachable with a failed conversion of it.
(b) The conversions themselves (one line, or one value text, to a value or an error) succeed only with values that
    come from the text: no alternative of a successful result is a constant that the text did not select, and no
    part of a split value is left out."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import comptext as C
import core

RULE = "no successful result is reachable with a failed conversion of the value, nor with a value that owes nothing to the text"
FLOOR = 160


def conversions(v, subject):
    """fallible results computed from the subject: {term whose discriminant is 1 on failure}"""
    out = set()
    for t in subterms(v):
        if t.op == "vfld" and t.a[0].op == "call" and R.depends(t.a[0], subject):
            out.add(t.a[0])
        if t.op == "discr" and t.a[0].op == "call" and R.depends(t.a[0], subject):
            out.add(t.a[0])
    return out


def reader(ctx, rd):
    parsers = {rd.F.fns[i]["name"]: 1 for i in range(len(rd.F.fns)) if R.is_line_parser(rd.F, rd.F.fns[i])}
    for i, fname, ty, k in rd.fields:
        if k not in ("option", "list", "plain"):
            continue
        n = R.rfc_name(fname)
        if n not in rd.compared():
            continue
        key = "%s|%s" % (rd.short, n)
        st, ch = rd.under_name(E.cond(rd.key, n))
        if st is None:
            continue
        if k == "plain":
            mandatory(ctx, rd, i, fname, key, parsers)
            continue
        # every conversion of this line that appears in the transition
        cs = set()
        for j, (lv, ls) in ch.items():
            for g, x in ls:
                cs |= {c for c in conversions(g, rd.elem) | conversions(x, rd.elem)}
        for j, lv in rd.field_lv.items():
            x = E.restrict(st, rd.main["nexts"][lv])
            cs |= conversions(x, rd.elem)
        cs = {c for c in cs if c.a[0] in parsers}
        if not cs:
            if i in ch:
                ctx.undec(key, "no conversion of the line found")
            continue
        bad = None
        for c in sorted(cs, key=lambda t: t.id):
            f = E.cond(E.discr_of(c), 1)
            r = feasible(st, f)
            if r is True:
                bad = "%s may fail on a line %s without an error" % (c.a[0].split("::")[-1], n)
            elif r is None:
                ctx.undec(key, "guard too large")
        if bad is None and i in ch:
            for g, x in ch[i][1]:
                for y in ([x.a[2]] if path_of(rd.F, x) == OPTION and x.a[1] == 1 else [p.a[0] for p in x.a if p.op == "one"] if x.op == "vec" else []):
                    for h, z in R.defaults(rd.F, E.assume(st, g) or st, y, rd.elem):
                        bad = "a line %s may give %s" % (n, show(z, 0, 2)[:80])
        ctx.ob(key, bad is None, bad or "")


def mandatory(ctx, rd, i, fname, key, parsers):
    """a mandatory value is the successful conversion of a line"""
    for t in rd.final(i):
        for g, x in alts(t):
            if feasible(E.St(), g) is False:
                continue
            cs = [c for c in calls(x) if c.a[0] in parsers]
            if x.op == "vfld" and x.a[1] == 0 and x.a[0] in cs:
                ctx.ob(key, True)
            elif cs:
                ctx.undec(key, show(x, 0, 2)[:100])
            else:
                ctx.ob(key, False, "%s may be %s, which comes from no line" % (fname, show(x, 0, 2)[:80]))


def line_parser(ctx, i, f):
    F = ctx.F
    key = "line|" + f["path"].split("::")[-1]
    try:
        r = ctx.run(i)
    except core.Undecided as e:
        ctx.undec(key, e)
        return
    a = core.arg(F, 0, f["body"]["locals"][1])
    cl = strip_ref(F, f["ins"][0])
    if F.types[f["ins"][0]]["k"] == "ref":
        a = mk("deref", a)
    value = E.fld(a, field_index(F, cl, "value"))
    check(ctx, key, r, value, lambda p: p)


def value_parser(ctx, i, f):
    key = "value|" + f["path"].split("::")[-1]
    try:
        r = ctx.run(i)
    except core.Undecided as e:
        ctx.undec(key, e)
        return
    a = core.arg(ctx.F, 0, f["body"]["locals"][1])
    check(ctx, key, r, a, lambda p: p.a[1] if p.op == "tuple" and len(p.a) == 2 else None)


def from_str(ctx, i, f):
    F = ctx.F
    key = "text|" + F.types[f["self_ty"]]["s"].split("::")[-1]
    try:
        r = ctx.run(i)
    except core.Undecided as e:
        ctx.undec(key, e)
        return
    check(ctx, key, r, core.arg(F, 0, f["body"]["locals"][1]), lambda p: p)


def check(ctx, key, r, subject, payload):
    F = ctx.F
    for g, k, p in results(F, r.value):
        if k == "err":
            continue
        if k == "?" and R.depends(p, subject):
            continue        # the result of another conversion as it is
        v = payload(p)
        if v is None:
            ctx.undec(key, show(p, 0, 2)[:100])
            continue
        if is_recur(F, v):
            continue        # its parts are judged by P12
        d = R.defaults(F, E.St(), v, subject, g)
        ctx.ob(key, not d, "a malformed value may be accepted as %s: when %s" % ((show(d[0][1], 0, 2)[:80], show(d[0][0], 0, 3)[:200]) if d else ("", "")))


def is_recur(F, v):
    return any((path_of(F, x) or "").endswith("::Recur") for x in leaves(v))


def run(ctx):
    F = ctx.F
    for rd in R.readers(ctx):
        reader(ctx, rd)
    n = 0
    for i, f in enumerate(F.fns):
        if R.is_line_parser(F, f) and not f.get("trait"):
            n += 1
            line_parser(ctx, i, f)
    if n < 20:
        ctx.undec("lines", "only %d conversions of lines found" % n)
    for i, f, ty in C.nom_parsers(F):
        p = F.types[ty].get("path") or ""
        if p.startswith("ikal::properties::") or p.startswith("chrono::"):
            value_parser(ctx, i, f)
    for i, f in enumerate(F.fns):
        if f.get("body") and f.get("trait") == "core::str::traits::FromStr::from_str" and f.get("self_ty") is not None \
                and F.types[f["self_ty"]]["s"].startswith("ikal::properties::"):
            from_str(ctx, i, f)
