"""No content line is lost or misfiled.

(a) The reader of a component looks at every line: each successful result comes after the end of the line sequence.
(b) For each property field, restricted to lines of its RFC 5545 name: the field always changes, an optional field
    to a value made from the line, a list to all it held followed by what the line gives; no other field changes.
(c) A line of an unknown name changes the X- map when the name starts with X- and the map of other properties
    otherwise, by inserting the whole line under its own name, and nothing else.
(d) The parsers of components hand all the lines they read, in order, to that reader; the line parser cuts
    a line at its name, parameters and value without leaving anything out."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import comptext as C

RULE = "every line changes the field of its name (or the map of unknown names) on every way to a successful result"
FLOOR = 110


def field_change(ctx, rd, i, fname, k):
    n = R.rfc_name(fname)
    key = "%s|%s" % (rd.short, n)
    st, ch = rd.under_name(E.cond(rd.key, n))
    if n not in rd.compared() and any(rd.fields[j][3] == "map" for j in ch):
        return      # kept among the other properties: filed under an unexpected field (P07), not lost
    if st is None:
        ctx.ob(key, False, "no line %s is ever accepted" % n)
        return
    if i not in ch:
        ctx.ob(key, False, "a line %s leaves %s unchanged" % (n, fname))
        return
    lv, ls = ch[i]
    for g, x in ls:
        if x is lv:
            ctx.ob(key, False, "a line %s can leave %s unchanged: when %s" % (n, fname, show(g, 0, 3)[:200]))
            return
        if k == "option":
            if path_of(rd.F, x) == OPTION and x.a[1] == 0:
                ctx.ob(key, False, "a line %s can reset %s" % (n, fname))
                return
            if not R.depends(x, rd.elem):
                ctx.ob(key, False, "%s does not come from the line %s: %s" % (fname, n, show(x, 0, 3)[:150]))
                return
        else:
            if x.op != "vec":
                if tampering(x):
                    ctx.ob(key, False, "%s goes through %s" % (fname, tampering(x)))
                else:
                    ctx.undec(key, "new value " + show(x, 0, 3)[:150])
                return
            parts = list(x.a)
            old = [j for j, p in enumerate(parts) if p.op == "all" and p.a[0] is lv]
            new = [j for j, p in enumerate(parts) if R.depends(p, rd.elem)]
            if len(old) != 1 or not new:
                ctx.ob(key, False, "a line %s %s" % (n, "drops what %s held" % fname if len(old) != 1 else "adds nothing to %s" % fname))
                return
            gone = [g2 for j in new for g2 in may_add_nothing(rd, E.assume(st, g), parts[j])]
            if gone:
                ctx.ob(key, False, "a line %s can add nothing to %s: when %s" % (n, fname, show(gone[0], 0, 3)[:200]))
                return
            if old[0] > min(new):
                ctx.ob(key, False, "%s does not keep the order of its lines" % fname)
                return
    ctx.ob(key, True)


def may_add_nothing(rd, st, part):
    """guards under which a part of a list is empty although the line is there"""
    if part.op == "one" or st is None:
        return []
    return [g for g, x in live(st, part.a[0]) if x.op == "vec" and not x.a and feasible(st, g) is True]


def unknown(ctx, rd, x, target):
    key = "%s|%s" % (rd.short, "X- lines" if x else "other lines")
    st = rd.unknown(x)
    if st is None:
        ctx.ob(key, False, "a line of an unknown name is never accepted")
        return
    ch = {}
    for lv, i in rd.lvs.items():
        ls = live(st, rd.main["nexts"][lv])
        if any(y is not lv for _, y in ls):
            ch[rd.fields[i][1]] = (lv, ls)
    if set(ch) != {target}:
        ctx.ob(key, False, "such a line changes %s instead of %s" % (sorted(ch) or "nothing", target))
        return
    lv, ls = ch[target]
    for g, y in ls:
        if y is lv:
            ctx.ob(key, False, "such a line can be left out of %s" % target)
            return
        if y.op != "minsert" or y.a[0] is not lv:
            ctx.undec(key, show(y, 0, 2)[:150])
            return
        if y.a[1] is not rd.key:
            ctx.ob(key, False, "%s is filled under %s, not under the name of the line" % (target, show(y.a[1], 0, 3)[:120]))
            return
        if not whole(y.a[2], rd.elem, len(rd.F.types[C.line_type(rd.F)]["v"][0]["f"])):
            ctx.ob(key, False, "%s does not hold the whole line: %s" % (target, show(y.a[2], 0, 3)[:120]))
            return
    ctx.ob(key, True)


def whole(v, elem, n):
    return v is elem or (v.op == "adt" and len(v.a) == 2 + n and all(v.a[2 + i] is E.fld(elem, i) for i in range(n)))


def run(ctx):
    for rd in R.readers(ctx):
        e = rd.exhausted()
        ctx.ob("%s|all lines" % rd.short, e, "a successful result does not require that every line was looked at")
        for i, n, ty, k in rd.fields:
            if k in ("option", "list"):
                field_change(ctx, rd, i, n, k)
            elif k == "map":
                unknown(ctx, rd, n == "x_prop", n)
    C.check_lines(ctx)
    for tx in C.texts(ctx):
        tx.check_lines()
