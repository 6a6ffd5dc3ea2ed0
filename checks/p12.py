"""Parts of a recurrence rule.

Reading: the rule text is split into NAME=value items that are all put, each under its own name, in one map; in a
successful result every field of the rule depends on the entry of its RFC 5545 name only: without that entry it has
the default (FREQ: no result), with it every alternative comes from its value, and no alternative is reached when
the conversion of that value failed.
Writing: with any one, any two or all of the parts present, the text consists of exactly one NAME=value per present
part, made from the field of that name, lists as a whole."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
from checks import p10
import core

RULE = "each rule part is read from the entry of its name only and written once under its name"
FLOOR = 40
RECUR = "ikal::properties::recur::Recur"


def part_name(field):
    return field.replace("_", "").upper()


def fields_of(F):
    ty = adt_type(F, RECUR)
    if ty is None:
        raise core.Missing(RECUR)
    return ty, [(i, f[0], f[1], R.kind(F, f[1])) for i, f in enumerate(F.types[ty]["v"][0]["f"])]


# -- reading
def map_keys(v):
    """{name: (mget terms, mval terms)} of look-ups by constant names, with the map"""
    out = {}
    for t in subterms(v):
        if t.op in ("mget", "mval") and t.a[1].op == "str":
            out.setdefault(t.a[1].a[0], []).append(t)
    return out


def reading(ctx):
    F = ctx.F
    ty, fs = fields_of(F)
    n = 0
    for i, f in enumerate(F.fns):
        if not (R.is_line_parser(F, f) and F.types[F.types[f["out"]]["args"][0]].get("path") == RECUR and not f.get("trait")):
            continue
        n += 1
        r = ctx.run(i)
        vals = []
        for g, k, p in results(F, r.value):
            if k == "err":
                continue
            if k == "?":
                ctx.undec("read", show(p, 0, 2)[:100])
                return
            vals += list(alts(p, g))
        for g, x in vals:
            if x.op != "adt":
                ctx.undec("read", show(x, 0, 2)[:100])
                return
        maps = {t.a[0] for g, x in vals for y in (g, x) for ts in map_keys(y).values() for t in ts}
        if len(maps) != 1:
            ctx.undec("read", "%d maps of parts" % len(maps))
            return
        m = maps.pop()
        filled(ctx, r, m, i)
        for fi in fs:
            read_field(ctx, fi, vals, m)
    if not n:
        ctx.undec("read", "no reader of rules found")


def filled(ctx, r, m, fn):
    """the map holds every item, the value under the name"""
    key = "read|items"
    rec = r.loops.get(m.a[0]) if m.op == "lv" else None
    if rec is None or m not in rec["nexts"] or len(rec["iters"]) != 1:
        ctx.undec(key, "map " + show(m, 0, 2)[:100])
        return
    it, seq = list(rec["iters"].items())[0]
    el = list(rec["elem"].values())[0]
    for g, x in alts(rec["nexts"][m]):
        ok = x.op == "minsert" and x.a[0] is m and x.a[1] is E.fld(el, 0) and uses(x.a[2], E.fld(el, 1)) and not uses(x.a[2], E.fld(el, 0))
        ctx.ob(key, ok, "an item is not kept under its name: %s" % show(x, 0, 3)[:150])
    lost = next((t for t in subterms(seq) if t.op in ("skip", "take", "before")), None)
    if lost is not None:
        ctx.ob(key + " all", False, "only a part of the items is kept: " + show(lost, 0, 2)[:100])
        return
    if any(t.op == "rev" for t in subterms(seq)):
        ctx.ob(key + " order", False, "the items are taken from the end: of a repeated part, the first counts")
        return
    parts = []
    if not one_each(seq, parts):
        e = R.empties(ctx.F, E.St(), seq, TRUE)
        if e:
            ctx.ob(key + " all", False, "an item of the rule may be left out: when " + show(e[0][0], 0, 3)[:150])
        else:
            ctx.undec(key + " all", "items " + show(seq, 0, 3)[:150])
        return
    ctx.ob(key + " all", True)
    for x in parts:
        if x.op == "tuple":
            item(ctx, x)
        elif x.op not in ("elem", "lv"):
            ctx.undec("read|item", show(x, 0, 3)[:150])


def one_each(seq, out):
    """seq holds one element per repetition; the elements"""
    if seq.op == "rep":
        if seq.a[1].op != "iters" and not one_each(seq.a[1], out):
            return False
        for _, x in alts(seq.a[2]):
            if not (x.op == "vec" and len(x.a) == 1 and x.a[0].op == "one"):
                return False
            out.append(x.a[0].a[0])
        return True
    if seq.op == "vec":
        for p in seq.a:
            if p.op == "one":
                out.append(p.a[0])
            elif not one_each(p.a[0], out):
                return False
        return True
    return False


def item(ctx, t):
    """(name, value): the name up to '=', the value up to the next ';'"""
    k, v = t.a
    ok = k.op == "span" and v.op == "span"
    if not ok:
        ctx.undec("read|item", show(t, 0, 3)[:150])
        return
    from checks import comptext as C
    src = v.a[0]
    ctx.ob("read|item start", src.op == "strip" and src.a[1] is S("=") and src.a[0] is mk("spanrest", k.a[0], k.a[1]),
           "the value of an item does not start after '=': " + show(src, 0, 3)[:150])
    stop = C.excluded(v.a[1])
    ctx.ob("read|item end", stop is not None and stop <= {59}, "the value of an item ends at %s" % sorted(stop or ()))


def read_field(ctx, fi, vals, m):
    F = ctx.F
    i, fname, ty, k = fi
    name = part_name(fname)
    key = "read|" + name
    missing, present, whole = [], [], []
    dm = E.cond(E.discr_of(mk("mget", m, S(name))), 0)
    for g, x in vals:
        for f, out in ((dm, missing), (NOT(dm), present)):
            st = E.assume(E.St(), g)
            st = E.assume(st, f) if st is not None else None
            if st is None or feasible(st) is False:
                continue
            whole.append((st, x.a[2 + i]))
            for h, y in live(st, x.a[2 + i]):
                out.append((st, h, y))
    names = set()
    for st, h, y in missing + present:
        names |= set(map_keys(y))
    for st, v in whole:
        names |= set(map_keys(E.restrict(st, v)))
    other = names - {name}
    if name not in names:
        ctx.ob(key, False, "%s is not read from %s%s" % (fname, name, " but from %s" % sorted(other) if other else ""))
        return
    if other:
        ctx.ob(key, False, "%s also depends on %s" % (fname, sorted(other)))
        return
    # absent
    for st, h, y in missing:
        if fname == "freq":
            ctx.ob(key + " absent", False, "a rule without FREQ is accepted as " + show(y, 0, 2)[:80])
            continue
        ok = y is I(1) if fname == "interval" else (path_of(F, y) == OPTION and y.a[1] == 0 if k == "option" else y is mk("vec"))
        ctx.ob(key + " absent", ok, "without %s, %s is %s" % (name, fname, show(y, 0, 2)[:80]))
    if fname == "freq" and not missing:
        ctx.ob(key + " absent", True)
    # present
    val = mk("mval", m, S(name))
    if not present:
        ctx.ob(key, False, "no rule with %s is accepted" % name)
        return
    for st, h, y in present:
        s2 = E.assume(st, h) or st
        d = R.defaults(F, s2, y, val, h)
        if d:
            ctx.ob(key, False, "a part %s may give %s: when %s" % (name, show(d[0][1], 0, 2)[:80], show(d[0][0], 0, 3)[:150]))
            continue
        bad = None
        for c in conversions(y, val):
            if feasible(s2, E.cond(E.discr_of(c), 1)) is True:
                bad = "a malformed %s is accepted" % name
        moved = next((t.op for t in subterms(y) if t.op in ("sorted", "rev") and R.depends(t, val)), None) or tampering(y) if k == "list" else None
        if moved is not None:
            bad = "the values of %s are not kept in their order: %s" % (name, moved)
        ctx.ob(key, bad is None, bad or "")


def conversions(v, subject):
    return {t.a[0] for t in subterms(v) if t.op == "vfld" and t.a[1] == 0 and t.a[0].op == "call" and R.depends(t.a[0], subject)
            and not has(t.a[0], lambda x: x.op == "elem")}


# -- writing
class Fake:
    def __init__(self, arg, fields):
        self.arg, self.fields, self.short = arg, fields, "RRULE"


def writing(ctx):
    F = ctx.F
    ty, fs = fields_of(F)
    ids = ctx.impl(W.SER, RECUR)
    if not ids:
        raise core.Missing("Serialize for Recur")
    r = ctx.run(ids[0])
    d = mk("deref", core.arg(F, 0, F.fns[ids[0]]["body"]["locals"][1]))
    oks = [(g, p) for g, k, p in results(F, r.value) if k == "ok"]
    if not oks:
        ctx.ob("write", False, "a rule is never written")
        return
    opt = [f for f in fs if f[3] in ("option", "list")]
    n = 0
    sets = [()] + [(a,) for a in opt] + [(a, b) for j, a in enumerate(opt) for b in opt[j + 1:]] + [tuple(opt)]
    bad = {}
    seen = set()
    texts = []
    for g, p in oks:
        joins = {}
        for t in subterms(p):
            if t.op in ("join", "rep"):
                joins.setdefault(t.a[1], []).append(t)
        texts.append((g, p, joins))
    for present in sets:
        for g, p, joins in texts:
            st = E.assume(E.St(), g)
            for f in opt:
                t = E.fld(d, f[0])
                c = E.cond(E.discr_of(t), 0) if f[3] == "option" else E.seq_empty(t)
                if f in present:
                    c = NOT(c)
                st = E.assume(st, c) if st is not None else None
                if f not in present and f[3] == "list":
                    for j in joins.get(t, ()):
                        st = E.assume(st, E.cond(j, "")) if st is not None else None
            if st is None:
                continue
            v = E.restrict(st, p)
            v, st = nonempty(st, v)
            on = [f for f in fs if f not in opt or f in present]
            e = judge(d, on, v)
            if e is None:
                ctx.undec("write|" + "+".join(part_name(f[1]) for f in present), show(v, 0, 3)[:150])
                continue
            seen |= {f[1] for f in on}
            for name, msg in e.items():
                bad.setdefault(name, msg + (" (with %s)" % ", ".join(part_name(f[1]) for f in present) if present else ""))
            n += 1
    for f in fs:
        name = part_name(f[1])
        if f[1] in seen:
            ctx.ob("write|" + name, name not in bad, bad.get(name, ""))
    for name in set(bad) - {part_name(f[1]) for f in fs}:
        ctx.ob("write|" + name, False, bad[name])
    ctx.ob("write|combinations", n > 0 or bool(bad), "no combination of parts was read")


def nonempty(st, v):
    """v when no value text is empty"""
    for _ in range(4):
        fs = [E.cond(t, "") for t, c in compared_strings(v).items() if "" in c]
        fs += [t for t in subterms(v) if t.op == "lit" and t.a[0].op == "slen" and t.a[2] == 0 and t.a[1] == "="]
        if not fs:
            break
        for f in fs:
            s2 = E.assume(st, NOT(f))
            if s2 is not None:
                st = s2
        v = E.restrict(st, v)
    return v, st


def judge(d, on, v):
    """{name: complaint} for one text; None if its shape is not understood"""
    bad = {}
    parts, cur = [], []
    for x in W.flat(v):
        if x.op == "phi" and any("=" in (y.a[0] if y.op == "str" else "".join(z.a[0] for z in W.flat(y) if z.op == "str")) for _, y in alts(x)):
            return None
        c = W.const(x)
        if c is None:
            cur.append(x)
            continue
        while ";" in c:
            a, c = c.split(";", 1)
            if a:
                cur.append(S(a))
            parts.append(cur)
            cur = []
        if c:
            cur.append(S(c))
    parts.append(cur)
    got = {}
    for p in parts:
        c = W.const(p[0]) if p else None
        if not p or c is None or "=" not in c:
            return {part_name(on[0][1]): "the text has a part %s" % [show(x, 0, 2)[:60] for x in p]} if not p or c is not None else None
        name, first = c.split("=", 1)
        got.setdefault(name, []).append(([S(first)] if first else []) + p[1:])
    for f in on:
        i, fname, ty, k = f
        name = part_name(fname)
        ps = got.pop(name, [])
        if len(ps) != 1:
            bad[name] = "%s is written %d times" % (name, len(ps))
            continue
        own = E.fld(d, i)
        used = set()
        for x in ps[0]:
            used |= {t.a[1] for t in subterms(x) if t.op == "fld" and t.a[0] is d}
        if used != {i}:
            bad[name] = "%s is written from %s" % (name, sorted(used - {i}) and "other parts too" or "nothing")
        elif k == "list":
            js = [x for x in ps[0] if x.op == "join"]
            if len(ps[0]) == 1 and len(js) == 1:
                j = js[0]
                if j.a[1] is not own:
                    bad[name] = "not all values of %s are written" % name
                elif j.a[3] is not S(","):
                    bad[name] = "the values of %s are separated by %s" % (name, show(j.a[3]))
                elif not uses(j.a[2], mk("elem", j.a[0], j.a[1])):
                    bad[name] = "a value of %s is not what is written" % name
    for name in got:
        bad[name] = "a part %s is written" % name
    return bad


def run(ctx):
    for part in (reading, writing):
        try:
            part(ctx)
        except core.Undecided as e:
            ctx.undec(part.__name__, e)
