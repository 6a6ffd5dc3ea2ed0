"""Nested components, both ways.

(a) The parser of a component's text reads BEGIN:NAME at its start, hands the lines after it to the reader, and
    what is left after the successful parse is what follows END:NAME; a repetition of nested parsers stands between.
(b) Every nested component such a repetition produces is appended, whole and once, to exactly one list field of its
    kind, and that list is otherwise what the reader gave; for every list field some nested parser produces its kind.
(c) An alarm's kind follows its ACTION.
(d) A list of nested components is written element by element, each by its own writer, between BEGIN and END lines
    with the component's name."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import comptext as C
from checks import compwrite as W
import core

RULE = "nested components are appended once each to the list of their kind; blocks carry the component's name; lists are written whole"
FLOOR = 60


# -- reading
def outer(t, arg):
    """constant text cut off arg to reach t, or None"""
    out = ""
    while t is not arg:
        if t.op == "strip" and t.a[1].op == "str":
            out = t.a[1].a[0] + out
            t = t.a[0]
        else:
            return None
    return out


def tail(t):
    """constant text cut off at the end, and where it starts"""
    out = ""
    while t.op == "strip" and t.a[1].op == "str":
        out = t.a[1].a[0] + out
        t = t.a[0]
    return out, t


def parser_value_type(F, name):
    for i, f in enumerate(F.fns):
        if f["path"] == name and f.get("out") is not None:
            t = F.types[F.types[f["out"]]["args"][0]]
            if t["k"] == "tuple":
                return i, t["f"][1]
    return None, None


def blocks(ctx, tx):
    name = C.BLOCK[tx.short]
    key = "%s text" % tx.short
    for g, rest, v in tx.oks:
        starts = {t.a[1] for t in subterms(v) if t.op == "nomval" and parser_is_lines(ctx.F, t.a[0])}
        if starts:
            for s in starts:
                b = outer(s, tx.arg)
                if b is None:
                    ctx.undec(key + "|begin", show(s, 0, 3)[:150])
                else:
                    ctx.ob(key + "|begin", b.rstrip("\r\n") == "BEGIN:" + name, "the text of a %s begins with %r" % (name, b))
        else:
            ctx.undec(key + "|begin", "no lines in " + show(v, 0, 2)[:100])
        for _, y in alts(rest):
            e, src = tail(y)
            if not e:
                ctx.undec(key + "|end", show(y, 0, 2)[:100])
            else:
                ctx.ob(key + "|end", e.rstrip("\r\n") == "END:" + name, "the text of a %s ends with %r" % (name, e))


def parser_is_lines(F, name):
    _, t = parser_value_type(F, name)
    return t is not None and F.types[t]["s"] == R.LINES


def body_of(ctx, key, tx, v, i):
    """what is appended to the list: rep/nomval over nested parsers; None if undecided or reported"""
    if tampering(v):
        ctx.ob(key, False, "the nested components go through " + tampering(v))
        return None
    if v.op == "lv":
        v = transition(ctx, key, tx, v, i)
        if v is None:
            return None
    if v.op == "vec":
        new = []
        for p in v.a:
            if p.op == "all" and from_reader(p.a[0], i):
                continue
            new.append(p)
        if len(new) == 1 and new[0].op == "all":
            v = new[0].a[0]
        elif not new:
            ctx.ob(key, False, "nested components never reach this list")
            return None
    while v.op == "rep" and v.a[1].op == "rep":
        # a second pass that keeps every element
        el = mk("elem", v.a[0], v.a[1])
        ls = list(alts(v.a[2]))
        if all(x is mk("vec") or one_item(x) is el for _, x in ls):
            for g, x in ls:
                if x is mk("vec") and feasible(E.St(), g) is True:
                    ctx.ob(key, False, "a nested component may be dropped: when " + show(g, 0, 3)[:150])
                    return None
            v = v.a[1]
        else:
            break
    if v.op in ("rep", "nomval"):
        return v
    ctx.undec(key, "list is " + show(v, 0, 3)[:150])
    return None


def from_reader(x, i):
    return x.op == "fld" and x.a[1] == i and any(c.a[0].endswith(C.TRY_FROM) for c in calls(x))


def transition(ctx, key, tx, lv, i):
    """the list a loop fills, from what one pass does to it"""
    rec = tx.r.loops.get(lv.a[0])
    if rec is None or lv not in rec["nexts"] or not rec["iters"]:
        ctx.undec(key, "list is " + show(lv, 0, 3)[:150])
        return None
    seq = list(rec["iters"].values())[0]
    out = []
    for g, x in alts(rec["nexts"][lv]):
        if x is lv:
            out.append((g, mk("vec")))
        elif x.op == "vec" and any(p.op == "all" and p.a[0] is lv for p in x.a):
            if not (x.a[0].op == "all" and x.a[0].a[0] is lv):
                ctx.ob(key, False, "nested components do not keep their order: " + show(x, 0, 3)[:150])
                return None
            out.append((g, mk("vec", *x.a[1:])))
        elif x.op == "vec":
            ctx.ob(key, False, "the list does not keep what it holds: " + show(x, 0, 3)[:150])
            return None
        else:
            ctx.undec(key, "list becomes " + show(x, 0, 3)[:150])
            return None
    return mk("rep", lv.a[0], seq, E.mkphi(out))


def one_item(x):
    """x when the list is always [x]"""
    if x.op == "vec" and len(x.a) == 1 and x.a[0].op == "one":
        return x.a[0].a[0]
    return None


def nested_fields(ctx, tx):
    subs = [f for f in tx.fields if f[3] == "sub"]
    for g, rest, v in tx.oks:
        if v.op != "adt":
            if subs:
                for f in subs:
                    ctx.ob("%s|%s" % (tx.short, f[1]), False, "nested components of a %s are not kept" % tx.short)
            return
        direct, routed, undecided = [], [], 0
        for i, n, ty, k in tx.fields:
            key = "%s|%s" % (tx.short, n)
            x = v.a[2 + i]
            if k != "sub":
                ok = x.op == "fld" and x.a[1] == i and x.a[0].op == "vfld" and uses_reader(x.a[0])
                if ok or x.op in ("vec", "adt", "fld", "str", "int"):
                    ctx.ob(key, ok, "%s is not what the reader gave: %s" % (n, show(x, 0, 3)[:100]))
                else:
                    ctx.undec(key, show(x, 0, 3)[:100])
                continue
            b = body_of(ctx, key, tx, x, i)
            if b is None:
                undecided += 1
                continue
            et = tx.F.types[ty]["args"][0]
            if b.op == "rep" and b.a[1].op == "iters":
                direct.append((n, key, et, b))
            elif b.op == "rep":
                routed.append((n, key, et, b))
            elif b.op == "nomval":
                _, vt = parser_value_type(tx.F, b.a[0])
                ctx.ob(key, vt is not None and tx.F.types[vt].get("args") == [et], "the parser gives %s" % (tx.F.types[vt]["s"] if vt is not None else "?"))
            else:
                ctx.undec(key, "list is " + show(b, 0, 3)[:150])
        for n, key, et, b in direct:
            item = one_item(b.a[2])
            if item is None:
                ctx.ob(key, False, "a nested component read may not be added: " + show(b.a[2], 0, 3)[:150])
                continue
            ok = item.op == "nomval" and parser_value_type(tx.F, item.a[0])[1] == et
            ctx.ob(key, ok, "what is added is not the nested component: " + show(item, 0, 3)[:150])
            ends_at(ctx, key, tx, rest, b.a[0])
        if routed:
            route(ctx, tx, rest, subs, routed, undecided)


def uses_reader(x):
    return any(c.a[0].endswith(C.TRY_FROM) for c in calls(x))


def ends_at(ctx, key, tx, rest, loop):
    """what follows the repetition is the closing line"""
    for _, y in alts(rest):
        _, src = tail(y)
        ctx.ob(key + "|end", src.op == "lv" and src.a[0] is loop, "the closing line does not follow the nested components: " + show(src, 0, 3)[:150])


def route(ctx, tx, rest, subs, routed, undecided):
    """nested components of several kinds, sorted into lists by kind"""
    F = tx.F
    seqs = {b.a[1] for _, _, _, b in routed}
    if len(seqs) != 1:
        ctx.undec("%s|nested" % tx.short, "lists filled from different sequences")
        return
    seq = seqs.pop()
    by = {n: (key, et, b) for n, key, et, b in routed}
    # the kinds
    kinds = produced(ctx, tx, seq, rest)
    if kinds is None:
        return
    ety, prods = kinds
    for k, var in enumerate(F.types[ety]["v"]):
        pay = var["f"][0][1] if var["f"] else None
        vkey = "%s|nested %s" % (tx.short, var["n"])
        want = [f for f in subs if F.types[f[2]]["args"][0] == pay]
        if not want:
            ctx.ob(vkey, False, "no list holds a nested %s" % var["n"])
            continue
        got = []
        for n, (key, et, b) in by.items():
            el = mk("elem", b.a[0], seq)
            st = E.assume(E.St(), E.cond(E.discr_of(el), k))
            ls = live(st, b.a[2])
            for g, x in ls:
                if x.op == "vec" and not x.a:
                    continue
                it = one_item(x)
                if it is not E.vfld(el, k, 0):
                    got.append((n, "not the component itself: " + show(x, 0, 3)[:100]))
                else:
                    got.append((n, "" if len(ls) == 1 else "only sometimes: when " + show(g, 0, 3)[:150]))
        if undecided and not got:
            continue
        ok = len(got) == 1 and got[0][1] == ""
        ctx.ob(vkey, ok, "a nested %s goes to %s" % (var["n"], "no list" if not got else ", ".join("%s (%s)" % x if x[1] else x[0] for x in got)))
    # every list has a kind and that kind has a parser
    for i, n, ty, k in subs:
        et = F.types[ty]["args"][0]
        ks = [j for j, var in enumerate(F.types[ety]["v"]) if var["f"] and var["f"][0][1] == et]
        ctx.ob("%s|%s source" % (tx.short, n), bool(ks) and all(j in prods for j in ks), "no nested parser fills " + n)


def produced(ctx, tx, seq, rest):
    """(type of the nested components, {variant: parsers}) of the sequence read"""
    F = tx.F
    key = "%s|nested" % tx.short
    if seq.op == "nomval":
        i, vt = parser_value_type(F, seq.a[0])
        if i is None:
            ctx.undec(key, seq.a[0])
            return None
        for _, y in alts(rest):
            _, src = tail(y)
            ctx.ob(key + " end", src.op == "nomrest" and src.a == seq.a, "the closing line does not follow the nested components: " + show(src, 0, 3)[:150])
        try:
            r = ctx.run(i)
        except core.Undecided as e:
            ctx.undec(key, e)
            return None
        out = None
        for g, k, p in results(F, r.value):
            if k == "ok" and p.op == "tuple":
                x = p.a[1]
                if x.op == "rep" and x.a[1].op == "iters":
                    ctx.ob(key + " sequence", p.a[0].op == "lv" and p.a[0].a[0] is x.a[0], "the nested components end elsewhere")
                    out = item_kinds(ctx, key, x)
                else:
                    ctx.undec(key, show(x, 0, 3)[:150])
                    return None
        return out
    if seq.op == "rep" and seq.a[1].op == "iters":
        for _, y in alts(rest):
            _, src = tail(y)
            ctx.ob(key + " end", src.op == "lv" and src.a[0] is seq.a[0], "the closing line does not follow the nested components: " + show(src, 0, 3)[:150])
        return item_kinds(ctx, key, seq)
    if seq.op in ("rev", "sorted") or tampering(seq):
        ctx.ob(key + " order", False, "the nested components are filed in another order or not all: " + show(seq, 0, 2)[:150])
        return None
    ctx.undec(key, show(seq, 0, 3)[:150])
    return None


def item_kinds(ctx, key, rep):
    F = ctx.F
    item = one_item(rep.a[2])
    if item is None:
        ctx.ob(key + " items", False, "a nested component read may be dropped: " + show(rep.a[2], 0, 3)[:150])
        return None
    ctx.ob(key + " items", True)
    if item.op == "nomval":
        i, vt = parser_value_type(F, item.a[0])
        try:
            r = ctx.run(i)
        except core.Undecided as e:
            ctx.undec(key, e)
            return None
        vals = []
        for g, k, p in results(F, r.value):
            if k == "ok" and p.op == "tuple":
                a = core.arg(F, 0, F.fns[i]["body"]["locals"][1])
                vals += [(h, x) for h, x in alts(p.a[1], g)]
    else:
        vals = list(alts(item))
    prods, ety = {}, None
    for g, x in vals:
        if x.op != "adt" or len(x.a) != 3 or x.a[2].op != "nomval":
            ctx.undec(key, "item " + show(x, 0, 3)[:150])
            return None
        ety = x.a[0]
        pay = F.types[ety]["v"][x.a[1]]["f"][0][1]
        _, vt = parser_value_type(F, x.a[2].a[0])
        ctx.ob("%s %s" % (key, F.types[ety]["v"][x.a[1]]["n"]), vt == pay, "parsed by " + x.a[2].a[0])
        prods.setdefault(x.a[1], []).append(x.a[2].a[0])
    return (ety, prods) if ety is not None else None


# -- alarms
ACTIONS = {"Audio": "AUDIO", "Display": "DISPLAY", "Email": "EMAIL"}


def alarm(ctx):
    F = ctx.F
    name = "ikal::components::valarm::VAlarm"
    ty = adt_type(F, name)
    if ty is None:
        raise core.Missing(name)
    ids = [i for i in ctx.impl("core::convert::TryFrom::try_from", name) if F.types[F.fns[i]["ins"][0]]["s"] == R.LINES]
    if not ids:
        raise core.Missing("reader of VAlarm")
    r = ctx.run(ids[0])
    arg = core.arg(F, 0, F.fns[ids[0]]["body"]["locals"][1])
    names = variant_names(F, ty)
    cl = adt_type(F, "ikal::content_line::ContentLine")
    kk, kv = field_index(F, cl, "key"), field_index(F, cl, "value")
    seen = set()
    for g0, k, p in results(F, r.value):
        if k != "ok":
            continue
        for g, x in alts(p, g0):
            if x.op != "adt":
                ctx.undec("VAlarm kind", show(x, 0, 2)[:100])
                continue
            n = names[x.a[1]]
            seen.add(n)
            key = "VAlarm|%s" % n
            rc = x.a[2]
            ok = rc.op == "vfld" and rc.a[0].op == "call" and rc.a[0].a[0].endswith(C.TRY_FROM) and rc.a[0].a[-1] is arg
            ctx.ob(key + " lines", ok, "not read from all the lines: " + show(rc, 0, 3)[:150])
            vals = {t: c for t, c in compared_strings(g).items() if t.op == "fld" and t.a[1] == kv}
            if not vals:
                ctx.undec(key, "the kind does not depend on the value of a line")
                continue
            for t, cs in vals.items():
                other = [c for c in ACTIONS.values() if c != ACTIONS.get(n)]
                bad = [c for c in other if feasible(E.assume(E.St(), E.cond(t, c)), g) is True]
                good = feasible(E.assume(E.St(), E.cond(t, ACTIONS.get(n, "?"))), g)
                if good is None:
                    ctx.undec(key, "guard too large")
                else:
                    ctx.ob(key, good and not bad, "an alarm is %s when its ACTION is %s" % (n, bad or sorted(cs)))
    for n in names:
        ctx.ob("VAlarm|%s read" % n, n in seen, "no ACTION gives a %s" % n)
    sel = set()
    for t, c in compared_strings(r.value).items():
        if t.op == "fld" and t.a[1] == kk:
            sel |= c
    for rec in r.loops.values():
        for x in list(rec["next"].values()) + [l for _, s in rec["exits"] for l in R.own_facts(s, rec["base"])]:
            for t, c in compared_strings(x).items():
                if t.op == "fld" and t.a[1] == kk:
                    sel |= c
    if sel:
        ctx.ob("VAlarm|ACTION", sel == {"ACTION"}, "the kind of an alarm is chosen by %s" % sorted(sel))
    alarm_text(ctx, name, ty, names)


def alarm_text(ctx, name, ty, names):
    F = ctx.F
    fn = ctx.impl(W.SER, name)[0]
    r = ctx.run(fn)
    d = mk("deref", core.arg(F, 0, F.fns[fn]["body"]["locals"][1]))
    for k, n in enumerate(names):
        key = "VAlarm|%s written" % n
        v = under(E.cond(E.discr_of(d), k), r.value)
        oks = [(g, x) for g, kk, x in results(F, v) if kk == "ok"]
        if not oks:
            ctx.ob(key, False, "a %s is never written" % n)
            continue
        for g, x in oks:
            inner = [c for c in calls(x) if c.a[0].endswith("ser::Serialize>::ical")]
            if not inner and has(x, lambda t: t.op in ("lv", "elem", "rep", "init")):
                ctx.undec(key, show(x, 0, 3)[:150])
                continue
            if not inner:
                ctx.ob(key, False, "the text of a %s does not contain its properties: %s" % (n, show(x, 0, 3)[:150]))
                continue
            own = E.vfld(d, k, 0)
            ctx.ob(key, all(c.a[-1] is own or (c.a[-1].op == "ref" and c.a[-1].a[0] is own) or uses(c.a[-1], own) for c in inner),
                   "a %s is written as %s" % (n, show(inner[0].a[-1], 0, 3)[:100]))
            consts = [t.a[0] for t in subterms(x) if t.op == "str"]
            b = [c for c in consts if c.strip("\r\n").startswith("BEGIN:")]
            e = [c for c in consts if c.strip("\r\n").startswith("END:")]
            if b and e:
                ctx.ob(key + " block", all(c.strip("\r\n") == "BEGIN:VALARM" for c in b) and all(c.strip("\r\n") == "END:VALARM" for c in e),
                       "the block of an alarm is %s" % (b + e))
            body = drop_first_last(x)
            if body is None:
                ctx.undec(key + " lines", show(x, 0, 5)[:200])
            else:
                ctx.ob(key + " lines", body == (1, 2), "the lines kept of a %s leave out %d at the start and %d at the end" % ((n,) + body))


def drop_first_last(x):
    """(lines replaced at the start, pieces dropped at the end) for lines split off a text and joined again"""
    if x.op != "joinseq" or x.a[1] is not S("\n"):
        return None
    v = x.a[0]
    if v.op != "vec" or len(v.a) != 2 or v.a[0].op != "all" or v.a[1].op != "one":
        return None
    t, n = v.a[0].a[0], 0
    while t.op == "init":
        n += 1
        t = t.a[0]
    if t.op in ("vset",) and t.a[1] is I(0):
        return (1, n)
    return None


# -- writing
def written(ctx):
    F = ctx.F
    for wr in W.writers(ctx):
        name = C.BLOCK.get(wr.short)
        for g, view in wr.views:
            if name:
                for part, word in ((view[0], "BEGIN"), (view[-1], "END")):
                    for l in part.lines:
                        txt = "".join(x.a[0] for x in l.value if x.op == "str")
                        ctx.ob("%s|%s" % (wr.short, word), l.name == word and txt == name and all(x.op == "str" for x in l.value),
                               "the block of a %s is written with %s:%s" % (name, l.name, txt or show(l.value[0], 0, 2)[:60]))
            for i, n, ty, k in wr.fields:
                if k != "sub":
                    continue
                key = "%s|%s written" % (wr.short, n)
                d = E.fld(mk("deref", wr.arg), i)
                parts = wr.parts_of(view, i)
                if len(parts) != 1:
                    ctx.ob(key, False, "%s is written in %d places" % (n, len(parts)))
                    continue
                p = parts[0]
                if p.lines or p.other:
                    x = p.lines[0].items[0] if p.lines else p.other[0][2]
                    ctx.undec(key, "text " + show(x, 0, 3)[:150])
                    continue
                et = F.types[ty]["args"][0]
                for h, loops, y in p.subs:
                    if len(loops) != 1 or loops[0][1] is not d:
                        ctx.ob(key, False, "not the whole list %s is written: %s" % (n, [show(l[1], 0, 3)[:80] for l in loops]))
                        continue
                    el = mk("elem", loops[0][0], loops[0][1])
                    ctx.ob(key, y is el or (y.op == "ref" and y.a[0] is el) or uses(y, el), "what is written for %s is %s" % (n, show(y, 0, 3)[:100]))
                for h, loops in p.empty:
                    if loops:
                        ctx.ob(key, False, "a nested component of %s may be left out: when %s" % (n, show(h, 0, 3)[:150]))


def run(ctx):
    n = 0
    for tx in C.texts(ctx):
        n += 1
        blocks(ctx, tx)
        if tx.fields:
            nested_fields(ctx, tx)
    try:
        alarm(ctx)
    except core.Undecided as e:
        ctx.undec("VAlarm", e)
    written(ctx)
