"""Parameters of text and URI properties.

Reading: in the line parser, one round of the loop over the parameters is evaluated on the shapes ;NAME=value and
;NAME="value" (name and value being runs of unknown characters): it has to add exactly that name with exactly that value
to the map and to go on right after; every reader of a text or URI property gives each text or URI it makes the map of
its line, and gets the line as it was parsed.
Writing: the text of the parameters is one NAME=value per entry, joined by ';', the value between quotes in every case
where it contains a separator; every line of a text or URI property, and of an X- or IANA property, has ';' and that
text between its name and the colon whenever there is one."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
from checks import comptext as C
from checks.scen import Shape, Tok, Scenario, ALL
import core

RULE = "each parameter of a line is in the map of the property read from it, and each entry of that map is written on its line"
TECHNIQUE = "abstract evaluation of the parameter loop on token shapes, and dataflow of the parameter map through readers and writers"
FLOOR = 100
CL = "ikal::content_line::ContentLine"
TYPES = ("ikal::properties::text::Text", "ikal::properties::uri::Uri")
ICAL, ATTR = "as ikal::ser::Serialize>::ical", "as ikal::ser::Serialize>::attr"
SEP = ":;,"
NAME = frozenset(map(ord, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"))
PLAIN = ALL - frozenset(map(ord, "\";:\r\n"))
QUOTED = ALL - frozenset(map(ord, "\"\r\n"))


# -- reading: the text of the parameters
def shapes():
    k, r = Tok("NAME", NAME), Tok("more", ALL)
    for end in (":", ";"):
        yield "plain " + end, [";", k, "=", Tok("value", PLAIN), end, r], (3, 4)
        yield "empty " + end, [";", k, "=", end, r], (3, 3)
        yield "quoted " + end, [";", k, "=", '"', Tok("value", QUOTED), '"', end, r], (4, 5)
        for c in ", =":
            yield "plain with %r %s" % (c, end), [";", k, "=", Tok("value", PLAIN - {ord(c)}), c, Tok("part", PLAIN), end, r], (3, 6)
        for c in ":;, ":
            yield "quoted with %r %s" % (c, end), [";", k, "=", '"', Tok("value", QUOTED - {ord(c)}), c, Tok("part", QUOTED), '"', end, r], (4, 7)
        yield "quoted empty " + end, [";", k, "=", '"', '"', end, r], (4, 4)


def parameters(ctx):
    F = ctx.F
    n = 0
    for i, f, ty in C.nom_parsers(F):
        if F.types[ty].get("path") != CL:
            continue
        n += 1
        r = ctx.run(i)
        names = field_names(F, C.line_type(F))
        for g, k, p in results(F, r.value):
            if k != "ok" or p.op != "tuple" or path_of(F, p.a[1]) != CL:
                continue
            loop(ctx, f["path"].split("::")[-1], r, p.a[1].a[2 + names.index("params")])
    if not n:
        ctx.undec("parameters", "the parser of content lines was not found")


def loop(ctx, name, r, params):
    key = "read|" + name
    if params.op in ("mempty", "vec") and not params.a:
        ctx.ob(key, False, "no parameter is kept")
        return
    rec = r.loops.get(params.a[0]) if params.op == "lv" else None
    if rec is None or params not in rec["nexts"] or "back" not in rec:
        ctx.undec(key, "parameters " + show(params, 0, 2)[:120])
        return
    rests = [u for u in rec["nexts"] if u is not params and (u.a[-2][-1] == "rest" if isinstance(u.a[-2], tuple) else False)]
    if len(rests) != 1:
        ctx.undec(key, "%d texts in the loop" % len(rests))
        return
    rest = rests[0]
    back = AND(R.own_facts(rec["back"], rec["base"]) if "base" in rec else rec["back"].lits())
    ctx.ob(key + " start", rec["init"].get(params) is not None and rec["init"][params].op == "mempty", "the parameters do not start empty")
    for what, toks, at in shapes():
        k = "%s %s" % (key, what)
        sh = Shape(rest, toks)
        h = sh.scen.holds(back)
        text = "".join(t if isinstance(t, str) else t.name for t in toks)
        if h is None:
            ctx.undec(k, "whether %s is read" % text)
            continue
        if not h:
            ctx.ob(k, False, "a parameter as in %s is not read" % text)
            continue
        x = sh.scen.pick(rec["nexts"][params])
        lost = [g for g, y in alts(x) if y is params and g is not TRUE and E.assume(rec["back"], g) is not None and own_guard(g, rest)]
        if x.op == "phi" and lost:
            ctx.ob(k, False, "a parameter as in %s is dropped: when %s" % (text, show(lost[0], 0, 3)[:120]))
            continue
        if x.op == "phi":
            ctx.undec(k, "map " + show(x, 0, 2)[:120])
            continue
        if x.op != "minsert" or x.a[0] is not params:
            ctx.ob(k, False, "a parameter as in %s is not added: %s" % (text, show(x, 0, 2)[:120]))
            continue
        kr, vr = sh.rng(x.a[1]), (at[0], at[0]) if x.a[2] is S("") else sh.rng(x.a[2])
        nr = sh.rng(rec["nexts"][rest])
        if kr is None or vr is None or nr is None:
            bad = [t for t, a in ((x.a[1], kr), (x.a[2], vr), (rec["nexts"][rest], nr)) if a is None]
            y = sh.scen.pick(bad[0])
            c = changed(y)
            if c is not None:
                ctx.ob(k, False, "a part of %s is changed: %s" % (text, c))
            else:
                ctx.undec(k, "part " + show(y, 0, 3)[:120])
            continue
        part = lambda a: "".join(t if isinstance(t, str) else t.name for t in toks[a[0]:a[1]])
        ok = kr == (1, 2) and (vr == at or vr[0] == vr[1] and at[0] == at[1])
        ctx.ob(k, ok, "of %s, %r is kept under %r" % (text, part(vr), part(kr)))
        want = len(toks) - 2
        ctx.ob(k + " rest", nr[0] == want and nr[1] == len(toks), "after the parameter of %s the reading goes on at %r" % (text, part(nr)))
    sh = Shape(rest, [":", Tok("more", ALL)])
    h = sh.scen.holds(back)
    if h is not None:
        ctx.ob(key + " end", not h, "a parameter is read after the colon")


def own_guard(g, rest):
    """g compares parts of the text with constants"""
    return all(l.op == "lit" and isinstance(l.a[2], (str, int)) and l.a[0].op in ("span", "spanrest", "strip") and has(l.a[0], lambda z: z is rest) for l in literals(g))


def changed(y):
    for t in subterms(y):
        if t.op in ("replace", "upper", "lower") or t.op == "call" and t.a[0] in ("to_uppercase", "to_lowercase", "trim_matches"):
            return show(t, 0, 2)[:100]
    return None


# -- reading: the properties
def holds_text(F, ty, d=0):
    t = F.types[ty]
    return t.get("path") in TYPES or d < 4 and any(holds_text(F, a, d + 1) for a in t.get("args") or () if isinstance(a, int))


def properties(ctx):
    F = ctx.F
    n = 0
    for i, f in enumerate(F.fns):
        if not R.is_line_parser(F, f) or f.get("trait"):
            continue
        t = F.types[f["out"]]["args"][0]
        if not holds_text(F, t):
            continue
        n += 1
        key = "property|" + f["path"].split("::")[-1]
        try:
            r = ctx.run(i)
        except core.Undecided as e:
            ctx.undec(key, e)
            continue
        a = core.arg(F, 0, f["body"]["locals"][1])
        if F.types[f["ins"][0]]["k"] == "ref":
            a = mk("deref", a)
        own = E.fld(a, field_index(F, strip_ref(F, f["ins"][0]), "params"))
        seen = 0
        for g, k, p in results(F, r.value):
            if k == "err":
                continue
            for x in subterms(p):
                if x.op == "adt" and F.types[x.a[0]].get("path") in TYPES:
                    seen += 1
                    ps = x.a[2 + field_index(F, x.a[0], "params")]
                    for h, y in alts(ps, g):
                        if y is own:
                            ctx.ob(key, True)
                        elif y.op in ("mempty", "vec") or y.op.startswith("m") and has(y, lambda z: z is own) or not has(y, lambda z: z is own):
                            if feasible(E.St(), h) is True:
                                ctx.ob(key, False, "the parameters of the line are not those of the property but " + show(y, 0, 2)[:100])
                        else:
                            ctx.undec(key, "parameters " + show(y, 0, 3)[:120])
        if not seen:
            ctx.undec(key, "no text or URI in the result")
    if n < 20:
        ctx.undec("properties", "only %d readers found" % n)


def handed(ctx):
    """a component hands the line over as it is"""
    F = ctx.F
    for rd in R.readers(ctx):
        names = {F.fns[j]["name"] for j in range(len(F.fns)) if R.is_line_parser(F, F.fns[j])}
        par = {}
        for i, fname, ty, k in rd.fields:
            if k not in ("option", "list", "plain") or not holds_text(F, ty):
                continue
            key = "%s|%s" % (rd.short, R.rfc_name(fname))
            if k == "plain":
                xs = [x for t in rd.final(i) for _, x in alts(t)]
            else:
                st, ch = rd.under_name(E.cond(rd.key, R.rfc_name(fname)))
                if st is None or i not in ch:
                    continue        # P09
                xs = [x for _, x in ch[i][1]]
            for c in [c for x in xs for c in calls(x) if c.a[0] in names]:
                l = c.a[1]
                p = E.fld(l, rd.k_par)
                src = l
                while src.op == "ref":
                    src = src.a[0]
                ok = l.op in ("elem", "lv", "head", "fld", "vfld", "sym", "deref") or l.op == "adt" and p.op == "fld" and p.a[1] == rd.k_par
                if ok:
                    ctx.ob(key, True)
                elif l.op == "adt":
                    ctx.ob(key, False, "the line is read with parameters " + show(p, 0, 2)[:100])
                else:
                    ctx.undec(key, "line " + show(l, 0, 2)[:100])


# -- writing: the text of the parameters
def quoted(ctx, key, e, v, loops):
    """v is the text of the entry e: NAME=value"""
    elems = {}
    for rec in loops.values():
        elems.update(rec.get("elem") or {})
    items = W.flat(v)
    k, val = E.fld(e, 0), E.fld(e, 1)
    if len(items) < 3 or items[0] is not k or W.const(items[1]) != "=" and not (W.const(items[1]) or "").startswith("="):
        if items and items[0] is not k and (W.const(items[0]) is not None or uses(items[0], val) or changed(items[0])):
            ctx.ob(key + " name", False, "a parameter is written as " + show(v, 0, 3)[:150])
        else:
            ctx.undec(key, "entry " + show(v, 0, 3)[:150])
        return
    ctx.ob(key + " name", True)
    c = W.const(items[1])[1:]
    text = cat(([S(c)] if c else []) + items[2:])
    bases = {t.a[1] for t in subterms(text) if t.op == "call" and t.a[0] == "contains"}
    for what in ["nothing"] + list(SEP):
        odd = []

        def answer(s):
            if s.op == "isempty" and s.a[0].op == "lv" and what != "nothing":
                # a search through the characters of the value
                lv = s.a[0]
                rec = loops.get(lv.a[0])
                if rec and "back" in rec and lv in rec["init"] and rec["nexts"].get(lv) is mk("tail", lv):
                    i = E.subst(rec["init"][lv], elems)
                    y = strip(i.a[0]) if i.op in ("chars", "bytes") else i
                    if (y is val or y.op == "fld" and y.a[1] == 1 and y.a[0].op in ("elem", "head")) and E.ev(rec["back"], E.cond(mk("head", lv), ord(what))) is FALSE:
                        return 0
            if s.op == "call" and s.a[0] == "contains" and len(s.a) == 3 and strip(s.a[1]) is val:
                p = s.a[2]
                cs = {chr(x) for x in p.a[0]} if p.op == "cset" else {p.a[0]} if p.op == "str" and len(p.a[0]) == 1 else None
                if cs is not None:
                    return int(what in cs)
            return None
        sc = Scenario(answer)
        for _, x in alts(sc.pick(text)):
            fl = W.flat(x)
            q = len(fl) == 3 and W.const(fl[0]) == '"' and W.const(fl[2]) == '"'
            body = fl[1] if q else fl[0] if len(fl) == 1 else None
            b = None if body is None else strip(body)
            unsure = [l for g, y in alts(sc.pick(text)) for l in subterms(g) if l.op == "lit" and has(l.a[0], lambda z: z is val or z.op == "lv")]
            if b is val:
                if q or what == "nothing":
                    ctx.ob("%s value with %s" % (key, what), True)
                elif unsure:
                    ctx.undec("%s value with %s" % (key, what), "guard " + show(unsure[0].a[0], 0, 3)[:120])
                else:
                    ctx.ob("%s value with %s" % (key, what), False, "a value that contains %r is written without quotes" % what)
            elif not has(x, lambda z: z is val) and has(x, lambda z: z.op in ("lv", "rep")):
                ctx.undec("%s value with %s" % (key, what), "value " + show(x, 0, 3)[:120])
            elif body is None or not has(x, lambda z: z is val) or changed(body):
                ctx.ob("%s value with %s" % (key, what), False, "a parameter's value is written as " + show(x, 0, 3)[:150])
            else:
                ctx.undec("%s value with %s" % (key, what), "value " + show(x, 0, 3)[:120])


def strip(x):
    """x without the removal of characters that can't be written (line breaks and quotes)"""
    while x.op == "replace" and x.a[2] is S(""):
        p = x.a[1]
        cs = set(p.a[0]) if p.op == "cset" else set(map(ord, p.a[0])) if p.op == "str" and len(p.a[0]) == 1 else None
        if cs is None or not cs <= set(range(32)) | {34, 127}:
            return x
        x = x.a[0]
    return x


def attributes(ctx):
    F = ctx.F
    for name in TYPES + (CL,):
        key = "write|" + name.split("::")[-1]
        ids = ctx.impl("ikal::ser::Serialize::attr", name)
        if not ids:
            ctx.ob(key, False, "no parameter of it is ever written")
            continue
        try:
            r = ctx.run(ids[0])
        except core.Undecided as e:
            ctx.undec(key, e)
            continue
        d = mk("deref", core.arg(F, 0, F.fns[ids[0]]["body"]["locals"][1]))
        m = E.fld(d, field_index(F, adt_type(F, name), "params"))
        ents = mk("entries", m)
        st0 = E.St()
        for v, full in ((TRUE, False), (FALSE, True)):
            facts = [E.cond(mk("isempty", m), int(not full)), E.cond(mk("isempty", ents), int(not full))]
            ln = mk("len", m)
            facts.append(E.cond(ln, 0) if not full else NOT(E.cond(ln, 0)))
            st = st0.copy()
            for f in facts:
                st = E.assume(st, f)
            for g, k, p in options(F, E.restrict(st, r.value)):
                s2 = E.assume(st, g)
                if s2 is None or feasible(s2) is False:
                    continue
                if not full:
                    ctx.ob(key + " none", k == "none" or k == "some" and W.flat(p) == [], "without parameters, %s is written" % show(p, 0, 2)[:80])
                    continue
                if k == "none":
                    own = [l for l in subterms(g) if l.op == "lit" and l.a[0] not in (ln, mk("isempty", m))]
                    ctx.ob(key, False, "parameters are not written" + (": when " + show(g, 0, 3)[:120] if own else ""))
                    continue
                if k != "some":
                    ctx.undec(key, show(p, 0, 2)[:100])
                    continue
                for _, x in alts(E.restrict(s2, p)):
                    entries(ctx, key, ents, x, r.loops)


def entries(ctx, key, ents, x, loops):
    """x is the texts of all entries, joined by ';'"""
    if x.op == "join" and x.a[1] is ents:
        if W.const(x.a[3]) != ";":
            return ctx.ob(key + " separator", False, "parameters are separated by %s" % show(x.a[3]))
        return quoted(ctx, key, mk("elem", x.a[0], ents), x.a[2], loops)
    if x.op == "joinseq" and x.a[0].op == "vec":
        parts = x.a[0].a
        one = [p.a[0] for p in parts if p.op == "one"]
        every = [p.a[0] for p in parts if p.op == "all" and p.a[0].op == "rep"]
        seqs = [p.a[1] for p in every]
        if len(one) + len(every) == len(parts) and (not one and seqs == [ents] or len(one) == 1 and parts[0].op == "one" and seqs == [mk("tail", ents)]):
            ctx.ob(key + " separator", W.const(x.a[1]) == ";", "parameters are separated by %s" % show(x.a[1]))
            for o in one:
                quoted(ctx, key, mk("head", ents), o, loops)
            body = every[0].a[2]
            if body.op == "vec" and len(body.a) == 1 and body.a[0].op == "one":
                body = body.a[0].a[0]
            quoted(ctx, key, mk("elem", every[0].a[0], seqs[0]), body, loops)
            return
    fl = W.flat(x)
    tail = mk("tail", ents)
    last = fl[-1] if fl else None
    if last is not None and last.op == "phi":
        ys = [y for _, y in alts(last) if W.flat(y)]
        joins = [W.flat(y) for y in ys]
        if len(joins) == 1 and len(joins[0]) == 2 and joins[0][1].op == "join" and joins[0][1].a[1] is tail:
            j = joins[0][1]
            ctx.ob(key + " separator", W.const(joins[0][0]) == ";" and W.const(j.a[3]) == ";", "parameters are separated by %s" % show(j.a[3]))
            quoted(ctx, key, mk("head", ents), cat(fl[:-1]), loops)
            quoted(ctx, key, mk("elem", j.a[0], tail), j.a[2], loops)
            return
    cut = [t for t in subterms(x) if t.op in ("skip", "take", "before", "filter")]
    for t in subterms(x):
        if t.op == "rep" and t.a[1] in (ents, tail):
            e = mk("elem", t.a[0], t.a[1])
            for g, y in alts(t.a[2]):
                if not W.flat(y) and feasible(E.St(), g) and g is not TRUE and all(has(l.a[0], lambda z: z is e) for l in literals(g)):
                    ctx.ob(key, False, "a parameter is not written: when " + show(g, 0, 3)[:120])
                    return
    if cut or not has(x, lambda t: t is ents):
        ctx.ob(key, False, "not all parameters are written: " + show(x, 0, 3)[:150])
    else:
        ctx.undec(key, "text " + show(x, 0, 3)[:150])


# -- writing: the lines
def lines(ctx):
    F = ctx.F
    ids = set()
    for f in F.fns:
        if f["path"].endswith(("ser::Serialize>::ical", "ser::Serialize>::attr")) and f.get("body") and f.get("dk") != "Closure":
            t = F.types[f["ins"][0]]
            to = F.types[t["to"]] if t["k"] == "ref" else t
            if "::components::" not in to["s"] and not to["s"].startswith(("core::option", "Option")):
                ids.add(id(f))
    for wr in W.writers(ctx, lambda g: id(g) in ids):
        maps = [i for i, n, ty, k in wr.fields if k == "map"]
        want = {i for i, n, ty, k in wr.fields if k == "map" or k in ("option", "list", "plain") and holds_text(F, ty)}
        for g, view in wr.views:
            for p in view:
                fs = [i for i in p.fields if i in want]
                if len(fs) != 1:
                    if fs and p.lines:
                        ctx.undec(wr.short, "a line of %s" % [wr.fields[i][1] for i in p.fields])
                    continue
                key = "%s|%s" % (wr.short, wr.fields[fs[0]][1])
                for l in p.lines:
                    line(ctx, key, wr, l, AND([g, l.guard]))


def line(ctx, key, wr, l, g):
    F = ctx.F
    vs = [c for v in l.value for c in calls(v) if c.a[0].endswith(ICAL)]
    if not vs:
        ctx.undec(key, "value " + show(cat(l.value), 0, 2)[:100])
        return
    v, x = vs[0], vs[0].a[-1]
    st = E.assume(E.St(), g)
    if st is None:
        return
    if v.a[0].startswith("<alloc::vec::Vec"):
        # one line for several values: none of them has parameters
        anys = [t for t in subterms(g) if t.op == "call" and t.a[0] == "any" and t.a[1] is x]
        attr = [t for t in anys if has(t.a[2], lambda z: z.op == "call" and z.a[0].endswith(ATTR))]
        if attr:
            ctx.ob(key + " joined", any(E.assume(st, E.cond(t, 1)) is None for t in attr),
                   "values with parameters are written on one line, without them")
        elif anys:
            ctx.undec(key + " joined", "guard " + show(anys[0], 0, 3)[:120])
        else:
            ctx.ob(key + " joined", False, "values are written on one line, without their parameters")
        return
    an = v.a[0].replace("::ical", "::attr")
    at = [t for a in l.attrs for t in calls(a) if t.a[0] == an and t.a[-1] is x]
    if not at:
        ctx.ob(key, False, "its lines have no parameters" if not l.attrs else "its parameters are " + show(cat(l.attrs), 0, 2)[:100])
        return
    a = at[0]
    st1 = E.assume(st, E.cond(E.discr_of(a), 1))
    st0 = E.assume(st, E.cond(E.discr_of(a), 0))
    text = mk("vfld", a, 1, 0)
    if st1 is None:
        ctx.ob(key, False, "its lines have no parameters")
        return
    for h, y in live(st1, cat(l.attrs)):
        fl = W.flat(y)
        ok = len(fl) == 2 and W.const(fl[0]) == ";" and fl[1] is text
        if ok or not feasible(st1, h) is False:
            ctx.ob(key, ok, "parameters are written as %s" % show(y, 0, 3)[:120])
    if st0 is not None:
        for h, y in live(st0, cat(l.attrs)):
            ctx.ob(key + " none", not W.flat(y), "without parameters, %s is written before the colon" % show(y, 0, 2)[:80])


def run(ctx):
    for part in (parameters, properties, handed, attributes, lines):
        try:
            part(ctx)
        except core.Undecided as e:
            ctx.undec(part.__name__, e)
