"""Text values cannot inject content lines.

A dataflow analysis over what every writer of a value returns (its text and its parameters), and over every line of
every component, computes which characters the text can't contain: escaping and replacing exclude characters, checks
that end in an error exclude them on the ways that go on, formats of numbers and dates never contain them. Carriage
return and line feed have to be excluded everywhere between the line ends that the writer itself puts."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
from checks.charset import Chars
import core

RULE = "no value or parameter is written with a raw CR or LF"
FLOOR = 150
TECHNIQUE = "dataflow analysis of the characters that written texts can contain"
SUFFIX = ("ser::Serialize>::ical", "ser::Serialize>::attr")


def is_name(x):
    """the name of a parameter or property: the key of a map"""
    return x.op == "fld" and x.a[1] == 0 and x.a[0].op in ("elem", "head")


def judge(ctx, key, cs, xs, facts=None):
    cs.raw, cs.unknown = [], []
    e = cs.all([x for x in xs], cs.facts if facts is None else facts)
    raw = [x for x in cs.raw if not is_name(x)]
    if {10, 13} <= e or not raw and not cs.unknown and all(is_name(x) for x in cs.raw) and cs.raw:
        ctx.ob(key, True)
    elif raw:
        ctx.ob(key, False, "a line break in %s is written as it is" % show(raw[0], 0, 3)[:120])
    elif cs.unknown:
        ctx.undec(key, show(cs.unknown[0], 0, 3)[:150])
    else:
        ctx.ob(key, False, "a line break is written")


def run(ctx):
    F = ctx.F
    judged = {}
    for i, f in enumerate(F.fns):
        if not f["path"].endswith(SUFFIX) or not f.get("body") or f.get("dk") == "Closure":
            continue
        t = F.types[f["ins"][0]]
        to = F.types[t["to"]] if t["k"] == "ref" else t
        if "::components::" in to["s"] or to["s"].startswith(("core::option", "Option")):
            continue
        judged[i] = f
        key = "%s of %s" % (f["path"].rsplit("::", 1)[1], to["s"].replace("ikal::", ""))
        try:
            r = ctx.run(i, key=("p16", i))
        except core.Undecided as e:
            ctx.undec(key, e)
            continue
        cs = Chars(r.loops)
        if r.value is None:
            continue
        res = results(F, r.value) if f["path"].endswith("ical") else [(g, {"some": "ok", "none": "err"}.get(k, k), p) for g, k, p in options(F, r.value)]
        for g, k, p in res:
            if k == "ok":
                judge(ctx, key, cs, [p], cs.facts + cs.lits_of(g))
            elif k == "?":
                ctx.undec(key, show(p, 0, 3)[:150])
    names = {f.get("name") or f["path"] for f in judged.values()} | {f["path"] for f in judged.values()}
    ids = {id(f) for f in judged.values()}
    for wr in W.writers(ctx, lambda g: id(g) in ids):
        cs = Chars(wr.r.loops)
        cs.judged = names
        for g, view in wr.views:
            for p in view:
                for l in p.lines:
                    key = "%s|%s" % (wr.short, ",".join(wr.fields[i][1] for i in p.fields) or l.name or "?")
                    st = E.assume(E.St(), AND([g, l.guard]))
                    if st is None:
                        continue
                    facts = cs.facts + cs.lits_of(AND(st.lits()))
                    judge(ctx, key, cs, list(l.attrs) + list(l.value), facts)
                    if l.name is not None:
                        ctx.ob(key + ": name", not set(l.name) & set("\r\n:;"), "the name is " + repr(l.name))
