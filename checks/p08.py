"""Mandatory properties are enforced.

For every plain (non-optional) field of a component: in every successful result of the reader the value of the
field is computed from a content line of the input, that line was selected because its key equals the RFC 5545
name of the field (and no other), and the result is reached only when such a line was found."""
import engine as E
from checks.util import *
from checks import compread as R

RULE = "every successful result takes a plain field from a line found under its name; no other source reaches it"
FLOOR = 40


def line_sources(rd, t):
    """sub-terms of t that stand for a line of the input: variables and elements of a loop over it"""
    out = set()
    for x in subterms(t):
        if x.op in ("lv", "elem", "head", "sub", "nth") and x.a and x.a[0] in rd.r.loops or x is rd.arg:
            out.add(x)
        elif x.op in ("elem", "head", "tail", "nth") and uses(x, rd.arg):
            out.add(x)
    return out


def none_default(rd, lv):
    """a selection variable starts with no line"""
    rec = rd.r.loops.get(lv.a[0])
    if rec is None or lv not in rec["init"]:
        return None
    init = rec["init"][lv]
    bad = [x for x in leaves(init) if path_of(rd.F, x) == OPTION and x.a[1] == 1]
    return not bad


def prefix_tests(rd, t):
    """a test weaker than equality is all that selects the line"""
    for rec in rd.loops_of(t).values():
        fs = list(rec["next"].values()) + [f for _, s in rec["exits"] for f in R.own_facts(s, rec["base"])]
        for f in fs:
            for x in subterms(f):
                if x.op == "call" and x.a[0] in ("starts_with", "ends_with", "contains") and len(x.a) == 3 and x.a[2].op == "str" and R.is_key(x.a[1], rd.k_key):
                    return "%s %r" % (x.a[0], x.a[2].a[0])
    return None


def run(ctx):
    for rd in R.readers(ctx):
        for i, n, ty, k in rd.fields:
            if k != "plain":
                continue
            name = R.rfc_name(n)
            key = "%s|%s" % (rd.short, name)
            for g, p in rd.oks:
                t = p.a[2 + i]
                if t.op == "lv" and rd.main["next"].get(t) is t:
                    t = rd.main["init"][t]
                st = E.assume(E.St(), g)
                if st is None:
                    continue
                bad, sel, checked = [], set(), 0
                for h, x in live(st, t):
                    src = line_sources(rd, x)
                    if not src:
                        bad.append("it can be %s whatever the lines are" % show(x, 0, 3)[:120])
                        continue
                    s = rd.selecting_names(x)
                    sel |= s or set()
                    for u in subterms(x):
                        # payload of the option that holds the selected line
                        if u.op == "vfld" and u.a[0].op == "lv" and u.a[0].a[0] in rd.r.loops:
                            checked += 1
                            f = E.cond(E.discr_of(u.a[0]), u.a[1])
                            if E.ev(E.assume(st, h), f) is not TRUE:
                                bad.append("the result does not require that a line was found")
                            if none_default(rd, u.a[0]) is False:
                                bad.append("the search starts from a line that is not part of the input")
                if bad:
                    ctx.ob(key, False, "%s: %s" % (n, bad[0]))
                elif not sel and prefix_tests(rd, t):
                    ctx.ob(key, False, "%s comes from any line whose name %s" % (n, prefix_tests(rd, t)))
                elif not sel:
                    ctx.undec(key, "no selection by name found")
                else:
                    ctx.ob(key, sel == {name}, "%s comes from lines named %s" % (n, sorted(sel)))
                    ctx.ob(key + "|found", True)
