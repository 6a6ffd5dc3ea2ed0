"""Each property is read and written under the same RFC 5545 name.

Reading: for every component and every property field the transition of the loop over the content lines is
restricted to `key = RFC name of the field`; exactly that field changes. A mandatory field is made from lines
whose key was compared with that name only. Every name the reader knows is the RFC name of one of its fields.
Writing: the text the writer emits for a field starts with that name."""
import engine as E
from checks.util import *
from checks import compread as R
from checks import compwrite as W
import core

RULE = "a line NAME changes exactly the field of RFC name NAME, and that field is written as NAME"
FLOOR = 200


def reading(ctx, rd):
    names = {R.rfc_name(f[1]): f for f in rd.fields if f[3] not in ("sub", "map")}
    for n, (i, fname, ty, k) in sorted(names.items()):
        key = "%s|reads %s" % (rd.short, n)
        st, ch = rd.under_name(E.cond(rd.key, n))
        if st is None:
            ctx.ob(key, False, "no line %s is ever accepted" % n)
            continue
        changed = sorted(rd.fields[j][1] for j in ch)
        if k == "plain":
            ctx.ob(key, changed == [] or changed == [fname], "a line %s changes %s" % (n, changed))
            if i in rd.field_lv:
                continue
            for _, p in rd.oks:
                t = p.a[2 + i]
                sel = rd.selecting_names(t)
                if not sel:
                    ctx.undec(key, "the lines %s is made from are not selected by name" % fname)
                else:
                    ctx.ob("%s|source of %s" % (rd.short, fname), sel == {n}, "%s is made from lines named %s" % (fname, sorted(sel)))
        else:
            ctx.ob(key, changed == [fname], "a line %s changes %s instead of %s" % (n, changed or "nothing", fname))
    for n in sorted(rd.compared() - set(names) - {""}):
        ctx.ob("%s|knows %s" % (rd.short, n), False, "lines named %s are treated as %s" % (
            n, sorted(rd.fields[j][1] for j in rd.under_name(E.cond(rd.key, n))[1])))


def run(ctx):
    for rd in R.readers(ctx):
        reading(ctx, rd)
    for wr in W.writers(ctx):
        for f, got in wr.names():
            n = R.rfc_name(f[1])
            key = "%s|writes %s" % (wr.short, f[1])
            if got is None:
                ctx.undec(key, "no line found")
                continue
            ctx.ob(key, got == {n}, "%s is written under %s" % (f[1], sorted(got)))
