"""Every property of a component is written.

In the text `<Component as Serialize>::ical` returns, between its BEGIN and END lines: every field has a place,
and only one; a plain or present optional field whose own text is not empty always yields a line containing it;
a list yields one line (or, joined with commas, one entry) per element, over the whole list; each X- and IANA
property yields a line starting with its own name and containing its own value; nested components are written as
a whole (their text is judged in P11)."""
import engine as E
from checks.util import *
from checks import compwrite as W
from checks import compread as R

RULE = "each field is written exactly once, unless it is absent or its text is empty; lists and maps element by element"
FLOOR = 140


def nonempty_texts(part):
    """facts: every text the writer writes and compares with '' is not empty"""
    written = set()
    for l in part.lines:
        for x in l.value:
            written |= set(subterms(x))
    out = []
    for t, c in compared_strings(part.term).items():
        if "" in c and t in written:
            out.append(NOT(E.cond(t, "")))
    for t in subterms(part.term):
        if t.op == "lit" and t.a[0].op == "slen" and t.a[0].a[0] in written \
                and 0 in ([t.a[2]] if t.a[1] == "=" else t.a[2]):
            out.append(NOT(E.cond(t.a[0], 0)))
    return out


def present(wr, f, part, st):
    """st with the field present and its texts not empty"""
    d = E.fld(mk("deref", wr.arg), f[0])
    if f[3] == "option":
        st = E.assume(st, E.cond(E.discr_of(d), 1))
    elif f[3] in ("list", "map", "sub"):
        e = E.seq_empty(d)
        st = E.assume(st, NOT(e))
    for x in nonempty_texts(part):
        if st is None:
            return None
        s2 = E.assume(st, x)
        if s2 is None:
            return None
        st = s2
    return st


def item_parts(l):
    return list(l.value)


def loops_over(wr, l, seq):
    return [lp for lp in l if lp[1] is seq]


def field(ctx, wr, g0, view, f):
    i, n, ty, k = f
    key = "%s|%s" % (wr.short, n)
    d = E.fld(mk("deref", wr.arg), i)
    parts = wr.parts_of(view, i)
    if not parts:
        ctx.ob(key, False, "%s is never written" % n)
        return
    if len(parts) > 1:
        ctx.ob(key, False, "%s is written in %d places" % (n, len(parts)))
        return
    p = parts[0]
    if len(p.fields) != 1:
        ctx.ob(key, False, "%s is written together with %s" % (n, [wr.fields[j][1] for j in p.fields if j != i]))
        return
    st = E.assume(E.St(), g0)
    st = present(wr, f, p, st) if st is not None else None
    if st is None:
        ctx.undec(key, "no state in which %s is present" % n)
        return
    for g, loops in p.empty:
        if feasible(st, g) is True:
            ctx.ob(key, False, "%s may be left out although it is present: when %s" % (n, show(E.restrict_f(st, g) if hasattr(E, "restrict_f") else g, 0, 4)[:250]))
            return
    if p.other:
        ctx.undec(key, "text of an unknown shape: " + show(p.other[0][2], 0, 3)[:150])
        return
    seq = {"list": d, "sub": d, "map": mk("entries", d)}.get(k)
    for g, loops, x in p.subs:
        if not one_loop(ctx, key, n, loops, seq):
            return
        el = mk("elem", loops[0][0], loops[0][1])
        if x is not el and not (x.op == "ref") and not uses(x, el):
            ctx.ob(key, False, "the element of %s is not what is written" % n)
            return
    for l in p.lines:
        if feasible(st, l.guard) is False:
            continue
        vals = l.value
        if seq is None:
            if l.loops:
                ctx.undec(key, "a single value is written in a loop")
                return
            own = d if k == "plain" else None
            if not any(uses(x, d) for x in vals):
                # a constant text chosen by the value
                if not chosen(wr, l, vals, d):
                    ctx.ob(key, False, "the text written for %s does not contain it: %s" % (n, [show(x, 0, 2)[:60] for x in vals]))
                    return
        elif l.loops:
            if not one_loop(ctx, key, n, l.loops, seq):
                return
            el = mk("elem", l.loops[0][0], l.loops[0][1])
            if k == "map":
                if l.name is not None or l.head is not E.fld(el, 0):
                    ctx.ob(key, False, "a property of %s is written under %s, not under its own name" % (n, l.name or show(l.head, 0, 3)[:80]))
                    return
                if not any(uses(x, E.fld(el, 1)) for x in vals):
                    ctx.ob(key, False, "a property of %s is written without its value" % n)
                    return
            elif not any(uses(x, el) for x in vals) and not chosen(wr, l, vals, el):
                ctx.ob(key, False, "a line of %s does not contain its element" % n)
                return
        else:
            js = [x for x in vals if x.op in ("join", "joinseq")]
            if len(js) != 1:
                if not any(uses(x, d) for x in vals):
                    ctx.ob(key, False, "the text written for %s does not contain it" % n)
                else:
                    ctx.undec(key, "list text of an unknown shape " + show(vals[0], 0, 3)[:100])
                return
            if not joined(ctx, key, n, js[0], seq):
                return
    ctx.ob(key, True)


def chosen(wr, l, vals, d):
    """the constant texts depend on the value through their guards"""
    return any(x.op == "phi" and uses(x, d) for x in vals) or uses(l.guard, E.discr_of(d))


def one_loop(ctx, key, n, loops, seq):
    if len(loops) != 1:
        ctx.undec(key, "%d nested loops" % len(loops))
        return False
    if loops[0][1] is not seq:
        if tampering(loops[0][1]) or uses(loops[0][1], seq.a[0] if seq.op == "entries" else seq):
            ctx.ob(key, False, "%s is not written as a whole: the loop runs over %s" % (n, show(loops[0][1], 0, 3)[:150]))
        else:
            ctx.undec(key, "loop over " + show(loops[0][1], 0, 3)[:150])
        return False
    return True


def joined(ctx, key, n, j, seq):
    """entries joined with a separator, over the whole list"""
    if j.op == "join":
        lp, s, body, sep = j.a[0], j.a[1], j.a[2], j.a[3]
        if s is not seq:
            ctx.ob(key, False, "%s is not written as a whole: entries of %s" % (n, show(s, 0, 3)[:150]))
            return False
        el = mk("elem", lp, s)
        if not uses(body, el):
            ctx.ob(key, False, "an entry of %s does not contain its element" % n)
            return False
        if sep is not S(","):
            ctx.ob(key, False, "the entries of %s are separated by %s" % (n, show(sep)))
            return False
        return True
    ctx.undec(key, "joined " + show(j, 0, 3)[:150])
    return False


def run(ctx):
    for wr in W.writers(ctx):
        for g, view in wr.views:
            inner = [p for p in view if p.fields]
            if len(view) < 2 or view[0].fields or view[-1].fields:
                ctx.ob("%s|block" % wr.short, False, "the first or last line depends on a property")
            else:
                nb = [l.name for l in view[0].lines] + [l.name for l in view[-1].lines]
                stray = [p for p in view[1:-1] if not p.fields]
                ctx.ob("%s|block" % wr.short, nb == ["BEGIN", "END"] and not stray,
                       "the text is not BEGIN, properties, END: %s" % (nb + [show(p.term, 0, 2)[:60] for p in stray]))
            for f in wr.fields:
                field(ctx, wr, g, view, f)
