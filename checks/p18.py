"""The textual constructors of a type.

For every public type, all of its FromStr, TryFrom<&str>, TryFrom<String>, From<&str> and From<String> implementations are
analysed on the same symbolic text. Their results must be the same guarded value: either term for term, or each one is
FromStr applied to that very text, or under every jointly possible pair of guards the values coincide."""
import engine as E
import policy
from checks.util import *
import core

RULE = "FromStr, TryFrom and From of a type give the same result for the same text"
FLOOR = 35
TRAITS = {"core::str::traits::FromStr::from_str": "FromStr", "core::convert::TryFrom::try_from": "TryFrom", "core::convert::From::from": "From"}


def constructors(F):
    out = {}
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("trait") not in TRAITS or len(f["ins"]) != 1 or f.get("self_ty") is None:
            continue
        t = F.types[f["ins"][0]]
        s = "&str" if t["k"] == "ref" and F.types[t["to"]]["k"] == "str" else "String" if t.get("path") == "alloc::string::String" else None
        if s is not None and F.types[f["self_ty"]].get("path", "").startswith("ikal::"):
            out.setdefault(f["self_ty"], []).append((i, TRAITS[f["trait"]] + "<" + s + ">" if TRAITS[f["trait"]] != "FromStr" else "FromStr"))
    return out


def run(ctx):
    F = ctx.F
    text = mk("sym", "text")
    for ty, fs in sorted(constructors(F).items()):
        name = F.types[ty]["path"].rsplit("::", 1)[1]
        fs.sort(key=lambda x: x[1])
        ref = fs[0]
        if len(fs) == 1:
            ctx.ob("%s %s" % (name, ref[1]), True)
            continue
        for i, kind in fs[1:]:
            key = "%s %s" % (name, kind)
            try:
                verdict, why = agree(ctx, F, ref[0], i, text)
            except core.Undecided as e:
                ctx.undec(key, e)
                continue
            if verdict is None:
                ctx.undec(key, why)
            else:
                ctx.ob(key, verdict, "differs from %s: %s" % (ref[1], why))


def agree(ctx, F, ref, i, text):
    path = F.fns[ref]["path"]
    base = policy.modular(F, i)
    d = ctx.run(i, [text], opaque=lambda f: f["path"] == path or base(f), key=("by", i)).value
    direct = d.op == "call" and d.a[0] == path
    if direct and d.a[1] is text:
        return True, ""
    if has(d, lambda t: t.op == "call" and t.a[0] == path):
        ts = {t.a[1].id: t.a[1] for t in calls(d, path)}
        if direct or all(x is not text for x in ts.values()):
            return False, "it reads " + show(list(ts.values())[0], 0, 3)[:120]
    # both may hand the text to the same internal reader
    shut = lambda f: f["krate"] == "ikal" and f["path"].startswith("ikal::parser::") and len(f.get("ins") or ()) == 1 and "{closure" not in f["path"]
    a = ctx.run(ref, [text], opaque=shut, key=("shut", ref)).value
    b = ctx.run(i, [text], opaque=shut, key=("shut", i)).value
    if equal(F, a, b)[0]:
        return True, ""
    a = ctx.run(ref, [text], key=("own", ref)).value
    b = ctx.run(i, [text], key=("own", i)).value
    return equal(F, a, b)


def equal(F, a, b):
    if a is b:
        return True, ""
    if a is None or b is None:
        return False, "one of them never returns"
    unsure = None
    if has(a, lambda t: t.op == "lv") and has(b, lambda t: t.op == "lv"):
        return None, "loops are not compared"
    for g, x in alts(a):
        for h, y in alts(b):
            if x is y:
                continue
            s = E.assume(E.St(), g)
            if s is None or feasible(s, h) is False:
                continue
            s = E.assume(s, h) or s
            x2, y2 = E.restrict(s, x), E.restrict(s, y)
            if x2 is y2:
                continue
            if x2.op == "adt" and y2.op == "adt" and x2.a[:2] != y2.a[:2]:
                return False, "%s where the other gives %s" % (show(y2, 0, 2)[:80], show(x2, 0, 2)[:80])
            if x2.op == "adt" and y2.op == "adt":
                for p, q in zip(x2.a[2:], y2.a[2:]):
                    r, why = equal(F, p, q)
                    if r is False:
                        return False, why
                    if r is None:
                        unsure = why
                continue
            return False, "%s where the other gives %s" % (show(y2, 0, 3)[:100], show(x2, 0, 3)[:100])
    return (None, unsure) if unsure else (True, "")
