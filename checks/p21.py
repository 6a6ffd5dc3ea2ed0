"""Order and equality of the values.

For every public type with an order, `cmp` is evaluated on two symbolic values of every pair of variants. Decided: the
partial order is the total order; the order of (b, a) is the reverse of that of (a, b); two values that compare as equal
have the same variant and equal fields; dates are ordered by time (checks/dateord.py), enumerations by declaration and
periods by duration. For every public type with an equality, two values are equal exactly if they are of the same variant
and all their fields are equal."""
import engine as E
import models
from checks.util import *
from checks import dateord
import core

RULE = "orders are total, antisymmetric, the same in both traits, and equal only on equal values; equality compares every field"
FLOOR = 90
TECHNIQUE = "symbolic evaluation of every cmp, partial_cmp and eq body over pairs of variants; equality closure on the compared quantities"
ORD, PORD, EQ = "core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp", "core::cmp::PartialEq::eq"
DATE, DATETIME = "ikal::properties::date::Date", "ikal::properties::date::DateTime"


def variants(F, ty, n):
    """(variant name, value, [(field name, term)])"""
    t = F.types[ty]
    x = E.typed(mk("sym", ("side", n, F.types[ty]["s"])), ty)
    if not t.get("enum"):
        fs = [(f[0], E.fld(x, i, f[1])) for i, f in enumerate(t["v"][0]["f"])]
        yield "", mk("adt", ty, 0, *[y for _, y in fs]), fs
        return
    for v, var in enumerate(t["v"]):
        fs = [(f[0], E.vfld(x, v, i, f[1])) for i, f in enumerate(var["f"])]
        yield var["n"], mk("adt", ty, v, *[y for _, y in fs]), fs


def call(ctx, fn, a, b, key):
    st = E.St()
    args = []
    for n, x in enumerate((a, b)):
        st.mem[("tmp", "in", n)] = x
        args.append(mk("ref", ("tmp", "in", n), ()))
    return dateord.unfold(ctx, dateord.normal(ctx.F, ctx.run(fn, args, st=st, key=key).value))


def oriented(o):
    """the two quantities an ordering term compares, in order"""
    rev = False
    while o.op == "ordrev":
        o, rev = o.a[0], not rev
    if o.op != "ord":
        return None
    a, b = o.a
    return (b, a) if rev else (a, b)


def reverse(o):
    return models.ord_rev(o) if o.op in ("int", "ord", "phi") else o.a[0] if o.op == "ordrev" else None


def wall(t):
    """x when t is the wall-clock time of the date-time x"""
    if t.op == "call" and t.a[0].endswith("::naive_local") and len(t.a) == 2:
        return t.a[1]
    if t.op == "phi":
        xs = set()
        for _, y in t.a[0]:
            z = wall(y) or y
            if z.op != "vfld":
                return None
            xs.add(z.a[0])
        return xs.pop() if len(xs) == 1 else None
    return None


def names(F, t, fields, depth=0):
    """a stable description of a compared quantity"""
    for side, fs in fields:
        for n, x in fs:
            if t is x:
                return side + n
    w = wall(t)
    if w is not None:
        return "wall(" + names(F, w, fields, depth + 1) + ")"
    if t.op == "int":
        return str(t.a[0])
    if t.op == "sym":
        return "value"
    if t.op in ("fld", "vfld"):
        ty = E.TYOF.get(t.a[0])
        try:
            n = F.types[ty]["v"][t.a[1] if t.op == "vfld" else 0]["f"][t.a[2] if t.op == "vfld" else t.a[1]][0]
        except (KeyError, IndexError, TypeError):
            n = str(t.a[-1])
        base = names(F, t.a[0], fields, depth + 1)
        return n if base == "value" else base + "." + n
    if depth > 6:
        return "…"
    if t.op == "call":
        f = t.a[0].split("::")[-1]
        return {"date": "day", "date_naive": "day"}.get(f, f) + "(" + ", ".join(names(F, x, fields, depth + 1) for x in t.a[1:] if hasattr(x, "op")) + ")"
    if t.op == "phi":
        return "one of " + " | ".join(sorted({names(F, x, fields, depth + 1) for _, x in t.a[0]}))
    return t.op + "(" + ", ".join(names(F, x, fields, depth + 1) for x in t.a if hasattr(x, "op")) + ")"


def equalities(g, leaf):
    """pairs of quantities known to be equal, or None if the leaf is not 'equal'"""
    out = []
    if leaf.op == "int":
        if leaf.a[0] != 0:
            return None
    else:
        p = oriented(leaf)
        if p is None:
            raise core.Undecided("compares by " + show(leaf, 0, 2)[:150])
        out.append(p)
    s = E.assume(E.St(), g)
    if s is None:
        return None
    for l in literals(g):
        t = l.a[0]
        if t.op in ("ord", "ordrev") and E.ev(s, E.cond(t, 0)) is TRUE:
            out.append(oriented(t))
        if t.op == "eq" and E.ev(s, E.cond(t, 1)) is TRUE:
            out.append((t.a[0], t.a[1]))
    return out


def covered(x, y, eqs, n=6):
    """x = y follows from the equalities"""
    if x is y:
        return True
    if n == 0:
        return False
    for a, b in eqs:
        if (a is x and b is y) or (a is y and b is x):
            return True
        # an injective combination: a - c = b - d with c = d
        for p, q in ((a, b), (b, a)):
            if p.op == q.op and p.a[0] == q.a[0] and p.op == "call" and p.a[0].split("::")[-1] in ("since", "Some"):
                rest = [(u, v) for u, v in zip(p.a[1:], q.a[1:])]
                for k, (u, v) in enumerate(rest):
                    if u is x and v is y and all(covered(c, d, eqs, n - 1) for j, (c, d) in enumerate(rest) if j != k):
                        return True
    return False


def compare(ctx, ty, name):
    F = ctx.F
    cmp_ = F.fn_for(ORD, ty)
    pcmp = F.fn_for(PORD, ty)
    A, B = list(variants(F, ty, 1)), list(variants(F, ty, 2))
    for an, av, af in A:
        for bn, bv, bf in B:
            pair = "%s: %s/%s" % (name, an, bn) if an else name
            key = "order of " + pair
            try:
                o = call(ctx, cmp_, av, bv, ("p21", cmp_, an, bn))
            except core.Undecided as e:
                ctx.undec(key, e)
                continue
            if o is None:
                ctx.ob(key, False, "never returns")
                continue
            # same in both traits
            if pcmp is not None and F.body(pcmp):
                try:
                    p = call(ctx, pcmp, av, bv, ("p21p", pcmp, an, bn))
                    one = models.ord_term(av, bv)
                    bad = None
                    for g, x in alts(p):
                        if path_of(F, x) != OPTION:
                            bad = "returns " + show(x, 0, 2)[:80]
                        elif x.a[1] == 0:
                            bad = "two values are not comparable"
                        elif x.a[2] is not one and x.a[2] is not E.restrict(E.assume(E.St(), g), o):
                            bad = "the partial order is " + show(x.a[2], 0, 2)[:100]
                    ctx.ob("partial " + key, bad is None, bad or "")
                except core.Undecided as e:
                    ctx.undec("partial " + key, e)
            # direction
            bad = None
            for g, x in alts(o):
                p = oriented(x)
                if p and any(uses(p[0], y) for _, y in bf) and any(uses(p[1], y) for _, y in af) and \
                        not any(uses(p[0], y) for _, y in af):
                    bad = show(x, 0, 2)[:100]
            ctx.ob("direction of " + key, bad is None, "the order is reversed: " + str(bad))
            # antisymmetry
            try:
                q = call(ctx, cmp_, bv, av, ("p21r", cmp_, an, bn))
                verdict, why = mirrored(o, q)
                if verdict is None:
                    ctx.undec("reverse " + key, why)
                else:
                    ctx.ob("reverse " + key, verdict, why)
            except core.Undecided as e:
                ctx.undec("reverse " + key, e)
            # equal only if equal
            try:
                missing = merged(F, o, an, bn, af, bf)
            except core.Undecided as e:
                ctx.undec("equal " + key, e)
                continue
            ctx.ob("equal " + key + ("" if missing is None else " by " + missing), missing is None,
                   "values compare as equal although they differ: only " + str(missing) + " is compared")


def merged(F, o, an, bn, af, bf):
    """None, or what is compared where distinct values compare as equal"""
    out = []
    for g, x in alts(o):
        if feasible(E.St(), g) is False:
            continue
        eqs = equalities(g, x)
        if eqs is None:
            continue
        if an == bn and all(covered(x1, x2, eqs) for (_, x1), (_, x2) in zip(af, bf)):
            continue
        ds = []
        for p, q in eqs:
            one, two = (("left.", af), ("right.", bf)), (("", af), ("", bf))
            mix = any(has(z, lambda w: any(w is x for _, x in af)) and has(z, lambda w: any(w is x for _, x in bf)) for z in (p, q))
            d, e = (names(F, z, one if mix else two) for z in (p, q))
            ds.append(d if d == e else d + " with " + e)
        out.append(" and ".join(sorted(set(ds))) or "nothing")
    return " or ".join(sorted(set(out))) if out else None


def linear(t):
    """{date: factor} of a difference of dates"""
    if t.op == "call" and t.a[0] == "since" and len(t.a) == 3:
        return {t.a[1]: 1, t.a[2]: -1} if t.a[1] is not t.a[2] else {}
    return None


def opposed(x, y):
    """sign(x) = -sign(y) for two comparisons of differences of dates (None: not such)"""
    ls = [linear(t) for t in (x.a[0], x.a[1], y.a[1], y.a[0])]
    if any(l is None for l in ls):
        return None
    one, two = ({k: v for k, v in {k: a.get(k, 0) - b.get(k, 0) for k in {**a, **b}}.items() if v} for a, b in (ls[:2], ls[2:]))
    if set(one) != set(two) or not one:
        return set(one) == set(two)
    k = next(iter(one))
    return one[k] * two[k] > 0 and all(one[k] * two[j] == one[j] * two[k] for j in one)


def mirrored(o, q):
    unsure = None
    for g, x in alts(o):
        for h, y in alts(q):
            s = E.assume(E.St(), g)
            if s is None or feasible(s, h) is False:
                continue
            z = reverse(y)
            if z is x:
                continue
            if y is x or (x.op == "int" and z is not None and z.op == "int"):
                return False, "the order of (b, a) is not the reverse of the order of (a, b)"
            if x.op == y.op == "ord" and opposed(x, y) is False:
                return False, "the order of (b, a) is not the reverse of the order of (a, b)"
            if x.op == y.op == "ord" and opposed(x, y):
                continue
            if x.op == "int" and z is not None and z.op in ("ord", "ordrev"):
                s2 = E.assume(s, h)
                ws = [w for w in (-1, 0, 1) if s2 is not None and (lambda u: u is not None and feasible(u) is not False)(E.assume(s2, E.cond(z, w)))]
                if ws == [x.a[0]]:
                    continue
                if ws and (x.a[0] not in ws or {t for t in subterms(AND([g, h])) if t.op in ("ord", "ordrev")} <= {z, mk("ord", *z.a), mk("ord", *z.a[::-1])}):
                    return False, "the order of (b, a) is not the reverse of the order of (a, b)"
            unsure = "cannot relate %s and %s" % (show(x, 0, 2)[:80], show(y, 0, 2)[:80])
    return (None, unsure) if unsure else (True, "")


def declared(ctx, ty, name):
    """plain enumerations are ordered as they are declared"""
    F = ctx.F
    fn = F.fn_for(ORD, ty)
    vs = F.types[ty]["v"]
    for i in range(len(vs)):
        for j in range(len(vs)):
            key = "rank of %s: %s/%s" % (name, vs[i]["n"], vs[j]["n"])
            try:
                o = call(ctx, fn, mk("adt", ty, i), mk("adt", ty, j), ("rank", fn, i, j))
            except core.Undecided as e:
                ctx.undec(key, e)
                continue
            if o is None or o.op != "int":
                ctx.undec(key, "not a constant")
            else:
                ctx.ob(key, o.a[0] == (i > j) - (i < j), "compares as %s" % {-1: "less", 0: "equal", 1: "greater"}.get(o.a[0]))


def run(ctx):
    F = ctx.F
    for (tr, ty), fn in sorted(F.impls.items(), key=lambda x: (x[0][0], F.types[x[0][1]]["s"])):
        path = F.types[ty].get("path", "")
        if not path.startswith("ikal::") or "__" in path or not F.body(fn):
            continue
        name = path.rsplit("::", 1)[1]
        if tr == ORD:
            if F.types[ty].get("enum") and all(not v["f"] for v in F.types[ty]["v"]):
                declared(ctx, ty, name)
            else:
                compare(ctx, ty, name)
        elif tr == EQ:
            same(ctx, ty, fn, name)
    dateord.check(ctx)


def same(ctx, ty, fn, name):
    F = ctx.F
    key = "equality of " + name
    t = F.types[ty]
    en = E.Interp(F)
    if all(not v["f"] for v in t["v"]):
        bad = None
        for i, v in enumerate(t["v"]):
            for j, w in enumerate(t["v"]):
                try:
                    o = call(ctx, fn, mk("adt", ty, i), mk("adt", ty, j), ("eq", fn, i, j))
                except core.Undecided as e:
                    ctx.undec(key, e)
                    return
                if o is None or o.op != "int":
                    ctx.undec(key, "not a constant")
                    return
                if bool(o.a[0]) != (i == j):
                    bad = "%s == %s is %s" % (v["n"], w["n"], bool(o.a[0]))
        ctx.ob(key, bad is None, bad or "")
        return
    try:
        ok = models.eq_structural(en, ty)
    except (core.Undecided, E.Unsupported) as e:
        ctx.undec(key, e)
        return
    ctx.analysed.append(F.fns[fn]["name"])
    if not ok and (id(F), ty) in models.eq_unsure:
        ctx.undec(key, "not settled")
        return
    ctx.ob(key, ok, "two values can be equal although a field differs, or different although all fields are equal")
