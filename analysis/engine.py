"""Gated value-flow analysis over monomorphic MIR (abstract interpretation on a term domain).

One abstract state per program point: every control-flow join merges the incoming states into one
whose values are guarded choices (`phi`), every loop is summarised by a fixpoint on its head state
(loop-carried values become `lv` terms with an initial value and a per-iteration transfer term).
Nothing is executed and no path is handed to a solver: guards are evaluated three-valued against
the literals that dominate the program point.

The result for a function is a term per output plus a list of panic sites that could not be
discharged, each with its call chain and its guards.
"""
import json
import sys
from terms import *

sys.setrecursionlimit(60000)


class Unsupported(Exception):
    pass


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = d["roots"]
        self.pubs = d.get("pubs", [])
        self.generic = d.get("generic", [])
        self.adts = d["adts"]
        self.statics = d["statics"]
        self.impls = {}
        for tr, ty, fn in d["impls"]:
            self.impls.setdefault((tr, ty), fn)
        self.bypath = {}
        self.byname = {}
        for i, f in enumerate(self.fns):
            self.bypath.setdefault(f["path"], []).append(i)
            self.byname.setdefault(f["name"], []).append(i)
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t["s"], i)

    def ty(self, i):
        return self.types[i]

    def fn_for(self, trait_method, tyid):
        return self.impls.get((trait_method, tyid))

    def body(self, fnid):
        return self.fns[fnid].get("body")


# ------------------------------------------------------------------ state

class St:
    __slots__ = ("mem", "facts", "ors")

    def __init__(self, mem=None, facts=None, ors=()):
        self.mem = {} if mem is None else mem
        self.facts = {} if facts is None else facts
        self.ors = ors

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.ors)

    def lits(self):
        out = []
        for t, (k, v) in self.facts.items():
            out.append(mk("lit", t, k, v))
        out.extend(self.ors)
        return out


TYOF = {}     # term -> type id
CANON = {}    # Option<A>, Option<B>, ... -> one id per generic enum
BOOLDOM = (0, 1)


def typed(t, ty):
    if ty is not None and t not in TYOF and t.op not in ("int", "str", "phi"):
        TYOF[t] = ty
    return t


def bool_term(f):
    """value term of a formula"""
    if f is TRUE:
        return I(1)
    if f is FALSE:
        return I(0)
    if f.op == "lit" and f.a[1] == "=" and f.a[2] == 1 and DOMAIN.get(f.a[0]) == BOOLDOM:
        return f.a[0]
    n = NOT(f)
    return mk("phi", ((f, I(1)), (n, I(0))))


def isbool(t):
    DOMAIN[t] = BOOLDOM
    return t


def swap_ord(v):
    return -v


def cond(t, v):
    """formula for `t == v` (v: int for scalars, str for strings)"""
    op = t.op
    if op == "int" or op == "str":
        return TRUE if t.a[0] == v else FALSE
    if op == "phi":
        return OR([AND([g, cond(a, v)]) for g, a in t.a[0]])
    if isinstance(v, str):
        return str_cond(t, v)
    if op == "bin":
        o, a, b = t.a[:3]
        if o in ("Eq", "Ne"):
            if o == "Ne":
                v = 1 - v
            f = eq_formula(a, b)
            if f is not None:
                return f if v == 1 else NOT(f)
            return lit(isbool(mk("bin", "Eq", *sorted((a, b), key=lambda x: x.id))), v)
        if o == "Gt":
            return cond(isbool(mk("bin", "Lt", b, a, *t.a[3:])), v)
        if o == "Ge":
            return cond(isbool(mk("bin", "Lt", a, b, *t.a[3:])), 1 - v)
        if o == "Le":
            return cond(isbool(mk("bin", "Lt", b, a, *t.a[3:])), 1 - v)
        if o == "Lt":
            return lt_formula(a, b, v, t)
        if o in ("BitAnd", "BitOr") and DOMAIN.get(t) == BOOLDOM:
            if o == "BitAnd":
                f = AND([cond(a, 1), cond(b, 1)])
            else:
                f = OR([cond(a, 1), cond(b, 1)])
            return f if v == 1 else NOT(f)
    if op == "un" and t.a[0] == "Not" and v in (0, 1):
        return cond(t.a[1], 1 - v)
    if op == "cast" and t.a[0].startswith("Int"):
        return cond(t.a[1], v) if v >= 0 else lit(t, v)
    if op == "discr":
        x = t.a[0]
        if x.op == "phi":
            return OR([AND([g, cond(discr_of(a), v)]) for g, a in x.a[0]])
    if op == "ordrev":
        return cond(t.a[0], -v)
    if op == "ord":
        a, b = t.a
        if a is b:
            return TRUE if v == 0 else FALSE
    if op == "len" and v == 0:
        return seq_empty(t.a[0])
    if op == "streq":
        f = streq_formula(t.a[0], t.a[1])
        return f if v == 1 else NOT(f)
    dom = DOMAIN.get(t)
    if dom is not None and v not in dom:
        return FALSE
    if op == "call" and t.a[0] in CALLRNG and isinstance(v, int):
        lo, hi = CALLRNG[t.a[0]]
        if v < lo or v > hi:
            return FALSE
    return lit(t, v)


def cut(t):
    """(text, bytes cut off) of the length of what is left of a text without a constant prefix or suffix"""
    n = 0
    if t.op != "slen":
        return t, 0
    t = t.a[0]
    while t.op == "call" and t.a[0] in ("strip_suffix", "strip_prefix") and len(t.a) == 3 and t.a[2].op == "str":
        t, n = t.a[1], n + len(t.a[2].a[0].encode())
    return t, n


def lt_formula(a, b, v, t):
    if a is b:
        return FALSE if v == 1 else TRUE
    if a.op == b.op == "slen":
        (x, n), (y, m) = cut(a), cut(b)
        if x is y:
            return TRUE if (n > m) == (v == 1) else FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if (a.a[0] < b.a[0]) == (v == 1) else FALSE
    if a.op == "phi":
        return OR([AND([g, lt_formula(x, b, v, t)]) for g, x in a.a[0]])
    if b.op == "phi":
        return OR([AND([g, lt_formula(a, x, v, t)]) for g, x in b.a[0]])
    ra, rb = rng(a), rng(b)
    if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
        return TRUE if v == 1 else FALSE
    if ra[0] is not None and rb[1] is not None and ra[0] >= rb[1]:
        return FALSE if v == 1 else TRUE
    # 0 < len(x)  <=>  not empty
    if a is I(0) and rb[0] == 0:
        return cond(b, 0) if v == 0 else NOT(cond(b, 0))
    if b is I(1) and ra[0] == 0:
        return cond(a, 0) if v == 1 else NOT(cond(a, 0))
    return lit(isbool(mk("bin", "Lt", a, b)), v)


def eq_formula(a, b):
    if a.op == b.op == "slen":
        (x, n), (y, m) = cut(a), cut(b)
        if x is y:
            return TRUE if n == m else FALSE
    if a is b and a.op not in ("float",):
        return TRUE
    if a.op == "int" or a.op == "str":
        a, b = b, a
    if b.op == "int":
        return cond(a, b.a[0])
    if b.op == "str":
        return cond(a, b.a[0])
    if a.op == "phi" and len(a.a[0]) <= 12:
        fs = []
        for g, x in a.a[0]:
            f = eq_formula(x, b)
            if f is None:
                return None
            fs.append(AND([g, f]))
        return OR(fs)
    if b.op == "phi" and len(b.a[0]) <= 12:
        return eq_formula(b, a)
    return None


def streq_formula(a, b):
    if a is b:
        return TRUE
    if a.op == "str":
        a, b = b, a
    if b.op == "str":
        return cond(a, b.a[0])
    if a.op == "phi":
        return OR([AND([g, streq_formula(x, b)]) for g, x in a.a[0]])
    if b.op == "phi":
        return OR([AND([g, streq_formula(a, x)]) for g, x in b.a[0]])
    return lit(isbool(mk("streq", *sorted((a, b), key=lambda x: x.id))), 1)


NEVER_EMPTY = ("dec", "chr")


def str_cond(t, v):
    op = t.op
    if op == "cat":
        parts = t.a
        if v == "":
            return AND([cond(p, "") for p in parts])
        # strip constant ends
        if parts[0].op == "str":
            p = parts[0].a[0]
            if not v.startswith(p):
                return FALSE
            return cond(cat(parts[1:]), v[len(p):])
        if parts[-1].op == "str":
            p = parts[-1].a[0]
            if not v.endswith(p):
                return FALSE
            return cond(cat(parts[:-1]), v[: len(v) - len(p)])
        return lit(t, v)
    if v == "":
        if op in NEVER_EMPTY:
            return FALSE
        if op == "replace" and t.a[1].op == "str" and t.a[2].op == "str" and t.a[1].a[0] and t.a[2].a[0]:
            return cond(t.a[0], "")
        if op in ("upper", "lower"):
            return cond(t.a[0], "")
        if op == "disp":
            return lit(t, v)
    return lit(t, v)


def seq_empty(x):
    """formula: the sequence is empty"""
    if x.op == "vec":
        if any(p.op == "one" for p in x.a):
            return FALSE
        return AND([seq_empty(p.a[0]) for p in x.a])
    if x.op == "array":
        return TRUE if not x.a else FALSE
    if x.op == "phi":
        return OR([AND([g, seq_empty(a)]) for g, a in x.a[0]])
    if x.op == "chars":
        return cond(x.a[0], "")
    if x.op in ("split", "splitn", "lines_incl"):
        return FALSE
    if x.op == "entries":
        return seq_empty(x.a[0])
    if x.op == "mempty":
        return TRUE
    if x.op == "minsert":
        return FALSE
    if x.op in ("rev", "sorted"):
        return seq_empty(x.a[0])
    return lit(isbool(mk("isempty", x)), 1)


def rng(t):
    """(lo, hi) bounds of an integer term, None = unknown"""
    op = t.op
    if op == "int":
        return (t.a[0], t.a[0])
    if op == "phi":
        los, his = [], []
        for _, a in t.a[0]:
            l, h = rng(a)
            los.append(l)
            his.append(h)
        return (None if None in los else min(los), None if None in his else max(his))
    if op == "cast":
        l, h = rng(t.a[1])
        tl, th = INTR.get(t.a[2], (None, None))
        if l is not None and h is not None and (tl is None or (l >= tl and h <= th)):
            return (l, h)
        return (tl, th)
    if op == "bin":
        o, a, b = t.a[:3]
        if o in ("Add", "Sub", "Mul"):
            (al, ah), (bl, bh) = rng(a), rng(b)
            if None in (al, ah, bl, bh):
                if o == "Add" and al is not None and bl is not None:
                    return (al + bl, None)
                return (None, None)
            if o == "Add":
                return (al + bl, ah + bh)
            if o == "Sub":
                return (al - bh, ah - bl)
            c = [al * bl, al * bh, ah * bl, ah * bh]
            return (min(c), max(c))
        if o in ("Div", "Rem", "RemE", "DivE") and b.op == "int" and b.a[0] > 0:
            (l, h), n = rng(a), b.a[0]
            if o == "RemE":
                return (0, n - 1)
            if o == "DivE":
                return (None if l is None else l // n, None if h is None else h // n)
            if o == "Div":
                tr = lambda v: None if v is None else v // n if v >= 0 else -(-v // n)
                return (tr(l), tr(h))
            return (0 if l is not None and l >= 0 else -(n - 1) if l is None else max(l, 1 - n),
                    0 if h is not None and h <= 0 else n - 1 if h is None else min(h, n - 1))
    if op == "neg" or op == "un" and t.a[0] == "Neg":
        l, h = rng(t.a[-1])
        return (None if h is None else -h, None if l is None else -l)
    if op == "len":
        return (0, (1 << 63) - 1)
    if op in ("ord",):
        return (-1, 1)
    if op == "call" and t.a[0] in CALLRNG:
        return CALLRNG[t.a[0]]
    ty = TYOF.get(t)
    if ty is not None and ty in TYRNG:
        return TYRNG[ty]
    return (None, None)


INTR = {}
TYRNG = {}
# documented ranges of library results
CALLRNG = {
    "chrono::offset::fixed::FixedOffset::local_minus_utc": (-86399, 86399),
    "chrono::offset::fixed::FixedOffset::utc_minus_local": (-86399, 86399),
}


def discr_of(x, vals=None):
    if x.op == "adt":
        return I(VARIANT_DISCR(x.a[0], x.a[1]))
    if x.op == "phi":
        return mkphi([(g, discr_of(a, vals)) for g, a in x.a[0]])
    if x.op in ("ord", "ordrev"):
        return x
    if x.op == "int":  # Ordering-like encoded values
        return x
    t = mk("discr", x)
    if vals is not None:
        DOMAIN[t] = vals
    elif x in TYOF:
        d = ENUM_DISCRS(TYOF[x])
        if d:
            DOMAIN[t] = d
    return t


def VARIANT_DISCR(ty, v):
    raise NotImplementedError


def ENUM_DISCRS(ty):
    raise NotImplementedError


_gsize = {}


def guard_size(f):
    if f.op not in ("and", "or"):
        return 1
    n = _gsize.get(f)
    if n is None:
        n = _gsize[f] = sum(guard_size(x) for x in f.a)
    return n


def parts_of(v):
    return v.a if v.op == "cat" else ((v,) if not (v.op == "str" and v.a[0] == "") else ())


def is_strish(v):
    return v.op in ("str", "cat", "rep", "join", "dec", "chr", "disp", "replace")


def mkphi(alts):
    """guarded choice; guards are pairwise exclusive and exhaustive in their context"""
    flat = []
    for g, v in alts:
        if g is FALSE or v is BOTTOM:
            continue
        if v.op == "phi":
            for g2, v2 in v.a[0]:
                h = AND([g, g2])
                if h is not FALSE:
                    flat.append((h, v2))
        else:
            flat.append((g, v))
    if not flat:
        return BOTTOM
    groups = {}
    order = []
    for g, v in flat:
        if v not in groups:
            groups[v] = []
            order.append(v)
        groups[v].append(g)
    if len(order) == 1:
        return order[0]
    # nullary variant k merged with a symbolic value x under discr(x) == k
    syms = [v for v in order if v.op not in ("adt", "int", "str", "cat", "vec", "tuple", "ref", "closure")]
    if syms:
        for v in list(order):
            if v.op == "adt" and len(v.a) == 2:
                for x in syms:
                    d = mk("discr", x)
                    if all(has_lit(g, d, VARIANT_DISCR(v.a[0], v.a[1])) for g in groups[v]):
                        groups[x].extend(groups.pop(v))
                        order.remove(v)
                        break
        if len(order) == 1:
            return order[0]
    # x taken apart and rebuilt: variant k of x from its fields under discr(x) == k, for two variants at least
    parts = {}
    for v in order:
        if v.op == "adt" and len(v.a) > 2 and v.a[2].op == "vfld":
            x = v.a[2].a[0]
            if CANON.get(TYOF.get(x), TYOF.get(x)) != v.a[0]:
                continue
            if not all(f.op == "vfld" and f.a[0] is x and f.a[1] == v.a[1] and f.a[2] == i for i, f in enumerate(v.a[2:])):
                continue
            d = mk("discr", x)
            if all(has_lit(g, d, VARIANT_DISCR(v.a[0], v.a[1])) for g in groups[v]):
                parts.setdefault(x, []).append(v)
    for x, vs in parts.items():
        d = mk("discr", x)
        ty = vs[0].a[0]
        vs = vs + [v for v in order if v.op == "adt" and len(v.a) == 2 and v.a[0] == ty
                   and all(has_lit(g, d, VARIANT_DISCR(v.a[0], v.a[1])) for g in groups[v])]
        if len(vs) < 2 and x not in groups:
            continue
        if x not in groups:
            groups[x] = []
            order.append(x)
        for v in vs:
            if v in groups:
                groups[x].extend(groups.pop(v))
                order.remove(v)
    if len(order) == 1:
        return order[0]
    # group aggregates of the same shape
    shapes = {}
    for v in order:
        shapes.setdefault(shape(v), []).append(v)
    out = []
    for sh, vs in shapes.items():
        if sh is None or len(vs) == 1:
            for v in vs:
                out.append((OR(groups[v]), v))
            continue
        galts = [(OR(groups[v]), v) for v in vs]
        gall = OR([g for g, _ in galts])
        # inner guards relative to this group
        common = None
        for g, _ in galts:
            ls = set(g.a if g.op == "and" else (g,))
            common = ls if common is None else common & ls
        inner = [(AND([l for l in (g.a if g.op == "and" else (g,)) if l not in common]), v) for g, v in galts]
        v0 = vs[0]
        if sh[0] in ("adt", "tuple", "closure"):
            start = {"adt": 2, "tuple": 0, "closure": 1}[sh[0]]
            fields = [mkphi([(g, v.a[i]) for g, v in inner]) for i in range(start, len(v0.a))]
            out.append((gall, rebuild(v0, fields)))
        elif sh[0] == "it":
            out.append((gall, mk("it", mkphi([(g, v.a[0]) for g, v in inner]), v0.a[1])))
        else:
            out.append((gall, v0))
    if len(out) == 1:
        return out[0][1]
    # strings: factor common prefix and suffix
    if all(v.op in ("str", "cat") or is_strish(v) or v.op not in ("adt", "tuple", "ref", "closure", "vec", "int")
           for _, v in out) and any(v.op in ("cat",) for _, v in out):
        f = factor_cat(out)
        if f is not None:
            return f
    if any(v.op == "vec" for _, v in out):
        f = factor_vec(out)
        if f is not None:
            return f
    out = simplify_guards(out)
    if out[0][1].op == "int" and len(out) == 2 and {v for _, v in out} == {I(0), I(1)}:
        g1 = [g for g, v in out if v is I(1)][0]
        if g1.op == "lit" and g1.a[1] == "=" and g1.a[2] == 1 and DOMAIN.get(g1.a[0]) == BOOLDOM:
            return g1.a[0]
    return mk("phi", tuple(sorted(out, key=lambda p: (p[1].id, p[0].id))))


def simplify_guards(out):
    if len(out) == 2:
        (g1, v1), (g2, v2) = out
        s1, s2 = guard_size(g1), guard_size(g2)
        if s1 < s2:
            n = NOT(g1)
            if guard_size(n) < s2:
                g2 = n
        elif s2 < s1:
            n = NOT(g2)
            if guard_size(n) < s1:
                g1 = n
        return [(g1, v1), (g2, v2)]
    return out


def has_lit(g, t, v):
    ls = g.a if g.op == "and" else (g,)
    for l in ls:
        if l.op == "lit" and l.a[0] is t and l.a[1] == "=" and l.a[2] == v:
            return True
        if l.op == "or" and all(has_lit(x, t, v) for x in l.a):
            return True
    if g.op == "or":
        return all(has_lit(x, t, v) for x in g.a)
    return False


def shape(v):
    if v.op == "adt":
        return ("adt", v.a[0], v.a[1], len(v.a))
    if v.op == "tuple" and v.a:
        return ("tuple", len(v.a))
    if v.op == "closure":
        return ("closure", v.a[0])
    if v.op == "it":
        return ("it", v.a[1])
    return None


def rebuild(v, fields):
    if v.op == "adt":
        return mk_adt(v.a[0], v.a[1], fields)
    if v.op == "tuple":
        return mk("tuple", *fields)
    if v.op == "closure":
        return mk("closure", v.a[0], *fields)
    raise ValueError(v)


def factor_cat(alts):
    ps = [list(parts_of(v)) for _, v in alts]
    # split constant heads so that common text is shared
    n = 0
    pre = []
    while all(len(p) > 0 for p in ps):
        h = ps[0][0]
        if all(p[0] is h for p in ps):
            pre.append(h)
            for p in ps:
                p.pop(0)
            continue
        if all(p[0].op == "str" for p in ps):
            ss = [p[0].a[0] for p in ps]
            k = 0
            while all(len(s) > k for s in ss) and len({s[k] for s in ss}) == 1:
                k += 1
            if k:
                pre.append(S(ss[0][:k]))
                for p, s in zip(ps, ss):
                    if s[k:]:
                        p[0] = S(s[k:])
                    else:
                        p.pop(0)
                continue
        break
    suf = []
    while all(len(p) > 0 for p in ps):
        h = ps[0][-1]
        if all(p[-1] is h for p in ps):
            suf.insert(0, h)
            for p in ps:
                p.pop()
            continue
        break
    if not pre and not suf:
        return None
    mid = mkphi([(g, cat(p)) for (g, _), p in zip(alts, ps)])
    return cat(pre + [mid] + suf)


def vparts(v):
    if v.op == "vec":
        return list(v.a)
    return [mk("all", v)]


def factor_vec(alts):
    if not all(v.op == "vec" or v.op in ("lv", "sym", "fld", "vfld", "deref", "call", "rep", "after") for _, v in alts):
        return None
    ps = [vparts(v) for _, v in alts]
    pre = []
    while all(len(p) > 0 for p in ps) and all(p[0] is ps[0][0] for p in ps):
        pre.append(ps[0][0])
        for p in ps:
            p.pop(0)
    if not pre:
        return None
    mid = mk("phi", tuple(simplify_guards([(g, mk("vec", *p)) for (g, _), p in zip(alts, ps)])))
    return mk("vec", *pre, mk("all", mid))


def mk_adt(ty, variant, fields):
    """aggregate, eta-reduced to x when it rebuilds x field by field"""
    ty = CANON.get(ty, ty)
    if fields:
        f0 = fields[0]
        if f0.op in ("fld", "vfld"):
            x = f0.a[0]
            xt = TYOF.get(x)
            if CANON.get(xt, xt) == ty:
                if f0.op == "fld" and all(f.op == "fld" and f.a[0] is x and f.a[1] == i for i, f in enumerate(fields)):
                    if NFIELDS(ty, 0) == len(fields) and not IS_ENUM(ty):
                        return x
                if f0.op == "vfld" and not IS_ENUM(ty) and all(
                    f.op == "vfld" and f.a[0] is x and f.a[1] == variant and f.a[2] == i for i, f in enumerate(fields)
                ):
                    return x
    return mk("adt", ty, variant, *fields)


def NFIELDS(ty, v):
    raise NotImplementedError


def IS_ENUM(ty):
    raise NotImplementedError


def fld(x, i, ty=None):
    if x.op in ("tuple",):
        return x.a[i]
    if x.op == "adt":
        return x.a[2 + i]
    if x.op == "closure":
        return x.a[1 + i]
    if x.op == "phi":
        return mkphi([(g, fld(a, i, ty)) for g, a in x.a[0]])
    if x is BOTTOM:
        return BOTTOM
    return typed(mk("fld", x, i), ty)


def vfld(x, v, i, ty=None):
    if x.op == "adt":
        return x.a[2 + i] if x.a[1] == v else BOTTOM
    if x.op == "phi":
        return mkphi([(g, vfld(a, v, i, ty)) for g, a in x.a[0]])
    if x is BOTTOM:
        return BOTTOM
    return typed(mk("vfld", x, v, i), ty)


# ------------------------------------------------------------------ assumptions

def ev(st, f, memo=None):
    """three-valued evaluation of a formula: TRUE, FALSE or a residual formula"""
    if f is TRUE or f is FALSE:
        return f
    if f.op != "lit":
        if memo is None:
            memo = {}
        else:
            r = memo.get(f)
            if r is not None:
                return r
        r = memo[f] = ev_comp(st, f, memo)
        return r
    if f.op == "lit":
        t, k, v = f.a
        fact = st.facts.get(t)
        if fact is not None:
            fk, fv = fact
            if k == "=":
                if fk == "=":
                    return TRUE if fv == v else FALSE
                if v in fv:
                    return FALSE
            else:
                if fk == "=":
                    return FALSE if fv in v else TRUE
                if v <= fv:
                    return TRUE
                rest = v - fv
                dom = DOMAIN.get(t)
                if dom is not None and all(d in v or d in fv for d in dom):
                    return FALSE
                return mk("lit", t, "!", rest)
        return f
    return f


def ev_comp(st, f, memo):
    if f.op == "and":
        out = []
        for x in f.a:
            y = ev(st, x, memo)
            if y is FALSE:
                return FALSE
            if y is not TRUE:
                out.append(y)
        if len(out) == len(f.a) and all(a is b for a, b in zip(out, f.a)):
            return f
        return AND(out)
    if f.op == "or":
        out = []
        for x in f.a:
            y = ev(st, x, memo)
            if y is TRUE:
                return TRUE
            if y is not FALSE:
                out.append(y)
        if len(out) == len(f.a) and all(a is b for a, b in zip(out, f.a)):
            return f
        return OR(out)
    return f


def implied(t, k, v):
    """facts implied by a literal"""
    out = []
    if t.op == "len" and k == "=":
        if v > 0:
            out.append(NOT(seq_empty(t.a[0])))
    if t.op == "isempty" and k == "=" and v == 1:
        out.append(("raw", mk("len", t.a[0]), 0))
    if t.op == "slen" and k == "=":
        out.append(cond(t.a[0], "") if v == 0 else NOT(cond(t.a[0], "")))
    if t.op == "call" and t.a[0] == "starts_with" and k == "=" and v == 1:
        if t.a[2].op == "str" and t.a[2].a[0]:
            out.append(NOT(cond(t.a[1], "")))
    if t.op == "bin" and t.a[0] == "Lt" and k == "=" and v == 1:
        b = t.a[2]
        if b.op == "len" and (rng(t.a[1])[0] or 0) >= 0:
            out.append(NOT(seq_empty(b.a[0])))
    return out


def assume(st, f):
    """st restricted to f, or None if infeasible. Returns a new state when anything changes."""
    f = ev(st, f)
    if f is TRUE:
        return st
    if f is FALSE:
        return None
    st = st.copy()
    work = [f]
    while work:
        g = work.pop()
        if isinstance(g, tuple):
            st.facts.setdefault(g[1], ("=", g[2]))
            continue
        g = ev(st, g)
        if g is TRUE:
            continue
        if g is FALSE:
            return None
        if g.op == "and":
            work.extend(g.a)
            continue
        if g.op == "or":
            st.ors = st.ors + (g,)
            continue
        t, k, v = g.a
        old = st.facts.get(t)
        if k == "=":
            st.facts[t] = ("=", v)
        else:
            vs = v | (old[1] if old else frozenset())
            dom = DOMAIN.get(t)
            if dom is not None:
                rest = [d for d in dom if d not in vs]
                if not rest:
                    return None
                if len(rest) == 1:
                    work.append(lit(t, rest[0]))
                    continue
            st.facts[t] = ("!", vs)
        work.extend(implied(t, k, v))
        if st.ors:
            ors = []
            for o in st.ors:
                o2 = ev(st, o)
                if o2 is FALSE:
                    return None
                if o2 is TRUE:
                    continue
                if o2.op == "or":
                    ors.append(o2)
                else:
                    work.append(o2)
            st.ors = tuple(ors)
    return st


def prune(st, t):
    """drop infeasible alternatives of the top-level phi"""
    if t.op != "phi":
        return t
    out = []
    changed = False
    for g, v in t.a[0]:
        e = ev(st, g)
        if e is FALSE:
            changed = True
            continue
        if e is TRUE:
            return prune(st, v)
        if e is not g:
            changed = True
        out.append((e, v))
    if len(out) == 1:
        return prune(st, out[0][1])
    if not out:
        return BOTTOM
    if changed:
        return mkphi(out)
    return t


def restrict(st, t, memo=None):
    """deep pruning of a term under the facts of st"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "phi":
        out = []
        for g, v in t.a[0]:
            e = ev(st, g)
            if e is FALSE:
                continue
            if e is TRUE:
                out = [(TRUE, v)]
                break
            out.append((e, v))
        if len(out) == 1:
            r = restrict(st, out[0][1], memo)
        else:
            r = mkphi([(g, restrict(st, v, memo)) for g, v in out])
    else:
        r = rebuild_term(t, lambda x: restrict(st, x, memo))
    memo[t] = r
    return r


SKIP_REBUILD = ("int", "str", "sym", "float", "true", "false", "lit", "and", "or", "fn", "bytes")


def rebuild_term(t, f):
    if t.op in SKIP_REBUILD:
        return t
    na = []
    ch = False
    for x in t.a:
        if isinstance(x, T):
            y = f(x)
            if y is not x:
                ch = True
            na.append(y)
        else:
            na.append(x)
    if not ch:
        return t
    return renorm(t, na)


def renorm(t, na):
    """re-create a term with new arguments through its smart constructor"""
    op = t.op
    if op == "cat":
        return cat(na)
    if op == "vec":
        return vcat_norm(na)
    if op == "adt":
        return mk_adt(na[0], na[1], na[2:])
    if op == "fld":
        return fld(na[0], na[1], TYOF.get(t))
    if op == "vfld":
        return vfld(na[0], na[1], na[2], TYOF.get(t))
    if op == "discr":
        return discr_of(na[0], DOMAIN.get(t))
    if op == "head":
        return seq_head(na[0])
    if op == "tail":
        return seq_tail(na[0])
    if op == "replace":
        return text_replace(*na)
    r = mk(op, *na)
    if t in DOMAIN and r not in DOMAIN:
        DOMAIN[r] = DOMAIN[t]
    if t in TYOF:
        typed(r, TYOF[t])
    return r


def text_replace(s, p, r):
    """`s.replace(p, r)`, worked out for constants"""
    if s.op == "str" and r.op == "str":
        if p.op == "str":
            return S(s.a[0].replace(p.a[0], r.a[0]))
        if p.op == "cset":
            return S("".join(r.a[0] if ord(c) in p.a[0] else c for c in s.a[0]))
        if p.op == "int":
            return S(s.a[0].replace(chr(p.a[0]), r.a[0]))
    if s.op == "phi":
        return mkphi([(g, text_replace(x, p, r)) for g, x in s.a[0]])
    return mk("replace", s, p, r)


def vcat_norm(parts):
    out = []
    for p in parts:
        if p.op == "all" and p.a[0].op == "vec":
            out.extend(p.a[0].a)
        else:
            out.append(p)
    if len(out) == 1 and out[0].op == "all":
        return out[0].a[0]
    return mk("vec", *out)


def seq_norm(v):
    if v.op == "array":
        return mk("vec", *[one(x) for x in v.a])
    return v


def seq_append(v, parts):
    v = seq_norm(v)
    return vcat_norm(vparts(v) + list(parts))


def seq_head(x):
    x = seq_norm(x)
    if x.op == "vec" and x.a:
        if x.a[0].op == "one":
            return x.a[0].a[0]
        return mk("head", x)
    if x.op == "phi":
        return mkphi([(g, seq_head(a)) for g, a in x.a[0]])
    if x.op == "vec":
        return BOTTOM
    if x.op == "entries":
        pass
    return mk("head", x)


def seq_tail(x):
    x = seq_norm(x)
    if x.op == "vec" and x.a:
        if x.a[0].op == "one":
            return vcat_norm(x.a[1:])
        return mk("tail", x)
    if x.op == "vec":
        return x
    if x.op == "phi":
        return mkphi([(g, seq_tail(a)) for g, a in x.a[0]])
    return mk("tail", x)


def seq_len(x):
    x = seq_norm(x)
    if x.op == "vec" and all(p.op == "one" for p in x.a):
        return I(len(x.a))
    if x.op == "phi":
        return mkphi([(g, seq_len(a)) for g, a in x.a[0]])
    if x.op == "mempty":
        return I(0)
    return mk("len", x)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "phi":
        r = mkphi([(subst_f(g, m, memo), subst(v, m, memo)) for g, v in t.a[0]])
    elif t.op in ("lit", "and", "or"):
        r = subst_f(t, m, memo)
    else:
        r = rebuild_term(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def subst_f(f, m, memo):
    if f is TRUE or f is FALSE:
        return f
    if f.op == "lit":
        t2 = subst(f.a[0], m, memo)
        if t2 is f.a[0]:
            return f
        if f.a[1] == "=":
            return cond(t2, f.a[2])
        return AND([NOT(cond(t2, v)) for v in sorted(f.a[2], key=repr)])
    if f.op == "and":
        return AND([subst_f(x, m, memo) for x in f.a])
    if f.op == "or":
        return OR([subst_f(x, m, memo) for x in f.a])
    return f


def merge(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    facts0 = dict(states[0].facts)
    ors0 = set(states[0].ors)
    for s in states[1:]:
        facts0 = {t: v for t, v in facts0.items() if s.facts.get(t) == v}
        ors0 &= set(s.ors)
    gs = []
    for s in states:
        ls = [mk("lit", t, k, v) for t, (k, v) in s.facts.items() if t not in facts0]
        ls += [o for o in s.ors if o not in ors0]
        gs.append(AND(ls))
    out = St({}, facts0, tuple(o for o in states[0].ors if o in ors0))
    keys = []
    seen = set()
    for s in states:
        for k in s.mem:
            if k not in seen:
                seen.add(k)
                keys.append(k)
    m0 = states[0].mem
    for k in keys:
        v0 = m0.get(k)
        same = True
        for s in states:
            if s.mem.get(k) is not v0:
                same = False
                break
        if same:
            out.mem[k] = v0
            continue
        d = typed(mk("deref", k[1]), k[2]) if k[0] == "cell" else None
        alts = [(g, s.mem.get(k, d)) for g, s in zip(gs, states) if d is not None or k in s.mem]
        if len(alts) == 1:
            out.mem[k] = alts[0][1]
        else:
            out.mem[k] = mkphi(alts)
    g = OR(gs)
    if g is not TRUE:
        o2 = assume(out, g)
        if o2 is not None:
            out = o2
    return out


# ------------------------------------------------------------------ control flow

class CFG:
    def __init__(self, body):
        self.blocks = body["blocks"]
        n = len(self.blocks)
        self.succ = [self.succs(b[2]) for b in self.blocks]
        order, seen = [], [0] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {self.rpo[0]: self.rpo[0]} if self.rpo else {}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b]:
                    if not self.dominates(s, b):
                        raise Unsupported("irreducible loop")
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st.extend(pred[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
            return list(dict.fromkeys(r))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []


class Frame:
    __slots__ = ("fnid", "body", "fid", "depth", "parent", "site", "rets", "cfg")


class Event:
    __slots__ = ("kind", "what", "stack", "guards", "args", "fnid", "span")

    def key(self, facts):
        own = [f for f, _ in self.stack]
        return (self.kind, self.what, own[-1] if own else None)


class Interp:
    MAXDEPTH = 60
    UNROLL = 80

    def __init__(self, facts):
        self.F = facts
        self.cfgs = {}
        self.events = []
        self.argstack = []
        self.endless = []       # calls made again with the same arguments
        self.turned = set()     # loop headers entered
        self.loops = {}
        self.stack = []
        self.called = set()      # (caller fn, callee fn) pairs seen
        self.leaves = {}         # leaf path -> count
        self.nblocks = 0
        self.opaque_cmp = True
        self.notes = []
        self.uniq = 0
        self.nosum = False
        self.is_opaque = lambda f: False     # functions kept uninterpreted (analysed on their own)
        self.opaque_calls = set()
        global VARIANT_DISCR, ENUM_DISCRS, NFIELDS, IS_ENUM
        VARIANT_DISCR = self.variant_discr
        ENUM_DISCRS = self.enum_discrs
        NFIELDS = self.nfields
        IS_ENUM = lambda ty: facts.types[ty].get("enum", False)
        for i, t in enumerate(facts.types):
            if t["k"] in ("int", "uint"):
                r = int_range(t["s"])
                if r:
                    INTR[t["s"]] = r
                    TYRNG[i] = r
            elif t["k"] == "char":
                TYRNG[i] = (0, 0x10FFFF)
            elif t["k"] == "bool":
                TYRNG[i] = (0, 1)
        import models
        models.bind(self)
        self.models = models.MODELS
        self.trait_models = models.TRAIT_MODELS
        self.M = models

    # -- types
    def variant_discr(self, ty, v):
        vs = self.F.types[ty].get("v") or []
        return int(vs[v]["d"]) if v < len(vs) and vs[v].get("d") is not None else v

    def enum_discrs(self, ty):
        t = self.F.types[ty]
        if t["k"] == "adt" and t.get("enum"):
            return tuple(int(x["d"]) for x in t["v"])
        return None

    def nfields(self, ty, v):
        t = self.F.types[ty]
        if t["k"] == "adt":
            return len(t["v"][v]["f"]) if v < len(t["v"]) else 0
        if t["k"] in ("tuple", "closure"):
            return len(t["f"])
        return None

    def ftypes(self, ty, v=0):
        t = self.F.types[ty]
        if t["k"] == "adt":
            return [f[1] for f in t["v"][v]["f"]]
        if t["k"] in ("tuple", "closure"):
            return list(t["f"])
        return None

    def variant_index(self, ty, d):
        for i, x in enumerate(self.F.types[ty]["v"]):
            if int(x["d"]) == d:
                return i
        return None

    def tname(self, ty):
        return self.F.types[ty]["s"]

    # -- memory
    def expand(self, v, ty, variant=0):
        """aggregate with the fields of a symbolic value"""
        ft = self.ftypes(ty, variant)
        if ft is None:
            raise Unsupported("expand " + self.tname(ty))
        t = self.F.types[ty]
        if t["k"] == "tuple":
            return mk("tuple", *[fld(v, i, x) for i, x in enumerate(ft)])
        if t["k"] == "closure":
            return mk("closure", t["fn"], *[fld(v, i, x) for i, x in enumerate(ft)])
        if t.get("enum"):
            return mk("adt", ty, variant, *[vfld(v, variant, i, x) for i, x in enumerate(ft)])
        return mk("adt", ty, 0, *[fld(v, i, x) for i, x in enumerate(ft)])

    def get(self, st, slot):
        v = st.mem.get(slot)
        if v is None:
            if slot[0] == "k":
                v = slot[1]
            elif slot[0] == "cell":
                v = typed(mk("deref", slot[1]), slot[2])
            else:
                return BOTTOM
        return prune(st, v)

    def proj(self, st, v, projs):
        i = 0
        n = len(projs)
        while i < n:
            p = projs[i]
            v = prune(st, v)
            if p[0] == "d":
                if i + 1 < n and projs[i + 1][0] == "f":
                    v = vfld(v, p[1], projs[i + 1][1], projs[i + 1][3])
                    i += 2
                    continue
                i += 1
                continue
            if p[0] == "f" and v.op == "ref" and v.a[0][:2] == ("tmp", "heap"):
                pass
            elif p[0] == "f":
                v = fld(v, p[1], p[3])
            elif p[0] == "i":
                v = self.seq_index(st, v, p[1], p[2])
            elif p[0] == "sub":
                v = self.M.subseq(v, p[1], p[2], p[3])
            else:
                raise Unsupported("proj " + p[0])
            i += 1
        return prune(st, v)

    def seq_index(self, st, v, idx, ty=None):
        v = seq_norm(prune(st, v))
        idx = prune(st, idx)
        if v.op == "vec" and idx.op == "int":
            n = idx.a[0]
            if 0 <= n < len(v.a) and all(p.op == "one" for p in v.a[: n + 1]):
                return v.a[n].a[0]
        if v.op == "phi":
            return mkphi([(g, self.seq_index(st, a, idx, ty)) for g, a in v.a[0]])
        if idx.op == "int" and idx.a[0] == 0:
            return typed(seq_head(v), ty)
        return typed(mk("idx", v, idx), ty)

    def load(self, st, ptr, projs=(), ty=None):
        """read through a pointer value"""
        ptr = prune(st, ptr)
        if ptr.op == "ref":
            v = self.get(st, ptr.a[0])
            return self.proj(st, v, ptr.a[1] + tuple(projs))
        if ptr.op == "phi":
            out = []
            for g, p in ptr.a[0]:
                if ev(st, g) is FALSE:
                    continue
                out.append((g, self.load(st, p, projs, ty)))
            return prune(st, mkphi(out))
        if ptr is BOTTOM:
            return BOTTOM
        if ptr.op in ("str", "cat"):
            return self.proj(st, ptr, tuple(projs))
        return self.proj(st, self.get(st, ("cell", ptr, ty)), tuple(projs))

    def store(self, st, slot, projs, val):
        if projs and slot[:2] == ("tmp", "heap"):
            # MaybeUninit { value: ManuallyDrop { value } }
            projs = tuple(projs)[2:] if all(p[0] == "f" for p in projs[:2]) else projs
        if not projs:
            st.mem[slot] = val
            return
        cur = self.get(st, slot)
        st.mem[slot] = self.update(st, cur, projs, val)

    def update(self, st, cur, projs, val):
        if not projs:
            return val
        cur = prune(st, cur)
        p = projs[0]
        if p[0] == "d" and len(projs) > 1 and projs[1][0] == "f":
            variant, i, ty = p[1], projs[1][1], p[2]
            if cur.op == "phi":
                return mkphi([(g, self.update(st, a, projs, val) if not (a.op == "adt" and a.a[1] != variant) else a)
                              for g, a in cur.a[0]])
            if cur.op != "adt":
                cur = self.expand(cur, ty, variant)
            if cur.a[1] != variant:
                return cur
            fs = list(cur.a[2:])
            fs[i] = self.update(st, fs[i], projs[2:], val)
            return mk_adt(cur.a[0], variant, fs)
        if p[0] == "d":
            return self.update(st, cur, projs[1:], val)
        if p[0] == "f":
            i, ty = p[1], p[2]
            if cur.op == "phi":
                return mkphi([(g, self.update(st, a, projs, val)) for g, a in cur.a[0]])
            if cur.op not in ("adt", "tuple", "closure"):
                if cur is BOTTOM:
                    # partially initialised aggregate
                    n = self.nfields(ty, 0)
                    t = self.F.types[ty]
                    if t["k"] == "tuple":
                        cur = mk("tuple", *[BOTTOM] * n)
                    else:
                        cur = mk("adt", ty, 0, *[BOTTOM] * n)
                else:
                    cur = self.expand(cur, ty, 0)
            off = {"adt": 2, "tuple": 0, "closure": 1}[cur.op]
            fs = list(cur.a[off:])
            fs[i] = self.update(st, fs[i], projs[1:], val)
            return rebuild(cur, fs)
        if p[0] == "i":
            cur = seq_norm(cur)
            idx = prune(st, p[1])
            if cur.op == "vec" and idx.op == "int" and idx.a[0] < len(cur.a) and all(
                    q.op == "one" for q in cur.a[: idx.a[0] + 1]):
                ps = list(cur.a)
                ps[idx.a[0]] = one(self.update(st, ps[idx.a[0]].a[0], projs[1:], val))
                return mk("vec", *ps)
            old = self.seq_index(st, cur, idx)
            return mk("vset", cur, idx, self.update(st, old, projs[1:], val))
        raise Unsupported("update " + str(p[0]))

    def store_ptr(self, st, ptr, projs, val, pty=None):
        ptr = prune(st, ptr)
        if ptr.op == "ref":
            self.store(st, ptr.a[0], ptr.a[1] + tuple(projs), val)
        elif ptr.op == "phi":
            for g, p in ptr.a[0]:
                e = ev(st, g)
                if e is FALSE:
                    continue
                old = self.load(st, p, projs, pty)
                self.store_ptr(st, p, projs, mkphi([(e, val), (NOT(e), old)]), pty)
        else:
            self.store(st, ("cell", ptr, pty), tuple(projs), val)

    # -- places
    def resolve(self, st, fr, place):
        """place -> list of (guard, slot, projs), type"""
        local = place[0]
        ty = fr.body["locals"][local]
        alts = [(TRUE, ("l", fr.fid, local), ())]
        variant = None
        enum_ty = None
        for p in place[1:]:
            if p == "*":
                t = self.F.types[ty]
                to = t.get("to")
                if to is None and t["k"] == "adt" and t["path"].startswith("alloc::boxed::Box"):
                    to = t["args"][0]
                    ty = to
                    continue     # a box is its content
                nalts = []
                for g, slot, projs in alts:
                    v = self.proj(st, self.get(st, slot), projs)
                    self.deref_alts(st, v, g, to, nalts)
                alts = nalts
                ty = to
                variant = None
            elif p[0] == "f":
                if variant is not None:
                    alts = [(g, s, pr + (("d", variant, ty), ("f", p[1], ty, p[2]))) for g, s, pr in alts]
                    variant = None
                else:
                    alts = [(g, s, pr + (("f", p[1], ty, p[2]),)) for g, s, pr in alts]
                ty = p[2]
            elif p[0] == "d":
                if self.F.types[ty].get("enum"):
                    variant = p[1]
            elif p[0] == "i":
                idx = self.get(st, ("l", fr.fid, p[1]))
                t = self.F.types[ty]
                ty = t.get("to")
                alts = [(g, s, pr + (("i", idx, ty),)) for g, s, pr in alts]
            elif p[0] == "c":
                off, mn, fe = p[1], p[2], p[3]
                t = self.F.types[ty]
                ty = t.get("to")
                na = []
                for g, s, pr in alts:
                    if fe:
                        v = self.proj(st, self.get(st, s), pr)
                        n = seq_len(v)
                        idx = I(n.a[0] - off) if n.op == "int" else mk("bin", "Sub", n, I(off))
                    else:
                        idx = I(off)
                    na.append((g, s, pr + (("i", idx, ty),)))
                alts = na
            elif p[0] == "s":
                alts = [(g, s, pr + (("sub", p[1], p[2], p[3]),)) for g, s, pr in alts]
            elif p[0] in ("o", "u"):
                pass
            else:
                raise Unsupported("place " + json.dumps(p))
        return alts, ty

    def deref_alts(self, st, v, g, to, out):
        v = prune(st, v)
        if v.op == "phi":
            for g2, a in v.a[0]:
                e = ev(st, g2)
                if e is FALSE:
                    continue
                self.deref_alts(st, a, AND([g, e]), to, out)
        elif v.op == "ref":
            out.append((g, v.a[0], v.a[1]))
        elif v is BOTTOM:
            pass
        elif self.is_unsized_content(to):
            out.append((g, ("k", v), ()))
        else:
            out.append((g, ("cell", v, to), ()))

    def is_unsized_content(self, ty):
        return self.F.types[ty]["k"] in ("str", "slice")

    def read_place(self, st, fr, place):
        alts, ty = self.resolve(st, fr, place)
        if len(alts) == 1:
            v = self.proj(st, self.get(st, alts[0][1]), alts[0][2])
        else:
            v = prune(st, mkphi([(g, self.proj(st, self.get(st, s), p)) for g, s, p in alts]))
        if v.op not in ("int", "str", "phi", "adt", "tuple"):
            typed(v, ty)
            if self.F.types[ty]["k"] == "bool":
                DOMAIN.setdefault(v, BOOLDOM)
        return v

    def write_place(self, st, fr, place, val):
        if len(place) == 1:
            st.mem[("l", fr.fid, place[0])] = val
            return
        alts, _ = self.resolve(st, fr, place)
        if len(alts) == 1:
            self.store(st, alts[0][1], alts[0][2], val)
            return
        for g, s, p in alts:
            old = self.proj(st, self.get(st, s), p)
            self.store(st, s, p, mkphi([(g, val), (NOT(g), old)]))

    # -- operands and rvalues
    def const(self, c):
        ty = c["ty"]
        t = self.F.types[ty]
        if "int" in c:
            v = int(c["int"])
            return I(v)
        if "str" in c:
            return S(c["str"])
        if "float" in c:
            return mk("float", str(c["float"]))
        if "bytes" in c:
            return mk("bytes", tuple(c["bytes"]) if isinstance(c["bytes"], list) else c["bytes"])
        if "elems" in c:
            return mk("array", *[self.const(x) for x in c["elems"]])
        if "ref" in c:
            v = self.const(c["ref"])
            tt = self.F.types[t["to"]] if "to" in t else None
            if tt is not None and tt["k"] in ("str", "slice"):
                return v
            return mk("ref", ("k", v), ())
        if "static" in c:
            return mk("ref", ("k", mk("static", c["static"])), ())
        if "fn" in c:
            return mk("fn", c["fn"])
        if "variant" in c:
            fs = [self.const(x) for x in c.get("fields", [])]
            return mk_adt(ty, c["variant"], fs)
        if "fields" in c:
            fs = [self.const(x) for x in c["fields"]]
            if t["k"] == "tuple":
                return mk("tuple", *fs)
            if t["k"] == "closure":
                return mk("closure", t["fn"], *fs)
            if t["k"] == "array":
                return mk("array", *fs)
            return mk_adt(ty, 0, fs)
        if t["k"] == "fndef":
            return mk("fn", t["fn"])
        if t["k"] == "closure":
            return mk("closure", t["fn"])
        if t["k"] == "tuple" and not t["f"]:
            return UNIT
        if t["k"] == "adt" and t.get("v") and not t.get("enum") and not t["v"][0]["f"]:
            return mk("adt", ty, 0)
        return typed(mk("const", c.get("opaque", t["s"]), ty), ty)

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rt":
            return I(0)
        raise Unsupported("operand " + str(o[0]))

    def optype(self, fr, o):
        if o[0] in ("cp", "mv"):
            ty = fr.body["locals"][o[1][0]]
            for p in o[1][1:]:
                if p == "*":
                    t = self.F.types[ty]
                    ty = t.get("to", t.get("args", [None])[0])
                elif p[0] == "f":
                    ty = p[2]
                elif p[0] in ("i", "c"):
                    ty = self.F.types[ty]["to"]
            return ty
        if o[0] == "k":
            return o[1]["ty"]
        return None

    def binop(self, st, op, a, b, ty):
        a, b = prune(st, a), prune(st, b)
        t = self.F.types[ty] if ty is not None else {"k": "?", "s": "?"}
        chk = op.endswith("WithOverflow")
        if chk:
            base = op[: -len("WithOverflow")]
            r = self.arith(base, a, b, t)
            lo, hi = rng(r)
            tl, th = int_range(t["s"]) or (None, None)
            if lo is not None and hi is not None and tl is not None and lo >= tl and hi <= th:
                o = I(0)
            elif r.op == "int":
                o = I(1)
            else:
                o = isbool(mk("ovf", base, a, b, t["s"]))
            return mk("tuple", r, o)
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        if op in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitXor") or (op in ("BitAnd", "BitOr") and t["k"] != "bool"):
            return self.arith(op, a, b, t)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr"):
            if t["k"] == "float":
                return isbool(mk("fcmp", op, a, b))
            if op in ("Eq", "Ne") and a.op == b.op == "discr" and a is not b and a in DOMAIN and b in DOMAIN \
                    and len(DOMAIN[a]) <= 16 and set(DOMAIN[a]) == set(DOMAIN[b]):
                f = OR([AND([cond(a, d), cond(b, d)]) for d in DOMAIN[a]])
                return bool_term(ev(st, f if op == "Eq" else NOT(f)))
            if op in ("Lt", "Le", "Gt", "Ge") and (a.op in ("ord", "ordrev", "discr") and b.op == "int" and a in DOMAIN and len(DOMAIN[a]) <= 4
                                                   or b.op in ("ord", "ordrev", "discr") and a.op == "int" and b in DOMAIN and len(DOMAIN[b]) <= 4):
                x, k = (a, b.a[0]) if b.op == "int" else (b, a.a[0])
                test = {"Lt": lambda p, q: p < q, "Le": lambda p, q: p <= q, "Gt": lambda p, q: p > q, "Ge": lambda p, q: p >= q}[op]
                f = OR([cond(x, d) for d in DOMAIN[x] if (test(d, k) if b.op == "int" else test(k, d))])
                return bool_term(ev(st, f))
            x = isbool(mk("bin", op, a, b))
            return bool_term(ev(st, cond(x, 1)))
        if op == "Cmp":
            if a.op == "int" and b.op == "int":
                return I((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))
            return self.M.ord_term(a, b)
        return mk("bin", op, a, b)

    def arith(self, op, a, b, t):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            r = None
            if op == "Add":
                r = x + y
            elif op == "Sub":
                r = x - y
            elif op == "Mul":
                r = x * y
            elif op == "BitAnd":
                r = x & y
            elif op == "BitOr":
                r = x | y
            elif op == "BitXor":
                r = x ^ y
            elif op == "Div" and y:
                r = int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
            elif op == "Rem" and y:
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif op == "Shl":
                r = x << y
            elif op == "Shr":
                r = x >> y
            if r is not None:
                return I(r)
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.id > b.id and t["k"] != "float":
            a, b = b, a
        if op in ("Add", "Sub") and b is I(0):
            return a
        if op == "Add" and a is I(0):
            return b
        if op == "Mul" and a is I(1):
            return b
        if op == "Mul" and b is I(1):
            return a
        return mk("bin", op, a, b)

    def rvalue(self, st, fr, rv, dty=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "raw":
            alts, ty = self.resolve(st, fr, rv[1])
            out = []
            for g, s, p in alts:
                if self.F.types[ty]["k"] in ("str", "slice"):
                    if s[0] in ("k",) or not (k == "ref" and rv[2]):
                        v = self.proj(st, self.get(st, s), p)
                        out.append((g, v))
                        continue
                if s[0] == "cell" and not p and s not in st.mem:
                    out.append((g, s[1]))       # &*x  ==  x
                    continue
                out.append((g, mk("ref", s, p)))
            return out[0][1] if len(out) == 1 else mkphi(out)
        if k == "agg":
            kind, ty, variant, ops = rv[1], rv[2], rv[3], rv[4]
            vs = [self.operand(st, fr, o) for o in ops]
            if kind == "array":
                return mk("array", *vs)
            if kind == "tuple":
                return mk("tuple", *vs)
            if kind == "adt":
                return mk_adt(ty, variant, vs)
            if kind == "closure":
                return mk("closure", self.F.types[ty]["fn"], *vs)
            return mk("agg", kind, *vs)
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            ty = rv[2] if len(rv) > 2 else None
            alts, pty = self.resolve(st, fr, rv[1])
            if v.op not in ("adt", "phi", "int", "ord"):
                typed(v, pty)
            return prune(st, discr_of(v, self.enum_discrs(pty)))
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            op = rv[1]
            if op == "Not":
                t = self.F.types[rv[3]] if len(rv) > 3 else {"k": "?"}
                if t["k"] == "bool":
                    return bool_term(ev(st, cond(v, 0)))
                return mk("un", "Not", v)
            if op == "Neg":
                if v.op == "int":
                    return I(-v.a[0])
                return mk("un", "Neg", v)
            if op == "PtrMetadata":
                ot = self.optype(fr, rv[2])
                to = self.F.types[ot].get("to")
                if to is not None and self.F.types[to]["k"] in ("slice", "str", "array"):
                    s = v
                    if v.op == "ref":
                        s = self.load(st, v)
                    if self.F.types[to]["k"] == "str":
                        return self.M.str_len(s)
                    return seq_len(s)
                return mk("un", op, v)
            return mk("un", op, v)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return mk("array", *[v] * n)
            return mk("repeat", v)
        if k == "len":
            return seq_len(self.read_place(st, fr, rv[1]))
        if k == "tls":
            return mk("ref", ("k", mk("static", rv[1])), ())
        self.uniq += 1
        return mk("unk", k, self.uniq)

    def cast(self, st, fr, rv):
        kind, o, to, frm = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(st, fr, o)
        tt = self.F.types[to]
        if "Unsize" in kind:
            ft = self.F.types[frm]
            if tt.get("to") is not None and self.F.types[tt["to"]]["k"] == "slice":
                if tt.get("mut"):
                    return v
                return seq_norm(self.load(st, v)) if v.op == "ref" else v
            return v
        if "ReifyFn" in kind or "ClosureFn" in kind or "PtrToPtr" in kind or "UnsafeFn" in kind or "MutToConst" in kind:
            return v
        if "Transmute" in kind or "Subtype" in kind:
            return v
        if "IntToInt" in kind:
            return self.int_cast(st, v, tt["s"], self.F.types[frm]["s"])
        return mk("cast", kind, v, tt["s"])

    def int_cast(self, st, v, to, frm):
        v = prune(st, v)
        if v.op == "phi":
            return mkphi([(g, self.int_cast(st, a, to, frm)) for g, a in v.a[0]])
        r = int_range(to) or ((0, 0x10FFFF) if to == "char" else None)
        if v.op == "int" and r:
            x = v.a[0]
            m = r[1] - r[0] + 1
            x = (x - r[0]) % m + r[0]
            return I(x)
        fr_ = int_range(frm)
        lo, hi = rng(v)
        if r and ((lo is not None and hi is not None and lo >= r[0] and hi <= r[1])
                  or (fr_ and fr_[0] >= r[0] and fr_[1] <= r[1])):
            return mk("cast", "IntToInt", v, to)
        if frm == to:
            return v
        return mk("cast", "Trunc", v, to)

    # -- running functions
    def run(self, fnid, args, st=None):
        """analyse fnid on abstract arguments -> (state, result) ; result None if it never returns"""
        if st is None:
            st = St()
        return self.call_fn(st, fnid, args, None, ("root", fnid))

    def contents(self, st, fnid, args):
        """what the arguments of a call hold, leaving out the formatter it writes to"""
        out = []
        for a in args:
            n = 0
            while a.op == "ref" and n < 8:
                a = self.proj(st, self.get(st, a.a[0]), a.a[1])
                n += 1
            if a.op != "fmtr":
                out.append(a)
        return out

    def again(self, st, fnid, args):
        mine = self.contents(st, fnid, args)
        for f, theirs in self.argstack:
            if f == fnid and len(mine) == len(theirs) and mine and all(a is b for a, b in zip(mine, theirs)):
                self.endless.append((fnid, list(self.stack), st.lits()))
                return True
        return False

    def call_fn(self, st, fnid, args, span, site):
        body = self.F.fns[fnid].get("body")
        if body is None:
            raise Unsupported("no body " + self.F.fns[fnid]["name"])
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth at " + self.F.fns[fnid]["path"])
        rec = sum(1 for f, _ in self.stack if f == fnid)
        if rec >= 3:
            raise Unsupported("recursion " + self.F.fns[fnid]["path"])
        fr = Frame()
        fr.fnid = fnid
        fr.body = body
        fr.fid = mk("frame", tuple(s for _, s in self.stack), site, fnid)
        fr.rets = []
        cfg = self.cfgs.get(fnid)
        if cfg is None:
            cfg = self.cfgs[fnid] = CFG(body)
        fr.cfg = cfg
        if rec and self.again(st, fnid, args):
            return None, None       # the same call with the same arguments: it never returns
        self.stack.append((fnid, site))
        self.argstack.append((fnid, self.contents(st, fnid, args)))
        st = st.copy()
        argc = body["argc"]
        if body.get("spread") is not None:
            sp = body["spread"]
            n = sp - 1
            args = list(args[:n]) + [mk("tuple", *args[n:])] if len(args) != argc else list(args)
        if len(args) != argc:
            raise Unsupported("arity %s %d %d" % (self.F.fns[fnid]["name"], len(args), argc))
        for i, a in enumerate(args):
            st.mem[("l", fr.fid, i + 1)] = a
            if a.op not in ("int", "str", "phi"):
                typed(a, body["locals"][i + 1])
        try:
            exits, _ = self.region(fr, {cfg.rpo[0]: [st]}, None, set(cfg.rpo))
        finally:
            self.stack.pop()
            self.argstack.pop()
        res = merge(fr.rets)
        if res is None:
            return None, None
        val = self.get(res, ("l", fr.fid, 0))
        res = res.copy()
        if val is BOTTOM and self.F.types[body["locals"][0]]["s"] == "()":
            val = UNIT
        for k in [k for k in res.mem if k[0] == "l" and k[1] is fr.fid]:
            del res.mem[k]
        return res, val

    def region(self, fr, pending, header, blocks):
        """Process the blocks of a region in reverse postorder.
        Returns (exits: target -> [states], backs: [states])"""
        cfg = fr.cfg
        exits = {}
        backs = []
        first = True
        for b in cfg.rpo:
            if b not in blocks:
                continue
            sts = pending.pop(b, None)
            if not sts:
                continue
            st = merge(sts)
            if st is None:
                continue
            if b in cfg.loops and b != header:
                outs = self.loop(fr, b, st)
            else:
                outs = self.block(fr, b, st)
            for tgt, s in outs:
                if s is None:
                    continue
                if tgt == header and header is not None:
                    backs.append(s)
                elif tgt in blocks:
                    pending.setdefault(tgt, []).append(s)
                else:
                    exits.setdefault(tgt, []).append(s)
        return exits, backs

    def block(self, fr, b, st):
        self.nblocks += 1
        cleanup, stmts, term = fr.body["blocks"][b]
        st = st.copy()
        for s in stmts:
            if s[0] == "=":
                ty = None
                v = self.rvalue(st, fr, s[2])
                if v is BOTTOM and s[2][0] == "use":
                    pass
                self.write_place(st, fr, s[1], v)
            elif s[0] == "sd":
                alts, ty = self.resolve(st, fr, s[1])
                for g, sl, p in alts:
                    self.store(st, sl, p, mk("adt", ty, s[2]))
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "drop":
            return [(term[2], st)]
        if k == "return":
            fr.rets.append(st)
            return []
        if k == "switch":
            return self.switch(fr, st, term)
        if k == "assert":
            return self.do_assert(fr, st, term, b)
        if k == "call":
            return self.do_call(fr, st, term, b)
        return []

    def switch(self, fr, st, term):
        t = self.operand(st, fr, term[1])
        outs = []
        vals = []
        for v, bb in term[2]:
            v = int(v)
            vals.append(v)
            s = assume(st, cond_v(t, v))
            if s is not None:
                outs.append((bb, s))
        bb = term[3]
        f = AND([NOT(cond_v(t, v)) for v in vals])
        dom = DOMAIN.get(t)
        if dom is not None and all(d in vals for d in dom):
            f = FALSE
        s = assume(st, f)
        if s is not None:
            outs.append((bb, s))
        return outs

    def do_assert(self, fr, st, term, b):
        c = self.operand(st, fr, term[1])
        exp = 1 if term[2] else 0
        ok = cond(c, exp)
        e = ev(st, ok)
        if e is not TRUE and not self.discharge(st, c, exp) and not self.counting(fr, c):
            bad = assume(st, NOT(e))
            if bad is not None:
                self.event("assert", term[3] if isinstance(term[3], str) else json.dumps(term[3]), bad,
                           [c], span=term[6] if len(term) > 6 else None)
        s = assume(st, ok)
        return [(term[5], s)] if s is not None else []

    def counting(self, fr, c):
        """the counter inside an adapter that only numbers elements it has drawn one at a
        time from a collection: it cannot pass the width of usize"""
        return c.op == "ovf" and c.a[0] == "Add" and c.a[2] is I(1) \
            and self.F.fns[fr.fnid]["path"].startswith("core::iter::adapters::enumerate::") \
            or c.op == "ovf" and c.a[0] == "Add" and c.a[2] is I(1) \
            and "Enumerate" in self.F.fns[fr.fnid]["path"] and self.F.fns[fr.fnid]["path"].startswith(("core::", "<core::"))

    def discharge(self, st, c, exp):
        """facts that rule out an arithmetic or bounds assertion"""
        if c.op == "ovf" and exp == 0:
            op, a, b, tys = c.a
            r = int_range(tys)
            if r is None:
                return False
            (al, ah), (bl, bh) = self.rng_st(st, a), self.rng_st(st, b)
            if None in (al, ah, bl, bh):
                return False
            if op == "Add":
                return al + bl >= r[0] and ah + bh <= r[1]
            if op == "Sub":
                return al - bh >= r[0] and ah - bl <= r[1]
            if op == "Mul":
                c4 = [al * bl, al * bh, ah * bl, ah * bh]
                return min(c4) >= r[0] and max(c4) <= r[1]
        if c.op == "bin" and c.a[0] == "Lt" and exp == 1:
            return self.lt_known(st, c.a[1], c.a[2])
        if c.op == "bin" and c.a[0] == "Lt" and exp == 0:
            return self.lt_known(st, c.a[2], mk("bin", "Add", c.a[1], I(1)))
        return False

    def lt_known(self, st, a, b):
        (al, ah), (bl, bh) = self.rng_st(st, a), self.rng_st(st, b)
        return ah is not None and bl is not None and ah < bl

    def rng_st(self, st, t):
        lo, hi = rng(t)
        f = st.facts.get(t)
        if f is not None:
            if f[0] == "=" and isinstance(f[1], int):
                return (f[1], f[1])
            if f[0] == "!" and lo is not None:
                while lo in f[1]:
                    lo += 1
        if t.op == "len":
            e = ev(st, seq_empty(t.a[0]))
            if e is FALSE and (lo is None or lo < 1):
                lo = 1
            n = self.min_len(st, t.a[0])
            if lo is None or n > lo:
                lo = n
        if t.op == "slen":
            if ev(st, cond(t.a[0], "")) is FALSE and (lo is None or lo < 1):
                lo = 1
            lo = 0 if lo is None else lo
            hi = (1 << 63) - 1 if hi is None else hi
        # known comparisons
        for x, (k, v) in st.facts.items():
            if x.op == "bin" and x.a[0] == "Lt" and k == "=":
                a, b = x.a[1], x.a[2]
                if v == 1 and a is t:
                    _, h = rng(b)
                    if h is not None and (hi is None or h - 1 < hi):
                        hi = h - 1
                if v == 1 and b is t:
                    l, _ = rng(a)
                    if l is not None and (lo is None or l + 1 > lo):
                        lo = l + 1
                if v == 0 and b is t:   # not (a < t): t <= a
                    _, h = rng(a)
                    if h is not None and (hi is None or h < hi):
                        hi = h
                if v == 0 and a is t:   # t >= b
                    l, _ = rng(b)
                    if l is not None and (lo is None or l > lo):
                        lo = l
            if k == "=" and v == 0 and x.op == "call" and x.a[0] == "is_char_boundary" and x.a[2] is t:
                if lo is None or lo < 1:
                    lo = 1      # index 0 is always a boundary
        return (lo, hi)

    def min_len(self, st, x):
        x = seq_norm(x)
        if x.op == "vec":
            n = 0
            for p in x.a:
                n += 1 if p.op == "one" else self.min_len(st, p.a[0])
            return n
        if x.op == "phi":
            return min(self.min_len(st, a) for _, a in x.a[0])
        if x.op in ("split", "splitn"):
            return 1
        if x.op == "rep":
            return 0
        f = st.facts.get(mk("len", x))
        if f is not None and f[0] == "=":
            return f[1]
        if ev(st, seq_empty(x)) is FALSE:
            return 1
        return 0

    def event(self, kind, what, st, args, span=None, fnid=None):
        e = Event()
        e.kind = kind
        e.what = what
        e.stack = [(f, s) for f, s in self.stack]
        e.guards = st.lits()
        e.args = args
        e.fnid = fnid
        e.span = span
        self.events.append(e)

    # -- loops
    def loop(self, fr, header, st0):
        lid = ("L", fr.fid, header)
        self.turned.add((fr.fnid, header))
        blocks = fr.cfg.loops[header]

        def step(h):
            exits, backs = self.region(fr, {header: [h]}, header, blocks)
            return [(t, s) for t, ss in exits.items() for s in ss], backs

        # returns inside the loop end up in fr.rets: handle like exits
        return self.run_loop(lid, st0, step, fr)

    def run_loop(self, lid, st0, step, fr=None):
        lidt = mk("loop", *lid)
        ev0 = len(self.events)
        rets0 = len(fr.rets) if fr is not None else 0
        # decided iterations are peeled
        st = st0
        all_exits = []
        peeled = 0
        while True:
            nev = len(self.events)
            nret = len(fr.rets) if fr is not None else 0
            exits, backs = step(st)
            if not backs:
                return all_exits + exits
            b = merge(backs)
            nr = (len(fr.rets) - nret) if fr is not None else 0
            if peeled < self.UNROLL and (self.decided(st, b) or (not exits and nr == 0)):
                all_exits += exits
                st = b
                peeled += 1
                if not exits and nr == 0 and peeled > 70:
                    break
                continue
            del self.events[nev:]
            if fr is not None:
                del fr.rets[nret:]
            break
        nev = len(self.events)
        nret = len(fr.rets) if fr is not None else 0
        head = st
        base = st = st.copy()
        for it in range(12):
            del self.events[nev:]
            if fr is not None:
                del fr.rets[nret:]
            exits, backs = step(head)
            if not backs:
                break
            b = merge(backs)
            h2 = self.widen(lidt, head, b, base)
            if h2 is None:
                break
            head = h2
        else:
            raise Unsupported("loop does not stabilise: " + show(lidt)[:200])
        rets = fr.rets[nret:] if fr is not None else []
        rec = {"id": lidt, "init": {}, "next": {}, "base": base, "head": head, "exits": exits,
               "rets": rets, "fn": self.stack[-1][0] if self.stack else None,
               "stack": list(self.stack), "nexts": {}, "iters": {}, "elem": {}}
        if backs:
            b = merge(backs)
            rec["back"] = b
            for slot, v in head.mem.items():
                bv = b.mem.get(slot)
                self.collect_lv(lidt, v, base.mem.get(slot), bv, rec, b)
        self.loops[lidt] = rec
        if not backs:
            return all_exits + exits
        m = {} if self.nosum else self.summarise(rec)
        if m:
            early = None

            def close(s):
                nonlocal early
                if rec["iters"] and not any(ev(s, seq_empty(lv)) is TRUE for lv in rec["iters"]):
                    # left before the end of the sequence: only the elements before count
                    if early is None:
                        early = self.summarise(rec, True)
                    return self.subst_state(s, early)
                return self.subst_state(s, m)
            exits = [(t, close(s)) for t, s in exits]
            if fr is not None and rets:
                fr.rets[nret:] = [close(s) for s in rets]
        return all_exits + exits

    def subst_state(self, s, m):
        memo = {}
        mem = {k: subst(v, m, memo) for k, v in s.mem.items()}
        facts = {}
        n = St(mem, facts, ())
        ors = []
        for t, (k, v) in s.facts.items():
            f = subst_f(mk("lit", t, k, v), m, memo)
            if f.op == "lit":
                facts[f.a[0]] = (f.a[1], f.a[2])
            elif f is TRUE or f is FALSE:
                if f is FALSE:
                    facts[t] = (k, v)
            else:
                ors.append(f)
        for o in s.ors:
            ors.append(subst_f(o, m, memo))
        for o in ors:
            if o is FALSE or o is TRUE:
                continue
            if o.op == "lit":
                n.facts[o.a[0]] = (o.a[1], o.a[2])
            elif o.op == "and":
                for l in o.a:
                    if l.op == "lit":
                        n.facts[l.a[0]] = (l.a[1], l.a[2])
                    else:
                        n.ors = n.ors + (l,)
            else:
                n.ors = n.ors + (o,)
        return n

    def decided(self, st, b):
        """an iterator of known length got shorter"""
        for slot, v in b.mem.items():
            o = st.mem.get(slot)
            if o is not None and o is not v and self.shrunk(o, v):
                return True
        return False

    def shrunk(self, o, v):
        if o.op == "it" and v.op == "it":
            return self.known_len(o.a[0]) is not None and self.known_len(v.a[0]) is not None and \
                self.known_len(v.a[0]) < self.known_len(o.a[0])
        if o.op == v.op and o.op in ("adt", "tuple") and len(o.a) == len(v.a):
            # integer ranges
            if o.op == "adt" and self.F.types[o.a[0]].get("path") == "core::ops::range::Range":
                return all(x.op == "int" for x in o.a[2:]) and all(x.op == "int" for x in v.a[2:]) and \
                    v.a[2].a[0] > o.a[2].a[0]
            return any(isinstance(x, T) and isinstance(y, T) and x is not y and self.shrunk(x, y)
                       for x, y in zip(o.a, v.a))
        return False

    def known_len(self, s):
        s = seq_norm(s)
        if s.op == "vec" and all(p.op == "one" for p in s.a):
            return len(s.a)
        return None

    def widen(self, lid, h, b, base):
        out = St({}, {}, ())
        changed = False
        mem = dict(h.mem)
        for slot in b.mem:
            # written for the first time inside the loop
            if slot[0] == "cell" and slot not in mem:
                mem[slot] = self.get(h, slot)
                base.mem.setdefault(slot, mem[slot])
        for slot, v in mem.items():
            bv = b.mem.get(slot)
            if bv is None:
                changed = True if False else changed
                out.mem[slot] = v
                continue
            w = self.wid(lid, slot, (), v, bv)
            if w is not v:
                changed = True
            out.mem[slot] = w
        for t, f in h.facts.items():
            if b.facts.get(t) == f:
                out.facts[t] = f
            elif ev(b, mk("lit", t, f[0], f[1])) is TRUE:
                out.facts[t] = f
            else:
                changed = True
        ors = tuple(o for o in h.ors if o in b.ors)
        if ors != h.ors:
            changed = True
        out.ors = ors
        return out if changed else None

    def wid(self, lid, slot, path, h, b):
        if h is b:
            return h
        if h.op == "lv" and h.a[0] is lid and h.a[1] == slot and h.a[2] == path:
            return h
        if h.op == b.op:
            if h.op == "adt" and h.a[:2] == b.a[:2] and len(h.a) == len(b.a):
                return mk("adt", h.a[0], h.a[1], *[self.wid(lid, slot, path + (i,), x, y)
                                                  for i, (x, y) in enumerate(zip(h.a[2:], b.a[2:]))])
            if h.op == "tuple" and len(h.a) == len(b.a):
                return mk("tuple", *[self.wid(lid, slot, path + (i,), x, y) for i, (x, y) in enumerate(zip(h.a, b.a))])
            if h.op == "closure" and h.a[0] == b.a[0]:
                return mk("closure", h.a[0], *[self.wid(lid, slot, path + (i,), x, y)
                                              for i, (x, y) in enumerate(zip(h.a[1:], b.a[1:]))])
            if h.op == "it" and h.a[1] == b.a[1]:
                return mk("it", self.wid(lid, slot, path + ("s",), h.a[0], b.a[0]), h.a[1])
            if h.op == "fmtr" and h.a[1] is b.a[1]:
                return mk("fmtr", self.wid(lid, slot, path + ("b",), h.a[0], b.a[0]), h.a[1])
            if h.op == "ref" and h.a[0] == b.a[0] and h.a[1] != b.a[1] and False:
                pass
        # symbolic structs that were expanded by the body: expand the head too
        if b.op == "adt" and h.op not in ("adt", "phi", "lv") and not self.F.types[b.a[0]].get("enum") \
                and TYOF.get(h) == b.a[0]:
            return self.wid(lid, slot, path, self.expand(h, b.a[0]), b)
        lv = mk("lv", lid, slot, path)
        ty = TYOF.get(h) or TYOF.get(b)
        if ty is None:
            for x in (h, b):
                if x.op == "adt":
                    ty = x.a[0]
                if x.op == "phi":
                    for _, a in x.a[0]:
                        if a.op == "adt":
                            ty = a.a[0]
                        elif a in TYOF:
                            ty = TYOF[a]
        if ty is not None:
            typed(lv, ty)
        if DOMAIN.get(h) == BOOLDOM or DOMAIN.get(b) == BOOLDOM or (
                ty is not None and self.F.types[ty]["k"] == "bool"):
            DOMAIN[lv] = BOOLDOM
        if h.op == "int" and b.op == "int" and {h.a[0], b.a[0]} <= {0, 1} and (
                slot[0] == "l" and self.local_is_bool(slot, path)):
            DOMAIN[lv] = BOOLDOM
        return lv

    def frame_key(self):
        return mk("frames", tuple(s for _, s in self.stack))

    def local_is_bool(self, slot, path):
        fnid = slot[1].a[2] if slot[1].op == "frame" else None
        if fnid is None or path:
            return False
        return self.F.types[self.F.fns[fnid]["body"]["locals"][slot[2]]]["k"] == "bool"

    def collect_lv(self, lid, h, i, b, rec, bst):
        if h is None:
            return
        if h.op == "lv" and h.a[0] is lid:
            if h not in rec["init"]:
                rec["init"][h] = i if i is not None else BOTTOM
                rec["next"][h] = b if b is not None else BOTTOM
            return
        if b is None or h is b:
            return
        i2 = i
        if h.op in ("adt", "tuple", "closure", "it", "fmtr") and b.op == h.op and len(b.a) == len(h.a):
            if i is not None and i.op != h.op and h.op == "adt" and TYOF.get(i) == h.a[0] and i.op != "phi":
                i2 = self.expand(i, h.a[0])
            for n in range(len(h.a)):
                if isinstance(h.a[n], T):
                    self.collect_lv(lid, h.a[n], i2.a[n] if i2 is not None and i2.op == h.op and len(i2.a) == len(h.a) else None,
                                    b.a[n], rec, bst)

    # -- loop summaries
    def summarise(self, rec, early=False):
        """closed forms of loop-carried values, valid at every exit"""
        lid = rec["id"]
        m = {}
        its = {}
        for lv, nx in rec["next"].items():
            if nx.op == "tail" and nx.a[0] is lv:
                its[lv] = rec["init"][lv]
        rec["iters"] = its
        # element of the iteration
        elem = {}
        for lv, s0 in its.items():
            e = mk("elem", lid, s0)
            h = mk("head", lv)
            if h in TYOF:
                typed(e, TYOF[h])
            elem[h] = e
        rec["elem"] = elem
        nexts = {lv: subst(nx, elem) for lv, nx in rec["next"].items()}
        rec["nexts"] = nexts
        seq = mk("iters", lid, *[s for s in its.values()]) if len(its) != 1 else list(its.values())[0]
        if early:
            seq = mk("before", lid, seq)
        m.update(elem)
        lvs = set(rec["next"])
        # "first iteration" predicates: boolean flag or counter that leaves its initial value
        firsts = {}
        for lv, nx in nexts.items():
            i0 = rec["init"][lv]
            if i0.op == "int" and nx.op == "int" and nx is not i0:
                firsts[lv] = i0.a[0]
            if i0.op == "int" and nx.op == "bin" and nx.a[0] == "Add" and lv in nx.a[1:] and any(
                    isinstance(x, T) and x.op == "int" and x.a[0] > 0 for x in nx.a[1:]):
                firsts[lv] = i0.a[0]
        for lv, nx in nexts.items():
            if lv in its:
                continue
            i0 = rec["init"][lv]
            if nx.op == "cat" and nx.a[0] is lv:
                body = cat(nx.a[1:])
                used = {x for x in subterms(body) if x in lvs}
                if not (used & {lv}) and not (used & set(firsts)):
                    m[lv] = cat([i0, mk("rep", lid, seq, body)])
                    continue
                j = self.sep_join(lv, i0, nx, firsts, lid, seq)
                if j is not None:
                    m[lv] = cat([i0, j])
                    continue
            if nx.op == "vec" and nx.a and nx.a[0] is mk("all", lv):
                body = vcat_norm(nx.a[1:])
                used = {x for x in subterms(body) if x in lvs}
                if lv not in used:
                    m[lv] = seq_append(i0, [mk("all", mk("rep", lid, seq, body))])
                    continue
        return m

    def sep_join(self, lv, i0, nx, firsts, lid, seq):
        """acc += if first {""} else {sep}; acc += body"""
        parts = nx.a[1:]
        if len(parts) < 2 or parts[0].op != "phi" or len(parts[0].a[0]) != 2:
            return None
        alts = dict((v, g) for g, v in parts[0].a[0])
        if S("") not in alts:
            return None
        sep = [v for v in alts if v is not S("")][0]
        g = alts[S("")]
        ok = False
        if g.op == "lit" and g.a[1] == "=":
            if g.a[0] is lv and g.a[2] == "" and i0 is S(""):
                ok = True
            if g.a[0] in firsts and g.a[2] == firsts[g.a[0]]:
                ok = True
        if not ok:
            return None
        return mk("join", lid, seq, cat(parts[1:]), sep)

    # -- calls
    def do_call(self, fr, st, term, b):
        func, args, dest, target = term[1], term[2], term[3], term[4]
        span = term[5] if len(term) > 5 else None
        vals = [self.operand(st, fr, a) for a in args]
        site = (b,)
        if func[0] == "k" and "fn" in func[1]:
            res = self.call(st, func[1]["fn"], vals, site, span, func[1])
        else:
            f = self.operand(st, fr, func)
            s2, v = self.call_value(st, f, vals, site, span)
            res = (s2, v)
        s2, v = res
        if s2 is None or target is None:
            return []
        s2 = s2.copy()
        dty = self.place_type(fr, dest)
        if v.op not in ("int", "str", "phi"):
            typed(v, dty)
            if self.F.types[dty]["k"] == "bool":
                DOMAIN.setdefault(v, BOOLDOM)
        self.write_place(s2, fr, dest, v)
        return [(target, s2)]

    def place_type(self, fr, place):
        return self.optype(fr, ["cp", place])

    def call(self, st, fnid, vals, site, span, c=None):
        """-> (state, value); state None when the call never returns"""
        f = self.F.fns[fnid]
        path = f["path"]
        kind = f.get("kind")
        if self.stack:
            self.called.add((self.stack[-1][0], fnid))
        ctx = (fnid, site, span)
        if self.is_opaque(f):
            self.opaque_calls.add(fnid)
            return self.M.opaque_call(self, st, f, vals, ctx)
        m = self.models.get(path)
        if m is None and f.get("trait"):
            m = self.trait_models.get(f["trait"])
        if m is not None:
            r = m(self, st, f, vals, ctx)
            if r is not None:
                self.leaves[path] = self.leaves.get(path, 0) + 1
                return r
        if f.get("dk") == "Closure" and f.get("body") is not None:
            vs = self.untuple(st, vals[1]) if len(vals) == 2 else vals[1:]
            return self.call_value(st, vals[0], vs, site, span)
        if "body" in f and f["body"] is not None and kind in ("item", None):
            r = self.call_fn(st, fnid, vals, span, site)
            if r[0] is None and f["krate"] not in ("ikal", "ikal_witness") and ("::iter::" in path or "into_iter" in path):
                raise Unsupported("%s on an abstract sequence" % path)
            return r
        r = self.M.fallback(self, st, f, vals, ctx)
        self.leaves[path] = self.leaves.get(path, 0) + 1
        return r

    def call_value(self, st, f, vals, site, span=None):
        """call a function value with already untupled arguments"""
        f = prune(st, f)
        if f.op == "ref":
            inner = self.load(st, f)
            if inner.op == "closure":
                return self.call_closure(st, inner, f, vals, site, span)
            return self.call_value(st, inner, vals, site, span)
        if f.op == "closure":
            return self.call_closure(st, f, None, vals, site, span)
        if f.op == "fn":
            return self.call(st, f.a[0], vals, site, span)
        if f.op == "phi":
            outs = []
            for i, (g, x) in enumerate(f.a[0]):
                s = assume(st, g)
                if s is None:
                    continue
                s, v = self.call_value(s, x, vals, site + ("phi", i), span)
                if s is not None:
                    s = s.copy()
                    s.mem[("tmp", "cv")] = v
                    outs.append(s)
            s = merge(outs)
            if s is None:
                return None, None
            v = s.mem.pop(("tmp", "cv"))
            return s, v
        if f.op == "adt" and not f.a[2:] and self.F.types[f.a[0]]["k"] == "fndef":
            return self.call(st, self.F.types[f.a[0]]["fn"], vals, site, span)
        if f.op == "ctor":
            return st, mk_adt(f.a[0], f.a[1], vals)
        self.event("unknown-call", show(f)[:80], st, vals, span)
        self.uniq += 1
        return st, mk("call", "?value", f, *[self.snap(st, v) for v in vals])

    def call_closure(self, st, clo, ptr, vals, site, span):
        fnid = clo.a[0]
        body = self.F.fns[fnid].get("body")
        if body is None:
            raise Unsupported("closure body " + self.F.fns[fnid]["name"])
        envty = self.F.types[body["locals"][1]]
        if envty["k"] == "ref":
            if ptr is not None:
                return self.call_fn(st, fnid, [ptr] + list(vals), span, site)
            slot = ("tmp", "env", tuple(s for _, s in self.stack), site, fnid)
            st = st.copy()
            st.mem[slot] = clo
            s, v = self.call_fn(st, fnid, [mk("ref", slot, ())] + list(vals), span, site)
            return s, v
        return self.call_fn(st, fnid, [clo] + list(vals), span, site)

    def untuple(self, st, t, n=None):
        t = prune(st, t)
        if t.op == "tuple":
            return list(t.a)
        if t.op == "phi":
            if all(a.op == "tuple" for _, a in t.a[0]):
                n = len(t.a[0][0][1].a)
                return [mkphi([(g, a.a[i]) for g, a in t.a[0]]) for i in range(n)]
        ty = TYOF.get(t)
        if ty is not None and self.F.types[ty]["k"] == "tuple":
            return [fld(t, i, x) for i, x in enumerate(self.F.types[ty]["f"])]
        raise Unsupported("untuple " + show(t)[:80])

    # -- content snapshots (state independent)
    def snap_own(self, st, v):
        """a value moved into a container: references keep pointing at a copy of their content"""
        if not any(x.op == "ref" for x in subterms(v)):
            return v
        return self.snap(st, v)

    def snap(self, st, v, d=0):
        v = prune(st, v)
        if v.op == "ref":
            c = self.load(st, v)
            return self.snap(st, c, d + 1)
        if v.op == "phi":
            return mkphi([(g, self.snap(st, a, d)) for g, a in v.a[0] if ev(st, g) is not FALSE])
        if v.op in ("adt", "tuple", "closure", "array", "vec", "one", "all", "it") and d < 12:
            na = [self.snap(st, x, d + 1) if isinstance(x, T) else x for x in v.a]
            if all(a is b for a, b in zip(na, v.a)):
                return v
            return mk(v.op, *na)
        return v


def cond_v(t, v):
    return cond(t, v)


def int_range(s):
    m = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767),
         "u32": (0, (1 << 32) - 1), "i32": (-(1 << 31), (1 << 31) - 1),
         "u64": (0, (1 << 64) - 1), "i64": (-(1 << 63), (1 << 63) - 1),
         "usize": (0, (1 << 64) - 1), "isize": (-(1 << 63), (1 << 63) - 1),
         "u128": (0, (1 << 128) - 1), "i128": (-(1 << 127), (1 << 127) - 1)}
    return m.get(s)
