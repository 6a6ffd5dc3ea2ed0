"""Reading summaries: alternatives of a term, restriction under a fact, Result/Option unwrapping."""
import engine as E
from terms import *


def assume(f, st=None):
    st = E.St() if st is None else st.copy()
    return E.assume(st, f)


def under(f, v, st=None):
    """v restricted to the executions in which f holds; None if there are none"""
    s = assume(f, st)
    if s is None:
        return None
    return E.restrict(s, v)


def alts(v, g=TRUE):
    """(guard, leaf) alternatives of the top-level choice"""
    if v is None or v.op == "bottom":
        return
    if v.op == "phi":
        for h, x in v.a[0]:
            k = AND([g, h])
            if k is FALSE:
                continue
            yield from alts(x, k)
    else:
        yield g, v


def leaves(v):
    return [x for _, x in alts(v)]


def path_of(F, t):
    if t is not None and t.op == "adt":
        return F.types[t.a[0]].get("path")
    return None


def variant(F, t):
    """(enum path, variant name, fields) of an aggregate"""
    if t.op != "adt":
        return None
    ty = F.types[t.a[0]]
    return ty["path"], ty["v"][t.a[1]]["n"], t.a[2:]


RESULT = "core::result::Result"
OPTION = "core::option::Option"


def results(F, v):
    """[(guard, 'ok'/'err'/'?', payload)]"""
    out = []
    for g, x in alts(v):
        if path_of(F, x) == RESULT:
            out.append((g, "ok" if x.a[1] == 0 else "err", x.a[2]))
        else:
            out.append((g,) + split_opaque(g, x))
    return out


def split_opaque(g, x):
    """an uninterpreted result whose variant the guard decides"""
    s = E.assume(E.St(), g)
    d = E.discr_of(x)
    if s is not None:
        if E.ev(s, E.cond(d, 0)) is FALSE:
            return "err", E.vfld(x, 1, 0)
        if E.ev(s, E.cond(d, 1)) is FALSE:
            return "ok", E.vfld(x, 0, 0)
    return "?", x


def options(F, v):
    out = []
    for g, x in alts(v):
        if path_of(F, x) == OPTION:
            out.append((g, "some" if x.a[1] == 1 else "none", x.a[2] if x.a[1] == 1 else None))
        else:
            out.append((g, "?", x))
    return out


def ok_alts(F, v):
    return [(g, p) for g, k, p in results(F, v) if k == "ok"]


def literals(f):
    """every literal occurring in a formula or in the guards of a term"""
    for t in subterms(f):
        if t.op == "lit":
            yield t


def compared_strings(v):
    """{subject term: set of string constants it is compared with}"""
    out = {}
    for l in literals(v):
        vals = [l.a[2]] if l.a[1] == "=" else list(l.a[2])
        for x in vals:
            if isinstance(x, str):
                out.setdefault(l.a[0], set()).add(x)
    return out


def compared_ints(v):
    out = {}
    for l in literals(v):
        vals = [l.a[2]] if l.a[1] == "=" else list(l.a[2])
        for x in vals:
            if isinstance(x, int) and not isinstance(x, bool):
                out.setdefault(l.a[0], set()).add(x)
    return out


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def uses(t, x):
    """x occurs in t"""
    return any(y is x for y in subterms(t))


def calls(t, name=None):
    for x in subterms(t):
        if x.op == "call" and (name is None or x.a[0] == name):
            yield x


def strip_ref(F, ty):
    while F.types[ty]["k"] == "ref":
        ty = F.types[ty]["to"]
    return ty


def adt_type(F, path):
    """type id of a non-generic type of the crate"""
    for i, t in enumerate(F.types):
        if t["k"] == "adt" and t.get("path") == path:
            return i
    return None


def variant_names(F, ty):
    return [v["n"] for v in F.types[ty]["v"]]


def field_index(F, ty, name, var=0):
    for i, f in enumerate(F.types[ty]["v"][var]["f"]):
        if f[0] == name:
            return i
    return None


def field_names(F, ty, var=0):
    return [f[0] for f in F.types[ty]["v"][var]["f"]]


def fmt_cell(res, k=1):
    """what a Display::fmt appended to its formatter: list of terms after the incoming buffer"""
    for key, x in res.st.mem.items():
        if key[0] == "cell" and x.op == "fmtr":
            return strip_buf(x.a[0])
        if key[0] == "cell" and x.op == "phi" and any(y.op == "fmtr" for _, y in x.a[0]):
            return E.mkphi([(g, strip_buf(y.a[0]) if y.op == "fmtr" else S("")) for g, y in x.a[0]])
    return None


def strip_buf(t):
    if t.op == "cat" and t.a and t.a[0].op == "call" and t.a[0].a[0] == "fmtbuf":
        return cat(t.a[1:])
    if t.op == "phi":
        return E.mkphi([(g, strip_buf(x)) for g, x in t.a[0]])
    if t.op == "call" and t.a[0] == "fmtbuf":
        return S("")
    return t


def feasible(st, f=TRUE, budget=4000):
    """st and f are jointly satisfiable on the literal level; disjunctions are split (None: budget exhausted)"""
    left = [budget]

    def go(s):
        if s is None:
            return False
        while True:
            if not s.ors:
                return True
            left[0] -= 1
            if left[0] < 0:
                return None
            # split the smallest disjunction
            o = min(s.ors, key=lambda x: len(x.a))
            s = s.copy()
            s.ors = tuple(x for x in s.ors if x is not o)
            got = False
            unknown = False
            for alt in o.a:
                r = go(E.assume(s, alt))
                if r:
                    return True
                if r is None:
                    unknown = True
            return None if unknown else got
    s = E.assume(st, f)
    r = go(s)
    if r is None and len(s.ors) > 1:
        # a contradiction may lie within disjunctions that share no subject with the others
        for part in components(s.ors):
            if len(part) < len(s.ors):
                left[0] = budget
                t = s.copy()
                t.ors = tuple(part)
                if go(t) is False:
                    return False
    return r


def components(ors):
    subj = [{l.a[0] for l in literals(o)} for o in ors]
    groups = []
    for o, s in zip(ors, subj):
        near = [g for g in groups if g[1] & s]
        for g in near:
            groups.remove(g)
        groups.append(([x for g in near for x in g[0]] + [o], s.union(*[g[1] for g in near])))
    return [g[0] for g in groups]


def live(st, v, budget=4000):
    """[(guard, leaf)] of v that some state of st reaches (unknown counts as reachable)"""
    out = []
    for g, x in alts(E.restrict(st, v)):
        if feasible(st, g, budget) is not False:
            out.append((g, x))
    return out


# library functions that drop, repeat or move elements of a list they are given
LOSSY = {"dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "clear", "drain", "sort", "sort_by",
         "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse",
         "swap", "swap_remove", "remove", "pop", "split_off", "rotate_left", "rotate_right", "resize", "extract_if"}


def tampering(v):
    """name of a library function that changes which elements v has or their order"""
    for t in subterms(v):
        if t.op == "after":
            n = t.a[0].split("<")[0].rstrip(":").split("::")
            if n[-1] in LOSSY:
                return n[-1]
            n = [x for x in t.a[0].replace(">", ":").replace("<", ":").split(":") if x in LOSSY]
            if n:
                return n[0]
    return None
