"""Hash-consed terms and guard formulas of the abstract domain.

A term is the abstract value of a place: constants, aggregates, references to abstract slots,
symbolic inputs, uninterpreted results of library leaves, string/sequence builders, loop variables
and guarded choices (`phi`).  Formulas (`lit`/`and`/`or`) guard the alternatives of a phi and the
states of the analysis.  There is no solver: a formula is only ever evaluated three-valued against
the literals known on the current path.
"""


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def I(v):
    return mk("int", int(v))


def S(s):
    return mk("str", s)


UNIT = mk("tuple")
TRUE = mk("true")
FALSE = mk("false")
BOTTOM = mk("bottom")


def show(t, d=0, lim=7):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "int":
        return str(t.a[0])
    if t.op == "str":
        return repr(t.a[0])
    if t.op == "sym":
        return "$" + str(t.a[0])
    if d > lim:
        return "…"
    if t.op == "phi":
        return "phi{" + "; ".join(f"{show(g, d + 1, lim)} => {show(v, d + 1, lim)}" for g, v in t.a[0]) + "}"
    if t.op == "lit":
        return f"{show(t.a[0], d + 1, lim)}{'==' if t.a[1] == '=' else '!='}{t.a[2] if t.a[1] == '=' else sorted(t.a[2])}"
    if t.op in ("true", "false"):
        return t.op
    return t.op + "(" + ", ".join(show(x, d + 1, lim) for x in t.a) + ")"


# ---------------------------------------------------------------- formulas

def lit(t, v):
    """t == v"""
    while t.op == "un" and t.a[0] == "Not" and v in (0, 1):
        t, v = t.a[1], 1 - v
    if t.op == "int":
        return TRUE if t.a[0] == v else FALSE
    return mk("lit", t, "=", v)


def nlit(t, vs, dom=None):
    """t not in vs; `dom` = finite domain of t if known"""
    vs = frozenset(vs)
    if t.op == "int":
        return FALSE if t.a[0] in vs else TRUE
    if dom is not None:
        rest = [x for x in dom if x not in vs]
        if not rest:
            return FALSE
        if len(rest) == 1:
            return lit(t, rest[0])
        if len(rest) <= len(vs) and len(rest) <= 3:
            return OR([lit(t, x) for x in rest])
    return mk("lit", t, "!", vs)


def AND(fs):
    out = []
    for f in fs:
        if f is TRUE:
            continue
        if f is FALSE:
            return FALSE
        for g in f.a if f.op == "and" else (f,):
            if g not in out:
                out.append(g)
    # direct contradictions
    eq = {}
    for g in out:
        if g.op == "lit" and g.a[1] == "=":
            if eq.get(g.a[0], g.a[2]) != g.a[2]:
                return FALSE
            eq[g.a[0]] = g.a[2]
    for g in out:
        if g.op == "lit" and g.a[1] == "!" and eq.get(g.a[0]) in g.a[2]:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda x: x.id))


DOMAIN = {}  # term -> finite domain of its values


def OR(fs):
    out = []
    for f in fs:
        if f is FALSE:
            continue
        if f is TRUE:
            return TRUE
        for g in f.a if f.op == "or" else (f,):
            if g not in out:
                out.append(g)
    if not out:
        return FALSE
    changed = True
    while changed and len(out) > 1:
        changed = False
        # factor: (A and x=0) or (A and x=1)  ->  A   when {0,1} covers the domain of x
        groups = {}
        for g in out:
            lits = g.a if g.op == "and" else (g,)
            for l in lits:
                if l.op == "lit":
                    rest = AND([m for m in lits if m is not l])
                    groups.setdefault((rest, l.a[0]), []).append((l, g))
        for (rest, t), ls in groups.items():
            if len(ls) < 2:
                continue
            m = union([l for l, _ in ls], t)
            if m is not None:
                gone = {g for _, g in ls}
                out = [g for g in out if g not in gone]
                x = AND([rest, m])
                if x is TRUE:
                    return TRUE
                if x not in out:
                    out.append(x)
                changed = True
                break
        if changed:
            continue
        # absorption: A or (A and B) -> A
        sets = [frozenset(g.a if g.op == "and" else (g,)) for g in out]
        keep = []
        for i, si in enumerate(sets):
            if any((sj < si) or (sj == si and j < i) for j, sj in enumerate(sets) if j != i):
                changed = True
                continue
            keep.append(out[i])
        out = keep
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda x: x.id))


def union(lits, t):
    """Exact union of literals on the same term, as one literal (or TRUE); None if not expressible."""
    eqs, neg = set(), None
    for l in lits:
        if l.a[1] == "=":
            eqs.add(l.a[2])
        else:
            neg = set(l.a[2]) if neg is None else neg & set(l.a[2])
    dom = DOMAIN.get(t)
    if neg is not None:
        neg -= eqs
        if not neg:
            return TRUE
        return mk("lit", t, "!", frozenset(neg)) if len(lits) > 1 else None
    if dom is not None:
        if all(d in eqs for d in dom):
            return TRUE
    return None


_not = {}


def NOT(f):
    if f.op in ("and", "or"):
        r = _not.get(f)
        if r is None:
            r = _not[f] = NOT_(f)
        return r
    return NOT_(f)


def NOT_(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "lit":
        if f.a[1] == "=":
            return nlit(f.a[0], [f.a[2]], DOMAIN.get(f.a[0]))
        return OR([lit(f.a[0], v) for v in sorted(f.a[2])])
    if f.op == "and":
        return OR([NOT(x) for x in f.a])
    if f.op == "or":
        return AND([NOT(x) for x in f.a])
    raise ValueError(f)


# ---------------------------------------------------------------- strings and sequences

def cat(parts):
    out = []
    for p in parts:
        for q in p.a if p.op == "cat" else (p,):
            if q.op == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def vcat(parts):
    out = []
    for p in parts:
        if p.op == "vec":
            out.extend(p.a)
        else:
            out.append(p)
    return mk("vec", *out)


def one(x):
    return mk("one", x)


def vall(x):
    if x.op == "vec":
        return x
    return mk("all", x)


def vec_elems(v):
    """elements of a fully known sequence, else None"""
    if v.op == "vec" and all(p.op == "one" for p in v.a):
        return [p.a[0] for p in v.a]
    if v.op == "array":
        return list(v.a)
    return None


def mkvec(elems):
    return mk("vec", *[one(x) for x in elems])


def subterms(t, seen=None):
    """all subterms of t (through phi guards and tuples)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
