"""What the iterator over the occurrences of a component does, one `next` call analysed symbolically.

The iterator holds an optional component; the step of a rule (P25) is uninterpreted. For every component type: the
guarded values returned, the component kept for the following call, and the transitions of the loop inside `next`."""
import engine as E
import models
from checks.util import *
from checks import p25
import core

ITER = "ikal::iter::Recur"
DATES = (p25.DATE, p25.DATETIME, p25.NDATE, p25.NDT, p25.LDT)
SCHEDULE = ("dtstart", "dtend", "due")


def step_fns(ctx):
    F = ctx.F
    ids = {i for i, _, _, _ in p25.steps(ctx)}
    return {F.fns[i]["path"]: (a, b) for i, a, b, _ in p25.steps(ctx)}, ids


class Next:
    """one symbolic call of next"""

    def __init__(self, ctx, fnid):
        F = ctx.F
        self.F, self.ctx, self.fnid = F, ctx, fnid
        self.steps, ids = step_fns(ctx)
        paths = set(self.steps)
        aty = strip_ref(F, F.fns[fnid]["ins"][0])
        t = F.types[aty]
        self.idx, self.oty, self.ty = None, None, None
        for i, f in enumerate(t["v"][0]["f"]):
            u = F.types[f[1]]
            if u.get("path") == OPTION and F.types[u["args"][0]].get("path", "").startswith("ikal::components::"):
                self.idx, self.oty, self.ty = i, f[1], u["args"][0]
        if self.idx is None or len(t["v"][0]["f"]) != 1:
            raise core.Undecided("the iterator state is not a single optional component")
        self.name = F.types[self.ty]["path"].rsplit("::", 1)[1]
        slot = ("tmp", "iter", fnid)
        x0 = E.typed(mk("sym", ("item", fnid, "")), self.oty)
        st = E.St()
        st.mem[slot] = mk("adt", aty, 0, x0)
        self.r = ctx.run(fnid, [mk("ref", slot, ())], opaque=lambda f: f["path"] in paths, key=("occur", fnid), st=st)
        self.slot = slot
        # where the component under consideration comes from: the call or a previous turn of the loop
        self.X = [x0]
        self.turns = []
        for l, rec in self.r.loops.items():
            for k, v in rec["nexts"].items():
                if k.op == "lv" and len(k.a) > 1 and k.a[1] == slot:
                    self.X.append(k)
                    self.turns.append((k, v, rec))
        self.names = field_names(F, self.ty)

    def cur(self, x):
        return E.vfld(x, 1, 0, self.ty)

    def field(self, item, name):
        i = field_index(self.F, self.ty, name)
        if i is None:
            return None
        if item.op == "adt":
            return item.a[2 + i]
        return E.fld(item, i, self.F.types[self.ty]["v"][0]["f"][i][1])

    def post(self, st):
        m = st.mem.get(self.slot)
        if m is None:
            raise core.Undecided("the iterator state is lost")
        return E.fld(m, self.idx) if m.op != "adt" else m.a[2 + self.idx]

    def yields(self):
        """[(guard, component, X)] and [guard] for the end of the iteration"""
        out, end = [], []
        for g, v in alts(self.r.value):
            if path_of(self.F, v) != OPTION:
                xs = [x for x in self.X if v is x]
                if xs:
                    out.append((AND([g, E.cond(E.discr_of(v), 1)]), self.cur(xs[0])))
                    end.append(AND([g, E.cond(E.discr_of(v), 0)]))
                    continue
                raise core.Undecided("unknown result " + show(v, 0, 2)[:120])
            if v.a[1] == 0:
                end.append(g)
            else:
                out += [(AND([g, h]), y) for h, y in alts(v.a[2])]
        return out, end


def iterators(ctx):
    F = ctx.F
    out = []
    for i, f in enumerate(F.fns):
        if f["krate"] == "ikal" and f.get("body") and f["path"].endswith("Iterator>::next") and f.get("ins"):
            a = strip_ref(F, f["ins"][0])
            if F.types[a].get("path") == ITER:
                out.append(i)
    return out


def compare(ctx, a, b, fn=None):
    """order of two dates, as the code computes it: an ordering term"""
    F = ctx.F
    dt = adt_type(F, p25.DATE)
    cmp = fn is not None
    fn = F.fn_for("core::cmp::PartialOrd::partial_cmp", dt) if fn is None else fn
    if fn is None:
        raise core.Undecided("no ordering of dates")
    st = E.St()
    args = []
    for n, x in enumerate((a, b)):
        st.mem[("tmp", "in", n)] = x
        args.append(mk("ref", ("tmp", "in", n), ()))
    r = ctx.run(fn, args, st=st, key=("cmp", a, b, fn))
    return r.value if cmp else E.vfld(r.value, 1, 0)


def is_step(N, t, rule, own):
    """t is the date `own` moved by the rule: 'yes', 'no' or 'unknown'"""
    if t.op == "vfld" and t.a[1] == 1 and t.a[0].op == "call":
        t = t.a[0]
    if t.op != "call" or t.a[0] not in N.steps:
        if t.op == "phi":
            rs = {is_step(N, x, rule, own) for _, x in alts(t)}
            return "no" if "no" in rs else "unknown" if "unknown" in rs else "yes"
        return "no" if t is own or not has(t, lambda x: x.op in ("shift", "call")) else "unknown"
    i, j = N.steps[t.a[0]]
    if t.a[1 + j] is not own:
        return "no"
    return "yes" if same_rule(N.F, t.a[1 + i], rule, ("freq", "interval")) else "no"


def same_rule(F, a, b, fields):
    """every alternative of rule a has the same fields as b"""
    rt = adt_type(F, p25.RECUR)
    for _, x in alts(a):
        if x is b:
            continue
        if x.op != "adt":
            return False
        for f in fields:
            i = field_index(F, rt, f)
            if E.fld(b, i) is not x.a[2 + i] and any(y is not E.fld(b, i) for y in leaves(x.a[2 + i])):
                return False
    return True


def kept(st, v, want):
    """v is `want` in every execution of st"""
    if v is want:
        return True
    w = E.restrict(st, want)
    out = live(st, v)
    if all(x is want or x is w for _, x in out):
        return True
    # taken apart and rebuilt
    return all(same_option(x, want) or E.restrict(E.assume(st, g) or st, want) is x for g, x in out)


def same_option(x, want):
    return x.op == "adt" and len(x.a) == 3 and x.a[2] is E.vfld(want, x.a[1], 0)
