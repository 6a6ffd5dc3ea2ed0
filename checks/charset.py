"""Which characters a text can't contain: a backwards dataflow over the term of the text."""
import engine as E
from checks.util import *

Q = frozenset(map(ord, "\r\n;,:\""))
SAFE_DISPLAY = ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64", "bool", "chrono::time_delta::TimeDelta")


class Chars:
    """excluded(x): the characters of Q that the text x never contains; `leaf` collects what is unrestricted or unknown"""

    judged = frozenset()        # functions whose results are judged on their own

    def __init__(self, loops=None):
        self.loops = loops or {}
        self.unknown = []
        self.raw = []
        self.open = {}
        self.facts = []
        elems = {}
        for l in self.loops.values():
            elems.update(l.get("elem") or {})
        self.elems = elems
        for l in self.loops.values():
            if "back" in l:
                self.note(E.subst(AND(l["back"].lits()), elems))

    def note(self, f):
        """facts that hold on every way to the text"""
        for t in (f.a if f.op == "and" else (f,)):
            if t.op == "lit":
                self.facts.append(t)

    def known(self, x, facts):
        out = set()
        for l in facts:
            s = l.a[0]
            if s.op == "call" and s.a[0] == "contains" and len(s.a) == 3 and s.a[1] is x and (l.a[1] == "=" and l.a[2] == 0 or l.a[1] == "!" and 1 in l.a[2]):
                p = s.a[2]
                if p.op == "cset":
                    out |= frozenset(p.a[0])
                elif p.op == "str" and len(p.a[0]) == 1:
                    out.add(ord(p.a[0]))
            elif s.op == "isempty" and l.a[1] == "=" and l.a[2] == 1 and s.a[0].op == "lv":
                # every character has been looked at
                lv = s.a[0]
                rec = self.loops.get(lv.a[0])
                if rec and "back" in rec and lv in rec["init"] and mk("chars", x) in (rec["init"][lv], E.subst(rec["init"][lv], self.elems)) and rec["nexts"].get(lv) is mk("tail", lv):
                    st = rec["back"]
                    for c in Q:
                        if E.ev(st, E.cond(mk("head", lv), c)) is FALSE:
                            out.add(c)
        return out & Q

    def excluded(self, x, facts=None):
        facts = self.facts if facts is None else facts
        got = self._excluded(x, facts)
        more = self.known(x, facts)
        return got | more

    def lits_of(self, g):
        return [t for t in (g.a if g.op == "and" else (g,)) if t.op == "lit"]

    def _excluded(self, x, facts):
        op = x.op
        if op == "str":
            return Q - frozenset(map(ord, x.a[0]))
        if op == "cat":
            return self.all(x.a, facts)
        if op == "phi":
            out = Q
            for g, y in x.a[0]:
                if any(z.op == "phi" for z in subterms(y)):
                    st = E.assume(E.St(), AND(facts + [g]))
                    if st is None:
                        continue
                    y = E.restrict(st, y)
                    if y.op == "bottom":
                        continue
                out = out & self.excluded(y, facts + self.lits_of(g))
            return out
        if op == "replace":
            e, p, s = self.quiet(x.a[0], facts), x.a[1], x.a[2]
            gone = frozenset(p.a[0]) if p.op == "cset" else frozenset(map(ord, p.a[0])) if p.op == "str" and len(p.a[0]) == 1 else frozenset()
            if s.op != "str":
                self.unknown.append(x)
                return frozenset()
            out = ((e | gone) & Q) - frozenset(map(ord, s.a[0]))
            if not {10, 13} <= out:
                self.excluded(x.a[0], facts)       # report its leaves
            return out
        if op == "dec":
            return Q
        if op == "chr" and x.a[0].op == "int":
            return Q - {x.a[0].a[0]}
        if op == "chr":
            c = x.a[0]
            e = frozenset()
            for l in facts:
                if l.a[0] is c and l.a[1] == "!":
                    e |= Q & frozenset(l.a[2])
                elif l.a[0] is c and isinstance(l.a[2], int):
                    return Q - {l.a[2]}
            seq = c.a[1] if c.op == "elem" else c.a[0] if c.op in ("head", "chhead") else None
            if {10, 13} <= e or seq is None or seq.op != "chars":
                if seq is None:
                    self.unknown.append(x)
                return e
            return e | (self.quiet(seq.a[0], facts) if {10, 13} <= e | self.quiet(seq.a[0], facts) else self.excluded(seq.a[0], facts))
        if op == "disp":
            p = x.a[0]
            if p in SAFE_DISPLAY:
                return Q
            if p.endswith("DelayedFormat"):
                y = x.a[1]
                if y.op == "phi":
                    return self.all([mk("disp", p, z, *x.a[2:]) for _, z in y.a[0]], facts)
                f = y.a[-1] if y.op == "call" else None
                if f is not None and f.op == "str":
                    return (Q - frozenset(map(ord, f.a[0]))) - ({10} if "%n" in f.a[0] else set()) - (frozenset(map(ord, ":,")) if "%" in f.a[0] else set())
        if op in ("join", "rep"):
            return self.all([y for y in x.a[2:] if hasattr(y, "op")], facts)
        if op == "joinseq":
            return self.all([y for y in x.a if hasattr(y, "op")], facts)
        if op == "vec":
            return self.all(x.a, facts)
        if op in ("one", "all", "upper", "lower", "sub", "spanrest", "strip", "chtail", "pad"):
            return self.excluded(x.a[0], facts)
        if op == "span":
            e = self.excluded(x.a[0], facts)
            return e | (Q - frozenset(x.a[1].a[0])) if x.a[1].op == "cset" else e
        if op == "call" and x.a[0] in ("trim", "trim_start", "trim_end", "to_string", "into", "strip_suffix"):
            return self.excluded(x.a[1], facts)
        if op == "lv" and x.a[0] in self.loops:
            if x in self.open:
                return self.open[x]
            rec = self.loops[x.a[0]]
            if x in rec["init"] and x in rec["nexts"]:
                e = Q
                for _ in range(len(Q) + 1):
                    self.open[x] = e
                    n = e & self.excluded(rec["init"][x], facts) & self.excluded(rec["nexts"][x], facts)
                    if n == e:
                        break
                    e = n
                del self.open[x]
                return e
        if op == "vfld" and x.a[0].op == "call" and x.a[0].a[0] in self.judged:
            return frozenset((10, 13))
        if op in ("fld", "vfld", "elem", "head", "sym", "deref", "tail", "nth", "get"):
            k = self.known(x, facts)
            if not {10, 13} <= k:
                self.raw.append(x)
            return frozenset(k)
        self.unknown.append(x)
        return frozenset()

    def quiet(self, x, facts):
        n, m = len(self.raw), len(self.unknown)
        e = self.excluded(x, facts)
        del self.raw[n:], self.unknown[m:]
        return e

    def all(self, xs, facts):
        out = Q
        for y in xs:
            out = out & self.excluded(y, facts)
        return out
