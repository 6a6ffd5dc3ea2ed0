"""Scenario evaluation: a term is simplified under the answers that a scenario gives to the questions its guards ask."""
import engine as E
from checks.util import *


def settle(v, answer, st=None, limit=400):
    """v under the answers; answer(subject) -> value, formula or None. Returns (state, term); raises Undecided if contradictory"""
    import core
    st = E.St() if st is None else st.copy()
    v = E.restrict(st, v)
    asked = set()
    for _ in range(limit):
        progress = False
        for t in list(subterms(v)):
            if t.op != "lit" or t.a[0] in asked:
                continue
            s = t.a[0]
            a = answer(s)
            if a is None:
                continue
            asked.add(s)
            c = a if hasattr(a, 'op') else E.cond(s, a)
            if E.ev(st, c) is TRUE:
                continue
            s2 = E.assume(st, c)
            if s2 is None:
                raise core.Undecided("contradictory scenario at " + show(s, 0, 3)[:120])
            st = s2
            progress = True
        if not progress:
            return st, v
        v = E.restrict(st, v)
    return st, v


BITS = {"%s%d" % (s, b): b for s in "iu" for b in (8, 16, 32, 64, 128)}


def number(t, sub):
    """value of an integer term, sub(t) giving the leaves"""
    if t.op == "int":
        return t.a[0]
    x = sub(t)
    if x is not None:
        return x
    if t.op == "bin":
        a, b = number(t.a[1], sub), number(t.a[2], sub)
        if a is None or b is None:
            return None
        op = t.a[0]
        return {"Lt": lambda: int(a < b), "Le": lambda: int(a <= b), "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b),
                "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
                "Div": lambda: a // b if a >= 0 and b > 0 else None, "Rem": lambda: a % b if a >= 0 and b > 0 else None}.get(op, lambda: None)()
    if t.op == "cast" and t.a[0] == "IntToInt":
        return number(t.a[1], sub)
    if t.op == "cast" and t.a[0] == "Trunc" and t.a[2] in BITS:
        n = number(t.a[1], sub)
        if n is None:
            return None
        b = BITS[t.a[2]]
        n &= (1 << b) - 1
        return n - (1 << b) if t.a[2][0] == "i" and n >> (b - 1) else n
    if t.op == "call" and len(t.a) == 2 and t.a[0].startswith("core::num::<impl ") and t.a[0].rsplit("::", 1)[1] in ("unsigned_abs", "abs"):
        n = number(t.a[1], sub)
        return None if n is None else abs(n)
    if t.op == "call" and len(t.a) == 3 and t.a[0] in ("min", "max"):
        a, b = number(t.a[1], sub), number(t.a[2], sub)
        return None if a is None or b is None else min(a, b) if t.a[0] == "min" else max(a, b)
    if t.op == "call" and len(t.a) == 3 and t.a[0] in ("saturating_Add", "saturating_Sub"):
        a, b = number(t.a[1], sub), number(t.a[2], sub)
        n = None if a is None or b is None else a + b if t.a[0][-1] == "d" else a - b
        return n if n is not None and 0 <= n < 128 else None
    return None


class Scenario:
    """Evaluates terms whose guards are all answered: answer(subject) -> int, text, ('not', value) or None."""

    def __init__(self, answer):
        self.answer = answer
        self.terms, self.forms = {}, {}

    def holds(self, f):
        if f is TRUE or f is FALSE:
            return f is TRUE
        if f in self.forms:
            return self.forms[f]
        self.forms[f] = None
        if f.op == "lit":
            a = self.answer(f.a[0])
            r = None
            if isinstance(a, tuple):
                if f.a[1] == "=":
                    r = False if f.a[2] == a[1] else None
                elif tuple(f.a[2]) == (a[1],):
                    r = True
            elif a is not None:
                r = (f.a[2] == a) if f.a[1] == "=" else (a not in f.a[2])
        elif f.op == "and":
            xs = [self.holds(x) for x in f.a]
            r = False if False in xs else None if None in xs else True
        elif f.op == "or":
            xs = [self.holds(x) for x in f.a]
            r = True if True in xs else None if None in xs else False
        else:
            r = None
        self.forms[f] = r
        return r

    def pick(self, t):
        """t with every decided choice made"""
        if t in self.terms:
            return self.terms[t]
        if t.op == "phi":
            out = []
            for g, x in t.a[0]:
                h = self.holds(g)
                if h is True:
                    out = [(TRUE, x)]
                    break
                if h is None:
                    out.append((g, x))
            r = self.pick(out[0][1]) if len(out) == 1 else E.mkphi([(g, self.pick(x)) for g, x in out]) if out else t
        else:
            r = E.rebuild_term(t, self.pick)
        self.terms[t] = r
        return r


class Tok:
    """a run of unknown characters of a text: `chars` the possible ones, `first` those it can start with, `least` 1 if not
    empty; `kinds` the readers that accept exactly this run"""

    def __init__(self, name, chars, first=None, kinds=(), length=None):
        self.name, self.chars, self.kinds, self.length = name, frozenset(chars), tuple(kinds), length
        self.first = self.chars if first is None else frozenset(first)

    def __repr__(self):
        return self.name


ALL = frozenset(range(128)) | frozenset((0x80, 0xA0, 0xE9, 0x2028, 0x3000, 0x4E2D, 0xFEFF, 0x1F600))
SPACE = frozenset((9, 10, 11, 12, 13, 32, 0xA0, 0x2028, 0x3000))


def chars_of(tok):
    return frozenset((ord(tok),)) if isinstance(tok, str) else tok.chars


class Shape:
    """A text known as a sequence of literal characters and runs. Terms for parts of the text denote ranges of it;
    the questions that guards ask are answered from the shape where it determines them."""

    def __init__(self, text, toks, extra=None, kind=None):
        self.toks = list(toks)
        self.memo = {}
        self.extra = extra
        self.kind = kind or (lambda name: None)
        self.scen = Scenario(self.answer)
        self.roots = {x: (0, len(self.toks)) for x in (text if isinstance(text, (tuple, list)) else (text,))}

    def at(self, r):
        return self.toks[r[0]] if r is not None and r[0] < r[1] else None

    def first(self, r):
        """possible first characters of a range; None if empty"""
        t = self.at(r)
        return None if t is None else frozenset((ord(t),)) if isinstance(t, str) else t.first

    def starts(self, r, p):
        """does the range start with the text or set p: True, False, None"""
        if p.op == "cset":
            f = self.first(r)
            if f is None:
                return False
            return True if f <= frozenset(p.a[0]) else False if not f & frozenset(p.a[0]) else None
        if p.op != "str":
            return None
        i = r[0]
        for c in p.a[0]:
            if i >= r[1]:
                return False
            t = self.toks[i]
            if isinstance(t, str):
                if t != c:
                    return False
                i += 1
            else:
                return False if ord(c) not in t.first else True if t.first == {ord(c)} and len(p.a[0]) == i - r[0] + 1 else None
        return True

    def ends(self, r, p):
        if p.op != "str":
            return None
        j = r[1]
        for c in reversed(p.a[0]):
            if j <= r[0]:
                return False
            t = self.toks[j - 1]
            if isinstance(t, str):
                if t != c:
                    return False
                j -= 1
            else:
                return False if ord(c) not in t.chars else None
        return True

    def span(self, r, cs):
        """end of the longest prefix inside the set; None if unknown"""
        if cs.op != "cset":
            return None
        s = frozenset(cs.a[0])
        i = r[0]
        while i < r[1]:
            c = chars_of(self.toks[i])
            if c <= s:
                i += 1
            elif self.first((i, r[1])) & s:
                return None
            else:
                break
        return i

    def find(self, r, p):
        """index of the first occurrence of a one character text; -1 if none, None if unknown"""
        if p.op != "str" or len(p.a[0]) != 1:
            return None
        for i in range(*r):
            t = self.toks[i]
            if t == p.a[0]:
                return i
            if not isinstance(t, str) and ord(p.a[0]) in t.chars:
                return None
        return -1

    def rng(self, x):
        """the range of the text that x denotes, or None"""
        if x in self.memo:
            return self.memo[x]
        self.memo[x] = None
        k = self._rng(x)
        self.memo[x] = k
        return k

    def _rng(self, x):
        if x in self.roots:
            return self.roots[x]
        if x.op == "phi":
            y = self.scen.pick(x)
            return None if y.op == "phi" else self.rng(y)
        if x.op == "strip":
            r = self.rng(x.a[0])
            if r is not None and x.a[1].op == "str" and self.starts(r, x.a[1]) is True:
                return (r[0] + len(x.a[1].a[0]), r[1])
            return None
        if x.op in ("span", "spanrest"):
            r = self.rng(x.a[0])
            k = None if r is None else self.span(r, x.a[1])
            return None if k is None else (r[0], k) if x.op == "span" else (k, r[1])
        if x.op == "chtail":
            r = self.rng(x.a[0])
            return (r[0] + 1, r[1]) if r is not None and isinstance(self.at(r), str) else None
        if x.op == "nomrest":
            r = self.rng(x.a[-1])
            return (r[0] + 1, r[1]) if r is not None and self.reads(x.a[0], r) is True else None
        if x.op == "nomval":
            r = self.rng(x.a[-1])
            return (r[0], r[0] + 1) if r is not None and self.reads(x.a[0], r) is True else None
        if x.op == "call" and x.a[0] == "strip_suffix" and x.a[2].op == "str":
            r = self.rng(x.a[1])
            return (r[0], r[1] - len(x.a[2].a[0])) if r is not None and self.ends(r, x.a[2]) is True else None
        if x.op == "call" and x.a[0] in ("trim", "trim_end", "trim_start") and len(x.a) == 2:
            r = self.rng(x.a[1])
            if r is not None and not any(chars_of(t) & SPACE for t in self.toks[r[0]:r[1]]):
                return r
            return None
        if x.op == "fld" and x.a[0].op == "vfld" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] in ("str.split_once", "str.rsplit_once"):
            c = x.a[0].a[0]
            r = self.rng(c.a[1])
            k = None if r is None else self.find(r, c.a[2])
            if k is None or k < 0 or c.a[0] == "str.rsplit_once" and self.find((k + 1, r[1]), c.a[2]) != -1:
                return None
            return (r[0], k) if x.a[1] == 0 else (k + 1, r[1])
        if x.op in ("call", "cast") and len(x.a) == 2 and hasattr(x.a[1], "op") and x.a[0] in ("to_string", "into"):
            return self.rng(x.a[1])
        if x.op == "head" and x.a[0].op == "split" and len(x.a[0].a) == 2:
            r = self.rng(x.a[0].a[0])
            k = None if r is None else self.find(r, x.a[0].a[1])
            return None if k is None else (r[0], r[1] if k < 0 else k)
        if x.op == "call" and x.a[0] in ("trim_end_matches", "trim_start_matches", "trim_matches") and len(x.a) == 3:
            r = self.rng(x.a[1])
            return None if r is None else self.trimmed(r, x.a[0], x.a[2])
        if x.op == "sub" and len(x.a) in (2, 3) and all(n.op == "int" for n in x.a[1:]):
            r = self.rng(x.a[0])
            return None if r is None else self.cut(r, *(n.a[0] for n in x.a[1:]))
        if x.op == "vfld" and x.a[0].op == "call" and x.a[0].a[0].startswith("core::str::<impl str>::get<"):
            return self.got(x.a[0])
        return None

    def trimmed(self, r, how, p):
        i, j = r
        for end in (False, True):
            if how == ("trim_start_matches" if end else "trim_end_matches"):
                continue
            while i < j:
                t = self.toks[j - 1 if end else i]
                cs = frozenset((ord(t),)) if isinstance(t, str) else t.chars
                s = frozenset((ord(p.a[0]),)) if p.op == "str" and len(p.a[0]) == 1 else frozenset(p.a[0]) if p.op == "cset" else None
                if s is None or cs & s and not cs <= s:
                    return None
                if not cs & s:
                    break
                i, j = (i, j - 1) if end else (i + 1, j)
        return (i, j)

    def length(self, r):
        ns = [len(t) if isinstance(t, str) else t.length for t in self.toks[r[0]:r[1]]]
        return None if None in ns else sum(ns)

    def cut(self, r, a, b=None):
        """the range of the octets a..b of a range of ASCII characters"""
        i = [k for k in range(r[0], r[1] + 1) if self.length((r[0], k)) == a]
        j = [r[1]] if b is None else [k for k in range(r[0], r[1] + 1) if self.length((r[0], k)) == b]
        return (i[0], j[-1]) if i and j and i[0] <= j[-1] else None

    def got(self, c):
        """the part that str::get gives; None if unknown, False if there is none"""
        r = self.rng(c.a[1])
        d = c.a[2] if len(c.a) == 3 else None
        if r is None or d is None or d.op != "adt" or any(n.op != "int" for n in d.a[2:]):
            return None
        ns = [n.a[0] for n in d.a[2:]]
        if "RangeTo<" in c.a[0]:
            ns = [0] + ns
        elif "RangeFrom<" in c.a[0]:
            pass
        elif "::Range<" not in c.a[0]:
            return None
        n = self.length(r)
        if n is not None and ns[-1] > n:
            return False
        return self.cut(r, *ns)

    def reads(self, name, r):
        """does the parser of this name accept the start of the range"""
        k = self.kind(name)
        t = self.at(r)
        if k is None:
            return None
        if t is None:
            return False
        if isinstance(t, str):
            return False if not (frozenset((ord(t),)) & self.starters(k)) else None
        if k in t.kinds:
            return True
        return False if not (t.first & self.starters(k)) else None

    def starters(self, k):
        return {"float": frozenset(map(ord, "+-.0123456789iInN")), "int": frozenset(map(ord, "+-0123456789")),
                "date": frozenset(map(ord, " +-0123456789")), "dur": frozenset(map(ord, "+-P"))}.get(k, ALL)

    def whole(self, k, r):
        """is the range exactly one run of a kind: True, False, None"""
        if r[0] == r[1]:
            return False
        if r[1] - r[0] == 1 and not isinstance(self.at(r), str) and k in self.at(r).kinds:
            return True
        return False if not (self.first(r) & self.starters(k)) else None

    def answer(self, s):
        if self.extra is not None:
            a = self.extra(self, s)
            if a is not None:
                return a
        if s.op == "call" and len(s.a) == 3 and s.a[0] in ("starts_with", "ends_with", "contains"):
            r = self.rng(s.a[1])
            if r is None:
                return None
            if s.a[0] == "contains":
                k = self.find(r, s.a[2])
                return None if k is None else int(k >= 0)
            b = (self.starts if s.a[0] == "starts_with" else self.ends)(r, s.a[2])
            return None if b is None else int(b)
        if s.op == "nomok":
            r = self.rng(s.a[-1])
            b = None if r is None else self.reads(s.a[0], r)
            return None if b is None else int(b)
        if s.op == "chhead":
            r = self.rng(s.a[0])
            t = self.at(r)
            return ord(t) if isinstance(t, str) else None
        if s.op == "isempty" and s.a[0].op == "split":
            return 0
        if s.op == "isempty":
            r = self.rng(s.a[0])
            return None if r is None else int(r[0] == r[1])
        if s.op == "len":
            r = self.rng(s.a[0])
            return None if r is None else self.length(r)
        if s.op == "bin":
            return number(s, lambda t: self.answer(t) if t.op == "len" else None)
        if s.op == "discr" and s.a[0].op == "call" and s.a[0].a[0].startswith("core::str::<impl str>::get<"):
            k = self.got(s.a[0])
            return None if k is None else int(k is not False)
        if s.op == "discr" and s.a[0].op == "call":
            c = s.a[0]
            if c.a[0] in ("str.split_once", "str.rsplit_once"):
                r = self.rng(c.a[1])
                k = None if r is None else self.find(r, c.a[2])
                return None if k is None else int(k >= 0)
            if len(c.a) == 2:
                k = self.kind(c.a[0])
                r = self.rng(line_value(c.a[1]))
                b = None if k is None or r is None else self.whole(k, r)
                return None if b is None else int(not b)
            return None
        if s.op == "call" and s.a[0] in ("trim", "trim_end", "trim_start") and len(s.a) == 2 and self.scen.pick(s.a[1]).op == "str":
            return {"trim": str.strip, "trim_end": str.rstrip, "trim_start": str.lstrip}[s.a[0]](self.scen.pick(s.a[1]).a[0])
        r = self.rng(s)
        if r is not None:
            if r[0] == r[1]:
                return ""
            ts = self.toks[r[0]:r[1]]
            return "".join(ts) if all(isinstance(t, str) for t in ts) else ("not", "")
        return None


def line_value(x):
    """the value of a content line term, or the text itself"""
    if x.op == "adt" and len(x.a) == 5:
        return x.a[4]
    return x
