"""The meaning of the texts of durations.

Every reader of durations is evaluated symbolically. A reader without a loop is examined under each shape of a duration
(sign, P, and any subset of nW nD T nH nM nS, n any number): the answers to the questions asked about the text follow
from the shape, and the result must be the sum of the numbers times their units. For a reader with a loop over the
characters, each step is examined for every class of character: digits accumulate, T starts the time part, a
designator adds the accumulated number of its unit, the end yields the sum. By induction this holds for every text."""
import itertools

import engine as E
from checks.scen import Shape, Tok, settle, number
from checks.util import *
from checks import p25
import core

RULE = "W, D, H, M and S stand for weeks, days, hours, minutes and seconds; the parts add up; '-' negates; overflow is an error"
FLOOR = 150
TECHNIQUE = "symbolic evaluation of every duration reader under each shape of text, or inductively per step of its loop"
TD = "chrono::time_delta::TimeDelta"
UNITS = {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}
ZERO = "default<%s>" % TD


def lone(g, dur):
    """the condition is about the sum alone"""
    return {t for t in subterms(g) if t.op == "lv"} == {dur}


def shapes():
    for sign in ("", "-", "+"):
        for w, d in itertools.product((0, 1), repeat=2):
            for n in range(8):
                h, m, s = n >> 2, n >> 1 & 1, n & 1
                if not (w or d or n):
                    continue
                toks = [sign] if sign else []
                toks.append("P")
                toks += ["n", "W"] * w + ["n", "D"] * d
                if n:
                    toks += ["T"] + ["n", "H"] * h + ["n", "M"] * m + ["n", "S"] * s
                # the shapes of RFC 5545: weeks alone, H M S without a gap
                rfc = not (w and (d or n)) and not (h and s and not m)
                yield tuple(toks), rfc


NUM = Tok("n", range(48, 58), kinds=("int",))


def shape(text, toks, overflow=None):
    def extra(sh, s):
        if s.op in ("fits", "ovf"):
            return int((s.op == "fits") == (overflow is None or sh.scen.pick(s) is not overflow))
        return None
    return Shape(text, [NUM if t == "n" else t for t in toks], extra, kind=lambda n: "int" if is_parse(n) else None)


WIDE = tuple("parse<%s%s>" % (k, b) for k in "iu" for b in (32, 64, 128, "size"))
NARROW = tuple("parse<%s%s>" % (k, b) for k in "iu" for b in (8, 16))


def is_parse(name):
    """is it the parsing of an integer?"""
    return name in WIDE or name in NARROW


def parts(x, num, pick=lambda t: t):
    """{key of the number: seconds} of a duration term; None if not understood"""
    if x.op == "call" and x.a[0] == ZERO:
        return {}
    if x.op == "tdsum":
        out = {}
        for y, k in x.a[0]:
            p = parts(pick(y), num, pick)
            if p is None:
                return None
            for q, v in p.items():
                out[q] = out.get(q, 0) + k * v
        return {q: v for q, v in out.items() if v}
    if x.op == "delta" and x.a[1].op == "int":
        n = x.a[0]
        if n is I(0):
            return {}
        f = 1
        if n.op == "bin" and n.a[0] == "Mul":
            a, b = n.a[1], n.a[2]
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                n, f = a, b.a[0]
        if n.op == "int":
            return {"const": n.a[0] * x.a[1].a[0]}
        k = num(n)
        return None if k is None else {k: f * x.a[1].a[0]}
    k = num(x)
    return None if k is None else {k: 1}


SAMPLES = (0, 1, 9, 23, 24, 31, 52, 59, 60, 61, 99, 100, 255, 256, 365, 999, 1000, 1001, 10000, 65536, 100000)


def seconds(x, leaf, scen=None, total=None):
    """seconds of a duration term when leaf gives its numbers; None if unknown"""
    if total is not None and x is total[0]:
        return total[1]
    if x.op == "call" and x.a[0] == ZERO:
        return 0
    if x.op == "tdsum":
        out = 0
        for y, k in x.a[0]:
            n = seconds(y, leaf, scen, total)
            if n is None:
                return None
            out += k * n
        return out
    if x.op == "delta" and x.a[1].op == "int":
        n = number(x.a[0], leaf)
        return None if n is None else n * x.a[1].a[0]
    if x.op == "phi" and scen is not None:
        y = scen.pick(x)
        return seconds(y, leaf, scen, total) if y is not x else None
    return None


def readers(F):
    for i, f in enumerate(F.fns):
        if f["krate"] != "ikal" or not f.get("body") or f.get("dk") == "Closure" or len(f.get("ins") or ()) != 1 or f.get("out") is None:
            continue
        o = F.types[f["out"]]
        if F.types[f["ins"][0]]["s"] != "&str" or o.get("path") != RESULT:
            continue
        t = F.types[o["args"][0]]
        if t["k"] == "tuple" and len(t["f"]) == 2 and F.types[t["f"][0]]["s"] == "&str":
            t = F.types[t["f"][1]]
        if t.get("path") == TD:
            yield i, f


def shaped(ctx, name, r):
    F = ctx.F
    text = r.arg
    over = {t for t in subterms(r.value) if t.op in ("fits", "ovf")}
    for toks, rfc in shapes():
        word = "".join(toks)
        sh = shape(text, toks)
        key = "%s reads %s" % (name, word)
        v = sh.scen.pick(r.value)
        if path_of(F, v) != RESULT:
            if not sampled(ctx, key, r, toks):
                ctx.undec(key, show(v, 0, 3)[:150])
            continue
        if v.a[1] == 1:
            if rfc:
                ctx.ob(key, False, "is an error")
            continue
        x, rest = v.a[2], None
        if x.op == "tuple" and len(x.a) == 2:
            rest, x = x.a
        left = None if rest is None else sh.rng(rest)
        if left is not None and left[0] < left[1]:
            ctx.ob(key, False, "only %s is read" % "".join(toks[:left[0]]))
            continue

        def num(n):
            while n.op == "cast" and hasattr(n.a[1], "op"):
                n = n.a[1]
            if n.op == "vfld" and n.a[0].op == "call" and is_parse(n.a[0].a[0]):
                r = sh.rng(n.a[0].a[1])
                k = r[0] if r is not None and sh.whole("int", r) else None
                return "number up to %s" % n.a[0].a[0][6:-1] if k is not None and n.a[0].a[0] in NARROW else k
            return None
        got = parts(x, num, sh.scen.pick)
        want = {k: UNITS[toks[k + 1]] * (-1 if toks[0] == "-" else 1) for k, t in enumerate(toks) if t == "n"}
        if got is None or rest is not None and left is None:
            if got is None and sampled(ctx, key, r, toks):
                continue
            ctx.undec(key, show(x, 0, 3)[:150])
            continue
        ctx.ob(key, got == want, "" if got == want else "is read as " + told(got, toks))
        # out of range: an error
        if toks[0] != "P" or not rfc:
            continue
        for y in {sh.scen.pick(s) for s in over}:
            v2 = shape(text, toks, y).scen.pick(r.value)
            if path_of(F, v2) == RESULT:
                ctx.ob("%s out of range in %s" % (name, word), v2.a[1] == 1 or v2 is v, "is not an error")


WHOLE = {"num_seconds": 1, "num_minutes": 60, "num_hours": 3600, "num_days": 86400, "num_weeks": 604800}


def sampled(ctx, key, r, toks):
    """with all the numbers of the shape the same: is a duration read that is not the sum?"""
    F = ctx.F
    for n in SAMPLES:
        def leaf(y):
            if y.op == "vfld" and y.a[1] == 0 and y.a[0].op == "call" and y.a[0].a[0] in WIDE and hasattr(y.a[0].a[1], "op"):
                q = sh.rng(y.a[0].a[1])
                return n if q is not None and sh.whole("int", q) else None
            if y.op == "phi":
                z = sh.scen.pick(y)
                return number(z, leaf) if z is not y else None
            if y.op == "call" and y.a[0].rsplit("::", 1)[-1] in WHOLE and "TimeDelta" in y.a[0] and hasattr(y.a[1], "op"):
                k = seconds(sh.scen.pick(y.a[1]), leaf, sh.scen)
                u = WHOLE[y.a[0].rsplit("::", 1)[-1]]
                return None if k is None else (abs(k) // u) * (1 if k >= 0 else -1)
            return None

        def extra(sh, s):
            if s.op in ("fits", "ovf"):
                return int(s.op == "fits")
            return number(s, leaf) if s.op in ("bin", "vfld", "call") else None
        sh = Shape(r.arg, [NUM if t == "n" else t for t in toks], extra, kind=lambda k: "int" if is_parse(k) else None)
        v = sh.scen.pick(r.value)
        if path_of(F, v) != RESULT or v.a[1] == 1:
            continue
        x = v.a[2].a[1] if v.a[2].op == "tuple" and len(v.a[2].a) == 2 else v.a[2]
        got = seconds(sh.scen.pick(x), leaf, sh.scen)
        want = sum(n * UNITS[toks[k + 1]] * (-1 if toks[0] == "-" else 1) for k, t in enumerate(toks) if t == "n")
        if got is not None and got != want:
            ctx.ob(key, False, "with n = %d it is read as %d seconds" % (n, got))
            return True
    return False


def told(got, toks):
    return " + ".join("%s%d s" % ("%s*" % (toks[k + 1] if isinstance(k, int) and k + 1 < len(toks) else k), v) for k, v in sorted(got.items(), key=str)) or "0"


def stepped(ctx, name, r):
    F = ctx.F
    recs = [rec for rec in r.loops.values() if rec.get("nexts")]
    if len(recs) != 1:
        ctx.undec(name, "%d loops" % len(recs))
        return
    rec = recs[0]
    nexts = rec["nexts"]
    lvs = list(nexts)
    for lv in list(rec["init"]):
        if lv not in nexts:
            lvs.append(lv)
    body = mk("tuple", r.value, *nexts.values())
    back = AND(rec["back"].lits()) if "back" in rec else FALSE
    its = [lv for lv in lvs if any(t.op == "head" and t.a[0] is lv for t in subterms(body))]
    if len(its) != 1:
        ctx.undec(name, "%d sequences are read" % len(its))
        return
    it = its[0]
    head = mk("head", it)
    consts = set()
    for t in subterms(mk("tuple", body, back)):
        if t.op == "lit":
            if t.a[0] is head:
                v = t.a[2]
                consts |= set(v) if isinstance(v, (tuple, list, frozenset, set)) else {v}
            elif t.a[0].op == "bin" and any(x is head for x in t.a[0].a[1:]):
                consts |= {x.a[0] for x in t.a[0].a[1:] if hasattr(x, "op") and x.op == "int"}
    chars = {c + k for c in consts if isinstance(c, int) for k in (-1, 0, 1)} | set(range(48, 58)) | {ord(c) for c in "PTWDHMSYwdhmst+- x"} | {0x10FFFF}
    chars = sorted(c for c in chars if 0 <= c <= 0x10FFFF)
    flags = [lv for lv in lvs if rec["init"].get(lv) is not None and rec["init"][lv].op == "int"]
    texts = [lv for lv in lvs if rec["init"].get(lv) is S("")]
    durs = [lv for lv in lvs if lv is not it and lv not in flags and lv not in texts]
    if len(texts) == 1 and len(lvs) > 3 and len(durs) >= 1 and any(rec["init"].get(d) is mk("call", ZERO) for d in durs) and (len(flags) > 1 or len(durs) > 1):
        simulated(ctx, name, r, rec, it, lvs, body, back, texts[0], [d for d in durs if rec["init"].get(d) is mk("call", ZERO)])
        return
    if len(flags) > 1 or len(texts) != 1 or len(durs) != 1 or rec["init"][durs[0]] is not mk("call", ZERO) or any(rec["init"][f] not in (I(0), I(1)) for f in flags):
        ctx.undec(name, "loop variables: %d flags, %d texts, %d others" % (len(flags), len(texts), len(durs)))
        return
    acc, dur = texts[0], durs[0]
    flag = flags[0] if flags else None

    def scenario(c, t, number_ok=1, fits=None, acc_empty=False):
        def leaf(x):
            return c if x is head else None

        def answer(s):
            if s.op == "isempty" and s.a[0] is it:
                return int(c is None)
            if s.op == "len" and s.a[0] is it and c is None:
                return 0
            if s is head and c is not None:
                return c
            if s.op == "bin" and c is not None and any(x is head for x in subterms(s)):
                return number(s, leaf)
            if s is flag:
                return t
            if s.op == "discr" and s.a[0].op == "call" and is_parse(s.a[0].a[0]) and s.a[0].a[1] is acc:
                return 1 - number_ok
            if s is acc:
                return "" if acc_empty else NOT(E.cond(s, ""))
            if s.op in ("fits", "ovf"):
                return int((s.op == "fits") == (s is not fits))
            return None
        st, v = settle(mk("tuple", body, back), answer)
        # answers must reach the guards that only appear in the state of the back edge
        vals = {lv: E.restrict(st, nexts[lv]) if lv in nexts else lv for lv in lvs}
        return st, vals, E.restrict(st, r.value), E.ev(st, back)

    def iserr(v):
        return path_of(F, v) == RESULT and v.a[1] == 1

    over = {t for t in subterms(mk("tuple", body, back)) if t.op in ("fits", "ovf")}
    init_t = rec["init"][flag].a[0] if flag is not None else 0
    started = None
    for t in ((0, 1) if flag is not None else (0,)):
        when = "" if flag is None else " in the time part" if t != init_t else " in the date part"
        for c in chars:
            ch = chr(c) if 32 < c < 127 else "U+%04X" % c
            key = "%s reads %s%s" % (name, "a digit" if 48 <= c <= 57 else ch, when)
            try:
                st, vals, v, bk = scenario(c, t)
            except core.Undecided as e:
                ctx.undec(key, e)
                continue
            if any(x.op == "phi" for x in vals.values()) and bk is not FALSE:
                ctx.undec(key, "the step is not determined")
                continue
            if bk is not FALSE and vals[it] is not mk("tail", it):
                ctx.undec(key, "more than one character is consumed")
                continue
            same = {lv for lv in lvs if vals[lv] is lv}
            if 48 <= c <= 57:
                ok = bk is not FALSE and cat_of(vals[acc], acc, c, head) and dur in same and (flag is None or flag in same or vals[flag] is I(t))
                ctx.ob(key, ok, "the digit is not appended to the number")
                try:
                    st, vals, v, bk = scenario(c, t, acc_empty=True)
                except core.Undecided as e:
                    ctx.undec(key + " first", e)
                    continue
                ctx.ob(key + " first", bk is not FALSE and cat_of(vals[acc], acc, c, head, True) and vals[dur] is dur, "the digit is not appended to the number")
            elif ch == "T":
                if t == init_t:
                    ok = bk is not FALSE and flag is not None and vals[flag] is I(1 - init_t) and dur in same and acc in same
                    ctx.ob(key, ok, "the time part is not started")
                    started = ok
                else:
                    kept = bk is not FALSE and {acc, dur, flag} <= same | {lv for lv in (flag,) if vals[lv] is I(t)}
                    ctx.ob(key, kept or bk is FALSE and iserr(v), "the time part is left")
            elif ch in UNITS and (ch in "WD") == (t == init_t) and ch != "M" or ch == "M" and t != init_t:
                p = parts(vals[dur], lambda n: "n" if n.op == "vfld" and n.a[0].op == "call" and n.a[0].a[0] in WIDE and n.a[0].a[1] is acc else "sum" if n is dur else None)
                if p is None:
                    for n in SAMPLES:
                        got = seconds(vals[dur], lambda y: n if y.op == "vfld" and y.a[0].op == "call" and y.a[0].a[0] in WIDE and y.a[0].a[1] is acc else None,
                                      None, (dur, 7))
                        if got is not None and got != 7 + n * UNITS[ch]:
                            ctx.ob(key, False, "%d%s adds %d seconds" % (n, ch, got - 7))
                            break
                    else:
                        ctx.undec(key, show(vals[dur], 0, 3)[:150])
                    continue
                ok = bk is not FALSE and p == {"sum": 1, "n": UNITS[ch]}
                ctx.ob(key, ok, "it adds %s" % p if bk is not FALSE else "it is refused")
                if not ok:
                    continue
                ctx.ob(key + ": next number", vals[acc] is S("") and (flag is None or flag in same or vals[flag] is I(t)), "the number is not cleared")
                st, vals1, v, bk = scenario(c, t, number_ok=0)
                ctx.ob("%s: a number that is none" % key, bk is FALSE and iserr(v), "is not an error")
                for y in sorted(over, key=lambda y: y.op):
                    st, vals1, v, bk = scenario(c, t, fits=y)
                    if all(vals1[lv] is vals[lv] for lv in lvs) and bk is not FALSE:
                        continue
                    ctx.ob("%s: out of range" % key, bk is FALSE and iserr(v), "is not an error")
            elif ch in ("Y", "M"):
                continue        # an extension of the date part
            else:
                ctx.ob("%s refuses %s%s" % (name, "other characters" if ch not in "WDHMS" else ch, when), bk is FALSE and iserr(v), "%s is accepted" % ch)
    # the end
    for neg in (0, 1):
        for t in ((0, 1) if flag is not None else (0,)):
            for empty in (True, False):
                key = "%s ends%s%s%s" % (name, " after -" if neg else "", " in the time part" if t != init_t else "", "" if empty else " within a number")
                try:
                    st, vals, v, bk = scenario(None, t, acc_empty=empty)
                    st, v = settle(v, lambda s: start(r.arg, s, neg), st)
                except core.Undecided as e:
                    ctx.undec(key, e)
                    continue
                if not empty and v.op == "phi" and any(path_of(F, x) == RESULT and x.a[1] == 0 and lone(g, dur) for g, x in alts(v)):
                    ctx.ob(key, False, "the number is ignored, depending on the sum so far")
                    continue
                if path_of(F, v) != RESULT:
                    ctx.undec(key, show(v, 0, 3)[:150])
                    continue
                if not empty:
                    ctx.ob(key, v.a[1] == 1, "the number is ignored")
                elif v.a[1] == 1:
                    ctx.ob(key, False, "is an error")
                else:
                    p = parts(v.a[2], lambda n: "sum" if n is dur else None)
                    if p is None:
                        ctx.undec(key, show(v.a[2], 0, 3)[:150])
                    else:
                        ctx.ob(key, p == {"sum": -1 if neg else 1}, "the sum is taken %s times" % p)
    # the beginning
    chars_ = mk("chars", r.arg)
    for sign in ("", "-", "+"):
        want = chars_
        for _ in range(len(sign) + 1):
            want = mk("tail", want)
        try:
            st, v = settle(rec["init"][it], lambda s: begin(r.arg, s, sign + "P"))
        except core.Undecided as e:
            ctx.undec("%s begins with %sP" % (name, sign), e)
            continue
        if v.op == "phi":
            ctx.undec("%s begins with %sP" % (name, sign), show(v, 0, 3)[:150])
            continue
        ctx.ob("%s begins with %sP" % (name, sign), v is want, "the parts are not read from behind P")


def simulated(ctx, name, r, rec, it, lvs, body, back, acc, durs):
    """the loop on each shape of RFC 5545, the numbers being unknown positive numbers"""
    F = ctx.F
    head = mk("head", it)
    nexts = rec["nexts"]
    flags = [lv for lv in lvs if lv is not it and lv is not acc and lv not in durs]

    def run_on(toks):
        sign = toks[0] if toks[0] != "P" else ""
        st = {}
        for lv in flags:
            _, v = settle(rec["init"][lv], lambda s: begin(r.arg, s, sign + "P"))
            if v.op != "int":
                return "state " + show(v, 0, 2)[:80]
            st[lv] = v.a[0]
        sums = {d: {} for d in durs}
        num = None
        todo = list(enumerate(toks))[len(sign) + 1:] + [(len(toks), None)]
        for k, c in todo:
            ch = None if c is None else 53 if c == "n" else ord(c)

            def answer(s):
                if s.op == "isempty" and s.a[0] is it:
                    return int(ch is None)
                if s.op == "len" and s.a[0] is it and ch is None:
                    return 0
                if s is head and ch is not None:
                    return ch
                if s.op == "bin" and any(x is head or x in st for x in subterms(s)):
                    return number(s, lambda x: st[x] if x in st else ch if x is head else None)
                if s in st:
                    return st[s]
                if s.op == "discr" and s.a[0].op == "call" and is_parse(s.a[0].a[0]) and s.a[0].a[1] is acc:
                    return 0
                if s is acc:
                    return "" if num is None else NOT(E.cond(s, ""))
                if s.op in ("fits", "ovf"):
                    return int(s.op == "fits")
                z = None
                if s.op == "call" and s.a[0].endswith("::is_zero") and s.a[1] in sums:
                    z = sums[s.a[1]]
                if s.op == "eq" and any(x in sums for x in s.a) and any(x is mk("call", ZERO) for x in s.a):
                    z = sums[[x for x in s.a if x in sums][0]]
                if z is not None and (not z or len({v > 0 for v in z.values()}) == 1):
                    return int(not z)
                return begin(r.arg, s, sign + "P")
            s0, _ = settle(mk("tuple", body, back), answer)
            bk = E.ev(s0, back)
            pick = lambda t: E.restrict(s0, t)
            key = lambda n: ("n",) if n.op == "vfld" and n.a[0].op == "call" and n.a[0].a[0] in WIDE and n.a[0].a[1] is acc else n if n in sums else None

            def total(t):
                p = parts(t, key, pick)
                if p is None:
                    return None
                out = {}
                for q, v in p.items():
                    for j, w in ({num: 1} if q == ("n",) else sums[q] if q in sums else {q: 1}).items():
                        out[j] = out.get(j, 0) + v * w
                return {j: w for j, w in out.items() if w}
            if bk is FALSE:
                _, v = settle(r.value, answer, s0)
                if path_of(F, v) != RESULT:
                    return "result " + show(v, 0, 3)[:120]
                if v.a[1] == 1:
                    return None
                got = total(v.a[2])
                if got is None:
                    return "result " + show(v.a[2], 0, 3)[:120]
                return got if c is None else {"up to %d" % k: 1}
            if c is None:
                return "the end is not reached"
            new = {lv: pick(nexts[lv]) if lv in nexts else lv for lv in lvs}
            if new[it] is not mk("tail", it):
                return "more than one character is consumed"
            st2 = {}
            for lv in flags:
                v = new[lv]
                st2[lv] = number(v, lambda x: st[x] if x in st else ch if x is head else None)
                if st2[lv] is None:
                    return "state " + show(v, 0, 2)[:80]
            sums2 = {}
            for d in durs:
                sums2[d] = total(new[d])
                if sums2[d] is None:
                    return "sum " + show(new[d], 0, 3)[:120]
            if c == "n":
                if not cat_of(new[acc], acc, ch, head, num is None):
                    return "number " + show(new[acc], 0, 3)[:120]
                num = k
            elif new[acc] is S(""):
                num = None
            elif new[acc] is not acc:
                return "number " + show(new[acc], 0, 3)[:120]
            st, sums = st2, sums2
        return "no end"
    for toks, rfc in shapes():
        if not rfc:
            continue
        word = "".join(toks)
        key = "%s reads %s" % (name, word)
        try:
            got = run_on(toks)
        except core.Undecided as e:
            got = str(e)
        if isinstance(got, str):
            ctx.undec(key, got)
            continue
        want = {k: UNITS[toks[k + 1]] * (-1 if toks[0] == "-" else 1) for k, t in enumerate(toks) if t == "n"}
        ctx.ob(key, got == want, "is an error" if got is None else "" if got == want else "is read as " + told(got, toks))


def start(text, s, neg):
    return begin(text, s, "-P" if neg else "P")


def begin(text, s, prefix):
    """answers for a text that starts with the prefix and has more"""
    seq = mk("chars", text)
    at = {seq: 0}
    x = seq
    for k in range(len(prefix)):
        x = mk("tail", x)
        at[x] = k + 1
    if s is text:
        return NOT(E.cond(s, ""))
    if s.op == "isempty" and s.a[0] in at and at[s.a[0]] < len(prefix):
        return 0
    if s.op == "head" and s.a[0] in at and at[s.a[0]] < len(prefix):
        return ord(prefix[at[s.a[0]]])
    return None


def cat_of(x, acc, c, head, first=False):
    """x is acc followed by the digit"""
    if first and x is S(chr(c)) or first and x.op == "chr" and (x.a[0] is head or x.a[0] is I(c)):
        return True
    if x.op != "cat" or len(x.a) != 2 or x.a[0] is not acc and x.a[0] is not S(""):
        return False
    y = x.a[1]
    return y is S(chr(c)) or y.op == "chr" and (y.a[0] is head or y.a[0] is I(c))


def run(ctx):
    F = ctx.F
    n = 0
    paths = {}
    for i, f in readers(F):
        n += 1
        name = f["path"].replace("ikal::parser::", "").replace("ikal::", "")
        paths[f["path"]] = i
        try:
            r = ctx.run(i, key=("p20", i))
        except core.Undecided as e:
            ctx.undec(name, e)
            continue
        if r.value is None:
            ctx.ob(name, False, "never returns")
            continue
        r.arg = core.arg(F, 0, F.fns[i]["body"]["locals"][1])
        if r.loops:
            stepped(ctx, name, r)
        else:
            shaped(ctx, name, r)
    if n < 2:
        ctx.undec("readers", "only %d readers of durations found" % n)
