"""Abstract semantics of the nom parser combinators.

A combinator call builds a `nom(name, ...)` term; `Parser::parse` applies such a term to an input and
yields at most three outcomes - success (rest, value), recoverable error, failure - each with its own
abstract state.  Text is never enumerated: `span(i, cset)` is the longest prefix of i inside a
character set, `spanrest` what follows, `strip(i, t)` what follows a matched tag.
"""
import engine as E
import models as M
from models import MODELS, TRAIT_MODELS, model, tmodel, some, none, ok, err, REPS
from terms import *
from engine import (cond, bool_term, mkphi, mk_adt, prune, ev, assume, merge, typed, isbool, fld, vfld,
                    seq_empty, discr_of, TYOF, DOMAIN, BOOLDOM, Unsupported, vcat_norm)

ALLCH = tuple(list(range(128)) + REPS)


class Out:
    __slots__ = ("ok", "err", "fail")     # lists: ok [(st, rest, val)], err [st], fail [st]

    def __init__(self, ok=(), err=(), fail=()):
        self.ok, self.err, self.fail = list(ok), list(err), list(fail)


def merge_ok(en, oks):
    oks = [o for o in oks if o[0] is not None]
    if len(oks) <= 1:
        return oks
    sts = []
    for s, r, v in oks:
        s = s.copy()
        s.mem[("tmp", "nr")] = r
        s.mem[("tmp", "nv")] = v
        sts.append(s)
    m = merge(sts)
    m = m.copy()
    return [(m, m.mem.pop(("tmp", "nr")), m.mem.pop(("tmp", "nv")))]


def norm(en, o):
    o.ok = merge_ok(en, o.ok)
    for k in ("err", "fail"):
        ss = [s for s in getattr(o, k) if s is not None]
        setattr(o, k, [merge(ss)] if len(ss) > 1 else ss)
    return o


def guarded(st, g, rest, val):
    g = ev(st, g)
    o = Out()
    s = assume(st, g)
    if s is not None:
        o.ok.append((s, prune(s, rest), prune(s, val)))
    s = assume(st, NOT(g))
    if s is not None:
        o.err.append(s)
    return o


def chr_text(c):
    return S(chr(c.a[0])) if c.op == "int" else mk("chr", c)


def in_set(name):
    import string
    sets = {
        "alpha": [c for c in range(128) if chr(c).isalpha()],
        "digit": [c for c in range(48, 58)],
        "hex": [ord(c) for c in string.hexdigits],
        "alnum": [c for c in range(128) if chr(c).isalnum()],
        "space": [32, 9],
        "multispace": [32, 9, 13, 10],
    }
    return sets[name]


def spanned(st, i, cs, least=0):
    i = prune(st, i)
    if i.op == "str" and cs.op == "cset":
        n = 0
        t = i.a[0]
        while n < len(t) and ord(t[n]) in cs.a[0]:
            n += 1
        v, r = S(t[:n]), S(t[n:])
    else:
        v, r = mk("span", i, cs), mk("spanrest", i, cs)
    if least:
        return guarded(st, NOT(cond(v, "")), r, v)
    return Out(ok=[(st, r, v)])


def negset(cs):
    if cs.op == "cset":
        return M.ranges_to_set(set(ALLCH) - set(cs.a[0]))
    return mk("notset", cs)


def apply(en, st, p, i, site):
    """outcomes of running parser value p on input i"""
    p = prune(st, p)
    if p.op == "phi":
        o = Out()
        for n, (g, q) in enumerate(p.a[0]):
            s = assume(st, g)
            if s is not None:
                x = apply(en, s, q, i, site + (n,))
                o.ok += x.ok
                o.err += x.err
                o.fail += x.fail
        return norm(en, o)
    if p.op == "ref":
        inner = prune(st, en.load(st, p))
        if inner.op in ("nom", "tuple", "fn"):
            return apply(en, st, inner, i, site)
    if p.op == "tuple":
        return sequence(en, st, list(p.a), i, site)
    if p.op != "nom":
        return user(en, st, p, i, site)
    h = PRIMS.get(p.a[0])
    if h is None:
        return opaque(en, st, p.a[0], p.a[1:], i, None)
    return norm(en, h(en, st, p.a[1:], i, site))


def opaque(en, st, name, args, i, ty):
    a = [en.snap(st, x) for x in args if isinstance(x, T)]
    okf = cond(isbool(mk("nomok", name, *a, i)), 1)
    return guarded(st, okf, mk("nomrest", name, *a, i), typed(mk("nomval", name, *a, i), ty))


def out_type(en, f):
    """O of a fn(&str) -> IResult<&str, O, _> record"""
    if f.get("out") is None:
        return None
    t = en.F.types[f["out"]]
    if t["k"] == "adt" and t["path"] == "core::result::Result":
        p = en.F.types[t["args"][0]]
        if p["k"] == "tuple" and len(p["f"]) == 2:
            return p["f"][1]
    return None


def is_iresult(en, f):
    t = en.F.types[f["out"]] if f.get("out") is not None else {"k": "?"}
    if t["k"] != "adt" or t["path"] != "core::result::Result":
        return False
    e = en.F.types[t["args"][1]]
    return e["k"] == "adt" and e["path"] == "nom::internal::Err"


def opaque_call(en, st, f, vals, ctx):
    """a function with its own analysis: uninterpreted here"""
    if is_iresult(en, f) and len(vals) == 1:
        return result(en, st, opaque(en, st, f["path"], (), prune(st, vals[0]), out_type(en, f)), f)
    name = f["path"]
    vs = [M.deref(en, st, v) for v in vals]
    r = typed(mk("call", name, *[en.snap(st, v) for v in vs]), f["out"])
    if en.F.types[f["out"]]["k"] == "bool":
        isbool(r)
    return st, r


M.opaque_call = opaque_call


def user(en, st, p, i, site):
    if p.op == "fn":
        f = en.F.fns[p.a[0]]
        if f["path"] in MODELS and getattr(MODELS[f["path"]], "nomprim", None):
            return apply(en, st, mk("nom", MODELS[f["path"]].nomprim), i, site)
        if en.is_opaque(f):
            en.opaque_calls.add(p.a[0])
            return opaque(en, st, f["path"], (), i, out_type(en, f))
    s, v = en.call_value(st, p, [i], site + ("p",))
    if s is None:
        return Out()
    return split_result(en, s, v)


def split_result(en, s, v):
    o = Out()
    d = discr_of(v, (0, 1))
    so = assume(s, cond(d, 0))
    if so is not None:
        pair = vfld(prune(so, v), 0, 0)
        pair = prune(so, pair)
        o.ok.append((so, prune(so, fld(pair, 0)), prune(so, fld(pair, 1))))
    se = assume(s, cond(d, 1))
    if se is not None:
        e = prune(se, vfld(prune(se, v), 1, 0))
        k = discr_of(e, (0, 1, 2))
        s1 = assume(se, cond(k, 1))
        if s1 is not None:
            o.err.append(s1)
        s2 = assume(se, NOT(cond(k, 1)))
        if s2 is not None:
            o.fail.append(s2)
    return norm(en, o)


def sequence(en, st, ps, i, site, keep=None):
    """all parsers in order; value = tuple of the kept values"""
    o = Out()
    cur = [(st, i, ())]
    for n, p in enumerate(ps):
        nxt = []
        for s, r, vs in cur:
            x = apply(en, s, p, r, site + ("s", n))
            o.err += x.err
            o.fail += x.fail
            for s2, r2, v in x.ok:
                nxt.append((s2, r2, vs + (v,)))
        if len(nxt) > 1:
            m = merge_ok(en, [(s, r, mk("tuple", *vs)) for s, r, vs in nxt])
            nxt = [(s, r, v.a) for s, r, v in m]
        cur = nxt
        if not cur:
            break
    for s, r, vs in cur:
        if keep is None:
            v = mk("tuple", *vs)
        elif isinstance(keep, int):
            v = vs[keep]
        else:
            v = mk("tuple", *[vs[k] for k in keep])
        o.ok.append((s, r, v))
    return norm(en, o)


def then(en, o, fn):
    """map the ok outcomes through fn(st, rest, val) -> Out"""
    r = Out(err=o.err, fail=o.fail)
    for s, rest, v in o.ok:
        x = fn(s, rest, v)
        r.ok += x.ok
        r.err += x.err
        r.fail += x.fail
    return norm(en, r)


PRIMS = {}


def prim(name):
    def deco(fn):
        PRIMS[name] = fn
        return fn
    return deco


@prim("tag")
def p_tag(en, st, a, i, site):
    t = a[0]
    g = M.starts_formula(st, i, t)
    return guarded(st, g, M.strip(prune(st, i), t), t)


@prim("char")
def p_char(en, st, a, i, site):
    t = chr_text(a[0])
    return guarded(st, M.starts_formula(st, i, t), M.strip(prune(st, i), t), a[0])


@prim("tag_no_case")
def p_tnc(en, st, a, i, site):
    return guarded(st, cond(isbool(mk("nomok", "tag_no_case", a[0], i)), 1),
                   mk("nomrest", "tag_no_case", a[0], i), mk("nomval", "tag_no_case", a[0], i))


@prim("one_of")
def p_one_of(en, st, a, i, site):
    i = prune(st, i)
    return guarded(st, cond(isbool(mk("nomok", "one_of", a[0], i)), 1),
                   mk("chtail", i), typed(mk("chhead", i), M.C.char))


PRIMS["none_of"] = lambda en, st, a, i, site: guarded(
    st, cond(isbool(mk("nomok", "none_of", a[0], i)), 1), mk("chtail", i), typed(mk("chhead", i), M.C.char))
PRIMS["satisfy"] = PRIMS["none_of"]


@prim("anychar")
def p_anychar(en, st, a, i, site):
    i = prune(st, i)
    return guarded(st, NOT(cond(i, "")), mk("chtail", i), typed(mk("chhead", i), M.C.char))


@prim("take_while")
def p_tw(en, st, a, i, site):
    return spanned(st, i, a[0])


@prim("take_while1")
def p_tw1(en, st, a, i, site):
    return spanned(st, i, a[0], 1)


@prim("take_till")
def p_tt(en, st, a, i, site):
    return spanned(st, i, negset(a[0]))


@prim("take_till1")
def p_tt1(en, st, a, i, site):
    return spanned(st, i, negset(a[0]), 1)


@prim("take_until")
def p_tu(en, st, a, i, site):
    i = prune(st, i)
    return guarded(st, cond(isbool(mk("call", "contains", i, a[0])), 1),
                   mk("untilrest", i, a[0]), mk("until", i, a[0]))


for _n, _s, _l in (("digit0", "digit", 0), ("digit1", "digit", 1), ("alpha0", "alpha", 0), ("alpha1", "alpha", 1),
                   ("alphanumeric0", "alnum", 0), ("alphanumeric1", "alnum", 1), ("space0", "space", 0),
                   ("space1", "space", 1), ("multispace0", "multispace", 0), ("multispace1", "multispace", 1),
                   ("hex_digit0", "hex", 0), ("hex_digit1", "hex", 1)):
    PRIMS[_n] = (lambda s, l: lambda en, st, a, i, site: spanned(st, i, M.ranges_to_set(in_set(s)), l))(_s, _l)


@prim("not_line_ending")
def p_nle(en, st, a, i, site):
    return Out(ok=[(st, mk("nomrest", "not_line_ending", i), mk("nomval", "not_line_ending", i))])


@prim("line_ending")
def p_le(en, st, a, i, site):
    return p_alt(en, st, [mk("nom", "tag", S("\n")), mk("nom", "tag", S("\r\n"))], i, site)


PRIMS["crlf"] = lambda en, st, a, i, site: p_tag(en, st, [S("\r\n")], i, site)
PRIMS["newline"] = lambda en, st, a, i, site: p_char(en, st, [I(10)], i, site)
PRIMS["tab"] = lambda en, st, a, i, site: p_char(en, st, [I(9)], i, site)


def num(name):
    def fn(en, st, a, i, site):
        ty = en.F.tyname.get(name if name != "float" else "f32")
        i = prune(st, i)
        return opaque(en, st, name, (), i, ty)
    return fn


for _n in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "i128", "u128"):
    PRIMS[_n] = num(_n)
PRIMS["float"] = num("float")
PRIMS["double"] = num("double")


@prim("rest")
def p_rest(en, st, a, i, site):
    return Out(ok=[(st, S(""), i)])


@prim("eof")
def p_eof(en, st, a, i, site):
    return guarded(st, cond(prune(st, i), ""), i, S(""))


@prim("success")
def p_success(en, st, a, i, site):
    return Out(ok=[(st, i, a[0])])


@prim("fail")
def p_fail(en, st, a, i, site):
    return Out(err=[st])


@prim("map")
def p_map(en, st, a, i, site):
    def f(s, rest, v):
        s2, v2 = en.call_value(s, a[1], [v], site + ("f",))
        return Out(ok=[(s2, rest, v2)]) if s2 is not None else Out()
    return then(en, apply(en, st, a[0], i, site + ("m",)), f)


@prim("map_res")
def p_map_res(en, st, a, i, site):
    def f(s, rest, v):
        s2, r = en.call_value(s, a[1], [v], site + ("f",))
        o = Out()
        if s2 is None:
            return o
        d = discr_of(r, (0, 1))
        so = assume(s2, cond(d, 0))
        if so is not None:
            o.ok.append((so, rest, prune(so, vfld(prune(so, r), 0, 0))))
        se = assume(s2, cond(d, 1))
        if se is not None:
            o.err.append(se)
        return o
    return then(en, apply(en, st, a[0], i, site + ("m",)), f)


@prim("map_opt")
def p_map_opt(en, st, a, i, site):
    def f(s, rest, v):
        s2, r = en.call_value(s, a[1], [v], site + ("f",))
        o = Out()
        if s2 is None:
            return o
        d = discr_of(r, (0, 1))
        so = assume(s2, cond(d, 1))
        if so is not None:
            o.ok.append((so, rest, prune(so, vfld(prune(so, r), 1, 0))))
        se = assume(s2, cond(d, 0))
        if se is not None:
            o.err.append(se)
        return o
    return then(en, apply(en, st, a[0], i, site + ("m",)), f)


@prim("map_parser")
def p_map_parser(en, st, a, i, site):
    return then(en, apply(en, st, a[0], i, site + ("m",)),
                lambda s, rest, v: then(en, apply(en, s, a[1], v, site + ("n",)),
                                        lambda s2, r2, v2: Out(ok=[(s2, rest, v2)])))


@prim("flat_map")
def p_flat_map(en, st, a, i, site):
    def f(s, rest, v):
        s2, p = en.call_value(s, a[1], [v], site + ("f",))
        return apply(en, s2, p, rest, site + ("n",)) if s2 is not None else Out()
    return then(en, apply(en, st, a[0], i, site + ("m",)), f)


@prim("opt")
def p_opt(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    o = Out(fail=x.fail)
    for s, r, v in x.ok:
        o.ok.append((s, r, some(v)))
    for s in x.err:
        o.ok.append((s, i, none()))
    return o


@prim("not")
def p_not(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    return Out(ok=[(s, i, UNIT) for s in x.err], err=[s for s, _, _ in x.ok], fail=x.fail)


@prim("peek")
def p_peek(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    return Out(ok=[(s, i, v) for s, _, v in x.ok], err=x.err, fail=x.fail)


@prim("cut")
def p_cut(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    return Out(ok=x.ok, fail=x.fail + x.err)


@prim("complete")
def p_complete(en, st, a, i, site):
    return apply(en, st, a[0], i, site)


@prim("all_consuming")
def p_all(en, st, a, i, site):
    return then(en, apply(en, st, a[0], i, site + ("o",)),
                lambda s, r, v: guarded(s, cond(prune(s, r), ""), r, v))


@prim("value")
def p_value(en, st, a, i, site):
    x = apply(en, st, a[1], i, site + ("o",))
    return Out(ok=[(s, r, a[0]) for s, r, _ in x.ok], err=x.err, fail=x.fail)


@prim("recognize")
def p_recognize(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    return Out(ok=[(s, r, mk("consumed", i, r)) for s, r, _ in x.ok], err=x.err, fail=x.fail)


@prim("consumed")
def p_consumed(en, st, a, i, site):
    x = apply(en, st, a[0], i, site + ("o",))
    return Out(ok=[(s, r, mk("tuple", mk("consumed", i, r), v)) for s, r, v in x.ok], err=x.err, fail=x.fail)


@prim("verify")
def p_verify(en, st, a, i, site):
    def f(s, rest, v):
        arg = v if v.op in ("span", "str", "cat", "consumed", "until") else M.kref(v)
        s2, r = en.call_value(s, a[1], [arg], site + ("f",))
        return guarded(s2, cond(prune(s2, r), 1), rest, v) if s2 is not None else Out()
    return then(en, apply(en, st, a[0], i, site + ("m",)), f)


@prim("alt")
def p_alt(en, st, a, i, site):
    ps = a
    if len(a) == 1 and a[0].op in ("tuple", "array"):
        ps = a[0].a
    o = Out()
    cur = [st]
    for n, p in enumerate(ps):
        nxt = []
        for s in cur:
            x = apply(en, s, p, i, site + ("a", n))
            o.ok += x.ok
            o.fail += x.fail
            nxt += x.err
        cur = [merge(nxt)] if len(nxt) > 1 else nxt
        if not cur:
            break
    o.err = cur
    return o


@prim("count")
def p_count(en, st, a, i, site):
    n = prune(st, a[1])
    if n.op != "int" or n.a[0] > 64:
        return opaque(en, st, "count", a, i, None)
    return then(en, sequence(en, st, [a[0]] * n.a[0], i, site),
                lambda s, r, v: Out(ok=[(s, r, mkvec(list(v.a)))]))


def seqp(keep, n):
    def fn(en, st, a, i, site):
        return sequence(en, st, list(a[:n]), i, site, keep)
    return fn


PRIMS["delimited"] = seqp(1, 3)
PRIMS["preceded"] = seqp(1, 2)
PRIMS["terminated"] = seqp(0, 2)
PRIMS["pair"] = seqp(None, 2)
PRIMS["separated_pair"] = seqp((0, 2), 3)


def progress(st, i, r, d=0):
    """formula: r is strictly shorter than i"""
    i, r = prune(st, i), prune(st, r)
    if i is r:
        return FALSE
    if r.op == "phi":
        return OR([AND([g, progress(st, i, x, d + 1)]) for g, x in r.a[0]])
    if r.op == "strip" and r.a[1].op == "str" and r.a[1].a[0]:
        return TRUE
    if r.op in ("strip", "chtail"):
        return TRUE
    if r.op == "spanrest":
        sub = progress(st, i, r.a[0], d + 1)
        if sub is TRUE:
            return TRUE
        here = NOT(cond(mk("span", r.a[0], r.a[1]), ""))
        return OR([sub, here])
    return cond(isbool(mk("progress", i, r)), 1)


def fold(en, st, p, i, site, acc0, step_fn, least, sep=None):
    """repeat p, folding its values: fold_many0 / many0 / many1 / separated_list"""
    fid = en.frame_key()
    rslot = ("nom", fid, site, "rest")
    aslot = ("nom", fid, site, "acc")
    st = st.copy()
    st.mem[rslot] = i
    st.mem[aslot] = acc0
    o = Out()
    lid = ("N", mk("site", fid, site), 0)

    def iteration(s, first):
        """one application -> continuing states, exit ok states, err, fail"""
        back, done, er, fa = [], [], [], []
        cur = prune(s, en.get(s, rslot))
        if sep is not None and not first:
            x = sequence(en, s, [sep, p], cur, site + ("it",), 1)
        else:
            x = apply(en, s, p, cur, site + ("it",))
        fa += x.fail
        for e in x.err:
            done.append(e)
        for s2, r, v in x.ok:
            g = ev(s2, progress(s2, cur, r))
            sb = assume(s2, NOT(g))
            if sb is not None:
                er.append(sb)
            sg = assume(s2, g)
            if sg is None:
                continue
            s3, a2 = step_fn(sg, prune(sg, en.get(sg, aslot)), v)
            if s3 is None:
                continue
            s3 = s3.copy()
            s3.mem[aslot] = a2
            s3.mem[rslot] = r
            back.append(s3)
        return back, done, er, fa

    starts = [st]
    for k in range(least):
        nxt = []
        for s in starts:
            b, d, er, fa = iteration(s, k == 0)
            nxt += b
            o.err += d + er
            o.fail += fa
        starts = nxt
    if sep is not None and least == 0:
        nxt = []
        for s in starts:
            b, d, er, fa = iteration(s, True)
            nxt += b
            o.err += er
            o.fail += fa
            for e in d:
                o.ok.append((e, en.get(e, rslot), en.get(e, aslot)))
        starts = nxt
    if not starts:
        return o
    st = merge(starts)

    def step(h):
        b, d, er, fa = iteration(h, False)
        return [("done", s) for s in d] + [("err", s) for s in er] + [("fail", s) for s in fa], b

    for tgt, s in en.run_loop(lid, st, step):
        if tgt == "done":
            o.ok.append((s, prune(s, en.get(s, rslot)), prune(s, en.get(s, aslot))))
        elif tgt == "err":
            o.err.append(s)
        else:
            o.fail.append(s)
    for grp in (o.ok,):
        for n, (s, r, v) in enumerate(grp):
            s = s.copy()
            s.mem.pop(rslot, None)
            s.mem.pop(aslot, None)
            grp[n] = (s, r, v)
    return o


def pusher(en):
    def step(s, acc, v):
        return s, M.push_one(acc, en.snap_own(s, v))
    return step


@prim("many0")
def p_many0(en, st, a, i, site):
    return fold(en, st, a[0], i, site, mk("vec"), pusher(en), 0)


@prim("many1")
def p_many1(en, st, a, i, site):
    return fold(en, st, a[0], i, site, mk("vec"), pusher(en), 1)


@prim("many0_count")
def p_many0c(en, st, a, i, site):
    return fold(en, st, a[0], i, site, I(0), lambda s, acc, v: (s, mk("bin", "Add", acc, I(1))), 0)


@prim("separated_list0")
def p_sl0(en, st, a, i, site):
    return fold(en, st, a[1], i, site, mk("vec"), pusher(en), 0, a[0])


@prim("separated_list1")
def p_sl1(en, st, a, i, site):
    return fold(en, st, a[1], i, site, mk("vec"), pusher(en), 1, a[0])


def folder(least):
    def fn(en, st, a, i, site):
        s, acc0 = en.call_value(st, a[1], [], site + ("init",))
        if s is None:
            return Out()

        def step(s2, acc, v):
            return en.call_value(s2, a[2], [acc, v], site + ("g",))
        return fold(en, s, a[0], i, site, acc0, step, least)
    return fn


PRIMS["fold_many0"] = folder(0)
PRIMS["fold_many1"] = folder(1)


# ---------------------------------------------------------------- registration

PATTERN = {"tag": "str", "tag_no_case": "str", "take_until": "str", "one_of": "str", "none_of": "str",
           "take_while": "set", "take_while1": "set", "take_till": "set", "take_till1": "set", "satisfy": "set"}
DIRECT = ("anychar", "line_ending", "crlf", "newline", "tab", "digit0", "digit1", "alpha0", "alpha1",
          "alphanumeric0", "alphanumeric1", "space0", "space1", "multispace0", "multispace1", "hex_digit0",
          "hex_digit1", "not_line_ending", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "i128", "u128",
          "float", "double", "rest", "eof", "fail")


def build(name):
    def fn(en, st, f, vals, ctx):
        if name == "context":
            return st, vals[1]
        vs = list(vals)
        kind = PATTERN.get(name)
        if kind == "set" and f.get("ins"):
            ty = f["ins"][0]
            vs[0] = M.pattern(en, st, vs[0], ty, ctx)
        elif kind == "str":
            vs[0] = M.content(en, st, vs[0])
        return st, mk("nom", name, *vs)
    return fn


def direct(name):
    def fn(en, st, f, vals, ctx):
        o = apply(en, st, mk("nom", name), vals[0], ctx[1] + ("nom",))
        return result(en, st, o, f)
    fn.nomprim = name
    return fn


WHERE = {
    "nom::bytes::complete::": ("tag", "tag_no_case", "take_till", "take_till1", "take_while", "take_while1", "take_until"),
    "nom::character::complete::": ("char", "one_of", "none_of", "satisfy"),
    "nom::combinator::": ("map", "map_res", "map_opt", "map_parser", "flat_map", "opt", "not", "peek", "cut",
                          "complete", "all_consuming", "value", "recognize", "consumed", "verify", "success"),
    "nom::branch::": ("alt",),
    "nom::error::": ("context",),
    "nom::multi::": ("count", "many0", "many1", "many0_count", "separated_list0", "separated_list1",
                     "fold_many0", "fold_many1"),
    "nom::sequence::": ("delimited", "preceded", "terminated", "pair", "separated_pair"),
}
for _p, _ns in WHERE.items():
    for _n in _ns:
        MODELS[_p + _n] = build(_n)
        MODELS[_p.replace("complete", "streaming") + _n] = MODELS[_p + _n] if "complete" not in _p else \
            MODELS.get(_p.replace("complete", "streaming") + _n, build(_n))
for _n in DIRECT:
    for _p in ("nom::character::complete::", "nom::combinator::", "nom::number::complete::"):
        MODELS[_p + _n] = direct(_n)

for _m, _n in (("map", "map"), ("map_res", "map_res"), ("map_opt", "map_opt"), ("and_then", "map_parser"),
               ("flat_map", "flat_map"), ("and", "pair")):
    TRAIT_MODELS["nom::internal::Parser::" + _m] = build(_n)


@tmodel("nom::internal::Parser::or")
def p_or(en, st, f, vals, ctx):
    return st, mk("nom", "alt", *vals)


@tmodel("nom::internal::Parser::parse", "nom::internal::Parser::parse_complete")
def parse(en, st, f, vals, ctx):
    o = apply(en, st, vals[0], vals[1], ctx[1] + ("nom",))
    return result(en, st, o, f)


def result(en, st, o, f):
    o = norm(en, o)
    out = []
    ety = None
    for s, r, v in o.ok:
        out.append((s, ok(mk("tuple", r, v))))
    for s in o.err:
        out.append((s, err(mk_adt(M.C.nerr, 1, [mk("nomerr")]))))
    for s in o.fail:
        out.append((s, err(mk_adt(M.C.nerr, 2, [mk("nomerr")]))))
    out = [(s, v) for s, v in out if s is not None]
    if not out:
        return None, None
    if len(out) == 1:
        return out[0]
    sts = []
    for s, v in out:
        s = s.copy()
        s.mem[("tmp", "nr")] = v
        sts.append(s)
    m = merge(sts).copy()
    v = m.mem.pop(("tmp", "nr"))
    return m, prune(m, v)


@model("nom::error::FromExternalError::from_external_error", "nom::error::ParseError::from_error_kind")
def ext_err(en, st, f, vals, ctx):
    return st, mk("nomerr")


@tmodel("nom::error::FromExternalError::from_external_error", "nom::error::ParseError::from_error_kind",
        "nom::error::ParseError::append", "nom::error::ContextError::add_context")
def ext_err_t(en, st, f, vals, ctx):
    return st, mk("nomerr")
