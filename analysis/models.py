"""Abstract models of the library functions ikal is built from (core, alloc, chrono, nom).

A model maps abstract arguments to an abstract result; everything without a model is either analysed
through its MIR body or becomes an uninterpreted term by `fallback`.  Models state the documented
behaviour of the function (what it returns, what it mutates, when it panics) and nothing about ikal.
"""
import unicodedata

import engine as E
from terms import *
from engine import (cond, bool_term, mkphi, mk_adt, prune, ev, assume, merge, typed, isbool, fld, vfld,
                    seq_norm, seq_head, seq_tail, seq_len, seq_empty, seq_append, vcat_norm, streq_formula,
                    discr_of, subst, TYOF, DOMAIN, BOOLDOM, rng, Unsupported)

MODELS = {}
TRAIT_MODELS = {}

C = None          # type ids of the well-known enums, set by bind()


class Ids:
    pass


def bind(engine):
    """canonical type ids for Option / Result / ControlFlow / nom::Err (payload-independent)"""
    global C
    C = Ids()
    F = engine.F
    canon = {}
    first = {}
    for i, t in enumerate(F.types):
        if t["k"] == "adt" and t.get("path") in (
                "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
                "nom::internal::Err", "core::cmp::Ordering", "core::task::poll::Poll"):
            canon[i] = first.setdefault(t["path"], i)
    E.CANON.clear()
    E.CANON.update(canon)
    C.opt = first.get("core::option::Option")
    C.res = first.get("core::result::Result")
    C.cf = first.get("core::ops::control_flow::ControlFlow")
    C.nerr = first.get("nom::internal::Err")
    C.ordering = first.get("core::cmp::Ordering")
    C.usize = F.tyname.get("usize")
    C.char = F.tyname.get("char")
    C.bool = F.tyname.get("bool")


def some(x):
    return mk_adt(C.opt, 1, [x])


def none():
    return mk_adt(C.opt, 0, [])


def ok(x):
    return mk_adt(C.res, 0, [x])


def err(x):
    return mk_adt(C.res, 1, [x])


def model(*paths):
    def deco(fn):
        for p in paths:
            MODELS[p] = fn
        return fn
    return deco


def tmodel(*paths):
    def deco(fn):
        for p in paths:
            TRAIT_MODELS[p] = fn
        return fn
    return deco


def kref(v):
    return mk("ref", ("k", v), ())


def deref(en, st, v):
    """content behind any number of references"""
    v = prune(st, v)
    n = 0
    while v.op == "ref" and n < 6:
        v = en.load(st, v)
        n += 1
    if v.op == "phi" and any(a.op == "ref" for _, a in v.a[0]):
        return mkphi([(g, deref(en, st, a)) for g, a in v.a[0] if ev(st, g) is not FALSE])
    return v


def content(en, st, v, ty=None):
    """content of a &String / &Vec / &str / &[T] argument"""
    v = prune(st, v)
    if v.op == "ref":
        return content(en, st, en.load(st, v), ty)
    if v.op == "phi" and any(a.op in ("ref", "phi") or needs_cell(en, a) for _, a in v.a[0]):
        return prune(st, mkphi([(g, content(en, st, a, ty)) for g, a in v.a[0] if ev(st, g) is not FALSE]))
    if needs_cell(en, v):
        return content(en, st, en.load(st, v, (), en.F.types[TYOF[v]]["to"]))
    return v


def needs_cell(en, v):
    """a symbolic reference to a sized pointee"""
    ty = TYOF.get(v)
    if ty is None or v.op in ("int", "str", "adt"):
        return False
    t = en.F.types[ty]
    if t["k"] != "ref":
        return False
    return en.F.types[t["to"]]["k"] not in ("str", "slice", "dyn")


def snapcall(en, st, name, vals, out=None, boolean=False):
    t = mk("call", name, *[en.snap(st, v) for v in vals])
    if out is not None:
        typed(t, out)
        if en.F.types[out]["k"] == "bool":
            isbool(t)
    if boolean:
        isbool(t)
    return t


def leaf(name=None, deep=True):
    """uninterpreted pure function"""
    def fn(en, st, f, vals, ctx):
        n = name or f["path"]
        vs = [patterm(en, st, deref(en, st, v)) for v in vals]
        t = typed(mk("call", n, *[en.snap(st, v) for v in vs]), f["out"])
        if en.F.types[f["out"]]["k"] == "bool":
            isbool(t)
        return st, t
    return fn


def with_slot(st, slot, v):
    st = st.copy()
    st.mem[slot] = v
    return st


# ---------------------------------------------------------------- panics

PANICS = ("core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "core::slice::index::slice_index_fail",
          "core::str::slice_error_fail", "std::rt::begin_panic", "alloc::alloc::handle_alloc_error",
          "core::cell::panic_already", "alloc::raw_vec::capacity_overflow", "core::num::imp::int_log10::panic")

# documented panics that need more than isize::MAX bytes (or that chrono documents only for dates next
# to the limits of its year range): not counted as reachable panics (assumption recorded in DESIGN.md)
NOPANIC = ("alloc::string::String::push", "alloc::string::String::push_str", "alloc::vec::Vec::<T, A>::push",
           "alloc::vec::Vec::<T, A>::append", "alloc::vec::Vec::<T>::with_capacity",
           "alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::reserve",
           "alloc::string::String::with_capacity", "alloc::string::String::reserve",
           "chrono::datetime::DateTime::<Tz>::date_naive", "chrono::datetime::DateTime::<Tz>::naive_local",
           "chrono::naive::date::NaiveDate::format", "alloc::str::<impl str>::repeat",
           "core::iter::traits::iterator::Iterator::count", "core::iter::traits::iterator::Iterator::enumerate",
           "core::iter::traits::iterator::Iterator::position", "alloc::vec::Vec::<T, A>::insert_mut",
           "core::fmt::Formatter::<'a>::pad", "alloc::collections::btree::map::BTreeMap::<K, V, A>::append",
           "chrono::month::Months::new", "chrono::month::Months::as_u32")


def is_panic(path):
    return any(path.startswith(p) for p in PANICS)


def fallback(en, st, f, vals, ctx):
    path = f["path"]
    kind = f.get("kind")
    if is_panic(path):
        en.event("panic", path, st, vals, ctx[2])
        return None, None
    if f.get("ctor") is not None and f.get("ctor") is not False:
        return ctor(en, st, f, vals)
    if kind == "clone_shim":
        return st, deref1(en, st, vals[0])
    if f["out"] is not None and en.F.types[f["out"]]["k"] == "never":
        en.event("panic", path, st, vals, ctx[2])
        return None, None
    if (f.get("docpanic") or f.get("track")) and path not in NOPANIC:
        en.event("docpanic", path, st, [en.snap(st, v) for v in vals], ctx[2])
    st = probe_closures(en, st, f, vals, ctx)
    snaps = [patterm(en, st, en.snap(st, v)) for v in vals]
    name = path
    if f.get("args"):
        ts = [en.F.types[a]["s"] for a in f["args"] if isinstance(a, int) and not is_erased(en, a)]
        if ts:
            name = path + "<" + ",".join(ts) + ">"
    st2 = st
    for i, (v, ty) in enumerate(zip(vals, f.get("ins") or [])):
        t = en.F.types[ty]
        if t["k"] == "ref" and t.get("mut"):
            if st2 is st:
                st2 = st.copy()
            nv = mk("after", name, i, *snaps)
            typed(nv, t["to"])
            en.store_ptr(st2, v, (), nv, t["to"])
    r = mk("call", name, *snaps)
    typed(r, f["out"])
    if en.F.types[f["out"]]["k"] == "bool":
        isbool(r)
    return st2, r


def is_erased(en, a):
    t = en.F.types[a]
    return t["k"] in ("closure", "fndef")


def probe_closures(en, st, f, vals, ctx):
    """a callback handed to an unmodelled library function may run with any argument"""
    for i, v in enumerate(vals):
        if v.op == "closure":
            body = en.F.body(v.a[0])
            if body is None:
                continue
            args = []
            for j in range(2, body["argc"] + 1):
                ty = body["locals"][j]
                args.append(typed(mk("sym", ("cbarg", f["path"], i, j)), ty))
            try:
                s2, _ = en.call_value(st, v, args, ctx[1] + ("probe", i), ctx[2])
            except Unsupported:
                en.event("unknown-call", "callback of " + f["path"], st, [], ctx[2])
    return st


def ctor(en, st, f, vals):
    ty = f["out"]
    name = f["path"].rsplit("::", 1)[-1]
    for i, v in enumerate(en.F.types[ty]["v"]):
        if v["n"] == name:
            return st, mk_adt(ty, i, vals)
    return st, mk_adt(ty, 0, vals)


def deref1(en, st, v):
    v = prune(st, v)
    if v.op == "ref":
        return en.load(st, v)
    if v.op == "phi":
        return mkphi([(g, deref1(en, st, a)) for g, a in v.a[0] if ev(st, g) is not FALSE])
    if needs_cell(en, v):
        return en.load(st, v, (), en.F.types[TYOF[v]]["to"])
    return v


# ---------------------------------------------------------------- calls through the Fn traits

@tmodel("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
        "core::ops::function::Fn::call")
def fn_call(en, st, f, vals, ctx):
    return en.call_value(st, vals[0], en.untuple(st, vals[1]), ctx[1] + ("fn",), ctx[2])


# ---------------------------------------------------------------- identity-like

def ident(en, st, f, vals, ctx):
    return st, vals[0]


for p in ("core::hint::must_use", "core::convert::identity", "core::hint::black_box",
          "core::intrinsics::likely", "core::intrinsics::unlikely"):
    MODELS[p] = ident


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discriminant_value(en, st, f, vals, ctx):
    v = deref1(en, st, vals[0])
    ty = TYOF.get(v)
    return st, prune(st, discr_of(v, en.enum_discrs(ty) if ty is not None else None))


@model("core::intrinsics::cold_path", "core::hint::cold_path", "core::mem::drop", "core::mem::forget",
       "core::ptr::drop_in_place")
def unit(en, st, f, vals, ctx):
    return st, UNIT


@model("core::mem::take")
def mem_take(en, st, f, vals, ctx):
    ty = en.F.types[f["ins"][0]]["to"]
    old = deref1(en, st, vals[0])
    fn = en.F.fn_for("core::default::Default::default", ty)
    if fn is not None:
        st, d = en.call(st, fn, [], ctx[1] + ("dflt",), ctx[2])
    else:
        d = mk("call", "default<" + en.tname(ty) + ">")
    st = st.copy()
    en.store_ptr(st, vals[0], (), d, ty)
    return st, old


@model("core::mem::replace")
def mem_replace(en, st, f, vals, ctx):
    ty = f["out"]
    old = deref1(en, st, vals[0])
    st = st.copy()
    en.store_ptr(st, vals[0], (), vals[1], ty)
    return st, old


@model("core::mem::swap")
def mem_swap(en, st, f, vals, ctx):
    a, b = deref1(en, st, vals[0]), deref1(en, st, vals[1])
    st = st.copy()
    en.store_ptr(st, vals[0], (), b)
    en.store_ptr(st, vals[1], (), a)
    return st, UNIT


@model("alloc::boxed::Box::<T>::new", "alloc::boxed::box_new")
def box_new(en, st, f, vals, ctx):
    return st, vals[0]


# vec![a, b] expands to a boxed array turned into a Vec
@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec",
       "alloc::slice::hack::into_vec")
def into_vec(en, st, f, vals, ctx):
    v = deref(en, st, vals[0])
    return st, seq_norm(v)


@model("core::intrinsics::write_box_via_move", "alloc::intrinsics::write_box_via_move")
def write_box(en, st, f, vals, ctx):
    return st, vals[1]


@model("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(en, st, f, vals, ctx):
    # filled through `(*ptr).value.value = [..]`, read by box_assume_init_into_vec_unsafe
    slot = ("tmp", "heap", tuple(s for _, s in en.stack), ctx[1])
    st = st.copy()
    st.mem[slot] = mk("uninit")
    return st, mk("ref", slot, ())


@model("alloc::vec::from_elem")
def from_elem(en, st, f, vals, ctx):
    n = prune(st, vals[1])
    if n.op == "int" and n.a[0] <= 64:
        return st, mk("vec", *[one(vals[0])] * n.a[0])
    return st, mk("call", "from_elem", en.snap(st, vals[0]), n)


# ---------------------------------------------------------------- Clone / Default

def is_ikal(en, ty):
    return en.F.types[ty].get("path", "").startswith(("ikal::", "ikal_witness::"))


@tmodel("core::clone::Clone::clone")
def clone(en, st, f, vals, ctx):
    ty = f.get("self_ty")
    if ty is not None and f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        if f.get("dk") != "Closure" and clone_is_identity(en, ty, ctx):
            v = deref1(en, st, vals[0])
            return st, (typed(v, ty) if v.op not in ("int", "str", "phi") else v)
        return None
    v = deref1(en, st, vals[0])
    if ty is not None and v.op not in ("int", "str", "phi"):
        typed(v, ty)
    if ty is not None and deep_ikal(en, ty):
        return clone_deep(en, st, v, ty, ctx, 0)
    return st, v


def deep_ikal(en, ty, d=0, memo={}):
    """does a library container hold values with an ikal Clone impl"""
    k = (id(en.F), ty)
    if k in memo:
        return memo[k]
    memo[k] = False
    t = en.F.types[ty]
    r = False
    if t["k"] == "adt" and not is_ikal(en, ty):
        r = any(isinstance(a, int) and (is_ikal(en, a) or deep_ikal(en, a, d + 1)) for a in t.get("args", []))
    memo[k] = r
    return r


def clone_deep(en, st, v, ty, ctx, d):
    """a container clone clones every element: if the element Clone is the identity so is the container's"""
    t = en.F.types[ty]
    for a in t.get("args", []):
        if not isinstance(a, int):
            continue
        if is_ikal(en, a):
            if not clone_is_identity(en, a, ctx):
                return st, typed(mk("call", "clone", en.snap(st, v)), ty)
        elif deep_ikal(en, a):
            st, _ = clone_deep(en, st, v, a, ctx, d + 1)
    return st, v


_cid = {}


def clone_is_identity(en, ty, ctx=None):
    k = (id(en.F), ty)
    r = _cid.get(k)
    if r is not None:
        return r
    _cid[k] = True          # coinductive for recursive types
    fn = en.F.fn_for("core::clone::Clone::clone", ty)
    if fn is None or en.F.body(fn) is None:
        return True
    x = typed(mk("sym", ("clone", ty)), ty)
    saved = en.events
    try:
        s2, v = en.call_fn(E.St(), fn, [kref(x)], None, ("clone", ty))
        r = v is x or is_identity(en, x, v, ty)
    except Unsupported:
        r = False
    en.events = saved
    _cid[k] = r
    return r


def is_identity(en, x, v, ty):
    if v is x:
        return True
    if v is None:
        return False
    if v.op == "phi":
        return all(is_identity(en, x, a, ty) or (a.op == "adt" and len(a.a) == 2 and E.has_lit(
            g, mk("discr", x), en.variant_discr(a.a[0], a.a[1]))) for g, a in v.a[0])
    if v.op == "adt":
        n = len(v.a) - 2
        if n == 0:
            return not en.F.types[ty].get("enum")
        t = en.F.types[ty]
        fs = t["v"][v.a[1]]["f"]
        return all(is_identity(en, mk("vfld", x, v.a[1], i) if t.get("enum") else mk("fld", x, i), v.a[2 + i], fs[i][1])
                   for i in range(n))
    return False


def default_of(en, ty):
    t = en.F.types[ty]
    p = t.get("path", "")
    if p in ("alloc::string::String",) or t["k"] == "str":
        return S("")
    if p == "alloc::vec::Vec":
        return mk("vec")
    if p == "alloc::collections::btree::map::BTreeMap":
        return mk("mempty")
    if p == "core::option::Option":
        return none()
    if t["k"] in ("int", "uint", "bool", "char"):
        return I(0)
    if t["k"] == "float":
        return mk("float", "0")
    if t["k"] == "tuple" and not t["f"]:
        return UNIT
    if t["k"] == "tuple":
        xs = [default_of(en, x) for x in t["f"]]
        return None if any(x is None for x in xs) else typed(mk("tuple", *xs), ty)
    if t["k"] == "ref" and en.F.types[t["to"]]["k"] == "str":
        return S("")
    return None


@tmodel("core::default::Default::default")
def default(en, st, f, vals, ctx):
    d = default_of(en, f["out"])
    if d is not None:
        return st, d
    if f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        return None
    return st, typed(mk("call", "default<" + en.tname(f["out"]) + ">"), f["out"])


# ---------------------------------------------------------------- integers

@model("core::num::<impl i32>::rem_euclid", "core::num::<impl i64>::rem_euclid")
def rem_euclid(en, st, f, vals, ctx):
    a, b = prune(st, vals[0]), prune(st, vals[1])
    if not (b.op == "int" and b.a[0] > 0):
        en.event("docpanic", f["path"], st, vals, ctx[2])
    if a.op == "int" and b.op == "int" and b.a[0]:
        return st, I(a.a[0] % abs(b.a[0]))
    return st, typed(mk("bin", "RemE", a, b), f["out"])


@model("core::num::<impl i32>::div_euclid", "core::num::<impl i64>::div_euclid")
def div_euclid(en, st, f, vals, ctx):
    a, b = prune(st, vals[0]), prune(st, vals[1])
    if not (b.op == "int" and b.a[0] > 0):
        en.event("docpanic", f["path"], st, vals, ctx[2])
    if a.op == "int" and b.op == "int" and b.a[0] > 0:
        return st, I(a.a[0] // b.a[0])
    return st, typed(mk("bin", "DivE", a, b), f["out"])


def checked(op):
    def fn(en, st, f, vals, ctx):
        ty = f["ins"][0]
        r = en.binop(st, op + "WithOverflow", vals[0], vals[1], ty)
        v, o = r.a
        typed(v, ty)
        g = cond(o, 1)
        # x - 1 overflows exactly for x == 0 on unsigned types
        if op == "Sub" and o.op == "ovf" and en.F.types[ty]["k"] == "uint" and vals[1] is I(1):
            g = cond(prune(st, vals[0]), 0)
        return st, prune(st, mkphi([(g, none()), (NOT(g), some(v))]))
    return fn


for _t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
    for _o, _n in (("Add", "checked_add"), ("Sub", "checked_sub"), ("Mul", "checked_mul")):
        MODELS["core::num::<impl %s>::%s" % (_t, _n)] = checked(_o)


def saturating(op):
    def fn(en, st, f, vals, ctx):
        ty = f["ins"][0]
        r = en.binop(st, op + "WithOverflow", vals[0], vals[1], ty)
        v, o = r.a
        if o is I(0):
            return st, v
        return st, typed(mk("call", "saturating_" + op, *vals), ty)
    return fn


for _t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
    for _o, _n in (("Add", "saturating_add"), ("Sub", "saturating_sub"), ("Mul", "saturating_mul")):
        MODELS["core::num::<impl %s>::%s" % (_t, _n)] = saturating(_o)


@model("core::cmp::min", "core::cmp::Ord::min")
def cmp_min(en, st, f, vals, ctx):
    return minmax(en, st, f, vals, "min")


@model("core::cmp::max", "core::cmp::Ord::max")
def cmp_max(en, st, f, vals, ctx):
    return minmax(en, st, f, vals, "max")


TRAIT_MODELS["core::cmp::Ord::min"] = cmp_min
TRAIT_MODELS["core::cmp::Ord::max"] = cmp_max


def minmax(en, st, f, vals, which):
    a, b = prune(st, vals[0]), prune(st, vals[1])
    t = en.F.types[f["out"]]
    if t["k"] in ("int", "uint"):
        if a.op == "int" and b.op == "int":
            return st, I(min(a.a[0], b.a[0]) if which == "min" else max(a.a[0], b.a[0]))
        lt = cond(isbool(mk("bin", "Lt", a, b)), 1)      # a < b
        lt = ev(st, lt)
        if which == "min":
            return st, prune(st, mkphi([(lt, a), (NOT(lt), b)]))
        return st, prune(st, mkphi([(lt, b), (NOT(lt), a)]))
    return st, typed(mk("call", which, a, b), f["out"])


# ---------------------------------------------------------------- comparisons

def ord_term(a, b):
    if a is b:
        return I(0)
    if a.op == "int" and b.op == "int":
        return I((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))
    if a.op == "phi":
        return mkphi([(g, ord_term(x, b)) for g, x in a.a[0]])
    if b.op == "phi":
        return mkphi([(g, ord_term(a, x)) for g, x in b.a[0]])
    if b.op == "int" and a in DOMAIN:
        return mkphi([(lit(a, d), ord_term(I(d), b)) for d in DOMAIN[a]])
    if a.op == "int" and b in DOMAIN:
        return mkphi([(lit(b, d), ord_term(a, I(d))) for d in DOMAIN[b]])
    if a.id > b.id:
        return ord_rev(ord_term(b, a))
    t = mk("ord", a, b)
    DOMAIN[t] = (-1, 0, 1)
    return t


def ord_rev(o):
    if o.op == "int":
        return I(-o.a[0])
    if o.op == "phi":
        return mkphi([(g, ord_rev(x)) for g, x in o.a[0]])
    t = mk("ordrev", o)
    DOMAIN[t] = (-1, 0, 1)
    return t


def peel(en, ty):
    t = en.F.types[ty]
    while t["k"] == "ref":
        ty = t["to"]
        t = en.F.types[ty]
    return ty


def prim(en, ty):
    return en.F.types[ty]["k"] in ("int", "uint", "bool", "char")


def inline_ty(en, ty):
    """compare through the (derived or written) body"""
    if not is_ikal(en, ty):
        return False
    t = en.F.types[ty]
    if t.get("enum") and all(not v["f"] for v in t["v"]):
        return True
    return not en.opaque_cmp


def cmp_operands(en, st, f, vals):
    ty = peel(en, f["ins"][0])
    return ty, en.snap(st, deref(en, st, vals[0])), en.snap(st, deref(en, st, vals[1]))


def cmp_value(en, st, f, vals, ctx):
    """Ordering-valued comparison -> (st, term with discriminants -1,0,1) or None to inline"""
    ty, a, b = cmp_operands(en, st, f, vals)
    if en.F.types[ty]["k"] == "float":
        return st, mk("call", "fcmp", a, b)
    if inline_ty(en, ty):
        fn = en.F.fn_for("core::cmp::Ord::cmp", ty)
        if fn is not None and en.F.body(fn) is not None:
            return en.call_fn(st, fn, [kref(a), kref(b)], ctx[2], ctx[1] + ("cmp",))
    if prim(en, ty) or en.F.types[ty]["k"] == "adt" or en.F.types[ty]["k"] in ("str", "slice", "array"):
        return st, ord_term(a, b)
    return None


def ord_result(v):
    """as an Ordering value"""
    return v


@tmodel("core::cmp::Ord::cmp")
def ord_cmp(en, st, f, vals, ctx):
    ty = peel(en, f["ins"][0])
    if inline_ty(en, ty) and f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        return None
    r = cmp_value(en, st, f, vals, ctx)
    return r


def as_order(en, v):
    """-1, 0, 1 or a comparison term; None if unknown"""
    if v.op == "adt" and en.F.types[v.a[0]].get("path") == "core::cmp::Ordering":
        return I(v.a[1] - 1)
    if v.op == "phi":
        xs = [(g, as_order(en, x)) for g, x in v.a[0]]
        return None if any(x is None for _, x in xs) else mkphi(xs)
    return v if v.op in ("int", "ord", "ordrev") else None


@model("core::cmp::Ordering::reverse")
def ordering_reverse(en, st, f, vals, ctx):
    o = as_order(en, prune(st, vals[0]))
    if o is None:
        return None
    return st, ord_back(o)


def ord_back(o):
    if o.op == "phi":
        return mkphi([(g, ord_back(x)) for g, x in o.a[0]])
    return o.a[0] if o.op == "ordrev" else ord_rev(o)


@tmodel("core::cmp::PartialOrd::partial_cmp")
def ord_partial_cmp(en, st, f, vals, ctx):
    ty = peel(en, f["ins"][0])
    if inline_ty(en, ty) and f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        return None
    if en.F.types[ty]["k"] == "float":
        return None
    r = cmp_value(en, st, f, vals, ctx)
    if r is None:
        return None
    return r[0], some(r[1])


def rel(name):
    def fn(en, st, f, vals, ctx):
        ty = peel(en, f["ins"][0])
        if en.F.types[ty]["k"] == "float":
            a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
            return st, isbool(mk("fcmp", name, a, b))
        if prim(en, ty):
            a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
            return st, en.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], a, b, ty)
        r = None
        if inline_ty(en, ty):
            pc = en.F.fn_for("core::cmp::PartialOrd::partial_cmp", ty)
            if pc is not None and en.F.body(pc) is not None:
                a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
                st2, o = en.call_fn(st, pc, [kref(a), kref(b)], ctx[2], ctx[1] + ("pc",))
                if st2 is None:
                    return None, None
                r = st2, prune(st2, vfld(o, 1, 0))
        if r is None:
            r = cmp_value(en, st, f, vals, ctx)
        if r is None:
            return None
        st, o = r
        o = discr_of(o)
        form = {"lt": cond(o, -1), "ge": NOT(cond(o, -1)), "gt": cond(o, 1), "le": NOT(cond(o, 1))}[name]
        return st, bool_term(ev(st, form))
    return fn


for _n in ("lt", "le", "gt", "ge"):
    TRAIT_MODELS["core::cmp::PartialOrd::" + _n] = rel(_n)
    for _b in ("core::cmp::impls::<impl core::cmp::PartialOrd<&B> for &A>::",):
        MODELS[_b + _n] = rel(_n)


ORDEQ = ("chrono::naive::date::NaiveDate", "chrono::naive::datetime::NaiveDateTime", "chrono::naive::time::NaiveTime",
         "chrono::time_delta::TimeDelta", "chrono::datetime::DateTime")


def eq_value(en, st, ty, a, b, ctx):
    """formula for a == b on contents, or None"""
    t = en.F.types[ty]
    a, b = prune(st, a), prune(st, b)
    if t["k"] in ("int", "uint", "bool", "char"):
        return cond(isbool(mk("bin", "Eq", a, b)), 1)
    if t["k"] == "str" or t.get("path") == "alloc::string::String":
        return streq_formula(a, b)
    if t["k"] == "float":
        return cond(isbool(mk("fcmp", "Eq", *sorted((a, b), key=lambda x: x.id))), 1)
    if t.get("path") in ORDEQ:
        return cond(ord_term(en.snap(st, a), en.snap(st, b)), 0)
    if t.get("path") == "core::cmp::Ordering":
        a, b = discr_of(a), discr_of(b)
        return OR([AND([cond(a, d), cond(b, d)]) for d in (-1, 0, 1)])
    return None


def seq_of_char_eq(en, st, a, b):
    ea, eb = vec_elems(seq_norm(a)), vec_elems(seq_norm(b))
    return ea, eb


def built(x):
    """a value put together in view"""
    return x.op in ("adt", "int") or x.op == "phi" and any(built(y) for _, y in x.a[0])


_eqs = {}


eq_unsure = set()


def _implies(f, g, feasible):
    """True, False or None (not settled)"""
    if f is g:
        return True
    parts = None
    if g.op == "and":
        parts = [_implies(f, x, feasible) for x in g.a]
    elif f.op == "or":
        parts = [_implies(x, g, feasible) for x in f.a]
    if parts is not None:
        return False if False in parts else None if None in parts else True
    r = feasible(E.St(), AND([f, NOT(g)]))
    return None if r is None else not r


def eq_structural(en, ty):
    """the equality of a crate type with data holds exactly between values of the same variant with equal fields"""
    k = (id(en.F), ty)
    if k in _eqs:
        return _eqs[k]
    t = en.F.types[ty]
    fn = en.F.fn_for("core::cmp::PartialEq::eq", ty)
    if t["k"] != "adt" or fn is None or not en.F.body(fn) or all(not v["f"] for v in t["v"]):
        _eqs[k] = False
        return False
    _eqs[k] = True          # coinductive for recursive types
    n, loops = len(en.events), dict(en.loops)
    from checks.util import feasible
    try:
        a, b = (typed(mk("sym", ("eq", i, ty)), ty) for i in (1, 2))
        s, r = en.call_fn(E.St(), fn, [kref(a), kref(b)], None, ("eq", ty))
        enum = t.get("enum")
        alts = []
        for v, var in enumerate(t["v"]):
            d = en.variant_discr(ty, v)
            fs = [cond(discr_of(a), d), cond(discr_of(b), d)] if enum else []
            for i, f in enumerate(var["f"]):
                x, y = ((vfld(z, v, i, f[1]) if enum else fld(z, i, f[1])) for z in (a, b))
                g = eq_value(en, E.St(), f[1], x, y, (fn, (), None))
                if g is None:
                    h = en.F.fn_for("core::cmp::PartialEq::eq", f[1])
                    if h is None:
                        g = cond(isbool(mk("eq", *sorted((x, y), key=lambda z: z.id))), 1)
                    else:
                        _, q = en.call(E.St(), h, [kref(x), kref(y)], ("eqf", ty, v, i), None)
                        g = cond(q, 1)
                fs.append(g)
            alts.append(AND(fs))
        want, got = OR(alts), cond(r, 1)
        a, b = _implies(want, got, feasible), _implies(got, want, feasible)
        ok = s is not None and len(en.events) == n and a is True and b is True
        if not ok and s is not None and (a is None or b is None) and a is not False and b is not False:
            eq_unsure.add(k)
    except Unsupported:
        ok = False
    finally:
        del en.events[n:]
        en.loops.clear()
        en.loops.update(loops)
    _eqs[k] = ok
    return ok


@tmodel("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def peq(en, st, f, vals, ctx):
    neg = (f.get("trait") or "").endswith("::ne")
    ta, tb = peel(en, f["ins"][0]), peel(en, f["ins"][1])
    t = en.F.types[ta]
    u = en.F.types[tb]
    strish = ("alloc::string::String", "alloc::borrow::Cow")
    if (t["k"] == "str" or t.get("path") in strish) and (u["k"] == "str" or u.get("path") in strish):
        a, b = content(en, st, vals[0]), content(en, st, vals[1])
        fm = streq_formula(prune(st, a), prune(st, b))
    elif f.get("body") and f["krate"] in ("ikal", "ikal_witness") and not neg:
        a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
        a, b = prune(st, en.snap(st, a)), prune(st, en.snap(st, b))
        if f["krate"] != "ikal" or built(a) or built(b) or ta != tb or not eq_structural(en, ta):
            return None
        fm = TRUE if a is b else cond(isbool(mk("eq", *sorted((a, b), key=lambda x: x.id))), 1)
    elif t.get("path") == "core::option::Option" and f.get("body") and not neg:
        return None
    else:
        a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
        a, b = en.snap(st, a), en.snap(st, b)
        fm = eq_value(en, st, ta, a, b, ctx)
        if fm is None:
            fn = en.F.fn_for("core::cmp::PartialEq::eq", ta)
            if fn is not None and en.F.body(fn) and (
                    neg and en.F.fns[fn]["krate"] == "core" or
                    en.F.fns[fn]["krate"] == "ikal" and (neg or built(prune(st, a)) or built(prune(st, b)) or not eq_structural(en, ta))):
                st, r = en.call(st, fn, [kref(a), kref(b)], ctx[1] + ("eq",), ctx[2])
                fm = cond(r, 1)
            elif a is b:
                fm = TRUE
            else:
                ea, eb = vec_elems(seq_norm(a)), vec_elems(seq_norm(b))
                if ea is not None and eb is not None and len(ea) != len(eb):
                    fm = FALSE
                else:
                    fm = cond(isbool(mk("eq", *sorted((a, b), key=lambda x: x.id))), 1)
    if neg:
        fm = NOT(fm)
    return st, bool_term(ev(st, fm))


# ---------------------------------------------------------------- strings

def patterm(en, st, v):
    """canonical text pattern: chars become one-letter strings, predicates character sets"""
    return v


def pattern(en, st, v, ty, ctx):
    v = prune(st, v)
    t = en.F.types[ty]
    if t["k"] == "char":
        if v.op == "int":
            return S(chr(v.a[0]))
        return mk("chr", v)
    if t["k"] in ("closure", "fndef", "fnptr"):
        return charset(en, st, v, ctx)
    if t["k"] == "array" or (t["k"] == "ref" and en.F.types[t["to"]]["k"] in ("array", "slice")):
        es = vec_elems(seq_norm(deref(en, st, v)))
        if es is not None and all(e.op == "int" for e in es):
            return ranges_to_set({e.a[0] for e in es})
    return content(en, st, v)


REPS = [0x80, 0xA0, 0xE9, 0x2028, 0x3000, 0x4E2D, 0xFEFF, 0x1F600]


UNICODE = {"alphabetic": lambda c: int(chr(c).isalpha()), "n": lambda c: int(unicodedata.category(chr(c))[0] == "N"),
           "white_space": lambda c: int(chr(c).isspace() and not 28 <= c <= 31), "lowercase": lambda c: int(chr(c).islower()),
           "uppercase": lambda c: int(chr(c).isupper())}


def ranges_to_set(cs):
    return mk("cset", tuple(sorted(cs)))


def charset(en, st, f, ctx):
    """the set of characters a predicate accepts, over the partition {ASCII singletons, samples of the
    non-ASCII classes}; `pred(...)` when the predicate is not a function of the character alone"""
    ch = typed(mk("sym", "ch"), C.char)
    fnv = prune(st, f)
    try:
        s2, r = en.call_value(st, fnv, [ch], ctx[1] + ("cset",), ctx[2])
    except Unsupported as e:
        return mk("pred", en.snap(st, fnv))
    if s2 is None:
        return mk("pred", en.snap(st, fnv))
    out = set()
    r = E.restrict(s2, r)
    classes = {t: t.a[0].split("::")[-2] for t in subterms(r) if t.op == "call" and t.a[0].startswith("core::unicode::unicode_data::") and t.a[1:] == (ch,)}
    for c in list(range(128)) + REPS:
        known = {t: I(UNICODE[k](c)) for t, k in classes.items() if k in UNICODE}
        v = subst(subst(r, known) if known else r, {ch: I(c)})
        if v.op != "int":
            x = cond(v, 1)
            if x is TRUE:
                v = I(1)
            elif x is FALSE:
                v = I(0)
            else:
                return mk("pred", r)
        if v.a[0]:
            out.add(c)
    return ranges_to_set(out)


def slen_ty(en, t):
    return typed(t, C.usize)


def str_len(s):
    if s.op == "str":
        return I(len(s.a[0].encode()))
    if s.op == "phi":
        return mkphi([(g, str_len(x)) for g, x in s.a[0]])
    return typed(mk("slen", s), C.usize)


STR = "core::str::<impl str>::"
ASTR = "alloc::str::<impl str>::"
STRING = "alloc::string::String::"


@model(STRING + "new")
def string_new(en, st, f, vals, ctx):
    return st, S("")


@model(STRING + "with_capacity")
def string_cap(en, st, f, vals, ctx):
    return st, S("")


@model(STRING + "as_str", STRING + "into_boxed_str", STRING + "as_mut_str", STRING + "into_string",
       STR + "into_string", ASTR + "into_string", STRING + "as_ref", ASTR + "to_owned", ASTR + "into_boxed_str",
       "alloc::borrow::Cow::<'_, B>::into_owned")
def string_content(en, st, f, vals, ctx):
    return st, content(en, st, vals[0])


@model(STRING + "len", STR + "len")
def string_len(en, st, f, vals, ctx):
    return st, str_len(content(en, st, vals[0]))


@model(STRING + "is_empty", STR + "is_empty")
def string_is_empty(en, st, f, vals, ctx):
    return st, bool_term(ev(st, cond(content(en, st, vals[0]), "")))


@model(STRING + "clear")
def string_clear(en, st, f, vals, ctx):
    st = st.copy()
    en.store_ptr(st, vals[0], (), S(""))
    return st, UNIT


@model(STRING + "reserve", STRING + "shrink_to_fit", "alloc::vec::Vec::<T, A>::reserve",
       "alloc::vec::Vec::<T, A>::shrink_to_fit")
def noop(en, st, f, vals, ctx):
    return st, UNIT


def append_str(en, st, ptr, s):
    st = st.copy()
    old = content(en, st, ptr)
    en.store_ptr(st, ptr, (), cat([old, s]) if old.op != "phi" and s.op != "phi" else cat([old, s]))
    return st


@model(STRING + "push_str")
def push_str(en, st, f, vals, ctx):
    return append_str(en, st, vals[0], content(en, st, vals[1])), UNIT


def chr_str(c):
    if c.op == "int":
        return S(chr(c.a[0]))
    if c.op == "phi":
        return mkphi([(g, chr_str(x)) for g, x in c.a[0]])
    return mk("chr", c)


@model(STRING + "push")
def push_char(en, st, f, vals, ctx):
    return append_str(en, st, vals[0], chr_str(prune(st, vals[1]))), UNIT


@model(STRING + "insert_str")
def insert_str(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    if prune(st, vals[1]) is I(0):
        st = st.copy()
        en.store_ptr(st, vals[0], (), cat([content(en, st, vals[2]), s]))
        return st, UNIT
    return None


@model(STRING + "insert")
def insert_ch(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    if prune(st, vals[1]) is I(0):
        st = st.copy()
        en.store_ptr(st, vals[0], (), cat([chr_str(prune(st, vals[2])), s]))
        return st, UNIT
    return None


def str_pop(st, s):
    """(removed-last string, last char)"""
    s = prune(st, s)
    if s.op == "str":
        return (S(s.a[0][:-1]), I(ord(s.a[0][-1]))) if s.a[0] else (s, None)
    if s.op == "phi":
        alts = [(g, str_pop(st, x)) for g, x in s.a[0] if ev(st, g) is not FALSE]
        return mkphi([(g, a) for g, (a, _) in alts]), mk("popped", s)
    parts = list(E.parts_of(s))
    last = parts[-1]
    if last.op == "str":
        c = last.a[0][-1]
        return cat(parts[:-1] + [S(last.a[0][:-1])]), I(ord(c))
    if last.op == "rep":
        lid, seq, body = last.a
        bp = E.parts_of(body)
        if bp and bp[-1].op == "str":
            sep = bp[-1].a[0][-1]
            inner = cat(list(bp[:-1]) + [S(bp[-1].a[0][:-1])])
            emp = seq_empty(seq)
            pre, _ = (cat(parts[:-1]), None)
            j = mk("join", lid, seq, inner, S(sep))
            if emp is FALSE:
                return cat(parts[:-1] + [j]), I(ord(sep))
            if len(parts) == 1:
                return j, I(ord(sep))
            p2, _ = str_pop(st, pre)
            return mkphi([(emp, p2), (NOT(emp), cat(parts[:-1] + [j]))]), None
    if last.op == "phi":
        # distribute over the alternatives of the last part
        alts = []
        for g, x in last.a[0]:
            if ev(st, g) is FALSE:
                continue
            alts.append((g, str_pop(st, cat(parts[:-1] + [x]))[0]))
        return mkphi(alts), None
    return mk("pop", s), None


@model(STRING + "pop")
def string_pop(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    r, c = str_pop(st, s)
    st = st.copy()
    en.store_ptr(st, vals[0], (), r)
    e = ev(st, cond(s, ""))
    if c is None:
        c = typed(mk("lastchar", s), C.char)
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(c))]))


@model(STRING + "truncate")
def string_truncate(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    n = prune(st, vals[1])
    # s.truncate(s.len() - 1) after a one-byte ASCII suffix
    if n.op == "bin" and n.a[0] == "Sub" and n.a[1] is str_len(s) and n.a[2].op == "int":
        r = s
        k = n.a[2].a[0]
        okk = True
        for _ in range(k):
            r, c = str_pop(st, r)
            okk = okk and r.op != "pop"
        if okk:
            st = st.copy()
            en.store_ptr(st, vals[0], (), r)
            return st, UNIT
    en.event("docpanic", f["path"], st, [s, n], ctx[2])
    st = st.copy()
    en.store_ptr(st, vals[0], (), sub(s, I(0), n))
    return st, UNIT


def sub(s, a, b):
    if s.op == "str" and a.op == "int" and (b is None or b.op == "int"):
        x = s.a[0].encode()
        try:
            return S(x[a.a[0]: None if b is None else b.a[0]].decode())
        except UnicodeDecodeError:
            pass
    if a is I(0) and b is None:
        return s
    # s[x..][y..] = s[x+y..]
    if a.op == "int" and s.op == "cat" and s.a[0].op == "str":
        h = s.a[0].a[0].encode()
        if b is None and a.a[0] <= len(h):
            try:
                return cat([S(h[a.a[0]:].decode())] + list(s.a[1:]))
            except UnicodeDecodeError:
                pass
    if b is None:
        return mk("sub", s, a)
    return mk("sub", s, a, b)


def subseq(v, frm, to, fromend):
    v = seq_norm(v)
    if v.op == "vec":
        n = len(v.a)
        hi = n - to if fromend else to
        if all(p.op == "one" for p in v.a[:max(frm, 0)]):
            if not fromend and all(p.op == "one" for p in v.a[:hi]) and n >= hi:
                return vcat_norm(v.a[frm:hi])
            if fromend and to == 0:
                return vcat_norm(v.a[frm:])
            if fromend and all(p.op == "one" for p in v.a):
                return vcat_norm(v.a[frm:hi])
    if fromend and to == 0:
        for _ in range(frm):
            v = seq_tail(v)
        return v
    return mk("subseq", v, frm, to, fromend)


@model(STR + "split_at")
def split_at(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    i = prune(st, vals[1])
    if not boundary_ok(en, st, s, i):
        en.event("docpanic", f["path"], st, [s, i], ctx[2])
    return st, mk("tuple", sub(s, I(0), i), sub(s, i, None))


@model(STR + "split_at_checked")
def split_at_checked(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    i = prune(st, vals[1])
    b = isbool(mk("call", "is_char_boundary", s, i))
    g = cond(b, 1)
    return st, prune(st, mkphi([(g, some(mk("tuple", sub(s, I(0), i), sub(s, i, None)))), (NOT(g), none())]))


def boundary_ok(en, st, s, i):
    i = prune(st, i)
    if i is I(0):
        return True
    if i is str_len(s):
        return True
    if i.op == "phi":
        res = []
        for g, x in i.a[0]:
            s2 = assume(st, g)
            if s2 is None:
                continue
            res.append(boundary_ok(en, s2, s, x))
        return all(res)
    t = mk("call", "is_char_boundary", s, i)
    if ev(st, cond(isbool(t), 1)) is TRUE:
        return True
    if i.op == "int" and s.op == "str":
        b = s.a[0].encode()
        return i.a[0] <= len(b) and (i.a[0] == len(b) or (b[i.a[0]] & 0xC0) != 0x80)
    if i.op == "int":
        # known ASCII prefix of that length
        k = i.a[0]
        for t, (kk, v) in st.facts.items():
            if kk == "=" and v == 1 and t.op == "call" and t.a[0] == "starts_with" and t.a[1] is s and t.a[2].op == "str":
                b = t.a[2].a[0].encode()
                if k <= len(b) and all(c < 128 for c in b):
                    return True
        if s.op == "cat" and s.a[0].op == "str":
            b = s.a[0].a[0].encode()
            if k <= len(b) and all(c < 128 for c in b):
                return True
    # offsets handed out by str::find / char_indices for the same string
    if i.op == "vfld" and i.a[0].op == "call" and i.a[0].a[0] in ("str.find", "str.rfind") and i.a[0].a[1] is s:
        return True
    if i.op == "bin" and i.a[0] == "Add":
        for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
            if y.op == "int" and x.op == "vfld" and x.a[0].op == "call" and x.a[0].a[0] in ("str.find", "str.rfind") and \
                    x.a[0].a[1] is s and x.a[0].a[2].op == "str" and len(x.a[0].a[2].a[0].encode()) == y.a[0]:
                return True
    return False


@model(STR + "is_char_boundary")
def is_char_boundary(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    i = prune(st, vals[1])
    if i is I(0) or i is str_len(s):
        return st, I(1)
    return st, isbool(mk("call", "is_char_boundary", s, i))


@model(STR + "floor_char_boundary")
def floor_char_boundary(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    i = prune(st, vals[1])
    t = typed(mk("call", "floor_char_boundary", s, i), C.usize)
    st = assume(st, cond(isbool(mk("call", "is_char_boundary", s, t)), 1)) or st
    return st, t


def starts_formula(st, s, p):
    s = prune(st, s)
    if p.op == "str":
        if p.a[0] == "":
            return TRUE
        if s.op == "str":
            return TRUE if s.a[0].startswith(p.a[0]) else FALSE
        if s.op == "phi":
            return OR([AND([g, starts_formula(st, x, p)]) for g, x in s.a[0]])
        if s.op == "cat" and s.a[0].op == "str":
            h = s.a[0].a[0]
            if h.startswith(p.a[0]):
                return TRUE
            if not p.a[0].startswith(h):
                return FALSE
        # a known full content
        f = st.facts.get(s)
        if f is not None and f[0] == "=" and isinstance(f[1], str):
            return TRUE if f[1].startswith(p.a[0]) else FALSE
    t = isbool(mk("call", "starts_with", s, p))
    return cond(t, 1)


@model(STR + "starts_with")
def starts_with(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    return st, bool_term(ev(st, starts_formula(st, s, p)))


@model(STR + "ends_with")
def ends_with(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    s = prune(st, s)
    if s.op == "str" and p.op == "str":
        return st, I(int(s.a[0].endswith(p.a[0])))
    return st, isbool(mk("call", "ends_with", s, p))


@model(STR + "contains")
def str_contains(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    if s.op == "str" and p.op == "str":
        return st, I(int(p.a[0] in s.a[0]))
    return st, isbool(mk("call", "contains", s, p))


@model(STR + "strip_prefix")
def strip_prefix(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    g = ev(st, starts_formula(st, s, p))
    r = strip(s, p)
    return st, prune(st, mkphi([(g, some(r)), (NOT(g), none())]))


@model(STR + "strip_suffix")
def strip_suffix(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    g = cond(isbool(mk("call", "ends_with", s, p)), 1)
    return st, prune(st, mkphi([(g, some(mk("call", "strip_suffix", s, p))), (NOT(g), none())]))


def strip(s, p):
    if p.op == "str":
        if p.a[0] == "":
            return s
        if s.op == "str" and s.a[0].startswith(p.a[0]):
            return S(s.a[0][len(p.a[0]):])
        if s.op == "cat" and s.a[0].op == "str" and s.a[0].a[0].startswith(p.a[0]):
            return cat([S(s.a[0].a[0][len(p.a[0]):])] + list(s.a[1:]))
    return mk("strip", s, p)


def strfn(name):
    def fn(en, st, f, vals, ctx):
        s = content(en, st, vals[0])
        rest = []
        for v, ty in zip(vals[1:], f["ins"][1:]):
            rest.append(pattern(en, st, v, ty, ctx))
        k = const_fn(name, s, rest)
        if k is not None:
            return st, k
        return st, typed(mk("call", name, s, *rest), f["out"])
    return fn


def const_fn(name, s, rest):
    """the result of a text function on a known text"""
    if s.op != "str" or not all(x.op in ("str", "int") for x in rest):
        return None
    s = s.a[0]
    if name in ("to_ascii_uppercase", "to_ascii_lowercase"):
        return S("".join(c if ord(c) > 127 else c.upper() if name.endswith("uppercase") else c.lower() for c in s))
    if name in ("trim", "trim_start", "trim_end") and not rest:
        ws = " \t\n\x0b\x0c\r"
        if any(ord(c) > 127 for c in s):
            return None
        return S({"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[name](ws))
    if name in ("trim_start_matches", "trim_end_matches", "trim_matches") and len(rest) == 1:
        p = rest[0].a[0] if rest[0].op == "str" else chr(rest[0].a[0])
        if not p:
            return None
        while name != "trim_end_matches" and s.startswith(p):
            s = s[len(p):]
        while name != "trim_start_matches" and s.endswith(p):
            s = s[:-len(p)]
        return S(s)
    return None


for _n in ("trim", "trim_start", "trim_end", "trim_end_matches", "trim_start_matches", "trim_matches", "trim_left",
           "trim_right", "to_ascii_uppercase", "to_ascii_lowercase"):
    MODELS[STR + _n] = strfn(_n)
    MODELS[ASTR + _n] = strfn(_n)
for _n in ("find", "rfind", "split_once", "rsplit_once"):
    MODELS[STR + _n] = strfn("str." + _n)


@model(STR + "eq_ignore_ascii_case")
def eq_ic(en, st, f, vals, ctx):
    a, b = content(en, st, vals[0]), content(en, st, vals[1])
    if a is b:
        return st, I(1)
    if a.op == "str" and b.op == "str":
        return st, I(int(a.a[0].lower() == b.a[0].lower()))
    return st, isbool(mk("call", "eq_ignore_case", a, b))


@model(ASTR + "to_uppercase")
def to_upper(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    return st, upper(s)


def upper(s):
    if s.op == "str":
        return S(s.a[0].upper())
    if s.op == "phi":
        return mkphi([(g, upper(x)) for g, x in s.a[0]])
    if s.op == "cat":
        return cat([upper(p) for p in s.a])
    return mk("upper", s)


@model(ASTR + "to_lowercase")
def to_lower(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    if s.op == "str":
        return st, S(s.a[0].lower())
    return st, mk("lower", s)


@model(ASTR + "replace")
def str_replace(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    r = content(en, st, vals[2])
    return st, E.text_replace(s, p, r)


@model(ASTR + "repeat")
def str_repeat(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    n = prune(st, vals[1])
    if s.op == "str" and n.op == "int" and n.a[0] < 1000:
        return st, S(s.a[0] * n.a[0])
    return st, mk("call", "repeat", s, n)


@model(STR + "chars")
def str_chars(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    if s.op == "str":
        return st, mk("it", mkvec([I(ord(c)) for c in s.a[0]]), "val")
    return st, mk("it", mk("chars", s), "val")


@model(STR + "char_indices")
def str_char_indices(en, st, f, vals, ctx):
    return st, mk("it", mk("char_indices", content(en, st, vals[0])), "val")


@model(STR + "bytes")
def str_bytes(en, st, f, vals, ctx):
    return st, mk("it", mk("bytes_of", content(en, st, vals[0])), "val")


@model(STR + "as_bytes", STRING + "as_bytes", STRING + "into_bytes")
def as_bytes(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    if s.op == "str":
        return st, mkvec([I(b) for b in s.a[0].encode()])
    return st, mk("bytes_of", s)


@model(STR + "lines")
def str_lines(en, st, f, vals, ctx):
    return st, mk("it", mk("lines", content(en, st, vals[0])), "val")


@model(STR + "split")
def str_split(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    p = pattern(en, st, vals[1], f["ins"][1], ctx)
    if s.op == "str" and p.op == "str" and p.a[0]:
        return st, mk("it", mkvec([S(x) for x in s.a[0].split(p.a[0])]), "val")
    return st, mk("it", mk("split", s, p), "val")


@model(STR + "splitn")
def str_splitn(en, st, f, vals, ctx):
    s = content(en, st, vals[0])
    n = prune(st, vals[1])
    p = pattern(en, st, vals[2], f["ins"][2], ctx)
    if n.op == "int" and n.a[0] == 0:
        return st, mk("it", mk("vec"), "val")
    return st, mk("it", mk("splitn", n, s, p), "val")


for _n in ("split_inclusive", "rsplit", "rsplitn", "split_terminator", "split_whitespace", "matches", "match_indices",
           "split_ascii_whitespace"):
    def _mk(n):
        def fn(en, st, f, vals, ctx):
            s = content(en, st, vals[0])
            rest = [pattern(en, st, v, ty, ctx) for v, ty in zip(vals[1:], f["ins"][1:])]
            return st, mk("it", mk("call", "str." + n, s, *rest), "val")
        return fn
    MODELS[STR + _n] = _mk(_n)


@model("core::str::<impl str>::parse", "core::str::traits::FromStr::from_str")
def str_parse(en, st, f, vals, ctx):
    res = en.F.types[f["out"]]
    s = content(en, st, vals[0])
    T_ = f["args"][0] if f["path"].endswith("parse") else (f.get("self_ty") if f.get("self_ty") is not None else res["args"][0])
    return parse_as(en, st, T_, s, f["out"], ctx)


def parse_as(en, st, T_, s, out, ctx):
    t = en.F.types[T_]
    fn = en.F.fn_for("core::str::traits::FromStr::from_str", T_)
    if fn is not None and is_ikal(en, T_) and en.F.body(fn):
        return en.call(st, fn, [s], ctx[1] + ("parse",), ctx[2])
    if t.get("path") == "alloc::string::String":
        return st, ok(s)
    return st, typed(mk("call", "parse<" + en.tname(T_) + ">", s), out)


@tmodel("core::str::traits::FromStr::from_str")
def from_str_trait(en, st, f, vals, ctx):
    if f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        return None
    return str_parse(en, st, f, vals, ctx)


# conversions between text types
def conv(en, st, f, vals, ctx):
    """From/Into/AsRef/ToOwned/Borrow between text and sequence types are content-preserving"""
    out = en.F.types[f["out"]]
    o = out
    if out["k"] == "ref":
        o = en.F.types[out["to"]]
    inn = en.F.types[peel(en, f["ins"][0])]
    if o["k"] == "str" or o.get("path") in ("alloc::string::String",) or (
            o.get("path") in ("alloc::boxed::Box", "alloc::borrow::Cow") and
            en.F.types[o["args"][0]]["k"] == "str" if o.get("args") and isinstance(o["args"][0], int) else False):
        if inn["k"] == "str" or inn.get("path") in ("alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box"):
            c = content(en, st, vals[0])
            if out["k"] == "ref" and o["k"] != "str":
                return st, kref(c)
            return st, c
        if inn["k"] == "char":
            return st, chr_str(prune(st, vals[0]))
    if o["k"] in ("slice",) or o.get("path") == "alloc::vec::Vec":
        if inn["k"] in ("slice", "array") or inn.get("path") in ("alloc::vec::Vec",):
            if out["k"] == "ref" and out.get("mut"):
                return st, vals[0]
            c = seq_norm(content(en, st, vals[0]))
            if out["k"] == "ref" and o["k"] != "slice":
                return st, kref(c)
            return st, c
    if out["k"] in ("int", "uint") and inn["k"] in ("int", "uint", "bool", "char") and f["path"].find("::from") > 0:
        return st, en.int_cast(st, vals[0], out["s"], inn["s"])
    return None


for _p in ("core::convert::From::from", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
           "alloc::borrow::ToOwned::to_owned", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
           "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut"):
    TRAIT_MODELS[_p] = lambda en, st, f, vals, ctx: None if (
        f["krate"] in ("ikal", "ikal_witness")) else conv(en, st, f, vals, ctx)


@tmodel("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string")
def to_string(en, st, f, vals, ctx):
    ty = f["self_ty"]
    return display(en, st, ty, vals[0], DEFSPEC, ctx)


# ---------------------------------------------------------------- formatting

DEFSPEC = mk("spec", 0, -1, -1)


def mkspec(flags, width, prec):
    if flags == 0xE0000020 or flags == 0:
        flags = 0
    return mk("spec", flags, width, prec)


GOODFMT = set("YCyqmbBhdeaAwuUWGgVjDxFvHkIlPpMSfRTXrcsZz+tn%")


def chrono_fmt_ok(x):
    """is x a chrono DelayedFormat built from a constant, valid format string"""
    if x.op == "phi":
        return all(chrono_fmt_ok(a) for _, a in x.a[0])
    if x.op == "call" and x.a[0].startswith("chrono::") and "::format" in x.a[0] and x.a[-1].op == "str":
        s = x.a[-1].a[0]
        i = 0
        while i < len(s):
            if s[i] == "%":
                i += 1
                if i < len(s) and s[i] in "-_0":
                    i += 1
                if i >= len(s) or s[i] not in GOODFMT:
                    return False
            i += 1
        # a bare NaiveDate has no time of day, a naive value no offset
        naive_date = "NaiveDate::" in x.a[0] or "naive::date::" in x.a[0]
        used = {s[k + 1] for k in range(len(s) - 1) if s[k] == "%"}
        if naive_date and used & set("HkIlPpMSfRTXrcsZz+"):
            return False
        if ("naive" in x.a[0]) and used & set("Zz+"):
            return False
        return True
    return False


def display(en, st, ty, v, spec, ctx):
    """text of a value through its Display impl -> (st, string term)"""
    t = en.F.types[ty]
    v = prune(st, v)
    if t["k"] == "ref" or t.get("path") == "alloc::boxed::Box":
        to = t["to"] if t["k"] == "ref" else t["args"][0]
        inner = deref1(en, st, v)
        it = en.F.types[to]
        if it["k"] in ("ref",):
            return display(en, st, to, inner, spec, ctx)
        return display(en, st, to, inner, spec, ctx)
    if t["k"] == "str" or t.get("path") in ("alloc::string::String", "alloc::borrow::Cow"):
        c = content(en, st, v)
        if spec.a[1] >= 0 or spec.a[2] >= 0:
            return st, mk("pad", c, spec)
        return st, c
    if v.op == "ref":
        inner = en.load(st, v)
        return display(en, st, ty, inner, spec, ctx)
    if needs_cell(en, v) and en.F.types[TYOF[v]]["to"] == ty:
        return display(en, st, ty, en.load(st, v, (), ty), spec, ctx)
    if t["k"] == "char":
        return st, chr_str(v)
    if t["k"] in ("int", "uint"):
        if v.op == "int" and spec is DEFSPEC:
            return st, S(str(v.a[0]))
        return st, dec(v, spec)
    if t["k"] == "bool":
        return st, mkphi([(cond(v, 1), S("true")), (cond(v, 0), S("false"))])
    if t["k"] == "float":
        return st, mk("disp", t["s"], v, spec)
    fn = en.F.fn_for("core::fmt::Display::fmt", ty)
    if fn is not None and is_ikal(en, ty) and en.F.body(fn):
        slot = ("tmp", "fmtr", tuple(s for _, s in en.stack), ctx[1])
        st = with_slot(st, slot, mk("fmtr", S(""), spec))
        s2, r = en.call_fn(st, fn, [kref(v), mk("ref", slot, ())], ctx[2], ctx[1] + ("disp",))
        if s2 is None:
            return None, None
        out = en.get(s2, slot)
        s2 = s2.copy()
        s2.mem.pop(slot, None)
        # to_string()/format! panic when the Display impl itself reports an error
        if ev(s2, cond(discr_of(r), 0)) is not TRUE:
            en.event("fmt-error", en.tname(ty), s2, [r], ctx[2])
        return s2, fmtr_buf(out)
    x = en.snap(st, v)
    if "DelayedFormat" in t["s"] and not chrono_fmt_ok(x):
        en.event("fmt-error", "DelayedFormat", st, [x], ctx[2])
    return st, mk("disp", tycanon(t), x, spec)


def tycanon(t):
    return t.get("path") or t["s"]


def dec(v, spec):
    if v.op == "phi" and len(v.a[0]) <= 6:
        return mkphi([(g, S(str(x.a[0])) if x.op == "int" and spec is DEFSPEC else dec(x, spec)) for g, x in v.a[0]])
    while v.op == "cast" and v.a[0] == "IntToInt":
        v = v.a[1]
    return mk("dec", v, spec)


def fmtr_buf(v):
    if v.op == "fmtr":
        return v.a[0]
    if v.op == "phi":
        return mkphi([(g, fmtr_buf(x)) for g, x in v.a[0]])
    return mk("call", "fmtbuf", v)


def debug(en, st, ty, v):
    return st, mk("dbg", en.snap(st, deref(en, st, v)))


FMTARG = "core::fmt::rt::Argument::<'_>::"


def new_arg(kind):
    def fn(en, st, f, vals, ctx):
        ty = f["args"][0]
        return st, mk("fmtarg", kind, ty, vals[0])
    return fn


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer"):
    MODELS[FMTARG + "new_" + _k] = new_arg(_k)


@model(FMTARG + "from_usize")
def fmt_usize(en, st, f, vals, ctx):
    return st, mk("fmtarg", "usize", 0, deref1(en, st, vals[0]))


@model("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::new")
def args_new(en, st, f, vals, ctx):
    t = deref(en, st, vals[0])
    a = deref(en, st, vals[1])
    return st, mk("fmtargs", t, a)


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const",
       "core::fmt::Arguments::<'a>::from_str_nonconst")
def args_str(en, st, f, vals, ctx):
    return st, mk("fmtargs", content(en, st, vals[0]), mk("array"))


def bytes_of(t):
    if t.op == "bytes":
        x = t.a[0]
        return list(x) if not isinstance(x, (bytes, str)) else list(x)
    if t.op == "array":
        return [x.a[0] for x in t.a]
    if t.op == "vec":
        return [x.a[0].a[0] for x in t.a]
    raise Unsupported("format template " + t.op)


def render(en, st, fa, ctx):
    """text of fmt::Arguments"""
    fa = prune(st, fa)
    if fa.op != "fmtargs":
        return st, mk("call", "fmt", fa)
    tpl, args = fa.a
    if tpl.op in ("str", "cat"):
        return st, tpl
    b = bytes_of(tpl)
    av = list(seq_norm(args).a)
    av = [x.a[0] if x.op == "one" else x for x in av]
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(S(bytes(b[i:i + c]).decode()))
            i += c
            continue
        if c == 0x80:
            n = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(S(bytes(b[i:i + n]).decode()))
            i += n
            continue
        flags, width, prec = 0, -1, -1
        idx = nxt
        if c & 1:
            flags = int.from_bytes(bytes(b[i:i + 4]), "little")
            i += 4
        if c & 2:
            width = int.from_bytes(bytes(b[i:i + 2]), "little")
            i += 2
        if c & 4:
            prec = int.from_bytes(bytes(b[i:i + 2]), "little")
            i += 2
        if c & 8:
            idx = int.from_bytes(bytes(b[i:i + 2]), "little")
            i += 2
        if c & 1 and flags & 1 << 28 and not c & 4:
            prec = 0
        nxt = idx + 1
        if c & 0x30:
            # width / precision taken from an argument
            if c & 0x10 and av[width].op == "fmtarg" and av[width].a[2].op == "int":
                width = av[width].a[2].a[0]
            elif c & 0x10:
                width = 100000 + width
            if c & 0x20 and av[prec].op == "fmtarg" and av[prec].a[2].op == "int":
                prec = av[prec].a[2].a[0]
            elif c & 0x20:
                prec = 100000 + prec
        arg = prune(st, av[idx])
        if arg.op != "fmtarg":
            out.append(mk("call", "fmt", arg))
            continue
        kind, ty, v = arg.a
        if kind == "display":
            st, s = display(en, st, ty, v, mkspec(flags & 0x0FFFFFFF if width < 0 and prec < 0 and not flags & 0x0FFFFFDF
                                                 else flags, width, prec),
                            (ctx[0], ctx[1] + ("a", i), ctx[2]))
            if st is None:
                return None, None
        else:
            s = mk("dbg" if kind == "debug" else kind, en.snap(st, deref(en, st, v)))
        out.append(s)
    return st, cat(out)


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(en, st, f, vals, ctx):
    return render(en, st, vals[0], ctx)


def fmtr_append(en, st, fp, s):
    st = st.copy()
    cur = en.load(st, fp)
    cur = prune(st, cur)
    if cur.op == "fmtr":
        en.store_ptr(st, fp, (), mk("fmtr", cat([cur.a[0], s]), cur.a[1]))
    elif cur.op == "phi":
        en.store_ptr(st, fp, (), mkphi([(g, mk("fmtr", cat([x.a[0], s]), x.a[1]) if x.op == "fmtr" else mk("fmtr", cat([mk("call", "fmtbuf", x), s]), DEFSPEC))
                                        for g, x in cur.a[0]]))
    elif cur.op in ("str", "cat", "lv", "rep", "join") or E.is_strish(cur):
        en.store_ptr(st, fp, (), cat([cur, s]))
    else:
        en.store_ptr(st, fp, (), mk("fmtr", cat([mk("call", "fmtbuf", cur), s]), DEFSPEC))
    return st


FM = "core::fmt::Formatter::<'a>::"


@model(FM + "write_str", FM + "pad", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str",
       "core::fmt::Write::write_str", "<alloc::string::String as core::fmt::Write>::write_str")
def write_str(en, st, f, vals, ctx):
    s = content(en, st, vals[1])
    return fmtr_append(en, st, vals[0], s), ok(UNIT)


TRAIT_MODELS["core::fmt::Write::write_str"] = write_str


@tmodel("core::fmt::Write::write_char")
def write_char(en, st, f, vals, ctx):
    return fmtr_append(en, st, vals[0], chr_str(prune(st, vals[1]))), ok(UNIT)


@model(FM + "write_fmt", "core::fmt::write")
def write_fmt(en, st, f, vals, ctx):
    st, s = render(en, st, vals[1], ctx)
    if st is None:
        return None, None
    return fmtr_append(en, st, vals[0], s), ok(UNIT)


TRAIT_MODELS["core::fmt::Write::write_fmt"] = write_fmt


@tmodel("core::fmt::Display::fmt")
def display_fmt(en, st, f, vals, ctx):
    if f.get("body") and f["krate"] in ("ikal", "ikal_witness"):
        return None
    ty = f["self_ty"]
    fm = prune(st, en.load(st, vals[1])) if vals[1].op == "ref" else vals[1]
    spec = fm.a[1] if fm.op == "fmtr" else DEFSPEC
    st, s = display(en, st, ty, vals[0], spec, ctx)
    if st is None:
        return None, None
    return fmtr_append(en, st, vals[1], s), ok(UNIT)


@tmodel("core::fmt::Debug::fmt")
def debug_fmt(en, st, f, vals, ctx):
    return fmtr_append(en, st, vals[1], mk("dbg", en.snap(st, deref(en, st, vals[0])))), ok(UNIT)


# ---------------------------------------------------------------- Vec and slices

VEC = "alloc::vec::Vec::<T, A>::"
SL = "core::slice::<impl [T]>::"
ASL = "alloc::slice::<impl [T]>::"


@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def vec_new(en, st, f, vals, ctx):
    return st, mk("vec")


@model(VEC + "push")
def vec_push(en, st, f, vals, ctx):
    st = st.copy()
    old = content(en, st, vals[0])
    en.store_ptr(st, vals[0], (), push_one(old, en.snap_own(st, vals[1])))
    return st, UNIT


@model(VEC + "insert")
def vec_insert(en, st, f, vals, ctx):
    old = seq_norm(content(en, st, vals[0]))
    i = prune(st, vals[1])
    if i is I(0):
        new = mk("vec", one(en.snap_own(st, vals[2])), mk("all", old)) if old.op != "vec" else mk("vec", one(en.snap_own(st, vals[2])), *old.a)
    elif i is seq_len(old):
        new = push_one(old, en.snap_own(st, vals[2]))
    else:
        return None
    st = st.copy()
    en.store_ptr(st, vals[0], (), seq_norm(new))
    return st, UNIT


def push_one(old, x):
    if old.op == "phi":
        return mkphi([(g, push_one(a, x)) for g, a in old.a[0]])
    return seq_append(old, [one(x)])


def cat_seq(a, b):
    a, b = seq_norm(a), seq_norm(b)
    if a.op == "phi":
        return mkphi([(g, cat_seq(x, b)) for g, x in a.a[0]])
    return seq_append(a, E.vparts(b) if b.op == "vec" else [mk("all", b)])


@model(VEC + "append")
def vec_append(en, st, f, vals, ctx):
    st = st.copy()
    a, b = content(en, st, vals[0]), content(en, st, vals[1])
    en.store_ptr(st, vals[0], (), cat_seq(a, b))
    en.store_ptr(st, vals[1], (), mk("vec"))
    return st, UNIT


@model(VEC + "extend_from_slice")
def vec_efs(en, st, f, vals, ctx):
    st = st.copy()
    a, b = content(en, st, vals[0]), content(en, st, vals[1])
    en.store_ptr(st, vals[0], (), cat_seq(a, b))
    return st, UNIT


@model(VEC + "pop")
def vec_pop(en, st, f, vals, ctx):
    st = st.copy()
    v = seq_norm(content(en, st, vals[0]))
    if v.op == "vec" and v.a and v.a[-1].op == "one":
        en.store_ptr(st, vals[0], (), vcat_norm(v.a[:-1]))
        return st, some(v.a[-1].a[0])
    if v.op == "vec" and not v.a:
        return st, none()
    e = ev(st, seq_empty(v))
    en.store_ptr(st, vals[0], (), mk("init", v))
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(mk("last", v)))]))


@model(VEC + "clear")
def vec_clear(en, st, f, vals, ctx):
    st = st.copy()
    en.store_ptr(st, vals[0], (), mk("vec"))
    return st, UNIT


@model(VEC + "len", SL + "len")
def vec_len(en, st, f, vals, ctx):
    v = content(en, st, vals[0])
    return st, typed(seq_len(v), C.usize)


@model(VEC + "is_empty", SL + "is_empty")
def vec_is_empty(en, st, f, vals, ctx):
    v = content(en, st, vals[0])
    return st, bool_term(ev(st, seq_empty(seq_norm(v))))


@model(VEC + "as_slice", SL + "to_vec", ASL + "to_vec", ASL + "into_vec", VEC + "into_boxed_slice")
def vec_content(en, st, f, vals, ctx):
    return st, seq_norm(content(en, st, vals[0]))


def elem_ref(en, st, v, ptr, projs=()):
    return kref(v)


@model(SL + "first")
def slice_first(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    e = ev(st, seq_empty(v))
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(kref(seq_head(v))))])) if e is not TRUE else none()


@model(SL + "last")
def slice_last(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    e = ev(st, seq_empty(v))
    if e is TRUE:
        return st, none()
    l = seq_last(v)
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(kref(l)))]))


def seq_last(v):
    v = seq_norm(v)
    if v.op == "vec" and v.a and v.a[-1].op == "one":
        return v.a[-1].a[0]
    return mk("last", v)


@model(SL + "get")
def slice_get(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    i = prune(st, vals[1])
    if en.F.types[f["ins"][1]]["k"] != "uint":
        return None
    et = en.F.types[peel(en, f["ins"][0])]
    n = seq_len(v)
    g = ev(st, cond(isbool(mk("bin", "Lt", i, n)), 1))
    x = en.seq_index(st, v, i)
    return st, prune(st, mkphi([(g, some(kref(x))), (NOT(g), none())]))


@model(SL + "split_first")
def split_first(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    e = ev(st, seq_empty(v))
    if e is TRUE:
        return st, none()
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(mk("tuple", kref(seq_head(v)), seq_tail(v))))]))


@model(SL + "split_last")
def split_last(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    e = ev(st, seq_empty(v))
    if e is TRUE:
        return st, none()
    ini = vcat_norm(v.a[:-1]) if v.op == "vec" and v.a[-1].op == "one" else mk("init", v)
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(mk("tuple", kref(seq_last(v)), ini)))]))


@model(SL + "contains")
def slice_contains(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    x = en.snap(st, deref(en, st, vals[1]))
    es = vec_elems(v)
    ty = peel(en, f["ins"][1])
    if es is not None:
        fs = [eq_value(en, st, ty, y, x, ctx) for y in es]
        if all(g is not None for g in fs):
            return st, bool_term(ev(st, OR(fs)))
    return st, exists(en, st, v, x, ty, ctx)


@model(SL + "concat", ASL + "concat")
def slice_concat(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    return st, join_seq(en, st, v, S(""))


@model(ASL + "join")
def slice_join(en, st, f, vals, ctx):
    v = seq_norm(content(en, st, vals[0]))
    sep = content(en, st, vals[1])
    out = en.F.types[f["out"]]
    if out.get("path") != "alloc::string::String":
        return None
    return st, join_seq(en, st, v, sep)


def join_seq(en, st, v, sep):
    if v.op == "phi":
        return mkphi([(g, join_seq(en, st, a, sep)) for g, a in v.a[0]])
    if v.op == "vec":
        if all(p.op == "one" for p in v.a):
            out = []
            for i, p in enumerate(v.a):
                if i:
                    out.append(sep)
                out.append(content(en, st, p.a[0]))
            return cat(out)
        if len(v.a) == 1 and v.a[0].op == "all" and v.a[0].a[0].op == "rep":
            return join_rep(en, st, v.a[0].a[0], sep)
    if v.op == "rep":
        return join_rep(en, st, v, sep)
    return mk("joinseq", v, sep)


def join_rep(en, st, r, sep):
    lid, seq, body = r.a
    if body.op == "vec" and len(body.a) == 1 and body.a[0].op == "one":
        x = content(en, st, body.a[0].a[0])
        if sep is S(""):
            return mk("rep", lid, seq, x)
        return mk("join", lid, seq, x, sep)
    return mk("joinseq", r, sep)


@tmodel("core::ops::index::Index::index")
def index(en, st, f, vals, ctx):
    if f["krate"] in ("ikal", "ikal_witness"):
        return None
    cty = peel(en, f["ins"][0])
    t = en.F.types[cty]
    it = en.F.types[f["ins"][1]]
    if t.get("path") == "alloc::collections::btree::map::BTreeMap":
        m = content(en, st, vals[0])
        k = en.snap(st, deref(en, st, vals[1]))
        r = mget(en, st, m, k)
        if ev(st, cond(discr_of(r), 1)) is not TRUE:
            en.event("panic", "BTreeMap::index", st, [m, k], ctx[2])
            s2 = assume(st, cond(discr_of(r), 1))
            if s2 is None:
                return None, None
            st = s2
        return st, prune(st, vfld(prune(st, r), 1, 0))
    if it["k"] == "uint":
        if t["k"] == "str":
            return None
        v = seq_norm(content(en, st, vals[0]))
        i = prune(st, vals[1])
        n = seq_len(v)
        okf = ev(st, cond(isbool(mk("bin", "Lt", i, n)), 1))
        if okf is not TRUE and not in_bounds(en, st, v, i):
            en.event("panic", "index out of bounds", st, [v, i], ctx[2])
        s2 = assume(st, okf)
        if s2 is None:
            return None, None
        st = s2
        p = prune(st, vals[0])
        et = en.F.types[f["out"]]["to"]
        x = en.seq_index(st, v, i, et)
        if en.F.types[et]["k"] in ("str",):
            return st, x
        return st, kref(x)
    # ranges
    if t["k"] == "str" or t.get("path") == "alloc::string::String":
        s = content(en, st, vals[0])
        lo, hi = range_bounds(en, st, vals[1], f["ins"][1])
        if hi == "incl":
            return None
        good = boundary_ok(en, st, s, lo) and (hi is None or boundary_ok(en, st, s, hi))
        if good and hi is not None and not (lo is I(0)):
            l0, l1 = en.rng_st(st, lo)
            h0, h1 = en.rng_st(st, hi)
            good = l1 is not None and h0 is not None and l1 <= h0
        if not good:
            en.event("panic", "str slice", st, [s, lo] + ([hi] if hi is not None else []), ctx[2])
        return st, sub(s, lo, hi)
    v = seq_norm(content(en, st, vals[0]))
    lo, hi = range_bounds(en, st, vals[1], f["ins"][1])
    if hi == "incl":
        return None
    n = en.min_len(st, v)
    good = (lo.op == "int" and lo.a[0] <= n) and (hi is None or (hi.op == "int" and hi.a[0] <= n))
    if hi is not None and lo is I(0) and (hi is seq_len(v)):
        good = True
    if not good:
        en.event("panic", "slice index", st, [v, lo] + ([hi] if hi is not None else []), ctx[2])
    if lo.op == "int" and hi is None:
        return st, subseq(v, lo.a[0], 0, True)
    if lo.op == "int" and hi is not None and hi.op == "int":
        return st, subseq(v, lo.a[0], hi.a[0], False)
    return st, mk("call", "slice", v, lo, *([hi] if hi is not None else []))


def in_bounds(en, st, v, i):
    i0, i1 = en.rng_st(st, i)
    if i1 is not None and i1 < en.min_len(st, v):
        return True
    return en.lt_known(st, i, seq_len(v))


def range_bounds(en, st, r, ty):
    t = en.F.types[ty]
    p = t.get("path", "")
    r = prune(st, r)
    if p.endswith("::RangeFrom"):
        return prune(st, fld(r, 0)), None
    if p.endswith("::RangeTo"):
        return I(0), prune(st, fld(r, 0))
    if p.endswith("::RangeFull"):
        return I(0), None
    if p.endswith("::Range"):
        return prune(st, fld(r, 0)), prune(st, fld(r, 1))
    return I(0), "incl"


@tmodel("core::ops::index::IndexMut::index_mut")
def index_mut(en, st, f, vals, ctx):
    it = en.F.types[f["ins"][1]]
    if it["k"] != "uint":
        return None
    v = seq_norm(content(en, st, vals[0]))
    i = prune(st, vals[1])
    okf = ev(st, cond(isbool(mk("bin", "Lt", i, seq_len(v))), 1))
    if okf is not TRUE and not in_bounds(en, st, v, i):
        en.event("panic", "index out of bounds", st, [v, i], ctx[2])
    s2 = assume(st, okf)
    if s2 is None:
        return None, None
    p = prune(s2, vals[0])
    if p.op == "ref":
        et = en.F.types[f["out"]]["to"]
        return s2, mk("ref", p.a[0], p.a[1] + (("i", i, et),))
    return s2, mk("ref", ("cell", p, None), (("i", i, None),))


@model(SL + "iter")
def slice_iter(en, st, f, vals, ctx):
    return st, mk("it", seq_norm(content(en, st, vals[0])), "ref")


@model(SL + "reverse")
def slice_reverse(en, st, f, vals, ctx):
    st = st.copy()
    v = content(en, st, vals[0])
    en.store_ptr(st, vals[0], (), mk("rev", v))
    return st, UNIT


@tmodel("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(en, st, f, vals, ctx):
    ty = f["ins"][0]
    t = en.F.types[ty]
    base = en.F.types[peel(en, ty)]
    isref = t["k"] == "ref"
    if f["krate"] in ("ikal", "ikal_witness"):
        return None
    if base.get("path") == "alloc::vec::Vec" or base["k"] in ("slice", "array"):
        if isref and t.get("mut"):
            raise Unsupported("iter_mut")
        return st, mk("it", seq_norm(content(en, st, vals[0])), "ref" if isref else "val")
    if base.get("path") == "alloc::collections::btree::map::BTreeMap":
        return st, mk("it", mk("entries", content(en, st, vals[0])), "entry" if isref else "val")
    if base.get("path") == "core::option::Option":
        return None
    # an iterator is its own IntoIterator
    return st, vals[0]


# ---------------------------------------------------------------- BTreeMap

BM = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"
BM0 = "alloc::collections::btree::map::BTreeMap::<K, V>::"


@model(BM0 + "new", BM + "new")
def map_new(en, st, f, vals, ctx):
    return st, mk("mempty")


def mget(en, st, m, k):
    """typed Option<&V> term"""
    m = prune(st, m)
    if m.op == "mempty":
        return none()
    if m.op == "minsert":
        g = ev(st, keyeq(m.a[1], k))
        if g is TRUE:
            return some(kref(m.a[2]))
        rest = mget(en, st, m.a[0], k)
        if g is FALSE:
            return rest
        return mkphi([(g, some(kref(m.a[2]))), (NOT(g), rest)])
    if m.op == "phi":
        return mkphi([(g, mget(en, st, a, k)) for g, a in m.a[0]])
    t = mk("mget", m, k)
    d = mk("discr", t)
    DOMAIN[d] = (0, 1)
    # Option<&V>: present values are references to the stored value
    return mkphi([(lit(d, 0), none()), (lit(d, 1), some(kref(mk("mval", m, k))))])


def keyeq(a, b):
    if a.op in ("str", "cat") or b.op in ("str", "cat") or True:
        return streq_formula(a, b)


@model(BM + "get")
def map_get(en, st, f, vals, ctx):
    m = content(en, st, vals[0])
    k = en.snap(st, deref(en, st, vals[1]))
    r = mget(en, st, m, k)
    type_mval(en, r, f)
    return st, prune(st, r)


def type_mval(en, r, f):
    opt = en.F.types[f["out"]]
    if not opt.get("args"):
        return
    rt = en.F.types[opt["args"][0]]
    if r.op == "phi":
        for _, a in r.a[0]:
            type_mval(en, a, f)
    elif r.op == "adt" and len(r.a) == 3 and r.a[2].op == "ref" and rt["k"] == "ref":
        v = r.a[2].a[0][1]
        if v.op == "mval":
            typed(v, rt["to"])


@model(BM + "contains_key")
def map_contains(en, st, f, vals, ctx):
    m = content(en, st, vals[0])
    k = en.snap(st, deref(en, st, vals[1]))
    return st, bool_term(ev(st, cond(discr_of(mget(en, st, m, k)), 1)))


@model(BM + "insert")
def map_insert(en, st, f, vals, ctx):
    st = st.copy()
    m = content(en, st, vals[0])
    k = en.snap_own(st, vals[1])
    v = en.snap_own(st, vals[2])
    old = mget(en, st, m, k)
    en.store_ptr(st, vals[0], (), minsert(m, k, v))
    old = mkphi([(cond(discr_of(old), 0), none()), (cond(discr_of(old), 1), some(mk("mval", m, k)))])
    return st, prune(st, old)


@model(BM + "entry")
def map_entry(en, st, f, vals, ctx):
    return st, mk("mentry", vals[0], en.snap_own(st, vals[1]))


MENTRY = "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::"


def entry_insert(how):
    def fn(en, st, f, vals, ctx):
        e = prune(st, vals[0])
        if e.op != "mentry":
            return None
        m = content(en, st, e.a[0])
        k = e.a[1]
        here = cond(discr_of(mget(en, st, m, k)), 1)
        v = None
        out = []
        s1 = assume(st, here)
        if s1 is not None:
            out.append((s1, mk("mval", m, k)))
        s2 = assume(st, NOT(here))
        if s2 is not None:
            if how == "value":
                v = en.snap_own(s2, vals[1])
            else:
                s2, v = en.call_value(s2, vals[1], [], ctx[1] + ("ent",), ctx[2])
                if s2 is not None:
                    v = en.snap_own(s2, v)
            if s2 is not None:
                s2 = s2.copy()
                en.store_ptr(s2, e.a[0], (), minsert(m, k, v))
                out.append((s2, v))
        slot = ("tmp", "mentry", tuple(s for _, s in en.stack), ctx[1])
        ss = []
        for s, x in out:
            s = s.copy()
            s.mem[slot] = x
            ss.append(s)
        s = merge(ss)
        return s, (None if s is None else mk("ref", slot, ()))
    return fn


for _n, _h in (("or_insert", "value"), ("or_insert_with", "call")):
    for _p in (MENTRY, "alloc::collections::btree::map::entry::Entry::<K, V, A>::"):
        MODELS[_p + _n] = entry_insert(_h)


def minsert(m, k, v):
    if m.op == "phi" and len(m.a[0]) <= 4:
        return mkphi([(g, minsert(x, k, v)) for g, x in m.a[0]])
    return mk("minsert", m, k, v)


@model(BM + "is_empty")
def map_is_empty(en, st, f, vals, ctx):
    return st, bool_term(ev(st, seq_empty(content(en, st, vals[0]))))


@model(BM + "len")
def map_len(en, st, f, vals, ctx):
    return st, typed(seq_len(content(en, st, vals[0])), C.usize)


@model(BM + "iter")
def map_iter(en, st, f, vals, ctx):
    return st, mk("it", mk("entries", content(en, st, vals[0])), "entry")


@model(BM + "values")
def map_values(en, st, f, vals, ctx):
    return st, mk("it", mk("entries", content(en, st, vals[0])), "values")


@model(BM + "into_values")
def map_into_values(en, st, f, vals, ctx):
    return st, mk("it", mk("entries", content(en, st, vals[0])), "ivalues")


@model(BM + "keys")
def map_keys(en, st, f, vals, ctx):
    return st, mk("it", mk("entries", content(en, st, vals[0])), "keys")


# ---------------------------------------------------------------- iterators

ITN = "core::iter::traits::iterator::Iterator::"


def item_of(mode, h):
    if mode == "ref":
        return kref(h)
    if mode == "entry":
        return mk("tuple", kref(fld(h, 0)), kref(fld(h, 1)))
    if mode == "values":
        return kref(fld(h, 1))
    if mode == "ivalues":
        return fld(h, 1)
    if mode == "keys":
        return kref(fld(h, 0))
    return h


def elem_type(en, mode, optty):
    """type of the sequence element from the Option<Item> type of next()"""
    t = en.F.types[optty]
    if t.get("path") != "core::option::Option":
        return None
    it = t["args"][0]
    if mode == "ref":
        x = en.F.types[it]
        return x["to"] if x["k"] == "ref" else None
    if mode == "val":
        return it
    return None


def it_next(en, st, ptr, optty):
    """advance a base iterator -> (st, Option<Item> term) or None"""
    v = prune(st, deref1(en, st, ptr)) if ptr.op in ("ref", "phi") else prune(st, ptr)
    if v.op == "ref":
        return it_next(en, st, v, optty)
    if v.op == "phi" and all(a.op == "it" for _, a in v.a[0]) and len({a.a[1] for _, a in v.a[0]}) == 1:
        v = mk("it", mkphi([(g, a.a[0]) for g, a in v.a[0]]), v.a[0][0][1].a[1])
    if v.op != "it":
        return None
    seq, mode = v.a
    seq = prune(st, seq_norm(seq))
    e = ev(st, seq_empty(seq))
    if e is TRUE:
        return st, none()
    h = seq_head(seq)
    et = elem_type(en, mode, optty)
    if h.op not in ("int", "str", "phi", "adt"):
        if et is not None:
            typed(h, et)
            if en.F.types[et]["k"] == "str":
                pass
    if mode in ("entry", "values", "keys", "ivalues"):
        type_entry(en, h, mode, optty)
    x = item_of(mode, h)
    st = st.copy()
    en.store_ptr(st, ptr, (), mk("it", seq_tail(seq), mode))
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(x))]))


def type_entry(en, h, mode, optty):
    t = en.F.types[optty]
    if t.get("path") != "core::option::Option":
        return
    it = en.F.types[t["args"][0]]

    def strip_ref(i):
        x = en.F.types[i]
        return x["to"] if x["k"] == "ref" else i
    if mode == "entry" and it["k"] == "tuple":
        typed(mk("fld", h, 0), strip_ref(it["f"][0]))
        typed(mk("fld", h, 1), strip_ref(it["f"][1]))
    elif mode in ("values", "ivalues"):
        typed(mk("fld", h, 1), strip_ref(t["args"][0]))
    elif mode == "keys":
        typed(mk("fld", h, 0), strip_ref(t["args"][0]))


@tmodel(ITN + "next")
def iter_next_model(en, st, f, vals, ctx):
    if f["krate"] in ("ikal", "ikal_witness"):
        return None
    r = it_next(en, st, vals[0], f["out"])
    if r is not None:
        return r
    v = deref1(en, st, vals[0])
    if v.op == "adt" and en.F.types[v.a[0]].get("path") == "core::ops::range::Range":
        return range_next(en, st, vals[0], v)
    if f.get("body") is None:
        return None
    p = f["path"]
    if any(x in p for x in ("slice::iter::", "vec::into_iter::", "str::iter::", "btree::", "array::iter")):
        # symbolic library iterator: treat as an unknown sequence
        ty = en.F.types[f["ins"][0]]["to"]
        seq = mk("seqof", en.snap(st, v))
        mode = "ref" if "slice::iter::" in p else "val"
        st = st.copy()
        en.store_ptr(st, vals[0], (), mk("it", seq, mode))
        return it_next(en, st, vals[0], f["out"])
    return None


def range_next(en, st, ptr, v):
    a, b = prune(st, v.a[2]), prune(st, v.a[3])
    g = ev(st, cond(isbool(mk("bin", "Lt", a, b)), 1))
    st = st.copy()
    if g is FALSE:
        return st, none()
    nxt = I(a.a[0] + 1) if a.op == "int" else mk("bin", "Add", a, I(1))
    if a in TYOF:
        typed(nxt, TYOF[a])
    en.store_ptr(st, ptr, (), mk_adt(v.a[0], v.a[1], [mkphi([(g, nxt), (NOT(g), a)]), b]))
    return st, prune(st, mkphi([(g, some(a)), (NOT(g), none())]))


@tmodel("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def iter_next_back(en, st, f, vals, ctx):
    ptr = vals[0]
    v = prune(st, deref1(en, st, ptr))
    if v.op != "it":
        return None
    seq, mode = v.a
    seq = prune(st, seq_norm(seq))
    e = ev(st, seq_empty(seq))
    if e is TRUE:
        return st, none()
    if seq.op == "vec" and seq.a and seq.a[-1].op == "one":
        h, rest = seq.a[-1].a[0], vcat_norm(seq.a[:-1])
    else:
        h, rest = mk("last", seq), mk("init", seq)
    et = elem_type(en, mode, f["out"])
    if et is not None and h.op not in ("int", "str", "phi", "adt"):
        typed(h, et)
    st = st.copy()
    en.store_ptr(st, ptr, (), mk("it", rest, mode))
    return st, prune(st, mkphi([(e, none()), (NOT(e), some(item_of(mode, h)))]))


# a Peekable over a base iterator is that iterator: what has been peeked is still its head

PK = "core::iter::adapters::peekable::Peekable::<I>::"


@tmodel(ITN + "peekable")
def it_peekable(en, st, f, vals, ctx):
    v = prune(st, vals[0])
    return (st, v) if v.op == "it" else None


def peek_head(en, st, ptr, optty):
    """Option<Item> that next() would return, without advancing"""
    v = prune(st, deref1(en, st, ptr))
    if v.op != "it":
        return None
    r = it_next(en, st.copy(), ptr, optty)
    return None if r is None else r[1]


@model(PK + "peek", PK + "peek_mut")
def pk_peek(en, st, f, vals, ctx):
    o = peek_head(en, st, vals[0], f["out"])
    if o is None:
        return None
    d = discr_of(o, (0, 1))
    return st, prune(st, mkphi([(cond(d, 0), none()), (cond(d, 1), some(kref(vfld(o, 1, 0))))]))


def pk_take(en, st, ptr, out, test):
    o = peek_head(en, st, ptr, out)
    if o is None:
        return None
    outs = []
    d = discr_of(o, (0, 1))
    sn = assume(st, cond(d, 0))
    if sn is not None:
        outs.append((sn, none()))
    ss = assume(st, cond(d, 1))
    if ss is not None:
        x = prune(ss, vfld(prune(ss, o), 1, 0))
        s2, b = test(ss, x)
        if s2 is not None:
            g = cond(prune(s2, b), 1)
            sy = assume(s2, g)
            if sy is not None:
                r = it_next(en, sy, ptr, out)
                outs.append(r)
            sz = assume(s2, NOT(ev(s2, g)))
            if sz is not None:
                outs.append((sz, none()))
    return merge_vals(outs)


@model(PK + "next_if")
def pk_next_if(en, st, f, vals, ctx):
    return pk_take(en, st, vals[0], f["out"],
                   lambda s, x: en.call_value(s, vals[1], [kref(x)], ctx[1] + ("nif",), ctx[2]))


@model(PK + "next_if_eq")
def pk_next_if_eq(en, st, f, vals, ctx):
    y = deref(en, st, vals[1])
    return pk_take(en, st, vals[0], f["out"],
                   lambda s, x: (s, bool_term(cond(isbool(mk("bin", "Eq", x, y)), 1))))


def merge_vals(outs):
    outs = [(s, v) for s, v in outs if s is not None]
    if not outs:
        return None, None
    if len(outs) == 1:
        return outs[0]
    sts = []
    for s, v in outs:
        s = s.copy()
        s.mem[("tmp", "mv")] = v
        sts.append(s)
    m = merge(sts).copy()
    v = m.mem.pop(("tmp", "mv"))
    return m, prune(m, v)


@tmodel(ITN + "size_hint")
def size_hint(en, st, f, vals, ctx):
    return st, mk("tuple", I(0), none())


@tmodel(ITN + "by_ref")
def by_ref(en, st, f, vals, ctx):
    return st, vals[0]


def opt_type_of_next(en, ity):
    fn = en.F.fn_for(ITN + "next", ity)
    if fn is None:
        t = en.F.types[ity]
        if t["k"] == "ref":
            return opt_type_of_next(en, t["to"])
        return None, None
    return fn, en.F.fns[fn]["out"]


def drive(en, st, ity, itv, body, tag, ctx, byref=None):
    """generic loop over an iterator: body(st, item) -> (continue_state, [(exit_tag, state)])
    returns list of (tag, state); exhaustion has tag 'end'"""
    fn, optty = opt_type_of_next(en, ity)
    if fn is None:
        raise Unsupported("iterator " + en.tname(ity))
    stk = tuple(s for _, s in en.stack)
    slot = ("tmp", "drv", stk, ctx[1], tag)
    if byref is None:
        st = with_slot(st, slot, itv)
        ptr = mk("ref", slot, ())
    else:
        ptr = byref
    # the loop gets its own identity
    lid = ("D", mk("frame", stk, ctx[1] + (tag,), ctx[0]), 0)

    def step(h):
        exits, backs = [], []
        for kind, s, item in produce(en, h, ity, ptr, ctx, tag):
            if kind == "end":
                exits.append(("end", s))
            elif kind == "skip":
                backs.append(s)
            else:
                cont, ex = body(s, item)
                if cont is not None:
                    backs.append(cont)
                exits.extend(ex)
        return exits, backs

    outs = unrolled(en, st, step, 2) if at_most_one(en, ity) else None
    if outs is None:
        outs = en.run_loop(lid, st, step)
    if byref is None:
        outs2 = []
        for t, s in outs:
            s = s.copy()
            s.mem.pop(slot, None)
            outs2.append((t, s))
        outs = outs2
    return outs


def at_most_one(en, ity):
    """an iterator over an option, possibly adapted"""
    t = en.F.types[ity]
    p = t.get("path") or ""
    if p in ("core::option::Iter", "core::option::IterMut", "core::option::IntoIter", "core::iter::sources::once::Once"):
        return True
    if p in ("core::iter::adapters::map::Map", "core::iter::adapters::filter::Filter", "core::iter::adapters::filter_map::FilterMap",
             "core::iter::adapters::cloned::Cloned", "core::iter::adapters::copied::Copied"):
        return any(f[0] in ("iter", "it") and at_most_one(en, f[1]) for f in t["v"][0]["f"])
    return False


def unrolled(en, st, step, n):
    """the outcome of a loop of at most n turns, None if there may be more"""
    exits, states = [], [st]
    loops, events = dict(en.loops), len(en.events)
    for _ in range(n):
        nxt = []
        for s in states:
            ex, backs = step(s)
            exits += ex
            nxt += backs
        states = nxt
        if not states:
            return exits
    del en.events[events:]
    en.loops.clear()
    en.loops.update(loops)
    return None


def produce(en, st, ity, ptr, ctx, tag, depth=0):
    """one step of an iterator: [(end | item | skip, state, item)]; a filter skips an element instead of looping"""
    t = en.F.types[ity]
    p = (t.get("path") or "").split("::")[-1]
    if (t.get("path") or "").startswith("core::iter::adapters::") and ptr.op == "ref" and p in ("Filter", "FilterMap", "Map", "TakeWhile") \
            and (p != "Map" or selective(en, t["v"][0]["f"][0][1])):
        fs = t["v"][0]["f"]
        ix = {f[0]: i for i, f in enumerate(fs)}
        cur = prune(st, en.load(st, ptr))
        if cur.op == "adt":
            sub = lambda n: mk("ref", ptr.a[0], tuple(ptr.a[1]) + (("f", ix[n], ity, fs[ix[n]][1]),))
            tg = tag + str(depth)
            out = []
            start = [(st, None)]
            if p == "TakeWhile":
                fl = prune(st, en.load(st, sub("flag")))
                start = []
                s0 = assume(st, cond(fl, 1))
                if s0 is not None:
                    out.append(("end", s0, None))
                s1 = assume(st, cond(fl, 0))
                if s1 is not None:
                    start.append((s1, None))
            for s0, _ in start:
                for kind, s, item in produce(en, s0, fs[ix["iter"]][1], sub("iter"), ctx, tag, depth + 1):
                    if kind != "item":
                        out.append((kind, s, item))
                        continue
                    fn = sub("f" if "f" in ix else "predicate")
                    arg = item if p in ("Map", "FilterMap") else kref(item)
                    s2, r = en.call_value(s, fn, [arg], ctx[1] + (tg, p), ctx[2])
                    if s2 is None:
                        continue
                    if p == "Map":
                        out.append(("item", s2, prune(s2, r)))
                        continue
                    d = discr_of(prune(s2, r), (0, 1)) if p == "FilterMap" else r
                    sn = assume(s2, cond(d, 0))
                    if sn is not None:
                        if p == "TakeWhile":
                            sn = sn.copy()
                            en.store_ptr(sn, sub("flag"), (), I(1))
                        out.append(("end" if p == "TakeWhile" else "skip", sn, None))
                    sy = assume(s2, cond(d, 1))
                    if sy is not None:
                        out.append(("item", sy, prune(sy, vfld(prune(sy, r), 1, 0)) if p == "FilterMap" else item))
            return out
    fn, optty = opt_type_of_next(en, ity)
    if fn is None:
        raise Unsupported("iterator " + en.tname(ity))
    s, o = en.call(st, fn, [ptr], ctx[1] + (tag, "next"), ctx[2])
    if s is None:
        return []
    out = []
    d = discr_of(prune(s, o), (0, 1))
    s0 = assume(s, cond(d, 0))
    if s0 is not None:
        out.append(("end", s0, None))
    s1 = assume(s, cond(d, 1))
    if s1 is not None:
        out.append(("item", s1, prune(s1, vfld(prune(s1, o), 1, 0, en.F.types[optty]["args"][0]))))
    return out


def selective(en, ity):
    """an iterator type built on a filter"""
    t = en.F.types[ity]
    p = t.get("path") or ""
    if not p.startswith("core::iter::adapters::") or not t.get("v"):
        return False
    if p.split("::")[-1] in ("Filter", "FilterMap", "TakeWhile"):
        return True
    return any(f[0] == "iter" and selective(en, f[1]) for f in t["v"][0]["f"])


def merge_outs(outs):
    d = {}
    for t, s in outs:
        d.setdefault(t, []).append(s)
    return {t: merge(ss) for t, ss in d.items()}


def collect_into(en, st, ity, itv, outty, ctx, tag="col"):
    t = en.F.types[outty]
    p = t.get("path")
    stk = tuple(s for _, s in en.stack)
    acc = ("tmp", "acc", stk, ctx[1], tag)
    if p == "alloc::vec::Vec":
        v = prune(st, itv)
        if v.op == "it" and v.a[1] in ("val",) and not contains_ref(v.a[0]):
            return st, seq_norm(v.a[0])
        st = with_slot(st, acc, mk("vec"))

        def body(s, item):
            s = s.copy()
            s.mem[acc] = push_one(en.get(s, acc), en.snap_own(s, item))
            return s, []
    elif p == "alloc::string::String":
        st = with_slot(st, acc, S(""))
        fn, optty = opt_type_of_next(en, ity)
        itemty = en.F.types[optty]["args"][0] if optty is not None else None

        def body(s, item):
            s = s.copy()
            ch = en.F.types[peel(en, itemty)]["k"] == "char"
            x = deref(en, s, item) if ch else content(en, s, item)
            s.mem[acc] = cat([en.get(s, acc), chr_str(x) if ch else x])
            return s, []
    elif p == "alloc::collections::btree::map::BTreeMap":
        st = with_slot(st, acc, mk("mempty"))

        def body(s, item):
            s = s.copy()
            s.mem[acc] = minsert(en.get(s, acc), en.snap_own(s, fld(item, 0)), en.snap_own(s, fld(item, 1)))
            return s, []
    elif p in ("core::result::Result", "core::option::Option"):
        inner = t["args"][0]
        good = 0 if p.endswith("Result") else 1
        it2 = en.F.types[inner].get("path")
        if it2 == "alloc::vec::Vec":
            st = with_slot(st, acc, mk("vec"))
        elif it2 == "alloc::string::String":
            st = with_slot(st, acc, S(""))
        elif it2 == "alloc::collections::btree::map::BTreeMap":
            st = with_slot(st, acc, mk("mempty"))
        elif en.F.types[inner]["k"] == "tuple" and not en.F.types[inner]["f"]:
            st = with_slot(st, acc, UNIT)
        else:
            raise Unsupported("collect into " + t["s"])
        bad = ("tmp", "bad", stk, ctx[1], tag)

        def body(s, item):
            d = discr_of(item, (0, 1))
            ex = []
            sb = assume(s, cond(d, 1 - good))
            if sb is not None:
                sb = sb.copy()
                sb.mem[bad] = vfld(item, 1, 0) if good == 0 else UNIT
                ex.append(("bad", sb))
            sg = assume(s, cond(d, good))
            if sg is not None:
                sg = sg.copy()
                x = prune(sg, vfld(prune(sg, item), good, 0))
                cur = en.get(sg, acc)
                if it2 == "alloc::vec::Vec":
                    sg.mem[acc] = push_one(cur, en.snap_own(sg, x))
                elif it2 == "alloc::string::String":
                    sg.mem[acc] = cat([cur, x])
                elif it2 == "alloc::collections::btree::map::BTreeMap":
                    sg.mem[acc] = minsert(cur, en.snap_own(sg, fld(x, 0)), en.snap_own(sg, fld(x, 1)))
            return sg, ex
        outs = merge_outs(drive(en, st, ity, itv, body, tag, ctx))
        res = []
        r = ("tmp", "res", stk, ctx[1], tag)
        if outs.get("end") is not None:
            s = outs["end"].copy()
            x = s.mem.pop(acc)
            s.mem[r] = ok(x) if good == 0 else some(x)
            res.append(s)
        if outs.get("bad") is not None:
            s = outs["bad"].copy()
            s.mem.pop(acc, None)
            x = s.mem.pop(bad)
            s.mem[r] = err(x) if good == 0 else none()
            res.append(s)
        s = merge(res)
        if s is None:
            return None, None
        s = s.copy()
        return s, s.mem.pop(r)
    else:
        raise Unsupported("collect into " + t["s"])
    outs = merge_outs(drive(en, st, ity, itv, body, tag, ctx))
    s = outs.get("end")
    if s is None:
        return None, None
    s = s.copy()
    return s, s.mem.pop(acc)


def contains_ref(t):
    return False


@tmodel("core::iter::traits::collect::FromIterator::from_iter")
def from_iter(en, st, f, vals, ctx):
    if f["krate"] in ("ikal", "ikal_witness"):
        return None
    return collect_into(en, st, f["ins"][0], vals[0], f["out"], ctx)


@tmodel(ITN + "collect")
def iter_collect(en, st, f, vals, ctx):
    return collect_into(en, st, f["ins"][0], vals[0], f["out"], ctx)


@tmodel("core::iter::traits::collect::Extend::extend")
def iter_extend(en, st, f, vals, ctx):
    cty = en.F.types[f["ins"][0]]["to"]
    p = en.F.types[cty].get("path")
    ity = f["ins"][1]
    src = vals[1]
    base = en.F.types[peel(en, ity)]
    if base.get("path") == "alloc::vec::Vec":
        seq = content(en, st, src)
        st2, add = st, seq
    elif base.get("path") in ("core::option::Option", "core::result::Result") and p == "alloc::vec::Vec":
        # zero or one element
        good = 1 if base["path"].endswith("Option") else 0
        x = prune(st, src)
        d = discr_of(x, (0, 1))
        st2, parts = st, []
        for k in (0, 1):
            s1 = assume(st, cond(d, k))
            if s1 is not None:
                parts.append((cond(d, k), mk("vec", one(en.snap_own(s1, prune(s1, vfld(prune(s1, x), good, 0))))) if k == good else mk("vec")))
        add = mkphi(parts)
    else:
        st2, add = collect_into(en, st, ity, src, cty, ctx, "ext")
        if st2 is None:
            return None, None
    st2 = st2.copy()
    old = content(en, st2, vals[0])
    if p == "alloc::vec::Vec":
        en.store_ptr(st2, vals[0], (), cat_seq(old, add))
    elif p == "alloc::string::String":
        en.store_ptr(st2, vals[0], (), cat([old, add]))
    else:
        return None
    return st2, UNIT


def self_iter(en, st, f, vals):
    """(iterator type, value, pointer or None) of a consuming or borrowing iterator method"""
    ty = f["ins"][0]
    t = en.F.types[ty]
    if t["k"] == "ref" and t.get("mut"):
        return t["to"], None, vals[0]
    return ty, vals[0], None


@tmodel(ITN + "fold")
def iter_fold(en, st, f, vals, ctx):
    ity, v, ptr = self_iter(en, st, f, vals)
    stk = tuple(s for _, s in en.stack)
    acc = ("tmp", "facc", stk, ctx[1])
    fs = ("tmp", "ffn", stk, ctx[1])
    st = with_slot(st, acc, vals[1])
    st = with_slot(st, fs, vals[2])

    def body(s, item):
        cur = en.get(s, acc)
        s2, r = en.call_value(s, mk("ref", fs, ()), [cur, item], ctx[1] + ("fold",), ctx[2])
        if s2 is None:
            return None, []
        s2 = s2.copy()
        s2.mem[acc] = r
        return s2, []
    outs = merge_outs(drive(en, st, ity, v, body, "fold", ctx, ptr))
    s = outs.get("end")
    if s is None:
        return None, None
    s = s.copy()
    s.mem.pop(fs, None)
    return s, s.mem.pop(acc)


@tmodel(ITN + "for_each")
def iter_for_each(en, st, f, vals, ctx):
    ity, v, ptr = self_iter(en, st, f, vals)
    fs = ("tmp", "fefn", tuple(s for _, s in en.stack), ctx[1])
    st = with_slot(st, fs, vals[1])

    def body(s, item):
        s2, r = en.call_value(s, mk("ref", fs, ()), [item], ctx[1] + ("each",), ctx[2])
        return s2, []
    outs = merge_outs(drive(en, st, ity, v, body, "each", ctx, ptr))
    s = outs.get("end")
    if s is None:
        return None, None
    return s, UNIT


@tmodel(ITN + "last")
def iter_last(en, st, f, vals, ctx):
    ity, v, ptr = self_iter(en, st, f, vals)
    acc = ("tmp", "last", tuple(s for _, s in en.stack), ctx[1])
    st = with_slot(st, acc, none())

    def body(s, item):
        s = s.copy()
        s.mem[acc] = some(item)
        return s, []
    outs = merge_outs(drive(en, st, ity, v, body, "last", ctx, ptr))
    s = outs.get("end")
    if s is None:
        return None, None
    s = s.copy()
    return s, s.mem.pop(acc)


@tmodel(ITN + "count")
def iter_count(en, st, f, vals, ctx):
    ity, v, ptr = self_iter(en, st, f, vals)
    if prune(st, v if v is not None else ptr).op == "it":
        return st, typed(seq_len(prune(st, v).a[0]), C.usize)
    return None


def bound_var(en, ty):
    return typed(mk("sym", ("bound", en.F.types[ty]["s"])), ty)


def pure_formula(en, st, call):
    """what call(state) -> (state, bool) decides, if it does nothing else"""
    n = len(en.events)
    loops = dict(en.loops)
    try:
        s, r = call(st)
        if s is None or len(en.events) != n or r is None:
            return None
        if s.facts != st.facts or set(s.ors) != set(st.ors):
            return None
        for k, x in st.mem.items():
            if s.mem.get(k) is not x:
                return None
        return ev(st, cond(r, 1))
    except Unsupported:
        return None
    finally:
        del en.events[n:]
        en.loops.clear()
        en.loops.update(loops)


def exists(en, st, seq, x, ty, ctx):
    """some element of seq equals x"""
    b = bound_var(en, ty)
    fn = en.F.fn_for("core::cmp::PartialEq::eq", ty)
    if fn is not None and en.F.body(fn) and en.F.fns[fn]["krate"] == "ikal":
        g = pure_formula(en, st, lambda s: en.call(s, fn, [kref(b), kref(x)], ctx[1] + ("exists",), ctx[2]))
        if g is not None:
            return some_element(seq, b, g)
    return isbool(mk("call", "contains", seq, x))


def some_element(seq, b, g):
    """some element b of seq satisfies g"""
    p = bool_term(g)
    q = p
    if g.op == "lit" and g.a[0].op == "eq" and g.a[1] == "=" and g.a[2] in (1, True):
        q = g.a[0]
    if q.op == "eq" and len(q.a) == 2 and b in q.a:
        x = q.a[1] if q.a[0] is b else q.a[0]
        if not depends_on(x, b):
            return isbool(mk("call", "contains", seq, x))
    return isbool(mk("call", "any", seq, p))


def any_all(en, st, f, vals, ctx, name):
    """any/all with a pure predicate over a plain sequence"""
    ity, v, ptr = self_iter(en, st, f, vals)
    v = prune(st, v if v is not None else deref1(en, st, ptr))
    if v.op != "it" or v.a[1] not in ("ref", "val"):
        return None
    seq = seq_norm(v.a[0])
    if vec_elems(seq) is not None or seq.op == "vec":
        return None
    a = f.get("args") or []
    ty = None
    for t in subtypes_of_iter(en, ity):
        ty = t
        break
    if ty is None:
        return None
    b = bound_var(en, ty)
    fs = ("tmp", "anyfn", tuple(s for _, s in en.stack), ctx[1])
    s0 = with_slot(st, fs, vals[1])
    arg = kref(b) if v.a[1] == "ref" else b
    g = pure_formula(en, s0, lambda s: en.call_value(s, mk("ref", fs, ()), [arg], ctx[1] + ("any",), ctx[2]))
    if g is None:
        return None
    if g in (TRUE, FALSE):
        return None
    t = some_element(seq, b, g if name == "any" else NOT(g))
    if ptr is not None:
        # the iterator is left somewhere inside the sequence
        st = st.copy()
        en.store_ptr(st, ptr, (), mk("it", mk("call", "rest", seq, t), v.a[1]), ity)
    return st, t if name == "any" else bool_term(NOT(cond(t, 1)))


def depends_on(x, b):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y is b:
            return True
        if isinstance(y, T):
            if y.id in seen:
                continue
            seen.add(y.id)
            todo.extend(y.a)
        elif isinstance(y, (tuple, frozenset, list)):
            todo.extend(y)
    return False


def subtypes_of_iter(en, ity):
    """element type of core::slice::Iter<T> and alloc::vec::IntoIter<T>"""
    t = en.F.types[ity]
    if t["k"] == "adt" and t.get("path") in ("core::slice::iter::Iter", "alloc::vec::into_iter::IntoIter"):
        for a in t.get("args", []):
            if isinstance(a, int):
                yield a


def search(name):
    def fn(en, st, f, vals, ctx):
        if name in ("any", "all"):
            r = any_all(en, st, f, vals, ctx, name)
            if r is not None:
                return r
        ity, v, ptr = self_iter(en, st, f, vals)
        stk = tuple(s for _, s in en.stack)
        fs = ("tmp", "sfn", stk, ctx[1])
        res = ("tmp", "sres", stk, ctx[1])
        st = with_slot(st, fs, vals[1])

        def body(s, item):
            arg = item
            if name in ("find",):
                arg = kref(item)
            s2, r = en.call_value(s, mk("ref", fs, ()), [arg], ctx[1] + (name,), ctx[2])
            if s2 is None:
                return None, []
            if name == "find_map":
                hit, miss = cond(discr_of(r, (0, 1)), 1), cond(discr_of(r, (0, 1)), 0)
            else:
                hit, miss = cond(r, 1), cond(r, 0)
            if name == "all":
                hit, miss = miss, hit
            ex = []
            sh = assume(s2, hit)
            if sh is not None:
                sh = sh.copy()
                sh.mem[res] = {"find": lambda: some(item), "any": lambda: I(1), "all": lambda: I(0),
                               "find_map": lambda: prune(sh, r),
                               "position": lambda: some(typed(mk("pos", item), C.usize))}[name]()
                ex.append(("hit", sh))
            return assume(s2, miss), ex
        outs = merge_outs(drive(en, st, ity, v, body, name, ctx, ptr))
        states = []
        if outs.get("end") is not None:
            s = outs["end"].copy()
            s.mem[res] = {"find": none, "find_map": none, "position": none, "any": lambda: I(0), "all": lambda: I(1)}[name]()
            states.append(s)
        if outs.get("hit") is not None:
            states.append(outs["hit"])
        s = merge(states)
        if s is None:
            return None, None
        s = s.copy()
        s.mem.pop(fs, None)
        return s, s.mem.pop(res)
    return fn


for _n in ("find", "find_map", "any", "all", "position"):
    TRAIT_MODELS[ITN + _n] = search(_n)


@tmodel(ITN + "try_fold")
def iter_try_fold(en, st, f, vals, ctx):
    ity, v, ptr = self_iter(en, st, f, vals)
    stk = tuple(s for _, s in en.stack)
    acc, fs, res = ("tmp", "tacc", stk, ctx[1]), ("tmp", "tfn", stk, ctx[1]), ("tmp", "tres", stk, ctx[1])
    st = with_slot(with_slot(st, acc, vals[1]), fs, vals[2])
    out = en.F.types[f["out"]]
    goodv = {"core::option::Option": 1, "core::result::Result": 0, "core::ops::control_flow::ControlFlow": 0}.get(out.get("path"))
    if goodv is None:
        return None

    def body(s, item):
        s2, r = en.call_value(s, mk("ref", fs, ()), [en.get(s, acc), item], ctx[1] + ("tf",), ctx[2])
        if s2 is None:
            return None, []
        d = discr_of(r, (0, 1))
        ex = []
        sb = assume(s2, cond(d, 1 - goodv))
        if sb is not None:
            sb = sb.copy()
            sb.mem[res] = prune(sb, r)
            ex.append(("brk", sb))
        sg = assume(s2, cond(d, goodv))
        if sg is not None:
            sg = sg.copy()
            sg.mem[acc] = prune(sg, vfld(prune(sg, r), goodv, 0))
        return sg, ex
    outs = merge_outs(drive(en, st, ity, v, body, "tf", ctx, ptr))
    states = []
    if outs.get("end") is not None:
        s = outs["end"].copy()
        s.mem[res] = mk_adt(f["out"], goodv, [en.get(s, acc)])
        states.append(s)
    if outs.get("brk") is not None:
        states.append(outs["brk"])
    s = merge(states)
    if s is None:
        return None, None
    s = s.copy()
    for k in (acc, fs):
        s.mem.pop(k, None)
    return s, s.mem.pop(res)


@tmodel(ITN + "rev")
def iter_rev(en, st, f, vals, ctx):
    v = prune(st, vals[0])
    if v.op == "it":
        seq = seq_norm(v.a[0])
        es = vec_elems(seq)
        if es is not None:
            return st, mk("it", mkvec(es[::-1]), v.a[1])
        return st, mk("it", mk("rev", seq), v.a[1])
    return None


@tmodel(ITN + "skip", ITN + "take")
def iter_part(en, st, f, vals, ctx):
    v, n = prune(st, vals[0]), prune(st, vals[1])
    if v.op != "it":
        return None
    seq = seq_norm(v.a[0])
    kind = f["trait"].split("::")[-1]
    es = vec_elems(seq)
    if es is not None and n.op == "int":
        es = list(es)[n.a[0]:] if kind == "skip" else list(es)[:n.a[0]]
        return st, mk("it", mkvec(es), v.a[1])
    if n is I(0):
        return st, (v if kind == "skip" else mk("it", mk("vec"), v.a[1]))
    return st, mk("it", mk(kind, seq, n), v.a[1])


@tmodel(ITN + "filter")
def iter_filter(en, st, f, vals, ctx):
    """a filter with a pure predicate is the sequence of the elements that satisfy it"""
    v = prune(st, vals[0])
    if v.op != "it" or v.a[1] not in ("ref", "val"):
        return None
    stk = tuple(s for _, s in en.stack)
    acc = ("tmp", "flt", stk, ctx[1])
    fs = ("tmp", "fltfn", stk, ctx[1])
    n = len(en.events)
    s0 = with_slot(with_slot(st, acc, mk("vec")), fs, vals[1])

    def body(s, item):
        s2, r = en.call_value(s, mk("ref", fs, ()), [kref(item)], ctx[1] + ("filter",), ctx[2])
        if s2 is None:
            return None, []
        c = cond(r, 1)
        x = deref1(en, s2, item) if v.a[1] == "ref" else en.snap_own(s2, item)
        s2 = s2.copy()
        cur = en.get(s2, acc)
        s2.mem[acc] = mkphi([(c, push_one(cur, x)), (NOT(c), cur)])
        return s2, []
    try:
        outs = merge_outs(drive(en, s0, f["ins"][0], v, body, "filter", ctx))
    except Unsupported:
        del en.events[n:]
        return None
    s = outs.get("end")
    if s is None or len(en.events) != n:
        del en.events[n:]
        return None
    seq = s.mem.get(acc)
    for k, x in s.mem.items():
        if k not in (acc, fs) and st.mem.get(k) is not x:
            return None
    for k in st.mem:
        if k not in s.mem:
            return None
    return st, mk("it", seq_norm(seq), v.a[1])


@tmodel(ITN + "nth")
def iter_nth(en, st, f, vals, ctx):
    ptr, n = vals[0], prune(st, vals[1])
    v = prune(st, deref1(en, st, ptr))
    if v.op != "it":
        return None
    seq = seq_norm(v.a[0])
    es = vec_elems(seq)
    st = st.copy()
    if es is not None and n.op == "int":
        en.store_ptr(st, ptr, (), mk("it", mkvec(list(es)[n.a[0]:]), v.a[1]))
    elif n is not I(0):
        en.store_ptr(st, ptr, (), mk("it", mk("skip", seq, n), v.a[1]))
    return it_next(en, st, ptr, f["out"])


@tmodel(ITN + "chain")
def iter_chain(en, st, f, vals, ctx):
    a, b = prune(st, vals[0]), prune(st, vals[1])
    if a.op == "it" and b.op == "it" and a.a[1] == b.a[1]:
        return st, mk("it", seq_norm(mk("vec", mk("all", a.a[0]), mk("all", b.a[0]))), a.a[1])
    return None


@tmodel(ITN + "cloned", ITN + "copied")
def iter_cloned(en, st, f, vals, ctx):
    v = prune(st, vals[0])
    if v.op == "it" and v.a[1] == "ref":
        return st, mk("it", v.a[0], "val")
    return None


@model("core::array::<impl [T; N]>::map")
def array_map(en, st, f, vals, ctx):
    es = vec_elems(seq_norm(prune(st, vals[0])))
    if es is None:
        return None
    out = []
    fs = ("tmp", "amap", tuple(s for _, s in en.stack), ctx[1])
    st = with_slot(st, fs, vals[1])
    for i, e in enumerate(es):
        st, r = en.call_value(st, mk("ref", fs, ()), [e], ctx[1] + ("amap", i), ctx[2])
        if st is None:
            return None, None
        out.append(r)
    return st, mk("array", *out)


# ---------------------------------------------------------------- chrono

def chrono_pure(en, st, f, vals, ctx):
    """library function without side effects: one uninterpreted term over the argument contents"""
    vs = []
    for v, ty in zip(vals, f["ins"]):
        t = en.F.types[ty]
        c = deref(en, st, v)
        vs.append(en.snap(st, c))
    name = f["path"]
    t = typed(mk("call", name, *vs), f["out"])
    if en.F.types[f["out"]]["k"] == "bool":
        isbool(t)
    return st, t


@model("chrono::month::Months::new")
def months_new(en, st, f, vals, ctx):
    v = prune(st, vals[0])
    while v.op == "cast":
        v = v.a[1]
    return st, typed(mk("call", "Months", v), f["out"])


SECS = {"weeks": 604800, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 0}


def timedelta(unit):
    def fn(en, st, f, vals, ctx):
        v = prune(st, vals[0])
        lim = (1 << 63) // 1000 // max(SECS[unit], 1) - 1
        lo, hi = en.rng_st(st, v)
        if unit != "milliseconds" and not (lo is not None and hi is not None and -lim <= lo and hi <= lim):
            en.event("docpanic", f["path"], st, [v], ctx[2])
        return st, delta(v, unit, f["out"])
    return fn


def delta(v, unit, out):
    x = v
    while x.op == "cast" and x.a[0] == "IntToInt":
        x = x.a[1]
    return typed(mk("delta", x, I(SECS[unit])) if unit != "milliseconds" else mk("call", "ms", x), out)


def try_timedelta(unit):
    def fn(en, st, f, vals, ctx):
        v = prune(st, vals[0])
        lim = (1 << 63) // 1000 // max(SECS[unit], 1) - 1
        lo, hi = en.rng_st(st, v)
        d = delta(v, unit, en.F.types[f["out"]]["args"][0])
        if lo is not None and hi is not None and -lim <= lo and hi <= lim:
            return st, some(d)
        b = isbool(mk("fits", v, I(SECS[unit])))
        g = cond(b, 1)
        return st, prune(st, mkphi([(g, some(d)), (NOT(g), none())]))
    return fn


for _u in ("weeks", "days", "hours", "minutes", "seconds"):
    MODELS["chrono::time_delta::TimeDelta::" + _u] = timedelta(_u)
    MODELS["chrono::time_delta::TimeDelta::try_" + _u] = try_timedelta(_u)


@model("chrono::time_delta::TimeDelta::zero")
def td_zero(en, st, f, vals, ctx):
    return st, typed(mk("call", "default<chrono::time_delta::TimeDelta>"), f["out"])


@model("chrono::time_delta::TimeDelta::checked_add")
def td_checked_add(en, st, f, vals, ctx):
    a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
    g, s = td_sum(en, a, b, 1)
    return st, prune(st, mkphi([(g, some(typed(s, en.F.types[f["out"]]["args"][0]))), (NOT(g), none())]))


@model("chrono::time_delta::TimeDelta::checked_sub")
def td_checked_sub(en, st, f, vals, ctx):
    a, b = deref(en, st, vals[0]), deref(en, st, vals[1])
    g, s = td_sum(en, a, b, -1)
    return st, prune(st, mkphi([(g, some(typed(s, en.F.types[f["out"]]["args"][0]))), (NOT(g), none())]))


ZERO_TD = "default<chrono::time_delta::TimeDelta>"


def td_terms(x):
    if x.op == "tdsum":
        return list(x.a[0])
    if x.op == "call" and x.a[0] == ZERO_TD:
        return []
    if x.op == "delta" and x.a[0] is I(0):
        return []
    return [(x, 1)]


def td_sum(en, a, b, sign):
    """(formula: no overflow, sum term)"""
    if a.op == "phi":
        alts = [(g,) + td_sum(en, x, b, sign) for g, x in a.a[0]]
        return OR([AND([g, o]) for g, o, _ in alts]), mkphi([(g, s) for g, _, s in alts])
    if b.op == "phi":
        alts = [(g,) + td_sum(en, a, x, sign) for g, x in b.a[0]]
        return OR([AND([g, o]) for g, o, _ in alts]), mkphi([(g, s) for g, _, s in alts])
    ts = {}
    for x, k in td_terms(a):
        ts[x] = ts.get(x, 0) + k
    for x, k in td_terms(b):
        ts[x] = ts.get(x, 0) + sign * k
    ts = [(x, k) for x, k in ts.items() if k]
    ts.sort(key=lambda p: p[0].id)
    if not ts:
        return TRUE, mk("call", ZERO_TD)
    s = ts[0][0] if len(ts) == 1 and ts[0][1] == 1 else mk("tdsum", tuple(ts))
    # bounded operands cannot overflow
    tot = 0
    for x, k in ts:
        if x.op == "delta":
            lo, hi = rng(x.a[0])
            if lo is None or hi is None:
                tot = None
                break
            tot += max(abs(lo), abs(hi)) * x.a[1].a[0] * abs(k)
        else:
            tot = None
            break
    if tot is not None and tot < (1 << 63) // 1000:
        return TRUE, s
    if not td_terms(a) or not td_terms(b):
        return TRUE, s
    return cond(isbool(mk("fits", s)), 1), s


def td_neg(x):
    if x.op == "phi":
        return mkphi([(g, td_neg(a)) for g, a in x.a[0]])
    ts = [(y, -k) for y, k in td_terms(x)]
    if not ts:
        return mk("call", ZERO_TD)
    return ts[0][0] if len(ts) == 1 and ts[0][1] == 1 else mk("tdsum", tuple(ts))


@model("<chrono::time_delta::TimeDelta as core::ops::arith::Neg>::neg")
def m_td_neg(en, st, f, vals, ctx):
    return st, typed(td_neg(prune(st, vals[0])), f["out"])


CHRONO_PURE = (
    "chrono::datetime::DateTime::<Tz>::date_naive", "chrono::datetime::DateTime::<Tz>::naive_local",
    "chrono::datetime::DateTime::<Tz>::naive_utc", "chrono::datetime::DateTime::<Tz>::with_timezone",
    "chrono::datetime::DateTime::<Tz>::to_utc", "chrono::datetime::DateTime::<Tz>::fixed_offset",
    "chrono::naive::date::NaiveDate::and_hms_opt", "chrono::naive::date::NaiveDate::parse_from_str",
    "chrono::naive::datetime::NaiveDateTime::parse_from_str",
    "chrono::naive::datetime::NaiveDateTime::and_local_timezone",
    "chrono::naive::datetime::NaiveDateTime::and_utc", "chrono::naive::datetime::NaiveDateTime::date",
    "chrono::naive::datetime::NaiveDateTime::time",
    "chrono::offset::fixed::FixedOffset::local_minus_utc", "chrono::offset::LocalResult::<T>::earliest",
    "chrono::offset::LocalResult::<T>::latest", "chrono::offset::LocalResult::<T>::single",
)
for _p in CHRONO_PURE:
    MODELS[_p] = chrono_pure


def fmt_of(kind):
    def fn(en, st, f, vals, ctx):
        v = en.snap(st, deref(en, st, vals[0]))
        s = content(en, st, vals[1])
        name = "chrono::%s::format" % kind

        def one_(x):
            return mk("call", name, x, s)
        return st, typed(one_(v), f["out"])
    return fn


MODELS["chrono::naive::date::NaiveDate::format"] = fmt_of("naive::date")
MODELS["chrono::naive::datetime::NaiveDateTime::format"] = fmt_of("naive::datetime")
MODELS["chrono::datetime::DateTime::<Tz>::format"] = fmt_of("datetime")


@model("chrono::offset::fixed::FixedOffset::east_opt")
def east_opt(en, st, f, vals, ctx):
    v = prune(st, vals[0])
    if v.op == "int" and -86400 < v.a[0] < 86400:
        return st, some(mk("call", "east", v))
    return chrono_pure(en, st, f, vals, ctx)


def dt_arith(op):
    """NaiveDate/NaiveDateTime/DateTime checked arithmetic: Option<Self>"""
    def fn(en, st, f, vals, ctx):
        vs = [en.snap(st, deref(en, st, v)) for v in vals]
        rt = en.F.types[f["out"]]["args"][0]
        okt = isbool(mk("fits", S(op), *vs))
        g = cond(okt, 1)
        if vs[1].op == "call" and vs[1].a[0] == ZERO_TD:
            return st, some(vs[0])
        return st, prune(st, mkphi([(g, some(typed(mk("shift", S(op), *vs), rt))), (NOT(g), none())]))
    return fn


for _b in ("chrono::naive::date::NaiveDate::", "chrono::naive::datetime::NaiveDateTime::", "chrono::datetime::DateTime::<Tz>::"):
    MODELS[_b + "checked_add_signed"] = dt_arith("add")
    MODELS[_b + "checked_sub_signed"] = dt_arith("sub")
    MODELS[_b + "checked_add_months"] = dt_arith("addm")
    MODELS[_b + "checked_sub_months"] = dt_arith("subm")
    MODELS[_b + "checked_add_days"] = dt_arith("addd")


for _d in ("with_year", "with_month", "with_day", "with_ordinal", "with_hour"):
    TRAIT_MODELS["chrono::traits::Datelike::" + _d] = dt_arith(_d)
for _d in ("year", "month", "day", "ordinal", "weekday", "month0", "day0", "iso_week"):
    TRAIT_MODELS["chrono::traits::Datelike::" + _d] = chrono_pure
for _d in ("hour", "minute", "second", "nanosecond"):
    TRAIT_MODELS["chrono::traits::Timelike::" + _d] = chrono_pure


def arith_panics(op, months):
    """date + delta panics when out of range: same term as the checked form"""
    def fn(en, st, f, vals, ctx):
        vs = [en.snap(st, deref(en, st, v)) for v in vals]
        okt = isbool(mk("fits", S(op), *vs))
        g = cond(okt, 1)
        if ev(st, g) is not TRUE:
            bad = assume(st, NOT(g))
            if bad is not None:
                en.event("docpanic", f["path"], bad, vs, ctx[2])
        s2 = assume(st, g)
        return s2, typed(mk("shift", S(op), *vs), f["out"])
    return fn


for _n in ("chrono::naive::date::NaiveDate", "chrono::naive::datetime::NaiveDateTime", "chrono::datetime::DateTime<Tz>"):
    for _tr, _me, _o in (("Add", "add", "add"), ("Sub", "sub", "sub")):
        MODELS["<%s as core::ops::arith::%s<chrono::time_delta::TimeDelta>>::%s" % (_n, _tr, _me)] = arith_panics(_o, False)
        MODELS["<%s as core::ops::arith::%s<chrono::month::Months>>::%s" % (_n, _tr, _me)] = arith_panics(_o + "m", True)
        MODELS["<%s as core::ops::arith::%sAssign<chrono::time_delta::TimeDelta>>::%s_assign" % (_n, _tr, _me)] = None
for _k in [k for k, v in MODELS.items() if v is None]:
    del MODELS[_k]


@model("<chrono::time_delta::TimeDelta as core::ops::arith::Add>::add")
def td_add(en, st, f, vals, ctx):
    g, s = td_sum(en, prune(st, vals[0]), prune(st, vals[1]), 1)
    g = ev(st, g)
    if g is not TRUE:
        bad = assume(st, NOT(g))
        if bad is not None:
            en.event("docpanic", f["path"], bad, vals, ctx[2])
        st = assume(st, g)
        if st is None:
            return None, None
    return st, typed(prune(st, s), f["out"])


@model("<chrono::time_delta::TimeDelta as core::ops::arith::AddAssign>::add_assign")
def td_add_assign(en, st, f, vals, ctx):
    ty = en.F.types[f["ins"][0]]["to"]
    old = deref1(en, st, vals[0])
    g, s = td_sum(en, old, prune(st, vals[1]), 1)
    g = ev(st, g)
    if g is not TRUE:
        bad = assume(st, NOT(g))
        if bad is not None:
            en.event("docpanic", f["path"], bad, [old, vals[1]], ctx[2])
        st = assume(st, g)
        if st is None:
            return None, None
    st = st.copy()
    en.store_ptr(st, vals[0], (), typed(prune(st, s), ty), ty)
    return st, UNIT


@model("<chrono::naive::datetime::NaiveDateTime as core::ops::arith::Sub>::sub",
       "chrono::naive::datetime::NaiveDateTime::signed_duration_since")
def ndt_sub(en, st, f, vals, ctx):
    vs = [en.snap(st, deref(en, st, v)) for v in vals]
    return st, typed(mk("call", "since", *vs), f["out"])


import nommodel  # noqa: E402,F401


def _hms_ok(vals):
    lim = (24, 60, 60)
    return all(v.op == "int" and 0 <= v.a[0] < m for v, m in zip(vals, lim))


@model("chrono::naive::date::NaiveDate::and_hms_opt")
def and_hms_opt(en, st, f, vals, ctx):
    d = deref(en, st, vals[0])
    hms = [prune(st, v) for v in vals[1:4]]
    ty = en.F.types[f["out"]]["args"][0]
    if _hms_ok(hms):
        return st, some(typed(mk("call", "and_hms", d, *hms), ty))
    if all(v.op == "int" for v in hms):
        return st, none()
    t = mk("call", f["path"], d, *hms)
    return st, typed(t, f["out"])


@model("chrono::naive::time::NaiveTime::from_hms_opt")
def from_hms_opt(en, st, f, vals, ctx):
    hms = [prune(st, v) for v in vals[:3]]
    ty = en.F.types[f["out"]]["args"][0]
    if _hms_ok(hms):
        return st, some(typed(mk("call", "hms", *hms), ty))
    if all(v.op == "int" for v in hms):
        return st, none()
    return st, typed(mk("call", f["path"], *hms), f["out"])


@model("chrono::naive::date::NaiveDate::and_time")
def and_time(en, st, f, vals, ctx):
    d, t = deref(en, st, vals[0]), deref(en, st, vals[1])
    if t.op == "call" and t.a[0] == "hms":
        return st, typed(mk("call", "and_hms", d, *t.a[1:]), f["out"])
    return st, typed(mk("call", "and_time", d, t), f["out"])
