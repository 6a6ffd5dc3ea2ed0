"""Panic reachability from every reader.

Every textual entry point (FromStr / TryFrom / From of a text or content line, parse_duration) and every
parser function that yields a domain value is interpreted abstractly over all inputs (nom combinators are
modelled with their documented semantics); every reachable panic, failed unwrap, out-of-range index, division
by zero, arithmetic overflow or library call outside its documented domain is a violation, reported with its
call path and the guards under which it is reached."""
import policy
from checks import panics

RULE = "no panicking operation is reachable from a reader (one obligation per reader function)"
FLOOR = 100


def roots(ctx):
    F = ctx.F
    opaque = policy.modular(F, None)
    for i, f in panics.ikal_fns(F):
        if f["krate"] != "ikal":
            continue
        tr = f.get("trait") or ""
        if tr in ("core::str::traits::FromStr::from_str", "core::convert::TryFrom::try_from"):
            if f.get("self_ty") is not None and panics.is_ikal_type(F, f["self_ty"]):
                yield i
        elif tr == "core::convert::From::from":
            if reads_text(F, f):
                yield i
        elif f["path"] == "ikal::parse_duration":
            yield i
        elif opaque(f):
            yield i


def reads_text(F, f):
    if not f["ins"]:
        return False
    t = F.types[f["ins"][0]]
    while t["k"] == "ref":
        t = F.types[t["to"]]
    return t["s"] == "str" or (t.get("path") or "") in (
        "alloc::string::String", "ikal::content_line::ContentLine", "nom::internal::Err")


def run(ctx):
    rs = sorted(set(roots(ctx)))
    panics.check(ctx, rs, "the reader")
