"""Panic reachability from recurrence expansion, date conversions and comparisons.

The iterator over the occurrences of each recurring component and its between/at/after adaptors, the checked
date arithmetic of a rule, and the conversions and comparisons of dates, date-times and periods are interpreted
abstractly over all values; every reachable panic or failed unwrap, and every chrono operation used outside its
documented domain, is a violation. The `+`/`-` operators themselves are documented to panic, like chrono's, and
are not entry points."""
from checks import panics

RULE = "no panicking operation is reachable from expansion, conversion or comparison (one obligation per entry point)"
FLOOR = 30

TRAITS = ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp", "core::cmp::PartialEq::eq",
          "core::iter::traits::iterator::Iterator::next")


def roots(ctx):
    F = ctx.F
    for i, f in panics.ikal_fns(F):
        tr = f.get("trait") or ""
        if f["krate"] == "ikal_witness":
            yield i
        elif f["krate"] != "ikal":
            continue
        elif tr in TRAITS or tr.startswith("ikal::iter::Recurring::"):
            yield i
        elif tr in ("core::convert::From::from", "core::convert::TryFrom::try_from", "core::default::Default::default"):
            if mentions_date(F, f):
                yield i
        elif not tr and f.get("vis") == "private":
            continue            # reached from what uses it
        elif f["path"].startswith("ikal::iter::") and not tr:
            yield i
        elif not tr and is_date_method(F, f):
            yield i


def mentions_date(F, f):
    ts = [F.types[x]["s"] for x in list(f["ins"]) + [f["out"]]]
    return any("DateTime" in s or "NaiveDate" in s or "date::Date" in s for s in ts)


def is_date_method(F, f):
    p = f["path"]
    return p.startswith(("ikal::properties::date::", "ikal::properties::period::")) or (
        p.startswith("ikal::properties::recur::Recur::") and (p.endswith("::checked_add") or not f["argc" if "argc" in f else "args"]))


def run(ctx):
    panics.check(ctx, sorted(set(roots(ctx))), "the entry point")
