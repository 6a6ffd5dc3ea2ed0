"""Panic reachability from every writer.

Every Serialize::{ical,attr,component} implementation, every Display implementation of the crate and the public
ser::ical entry points are interpreted abstractly over all values; every reachable panic, failed unwrap,
slice at a non-boundary, index out of range or overflow is a violation."""
from checks import panics

RULE = "no panicking operation is reachable from a writer (one obligation per writer function)"
FLOOR = 60


def roots(ctx):
    F = ctx.F
    for i, f in panics.ikal_fns(F):
        tr = f.get("trait") or ""
        if tr.startswith("ikal::ser::Serialize::"):
            yield i
        elif tr == "core::fmt::Display::fmt" and f["krate"] == "ikal":
            yield i
        elif f["krate"] == "ikal_witness" and f["path"].endswith("::ical"):
            yield i
        elif f["path"] == "ikal::ser::ical":
            yield i


def run(ctx):
    panics.check(ctx, sorted(set(roots(ctx))), "the writer")
