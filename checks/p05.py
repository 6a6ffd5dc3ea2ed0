"""Unsafe-freedom and auto traits.

The crate is recompiled by the real compiler with `unsafe_code` forbidden (generated code of its derive macros
included): any unsafe block, function, trait or implementation makes that build fail. The type checker's own trait
solver is asked, for every type of the crate, whether it is Send and Sync."""
import os
import re

import core

RULE = "crate compiles with -Funsafe-code; every type of the crate is Send + Sync; no function of it is unsafe"
FLOOR = 30


def run(ctx):
    F = ctx.F
    for t in F.types:
        if t.get("k") != "adt" or "notauto" not in t:
            continue
        for tr in ("core::marker::Send", "core::marker::Sync"):
            ctx.ob("%s: %s" % (t["s"], tr.rsplit("::", 1)[1]), tr not in t["notauto"],
                   "the type %s does not implement %s" % (t["s"], tr))
    n = 0
    for f in F.fns:
        if f["krate"] == "ikal":
            n += 1
            ctx.analysed.append(f["name"])
            if f.get("unsafe"):
                ctx.ob("%s|unsafe fn" % f["path"], False, "unsafe function at %s" % f.get("span"))
    ctx.notes["functions_checked_for_unsafe"] = n
    env = core.base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(core.BUILD, "forbid")
    env["RUSTFLAGS"] = "-Funsafe-code"
    os.utime(os.path.join(core.VERIF, "harness", "src", "lib.rs"))
    rc, out = core.sh(["cargo", "+nightly", "check", "--offline"], os.path.join(core.VERIF, "harness"), env)
    hits = re.findall(r"error(?:\[E0453\])?: ([^\n]*unsafe[^\n]*)\n\s*--> ([^\n]*)", out)
    if rc and not hits:
        raise core.Broken("the build with unsafe code forbidden failed for another reason:\n" + out[-2000:])
    ctx.ob("crate ikal compiles with unsafe code forbidden", rc == 0)
    for what, at in hits:
        ctx.ob("unsafe code|%s|%s" % (what, re.sub(r":\d+:\d+", "", at)), False, "%s at %s" % (what, at))
