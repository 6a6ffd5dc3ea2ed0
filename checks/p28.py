"""Which parts of a rule the expansion depends on.

From each occurrence iterator's `next`, every function of the crate it can reach is scanned (compiled bodies, resolved
calls, function values and closures included). A field of the rule, or the RDATE property of the component, is taken into
account when one of those bodies reads it, other than to clone, compare as a whole, print or drop it; when none does, no
execution of the expansion can depend on it. One obligation per component and part.

How the parts that are read enter is decided too: the step must go by FREQ and INTERVAL whatever their values (the
obligations of P25), and an occurrence is handed out as UNTIL, COUNT and EXDATE say (those of P24)."""
from checks.occur import *
from checks import p24, p25
from checks.p04 import refs
import core

RULE = "every part of the rule, and RDATE, is read by the expansion (one obligation per component and part)"
FLOOR = 40

COPIES = ("core::clone::Clone::", "core::fmt::Debug::", "core::cmp::PartialEq::", "core::ops::drop::Drop::", "core::default::")


def reached(F, root):
    seen, todo = set(), [root]
    while todo:
        i = todo.pop()
        f = F.fns[i]
        if i in seen or not f.get("body"):
            continue
        if f["krate"] == "ikal" and (f.get("trait") or "").startswith(COPIES) and own(F, f):
            continue
        seen.add(i)
        todo += [r for r in refs(f["body"]) if isinstance(r, int)]
        todo += closures(F, f)
    return seen


def own(F, f):
    """a copy of a whole rule or component"""
    t = F.types[f["self_ty"]] if f.get("self_ty") is not None else {}
    p = t.get("path") or ""
    return p == p25.RECUR or p.startswith("ikal::components::")


def closures(F, f):
    """closures are reached from the function that creates them"""
    out = []
    for b in f["body"]["blocks"]:
        for x in walk(b):
            if isinstance(x, dict) and isinstance(x.get("closure"), int):
                out.append(x["closure"])
    return out


def walk(x):
    stack = [x]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, dict):
            stack.extend(y.values())
        elif isinstance(y, list):
            stack.extend(y)


def fields_read(F, f, ty):
    """indices of the fields of type `ty` that a body projects"""
    out = set()
    b = f["body"]
    for x in walk(b["blocks"]):
        if isinstance(x, list) and x and isinstance(x[0], int) and not isinstance(x[0], bool) \
                and all(y == "*" or isinstance(y, list) and y and y[0] in ("f", "d", "i", "c", "s") for y in x[1:]) \
                and x[0] < len(b["locals"]):
            t = b["locals"][x[0]]
            for y in x[1:]:
                tt = F.types[t] if t is not None else {}
                if y == "*":
                    t = tt.get("to")
                elif y[0] == "f":
                    if t == ty:
                        out.add(y[1])
                    t = y[2]
                elif y[0] != "d":
                    t = None
    return out


def run(ctx):
    F = ctx.F
    rt = adt_type(F, p25.RECUR)
    names = field_names(F, rt)
    its = iterators(ctx)
    if not its:
        ctx.undec("iterators", "no occurrence iterator found")
    p24.run(ctx)
    p25.run(ctx)
    for i in its:
        comp = component(F, i)
        fs = reached(F, i)
        rule, own_fields = set(), set()
        for j in fs:
            f = F.fns[j]
            if f["krate"] not in ("ikal", "ikal_witness"):
                continue
            ctx.analysed.append(f["name"])
            ctx.blocks += len(f["body"]["blocks"])
            rule |= fields_read(F, f, rt)
            own_fields |= fields_read(F, f, comp)
        c = F.types[comp]["path"].split("::")[-1]
        for k, n in enumerate(names):
            ctx.ob("%s|%s of the rule" % (c, n), k in rule,
                   "no function reachable from %s reads %s" % (F.fns[i]["name"], n))
        for k, n in enumerate(field_names(F, comp)):
            if n in ("rdate", "exdate", "rrule", "dtstart", "dtend", "due"):
                ctx.ob("%s|%s" % (c, n), k in own_fields, "no function reachable from %s reads %s" % (F.fns[i]["name"], n))


def component(F, i):
    f = F.fns[i]
    t = F.types[f["self_ty"]]
    return t["args"][0]
