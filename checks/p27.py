"""The builder macros.

For every component macro and every property of the component a pair of functions is written: one uses the macro with
that key, the other is the literal struct expression that the type of the property calls for (text: into, dates: parse,
options: Some, lists: vec). Both are compiled - never run - against the current tree, and the values they return are
compared as symbolic terms over all arguments: the same property is set, to the same value, all others are defaults, the
same errors are returned. A key whose macro call is refused by the compiler cannot be used at all."""
import json
import os
import shutil
import tempfile
import fcntl

import core
import engine as E
from checks.util import *

RULE = "each macro and key gives the same value and errors as the struct expression with that one property set"
FLOOR = 150
TECHNIQUE = "compile-time witnesses for every macro and key; symbolic comparison of the expansion with the struct expression"
MACROS = {"vcalendar": "VCalendar", "vevent": "VEvent", "vfreebusy": "VFreebusy", "vjournal": "VJournal", "vtimezone": "VTimezone",
          "vtodo": "VTodo", "audio": "valarm::Audio", "display": "valarm::Display", "email": "valarm::Email"}
TYPED_FIELDS = (("Recur", "until"),)
INTO = ("Text", "Uri", "String")
PARSE = ("Date", "DateTime", "Trigger", "Geo", "Recur", "RequestStatus", "WeekdayNum", "Weekday", "Period")
TYPED = ("Weekday", "WeekdayNum", "Period")
ENUMS = ("Class", "Status", "TimeTransparency", "Freq")
OBJECTS = {"Geo": "ikal::Geo", "Recur": "ikal::Recur", "RequestStatus": "ikal::RequestStatus", "VEvent": "ikal::VEvent", "VTodo": "ikal::VTodo",
           "VJournal": "ikal::VJournal", "VFreebusy": "ikal::VFreebusy", "VTimezone": "ikal::VTimezone", "Standard": "ikal::vtimezone::Standard", "Daylight": "ikal::vtimezone::Daylight"}


def head(F, t):
    return (F.types[t].get("path") or F.types[t]["s"]).split("::")[-1]


def scalar(F, t, k):
    """[(parameters, value for the macro, expression)] of a property of one value; k numbers the parameters"""
    n, ty = head(F, t), F.types[t]
    v = "v%d" % k
    if n in INTO:
        return [(v + ": &str", v, "%s.into()" % v)]
    if n == "FixedOffset":
        return [(v + ": &str", v, "%s.parse()?" % v)]
    if n == "TimeDelta":
        return [(v + ": &str", v, "ikal::parse_duration(%s)?" % v)]
    if n in ENUMS:
        return [("", x["n"], "ikal::%s::%s" % (n, x["n"])) for x in ty["v"] if not x["f"]]
    if n in PARSE:
        return [(v + ": &str", v, "%s.parse()?" % v)]
    if n in ("u8", "u16", "u32", "u64", "i8", "i32", "i64", "f32", "f64"):
        return [(v + ": " + n, v, v)]
    return []


def values(F, t, k):
    """forms of a value: (what it is called, parameters, value for the macro, expression)"""
    n, ty = head(F, t), F.types[t]
    if n == "Option":
        for d, p, m, e in values(F, ty["args"][0], k):
            yield d, p, m, "Some(%s)" % e
        return
    if n == "Vec":
        a = ty["args"][0]
        one, two = list(values(F, a, k)), list(values(F, a, k + 40))
        for (d, p, m, e), (_, q, m2, e2) in zip(one, two):
            yield d, ", ".join(x for x in (p, q) if x), "[%s, %s]" % (m, m2), "vec![%s, %s]" % (e, e2)
        yield "no element", "", "[]", "vec![]"
        return
    for p, m, e in scalar(F, t, k):
        yield m if n in ENUMS else "value", p, m, e
    if n in TYPED:
        yield "typed value", "v%d: ikal::%s" % (k, n), "v%d" % k, "v%d" % k
    if n in OBJECTS:
        for i, (f, ft) in enumerate((x[0], x[1]) for x in ty["v"][0]["f"]):
            if head(F, ft) in OBJECTS or head(F, ft) == "Vec" and (n[0] == "V" or head(F, F.types[ft]["args"][0]) in OBJECTS):
                continue
            forms = [x for x in values(F, ft, k * 100 + i + 1) if x[0] != "no element"]
            if (n, f) in TYPED_FIELDS:
                v = "v%d" % (k * 100 + i + 1)
                forms.append(("typed value", v + ": ikal::Date", v, "Some(%s)" % v))
            for d, p, m, e in forms[:1] + [x for x in forms if x[0] == "typed value"]:
                yield "{%s}%s" % (f, " typed" if d == "typed value" else ""), p, "{ %s: %s }" % (f, m), "%s { %s: %s, ..Default::default() }" % (OBJECTS[n], f, e)


def witnesses(F):
    out = []
    for m, path in sorted(MACROS.items()):
        n = path.split("::")[-1]
        t = next((i for i, x in enumerate(F.types) if x.get("k") == "adt" and (x.get("path") or "").startswith("ikal::components::") and x["path"].endswith("::" + n)), None)
        if t is None:
            continue
        for f, ft in ((x[0], x[1]) for x in F.types[t]["v"][0]["f"]):
            for d, p, v, e in values(F, ft, 1):
                out.append(("%s %s %s" % (m, f, d), "ikal::" + path, p, "ikal::%s! { %s: %s }" % (m, f, v), "Ok(ikal::%s { %s: %s, ..Default::default() })" % (path, f, e)))
            # the short form, and a pair of keys in either order
            out.append(("%s %s short" % (m, f), "ikal::" + path, "", "(|| { let %s = ikal::%s::default().%s; ikal::%s! { %s, } })()" % (f, path, f, m, f), "Ok(ikal::%s::default())" % path))
        out.append(("%s nothing set" % m, "ikal::" + path, "", "ikal::%s! {}" % m, "Ok(ikal::%s::default())" % path))
        fs = [(x[0], x[1]) for x in F.types[t]["v"][0]["f"]]
        pair = [(f, x) for f, ft in fs for x in list(values(F, ft, 60 + fs.index((f, ft))))[:1] if x[0] == "value" and head(F, ft) in ("Text", "DateTime", "Date", "Trigger")]
        for (f, a), (g, b) in zip(pair, pair[1:]):
            for o in (0, 1):
                args = ["%s: %s" % (f, a[2]), "%s: %s" % (g, b[2])]
                out.append(("%s %s and %s%s" % (m, f, g, " reversed" if o else ""), "ikal::" + path, a[1] + ", " + b[1],
                            "ikal::%s! { %s }" % (m, ", ".join(args[::-1] if o else args)),
                            "Ok(ikal::%s { %s: %s, %s: %s, ..Default::default() })" % ((path, g, b[3], f, a[3]) if o else (path, f, a[3], g, b[3]))))
    for k, n in (("audio", "Audio"), ("display", "Display"), ("email", "Email")):
        out.append(("valarm @%s trigger" % k, "ikal::VAlarm", "v1: &str", "ikal::valarm! { @%s, trigger: v1 }" % k, "Ok(ikal::VAlarm::%s(ikal::valarm::%s { action: \"%s\".into(), trigger: v1.parse()?, ..Default::default() }))" % (n, n, k.upper())))
    return out


def group(key):
    """the witnesses that stand or fall together: the values, or the nested objects, of a property"""
    m, f, d = key.split(" ", 2)
    return "%s %s %s" % (m, f, "{..}" if d.startswith("{") else d if d == "typed value" else "short" if d == "short" else d if "and" in d else "value") if d else key


def source(ws, without):
    lines, at = ["#![allow(unused)]"], {}
    for k, (_, ty, p, m, e) in enumerate(ws):
        for w, body in (("m", m), ("e", e)):
            if (k, w) in without:
                continue
            lines.append("pub fn %s%d(%s) -> ikal::Result<%s> { %s }" % (w, k, p, ty, body))
            at[len(lines)] = (k, w)
    return "\n".join(lines) + "\n", at


def places(span, name):
    while span:
        if os.path.basename(span["file_name"]) == "lib.rs" and span["file_name"] in (name, "src/lib.rs"):
            yield from range(span["line_start"], span["line_end"] + 1)
        x = span.get("expansion")
        span = x["span"] if x else None


def compile_all(ws):
    """(facts file, {(k, w): message} of the functions that are refused)"""
    d = tempfile.mkdtemp(prefix="ikal-p27-")
    facts = os.path.join(core.BUILD, "facts.p27.%d.json" % os.getpid())
    try:
        os.makedirs(os.path.join(d, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(core.VERIF, "harness", f), d)
        env = core.base_env()
        rc, root = core.sh(["rustc", "+nightly", "--print", "sysroot"], core.VERIF, env)
        env["LD_LIBRARY_PATH"] = root.strip() + "/lib"
        env["CARGO_TARGET_DIR"] = os.path.join(core.BUILD, "harness")
        env["RUSTC_WRAPPER"] = core.DRIVER
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off"
        env["IKAL_FACTS_CRATE"] = "ikal_witness"
        env["IKAL_FACTS_OUT"] = facts
        bad = {}
        for _ in range(12):
            text, at = source(ws, bad)
            with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                f.write(text)
            rc, out = core.sh(["cargo", "+nightly", "check", "--offline", "--message-format=json"], d, env)
            if rc == 0 and os.path.exists(facts):
                return facts, bad
            new = {}
            other = []
            for line in out.splitlines():
                if not line.startswith("{"):
                    other.append(line)
                    continue
                m = json.loads(line)
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                    continue
                ls = [n for s in m["message"]["spans"] for n in places(s, os.path.join(d, "src", "lib.rs"))]
                for n in ls:
                    if n in at:
                        new.setdefault(at[n], m["message"]["message"])
                if not ls and m["message"]["spans"]:
                    other.append(m["message"]["message"])
            if not new:
                raise core.Broken("the witnesses of the macros do not compile:\n" + "\n".join(other)[-2000:])
            bad.update(new)
        raise core.Broken("the witnesses of the macros do not compile")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plain(t):
    """a number converted to the type it has is that number"""
    return t.a[1] if t is not None and t.op == "cast" and t.a[1].op == "sym" and (t.a[1].a[0][-1] if isinstance(t.a[1].a[0], tuple) else None) == t.a[2] else t


def same(F, a, b):
    """equal, looking into lists element by element"""
    a, b = plain(a), plain(b)
    if a is b:
        return True, ""
    if a is None or b is None:
        return False, "one of them never returns"
    unsure = None
    for g, x in alts(a):
        for h, y in alts(b):
            s = E.assume(E.St(), g)
            if s is None or feasible(s, h) is False:
                continue
            s = E.assume(s, h) or s
            x2, y2 = E.restrict(s, x), E.restrict(s, y)
            if x2 is y2:
                continue
            x2, y2 = plain(x2), plain(y2)
            if x2 is y2:
                continue
            if x2.op == y2.op == "adt":
                if x2.a[:2] != y2.a[:2]:
                    return False, "%s where the struct expression gives %s" % (show(y2, 0, 2)[:80], show(x2, 0, 2)[:80])
                pairs = list(zip(x2.a[2:], y2.a[2:]))
            elif x2.op == y2.op and x2.op in ("vec", "one", "cat", "seq", "tuple", "array") and len(x2.a) == len(y2.a) and all(isinstance(i, T) for i in x2.a + y2.a):
                pairs = list(zip(x2.a, y2.a))
            elif {x2.op, y2.op} & {"unknown", "lv", "havoc"}:
                unsure = "not understood: %s and %s" % (show(y2, 0, 3)[:80], show(x2, 0, 3)[:80])
                continue
            else:
                return False, "%s where the struct expression gives %s" % (show(y2, 0, 3)[:100], show(x2, 0, 3)[:100])
            for p, q in pairs:
                r, why = same(F, p, q)
                if r is False:
                    return False, why
                if r is None:
                    unsure = why
    return (None, unsure) if unsure else (True, "")


def run(ctx):
    ws = witnesses(ctx.F)
    core.build_driver()
    with open(os.path.join(core.BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        facts, bad = compile_all(ws)
    try:
        sub = core.Ctx(ctx.prop, ctx.tier, facts)
    finally:
        os.unlink(facts)
    F = sub.F
    fns = {f["path"].split("::")[-1]: i for i, f in enumerate(F.fns) if f["krate"] == "ikal_witness" and f["path"].count("::") == 1}

    def opaque(f):
        return f["krate"] == "ikal" and (f["path"].startswith("ikal::parse") or (f.get("trait") or "").startswith(("core::str::traits::FromStr", "core::default::Default")))
    groups = {}
    for k, w in enumerate(ws):
        groups.setdefault(group(w[0]), []).append(k)
    whole = {g for g, ks in groups.items() if len(ks) > 1 and all((k, "m") in bad and (k, "e") not in bad for k in ks)}
    for g in sorted(whole):
        ctx.ob(g, False, "the macro call does not compile: " + bad[groups[g][0], "m"].split("\n")[0][:150])
    for k, (key, ty, p, m, e) in enumerate(ws):
        if (k, "e") in bad:
            if (k, "m") not in bad:
                ctx.undec(key, "no such struct expression: " + bad[k, "e"][:100])
            continue
        if group(key) in whole:
            continue
        if (k, "m") in bad:
            ctx.ob(key, False, "the macro call does not compile: " + bad[k, "m"].split("\n")[0][:150])
            continue
        try:
            a = sub.run(fns["e%d" % k], opaque=opaque, key=("p27",)).value
            b = sub.run(fns["m%d" % k], opaque=opaque, key=("p27",)).value
            ok, why = same(F, a, b)
        except core.Undecided as x:
            ok, why = None, x
        if ok is None:
            ctx.undec(key, why)
        else:
            ctx.ob(key, ok, why)
