"""The reading side of the components: what `<Component as TryFrom<Vec<ContentLine>>>::try_from` does with a line of a given name.

The summary of the function is one pass over the whole sequence of content lines; its loop record gives, per
field of the component, the field after one line as a guarded term over the field before and the line.
Restricting that transition to `key = NAME` (and to the states that go on to the next line) tells which
fields a line of that name changes, and to what."""
import engine as E
from checks.util import *
import core
import policy

LINES = "alloc::vec::Vec<ikal::content_line::ContentLine>"
COMPONENTS = ["vcalendar::VCalendar", "vevent::VEvent", "vtodo::VTodo", "vjournal::VJournal", "vfreebusy::VFreebusy",
              "vtimezone::VTimezone", "vtimezone::Standard", "vtimezone::Daylight", "valarm::Audio", "valarm::Display",
              "valarm::Email"]
# RFC 5545 names of the properties, by field; everything else is the field name in capitals with dashes
NAMES = {"rstatus": "REQUEST-STATUS", "recurid": "RECURRENCE-ID"}
SUBS = {"alarms", "events", "freebusy:VCalendar", "journals", "todo", "timezones", "standard", "daylight"}
MAPS = {"x_prop", "iana_prop"}


def rfc_name(field):
    return NAMES.get(field, field.upper().replace("_", "-"))


def kind(F, ty):
    t = F.types[ty]
    p = t.get("path") or ""
    if p == OPTION:
        return "option"
    if p == "alloc::vec::Vec":
        return "list"
    if p.endswith("BTreeMap") or p.endswith("HashMap"):
        return "map"
    return "plain"


def fields(F, ty):
    """[(index, name, type, kind)] of a component; kind 'sub' for nested components"""
    out = []
    comp = F.types[ty]["path"].split("::")[-1]
    for i, f in enumerate(F.types[ty]["v"][0]["f"]):
        k = kind(F, f[1])
        if k == "list":
            e = F.types[f[1]]["args"][0]
            if (F.types[e].get("path") or "").startswith("ikal::components::"):
                k = "sub"
        out.append((i, f[0], f[1], k))
    return out


def is_line_parser(F, f):
    """a function of the crate that turns one content line into a value or an error"""
    if f["krate"] != "ikal" or f.get("dk") == "Closure" or f.get("body") is None or "{closure" in f["path"]:
        return False
    if f.get("out") is None or len(f.get("ins") or ()) != 1:
        return False
    return F.types[strip_ref(F, f["ins"][0])].get("path") == "ikal::content_line::ContentLine" and F.types[f["out"]].get("path") == RESULT


def line_parsers(ctx, root):
    base = policy.modular(ctx.F, root)
    memo = {}

    def fn(f):
        k = id(f)
        if k not in memo:
            memo[k] = base(f) or is_line_parser(ctx.F, f)
        return memo[k]
    return fn


class Renamed(core.Undecided):
    """several names are treated as one"""


def merging(t):
    """the text t is made from, if t is the result of cutting off or replacing parts of it"""
    n = 0
    while True:
        if t.op == "call" and str(t.a[0]).startswith(("trim_start_matches", "trim_end_matches", "trim_matches", "trim")):
            t = t.a[1]
        elif t.op == "replace":
            t = t.a[0]
        else:
            return t if n else None
        n += 1


class Reader:
    def __init__(self, ctx, short):
        self.ctx, self.F = ctx, ctx.F
        F = ctx.F
        self.name = "ikal::components::" + short
        self.short = short.split("::")[-1]
        self.ty = adt_type(F, self.name)
        if self.ty is None:
            raise core.Missing(self.name)
        ids = [i for i in ctx.impl("core::convert::TryFrom::try_from", self.name) if F.types[F.fns[i]["ins"][0]]["s"] == LINES]
        if not ids:
            raise core.Missing("reader of " + self.name)
        self.fnid = ids[0]
        self.fnname = F.fns[self.fnid]["name"]
        self.fields = fields(F, self.ty)
        self.r = ctx.run(self.fnid, opaque=line_parsers(ctx, self.fnid), key="compread")
        self.arg = core.arg(F, 0, F.fns[self.fnid]["body"]["locals"][1])
        cl = adt_type(F, "ikal::content_line::ContentLine")
        self.k_key, self.k_val, self.k_par = (field_index(F, cl, n) for n in ("key", "value", "params"))
        self.oks = []
        for g, k, p in results(F, self.r.value):
            if k == "ok":
                if path_of(F, p) != self.name:
                    raise core.Undecided("%s: payload %s" % (self.fnname, show(p, 0, 2)[:100]))
                self.oks.append((g, p))
        if not self.oks:
            raise core.Undecided(self.fnname + ": no successful result found")
        self.main = None
        self.find_main()

    # -- the loop over the lines
    def find_main(self):
        cands = []
        for l, rec in self.r.loops.items():
            if not any(uses(x, self.arg) for x in rec.get("iters", {}).values()) or "back" not in rec:
                continue
            closed = self.r.en.summarise(rec)
            m = {}
            for lv in rec["nexts"]:
                if lv in rec["iters"]:
                    continue
                for _, p in self.oks:
                    for i in range(len(p.a) - 2):
                        t = p.a[2 + i]
                        if t is lv or t is closed.get(lv):
                            m[lv] = i
            if m:
                cands.append((len(m), rec, m))
        if not cands:
            raise core.Undecided(self.fnname + ": no loop over the content lines that fills the component")
        if len(cands) > 1:
            raise core.Undecided(self.fnname + ": several loops fill the component")
        _, self.main, self.lvs = cands[0]
        self.iter = list(self.main["iters"])[0]
        self.elem = list(self.main["elem"].values())[0]
        self.key = E.fld(self.line(), self.k_key)
        self.value = E.fld(self.line(), self.k_val)
        self.params = E.fld(self.line(), self.k_par)
        self.back = self.r.en.subst_state(self.main["back"], self.main["elem"])
        self.field_lv = {i: lv for lv, i in self.lvs.items()}
        if not any(self.key is t for lv in self.lvs for t in compared_strings(self.main["nexts"][lv])):
            for lv in self.lvs:
                for t, c in compared_strings(self.main["nexts"][lv]).items():
                    if merging(t) is self.key:
                        raise Renamed("%s: the name of the line is compared after %s with %s" % (self.fnname, show(t, 0, 1)[:60], sorted(c)[:3]))
            raise core.Undecided(self.fnname + ": the name of the line is not what the loop dispatches on")

    def line(self):
        return self.elem

    def compared(self):
        out = set()
        for lv in self.lvs:
            out |= compared_strings(self.main["nexts"][lv]).get(self.key, set())
        return out

    def under_name(self, f):
        """(state, {field index: [(guard, new value)]}) of the fields a line satisfying f changes; None when no such line is accepted"""
        st = E.assume(self.back, f)
        if st is not None and f.op == "lit" and f.a[0] is self.key and f.a[1] == "=":
            st = self.known_key(st, f.a[2])
        if st is None:
            return None, {}
        out = {}
        for lv, i in self.lvs.items():
            ls = live(st, self.main["nexts"][lv])
            if any(x is not lv for _, x in ls):
                out[i] = (lv, ls)
        return st, out

    def known_key(self, st, name):
        """decide the prefix tests on the name when the name is known"""
        for t in self.key_tests():
            c = t.a[2].a[0]
            v = {"starts_with": name.startswith(c), "ends_with": name.endswith(c), "contains": c in name}[t.a[0]]
            if st is not None:
                st = E.assume(st, E.cond(t, int(v)))
        return st

    def key_tests(self):
        out = set()
        for lv in self.lvs:
            for t in subterms(self.main["nexts"][lv]):
                if t.op == "call" and t.a[0] in ("starts_with", "ends_with", "contains") and len(t.a) == 3 and t.a[1] is self.key and t.a[2].op == "str":
                    out.add(t)
        return out

    def unknown(self, x):
        """state in which the line has a name the reader does not know; x: it starts with X-"""
        st = self.back
        for n in sorted(self.compared()):
            st = E.assume(st, NOT(E.cond(self.key, n)))
            if st is None:
                return None
        for t in self.key_tests():
            if t.a[0] == "starts_with" and t.a[2].a[0] == "X-":
                st = E.assume(st, E.cond(t, int(x)))
                if st is None:
                    return None
        return st

    def exhausted(self):
        """every successful result comes after the last line"""
        if self.main["iters"][self.iter] is not self.arg:
            return False
        e = E.seq_empty(self.iter)
        return all(E.ev(E.assume(E.St(), g), e) is TRUE for g, _ in self.oks)

    # -- mandatory values
    def loops_of(self, t):
        """loop records t depends on"""
        seen, work = {}, [t]
        while work:
            x = work.pop()
            for y in subterms(x):
                if y.op in ("lv", "elem", "rep", "join") and y.a[0] in self.r.loops and y.a[0] not in seen:
                    rec = self.r.loops[y.a[0]]
                    seen[y.a[0]] = rec
                    work += list(rec["init"].values()) + list(rec["next"].values())
                    for s in [s for _, s in rec["exits"]] + ([rec["back"]] if "back" in rec else []):
                        for u in own_facts(s, rec["base"]):
                            work.append(u)
        return seen

    def selecting_names(self, t):
        """names a line is compared with in order to be the line t is made from; None if undecided"""
        names = set()
        for l, rec in self.loops_of(t).items():
            for x in rec["next"].values():
                names |= self.key_consts(x, l)
            for _, s in rec["exits"]:
                for f in own_facts(s, rec["base"]):
                    names |= self.key_consts(f, l)
        return names

    def key_consts(self, x, l):
        out = set()
        for t, c in compared_strings(x).items():
            if is_key(t, self.k_key) and has(t, lambda y: y.op in ("lv", "elem") and y.a[0] is l):
                out |= c
        return out

    def final(self, i):
        """the terms a field has in the successful results; values the main loop leaves alone are those before it"""
        out = []
        for _, p in self.oks:
            t = p.a[2 + i]
            if t.op == "lv" and self.main["next"].get(t) is t:
                t = self.main["init"][t]
            out.append(t)
        return out


def own_facts(s, base):
    """facts of s that its loop did not start with"""
    out = []
    for t, (k, v) in s.facts.items():
        if base.facts.get(t) != (k, v):
            out.append(mk("lit", t, k, v))
    out += [o for o in s.ors if o not in base.ors]
    return out


def is_key(t, k):
    return t.op == "fld" and t.a[1] == k and has(t.a[0], lambda x: x.op in ("lv", "elem", "head"))


def readers(ctx):
    for c in COMPONENTS:
        try:
            yield Reader(ctx, c)
        except core.Undecided as e:
            if isinstance(e, Renamed) and ctx.prop == "P07":
                ctx.ob(c.split("::")[-1] + "|names", False, "lines of other names are read as that property: %s" % e)
            ctx.undec(c, e)


def depends(v, subject):
    return has(v, lambda x: x is subject)


def positive(g, subject):
    """g holds only if something computed from the subject equals a given non-empty constant"""
    if g.op == "lit":
        return g.a[1] == "=" and depends(g.a[0], subject) and (
            (isinstance(g.a[2], str) and g.a[2] != "") or g.a[0].op in ("elem", "char", "head", "index", "nth", "chhead"))
    if g.op == "and":
        return any(positive(x, subject) for x in g.a)
    if g.op == "or":
        return all(positive(x, subject) for x in g.a)
    return False


def defaults(F, st, v, subject, g=TRUE):
    """leaves of v that owe nothing to the subject although a state of st reaches them"""
    out = []
    for h, x in alts(v):
        k = AND([g, h])
        if x.op == "adt":
            ty = F.types[x.a[0]]
            p = ty.get("path") or ""
            fs = ty["v"][x.a[1]]["f"]
            if (p == OPTION and x.a[1] == 1) or (p.startswith("ikal::") and fs and not p.endswith("::Recur")):
                for n, f in enumerate(fs):
                    fk = kind(F, f[1]) if p != OPTION else "plain"
                    if fk == "plain":
                        out += defaults(F, st, x.a[2 + n], subject, k)
                continue
        if x.op == "rep":
            x = mk("vec", mk("all", x))
        if x.op == "vec":
            if not x.a and feasible(st, k) is True:
                out.append((k, x))
            for part in x.a:
                if part.op == "one":
                    out += defaults(F, st, part.a[0], subject, k)
                elif part.op == "all":
                    y = part.a[0]
                    if y.op == "rep":
                        if not depends(y.a[1], subject):
                            if feasible(st, k) is True:
                                out.append((k, y))
                        else:
                            out += empties(F, st, y, k)
                    elif y.op == "phi":
                        out += defaults(F, st, y, subject, k)
            continue
        if depends(x, subject) or positive(k, subject):
            continue
        if feasible(st, k) is True:
            out.append((k, x))
    return out


def empties(F, st, seq, g):
    """ways a part of a sequence adds nothing"""
    out = []
    if seq.op == "before":
        out.append((g, seq))
    elif seq.op == "rep":
        for h, x in alts(seq.a[2]):
            k = AND([g, h])
            if x.op == "vec" and not x.a and feasible(st, k) is True:
                out.append((k, mk("skipped", seq.a[0], seq.a[1])))
        out += empties(F, st, seq.a[1], g)
    elif seq.op == "vec":
        for p in seq.a:
            if p.op == "all":
                out += empties(F, st, p.a[0], g)
    elif seq.op == "phi":
        for h, x in alts(seq):
            k = AND([g, h])
            if x.op == "vec" and not x.a:
                if feasible(st, k) is True:
                    out.append((k, x))
            else:
                out += empties(F, st, x, k)
    elif seq.op in ("skip", "take"):
        out.append((g, seq))
    return out
