"""Which functions are analysed on their own and stay uninterpreted at their call sites."""


def mentions(F, ty, pred, d=0, seen=None):
    seen = set() if seen is None else seen
    if ty is None or ty in seen or d > 6:
        return False
    seen.add(ty)
    t = F.types[ty]
    if pred(t):
        return True
    for a in (t.get("args") or []):
        if isinstance(a, int) and mentions(F, a, pred, d + 1, seen):
            return True
    if t["k"] == "tuple":
        return any(mentions(F, a, pred, d + 1, seen) for a in t["f"])
    if t.get("to") is not None:
        return mentions(F, t["to"], pred, d + 1, seen)
    return False


def domain_value(t):
    p = t.get("path") or ""
    return t["k"] == "adt" and ((p.startswith("ikal::") and not p.startswith("ikal::errors")) or p.startswith("chrono::"))


def is_component(F, ty):
    t = F.types[ty]
    return t["k"] == "adt" and (t.get("path") or "").startswith("ikal::components::")


def modular(F, root=None):
    memo = {}

    def decide(f):
        if f["krate"] != "ikal" or f.get("dk") == "Closure" or f.get("body") is None:
            return False
        if root is not None and f["path"] == F.fns[root]["path"]:
            return False
        if "{closure" in f["path"]:
            return False
        if f.get("vis") == "private" and not f.get("trait"):
            return False        # a helper of its module, read where it is used
        if f["path"].startswith("ikal::parser::"):
            if f.get("out") is None or len(f["ins"]) != 1 or F.types[f["ins"][0]]["s"].split()[-1].lstrip("&") != "str":
                return False
            t = F.types[f["out"]]
            if t["k"] == "adt" and t["path"] == "core::result::Result":
                return mentions(F, t["args"][0], domain_value)
            return False
        tr = f.get("trait") or ""
        if tr == "core::convert::TryFrom::try_from" and f.get("self_ty") is not None:
            return is_component(F, f["self_ty"])
        if tr == "core::str::traits::FromStr::from_str" and f.get("self_ty") is not None:
            return is_component(F, f["self_ty"])
        if tr == "ikal::ser::Serialize::ical" and f.get("self_ty") is not None:
            return is_component(F, f["self_ty"])
        return False

    def fn(f):
        k = id(f)
        if k not in memo:
            memo[k] = decide(f)
        return memo[k]
    return fn
