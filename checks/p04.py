"""Effect analysis: no ambient input, output or hidden state.

Every function of the crate (every instance, closures included) is scanned for the functions it references,
by resolved definition, through the whole monomorphised program: none may reach the file system, the network,
the environment, processes, threads, clocks, random sources or standard streams, iterate a randomly ordered
collection, or read or write static data with interior mutability. The local time zone (chrono::Local's offset
lookups) is the one ambient input the property allows."""
import re

RULE = "no function of the crate references an effectful definition (one obligation per function and per static)"
FLOOR = 500

DENY = [
    (r"^std::fs::", "file system"),
    (r"^std::(io|net|env|process|time|thread|backtrace)::", "ambient input or output"),
    (r"^std::(io|env|time)$", "ambient input or output"),
    (r"^std::os::", "operating system"),
    (r"^std::sys::", "operating system"),
    (r"^std::hash::random::", "random hash seed"),
    (r"^(core|std)::time::Instant::|SystemTime::", "clock"),
    (r"^std::collections::hash::(map|set)::.*::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|retain|next|fmt|intersection|union|difference|symmetric_difference|extract_if)\b", "randomly ordered iteration"),
    (r"std::collections::hash::(map|set)::.* as core::(fmt::Debug|iter::traits::collect::IntoIterator)", "randomly ordered iteration"),
    (r"(vec::Vec|string::String|VecDeque|LinkedList)[<>: ].*::(extend|from_iter)::<.*hash::(map|set)::Hash(Map|Set)", "randomly ordered iteration"),
    (r"^chrono::.*(Local|Utc)::(now|today)\b", "clock"),
    (r"^chrono::.*Local::now", "clock"),
    (r"^(core::ptr::|core::intrinsics::)volatile", "ambient memory"),
    (r"^(libc|getrandom|rand|rand_core|fastrand)::", "system call or random source"),
    (r"^alloc::boxed::.*::leak$", "leaked state"),
    (r"OnceLock<.*>::(set|take|get_mut|replace)\b", "state kept between calls"),
    (r"^core::sync::atomic::Atomic", "state kept between calls"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
# the standard streams and threads used by the panic machinery are reached only through core::panicking
SHARED = re.compile(r"(Mutex|RwLock|Atomic|UnsafeCell|RefCell|::Cell<|OnceCell|OnceLock|Condvar|mpsc)")


def refs(body):
    out = []
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], int):
                out.append(x["fn"])
            if "mutstatic" in x:
                out.append(("static", x.get("static")))
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    return out


def bad(path):
    for rx, why in DENY:
        if rx.search(path):
            return why
    return None


def run(ctx):
    F = ctx.F
    sites = 0
    allowed_static = set()
    for s in F.statics:
        t = F.types[s["ty"]]
        lazy = (t.get("path") or "").endswith(("LazyLock", "lazy_lock::LazyLock"))
        inner_shared = lazy and SHARED.search(t["s"].split("<", 1)[1]) is not None
        ok = not s["mut"] and (s["freeze"] or (lazy and not inner_shared) or once_without_input(F, s, t))
        if ok:
            allowed_static.add(s["path"])
        ctx.ob("static %s" % s["path"], ok, "type %s, %s" % (t["s"], "static mut" if s["mut"] else "interior mutability"))
    for i, f in enumerate(F.fns):
        if f["krate"] not in ("ikal", "ikal_witness") or not f.get("body"):
            continue
        ctx.analysed.append(f["name"])
        ctx.blocks += len(f["body"]["blocks"])
        hits = {}
        for r in refs(f["body"]):
            sites += 1
            if isinstance(r, tuple):
                if r[1] not in allowed_static:
                    hits["static " + str(r[1])] = "state kept between calls"
                continue
            g = F.fns[r]
            if g["krate"] == "ikal":
                continue
            why = bad(g["path"]) or bad(g["name"])
            if why and not g["path"].startswith("core::panicking"):
                hits[g["path"]] = why
        if not hits:
            ctx.ob("%s|no effect" % f["name"], True, "%d references" % len(refs(f["body"])))
        for p, why in hits.items():
            ctx.ob("%s|%s" % (f["path"], p), False, "%s: %s calls %s at %s" % (why, f["name"], p, f.get("span")))
    ctx.notes["references_examined"] = sites
    ctx.notes["statics"] = len(F.statics)


def once_without_input(F, s, t):
    return False
