"""Facts extraction, function runs, obligations and evidence shared by all checks."""
import fcntl
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import engine as E  # noqa: E402
import policy  # noqa: E402
from terms import *  # noqa: E402,F401,F403

BUILD = os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver", "debug", "ikal-facts")
REPO = "/repo"


class Broken(Exception):
    """the analysed tree does not build or the machinery failed"""


def sh(cmd, cwd, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def base_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    return env


def build_driver():
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], os.path.join(VERIF, "driver"), env)
    if rc:
        raise Broken("driver build failed:\n" + out[-3000:])


def extract():
    """type-check /repo with the driver and write the facts file (one extraction at a time)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return extract_now()


def extract_now():
    build_driver()
    env = base_env()
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"], VERIF, env)
    env["LD_LIBRARY_PATH"] = root.strip() + "/lib"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "harness")
    env["RUSTC_WRAPPER"] = DRIVER
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off"
    env["IKAL_FACTS_CRATE"] = "ikal_witness"
    out_path = os.path.join(BUILD, "facts.%d.json" % os.getpid())
    env["IKAL_FACTS_OUT"] = out_path
    os.utime(os.path.join(VERIF, "harness", "src", "lib.rs"))
    rc, out = sh(["cargo", "+nightly", "check", "--offline"], os.path.join(VERIF, "harness"), env)
    if rc or not os.path.exists(out_path):
        raise Broken("type-checking /repo failed:\n" + out[-4000:])
    return out_path


class Res:
    """summary of one analysed function"""

    def __init__(self, en, fnid, st, value):
        self.en, self.fnid, self.st, self.value = en, fnid, st, value
        self.events = en.events
        self.loops = en.loops


class Ctx:
    def __init__(self, prop, tier, facts_path):
        self.prop, self.tier = prop, tier
        self.F = E.Facts(facts_path)
        self.t0 = time.time()
        self.cache = {}
        self.obs = []          # (key, ok, detail)
        self.undecided = []    # (what, why)
        self.analysed = []
        self.blocks = 0
        self.notes = {}
        self.by_path = {}
        for i, f in enumerate(self.F.fns):
            self.by_path.setdefault(f["path"], []).append(i)

    # -- function lookup -------------------------------------------------
    def fns(self, path):
        """ids of the analysed instances of a path"""
        return [i for i in self.by_path.get(path, []) if self.F.fns[i].get("body")]

    def fn(self, path):
        ids = self.fns(path)
        if not ids:
            raise Missing(path)
        return ids[0]

    def impl(self, method, self_ty):
        """ids of trait method implementations for a self type printed as self_ty"""
        out = []
        for i, f in enumerate(self.F.fns):
            if f.get("body") and f.get("trait") == method and f.get("self_ty") is not None:
                if self.F.types[f["self_ty"]]["s"] == self_ty:
                    out.append(i)
        return out

    def ty(self, i):
        return self.F.types[i]

    # -- runs --------------------------------------------------------------
    def args(self, fnid, names=None):
        b = self.F.fns[fnid]["body"]
        return [arg(self.F, k, b["locals"][k + 1]) for k in range(b["argc"])]

    def run(self, fnid, args=None, opaque=None, key=None, st=None):
        k = (fnid, key if key is not None else (tuple(args) if args is not None else None))
        if k in self.cache:
            return self.cache[k]
        en = E.Interp(self.F)
        en.is_opaque = opaque or policy.modular(self.F, fnid)
        a = self.args(fnid) if args is None else args
        try:
            st2, v = en.run(fnid, a, st) if st is not None else en.run(fnid, a)
        except E.Unsupported as e:
            raise Undecided("%s: %s" % (self.F.fns[fnid]["name"], str(e)[:200]))
        except (IndexError, KeyError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
            raise Undecided("%s: outside the domain: %s %s" % (self.F.fns[fnid]["name"], type(e).__name__, str(e)[:150]))
        r = Res(en, fnid, st2, v)
        self.blocks += en.nblocks
        self.analysed.append(self.F.fns[fnid]["name"])
        self.cache[k] = r
        return r

    # -- obligations ------------------------------------------------------
    def ob(self, key, ok, detail=""):
        self.obs.append((key, bool(ok), detail))
        return ok

    def undec(self, what, why):
        self.undecided.append((what, str(why)[:300]))


class Undecided(Exception):
    pass


class Missing(Undecided):
    pass


def arg(F, k, ty):
    return E.typed(mk("sym", ("arg", k, F.types[ty]["s"])), ty)


def where(F, fnid):
    f = F.fns[fnid]
    return "%s (%s)" % (f["path"], f.get("span", "?"))
