"""C17: what the library computes depends on nothing but its inputs. No code of the library reads a clock, random numbers,
the environment, files, the network or the identity of a thread, keeps mutable state outside its objects, iterates over
randomly ordered containers, or turns addresses into results; the only machine property it reads is the number of
threads.
Method: effect analysis over MIR: every call made by any function of the library (Rust API and C API, with and without
threads) is classified by callee and type arguments, every static is classified by mutability of its type, every
pointer-to-integer conversion is traced to its uses."""
import re
from util import *
import cg

# effects by callee path prefix (paths as rustc prints them, generic arguments stripped)
BAN = [
    (r"(std::time|std::sys.*::time|core::time::.*now)", "reads the clock"),
    (r"std::env::", "reads the environment"),
    (r"std::fs::|std::path::.*(exists|metadata|canonicalize|read_)|std::os::.*::fs", "uses the file system"),
    (r"std::net::|std::os::unix::net", "uses the network"),
    (r"std::process::", "uses the process"),
    (r"std::io::stdio::|std::io::stdin|std::io::(stdout|stderr|_print|_eprint)", "uses standard input or output"),
    (r"std::thread::(current|.*::id$|functions::current|.*ThreadId)", "depends on the identity of the running thread"),
    (r"std::thread::(functions::)?(sleep|park|yield_now)|std::thread::local::LocalKey", "keeps state per thread or depends on scheduling"),
    (r"std::hash::random::RandomState|std::random|rand::|rand_core::|getrandom|fastrand", "uses random numbers"),
    (r"core::sync::atomic::", "shares mutable state through an atomic"),
    (r"std::ptr::addr|core::ptr::.*::(addr|expose_provenance)$|core::ptr::.*expose_provenance", "uses an address as a number"),
]
UNORDERED = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|into_iter|retain|extract_if|fmt)$")
CELL = re.compile(r"\b(Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceLock|OnceCell|LazyCell|LazyLock|Lazy|ThreadLocal|ReentrantLock|Condvar)\b")


def check(c):
    c.floors = {"functions_scanned": 150, "calls": 1000}
    c.rule("no call of a library function is to a source of outside state; no static is mutable; no randomly seeded container is iterated")
    c.assumptions += ["standard-library arithmetic, collections and the thread pool are deterministic functions of what they are given, up to the order of floating-point sums over threads",
                      "user callbacks are outside the library"]
    for cfg, crate in (("ffi", "imagequant"), ("ffi", "imagequant_sys"), ("nothreads", "imagequant"), ("all", "imagequant")):
        p = c.prog(cfg, crate)
        scan(c, p, cfg)


def scan(c, p, cfg):
    for k in sorted(p.fns):
        if not cg.is_local(p, k):
            continue
        f = p.fns[k]
        if " as core::fmt::" in k:
            continue
        c.count("functions_scanned")
        c.fns.add(k)
        if f["krate"] == "imagequant" and exposes(f):
            c.violation("%s [%s]" % (c.loc(p, k), cfg), "turns an address into a number", key="%s address" % norm(k))
        for ck, ce, bi in cg.callees_of(p, k):
            if ce is None or cg.is_local(p, ck):
                continue
            c.count("calls")
            c.obligation()
            n = norm(ce["p"])
            for rx, why in BAN:
                if re.match(rx, n):
                    if "atomic" in why and not static_atomic(p):
                        continue
                    c.violation("%s [%s]" % (c.loc(p, k), cfg), "calls %s: %s" % (n, why), key="%s %s" % (norm(k), n))
            if UNORDERED.search(n) or n == "core::iter::traits::collect::IntoIterator::into_iter":
                g = [p.ty(x)["s"] if isinstance(x, int) else str(x) for x in ce.get("g", [])]
                if any("RandomState" in x and "hash::" in x for x in g):
                    c.violation("%s [%s]" % (c.loc(p, k), cfg), "iterates over a container with randomly seeded order (%s)" % n, key="%s unordered" % norm(k))
    for s in p.f["consts"]:
        if not s.get("static"):
            continue
        c.count("statics")
        c.obligation()
        t = s["ty"]
        if s["mutable"] or s["tls"] or not s["freeze"] or CELL.search(t):
            if re.match(r"(std::sync::(lazy_lock::)?LazyLock|once_cell::sync::Lazy)<", t):
                continue        # computed once from nothing
            if re.search(r"\b(OnceLock|OnceCell)<", t) and not s["mutable"] and not s["tls"] and pure_once(p):
                continue
            c.violation("%s %s [%s]" % (s["span"].split(":")[0] if isinstance(s["span"], str) else s["span"], s["path"], cfg), "static of type %s: state shared by all objects of the process" % t, key="static " + s["path"])


def exposes(f):
    def has(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == "cast" and isinstance(x[1], str) and "ExposeProvenance" in x[1]:
                return True
            return any(has(y) for y in x if isinstance(y, (list, dict)))
        return isinstance(x, dict) and any(has(y) for y in x.values() if isinstance(y, (list, dict)))
    return any(has(b["s"]) for b in f["blocks"])


def static_atomic(p):
    return any(s.get("static") and "Atomic" in s["ty"] for s in p.f["consts"])


def pure_once(p):
    """every initialiser given to a once-cell captures nothing"""
    for k in p.fns:
        if not cg.is_local(p, k):
            continue
        for ck, ce, bi in cg.callees_of(p, k):
            if ce is not None and re.search(r"Once(Lock|Cell)::(set|get_or_init|get_or_try_init|get_mut|take)$", norm(ce["p"])):
                if norm(ce["p"]).endswith("get_or_init"):
                    g = [p.ty(x) for x in ce.get("g", []) if isinstance(x, int)]
                    cl = [t for t in g if t["k"] == "closure"]
                    if cl and all(not t.get("up", t.get("f")) for t in cl):
                        continue
                return False
    return True
