"""C20: buffered log output is flushed before anything about logging changes hands. Replacing the log or the flush
callback first calls the flush callback in force, exactly once; destroying attributes calls it exactly once; messages go
to the callback set last, with the attributes they are about.
Method: typestate over MIR: calls through the attributes' callback objects are events; the setters, the destructor and a
call that logs are interpreted on every path for attributes with and without callbacks."""
import re
from util import *
from ctx import symargs
import cg
import remapm as M

A = "imagequant::attr::Attributes"
LOG, FLUSH, QUAL = A + "::set_log_callback", A + "::set_log_flush_callback", A + "::set_quality"


def kind(s):
    """which callback a type is: log / flush / None"""
    m = re.search(r"dyn .*?Fn\(([^)]*)\)( -> [^+]*)?", s)
    if not m or A not in m.group(1):
        return None
    return "log" if "str" in m.group(1) else "flush"


def fields(p, ty):
    out = {}
    for i, f in enumerate(p.ty(ty)["v"][0]["f"]):
        k = kind(p.ty(f[1])["s"])
        if k and p.ty(f[1]).get("name") == "core::option::Option":
            out[k] = i
    return out


def source(e, st, v):
    """identity of the callback object called: field of the attributes it came from, or the value set"""
    seen = set()
    for x in subterms(v):
        if x.op == "agg" and str(x.a[0]).startswith("closure:") or x.op == "sym" and not str(x.a[0]).startswith("arg0"):
            seen.add(x)
    return seen


def check(c):
    c.floors = {"scenarios": 8}
    c.rule("setter: [flush callback in force is called once] then [new callback stored]; destructor: flush once; message: callback stored last, same attributes")
    c.assumptions += ["user callbacks do not change the attributes (they get a shared reference)"]
    p = c.prog("ffi", "imagequant")
    ty = next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == A), None)
    if ty is None:
        c.violation(A, "type not found: the guarantee has lost its implementation")
        return
    F = fields(p, ty)
    if set(F) != {"log", "flush"}:
        c.undecide("callback fields of the attributes were not identified")
        c.floors = {}
        return
    for n in (LOG, FLUSH, QUAL):
        if find_fn(p, n) is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return

    def events(e, st, name, ce, args, argtys, dty):
        if not name.startswith("dyn:") or ce.get("k") not in ("virtual", "unres"):
            return NotImplemented
        g = ce.get("g") or []
        k = None
        if g and isinstance(g[0], int):
            k = kind(p.ty(g[0])["s"])
        if k is None:
            return NotImplemented
        st = st.copy()
        who = "old" if old_cb(args[0]) else "new"
        at = args[1] if len(args) > 1 else None
        st.ghost["ev"] = st.ghost.get("ev", ()) + ((k, who, at, getattr(e, "callspan", "")),)
        return [(st, UNIT)]

    def old_cb(f):
        return any(x.op == "deref" and x.a[0].op == "sym" and str(x.a[0].a[0]) == "arg0" for x in subterms(f))

    def engine():
        e = c.engine(p, hooks={"*opaque": events})
        e.RETCAP = 24
        e.DROPS = True
        return e

    def stored(e, st, self_, k):
        root, path, _ = e.target(st, self_)
        return e.rd(st, root, tuple(path) + (("f", 0, F[k]),))

    def init(e, self_, cfg):
        st = State()
        for k in ("log", "flush"):
            v = stored(e, st, self_, k)
            st.disc[v] = 1 if k in cfg else 0
        return st

    for setter, mine in ((LOG, "log"), (FLUSH, "flush")):
        k = find_fn(p, setter)
        short = setter.split("::")[-1]
        for cfg in ((), ("log",), ("flush",), ("log", "flush")):
            c.count("scenarios")
            e = engine()
            a = symargs(p, k)
            st = init(e, a[0], cfg)
            before = {x: stored(e, st, a[0], x) for x in F}
            early = []

            def ow(s, root, path, val):
                r0, p0, _ = e.target(s, a[0])
                if root is r0 and tuple(path)[:len(p0) + 1] == tuple(p0) + (("f", 0, F[mine]),) and not (val.op == "sym" and str(val.a[0]).startswith("havoc")):
                    s.ghost["stored_at"] = len(s.ghost.get("ev", ()))
            e.obs_write = ow
            try:
                rs = e.run(k, a, st)
            except Giveup as g:
                c.undecide("%s: %s" % (setter, g))
                continue
            for s, r in rs:
                c.obligation()
                ev = s.ghost.get("ev", ())
                fl = [x for x in ev if x[0] == "flush"]
                desc = "with %s set" % (" and ".join(cfg) if cfg else "no callback")
                if any(x[0] == "log" for x in ev) and "log" not in cfg:
                    c.violation(c.loc(p, k), "%s: sends a message %s" % (short, desc), key=short + " message")
                if "flush" in cfg:
                    old = [x for x in fl if x[1] == "old"]
                    at = s.ghost.get("stored_at")
                    if not old:
                        c.violation(c.loc(p, k), "%s: replaces a callback without calling the flush callback in force (%s)" % (short, desc), key=short + " no flush")
                    elif len(fl) > 1:
                        c.violation(c.loc(p, k), "%s: flushes %d times (%s)" % (short, len(fl), desc), key=short + " flush count")
                    elif at is not None and at < ev.index(old[0]) + 1:
                        c.violation(c.loc(p, k), "%s: flushes only after the new callback is in force" % short, key=short + " flush late")
                elif fl:
                    c.violation(c.loc(p, k), "%s: calls a flush callback %s" % (short, desc), key=short + " spurious flush")
                now = {x: stored(e, s, a[0], x) for x in F}
                for x in F:
                    if x == mine:
                        if now[x] is before[x] or now[x].op == "agg" and now[x].a[1] == 0 or s.disc.get(now[x]) == 0:
                            c.violation(c.loc(p, k), "%s: the callback is not stored (%s)" % (short, desc), key=short + " not stored")
                    elif now[x] is not before[x] and not same_value(e, s, now[x], before[x]) and now[x].op == "agg":
                        c.violation(c.loc(p, k), "%s: changes the other callback (%s)" % (short, desc), key=short + " changes other")
                # a message sent afterwards
                q = find_fn(p, QUAL)
                qa = symargs(p, q, tag="q")
                qa = [a[0], cint(0), cint(10)]
                s0 = s.copy()
                s0.ghost.pop("ev", None)
                try:
                    for s2, r2 in e.run(q, qa, s0):
                        m = [x for x in s2.ghost.get("ev", ()) if x[0] == "log"]
                        has = mine == "log" or "log" in cfg
                        c.obligation()
                        if m and not has:
                            c.violation(c.loc(p, q), "a message is sent although no log callback is set", key="message without callback")
                        for x in m:
                            if mine == "log" and x[1] == "old":
                                c.violation(c.loc(p, k), "a message sent after %s goes to the replaced callback" % short, key=short + " stale")
                            c.count("messages")
                            if x[2] is not None and x[2].op in ("ref", "sym"):
                                r0, p0, _ = e.target(s2, a[0])
                                r1, p1, _ = e.target(s2, x[2])
                                if r1 is not r0:
                                    c.violation(c.loc(p, q), "a message is not sent with the attributes it is about", key="message attributes")
                except Giveup as g:
                    c.undecide("message after %s: %s" % (setter, g))
            c.done(e)
    # destruction
    for cfg in ((), ("flush",), ("log", "flush"), ("log",)):
        c.count("scenarios")
        e = engine()
        y = mk("sym", "arg0", "dropped attributes")
        y.ty = next((t for t, d in enumerate(p.types) if d["k"] == "ref" and d["mut"] and M.deref_ty(p, t).get("name") == A), None)
        st = init(e, y, cfg)
        root, path, _ = e.target(st, y)
        try:
            rs = e.drop_place(st, root, path, ty, "d")
        except Giveup as g:
            c.undecide("destruction: %s" % g)
            continue
        for s in rs:
            c.obligation()
            fl = [x for x in s.ghost.get("ev", ()) if x[0] == "flush"]
            n = len(fl)
            want = 1 if "flush" in cfg else 0
            if n != want:
                c.violation(A + " (drop)", "destroying attributes %s calls the flush callback %d times instead of %d" % ("with %s set" % " and ".join(cfg) if cfg else "without callbacks", n, want), key="drop flush %d" % want)
        c.done(e)
