"""C05: a progress callback that asks to stop makes the running operation fail with Aborted, whatever phase it is in;
nothing else makes an operation fail with Aborted; an operation that succeeds has consulted the callback.
Method: path-sensitive abstract interpretation of every public operation from which a progress callback can be
reached (call graph over MIR). The callback is a nondeterministic symbol with the two outcomes Continue and Break; a
typestate flag records that it answered Break. Functions that cannot reach the callback are opaque. Every return is
then compared with the flag."""
from util import *
from ctx import symargs
import cg

CB = "Fn(f32) -> imagequant::attr::ControlFlow"
A, H, Q = "imagequant::attr::Attributes::", "imagequant::hist::Histogram::", "imagequant::quant::QuantizationResult::"
# operation -> must an Ok result have consulted the callback (object that carries it)
RUST = [(A + "quantize", 0), (H + "add_image", 1), (H + "quantize", 1), (Q + "remapped", 0), (Q + "remap_into_vec", 0), (Q + "remap_into", 0)]
CAPI = [("imagequant_sys::" + n, i) for n, i in (("liq_image_quantize", 1), ("liq_quantize_image", 0), ("liq_histogram_add_image", 1), ("liq_histogram_quantize", 1),
                                                 ("liq_write_remapped_image", 0), ("liq_write_remapped_image_rows", 0))]


def gtypes(p, ce):
    return [p.ty(g)["s"] if isinstance(g, int) else str(g) for g in ce.get("g", [])]


def is_cb(p, ce):
    return ce.get("k") in ("virtual", "unres") and any(CB in s for s in gtypes(p, ce)[:1])


def check(c):
    c.floors = {"operations": 12, "callback_sites": 4}
    c.rule("callback answered Break => the operation returns Err(Aborted); Err(Aborted) => it answered Break; Ok with a callback set => it was called")
    c.assumptions += ["tasks spawned on the thread pool are analysed as if run in place at the spawn; none of them calls the callback",
                      "panics of callbacks are outside the property"]
    for cfg, crate, ops in (("ffi", "imagequant", RUST), ("ffi", "imagequant_sys", CAPI), ("nothreads", "imagequant", RUST)):
        p = c.prog(cfg, crate)
        run_ops(c, p, cfg, ops)


def run_ops(c, p, cfg, ops):
    sites = set()

    def pred(ce, k, bi):
        if is_cb(p, ce):
            sites.add((k, bi))
            return True
        return False
    keep = cg.reachers(p, pred)
    c.count("callback_sites", len(sites))
    ctl = next((i for i, t in enumerate(p.types) if t["k"] == "enum" and t.get("name") == "imagequant::attr::ControlFlow"), None)
    if ctl is None:
        c.violation("imagequant::attr::ControlFlow", "type not found: the guarantee has lost its implementation")
        return
    names = [v["n"] for v in p.ty(ctl)["v"]]
    memo = {}
    for path, _ in ops:
        key = find_fn(p, path)
        if key is None:
            c.violation(path, "function not found: the guarantee has lost its implementation", key="missing " + path)
            continue
        c.count("operations")
        where = "%s [%s]" % (c.loc(p, key), cfg)
        if key not in keep:
            c.violation(where, "no progress callback can be reached from this operation: it cannot be aborted", key="%s unreachable" % path)
            continue

        try:
            rets = analyse(c, p, key, keep, names, ctl, memo, "#" + path)
        except Giveup as g:
            c.undecide("%s: %s" % (path, g))
            continue
        is_opt = p.ty(p.fns[key]["locals"][0])["s"].startswith("core::option::Option")
        for st, r in rets:
            c.obligation()
            c.count("paths")
            o = outcome(p, st, r)
            broke = st.ghost.get("broke")
            if broke:
                if o is None:
                    c.undecide("%s: result after an abort request is not determined" % path)
                elif o[0] == "ok":
                    c.violation(where, "succeeds although the progress callback (called at %s) asked to abort" % broke, key="%s ignores-break" % path)
                elif o[1] not in ("Aborted", None) and not is_opt:
                    c.violation(where, "fails with %s instead of Aborted after the progress callback (called at %s) asked to abort" % (o[1], broke), key="%s wrong-error" % path)
            elif o is not None and o[0] == "err" and o[1] == "Aborted":
                c.violation(where, "fails with Aborted although no progress callback asked to abort", key="%s spurious-abort" % path)
            elif o is not None and o[0] == "ok" and not st.ghost.get("called") and st.ghost.get("has"):
                c.violation(where, "succeeds without ever calling the progress callback that is set", key="%s never-called" % path)


def analyse(c, p, key, keep, names, ctl, memo, tag):
    def hook(e, st, name, ce, args, argtys, dty):
        if not (name.startswith("dyn:") and is_cb(p, ce)):
            return NotImplemented
        out = []
        for i, n in enumerate(names):
            s = st.copy()
            s.ghost["called"] = 1
            if n == "Break":
                s.ghost["broke"] = getattr(e, "callspan", "") or "?"
            v = mk("agg", "imagequant::attr::ControlFlow", i, ())
            v.ty = ctl
            out.append((s, v))
        return out
    hooks = {"*opaque": hook}
    for k in keep:
        f = p.fns[k]
        if k != key and cg.is_local(p, k) and not f["closure"] and f["path"] == k and p.ty(f["locals"][0])["s"].endswith(", imagequant::error::Error>"):
            hooks[norm(f["path"])] = summary_hook(c, p, k, keep, names, ctl, memo)
    e = c.engine(p, hooks=hooks, opaque=cg.pruned(p, keep))
    e.RETCAP = 24
    args = symargs(p, key, tag=tag)
    st = State()
    for a in args:
        opt = callback_option(e, st, a)
        if opt is not None:
            st.disc[opt] = 1        # a callback is set on the object that was given
            st.ghost["has"] = 1
    rets = e.run(key, args, st)
    c.done(e)
    return rets


def callback_option(e, st, a):
    """the field of the object behind argument `a` that holds the callback"""
    t = e.p.ty(a.ty)
    if t["k"] != "ref":
        return None
    t = e.p.ty(t["e"])
    if t["k"] != "struct" or t["name"] not in ("imagequant::attr::Attributes", "imagequant::quant::QuantizationResult"):
        return None
    for i, f in enumerate(t["v"][0]["f"]):
        ft = e.p.ty(f[1])
        if ft["k"] == "enum" and ft["name"] == "core::option::Option" and CB in ft["s"]:
            root, path, _ = e.target(st, a)
            v = e.proj(st, e.rd(st, root, path), ("f", 0, i))
            if v.ty is None:
                v.ty = f[1]
            return v
    return None


INLINED = [0]


def summary_hook(c, p, k, keep, names, ctl, memo):
    """use a function's own analysis (arguments arbitrary) at its call sites, when that already shows it obeys the rule"""
    def h(e, st, ce, args, argtys, dty, fpath):
        if k in memo and memo[k] is None:
            INLINED[0] += 1
            return NotImplemented
        if k not in memo:
            memo[k] = None
            n0 = INLINED[0]
            try:
                rs = analyse(c, p, k, keep, names, ctl, memo, "#s")
            except Giveup:
                return NotImplemented
            sm = set()
            nested = INLINED[0] > n0
            for s2, r2 in rs:
                o = outcome(p, s2, r2)
                b = s2.ghost.get("broke")
                if not nested and ((b and o != ("err", "Aborted")) or (not b and o == ("err", "Aborted"))):
                    # on its own it does not obey the rule: look at it again with its caller's arguments; one such level
                    # of context, then the summary found in that context is used
                    INLINED[0] += 1
                    return NotImplemented
                called = s2.ghost.get("called")
                has = False
                sm.add((b, called, bool(has), "any") if o is None else (b, called, bool(has), o[0], o[1] if o[0] == "err" else None))
            memo[k] = sm
        out = []
        for b, called, has, kind, *err in sorted(memo[k], key=repr):
            err = err[0] if err else None
            s = st.copy()
            for a, t in zip(args, argtys):
                e.havoc(s, a, t)
            if called:
                s.ghost["called"] = 1
            if b:
                s.ghost["broke"] = b
            if has:
                s.ghost["has"] = 1
            if kind == "any":
                out.append((s, e.fresh(s, "any", dty)))
                continue
            if kind == "err":
                et = next(i for i, t in enumerate(p.types) if t["k"] == "enum" and t.get("name") == "imagequant::error::Error")
                vi = next((i for i, x in enumerate(p.ty(et)["v"]) if x["n"] == err), None)
                if vi is not None:
                    v = mk("agg", "imagequant::error::Error", vi, ())
                else:
                    v = e.fresh(s, "err", et)
                v.ty = et
            else:
                ft = p.fields(dty, 0)
                v = e.fresh(s, "ok", ft[0] if ft else None)
            r = mk("agg", "core::result::Result", 0 if kind == "ok" else 1, (v,))
            r.ty = dty
            out.append((s, r))
        return out
    return h
