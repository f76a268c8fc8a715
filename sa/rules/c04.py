"""C04: every C function performs the Rust operation it stands for on the objects and arguments it was given, and
reports that operation's outcome.
Method: path-sensitive interprocedural abstract interpretation of each exported function with the public Rust operations
opaque: the analysis records, per path, which operations ran and with which argument terms, and how the returned term
depends on the operation's result. Compared with a table of the documented correspondence. Callback adapters (closures
handed to the library) are analysed the same way."""
from capi import *

A = "imagequant::attr::Attributes::"
Q = "imagequant::quant::QuantizationResult::"
H = "imagequant::hist::Histogram::"
I = "imagequant::image::Image::"
S = "imagequant_sys::"

O = lambda i: ("obj", i)        # the object inside handle parameter i
V = lambda i: ("int", i)        # numerically equal to parameter i
B = lambda i: ("bool", i)       # parameter i != 0
X = lambda i: ("same", i)       # parameter i itself
T = lambda i: ("taken", i)      # the value moved out of handle i
U = ("any",)

# C function: (operation, arguments, how the result is reported, must every path with valid handles run it)
TABLE = {
    "liq_set_max_colors": (A + "set_max_colors", [O(0), V(1)], "result", False),
    "liq_get_max_colors": (A + "max_colors", [O(0)], "value", True),
    "liq_set_speed": (A + "set_speed", [O(0), V(1)], "result", False),
    "liq_get_speed": (A + "speed", [O(0)], "value", True),
    "liq_set_min_posterization": (A + "set_min_posterization", [O(0), V(1)], "result", False),
    "liq_get_min_posterization": (A + "min_posterization", [O(0)], "value", True),
    "liq_set_quality": (A + "set_quality", [O(0), V(1), V(2)], "result", False),
    "liq_get_min_quality": (A + "quality", [O(0)], ("field", 0), True),
    "liq_get_max_quality": (A + "quality", [O(0)], ("field", 1), True),
    "liq_set_last_index_transparent": (A + "set_last_index_transparent", [O(0), B(1)], "void", True),
    "liq_attr_copy": ("<imagequant::attr::Attributes as core::clone::Clone>::clone", [O(0)], "box", True),
    "liq_attr_create": (A + "new", [], "box", True),
    "liq_attr_create_with_allocator": (A + "new", [], "box", True),
    "liq_histogram_create": (H + "new", [O(0)], "box", True),
    "liq_quantize_image": (A + "quantize", [O(0), O(1)], "boxresult", True),
    "liq_image_quantize": (A + "quantize", [O(1), O(0)], ("out", 2), True),
    "liq_histogram_quantize": (H + "quantize", [O(0), O(1)], ("out", 2), True),
    "liq_histogram_add_image": (H + "add_image", [O(0), O(1), O(2)], "result", True),
    "liq_histogram_add_colors": (H + "add_colors", [O(0), ("slice", 2, 3), X(4)], "result", False),
    "liq_histogram_add_fixed_color": (H + "add_fixed_color", [O(0), X(1), X(2)], "result", True),
    "liq_image_add_fixed_color": (I + "add_fixed_color", [O(0), X(1)], "result", True),
    "liq_image_get_width": (I + "width", [O(0)], "value", True),
    "liq_image_get_height": (I + "height", [O(0)], "value", True),
    "liq_image_set_background": (I + "set_background", [O(0), T(1)], "result", True),
    "liq_image_set_importance_map": (I + "set_importance_map", [O(0), U], "result", False),
    "liq_image_set_memory_ownership": ("imagequant::rows::DynamicRows::set_memory_ownership", [O(0), ("flag", 1, 4), ("flag", 1, 8), U], "result", False),
    "liq_image_create_rgba": (I + "new_internal", [O(0), U, V(2), V(3), X(4)], "boxresult", False),
    "liq_image_create_rgba_rows": (I + "new_internal", [O(0), U, V(2), V(3), X(4)], "boxresult", False),
    "liq_image_create_custom": (I + "new_internal", [O(0), U, V(3), V(4), X(5)], "boxresult", False),
    "liq_set_output_gamma": (Q + "set_output_gamma", [O(0), X(1)], "result", True),
    "liq_get_output_gamma": (Q + "output_gamma", [O(0)], "value", True),
    "liq_set_dithering_level": (Q + "set_dithering_level", [O(0), X(1)], "result", True),
    "liq_get_quantization_error": (Q + "quantization_error", [O(0)], "optvalue", True),
    "liq_get_remapping_error": (Q + "remapping_error", [O(0)], "optvalue", True),
    "liq_get_quantization_quality": (Q + "quantization_quality", [O(0)], "optvalue", True),
    "liq_get_remapping_quality": (Q + "remapping_quality", [O(0)], "optvalue", True),
    "liq_get_palette": (Q + "int_palette", [O(0)], "some", True),
    "liq_write_remapped_image": (Q + "write_remapped_image_rows_internal", [O(0), O(1), U], "result", False),
    "liq_write_remapped_image_rows": (Q + "write_remapped_image_rows_internal", [O(0), O(1), U], "result", False),
    "liq_attr_set_progress_callback": (A + "set_progress_callback", [O(0), ("progress", 1, 2)], "void", True),
    "liq_result_set_progress_callback": (Q + "set_progress_callback", [O(0), ("progress", 1, 2)], "void", True),
    "liq_set_log_callback": (A + "set_log_callback", [O(0), ("log", 1, 2)], "void", True),
    "liq_set_log_flush_callback": (A + "set_log_flush_callback", [O(0), ("flush", 1, 2)], "void", True),
}
TARGETS = {t[0] for t in TABLE.values()}
# documented successes that do not need the operation
EXCUSE = {
    "liq_histogram_add_colors": lambda st, args: st.ent_le0(args[3]),       # no entries
}
# a failure of the operation that cannot happen on this path (the length was checked already)
IGNORED_ERR = {"liq_image_set_importance_map"}


def check(c):
    p = c.prog("ffi")
    c.floors = {"functions": len(TABLE), "operation_calls": len(TABLE)}
    c.rule("on every path with valid handles: the documented operation runs once, on the objects and values given, and the returned code/value/object is that operation's result")
    c.assumptions += ["handles are valid (C02 decides the other case)", "pointer arguments have the documented extent"]
    for name in TABLE:
        key = c.anchor(p, S + name)
        if key is not None:
            one(c, p, name, key)
    version(c, p)


def version(c, p):
    pass


def bad_handle(st):
    return any(t.op == "peq" and v is False and any(x.op == "static" for x in subterms(t)) for t, v in st.truth.items()) or \
        any(t.op == "isnull" and v for t, v in st.truth.items())


def samples(p, ty):
    t = p.ty(ty)
    if t["k"] in ("int", "uint"):
        lo, hi = p.int_range(ty)
        return [x for x in (0, 1, 2, 3, 4, 5, 7, 10, 11, 50, 99, 100, 101, 255, 256, 300, 65536, -1, lo, hi) if lo <= x <= hi]
    return []


def one(c, p, name, key):
    op, spec, how, must = TABLE[name]
    where = c.loc(p, key)
    c.count("functions")
    known = op in p.bypath or any(n == op or n.startswith(op + "::<") for n in p.bypath)
    if not known:
        # the private operation behind this function has been renamed: its role cannot be identified
        if op.split("::")[-1] in ("int_palette", "write_remapped_image_rows_internal", "new_internal", "set_memory_ownership"):
            c.undecide("%s: no function %s" % (name, op))
            return
    e = c.engine(p, opaque=lambda n, k: n in TARGETS or heavy(n))
    e.RETCAP = 64
    args = symargs(p, key, tag="#c04")
    fn = p.fns[key]

    def hook(en, st, n, ce, a, at, dty):
        r = en.opaque_default(st, n, ce, a, at, dty)
        for s, v in r:
            if n in TARGETS or n.startswith("imagequant::") or n.startswith("fnptr"):
                s.ghost["calls"] = s.ghost.get("calls", ()) + ((n, tuple(a), v),)
        return r
    e.hooks["*opaque"] = hook
    try:
        rets = e.run(key, args)
    except Giveup as g:
        c.undecide("%s: %s" % (name, g))
        return
    c.done(e)
    hp = dict(handle_params(p, key))
    bad = set()

    def viol(what, k):
        if k not in bad:
            bad.add(k)
            c.violation(where, what, key="%s %s" % (name, k))

    ran = 0
    for st, r in rets:
        if bad_handle(st):
            continue
        calls = st.ghost.get("calls", ())
        mine = [x for x in calls if x[0] == op]
        c.obligation()
        if not mine:
            ok = succeeded(p, e, st, r, how)
            others = [x[0] for x in calls if x[0] in TARGETS and x[0] not in (I + "width", I + "height")]
            unknown = [x[0] for x in calls if x[0] not in TARGETS and x[0].startswith("imagequant::")]
            if name in EXCUSE and EXCUSE[name](st, args):
                continue
            if unknown and not others:
                c.undecide("%s: forwards through %s" % (name, unknown[0]))
                continue
            if ok or must:
                if others:
                    viol("performs %s instead of %s" % (others[0], op), "operation")
                elif ok is not None or must:
                    viol("returns %s without performing %s" % (show(r)[:60], op), "operation")
            continue
        ran += 1
        c.count("operation_calls", len(mine))
        if len(mine) > 1 and how in ("result", "void", "boxresult") or (isinstance(how, tuple) and how[0] == "out" and len(mine) > 1):
            viol("performs %s %d times on one path" % (op, len(mine)), "twice")
        for n, a, v in mine:
            for j, sp in enumerate(spec):
                if j >= len(a):
                    continue
                c.obligation()
                w = argcheck(c, p, e, st, name, fn, args, hp, sp, a[j])
                if w:
                    viol("argument %d of %s: %s" % (j, op, w), "arg%d" % j)
        n, a, v = mine[-1]
        w = retcheck(c, p, e, st, name, fn, args, how, v, r)
        c.obligation()
        if w:
            viol(w, "result")
    if not ran and not bad and not any(u.startswith(name + ":") for u in c.undecided):
        viol("never performs %s" % op, "operation")
    c.samples.append({"function": name, "operation": op, "paths": len(rets), "paths_running_it": ran})


HEAVY = ("imagequant::hist::", "imagequant::quant::", "imagequant::mediancut::", "imagequant::kmeans::", "imagequant::nearest::", "imagequant::remap::", "imagequant::blur::", "imagequant::seacow::SeaCow", "imagequant::seacow::RowBitmap", "imagequant::rows::")


def heavy(n):
    return any(n.startswith(h) for h in HEAVY)


def succeeded(p, e, st, r, how):
    """True: reports success; False: reports failure; None: no status"""
    if how in ("result",) or isinstance(how, tuple) and how[0] == "out":
        o = outcome(p, st, r)
        return None if o is None else o[0] == "ok"
    if how in ("box", "boxresult", "some"):
        o = outcome(p, st, r)
        return None if o is None else o[0] == "ok"
    return None


def sym_of(e, st, args, i):
    return args[i]


def equal_on_samples(p, st, t, want_term, fn, args, f=lambda x: x):
    """None when equal on all admissible samples, else the offending sample text"""
    if t is want_term and f(3) == 3:
        return None
    idx = args.index(want_term)
    ss = samples(p, fn["locals"][idx + 1])
    n = 0
    for x in ss:
        env = {want_term: x}
        if path_holds(st, env) is False:
            continue
        got = ev(t, env)
        if got is None:
            continue
        n += 1
        if got != f(x) or isinstance(got, bool) != isinstance(f(x), bool):
            return "%r is passed for %r" % (got, x)
    if not n:
        if not mentions(t, want_term):
            k = ev(t, {})
            if k is not None:
                return "the constant %r is passed" % k
            for a in args:
                if t is a:
                    return "parameter %d is passed" % args.index(a)
    return None


def argcheck(c, p, e, st, name, fn, args, hp, sp, t):
    k = sp[0]
    if k == "any":
        return None
    if k == "obj":
        r, pth, _ = e.target(st, t)
        if r.op != "D":
            return None
        want = handle_ptr(e, st, args[sp[1]])
        if r.a[0] is not want:
            for i in hp:
                if r.a[0] is handle_ptr(e, st, args[i]):
                    return "the object of parameter %d is used instead of that of parameter %d" % (i, sp[1])
        return None
    if k == "int":
        return equal_on_samples(p, st, t, args[sp[1]], fn, args)
    if k == "bool":
        return equal_on_samples(p, st, t, args[sp[1]], fn, args, lambda x: x != 0)
    if k == "same":
        w = args[sp[1]]
        if t is w or same_value(e, st, t, w):
            return None
        if t.op == "agg" and len(t.a[2]) == 1:
            return argcheck(c, p, e, st, name, fn, args, hp, sp, t.a[2][0])
        if not mentions(t, w):
            return "%s is passed instead of parameter %d" % (show(t)[:60], sp[1])
        if w.ty is not None and p.ty(w.ty)["k"] == "float":
            for x in (0.0, 0.1, 0.25, 0.45455, 0.5, 0.7, 1.0, 2.0, -1.0):
                if p.ty(w.ty)["bits"] == 32:
                    x = f32r(x)
                env = {w: x}
                if path_holds(st, env) is False:
                    continue
                g = ev(t, env)
                if g is not None and g != x:
                    return "%r is passed for %r" % (g, x)
        if t.op == "agg":
            return "parameter %d is altered: %s" % (sp[1], show(t)[:80])
        return None
    if k == "taken":
        h = handle_ptr(e, st, args[sp[1]])
        def base(x):
            while x.op == "fld":
                x = x.a[0]
            return x
        if h is not None and not mentions(t, mk("deref", h)) and not any(x.op == "deref" and base(x.a[0]) is base(args[sp[1]]) for x in subterms(t)):
            return "%s is passed instead of the image of parameter %d" % (show(t)[:60], sp[1])
        return None
    if k == "slice":
        if t.op == "fat":
            q, n = t.a[0], t.a[1]
            if not mentions(q, args[sp[1]]) and q is not args[sp[1]]:
                return "the slice is %s instead of the one at parameter %d" % (show(q)[:60], sp[1])
            return equal_on_samples(p, st, n, args[sp[2]], fn, args)
        return None
    if k == "flag":
        flag = sp[2]
        w = args[sp[1]]
        base = [x for x in subterms(t) if x.op == "fld" or x is w]
        leaf = [x for x in base if mentions(x, w) and not any(y is not x and mentions(y, x) and y in base for y in base)]
        x, ty = w, w.ty
        while ty is not None and p.ty(ty)["k"] == "struct" and len(p.ty(ty)["v"][0]["f"]) == 1:
            x, ty = e.proj(st, x, ("f", 0, 0)), p.ty(ty)["v"][0]["f"][0][1]
        leaf.append(x)
        for v in (4, 8, 12):
            env = {x: v for x in leaf}
            if path_holds(st, env) is False:
                continue
            g = ev(t, env)
            if g is not None and bool(g) != bool(v & flag):
                return "ownership flags %d are passed on as %r for the flag %d" % (v, g, flag)
        return None
    if k in ("progress", "log", "flush"):
        return closure_check(c, p, e, st, name, fn, args, sp, t)
    return None


def closure_check(c, p, e, st, name, fn, args, sp, t):
    """run the adapter: it must call the user's function once with user_info, and translate its verdict"""
    kind, cb, info = sp
    st = st.copy()
    st.ghost["calls"] = ()
    if not (t.op == "agg" and t.a[0].startswith("closure:")) and t.op != "ref":
        c.undecide("%s: adapter of unexpected shape %s" % (name, show(t)[:60]))
        return None
    k = t.a[0][len("closure:"):] if t.op == "agg" else None
    f = p.fns.get(k)
    if f is None:
        c.undecide("%s: adapter not found" % name)
        return None
    params = []
    for i in range(2, f["n"] + 1):
        s = mk("sym", "cbarg%d" % i, name)
        s.ty = f["locals"][i]
        params.append(s)
    if f.get("spread"):
        c.undecide("%s: adapter takes a tuple" % name)
        return None
    try:
        rs = e.call_value(st, t, params, [None] * len(params), f["locals"][0], "cb")
    except Giveup as g:
        c.undecide("%s: %s" % (name, g))
        return None
    for s2, r in rs:
        calls = [x for x in s2.ghost.get("calls", ()) if x[0].startswith("fnptr")]
        c.obligation()
        if not calls:
            if kind == "log" and any(x.op == "call" for x in s2.disc):
                continue    # message with an interior NUL cannot be represented
            if kind == "log":
                continue
            return "the adapter returns without calling the user's callback"
        if len(calls) > 1:
            return "the adapter calls the user's callback %d times" % len(calls)
        n, a, v = calls[0]
        fp = a[0]
        if not (fp is args[cb] or mentions(fp, args[cb])):
            return "the adapter calls %s instead of the callback given" % show(fp)[:50]
        if not any(x is args[info] or mentions(x, args[info]) for x in a[1:]):
            return "the adapter does not pass user_info to the callback"
        if a[-1] is not args[info] and not mentions(a[-1], args[info]):
            return "the adapter does not pass user_info as the last argument"
        if kind == "progress":
            if a[1] is not params[0]:
                x = ev(a[1], {params[0]: 42.5})
                if x is not None and x != 42.5 or not mentions(a[1], params[0]):
                    return "the adapter passes %s instead of the progress" % show(a[1])[:50]
            for val in (0, 1, -1, 2):
                if path_holds(s2, {v: val}) is False:
                    continue
                res = verdict(p, s2, r)
                b = None
                if res is None:
                    continue
                if (val == 0) != (res == "Break"):
                    return "the callback's verdict %d is translated to ControlFlow::%s" % (val, res)
    return None


def verdict(p, st, r):
    if r.op == "agg" and r.a[0].endswith("ControlFlow"):
        t = next((t for t in p.types if t["k"] == "enum" and t.get("name") == r.a[0]), None)
        return t["v"][r.a[1]]["n"] if t else None
    return None


def retcheck(c, p, e, st, name, fn, args, how, v, r):
    kind = how[0] if isinstance(how, tuple) else how
    if kind == "void":
        return None
    d = st.disc.get(v)
    if v.op == "agg":
        d = v.a[1]
    if kind in ("result", "out"):
        o = outcome(p, st, r)
        if d == 0:
            if o is not None and o[0] != "ok":
                return "reports %s although the operation succeeded" % (o[1] or "an error")
            if o is None and r.op not in ("phi",):
                return "reports %s although the operation succeeded" % show(r)[:60]
        elif d == 1:
            want = e.proj(st, v, ("f", 1, 0))
            if name in IGNORED_ERR and len([x for x in st.ghost["calls"] if x[0].startswith("fnptr")]):
                pass    # ownership was taken over already
            elif r is not want and not same_value(e, st, r, want):
                if o is not None and o[0] == "ok":
                    return "reports LIQ_OK although the operation failed"
                if o is not None and r.op == "agg":
                    # a constant is right only when the path has established that the error is that one
                    kd = st.disc.get(want)
                    if kd is None or kd != r.a[1]:
                        return "replaces the operation's error by %s" % o[1]
                elif o is None and r.op != "phi":
                    return "returns %s instead of the operation's error" % show(r)[:60]
        else:
            if o is not None and o[0] == "ok":
                return "reports LIQ_OK without looking at the operation's result"
            if o is not None and o[0] == "err" and r.op == "agg":
                return "reports %s without looking at the operation's result" % o[1]
        if kind == "out":
            root, pth, _ = e.target(st, args[how[1]])
            w = e.rd(st, root, pth)
            if not st_written(st, root):
                return "leaves the output pointer unset"
            w = strip(w)
            oo = outcome(p, st, w)
            if oo is None:
                return None
            if d == 0:
                if oo[0] != "ok":
                    return "stores NULL although the operation succeeded"
                return boxed(p, e, st, oo[1], v, result=True)
            if d == 1 and oo[0] == "ok":
                return "stores an object although the operation failed"
        return None
    if kind in ("box", "some"):
        o = outcome(p, st, r)
        if o is None:
            return None
        if o[0] != "ok":
            return "returns NULL although the operation succeeded"
        if kind == "some":
            return None if o[1] is v or mentions(o[1], v) else "returns %s instead of the operation's result" % show(o[1])[:60]
        return boxed(p, e, st, o[1], v, result=False)
    if kind == "boxresult":
        o = outcome(p, st, r)
        if o is None:
            return None
        if d == 0:
            if o[0] != "ok":
                return "returns NULL although the operation succeeded"
            return boxed(p, e, st, o[1], v, result=True)
        if d == 1 and o[0] == "ok":
            return "returns an object although the operation failed"
        return None
    if kind == "optvalue":
        if d == 1:
            want = e.proj(st, v, ("f", 1, 0))
            return cmp_value(p, e, st, r, want)
        if d == 0:
            x = ev(r, {})
            if x is not None and x != -1:
                return "returns %r instead of -1 when there is no value" % x
            if x is None and r.op != "phi":
                return "returns %s instead of -1 when there is no value" % show(r)[:60]
        return None
    if kind == "field":
        return cmp_value(p, e, st, r, e.proj(st, v, ("f", 0, how[1])))
    if kind == "value":
        return cmp_value(p, e, st, r, v)
    return None


def cmp_value(p, e, st, r, want):
    if r is want:
        return None
    if r.op == "phi":
        return None
    if not mentions(r, want):
        return "returns %s instead of the operation's value" % show(r)[:60]
    for x in (0, 1, 2, 5, 50, 100, 200, 255, 256, 1000, 65535, 65536, 70000, 2 ** 24 + 1, 2 ** 31 - 1):
        if want.ty is not None and p.ty(want.ty)["k"] == "float":
            x = float(x)
        elif want.ty is not None and p.int_range(want.ty) and x > p.int_range(want.ty)[1]:
            continue
        g = ev(r, {want: x})
        if g is not None and g != x and path_holds(st, {want: x}) is not False:
            return "returns %r when the operation's value is %r" % (g, x)
    return None


def strip(w):
    while w.op == "agg" and len(w.a[2]) == 1 and not w.a[0].startswith("core::option") and not w.a[0].startswith("core::result"):
        w = w.a[2][0]
    return w


def st_written(st, root):
    return root in st.mem


def boxed(p, e, st, ptr, v, result):
    """the object behind ptr contains the operation's result"""
    root, pth, _ = e.target(st, ptr)
    val = e.rd(st, root, pth)
    want = e.proj(st, v, ("f", 0, 0)) if result else v
    if any(x is want or x is v for x in subterms(val)):
        return None
    if any(x.op in ("phi", "havoc") for x in subterms(val)):
        return None
    return "returns an object that does not hold the operation's result"
