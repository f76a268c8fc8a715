"""C01: every configuration setter accepts exactly its documented range, rejects everything else with ValueOutOfRange
leaving the object unchanged, and the matching getter returns the value that was set, through the Rust API and the C API.
Method: interprocedural abstract interpretation of each setter's MIR gives, per exit, the guard (conjunction of
comparisons) and the post-state. The guards partition the parameter space into regions bounded by the constants
compared against; one representative per region (plus the documented bounds and the wrap-around classes of narrowing
casts) decides whether the accepted region equals the documented one."""
from util import *
from ctx import symargs

A = "imagequant::attr::Attributes::"
Q = "imagequant::quant::QuantizationResult::"
H = "imagequant::hist::Histogram::"
S = "imagequant_sys::"
inr = lambda lo, hi: (lambda x: lo <= x <= hi)

# function, parameter indexes, documented validity predicate, documented bounds, getters [(fn, what is expected)]
SETTERS = [
    (A + "set_max_colors", (1,), inr(2, 256), (2, 256), A + "max_colors"),
    (A + "set_speed", (1,), inr(1, 10), (1, 10), A + "speed"),
    (A + "set_min_posterization", (1,), inr(0, 4), (0, 4), A + "min_posterization"),
    (A + "set_quality", (1, 2), lambda m, t: 0 <= m <= t <= 100, (0, 100), "quality"),
    (Q + "set_dithering_level", (1,), inr(0.0, 1.0), (0.0, 1.0), "stored"),
    (Q + "set_output_gamma", (1,), lambda g: 0 < g < 1, (0.0, 1.0), Q + "output_gamma"),
    (H + "add_fixed_color", (2,), lambda g: 0 <= g < 1, (0.0, 1.0), None),
    (H + "add_colors", (2,), lambda g: 0 <= g < 1, (0.0, 1.0), None),
    (S + "liq_set_max_colors", (1,), inr(2, 256), (2, 256), S + "liq_get_max_colors"),
    (S + "liq_set_speed", (1,), inr(1, 10), (1, 10), S + "liq_get_speed"),
    (S + "liq_set_min_posterization", (1,), inr(0, 4), (0, 4), S + "liq_get_min_posterization"),
    (S + "liq_set_quality", (1, 2), lambda m, t: 0 <= m <= t <= 100, (0, 100), "cquality"),
    (S + "liq_set_dithering_level", (1,), inr(0.0, 1.0), (0.0, 1.0), "stored"),
    (S + "liq_set_output_gamma", (1,), lambda g: 0 < g < 1, (0.0, 1.0), S + "liq_get_output_gamma"),
    (S + "liq_histogram_add_fixed_color", (2,), lambda g: 0 <= g < 1, (0.0, 1.0), None),
    (S + "liq_histogram_add_colors", (4,), lambda g: 0 <= g < 1, (0.0, 1.0), None),
    (S + "liq_image_create_rgba_rows", (4,), lambda g: 0 <= g <= 1, (0.0, 1.0), None),
    (S + "liq_image_create_rgba", (4,), lambda g: 0 <= g <= 1, (0.0, 1.0), None),
    (S + "liq_image_create_custom", (5,), lambda g: 0 <= g <= 1, (0.0, 1.0), None),
]
WRAP_TYPES = {8: 256, 16: 65536}


def quality_fns(p):
    """the numeric conversions between quality and mean square error, found by signature"""
    out = set()
    for k, f in p.fns.items():
        if not f["krate"].startswith("imagequant") or f["closure"]:
            continue
        tys = [p.ty(t)["s"] for t in f["locals"][:f["n"] + 1]]
        if tys in (["f64", "u8"], ["u8", "f64"]):
            out.add(norm(f["path"]))
    return out


def check(c):
    p = c.prog("ffi")
    c.floors = {"setters": len(SETTERS)}
    c.rule("accepted region of each setter == documented region; rejected => ValueOutOfRange and object unchanged; accepted => getter(post-state) == argument")
    c.assumptions += ["user callbacks (log callbacks) do not modify the object through interior mutability",
                      "quality<->MSE conversion is opaque here: only that both bounds go through the same conversion pair is decided"]
    qf = quality_fns(p)
    for s in SETTERS:
        setter(c, p, qf, *s)


def setter(c, p, qf, path, pidx, valid, bounds, getter):
    key = c.anchor(p, path)
    if key is None:
        return
    c.count("setters")
    e = c.engine(p, opaque=lambda n, k: n in qf)
    e.RETCAP = 64
    args = symargs(p, key, tag="#" + path)
    where = c.loc(p, key)
    try:
        rets = e.run(key, args)
    except Giveup as g:
        c.undecide("%s: %s" % (path, g))
        return
    c.done(e)
    ptys = [p.ty(p.fns[key]["locals"][i + 1]) for i in pidx]
    params = [args[i] for i in pidx]
    states = [s for s, _ in rets]
    consts = const_points(states, params)
    grids = []
    for t in ptys:
        if t["k"] == "float":
            grids.append(float_points([x for x in consts if abs(x) < 1e6], t["bits"], bounds))
        else:
            rg = p.int_range(p.tyid(t["s"]))
            grids.append(int_points([x for x in consts if x < 2 ** 33], rg, bounds))
    if len(grids) == 2:
        # pairs: keep the grid small but with every ordering and boundary class
        g = [[x for x in gr if x in (0, 1, 2, 29, 30, 31, 49, 50, 51, 99, 100, 101, 102, 255, 256, 257, 306, 356, 65536, 65586, gr[0], gr[-1])] for gr in grids]
        pts = [(a, b) for a in g[0] for b in g[1]]
    else:
        pts = [(a,) for a in grids[0]]
    c.count("points", len(pts))
    c.obligation(len(pts))
    is_c = path.startswith(S)
    selfp = args[0]
    bad = set()
    for pt in pts:
        env = {t: v for t, v in zip(params, pt)}
        v = valid(*pt)
        oks, errs, unknown = [], [], 0
        for st, r in rets:
            h = path_holds(st, env)
            if h is False:
                continue
            o = outcome(p, st, r)
            if o is None:
                unknown += 1
                continue
            if o[0] == "err" and o[1] == "InvalidPointer":
                continue
            exact = region_exact(st, params, env)
            (oks if o[0] == "ok" else errs).append((st, r, o, exact))
        sp = ", ".join(map(repr, pt))
        if not v and any(x[3] for x in oks):
            # a feasible accepting path whose guards on the parameters all hold
            if not (path.endswith("liq_histogram_add_colors") and all(zero_entries(x[0], args) for x in oks if x[3])):
                bad.add("accepts")
                c.violation(where, "accepts out-of-range value %s" % sp, key="%s accepts" % path)
        if v and not oks and not unknown:
            c.violation(where, "rejects valid value %s" % sp, key="%s rejects" % path)
        if not v and not is_creator(path):
            for st, r, o, ex in errs:
                if ex and o[1] is not None and o[1] not in ("ValueOutOfRange", "Unsupported", "BufferTooSmall", "OutOfMemory"):
                    c.violation(where, "out-of-range value %s reported as %s instead of ValueOutOfRange" % (sp, o[1]), key="%s code" % path)
            only = [o[1] for _, _, o, ex in errs]
            if only and "ValueOutOfRange" not in only and not oks and None not in only:
                c.violation(where, "out-of-range value %s reported as %s instead of ValueOutOfRange" % (sp, only[0]), key="%s code" % path)
        # getter round trip at this point
        if v and getter and getter not in ("quality", "cquality", "stored"):
            for st, r, o, ex in oks:
                roundtrip(c, p, e, path, where, getter, st, selfp, env, pt[0])
    # failing exits leave the object alone
    for st, r in rets:
        o = outcome(p, st, r)
        if o is not None and o[0] == "err" and not is_creator(path) and o[1] == "ValueOutOfRange":
            c.obligation()
            if not target_unchanged(e, st, selfp):
                c.violation(where, "object modified although the call fails with %s" % o[1], key="%s modified-on-error" % path)
    oks = [(st, r) for st, r in rets if (outcome(p, st, r) or ("", 0))[0] == "ok"]
    if getter == "stored":
        for st, r in oks:
            c.obligation()
            root, path_, _ = e.target(st, selfp)
            v = st.mem.get(root)
            if v is None or not mentions(v, params[0]):
                c.violation(where, "the accepted value is not stored", key="%s stored" % path)
    elif getter in ("quality", "cquality"):
        for st, r in oks:
            quality_roundtrip(c, p, e, path, where, getter, st, selfp, params)
    c.samples.append({"setter": path, "exits": [{"guard": guard_text(s), "returns": show(r)[:80]} for s, r in rets[:6]], "points": len(pts)})


def is_creator(path):
    return "_create" in path


def zero_entries(st, args):
    x = args[3]
    return st.ent_le0(ladd(cint(0), x)) if x.ty is not None else False


def region_exact(st, params, env):
    """every condition of the path that mentions a parameter evaluates to true"""
    memo = {}
    ps = set(params)
    for L in list(st.lins):
        if any(x in ps for x in subterms(L)):
            v = ev(L, env, memo)
            if v is None or v > 0:
                return False
    for L in st.nes:
        if any(x in ps for x in subterms(L)):
            v = ev(L, env, memo)
            if v is None or v == 0:
                return False
    for t, val in st.truth.items():
        if any(x in ps for x in subterms(t)):
            v = ev(t, env, memo)
            if v is None or bool(v) != val:
                return False
    return True


def guard_text(st):
    return "; ".join([show(L)[:60] + "<=0" for L in st.lins][:4] + ["%s=%s" % (show(k)[:60], v) for k, v in list(st.truth.items())[:4]])


_gcache = {}


def getter_paths(p, e, st, getter, selfp):
    k = (getter, id(st))
    if k not in _gcache:
        gk = find_fn(p, getter)
        _gcache[k] = (st, e.run(gk, [selfp], st) if gk else None)
    return _gcache[k][1]


def roundtrip(c, p, e, path, where, getter, st, selfp, env, want):
    try:
        rs = getter_paths(p, e, st, getter, selfp)
    except Giveup as g:
        c.undecide("%s: %s" % (getter, g))
        return
    if rs is None:
        c.violation(where, "getter %s not found" % getter, key="%s getter" % path)
        return
    c.obligation()
    for s2, r in rs:
        if path_holds(s2, env) is False:
            continue
        v = ev(r, env)
        if v is None:
            continue
        if is_bad_handle(s2):
            continue
        if v != want:
            c.violation(where, "%s returns %r after the value %r was accepted" % (getter, v, want), key="%s roundtrip" % path)


def is_bad_handle(st):
    return any(t.op == "peq" and v is False and any(x.op == "static" for x in subterms(t)) for t, v in st.truth.items()) or \
        any(t.op == "isnull" and v for t, v in st.truth.items())


def quality_roundtrip(c, p, e, path, where, getter, st, selfp, params):
    def comps():
        if getter == "quality":
            for s2, r in getter_paths(p, e, st, A + "quality", selfp):
                if r.op == "agg":
                    yield r.a[2]
        else:
            a = [r for s2, r in getter_paths(p, e, st, S + "liq_get_min_quality", selfp) if not is_bad_handle(s2)]
            b = [r for s2, r in getter_paths(p, e, st, S + "liq_get_max_quality", selfp) if not is_bad_handle(s2)]
            for x in a:
                for y in b:
                    yield x, y
    mn, tg = params
    try:
        cs = list(comps())
    except Giveup as g:
        c.undecide("%s: %s" % (path, g))
        return
    hole = mk("sym", "hole")
    for a, b in cs:
        c.obligation()
        ta = subst(a, {mn: hole})
        tb = subst(b, {tg: hole})
        if ta is tb and mentions(ta, hole):
            continue
        if mentions(a, tg) and not mentions(a, mn) or mentions(b, mn) and not mentions(b, tg):
            c.violation(where, "minimum and target quality are exchanged or one of them is lost: getters return %s, %s" % (show(a)[:90], show(b)[:90]), key="%s quality" % path)
        elif not (mentions(a, mn) and mentions(b, tg)) and not any(x.op in ("phi", "havoc") for x in subterms(mk("t", (a, b)))):
            c.violation(where, "quality getters do not depend on the accepted values: %s, %s" % (show(a)[:90], show(b)[:90]), key="%s quality" % path)
        elif ta is not tb and not any(x.op == "phi" for x in subterms(mk("t", (a, b)))):
            c.undecide("%s: quality conversions of the two bounds differ in shape" % path)
