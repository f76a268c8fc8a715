"""C10: dimensions and buffer sizes are validated. Image constructors, importance maps, backgrounds and output buffers are
accepted exactly when the dimensions are usable and the given buffer covers them; the memory then addressed is exactly
the described area.
Method: abstract interpretation of every public function that takes a buffer gives the guard of each exit as linear
constraints over the dimensions, the stride and the buffer length (lengths are symbols, products stay symbolic). The
accepted region is compared with the documented one at representative points of every region (on, just below and just
above each bound, and at sizes where 32- and 64-bit products overflow). The lengths given to every slice made from a raw
pointer, and the row size every buffer is split into, are compared with the described area at the same points."""
from util import *
from ctx import symargs
from rules.c01 import is_bad_handle
import cg

I, A, Q, S = "imagequant::image::Image::", "imagequant::attr::Attributes::", "imagequant::quant::QuantizationResult::", "imagequant_sys::"
I32 = 2 ** 31 - 1
DIMS = [(w, h) for w in (0, 1, 2, 3, 7) for h in (0, 1, 2, 5)]
HUGE = [(I32 + 1, 1), (1, I32 + 1), (2 ** 32, 1), (1, 2 ** 32), (2 ** 32 + 4, 3), (3, 2 ** 32 + 2), (2 ** 30, 2 ** 30), (2 ** 31 - 1, 2 ** 29)]


def dims_ok(w, h):
    return 1 <= w <= I32 and 1 <= h <= I32 and w * h * 16 <= 2 ** 63 - 1


def stride_pts(with_stride):
    for w, h in DIMS + HUGE:
        ss = [w, w + 1, w + 9, 3, 2 ** 32 + w] + ([w - 1] if w else []) if with_stride else [w]
        for s in sorted(set(ss)):
            need = s * (h - 1) + w if h else 0
            for n in sorted({0, need - 1, need, need + 1, need + s, w * h, w * h - 1, s * h, 4 * need}):
                if 0 <= n < 2 ** 58:
                    yield w, h, s, n


def stride_want(w, h, s, n):
    if not dims_ok(w, h):
        return None         # some error (which one depends on the order of the checks)
    if s < w or s >= 2 ** 32:
        return "ValueOutOfRange"
    return True if n >= s * (h - 1) + w else "BufferTooSmall"


# kind, path, crate, {role: parameter index}
TABLE = [
    ("stride", I + "new_stride_borrowed", 0, dict(px=1, w=2, h=3, s=4)),
    ("stride", I + "new_borrowed", 0, dict(px=1, w=2, h=3)),
    ("stride", I + "new_stride", 0, dict(px=1, w=2, h=3, s=4)),
    ("stride", I + "new", 0, dict(px=1, w=2, h=3)),
    ("stride", A + "new_image", 0, dict(px=1, w=2, h=3)),
    ("stride", A + "new_image_borrowed", 0, dict(px=1, w=2, h=3)),
    ("stride", A + "new_image_stride", 0, dict(px=1, w=2, h=3, s=4)),
    ("stride", A + "new_image_stride_copy", 0, dict(px=1, w=2, h=3, s=4)),
    ("fn", I + "new_fn", 0, dict(w=2, h=3)),
    ("map", I + "set_importance_map", 0, dict(img=0, px=1)),
    ("bg", I + "set_background", 0, dict(img=0, bg=1)),
    ("out", Q + "remap_into", 0, dict(img=1, px=2)),
    ("vec", Q + "remap_into_vec", 0, dict(img=1, px=2)),
    ("cpx", S + "liq_image_create_rgba", 1, dict(w=2, h=3)),
    ("crows", S + "liq_image_create_rgba_rows", 1, dict(w=2, h=3)),
    ("cfn", S + "liq_image_create_custom", 1, dict(w=3, h=4)),
    ("cout", S + "liq_write_remapped_image", 1, dict(img=1, n=3)),
    ("crout", S + "liq_write_remapped_image_rows", 1, dict(img=1)),
    ("cmap", S + "liq_image_set_importance_map", 1, dict(img=0, n=2)),
    ("cbg", S + "liq_image_set_background", 1, dict(img=0, bg=1)),
    ("ccol", S + "liq_histogram_add_colors", 1, dict(n=3)),
]


def check(c):
    c.floors = {"functions": len(TABLE), "points": 500, "accesses": 8}
    c.rule("accepted(w, h, stride, length) == the documented condition at every sample point; a valid request is never rejected; an unusable buffer is BufferTooSmall; "
           "length of each raw slice and row size of each split == described area")
    c.assumptions += ["memory behind C pointers is as large as the caller says", "64-bit usize", "allocation failure is outside the property"]
    c.parallel(TABLE, lambda t: one(c, *t))


PUBLIC = ("imagequant::image::Image", "imagequant::quant::QuantizationResult", "imagequant::attr::Attributes", "imagequant::hist::Histogram")


def heavy(p):
    """remapping proper: functions of the library that can call the progress callback and work on internal types"""
    from rules.c05 import is_cb
    keep = cg.reachers(p, lambda ce, k, bi: is_cb(p, ce))
    out = set()
    for k in keep:
        f = p.fns[k]
        for t in f["locals"][1:f["n"] + 1]:
            t = p.ty(t)
            while t["k"] in ("ref", "ptr"):
                t = p.ty(t["e"])
            if t["k"] == "struct" and t["name"].startswith("imagequant::") and t["name"] not in PUBLIC:
                out.add(norm(f["path"]))
    return out


def leaf(t):
    while t.op in ("cast", "wrap", "zext"):
        t = t.a[-1]
    return t


def image_dims(c, p, e, st, img, capi):
    """the terms behind the width and height of the image a reference or handle stands for, read through the public getters"""
    out = []
    for g in ("width", "height"):
        k = find_fn(p, (S + "liq_image_get_" if capi else I) + g)
        if k is None:
            raise Giveup("image %s" % g)
        rs = [x for s, x in e.run(k, [img], st.copy()) if not is_bad_handle(s)]
        if len(rs) != 1:
            raise Giveup("image %s is not a plain getter" % g)
        out.append(leaf(rs[0]))
    return out


def by_ref(e, p, st, v):
    """a reference to the image or handle given by value, in a box or by reference; and whether it is a C handle"""
    t = p.ty(v.ty)
    if t["k"] == "struct" and t["name"] == "alloc::boxed::Box":
        r, pth, _ = e.target(st, e.proj(st, v, ("f", 0, 0)))
        return e.mkref(st, r, pth, None), p.ty(t["args"][0])["name"].startswith("imagequant_sys::")
    if t["k"] == "struct":
        return e.mkref(st, e.alloc(st, v, v.ty), (), None), t["name"].startswith("imagequant_sys::")
    return v, p.ty(t["e"])["name"].startswith("imagequant_sys::")


def one(c, kind, path, crate, roles):
    p = c.prog("ffi", "imagequant_sys" if crate else "imagequant")
    key = find_fn(p, path)
    if key is None:
        c.violation(path, "function not found: the guarantee has lost its implementation", key="missing " + path)
        return
    c.count("functions")
    where = c.loc(p, key)
    hv = heavy(p)
    obs = []
    conv = []

    def on_call(st, fr, name, ce, args, span):
        last = name.split("::")[-1].split("<")[0]
        if last in ("from_raw_parts", "from_raw_parts_mut", "slice_from_raw_parts", "slice_from_raw_parts_mut") and len(args) == 2:
            obs.append(("raw", args[0], args[1], st.copy(), span))
        elif last in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut") and len(args) == 2:
            obs.append(("chunk", args[0], args[1], st.copy(), span))
        elif last in ("add", "offset", "wrapping_add") and "ptr" in name and len(args) == 2:
            obs.append(("add", args[0], args[1], st.copy(), span))

    def hook(e, st, name, ce, args, argtys, dty):
        if norm(name) in hv or name in hv:
            st.ghost["did"] = 1
        return NotImplemented
    e = c.engine(p, hooks={"*opaque": hook}, opaque=lambda n, k: n in hv)
    e.RETCAP = 64
    e.obs_call = on_call
    args = symargs(p, key, tag="#" + path)
    st0 = State()
    env0 = {}
    try:
        names = {}
        for r, i in roles.items():
            if r in ("img", "bg"):
                names[r] = image_dims(c, p, e, st0, *by_ref(e, p, st0, args[i]))
        del obs[:]
        st0 = State()
        rets = e.run(key, args, st0)
    except Giveup as g:
        c.undecide("%s: %s" % (path, g))
        return
    c.done(e)
    # length of the buffer parameter
    lens = []
    if "px" in roles and kind != "vec":
        a = args[roles["px"]]
        t = p.ty(a.ty)
        if t["k"] in ("ref", "ptr") and p.ty(t["e"])["k"] in ("slice", "str"):
            lens = [e.len_of(State(), a)]
        else:       # converted by the caller's type: the length of the converted buffer
            for st, r in rets:
                for L in list(st.lins) + list(st.nes):
                    for x in subterms(L):
                        if x.op == "len" and x not in lens and not any(y.op == "phi" for y in subterms(x)):
                            lens.append(x)
    if len(lens) > 1:
        c.undecide("%s: several buffers" % path)
        return
    pts = list(points(kind, "s" in roles))
    c.count("points", len(pts))
    c.obligation(len(pts))
    accepts = lambda st, o: bool(st.ghost.get("did")) if kind in ("out", "cout", "crout", "vec") else (o is not None and o[0] == "ok")
    for pt in pts:
        d = dict(pt)
        env = {}
        for r, v in d.items():
            if r == "n" and "n" not in roles:
                for L in lens:
                    env[L] = v
            elif r in ("w", "h", "s", "n") and r in roles:
                env[args[roles[r]]] = v
            elif r in ("w", "h") and "img" in names:
                env[names["img"][0 if r == "w" else 1]] = v
            elif r in ("bw", "bh"):
                env[names["bg"][0 if r == "bw" else 1]] = v
        want = d["want"]
        params = list(env)
        feas_ok, exact_ok, errs, unk = False, False, set(), False
        for st, r in rets:
            if is_bad_handle(st) or badptr(st):
                continue
            h = path_holds(st, env)
            if h is False:
                continue
            o = outcome(p, st, r)
            if accepts(st, o):
                feas_ok = True
                if want is True:
                    result(c, p, e, path, where, kind, d, env, st, o, args, roles)
                if exact(st, params, env):
                    exact_ok = True
            elif o is None:
                unk = True
            else:
                errs.add(o[1])
        sp = ", ".join("%s=%s" % (NAMES.get(k, k), v) for k, v in d.items() if k != "want")
        if want is True:
            if not feas_ok and not unk:
                c.violation(where, "rejects a valid request: %s" % sp, key="%s rejects" % path)
        elif want != "any":
            if exact_ok:
                c.violation(where, "accepts an invalid request: %s" % sp, key="%s accepts" % path)
            elif isinstance(want, str) and errs and None not in errs and "None" not in errs and want not in errs and not unk and not feas_ok:
                c.violation(where, "reports %s instead of %s: %s" % ("/".join(sorted(errs)), want, sp), key="%s code" % path)
        if want is True:
            access(c, p, e, path, where, kind, d, env, obs, lens)
    if kind in ("bg", "cbg"):
        nested(c, p, e, path, where, key, args, roles)
    c.samples.append({"function": path, "points": len(pts), "exits": len(rets), "accesses": len(obs)})


NAMES = {"w": "width", "h": "height", "s": "stride", "n": "buffer length", "bw": "background width", "bh": "background height"}


def badptr(st):
    return any(v is True and t.op in ("call", "sym") and "invalid_pointer" in show(t) for t, v in st.truth.items())


def exact(st, params, env):
    """every condition of the path over the parameters holds; conditions that also involve loop counters are existential"""
    memo, ps = {}, set(params)
    loopy = lambda t: any(x.op == "phi" for x in subterms(t))
    for L in st.lins:
        if any(x in ps for x in subterms(L)) and not loopy(L):
            v = ev(L, env, memo)
            if v is None or v > 0:
                return False
    for L in st.nes:
        if any(x in ps for x in subterms(L)) and not loopy(L):
            v = ev(L, env, memo)
            if v is None or v == 0:
                return False
    for t, val in st.truth.items():
        if any(x in ps for x in subterms(t)) and not loopy(t):
            v = ev(t, env, memo)
            if v is None or bool(v) != val:
                return False
    return True


def points(kind, with_stride):
    W = lambda **k: k.items()
    if kind == "stride":
        for w, h, s, n in stride_pts(with_stride):
            x = stride_want(w, h, s, n)
            yield W(w=w, h=h, s=s, n=n, want=False if x is None else x)
    elif kind == "fn":
        for w, h in DIMS + HUGE:
            yield W(w=w, h=h, want=dims_ok(w, h) or "ValueOutOfRange")
    elif kind in ("cpx", "crows", "cfn"):
        for w, h in DIMS + [x for x in HUGE if max(x) < 2 ** 32]:
            big = w * h * 16 > 2 ** 31 - 1
            yield W(w=w, h=h, want=False if not dims_ok(w, h) else "any" if big else True)
    elif kind in ("map", "out", "vec", "cout", "cmap"):
        for w, h in [d for d in DIMS if d[0] and d[1]] + [(65536, 65536), (100000, 100000), (I32, 3)]:
            a = w * h
            if kind == "vec":
                yield W(w=w, h=h, want=True)
                continue
            for n in sorted({0, 1, a - 1, a, a + 1, a + w, 2 * a, a % 2 ** 32, w, h}):
                ok = n == a if kind == "map" else n >= a
                if n == 0 and kind in ("cmap",):
                    yield W(w=w, h=h, n=n, want="InvalidPointer")
                else:
                    yield W(w=w, h=h, n=n, want=True if ok else "BufferTooSmall")
    elif kind == "crout":
        for w, h in [d for d in DIMS if d[0] and d[1]]:
            yield W(w=w, h=h, want=True)
    elif kind in ("bg", "cbg"):
        for w, h in ((4, 4), (4, 6), (1, 9)):
            for bw, bh in ((4, 4), (4, 5), (5, 4), (6, 4), (4, 6), (2, 8), (3, 3), (1, 9), (9, 1), (65540, 4), (4, 65540)):
                yield W(w=w, h=h, bw=bw, bh=bh, want=True if (w, h) == (bw, bh) else "BufferTooSmall")
    elif kind == "ccol":
        for n in (1, 2, 100, 1 << 24):
            yield W(n=n, want=True)


def access(c, p, e, path, where, kind, d, env, obs, lens):
    """sizes of the memory that is addressed, at a valid point"""
    w, h, s, n = d.get("w"), d.get("h"), d.get("s", d.get("w")), d.get("n")
    for what, base, size, st, span in obs:
        if is_bad_handle(st) or badptr(st) or path_holds(st, env) is False:
            continue
        at = "%s (at %s)" % (where, span)
        if what == "add":
            if kind != "cpx":
                continue
            free = [x for x in set(subterms(size)) if x not in env and x.op in ("phi", "sym", "havoc") and ev(x, env) is None]
            if len(free) != 1:
                continue
            c.count("accesses")
            for i in (0, 1, 3):
                v = ev(size, {**env, free[0]: i})
                if v is not None and v != w * i:
                    c.violation(at, "row %d of a %dx%d image is taken from offset %d instead of %d" % (i, w, h, v, w * i), key="%s rows" % path)
            continue
        v = ev(size, env)
        if v is None:
            continue
        c.count("accesses")
        if what == "raw":
            want = {"crows": (h,), "crout": (h,), "cout": (w and h and w * h,), "cmap": (w and h and w * h,), "ccol": (n,)}.get(kind)
            if want and v not in want:
                c.violation(at, "addresses %d elements of the caller's memory instead of %d (width=%s, height=%s, buffer size=%s)" % (v, want[0], w, h, n), key="%s raw" % path)
        elif what == "chunk":
            want = {"stride": s, "out": w, "cout": w, "vec": w}.get(kind)
            if want is not None and v != want:
                c.violation(at, "splits the buffer into rows of %d pixels instead of %d (width=%s, height=%s)" % (v, want, w, h), key="%s chunk" % path)
            if kind in ("out", "cout", "vec") and v == want:
                try:
                    ln = ev(e.len_of(st, base), env)
                except Exception:
                    ln = None
                if ln is not None and ln // v != h:
                    c.violation(at, "makes %d output rows instead of %d" % (ln // v, h), key="%s nrows" % path)


def result(c, p, e, path, where, kind, d, env, st, o, args, roles):
    """what the accepted call produced: image dimensions, length of the output vector"""
    try:
        if kind in ("stride", "fn", "cpx", "crows", "cfn") and o is not None and o[1] is not None:
            s2 = st.copy()
            v = o[1]
            if v.ty is None:
                v = mk(v.op, *v.a)
                v.ty = find_type(p, "imagequant::image::Image<" if kind in ("stride", "fn") else "alloc::boxed::Box<imagequant_sys::liq_image<")
            v, capi = by_ref(e, p, s2, v)
            for g, want in (("width", d["w"]), ("height", d["h"])):
                for s3, r in e.run(find_fn(p, (S + "liq_image_get_" if capi else I) + g), [v], s2):
                    x = ev(r, env) if not is_bad_handle(s3) else None
                    c.obligation()
                    if x is not None and x != want:
                        c.violation(where, "the image reports %s %d after %d was given" % (g, x, want), key="%s %s" % (path, g))
        elif kind == "vec" and o is not None and o[0] == "ok":
            r, pth, _ = e.target(st, args[roles["px"]])
            v = e.rd(st, r, pth)
            x = ev(v.a[1], env) if v.op == "vec" else None
            c.obligation()
            if x is not None and x != d["w"] * d["h"]:
                c.violation(where, "the output vector has %d elements instead of %d" % (x, d["w"] * d["h"]), key="%s veclen" % path)
    except Giveup:
        pass


def find_type(p, prefix):
    return next((i for i, t in enumerate(p.types) if t["s"].startswith(prefix)), None)


def nested(c, p, e, path, where, key, args, roles):
    """a background that has a background is refused"""
    st = State()
    v, capi = by_ref(e, p, st, args[roles["bg"]])
    if capi:
        return
    r, pth, _ = e.target(st, v)
    img = e.rd(st, r, pth)
    it = p.ty(find_type(p, "imagequant::image::Image<"))
    for i, f in enumerate(it["v"][0]["f"]):
        if "Option<alloc::boxed::Box<imagequant::image::Image" in p.ty(f[1])["s"]:
            opt = e.proj(st, img, ("f", 0, i))
            if opt.ty is None:
                opt.ty = f[1]
            st.disc[opt] = 1
            try:
                rets = e.run(key, args, st)
            except Giveup as g:
                c.undecide("%s: %s" % (path, g))
                return
            outs = [outcome(p, s, r) for s, r in rets if not is_bad_handle(s)]
            c.obligation()
            if any(o is not None and o[0] == "ok" for o in outs):
                c.violation(where, "accepts a background image that has a background itself", key="%s nested" % path)
            elif outs and None not in outs and not any(o[1] in ("Unsupported", None) for o in outs):
                c.violation(where, "reports %s instead of Unsupported for a background that has a background" % outs[0][1], key="%s nested-code" % path)
