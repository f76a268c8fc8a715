"""C14: the palette a result reports belongs to the pixels it wrote. After a successful remapping the reported palette
is the rounding of exactly the palette version the pixels were last written with, made with the gamma the result
reports and the posterization of the attributes; changing the output gamma never leaves an older palette visible; a
failed remapping does not change the reported palette.
Method: typestate / value-provenance analysis over MIR. The float palette is tracked by version: every function that
may change it produces a new version, the rounding function produces the pair (rounded version, integer palette term
with gamma and posterization), each pixel-writing function records the version it was given. Histories of public calls
(remap, set gamma, read palette, failing remap) are interpreted in sequence on every path."""
from util import *
from ctx import symargs
import cg
import remapm as M

Q = M.RES + "::"
REMAP = [Q + "remap_into", Q + "remap_into_vec", Q + "remapped"]


CREMAP = ["imagequant_sys::liq_write_remapped_image", "imagequant_sys::liq_write_remapped_image_rows"]


def check(c):
    c.floors = {"histories": 6}
    c.rule("palette version used by the last pixel writer == version behind the reported integer palette; its gamma == output_gamma(); its posterization == the attributes' minimum posterization")
    c.assumptions += ["how the writers choose indices and how colours are rounded is numeric (see the not-applicable properties)"]
    p = c.prog("ffi", "imagequant")
    keys = {}
    for n in REMAP + [Q + "palette", Q + "set_output_gamma", Q + "output_gamma", Q + "set_dithering_level"]:
        keys[n] = find_fn(p, n)
        if keys[n] is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return
    R = M.Roles(p)
    if not R.builders or not R.writers:
        c.undecide("functions that round the palette or write the pixels were not identified")
        c.floors = {}
        return
    c.count("pixel_writers", len(R.writers))
    c.count("palette_rounders", len(R.builders))
    jobs = [("remap", n) for n in REMAP] + [("gamma", n) for n in ("fresh", "palette", "remap", "palette+remap", "remap+dither")] + [("again", "ok"), ("again", "fail"), ("poster", "")] \
        + [("fail", n) for n in REMAP] + [("capi", n) for n in CREMAP]

    def job(j):
        c.count("histories")
        if j[0] == "capi":
            try:
                capi(c, j[1])
            except Giveup as g:
                c.undecide("%s: %s" % (j, g))
            return
        try:
            history(c, p, R, keys, *j)
        except Giveup as g:
            try:
                history(c, p, M.Roles(p, True), keys, *j)
            except Giveup as g:
                c.undecide("%s: %s" % (j, g))
    c.parallel(jobs, job)


def palette_term(e, st, r):
    """the integer palette value a reported slice / vector / palette pointer shows"""
    if r.op == "vec":
        return None
    root, path, _ = e.target(st, r)
    v = e.rd(st, root, path)
    for x in subterms(v):
        if x.op == "app" and x.a[0] == "intpal":
            return x
    return v


def strip(V):
    while V.op == "app" and V.a[0] == "rounded":
        V = V.a[1][0]
    return V


def show_palette(c, p, e, keys, st, self_arg):
    return [(s, palette_term(e, s, r)) for s, r in e.run(keys[Q + "palette"], [self_arg], st.copy())]


def gamma_of(e, keys, st, self_arg):
    rs = e.run(keys[Q + "output_gamma"], [self_arg], st.copy())
    return rs[0][1] if len(rs) == 1 else None


def ok(p, s, r):
    o = outcome(p, s, r)
    return o is not None and o[0] == "ok"


def failed(p, s, r):
    o = outcome(p, s, r)
    return o is not None and o[0] == "err"


def judge(c, p, e, keys, where, st, t, self_arg, what, pix=None, gamma=True):
    """t: reported integer palette term"""
    c.obligation()
    c.count("paths")
    if t is None:
        c.undecide("%s: reported palette not determined" % what)
        return
    if not (t.op == "app" and t.a[0] == "intpal"):
        if pix is not None:
            if t.op in ("phi",) or any(x.op == "phi" for x in subterms(t)):
                c.undecide("%s: reported palette not determined" % what)
            else:
                c.violation(where, "%s: the reported palette is not made from the palette the pixels were written with (it is %s)" % (what, show(t)[:80]), key="%s stale" % what)
        return
    V, g, po = t.a[1]
    now = gamma_of(e, keys, st, self_arg) if gamma else None
    if now is not None and now is not g and g.op != "phi" and now.op != "phi":
        c.violation(where, "%s: the reported palette was made with gamma %s, the result's gamma is %s" % (what, show(g)[:60], show(now)[:60]), key="%s gamma" % what)
    if pix is not None:
        if pix is M.UNKNOWN or V is M.UNKNOWN or pix.op == "phi" or V.op == "phi":
            c.undecide("%s: palette version of the writer unknown" % what)
        elif pix is not V and not (pix.op == "app" and pix.a[0] == "rounded" and pix.a[1] == t.a[1]):
            c.violation(where, "%s: the pixels were written with palette version %s, the reported palette is made from version %s" % (what, show(pix)[:70], show(V)[:70]), key="%s incoherent" % what)


def capi(c, name):
    p = c.prog("ffi", "imagequant_sys")
    k, gk = find_fn(p, name), find_fn(p, "imagequant_sys::liq_get_palette")
    for n, x in ((name, k), ("imagequant_sys::liq_get_palette", gk)):
        if x is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return
    R = M.Roles(p)
    e = M.engine(c, p, R)
    a = symargs(p, k)
    for s, r in e.run(k, a):
        if not ok(p, s, r):
            continue
        pix = s.ghost.get("pix")
        c.obligation()
        if pix is None:
            c.violation(c.loc(p, k), "reports LIQ_OK on a path where no function wrote the pixels", key="%s nothing written" % name)
            continue
        for s2, r2 in e.run(gk, [a[0]], s.copy()):
            o = outcome(p, s2, r2)
            if o is not None and o[0] == "ok" and o[1] is not None:
                judge(c, p, e, {Q + "output_gamma": find_fn(p, "imagequant_sys::liq_get_output_gamma")}, c.loc(p, k), s2, palette_term(e, s2, o[1]), a[0], "palette after " + name.split("::")[-1], pix, False)
    c.done(e)


def history(c, p, R, keys, mode, arg):
    def copied(e, st, ce, args, tys, dty, fp):
        # a vector of colours filled from a palette slice
        src = args[-1]
        st = st.copy()
        if src.op in ("ref", "fat"):
            t = palette_term(e, st, src)
            if t is not None and t.op == "app" and t.a[0] == "intpal":
                st.ghost["veccopy"] = t
        return e.opaque_default(st, "copy", ce, args, tys, dty)
    e = M.engine(c, p, R, hooks={n: copied for n in ("alloc::vec::Vec::extend_from_slice", "alloc::slice::to_vec", "alloc::slice::<impl [T]>::to_vec")})
    rk = keys[Q + "remap_into"]
    where = c.loc(p, rk)
    if mode == "remap":
        k = keys[arg]
        args = symargs(p, k)
        for s, r in e.run(k, args):
            if not ok(p, s, r):
                continue
            pix = s.ghost.get("pix")
            if pix is None:
                c.violation(c.loc(p, k), "succeeds on a path where no function wrote the pixels", key="%s nothing written" % arg)
                continue
            for s2, t in show_palette(c, p, e, keys, s, args[0]):
                judge(c, p, e, keys, c.loc(p, k), s2, t, args[0], "palette after " + arg.split("::")[-1], pix)
            vt = s.ghost.get("veccopy")
            if vt is not None and arg != REMAP[0]:
                c.count("palette_copies")
                judge(c, p, e, keys, c.loc(p, k), s, vt, args[0], "palette returned by " + arg.split("::")[-1], pix)
    elif mode == "gamma":
        a = symargs(p, rk)
        sts = [State()]
        for step in arg.split("+"):
            nxt = []
            for s in sts:
                if step == "palette":
                    nxt += [x for x, _ in e.run(keys[Q + "palette"], [a[0]], s.copy())]
                elif step == "remap":
                    nxt += [x for x, r in e.run(rk, a, s.copy()) if ok(p, x, r)]
                elif step == "dither":
                    d = symargs(p, keys[Q + "set_dithering_level"], tag="d")
                    d[0] = a[0]
                    nxt += [x for x, r in e.run(keys[Q + "set_dithering_level"], d, s.copy()) if ok(p, x, r)]
                else:
                    nxt.append(s)
            sts = nxt[:24]
        gk = keys[Q + "set_output_gamma"]
        for s in sts:
            ga = symargs(p, gk, tag="g")
            ga[0] = a[0]
            for s2, r in e.run(gk, ga, s.copy()):
                if not ok(p, s2, r):
                    continue
                c.obligation()
                g = gamma_of(e, keys, s2, a[0])
                if g is not None and g is not ga[1] and g.op != "phi":
                    c.violation(c.loc(p, gk), "output_gamma() does not report the gamma that was set", key="gamma getter")
                for s3, t in show_palette(c, p, e, keys, s2, a[0]):
                    what = "palette after %s, then set_output_gamma" % arg
                    c.count("paths")
                    c.obligation()
                    if t is None or t.op == "phi":
                        c.undecide(what)
                    elif not (t.op == "app" and t.a[0] == "intpal"):
                        c.violation(c.loc(p, gk), "%s: a palette made before the change is reported" % what, key="gamma stale " + arg)
                    elif t.a[1][1] is not ga[1] and t.a[1][1].op != "phi":
                        c.violation(c.loc(p, gk), "%s: the palette reported was made with another gamma" % what, key="gamma stale " + arg)
                for s4, r4 in e.run(rk, a, s2.copy()):
                    if ok(p, s4, r4):
                        for s5, t in show_palette(c, p, e, keys, s4, a[0]):
                            judge(c, p, e, keys, where, s5, t, a[0], "palette after %s, set_output_gamma, remap" % arg, s4.ghost.get("pix"))
    elif mode == "again":
        a = symargs(p, rk)
        b = symargs(p, rk, tag="second")
        b[0] = a[0]
        for s, r in e.run(rk, a):
            if not ok(p, s, r):
                continue
            first = s.ghost.get("pix")
            n1 = s.ghost.get("vers", ())
            for s2, r2 in e.run(rk, b, s.copy()):
                if ok(p, s2, r2) and arg == "ok":
                    n2 = s2.ghost.get("vers", ())[len(n1):]
                    if n1 and n2:
                        c.obligation()
                        v1, v2 = strip(n1[0]), strip(n2[0])
                        if v1 is not v2 and M.UNKNOWN not in (v1, v2) and "phi" not in (v1.op, v2.op):
                            c.violation(where, "a second remapping does not start from the palette of the result: the first remapping left %s behind" % show(v2)[:80], key="palette consumed")
                    for s3, t in show_palette(c, p, e, keys, s2, a[0]):
                        judge(c, p, e, keys, where, s3, t, a[0], "palette after a second remap", s2.ghost.get("pix"))
                elif failed(p, s2, r2) and arg == "fail":
                    for s3, t in show_palette(c, p, e, keys, s2, a[0]):
                        judge(c, p, e, keys, where, s3, t, a[0], "palette after a second remap that failed", first)
    elif mode == "fail":
        k = keys[arg]
        args = symargs(p, k)
        for s0, t0 in show_palette(c, p, e, keys, State(), args[0]):
            for s, r in e.run(k, args, s0.copy()):
                if not failed(p, s, r):
                    continue
                c.obligation()
                c.count("paths")
                for s2, t2 in show_palette(c, p, e, keys, s, args[0]):
                    if t0 is None or t2 is None or t2.op == "phi" or t0.op == "phi":
                        c.undecide("palette after failed " + arg)
                    elif t2 is not t0 and any(x.op in ("sym", "phi") and str(x.a[0]).startswith(("havoc", "call:")) for x in subterms(t2)) and t2.op == "app":
                        c.violation(c.loc(p, k), "a failed remapping changes the reported palette", key="%s failed changes" % arg)
    elif mode == "poster":
        posterization(c, p, R, keys)
    c.done(e)


def posterization(c, p, R, keys):
    A = "imagequant::attr::Attributes"
    gk = find_fn(p, A + "::min_posterization")
    if gk is None:
        c.violation(A + "::min_posterization", "function not found: the guarantee has lost its implementation", key="missing min_posterization")
        return
    for k in sorted(p.fns):
        f = p.fns[k]
        rt = p.ty(f["locals"][0])
        if not cg.is_local(p, k) or "{closure" in k or not (rt["s"].startswith("core::result::Result<" + M.RES + ",") or rt.get("name") == M.RES):
            continue
        if not any(b["s"] and cg._has_variant(p, b["s"], M.RES, p.ty(next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES))["v"][0]["n"]) for b in f["blocks"]):
            continue
        ai = [i for i, t in enumerate(M.params(p, k)) if M.deref_ty(p, t).get("name") == A]
        if len(ai) != 1:
            continue
        c.count("constructors")
        e = M.engine(c, p, R)
        args = symargs(p, k)
        for s, r in e.run(k, args):
            o = outcome(p, s, r) if rt.get("name") != M.RES else ("ok", r)
            if o is None or o[0] != "ok" or o[1] is None:
                continue
            want = [v for _, v in e.run(gk, [args[ai[0]]], s.copy())]
            root = e.alloc(s, o[1], next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES))
            me = e.mkref(s, root, (), None)
            for s2, t in show_palette(c, p, e, keys, s, me):
                c.obligation()
                c.count("paths")
                if t is None or not (t.op == "app" and t.a[0] == "intpal"):
                    c.undecide("palette of a fresh result is not determined")
                    continue
                po = t.a[1][2]
                if len(want) == 1 and po is not want[0] and po.op != "phi" and want[0].op != "phi" and not same_small(po, want[0]):
                    c.violation(c.loc(p, k), "the palette is rounded with posterization %s instead of the attributes' %s" % (show(po)[:60], show(want[0])[:60]), key="posterization")
        c.done(e)


def same_small(a, b):
    return mentions(a, b) or mentions(b, a)
