"""C21: reported errors and qualities are those of the run they describe. quantization_error/quality report what the
palette search measured (absent iff it measured nothing); after a successful remapping remapping_error/quality report
what that remapping measured, otherwise the quantization values; error and quality always describe the same
measurement; a failed remapping or a changed setting leaves no measurement of another configuration behind.
Method: value-provenance analysis over MIR: the search and the pixel writers return fresh measurement symbols, histories
of public calls are interpreted on every path, the getters' results are traced back to the symbols they are made of."""
from util import *
from ctx import symargs
import cg
import remapm as M

Q = M.RES + "::"
GET = ["quantization_error", "quantization_quality", "remapping_error", "remapping_quality"]


def check(c):
    c.floors = {"histories": 5}
    c.rule("source(quantization_*) == measurement of the palette search; source(remapping_*) == last measurement of the last successful remapping, else source(quantization_*); *_quality absent iff *_error absent")
    c.assumptions += ["the scale that turns an error into a quality is numeric and not examined"]
    p = c.prog("ffi", "imagequant")
    keys = {}
    for n in GET + ["remap_into", "set_dithering_level", "set_output_gamma"]:
        keys[n] = find_fn(p, Q + n)
        if keys[n] is None:
            c.violation(Q + n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return
    R = M.Roles(p)
    if not R.writers:
        c.undecide("functions that write the pixels were not identified")
        c.floors = {}
        return
    jobs = [("remap", ""), ("again", ""), ("fail", ""), ("set", "set_dithering_level"), ("set", "set_output_gamma"), ("new", 1), ("new", 0)]

    def job(j):
        c.count("histories")
        for outer in (False, True):
            try:
                history(c, p, M.Roles(p, outer), keys, *j)
                return
            except Giveup as g:
                if outer:
                    c.undecide("%s: %s" % (j, g))
    c.parallel(jobs, job)


def engine(c, p, R, hooks=None):
    def scale(e, st, ce, args, tys, dty, fp):
        v = mk("app", "scale:" + norm(p.fns[ce["key"]]["path"]), tuple(args))
        v.ty = dty
        return [(st, v)]
    hk = {}
    for k in p.fns:
        f = p.fns[k]
        if cg.is_local(p, k) and "{closure" not in k and f["n"] == 1 and p.ty(f["locals"][1])["s"] == "f64" and p.ty(f["locals"][0])["s"] in ("u8", "f64"):
            hk[norm(f["path"])] = scale
    hk.update(hooks or {})
    return M.engine(c, p, R, hooks=hk)


def unscale(t):
    while True:
        if t.op == "app" and str(t.a[0]).startswith("scale:"):
            t = t.a[1][0]
        else:
            return t


def get(e, p, keys, st, me, n):
    """[(state, present|None, source term)]"""
    out = []
    for s, r in e.run(keys[n], [me], st.copy()):
        o = outcome(p, s, r)
        if o is None:
            out.append((s, None, None))
        elif o[0] == "err":
            out.append((s, False, None))
        else:
            v = o[1] if o[1] is not None else e.proj(s, r, ("f", 1, 0))
            out.append((s, True, unscale(v)))
    return out


def known(x):
    return x is not None and x.op != "phi"


def pair(c, p, e, keys, where, st, me, err, qual, what):
    """error and quality of one kind describe the same measurement"""
    for s, a, x in get(e, p, keys, st, me, err):
        for s2, b, y in get(e, p, keys, s, me, qual):
            c.obligation()
            c.count("paths")
            if a is None or b is None:
                c.undecide("%s: presence of %s not determined" % (what, err))
            elif a != b:
                c.violation(where, "%s: %s and %s are not both present" % (what, err, qual), key="%s %s presence" % (what, err))
            elif a and known(x) and known(y) and x is not y and differ(x, y):
                c.violation(where, "%s: %s comes from %s, %s from %s" % (what, err, show(x)[:60], qual, show(y)[:60]), key="%s %s source" % (what, err))


def differ(x, y):
    """definitely made of different measurements: neither is computed from the other's source"""
    bx = {t for t in subterms(x) if t.op in ("sym", "fld", "deref", "c")}
    by = {t for t in subterms(y) if t.op in ("sym", "fld", "deref", "c")}
    return not (x in by or y in bx)


def expect(c, p, e, keys, where, st, me, names, want, what):
    """want: term, None (absent), or 'same' (as quantization_*)"""
    for n in names:
        for s, a, x in get(e, p, keys, st, me, n):
            c.obligation()
            c.count("paths")
            if want == "same":
                for s2, b, y in get(e, p, keys, s, me, n.replace("remapping", "quantization")):
                    if a is None or b is None:
                        c.undecide("%s: %s not determined" % (what, n))
                    elif a != b or (a and x is not y and known(x) and known(y) and differ(x, y)):
                        c.violation(where, "%s: %s is not the value of the quantization (%s)" % (what, n, show(x)[:80] if x is not None else "absent"), key="%s %s" % (what, n))
            elif a is None:
                c.undecide("%s: %s not determined" % (what, n))
            elif want is None:
                if a:
                    c.violation(where, "%s: %s reports a value (%s) though nothing was measured" % (what, n, show(x)[:80]), key="%s %s" % (what, n))
            elif not a:
                c.violation(where, "%s: %s reports nothing though the error was measured" % (what, n), key="%s %s" % (what, n))
            elif x is not want and known(x) and not mentions(x, want):
                c.violation(where, "%s: %s reports %s, not what was measured (%s)" % (what, n, show(x)[:80], show(want)[:60]), key="%s %s" % (what, n))
            elif x is not want and known(x) and n.startswith("remapping"):
                others = [y for _, b, y in get(e, p, keys, s, me, n.replace("remapping", "quantization")) if b and y is not None]
                others += list(s.ghost.get("measured", ()))
                if any(y is not want and not mentions(want, y) and mentions(x, y) for y in others if y.op != "c"):
                    c.violation(where, "%s: %s mixes what was measured with another measurement: %s" % (what, n, show(x)[:100]), key="%s %s" % (what, n))


def ok(p, s, r):
    o = outcome(p, s, r)
    return o is not None and o[0] == "ok"


RN = ["remapping_error", "remapping_quality"]


def after_ok(c, p, e, keys, where, s, me, skip, what):
    m = s.ghost.get("measured", ())[skip:]
    expect(c, p, e, keys, where, s, me, RN, m[-1] if m else "same", what)
    pair(c, p, e, keys, where, s, me, "remapping_error", "remapping_quality", what)


def history(c, p, R, keys, mode, arg):
    rk = keys["remap_into"]
    where = c.loc(p, rk)
    if mode == "new":
        return constructor(c, p, R, keys, arg)
    e = engine(c, p, R)
    a = symargs(p, rk)
    if mode == "remap":
        pair(c, p, e, keys, c.loc(p, keys["quantization_error"]), State(), a[0], "quantization_error", "quantization_quality", "any result")
        pair(c, p, e, keys, c.loc(p, keys["remapping_error"]), State(), a[0], "remapping_error", "remapping_quality", "any result")
        for s, r in e.run(rk, a):
            if ok(p, s, r):
                c.obligation()
                if not s.ghost.get("writers"):
                    c.violation(where, "succeeds without writing pixels", key="nothing written")
                    continue
                after_ok(c, p, e, keys, where, s, a[0], 0, "after remapping")
    elif mode in ("again", "fail"):
        b = symargs(p, rk, tag="second")
        b[0] = a[0]
        for s, r in e.run(rk, a):
            if not ok(p, s, r):
                continue
            n = len(s.ghost.get("measured", ()))
            for s2, r2 in e.run(rk, b, s.copy()):
                o = outcome(p, s2, r2)
                if o is None:
                    continue
                if o[0] == "ok" and mode == "again":
                    after_ok(c, p, e, keys, where, s2, a[0], n, "after a second remapping")
                elif o[0] == "err" and mode == "fail":
                    m = s.ghost.get("measured", ())
                    expect(c, p, e, keys, where, s2, a[0], RN, m[-1] if m else "same", "after a second remapping that failed")
    elif mode == "set":
        # a setting that invalidates the remapping: nothing but the quantization values may be reported, and a new
        # remapping reports its own measurement
        sk = keys[arg]
        for s, r in e.run(rk, a):
            if not ok(p, s, r):
                continue
            n = len(s.ghost.get("measured", ()))
            ga = symargs(p, sk, tag="g")
            ga[0] = a[0]
            for s2, r2 in e.run(sk, ga, s.copy()):
                if ok(p, s2, r2):
                    expect(c, p, e, keys, c.loc(p, sk), s2, a[0], RN, "same", "after remapping and " + arg)
    c.done(e)


def constructor(c, p, R, keys, measured):
    search = {k for k in p.fns if cg.is_local(p, k) and "{closure" not in k and p.ty(p.fns[k]["locals"][0])["s"].startswith("core::result::Result<(%s, core::option::Option<f64>)" % M.PALF)}
    search = {k for k in search if not (cg.reach_from(p, [k]) - {k}) & search}
    resty = next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES)
    if not search:
        c.undecide("the palette search was not identified")
        return
    E = mk("sym", "measured by the search")

    def hook(e, st, ce, args, tys, dty, fp):
        out = []
        for s, r in e.opaque_default(st, "search", ce, args, tys, dty):
            bad = s.copy()
            bad.disc[r] = 1
            out.append((bad, r))
            s.disc[r] = 0
            pair_ty = p.ty(dty)["v"][0]["f"][0][1]
            oty = p.ty(pair_ty)["f"][1]
            E.ty = p.ty(oty)["v"][1]["f"][0][1]
            o = mk("agg", "core::option::Option", 1, (E,)) if measured else mk("agg", "core::option::Option", 0, ())
            o.ty = oty
            pal = e.proj(s, e.proj(s, r, ("f", 0, 0)), ("f", 0, 0))
            t = mk("agg", "tuple", 0, (pal, o))
            t.ty = pair_ty
            v = mk("agg", "core::result::Result", 0, (t,))
            v.ty = dty
            out.append((s, v))
        return out
    n = 0
    for k in sorted(p.fns):
        f = p.fns[k]
        rt = p.ty(f["locals"][0])
        if not cg.is_local(p, k) or "{closure" in k or not rt["s"].startswith("core::result::Result<" + M.RES + ","):
            continue
        # the function that builds the result
        if not any(cg._has_variant(p, b["s"], M.RES, p.ty(resty)["v"][0]["n"]) for b in f["blocks"] if b["s"]):
            continue
        n += 1
        where = c.loc(p, k)
        keep = R.keep | cg.closure_reachers(p, search)
        e = engine(c, p, R, {norm(p.fns[x]["path"]): hook for x in search})
        e.opaque = cg.pruned(p, keep)
        e.RETCAP = 24
        for s, r in e.run(k, symargs(p, k)):
            o = outcome(p, s, r)
            if o is None or o[0] != "ok" or o[1] is None:
                continue
            root = e.alloc(s, o[1], resty)
            me = e.mkref(s, root, (), None)
            what = "fresh result, error %s" % ("measured" if measured else "not measured")
            expect(c, p, e, keys, where, s, me, GET, E if measured else None, what)
        c.done(e)
    c.count("constructors", n)
    if not n:
        c.undecide("constructor of the result was not identified")
