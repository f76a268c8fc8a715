"""C13: fixed colours reach the palette. Every fixed colour given (as many as the palette may have) is put in the palette
exactly and marked; no later step moves, replaces or drops a marked entry; the documented number of fixed colours is accepted
and more are refused without changing the set; those of an image are handed to the histogram.
Method: abstract interpretation of the library's functions on palettes whose popularities are the marks made by the library's
own functions and whose colours are symbols. A palette that enters a step with marked entries must leave it with the same
colours at marked entries (in every order a sort may choose, for every branch of the step)."""
from util import *
from ctx import symargs
from palm import *

I, H = "imagequant::image::Image::", "imagequant::hist::Histogram::"
MAX = 256


def check(c):
    c.floors = {"insertions": 1, "steps": 5, "searches": 1, "limits": 3, "listings": 1, "constructors": 1}
    c.rule("insertion(palette, max, fixed): every fixed[i], i < min(count, max), is an entry of the result and marked, and the palette does not outgrow max")
    c.rule("each step that can modify a palette leaves the colour of every marked entry in the palette, still marked (rounding may only use that colour)")
    c.rule("each palette returned by the search went through the insertion with the user's maximum and all fixed colours of the histogram")
    c.rule("adding a fixed colour is refused iff 256 are present; add_image fails with BufferTooSmall if the total exceeds 256; refusals change nothing")
    c.assumptions += ["sorting permutes", "palettes of up to three entries and lists of up to three fixed colours stand for all sizes in insertion and steps; "
                      "a palette of any size with all entries marked is analysed as well", "posterization and the output gamma round fixed colours like all others"]
    c.parallel([steps, marks, insertion, search, limits, handing, listing, results], lambda f: guarded(c, f))


def guarded(c, f):
    try:
        f(c)
    except Giveup as g:
        c.undecide("%s: %s" % (f.__name__, g))


def marks(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    for v in (0.0, 1e-30, 1.0, 3.0, 1e30):
        for mk_ in P.makers:
            x = P.run(mk_, cfloat(v, 32))
            for m in P.markers:
                y = P.run(m, x)
                z = P.run(m, y)
                for t in P.tests:
                    c.obligation(3)
                    w = c.loc(p, t)
                    if P.run(t, x) is not FALSE:
                        c.violation(c.loc(p, mk_), "an ordinary entry with popularity %g counts as fixed" % v, key="mark new")
                    if P.run(t, y) is not TRUE:
                        c.violation(c.loc(p, m), "an entry with popularity %g marked as fixed does not count as fixed" % v, key="mark set")
                    if P.run(t, z) is not TRUE:
                        c.violation(c.loc(p, m), "marking a fixed entry (popularity %g) again removes the mark" % v, key="mark twice")
    c.done(P.e0)


def insertions(P):
    p = P.p
    out = []
    for k in local_fns(p):
        ts = [p.ty(t) for t in M.params(p, k)]
        pal = [i for i, t in enumerate(M.params(p, k)) if t == P.ty or i in P.mut_params(k)]
        num = [i for i, t in enumerate(ts) if t["k"] in ("uint", "int")]
        fx = [i for i, t in enumerate(ts) if t["k"] == "ref" and p.ty(t["e"])["k"] == "slice" and p.ty(t["e"])["e"] == P.colty]
        if len(pal) == len(num) == len(fx) == 1 and len(ts) == 3:
            out.append((k, pal[0], num[0], fx[0]))
    # the outermost ones
    ks = {k for k, *_ in out}
    return [x for x in out if not any(x[0] in cg.reach_from(p, [o]) for o in ks if o != x[0])]


def insertion(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    fns = insertions(P)
    if not fns:
        c.undecide("no function that puts fixed colours into a palette (palette, maximum, colours)")
    for k, pi, ni, fi in fns:
        c.count("insertions")
        for np in range(4):
            for nf in range(4):
                for mx in (1, 2, 3, 256):
                    if np <= mx:
                        insert_one(c, P, k, pi, ni, fi, np, nf, mx)


def insert_one(c, P, k, pi, ni, fi, np, nf, mx):
    p = P.p
    e = c.engine(p)
    e.EXACT, e.PEEL, e.CAP, e.RETCAP, e.STEPS = True, 8, 400, 400, 100000
    st = State()
    pv, cols = P.make(st, [(P.zero, P.plain)[i % 2] for i in range(np)])
    fx = [P.sym("fix%d" % i) for i in range(nf)]
    root = mk("D", mk("sym", "fixed", ""))
    st.mem[root] = mk("agg", "array", 0, tuple(fx))
    sl = e.mkref(st, root, (), cint(nf))
    a = symargs(p, k)
    byref = M.params(p, k)[pi] != P.ty
    home = e.alloc(st, pv, P.ty)
    ty = a[ni].ty
    a[pi], a[ni], a[fi] = (e.mkref(st, home, (), None) if byref else pv), cint(mx), sl
    c.obligation()
    try:
        rs = e.run(k, a, st)
    except Giveup as g:
        c.undecide("insertion of %d fixed colours into %d entries (at most %d): %s" % (nf, np, mx, g))
        return
    finally:
        c.done(e)
    where = c.loc(p, k)
    what = "%d fixed colour(s), palette of %d, at most %d" % (nf, np, mx)
    for s, r in rs:
        v = e.rd(s, home, ()) if byref else r
        es = P.entries(e, s, v)
        if es is None:
            c.undecide("insertion: palette of unknown shape (%s)" % what)
            return
        if len(es) > mx:
            c.violation(where, "the palette gets %d entries (%s)" % (len(es), what), key="insert outgrow")
        for i in range(min(nf, mx)):
            hits = [pop for col, pop in es if col is fx[i]]
            ms = [P.marked(x) for x in hits]
            if not hits and not unknown(es):
                c.violation(where, "fixed colour %d is not in the palette (%s)" % (i, what), key="insert lost")
            elif hits and True not in ms:
                if None in ms:
                    c.undecide("insertion: mark of fixed colour %d unknown" % i)
                else:
                    c.violation(where, "fixed colour %d is in the palette but not marked as fixed (%s)" % (i, what), key="insert unmarked")
            elif not hits:
                c.undecide("insertion: entries unknown (%s)" % what)


def unknown(es):
    return any(col.op not in ("sym",) for col, _ in es)


# ---- steps that modify palettes ------------------------------------------------------------
def mutators(P):
    """functions that get a palette to modify; methods of the palette are judged through their callers"""
    p = P.p
    out = []
    R = M.Roles(p)
    ins = {x[0] for x in insertions(P)}
    for k in local_fns(p):
        if P.mut_params(k) and k not in ins and " as " not in k and (not norm(p.fns[k]["path"]).startswith(PALF + "::") or k in R.builders):
            out.append(k)
    reach = {k: cg.reach_from(p, [k]) for k in out}
    out.sort(key=lambda k: len(reach[k] & set(out)))
    return out, R, reach


def steps(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    muts, R, reach = mutators(P)
    ok, bad, un = set(), {}, {}
    for k in muts:
        c.count("steps")
        r, what = step_one(c, P, k, ok, R, muts)
        if r == "ok":
            ok.add(k)
        elif r == "bad":
            bad[k] = what
        else:
            un[k] = what
    callers = {}
    for k in p.fns:
        if cg.is_local(p, k):
            for ck, ce, bi in cg.callees_of(p, k):
                callers.setdefault(ck, set()).add(k)
    for k, what in bad.items():
        # a helper that replaces entries is fine when every step that uses it keeps the marked ones
        cs = {outer(p, x) for x in callers.get(k, ())} - {k}
        if cs and cs <= ok:
            continue
        c.violation(c.loc(p, k), what, key="step " + norm(p.fns[k]["path"]))
    for k, what in un.items():
        c.undecide("%s: %s" % (norm(p.fns[k]["path"]), what))


def outer(p, k):
    return k.split("::{closure")[0]


def keeper(P):
    """effect of a verified step on its caller's palette: none that matters here"""
    def h(e, st, ce, args, tys, dty, fp):
        key = ce.get("key")
        ix = P.mut_params(key)
        saved = []
        for i in ix:
            r, pth, _ = e.target(st, args[i])
            v = e.rd(st, r, pth)
            saved.append((r, pth, v, [(x.a[0], st.mem.get(x.a[0])) for x in (v.a[2] if v.op == "agg" else ()) if x.op == "vec"]))
        out = e.opaque_default(st, norm(key), ce, args, tys, dty)
        for s, _ in out:
            for r, pth, v, ms in saved:
                e.wr(s, r, pth, v)
                for root, m in ms:
                    if m is not None:
                        s.mem[root] = m
        return out
    return h


def step_one(c, P, k, ok, R, muts):
    p = P.p
    events = set(muts) | {x for x in local_fns(p) if P.mut_params(x)}
    keep = cg.closure_reachers(p, events)
    hooks = {norm(p.fns[x]["path"]): keeper(P) for x in ok if x != k}
    builder = k in R.builders
    idx = P.mut_params(k)
    trials = [[P.fixed, P.zero, P.fixed0], [P.plain, P.fixed], [P.zero, P.fixed0, P.plain], [P.fixed], None]
    gave = None
    for pops in trials:
        why = None
        # coarse first: most steps do not touch marked entries at all
        for peel, cap, lim in ((1, 12, 40000), (5, 400, 80000), (5, 30, 80000)):
            e = c.engine(p, hooks=hooks, opaque=(lambda n, k_: False) if builder else cg.pruned(p, keep))
            e.EXACT, e.PEEL, e.CAP, e.RETCAP, e.STEPS = pops is not None, peel, cap, cap, lim
            r, why = trial(c, P, e, k, idx, pops, builder)
            if r == "bad":
                return r, why
            if r == "ok":
                why = None
                break
        gave = why or gave
    return ("giveup", gave) if gave else ("ok", None)


def trial(c, P, e, k, idx, pops, builder):
    p = P.p
    st = State()
    if pops:
        pv, cols = P.make(st, pops)
    else:
        pv, cols = P.make_all(st, P.fixed), None
    home = e.alloc(st, pv, P.ty)
    a = symargs(p, k)
    for i in idx:
        a[i] = e.mkref(st, home, (), None)
    wr = []
    if not pops and not builder:
        croot = pv.a[2][P.ci].a[0]
        e.obs_write = lambda s, root, path, val: wr.append(val) if root is croot and path else None
    c.obligation()
    try:
        rs = e.run(k, a, st)
    except Giveup as g:
        return "giveup", str(g)
    finally:
        c.done(e)
    if not pops:
        own = {pv.a[2][P.ci].a[0].a[0]}
        for v in wr:
            syms = set(subterms(v))
            if v.op in ("agg", "sym", "sel", "deref") and not (syms & own) and not any(x.op == "phi" or x.op == "sym" and str(x.a[0]).startswith("perm:") for x in syms):
                return "bad", "a colour that is not from the palette is written although every entry is fixed: %s" % show(v)[:80]
        return "ok", None
    gave = None
    for s, r in rs:
        es = P.entries(e, s, e.rd(s, home, ()))
        if es is None:
            gave = "palette of unknown shape afterwards"
            continue
        ws = [judge(P, e, s, es, cols, j, builder) for j, pop in enumerate(pops) if P.marked(pop)]
        if builder:
            ws.append(judge_int(P, e, s, k, a, pops, cols))
        for w in ws:
            if w == "?":
                gave = "entries not followed"
            elif w:
                return "bad", w
    return ("giveup", gave) if gave else ("ok", None)


def judge(P, e, st, es, cols, j, builder):
    own = cols[j]
    others = set(cols) - {own}
    if builder:
        if j >= len(es):
            return "a fixed entry is dropped"
        subs = set(subterms(es[j][0]))
        if subs & others:
            return "the colour of a fixed entry is replaced by that of another when it is rounded"
        m = P.marked(es[j][1])
        return None if m else "?" if m is None else "a fixed entry loses its mark"
    hits = [pop for col, pop in es if col is own]
    if hits:
        ms = [P.marked(x) for x in hits]
        return None if True in ms else "?" if None in ms else "the entry of a fixed colour loses its mark"
    if any(x.op in ("phi", "sel", "deref", "undef") and any(y.op in ("phi", "undef") or y in cols for y in subterms(x)) for col, _ in es for x in (col,)):
        return "?"
    return "the colour of a fixed entry is no longer in the palette"


def zeroish(v):
    if v.op == "agg":
        return all(zeroish(x) for x in v.a[2])
    return v.op == "c" and v.a[0] != "bool" and not ev(v, {})


def judge_int(P, e, st, k, a, pops, cols):
    p = P.p
    i = next(i for i, n in enumerate(M.pnames(p, k)) if n == M.PAL)
    r, pth, _ = e.target(st, a[i])
    v = e.rd(st, r, pth)
    ai = next((n for n, t in enumerate(p.fields(M.deref_id(p, a[i].ty))) if p.ty(t)["k"] == "array"), None)
    if ai is None:
        return "?"
    arr = e.proj(st, v, ("f", 0, ai))
    for j, pop in enumerate(pops):
        if not P.marked(pop):
            continue
        x = e.proj(st, arr, ("e", cint(j)))
        fs = p.fields(x.ty) if x.ty is not None else None
        parts = x.a[2] if x.op == "agg" else [e.proj(st, x, ("f", 0, n)) for n in range(4)] if fs else None
        if parts is None:
            return "?"
        for y in parts:
            subs = set(subterms(y))
            if any(z.op == "phi" for z in subs) and cols[j] not in subs:
                return "?"
            if cols[j] not in subs and not zeroish(y):
                # the components of a fully transparent colour are 0, posterized
                vals = {ev(y, {x: n for x in a if x.ty is not None and p.ty(x.ty)["k"] == "uint"}) for n in (0, 1, 4)}
                if vals == {0}:
                    continue
                if None in vals:
                    return "?"
                return "the output colour of a fixed entry is replaced by %s" % show(y)[:40]
            if subs & (set(cols) - {cols[j]}):
                return "the output colour of a fixed entry is that of another entry"
    return None


def holds(p, t, ty, depth=0):
    """type t contains ty by value (tuples, Option, Result)"""
    if t == ty:
        return True
    d = p.ty(t)
    if depth > 3:
        return False
    if d["k"] == "tuple":
        return any(holds(p, x, ty, depth + 1) for x in d["f"])
    if d["k"] == "enum" and d.get("name") in ("core::result::Result", "core::option::Option"):
        return any(holds(p, x, ty, depth + 1) for x in d["args"] if isinstance(x, int))
    return False


def searches(P):
    p = P.p
    ins = {x[0] for x in insertions(P)}
    cand = {k for k in local_fns(p) if k not in ins and holds(p, p.fns[k]["locals"][0], P.ty) and not norm(p.fns[k]["path"]).startswith(PALF + "::") and " as " not in k}
    return [k for k in cand if not any(k in cg.reach_from(p, [o]) for o in cand if o != k)]


def search(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    ins = {x[0]: x[1:] for x in insertions(P)}
    ks = searches(P)
    if not ks or not ins:
        c.undecide("no palette search or no insertion of fixed colours found")
        return
    getter = find_fn(p, "imagequant::attr::Attributes::max_colors")
    muts = {k for k in local_fns(p) if P.mut_params(k) and k not in ins and not norm(p.fns[k]["path"]).startswith(PALF + "::")}
    for k in ks:
        c.count("searches")
        c.obligation()
        done = mk("sym", "palette with fixed colours", "")
        done.ty = P.ty
        ev_ = []

        def insert(e, st, ce, args, tys, dty, fp):
            pi, ni, fi = ins[ce["key"]]
            st = st.copy()
            ev_.append((st.copy(), args[ni], args[fi], getattr(e, "callspan", "")))
            if M.params(p, ce["key"])[pi] == P.ty:
                return [(st, done)]
            r, pth, _ = e.target(st, args[pi])
            e.wr(st, r, pth, done)
            return [(st, UNIT)]
        hooks = {norm(p.fns[x]["path"]): insert for x in ins}
        hooks.update({norm(p.fns[x]["path"]): keeper(P) for x in muts})
        keep = cg.closure_reachers(p, set(ins) | muts)
        e = c.engine(p, hooks=hooks, opaque=cg.pruned(p, keep))
        e.RETCAP, e.CAP = 40, 40
        a = symargs(p, k)
        st = State()
        ai = [i for i, n in enumerate(M.pnames(p, k)) if n == "imagequant::attr::Attributes"]
        hi = [i for i, t in enumerate(M.params(p, k)) if fixed_field(p, M.deref_id(p, t), P) is not None]
        if len(ai) != 1 or len(hi) != 1 or getter is None:
            c.undecide("%s: attributes or histogram not among the parameters" % norm(p.fns[k]["path"]))
            continue
        mx = [r for _, r in e.run(getter, [a[ai[0]]], State())]
        rs = e.run(k, a, st)
        c.done(e)
        where = c.loc(p, k)
        h = a[hi[0]]
        f = fixed_field(p, M.deref_id(p, h.ty), P)
        hty = M.deref_id(p, h.ty)
        name = p.ty(hty)["v"][0]["f"][f][0]
        for x in cg.reach_from(p, [k]):
            # the list is not modified during the search
            if x != k and cg.is_local(p, x) and any(p.ty(t)["k"] == "ref" and p.ty(t)["mut"] and M.deref_id(p, t) == hty for t in M.params(p, x)) \
                    and (p.ty(hty)["name"], name) in cg.field_uses(p, x):
                c.undecide("%s may change the list of fixed colours during the search" % norm(p.fns[x]["path"]))
        for s, n, sl, span in ev_:
            c.obligation(2)
            # what counts is how many of the colours are inserted: min(count, limit) of them, from the first
            ln, m, x = e.len_of(s, sl), base(mx[0]) if len(mx) == 1 else None, list_of(p, e, s, sl, hty, f)
            if x is None or m is None:
                c.violation(span or where, "other colours than the histogram's list of fixed colours are inserted", key="search all")
                continue
            full = [y for y in subterms(ln) if y.op in ("len", "vlen") and x in set(subterms(y))]
            for tot in (0, 1, 2, 5, 255, 256):
                for mc in (2, 3, 5, 255, 256):
                    env = {m: mc}
                    env.update({y: tot for y in full})
                    if m.ty is None or path_holds(s, env) is False:
                        continue
                    gl, gn = ev(ln, env), ev(n, env)
                    if gl is None or gn is None:
                        c.undecide("number of fixed colours inserted at %s" % (span or where))
                    elif min(gl, gn) != min(tot, mc):
                        c.violation(span or where, "of %d fixed colours only %d are inserted although the user allows %d colours" % (tot, min(gl, gn), mc), key="search all")
        oks = 0
        for s, r in rs:
            o = outcome(p, s, r)
            if o and o[0] == "err":
                continue
            pal = first_pal(e, s, r, P)
            c.obligation()
            if pal is done:
                oks += 1
            elif pal is not None and pal.op in ("agg", "sym", "cloned") or pal is not None and pal.op == "fld" and "call:" in show(pal):
                c.violation(where, "a palette is returned into which the fixed colours were not put: %s" % show(pal)[:60], key="search skip")
            else:
                c.undecide("%s: palette returned not followed: %s" % (norm(p.fns[k]["path"]), show(pal)[:80] if pal is not None else "?"))
        if not oks:
            c.undecide("%s: no successful exit" % norm(p.fns[k]["path"]))


def base(t):
    while t.op in ("cast", "wrap", "zext"):
        t = t.a[-1]
    return t


def fixed_field(p, t, P):
    d = p.ty(t)
    if d["k"] != "struct" or not d.get("name", "").startswith("imagequant::"):
        return None
    fs = p.fields(t) or []
    for i, f in enumerate(fs):
        x = p.ty(f)
        if x.get("name") in ("alloc::boxed::Box", "alloc::vec::Vec"):
            y = x["args"][0]
            if y == P.colty or p.ty(y)["k"] == "slice" and p.ty(y)["e"] == P.colty:
                return i
    return None


def list_of(p, e, st, sl, hty, f):
    """the slice starts at the histogram's list of fixed colours -> that list"""
    r, pth, _ = e.target(st, sl)
    if [x for x in pth if not (x[0] == "o" and isint(x[1]) and x[1].a[1] == 0)]:
        return None
    x = r.a[0]
    while x.op in ("fld", "vptr") and not (x.op == "fld" and x.a[2] == f and x.a[0].ty == hty):
        x = x.a[0]
    return x if x.op == "fld" and x.a[2] == f and x.a[0].ty == hty else None


def first_pal(e, st, v, P):
    """the palette in a returned value (through Ok, Some and tuples)"""
    for _ in range(4):
        if v.ty == P.ty or v.op == "agg" and v.a[0] == PALF:
            return v
        if v.op == "agg" and v.a[2]:
            nxt = [x for x in v.a[2] if x.ty == P.ty or x.op == "agg" and x.a[0] in (PALF, "()", "core::option::Option", "core::result::Result")]
            if not nxt:
                return v.a[2][0]
            v = nxt[0]
        else:
            return v
    return v


def field_of(p, name, pred):
    ty = next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == name), None)
    fs = p.fields(ty) if ty is not None else []
    hit = [i for i, f in enumerate(fs) if pred(p.ty(f))]
    if len(hit) != 1:
        raise Giveup("list of fixed colours of %s not identified" % name)
    return hit[0]


def rgba(p, t):
    return p.ty(t).get("name", "").endswith("Rgba") or p.ty(t).get("name", "").endswith("RGBA")


def img_field(p):
    return field_of(p, "imagequant::image::Image", lambda t: t.get("name") == "alloc::vec::Vec" and rgba(p, t["args"][0]))


def set_field(p):
    return field_of(p, "imagequant::hist::Histogram", lambda t: t.get("name") == "std::collections::hash::set::HashSet")


def set_events(p, root, f):
    """hooks that record what is added to the histogram's set of fixed colours"""
    import models

    def mine(e, st, ptr):
        r, pth, _ = e.target(st, ptr)
        return r is root and pth == (("f", 0, f),)

    def extend(e, st, ce, args, tys, dty, fp):
        if not mine(e, st, args[0]):
            return NotImplemented
        it = models.to_iter(e, st, args[1], tys[1])
        if it is None:
            return NotImplemented
        out, todo = [], [(st.copy(), it)]
        while todo:
            s0, i0 = todo.pop()
            for s, i1, x in models.itnext(e, s0, i0, fp):
                if x is None:
                    out.append((s, UNIT))
                else:
                    s.ghost["added"] = s.ghost.get("added", ()) + (x,)
                    todo.append((s, i1))
            if len(out) + len(todo) > 60:
                raise Giveup("fixed colours added from a list of unknown length")
        return out

    def insert(e, st, ce, args, tys, dty, fp):
        if not mine(e, st, args[0]):
            return NotImplemented
        out = e.opaque_default(st, norm(ce["p"]), ce, args, tys, dty)
        for s, r in out:
            s.ghost["added"] = s.ghost.get("added", ()) + (args[1],)
        return out
    return {"core::iter::traits::collect::Extend::extend": extend, "std::collections::hash::set::HashSet::insert": insert,
            "std::collections::hash::set::HashSet::replace": insert}


def limits(c):
    p = c.prog("ffi", "imagequant")
    for path, fld in ((I + "add_fixed_color", img_field), (H + "add_fixed_color", set_field)):
        k = find_fn(p, path)
        if k is None:
            c.violation(path, "function not found: the guarantee has lost its implementation", key="missing " + path)
            continue
        c.count("limits")
        where = c.loc(p, k)
        f = fld(p)
        for n in (0, 1, 2, 100, 254, 255, 256, 257, 300):
            a = symargs(p, k)
            st = State()
            e = c.engine(p)
            root, _, _ = e.target(st, a[0])
            e.hooks.update(set_events(p, root, f))
            e.rootty[root] = M.deref_id(p, a[0].ty)
            e.EXACT, e.RETCAP = True, 60
            lst = e.rd(st, root, (("f", 0, f),))
            t = p.fields(M.deref_id(p, a[0].ty))[f]
            if p.ty(t).get("name") == "alloc::vec::Vec":
                lst = mk("vec", mk("D", mk("sym", "fixed colours so far", "")), cint(n))
                lst.ty = t
                e.wr(st, root, (("f", 0, f),), lst)
            elif not st.add_eq0(ladd(mk("len", lst), cint(n), -1)):
                raise Giveup("length of the list of fixed colours")
            ai = next(i for i, x in enumerate(a) if rgba(p, x.ty))
            if len(a) > 2:
                a[2] = cfloat(0.45455, 64)
            c.obligation()
            rs = e.run(k, a, st)
            c.done(e)
            oks = 0
            for s, r in rs:
                o = outcome(p, s, r)
                if o is None:
                    c.undecide("%s: outcome unknown with %d colours" % (path, n))
                    continue
                added = [x for x in s.ghost.get("added", ()) if a[ai] in set(subterms(x))]
                v = e.rd(s, root, (("f", 0, f),))
                if v.op == "vec":
                    h = v.a[0]
                    if e.rd(s, h, (("e", cint(n)),)) is a[ai] and same_int(s, v.a[1], n + 1):
                        added.append(a[ai])
                if o[0] == "ok":
                    oks += 1
                    if n >= MAX:
                        c.violation(where, "a fixed colour is accepted although %d are present" % n, key=path + " too many")
                    elif not added:
                        c.violation(where, "a fixed colour is accepted but not stored (%d present)" % n, key=path + " lost")
                else:
                    if o[1] == "Unsupported" and n < MAX:
                        c.violation(where, "a fixed colour is refused although only %d are present" % n, key=path + " refused")
                    if n >= MAX and o[1] not in ("Unsupported", None):
                        c.violation(where, "too many fixed colours are reported as %s" % o[1], key=path + " code")
                    if added or s.ghost.get("added"):
                        c.violation(where, "a refused fixed colour is stored all the same", key=path + " kept")
            if n < MAX and not oks:
                c.violation(where, "no fixed colour can be added when %d are present" % n, key=path + " refused")


def same_int(st, t, n):
    d = ladd(t, cint(n), -1)
    return isint(d) and d.a[1] == 0 or st.ent_le0(d) and st.ent_le0(ladd(cint(0), d, -1))


def handing(c):
    p = c.prog("ffi", "imagequant")
    k = find_fn(p, H + "add_image")
    if k is None:
        c.violation(H + "add_image", "function not found: the guarantee has lost its implementation", key="missing add_image")
        return
    c.count("limits")
    where = c.loc(p, k)
    fi, fs = img_field(p), set_field(p)
    IMG = "imagequant::image::Image"
    pn = M.pnames(p, k)
    hi, ii = pn.index("imagequant::hist::Histogram"), pn.index(IMG)
    iname = p.ty(M.deref_id(p, M.params(p, k)[ii]))["v"][0]["f"][fi][0]
    touch = {x for x in p.fns if cg.is_local(p, x) and (IMG, iname) in cg.field_uses(p, x)}
    keep = cg.closure_reachers(p, touch | {x for x in p.fns if cg.is_local(p, x) and any(n.endswith("fixed_colors") for _, n in cg.field_uses(p, x))}) | {k}
    for nh, ni in ((0, 1), (0, 2), (3, 0), (254, 2), (255, 1), (255, 2), (256, 1), (256, 0), (256, 2)):
        a = symargs(p, k)
        st = State()
        e0 = c.engine(p)
        hroot, iroot = e0.target(st, a[hi])[0], e0.target(st, a[ii])[0]
        cols = []
        for j in range(ni):
            x = mk("sym", "colour%d" % j, "")
            x.ty = p.ty(p.fields(M.deref_id(p, a[ii].ty))[fi])["args"][0]
            cols.append(x)

        def other(e, st_, ce, args, tys, dty, fp):
            # other operations on the image do not touch its fixed colours (checked above: they do not name the field)
            out = e.opaque_default(st_, norm(ce["p"]), ce, args, tys, dty)
            for s, _ in out:
                e.wr(s, iroot, (("f", 0, fi),), lst)
            return out
        hooks = set_events(p, hroot, fs)
        hooks["std::collections::hash::set::HashSet::contains"] = lambda e, s, *_: [(s, FALSE)]
        for x in p.fns:
            if x not in keep and cg.is_local(p, x) and "{closure" not in x and any(p.ty(t)["k"] == "ref" and p.ty(t)["mut"] and p.ty(M.deref_id(p, t)).get("name") == IMG for t in M.params(p, x)):
                hooks[norm(p.fns[x]["path"])] = other
        e = c.engine(p, hooks=hooks, opaque=cg.pruned(p, keep))
        e.EXACT, e.RETCAP, e.CAP, e.PEEL = True, 200, 400, 5
        e.rootty[iroot], e.rootty[hroot] = M.deref_id(p, a[ii].ty), M.deref_id(p, a[hi].ty)
        h = mk("D", mk("sym", "fixed colours of the image", ""))
        st.mem[h] = mk("agg", "array", 0, tuple(cols))
        lst = mk("vec", h, cint(ni))
        lst.ty = p.fields(M.deref_id(p, a[ii].ty))[fi]
        e.wr(st, iroot, (("f", 0, fi),), lst)
        st.add_eq0(ladd(mk("len", e.rd(st, hroot, (("f", 0, fs),))), cint(nh), -1))
        c.obligation()
        rs = e.run(k, a, st)
        c.done(e)
        what = "%d fixed colours in the histogram, %d others in the image" % (nh, ni)
        oks = 0
        for s, r in rs:
            o = outcome(p, s, r)
            if o is None:
                c.undecide("add_image: outcome unknown (%s)" % what)
                continue
            added = s.ghost.get("added", ())
            if o[0] == "ok":
                oks += 1
                if nh + ni > MAX:
                    c.violation(where, "an image is accepted although the total of fixed colours exceeds 256 (%s)" % what, key="add_image too many")
                    continue
                for x in cols:
                    if not any(x in set(subterms(y)) for y in added):
                        c.violation(where, "a fixed colour of the image is not handed to the histogram (%s)" % what, key="add_image lost")
                idx = [[z.a[1] for z in y.a[2] if isint(z)] for y in added if y.op == "agg"]
                if len(idx) == ni and all(len(z) == 1 for z in idx) and [z[0] for z in idx] != sorted({z[0] for z in idx}):
                    c.violation(where, "the order of the image's fixed colours is lost (%s)" % what, key="add_image order")
            else:
                if o[1] == "BufferTooSmall" and nh + ni <= MAX:
                    c.violation(where, "an image is refused although the total of fixed colours is %d (%s)" % (nh + ni, what), key="add_image refused")
                if nh + ni > MAX and added:
                    c.violation(where, "a refused image leaves fixed colours in the histogram (%s)" % what, key="add_image kept")
        if nh + ni <= MAX and not oks:
            c.violation(where, "an image cannot be added (%s)" % what, key="add_image refused")


def listing(c):
    """the histogram's set becomes the list that is inserted: all of it, in the order the colours were added"""
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    f = set_field(p)
    HI = "imagequant::hist::Histogram"

    def made(k):
        t = p.ty(p.fns[k]["locals"][0])
        ts = [x for x in t.get("args", []) if isinstance(x, int)] if t["k"] == "enum" else [p.fns[k]["locals"][0]]
        return next((x for x in ts if p.ty(x)["k"] == "struct" and fixed_field(p, x, P) is not None and p.ty(x)["name"] != HI), None)
    ks = [k for k in local_fns(p) if HI in M.pnames(p, k) and made(k) is not None and " as " not in k]
    ks = [k for k in ks if not any(k in cg.reach_from(p, [o]) for o in ks if o != k)]
    if not ks:
        c.undecide("no function that turns a histogram into the input of the search")
    for k in ks:
        c.count("listings")
        hi = M.pnames(p, k).index(HI)
        for order in ((0, 1), (5, 2), (1, 0, 2)):
            a = symargs(p, k)
            st = State()
            e = c.engine(p)
            root = e.target(st, a[hi])[0]
            t = p.ty(p.fields(M.deref_id(p, a[hi].ty))[f])["args"][0]
            fs = p.fields(t)
            items, cols = [], []
            for n, i in enumerate(order):
                x = mk("sym", "colour%d" % n, "")
                x.ty = next((y for y in fs if rgba(p, y)), None)
                if x.ty is None or len(fs) != 2:
                    raise Giveup("elements of the set of fixed colours")
                cols.append(x)
                v = mk("agg", p.ty(t)["name"], 0, tuple(x if rgba(p, y) else cint(i) for y in fs))
                v.ty = t
                items.append(v)
            h = mk("sym", "set of fixed colours", "")
            st.mem[mk("D", h)] = mk("agg", "array", 0, tuple(items))

            def walk(e, st_, ce, args, tys, dty, fp):
                if p.ty(M.deref_id(p, tys[0])).get("name") != "std::collections::hash::set::HashSet" if tys and tys[0] is not None else True:
                    return NotImplemented
                return [(st_, mk("iter", "slice", h, cint(0), cint(len(items))))]
            for nm in ("std::collections::hash::set::HashSet::iter", "core::iter::traits::collect::IntoIterator::into_iter"):
                e.hooks[nm] = walk
            e.EXACT, e.PEEL, e.CAP, e.RETCAP, e.STEPS = True, 4, 400, 400, 200000
            conv = {norm(p.fns[x]["path"]) for x in local_fns(p) if p.fns[x]["locals"][0] == P.colty and any(rgba(p, y) for y in M.params(p, x))}

            def convert(e, st_, ce, args, tys, dty, fp):
                r = mk("app", "converted", tuple(x for x, y in zip(args, tys) if y is not None and rgba(p, y)))
                r.ty = dty
                return [(st_, r)]
            for nm in conv:
                e.hooks[nm] = convert
            c.obligation()
            try:
                rs = e.run(k, a, st)
            except Giveup as g:
                c.undecide("listing of fixed colours: %s" % g)
                continue
            finally:
                c.done(e)
            where = c.loc(p, k)
            want = [x for _, x in sorted(zip(order, cols), key=lambda y: y[0])]
            n_ok = 0
            for s, r in rs:
                o = outcome(p, s, r)
                if o is None or o[0] == "err":
                    continue
                n_ok += 1
                v = e.proj(s, o[1] if o[1] is not None else r, ("f", 0, fixed_field(p, made(k), P)))
                n = e.len_of(s, v) if v.op != "vec" else v.a[1]
                rt = v.a[0] if v.op == "vec" else e.target(s, v)[0]
                if not isint(n):
                    c.undecide("listing of fixed colours: length unknown: %s" % show(v)[:80])
                    continue
                got = [[x for x in cols if x in set(subterms(e.rd(s, rt, (("e", cint(i)),))))] for i in range(n.a[1])]
                if any(len(g) != 1 for g in got):
                    c.undecide("listing of fixed colours: elements not followed")
                elif set(want) - {g[0] for g in got}:
                    c.violation(where, "a fixed colour of the histogram is not in the list given to the search", key="listing lost")
                elif [g[0] for g in got] != want:
                    c.violation(where, "the fixed colours are not listed in the order in which they were added", key="listing order")
            if not n_ok:
                c.undecide("listing of fixed colours: no successful exit")


def built(P):
    """functions that make a result from a palette search"""
    p = P.p
    ss = set(searches(P))
    rt = next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES), None)
    out = [k for k in local_fns(p) if holds(p, p.fns[k]["locals"][0], rt) and cg.reach_from(p, [k]) & ss and " as " not in k]
    return [k for k in out if not any(o != k and o in cg.reach_from(p, [k]) for o in out)], rt, ss


def res_palette(c, P, k, rt, ss, pops):
    """run a constructor of results with a search that finds the given palette -> engine, [(state, palette of the result)]"""
    p = P.p
    cols = [P.sym("pal%d" % i) for i in range(len(pops))]
    muts = {x for x in local_fns(p) if P.mut_params(x) and not norm(p.fns[x]["path"]).startswith(PALF + "::")}

    def found(e, st, ce, args, tys, dty, fp):
        out = []
        for s, r in e.opaque_default(st, norm(ce["p"]), ce, args, tys, dty):
            bad = s.copy()
            pv, _ = P.make(s, pops, cols=cols)
            t = p.ty(dty)
            if t.get("name") != "core::result::Result":
                raise Giveup("search does not return a Result")
            inner = t["args"][0]
            if inner == P.ty:
                v = pv
            else:
                if p.ty(inner)["k"] != "tuple":
                    raise Giveup("search returns an unknown shape")
                fs = []
                for i, y in enumerate(p.ty(inner)["f"]):
                    z = pv if y == P.ty else e.fresh(s, "found", y)
                    fs.append(z)
                v = mk("agg", "()", 0, tuple(fs))
                v.ty = inner
            ok = mk("agg", "core::result::Result", 0, (v,))
            ok.ty = dty
            out.append((s, ok))
        return out
    hooks = {norm(p.fns[x]["path"]): found for x in ss}
    keep = cg.closure_reachers(p, ss | muts | {x for x in local_fns(p) if P.mut_params(x)})
    e = c.engine(p, hooks=hooks, opaque=cg.pruned(p, keep))
    e.EXACT, e.PEEL, e.CAP, e.RETCAP, e.STEPS = True, 5, 4000, 4000, 800000
    rs = e.run(k, symargs(p, k))
    c.done(e)
    fi = [i for i, t in enumerate(p.fields(rt)) if t == P.ty]
    if len(fi) != 1:
        raise Giveup("palette of the result not identified")
    out = []
    for s, r in rs:
        o = outcome(p, s, r)
        if o is not None and o[0] == "err":
            continue
        v = o[1] if o is not None and o[1] is not None else r
        out.append((s, P.entries(e, s, e.proj(s, v, ("f", 0, fi[0])))))
    return e, cols, out


def results(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    ks, rt, ss = built(P)
    if not ks:
        c.undecide("no function that makes a result from a palette search")
    for k in ks:
        c.count("constructors")
        for pops in ([P.fixed, P.zero, P.fixed0], [P.plain, P.fixed]):
            c.obligation()
            e, cols, outs = res_palette(c, P, k, rt, ss, pops)
            if not outs:
                c.undecide("%s: no result" % norm(p.fns[k]["path"]))
            for s, es in outs:
                if es is None:
                    c.undecide("%s: palette of the result not followed" % norm(p.fns[k]["path"]))
                    continue
                for j, pop in enumerate(pops):
                    if P.marked(pop):
                        w = judge(P, e, s, es, cols, j, False)
                        if w == "?":
                            c.undecide("%s: entries not followed" % norm(p.fns[k]["path"]))
                        elif w:
                            c.violation(c.loc(p, k), w, key="result " + w)
