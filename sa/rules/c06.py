"""C06: minimum quality is enforced. With a minimum quality set, quantization succeeds only with a palette whose measured
error is known and within the limit, and fails with QualityTooLow otherwise; QualityTooLow is never returned when the
error is within the limit or when no minimum was set.
Method: abstract interpretation of the public quantization entry points over MIR with a constant domain for the two
quantities the property relates: the limit stored in the attributes and the error every measurement reports. One
scenario per region of (limit, error): error above, below, at zero, no limit. Histogram sizes, speed settings, number of
trials and iterations, and the colours stay arbitrary; selection and measurement of the palette are opaque. In each
scenario the reachability of Ok / QualityTooLow and the error stored in the result are decided."""
from util import *
from ctx import symargs
import cg

A, H = "imagequant::attr::Attributes", "imagequant::hist::Histogram"
ENTRY = [A + "::quantize", H + "::quantize"]
RES = "imagequant::quant::QuantizationResult"
# name, limit (None: none set), error every measurement reports, allowed: 'fail' (Ok only with an exact palette) or 'ok' (never QualityTooLow)
SCEN = [("error above the limit", 1.0, 5.0, "fail"), ("error just above a limit of zero", 0.0, 1e-6, "fail"), ("error far below the limit", 1.0, 0.1, "ok"),
        ("no error at all, strictest limit", 0.0, 0.0, "ok"), ("no minimum quality, large error", None, 1e19, "ok")]


def check(c):
    import engine
    engine.SIGFLOAT = True
    c.floors = {"scenarios": 10}
    c.rule("limit < measured error => not Ok; measured error <= limit or no limit => not QualityTooLow; limit set and Ok => error of the result known and within the limit")
    c.assumptions += ["what the measurement computes is opaque (numeric); only that its result decides the outcome is shown", "allocation and abort failures are outside this property"]
    jobs = []
    for cfg in ("ffi", "nothreads") if c.thorough else ("ffi",):
        p = c.prog(cfg, "imagequant")
        seeds = {k for k in p.fns if cg.is_local(p, k) and (A, "max_mse") in cg.field_uses(p, k)}
        if not seeds:
            c.undecide("the field holding the minimum quality was not identified")
            c.floors = {}
            return
        keep = cg.closure_reachers(p, seeds)
        keep |= cg.closure_reachers(p, {k for k in p.fns if cg.is_local(p, k) and cg.builds_variant(p, k, "imagequant::error::Error", "QualityTooLow")})
        while True:     # helpers that pass the error around
            more = {ck for k in list(keep) if cg.is_local(p, k) for ck, _, _ in cg.callees_of(p, k)
                    if cg.is_local(p, ck) and ck not in keep and any("Option<f64>" in p.ty(t)["s"] for t in p.fns[ck]["locals"][:p.fns[ck]["n"] + 1])}
            if not more:
                break
            keep |= more
        for path in ENTRY:
            key = c.anchor(p, path)
            if key is not None:
                jobs += [(cfg, key, path, keep, sc) for sc in SCEN]

    def job(j):
        cfg, key, path, keep, sc = j
        p = c.prog(cfg, "imagequant")
        c.count("scenarios")
        try:
            scenario(c, p, key, path, keep, "%s [%s]" % (c.loc(p, key), cfg), *sc)
        except Giveup as g:
            c.undecide("%s (%s): %s" % (path, sc[0], g))
    c.parallel(jobs, job)
    try:
        fixed_only(c, c.prog("ffi", "imagequant"))
    except Giveup as g:
        c.undecide("weights of fixed colours: %s" % g)


def fixed_only(c, p):
    """Scenario: no colour has a weight of its own (fixed colours only). Errors are sums of weighted differences divided by
    the total weight: with every item's weight 0 the error is 0/0, which exceeds no limit."""
    p.activate()
    import evalt
    it = [i for i, t in enumerate(p.types) if t["k"] == "struct" and t["name"].startswith("imagequant::") and any(f[0] == "perceptual_weight" for f in t["v"][0]["f"])]
    ks = [k for k in p.fns if cg.is_local(p, k) and "{closure" not in k and "HistogramInternal" in p.ty(p.fns[k]["locals"][0])["s"]]
    if len(it) != 1 or not ks:
        c.undecide("weights of histogram items were not identified")
        return
    wi = p.fidx(it[0], "perceptual_weight")
    for k in ks:
        e = c.engine(p)
        seen = []

        def zeros(t):
            """every weight read from the histogram, and every sum of them, is 0"""
            env = {}
            for x in subterms(t):
                if x.op in ("sym", "sel", "fld", "phi") and (x.ty is None or p.ty(x.ty)["k"] == "float") and x.op != "phi":
                    env[x] = 0.0
            return env

        def ow(st, root, path, val):
            if val.op == "agg" and val.ty == it[0] and path and path[-1][0] == "e":
                val = val.a[2][wi]
            elif not (len(path) > 1 and path[-1] == ("f", 0, wi) and path[-2][0] == "e"):
                return
            if root.op == "H" and val.op != "phi":
                env = zeros(val)
                for t, b in st.truth.items():
                    if t.op == "fcmp":
                        r = evalt.ev(t, zeros(t))
                        if r is not None and r != b:
                            return          # not this scenario
                seen.append((e.fr.key if e.fr is not None else k, evalt.ev(val, env), val))
        e.obs_write = ow
        e.run(k, symargs(p, k))
        c.done(e)
        c.count("weights_stored", len(seen))
        if not seen:
            c.undecide("%s: no weight is stored in the scenario of fixed colours only" % norm(k))
        for fk, v, val in seen:
            c.obligation()
            if v is None:
                c.undecide("%s: weight not determined: %s" % (norm(fk), show(val)[:60]))
            elif not v > 0:
                c.violation(c.loc(p, fk), "with fixed colours only, every colour gets the weight %s: the measured error is 0/0, which passes any minimum quality" % v, key="%s zero weight" % norm(k))


def some(p, v, ty):
    r = mk("agg", "core::option::Option", 1, (v,))
    r.ty = ty
    return r


def scenario(c, p, key, path, keep, where, name, limit, err, want):
    def hook(e, st, n, ce, args, argtys, dty):
        t = p.ty(dty) if dty is not None else None
        if t is not None and t["k"] == "enum" and t["name"] == "core::result::Result":
            rs = e.opaque_default(st, n, ce, args, argtys, dty)
            out = []
            for s, v in rs:
                if t["s"].startswith("core::result::Result<f64,"):
                    c.count("measurements")
                    v = mk("agg", "core::result::Result", 0, (cfloat(err, 64),))
                    v.ty = dty
                else:
                    s.disc[v] = 0
                out.append((s, v))
            return out
        return NotImplemented

    def noabort(e, st, ce, args, argtys, dty, fp):
        return [(st, FALSE)]
    e = c.engine(p, hooks={"*opaque": hook, A + "::progress": noabort}, opaque=cg.pruned(p, keep))
    e.RETCAP = 24
    args = symargs(p, key)
    st = State()
    for a in args:
        t = p.ty(a.ty)
        if t["k"] == "ref" and p.ty(t["e"]).get("name") == A:
            root, pa, _ = e.target(st, a)
            i = p.fidx(t["e"], "max_mse")
            ty = p.fields(t["e"])[i]
            v = mk("agg", "core::option::Option", 0, ()) if limit is None else some(p, cfloat(limit, 64), ty)
            v.ty = ty
            e.wr(st, root, pa + (("f", 0, i),), v)
    n0 = c.counts.get("measurements", 0)
    rets = e.run(key, args, st)
    c.done(e)
    if c.counts.get("measurements", 0) == n0:
        c.undecide("%s: no measurement of the palette error was identified" % path)
        return
    for st, r in rets:
        c.obligation()
        o = outcome(p, st, r)
        if o is None:
            continue
        if o[0] == "err":
            if o[1] == "QualityTooLow" and want == "ok":
                c.violation(where, "QualityTooLow can be returned in the scenario: %s (limit %s, error %s)" % (name, limit, err), key="%s spurious" % path)
            continue
        if limit is None:
            continue
        ty = next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == RES), None)
        i = p.fidx(ty, "palette_error")
        if i is None:
            c.undecide("field of the result that holds the error was not identified")
            continue
        v = e.proj(st, o[1], ("f", 0, i))
        if v.op == "agg" and v.a[1] == 0:
            c.violation(where, "a minimum quality is set, yet the result can be returned without its error having been measured (%s)" % name, key="%s unmeasured" % path)
        elif v.op == "agg" and v.a[1] == 1:
            rg = e.frange(v.a[2][0])
            if rg is not None and rg[0] > limit:
                c.violation(where, "succeeds with error %s although the limit is %s (%s)" % (rg[0], limit, name), key="%s accepted" % path)
            elif rg is not None and rg[1] > limit:
                x = v.a[2][0]
                if not any(t.op == "fcmp" and x in t.a and b is False and t.a[2] is x or t.op == "fcmp" and t.a[1] is x and b is True for t, b in st.truth.items()):
                    c.undecide("%s (%s): exact and measured errors could not be told apart" % (path, name))
            elif rg is None:
                c.undecide("%s (%s): error of the result is not determined" % (path, name))
        else:
            c.undecide("%s (%s): error of the result is not determined" % (path, name))
