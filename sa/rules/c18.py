"""C18: a clone carries everything. Cloning attributes, images and results yields objects in which every setting, colour,
map and cached value equals the original's; the only documented difference is that a cloned result has no progress
callback. Row pointers of a cloned image lead into the clone's own copy of the pixels.
Method: symbolic value analysis over MIR of every Clone implementation of the library: cloning of a part is the identity
(each part's own implementation is analysed by itself), the value returned on every path is compared with the original
field by field."""
from util import *
from ctx import symargs
import cg

PUBLIC = ["imagequant::attr::Attributes", "imagequant::image::Image", "imagequant::quant::QuantizationResult"]
CALLBACK = "dyn core::ops::function::Fn(f32)"


def clones(p):
    out = {}
    for k in p.fns:
        m = re.match(r"<(.*) as core::clone::Clone>::clone$", k)
        if m and "{closure" not in k and cg.is_local(p, k):
            out[k] = m.group(1)
    return out


def check(c):
    c.floors = {"clone_impls": 6}
    c.rule("for every path of every clone(): returned.field == self.field for all fields (a result's progress callback excepted: absent); rows of a clone that owns pixels are not the original's rows")
    c.assumptions += ["parts cloned by standard types (Vec, Box, Option, Arc, ArrayVec) are equal copies"]
    for lib in ("imagequant", "imagequant_sys"):
        p = c.prog("ffi", lib)
        cl = clones(p)
        if lib == "imagequant":
            for t in PUBLIC:
                if not any(norm(x).split("<")[0].rstrip(":") == t for x in cl.values()):
                    c.violation(t, "can no longer be cloned", key="missing " + t)
        jobs = [k for k in sorted(cl) if not trivially_copy(p, k)]

        def job(k):
            c.count("clone_impls")
            try:
                one(c, p, k)
            except Giveup as g:
                c.undecide("%s: %s" % (k, g))
        c.parallel(jobs, job)
    attr_copy(c)


def trivially_copy(p, k):
    f = p.fns[k]
    return len(f["blocks"]) == 1 and not f["blocks"][0]["s"][1:]


def ident(e, st, ce, args, tys, dty, fp):
    v = e.deref(st, args[0])
    return [(st, v)]


def engine(c, p, key):
    hk = {}
    for k in clones(p):
        if k != key:
            hk[norm(k)] = ident
            hk[norm(p.fns[k]["path"])] = ident

    def opq(e, st, name, ce, args, argtys, dty):
        if name.split("::")[-1] == "clone" and args and p.ty(argtys[0])["k"] == "ref":
            return ident(e, st, ce, args, argtys, dty, "")
        return NotImplemented
    hk["*opaque"] = opq
    for n in ("core::clone::Clone::clone", "alloc::sync::Arc::clone"):
        hk[n] = ident
    e = c.engine(p, hooks=hk)
    e.RETCAP = 64
    return e


def one(c, p, key):
    e = engine(c, p, key)
    a = symargs(p, key)
    rets = e.run(key, a)
    c.done(e)
    where = c.loc(p, key)
    for s, r in rets:
        orig = mk("deref", a[0])
        orig.ty = p.fns[key]["locals"][0]
        root, path, _ = e.target(s, a[0])
        orig = e.rd(s, root, path) if s.mem.get(root) is not None else orig
        compare(c, p, e, s, r, orig, p.fns[key]["locals"][0], where, short(p, key), key)


def short(p, key):
    return norm(re.sub(r"<.*", "", clones(p)[key])).split("::")[-1]


def is_cb(p, ty):
    return CALLBACK in p.ty(ty)["s"] and p.ty(ty)["s"].startswith("core::option::Option<")


def compare(c, p, e, s, v, orig, ty, where, what, key, d=0):
    c.obligation()
    t = p.ty(ty)
    if v is orig:
        return
    if v.op == "phi" or d > 6:
        c.undecide("%s: not determined" % what)
        return
    if is_cb(p, ty) and what.startswith("QuantizationResult") and v.op == "agg" and v.a[1] == 0:
        return      # documented
    if v.op == "agg" and t["k"] == "struct":
        for i, (n, fty, *_) in enumerate(t["v"][0]["f"]):
            compare(c, p, e, s, v.a[2][i], e.proj(s, orig, ("f", 0, i)), fty, where, what + "." + n, key, d + 1)
        return
    if v.op == "agg" and t["k"] == "enum":
        od = s.disc.get(orig)
        if od is None and orig.op == "agg":
            od = orig.a[1]
        if od is None:
            poss = [i for i in range(len(t["v"])) if i not in (s.ndisc.get(orig) or ())] if hasattr(s, "ndisc") else list(range(len(t["v"])))
            if v.a[1] not in poss or len(poss) > 1:
                c.violation(where, "%s is %s in the clone whatever it is in the original" % (what, t["v"][v.a[1]]["n"]), key="%s %s" % (key, what))
            return
        if od != v.a[1]:
            if t["name"].endswith("PixelsSource") and t["v"][od]["n"] == "Callback":
                c.count("materialised")
                return      # callback images are copied into memory
            if t["name"].endswith("SeaCowInner") and t["v"][v.a[1]]["n"] == "Boxed":
                return      # memory owned by the C caller is copied
            c.violation(where, "%s is %s in the clone of an object where it is %s" % (what, t["v"][v.a[1]]["n"], t["v"][od]["n"]), key="%s %s" % (key, what))
            return
        names = [n for n, *_ in t["v"][od]["f"]]
        subs = [(n, fty, v.a[2][i], e.proj(s, orig, ("f", od, i))) for i, (n, fty, *_) in enumerate(t["v"][od]["f"])]
        if t["name"].endswith("PixelsSource") and t["v"][od]["n"] == "Pixels":
            rows = next((x for x in subs if x[0] == "rows"), None)
            px = next((x for x in subs if x[0] == "pixels"), None)
            if rows and px:
                c.count("row_tables")
                have = s.disc.get(px[3])
                can = have == 1 or have is None and 1 not in (s.ndisc.get(px[3]) or ())     # the path covers images with pixels of their own
                if rows[2] is rows[3] and can and not borrowed(p, e, s, px[3]):
                    c.violation(where, "the clone has its own copy of the pixels, but its rows still point into the original's memory", key="%s rows alias" % key)
                subs = [x for x in subs if x is not rows]
        for n, fty, x, o in subs:
            compare(c, p, e, s, x, o, fty, where, what + "." + n, key, d + 1)
        return
    if v.op in ("ref", "fat", "vec") or t["k"] in ("ref", "ptr", "array", "float", "int", "uint", "bool") or t["k"] == "enum":
        if not any(x is orig for x in subterms(v)) and definite(v):
            c.violation(where, "%s is %s in the clone, not the original's value" % (what, show(v)[:60]), key="%s %s" % (key, what))
        elif not any(x is orig for x in subterms(v)):
            c.undecide("%s: not determined" % what)
        return
    if not any(x is orig for x in subterms(v)):
        if definite(v):
            c.violation(where, "%s is %s in the clone, not the original's value" % (what, show(v)[:60]), key="%s %s" % (key, what))
        else:
            c.undecide("%s: not determined" % what)


def definite(v):
    """a constant, or a value taken from another part of the original"""
    if v.op == "c":
        return True
    if v.op == "vec":
        return v.a[1].op == "c"     # a vector of constant length (empty)
    return v.op == "fld" and all(x.op != "phi" and not (x.op == "sym" and str(x.a[0]).startswith(("call:", "havoc"))) for x in subterms(v))


def borrowed(p, e, s, opt):
    """the pixels are known to be borrowed: cloning copies no memory"""
    v = e.proj(s, e.proj(s, opt, ("f", 1, 0)), ("f", 0, 0))
    d = s.disc.get(v)
    if d is None or v.ty is None:
        return False
    return p.ty(v.ty)["v"][d]["n"] == "Borrowed"


def attr_copy(c):
    """liq_attr_copy: the new object holds the clone of the given attributes"""
    p = c.prog("ffi", "imagequant_sys")
    k = find_fn(p, "imagequant_sys::liq_attr_copy")
    if k is None:
        c.violation("imagequant_sys::liq_attr_copy", "function not found: the guarantee has lost its implementation", key="missing liq_attr_copy")
        return
    c.count("clone_impls")
    e = engine(c, p, k)
    a = symargs(p, k)
    for s, r in e.run(k, a):
        o = outcome(p, s, r)
        if o is None or o[0] != "ok" or o[1] is None:
            continue
        root, path, _ = e.target(s, o[1])
        v = e.rd(s, root, path)
        ot = e.rd(s, *e.target(s, a[0])[:2])
        st = p.ty(p.ty(a[0].ty)["e"])
        for i, (n, fty, *_) in enumerate(st["v"][0]["f"]):
            if p.ty(fty)["k"] in ("struct", "ptr"):
                if "Magic" in p.ty(fty)["s"]:
                    continue
            compare(c, p, e, s, e.proj(s, v, ("f", 0, i)), e.proj(s, ot, ("f", 0, i)), fty, c.loc(p, k), "liq_attr." + n, k)
    c.done(e)
