"""C12: memory handed over through the C API is released exactly once, with the allocator of the attributes object it
came through; memory that was not handed over is never released.
Method: typestate over MIR. Each scenario (image kind x sequence of ownership calls) is interpreted path-sensitively
from creation to destruction, including the compiler's drop glue and the Drop implementations; every call through a C
function pointer is recorded as a release, and every path's releases are compared with what its calls transferred."""
from util import *
from ctx import symargs
from rules.c01 import is_bad_handle

S = "imagequant_sys::"
CREATE = {"rows": S + "liq_image_create_rgba_rows", "bitmap": S + "liq_image_create_rgba", "custom": S + "liq_image_create_custom"}
OWN, DESTROY, IMP, BG = (S + n for n in ("liq_image_set_memory_ownership", "liq_image_destroy", "liq_image_set_importance_map", "liq_image_set_background"))
ROWS, PIXELS, COPY = 4, 8, 16
SEQ = {
    "rows": [(), (4,), (8,), (12,), (4, 4), (8, 8), (12, 12), (4, 8), (8, 4), (4, 12), (8, 12), (12, 4), (0,), (16,), (20,), (28,), (1,), (-1,), (4, 0, 8)],
    "bitmap": [(), (4,), (8,), (12,), (8, 8), (0,), (16,), (24,), (-1,)],
    "custom": [(), (4,), (8,), (12,), (0,), (16,), (4, 8)],
}


def pick(e, st, ce, args, argtys, dty, fp):
    """the last/greatest element of an iterator: certainly not the lowest row in general"""
    if dty is None or e.p.ty(dty).get("name") != "core::option::Option":
        return NotImplemented
    t = e.p.ty(e.p.ty(dty)["v"][1]["f"][0][1])
    if t["k"] != "ptr":
        return NotImplemented
    st = st.copy()
    y = mk("sym", "not the lowest row", e.pos)
    y.ty = e.p.ty(dty)["v"][1]["f"][0][1]
    return [(st, mk("agg", "core::option::Option", 1, (y,)))]


IT = "core::iter::traits::iterator::Iterator::"


def hook(e, st, name, ce, args, tys, dty):
    if name == "fnptr":
        st = st.copy()
        st.ghost["freed"] = st.ghost.get("freed", ()) + ((args[0], args[1] if len(args) > 1 else None, e.pos),)
        return [(st, UNIT)]
    return NotImplemented


def lit(p, ty, n):
    t = p.ty(ty)
    if t["k"] == "int":
        return cint(n)
    if t["k"] != "struct" or len(t["v"][0]["f"]) != 1:
        raise Giveup("flags argument of type " + t["s"])
    v = mk("agg", t["name"], 0, (lit(p, t["v"][0]["f"][0][1], n),))
    v.ty = ty
    return v


def fn_field(e, p, st, ptr, ty):
    """the single C function pointer stored in the object behind ptr"""
    t = p.ty(ty)
    while t["k"] in ("ref", "ptr"):
        ty = t["e"]
        t = p.ty(ty)
    if t["k"] != "struct":
        return None
    fs = [i for i, f in enumerate(t["v"][0]["f"]) if p.ty(f[1])["k"] == "fnptr"]
    if len(fs) != 1:
        return None
    root, path, _ = e.target(st, ptr)
    return e.rd(st, root, tuple(path) + (("f", 0, fs[0]),))


class Life:
    """one image being followed"""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.e = e = c.engine(p, hooks={"*opaque": hook, IT + "max": pick, IT + "last": pick})
        e.DROPS = e.BOXES = True
        e.RETCAP = 64
        self.keys = {n: find_fn(p, n) for n in list(CREATE.values()) + [OWN, DESTROY, IMP, BG]}

    def create(self, kind, tag=""):
        """-> [(state, boxed option, handle, args)] successful creations"""
        p, e = self.p, self.e
        k = self.keys[CREATE[kind]]
        args = symargs(p, k, tag=tag)
        out = []
        for s, r in e.run(k, args, self.base):
            if s.ghost.get("freed", ()) != self.base.ghost.get("freed", ()):
                self.bad(k, "creating an image releases memory", "create frees")
            o = outcome(p, s, r)
            if o is None or o[0] != "ok" or o[1] is None:
                continue
            out.append((s, r, o[1], args))
        return out[:3]

    def bad(self, key, what, ident):
        self.c.violation(self.c.loc(self.p, key), what, key="%s %s" % (norm(key), ident))


def handle(e, s, box):
    rt, pth, _ = e.target(s, box)
    return e.mkref(s, rt, pth, None)


def check(c):
    c.floors = {"scenarios": 30}
    c.rule("on every path: released pointers == pointers whose ownership was accepted (each once), by the free function of the creating attributes; a refused call transfers nothing")
    c.assumptions += ["the C caller's pointers are distinct allocations", "an image used as background has no background of its own (enforced by the library, part of C10)"]
    p = c.prog("ffi", "imagequant_sys")
    for n in list(CREATE.values()) + [OWN, DESTROY, IMP, BG]:
        if find_fn(p, n) is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return
    jobs = [("own", k, q) for k in SEQ for q in SEQ[k]] + [("early", k, q) for k in ("rows", "bitmap") for q in ((12,), (8,), (4,), ())] \
        + [("imp", "rows", (f,)) for f in (COPY, PIXELS, ROWS, 0, 12, 24)] + [("bg", k, q) for k in ("rows",) for q in ((12,), (8,), ())] + [("bg2", "rows", (12,)), ("clone", "rows", ())] \
        + [("impany", "rows", (f,)) for f in (COPY, PIXELS, 0)]

    def one(job):
        c.count("scenarios")
        try:
            if job[0] == "clone":
                clone(c)
            else:
                p.activate()
                scenario(c, p, *job)
        except Giveup as g:
            c.undecide("%s: %s" % (job, g))
    c.parallel(jobs, one)


def expect(L, st, kind, args, flags, base=()):
    """pointers transferred by an accepted ownership call"""
    out = []
    if flags & ROWS and kind == "rows":
        out.append(("rows", args[1]))
    if flags & PIXELS:
        out.append(("pixels", args[1] if kind == "bitmap" else None))
    return out


def apply_own(L, states, kind, args, flags):
    """states: [(state, expected)] -> after the ownership call"""
    p, e = L.p, L.e
    k = L.keys[OWN]
    out = []
    for s, box, exp in states:
        fv = lit(p, p.fns[k]["locals"][2], flags)
        for s2, r2 in e.run(k, [handle(e, s, box), fv], s.copy()):
            if is_bad_handle(s2):
                continue
            o = outcome(p, s2, r2)
            if o is None:
                L.c.undecide("ownership call result unknown")
                continue
            x = exp
            if o[0] == "ok":
                bits = flags & 0xffffffff
                if bits == 0 or bits & ~12:
                    L.bad(k, "accepts ownership flags %d that are not a combination of the two ownership flags" % flags, "accepts invalid flags")
                elif kind == "custom":
                    L.bad(k, "accepts ownership of an image that has no rows or pixels in memory", "accepts custom")
                for it in expect(L, s2, kind, args, bits):
                    if it[0] not in [a[0] for a in x]:
                        x = x + (it,)
            elif flags in (4, 8, 12) and kind == "rows" and not s.ghost.get("released"):
                L.bad(k, "refuses ownership of an image created from rows (flags %d)" % flags, "refuses valid flags")
            out.append((s2, box, x))
    return out


def boxes(L, k, st, root, what):
    """a handle given away: its own allocation is released exactly once"""
    L.c.obligation()
    n = sum(1 for r in st.ghost.get("boxes", ()) if r is root)
    if n == 0:
        L.bad(k, "the allocation of %s is never released" % what, "leaks the handle")
    elif n > 1:
        L.bad(k, "the allocation of %s is released %d times" % (what, n), "frees the handle twice")


def destroy(L, states, opt=None):
    e = L.e
    out = []
    for s, box, exp in states:
        v = mk("agg", "core::option::Option", 1, (box,))
        for s2, _ in e.run(L.keys[DESTROY], [v], s.copy()):
            if not is_bad_handle(s2):
                boxes(L, L.keys[DESTROY], s2, e.target(s, box)[0], "the destroyed image")
                out.append((s2, box, exp))
    return out


def fixed_row(t, rows):
    """the pointer stored at a constant position of the row array"""
    while t.op == "fld":
        t = t.a[0]
    return t.op == "sel" and isint(t.a[1]) and t.a[1].op == "c" and t.a[0].op == "deref"


def judge(L, st, exp, free, what, where=None):
    c = L.c
    c.obligation()
    c.count("paths")
    where = where or L.keys[DESTROY]
    freed = list(st.ghost.get("freed", ()))
    want = list(exp)
    rows = [t for t in want if t[1] is not None]
    left = list(freed)
    for name, ptr in rows:
        m = [f for f in left if f[1] is ptr]
        if len(m) > 1:
            L.bad(where, "%s: the %s array is released %d times" % (what, name, len(m)), "double free " + name)
        elif not m and name == "rows":
            L.bad(where, "%s: the row-pointer array whose ownership was passed is never released" % what, "leak " + name)
        if name == "pixels" and not m:
            continue            # compared by count below: the start of the bitmap may be any expression
        left = [f for f in left if f[1] is not ptr]
    opaque = [t for t in want if t[0] == "pixels" and not any(f[1] is t[1] for f in freed)] + [t for t in want if t[0] not in ("pixels", "rows") and t[1] is None]
    for f in left:
        if f[1] is not None and f[1].op == "ref" and f[1].a and f[1].a[0].op == "H":
            L.bad(where, "%s: memory allocated by the library itself is passed to the caller's free function" % what, "frees own memory")
            return
    if len(left) > len(opaque):
        L.bad(where, "%s: releases memory that was not handed over, or twice (%d releases, %d transferred)" % (what, len(freed), len(want)), "extra free")
    elif len(left) < len(opaque):
        L.bad(where, "%s: memory whose ownership was passed is never released (%d releases, %d transferred)" % (what, len(freed), len(want)), "leak pixels")
    for f in freed:
        if f[1] is not None and (f[1].op == "sym" and f[1].a[0] == "not the lowest row" or fixed_row(f[1], rows)):
            L.bad(where, "%s: the pixels are released at an address that is not the lowest row" % what, "not lowest row")
        if free is not None and f[0] is not free and f[0].op != "phi":
            L.bad(where, "%s: memory is released with a function other than the attributes' free function" % what, "wrong free")


def scenario(c, p, mode, kind, seq):
    L = Life(c, p)
    e = L.e
    L.base = State()
    if mode == "impany":
        importance_any(L, seq[0])
        c.done(e)
        return
    attr_ty = p.fns[L.keys[CREATE[kind]]]["locals"][1]
    made = L.create(kind)
    if not made:
        c.undecide("no successful creation of %s images found" % kind)
        return
    c.count("creations", len(made))
    for s, r, box, args in made:
        free = fn_field(e, p, s, args[0], attr_ty)
        states = [(s, box, ())]
        if mode == "own":
            for fl in seq:
                states = apply_own(L, states, kind, args, fl)
            n = len(states)
            for s2, _, exp in states:
                if s2.ghost.get("freed") and not exp:
                    L.bad(L.keys[OWN], "the ownership call releases memory", "own frees")
            for s2, _, exp in destroy(L, states):
                judge(L, s2, exp, free, "%s image, ownership flags %s, destroyed" % (kind, list(seq)))
        elif mode == "early":
            early(L, kind, seq, states, args, free)
        elif mode == "imp":
            importance(L, seq[0], states, free)
        elif mode in ("bg", "bg2"):
            background(L, mode, seq, states, args, free)
    c.done(e)


def releasers(p):
    """crate-internal early release: functions of one argument, a mutable reference to a type that holds pixel sources"""
    out = []
    for k, f in p.fns.items():
        if f["n"] != 1 or not f["path"].startswith("imagequant::") and "<imagequant::" not in f["path"]:
            continue
        if p.ty(f["locals"][0])["k"] != "tuple" or " as " in f["path"] or "{closure" in f["path"]:
            continue
        a = p.ty(f["locals"][1])
        if a["k"] == "ref" and a.get("mut") and p.ty(a["e"]).get("name") == "imagequant::image::Image":
            out.append(k)
    return out


def early(L, kind, seq, states, args, free):
    p, e = L.p, L.e
    for k in releasers(p):
        L.c.count("early_release_functions")
        sts = states
        for fl in seq:
            sts = apply_own(L, sts, kind, args, fl)
        nxt = []
        for s, box, exp in sts:
            rt, pth, _ = e.target(s, box)
            img = inner_image(L, s, rt, pth)
            if img is None:
                L.c.undecide("image inside the handle not found")
                return
            for cached in (True, False):
                s1 = s.copy()
                cache_floats(L, s1, img, cached)
                for s2, _ in e.run(k, [e.mkref(s1, img[0], img[1], None)], s1):
                    s2.ghost["released"] = True
                    nxt.append((s2, box, exp))
        for again in ((), (12,), (4,), (8,)):
            s3 = nxt
            for fl in again:
                s3 = apply_own(L, s3, kind, args, fl)
            for s4, _, exp in destroy(L, s3):
                judge(L, s4, exp, free, "%s image, ownership flags %s, pixels released early (%s), then flags %s, destroyed" % (kind, list(seq), norm(k).split("::")[-1], list(again)), where=k)


def inner_image(L, s, rt, pth):
    """place of the Image inside a liq_image (first field of that type, ManuallyDrop is transparent)"""
    p, e = L.p, L.e
    t = next((t for t in p.types if t["k"] == "struct" and t.get("name") == S + "liq_image"), None)
    if t is None:
        return None
    for i, f in enumerate(t["v"][0]["f"]):
        if "imagequant::image::Image" in p.ty(f[1])["s"]:
            return rt, tuple(pth) + (("f", 0, i),)
    return None


def cache_floats(L, st, img, cached):
    """force the optional float copy of the pixels to be present/absent"""
    p, e = L.p, L.e

    def walk(ty, root, path, depth):
        t = p.ty(ty)
        if t["k"] != "struct" or depth > 3:
            return
        for i, f in enumerate(t["v"][0]["f"]):
            ft = p.ty(f[1])
            if ft["k"] == "enum" and ft.get("name") == "core::option::Option" and "f_pixel]" in ft["s"]:
                if cached:
                    y = mk("sym", "floats", i)
                    y.ty = ft["v"][1]["f"][0][1]
                    v = mk("agg", "core::option::Option", 1, (y,))
                else:
                    v = mk("agg", "core::option::Option", 0, ())
                e.wr(st, root, path + (("f", 0, i),), v)
            elif ft["k"] == "struct" and (ft.get("name") or "").startswith("imagequant::"):
                walk(f[1], root, path + (("f", 0, i),), depth + 1)
    ty = next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == "imagequant::image::Image")
    walk(ty, img[0], img[1], 0)


def clone(c):
    """a clone (Rust API) of an image that owns C memory must not own it too"""
    p = c.prog("ffi", "imagequant")
    for k in sorted(p.fns):
        if not k.startswith("<imagequant::") or not k.endswith("as core::clone::Clone>::clone"):
            continue
        L = Life(c, p)
        e = L.e
        ity = p.fns[k]["locals"][0]
        if not e.drops_local(ity):
            continue
        c.count("clone_functions")
        args = symargs(p, k)
        try:
            rets = e.run(k, args)
            for s2, r2 in rets:
                root = e.alloc(s2, r2, ity)
                for s3 in e.drop_place(s2, root, (), ity, "cl"):
                    c.obligation()
                    c.count("paths")
                    # a release of a pointer that is stored in the original
                    if any(f[1] is not None and mentions(f[1], args[0]) and not any(x.op == "sym" and x is not args[0] for x in subterms(f[1])) for f in s3.ghost.get("freed", ())):
                        L.bad(k, "dropping a clone releases C memory that belongs to the original", "clone frees")
        except Giveup as g:
            c.undecide("%s: %s" % (norm(k), g))
        c.done(e)


def importance(L, flag, states, free):
    p, e = L.p, L.e
    k = L.keys[IMP]
    for s, box, exp in states:
        a = symargs(p, k, tag="imp")
        a[0] = handle(e, s, box)
        a[3] = lit(p, p.fns[k]["locals"][4], flag)
        for s2, r2 in e.run(k, a, s.copy()):
            if is_bad_handle(s2):
                continue
            o = outcome(p, s2, r2)
            if o is None:
                L.c.undecide("importance map result unknown")
                continue
            if o[0] == "ok" and flag not in (COPY, PIXELS):
                L.bad(k, "accepts ownership value %d" % flag, "accepts invalid ownership")
            x = (("map", a[1]),) if o[0] == "ok" and flag == PIXELS else ()
            for s3, _, _ in destroy(L, [(s2, box, x)]):
                freed = [f for f in s3.ghost.get("freed", ()) if f[1] is a[1]]
                other = [f for f in s3.ghost.get("freed", ()) if f[1] is not a[1]]
                L.c.obligation()
                L.c.count("paths")
                what = "importance map with ownership %d, call %s, image destroyed" % (flag, "succeeded" if o[0] == "ok" else "failed with " + str(o[1]))
                if len(freed) > len(x):
                    L.bad(k, "%s: the map is released %d times" % (what, len(freed)), "map freed wrongly")
                elif len(freed) < len(x) and not other:
                    L.bad(k, "%s: the map is never released" % what, "map leaked")
                elif len(other) > 0 and not x:
                    L.bad(k, "%s: other memory is released" % what, "map other free")
                for f in s3.ghost.get("freed", ()):
                    if free is not None and f[0] is not free and f[0].op != "phi":
                        L.bad(k, "%s: released with a function other than the attributes' free function" % what, "map wrong free")


def importance_any(L, flag):
    """a map given to an image in any state: it is released during the call, or kept in the image"""
    p, e = L.p, L.e
    k = L.keys[IMP]
    a = symargs(p, k, tag="imp")
    a[3] = lit(p, p.fns[k]["locals"][4], flag)
    for s, r in e.run(k, a, State()):
        o = outcome(p, s, r)
        if is_bad_handle(s) or o is None:
            continue
        L.c.obligation()
        L.c.count("paths")
        n = sum(1 for f in s.ghost.get("freed", ()) if f[1] is a[1])
        given = o[0] == "ok" and flag == PIXELS
        what = "importance map with ownership %d given to any image, call %s" % (flag, "succeeded" if o[0] == "ok" else "failed with " + str(o[1]))
        if n > given:
            L.bad(k, "%s: the map is released %d times" % (what, n), "map freed wrongly")
        elif n < given and not s.ghost.get("freed") and not any(mentions(v, a[1]) for v in s.mem.values()):
            L.bad(k, "%s: the map is neither released nor kept" % what, "map leaked")


def background(L, mode, seq, states, args, free):
    p, e = L.p, L.e
    k = L.keys[BG]
    for s, box, exp in states:
        s = s.copy()
        s.ghost["foreground"] = box
        todo = [(s, box, ())]
        for n in range(2 if mode == "bg2" else 1):
            nxt = []
            for s1, _, x1 in todo:
                L.base = s1
                for s2, r2, bbox, bargs in L.create("rows", tag="bg%d" % n):
                    sts = [(s2, bbox, ())]
                    for fl in seq:
                        sts = apply_own(L, sts, "rows", bargs, fl)
                    for s3, _, bx in sts:
                        bx = tuple((nm if pt is not None else "bgpixels%d" % n, pt) for nm, pt in bx)
                        for s4, r4 in e.run(k, [handle(e, s3, box), bbox], s3.copy()):
                            if is_bad_handle(s4):
                                continue
                            boxes(L, k, s4, e.target(s3, bbox)[0], "the background handed over")
                            nxt.append((s4, box, x1 + bx))
            todo = nxt[:48]
        for s5, _, x in destroy(L, todo):
            judge(L, s5, x, None, "background with ownership flags %s%s, foreground destroyed" % (list(seq), ", set twice" if mode == "bg2" else ""), where=k)
