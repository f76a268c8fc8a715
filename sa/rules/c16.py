"""C16: quantizing and remapping leave what the user gave the image alone. The importance map, the background and the
fixed colours set on an image are still set, unchanged, after every call that computes something from the image.
Method: effect analysis by path-sensitive interpretation of MIR. Where a setting is stored is found by interpreting its
public setter; from the state it leaves, every computing call is interpreted on all paths, observing every write to the
stored field and to the memory behind it."""
import re
from util import *
from ctx import symargs
import cg
import remapm as M

IMG, ATTR, HIST = "imagequant::image::Image", "imagequant::attr::Attributes", "imagequant::hist::Histogram"
SET = {"importance map": IMG + "::set_importance_map", "background": IMG + "::set_background", "fixed colours": IMG + "::add_fixed_color"}
OPS = [ATTR + "::quantize", HIST + "::add_image", M.RES + "::remap_into", M.RES + "::remap_into_vec", M.RES + "::remapped",
       M.RES + "::optionally_prepare_for_dithering_with_background_set"]
OPTIONAL = {OPS[-1]}


def img_params(p, k):
    return [i for i, t in enumerate(M.params(p, k)) if p.ty(t)["k"] == "ref" and p.ty(t)["mut"] and M.deref_ty(p, t).get("name") == IMG]


def keep(p):
    """functions given a mutable reference to an optional setting have to be looked into"""
    s = set()
    for k in p.fns:
        if cg.is_local(p, k) and any(p.ty(t)["k"] == "ref" and p.ty(t)["mut"] and M.deref_ty(p, t).get("name") in ("core::option::Option", IMG) for t in M.params(p, k)):
            s.add(k)
    return cg.closure_reachers(p, s)


def writes_param(c, p, k, i, memo={}):
    """does function k write through its i-th parameter (a slice)"""
    if (k, i) not in memo:
        memo[(k, i)] = False
        e = c.engine(p)
        a = symargs(p, k)
        st = State()
        root = e.target(st, a[i])[0]
        hit = []
        e.obs_write = lambda s, r, pa, v: hit.append(v) if r is root else None
        try:
            e.run(k, a, st)
        except Giveup:
            pass
        memo[(k, i)] = any(not (v.op == "sym" and str(v.a[0]).startswith("havoc")) for v in hit)
    return memo[(k, i)]


def overlap(a, b):
    n = min(len(a), len(b))
    return tuple(a[:n]) == tuple(b[:n])


def fields_set(e, p, before, after, ty):
    """paths of the image's fields the setter changed, with their new value"""
    out = []
    t = p.ty(ty)
    for i, f in enumerate(t["v"][0]["f"]):
        a, b = e.proj(after[0], after[1], ("f", 0, i)), e.proj(before[0], before[1], ("f", 0, i))
        if a is not b:
            out.append((("f", 0, i), a, f[0]))
    return out


def memory_of(e, st, v, depth=0):
    """roots of the heap memory a stored value owns"""
    out = []
    for x in subterms(v):
        if x.op in ("fat", "ref", "vec"):
            try:
                out.append(e.target(st, x)[0] if x.op != "vec" else x.a[0])
            except Giveup:
                pass
        elif x.ty is not None and e.p.ty(x.ty).get("name") == "alloc::boxed::Box":
            # the pointer inside Box { Unique { NonNull { pointer } } }, however deep the code projects it
            y = x
            for _ in range(5):
                try:
                    out.append(e.target(st, y)[0])
                except Giveup:
                    pass
                if y.ty is not None and e.p.ty(y.ty)["k"] != "struct":
                    break
                try:
                    y = e.proj(st, y, ("f", 0, 0))
                except Exception:
                    break
    return out


def check(c):
    c.floors = {"operations": 12}
    c.rule("for every computing call, on every path after a setter succeeded: the stored setting is the value the setter stored; no write reaches the memory of the importance map")
    c.assumptions += ["user callbacks do not reach the image (they get only row buffers)"]
    p = c.prog("ffi", "imagequant")
    K = keep(p)
    jobs = []
    for what, n in SET.items():
        if find_fn(p, n) is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            continue
        for op in OPS:
            if find_fn(p, op) is None:
                if op not in OPTIONAL:
                    c.violation(op, "function not found: the guarantee has lost its implementation", key="missing " + op)
                continue
            jobs.append((what, n, op))
            c.count("operations")

    def job(j):
        try:
            c.notes.append(("more", j[:4] + (function(c, p, K, *j),)))
        except Giveup as g:
            c.undecide("%s: %s" % (j[2], g))
    # every function the image is handed to is interpreted once per setting
    todo = [(w, find_fn(p, n), n, op, find_fn(p, op), None) for w, n, op in jobs]
    seen = {(j[0],) + j[4:] for j in todo}
    while todo:
        c.count("functions_with_image", len(todo))
        c.parallel(todo, job)
        todo = []
        for _, (w, sk, n, op, more) in [x for x in c.notes if isinstance(x, tuple)]:
            for k, i in more:
                if (w, k, i) not in seen:
                    seen.add((w, k, i))
                    todo.append((w, sk, n, op, k, i))
        c.notes = [x for x in c.notes if not isinstance(x, tuple)]


def function(c, p, K, what, sk, setter, op, ok, ii):
    """interprets one function from the state after the setter; returns further functions the image is handed to"""
    a = symargs(p, ok)
    if ii is None:
        ix = img_params(p, ok)
        if len(ix) != 1:
            raise Giveup("no image parameter")
        ii = ix[0]
    im = a[ii]
    cur = {}
    more = []

    def summary(e, st, ce, args, tys, dty, fp):
        k = ce.get("key")
        pr = cur.get("prot")
        if pr is None or k is None or k not in p.fns or k == ok:
            return NotImplemented
        for i in img_params(p, k):
            try:
                root, path, _ = e.target(st, args[i])
            except Giveup:
                continue
            if root is not cur["root"] or tuple(path) != cur["path"]:
                continue
            vals = [e.rd(st, root, cur["path"] + (f,)) for f, v, n in pr]
            if not all(x is v or same_value(e, st, x, v) for x, (f, v, n) in zip(vals, pr)):
                return NotImplemented        # called while the setting is put aside: looked into
            more.append((k, i))
            out = []
            ow, e.obs_write = e.obs_write, None
            for s, r in e.opaque_default(st.copy(), norm(k), ce, args, tys, dty):
                for f, v, n in pr:
                    e.wr(s, root, cur["path"] + (f,), v)
                out.append((s, r))
            e.obs_write = ow
            return out
        return NotImplemented
    hooks = {norm(p.fns[k]["path"]): summary for k in p.fns if cg.is_local(p, k) and img_params(p, k) and k != ok}
    e = c.engine(p, opaque=cg.pruned(p, K), hooks=hooks)
    e.RETCAP = 24
    sa = symargs(p, sk, tag="set")
    sa[0] = im
    ity = p.types.index(M.deref_ty(p, M.params(p, ok)[ii]))
    st0 = State()
    root, path, _ = e.target(st0, im)
    before = (st0, e.rd(st0, root, path))
    n = 0
    for s, r in e.run(sk, sa, State()):
        o = outcome(p, s, r)
        if o is None or o[0] != "ok":
            continue
        set_ = fields_set(e, p, before, (s, e.rd(s, root, path)), ity)
        if not set_:
            c.undecide("%s: where the %s is kept is not determined" % (setter, what))
            continue
        n += 1
        cur.update(prot=set_, root=root, path=tuple(path))
        follow(c, p, e, s, root, tuple(path), set_, what, ok, op, a)
        cur.clear()
    if n == 0:
        c.undecide("%s: no successful path" % setter)
    c.done(e)
    return more


def follow(c, p, e, s, root, path, set_, what, ok, op, a):
    mem = set()
    if what == "importance map":
        for _, v, _ in set_:
            mem.update(memory_of(e, s, v))
    hits, passed = [], []

    def ow(st, r, pa, val):
        if r is root:
            for f, v, name in set_:
                if tuple(pa) == path + (f,):
                    # tracked per path (ghost state keeps paths apart), as a setting may be put aside and restored
                    if differs(e, st, val, v):
                        st.ghost["lost " + name] = True
                    elif val is v or same_value(e, st, val, v):
                        st.ghost["lost " + name] = False
        if r in mem:
            fr = e.fr
            hits.append((fr.key if fr is not None else ok, val))

    def oc(st, fr, name, ce, args, span):
        k = ce.get("key")
        m = re.match(r"alloc::vec::Vec::(clear|drain|pop|remove|swap_remove|split_off|append|extract_if|splice)$", norm(ce.get("p") or ""))
        if m and args:
            x = args[1 if m.group(1) == "append" and len(args) > 1 else 0]
            try:
                r, pa, _ = e.target(st, x)
                for f, v, n in set_:
                    if r is root and tuple(pa) == path + (f,):
                        st.ghost["lost " + n] = True
            except Giveup:
                pass
        if k in p.fns and cg.is_local(p, k):
            uses(st, k, args, fr)
            for i, (x, t) in enumerate(zip(args, M.params(p, k))):
                if p.ty(t)["k"] == "ref" and p.ty(t)["mut"] and x.op in ("ref", "fat") or x.op == "sym":
                    try:
                        if e.target(st, x)[0] in mem:
                            passed.append((k, i, fr.key if fr is not None else ok))
                    except Giveup:
                        pass
    def uses(st, k, args, fr):
        """a function that works on the image's pixels and takes an optional map must get the one that is set"""
        if what != "importance map" or "{closure" in k:
            return
        ts = M.params(p, k)
        ms = [x for x, t in zip(args, ts) if p.ty(t)["s"] in ("core::option::Option<&[u8]>", "core::option::Option<&'_ [u8]>")]
        if len(ms) != 1:
            return
        px = False
        for x, t in zip(args, ts):
            if p.ty(t)["k"] == "ref":
                try:
                    r, pa, _ = e.target(st, x)
                    px = px or r is root and M.deref_ty(p, t).get("name") in (IMG, "imagequant::rows::DynamicRows")
                except Giveup:
                    pass
        if not px:
            return
        m = ms[0]
        c.count("map_uses")
        bad = m.op == "agg" and m.a[1] == 0 or st.disc.get(m) == 0
        if m.op == "agg" and m.a[1] == 1 and m.a[2][0].op in ("ref", "fat"):
            bad = e.target(st, m.a[2][0])[0] not in mem
        if bad:
            unused.append((k, fr.key if fr is not None else ok))
    unused = []
    e.obs_write, e.obs_call = ow, oc
    rs = e.run(ok, a, s.copy())
    e.obs_write = e.obs_call = None
    c.count("paths", len(rs))
    for k, val in hits:
        if not (val.op == "sym" and str(val.a[0]).startswith("havoc")):
            c.violation(c.loc(p, k), "%s writes into the %s the user set on the image" % (op.split("::")[-1], what), key="%s writes %s" % (norm(k), what))
    for k, i, fr in passed:
        if writes_param(c, p, k, i):
            c.violation(c.loc(p, fr), "the %s the user set on the image is passed to %s, which writes into it" % (what, norm(k)), key="%s writes %s" % (norm(fr), what))
    for k, fr in unused:
        c.violation(c.loc(p, fr), "%s is called without the importance map the user set" % norm(k), key="%s ignores map" % norm(fr))
    for s2, r in rs:
        for f, v, name in set_:
            c.obligation()
            now = e.rd(s2, root, path + (f,))
            if now is v or same_value(e, s2, now, v):
                continue
            d = differs(e, s2, now, v)
            if not d and s2.ghost.get("lost " + name):
                d = "was replaced"
            if not d and what == "background" and now.op == "agg" and v.op == "agg" and now.a[1] == v.a[1]:
                continue                     # still set; its pixels may have been converted
            if d:
                c.violation(c.loc(p, ok), "%s leaves the image without the %s the user set: `%s` %s" % (norm(ok).split("::")[-1], what, name, d), key="%s loses %s" % (norm(ok), what))
            else:
                c.undecide("%s: `%s` not determined afterwards: %s" % (norm(ok), name, show(now)[:80]))


def differs(e, s, now, v):
    """definite difference of the stored setting"""
    if now.op == "agg" and v.op == "agg" and now.a[0] == v.a[0]:
        if now.a[1] != v.a[1]:
            return "has become another variant"
        for x, y in zip(now.a[2], v.a[2]):
            if x is not y:
                d = differs(e, s, x, y)
                if d:
                    return d
        return None
    dn = s.disc.get(now)
    if dn is not None and v.op == "agg" and dn != v.a[1]:
        return "has become another variant"
    if now.op == "vec" and v.op != "vec" and v.op != "phi":
        return "was replaced"
    if now.op == "vec" or v.op == "vec":
        if now.op == "vec" and v.op == "vec" and now.a[0] is v.a[0]:
            return "has another length" if now.a[1].op == "c" or v.a[1].op == "c" else None
        if now.op == "vec":
            return "was replaced"
        return None
    if now.op in ("fat", "ref") and v.op in ("fat", "ref"):
        try:
            if e.target(s, now)[0] is not e.target(s, v)[0]:
                return "was replaced"
        except Giveup:
            return None
    if now.op in ("fat", "ref") and v.op not in ("phi",):
        return "was replaced"
    return None
