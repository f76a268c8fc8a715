"""C25: the dithering level decides whether error diffusion is used. After the level is set to 0 a remapping writes its
pixels without error diffusion; after any level in (0, 1], and by default, the pixels of a successful remapping are
those written by error diffusion; a level outside [0, 1] changes nothing.
Method: typestate analysis over MIR with interval-valued arguments: set-level and remapping are interpreted in sequence
on every path, the functions that write pixels are events, told apart by whether they can reach the function that adds
accumulated error to a pixel."""
from util import *
from ctx import symargs
import cg
import remapm as M

Q = M.RES + "::"
# level, expectation for a following remap
LEVELS = [(0.0, "off"), (-0.0, "off"), (1.0, "on"), (0.5, "on"), (0.01, "on"), (1e-3, "on"), (2.0, "prev"), (-1.0, "prev"), (float("nan"), "prev")]


def check(c):
    import engine
    engine.SIGFLOAT = True
    c.floors = {"scenarios": 9}
    c.rule("level == 0 => no pixel writer that diffuses error runs; 0 < level <= 1 => the last pixel writer of a successful remapping diffuses error; a rejected level leaves the earlier choice in force")
    c.assumptions += ["how strongly a level diffuses is numeric and not examined"]
    jobs = [(lib, fn, lv, want) for lib, fn in (("imagequant", "remap_into"), ("imagequant_sys", "liq_write_remapped_image"), ("imagequant_sys", "liq_write_remapped_image_rows")) for lv, want in LEVELS] + [("imagequant", "new", None, "on")]

    def job(j):
        c.count("scenarios")
        for outer in (False, True):
            try:
                scenario(c, outer, *j)
                return
            except Giveup as g:
                if outer:
                    c.undecide("%s: %s" % (j, g))
    c.parallel(jobs, job)


def scenario(c, outer, lib, fn, level, want):
    p = c.prog("ffi", lib)
    R = M.Roles(p, outer)
    if not R.writers or not R.diffusers or R.writers == R.diffusers:
        c.undecide("pixel writers with and without error diffusion were not told apart")
        return
    if fn == "new":
        return fresh(c, p, R)
    names = {"imagequant": (Q + "set_dithering_level", Q + "remap_into"), "imagequant_sys": ("imagequant_sys::liq_set_dithering_level", "imagequant_sys::" + fn)}[lib]
    sk, rk = find_fn(p, names[0]), find_fn(p, names[1])
    for n, k in zip(names, (sk, rk)):
        if k is None:
            c.violation(n, "function not found: the guarantee has lost its implementation", key="missing " + n)
            return
    e = M.engine(c, p, R)
    a = symargs(p, rk)
    where = c.loc(p, rk)
    starts = [(State(), want)]
    if want == "prev":
        # a valid level first, then the rejected one
        starts = []
        for lv, w in ((0.0, "off"), (1.0, "on")):
            for s, r in e.run(sk, [a[0], cfloat(lv, 32)], State()):
                if good(p, s, r):
                    starts.append((s, w))
    for s0, w in starts:
        for s, r in e.run(sk, [a[0], cfloat(level, 32)], s0.copy()):
            g = good(p, s, r)
            c.obligation()
            if want != "prev" and not g:
                if not maybe_bad_handle(p, s, r):
                    c.violation(c.loc(p, sk), "level %s is rejected" % level, key="%s rejected" % names[0])
                continue
            if want == "prev" and g:
                c.violation(c.loc(p, sk), "level %s is accepted" % level, key="%s accepted" % names[0])
                continue
            judge(c, p, e, R, s, rk, a, w, "level %s%s" % (level, "" if want != "prev" else " rejected after " + ("0" if w == "off" else "1")), where, names[1])
    c.done(e)


def judge(c, p, e, R, s, rk, a, w, what, where, name):
    for s2, r2 in e.run(rk, a, s.copy()):
        o = outcome(p, s2, r2)
        c.count("paths")
        c.obligation()
        ws = [k for k, _ in s2.ghost.get("writers", ())]
        if w == "off" and set(ws) & R.diffusers:
            c.violation(where, "%s: pixels are written by error diffusion (%s)" % (what, sorted(set(ws) & R.diffusers)[0]), key="%s diffuses at 0" % name)
        elif w == "on" and o is not None and o[0] == "ok" and (not ws or ws[-1] not in R.diffusers):
            c.violation(where, "%s: a successful remapping leaves pixels that were not written by error diffusion" % what, key="%s plain" % name)


def good(p, s, r):
    o = outcome(p, s, r)
    return o is not None and o[0] == "ok"


def maybe_bad_handle(p, s, r):
    o = outcome(p, s, r)
    return o is None or o[1] in ("InvalidPointer", None)


def fresh(c, p, R):
    """the default of a new result"""
    rk = find_fn(p, Q + "remap_into")
    resty = next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES)
    for k in sorted(p.fns):
        f = p.fns[k]
        rt = p.ty(f["locals"][0])
        if not cg.is_local(p, k) or "{closure" in k or not rt["s"].startswith("core::result::Result<" + M.RES + ","):
            continue
        if not any(cg._has_variant(p, b["s"], M.RES, p.ty(resty)["v"][0]["n"]) for b in f["blocks"] if b["s"]):
            continue
        e = M.engine(c, p, R)
        for s, r in e.run(k, symargs(p, k, tag="new")):
            o = outcome(p, s, r)
            if o is None or o[0] != "ok" or o[1] is None:
                continue
            a = symargs(p, rk)
            root = e.alloc(s, o[1], resty)
            a[0] = e.mkref(s, root, (), None)
            judge(c, p, e, R, s, rk, a, "on", "default level", c.loc(p, k), "default")
        c.done(e)
