"""Shared model of remapping for the rules about palettes, errors and dithering.
Roles are found by signature, not by name:
  palette type      struct of the library that holds the f_pixel array (imagequant::pal::PalF)
  output rows       struct whose name ends in RowBitmapMut
  int palette       imagequant::pal::Palette (public)
  builder           fn(&mut palette, &mut int palette, f64 gamma, u8 posterization)
  pixel writer      fn taking output rows (outside the module that implements them), not implemented by another such fn; the
                    palette version it uses is that of its palette parameter, or of the palette its colour slice points into
  diffuser          pixel writer that can reach fn(.., f_pixel, f_pixel) -> f_pixel with by-value pixels (error diffusion)
"""
from util import *
from ctx import symargs
import cg

PALF, PAL, RES, ROWS = "imagequant::pal::PalF", "imagequant::pal::Palette", "imagequant::quant::QuantizationResult", "imagequant::seacow::RowBitmapMut"
FPX = "imagequant::pal::f_pixel"


def deref_ty(p, t):
    t = p.ty(t)
    while t["k"] in ("ref", "ptr"):
        t = p.ty(t["e"])
    return t


def params(p, k):
    f = p.fns[k]
    return f["locals"][1:f["n"] + 1]


def pnames(p, k):
    return [deref_ty(p, t).get("name") for t in params(p, k)]


class Roles:
    def __init__(self, p, outer=False):
        self.p = p
        loc = [k for k in p.fns if cg.is_local(p, k) and "{closure" not in k]
        self.builders = {k for k in loc if self.is_builder(k)}
        rows = {k for k in loc if ROWS in pnames(p, k) and not norm(p.fns[k]["path"]).startswith("imagequant::seacow::") and " as " not in k
                and p.ty(p.fns[k]["locals"][0]).get("name") != norm(p.fns[k]["path"])}
        both = {k for k in rows if PALF in pnames(p, k)}
        if outer:
            # outermost functions that write pixels with a palette and do not round it themselves
            cand = {k for k in both if not cg.reach_from(p, [k]) & self.builders}
            self.writers = {k for k in cand if not any(k in cg.reach_from(p, [o]) for o in cand if o != k)}
        else:
            self.writers = {k for k in both if not (cg.reach_from(p, [k]) - {k}) & both}
        inside = cg.reach_from(p, self.writers)
        rest = rows - both - inside
        self.writers |= {k for k in rest if not (cg.reach_from(p, [k]) - {k}) & rows}
        diff = {k for k in loc if p.ty(p.fns[k]["locals"][0]).get("name") == FPX and sum(1 for t in params(p, k) if p.ty(t).get("name") == FPX) >= 2
                and " as " not in k}
        self.diffusers = {k for k in self.writers if cg.reach_from(p, [k]) & diff}
        self.keep = cg.closure_reachers(p, self.writers | self.builders)

    def is_builder(self, k):
        p = self.p
        ps = [p.ty(t) for t in params(p, k)]
        if len(ps) < 3:
            return False
        n = pnames(p, k)
        return PALF in n and PAL in n and any(t["k"] == "float" for t in ps) and all(t["k"] == "ref" and t["mut"] for t, m in zip(ps, n) if m == PAL)


def engine(c, p, R, hooks=None, continue_only=True):
    """engine in which builders and writers are events
    ghost: pix = palette version the pixels were last written with; diff = tuple of writer kinds that ran"""
    def writer(e, st, ce, args, tys, dty, fp):
        key = ce["key"]
        st = st.copy()
        v = used_palette(p, e, st, key, args)
        out = []
        base = e.opaque_default(st, norm(key), ce, args, tys, dty)
        for s, r in base:
            # what the writer reports as error is a measurement
            s.ghost["n"] = s.ghost.get("n", 0) + 1
            t = p.ty(dty) if dty is not None else None
            if t is not None and t.get("name") == "core::result::Result":
                bad = s.copy()
                bad.disc[r] = 1
                bad.ghost["werr"] = True
                out.append((bad, r))
                s.disc[r] = 0
                pay = t["v"][0]["f"][0][1]
                pt = p.ty(pay)
                m = None
                if pt["k"] == "tuple":
                    for i, f in enumerate(pt["f"]):
                        if p.ty(f)["k"] == "float":
                            m = e.proj(s, e.proj(s, r, ("f", 0, 0)), ("f", 0, i))
                elif pt["k"] == "float":
                    m = e.proj(s, r, ("f", 0, 0))
                if m is not None:
                    s.ghost["measured"] = s.ghost.get("measured", ()) + (m,)
            s.ghost["pix"] = v
            s.ghost["vers"] = s.ghost.get("vers", ()) + (v,)
            s.ghost["writers"] = s.ghost.get("writers", ()) + ((key, tuple(args)),)
            out.append((s, r))
        return out

    def builder(e, st, ce, args, tys, dty, fp):
        key = ce["key"]
        st = st.copy()
        names = pnames(p, key)
        pts = params(p, key)
        a = args[names.index(PALF)]
        V = pal_value(e, st, a, pts[names.index(PALF)])
        b = args[names.index(PAL)]
        g = next(x for x, t in zip(args, pts) if p.ty(t)["k"] == "float")
        po = next((x for x, t in zip(args, pts) if p.ty(t)["k"] in ("uint", "int")), None)
        ip = mk("app", "intpal", (V, g, po if po is not None else UNIT))
        root, path, _ = e.target(st, b)
        ip.ty = deref_id(p, pts[names.index(PAL)])
        e.wr(st, root, path, ip)
        if p.ty(pts[names.index(PALF)]).get("mut"):
            root, path, _ = e.target(st, a)
            rd = mk("app", "rounded", (V, g, po if po is not None else UNIT))
            rd.ty = deref_id(p, pts[names.index(PALF)])
            e.wr(st, root, path, rd)
        st.ghost["built"] = st.ghost.get("built", ()) + ((V, g, po),)
        return [(st, UNIT)]

    def clone(e, st, ce, args, tys, dty, fp):
        return [(st, e.deref(st, args[0]))]
    hk = {}
    for k in R.writers:
        hk[norm(p.fns[k]["path"])] = writer
    for k in R.builders:
        hk[norm(p.fns[k]["path"])] = builder
    for k in p.fns:
        if k.startswith("<" + PALF + " as core::clone::Clone>::clone") or k.startswith("<" + PAL + " as core::clone::Clone>::clone"):
            hk[norm(p.fns[k]["path"])] = clone
            hk[norm(k)] = clone
    hk.update(hooks or {})
    e = c.engine(p, hooks=hk, opaque=cg.pruned(p, R.keep))
    e.RETCAP = 64
    return e


def used_palette(p, e, st, key, args):
    ix = [i for i, n in enumerate(pnames(p, key)) if n == PALF]
    if len(ix) == 1:
        return pal_value(e, st, args[ix[0]], params(p, key)[ix[0]])
    if not ix:
        for a in args:
            if a.op in ("ref", "fat"):
                root, path, _ = e.target(st, a)
                path = tuple(path)
                for n in range(len(path) + 1):
                    v = e.rd(st, root, path[:n])
                    if v.ty is not None and p.ty(v.ty).get("name") == PALF:
                        return v
    return UNKNOWN


UNKNOWN = mk("sym", "unknown palette")


def deref_id(p, t):
    while p.ty(t)["k"] in ("ref", "ptr"):
        t = p.ty(t)["e"]
    return t


def pal_value(e, st, a, ty):
    if e.p.ty(ty)["k"] in ("ref", "ptr"):
        root, path, _ = e.target(st, a)
        return e.rd(st, root, path)
    return a
