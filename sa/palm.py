"""Shared model of the internal palette for the rules about fixed, frozen and sorted entries.
Roles are found by type, not by name:
  palette           struct that holds one list of f_pixel and one list of the entry's popularity
  mark test         fn(popularity) -> bool
  marker            fn(popularity) -> popularity
  popularity maker  fn(f32) -> popularity
Palettes are given to the analysed functions as lists of known length whose colours are symbols and whose popularities are
the constants made by running the library's own maker and marker, so it does not matter how the mark is encoded."""
from util import *
from ctx import symargs
import remapm as M, cg

PALF, FPX = M.PALF, M.FPX


def local_fns(p):
    return [k for k in p.fns if cg.is_local(p, k) and "{closure" not in k]


class Pal:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.ty = next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == PALF), None)
        if self.ty is None:
            raise Giveup("palette type not found")
        fs = p.fields(self.ty)
        el = [self.elem(f) for f in fs]
        if len(fs) != 2 or None in el or [p.ty(t).get("name") for t in el].count(FPX) != 1:
            raise Giveup("palette is not a list of colours and a list of popularities")
        self.ci = 0 if p.ty(el[0]).get("name") == FPX else 1
        self.pi = 1 - self.ci
        self.popty, self.colty = el[self.pi], el[self.ci]
        self.fs = fs
        is_pop = lambda t: (p.ty(t).get("name"), p.ty(t)["k"]) == (p.ty(self.popty).get("name"), p.ty(self.popty)["k"])
        loc = local_fns(p)
        one = [k for k in loc if p.fns[k]["n"] == 1 and " as " not in k]
        arg = lambda k: M.deref_id(p, p.fns[k]["locals"][1])
        ret = lambda k: p.fns[k]["locals"][0]
        self.tests = [k for k in one if is_pop(arg(k)) and p.ty(ret(k))["k"] == "bool"]
        self.markers = [k for k in one if is_pop(arg(k)) and is_pop(ret(k))]
        self.makers = [k for k in one if p.ty(arg(k))["k"] == "float" and is_pop(ret(k))]
        if not self.tests or not self.markers or not self.makers:
            raise Giveup("no mark test, marker or popularity maker")
        e = c.engine(p)
        self.e0 = e
        self.plain = self.run(self.makers[0], cfloat(3.0, 32))
        self.zero = self.run(self.makers[0], cfloat(0.0, 32))
        self.fixed = self.run(self.markers[0], self.plain)
        self.fixed0 = self.run(self.markers[0], self.zero)

    def elem(self, f):
        t = self.p.ty(f)
        if t.get("name") in ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec"):
            return t["args"][0]
        return None

    def run(self, k, v):
        e, st = self.e0, State()
        t = self.p.ty(self.p.fns[k]["locals"][1])
        if t["k"] == "ref":
            v = e.mkref(st, e.alloc(st, v, t["e"]), (), None)
        rs = {r for _, r in e.run(k, [v], st)}
        if len(rs) != 1:
            raise Giveup("%s of a constant is not a constant" % norm(self.p.fns[k]["path"]))
        return rs.pop()

    def marked(self, pop):
        """the entry counts as fixed: True / False / None (not a constant)"""
        try:
            r = {self.run(k, pop) for k in self.tests}
        except Giveup:
            return None
        return True if r == {TRUE} else False if r <= {TRUE, FALSE} else None

    def make(self, st, pops, tag="pal", cols=None):
        """a palette with the given popularities -> (value, colours)"""
        n = len(pops)
        cols = cols or [self.sym("%s%d" % (tag, i)) for i in range(n)]
        vs = []
        for i, f in enumerate(self.fs):
            r = mk("D", mk("sym", "%s.%d" % (tag, i), ""))
            st.mem[r] = mk("agg", "array", 0, tuple(cols if i == self.ci else pops))
            v = mk("vec", r, cint(n))
            v.ty = f
            vs.append(v)
        pv = mk("agg", PALF, 0, tuple(vs))
        pv.ty = self.ty
        return pv, cols

    def make_all(self, st, pop, tag="pal"):
        """a palette of any length with one popularity everywhere"""
        n = mk("sym", tag + ".n", "")
        n.ty = self.p.tyid("usize")
        st.add_le0(ladd(n, cint(256), -1))
        vs = []
        for i, f in enumerate(self.fs):
            r = mk("D", mk("sym", "%s.%d" % (tag, i), ""))
            if i == self.pi:
                st.mem[r] = mk("repeat", pop, n)
            v = mk("vec", r, n)
            v.ty = f
            vs.append(v)
        pv = mk("agg", PALF, 0, tuple(vs))
        pv.ty = self.ty
        return pv

    def sym(self, name):
        x = mk("sym", name, "")
        x.ty = self.colty
        return x

    def entries(self, e, st, pv):
        """[(colour, popularity)] of a palette of known length, or None"""
        col, pop = e.proj(st, pv, ("f", 0, self.ci)), e.proj(st, pv, ("f", 0, self.pi))
        if col.op != "vec" or pop.op != "vec" or not isint(col.a[1]) or col.a[1] is not pop.a[1]:
            return None
        return [(e.rd(st, col.a[0], (("e", cint(i)),)), e.rd(st, pop.a[0], (("e", cint(i)),))) for i in range(col.a[1].a[1])]

    def mut_params(self, k):
        return [i for i, t in enumerate(M.params(self.p, k)) if self.p.ty(t)["k"] == "ref" and self.p.ty(t)["mut"] and M.deref_id(self.p, t) == self.ty]
