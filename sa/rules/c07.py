"""C07: a palette never has more colours than the user's maximum. Every way a result is made gives a palette whose number
of colours is at most the attributes' maximum, and no later step changes the number of colours; what the getters report
has exactly that many entries.
Method: abstract interpretation of the palette search over MIR with the numbers of colours, boxes and histogram items as
linear terms; loop invariants are inferred, contents are not tracked."""
from util import *
from ctx import symargs
from models import imax
import cg
import remapm as M
import palm
from rules import c13

ATTR = "imagequant::attr::Attributes"
HIST = "imagequant::hist::HistogramInternal"
VECS = ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec")


def check(c):
    c.floors = {"constructors": 1, "steps": 3, "methods": 3}
    c.rule("number of colours of the palette of every result <= Attributes::max_colors; every later operation leaves it as it was; the reported palette has exactly that many entries")
    c.assumptions += ["max_colors is 2..=256 (C01)", "a palette list never holds more than its capacity: pushing beyond it panics (arrayvec)"]
    p = c.prog("ffi", "imagequant")
    pl = palm.Pal(c, p)
    L = Lens(c, p, pl)
    L.steps()
    L.producers()
    jobs = [(constructor, k) for k in constructors(c, p)] + [(method, k) for k in methods(p)] + [(report, None), (insertion, None)]

    def job(j):
        try:
            j[0](c, p, pl, L, j[1])
        except Giveup as g:
            c.undecide("%s: %s" % (c.loc(p, j[1]) if j[1] else "report", g))
    c.parallel(jobs, job)


def holds(p, t, name, mut=False, d=0):
    """type t contains the named struct by value or behind a reference (mut: one that allows changes)"""
    x = p.ty(t)
    if x.get("name") == name:
        return True
    if d > 4:
        return False
    if x["k"] in ("ref", "ptr"):
        return (not mut or bool(x.get("mut"))) and holds(p, x["e"], name, mut, d + 1)
    if x["k"] in ("tuple", "closure"):
        return any(holds(p, f, name, mut, d + 1) for f in x["f"])
    if x.get("args") and x["k"] in ("struct", "enum"):
        if any(holds(p, a, name, mut, d + 1) for a in x["args"] if isinstance(a, int)):
            return True
    if x["k"] == "struct" and str(x.get("name", "")).startswith("imagequant"):
        return any(holds(p, f, name, mut, d + 1) for f in p.fields(t))
    return False


class Lens:
    """functions that work on palettes, summarised by what they do to the number of colours"""

    def __init__(self, c, p, pl):
        self.c, self.p, self.pl = c, p, pl
        self.hooks = {}
        self.kept = set()
        self.memo = {}
        self.least = {}
        self.int = p.tyid("usize")
        # palettes are made in functions that return one; lists in the modules of those functions are followed
        made = {norm(p.fns[k]["path"]).split("::")[1] for k in palm.local_fns(p) if self.shape(p.fns[k]["locals"][0]) is not None}
        self.mods = made - {"hist", "image", "rows", "seacow", "capi", "attr"}
        c.count("palette_modules", len(self.mods))

    def shape(self, t):
        """path to a palette inside a returned value: [(variant, field)...] or None"""
        x = self.p.ty(t)
        if x.get("name") == palm.PALF:
            return []
        if x.get("name") == "core::result::Result":
            r = self.shape(x["v"][0]["f"][0][1])
            return None if r is None else [(0, 0)] + r
        if x["k"] == "tuple":
            for i, f in enumerate(x["f"]):
                r = self.shape(f)
                if r is not None:
                    return [(0, i)] + r
        return None

    def relevant(self, k):
        p = self.p
        f = p.fns[k]
        ps = [t for t in M.params(p, k) if not (p.ty(t)["k"] == "ref" and not p.ty(t)["mut"])]
        if any(holds(p, t, palm.PALF, True) for t in ps) or holds(p, f["locals"][0], palm.PALF):
            return True
        for t in ps + [f["locals"][0]]:
            x = p.ty(M.deref_id(p, t))
            if self.boxed(M.deref_id(p, t)) or x.get("name") == "core::result::Result" and self.boxed(x["v"][0]["f"][0][1]):
                return True
        return False

    def boxed(self, t):
        """a list of, or a struct with a list of, structs of a module that makes palettes"""
        p = self.p
        x = p.ty(t)
        if t == self.pl.ty:
            return False
        if x.get("name") in VECS:
            n = str(p.ty(x["args"][0]).get("name", ""))
            return n.startswith("imagequant::") and n.split("::")[1] in self.mods
        if x["k"] == "struct" and str(x.get("name", "")).startswith("imagequant::") and x["name"].split("::")[1] in self.mods:
            return any(p.ty(f).get("name") in VECS and self.boxed(f) for f in p.fields(t))
        return False

    def opaque(self, n, k):
        if k is None or "{closure" in k or not cg.is_local(self.p, k) or cg.small(self.p, k):
            return False
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = not self.relevant(k) and not self.straight(k)
        return r

    def straight(self, k):
        """computes a number or truth value without loops"""
        f = self.p.fns[k]
        if self.p.ty(f["locals"][0])["k"] not in ("bool", "int", "uint") or len(f["blocks"]) > 60:
            return False
        return not self.p.cfg(k).loops

    def engine(self, p=None):
        e = self.c.engine(self.p, opaque=self.opaque, hooks=dict(self.hooks))
        e.RETCAP = 24
        e.COUNTS = True
        return e

    def palette(self, e, n, tag="pal"):
        vs = []
        for j, f in enumerate(self.pl.fs):
            v = mk("vec", mk("D", mk("sym", "%s.%d" % (tag, j), "")), n)
            v.ty = f
            vs.append(v)
        pv = mk("agg", palm.PALF, 0, tuple(vs))
        pv.ty = self.pl.ty
        return pv

    def num(self, tag):
        n = mk("sym", tag + ".n", "")
        n.ty = self.int
        return n

    def lens(self, e, st, pv):
        """numbers of colours and popularities of a palette value"""
        out = []
        for i in range(len(self.pl.fs)):
            x = e.proj(st, pv, ("f", 0, i))
            out.append(x.a[1] if x.op == "vec" else e.len_of(st, x))
        return out

    def order(self, todo):
        """callees first"""
        p = self.p
        out, seen = [], set()

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            for r in sorted(cg.reach_from(p, [k])):
                if r != k and r in todo:
                    visit(r)
            out.append(k)
        for k in sorted(todo):
            visit(k)
        return out

    # ---- functions that change a palette in place
    def steps(self):
        p = self.p
        for k in self.order([k for k in palm.local_fns(p) if self.pl.mut_params(k) and not cg.small(p, k)]):
            try:
                ok = self.keeps(k)
            except Giveup as g:
                self.c.notes.append("%s is followed at every call: %s" % (c07name(p, k), g))
                ok = None
            if ok is not None:
                self.kept.add(k)
                self.hooks[norm(p.fns[k]["path"])] = self.keep(k, *ok)
                self.c.count("steps")

    def counts(self, k):
        """parameters that are integer palettes to be filled"""
        p = self.p
        return [i for i, (t, n) in enumerate(zip(M.params(p, k), M.pnames(p, k))) if n == M.PAL and p.ty(t)["k"] == "ref" and p.ty(t)["mut"]]

    def count_path(self):
        p = self.p
        t = next(i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.PAL)
        i = next(i for i, f in enumerate(p.fields(t)) if p.is_int(f))
        return ("f", 0, i)

    def keeps(self, k):
        """None: may make it longer; else (the integer palettes whose count it sets to the length, length is kept exactly)"""
        p = self.p
        e = self.engine()
        st = State()
        a = symargs(p, k)
        n = self.num("pal")
        st.add_le0(ladd(n, cint(256), -1))
        roots = []
        for i in self.pl.mut_params(k):
            r = e.alloc(st, self.palette(e, n, "pal%d" % i), self.pl.ty, "pal")
            a[i] = e.mkref(st, r, (), None)
            roots.append(r)
        e.HINTS = (n,)
        rs = e.run(k, a, st)
        self.c.done(e)
        good, exact = set(self.counts(k)), True
        for s, _ in rs:
            for r in roots:
                for x in self.lens(e, s, e.rd(s, r, ())):
                    self.c.obligation()
                    if not s.ent_le(x, n):
                        return None
                    exact = exact and s.ent_le(n, x)
            for i in list(good):
                r, pp, _ = e.target(s, a[i])
                if not s.ent_eq(e.rd(s, r, pp + (self.count_path(),)), n):
                    good.discard(i)
        return (good if exact else set(), exact) if rs else None

    def keep(self, k, counted, exact):
        ps = self.pl.mut_params(k)

        def h(e, st, ce, args, tys, dty, fp):
            st = st.copy()
            n = None
            for i in ps:
                r, pp, _ = e.target(st, args[i])
                v = e.rd(st, r, pp)
                less = None
                for j in range(len(self.pl.fs)):
                    x = e.proj(st, v, ("f", 0, j))
                    n = x.a[1] if x.op == "vec" else e.len_of(st, x)
                    if not exact:
                        if less is None:
                            less = e.fresh(st, "fewer", self.int)
                        st.add_le0(ladd(less, n, -1))
                        n = less
                    if x.op == "vec" and exact:
                        st.mem[x.a[0]] = e.fresh(st, "step")
                    else:
                        y = mk("vec", e.alloc(st, e.fresh(st, "step"), None, "step"), n)
                        if y.ty is None:
                            y.ty = self.pl.fs[j]
                        e.wr(st, r, pp + (("f", 0, j),), y)
            for i, a in enumerate(args):
                if i not in ps:
                    e.havoc(st, a, tys[i])
            for i in counted:
                r, pp, _ = e.target(st, args[i])
                e.wr(st, r, pp + (self.count_path(),), n)
            return [(st, e.fresh(st, "after", dty))]
        return h

    # ---- functions that return a palette
    def producers(self):
        p = self.p
        todo = {k: self.shape(p.fns[k]["locals"][0]) for k in palm.local_fns(p)}
        todo = {k: s for k, s in todo.items() if s is not None and not cg.small(p, k)}
        for k in self.order(list(todo)):
            ps = M.params(p, k)
            qs = []
            for i, t in enumerate(ps):
                if p.ty(t)["k"] in ("uint", "int"):
                    try:
                        for extra in (0, 1):
                            if self.bounded(k, i, todo[k], extra):
                                qs.append((i, extra))
                                break
                    except Giveup as g:
                        self.c.notes.append("%s is followed at every call: %s" % (c07name(p, k), g))
            if qs:
                self.c.count("producers")
                self.hooks[norm(p.fns[k]["path"])] = self.produce(k, qs, todo[k])

    def at(self, e, s, v, path):
        for var, i in path:
            v = e.proj(s, v, ("f", var, i))
        return v

    def given(self, e, st, k, a):
        """palettes of symbolic length as arguments; -> their lengths"""
        p = self.p
        ns = {}
        for i, (t, nm) in enumerate(zip(M.params(p, k), M.pnames(p, k))):
            if nm == palm.PALF:
                n = ns[i] = self.num("pal%d" % i)
                a[i] = self.palette(e, n, "pal%d" % i)
                if p.ty(t)["k"] == "ref":
                    a[i] = e.mkref(st, e.alloc(st, a[i], self.pl.ty, "pal"), (), None)
        return ns

    def bounded(self, k, q, path, extra=0):
        """for any B, with 1 <= parameter q, q (plus the extra) <= B and palettes given <= B, the palette returned is <= B"""
        p = self.p
        e = self.engine()
        st = State()
        a = symargs(p, k)
        B = self.num("bound") if palm.PALF in M.pnames(p, k) else ladd(a[q], cint(extra))
        keep = [ladd(cint(1), a[q], -1), ladd(ladd(a[q], cint(extra)), B, -1)]
        ns = self.given(e, st, k, a)
        keep += [ladd(n, B, -1) for n in ns.values()]
        least = bool(ns)
        for x in keep:
            st.add_le0(x)
        e.HINTS = (B,)
        e.KEEP = tuple(keep)
        rs = e.run(k, a, st)
        self.c.done(e)
        for s, r in rs:
            if path and p.ty(p.fns[k]["locals"][0])["k"] == "enum":
                o = outcome(p, s, r)
                if o is not None and o[0] == "err":
                    continue
            for x in self.lens(e, s, self.at(e, s, r, path)):
                self.c.obligation()
                if not s.ent_le(x, B):
                    return False
                least = least and all(s.ent_le(n, x) for n in ns.values())
        self.least[k] = least
        return bool(rs)

    def produce(self, k, qs, path):
        p = self.p
        f = p.fns[k]

        def wrap(e, s, t, path, v):
            """a returned value of type t with the palette v in its place"""
            if not path:
                return v
            x = p.ty(t)
            if x["k"] == "tuple":
                r = mk("agg", "()", 0, tuple(wrap(e, s, ft, path[1:], v) if i == path[0][1] else e.fresh(s, "r", ft) for i, ft in enumerate(x["f"])))
            else:
                r = mk("agg", "core::result::Result", 0, (wrap(e, s, x["v"][0]["f"][0][1], path[1:], v),))
            if r.ty is None:
                r.ty = t
            return r

        def made(e, s, n):
            vs = []
            for j, ft in enumerate(self.pl.fs):
                v = mk("vec", e.alloc(s, e.fresh(s, "made"), None, "made"), n)
                v.ty = ft
                vs.append(v)
            v = mk("agg", palm.PALF, 0, tuple(vs))
            v.ty = self.pl.ty
            return wrap(e, s, f["locals"][0], path, v)

        def h(e, st, ce, args, tys, dty, fp):
            lens = {}
            for i, nm in enumerate(M.pnames(p, k)):
                if nm == palm.PALF:
                    lens[i] = self.lens(e, st, e.deref(st, args[i]) if p.ty(M.params(p, k)[i])["k"] == "ref" else args[i])
            st = st.copy()
            good = []
            xs = [x for l in lens.values() for x in l]
            for q, extra in qs:
                t = ladd(args[q], cint(extra))
                for B in dict.fromkeys([t] + xs + list(e.HINTS)):
                    if st.ent_le(cint(1), args[q]) and st.ent_le(t, B) and all(x is B or st.ent_le(x, B) for x in xs):
                        good.append(B)
            if lens and not good:
                if not self.least.get(k) or not all(st.ent_eq(x, xs[0]) for x in xs):       # the palette given is not within the bound: follow what happens to it
                    return NotImplemented
                good = [imax(ladd(args[q], cint(extra)), xs[0]) for q, extra in qs]
            for i, a in enumerate(args):
                e.havoc(st, a, tys[i])
            n = e.fresh(st, "colours", self.int)
            for q in good:
                st.add_le0(ladd(n, q, -1))
            if self.least.get(k):       # no colours are taken away
                for x in xs:
                    st.add_le0(ladd(x, n, -1))
            out = []
            rt = f["locals"][0]
            if p.ty(rt)["k"] == "enum":
                s2 = st.copy()
                bad = mk("agg", "core::result::Result", 1, (e.fresh(s2, "err", p.ty(rt)["v"][1]["f"][0][1]),))
                bad.ty = rt
                out.append((s2, bad))
            out.append((st, made(e, st, n)))
            return out
        return h


def c07name(p, k):
    return norm(p.fns[k]["path"])


def result_type(p):
    return next((i for i, t in enumerate(p.types) if t["k"] == "struct" and t.get("name") == M.RES), None)


def pal_field(p):
    return next(i for i, f in enumerate(p.fields(result_type(p))) if p.ty(f).get("name") == palm.PALF)


def constructors(c, p):
    """functions that make a result from attributes and a histogram"""
    out = []
    for k in palm.local_fns(p):
        r = p.ty(p.fns[k]["locals"][0])
        if r.get("name") == "core::result::Result" and p.ty(r["v"][0]["f"][0][1]).get("name") == M.RES:
            n = M.pnames(p, k)
            if ATTR in n and HIST in n:
                out.append(k)
    return out


def known(t):
    """made only of lengths, limits and constants"""
    return not any(y.op in ("phi", "havoc", "cnt") or y.op == "sym" and len(y.a) == 3 for y in subterms(t))


def exceeds(s, x, m, over):
    """the facts give x a definite size that goes beyond m: an exact one unrelated to m, or m and a little more"""
    if known(x):
        return x
    for L in list(s.lins):
        for t in atoms(L):
            if t is not m and t.op in ("len", "min", "max", "satsub") and known(t) and (s.ent_eq(x, t) or s.ent_le(t, x) and not s.ent_le(t, m)):
                return t
    for t in over:
        if s.ent_le(x, ladd(m, t)):
            return ladd(m, t)
    return None


def constructor(c, p, pl, L, k):
    get = find_fn(p, ATTR + "::max_colors")
    if get is None:
        c.violation(ATTR + "::max_colors", "function not found: the guarantee has lost its implementation")
        return
    c.count("constructors")
    bad = made(c, p, L, k, get, [], 0)
    if not bad:
        return
    over = [cint(1), cint(2)]
    for peel in (1, 2):     # which paths exceed the maximum, and by how much
        bad = made(c, p, L, k, get, over, peel)
        what = [y for y in (exceeds(s, x, m, over) for s, x, m in bad) if y is not None]
        for y in what:
            c.violation(c.loc(p, k), "the palette of a result may have more colours than the maximum: up to %s" % show(y)[:160], key="more colours than the maximum")
        if what or not bad:
            return
    c.undecide("%s: number of colours not bounded: %s" % (c.loc(p, k), show(bad[0][1])[:120]))


def made(c, p, L, k, get, over, peel):
    """states in which the palette of a new result is not proven to be within the maximum"""
    bad = []
    e = L.engine()
    if peel:        # paths of the first rounds kept apart
        e.PEEL, e.CAP, e.RETCAP = peel, 60 if peel < 2 else 400, 200 if peel < 2 else 800
    a = symargs(p, k)
    at = a[M.pnames(p, k).index(ATTR)]
    for s0, m in e.run(get, [at], State()):
        keep = (ladd(cint(2), m, -1), ladd(m, cint(256), -1))
        if not all(s0.add_le0(x) for x in keep):
            continue
        e.KEEP, e.HINTS, e.LOWS = keep, (m,) + tuple(ladd(m, t) for t in over), (cint(1),)
        for s, r in e.run(k, a, s0):
            o = outcome(p, s, r)
            if o is None:
                if not peel:
                    c.undecide("%s: outcome not determined" % c.loc(p, k))
            elif o[0] == "ok":
                pv = e.proj(s, e.proj(s, r, ("f", 0, 0)), ("f", 0, pal_field(p)))
                for x in L.lens(e, s, pv):
                    c.obligation()
                    if not s.ent_le(x, m):
                        bad.append((s, x, m))
    c.done(e)
    return bad


def methods(p):
    """functions of a finished result"""
    t = result_type(p)
    out = []
    for k in palm.local_fns(p):
        ps = M.params(p, k)
        if any(p.ty(x)["k"] == "ref" and p.ty(x)["mut"] and M.deref_id(p, x) == t for x in ps) and not cg.small(p, k):
            out.append(k)
    return out


def shown(p, t, path=()):
    """paths to lists of colours, and to integer palettes, in a returned value: [(path, kind)]"""
    x = p.ty(t)
    if x["k"] == "ref":
        y = p.ty(x["e"])
        if y.get("name") == M.PAL:
            return [(path, "palette")]
        if y["k"] == "slice" and p.ty(y["e"]).get("name", "").endswith("::Rgba"):
            return [(path, "slice")]
        return []
    if x.get("name") == "alloc::vec::Vec" and p.ty(x["args"][0]).get("name", "").endswith("::Rgba"):
        return [(path, "list")]
    if x.get("name") == "core::result::Result":
        return shown(p, x["v"][0]["f"][0][1], path + ((0, 0),))
    if x.get("name") == "core::option::Option":
        return shown(p, x["v"][1]["f"][0][1], path + ((1, 0),))
    if x["k"] == "tuple":
        return [y for i, f in enumerate(x["f"]) for y in shown(p, f, path + ((0, i),))]
    return []


def method(c, p, pl, L, k):
    c.count("methods")
    t = result_type(p)
    e = L.engine()
    st = State()
    a = symargs(p, k)
    n = L.num("pal")
    st.add_le0(ladd(n, cint(256), -1))
    cnt = L.count_path()
    ints = [i for i, f in enumerate(p.fields(t)) if p.ty(f).get("name") == M.PAL]
    for i, x in enumerate(M.params(p, k)):
        if M.deref_id(p, x) == t and p.ty(x)["k"] == "ref":
            root, path, _ = e.target(st, a[i])
            e.rootty[root] = t
            pv = L.palette(e, n)
            e.wr(st, root, path + (("f", 0, pal_field(p)),), pv)
            for f in ints:      # counts of the integer palettes: within the number of colours, before and after
                st.add_le0(ladd(e.rd(st, root, path + (("f", 0, f), cnt)), n, -1))
            break
    e.HINTS = (n,)

    def judge(s, x, what):
        c.obligation()
        if s.ent_le(x, n):
            return
        y = exceeds(s, x, n, [cint(1)])
        if y is not None:
            c.violation(c.loc(p, k), "%s: up to %s, the palette had %s" % (what, show(y)[:120], show(n)), key=what)
        else:
            c.undecide("%s: %s: %s" % (c.loc(p, k), what, show(x)[:100]))
    outs = shown(p, p.fns[k]["locals"][0])
    for s, r in e.run(k, a, st):
        for x in L.lens(e, s, e.rd(s, root, path + (("f", 0, pal_field(p)),))):
            judge(s, x, "a finished result gets more colours")
        for r0, q in inside(e, p, s, root, path, t):
            c.count("reported_counts")
            judge(s, e.rd(s, r0, q + (cnt,)), "more colours reported than there are")
        o = outcome(p, s, r) if p.ty(p.fns[k]["locals"][0])["k"] == "enum" else None
        if o is not None and o[0] in ("err", "none"):
            continue
        for pp, kind in outs:
            c.count("reports")
            v = L.at(e, s, r, pp)
            if kind == "palette":
                r0, q, _ = e.target(s, v)
                x = e.rd(s, r0, q + (cnt,))
            elif kind == "list" and v.op == "vec":
                x = v.a[1]
            else:
                x = e.len_of(s, v)
            if stored(p, x, cnt):
                c.obligation()
                continue
            judge(s, x, "more colours returned than there are")
    c.done(e)


def stored(p, x, step):
    """the count of an integer palette kept from an earlier call"""
    return x.op == "fld" and ("f",) + tuple(x.a[1:]) == step and x.a[0].ty is not None and p.ty(x.a[0].ty).get("name") == M.PAL


def inside(e, p, s, root, path, t, d=0):
    """places of integer palettes in a value that has been set: [(root, path)]"""
    x = p.ty(t)
    if x.get("name") == M.PAL:
        return [(root, path)]
    if d > 6 or x["k"] not in ("struct", "enum", "tuple"):
        return []
    if x.get("name") == "alloc::boxed::Box":
        v = e.rd(s, root, path)
        try:
            r, pp, _ = e.target(s, v)
        except Exception:
            return []
        return inside(e, p, s, r, pp, x["args"][0], d + 1)
    if x.get("name") == "core::option::Option":
        v = e.rd(s, root, path)
        if v.op == "agg" and v.a[1] == 1:
            return inside(e, p, s, root, path + (("f", 1, 0),), x["v"][1]["f"][0][1], d + 1)
        return []
    if x["k"] == "struct" and str(x.get("name", "")).startswith("imagequant"):
        return [y for i, f in enumerate(p.fields(t)) for y in inside(e, p, s, root, path + (("f", 0, i),), f, d + 1)]
    return []


def report(c, p, pl, L, _):
    """integer palettes have as many entries as the palette they are made from"""
    for k in L.order([k for k in palm.local_fns(p) if L.counts(k) and palm.PALF in M.pnames(p, k)]):
        c.count("reports")
        c.obligation()
        e = L.engine()
        st = State()
        a = symargs(p, k)
        n = L.num("pal")
        st.add_le0(ladd(n, cint(256), -1))
        for i, (t, nm) in enumerate(zip(M.params(p, k), M.pnames(p, k))):
            if nm == palm.PALF:
                a[i] = L.palette(e, n)
                if p.ty(t)["k"] == "ref":
                    a[i] = e.mkref(st, e.alloc(st, a[i], pl.ty, "pal"), (), None)
        e.HINTS = (n,)
        for s, r in e.run(k, a, st):
            for i in L.counts(k):
                r0, pp, _ = e.target(s, a[i])
                x = e.rd(s, r0, pp + (L.count_path(),))
                if s.ent_eq(x, n):
                    continue
                if not known(x) and not s.ent_ne(x, n):
                    c.undecide("%s: count of the integer palette: %s" % (c.loc(p, k), show(x)[:100]))
                else:
                    c.violation(c.loc(p, k), "the integer palette gets %s entries, the palette has %s" % (show(x)[:80], show(n)), key="count of the integer palette")
        c.done(e)
    # the entries shown are the first `count`
    for k in palm.local_fns(p):
        t = p.ty(p.fns[k]["locals"][0])
        if p.fns[k]["n"] == 1 and M.pnames(p, k)[0] == M.PAL and t["k"] == "ref" and p.ty(t["e"])["k"] == "slice":
            c.count("reports")
            e = L.engine()
            st = State()
            a = symargs(p, k)
            r0, pp, _ = e.target(st, a[0])
            cnt = e.rd(st, r0, pp + (L.count_path(),))
            for s, r in e.run(k, a, st):
                c.obligation()
                x = e.len_of(s, r)
                if s.ent_eq(x, cnt):
                    continue
                if not known(x) and not s.ent_ne(x, cnt):
                    c.undecide("%s: entries shown: %s" % (c.loc(p, k), show(x)[:100]))
                else:
                    c.violation(c.loc(p, k), "shows %s entries of a palette that has %s" % (show(e.len_of(s, r))[:80], show(cnt)[:60]), key="entries shown %s" % c07name(p, k))
            c.done(e)


def insertion(c, p, pl, L, _):
    """functions that put given colours into a palette, with exact small sizes: the result is within the maximum given"""
    for k, pi, ni, fi in c13.insertions(pl):
        c.count("insertions")
        for np in range(3):
            for nf in range(4):
                for mx in (1, 2, 3):
                    if np <= mx:
                        outgrown(c, p, pl, k, pi, ni, fi, np, nf, mx)


def outgrown(c, p, P, k, pi, ni, fi, np, nf, mx):
    e = c.engine(p)
    e.EXACT, e.PEEL, e.CAP, e.RETCAP, e.STEPS = True, 8, 400, 400, 100000
    st = State()
    pv, _ = P.make(st, [(P.zero, P.plain)[i % 2] for i in range(np)])
    root = mk("D", mk("sym", "given", ""))
    st.mem[root] = mk("agg", "array", 0, tuple(P.sym("given%d" % i) for i in range(nf)))
    a = symargs(p, k)
    byref = M.params(p, k)[pi] != P.ty
    home = e.alloc(st, pv, P.ty)
    a[pi], a[ni], a[fi] = (e.mkref(st, home, (), None) if byref else pv), cint(mx), e.mkref(st, root, (), cint(nf))
    c.obligation()
    try:
        for s, r in e.run(k, a, st):
            es = P.entries(e, s, e.rd(s, home, ()) if byref else r)
            if es is not None and len(es) > mx:
                c.violation(c.loc(p, k), "a palette of %d colours, with %d fixed colours and a maximum of %d, gets %d" % (np, nf, mx, len(es)), key="more colours than the maximum")
    except Giveup as g:
        c.notes.append("%s with exact sizes: %s" % (c07name(p, k), g))
    c.done(e)
