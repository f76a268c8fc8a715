"""Abstract interpreter over the MIR facts.

Domain: a state maps memory roots to value terms (terms.py) and carries facts (state.py). Control flow is
handled by trace partitioning: states are kept apart per path up to a cap, then joined; loops are analysed
once with their entry state (peeling) and then to a fixpoint of the joined state (phi terms, inductive facts).
Nothing is executed and no solver is used: facts are linear inequalities decided by elimination.
"""
import re, sys
import state as S
from state import *
import time
from terms import *

sys.setrecursionlimit(100000)


class Giveup(Exception):
    """analysis too large or a construct the interpreter does not understand"""


_nrm = {}


def norm(p):
    """strip generic arguments: core::option::Option::<T>::map -> core::option::Option::map"""
    if p is None:
        return ""
    r = _nrm.get(p)
    if r is None:
        out = []
        i = 0
        while i < len(p):
            if p.startswith("::<", i) and not p.startswith("::<impl ", i):
                d = 0
                j = i + 2
                while j < len(p):
                    if p[j] == "<":
                        d += 1
                    elif p[j] == ">" and p[j - 1] not in "-=":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                i = j + 1
                continue
            out.append(p[i])
            i += 1
        r = "".join(out)
        _nrm[p] = r
    return r


class Prog:
    def __init__(self, facts):
        self.f = facts
        self.fns = facts["fns"]
        self.facts = facts
        self.types = facts["types"]
        self.items = facts["items"]
        self.cfgs = {}
        self.bypath = {}
        for k, f in self.fns.items():
            self.bypath.setdefault(norm(f["path"]), []).append(k)
        self.consts = {x["path"]: x for x in facts.get("consts") or []}
        S.INT_RANGE = self.int_range
        S.NVARIANTS = self.discr_vals

    def activate(self):
        S.INT_RANGE = self.int_range
        S.NVARIANTS = self.discr_vals

    def ty(self, i):
        return self.types[i]

    def tyid(self, s):
        m = getattr(self, "_tyid", None)
        if m is None:
            m = self._tyid = {}
            for i, t in enumerate(self.types):
                m.setdefault(t["s"], i)
        return m.get(s)

    def int_range(self, i):
        t = self.types[i]
        k = t["k"]
        if k == "uint":
            return 0, 2 ** t["bits"] - 1
        if k == "int":
            return -(2 ** (t["bits"] - 1)), 2 ** (t["bits"] - 1) - 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "bool":
            return 0, 1
        return None

    def is_int(self, i):
        return self.types[i]["k"] in ("uint", "int", "char")

    def discr_vals(self, i):
        if i is None:
            return None
        t = self.types[i]
        if t["k"] != "enum":
            return None
        r = t.get("_dv")
        if r is None:
            r = []
            for v in t["v"]:
                r.append(int(v["d"]))
            t["_dv"] = r
        return r

    def strip_ref(self, i):
        t = self.types[i]
        return t["e"] if t["k"] in ("ref", "ptr") else None

    def pointee(self, i):
        t = self.types[i]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        return None

    def fields(self, i, var=0):
        t = self.types[i]
        k = t["k"]
        if k in ("struct", "union"):
            return [f[1] for f in t["v"][0]["f"]]
        if k == "enum":
            return [f[1] for f in t["v"][var]["f"]] if var < len(t["v"]) else None
        if k in ("tuple", "closure"):
            return list(t["f"])
        return None

    def fidx(self, i, name, var=0):
        for n, f in enumerate(self.types[i]["v"][var]["f"]):
            if f[0] == name:
                return n
        return None

    def find(self, path):
        """unique fn key with this (generic-stripped) path"""
        ks = self.bypath.get(path, [])
        return ks[0] if len(ks) == 1 else (sorted(ks, key=len)[0] if ks else None)

    # ---- CFG: loops -------------------------------------------------------------------
    def cfg(self, key):
        c = self.cfgs.get(key)
        if c is None:
            c = self.cfgs[key] = Cfg(self.fns[key])
        return c


def succs(t):
    if t is None:
        return []
    o = t[0]
    if o == "goto":
        return [t[1]]
    if o == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if o == "drop":
        return [t[2]]
    if o == "call":
        return [t[4]] if t[4] is not None else []
    if o == "assert":
        return [t[4]]
    return []


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn["blocks"])
        self.succ = [succs(b["t"]) for b in fn["blocks"]]
        reach, order, onst = set(), [], set()

        def dfs(u):
            st = [(u, iter(self.succ[u]))]
            reach.add(u)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in reach:
                        reach.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    st.pop()
                    order.append(x)
        dfs(0)
        self.rpo = list(reversed(order))
        self.reach = reach
        # nested SCC decomposition
        self.loops = {}   # header -> (blocks, parent)
        self.regions = {}

    def region(self, blocks, head):
        """order the nodes of `blocks` (edges into head removed) as a list of items: block int or ('loop', header, set)"""
        k = (head, len(blocks), hash(frozenset(blocks)))
        r = self.regions.get(k)
        if r is None:
            r = self.regions[k] = self._region(blocks, head)
        return r

    def _region(self, blocks, head):
        succ = {b: [s for s in self.succ[b] if s in blocks and s != head] for b in blocks}
        # Tarjan, iterative
        idx, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]
        for root in [head] + sorted(blocks):
            if root in idx:
                continue
            work = [(root, iter(succ[root]))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                u, it = work[-1]
                adv = False
                for v in it:
                    if v not in idx:
                        idx[v] = low[v] = cnt[0]
                        cnt[0] += 1
                        st.append(v)
                        onst.add(v)
                        work.append((v, iter(succ[v])))
                        adv = True
                        break
                    elif v in onst:
                        low[u] = min(low[u], idx[v])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = set()
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.add(w)
                        if w == u:
                            break
                    out.append(comp)
        out.reverse()
        items = []
        for comp in out:
            if len(comp) == 1:
                (b,) = comp
                if b in succ[b]:
                    items.append(("loop", b, frozenset(comp)))
                else:
                    items.append(b)
            else:
                heads = sorted({s for b in blocks if b not in comp for s in succ[b] if s in comp})
                if not heads:
                    heads = [min(comp, key=lambda b: idx[b])]
                items.append(("loop", heads[0] if len(heads) == 1 else min(heads, key=lambda b: idx[b]), frozenset(comp)))
        return items


class Frame:
    __slots__ = ("key", "fn", "path", "depth", "parent")

    def __init__(self, key, fn, path, depth, parent):
        self.key, self.fn, self.path, self.depth, self.parent = key, fn, path, depth, parent


class Engine:
    CAP = 12          # states per block before joining
    MAXDEPTH = 40
    STEPS = 400000

    def __init__(self, prog, hooks=None, opaque=(), inline_std=True):
        self.p = prog
        prog.activate()
        self.hooks = hooks or {}
        self.opaque = opaque          # set of normalised paths, or predicate
        self.steps = 0
        self.rootty = {}
        self.stack = []
        self.callees = {}
        self.pos = None
        self.analysed = set()
        self.obs_write = None         # callback(state, root, path, value, frame, line)
        self.obs_read = None
        self.obs_call = None          # callback(state, frame, name, callee, args, span)
        self.obs_drop = None
        self.obs_loop_back = None     # callback(state, frame, header)
        self.ncalls = 0
        self.opaque_seen = {}
        self.assume_asserts = True
        import models
        self.models = models.MODELS
        self.mod = models

    # ------------------------------------------------------------------ helpers
    def fresh(self, st, label, ty=None, site=None):
        site = (label, site if site is not None else self.pos)
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        t = mk("sym", label, site[1], n)
        if t.ty is None:
            t.ty = ty
        return t

    def alloc(self, st, val, ty=None, label="H"):
        site = self.pos
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        root = mk("H", self.pos, n)
        st.mem[root] = val
        if ty is not None:
            self.rootty[root] = ty
        return root

    # ------------------------------------------------------------------ memory
    def rd(self, st, root, path):
        v = self.root_val(st, root)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root.op == "D":
                v = mk("deref", root.a[0])
            elif root.op == "K":
                v = root.a[0]
            elif root.op == "S":
                v = mk("static", root.a[0])
            else:
                v = mk("undef", root)
            if v.ty is None and root in self.rootty:
                v.ty = self.rootty[root]
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            var, i = e[1], e[2]
            if v.op in ("ref", "fat") and i == 0:
                return v          # Box / Unique / NonNull around a known pointer
            if v.op == "cloned":
                return v.a[0] if False else self.cloned(self.proj(st, v.a[0], e))
            if v.op == "agg":
                if v.a[0] == "union":
                    if v.a[1] == i:
                        return v.a[2][0]
                    return mk("ucast", v.a[2][0], i)
                if v.a[1] != (var or 0):
                    return mk("bot")
                fs = v.a[2]
                if i < len(fs):
                    return fs[i]
                return mk("fld", v, var or 0, i)
            if v.op == "with" and v.a[1] == (var or 0):
                return v.a[3] if v.a[2] == i else self.proj(st, v.a[0], e)
            t = mk("fld", v, var or 0, i)
            if t.ty is None and v.ty is not None:
                fs = self.p.fields(v.ty, var or 0)
                if fs and i < len(fs):
                    t.ty = fs[i]
            return t
        if k == "e":
            idx = e[1]
            if v.op == "cloned":
                return self.cloned(self.proj(st, v.a[0], e))
            while v.op == "arr":
                base, ups = v.a
                hit = None
                for (ui, uv) in reversed(ups):
                    if ui is idx:
                        return uv
                    d = ladd(ui, idx, -1)
                    if isint(d) and d.a[1] != 0:
                        continue
                    if st is not None and st.ent_ne(ui, idx):
                        continue
                    hit = False
                    break
                if hit is False:
                    r = mk("sel", v, idx)
                    self.elem_ty(r, v)
                    return r
                v = base
            if v.op == "agg" and isint(idx) and 0 <= idx.a[1] < len(v.a[2]):
                return v.a[2][idx.a[1]]
            if v.op == "repeat":
                return v.a[0]
            r = mk("sel", v, idx)
            self.elem_ty(r, v)
            return r
        if k == "o":
            return mk("sub", v, e[1])
        raise Giveup("proj " + str(e))

    def cloned(self, v):
        """a clone of a plain value is that value; clones of owners stay marked"""
        if v.op in ("c", "lin") or (v.ty is not None and self.p.ty(v.ty)["k"] in ("int", "uint", "float", "bool", "char")):
            return v
        return mk("cloned", v)

    def elem_ty(self, r, v):
        if r.ty is None:
            b = v
            while b.op == "arr":
                b = b.a[0]
            if b.ty is not None:
                t = self.p.ty(b.ty)
                if t["k"] in ("array", "slice"):
                    r.ty = t["e"]

    def wr(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.upd(st, self.root_val(st, root), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            var, i = e[1] or 0, e[2]
            if v.op == "agg":
                if v.a[0] == "union":
                    inner = v.a[2][0] if v.a[1] == i else mk("ucast", v.a[2][0], i)
                    r = mk("agg", "union", i, (self.upd(st, inner, path[1:], val),))
                    r.ty = v.ty
                    return r
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(mk("fld", v, var, len(fs)))
                fs[i] = self.upd(st, fs[i], path[1:], val)
                r = mk("agg", v.a[0], v.a[1], tuple(fs))
                if r.ty is None:
                    r.ty = v.ty
                return r
            # expand an opaque aggregate
            if v.ty is not None:
                ty = self.p.ty(v.ty)
                if ty["k"] == "union":
                    r = mk("agg", "union", i, (self.upd(st, self.proj(st, v, e), path[1:], val),))
                    r.ty = v.ty
                    return r
                fts = self.p.fields(v.ty, var)
                if fts is not None and i < len(fts):
                    fs = [self.proj(st, v, ("f", var, j)) for j in range(len(fts))]
                    fs[i] = self.upd(st, fs[i], path[1:], val)
                    r = mk("agg", self.tyname(v.ty), var, tuple(fs))
                    if r.ty is None:
                        r.ty = v.ty
                    return r
            r = mk("with", v, var, i, self.upd(st, self.proj(st, v, e), path[1:], val))
            r.ty = v.ty
            return r
        if e[0] == "e":
            idx = e[1]
            old = self.proj(st, v, e)
            new = self.upd(st, old, path[1:], val)
            if v.op == "agg" and isint(idx) and 0 <= idx.a[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[idx.a[1]] = new
                r = mk("agg", v.a[0], v.a[1], tuple(fs))
                r.ty = v.ty
                return r
            if v.op == "arr":
                base, ups = v.a
                ups = tuple(u for u in ups if u[0] is not idx)[-7:] + ((idx, new),)
            else:
                base, ups = v, ((idx, new),)
            r = mk("arr", base, ups)
            if r.ty is None:
                r.ty = v.ty
            return r
        if e[0] == "o":
            r = mk("osub", v, e[1], val)
            r.ty = v.ty
            return r
        raise Giveup("upd")

    def tyname(self, i):
        t = self.p.ty(i)
        k = t["k"]
        if k in ("struct", "enum"):
            return t["name"]
        if k == "union":
            return "union"
        if k == "closure":
            return "closure:" + t["key"]
        if k == "tuple":
            return "()"
        return k

    @staticmethod
    def addpath(path, e):
        """append an access element, normalising element offsets"""
        if path and path[-1][0] == "o":
            if e[0] == "e":
                return path[:-1] + (("e", ladd(path[-1][1], e[1])),)
            if e[0] == "o":
                o = ladd(path[-1][1], e[1])
                return path[:-1] + ((("o", o),) if not (isint(o) and o.a[1] == 0) else ())
        if e[0] == "o" and isint(e[1]) and e[1].a[1] == 0:
            return path
        return path + (e,)

    def target(self, st, v, ty=None):
        """pointer value -> (root, path, meta)"""
        o = v.op
        if o == "ref":
            return v.a[0], v.a[1], None
        if o == "fat":
            r, p, _ = self.target(st, v.a[0])
            return r, p, v.a[1]
        if o == "poff":
            r, p, _ = self.target(st, v.a[0])
            return r, self.addpath(p, ("o", v.a[1])), None
        if o == "agg" and len(v.a[2]) >= 1:
            # Box / Unique / NonNull wrappers around a pointer
            return self.target(st, v.a[2][0])
        root = mk("D", v)
        if ty is not None and root not in self.rootty:
            self.rootty[root] = ty
        elif root not in self.rootty and v.ty is not None:
            pt = self.p.pointee(v.ty)
            if pt is not None:
                self.rootty[root] = pt
        return root, (), None

    def deref(self, st, v, ty=None):
        r, p, _ = self.target(st, v, ty)
        return self.rd(st, r, p)

    def store(self, st, ptr, val):
        r, p, _ = self.target(st, ptr)
        self.write_obs(st, r, p, val)
        self.wr(st, r, p, val)

    def write_obs(self, st, root, path, val):
        if self.obs_write is not None and root.op != "L":
            self.obs_write(st, root, path, val)

    def len_of(self, st, v):
        """length of a slice pointer value"""
        if v.op == "fat":
            return v.a[1]
        if v.op == "agg" and v.a[2]:
            return self.len_of(st, v.a[2][0])
        if v.op == "str":
            return cint(len(v.a[0].encode()))
        if v.op == "ref" and v.ty is not None:
            pass
        if v.op == "ref":
            val = self.rd(st, v.a[0], v.a[1])
            if val.op == "agg":
                return cint(len(val.a[2]))
            if val.op == "repeat":
                return val.a[1]
            return mk("len", v)
        return mk("len", v)

    # ------------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (root, path, meta, ty)"""
        fn = fr.fn
        root = mk("L", fr.path, pl[0])
        path = ()
        meta = None
        ty = fn["locals"][pl[0]]
        var = None
        for e in pl[1:]:
            if e == "*":
                v = self.rd(st, root, path)
                if v.ty is None:
                    v.ty = ty
                t = self.p.ty(ty)
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "struct" and t["name"].endswith("Box"):
                    ty = t["args"][0]
                else:
                    ty = None
                root, path, meta = self.target(st, v, ty)
                if meta is None and ty is not None and self.p.ty(ty)["k"] == "slice":
                    meta = self.len_of(st, v)
                if self.obs_read is not None:
                    self.obs_read(st, root, path, fr)
                var = None
            elif e[0] == "f":
                path = self.addpath(path, ("f", var or 0, e[1]))
                ty = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                idx = self.rd(st, mk("L", fr.path, e[1]), ())
                path = self.addpath(path, ("e", idx))
                ty = self.p.ty(ty).get("e") if ty is not None else None
            elif e[0] == "ci":
                if e[2]:
                    n = meta
                    if n is None:
                        t = self.p.ty(ty)
                        n = cint(t["n"]) if t["k"] == "array" and isinstance(t.get("n"), int) else mk("len", mk("ref", root, path))
                    idx = ladd(n, cint(e[1]), -1)
                else:
                    idx = cint(e[1])
                path = self.addpath(path, ("e", idx))
                ty = self.p.ty(ty).get("e") if ty is not None else None
            elif e[0] == "ss":
                path = self.addpath(path, ("o", cint(e[1])))
                if meta is not None:
                    meta = ladd(meta, cint(e[1] + e[2])) if False else (ladd(meta, cint(e[1] + e[2]), -1) if e[3] else cint(e[2] - e[1]))
            else:
                raise Giveup("place " + str(e))
        return root, path, meta, ty

    def read(self, st, fr, pl):
        root, path, meta, ty = self.place(st, fr, pl)
        v = self.rd(st, root, path)
        if v.ty is None and ty is not None and v.op != "c":
            v.ty = ty
        if self.obs_read is not None and root.op != "L":
            self.obs_read(st, root, path, fr)
        return v

    def write(self, st, fr, pl, val):
        root, path, meta, ty = self.place(st, fr, pl)
        if val.ty is None and ty is not None and val.op != "c":
            val.ty = ty
        self.write_obs(st, root, path, val)
        self.wr(st, root, path, val)

    # ------------------------------------------------------------------ operands / constants
    def const_val(self, v, ty):
        if "i" in v:
            k = self.p.ty(ty)
            b = int(v["i"])
            kk = k["k"]
            if kk == "bool":
                return cbool(b)
            if kk == "float":
                return mk("c", "f%d" % k["bits"], b)
            if kk == "int":
                if b >= 1 << (k["bits"] - 1):
                    b -= 1 << k["bits"]
                return cint(b)
            if kk in ("ptr", "ref", "fnptr"):
                return mk("addr", b)
            return cint(b)
        if "agg" in v:
            fts = self.p.fields(v["agg"], v.get("v") or 0)
            t = self.p.ty(v["agg"])
            if t["k"] == "array":
                fts = [t["e"]] * len(v["f"])
            fs = tuple(self.const_val(x, fts[i] if fts and i < len(fts) else None) for i, x in enumerate(v["f"]))
            r = mk("agg", self.tyname(v["agg"]), v.get("v") or 0, fs)
            if r.ty is None:
                r.ty = v["agg"]
            return r
        if "ref" in v:
            pt = self.p.pointee(ty) if ty is not None else None
            inner = self.const_val(v["ref"], pt)
            return mk("ref", mk("K", inner), ())
        if "refslice" in v:
            pt = self.p.pointee(ty) if ty is not None else None
            et = self.p.ty(pt).get("e") if pt is not None else None
            fs = tuple(self.const_val(x, et) for x in v["refslice"])
            return mk("fat", mk("ref", mk("K", mk("agg", "array", 0, fs)), ()), cint(len(fs)))
        if "str" in v:
            return mk("str", v["str"])
        if "static" in v:
            r = mk("S", v["static"])
            if ty is not None and r not in self.rootty:
                pt = self.p.pointee(ty)
                if pt is not None:
                    self.rootty[r] = pt
            return mk("ref", r, ())
        if "fnptr" in v:
            ce = v["fnptr"]
            if isinstance(ce, dict):
                self.callees[ce.get("key")] = ce
                return mk("fn", ce.get("key"))
            return mk("fn", str(ce))
        if "zst" in v:
            t = self.p.ty(ty) if ty is not None else None
            if t is not None and t["k"] == "fndef":
                return self.fndef(t)
            return mk("agg", self.tyname(ty) if ty is not None else "()", 0, ())
        if "bits" in v:
            return mk("cbits", str(v["bits"]))
        return mk("kopaque", str(v)[:200])

    def fndef(self, t):
        ce = t.get("callee")
        if isinstance(ce, dict):
            self.callees[ce.get("key")] = ce
            return mk("fn", ce.get("key"))
        return mk("fn", t.get("path"))

    def const(self, k):
        ty = k["t"]
        if "fn" in k:
            ce = k["fn"]
            self.callees[ce.get("key")] = ce
            return mk("fn", ce.get("key"))
        if "v" in k:
            r = self.const_val(k["v"], ty)
        elif "cpath" in k:
            r = mk("kpath", k["cpath"])
        elif "param" in k:
            r = mk("kparam", str(k["param"]))
        else:
            r = mk("kopaque", str(k.get("opaque"))[:200])
        if r.ty is None and r.op != "c":
            r.ty = ty
        return r

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rt":
            return FALSE          # UbChecks/OverflowChecks: the checks abort, they never change a result
        return self.read(st, fr, o[1])

    def op_ty(self, fr, o):
        if o[0] == "k":
            return o[1]["t"]
        if o[0] == "rt":
            return self.p.tyid("bool")
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        ty = fr.fn["locals"][pl[0]]
        for e in pl[1:]:
            if ty is None:
                return None
            t = self.p.ty(ty)
            if e == "*":
                ty = t["e"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else None)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("e")
        return ty

    # ------------------------------------------------------------------ arithmetic
    def fit(self, st, r, ty):
        """r: mathematical value; reduce to type ty (wrap unless provably in range)"""
        rg = self.p.int_range(ty)
        if rg is None or isint(r):
            if isint(r) and rg:
                n = rg[1] - rg[0] + 1
                v = r.a[1]
                if not rg[0] <= v <= rg[1]:
                    v = (v - rg[0]) % n + rg[0]
                return cint(v)
            return r
        if self.p.ty(ty).get("bits") == 64:
            return r
        return self.fit_strict(st, r, rg)

    def fit_strict(self, st, r, rg):
        # interval shortcut
        d, c = lin(r)
        lo = hi = c
        ok = True
        for k, v in d.items():
            q = atom_range(k)
            if q is None:
                ok = False
                break
            lo += min(v * q[0], v * q[1])
            hi += max(v * q[0], v * q[1])
        if ok and rg[0] <= lo and hi <= rg[1]:
            return r
        if st is not None and st.ent_le(cint(rg[0]), r) and st.ent_le(r, cint(rg[1])):
            return r
        return mk("wrap", rg, r)

    def binop(self, st, op, a, b, ty, rty=None):
        t = self.p.ty(ty) if ty is not None else {"k": "?"}
        k = t["k"]
        if k in ("int", "uint", "char") or (k == "?" and (isint(a) or isint(b))):
            return self.intop(st, op, a, b, ty)
        if k == "float":
            return self.fop(op, a, b, t["bits"])
        if k == "bool":
            if op in ("Eq", "Ne"):
                if b.op == "c":
                    a, b = b, a
                if a.op == "c":
                    r = b if a.a[1] else mknot(b)
                    return r if op == "Eq" else mknot(r)
                if a is b:
                    return cbool(op == "Eq")
                r = mk("xor", *sorted((a, b), key=lambda x: x.n))
                return r if op == "Ne" else mknot(r)
            if op == "BitAnd":
                if a.op == "c":
                    return b if a.a[1] else FALSE
                if b.op == "c":
                    return a if b.a[1] else FALSE
                return mk("and", a, b)
            if op == "BitOr":
                if a.op == "c":
                    return TRUE if a.a[1] else b
                if b.op == "c":
                    return TRUE if b.a[1] else a
                return mk("or", a, b)
            if op == "BitXor":
                return self.binop(st, "Ne", a, b, ty)
            return mk("bop", op, a, b)
        if k in ("ptr", "ref", "fnptr"):
            if op in ("Eq", "Ne"):
                if a is b:
                    r = TRUE
                elif a.op == "addr" and b.op == "addr":
                    r = cbool(a.a[0] == b.a[0])
                elif {a.op, b.op} == {"ref", "addr"} and (a if a.op == "addr" else b).a[0] == 0:
                    r = FALSE
                elif self.distinct_statics(a, b):
                    r = FALSE
                else:
                    r = mk("peq", *sorted((a, b), key=lambda x: x.n))
                return r if op == "Eq" else mknot(r)
            if op == "Offset":
                if a.op == "ref":
                    return mk("ref", a.a[0], self.addpath(a.a[1], ("o", b)))
                if a.op == "poff":
                    return mk("poff", a.a[0], ladd(a.a[1], b))
                return mk("poff", a, b)
        r = mk("bop", op, a, b)
        return r

    def distinct_statics(self, a, b):
        """pointers stored in two statics whose initializers point to different bytes"""
        def name(x):
            while x.op in ("f", "proj", "fld"):
                x = x.a[0]
            return x.a[0] if x.op == "static" else None
        m, n = name(a), name(b)
        if m is None or n is None or m == n:
            return False
        pa, pb = self.p.consts.get(m, {}).get("ptrs"), self.p.consts.get(n, {}).get("ptrs")
        return bool(pa and pb and len(pa) == len(pb) == 1 and pa != pb)

    def intop(self, st, op, a, b, ty):
        if op in ("Add", "AddUnchecked"):
            return self.fit(st, ladd(a, b), ty)
        if op in ("Sub", "SubUnchecked"):
            return self.fit(st, ladd(a, b, -1), ty)
        if op in ("Mul", "MulUnchecked"):
            return self.fit(st, lmul(a, b), ty)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            m = {"A": lambda: ladd(a, b), "S": lambda: ladd(a, b, -1), "M": lambda: lmul(a, b)}[op[0]]()
            rg = self.p.int_range(ty)
            ov = mk("or", mkle0(ladd(m, cint(1 - rg[0]))), mkle0(ladd(cint(rg[1] + 1), m, -1)))
            if ov.a[0] is FALSE:
                ov = ov.a[1]
            elif ov.a[1] is FALSE:
                ov = ov.a[0]
            return mk("agg", "()", 0, (self.fit_strict(st, m, rg) if not isint(m) else self.fit(st, m, ty), ov))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"):
                a, b = b, a
            L = ladd(a, b, -1)
            if op in ("Lt", "Gt"):
                L = ladd(L, cint(1))
            return mkle0(L)
        if op == "Eq":
            return mkeq0(ladd(a, b, -1))
        if op == "Ne":
            return mknot(mkeq0(ladd(a, b, -1)))
        if op in ("Div", "Rem"):
            if isint(a) and isint(b) and b.a[1]:
                q = abs(a.a[1]) // abs(b.a[1])
                if (a.a[1] < 0) != (b.a[1] < 0):
                    q = -q
                return cint(q if op == "Div" else a.a[1] - q * b.a[1])
            if isint(b) and b.a[1] == 1:
                return a if op == "Div" else cint(0)
            r = mk("div" if op == "Div" else "rem", a, b)
            if r.ty is None:
                r.ty = ty
            return r
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if isint(b):
                if op.startswith("Shl"):
                    return self.fit(st, lmul(a, cint(1 << (b.a[1] & 63))), ty)
                if isint(a):
                    return cint(a.a[1] >> b.a[1])
                r = mk("div", a, cint(1 << b.a[1]))
                if r.ty is None:
                    r.ty = ty
                return r
            r = mk("shl" if op.startswith("Shl") else "shr", a, b)
            if r.ty is None:
                r.ty = ty
            return r
        if op == "BitAnd":
            if isint(a) and isint(b):
                return self.fit(st, cint(a.a[1] & b.a[1]), ty)
            if isint(a):
                a, b = b, a
            rg = self.p.int_range(ty) if ty is not None else None
            if isint(b) and rg and rg[0] == 0 and b.a[1] == rg[1]:
                return a
            r = mk("band", a, b)
            if r.ty is None:
                r.ty = ty
            return r
        if op in ("BitOr", "BitXor"):
            if isint(a) and isint(b):
                return self.fit(st, cint(a.a[1] | b.a[1] if op == "BitOr" else a.a[1] ^ b.a[1]), ty)
            if isint(a) and a.a[1] == 0:
                return b
            if isint(b) and b.a[1] == 0:
                return a
            r = mk("bor" if op == "BitOr" else "bxor", a, b)
            if r.ty is None:
                r.ty = ty
            return r
        if op == "Cmp":
            return mk("cmp3", a, b)
        return mk("bop", op, a, b)

    def fop(self, op, a, b, bits):
        if isfloat(a) and isfloat(b):
            x, y = fval(a), fval(b)
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return cbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op])
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "Div": lambda: (x / y) if y else (float("nan") if x == 0 or x != x else (float("inf") if (x > 0) == (str(y)[0] != "-") else float("-inf")))}[op]()
                return cfloat(r, bits)
            except KeyError:
                pass
        if op in ("Lt", "Le", "Gt", "Ge") and (a.op == "phi" or b.op == "phi") and "_fr" in self.__dict__:
            x, y = self.frange(a), self.frange(b)
            if x is not None and y is not None:
                if op in ("Gt", "Ge"):
                    x, y, o = y, x, "Lt" if op == "Gt" else "Le"
                else:
                    o = op
                if (x[1] < y[0]) if o == "Lt" else (x[1] <= y[0]):
                    return TRUE
                if (x[0] >= y[1]) if o == "Lt" else (x[0] > y[1]):
                    return FALSE
        if op == "Lt":
            return mk("fcmp", "Lt", a, b)
        if op == "Le":
            return mk("fcmp", "Le", a, b)
        if op == "Gt":
            return mk("fcmp", "Lt", b, a)
        if op == "Ge":
            return mk("fcmp", "Le", b, a)
        if op == "Eq":
            return feq(a, b)
        if op == "Ne":
            return mknot(feq(a, b))
        return mk("f" + op, a, b, bits)

    def cast(self, st, kind, v, fty, tty):
        ft = self.p.ty(fty) if fty is not None else {"k": "?"}
        tt = self.p.ty(tty)
        fk, tk = ft["k"], tt["k"]
        if "Unsize" in kind:
            pf, pt = self.p.pointee(fty), self.p.pointee(tty)
            if pf is not None and self.p.ty(pf)["k"] == "array" and pt is not None and self.p.ty(pt)["k"] == "slice":
                n = self.p.ty(pf).get("n")
                ln = cint(n) if isinstance(n, int) else mk("len", v)
                return mk("fat", v, ln)
            return v
        if kind == "IntToInt":
            if fk == "bool":
                if isc(v):
                    return cint(v.a[1])
                return mk("b2i", v)
            if fk == "enum":
                if v.op == "agg":
                    dv = self.p.discr_vals(fty)
                    return cint(dv[v.a[1]])
                return mk("discr", v)
            if isint(v):
                return self.fit(st, v, tty)
            rg = self.p.int_range(tty)
            return self.fit_strict(st, v, rg) if rg else v
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if kind == "IntToFloat" and isint(v):
                return cfloat(float(v.a[1]), tt["bits"])
            if kind == "FloatToFloat" and isfloat(v):
                return cfloat(fval(v), tt["bits"])
            if kind == "FloatToInt" and isfloat(v):
                x = fval(v)
                lo, hi = self.p.int_range(tty)
                return cint(0 if x != x else max(lo, min(hi, int(x) if abs(x) != float("inf") else (hi if x > 0 else lo))))
            r = mk("cast", kind, v, tt["s"])
            if r.ty is None:
                r.ty = tty
            return r
        if kind == "Transmute":
            if fk in ("struct",) and tk in ("ptr", "ref"):
                return self.unwrap_ptr(v)
            if fk in ("ptr", "ref") and tk == "struct":
                return self.wrap_ptr(v, tty)
            return v
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
            return v
        # pointer-ish casts keep the value
        if fk in ("int", "uint") and tk in ("ptr",):
            return mk("i2p", v) if not isint(v) else mk("addr", v.a[1])
        if fk in ("ptr", "ref", "fnptr") and tk in ("int", "uint"):
            return mk("p2i", v)
        if fk in ("ptr", "ref") and tk in ("ptr", "ref"):
            # fat -> thin drops the metadata
            pf, pt = self.p.pointee(fty), self.p.pointee(tty)
            fat_f = self.p.ty(pf)["k"] in ("slice", "str", "dyn")
            fat_t = self.p.ty(pt)["k"] in ("slice", "str", "dyn")
            if fat_f and not fat_t:
                if v.op == "fat":
                    return v.a[0]
                return v
            return v
        return v

    def unwrap_ptr(self, v):
        while v.op == "agg" and v.a[2]:
            v = v.a[2][0]
        return v

    def wrap_ptr(self, v, tty):
        fts = self.p.fields(tty)
        if not fts:
            return v
        t0 = self.p.ty(fts[0])
        inner = self.wrap_ptr(v, fts[0]) if t0["k"] == "struct" else v
        fs = [inner] + [mk("agg", self.tyname(x), 0, ()) for x in fts[1:]]
        r = mk("agg", self.tyname(tty), 0, tuple(fs))
        if r.ty is None:
            r.ty = tty
        return r

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        o = rv[0]
        if o == "use":
            return self.operand(st, fr, rv[1])
        if o == "ref" or o == "addr":
            pl = rv[2]
            root, path, meta, ty = self.place(st, fr, pl)
            r = self.mkref(st, root, path, meta)
            return r
        if o == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.op_ty(fr, rv[2])
            return self.binop(st, rv[1], a, b, ty)
        if o == "un":
            a = self.operand(st, fr, rv[2])
            ty = self.op_ty(fr, rv[2])
            k = self.p.ty(ty)["k"] if ty is not None else "?"
            if rv[1] == "Not":
                if k == "bool":
                    return mknot(a)
                rg = self.p.int_range(ty)
                if rg:
                    if rg[0] == 0:
                        return ladd(cint(rg[1]), a, -1)
                    return ladd(cint(-1), a, -1)
                return mk("unot", a)
            if rv[1] == "Neg":
                if k == "float":
                    if isfloat(a):
                        bits = self.p.ty(ty)["bits"]
                        return mk("c", "f%d" % bits, a.a[1] ^ (1 << (bits - 1)))
                    if a.op == "fNeg":
                        return a.a[0]
                    return mk("fNeg", a)
                return self.fit(st, lmul(a, cint(-1)), ty)
            if rv[1] == "PtrMetadata":
                return self.len_of(st, a)
            return mk("un", rv[1], a)
        if o == "cast":
            a = self.operand(st, fr, rv[2])
            return self.cast(st, rv[1], a, self.op_ty(fr, rv[2]), rv[3])
        if o == "discr":
            v = self.read(st, fr, rv[1])
            return self.discr(st, v, self.place_ty(fr, rv[1]))
        if o == "agg":
            kind = rv[1]
            ops = [self.operand(st, fr, x) for x in rv[2]]
            if kind[0] == "adt":
                t = self.p.ty(kind[1])
                if t["k"] == "union":
                    r = mk("agg", "union", kind[3], tuple(ops))
                else:
                    r = mk("agg", t["name"], kind[2], tuple(ops))
                if r.ty is None:
                    r.ty = kind[1]
                return r
            if kind[0] == "closure":
                r = mk("agg", "closure:" + kind[2], 0, tuple(ops))
                if r.ty is None:
                    r.ty = kind[1]
                return r
            if kind[0] == "tuple":
                return mk("agg", "()", 0, tuple(ops))
            if kind[0] == "array":
                r = mk("agg", "array", 0, tuple(ops))
                if r.ty is None:
                    r.ty = dty
                return r
            if kind[0] == "rawptr":
                return mk("fat", ops[0], ops[1]) if len(ops) == 2 and not (ops[1].op == "agg" and not ops[1].a[2]) else ops[0]
            return mk("aggx", str(kind), tuple(ops))
        if o == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            r = mk("repeat", v, cint(n) if isinstance(n, int) else mk("kn", str(n)))
            if r.ty is None:
                r.ty = dty
            return r
        if o == "tls":
            return mk("ref", mk("S", str(rv[1])), ())
        return self.fresh(st, "rv:" + str(o), dty)

    def mkref(self, st, root, path, meta):
        if root.op == "D" and not path:
            # re-borrow of an opaque pointer
            b = root.a[0]
            if meta is not None and not (meta.op == "len" and meta.a[0] is b):
                return mk("fat", b, meta)
            return b
        r = mk("ref", root, path)
        if meta is not None:
            return mk("fat", r, meta)
        return r

    def discr(self, st, v, ty):
        dv = self.p.discr_vals(ty) if ty is not None else None
        if v.op == "agg" and dv:
            return cint(dv[v.a[1]]) if v.a[1] < len(dv) else mk("bot")
        if v.ty is None:
            v.ty = ty
        if dv:
            d = st.disc.get(v)
            if d is not None:
                return cint(dv[d])
            if v.op == "cmp3":
                pass
        return mk("discr", v)

    # ------------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        o = s[0]
        if o == "=":
            self.line = s[3]
            v = self.rvalue(st, fr, s[2], self.place_ty(fr, s[1]))
            self.write(st, fr, s[1], v)
        elif o == "dead":
            st.mem.pop(mk("L", fr.path, s[1]), None)
        elif o == "setd":
            root, path, meta, ty = self.place(st, fr, s[1])
            v = self.rd(st, root, path)
            fts = self.p.fields(ty, s[2]) or []
            fs = tuple(self.proj(st, v, ("f", s[2], i)) for i in range(len(fts)))
            r = mk("agg", self.tyname(ty), s[2], fs)
            if r.ty is None:
                r.ty = ty
            self.wr(st, root, path, r)
        elif o == "assume":
            c = self.operand(st, fr, s[1])
            st.assume(c, True)

    # ------------------------------------------------------------------ functions
    def run(self, key, args, st=None):
        """analyse function `key` from its entry with the given argument terms -> [(state, ret)]"""
        st = st or State()
        self.stack = []
        self.steps = 0
        return self.exec_fn(st, key, args, "")

    def exec_fn(self, st, key, args, fpath):
        fn = self.p.fns[key]
        self.analysed.add(key)
        fr = Frame(key, fn, fpath + "/" + str(len(self.stack)) if fpath else "0", len(self.stack), None)
        fr.path = fpath if fpath else "0"
        st = st.copy()
        for i, a in enumerate(args):
            r = mk("L", fr.path, i + 1)
            if a.ty is None and a.op != "c":
                a.ty = fn["locals"][i + 1]
            st.mem[r] = a
        self.stack.append(key)
        saved = self.pos
        try:
            cfg = self.p.cfg(key)
            exits, back, rets = self.run_region(fr, cfg, cfg.reach, 0, [st])
        finally:
            self.stack.pop()
            self.pos = saved
        out = []
        r0 = mk("L", fr.path, 0)
        for s in rets:
            v = s.mem.get(r0, UNIT)
            if v is UNIT and self.p.ty(fn["locals"][0])["k"] not in ("tuple",):
                v = self.fresh(s, "noret", fn["locals"][0])
            pre = fr.path
            for r in [r for r in s.mem if r.op == "L" and r.a[0] == pre]:
                # keep roots that escape through the return value (rare): they are simply forgotten
                del s.mem[r]
            out.append((s, v))
        return self.reduce_rets(out, fr.path)

    RETCAP = 6

    def reduce_rets(self, out, where):
        if len(out) <= self.RETCAP or not self.stack:
            return out
        # merge states with the same memory, ghost and value by intersecting facts
        groups = {}
        for s, v in out:
            k = (v, tuple(sorted(((r.n, t.n) for r, t in s.mem.items()))), tuple(sorted(s.ghost.items(), key=repr)))
            groups.setdefault(k, []).append((s, v))
        res = []
        for k, g in groups.items():
            s0 = g[0][0]
            for s, _ in g[1:]:
                meet_facts(s0, s)
            res.append((s0, g[0][1]))
        if len(res) <= self.RETCAP:
            return res
        R = mk("L", where + "#ret", 0)
        for s, v in res:
            s.mem[R] = v
        js = self.join_by_sig([s for s, _ in res], ("r", where), self.CAP)
        return [(s, s.mem.pop(R)) for s in js]

    def run_region(self, fr, cfg, blocks, head, entry):
        """-> (exits {target: [states]}, back [states], rets [states])"""
        items = cfg.region(blocks, head)
        inn = {head: list(entry)}
        exits, back, rets = {}, [], []

        def flow(target, states):
            if not states:
                return
            if target == head and started[0]:
                back.extend(states)
            elif target in blocks:
                inn.setdefault(target, []).extend(states)
            else:
                exits.setdefault(target, []).extend(states)
        started = [True]
        for it in items:
            if isinstance(it, tuple):
                _, h, body = it
                ent = []
                for b in body:
                    if b in inn:
                        if b == h or True:
                            ent.extend(inn.pop(b))
                if not ent:
                    continue
                ex, rt = self.fix_mir_loop(fr, cfg, body, h, ent)
                rets.extend(rt)
                for t, ss in ex.items():
                    flow(t, ss)
                continue
            sts = inn.pop(it, None)
            if not sts:
                continue
            sts = self.limit(sts, (fr.path, it))
            for s in sts:
                for tgt, ns in self.exec_block(fr, it, s):
                    if tgt == "ret":
                        rets.append(ns)
                    else:
                        flow(tgt, [ns])
        return exits, self.limit(back, (fr.path, head, "b")) if len(back) > self.CAP else back, self.limit(rets, (fr.path, "ret"))

    def limit(self, sts, where):
        if len(sts) <= self.CAP:
            return sts
        # 1. merge identical memories
        groups = {}
        for s in sts:
            k = (tuple(sorted(((r.n, t.n) for r, t in s.mem.items()))), tuple(sorted(s.ghost.items(), key=repr)))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            s0 = g[0]
            for s in g[1:]:
                meet_facts(s0, s)
            out.append(s0)
        if len(out) <= self.CAP:
            return out
        return self.join_by_sig(out, ("j",) + tuple(where))

    def join_by_sig(self, sts, where, cap=None):
        groups = {}
        for s in sts:
            groups.setdefault(self.sig(s), []).append(s)
        out = []
        if len(groups) > (cap or self.CAP):
            g2 = {}
            for s in sts:
                g2.setdefault(tuple(sorted(s.ghost.items(), key=repr)), []).append(s)
            groups = g2
        for i, g in enumerate(groups.values()):
            out.append(self.join(g, where + (i,)) if len(g) > 1 else g[0])
        return out

    def sig(self, s):
        out = []
        for r, v in s.mem.items():
            if r.op != "K":
                sg = vsig(v, 3)
                if sg:
                    out.append((r.n, sg))
        out.sort(key=repr)
        return (tuple(out), tuple(sorted(s.ghost.items(), key=repr)))

    # ---- joining ----------------------------------------------------------------------
    def join(self, sts, where):
        """join of several states (no loop)"""
        w = tuple(where)
        n = max(s.cnt.get(("join", w), 0) for s in sts)
        ctx = JoinCtx(("j", w, n))
        r = self.join_states(sts, ctx, None)
        r.cnt[("join", w)] = n + 1
        return r

    def join_states(self, sts, ctx, prev):
        """prev: previous loop-head state (its phis are reused) or None"""
        out = State()
        keys = [r for r in sts[0].mem if all(r in s.mem or r.op in ("D", "S") for s in sts[1:])]
        for s in sts[1:]:
            for r in s.mem:
                if r.op in ("D", "S") and r not in sts[0].mem and r not in keys:
                    keys.append(r)
        for r in keys:
            vals = [self.root_val(s, r) for s in sts]
            pv = prev.mem.get(r) if prev is not None else None
            out.mem[r] = self.jval(vals, ctx, pv)
        for s in sts:
            for k, n in s.cnt.items():
                if out.cnt.get(k, 0) < n:
                    out.cnt[k] = n
        out.ghost = dict(sts[0].ghost)
        for k in list(out.ghost):
            if any(s.ghost.get(k) != out.ghost[k] for s in sts[1:]):
                del out.ghost[k]
        self.gc(out)
        self.join_facts(sts, out, ctx)
        return out

    def gc(self, st):
        """drop heap roots, and memory behind pointers obtained on this path, that nothing refers to any more"""
        live = set()
        cand = {}
        for r in st.mem:
            if r.op == "D":
                fs = [x for x in subterms(r.a[0]) if x.op == "phi" or x.op == "sym" and len(x.a) == 3]
                if fs:
                    cand[r] = fs
        bysym = {}
        for r, fs in cand.items():
            for f in fs:
                bysym.setdefault(f, []).append(r)
        todo = [v for r, v in st.mem.items() if r.op != "H" and r not in cand]
        todo += [g for g in st.ghost.values() if isinstance(g, T)]
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op == "H" and x not in live:
                    live.add(x)
                    if x in st.mem:
                        todo.append(st.mem[x])
                elif x in bysym:
                    for r in bysym[x]:
                        if r not in live:
                            live.add(r)
                            todo.append(st.mem[r])
        for r in [r for r in st.mem if (r.op == "H" or r in cand) and r not in live]:
            del st.mem[r]

    def jval(self, vals, ctx, pv):
        v0 = vals[0]
        same = all(v is v0 for v in vals[1:])
        if same and (pv is None or pv is v0 or pv.op != "phi"):
            return v0
        if v0.op == "agg" and all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for v in vals):
            pf = pv.a[2] if pv is not None and pv.op == "agg" and pv.a[1] == v0.a[1] and len(pv.a[2]) == len(v0.a[2]) else [None] * len(v0.a[2])
            fs = tuple(self.jval([v.a[2][i] for v in vals], ctx, pf[i]) for i in range(len(v0.a[2])))
            r = mk("agg", v0.a[0], v0.a[1], fs)
            if r.ty is None:
                r.ty = v0.ty
            return r
        if v0.op == "iter" and all(v.op == "iter" and v.a[0] == v0.a[0] and len(v.a) == len(v0.a) for v in vals):
            pa = pv.a if pv is not None and pv.op == "iter" and pv.a[0] == v0.a[0] and len(pv.a) == len(v0.a) else [None] * len(v0.a)
            args = []
            for i in range(1, len(v0.a)):
                xs = [v.a[i] for v in vals]
                if all(isinstance(x, T) for x in xs):
                    args.append(self.jval(xs, ctx, pa[i] if isinstance(pa[i], T) else None))
                elif all(x == xs[0] for x in xs):
                    args.append(xs[0])
                else:
                    return self.note_phi(ctx.phi(tuple(vals), pv), vals)
            r = mk("iter", v0.a[0], *args)
            r.ty = v0.ty
            return r
        if v0.op == "vec" and all(v.op == "vec" and v.a[0] is v0.a[0] for v in vals):
            pl = pv.a[1] if pv is not None and pv.op == "vec" else None
            r = mk("vec", v0.a[0], self.jval([v.a[1] for v in vals], ctx, pl))
            r.ty = v0.ty
            return r
        if v0.op == "fat" and all(v.op == "fat" for v in vals):
            pa = pv.a if pv is not None and pv.op == "fat" else (None, None)
            return mk("fat", self.jval([v.a[0] for v in vals], ctx, pa[0]), self.jval([v.a[1] for v in vals], ctx, pa[1]))
        if v0.op == "ref" and all(v.op == "ref" and v.a[0] is v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals):
            path = []
            ok = True
            for i, e in enumerate(v0.a[1]):
                es = [v.a[1][i] for v in vals]
                if all(x == e for x in es):
                    path.append(e)
                elif e[0] in ("e", "o") and all(x[0] == e[0] for x in es):
                    pe = None
                    if pv is not None and pv.op == "ref" and pv.a[0] is v0.a[0] and len(pv.a[1]) == len(v0.a[1]) and pv.a[1][i][0] == e[0]:
                        pe = pv.a[1][i][1]
                    path.append((e[0], self.jval([x[1] for x in es], ctx, pe)))
                else:
                    ok = False
                    break
            if ok:
                return mk("ref", v0.a[0], tuple(path))
        p = self.note_phi(ctx.phi(tuple(vals), pv), vals)
        if self.COUNTS and any(v.op == "vec" for v in vals) and all(v.op in ("vec", "phi") for v in vals):
            ctx.lens[mk("len", p)] = tuple(v.a[1] if v.op == "vec" else mk("len", v) for v in vals)
        return p

    # ranges of floating-point values merged from several paths
    def franges(self):
        r = self.__dict__.get("_fr")
        if r is None:
            r = self._fr = {}
            self.frver = 0
        return r

    def frange(self, v, d=0):
        if isfloat(v):
            x = fval(v)
            return None if x != x else (x, x)
        if v.op == "phi":
            return self.franges().get(v)
        if d < 4 and v.op in ("fMul", "fAdd", "fSub", "fmin", "fmax"):
            a, b = self.frange(v.a[0], d + 1), self.frange(v.a[1], d + 1)
            if a is None or b is None:
                return None
            f = {"fMul": lambda x, y: x * y, "fAdd": lambda x, y: x + y, "fSub": lambda x, y: x - y, "fmin": min, "fmax": max}[v.op]
            xs = [f(x, y) for x in a for y in b]
            if any(x != x for x in xs):
                return None
            return min(xs), max(xs)
        return None

    def note_phi(self, p, vals):
        if all(isfloat(v) or v.op == "phi" for v in vals):
            fr = self.franges()
            rs = [self.frange(v) for v in vals if v is not p]
            old = fr.get(p, 0)
            new = None
            if all(r is not None for r in rs) and old is not None:
                if old:
                    rs.append(old)
                if rs:
                    new = min(r[0] for r in rs), max(r[1] for r in rs)
            if old != new:
                if old and new:
                    n = self.__dict__.setdefault("_frn", {})
                    n[p] = n.get(p, 0) + 1
                    if n[p] > 3:
                        new = None
                fr[p] = new
                self.frver += 1
        elif p in self.franges():
            if self._fr[p] is not None:
                self._fr[p] = None
                self.frver += 1
        return p

    def join_facts(self, sts, out, ctx):
        phis = [(p, vs) for (vs, p) in ctx.map.items()] + list(ctx.lens.items())
        inv = []      # per state: dict term->phi  (inverse images)
        for i, s in enumerate(sts):
            m = {}
            for p, vs in phis:
                m.setdefault(vs[i], p)
            inv.append(m)
        fwd = [{p: vs[i] for p, vs in phis} for i in range(len(sts))]
        intphis = [(p, vs) for p, vs in phis if self.is_int_term(p, vs)]
        cand = {}
        # (a) common facts
        s0 = sts[0]
        for L in s0.lins:
            cand[L] = True
        for L in self.KEEP:
            cand[L] = True
        # (b) facts rewritten through the joined values
        for i, s in enumerate(sts):
            sub = {}
            for p, vs in intphis:
                t = vs[i]
                d, c = lin(t)
                ats = [k for k, v in d.items() if abs(v) == 1 and k.op != "mul"]
                if len(d) >= 1 and ats:
                    k = ats[0]
                    if k in sub:
                        continue
                    # t = v*k + rest  =>  k = (p - rest)/v
                    v = d[k]
                    rest = ladd(t, lmul(k, cint(v)), -1)
                    sub[k] = lmul(ladd(p, rest, -1), cint(v))
            if sub:
                for L in s.lins:
                    if any(a in sub for a in atoms(L)) or any(a.op == "mul" and any(x in sub for x in a.a[0]) for a in atoms(L)):
                        cand[subst(L, sub)] = True
        # (c) bounds by the first value, and relations between joined values
        for p, vs in intphis[:14]:
            for t in {vs[0], vs[-1]}:
                cand[ladd(p, t, -1)] = True
                cand[ladd(t, p, -1)] = True
            for i, s in enumerate(sts[:4]):
                t = vs[i]
                if isint(t):
                    for q, ws in intphis[:14]:
                        if q is not p:
                            cand[ladd(p, q, -1)] = True
        for h in self.HINTS:
            for p, vs in intphis:
                cand[ladd(p, h, -1)] = True
        for h in self.LOWS:
            for p, vs in intphis:
                cand[ladd(h, p, -1)] = True
        for x in range(min(len(intphis), 10)):
            for y in range(x):
                p, vs = intphis[x]
                q, ws = intphis[y]
                for sg in (-1, 1):
                    d0 = ladd(vs[0], ws[0], sg)
                    if all(ladd(a, b, sg) is d0 for a, b in zip(vs, ws)):
                        e = ladd(ladd(p, q, sg), d0, -1)
                        cand[e] = True
                        cand[lmul(e, cint(-1))] = True
        for L in cand:
            if isint(L):
                continue
            ok = True
            for i, s in enumerate(sts):
                Li = subst(L, fwd[i]) if phis else L
                if not s.ent_le0(Li):
                    ok = False
                    break
            if ok:
                out.lins[L] = True
        best = {}
        for L in out.lins:
            d, c = lin(L)
            k = frozenset(d.items())
            if k not in best or best[k][0] < c:
                best[k] = (c, L)
        out.lins = {L: True for _, L in best.values()}
        # non-linear facts
        def keep(getter, target, extra_terms):
            c = {}
            for i, s in enumerate(sts[:3]):
                for t, val in getter(s).items():
                    c[(subst(t, inv[i]) if phis else t)] = val
                    c.setdefault(t, val)
            for t, val in c.items():
                if all(self.fact_holds(s, getter, subst(t, fwd[i]) if phis else t, val) for i, s in enumerate(sts)):
                    target[t] = val
        keep(lambda s: s.truth, out.truth, None)
        keep(lambda s: s.disc, out.disc, None)
        keep(lambda s: s.ndisc, out.ndisc, None)
        nes = {}
        for i, s in enumerate(sts[:3]):
            for L in s.nes:
                nes[L] = True
                if phis:
                    nes[subst(L, inv[i])] = True
        for L in nes:
            if not isint(L) and all(s.ent_ne(subst(L, fwd[i]) if phis else L, cint(0)) for i, s in enumerate(sts)):
                out.nes[L] = True
        # variants common to all joined values
        for p, vs in phis:
            vr = {s.variant(v) for s, v in zip(sts, vs)}
            if len(vr) == 1 and None not in vr and self.p.discr_vals(p.ty):
                out.disc[p] = vr.pop()

    def fact_holds(self, s, getter, t, val):
        g = getter(s)
        if t in g:
            return g[t] == val
        if isinstance(val, bool):
            if t.op == "c":
                return bool(t.a[1]) == val
            return s.known(t) == val
        if isinstance(val, int):
            return s.variant(t) == val
        if isinstance(val, frozenset):
            v = s.variant(t)
            return v is not None and v not in val
        return False

    def is_int_term(self, p, vs):
        if p.ty is not None:
            return self.p.is_int(p.ty)
        ip = self.__dict__.setdefault("_intphi", set())
        ok = all(v in ip or v.op in ("c", "lin", "len", "mul", "wrap", "div", "min", "max", "cnt") and (v.op != "c" or v.a[0] == "int") or (v.ty is not None and self.p.is_int(v.ty)) for v in vs)
        if ok:
            ip.add(p)
        return ok

    # ---- loops ------------------------------------------------------------------------
    def fix_mir_loop(self, fr, cfg, body, head, entry):
        def step(states):
            ex, back, rt = self.run_region(fr, cfg, body, head, states)
            if self.obs_loop_back is not None:
                for b in back:
                    self.obs_loop_back(b, fr, head)
            return back, [(("x", t), s) for t, ss in ex.items() for s in ss] + [(("r",), s) for s in rt]
        exits = self.fix_loop(entry, step, (fr.path, head))
        ex, rt = {}, []
        for tag, s in exits:
            if tag[0] == "r":
                rt.append(s)
            else:
                ex.setdefault(tag[1], []).append(s)
        return ex, rt

    ROUNDS = 16
    PEEL = 1
    EXACT = False      # short iterators are filtered, and short lists sorted, element by element

    def fix_loop(self, entry, step, where):
        """step(states)->(back states, [(tag,state)] exits); returns all exits"""
        exits = []
        cur = list(entry)
        for _ in range(self.PEEL):
            back, ex = step([s.copy() for s in cur])
            exits.extend(ex)
            cur = back
            if not cur:
                return exits
        last_exits = []
        # group by signature, then iterate each set of groups together to a fixpoint
        visit = max(s.cnt.get(("loop", where), 0) for s in cur)
        base = cur
        for s in base:
            s.cnt[("loop", where)] = visit + 1
        heads = {}      # sig -> (state, ctx)
        incoming = [(None, s) for s in base]
        rnd = 0
        coarse = False
        latest = []
        names = 0
        while True:
            rnd += 1
            if rnd > self.ROUNDS:
                raise Giveup(f"loop at {where} does not stabilise")
            groups = {k: [h[0]] for k, h in heads.items()}
            for s in (latest if heads else base + latest):
                k = self.sig(s) if not coarse else tuple(sorted(s.ghost.items(), key=repr))
                groups.setdefault(k, []).append(s)
            if len(groups) > 10 and not coarse:
                coarse = True
                heads = {}
                base = [h for g in groups.values() for h in g]
                latest = []
                continue
            new = {}
            changed = False
            self.franges()
            frv = self.frver
            for gi, (k, g) in enumerate(groups.items()):
                old = heads.get(k)
                if old is None:
                    names += 1
                nm = str(names) if old is None else old[2]
                ctx = JoinCtx(("l", where, visit, nm), start=old[1].n if old else 0)
                st = self.join_states(g, ctx, old[0] if old else None)
                st.cnt[("loop", where)] = visit + 1
                # shrink-only after a few rounds
                if old is not None and rnd > 4:
                    for d in ("lins", "nes", "truth", "disc", "ndisc"):
                        nd, od = getattr(st, d), getattr(old[0], d)
                        for x in [x for x in nd if x not in od]:
                            del nd[x]
                if old is None or not same_state(st, old[0]):
                    changed = True
                    if self.debug and rnd > 5 and old is not None:
                        self.show_diff(where, rnd, old[0], st)
                new[k] = (st, ctx, nm)
            if not changed and frv == self.frver and len(new) == len(heads):
                exits.extend(last_exits)
                return exits
            heads = new
            latest = []
            last_exits = []
            for k, (st, ctx, _) in heads.items():
                back, ex = step([st.copy()])
                latest.extend(back)
                last_exits.extend(ex)

    debug = False
    COUNTS = False      # the number of elements a filter lets through is a term
    KEEP = ()           # linear facts that hold at the entry and are never dropped for brevity
    LOWS = ()           # the same, from below
    HINTS = ()          # terms every joined integer is compared with

    def show_diff(self, where, rnd, a, b):
        print("DIFF", where, rnd, len(a.mem), len(b.mem))
        for r in set(a.mem) | set(b.mem):
            if a.mem.get(r) is not b.mem.get(r):
                print("   mem", r, "::", str(a.mem.get(r))[:300], "=>", str(b.mem.get(r))[:300])
        for d in ("lins", "nes", "truth", "disc", "ndisc"):
            x, y = getattr(a, d), getattr(b, d)
            for k in set(x) | set(y):
                if x.get(k) != y.get(k):
                    print("   ", d, k, x.get(k), y.get(k))
        if a.ghost != b.ghost:
            print("   ghost", a.ghost, b.ghost)

    # ---- blocks -----------------------------------------------------------------------
    def exec_block(self, fr, b, st):
        """-> [(target or 'ret', state)]"""
        self.steps += 1
        if self.steps > self.STEPS:
            raise Giveup("too many steps")
        if DEADLINE and not self.steps & 31 and time.time() > DEADLINE:
            raise Giveup("time budget of the check used up")
        blk = fr.fn["blocks"][b]
        self.pos = (fr.path, b)
        self.fr = fr
        st = st.copy()
        for s in blk["s"]:
            self.stmt(st, fr, s)
        t = blk["t"]
        self.span = blk["sp"]
        o = t[0]
        if o == "goto":
            return [(t[1], st)]
        if o == "switch":
            return self.switch(fr, st, t)
        if o == "ret":
            return [("ret", st)]
        if o in ("unreachable", "resume", "abort"):
            return []
        if o == "drop":
            if self.obs_drop is not None and t[4]:
                r = self.obs_drop(st, fr, t)
                if r is not None:
                    return [(t[2], s) for s in r]
            if self.DROPS and t[4]:
                root, path, _ = self.place(st, fr, t[1])[:3]
                return [(t[2], s) for s in self.drop_place(st, root, path, t[5], fr.path + ".d%d" % b)]
            return [(t[2], st)]
        if o == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = mknot(c)
            if not st.assume(c, True):
                return []
            return [(t[4], st)]
        if o == "call":
            return self.call_term(fr, st, t, b)
        return []

    # ------------------------------------------------------------------ drop glue (only with DROPS)
    DROPS = False

    def drops_local(self, ty, seen=()):
        """dropping a value of the type runs a Drop impl of the analysed crates (or a user callback's)"""
        memo = self.p.__dict__.setdefault("_drops", {})
        if ty in memo:
            return memo[ty]
        if ty in seen:
            return False
        t = self.p.ty(ty)
        r = False
        k = t["k"]
        if k in ("struct", "enum", "union"):
            if t.get("name") in ("core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit") or k == "union":
                r = False
            elif t.get("drop") and "imagequant" in t["drop"].split(" as ")[0].split("<")[1]:
                r = True
            elif t.get("name") in ("alloc::boxed::Box", "alloc::vec::Vec"):
                r = self.drops_local(t["args"][0], seen + (ty,)) or self.BOXES and t["name"].endswith("Box") and "imagequant" in self.p.ty(t["args"][0])["s"]
            else:
                r = any(self.drops_local(f[1], seen + (ty,)) for v in t["v"] for f in v["f"])
        elif k in ("tuple", "closure"):
            r = any(self.drops_local(f, seen + (ty,)) for f in t["f"])
        if not seen:
            memo[ty] = r
        return r

    BOXES = False       # record the release of boxes of library types in ghost state

    def drop_place(self, st, root, path, ty, fpath):
        """run the drop glue of the value at (root, path); -> states"""
        if not self.drops_local(ty):
            return [st]
        t = self.p.ty(ty)
        k = t["k"]
        path = tuple(path)
        if t.get("name") == "alloc::boxed::Box":
            v = self.rd(st, root, path)
            r, pth, _ = self.target(st, v)
            out = self.drop_place(st, r, pth, t["args"][0], fpath + "~b")
            if self.BOXES:
                for s in out:
                    s.ghost["boxes"] = s.ghost.get("boxes", ()) + (r,)     # its allocation is released
            return out
        if t.get("name") == "alloc::vec::Vec":
            raise Giveup("drop of a vector of droppable values")
        sts = [st]
        if t.get("drop") and t["drop"] in self.p.fns:
            sts = [s for s, _ in self.exec_fn(st, t["drop"], [self.mkref(st, root, path, None)], fpath + "D")]
        if k == "enum":
            out = []
            for s in sts:
                v = self.rd(s, root, path)
                if v.op == "agg":
                    alts = [(s, v.a[1])]
                elif s.disc.get(v) is not None:
                    alts = [(s, s.disc[v])]
                else:
                    alts = []
                    for i in range(len(t["v"])):
                        if i in s.ndisc.get(v, ()):
                            continue
                        if fpath.count("~b") > 1 and any(self.drops_local(f[1]) for f in t["v"][i]["f"]):
                            continue        # unknown values nested in unknown boxes: leaf assumed (bound)
                        s2 = s.copy()
                        s2.disc[v] = i
                        alts.append((s2, i))
                for s2, vi in alts:
                    ss = [s2]
                    for i, f in enumerate(t["v"][vi]["f"]):
                        ss = [s4 for s3 in ss for s4 in self.drop_place(s3, root, path + (("f", vi, i),), f[1], fpath + ".%d" % i)]
                    out += ss
            return out
        fs = [f[1] for f in t["v"][0]["f"]] if k == "struct" else t["f"]
        for i, f in enumerate(fs):
            sts = [s4 for s3 in sts for s4 in self.drop_place(s3, root, path + (("f", 0, i),), f, fpath + ".%d" % i)]
        return sts

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        ty = self.op_ty(fr, t[1])
        k = self.p.ty(ty)["k"] if ty is not None else "?"
        out = []
        if k == "bool":
            tgt = {int(x): b for x, b in t[2]}
            for val in (0, 1):
                b = tgt.get(val, t[3])
                if b is None:
                    continue
                kn = st.known(v)
                if kn is not None:
                    if kn == bool(val):
                        out.append((b, st))
                    continue
                s2 = st.copy()
                if s2.assume(v, bool(val)):
                    out.append((b, s2))
            return out
        rg = self.p.int_range(ty)
        vals = []
        for x, b in t[2]:
            x = int(x)
            if rg and rg[0] < 0 and x > rg[1]:
                x -= (rg[1] - rg[0] + 1)
            vals.append((x, b))
        if isint(v):
            for x, b in vals:
                if x == v.a[1]:
                    return [(b, st)]
            return [(t[3], st)] if t[3] is not None else []
        if v.op == "discr" and v.a[0].op == "cmp3":
            a, c = v.a[0].a
            conds = {-1: mkle0(ladd(ladd(a, c, -1), cint(1))), 0: mkeq0(ladd(a, c, -1)), 1: mkle0(ladd(ladd(c, a, -1), cint(1)))}
            for x in (-1, 0, 1):
                b = dict(vals).get(x, t[3])
                s2 = st.copy()
                if b is not None and s2.assume(conds[x], True):
                    out.append((b, s2))
            return out
        rest = st.copy()
        feasible = True
        for x, b in vals:
            s2 = st.copy()
            if s2.add_eq0(ladd(v, cint(x), -1)):
                out.append((b, s2))
            if feasible:
                feasible = rest.add_ne0(ladd(v, cint(x), -1))
        if feasible and t[3] is not None:
            if fr.fn["blocks"][t[3]]["t"][0] != "unreachable" or fr.fn["blocks"][t[3]]["s"]:
                out.append((t[3], rest))
        return out

    # ---- calls ------------------------------------------------------------------------
    def call_term(self, fr, st, t, b):
        _, fo, argos, dest, target, unwind, span, macro = t[:8]
        args = [self.operand(st, fr, a) for a in argos]
        argtys = [self.op_ty(fr, a) for a in argos]
        dty = self.place_ty(fr, dest)
        self.callspan = span
        saved = (self.pos, self.fr, self.span)
        if fo[0] == "k" and "fn" in fo[1]:
            res = self.call(st, fr, fo[1]["fn"], args, argtys, dty, fr.path + ".%d" % b)
        else:
            f = self.operand(st, fr, fo)
            res = self.call_value(st, f, args, argtys, dty, fr.path + ".%d" % b)
        self.pos, self.fr, self.span = saved
        if target is None:
            return []
        out = []
        for s, v in res:
            if v is None:
                continue
            self.write(s, fr, dest, v)
            out.append((target, s))
        return out

    def call_value(self, st, f, args, argtys, dty, fpath):
        """call a callable value (fn item, closure, fn pointer) with untupled args"""
        while f.op == "ref":
            f2 = self.rd(st, f.a[0], f.a[1])
            if f2.op in ("agg", "fn", "ref") and (f2.op != "agg" or f2.a[0].startswith("closure:")):
                if f2.op == "agg":
                    return self.call_closure(st, f2, f, args, dty, fpath)
                f = f2
                continue
            f = f2
            break
        if f.op == "agg" and f.a[0].startswith("closure:"):
            return self.call_closure(st, f, None, args, dty, fpath)
        if f.op == "fn" and f.a[0] in self.callees:
            return self.call(st, self.fr, self.callees[f.a[0]], args, argtys, dty, fpath)
        return self.opaque_call(st, "fnptr", {"p": "fnptr", "k": "fnptr"}, [f] + args, [None] + list(argtys or [None] * len(args)), dty)

    def call_closure(self, st, c, ref, args, dty, fpath):
        key = c.a[0][len("closure:"):]
        fn = self.p.fns.get(key)
        if fn is None:
            return self.opaque_call(st, "closure", {"p": key, "k": "closure"}, [c] + args, [None] * (1 + len(args)), dty)
        if self.obs_call is not None:
            self.obs_call(st, self.fr, key, {"k": "closure", "key": key, "p": key}, [c] + args, self.callspan if hasattr(self, "callspan") else "")
        if self.is_opaque(norm(fn["path"]), key):
            return self.opaque_call(st, norm(fn["path"]), {"p": key, "k": "closure", "key": key}, [c] + args, [None] * (1 + len(args)), dty)
        if self.stack.count(key) > 0 or len(self.stack) > self.MAXDEPTH:
            return self.opaque_call(st, "rec", {"p": key, "k": "closure"}, [c] + args, [None] * (1 + len(args)), dty)
        t0 = self.p.ty(fn["locals"][1])
        if t0["k"] in ("ref", "ptr"):
            env = ref
            if env is None:
                root = self.alloc(st, c, t0["e"], "env")
                env = mk("ref", root, ())
        else:
            env = c
        return self.exec_fn(st, key, [env] + args, fpath)

    def is_opaque(self, name, key):
        if callable(self.opaque):
            return self.opaque(name, key)
        return name in self.opaque

    def call(self, st, fr, ce, args, argtys, dty, fpath):
        self.ncalls += 1
        k = ce["k"]
        name = norm(ce.get("rp") or ce["p"])
        p = norm(ce["p"])
        key = ce.get("key")
        if self.obs_call is not None:
            self.obs_call(st, fr, name, ce, args, getattr(self, "callspan", ""))
        for nm in (name, p):
            h = self.hooks.get(nm)
            if h is not None:
                r = h(self, st, ce, args, argtys, dty, fpath)
                if r is not NotImplemented:
                    return r
        if self.is_opaque(name, key):
            return self.opaque_call(st, name, ce, args, argtys, dty)
        if k in ("closure", "once"):
            c = args[0]
            cargs = list(args[1:])
            if len(cargs) == 1:
                tup = cargs[0]
                if tup.op == "agg" and tup.a[0] == "()":
                    cargs = list(tup.a[2])
                else:
                    n = self.p.fns[key]["n"] - 1 if key in self.p.fns else 1
                    cargs = [self.proj(st, tup, ("f", 0, i)) for i in range(n)]
            return self.call_value(st, c, cargs, [None] * len(cargs), dty, fpath) if c.op in ("ref", "agg") else self.closure_by_key(st, key, c, cargs, dty, fpath)
        if k == "fnptrshim" or (p.startswith("core::ops::function::Fn") and p.rsplit("::", 1)[-1] in ("call", "call_mut", "call_once")):
            tup = args[1] if len(args) > 1 else UNIT
            cargs = list(tup.a[2]) if tup.op == "agg" else [tup]
            if k == "virtual" or k == "unres":
                f = args[0]
                tgt = self.deref(st, f) if f.op in ("ref", "fat") else f
                if tgt.op == "agg" and tgt.a[0].startswith("closure:"):
                    return self.call_closure(st, tgt, f if f.op == "ref" else None, cargs, dty, fpath)
                return self.opaque_call(st, "dyn:" + p.rsplit("::", 1)[-1], ce, [f] + cargs, [argtys[0]] + [None] * len(cargs), dty)
            if k == "fnptrshim" and "inner" in ce:
                return self.call(st, fr, ce["inner"], cargs, [None] * len(cargs), dty, fpath)
        for nm in (name, p):
            h = self.models.get(nm)
            if h is not None:
                r = h(self, st, ce, args, argtys, dty, fpath)
                if r is not NotImplemented:
                    return r
        if k == "dropglue" and self.DROPS and args and ce.get("g"):
            r, pth, _ = self.target(st, args[0])
            return [(s, UNIT) for s in self.drop_place(st, r, pth, ce["g"][0], fpath)]
        if ce.get("intr"):
            r = self.mod.intrinsic(self, st, ce, args, argtys, dty, fpath)
            if r is not NotImplemented:
                return r
        if k == "cloneshim":
            return [(st, self.deref(st, args[0]))]
        fn = self.p.fns.get(key)
        if fn is not None and k == "item" and len(self.stack) <= self.MAXDEPTH and key not in self.stack:
            a = args
            if len(a) != fn["n"]:
                return self.opaque_call(st, name, ce, args, argtys, dty)
            return self.exec_fn(st, key, a, fpath)
        return self.opaque_call(st, name, ce, args, argtys, dty)

    def closure_by_key(self, st, key, c, cargs, dty, fpath):
        fn = self.p.fns.get(key)
        if fn is None or key in self.stack:
            return self.opaque_call(st, "closure", {"p": key, "k": "closure", "key": key}, [c] + cargs, [None] * (1 + len(cargs)), dty)
        return self.exec_fn(st, key, [c] + cargs, fpath)

    def opaque_call(self, st, name, ce, args, argtys, dty):
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        st = st.copy()
        h = self.hooks.get("*opaque")
        if h is not None:
            r = h(self, st, name, ce, args, argtys, dty)
            if r is not NotImplemented:
                return r
        return self.opaque_default(st, name, ce, args, argtys, dty)

    def opaque_default(self, st, name, ce, args, argtys, dty):
        scal = all(self.scalar(a, t) for a, t in zip(args, argtys))
        if scal and dty is not None and self.p.ty(dty)["k"] in ("int", "uint", "float", "bool", "char") and not name.startswith("fnptr") and not name.startswith("dyn"):
            r = mk("app", name, tuple(args))
        else:
            for a, t in zip(args, argtys):
                self.havoc(st, a, t)
            r = self.fresh(st, "call:" + name, dty)
        if r.ty is None:
            r.ty = dty
        return [(st, r)]

    def scalar(self, a, t):
        if a.op == "c":
            return True
        if t is not None:
            return self.p.ty(t)["k"] in ("int", "uint", "float", "bool", "char")
        return a.ty is not None and self.p.ty(a.ty)["k"] in ("int", "uint", "float", "bool", "char")

    def havoc(self, st, a, ty, depth=0):
        """forget what is reachable through mutable pointers in value a"""
        if depth > 4:
            return
        t = self.p.ty(ty) if ty is not None else None
        if t is not None and t["k"] == "ref" and not t["mut"]:
            return
        if a.op in ("ref", "fat", "poff"):
            root, path, _ = self.target(st, a)
            if root.op in ("K", "S"):
                return
            old = self.rd(st, root, path)
            if path and path[-1][0] == "o":
                path = path[:-1]
                old = self.rd(st, root, path)
            new = self.fresh(st, "havoc", old.ty if old.ty is not None else (t.get("e") if t else None))
            self.write_obs(st, root, path, new)
            if root.op != "L" or True:
                self.wr(st, root, path, new)
            if old.op == "agg":
                for x in old.a[2]:
                    if x.op in ("ref", "fat", "agg"):
                        self.havoc(st, x, x.ty, depth + 1)
        elif a.op == "agg":
            fts = self.p.fields(a.ty, a.a[1]) if a.ty is not None and a.a[0] not in ("union", "array") else None
            for i, x in enumerate(a.a[2]):
                if x.op in ("ref", "fat", "agg", "iter"):
                    self.havoc(st, x, fts[i] if fts and i < len(fts) else x.ty, depth + 1)
        elif a.op == "iter":
            for x in a.a[1:]:
                if isinstance(x, T) and x.op in ("ref", "fat", "agg", "iter"):
                    self.havoc(st, x, x.ty, depth + 1)
        elif t is not None and (t["k"] == "ref" and t["mut"] or t["k"] == "ptr"):
            root = mk("D", a)
            new = self.fresh(st, "havoc", t["e"])
            self.write_obs(st, root, (), new)
            st.mem[root] = new


class JoinCtx:
    def __init__(self, name, start=0):
        self.name = name
        self.n = start
        self.map = {}
        self.lens = {}      # lengths of joined lists
        self.used = set()

    def phi(self, vals, pv):
        p = self.map.get(vals)
        if p is not None:
            return p
        if pv is not None and pv.op == "phi" and pv.a[0] == self.name and pv not in self.used:
            p = pv
        else:
            p = mk("phi", self.name, self.n)
            self.n += 1
        self.used.add(p)
        if p.ty is None:
            for v in vals:
                if v.ty is not None:
                    p.ty = v.ty
                    break
        self.map[vals] = p
        return p


def meet_facts(s0, s):
    more = [x for x in s.lins if x not in s0.lins and s0.ent_le0(x)]
    for d in ("lins", "nes"):
        a, b = getattr(s0, d), getattr(s, d)
        for x in [x for x in a if x not in b]:
            if d == "lins" and s.ent_le0(x):
                continue
            del a[x]
    for x in more:
        s0.lins[x] = True
    for d in ("truth", "disc", "ndisc"):
        a, b = getattr(s0, d), getattr(s, d)
        for x in [x for x in a if b.get(x) != a[x]]:
            del a[x]
    for k, n in s.cnt.items():
        if s0.cnt.get(k, 0) < n:
            s0.cnt[k] = n


def same_state(a, b):
    if len(a.mem) != len(b.mem) or any(b.mem.get(k) is not v for k, v in a.mem.items()):
        return False
    return set(a.lins) == set(b.lins) and a.truth == b.truth and a.disc == b.disc and a.ndisc == b.ndisc and set(a.nes) == set(b.nes) and a.ghost == b.ghost


SIGFLOAT = False
DEADLINE = 0


def vsig(v, d):
    """shape of a value: enum variants and boolean constants"""
    if v.op == "agg":
        if d == 0:
            return None
        sub = tuple((i, x) for i, x in ((i, vsig(f, d - 1)) for i, f in enumerate(v.a[2][:12])) if x)
        if v.a[1] or sub or v.a[0] in ("core::option::Option", "core::result::Result"):
            return (v.a[1], sub)
        return None
    if v.op == "c" and v.a[0] == "bool":
        return ("b", v.a[1])
    if SIGFLOAT and isfloat(v):
        return ("fl", fval(v))
    if v.op == "iter":
        return ("it", v.a[0]) + tuple(vsig(x, d - 1) if isinstance(x, T) and d else None for x in v.a[1:])
    return None
