"""Abstract states: memory of value terms + facts (linear inequalities, orderings of floats, variants)."""
from terms import *

INT_RANGE = lambda ty: None   # installed by engine.Prog
NVARIANTS = lambda ty: None   # -> list of discriminant values


def atom_range(t):
    o = t.op
    if o == "len":
        return 0, 2 ** 63
    if o == "b2i":
        return 0, 1
    if o == "wrap":
        return t.a[0][0], t.a[0][1]
    if o == "discr":
        v = NVARIANTS(t.a[0].ty) if t.a[0].ty is not None else None
        if v:
            return min(v), max(v)
        return None
    if t.ty is not None:
        return INT_RANGE(t.ty)
    return None


def nonneg(t):
    if t.op == "mul":
        return all(nonneg(x) for x in t.a[0])
    r = atom_range(t)
    return r is not None and r[0] >= 0


def atom_facts(t, out, cons, st):
    """append the constraints implied by the shape of atom t; out: new terms to look at"""
    r = atom_range(t)
    if r:
        cons.append(({t: -1}, r[0]))
        cons.append(({t: 1}, -r[1]))
    o = t.op
    if o == "mul":
        if nonneg(t):
            cons.append(({t: -1}, 0))
        # products with a factor known >= 1 dominate the other factors
        if len(t.a[0]) == 2:
            x, y = t.a[0]
            if nonneg(x) and nonneg(y):
                for f, g in ((x, y), (y, x)):
                    if st is not None and (st.quick_ge1(f)):
                        cons.append(({g: 1, t: -1}, 0))
                        out.append(g)
    elif o in ("min", "max"):
        s = 1 if o == "min" else -1
        for x in t.a:
            d, c = lin(x)
            d = {k: -s * v for k, v in d.items()}
            d[t] = d.get(t, 0) + s
            cons.append((d, -s * c))
            out.extend(atoms(x))
    elif o == "div":
        a, b = t.a
        if isint(b) and b.a[1] > 0 and all(nonneg(x) for x in atoms(a)) or (isint(b) and b.a[1] > 0 and st is not None and st.nonneg_term(a)):
            k = b.a[1]
            d, c = lin(a)
            d1 = {x: -v for x, v in d.items()}
            d1[t] = d1.get(t, 0) + k
            cons.append((d1, -c))               # k*q - a <= 0
            d2 = dict(d)
            d2[t] = d2.get(t, 0) - k
            cons.append((d2, c - (k - 1)))      # a - k*q - (k-1) <= 0
            out.extend(atoms(a))
        elif nonneg_all(a):
            # q <= a for unsigned division
            d, c = lin(a)
            d1 = {x: -v for x, v in d.items()}
            d1[t] = d1.get(t, 0) + 1
            cons.append((d1, -c))
            cons.append(({t: -1}, 0))
            # b*q <= a
            m = lmul(b, t)
            dm, cm = lin(m)
            for x, v in d.items():
                dm[x] = dm.get(x, 0) - v
            cons.append((dm, cm - c))
            out.extend(atoms(a))
            out.extend(atoms(m))
    elif o == "rem":
        a, b = t.a
        if nonneg_all(a):
            cons.append(({t: -1}, 0))
            d, c = lin(b)
            d1 = {x: -v for x, v in d.items()}
            d1[t] = d1.get(t, 0) + 1
            cons.append((d1, -c + 1))           # r <= b-1
            d, c = lin(a)
            d1 = {x: -v for x, v in d.items()}
            d1[t] = d1.get(t, 0) + 1
            cons.append((d1, -c))               # r <= a
            out.extend(atoms(a))
            out.extend(atoms(b))
    elif o == "satsub":
        a, b = t.a
        cons.append(({t: -1}, 0))
        d = lin(ladd(ladd(a, b, -1), t, -1))
        cons.append(d)                          # a-b-t <= 0
        d = lin(ladd(t, a, -1))
        cons.append(d)                          # t <= a
        out.extend(atoms(a))
        out.extend(atoms(b))
    elif o == "band":
        for x in t.a:
            if isint(x) and x.a[1] >= 0:
                cons.append(({t: -1}, 0))
                cons.append(({t: 1}, -x.a[1]))


def nonneg_all(a):
    d, c = lin(a)
    return c >= 0 and all(v > 0 and nonneg(k) for k, v in d.items())


class State:
    __slots__ = ("mem", "lins", "nes", "truth", "disc", "ndisc", "ghost", "cnt")

    def __init__(self):
        self.mem = {}
        self.lins = {}       # term -> True   (ordered set)
        self.nes = {}
        self.truth = {}
        self.disc = {}
        self.ndisc = {}
        self.ghost = {}
        self.cnt = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.lins = dict(self.lins)
        s.nes = dict(self.nes)
        s.truth = dict(self.truth)
        s.disc = dict(self.disc)
        s.ndisc = dict(self.ndisc)
        s.ghost = dict(self.ghost)
        s.cnt = dict(self.cnt)
        return s

    # -- numeric -------------------------------------------------------------------
    def quick_ge1(self, t):
        # t >= 1 known directly?
        if ladd(cint(1), t, -1) in self.lins:
            return True
        r = atom_range(t)
        if r and r[0] >= 1:
            return True
        for L in self.lins:
            d, c = lin(L)
            if len(d) == 1 and d.get(t) == -1 and c >= 1:
                return True
        return t in self.nes and nonneg(t)

    def nonneg_term(self, a):
        if nonneg_all(a):
            return True
        d, c = lin(a)
        return self.le0_infeasible_with(ladd(a, cint(1)))

    def _context(self, goal_terms, most):
        """facts about the atoms of the goal and of the facts about those, nearest first -> (facts, complete)"""
        todo = []
        for g in goal_terms:
            todo.extend(atoms(g))
        seen = set()
        cons = []
        byatom = {}
        for L in self.lins:
            for a in atoms(L):
                byatom.setdefault(a, []).append(L)
        used = set()
        i = 0
        while i < len(todo):
            x = todo[i]
            i += 1
            if x in seen:
                continue
            seen.add(x)
            extra = []
            atom_facts(x, extra, cons, None if x.op == "div" else self)
            todo.extend(extra)
            for L in byatom.get(x, ()):
                if L not in used:
                    used.add(L)
                    cons.append(lin(L))
                    todo.extend(atoms(L))
            if len(seen) > most:
                return cons, False
        return cons, True

    def le0_infeasible_with(self, *Ls):
        """facts and all(L <= 0) have no solution"""
        for L in Ls:
            if isint(L) and L.a[1] > 0:
                return True
        Ls = [L for L in Ls if not isint(L)]
        if not Ls:
            return False
        for most in (6, 12, 24, 60):
            cons, full = self._context(Ls, most)
            for L in Ls:
                cons.append(lin(L))
            if infeasible(cons):
                return True
            if full:
                break
        return False

    def ent_le0(self, L):
        """facts entail L <= 0"""
        if isint(L):
            return L.a[1] <= 0
        if L in self.lins:
            return True
        if self.le0_infeasible_with(ladd(cint(1), L, -1)):
            return True
        for t, k in lin(L)[0].items():
            if t.op == "satsub" and k > 0:
                return all(self.ent_le0(ladd(L, lmul(ladd(x, t, -1), cint(k)))) for x in (cint(0), ladd(t.a[0], t.a[1], -1)))
            if t.op == ("min" if k < 0 else "max"):
                return all(self.ent_le0(ladd(L, lmul(ladd(x, t, -1), cint(k)))) for x in t.a)
        return False

    def ent_le(self, a, b):
        return self.ent_le0(ladd(a, b, -1))

    def ent_lt(self, a, b):
        return self.ent_le0(ladd(ladd(a, b, -1), cint(1)))

    def ent_eq(self, a, b):
        L = ladd(a, b, -1)
        if isint(L):
            return L.a[1] == 0
        return self.ent_le0(L) and self.ent_le0(lmul(L, cint(-1)))

    def ent_ne(self, a, b):
        L = ladd(a, b, -1)
        if isint(L):
            return L.a[1] != 0
        if L in self.nes or lmul(L, cint(-1)) in self.nes:
            return True
        return self.le0_infeasible_with(L, lmul(L, cint(-1)))

    def add_le0(self, L):
        if isint(L):
            return L.a[1] <= 0
        if L in self.lins:
            return True
        d, c = lin(L)
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == "discr":
                # prune variants
                vals = NVARIANTS(k.a[0].ty)
                if vals:
                    ok = [i for i, x in enumerate(vals) if v * x + c <= 0]
                    if not self.restrict_variants(k.a[0], ok):
                        return False
        if self.le0_infeasible_with(L):
            return False
        self.lins[L] = True
        # le0(L) and le0(-L) known with L in nes -> tighten
        for N in list(self.nes):
            d1 = ladd(N, L, -1)
            if isint(d1) and d1.a[1] == 0:      # L<=0, L!=0 -> L<=-1
                self.lins[ladd(L, cint(1))] = True
            else:
                d2 = ladd(N, L, 1)
                if isint(d2) and d2.a[1] == 0:
                    self.lins[ladd(L, cint(1))] = True
        return True

    def add_eq0(self, L):
        if isint(L):
            return L.a[1] == 0
        d, c = lin(L)
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == "discr" and abs(v) == 1:
                val = -c * v
                vals = NVARIANTS(k.a[0].ty)
                if vals is not None:
                    if val not in vals:
                        return False
                    return self.restrict_variants(k.a[0], [vals.index(val)])
            if k.op == "b2i" and abs(v) == 1:
                val = -c * v
                return self.assume(k.a[0], bool(val)) if val in (0, 1) else False
        if L in self.nes or lmul(L, cint(-1)) in self.nes:
            return False
        return self.add_le0(L) and self.add_le0(lmul(L, cint(-1)))

    def add_ne0(self, L):
        if isint(L):
            return L.a[1] != 0
        d, c = lin(L)
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == "discr" and abs(v) == 1:
                val = -c * v
                vals = NVARIANTS(k.a[0].ty)
                if vals is not None:
                    return self.restrict_variants(k.a[0], [i for i, x in enumerate(vals) if x != val])
            if k.op == "b2i" and abs(v) == 1:
                val = -c * v
                if val in (0, 1):
                    return self.assume(k.a[0], not bool(val))
                return True
        if self.ent_le0(L):
            # L <= 0 and L != 0
            if not self.add_le0(ladd(L, cint(1))):
                return False
        elif self.ent_le0(lmul(L, cint(-1))):
            if not self.add_le0(ladd(lmul(L, cint(-1)), cint(1))):
                return False
        self.nes[L] = True
        return True

    # -- variants -------------------------------------------------------------------
    def variant(self, t):
        if t.op == "agg":
            return t.a[1]
        return self.disc.get(t)

    def restrict_variants(self, t, allowed):
        if t.op == "agg":
            return t.a[1] in allowed
        cur = self.disc.get(t)
        if cur is not None:
            return cur in allowed
        vals = NVARIANTS(t.ty)
        n = len(vals) if vals else 0
        ex = set(self.ndisc.get(t, ()))
        ok = [v for v in allowed if v not in ex]
        if not ok:
            return False
        if len(ok) == 1:
            self.disc[t] = ok[0]
        else:
            self.ndisc[t] = frozenset(set(range(n)) - set(ok)) | frozenset(ex)
        return True

    # -- conditions -----------------------------------------------------------------
    def assume(self, c, val):
        """add fact c == val; returns False if that is impossible"""
        o = c.op
        if o == "c":
            return bool(c.a[1]) == val
        if o == "not":
            return self.assume(c.a[0], not val)
        if o == "le0":
            return self.add_le0(c.a[0]) if val else self.add_le0(ladd(cint(1), c.a[0], -1))
        if o == "eq0":
            return self.add_eq0(c.a[0]) if val else self.add_ne0(c.a[0])
        if o == "and":
            if val:
                return self.assume(c.a[0], True) and self.assume(c.a[1], True)
            k0 = self.known(c.a[0])
            if k0 is True:
                return self.assume(c.a[1], False)
            k1 = self.known(c.a[1])
            if k1 is True:
                return self.assume(c.a[0], False)
            if k0 is False or k1 is False:
                return True
        if o == "or":
            if not val:
                return self.assume(c.a[0], False) and self.assume(c.a[1], False)
            k0 = self.known(c.a[0])
            if k0 is False:
                return self.assume(c.a[1], True)
            k1 = self.known(c.a[1])
            if k1 is False:
                return self.assume(c.a[0], True)
            if k0 is True or k1 is True:
                return True
        k = self.known(c)
        if k is not None:
            return k == val
        self.truth[c] = val
        if o == "fcmp":
            op, a, b = c.a
            if val:
                if op == "Lt":
                    self.truth.setdefault(mk("fcmp", "Le", a, b), True)
                    self.truth.setdefault(mk("fcmp", "Lt", b, a), False)
                    self.truth.setdefault(mk("fcmp", "Le", b, a), False)
                    self.truth.setdefault(feq(a, b), False)
                elif op == "Le":
                    self.truth.setdefault(mk("fcmp", "Lt", b, a), False)
                elif op == "Eq":
                    self.truth.setdefault(mk("fcmp", "Le", a, b), True)
                    self.truth.setdefault(mk("fcmp", "Le", b, a), True)
                    self.truth.setdefault(mk("fcmp", "Lt", a, b), False)
                    self.truth.setdefault(mk("fcmp", "Lt", b, a), False)
            else:
                if op == "Le":
                    self.truth.setdefault(mk("fcmp", "Lt", a, b), False)
                    self.truth.setdefault(feq(a, b), False)
                elif op == "Lt" :
                    if self.truth.get(mk("fcmp", "Le", a, b)) is True:
                        self.truth.setdefault(feq(a, b), True)
        return True

    def known(self, c):
        o = c.op
        if o == "c":
            return bool(c.a[1])
        if o == "not":
            k = self.known(c.a[0])
            return None if k is None else not k
        t = self.truth.get(c)
        if t is not None:
            return t
        if o == "le0":
            if self.ent_le0(c.a[0]):
                return True
            if self.ent_le0(ladd(cint(1), c.a[0], -1)):
                return False
            return None
        if o == "eq0":
            L = c.a[0]
            d, k = lin(L)
            if len(d) == 1:
                (at, v), = d.items()
                if at.op == "discr":
                    var = self.variant(at.a[0])
                    vals = NVARIANTS(at.a[0].ty)
                    if vals:
                        if var is not None:
                            return v * vals[var] + k == 0
                        ex = self.ndisc.get(at.a[0], ())
                        if all(i in ex or v * x + k != 0 for i, x in enumerate(vals)):
                            return False
            if self.ent_ne(L, cint(0)):
                return False
            if self.ent_eq(L, cint(0)):
                return True
            return None
        if o == "and":
            a, b = self.known(c.a[0]), self.known(c.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if o == "or":
            a, b = self.known(c.a[0]), self.known(c.a[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        return None


def feq(a, b):
    if a.n > b.n:
        a, b = b, a
    return mk("fcmp", "Eq", a, b)


def mknot(c):
    if c.op == "c":
        return cbool(not c.a[1])
    if c.op == "not":
        return c.a[0]
    if c.op == "le0":
        return mkle0(ladd(cint(1), c.a[0], -1))
    return mk("not", c)


def mkle0(L):
    if isint(L):
        return cbool(L.a[1] <= 0)
    return mk("le0", L)


def mkeq0(L):
    if isint(L):
        return cbool(L.a[1] == 0)
    d, c = lin(L)
    k0 = min(d, key=lambda k: k.n)
    if d[k0] < 0:
        L = lmul(L, cint(-1))
    return mk("eq0", L)
