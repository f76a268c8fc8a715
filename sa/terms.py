"""Hash-consed value terms and the linear/ordering fact domain used by the abstract interpreter."""
import struct
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ("op", "a", "ty", "_atoms", "n")
    cnt = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = None
        t._atoms = None
        T.cnt += 1
        t.n = T.cnt
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 6:
        return "…"
    o = t.op
    if o == "c":
        if t.a[0] in ("f32", "f64"):
            return repr(fval(t))
        return str(t.a[1])
    if o == "lin":
        s = []
        for at, c in t.a[0]:
            s.append((show(at, d + 1) if c == 1 else f"{c}*{show(at, d + 1)}"))
        if t.a[1]:
            s.append(str(t.a[1]))
        return "(" + " + ".join(s) + ")"
    if o == "agg":
        return f"{t.a[0]}#{t.a[1]}{{{', '.join(show(x, d + 1) for x in t.a[2])}}}"
    if o == "fld":
        return f"{show(t.a[0], d + 1)}.{'' if not t.a[1] else 'v%s.' % t.a[1]}{t.a[2]}"
    if o == "ref":
        return f"&{show(t.a[0], d + 1)}{show(t.a[1], d + 1) if t.a[1] else ''}"
    if o == "sym":
        return str(t.a[0]) + (f"'{t.a[-1]}" if len(t.a) > 1 else "")
    return f"{o}({', '.join(show(x, d + 1) for x in t.a)})"


# ---- constants ------------------------------------------------------------------------
def cint(v):
    return mk("c", "int", int(v))


def cbool(b):
    return TRUE if b else FALSE


TRUE = mk("c", "bool", 1)
FALSE = mk("c", "bool", 0)


def f2b(x, bits):
    try:
        return struct.unpack("<I" if bits == 32 else "<Q", struct.pack("<f" if bits == 32 else "<d", x))[0]
    except OverflowError:
        return (0x7F800000 if bits == 32 else 0x7FF0000000000000) | ((1 << (bits - 1)) if x < 0 else 0)


def b2f(b, bits):
    return struct.unpack("<f" if bits == 32 else "<d", struct.pack("<I" if bits == 32 else "<Q", b))[0]


def cfloat(x, bits):
    return mk("c", "f%d" % bits, f2b(x, bits))


def fval(t):
    return b2f(t.a[1], int(t.a[0][1:]))


def isc(t):
    return t.op == "c"


def isint(t):
    return t.op == "c" and t.a[0] == "int"


def isfloat(t):
    return t.op == "c" and t.a[0] in ("f32", "f64")


UNIT = mk("agg", "()", 0, ())


# ---- linear forms ----------------------------------------------------------------------
def lin(t):
    """-> (dict atom->coef, const)"""
    if t.op == "c":
        return {}, t.a[1]
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return cint(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", tuple(sorted(d.items(), key=lambda kv: kv[0].n)), c)


def ladd(a, b, s=1):
    d1, c1 = lin(a)
    d2, c2 = lin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + s * v
    return mklin(d1, c1 + s * c2)


def mono(x, y):
    fs = []
    for t in (x, y):
        if t.op == "mul":
            fs.extend(t.a[0])
        else:
            fs.append(t)
    return mk("mul", tuple(sorted(fs, key=lambda q: q.n)))


def lmul(a, b):
    d1, c1 = lin(a)
    d2, c2 = lin(b)
    d = {}
    for k, v in d1.items():
        if c2:
            d[k] = d.get(k, 0) + v * c2
        for k2, v2 in d2.items():
            m = mono(k, k2)
            d[m] = d.get(m, 0) + v * v2
    for k2, v2 in d2.items():
        if c1:
            d[k2] = d.get(k2, 0) + v2 * c1
    return mklin(d, c1 * c2)


def atoms(t):
    """set of linear atoms of an int term"""
    if t.op == "lin":
        return [k for k, _ in t.a[0]]
    if t.op == "c":
        return []
    return [t]


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in acc:
            continue
        acc.add(x)
        st.extend(x.a)
    return acc


def subst(t, m, memo=None):
    """replace subterms according to dict m (bottom-up, rebuilding linear forms)"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "sym", "phi"):
        return t
    if t.op == "lin":
        acc = cint(t.a[1])
        for k, v in t.a[0]:
            acc = ladd(acc, lmul(subst(k, m, memo), cint(v)))
        r = acc
    elif t.op == "mul":
        acc = cint(1)
        for k in t.a[0]:
            acc = lmul(acc, subst(k, m, memo))
        r = acc
    else:
        r = mk(t.op, *[subst(x, m, memo) for x in t.a])
        if r.ty is None:
            r.ty = t.ty
    memo[t] = r
    return r


# ---- inequality reasoning --------------------------------------------------------------
# a constraint is a term L meaning L <= 0 (L is linear over integers)
def _norm(d, c):
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)  # ceil division: sum + c/g <= 0 with integer sum
    return d, c


def infeasible(cons, limit=260):
    """Fourier-Motzkin over the (integer-tightened) rationals; True = definitely no solution.
    cons: list of (dict, const) meaning sum + const <= 0."""
    work = []
    seen = set()

    def push(lst, d, c):
        d, c = _norm(d, c)
        if not d:
            return c > 0
        k = (tuple(sorted((x.n, v) for x, v in d.items())))
        if (k, c) in seen:
            return False
        seen.add((k, c))
        lst.append((d, c))
        return False

    for d, c in cons:
        if push(work, dict(d), c):
            return True
    while work:
        # choose the variable with the fewest products
        pos, neg = {}, {}
        for d, c in work:
            for k, v in d.items():
                (pos if v > 0 else neg).setdefault(k, []).append((d, c))
        vs = set(pos) | set(neg)
        if not vs:
            return False
        best = min(vs, key=lambda k: (len(pos.get(k, ())) * len(neg.get(k, ())) - len(pos.get(k, ())) - len(neg.get(k, ())), k.n))
        p, q = pos.get(best, []), neg.get(best, [])
        rest = [x for x in work if best not in x[0]]
        if len(p) * len(q) + len(rest) > limit:
            return False
        for d1, c1 in p:
            for d2, c2 in q:
                a, b = d1[best], -d2[best]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * b
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * a
                d = {k: v for k, v in d.items() if v}
                if push(rest, d, c1 * b + c2 * a):
                    return True
        work = rest
    return False
