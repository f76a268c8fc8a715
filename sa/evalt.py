"""Constant evaluation of value terms and path conditions over a valuation of symbolic parameters.
Used to compare the regions induced by a function's path conditions with a specified region."""
import math
from terms import *
from state import *

UNK = None


def f32r(x):
    return fval(cfloat(x, 32))


def ev(t, env, memo=None):
    """-> int | float | bool | None(unknown)"""
    if memo is None:
        memo = {}
    r = env.get(t)
    if r is not None:
        return r
    if t in memo:
        return memo[t]
    memo[t] = None
    r = _ev(t, env, memo)
    memo[t] = r
    return r


def _ev(t, env, memo):
    o = t.op
    E = lambda x: ev(x, env, memo)
    if o == "c":
        k = t.a[0]
        if k == "int":
            return t.a[1]
        if k == "bool":
            return bool(t.a[1])
        return fval(t)
    if o == "lin":
        s = t.a[1]
        for k, v in t.a[0]:
            x = E(k)
            if x is None:
                return None
            s += v * int(x)
        return s
    if o == "mul":
        s = 1
        for k in t.a[0]:
            x = E(k)
            if x is None:
                return None
            s *= int(x)
        return s
    if o in ("min", "max"):
        a, b = E(t.a[0]), E(t.a[1])
        return None if a is None or b is None else (min if o == "min" else max)(a, b)
    if o == "satsub":
        a, b = E(t.a[0]), E(t.a[1])
        return None if a is None or b is None else max(0, a - b)
    if o in ("div", "rem"):
        a, b = E(t.a[0]), E(t.a[1])
        if a is None or not b:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if o == "div" else a - q * b
    if o in ("band", "bor", "bxor"):
        a, b = E(t.a[0]), E(t.a[1])
        if a is None or b is None:
            return None
        return a & b if o == "band" else a | b if o == "bor" else a ^ b
    if o in ("shl", "shr"):
        a, b = E(t.a[0]), E(t.a[1])
        if a is None or b is None or b < 0:
            return None
        return a << b if o == "shl" else a >> b
    if o == "wrap":
        lo, hi = t.a[0]
        x = E(t.a[1])
        return None if x is None else (x - lo) % (hi - lo + 1) + lo
    if o == "b2i":
        x = E(t.a[0])
        return None if x is None else int(x)
    if o == "cast":
        x = E(t.a[1])
        if x is None:
            return None
        if t.a[0] == "IntToFloat":
            return f32r(float(x)) if t.a[2] == "f32" else float(x)
        if t.a[0] == "FloatToFloat":
            return f32r(x) if t.a[2] == "f32" else x
        if t.a[0] == "FloatToInt":
            rg = INT_RANGE_OF(t)
            if rg is None:
                return None
            if x != x:
                return 0
            if math.isinf(x):
                return rg[1] if x > 0 else rg[0]
            return max(rg[0], min(rg[1], int(x)))
        return None
    if o == "not":
        x = E(t.a[0])
        return None if x is None else not x
    if o == "and":
        a, b = E(t.a[0]), E(t.a[1])
        if a is False or b is False:
            return False
        return None if a is None or b is None else True
    if o == "or":
        a, b = E(t.a[0]), E(t.a[1])
        if a is True or b is True:
            return True
        return None if a is None or b is None else False
    if o == "xor":
        a, b = E(t.a[0]), E(t.a[1])
        return None if a is None or b is None else bool(a) != bool(b)
    if o == "le0":
        x = E(t.a[0])
        return None if x is None else x <= 0
    if o == "eq0":
        x = E(t.a[0])
        return None if x is None else x == 0
    if o == "fcmp":
        a, b = E(t.a[1]), E(t.a[2])
        if a is None or b is None:
            return None
        return {"Lt": a < b, "Le": a <= b, "Eq": a == b}[t.a[0]]
    if o in ("fAdd", "fSub", "fMul", "fDiv"):
        a, b = E(t.a[0]), E(t.a[1])
        if a is None or b is None:
            return None
        try:
            r = a + b if o == "fAdd" else a - b if o == "fSub" else a * b if o == "fMul" else a / b
        except ZeroDivisionError:
            r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        except OverflowError:
            return None
        return f32r(r) if t.a[2] == 32 else r
    if o == "fNeg":
        a = E(t.a[0])
        return None if a is None else -a
    if o == "app":
        n, args = t.a
        xs = [E(x) for x in args]
        if any(x is None for x in xs):
            return None
        try:
            if n == "abs":
                return abs(xs[0])
            if n in ("min", "max"):
                if xs[0] != xs[0]:
                    return xs[1]
                if xs[1] != xs[1]:
                    return xs[0]
                return (min if n == "min" else max)(xs)
            if n == "clamp":
                return xs[0] if xs[0] != xs[0] else max(xs[1], min(xs[2], xs[0]))
            if n == "sqrt":
                return math.sqrt(xs[0]) if xs[0] >= 0 else math.nan
            if n == "floor":
                return float(math.floor(xs[0]))
            if n == "ceil":
                return float(math.ceil(xs[0]))
        except (OverflowError, ValueError):
            return None
        return None
    return None


def INT_RANGE_OF(t):
    import state
    return state.INT_RANGE(t.ty) if t.ty is not None else None


def path_holds(st, env):
    """False: the path condition excludes env; True: every condition holds; None: not excluded, some unknown"""
    res = True
    memo = {}
    for L in st.lins:
        x = ev(L, env, memo)
        if x is None:
            res = None
        elif x > 0:
            return False
    for L in st.nes:
        x = ev(L, env, memo)
        if x is None:
            res = None
        elif x == 0:
            return False
    for c, val in st.truth.items():
        x = ev(c, env, memo)
        if x is None:
            res = None
        elif bool(x) != val:
            return False
    return res


def const_points(states, params):
    """constants against which the parameters are compared, for building one point per region"""
    pts = set()
    for st in states:
        for L in list(st.lins) + list(st.nes):
            d, c = lin(L)
            pts.add(abs(c))
            for k, v in d.items():
                for x in subterms(k):
                    if x.op == "lin":
                        pts.add(abs(x.a[1]))
        for c in st.truth:
            for x in subterms(c):
                if x.op == "c" and x.a[0] in ("f32", "f64"):
                    pts.add(fval(x))
                elif x.op == "c" and x.a[0] == "int":
                    pts.add(x.a[1])
                elif x.op == "lin":
                    pts.add(abs(x.a[1]))
    return pts


def int_points(consts, rg, extra=()):
    base = {0, 1, -1, 2} | {int(c) for c in consts if isinstance(c, int) or (isinstance(c, float) and abs(c) < 2 ** 62 and c == int(c))} | set(extra)
    out = set()
    for b in base:
        for s in (1, -1):
            for d in (-1, 0, 1):
                out.add(s * b + d)
    for b in list(extra) + [0, 1, 2, 3, 4, 5, 50, 99, 100]:
        for m in (1 << 8, 1 << 16, 1 << 32):
            for k in (1, -1):
                out.add(b + k * m)
    out |= {rg[0], rg[0] + 1, rg[1], rg[1] - 1}
    return sorted(x for x in out if rg[0] <= x <= rg[1])


def float_points(consts, bits, extra=()):
    out = set()
    for c in set(consts) | set(extra) | {0.0, 1.0}:
        if isinstance(c, (int, float)) and c == c:
            c = float(c)
            for x in (c, -c):
                out.add(x)
                if math.isfinite(x):
                    up, dn = nextf(x, bits, 1), nextf(x, bits, -1)
                    out.add(up)
                    out.add(dn)
                    out.add(x + 0.25)
                    out.add(x - 0.25)
    out |= {math.inf, -math.inf, 1e-30, -1e-30, 1e30, -1e30}
    if bits == 32:
        out = {f32r(x) for x in out}
    return sorted(out) + [math.nan]


def nextf(x, bits, d):
    if bits == 64:
        return math.nextafter(x, math.inf if d > 0 else -math.inf)
    b = f2b(x, 32)
    if x == 0:
        return b2f(1, 32) * d
    return b2f(b + (1 if (x > 0) == (d > 0) else -1), 32)
