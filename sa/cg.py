"""Call graph over the MIR facts (calls, closures created, functions taken as values) and pruning by relevance."""
from engine import norm


def callees_of(p, key):
    f = p.fns[key]
    c = f.get("_callees")
    if c is None:
        c = []
        for bi, b in enumerate(f["blocks"]):
            if b.get("cl"):
                continue
            scan(b["s"], c, bi)
            scan(b["t"], c, bi)
        f["_callees"] = c
    return c


def scan(x, out, bi):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "closure" and isinstance(x[2], str):
            out.append((x[2], None, bi))
        for y in x:
            if isinstance(y, (list, dict)):
                scan(y, out, bi)
    elif isinstance(x, dict):
        if "k" in x and "p" in x:
            out.append((x.get("key"), x, bi))
            if "inner" in x:
                scan(x["inner"], out, bi)
            return
        for y in x.values():
            if isinstance(y, (list, dict)):
                scan(y, out, bi)


def is_local(p, key):
    f = p.fns.get(key)
    return f is not None and f["krate"].startswith("imagequant")


def reachers(p, pred):
    """set of fn keys from which a call satisfying pred(callee dict, caller key, block) can be reached"""
    rev = {}
    seeds = set()
    for k in p.fns:
        for ck, ce, bi in callees_of(p, k):
            if ck is not None:
                rev.setdefault(ck, set()).add(k)
            if ce is not None and pred(ce, k, bi):
                seeds.add(k)
    out = set(seeds)
    work = list(seeds)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in out:
                out.add(y)
                work.append(y)
    return out


def reach_from(p, roots):
    seen = set()
    work = [r for r in roots if r in p.fns]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        for ck, ce, bi in callees_of(p, k):
            if ck in p.fns and ck not in seen:
                work.append(ck)
    return seen


def small(p, key, depth=0):
    """a short function made only of short functions: cheaper to interpret than to forget"""
    f = p.fns.get(key)
    if f is None:
        return False
    v = f.get("_small")
    if v is None:
        f["_small"] = False
        bs = [b for b in f["blocks"] if not b.get("cl")]
        v = len(bs) <= 10 and depth < 4 and all(
            ck is None or ck not in p.fns or small(p, ck, depth + 1) or not is_local(p, ck) for ck, ce, bi in callees_of(p, key))
        v = v and not any(ce is not None and ce.get("k") in ("virtual", "unres", "fnptr") for ck, ce, bi in callees_of(p, key))
        f["_small"] = v
    return v


def pruned(p, keep, extra=()):
    """opaque predicate: local functions that reach no event are summarised as unknown operations"""
    def op(n, k):
        if n in extra:
            return True
        return k is not None and is_local(p, k) and k not in keep and not small(p, k)
    return op


def places(x):
    """every place (list starting with a local number) in a statement or terminator"""
    if isinstance(x, list):
        if len(x) > 1 and isinstance(x[0], int) and all(e == "*" or isinstance(e, list) for e in x[1:]):
            yield x
        for y in x:
            if isinstance(y, (list, dict)):
                yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, (list, dict)):
                yield from places(y)


def field_uses(p, key):
    """set of (adt name, field name) projected in a function"""
    f = p.fns[key]
    r = f.get("_fu")
    if r is None:
        r = set()
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            for pl in places(b["s"]):
                walk_fields(p, f, pl, r)
            for pl in places(b["t"]):
                walk_fields(p, f, pl, r)
        f["_fu"] = r
    return r


def walk_fields(p, f, pl, out):
    if pl[0] >= len(f["locals"]):
        return
    ty = f["locals"][pl[0]]
    var = 0
    for e in pl[1:]:
        if ty is None:
            return
        t = p.ty(ty)
        if e == "*":
            ty = t["e"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else None)
        elif e[0] == "f":
            if t["k"] in ("struct", "enum", "union") and t.get("v") and var < len(t["v"]) and e[1] < len(t["v"][var]["f"]):
                out.add((t["name"], t["v"][var]["f"][e[1]][0]))
            ty = e[2] if len(e) > 2 else None
            var = 0
        elif e[0] == "d":
            var = e[1]
        elif e[0] in ("i", "ci"):
            ty = t.get("e")


def closure_reachers(p, seeds):
    """functions from which one of the seed functions can be reached"""
    rev = {}
    for k in p.fns:
        for ck, ce, bi in callees_of(p, k):
            if ck is not None:
                rev.setdefault(ck, set()).add(k)
    out = set(seeds)
    work = list(seeds)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in out:
                out.add(y)
                work.append(y)
    return out


def builds_variant(p, key, enum, variant):
    """the function contains an aggregate expression of that enum variant"""
    for b in p.fns[key]["blocks"]:
        if b.get("cl"):
            continue
        for s in b["s"]:
            if s[0] == "=" and _has_variant(p, s[2], enum, variant):
                return True
        if _has_variant(p, b["t"], enum, variant):
            return True
    return False


def _has_variant(p, x, enum, variant):
    if isinstance(x, list):
        if len(x) >= 3 and x[0] == "adt" and isinstance(x[1], int) and p.ty(x[1]).get("name") == enum and isinstance(x[2], int):
            return p.ty(x[1])["v"][x[2]]["n"] == variant
        return any(_has_variant(p, y, enum, variant) for y in x if isinstance(y, (list, dict)))
    if isinstance(x, dict):
        if isinstance(x.get("agg"), int) and p.ty(x["agg"]).get("name") == enum:
            return p.ty(x["agg"])["v"][x["v"]]["n"] == variant
        return any(_has_variant(p, y, enum, variant) for y in x.values() if isinstance(y, (list, dict)))
    return False
