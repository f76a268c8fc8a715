"""Helpers shared by the rules."""
from engine import *
from terms import *
from state import State
from evalt import *


def error_name(p, v):
    """name of the Error variant of a value that is an Error or Err(Error) / c-int; None when unknown"""
    if v.op == "agg" and v.a[0].endswith("::Error"):
        t = next((t for t in p.types if t["k"] == "enum" and t.get("name") == v.a[0]), None)
        if t:
            return t["v"][v.a[1]]["n"]
    return None


def outcome(p, st, v):
    """classify a return value: ('ok', payload) | ('err', name|None) | None when unknown"""
    if v.op == "agg":
        n = v.a[0]
        if n == "core::result::Result":
            if v.a[1] == 0:
                return ("ok", v.a[2][0])
            return ("err", error_name(p, v.a[2][0]))
        if n == "core::option::Option":
            return ("ok", v.a[2][0]) if v.a[1] == 1 else ("err", "None")
        if n.endswith("::Error"):
            e = error_name(p, v)
            return ("ok", None) if e == "LIQ_OK" else ("err", e)
    d = st.disc.get(v)
    if d is not None and v.ty is not None:
        t = p.ty(v.ty)
        if t["k"] == "enum" and t["name"] == "core::result::Result":
            return ("ok", None) if d == 0 else ("err", None)
        if t["k"] == "enum" and t["name"] == "core::option::Option":
            return ("ok", None) if d == 1 else ("err", "None")
    return None


_enums = {}


def enum_names(p):
    k = id(p)
    if k not in _enums:
        _enums[k] = {t["name"] for t in p.types if t["k"] == "enum"}
    return _enums[k]


def same_value(e, st, v, orig):
    """v is a re-assembly of orig: True / False (differs in some leaf) """
    if v is orig:
        return True
    if v.op == "agg":
        if v.a[0] in ("array",):
            return False
        if v.a[0] in enum_names(e.p) and st.disc.get(orig) != v.a[1]:
            return False
        for i, x in enumerate(v.a[2]):
            o = e.proj(st, orig, ("f", v.a[1], i))
            if not same_value(e, st, x, o):
                return False
        return True
    if v.op == "vec" and orig.op != "vec":
        return False
    return False


def target_unchanged(e, st, ptr):
    """the memory behind symbolic pointer `ptr` holds its entry value"""
    root, path, _ = e.target(st, ptr)
    v = st.mem.get(root)
    return v is None or same_value(e, st, v, mk("deref", ptr))


def mentions(t, x):
    return any(y is x for y in subterms(t))


def find_fn(p, path):
    """key of a function by its path; generic functions: any instance"""
    k = p.find(path)
    if k is not None:
        return k
    for n, ks in p.bypath.items():
        if n == path or n.startswith(path + "::<"):
            return sorted(ks, key=len)[0]
    return None
