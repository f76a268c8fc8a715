"""Shared view of the C API: exported functions, their handle parameters, the tags that identify valid handles."""
from util import *
from ctx import symargs

HANDLES = ("imagequant_sys::liq_attr", "imagequant_sys::liq_image", "imagequant_sys::liq_result", "imagequant_sys::liq_histogram")
DESTROY = {"liq_attr_destroy", "liq_image_destroy", "liq_result_destroy", "liq_histogram_destroy"}
EXEMPT = {"liq_set_min_opacity", "liq_get_min_opacity", "liq_version"} | DESTROY


def adt_of(p, ty):
    """name of the handle struct behind a reference/Box type, else None"""
    t = p.ty(ty)
    if t["k"] in ("ref", "ptr"):
        t = p.ty(t["e"])
    elif t["k"] == "struct" and t["name"] == "alloc::boxed::Box":
        t = p.ty(t["args"][0])
    return t["name"] if t["k"] == "struct" and t.get("name") in HANDLES else None


def exported(p):
    """[(name, key)] of the C functions"""
    out = []
    for k, it in p.items.items():
        if it.get("no_mangle") and (it["abi"] or "").startswith("C") and it["name"] != "liq_received_invalid_pointer":
            key = p.find("imagequant_sys::" + it["name"])
            if key is not None:
                out.append((it["name"], key))
    return out


def handle_params(p, key):
    fn = p.fns[key]
    return [(i, adt_of(p, fn["locals"][i + 1])) for i in range(fn["n"]) if adt_of(p, fn["locals"][i + 1])]


def magic_field(p, adt):
    """(index of the tag field) = the field whose type is the tag type"""
    for t in p.types:
        if t["k"] == "struct" and t.get("name") == adt:
            for i, f in enumerate(t["v"][0]["f"]):
                if p.ty(f[1])["s"].endswith("::MagicTag") or f[0] == "magic_header":
                    return i
    return None


def valid(st, h, adt, tag, mf):
    """the path has established that the tag of handle h is the one of its type"""
    for t, v in st.truth.items():
        if v is True and t.op == "peq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0] is mk("deref", h) and x.a[0].a[2] == mf and \
                        any(z.op == "static" and z.a[0] == tag for z in subterms(y)):
                    return True
    return False


def handle_ptr(e, st, arg):
    """pointer term behind a handle argument (Box wrappers removed)"""
    if arg.ty is not None and e.p.ty(arg.ty)["k"] == "struct":
        arg = e.proj(st, arg, ("f", 0, 0))
    r, pth, _ = e.target(st, arg)
    return r.a[0] if r.op == "D" else None


_created = {}


def created_tags(p, e_factory):
    """run every constructor and read the tag stored in the object it returns: adt -> set of statics"""
    if id(p) in _created:
        return _created[id(p)]
    out = {}
    for name, key in exported(p):
        fn = p.fns[key]
        t = p.ty(fn["locals"][0])
        if not (t["k"] == "enum" and t["name"] == "core::option::Option"):
            continue
        a = adt_of(p, t["args"][0])
        if a is None:
            continue
        e = e_factory()
        e.RETCAP = 64
        args = symargs(p, key, tag="#mk" + name)
        for st, r in e.run(key, args):
            o = outcome(p, st, r)
            if o and o[0] == "ok" and o[1] is not None:
                root, pth, _ = e.target(st, o[1])
                v = e.proj(st, e.rd(st, root, pth), ("f", 0, magic_field(p, a)))
                if v.op == "agg":
                    v = v.a[2][0]
                ss = [z.a[0] for z in subterms(v) if z.op == "static"]
                out.setdefault(a, {}).setdefault(ss[0] if len(ss) == 1 else "?", []).append(name)
    _created[id(p)] = out
    return out


def core_opaque(n, k):
    return n.startswith("imagequant::") or n.startswith("<imagequant::")
