"""C03: libimagequant.h describes the library that is built: every declared function exists with C linkage and the
declared parameter and return types, every exported function is declared, error codes, ownership flags and the layout of
the public structs and callbacks agree, and liq_version() is not older than the header.
Method: the header's resolved declarations (clang's AST) are compared with the compiler's types, layouts, discriminants
and constants of the Rust definitions; struct layouts and enum values are compared by compile-time witnesses (static
assertions generated from rustc's layout, checked by clang without producing code)."""
import json, os, subprocess, tempfile, shutil
from capi import *
import facts

ERR = {"LIQ_OK": "LIQ_OK", "QualityTooLow": "LIQ_QUALITY_TOO_LOW", "ValueOutOfRange": "LIQ_VALUE_OUT_OF_RANGE", "OutOfMemory": "LIQ_OUT_OF_MEMORY",
       "Aborted": "LIQ_ABORTED", "InternalError": "LIQ_BITMAP_NOT_AVAILABLE", "BufferTooSmall": "LIQ_BUFFER_TOO_SMALL",
       "InvalidPointer": "LIQ_INVALID_POINTER", "Unsupported": "LIQ_UNSUPPORTED"}
STRUCTS = {"liq_color": "rgb::formats::rgba::Rgba<u8>", "liq_palette": "imagequant::pal::Palette", "liq_histogram_entry": "imagequant::hist::HistogramEntry"}
INTERNAL = {"liq_received_invalid_pointer", "liq_executing_user_callback"}
CINT = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "size_t": 64, "long long": 64, "unsigned long long": 64}


def cparse(s, fns):
    """C type string -> canonical"""
    s = s.strip()
    while s.endswith("const") or s.endswith("restrict"):
        s = s[:-5].strip() if s.endswith("const") else s[:-8].strip()
    if s.endswith("*"):
        inner = s[:-1].strip()
        if inner.endswith("*const"):
            return ("ptr", True, cparse(inner[:-5], fns))
        cst = inner.startswith("const ") or inner.endswith(" const")
        q = cparse(inner.replace("const ", "", 1) if inner.startswith("const ") else inner, fns)
        if q[0] == "fn":
            return q
        return ("ptr", cst, q)
    s = s.replace("struct ", "").replace("enum ", "").replace("const ", "")
    if s == "void":
        return ("void",)
    if s in CINT:
        return ("int", CINT[s])
    if s in ("float", "double"):
        return ("float", 32 if s == "float" else 64)
    if s in ("liq_error", "liq_ownership"):
        return ("int", 32)
    if s in fns:
        return fns[s]
    return ("struct", s)


def rparse(p, i):
    t = p.ty(i)
    k = t["k"]
    if k in ("int", "uint"):
        return ("int", t["bits"])
    if k == "bool":
        return ("int", 8)
    if k == "float":
        return ("float", t["bits"])
    if k == "tuple" and not t["f"]:
        return ("void",)
    if k in ("ref", "ptr"):
        e = p.ty(t["e"])
        if e["k"] in ("slice", "str", "dyn"):
            return ("fat",)
        return ("ptr", not t["mut"], rparse(p, t["e"]))
    if k == "fnptr":
        return ("fn", tuple(rparse(p, x) for x in t["ins"]), rparse(p, t["out"]))
    if k == "enum":
        n = t["name"]
        if n == "core::option::Option":
            x = rparse(p, t["args"][0])
            return x if x[0] in ("ptr", "fn") else ("struct", t["s"])
        if n.endswith("error::Error"):
            return ("int", 8 * t["size"])
        if n.endswith("c_void"):
            return ("void",)
        return ("struct", t["s"])
    if k in ("struct", "union"):
        n = t["name"]
        if n == "alloc::boxed::Box":
            x = rparse(p, t["args"][0])
            return ("ptr", False, x)
        if n.endswith("MaybeUninit"):
            return rparse(p, t["args"][0])
        for c, r in STRUCTS.items():
            if t["s"] == r:
                return ("struct", c)
        if n in HANDLES:
            return ("struct", n.split("::")[-1])
        f = [x for x in t["v"][0]["f"]]
        if len(f) == 1:
            return rparse(p, f[0][1])
        return ("struct", t["s"])
    return ("other", t["s"])


def compatible(c, r, top=True):
    if c[0] == "ptr" and c[2] == ("void",) and r[0] in ("ptr", "fn"):
        return True
    if r[0] == "ptr" and r[2] == ("void",) and c[0] in ("ptr", "fn"):
        return True
    if c[0] != r[0]:
        return False
    if c[0] == "ptr":
        return compatible(c[2], r[2])
    if c[0] == "fn":
        return len(c[1]) == len(r[1]) and all(compatible(a, b) for a, b in zip(c[1], r[1])) and compatible(c[2], r[2])
    return c == r


def header(path):
    out = subprocess.run(["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-x", "c", path], capture_output=True, text=True)
    if out.returncode:
        return None
    d = json.loads(out.stdout)
    fns, cbs, enums = {}, {}, {}
    for n in d["inner"]:
        if n["kind"] == "TypedefDecl" and n["name"].startswith("liq_") and "(" in n["type"]["qualType"] and "*)" not in n["type"]["qualType"].split("(")[0]:
            q = n["type"]["qualType"]
            ret, _, ar = q.partition("(")
            ar = ar.rsplit(")", 1)[0]
            cbs[n["name"]] = ("fn", tuple(cparse(x, {}) for x in ar.split(",") if x.strip() not in ("", "void")), cparse(ret, {}))
        if n["kind"] == "EnumDecl":
            for x in n.get("inner", []):
                if x["kind"] == "EnumConstantDecl":
                    enums[x["name"]] = n.get("name")
    for n in d["inner"]:
        if n["kind"] == "FunctionDecl" and n["name"].startswith("liq_"):
            q = n["type"]["qualType"]
            ret = q.partition("(")[0]
            ps = [x["type"]["qualType"] for x in n.get("inner", []) if x["kind"] == "ParmVarDecl"]
            fns[n["name"]] = (n.get("loc", {}).get("line"), [(cparse(x, cbs), x) for x in ps], (cparse(ret, cbs), ret.strip()))
    return fns, cbs, enums


def check(c):
    p = c.prog("ffi")
    hp = os.path.join(facts.REPO, "imagequant-sys", "libimagequant.h")
    c.rule("header declaration == Rust definition: linkage, arity, ABI class of every parameter and result, struct layout, enum values, version")
    c.assumptions += ["x86-64 Linux layouts; signedness of same-width integers is not compared"]
    c.floors = {"functions": 46, "static_assertions": 20}
    h = header(hp)
    if h is None:
        c.violation(hp, "libimagequant.h does not compile as C", key="header")
        return
    fns, cbs, enums = h
    c.count("declared_callbacks", len(cbs))
    defs = {}
    for k, it in p.items.items():
        if it.get("no_mangle") and it["name"].startswith("liq_"):
            defs[it.get("link_name") or it["name"]] = (k, it)
    for n, (line, ps, ret) in sorted(fns.items()):
        c.obligation()
        c.count("functions")
        where = "imagequant-sys/libimagequant.h:%s %s" % (line, n)
        if n not in defs:
            c.violation(where, "declared in the header but not exported by the library", key="%s missing" % n)
            continue
        k, it = defs[n]
        if not (it["abi"] or "").startswith("C"):
            c.violation(it["span"], "%s is exported with the %s ABI instead of C" % (n, it["abi"]), key="%s abi" % n)
            continue
        ins = [rparse(p, x) for x in it["input_tys"]]
        if len(ins) != len(ps):
            c.violation(it["span"], "%s takes %d parameters, the header declares %d" % (n, len(ins), len(ps)), key="%s arity" % n)
            continue
        for i, ((ct, cs), rt) in enumerate(zip(ps, ins)):
            c.obligation()
            if rt[0] == "other":
                c.undecide("%s parameter %d: %s" % (n, i, rt[1]))
                continue
            if not compatible(ct, rt):
                c.violation(it["span"], "%s: parameter %d is `%s` in the header but `%s` in the library" % (n, i, cs, it["inputs"][i]), key="%s param%d" % (n, i))
            elif ct[0] == "ptr" and ct[1] and rt[0] == "ptr" and not rt[1] and ct[2][0] == "struct" and p.ty(it["input_tys"][i])["k"] == "ref":
                c.violation(it["span"], "%s: parameter %d is declared const but the library takes it mutably" % (n, i), key="%s const%d" % (n, i))
        c.obligation()
        rt = rparse(p, it["output_ty"])
        if not compatible(ret[0], rt):
            c.violation(it["span"], "%s returns `%s` in the header but `%s` in the library" % (n, ret[1], it["output"]), key="%s ret" % n)
    for n, (k, it) in sorted(defs.items()):
        c.obligation()
        if n not in fns and n not in INTERNAL:
            c.violation(it["span"], "%s is exported but not declared in libimagequant.h" % n, key="%s undeclared" % n)
    witnesses(c, p, hp, enums)
    version(c, p, hp)


def witnesses(c, p, hp, enums):
    """static assertions generated from rustc's layouts and discriminants"""
    asserts = []
    err = next((t for t in p.types if t["k"] == "enum" and t["name"].endswith("error::Error") and t["name"].startswith("imagequant::")), None)
    if err is None:
        c.violation("imagequant::Error", "error enum not found", key="error enum")
    else:
        asserts.append(("sizeof(liq_error)==%d" % err["size"], "size of liq_error"))
        known = set()
        for v in err["v"]:
            cn = ERR.get(v["n"])
            if cn is None:
                c.violation("src/error.rs", "Error::%s has no counterpart in liq_error" % v["n"], key="error %s" % v["n"])
            elif cn in enums:
                known.add(cn)
                asserts.append(("%s==%d" % (cn, v["d"]), "value of %s (library: %d)" % (cn, v["d"])))
        for n, en in enums.items():
            if en == "liq_error" and n not in known:
                c.violation("libimagequant.h", "%s is not an error code of the library" % n, key="error %s" % n)
    own = {x["path"].split("::")[-1]: x for x in p.facts["consts"] if x["path"].startswith("imagequant_sys::liq_ownership::LIQ_")}
    for n, en in enums.items():
        if en == "liq_ownership":
            if n not in own:
                c.violation("libimagequant.h", "%s is not an ownership flag of the library" % n, key="flag " + n)
                continue
            v = own[n]["value"]
            while "f" in v:
                v = v["f"][0]
            asserts.append(("%s==%d" % (n, v["i"]), "value of %s (library: %d)" % (n, v["i"])))
    for cn, rn in STRUCTS.items():
        t = next((t for t in p.types if t["s"] == rn), None)
        if t is None:
            c.violation(rn, "type not found", key="struct " + cn)
            continue
        asserts.append(("sizeof(%s)==%d" % (cn, t["size"]), "size of %s (library: %d)" % (cn, t["size"])))
        asserts.append(("_Alignof(%s)==%d" % (cn, t["align"]), "alignment of %s (library: %d)" % (cn, t["align"])))
        for i, f in enumerate(t["v"][0]["f"]):
            if size_of(p, p.ty(f[1])) == 0:
                continue
            asserts.append(("__builtin_offsetof(%s,%s)==%d" % (cn, f[0], t["off"][i]), "offset of %s.%s (library: %d)" % (cn, f[0], t["off"][i])))
            ft = p.ty(f[1])
            sz = size_of(p, ft)
            if sz:
                asserts.append(("sizeof(((%s*)0)->%s)==%d" % (cn, f[0], sz), "size of %s.%s (library: %d)" % (cn, f[0], sz)))
    c.count("static_assertions", len(asserts))
    c.obligation(len(asserts))
    d = tempfile.mkdtemp(prefix="liqc03")
    try:
        src = os.path.join(d, "w.c")
        with open(src, "w") as f:
            f.write('#include "%s"\n' % hp)
            for i, (e, m) in enumerate(asserts):
                f.write('_Static_assert(%s, "W%d");\n' % (e, i))
        r = subprocess.run(["clang", "-fsyntax-only", "-ferror-limit=0", "-x", "c", src], capture_output=True, text=True)
        hit = False
        for l in r.stderr.split("\n"):
            if "error:" in l:
                hit = True
                i = l.find('W', l.rfind(":"))
                num = "".join(ch for ch in l[i + 1:] if ch.isdigit()) if i >= 0 else ""
                lineno = l.split("w.c:")[1].split(":")[0] if "w.c:" in l else None
                m = asserts[int(lineno) - 2][1] if lineno and 2 <= int(lineno) < len(asserts) + 2 else l
                c.violation("imagequant-sys/libimagequant.h", "header and library disagree on the %s" % m, key="layout " + m.split(" (")[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.samples += [a for a, _ in asserts[:12]]


def size_of(p, t):
    if t["k"] in ("int", "uint", "float"):
        return t["bits"] // 8
    if t["k"] == "array" and isinstance(t.get("n"), int):
        s = size_of(p, p.ty(t["e"]))
        return s and s * t["n"]
    return t.get("size")


def version(c, p, hp):
    c.obligation()
    out = subprocess.run(["clang", "-dM", "-E", "-x", "c", hp], capture_output=True, text=True).stdout
    hv = next((int(l.split()[2]) for l in out.split("\n") if l.startswith("#define LIQ_VERSION ") and l.split()[2].isdigit()), None)
    key = c.anchor(p, "imagequant_sys::liq_version")
    if key is None or hv is None:
        return
    e = c.engine(p)
    for st, r in e.run(key, []):
        if isint(r) and r.a[1] < hv:
            c.violation(c.loc(p, key), "liq_version() is %d, older than the header's LIQ_VERSION %d" % (r.a[1], hv), key="version")
    c.done(e)
