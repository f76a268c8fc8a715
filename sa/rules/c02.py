"""C02: every C function validates the type tag of each handle before using it; a handle of the wrong type makes it
return the documented failure value and do nothing else.
Method: path-sensitive interprocedural abstract interpretation of every exported C function, with the library proper
opaque. Obligations: at each read of a handle beyond its tag, at each call into the library, at each write to caller
memory and at each user callback the path must have established `tag == tag of the type`; every return on a path that
has not established it must return the documented failure value. Tags are the ones the constructors store, and must be
distinct objects."""
from capi import *


def expected(p, key):
    t = p.ty(p.fns[key]["locals"][0])
    if t["k"] == "enum" and t["name"].endswith("error::Error"):
        return "LIQ_INVALID_POINTER", lambda st, r: (outcome(p, st, r) or (0, 0))[1] == "InvalidPointer"
    if t["k"] == "enum" and t["name"] == "core::option::Option":
        return "NULL", lambda st, r: outcome(p, st, r) == ("err", "None") or st.disc.get(r) == 0
    if t["k"] in ("int", "uint"):
        return "-1", lambda st, r: isint(r) and r.a[1] in (-1, 2 ** t["bits"] - 1)
    if t["k"] == "float":
        return "-1.0", lambda st, r: isfloat(r) and fval(r) == -1.0
    return "nothing", lambda st, r: True


def check(c):
    p = c.prog("ffi")
    c.rule("use of a handle, library call, callback or write to caller memory => every handle's tag was compared equal to its type's tag on the path; otherwise the documented failure value is returned")
    c.floors = {"handle_functions": 40}
    c.assumptions += ["memory behind a handle pointer is readable (a wrong-type handle is still a library object)",
                      "the destroy functions and the deprecated no-op min_opacity functions are outside this property"]
    made = created_tags(p, lambda: c.engine(p, opaque=core_opaque))
    tag = {}
    for a in HANDLES:
        m = {k: v for k, v in made.get(a, {}).items() if k != "?"}
        c.obligation()
        if len(m) > 1:
            best = max(m, key=lambda k: len(m[k]))
            for k in m:
                if k != best:
                    c.violation(a, "%s creates the object with the tag %s instead of %s" % (m[k][0], k, best), key="%s created-tag" % a)
            tag[a] = best
        elif m:
            tag[a] = next(iter(m))
    # results are created through an out parameter too; fall back to the tag of liq_quantize_image
    consts = {x["path"]: x for x in p.facts["consts"]} if hasattr(p, "facts") else {}
    vals = {}
    for a, s in tag.items():
        c.obligation()
        v = consts.get(s, {}).get("ptrs")
        if v:
            vals.setdefault(tuple(v), []).append((a, s))
    for v, xs in vals.items():
        if len({s for _, s in xs}) > 1 or len({a for a, _ in xs}) > 1:
            c.violation(consts[xs[0][1]]["span"], "the types %s share the tag value %r, so their handles cannot be told apart" % (", ".join(a for a, _ in xs), v[0]), key="tags distinct")
    if len(set(tag.values())) < len(tag):
        c.violation("imagequant_sys", "two handle types are created with the same tag", key="tags distinct")
    for name, key in exported(p):
        if name in EXEMPT:
            continue
        hp = handle_params(p, key)
        if not hp:
            continue
        c.count("handle_functions")
        one(c, p, name, key, hp, tag)


def one(c, p, name, key, hp, tag):
    where = c.loc(p, key)
    e = c.engine(p, opaque=core_opaque)
    e.RETCAP = 64
    args = symargs(p, key, tag="#c02")
    st0 = State()
    hs = []
    for i, a in hp:
        h = handle_ptr(e, st0, args[i])
        if h is None or a not in tag:
            c.undecide("%s: handle parameter %d of unexpected shape" % (name, i))
            return
        hs.append((i, a, h, magic_field(p, a)))
    roots = {mk("D", h): (i, a, h, mf) for i, a, h, mf in hs}
    seen = set()

    def bad(what, k):
        if k not in seen:
            seen.add(k)
            c.violation(where, what, key="%s %s" % (name, k))

    def invalid(st):
        return [(i, a) for i, a, h, mf in hs if not valid(st, h, a, tag[a], mf)]

    def on_read(st, root, path, fr=None):
        x = roots.get(root)
        if x is None or not path or path[0][0] != "f" or path[0][2] == x[3]:
            return
        c.obligation()
        if not valid(st, x[2], x[1], tag[x[1]], x[3]):
            bad("parameter %d (%s) is used before its tag has been checked" % (x[0], x[1].split("::")[-1]), "use %d" % x[0])

    def on_write(st, root, path, val):
        if root.op != "D":
            return
        c.obligation()
        iv = invalid(st)
        if iv:
            x = roots.get(root)
            bad("writes to caller memory (%s) although parameter %d (%s) has not been validated" % (show(root)[:40], iv[0][0], iv[0][1].split("::")[-1]), "write")

    def on_opaque(en, st, n, ce, a, at, dty):
        if n.startswith("imagequant::") or n.startswith("<imagequant::") or n.startswith("fnptr") or n.startswith("dyn"):
            c.obligation()
            iv = invalid(st)
            if iv:
                bad("calls %s although parameter %d (%s) has not been validated" % (n, iv[0][0], iv[0][1].split("::")[-1]), "call")
        return NotImplemented

    e.obs_read, e.obs_write = on_read, on_write
    e.hooks["*opaque"] = on_opaque
    try:
        rets = e.run(key, args, st0)
    except Giveup as g:
        c.undecide("%s: %s" % (name, g))
        return
    c.done(e)
    label, ok = expected(p, key)
    nvalid = 0
    for st, r in rets:
        iv = invalid(st)
        if not iv:
            nvalid += 1
            continue
        c.obligation()
        if not ok(st, r):
            # unknown results (joined) are only reported when definitely different
            if r.op == "phi":
                c.undecide("%s: merged return value" % name)
                continue
            bad("returns %s instead of %s when parameter %d (%s) is not a valid handle" % (show(r)[:60], label, iv[0][0], iv[0][1].split("::")[-1]), "value")
    if not nvalid:
        bad("never accepts a valid handle", "rejects")
    c.samples.append({"function": name, "handles": [a for _, a, _, _ in hs], "paths": len(rets), "failure": label})
