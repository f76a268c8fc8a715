"""Abstract semantics of the standard-library (and rayon/arrayvec/thread_local) operations the crate uses.

Containers: a Vec/ArrayVec value is ('vec', root, len) with its elements in memory root `root`.
Iterators: ('iter', kind, ...) terms; `itnext` is the transfer function of Iterator::next and every consumer
(for_each, fold, collect, ...) is a loop over itnext analysed to a fixpoint by Engine.fix_loop.
"""
from terms import *
from state import *

OPT = "core::option::Option"
RES = "core::result::Result"
MODELS = {}
IT = "core::iter::traits::iterator::Iterator::"
NI = NotImplemented


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def some(v, ty=None):
    r = mk("agg", OPT, 1, (v,))
    if r.ty is None:
        r.ty = ty
    return r


def none(ty=None):
    r = mk("agg", OPT, 0, ())
    if r.ty is None:
        r.ty = ty
    return r


def ok(v, ty=None):
    r = mk("agg", RES, 0, (v,))
    if r.ty is None:
        r.ty = ty
    return r


def err(v, ty=None):
    r = mk("agg", RES, 1, (v,))
    if r.ty is None:
        r.ty = ty
    return r


def tup(*a):
    return mk("agg", "()", 0, tuple(a))


def targ(e, ty, i=0):
    if ty is None:
        return None
    a = e.p.ty(ty).get("args")
    return a[i] if a and i < len(a) else None


# ---- vectors ---------------------------------------------------------------------------
def as_vec(e, v):
    """-> (root, len term)"""
    if v.op == "vec":
        return v.a[0], v.a[1]
    if v.op == "fat" and v.a[0].op == "ref" and not v.a[0].a[1]:
        return v.a[0].a[0], v.a[1]
    p = mk("vptr", v)
    return mk("D", p), mk("len", v)


def vec_ref(e, st, ref, ty=None):
    """&Vec -> (root, path of the vec, vec value, heap root, len)"""
    r, p, _ = e.target(st, ref, ty)
    v = e.rd(st, r, p)
    h, n = as_vec(e, v)
    return r, p, v, h, n


def set_vec(e, st, r, p, h, n, old):
    nv = mk("vec", h, n)
    if nv.ty is None:
        nv.ty = old.ty
    e.write_obs(st, r, p, nv)
    e.wr(st, r, p, nv)


def slice_of(h, n):
    if h.op == "D":
        return mk("fat", h.a[0], n)
    return mk("fat", mk("ref", h, ()), n)


@model("alloc::vec::Vec::new", "arrayvec::arrayvec::ArrayVec::new", "<arrayvec::arrayvec::ArrayVec<T, CAP> as core::default::Default>::default",
       "<alloc::vec::Vec<T> as core::default::Default>::default", "alloc::vec::Vec::with_capacity", "arrayvec::arrayvec::ArrayVec::new_const")
def vec_new(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    h = e.alloc(st, e.fresh(st, "uninit"), None, "vec")
    v = mk("vec", h, cint(0))
    v.ty = dty
    return [(st, v)]


@model("alloc::vec::Vec::len", "arrayvec::arrayvec::ArrayVec::len", "core::slice::<impl [T]>::len")
def vec_len(e, st, ce, args, tys, dty, fp):
    if "slice" in ce["p"]:
        return [(st, e.len_of(st, args[0]))]
    return [(st, vec_ref(e, st, args[0])[4])]


@model("alloc::vec::Vec::is_empty", "arrayvec::arrayvec::ArrayVec::is_empty", "core::slice::<impl [T]>::is_empty")
def vec_is_empty(e, st, ce, args, tys, dty, fp):
    n = e.len_of(st, args[0]) if "slice" in ce["p"] else vec_ref(e, st, args[0])[4]
    return [(st, mkeq0(n))]


@model("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<arrayvec::arrayvec::ArrayVec<T, CAP> as core::ops::deref::Deref>::deref", "<arrayvec::arrayvec::ArrayVec<T, CAP> as core::ops::deref::DerefMut>::deref_mut",
       "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "arrayvec::arrayvec::ArrayVec::as_slice", "arrayvec::arrayvec::ArrayVec::as_mut_slice",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow")
def vec_deref(e, st, ce, args, tys, dty, fp):
    r, p, v, h, n = vec_ref(e, st, args[0])
    if v.op != "vec" and ("Mut" in ce["p"] or "mut" in ce["p"]):
        pass
    return [(st, slice_of(h, n))]


@model("alloc::vec::Vec::as_ptr", "alloc::vec::Vec::as_mut_ptr")
def vec_as_ptr(e, st, ce, args, tys, dty, fp):
    r, p, v, h, n = vec_ref(e, st, args[0])
    return [(st, slice_of(h, n).a[0])]


@model("alloc::vec::Vec::push", "arrayvec::arrayvec::ArrayVec::push", "<alloc::vec::Vec<T> as imagequant::PushInCapacity<T>>::push_in_cap")
def vec_push(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    e.write_obs(st, h, (("e", n),), args[1])
    e.wr(st, h, (("e", n),), args[1])
    set_vec(e, st, r, p, h, ladd(n, cint(1)), v)
    return [(st, UNIT)]


@model("alloc::vec::Vec::clear", "arrayvec::arrayvec::ArrayVec::clear")
def vec_clear(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    set_vec(e, st, r, p, h, cint(0), v)
    return [(st, UNIT)]


@model("alloc::vec::Vec::set_len", "arrayvec::arrayvec::ArrayVec::set_len")
def vec_set_len(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    set_vec(e, st, r, p, h, args[1], v)
    return [(st, UNIT)]


@model("alloc::vec::Vec::truncate", "arrayvec::arrayvec::ArrayVec::truncate")
def vec_trunc(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    set_vec(e, st, r, p, h, imin(n, args[1]), v)
    return [(st, UNIT)]


@model("alloc::vec::Vec::resize")
def vec_resize(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    old = e.root_val(st, h)
    if isint(n) and n.a[1] == 0:
        nv = mk("repeat", args[2], args[1])
    else:
        nv = e.fresh(st, "resized", old.ty)
    e.write_obs(st, h, (), nv)
    st.mem[h] = nv
    set_vec(e, st, r, p, h, args[1], v)
    return [(st, UNIT)]


@model("alloc::vec::Vec::capacity")
def vec_cap(e, st, ce, args, tys, dty, fp):
    r, p, v, h, n = vec_ref(e, st, args[0])
    t = mk("cap", h)
    t.ty = dty
    return [(st, t)]


@model("alloc::vec::Vec::try_reserve", "alloc::vec::Vec::try_reserve_exact", "alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact")
def vec_reserve(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    h2 = e.alloc(st, e.root_val(st, h), None, "vecr")
    set_vec(e, st, r, p, h2, n, v)
    cap = mk("cap", h2)
    cap.ty = e.p.tyid("usize")
    if "try" not in ce["p"]:
        st.add_le0(ladd(ladd(n, args[1]), cap, -1))
        return [(st, UNIT)]
    s2 = st.copy()
    st.add_le0(ladd(ladd(n, args[1]), cap, -1))
    return [(st, ok(UNIT, dty)), (s2, err(e.fresh(s2, "reserve_err", targ(e, dty, 1)), dty))]


@model("alloc::vec::Vec::spare_capacity_mut")
def vec_spare(e, st, ce, args, tys, dty, fp):
    r, p, v, h, n = vec_ref(e, st, args[0])
    cap = mk("cap", h)
    cap.ty = e.p.tyid("usize")
    thin = slice_of(h, n).a[0]
    return [(st, mk("fat", offset(e, st, thin, n), ladd(cap, n, -1)))]


@model("alloc::vec::Vec::into_boxed_slice")
def vec_into_boxed(e, st, ce, args, tys, dty, fp):
    h, n = as_vec(e, args[0])
    return [(st, slice_of(h, n))]


@model("<alloc::vec::Vec<T> as core::clone::Clone>::clone", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", "<arrayvec::arrayvec::ArrayVec<T, CAP> as core::clone::Clone>::clone",
       "alloc::slice::<impl [T]>::to_vec")
def vec_clone(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    if "to_vec" in ce["p"]:
        r, p, _ = e.target(st, args[0])
        n = e.len_of(st, args[0])
        val = e.rd(st, r, p)
    else:
        r, p, v, h, n = vec_ref(e, st, args[0])
        val = e.root_val(st, h)
    h2 = e.alloc(st, mk("cloned", val), None, "vecc")
    nv = mk("vec", h2, n)
    nv.ty = dty
    return [(st, nv)]


@model("<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone", "<alloc::boxed::Box<[T]> as core::clone::Clone>::clone")
def boxslice_clone(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    v = e.deref(st, args[0])
    r, p, _ = e.target(st, v)
    h = e.alloc(st, mk("cloned", e.rd(st, r, p)), None, "boxc")
    return [(st, mk("fat", mk("ref", h, ()), e.len_of(st, v)))]


@model("alloc::vec::Vec::swap_remove", "alloc::vec::Vec::remove")
def vec_swap_remove(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    if not st.add_le0(ladd(ladd(args[1], n, -1), cint(1))):
        return []
    x = e.rd(st, h, (("e", args[1]),))
    last = e.rd(st, h, (("e", ladd(n, cint(1), -1)),))
    if "swap" in ce["p"]:
        e.wr(st, h, (("e", args[1]),), last)
    else:
        st.mem[h] = e.fresh(st, "removed", None)
    set_vec(e, st, r, p, h, ladd(n, cint(1), -1), v)
    if x.ty is None:
        x.ty = dty
    return [(st, x)]


@model("alloc::vec::Vec::pop", "arrayvec::arrayvec::ArrayVec::pop")
def vec_pop(e, st, ce, args, tys, dty, fp):
    out = []
    r, p, v, h, n = vec_ref(e, st, args[0])
    s1 = st.copy()
    if s1.add_eq0(n):
        out.append((s1, none(dty)))
    s2 = st.copy()
    if s2.add_le0(ladd(cint(1), n, -1)):
        x = e.rd(s2, h, (("e", ladd(n, cint(1), -1)),))
        set_vec(e, s2, r, p, h, ladd(n, cint(1), -1), v)
        out.append((s2, some(x, dty)))
    return out


@model("alloc::vec::Vec::extend_from_slice", "arrayvec::arrayvec::ArrayVec::try_extend_from_slice")
def vec_extend_slice(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    r, p, v, h, n = vec_ref(e, st, args[0])
    m = e.len_of(st, args[1])
    nv = e.fresh(st, "extended")
    e.write_obs(st, h, (), nv)
    st.mem[h] = nv
    set_vec(e, st, r, p, h, ladd(n, m), v)
    return [(st, UNIT if "try" not in ce["p"] else e.fresh(st, "tryext", dty))]


def imin(a, b):
    if isint(a) and isint(b):
        return a if a.a[1] <= b.a[1] else b
    if a is b:
        return a
    d = ladd(a, b, -1)
    if isint(d):
        return a if d.a[1] <= 0 else b
    return mk("min", *sorted((a, b), key=lambda x: x.n))


def imax(a, b):
    if isint(a) and isint(b):
        return a if a.a[1] >= b.a[1] else b
    if a is b:
        return a
    d = ladd(a, b, -1)
    if isint(d):
        return a if d.a[1] >= 0 else b
    return mk("max", *sorted((a, b), key=lambda x: x.n))


@model("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max")
def ord_minmax(e, st, ce, args, tys, dty, fp):
    if dty is None or not e.p.is_int(dty):
        return NI
    r = (imin if ce["p"].endswith("min") else imax)(*args)
    if r.ty is None and r.op != "c":
        r.ty = dty
    return [(st, r)]


@model("core::cmp::Ord::clamp")
def ord_clamp(e, st, ce, args, tys, dty, fp):
    if dty is None or not e.p.is_int(dty):
        return NI
    a = imax(args[0], args[1])
    if a.ty is None and a.op != "c":
        a.ty = dty
    r = imin(a, args[2])
    if r.ty is None and r.op != "c":
        r.ty = dty
    return [(st, r)]


@model("core::cmp::Ord::cmp")
def ord_cmp(e, st, ce, args, tys, dty, fp):
    t = tys[0]
    pt = e.p.pointee(t) if t is not None else None
    if pt is None or not e.p.is_int(pt):
        return NI
    r = mk("cmp3", e.deref(st, args[0]), e.deref(st, args[1]))
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


# ---- slices ------------------------------------------------------------------------------
def thin(v):
    return v.a[0] if v.op == "fat" else v


def offset(e, st, t, k):
    if isint(k) and k.a[1] == 0:
        return t
    if t.op == "ref":
        return mk("ref", t.a[0], e.addpath(t.a[1], ("o", k)))
    if t.op == "poff":
        return mk("poff", t.a[0], ladd(t.a[1], k))
    return mk("poff", t, k)


def elemref(e, st, t, i):
    r, p, _ = e.target(st, t)
    return mk("ref", r, e.addpath(p, ("e", i)))


def subslice(e, st, v, lo, n):
    return mk("fat", offset(e, st, thin(v), lo), n)


def range_bounds(e, st, idx, n):
    """-> (lo, hi) of a range index value over length n, or None"""
    if idx.op != "agg":
        return None
    nm = idx.a[0]
    f = idx.a[2]
    if nm.endswith("::Range"):
        return f[0], f[1]
    if nm.endswith("RangeFrom"):
        return f[0], n
    if nm.endswith("RangeTo"):
        return cint(0), f[0]
    if nm.endswith("RangeFull"):
        return cint(0), n
    if nm.endswith("RangeToInclusive"):
        return cint(0), ladd(f[0], cint(1))
    if nm.endswith("RangeInclusive"):
        return f[0], ladd(f[1], cint(1))
    return None


def range_in(st, lo, hi, n):
    """assume lo <= hi <= n"""
    return st.add_le0(ladd(lo, hi, -1)) and st.add_le0(ladd(hi, n, -1))


def slice_arg(e, st, v, ty):
    """normalise &[T] / &[T;N] / &Vec to (thin, len)"""
    return thin(v), e.len_of(st, v)


@model("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
       "core::array::<impl core::ops::index::Index<I> for [T; N]>::index", "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut",
       "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut")
def slice_index(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    nm = ce.get("rp") or ce["p"]
    if "Vec<" in nm:
        r, p, v, h, n = vec_ref(e, st, args[0])
        base = slice_of(h, n)
    elif "[T; N]" in nm:
        pt = e.p.pointee(tys[0])
        k = e.p.ty(pt).get("n") if pt is not None else None
        n = cint(k) if isinstance(k, int) else mk("len", args[0])
        base = mk("fat", args[0], n)
    else:
        base = args[0]
        n = e.len_of(st, base)
    if tys[1] is not None and e.p.is_int(tys[1]):
        if not st.add_le0(ladd(ladd(args[1], n, -1), cint(1))):
            return []
        return [(st, elemref(e, st, thin(base), args[1]))]
    b = range_bounds(e, st, args[1], n)
    if b is None:
        return NI
    if not range_in(st, b[0], b[1], n):
        return []
    return [(st, subslice(e, st, base, b[0], ladd(b[1], b[0], -1)))]


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def slice_get(e, st, ce, args, tys, dty, fp):
    n = e.len_of(st, args[0])
    out = []
    if tys[1] is not None and e.p.is_int(tys[1]):
        s1 = st.copy()
        if s1.add_le0(ladd(ladd(args[1], n, -1), cint(1))):
            out.append((s1, some(elemref(e, s1, thin(args[0]), args[1]), dty)))
        s2 = st.copy()
        if s2.add_le0(ladd(n, args[1], -1)):
            out.append((s2, none(dty)))
        return out
    b = range_bounds(e, st, args[1], n)
    if b is None:
        return NI
    s1 = st.copy()
    if range_in(s1, b[0], b[1], n):
        out.append((s1, some(subslice(e, s1, args[0], b[0], ladd(b[1], b[0], -1)), dty)))
    s2 = st.copy()
    if s2.add_le0(ladd(ladd(n, b[1], -1), cint(1))):
        out.append((s2, none(dty)))
    s3 = st.copy()
    if not s3.ent_le(b[0], b[1]) and s3.add_le0(ladd(ladd(b[1], b[0], -1), cint(1))):
        out.append((s3, none(dty)))
    return out


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def slice_getu(e, st, ce, args, tys, dty, fp):
    if tys[1] is not None and e.p.is_int(tys[1]):
        return [(st, elemref(e, st, thin(args[0]), args[1]))]
    n = e.len_of(st, args[0])
    b = range_bounds(e, st, args[1], n)
    if b is None:
        return NI
    return [(st, subslice(e, st, args[0], b[0], ladd(b[1], b[0], -1)))]


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def slice_first(e, st, ce, args, tys, dty, fp):
    n = e.len_of(st, args[0])
    i = cint(0) if "first" in ce["p"] else ladd(n, cint(1), -1)
    out = []
    s1 = st.copy()
    if s1.add_le0(ladd(cint(1), n, -1)):
        out.append((s1, some(elemref(e, s1, thin(args[0]), i), dty)))
    s2 = st.copy()
    if s2.add_eq0(n):
        out.append((s2, none(dty)))
    return out


@model("core::slice::<impl [T]>::split_first_mut", "core::slice::<impl [T]>::split_first")
def slice_split_first(e, st, ce, args, tys, dty, fp):
    n = e.len_of(st, args[0])
    out = []
    s1 = st.copy()
    if s1.add_le0(ladd(cint(1), n, -1)):
        out.append((s1, some(tup(elemref(e, s1, thin(args[0]), cint(0)), subslice(e, s1, args[0], cint(1), ladd(n, cint(1), -1))), dty)))
    s2 = st.copy()
    if s2.add_eq0(n):
        out.append((s2, none(dty)))
    return out


@model("core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at")
def slice_split_at(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    n = e.len_of(st, args[0])
    m = args[1]
    if not st.add_le0(ladd(m, n, -1)):
        return []
    return [(st, tup(subslice(e, st, args[0], cint(0), m), subslice(e, st, args[0], m, ladd(n, m, -1))))]


@model("core::slice::<impl [T]>::swap")
def slice_swap(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    n = e.len_of(st, args[0])
    for i in args[1:3]:
        if not st.add_le0(ladd(ladd(i, n, -1), cint(1))):
            return []
    a, b = elemref(e, st, thin(args[0]), args[1]), elemref(e, st, thin(args[0]), args[2])
    va, vb = e.deref(st, a), e.deref(st, b)
    e.store(st, a, vb)
    e.store(st, b, va)
    return [(st, UNIT)]


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def slice_as_ptr(e, st, ce, args, tys, dty, fp):
    return [(st, thin(args[0]))]


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut")
def from_raw_parts(e, st, ce, args, tys, dty, fp):
    return [(st, mk("fat", args[0], args[1]))]


@model("core::slice::<impl [T]>::fill_with", "core::slice::<impl [T]>::fill")
def slice_fill(e, st, ce, args, tys, dty, fp):
    out = []
    n = e.len_of(st, args[0])
    if ce["p"].endswith("fill_with"):
        rs = e.call_value(st, args[1], [], [], None, fp + "f")
    else:
        rs = [(st.copy(), args[1])]
    for s, v in rs:
        r, p, _ = e.target(s, args[0])
        nv = mk("repeat", v, n)
        if p and p[-1][0] == "o":
            e.write_obs(s, r, p, nv)
            nv2 = e.fresh(s, "filled")
            p = p[:-1]
            e.wr(s, r, p, nv2)
        else:
            e.write_obs(s, r, p, nv)
            e.wr(s, r, p, nv)
        out.append((s, UNIT))
    return out


def sort_key(x):
    """constant sort key: integers, Reverse and tuples of them"""
    if x is None:
        return None
    if isint(x):
        return (x.a[1],)
    if x.op == "c" and x.a[0] == "bool":
        return (int(x.a[1]),)
    if x.op == "agg" and x.a[0] == "()":
        ks = [sort_key(y) for y in x.a[2]]
        return None if None in ks else sum(ks, ())
    if x.op == "agg" and x.a[0] == "core::cmp::Reverse":
        k = sort_key(x.a[2][0])
        return None if k is None else tuple(-y for y in k)
    return None


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice", "core::slice::<impl [T]>::copy_within",
       "core::slice::<impl [T]>::sort_unstable_by_key", "alloc::slice::<impl [T]>::sort_by_key", "alloc::slice::<impl [T]>::sort_by_cached_key",
       "core::slice::<impl [T]>::sort_unstable_by", "alloc::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::rotate_left",
       "core::slice::<impl [T]>::rotate_right", "core::slice::<impl [T]>::sort_unstable", "alloc::slice::<impl [T]>::sort")
def slice_scramble(e, st, ce, args, tys, dty, fp):
    """reorders or overwrites the elements of a slice: the contents are forgotten"""
    st = st.copy()
    r, p, _ = e.target(st, args[0])
    whole = not (p and p[-1][0] == "o")
    if not whole:
        p = p[:-1]
    old = e.rd(st, r, p)
    n = e.len_of(st, args[0])
    if e.EXACT and isint(n) and n.a[1] <= 3 and "::sort" in ce["p"] and whole:
        # a short list: every order is considered
        import itertools
        vs = [e.rd(st, r, p + (("e", cint(i)),)) for i in range(n.a[1])]
        out = []
        orders = itertools.permutations(vs)
        if ce["p"].endswith("_key") and len(args) > 1:
            keys = []
            for i in range(len(vs)):
                ks = e.call_value(st.copy(), args[1], [elemref(e, st, thin(args[0]), cint(i))], [None], None, fp + "k")
                keys.append(ks[0][1] if len(ks) == 1 else None)
            keys = [sort_key(x) for x in keys]
            if None not in keys and len(set(keys)) == len(keys):
                orders = [[v for _, v in sorted(zip(keys, vs), key=lambda y: y[0])]]
        for pm in orders:
            s = st.copy()
            for i, v in enumerate(pm):
                e.write_obs(s, r, p + (("e", cint(i)),), v)
                e.wr(s, r, p + (("e", cint(i)),), v)
            out.append((s, UNIT))
        return out
    nv = e.fresh(st, "perm:" + ce["p"].rsplit("::", 1)[-1], old.ty)
    e.write_obs(st, r, p, nv)
    e.wr(st, r, p, nv)
    # the key closure is analysed once for its effects
    out = [(st, UNIT)]
    return out


@model("core::slice::<impl [T]>::select_nth_unstable_by_key", "core::slice::<impl [T]>::select_nth_unstable_by", "core::slice::<impl [T]>::select_nth_unstable")
def select_nth(e, st, ce, args, tys, dty, fp):
    n = e.len_of(st, args[0])
    st = slice_scramble(e, st, ce, args, tys, dty, fp)[0][0]
    if not st.add_le0(ladd(ladd(args[1], n, -1), cint(1))):
        return []
    i = args[1]
    return [(st, tup(subslice(e, st, args[0], cint(0), i), elemref(e, st, thin(args[0]), i), subslice(e, st, args[0], ladd(i, cint(1)), ladd(ladd(n, i, -1), cint(1), -1))))]


# ---- boxes, cells ------------------------------------------------------------------------
@model("alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rc::Rc::new")
def box_new(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    h = e.alloc(st, args[0], tys[0], "box")
    r = mk("ref", h, ())
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


@model("alloc::boxed::Box::into_raw", "alloc::boxed::Box::from_raw", "alloc::boxed::Box::leak")
def box_raw(e, st, ce, args, tys, dty, fp):
    return [(st, e.unwrap_ptr(args[0]))]


@model("<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref", "<alloc::sync::Arc<T, A> as core::ops::deref::Deref>::deref")
def arc_deref(e, st, ce, args, tys, dty, fp):
    v = e.deref(st, args[0])
    if v.op in ("ref", "fat"):
        return [(st, v)]
    r = mk("aptr", v)
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


@model("<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone", "<alloc::sync::Arc<T, A> as core::clone::Clone>::clone")
def arc_clone(e, st, ce, args, tys, dty, fp):
    return [(st, e.deref(st, args[0]))]


@model("<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut",
       "<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow")
def box_deref(e, st, ce, args, tys, dty, fp):
    v = e.unwrap_ptr(e.deref(st, args[0]))
    if v.op not in ("ref", "fat", "poff"):
        # same shape as the direct MIR access (box.0.0 as *const T)
        v = e.proj(st, e.proj(st, v, ("f", 0, 0)), ("f", 0, 0))
    return [(st, v)]


@model("core::cell::RefCell::new", "core::cell::Cell::new", "core::cell::UnsafeCell::new", "core::cell::RefCell::into_inner", "core::cell::Cell::into_inner", "core::cell::UnsafeCell::into_inner")
def cell_id(e, st, ce, args, tys, dty, fp):
    return [(st, args[0])]


@model("core::cell::RefCell::borrow_mut", "core::cell::RefCell::borrow", "core::cell::RefCell::get_mut", "core::cell::UnsafeCell::get", "core::cell::Cell::as_ptr")
def cell_borrow(e, st, ce, args, tys, dty, fp):
    return [(st, args[0])]


@model("<core::cell::RefMut<'_, T> as core::ops::deref::DerefMut>::deref_mut", "<core::cell::RefMut<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::Ref<'_, T> as core::ops::deref::Deref>::deref")
def refmut_deref(e, st, ce, args, tys, dty, fp):
    return [(st, e.deref(st, args[0]))]


@model("core::cell::Cell::get")
def cell_get(e, st, ce, args, tys, dty, fp):
    return [(st, e.deref(st, args[0]))]


@model("core::cell::Cell::set")
def cell_set(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    e.store(st, args[0], args[1])
    return [(st, UNIT)]


@model("core::cell::OnceCell::new", "core::cell::once::OnceCell::new", "thread_local::ThreadLocal::new", "thread_local::ThreadLocal::with_capacity")
def once_new(e, st, ce, args, tys, dty, fp):
    return [(st, mk("agg", "TL", 0, ()))]


@model("thread_local::ThreadLocal::get_or", "thread_local::ThreadLocal::get_or_try", "core::cell::once::OnceCell::get_or_init", "core::cell::once::OnceCell::get_or_try_init", "thread_local::ThreadLocal::get_or_default")
def tl_get_or(e, st, ce, args, tys, dty, fp):
    tr = "try" in ce["p"]
    v = e.deref(st, args[0])
    if v.op == "agg" and v.a[0] == "TL" and v.a[1] == 1:
        r = v.a[2][0]
        return [(st, ok(r, dty) if tr else r)]
    out = []
    rs = e.call_value(st, args[1], [], [], None, fp + "i")
    for s, x in rs:
        if tr:
            if s.variant(x) == 1 or (x.op == "agg" and x.a[1] == 1):
                out.append((s, err(e.proj(s, x, ("f", 1, 0)), dty)))
                continue
            if s.variant(x) is None:
                s2 = s.copy()
                if s2.restrict_variants(x, [1]):
                    out.append((s2, err(e.proj(s2, x, ("f", 1, 0)), dty)))
                if not s.restrict_variants(x, [0]):
                    continue
            x = e.proj(s, x, ("f", 0, 0))
        h = e.alloc(s, x, x.ty, "tl")
        r = mk("ref", h, ())
        rt, pt, _ = e.target(s, args[0])
        e.wr(s, rt, pt, mk("agg", "TL", 1, (r,)))
        out.append((s, ok(r, dty) if tr else r))
    return out


@model("<thread_local::ThreadLocal<T> as core::iter::traits::collect::IntoIterator>::into_iter")
def tl_into_iter(e, st, ce, args, tys, dty, fp):
    v = args[0]
    if v.op == "agg" and v.a[0] == "TL":
        if v.a[1] == 0:
            return [(st, mk("iter", "empty"))]
        return [(st, mk("iter", "tl", v.a[2][0]))]
    return [(st, mk("iter", "opaque", e.fresh(st, "tliter")))]


# ---- MaybeUninit / ManuallyDrop are transparent ---------------------------------------------
@model("core::mem::maybe_uninit::MaybeUninit::uninit")
def mu_uninit(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    return [(st, e.fresh(st, "uninit", targ(e, dty)))]


@model("core::mem::maybe_uninit::MaybeUninit::new", "core::mem::maybe_uninit::MaybeUninit::assume_init", "core::mem::maybe_uninit::MaybeUninit::as_mut_ptr",
       "core::mem::maybe_uninit::MaybeUninit::as_ptr", "core::mem::maybe_uninit::MaybeUninit::assume_init_ref", "core::mem::maybe_uninit::MaybeUninit::assume_init_mut",
       "core::mem::manually_drop::ManuallyDrop::new", "core::mem::manually_drop::ManuallyDrop::into_inner",
       "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref", "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut",
       "<I as core::iter::traits::collect::IntoIterator>::into_iter", "core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def ident(e, st, ce, args, tys, dty, fp):
    return [(st, args[0])]


@model("core::mem::manually_drop::ManuallyDrop::take")
def md_take(e, st, ce, args, tys, dty, fp):
    return [(st, e.deref(st, args[0]))]


@model("core::mem::manually_drop::ManuallyDrop::drop", "core::ptr::drop_in_place")
def md_drop(e, st, ce, args, tys, dty, fp):
    if not (e.DROPS and ce.get("g")):
        return [(st, UNIT)]
    st = st.copy()
    r, pth, _ = e.target(st, args[0])
    return [(s, UNIT) for s in e.drop_place(st, r, pth, ce["g"][0], fp)]


@model("core::mem::forget")
def mem_forget(e, st, ce, args, tys, dty, fp):
    return [(st, UNIT)]


@model("core::mem::drop")
def mem_drop(e, st, ce, args, tys, dty, fp):
    if not (e.DROPS and tys and e.drops_local(tys[0])):
        return [(st, UNIT)]
    st = st.copy()
    r = e.alloc(st, args[0], tys[0])
    r = r.a[0] if r.op == 'ref' else r
    return [(s, UNIT) for s in e.drop_place(st, r, (), tys[0], fp)]


@model("core::mem::maybe_uninit::MaybeUninit::write")
def mu_write(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    e.store(st, args[0], args[1])
    return [(st, args[0])]


@model("core::mem::replace")
def mem_replace(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    old = e.deref(st, args[0])
    if old.ty is None and old.op != "c":
        old.ty = dty
    e.store(st, args[0], args[1])
    return [(st, old)]


@model("core::mem::swap")
def mem_swap(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    e.store(st, args[0], b)
    e.store(st, args[1], a)
    return [(st, UNIT)]


@model("core::ptr::const_ptr::<impl *const T>::is_null", "core::ptr::mut_ptr::<impl *mut T>::is_null")
def is_null(e, st, ce, args, tys, dty, fp):
    v = args[0]
    if v.op in ("ref", "fat"):
        return [(st, FALSE)]
    if v.op == "addr":
        return [(st, cbool(v.a[0] == 0))]
    return [(st, mk("isnull", v))]


@model("core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add", "core::ptr::const_ptr::<impl *const T>::offset", "core::ptr::mut_ptr::<impl *mut T>::offset",
       "core::ptr::const_ptr::<impl *const T>::wrapping_add", "core::ptr::mut_ptr::<impl *mut T>::wrapping_add")
def ptr_add(e, st, ce, args, tys, dty, fp):
    return [(st, offset(e, st, args[0], args[1]))]


@model("core::ptr::const_ptr::<impl *const T>::cast", "core::ptr::mut_ptr::<impl *mut T>::cast", "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::const_ptr::<impl *const T>::cast_mut",
       "core::ptr::non_null::NonNull::as_ptr", "core::ptr::non_null::NonNull::new_unchecked", "core::ptr::non_null::NonNull::cast", "core::ptr::unique::Unique::as_ptr")
def ptr_cast(e, st, ce, args, tys, dty, fp):
    return [(st, e.unwrap_ptr(args[0]))]


@model("core::ptr::read_volatile", "core::ptr::read", "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read")
def ptr_read(e, st, ce, args, tys, dty, fp):
    r, p, _ = e.target(st, args[0], dty)
    if e.obs_read is not None:
        e.obs_read(st, r, p, e.fr)
    v = e.rd(st, r, p)
    if v.ty is None and v.op != "c":
        v.ty = dty
    return [(st, v)]


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def ptr_write(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    e.store(st, args[0], args[1])
    return [(st, UNIT)]


@model("core::ptr::const_ptr::<impl *const T>::as_ref", "core::ptr::mut_ptr::<impl *mut T>::as_mut", "core::ptr::mut_ptr::<impl *mut T>::as_ref")
def ptr_as_ref(e, st, ce, args, tys, dty, fp):
    v = args[0]
    if v.op in ("ref", "fat"):
        return [(st, some(v, dty))]
    c = mk("isnull", v)
    out = []
    s1 = st.copy()
    if s1.assume(c, True):
        out.append((s1, none(dty)))
    s2 = st.copy()
    if s2.assume(c, False):
        out.append((s2, some(v, dty)))
    return out


@model("core::mem::size_of")
def size_of(e, st, ce, args, tys, dty, fp):
    g = ce.get("g")
    if g and isinstance(g[0], int):
        s = e.p.ty(g[0]).get("size")
        if s is not None:
            return [(st, cint(s))]
    return NI


# ---- panics ---------------------------------------------------------------------------------
for _n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_nounwind", "core::panicking::panic_bounds_check",
           "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "std::process::abort", "core::panicking::assert_failed",
           "core::panicking::panic_explicit", "std::rt::begin_panic", "core::slice::index::slice_index_fail", "alloc::raw_vec::handle_error", "alloc::alloc::handle_alloc_error"):
    MODELS[_n] = lambda e, st, ce, args, tys, dty, fp: []

# ---- scalars ---------------------------------------------------------------------------------
PURE = set()
for _t in ("f32", "f64"):
    for _m in ("abs", "min", "max", "clamp", "mul_add", "powf", "powi", "sqrt", "floor", "ceil", "round", "exp", "ln", "cbrt", "trunc", "signum", "to_bits", "total_cmp"):
        PURE.add("core::%s::<impl %s>::%s" % (_t, _t, _m))
        PURE.add("std::%s::<impl %s>::%s" % (_t, _t, _m))


def pure(e, st, ce, args, tys, dty, fp):
    from engine import norm
    nm = norm(ce.get("rp") or ce["p"])
    short = nm.rsplit("::", 1)[-1]
    if short == "total_cmp":
        args = [e.deref(st, a) for a in args]
    if all(isfloat(a) for a in args):
        if short == "abs":
            return [(st, cfloat(abs(fval(args[0])), int(args[0].a[0][1:])))]
        if short in ("min", "max"):
            x, y = fval(args[0]), fval(args[1])
            r = y if x != x else x if y != y else (min(x, y) if short == "min" else max(x, y))
            return [(st, cfloat(r, int(args[0].a[0][1:])))]
    r = mk("app", short, tuple(args))
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


for _n in PURE:
    MODELS[_n] = pure

SSE = ("_mm_add_ps", "_mm_loadu_ps", "_mm_max_ps", "_mm_mul_ps", "_mm_shuffle_ps", "_mm_storeu_ps", "_mm_sub_ps", "_mm_sub_ss", "_mm_movehl_ps", "_mm_add_ss", "_mm_cvtss_f32")


@model(*["core::core_arch::x86::sse::" + s for s in SSE])
def sse(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    if ce["p"].endswith("storeu_ps"):
        e.havoc(st, args[0], tys[0])
        return [(st, UNIT)]
    return [(st, e.fresh(st, "simd", dty))]


@model("core::num::<impl u8>::saturating_sub", "core::num::<impl u16>::saturating_sub", "core::num::<impl u32>::saturating_sub", "core::num::<impl usize>::saturating_sub", "core::num::<impl u64>::saturating_sub")
def sat_sub(e, st, ce, args, tys, dty, fp):
    if isint(args[0]) and isint(args[1]):
        return [(st, cint(max(0, args[0].a[1] - args[1].a[1])))]
    r = mk("satsub", args[0], args[1])
    r.ty = dty
    return [(st, r)]


@model(*["core::num::<impl %s>::saturating_%s" % (t, o) for t in ("u8", "u16", "u32", "u64", "usize") for o in ("add", "mul")])
def sat_add(e, st, ce, args, tys, dty, fp):
    m = ladd(*args) if ce["p"].endswith("add") else lmul(*args)
    r = imin(m, cint(e.p.int_range(dty)[1]))
    if r.ty is None and r.op != "c":
        r.ty = dty
    return [(st, r)]


@model(*["core::num::<impl %s>::wrapping_%s" % (t, o) for t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "i16", "i8") for o in ("add", "mul", "sub")])
def wrapping(e, st, ce, args, tys, dty, fp):
    o = ce["p"].rsplit("_", 1)[-1]
    m = ladd(*args) if o == "add" else ladd(args[0], args[1], -1) if o == "sub" else lmul(*args)
    if isint(m):
        return [(st, e.fit(st, m, dty))]
    return [(st, e.fit_strict(st, m, e.p.int_range(dty)))]


@model(*["core::num::<impl %s>::checked_%s" % (t, o) for t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64") for o in ("add", "mul", "sub")])
def checked(e, st, ce, args, tys, dty, fp):
    o = ce["p"].rsplit("_", 1)[-1]
    m = ladd(*args) if o == "add" else ladd(args[0], args[1], -1) if o == "sub" else lmul(*args)
    rg = e.p.int_range(tys[0])
    out = []
    s1 = st.copy()
    if s1.add_le0(ladd(m, cint(rg[1]), -1)) and s1.add_le0(ladd(cint(rg[0]), m, -1)):
        out.append((s1, some(m, dty)))
    for L in (ladd(cint(rg[1] + 1), m, -1), ladd(m, cint(1 - rg[0]))):
        s2 = st.copy()
        if s2.add_le0(L):
            out.append((s2, none(dty)))
    return out


@model(*["core::num::<impl %s>::overflowing_%s" % (t, o) for t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64") for o in ("add", "mul", "sub")])
def overflowing(e, st, ce, args, tys, dty, fp):
    o = ce["p"].rsplit("_", 1)[-1]
    return [(st, e.intop(st, {"add": "AddWithOverflow", "mul": "MulWithOverflow", "sub": "SubWithOverflow"}[o], args[0], args[1], tys[0]))]


# ---- strings, formatting, hashing: no effect on what we track ----------------------------------
OPAQUE_PURE = ("alloc::fmt::format", "core::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_debug",
               "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const",
               "alloc::ffi::c_str::CString::new", "<alloc::ffi::c_str::CString as core::ops::deref::Deref>::deref", "core::ffi::c_str::CStr::as_ptr", "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
               "<alloc::string::String as core::ops::deref::Deref>::deref", "std::thread::functions::available_parallelism")


@model(*OPAQUE_PURE)
def opaque_pure(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    return [(st, e.fresh(st, "call:" + ce["p"], dty))]


# ---- iterators --------------------------------------------------------------------------------
def it_kind(v):
    if v.op == "iter":
        return v.a[0]
    if v.op == "agg" and v.a[0] in ("core::ops::range::Range", "core::ops::range::RangeFrom", "core::ops::range::RangeInclusive"):
        return v.a[0].rsplit("::", 1)[-1]
    return None


def itnext(e, st, it, fp, back=False, ity=None):
    """-> [(state, new iterator, item or None)]"""
    k = it_kind(it)
    I = lambda *a: mk("iter", *a)
    out = []
    if k == "slice":
        _, t, lo, hi = it.a
        s1 = st.copy()
        if s1.add_le0(ladd(ladd(lo, hi, -1), cint(1))):
            if back:
                h2 = ladd(hi, cint(1), -1)
                out.append((s1, I("slice", t, lo, h2), elemref(e, s1, t, h2)))
            else:
                out.append((s1, I("slice", t, ladd(lo, cint(1)), hi), elemref(e, s1, t, lo)))
        s2 = st.copy()
        if s2.add_le0(ladd(hi, lo, -1)):
            out.append((s2, it, None))
        return out
    if k == "vecinto":
        _, h, lo, hi = it.a
        s1 = st.copy()
        if s1.add_le0(ladd(ladd(lo, hi, -1), cint(1))):
            i = ladd(hi, cint(1), -1) if back else lo
            out.append((s1, I("vecinto", h, lo if back else ladd(lo, cint(1)), i if back else hi), e.rd(s1, h, (("e", i),))))
        s2 = st.copy()
        if s2.add_le0(ladd(hi, lo, -1)):
            out.append((s2, it, None))
        return out
    if k == "Range":
        lo, hi = it.a[2]
        s1 = st.copy()
        if s1.add_le0(ladd(ladd(lo, hi, -1), cint(1))):
            if back:
                h2 = ladd(hi, cint(1), -1)
                n = mk("agg", it.a[0], 0, (lo, h2))
                item = h2
            else:
                n = mk("agg", it.a[0], 0, (ladd(lo, cint(1)), hi))
                item = lo
            n.ty = it.ty
            out.append((s1, n, item))
        s2 = st.copy()
        if s2.add_le0(ladd(hi, lo, -1)):
            out.append((s2, it, None))
        return out
    if k == "RangeFrom":
        lo = it.a[2][0]
        n = mk("agg", it.a[0], 0, (ladd(lo, cint(1)),))
        n.ty = it.ty
        return [(st.copy(), n, lo)]
    if k == "RangeInclusive":
        lo, hi, ex = it.a[2]
        if ex is TRUE:
            return [(st.copy(), it, None)]
        s1 = st.copy()
        if s1.add_le0(ladd(ladd(lo, hi, -1), cint(1))):
            n = mk("agg", it.a[0], 0, ((lo, ladd(hi, cint(1), -1)) if back else (ladd(lo, cint(1)), hi)) + (FALSE,))
            n.ty = it.ty
            out.append((s1, n, hi if back else lo))
        s3 = st.copy()
        if s3.add_eq0(ladd(lo, hi, -1)):
            n = mk("agg", it.a[0], 0, (lo, hi, TRUE))
            n.ty = it.ty
            out.append((s3, n, lo))
        s2 = st.copy()
        if s2.add_le0(ladd(ladd(hi, lo, -1), cint(1))):
            out.append((s2, it, None))
        return out
    if k == "chunks":
        _, t, i, n, size, exact = it.a
        off = lmul(i, size)
        s1 = st.copy()
        rest = ladd(n, off, -1)
        if exact:
            c_in, c_out = ladd(size, rest, -1), ladd(ladd(rest, size, -1), cint(1))
        else:
            c_in, c_out = ladd(cint(1), rest, -1), rest
        if s1.add_le0(c_in):
            ln = size if exact else imin(size, rest)
            out.append((s1, I("chunks", t, ladd(i, cint(1)), n, size, exact), mk("fat", offset(e, s1, t, off), ln)))
        s2 = st.copy()
        if s2.add_le0(c_out):
            out.append((s2, it, None))
        return out
    if k == "enumerate":
        _, inner, n = it.a
        for s, it2, x in itnext(e, st, inner, fp, back):
            out.append((s, I("enumerate", it2, ladd(n, cint(1)) if x is not None else n), None if x is None else tup(n, x)))
        return out
    if k == "counted":
        _, inner, n = it.a
        for s, it2, x in itnext(e, st, inner, fp):
            if x is None:
                if s.add_eq0(n):
                    out.append((s, I(k, it2, n), None))
            elif s.add_le0(ladd(cint(1), n, -1)):
                out.append((s, I(k, it2, ladd(n, cint(1), -1)), x))
        return out
    if k == "zip":
        _, a, b = it.a
        for s, a2, x in itnext(e, st, a, fp + "a"):
            if x is None:
                out.append((s, I("zip", a2, b), None))
                continue
            for s2, b2, y in itnext(e, s, b, fp + "b"):
                out.append((s2, I("zip", a2, b2), None if y is None else tup(x, y)))
        return out
    if k in ("map", "filter_map", "filter", "inspect"):
        _, inner, f = it.a
        if k in ("filter", "filter_map") and e.EXACT and not back and (most(inner) or 99) <= 8:
            # an iterator known to be short is filtered one element at a time
            todo = [(st, inner)]
            while todo:
                s0, i0 = todo.pop()
                for s, it2, x in itnext(e, s0, i0, fp):
                    if x is None:
                        out.append((s, I(k, it2, f), None))
                    elif k == "filter":
                        h = e.alloc(s, x, x.ty, "fi")
                        for s2, r in e.call_value(s, f, [mk("ref", h, ())], [None], None, fp + "c"):
                            s3 = s2.copy()
                            if s2.assume(r, True):
                                out.append((s2, I(k, it2, f), x))
                            if s3.assume(r, False):
                                todo.append((s3, it2))
                    else:
                        for s2, r in e.call_value(s, f, [x], [None], None, fp + "c"):
                            s3 = s2.copy()
                            v = s2.variant(r)
                            if v == 1 or v is None and s2.restrict_variants(r, [1]):
                                out.append((s2, I(k, it2, f), e.proj(s2, r, ("f", 1, 0))))
                            if v == 0 or v is None and s3.restrict_variants(r, [0]):
                                todo.append((s3, it2))
            return out
        if k in ("filter", "filter_map"):
            inner2 = skip_unknown(e, st, inner, fp)
            if inner2 is None:
                return opaque_next(e, st, it, ity)
            st, inner2 = inner2
            s0 = st.copy()
            out.append((s0, it, None))
            for s, it2, x in itnext(e, st, inner2, fp):
                if x is None:
                    continue
                if k == "filter":
                    if x.ty is None and x.op != "c":
                        pass
                    h = e.alloc(s, x, x.ty, "fi")
                    for s2, r in e.call_value(s, f, [mk("ref", h, ())], [None], None, fp + "c"):
                        if s2.assume(r, True):
                            out.append((s2, I(k, it2, f), x))
                else:
                    for s2, r in e.call_value(s, f, [x], [None], None, fp + "c"):
                        v = s2.variant(r)
                        if v == 0:
                            continue
                        if v is None and not s2.restrict_variants(r, [1]):
                            continue
                        out.append((s2, I(k, it2, f), e.proj(s2, r, ("f", 1, 0))))
            return out
        for s, it2, x in itnext(e, st, inner, fp, back):
            if x is None:
                out.append((s, I(k, it2, f), None))
                continue
            for s2, r in e.call_value(s, f, [x], [None], ity, fp + "c"):
                out.append((s2, I(k, it2, f), r))
        return out
    if k in ("copied", "cloned"):
        for s, it2, x in itnext(e, st, it.a[1], fp, back):
            out.append((s, I(k, it2), None if x is None else e.deref(s, x)))
        return out
    if k == "fuse":
        for s, it2, x in itnext(e, st, it.a[1], fp, back):
            out.append((s, I(k, it2), x))
        return out
    if k == "rev":
        for s, it2, x in itnext(e, st, it.a[1], fp, not back):
            out.append((s, I(k, it2), x))
        return out
    if k == "take":
        _, inner, n = it.a
        s1 = st.copy()
        if s1.add_le0(ladd(cint(1), n, -1)):
            for s, it2, x in itnext(e, s1, inner, fp):
                out.append((s, I(k, it2, ladd(n, cint(1), -1)), x))
        s2 = st.copy()
        if s2.add_eq0(n):
            out.append((s2, it, None))
        return out
    if k == "peekable":
        _, inner, pk = it.a
        if pk.op == "agg" and pk.a[1] == 1:
            x = pk.a[2][0]
            return [(st, I(k, inner, none()), x.a[2][0] if x.op == "agg" and x.a[1] == 1 else None)]
        for s, it2, x in itnext(e, st, inner, fp):
            out.append((s, I(k, it2, pk), x))
        return out
    if k == "chain":
        _, a, b = it.a
        if a is not UNIT:
            for s, a2, x in itnext(e, st, a, fp + "a"):
                if x is not None:
                    out.append((s, I(k, a2, b), x))
                else:
                    for s2, b2, y in itnext(e, s, b, fp + "b"):
                        out.append((s2, I(k, UNIT, b2), y))
            return out
        for s2, b2, y in itnext(e, st, b, fp + "b"):
            out.append((s2, I(k, UNIT, b2), y))
        return out
    if k == "repeat":
        return [(st, it, it.a[1])]
    if k == "once":
        return [(st, I("empty"), it.a[1])]
    if k == "empty":
        return [(st, it, None)]
    if k == "tl":
        s1 = st.copy()
        return [(s1, it, e.deref(s1, it.a[1])), (st.copy(), it, None)]
    if k == "skip":
        _, inner, n = it.a
        cons = []
        i2 = skip_by(e, cons, inner, n) if not back else None
        if i2 is not None:
            s1 = st.copy()
            if all([s1.add_le0(x) for x in cons]):
                out += itnext(e, s1, i2, fp)
            s1 = st.copy()          # fewer elements than are to be skipped
            if len(cons) != 1 or s1.add_le0(ladd(cint(1), cons[0], -1)):
                out.append((s1, I("empty"), None))
            return out
        r = skip_unknown(e, st, inner, fp)
        if r is None:
            return opaque_next(e, st, it, ity)
        s, inner2 = r
        return itnext(e, s, inner2, fp)
    if k == "opaque":
        return opaque_next(e, st, it, ity)
    from engine import Giveup
    raise Giveup("iterator " + str(k))


def opaque_next(e, st, it, ity):
    s1 = st.copy()
    return [(s1, it, e.fresh(s1, "item", ity)), (st.copy(), it, None)]


def skip_unknown(e, st, it, fp):
    """advance an iterator by an unknown number of elements -> (state, it) or None"""
    k = it_kind(it)
    st = st.copy()

    def adv(lo, hi):
        n = e.fresh(st, "skip", e.p.tyid("usize"), site=(e.pos, fp))
        st.add_le0(ladd(lo, n, -1))
        if hi is not None:
            st.add_le0(ladd(n, imax_term(lo, hi, e), -1))
        return n
    if k in ("slice", "vecinto"):
        n = adv(it.a[2], it.a[3])
        return st, mk("iter", k, it.a[1], n, it.a[3])
    if k == "Range":
        n = adv(it.a[2][0], it.a[2][1])
        r = mk("agg", it.a[0], 0, (n, it.a[2][1]))
        r.ty = it.ty
        return st, r
    if k == "chunks":
        n = e.fresh(st, "skip", e.p.tyid("usize"), site=(e.pos, fp))
        st.add_le0(ladd(it.a[2], n, -1))
        return st, mk("iter", "chunks", it.a[1], n, *it.a[3:])
    if k == "enumerate":
        base = it.a[1]
        if it_kind(base) in ("slice", "vecinto"):
            n = adv(base.a[2], base.a[3])
            d = ladd(n, base.a[2], -1)
            return st, mk("iter", k, mk("iter", it_kind(base), base.a[1], n, base.a[3]), ladd(it.a[2], d))
    if k in ("copied", "cloned", "map", "fuse", "peekable"):
        r = skip_unknown(e, st, it.a[1], fp)
        if r is None:
            return None
        return r[0], mk("iter", k, r[1], *it.a[2:])
    if k in ("filter", "filter_map"):
        return st, it
    if k in ("opaque", "tl", "repeat"):
        return st, it
    if k in ("zip", "enumerate", "take"):
        d = e.fresh(st, "skip", e.p.tyid("usize"), site=(e.pos, fp))
        st.add_le0(ladd(cint(0), d, -1))
        cons = []
        r = skip_by(e, cons, it, d)
        if r is None:
            return None
        for x in cons:
            st.add_le0(x)
        return st, r
    return None


def skip_by(e, cons, it, d):
    """advance an iterator by d elements, which it has if the terms added to `cons` are <= 0 -> it or None"""
    k = it_kind(it)
    if k in ("slice", "vecinto"):
        n = ladd(it.a[2], d)
        cons.append(ladd(n, it.a[3], -1))
        return mk("iter", k, it.a[1], n, it.a[3])
    if k == "Range":
        n = ladd(it.a[2][0], d)
        cons.append(ladd(n, it.a[2][1], -1))
        r = mk("agg", it.a[0], 0, (n, it.a[2][1]))
        r.ty = it.ty
        return r
    if k in ("enumerate", "take"):
        i = skip_by(e, cons, it.a[1], d)
        if i is None:
            return None
        if k == "take":
            cons.append(ladd(d, it.a[2], -1))
        return mk("iter", k, i, ladd(it.a[2], d, 1 if k == "enumerate" else -1))
    if k in ("copied", "cloned", "map", "fuse"):
        i = skip_by(e, cons, it.a[1], d)
        return None if i is None else mk("iter", k, i, *it.a[2:])
    if k == "zip":
        a = skip_by(e, cons, it.a[1], d)
        b = skip_by(e, cons, it.a[2], d) if a is not None else None
        return None if b is None else mk("iter", k, a, b)
    if k == "repeat":
        return it
    return None


def most(it):
    """constant upper bound of the number of remaining items, or None"""
    k = it_kind(it)
    if k in ("slice", "vecinto"):
        d = ladd(it.a[3], it.a[2], -1)
        return d.a[1] if isint(d) else None
    if k == "Range":
        d = ladd(it.a[2][1], it.a[2][0], -1)
        return d.a[1] if isint(d) else None
    if k in ("map", "copied", "cloned", "rev", "enumerate", "fuse", "filter", "filter_map", "inspect"):
        return most(it.a[1])
    if k == "take":
        ns = [n for n in (most(it.a[1]), it.a[2].a[1] if isint(it.a[2]) else None) if n is not None]
        return min(ns) if ns else None
    if k == "zip":
        ns = [n for n in (most(it.a[1]), most(it.a[2])) if n is not None]
        return min(ns) if ns else None
    return None


def imax_term(a, b, e):
    r = imax(a, b)
    if r.ty is None and r.op != "c":
        r.ty = e.p.tyid("usize")
    return r


def itlen(e, st, it):
    """exact number of remaining items, or None"""
    k = it_kind(it)
    if k in ("slice", "vecinto"):
        return ladd(it.a[3], it.a[2], -1)
    if k == "Range":
        d = ladd(it.a[2][1], it.a[2][0], -1)
        if st.ent_le0(lmul(d, cint(-1))):
            return d
        return None
    if k in ("map", "copied", "cloned", "rev", "enumerate", "fuse"):
        return itlen(e, st, it.a[1])
    if k == "take":
        if it_kind(it.a[1]) == "repeat":
            return it.a[2]
        n = itlen(e, st, it.a[1])
        return None if n is None else imin(n, it.a[2])
    if k == "zip":
        a, b = itlen(e, st, it.a[1]), itlen(e, st, it.a[2])
        if a is None or b is None:
            return a if it_kind(it.a[2]) == "repeat" else b if it_kind(it.a[1]) == "repeat" else None
        return imin(a, b)
    if k == "counted":
        return it.a[2]
    return None


def read_iter(e, st, ref):
    r, p, _ = e.target(st, ref)
    v = e.rd(st, r, p)
    return r, p, v


@model(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next(e, st, ce, args, tys, dty, fp):
    r, p, v = read_iter(e, st, args[0])
    if it_kind(v) is None:
        return NI
    ity = targ(e, dty)
    out = []
    for s, it2, x in itnext(e, st, v, fp, ce["p"].endswith("back"), ity):
        e.wr(s, r, p, it2)
        if x is not None and x.ty is None and x.op != "c":
            x.ty = ity
        out.append((s, none(dty) if x is None else some(x, dty)))
    return out


def adaptor(kind):
    def f(e, st, ce, args, tys, dty, fp):
        if it_kind(args[0]) is None:
            return NI
        r = mk("iter", kind, *args)
        if r.ty is None:
            r.ty = dty
        return [(st, r)]
    return f


def counted(e, st, it, fp):
    """a filter whose predicate has no captures, over memory that is borrowed: the number of elements it lets through is
    a term shared by every filter with the same predicate over the same contents"""
    _, inner, f = it.a
    if it_kind(inner) != "slice" or f.op != "agg" or f.a[2]:
        return it
    x = mk("sym", "elem", "cnt")
    try:
        rs = e.call_value(State(), f, [mk("ref", mk("D", mk("sym", "elemref", "cnt")), ())], [None], None, fp + "n")
    except Exception as g:
        if type(g).__name__ != "Giveup":
            raise
        return it
    if len(rs) != 1 or any(y.op == "phi" or y.op == "sym" and y.a[0] not in ("elemref",) for y in subterms(rs[0][1])):
        return it
    r, p, _ = e.target(st, inner.a[1])
    n = mk("cnt", rs[0][1], e.rd(st, r, p), inner.a[2], inner.a[3])
    n.ty = e.p.tyid("usize")
    st.add_le0(ladd(n, ladd(inner.a[3], inner.a[2], -1), -1))
    return mk("iter", "counted", it, n)


@model(IT + "filter")
def it_filter(e, st, ce, args, tys, dty, fp):
    if it_kind(args[0]) is None:
        return NI
    r = mk("iter", "filter", *args)
    if e.COUNTS:
        st = st.copy()
        r = counted(e, st, r, fp)
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


for _k in ("map", "filter_map", "copied", "cloned", "fuse", "rev", "take", "inspect"):
    MODELS[IT + _k] = adaptor(_k)


@model(IT + "enumerate")
def it_enumerate(e, st, ce, args, tys, dty, fp):
    if it_kind(args[0]) is None:
        return NI
    return [(st, mk("iter", "enumerate", args[0], cint(0)))]


@model(IT + "peekable")
def it_peekable(e, st, ce, args, tys, dty, fp):
    if it_kind(args[0]) is None:
        return NI
    return [(st, mk("iter", "peekable", args[0], none()))]


@model("core::iter::adapters::peekable::Peekable::peek")
def it_peek(e, st, ce, args, tys, dty, fp):
    r, p, v = read_iter(e, st, args[0])
    if it_kind(v) != "peekable":
        return NI
    _, inner, pk = v.a
    out = []
    rs = [(st.copy(), v, pk.a[2][0])] if pk.op == "agg" and pk.a[1] == 1 else None
    if rs is None:
        rs = []
        for s, it2, x in itnext(e, st, inner, fp):
            o = none() if x is None else some(x)
            nv = mk("iter", "peekable", it2, some(o))
            e.wr(s, r, p, nv)
            rs.append((s, nv, o))
    for s, nv, o in rs:
        if o.op == "agg" and o.a[1] == 0:
            out.append((s, none(dty)))
        else:
            h = e.alloc(s, o.a[2][0], None, "pk")
            out.append((s, some(mk("ref", h, ()), dty)))
    return out


@model(IT + "zip", "core::iter::adapters::zip::zip")
def it_zip(e, st, ce, args, tys, dty, fp):
    if it_kind(args[0]) is None:
        return NI
    b = to_iter(e, st, args[1], tys[1])
    if b is None:
        return NI
    return [(st, mk("iter", "zip", args[0], b))]


@model(IT + "chain")
def it_chain(e, st, ce, args, tys, dty, fp):
    if it_kind(args[0]) is None:
        return NI
    b = to_iter(e, st, args[1], tys[1])
    if b is None:
        return NI
    return [(st, mk("iter", "chain", args[0], b))]


@model(IT + "skip")
def it_skip(e, st, ce, args, tys, dty, fp):
    it, n = args
    k = it_kind(it)
    if k is None:
        return NI
    if k in ("slice", "vecinto"):
        return [(st, mk("iter", k, it.a[1], imin_u(e, ladd(it.a[2], n), it.a[3]), it.a[3]))]
    if k == "enumerate" and it_kind(it.a[1]) == "slice":
        b = it.a[1]
        lo = imin_u(e, ladd(b.a[2], n), b.a[3])
        return [(st, mk("iter", k, mk("iter", "slice", b.a[1], lo, b.a[3]), ladd(it.a[2], ladd(lo, b.a[2], -1))))]
    return [(st, mk("iter", "skip", it, n))]


def imin_u(e, a, b):
    r = imin(a, b)
    if r.ty is None and r.op != "c":
        r.ty = e.p.tyid("usize")
    return r


@model("core::iter::sources::repeat::repeat")
def it_repeat(e, st, ce, args, tys, dty, fp):
    return [(st, mk("iter", "repeat", args[0]))]


@model("core::iter::sources::once::once")
def it_once(e, st, ce, args, tys, dty, fp):
    return [(st, mk("iter", "once", args[0]))]


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def slice_iter(e, st, ce, args, tys, dty, fp):
    r = mk("iter", "slice", thin(args[0]), cint(0), e.len_of(st, args[0]))
    if r.ty is None:
        r.ty = dty
    return [(st, r)]


@model("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_mut", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks_exact_mut",
       "rayon::slice::ParallelSliceMut::par_chunks_mut", "rayon::slice::ParallelSlice::par_chunks", "rayon::slice::ParallelSliceMut::par_chunks_exact_mut")
def slice_chunks(e, st, ce, args, tys, dty, fp):
    st = st.copy()
    if not st.add_ne0(args[1]):
        return []
    a = args[0]
    n = e.len_of(st, a)
    return [(st, mk("iter", "chunks", thin(a), cint(0), n, args[1], "exact" in ce["p"]))]


def to_iter(e, st, v, ty):
    if it_kind(v) is not None:
        return v
    if v.op == "vec":
        return mk("iter", "vecinto", v.a[0], cint(0), v.a[1])
    t = e.p.ty(ty) if ty is not None else None
    if t is not None and t["k"] == "ref":
        et = e.p.ty(t["e"])
        if et["k"] == "slice":
            return mk("iter", "slice", thin(v), cint(0), e.len_of(st, v))
        if et["k"] == "array":
            return mk("iter", "slice", v, cint(0), cint(et["n"]) if isinstance(et.get("n"), int) else mk("len", v))
        if et["k"] == "struct" and et["name"] in ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec"):
            r, p, vv, h, n = vec_ref(e, st, v)
            sl = slice_of(h, n)
            return mk("iter", "slice", sl.a[0], cint(0), n)
    if t is not None and t["k"] == "struct" and t["name"] in ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec"):
        h, n = as_vec(e, v)
        return mk("iter", "vecinto", h, cint(0), n)
    if t is not None and t["k"] == "array" and isinstance(t.get("n"), int):
        h = e.alloc(st, v, ty, "arrit")
        return mk("iter", "vecinto", h, cint(0), cint(t["n"]))
    return None


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(e, st, ce, args, tys, dty, fp):
    nm = ce.get("rp") or ce["p"]
    if "HashMap" in nm or "HashSet" in nm:
        st = st.copy()
        return [(st, mk("iter", "opaque", args[0]))]
    it = to_iter(e, st, args[0], tys[0])
    if it is None:
        t = e.p.ty(tys[0]) if tys[0] is not None else {"k": "?"}
        if t["k"] == "array" and isinstance(t.get("n"), int):
            st = st.copy()
            h = e.alloc(st, args[0], tys[0], "arrit")
            return [(st, mk("iter", "vecinto", h, cint(0), cint(t["n"])))]
        return NI
    return [(st, it)]


@model("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::iter", "std::collections::hash::map::HashMap::keys", "std::collections::hash::set::HashSet::iter",
       "std::collections::hash::map::HashMap::values_mut", "std::collections::hash::map::HashMap::iter_mut", "std::collections::hash::map::HashMap::drain")
def hash_iter(e, st, ce, args, tys, dty, fp):
    return [(st, mk("iter", "opaque", args[0]))]


@model("std::collections::hash::set::HashSet::len", "std::collections::hash::map::HashMap::len")
def hash_len(e, st, ce, args, tys, dty, fp):
    return [(st, mk("len", e.deref(st, args[0])))]


@model("std::collections::hash::set::HashSet::is_empty", "std::collections::hash::map::HashMap::is_empty")
def hash_empty(e, st, ce, args, tys, dty, fp):
    return [(st, mkeq0(mk("len", e.deref(st, args[0]))))]


# ---- consumers ---------------------------------------------------------------------------------
def consume(e, st, it, fp, init, body, ity=None):
    """fold over it: body(state, acc, item) -> ([(state, acc)], [(state, result)]) ; -> [(state, acc)], early [(state, result)]"""
    R = mk("L", fp + "#it", 0)
    A = mk("L", fp + "#it", 1)
    st = st.copy()
    st.mem[R] = it
    st.mem[A] = init
    X = mk("L", fp + "#it", 2)

    def step(states):
        back, ex = [], []
        for s in e.limit(states, (fp, "consume")):
            cur = s.mem[R]
            for s2, it2, x in itnext(e, s, cur, fp + "n", False, ity):
                s2.mem[R] = it2
                if x is None:
                    ex.append((("end",), s2))
                    continue
                if x.ty is None and x.op != "c":
                    x.ty = ity
                cont, early = body(s2, s2.mem[A], x)
                for s3, a in cont:
                    s3.mem[A] = a
                    back.append(s3)
                for s3, v in early:
                    s3.mem[X] = v
                    ex.append((("early",), s3))
        return e.limit(back, (fp, "cb")), ex
    done, early = [], []
    for tag, s in e.fix_loop([st], step, (fp, "consume")):
        a = s.mem.pop(A, UNIT)
        x = s.mem.pop(X, None)
        s.mem.pop(R, None)
        if tag[0] == "end":
            done.append((s, a))
        else:
            early.append((s, x))
    return done, early


def self_iter(e, st, args, tys):
    """consumers taking self or &mut self"""
    v = args[0]
    if it_kind(v) is not None:
        return v, None
    if v.op == "ref":
        r, p, x = read_iter(e, st, v)
        if it_kind(x) is not None:
            return x, (r, p)
    return None, None


def finish(e, res, loc):
    if loc is not None:
        for s, _ in res:
            e.wr(s, loc[0], loc[1], mk("iter", "opaque", e.fresh(s, "rest")))
    return res


@model(IT + "for_each", "rayon::iter::ParallelIterator::for_each")
def it_for_each(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    f = args[1]
    d, _ = consume(e, st, it, fp, UNIT, lambda s, a, x: ([(s2, UNIT) for s2, _ in e.call_value(s, f, [x], [None], None, fp + "c")], []))
    return finish(e, [(s, UNIT) for s, _ in d], loc)


@model(IT + "fold")
def it_fold(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    f = args[2]
    d, _ = consume(e, st, it, fp, args[1], lambda s, a, x: (e.call_value(s, f, [a, x], [None, None], dty, fp + "c"), []))
    return finish(e, d, loc)


@model(IT + "sum", "rayon::iter::ParallelIterator::sum")
def it_sum(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    k = e.p.ty(dty)["k"]
    z = cint(0) if k in ("int", "uint") else cfloat(0.0, e.p.ty(dty)["bits"]) if k == "float" else None
    if z is None:
        return NI

    def body(s, a, x):
        t = mk("app", "sumstep", (a,)) if k == "float" else e.fresh(s, "sum", dty)
        if t.ty is None:
            t.ty = dty
        return [(s, t)], []
    d, _ = consume(e, st, it, fp, z, body)
    out = []
    for s, a in d:
        if a is z:
            out.append((s, z))
        else:
            out.append((s, e.fresh(s, "sum", dty, site=(e.pos, fp))))
    return finish(e, out, loc)


@model(IT + "count")
def it_count(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    n = itlen(e, st, it)
    if n is not None:
        return [(st, n)]
    d, _ = consume(e, st, it, fp, cint(0), lambda s, a, x: ([(s, ladd(a, cint(1)))], []))
    return d


@model(IT + "any", IT + "all")
def it_any(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    anyq = ce["p"].endswith("any")

    def body(s, a, x):
        cont, early = [], []
        for s2, r in e.call_value(s, args[1], [x], [None], dty, fp + "c"):
            s3 = s2.copy()
            if s3.assume(r, anyq):
                early.append((s3, cbool(anyq)))
            if s2.assume(r, not anyq):
                cont.append((s2, UNIT))
        return cont, early
    d, ea = consume(e, st, it, fp, UNIT, body)
    return finish(e, [(s, cbool(not anyq)) for s, _ in d] + ea, loc)


@model(IT + "find", IT + "position", IT + "find_map")
def it_find(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    kind = ce["p"].rsplit("::", 1)[-1]

    def body(s, a, x):
        cont, early = [], []
        if kind == "find":
            h = e.alloc(s, x, x.ty, "fd")
            arg = mk("ref", h, ())
        else:
            arg = x
        for s2, r in e.call_value(s, args[1], [arg], [None], None, fp + "c"):
            if kind == "find_map":
                s3 = s2.copy()
                if s3.restrict_variants(r, [1]):
                    early.append((s3, r))
                if s2.restrict_variants(r, [0]):
                    cont.append((s2, ladd(a, cint(1))))
                continue
            s3 = s2.copy()
            if s3.assume(r, True):
                early.append((s3, some(x if kind == "find" else a, dty)))
            if s2.assume(r, False):
                cont.append((s2, ladd(a, cint(1))))
        return cont, early
    d, ea = consume(e, st, it, fp, cint(0), body)
    return finish(e, [(s, none(dty)) for s, _ in d] + ea, loc)


@model(IT + "reduce", IT + "max", IT + "min", IT + "max_by_key", IT + "min_by_key", IT + "max_by", IT + "min_by", IT + "last")
def it_reduce(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        return NI
    kind = ce["p"].rsplit("::", 1)[-1]

    def body(s, a, x):
        if a.op == "agg" and a.a[1] == 0 and a.a[0] == OPT:
            if kind.endswith("by_key"):
                return [(s2, some(x, dty)) for s2, _ in keycall(s, x)], []
            return [(s, some(x, dty))], []
        old = a.a[2][0] if a.op == "agg" else e.proj(s, a, ("f", 1, 0))
        if kind == "reduce":
            return [(s2, some(r, dty)) for s2, r in e.call_value(s, args[1], [old, x], [None, None], None, fp + "c")], []
        if kind == "last":
            return [(s, some(x, dty))], []
        if kind in ("max", "min") and e.p.is_int(targ(e, dty)) if targ(e, dty) is not None else False:
            r = (imax if kind == "max" else imin)(old, x)
            if r.ty is None and r.op != "c":
                r.ty = targ(e, dty)
            return [(s, some(r, dty))], []
        ss = [s2 for s2, _ in keycall(s, x)] if kind.endswith("by_key") else [s]
        out = []
        for q in ss:
            out.append((q, some(x, dty)))
            out.append((q.copy(), some(old, dty)))
        return out, []

    def keycall(s, x):
        h = e.alloc(s, x, x.ty, "kc")
        return e.call_value(s, args[1], [mk("ref", h, ())], [None], None, fp + "c")
    d, _ = consume(e, st, it, fp, none(dty), body, targ(e, dty))
    return finish(e, d, loc)


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def it_collect(e, st, ce, args, tys, dty, fp):
    it, loc = self_iter(e, st, args, tys)
    if it is None:
        it = to_iter(e, st, args[0], tys[0])
        if it is None:
            return NI
    n = itlen(e, st, it)
    t = e.p.ty(dty)
    if e.EXACT and (most(it) or 99) <= 8 and t.get("name") in ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec", "alloc::boxed::Box"):
        # a short list keeps its elements
        out, todo = [], [(st, it, ())]
        while todo:
            s0, i0, xs = todo.pop()
            for s, i1, x in itnext(e, s0, i0, fp):
                if x is not None:
                    todo.append((s, i1, xs + (x,)))
                    continue
                h = e.alloc(s, mk("agg", "array", 0, xs), None, "coll")
                if t["name"] == "alloc::boxed::Box":
                    out.append((s, slice_of(h, cint(len(xs)))))
                    continue
                v = mk("vec", h, cint(len(xs)))
                v.ty = dty
                out.append((s, v))
        return out
    d, _ = consume(e, st, it, fp, cint(0), lambda s, a, x: ([(s, ladd(a, cint(1)))], []))
    out = []
    nm = t.get("name")
    for s, a in d:
        ln = n if n is not None else a
        if nm in ("alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec"):
            h = e.alloc(s, e.fresh(s, "collected"), None, "coll")
            v = mk("vec", h, ln)
            v.ty = dty
            out.append((s, v))
        elif nm == "alloc::boxed::Box":
            h = e.alloc(s, e.fresh(s, "collected"), None, "coll")
            out.append((s, slice_of(h, ln)))
        else:
            out.append((s, e.fresh(s, "collected", dty)))
    return out


@model("core::iter::traits::collect::Extend::extend")
def it_extend(e, st, ce, args, tys, dty, fp):
    nm = ce.get("rp") or ce["p"]
    it = to_iter(e, st, args[1], tys[1])
    if it is None:
        return NI
    if "Vec" not in nm:
        d, _ = consume(e, st, it, fp, UNIT, lambda s, a, x: ([(s, UNIT)], []))
        out = []
        for s, _ in d:
            e.havoc(s, args[0], tys[0])
            out.append((s, UNIT))
        return out
    n = itlen(e, st, it)
    r, p, v, h, n0 = vec_ref(e, st, args[0])
    if e.EXACT and (most(it) or 99) <= 8:
        out, todo = [], [(st, it, n0)]
        while todo:
            s0, i0, j = todo.pop()
            for s, i1, x in itnext(e, s0, i0, fp):
                if x is not None:
                    e.write_obs(s, h, (("e", j),), x)
                    e.wr(s, h, (("e", j),), x)
                    todo.append((s, i1, ladd(j, cint(1))))
                    continue
                set_vec(e, s, r, p, h, j, v)
                out.append((s, UNIT))
        return out

    def body(s, a, x):
        e.write_obs(s, h, (("e", ladd(n0, a)),), x)
        return [(s, ladd(a, cint(1)))], []
    d, _ = consume(e, st, it, fp, cint(0), body)
    out = []
    for s, a in d:
        ln = n if n is not None else a
        nv = e.fresh(s, "extended")
        s.mem[h] = nv
        set_vec(e, s, r, p, h, ladd(n0, ln), v)
        out.append((s, UNIT))
    return out


@model("<T as rayon::iter::par_bridge::ParallelBridge>::par_bridge", "rayon::iter::ParallelIterator::map", "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut")
def par(e, st, ce, args, tys, dty, fp):
    if ce["p"].endswith("::map"):
        return adaptor("map")(e, st, ce, args, tys, dty, fp)
    if it_kind(args[0]) is None:
        return NI
    return [(st, args[0])]


@model("rayon_core::scope::in_place_scope", "rayon_core::scope::scope")
def scope(e, st, ce, args, tys, dty, fp):
    sc = mk("sym", "scope", fp)
    return e.call_value(st, args[0], [mk("ref", mk("K", sc), ())], [None], dty, fp + "s")


@model("rayon_core::scope::Scope::spawn")
def scope_spawn(e, st, ce, args, tys, dty, fp):
    return [(s, UNIT) for s, _ in e.call_value(st, args[1], [args[0]], [None], None, fp + "s")]


# ---- intrinsics -----------------------------------------------------------------------------------
def intrinsic(e, st, ce, args, tys, dty, fp):
    n = ce["p"].rsplit("::", 1)[-1]
    i = ce.get("intr")
    if isinstance(i, str):
        n = i
    if n in ("likely", "unlikely", "black_box", "transmute", "transmute_unchecked"):
        if n.startswith("transmute"):
            return [(st, e.cast(st, "Transmute", args[0], tys[0], dty))]
        return [(st, args[0])]
    if n in ("assume",):
        st = st.copy()
        return [(st, UNIT)] if st.assume(args[0], True) else []
    if n in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "forget"):
        return [(st, UNIT)]
    if n in ("abort", "unreachable"):
        return []
    if n == "discriminant_value":
        pt = e.p.pointee(tys[0]) if tys[0] is not None else None
        v = e.deref(st, args[0], pt)
        return [(st, e.discr(st, v, pt))]
    if n == "saturating_sub" and e.p.int_range(dty)[0] == 0:
        return sat_sub(e, st, ce, args, tys, dty, fp)
    if n == "saturating_add" and e.p.int_range(dty)[0] == 0:
        return sat_add(e, st, {"p": "x_add"}, args, tys, dty, fp)
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        return wrapping(e, st, {"p": "x_" + n.split("_")[1]}, args, tys, dty, fp)
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        return [(st, e.intop(st, {"a": "AddWithOverflow", "s": "SubWithOverflow", "m": "MulWithOverflow"}[n[0]], args[0], args[1], tys[0]))]
    if n in ("unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_shl", "unchecked_shr", "unchecked_div", "unchecked_rem"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}[n.split("_")[1]]
        return [(st, e.intop(st, op, args[0], args[1], tys[0]))]
    if n in ("offset", "arith_offset"):
        return [(st, offset(e, st, args[0], args[1]))]
    if n in ("read_via_copy", "volatile_load"):
        return ptr_read(e, st, ce, args, tys, dty, fp)
    if n in ("write_via_move", "volatile_store"):
        return ptr_write(e, st, ce, args, tys, dty, fp)
    if n == "size_of":
        return size_of(e, st, ce, args, tys, dty, fp)
    if n == "ptr_metadata":
        return [(st, e.len_of(st, args[0]))]
    if n == "needs_drop":
        return [(st, TRUE)]
    if n == "ub_checks":
        return [(st, FALSE)]
    if dty is not None and e.p.ty(dty)["k"] == "float":
        short = n.rstrip("0123456789")
        if short.endswith("f"):
            short = short[:-1]
        return pure(e, st, {"p": "::" + {"fabs": "abs", "sqrt": "sqrt", "pow": "powf", "powi": "powi", "fma": "mul_add", "minnum": "min", "maxnum": "max"}.get(short, short)}, args, tys, dty, fp)
    return NI
