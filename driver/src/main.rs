#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod json;
use json::J;
use rustc_abi::{FieldIdx, VariantIdx, Size, Variants, TagEncoding, HasDataLayout};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar, alloc_range, AllocId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt, ShimKind};
use rustc_span::Span;

use std::collections::{HashMap, VecDeque};

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = std::env::var("LIQ_FACTS_DIR").expect("LIQ_FACTS_DIR");
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), queue: VecDeque::new(), seen: HashMap::new(), fns: vec![], };
        let j = ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(cx.run(&krate)));
        let mut out = String::new();
        j.write(&mut out);
        std::fs::write(format!("{dir}/{krate}.json"), out).expect("write facts");
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<Instance<'tcx>, String>,
    fns: Vec<(String, J)>,
}

fn arr(v: Vec<J>) -> J { J::A(v) }
macro_rules! a { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }

impl<'tcx> Cx<'tcx> {
    fn run(&mut self, krate: &str) -> J {
        let tcx = self.tcx;
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    // skip trait method declarations without body
                    if !tcx.is_mir_available(did) { continue; }
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(did, args);
                    let env = TypingEnv::post_analysis(tcx, did);
                    let key = self.enqueue(inst, env);
                    let bsig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    let esig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(bsig));
                    let sig = bsig.skip_binder();
                    let attrs = tcx.codegen_fn_attrs(did);
                    let vis = tcx.visibility(did).is_public();
                    let exported = tcx.effective_visibilities(()).is_exported(id);
                    let (impl_trait, impl_self) = match tcx.opt_parent(did) {
                        Some(p) if matches!(tcx.def_kind(p), DefKind::Impl{..}) => {
                            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                            let tr = tcx.impl_opt_trait_ref(p).map(|t| tcx.def_path_str(t.skip_binder().def_id));
                            (tr.map(J::s).unwrap_or(J::N), J::s(format!("{st}")))
                        }
                        _ => (J::N, J::N),
                    };
                    let ins = sig.inputs().iter().map(|t| J::s(format!("{t}"))).collect();
                    items.push((key, J::O(vec![
                        ("path", J::s(tcx.def_path_str(did))),
                        ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
                        ("pub", J::B(vis)), ("exported", J::B(exported)),
                        ("abi", J::s(format!("{:?}", sig.abi()))),
                        ("unsafe", J::B(!sig.safety().is_safe())),
                        ("link_name", attrs.symbol_name.map(|s| J::s(s.to_string())).unwrap_or(J::N)),
                        ("no_mangle", J::B(attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE))),
                        ("inputs", J::A(ins)), ("output", J::s(format!("{}", sig.output()))),
                        ("input_tys", arr(esig.inputs().iter().map(|t| self.ty(*t)).collect())),
                        ("output_ty", self.ty(esig.output())),
                        ("impl_trait", impl_trait), ("impl_self", impl_self),
                        ("span", self.span(tcx.def_span(did))),
                        ("generics", J::u(tcx.generics_of(did).own_requires_monomorphization() as usize)),
                    ])));
                }
                _ => {}
            }
        }
        // closures of local generic bodies are reached via aggregates
        while let Some((inst, env)) = self.queue.pop_front() {
            let key = self.seen[&inst].clone();
            let body = self.body(inst, env);
            if let Some(b) = body { self.fns.push((key, b)); }
        }
        // ADTs and impls
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = self.ty(t);
                    let def = tcx.adt_def(did);
                    adts.push((tcx.def_path_str(did), J::O(vec![
                        ("ty", ti), ("repr_c", J::B(def.repr().c())), ("repr", J::s(format!("{:?}", def.repr()))),
                        ("exported", J::B(tcx.effective_visibilities(()).is_exported(id))),
                        ("span", self.span(tcx.def_span(did))),
                    ])));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait { Some(tcx.impl_trait_header(did)) } else { None };
                    impls.push(J::O(vec![
                        ("self", J::s(format!("{st}"))),
                        ("trait", tr.map(|t| J::s(tcx.def_path_str(t.trait_ref.skip_binder().def_id))).unwrap_or(J::N)),
                        ("neg", J::B(tr.map(|t| t.polarity == ty::ImplPolarity::Negative).unwrap_or(false))),
                        ("unsafe", J::B(tr.map(|t| !t.safety.is_safe()).unwrap_or(false))),
                        ("preds", J::s(format!("{:?}", tcx.clauses_of(did).clauses))),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    // what the initializer points to: identity of tags
                    let mut ptrs = vec![];
                    if let Ok(a) = tcx.eval_static_initializer(did) {
                        for (_, prov) in a.inner().provenance().ptrs().iter() {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                let n = m.inner().len().min(64);
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                ptrs.push(J::s(String::from_utf8_lossy(b).to_string()));
                            } else { ptrs.push(J::s(format!("{:?}", tcx.global_alloc(prov.alloc_id())))); }
                        }
                    }
                    statics.push(J::O(vec![("path", J::s(tcx.def_path_str(did))), ("ty", J::s(format!("{t}"))), ("static", J::B(true)), ("ptrs", J::A(ptrs)),
                        ("mutable", J::B(tcx.is_mutable_static(did))), ("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))), ("tls", J::B(tcx.is_thread_local_static(did))), ("span", self.span(tcx.def_span(did)))]));
                }
                DefKind::Const {..} | DefKind::AssocConst {..} => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let v = if tcx.generics_of(did).requires_monomorphization(tcx) { J::N } else {
                        match tcx.const_eval_poly(did) { Ok(v) => self.const_value(v, tcx.erase_and_anonymize_regions(t), TypingEnv::fully_monomorphized()), Err(_) => J::N }
                    };
                    statics.push(J::O(vec![("path", J::s(tcx.def_path_str(did))), ("ty", J::s(format!("{t}"))), ("value", v), ("span", self.span(tcx.def_span(did)))]));
                }
                _ => {}
            }
        }
        // drain again (types may have introduced drop impls)
        while let Some((inst, env)) = self.queue.pop_front() {
            let key = self.seen[&inst].clone();
            let body = self.body(inst, env);
            if let Some(b) = body { self.fns.push((key, b)); }
        }
        J::O(vec![
            ("crate", J::s(krate)),
            ("items", J::M(items)),
            ("adts", J::M(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(statics)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("fns", J::M(std::mem::take(&mut self.fns))),
        ])
    }

    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn key_of(&self, inst: Instance<'tcx>) -> String {
        let base = self.tcx.def_path_str_with_args(inst.def_id(), inst.args);
        match inst.def {
            InstanceKind::Item(d) if self.tcx.is_closure_like(d) => {
                // closure args contain signature noise: use the parent's args only
                let p = self.tcx.typeck_root_def_id(d);
                let n = self.tcx.generics_of(p).count();
                let pargs = self.tcx.mk_args(&inst.args[..n]);
                let suffix = self.tcx.def_path(d).to_string_no_crate_verbose();
                let psuffix = self.tcx.def_path(p).to_string_no_crate_verbose();
                let tail = suffix.strip_prefix(&psuffix).unwrap_or(&suffix).to_string();
                let pk = self.key_of(Instance::new_raw(p, pargs));
                format!("{pk}{tail}")
            }
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => base,
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => format!("dropglue<{t}>"),
            InstanceKind::Shim(ShimKind::ClosureOnce{closure, ..}) => format!("once-shim {}", self.tcx.def_path_str(closure)),
            other => format!("{base} #{:?}", std::mem::discriminant(&other)),
        }
    }

    fn want_body(&self, did: DefId) -> bool {
        if did.is_local() { return true; }
        let k = self.tcx.crate_name(did.krate);
        let k = k.as_str();
        match k {
            "imagequant" | "imagequant_sys" | "rgb" | "arrayvec" => true,
            "core" | "alloc" | "std" => {
                let p = self.tcx.def_path_str(did);
                let deny = ["fmt::", "panicking", "::rt::", "hash_map", "hashbrown", "collections::", "io::", "thread", "sync::", "str::", "string::", "raw_vec", "alloc::alloc", "alloc::Global", "::sort", "backtrace", "simd", "iter::traits::iterator::Iterator::try_fold", "intrinsics::", "ub_checks", "precondition_check", "char::", "sys::", "ascii::", "unicode", "time::", "env::", "ffi::", "error::"];
                !deny.iter().any(|d| p.contains(d))
            }
            _ => false,
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let Some(k) = self.seen.get(&inst) { return k.clone(); }
        let mut key = self.key_of(inst);
        // disambiguate collisions
        while self.seen.values().any(|v| *v == key) { key.push('\''); }
        self.seen.insert(inst, key.clone());
        if let InstanceKind::Item(did) = inst.def {
            if self.want_body(did) && self.tcx.is_mir_available(did) { self.queue.push_back((inst, env)); }
        }
        key
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J { J::u(self.tyi(t)) }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tyidx.get(&t) { return i; }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(J::N);
        let tcx = self.tcx;
        let s = format!("{t}");
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(x) => { o.push(("k", J::s("int"))); o.push(("bits", J::u(x.bit_width().unwrap_or(64) as usize))); }
            ty::Uint(x) => { o.push(("k", J::s("uint"))); o.push(("bits", J::u(x.bit_width().unwrap_or(64) as usize))); }
            ty::Float(x) => { o.push(("k", J::s("float"))); o.push(("bits", J::u(x.bit_width() as usize))); }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Tuple(ts) => { o.push(("k", J::s("tuple"))); let v = ts.iter().map(|t| self.ty(t)).collect(); o.push(("f", J::A(v))); }
            ty::Array(e, n) => { o.push(("k", J::s("array"))); let e = self.ty(e); o.push(("e", e)); o.push(("n", n.try_to_target_usize(tcx).map(|n| J::U(n as u128)).unwrap_or(J::N))); }
            ty::Slice(e) => { o.push(("k", J::s("slice"))); let e = self.ty(e); o.push(("e", e)); }
            ty::RawPtr(e, m) => { o.push(("k", J::s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e); o.push(("e", e)); }
            ty::Ref(_, e, m) => { o.push(("k", J::s("ref"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e); o.push(("e", e)); }
            ty::Adt(def, args) => {
                o.push(("k", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("name", J::s(tcx.def_path_str(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("krate", J::s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("args", { let v = args.types().map(|t| self.ty(t)).collect(); J::A(v) }));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let ft = tcx.erase_and_anonymize_regions(ft);
                        let fti = self.ty(ft);
                        fs.push(a![J::s(f.name.to_string()), fti, J::B(f.vis.is_public())]);
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    vs.push(J::O(vec![("n", J::s(v.name.to_string())), ("d", J::U(d)), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let inst = Instance::new_raw(d.did, args);
                    let k = self.enqueue(inst, TypingEnv::fully_monomorphized());
                    o.push(("drop", J::s(k)));
                }
                if !t.has_param() && !t.has_escaping_bound_vars() {
                    if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        o.push(("size", J::u(l.size.bytes() as usize)));
                        o.push(("align", J::u(l.align.abi.bytes() as usize)));
                        if let Variants::Single{..} = l.variants {
                            let n = l.fields.count();
                            o.push(("off", J::A((0..n).map(|i| J::u(l.fields.offset(i).bytes() as usize)).collect())));
                        }
                    }
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let k = self.closure_key(d, args);
                o.push(("key", J::s(k)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("f", J::A(ups)));
                let names: Vec<J> = if let Some(l) = d.as_local() { tcx.closure_captures(l).iter().map(|c| J::s(c.to_symbol().to_string())).collect() } else { vec![] };
                o.push(("fn", J::A(names)));
                o.push(("ck", J::s(format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind()))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let args = args.skip_binder();
                o.push(("path", J::s(tcx.def_path_str_with_args(d, args))));
                if !t.has_escaping_bound_vars() {
                    let c = self.callee(d, args, TypingEnv::fully_monomorphized());
                    o.push(("callee", c));
                }
            }
            ty::FnPtr(..) => {
                o.push(("k", J::s("fnptr")));
                let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(t.fn_sig(tcx)));
                o.push(("abi", J::s(format!("{:?}", sig.abi()))));
                let v = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                o.push(("ins", J::A(v)));
                let x = self.ty(sig.output());
                o.push(("out", x));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn closure_key(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let inst = Instance::new_raw(d, args);
        let root = self.tcx.typeck_root_def_id(d);
        let env = if args.has_param() { TypingEnv::post_analysis(self.tcx, root) } else { TypingEnv::fully_monomorphized() };
        self.enqueue(inst, env)
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let path = tcx.def_path_str(did);
        let mut o = vec![("p", J::s(path.clone()))];
        let gargs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("g", J::A(gargs)));
        if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("trait", J::s(tcx.def_path_str(tr)))); }
        let resolved = if args.has_escaping_bound_vars() { None } else {
            let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            Instance::try_resolve(tcx, env, did, args).ok().flatten() };
        match resolved {
            Some(inst) => {
                let (kind, key) = match inst.def {
                    InstanceKind::Item(d) => {
                        let k = self.enqueue(inst, env);
                        o.push(("rp", J::s(tcx.def_path_str(d))));
                        o.push(("local", J::B(d.is_local())));
                        if let Some(n) = tcx.intrinsic(d) { o.push(("intr", J::s(n.name.to_string()))); }
                        (if tcx.is_closure_like(d) { "closure" } else { "item" }, k)
                    }
                    InstanceKind::Intrinsic(_) => ("intrinsic", path.clone()),
                    InstanceKind::Virtual(..) => ("virtual", path.clone()),
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        // self type is args[0] of the trait call
                        let k = match args.type_at(0).kind() { ty::Closure(d, a) => self.closure_key(*d, a), _ => tcx.def_path_str(closure) };
                        ("once", k)
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => {
                        let t = args.type_at(0);
                        if let ty::FnDef(d, a) = *t.kind() {
                            let inner = self.callee(d, a.skip_binder(), env);
                            o.push(("inner", inner));
                        }
                        ("fnptrshim", path.clone())
                    }
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => ("dropglue", path.clone()),
                    InstanceKind::Shim(ShimKind::Clone(..)) => ("cloneshim", path.clone()),
                    _ => ("shim", path.clone()),
                };
                o.push(("k", J::s(kind)));
                o.push(("key", J::s(key)));
            }
            None => { o.push(("k", J::s("unres"))); o.push(("key", J::s(tcx.def_path_str_with_args(did, args)))); }
        }
        J::O(o)
    }

    fn scalar_of(&mut self, s: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                J::O(vec![("i", J::U(bits))])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointee(prov.alloc_id(), off, t, None, env, depth)
            }
        }
    }
    fn pointee(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, meta: Option<u64>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let k = self.enqueue(instance, TypingEnv::fully_monomorphized());
                J::O(vec![("fnptr", J::s(k))])
            }
            GlobalAlloc::Static(d) => J::O(vec![("static", J::s(tcx.def_path_str(d)))]),
            GlobalAlloc::Memory(m) => {
                let inner = match t.kind() { ty::Ref(_, e, _) | ty::RawPtr(e, _) => *e, _ => return J::O(vec![("opaque", J::s("ptr"))]) };
                if depth > 6 { return J::O(vec![("opaque", J::s("depth"))]); }
                match inner.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..off.bytes() as usize + n);
                        J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))])
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0);
                        let es = match tcx.layout_of(env.as_query_input(*e)) { Ok(l) => l.size, Err(_) => return J::O(vec![("opaque", J::s("layout"))]) };
                        if n > 64 { return J::O(vec![("slice", J::N), ("n", J::U(n as u128))]); }
                        let v = (0..n).map(|i| self.decode(id, off + es * i, *e, env, depth + 1)).collect();
                        J::O(vec![("refslice", J::A(v))])
                    }
                    _ => {
                        let v = self.decode(id, off, inner, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            _ => J::O(vec![("opaque", J::s("vtable"))]),
        }
    }
    fn decode(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let opaque = |s: &str| J::O(vec![("opaque", J::s(s))]);
        let mem = match tcx.global_alloc(id) { GlobalAlloc::Memory(m) => m, _ => return opaque("nomem") };
        let layout = match tcx.layout_of(env.as_query_input(t)) { Ok(l) => l, Err(_) => return opaque("layout") };
        let dl = tcx.data_layout();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::FnPtr(..) => {
                match mem.inner().read_scalar(&tcx, alloc_range(off, layout.size), matches!(t.kind(), ty::FnPtr(..))) {
                    Ok(s) => self.scalar_of(s, t, env, depth), Err(_) => opaque("uninit") }
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let ps = dl.pointer_size();
                match mem.inner().read_scalar(&tcx, alloc_range(off, ps), true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let meta = if matches!(e.kind(), ty::Str | ty::Slice(_)) {
                            mem.inner().read_scalar(&tcx, alloc_range(off + ps, ps), false).ok().and_then(|s| match s { Scalar::Int(i) => Some(i.to_bits(i.size()) as u64), _ => None })
                        } else { None };
                        let (prov, o2) = p.prov_and_relative_offset();
                        self.pointee(prov.alloc_id(), o2, t, meta, env, depth)
                    }
                    Ok(s) => self.scalar_of(s, t, env, depth),
                    Err(_) => opaque("uninit"),
                }
            }
            ty::Tuple(ts) => { let v = ts.iter().enumerate().map(|(i, ft)| self.decode(id, off + layout.fields.offset(i), ft, env, depth + 1)).collect(); let ti = self.ty(t); J::O(vec![("agg", ti), ("v", J::U(0)), ("f", J::A(v))]) }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if n > 64 { return J::O(vec![("array", J::N), ("n", J::U(n as u128))]); }
                let es = match tcx.layout_of(env.as_query_input(e)) { Ok(l) => l.size, Err(_) => return opaque("layout") };
                let v = (0..n).map(|i| self.decode(id, off + es * i, e, env, depth + 1)).collect();
                let ti = self.ty(t);
                J::O(vec![("agg", ti), ("v", J::U(0)), ("f", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let fs: Vec<(FieldIdx, Ty<'tcx>)> = def.non_enum_variant().fields.iter_enumerated().map(|(i, f)| (i, tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip())))).collect();
                let v = fs.into_iter().map(|(i, ft)| self.decode(id, off + layout.fields.offset(i.as_usize()), ft, env, depth + 1)).collect();
                let ti = self.ty(t);
                J::O(vec![("agg", ti), ("v", J::U(0)), ("f", J::A(v))])
            }
            ty::Adt(def, args) if def.is_enum() => {
                let vi: VariantIdx = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let tag_off = off + layout.fields.offset(tag_field.as_usize());
                        let ts = tag.size(dl);
                        let raw = match mem.inner().read_scalar(&tcx, alloc_range(tag_off, ts), false) { Ok(Scalar::Int(i)) => Some(i.to_bits(i.size())), _ => None };
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return opaque("tag") };
                                match def.discriminants(tcx).find(|(_, d)| { let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 }; (d.val & m) == raw }) { Some((v, _)) => v, None => return opaque("tag") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match raw {
                                    None => *untagged_variant,
                                    Some(raw) => {
                                        let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & m;
                                        let n = niche_variants.last.as_u32() - niche_variants.start.as_u32();
                                        if rel <= n as u128 { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                                    }
                                }
                            }
                        }
                    }
                    _ => return opaque("novariants"),
                };
                let vl = match &layout.variants { Variants::Single{..} => layout.layout, Variants::Multiple{..} => rustc_middle::ty::layout::LayoutCx::new(tcx, env).pipe_variant(layout, vi), _ => unreachable!() };
                let fs: Vec<(FieldIdx, Ty<'tcx>)> = def.variant(vi).fields.iter_enumerated().map(|(i, f)| (i, tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip())))).collect();
                let v = fs.into_iter().map(|(i, ft)| self.decode(id, off + vl.fields.offset(i.as_usize()), ft, env, depth + 1)).collect();
                let ti = self.ty(t);
                J::O(vec![("agg", ti), ("v", J::U(vi.as_u32() as u128)), ("f", J::A(v))])
            }
            _ => opaque("kind"),
        }
    }
    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(..) | ty::Tuple(..) | ty::Array(..) = t.kind() { let ti = self.ty(t); J::O(vec![("agg", ti), ("v", J::U(0)), ("f", J::A(vec![]))]) }
                else { J::O(vec![("zst", J::N)]) }
            }
            ConstValue::Scalar(s) => {
                let prim = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                if prim { return self.scalar_of(s, t, env, 0); }
                // newtype or fieldless enum stored as scalar
                if let ty::Adt(def, args) = *t.kind() {
                    if let Scalar::Int(i) = s {
                        let bits = i.to_bits(i.size());
                        if def.is_enum() {
                            if let Ok(layout) = tcx.layout_of(env.as_query_input(t)) {
                                match &layout.variants {
                                    Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, .. } => {
                                        let ts = tag.size(tcx.data_layout());
                                        let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                        if let Some((vi, _)) = def.discriminants(tcx).find(|(_, d)| (d.val & m) == bits) {
                                            if def.variant(vi).fields.is_empty() { let ti = self.ty(t); return J::O(vec![("agg", ti), ("v", J::U(vi.as_u32() as u128)), ("f", J::A(vec![]))]); }
                                        }
                                    }
                                    Variants::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                                        let ts = tag.size(tcx.data_layout());
                                        let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                        let rel = bits.wrapping_sub(*niche_start) & m;
                                        let n = niche_variants.last.as_u32() - niche_variants.start.as_u32();
                                        let vi = if rel <= n as u128 { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant };
                                        if def.variant(vi).fields.is_empty() { let ti = self.ty(t); return J::O(vec![("agg", ti), ("v", J::U(vi.as_u32() as u128)), ("f", J::A(vec![]))]); }
                                    }
                                    Variants::Single { index } if def.variant(*index).fields.is_empty() => { let ti = self.ty(t); return J::O(vec![("agg", ti), ("v", J::U(index.as_u32() as u128)), ("f", J::A(vec![]))]); }
                                    _ => {}
                                }
                            }
                        } else if def.is_struct() {
                            let nonzst: Vec<_> = def.non_enum_variant().fields.iter().map(|f| tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip()))).collect();
                            if nonzst.len() == 1 { let inner = self.const_value(v, nonzst[0], env); let ti = self.ty(t); return J::O(vec![("agg", ti), ("v", J::U(0)), ("f", J::A(vec![inner]))]); }
                        }
                        return J::O(vec![("bits", J::U(bits))]);
                    }
                }
                J::O(vec![("opaque", J::s("scalar"))])
            }
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, Size::ZERO, t, Some(meta), env, 0),
            ConstValue::Indirect { alloc_id, offset } => self.decode(alloc_id, offset, t, env, 0),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("t", ti)];
        if let ty::FnDef(d, args) = *t.kind() {
            let cal = self.callee(d, args.skip_binder(), env);
            o.push(("fn", cal));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { o.push(("cpath", J::s(tcx.def_path_str(u.def)))); }
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() { o.push(("param", J::s(p.name.to_string()))); return J::O(o); }
        }
        let generic = c.const_.has_param();
        if generic { o.push(("opaque", J::s(format!("{}", c.const_)))); return J::O(o); }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => { let j = self.const_value(v, t, env); o.push(("v", j)); }
            Err(_) => o.push(("opaque", J::s(format!("{}", c.const_)))),
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); a![J::s("f"), J::u(f.as_usize()), ti] }
                ProjectionElem::Index(l) => a![J::s("i"), J::u(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, from_end, .. } => a![J::s("ci"), J::u(offset as usize), J::B(from_end)],
                ProjectionElem::Subslice { from, to, from_end } => a![J::s("ss"), J::u(from as usize), J::u(to as usize), J::B(from_end)],
                ProjectionElem::Downcast(_, vi) => a![J::s("d"), J::u(vi.as_usize())],
                _ => J::s("?"),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => a![J::s("c"), self.place(p)],
            Operand::Move(p) => a![J::s("m"), self.place(p)],
            Operand::Constant(c) => a![J::s("k"), self.constant(c, env)],
            other => a![J::s("rt"), J::s(format!("{other:?}"))],
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => a![J::s("use"), self.operand(o, env)],
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx); a![J::s("repeat"), self.operand(o, env), n.map(|n| J::U(n as u128)).unwrap_or(J::N)] }
            Rvalue::Ref(_, k, p) => a![J::s("ref"), J::B(matches!(k, BorrowKind::Mut{..})), self.place(p)],
            Rvalue::ThreadLocalRef(d) => a![J::s("tls"), J::s(self.tcx.def_path_str(*d))],
            Rvalue::RawPtr(k, p) => a![J::s("addr"), J::s(format!("{k:?}")), self.place(p)],
            Rvalue::Cast(k, o, t) => {
                let ks = match k { CastKind::PointerCoercion(c, _) => format!("{c:?}"), k => format!("{k:?}") };
                a![J::s("cast"), J::s(ks), self.operand(o, env), self.ty(*t)]
            }
            Rvalue::BinaryOp(op, b) => a![J::s("bin"), J::s(format!("{op:?}")), self.operand(&b.0, env), self.operand(&b.1, env)],
            Rvalue::UnaryOp(op, o) => a![J::s("un"), J::s(format!("{op:?}")), self.operand(o, env)],
            Rvalue::Discriminant(p) => a![J::s("discr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.operand(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => a![J::s("array"), self.ty(*t)],
                    AggregateKind::Tuple => a![J::s("tuple")],
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        a![J::s("adt"), self.ty(t), J::u(vi.as_usize()), fi.map(|f| J::u(f.as_usize())).unwrap_or(J::N)]
                    }
                    AggregateKind::Closure(d, args) => { let k = self.closure_key(*d, args); let t = Ty::new_closure(self.tcx, *d, args); a![J::s("closure"), self.ty(t), J::s(k)] }
                    AggregateKind::RawPtr(t, m) => a![J::s("rawptr"), self.ty(*t), J::B(m.is_mut())],
                    _ => a![J::s("?")],
                };
                a![J::s("agg"), kj, J::A(ops)]
            }
            Rvalue::CopyForDeref(p) => a![J::s("use"), a![J::s("c"), self.place(p)]],
            other => a![J::s("?"), J::s(format!("{other:?}"))],
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !tcx.is_mir_available(did) { return None; }
        let raw = tcx.instance_mir(inst.def).clone();
        let env = if inst.args.has_param() { env } else { TypingEnv::fully_monomorphized() };
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b, Err(_) => raw };
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(a![J::s(v.name.to_string()), self.place(p)]);
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                let line = tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                match &s.kind {
                    StatementKind::Assign(b) => st.push(a![J::s("="), self.place(&b.0), self.rvalue(&b.1, env), J::u(line)]),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(a![J::s("setd"), self.place(place), J::u(variant_index.as_usize()), J::u(line)]),
                    StatementKind::StorageDead(l) => st.push(a![J::s("dead"), J::u(l.as_usize())]),
                    StatementKind::StorageLive(l) => st.push(a![J::s("live"), J::u(l.as_usize())]),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(a![J::s("assume"), self.operand(o, env)]),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(a![J::s("memcpy"), self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env)]),
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let bb = |b: BasicBlock| J::u(b.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => a![J::s("goto"), bb(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = targets.iter().map(|(v, b)| a![J::U(v), bb(b)]).collect();
                    a![J::s("switch"), self.operand(discr, env), J::A(v), bb(targets.otherwise())]
                }
                TerminatorKind::Return => a![J::s("ret")],
                TerminatorKind::Unreachable => a![J::s("unreachable")],
                TerminatorKind::UnwindResume => a![J::s("resume")],
                TerminatorKind::UnwindTerminate(_) => a![J::s("abort")],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let needs = if pt.has_escaping_bound_vars() { true } else { pt.needs_drop(tcx, env) };
                    a![J::s("drop"), self.place(place), bb(*target), unw(unwind), J::B(needs), self.ty(pt)]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let av = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let mac = t.source_info.span.macro_backtrace().next().map(|m| J::s(m.kind.descr().to_string())).unwrap_or(J::N);
                    a![J::s("call"), f, J::A(av), self.place(destination), target.map(bb).unwrap_or(J::N), unw(unwind), self.span(*fn_span), mac]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m: &str = match &**msg { AssertKind::BoundsCheck{..} => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow", AssertKind::DivisionByZero(..) => "div0", AssertKind::RemainderByZero(..) => "rem0", _ => "other" };
                    a![J::s("assert"), self.operand(cond, env), J::B(*expected), J::s(m), bb(*target), unw(unwind)]
                }
                other => a![J::s("?"), J::s(format!("{other:?}"))],
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cl", J::B(b.is_cleanup))]));
        }
        Some(J::O(vec![
            ("path", J::s(tcx.def_path_str(did))),
            ("krate", J::s(tcx.crate_name(did.krate).to_string())),
            ("closure", J::B(tcx.is_closure_like(did))),
            ("root", J::s(tcx.def_path_str(tcx.typeck_root_def_id(did)))),
            ("args", { let v = inst.args.types().map(|t| self.ty(t)).collect(); J::A(v) }),
            ("n", J::u(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::u(l.as_usize())).unwrap_or(J::N)),
            ("span", self.span(body.span)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]))
    }
}
fn unw(u: &UnwindAction) -> J { match u { UnwindAction::Cleanup(b) => J::u(b.as_usize()), _ => J::N } }

trait PipeVariant<'tcx> { fn pipe_variant(&self, l: ty::layout::TyAndLayout<'tcx>, v: VariantIdx) -> rustc_abi::Layout<'tcx>; }
impl<'tcx> PipeVariant<'tcx> for ty::layout::LayoutCx<'tcx> {
    fn pipe_variant(&self, l: ty::layout::TyAndLayout<'tcx>, v: VariantIdx) -> rustc_abi::Layout<'tcx> { l.for_variant(self, v).layout }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_target = {
        let mut name = None;
        let mut it = args.iter();
        while let Some(x) = it.next() { if x == "--crate-name" { name = it.next().cloned(); } }
        matches!(name.as_deref(), Some("imagequant") | Some("imagequant_sys")) && !args.iter().any(|a| a == "--test")
            && std::env::var("LIQ_FACTS_DIR").is_ok()
    };
    let code = rustc_driver::catch_with_exit_code(move || {
        if is_target { rustc_driver::compiler_entrypoint(&args, &mut Cb); }
        else { struct N; impl Callbacks for N {} rustc_driver::compiler_entrypoint(&args, &mut N); }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
