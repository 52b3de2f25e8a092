//! Dumps the monomorphised MIR of the analysed crate (plus the bodies of the small
//! combinators of `core` that it instantiates) as JSON, for the rules in /verif/rules.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, interpret::GlobalAlloc};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, print::PrintTraitRefExt, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Work<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, mir::Promoted),
    ConstBody(DefId),
    Generic(DefId),
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    fns: HashMap<Work<'tcx>, usize>,
    queue: VecDeque<(usize, Work<'tcx>)>,
    fn_out: Vec<String>,
    iter_seen: HashMap<Ty<'tcx>, Option<usize>>,
    cur_inst: Option<Instance<'tcx>>,
    cur_env: TypingEnv<'tcx>,
    vts: std::collections::BTreeMap<(usize, String), String>,
}

impl<'tcx> D<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> { self.cur_env }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        let s = self.ty_desc(t);
        self.ty_out[i] = Some(s);
        i
    }
    fn ty_desc(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = esc(&format!("{}", t));
        match t.kind() {
            ty::Bool => format!("{{\"s\":{name},\"k\":\"bool\"}}"),
            ty::Char => format!("{{\"s\":{name},\"k\":\"char\"}}"),
            ty::Int(it) => format!("{{\"s\":{name},\"k\":\"int\",\"b\":{}}}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("{{\"s\":{name},\"k\":\"uint\",\"b\":{}}}", it.bit_width().unwrap_or(64)),
            ty::Float(_) => format!("{{\"s\":{name},\"k\":\"float\"}}"),
            ty::Str => format!("{{\"s\":{name},\"k\":\"str\"}}"),
            ty::Never => format!("{{\"s\":{name},\"k\":\"never\"}}"),
            ty::Adt(def, args) => {
                let path = esc(&tcx.def_path_str(def.did()));
                let targs: Vec<usize> = args.types().map(|a| self.ty(a)).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let mut fs = Vec::new();
                    let local_or_simple = true;
                    if local_or_simple {
                        for f in v.fields.iter() {
                            let fty = tcx.normalize_erasing_regions(self.env(), f.ty(tcx, args));
                            let fi = self.ty(fty);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                        }
                    }
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&discr.to_string()), list(fs)));
                }
                let local = def.did().is_local();
                format!("{{\"s\":{name},\"k\":\"{kind}\",\"p\":{path},\"a\":{},\"v\":{},\"local\":{},\"box\":{},\"drop\":{}}}",
                    list(targs.iter().map(|x| x.to_string())), list(vs), local, def.is_box(), t.needs_drop(tcx, self.env()))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"s\":{name},\"k\":\"ref\",\"to\":{i},\"mut\":{}}}", m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"s\":{name},\"k\":\"ptr\",\"to\":{i},\"mut\":{}}}", m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"s\":{name},\"k\":\"tuple\",\"f\":{}}}", list(v))
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"s\":{name},\"k\":\"array\",\"e\":{i},\"n\":{n}}}")
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                format!("{{\"s\":{name},\"k\":\"slice\",\"e\":{i}}}")
            }
            ty::Closure(did, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(*did, args);
                let body = if args.has_param() { self.want(Work::Generic(*did)) } else { self.want(Work::Inst(inst)) }.map(|x| x.to_string()).unwrap_or("null".into());
                let kind = format!("{:?}", args.as_closure().kind());
                format!("{{\"s\":{name},\"k\":\"closure\",\"f\":{},\"body\":{body},\"ck\":{},\"p\":{}}}", list(up), esc(&kind), esc(&tcx.def_path_str(*did)))
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let r = self.callee_args(*did, args);
                format!("{{\"s\":{name},\"k\":\"fndef\",\"fn\":{r}}}")
            }
            ty::FnPtr(..) => format!("{{\"s\":{name},\"k\":\"fnptr\"}}"),
            ty::Dynamic(..) => format!("{{\"s\":{name},\"k\":\"dyn\"}}"),
            _ => format!("{{\"s\":{name},\"k\":\"other\"}}"),
        }
    }

    fn dump_std(&self, did: DefId) -> bool {
        let p = self.tcx.def_path_str(did);
        let krate = self.tcx.crate_name(did.krate);
        let k = krate.as_str();
        if k != "core" && k != "alloc" && k != "std" { return false; }
        let dp = self.tcx.def_path(did).to_string_no_crate_verbose();
        let _ = p;
        let ok = ["::option", "::result", "::ops::try_trait", "::ops::control_flow", "::ops::function", "::convert", "::cmp",
            "::iter::adapters", "::iter::traits::iterator", "::iter::traits::collect", "::iter::sources", "::clone", "::default", "::borrow", "::bool", "::tuple", "::ops::range"];
        k == "core" && ok.iter().any(|x| dp.starts_with(x))
    }

    fn want(&mut self, w: Work<'tcx>) -> Option<usize> {
        if let Some(&i) = self.fns.get(&w) { return Some(i); }
        let tcx = self.tcx;
        let ok = match w {
            Work::Inst(inst) => {
                let did = inst.def_id();
                match inst.def {
                    InstanceKind::Item(d) => (d.is_local() || self.dump_std(d)) && tcx.is_mir_available(d)
                        && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)),
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) | InstanceKind::Shim(ShimKind::Reify(..)) => true,
                    InstanceKind::Shim(ShimKind::Clone(..)) => true,
                    _ => { let _ = did; false }
                }
            }
            Work::Promoted(..) => true,
            Work::ConstBody(d) => d.is_local(),
            Work::Generic(d) => d.is_local(),
        };
        if !ok { return None; }
        let i = self.fn_out.len();
        self.fns.insert(w, i);
        self.fn_out.push(String::new());
        self.queue.push_back((i, w));
        Some(i)
    }

    fn callee_args(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new(args));
        let targs: Vec<usize> = args.types().map(|a| self.ty(a)).collect();
        for a in args.types() { self.note_iter(a); }
        let decl = esc(&tcx.def_path_str(did));
        let tr = tcx.trait_of_assoc(did).map(|d| esc(&tcx.def_path_str(d))).unwrap_or("null".into());
        let meth = esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str());
        let mut out = format!("{{\"decl\":{decl},\"m\":{meth},\"trait\":{tr},\"a\":{}", list(targs.iter().map(|x| x.to_string())));
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), did, args) {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                _ => "shim",
            };
            let p = esc(&tcx.def_path_str(inst.def_id()));
            let full = esc(&tcx.def_path_str_with_args(inst.def_id(), inst.args));
            let itargs: Vec<usize> = inst.args.types().map(|a| self.ty(a)).collect();
            let krate = esc(tcx.crate_name(inst.def_id().krate).as_str());
            let id = if inst.args.has_param() { None } else { self.want(Work::Inst(inst)) }.map(|x| x.to_string()).unwrap_or("null".into());
            let _ = write!(out, ",\"kind\":\"{kind}\",\"p\":{p},\"full\":{full},\"ia\":{},\"krate\":{krate},\"id\":{id}",
                list(itargs.iter().map(|x| x.to_string())));
            if !inst.def_id().is_local() {
                let mut seen = std::collections::HashSet::new();
                let mut us = std::collections::BTreeSet::new();
                self.uses(inst.def_id(), inst.args, &mut seen, &mut us, 0);
                if !us.is_empty() { let _ = write!(out, ",\"uses\":{}", list(us)); }
            }
        }
        out.push('}');
        out
    }

    /// What a foreign function may run of its callers' code: by parametricity only the trait
    /// implementations which its bounds give it. Local implementations and closures are
    /// recorded by name, cells by type.
    fn uses(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, seen: &mut std::collections::HashSet<ty::TraitRef<'tcx>>, out: &mut std::collections::BTreeSet<String>, depth: usize) {
        let tcx = self.tcx;
        if args.has_param() || depth > 12 { return; }
        let preds = tcx.clauses_of(did).instantiate(tcx, args);
        for c in preds.clauses {
            let c = c.skip_normalization();
            let Some(tp) = c.as_trait_clause() else { continue };
            let tr = tcx.instantiate_bound_regions_with_erased(tp.map_bound(|t| t.trait_ref));
            self.use_of(tr, seen, out, depth);
        }
    }
    fn use_of(&mut self, tr: ty::TraitRef<'tcx>, seen: &mut std::collections::HashSet<ty::TraitRef<'tcx>>, out: &mut std::collections::BTreeSet<String>, depth: usize) {
        let tcx = self.tcx;
        let Ok(tr) = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new(tr)) else { return };
        let tr = tcx.erase_and_anonymize_regions(tr);
        if tr.has_param() || depth > 12 || !seen.insert(tr) { return; }
        // collecting runs no code of the values
        if tcx.crate_name(tr.def_id.krate).as_str() == "gc" { return; }
        if tcx.trait_is_auto(tr.def_id) || tcx.lang_items().sized_trait() == Some(tr.def_id) { return; }
        match tr.self_ty().kind() {
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                let id = if d.is_local() { self.want(Work::Inst(inst)) } else { None };
                out.insert(format!("[\"fn\",{},{}]", esc(&tcx.def_path_str(*d)), id.map(|x| x.to_string()).unwrap_or("null".into())));
                return;
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), *d, a) {
                    if inst.def_id().is_local() {
                        let id = self.want(Work::Inst(inst));
                        out.insert(format!("[\"fn\",{},{}]", esc(&tcx.def_path_str(inst.def_id())), id.map(|x| x.to_string()).unwrap_or("null".into())));
                    } else {
                        out.insert(format!("[\"ext\",{},{}]", esc(&tcx.def_path_str(inst.def_id())), list(inst.args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>())));
                        self.uses(inst.def_id(), inst.args, seen, out, depth + 1);
                    }
                }
                return;
            }
            ty::Dynamic(p, ..) => {
                if let Some(p) = p.principal() { if p.def_id().is_local() { out.insert(format!("[\"dyn\",{}]", esc(&tcx.def_path_str(p.def_id())))); } }
                return;
            }
            _ => {}
        }
        let Ok(src) = tcx.codegen_select_candidate(self.env().as_query_input(tr)) else { return };
        match src {
            rustc_middle::traits::ImplSource::UserDefined(d) => {
                self.uses(tr.def_id, tr.args, seen, out, depth + 1);
                if d.impl_def_id.is_local() {
                    for it in tcx.associated_items(d.impl_def_id).in_definition_order() {
                        if let DefKind::AssocFn = tcx.def_kind(it.def_id) {
                            // printing is followed into the implementation
                            let id = if tcx.def_path_str(tr.def_id).contains("fmt::") && tcx.generics_of(it.def_id).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) && !d.args.has_param() {
                                match Instance::try_resolve(tcx, self.env(), tcx.associated_item(it.def_id).trait_item_def_id().unwrap_or(it.def_id), tr.args) {
                                    Ok(Some(inst)) if inst.def_id() == it.def_id => self.want(Work::Inst(inst)),
                                    _ => None,
                                }
                            } else { None };
                            out.insert(format!("[\"fn\",{},{}]", esc(&tcx.def_path_str(it.def_id)), id.map(|x| x.to_string()).unwrap_or("null".into())));
                        }
                    }
                } else {
                    if let ty::Adt(a, args) = tr.self_ty().kind() {
                        let n = tcx.def_path_str(a.did());
                        if n.ends_with("Cell") {
                            let t = args.types().next();
                            if let Some(t) = t { let ti = self.ty(t); out.insert(format!("[\"cell\",{},{},{}]", esc(&n), ti, esc(&tcx.def_path_str(tr.def_id)))); }
                        }
                    }
                    self.uses(d.impl_def_id, d.args, seen, out, depth + 1);
                }
            }
            rustc_middle::traits::ImplSource::Builtin(..) => {
                if let ty::Tuple(ts) = tr.self_ty().kind() {
                    for t in ts.iter() { self.use_of(ty::TraitRef::new(tcx, tr.def_id, [t]), seen, out, depth + 1); }
                }
            }
            _ => {}
        }
    }

    /// Remember `<T as Iterator>::next` for every type passed as a generic argument.
    fn note_iter(&mut self, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if t.has_param() || self.iter_seen.contains_key(&t) { return; }
        self.iter_seen.insert(t, None);
        let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return };
        if !matches!(t.kind(), ty::Adt(..) | ty::Ref(..)) { return; }
        let param_env = self.env().param_env;
        let _ = param_env;
        let (infcx_ok,) = (self.implements(t, tr),);
        if !infcx_ok { return; }
        let Some(next) = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "next") else { return };
        let args = tcx.mk_args(&[t.into()]);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), next.def_id, args) {
            let ti = self.ty(t);
            let _ = ti;
            let id = self.want(Work::Inst(inst));
            self.iter_seen.insert(t, id);
        }
    }
    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        let tcx = self.tcx;
        let tref = ty::TraitRef::new(tcx, tr, [t]);
        tcx.codegen_select_candidate(self.env().as_query_input(tref)).is_ok()
    }

    /// Record the vtable of a concrete type coerced to a trait object of a local trait.
    fn note_unsize(&mut self, k: &mir::CastKind, o: &mir::Operand<'tcx>, target: Ty<'tcx>, body: &mir::Body<'tcx>) {
        let tcx = self.tcx;
        if !format!("{:?}", k).contains("Unsize") { return; }
        let src = o.ty(body, tcx);
        if src.has_param() || target.has_param() { return; }
        fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, x, _) | ty::RawPtr(x, _) => Some(*x),
                ty::Adt(_, args) => args.types().next(),
                _ => None,
            }
        }
        let (Some(s), Some(d)) = (pointee(src), pointee(target)) else { return };
        let ty::Dynamic(preds, ..) = d.kind() else { return };
        let Some(principal) = preds.principal() else { return };
        if !principal.def_id().is_local() { return; }
        let tref = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, s));
        let tref = tcx.erase_and_anonymize_regions(tref);
        let si = self.ty(s);
        let trn = tcx.def_path_str(principal.def_id());
        if self.vts.contains_key(&(si, trn.clone())) { return; }
        let mut ms = Vec::new();
        for it in tcx.associated_items(principal.def_id()).in_definition_order() {
            if !matches!(tcx.def_kind(it.def_id), DefKind::AssocFn) { continue; }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), it.def_id, tref.args) {
                let id = self.want(Work::Inst(inst));
                ms.push(format!("[{},{}]", esc(it.name().as_str()), id.map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        self.vts.insert((si, trn.clone()), format!("[{},{},{}]", si, esc(&trn), list(ms)));
    }

    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> String {
        let mut out = vec![p.local.as_usize().to_string()];
        let _ = body;
        for e in p.projection.iter() {
            out.push(match e {
                mir::ProjectionElem::Deref => "\"*\"".to_string(),
                mir::ProjectionElem::Field(f, t) => { let ti = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), ti) }
                mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                mir::ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                mir::ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                mir::ProjectionElem::OpaqueCast(_) => "\"o\"".to_string(),
                _ => "\"o\"".to_string(),
            });
        }
        format!("[{}]", out.join(","))
    }

    fn bytes_of(&self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        // &str / &[u8] / &[u8; N]
        let tcx = self.tcx;
        match v {
            mir::ConstValue::Slice { alloc_id, meta } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let inner = t.builtin_deref(true)?;
                let ok = match inner.kind() { ty::Str => true, ty::Slice(e) => *e == tcx.types.u8, _ => false };
                if !ok { return None; }
                Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec())
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let inner = t.builtin_deref(true)?;
                if let ty::Array(e, n) = inner.kind() {
                    if *e != tcx.types.u8 { return None; }
                    let n = n.try_to_target_usize(tcx)? as usize;
                    let (prov, off) = p.into_raw_parts();
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) else { return None };
                    let off = off.bytes() as usize;
                    return Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec());
                }
                None
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, span: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut out = format!("{{\"t\":{ti}");
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.skip_binder();
            let r = self.callee_args(*did, args);
            let _ = write!(out, ",\"fn\":{r}}}");
            return out;
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if let Some(inst) = self.cur_inst {
                    let id = self.want(Work::Promoted(inst, p));
                    if let Some(id) = id { let _ = write!(out, ",\"body\":{id}"); }
                }
            } else {
                let nm = esc(&tcx.def_path_str(u.def));
                let _ = write!(out, ",\"name\":{nm}");
                if u.def.is_local() && u.args.types().next().is_none() {
                    if let Some(id) = self.want(Work::ConstBody(u.def)) { let _ = write!(out, ",\"body\":{id}"); }
                }
            }
        }
        match c.eval(tcx, self.env(), span) {
            Ok(v) => {
                match v {
                    mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                        let _ = write!(out, ",\"v\":{}", esc(&i.to_bits_unchecked().to_string()));
                    }
                    mir::ConstValue::ZeroSized => { let _ = write!(out, ",\"z\":1"); }
                    _ => {}
                }
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        let _ = write!(out, ",\"static\":{}", esc(&tcx.def_path_str(d)));
                    }
                }
                if let Some(b) = self.bytes_of(v, t) {
                    let _ = write!(out, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                }
            }
            Err(_) => { let _ = write!(out, ",\"err\":1"); }
        }
        out.push('}');
        out
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, body: &mir::Body<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            mir::Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, c.span)),
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body)),
            Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"rep\",{},{}]", self.operand(o, body), n) }
            Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p, body)),
            RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p, body)),
            Cast(k, o, t) => { self.note_unsize(k, o, *t, body); let ft = o.ty(body, self.tcx); let fi = self.ty(ft); let ti = self.ty(*t); format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, body), fi, ti) }
            BinaryOp(op, b) => {
                let ti = { let t = b.0.ty(body, self.tcx); self.ty(t) };
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0, body), self.operand(&b.1, body), ti)
            }
            UnaryOp(op, o) => {
                let ti = { let t = o.ty(body, self.tcx); self.ty(t) };
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(o, body), ti)
            }
            Discriminant(p) => { let t = p.ty(body, self.tcx).ty; let ti = self.ty(t); format!("[\"disc\",{},{}]", self.place(p, body), ti) }
            Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.operand(o, body)).collect::<Vec<_>>());
                let ti = { let t = r.ty(body, self.tcx); self.ty(t) };
                let (kk, v) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{kk}\",{ti},{v},{os}]")
            }
            CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn line(&self, span: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = span.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
    }

    fn body(&mut self, id: usize, w: Work<'tcx>) {
        let tcx = self.tcx;
        self.cur_env = TypingEnv::fully_monomorphized();
        let (body, inst, name, full, extra): (mir::Body<'tcx>, Option<Instance<'tcx>>, String, String, String) = match w {
            Work::Inst(inst) => {
                let b = tcx.instance_mir(inst.def).clone();
                let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, b));
                let did = inst.def_id();
                let n = tcx.def_path_str(did);
                let full = tcx.def_path_str_with_args(did, inst.args);
                let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once", InstanceKind::Shim(ShimKind::Clone(..)) => "clone", _ => "shim" };
                let dk = format!("{:?}", tcx.def_kind(did));
                let parent = tcx.opt_parent(did).map(|p| tcx.def_path_str(p)).unwrap_or_default();
                let tr = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| format!("{}", t.skip_binder().print_only_trait_path())).unwrap_or_default();
                let selfty = tcx.impl_of_assoc(did).map(|i| format!("{}", tcx.type_of(i).skip_binder())).unwrap_or_default();
                let is_unsafe = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
                (b, Some(inst), n, full, format!("\"kind\":\"{kind}\",\"dk\":{},\"local\":{},\"parent\":{},\"trait\":{},\"self\":{},\"m\":{},\"unsafe\":{}", esc(&dk), did.is_local(), esc(&parent), esc(&tr), esc(&selfty),
                    esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()), is_unsafe))
            }
            Work::Promoted(inst, p) => {
                let b = tcx.promoted_mir(inst.def_id())[p].clone();
                let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, b));
                let n = format!("{}::promoted[{}]", tcx.def_path_str(inst.def_id()), p.as_usize());
                (b, Some(inst), n.clone(), n, format!("\"kind\":\"promoted\",\"local\":{}", inst.def_id().is_local()))
            }
            Work::ConstBody(d) => {
                let b = tcx.mir_for_ctfe(d).clone();
                let n = tcx.def_path_str(d);
                (b, Some(Instance::mono(tcx, d)), n.clone(), n, "\"kind\":\"const\",\"local\":true".into())
            }
            Work::Generic(did) => {
                self.cur_env = TypingEnv::post_analysis(tcx, did);
                let b = tcx.optimized_mir(did).clone();
                let n = tcx.def_path_str(did);
                let dk = format!("{:?}", tcx.def_kind(did));
                let parent = tcx.opt_parent(did).map(|p| tcx.def_path_str(p)).unwrap_or_default();
                let tr = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| format!("{}", t.skip_binder().print_only_trait_path())).unwrap_or_default();
                let selfty = tcx.impl_of_assoc(did).map(|i| format!("{}", tcx.type_of(i).skip_binder())).unwrap_or_default();
                (b, None, n.clone(), n, format!("\"kind\":\"generic\",\"dk\":{},\"local\":true,\"parent\":{},\"trait\":{},\"self\":{},\"m\":{}", esc(&dk), esc(&parent), esc(&tr), esc(&selfty),
                    esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())))
            }
        };
        self.cur_inst = inst;
        let (file, line) = self.line(body.span);
        let locals = list(body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p, &body);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (_, ln) = self.line(s.source_info.span);
                        let p = self.place(&b.0, &body);
                        let r = self.rvalue(&b.1, &body);
                        st.push(format!("[\"=\",{p},{r},{ln}]"));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &body);
                        st.push(format!("[\"sd\",{p},{}]", variant_index.as_usize()));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    mir::StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, ln) = self.line(t.source_info.span);
            use mir::TerminatorKind::*;
            let ts = match &t.kind {
                Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let di = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, &body), list(v), targets.otherwise().as_usize(), di)
                }
                UnwindResume => "[\"resume\"]".into(),
                UnwindTerminate(_) => "[\"abort\"]".into(),
                Return => "[\"ret\"]".into(),
                Unreachable => "[\"unreachable\"]".into(),
                Drop { place, target, .. } => {
                    let pt = place.ty(&body, tcx).ty;
                    let nd = pt.needs_drop(tcx, self.env());
                    let pi = self.ty(pt);
                    format!("[\"drop\",{},{},{},{}]", self.place(place, &body), target.as_usize(), pi, nd)
                }
                Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body, tcx);
                    let f = if let ty::FnDef(did, a) = ft.kind() { self.callee_args(*did, a.skip_binder()) } else { format!("{{\"op\":{},\"t\":{}}}", self.operand(func, &body), { self.ty(ft) }) };
                    let av = list(args.iter().map(|a| self.operand(&a.node, &body)).collect::<Vec<_>>());
                    let dt = destination.ty(&body, tcx).ty;
                    let di = self.ty(dt);
                    let d = self.place(destination, &body);
                    let tg = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                    let at = list(args.iter().map(|a| { let t = a.node.ty(&body, tcx); self.ty(t).to_string() }).collect::<Vec<_>>());
                    format!("[\"call\",{f},{av},{d},{tg},{di},{at}]")
                }
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &body);
                    use mir::AssertKind::*;
                    let (m, ti) = match &**msg {
                        BoundsCheck { .. } => ("bounds".to_string(), "null".to_string()),
                        Overflow(op, a, _) => (format!("overflow_{:?}", op), { let t = a.ty(&body, tcx); self.ty(t).to_string() }),
                        OverflowNeg(a) => ("overflow_Neg".to_string(), { let t = a.ty(&body, tcx); self.ty(t).to_string() }),
                        DivisionByZero(_) => ("div0".to_string(), "null".into()),
                        RemainderByZero(_) => ("rem0".to_string(), "null".into()),
                        _ => ("other".to_string(), "null".into()),
                    };
                    format!("[\"assert\",{c},{expected},\"{m}\",{},{ti}]", target.as_usize())
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("[{},{},{},{}]", list(st), ts, ln, if bb.is_cleanup { 1 } else { 0 }));
        }
        let spread = body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        self.fn_out[id] = format!("{{\"id\":{id},\"n\":{},\"full\":{},{extra},\"file\":{},\"line\":{line},\"args\":{},\"spread\":{spread},\"locals\":{locals},\"names\":{},\"bb\":{}}}",
            esc(&name), esc(&full), esc(&file), body.arg_count, list(names), list(blocks));
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![], fns: HashMap::new(), queue: VecDeque::new(), fn_out: vec![], iter_seen: HashMap::new(), cur_inst: None, cur_env: TypingEnv::fully_monomorphized(), vts: Default::default() };
    let mut generic = Vec::new();
    let mut owners = 0;
    for l in tcx.hir_body_owners() {
        let did = l.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        owners += 1;
        let g = tcx.generics_of(did);
        if g.requires_monomorphization(tcx) {
            generic.push(did);
            continue;
        }
        let inst = Instance::mono(tcx, did);
        d.want(Work::Inst(inst));
    }
    while let Some((i, w)) = d.queue.pop_front() { d.body(i, w); }
    let insts: std::collections::HashSet<DefId> = d.fns.keys().filter_map(|w| if let Work::Inst(i) = w { Some(i.def_id()) } else { None }).collect();
    let mut uninst = Vec::new();
    for g in &generic {
        if insts.contains(g) { continue; }
        let p = tcx.def_path_str(*g);
        if p.contains("_DERIVE_") && !p.contains("RangeImpl") { continue; }
        uninst.push(esc(&p));
        d.want(Work::Generic(*g));
    }
    while let Some((i, w)) = d.queue.pop_front() { d.body(i, w); }
    d.cur_env = TypingEnv::fully_monomorphized();
    // trait impls of local traits and of the traits the rules ask about, for dynamic dispatch
    let mut impls = Vec::new();
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for l in is.iter() {
            let did = l.to_def_id();
            let self_ty = tcx.type_of(did).instantiate_identity().skip_normalization();
            let selfs = format!("{}", self_ty);
            let mut ms = Vec::new();
            for it in tcx.associated_items(did).in_definition_order() {
                if let DefKind::AssocFn = tcx.def_kind(it.def_id) {
                    let id = if tcx.generics_of(it.def_id).requires_monomorphization(tcx) { None } else { d.fns.get(&Work::Inst(Instance::mono(tcx, it.def_id))).copied() };
                    ms.push(format!("[{},{}]", esc(it.name().as_str()), id.map(|x| x.to_string()).unwrap_or("null".into())));
                }
            }
            let uns = tcx.impl_trait_header(did).safety.is_unsafe();
            let (file, line) = d.line(tcx.def_span(did));
            let derived = tcx.is_automatically_derived(did);
            impls.push(format!("{{\"trait\":{},\"self\":{},\"m\":{},\"unsafe\":{uns},\"file\":{},\"line\":{line},\"derived\":{derived}}}", esc(&tcx.def_path_str(*tr)), esc(&selfs), list(ms), esc(&file)));
        }
    }
    let mut iters = Vec::new();
    let seen: Vec<(Ty<'_>, Option<usize>)> = d.iter_seen.iter().map(|(a, b)| (*a, *b)).collect();
    for (t, id) in seen {
        if let Some(id) = id { let ti = d.ty(t); iters.push((ti, id)); }
    }
    iters.sort();
    while let Some((i, w)) = d.queue.pop_front() { d.body(i, w); }
    let mut s = String::new();
    s.push_str("{\"types\":[\n");
    s.push_str(&d.ty_out.iter().map(|x| x.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n],\"fns\":[\n");
    s.push_str(&d.fn_out.join(",\n"));
    s.push_str("\n],\"impls\":[\n");
    s.push_str(&impls.join(",\n"));
    let _ = write!(s, "\n],\"iters\":{},\"generic\":{},\"owners\":{},\"vts\":{}}}", list(iters.iter().map(|(a, b)| format!("[{a},{b}]"))), list(uninst), owners, list(d.vts.values().cloned()));
    std::fs::write(out, s).expect("write dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("HUSHMIR_OUT") {
            let dir = std::path::PathBuf::from(&out);
            let file = dir.join(format!("{}.json", tcx.crate_name(rustc_span::def_id::LOCAL_CRATE)));
            rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, file.to_str().unwrap()));
        }
        Compilation::Continue
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut a: Vec<String> = args[1..].to_vec();
    a.push("-Zmir-opt-level=0".into());
    a.push("-Zub-checks=no".into());
    rustc_driver::compiler_entrypoint(&a, &mut Cb);
}
