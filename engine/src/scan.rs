//! Facts about the type-checked library crate: its bodies and what they refer to, its types, statics and unsafe code.
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor as HirVisitor};
use rustc_middle::mir::visit::{TyContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv, Unnormalized};
use rustc_span::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use crate::js;

fn arr(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }
fn strs<'a>(v: impl IntoIterator<Item = &'a String>) -> String { arr(v.into_iter().map(|s| js(s))) }
fn krate(tcx: TyCtxt<'_>, d: DefId) -> String { tcx.crate_name(d.krate).to_string() }
/// the crate of the macro a span comes from ("" if written out)
fn expn(tcx: TyCtxt<'_>, s: Span) -> String {
    let mut c = s.ctxt();
    let mut out = String::new();
    // the outermost macro call decides: everything below it is that macro's doing
    for _ in 0..32 {
        let d = c.outer_expn_data();
        if matches!(d.kind, ExpnKind::Root) { break; }
        out = match (d.kind, d.macro_def_id) { (ExpnKind::Desugaring(_), _) => out, (ExpnKind::AstPass(_), _) => "core".into(), (_, Some(m)) => krate(tcx, m), (_, None) => "?".into() };
        c = d.call_site.ctxt();
    }
    out
}
fn at(tcx: TyCtxt<'_>, d: DefId) -> String { tcx.def_path_str(d) }

struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, owner: LocalDefId, out: Vec<(String, String, String)> }
impl<'tcx> HirVisitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.out.push(("unsafe block".into(), at(self.tcx, self.owner.to_def_id()), expn(self.tcx, b.span))); }
        intravisit::walk_block(self, b)
    }
    fn visit_inline_asm(&mut self, a: &'tcx rustc_hir::InlineAsm<'tcx>, id: rustc_hir::HirId) {
        self.out.push(("inline assembly".into(), at(self.tcx, self.owner.to_def_id()), String::new()));
        intravisit::walk_inline_asm(self, a, id)
    }
}

/// type aliases of other crates the source names: what they stand for can differ between targets
struct Aliases<'tcx> { tcx: TyCtxt<'tcx>, out: BTreeSet<(String, String)> }
impl<'tcx> HirVisitor<'tcx> for Aliases<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_path(&mut self, p: &rustc_hir::Path<'tcx>, id: rustc_hir::HirId) {
        if let rustc_hir::def::Res::Def(DefKind::TyAlias, d) = p.res { if !d.is_local() { self.out.insert((at(self.tcx, id.owner.to_def_id()), format!("{}::{}", krate(self.tcx, d), at(self.tcx, d)))); } }
        intravisit::walk_path(self, p)
    }
}

struct Body1<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, body: &'tcx Body<'tcx>, refs: BTreeMap<(String, String), bool>, local: BTreeSet<String>, statics: BTreeSet<String>, alloc: BTreeSet<String>, casts: BTreeSet<String>, zc: BTreeSet<String> }
impl<'tcx> Body1<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            let GenericArgKind::Type(t) = a.kind() else { continue };
            match t.kind() {
                ty::Adt(d, args) => {
                    if krate(self.tcx, d.did()) == "alloc" { self.alloc.insert(at(self.tcx, d.did())); }
                    if krate(self.tcx, d.did()) == "zerocopy" && self.tcx.item_name(d.did()).as_str() == "Ref" { if let Some(x) = args.types().nth(1) { self.zc.insert(x.to_string()); } }
                }
                ty::Closure(d, _) | ty::FnDef(d, _) => { if let Some(l) = d.as_local() { self.local.insert(at(self.tcx, l.to_def_id())); } }
                _ => {}
            }
        }
    }
    fn def(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        let mut d = d;
        let mut args = args;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !args.has_escaping_bound_vars() {
            let args2 = tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(args)).unwrap_or(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args2) { d = i.def_id(); args = i.args; }
        }
        let us = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().skip_binder().safety().is_unsafe();
        self.refs.insert((krate(tcx, d), at(tcx, d)), us);
        if let Some(l) = d.as_local() { self.local.insert(at(tcx, l.to_def_id())); }
        for a in args.iter() {
            let GenericArgKind::Type(t) = a.kind() else { continue };
            self.ty(t);
            // a library function working on a type of this crate may call the methods of the traits it asks for
            if !d.is_local() {
                let mut traits = BTreeSet::new();
                for p in tcx.param_env(d).caller_bounds() { if let Some(tp) = p.as_trait_clause() { traits.insert(at(tcx, tp.def_id())); } }
                for w in t.walk() { if let GenericArgKind::Type(t) = w.kind() { if let ty::Adt(x, _) = t.kind() { if let Some(l) = x.did().as_local() { for tr in &traits { self.local.insert(format!("{tr} of {}", at(tcx, l.to_def_id()))); } } } } }
            }
        }
    }
}
impl<'tcx> Visitor<'tcx> for Body1<'tcx> {
    fn visit_ty(&mut self, t: Ty<'tcx>, _: TyContext) { self.ty(t); }
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() { self.def(d, args.skip_binder()); }
        self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ { if self.tcx.is_static(u.def) { self.statics.insert(at(self.tcx, u.def)); } }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let Some(a) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) { if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = a { self.statics.insert(at(self.tcx, d)); } }
        }
        self.super_const_operand(c, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        if let Rvalue::Cast(k, o, t) = r {
            let from = o.ty(self.body, self.tcx);
            if matches!(k, CastKind::PointerWithExposedProvenance | CastKind::Transmute) { self.casts.insert(format!("{k:?} {from} -> {t}")); }
        }
        if let Rvalue::Aggregate(k, _) = r { if let AggregateKind::Closure(d, _) = **k { if let Some(l) = d.as_local() { self.local.insert(at(self.tcx, l.to_def_id())); } } }
        self.super_rvalue(r, l);
    }
}

/// why a type could hold shared mutable state, anything foreign or a raw pointer
fn bad<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut BTreeSet<String>, path: &str, out: &mut Vec<String>) {
    if !seen.insert(t.to_string()) || seen.len() > 4000 { return; }
    match t.kind() {
        ty::Adt(d, args) => {
            if d.is_unsafe_cell() { out.push(format!("{path}: interior mutability ({t})")); return; }
            let name = at(tcx, d.did());
            for v in d.variants() { for f in &v.fields {
                let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                bad(tcx, ft, seen, &format!("{path}.{}", f.name), out);
            } }
            // library types: what they hold through raw pointers is described by their arguments
            let _ = name;
            for a in args.types() { bad(tcx, a, seen, &format!("{path}<..>"), out); }
        }
        ty::Ref(_, x, m) => { let _ = m; bad(tcx, *x, seen, &format!("*{path}"), out) }
        ty::RawPtr(x, _) => {
            // pointers inside core and alloc containers and iterators are theirs
            if path.is_empty() || !path.contains('.') { out.push(format!("{path}: raw pointer ({t})")); }
            bad(tcx, *x, seen, &format!("*{path}"), out)
        }
        ty::Slice(x) | ty::Array(x, _) | ty::Pat(x, _) => bad(tcx, *x, seen, &format!("{path}[]"), out),
        ty::Tuple(ts) => for x in ts.iter() { bad(tcx, x, seen, path, out) },
        ty::Dynamic(..) => out.push(format!("{path}: trait object ({t})")),
        ty::Foreign(_) => out.push(format!("{path}: foreign type ({t})")),
        ty::FnPtr(..) => {}
        _ => {}
    }
}

pub fn scan(tcx: TyCtxt<'_>) -> String {
    let mut o = String::from("{");
    let ev = tcx.effective_visibilities(());
    let crates: BTreeSet<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let _ = write!(o, "\"crate\":{},\"crates\":{}", js(tcx.crate_name(LOCAL_CRATE).as_str()), strs(&crates));
    // crates named in the source
    let mut ext = BTreeSet::new();
    let (mut unsafes, mut statics, mut adts, mut foreign) = (vec![], vec![], vec![], vec![]);
    let items = tcx.hir_crate_items(());
    for d in items.definitions() {
        let did = d.to_def_id();
        let sp = tcx.def_span(did);
        match tcx.def_kind(did) {
            DefKind::ExternCrate => { if let Some(c) = tcx.extern_mod_stmt_cnum(d) { ext.insert(tcx.crate_name(c).to_string()); } }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut why = vec![];
                if mutability.is_mut() { why.push("static mut".to_string()); }
                if !t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did)) { why.push(format!("interior mutability ({t})")); }
                let mut seen = BTreeSet::new();
                bad(tcx, t, &mut seen, "static", &mut why);
                statics.push(format!("{{\"path\":{},\"why\":{}}}", js(&at(tcx, did)), strs(&why)));
            }
            DefKind::ForeignMod => foreign.push(js(&at(tcx, did))),
            DefKind::Impl { of_trait: true } => { if tcx.impl_trait_header(did).safety.is_unsafe() { unsafes.push(("unsafe impl".to_string(), format!("{}", tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip()), expn(tcx, sp))); } }
            DefKind::Fn | DefKind::AssocFn => { if tcx.fn_sig(did).skip_binder().skip_binder().safety().is_unsafe() { unsafes.push(("unsafe fn".into(), at(tcx, did), expn(tcx, sp))); } }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut why = vec![];
                let mut seen = BTreeSet::new();
                bad(tcx, t, &mut seen, &at(tcx, did), &mut why);
                if tcx.def_kind(did) == DefKind::Union { why.push("union".into()); }
                let env = TypingEnv::non_body_analysis(tcx, did);
                // on-disk structures: those that can be made from bytes
                let zc = tcx.all_local_trait_impls(()).iter().any(|(tr, impls)| krate(tcx, *tr) == "zerocopy" && tcx.item_name(*tr).as_str() == "FromBytes" && impls.iter().any(|i| tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip() == t));
                let mut fields = vec![];
                for v in tcx.adt_def(did).variants() { for f in &v.fields { fields.push(format!("[{},{}]", js(f.name.as_str()), js(&tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string()))); } }
                let align = tcx.layout_of(env.as_query_input(t)).map(|l| l.align.abi.bytes() as i64).unwrap_or(-1);
                adts.push(format!("{{\"path\":{},\"public\":{},\"why\":{},\"from_bytes\":{zc},\"align\":{align},\"fields\":{},\"expn\":{},\"traits\":{}}}", js(&at(tcx, did)), ev.is_reachable(d), strs(&why), arr(fields), js(&expn(tcx, sp)), {
                    let mut v: BTreeSet<String> = BTreeSet::new();
                    for (tr, impls) in tcx.all_local_trait_impls(()).iter() { for i in impls { if let ty::Adt(a, _) = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip().kind() { if a.did() == did { v.insert(at(tcx, *tr)); } } } }
                    strs(&v)
                }));
            }
            DefKind::GlobalAsm => unsafes.push(("global assembly".into(), at(tcx, did), String::new())),
            _ => {}
        }
    }
    let mut al = Aliases { tcx, out: BTreeSet::new() };
    tcx.hir_walk_toplevel_module(&mut al);
    let mut bodies = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        if tcx.typeck_root_def_id(did) == did {
            let mut u = Unsafe { tcx, owner: d, out: vec![] };
            if let Some(b) = tcx.hir_maybe_body_owned_by(d) { u.visit_body(b); }
            unsafes.extend(u.out);
        }
    }
    for d in tcx.mir_keys(()) {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if matches!(kind, DefKind::Ctor(..)) { continue; }
        let body: &Body<'_> = if isfn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
        let env = TypingEnv::post_analysis(tcx, did);
        let mut b = Body1 { tcx, env, body, refs: BTreeMap::new(), local: BTreeSet::new(), statics: BTreeSet::new(), alloc: BTreeSet::new(), casts: BTreeSet::new(), zc: BTreeSet::new() };
        b.visit_body(body);
        for p in tcx.promoted_mir(did).iter() { b.visit_body(p); }
        let parent_impl = tcx.impl_of_assoc(did).filter(|i| matches!(tcx.def_kind(*i), DefKind::Impl { of_trait: true }));
        let tr = parent_impl.map(|i| at(tcx, tcx.impl_trait_ref(i).skip_binder().def_id)).unwrap_or_default();
        let selfty = tcx.impl_of_assoc(did).and_then(|i| match tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() { ty::Adt(a, _) => Some(at(tcx, a.did())), _ => None }).unwrap_or_default();
        let ret = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder().output() } else { body.return_ty() };
        let ret = tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(tcx.erase_and_anonymize_regions(ret))).unwrap_or(ret);
        let mut owned = BTreeSet::new();
        for a in ret.walk() { if let GenericArgKind::Type(t) = a.kind() { if let ty::Adt(d, _) = t.kind() { if krate(tcx, d.did()) == "alloc" { owned.insert(at(tcx, d.did())); } } } }
        let sp = tcx.def_span(did);
        bodies.push(format!("{{\"path\":{},\"kind\":{},\"public\":{},\"trait\":{},\"self\":{},\"expn\":{},\"refs\":{},\"local\":{},\"statics\":{},\"alloc\":{},\"owned\":{},\"casts\":{},\"views\":{},\"ret\":{}}}",
            js(&at(tcx, did)), js(&format!("{kind:?}")), ev.is_reachable(*d) || !tr.is_empty(), js(&tr), js(&selfty), js(&expn(tcx, sp)),
            arr(b.refs.iter().map(|((c, p), u)| format!("[{},{},{u}]", js(c), js(p)))), strs(&b.local), strs(&b.statics), strs(&b.alloc), strs(&owned), strs(&b.casts), strs(&b.zc), js(&ret.to_string())));
    }
    let _ = write!(o, ",\"aliases\":{},\"extern\":{},\"unsafe\":{},\"statics\":{},\"foreign\":{},\"adts\":{},\"bodies\":{}}}", arr(al.out.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b)))), strs(&ext), arr(unsafes.iter().map(|(a, b, c)| format!("[{},{},{}]", js(a), js(b), js(c)))), arr(statics), arr(foreign), arr(adts), arr(bodies));
    o
}

struct Cb(String);
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(scan(tcx));
        let _ = std::fs::write(&self.0, s);
        rustc_driver::Compilation::Continue
    }
}
pub fn run(args: &[String], out: &str) -> i32 {
    match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(args, &mut Cb(out.to_string()))) { Ok(_) => 0, Err(_) => 1 }
}
