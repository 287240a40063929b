// mirdump: extracts the type-checked MIR of a workspace crate (and of the library bodies it reaches) as JSON.
// Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
#![allow(rustc::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use rustc_middle::ty::print::PrintTraitRefExt;
use std::fmt::Write as _;

mod j {
    pub fn s(x: &str) -> String {
        let mut o = String::with_capacity(x.len() + 2);
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                '\r' => o.push_str("\\r"),
                c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    pub fn arr(v: &[String]) -> String {
        format!("[{}]", v.join(","))
    }
    pub fn bytes(b: &[u8]) -> String {
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        arr(&v)
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d))
    ))
}
fn tystr<'tcx>(t: impl std::fmt::Display) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t))
    ))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Item<'tcx> {
    inst: Instance<'tcx>,
    promoted: Option<u32>,
    env: Option<DefId>, // owner of the typing environment when the instance has parameters
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    items: HashMap<Item<'tcx>, usize>,
    queue: VecDeque<(usize, Item<'tcx>)>,
    types: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<String>,
    vt: HashMap<(Ty<'tcx>, Ty<'tcx>), ()>,
    vtout: Vec<String>,
    env: Option<DefId>,
    tyq: VecDeque<(usize, Ty<'tcx>, Option<DefId>)>,
    statics: Vec<String>,
}

const STD_OK: &[&str] = &[
    "core::option", "core::result", "core::cmp", "core::convert", "core::iter", "core::ops", "core::bool",
    "core::tuple", "core::array", "core::borrow", "core::clone", "core::default", "core::mem::maybe",
    "core::num", "core::ascii", "core::char", "core::slice::iter", "core::slice::cmp", "core::any", "core::pin",
    "alloc::borrow", "alloc::slice", "std::io", "core::io", "alloc::io", "byteorder", "core::str::traits", "core::hint",
    "core::slice::<impl [T]>", "core::slice::", "core::str::<impl str>", "futures::future::Future", "futures::stream::Stream",
    "core::intrinsics", "alloc::boxed", "alloc::vec", "alloc::string", "core::fmt", "core::error",
    "bytes::bytes", "bytes::buf", "hyper::buffer", "unicase", "core::mem",
];

impl<'tcx> Cx<'tcx> {
    fn tenv(&self) -> TypingEnv<'tcx> {
        match self.env {
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                let k = tcx.def_kind(d);
                if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    return false;
                }
                if d.krate == LOCAL_CRATE {
                    return true;
                }
                if matches!(k, DefKind::Ctor(..)) {
                    return true;
                }
                if !tcx.is_mir_available(d) {
                    return false;
                }
                let cn = tcx.crate_name(d.krate).to_string();
                if cn == "websocket_base" || cn == "websocket" {
                    return true;
                }
                let p = path(tcx, d);
                let p2 = p.trim_start_matches('<');
                STD_OK.iter().any(|m| p.starts_with(m) || p2.starts_with(m) || p.contains(&format!(" as {}", m)))
                    && matches!(cn.as_str(), "core" | "alloc" | "std" | "byteorder" | "unicase")
            }
            InstanceKind::Shim(s) => !matches!(s, ty::ShimKind::VTable(..)) && !tystr_shim(&s).contains("Drop"),
            _ => false,
        }
    }

    fn item(&mut self, inst: Instance<'tcx>, promoted: Option<u32>) -> Option<usize> {
        if !self.want_body(&inst) {
            return None;
        }
        let env = if inst.args.has_param() || inst.args.has_aliases() { self.env } else { None };
        let it = Item { inst, promoted, env };
        if let Some(i) = self.items.get(&it) {
            return Some(*i);
        }
        if self.items.len() > 40000 {
            return None;
        }
        let n = self.items.len();
        self.items.insert(it, n);
        self.queue.push_back((n, it));
        Some(n)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let n = self.tyout.len();
        self.types.insert(t, n);
        self.tyout.push(String::new());
        self.tyq.push_back((n, t, self.env));
        n
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t).to_string()).collect();
        j::arr(&v)
    }

    // description of a callable definition with arguments
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"path\":{},\"args\":{}", j::s(&path(tcx, d)), self.args(args));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{},\"name\":{}", j::s(&path(tcx, tr)), j::s(tcx.item_name(d).as_str()));
        } else if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", j::s(n.as_str()));
        }
        let env = self.tenv();
        if let Some(intr) = tcx.intrinsic(d) {
            let _ = write!(o, ",\"intrinsic\":{}", j::s(intr.name.as_str()));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args))) {
            Ok(Ok(Some(i))) => {
                let _ = write!(o, ",\"rpath\":{},\"rargs\":{}", j::s(&path(tcx, i.def_id())), self.args(i.args));
                let kind = match i.def {
                    InstanceKind::Item(x) => match tcx.def_kind(x) {
                        DefKind::Ctor(of, _) => {
                            let (adt, vi) = match of {
                                rustc_hir::def::CtorOf::Struct => (tcx.parent(x), 0usize),
                                rustc_hir::def::CtorOf::Variant => {
                                    let v = tcx.parent(x);
                                    let a = tcx.parent(v);
                                    (a, tcx.adt_def(a).variant_index_with_id(v).as_usize())
                                }
                            };
                            let at = Ty::new_adt(tcx, tcx.adt_def(adt), i.args);
                            let _ = write!(o, ",\"ctor\":[{},{}]", self.ty(at), vi);
                            "ctor".to_string()
                        }
                        _ => "item".to_string(),
                    },
                    InstanceKind::Virtual(..) => "virtual".to_string(),
                    InstanceKind::Intrinsic(..) => "intrinsic".to_string(),
                    InstanceKind::Shim(s) => format!("shim:{}", tystr_shim(&s)),
                    _ => "other".to_string(),
                };
                let _ = write!(o, ",\"kind\":{}", j::s(&kind));
                if let Some(n) = self.item(i, None) {
                    let _ = write!(o, ",\"fn\":{}", n);
                } else if kind == "item" && !i.def_id().is_local() {
                    // types of the parameters, for calls of functions that are not analysed
                    let sig = tcx.fn_sig(i.def_id()).instantiate(tcx, i.args).skip_norm_wip().skip_binder();
                    let v: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                    let _ = write!(o, ",\"ins\":{}", j::arr(&v));
                }
            }
            _ => {
                let _ = write!(o, ",\"kind\":\"unresolved\"");
            }
        }
        o.push('}');
        o
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = j::s(&tystr(t));
        let mut o = format!("{{\"s\":{}", name);
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64));
            }
            ty::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64));
            }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => {
                let env = self.tenv();
                let n = n.try_to_target_usize(tcx).or_else(|| {
                    let _ = env;
                    None
                });
                let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.map_or("null".into(), |x| x.to_string()));
            }
            ty::Slice(e) => {
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", self.ty(e));
            }
            ty::Ref(_, e, m) => {
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut());
            }
            ty::RawPtr(e, m) => {
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":{}", j::arr(&v));
            }
            ty::Adt(def, args) => {
                let a = self.args(args);
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{},\"adt\":\"{}\",\"args\":{},\"box\":{}", j::s(&path(tcx, def.did())), kind, a, def.is_box());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let env = self.tenv();
                        let ft = f.ty(tcx, args);
                        let ft2 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            tcx.try_normalize_erasing_regions(env, ft).ok()
                        }))
                        .ok()
                        .flatten();
                        let id = match ft2 {
                            Some(x) => self.ty(x).to_string(),
                            None => "null".into(),
                        };
                        fs.push(format!("[{},{}]", j::s(f.name.as_str()), id));
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("[{},{},{}]", j::s(v.name.as_str()), d, j::arr(&fs)));
                }
                let _ = write!(o, ",\"variants\":{}", j::arr(&vs));
                let _ = write!(o, ",\"local\":{}", def.did().krate == LOCAL_CRATE);
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(d.into(), args);
                let _ = write!(o, ",\"k\":\"fndef\",\"callee\":{}", c);
            }
            ty::Closure(d, args) => {
                let ca = args.as_closure();
                let up: Vec<String> = ca.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let inst = Instance { def: InstanceKind::Item(d.into()), args: tcx.erase_and_anonymize_regions(args) };
                let f = self.item(inst, None);
                let kind = if ca.kind_ty().to_opt_closure_kind().is_some() { format!("{:?}", ca.kind()) } else { "?".into() };
                let _ = write!(
                    o,
                    ",\"k\":\"closure\",\"path\":{},\"up\":{},\"fn\":{},\"ck\":{}",
                    j::s(&path(tcx, d.into())),
                    j::arr(&up),
                    f.map_or("null".into(), |x| x.to_string()),
                    j::s(&kind)
                );
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(preds, _) => {
                let pr = preds.principal_def_id().map(|d| path(tcx, d)).unwrap_or_default();
                let _ = write!(o, ",\"k\":\"dyn\",\"trait\":{}", j::s(&pr));
            }
            ty::Param(_) => o.push_str(",\"k\":\"param\""),
            ty::Alias(..) => o.push_str(",\"k\":\"alias\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        o
    }

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) {
        let tcx = self.tcx;
        let src = tcx.erase_and_anonymize_regions(src);
        let dst = tcx.erase_and_anonymize_regions(dst);
        if self.vt.insert((src, dst), ()).is_some() {
            return;
        }
        let ty::Dynamic(preds, _) = dst.kind() else { return };
        let Some(pr) = preds.principal() else { return };
        let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, src));
        let mut seen = vec![tr];
        let mut i = 0;
        let mut ms = vec![];
        while i < seen.len() {
            let t = seen[i];
            i += 1;
            for (c, _) in tcx.explicit_super_clauses_of(t.def_id).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                if let Some(tp) = c.instantiate_supertrait(tcx, ty::Binder::dummy(t)).as_trait_clause() {
                    let tp = tcx.instantiate_bound_regions_with_erased(tp).trait_ref;
                    if tp.self_ty() == src && !seen.contains(&tp) {
                        seen.push(tp);
                    }
                }
            }
            for it in tcx.associated_items(t.def_id).in_definition_order() {
                if !it.is_fn() {
                    continue;
                }
                let g = tcx.generics_of(it.def_id);
                if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < t.args.len() { t.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                });
                let margs = tcx.erase_and_anonymize_regions(margs);
                let c = self.callee(it.def_id, margs);
                ms.push(format!("{}:{}", j::s(&format!("{}::{}", path(tcx, t.def_id), it.name())), c));
            }
        }
        let (a, b) = (self.ty(src), self.ty(dst));
        self.vtout.push(format!("{{\"src\":{},\"dst\":{},\"m\":{{{}}}}}", a, b, ms.join(",")));
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 12 {
            return format!("{{\"k\":\"opaque\",\"ty\":{}}}", tid);
        }
        match v {
            ConstValue::ZeroSized => return format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
            ConstValue::Scalar(Scalar::Int(i)) if t.is_integral() || t.is_bool() || t.is_char() => {
                let sz = i.size();
                let val = if t.is_signed() { i.to_int(sz).to_string() } else { i.to_uint(sz).to_string() };
                return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", val, tid);
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", j::bytes(b), tid);
                        }
                        if let ty::Slice(e) = inner.kind() {
                            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                return format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}", j::bytes(b), tid);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        match t.kind() {
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                // thin pointer constant: follow it
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(_) if !matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) => {
                            let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let x = self.cval(iv, *inner, depth + 1);
                            return format!("{{\"k\":\"ref\",\"v\":{},\"ty\":{}}}", x, tid);
                        }
                        GlobalAlloc::Static(d) => {
                            let nm = path(tcx, d);
                            let x = match tcx.eval_static_initializer(d) {
                                Ok(a) if !tcx.is_mutable_static(d) && inner.is_freeze(tcx, self.tenv()) => {
                                    let id = tcx.reserve_and_set_memory_alloc(a);
                                    let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                                    self.cval(iv, *inner, depth + 1)
                                }
                                _ => return format!("{{\"k\":\"static\",\"path\":{},\"e\":{},\"ty\":{}}}", j::s(&nm), self.ty(*inner), tid),
                            };
                            return format!("{{\"k\":\"ref\",\"v\":{},\"static\":{},\"ty\":{}}}", x, j::s(&nm), tid);
                        }
                        _ => {}
                    }
                }
                // wide pointer stored in memory
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        let psz = tcx.data_layout.pointer_size();
                        let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: psz };
                        if let Ok(Scalar::Ptr(p, _)) = a.read_scalar(&tcx, r, true) {
                            let (prov, off) = p.prov_and_relative_offset();
                            match inner.kind() {
                                ty::Slice(_) | ty::Str => {
                                    let r2 = rustc_middle::mir::interpret::AllocRange { start: offset + psz, size: psz };
                                    if let Ok(Scalar::Int(m)) = a.read_scalar(&tcx, r2, false) {
                                        let n = m.to_target_usize(tcx);
                                        if off.bytes() == 0 {
                                            let sv = ConstValue::Slice { alloc_id: prov.alloc_id(), meta: n };
                                            return self.cval(sv, t, depth + 1);
                                        }
                                    }
                                }
                                ty::Dynamic(..) => {}
                                _ => {
                                    let sv = ConstValue::Scalar(Scalar::from_pointer(p.into(), &tcx).into());
                                    return self.cval(sv, t, depth + 1);
                                }
                            }
                        }
                    }
                }
                // pointer to slice of non-u8 elements
                if let ConstValue::Slice { alloc_id, meta } = v {
                    if let ty::Slice(e) = inner.kind() {
                        if !e.has_param() {
                            let at = Ty::new_array(tcx, *e, meta);
                            let x = self.cval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, at, depth + 1);
                            return format!("{{\"k\":\"ref\",\"v\":{},\"ty\":{}}}", x, tid);
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Array(..) | ty::Tuple(..) if !t.has_param() && !t.has_aliases() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return format!(
                        "{{\"k\":\"agg\",\"ty\":{},\"variant\":{},\"f\":{}}}",
                        tid,
                        d.variant.map_or("null".into(), |x| x.as_usize().to_string()),
                        j::arr(&fs)
                    );
                }
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let sz = match t.kind() {
                            ty::Bool => 1,
                            ty::Char => 4,
                            ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
                            ty::Uint(i) => i.bit_width().unwrap_or(64) / 8,
                            _ => 8,
                        };
                        let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(sz) };
                        if let Ok(s) = a.inner().read_scalar(&tcx, r, false) {
                            return self.cval(ConstValue::Scalar(s), t, depth + 1);
                        }
                    }
                }
            }
            _ => {}
        }
        format!("{{\"k\":\"opaque\",\"ty\":{}}}", tid)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let env = self.tenv();
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"k\":\"fn\",\"ty\":{}}}", self.ty(t));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span).ok()));
        if let Ok(Some(v)) = r {
            let out = self.cval(v, t, 0);
            if let Const::Unevaluated(u, _) = c.const_ {
                if u.promoted.is_none() {
                    return format!("{{\"k\":\"named\",\"path\":{},\"v\":{},\"ty\":{}}}", j::s(&path(tcx, u.def)), out, self.ty(t));
                }
                if out.contains("\"opaque\"") {
                    let inst = Instance { def: InstanceKind::Item(u.def), args: tcx.erase_and_anonymize_regions(u.args) };
                    if let Some(n) = self.item(inst, u.promoted.map(|p| p.as_u32())) {
                        return format!("{{\"k\":\"promoted\",\"fn\":{},\"ty\":{}}}", n, self.ty(t));
                    }
                }
            }
            return out;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let inst = Instance { def: InstanceKind::Item(u.def), args: tcx.erase_and_anonymize_regions(u.args) };
                if let Some(n) = self.item(inst, Some(p.as_u32())) {
                    return format!("{{\"k\":\"promoted\",\"fn\":{},\"ty\":{}}}", n, self.ty(t));
                }
            }
            return format!("{{\"k\":\"uneval\",\"path\":{},\"ty\":{}}}", j::s(&path(tcx, u.def)), self.ty(t));
        }
        format!("{{\"k\":\"opaque\",\"ty\":{}}}", self.ty(t))
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                _ => "\"?\"".into(),
            });
        }
        j::arr(&v)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            _ => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx);
                format!("[\"repeat\",{},{}]", self.operand(o), n.map_or("null".into(), |x| x.to_string()))
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ot = o.ty(&body.local_decls, tcx);
                if ks.contains("Unsize") {
                    fn tail<'t>(a: Ty<'t>, b: Ty<'t>, tcx: TyCtxt<'t>) -> Option<(Ty<'t>, Ty<'t>)> {
                        match (a.kind(), b.kind()) {
                            (ty::Ref(_, x, _), ty::Ref(_, y, _) | ty::RawPtr(y, _)) => Some((*x, *y)),
                            (ty::RawPtr(x, _), ty::RawPtr(y, _)) => Some((*x, *y)),
                            (ty::Adt(d, xa), ty::Adt(e, ya)) if d == e && (d.is_box() || xa.types().next().is_some()) => {
                                Some((xa.types().next()?, ya.types().next()?))
                            }
                            _ => {
                                let _ = tcx;
                                None
                            }
                        }
                    }
                    if let Some((x, y)) = tail(ot, *t, tcx) {
                        if let ty::Dynamic(..) = y.kind() {
                            if !matches!(x.kind(), ty::Dynamic(..)) {
                                self.vtable(x, y);
                            }
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", j::s(&ks), self.operand(o), self.ty(ot), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(&b.0), self.operand(&b.1), self.ty(t))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o), self.ty(t))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let v = j::arr(&v);
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), v),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", v),
                    AggregateKind::Adt(_, vi, _, _, f) => {
                        let t = r.ty(&body.local_decls, tcx);
                        format!("[\"agg\",\"adt\",{},{},{},{}]", self.ty(t), v, vi.as_usize(), f.map_or("null".into(), |x| x.as_usize().to_string()))
                    }
                    AggregateKind::Closure(..) => {
                        let t = r.ty(&body.local_decls, tcx);
                        format!("[\"agg\",\"closure\",{},{}]", self.ty(t), v)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,{}]", v),
                    _ => "[\"other\"]".to_string(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, n: usize, it: Item<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        self.env = it.env;
        let env = self.tenv();
        let inst = it.inst;
        let raw: Body<'tcx> = match it.promoted {
            None => tcx.instance_mir(inst.def).clone(),
            Some(p) => {
                let d = inst.def_id();
                tcx.promoted_mir(d)[Promoted::from_u32(p)].clone()
            }
        };
        let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw)).ok()
        }))
        .ok()
        .flatten()?;
        let mut o = String::new();
        let d = inst.def_id();
        let p = path(tcx, d);
        let _ = write!(o, "{{\"id\":{},\"path\":{},\"args\":{}", n, j::s(&p), self.args(inst.args));
        let ident = it.env == Some(d) || (it.env.is_none() && !inst.args.has_param());
        let _ = write!(o, ",\"crate\":{},\"root\":{}", j::s(tcx.crate_name(d.krate).as_str()), ident && d.krate == LOCAL_CRATE);
        if let Some(pn) = it.promoted {
            let _ = write!(o, ",\"promoted\":{}", pn);
        }
        if let InstanceKind::Shim(s) = inst.def {
            let _ = write!(o, ",\"shim\":{}", j::s(&tystr_shim(&s)));
        }
        if matches!(inst.def, InstanceKind::Item(_)) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(
                        o,
                        ",\"impl_trait\":{},\"impl_self\":{},\"impl_trait_ref\":{}",
                        j::s(&path(tcx, tr.def_id)),
                        j::s(&tystr(tr.self_ty())),
                        j::s(&tystr(PrintTraitRefExt::print_only_trait_path(tr)))
                    );
                } else {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl_self\":{}", j::s(&tystr(st)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"in_trait\":{}", j::s(&path(tcx, tr)));
            }
            if let Some(nm) = tcx.opt_item_name(d) {
                let _ = write!(o, ",\"name\":{}", j::s(nm.as_str()));
            }
            if d.is_local() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(d).is_public();
                let _ = write!(o, ",\"pub\":{}", vis);
            }
        }
        let _ = write!(o, ",\"span\":{},\"argc\":{}", j::s(&self.line(body.span)), body.arg_count);
        if let Some(sa) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sa.as_usize());
        }
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", j::arr(&ls));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), j::s(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":{}", j::arr(&names));
        let mut bs = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                bs.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for st in &data.statements {
                let ln = j::s(&self.line(st.source_info.span));
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0);
                        let rv = self.rvalue(&body, &b.1);
                        ss.push(format!("[\"=\",{},{},{}]", pl, rv, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", pl, variant_index.as_usize(), ln));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("[\"intr\",{}]", j::s(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let ln = j::s(&self.line(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), j::arr(&v), targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                            self.callee((*d).into(), a)
                        }
                        _ => format!("{{\"kind\":\"ptr\",\"op\":{}}}", self.operand(func)),
                    };
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        j::arr(&v),
                        self.place(destination),
                        target.map_or("null".into(), |x| x.as_usize().to_string()),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").split(" {").next().unwrap_or("").to_string();
                    let kind = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".into(),
                        _ => m,
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, j::s(&kind), target.as_usize(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unreachable\"]".into(),
                _ => "[\"other\"]".into(),
            };
            bs.push(format!("[{},{},{}]", j::arr(&ss), ts, ln));
        }
        let _ = write!(o, ",\"blocks\":{}}}", j::arr(&bs));
        Some(o)
    }
}

fn tystr_shim(s: &ty::ShimKind<'_>) -> String {
    let d = format!("{:?}", s);
    d.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string()
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let mut cx = Cx {
            tcx,
            items: HashMap::new(),
            queue: VecDeque::new(),
            types: HashMap::new(),
            tyout: vec![],
            vt: HashMap::new(),
            vtout: vec![],
            env: None,
            tyq: VecDeque::new(),
            statics: vec![],
        };
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            cx.env = Some(d);
            cx.item(Instance { def: InstanceKind::Item(d), args }, None);
        }
        let mut fns = vec![];
        loop {
            if let Some((n, t, env)) = cx.tyq.pop_front() {
                cx.env = env;
                let s = cx.ty_json(t);
                cx.tyout[n] = s;
                continue;
            }
            if let Some((n, it)) = cx.queue.pop_front() {
                if let Some(b) = cx.body(n, it) {
                    fns.push(b);
                }
                continue;
            }
            break;
        }
        std::panic::set_hook(hook);
        let txt = format!(
            "{{\"crate\":{},\"types\":[{}],\n\"vtables\":[{}],\n\"fns\":[{}],\"statics\":[{}]}}",
            j::s(&krate),
            cx.tyout.join(",\n"),
            cx.vtout.join(",\n"),
            fns.join(",\n"),
            cx.statics.join(",")
        );
        std::fs::write(format!("{}/{}.json", out, krate), txt).expect("mirdump: cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("--cap-lints=allow".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if format!("{:?}", code).contains("Success") || format!("{:?}", code).contains("(0)") { 0 } else { 1 });
}
