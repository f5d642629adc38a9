//! Facts extractor: a rustc driver that dumps the type-checked, callee-resolved MIR of a crate
//! (and of the generic `core`/`alloc`/`std` helpers it instantiates) as JSON.
//! It never runs the analysed code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_data_structures;
extern crate rustc_attr_ir;
extern crate rustc_lint_defs;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::TypeVisitableExt as _;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{PrintTraitRefExt as _, with_no_trimmed_paths, with_no_visible_paths};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in i { if !first { o.push(','); } first = false; o.push_str(&x); }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
}

const DESCEND: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::iter", "core::cmp", "core::mem", "core::convert",
    "core::bool", "core::slice::iter", "core::ptr", "core::borrow", "core::clone", "core::default", "core::array::iter",
    "alloc::borrow", "alloc::boxed", "alloc::vec::into_iter", "std::ops",
];

impl<'tcx> Cx<'tcx> {
    /// Items of one name in one body (serde makes several `__Visitor`s and `__DeserializeWith`s) are told apart by their disambiguators.
    fn dis(&self, d: DefId) -> String {
        if !d.is_local() { return String::new(); }
        let mut v: Vec<String> = Vec::new();
        for e in self.tcx.def_path(d).data.iter() {
            if let rustc_hir::definitions::DefPathData::TypeNs(n) = e.data { if n.as_str() != "_" && e.disambiguator > 0 { v.push(format!("~{}", e.disambiguator)); } }
        }
        let mut cur = d;
        while let Some(p) = self.tcx.opt_parent(cur) {
            cur = p;
            if matches!(self.tcx.def_kind(p), rustc_hir::def::DefKind::Impl { .. }) {
                if let ty::Adt(a, _) = self.tcx.type_of(p).instantiate_identity().skip_norm_wip().kind() { v.push(self.dis(a.did())); break; }
            }
        }
        v.concat()
    }
    fn path(&self, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))) + &self.dis(d) }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let b = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args)));
        let mut b = format!("{}|{}{}", self.krate(i.def_id()), b, self.dis(i.def_id()));
        for t in i.args.types() { for x in t.walk() { if let Some(t) = x.as_type() { if let ty::Adt(a, _) = t.kind() { b.push_str(&self.dis(a.did())); } } } }
        match i.def {
            InstanceKind::Item(d) => {
                // `impl` methods print as `<T as Trait>::m`; disambiguate inherent duplicates by nothing (paths are unique per type).
                let _ = d; b
            }
            other => { let k = format!("{:?}", other); let k = k.split('(').next().unwrap_or("").to_string(); 
                let extra = match other { InstanceKind::Shim(ShimKind::DropGlue(_, Some(t)) | ShimKind::FnPtr(_, t) | ShimKind::Clone(_, t)) => format!("<{}>", with_no_trimmed_paths!(t.to_string())), _ => String::new() };
                format!("{b}#{k}{extra}") }
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        if s.is_dummy() { return "null".into(); }
        let l = sm.lookup_char_pos(s.lo());
        js(&format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.path(def.did());
        if !self.adts.contains_key(&def.did()) {
            self.adts.insert(def.did(), String::new());
            let tcx = self.tcx;
            let mut vs = Vec::new();
            let discrs: Vec<(usize, u128)> = if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val)).collect() } else { vec![(0, 0)] };
            for (i, v) in def.variants().iter_enumerated() {
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let tyi = if def.did().is_local() { self.ty(fty).to_string() } else { "null".into() };
                    let vis = match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) };
                    fs.push(format!("{{\"n\":{},\"t\":{},\"vis\":{},\"attrs\":{}}}", js(f.name.as_str()), tyi, js(&vis), self.attrs(f.did)));
                }
                let d = discrs.iter().find(|x| x.0 == i.as_usize()).map(|x| x.1).unwrap_or(0);
                vs.push(format!("{{\"n\":{},\"d\":{},\"attrs\":{},\"f\":{}}}", js(v.name.as_str()), js(&d.to_string()), self.attrs(v.def_id), arr(fs)));
            }
            let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let vis = match tcx.visibility(def.did()) { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) };
            let j = format!("{{\"path\":{},\"crate\":{},\"kind\":{},\"vis\":{},\"attrs\":{},\"span\":{},\"variants\":{}}}", js(&p), js(&self.krate(def.did())), js(k), js(&vis), self.attrs(def.did()), self.span(tcx.def_span(def.did())), arr(vs));
            self.adts.insert(def.did(), j);
        }
        p
    }
    fn attrs(&self, d: DefId) -> String {
        if let Some(l) = d.as_local() {
            let hir = self.tcx.local_def_id_to_hir_id(l);
            let tcx = self.tcx;
            let v: Vec<String> = tcx.hir_attrs(hir).iter().filter_map(|a| match a {
                rustc_attr_ir::Attribute::DeriveHelper(_) => Some(js(&rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a))),
                _ => None,
            }).collect();
            arr(v)
        } else { "[]".into() }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let mut x = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.adt(*def);
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(x, ",\"k\":\"adt\",\"adt\":{},\"args\":{}", js(&p), arr(a));
                // Instantiated field types.
                if def.did().is_local() || ["core", "alloc", "std"].contains(&self.krate(def.did()).as_str()) {
                    let enumlike = def.is_enum();
                    if enumlike {
                        let mut vs = Vec::new();
                        for v in def.variants() {
                            let mut fs = Vec::new();
                            for f in v.fields.iter() { let ft = f.ty(self.tcx, args).skip_norm_wip(); fs.push(self.ty(ft).to_string()); }
                            vs.push(arr(fs));
                        }
                        let _ = write!(x, ",\"vf\":{}", arr(vs));
                    }
                }
            }
            ty::Ref(_, inner, m) => { let n = self.ty(*inner); let _ = write!(x, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), n); }
            ty::RawPtr(inner, m) => { let n = self.ty(*inner); let _ = write!(x, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), n); }
            ty::Slice(inner) => { let n = self.ty(*inner); let _ = write!(x, ",\"k\":\"slice\",\"to\":{}", n); }
            ty::Array(inner, len) => { let n = self.ty(*inner); let _ = write!(x, ",\"k\":\"array\",\"to\":{},\"len\":{}", n, js(&len.to_string())); }
            ty::Tuple(ts) => { let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); let _ = write!(x, ",\"k\":\"tuple\",\"args\":{}", arr(a)); }
            ty::Closure(d, args) => { let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect(); let _ = write!(x, ",\"k\":\"closure\",\"def\":{},\"up\":{}", js(&self.path(*d)), arr(up)); }
            ty::FnDef(d, _) => { let _ = write!(x, ",\"k\":\"fndef\",\"def\":{}", js(&self.path(*d))); }
            ty::Dynamic(..) => { x.push_str(",\"k\":\"dyn\""); }
            ty::Param(_) => { x.push_str(",\"k\":\"param\""); }
            ty::FnPtr(..) => { x.push_str(",\"k\":\"fnptr\""); }
            _ => { x.push_str(",\"k\":\"prim\""); }
        }
        x.push('}');
        self.type_json[i] = x;
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            o.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"ci\",{},{},{}]", offset, from_end, min_length),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "\"?\"".into(),
            });
        }
        arr(o)
    }
    /// What `next` returns for these arguments.
    fn next_ty(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let out = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(tcx.erase_and_anonymize_regions(sig.output()))).ok()?;
        Some(self.ty(out))
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let upath = self.path(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!("{{\"u\":{},\"uc\":{},\"name\":{},\"ta\":{}", js(&upath), js(&self.krate(d)), js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), arr(targs));
        if let Some(t) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"trait\":{}", js(&self.path(t))); }
        if let Some(im) = tcx.impl_of_assoc(d) { 
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let t = self.ty(t); let _ = write!(o, ",\"impl_self\":{}", t);
        }
        if upath.starts_with("core::iter::traits::iterator::Iterator::") && !upath.ends_with("::next") && args.len() > 0 {
            if let Some(tr) = tcx.trait_of_assoc(d)
                && let Some(nx) = tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().is_some_and(|n| n.as_str() == "next")) {
                let nargs = tcx.mk_args(&args[..1]);
                let j = self.callee(nx.def_id, nargs, env, depth);
                let _ = write!(o, ",\"next\":{}", j);
                if let Some(t) = self.next_ty(nx.def_id, nargs, env) { let _ = write!(o, ",\"next_ty\":{}", t); }
            }
        }
        if matches!(tcx.opt_item_name(d).map(|s| s.to_string()).as_deref(), Some("extend" | "extend_pairs" | "extend_keys_only" | "from_iter" | "append_pairs" | "args" | "envs")) {
            let itr = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
            if let Some(tr) = itr {
                let cand = args.types().collect::<Vec<_>>().into_iter().rev().find(|t| {
                    use rustc_infer::infer::TyCtxtInferExt; use rustc_trait_selection::infer::InferCtxtExt;
                    if t.has_escaping_bound_vars() { return false; }
                    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                    infcx.type_implements_trait(tr, [*t], penv).must_apply_modulo_regions()
                });
                if let (Some(t), Some(nx)) = (cand, tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().is_some_and(|n| n.as_str() == "next"))) {
                    let nargs = tcx.mk_args(&[t.into()]);
                    let j = self.callee(nx.def_id, nargs, env, depth);
                    let _ = write!(o, ",\"next\":{}", j);
                }
            }
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let k = self.inst_key(&inst);
                let rp = self.path(inst.def_id());
                let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop", _ => "shim" };
                let _ = write!(o, ",\"key\":{},\"path\":{},\"crate\":{},\"kind\":{}", js(&k), js(&rp), js(&self.krate(inst.def_id())), js(kind));
                self.enqueue(inst, env, depth + 1);
            }
            _ => { let _ = write!(o, ",\"key\":null,\"path\":{},\"crate\":{},\"kind\":\"generic\"", js(&upath), js(&self.krate(d))); }
        }
        o.push('}');
        o
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) {
        let d = inst.def_id();
        let want = match inst.def {
            InstanceKind::Item(_) | InstanceKind::Shim(ShimKind::FnPtr(..) | ShimKind::Reify(..) | ShimKind::ClosureOnce { .. }) => {
                if d.is_local() { true } else {
                    let k = self.krate(d);
                    let p = self.path(d);
                    let p2 = p.trim_start_matches('<');
                    depth < 14 && ["core", "alloc", "std"].contains(&k.as_str()) &&
                        (DESCEND.iter().any(|x| p2.starts_with(x)) || DESCEND.iter().any(|x| p.contains(&format!(" as {x}"))))
                }
            }
            _ => false,
        };
        if !want { return; }
        let key = self.inst_key(&inst);
        if self.seen.insert(key) { self.queue.push_back((inst, env, depth)); }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let cal = self.callee(*d, a.skip_binder(), env, depth);
            return format!("{{\"t\":{},\"fn\":{}}}", ti, cal);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let key = { let i = Instance::new_raw(u.def, u.args); self.inst_key(&i) };
                return format!("{{\"t\":{},\"promoted\":{}}}", ti, js(&format!("{}#promoted{}", key, p.as_usize())));
            }
        }
        let named = if let Const::Unevaluated(u, _) = c.const_ { format!(",\"named\":{}", js(&self.path(u.def))) } else { String::new() };
        let val = match c.const_.eval(tcx, env, c.span) { Ok(v) => v, Err(_) => return format!("{{\"t\":{}{},\"x\":{}}}", ti, named, js(&with_no_trimmed_paths!(c.const_.to_string()))) };
        let v = match val {
            ConstValue::Scalar(s) => match s {
                rustc_middle::mir::interpret::Scalar::Int(i) => {
                    let n = i.to_bits(i.size());
                    match t.kind() {
                        ty::Int(_) => { let sz = i.size().bits(); let sh = 128 - sz; let sn = ((n << sh) as i128) >> sh; format!(",\"int\":{}", sn) }
                        _ => format!(",\"int\":{}", n),
                    }
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    let raw = match t.kind() { ty::Ref(_, x, _) => self.plain(prov.alloc_id(), off.bytes() as usize, *x, env), _ => None };
                    format!("{}{}", self.alloc_json(prov.alloc_id(), off.bytes() as usize, t), raw.unwrap_or_default())
                }
            },
            ConstValue::ZeroSized => ",\"zst\":1".into(),
            ConstValue::Slice { alloc_id, meta } => {
                match tcx.global_alloc(alloc_id) {
                    rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.inner().len()));
                        match std::str::from_utf8(b) { Ok(s) if t.to_string().contains("str") => format!(",\"str\":{}", js(s)), _ => format!(",\"bytes\":{}", arr(b.iter().map(|x| x.to_string()))) }
                    }
                    _ => String::new(),
                }
            }
            ConstValue::Indirect { alloc_id, offset } if self.plain(alloc_id, offset.bytes() as usize, t, env).is_some() => self.plain(alloc_id, offset.bytes() as usize, t, env).unwrap_or_default(),
            ConstValue::Indirect { .. } => format!(",\"x\":{}", js(&with_no_trimmed_paths!(format!("{:?}", c.const_)).chars().take(200).collect::<String>())),
        };
        format!("{{\"t\":{}{}{}}}", ti, named, v)
    }
    /// The bytes of a small constant struct without pointers.
    fn plain(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        if !matches!(t.kind(), ty::Adt(d, _) if d.is_struct()) { return None; }
        let n = self.tcx.layout_of(env.as_query_input(t)).ok()?.size.bytes() as usize;
        let a = match self.tcx.global_alloc(id) {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => a,
            rustc_middle::mir::interpret::GlobalAlloc::Static(d) if d.is_local() && !self.tcx.is_mutable_static(d) => self.tcx.eval_static_initializer(d).ok()?,
            _ => return None,
        };
        let a = a.inner();
        if n == 0 || n > 64 || off + n > a.len() || !a.provenance().ptrs().is_empty() { return None; }
        Some(format!(",\"raw\":{}", arr(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).iter().map(|x| x.to_string()))))
    }
    fn alloc_json(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>) -> String {
        match self.tcx.global_alloc(id) {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                let n = a.inner().len();
                let el_u8 = matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Array(e, _) if e.is_integral() && *e == self.tcx.types.u8));
                if el_u8 { let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..n); format!(",\"bytes\":{}", arr(b.iter().map(|x| x.to_string()))) } else { ",\"mem\":1".into() }
            }
            rustc_middle::mir::interpret::GlobalAlloc::Static(d) => format!(",\"static\":{}", js(&self.path(d))),
            _ => String::new(),
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c, env, depth)),
            Operand::RuntimeChecks(_) => "{\"k\":{\"t\":-1,\"int\":1}}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env, depth)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, env, depth), js(&n.to_string())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", js(match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake" }), self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::RawPtr(k, p) => format!("[\"addr\",{},{}]", js(&format!("{k:?}")), self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); 
                // Reified fn pointers / closures: make sure the target is dumped.
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o, env, depth), t) }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", js(&format!("{op:?}")), self.operand(&b.0, env, depth), self.operand(&b.1, env, depth)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(o, env, depth)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, env, depth)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, active) => { let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args); let ti = self.ty(t); let p = self.path(*d); format!("[\"adt\",{},{},{},{}]", js(&p), v.as_usize(), ti, active.map(|x| x.as_usize().to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let key = self.inst_key(&inst);
                        self.enqueue(inst, env, depth + 1);
                        format!("[\"closure\",{}]", js(&key))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env, depth)),
        }
    }
    fn body(&mut self, key: &str, meta: &str, b: &Body<'tcx>, env: TypingEnv<'tcx>, depth: usize) {
        let mut o = format!("{{\"key\":{},{},\"argc\":{},\"span\":{}", js(key), meta, b.arg_count, self.span(b.span));
        if let Some(l) = b.spread_arg { let _ = write!(o, ",\"spread\":{}", l.as_usize()); }
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(ls));
        let dbg: Vec<String> = b.var_debug_info.iter().filter_map(|v| match &v.value { VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", js(v.name.as_str()), self.place(p))), _ => None }).collect();
        let _ = write!(o, ",\"dbg\":{}", arr(dbg));
        let mut bbs = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => { let p = self.place(&x.0); let r = self.rvalue(&x.1, env, depth); ss.push(format!("[\"=\",{},{},{}]", p, r, self.span(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())); }
                    StatementKind::StorageDead(l) => { ss.push(format!("[\"dead\",{}]", l.as_usize())); }
                    StatementKind::Intrinsic(i) => { ss.push(format!("[\"intr\",{}]", js(&format!("{:?}", i).chars().take(60).collect::<String>()))); }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx); let ti = self.ty(ty);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, env, depth), arr(v), targets.otherwise().as_usize(), sp, ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(&b.local_decls, self.tcx).ty; let ti = self.ty(ty); format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, depth);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env, depth)).collect();
                    format!("[\"call\",{},{},{},{},{}]", f, arr(a), self.place(destination), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let opn = match &**msg { AssertKind::Overflow(op, ..) => format!("{op:?}"), _ => String::new() };
                    let ops: Vec<String> = ops.into_iter().map(|o| self.operand(o, env, depth)).collect();
                    format!("[\"assert\",{},{},{},{},{},{},{}]", self.operand(cond, env, depth), expected, js(m), target.as_usize(), sp, arr(ops), js(&opn))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", js(&format!("{other:?}").chars().take(80).collect::<String>())),
            };
            let macro_bt: Vec<String> = t.source_info.span.macro_backtrace().take(4).filter_map(|x| match x.kind { rustc_span::ExpnKind::Macro(_, n) => Some(js(n.as_str())), _ => None }).collect();
            bbs.push(format!("{{\"c\":{},\"s\":{},\"t\":{},\"sp\":{},\"mac\":{}}}", bb.is_cleanup, arr(ss), tj, sp, arr(macro_bt)));
        }
        let _ = write!(o, ",\"bb\":{}}}", arr(bbs));
        self.bodies.push(o);
    }
    fn dump_instance(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) {
        let tcx = self.tcx;
        let d = inst.def_id();
        if matches!(inst.def, InstanceKind::Item(_)) {
            if !d.is_local() && !tcx.is_mir_available(d) { return; }
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) || tcx.is_constructor(d) {
                // Tuple constructors used as functions: the shim body below exists too.
            }
            if d.is_local() && !tcx.is_mir_available(d) { return; }
        }
        let key = self.inst_key(&inst);
        let is_const = matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        let body0 = if is_const && matches!(inst.def, InstanceKind::Item(_)) { if !d.is_local() { return; } tcx.mir_for_ctfe(d) } else { tcx.instance_mir(inst.def) };
        let gen_mono = !inst.args.types().any(|_| false);
        let _ = gen_mono;
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body0.clone()));
        let dk = format!("{:?}", tcx.def_kind(d));
        let parent = if tcx.is_closure_like(d) { js(&self.path(tcx.typeck_root_def_id(d))) } else { "null".into() };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut meta = format!("\"path\":{},\"crate\":{},\"local\":{},\"dk\":{},\"root\":{},\"name\":{}", js(&self.path(d)), js(&self.krate(d)), d.is_local(), js(dk.split([' ', '(', '{']).next().unwrap_or("")), parent, js(&name));
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let st = self.ty(st);
            let _ = write!(meta, ",\"impl_self\":{}", st);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) { let tr = tr.skip_binder(); let _ = write!(meta, ",\"impl_trait\":{}", js(&self.path(tr.def_id))); }
            let derived = tcx.is_automatically_derived(im) ; let _ = write!(meta, ",\"derived\":{}", derived);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. }) {
            let vis = match tcx.visibility(d) { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) };
            let _ = write!(meta, ",\"vis\":{}", js(&vis));
        }
        let fe = d.is_local() && tcx.def_span(d).from_expansion();
        let _ = write!(meta, ",\"exp\":{},\"generic\":{}", fe, tcx.generics_of(d).requires_monomorphization(tcx) && inst.args.types().any(|t| matches!(t.kind(), ty::Param(_))));
        self.body(&key, &meta, &body, env, depth);
        if matches!(inst.def, InstanceKind::Item(_)) && !is_const && !tcx.is_constructor(d) {
            let proms = tcx.promoted_mir(d);
            for (i, p) in proms.iter_enumerated() {
                let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p.clone()));
                let m = format!("\"path\":{},\"crate\":{},\"local\":{},\"dk\":\"Promoted\",\"root\":{},\"name\":\"\",\"exp\":false,\"generic\":false", js(&self.path(d)), js(&self.krate(d)), d.is_local(), js(&self.path(d)));
                self.body(&format!("{}#promoted{}", key, i.as_usize()), &m, &pb, env, depth);
            }
        }
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.debug_assertions = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![] };
        let mut nroots = 0;
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::Ctor(..)) { continue; }
            if matches!(dk, DefKind::Ctor(..)) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, d);
            let inst = Instance::new_raw(d, args);
            let key = cx.inst_key(&inst);
            if cx.seen.insert(key) { cx.queue.push_back((inst, env, 0)); nroots += 1; }
        }
        while let Some((i, e, d)) = cx.queue.pop_front() { cx.dump_instance(i, e, d); }
        // All local ADTs, and local impls.
        let mut impls = Vec::new();
        let mut statics = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => { let a = tcx.adt_def(d); cx.adt(a); }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let sti = cx.ty(st);
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| with_no_visible_paths!(with_no_trimmed_paths!(t.skip_binder().print_only_trait_path().to_string())));
                    let items: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|x| { let n = tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default(); format!("[{},{}]", js(&n), js(&cx.path(*x))) }).collect();
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"derived\":{},\"items\":{},\"span\":{}}}", sti, tr.map(|t| js(&t)).unwrap_or("null".into()), tcx.is_automatically_derived(d), arr(items), cx.span(tcx.def_span(d))));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)); let ti = cx.ty(t);
                    statics.push(format!("{{\"path\":{},\"t\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}", js(&cx.path(d)), ti, mutability.is_mut(), freeze, cx.span(tcx.def_span(d))));
                }
                _ => {}
            }
        }
        // Non-`Freeze` (interior-mutable) local ADTs.
        let mut nonfreeze = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)) { nonfreeze.push(js(&cx.path(d))); }
            }
        }
        let cfgs: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|v| js(v.as_str()))).collect();
        let mut adts: Vec<String> = cx.adts.values().cloned().collect(); adts.sort();
        let lints = format!("{:?}", tcx.lint_level_spec_at_node(rustc_lint_defs::builtin::UNSAFE_CODE, rustc_hir::CRATE_HIR_ID).level());
        let ctypes = format!("{:?}", tcx.crate_types());
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"crate_types\":{},\"roots\":{},\"features\":{},\"unsafe_lint\":{},\n\"types\":{},\n\"adts\":{},\n\"impls\":{},\n\"statics\":{},\n\"nonfreeze\":{},\n\"bodies\":[\n", js(tcx.crate_name(LOCAL_CRATE).as_str()), js(&ctypes), nroots, arr(cfgs), js(&lints), arr(cx.type_json.iter().cloned()), arr(adts), arr(impls), arr(statics), arr(nonfreeze));
        o.push_str(&cx.bodies.join(",\n"));
        o.push_str("\n]}\n");
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let ct: Vec<String> = args.iter().enumerate().filter(|(_, a)| *a == "--crate-type").filter_map(|(i, _)| args.get(i + 1).cloned()).collect();
    let dir = std::env::var("FACTS_DIR").unwrap_or_default();
    let want = !dir.is_empty() && !name.is_empty() && name != "___" && !name.starts_with("build_script");
    struct Nop; impl Callbacks for Nop {}
    rustc_driver::install_ice_hook("https://example.invalid", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        if want {
            let kind = ct.first().cloned().unwrap_or("bin".into());
            let mut cb = Cb { out: format!("{dir}/{name}-{kind}.json") };
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        } else { rustc_driver::compiler_entrypoint(&args, &mut Nop) }
    });
    std::process::exit(if format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
