//! rustc driver which writes the MIR of every function of the crate being compiled, and of everything those
//! functions reach that has a body (helpers, closures, generic standard-library combinators), as JSON.
//!
//! It takes no decision about the code: it only prints what rustc built (after drop elaboration), with each call
//! resolved by rustc's own trait selection in the root function's parameter environment.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn opt(o: Option<String>) -> String { o.unwrap_or_else(|| "null".into()) }

macro_rules! canon { ($e:expr) => { with_no_trimmed_paths!(with_resolve_crate_name!(with_no_visible_paths!($e))) } }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    ty_queue: VecDeque<(Ty<'tcx>, usize, usize)>,
    adts: BTreeMap<usize, String>,
}

struct Root<'tcx> {
    env: ty::TypingEnv<'tcx>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashMap<String, ()>,
    out: Vec<String>,
    depth: usize, drops: BTreeMap<usize, String>, dseen: std::collections::HashSet<Ty<'tcx>>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String { canon!(self.tcx.def_path_str(d)) }

    fn ty(&mut self, t: Ty<'tcx>, depth: usize) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let j = self.ty_kind(t, depth);
        let s = canon!(format!("{t}"));
        self.ty_json[i] = format!("{{\"s\":{},{}}}", js(&s), j);
        if let ty::Adt(..) | ty::Closure(..) = t.kind() {
            if depth < 24 { self.ty_queue.push_back((t, i, depth + 1)); }
        }
        i
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>, depth: usize) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t, depth).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", js(&format!("{c:?}")))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn ty_kind(&mut self, t: Ty<'tcx>, d: usize) -> String {
        match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{}", js(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":{}", js(i.name_str())),
            ty::Float(i) => format!("\"k\":\"float\",\"n\":{}", js(i.name_str())),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args, d);
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", js(&p), a)
            }
            ty::Array(e, n) => {
                let e = self.ty(e, d);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, js(&format!("{n}")))
            }
            ty::Slice(e) => { let e = self.ty(e, d); format!("\"k\":\"slice\",\"elem\":{e}") }
            ty::RawPtr(e, m) => { let e = self.ty(e, d); format!("\"k\":\"ptr\",\"elem\":{},\"mut\":{}", e, m.is_mut()) }
            ty::Ref(_, e, m) => { let e = self.ty(e, d); format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, m.is_mut()) }
            ty::FnDef(def, args) => {
                let p = self.path(def);
                let a = self.args(args.skip_binder(), d);
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", js(&p), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|p| js(&self.path(p)));
                format!("\"k\":\"dyn\",\"trait\":{}", opt(p))
            }
            ty::Closure(def, args) => {
                let p = self.path(def);
                let c = args.as_closure();
                let kind = c.kind_ty().to_opt_closure_kind().map(|k| js(&format!("{k:?}")));
                let ups: Vec<String> = c.upvar_tys().iter().map(|u| self.ty(u, d).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"kind\":{},\"upvars\":{}", js(&p), opt(kind), arr(ups))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|u| self.ty(u, d).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        }
    }

    /// Field types of every ADT met, instantiated.
    fn drain_tys(&mut self, env: ty::TypingEnv<'tcx>) {
        while let Some((t, i, depth)) = self.ty_queue.pop_front() {
            if self.adts.contains_key(&i) { continue; }
            match *t.kind() {
                ty::Adt(def, args) => {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(env, ft)
                                .unwrap_or_else(|_| f.ty(self.tcx, args).skip_norm_wip());
                            fs.push(format!("[{},{}]", js(f.name.as_str()), self.ty(ft, depth)));
                        }
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), js(&discr), arr(fs)));
                    }
                    let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                    let has_drop = self.tcx.adt_destructor(def.did()).is_some();
                    self.adts.insert(i, format!("{{\"kind\":\"{}\",\"variants\":{},\"drop\":{}}}", k, arr(vs), has_drop));
                }
                _ => {}
            }
        }
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        canon!(format!("{:?}|{}", i.def, self.tcx.def_path_str_with_args(i.def_id(), i.args)))
    }

    fn describe(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default();
        let mut tr = None; let mut self_ty = None; let mut self_idx = None;
        if let Some(assoc) = tcx.opt_associated_item(def) {
            let c = assoc.container_id(tcx);
            if tcx.def_kind(c) == DefKind::Trait {
                tr = Some(self.path(c));
                if args.len() > 0 && args[0].as_type().is_some() {
                    let st = args.type_at(0);
                    self_idx = Some(self.ty(st, 0));
                }
            } else {
                if let Some(t) = tcx.impl_opt_trait_id(c) { tr = Some(self.path(t)); }
                let st = tcx.type_of(c).instantiate(tcx, args).skip_norm_wip();
                self_idx = Some(self.ty(st, 0));
            }
        }
        if let Some(i) = self_idx {
            let t = self.tys.iter().find(|(_, j)| **j == i).map(|(t, _)| *t).unwrap();
            self_ty = Some(match *t.kind() {
                ty::Adt(d, _) => self.path(d.did()),
                ty::Ref(_, e, _) => match *e.kind() { ty::Adt(d, _) => format!("&{}", self.path(d.did())), _ => format!("&{}", canon!(format!("{e}"))) },
                ty::Tuple(ts) => format!("tuple{}", ts.len()),
                ty::Closure(..) => "closure".to_string(),
                _ => canon!(format!("{t}")),
            });
        }
        let a = self.args(args, 0);
        format!("\"path\":{},\"name\":{},\"trait\":{},\"self\":{},\"self_ty\":{},\"args\":{},\"crate\":{}",
            js(&self.path(def)), js(&name), opt(tr.map(|t| js(&t))), opt(self_ty.map(|t| js(&t))),
            opt(self_idx.map(|i| i.to_string())), a, js(tcx.crate_name(def.krate).as_str()))
    }

    fn resolve(&mut self, r: &mut Root<'tcx>, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let d = self.describe(def, args);
        let res = match tcx.def_kind(def) {
            DefKind::Ctor(..) => { let _ = r; return format!("{{\"k\":\"ctor\",{d}}}"); }
            _ => Instance::try_resolve(tcx, r.env, def, args).ok().flatten(),
        };
        match res {
            None => format!("{{\"k\":\"unresolved\",{d}}}"),
            Some(i) => {
                let k = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                let key = self.inst_key(&i);
                let d2 = self.describe(i.def_id(), i.args);
                let depth = r.depth + 1;
                if matches!(i.def, InstanceKind::Item(_)) { r.queue.push_back((i, depth)); }
                format!("{{\"k\":\"{}\",\"key\":{},\"decl\":{{{}}},{}}}", k, js(&key), d, d2)
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"field\",{},{}]", f.as_usize(), self.ty(t, 0)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, i) => format!("[\"downcast\",{},{}]", i.as_usize(), js(&n.map(|n| n.to_string()).unwrap_or_default())),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => format!("[\"cast\",{}]", self.ty(t, 0)),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn konst(&mut self, r: &mut Root<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t, 0);
        if let ty::FnDef(def, args) = *t.kind() {
            let f = self.resolve(r, def, args.skip_binder());
            return format!("{{\"k\":\"fn\",\"ty\":{ti},\"fn\":{f}}}");
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"k\":\"param\",\"ty\":{ti},\"name\":{}}}", js(p.name.as_str()));
            }
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"ty\":{ti},\"idx\":{}}}", p.as_usize());
            }
            let d = self.path(u.def);
            if c.const_.has_param() {
                let a = self.args(u.args, 0);
                return format!("{{\"k\":\"uneval\",\"ty\":{ti},\"path\":{},\"args\":{}}}", js(&d), a);
            }
        }
        match c.const_.eval(tcx, r.env, c.span) {
            Ok(v) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("{{\"k\":\"scalar\",\"ty\":{ti},\"v\":{}}}", js(&s.to_bits(s.size()).to_string()));
                }
                if let ConstValue::ZeroSized = v { return format!("{{\"k\":\"zst\",\"ty\":{ti}}}"); }
                if let ty::Ref(_, e, _) = *t.kind() {
                    if e.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"k\":\"str\",\"ty\":{ti},\"v\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                format!("{{\"k\":\"opaque\",\"ty\":{ti},\"s\":{}}}", js(&canon!(format!("{}", c.const_))))
            }
            Err(_) => format!("{{\"k\":\"opaque\",\"ty\":{ti},\"s\":{}}}", js(&canon!(format!("{}", c.const_)))),
        }
    }

    fn operand(&mut self, r: &mut Root<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"const\":{}}}", self.konst(r, c)),
            Operand::RuntimeChecks(_) => "{\"rtcheck\":true}".into(),
        }
    }

    fn rvalue(&mut self, r: &mut Root<'tcx>, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"op\":{}}}", self.operand(r, o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"op\":{},\"n\":{}}}", self.operand(r, o), js(&format!("{n}"))),
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"bk\":{},\"place\":{}}}", js(&format!("{bk:?}")), self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"op\":{{\"copy\":{}}}}}", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"path\":{}}}", js(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"place\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let mut extra = String::new();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    extra = self.unsize_vtable(r, o, *t);
                }
                let oj = self.operand(r, o);
                format!("{{\"k\":\"cast\",\"ck\":{},\"op\":{},\"ty\":{}{}}}", js(&format!("{k:?}")), oj, self.ty(*t, 0), extra)
            }
            Rvalue::BinaryOp(b, ops) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{b:?}")), self.operand(r, &ops.0), self.operand(r, &ops.1)),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{u:?}")), self.operand(r, o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"place\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"op\":{{\"copy\":{}}}}}", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("{{\"k\":\"use\",\"op\":{}}}", self.operand(r, o)),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() { v.push(self.operand(r, o)); }
                let kind = match &**k {
                    AggregateKind::Array(t) => format!("\"ak\":\"array\",\"elem\":{}", self.ty(*t, 0)),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".into(),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        format!("\"ak\":\"adt\",\"ty\":{},\"variant\":{},\"active\":{}", self.ty(t, 0), vi.as_usize(), opt(af.map(|f| f.as_usize().to_string())))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        let i = Instance::new_raw(*d, args);
                        let key = self.inst_key(&i);
                        let depth = r.depth + 1;
                        r.queue.push_back((i, depth));
                        format!("\"ak\":\"closure\",\"ty\":{},\"key\":{}", self.ty(t, 0), js(&key))
                    }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".into(),
                    _ => "\"ak\":\"other\"".into(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", kind, arr(v))
            }
        }
    }

    fn pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match *t.kind() {
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(e),
            ty::Adt(_, args) => args.types().next().and_then(|t| {
                // Box<Unsized>, Arc<Unsized>: the (possibly nested) first type argument
                if let ty::Adt(_, _) = t.kind() { Some(t) } else { Some(t) }
            }),
            _ => None,
        }
    }

    fn unsize_vtable(&mut self, r: &mut Root<'tcx>, o: &Operand<'tcx>, target: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let src = match o {
            Operand::Constant(c) => Some(c.const_.ty()),
            _ => None,
        };
        let _ = src;
        let Some(dynty) = self.pointee(target) else { return String::new() };
        let ty::Dynamic(preds, _) = *dynty.kind() else { return String::new() };
        let Some(principal) = preds.principal() else { return String::new() };
        let src = match r.cur_locals(o, tcx) { Some(s) => s, None => return String::new() };
        let Some(srcp) = self.pointee(src) else { return String::new() };
        if !matches!(srcp.kind(), ty::Dynamic(..)) {
            let tref = tcx.instantiate_bound_regions_with_erased(principal).with_self_ty(tcx, srcp);
            let mut ms = vec![];
            for m in tcx.associated_items(DefId::from(tref.def_id)).in_definition_order() {
                if m.is_fn() {
                    let mut args = tref.args;
                    let g = tcx.generics_of(m.def_id);
                    if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                    if g.own_params.len() > 0 {
                        args = args.extend_to(tcx, m.def_id, |_, _| tcx.lifetimes.re_erased.into());
                    }
                    let j = self.resolve(r, m.def_id, args);
                    ms.push(format!("{}:{}", js(m.name().as_str()), j));
                }
            }
            return format!(",\"dyn\":{{\"src\":{},\"methods\":{{{}}}}}", self.ty(srcp, 0), ms.join(","));
        }
        String::new()
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate(_) => "\"terminate\"".into(),
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
        }
    }

    /// The destructors written in the crates under test of everything a value of type t may own.
    fn destructors(&mut self, r: &mut Root<'tcx>, t: Ty<'tcx>, depth: usize) {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if depth > 12 || !r.dseen.insert(t) { return; }
        match *t.kind() {
            ty::Adt(def, args) => {
                let user = def.did().is_local() || tcx.crate_name(def.did().krate).as_str().starts_with("plotline");
                if user && tcx.adt_destructor(def.did()).is_some() {
                    if let Some(dt) = tcx.lang_items().drop_trait() {
                        let m = tcx.associated_items(dt).in_definition_order().find(|m| m.is_fn()).map(|m| m.def_id);
                        if let Some(m) = m {
                            let ti = self.ty(t, 0);
                            let j = self.resolve(r, m, tcx.mk_args(&[t.into()]));
                            r.drops.insert(ti, j);
                        }
                    }
                }
                for a in args.types() { self.destructors(r, a, depth + 1); }
                if user {
                    for f in def.all_fields() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(r.env, ft).unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                        self.destructors(r, ft, depth + 1);
                    }
                }
            }
            ty::Tuple(ts) => for u in ts.iter() { self.destructors(r, u, depth + 1); },
            ty::Array(e, _) | ty::Slice(e) => self.destructors(r, e, depth + 1),
            ty::Closure(_, args) => for u in args.as_closure().upvar_tys().iter() { self.destructors(r, u, depth + 1); },
            _ => {}
        }
    }

    fn body(&mut self, r: &mut Root<'tcx>, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        for l in b.local_decls.iter() { self.destructors(r, l.ty, 0); }
        CUR.with(|c| *c.borrow_mut() = b.local_decls.iter().map(|l| unsafe { std::mem::transmute::<Ty<'tcx>, Ty<'static>>(l.ty) }).collect());
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty, 0).to_string()).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(&p)));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let line = tcx.sess.source_map().lookup_char_pos(s.source_info.span.lo()).line;
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let rv = self.rvalue(r, &a.1);
                        st.push(format!("{{\"k\":\"assign\",\"p\":{p},\"rv\":{rv},\"l\":{line}}}"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push("{\"k\":\"unsupported\",\"s\":\"copy_nonoverlapping\"}".into()),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = tcx.sess.source_map().lookup_char_pos(t.source_info.span.lo());
            let line = sp.line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(r, discr);
                    let ts = arr(targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())));
                    let dt = self.ty(discr.ty(&b.local_decls, tcx), 0);
                    format!("{{\"k\":\"switch\",\"op\":{o},\"ty\":{dt},\"ts\":{ts},\"o\":{}}}", targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"terminate\"}".into(),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    self.destructors(r, pt, 0);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{},\"u\":{}}}", self.place(place), self.ty(pt, 0), target.as_usize(), self.unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(r, c),
                        o => format!("{{\"k\":\"value\",\"op\":{}}}", self.operand(r, o)),
                    };
                    let mut av = vec![];
                    for a in args.iter() { av.push(self.operand(r, &a.node)); }
                    format!("{{\"k\":\"call\",\"f\":{},\"args\":{},\"d\":{},\"t\":{},\"u\":{}}}", f, arr(av), self.place(destination),
                        opt(target.map(|t| t.as_usize().to_string())), self.unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let o = self.operand(r, cond);
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"u\":{}}}", o, expected, js(&canon!(format!("{msg:?}"))), target.as_usize(), self.unwind(unwind))
                }
                k => format!("{{\"k\":\"unsupported\",\"s\":{}}}", js(&format!("{k:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"c\":{}}}", arr(st), tj, line, bb.is_cleanup));
        }
        format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{}}}", arr(locals), b.arg_count,
            opt(b.spread_arg.map(|l| l.as_usize().to_string())), arr(names), arr(blocks))
    }

    fn inst(&mut self, r: &mut Root<'tcx>, i: Instance<'tcx>, allow: &[String]) {
        let tcx = self.tcx;
        let key = self.inst_key(&i);
        if r.seen.contains_key(&key) { return; }
        r.seen.insert(key.clone(), ());
        let def = i.def_id();
        let d = self.describe(def, i.args);
        let path = self.path(def);
        let local = def.is_local() || tcx.crate_name(def.krate).as_str().starts_with("plotline");
        let cname = tcx.crate_name(def.krate).to_string();
        let ok = local || allow.iter().any(|a| path.contains(a.as_str()) || cname == *a);
        let has = tcx.is_mir_available(def) && !tcx.is_foreign_item(def);
        let body = if ok && has && r.depth < 40 {
            let raw = tcx.optimized_mir(def);
            let b = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, r.env, ty::EarlyBinder::bind(tcx, raw.clone()));
            match b {
                Ok(b) => {
                    let bj = self.body(r, &b);
                    let mut ps = vec![];
                    for p in tcx.promoted_mir(def).iter() {
                        if let Ok(p) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, r.env, ty::EarlyBinder::bind(tcx, p.clone())) {
                            ps.push(self.body(r, &p));
                        }
                    }
                    Some((bj, arr(ps)))
                }
                Err(_) => None,
            }
        } else { None };
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(def).lo());
        let loc = format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line);
        let (bj, pj) = match body { Some((a, b)) => (a, b), None => ("null".into(), "[]".into()) };
        r.out.push(format!("{}:{{{},\"span\":{},\"local\":{},\"body\":{},\"promoted\":{}}}", js(&key), d, js(&loc), local, bj, pj));
    }
}

thread_local! { static CUR: std::cell::RefCell<Vec<Ty<'static>>> = const { std::cell::RefCell::new(Vec::new()) }; }
impl<'tcx> Root<'tcx> {
    fn cur_locals(&self, o: &Operand<'tcx>, _tcx: TyCtxt<'tcx>) -> Option<Ty<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() =>
                CUR.with(|c| c.borrow().get(p.local.as_usize()).map(|t| unsafe { std::mem::transmute::<Ty<'static>, Ty<'tcx>>(*t) })),
            Operand::Constant(c) => Some(c.const_.ty()),
            _ => None,
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(outdir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        let mut name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") { name += "_bin"; }
        if !want.split(',').any(|w| w == name) { return Compilation::Continue; }
        let allow: Vec<String> = std::env::var("MIRDUMP_ALLOW").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut d = Dump { tcx, tys: HashMap::new(), ty_json: vec![], ty_queue: VecDeque::new(), adts: BTreeMap::new() };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            match tcx.def_kind(def) { DefKind::Fn | DefKind::AssocFn => {}, _ => continue }
            if tcx.is_const_fn(def) && false { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let env = ty::TypingEnv::post_analysis(tcx, def);
            let inst = Instance::new_raw(def, args);
            let mut r = Root { env, queue: VecDeque::new(), seen: HashMap::new(), out: vec![], depth: 0, drops: BTreeMap::new(), dseen: Default::default() };
            r.queue.push_back((inst, 0));
            let key = d.inst_key(&inst);
            while let Some((i, depth)) = r.queue.pop_front() {
                if depth > 30 || r.out.len() > 400 { continue; }
                r.depth = depth;
                let i = Instance { def: i.def, args: tcx.erase_and_anonymize_regions(i.args) };
                d.inst(&mut r, i, &allow);
            }
            d.drain_tys(env);
            let drops = r.drops.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",");
            roots.push(format!("{{\"drops\":{{{drops}}},\"key\":{},\"insts\":{{{}}}}}", js(&canon!(format!("{:?}|{}", inst.def, tcx.def_path_str_with_args(def, { let a: GenericArgsRef<'tcx> = tcx.erase_and_anonymize_regions(args); a })))), r.out.join(",\n")));
            let _ = key;
        }
        let adts = d.adts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",");
        let s = format!("{{\"crate\":{},\"types\":{},\n\"adts\":{{{}}},\n\"roots\":{}}}", js(&name), arr(d.ty_json.iter().cloned()), adts, format!("[{}]", roots.join(",\n")));
        std::fs::write(format!("{outdir}/{name}.json"), s).expect("write");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: the first argument is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args[..], &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
