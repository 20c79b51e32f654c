//! kmir: dumps the MIR that rustc builds for a crate (pre-borrowck form, before the coroutine
//! transform) as JSON, instantiated and with trait calls resolved as far as the generic context
//! permits. This is the mechanical extraction step of the verifier: nothing is rewritten here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};

/// the bits of an integer as the number they stand for in that type
fn signed(tcx: TyCtxt<'_>, t: Ty<'_>, bits: u128) -> String {
    let size = match t.kind() {
        ty::Int(i) => i.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()),
        _ => return bits.to_string(),
    };
    let sh = 128 - size as u32;
    (((bits << sh) as i128) >> sh).to_string()
}

struct Cb;

const EXPAND_CORE: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::iter::",
    "core::panic::", "core::mem::", "core::default::", "core::clone::", "core::pin::", "core::bool::",
    "core::task::", "core::any::", "core::borrow::", "core::array::", "core::slice::", "core::time::",
    "core::num::", "core::tuple::",
    "std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::", "std::iter::",
    "std::panic::", "std::mem::", "std::default::", "std::clone::", "std::pin::", "std::bool::",
    "std::task::", "std::any::", "std::borrow::", "std::array::", "std::slice::", "std::time::",
    "std::num::", "std::tuple::",
];

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    root: String,
    local: HashMap<DefId, (Body<'tcx>, rustc_index::IndexVec<Promoted, Body<'tcx>>)>,
    types: Vec<Value>,
    tymap: HashMap<Ty<'tcx>, usize>,
    typending: VecDeque<(Ty<'tcx>, usize)>,
    bodies: Map<String, Value>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, String)>,
    /// functions of this crate whose path is not theirs alone (what a derive nests in a function): which one of them it is
    nth: HashMap<DefId, usize>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)));
        match self.nth.get(&d) { Some(n) => format!("{p}#{n}"), None => p }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(Value::Null);
        self.tymap.insert(t, i);
        self.typending.push_back((t, i));
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> Vec<Value> {
        a.iter()
            .filter_map(|x| match x.kind() {
                ty::GenericArgKind::Type(t) => {
                    let t = self.norm(t);
                    Some(json!(self.ty(t)))
                }
                ty::GenericArgKind::Const(c) => Some(json!(format!("{c}"))),
                _ => None,
            })
            .collect()
    }
    fn flush_types(&mut self) {
        while let Some((t, i)) = self.typending.pop_front() {
            let v = self.ty_json(t);
            self.types[i] = v;
        }
    }
    fn crate_name(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> Value {
        let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o = match *t.kind() {
            TyKind::Bool => json!({"k":"bool"}),
            TyKind::Char => json!({"k":"char"}),
            TyKind::Int(i) => json!({"k":"int","bits": i.bit_width().unwrap_or(64),"signed":true}),
            TyKind::Uint(i) => json!({"k":"int","bits": i.bit_width().unwrap_or(64),"signed":false}),
            TyKind::Float(_) => json!({"k":"float"}),
            TyKind::Str => json!({"k":"str"}),
            TyKind::Never => json!({"k":"never"}),
            TyKind::Param(p) => json!({"k":"param","name":p.name.to_string()}),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                json!({"k":"array","elem":self.ty(e),"len":n})
            }
            TyKind::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
            TyKind::RawPtr(e, m) => json!({"k":"ptr","to":self.ty(e),"mut":m.is_mut()}),
            TyKind::Ref(_, e, m) => json!({"k":"ref","to":self.ty(e),"mut":m.is_mut()}),
            TyKind::Tuple(ts) => {
                let f: Vec<usize> = ts.iter().map(|t| self.ty(t)).collect();
                json!({"k":"tuple","fields":f})
            }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let c = self.callee(d, a);
                json!({"k":"fndef","callee":c})
            }
            TyKind::FnPtr(..) => json!({"k":"fnptr"}),
            TyKind::Dynamic(preds, _) => {
                let mut tr = vec![];
                for p in preds.iter() {
                    if let ty::ExistentialPredicate::Trait(t) = p.skip_binder() {
                        tr.push(self.path(t.def_id));
                    }
                    if let ty::ExistentialPredicate::AutoTrait(t) = p.skip_binder() {
                        tr.push(self.path(t));
                    }
                }
                json!({"k":"dyn","traits":tr})
            }
            TyKind::Closure(d, a) => {
                let key = self.enqueue_closure(d, a);
                let ups: Vec<usize> = a.as_closure().upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t) }).collect();
                json!({"k":"closure","key":key,"fields":ups,"kind":format!("{:?}", a.as_closure().kind_ty().to_opt_closure_kind())})
            }
            TyKind::Coroutine(d, a) => {
                let key = self.enqueue_closure(d, a);
                let ups: Vec<usize> = a.as_coroutine().upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t) }).collect();
                json!({"k":"coroutine","key":key,"fields":ups})
            }
            TyKind::CoroutineClosure(..) => json!({"k":"coroutine_closure"}),
            TyKind::Adt(def, args) => {
                let did = def.did();
                let path = self.path(did);
                let kr = self.crate_name(did);
                let all_pub = def.all_fields().all(|f| f.vis.is_public());
                let local = did.krate == LOCAL_CRATE || kr == "kameo" || kr == "kameo_actors";
                let expand = (local || all_pub || EXPAND_CORE.iter().any(|p| path.starts_with(p))) && !def.is_box();
                let mut v = vec![];
                if expand && (def.is_struct() || def.is_enum()) {
                    for (vi, var) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            signed(self.tcx, d.ty, d.val)
                        } else {
                            "0".to_string()
                        };
                        let mut fs = vec![];
                        for f in var.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(json!([f.name.to_string(), self.ty(ft)]));
                        }
                        v.push(json!({"name":var.name.to_string(),"discr":disc,"fields":fs}));
                    }
                }
                let a = self.args(args);
                json!({"k":"adt","path":path,"crate":kr,"args":a,"enum":def.is_enum(),"box":def.is_box(),"expanded":expand,"variants":v})
            }
            TyKind::Alias(_, _) => json!({"k":"alias"}),
            _ => json!({"k":"other"}),
        };
        o["s"] = json!(s);
        o
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let mut s = self.path(d);
        if matches!(self.tcx.def_kind(d), DefKind::Closure) {
            s = format!("{s}#{}", self.tcx.def_path_hash(d).0.to_hex());
        }
        let a = ty::print::with_no_trimmed_paths!(format!("{:?}", inst.args));
        if inst.args.is_empty() {
            s
        } else {
            format!("{s} :: {a} @ {}", if inst.args.has_param() { self.root.as_str() } else { "" })
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        let k = self.key(inst);
        if self.seen.contains(&k) {
            return if self.bodies.get(&k) == Some(&Value::Null) { None } else { Some(k) };
        }
        self.seen.insert(k.clone());
        let ok = if d.is_local() {
            self.local.contains_key(&d)
        } else {
            let p = self.path(d);
            let strip = p.trim_start_matches('<').to_string();
            let kr = self.crate_name(d);
            (kr == "core" || kr == "std" || kr == "alloc")
                && (kr == "core" && EXPAND_CORE.iter().any(|e| strip.starts_with(e) || p.contains(&format!(" as {e}")) || p.contains(&format!("impl {e}"))))
                && self.tcx.is_mir_available(d)
                && !matches!(self.tcx.def_kind(d), DefKind::Ctor(..))
        };
        if !ok {
            self.bodies.insert(k, Value::Null);
            return None;
        }
        self.queue.push_back((inst, k.clone()));
        Some(k)
    }
    fn enqueue_closure(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Option<String> {
        let a = self.tcx.erase_and_anonymize_regions(a);
        let inst = Instance { def: InstanceKind::Item(d), args: a };
        if d.is_local() { self.enqueue(inst) } else if self.tcx.is_mir_available(d) && !self.tcx.is_coroutine(d) {
            let k = self.key(inst);
            if !self.seen.contains(&k) { self.seen.insert(k.clone()); self.queue.push_back((inst, k.clone())); }
            Some(k)
        } else { None }
    }
    /// for calls that consume an iterator as a whole: how one step of it is taken
    fn iterator_arg(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Option<Value> {
        let p = self.path(d);
        let whole = ["collect", "fold", "for_each", "find", "find_map", "position", "any", "all", "count", "last", "min_by_key", "max_by_key", "min_by", "max_by",
            "from_iter", "extend", "join_all", "try_join_all", "try_fold", "try_for_each", "partition", "sum", "reduce", "nth"];
        let name = self.tcx.opt_item_name(d)?.to_string();
        if !whole.contains(&name.as_str()) || p.starts_with("kameo") {
            return None;
        }
        let next = self.tcx.lang_items().next_fn()?;
        let opt = self.tcx.lang_items().option_type()?;
        let item = self.tcx.associated_items(self.tcx.parent(next)).in_definition_order().find(|i| i.is_type())?.def_id;
        for t in a.types() {
            let na = self.tcx.mk_args(&[t.into()]);
            match Instance::try_resolve(self.tcx, self.env, next, na) {
                Ok(Some(_)) => {}
                _ => continue,
            }
            let it = Ty::new_projection(self.tcx, ty::IsRigid::No, item, na);
            let it = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(it)) { Ok(t) => t, _ => continue };
            let o = Ty::new_adt(self.tcx, self.tcx.adt_def(opt), self.tcx.mk_args(&[it.into()]));
            let c = self.callee(next, na);
            return Some(json!({"next": c, "opt": self.ty(o), "item": self.ty(it), "self": self.ty(t)}));
        }
        None
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Value {
        let a = self.tcx.erase_and_anonymize_regions(a);
        let a = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(a)).unwrap_or(a);
        let mut o = json!({
            "path": self.path(d), "name": self.tcx.opt_item_name(d).map(|s| s.to_string()),
            "crate": self.crate_name(d), "args": self.args(a),
            "ctor": matches!(self.tcx.def_kind(d), DefKind::Ctor(..)),
        });
        if let DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
            let _ = of;
            let vd = self.tcx.parent(d);
            let (adt, vi) = match self.tcx.def_kind(vd) {
                DefKind::Variant => { let adt = self.tcx.adt_def(self.tcx.parent(vd)); (adt, adt.variant_index_with_id(vd)) }
                _ => (self.tcx.adt_def(vd), rustc_abi::VariantIdx::from_u32(0)),
            };
            let t = Ty::new_adt(self.tcx, adt, a);
            o["ctor_ty"] = json!(self.ty(t));
            o["ctor_variant"] = json!(vi.as_u32());
            return o;
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o["trait"] = json!(self.path(tr));
        }
        if self.tcx.intrinsic(d).is_some() {
            o["intrinsic"] = json!(true);
        }
        if let Some(it) = self.iterator_arg(d, a) {
            o["iter"] = it;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, a);
            let sig = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(sig.skip_normalization()));
            if let Ok(out) = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(sig.output())) {
                o["out"] = json!(self.ty(out));
            }
            match Instance::try_resolve(self.tcx, self.env, d, a) {
                Ok(Some(inst)) => {
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            let k = self.enqueue(inst);
                            let ra = self.args(inst.args);
                            o["res"] = json!({"kind":"item","path":self.path(rd),"crate":self.crate_name(rd),"key":k,"args":ra});
                        }
                        InstanceKind::Virtual(..) => { o["res"] = json!({"kind":"virtual"}); }
                        InstanceKind::Intrinsic(rd) => { o["res"] = json!({"kind":"intrinsic","path":self.path(rd)}); }
                        _ => { o["res"] = json!({"kind":"shim","desc":format!("{:?}", inst.def)}); }
                    }
                }
                _ => { o["res"] = json!({"kind":"none"}); }
            }
        }
        o
    }
    fn place(&mut self, p: &Place<'tcx>) -> Value {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => json!(["deref"]),
                ProjectionElem::Field(f, t) => json!(["f", f.as_u32(), self.ty(t)]),
                ProjectionElem::Index(l) => json!(["idx", l.as_u32()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["cidx", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(_, v) => json!(["dc", v.as_u32()]),
                _ => json!(["nop"]),
            });
        }
        json!([p.local.as_u32(), pr])
    }
    fn konst(&mut self, c: &Const<'tcx>) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(d, a) = *t.kind() {
            let ce = self.callee(d, a.skip_binder());
            return json!(["fn", ce, tid]);
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                return json!(["promoted", p.as_u32(), tid]);
            }
        }
        let named = match c {
            // an associated constant of a type parameter: named by the parameter it belongs to
            Const::Unevaluated(uv, _) if !uv.args.is_empty() && t.is_ref() => Some(format!("{}{:?}", self.path(uv.def), uv.args)),
            Const::Unevaluated(uv, _) => Some(self.path(uv.def)),
            _ => None,
        };
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(s) = c.try_eval_scalar_int(self.tcx, self.env) {
                let sz = s.size();
                let v = if t.is_signed() { s.to_int(sz).to_string() } else { s.to_bits(sz).to_string() };
                return json!(["int", v, tid]);
            }
        }
        if let TyKind::Adt(def, _) = t.kind() {
            // fieldless-enum / unit constants and other small constants
            if let Ok(dc) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.destructure(c, t))) {
                if let Some(v) = dc { return v; }
            }
            let _ = def;
        }
        if let TyKind::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        return json!(["str", String::from_utf8_lossy(b), tid]);
                    }
                }
            }
        }
        if let Ok(ConstValue::ZeroSized) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            return json!(["zst", named, tid]);
        }
        if let Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            if let GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                return json!(["static", self.path(d), tid]);
            }
        }
        json!(["const", named.unwrap_or_else(|| format!("{c}")), tid])
    }
    fn destructure(&mut self, c: &Const<'tcx>, t: Ty<'tcx>) -> Option<Value> {
        let tid = self.ty(t);
        let val = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP).ok()?;
        if t.has_param() { return None; }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let vi = d.variant.map(|v| v.as_u32()).unwrap_or(0);
        let mut fs = vec![];
        for (v, ft) in d.fields.iter() {
            let k = Const::Val(*v, *ft);
            fs.push(self.konst(&k));
        }
        Some(json!(["adtc", vi, fs, tid]))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!(["cp", self.place(p)]),
            Operand::Move(p) => json!(["mv", self.place(p)]),
            Operand::Constant(c) => json!(["c", self.konst(&c.const_)]),
            Operand::RuntimeChecks(_) => json!(["c", ["rtcheck"]]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o), n.try_to_target_usize(self.tcx)]),
            Rvalue::Ref(_, k, p) => json!(["ref", matches!(k, BorrowKind::Mut{..}), self.place(p)]),
            Rvalue::RawPtr(k, p) => json!(["ref", matches!(k, RawPtrKind::Mut), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => json!(["tls", self.path(*d)]),
            Rvalue::Cast(k, o, t) => {
                let mut kd = format!("{k:?}");
                if let CastKind::PointerCoercion(c, _) = k { kd = format!("{c:?}"); }
                json!(["cast", kd, self.operand(o), self.ty(*t)])
            }
            Rvalue::BinaryOp(op, ab) => json!(["bin", format!("{op:?}"), self.operand(&ab.0), self.operand(&ab.1)]),
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{op:?}"), self.operand(a)]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
            Rvalue::Reborrow(_, _, p) => json!(["use", ["cp", self.place(p)]]),
            Rvalue::WrapUnsafeBinder(o, _) => json!(["use", self.operand(o)]),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<Value> = fs.iter().map(|o| self.operand(o)).collect();
                let kk = match **k {
                    AggregateKind::Array(t) => json!(["array", self.ty(t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), a);
                        json!(["adt", self.ty(t), v.as_u32(), uf.map(|f| f.as_u32())])
                    }
                    AggregateKind::Closure(d, a) => { let key = self.enqueue_closure(d, a); let t = Ty::new_closure(self.tcx, d, a); json!(["closure", key, self.ty(t)]) }
                    AggregateKind::Coroutine(d, a) => { let key = self.enqueue_closure(d, a); let t = Ty::new_coroutine(self.tcx, d, a); json!(["coroutine", key, self.ty(t)]) }
                    AggregateKind::CoroutineClosure(..) => json!(["coroutine_closure"]),
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                };
                json!(["agg", kk, f])
            }
        }
    }
    fn unwind(u: &UnwindAction) -> Value {
        match u {
            UnwindAction::Continue => json!("continue"),
            UnwindAction::Unreachable => json!("unreachable"),
            UnwindAction::Terminate(_) => json!("terminate"),
            UnwindAction::Cleanup(b) => json!(b.as_u32()),
        }
    }
    fn body_json(&mut self, b: &Body<'tcx>) -> Value {
        let locals: Vec<usize> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Map::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.insert(v.name.to_string(), pj);
            }
        }
        let sm = self.tcx.sess.source_map();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(json!(["=", self.place(&a.0), self.rvalue(&a.1)])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(json!(["setd", self.place(place), variant_index.as_u32()])),
                    StatementKind::StorageLive(l) => st.push(json!(["live", l.as_u32()])),
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_u32()])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(json!(["assume", self.operand(o)])),
                        _ => st.push(json!(["unsupported", "copy_nonoverlapping"])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let lo = sm.lookup_char_pos(t.source_info.span.lo());
            let line = format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!(["goto", target.as_u32()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let vs: Vec<Value> = targets.iter().map(|(v, b)| json!([signed(self.tcx, dt, v), b.as_u32()])).collect();
                    json!(["switch", self.operand(discr), vs, targets.otherwise().as_u32(), self.ty(dt)])
                }
                TerminatorKind::UnwindResume => json!(["resume"]),
                TerminatorKind::UnwindTerminate(_) => json!(["abort"]),
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dt = place.ty(&b.local_decls, self.tcx).ty;
                    json!(["drop", self.place(place), target.as_u32(), Self::unwind(unwind), self.ty(dt)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<Value> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<usize> = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); let t = self.norm(t); self.ty(t) }).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.norm(dt);
                    json!(["call", self.operand(func), a, self.place(destination), target.map(|t| t.as_u32()), Self::unwind(unwind), self.ty(dt), at])
                }
                TerminatorKind::TailCall { .. } => json!(["unsupported", "tailcall"]),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg { AssertKind::BoundsCheck{..} => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow", AssertKind::DivisionByZero(..) => "div0", AssertKind::RemainderByZero(..) => "rem0", _ => "other" };
                    json!(["assert", self.operand(cond), expected, m, target.as_u32(), Self::unwind(unwind)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => json!(["yield", self.operand(value), resume.as_u32(), self.place(resume_arg)]),
                TerminatorKind::CoroutineDrop => json!(["codrop"]),
                TerminatorKind::FalseEdge { real_target, .. } => json!(["goto", real_target.as_u32()]),
                TerminatorKind::FalseUnwind { real_target, .. } => json!(["goto", real_target.as_u32()]),
                TerminatorKind::InlineAsm { .. } => json!(["unsupported", "asm"]),
            };
            blocks.push(json!({"s": st, "t": tj, "l": line, "c": bb.is_cleanup}));
        }
        json!({"argc": b.arg_count, "locals": locals, "names": names, "blocks": blocks,
               "spread": b.spread_arg.map(|l| l.as_u32()), "phase": format!("{:?}", b.phase)})
    }
    fn inst_body(&mut self, inst: Instance<'tcx>, b: &Body<'tcx>) -> Body<'tcx> {
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, b.clone())) {
            Ok(b) => b,
            Err(e) => { eprintln!("kmir: cannot normalise {}: {:?}", self.key(inst), e);
                EarlyBinder::bind(self.tcx, b.clone()).instantiate(self.tcx, inst.args).skip_norm_wip() }
        }
    }
    fn run(&mut self) {
        while let Some((inst, k)) = self.queue.pop_front() {
            let d = inst.def_id();
            let (body, proms): (Body<'tcx>, Vec<Body<'tcx>>) = if let Some((b, p)) = self.local.get(&d) {
                (b.clone(), p.iter().cloned().collect())
            } else {
                (self.tcx.instance_mir(inst.def).clone(), self.tcx.promoted_mir(d).iter().cloned().collect())
            };
            let body = self.inst_body(inst, &body);
            let mut o = self.body_json(&body);
            let mut ps = vec![];
            for p in proms {
                let p = self.inst_body(inst, &p);
                ps.push(self.body_json(&p));
            }
            o["promoted"] = json!(ps);
            o["path"] = json!(self.path(d));
            o["crate"] = json!(self.crate_name(d));
            o["name"] = json!(self.tcx.opt_item_name(d).map(|s| s.to_string()));
            o["kind"] = json!(format!("{:?}", self.tcx.def_kind(d)));
            o["coroutine"] = json!(self.tcx.is_coroutine(d));
            let a = self.args(inst.args);
            o["args"] = json!(a);
            self.bodies.insert(k, o);
            self.flush_types();
        }
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("KMIR_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let cn = tcx.crate_name(LOCAL_CRATE).to_string();
        if !std::env::var("KMIR_CRATES").unwrap_or_default().split(',').any(|c| c == cn) {
            return Compilation::Continue;
        }
        if let Some(g) = tcx.dcx().has_errors() { let _ = g; return Compilation::Continue; }
        let roots: Vec<String> = match std::env::var("KMIR_ROOTS") {
            Ok(f) if !f.is_empty() => std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect(),
            _ => vec![],
        };
        let mut local = HashMap::new();
        for d in tcx.mir_keys(()) {
            let kind = tcx.def_kind(*d);
            let statics = std::env::var("KMIR_STATICS").is_ok() && matches!(kind, DefKind::Static { .. } | DefKind::AssocConst { .. });
            if !statics && !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let (b, p) = tcx.mir_promoted(*d);
            if b.is_stolen() || p.is_stolen() { eprintln!("kmir: stolen {:?}", d); continue; }
            let (b, p) = (b.borrow().clone(), p.borrow().clone());
            local.insert(d.to_def_id(), (b, p));
        }
        let mut fns: Vec<DefId> = local.keys().copied().filter(|d| !matches!(tcx.def_kind(*d), DefKind::Closure)).collect();
        fns.sort_by_key(|d| tcx.def_path_hash(*d));
        let mut dm = Dumper {
            tcx, env: ty::TypingEnv::fully_monomorphized(), root: String::new(), local, types: vec![], tymap: HashMap::new(),
            typending: VecDeque::new(), bodies: Map::new(), seen: HashSet::new(), queue: VecDeque::new(), nth: HashMap::new(),
        };
        let mut same: HashMap<String, Vec<DefId>> = HashMap::new();
        let mut by_index = fns.clone();
        by_index.sort_by_key(|d| d.index);
        for d in by_index { same.entry(dm.path(d)).or_default().push(d); }
        for ds in same.into_values().filter(|ds| ds.len() > 1) { for (n, d) in ds.into_iter().enumerate() { dm.nth.insert(d, n); } }
        let mut rootmap = Map::new();
        let mut all = vec![];
        for d in fns {
            let p = dm.path(d);
            let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
            all.push(json!([p, format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line)]));
            if !roots.iter().any(|r| r == "*" || p == *r || (r.ends_with('*') && p.starts_with(&r[..r.len() - 1])) || (r.starts_with('*') && p.ends_with(&r[1..]))) {
                continue;
            }
            dm.env = ty::TypingEnv::post_analysis(tcx, d);
            dm.root = p.clone();
            dm.tymap.clear();
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let k = dm.key(inst);
            dm.seen.insert(k.clone());
            dm.queue.push_back((inst, k.clone()));
            rootmap.insert(p, json!(k));
            dm.run();
            dm.flush_types();
            dm.run();
        }
        let o = json!({"crate": cn, "fns": all, "roots": rootmap, "types": dm.types, "bodies": dm.bodies});
        std::fs::write(format!("{out}/{cn}.json"), serde_json::to_string(&o).unwrap()).unwrap();
        eprintln!("kmir: {} roots, {} bodies, {} types", o["roots"].as_object().unwrap().len(), o["bodies"].as_object().unwrap().len(), o["types"].as_array().unwrap().len());
        let _ = mir::START_BLOCK;
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
