//! `mirfacts`: a rustc driver used as RUSTC_WRAPPER.  For the crates named in
//! MIRFACTS_CRATES it dumps, as JSON, the type-checked program: every body's
//! MIR (before drop elaboration and the coroutine transform), with resolved
//! callees, evaluated scalar constants, interned types, ADT layouts and spans.
//! Every other crate is handed to the real rustc unchanged.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>, IndexVec<Promoted, Body<'static>>)>> =
        const { RefCell::new(Vec::new()) };
}

type PromFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>);

static ORIG: std::sync::OnceLock<PromFn> = std::sync::OnceLock::new();

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>) {
    let (b, p) = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = b.borrow().clone();
    let proms: IndexVec<Promoted, Body<'tcx>> = p.borrow().clone();
    // SAFETY: only read back in `after_analysis` of the same session, with the same `tcx`.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    let proms: IndexVec<Promoted, Body<'static>> = unsafe { std::mem::transmute(proms) };
    BODIES.with(|v| v.borrow_mut().push((def, body, proms)));
    (b, p)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    defs: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }

    fn def(&mut self, d: DefId) -> String {
        let k = self.key(d);
        if !self.defs.contains_key(&k) {
            self.defs.insert(k.clone(), "null".into());
            let tcx = self.tcx;
            let kind = tcx.def_kind(d);
            let mut s = format!("{{\"kind\":{}", esc(&format!("{:?}", kind)));
            let pretty = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
            let _ = write!(s, ",\"pretty\":{}", esc(&pretty));
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(s, ",\"name\":{}", esc(n.as_str()));
            }
            if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
                let p = tcx.parent(d);
                match tcx.def_kind(p) {
                    DefKind::Trait => {
                        let _ = write!(s, ",\"trait\":{}", esc(&self.key(p)));
                    }
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let sti = self.ty(st);
                        let _ = write!(s, ",\"self_ty\":{}", sti);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            let _ = write!(s, ",\"impl_trait\":{}", esc(&self.key(tr.def_id)));
                            let a = self.gargs(tr.args);
                            let _ = write!(s, ",\"trait_args\":{}", a);
                        }
                    }
                    _ => {}
                }
            }
            if matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Closure
            ) {
                let g = tcx.generics_of(d);
                let mut names = Vec::new();
                for i in 0..g.count() {
                    names.push(esc(g.param_at(i, tcx).name.as_str()));
                }
                let _ = write!(s, ",\"generics\":[{}]", names.join(","));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(s, ",\"async\":{}", tcx.asyncness(d).is_async());
            }
            let parent = tcx.opt_parent(d).map(|p| esc(&self.key(p))).unwrap_or("null".into());
            let _ = write!(s, ",\"parent\":{}", parent);
            let vis_pub = if d.is_local() || !matches!(kind, DefKind::Closure) {
                match kind {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Struct | DefKind::Enum => {
                        tcx.visibility(d).is_public()
                    }
                    _ => false,
                }
            } else {
                false
            };
            let _ = write!(s, ",\"pub\":{}", vis_pub);
            s.push('}');
            self.defs.insert(k.clone(), s);
        }
        k
    }

    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                GenericArgKind::Const(c) => {
                    if let Some(n) = c.try_to_target_usize(self.tcx) {
                        v.push(format!("{{\"c\":{}}}", n));
                    } else {
                        v.push(format!("{{\"c\":{}}}", esc(&format!("{:?}", c))));
                    }
                }
                GenericArgKind::Lifetime(_) => v.push("null".into()),
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push("null".into());
        self.tymap.insert(t, idx);
        let text = {
            let x = rustc_middle::ty::print::with_crate_prefix!(
                rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
            );
            let cn = self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            x.replace("crate::", &format!("{}::", cn))
        };
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let k = self.adt(*def);
                let a = self.gargs(args);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", esc(&k), a)
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), i)
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                format!("\"k\":\"slice\",\"of\":{}", i)
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                let l = match n.try_to_target_usize(self.tcx) {
                    Some(n) => format!("{}", n),
                    None => esc(&format!("{}", n)),
                };
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", i, l)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| format!("{}", self.ty(x))).collect();
                format!("\"k\":\"tuple\",\"of\":[{}]", v.join(","))
            }
            ty::FnDef(d, a) => {
                let k = self.def(*d);
                let a = self.gargs(a.skip_binder());
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&k), a)
            }
            ty::Closure(d, a) => {
                let k = self.def(*d);
                let a = self.gargs(a);
                format!("\"k\":\"closure\",\"def\":{},\"args\":{}", esc(&k), a)
            }
            ty::Coroutine(d, a) => {
                let k = self.def(*d);
                let a = self.gargs(a);
                format!("\"k\":\"coroutine\",\"def\":{},\"args\":{}", esc(&k), a)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                "\"k\":\"prim\"".to_string()
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[idx] = format!("{{{},\"s\":{}}}", body, esc(&text));
        idx
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let k = self.key(def.did());
        if !self.adts.contains_key(&k) {
            self.adts.insert(k.clone(), "null".into());
            let mut vs = Vec::new();
            let discrs: HashMap<_, _> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
            } else {
                HashMap::new()
            };
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), ti));
                }
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                    esc(v.name.as_str()),
                    discrs.get(&vi).copied().unwrap_or(0),
                    fs.join(",")
                ));
            }
            let s = format!(
                "{{\"enum\":{},\"union\":{},\"variants\":[{}]}}",
                def.is_enum(),
                def.is_union(),
                vs.join(",")
            );
            self.adts.insert(k.clone(), s);
        }
        k
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, i) => format!(
                    "[\"d\",{},{}]",
                    i.as_usize(),
                    n.map(|n| esc(n.as_str())).unwrap_or("null".into())
                ),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {
                    "[\"cast\"]".to_string()
                }
                #[allow(unreachable_patterns)]
                _ => "[\"cast\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut s = format!("{{\"ty\":{}", ti);
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let k = self.def(*d);
                let a = self.gargs(args);
                let _ = write!(s, ",\"fn\":{},\"args\":{}", esc(&k), a);
                if let Some(a0) = args.types().next() {
                    if tcx.trait_of_assoc(*d).is_some() {
                        let _ = write!(s, ",\"self\":{}", self.ty(a0));
                    }
                }
                let args2 = tcx.erase_and_anonymize_regions(args);
                let args2 = tcx
                    .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args2))
                    .unwrap_or(args2);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *d, args2) {
                    let rd = inst.def_id();
                    if rd != *d {
                        let rk = self.def(rd);
                        let ra = self.gargs(inst.args);
                        let _ = write!(s, ",\"res\":{},\"rargs\":{}", esc(&rk), ra);
                    }
                }
            }
            _ => {
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        if let Some(p) = u.promoted {
                            let _ = write!(s, ",\"promoted\":{}", p.as_usize());
                        } else {
                            let k = self.def(u.def);
                            let a = self.gargs(u.args);
                            let _ = write!(s, ",\"path\":{},\"args\":{}", esc(&k), a);
                            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                                let rd = inst.def_id();
                                if rd != u.def {
                                    let rk = self.def(rd);
                                    let ra = self.gargs(inst.args);
                                    let _ = write!(s, ",\"res\":{},\"rargs\":{}", esc(&rk), ra);
                                }
                            }
                        }
                    }
                    Const::Ty(_, c) => {
                        let _ = write!(s, ",\"tyconst\":{}", esc(&format!("{}", c)));
                    }
                    _ => {}
                }
                let is_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
                if !is_prom {
                    if t.is_integral() || t.is_bool() || t.is_char() {
                        if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                            let _ = write!(s, ",\"int\":{}", b);
                        }
                    } else if let ty::Ref(_, inner, _) = t.kind() {
                        let is_bytes = matches!(inner.kind(), ty::Str)
                            || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8);
                        if is_bytes {
                            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let _ = write!(
                                        s,
                                        ",\"str\":{}",
                                        esc(&String::from_utf8_lossy(b))
                                    );
                                }
                            }
                        } else if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) {
                            if let Some(b) = self.ref_bytes(c, *inner, env) {
                                let _ = write!(s, ",\"refbytes\":[{}]", b);
                            }
                        }
                    } else if matches!(t.kind(), ty::Adt(..) | ty::Array(..)) {
                        if let Some(b) = self.const_bytes(c, t, env) {
                            let _ = write!(s, ",\"bytes\":[{}]", b);
                        }
                        if let Const::Val(ConstValue::ZeroSized, _) = c.const_ {
                            let _ = write!(s, ",\"zst\":true");
                        }
                    } else if let Const::Val(ConstValue::ZeroSized, _) = c.const_ {
                        let _ = write!(s, ",\"zst\":true");
                    }
                }
            }
        }
        s.push('}');
        s
    }

    /// bytes behind a constant reference to a byte array
    fn ref_bytes(&mut self, c: &ConstOperand<'tcx>, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
        let v = c.const_.eval(tcx, env, c.span).ok()?;
        let ConstValue::Scalar(Scalar::Ptr(p, _)) = v else { return None };
        let (prov, offset) = p.into_raw_parts();
        let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) else { return None };
        let a = a.inner();
        let (s, e) = (offset.bytes() as usize, (offset + size).bytes() as usize);
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
        Some(b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))
    }

    /// raw bytes of a small, pointer-free constant
    fn const_bytes(&mut self, c: &ConstOperand<'tcx>, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
        if size.bytes() == 0 || size.bytes() > 64 {
            return None;
        }
        let v = c.const_.eval(tcx, env, c.span).ok()?;
        let bytes: Vec<u8> = match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let n = i.size().bytes() as usize;
                i.to_bits(i.size()).to_le_bytes()[..n].to_vec()
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let a = a.inner();
                let (s, e) = (offset.bytes() as usize, (offset + size).bytes() as usize);
                if !a.provenance().ptrs().is_empty() {
                    return None;
                }
                if !a.init_mask().is_range_initialized((offset..offset + size).into()).is_ok() {
                    return None;
                }
                a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec()
            }
            _ => return None,
        };
        Some(bytes.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))
    }

    /// JSON of a constant's value: integers, strings, lists, {"adt","v","f"}
    fn valtree(&mut self, v: ty::ValTree<'tcx>, t: Ty<'tcx>) -> String {
        let mut t = t;
        while let ty::Ref(_, i, _) = t.kind() {
            t = *i;
        }
        match &**v {
            ty::ValTreeKind::Leaf(s) => format!("{}", s.to_bits_unchecked()),
            ty::ValTreeKind::Branch(b) => {
                if t.is_str() {
                    let bytes: Vec<u8> =
                        b.iter().map(|c| c.to_value().valtree.to_leaf().to_bits_unchecked() as u8).collect();
                    return esc(&String::from_utf8_lossy(&bytes));
                }
                let kids: Vec<(ty::ValTree<'tcx>, Ty<'tcx>)> =
                    b.iter().map(|c| (c.to_value().valtree, c.to_value().ty)).collect();
                let mut out = Vec::new();
                for (v, t) in &kids {
                    out.push(self.valtree(*v, *t));
                }
                if let ty::Adt(d, _) = t.kind() {
                    let k = self.key(d.did());
                    if d.is_enum() {
                        let n = out.remove(0);
                        return format!("{{\"adt\":{},\"v\":{},\"f\":[{}]}}", esc(&k), n, out.join(","));
                    }
                    return format!("{{\"adt\":{},\"v\":0,\"f\":[{}]}}", esc(&k), out.join(","));
                }
                format!("[{}]", out.join(","))
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env)),
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => format!("{}", n),
                    None => esc(&format!("{}", n)),
                };
                format!("[\"repeat\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "shared" }, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let kn = format!("{:?}", k);
                let st = self.ty(o.ty(&b.local_decls, self.tcx));
                format!("[\"cast\",{},{},{},{}]", esc(&kn), self.operand(o, env), ti, st)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(&ab.0, env),
                    self.operand(&ab.1, env),
                    ti
                )
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let v = v.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,0,[{}]]", v),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,[{}]]", v),
                    AggregateKind::Adt(d, vi, _args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let k = self.adt(def);
                        format!(
                            "[\"agg\",\"adt\",{},{},[{}],{}]",
                            esc(&k),
                            vi.as_usize(),
                            v,
                            active.map(|a| a.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a)
                    | AggregateKind::Coroutine(d, a)
                    | AggregateKind::CoroutineClosure(d, a) => {
                        let kk = self.def(*d);
                        let ga = self.gargs(a);
                        let kind = match &**k {
                            AggregateKind::Closure(..) => "closure",
                            _ => "coroutine",
                        };
                        format!("[\"agg\",\"{}\",{},0,[{}],{}]", kind, esc(&kk), v, ga)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,0,[{}]]", v),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }

    /// line of the innermost (macro definition) position
    fn inner_line(&self, sp: rustc_span::Span) -> (String, usize) {
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "\"argc\":{}", b.arg_count);
        let ls: Vec<String> = b.local_decls.iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let _ = write!(s, ",\"locals\":[{}]", ls.join(","));
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(s, ",\"names\":[{}]", names.join(","));
        let mut bbs = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &bb.statements {
                let l = self.inner_line(x.source_info.span).1;
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(b, &a.1, env);
                        st.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), l));
                    }
                    StatementKind::StorageDead(x) => {
                        st.push(format!("[\"dead\",{}]", x.as_usize()));
                    }
                    StatementKind::StorageLive(x) => {
                        st.push(format!("[\"live\",{}]", x.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (f, l) = self.inner_line(t.source_info.span);
            let (cf, cl) = self.line(t.source_info.span);
            let bbi = |b: &BasicBlock| b.as_usize();
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", bbi(target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", v, bbi(&t))).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(discr, env),
                        v.join(","),
                        bbi(&targets.otherwise()),
                        dti
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(ty);
                    format!("[\"drop\",{},{},{}]", self.place(place), bbi(target), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{}]",
                        self.operand(func, env),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| format!("{}", bbi(&t))).unwrap_or("null".into())
                    )
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    format!("[\"tailcall\",{},[{}]]", self.operand(func, env), a.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, env),
                            self.operand(index, env)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(a, env),
                            self.operand(b, env)
                        ),
                        AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".into(),
                        AssertKind::DivisionByZero(_) => "[\"divzero\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"remzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, env),
                        expected,
                        m,
                        bbi(target)
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{}]", bbi(resume), self.place(resume_arg))
                }
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", bbi(real_target)),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", bbi(real_target))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!(
                "{{\"cleanup\":{},\"s\":[{}],\"t\":{},\"at\":[{},{}],\"cs\":[{},{}]}}",
                bb.is_cleanup,
                st.join(","),
                tk,
                esc(&f),
                l,
                esc(&cf),
                cl
            ));
        }
        let _ = write!(s, ",\"bbs\":[{}]", bbs.join(","));
        s
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = my_mir_promoted;
        });
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let bodies = BODIES.with(|b| std::mem::take(&mut *b.borrow_mut()));
        // SAFETY: same session (see above).
        let bodies: Vec<(LocalDefId, Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)> =
            unsafe { std::mem::transmute(bodies) };
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), defs: BTreeMap::new() };
        let mut fns = Vec::new();
        for (d, body, proms) in &bodies {
            let did = d.to_def_id();
            let env = TypingEnv::post_analysis(tcx, did);
            let k = cx.def(did);
            let (f, l) = cx.line(tcx.def_span(did));
            let (mf, ml) = cx.inner_line(tcx.def_span(did));
            let mut s = format!(
                "{{\"key\":{},\"file\":{},\"line\":{},\"mfile\":{},\"mline\":{},",
                esc(&k),
                esc(&f),
                l,
                esc(&mf),
                ml
            );
            let is_co = tcx.is_coroutine(did);
            let _ = write!(s, "\"coroutine\":{},", is_co);
            s.push_str(&cx.body(body, env));
            let mut ps = Vec::new();
            for p in proms.iter() {
                ps.push(format!("{{{}}}", cx.body(p, env)));
            }
            let _ = write!(s, ",\"promoted\":[{}]}}", ps.join(","));
            fns.push(s);
        }
        // local items: impls of traits, used for who-implements-what queries
        let mut impls = Vec::new();
        for (tr, v) in tcx.all_local_trait_impls(()).iter() {
            for i in v {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let mut items = Vec::new();
                for it in tcx.associated_item_def_ids(i.to_def_id()) {
                    items.push(esc(&cx.def(*it)));
                }
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"items\":[{}]}}",
                    esc(&cx.key(*tr)),
                    sti,
                    items.join(",")
                ));
            }
        }
        // values of constant items, as the compiler evaluates them
        let mut consts = Vec::new();
        for (d, _, _) in &bodies {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Const { .. }) || tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let inst = ty::Instance::mono(tcx, did);
            let gid = rustc_middle::mir::interpret::GlobalId { instance: inst, promoted: None };
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let inp = tcx.erase_and_anonymize_regions(
                env.with_post_analysis_normalized_invalidating_rigid_aliases(tcx, gid),
            );
            if let Ok(v) = tcx.eval_to_valtree(inp) {
                let s = cx.valtree(v, t);
                consts.push(format!("{}:{}", esc(&cx.key(did)), s));
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()));
        let _ = write!(o, "\"types\":[{}],\n", cx.types.join(",\n"));
        let _ = write!(o, "\"fns\":[{}],\n", fns.join(",\n"));
        let _ = write!(o, "\"impls\":[{}],\n", impls.join(",\n"));
        let _ = write!(o, "\"consts\":{{{}}},\n", consts.join(",\n"));
        let d: Vec<String> = cx.defs.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let _ = write!(o, "\"defs\":{{{}}},\n", d.join(",\n"));
        let d: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let _ = write!(o, "\"adts\":{{{}}}}}\n", d.join(",\n"));
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let path = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.{}", path, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let real = args.get(1).cloned().unwrap_or_else(|| "rustc".into());
    let rest: Vec<String> = args[2.min(args.len())..].to_vec();
    let cname = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1)).cloned();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let hit = cname.as_deref().map(|c| want.split(',').any(|w| w == c)).unwrap_or(false) && !out.is_empty();
    if !hit {
        let st = std::process::Command::new(&real).args(&rest).status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut a = vec![real];
    a.extend(rest);
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&a, &mut Cb { out });
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
