// Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, dumps the built MIR (before borrow
// checking, so async bodies still have their source-level control flow) of every body
// of the crate, with resolved callees, types, constants, ADTs and impls, as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<String, usize>,
    tylist: Vec<String>,
    adts: BTreeMap<String, DefId>,
    adtseen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, did: DefId) -> String {
        let k = self.tcx.crate_name(did.krate).to_string();
        let p = self.tcx.def_path(did).to_string_no_crate_verbose();
        format!("{}{}", k, p)
    }
    fn pretty(&self, did: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(did));
        if did.is_local() {
            // def_path_str omits the local crate name
            let k = self.tcx.crate_name(did.krate).to_string();
            if s.starts_with('<') { s } else { format!("{}::{}", k, s) }
        } else {
            s
        }
    }
    fn see_ty(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    if self.adtseen.insert(d.did()) {
                        let k = self.key(d.did());
                        self.adts.insert(k, d.did());
                    }
                }
            }
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        self.see_ty(t);
        let s = with_no_trimmed_paths!(t.to_string());
        if let Some(i) = self.tys.get(&s) {
            return *i;
        }
        let i = self.tylist.len();
        self.tys.insert(s.clone(), i);
        self.tylist.push(s);
        i
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        p.file.name.prefer_local_unconditionally().to_string()
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() || d.is_union() {
                                d.variant(v).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        ty::Closure(did, _) | ty::Coroutine(did, _) => {
                            if let Some(l) = did.as_local() {
                                let caps = tcx.closure_captures(l);
                                caps.get(f.as_usize()).map(|c| c.to_string(tcx)).unwrap_or_else(|| f.as_usize().to_string())
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) if d.is_enum() => d.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), esc(&name));
                }
                _ => o.push_str(",[\"o\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn fndef(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"key\":{},\"name\":{}", esc(&self.key(did)), esc(&self.pretty(did)));
        let mut tl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                tl.push(self.ty(t).to_string());
            }
        }
        let _ = write!(o, ",\"targs\":[{}]", tl.join(","));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.key(tr)));
        }
        if tcx.is_constructor(did) {
            let _ = write!(o, ",\"ctor\":{}", esc(&self.key(tcx.parent(did))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let args = tcx.erase_and_anonymize_regions(args);
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => Instance::try_resolve(tcx, env, did, args),
                _ => Ok(None),
            }
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
            if rd != did {
                let _ = write!(o, ",\"res\":{},\"resname\":{}", esc(&self.key(rd)), esc(&self.pretty(rd)));
            }
            if virt {
                o.push_str(",\"virt\":true");
            } else {
                o.push_str(",\"resolved\":true");
            }
        }
        o.push('}');
        o
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{\"fn\":{}}}", self.fndef(env, *did, args));
        }
        if let ty::Closure(did, _) = t.kind() {
            return format!("{{\"closure\":{}}}", esc(&self.key(*did)));
        }
        let tyi = self.ty(t);
        let mut o = format!("{{\"ty\":{}", tyi);
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{}", esc(&self.key(u.def)));
        }
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if let Const::Unevaluated(u, _) = c.const_ {
                use rustc_middle::ty::TypeVisitableExt;
                if u.args.has_non_region_param() {
                    return None;
                }
            }
            c.const_.eval(tcx, env, rustc_span::DUMMY_SP).ok()
        }));
        if let Ok(Some(v)) = v {
            match v {
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let bits = i.to_bits_unchecked();
                        let val: String = match t.kind() {
                            ty::Int(_) => {
                                let sz = i.size();
                                format!("{}", sz.sign_extend(bits))
                            }
                            ty::Float(ty::FloatTy::F32) => {
                                let f = f32::from_bits(bits as u32);
                                if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
                            }
                            ty::Float(ty::FloatTy::F64) => {
                                let f = f64::from_bits(bits as u64);
                                if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
                            }
                            _ => format!("{}", bits),
                        };
                        let _ = write!(o, ",\"v\":{}", val);
                    } else if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                            let _ = write!(o, ",\"static\":{}", esc(&self.key(d)));
                        } else if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(p.provenance.alloc_id()) {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() && a.len() < 4096 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                let h: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":[{}]", h.join(","));
                            }
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if let ty::Ref(_, it, _) = t.kind() {
                            if it.is_str() {
                                let _ = write!(o, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                            } else {
                                let h: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":[{}]", h.join(","));
                            }
                        }
                    }
                }
                ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                _ => {}
            }
        }
        o.push('}');
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, c)),
            _ => "[\"k\",{}]".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, env, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let f = matches!(k, BorrowKind::Fake(_));
                format!("[\"ref\",{},{}]", if f { "\"fake\"" } else if m { "\"mut\"" } else { "\"shared\"" }, self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, tcx);
                let fti = self.ty(ft);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, env, o), ti, fti)
            }
            Rvalue::BinaryOp(op, b) => {
                let (a, c) = &**b;
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(body, env, a), self.operand(body, env, c))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(body, env, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let ti = self.ty(t);
                let adt = match t.kind() {
                    ty::Adt(d, _) => esc(&self.key(d.did())),
                    _ => "null".to_string(),
                };
                format!("[\"discr\",{},{},{}]", self.place(body, p), ti, adt)
            }
            Rvalue::Aggregate(k, ops) => {
                let kd = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        if self.adtseen.insert(*d) {
                            let k = self.key(*d);
                            self.adts.insert(k, *d);
                        }
                        let var = def.variant(*v);
                        format!("[\"adt\",{},{},{},{}]", esc(&self.key(*d)), v.as_usize(), esc(var.name.as_str()), active.map(|f| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", esc(&self.key(*d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"coroutineclosure\",{}]", esc(&self.key(*d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                format!("[\"agg\",{},[{}]]", kd, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }
    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let kind = match tcx.def_kind(d) {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => {
                if tcx.is_coroutine(d) { "coroutine" } else { "closure" }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            DefKind::AnonConst => "anonconst",
            DefKind::Ctor(..) => "ctor",
            _ => "other",
        };
        let mut o = String::new();
        let _ = write!(o, "{{\"key\":{},\"name\":{},\"kind\":\"{}\"", esc(&self.key(d)), esc(&self.pretty(d)), kind);
        if kind == "closure" || kind == "coroutine" {
            let _ = write!(o, ",\"parent\":{}", esc(&self.key(tcx.parent(d))));
            let caps: Vec<String> = tcx.closure_captures(did).iter().map(|c| esc(&c.to_string(tcx))).collect();
            let _ = write!(o, ",\"captures\":[{}]", caps.join(","));
        }
        if kind == "method" {
            let imp = tcx.parent(d);
            let _ = write!(o, ",\"impl\":{}", esc(&self.key(imp)));
            if let DefKind::Impl { of_trait } = tcx.def_kind(imp) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                let _ = write!(o, ",\"self_ty\":{}", sti);
                if of_trait {
                    let tr = tcx.impl_trait_id(imp);
                    let _ = write!(o, ",\"trait\":{}", esc(&self.key(tr)));
                }
            }
        }
        if kind == "fn" || kind == "method" {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            if tcx.asyncness(d).is_async() {
                o.push_str(",\"async\":true");
            }
        }
        let _ = write!(o, ",\"file\":{},\"line\":{}", esc(&self.file(body.span)), self.line(body.span));
        let _ = write!(o, ",\"nargs\":{}", body.arg_count);
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            if let Some(n) = names.get(&l.as_usize()) {
                ls.push(format!("[{},{}]", t, esc(n)));
            } else {
                ls.push(format!("[{}]", t));
            }
        }
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut bs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let ps = self.place(body, p);
                        let rs = self.rvalue(body, env, r);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, place);
                        st.push(format!("[\"setd\",{},{},{}]", ps, variant_index.as_usize(), line));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let sz = if signed { dt.primitive_size(tcx).bits() } else { 128 };
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed && sz < 128 && (v >> (sz - 1)) & 1 == 1 { format!("{}", v as i128 - (1i128 << sz)) } else { v.to_string() };
                            format!("[{},{}]", vs, b.as_usize())
                        })
                        .collect();
                    let os = self.operand(body, env, discr);
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{},{}]", os, v.join(","), targets.otherwise().as_usize(), line, dti)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ps = self.place(body, place);
                    format!("[\"drop\",{},{},{},{}]", ps, target.as_usize(), Self::unwind(unwind), line)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let dp = self.place(body, destination);
                    let exp = fn_span.from_expansion();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},{}]",
                        f,
                        a.join(","),
                        dp,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind),
                        line,
                        exp
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", c, expected, esc(&m), target.as_usize(), Self::unwind(unwind), line)
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    let v = self.operand(body, env, value);
                    let ra = self.place(body, resume_arg);
                    format!("[\"yield\",{},{},{},{}]", v, resume.as_usize(), ra, line)
                }
                TerminatorKind::CoroutineDrop => "[\"codrop\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bs.push(format!("{{\"c\":{},\"s\":[{}],\"t\":{}}}", bb.is_cleanup, st.join(","), ts));
        }
        let _ = write!(o, ",\"blocks\":[{}]}}", bs.join(",\n"));
        o
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, compiler: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut stolen = 0;
        for did in owners.iter().copied() {
            if matches!(tcx.def_kind(did), DefKind::AnonConst) {
                continue;
            }
            let st = tcx.mir_built(did);
            if st.is_stolen() {
                stolen += 1;
                match tcx.def_kind(did) {
                    DefKind::AnonConst => {}
                    _ => {
                        let p = tcx.mir_promoted(did).0;
                        if !p.is_stolen() {
                            bodies.push((did, p.borrow().clone()));
                        } else {
                            bodies.push((did, tcx.mir_for_ctfe(did).clone()));
                        }
                    }
                }
                continue;
            }
            let b = st.borrow().clone();
            bodies.push((did, b));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), tylist: vec![], adts: BTreeMap::new(), adtseen: HashSet::new() };
        let mut out = String::new();
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let _ = write!(out, "{{\"crate\":{},\"stolen\":{},\"bodies\":[\n", esc(&cname), stolen);
        let mut first = true;
        for (did, b) in &bodies {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let s = cx.body(*did, b);
            out.push_str(&s);
        }
        out.push_str("],\n\"impls\":[");
        // trait impls
        first = true;
        for &imp in tcx.trait_impls_in_crate(rustc_hir::def_id::LOCAL_CRATE) {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let tr = tcx.impl_trait_id(imp);
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let adt = match st.kind() {
                ty::Adt(d, _) => esc(&cx.key(d.did())),
                _ => "null".into(),
            };
            let trs = with_no_trimmed_paths!(tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip().to_string());
            let mut ms: Vec<String> = vec![];
            let mut items: Vec<(String, String)> = tcx
                .associated_items(imp)
                .in_definition_order()
                .filter_map(|it| it.trait_item_def_id().map(|t| (cx.key(t), cx.key(it.def_id))))
                .collect();
            items.sort();
            for (t, i) in items {
                ms.push(format!("[{},{}]", esc(&t), esc(&i)));
            }
            let file = cx.file(tcx.def_span(imp));
            let line = cx.line(tcx.def_span(imp));
            let _ = write!(
                out,
                "{{\"key\":{},\"trait\":{},\"traitref\":{},\"self\":{},\"adt\":{},\"items\":[{}],\"file\":{},\"line\":{}}}",
                esc(&cx.key(imp)),
                esc(&cx.key(tr)),
                esc(&trs),
                sti,
                adt,
                ms.join(","),
                esc(&file),
                line
            );
        }
        out.push_str("],\n\"adts\":[");
        // all local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                if cx.adtseen.insert(d) {
                    let k = cx.key(d);
                    cx.adts.insert(k, d);
                }
            }
        }
        first = true;
        let adts: Vec<(String, DefId)> = cx.adts.iter().map(|(a, b)| (a.clone(), *b)).collect();
        for (k, d) in adts {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let local = d.is_local();
            let discrs: Vec<(rustc_abi::VariantIdx, ty::util::Discr<'tcx>)> = if def.is_enum() { def.discriminants(tcx).collect() } else { vec![] };
            for (vi, v) in def.variants().iter_enumerated() {
                let dv = discrs.iter().find(|x| x.0 == vi).map(|x| x.1.to_string()).unwrap_or("0".into());
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let fti = if local { cx.ty(ft) as i64 } else { let s = with_no_trimmed_paths!(ft.to_string()); if let Some(i) = cx.tys.get(&s) { *i as i64 } else { let i = cx.tylist.len(); cx.tys.insert(s.clone(), i); cx.tylist.push(s); i as i64 } };
                    fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fti, tcx.visibility(f.did).is_public()));
                }
                let dvn: String = dv.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                vs.push(format!("[{},{},[{}]]", esc(v.name.as_str()), if dvn.is_empty() { "0".into() } else { dvn }, fs.join(",")));
            }
            let (file, line) = if local { (cx.file(tcx.def_span(d)), cx.line(tcx.def_span(d))) } else { (String::new(), 0) };
            let _ = write!(
                out,
                "{{\"key\":{},\"name\":{},\"kind\":{},\"local\":{},\"file\":{},\"line\":{},\"variants\":[{}]}}",
                esc(&k),
                esc(&cx.pretty(d)),
                esc(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" }),
                local,
                esc(&file),
                line,
                vs.join(",")
            );
        }
        // unsafe blocks: per HIR
        out.push_str("],\n\"unsafe\":[");
        first = true;
        for did in owners.iter().copied() {
            let mut v = UnsafeFinder { tcx, found: vec![] };
            if let Some(body) = tcx.hir_maybe_body_owned_by(did) {
                use rustc_hir::intravisit::Visitor;
                v.visit_body(body);
            }
            for sp in v.found {
                if !first {
                    out.push_str(",\n");
                }
                first = false;
                let _ = write!(out, "{{\"fn\":{},\"file\":{},\"line\":{}}}", esc(&cx.key(did.to_def_id())), esc(&cx.file(sp)), cx.line(sp));
            }
        }
        out.push_str("],\n\"types\":[");
        let tl: Vec<String> = cx.tylist.iter().map(|s| esc(s)).collect();
        out.push_str(&tl.join(",\n"));
        out.push_str("]}\n");
        let path = format!("{}/{}.json", self.out, cname);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build") || args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let probing = args.iter().any(|a| a.starts_with("--print") || a == "-vV") || !args.iter().any(|a| a == "--crate-name");
    struct Nop;
    impl Callbacks for Nop {}
    if out.is_empty() || is_build_script || probing {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    }
}
