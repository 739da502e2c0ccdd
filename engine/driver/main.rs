//! MIR exporter: a rustc driver that writes the type-checked MIR of every local
//! function, closure and promoted constant of the crate under analysis as JSON.
//! It never runs the program: it stops after analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: rustc_hir::def_id::DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String { ty::print::with_no_trimmed_paths!(format!("{t}")) }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pty.variant_index { Some(v) => v, None => rustc_abi::FIRST_VARIANT };
                            if adt.is_enum() || adt.is_struct() || adt.is_union() {
                                adt.variant(v).fields[f].name.to_string()
                            } else { f.as_usize().to_string() }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", q(&name))
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() { ty::Adt(adt, _) => adt.variant(v).name.to_string(), _ => v.as_usize().to_string() };
                    format!("[\"dc\",{}]", q(&name))
                }
                ProjectionElem::Index(l) => format!("[\"ix\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                _ => "[\"other\"]".to_string(),
            });
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), list(out))
    }

    fn callee(&self, body_env: TypingEnv<'tcx>, d: rustc_hir::def_id::DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut resolved = "null".to_string();
        let mut rlocal = false;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, body_env, d, args) {
                let rd = i.def_id();
                let virt = matches!(i.def, ty::InstanceKind::Virtual(..));
                if !virt { resolved = q(&self.path(rd)); rlocal = rd.is_local(); }
            }
        }
        let tr = match tcx.opt_associated_item(d) {
            Some(ai) => match ai.container {
                ty::AssocContainer::Trait => q(&self.path(tcx.parent(d))),
                ty::AssocContainer::TraitImpl(Ok(td)) => q(&self.path(tcx.parent(td))),
                _ => "null".into(),
            },
            None => "null".into(),
        };
        let g: Vec<String> = args.iter().map(|a| q(&ty::print::with_no_trimmed_paths!(format!("{a}")))).collect();
        format!("{{\"path\":{},\"name\":{},\"local\":{},\"trait\":{},\"resolved\":{},\"rlocal\":{},\"g\":{}}}",
            q(&self.path(d)), q(tcx.item_name(d).as_str()), d.is_local(), tr, resolved, rlocal, list(g))
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tys = q(&self.ty(t));
        match t.kind() {
            ty::FnDef(d, a) => return format!("{{\"k\":\"fn\",\"fn\":{}}}", self.callee(env, *d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()))),
            ty::Closure(d, _) => return format!("{{\"k\":\"closure\",\"def\":{}}}", q(&self.path(*d))),
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"def\":{},\"i\":{},\"ty\":{}}}", q(&self.path(u.def)), p.as_usize(), tys);
            }
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", q(&s.to_bits_unchecked().to_string()), tys);
                }
            }
            return format!("{{\"k\":\"named\",\"path\":{},\"g\":{},\"ty\":{}}}", q(&self.path(u.def)),
                list(u.args.iter().map(|a| q(&format!("{a}"))).collect()), tys);
        }
        if let Const::Val(v, _) = c.const_ {
            if let Some(s) = v.try_to_scalar_int() {
                let bits = s.to_bits_unchecked();
                let val = if let ty::Int(_) = t.kind() { s.to_int(s.size()).to_string() } else { bits.to_string() };
                return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", q(&val), tys);
            }
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", q(&String::from_utf8_lossy(b)), tys);
                    }
                }
                if let ty::Array(e, n) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                            let (prov, off) = p.into_raw_parts();
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                                return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", q(&String::from_utf8_lossy(b)), tys);
                            }
                        }
                    }
                }
            }
            if matches!(v, ConstValue::ZeroSized) { return format!("{{\"k\":\"zst\",\"ty\":{}}}", tys); }
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let Some(n) = ct.try_to_target_usize(tcx) { return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", q(&n.to_string()), tys); }
        }
        format!("{{\"k\":\"opaque\",\"v\":{},\"ty\":{}}}", q(&ty::print::with_no_trimmed_paths!(format!("{}", c.const_))), tys)
    }

    fn op(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.konst(env, c)),
            _ => "[\"c\",{\"k\":\"int\",\"v\":\"0\",\"ty\":\"bool\"}]".into(), // RuntimeChecks: off in release
        }
    }

    fn rv(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(env, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("?".into());
                format!("[\"repeat\",{},{}]", self.op(env, body, o), q(&n))
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", if matches!(bk, BorrowKind::Mut { .. }) { "true" } else { "false" }, self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{},{}]", q(&format!("{k:?}")), self.op(env, body, o), q(&self.ty(*t)), q(&self.ty(o.ty(&body.local_decls, tcx)))),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{},{}]", q(&format!("{b:?}")), self.op(env, body, &ops.0), self.op(env, body, &ops.1), q(&self.ty(ops.0.ty(&body.local_decls, tcx)))),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{u:?}")), self.op(env, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) { vs.push(format!("[{},{}]", q(&d.val.to_string()), q(adt.variant(vi).name.as_str()))); }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, p), list(vs), q(&self.ty(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.op(env, body, x)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"arr\",{}]", list(o)),
                    AggregateKind::Tuple => format!("[\"tup\",{}]", list(o)),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let f: Vec<String> = var.fields.iter().map(|f| q(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{},{},{}]", q(&self.path(*d)), q(var.name.as_str()), adt.is_enum(), list(f), list(o))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"clo\",{},{}]", q(&self.path(*d)), list(o)),
                    _ => format!("[\"tup\",{}]", list(o)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            other => format!("[\"other\",{}]", q(&format!("{other:?}"))),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("[{},{}]", q(&f), lo.line)
    }

    fn body(&self, key: &str, kind: &str, def: rustc_hir::def_id::DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut s = String::new();
        let _ = write!(s, "{{\"key\":{},\"kind\":{},\"argc\":{},\"span\":{},", q(key), q(kind), body.arg_count, self.span(body.span));
        let parent_trait = {
            let root = tcx.typeck_root_def_id(def);
            match tcx.opt_associated_item(root) {
                Some(ai) => match ai.container {
                    ty::AssocContainer::TraitImpl(Ok(td)) => format!("{},\"trait_item\":{}", q(&self.path(tcx.parent(td))), q(&self.path(td))),
                    ty::AssocContainer::Trait => format!("{},\"trait_item\":{}", q(&self.path(tcx.parent(root))), q(&self.path(root))),
                    _ => "null".into(),
                },
                None => "null".into(),
            }
        };
        let self_ty = {
            let root = tcx.typeck_root_def_id(def);
            match tcx.impl_of_assoc(root) { Some(i) => q(&self.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())), None => "null".into() }
        };
        let vis = { let root = tcx.typeck_root_def_id(def); if matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(root).is_public() } else { false } };
        let derived = tcx.is_automatically_derived(match tcx.impl_of_assoc(tcx.typeck_root_def_id(def)) { Some(i) => i, None => def });
        let _ = write!(s, "\"trait\":{},\"self_ty\":{},\"pub\":{},\"derived\":{},", parent_trait, self_ty, vis, derived);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() && v.composite.is_none() { names[p.local.as_usize()] = Some(v.name.to_string()); } }
        }
        let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(i, d)| format!("[{},{}]", q(&self.ty(d.ty)), names[i.as_usize()].as_ref().map(|n| q(n)).unwrap_or("null".into()))).collect();
        let _ = write!(s, "\"locals\":{},\"blocks\":[", list(locals));
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { s.push(','); }
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(format!("[\"=\",{},{}]", self.place(body, &a.0), self.rv(env, body, &a.1))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_usize())),
                    _ => {}
                }
            }
            let term = b.terminator();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", q(&v.to_string()), t.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.op(env, body, discr), list(v), targets.otherwise().as_usize(), q(&self.ty(discr.ty(&body.local_decls, tcx))))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(env, body, &x.node)).collect();
                    format!("[\"call\",{},{},{},{},{}]", self.op(env, body, func), list(a), self.place(body, destination), target.map(|t| t.as_usize() as i64).unwrap_or(-1), self.span(*fn_span))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}"); let m: String = m.chars().take_while(|c| c.is_alphanumeric()).collect();
                    format!("[\"assert\",{},{},{},{}]", self.op(env, body, cond), expected, q(&m), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"unwind\"]".into(),
            };
            let dr = match &term.kind { TerminatorKind::Drop { place, .. } => self.place(body, place), _ => "null".into() };
            let _ = write!(s, "{{\"c\":{},\"s\":{},\"t\":{},\"sp\":{},\"d\":{}}}", b.is_cleanup, list(st), t, self.span(term.source_info.span), dr);
        }
        s.push_str("]}");
        s
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut out = String::from("{\"bodies\":[\n");
        let mut first = true;
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            let kind = match tcx.def_kind(def) { DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Closure => "closure", _ => continue };
            let body = tcx.optimized_mir(def);
            let key = cx.path(def);
            if !first { out.push_str(",\n"); } first = false;
            out.push_str(&cx.body(&key, kind, def, body));
            for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                out.push_str(",\n");
                out.push_str(&cx.body(&format!("{key}::promoted[{}]", i.as_usize()), "promoted", def, p));
            }
        }
        out.push_str("\n],\"adts\":[\n");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let adt = tcx.adt_def(d);
                let vs: Vec<String> = adt.variants().iter().map(|v| format!("[{},{}]", q(v.name.as_str()), list(v.fields.iter().map(|f| {
                    format!("[{},{},{}]", q(f.name.as_str()), q(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), tcx.visibility(f.did).is_public())
                }).collect()))).collect();
                if !first { out.push_str(",\n"); } first = false;
                let _ = write!(out, "{{\"path\":{},\"enum\":{},\"variants\":{}}}", q(&cx.path(d)), adt.is_enum(), list(vs));
            }
        }
        out.push_str("\n]}\n");
        std::fs::write(&self.out, out).expect("write MIR dump");
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    // Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let krate = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let out = std::env::var("ZKSA_OUT").unwrap_or_default();
    if krate == "zk_sql" && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct N; impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
