//! Dumps the type-checked program (MIR after drop elaboration, resolved
//! callees, types, ADTs, impls) of every workspace crate as JSON facts.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, Operand, Place, PlaceTy, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        )))
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d).0;
        let (a, b) = h.split();
        format!("{:016x}{:016x}", a.as_u64(), b.as_u64())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        (f, loc.line)
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        self.span(sp).1
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(js(&format!("{c}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let s = js(&self.tystr(t));
        let body = match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_)
            | TyKind::Str | TyKind::Never => r#""k":"prim""#.to_string(),
            TyKind::Adt(d, a) => {
                let p = js(&self.path(d.did()));
                let a = self.args(a);
                format!(r#""k":"adt","p":{p},"a":{a}"#)
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","e":{},"n":{n}"#, self.ty(*e))
            }
            TyKind::Slice(e) => format!(r#""k":"slice","e":{}"#, self.ty(*e)),
            TyKind::RawPtr(e, m) => format!(r#""k":"ptr","m":{},"e":{}"#, m.is_mut(), self.ty(*e)),
            TyKind::Ref(_, e, m) => format!(r#""k":"ref","m":{},"e":{}"#, m.is_mut(), self.ty(*e)),
            TyKind::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let p = js(&self.path(d));
                let a = self.args(a.skip_binder());
                format!(r#""k":"fndef","p":{p},"a":{a}"#)
            }
            TyKind::Closure(d, _) => {
                let d: DefId = (*d).into();
                format!(r#""k":"closure","p":{},"h":{}"#, js(&self.path(d)), js(&self.hash(d)))
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"tuple","a":[{}]"#, v.join(","))
            }
            TyKind::Param(p) => format!(r#""k":"param","n":{}"#, js(p.name.as_str())),
            TyKind::Alias(..) => r#""k":"alias""#.to_string(),
            TyKind::Dynamic(..) => r#""k":"dyn""#.to_string(),
            TyKind::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.ty_json[i] = format!("{{{body},\"s\":{s}}}");
        i
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        let mut first = true;
        for e in p.projection.iter() {
            if !first {
                o.push(',');
            }
            first = false;
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = "null".to_string();
                    let mut ow = "null".to_string();
                    if let TyKind::Adt(ad, _) = pt.ty.kind() {
                        let v = match pt.variant_index {
                            Some(v) => Some(ad.variant(v)),
                            None if !ad.is_enum() => Some(ad.non_enum_variant()),
                            None => None,
                        };
                        if let Some(v) = v {
                            if f.as_usize() < v.fields.len() {
                                nm = js(v.fields[f].name.as_str());
                            }
                        }
                        ow = js(&self.path(ad.did()));
                    } else if let TyKind::Closure(..) = pt.ty.kind() {
                        ow = js("closure");
                    }
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), nm, ow);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { .. } => o.push_str("[\"s\"]"),
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        o,
                        "[\"d\",{},{}]",
                        v.as_usize(),
                        n.map(|n| js(n.as_str())).unwrap_or("null".into())
                    );
                }
                _ => o.push_str("[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"p\":{},\"h\":{},\"a\":{}",
            js(&self.path(d)),
            js(&self.hash(d)),
            self.args(a)
        );
        let unsafe_ = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        if unsafe_ {
            o.push_str(",\"unsafe\":true");
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(t)));
            if a.len() > 0 {
                if let Some(st) = a.types().next() {
                    let _ = write!(o, ",\"self\":{}", self.ty(st));
                    // the element type of an iterator adaptor's source
                    if tcx.is_diagnostic_item(rustc_span::sym::Iterator, t) {
                        let item = tcx
                            .associated_items(t)
                            .in_definition_order()
                            .find(|x| x.is_type())
                            .map(|x| x.def_id);
                        if let Some(item) = item {
                            let n = ty::Unnormalized::new(Ty::new_projection(tcx, ty::IsRigid::No, item, [st]));
                            if let Ok(n) = tcx.try_normalize_erasing_regions(env, n) {
                                let _ = write!(o, ",\"item\":{}", self.ty(n));
                            }
                        }
                    }
                }
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"self\":{}", self.ty(st));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a))
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                let _ = write!(
                    o,
                    ",\"rp\":{},\"rh\":{},\"ra\":{}",
                    js(&self.path(rd)),
                    js(&self.hash(rd)),
                    self.args(inst.args)
                );
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    o.push_str(",\"virt\":true");
                }
            }
        }
        let _ = write!(o, ",\"kr\":{}", js(tcx.crate_name(d.krate).as_str()));
        o.push('}');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, b)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let mut o = format!("[\"k\",{{\"t\":{ti}");
                if let TyKind::FnDef(d, a) = t.kind() {
                    let d: DefId = (*d).into();
                    let cal = self.callee(d, a.skip_binder(), env);
                    let _ = write!(o, ",\"fn\":{cal}");
                } else {
                    if let Const::Unevaluated(u, _) = c.const_ {
                        let _ = write!(o, ",\"def\":{},\"dh\":{}", js(&self.path(u.def)), js(&self.hash(u.def)));
                        let ca = self.args(u.args);
                        let _ = write!(o, ",\"ca\":{ca}");
                        if let Some(p) = self.tcx.opt_parent(u.def) {
                            if let DefKind::Trait = self.tcx.def_kind(p) {
                                let _ = write!(o, ",\"ct\":{}", js(&self.path(p)));
                            }
                        }
                        if let Some(p) = u.promoted {
                            let _ = write!(o, ",\"promoted\":{}", p.as_usize());
                        }
                    }
                    if t.is_integral() || t.is_bool() || t.is_char() {
                        let tcx = self.tcx;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            c.const_.try_eval_bits(tcx, env)
                        }));
                        if let Ok(Some(v)) = r {
                            let _ = write!(o, ",\"v\":\"{v}\"");
                        }
                    } else {
                        let _ = write!(o, ",\"s\":{}", js(&format!("{}", c.const_)));
                    }
                }
                o.push_str("}]");
                o
            }
            Operand::RuntimeChecks(c) => format!("[\"rc\",{}]", js(&format!("{c:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, b, env)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(o, b, env), js(&format!("{n}")))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                js(match k {
                    mir::BorrowKind::Shared => "shared",
                    mir::BorrowKind::Mut { .. } => "mut",
                    _ => "fake",
                }),
                self.place(p, b)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "[\"ref\",{},{}]",
                js(if m.is_mut() { "mut" } else { "shared" }),
                self.place(p, b)
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", js(&format!("{k:?}")), self.place(p, b))
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o, b, env), t)
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{op:?}")),
                self.operand(&ab.0, b, env),
                self.operand(&ab.1, b, env)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(a, b, env))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p, b)),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let fs: Vec<String> =
                            var.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"fs\":[{}],\"union\":{}}}",
                            js(&self.path(*d)),
                            v.as_usize(),
                            js(var.name.as_str()),
                            fs.join(","),
                            af.is_some()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"p\":{},\"h\":{}}}", js(&self.path(*d)), js(&self.hash(*d)))
                    }
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, b, env)).collect();
                format!("[\"agg\",{},[{}]]", kj, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, b)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, b, env)),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::from("{\"argc\":");
        let _ = write!(o, "{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let _ = write!(o, "{t}");
        }
        o.push_str("],\"names\":{");
        let mut seen = std::collections::HashSet::new();
        let mut first = true;
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"upvars\":{");
        first = true;
        let mut seenu = std::collections::HashSet::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if !p.projection.is_empty() && p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            if seenu.insert(f) {
                                if !first {
                                    o.push(',');
                                }
                                first = false;
                                let _ = write!(o, "\"{}\":{}", f.as_usize(), js(v.name.as_str()));
                            }
                            break;
                        }
                    }
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let p = self.place(p, b);
                        let r = self.rvalue(r, b, env);
                        format!("[\"=\",{p},{r},{}]", self.line(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        format!("[\"sd\",{p},{},{}]", variant_index.as_usize(), self.line(st.source_info.span))
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{i:?}"))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bbi = |x: BasicBlock| x.as_usize();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", bbi(*target)),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", bbi(*real_target))
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", bbi(*real_target))
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, b, env);
                    let dt = discr.ty(b, self.tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{v}\",{}]", bbi(t))).collect();
                    format!(
                        "[\"switch\",{d},[{}],{},{dt},{ln}]",
                        v.join(","),
                        bbi(targets.otherwise())
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"unwind\"]".into()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, self.tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place, b);
                    format!("[\"drop\",{p},{},{pt},{ln}]", bbi(*target))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b, env);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(&x.node, b, env)).collect();
                    let d = self.place(destination, b);
                    format!(
                        "[\"call\",{f},[{}],{d},{},{ln}]",
                        a.join(","),
                        target.map(|t| bbi(t).to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env);
                    let (k, ops): (&str, Vec<String>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => (
                            "bounds",
                            vec![self.operand(len, b, env), self.operand(index, b, env)],
                        ),
                        mir::AssertKind::Overflow(_, x, y) => {
                            ("overflow", vec![self.operand(x, b, env), self.operand(y, b, env)])
                        }
                        mir::AssertKind::OverflowNeg(x) => ("overflowneg", vec![self.operand(x, b, env)]),
                        mir::AssertKind::DivisionByZero(x) => ("div0", vec![self.operand(x, b, env)]),
                        mir::AssertKind::RemainderByZero(x) => ("rem0", vec![self.operand(x, b, env)]),
                        _ => ("other", vec![]),
                    };
                    format!(
                        "[\"assert\",{c},{expected},\"{k}\",[{}],{},{ln}]",
                        ops.join(","),
                        bbi(*target)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                _ => "[\"other\"]".into(),
            };
            o.push_str(&ts);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

struct Cb;

fn vis(tcx: TyCtxt<'_>, d: DefId) -> &'static str {
    let v = tcx.visibility(d);
    if v.is_public() {
        "pub"
    } else {
        match v {
            ty::Visibility::Restricted(m) if m.is_crate_root() => "crate",
            _ => "priv",
        }
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let dir = match std::env::var("MIRFACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_json: vec![] };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            fs.push(format!(
                                "{{\"n\":{},\"t\":{t},\"vis\":{}}}",
                                js(f.name.as_str()),
                                js(vis(tcx, f.did))
                            ));
                        }
                        vs.push(format!("{{\"n\":{},\"f\":[{}]}}", js(v.name.as_str()), fs.join(",")));
                    }
                    let (f, l) = cx.span(tcx.def_span(d));
                    adts.push(format!(
                        "{{\"p\":{},\"kind\":{},\"vis\":{},\"reach\":{},\"vs\":[{}],\"dtor\":{},\"file\":{},\"line\":{l}}}",
                        js(&cx.path(d)),
                        js(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" }),
                        js(vis(tcx, d)),
                        ev.is_reachable(ld),
                        vs.join(","),
                        ad.has_dtor(tcx),
                        js(&f)
                    ));
                }
                DefKind::Trait => {
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(n) = it.opt_name() {
                            ms.push(format!("{{\"n\":{},\"def\":{}}}", js(n.as_str()), it.defaultness(tcx).has_value()));
                        }
                    }
                    traits.push(format!(
                        "{{\"p\":{},\"unsafe\":{},\"reach\":{},\"items\":[{}]}}",
                        js(&cx.path(d)),
                        tcx.trait_def(d).safety.is_unsafe(),
                        ev.is_reachable(ld),
                        ms.join(",")
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut o = format!("{{\"self\":{sti},\"of_trait\":{of_trait}");
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let _ = write!(
                            o,
                            ",\"trait\":{},\"ta\":{},\"unsafe\":{}",
                            js(&cx.path(tr.def_id)),
                            cx.args(tr.args),
                            tcx.impl_trait_header(d).safety.is_unsafe()
                        );
                        let neg = tcx.impl_polarity(d) == ty::ImplPolarity::Negative;
                        let _ = write!(o, ",\"neg\":{neg}");
                        let derived = tcx.is_automatically_derived(d);
                        let _ = write!(o, ",\"derived\":{derived}");
                    }
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(n) = it.opt_name() {
                            ms.push(format!("[{},{}]", js(n.as_str()), js(&cx.hash(it.def_id))));
                        }
                    }
                    let (f, l) = cx.span(tcx.def_span(d));
                    let _ = write!(o, ",\"items\":[{}],\"file\":{},\"line\":{l}}}", ms.join(","), js(&f));
                    impls.push(o);
                }
                _ => {}
            }
        }
        for ld in tcx.mir_keys(()) {
            let ld = *ld;
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let kind = match k {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assoc",
                DefKind::Closure => "closure",
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => "const",
                _ => continue,
            };
            let env = TypingEnv::post_analysis(tcx, d);
            let body: &Body<'tcx> = if kind == "const" {
                tcx.mir_for_ctfe(d)
            } else {
                if tcx.is_constructor(d) {
                    continue;
                }
                tcx.optimized_mir(d)
            };
            let bj = cx.body(body, env);
            let mut proms = vec![];
            for pb in tcx.promoted_mir(d).iter() {
                proms.push(cx.body(pb, env));
            }
            let (f, l) = cx.span(tcx.def_span(d));
            let mut o = format!(
                "{{\"p\":{},\"h\":{},\"kind\":\"{kind}\",\"file\":{},\"line\":{l}",
                js(&cx.path(d)),
                js(&cx.hash(d)),
                js(&f)
            );
            if kind == "closure" {
                let par = tcx.typeck_root_def_id(d);
                let _ = write!(o, ",\"root\":{},\"parent\":{}", js(&cx.hash(par)), js(&cx.hash(tcx.parent(d))));
            }
            {
                let root = tcx.typeck_root_def_id(d);
                let mut gp = vec![];
                let mut gs = vec![tcx.generics_of(root)];
                while let Some(p) = gs[0].parent {
                    gs.insert(0, tcx.generics_of(p));
                }
                for g in gs {
                    for p in g.own_params.iter() {
                        match p.kind {
                            ty::GenericParamDefKind::Lifetime => {}
                            _ => gp.push(js(p.name.as_str())),
                        }
                    }
                }
                let mut bs = vec![];
                for c in tcx.param_env(root).caller_bounds() {
                    if let Some(tc) = c.as_trait_clause() {
                        let tr = tc.skip_binder().trait_ref;
                        if let TyKind::Param(p) = tr.self_ty().kind() {
                            bs.push(format!("[{},{}]", js(p.name.as_str()), js(&cx.path(tr.def_id))));
                        }
                    }
                }
                let _ = write!(o, ",\"gp\":[{}],\"gb\":[{}]", gp.join(","), bs.join(","));
            }
            if kind == "fn" || kind == "assoc" {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let _ = write!(
                    o,
                    ",\"vis\":{},\"reach\":{},\"unsafe\":{}",
                    js(vis(tcx, d)),
                    ev.is_reachable(ld),
                    sig.safety().is_unsafe()
                );
                let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                let _ = write!(o, ",\"ins\":[{}],\"out\":{}", ins.join(","), cx.ty(sig.output()));
                
                let n = tcx.item_name(d);
                let _ = write!(o, ",\"name\":{}", js(n.as_str()));
            }
            if kind == "const" && !matches!(k, DefKind::AnonConst) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"creach\":{},\"cty\":{}", ev.is_reachable(ld), cx.ty(t));
            }
            if kind == "assoc" {
                let p = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"self\":{}", cx.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"trait\":{},\"ta\":{}", js(&cx.path(tr.def_id)), cx.args(tr.args));
                        if let Some(ti) = tcx.trait_item_of(d) {
                            let _ = write!(o, ",\"th\":{}", js(&cx.hash(ti)));
                        }
                        let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(p));
                    }
                } else if let DefKind::Trait = tcx.def_kind(p) {
                    let _ = write!(o, ",\"intrait\":{}", js(&cx.path(p)));
                }
            }
            let _ = write!(o, ",\"body\":{bj},\"proms\":[{}]}}", proms.join(","));
            fns.push(o);
        }
        let out = format!(
            "{{\"crate\":{},\n\"tys\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"traits\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
            js(&krate),
            cx.ty_json.join(",\n"),
            adts.join(",\n"),
            traits.join(",\n"),
            impls.join(",\n"),
            fns.join(",\n")
        );
        let crate_types = format!("{:?}", tcx.crate_types());
        let kind = if crate_types.contains("Executable") { "bin" } else { "lib" };
        let fname = format!("{dir}/{krate}.{kind}.json");
        let tmp = format!("{fname}.tmp{}", std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &fname).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
