// planus-sa fact extractor: a rustc driver that, after type checking a crate, writes the resolved
// program (MIR with resolved callees, ADTs, impls, evaluated constants) to $SA_OUT/<crate>.json.
// It decides nothing itself; the rules in /verif/sa/*.py read these facts.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_defs: Vec<String>,
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() {
            let c = self.tcx.crate_name(LOCAL_CRATE);
            // impl items print without the crate prefix in front of `<`
            if p.starts_with('<') {
                p
            } else {
                format!("{c}::{p}")
            }
        } else {
            p
        }
    }
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                GenericArgKind::Const(c) => Some(self.tyconst(c)),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        list(v)
    }

    // ["n", value] or ["p", name]
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            format!("[\"n\",{v}]")
        } else {
            format!("[\"p\",{}]", esc(&format!("{c}")))
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let idx = self.type_defs.len();
        self.types.insert(t, idx);
        self.type_defs.push(String::new());
        let s = match *t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(i) => format!("[\"int\",\"{}\"]", i.name_str()),
            ty::Uint(i) => format!("[\"int\",\"{}\"]", i.name_str()),
            ty::Float(i) => format!("[\"float\",\"{}\"]", i.name_str()),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(def, args) => {
                let p = esc(&self.path(def.did()));
                let a = self.args(args);
                format!("[\"adt\",{p},{a}]")
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = self.tyconst(n);
                format!("[\"array\",{e},{n}]")
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                format!("[\"slice\",{e}]")
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("[\"ref\",{e},{}]", m.is_mut())
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("[\"ptr\",{e},{}]", m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"tuple\",{}]", list(v))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::Closure(d, args) => {
                let id = esc(&self.id(d));
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!("[\"closure\",{id},{}]", list(ups))
            }
            ty::FnDef(d, args) => {
                let id = esc(&self.id(d));
                let p = esc(&self.path(d));
                let a = self.args(args.skip_binder());
                format!("[\"fndef\",{p},{id},{a}]")
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", esc(&p))
            }
            ty::Alias(_, ref al) if matches!(al.kind, ty::AliasTyKind::Projection { .. }) => {
                let d = match al.kind { ty::AliasTyKind::Projection { def_id } => def_id, _ => unreachable!() };
                let p = esc(&self.path(d));
                let a = self.args(al.args);
                format!("[\"proj\",{p},{a}]")
            }
            _ => format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(format!("{t}")))),
        };
        self.type_defs[idx] = s;
        idx
    }

    fn generic_names(&self, d: DefId) -> Vec<String> {
        let g = self.tcx.generics_of(d);
        let mut v = Vec::new();
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                v.push(esc(p.name.as_str()));
            }
        }
        v
    }

    fn span(&self, s: Span) -> String {
        let root = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let mac = {
            let mut names = Vec::new();
            let mut sp = s;
            let mut n = 0;
            while sp.from_expansion() && n < 12 {
                let d = sp.ctxt().outer_expn_data();
                if let ExpnKind::Macro(_, name) = d.kind {
                    names.push(esc(name.as_str()));
                } else {
                    names.push("\"~\"".into());
                }
                sp = d.call_site;
                n += 1;
            }
            list(names)
        };
        format!("[{},{},{mac}]", esc(&file), loc.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{t}]", f.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"o\"]".into(),
            });
        }
        list(v)
    }

    fn scalar_int(&mut self, si: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let bits = si.to_bits(si.size());
        match t.kind() {
            ty::Int(_) => {
                let n = si.size().bits();
                let v = if n == 128 {
                    bits as i128
                } else {
                    let sh = 128 - n;
                    ((bits << sh) as i128) >> sh
                };
                format!("{v}")
            }
            _ => format!("{bits}"),
        }
    }

    fn bytes_json(&self, b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => format!("[\"str\",{}]", esc(s)),
            Err(_) => format!("[\"bytes\",{}]", list(b.iter().map(|x| x.to_string()))),
        }
    }

    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>) -> String {
        match cv {
            ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => {
                let s = self.scalar_int(si, t);
                match t.kind() {
                    ty::Float(_) => format!("[\"fbits\",{s}]"),
                    ty::Bool => format!("[\"bool\",{}]", s == "1"),
                    _ => format!("[\"int\",{s}]"),
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() && off.bytes() == 0 && a.len() < 4096 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            format!("[\"mem\",{}]", list(b.iter().map(|x| x.to_string())))
                        } else {
                            "[\"ptr\"]".into()
                        }
                    }
                    Some(GlobalAlloc::Static(d)) => format!("[\"static\",{}]", esc(&self.path(d))),
                    Some(GlobalAlloc::Function { instance }) => {
                        format!("[\"fnptr\",{}]", esc(&self.id(instance.def_id())))
                    }
                    _ => "[\"ptr\"]".into(),
                }
            }
            ConstValue::ZeroSized => "[\"zst\"]".into(),
            ConstValue::Slice { .. } => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    self.bytes_json(b)
                } else {
                    "[\"slice\"]".into()
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = a.inner();
                    if a.provenance().ptrs().is_empty() && a.len() < 4096 {
                        let o = offset.bytes() as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..a.len());
                        return format!("[\"mem\",{}]", list(b.iter().map(|x| x.to_string())));
                    }
                }
                "[\"indirect\"]".into()
            }
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"t\":{ti},\"promoted\":{}}}", p.as_usize());
            }
            let a = self.args(u.args);
            let _ = write!(
                extra,
                ",\"def\":{},\"did\":{},\"a\":{a}",
                esc(&self.path(u.def)),
                esc(&self.id(u.def))
            );
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, te, u.def, u.args) {
                let _ = write!(extra, ",\"rid\":{}", esc(&self.id(inst.def_id())));
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            let v = self.tyconst(*ct);
            let _ = write!(extra, ",\"tc\":{v}");
        }
        let v = match c {
            mir::Const::Val(cv, _) => Some(*cv),
            mir::Const::Unevaluated(u, _) => {
                self.tcx.const_eval_resolve(te, *u, rustc_span::DUMMY_SP).ok()
            }
            mir::Const::Ty(_, _) => c.eval(self.tcx, te, rustc_span::DUMMY_SP).ok(),
        };
        let vs = match v {
            Some(cv) => format!(",\"v\":{}", self.constval(cv, t)),
            None => String::new(),
        };
        format!("{{\"t\":{ti}{extra}{vs}}}")
    }

    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, te)),
            _ => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, te)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, te);
                let n = self.tyconst(*n);
                format!("[\"repeat\",{o},{n}]")
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, te);
                let t = self.ty(*t);
                format!("[\"cast\",{},{o},{t}]", esc(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(&b.0, te);
                let c = self.operand(&b.1, te);
                format!("[\"bin\",\"{op:?}\",{a},{c}]")
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a, te);
                format!("[\"un\",\"{op:?}\",{a}]")
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, te)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        let a = self.args(a);
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*vi).name.to_string();
                        let fs = match af {
                            Some(f) => f.as_usize() as i64,
                            None => -1,
                        };
                        format!(
                            "[\"adt\",{},{},{},{a},{fs}]",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            esc(&vn)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.id(*d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{ks},{}]", list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn callee(&mut self, func: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        let Operand::Constant(c) = func else {
            return format!("{{\"ptr\":{}}}", self.operand(func, te));
        };
        let t = c.const_.ty();
        let ty::FnDef(d, args) = *t.kind() else {
            return format!("{{\"ptr\":{}}}", self.operand(func, te));
        };
        let args = args.skip_binder();
        let tcx = self.tcx;
        let mut s = String::new();
        let a = self.args(args);
        let _ = write!(
            s,
            "{{\"f\":{},\"id\":{},\"a\":{a}",
            esc(&self.path(d)),
            esc(&self.id(d))
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", esc(&self.path(tr)));
        }
        let rargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, rargs) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            let ra = self.args(inst.args);
            let _ = write!(
                s,
                ",\"r\":{},\"rid\":{},\"rk\":\"{kind}\",\"ra\":{ra}",
                esc(&self.path(rd)),
                esc(&self.id(rd))
            );
        }
        let sig_unsafe = {
            let sig = tcx.fn_sig(d).skip_binder();
            !sig.safety().is_safe()
        };
        if sig_unsafe {
            s.push_str(",\"unsafe\":true");
        }
        s.push('}');
        s
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, "{{\"argc\":{},\"locals\":{}", b.arg_count, list(locals));
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                names.push(format!("[{},{p}]", esc(v.name.as_str())));
            }
        }
        let _ = write!(s, ",\"vars\":{}", list(names));
        if let Some(sp) = b.spread_arg {
            let _ = write!(s, ",\"spread\":{}", sp.as_usize());
        }
        let mut blocks = Vec::new();
        for data in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &data.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, te);
                        let line = self.line(x.source_info.span);
                        st.push(format!("[\"=\",{p},{r},{line}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"setd\",{p},{}]", variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o, te);
                            st.push(format!("[\"assume\",{o}]"));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, te);
                            let d = self.operand(&c.dst, te);
                            let n = self.operand(&c.count, te);
                            st.push(format!("[\"copy\",{a},{d},{n}]"));
                        }
                    },
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let o = self.operand(discr, te);
                    let mut v = Vec::new();
                    for (val, bb) in targets.iter() {
                        let val = match dt.kind() {
                            ty::Int(_) => {
                                let bits = match dt.primitive_size(self.tcx).bits() {
                                    128 => 128,
                                    n => n,
                                };
                                let sh = 128 - bits;
                                (((val << sh) as i128) >> sh).to_string()
                            }
                            _ => val.to_string(),
                        };
                        v.push(format!("[{val},{}]", bb.as_usize()));
                    }
                    let dti = self.ty(dt);
                    format!(
                        "[\"switch\",{o},{},{},{dti},{sp}]",
                        list(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place);
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    format!(
                        "[\"drop\",{p},{},{},{pt}]",
                        target.as_usize(),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.callee(func, te);
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node, te)).collect();
                    let d = self.place(destination);
                    let t = match target {
                        Some(t) => t.as_usize().to_string(),
                        None => "null".into(),
                    };
                    format!("[\"call\",{f},{},{d},{t},{},{sp}]", list(v), Self::unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, te);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, te);
                            let i = self.operand(index, te);
                            format!("[\"bounds\",{l},{i}]")
                        }
                        AssertKind::Overflow(op, x, y) => {
                            let x = self.operand(x, te);
                            let y = self.operand(y, te);
                            format!("[\"overflow\",\"{op:?}\",{x},{y}]")
                        }
                        AssertKind::OverflowNeg(x) => {
                            let x = self.operand(x, te);
                            format!("[\"overflowneg\",{x}]")
                        }
                        AssertKind::DivisionByZero(x) => {
                            let x = self.operand(x, te);
                            format!("[\"div0\",{x}]")
                        }
                        AssertKind::RemainderByZero(x) => {
                            let x = self.operand(x, te);
                            format!("[\"rem0\",{x}]")
                        }
                        o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
                    };
                    format!(
                        "[\"assert\",{c},{expected},{m},{},{},{sp}]",
                        target.as_usize(),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(format!("[{},{t},{}]", list(st), data.is_cleanup));
        }
        let _ = write!(s, ",\"blocks\":{}}}", list(blocks));
        s
    }

    fn line(&self, s: Span) -> usize {
        let root = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(root.lo()).line
    }

    fn dump(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let te = TypingEnv::post_analysis(tcx, d);
            let (kname, body): (&str, &Body<'tcx>) = match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    ("fn", tcx.optimized_mir(d))
                }
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    ("const", tcx.mir_for_ctfe(d))
                }
                DefKind::AnonConst => ("anon", tcx.mir_for_ctfe(d)),
                _ => continue,
            };
            let te2 = if kname == "closure" {
                TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d))
            } else {
                te
            };
            let mut s = String::new();
            let _ = write!(
                s,
                "{{\"id\":{},\"path\":{},\"kind\":\"{kname}\",\"span\":{}",
                esc(&self.id(d)),
                esc(&self.path(d)),
                self.span(tcx.def_span(d))
            );
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(s, ",\"name\":{}", esc(n.as_str()));
            }
            if kname == "closure" {
                let _ = write!(s, ",\"root\":{}", esc(&self.id(tcx.typeck_root_def_id(d))));
            }
            if kname == "fn" {
                let sig = tcx.fn_sig(d).skip_binder();
                if !sig.safety().is_safe() {
                    s.push_str(",\"unsafe\":true");
                }
                let vis = tcx.visibility(d);
                let _ = write!(s, ",\"pub\":{}", vis.is_public());
                let ev = tcx.effective_visibilities(()).is_exported(k);
                let _ = write!(s, ",\"exported\":{ev}");
            }
            if let Some(p) = tcx.opt_parent(d) {
                let _ = write!(s, ",\"parent\":{}", esc(&self.id(p)));
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).skip_binder();
                    let st = self.ty(st);
                    let _ = write!(s, ",\"impl_self\":{st}");
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        let tr = tr.skip_binder();
                        let a = self.args(tr.args);
                        let _ = write!(
                            s,
                            ",\"impl_trait\":{},\"impl_args\":{a}",
                            esc(&self.path(tr.def_id))
                        );
                        if let Some(ti) = tcx.trait_item_of(d) {
                            let _ = write!(s, ",\"trait_item\":{}", esc(&self.id(ti)));
                        }
                    }
                } else if matches!(tcx.def_kind(p), DefKind::Trait { .. }) {
                    let _ = write!(s, ",\"in_trait\":{}", esc(&self.path(p)));
                }
            }
            // generics names in order (own + parent), types/consts only
            let _ = write!(s, ",\"generics\":{}", list(self.generic_names(d)));
            // evaluated value, when the constant does not depend on parameters
            if kname == "const" && matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                if let Ok(cv) = tcx.const_eval_poly(d) {
                    let t = tcx.type_of(d).skip_binder();
                    let v = self.constval(cv, t);
                    let _ = write!(s, ",\"value\":{v}");
                }
            }
            let b = self.body(body, te2);
            let _ = write!(s, ",\"body\":{b}");
            if kname == "fn" || kname == "closure" || kname == "const" || kname == "anon" {
                let proms = tcx.promoted_mir(d);
                let v: Vec<String> = proms.iter().map(|p| self.body(p, te2)).collect();
                let _ = write!(s, ",\"promoted\":{}", list(v));
            }
            s.push('}');
            fns.push(s);
        }
        // ADTs, impls, traits
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut traits = Vec::new();
        let mut uses = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = Vec::new();
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(tcx)
                            .map(|(_, x)| {
                                match x.ty.kind() {
                                    ty::Int(_) => {
                                        let bits = x.ty.primitive_size(tcx).bits();
                                        let sh = 128 - bits;
                                        ((((x.val) << sh) as i128) >> sh).to_string()
                                    }
                                    _ => x.val.to_string(),
                                }
                            })
                            .collect()
                    } else {
                        vec!["0".into()]
                    };
                    for (i, v) in def.variants().iter().enumerate() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).skip_binder();
                                let t = self.ty(t);
                                let vis = tcx.visibility(f.did).is_public();
                                format!("[{},{t},{vis}]", esc(f.name.as_str()))
                            })
                            .collect();
                        let dv = discrs.get(i).cloned().unwrap_or("0".into());
                        vs.push(format!("{{\"name\":{},\"discr\":{dv},\"fields\":{}}}", esc(v.name.as_str()), list(fs)));
                    }
                    let ck = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                    adts.push(format!(
                        "{{\"id\":{},\"path\":{},\"kind\":\"{ck}\",\"generics\":{},\"variants\":{},\"repr\":{},\"span\":{}}}",
                        esc(&self.id(d)),
                        esc(&self.path(d)),
                        list(self.generic_names(d)),
                        list(vs),
                        esc(&format!("{:?}", def.repr())),
                        self.span(tcx.def_span(d)),
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).skip_binder();
                    let st = self.ty(st);
                    let mut s = format!("{{\"id\":{},\"self\":{st}", esc(&self.id(d)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.skip_binder();
                        let a = self.args(tr.args);
                        let _ = write!(s, ",\"trait\":{},\"args\":{a}", esc(&self.path(tr.def_id)));
                        let un = tcx.impl_trait_header(d).safety.is_unsafe();
                        let _ = write!(s, ",\"unsafe\":{un}");
                    }
                    let mut items = Vec::new();
                    for it in tcx.associated_items(d).in_definition_order() {
                        let k = tcx.def_kind(it.def_id);
                        let mut e = format!(
                            "{{\"name\":{},\"id\":{},\"kind\":{}",
                            esc(it.name().as_str()),
                            esc(&self.id(it.def_id)),
                            esc(&format!("{k:?}"))
                        );
                        if matches!(k, DefKind::AssocTy) {
                            let t = tcx.type_of(it.def_id).skip_binder();
                            let t = self.ty(t);
                            let _ = write!(e, ",\"ty\":{t}");
                        }
                        e.push('}');
                        items.push(e);
                    }
                    let _ = write!(s, ",\"items\":{},\"span\":{}}}", list(items), self.span(tcx.def_span(d)));
                    impls.push(s);
                }
                DefKind::Trait { .. } => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|it| {
                            format!(
                                "{{\"name\":{},\"id\":{},\"default\":{}}}",
                                esc(it.name().as_str()),
                                esc(&self.id(it.def_id)),
                                it.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!(
                        "{{\"id\":{},\"path\":{},\"items\":{}}}",
                        esc(&self.id(d)),
                        esc(&self.path(d)),
                        list(items)
                    ));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    // signatures (for API surface rules)
                    if tcx.is_mir_available(d) || true {
                        let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                        let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                        let out = self.ty(sig.output());
                        uses.push(format!("{{\"id\":{},\"in\":{},\"out\":{out},\"str\":{}}}", esc(&self.id(d)), list(ins),
                          esc(&with_no_trimmed_paths!(format!("{:?}", tcx.fn_sig(d).skip_binder())))));
                    }
                }
                _ => {}
            }
        }
        format!(
            "{{\"crate\":{},\n\"fns\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"traits\":[\n{}\n],\n\"sigs\":[\n{}\n],\n\"types\":[\n{}\n]}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            fns.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            uses.join(",\n"),
            self.type_defs.join(",\n")
        )
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let mut name = tcx.crate_name(LOCAL_CRATE).to_string();
            if tcx.crate_types().contains(&rustc_structures::CrateType::Executable) {
                name.push_str("-bin");
            }
            if !name.starts_with("build_script_build") && name != "build_script_build" {
                let mut cx = Cx { tcx, types: HashMap::new(), type_defs: Vec::new() };
                let s = cx.dump();
                let tmp = format!("{out}/.{name}.{}", std::process::id());
                std::fs::write(&tmp, s).expect("write facts");
                std::fs::rename(&tmp, format!("{out}/{name}.json")).expect("rename facts");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let out = if probing { None } else { std::env::var("SA_OUT").ok() };
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
