//! MIR exporter: a rustc wrapper that type-checks a crate of /repo and writes the
//! compiler's own intermediate representation (MIR, types, resolved callees) as JSON.
//! It runs nothing from the analysed crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::intravisit;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => write!(o, "{}", i).unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(o, "\\u{:04x}", u).unwrap();
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tylist: Vec<J>,
    adts: HashMap<DefId, ()>,
    adtq: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
        )
    }
    // stable id, unique per definition
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adtq.push(d);
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter()
            .filter_map(|g| g.as_type())
            .map(|t| n(self.ty(t) as u64))
            .collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let idx = self.tylist.len();
        self.tys.insert(t, idx);
        self.tylist.push(J::Null);
        let j = self.ty_inner(t);
        self.tylist[idx] = j;
        idx
    }
    fn ty_inner(&mut self, t: Ty<'tcx>) -> J {
        let k = |k: &str, mut v: Vec<(&'static str, J)>| {
            v.insert(0, ("k", s(k)));
            J::O(v)
        };
        let str_ = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        match t.kind() {
            ty::Bool => k("bool", vec![]),
            ty::Char => k("char", vec![]),
            ty::Str => k("str", vec![]),
            ty::Never => k("never", vec![]),
            ty::Int(_) => k("int", vec![("n", s(str_))]),
            ty::Uint(_) => k("uint", vec![("n", s(str_))]),
            ty::Float(_) => k("float", vec![("n", s(str_))]),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let a = self.args(a);
                k("adt", vec![("path", s(self.path(d.did()))), ("id", s(self.id(d.did()))), ("args", a)])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                k("ref", vec![("mut", J::B(m.is_mut())), ("t", n(i as u64))])
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                k("ptr", vec![("mut", J::B(m.is_mut())), ("t", n(i as u64))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| n(self.ty(x) as u64)).collect();
                k("tuple", vec![("ts", J::A(v))])
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                k("slice", vec![("t", n(i as u64))])
            }
            ty::Array(x, c) => {
                let i = self.ty(*x);
                let l = c.try_to_target_usize(self.tcx);
                k("array", vec![("t", n(i as u64)), ("len", l.map(|l| n(l)).unwrap_or(J::Null))])
            }
            ty::Closure(d, a) => {
                let up = a.as_closure().upvar_tys().iter().map(|x| n(self.ty(x) as u64)).collect();
                k("closure", vec![("id", s(self.id(*d))), ("up", J::A(up))])
            }
            ty::FnDef(d, a) => {
                let a2 = self.args(a.skip_binder());
                k("fndef", vec![("path", s(self.path(*d))), ("id", s(self.id(*d))), ("args", a2), ("local", J::B(d.is_local()))])
            }
            ty::FnPtr(..) => k("fnptr", vec![("s", s(str_))]),
            ty::Dynamic(p, ..) => {
                let pr = p.principal_def_id().map(|d| s(self.path(d))).unwrap_or(J::Null);
                k("dyn", vec![("trait", pr), ("s", s(str_))])
            }
            ty::Param(p) => k("param", vec![("name", s(p.name.to_string())), ("i", n(p.index))]),
            _ => k("other", vec![("s", s(str_))]),
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    J::A(vec![s("f"), n(f.as_u32()), n(self.ty(t) as u64)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset),
                    n(min_length),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_u32())]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![n(p.local.as_u32()), J::A(pr)])
    }
    fn konst(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = n(self.ty(t) as u64);
        if let ty::FnDef(d, a) = t.kind() {
            return self.fnref(env, *d, a.skip_binder(), ti);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![
                    ("c", s("promoted")),
                    ("id", s(self.id(u.def))),
                    ("i", n(p.as_u32())),
                    ("ty", ti),
                ]);
            }
        }
        let name = match c.const_ {
            mir::Const::Unevaluated(u, _) => s(self.path(u.def)),
            _ => J::Null,
        };
        let _ = body;
        let v = c.const_.eval(tcx, env, c.span);
        let mut r = vec![("c", s("opaque")), ("ty", ti), ("name", name)];
        if let Ok(v) = v {
            self.constval(v, t, &mut r);
        }
        if let (J::S(k), mir::Const::Unevaluated(u, _)) = (&r[0].1, c.const_) {
            if k == "opaque" && u.def.is_local() {
                r[0].1 = s("constitem");
                r.push(("id", s(self.id(u.def))));
            }
        }
        J::O(r)
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, r: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                r[0].1 = s("zst");
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Int(_) => {
                        r[0].1 = s("int");
                        r.push(("v", J::N(size.sign_extend(bits))));
                    }
                    ty::Float(_) => {
                        r[0].1 = s("float");
                        r.push(("bits", s(bits.to_string())));
                    }
                    ty::Bool => {
                        r[0].1 = s("bool");
                        r.push(("v", J::B(bits != 0)));
                    }
                    ty::Char => {
                        r[0].1 = s("char");
                        r.push(("v", n(bits as i128)));
                    }
                    ty::Uint(_) => {
                        r[0].1 = s("int");
                        if let Ok(b) = i128::try_from(bits) {
                            r.push(("v", J::N(b)));
                        } else {
                            r[0].1 = s("opaque");
                        }
                    }
                    ty::Adt(..) => {
                        r[0].1 = s("adtbits");
                        r.push(("v", s(bits.to_string())));
                    }
                    _ => {}
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let inner = t.builtin_deref(true);
                    match inner.map(|x| *x.kind()) {
                        Some(ty::Str) => {
                            r[0].1 = s("str");
                            r.push(("v", s(String::from_utf8_lossy(b).into_owned())));
                        }
                        _ => {
                            r[0].1 = s("bytes");
                            r.push(("v", J::A(b.iter().map(|x| n(*x)).collect())));
                        }
                    }
                }
            }
            _ => {
                // `&[u8; N]` constants (format templates, byte strings)
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    if let Some(inner) = t.builtin_deref(true) {
                        if let ty::Array(e, l) = inner.kind() {
                            if *e == tcx.types.u8 {
                                if let (Some(l), rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                                    (l.try_to_target_usize(tcx), tcx.global_alloc(p.provenance.alloc_id()))
                                {
                                    let off = p.into_raw_parts().1.bytes() as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + l as usize);
                                    r[0].1 = s("bytes");
                                    r.push(("v", J::A(b.iter().map(|x| n(*x)).collect())));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn fnref(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>, ti: J) -> J {
        let tcx = self.tcx;
        let mut r = vec![
            ("c", s("fn")),
            ("ty", ti),
            ("path", s(self.path(d))),
            ("id", s(self.id(d))),
            ("local", J::B(d.is_local())),
        ];
        let aj = self.args(a);
        r.push(("args", aj));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            r.push(("trait", s(self.path(tr))));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            r.push(("unsafe", J::B(true)));
        }
        let a2 = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a2) {
            let kind = format!("{:?}", i.def);
            let kind = kind.split('(').next().unwrap().to_string();
            let ra = self.args(i.args);
            r.push((
                "res",
                J::O(vec![
                    ("kind", s(kind)),
                    ("path", s(self.path(i.def_id()))),
                    ("id", s(self.id(i.def_id()))),
                    ("local", J::B(i.def_id().is_local())),
                    ("args", ra),
                ]),
            ));
        }
        J::O(r)
    }
    fn op(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(body, env, c)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rv(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(body, env, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.op(body, env, o), l.map(|l| n(l)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                }),
                self.place(p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(format!("{:?}", k).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()),
                    self.op(body, env, o),
                    n(self.ty(from) as u64),
                    n(self.ty(*t) as u64),
                    s(format!("{:?}", k)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", b)),
                    self.op(body, env, &ops.0),
                    self.op(body, env, &ops.1),
                    n(self.ty(t) as u64),
                ])
            }
            Rvalue::UnaryOp(b, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                J::A(vec![s("un"), s(format!("{:?}", b)), self.op(body, env, o), n(self.ty(t) as u64)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::A(vec![s("discr"), self.place(p), n(self.ty(t) as u64)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|o| self.op(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t) as u64)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        self.adt(*d);
                        let a = self.args(a);
                        J::A(vec![s("adt"), s(self.id(*d)), n(v.as_u32()), a])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        n(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as u64)
    }
    fn uw(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_u32()),
            _ => J::Null,
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>, promoted: Option<u32>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::A(vec![s("="), self.place(p), self.rv(body, env, r), self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place), n(variant_index.as_u32())]));
                    }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intr"), s(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vals = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_u32())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.op(body, env, discr),
                        n(self.ty(dt) as u64),
                        J::A(vals),
                        n(targets.otherwise().as_u32()),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, unwind, .. } => J::A(vec![
                    s("drop"),
                    self.place(place),
                    n(target.as_u32()),
                    Self::uw(unwind),
                ]),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a = args.iter().map(|x| self.op(body, env, &x.node)).collect();
                    let at = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            n(self.ty(t) as u64)
                        })
                        .collect();
                    let rt = destination.ty(&body.local_decls, tcx).ty;
                    let mac = {
                        let e = t.source_info.span.ctxt().outer_expn_data();
                        match e.kind {
                            rustc_span::ExpnKind::Macro(_, name) => s(name.to_string()),
                            rustc_span::ExpnKind::Desugaring(d) => s(format!("desugar:{:?}", d)),
                            _ => J::Null,
                        }
                    };
                    J::A(vec![
                        s("call"),
                        self.op(body, env, func),
                        J::A(a),
                        self.place(destination),
                        target.map(|b| n(b.as_u32())).unwrap_or(J::Null),
                        Self::uw(unwind),
                        J::A(at),
                        n(self.ty(rt) as u64),
                        mac,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.op(body, env, len), self.op(body, env, index)]),
                        AssertKind::Overflow(b, x, y) => {
                            let k = match b {
                                BinOp::Add => "overflow-add",
                                BinOp::Sub => "overflow-sub",
                                BinOp::Mul => "overflow-mul",
                                BinOp::Shl => "overflow-shl",
                                BinOp::Shr => "overflow-shr",
                                _ => "overflow-div",
                            };
                            (k, vec![self.op(body, env, x), self.op(body, env, y)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow-neg", vec![self.op(body, env, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero", vec![self.op(body, env, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero", vec![self.op(body, env, x)]),
                        _ => ("other", vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        self.op(body, env, cond),
                        J::B(*expected),
                        s(k),
                        J::A(ops),
                        n(target.as_u32()),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_u32())])
                }
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", ln),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let locals = body.local_decls.iter().map(|l| n(self.ty(l.ty) as u64)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
            }
        }
        let kind = format!("{:?}", tcx.def_kind(owner));
        let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
        let file = {
            let sp = body.span.source_callsite();
            let f = tcx.sess.source_map().lookup_char_pos(sp.lo());
            f.file.name.prefer_local_unconditionally().to_string()
        };
        let mut out = vec![
            ("id", s(self.id(owner))),
            ("path", s(self.path(owner))),
            ("kind", s(kind)),
            ("args", n(body.arg_count as u64)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("file", s(file)),
            ("line", self.line(body.span)),
            ("expn", J::B(body.span.from_expansion())),
        ];
        if let Some(sp) = body.spread_arg {
            out.push(("spread", n(sp.as_u32())));
        }
        if let Some(p) = promoted {
            out.push(("promoted", n(p)));
        }
        if matches!(tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn) {
            out.push(("pub", J::B(tcx.visibility(owner).is_public())));
            out.push(("unsafe", J::B(tcx.fn_sig(owner).skip_binder().safety().is_unsafe())));
            if let Some(im) = tcx.impl_of_assoc(owner) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                out.push(("self", n(self.ty(st) as u64)));
                if tcx.impl_is_of_trait(im) {
                    let tr = tcx.impl_trait_ref(im).skip_binder();
                    out.push(("trait", s(self.path(tr.def_id))));
                    let ta = self.args(tr.args);
                    out.push(("targs", ta));
                }
            }
            out.push(("name", s(tcx.item_name(owner).to_string())));
        }
        if tcx.is_closure_like(owner) {
            out.push(("parent", s(self.id(tcx.typeck_root_def_id(owner)))));
        }
        J::O(out)
    }
}

struct UnsafeVisitor {
    owner: LocalDefId,
    out: Vec<(LocalDefId, rustc_span::Span)>,
}
impl<'tcx> intravisit::Visitor<'tcx> for UnsafeVisitor {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // code of another crate's macro is that crate's
            if !b.span.from_expansion() || b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |m| m.is_local()) {
                self.out.push((self.owner, b.span));
            }
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let dir = match std::env::var("MIRDUMP_DIR") {
        Ok(d) => d,
        Err(_) => return,
    };
    let cname = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, tys: HashMap::new(), tylist: vec![], adts: HashMap::new(), adtq: vec![] };
    let mut fns = vec![];
    let mut skipped = 0i128;
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| cx.id(k.to_def_id()));
    for k in keys {
        let d = k.to_def_id();
        let id = cx.id(d);
        if id.contains("::rules::") {
            skipped += 1;
            continue;
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let b = tcx.optimized_mir(d);
                let j = cx.body(d, b, None);
                fns.push(j);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let b = tcx.mir_for_ctfe(d);
                let j = cx.body(d, b, None);
                fns.push(j);
            }
            _ => continue,
        }
        let pm = tcx.promoted_mir(d);
        for (i, b) in pm.iter_enumerated() {
            let j = cx.body(d, b, Some(i.as_u32()));
            fns.push(j);
        }
    }
    // trait impls of this crate
    let mut impls = vec![];
    for (tr, list) in tcx.all_local_trait_impls(()).iter() {
        for im in list {
            let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let items = tcx
                .associated_item_def_ids(im.to_def_id())
                .iter()
                .map(|x| J::A(vec![s(tcx.item_name(*x).to_string()), s(cx.id(*x))]))
                .collect();
            impls.push(J::O(vec![
                ("trait", s(cx.path(*tr))),
                ("self", n(sti as u64)),
                ("items", J::A(items)),
                ("unsafe", J::B(tcx.trait_def(*tr).safety.is_unsafe())),
            ]));
        }
    }
    // unsafe blocks and statics of this crate
    let mut uv = UnsafeVisitor { owner: rustc_hir::def_id::CRATE_DEF_ID, out: vec![] };
    for k in tcx.hir_body_owners() {
        uv.owner = k;
        let b = tcx.hir_body_owned_by(k);
        intravisit::Visitor::visit_body(&mut uv, b);
    }
    let unsafes: Vec<J> = uv.out.iter().map(|(k, sp)| J::A(vec![s(cx.path(k.to_def_id())), cx.line(*sp)])).collect();
    let mut statics = vec![];
    for k in tcx.mir_keys(()).iter() {
        let d = k.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tl = tcx.is_thread_local_static(d);
            statics.push(J::O(vec![
                ("id", s(cx.id(d))),
                ("path", s(cx.path(d))),
                ("ty", n(cx.ty(t) as u64)),
                ("mut", J::B(mutability.is_mut())),
                ("thread_local", J::B(tl)),
            ]));
        }
    }
    // ADTs
    let mut adts = vec![];
    while let Some(d) = cx.adtq.pop() {
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<(u32, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(v, x)| (v.as_u32(), x.val)).collect()
        } else {
            vec![(0, 0)]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = if d.is_local() || def.is_enum() || cx.path(d).starts_with("serde_json") { n(cx.ty(t) as u64) } else { J::Null };
                fs.push(J::O(vec![("name", s(f.name.to_string())), ("ty", ti), ("pub", J::B(f.vis.is_public()))]));
            }
            let dv = discrs.iter().find(|(i, _)| *i == vi.as_u32()).map(|(_, x)| *x).unwrap_or(vi.as_u32() as u128);
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", s(dv.to_string())),
                ("fields", J::A(fs)),
            ]));
        }
        adts.push(J::O(vec![
            ("id", s(cx.id(d))),
            ("path", s(cx.path(d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(d.is_local())),
            ("variants", J::A(vs)),
        ]));
    }
    let out = J::O(vec![
        ("unsafes", J::A(unsafes)),
        ("statics", J::A(statics)),
        ("crate", s(cname.clone())),
        ("skipped_generated", J::N(skipped)),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("types", J::A(cx.tylist.clone())),
    ]);
    let mut o = String::new();
    out.w(&mut o);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, cname), o).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
