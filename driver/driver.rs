// MIR/HIR dumper for the starry crate.  Built with `rustc +nightly`, used as
// RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check --lib`.  It never runs the crate: it lets rustc
// resolve and type-check it, then writes what the compiler knows as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::mir::{
    AggregateKind, AssertKind, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

struct BodyCx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a mir::Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let s = with_no_trimmed_paths!(t.to_string());
        let mut o = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            ty::Adt(d, args) => {
                let p = self.path(d.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"adt\":{},\"local\":{},\"args\":{}",
                    js(&p),
                    d.did().is_local(),
                    arr(a)
                );
                self.adt(*d);
            }
            ty::Ref(_, inner, m) => {
                let a = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), a);
            }
            ty::RawPtr(inner, _) => {
                let a = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"args\":[{}]", a);
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"args\":{}", arr(a));
            }
            ty::Slice(e) => {
                let a = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"args\":[{}]", a);
            }
            ty::Array(e, n) => {
                let a = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx);
                let _ = write!(
                    o,
                    ",\"k\":\"array\",\"args\":[{}],\"n\":{}",
                    a,
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                );
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"args\":{}", js(&p), arr(up));
            }
            ty::FnDef(d, _) => {
                let p = self.path(*d);
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", js(&p));
            }
            ty::FnPtr(..) => {
                let _ = write!(o, ",\"k\":\"fnptr\"");
            }
            ty::Dynamic(..) => {
                let _ = write!(o, ",\"k\":\"dyn\"");
            }
            ty::Param(_) => {
                let _ = write!(o, ",\"k\":\"param\"");
            }
            _ => {
                let _ = write!(o, ",\"k\":\"prim\"");
            }
        }
        o.push('}');
        self.types[i] = o;
        i
    }

    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&d.did()) {
            return;
        }
        self.adts.insert(d.did(), String::new());
        let p = self.path(d.did());
        let mut vs = vec![];
        let local = d.did().is_local();
        for (vi, v) in d.variants().iter_enumerated() {
            let disc = if d.is_enum() {
                d.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t).to_string()
                } else {
                    "null".into()
                };
                let vis = f.vis.is_public();
                fs.push(format!("{{\"n\":{},\"ty\":{},\"pub\":{}}}", js(f.name.as_str()), t, vis));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                js(v.name.as_str()),
                js(&disc),
                arr(fs)
            ));
        }
        let s = format!(
            "{}:{{\"local\":{},\"kind\":{},\"drop\":{},\"v\":{}}}",
            js(&p),
            local,
            js(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" }),
            d.destructor(self.tcx).is_some(),
            arr(vs)
        );
        self.adts.insert(d.did(), s);
    }
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(i) => d.variant(i),
                                None => d.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(d, _) => self.cx.path(d.did()),
                        ty::Closure(d, _) => self.cx.path(*d),
                        _ => String::new(),
                    };
                    let t = self.cx.ty(fty);
                    format!("[\"f\",{},{},{},{}]", f.as_usize(), js(&name), t, js(&owner))
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(vi).name.to_string(),
                        _ => String::new(),
                    };
                    format!("[\"v\",{},{}]", vi.as_usize(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                _ => "[\"?\"]".to_string(),
            };
            proj.push(s);
            pt = pt.projection_ty(self.cx.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(proj))
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.cx.tcx.try_get_global_alloc(alloc)? {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let off = off as usize;
                let end = off.checked_add(len as usize)?;
                if end > a.len() || !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let path = self.cx.path(d);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let mut o = format!(
            "{{\"k\":\"fn\",\"path\":{},\"full\":{},\"local\":{}",
            js(&path),
            js(&full),
            d.is_local()
        );
        let a: Vec<String> = args.types().map(|x| self.cx.ty(x).to_string()).collect();
        let _ = write!(o, ",\"targs\":{}", arr(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&self.cx.path(tr)));
        }
        let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if ctor {
            let parent = tcx.parent(d);
            let (adt, vname) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            let _ = write!(o, ",\"ctor\":[{},{}]", js(&self.cx.path(adt)), js(&vname));
        } else {
            let args = tcx.erase_and_anonymize_regions(args);
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            if let Ok(sig) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig)) {
                let v: Vec<String> = sig.inputs_and_output.iter().map(|x| self.cx.ty(x).to_string()).collect();
                let _ = write!(o, ",\"sig\":{}", arr(v));
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(sk) => match sk {
                        ty::ShimKind::ClosureOnce { .. } => "closure_once",
                        ty::ShimKind::Clone(..) => "clone_shim",
                        ty::ShimKind::DropGlue(..) => "drop_glue",
                        _ => "shim",
                    },
                    _ => "other",
                };
                let _ = write!(
                    o,
                    ",\"r\":{},\"rk\":{},\"rlocal\":{}",
                    js(&self.cx.path(rd)),
                    js(kind),
                    rd.is_local()
                );
            }
        }
        o.push('}');
        o
    }

    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.ty();
        let ti = self.cx.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.skip_binder());
        }
        let mut o = format!("{{\"k\":\"const\",\"ty\":{}", ti);
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(o, ",\"path\":{},\"local\":{}", js(&self.cx.path(u.def)), u.def.is_local());
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
            }
        }
        if let Const::Ty(_, ct) = c {
            let _ = write!(o, ",\"ct\":{}", js(&format!("{:?}", ct)));
        }
        let skip_eval = match c {
            Const::Unevaluated(u, _) => u.promoted.is_some() && self.body.source.promoted.is_none() && false,
            _ => false,
        };
        if !skip_eval {
            if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match v {
                    ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    ConstValue::Slice { alloc_id, meta } => {
                        let isstr = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                        if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                            if isstr {
                                let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(&b)));
                            } else {
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":{}", arr(v));
                            }
                        }
                    }
                    ConstValue::Scalar(s) => match s {
                        mir::interpret::Scalar::Int(i) => {
                            let bits = i.to_bits(i.size());
                            let signed = matches!(t.kind(), ty::Int(_));
                            if t.is_bool() {
                                let _ = write!(o, ",\"bool\":{}", bits != 0);
                            } else if t.is_char() {
                                let _ = write!(o, ",\"char\":{}", bits);
                            } else if signed {
                                let sh = 128 - i.size().bits();
                                let v = ((bits << sh) as i128) >> sh;
                                let _ = write!(o, ",\"int\":{}", v);
                            } else {
                                let _ = write!(o, ",\"int\":{}", bits);
                            }
                        }
                        mir::interpret::Scalar::Ptr(p, _) => {
                            let (prov, off) = p.prov_and_relative_offset();
                            let aid = prov.alloc_id();
                            match tcx.try_get_global_alloc(aid) {
                                Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                    let _ = write!(o, ",\"static\":{}", js(&self.cx.path(d)));
                                }
                                Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                                    let _ = write!(o, ",\"fnptr\":{}", js(&self.cx.path(instance.def_id())));
                                }
                                _ => {}
                            }
                            // &[u8; N] (byte string literals, format templates)
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if let ty::Array(e, n) = inner.kind() {
                                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            if let Some(b) = self.bytes_of(aid, off.bytes(), n) {
                                                let v: Vec<String> =
                                                    b.iter().map(|x| x.to_string()).collect();
                                                let _ = write!(o, ",\"bytes\":{}", arr(v));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    },
                    ConstValue::Indirect { .. } => {
                        if let ty::Ref(_, i, _) = t.kind() {
                            if i.is_str() || matches!(i.kind(), ty::Slice(_)) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    if i.is_str() {
                                        let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn op(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => {
                let s = self.place(p);
                format!("{{\"k\":\"copy\",\"pl\":{}}}", s)
            }
            Operand::Move(p) => {
                let s = self.place(p);
                format!("{{\"k\":\"move\",\"pl\":{}}}", s)
            }
            Operand::Constant(c) => self.konst(&c.const_),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"rtcheck\"}".to_string(),
        }
    }

    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => {
                let s = self.op(o);
                format!("{{\"k\":\"use\",\"a\":{}}}", s)
            }
            Rvalue::Repeat(o, n) => {
                let s = self.op(o);
                let n = n.try_to_target_usize(self.cx.tcx);
                format!(
                    "{{\"k\":\"repeat\",\"a\":{},\"n\":{}}}",
                    s,
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => {
                let s = self.place(p);
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("{{\"k\":\"ref\",\"mut\":{},\"pl\":{}}}", m, s)
            }
            Rvalue::RawPtr(_, p) => {
                let s = self.place(p);
                format!("{{\"k\":\"rawptr\",\"pl\":{}}}", s)
            }
            Rvalue::Cast(ck, o, t) => {
                let s = self.op(o);
                let ti = self.cx.ty(*t);
                format!("{{\"k\":\"cast\",\"ck\":{},\"a\":{},\"ty\":{}}}", js(&format!("{:?}", ck)), s, ti)
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.op(&ops.0);
                let y = self.op(&ops.1);
                format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{:?}", b)), x, y)
            }
            Rvalue::UnaryOp(u, o) => {
                let s = self.op(o);
                format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", u)), s)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.cx.tcx).ty;
                let ti = self.cx.ty(t);
                let s = self.place(p);
                format!("{{\"k\":\"discr\",\"pl\":{},\"ty\":{}}}", s, ti)
            }
            Rvalue::CopyForDeref(p) => {
                let s = self.place(p);
                format!("{{\"k\":\"use\",\"a\":{{\"k\":\"copy\",\"pl\":{}}}}}", s)
            }
            Rvalue::Aggregate(kind, ops) => {
                let a: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                let k = match &**kind {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let adt = self.cx.tcx.adt_def(*d);
                        self.cx.adt(adt);
                        let v = adt.variant(*vi);
                        let fs: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "\"ak\":\"adt\",\"adt\":{},\"v\":{},\"vi\":{},\"fields\":{},\"union\":{}",
                            js(&self.cx.path(*d)),
                            js(v.name.as_str()),
                            vi.as_usize(),
                            arr(fs),
                            active.is_some()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"ak\":\"closure\",\"def\":{}", js(&self.cx.path(*d)))
                    }
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", k, arr(a))
            }
            Rvalue::ThreadLocalRef(d) => {
                format!("{{\"k\":\"tls\",\"path\":{}}}", js(&self.cx.path(*d)))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn bb(b: mir::BasicBlock) -> String {
        b.as_usize().to_string()
    }

    fn unwind(u: &mir::UnwindAction) -> String {
        match u {
            mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>) -> String {
        let sp = self.cx.span(t.source_info.span);
        let body = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", Self::bb(*target)),
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("\"k\":\"goto\",\"t\":{}", Self::bb(*real_target))
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("\"k\":\"goto\",\"t\":{}", Self::bb(*real_target))
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.op(discr);
                let t = discr.ty(&self.body.local_decls, self.cx.tcx);
                let ti = self.cx.ty(t);
                let v: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), Self::bb(b)))
                    .collect();
                format!(
                    "\"k\":\"switch\",\"d\":{},\"ty\":{},\"ts\":{},\"o\":{}",
                    o,
                    ti,
                    arr(v),
                    Self::bb(targets.otherwise())
                )
            }
            TerminatorKind::Return => "\"k\":\"return\"".into(),
            TerminatorKind::UnwindResume => "\"k\":\"resume\"".into(),
            TerminatorKind::UnwindTerminate(_) => "\"k\":\"abort\"".into(),
            TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let t = place.ty(&self.body.local_decls, self.cx.tcx).ty;
                let ti = self.cx.ty(t);
                let s = self.place(place);
                format!(
                    "\"k\":\"drop\",\"pl\":{},\"ty\":{},\"t\":{},\"u\":{}",
                    s,
                    ti,
                    Self::bb(*target),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.op(func);
                let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                let d = self.place(destination);
                let dt = destination.ty(&self.body.local_decls, self.cx.tcx).ty;
                let dti = self.cx.ty(dt);
                format!(
                    "\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"dty\":{},\"t\":{},\"u\":{}",
                    f,
                    arr(a),
                    d,
                    dti,
                    target.map(Self::bb).unwrap_or("null".into()),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.op(cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.op(len);
                        let i = self.op(index);
                        format!("{{\"k\":\"bounds\",\"len\":{},\"index\":{}}}", l, i)
                    }
                    AssertKind::Overflow(b, x, y) => {
                        let x = self.op(x);
                        let y = self.op(y);
                        format!("{{\"k\":\"overflow\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{:?}", b)), x, y)
                    }
                    AssertKind::OverflowNeg(_) => "{\"k\":\"neg\"}".into(),
                    AssertKind::DivisionByZero(x) => {
                        let x = self.op(x);
                        format!("{{\"k\":\"div0\",\"a\":{}}}", x)
                    }
                    AssertKind::RemainderByZero(x) => {
                        let x = self.op(x);
                        format!("{{\"k\":\"rem0\",\"a\":{}}}", x)
                    }
                    _ => "{\"k\":\"other\"}".into(),
                };
                format!(
                    "\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{}",
                    c,
                    expected,
                    m,
                    Self::bb(*target)
                )
            }
            other => format!("\"k\":\"other\",\"s\":{}", js(&format!("{:?}", other))),
        };
        format!("{{{},\"sp\":{}}}", body, sp)
    }

    fn body_json(&mut self) -> String {
        let body = self.body;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pj = self.place(&p);
                    upv.push(format!("[{},{}]", js(v.name.as_str()), pj));
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.cx.ty(l.ty);
            let n = names.get(&i.as_usize()).map(|x| js(x)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in b.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(&a.0);
                        let r = self.rv(&a.1);
                        st.push(format!("{{\"k\":\"=\",\"pl\":{},\"r\":{},\"sp\":{}}}", pl, r, self.cx.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(format!("{{\"k\":\"sd\",\"pl\":{},\"v\":{}}}", pl, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = self.term(b.terminator());
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), t, b.is_cleanup));
        }
        format!(
            "\"args\":{},\"locals\":{},\"upv\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(upv),
            arr(blocks)
        )
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let user = matches!(src, rustc_hir::UnsafeSource::UserProvided);
            let exp = b.span.from_expansion();
            let sp = b.span.source_callsite();
            let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
            let krate = {
                // crate of the macro that produced the block, if any
                let ed = b.span.ctxt().outer_expn_data();
                ed.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default()
            };
            self.found.push(format!(
                "{{\"user\":{},\"exp\":{},\"macro_crate\":{},\"sp\":{}}}",
                user,
                exp,
                js(&krate),
                js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
            ));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), adts: HashMap::new() };
        let mut fns = vec![];
        let mut unsafes = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for d in owners.iter().copied() {
            let def = d.to_def_id();
            let kind = tcx.def_kind(def);
            let p = cx.path(def);
            let sp = cx.span(tcx.def_span(def));
            {
                let mut f = UnsafeFinder { tcx, found: vec![] };
                let b = tcx.hir_body_owned_by(d);
                rustc_hir::intravisit::Visitor::visit_body(&mut f, b);
                if !matches!(kind, DefKind::Closure) {
                    for u in f.found {
                        unsafes.push(format!("{{\"fn\":{},\"b\":{}}}", js(&p), u));
                    }
                }
            }
            let env = TypingEnv::post_analysis(tcx, def);
            let (body, is_fn) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(def), true),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(def), false)
                }
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            let mut o = format!(
                "{}:{{\"kind\":{},\"sp\":{}",
                js(&p),
                js(&format!("{:?}", kind)),
                sp
            );
            if is_fn {
                let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(def).is_public() };
                let _ = write!(o, ",\"pub\":{}", vis);
                let reach = tcx.effective_visibilities(()).is_reachable(d);
                let _ = write!(o, ",\"exported\":{}", reach);
                if !matches!(kind, DefKind::Closure) {
                    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
                    if let Some(imp) = tcx.impl_of_assoc(def) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let sti = cx.ty(st);
                        let _ = write!(o, ",\"self\":{}", sti);
                        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            let _ = write!(o, ",\"trait\":{},\"name\":{}", js(&cx.path(tr.def_id)), js(tcx.item_name(def).as_str()));
                        }
                    }
                } else {
                    let parent = tcx.local_parent(d);
                    let _ = write!(o, ",\"parent\":{}", js(&cx.path(parent.to_def_id())));
                }
            }
            {
                let mut b = BodyCx { cx: &mut cx, body, env };
                let s = b.body_json();
                let _ = write!(o, ",{}", s);
            }
            let mut proms = vec![];
            for pb in tcx.promoted_mir(def).iter() {
                let mut b = BodyCx { cx: &mut cx, body: pb, env };
                proms.push(format!("{{{}}}", b.body_json()));
            }
            let _ = write!(o, ",\"promoted\":{}}}", arr(proms));
            fns.push(o);
        }
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let tr = if of_trait {
                        let t = tcx.impl_opt_trait_ref(def).unwrap().instantiate_identity().skip_norm_wip();
                        js(&cx.path(t.def_id))
                    } else {
                        "null".to_string()
                    };
                    let uns = of_trait && tcx.impl_trait_header(def).safety.is_unsafe();
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(def)
                        .iter()
                        .map(|x| js(&cx.path(*x)))
                        .collect();
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"unsafe\":{},\"items\":{},\"sp\":{}}}",
                        sti,
                        tr,
                        uns,
                        arr(items),
                        cx.span(tcx.def_span(def))
                    ));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(def);
                    cx.adt(a);
                }
                DefKind::Static { mutability, .. } => {
                    unsafes.push(if mutability.is_mut() {
                        format!("{{\"fn\":{},\"b\":{{\"user\":true,\"exp\":false,\"static_mut\":true,\"sp\":{}}}}}", js(&cx.path(def)), cx.span(tcx.def_span(def)))
                    } else {
                        "null".into()
                    });
                }
                _ => {}
            }
        }
        let adts: Vec<String> = cx.adts.values().cloned().collect();
        let files: Vec<String> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE)
            .map(|f| js(&format!("{}", f.name.prefer_local_unconditionally())))
            .collect();
        let out = format!(
            "{{\"crate\":{},\"files\":{},\"fns\":{{{}}},\"types\":{},\"adts\":{{{}}},\"impls\":{},\"unsafe\":{}}}",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(files),
            fns.join(",\n"),
            arr(cx.types),
            adts.join(",\n"),
            arr(impls),
            arr(unsafes)
        );
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let cn = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let want = std::env::var("STARRY_DUMP").ok();
    let is_test = args.iter().any(|a| a == "--test");
    if let (Some(n), Some(out)) = (cn, want) {
        if n == "starry" && !is_test {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums,-ElaborateBoxDerefs".into());
            args.push("-Zalways-encode-mir=no".into());
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
            return;
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Nop);
}
