// rustc driver used as RUSTC_WRAPPER: compiles every crate as rustc would, and for the crates named in
// MIRDUMP_CRATES (comma separated) writes <MIRDUMP_OUT>/<crate>.json with the facts the engine analyses.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::util::IntTypeExt as _;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<String>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        )))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.tmap.insert(t, idx);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[idx] = s;
        idx
    }
    fn tys(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<Ty<'tcx>> = args.types().collect();
        arr(v.into_iter().map(|t| self.ty(t).to_string()).collect())
    }
    fn const_len(&self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => n.to_string(),
            None => "null".into(),
        }
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(i) => format!("[\"int\",\"{}\"]", i.name_str()),
            ty::Uint(i) => format!("[\"int\",\"{}\"]", i.name_str()),
            ty::Float(f) => format!("[\"float\",\"{}\"]", f.name_str()),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(d, a) => {
                self.adt(*d);
                let p = self.path(d.did());
                let a = self.tys(a);
                format!("[\"adt\",{},{}]", esc(&p), a)
            }
            ty::Array(e, n) => {
                let n = self.const_len(*n);
                format!("[\"array\",{},{}]", self.ty(*e), n)
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(*e)),
            ty::RawPtr(e, m) => format!("[\"ptr\",{},{}]", m.is_mut() as u8, self.ty(*e)),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.ty(*e)),
            ty::Tuple(ts) => {
                let v: Vec<Ty<'tcx>> = ts.iter().collect();
                format!("[\"tuple\",{}]", arr(v.into_iter().map(|t| self.ty(t).to_string()).collect()))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::Closure(d, a) => {
                let p = self.path(*d);
                let up: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                format!("[\"closure\",{},{}]", esc(&p), arr(up.into_iter().map(|t| self.ty(t).to_string()).collect()))
            }
            ty::Dynamic(..) => format!("[\"dyn\",{}]", esc(&self.tstr(t))),
            _ => format!("[\"other\",{}]", esc(&self.tstr(t))),
        }
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adt_seen.insert(d.did(), ()).is_some() {
            return;
        }
        let p = self.path(d.did());
        let tcx = self.tcx;
        let mut vs = vec![];
        let is_enum = d.is_enum();
        // Field types only for crates under analysis or small std enums (Option/Result/ControlFlow...).
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if is_enum {
                let dv = d.discriminant_for_variant(tcx, vi);
                let bits = dv.ty.primitive_size(tcx).bits();
                let signed = dv.ty.is_signed();
                if signed {
                    let sh = 128 - bits;
                    (((dv.val << sh) as i128) >> sh).to_string()
                } else {
                    dv.val.to_string()
                }
            } else {
                "0".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = if d.did().is_local() { self.ty(t).to_string() } else { "null".into() };
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), ti, esc(if f.vis.is_public() { "pub" } else { "priv" })));
            }
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discr, arr(fs)));
        }
        let repr = if is_enum { self.tstr(d.repr().discr_type().to_ty(tcx)) } else { String::new() };
        let s = format!(
            "{{\"path\":{},\"kind\":{},\"local\":{},\"repr\":{},\"span\":{},\"variants\":{}}}",
            esc(&p),
            esc(if is_enum { "enum" } else if d.is_union() { "union" } else { "struct" }),
            d.did().is_local(),
            esc(&repr),
            self.span(tcx.def_span(d.did())),
            arr(vs)
        );
        self.adts.push(s);
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let hi = sm.lookup_char_pos(s.hi());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{r:?}")),
            o => format!("{o:?}"),
        };
        format!("[{},{},{}]", esc(&f), lo.line, hi.line)
    }
    fn line(&self, s: rustc_span::Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                o => format!("[\"o\",{}]", esc(&format!("{o:?}"))),
            });
        }
        arr(v)
    }
    fn scalar_int(&self, v: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Int(i) => {
                let bits = i.bit_width().unwrap_or(64);
                let sh = 128 - bits as u32;
                (((v << sh) as i128) >> sh).to_string()
            }
            _ => v.to_string(),
        }
    }
    fn decode(&mut self, t: Ty<'tcx>, al: &mir::interpret::Allocation, off: u64, depth: u32) -> String {
        let tcx = self.tcx;
        if depth > 6 {
            return "[\"deep\"]".into();
        }
        let te = TypingEnv::fully_monomorphized();
        let Ok(layout) = tcx.layout_of(te.as_query_input(t)) else { return "[\"nolayout\"]".into() };
        let rd = |o: u64, sz: u64, prov: bool| -> Option<Scalar> {
            al.read_scalar(
                &tcx,
                AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(sz) },
                prov,
            )
            .ok()
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sz = layout.size.bytes();
                match rd(off, sz, false) {
                    Some(s) => {
                        let v = s.to_bits(layout.size).discard_err();
                        match v {
                            Some(v) => format!("[\"int\",{},{}]", self.scalar_int(v, t), self.ty(t)),
                            None => "[\"unk\"]".into(),
                        }
                    }
                    None => "[\"unk\"]".into(),
                }
            }
            ty::Ref(_, inner, _) => {
                let Some(s) = rd(off, 8, true) else { return "[\"unk\"]".into() };
                let Ok(p) = s.to_pointer(&tcx).into_pointer_or_addr() else { return "[\"unk\"]".into() };
                let (prov, o) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let Some(l) = rd(off + 8, 8, false).and_then(|s| s.to_bits(rustc_abi::Size::from_bytes(8)).discard_err()) else { return "[\"unk\"]".into() };
                        self.alloc_slice(aid, o.bytes(), l as u64, *inner, depth)
                    }
                    _ => match tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(a) => {
                            let r = self.decode(*inner, a.inner(), o.bytes(), depth + 1);
                            format!("[\"refto\",{}]", r)
                        }
                        GlobalAlloc::Static(d) => format!("[\"static\",{}]", esc(&self.path(d))),
                        _ => "[\"unk\"]".into(),
                    },
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let Ok(el) = tcx.layout_of(te.as_query_input(*e)) else { return "[\"nolayout\"]".into() };
                let mut v = vec![];
                for i in 0..n.min(4096) {
                    v.push(self.decode(*e, al, off + i * el.size.bytes(), depth + 1));
                }
                format!("[\"array\",{}]", arr(v))
            }
            ty::Tuple(ts) => {
                let ts: Vec<Ty<'tcx>> = ts.iter().collect();
                let mut v = vec![];
                for (i, e) in ts.into_iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes();
                    v.push(self.decode(e, al, off + fo, depth + 1));
                }
                format!("[\"tuple\",{}]", arr(v))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let mut v = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let fo = layout.fields.offset(i).bytes();
                    v.push(self.decode(ft, al, off + fo, depth + 1));
                }
                format!("[\"struct\",{},{}]", self.ty(t), arr(v))
            }
            _ => format!("[\"opaque\",{}]", esc(&self.tstr(t))),
        }
    }
    fn alloc_slice(&mut self, aid: mir::interpret::AllocId, off: u64, len: u64, inner: Ty<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                match inner.kind() {
                    ty::Str => {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                        format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)))
                    }
                    ty::Slice(e) => {
                        let te = TypingEnv::fully_monomorphized();
                        let Ok(el) = tcx.layout_of(te.as_query_input(*e)) else { return "[\"nolayout\"]".into() };
                        let mut v = vec![];
                        for i in 0..len.min(4096) {
                            v.push(self.decode(*e, a, off + i * el.size.bytes(), depth + 1));
                        }
                        format!("[\"refto\",[\"array\",{}]]", arr(v))
                    }
                    _ => "[\"unk\"]".into(),
                }
            }
            _ => "[\"unk\"]".into(),
        }
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return self.fnref(owner, (*d).into(), args);
        }
        let ti = self.ty(t);
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if u.def.is_local() {
                    return format!("[\"promoted\",{},{}]", p.as_usize(), ti);
                }
            } else {
                named = self.path(u.def);
            }
        }
        let te = TypingEnv::post_analysis(tcx, owner);
        let val = c.const_.eval(tcx, te, c.span);
        let js = match val {
            Ok(ConstValue::Scalar(s)) => match s {
                Scalar::Int(i) => {
                    let v = i.to_bits(i.size());
                    format!("[\"int\",{},{}]", self.scalar_int(v, t), ti)
                }
                Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    match (tcx.global_alloc(prov.alloc_id()), t.kind()) {
                        (GlobalAlloc::Memory(a), ty::Ref(_, inner, _)) => {
                            let r = self.decode(*inner, a.inner(), off.bytes(), 0);
                            format!("[\"refto\",{}]", r)
                        }
                        (GlobalAlloc::Static(d), _) => format!("[\"static\",{}]", esc(&self.path(d))),
                        _ => format!("[\"opaque\",{}]", esc(&self.tstr(t))),
                    }
                }
            },
            Ok(ConstValue::ZeroSized) => format!("[\"zst\",{}]", ti),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    self.alloc_slice(alloc_id, 0, meta, *inner, 0)
                } else {
                    "[\"unk\"]".into()
                }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => self.decode(t, a.inner(), offset.bytes(), 0),
                _ => "[\"unk\"]".into(),
            },
            Err(_) => format!("[\"uneval\",{}]", esc(&with_no_trimmed_paths!(format!("{}", c.const_)))),
        };
        if named.is_empty() {
            format!("[\"c\",{},{}]", js, ti)
        } else {
            format!("[\"c\",{},{},{}]", js, ti, esc(&named))
        }
    }
    fn fnref(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let te = TypingEnv::post_analysis(tcx, owner);
        let p = self.path(d);
        let a = self.tys(args);
        let mut s = format!("{{\"fn\":{},\"name\":{},\"args\":{}", esc(&p), esc(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()), a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let ti = self.ty(st);
            let _ = write!(s, ",\"self\":{}", ti);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, args) {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item".to_string(),
                    ty::InstanceKind::Virtual(..) => "virtual".to_string(),
                    ty::InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                    o => format!("{o:?}").split('(').next().unwrap_or("").to_string(),
                };
                let rp = self.path(inst.def_id());
                let ra = self.tys(inst.args);
                let _ = write!(s, ",\"res\":{},\"rkind\":{},\"rargs\":{}", esc(&rp), esc(&k), ra);
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = self.tstr(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                    let _ = write!(s, ",\"rself\":{}", esc(&st));
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(s, ",\"ctor\":1");
        }
        s.push('}');
        s
    }
    fn operand(&mut self, owner: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(owner, c),
            Operand::RuntimeChecks(r) => format!("[\"rtc\",{}]", esc(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, owner: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(owner, o)),
            Rvalue::Repeat(o, n) => {
                let n = self.const_len(*n);
                format!("[\"repeat\",{},{}]", self.operand(owner, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{k:?}")), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(owner, o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(owner, x), self.operand(owner, y))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(owner, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let p = self.path(*d);
                        self.adt(self.tcx.adt_def(*d));
                        let a = self.tys(args);
                        format!("[\"adt\",{},{},{},{}]", esc(&p), v.as_usize(), a, active.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
                };
                let ops: Vec<String> = ops.iter().map(|o| self.operand(owner, o)).collect();
                format!("[\"agg\",{},{}]", ks, arr(ops))
            }
            o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
        }
    }
    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", self.ty(d.ty), n));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let rv = self.rvalue(owner, r);
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), rv, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{},{}]", self.place(place), variant_index.as_usize(), ln));
                    }
                    StatementKind::StorageLive(_)
                    | StatementKind::StorageDead(_)
                    | StatementKind::Nop
                    | StatementKind::ConstEvalCounter
                    | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..)
                    | StatementKind::AscribeUserType(..)
                    | StatementKind::Coverage(..) => {}
                    o => st.push(format!("[\"other\",{},{}]", esc(&format!("{o:?}")), ln)),
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(b, self.tcx);
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(owner, discr), arr(v), targets.otherwise().as_usize(), dti, ln)
                }
                TerminatorKind::Return => format!("[\"return\",{}]", ln),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(owner, &a.node)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(a), d, tg, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(owner, len), self.operand(owner, index)])
                        }
                        AssertKind::Overflow(op, x, y) => {
                            (format!("overflow:{op:?}"), vec![self.operand(owner, x), self.operand(owner, y)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(owner, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(owner, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(owner, x)]),
                        o => (format!("{:?}", std::mem::discriminant(o)), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(owner, cond), expected, esc(&k), arr(ops), target.as_usize(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), tj, bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", b.arg_count, arr(locals), arr(blocks))
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    spans: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.spans.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: vec![], adt_seen: HashMap::new() };
    let mut bodies = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| cx.path(k.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let p = cx.path(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(d) {
                    continue;
                }
                let body = tcx.optimized_mir(d);
                let js = cx.body(d, body);
                let promoted: Vec<String> =
                    tcx.promoted_mir(d).iter().map(|b| format!("{{{}}}", cx.body(d, b))).collect();
                let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(d).is_public() };
                let (mut tr, mut st) = (String::from("null"), String::from("null"));
                let mut par = d;
                while matches!(tcx.def_kind(par), DefKind::Closure) {
                    par = tcx.parent(par);
                }
                let mut inh = false;
                if let Some(im) = tcx.impl_of_assoc(par) {
                    let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    st = cx.ty(t).to_string();
                    inh = true;
                    if let Some(t) = tcx.impl_opt_trait_ref(im) {
                        inh = false;
                        let t = t.instantiate_identity().skip_norm_wip();
                        let pp = cx.path(t.def_id);
                        let a = cx.tys(t.args);
                        tr = format!("[{},{}]", esc(&pp), a);
                    }
                } else if let Some(t) = tcx.trait_of_assoc(par) {
                    let pp = cx.path(t);
                    tr = format!("[{},null]", esc(&pp));
                }
                let _ = inh;
                let gens: Vec<String> = {
                    let g = tcx.generics_of(d);
                    let mut v = vec![];
                    for i in 0..g.count() {
                        let pm = g.param_at(i, tcx);
                        v.push(format!("[{},{}]", esc(pm.name.as_str()), esc(match pm.kind { ty::GenericParamDefKind::Type{..} => "type", ty::GenericParamDefKind::Lifetime => "lt", _ => "const" })));
                    }
                    v
                };
                let is_unsafe = if matches!(kind, DefKind::Closure) { false } else {
                    !tcx.fn_sig(d).skip_binder().safety().is_safe()
                };
                let exp = tcx.def_span(d).from_expansion();
                bodies.push(format!(
                    "{{\"path\":{},\"name\":{},\"kind\":{},\"pub\":{},\"unsafe\":{},\"exp\":{},\"trait\":{},\"self\":{},\"generics\":{},\"span\":{},{},\"promoted\":{}}}",
                    esc(&p), esc(&name), esc(&format!("{kind:?}")), vis, is_unsafe, exp, tr, st, arr(gens), cx.span(tcx.def_span(d)), js, arr(promoted)
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                statics.push(format!("{{\"path\":{},\"mut\":{},\"ty\":{},\"freeze\":{},\"span\":{}}}", esc(&p), mutability.is_mut(), ti, freeze, cx.span(tcx.def_span(d))));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(d).count() != 0 { continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let val = tcx.const_eval_poly(d);
                let js = match val {
                    Ok(ConstValue::Scalar(Scalar::Int(i))) => format!("[\"int\",{},{}]", cx.scalar_int(i.to_bits(i.size()), t), ti),
                    Ok(ConstValue::Slice { alloc_id, meta }) => {
                        if let ty::Ref(_, inner, _) = t.kind() { cx.alloc_slice(alloc_id, 0, meta, *inner, 0) } else { "[\"unk\"]".into() }
                    }
                    Ok(ConstValue::Indirect { alloc_id, offset }) => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => cx.decode(t, a.inner(), offset.bytes(), 0),
                        _ => "[\"unk\"]".into(),
                    },
                    _ => "[\"unk\"]".into(),
                };
                let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                consts.push(format!("{{\"path\":{},\"name\":{},\"ty\":{},\"val\":{},\"span\":{}}}", esc(&p), esc(&name), ti, js, cx.span(tcx.def_span(d))));
            }
            _ => {}
        }
    }
    // local ADTs, impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(tcx.adt_def(d)),
            DefKind::Impl { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let mut uns = false;
                let tr = match tcx.impl_opt_trait_ref(d) {
                    Some(t) => {
                        let t = t.instantiate_identity().skip_norm_wip();
                        uns = !tcx.impl_trait_header(d).safety.is_safe();
                        let pp = cx.path(t.def_id);
                        let a = cx.tys(t.args);
                        format!("[{},{}]", esc(&pp), a)
                    }
                    None => "null".into(),
                };
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| i.opt_name().is_some())
                    .map(|i| format!("[{},{}]", esc(i.name().as_str()), esc(&cx.path(i.def_id))))
                    .collect();
                impls.push(format!("{{\"trait\":{},\"self\":{},\"unsafe\":{},\"items\":{},\"span\":{}}}", tr, ti, uns, arr(items), cx.span(tcx.def_span(d))));
            }
            _ => {}
        }
    }
    let mut uf = UnsafeFinder { tcx, spans: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uf);
    let us: Vec<String> = uf.spans.iter().map(|s| cx.span(*s)).collect();
    let js = format!(
        "{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"statics\":{},\"consts\":{},\"unsafe\":{},\"bodies\":{}}}\n",
        esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        arr(std::mem::take(&mut cx.types)),
        arr(std::mem::take(&mut cx.adts)),
        arr(impls),
        arr(statics),
        arr(consts),
        arr(us),
        arr(bodies)
    );
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::write(&tmp, js).expect("write facts");
    std::fs::rename(&tmp, out).expect("rename facts");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let list = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    let mut cb = Cb { out: None };
    if !dir.is_empty() && !test && list.split(',').any(|n| n == name) {
        cb.out = Some(format!("{dir}/{name}.json"));
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
