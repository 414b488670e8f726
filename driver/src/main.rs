//! A rustc driver that type-checks the crate exactly as cargo asked for it and
//! then dumps the resolved MIR of every local body (functions, closures,
//! constants) as JSON: one file per crate target, in $MIRDUMP_OUT.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    seen: std::collections::HashSet<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn hash(&self, d: DefId) -> String {
        format!("{:?}", self.tcx.def_path_hash(d).0.to_hex())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_adt(t);
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        let mut work = vec![t];
        let mut n = 0;
        while let Some(t) = work.pop() {
            n += 1;
            if n > 200 {
                break;
            }
            match t.kind() {
                ty::Adt(def, args) => {
                    if self.seen.insert(def.did()) {
                        let p = self.path(def.did());
                        self.adts.insert(p, def.did());
                    }
                    for a in args.iter() {
                        if let Some(t) = a.as_type() {
                            work.push(t);
                        }
                    }
                }
                ty::Ref(_, t, _) | ty::Slice(t) | ty::Array(t, _) | ty::RawPtr(t, _) => {
                    work.push(*t)
                }
                ty::Tuple(ts) => work.extend(ts.iter()),
                _ => {}
            }
        }
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    // ---------------------------------------------------------------- consts
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> String {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool => format!("{{\"k\":\"bool\",\"v\":{}}}", bits != 0),
                    ty::Char => format!(
                        "{{\"k\":\"char\",\"v\":{}}}",
                        js(&char::from_u32(bits as u32).unwrap_or('\u{fffd}').to_string())
                    ),
                    ty::Int(_) => {
                        let v = size.sign_extend(bits);
                        format!("{{\"k\":\"int\",\"v\":{}}}", v as i128)
                    }
                    ty::Uint(_) => format!("{{\"k\":\"int\",\"v\":{}}}", bits),
                    _ => {
                        let tys = self.ty(t);
                        format!("{{\"k\":\"scalar\",\"v\":{},\"ty\":{}}}", bits, js(&tys))
                    }
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(_)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            let inner = *inner;
                            let v = self.mem(prov.alloc_id(), off.bytes(), inner, env, depth + 1);
                            return format!("{{\"k\":\"ref\",\"v\":{}}}", v);
                        }
                        "{\"k\":\"opaque\",\"v\":\"ptr\"}".into()
                    }
                    Some(GlobalAlloc::Static(d)) => {
                        let st = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let frozen = st.is_freeze(self.tcx, env);
                        let tn = self.ty(st);
                        let (p, h, m) = (self.path(d), self.hash(d), self.tcx.is_mutable_static(d));
                        format!(
                            "{{\"k\":\"static\",\"v\":{},\"id\":{},\"ty\":{},\"mut\":{},\"freeze\":{}}}",
                            js(&p), js(&h), js(&tn), m, frozen
                        )
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        format!(
                            "{{\"k\":\"fnptr\",\"v\":{}}}",
                            js(&self.path(instance.def_id()))
                        )
                    }
                    _ => "{\"k\":\"opaque\",\"v\":\"ptr\"}".into(),
                }
            }
        }
    }

    fn mem(
        &mut self,
        id: interpret::AllocId,
        off: u64,
        t: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: u32,
    ) -> String {
        if depth > 12 {
            return "{\"k\":\"opaque\",\"v\":\"deep\"}".into();
        }
        let tcx = self.tcx;
        let GlobalAlloc::Memory(alloc) = tcx.global_alloc(id) else {
            return "{\"k\":\"opaque\",\"v\":\"noalloc\"}".into();
        };
        let a = alloc.inner();
        let rd = |off: u64, n: u64| -> Option<u128> {
            let r = a.inspect_with_uninit_and_ptr_outside_interpreter(
                off as usize..(off + n) as usize,
            );
            let mut v = 0u128;
            for (i, b) in r.iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            Some(v)
        };
        let prov = |off: u64| -> Option<interpret::AllocId> {
            a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)).map(|p| p.alloc_id())
        };
        match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"v\":{}}}", rd(off, 1) != Some(0)),
            ty::Char => format!(
                "{{\"k\":\"char\",\"v\":{}}}",
                js(&char::from_u32(rd(off, 4).unwrap() as u32).unwrap_or('\u{fffd}').to_string())
            ),
            ty::Int(_) | ty::Uint(_) => {
                let sz = tcx.layout_of(env.as_query_input(t)).unwrap().size;
                let v = rd(off, sz.bytes()).unwrap();
                if matches!(t.kind(), ty::Int(_)) {
                    format!("{{\"k\":\"int\",\"v\":{}}}", sz.sign_extend(v) as i128)
                } else {
                    format!("{{\"k\":\"int\",\"v\":{}}}", v)
                }
            }
            ty::Ref(_, inner, _) => {
                let inner = *inner;
                let Some(p) = prov(off) else {
                    return "{\"k\":\"opaque\",\"v\":\"noprov\"}".into();
                };
                let poff = rd(off, 8).unwrap() as u64;
                match inner.kind() {
                    ty::Str => {
                        let len = rd(off + 8, 8).unwrap() as u64;
                        self.read_str(p, poff, len)
                    }
                    ty::Slice(el) => {
                        let len = rd(off + 8, 8).unwrap() as u64;
                        self.read_slice(p, poff, len, *el, env, depth)
                    }
                    _ => {
                        if !matches!(tcx.try_get_global_alloc(p), Some(GlobalAlloc::Memory(_))) {
                            return "{\"k\":\"opaque\",\"v\":\"refother\"}".into();
                        }
                        let v = self.mem(p, poff, inner, env, depth + 1);
                        format!("{{\"k\":\"ref\",\"v\":{}}}", v)
                    }
                }
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.read_elems(id, off, n, *el, env, depth, "array")
            }
            ty::Tuple(ts) => {
                let lay = tcx.layout_of(env.as_query_input(t)).unwrap();
                let mut out = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes();
                    out.push(self.mem(id, off + o, ft, env, depth + 1));
                }
                format!("{{\"k\":\"tuple\",\"v\":[{}]}}", out.join(","))
            }
            ty::Adt(def, args) => {
                let lay = tcx.layout_of(env.as_query_input(t)).unwrap();
                let vi = if def.is_enum() {
                    // only C-like / directly tagged enums, through valtree-free reading
                    match &lay.variants {
                        rustc_abi::Variants::Single { index } => *index,
                        rustc_abi::Variants::Multiple {
                            tag,
                            tag_encoding: rustc_abi::TagEncoding::Direct,
                            tag_field,
                            ..
                        } => {
                            let o = lay.fields.offset(tag_field.as_usize()).bytes();
                            let sz = tag.size(&tcx).bytes();
                            let v = rd(off + o, sz).unwrap();
                            match def.discriminants(tcx).find(|(_, d)| {
                                let mask = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                                d.val & mask == v
                            }) {
                                Some((i, _)) => i,
                                None => return "{\"k\":\"opaque\",\"v\":\"tag\"}".into(),
                            }
                        }
                        _ => return "{\"k\":\"opaque\",\"v\":\"niche\"}".into(),
                    }
                } else {
                    rustc_abi::FIRST_VARIANT
                };
                let p = self.ty(t);
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vl = lay.for_variant(&cx, vi);
                let mut out = vec![];
                for (i, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                    let o = vl.fields.offset(i).bytes();
                    out.push(self.mem(id, off + o, ft, env, depth + 1));
                }
                format!(
                    "{{\"k\":\"adt\",\"ty\":{},\"vi\":{},\"v\":[{}]}}",
                    js(&p),
                    vi.as_usize(),
                    out.join(",")
                )
            }
            _ => {
                let p = self.ty(t);
                format!("{{\"k\":\"opaque\",\"v\":{}}}", js(&p))
            }
        }
    }
    fn read_elems(
        &mut self,
        id: interpret::AllocId,
        off: u64,
        n: u64,
        el: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: u32,
        kind: &str,
    ) -> String {
        let sz = self.tcx.layout_of(env.as_query_input(el)).unwrap().size.bytes();
        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
            let GlobalAlloc::Memory(alloc) = self.tcx.global_alloc(id) else {
                return "{\"k\":\"opaque\",\"v\":\"noalloc\"}".into();
            };
            let r = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                off as usize..(off + n) as usize,
            );
            let hex: String = r.iter().map(|b| format!("{:02x}", b)).collect();
            return format!("{{\"k\":\"bytes\",\"v\":{}}}", js(&hex));
        }
        if n > 4096 {
            return format!("{{\"k\":\"{}\",\"trunc\":{},\"v\":[]}}", kind, n);
        }
        let mut out = vec![];
        for i in 0..n {
            out.push(self.mem(id, off + i * sz, el, env, depth + 1));
        }
        format!("{{\"k\":\"{}\",\"v\":[{}]}}", kind, out.join(","))
    }
    fn read_slice(
        &mut self,
        id: interpret::AllocId,
        off: u64,
        n: u64,
        el: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: u32,
    ) -> String {
        let v = self.read_elems(id, off, n, el, env, depth, "array");
        format!("{{\"k\":\"ref\",\"v\":{}}}", v)
    }
    fn read_str(&mut self, id: interpret::AllocId, off: u64, len: u64) -> String {
        if len == 0 {
            return "{\"k\":\"str\",\"v\":\"\"}".into();
        }
        let GlobalAlloc::Memory(alloc) = self.tcx.global_alloc(id) else {
            return "{\"k\":\"opaque\",\"v\":\"noalloc\"}".into();
        };
        let r = alloc
            .inner()
            .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
        format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(r)))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder(), env);
        }
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"v\":{},\"id\":{}}}",
                    p.as_usize(),
                    js(&self.hash(u.def))
                );
            }
            named = format!(
                ",\"const\":{},\"cid\":{}",
                js(&self.path(u.def)),
                js(&self.hash(u.def))
            );
        }
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(s) => self.scalar(s, t, env, 0),
                ConstValue::ZeroSized => {
                    let ts = self.ty(t);
                    format!("{{\"k\":\"zst\",\"v\":{}}}", js(&ts))
                }
                ConstValue::Slice { alloc_id, meta } => match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => self.read_str(alloc_id, 0, meta),
                    ty::Ref(_, inner, _) => match inner.kind() {
                        ty::Slice(el) => {
                            let el = *el;
                            self.read_slice(alloc_id, 0, meta, el, env, 0)
                        }
                        _ => "{\"k\":\"opaque\",\"v\":\"slice\"}".into(),
                    },
                    _ => "{\"k\":\"opaque\",\"v\":\"slice\"}".into(),
                },
                ConstValue::Indirect { alloc_id, offset } => {
                    self.mem(alloc_id, offset.bytes(), t, env, 0)
                }
            },
            Err(_) => {
                let ts = with_no_trimmed_paths!(format!("{}", c.const_));
                format!("{{\"k\":\"opaque\",\"v\":{}}}", js(&ts))
            }
        };
        if named.is_empty() {
            v
        } else {
            format!("{}{}}}", &v[..v.len() - 1], named)
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"k\":\"fn\",\"v\":{},\"id\":{}", js(&self.path(d)), js(&self.hash(d)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            // variant or struct constructor
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            let _ = write!(o, ",\"ctor\":{},\"vi\":{}", js(&self.path(adt)), vi);
            let t = tcx.type_of(adt).instantiate_identity().skip_norm_wip();
            self.note_adt(t);
        }
        let mut gs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                let t = self.ty(t);
                gs.push(js(&t));
            }
        }
        let _ = write!(o, ",\"g\":[{}]", gs.join(","));
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
                let e = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, e) {
                    let _ = write!(
                        o,
                        ",\"inst\":{},\"iid\":{},\"ik\":{}",
                        js(&self.path(inst.def_id())),
                        js(&self.hash(inst.def_id())),
                        js(match inst.def {
                            ty::InstanceKind::Item(_) => "item",
                            ty::InstanceKind::Virtual(..) => "virtual",
                            ty::InstanceKind::Intrinsic(..) => "intrinsic",
                            _ => "shim",
                        })
                    );
                }
            }
        }
        o.push('}');
        o
    }

    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    let mut owner = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if !def.is_enum() => def.non_enum_variant(),
                                None => def.variant(rustc_abi::FIRST_VARIANT),
                            };
                            name = v.fields[f].name.to_string();
                            owner = self.path(def.did());
                        }
                        ty::Closure(..) => owner = "closure".into(),
                        _ => {}
                    }
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_usize(), js(&name), js(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = name.map(|s| s.to_string()).unwrap_or_default();
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), js(&n));
                }
                _ => o.push_str(",[\"other\"]"),
            }
            pty = pty.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env)),
            _ => "[\"k\",{\"k\":\"bool\",\"v\":true}]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, body, env),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p, body)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, body))
            }
            Rvalue::RawPtr(k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, RawPtrKind::Mut),
                self.place(p, body)
            ),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let kk = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&kk), self.operand(o, body, env), js(&t))
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", b)),
                self.operand(&ops.0, body, env),
                self.operand(&ops.1, body, env)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.operand(o, body, env))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_adt(t);
                let name = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(p, body), js(&name))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(o, body, env));
                }
                let (kind, path, vi, extra) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), 0, String::new()),
                    AggregateKind::Tuple => ("tuple", String::new(), 0, String::new()),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                        self.note_adt(t);
                        let g: Vec<String> = args
                            .iter()
                            .filter_map(|a| a.as_type())
                            .map(|t| {
                                let s = self.ty(t);
                                js(&s)
                            })
                            .collect();
                        ("adt", self.path(*d), vi.as_usize(), g.join(","))
                    }
                    AggregateKind::Closure(d, _) => ("closure", self.hash(*d).to_string(), 0, String::new()),
                    _ => ("other", String::new(), 0, String::new()),
                };
                format!(
                    "[\"agg\",{},{},{},[{}],[{}]]",
                    js(kind),
                    js(&path),
                    vi,
                    v.join(","),
                    extra
                )
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "\"args\":{},\"locals\":[", body.arg_count);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", js(v.name.as_str()), self.place(&p, body)));
                }
            }
        }
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let n = names.get(&i.as_usize()).cloned().unwrap_or_default();
            let _ = write!(o, "[{},{}]", js(&t), js(&n));
        }
        let _ = write!(o, "],\"upv\":[{}],\"blocks\":[", upv.join(","));
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if bb.as_usize() > 0 {
                o.push_str(",\n");
            }
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, body);
                        let rv = self.rvalue(&b.1, body, env);
                        st.push(format!("[{},{},{}]", pl, rv, js(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, body);
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            pl,
                            variant_index.as_usize(),
                            js(&self.span(s.source_info.span))
                        ));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = js(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(format!("[{},{}]", val, b.as_usize()));
                    }
                    let t = discr.ty(body, self.tcx);
                    let ts = self.ty(t);
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(discr, body, env),
                        v.join(","),
                        targets.otherwise().as_usize(),
                        js(&ts)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"unwind\"]".into()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, self.tcx).ty;
                    let ts = self.ty(t);
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(place, body),
                        target.as_usize(),
                        js(&ts)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.operand(&a.node, body, env));
                    }
                    let dt = destination.ty(body, self.tcx).ty;
                    let dts = self.ty(dt);
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        self.operand(func, body, env),
                        v.join(","),
                        self.place(destination, body),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        js(&dts)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let k: String = k.chars().take(60).collect();
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, body, env),
                        expected,
                        target.as_usize(),
                        js(&k)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"sp\":{},\"cl\":{}}}", st.join(","), t, sp, data.is_cleanup);
        }
        o.push(']');
        o
    }

    fn fields_json(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut done: BTreeSet<String> = BTreeSet::new();
        // iterate to a fixpoint: field types mention new ADTs
        for _round in 0..3 {
            let todo: Vec<(String, DefId)> =
                self.adts.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, d)| (k.clone(), *d)).collect();
            for (p, d) in todo {
                done.insert(p.clone());
                let def = tcx.adt_def(d);
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let mut vs = vec![];
                let discs: Vec<i128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, x)| x.val as i128).collect()
                } else {
                    vec![0]
                };
                for (i, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ts = self.ty(ft);
                        fs.push(format!(
                            "[{},{},{}]",
                            js(f.name.as_str()),
                            js(&ts),
                            f.vis.is_public()
                        ));
                    }
                    vs.push(format!(
                        "[{},{},[{}]]",
                        js(v.name.as_str()),
                        discs.get(i.as_usize()).copied().unwrap_or(0),
                        fs.join(",")
                    ));
                }
                out.push(format!(
                    "{}:{{\"enum\":{},\"local\":{},\"vis\":{},\"variants\":[{}]}}",
                    js(&p),
                    def.is_enum(),
                    d.is_local(),
                    tcx.visibility(d).is_public(),
                    vs.join(",")
                ));
            }
        }
        out.join(",\n")
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else {
            return Compilation::Continue;
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let mut d = Dump { tcx, adts: BTreeMap::new(), seen: Default::default() };
        let mut out = String::new();
        let _ = write!(
            out,
            "{{\"crate\":{},\"bin\":{},\"bodies\":[\n",
            js(&krate),
            is_bin
        );
        let mut first = true;
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            let env = TypingEnv::post_analysis(tcx, def);
            let (bodies, kname): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(def), "fn"),
                DefKind::Closure => (tcx.optimized_mir(def), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(def), "const")
                }
                _ => continue,
            };
            let body = bodies;
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let parent = if matches!(kind, DefKind::Closure) { d.hash(tcx.parent(def)) } else { String::new() };
            let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(def).is_public() };
            let mut traitm = String::new();
            if matches!(kind, DefKind::AssocFn) {
                if let Some(imp) = tcx.impl_of_assoc(def) {
                    let selfty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let st = d.ty(selfty);
                    let _ = write!(traitm, ",\"self\":{}", js(&st));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let trs = with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip()));
                        let _ = write!(traitm, ",\"impl_trait\":{},\"derived\":{}", js(&trs), tcx.is_builtin_derived(imp));
                    }
                }
            }
            let _ = write!(
                out,
                "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"pub\":{},\"span\":{}{},",
                js(&d.hash(def)),
                js(&d.path(def)),
                js(&tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default()),
                js(kname),
                js(&parent),
                vis,
                js(&d.span(tcx.def_span(def))),
                traitm
            );
            let b = d.body(body, env);
            out.push_str(&b);
            out.push_str(",\"promoted\":[");
            let proms = tcx.promoted_mir(def);
            for (i, p) in proms.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                let pb = d.body(p, env);
                out.push('{');
                out.push_str(&pb);
                out.push('}');
            }
            out.push_str("]}");
        }
        out.push_str("\n],\"adts\":{\n");
        let f = d.fields_json();
        out.push_str(&f);
        out.push_str("\n}}\n");
        let name = format!("{}/{}-{}.json", dir, if is_bin { "bin" } else { "lib" }, krate);
        std::fs::write(&name, out).expect("mirdump: cannot write");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let dumping = args.iter().any(|a| a == "--crate-name");
    if dumping {
        if let Ok(extra) = std::env::var("MIRDUMP_EXTRA") {
            args.extend(extra.split_whitespace().map(String::from));
        }
    }
    rustc_driver::install_ice_hook("mirdump", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
