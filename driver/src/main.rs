//! MIR fact extractor: a rustc driver that dumps the type-checked program (MIR bodies, resolved
//! callees, types, constants, impls) of a workspace crate as JSON. It runs none of the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() && self.krate != "lofty" {
            if let Some(rest) = p.strip_prefix('<') {
                format!("<{}::{}", self.krate, rest)
            } else {
                format!("{}::{}", self.krate, p)
            }
        } else {
            p
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let mut extra = String::new();
        match *t.kind() {
            ty::Bool => extra.push_str(",\"k\":\"bool\""),
            ty::Char => extra.push_str(",\"k\":\"char\""),
            ty::Int(it) => {
                let _ = write!(extra, ",\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64));
            },
            ty::Uint(it) => {
                let _ = write!(extra, ",\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64));
            },
            ty::Float(_) => extra.push_str(",\"k\":\"float\""),
            ty::Str => extra.push_str(",\"k\":\"str\""),
            ty::Never => extra.push_str(",\"k\":\"never\""),
            ty::Adt(def, args) => {
                let mut a = Vec::new();
                for t in args.types() {
                    a.push(self.ty(t).to_string());
                }
                let _ = write!(
                    extra,
                    ",\"k\":\"adt\",\"n\":{},\"a\":{}",
                    js(&self.path(def.did())),
                    arr(&a)
                );
            },
            ty::Ref(_, t, m) => {
                let _ = write!(extra, ",\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(t));
            },
            ty::RawPtr(t, m) => {
                let _ = write!(extra, ",\"k\":\"ptr\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(t));
            },
            ty::Slice(t) => {
                let _ = write!(extra, ",\"k\":\"slice\",\"a\":[{}]", self.ty(t));
            },
            ty::Array(t, n) => {
                let l = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                let _ = write!(extra, ",\"k\":\"array\",\"len\":{},\"a\":[{}]", l, self.ty(t));
            },
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(extra, ",\"k\":\"tuple\",\"a\":{}", arr(&a));
            },
            ty::Closure(d, _) => {
                let _ = write!(extra, ",\"k\":\"closure\",\"n\":{}", js(&self.path(d)));
            },
            ty::FnDef(d, _) => {
                let _ = write!(extra, ",\"k\":\"fndef\",\"n\":{}", js(&self.path(d)));
            },
            ty::FnPtr(..) => extra.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => extra.push_str(",\"k\":\"dyn\""),
            ty::Param(p) => {
                let _ = write!(extra, ",\"k\":\"param\",\"n\":{}", js(p.name.as_str()));
            },
            _ => extra.push_str(",\"k\":\"other\""),
        }
        self.ty_out[i] = format!("{{\"s\":{}{}}}", js(&s), extra);
        i
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let site = sp.source_callsite();
        let loc = sm.lookup_char_pos(site.lo());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let mut macros: Vec<String> = Vec::new();
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                macros.push(name.to_string());
            }
            else if let rustc_span::ExpnKind::Desugaring(k) = e.kind {
                macros.push(format!("#{:?}", k));
            }
        }
        // desugarings do not show in macro_backtrace
        let d = sp.ctxt().outer_expn_data();
        if let rustc_span::ExpnKind::Desugaring(k) = d.kind {
            let s = format!("#{:?}", k);
            if !macros.contains(&s) {
                macros.push(s);
            }
        }
        if macros.is_empty() {
            format!("[{},{}]", js(&file), loc.line)
        } else {
            let m: Vec<String> = macros.iter().map(|m| js(m)).collect();
            format!("[{},{},{}]", js(&file), loc.line, arr(&m))
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out: Vec<String> = Vec::new();
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push("[\"d\"]".into()),
                ProjectionElem::Field(f, fty) => {
                    let mut name = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let v = match pt.variant_index {
                            Some(v) => Some(v),
                            None if !def.is_enum() => Some(rustc_abi::FIRST_VARIANT),
                            None => None,
                        };
                        if let Some(v) = v {
                            name = def.variant(v).fields[f].name.to_string();
                        }
                    }
                    let ti = self.ty(fty);
                    out.push(format!("[\"f\",{},{},{}]", f.index(), js(&name), ti));
                },
                ProjectionElem::Index(l) => out.push(format!("[\"i\",{}]", l.index())),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    out.push(format!("[\"c\",{offset},{min_length},{from_end}]"))
                },
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(format!("[\"s\",{from},{to},{from_end}]"))
                },
                ProjectionElem::Downcast(name, v) => out.push(format!(
                    "[\"v\",{},{}]",
                    v.index(),
                    js(&name.map(|n| n.to_string()).unwrap_or_default())
                )),
                _ => out.push("[\"o\"]".into()),
            }
            pt = pt.projection_ty(tcx, e);
        }
        let ti = self.ty(pt.ty);
        format!("[{},{},{}]", p.local.index(), arr(&out), ti)
    }

    fn scalar_int_json(&mut self, bits: u128, t: Ty<'tcx>, size: rustc_abi::Size) -> String {
        match *t.kind() {
            ty::Int(_) => {
                let v = size.sign_extend(bits);
                format!("{{\"i\":\"{}\"}}", v)
            },
            ty::Bool => format!("{{\"i\":\"{}\",\"b\":1}}", bits),
            ty::Char => format!("{{\"i\":\"{}\",\"ch\":1}}", bits),
            ty::Float(_) => {
                if size.bytes() == 8 {
                    format!("{{\"fl\":{}}}", js(&f64::from_bits(bits as u64).to_string()))
                } else if size.bytes() == 4 {
                    format!("{{\"fl\":{}}}", js(&f32::from_bits(bits as u32).to_string()))
                } else {
                    "{\"x\":\"float\"}".into()
                }
            },
            _ => format!("{{\"i\":\"{}\"}}", bits),
        }
    }

    fn valtree(&mut self, v: ty::Value<'tcx>) -> String {
        if let Some(l) = v.try_to_leaf() {
            let sz = l.size();
            let bits = l.to_bits(sz);
            return self.scalar_int_json(bits, v.ty, sz);
        }
        format!("{{\"x\":{}}}", js(&with_no_trimmed_paths!(format!("{:?}", v))))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"x\":\"deep\"}".into();
        }
        if let ConstValue::Scalar(Scalar::Int(i)) = v {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                let sz = i.size();
                return self.scalar_int_json(i.to_bits(sz), t, sz);
            }
        }
        match *t.kind() {
            ty::FnDef(d, args) => {
                let _ = args;
                return format!("{{\"fn\":{}}}", js(&self.path(d)));
            },
            ty::Closure(d, _) => return format!("{{\"closure\":{}}}", js(&self.path(d))),
            ty::Ref(_, inner, _) => {
                match *inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"s\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                    },
                    ty::Slice(e) if e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let a: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"by\":{}}}", arr(&a));
                        }
                    },
                    ty::Slice(e) => {
                        // (alloc_id, offset, len)
                        let r = match v {
                            ConstValue::Slice { alloc_id, meta } => {
                                Some((alloc_id, rustc_abi::Size::ZERO, meta))
                            },
                            ConstValue::Indirect { alloc_id, offset } => {
                                self.read_wide(alloc_id, offset)
                            },
                            _ => None,
                        };
                        if let Some((a, off, len)) = r {
                            let at = Ty::new_array(tcx, e, len);
                            let iv = ConstValue::Indirect { alloc_id: a, offset: off };
                            let s = self.cval(iv, at, depth + 1);
                            return format!("{{\"ref\":{s}}}");
                        }
                    },
                    _ => {
                        let target = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                                let (prov, off) = p.prov_and_relative_offset();
                                Some((prov.alloc_id(), off))
                            },
                            ConstValue::Indirect { alloc_id, offset } => {
                                self.read_thin(alloc_id, offset)
                            },
                            _ => None,
                        };
                        if let Some((a, off)) = target {
                            match tcx.global_alloc(a) {
                                GlobalAlloc::Memory(_) => {
                                    let sized = inner.is_sized(
                                        tcx,
                                        ty::TypingEnv::fully_monomorphized(),
                                    );
                                    if sized {
                                        let iv =
                                            ConstValue::Indirect { alloc_id: a, offset: off };
                                        let s = self.cval(iv, inner, depth + 1);
                                        return format!("{{\"ref\":{s}}}");
                                    }
                                },
                                GlobalAlloc::Static(d) => {
                                    return format!("{{\"static\":{}}}", js(&self.path(d)));
                                },
                                GlobalAlloc::Function { instance } => {
                                    return format!(
                                        "{{\"fn\":{}}}",
                                        js(&self.path(instance.def_id()))
                                    );
                                },
                                _ => {},
                            }
                        }
                    },
                }
                return "{\"x\":\"ref\"}".into();
            },
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"fn\":{}}}", js(&self.path(instance.def_id())));
                    }
                }
                return "{\"x\":\"fnptr\"}".into();
            },
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return "{\"x\":\"union\"}".into();
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                    let fs: Vec<String> =
                        fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    match t.kind() {
                        ty::Adt(def, _) => {
                            let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let var = def.variant(vi);
                            let names: Vec<String> =
                                var.fields.iter().map(|f| js(f.name.as_str())).collect();
                            return format!(
                                "{{\"adt\":{},\"v\":{},\"vn\":{},\"fs\":{},\"fn_\":{}}}",
                                js(&self.path(def.did())),
                                vi.index(),
                                js(var.name.as_str()),
                                arr(&fs),
                                arr(&names)
                            );
                        },
                        ty::Tuple(..) => return format!("{{\"tup\":{}}}", arr(&fs)),
                        _ => return format!("{{\"arr\":{}}}", arr(&fs)),
                    }
                }
            },
            _ => {},
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Ok(l) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)) {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let r = interpret::alloc_range(offset, l.size);
                        if let Ok(Scalar::Int(i)) = a.inner().read_scalar(&tcx, r, false) {
                            return self.scalar_int_json(i.to_bits(l.size), t, l.size);
                        }
                    }
                }
            }
        }
        if matches!(v, ConstValue::ZeroSized) {
            return "{\"zst\":1}".into();
        }
        "{\"x\":\"?\"}".into()
    }

    fn read_thin(
        &self,
        a: interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(interpret::AllocId, rustc_abi::Size)> {
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) else { return None };
        let ps = rustc_abi::Size::from_bytes(8);
        let r = interpret::alloc_range(off, ps);
        if let Ok(Scalar::Ptr(p, _)) = m.inner().read_scalar(&self.tcx, r, true) {
            let (prov, o) = p.prov_and_relative_offset();
            return Some((prov.alloc_id(), o));
        }
        None
    }

    fn read_wide(
        &self,
        a: interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(interpret::AllocId, rustc_abi::Size, u64)> {
        let (pa, po) = self.read_thin(a, off)?;
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) else { return None };
        let ps = rustc_abi::Size::from_bytes(8);
        let r = interpret::alloc_range(off + ps, ps);
        if let Ok(Scalar::Int(i)) = m.inner().read_scalar(&self.tcx, r, false) {
            return Some((pa, po, i.to_bits(ps) as u64));
        }
        None
    }

    fn konst(&mut self, body_env: ty::TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut item = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                let _ = write!(item, ",\"item\":{}", js(&self.path(u.def)));
            }
        }
        let v = match *t.kind() {
            ty::FnDef(d, args) => self.callee(body_env, d, args.skip_binder()),
            _ => {
                match c {
                    Const::Ty(_, ct) => match ct.kind() {
                        ty::ConstKind::Value(v) => self.valtree(v),
                        ty::ConstKind::Param(p) => format!("{{\"cparam\":{}}}", js(p.name.as_str())),
                        _ => "{\"x\":\"tyconst\"}".into(),
                    },
                    Const::Val(v, _) => self.cval(*v, t, 0),
                    Const::Unevaluated(u, _) => {
                        use rustc_middle::ty::TypeVisitableExt;
                        if u.args.has_non_region_param() {
                            if let Some(p) = u.promoted {
                                format!("{{\"promoted\":{}}}", p.index())
                            } else {
                                "{\"x\":\"generic\"}".into()
                            }
                        } else {
                            let promo = u
                                .promoted
                                .map(|p| format!(",\"promoted\":{}", p.index()))
                                .unwrap_or_default();
                            match c.eval(tcx, body_env, sp) {
                                Ok(v) => {
                                    let s = self.cval(v, t, 0);
                                    if promo.is_empty() {
                                        s
                                    } else {
                                        format!("{}{}}}", &s[..s.len() - 1], promo)
                                    }
                                },
                                Err(_) => "{\"x\":\"eval\"}".into(),
                            }
                        }
                    },
                }
            },
        };
        format!("[\"k\",{ti},{v}{}]", if item.is_empty() { String::new() } else { format!(",{{{}}}", &item[1..]) })
    }

    fn callee(
        &mut self,
        env: ty::TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"fn\":{}", js(&self.path(d)));
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"ga\":{}", arr(&a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", js(&self.path(tr)));
        }
        let _ = write!(s, ",\"name\":{}", js(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ty::Instance::try_resolve(tcx, env, d, args)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            if rd != d {
                let _ = write!(s, ",\"res\":{}", js(&self.path(rd)));
                let a: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(s, ",\"rga\":{}", arr(&a));
            }
            if let ty::InstanceKind::Virtual(..) = inst.def {
                s.push_str(",\"virt\":1");
            }
        } else if tcx.trait_of_assoc(d).is_some() {
            s.push_str(",\"unres\":1");
        }
        if let Some(_) = tcx.intrinsic(d) {
            s.push_str(",\"intr\":1");
        }
        s.push('}');
        s
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, &c.const_, c.span),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let l =
                    n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, env, o), l)
            },
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            },
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(body, env, o), ti)
            },
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(body, env, &b.0),
                self.operand(body, env, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(body, env, o))
            },
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kd = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(d);
                        let var = def.variant(v);
                        let names: Vec<String> = match af {
                            Some(f) => vec![js(var.fields[f].name.as_str())],
                            None => var.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            js(&self.path(d)),
                            v.index(),
                            js(var.name.as_str()),
                            arr(&names)
                        )
                    },
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.path(d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kd, arr(&os))
            },
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = if tcx.is_typeck_child(did) || tcx.def_kind(did).is_fn_like() {
            ty::TypingEnv::post_analysis(tcx, did)
        } else {
            ty::TypingEnv::post_analysis(tcx, did)
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut vars: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                } else {
                    let ps = self.place(body, p);
                    vars.push(format!("[{},{}]", js(v.name.as_str()), ps));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let ti = self.ty(d.ty);
            match names.get(&l.index()) {
                Some(n) => locals.push(format!("[{},{}]", ti, js(n))),
                None => locals.push(format!("[{}]", ti)),
            }
        }
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[{},{},{}]", p, r, sp));
                    },
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[{},[\"setdiscr\",{}],{}]", p, variant_index.index(), sp));
                    },
                    _ => {},
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, env, discr);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index())).collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(&ts), targets.otherwise().index(), sp)
                },
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    format!("[\"drop\",{},{}]", p, target.index())
                },
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let d = self.place(body, destination);
                    let tg = target.map(|b| b.index().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(&a), d, tg, sp)
                },
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(body, env, len),
                            self.operand(body, env, index)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]",
                            js(&format!("{:?}", op)),
                            self.operand(body, env, a),
                            self.operand(body, env, b)
                        ),
                        AssertKind::OverflowNeg(a) => {
                            format!("[\"neg\",{}]", self.operand(body, env, a))
                        },
                        AssertKind::DivisionByZero(a) => {
                            format!("[\"div0\",{}]", self.operand(body, env, a))
                        },
                        AssertKind::RemainderByZero(a) => {
                            format!("[\"rem0\",{}]", self.operand(body, env, a))
                        },
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, m, target.index(), sp)
                },
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                },
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                },
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"c\":{}}}",
                arr(&st),
                term,
                if data.is_cleanup { 1 } else { 0 }
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"vars\":{},\"blocks\":{}",
            body.arg_count,
            arr(&locals),
            arr(&vars),
            arr(&blocks)
        )
    }

    fn dump(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns: Vec<String> = Vec::new();
        let mut consts: Vec<String> = Vec::new();
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let path = self.path(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    let bs = self.body(did, b);
                    let sp = self.span(tcx.def_span(did));
                    let vis = if kind == DefKind::Closure {
                        false
                    } else {
                        tcx.effective_visibilities(()).is_reachable(ld)
                    };
                    let mut extra = String::new();
                    if kind == DefKind::AssocFn {
                        if let Some(im) = tcx.impl_of_assoc(did) {
                            let st = tcx.type_of(im).skip_binder();
                            let sti = self.ty(st);
                            let _ = write!(extra, ",\"self\":{}", sti);
                            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                                let _ = write!(extra, ",\"trait\":{}", js(&self.path(tr)));
                            }
                        } else if let Some(tr) = tcx.trait_of_assoc(did) {
                            let _ = write!(extra, ",\"deftrait\":{}", js(&self.path(tr)));
                        }
                    }
                    let name =
                        tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or("{closure}".into());
                    let mut promoted = Vec::new();
                    for p in tcx.promoted_mir(did).iter() {
                        let s = self.body(did, p);
                        promoted.push(format!("{{{s}}}"));
                    }
                    let parent = self.path(tcx.parent(did));
                    let unsafety = if kind == DefKind::Closure {
                        false
                    } else {
                        tcx.fn_sig(did).skip_binder().safety().is_unsafe()
                    };
                    fns.push(format!(
                        "{{\"id\":{},\"kind\":\"{:?}\",\"name\":{},\"parent\":{},\"span\":{},\"reach\":{},\"unsafe\":{}{},{},\"promoted\":{}}}",
                        js(&path), kind, js(&name), js(&parent), sp, vis, unsafety, extra, bs, arr(&promoted)
                    ));
                },
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    use rustc_middle::ty::TypeVisitableExt;
                    let t = tcx.type_of(did).skip_binder();
                    let ti = self.ty(t);
                    let sp = self.span(tcx.def_span(did));
                    let generic = tcx.generics_of(did).requires_monomorphization(tcx)
                        || t.has_non_region_param();
                    let val = if generic {
                        "null".to_string()
                    } else if matches!(kind, DefKind::Static { .. }) {
                        match tcx.eval_static_initializer(did) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                self.cval(
                                    ConstValue::Indirect {
                                        alloc_id: id,
                                        offset: rustc_abi::Size::ZERO,
                                    },
                                    t,
                                    0,
                                )
                            },
                            Err(_) => "null".into(),
                        }
                    } else {
                        match tcx.const_eval_poly(did) {
                            Ok(v) => self.cval(v, t, 0),
                            Err(_) => "null".into(),
                        }
                    };
                    let mut extra = String::new();
                    if let Some(im) = tcx.impl_of_assoc(did) {
                        let st = tcx.type_of(im).skip_binder();
                        let sti = self.ty(st);
                        let _ = write!(extra, ",\"self\":{}", sti);
                        if let Some(tr) = tcx.impl_opt_trait_id(im) {
                            let _ = write!(extra, ",\"trait\":{}", js(&self.path(tr)));
                        }
                    }
                    let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
                    consts.push(format!(
                        "{{\"id\":{},\"name\":{},\"ty\":{},\"span\":{},\"val\":{}{}}}",
                        js(&path), js(&name), ti, sp, val, extra
                    ));
                },
                _ => {},
            }
        }
        // ADTs + impls
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(did);
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).skip_binder();
                            let fi = self.ty(ft);
                            fs.push(format!(
                                "[{},{},{}]",
                                js(f.name.as_str()),
                                fi,
                                f.vis.is_public()
                            ));
                        }
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            js(v.name.as_str()),
                            js(&discr),
                            arr(&fs)
                        ));
                    }
                    let sp = self.span(tcx.def_span(did));
                    let t = tcx.type_of(did).skip_binder();
                    let ti = self.ty(t);
                    let vis = tcx.effective_visibilities(()).is_reachable(id);
                    adts.push(format!(
                        "{{\"id\":{},\"enum\":{},\"vs\":{},\"span\":{},\"ty\":{},\"reach\":{}}}",
                        js(&self.path(did)),
                        def.is_enum(),
                        arr(&vs),
                        sp,
                        ti,
                        vis
                    ));
                },
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).skip_binder();
                    let sti = self.ty(st);
                    let tr = if of_trait {
                        tcx.impl_opt_trait_id(did).map(|t| js(&self.path(t))).unwrap_or("null".into())
                    } else {
                        "null".into()
                    };
                    let mut ms = Vec::new();
                    for it in tcx.associated_items(did).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                            ms.push(format!(
                                "[{},{}]",
                                js(it.name().as_str()),
                                js(&self.path(it.def_id))
                            ));
                        }
                    }
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"m\":{}}}", sti, tr, arr(&ms)));
                },
                _ => {},
            }
        }
        format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"consts\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n],\"tys\":[\n{}\n]}}",
            js(&self.krate),
            fns.join(",\n"),
            consts.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            self.ty_out.join(",\n")
        )
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(dir) = &self.out {
            let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let mut cx = Cx { tcx, krate: krate.clone(), tys: HashMap::new(), ty_out: Vec::new() };
            let s = cx.dump();
            std::fs::write(format!("{dir}/{krate}.json"), s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("FACTS_CRATES").unwrap_or_default();
    let out = if want.split(',').any(|w| w == name) { std::env::var("FACTS_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("--cap-lints=allow".into());
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
