// MIR dumper: runs as RUSTC_WORKSPACE_WRAPPER.  For the library crate `poreader` it writes, as JSON, the monomorphic
// MIR of every function of the crate (and of the small generic functions of `core` it calls), with resolved callees,
// evaluated constants and the types involved.  Every other crate is handed to the real rustc.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_index;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_data_structures::steal::Steal;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::OnceLock;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(out, "{}", n);
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) };
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: BTreeMap<String, J>,
    instances: BTreeMap<String, J>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashSet<Instance<'tcx>>,
    keys: HashMap<String, Instance<'tcx>>,
}

const MAX_DEPTH: usize = 7;

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    // the canonical path (where the item is defined, not where it is re-exported)
    fn cpath(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: &Instance<'tcx>, v: T) -> T {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, v))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let key = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)));
        if self.types.contains_key(&key) {
            return key;
        }
        self.types.insert(key.clone(), J::Null);
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => obj! {"k": s("bool")},
            ty::Char => obj! {"k": s("char")},
            ty::Int(i) => obj! {"k": s("int"), "bits": n(i.bit_width().unwrap_or(64) as usize)},
            ty::Uint(i) => obj! {"k": s("uint"), "bits": n(i.bit_width().unwrap_or(64) as usize)},
            ty::Float(_) => obj! {"k": s("float")},
            ty::Str => obj! {"k": s("str")},
            ty::Never => obj! {"k": s("never")},
            ty::Ref(_, x, m) => {
                let x = self.ty(x);
                obj! {"k": s("ref"), "mut": J::B(m.is_mut()), "t": s(x)}
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(x);
                obj! {"k": s("ptr"), "mut": J::B(m.is_mut()), "t": s(x)}
            }
            ty::Array(x, len) => {
                let x = self.ty(x);
                let l = len.try_to_target_usize(tcx);
                obj! {"k": s("array"), "t": s(x), "len": l.map_or(J::Null, |v| n(v as usize))}
            }
            ty::Slice(x) => {
                let x = self.ty(x);
                obj! {"k": s("slice"), "t": s(x)}
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| s(self.ty(x))).collect();
                obj! {"k": s("tuple"), "ts": J::A(v)}
            }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let path = self.cpath(def.did());
                let local = def.did().is_local();
                let descend = local
                    || ["core::option::", "core::result::", "core::ops::", "std::option::", "std::result::", "std::ops::", "core::cmp::", "std::cmp::"]
                        .iter()
                        .any(|p| path.starts_with(p));
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fty = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(fty)).unwrap_or(fty);
                        let tk = if descend {
                            self.ty(fty)
                        } else {
                            with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", fty)))
                        };
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(m) => format!("in {}", self.path(m.to_def_id())),
                        };
                        fs.push(obj! {"name": s(f.name.to_string()), "t": s(tk), "vis": s(vis)});
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    vs.push(obj! {"name": s(v.name.to_string()), "discr": J::N(discr), "fields": J::A(fs)});
                }
                let targs = args
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|x| s(self.ty(x)))
                    .collect();
                let freeze = !t.has_escaping_bound_vars() && t.is_freeze(tcx, self.env);
                obj! {
                    "k": s("adt"), "path": s(path), "kind": s(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}),
                    "box": J::B(def.is_box()), "local": J::B(local), "args": J::A(targs), "variants": J::A(vs), "freeze": J::B(freeze),
                }
            }
            ty::Closure(did, args) => {
                let ups: Vec<Ty> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|x| s(self.ty(x))).collect();
                let inst = Instance::new_raw(did, args);
                let key = self.inst(inst, 0);
                let kind = format!("{:?}", args.as_closure().kind());
                obj! {"k": s("closure"), "inst": s(key), "upvars": J::A(v), "kind": s(kind), "local": J::B(did.is_local())}
            }
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(did, args, 1);
                obj! {"k": s("fndef"), "fn": c}
            }
            ty::FnPtr(..) => obj! {"k": s("fnptr")},
            ty::Dynamic(..) => obj! {"k": s("dyn")},
            ty::Param(_) => obj! {"k": s("param")},
            _ => obj! {"k": s("other")},
        };
        self.types.insert(key.clone(), j);
        key
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let d = i.def_id();
        let mut p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, i.args)));
        if self.tcx.is_closure_like(d) {
            // the path of a closure does not tell its generic arguments
            p = format!("{}<{:?}>", p, i.args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).collect::<Vec<_>>());
        }
        match i.def {
            InstanceKind::Item(_) => p,
            InstanceKind::Intrinsic(_) => format!("intrinsic {}", p),
            InstanceKind::Virtual(..) => format!("virtual {}", p),
            other => format!("shim({:?}) {}", other, p),
        }
    }

    fn want_body(&self, i: &Instance<'tcx>, depth: usize) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return !tcx.is_foreign_item(d) && tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..));
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) || depth > MAX_DEPTH || !tcx.is_mir_available(d) {
                    return false;
                }
                let p = self.cpath(d);
                let p = p.trim_start_matches('<');
                let k = tcx.crate_name(d.krate).to_string();
                if k != "core" && k != "alloc" && k != "std" {
                    return false;
                }
                ["option", "result", "iter", "ops", "cmp", "convert", "bool", "mem", "default", "tuple", "borrow", "clone"].iter().any(|m| {
                    p.contains(&format!("core::{}::", m))
                }) && !i.args.has_param()
            }
            InstanceKind::Shim(sk) => matches!(sk, ty::ShimKind::ClosureOnce { .. }),
            _ => false,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>, depth: usize) -> String {
        let key = self.inst_key(&i);
        if self.want_body(&i, depth) && self.seen.insert(i) {
            self.keys.insert(key.clone(), i);
            self.queue.push_back((i, depth));
        }
        key
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let decl = self.cpath(did);
        let vpath = self.path(did);
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|x| s(self.ty(x))).collect();
        let trait_ = tcx.trait_of_assoc(did).map(|t| self.cpath(t));
        let mut kvs = vec![
            ("decl".to_string(), s(decl)),
            ("vis".to_string(), s(vpath)),
            ("name".to_string(), s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("args".to_string(), J::A(targs)),
            ("crate".to_string(), s(tcx.crate_name(did.krate).to_string())),
        ];
        if let Some(t) = trait_ {
            kvs.push(("trait".to_string(), s(t)));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
            let parent = tcx.parent(did);
            let (adt, vi) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, 0),
                rustc_hir::def::CtorOf::Variant => {
                    let e = tcx.parent(parent);
                    (e, tcx.adt_def(e).variant_index_with_ctor_id(did).as_usize())
                }
            };
            let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let out = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(tcx.erase_and_anonymize_regions(sig.output()))).unwrap();
            let t = self.ty(out);
            kvs.push(("ctor".to_string(), obj! {"adt": s(self.cpath(adt)), "variant": n(vi), "t": s(t)}));
            return J::O(kvs);
        }
        if args.has_param() {
            return J::O(kvs);
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(i)) => {
                let rp = self.cpath(i.def_id());
                let kind = match i.def {
                    InstanceKind::Item(_) => "item".to_string(),
                    InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                    InstanceKind::Virtual(..) => "virtual".to_string(),
                    InstanceKind::Shim(ref sk) => format!("shim {}", format!("{:?}", sk).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
                    _ => "other".to_string(),
                };
                let key = self.inst(i, depth + if i.def_id().is_local() { 0 } else { 1 });
                kvs.push(("res".to_string(), s(key)));
                kvs.push(("rpath".to_string(), s(rp)));
                kvs.push(("kind".to_string(), s(kind)));
                kvs.push(("local".to_string(), J::B(i.def_id().is_local())));
            }
            _ => (),
        }
        J::O(kvs)
    }

    fn alloc_bytes(&self, alloc_id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let op = |m: &str| obj! {"op": s(m)};
        if depth > 12 {
            return op("deep");
        }
        match *t.kind() {
            ty::FnDef(did, args) => return obj! {"fn": self.callee(did, args.no_bound_vars().unwrap(), 1)},
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match *inner.kind() {
                    ty::Str => {
                        return match v.try_get_slice_bytes_for_diagnostics(tcx) {
                            Some(b) => obj! {"s": s(String::from_utf8_lossy(b).into_owned())},
                            None => op("str"),
                        };
                    }
                    ty::Slice(e) if e == tcx.types.u8 => {
                        return match v.try_get_slice_bytes_for_diagnostics(tcx) {
                            Some(b) => obj! {"b": J::A(b.iter().map(|x| n(*x as usize)).collect())},
                            None => op("bytes"),
                        };
                    }
                    ty::Slice(e) => {
                        // element by element
                        let (aid, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            _ => return op("slice"),
                        };
                        let Ok(l) = tcx.layout_of(self.env.as_query_input(e)) else { return op("layout") };
                        let sz = l.size.bytes();
                        let mut out = vec![];
                        for i in 0..len.min(4096) {
                            let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + i * sz) };
                            let cv = self.load_scalar(cv, e);
                            out.push(self.val(cv, e, depth + 1));
                        }
                        return obj! {"ref": obj!{"a": J::A(out)}};
                    }
                    ty::Dynamic(..) => return op("dyn"),
                    _ => (),
                }
                let v = self.load_scalar(v, t);
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => {
                            return obj! {"static": s(self.cpath(d)), "mut": J::B(tcx.is_mutable_static(d)), "local": J::B(d.is_local())};
                        }
                        GlobalAlloc::Memory(_) => {
                            let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let cv = self.load_scalar(cv, inner);
                            let x = self.val(cv, inner, depth + 1);
                            return obj! {"ref": x};
                        }
                        _ => return op("ptr"),
                    }
                }
                return op("ref");
            }
            ty::Array(e, len) if e == tcx.types.u8 => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(l)) = (v, len.try_to_target_usize(tcx)) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes() as usize, l as usize) {
                        return obj! {"b": J::A(b.iter().map(|x| n(*x as usize)).collect())};
                    }
                }
            }
            _ => (),
        }
        let v = self.load_scalar(v, t);
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => {
                return match v.try_to_scalar_int() {
                    Some(i) => obj! {"i": s(format!("{}", i.to_bits_unchecked()))},
                    None => op("int"),
                }
            }
            ty::Int(_) => {
                return match v.try_to_scalar_int() {
                    Some(i) => obj! {"i": s(format!("{}", i.to_int(i.size())))},
                    None => op("int"),
                }
            }
            ty::Float(_) | ty::FnPtr(..) => return op("scalar"),
            ty::Closure(..) => {
                let k = self.ty(t);
                return if matches!(v, ConstValue::ZeroSized) { obj! {"z": J::B(true), "t": s(k)} } else { op("closure") };
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let k = self.ty(t);
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.val(*fv, *ft, depth + 1));
                    }
                    return match t.kind() {
                        ty::Array(..) => obj! {"a": J::A(fs)},
                        _ => obj! {"v": n(d.variant.map_or(0, |x| x.as_usize())), "f": J::A(fs), "t": s(k)},
                    };
                }
                if matches!(v, ConstValue::ZeroSized) {
                    return obj! {"z": J::B(true), "t": s(k)};
                }
                return op("adt");
            }
            _ => (),
        }
        if matches!(v, ConstValue::ZeroSized) {
            return obj! {"z": J::B(true)};
        }
        op("const")
    }

    // Indirect scalars are read from their allocation
    fn load_scalar(&self, v: ConstValue, t: Ty<'tcx>) -> ConstValue {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let scalar = match t.kind() {
                ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::FnPtr(..) => true,
                ty::Ref(_, x, _) | ty::RawPtr(x, _) => x.is_sized(tcx, self.env),
                _ => false,
            };
            if scalar {
                if let (GlobalAlloc::Memory(a), Ok(l)) = (tcx.global_alloc(alloc_id), tcx.layout_of(self.env.as_query_input(t))) {
                    let prov = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                    if let Ok(sc) = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, l.size), prov) {
                        return ConstValue::Scalar(sc);
                    }
                }
            }
        }
        v
    }

    fn place(&mut self, p: mir::Place<'tcx>) -> J {
        let mut out = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            out.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    obj! {"f": n(f.as_usize()), "t": s(t)}
                }
                mir::ProjectionElem::Index(l) => obj! {"ix": n(l.as_usize())},
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    obj! {"cx": n(offset as usize), "end": J::B(from_end), "min": n(min_length as usize)}
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"sub": n(from as usize), "to": n(to as usize), "end": J::B(from_end)}
                }
                mir::ProjectionElem::Downcast(_, v) => obj! {"v": n(v.as_usize())},
                other => obj! {"op": s(format!("{:?}", other))},
            });
        }
        J::A(out)
    }

    fn operand(&mut self, inst: &Instance<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let p = self.place(*p);
                obj! {"c": p}
            }
            mir::Operand::Move(p) => {
                let p = self.place(*p);
                obj! {"m": p}
            }
            mir::Operand::Constant(c) => {
                let k = c.const_;
                let t = k.ty();
                let tk = self.ty(t);
                let mut kvs = vec![("t".to_string(), s(tk))];
                let v = match k.eval(self.tcx, self.env, DUMMY_SP) {
                    Ok(v) => self.val(v, t, 0),
                    Err(_) => obj! {"op": s("eval")},
                };
                let _ = inst;
                kvs.push(("k".to_string(), v));
                if let mir::Const::Unevaluated(u, _) = k {
                    if u.promoted.is_none() {
                        kvs.push(("name".to_string(), s(self.cpath(u.def))));
                    }
                }
                J::O(kvs)
            }
            #[allow(unreachable_patterns)]
            other => obj! {"rt": s(format!("{:?}", other))},
        }
    }

    fn rvalue(&mut self, inst: &Instance<'tcx>, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        match r {
            mir::Rvalue::Use(o, ..) => obj! {"r": s("use"), "o": self.operand(inst, o)},
            mir::Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                obj! {"r": s("repeat"), "o": self.operand(inst, o), "len": l.map_or(J::Null, |x| n(x as usize))}
            }
            mir::Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                obj! {"r": s("ref"), "mut": J::B(m), "p": self.place(*p)}
            }
            mir::Rvalue::ThreadLocalRef(d) => obj! {"r": s("tls"), "static": s(self.cpath(*d))},
            mir::Rvalue::RawPtr(_, p) => obj! {"r": s("raw"), "p": self.place(*p)},
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let ft = self.ty(from);
                let tt = self.ty(*t);
                obj! {"r": s("cast"), "k": s(format!("{:?}", k)), "o": self.operand(inst, o), "from": s(ft), "t": s(tt)}
            }
            mir::Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                let tk = self.ty(t);
                obj! {"r": s("bin"), "op": s(format!("{:?}", op)), "a": self.operand(inst, &b.0), "b": self.operand(inst, &b.1), "t": s(tk)}
            }
            mir::Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                let tk = self.ty(t);
                obj! {"r": s("un"), "op": s(format!("{:?}", op)), "o": self.operand(inst, o), "t": s(tk)}
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let tk = self.ty(t);
                obj! {"r": s("disc"), "p": self.place(*p), "t": s(tk)}
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(inst, o)).collect();
                let t = r.ty(body, self.tcx);
                let tk = self.ty(t);
                let (kk, vi) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                obj! {"r": s("agg"), "k": s(kk), "v": n(vi), "t": s(tk), "ops": J::A(os)}
            }
            mir::Rvalue::CopyForDeref(p) => obj! {"r": s("use"), "o": obj!{"c": self.place(*p)}},
            mir::Rvalue::Reborrow(_, m, p) => {
                obj! {"r": s("ref"), "mut": J::B(m.is_mut()), "p": self.place(*p)}
            }
            other => obj! {"r": s("op"), "d": s(format!("{:?}", other))},
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, key: &str, depth: usize) {
        let tcx = self.tcx;
        let early = match inst.def {
            InstanceKind::Item(d) => kept(d),
            _ => None,
        };
        let is_early = early.is_some();
        let b = early.unwrap_or_else(|| tcx.instance_mir(inst.def).clone());
        let body: mir::Body<'tcx> = self.norm(&inst, b);
        let local = inst.def_id().is_local();
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(s(t));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            for st in bb.statements.iter() {
                match &st.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(a.0);
                        let r = self.rvalue(&inst, &body, &a.1);
                        sts.push(J::A(vec![p, r, self.span(st.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place);
                        sts.push(J::A(vec![p, obj! {"r": s("setdisc"), "v": n(variant_index.as_usize())}, J::Null]));
                    }
                    _ => (),
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => obj! {"k": s("goto"), "t": n(target.as_usize())},
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let tk = self.ty(dt);
                    let vs = targets
                        .iter()
                        .map(|(v, t)| {
                            let val = match dt.kind() {
                                ty::Int(i) => {
                                    let bits = i.bit_width().unwrap_or(64);
                                    if bits >= 128 {
                                        v as i128
                                    } else {
                                        let sh = 128 - bits;
                                        ((v as i128) << sh) >> sh
                                    }
                                }
                                _ => v as i128,
                            };
                            J::A(vec![s(format!("{}", val)), n(t.as_usize())])
                        })
                        .collect();
                    let d = self.operand(&inst, discr);
                    obj! {"k": s("switch"), "d": d, "ty": s(tk), "ts": J::A(vs), "o": n(targets.otherwise().as_usize())}
                }
                mir::TerminatorKind::Return => obj! {"k": s("return")},
                mir::TerminatorKind::Unreachable => obj! {"k": s("unreachable")},
                mir::TerminatorKind::Drop { target, place, .. } => {
                    let pt = place.ty(&body, tcx).ty;
                    let tk = self.ty(pt);
                    obj! {"k": s("goto"), "t": n(target.as_usize()), "drop": s(tk), "p": self.place(*place)}
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        mir::Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(did, ga) => self.callee(did, ga.no_bound_vars().unwrap(), depth),
                            _ => obj! {"ind": self.operand(&inst, func)},
                        },
                        _ => obj! {"ind": self.operand(&inst, func)},
                    };
                    let a = args.iter().map(|x| self.operand(&inst, &x.node)).collect();
                    let at = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body, tcx);
                            s(self.ty(t))
                        })
                        .collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let dtk = self.ty(dt);
                    obj! {
                        "k": s("call"), "f": f, "a": J::A(a), "at": J::A(at), "d": self.place(*destination), "dt": s(dtk),
                        "t": target.map_or(J::Null, |t| n(t.as_usize())),
                    }
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut ops = vec![];
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ops.push(self.operand(&inst, len));
                            ops.push(self.operand(&inst, index));
                            "bounds".to_string()
                        }
                        mir::AssertKind::Overflow(op, a, b) => {
                            ops.push(self.operand(&inst, a));
                            ops.push(self.operand(&inst, b));
                            format!("overflow {:?}", op)
                        }
                        mir::AssertKind::OverflowNeg(a) => {
                            ops.push(self.operand(&inst, a));
                            "overflow Neg".to_string()
                        }
                        mir::AssertKind::DivisionByZero(a) => {
                            ops.push(self.operand(&inst, a));
                            "div0".to_string()
                        }
                        mir::AssertKind::RemainderByZero(a) => {
                            ops.push(self.operand(&inst, a));
                            "rem0".to_string()
                        }
                        other => format!("{:?}", other),
                    };
                    let c = self.operand(&inst, cond);
                    obj! {"k": s("assert"), "c": c, "e": J::B(*expected), "m": s(kind), "ops": J::A(ops), "t": n(target.as_usize())}
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } | mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    obj! {"k": s("goto"), "t": n(real_target.as_usize())}
                }
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => obj! {"k": s("unwind")},
                other => obj! {"k": s("other"), "d": s(format!("{:?}", other))},
            };
            blocks.push(obj! {"s": J::A(sts), "t": t, "sp": sp, "cl": J::B(bb.is_cleanup)});
        }
        let spread = body.spread_arg.map_or(J::Null, |l| n(l.as_usize()));
        let def = inst.def_id();
        let kind = format!("{:?}", tcx.def_kind(def));
        let parent = tcx.opt_parent(def).map(|p| self.cpath(p)).unwrap_or_default();
        let trait_ = tcx.trait_of_assoc(def).map(|t| s(self.cpath(t))).unwrap_or(J::Null);
        let j = obj! {
            "path": s(self.cpath(def)), "local": J::B(local), "early": J::B(is_early), "argc": n(body.arg_count), "locals": J::A(locals), "names": J::A(names),
            "blocks": J::A(blocks), "span": self.span(tcx.def_span(def)), "spread": spread, "kind": s(kind), "parent": s(parent), "trait": trait_,
        };
        self.instances.insert(key.to_string(), j);
    }
}

struct Cb {
    out: String,
}

// The MIR before drop elaboration: it is stolen by the later phases, so a copy is kept when it is built
type Promoted<'tcx> = (&'tcx Steal<mir::Body<'tcx>>, &'tcx Steal<IndexVec<mir::Promoted, mir::Body<'tcx>>>);
static ORIG: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> Promoted<'tcx>> = OnceLock::new();

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, mir::Body<'static>>> = RefCell::new(HashMap::new());
}

fn keep_promoted<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> Promoted<'tcx> {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: mir::Body<'tcx> = r.0.borrow().clone();
    // the copy is only used while `tcx` is alive
    let b: mir::Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(d, b));
    r
}

fn kept<'tcx>(d: DefId) -> Option<mir::Body<'tcx>> {
    let l = d.as_local()?;
    BODIES.with(|m| {
        m.borrow().get(&l).map(|b| {
            let b: mir::Body<'static> = b.clone();
            unsafe { std::mem::transmute::<mir::Body<'static>, mir::Body<'tcx>>(b) }
        })
    })
}

// Every type parameter is given one concrete type
fn choose<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, line_iter: Option<DefId>) -> Option<GenericArgsRef<'tcx>> {
    let preds = tcx.clauses_of(def).instantiate_identity(tcx);
    let mut bounds: HashMap<u32, Vec<String>> = HashMap::new();
    for c in preds.clauses.iter() {
        let c = c.clone().skip_norm_wip();
        if let Some(tp) = c.as_trait_clause() {
            let tp = tp.skip_binder();
            if let ty::Param(p) = tp.self_ty().kind() {
                bounds.entry(p.index).or_default().push(with_no_trimmed_paths!(tcx.def_path_str(tp.trait_ref.def_id)));
            }
        }
    }
    let slice_u8 = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, Ty::new_slice(tcx, tcx.types.u8));
    let mut ok = true;
    let args = ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => {
            let b = bounds.get(&p.index).cloned().unwrap_or_default();
            if b.iter().any(|x| x.ends_with("io::Read")) {
                slice_u8.into()
            } else if b.iter().any(|x| x.ends_with("Decoder")) && line_iter.is_some() {
                let li = line_iter.unwrap();
                let la = ty::GenericArgs::for_item(tcx, li, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => slice_u8.into(),
                });
                let lt = Ty::new_adt(tcx, tcx.adt_def(li), la);
                let pk = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IterPeekable"));
                match pk {
                    Some(pk) => Ty::new_adt(tcx, tcx.adt_def(pk), tcx.mk_args(&[lt.into()])).into(),
                    None => {
                        ok = false;
                        tcx.types.unit.into()
                    }
                }
            } else {
                ok = false;
                tcx.types.unit.into()
            }
        }
        ty::GenericParamDefKind::Const { .. } => {
            ok = false;
            tcx.types.unit.into()
        }
    });
    if ok {
        Some(args)
    } else {
        None
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = keep_promoted;
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let mut d = Dumper {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: BTreeMap::new(),
            instances: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            keys: HashMap::new(),
        };
        let mut line_iter = None;
        let mut adts = vec![];
        let mut statics = vec![];
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let p = d.cpath(did);
                    if p.ends_with("LineIter") || p.contains("LineIter<") {
                        line_iter = Some(did);
                    }
                    adts.push(did);
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, d.env);
                    let gen = d.cpath(did);
                    statics.push(obj! {"path": s(gen), "freeze": J::B(fr), "mut": J::B(tcx.is_mutable_static(did)), "t": s(format!("{}", t)), "span": d.span(tcx.def_span(did))});
                }
                _ => (),
            }
        }
        // type facts
        let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"));
        let sync = tcx.lang_items().sync_trait();
        let mut facts = vec![];
        for did in adts.iter().copied() {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let penv = tcx.param_env(did);
            let (infcx, penv2) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::new(penv, ty::TypingMode::PostAnalysis));
            let has = |tr: Option<DefId>| match tr {
                Some(tr) => J::B(infcx.type_implements_trait(tr, [t], penv2).must_apply_modulo_regions()),
                None => J::Null,
            };
            let vis = match tcx.visibility(did) {
                ty::Visibility::Public => "pub".to_string(),
                ty::Visibility::Restricted(m) => format!("in {}", d.path(m.to_def_id())),
            };
            let eff = tcx.effective_visibilities(()).is_exported(did.expect_local());
            let freeze = t.is_freeze(tcx, TypingEnv::new(penv, ty::TypingMode::PostAnalysis));
            let mut vs = vec![];
            for v in tcx.adt_def(did).variants().iter() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let fv = match f.vis {
                        ty::Visibility::Public => "pub".to_string(),
                        ty::Visibility::Restricted(m) => format!("in {}", d.path(m.to_def_id())),
                    };
                    fs.push(obj! {"name": s(f.name.to_string()), "t": s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", ft)))), "vis": s(fv)});
                }
                vs.push(obj! {"name": s(v.name.to_string()), "fields": J::A(fs)});
            }
            facts.push(obj! {
                "path": s(d.cpath(did)), "send": has(send), "sync": has(sync), "freeze": J::B(freeze), "vis": s(vis), "exported": J::B(eff),
                "parts": J::A(parts(tcx, t)),
                "enum": J::B(tcx.adt_def(did).is_enum()), "variants": J::A(vs), "span": d.span(tcx.def_span(did)),
                "t": s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))),
            });
        }
        // functions: signature, visibility, generic or not
        let mut roots = vec![];
        for id in tcx.mir_keys(()).iter() {
            let did = id.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let eff = tcx.effective_visibilities(()).is_exported(*id);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))))).collect();
            let out = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", sig.output())));
            let mut root = J::Null;
            let gens = tcx.generics_of(did);
            let _ = gens;
            if let Some(args) = choose(tcx, did, line_iter) {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, d.env, did, args) {
                    if i.def_id() == did {
                        root = s(d.inst(i, 0));
                    }
                }
            }
            let parent_impl = tcx.opt_parent(did).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. }));
            let (self_ty, tr) = match parent_impl {
                Some(p) => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(p).map(|t| t.instantiate_identity().skip_norm_wip());
                    (
                        s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)))),
                        tr.map_or(J::Null, |t| s(d.cpath(t.def_id))),
                    )
                }
                None => (J::Null, J::Null),
            };
            roots.push(obj! {
                "path": s(d.cpath(did)), "name": s(tcx.item_name(did).to_string()), "exported": J::B(eff), "inputs": J::A(ins), "output": s(out), "root": root,
                "self_ty": self_ty, "trait": tr, "span": d.span(tcx.def_span(did)), "unsafe": J::B(sig.safety().is_unsafe()),
                "derived": J::B(parent_impl.map_or(false, |p| tcx.is_automatically_derived(p))),
            });
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = if of_trait { tcx.impl_opt_trait_ref(did).map(|t| t.instantiate_identity().skip_norm_wip()) } else { None };
                items.push(obj! {
                    "self": s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)))),
                    "trait": tr.map_or(J::Null, |t| s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()))))),
                    "derived": J::B(tcx.is_automatically_derived(did)),
                    "unsafe": J::B(of_trait && tcx.impl_trait_header(did).safety.is_unsafe()),
                    "span": d.span(tcx.def_span(did)),
                });
            }
        }
        while let Some((i, depth)) = d.queue.pop_front() {
            let key = d.inst_key(&i);
            d.body(i, &key, depth);
        }
        let types = J::O(std::mem::take(&mut d.types).into_iter().collect());
        let instances = J::O(std::mem::take(&mut d.instances).into_iter().collect());
        let mut blocks = vec![];
        for id in tcx.hir_body_owners() {
            let mut v = Unsafes { found: vec![] };
            rustc_hir::intravisit::walk_body(&mut v, tcx.hir_body_owned_by(id));
            for sp in v.found {
                blocks.push(obj! {"fn": s(d.cpath(id.to_def_id())), "span": d.span(sp)});
            }
        }
        let j = obj! {"unsafe": J::A(blocks), "types": types, "instances": instances, "adts": J::A(facts), "fns": J::A(roots), "statics": J::A(statics), "impls": J::A(items)};
        let mut out = String::new();
        j.w(&mut out);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, out).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}


struct Unsafes {
    found: Vec<Span>,
}

impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafes {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// What a type is made of, through its fields: cells, references, pointers, trait objects, shared pointers.
fn parts<'tcx>(tcx: TyCtxt<'tcx>, top: Ty<'tcx>) -> Vec<J> {
    const CELLS: &[&str] = &[
        "Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "ReentrantLock", "Once", "OnceLock",
        "LazyLock", "Condvar", "Barrier", "Sender", "Receiver", "SyncSender", "AtomicBool", "AtomicI8", "AtomicI16", "AtomicI32", "AtomicI64",
        "AtomicIsize", "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicUsize", "AtomicPtr", "Atomic", "LocalKey",
    ];
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut todo = vec![(top, String::new())];
    while let Some((t, path)) = todo.pop() {
        if !seen.insert(t) {
            continue;
        }
        let mut say = |what: &str| {
            out.push(obj! {"what": s(what), "at": s(path.clone()), "t": s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))))});
        };
        match t.kind() {
            ty::Adt(a, args) => {
                let krate = tcx.crate_name(a.did().krate).to_string();
                let name = tcx.item_name(a.did()).to_string();
                let std_ = matches!(krate.as_str(), "core" | "alloc" | "std");
                if std_ && CELLS.contains(&name.as_str()) {
                    say("cell");
                    continue;
                }
                if std_ && matches!(name.as_str(), "Rc" | "Arc" | "Weak") {
                    say("shared");
                }
                if std_ || krate == "regex" {
                    for x in args.types() {
                        todo.push((x, format!("{}<>", path)));
                    }
                    continue;
                }
                for v in a.variants() {
                    for f in &v.fields {
                        todo.push((f.ty(tcx, args).skip_norm_wip(), format!("{}.{}", path, f.name)));
                    }
                }
            }
            ty::Ref(r, x, m) => {
                if m.is_mut() {
                    say("mutref");
                } else if r.is_static() {
                    say("static");
                } else {
                    say("borrow");
                }
                todo.push((*x, format!("{}*", path)));
            }
            ty::RawPtr(x, _) => {
                say("pointer");
                todo.push((*x, format!("{}*", path)));
            }
            ty::Dynamic(..) => say("dyn"),
            ty::Param(_) => say("param"),
            ty::Slice(x) | ty::Array(x, _) => todo.push((*x, format!("{}[]", path))),
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    todo.push((x, path.clone()));
                }
            }
            ty::FnPtr(..) => say("fnptr"),
            _ => (),
        }
    }
    out
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: driver, rustc, args...
    args.remove(0);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    let is_test = args.iter().any(|a| a == "--test");
    let out = std::env::var("POVERIF_OUT").unwrap_or_default();
    if name == "poreader" && is_lib && !is_test && !out.is_empty() {
        args.push("-Zmir-opt-level=0".to_string());
        args.push("-Cdebug-assertions=on".to_string());
        args.push("-Coverflow-checks=on".to_string());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
}
