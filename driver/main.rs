// MIR exporter: a rustc driver that writes, as JSON, the monomorphic MIR of
// everything reachable from the `pub fn`s (or `main`) of the crate it is
// injected into, descending into the crates / std modules named in
// $MIRDUMP_DESCEND.  It only runs the type checker and MIR passes.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque, BTreeMap};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{with_no_trimmed_paths};
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, GenericArgsRef};
use rustc_span::Span;

// ---------------------------------------------------------------- JSON
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(BTreeMap<String, J>) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn i<T: TryInto<i128>>(x: T) -> J { match x.try_into() { Ok(v) => J::I(v), Err(_) => J::N } }
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(v) => { let _ = write!(o, "{}", v); }
            J::S(x) => esc(o, x),
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } esc(o, n); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } esc(o, n); o.push(':'); x.w(o); o.push('\n'); } o.push('}'); }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    descend: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<String>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    pending_impl_types: Vec<Ty<'tcx>>,
    impl_types_seen: HashSet<Ty<'tcx>>,
    impls: Vec<J>,
    local_impls: Vec<(DefId, DefId)>, // (trait, impl)
    statics: BTreeMap<String, J>,
    models: HashMap<String, DefId>,
}

impl<'tcx> D<'tcx> {
    fn tys(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{}", t)) }
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), i(loc.line as u64)])
    }
    fn key(&self, inst: &Instance<'tcx>) -> String {
        let args = with_no_trimmed_paths!(format!("{:?}", inst.args));
        let kind = match inst.def {
            InstanceKind::Item(_) => String::new(),
            other => { let k = format!("{:?}", other); k.split('(').next().unwrap_or("").to_string() + "|" }
        };
        format!("{}{}{}", kind, self.path(inst.def_id()), args)
    }
    /// where the discriminant of an enum is: [offset, size, variant stored without tag | -1, first niche variant, last, niche start]
    fn tag(&self, t: Ty<'tcx>) -> J {
        if t.has_param() || t.has_escaping_bound_vars() || t.has_aliases() { return J::N; }
        let tcx = self.tcx;
        let l = match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) { Ok(l) => l, Err(_) => return J::N };
        if let rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
            let mut r = vec![i(l.fields.offset(tag_field.as_usize()).bytes()), i(tag.size(&tcx).bytes())];
            match tag_encoding {
                rustc_abi::TagEncoding::Direct => r.push(i(-1i128)),
                rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let (a, b) = (niche_variants.start.as_usize(), niche_variants.last.as_usize());
                    r.extend([i(untagged_variant.as_usize() as u64), i(a as u64), i(b as u64), i(*niche_start as i128)]);
                }
            }
            J::A(r)
        } else { J::N }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(k) = self.tyidx.get(&t) { return *k; }
        let idx = self.types.len();
        self.types.push(J::N);
        self.tyidx.insert(t, idx);
        let tcx = self.tcx;
        let mut o = vec![("s", s(self.tys(t)))];
        match *t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("args", J::A(args.types().map(|a| i(self.ty(a) as u64)).collect())));
                o.push(("enum", J::B(def.is_enum())));
                if def.is_enum() { o.push(("tag", self.tag(t))); }
                let expose = true;
                if expose && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dv = if def.is_enum() { i(def.discriminant_for_variant(tcx, vi).val) } else { i(0) };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.env, ft);
                            let ti = match ft { Ok(ft) => i(self.ty(ft) as u64), Err(_) => J::N };
                            fs.push(J::A(vec![s(f.name.to_string()), ti]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("d", dv), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
                self.pending_impl_types.push(t);
            }
            ty::Ref(_, inner, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); o.push(("to", i(self.ty(inner) as u64))); }
            ty::RawPtr(inner, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); o.push(("to", i(self.ty(inner) as u64))); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); o.push(("args", J::A(ts.iter().map(|a| i(self.ty(a) as u64)).collect()))); }
            ty::Array(inner, n) => { o.push(("k", s("array"))); o.push(("to", i(self.ty(inner) as u64)));
                o.push(("n", match n.try_to_target_usize(tcx) { Some(v) => i(v), None => J::N })); }
            ty::Slice(inner) => { o.push(("k", s("slice"))); o.push(("to", i(self.ty(inner) as u64))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(d, args);
                let k = self.key(&inst);
                o.push(("key", s(k)));
                o.push(("upvars", J::A(args.as_closure().upvar_tys().iter().map(|a| i(self.ty(a) as u64)).collect())));
                o.push(("args", J::A(vec![])));
                self.enqueue(inst);
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(d))));
                let args = args.skip_binder();
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, tcx.erase_and_anonymize_regions(args)) {
                    let k = self.key(&inst);
                    o.push(("key", s(k)));
                    self.ctor_info(d, &mut o);
                    if self.want(inst.def_id()) { self.enqueue(inst); }
                }
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("trait", s(self.path(p)))); }
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[idx] = J::O(o);
        idx
    }
    fn ctor_info(&mut self, d: DefId, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            match of {
                rustc_hir::def::CtorOf::Struct => { o.push(("ctor", J::A(vec![s(self.path(parent)), i(0), s("")]))); }
                rustc_hir::def::CtorOf::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    let vi = adt.variant_index_with_id(parent);
                    o.push(("ctor", J::A(vec![s(self.path(adt.did())), i(vi.as_u32()), s(adt.variant(vi).name.to_string())])));
                }
            }
        }
    }
    fn want(&self, d: DefId) -> bool {
        let p = self.path(d);
        let cn = self.tcx.crate_name(d.krate).to_string();
        if self.descend.iter().any(|x| *x == format!("crate:{}", cn)) { return true; }
        // std items are printed through visible re-exports (std::...); match both
        let p2 = p.replace("<impl ", "").replace('<', "");
        self.descend.iter().any(|x| p.starts_with(x.as_str()) || p2.starts_with(x.as_str()))
    }
    fn inst2(&self, m: DefId, a: Ty<'tcx>, b: Ty<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        let mut ts = vec![b, a];
        Instance::new_raw(m, ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => ts.pop().unwrap().into(),
        }))
    }
    /// Library functions whose bodies are too low level are replaced by an
    /// equivalent: an overridden iterator consumer by the trait's own default
    /// body, collecting into a Vec by the `model_*` loops of the probe crate.
    fn substitute(&self, d: DefId, args: GenericArgsRef<'tcx>, inst: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if !matches!(inst.def, InstanceKind::Item(_)) { return inst; }
        let Some(tr) = tcx.trait_of_assoc(d) else { return inst };
        let tn = self.path(tr);
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        let last = tn.rsplit("::").next().unwrap_or("").to_string();
        let std = tn.starts_with("std::") || tn.starts_with("core::");
        if !std { return inst; }
        match last.as_str() {
            "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator" => {
                if name == "advance_by" {
                    if let Some(m) = self.models.get("model_it_advance_by") { return Instance::new_raw(*m, args); }
                }
                if inst.def_id() == d || self.want(inst.def_id()) { return inst; }
                if matches!(name.as_str(), "next" | "next_back" | "size_hint" | "len") { return inst; }
                if let Some(m) = self.models.get(&format!("model_it_{}", name)) {
                    return Instance::new_raw(*m, args);
                }
                // (promoted constants of a default body cannot be evaluated for an overriding Self)
                if !tcx.is_mir_available(d) || tcx.promoted_mir(d).len() > 0 { return inst; }
                Instance::new_raw(d, args)
            }
            "FromIterator" => {
                if let ty::Adt(def, a) = *args.type_at(0).kind() {
                    if self.path(def.did()) == "std::vec::Vec" {
                        if let Some(m) = self.models.get("model_from_iter") {
                            return self.inst2(*m, a.type_at(0), args.type_at(2));
                        }
                    }
                }
                inst
            }
            "Extend" if name == "extend" => {
                if let ty::Adt(def, a) = *args.type_at(0).kind() {
                    if self.path(def.did()) == "std::vec::Vec" {
                        let t = a.type_at(0);
                        if tcx.types.u8 == t { return inst; }
                        let m = if args.type_at(1) == t { "model_extend" } else { "model_extend_ref" };
                        if let Some(m) = self.models.get(m) {
                            return self.inst2(*m, t, args.type_at(2));
                        }
                    }
                }
                inst
            }
            _ => inst,
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let k = self.key(&inst);
        if self.seen.insert(k) { self.queue.push_back(inst); }
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = match len { Some(l) => off + l, None => a.len() };
                if end > a.len() || off > end { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_j(b: &[u8]) -> J { J::A(b.iter().map(|x| J::I(*x as i128)).collect()) }
    fn relocs(&mut self, id: mir::interpret::AllocId, depth: u32) -> J {
        // an allocation with its pointers, for nested constants such as &[&str]
        if depth > 4 { return J::N; }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                let mut ps = vec![];
                for (o, p) in a.provenance().ptrs().iter() {
                    ps.push(J::A(vec![i(o.bytes()), self.relocs(p.alloc_id(), depth + 1)]));
                }
                J::O(vec![("b", Self::bytes_j(&b)), ("p", J::A(ps))])
            }
            GlobalAlloc::Static(d) => J::O(vec![("static", s(self.path(d)))]),
            GlobalAlloc::Function { instance } => {
                let k = self.key(&instance);
                J::O(vec![("fn", s(k))])
            }
            _ => J::N,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", i(ti as u64))];
        if let ty::FnDef(..) = t.kind() { return J::O(o); }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                let p = self.path(u.def);
                o.push(("def", s(p)));
            }
            if let Some(p) = u.promoted {
                if self.tcx.promoted_mir(u.def).len() <= p.as_usize() {
                    if std::env::var("MIRDUMP_DEBUG").is_ok() { eprintln!("no promoted in {}", self.path(u.def)); }
                    o.push(("s", s("<no promoted>")));
                    return J::O(o);
                }
            }
        }
        match c.eval(self.tcx, self.env, sp) {
            Ok(v) => {
                let de = match t.kind() { ty::Adt(d, _) => d.is_enum(), _ => false };
                if de {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        if let Some(vi) = d.variant {
                            let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.konst(&Const::Val(*fv, *ft), sp)).collect();
                            o.push(("variant", i(vi.as_usize() as u64)));
                            o.push(("fields", J::A(fs)));
                        }
                    }
                }
                match v {
                    ConstValue::Scalar(Scalar::Int(n)) => { o.push(("bits", i(n.to_bits(n.size()) as i128))); o.push(("size", i(n.size().bytes()))); }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        let id = prov.alloc_id();
                        match self.tcx.global_alloc(id) {
                            GlobalAlloc::Static(d) => {
                                let p = self.path(d);
                                o.push(("static", s(p.clone())));
                                if !self.statics.contains_key(&p) {
                                    self.statics.insert(p.clone(), J::N);
                                    if let Ok(a) = self.tcx.eval_static_initializer(d) {
                                        let a = a.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                                        let mut ps = vec![];
                                        for (of, pr) in a.provenance().ptrs().iter() {
                                            ps.push(J::A(vec![i(of.bytes()), self.relocs(pr.alloc_id(), 1)]));
                                        }
                                        let mb = self.tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false);
                                        self.statics.insert(p, J::O(vec![("b", Self::bytes_j(&b)), ("p", J::A(ps)), ("mut", J::B(mb))]));
                                    }
                                }
                            }
                            GlobalAlloc::Memory(_) => {
                                let len = match t.kind() {
                                    ty::Ref(_, inner, _) => match inner.kind() {
                                        ty::Array(e, n) if *e == self.tcx.types.u8 => n.try_to_target_usize(self.tcx).map(|x| x as usize),
                                        _ => None },
                                    _ => None };
                                if let Some(l) = len {
                                    if let Some(b) = self.alloc_bytes(id, off.bytes() as usize, Some(l)) { o.push(("bytes", Self::bytes_j(&b))); }
                                } else {
                                    let r = self.relocs(id, 0);
                                    o.push(("mem", r));
                                    o.push(("off", i(off.bytes())));
                                    o.push(("ptr", J::B(true)));
                                }
                            }
                            GlobalAlloc::Function { instance } => { let k = self.key(&instance); o.push(("fn", s(k))); }
                            _ => {}
                        }
                    }
                    ConstValue::ZeroSized => { o.push(("zst", J::B(true))); }
                    ConstValue::Slice { alloc_id, meta } => {
                        let isb = match t.kind() { ty::Ref(_, inner, _) => inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8), _ => false };
                        if isb { if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta as usize)) { o.push(("bytes", Self::bytes_j(&b))); } }
                        else { let r = self.relocs(alloc_id, 0); o.push(("mem", r)); o.push(("len", i(meta))); }
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let r = self.relocs(alloc_id, 0);
                        o.push(("mem", r));
                        o.push(("off", i(offset.bytes())));
                    }
                }
                let st = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
                o.push(("s", s(st)));
            }
            Err(_) => { o.push(("s", s("<unevaluable>"))); }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants().get(v).and_then(|v| v.fields.get(f)).map(|x| x.name.to_string()).unwrap_or_default()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let ti = self.ty(t);
                    J::A(vec![s("f"), i(f.as_u32()), s(name), i(ti as u64)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![s("v"), i(v.as_u32()), s(n.map(|x| x.to_string()).unwrap_or_default())]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::O(vec![("l", i(p.local.as_u32())), ("p", J::A(pr))])
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(p, body))]),
            Operand::Constant(c) => self.konst(&c.const_, c.span),
            Operand::RuntimeChecks(_) => J::O(vec![("k", s("rtcheck"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, body)]),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.operand(o, body), match nn { Some(x) => i(x), None => J::N }])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p, body)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); let kk = format!("{:?}", k); J::A(vec![s("cast"), s(kk), self.operand(o, body), i(ti as u64)]) }
            Rvalue::BinaryOp(b, ab) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&ab.0, body), self.operand(&ab.1, body)]),
            Rvalue::UnaryOp(u, a) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(a, body)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, body)]),
            Rvalue::Aggregate(k, fs) => {
                let t = r.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                let (kk, v, act) = match **k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, act) => ("adt", v.as_u32(), act),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                let fs = fs.iter().map(|o| self.operand(o, body)).collect();
                let _ = act;
                J::A(vec![s("agg"), s(kk), i(ti as u64), i(v), J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("pl", self.place(p, body))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p, body)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, body)]),
        }
    }
    fn callee(&mut self, func: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let ft = func.ty(&body.local_decls, tcx);
        if let ty::FnDef(d, args) = *ft.kind() {
            let args: GenericArgsRef<'tcx> = tcx.erase_and_anonymize_regions(args.skip_binder());
            let mut o = vec![("path", s(self.path(d)))];
            o.push(("crate", s(tcx.crate_name(d.krate).to_string())));
            o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
            o.push(("targs", J::A(args.types().map(|a| i(self.ty(a) as u64)).collect())));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(tr))));
                let st = args.type_at(0);
                o.push(("self", i(self.ty(st) as u64)));
            }
            self.ctor_info(d, &mut o);
            match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(inst)) => {
                    let inst = self.substitute(d, args, inst);
                    let k = self.key(&inst);
                    o.push(("key", s(k)));
                    o.push(("rpath", s(self.path(inst.def_id()))));
                    o.push(("rcrate", s(tcx.crate_name(inst.def_id().krate).to_string())));
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                        InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                        InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                        InstanceKind::Shim(_) => "shim",
                    };
                    o.push(("kind", s(kind)));
                    if let InstanceKind::Item(id) = inst.def {
                        if self.want(id) { self.enqueue(inst); }
                    }
                }
                _ => { o.push(("kind", s("unresolved"))); }
            }
            J::O(o)
        } else {
            J::O(vec![("kind", s("ptr")), ("op", self.operand(func, body))])
        }
    }
    fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !matches!(inst.def, InstanceKind::Item(_)) { return None; }
        if !tcx.is_mir_available(did) { return None; }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) { return None; }
        let b = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
        let body = &body;
        let mut locals = vec![];
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); } }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty) as u64;
            locals.push(match names.get(&l.as_u32()) { Some(n) => J::A(vec![i(t), s(n.clone())]), None => J::A(vec![i(t)]) });
        }
        let mut blocks = vec![];
        for (_bb, blk) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &blk.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let j = J::A(vec![s("="), self.place(&pr.0, body), self.rvalue(&pr.1, body), self.span(x.source_info.span)]);
                        st.push(j);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let j = J::A(vec![s("sd"), self.place(place, body), i(variant_index.as_u32())]);
                        st.push(j);
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::Intrinsic(x) => { let t = format!("{:?}", x); st.push(J::A(vec![s("intr"), s(t)])); }
                    _ => {}
                }
            }
            let term = blk.terminator();
            let sp = self.span(term.source_info.span);
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets.iter().map(|(v, b)| J::A(vec![i(v), i(b.as_u32())])).collect();
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(t) as u64;
                    J::A(vec![s("sw"), self.operand(discr, body), J::A(ts), i(targets.otherwise().as_u32()), i(ti), sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place, body), i(target.as_u32()), sp]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, body);
                    let a = args.iter().map(|x| self.operand(&x.node, body)).collect();
                    let t = match target { Some(t) => i(t.as_u32()), None => J::N };
                    let at = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); i(self.ty(t) as u64) }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt) as u64;
                    J::A(vec![s("call"), c, J::A(a), self.place(destination, body), t, sp, J::A(at), i(dti)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut o = vec![];
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { o.push(self.operand(len, body)); o.push(self.operand(index, body)); "bounds".to_string() }
                        AssertKind::Overflow(op, a, b) => { o.push(self.operand(a, body)); o.push(self.operand(b, body)); format!("overflow {:?}", op) }
                        AssertKind::OverflowNeg(a) => { o.push(self.operand(a, body)); "overflow Neg".to_string() }
                        AssertKind::DivisionByZero(a) => { o.push(self.operand(a, body)); "divzero".to_string() }
                        AssertKind::RemainderByZero(a) => { o.push(self.operand(a, body)); "remzero".to_string() }
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), self.operand(cond, body), J::B(*expected), s(kind), J::A(o), i(target.as_u32()), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(blk.is_cleanup))]));
        }
        let mut unsafe_ = false;
        if tcx.def_kind(did) != DefKind::Closure { unsafe_ = tcx.fn_sig(did).skip_binder().safety().is_unsafe(); }
        Some(J::O(vec![
            ("path", s(self.path(did))),
            ("crate", s(tcx.crate_name(did.krate).to_string())),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("closure", J::B(tcx.def_kind(did) == DefKind::Closure)),
            ("impl_trait", match self.impl_trait(did) { Some(x) => s(x), None => J::N }),
            ("unsafe", J::B(unsafe_)),
            ("span", self.span(body.span)),
            ("argc", i(body.arg_count as u64)),
            ("spread", match body.spread_arg { Some(l) => i(l.as_u32()), None => J::N }),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]))
    }
    fn impl_trait(&self, did: DefId) -> Option<String> {
        let tcx = self.tcx;
        let p = tcx.opt_parent(did)?;
        if tcx.def_kind(p) != (DefKind::Impl { of_trait: true }) { return None; }
        Some(self.path(tcx.impl_trait_ref(p).skip_binder().def_id))
    }
    // all trait impls in the analysed crates for a monomorphic local ADT
    fn expand_impls(&mut self) {
        while let Some(t) = self.pending_impl_types.pop() {
            if !self.impl_types_seen.insert(t) { continue; }
            let ty::Adt(def, _) = *t.kind() else { continue };
            let tcx = self.tcx;
            let simp = ty::fast_reject::simplify_type(tcx, t, ty::fast_reject::TreatParams::InstantiateWithInfer);
            let _ = def;
            for (tr, im) in self.local_impls.clone() {
                let head = tcx.impl_trait_ref(im).skip_binder();
                let hs = ty::fast_reject::simplify_type(tcx, head.self_ty(), ty::fast_reject::TreatParams::InstantiateWithInfer);
                if hs.is_none() || hs != simp { continue; }
                // only traits whose sole type parameter is Self
                if head.args.types().count() != 1 { continue; }
                for m in tcx.associated_items(im).in_definition_order() {
                    if !matches!(m.kind, ty::AssocKind::Fn { .. }) { continue; }
                    let Some(tm) = m.trait_item_def_id() else { continue };
                    let g = tcx.generics_of(tm);
                    // methods with own type params cannot be instantiated here
                    if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                    let args = ty::GenericArgs::for_item(tcx, tm, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => t.into(),
                    });
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, tm, args) {
                        if !matches!(inst.def, InstanceKind::Item(_)) { continue; }
                        let k = self.key(&inst);
                        let ti = self.ty(t) as u64;
                        self.impls.push(J::A(vec![s(self.path(tr)), s(m.name().to_string()), i(ti), s(k)]));
                        self.enqueue(inst);
                    }
                }
            }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let cname = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let roots_crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if !roots_crates.split(',').any(|x| x == cname) { return Compilation::Continue; }
        let descend: Vec<String> = std::fs::read_to_string(std::env::var("MIRDUMP_DESCEND").unwrap()).unwrap()
            .lines().map(|x| x.trim().to_string()).filter(|x| !x.is_empty() && !x.starts_with('#')).collect();
        let mut d = D { tcx, env: TypingEnv::fully_monomorphized(), descend, queue: VecDeque::new(), seen: HashSet::new(),
            types: vec![], tyidx: HashMap::new(), pending_impl_types: vec![], impl_types_seen: HashSet::new(), impls: vec![],
            local_impls: vec![], statics: BTreeMap::new(), models: HashMap::new() };
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if tcx.def_kind(did) == DefKind::Fn { if let Some(n) = tcx.opt_item_name(did) { let n = n.to_string(); if n.starts_with("model_") { d.models.insert(n, did); } } }
        }
        // trait impls defined in descended crates
        let mut crates: Vec<rustc_span::def_id::CrateNum> = vec![rustc_span::def_id::LOCAL_CRATE];
        crates.extend(tcx.crates(()).iter().copied());
        for c in crates {
            let n = tcx.crate_name(c).to_string();
            if !d.descend.iter().any(|x| *x == format!("crate:{}", n)) { continue; }
            if c == rustc_span::def_id::LOCAL_CRATE {
                for (tr, ims) in tcx.all_local_trait_impls(()) { for im in ims { d.local_impls.push((*tr, im.to_def_id())); } }
            } else {
                for im in tcx.trait_impls_in_crate(c) {
                    let tr = tcx.impl_trait_ref(*im).skip_binder().def_id;
                    d.local_impls.push((tr, *im));
                }
            }
        }
        let mut roots = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            let g = tcx.generics_of(did);
            if g.requires_monomorphization(tcx) { continue; }
            let inst = Instance::new_raw(did, ty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into()));
            roots.push(J::A(vec![s(d.path(did)), s(d.key(&inst))]));
            d.enqueue(inst);
        }
        let mut bodies = BTreeMap::new();
        loop {
            while let Some(inst) = d.queue.pop_front() {
                let k = d.key(&inst);
                if let Some(j) = d.body(inst) { bodies.insert(k, j); }
            }
            d.expand_impls();
            if d.queue.is_empty() && d.pending_impl_types.is_empty() { break; }
        }
        let types = std::mem::take(&mut d.types);
        let impls = std::mem::take(&mut d.impls);
        let statics = std::mem::take(&mut d.statics);
        let j = J::O(vec![("crate", s(cname.clone())), ("roots", J::A(roots)), ("types", J::A(types)),
            ("impls", J::A(impls)), ("statics", J::M(statics)), ("bodies", J::M(bodies))]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(format!("{}/{}.json", out, cname), o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
