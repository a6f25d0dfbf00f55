// Fact extractor: a rustc driver that, for the probe crate, writes the monomorphised MIR of every
// function of the target crates reachable from the probe's roots, with resolved callees, as JSON
// lines.  For the target library itself it writes a per-crate inventory (all bodies, ADTs, impls).
// It decides nothing; the rules live in ../sa/*.py.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use rustc_infer::infer::TyCtxtInferExt as _;
use rustc_trait_selection::infer::InferCtxtExt as _;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&x); }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyrows: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    targets: Vec<String>,
    vtables: HashSet<(Ty<'tcx>, Ty<'tcx>)>,
    vrows: Vec<String>,
    statics: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() { format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s) } else { s }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(format!("{}", t)))
    }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn is_target(&self, d: DefId) -> bool { let k = self.krate(d); self.targets.iter().any(|t| *t == k) }

    // does the type implement the auto trait?
    fn auto(&self, t: Ty<'tcx>, name: rustc_span::Symbol) -> bool {
        let Some(d) = self.tcx.get_diagnostic_item(name).or_else(|| if name == rustc_span::sym::Sync { self.tcx.lang_items().sync_trait() } else { None }) else { return false };
        let (infcx, env) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx.type_implements_trait(d, [t], env).must_apply_modulo_regions()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tyrows.len();
        self.tys.insert(t, i);
        self.tyrows.push(String::new());
        let s = esc(&self.tystr(t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", esc(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"uint\",\"n\":{}", esc(x.name_str())),
            ty::Float(x) => format!("\"k\":\"float\",\"n\":{}", esc(x.name_str())),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", self.ty(x), m.is_mut()),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", self.ty(x), m.is_mut()),
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(x)),
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i128).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", self.ty(x), n)
            }
            ty::Tuple(xs) => { let v: Vec<_> = xs.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"ts\":{}", list(v)) }
            ty::Adt(def, args) => {
                let p = esc(&self.path(def.did()));
                let k = esc(&self.krate(def.did()));
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                let full = self.is_target(def.did()) || def.is_enum();
                if full || def.is_struct() {
                    let discrs: Vec<_> = if def.is_enum() { def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect() } else { vec!["0".into()] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        if full {
                            for f in v.fields.iter() {
                                let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                                fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                            }
                        }
                        let d = discrs.get(vi.as_usize()).cloned().unwrap_or("0".into());
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&d), list(fs)));
                    }
                }
                let auto = if self.is_target(def.did()) { format!(",\"send\":{},\"sync\":{}", self.auto(t, rustc_span::sym::Send), self.auto(t, rustc_span::sym::Sync)) } else { String::new() };
                format!("\"k\":\"adt\",\"ak\":\"{}\",\"def\":{},\"crate\":{},\"args\":{},\"vs\":{}{}", kind, p, k, list(targs), list(vs), auto)
            }
            ty::FnDef(d, args) => { let args = args.skip_binder(); let r = self.fnref(d, args); format!("\"k\":\"fndef\",\"fn\":{}", r) }
            ty::Closure(d, args) => {
                let id = self.closure_inst(d, args);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"inst\":{},\"ups\":{}", id, list(ups))
            }
            ty::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                let mut autos: Vec<String> = preds.auto_traits().map(|d| esc(&self.path(d))).collect();
                autos.sort();
                format!("\"k\":\"dyn\",\"trait\":{},\"autos\":{}", esc(&tr), list(autos))
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tyrows[i] = format!("{{\"ty\":{},\"s\":{},{}}}", i, s, body);
        i
    }

    fn closure_inst(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> i64 {
        if !self.is_target(d) { return -1; }
        let inst = Instance::new_raw(d, args);
        self.inst(inst) as i64
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) { return x; }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back((n, i));
        n
    }
    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => self.is_target(d) && self.tcx.is_mir_available(d) && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure),
            _ => false,
        }
    }
    fn assoc_info(&self, d: DefId) -> (String, String) {
        // (trait path, item name)
        let name = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        if let Some(ai) = self.tcx.opt_associated_item(d) {
            if let Some(tr) = ai.trait_container(self.tcx) { return (self.path(tr), name); }
            if let Some(imp) = ai.impl_container(self.tcx) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) { return (self.path(tr.skip_binder().def_id), name); }
            }
        }
        (String::new(), name)
    }
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let p = self.path(d);
        let (tr, name) = self.assoc_info(d);
        let args = self.tcx.erase_and_anonymize_regions(args);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|x| esc(&format!("{}", x))).collect();
        let uns = !self.tcx.is_closure_like(d) && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let mut o = format!("{{\"p\":{},\"tr\":{},\"m\":{},\"crate\":{},\"args\":{},\"cargs\":{},\"unsafe\":{}", esc(&p), esc(&tr), esc(&name), esc(&self.krate(d)), list(targs), list(cargs), uns);
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !args.has_param() {
            match Instance::try_resolve(self.tcx, self.env, d, args) {
                Ok(Some(i)) => match i.def {
                    InstanceKind::Virtual(vd, _) => { let _ = write!(o, ",\"virt\":{}", esc(&self.path(vd))); }
                    _ => {
                        let rd = i.def_id();
                        if self.has_body(i) {
                            let n = self.inst(i);
                            let _ = write!(o, ",\"inst\":{}", n);
                        } else {
                            let ks = match i.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Shim(_) => "shim", _ => "other" };
                            let _ = write!(o, ",\"rk\":\"{}\"", ks);
                            // closures / fn items called through Fn* traits
                            let st = args.types().next();
                            if let Some(t) = st { match *t.kind() {
                                ty::Closure(cd, ca) => { let n = self.closure_inst(cd, ca); if n >= 0 { let _ = write!(o, ",\"clos\":{}", n); } }
                                ty::FnDef(fd, fa) if fd != d => { let fa = fa.skip_binder(); let r = self.fnref(fd, fa); let _ = write!(o, ",\"fnitem\":{}", r); }
                                _ => {}
                            } }
                        }
                        let _ = write!(o, ",\"rp\":{},\"rcrate\":{}", esc(&self.path(rd)), esc(&self.krate(rd)));
                        // implementing type of the resolved item
                        if let Some(imp) = self.tcx.opt_associated_item(rd).and_then(|a| a.impl_container(self.tcx)) {
                            let st = self.tystr(self.tcx.type_of(imp).skip_binder());
                            let _ = write!(o, ",\"rimpl\":{}", esc(&st));
                        }
                    }
                },
                _ => { o.push_str(",\"unres\":true"); }
            }
        }
        o.push('}');
        o
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_remapped_unconditionally().to_string();
        esc(&format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => format!("[\"d\",{},{}]", v.as_usize(), esc(n.map(|s| s.to_string()).unwrap_or_default().as_str())),
                _ => "[\"o\"]".into(),
            });
        }
        list(v)
    }
    fn bytes_of(&self, aid: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(aid)? {
            interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = off.checked_add(len)?;
                if end > a.len() as u64 || len > 4096 { return None; }
                if !a.provenance().ptrs().is_empty() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }
    /// Structured value of a constant: int, array / slice of ints, reference, aggregate.
    fn tree(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 { return None; }
        match (v, t.kind()) {
            (ConstValue::Scalar(interpret::Scalar::Int(i)), _) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let val: String = match t.kind() { ty::Int(_) => size.sign_extend(bits).to_string(), _ => bits.to_string() };
                Some(format!("{{\"i\":{}}}", esc(&val)))
            }
            (ConstValue::Slice { alloc_id, meta }, _) => {
                let b = self.bytes_of(alloc_id, 0, meta)?;
                let s = t.builtin_deref(true)?;
                let ok = s.is_str() || matches!(s.kind(), ty::Slice(x) if *x == self.tcx.types.u8);
                if !ok { return None; }
                Some(format!("{{\"r\":{{\"bs\":{}}}}}", list(b.iter().map(|x| x.to_string()))))
            }
            (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), _) => {
                let inner = t.builtin_deref(true)?;
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                if !matches!(self.tcx.try_get_global_alloc(aid), Some(interpret::GlobalAlloc::Memory(_))) { return None; }
                if !self.tcx.layout_of(self.env.as_query_input(inner)).ok()?.is_sized() { return None; }
                let x = self.tree(ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1)?;
                Some(format!("{{\"r\":{}}}", x))
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) => {
                let a = match self.tcx.try_get_global_alloc(alloc_id)? { interpret::GlobalAlloc::Memory(a) => a, _ => return None };
                let a = a.inner();
                let o = offset.bytes() as usize;
                let prov = a.provenance().ptrs().get(&offset)?.alloc_id();
                let word = |x: usize| -> Option<u64> { if x + 8 > a.len() { return None; } Some(u64::from_le_bytes(a.inspect_with_uninit_and_ptr_outside_interpreter(x..x + 8).try_into().ok()?)) };
                let po = word(o)?;
                let isb = inner.is_str() || matches!(inner.kind(), ty::Slice(x) if *x == self.tcx.types.u8);
                if isb {
                    let n = word(o + 8)?;
                    let b = self.bytes_of(prov, po, n)?;
                    return Some(format!("{{\"r\":{{\"bs\":{}}}}}", list(b.iter().map(|x| x.to_string()))));
                }
                if !self.tcx.layout_of(self.env.as_query_input(*inner)).ok()?.is_sized() { return None; }
                if !matches!(self.tcx.try_get_global_alloc(prov), Some(interpret::GlobalAlloc::Memory(_))) { return None; }
                let x = self.tree(ConstValue::Indirect { alloc_id: prov, offset: rustc_abi::Size::from_bytes(po) }, *inner, depth + 1)?;
                Some(format!("{{\"r\":{}}}", x))
            }
            (_, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) => {
                let ti = self.ty(t);
                let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                if d.fields.len() > 64 { return None; }
                let mut fs = Vec::new();
                for (fv, ft) in d.fields.iter() { fs.push(self.tree(*fv, *ft, depth + 1)?); }
                Some(format!("{{\"a\":{},\"v\":{},\"f\":{}}}", ti, d.variant.map(|x| x.as_u32()).unwrap_or(0), list(fs.into_iter())))
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.skip_binder();
            let r = self.fnref(d, a);
            return format!("{{\"c\":\"fn\",\"ty\":{},\"fn\":{}}}", ti, r);
        }
        // named constant (before evaluation)
        let mut nm = String::new();
        if let mir::Const::Unevaluated(u, _) = c { if u.promoted.is_none() { nm = format!(",\"name\":{}", esc(&self.path(u.def))); } }
        let v = match c.eval(self.tcx, self.env, span) { Ok(v) => v, Err(_) => return format!("{{\"c\":\"err\",\"ty\":{}{}}}", ti, nm) };
        match v {
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"ty\":{}{}}}", ti, nm),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let val: String = match t.kind() { ty::Int(_) => size.sign_extend(bits).to_string(), _ => bits.to_string() };
                format!("{{\"c\":\"int\",\"ty\":{},\"v\":{}{}}}", ti, esc(&val), nm)
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match self.tcx.try_get_global_alloc(aid) {
                    Some(interpret::GlobalAlloc::Static(d)) => { self.statics.insert(d); format!("{{\"c\":\"static\",\"ty\":{},\"p\":{},\"mut\":{}}}", ti, esc(&self.path(d)), self.tcx.is_mutable_static(d)) }
                    Some(interpret::GlobalAlloc::Function { instance }) => { let r = self.fnref(instance.def_id(), instance.args); format!("{{\"c\":\"fn\",\"ty\":{},\"fn\":{}}}", ti, r) }
                    _ => {
                        let mut o = format!("{{\"c\":\"ptr\",\"ty\":{}{}", ti, nm);
                        if let Some(inner) = t.builtin_deref(true) {
                            if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(inner)) {
                                if l.is_sized() { if let Some(b) = self.bytes_of(aid, off.bytes(), l.size.bytes()) {
                                    let _ = write!(o, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                                } }
                            }
                        }
                        if let Some(x) = self.tree(v, t, 0) { let _ = write!(o, ",\"tree\":{}", x); }
                        o.push('}');
                        o
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let mut o = format!("{{\"c\":\"slice\",\"ty\":{}{}", ti, nm);
                if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                    let _ = write!(o, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                    if let Ok(s) = String::from_utf8(b) { let _ = write!(o, ",\"str\":{}", esc(&s)); }
                }
                o.push('}');
                o
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let mut o = format!("{{\"c\":\"mem\",\"ty\":{}{}", ti, nm);
                if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                    if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), l.size.bytes()) {
                        let _ = write!(o, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                    }
                }
                if let Some(x) = self.tree(v, t, 0) { let _ = write!(o, ",\"tree\":{}", x); }
                o.push('}');
                o
            }
        }
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => { let k = self.konst(&c.const_, c.span); format!("{{\"o\":\"k\",\"k\":{}}}", k) }
            Operand::RuntimeChecks(_) => "{\"o\":\"rc\"}".into(),
        }
    }
    fn rv(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"rep\",\"a\":{},\"n\":{}}}", self.op(o), n.try_to_target_usize(self.tcx).map(|v| v as i128).unwrap_or(-1)),
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"raw\",\"mut\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"cp\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"cp\",\"p\":{}}},\"mut\":{}}}", self.place(p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc),
                    CastKind::IntToInt => "IntToInt".into(),
                    k => format!("{:?}", k),
                };
                if ks == "Unsize" { self.note_unsize(from, *t); }
                let mut extra = String::new();
                if let ty::FnDef(..) | ty::Closure(..) = from.kind() { extra = format!(",\"fromfn\":{}", self.ty(from)); }
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"from\":{},\"to\":{}{}}}", esc(&ks), self.op(o), self.ty(from), self.ty(*t), extra)
            }
            Rvalue::BinaryOp(b, x) => { let t = x.0.ty(&body.local_decls, self.tcx); format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}", b, self.op(&x.0), self.op(&x.1), self.ty(t)) }
            Rvalue::UnaryOp(u, o) => { let t = o.ty(&body.local_decls, self.tcx); format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{},\"t\":{}}}", u, self.op(o), self.ty(t)) }
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), self.ty(t)) }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".into(),
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        format!("\"k\":\"adt\",\"t\":{},\"v\":{},\"vn\":{},\"uf\":{}", self.ty(t), v.as_usize(), esc(&vn), uf.map(|f| f.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => { let n = self.closure_inst(*d, a); format!("\"k\":\"closure\",\"inst\":{}", n) }
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".into(),
                    _ => "\"k\":\"other\"".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                format!("{{\"r\":\"agg\",{},\"ops\":{}}}", ks, list(v))
            }
            Rvalue::ThreadLocalRef(d) => { self.statics.insert(*d); format!("{{\"r\":\"tls\",\"p\":{}}}", esc(&self.path(*d))) }
            Rvalue::WrapUnsafeBinder(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
        }
    }
    fn note_unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let (f, t) = match (from.kind(), to.kind()) {
            (ty::Adt(a, x), ty::Adt(b, y)) if a == b => (x.types().next(), y.types().next()),
            _ => (from.builtin_deref(true), to.builtin_deref(true)),
        };
        let (Some(f), Some(t)) = (f, t) else { return };
        let ty::Dynamic(preds, _) = *t.kind() else { return };
        if !self.vtables.insert((f, t)) { return; }
        let Some(pr) = preds.principal() else { return };
        let trd = pr.def_id();
        let mut ms = vec![];
        if self.is_target(trd) {
            let tref = self.tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(self.tcx, f));
            for it in self.tcx.associated_items(trd).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) { continue; }
                let own = ty::GenericArgs::for_item(self.tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tref.args.len() { tref.args[p.index as usize] } else { self.tcx.lifetimes.re_erased.into() }
                });
                let own = self.tcx.erase_and_anonymize_regions(own);
                let r = self.fnref(it.def_id, own);
                ms.push(format!("[{},{}]", esc(&it.name().to_string()), r));
            }
        }
        let row = format!("{{\"vtable\":{},\"trait\":{},\"ms\":{}}}", self.ty(f), esc(&self.path(trd)), list(ms));
        self.vrows.push(row);
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        let un = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize() as i64, _ => -1 };
        let s = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, self.tcx);
                let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                format!("\"t\":\"switch\",\"a\":{},\"ty\":{},\"vs\":{},\"else\":{}", self.op(discr), self.ty(ty), list(vs), targets.otherwise().as_usize())
            }
            TerminatorKind::Return => "\"t\":\"ret\"".into(),
            TerminatorKind::Unreachable => "\"t\":\"unreach\"".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"t\":\"resume\"".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                format!("\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"un\":{}", self.place(place), self.ty(ty), target.as_usize(), un(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.op(func);
                let fty = func.ty(&body.local_decls, self.tcx);
                let fr = if let ty::FnDef(d, a) = *fty.kind() { self.fnref(d, a.skip_binder()) } else { "null".into() };
                let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                format!("\"t\":\"call\",\"fn\":{},\"f\":{},\"args\":{},\"at\":{},\"dest\":{},\"dt\":{},\"to\":{},\"un\":{}", fr, if fr == "null" { f } else { "null".into() }, list(a), list(at), self.place(destination), self.ty(dt), target.map(|b| b.as_usize() as i64).unwrap_or(-1), un(unwind))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x), self.op(y)]),
                    AssertKind::OverflowNeg(x) => ("neg".into(), vec![self.op(x)]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                    _ => ("other".into(), vec![]),
                };
                format!("\"t\":\"assert\",\"c\":{},\"exp\":{},\"k\":{},\"ops\":{},\"to\":{}", self.op(cond), expected, esc(&k), list(ops), target.as_usize())
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
            _ => "\"t\":\"other\"".into(),
        };
        format!("{{{},\"sp\":{}}}", s, sp)
    }
    fn body(&mut self, n: usize, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = i.def_id();
        let raw = tcx.instance_mir(i.def).clone();
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw));
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upn: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
                else if p.local.as_usize() == 1 { upn.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p))); }
            }
        }
        let locs: Vec<String> = body.local_decls.iter_enumerated().map(|(l, dcl)| {
            let nm = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
            format!("[{},{}]", self.ty(dcl.ty), nm)
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let (p, r) = &**b; ss.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"sp\":{}}}", self.place(p), self.rv(&body, r), self.span(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("{{\"s\":\"sd\",\"p\":{},\"v\":{},\"sp\":{}}}", self.place(place), variant_index.as_usize(), self.span(s.source_info.span))),
                    StatementKind::StorageDead(l) => ss.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(x) => { let k = match &**x { NonDivergingIntrinsic::Assume(_) => "assume", _ => "copy" }; ss.push(format!("{{\"s\":\"intr\",\"k\":\"{}\",\"sp\":{}}}", k, self.span(s.source_info.span))); }
                    _ => {}
                }
            }
            let t = self.term(&body, bb.terminator());
            blocks.push(format!("{{\"cl\":{},\"ss\":{},\"t\":{}}}", bb.is_cleanup, list(ss), t));
        }
        let (tr, name) = self.assoc_info(d);
        let targs: Vec<String> = if tcx.is_closure_like(d) { vec![] } else { i.args.types().map(|x| self.ty(x).to_string()).collect() };
        let parent = if tcx.is_closure_like(d) { esc(&self.path(tcx.typeck_root_def_id(d))) } else { "null".into() };
        let mut selfty = "null".to_string();
        if let Some(imp) = tcx.opt_associated_item(d).and_then(|a| a.impl_container(tcx)) {
            let iargs = i.args.truncate_to(tcx, tcx.generics_of(imp));
            let st = tcx.instantiate_and_normalize_erasing_regions(iargs, self.env, tcx.type_of(imp));
            selfty = self.ty(st).to_string();
        } else if !tr.is_empty() {
            if let Some(t) = i.args.types().next() { selfty = self.ty(t).to_string(); }
        }
        let vis = if tcx.is_closure_like(d) { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) };
        let uns = !tcx.is_closure_like(d) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let synth = tcx.def_span(d).from_expansion();
        format!("{{\"inst\":{},\"p\":{},\"tr\":{},\"m\":{},\"crate\":{},\"args\":{},\"self\":{},\"parent\":{},\"clos\":{},\"vis\":{},\"unsafe\":{},\"exp\":{},\"argc\":{},\"sp\":{},\"upn\":{},\"locs\":{},\"bbs\":{}}}",
            n, esc(&self.path(d)), esc(&tr), esc(&name), esc(&self.krate(d)), list(targs), selfty, parent, tcx.is_closure_like(d), esc(&vis), uns, synth, body.arg_count, self.span(tcx.def_span(d)), list(upn), list(locs), list(blocks))
    }
}

fn inventory<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    // Every fn/method/closure body and ADT of the current crate, independent of instantiation.
    let cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized(), tys: Default::default(), tyrows: vec![], insts: Default::default(), queue: Default::default(), targets: vec![], vtables: Default::default(), vrows: vec![], statics: Default::default() };
    let mut rows = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let has = tcx.is_mir_available(d);
                let (tr, name) = cx.assoc_info(d);
                let imp = tcx.opt_associated_item(d).and_then(|a| a.impl_container(tcx)).map(|i| cx.tystr(tcx.type_of(i).skip_binder())).unwrap_or_default();
                let eff = tcx.effective_visibilities(()).is_reachable(ld);
                let dflt = tcx.opt_associated_item(d).map(|a| a.trait_container(tcx).is_some()).unwrap_or(false);
                rows.push(format!("{{\"fn\":{},\"tr\":{},\"m\":{},\"impl\":{},\"mir\":{},\"pub\":{},\"intrait\":{},\"unsafe\":{},\"ret\":{},\"args\":{},\"preds\":{},\"exp\":{},\"sp\":{}}}", esc(&cx.path(d)), esc(&tr), esc(&name), esc(&imp), has, eff, dflt, tcx.fn_sig(d).skip_binder().safety().is_unsafe(), esc(&cx.tystr(tcx.fn_sig(d).skip_binder().output().skip_binder())), esc(&tcx.fn_sig(d).skip_binder().inputs().skip_binder().iter().map(|t| cx.tystr(*t)).collect::<Vec<_>>().join(", ")), esc(&tcx.param_env(d).caller_bounds().map(|p| format!("{:?}", p)).collect::<Vec<_>>().join(", ")), tcx.def_span(d).from_expansion(), cx.span(tcx.def_span(d))));
            }
            DefKind::Static { mutability, nested, .. } => {
                if nested { continue; }
                let t = tcx.type_of(d).skip_binder();
                rows.push(format!("{{\"static\":{},\"mut\":{},\"freeze\":{},\"ty\":{},\"sp\":{}}}", esc(&cx.path(d)), mutability.is_mut(), t.is_freeze(tcx, cx.env), esc(&cx.tystr(t)), cx.span(tcx.def_span(d))));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut fs = vec![];
                for v in def.variants() { for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).skip_binder();
                    fs.push(format!("[{},{},{},{}]", esc(v.name.as_str()), esc(f.name.as_str()), esc(&cx.tystr(t)), f.vis.is_public()));
                } }
                rows.push(format!("{{\"adt\":{},\"fields\":{},\"pub\":{},\"sp\":{}}}", esc(&cx.path(d)), list(fs), tcx.effective_visibilities(()).is_reachable(ld), cx.span(tcx.def_span(d))));
            }
            DefKind::Impl { of_trait } => {
                if of_trait {
                    let tr = tcx.impl_trait_ref(d);
                    let h = tcx.impl_trait_header(d);
                    rows.push(format!("{{\"impl\":{},\"for\":{},\"unsafe\":{},\"sp\":{}}}", esc(&cx.path(tr.skip_binder().def_id)), esc(&cx.tystr(tcx.type_of(d).skip_binder())), h.safety.is_unsafe(), cx.span(tcx.def_span(d))));
                }
            }
            _ => {}
        }
    }
    for ld in tcx.hir_body_owners() { unsafe_ops(&cx, ld, &mut rows); }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in rows { writeln!(f, "{}", r).unwrap(); }
}

/// Operations the compiler does not check: unsafe calls, raw pointer dereferences, casts that make pointers, unions, mutable statics, assembly.
fn unsafe_ops<'tcx>(cx: &Cx<'tcx>, ld: rustc_hir::def_id::LocalDefId, rows: &mut Vec<String>) {
    use rustc_middle::thir::ExprKind as K;
    let tcx = cx.tcx;
    let Ok((thir, _)) = tcx.thir_body(ld) else { return };
    let thir = thir.borrow();
    let root = tcx.typeck_root_def_id(ld.to_def_id());
    let lint = tcx.def_span(ld.to_def_id()).from_expansion();
    let mut put = |k: &str, what: String, args: Vec<String>, sp: Span| {
        rows.push(format!("{{\"uop\":{},\"what\":{},\"args\":{},\"in\":{},\"clos\":{},\"exp\":{},\"sp\":{}}}", esc(k), esc(&what), list(args), esc(&cx.path(root)), root != ld.to_def_id(), lint, cx.span(sp)));
    };
    for e in thir.exprs.iter() {
        match &e.kind {
            K::Call { ty, .. } => match ty.kind() {
                ty::FnDef(d, a) => {
                    let sig = tcx.fn_sig(*d).skip_binder();
                    let name = tcx.opt_item_name(*d).map(|x| x.to_string()).unwrap_or_default();
                    if sig.safety().is_unsafe() { put("call", cx.path(*d), a.skip_binder().types().map(|t| esc(&cx.tystr(t))).collect(), e.span); }
                    else { put("safecall", cx.path(*d), vec![esc(&name)], e.span); }
                }
                ty::FnPtr(_, h) if h.safety().is_unsafe() => put("call", "fn pointer".into(), vec![], e.span),
                _ => {}
            },
            K::Deref { arg } => if thir[*arg].ty.is_raw_ptr() { put("deref", cx.tystr(thir[*arg].ty), vec![], e.span) },
            K::Field { lhs, .. } => if thir[*lhs].ty.is_union() { put("union", cx.tystr(thir[*lhs].ty), vec![], e.span) },
            K::StaticRef { def_id, .. } => if tcx.is_mutable_static(*def_id) { put("static", cx.path(*def_id), vec![], e.span) },
            K::ThreadLocalRef(d) => put("thread_local", cx.path(*d), vec![], e.span),
            K::InlineAsm(_) => put("asm", String::new(), vec![], e.span),
            K::Cast { source } => {
                let (a, b) = (thir[*source].ty, e.ty);
                if b.is_raw_ptr() { put(if a.is_raw_ptr() || a.is_ref() { "ptrcast" } else { "int2ptr" }, String::new(), vec![esc(&cx.tystr(a)), esc(&cx.tystr(b))], e.span); }
                else if a.is_raw_ptr() || a.is_fn() { put("ptr2int", String::new(), vec![esc(&cx.tystr(a)), esc(&cx.tystr(b))], e.span); }
            }
            _ => {}
        }
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate == "parcode" { inventory(tcx, &format!("{}.inv", self.out)); return rustc_driver::Compilation::Continue; }
        let mut cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized(), tys: Default::default(), tyrows: vec![], insts: Default::default(), queue: Default::default(),
            targets: vec!["parcode".into(), krate.clone()], vtables: Default::default(), vrows: vec![], statics: Default::default() };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) { continue; }
            let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
            let n = cx.inst(Instance::new_raw(d, args));
            roots.push(n.to_string());
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(&self.out).unwrap());
        while let Some((n, i)) = cx.queue.pop_front() {
            let r = cx.body(n, i);
            writeln!(f, "{}", r).unwrap();
        }
        for v in &cx.vrows { writeln!(f, "{}", v).unwrap(); }
        // ADT type rows may queue closures; already drained because types are created inside body().
        for t in &cx.tyrows { writeln!(f, "{}", t).unwrap(); }
        for d in cx.statics.clone() {
            let t = tcx.type_of(d).skip_binder();
            writeln!(f, "{{\"usedstatic\":{},\"mut\":{},\"freeze\":{},\"ty\":{}}}", esc(&cx.path(d)), tcx.is_mutable_static(d), t.is_freeze(tcx, cx.env), esc(&cx.tystr(t))).unwrap();
        }
        let mut us = vec![];
        for ld in tcx.hir_body_owners() { unsafe_ops(&cx, ld, &mut us); }
        for r in us { writeln!(f, "{}", r).unwrap(); }
        writeln!(f, "{{\"roots\":{}}}", list(roots)).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // As RUSTC_WRAPPER: argv[1] is the real rustc.
    let args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    let out = std::env::var("SA_FACTS").unwrap_or_default();
    let want = !out.is_empty() && !args.iter().any(|a| a.starts_with("--print")) && (name == "parcode" || name == "probe");
    if want {
        let mut args = args;
        args.extend(std::env::var("SA_EXTRA").unwrap_or_default().split_whitespace().map(String::from));
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        panic!("exec {}: {}", args[0], e);
    }
}
