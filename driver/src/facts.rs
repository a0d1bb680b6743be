//! Facts about a library crate as compiled: what it links, its statics, what each body calls,
//! which types it mentions, and which of its public types are freely shareable.
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeMap;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Name and crate of every type constructor mentioned in a type.
fn adts(t: Ty, out: &mut Vec<(String, String)>) {
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, g) => {
                out.push((d.krate().name.to_string(), d.name().to_string()));
                gargs(&g, out);
            }
            RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Pat(t, _) => adts(t, out),
            RigidTy::Tuple(v) => v.iter().for_each(|t| adts(*t, out)),
            RigidTy::FnDef(_, g) | RigidTy::Closure(_, g) | RigidTy::Coroutine(_, g) => gargs(&g, out),
            RigidTy::Foreign(d) => out.push((d.krate().name.to_string(), d.name().to_string())),
            _ => {}
        },
        _ => {}
    }
}
fn gargs(g: &GenericArgs, out: &mut Vec<(String, String)>) {
    for a in &g.0 {
        if let GenericArgKind::Type(t) = a {
            adts(*t, out);
        }
    }
}

struct V {
    calls: BTreeMap<(String, String), usize>,
    types: BTreeMap<(String, String), usize>,
    statics: BTreeMap<String, (bool, bool, bool)>,
    ptr_casts: usize,
    asm: usize,
    tls: usize,
    foreign: Vec<String>,
}

fn line(s: rustc_public::ty::Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

fn note_static(tcx: TyCtxt, d: rustc_public::mir::mono::StaticDef, v: &mut V) {
    let id = rustc_internal::internal(tcx, d.def_id());
    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    v.statics.insert(d.name().to_string(), (tcx.is_mutable_static(id), tcx.is_thread_local_static(id), t.is_freeze(tcx, env)));
}

fn operand(tcx: TyCtxt, o: &Operand, v: &mut V) {
    if let Operand::Constant(c) = o {
        konst(tcx, &c.const_, v)
    }
}
fn konst(tcx: TyCtxt, c: &MirConst, v: &mut V) {
    let t = c.ty();
    if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = t.kind() {
        *v.calls.entry((d.krate().name.to_string(), d.name().to_string())).or_insert(0) += 1;
        if tcx.is_foreign_item(rustc_internal::internal(tcx, d.def_id())) {
            v.foreign.push(d.name().to_string());
        }
        let mut ts = vec![];
        gargs(&g, &mut ts);
        for t in ts {
            *v.types.entry(t).or_insert(0) += 1;
        }
    }
    if let ConstantKind::Allocated(a) = c.kind() {
        for (_, p) in &a.provenance.ptrs {
            if let rustc_public::mir::alloc::GlobalAlloc::Static(d) = rustc_public::mir::alloc::GlobalAlloc::from(p.0) {
                note_static(tcx, d, v)
            }
        }
    }
}

struct W<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    v: &'a mut V,
}
impl<'a, 'tcx> MirVisitor for W<'a, 'tcx> {
    fn visit_ty(&mut self, t: &Ty, _l: visit::Location) {
        let mut ts = vec![];
        adts(*t, &mut ts);
        for t in ts {
            *self.v.types.entry(t).or_insert(0) += 1;
        }
        self.super_ty(t);
    }
    fn visit_operand(&mut self, o: &Operand, l: visit::Location) {
        operand(self.tcx, o, self.v);
        self.super_operand(o, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        match r {
            Rvalue::Cast(CastKind::PointerExposeAddress, _, _) => self.v.ptr_casts += 1,
            Rvalue::ThreadLocalRef(_) => self.v.tls += 1,
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.v.asm += 1;
        }
        self.super_terminator(t, l);
    }
}

pub fn run(tcx: TyCtxt, out: &str, name: &str) {
    let mut s = String::from("{\n");
    let ext: Vec<String> = rustc_public::external_crates().iter().map(|c| js(&c.name.to_string())).collect();
    s.push_str(&format!("\"crate\":{},\n\"links\":[{}],\n\"bodies\":[\n", js(name), ext.join(",")));
    let mut first = true;
    for it in rustc_public::all_local_items() {
        let Some(b) = it.body() else { continue };
        let mut v = V { calls: BTreeMap::new(), types: BTreeMap::new(), statics: BTreeMap::new(), ptr_casts: 0, asm: 0, tls: 0, foreign: vec![] };
        for l in b.locals() {
            let mut ts = vec![];
            adts(l.ty, &mut ts);
            for t in ts {
                *v.types.entry(t).or_insert(0) += 1;
            }
        }
        W { tcx, v: &mut v }.visit_body(&b);
        if !first {
            s.push_str(",\n");
        }
        first = false;
        let pairs = |m: &BTreeMap<(String, String), usize>| m.iter().map(|((k, n), c)| format!("[{},{},{}]", js(k), js(n), c)).collect::<Vec<_>>().join(",");
        s.push_str(&format!(
            "{{\"name\":{},\"at\":{},\"calls\":[{}],\"types\":[{}],\"statics\":[{}],\"ptr_casts\":{},\"asm\":{},\"tls\":{},\"foreign\":[{}]}}",
            js(&it.name().to_string()),
            js(&line(it.span())),
            pairs(&v.calls),
            pairs(&v.types),
            v.statics.iter().map(|(n, (m, t, f))| format!("[{},{},{},{}]", js(n), m, t, f)).collect::<Vec<_>>().join(","),
            v.ptr_casts,
            v.asm,
            v.tls,
            v.foreign.iter().map(|n| js(n)).collect::<Vec<_>>().join(",")
        ));
    }
    s.push_str("],\n\"statics\":[");
    let mut first = true;
    for d in rustc_public::local_crate().statics() {
        let mut v = V { calls: BTreeMap::new(), types: BTreeMap::new(), statics: BTreeMap::new(), ptr_casts: 0, asm: 0, tls: 0, foreign: vec![] };
        note_static(tcx, d, &mut v);
        for (n, (m, t, f)) in v.statics {
            if !first {
                s.push_str(",\n");
            }
            first = false;
            s.push_str(&format!("[{},{},{},{},{}]", js(&n), m, t, f, js(&line(d.span()))));
        }
    }
    s.push_str("],\n\"types\":[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let id = id.to_def_id();
        use rustc_hir::def::DefKind;
        if !matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let env = rustc_middle::ty::TypingEnv::post_analysis(tcx, id);
        let freeze = t.is_freeze(tcx, env);
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
        let has = |d: Option<rustc_span::def_id::DefId>| d.map(|d| infcx.type_implements_trait(d, [t], pe).must_apply_modulo_regions()).unwrap_or(false);
        let send = has(tcx.get_diagnostic_item(rustc_span::sym::Send));
        let sync = has(tcx.lang_items().sync_trait());
        let public = tcx.visibility(id).is_public();
        if !first {
            s.push_str(",\n");
        }
        first = false;
        s.push_str(&format!("[{},{},{},{},{}]", js(&tcx.def_path_str(id)), public, send, sync, freeze));
    }
    s.push_str("],\n\"handles\":[");
    let h: Vec<String> = handles(tcx).iter().map(|(t, f, w, l)| format!("[{},{},{},{}]", js(t), js(f), js(w), js(l))).collect();
    s.push_str(&h.join(",\n"));
    s.push_str("],\n\"fields\":[");
    let mut fs = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind;
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Union) {
            for f in &tcx.adt_def(id).non_enum_variant().fields {
                fs.push(format!("[{},{},{}]", js(&tcx.def_path_str(id.to_def_id())), js(f.name.as_str()), f.vis.is_public()));
            }
        }
    }
    s.push_str(&fs.join(",\n"));
    s.push_str("]\n}\n");
    std::fs::write(format!("{out}.{name}"), s).expect("write facts");
}

/// Does the type hand out a mutable reference or pointer (directly, in a type argument, behind an
/// opaque type, or, for iterators and guards of other crates, in a field)?
fn writes<'tcx>(tcx: TyCtxt<'tcx>, t: rustc_middle::ty::Ty<'tcx>, depth: usize) -> bool {
    use rustc_middle::ty::{TyKind as K, TypeVisitableExt};
    for a in t.walk() {
        let Some(t) = a.as_type() else { continue };
        match t.kind() {
            K::Ref(_, _, m) if m.is_mut() => return true,
            K::RawPtr(_, m) if m.is_mut() => return true,
            K::Alias(_, a) => {
                if let rustc_middle::ty::AliasTyKind::Opaque { def_id } = a.kind {
                    if def_id.is_local() && depth < 4 && writes(tcx, tcx.type_of(def_id).instantiate_identity().skip_norm_wip(), depth + 1) {
                        return true;
                    }
                }
            }
            K::Adt(d, g) if depth < 4 && !d.is_phantom_data() && g.regions().next().is_some() => {
                for f in d.all_fields() {
                    let ft = tcx.type_of(f.did).instantiate(tcx, g).skip_norm_wip();
                    if ft != t && !ft.has_escaping_bound_vars() && writes(tcx, ft, depth + 1) {
                        return true;
                    }
                }
            }
            _ => {}
        }
    }
    false
}

/// Functions other crates can reach that take a type of this crate by mutable reference or by value
/// and hand out, or pass to a caller's closure, something that can be written through.
fn handles(tcx: TyCtxt) -> Vec<(String, String, String, String)> {
    use rustc_hir::def::DefKind;
    use rustc_middle::ty::TyKind as K;
    let ev = tcx.effective_visibilities(());
    let mut out = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let did = id.to_def_id();
        let of_trait = tcx.impl_of_assoc(did).is_some_and(|i| tcx.impl_opt_trait_ref(i).is_some());
        if !of_trait && !ev.is_reachable(id) {
            continue;
        }
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        let env = rustc_middle::ty::TypingEnv::post_analysis(tcx, did);
        let o = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(sig.output()))).unwrap_or(sig.output());
        let outp = writes(tcx, sig.output(), 0) || writes(tcx, o, 0);
        let mut callback = false;
        for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx).into_iter() {
            let c = c.skip_norm_wip();
            if let rustc_middle::ty::ClauseKind::Trait(p) = c.kind().skip_binder() {
                if tcx.fn_trait_kind_from_def_id(p.def_id()).is_some() && p.trait_ref.args.types().skip(1).any(|t| writes(tcx, t, 0)) {
                    callback = true;
                }
            }
        }
        for t in sig.inputs() {
            if let K::FnPtr(..) | K::Dynamic(..) = t.peel_refs().kind() {
                callback |= format!("{t:?}").contains("&mut ") || format!("{t:?}").contains(" mut ");
            }
        }
        if !outp && !callback {
            continue;
        }
        for t in sig.inputs() {
            let (t, by_mut) = match t.kind() {
                K::Ref(_, t, m) => (*t, m.is_mut()),
                _ => (*t, true),
            };
            if let K::Adt(d, _) = t.kind() {
                if by_mut && d.did().is_local() {
                    let at = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(did));
                    out.push((tcx.def_path_str(d.did()), tcx.def_path_str(did), if outp { "returns something that can be written through".into() } else { "passes a mutable reference to its caller's closure".into() }, at));
                }
            }
        }
    }
    out
}
