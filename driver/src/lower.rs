//! Lowering of monomorphic MIR (rustc_public) into a compact IR with resolved layouts.
use crate::val::*;
use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::target::MachineInfo;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Debug, Clone)]
pub enum Enc {
    Single(u128),
    /// discriminant values per variant
    Direct { tag_off: u64, tag_size: u32, discr: Vec<u128> },
    Niche { tag_off: u64, tag_size: u32, untagged: usize, start: usize, end: usize, niche_start: u128, discr: Vec<u128> },
    None,
}
#[derive(Debug)]
pub struct EnumInfo {
    pub enc: Enc,
    pub discr_size: u32,
    pub opaque: bool,
    pub name: String,
}

#[derive(Debug, Clone)]
pub struct TI {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub uns: bool,
    pub signed: bool,
}

#[derive(Debug, Clone)]
pub enum Proj {
    Deref { fat: bool },
    Off(u64),
    Index { local: usize, stride: u64 },
    ConstIdx { off: u64, from_end: bool, stride: u64, arr: Option<u64> },
    Sub { from: u64, to: u64, from_end: bool, stride: u64, arr: Option<u64> },
}
#[derive(Debug, Clone)]
pub struct LPlace {
    pub local: usize,
    pub proj: Vec<Proj>,
    pub size: u64,
    pub uns: bool,
    pub ty: Ty,
}
#[derive(Debug, Clone)]
pub enum LOp {
    Place(LPlace),
    Const(Obj, u64, Ty),
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(LOp),
    Ref(LPlace),
    Bin { op: BinOp, a: LOp, b: LOp, size: u32, signed: bool, bsize: u32, stride: u64 },
    Checked { op: BinOp, a: LOp, b: LOp, size: u32, signed: bool, ovf_off: u64 },
    Not(LOp, u32, bool),
    Neg(LOp, u32),
    NegF(LOp, u32),
    PtrMeta(LOp),
    IntCast { a: LOp, from: u32, signed: bool, to: u32 },
    FloatOp { name: &'static str, a: LOp, from: u32, signed: bool, to: u32 },
    /// keep the first `to` bytes (pointer casts, transmutes, subtypes)
    Bytes { a: LOp, to: u64, from: u64 },
    Unsize { a: LOp, meta: V, size: u64 },
    ToFn(u32),
    Discr(LPlace, Rc<EnumInfo>, u32),
    Agg { parts: Vec<(u64, u64, LOp)>, set: Option<(Rc<EnumInfo>, usize)>, size: u64 },
    RawPtr(LOp, LOp, bool),
    Repeat { a: LOp, n: u64, stride: u64 },
    LenC(u64),
    LenMeta(LPlace),
    Bad(String),
}
#[derive(Debug, Clone)]
pub enum LStmt {
    Assign(LPlace, Rv),
    SetDiscr(LPlace, Rc<EnumInfo>, usize),
    CopyNo { src: LOp, dst: LOp, n: LOp, stride: u64 },
    Bad(String),
}
#[derive(Debug, Clone)]
pub enum LTerm {
    Goto(usize),
    Switch { d: LOp, size: u32, br: Vec<(u128, usize)>, other: usize },
    Return,
    Unreachable,
    Drop { place: LPlace, inst: Option<Instance>, t: usize },
    Call { callee: Callee, args: Vec<LOp>, dest: LPlace, t: Option<usize>, rust_call: bool, last_tuple: Vec<(u64, u64)> },
    Assert { c: LOp, expected: bool, msg: &'static str, t: usize },
    Bad(String),
}
#[derive(Debug, Clone)]
pub enum Callee {
    Def(Rc<CallDef>),
    Ptr(LOp),
}
#[derive(Debug)]
pub struct CallDef {
    pub name: String,
    pub def: FnDef,
    pub args: GenericArgs,
    pub inst: Result<Instance, String>,
    pub krate: String,
    pub arg_tys: Vec<Ty>,
    pub ret_ty: Ty,
}
#[derive(Debug)]
pub struct LBlock {
    pub stmts: Vec<LStmt>,
    pub term: LTerm,
    pub lines: Vec<String>,
}

pub struct LBody {
    pub inst: Instance,
    pub name: Rc<str>,
    pub krate: String,
    pub body: Body,
    pub local_tys: Vec<Ty>,
    pub local_sizes: RefCell<Vec<Option<(u64, u64)>>>,
    pub argc: usize,
    pub spread: Option<usize>,
    pub blocks: RefCell<Vec<Option<Rc<LBlock>>>>,
    pub can_return: Vec<bool>,
    pub ipdom: RefCell<Option<Rc<Vec<Option<usize>>>>>,
}

#[derive(Default)]
pub struct Globals {
    pub allocs: Vec<Rc<Alloc>>,
    by_id: HashMap<AllocId, V>,
    pub fns: Vec<Instance>,
    fn_ix: HashMap<Instance, u32>,
    tis: HashMap<Ty, Rc<TI>>,
    enums: HashMap<Ty, Rc<EnumInfo>>,
    bodies: HashMap<Instance, Rc<LBody>>,
    pub statics: Vec<String>,
    pub vts: Vec<Ty>,
}
pub const GLOBAL: u32 = 1 << 31;

thread_local!(pub static G: RefCell<Globals> = RefCell::new(Globals::default()));

pub fn ti(ty: Ty) -> R<Rc<TI>> {
    if let Some(t) = G.with(|g| g.borrow().tis.get(&ty).cloned()) {
        return Ok(t);
    }
    let l = ty.layout().map_err(|e| format!("no layout for {ty}: {e:?}"))?.shape();
    let signed = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)));
    let t = Rc::new(TI { ty, size: l.size.bytes() as u64, align: l.abi_align, uns: l.is_unsized(), signed });
    G.with(|g| g.borrow_mut().tis.insert(ty, t.clone()));
    Ok(t)
}

pub fn mask(size: u32) -> u128 {
    if size >= 16 {
        u128::MAX
    } else {
        (1u128 << (8 * size)) - 1
    }
}

pub fn is_opaque_adt(name: &str) -> bool {
    name == "ark_r1cs_std::fields::fp::FpVar" || name == "ark_relations::r1cs::ConstraintSystemRef"
}

pub fn enum_info(ty: Ty) -> R<Rc<EnumInfo>> {
    if let Some(t) = G.with(|g| g.borrow().enums.get(&ty).cloned()) {
        return Ok(t);
    }
    let l = ty.layout().map_err(|e| format!("no layout for {ty}: {e:?}"))?.shape();
    let (discr, dsize, opaque, name) = match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
            let vs: Vec<Discr> = def.variants().iter().map(|v| def.discriminant_for_variant(v.idx())).collect();
            let ds = vs.first().map(|d| ti(d.ty)).transpose()?.map(|t| t.size as u32).unwrap_or(1);
            (vs.iter().map(|d| d.val).collect::<Vec<_>>(), ds, is_opaque_adt(&def.name()), def.name().to_string())
        }
        _ => (vec![], 1, false, String::new()),
    };
    let enc = match &l.variants {
        VariantsShape::Empty => Enc::None,
        VariantsShape::Single { index } => Enc::Single(discr.get(idx(*index)).copied().unwrap_or(0)),
        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
            let tag_off = match &l.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64,
                _ => 0,
            };
            let prim = match tag {
                Scalar::Initialized { value, .. } => value,
                Scalar::Union { value } => value,
            };
            let tag_size = prim.size(&MachineInfo::target()).bytes() as u32;
            match tag_encoding {
                TagEncoding::Direct => Enc::Direct { tag_off, tag_size, discr },
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Enc::Niche {
                    tag_off,
                    tag_size,
                    untagged: idx(*untagged_variant),
                    start: idx(*niche_variants.start()),
                    end: idx(*niche_variants.end()),
                    niche_start: *niche_start,
                    discr,
                },
            }
        }
    };
    let e = Rc::new(EnumInfo { enc, discr_size: dsize, opaque, name });
    G.with(|g| g.borrow_mut().enums.insert(ty, e.clone()));
    Ok(e)
}

pub fn idx<I: IndexedVal>(i: I) -> usize {
    i.to_index()
}

pub fn field_off(ty: Ty, variant: Option<usize>, f: usize) -> R<u64> {
    let l = ty.layout().map_err(|e| format!("no layout for {ty}: {e:?}"))?.shape();
    match (&l.variants, variant) {
        (VariantsShape::Multiple { variants, .. }, Some(v)) => Ok(variants[v].offsets[f].bytes() as u64),
        _ => match &l.fields {
            FieldsShape::Arbitrary { offsets } => offsets.get(f).map(|o| o.bytes() as u64).ok_or_else(|| format!("field {f} of {ty}")),
            FieldsShape::Union(_) => Ok(0),
            FieldsShape::Array { stride, .. } => Ok(stride.bytes() as u64 * f as u64),
            FieldsShape::Primitive => Ok(0),
        },
    }
}

pub fn pointee(ty: Ty) -> Option<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        _ => None,
    }
}
pub fn is_fat(p: Ty) -> R<bool> {
    Ok(match p.kind() {
        TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..)) => true,
        _ => ti(p)?.uns,
    })
}
pub fn array_len(c: &TyConst) -> R<u64> {
    c.eval_target_usize().map_err(|e| format!("array length: {e:?}"))
}
pub fn elem(ty: Ty) -> Option<(Ty, Option<TyConst>)> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Array(t, n)) => Some((t, Some(n))),
        TyKind::RigidTy(RigidTy::Slice(t)) => Some((t, None)),
        _ => None,
    }
}

pub fn fn_id(i: Instance) -> u32 {
    G.with(|g| {
        let mut g = g.borrow_mut();
        if let Some(&k) = g.fn_ix.get(&i) {
            return k;
        }
        let k = g.fns.len() as u32;
        g.fns.push(i);
        g.fn_ix.insert(i, k);
        k
    })
}

fn alloc_slots(a: &Allocation) -> R<Vec<Slot>> {
    let mut out = vec![];
    let n = a.bytes.len();
    let mut i = 0usize;
    let mut ptrs: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
    ptrs.sort_by_key(|p| p.0);
    let mut pi = 0;
    while i < n {
        if pi < ptrs.len() && ptrs[pi].0 == i {
            let mut addend = 0u64;
            for k in 0..8 {
                addend |= (a.bytes[i + k].unwrap_or(0) as u64) << (8 * k);
            }
            let v = global(ptrs[pi].1)?;
            let v = match v {
                V::Ptr(id, o) => V::Ptr(id, o + addend),
                v => v,
            };
            out.push(Slot { off: i as u64, size: 8, v });
            i += 8;
            pi += 1;
            continue;
        }
        let lim = n.min((i / 8 + 1) * 8).min(if pi < ptrs.len() { ptrs[pi].0 } else { n });
        if a.bytes[i].is_none() {
            i += 1;
            continue;
        }
        let mut j = i;
        let mut c = 0u128;
        while j < lim && a.bytes[j].is_some() {
            c |= (a.bytes[j].unwrap() as u128) << (8 * (j - i));
            j += 1;
        }
        out.push(Slot { off: i as u64, size: (j - i) as u32, v: V::Int(c) });
        i = j;
    }
    Ok(out)
}

pub fn global(id: AllocId) -> R<V> {
    if let Some(v) = G.with(|g| g.borrow().by_id.get(&id).copied()) {
        return Ok(v);
    }
    let v = match GlobalAlloc::from(id) {
        GlobalAlloc::Function(i) => V::Fn(fn_id(i)),
        GlobalAlloc::VTable(t, _) => G.with(|g| {
            let mut g = g.borrow_mut();
            V::Vt(vt_id(&mut g.vts, t))
        }),
        GlobalAlloc::Static(s) => {
            G.with(|g| g.borrow_mut().statics.push(s.name()));
            let a = s.eval_initializer().map_err(|e| format!("static {}: {e:?}", s.name()))?;
            mk_global(&a)?
        }
        GlobalAlloc::Memory(a) => mk_global(&a)?,
        GlobalAlloc::TypeId { .. } => V::Top,
    };
    G.with(|g| g.borrow_mut().by_id.insert(id, v));
    Ok(v)
}
fn mk_global(a: &Allocation) -> R<V> {
    let slots = alloc_slots(a)?;
    let al = Alloc { size: a.bytes.len() as u64, align: a.align, heap: false, readonly: true, slots };
    Ok(G.with(|g| {
        let mut g = g.borrow_mut();
        g.allocs.push(Rc::new(al));
        V::Ptr(GLOBAL | (g.allocs.len() as u32 - 1), 0)
    }))
}

pub fn const_obj(c: &MirConst) -> R<Obj> {
    match c.kind() {
        ConstantKind::ZeroSized => Ok(Obj::Z),
        ConstantKind::Allocated(a) => Ok(norm(Obj::from_slots(alloc_slots(a)?), a.bytes.len() as u64)),
        ConstantKind::Ty(t) => match t.kind() {
            TyConstKind::Value(_, a) => Ok(norm(Obj::from_slots(alloc_slots(a)?), a.bytes.len() as u64)),
            TyConstKind::ZSTValue(_) => Ok(Obj::Z),
            k => Err(format!("constant {k:?}")),
        },
        k => Err(format!("unevaluated constant {k:?}")),
    }
}
fn norm(o: Obj, size: u64) -> Obj {
    if let Obj::M(_) = &o {
        if size == 16 && o.slots().iter().all(|s| matches!(s.v, V::Int(_))) {
            // u128 constants are kept as two words; scalar() joins them on demand
        }
    }
    o
}

pub fn body_of(inst: Instance) -> R<Rc<LBody>> {
    if let Some(b) = G.with(|g| g.borrow().bodies.get(&inst).cloned()) {
        return Ok(b);
    }
    let body = inst.body().ok_or_else(|| format!("no MIR for {}", inst.name()))?;
    let n = body.blocks.len();
    // which blocks can reach a return (ignoring unwinding)
    let succ: Vec<Vec<usize>> = body.blocks.iter().map(|b| normal_succ(&b.terminator.kind)).collect();
    let mut can = vec![false; n];
    for (i, b) in body.blocks.iter().enumerate() {
        can[i] = matches!(b.terminator.kind, TerminatorKind::Return);
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !can[i] && succ[i].iter().any(|&s| can[s]) {
                can[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let local_tys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
    let b = Rc::new(LBody {
        inst,
        name: inst.name().into(),
        krate: inst.def.krate().name.to_string(),
        local_sizes: RefCell::new(vec![None; local_tys.len()]),
        argc: body.arg_locals().len(),
        spread: body.spread_arg(),
        blocks: RefCell::new(vec![None; n]),
        local_tys,
        can_return: can,
        ipdom: RefCell::new(None),
        body,
    });
    G.with(|g| g.borrow_mut().bodies.insert(inst, b.clone()));
    Ok(b)
}

pub fn n_bodies() -> usize {
    G.with(|g| g.borrow().bodies.len())
}
pub fn body_names() -> Vec<(String, String)> {
    let mut v: Vec<_> = G.with(|g| g.borrow().bodies.values().map(|b| (b.krate.clone(), b.name.to_string())).collect());
    v.sort();
    v
}

fn normal_succ(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::InlineAsm { destination, .. } => destination.iter().copied().collect(),
        _ => vec![],
    }
}

impl LBody {
    pub fn local_size(&self, l: usize) -> R<(u64, u64)> {
        if let Some(s) = self.local_sizes.borrow()[l] {
            return Ok(s);
        }
        let t = ti(self.local_tys[l])?;
        self.local_sizes.borrow_mut()[l] = Some((t.size, t.align));
        Ok((t.size, t.align))
    }
    /// immediate post-dominators among the blocks that can return; None = the exit
    pub fn ipdoms(&self) -> Rc<Vec<Option<usize>>> {
        if let Some(v) = &*self.ipdom.borrow() {
            return v.clone();
        }
        let n = self.body.blocks.len();
        let exit = n;
        let succ: Vec<Vec<usize>> = (0..n)
            .map(|i| {
                let mut s: Vec<usize> =
                    normal_succ(&self.body.blocks[i].terminator.kind).into_iter().filter(|&t| self.can_return[t]).collect();
                if matches!(self.body.blocks[i].terminator.kind, TerminatorKind::Return) {
                    s.push(exit);
                }
                s
            })
            .collect();
        // reverse post order on the reversed graph, Cooper-Harvey-Kennedy
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for i in 0..n {
            if self.can_return[i] {
                for &s in &succ[i] {
                    pred[s].push(i);
                }
            }
        }
        let mut order = vec![];
        let mut seen = vec![false; n + 1];
        fn dfs(u: usize, pred: &Vec<Vec<usize>>, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
            let mut st = vec![(u, 0usize)];
            seen[u] = true;
            while let Some((x, k)) = st.pop() {
                if k < pred[x].len() {
                    st.push((x, k + 1));
                    let p = pred[x][k];
                    if !seen[p] {
                        seen[p] = true;
                        st.push((p, 0));
                    }
                } else {
                    order.push(x);
                }
            }
        }
        dfs(exit, &pred, &mut seen, &mut order);
        order.reverse();
        let mut num = vec![usize::MAX; n + 1];
        for (i, &b) in order.iter().enumerate() {
            num[b] = i;
        }
        let mut idom: Vec<Option<usize>> = vec![None; n + 1];
        idom[exit] = Some(exit);
        loop {
            let mut ch = false;
            for &b in order.iter().skip(1) {
                let mut new: Option<usize> = None;
                for &s in &succ[b] {
                    if idom[s].is_some() {
                        new = Some(match new {
                            None => s,
                            Some(mut x) => {
                                let mut y = s;
                                while x != y {
                                    while num[x] > num[y] {
                                        x = idom[x].unwrap();
                                    }
                                    while num[y] > num[x] {
                                        y = idom[y].unwrap();
                                    }
                                }
                                x
                            }
                        });
                    }
                }
                if new != idom[b] {
                    idom[b] = new;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let v: Vec<Option<usize>> = (0..n).map(|i| idom[i].filter(|&x| x != exit)).collect();
        let v = Rc::new(v);
        *self.ipdom.borrow_mut() = Some(v.clone());
        v
    }
    pub fn block(&self, b: usize) -> R<Rc<LBlock>> {
        if let Some(x) = &self.blocks.borrow()[b] {
            return Ok(x.clone());
        }
        let x = Rc::new(self.lower_block(b)?);
        self.blocks.borrow_mut()[b] = Some(x.clone());
        Ok(x)
    }
    fn lower_block(&self, b: usize) -> R<LBlock> {
        let bb = &self.body.blocks[b];
        let mut stmts = vec![];
        for s in &bb.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    let lp = self.place(p)?;
                    let rv = match self.rvalue(r, &lp) {
                        Ok(r) => r,
                        Err(e) => Rv::Bad(e),
                    };
                    stmts.push(LStmt::Assign(lp, rv));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let lp = self.place(place)?;
                    let e = enum_info(lp.ty)?;
                    stmts.push(LStmt::SetDiscr(lp, e, idx(*variant_index)));
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                    let src = self.op(&c.src)?;
                    let t = pointee(c.src.ty(self.body.locals()).map_err(|e| format!("{e:?}"))?).ok_or("copy source")?;
                    let stride = ti(t)?.size;
                    stmts.push(LStmt::CopyNo { src, dst: self.op(&c.dst)?, n: self.op(&c.count)?, stride });
                }
                _ => {}
            }
        }
        let term = match self.term(&bb.terminator.kind) {
            Ok(t) => t,
            Err(e) => LTerm::Bad(e),
        };
        Ok(LBlock { stmts, term, lines: vec![] })
    }
    pub fn term_line(&self, b: usize) -> String {
        let s = self.body.blocks[b].terminator.source_info.span;
        let l = s.get_lines();
        let f = s.get_filename();
        format!("{}:{}", f, l.start_line)
    }

    fn place(&self, p: &Place) -> R<LPlace> {
        let mut ty = self.local_tys[p.local];
        let mut var: Option<usize> = None;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let t = match pointee(ty) {
                        Some(t) => t,
                        None => match ty.kind() {
                            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => *a.0[0].expect_ty(),
                            _ => return Err(format!("deref of {ty}")),
                        },
                    };
                    proj.push(Proj::Deref { fat: is_fat(t)? });
                    ty = t;
                    var = None;
                }
                ProjectionElem::Field(f, t) => {
                    let o = field_off(ty, var, *f)?;
                    if o != 0 {
                        proj.push(Proj::Off(o));
                    }
                    ty = *t;
                    var = None;
                }
                ProjectionElem::Index(l) => {
                    let (t, _) = elem(ty).ok_or_else(|| format!("index into {ty}"))?;
                    proj.push(Proj::Index { local: *l, stride: ti(t)?.size });
                    ty = t;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (t, n) = elem(ty).ok_or_else(|| format!("index into {ty}"))?;
                    let arr = n.map(|n| array_len(&n)).transpose()?;
                    proj.push(Proj::ConstIdx { off: *offset, from_end: *from_end, stride: ti(t)?.size, arr });
                    ty = t;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (t, n) = elem(ty).ok_or_else(|| format!("subslice of {ty}"))?;
                    let arr = n.map(|n| array_len(&n)).transpose()?;
                    proj.push(Proj::Sub { from: *from, to: *to, from_end: *from_end, stride: ti(t)?.size, arr });
                    if let Some(n) = arr {
                        let len = if *from_end { n - from - to } else { to - from };
                        ty = Ty::try_new_array(t, len).map_err(|e| format!("{e:?}"))?;
                    }
                }
                ProjectionElem::Downcast(v) => var = Some(idx(*v)),
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        let t = match ty.kind() {
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                return Ok(LPlace { local: p.local, proj, size: 0, uns: true, ty })
            }
            _ => ti(ty)?,
        };
        Ok(LPlace { local: p.local, proj, size: t.size, uns: t.uns, ty })
    }
    fn op(&self, o: &Operand) -> R<LOp> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Ok(LOp::Place(self.place(p)?)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                Ok(LOp::Const(const_obj(&c.const_)?, ti(ty)?.size, ty))
            }
            Operand::RuntimeChecks(k) => {
                let v = matches!(k, RuntimeChecks::OverflowChecks);
                Ok(LOp::Const(Obj::int(v as u128, 1), 1, Ty::bool_ty()))
            }
        }
    }
    fn op_ty(&self, o: &Operand) -> R<Ty> {
        o.ty(self.body.locals()).map_err(|e| format!("{e:?}"))
    }
    fn rvalue(&self, r: &Rvalue, dest: &LPlace) -> R<Rv> {
        Ok(match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)?),
            Rvalue::CopyForDeref(p) => Rv::Use(LOp::Place(self.place(p)?)),
            Rvalue::Reborrow(_, _, p) => Rv::Use(LOp::Place(self.place(p)?)),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(p)?),
            Rvalue::BinaryOp(op, a, b) => {
                let t = self.op_ty(a)?;
                let tt = ti(t)?;
                let bt = ti(self.op_ty(b)?)?;
                let stride = match pointee(t) {
                    Some(p) if !is_fat(p)? => ti(p)?.size,
                    _ => 0,
                };
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Float(_))) {
                    return Err(format!("floating point {op:?}"));
                }
                Rv::Bin { op: *op, a: self.op(a)?, b: self.op(b)?, size: tt.size as u32, signed: tt.signed, bsize: bt.size as u32, stride }
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let tt = ti(self.op_ty(a)?)?;
                Rv::Checked {
                    op: *op,
                    a: self.op(a)?,
                    b: self.op(b)?,
                    size: tt.size as u32,
                    signed: tt.signed,
                    ovf_off: field_off(dest.ty, None, 1)?,
                }
            }
            Rvalue::UnaryOp(UnOp::Not, a) => {
                let t = self.op_ty(a)?;
                Rv::Not(self.op(a)?, ti(t)?.size as u32, t.kind().is_bool())
            }
            Rvalue::UnaryOp(UnOp::Neg, a) => {
                let t = self.op_ty(a)?;
                let s = ti(t)?.size as u32;
                if t.kind().is_float() {
                    Rv::NegF(self.op(a)?, s)
                } else {
                    Rv::Neg(self.op(a)?, s)
                }
            }
            Rvalue::UnaryOp(UnOp::PtrMetadata, a) => Rv::PtrMeta(self.op(a)?),
            Rvalue::Len(p) => {
                let lp = self.place(p)?;
                match lp.ty.kind() {
                    TyKind::RigidTy(RigidTy::Array(_, n)) => Rv::LenC(array_len(&n)?),
                    _ => Rv::LenMeta(lp),
                }
            }
            Rvalue::Cast(k, a, t) => {
                let from = ti(self.op_ty(a)?)?;
                let to = ti(*t)?;
                let a2 = self.op(a)?;
                match k {
                    CastKind::IntToInt => Rv::IntCast { a: a2, from: from.size as u32, signed: from.signed, to: to.size as u32 },
                    CastKind::PtrToPtr
                    | CastKind::FnPtrToPtr
                    | CastKind::Transmute
                    | CastKind::BoxDerefTransmute
                    | CastKind::Subtype
                    | CastKind::PointerExposeAddress
                    | CastKind::PointerWithExposedProvenance => Rv::Bytes { a: a2, to: to.size, from: from.size },
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        let m = unsize_meta(from.ty, to.ty)?;
                        match m {
                            Some(m) => Rv::Unsize { a: a2, meta: m, size: to.size },
                            None => Rv::Bytes { a: a2, to: to.size, from: from.size },
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match from.ty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, g)) => {
                            Rv::ToFn(fn_id(Instance::resolve_for_fn_ptr(d, &g).map_err(|e| format!("{e:?}"))?))
                        }
                        _ => return Err("reify".into()),
                    },
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match from.ty.kind() {
                        TyKind::RigidTy(RigidTy::Closure(d, g)) => Rv::ToFn(fn_id(
                            Instance::resolve_closure(d, &g, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?,
                        )),
                        _ => return Err("closure reify".into()),
                    },
                    CastKind::PointerCoercion(_) => Rv::Bytes { a: a2, to: to.size, from: from.size },
                    CastKind::FloatToInt => Rv::FloatOp { name: "FloatToInt", a: a2, from: from.size as u32, signed: to.signed, to: to.size as u32 },
                    CastKind::FloatToFloat => Rv::FloatOp { name: "FloatToFloat", a: a2, from: from.size as u32, signed: false, to: to.size as u32 },
                    CastKind::IntToFloat => Rv::FloatOp { name: "IntToFloat", a: a2, from: from.size as u32, signed: from.signed, to: to.size as u32 },
                }
            }
            Rvalue::Discriminant(p) => {
                let lp = self.place(p)?;
                let e = enum_info(lp.ty)?;
                let s = dest.size as u32;
                Rv::Discr(lp, e, s)
            }
            Rvalue::Repeat(a, n) => {
                let n = array_len(n)?;
                let t = ti(self.op_ty(a)?)?;
                Rv::Repeat { a: self.op(a)?, n, stride: t.size }
            }
            Rvalue::Aggregate(k, ops) => match k {
                AggregateKind::RawPtr(t, _) => Rv::RawPtr(self.op(&ops[0])?, self.op(&ops[1])?, is_fat(*t)?),
                _ => {
                    let mut variant = None;
                    let mut set = None;
                    let mut only = None;
                    if let AggregateKind::Adt(d, v, _, _, f) = k {
                        only = *f;
                        if d.kind() == AdtKind::Enum {
                            variant = Some(idx(*v));
                            set = Some((enum_info(dest.ty)?, idx(*v)));
                        }
                    }
                    let stride = match k {
                        AggregateKind::Array(t) => Some(ti(*t)?.size),
                        _ => None,
                    };
                    let mut parts = vec![];
                    for (i, o) in ops.iter().enumerate() {
                        let f = only.map(|x| x as usize).unwrap_or(i);
                        let off = match stride {
                            Some(s) => s * i as u64,
                            None => field_off(dest.ty, variant, f)?,
                        };
                        parts.push((off, ti(self.op_ty(o)?)?.size, self.op(o)?));
                    }
                    Rv::Agg { parts, set, size: dest.size }
                }
            },
            Rvalue::ThreadLocalRef(i) => return Err(format!("thread local {}", i.name())),
        })
    }
    fn term(&self, t: &TerminatorKind) -> R<LTerm> {
        Ok(match t {
            TerminatorKind::Goto { target } => LTerm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => LTerm::Switch {
                size: ti(self.op_ty(discr)?)?.size as u32,
                d: self.op(discr)?,
                br: targets.branches().collect(),
                other: targets.otherwise(),
            },
            TerminatorKind::Return => LTerm::Return,
            TerminatorKind::Unreachable => LTerm::Unreachable,
            TerminatorKind::Resume | TerminatorKind::Abort => LTerm::Bad("unwinding".into()),
            TerminatorKind::Drop { place, target, .. } => {
                let lp = self.place(place)?;
                let inst = Instance::resolve_drop_in_place(lp.ty);
                let inst = if inst.is_empty_shim() || no_drop_needed(lp.ty) { None } else { Some(inst) };
                LTerm::Drop { place: lp, inst, t: *target }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => LTerm::Assert {
                c: self.op(cond)?,
                expected: *expected,
                msg: match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds",
                    AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "arithmetic overflow",
                    AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "division by zero",
                    AssertMessage::MisalignedPointerDereference { .. } => "misaligned pointer",
                    AssertMessage::NullPointerDereference | AssertMessage::NullReferenceConstructed => "null pointer",
                    _ => "assertion",
                },
                t: *target,
            },
            TerminatorKind::InlineAsm { .. } => LTerm::Bad("inline assembly".into()),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(func)?;
                let dest = self.place(destination)?;
                let mut largs = vec![];
                for a in args {
                    largs.push(self.op(a)?);
                }
                let mut rust_call = false;
                let mut last_tuple = vec![];
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, g)) => {
                        let sig = fty.kind().fn_sig().ok_or("fn sig")?.skip_binder();
                        rust_call = matches!(sig.abi, Abi::RustCall);
                        let inst = Instance::resolve(d, &g).map_err(|e| format!("{e:?}"));
                        let mut arg_tys = vec![];
                        for a in args {
                            arg_tys.push(self.op_ty(a)?);
                        }
                        Callee::Def(Rc::new(CallDef {
                            name: d.name(),
                            krate: match &inst {
                                Ok(i) => i.def.krate().name.to_string(),
                                Err(_) => d.krate().name.to_string(),
                            },
                            def: d,
                            args: g,
                            inst,
                            arg_tys,
                            ret_ty: dest.ty,
                        }))
                    }
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => Callee::Ptr(self.op(func)?),
                    k => return Err(format!("call of {k:?}")),
                };
                if rust_call {
                    if let Some(l) = args.last() {
                        let t = self.op_ty(l)?;
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for (i, x) in ts.iter().enumerate() {
                                last_tuple.push((field_off(t, None, i)?, ti(*x)?.size));
                            }
                        }
                    }
                }
                LTerm::Call { callee, args: largs, dest, t: *target, rust_call, last_tuple }
            }
        })
    }
}

/// Types whose destruction has no effect the analysis tracks.
fn no_drop_needed(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => is_opaque_adt(&d.name()),
        _ => false,
    }
}

fn unsize_meta(from: Ty, to: Ty) -> R<Option<V>> {
    match (pointee(from), pointee(to)) {
        (Some(a), Some(b)) => pointee_meta(a, b),
        _ => match (from.kind(), to.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d, ga)), TyKind::RigidTy(RigidTy::Adt(_, gb))) => {
                if d.is_box() {
                    return pointee_meta(*ga.0[0].expect_ty(), *gb.0[0].expect_ty());
                }
                let tys = |g: &GenericArgs| -> Vec<Ty> { g.0.iter().filter_map(|a| a.ty().copied()).collect() };
                for (a, b) in tys(&ga).into_iter().zip(tys(&gb)) {
                    if a != b {
                        return pointee_meta(a, b);
                    }
                }
                Err(format!("unsizing {from} to {to}"))
            }
            _ => Err(format!("unsizing {from} to {to}")),
        },
    }
}
fn vt_id(v: &mut Vec<Ty>, t: Ty) -> u32 {
    match v.iter().position(|x| *x == t) {
        Some(i) => i as u32,
        None => {
            v.push(t);
            v.len() as u32 - 1
        }
    }
}
fn pointee_meta(a: Ty, b: Ty) -> R<Option<V>> {
    match (a.kind(), b.kind()) {
        (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => Ok(Some(V::Int(array_len(&n)? as u128))),
        (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(None),
        (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(Some(G.with(|g| {
            V::Vt(vt_id(&mut g.borrow_mut().vts, a))
        }))),
        // a structure whose last field is unsized
        (TyKind::RigidTy(RigidTy::Adt(d, ga)), TyKind::RigidTy(RigidTy::Adt(e, gb))) if d == e && matches!(d.kind(), AdtKind::Struct) => {
            let fs = d.variants()[0].fields();
            let f = fs.last().ok_or("unsizing an empty structure")?;
            pointee_meta(f.ty_with_args(&ga), f.ty_with_args(&gb))
        }
        _ => Err(format!("unsizing {a} to {b}")),
    }
}
