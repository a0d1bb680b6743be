//! Contracts of the functions that are not analysed through their bodies: field arithmetic of
//! decaf377, the constraint-system library, the allocator, compiler intrinsics.
use crate::form::{self, Atom, Form};
use crate::fp::Fp;
use crate::interp::*;
use crate::lower::*;
use crate::val::{self, *};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Helpers {
    /// generic helper functions of the probe crate, by name
    pub fns: HashMap<String, FnDef>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    None,
    Intr(&'static str),
    Fq(&'static str),
    Fv(&'static str),
    Cs(&'static str),
    Rt(&'static str),
    Det,
}

pub fn leak(s: &str) -> &'static str {
    thread_local!(static L: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    L.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(x) = l.get(s) {
            return *x;
        }
        let b: &'static str = Box::leak(s.to_string().into_boxed_str());
        l.insert(s.to_string(), b);
        b
    })
}

pub fn strip(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, u, _)) => strip(u),
        _ => t,
    }
}
pub fn adt_name(t: Ty) -> Option<String> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.name().to_string()),
        _ => None,
    }
}
pub fn is_fq(t: Ty) -> bool {
    match adt_name(t) {
        Some(n) => n.starts_with("decaf377::fields::fq::") && n.ends_with("::Fq"),
        None => false,
    }
}
pub fn is_fv(t: Ty) -> bool {
    adt_name(t).as_deref() == Some("ark_r1cs_std::fields::fp::FpVar")
}
fn is_cs(t: Ty) -> bool {
    adt_name(t).as_deref() == Some("ark_relations::r1cs::ConstraintSystemRef")
}

fn last(n: &str) -> &str {
    n.rsplit("::").next().unwrap_or(n)
}

pub fn calldef_of(inst: Instance) -> Option<CallDef> {
    if matches!(inst.kind, InstanceKind::Shim) {
        return None;
    }
    let ty = inst.ty();
    let (d, g) = match ty.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, g)) => (d, g),
        _ => return None,
    };
    let sig = inst.fn_abi().ok()?;
    Some(CallDef {
        name: d.name().to_string(),
        krate: inst.def.krate().name.to_string(),
        def: d,
        args: g,
        inst: Ok(inst),
        arg_tys: sig.args.iter().map(|a| a.ty).collect(),
        ret_ty: sig.ret.ty,
    })
}

fn classify(d: &CallDef) -> M {
    let inst = match &d.inst {
        Ok(i) => *i,
        Err(_) => return M::None,
    };
    if matches!(inst.kind, InstanceKind::Intrinsic) {
        return M::Intr(leak(&inst.intrinsic_name().unwrap_or_default()));
    }
    let rn = inst.def.name().to_string();
    let f = last(&rn).to_string();
    let f = f.as_str();
    let k = d.krate.as_str();
    // functions of the standard library that are compiler-provided
    if k == "core" || k == "alloc" || k == "std" {
        if let Some(x) = ["__rust_alloc", "__rust_alloc_zeroed", "__rust_dealloc", "__rust_realloc", "__rust_no_alloc_shim_is_unstable", "__rust_no_alloc_shim_is_unstable_v2"]
            .iter()
            .find(|x| **x == f)
        {
            return M::Rt(leak(x));
        }
        if f == "black_box" {
            return M::Rt("black_box");
        }
        if rn.ends_with("::hint::assert_unchecked") || f == "precondition_check" || rn.ends_with("::hint::cold_path") {
            return M::Rt("nop");
        }
    }
    if k == "probe" && f == "error_code" {
        return M::Rt("error_code");
    }
    let a0 = d.arg_tys.first().map(|t| strip(*t));
    let a1 = d.arg_tys.get(1).map(|t| strip(*t));
    let fv = a0.map(is_fv).unwrap_or(false);
    let fv1 = a1.map(is_fv).unwrap_or(false);
    // the self type of a trait method
    let self_ty = d.args.0.first().and_then(|a| a.ty().copied());
    let self_fv = self_ty.map(|t| is_fv(strip(t))).unwrap_or(false);
    let dn = d.name.as_str();
    let trait_of = |t: &str| dn == t || dn.ends_with(&format!("::{t}"));
    if fv || fv1 || self_fv {
        for (t, c) in [
            ("Add::add", "add"),
            ("Sub::sub", "sub"),
            ("Mul::mul", "mul"),
            ("AddAssign::add_assign", "add_assign"),
            ("SubAssign::sub_assign", "sub_assign"),
            ("MulAssign::mul_assign", "mul_assign"),
            ("Neg::neg", "neg"),
        ] {
            if trait_of(t) {
                return M::Fv(c);
            }
        }
    }
    if self_fv || fv {
        for (t, c) in [
            ("Clone::clone", "clone"),
            ("FieldVar::zero", "zero"),
            ("FieldVar::one", "one"),
            ("FieldVar::constant", "constant"),
            ("FieldVar::double", "double"),
            ("FieldVar::double_in_place", "double_in_place"),
            ("FieldVar::negate", "negate"),
            ("FieldVar::negate_in_place", "negate_in_place"),
            ("FieldVar::square", "square"),
            ("FieldVar::square_in_place", "square_in_place"),
            ("FieldVar::inverse", "inverse"),
            ("FieldVar::pow_by_constant", "pow_by_constant"),
            ("FieldVar::mul_equals", "mul_equals"),
            ("FieldVar::square_equals", "square_equals"),
            ("AllocVar::new_constant", "new_constant"),
            ("AllocVar::new_witness", "new_witness"),
            ("AllocVar::new_input", "new_input"),
            ("AllocVar::new_variable", "new_variable"),
            ("R1CSVar::value", "value"),
            ("R1CSVar::is_constant", "is_constant"),
            ("R1CSVar::cs", "cs"),
            ("EqGadget::enforce_equal", "enforce_equal"),
            ("EqGadget::enforce_not_equal", "enforce_not_equal"),
            ("FieldVar::mul_by_inverse", "mul_by_inverse"),
            ("FieldVar::mul_by_inverse_unchecked", "mul_by_inverse_unchecked"),
            ("Sum::sum", "sum"),
            ("ToOwned::to_owned", "clone"),
            ("From::from", "from"),
            ("Default::default", "zero"),
        ] {
            if trait_of(t) {
                return M::Fv(c);
            }
        }
    }
    if a0.map(is_cs).unwrap_or(false) {
        if trait_of("Clone::clone") {
            return M::Cs("clone");
        }
        if k == "ark_relations" {
            return M::Cs(leak(f));
        }
    }
    if k == "decaf377" || (self_ty.map(is_fq).unwrap_or(false) && (k.starts_with("ark_") || k == "num_traits")) {
        let fq0 = a0.map(is_fq).unwrap_or(false);
        let ret_fq = is_fq(d.ret_ty);
        let inherent = rn.starts_with("decaf377::fields::fq::") && rn.contains("::wrapper::") || rn.contains("fields::fq::Fq::") || rn.contains("::Fq::");
        let trait_m = dn != rn;
        if trait_of("PartialEq::eq") && fq0 && a1.map(is_fq).unwrap_or(false) {
            return M::Fq("eq");
        }
        if trait_of("PartialEq::ne") && fq0 && a1.map(is_fq).unwrap_or(false) {
            return M::Fq("ne");
        }
        if (dn.ends_with("Field::pow")) && fq0 {
            return M::Fq("pow");
        }
        if (dn.ends_with("Field::inverse") || dn.ends_with("Field::inverse_in_place")) && fq0 {
            return M::Fq(if f == "inverse" { "inverse" } else { "inverse_in_place" });
        }
        if dn.ends_with("Field::square") && fq0 {
            return M::Fq("square");
        }
        if trait_of("Zero::is_zero") && fq0 {
            return M::Fq("is_zero");
        }
        if trait_of("One::is_one") && fq0 {
            return M::Fq("is_one");
        }
        if trait_of("Clone::clone") && fq0 {
            return M::Fq("copy");
        }
        if trait_of("Default::default") && ret_fq {
            return M::Fq("zero");
        }
        if !trait_m && inherent {
            let c = match f {
                "add" | "sub" | "mul" if fq0 && ret_fq => f,
                "neg" | "square" | "power" if fq0 && ret_fq => f,
                "inverse" if fq0 => f,
                "from_le_limbs" | "from_montgomery_limbs" | "from_raw_bytes" if ret_fq => f,
                "to_le_limbs" | "to_bytes_le" | "to_bytes" if fq0 => f,
                _ => "",
            };
            if !c.is_empty() {
                return M::Fq(leak(c));
            }
        }
        if dn.ends_with("ConstantTimeEq::ct_eq") && fq0 {
            return M::Fq("ct_eq");
        }
        if dn.ends_with("ConditionallySelectable::conditional_select") && fq0 {
            return M::Fq("cond_select");
        }
    }
    if k == "poseidon_parameters" && f == "determinant" && a0.map(|t| adt_name(t).map(|n| last(&n) == "SquareMatrix").unwrap_or(false)).unwrap_or(false) && dn.ends_with("SquareMatrixOperations::determinant") {
        return M::Det;
    }
    M::None
}

fn model_of(d: &CallDef) -> M {
    thread_local!(static C: RefCell<HashMap<usize, (M, Option<Instance>)>> = RefCell::new(HashMap::new()));
    let key = d as *const CallDef as usize;
    let i = d.inst.as_ref().ok().copied();
    let hit = C.with(|c| c.borrow().get(&key).cloned());
    if let Some((m, j)) = hit {
        if i == j {
            return m;
        }
    }
    let m = classify(d);
    if std::env::var("VP_TRACE").is_ok() && m == M::None && !d.krate.starts_with("core") && !d.krate.starts_with("alloc") {
        eprintln!("call {} [{}] -> {}", d.name, d.krate, d.inst.as_ref().map(|i| i.def.name().to_string()).unwrap_or_default());
    }
    C.with(|c| c.borrow_mut().insert(key, (m, i)));
    m
}

pub fn call(it: &mut Interp, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let m = model_of(d);
    let r = match m {
        M::None => return Ok(MRes::No),
        M::Intr(n) => intrinsic(it, n, d, args)?,
        M::Fq(n) => {
            let r = fq(it, n, d, args)?;
            it.note_factors();
            r
        }
        M::Fv(n) => {
            let r = fv(it, n, d, args)?;
            it.note_factors();
            r
        }
        M::Cs(n) => match n {
            "clone" => {
                let o = it.load(&args[0], ti(d.ret_ty)?.size)?;
                MRes::Val(o)
            }
            n => {
                it.event("Witness", format!("direct use of the constraint system: {n}"));
                return Err(format!("constraint system method {n}"));
            }
        },
        M::Rt(n) => rt(it, n, d, args)?,
        M::Det => det(it, d, args)?,
    };
    if !matches!(r, MRes::No) && !matches!(m, M::Intr(_)) {
        *it.modelled.entry(format!("{m:?}")).or_insert(0) += 1;
    }
    Ok(r)
}

// -------------------------------------------------------------------- field elements

fn fe_arg(it: &mut Interp, d: &CallDef, args: &[Obj], k: usize) -> R<Form> {
    let t = d.arg_tys[k];
    let mut o = args[k].clone();
    let mut t = t;
    while let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() {
        o = it.load(&o, ti(u)?.size)?;
        t = u;
    }
    fe_of(it, &o)
}
fn fe_obj(f: Form) -> Obj {
    Obj::S(V::Fe(f), 32)
}
/// Option<T> with the given payload; `some` is the condition of being Some.
pub fn option(it: &mut Interp, ty: Ty, some: T, payload: &Obj, psize: u64) -> R<Obj> {
    let e = enum_info(ty)?;
    let size = ti(ty)?.size;
    let off = field_off(ty, Some(1), 0)?;
    let mut a = Alloc::new(size, 1);
    a.write(off, psize, payload);
    let o = a.read(0, size);
    match some {
        T::C(c) => it.with_discr(o, &e, (c & 1) as usize, size),
        T::T(_) => match &e.enc {
            Enc::Direct { tag_off, tag_size, .. } => {
                a.write(*tag_off, *tag_size as u64, &Obj::S(val::to_v(some), *tag_size));
                Ok(a.read(0, size))
            }
            _ => Err("option with a niche and an undetermined variant".into()),
        },
    }
}
/// Result::Ok(payload) of the given type
fn ok_result(it: &mut Interp, ty: Ty, payload: &Obj, psize: u64) -> R<Obj> {
    let e = enum_info(ty)?;
    let size = ti(ty)?.size;
    let off = field_off(ty, Some(0), 0)?;
    let mut a = Alloc::new(size.max(1), 1);
    a.write(off, psize, payload);
    let o = a.read(0, size);
    it.with_discr(o, &e, 0, size)
}
fn limbs(it: &mut Interp, ptr: &Obj, n: u64) -> R<Vec<V>> {
    let mut v = vec![];
    let l = it.deref(ptr)?;
    for i in 0..n {
        let o = it.read_mem(l.id, l.off + 8 * i, 8)?;
        v.push(scalar(&o, 8).ok_or("uninitialised exponent")?);
    }
    Ok(v)
}
fn pow_v(it: &mut Interp, x: Form, e: V) -> R<Form> {
    match e {
        V::Int(c) => Ok(form::pow(x, c as u64)),
        V::Sym(t) => {
            if val::field_dep(t) {
                it.event("DataBranch", format!("exponent {}", val::show_term(t, 3)));
            }
            let mut t = t;
            if let Term::Cat(b) = &*val::get(t) {
                let mut k = b.len();
                while k > 1 && b[k - 1] == T::C(0) {
                    k -= 1;
                }
                match val::cat(&b[..k]) {
                    V::Sym(u) => t = u,
                    V::Int(c) => return Ok(form::pow(x, c as u64)),
                    _ => {}
                }
            }
            Ok(form::atom(Atom::PowSym(x, t)))
        }
        v => Err(format!("exponent {v:?}")),
    }
}
/// exponent passed as `impl AsRef<[u64]>`
fn exponent(it: &mut Interp, d: &CallDef, args: &[Obj], k: usize) -> R<Vec<V>> {
    let t = d.arg_tys[k];
    match t.kind() {
        TyKind::RigidTy(RigidTy::Array(_, n)) => {
            let n = array_len(&n)?;
            let mut v = vec![];
            for i in 0..n {
                v.push(scalar(&args[k].part(8 * i, 8), 8).ok_or("uninitialised exponent")?);
            }
            Ok(v)
        }
        TyKind::RigidTy(RigidTy::Ref(_, u, _)) => match u.kind() {
            TyKind::RigidTy(RigidTy::Array(_, n)) => {
                let n = array_len(&n)?;
                limbs(it, &args[k], n)
            }
            TyKind::RigidTy(RigidTy::Slice(_)) => {
                let l = it.deref(&args[k])?;
                match l.meta {
                    Some(V::Int(n)) => limbs(it, &args[k], n as u64),
                    _ => Err("exponent of unknown length".into()),
                }
            }
            _ => Err(format!("exponent type {t}")),
        },
        _ => Err(format!("exponent type {t}")),
    }
}

fn fq(it: &mut Interp, n: &str, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let r = match n {
        "add" | "sub" | "mul" => {
            let a = fe_arg(it, d, args, 0)?;
            let b = fe_arg(it, d, args, 1)?;
            if n == "mul" {
                let (x, y) = (form::as_const(a).is_some(), form::as_const(b).is_some());
                if !(x && y) {
                    it.work[!(x || y) as usize] += 1;
                }
            }
            fe_obj(match n {
                "add" => form::add(a, b),
                "sub" => form::sub(a, b),
                _ => form::mul(a, b),
            })
        }
        "neg" => fe_obj(form::neg(fe_arg(it, d, args, 0)?)),
        "copy" => fe_obj(fe_arg(it, d, args, 0)?),
        "square" => {
            let a = fe_arg(it, d, args, 0)?;
            it.work[1] += form::as_const(a).is_none() as u64;
            fe_obj(form::pow(a, 2))
        }
        "zero" => fe_obj(form::zero()),
        "eq" | "ne" | "is_zero" | "is_one" => {
            let a = fe_arg(it, d, args, 0)?;
            let b = match n {
                "is_zero" => form::zero(),
                "is_one" => form::one(),
                _ => fe_arg(it, d, args, 1)?,
            };
            let t = val::zeros(&[form::sub(a, b)]);
            let t = match it.truth(t) {
                Some(x) => T::C(x as u128),
                None => t,
            };
            let t = if n == "ne" { val::not(t) } else { t };
            Obj::S(val::to_v(t), 1)
        }
        "inverse" => {
            let a = fe_arg(it, d, args, 0)?;
            it.work[2] += form::as_const(a).is_none() as u64;
            let z = val::zeros(&[a]);
            let z = match it.truth(z) {
                Some(x) => T::C(x as u128),
                None => z,
            };
            let p = fe_obj(form::inv0(a));
            option(it, d.ret_ty, val::not(z), &p, 32)?
        }
        "power" => {
            let a = fe_arg(it, d, args, 0)?;
            it.work[2] += form::as_const(a).is_none() as u64;
            let e = exponent(it, d, args, 1)?;
            match e.first() {
                None => {
                    it.event("Panic", "power with an empty exponent".into());
                    return Ok(MRes::Diverge);
                }
                // only the first word of the exponent is used by this function
                Some(e) => {
                    let e = *e;
                    fe_obj(pow_v(it, a, e)?)
                }
            }
        }
        "pow" => {
            let a = fe_arg(it, d, args, 0)?;
            let e = exponent(it, d, args, 1)?;
            it.work[2] += form::as_const(a).is_none() as u64;
            let mut r = form::one();
            for (i, x) in e.iter().enumerate() {
                if i == 0 {
                    r = pow_v(it, a, *x)?;
                } else if *x != V::Int(0) {
                    return Err("exponent of more than one word".into());
                }
            }
            fe_obj(r)
        }
        "from_le_limbs" => {
            let mut l = [0u64; 4];
            let mut sym = false;
            for i in 0..4 {
                match scalar(&args[0].part(8 * i as u64, 8), 8) {
                    Some(V::Int(c)) => l[i] = c as u64,
                    Some(V::Sym(_)) => sym = true,
                    v => return Err(format!("limb {v:?}")),
                }
            }
            if sym {
                let hi_zero = (2..4).all(|i| matches!(scalar(&args[0].part(8 * i, 8), 8), Some(V::Int(0))));
                let lo = args[0].part(0, 16);
                match (hi_zero, scalar(&lo, 16)) {
                    (true, Some(V::Sym(t))) => fe_obj(of_int(t)),
                    _ => return Err("field element from undetermined limbs".into()),
                }
            } else {
                // the function reduces
                fe_obj(form::konst(Fp::from_limbs(l)))
            }
        }
        "from_montgomery_limbs" => {
            let o = args[0].part(0, 32);
            fe_obj(fe_of(it, &o)?)
        }
        "ct_eq" => {
            let a = fe_arg(it, d, args, 0)?;
            let b = fe_arg(it, d, args, 1)?;
            let t = val::zeros(&[form::sub(a, b)]);
            Obj::S(val::to_v(t), 1)
        }
        "cond_select" => {
            let a = fe_arg(it, d, args, 0)?;
            let b = fe_arg(it, d, args, 1)?;
            match scalar(&args[2], 1).and_then(val::of_v) {
                Some(T::C(c)) => fe_obj(if c & 1 == 1 { b } else { a }),
                Some(T::T(t)) => fe_obj(join_fe(t, b, a)),
                None => return Err("selection".into()),
            }
        }
        "to_bytes_le" | "to_bytes" | "to_le_limbs" => {
            let a = fe_arg(it, d, args, 0)?;
            match form::as_const(a) {
                Some(c) => {
                    let l = c.to_limbs();
                    let w = if n == "to_le_limbs" { 8 } else { 1 };
                    let mut slots = vec![];
                    for i in 0..4u64 {
                        for k in 0..(8 / w) {
                            let v = if w == 8 { l[i as usize] as u128 } else { ((l[i as usize] >> (8 * k)) & 0xff) as u128 };
                            slots.push(Slot { off: 8 * i + k * w, size: w as u32, v: V::Int(v) });
                        }
                    }
                    Obj::from_slots(slots)
                }
                None => Obj::from_slots(
                    (0..32u64)
                        .map(|k| Slot { off: k, size: 1, v: V::Sym(val::term(Term::Bin("CanonicalByte", 8, T::T(val::term(Term::FeBytes(a, 0, 32))), T::C(k as u128)))) })
                        .collect(),
                ),
            }
        }
        "from_raw_bytes" => return Err("field element from raw bytes".into()),
        _ => return Ok(MRes::No),
    };
    Ok(MRes::Val(r))
}
pub fn of_int(t: form::TermId) -> Form {
    if val::is_bool(t) {
        // 1 if t else 0
        return join_fe(t, form::one(), form::zero());
    }
    // zero-extended terms denote the same number
    let mut t = t;
    if let Term::Cat(b) = &*val::get(t) {
        let mut k = b.len();
        while k > 1 && b[k - 1] == T::C(0) {
            k -= 1;
        }
        match val::cat(&b[..k]) {
            V::Sym(u) => t = u,
            V::Int(c) => return form::konst(Fp::from_u128(c)),
            _ => {}
        }
        if val::is_bool(t) {
            return join_fe(t, form::one(), form::zero());
        }
    }
    form::atom(Atom::OfInt(t))
}

// -------------------------------------------------------------------- circuit variables

fn mixk(a: Kind, b: Kind) -> Kind {
    match (a, b) {
        (Kind::Const, Kind::Const) => Kind::Const,
        (Kind::Var, _) | (_, Kind::Var) => Kind::Var,
        _ => Kind::Any,
    }
}
/// FpVar::Constant(value) (variant 0) and FpVar::Var(allocated) (variant 1)
pub fn fv_construct(it: &mut Interp, payload: &Obj, variant: usize, size: u64) -> R<Obj> {
    let (f, k) = match variant {
        0 => (fe_of(it, payload)?, Kind::Const),
        _ => (fv_of(payload)?.0, Kind::Var),
    };
    Ok(Obj::S(V::Fv(f, k), size as u32))
}
/// Is the circuit value of the constant kind?
pub fn fv_is_constant(f: Form, k: Kind) -> T {
    match k {
        Kind::Const => T::C(1),
        Kind::Var => T::C(0),
        Kind::Any => T::T(val::term(Term::Var(format!("is_constant({})", form::show_d(f, 1)), 1))),
    }
}
/// A call of a tuple constructor (`Some`, `Wrapper`, ...) used as a function.
pub fn constructor(it: &mut Interp, inst: Instance, args: &[Obj]) -> R<Option<Obj>> {
    let d = match calldef_of(inst) {
        Some(d) => d,
        None => return Ok(None),
    };
    let def = match d.ret_ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(def, _)) => def,
        _ => return Ok(None),
    };
    let f = last(&d.name).to_string();
    let vs = def.variants();
    let v = match vs.iter().find(|v| v.name() == f && v.fields().len() == args.len()) {
        Some(v) => idx(v.idx()),
        None => return Ok(None),
    };
    let size = ti(d.ret_ty)?.size;
    if def.kind() != AdtKind::Enum {
        let mut a = Alloc::new(size.max(1), 1);
        for (i, o) in args.iter().enumerate() {
            a.write(field_off(d.ret_ty, None, i)?, ti(d.arg_tys[i])?.size, o);
        }
        return Ok(Some(a.read(0, size)));
    }
    let e = enum_info(d.ret_ty)?;
    if e.opaque {
        return match args.first() {
            Some(p) if is_fv(d.ret_ty) => Ok(Some(fv_construct(it, p, v, size)?)),
            _ => Ok(None),
        };
    }
    let mut a = Alloc::new(size.max(1), 1);
    for (i, o) in args.iter().enumerate() {
        a.write(field_off(d.ret_ty, Some(v), i)?, ti(d.arg_tys[i])?.size, o);
    }
    let o = a.read(0, size);
    Ok(Some(it.with_discr(o, &e, v, size)?))
}
pub fn fv_of(o: &Obj) -> R<(Form, Kind)> {
    for s in o.slots() {
        if let V::Fv(f, k) = s.v {
            return Ok((f, k));
        }
    }
    Err(format!("not a circuit variable: {o:?}"))
}
/// an operand that is a circuit variable or a plain field element, possibly behind references
fn fv_arg(it: &mut Interp, d: &CallDef, args: &[Obj], k: usize) -> R<(Form, Kind, bool)> {
    let mut t = d.arg_tys[k];
    let mut o = args[k].clone();
    while let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() {
        o = it.load(&o, ti(u)?.size)?;
        t = u;
    }
    if is_fv(t) {
        let (f, k) = fv_of(&o)?;
        Ok((f, k, false))
    } else if is_fq(t) {
        Ok((fe_of(it, &o)?, Kind::Const, true))
    } else {
        Err(format!("operand of type {t}"))
    }
}
fn fv_obj(f: Form, k: Kind, ty: Ty) -> R<Obj> {
    Ok(Obj::S(V::Fv(f, k), ti(ty)?.size as u32))
}

/// Enforcing that two values differ: excludes the assignments under which they are equal.
fn distinct(it: &mut Interp, a: Form, b: Form, k: Kind) {
    let x = form::sub(a, b);
    if form::as_const(x).is_none() || x == form::zero() {
        it.event("Constraint", format!("excludes every input for which {} = {}", form::show_d(a, 2), form::show_d(b, 2)));
        if k != Kind::Var {
            it.event("Panic", format!("fails when the constants {} and {} are equal", form::show_d(a, 2), form::show_d(b, 2)));
        }
    }
    product(it, true, "distinct", (x, k), (x, k));
}
/// One constraint and one assigned variable for a product of two variables.
fn product(it: &mut Interp, nonlinear: bool, what: &'static str, a: (Form, Kind), b: (Form, Kind)) {
    if nonlinear && a.1 == Kind::Var && b.1 == Kind::Var {
        it.costs(1, 1);
        it.rows.push((what, a.0, b.0));
    }
}
fn fv(it: &mut Interp, n: &str, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let ret = d.ret_ty;
    let bin = |op: &str, a: (Form, Kind, bool), b: (Form, Kind, bool)| -> (Form, Kind) {
        let f = match op {
            "add" => form::add(a.0, b.0),
            "sub" => form::sub(a.0, b.0),
            _ => form::mul(a.0, b.0),
        };
        let mut k = mixk(a.1, b.1);
        if op == "mul" && (b.2 && b.0 == form::zero() || a.2 && a.0 == form::zero()) {
            k = Kind::Const;
        }
        (f, k)
    };
    let r = match n {
        "add" | "sub" | "mul" => {
            let a = fv_arg(it, d, args, 0)?;
            let b = fv_arg(it, d, args, 1)?;
            let (f, k) = bin(n, a, b);
            product(it, n == "mul" && k != Kind::Const, "product", (a.0, a.1), (b.0, b.1));
            fv_obj(f, k, ret)?
        }
        "add_assign" | "sub_assign" | "mul_assign" => {
            let a = fv_arg(it, d, args, 0)?;
            let b = fv_arg(it, d, args, 1)?;
            let (f, k) = bin(&n[..3], a, b);
            product(it, n == "mul_assign" && k != Kind::Const, "product", (a.0, a.1), (b.0, b.1));
            let t = strip(d.arg_tys[0]);
            let o = fv_obj(f, k, t)?;
            it.store(&args[0], ti(t)?.size, &o)?;
            Obj::Z
        }
        "clone" => {
            let a = fv_arg(it, d, args, 0)?;
            fv_obj(a.0, a.1, ret)?
        }
        "neg" => {
            let a = fv_arg(it, d, args, 0)?;
            fv_obj(form::neg(a.0), a.1, ret)?
        }
        "zero" => fv_obj(form::zero(), Kind::Const, ret)?,
        "one" => fv_obj(form::one(), Kind::Const, ret)?,
        "constant" => {
            let f = fe_of(it, &args[0])?;
            fv_obj(f, Kind::Const, ret)?
        }
        "double" | "negate" | "square" | "double_in_place" | "negate_in_place" | "square_in_place" => {
            let a = fv_arg(it, d, args, 0)?;
            let f = match &n[..3] {
                "dou" => form::add(a.0, a.0),
                "neg" => form::neg(a.0),
                _ => form::pow(a.0, 2),
            };
            product(it, n.starts_with("square"), "product", (a.0, a.1), (a.0, a.1));
            let t = strip(d.arg_tys[0]);
            let sz = ti(t)?.size;
            let o = fv_obj(f, a.1, t)?;
            if n.ends_with("_in_place") {
                it.store(&args[0], sz, &o)?;
                let p = args[0].clone();
                ok_result(it, ret, &p, 8)?
            } else {
                ok_result(it, ret, &o, sz)?
            }
        }
        "inverse" => {
            let a = fv_arg(it, d, args, 0)?;
            // enforces x * y = 1: fails (or is unsatisfiable) on zero
            it.event("Panic", "circuit inverse is unsatisfiable for zero".into());
            product(it, true, "inverse", (a.0, a.1), (a.0, a.1));
            let t = strip(d.arg_tys[0]);
            let o = fv_obj(form::inv0(a.0), a.1, t)?;
            ok_result(it, ret, &o, ti(t)?.size)?
        }
        "pow_by_constant" => {
            let a = fv_arg(it, d, args, 0)?;
            let e = exponent(it, d, args, 1)?;
            let mut f = form::one();
            for (i, x) in e.iter().enumerate() {
                match (i, x) {
                    (0, x) => f = pow_v(it, a.0, *x)?,
                    (_, V::Int(0)) => {}
                    _ => return Err("exponent of more than one word".into()),
                }
            }
            let zero_exp = e.iter().all(|x| *x == V::Int(0));
            if let Some(V::Int(x)) = e.first() {
                // square and multiply from the leading bit
                let mut r = 1u64;
                for b in (0..127 - x.leading_zeros().min(127)).rev() {
                    let s = form::pow(a.0, r);
                    product(it, true, "product", (s, a.1), (s, a.1));
                    r *= 2;
                    if x >> b & 1 == 1 {
                        let s = form::pow(a.0, r);
                        product(it, true, "product", (s, a.1), (a.0, a.1));
                        r += 1;
                    }
                }
            }
            let t = strip(d.arg_tys[0]);
            let o = fv_obj(f, if zero_exp { Kind::Const } else { a.1 }, t)?;
            ok_result(it, ret, &o, ti(t)?.size)?
        }
        "is_constant" => {
            let a = fv_arg(it, d, args, 0)?;
            Obj::S(val::to_v(fv_is_constant(a.0, a.1)), 1)
        }
        "new_constant" => {
            let self_ty = d.args.0.first().and_then(|a| a.ty().copied()).ok_or("self type")?;
            let f = fe_arg(it, d, args, 1)?;
            let o = fv_obj(f, Kind::Const, self_ty)?;
            ok_result(it, ret, &o, ti(self_ty)?.size)?
        }
        "new_witness" | "new_input" | "new_variable" => {
            let self_ty = d.args.0.first().and_then(|a| a.ty().copied()).ok_or("self type")?;
            if n == "new_variable" && args.len() == 3 && matches!(scalar(&args[2], 1), Some(V::Int(0))) {
                // AllocationMode::Constant: the value the closure yields, as a constant
                let t = d.arg_tys[1];
                let mut a = vec![];
                let inst = match t.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(f, g)) => Instance::resolve(f, &g).map_err(|e| format!("{e:?}"))?,
                    TyKind::RigidTy(RigidTy::Closure(c, g)) => {
                        a.push(args[1].clone());
                        Instance::resolve_closure(c, &g, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?
                    }
                    _ => return Err("allocation with an unknown closure".into()),
                };
                let rt = match t.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(..)) => inst.ty().kind().fn_sig().ok_or("signature")?.skip_binder().output(),
                    _ => inst.fn_abi().map_err(|e| format!("{e:?}"))?.ret.ty,
                };
                let o = match it.call_instance(inst, a, None)? {
                    Some(o) => o,
                    None => return Ok(MRes::Diverge),
                };
                let e = enum_info(rt)?;
                if it.discr(&o, &e)? != V::Int(0) {
                    return Err("allocation whose closure may fail".into());
                }
                let pt = match rt.kind() {
                    TyKind::RigidTy(RigidTy::Adt(_, g)) => g.0.first().and_then(|a| a.ty().copied()).ok_or("result type")?,
                    _ => return Err("allocation with an unknown closure".into()),
                };
                let mut o = o.part(field_off(rt, Some(0), 0)?, ti(pt)?.size);
                let mut t = pt;
                while let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() {
                    o = it.load(&o, ti(u)?.size)?;
                    t = u;
                }
                if !is_fq(t) {
                    return Err(format!("allocation of a {t}"));
                }
                let f = fe_of(it, &o)?;
                let o = fv_obj(f, Kind::Const, self_ty)?;
                return Ok(MRes::Val(ok_result(it, ret, &o, ti(self_ty)?.size)?));
            }
            it.event("Witness", format!("{n} allocates a prover-chosen value"));
            it.costs(0, 1);
            let o = fv_obj(form::free("witness"), Kind::Var, self_ty)?;
            it.rows.push(("allocation", form::zero(), form::zero()));
            ok_result(it, ret, &o, ti(self_ty)?.size)?
        }
        "value" => {
            let a = fv_arg(it, d, args, 0)?;
            if a.1 != Kind::Const {
                it.event("Witness", "reads an assigned value during synthesis".into());
            }
            let o = fe_obj(a.0);
            ok_result(it, ret, &o, 32)?
        }
        "cs" => Obj::S(V::Opq(0), ti(ret)?.size as u32),
        "enforce_equal" | "mul_equals" | "square_equals" => {
            let a = fv_arg(it, d, args, 0)?;
            let b = fv_arg(it, d, args, 1)?;
            let (l, r) = match n {
                "enforce_equal" => (a.0, b.0),
                "mul_equals" => (form::mul(a.0, b.0), fv_arg(it, d, args, 2)?.0),
                _ => (form::pow(a.0, 2), b.0),
            };
            if a.1 != Kind::Const || b.1 != Kind::Const {
                it.costs(1, 0);
                it.rows.push(("equality", l, r));
            }
            if l != r {
                it.event("Constraint", format!("constraint {} = {} is not an identity", form::show_d(l, 2), form::show_d(r, 2)));
            }
            ok_result(it, ret, &Obj::Z, 0)?
        }
        "enforce_not_equal" => {
            let a = fv_arg(it, d, args, 0)?;
            let b = fv_arg(it, d, args, 1)?;
            distinct(it, a.0, b.0, mixk(a.1, b.1));
            ok_result(it, ret, &Obj::Z, 0)?
        }
        "mul_by_inverse" | "mul_by_inverse_unchecked" => {
            let a = fv_arg(it, d, args, 0)?;
            let b = fv_arg(it, d, args, 1)?;
            let k = mixk(a.1, b.1);
            if n == "mul_by_inverse" {
                distinct(it, b.0, form::zero(), b.1);
            } else if form::as_const(b.0).is_none() {
                it.event("Witness", format!("quotient by {} is left to the prover when it is zero", form::show_d(b.0, 2)));
            }
            if k != Kind::Var {
                it.event("Panic", "division by a constant that may be zero".into());
            }
            product(it, true, "quotient", (a.0, k), (b.0, k));
            let t = strip(d.arg_tys[0]);
            let o = fv_obj(form::mul(a.0, form::inv0(b.0)), k, t)?;
            ok_result(it, ret, &o, ti(t)?.size)?
        }
        "sum" => {
            // the library's sum: a single linear combination; it panics when no summand is a variable
            let h = *it.models.fns.get("h_drain").ok_or("helper h_drain")?;
            let it_ty = d.arg_tys[0];
            let args_g = GenericArgs(vec![GenericArgKind::Type(it_ty)]);
            let inst = Instance::resolve(h, &args_g).map_err(|e| format!("{e:?}"))?;
            let o = match it.call_instance(inst, vec![args[0].clone()], None)? {
                Some(o) => o,
                None => return Ok(MRes::Diverge),
            };
            // h_drain returns Vec<Item>; read its elements
            let body = body_of(inst)?;
            let vt = body.local_tys[0];
            let (ptr, len, item) = vec_parts(&o, vt)?;
            let isz = ti(item)?.size;
            let mut f = form::zero();
            let mut vars = 0;
            let mut anys = 0;
            for i in 0..len {
                let mut e = it.read_mem(ptr.0, ptr.1 + i * isz, isz)?;
                let mut t = item;
                while let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() {
                    e = it.load(&e, ti(u)?.size)?;
                    t = u;
                }
                let (x, k) = fv_of(&e)?;
                f = form::add(f, x);
                match k {
                    Kind::Var => vars += 1,
                    Kind::Any => anys += 1,
                    _ => {}
                }
            }
            if vars == 0 {
                it.event("Panic", "sum of circuit values of which none is a variable".into());
                if anys == 0 {
                    return Ok(MRes::Diverge);
                }
            }
            fv_obj(f, Kind::Var, ret)?
        }
        _ => return Err(format!("circuit operation {n} is not modelled")),
    };
    Ok(MRes::Val(r))
}
/// (pointer, length, item type) of a Vec held in `o`
pub fn vec_parts(o: &Obj, ty: Ty) -> R<((u32, u64), u64, Ty)> {
    let item = match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, g)) => g.0.first().and_then(|a| a.ty().copied()).ok_or("vec item")?,
        _ => return Err("not a vec".into()),
    };
    // Vec { buf: RawVec { inner: RawVecInner { ptr, cap, .. } }, len }
    let len_off = match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            let vs = d.variants();
            let fs = vs[0].fields();
            let k = fs.iter().position(|f| f.name == "len").ok_or("vec len")?;
            field_off(ty, None, k)?
        }
        _ => unreachable!(),
    };
    let len = match scalar(&o.part(len_off, 8), 8) {
        Some(V::Int(n)) => n as u64,
        v => return Err(format!("vec length {v:?}")),
    };
    for s in o.slots() {
        if s.off != len_off {
            if let V::Ptr(i, p) = s.v {
                return Ok(((i, p), len, item));
            }
        }
    }
    if len == 0 {
        return Ok(((ABS, 8), 0, item));
    }
    Err("vec pointer".into())
}

// -------------------------------------------------------------------- nested determinants

/// A determinant called from within another matrix routine is replaced by its contract once the
/// contract has been established for that size.
fn det(it: &mut Interp, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let lim = match it.det_contract {
        Some(n) => n,
        None => return Ok(MRes::No),
    };
    let t = strip(d.arg_tys[0]);
    let n = match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, g)) => match &g.0[0] {
            GenericArgKind::Const(c) => array_len(c)? as usize,
            _ => return Ok(MRes::No),
        },
        _ => return Ok(MRes::No),
    };
    if n > lim || n < 3 {
        return Ok(MRes::No);
    }
    let size = ti(t)?.size;
    if size != 32 * (n * n) as u64 {
        return Ok(MRes::No);
    }
    let o = it.load(&args[0], size)?;
    let mut e = vec![];
    for i in 0..n * n {
        e.push(fe_of(it, &o.part(32 * i as u64, 32))?);
    }
    Ok(MRes::Val(fe_obj(form::det_atom(n, &e))))
}

// -------------------------------------------------------------------- runtime

fn int_arg(args: &[Obj], k: usize, what: &str) -> R<u64> {
    match args.get(k).and_then(|o| scalar(o, 8)) {
        Some(V::Int(c)) => Ok(c as u64),
        v => Err(format!("{what} is {v:?}")),
    }
}
fn rt(it: &mut Interp, n: &str, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let r = match n {
        // 2 for an error that says the dimensions are wrong, 0 for any other
        "error_code" => {
            let t = strip(d.arg_tys[0]);
            let mut code = 0;
            if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() {
                if def.kind() == AdtKind::Enum {
                    let o = it.load(&args[0], ti(t)?.size)?;
                    let e = enum_info(t)?;
                    let V::Int(c) = it.discr(&o, &e)? else {
                        return Err("the error reported depends on the entries".into());
                    };
                    for v in def.variants() {
                        let x = def.discriminant_for_variant(v.idx()).val;
                        if x == c && v.name().to_string().to_lowercase().contains("dimension") {
                            code = 2;
                        }
                    }
                }
            }
            return Ok(MRes::Val(Obj::S(V::Int(code), 1)));
        }
        "__rust_alloc" | "__rust_alloc_zeroed" => {
            let size = int_arg(args, 0, "allocation size")?;
            // the alignment may be wrapped in a newtype enum
            let align = match scalar(&args[1], 8) {
                Some(V::Int(a)) => a as u64,
                v => return Err(format!("allocation alignment {v:?}")),
            };
            let mut a = Alloc::new(size, align);
            a.heap = true;
            let id = it.new_alloc(a);
            if n == "__rust_alloc_zeroed" {
                it.fill(id, 0, size, 0)?;
            }
            Obj::S(V::Ptr(id, 0), 8)
        }
        "__rust_dealloc" => {
            if let Some(V::Ptr(id, _)) = scalar(&args[0], 8) {
                it.free(id);
            }
            Obj::Z
        }
        "__rust_realloc" => {
            let old = int_arg(args, 1, "size")?;
            let align = int_arg(args, 2, "alignment")?;
            let new = int_arg(args, 3, "size")?;
            let o = it.load(&args[0], old.min(new))?;
            let mut a = Alloc::new(new, align);
            a.heap = true;
            let id = it.new_alloc(a);
            it.write_mem(id, 0, old.min(new), &o)?;
            if let Some(V::Ptr(i, _)) = scalar(&args[0], 8) {
                it.free(i);
            }
            Obj::S(V::Ptr(id, 0), 8)
        }
        "black_box" => args[0].clone(),
        _ => Obj::Z,
    };
    let _ = d;
    Ok(MRes::Val(r))
}

fn ty_arg(d: &CallDef, k: usize) -> R<Ty> {
    d.args.0.iter().filter_map(|a| a.ty().copied()).nth(k).ok_or_else(|| "type argument".into())
}

fn intrinsic(it: &mut Interp, n: &'static str, d: &CallDef, args: &[Obj]) -> R<MRes> {
    let v = |o: Obj| Ok(MRes::Val(o));
    let sc = |k: usize, s: u32| -> R<V> { scalar(&args[k], s).ok_or_else(|| format!("uninitialised argument of {n}")) };
    match n {
        "is_val_statically_known" => v(Obj::int(0, 1)),
        "const_eval_select" => {
            // run-time alternative: third argument, first argument is the tuple of arguments
            let t = d.arg_tys[2];
            let inst = match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(f, g)) => Instance::resolve(f, &g).map_err(|e| format!("{e:?}"))?,
                TyKind::RigidTy(RigidTy::Closure(c, g)) => {
                    Instance::resolve_closure(c, &g, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?
                }
                _ => return Err("const_eval_select".into()),
            };
            let mut a = vec![];
            if let TyKind::RigidTy(RigidTy::Closure(..)) = t.kind() {
                a.push(args[2].clone());
            }
            if let TyKind::RigidTy(RigidTy::Tuple(ts)) = d.arg_tys[0].kind() {
                for (i, x) in ts.iter().enumerate() {
                    a.push(args[0].part(field_off(d.arg_tys[0], None, i)?, ti(*x)?.size));
                }
            }
            match it.call_instance(inst, a, None)? {
                Some(o) => v(o),
                None => Ok(MRes::Diverge),
            }
        }
        "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "nontemporal_store" => v(Obj::Z),
        "likely" | "unlikely" | "black_box" => v(args[0].clone()),
        "ub_checks" | "contract_checks" => v(Obj::int(0, 1)),
        "overflow_checks" => v(Obj::int(1, 1)),
        "size_of" => v(Obj::int(ti(ty_arg(d, 0)?)?.size as u128, 8)),
        "min_align_of" | "align_of" | "pref_align_of" => v(Obj::int(ti(ty_arg(d, 0)?)?.align as u128, 8)),
        "needs_drop" => v(Obj::int(1, 1)),
        "size_of_val" | "min_align_of_val" | "align_of_val" => {
            let t = ty_arg(d, 0)?;
            let is_size = n == "size_of_val";
            match elem(t) {
                Some((e, None)) => {
                    let et = ti(e)?;
                    if is_size {
                        match scalar(&args[0].part(8, 8), 8) {
                            Some(V::Int(k)) => v(Obj::int(k * et.size as u128, 8)),
                            m => Err(format!("size of a slice of length {m:?}")),
                        }
                    } else {
                        v(Obj::int(et.align as u128, 8))
                    }
                }
                _ => {
                    let x = ti(t)?;
                    if x.uns {
                        return Err(format!("size of unsized {t}"));
                    }
                    v(Obj::int(if is_size { x.size } else { x.align } as u128, 8))
                }
            }
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let t = ti(ty_arg(d, 0)?)?;
            match (sc(0, 8)?, sc(1, 8)?) {
                (V::Ptr(i, a), V::Ptr(j, b)) if i == j => {
                    let diff = a.wrapping_sub(b) as i64;
                    v(Obj::int(((diff / t.size.max(1) as i64) as u64) as u128, 8))
                }
                (V::Int(a), V::Int(b)) => {
                    let diff = (a as u64).wrapping_sub(b as u64) as i64;
                    v(Obj::int(((diff / t.size.max(1) as i64) as u64) as u128, 8))
                }
                (a, b) => Err(format!("pointer difference of {a:?} and {b:?}")),
            }
        }
        "offset" | "arith_offset" => {
            let p = ty_arg(d, 0)?;
            let t = if n == "offset" { pointee(p).unwrap_or(p) } else { p };
            let s = ti(t)?.size;
            let (a, b) = (sc(0, 8)?, sc(1, 8)?);
            let (r, _) = it.bin(&BinOp::Offset, a, b, 8, false, 8, s)?;
            v(Obj::S(r, 8))
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
            let s = ti(ty_arg(d, 0)?)?.size;
            let c = int_arg(args, 2, "copy count")?;
            let o = it.load(&args[0], s * c)?;
            it.store(&args[1], s * c, &o)?;
            v(Obj::Z)
        }
        "write_bytes" => {
            let s = ti(ty_arg(d, 0)?)?.size;
            let c = int_arg(args, 2, "count")?;
            let b = match sc(1, 1)? {
                V::Int(b) => b,
                x => return Err(format!("fill with {x:?}")),
            };
            let l = it.deref(&args[0])?;
            it.fill(l.id, l.off, s * c, b)?;
            v(Obj::Z)
        }
        "typed_swap_nonoverlapping" => {
            let s = ti(ty_arg(d, 0)?)?.size;
            let a = it.load(&args[0], s)?;
            let b = it.load(&args[1], s)?;
            it.store(&args[0], s, &b)?;
            it.store(&args[1], s, &a)?;
            v(Obj::Z)
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let s = ti(d.ret_ty)?.size;
            v(it.load(&args[0], s)?)
        }
        "write_via_move" | "volatile_store" => {
            let s = ti(ty_arg(d, 0)?)?.size;
            it.store(&args[0], s, &args[1])?;
            v(Obj::Z)
        }
        "transmute" | "transmute_unchecked" => v(args[0].clone()),
        "raw_eq" => {
            let s = ti(ty_arg(d, 0)?)?.size;
            let a = it.load(&args[0], s)?;
            let b = it.load(&args[1], s)?;
            let mut r = T::C(1);
            let mut o = 0;
            while o < s {
                let k = (s - o).min(8);
                let (x, y) = (scalar(&a.part(o, k), k as u32), scalar(&b.part(o, k), k as u32));
                match (x.and_then(val::of_v), y.and_then(val::of_v)) {
                    (Some(p), Some(q)) => r = val::and(r, it.eq_term(k as u32, p, q)),
                    _ => return Err("raw_eq".into()),
                }
                o += k;
            }
            v(Obj::S(val::to_v(r), 1))
        }
        "compare_bytes" => {
            let c = int_arg(args, 2, "length")?;
            let a = it.load(&args[0], c)?;
            let b = it.load(&args[1], c)?;
            for k in 0..c {
                match (scalar(&a.part(k, 1), 1), scalar(&b.part(k, 1), 1)) {
                    (Some(V::Int(x)), Some(V::Int(y))) => {
                        if x != y {
                            return v(Obj::int(if x < y { 0xffff_ffff } else { 1 }, 4));
                        }
                    }
                    (Some(x), Some(y)) if x == y => {}
                    _ => {
                        // only the equality of whole ranges is tracked
                        let mut r = T::C(1);
                        for k in 0..c {
                            match (scalar(&a.part(k, 1), 1).and_then(val::of_v), scalar(&b.part(k, 1), 1).and_then(val::of_v)) {
                                (Some(p), Some(q)) => r = val::and(r, it.eq_term(1, p, q)),
                                _ => return Err("compare_bytes".into()),
                            }
                        }
                        if let T::T(t) = r {
                            return v(Obj::S(val::to_v(val::ite(t, T::C(0), T::C(1))), 4));
                        }
                        return v(Obj::int(1 - if r == T::C(1) { 1 } else { 0 }, 4));
                    }
                }
            }
            v(Obj::int(0, 4))
        }
        "discriminant_value" => {
            let t = ty_arg(d, 0)?;
            let e = enum_info(t)?;
            let o = it.load(&args[0], ti(t)?.size)?;
            let s = ti(d.ret_ty)?.size as u32;
            let x = it.discr(&o, &e)?;
            v(Obj::S(x, s))
        }
        "caller_location" => v(Obj::S(V::Int(8), 8)),
        "type_id" | "type_name" => Err(format!("intrinsic {n}")),
        "select_unpredictable" => {
            let c = val::of_v(sc(0, 1)?).ok_or("condition")?;
            match it.truth(c) {
                Some(true) => v(args[1].clone()),
                Some(false) => v(args[2].clone()),
                None => {
                    it.data_branch(c);
                    let s = ti(d.ret_ty)?.size;
                    let mut a = Alloc::new(s.max(1), 1);
                    a.write(0, s, &args[1]);
                    let x = scalar(&args[1], s as u32);
                    let y = scalar(&args[2], s as u32);
                    match (x, y) {
                        (Some(x), Some(y)) => v(Obj::S(it.join_v(c, x, y, s as u32), s as u32)),
                        _ => Err("selection between compound values".into()),
                    }
                }
            }
        }
        "abort" | "unreachable" | "breakpoint" => {
            it.event("Panic", n.into());
            Ok(MRes::Diverge)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let t = ti(ty_arg(d, 0)?)?;
            let s = t.size as u32;
            let op = match &n[..3] {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            let (r, o) = it.checked(&op, sc(0, s)?, sc(1, s)?, s, t.signed)?;
            let off = field_off(d.ret_ty, None, 1)?;
            v(Obj::M(vec![Slot { off: 0, size: s, v: r }, Slot { off, size: 1, v: o }]))
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem"
        | "exact_div" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" => {
            let t = ti(ty_arg(d, 0)?)?;
            let s = t.size as u32;
            let bs = ti(d.arg_tys[1])?.size as u32;
            let op = match n {
                "wrapping_add" | "unchecked_add" => BinOp::Add,
                "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                "unchecked_rem" => BinOp::Rem,
                "unchecked_shl" => BinOp::Shl,
                "unchecked_shr" => BinOp::Shr,
                "disjoint_bitor" => BinOp::BitOr,
                _ => BinOp::Div,
            };
            let (r, k) = it.bin(&op, sc(0, s)?, sc(1, bs)?, s, t.signed, bs, 0)?;
            v(Obj::S(r, k))
        }
        "saturating_add" | "saturating_sub" => {
            let t = ti(ty_arg(d, 0)?)?;
            let s = t.size as u32;
            match (sc(0, s)?, sc(1, s)?) {
                (V::Int(a), V::Int(b)) if !t.signed => {
                    let r = if n == "saturating_add" { (a + b).min(mask(s)) } else { a.saturating_sub(b) };
                    v(Obj::int(r, s))
                }
                _ => Err(format!("intrinsic {n}")),
            }
        }
        "three_way_compare" => {
            let t = ti(ty_arg(d, 0)?)?;
            let s = t.size as u32;
            let (r, k) = it.bin(&BinOp::Cmp, sc(0, s)?, sc(1, s)?, s, t.signed, s, 0)?;
            v(Obj::S(r, k))
        }
        "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" | "bitreverse" | "rotate_left" | "rotate_right" => {
            let t = ti(ty_arg(d, 0)?)?;
            let s = t.size as u32;
            let a = sc(0, s)?;
            match a {
                V::Int(c) => {
                    let bits = 8 * s;
                    let rs = ti(d.ret_ty)?.size as u32;
                    let k = if n.starts_with("rotate") {
                        match sc(1, 4)? {
                            V::Int(k) => k as u32 % bits,
                            _ => return Err("rotation".into()),
                        }
                    } else {
                        0
                    };
                    let rot = |c: u128, k: u32| if k == 0 { c } else { ((c << k) | (c >> (bits - k))) & mask(s) };
                    let r = match n {
                        "ctpop" => c.count_ones() as u128,
                        "ctlz" | "ctlz_nonzero" => (c.leading_zeros() - (128 - bits)) as u128,
                        "cttz" | "cttz_nonzero" => c.trailing_zeros().min(bits) as u128,
                        "bswap" => c.swap_bytes() >> (128 - bits),
                        "bitreverse" => c.reverse_bits() >> (128 - bits),
                        "rotate_left" => rot(c, k),
                        _ => rot(c, (bits - k) % bits),
                    };
                    v(Obj::int(r, rs))
                }
                V::Sym(_) if n == "bswap" => {
                    let mut b = val::bytes_of(a, s);
                    b.reverse();
                    v(Obj::S(val::cat(&b), s))
                }
                x => Err(format!("{n} of {x:?}")),
            }
        }
        "ptr_metadata" => match &args[0] {
            Obj::M(_) => v(args[0].part(8, 8)),
            _ => v(Obj::Z),
        },
        "aggregate_raw_ptr" => {
            let m = &args[1];
            match scalar(m, 8) {
                Some(x) => v(Obj::pair(sc(0, 8)?, x)),
                None => v(args[0].part(0, 8)),
            }
        }
        "ptr_mask" => {
            let (r, k) = it.bin(&BinOp::BitAnd, sc(0, 8)?, sc(1, 8)?, 8, false, 8, 0)?;
            v(Obj::S(r, k))
        }
        "slice_get_unchecked" => {
            // (slice pointer, index) -> element pointer
            let p = scalar(&args[0].part(0, 8), 8).ok_or("slice")?;
            let i = sc(1, 8)?;
            let s = ti(pointee(d.ret_ty).ok_or("element")?)?.size;
            if let V::Sym(t) = i {
                if val::field_dep(t) {
                    it.event("DataIndex", "index depends on field data".into());
                }
            }
            let (r, _) = it.bin(&BinOp::Offset, p, i, 8, false, 8, s)?;
            v(Obj::S(r, 8))
        }
        _ => {
            // intrinsics with a fallback body are analysed through it
            if let Ok(i) = &d.inst {
                if i.has_body() {
                    return match it.call_instance(*i, args.to_vec(), Some(d))? {
                        Some(o) => v(o),
                        None => Ok(MRes::Diverge),
                    };
                }
            }
            Ok(MRes::No)
        }
    }
}
