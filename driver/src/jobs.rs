//! Instantiates the probe's entry points, interprets them and compares with the specification.
use crate::form::{self, Cmp, Form};
use crate::fp::Fp;
use crate::interp::*;
use crate::lower::*;
use crate::models;
use crate::spec::{self, Mat, OptTables, Sbox};
use crate::val::{self, *};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Env {
    pub fns: HashMap<String, FnDef>,
}
pub fn find_fns() -> Env {
    let mut fns = HashMap::new();
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        fns.insert(n.strip_prefix("probe::").unwrap_or(&n).to_string(), f);
    }
    Env { fns }
}

/// The field element an input name stands for.
pub fn elem_form(name: &str, rnd: bool) -> Form {
    if rnd {
        form::konst(form::hash_fp(0x9e37, name.as_bytes()))
    } else {
        form::var(name)
    }
}
fn sy(n: &str) -> Arg {
    Arg::Sym(n.to_string())
}

/// Symbolic object of a type, its leaves named by path.
pub fn symbolic(it: &mut Interp, ty: Ty, name: &str, kind: Kind, rnd: bool) -> R<Obj> {
    let size = ti(ty)?.size;
    if models::is_fq(ty) {
        return Ok(Obj::S(V::Fe(elem_form(name, rnd)), 32));
    }
    if models::is_fv(ty) {
        return Ok(Obj::S(V::Fv(form::var(name), kind), size as u32));
    }
    if let Some(n) = models::adt_name(ty) {
        if n.ends_with("ConstraintSystemRef") {
            return Ok(Obj::S(V::Opq(0), size as u32));
        }
    }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Int(_)) | TyKind::RigidTy(RigidTy::Float(_)) => {
            Ok(Obj::S(V::Sym(val::term(Term::Var(name.into(), 8 * size as u32))), size as u32))
        }
        TyKind::RigidTy(RigidTy::Bool) => Ok(Obj::S(V::Sym(val::term(Term::Var(name.into(), 1))), 1)),
        TyKind::RigidTy(RigidTy::Array(e, n)) => {
            let n = array_len(&n)?;
            let es = ti(e)?.size;
            let mut a = Alloc::new(size.max(1), 1);
            for i in 0..n {
                let o = symbolic(it, e, &format!("{name}[{i}]"), kind, rnd)?;
                a.write(i * es, es, &o);
            }
            Ok(a.read(0, size))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            let mut a = Alloc::new(size.max(1), 1);
            for (i, t) in ts.iter().enumerate() {
                let o = symbolic(it, *t, &format!("{name}.{i}"), kind, rnd)?;
                a.write(field_off(ty, None, i)?, ti(*t)?.size, &o);
            }
            Ok(a.read(0, size))
        }
        _ => Err(format!("no symbolic value of type {ty}")),
    }
}

/// Leaves of a result, in declaration order.
#[derive(Clone, Debug, PartialEq)]
pub enum Leaf {
    Fe(Form),
    Fv(Form, Kind),
    Int(V),
}
pub fn leaves(it: &mut Interp, ty: Ty, o: &Obj, out: &mut Vec<Leaf>) -> R<()> {
    if models::is_fq(ty) {
        out.push(Leaf::Fe(fe_of(it, o)?));
        return Ok(());
    }
    if models::is_fv(ty) {
        match o {
            Obj::S(V::Fv(f, k), _) => out.push(Leaf::Fv(*f, *k)),
            o => return Err(format!("circuit value is {o:?}")),
        }
        return Ok(());
    }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Uint(_))
        | TyKind::RigidTy(RigidTy::Int(_))
        | TyKind::RigidTy(RigidTy::Bool)
        | TyKind::RigidTy(RigidTy::Float(_)) => {
            let s = ti(ty)?.size as u32;
            out.push(Leaf::Int(scalar(o, s).unwrap_or(V::Top)));
        }
        TyKind::RigidTy(RigidTy::Array(e, n)) => {
            let es = ti(e)?.size;
            for i in 0..array_len(&n)? {
                leaves(it, e, &o.part(i * es, es), out)?;
            }
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            for (i, t) in ts.iter().enumerate() {
                leaves(it, *t, &o.part(field_off(ty, None, i)?, ti(*t)?.size), out)?;
            }
        }
        _ => return Err(format!("result of type {ty}")),
    }
    Ok(())
}

pub enum Arg {
    Sym(String),
    /// as `Sym`, with pseudo-random (generic) constants for the field elements
    Rnd(String),
    SymK(String, Kind),
    Int(u128),
    Obj(Obj),
}

pub fn inst_of(env: &Env, f: &str, consts: &[u64]) -> R<Instance> {
    let d = *env.fns.get(f).ok_or_else(|| format!("no entry point {f}"))?;
    let mut g = vec![];
    // late-bound lifetimes are not part of the arguments
    for c in consts {
        let c = TyConst::try_from_target_usize(*c).map_err(|e| format!("{e:?}"))?;
        g.push(GenericArgKind::Const(c));
    }
    Instance::resolve(d, &GenericArgs(g)).map_err(|e| format!("{f}: {e:?}"))
}

pub fn call(it: &mut Interp, env: &Env, f: &str, consts: &[u64], args: Vec<Arg>) -> R<(Option<Obj>, Ty)> {
    let inst = inst_of(env, f, consts)?;
    let abi = inst.fn_abi().map_err(|e| format!("{e:?}"))?;
    let tys: Vec<Ty> = abi.args.iter().map(|a| a.ty).collect();
    if tys.len() != args.len() {
        return Err(format!("{f} takes {} arguments", tys.len()));
    }
    let mut av = vec![];
    for (a, t) in args.into_iter().zip(tys) {
        av.push(match a {
            Arg::Sym(n) => symbolic(it, t, &n, Kind::Any, false)?,
            Arg::Rnd(n) => symbolic(it, t, &n, Kind::Any, true)?,
            Arg::SymK(n, k) => symbolic(it, t, &n, k, false)?,
            Arg::Int(i) => Obj::int(i, ti(t)?.size as u32),
            Arg::Obj(o) => o,
        });
    }
    let o = it.call_instance(inst, av, None)?;
    Ok((o, abi.ret.ty))
}

// ------------------------------------------------------------------ obligations
pub struct Ob {
    pub prop: &'static str,
    pub id: String,
    /// "same" | "agree" | "fail" | "unknown"
    pub st: &'static str,
    pub at: String,
    pub why: String,
}

pub struct J {
    pub env: Env,
    pub obs: Vec<Ob>,
    pub ws: BTreeMap<String, String>,
    pub modelled: BTreeMap<String, u64>,
    pub jobs: Vec<(String, u64)>,
    pub steps: u64,
    pub forks: u64,
    pub calls: u64,
    pub sites: u64,
    pub forms: usize,
    pub peak: usize,
    pub want: Option<Vec<String>>,
    pub deep: bool,
    pub started: std::time::Instant,
    derived: HashMap<usize, Rc<(Mat, Vec<Fp>)>>,
    /// value fingerprints, compared between configurations
    pub prints: BTreeMap<String, String>,
    /// jobs analysed for particular exponents only
    pub bounded: Vec<String>,
}

/// Per-job view given to the job's closure.
pub struct C<'a> {
    pub it: Interp,
    pub env: &'a Env,
    pub obs: Vec<Ob>,
    pub entry: String,
    pub prints: Vec<(String, String)>,
}

/// The result of one analysis of a job.
struct Tried {
    r: R<()>,
    it: Interp,
    obs: Vec<Ob>,
    entry: String,
    prints: Vec<(String, String)>,
}
thread_local! {
    /// The exponent of the S-box that stands for an arbitrary one, if it is fixed.
    static EXPONENT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
const EXPONENTS: [u64; 13] = [17, 0, 1, 2, 3, 5, 6, 7, 11, 31, 65537, (1 << 31) + 3, u32::MAX as u64];
fn exponent() -> Option<u64> {
    EXPONENT.with(|x| x.get())
}

type Evs = &'static [(&'static str, &'static [&'static str])];

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "analysis failed".into()
    }
}

impl J {
    pub fn wants(&self, ps: &[&str]) -> bool {
        match &self.want {
            None => true,
            Some(w) => ps.iter().any(|p| w.iter().any(|x| x == p)),
        }
    }
    /// Run one job.  `props`: properties decided by comparing results; `evs`: properties decided
    /// by the absence of events of the given kinds.
    pub fn job(&mut self, name: &str, props: &[&'static str], evs: Evs, f: &mut dyn FnMut(&mut C) -> R<()>) {
        let mut all: Vec<&'static str> = props.to_vec();
        all.extend(evs.iter().map(|e| e.0));
        all.sort();
        all.dedup();
        if !self.wants(&all) {
            return;
        }
        if let Ok(p) = std::env::var("VP_ONLY") {
            if !name.contains(&p) {
                return;
            }
        }
        let t0 = std::time::Instant::now();
        let mut tried = self.attempt(f, None);
        // an exponentiation loop over an arbitrary exponent does not end: analyse it for several
        // particular exponents instead
        if name.contains("Any") && tried.r.is_err() && tried.obs.iter().all(|o| o.st != "fail") {
            let (mut prints, mut last) = (BTreeMap::<String, Vec<String>>::new(), None);
            for e in EXPONENTS {
                let t = self.attempt(f, Some(e));
                for (k, v) in &t.prints {
                    prints.entry(format!("{k} [particular exponents]")).or_default().push(v.clone());
                }
                let bad = t.r.is_err() || !t.it.events.is_empty() || t.obs.iter().any(|o| o.st != "same");
                last = Some(t);
                if bad {
                    break;
                }
            }
            if let Some(mut t) = last {
                if t.r.is_ok() {
                    t.prints = prints.into_iter().map(|(k, v)| (k, v.join(" "))).collect();
                    self.bounded.push(name.to_string());
                }
                tried = t;
            }
        }
        let Tried { r, it, obs, entry, prints } = tried;
        self.prints.extend(prints);
        let path: Vec<String> = it.ws.iter().map(|(n, l)| format!("{} ({})", short(n), l)).collect();
        self.obs.extend(obs.into_iter().map(|mut o| {
            if o.at.is_empty() {
                o.at = path.join("; ");
            }
            o
        }));
        if let Err(e) = &r {
            for p in &all {
                self.obs.push(Ob { prop: p, id: name.to_string(), st: "unknown", at: path.join("; "), why: e.clone() });
            }
        }
        for (p, kinds) in evs {
            let mut n = 0;
            for (e, k) in &it.events {
                if !kinds.contains(&e.kind) {
                    continue;
                }
                n += 1;
                if n > 6 {
                    break;
                }
                let mut why = format!("{}: {}", e.kind, e.detail);
                if !e.under.is_empty() {
                    why.push_str(&format!(", when {}", e.under));
                }
                if *k > 1 {
                    why.push_str(&format!(" ({k} times)"));
                }
                self.obs.push(Ob { prop: p, id: name.to_string(), st: "fail", at: format!("{} ({})", short(&e.func), e.line), why });
            }
            if n == 0 && r.is_ok() {
                self.obs.push(Ob { prop: p, id: format!("{name}: no {}", kinds.join("/")), st: "same", at: entry.clone(), why: String::new() });
            }
        }
        self.steps += it.steps;
        self.forks += it.forks;
        self.calls += it.calls;
        self.sites += it.call_sites.len() as u64;
        let (a, _, p) = form::stats();
        self.forms += a;
        self.peak = self.peak.max(p);
        for (k, v) in it.ws {
            self.ws.insert(k, v);
        }
        for (k, v) in it.modelled {
            *self.modelled.entry(k).or_insert(0) += v;
        }
        let ms = t0.elapsed().as_millis() as u64;
        if std::env::var("VP_TIME").is_ok() {
            eprintln!("{name}: {ms} ms {} steps {:?}", it.steps, r.as_ref().err());
        }
        self.jobs.push((name.to_string(), ms));
    }
    fn attempt(&self, f: &mut dyn FnMut(&mut C) -> R<()>, exp: Option<u64>) -> Tried {
        let t0 = std::time::Instant::now();
        form::reset();
        val::reset();
        EXPONENT.with(|x| x.set(exp));
        let per = if self.deep { 600 } else { 90 };
        let left = self.started.elapsed().as_secs();
        let all_s = if self.deep { 3600 } else { 420 };
        form::deadline(Some(t0 + std::time::Duration::from_secs(per.min(u64::saturating_sub(all_s, left)).max(2))));
        let mut it = Interp::new();
        it.models.fns = self.env.fns.clone();
        let mut c = C { it, env: &self.env, obs: vec![], entry: String::new(), prints: vec![] };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
        form::deadline(None);
        EXPONENT.with(|x| x.set(None));
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("analysis failed: {}", panic_msg(e))),
        };
        let C { it, obs, entry, prints, .. } = c;
        Tried { r, it, obs, entry, prints }
    }
    pub fn derived(&mut self, t: usize) -> Rc<(Mat, Vec<Fp>)> {
        self.derived
            .entry(t)
            .or_insert_with(|| Rc::new((spec::cauchy(t), spec::derived_arc(t, 128, 8, 31, 17))))
            .clone()
    }
}

pub fn short(n: &str) -> String {
    // drop the generic arguments
    let mut out = String::new();
    let mut d = 0i32;
    let b: Vec<char> = n.chars().collect();
    for (i, c) in b.iter().enumerate() {
        match c {
            '<' => d += 1,
            '>' if i > 0 && b[i - 1] != '-' => d -= 1,
            c if d == 0 => out.push(*c),
            _ => {}
        }
    }
    let o = out.replace("::::", "::").trim_end_matches("::").trim_start_matches("::").to_string();
    if o.is_empty() || !o.contains("::") {
        n.chars().take(160).collect()
    } else {
        o
    }
}

impl<'a> C<'a> {
    pub fn call(&mut self, f: &str, consts: &[u64], args: Vec<Arg>) -> R<(Option<Obj>, Ty)> {
        if self.entry.is_empty() {
            self.entry = format!("{f}{consts:?}");
        }
        call(&mut self.it, self.env, f, consts, args)
    }
    /// Call that must return; its leaves.
    pub fn leaves(&mut self, f: &str, consts: &[u64], args: Vec<Arg>) -> R<Vec<Leaf>> {
        match self.call(f, consts, args)? {
            (Some(o), ty) => {
                let mut l = vec![];
                leaves(&mut self.it, ty, &o, &mut l)?;
                Ok(l)
            }
            _ => Err(format!("{f}{consts:?} never returns")),
        }
    }
    pub fn put(&mut self, prop: &'static str, id: &str, ok: bool, why: String) {
        self.obs.push(Ob { prop, id: id.to_string(), st: if ok { "same" } else { "fail" }, at: String::new(), why: if ok { String::new() } else { why } });
    }
    /// Where the analysed code first forms a non-linear argument the reference does not have.
    fn locate(&self, actual: &[Form], expected: &[Form]) -> String {
        let e = form::factors(expected);
        let a = form::factors(actual);
        for (f, func, at) in &self.it.fac_log {
            if a.contains(f) && !e.contains(f) {
                return format!("{} ({}): first value that departs from the reference", short(func), at);
            }
        }
        String::new()
    }
    pub fn forms(&mut self, prop: &'static str, id: &str, actual: &[Form], expected: &[Form]) {
        if actual.len() != expected.len() {
            self.put(prop, id, false, format!("{} words instead of {}", actual.len(), expected.len()));
            return;
        }
        let mut at = None;
        for (i, (a, e)) in actual.iter().zip(expected).enumerate() {
            let (st, why) = match form::compare(*a, *e) {
                Cmp::Same => ("same", String::new()),
                Cmp::Agree => ("agree", String::new()),
                Cmp::Differ(w) => ("fail", format!("computes {} but the definition gives {} [{w}]", clip(form::show_d(*a, 2)), clip(form::show_d(*e, 2)))),
                Cmp::Unknown(w) => ("unknown", w),
            };
            let loc = if st == "fail" || st == "unknown" {
                at.get_or_insert_with(|| self.locate(actual, expected)).clone()
            } else {
                String::new()
            };
            self.obs.push(Ob { prop, id: format!("{id} word {i}"), st, at: loc, why });
        }
    }
    /// Compare the constraints a circuit adds with products, in order.  One obligation.
    fn rows(&mut self, prop: &'static str, id: &str, got: &[(&'static str, Form, Form)], want: &[(Form, Form)]) {
        let n = want.len();
        for (i, (w, a, b)) in got.iter().enumerate() {
            if *w != "product" {
                return self.put(prop, id, false, format!("constraint {i} is no product: {w} of {} and {}", clip(form::show_d(*a, 2)), clip(form::show_d(*b, 2))));
            }
            let Some((x, y)) = want.get(i) else {
                return self.put(prop, id, false, format!("adds {} products instead of {n}", got.len()));
            };
            for (what, g, e) in [("left", a, x), ("right", b, y)] {
                if !matches!(form::compare(*g, *e), Cmp::Same | Cmp::Agree) {
                    return self.put(prop, id, false, format!("constraint {i} has the {what} factor {} instead of {}", clip(form::show_d(*g, 2)), clip(form::show_d(*e, 2))));
                }
            }
        }
        self.put(prop, id, got.len() == n, format!("adds {} products instead of {n}", got.len()));
    }
    /// Record the value numbers' fingerprints.
    fn print(&mut self, id: &str, f: &[Form]) -> R<()> {
        for (i, x) in f.iter().enumerate() {
            let p = form::fingerprint(*x).ok_or("a result is gated on too many conditions")?;
            self.prints.push((format!("{id} word {i}"), p));
        }
        Ok(())
    }
    /// Compare leaves; integers and field elements in declaration order.  One obligation.
    pub fn same(&mut self, prop: &'static str, id: &str, actual: &[Leaf], expected: &[Leaf]) {
        if actual.len() != expected.len() {
            self.put(prop, id, false, format!("{} components instead of {}", actual.len(), expected.len()));
            return;
        }
        let mut st = "same";
        let mut why = String::new();
        for (i, (a, e)) in actual.iter().zip(expected).enumerate() {
            let r = match (a, e) {
                (Leaf::Fe(x), Leaf::Fe(y)) => match form::compare(*x, *y) {
                    Cmp::Same => ("same", String::new()),
                    Cmp::Agree => ("agree", String::new()),
                    Cmp::Differ(w) => ("fail", format!("component {i} is {} instead of {} [{w}]", clip(form::show_d(*x, 2)), clip(form::show_d(*y, 2)))),
                    Cmp::Unknown(w) => ("unknown", w),
                },
                (Leaf::Int(x), Leaf::Int(y)) => {
                    if x == y {
                        ("same", String::new())
                    } else if same_int(*x, *y) {
                        ("agree", String::new())
                    } else {
                        ("fail", format!("component {i} is {} instead of {}", show_v(*x), show_v(*y)))
                    }
                }
                (a, e) => ("fail", format!("component {i} is {a:?} instead of {e:?}")),
            };
            if r.0 == "fail" || (r.0 == "unknown" && st != "fail") || (r.0 == "agree" && st == "same") {
                if st != "fail" {
                    st = r.0;
                    why = r.1;
                }
            }
        }
        self.obs.push(Ob { prop, id: id.to_string(), st, at: String::new(), why });
    }
}
fn show_v(v: V) -> String {
    match v {
        V::Int(c) => c.to_string(),
        V::Sym(t) => clip(val::show_term(t, 4)),
        v => format!("{v:?}"),
    }
}
fn clip(s: String) -> String {
    if s.len() > 300 {
        format!("{}..", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}
/// Integer terms that agree at many points (conditions on field data are taken as free booleans).
fn same_int(a: V, b: V) -> bool {
    let (Some(x), Some(y)) = (val::of_v(a), val::of_v(b)) else { return false };
    let mut data = vec![];
    let mut ints = HashMap::new();
    let mut fs = vec![];
    for t in [x, y] {
        if let T::T(t) = t {
            form::term_gates(t, &mut data, &mut ints, &mut fs);
        }
    }
    let mut singles: Vec<(TermIdV, Vec<u128>)> = ints.into_iter().collect();
    singles.sort();
    // conditions on several forms at once are split into their members
    let mut atoms: Vec<form::Form> = vec![];
    for d in &data {
        if let Term::Zeros(v) = &*val::get(*d) {
            for f in v {
                if !atoms.contains(f) {
                    atoms.push(*f)
                }
            }
        }
    }
    if atoms.len() > 10 {
        return same_zero_sets(x, y, &atoms);
    }
    for g in 0..1u32 << atoms.len() {
        for ic in 0..6usize {
            let mut p = form::Point::new(form::mix(0x1234 ^ (ic as u64) << 20 ^ (g as u64)));
            for d in &data {
                if let Term::Zeros(v) = &*val::get(*d) {
                    let all = v.iter().all(|f| g >> atoms.iter().position(|a| a == f).unwrap() & 1 == 1);
                    p.gates.insert(*d, all);
                }
            }
            for (n, c) in &singles {
                if ic < c.len() {
                    p.ints.insert(*n, c[ic]);
                } else if ic == c.len() {
                    p.ints.insert(*n, 0);
                }
            }
            match (p.tt(x), p.tt(y)) {
                (Some(a), Some(b)) if a == b => {}
                _ => return false,
            }
        }
    }
    true
}
type TermIdV = form::TermId;
/// Boolean functions of many zero tests: compare with none, each single one, and all but each one non-zero.
fn same_zero_sets(x: T, y: T, atoms: &[Form]) -> bool {
    let mut cases: Vec<Vec<bool>> = vec![vec![true; atoms.len()], vec![false; atoms.len()]];
    for i in 0..atoms.len() {
        let mut v = vec![true; atoms.len()];
        v[i] = false;
        cases.push(v.clone());
        cases.push(v.iter().map(|b| !b).collect());
    }
    for c in cases {
        let (mut p, mut data, mut ints, mut fs) = (form::Point::new(7), vec![], HashMap::new(), vec![]);
        for t in [x, y] {
            if let T::T(t) = t {
                form::term_gates(t, &mut data, &mut ints, &mut fs);
            }
        }
        for d in &data {
            if let Term::Zeros(v) = &*val::get(*d) {
                let all = v.iter().all(|f| c[atoms.iter().position(|a| a == f).unwrap()]);
                p.gates.insert(*d, all);
            }
        }
        match (p.tt(x), p.tt(y)) {
            (Some(a), Some(b)) if a == b => {}
            _ => return false,
        }
    }
    true
}

fn fes(l: &[Leaf]) -> R<Vec<Form>> {
    l.iter()
        .map(|x| match x {
            Leaf::Fe(f) | Leaf::Fv(f, _) => Ok(*f),
            x => Err(format!("expected a field element, got {x:?}")),
        })
        .collect()
}
fn ints(l: &[Leaf]) -> R<Vec<u128>> {
    l.iter()
        .map(|x| match x {
            Leaf::Int(V::Int(c)) => Ok(*c),
            x => Err(format!("expected a constant, got {x:?}")),
        })
        .collect()
}
fn consts(l: &[Leaf]) -> R<Vec<Fp>> {
    fes(l)?.into_iter().map(|f| form::as_const(f).ok_or_else(|| "table entry is not a constant".to_string())).collect()
}
fn kf(v: &[Fp]) -> Vec<Form> {
    v.iter().map(|c| form::konst(*c)).collect()
}
fn vars(name: &str, n: usize, rnd: bool) -> Vec<Form> {
    (0..n).map(|i| elem_form(&format!("{name}[{i}]"), rnd)).collect()
}
fn vars2(name: &str, n: usize, m: usize, rnd: bool) -> Vec<Vec<Form>> {
    (0..n).map(|i| vars(&format!("{name}[{i}]"), m, rnd)).collect()
}
fn li(n: usize) -> Leaf {
    Leaf::Int(V::Int(n as u128))
}
fn lf(v: &[Form]) -> Vec<Leaf> {
    v.iter().map(|f| Leaf::Fe(*f)).collect()
}
fn tvar(name: &str, bits: u32) -> V {
    V::Sym(val::term(Term::Var(name.into(), bits)))
}
fn bool_leaf(t: T) -> Leaf {
    Leaf::Int(val::to_v(t))
}

// ------------------------------------------------------------------ hashes on shipped parameters
const HASH_EV: Evs = &[("P06", &["DataBranch", "DataIndex"]), ("P07", &["Panic"])];

fn hashes(j: &mut J) {
    for k in 1..=7usize {
        if !j.wants(&["P01", "P06", "P07", "P24", "P39"]) {
            return;
        }
        let d = j.derived(k + 1);
        j.job(&format!("hash_{k}"), &["P01", "P24", "P39"], HASH_EV, &mut |c| {
            c.it.work = [0; 3];
            let l = c.leaves(&format!("hash_{k}"), &[], vec![sy("d"), sy("v")])?;
            let a = fes(&l)?;
            let mut x = vec![form::var("d")];
            x.extend(vars("v", k, false));
            let mds: Vec<Fp> = d.0.concat();
            let w = spec::plain(k + 1, 8, 31, Sbox::Pow(17), &kf(&mds), &kf(&d.1), &x);
            c.forms("P01", &format!("hash_{k}"), &a, &w[1..2]);
            c.print(&format!("hash_{k}"), &a)?;
            // a power, or at most eight products, for each S-box
            let t = k as u64 + 1;
            let [linear, products, powers] = c.it.work;
            let (boxes, plain) = (8 * t + 31, 39 * t * t);
            c.put("P39", &format!("hash_{k}: S-boxes"), powers + products / 8 <= boxes, format!("takes {powers} powers and {products} products, where {boxes} S-boxes are evaluated"));
            c.put("P39", &format!("hash_{k}: multiplications by constants"), linear < plain, format!("multiplies by constants {linear} times, no fewer than the {plain} of the plain permutation"));
            Ok(())
        });
    }
}

fn shipped(j: &mut J) {
    for k in 1..=7usize {
        if !j.wants(&["P02", "P06", "P24"]) {
            return;
        }
        j.job(&format!("shipped permutation, rate {k}"), &["P02", "P24"], &[("P06", &["DataBranch", "DataIndex"]), ("P02", &["Panic"])], &mut |c| {
            let f = format!("ship_{k}");
            let o = fes(&c.leaves(&f, &[31], vec![sy("x"), Arg::Int(0)])?)?;
            let p = fes(&c.leaves(&f, &[31], vec![sy("x"), Arg::Int(1)])?)?;
            c.forms("P02", &format!("rate {k}: optimized = plain"), &o, &p);
            c.print(&format!("rate {k}: plain permutation"), &p)?;
            c.print(&format!("rate {k}: optimized permutation"), &o)?;
            Ok(())
        });
    }
}

/// The rate the repository's Sage script is about: what the Rust code computes, and the tables for the
/// comparison with the script (tools/sage.py).
fn script(j: &mut J) {
    if !j.wants(&["P40"]) {
        return;
    }
    let k = 2usize;
    j.job("rate 2 as the reference script has it", &["P40"], &[("P40", &["Panic"])], &mut |c| {
        let l = c.leaves(&format!("tab_{k}"), &[], vec![])?;
        let d = read_dump(k + 1, &l)?;
        let (al, rf, rp) = (d.head[1] as u128, d.head[2] as usize, d.head[3] as usize);
        if d.arc.len() < (rf + rp) * (k + 1) {
            return Err("fewer round constants than rounds".into());
        }
        let hex = |v: &[Fp]| v.iter().map(|x| x.hex()).collect::<Vec<_>>().join(" ");
        for (n, v) in [("mds", hex(&d.mds)), ("arc", hex(&d.arc)), ("head", d.head.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "))] {
            c.prints.push((format!("rate {k}: table {n}"), v));
        }
        let of = |x: &[Form]| spec::plain(k + 1, rf, rp, Sbox::Pow(al as _), &kf(&d.mds), &kf(&d.arc), x);
        let st = of(&vars("x", k + 1, false));
        // the probe returns the digest (word 1), then the state
        let mut w = vec![st[1].clone()];
        w.extend(st);
        for (i, n) in ["optimized", "plain"].iter().enumerate() {
            let o = fes(&c.leaves(&format!("ship_{k}"), &[31], vec![sy("x"), Arg::Int(i as u128)])?)?;
            c.forms("P40", &format!("rate {k}: {n} permutation = the shipped tables' permutation"), &o, &w);
        }
        let mut x = vec![form::var("d")];
        x.extend(vars("v", k, false));
        let h = fes(&c.leaves(&format!("hash_{k}"), &[], vec![sy("d"), sy("v")])?)?;
        c.forms("P40", &format!("hash_{k} = the shipped tables' hash"), &h, &of(&x)[1..2]);
        Ok(())
    });
}

// ------------------------------------------------------------------ permutations on given parameters
#[derive(Clone, Copy, Debug)]
struct Shape {
    t: usize,
    rf: usize,
    rp: usize,
    /// rounds by which the type-level tables exceed the declared rounds
    x: usize,
}
impl Shape {
    fn consts(&self) -> Vec<u64> {
        let (t, r) = (self.t as u64, (self.rf + self.rp + self.x) as u64);
        vec![t, t - 1, t * t, (t - 1) * (t - 1), r, t, r * t, (self.rp + self.x) as u64]
    }
}
fn table_args(s: &Shape, a: &Sb, rnd: bool, pre: &str) -> Vec<Arg> {
    let f = |n: &str| if rnd { Arg::Rnd(format!("{pre}{n}")) } else { Arg::Sym(format!("{pre}{n}")) };
    let (inv, e) = match a {
        Sb::Pow(e) => (Arg::Int(0), Arg::Int(*e as u128)),
        Sb::Inv => (Arg::Int(1), Arg::Int(0)),
        Sb::Any => (Arg::Int(0), exponent().map_or_else(|| Arg::Sym(format!("{pre}alpha")), |e| Arg::Int(e as u128))),
    };
    vec![
        inv,
        e,
        Arg::Int(s.rf as u128),
        Arg::Int(s.rp as u128),
        f("mds"),
        f("arc"),
        f("oarc"),
        f("m00"),
        f("mi"),
        f("vc"),
        f("wc"),
        f("aux"),
    ]
}
/// The entries of a parameter set made by `make`, in the order the probe lists them.
fn param_leaves(x: &mut C, s: &Shape, a: &Sb, rnd: bool) -> R<Vec<Leaf>> {
    let (t, rf, rp) = (s.t, s.rf, s.rp);
    let mut e = vec![li(128)];
    e.push(match a {
        Sb::Inv => li(1 << 40),
        Sb::Pow(e) => li(*e as usize),
        Sb::Any => match exponent() {
            Some(e) => li(e as usize),
            None => Leaf::Int(x.it.zext(tvar("alpha", 32), 4, 8)?),
        },
    });
    e.extend([li(rf), li(rp)]);
    // tables may hold more rounds than declared
    let held = rp + s.x;
    let (n, re, q) = (t * t, t * (rf + held), t - 1);
    e.extend(lf(&vars("mds", n, rnd)));
    e.extend(lf(&vars("arc", re, rnd)));
    e.extend(lf(&vars("oarc", re, rnd)));
    e.push(Leaf::Fe(elem_form("m00", rnd)));
    e.extend(lf(&vars("mi", n, rnd)));
    e.extend(lf(&vars2("vc", held, q, rnd).concat()));
    e.extend(lf(&vars2("wc", held, q, rnd).concat()));
    for (i, k) in [q * q, q, q, n, n, n, q * q].iter().enumerate() {
        e.extend(lf(&vars(&format!("aux.{i}"), *k, rnd)));
    }
    Ok(e)
}
fn tables(s: &Shape, rnd: bool, pre: &str) -> OptTables {
    let n = |x: &str| format!("{pre}{x}");
    OptTables {
        mds: vars(&n("mds"), s.t * s.t, rnd),
        arc: vars(&n("oarc"), s.t * (s.rf + s.rp), rnd),
        m00: elem_form(&n("m00"), rnd),
        mi: vars(&n("mi"), s.t * s.t, rnd),
        v: vars2(&n("vc"), s.rp, s.t - 1, rnd),
        w: vars2(&n("wc"), s.rp, s.t - 1, rnd),
    }
}
#[derive(Clone, Copy, Debug)]
enum Sb {
    Pow(u64),
    Inv,
    Any,
}
impl Sb {
    fn spec(&self) -> Sbox {
        match self {
            Sb::Pow(e) => Sbox::Pow(*e),
            Sb::Inv => Sbox::Inv,
            Sb::Any => match exponent() {
                Some(e) => Sbox::Pow(e),
                None => Sbox::Sym(val::term(Term::Var("alpha".into(), 32))),
            },
        }
    }
}
/// (shape, S-box, generic constants instead of symbolic tables)
fn grid() -> Vec<(Shape, Sb, bool)> {
    let mut v = vec![];
    let s = |t, rf, rp| Shape { t, rf, rp, x: 0 };
    // symbolic tables
    for t in 2..=4 {
        for (rf, rp) in [(2, 1), (2, 2), (4, 1), (2, 3), (4, 3)] {
            if t == 4 && rp == 3 {
                continue;
            }
            for a in [Sb::Any, Sb::Inv] {
                v.push((s(t, rf, rp), a, false));
            }
        }
    }
    // generic tables, larger shapes
    for t in 2..=8 {
        for (rf, rp) in [(8, 31), (2, 1), (6, 5), (10, 2)] {
            for a in [Sb::Any, Sb::Pow(17), Sb::Pow(3), Sb::Pow(5), Sb::Inv] {
                if rp == 31 || matches!(a, Sb::Any | Sb::Inv) {
                    v.push((s(t, rf, rp), a, true));
                }
            }
        }
    }
    for t in [9, 10, 12] {
        v.push((s(t, 8, 10), Sb::Any, true));
    }
    // counts, positions and widths that do not fit into a byte
    for (t, rf, rp) in [(2, 4, 260), (2, 258, 3), (17, 2, 2), (3, 0, 3)] {
        v.push((s(t, rf, rp), Sb::Any, true));
    }
    // tables with room for more rounds than the parameter set declares
    for (t, rf, rp, x) in [(2, 2, 2, 1), (3, 4, 1, 2), (4, 2, 2, 3)] {
        v.push((Shape { t, rf, rp, x }, Sb::Any, false));
    }
    v.push((Shape { t: 5, rf: 6, rp: 7, x: 4 }, Sb::Pow(5), true));
    v
}
const P08EV: Evs = &[("P08", &["Panic"])];
const P09EV: Evs = &[("P09", &["Panic"])];
const P10EV: Evs = &[("P10", &["Panic"]), ("P04", &["Witness", "Constraint", "DataBranch", "DataIndex"]), ("P32", &["Constraint", "Panic"])];

fn put(c: &mut C, o: Obj, ty: Ty) -> R<Arg> {
    let t = ti(ty)?;
    Ok(Arg::Obj(c.it.ptr_to(t.size, 16, &o)))
}
fn make(c: &mut C, s: &Shape, a: &Sb, rnd: bool, pre: &str) -> R<(Obj, Ty)> {
    match c.call("mk", &s.consts(), table_args(s, a, rnd, pre))? {
        (Some(o), ty) => Ok((o, ty)),
        _ => Err("the parameter set is refused".into()),
    }
}
fn native(j: &mut J) {
    for (s, a, rnd) in grid() {
        let nm = format!("t={} rf={} rp={}{} {:?} {}", s.t, s.rf, s.rp, if s.x > 0 { format!("+{}", s.x) } else { String::new() }, a, if rnd { "generic tables" } else { "all tables" });
        // the configurations are compared on the small shapes
        let p24 = s.t <= 4 && !rnd;
        let pl: &[&'static str] = if p24 { &["P08", "P24"] } else { &["P08"] };
        let op: &[&'static str] = if p24 { &["P09", "P24"] } else { &["P09"] };
        j.job(&format!("plain {nm}"), pl, P08EV, &mut |c| {
            let (p, pt) = make(c, &s, &a, rnd, "")?;
            let pp = put(c, p, pt)?;
            c.entry = format!("Instance::unoptimized_n_to_1_fixed_hash {nm}");
            let (i, it) = c.call("inst_new", &s.consts(), vec![pp])?;
            let ip = put(c, i.ok_or("the instance is refused")?, it)?;
            let l = fes(&c.leaves("inst_plain", &s.consts(), vec![ip, sy("x")])?)?;
            let w = spec::plain(s.t, s.rf, s.rp, a.spec(), &vars("mds", s.t * s.t, rnd), &vars("arc", s.t * (s.rf + s.rp), rnd), &vars("x", s.t, false));
            let mut e = vec![w[1]];
            e.extend(w);
            c.forms("P08", &format!("plain {nm}"), &l, &e);
            if p24 {
                c.print(&format!("plain {nm}"), &l)?;
            }
            Ok(())
        });
        j.job(&format!("optimized {nm}"), op, P09EV, &mut |c| {
            let (p, pt) = make(c, &s, &a, rnd, "")?;
            let pp = put(c, p, pt)?;
            c.entry = format!("Instance::n_to_1_fixed_hash {nm}");
            let (i, it) = c.call("inst_new", &s.consts(), vec![pp])?;
            let ip = put(c, i.ok_or("the instance is refused")?, it)?;
            let l = fes(&c.leaves("inst_opt", &s.consts(), vec![ip, sy("x")])?)?;
            let w = spec::optimized(s.t, s.rf, s.rp, a.spec(), &tables(&s, rnd, ""), &vars("x", s.t, false));
            let mut e = vec![w[1]];
            e.extend(w);
            c.forms("P09", &format!("optimized {nm}"), &l, &e);
            if p24 {
                c.print(&format!("optimized {nm}"), &l)?;
            }
            Ok(())
        });
    }
    // no partial rounds at all is legitimate for the plain permutation
    for t in [2, 5] {
        let s = Shape { t, rf: 4, rp: 0, x: 0 };
        for a in [Sb::Any, Sb::Inv] {
            j.job(&format!("plain t={t} rf=4 rp=0 {a:?}"), &["P08"], P08EV, &mut |c| {
                let (p, pt) = make(c, &s, &a, false, "")?;
                let pp = put(c, p, pt)?;
                c.entry = "Instance::unoptimized_n_to_1_fixed_hash without partial rounds".into();
                let (i, it) = c.call("inst_new", &s.consts(), vec![pp])?;
                let ip = put(c, i.ok_or("the instance is refused")?, it)?;
                let l = fes(&c.leaves("inst_plain", &s.consts(), vec![ip, sy("x")])?)?;
                let w = spec::plain(s.t, s.rf, s.rp, a.spec(), &vars("mds", t * t, false), &vars("arc", t * 4, false), &vars("x", t, false));
                let mut e = vec![w[1]];
                e.extend(w);
                c.forms("P08", &format!("plain t={t} rf=4 rp=0 {a:?}"), &l, &e);
                Ok(())
            });
        }
    }
}

/// Generalise the scalars in which two memory states differ; true if anything changed.
fn havoc(a: &mut Alloc, b: &Alloc, spans: &[(u64, u64, bool)], ctr: &mut usize) -> bool {
    let mut ch = false;
    for (off, size, fe) in spans {
        let (x, y) = (a.read(*off, *size), b.read(*off, *size));
        if x == y {
            continue;
        }
        if let (Obj::S(V::Sym(t), _), false) = (&x, *fe) {
            if let Term::Var(n, _) = &*val::get(*t) {
                if n.starts_with("old") {
                    continue;
                }
            }
        }
        if let (Obj::S(V::Fe(f), _), true) = (&x, *fe) {
            let p = form::poly(*f);
            if p.len() == 1 && form::show(*f).starts_with("old") {
                continue;
            }
        }
        ch = true;
        *ctr += 1;
        let v = if *fe {
            V::Fe(form::var(&format!("old{ctr}")))
        } else {
            V::Sym(val::term(Term::Var(format!("old{ctr}"), 8 * *size as u32)))
        };
        a.write(*off, *size, &Obj::S(v, *size as u32));
    }
    ch
}
/// Scalar spans of a type (offset, size, is a field element).
fn spans(ty: Ty, base: u64, out: &mut Vec<(u64, u64, bool)>) -> R<()> {
    let size = ti(ty)?.size;
    if size == 0 {
        return Ok(());
    }
    if models::is_fq(ty) {
        out.push((base, 32, true));
        return Ok(());
    }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Array(e, n)) => {
            let es = ti(e)?.size;
            for i in 0..array_len(&n)? {
                spans(e, base + i * es, out)?;
            }
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            for (i, t) in ts.iter().enumerate() {
                spans(*t, base + field_off(ty, None, i)?, out)?;
            }
        }
        TyKind::RigidTy(RigidTy::Adt(d, g)) if matches!(d.kind(), AdtKind::Struct) => {
            let v = &d.variants()[0];
            for (i, f) in v.fields().iter().enumerate() {
                spans(f.ty_with_args(&g), base + field_off(ty, None, i)?, out)?;
            }
        }
        _ => {
            let mut o = 0;
            while o < size {
                let s = (size - o).min(if size % 8 == 0 { 8 } else { 1 });
                out.push((base + o, s, false));
                o += s;
            }
        }
    }
    Ok(())
}

fn reuse(j: &mut J) {
    for t in 2..=8usize {
        for (rf, rp, a) in [(8usize, 31usize, Sb::Pow(17)), (2, 2, Sb::Any), (4, 3, Sb::Inv)] {
            let s = Shape { t, rf, rp, x: 0 };
            let nm = format!("reuse t={t} rf={rf} rp={rp} {a:?}");
            j.job(&nm.clone(), &["P05"], &[], &mut |c| {
                c.entry = format!("Instance {nm}");
                let (p, pt) = make(c, &s, &a, true, "")?;
                let pp = put(c, p, pt)?;
                let Arg::Obj(po) = pp else { unreachable!() };
                let k = s.consts();
                let fresh = |c: &mut C| -> R<(u32, u64, Ty)> {
                    let (i, it) = c.call("inst_new", &k, vec![Arg::Obj(po.clone())])?;
                    let n = ti(it)?.size;
                    let o = c.it.ptr_to(n, 16, &i.ok_or("the instance is refused")?);
                    let Obj::S(V::Ptr(id, _), _) = o else { unreachable!() };
                    Ok((id, n, it))
                };
                let ptr = |id: u32| Arg::Obj(Obj::S(V::Ptr(id, 0), 8));
                let (f1, n, ty) = fresh(c)?;
                let base = c.it.read_mem(f1, 0, n)?;
                let want_o = fes(&c.leaves("inst_opt", &k, vec![ptr(f1), sy("x")])?)?;
                let words_o = fes(&c.leaves("inst_words", &k, vec![ptr(f1)])?)?;
                let (f2, _, _) = fresh(c)?;
                let want_p = fes(&c.leaves("inst_plain", &k, vec![ptr(f2), sy("x")])?)?;
                let words_p = fes(&c.leaves("inst_words", &k, vec![ptr(f2)])?)?;
                let mut sp = vec![];
                spans(ty, 0, &mut sp)?;
                // the state before any later hash: everything any earlier hash may have changed is arbitrary
                let mut st = Alloc::new(n.max(1), 16);
                st.write(0, n, &base);
                let mut ctr = 0;
                for round in 0.. {
                    if round > 6 {
                        return Err("no stable abstraction of a used instance".into());
                    }
                    let mut changed = false;
                    for f in ["inst_opt", "inst_plain"] {
                        let id = c.it.new_alloc(Alloc::new(n.max(1), 16));
                        c.it.write_mem(id, 0, n, &st.read(0, n))?;
                        let r = c.call(f, &k, vec![ptr(id), Arg::Sym(format!("y{round}"))])?;
                        if r.0.is_none() {
                            return Err("a used instance never returns".into());
                        }
                        let now = c.it.alloc(id)?;
                        changed |= havoc(&mut st, &now, &sp, &mut ctr);
                    }
                    if !changed {
                        break;
                    }
                }
                for (f, want, words) in [("inst_opt", &want_o, &words_o), ("inst_plain", &want_p, &words_p)] {
                    let id = c.it.new_alloc(Alloc::new(n.max(1), 16));
                    c.it.write_mem(id, 0, n, &st.read(0, n))?;
                    let got = fes(&c.leaves(f, &k, vec![ptr(id), sy("x")])?)?;
                    let w = fes(&c.leaves("inst_words", &k, vec![ptr(id)])?)?;
                    c.forms("P05", &format!("{nm} {f}: used = fresh"), &got, want);
                    c.forms("P05", &format!("{nm} {f}: words after"), &w, &got[1..]);
                    c.forms("P05", &format!("{nm} {f}: words after, fresh"), words, &want[1..]);
                }
                // the exposed state is the permuted state, as defined by the tables
                let e = spec::plain(t, rf, rp, a.spec(), &vars("mds", t * t, true), &vars("arc", t * (rf + rp), true), &vars("x", t, false));
                c.forms("P05", &format!("{nm}: exposed words"), &words_p, &e);
                let e = spec::optimized(t, rf, rp, a.spec(), &tables(&s, true, ""), &vars("x", t, false));
                c.forms("P05", &format!("{nm}: exposed words, optimized"), &words_o, &e);
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ shipped tables
pub struct Dump {
    pub head: Vec<u128>,
    pub mds: Vec<Fp>,
    pub arc: Vec<Fp>,
    pub oarc: Vec<Fp>,
    pub m00: Fp,
    pub mi: Vec<Fp>,
    pub v: Vec<Vec<Fp>>,
    pub w: Vec<Vec<Fp>>,
    /// M_hat, v, w, M', M'', M^-1, M_hat^-1
    pub aux: Vec<Vec<Fp>>,
    pub dims: Vec<u128>,
}
fn read_dump(t: usize, l: &[Leaf]) -> R<Dump> {
    let (s, n, re, rp) = (t - 1, t * t, 39 * t, 31);
    let mut p = 0;
    let mut take = |k: usize| {
        let r = &l[p..p + k];
        p += k;
        r
    };
    let head = ints(take(4))?;
    let mds = consts(take(n))?;
    let arc = consts(take(re))?;
    let oarc = consts(take(re))?;
    let m00 = consts(take(1))?[0];
    let mi = consts(take(n))?;
    let v = (0..rp).map(|_| consts(take(s))).collect::<R<Vec<_>>>()?;
    let w = (0..rp).map(|_| consts(take(s))).collect::<R<Vec<_>>>()?;
    let aux = [s * s, s, s, n, n, n, s * s].iter().map(|k| consts(take(*k))).collect::<R<Vec<_>>>()?;
    let dims = ints(&l[p..])?;
    Ok(Dump { head, mds, arc, oarc, m00, mi, v, w, aux, dims })
}
const TP: &[&str] = &["P11", "P12", "P13", "P14", "P15", "P16"];
fn table_jobs(j: &mut J) {
    for k in 1..=7usize {
        if !j.wants(TP) {
            return;
        }
        let der = j.derived(k + 1);
        let file = format!("RATE_{k}_PARAMS");
        j.job(&format!("tables of rate {k}"), &["P11", "P12", "P13", "P14", "P15", "P16"], &[("P11", &["NonCanonical"])], &mut |c| {
            let t = k + 1;
            let l = c.leaves(&format!("tab_{k}"), &[], vec![])?;
            let d = read_dump(t, &l)?;
            check_tables(c, k, &d, &der);
            for o in c.obs.iter_mut() {
                o.at = format!("poseidon377::{file}");
            }
            Ok(())
        });
    }
}
fn vec_eq(c: &mut C, p: &'static str, id: &str, a: &[Fp], b: &[Fp]) {
    if a.len() != b.len() {
        c.put(p, id, false, format!("{} entries instead of {}", a.len(), b.len()));
        return;
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => c.put(p, id, true, String::new()),
        Some(i) => c.put(p, id, false, format!("entry {i} is {} instead of {}", a[i].hex(), b[i].hex())),
    }
}
fn check_tables(c: &mut C, k: usize, d: &Dump, der: &(Mat, Vec<Fp>)) {
    let t = k + 1;
    let r = |s: &str| format!("rate {k}: {s}");
    // P11
    c.put("P11", &r("header"), d.head == [128, 17, 8, 31], format!("(M, alpha, r_F, r_P) = {:?} instead of (128, 17, 8, 31)", d.head));
    let (tt, s, rr) = (t as u128, k as u128, 39u128);
    let mut dims: Vec<u128> = vec![];
    for (a, b) in [(tt, tt), (rr, tt), (rr, tt), (tt, tt), (s, s), (1, s), (s, 1), (tt, tt), (tt, tt), (tt, tt), (s, s), (39, 0), (tt, s)] {
        dims.extend([a, b]);
    }
    for _ in 0..31 {
        dims.extend([1, s]);
    }
    for _ in 0..31 {
        dims.extend([s, 1]);
    }
    c.put("P11", &r("dimensions"), d.dims == dims, format!("dimensions {:?} instead of {:?}", d.dims, dims));
    let m = spec::mat(t, t, &d.mds);
    // P12
    match spec::derived_oarc(t, 8, 31, &m, &d.arc) {
        Some(o) => vec_eq(c, "P12", &r("optimized round constants"), &d.oarc, &o),
        None => c.put("P12", &r("optimized round constants"), false, "the MDS matrix is singular".into()),
    }
    match spec::factorise(31, &m) {
        Some((mi, v, w)) => {
            vec_eq(c, "P12", &r("pre-matrix"), &d.mi, &mi.concat());
            for i in 0..31 {
                vec_eq(c, "P12", &r(&format!("sparse row {i}")), &d.v[i], &v[i]);
                vec_eq(c, "P12", &r(&format!("sparse column {i}")), &d.w[i], &w[i]);
            }
        }
        None => c.put("P12", &r("factorisation"), false, "a submatrix is singular".into()),
    }
    vec_eq(c, "P12", &r("corner"), &[d.m00], &d.mds[..1]);
    // P13
    let hat = spec::hat(&m);
    vec_eq(c, "P13", &r("submatrix"), &d.aux[0], &hat.concat());
    vec_eq(c, "P13", &r("row vector"), &d.aux[1], &spec::row_tail(&m));
    vec_eq(c, "P13", &r("column vector"), &d.aux[2], &spec::col_tail(&m));
    vec_eq(c, "P13", &r("corner"), &[d.m00], &d.mds[..1]);
    match (spec::solve(&m).2, spec::solve(&hat).2) {
        (Some(mi), Some(hi)) => {
            let mp = spec::embed(&hat);
            vec_eq(c, "P13", &r("first factor"), &d.aux[3], &mp.concat());
            let wv = spec::mvec(&hi, &spec::col_tail(&m));
            let mut mpp = spec::ident(t);
            mpp[0] = m[0].clone();
            for i in 1..t {
                mpp[i][0] = wv[i - 1];
            }
            vec_eq(c, "P13", &r("second factor"), &d.aux[4], &mpp.concat());
            vec_eq(c, "P13", &r("inverse"), &d.aux[5], &mi.concat());
            vec_eq(c, "P13", &r("submatrix inverse"), &d.aux[6], &hi.concat());
            let prod = spec::mmul(&spec::mat(t, t, &d.aux[3]), &spec::mat(t, t, &d.aux[4]));
            vec_eq(c, "P13", &r("product of the factors"), &prod.concat(), &d.mds);
            let id = spec::mmul(&spec::mat(t, t, &d.aux[5]), &m);
            vec_eq(c, "P13", &r("inverse times matrix"), &id.concat(), &spec::ident(t).concat());
            let id = spec::mmul(&hat, &spec::mat(k, k, &d.aux[6]));
            vec_eq(c, "P13", &r("submatrix times its inverse"), &id.concat(), &spec::ident(k).concat());
        }
        _ => c.put("P13", &r("inverses"), false, "a matrix is singular".into()),
    }
    // P14: all minors, by order
    for n in 1..=t {
        let subs: Vec<usize> = (0..1usize << t).filter(|s| s.count_ones() as usize == n).collect();
        let mut bad = None;
        for a in &subs {
            for b in &subs {
                let sub: Mat = (0..t).filter(|i| a >> i & 1 == 1).map(|i| (0..t).filter(|j| b >> j & 1 == 1).map(|j| m[i][j]).collect()).collect();
                if spec::solve(&sub).1.is_zero() {
                    bad = Some((*a, *b));
                }
            }
        }
        c.put("P14", &r(&format!("all {} submatrices of order {n} invertible", subs.len() * subs.len())), bad.is_none(), format!("singular submatrix (row set, column set) {bad:?}"));
    }
    // no state subspace keeps the first word inactive for ever: (e0, e0 M, .., e0 M^(t-1)) has full rank
    let mut rows: Mat = vec![];
    let mut e = vec![Fp::ZERO; t];
    e[0] = Fp::one();
    for _ in 0..t {
        rows.push(e.clone());
        e = spec::mmul(&vec![e], &m).remove(0);
    }
    let rk = spec::solve(&rows).0;
    c.put("P14", &r("no inactive invariant subspace"), rk == t, format!("observability rank {rk} of {t}"));
    // P15
    let (mm, al, rf, rp) = (d.head[0] as f64, d.head[1] as u64, d.head[2] as i64, d.head[3] as i64);
    let g = spec::gcd_with_group_order(al);
    c.put("P15", &r("S-box is a permutation"), g == 1, format!("gcd(alpha, p-1) = {g}"));
    let ok = spec::rounds_with_margin(t, mm, al as f64, rf, rp);
    c.put("P15", &r("round numbers"), ok.is_ok(), ok.err().unwrap_or_default());
    // P16
    vec_eq(c, "P16", &r("round constants"), &d.arc, &der.1);
    vec_eq(c, "P16", &r("mixing matrix"), &d.mds, &der.0.concat());
}

// ------------------------------------------------------------------ matrices
fn view(r: usize, c: usize, e: &[Form]) -> Vec<Leaf> {
    let mut v = vec![li(r), li(c), li(r)];
    v.extend((0..r).map(|_| li(c)));
    for _ in 0..3 {
        v.extend(lf(e));
    }
    v
}
fn u(v: &[usize]) -> Vec<u64> {
    v.iter().map(|x| *x as u64).collect()
}
fn tr(r: usize, c: usize, e: &[Form]) -> Vec<Form> {
    (0..c).flat_map(|j| (0..r).map(move |i| (i, j))).map(|(i, j)| e[i * c + j]).collect()
}
fn matmul(a: usize, b: usize, c: usize, x: &[Form], y: &[Form]) -> Vec<Form> {
    let mut v = vec![];
    for i in 0..a {
        for j in 0..c {
            v.push((0..b).fold(form::zero(), |s, k| form::add(s, form::mul(x[i * b + k], y[k * c + j]))));
        }
    }
    v
}
fn flat_leaves(n: usize, e: &[Form]) -> Vec<Leaf> {
    let mut v = vec![li(1), li(n), li(n)];
    v.extend(lf(e));
    v.extend(lf(e));
    v
}
/// (probe prefix, constants) for one shape of every matrix type
fn kinds(thorough: bool) -> Vec<(&'static str, Vec<u64>, usize, usize)> {
    let mut v = vec![];
    for k in ["mx", "ax", "ox"] {
        let mut shapes = vec![];
        for r in 1..=4 {
            for c in 1..=4 {
                shapes.push((r, c));
            }
        }
        shapes.extend([(1, 7), (7, 1), (8, 8), (5, 8), (8, 5), (9, 2)]);
        if thorough {
            for r in 1..=9 {
                for c in 1..=9 {
                    shapes.push((r, c));
                }
            }
        }
        if k == "mx" {
            // more than 256 rows, columns and elements
            shapes.extend([(17, 16), (16, 17), (260, 1), (1, 260), (130, 2)]);
        }
        if k != "mx" {
            shapes.extend((2..=8).map(|t| (39, t)));
        }
        shapes.sort();
        shapes.dedup();
        v.extend(shapes.into_iter().map(|(r, c)| (k, u(&[r, c, r * c]), r, c)));
    }
    for n in 1..=9 {
        v.push(("sq", u(&[n, n * n]), n, n));
    }
    v.push(("sq", u(&[17, 289]), 17, 17));
    for n in (2..=9).chain([17]) {
        v.push(("md", u(&[n, n - 1, n * n, (n - 1) * (n - 1)]), n, n));
    }
    v
}
fn matrices(j: &mut J, thorough: bool) {
    const E17: Evs = &[("P17", &["Panic"])];
    const E20: Evs = &[("P20", &["Panic"])];
    for (k, cs, r, c) in kinds(thorough) {
        let n = r * c;
        let nm = format!("{k} {r}x{c}");
        let big = n > 100;
        j.job(&format!("layout {nm}"), &["P20"], E20, &mut |x| {
            let e = vars("e", n, false);
            let mut p = vec![("known", cs.clone())];
            let mut cl = cs.clone();
            cl.push(n as u64);
            p.push(("new", cl.clone()));
            for (f, g) in &p {
                let l = x.leaves(&format!("{k}_{f}"), g, vec![sy("e")])?;
                x.same("P20", &format!("{nm}: {f}, then every read"), &l, &view(r, c, &e));
            }
            if k == "md" {
                let l = x.leaves("md_from", &cl, vec![sy("e")])?;
                x.same("P20", &format!("{nm}: from_elements, then every read"), &l, &view(r, c, &e));
            }
            if k == "ax" {
                let l = x.leaves("ax_inner", &cs, vec![sy("e")])?;
                x.same("P20", &format!("{nm}: inner_elements"), &l, &lf(&e));
            }
            let cells: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |q| (i, q))).filter(|(i, q)| !big || ((i * 7 + q) % 11 == 0) || *i == r - 1).collect();
            for (i, q) in cells {
                let l = x.leaves(&format!("{k}_get"), &cs, vec![sy("e"), Arg::Int(i as u128), Arg::Int(q as u128)])?;
                x.same("P20", &format!("{nm}: get({i},{q})"), &l, &lf(&e[i * c + q..i * c + q + 1]));
                let l = x.leaves(&format!("{k}_set"), &cs, vec![sy("e"), Arg::Int(i as u128), Arg::Int(q as u128), sy("z")])?;
                let mut f = e.clone();
                f[i * c + q] = form::var("z");
                x.same("P20", &format!("{nm}: set({i},{q})"), &l, &view(r, c, &f));
            }
            Ok(())
        });
        let wrap = if k == "mx" || k == "sq" { "P17" } else { "P20" };
        j.job(&format!("transpose and element-wise product {nm}"), &[wrap], if wrap == "P17" { E17 } else { E20 }, &mut |x| {
            let e = vars("e", n, false);
            let l = x.leaves(&format!("{k}_tr"), &cs, vec![sy("e")])?;
            x.same(wrap, &format!("{nm}: transpose"), &l, &view(c, r, &tr(r, c, &e)));
            let l = x.leaves(&format!("{k}_had"), &cs, vec![sy("e"), sy("g")])?;
            let g = vars("g", n, false);
            let h: Vec<Form> = e.iter().zip(&g).map(|(a, b)| form::mul(*a, *b)).collect();
            let mut ex = vec![li(1)];
            ex.extend(lf(&h));
            x.same(wrap, &format!("{nm}: element-wise product"), &l, &ex);
            Ok(())
        });
        if n > 256 && !matches!((k, r), ("mx", 17) | ("sq", _) | ("ax", _) | ("ox", _)) {
            continue;
        }
        j.job(&format!("equality and clone {nm}"), &["P23"], &[("P23", &["Panic"])], &mut |x| {
            let (a, b) = (vars("e", n, false), vars("g", n, false));
            let l = x.leaves(&format!("{k}_eq"), &cs, vec![sy("e"), sy("g")])?;
            let z: Vec<Form> = a.iter().zip(&b).map(|(p, q)| form::sub(*p, *q)).collect();
            let t = val::zeros(&z);
            x.same("P23", &format!("{nm}: =="), &l, &[bool_leaf(t), bool_leaf(val::not(t))]);
            let l = x.leaves(&format!("{k}_clone"), &cs, vec![sy("e")])?;
            x.same("P23", &format!("{nm}: clone"), &l, &lf(&a));
            Ok(())
        });
    }
    for (k, cs, r, c) in kinds(thorough) {
        if k != "mx" && k != "sq" {
            continue;
        }
        let n = r * c;
        let nm = format!("{k} {r}x{c}");
        j.job(&format!("scalar product and rows {nm}"), &["P17"], E17, &mut |x| {
            let e = vars("e", n, false);
            let l = x.leaves(&format!("{k}_scale"), &cs, vec![sy("e"), sy("s")])?;
            let h: Vec<Form> = e.iter().map(|a| form::mul(*a, form::var("s"))).collect();
            x.same("P17", &format!("{nm}: scalar product"), &l, &view(r, c, &h));
            for i in 0..r {
                let l = x.leaves(&format!("{k}_row"), &cs, vec![sy("e"), Arg::Int(i as u128)])?;
                x.same("P17", &format!("{nm}: row {i}"), &l, &flat_leaves(c, &e[i * c..i * c + c]));
            }
            if k == "sq" {
                let l = x.leaves("sq_id", &cs, vec![])?;
                let id: Vec<Form> = (0..n).map(|q| form::int((q / r == q % r) as i64)).collect();
                x.same("P17", &format!("{nm}: identity"), &l, &view(r, r, &id));
            }
            if k == "sq" && r == 2 {
                let l = x.leaves("sq_2x2", &[], vec![sy("a"), sy("b"), sy("c"), sy("d")])?;
                let f: Vec<Form> = ["a", "b", "c", "d"].iter().map(|v| form::var(v)).collect();
                x.same("P17", "new_2x2", &l, &view(2, 2, &f));
            }
            Ok(())
        });
    }
    let mut prods = vec![];
    for a in 1..=4usize {
        for b in 1..=4usize {
            for c in 1..=4usize {
                prods.push((a, b, c));
            }
        }
    }
    prods.extend([(8, 8, 8), (1, 7, 7), (7, 1, 7), (7, 7, 1), (1, 8, 1), (8, 1, 8), (39, 3, 3), (2, 9, 3), (5, 6, 7), (1, 260, 1), (260, 1, 2), (17, 2, 17)]);
    if thorough {
        for a in 1..=6 {
            for b in 1..=6 {
                for c in 1..=6 {
                    prods.push((a, b, c));
                }
            }
        }
        prods.sort();
        prods.dedup();
    }
    for (a, b, c) in prods {
        j.job(&format!("product {a}x{b} by {b}x{c}"), &["P17"], E17, &mut |x| {
            let l = x.leaves("mx_mul", &u(&[a, b, a * b, b, c, b * c, a * c]), vec![sy("e"), sy("g")])?;
            let p = matmul(a, b, c, &vars("e", a * b, false), &vars("g", b * c, false));
            x.same("P17", &format!("product {a}x{b} by {b}x{c}"), &l, &view(a, c, &p));
            Ok(())
        });
    }
    for n in 1..=9usize {
        j.job(&format!("square product of size {n}"), &["P17"], E17, &mut |x| {
            let l = x.leaves("sq_mul", &u(&[n, n * n, n, n * n, n * n]), vec![sy("e"), sy("g")])?;
            let p = matmul(n, n, n, &vars("e", n * n, false), &vars("g", n * n, false));
            x.same("P17", &format!("square product of size {n}"), &l, &view(n, n, &p));
            Ok(())
        });
    }
}
fn minor(n: usize, e: &[Form], i: usize, j: usize) -> Vec<Form> {
    (0..n * n).filter(|k| k / n != i && k % n != j).map(|k| e[k]).collect()
}
fn determinants(j: &mut J) {
    const E18: Evs = &[("P18", &["Panic"])];
    for n in 1..=8usize {
        j.job(&format!("determinant of size {n}"), &["P18"], E18, &mut |x| {
            let e = vars("e", n * n, false);
            x.it.det_contract = Some(n - 1);
            let l = fes(&x.leaves("sq_det", &u(&[n, n * n]), vec![sy("e")])?)?;
            let got = form::expand_dets(l[0]);
            x.forms("P18", &format!("determinant of size {n}"), &[got], &[form::det_expanded(n, &e)]);
            Ok(())
        });
        j.job(&format!("minors and cofactors of size {n}"), &["P18"], E18, &mut |x| {
            let e = vars("e", n * n, false);
            x.it.det_contract = Some(n);
            if n >= 2 {
                let l = x.leaves("sq_minors", &u(&[n, n * n]), vec![sy("e")])?;
                let m: Vec<Form> = (0..n * n).map(|k| form::det_atom(n - 1, &minor(n, &e, k / n, k % n))).collect();
                x.same("P18", &format!("minors of size {n}"), &l, &view(n, n, &m));
            }
            let l = x.leaves("sq_cof", &u(&[n, n * n]), vec![sy("e")])?;
            let s: Vec<Form> = (0..n * n).map(|k| form::int(if (k / n + k % n) % 2 == 0 { 1 } else { -1 })).collect();
            x.same("P18", &format!("cofactor signs of size {n}"), &l, &view(n, n, &s));
            Ok(())
        });
    }
}
fn adjugate_inverse(n: usize, e: &[Form]) -> Vec<Form> {
    let d = form::inv0(form::det_atom(n, e));
    (0..n * n)
        .map(|k| {
            let (i, q) = (k / n, k % n);
            let m = form::det_atom(n - 1, &minor(n, e, q, i));
            let m = form::mul(m, d);
            if (i + q) % 2 == 0 {
                m
            } else {
                form::neg(m)
            }
        })
        .collect()
}
fn inverses(j: &mut J) {
    const E19: Evs = &[("P19", &["Panic"])];
    for n in 1..=8usize {
        j.job(&format!("inverse of a singular matrix of size {n}"), &["P19"], E19, &mut |x| {
            let e = vars("e", n * n, false);
            x.it.det_contract = Some(n);
            let d = val::zeros(&[form::det_atom(n, &e)]);
            x.it.assume(d, true);
            let l = x.leaves("sq_inv", &u(&[n, n * n]), vec![sy("e")])?;
            let l = vec![l[0].clone()];
            x.same("P19", &format!("size {n}, determinant zero: refused"), &l, &[li(0)]);
            Ok(())
        });
        j.job(&format!("inverse of a regular matrix of size {n}"), &["P19"], E19, &mut |x| {
            let e = vars("e", n * n, false);
            x.it.det_contract = Some(n);
            let d = val::zeros(&[form::det_atom(n, &e)]);
            x.it.assume(d, false);
            let l = x.leaves("sq_inv", &u(&[n, n * n]), vec![sy("e")])?;
            let mut ex = vec![li(1)];
            ex.extend(lf(&adjugate_inverse(n, &e)));
            x.same("P19", &format!("size {n}, determinant non-zero: the inverse"), &l, &ex);
            Ok(())
        });
    }
    const E21: Evs = &[("P21", &["Panic"])];
    for n in 2..=8usize {
        let cs = u(&[n, n - 1, n * n, (n - 1) * (n - 1)]);
        j.job(&format!("parts of an MDS matrix of size {n}"), &["P21"], E21, &mut |x| {
            let e = vars("e", n * n, false);
            let l = x.leaves("md_v", &cs, vec![sy("e")])?;
            x.same("P21", &format!("row vector of size {n}"), &l, &view(1, n - 1, &e[1..n]));
            let l = x.leaves("md_w", &cs, vec![sy("e")])?;
            let w: Vec<Form> = (1..n).map(|i| e[i * n]).collect();
            x.same("P21", &format!("column vector of size {n}"), &l, &view(n - 1, 1, &w));
            let l = x.leaves("md_hat", &cs, vec![sy("e")])?;
            x.same("P21", &format!("submatrix of size {n}"), &l, &view(n - 1, n - 1, &minor(n, &e, 0, 0)));
            let l = x.leaves("md_tr", &cs, vec![sy("e")])?;
            x.same("P21", &format!("transpose of size {n}"), &l, &view(n, n, &tr(n, n, &e)));
            Ok(())
        });
        j.job(&format!("inverse of an MDS matrix of size {n}"), &["P21"], E21, &mut |x| {
            let e = vars("e", n * n, false);
            x.it.det_contract = Some(n);
            x.it.assume(val::zeros(&[form::det_atom(n, &e)]), false);
            let l = x.leaves("md_inv", &cs, vec![sy("e")])?;
            x.same("P21", &format!("inverse of size {n}"), &l, &view(n, n, &adjugate_inverse(n, &e)));
            Ok(())
        });
    }
}
fn refusals(j: &mut J) {
    let mut cases: Vec<(String, String, Vec<u64>, usize)> = vec![];
    for (k, cs, r, c) in kinds(false) {
        let n = r * c;
        if n > 100 {
            continue;
        }
        for l in [0, 1, n - 1, n + 1, 2 * n, c, n + 256] {
            if l != n {
                let mut g = cs.clone();
                g.push(l as u64);
                cases.push((format!("{k}_build"), format!("{k} {r}x{c} from {l} elements"), g.clone(), 1));
                if k == "md" {
                    cases.push(("md_fromb".into(), format!("{k} {r}x{c} from {l} elements (from_elements)"), g, 1));
                }
            }
        }
        // declared number of elements contradicts rows times columns
        let at = match k {
            "sq" => 1,
            _ => 2,
        };
        for m in [n + 1, n - 1, 2 * n, r + c] {
            if m == n || m == 0 {
                continue;
            }
            let mut g = cs.clone();
            g[at] = m as u64;
            cases.push((format!("{k}_kbuild"), format!("{k} {r}x{c} declared with {m} elements, known"), g.clone(), 1));
            for l in [m, n] {
                let mut h = g.clone();
                h.push(l as u64);
                cases.push((format!("{k}_build"), format!("{k} {r}x{c} declared with {m} elements, from {l}"), h.clone(), 1));
                if k == "md" {
                    cases.push(("md_fromb".into(), format!("{k} {r}x{c} declared with {m} elements, from {l} (from_elements)"), h, 1));
                }
            }
        }
        if k == "md" {
            for (s, ss) in [(r, r * r), (r - 1, r * r), (r - 1, (r - 1) * (r - 1) + 1), (r + 1, (r + 1) * (r + 1)), (r - 2, (r - 2) * (r - 2))] {
                let g = u(&[r, s, n, ss]);
                cases.push(("md_kbuild".into(), format!("md {r}x{r} with minor sizes {s}, {ss}, known"), g.clone(), 1));
                let mut h = g.clone();
                h.push(n as u64);
                cases.push(("md_build".into(), format!("md {r}x{r} with minor sizes {s}, {ss}"), h.clone(), 1));
                cases.push(("md_fromb".into(), format!("md {r}x{r} with minor sizes {s}, {ss} (from_elements)"), h, 1));
            }
        }
    }
    // rows times columns is no machine word
    let half = 1u64 << 63;
    for (k, g) in [
        ("mx", vec![half, 2, 0]),
        ("mx", vec![2, half, 0]),
        ("mx", vec![half + 1, 2, 2]),
        ("mx", vec![2, half + 1, 2]),
        ("mx", vec![3, 0xaaaa_aaaa_aaaa_aaac, 4]),
        ("mx", vec![1 << 32, 1 << 32, 0]),
        ("ax", vec![half + 1, 2, 2]),
        ("ax", vec![2, half + 2, 4]),
        ("ox", vec![2, half + 1, 2]),
        ("ox", vec![1 << 32, 1 << 32, 0]),
        ("sq", vec![1 << 32, 0]),
        ("sq", vec![half, 0]),
        ("sq", vec![half + 1, 1]),
    ] {
        let n = *g.last().unwrap();
        cases.push((format!("{k}_kbuild"), format!("{k} of shape {g:x?} whose product overflows, known"), g.clone(), 1));
        let mut h = g.clone();
        h.push(n);
        cases.push((format!("{k}_build"), format!("{k} of shape {g:x?} whose product overflows"), h, 1));
    }
    for a in 1..=4usize {
        for b in 1..=4usize {
            for b2 in 1..=4usize {
                for c in [1usize, 2, 4] {
                    if b != b2 {
                        cases.push(("mx_mulb".into(), format!("product {a}x{b} by {b2}x{c}"), u(&[a, b, a * b, b2, c, b2 * c, a * c]), 2));
                    } else if a == b {
                        for m in [a * c + 1, a * c - 1] {
                            if m > 0 {
                                cases.push(("mx_mulb".into(), format!("product {a}x{b} by {b2}x{c} into {m} elements"), u(&[a, b, a * b, b2, c, b2 * c, m]), 2));
                            }
                        }
                    }
                }
            }
        }
    }
    for a in 1..=5usize {
        for b in 1..=5usize {
            if a != b {
                for m in [a * a, b * b, a * b] {
                    cases.push(("sq_mulb".into(), format!("square product of sizes {a} and {b} into {m} elements"), u(&[a, a * a, b, b * b, m]), 2));
                }
            }
        }
    }
    for (f, nm, g, argc) in cases {
        j.job(&format!("refusal: {nm}"), &["P22"], &[], &mut |x| {
            let args = (0..argc).map(|i| sy(["e", "g"][i])).collect();
            x.entry = format!("{f}{g:?}");
            let (o, _) = x.call(&f, &g, args)?;
            let panics = x.it.events.keys().any(|e| e.kind == "Panic");
            x.put("P22", &format!("{nm}: refused"), o.is_none() && panics, "a matrix is returned".into());
            Ok(())
        });
    }
    // indices outside the matrix
    for (k, cs, r, c) in kinds(false) {
        if r * c > 100 {
            continue;
        }
        j.job(&format!("outside: {k} {r}x{c}"), &["P35"], &[], &mut |x| {
            let (ru, cu) = (r as u128, c as u128);
            const M: u128 = 1 << 64;
            let mut at: Vec<(u128, u128)> = vec![];
            for i in 0..ru + 2 {
                at.extend((0..cu + 2).map(|q| (i, q)));
            }
            // positions that come back inside the matrix when i * columns + j wraps around
            at.extend([(M - 1, 0), (0, M - 1), (1 << 63, 0), (0, 1 << 63), (M.div_ceil(cu) % M, 0), (M / cu % M, 0), (1 % ru, M - 1), (ru - 1, M - (ru - 1) * cu.min(M - 1) - 1)]);
            at.extend((1..ru).map(|i| (i, M - i * cu)));
            // columns that reach a later row
            at.extend((2..=ru).map(|i| (0, i * cu)));
            at.push((0, ru * cu - 1));
            at.retain(|(i, q)| *i >= ru || *q >= cu);
            at.sort();
            at.dedup();
            for (i, q) in at {
                x.entry = format!("{k}_get{cs:?}");
                let (o, _) = x.call(&format!("{k}_get"), &cs, vec![sy("e"), Arg::Int(i), Arg::Int(q)])?;
                x.put("P35", &format!("{k} {r}x{c}: get_element({i}, {q}) refused"), o.is_none(), "an element is returned".into());
                x.entry = format!("{k}_set{cs:?}");
                let (o, _) = x.call(&format!("{k}_set"), &cs, vec![sy("e"), Arg::Int(i), Arg::Int(q), sy("z")])?;
                x.put("P35", &format!("{k} {r}x{c}: set_element({i}, {q}) refused"), o.is_none(), "the call returns".into());
            }
            let f = match k {
                "mx" => "mx_row",
                "sq" => "sq_row",
                _ => return Ok(()),
            };
            for i in [ru, ru + 1, 2 * ru, M - 1, 1 << 63, M.div_ceil(cu) % M, M / cu % M] {
                if i < ru {
                    continue;
                }
                x.entry = format!("{f}{cs:?}");
                let (o, _) = x.call(f, &cs, vec![sy("e"), Arg::Int(i)])?;
                x.put("P35", &format!("{k} {r}x{c}: row_vector({i}) refused"), o.is_none(), "a row is returned".into());
            }
            Ok(())
        });
    }
    // and consistent ones are accepted
    for (k, cs, r, c) in kinds(false) {
        let n = r * c;
        j.job(&format!("acceptance: {k} {r}x{c}"), &["P22"], &[("P22", &["Panic"])], &mut |x| {
            let mut g = cs.clone();
            g.push(n as u64);
            let l = x.leaves(&format!("{k}_build"), &g, vec![sy("e")])?;
            x.same("P22", &format!("{k} {r}x{c}: accepted"), &l, &[li(r)]);
            let l = x.leaves(&format!("{k}_kbuild"), &cs, vec![sy("e")])?;
            x.same("P22", &format!("{k} {r}x{c}: accepted, known"), &l, &[li(r)]);
            if k == "md" {
                let l = x.leaves("md_fromb", &g, vec![sy("e")])?;
                x.same("P22", &format!("{k} {r}x{c}: accepted, from_elements"), &l, &[li(r)]);
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ descriptors and records
fn descriptors(j: &mut J) {
    const E27: Evs = &[("P27", &["Panic"])];
    let b32 = |n: &str| tvar(n, 32);
    let us = |n: &str| tvar(n, 64);
    j.job("S-box descriptor", &["P27"], E27, &mut |x| {
        let l = x.leaves("al_bytes", &[], vec![Arg::Int(0), sy("e")])?;
        let e: Vec<Leaf> = val::bytes_of(b32("e"), 4).into_iter().map(|t| Leaf::Int(val::to_v(t))).collect();
        x.same("P27", "Alpha::to_bytes_le of an exponent", &l, &e);
        let l = x.leaves("al_bytes", &[], vec![Arg::Int(1), sy("e")])?;
        x.same("P27", "Alpha::to_bytes_le of the inverse", &l, &[li(255), li(255), li(255), li(255)]);
        let l = x.leaves("al_f64", &[], vec![Arg::Int(0), sy("e")])?;
        let f = x.it.int_to_float(b32("e"), 4, 8)?;
        x.same("P27", "f64 of an exponent", &l, &[Leaf::Int(f)]);
        let l = x.leaves("al_f64", &[], vec![Arg::Int(1), sy("e")])?;
        x.same("P27", "f64 of the inverse", &l, &[Leaf::Int(V::Int((-1f64).to_bits() as u128))]);
        Ok(())
    });
    j.job("round numbers", &["P27"], E27, &mut |x| {
        let l = x.leaves("rn_counts", &[], vec![sy("f"), sy("p")])?;
        x.same("P27", "full() and partial()", &l, &[Leaf::Int(us("f")), Leaf::Int(us("p"))]);
        let l = x.leaves("rn_set_full", &[], vec![sy("f"), sy("p"), sy("x")])?;
        x.same("P27", "full_mut()", &l, &[Leaf::Int(us("f")), Leaf::Int(us("x")), Leaf::Int(us("p"))]);
        let l = x.leaves("rn_set_partial", &[], vec![sy("f"), sy("p"), sy("x")])?;
        x.same("P27", "partial_mut()", &l, &[Leaf::Int(us("p")), Leaf::Int(us("f")), Leaf::Int(us("x"))]);
        Ok(())
    });
    j.job("total rounds", &["P27"], &[], &mut |x| {
        let l = x.leaves("rn_total", &[], vec![sy("f"), sy("p")])?;
        let s = V::Sym(val::term(Term::Bin("Add", 64, val::of_v(us("f")).unwrap(), val::of_v(us("p")).unwrap())));
        x.same("P27", "total()", &l, &[Leaf::Int(s)]);
        // any panic must be the arithmetic overflow of that sum
        let bad: Vec<String> = x.it.events.keys().filter(|e| e.kind == "Panic" && !e.detail.contains("overflow")).map(|e| e.detail.clone()).collect();
        x.put("P27", "total() does not panic", bad.is_empty(), bad.join("; "));
        Ok(())
    });
    const E23: Evs = &[("P23", &["Panic"])];
    j.job("descriptor equality and clone", &["P23"], E23, &mut |x| {
        let (e1, e2) = (val::of_v(b32("e1")).unwrap(), val::of_v(b32("e2")).unwrap());
        for (a, b) in [(0u128, 0u128), (0, 1), (1, 0), (1, 1)] {
            let l = x.leaves("al_eq", &[], vec![Arg::Int(a), sy("e1"), Arg::Int(b), sy("e2")])?;
            let t = match (a, b) {
                (0, 0) => x.it.eq_term(4, e1, e2),
                (a, b) => T::C((a == b) as u128),
            };
            x.same("P23", &format!("S-box equality ({a},{b})"), &l, &[bool_leaf(t), bool_leaf(val::not(t))]);
        }
        let l = x.leaves("al_clone", &[], vec![Arg::Int(0), sy("e1")])?;
        let z = x.it.zext(b32("e1"), 4, 8)?;
        x.same("P23", "S-box clone (exponent)", &l, &[Leaf::Int(z)]);
        let l = x.leaves("al_clone", &[], vec![Arg::Int(1), sy("e1")])?;
        x.same("P23", "S-box clone (inverse)", &l, &[li(1 << 40)]);
        let l = x.leaves("rn_eq", &[], vec![sy("f"), sy("p"), sy("g"), sy("q")])?;
        let w = |n: &str| val::of_v(us(n)).unwrap();
        let t = val::and(x.it.eq_term(8, w("f"), w("g")), x.it.eq_term(8, w("p"), w("q")));
        x.same("P23", "round-number equality", &l, &[bool_leaf(t), bool_leaf(val::not(t))]);
        let l = x.leaves("rn_clone", &[], vec![sy("f"), sy("p")])?;
        x.same("P23", "round-number clone", &l, &[Leaf::Int(us("f")), Leaf::Int(us("p"))]);
        Ok(())
    });
    for (t, rf, rp) in [(2usize, 2usize, 1usize), (3, 4, 2), (4, 2, 3), (8, 8, 31)] {
        let s = Shape { t, rf, rp, x: 0 };
        for a in [Sb::Any, Sb::Inv] {
            j.job(&format!("clone of a parameter set t={t} rf={rf} rp={rp} {a:?}"), &["P23"], E23, &mut |x| {
                let (p, pt) = make(x, &s, &a, false, "")?;
                let Arg::Obj(pp) = put(x, p, pt)? else { unreachable!() };
                let l = x.leaves("params_clone", &s.consts(), vec![Arg::Obj(pp)])?;
                let e = param_leaves(x, &s, &a, false)?;
                let n0 = e.len();
                x.same("P23", &format!("parameter set t={t} {a:?}: clone"), &l[..n0.min(l.len())], &e);
                Ok(())
            });
        }
        j.job(&format!("equality of optimized matrices t={t} rp={rp}"), &["P23"], E23, &mut |x| {
            let mut ptrs = vec![];
            for pre in ["p.", "q."] {
                let (p, pt) = make(x, &s, &Sb::Pow(17), false, pre)?;
                ptrs.push(put(x, p, pt)?);
            }
            let l = x.leaves("opt_eq", &s.consts(), ptrs)?;
            let all = |pre: &str| {
                let (n, q) = (t * t, t - 1);
                let mut v = vec![form::var(&format!("{pre}m00"))];
                v.extend(vars(&format!("{pre}mi"), n, false));
                v.extend(vars2(&format!("{pre}vc"), rp, q, false).concat());
                v.extend(vars2(&format!("{pre}wc"), rp, q, false).concat());
                for (i, k) in [q * q, q, q, n, n, n, q * q].iter().enumerate() {
                    v.extend(vars(&format!("{pre}aux.{i}"), *k, false));
                }
                v
            };
            let z: Vec<Form> = all("p.").iter().zip(all("q.").iter()).map(|(a, b)| form::sub(*a, *b)).collect();
            let tt = val::zeros(&z);
            x.same("P23", &format!("optimized matrices t={t}: =="), &l, &[bool_leaf(tt), bool_leaf(val::not(tt))]);
            Ok(())
        });
    }
    for t in [1usize, 3, 8] {
        j.job(&format!("clone of a v2 parameter set t={t}"), &["P23"], E23, &mut |x| {
            let g = u(&[t, t * t, 5, t, 5 * t]);
            let l = x.leaves("v2_clone", &g, vec![sy("m"), Arg::Int(0), sy("alpha"), sy("rf"), sy("rp"), sy("me"), sy("mi"), sy("arc")])?;
            let mut e = vec![Leaf::Int(us("m")), Leaf::Int(x.it.zext(b32("alpha"), 4, 8)?), Leaf::Int(us("rf")), Leaf::Int(us("rp"))];
            e.extend(lf(&vars("me", t * t, false)));
            e.extend(lf(&vars("mi", t * t, false)));
            e.extend(lf(&vars("arc", 5 * t, false)));
            x.same("P23", &format!("v2 parameter set t={t}: clone"), &l, &e);
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ circuits
fn gadgets(j: &mut J, thorough: bool) {
    const GEV: Evs = &[("P04", &["Witness", "Constraint", "DataBranch", "DataIndex"]), ("P06", &["DataBranch", "DataIndex"]), ("P07", &["Panic"]), ("P32", &["Constraint", "Panic"])];
    for k in 1..=7usize {
        let d0 = j.derived(k + 1);
        // input modes: bit 0 the domain separator, bit i+1 element i; 1 = variable
        let full = (1u32 << (k + 1)) - 1;
        let few = |m: u32| m.count_ones() <= 1 || m.count_ones() as usize >= k;
        let every = thorough || j.want.is_some() && j.wants(&["P34", "P38"]);
        let modes = std::iter::once(None).chain((0..=full).filter(|m| every || k <= 4 || few(*m)).map(Some));
        for m in modes {
            let nm = match m {
                None => format!("circuit hash_{k}, any modes"),
                Some(m) => format!("circuit hash_{k}, variables {m:b}"),
            };
            let ps: &[&'static str] = if m.is_none() { &["P03", "P04", "P07", "P24", "P32"] } else { &["P03", "P04", "P07", "P32", "P34", "P38"] };
            j.job(&nm.clone(), ps, GEV, &mut |c| {
                let kind = |b: usize| match m {
                    None => Kind::Any,
                    Some(m) if m >> b & 1 == 1 => Kind::Var,
                    _ => Kind::Const,
                };
                let d = Arg::SymK("d".into(), kind(0));
                let v = c.circuit_array(&(0..k).map(|i| (form::var(&format!("v[{i}]")), kind(i + 1))).collect::<Vec<_>>(), &format!("gadget::hash_{k}"), 2)?;
                c.it.cost = (0, 0);
                c.it.cost_at.clear();
                c.it.rows.clear();
                let l = c.leaves(&format!("gadget::hash_{k}"), &[], vec![sy("cs"), d, Arg::Obj(v)])?;
                if let Some(m) = m {
                    // x^17 takes five products; after one round every word depends on every input
                    let t = k as u64 + 1;
                    let want = if m == 0 { 0 } else { 5 * (m.count_ones() as u64 + 7 * t + 31) };
                    let got = c.it.cost;
                    let ok = got == (want, want);
                    let mut at: Vec<_> = c.it.cost_at.iter().map(|(s, n)| (*n, s.clone())).collect();
                    at.sort();
                    let at = at.iter().map(|(n, s)| format!("{n} at {s}")).collect::<Vec<_>>().join("; ");
                    c.put("P34", &format!("{nm}: circuit size"), ok, format!("adds {} constraints and {} assigned variables, where the S-boxes need {want} of each: {at}", got.0, got.1));
                }
                if let Some(m) = m {
                    let rows = std::mem::take(&mut c.it.rows);
                    let mut x = vec![form::var("d")];
                    x.extend(vars("v", k, false));
                    let var: Vec<bool> = (0..=k).map(|b| m >> b & 1 == 1).collect();
                    let want = spec::products(k + 1, 8, 31, 17, &kf(&d0.0.concat()), &kf(&d0.1), &x, &var);
                    c.rows("P38", &format!("{nm}: constraints"), &rows, &want);
                }
                c.same("P07", &format!("{nm}: succeeds"), &l[..1], &[li(1)]);
                c.same("P32", &format!("{nm}: succeeds"), &l[..1], &[li(1)]);
                let g = fes(&l[1..])?;
                let n = fes(&c.leaves(&format!("hash_{k}"), &[], vec![sy("d"), sy("v")])?)?;
                c.forms("P03", &nm, &g, &n);
                if m.is_none() {
                    c.print(&nm, &g)?;
                }
                let free = form::mentions(g[0], &mut |a| matches!(a, form::Atom::Free(_)));
                c.put("P04", &format!("{nm}: output determined by inputs"), !free, "the output depends on a prover-chosen value".into());
                Ok(())
            });
        }
    }
    let words = j.env.fns.contains_key("gadget::words");
    for (s, a, rnd) in grid() {
        if matches!(a, Sb::Inv) {
            continue;
        }
        let nm = format!("t={} rf={} rp={}{} {:?} {}", s.t, s.rf, s.rp, if s.x > 0 { format!("+{}", s.x) } else { String::new() }, a, if rnd { "generic tables" } else { "all tables" });
        let kinds: &[Option<usize>] = if s.t <= 3 || matches!(a, Sb::Pow(_)) { &[None, Some(0), Some(1), Some(99)] } else { &[None, Some(0)] };
        for kd in kinds {
            let nm = format!("circuit {nm} {}", match kd { None => "any modes".into(), Some(99) => "all variables".into(), Some(k) => format!("{k} variables") });
            j.job(&nm.clone(), &["P10", "P04", "P36", "P38"], P10EV, &mut |c| {
                c.entry = nm.clone();
                let kind = |b: usize| match kd {
                    None => Kind::Any,
                    Some(k) if b < *k => Kind::Var,
                    _ => Kind::Const,
                };
                let (p, _) = make(c, &s, &a, rnd, "")?;
                let xs: Vec<_> = (0..s.t).map(|i| (form::var(&format!("x[{i}]")), kind(i))).collect();
                let w = spec::plain(s.t, s.rf, s.rp, a.spec(), &vars("mds", s.t * s.t, rnd), &vars("arc", s.t * (s.rf + s.rp), rnd), &vars("x", s.t, false));
                if words {
                    let x = c.circuit_array_k(&xs, "gadget::words", &s.consts(), 2)?;
                    let l = c.leaves("gadget::words", &s.consts(), vec![Arg::Obj(p.clone()), sy("cs"), Arg::Obj(x)])?;
                    c.same("P10", &format!("{nm}: state width"), &l[..1], &[li(s.t)]);
                    c.forms("P10", &format!("{nm}: permute"), &fes(&l[1..=s.t])?, &w);
                    let w2 = spec::plain(s.t, s.rf, s.rp, a.spec(), &vars("mds", s.t * s.t, rnd), &vars("arc", s.t * (s.rf + s.rp), rnd), &w);
                    c.same("P36", &format!("{nm}: state width after a second permutation"), &l[s.t + 1..s.t + 2], &[li(s.t)]);
                    c.forms("P36", &format!("{nm}: second permutation"), &fes(&l[s.t + 2..2 * s.t + 2])?, &w2);
                    let e = param_leaves(c, &s, &a, rnd)?;
                    let got = &l[2 * s.t + 2..];
                    c.same("P36", &format!("{nm}: parameters afterwards"), &got[..e.len().min(got.len())], &e);
                }
                let x = c.circuit_array_k(&xs, "gadget::perm", &s.consts(), 2)?;
                c.it.rows.clear();
                let l = c.leaves("gadget::perm", &s.consts(), vec![Arg::Obj(p), sy("cs"), Arg::Obj(x)])?;
                if let (Sb::Pow(e), Some(n)) = (&a, kd) {
                    let rows = std::mem::take(&mut c.it.rows);
                    let var: Vec<bool> = (0..s.t).map(|b| b < *n).collect();
                    let want = spec::products(s.t, s.rf, s.rp, *e as u64, &vars("mds", s.t * s.t, rnd), &vars("arc", s.t * (s.rf + s.rp), rnd), &vars("x", s.t, false), &var);
                    c.rows("P38", &format!("{nm}: constraints"), &rows, &want);
                }
                c.forms("P10", &format!("{nm}: n_to_1_fixed_hash"), &fes(&l)?, &w[1..2]);
                Ok(())
            });
        }
    }
}
impl<'a> C<'a> {
    fn circuit_array(&mut self, xs: &[(Form, Kind)], f: &str, arg: usize) -> R<Obj> {
        self.circuit_array_k(xs, f, &[], arg)
    }
    fn circuit_array_k(&mut self, xs: &[(Form, Kind)], f: &str, k: &[u64], arg: usize) -> R<Obj> {
        let inst = inst_of(self.env, f, k)?;
        let abi = inst.fn_abi().map_err(|e| format!("{e:?}"))?;
        let ty = abi.args[arg].ty;
        let (e, _) = elem(ty).ok_or("not an array")?;
        let es = ti(e)?.size;
        let mut a = Alloc::new(es * xs.len() as u64, 16);
        for (i, (f, k)) in xs.iter().enumerate() {
            a.write(i as u64 * es, es, &Obj::S(V::Fv(*f, *k), es as u32));
        }
        Ok(a.read(0, es * xs.len() as u64))
    }
}

// ------------------------------------------------------------------ report
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl J {
    pub fn write(&self, out: &str) {
        let mut s = String::from("{\n\"obligations\":[\n");
        for (i, o) in self.obs.iter().enumerate() {
            if i > 0 {
                s.push_str(",\n");
            }
            // positions only where they say something
            let at = if o.st == "same" || o.st == "agree" { "" } else { &o.at };
            s.push_str(&format!("{{\"p\":{},\"id\":{},\"st\":{},\"at\":{},\"why\":{}}}", js(o.prop), js(&o.id), js(o.st), js(at), js(&o.why)));
        }
        s.push_str("],\n\"functions\":{");
        s.push_str(&self.ws.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",\n"));
        s.push_str("},\n\"modelled\":{");
        s.push_str(&self.modelled.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\n\"jobs\":[");
        s.push_str(&self.jobs.iter().map(|(k, v)| format!("[{},{}]", js(k), v)).collect::<Vec<_>>().join(",\n"));
        s.push_str("],\n\"prints\":{");
        s.push_str(&self.prints.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",\n"));
        s.push_str(&format!(
            "}},\n\"bounded\":[{}],\n\"steps\":{},\"forks\":{},\"calls\":{},\"call_sites\":{},\"forms\":{},\"peak_terms\":{},\"bodies\":{}\n}}\n",
            self.bounded.iter().map(|k| js(k)).collect::<Vec<_>>().join(","),
            self.steps, self.forks, self.calls, self.sites, self.forms, self.peak, n_bodies()
        ));
        if let Err(e) = std::fs::write(out, s) {
            eprintln!("vpdriver: cannot write {out}: {e}");
            std::process::exit(102);
        }
    }
}

pub fn run(out: &str) {
    let env = find_fns();
    let want = std::env::var("VP_PROPS").ok().map(|s| s.split(',').map(|x| x.to_string()).collect());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let circuits = env.fns.contains_key("gadget::hash_1");
    let mut j = J {
        env,
        obs: vec![],
        ws: BTreeMap::new(),
        modelled: BTreeMap::new(),
        jobs: vec![],
        steps: 0,
        forks: 0,
        calls: 0,
        sites: 0,
        forms: 0,
        peak: 0,
        want,
        deep: thorough,
        started: std::time::Instant::now(),
        derived: HashMap::new(),
        prints: BTreeMap::new(),
        bounded: vec![],
    };
    if std::env::var("VP_TIME").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    hashes(&mut j);
    shipped(&mut j);
    script(&mut j);
    native(&mut j);
    reuse(&mut j);
    table_jobs(&mut j);
    matrices(&mut j, thorough);
    determinants(&mut j);
    inverses(&mut j);
    refusals(&mut j);
    descriptors(&mut j);
    if circuits {
        gadgets(&mut j, thorough);
    }
    let _ = std::panic::take_hook();
    j.write(out);
}
