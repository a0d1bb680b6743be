//! Value-numbering domain for field elements.
//!
//! A `Form` is a canonical polynomial over F_p: a sorted list of (monomial, coefficient).
//! Indeterminates ("atoms") are inputs, table entries, and value numbers for the results of
//! operations that are not expanded (powers of multi-term forms, inverses, determinants
//! handled through their contract, gated joins).  Forms, monomials and atoms are hash-consed,
//! so equality of ids is equality of values in the domain.
use crate::fp::Fp;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Form(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct AtomId(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct MonoId(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct TermId(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    /// an input or table entry
    Var(String),
    /// value number of a (monic, multi-term) factor
    Fac(Form),
    /// inverse with 0 -> 0 of a (monic, multi-term or single atom) form
    Inv(Form),
    /// determinant of an n x n matrix of forms (contract of a nested determinant call)
    Det(usize, Vec<Form>),
    /// gated join
    Ite(TermId, Form, Form),
    /// a value not determined by any constraint (fresh witness), or unknown data
    Free(String),
    /// the field element made from a symbolic integer term
    OfInt(TermId),
    /// x^e for a symbolic e
    PowSym(Form, TermId),
}

type Poly = Vec<(MonoId, Fp)>;

pub struct Store {
    atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, AtomId>,
    monos: Vec<Rc<Vec<(AtomId, i64)>>>,
    mono_ix: HashMap<Rc<Vec<(AtomId, i64)>>, MonoId>,
    polys: Vec<Rc<Poly>>,
    poly_ix: HashMap<Rc<Poly>, Form>,
    pub peak_terms: usize,
    pub fresh: u64,
    mono_mul: HashMap<(MonoId, MonoId), MonoId>,
    /// arguments of non-linear operations, in order of creation
    pub log: Vec<Form>,
}

/// Products with more terms than this are value-numbered instead of expanded.
pub const EXPAND_LIMIT: usize = 60_000;

thread_local!(pub static ST: RefCell<Store> = RefCell::new(Store::new()));

impl Store {
    fn new() -> Store {
        let mut s = Store {
            atoms: vec![],
            atom_ix: HashMap::new(),
            monos: vec![],
            mono_ix: HashMap::new(),
            polys: vec![],
            poly_ix: HashMap::new(),
            peak_terms: 0,
            fresh: 0,
            mono_mul: HashMap::new(),
            log: vec![],
        };
        s.mono(vec![]);
        s.poly(vec![]);
        s
    }
    fn atom(&mut self, a: Atom) -> AtomId {
        if let Some(&i) = self.atom_ix.get(&a) {
            return i;
        }
        let i = AtomId(self.atoms.len() as u32);
        if let Atom::Fac(g) | Atom::Inv(g) | Atom::PowSym(g, _) = &a {
            self.log.push(*g);
        }
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, i);
        i
    }
    fn mono(&mut self, m: Vec<(AtomId, i64)>) -> MonoId {
        let m = Rc::new(m);
        if let Some(&i) = self.mono_ix.get(&m) {
            return i;
        }
        let i = MonoId(self.monos.len() as u32);
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }
    fn poly(&mut self, p: Poly) -> Form {
        self.peak_terms = self.peak_terms.max(p.len());
        let p = Rc::new(p);
        if let Some(&i) = self.poly_ix.get(&p) {
            return i;
        }
        let i = Form(self.polys.len() as u32);
        self.polys.push(p.clone());
        self.poly_ix.insert(p, i);
        i
    }
    fn mul_mono(&mut self, a: MonoId, b: MonoId) -> MonoId {
        tick();
        if a.0 == 0 {
            return b;
        }
        if b.0 == 0 {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&m) = self.mono_mul.get(&k) {
            return m;
        }
        let (x, y) = (self.monos[a.0 as usize].clone(), self.monos[b.0 as usize].clone());
        let mut r: Vec<(AtomId, i64)> = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                r.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                r.push(y[j]);
                j += 1;
            } else {
                r.push((x[i].0, x[i].1.checked_add(y[j].1).expect("exponent overflow")));
                i += 1;
                j += 1;
            }
        }
        // x^a * Inv(x)^b  (Inv(0)=0): cancel down to x^{a-b}, Inv(x)^{b-a} or x*Inv(x)
        let mut k2 = 0;
        while k2 < r.len() {
            if let Atom::Inv(f) = self.atoms[r[k2].0 .0 as usize].clone() {
                if let Some(base) = self.single_atom(f).or_else(|| self.atom_ix.get(&Atom::Fac(f)).copied()) {
                    if let Some(p) = r.iter().position(|t| t.0 == base) {
                        let (e, n) = (r[p].1, r[k2].1);
                        if e > n {
                            r[p].1 = e - n;
                            r[k2].1 = 0;
                        } else if n > e {
                            r[p].1 = 0;
                            r[k2].1 = n - e;
                        } else {
                            r[p].1 = 1;
                            r[k2].1 = 1;
                        }
                    }
                }
            }
            k2 += 1;
        }
        r.retain(|t| t.1 != 0);
        let m = self.mono(r);
        self.mono_mul.insert(k, m);
        m
    }
    /// f is exactly one atom with exponent 1 and coefficient 1
    fn single_atom(&self, f: Form) -> Option<AtomId> {
        let p = &self.polys[f.0 as usize];
        if p.len() == 1 && p[0].1 == Fp::one() {
            let m = &self.monos[p[0].0 .0 as usize];
            if m.len() == 1 && m[0].1 == 1 {
                return Some(m[0].0);
            }
        }
        None
    }
    fn normalise(&mut self, mut acc: HashMap<MonoId, Fp>) -> Form {
        acc.retain(|_, c| !c.is_zero());
        let mut v: Poly = acc.into_iter().collect();
        v.sort_by_key(|t| t.0);
        self.poly(v)
    }
}

pub fn reset() {
    with(|s| *s = Store::new());
    ATOMS.with(|c| c.borrow_mut().clear());
}
thread_local! {
    static BUDGET: std::cell::Cell<(u64, Option<std::time::Instant>)> = const { std::cell::Cell::new((0, None)) };
}
/// Time limit of the current job.
pub fn deadline(d: Option<std::time::Instant>) {
    BUDGET.with(|b| b.set((0, d)));
}
/// Resident memory one job may use.
const MEMORY_BUDGET: u64 = 5 << 30;
fn tick() {
    BUDGET.with(|b| {
        let (n, d) = b.get();
        if n & 0xffff == 0xffff {
            if d.is_some_and(|d| std::time::Instant::now() > d) {
                b.set((0, None));
                panic!("time budget of the analysis exhausted");
            }
            let pages = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0);
            if d.is_some() && pages * 4096 > MEMORY_BUDGET {
                b.set((0, None));
                panic!("memory budget of the analysis exhausted");
            }
        }
        b.set((n + 1, d));
    });
}
fn with<R>(f: impl FnOnce(&mut Store) -> R) -> R {
    tick();
    ST.with(|s| f(&mut s.borrow_mut()))
}

pub fn zero() -> Form {
    Form(0)
}
pub fn konst(c: Fp) -> Form {
    if c.is_zero() {
        return zero();
    }
    with(|s| s.poly(vec![(MonoId(0), c)]))
}
pub fn int(c: i64) -> Form {
    konst(Fp::from_i64(c))
}
pub fn one() -> Form {
    int(1)
}
pub fn atom(a: Atom) -> Form {
    with(|s| {
        let a = s.atom(a);
        let m = s.mono(vec![(a, 1)]);
        s.poly(vec![(m, Fp::one())])
    })
}
pub fn var(n: &str) -> Form {
    atom(Atom::Var(n.to_string()))
}
pub fn free(n: &str) -> Form {
    let k = with(|s| {
        s.fresh += 1;
        s.fresh
    });
    atom(Atom::Free(format!("{n}#{k}")))
}
pub fn poly(f: Form) -> Rc<Poly> {
    with(|s| s.polys[f.0 as usize].clone())
}
pub fn mono(m: MonoId) -> Rc<Vec<(AtomId, i64)>> {
    with(|s| s.monos[m.0 as usize].clone())
}
pub fn atom_of(a: AtomId) -> Atom {
    with(|s| s.atoms[a.0 as usize].clone())
}
pub fn as_const(f: Form) -> Option<Fp> {
    let p = poly(f);
    match p.len() {
        0 => Some(Fp::ZERO),
        1 if p[0].0 .0 == 0 => Some(p[0].1),
        _ => None,
    }
}
pub fn add(a: Form, b: Form) -> Form {
    if a == zero() {
        return b;
    }
    if b == zero() {
        return a;
    }
    let (x, y) = (poly(a), poly(b));
    let mut r: Poly = Vec::with_capacity(x.len() + y.len());
    let (mut i, mut j) = (0, 0);
    while i < x.len() || j < y.len() {
        if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
            r.push(x[i]);
            i += 1;
        } else if i >= x.len() || y[j].0 < x[i].0 {
            r.push(y[j]);
            j += 1;
        } else {
            let c = x[i].1.add(y[j].1);
            if !c.is_zero() {
                r.push((x[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    with(|s| s.poly(r))
}
pub fn scale(a: Form, c: Fp) -> Form {
    if c.is_zero() {
        return zero();
    }
    if c == Fp::one() {
        return a;
    }
    let r: Poly = poly(a).iter().map(|&(m, k)| (m, k.mul(c))).collect();
    with(|s| s.poly(r))
}
pub fn neg(a: Form) -> Form {
    scale(a, Fp::one().neg())
}
pub fn sub(a: Form, b: Form) -> Form {
    add(a, neg(b))
}
/// (content, monic part): f = content * monic
pub fn monic(f: Form) -> (Fp, Form) {
    let p = poly(f);
    match p.last() {
        None => (Fp::ZERO, zero()),
        Some(&(_, c)) => (c, scale(f, c.inv0())),
    }
}
pub fn mul(a: Form, b: Form) -> Form {
    if a == zero() || b == zero() {
        return zero();
    }
    if let Some(c) = as_const(a) {
        return scale(b, c);
    }
    if let Some(c) = as_const(b) {
        return scale(a, c);
    }
    let (x, y) = (poly(a), poly(b));
    if x.len() > 1 && y.len() > 1 {
        let (ca, ma) = monic(a);
        let (cb, mb) = monic(b);
        if ma == mb {
            return scale(fac_pow(ma, 2), ca.mul(cb));
        }
        if x.len() * y.len() > EXPAND_LIMIT {
            let p = mul(atom(Atom::Fac(ma)), atom(Atom::Fac(mb)));
            return scale(p, ca.mul(cb));
        }
    }
    if x.len() == 1 && y.len() > 1 {
        return mul_single(a, b);
    }
    if y.len() == 1 && x.len() > 1 {
        return mul_single(b, a);
    }
    expand(a, b)
}
fn fac_pow(m: Form, n: i64) -> Form {
    with(|s| {
        let a = s.atom(Atom::Fac(m));
        let mm = s.mono(vec![(a, n)]);
        s.poly(vec![(mm, Fp::one())])
    })
}
/// single-term a times multi-term b
fn mul_single(a: Form, b: Form) -> Form {
    let (cb, mb) = monic(b);
    let known = with(|s| s.atom_ix.get(&Atom::Fac(mb)).copied());
    if let Some(fa) = known {
        let p = poly(a);
        if mono(p[0].0).iter().any(|t| t.0 == fa) {
            return with(|s| {
                let one = s.mono(vec![(fa, 1)]);
                let m = s.mul_mono(p[0].0, one);
                s.poly(vec![(m, p[0].1.mul(cb))])
            });
        }
    }
    expand(a, b)
}
fn expand(a: Form, b: Form) -> Form {
    let (x, y) = (poly(a), poly(b));
    with(|s| {
        let mut acc: HashMap<MonoId, Fp> = HashMap::with_capacity(x.len() * y.len());
        for &(m1, c1) in x.iter() {
            for &(m2, c2) in y.iter() {
                let m = s.mul_mono(m1, m2);
                let c = c1.mul(c2);
                let e = acc.entry(m).or_insert(Fp::ZERO);
                *e = e.add(c);
            }
        }
        s.normalise(acc)
    })
}
pub fn pow(f: Form, n: u64) -> Form {
    if n == 0 {
        return one();
    }
    if n == 1 || f == zero() {
        return f;
    }
    if let Some(c) = as_const(f) {
        return konst(c.pow(n as u128));
    }
    let p = poly(f);
    if p.len() == 1 {
        let m: Vec<_> = mono(p[0].0)
            .iter()
            .map(|&(a, e)| (a, e.checked_mul(n as i64).expect("exponent overflow")))
            .collect();
        // a monomial of the shape x*Inv(x) is idempotent
        let idem = m.iter().any(|t| matches!(atom_of(t.0), Atom::Inv(_)));
        if idem {
            let mut r = f;
            let mut k = 1;
            // exponents with Inv atoms are only raised by small constants
            assert!(n < 4096, "power of an inverse too large");
            while k < n {
                r = expand(r, f);
                k += 1;
            }
            return r;
        }
        let c = p[0].1.pow(n as u128);
        return with(|s| {
            let mm = s.mono(m);
            s.poly(vec![(mm, c)])
        });
    }
    let (c, m) = monic(f);
    scale(fac_pow(m, n as i64), c.pow(n as u128))
}
/// x^{-1}, with 0 -> 0
pub fn inv0(f: Form) -> Form {
    if let Some(c) = as_const(f) {
        return konst(c.inv0());
    }
    let p = poly(f);
    if p.len() == 1 {
        let mut r = konst(p[0].1.inv0());
        for &(a, e) in mono(p[0].0).iter() {
            match atom_of(a) {
                Atom::Inv(g) => r = mul(r, pow(g, e as u64)),
                Atom::Fac(g) => r = mul(r, pow(atom(Atom::Inv(g)), e as u64)),
                _ => {
                    let x = with(|s| {
                        let m = s.mono(vec![(a, 1)]);
                        s.poly(vec![(m, Fp::one())])
                    });
                    r = mul(r, pow(atom(Atom::Inv(x)), e as u64))
                }
            }
        }
        return r;
    }
    let (c, m) = monic(f);
    scale(atom(Atom::Inv(m)), c.inv0())
}

/// Replace the atoms selected by `f` with forms.
pub fn subst(x: Form, f: &mut dyn FnMut(AtomId, &Atom) -> Option<Form>) -> Form {
    subst_with(x, f, true)
}
/// As `subst`; with `full` unset, powers and large products of what is substituted stay factored.
pub fn subst_with(x: Form, f: &mut dyn FnMut(AtomId, &Atom) -> Option<Form>, full: bool) -> Form {
    let mut r = zero();
    let mut acc: HashMap<MonoId, Fp> = HashMap::new();
    for &(m, c) in poly(x).iter() {
        let mm = mono(m);
        let mut rest: Vec<(AtomId, i64)> = vec![];
        let mut t = one();
        let mut hit = false;
        for &(a, e) in mm.iter() {
            match f(a, &atom_of(a)) {
                Some(g) => {
                    hit = true;
                    if !full && e > 2 {
                        t = mul(t, pow(g, e as u64));
                        continue;
                    }
                    for _ in 0..e {
                        t = if full || poly(t).len() * poly(g).len() <= EXPAND_LIMIT { expand(t, g) } else { mul(t, g) };
                        if t == zero() {
                            break;
                        }
                    }
                }
                None => rest.push((a, e)),
            }
        }
        if !hit {
            *acc.entry(m).or_insert(Fp::ZERO) = acc.get(&m).copied().unwrap_or(Fp::ZERO).add(c);
        } else if t != zero() {
            let rm = with(|s| {
                let m = s.mono(rest);
                s.poly(vec![(m, c)])
            });
            r = add(r, if full { expand(rm, t) } else { mul(rm, t) });
        }
    }
    let base = with(|s| s.normalise(acc));
    add(base, r)
}

/// Does the form (transitively) mention an atom satisfying `pred`?
pub fn mentions(x: Form, pred: &mut dyn FnMut(&Atom) -> bool) -> bool {
    let mut seen = std::collections::HashSet::new();
    fn go(x: Form, pred: &mut dyn FnMut(&Atom) -> bool, seen: &mut std::collections::HashSet<Form>) -> bool {
        if !seen.insert(x) {
            return false;
        }
        for &(m, _) in poly(x).iter() {
            for &(a, _) in mono(m).iter() {
                let at = atom_of(a);
                if pred(&at) {
                    return true;
                }
                let r = match &at {
                    Atom::Fac(g) | Atom::Inv(g) | Atom::PowSym(g, _) => go(*g, pred, seen),
                    Atom::Det(_, v) => v.iter().any(|g| go(*g, pred, seen)),
                    Atom::Ite(_, a, b) => go(*a, pred, seen) || go(*b, pred, seen),
                    _ => false,
                };
                if r {
                    return true;
                }
            }
        }
        false
    }
    go(x, pred, &mut seen)
}

thread_local!(static ATOMS: RefCell<HashMap<Form, Rc<std::collections::HashSet<AtomId>>>> = RefCell::new(HashMap::new()));
/// Every atom a form is built from, nested ones included.
pub fn atoms_of(x: Form) -> Rc<std::collections::HashSet<AtomId>> {
    if let Some(r) = ATOMS.with(|c| c.borrow().get(&x).cloned()) {
        return r;
    }
    let mut out = std::collections::HashSet::new();
    for &(m, _) in poly(x).iter() {
        for &(a, _) in mono(m).iter() {
            if !out.insert(a) {
                continue;
            }
            let subs: Vec<Form> = match atom_of(a) {
                Atom::Fac(g) | Atom::Inv(g) | Atom::PowSym(g, _) => vec![g],
                Atom::Det(_, v) => v,
                Atom::Ite(_, a, b) => vec![a, b],
                _ => vec![],
            };
            for g in subs {
                out.extend(atoms_of(g).iter());
            }
        }
    }
    let r = Rc::new(out);
    ATOMS.with(|c| c.borrow_mut().insert(x, r.clone()));
    r
}

/// Expand all determinant contracts by Laplace expansion (exact).
pub fn expand_dets(x: Form) -> Form {
    let mut cache: HashMap<AtomId, Form> = HashMap::new();
    subst(x, &mut |id, a| match a {
        Atom::Det(n, e) => {
            let v = *cache.entry(id).or_insert_with(|| det_expanded(*n, e));
            Some(v)
        }
        _ => None,
    })
}
/// Determinant by subset dynamic programming (first column first), fully expanded.
pub fn det_expanded(n: usize, e: &[Form]) -> Form {
    // d[S] = determinant of rows S, columns 0..|S|
    let mut d: Vec<Form> = vec![zero(); 1 << n];
    d[0] = one();
    for s in 1usize..(1 << n) {
        let k = s.count_ones() as usize;
        let col = k - 1;
        let mut acc = zero();
        let rows: Vec<usize> = (0..n).filter(|r| s >> r & 1 == 1).collect();
        for (pos, &r) in rows.iter().enumerate() {
            let t = expand(e[r * n + col], d[s & !(1 << r)]);
            // sign of expanding along the last column of a k x k matrix
            acc = if (pos + col) % 2 == 0 { add(acc, t) } else { sub(acc, t) };
        }
        d[s] = acc;
    }
    d[(1 << n) - 1]
}
pub fn det_atom(n: usize, e: &[Form]) -> Form {
    match n {
        0 => one(),
        1 => e[0],
        2 => sub(mul(e[0], e[3]), mul(e[1], e[2])),
        _ => atom(Atom::Det(n, e.to_vec())),
    }
}

/// Is x = 0 given that every form in `nonzero` is non-zero?  (multiply through by denominators,
/// expand determinants; exact)
pub fn is_zero_given(x: Form, nonzero: &[Form]) -> bool {
    if x == zero() {
        return true;
    }
    if as_const(x).is_some() {
        return false;
    }
    // a point at which it is not zero refutes the identity at once
    let mut p = Point::new(0xfeed);
    if !p.form(x).is_zero() && !p.bad && nonzero.iter().all(|g| !p.form(*g).is_zero()) {
        return false;
    }
    let mut y = x;
    for &g in nonzero {
        let (_, m) = monic(g);
        let ia = inv0(m);
        // single Inv atom for m
        let p = poly(ia);
        if p.len() != 1 || mono(p[0].0).len() != 1 {
            continue;
        }
        let ida = mono(p[0].0)[0].0;
        let mut k = 0;
        for &(mm, _) in poly(y).iter() {
            for &(a, e) in mono(mm).iter() {
                if a == ida {
                    k = k.max(e);
                }
            }
        }
        if k == 0 {
            continue;
        }
        let mut r = zero();
        for &(mm, c) in poly(y).iter() {
            let v = mono(mm);
            let e = v.iter().find(|t| t.0 == ida).map(|t| t.1).unwrap_or(0);
            let rest: Vec<_> = v.iter().copied().filter(|t| t.0 != ida).collect();
            let t = with(|s| {
                let m = s.mono(rest);
                s.poly(vec![(m, c)])
            });
            let mut t = t;
            for _ in 0..(k - e) {
                t = expand(t, m);
            }
            r = add(r, t);
        }
        y = r;
    }
    if y == zero() {
        return true;
    }
    if mentions(y, &mut |a| matches!(a, Atom::Det(..))) {
        y = expand_dets(y);
    }
    y == zero()
}

pub fn n_terms(f: Form) -> usize {
    poly(f).len()
}
pub fn stats() -> (usize, usize, usize) {
    with(|s| (s.polys.len(), s.atoms.len(), s.peak_terms))
}

pub fn show(f: Form) -> String {
    show_d(f, 3)
}
pub fn show_d(f: Form, depth: usize) -> String {
    let p = poly(f);
    if p.is_empty() {
        return "0".into();
    }
    if depth == 0 && p.len() > 1 {
        return format!("<{} terms>", p.len());
    }
    let mut s = String::new();
    for (i, &(m, c)) in p.iter().enumerate() {
        if i > 0 {
            s.push_str(" + ");
        }
        if i >= 6 {
            s.push_str(&format!("..({} terms)", p.len()));
            break;
        }
        let mm = mono(m);
        let cs = c.show();
        if mm.is_empty() {
            s.push_str(&cs);
            continue;
        }
        if cs != "1" {
            s.push_str(&cs);
            s.push('*');
        }
        for (k, &(a, e)) in mm.iter().enumerate() {
            if k > 0 {
                s.push('*');
            }
            let d = depth.saturating_sub(1);
            let t = match atom_of(a) {
                Atom::Var(n) | Atom::Free(n) => n,
                Atom::Fac(g) => format!("({})", show_d(g, d)),
                Atom::Inv(g) => format!("inv({})", show_d(g, d)),
                Atom::Det(n, v) => format!("det{}[{}..]", n, show_d(v[0], d)),
                Atom::Ite(t, x, y) => format!("ite({}; {}; {})", crate::val::show_term(t, d), show_d(x, d), show_d(y, d)),
                Atom::OfInt(t) => format!("fe({})", crate::val::show_term(t, d)),
                Atom::PowSym(g, t) => format!("({})^{}", show_d(g, d), crate::val::show_term(t, d)),
            };
            s.push_str(&t);
            if e != 1 {
                s.push_str(&format!("^{e}"));
            }
        }
    }
    s
}

// ------------------------------------------------------------------ value-number equality
/// A point at which value numbers are compared (random interpretation): every input is given a
/// pseudo-random field value, gates that depend on field data are free booleans.
pub struct Point {
    pub seed: u64,
    pub gates: HashMap<TermId, bool>,
    pub ints: HashMap<TermId, u128>,
    memo: HashMap<Form, Fp>,
    amemo: HashMap<AtomId, Fp>,
    pub bad: bool,
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn hash_fp(seed: u64, key: &[u8]) -> Fp {
    let mut l = [0u64; 4];
    for (i, w) in l.iter_mut().enumerate() {
        let mut h = mix(seed ^ (i as u64) << 32);
        for b in key {
            h = mix(h ^ *b as u64);
        }
        *w = h;
    }
    l[3] >>= 4;
    Fp::from_limbs(l)
}
impl Point {
    pub fn new(seed: u64) -> Point {
        Point { seed, gates: HashMap::new(), ints: HashMap::new(), memo: HashMap::new(), amemo: HashMap::new(), bad: false }
    }
    pub fn form(&mut self, f: Form) -> Fp {
        if let Some(v) = self.memo.get(&f) {
            return *v;
        }
        let mut s = Fp::ZERO;
        for &(m, c) in poly(f).iter() {
            let mut t = c;
            for &(a, e) in mono(m).iter() {
                t = t.mul(self.atom(a).pow(e as u128));
            }
            s = s.add(t);
        }
        self.memo.insert(f, s);
        s
    }
    fn atom(&mut self, a: AtomId) -> Fp {
        if let Some(v) = self.amemo.get(&a) {
            return *v;
        }
        let v = match atom_of(a) {
            Atom::Var(n) => hash_fp(self.seed, n.as_bytes()),
            Atom::Free(n) => hash_fp(self.seed ^ 0x55, n.as_bytes()),
            Atom::Fac(g) => self.form(g),
            Atom::Inv(g) => self.form(g).inv0(),
            Atom::Det(n, e) => {
                let v: Vec<Fp> = e.iter().map(|x| self.form(*x)).collect();
                crate::spec::solve(&crate::spec::mat(n, n, &v)).1
            }
            Atom::Ite(t, x, y) => match self.term(t) {
                Some(c) => self.form(if c & 1 == 1 { x } else { y }),
                None => {
                    self.bad = true;
                    Fp::ZERO
                }
            },
            Atom::OfInt(t) => match self.term(t) {
                Some(c) => Fp::from_u128(c),
                None => {
                    self.bad = true;
                    Fp::ZERO
                }
            },
            Atom::PowSym(g, t) => match self.term(t) {
                Some(c) => self.form(g).pow(c),
                None => {
                    self.bad = true;
                    Fp::ZERO
                }
            },
        };
        self.amemo.insert(a, v);
        v
    }
    pub fn tt(&mut self, t: crate::val::T) -> Option<u128> {
        match t {
            crate::val::T::C(c) => Some(c),
            crate::val::T::T(t) => self.term(t),
        }
    }
    pub fn term(&mut self, t: TermId) -> Option<u128> {
        use crate::val::Term;
        if let Some(b) = self.gates.get(&t) {
            return Some(*b as u128);
        }
        match &*crate::val::get(t) {
            Term::Var(n, b) => {
                if let Some(c) = self.ints.get(&t) {
                    return Some(*c);
                }
                let h = hash_fp(self.seed ^ 0x77, n.as_bytes()).0;
                let c = h[0] as u128 | (h[1] as u128) << 64;
                Some(if *b >= 128 { c } else { c & ((1u128 << b) - 1) })
            }
            Term::Zeros(v) => {
                let mut r = 1;
                for f in v {
                    if !self.form(*f).is_zero() {
                        r = 0;
                    }
                }
                Some(r)
            }
            Term::Not(a) => self.term(*a).map(|c| 1 - (c & 1)),
            Term::And(v) => {
                let mut r = 1;
                for x in v {
                    r &= self.term(*x)?;
                }
                Some(r)
            }
            Term::Byte(a, k) => self.term(*a).map(|c| if *k < 16 { (c >> (8 * k)) & 0xff } else { 0 }),
            Term::Cat(v) => {
                let mut r = 0u128;
                for (i, x) in v.iter().enumerate() {
                    let c = self.tt(*x)?;
                    if i < 16 {
                        r |= (c & 0xff) << (8 * i);
                    }
                }
                Some(r)
            }
            Term::Ite(g, a, b) => {
                if self.term(*g)? & 1 == 1 {
                    self.tt(*a)
                } else {
                    self.tt(*b)
                }
            }
            Term::FeBytes(f, o, l) => {
                let v = self.form(*f).0;
                let mut r = 0u128;
                for k in 0..(*l).min(16) {
                    let i = o + k;
                    r |= (((v[(i / 8) as usize] >> (8 * (i % 8))) & 0xff) as u128) << (8 * k);
                }
                Some(r)
            }
            Term::Bin(op, bits, a, b) => {
                let (x, y) = (self.tt(*a)?, self.tt(*b)?);
                let m = |v: u128| if *bits >= 128 { v } else { v & ((1u128 << bits) - 1) };
                Some(match *op {
                    "Eq" => (x == y) as u128,
                    "Ne" => (x != y) as u128,
                    "Lt" => (x < y) as u128,
                    "Le" => (x <= y) as u128,
                    "Gt" => (x > y) as u128,
                    "Ge" => (x >= y) as u128,
                    "Add" => m(x.wrapping_add(y)),
                    "Sub" => m(x.wrapping_sub(y)),
                    "Mul" => m(x.wrapping_mul(y)),
                    "BitAnd" => x & y,
                    "BitOr" => x | y,
                    "BitXor" => x ^ y,
                    _ => return None,
                })
            }
            _ => None,
        }
    }
}

pub fn term_gates(t: TermId, data: &mut Vec<TermId>, ints: &mut HashMap<TermId, Vec<u128>>, fs: &mut Vec<Form>) {
    use crate::val::{Term, T};
    match &*crate::val::get(t) {
        Term::Zeros(_) => {
            if !data.contains(&t) {
                data.push(t)
            }
        }
        Term::Var(_, 1) => {
            ints.entry(t).or_insert_with(|| vec![0, 1]);
        }
        Term::Var(..) => {
            ints.entry(t).or_default();
        }
        Term::Not(a) | Term::Un(_, _, a) | Term::Byte(a, _) => term_gates(*a, data, ints, fs),
        Term::And(v) => v.iter().for_each(|x| term_gates(*x, data, ints, fs)),
        Term::Cat(v) => v.iter().for_each(|x| {
            if let T::T(x) = x {
                term_gates(*x, data, ints, fs)
            }
        }),
        Term::Bin(_, _, a, b) => {
            for (x, y) in [(a, b), (b, a)] {
                if let T::T(x) = x {
                    term_gates(*x, data, ints, fs);
                    if let T::C(c) = y {
                        let mut v = *x;
                        // look through zero extension
                        loop {
                            let g = crate::val::get(v);
                            match &*g {
                                Term::Cat(p) => match p[0] {
                                    T::T(q) => v = q,
                                    _ => break,
                                },
                                Term::Byte(q, 0) => v = *q,
                                _ => break,
                            }
                        }
                        if let Term::Var(..) = &*crate::val::get(v) {
                            let e = ints.entry(v).or_default();
                            for k in [*c, c.wrapping_add(1)] {
                                if !e.contains(&k) {
                                    e.push(k)
                                }
                            }
                        }
                    }
                }
            }
        }
        Term::Ite(g, a, b) => {
            term_gates(*g, data, ints, fs);
            for x in [a, b] {
                if let T::T(x) = x {
                    term_gates(*x, data, ints, fs)
                }
            }
        }
        Term::FeBytes(f, ..) => fs.push(*f),
    }
}

/// Gates of a form: conditions on field data, and integer inputs with the constants they are compared to.
pub fn gates(fs: &[Form], data: &mut Vec<TermId>, ints: &mut HashMap<TermId, Vec<u128>>) {
    let mut seen = std::collections::HashSet::new();
    let mut todo: Vec<Form> = fs.to_vec();
    while let Some(f) = todo.pop() {
        if !seen.insert(f) {
            continue;
        }
        for &(m, _) in poly(f).iter() {
            for &(a, _) in mono(m).iter() {
                match atom_of(a) {
                    Atom::Fac(g) | Atom::Inv(g) => todo.push(g),
                    Atom::PowSym(g, t) => {
                        todo.push(g);
                        term_gates(t, data, ints, &mut todo)
                    }
                    Atom::Det(_, v) => todo.extend(v),
                    Atom::Ite(t, x, y) => {
                        todo.push(x);
                        todo.push(y);
                        term_gates(t, data, ints, &mut todo)
                    }
                    Atom::OfInt(t) => term_gates(t, data, ints, &mut todo),
                    _ => {}
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmp {
    /// identical value numbers
    Same,
    /// different expressions that agree at every point tried, for every setting of the gates
    Agree,
    Differ(String),
    Unknown(String),
}
pub fn compare(a: Form, b: Form) -> Cmp {
    if a == b {
        return Cmp::Same;
    }
    let mut data = vec![];
    let mut ints = HashMap::new();
    gates(&[a, b], &mut data, &mut ints);
    if data.len() > 6 {
        return Cmp::Unknown(format!("{} conditions on field data", data.len()));
    }
    let names: Vec<TermId> = ints.keys().copied().collect();
    let n_int = names.iter().map(|n| ints[n].len()).max().unwrap_or(0);
    for g in 0..1u32 << data.len() {
        for ic in 0..(2 + n_int) {
            for s in 0..2u64 {
                let mut p = Point::new(mix(0xabcdef ^ s << 40 ^ (ic as u64) << 20 ^ g as u64));
                for (i, t) in data.iter().enumerate() {
                    p.gates.insert(*t, g >> i & 1 == 1);
                }
                for n in &names {
                    let c = &ints[n];
                    if ic < c.len() {
                        p.ints.insert(*n, c[ic]);
                    }
                }
                let (x, y) = (p.form(a), p.form(b));
                if p.bad {
                    return Cmp::Unknown("a gate is not interpretable".into());
                }
                if x != y {
                    return Cmp::Differ(format!("values {} and {} at sample point {s}", x.show(), y.show()));
                }
            }
        }
    }
    Cmp::Agree
}

pub fn take_log() -> Vec<Form> {
    with(|s| std::mem::take(&mut s.log))
}
/// Forms under a non-linear operation anywhere in the given forms.
pub fn factors(fs: &[Form]) -> std::collections::HashSet<Form> {
    let mut seen = std::collections::HashSet::new();
    let mut out = std::collections::HashSet::new();
    let mut todo = fs.to_vec();
    while let Some(f) = todo.pop() {
        if !seen.insert(f) {
            continue;
        }
        for &(m, _) in poly(f).iter() {
            for &(a, _) in mono(m).iter() {
                match atom_of(a) {
                    Atom::Fac(g) | Atom::Inv(g) | Atom::PowSym(g, _) => {
                        out.insert(g);
                        todo.push(g)
                    }
                    Atom::Ite(_, x, y) => todo.extend([x, y]),
                    Atom::Det(_, v) => todo.extend(v),
                    _ => {}
                }
            }
        }
    }
    out
}

/// Values at fixed pseudo-random points, for every setting of the gates.
pub fn fingerprint(f: Form) -> Option<String> {
    let mut data = vec![];
    let mut ints = HashMap::new();
    gates(&[f], &mut data, &mut ints);
    if data.len() > 6 {
        return None;
    }
    let mut all: Vec<String> = vec![];
    for s in 0..3u64 {
        for g in 0..1u32 << data.len() {
            let mut p = Point::new(mix(0x600d ^ s));
            for (i, t) in data.iter().enumerate() {
                p.gates.insert(*t, g >> i & 1 == 1);
            }
            let v = p.form(f);
            if p.bad {
                return None;
            }
            all.push(v.hex());
        }
    }
    all.sort();
    Some(all.join(","))
}
