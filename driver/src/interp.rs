//! Abstract interpretation of lowered MIR: constant propagation for control and addresses,
//! value numbering for field elements, joins at the immediate post-dominator of every branch
//! whose condition is not determined.
use crate::form::{self, Form, TermId};
use crate::fp::{self, Fp};
use crate::lower::*;
use crate::val::{self, *};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const ABS: u32 = u32::MAX;

#[derive(Clone, Copy, Debug)]
pub struct Loc {
    pub id: u32,
    pub off: u64,
    pub meta: Option<V>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Event {
    pub kind: &'static str,
    pub func: String,
    pub line: String,
    pub detail: String,
    pub under: String,
}

pub struct Frame {
    pub body: Rc<LBody>,
    pub base: u32,
    pub block: usize,
}

pub enum Exit {
    Reached,
    Returned,
    Diverged,
}

pub struct Interp {
    pub mem: Vec<Option<Rc<Alloc>>>,
    journal: Vec<HashMap<u32, Option<Rc<Alloc>>>>,
    pub frames: Vec<Frame>,
    pub ctx: Vec<(TermId, bool)>,
    pub events: BTreeMap<Event, u64>,
    pub steps: u64,
    pub step_limit: u64,
    pub forks: u64,
    /// constraints and prover-assigned variables added to the constraint system, counted for
    /// circuit values whose kind is known
    pub cost: (u64, u64),
    /// field multiplications: by a constant, of two inputs, and powers or inversions
    pub work: [u64; 3],
    /// the constraints themselves, in order: the two factors of each product, or (for anything
    /// else) what is added
    pub rows: Vec<(&'static str, Form, Form)>,
    /// where those constraints are added
    pub cost_at: std::collections::BTreeMap<String, u64>,
    pub calls: u64,
    pub modelled: BTreeMap<String, u64>,
    pub visited: BTreeMap<String, u64>,
    /// analysed library functions with their source position
    pub ws: BTreeMap<String, String>,
    /// where the argument of each non-linear operation was formed
    pub fac_log: Vec<(Form, String, String)>,
    pub call_sites: std::collections::HashSet<(usize, usize)>,
    pub det_contract: Option<usize>,
    pub fork_depth: usize,
    pub opaque_ctr: u32,
    pub models: crate::models::Helpers,
}

pub enum MRes {
    Val(Obj),
    Diverge,
    /// not a modelled function
    No,
}

pub fn fe_of(it: &mut Interp, o: &Obj) -> R<Form> {
    if let Obj::S(V::Fe(f), 32) = o {
        return Ok(*f);
    }
    let sl = o.slots();
    let mut by = [0u8; 32];
    let mut n = 0u64;
    for s in &sl {
        match s.v {
            V::Int(c) if s.off == n && s.off + s.size as u64 <= 32 => {
                for k in 0..s.size {
                    by[(s.off + k as u64) as usize] = if k < 16 { (c >> (8 * k)) as u8 } else { 0 };
                }
                n += s.size as u64;
            }
            V::Fe(f) if s.off == 0 && sl.len() == 1 => return Ok(f),
            // the payload of FpVar::Constant
            V::Fv(f, Kind::Const | Kind::Any) if sl.len() == 1 => return Ok(f),
            _ => {
                if let Some(V::Fe(f)) = scalar(o, 32) {
                    return Ok(f);
                }
                return Err(format!("field element assembled from {:?}", s.v));
            }
        }
    }
    if n != 32 {
        return Err("read of an uninitialised field element".into());
    }
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(by[8 * i..8 * i + 8].try_into().unwrap());
    }
    if !fp::reduced(&l) {
        it.event("NonCanonical", format!("field constant with unreduced limbs {l:?}"));
        // reduce once so that the analysis can go on
        return Ok(form::konst(Fp(l).add(Fp::ZERO).reduce()));
    }
    Ok(form::konst(Fp(l)))
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            mem: vec![None],
            journal: vec![],
            frames: vec![],
            ctx: vec![],
            events: BTreeMap::new(),
            steps: 0,
            step_limit: 600_000_000,
            forks: 0,
            cost: (0, 0),
            rows: vec![],
            work: [0; 3],
            cost_at: Default::default(),
            calls: 0,
            modelled: BTreeMap::new(),
            visited: BTreeMap::new(),
            ws: BTreeMap::new(),
            fac_log: vec![],
            call_sites: Default::default(),
            det_contract: None,
            fork_depth: 0,
            opaque_ctr: 0,
            models: Default::default(),
        }
    }

    // ---------------------------------------------------------------- events
    pub fn here(&self) -> (String, String) {
        for f in self.frames.iter().rev() {
            if crate::is_workspace(&f.body.krate) {
                return (f.body.name.to_string(), f.body.term_line(f.block));
            }
        }
        match self.frames.last() {
            Some(f) => (f.body.name.to_string(), f.body.term_line(f.block)),
            None => ("?".into(), "?".into()),
        }
    }
    pub fn costs(&mut self, constraints: u64, variables: u64) {
        self.cost.0 += constraints;
        self.cost.1 += variables;
        let (func, at) = self.here();
        *self.cost_at.entry(format!("{func} ({at})")).or_insert(0) += constraints.max(variables);
    }
    pub fn event(&mut self, kind: &'static str, detail: String) {
        let (func, line) = self.here();
        let mut under = String::new();
        for (t, b) in &self.ctx {
            if under.len() > 400 {
                under.push_str(" ..");
                break;
            }
            if !under.is_empty() {
                under.push_str("; ");
            }
            under.push_str(&format!("{}{}", if *b { "" } else { "not " }, val::show_term(*t, 3)));
        }
        *self.events.entry(Event { kind, func, line, detail, under }).or_insert(0) += 1;
    }
    pub fn note_factors(&mut self) {
        let l = form::take_log();
        if l.is_empty() {
            return;
        }
        let (f, at) = self.here();
        for x in l {
            self.fac_log.push((x, f.clone(), at.clone()));
        }
    }
    pub fn stack(&self) -> String {
        self.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| format!("{} ({})", f.body.name, f.body.term_line(f.block)))
            .collect::<Vec<_>>()
            .join(" <- ")
    }

    // ---------------------------------------------------------------- memory
    pub fn reserve(&mut self, n: usize) -> u32 {
        let b = self.mem.len() as u32;
        self.mem.resize(self.mem.len() + n, None);
        b
    }
    fn touch(&mut self, id: u32) {
        if let Some(j) = self.journal.last_mut() {
            if !j.contains_key(&id) {
                j.insert(id, self.mem[id as usize].clone());
            }
        }
    }
    pub fn new_alloc(&mut self, a: Alloc) -> u32 {
        let id = self.reserve(1);
        self.touch(id);
        self.mem[id as usize] = Some(Rc::new(a));
        id
    }
    pub fn free(&mut self, id: u32) {
        self.touch(id);
        self.mem[id as usize] = None;
    }
    pub fn alloc(&self, id: u32) -> R<Rc<Alloc>> {
        if id & GLOBAL != 0 {
            return Ok(G.with(|g| g.borrow().allocs[(id & !GLOBAL) as usize].clone()));
        }
        self.mem[id as usize].clone().ok_or_else(|| "access to dead memory".into())
    }
    fn local_owner(&self, id: u32) -> Option<(Rc<LBody>, usize)> {
        for f in self.frames.iter().rev() {
            if id >= f.base && ((id - f.base) as usize) < f.body.local_tys.len() {
                return Some((f.body.clone(), (id - f.base) as usize));
            }
        }
        None
    }
    pub fn read_mem(&self, id: u32, off: u64, size: u64) -> R<Obj> {
        if size == 0 {
            return Ok(Obj::Z);
        }
        if id == ABS {
            return Err("read through a dangling address".into());
        }
        if id & GLOBAL != 0 {
            return G.with(|g| {
                let g = g.borrow();
                let a = &g.allocs[(id & !GLOBAL) as usize];
                if off + size > a.size {
                    return Err("read out of bounds of a constant".into());
                }
                Ok(a.read(off, size))
            });
        }
        match &self.mem[id as usize] {
            None => {
                if self.local_owner(id).is_some() {
                    Ok(Obj::Z)
                } else {
                    Err("read of dead memory".into())
                }
            }
            Some(a) => {
                if off + size > a.size {
                    return Err(format!("read out of bounds ({}+{} of {})", off, size, a.size));
                }
                Ok(a.read(off, size))
            }
        }
    }
    fn get_mut(&mut self, id: u32) -> R<&mut Alloc> {
        if id == ABS {
            return Err("write through a dangling address".into());
        }
        if id & GLOBAL != 0 {
            return Err("write to constant or static memory".into());
        }
        self.touch(id);
        if self.mem[id as usize].is_none() {
            match self.local_owner(id) {
                Some((b, l)) => {
                    let (s, al) = b.local_size(l)?;
                    self.mem[id as usize] = Some(Rc::new(Alloc::new(s, al)));
                }
                None => return Err("write to dead memory".into()),
            }
        }
        Ok(Rc::make_mut(self.mem[id as usize].as_mut().unwrap()))
    }
    pub fn write_mem(&mut self, id: u32, off: u64, size: u64, o: &Obj) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        let a = self.get_mut(id)?;
        if off + size > a.size {
            return Err(format!("write out of bounds ({}+{} of {})", off, size, a.size));
        }
        a.write(off, size, o);
        Ok(())
    }
    pub fn fill(&mut self, id: u32, off: u64, n: u64, byte: u128) -> R<()> {
        let mut slots = vec![];
        let mut k = 0;
        while k < n {
            let s = (n - k).min(8);
            let mut c = 0u128;
            for i in 0..s {
                c |= byte << (8 * i);
            }
            slots.push(Slot { off: k, size: s as u32, v: V::Int(c) });
            k += s;
        }
        self.write_mem(id, off, n, &Obj::from_slots(slots))
    }
    pub fn ptr_loc(&self, v: V) -> R<(u32, u64)> {
        match v {
            V::Ptr(i, o) => Ok((i, o)),
            V::Int(a) => Ok((ABS, a as u64)),
            V::Top => Err("access through an unknown pointer".into()),
            V::Sym(t) => Err(format!("access through a data-dependent address {}", val::show_term(t, 3))),
            v => Err(format!("access through {v:?}")),
        }
    }
    pub fn deref(&self, o: &Obj) -> R<Loc> {
        let p = o.part(0, 8);
        let v = scalar(&p, 8).ok_or("dereference of an uninitialised pointer")?;
        let (id, off) = self.ptr_loc(v)?;
        let meta = match o {
            Obj::M(_) => scalar(&o.part(8, 8), 8),
            _ => None,
        };
        Ok(Loc { id, off, meta })
    }
    pub fn load(&self, ptr: &Obj, size: u64) -> R<Obj> {
        let l = self.deref(ptr)?;
        self.read_mem(l.id, l.off, size)
    }
    pub fn store(&mut self, ptr: &Obj, size: u64, o: &Obj) -> R<()> {
        let l = self.deref(ptr)?;
        self.write_mem(l.id, l.off, size, o)
    }
    pub fn ptr_to(&mut self, size: u64, align: u64, o: &Obj) -> Obj {
        let id = self.new_alloc(Alloc::new(size.max(1), align));
        let _ = self.write_mem(id, 0, size, o);
        Obj::S(V::Ptr(id, 0), 8)
    }

    // ---------------------------------------------------------------- places
    fn base(&self) -> u32 {
        self.frames.last().unwrap().base
    }
    fn place(&mut self, p: &LPlace) -> R<Loc> {
        let mut l = Loc { id: self.base() + p.local as u32, off: 0, meta: None };
        for e in &p.proj {
            match e {
                Proj::Deref { fat } => {
                    let o = self.read_mem(l.id, l.off, if *fat { 16 } else { 8 })?;
                    l = self.deref(&o)?;
                    if !*fat {
                        l.meta = None;
                    }
                }
                Proj::Off(o) => l.off += o,
                Proj::Index { local, stride } => {
                    let v = self.read_mem(self.base() + *local as u32, 0, 8)?;
                    match scalar(&v, 8) {
                        Some(V::Int(i)) => l.off += i as u64 * stride,
                        Some(V::Sym(t)) => {
                            let k = if val::field_dep(t) { "DataIndex" } else { "Unmodelled" };
                            self.event(k, format!("index {}", val::show_term(t, 3)));
                            return Err("memory index is not determined".into());
                        }
                        v => return Err(format!("index by {v:?}")),
                    }
                    l.meta = None;
                }
                Proj::ConstIdx { off, from_end, stride, arr } => {
                    let n = self.seq_len(&l, *arr)?;
                    let i = if *from_end { n - off } else { *off };
                    l.off += i * stride;
                    l.meta = None;
                }
                Proj::Sub { from, to, from_end, stride, arr } => {
                    let n = self.seq_len(&l, *arr)?;
                    let end = if *from_end { n - to } else { *to };
                    l.off += from * stride;
                    l.meta = Some(V::Int((end - from) as u128));
                }
            }
        }
        Ok(l)
    }
    fn seq_len(&self, l: &Loc, arr: Option<u64>) -> R<u64> {
        match (arr, l.meta) {
            (Some(n), _) => Ok(n),
            (None, Some(V::Int(n))) => Ok(n as u64),
            _ => Err("slice of unknown length".into()),
        }
    }
    fn addr(l: &Loc) -> V {
        if l.id == ABS {
            V::Int(l.off as u128)
        } else {
            V::Ptr(l.id, l.off)
        }
    }
    fn op(&mut self, o: &LOp) -> R<(Obj, u64)> {
        match o {
            LOp::Const(c, s, _) => Ok((c.clone(), *s)),
            LOp::Place(p) => {
                let l = self.place(p)?;
                Ok((self.read_mem(l.id, l.off, p.size)?, p.size))
            }
        }
    }
    fn op_scalar(&mut self, o: &LOp, size: u32) -> R<V> {
        let (v, _) = self.op(o)?;
        scalar(&v, size).ok_or_else(|| format!("use of uninitialised or compound data {v:?}"))
    }
    fn assign(&mut self, p: &LPlace, o: Obj) -> R<()> {
        let l = self.place(p)?;
        self.write_mem(l.id, l.off, p.size, &o)
    }

    // ---------------------------------------------------------------- assumptions
    pub fn nonzero(&self) -> Vec<Form> {
        let mut v = vec![];
        for (t, b) in &self.ctx {
            if !*b {
                if let Term::Zeros(z) = &*val::get(*t) {
                    if z.len() == 1 {
                        v.push(z[0]);
                    }
                }
            }
        }
        v
    }
    pub fn known(&self, t: TermId) -> Option<bool> {
        for (u, b) in self.ctx.iter().rev() {
            if *u == t {
                return Some(*b);
            }
        }
        match &*val::get(t) {
            Term::Not(a) => self.known(*a).map(|b| !b),
            Term::And(v) => {
                let mut all = true;
                for x in v {
                    match self.known(*x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Term::Zeros(z) => {
                let mut zero: Vec<Form> = vec![];
                for (u, b) in &self.ctx {
                    match (&*val::get(*u), *b) {
                        (Term::Zeros(y), true) => zero.extend(y),
                        (Term::Zeros(y), false) => {
                            if y.iter().all(|f| z.contains(f)) {
                                return Some(false);
                            }
                        }
                        (Term::And(ys), true) => {
                            for y in ys {
                                if let Term::Zeros(y) = &*val::get(*y) {
                                    zero.extend(y)
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if z.iter().all(|f| zero.contains(f)) {
                    return Some(true);
                }
                let nz = self.nonzero();
                if !nz.is_empty() || !zero.is_empty() {
                    let mut all = true;
                    for &f in z {
                        if zero.contains(&f) {
                            continue;
                        }
                        let g = if zero.is_empty() { f } else { subst_zero(f, &zero) };
                        if let Some(c) = form::as_const(g) {
                            if !c.is_zero() {
                                return Some(false);
                            }
                            continue;
                        }
                        if !form::is_zero_given(g, &nz) && (g == f || !form::is_zero_given(f, &nz)) {
                            all = false;
                            break;
                        }
                    }
                    if all {
                        return Some(true);
                    }
                }
                None
            }
            Term::Bin("Eq", _, x, T::C(c)) => {
                for (u, b) in &self.ctx {
                    if let (Term::Bin("Eq", _, y, T::C(d)), true) = (&*val::get(*u), *b) {
                        if x == y && c != d {
                            return Some(false);
                        }
                    }
                }
                None
            }
            Term::Bin("Ne", b, x, y) => self.known(val::term(Term::Bin("Eq", *b, *x, *y))).map(|b| !b),
            _ => None,
        }
    }
    pub fn truth(&self, t: T) -> Option<bool> {
        match t {
            T::C(c) => Some(c & 1 == 1),
            T::T(t) => self.known(t),
        }
    }
    pub fn assume(&mut self, t: T, b: bool) {
        if let T::T(t) = t {
            let mut t = t;
            let mut b = b;
            if let Term::Not(u) = &*val::get(t) {
                t = *u;
                b = !b;
            }
            if let (Term::Bin("Ne", bb, x, y), _) = (&*val::get(t), b) {
                t = val::term(Term::Bin("Eq", *bb, *x, *y));
                b = !b;
            }
            self.ctx.push((t, b));
        }
    }

    // ---------------------------------------------------------------- joins
    pub fn join_v(&mut self, g: T, a: V, b: V, size: u32) -> V {
        if a == b {
            return a;
        }
        let gt = match g {
            T::C(c) => return if c & 1 == 1 { a } else { b },
            T::T(t) => t,
        };
        match (a, b) {
            (V::Fv(x, k), V::Fv(y, l)) => V::Fv(join_fe(gt, x, y), if k == l { k } else { Kind::Any }),
            (V::Fe(x), V::Fe(y)) => V::Fe(join_fe(gt, x, y)),
            _ => match (val::of_v(a), val::of_v(b)) {
                (Some(x), Some(y)) if size <= 16 => val::to_v(val::ite(gt, x, y)),
                _ => V::Top,
            },
        }
    }
    fn join_alloc(&mut self, g: T, a: &Alloc, b: &Alloc) -> Alloc {
        let mut out = Alloc { slots: vec![], ..a.clone() };
        let mut i = 0;
        let mut j = 0;
        let (x, y) = (&a.slots, &b.slots);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].off + x[i].size as u64 <= y[j].off) {
                out.slots.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].off + y[j].size as u64 <= x[i].off {
                out.slots.push(y[j]);
                j += 1;
            } else if x[i].off == y[j].off && x[i].size == y[j].size {
                let v = self.join_v(g, x[i].v, y[j].v, x[i].size);
                out.slots.push(Slot { v, ..x[i] });
                i += 1;
                j += 1;
            } else {
                // overlapping, different granularity: take the smallest common span
                let lo = x[i].off.min(y[j].off);
                let mut hi = (x[i].off + x[i].size as u64).max(y[j].off + y[j].size as u64);
                loop {
                    let mut h2 = hi;
                    while i < x.len() && x[i].off < h2 {
                        h2 = h2.max(x[i].off + x[i].size as u64);
                        i += 1;
                    }
                    while j < y.len() && y[j].off < h2 {
                        h2 = h2.max(y[j].off + y[j].size as u64);
                        j += 1;
                    }
                    if h2 == hi {
                        break;
                    }
                    hi = h2;
                }
                let n = (hi - lo) as u32;
                let (oa, ob) = (a.read(lo, hi - lo), b.read(lo, hi - lo));
                let v = if n == 32 {
                    match (fe_of(self, &oa), fe_of(self, &ob)) {
                        (Ok(p), Ok(q)) => self.join_v(g, V::Fe(p), V::Fe(q), 32),
                        _ => V::Top,
                    }
                } else if n <= 16 {
                    match (scalar(&oa, n), scalar(&ob, n)) {
                        (Some(p), Some(q)) => self.join_v(g, p, q, n),
                        (Some(p), None) if ob == Obj::Z => p,
                        (None, Some(q)) if oa == Obj::Z => q,
                        _ => V::Top,
                    }
                } else {
                    V::Top
                };
                if v == V::Top && n > 16 {
                    // word by word
                    let mut o = lo;
                    while o < hi {
                        let s = (hi - o).min(8);
                        let (p, q) = (a.read(o, s), b.read(o, s));
                        let v = match (scalar(&p, s as u32), scalar(&q, s as u32)) {
                            (Some(p), Some(q)) => Some(self.join_v(g, p, q, s as u32)),
                            (Some(p), None) if q == Obj::Z => Some(p),
                            (None, Some(q)) if p == Obj::Z => Some(q),
                            (None, None) if p == Obj::Z && q == Obj::Z => None,
                            _ => Some(V::Top),
                        };
                        if let Some(v) = v {
                            out.slots.push(Slot { off: o, size: s as u32, v });
                        }
                        o += s;
                    }
                } else {
                    out.slots.push(Slot { off: lo, size: n, v });
                }
            }
        }
        out
    }

    /// Run alternatives under their conditions and join the results.
    /// `conds[i]` are assumed pairwise exclusive and exhaustive.
    pub fn fork(
        &mut self,
        conds: &[T],
        run: &mut dyn FnMut(&mut Interp, usize) -> R<Exit>,
    ) -> R<Exit> {
        self.forks += 1;
        self.fork_depth += 1;
        if self.fork_depth > 1500 {
            return Err("a loop or recursion is controlled by an undetermined value".into());
        }
        let depth = self.ctx.len();
        let mut arms: Vec<(T, HashMap<u32, Option<Rc<Alloc>>>, HashMap<u32, Option<Rc<Alloc>>>)> = vec![];
        let mut exit = None;
        for i in 0..conds.len() {
            for (j, c) in conds.iter().enumerate() {
                if j != i && conds.len() > 2 {
                    self.assume(*c, false);
                }
            }
            self.assume(conds[i], true);
            self.journal.push(HashMap::new());
            let r = run(self, i);
            self.ctx.truncate(depth);
            let j = self.journal.pop().unwrap();
            let mut new = HashMap::new();
            for (id, old) in &j {
                new.insert(*id, self.mem[*id as usize].clone());
                self.mem[*id as usize] = old.clone();
            }
            match r? {
                Exit::Diverged => {}
                e => {
                    arms.push((conds[i], j, new));
                    exit = Some(e);
                }
            }
        }
        self.fork_depth -= 1;
        if arms.is_empty() {
            return Ok(Exit::Diverged);
        }
        let mut ids: Vec<u32> = arms.iter().flat_map(|a| a.1.keys().copied()).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            let old = self.mem[id as usize].clone();
            let mut cur: Option<Option<Rc<Alloc>>> = None;
            for (c, j, new) in arms.iter().rev() {
                let here = if j.contains_key(&id) { new[&id].clone() } else { old.clone() };
                cur = Some(match cur {
                    None => here,
                    Some(rest) => match (here, rest) {
                        (None, r) => r,
                        (h, None) => h,
                        (Some(h), Some(r)) => {
                            if Rc::ptr_eq(&h, &r) || *h == *r {
                                Some(h)
                            } else {
                                let m = self.join_alloc(*c, &h, &r);
                                Some(Rc::new(m))
                            }
                        }
                    },
                });
            }
            self.touch(id);
            self.mem[id as usize] = cur.unwrap();
        }
        if arms.len() == 1 {
            // the other alternatives do not return
            let c = arms[0].0;
            self.assume(c, true);
        }
        Ok(exit.unwrap())
    }

    // ---------------------------------------------------------------- statements
    fn stmt(&mut self, s: &LStmt) -> R<()> {
        match s {
            LStmt::Assign(p, r) => {
                let o = self.rvalue(r)?;
                if let Rv::Agg { set: Some((e, v)), parts, size } = r {
                    let _ = size;
                    if e.opaque {
                        // FpVar::Constant(value) / FpVar::Var(allocated)
                        let o = match (parts.first(), e.name.ends_with("::FpVar")) {
                            (Some((off, sz, _)), true) => crate::models::fv_construct(self, &o.part(*off, *sz), *v, p.size)?,
                            // ConstraintSystemRef::None
                            (None, false) if e.name.ends_with("::ConstraintSystemRef") => Obj::S(V::Opq(0), p.size as u32),
                            _ => return Err("construction of an opaque library value".into()),
                        };
                        return self.assign(p, o);
                    }
                    let o = self.with_discr(o, e, *v, p.size)?;
                    return self.assign(p, o);
                }
                self.assign(p, o)
            }
            LStmt::SetDiscr(p, e, v) => {
                let l = self.place(p)?;
                let o = self.read_mem(l.id, l.off, p.size)?;
                let o = self.with_discr(o, e, *v, p.size)?;
                self.write_mem(l.id, l.off, p.size, &o)
            }
            LStmt::CopyNo { src, dst, n, stride } => {
                let (s, _) = self.op(src)?;
                let (d, _) = self.op(dst)?;
                let n = match self.op_scalar(n, 8)? {
                    V::Int(n) => n as u64,
                    v => return Err(format!("copy of {v:?} elements")),
                };
                let o = self.load(&s, n * stride)?;
                self.store(&d, n * stride, &o)
            }
            LStmt::Bad(e) => Err(e.clone()),
        }
    }
    pub fn with_discr(&mut self, o: Obj, e: &EnumInfo, v: usize, size: u64) -> R<Obj> {
        let mut a = Alloc::new(size.max(1), 1);
        a.write(0, size, &o);
        match &e.enc {
            Enc::Single(_) | Enc::None => {}
            Enc::Direct { tag_off, tag_size, discr } => {
                a.write(*tag_off, *tag_size as u64, &Obj::int(discr[v] & mask(*tag_size), *tag_size));
            }
            Enc::Niche { tag_off, tag_size, untagged, start, niche_start, .. } => {
                if v != *untagged {
                    let t = (niche_start.wrapping_add((v - start) as u128)) & mask(*tag_size);
                    a.write(*tag_off, *tag_size as u64, &Obj::int(t, *tag_size));
                }
            }
        }
        Ok(a.read(0, size))
    }
    pub fn discr(&mut self, o: &Obj, e: &EnumInfo) -> R<V> {
        if e.opaque {
            return match crate::models::fv_of(o) {
                Ok((f, k)) => Ok(match crate::models::fv_is_constant(f, k) {
                    T::C(c) => V::Int(1 - c),
                    t => val::to_v(val::not(t)),
                }),
                Err(_) => Err("inspection of an opaque library value".into()),
            };
        }
        match &e.enc {
            Enc::None => Err("discriminant of an uninhabited type".into()),
            Enc::Single(d) => Ok(V::Int(*d & mask(e.discr_size))),
            Enc::Direct { tag_off, tag_size, discr } => {
                let t = scalar(&o.part(*tag_off, *tag_size as u64), *tag_size).ok_or("read of an uninitialised discriminant")?;
                match t {
                    V::Int(c) => {
                        let d = discr.iter().find(|d| (**d & mask(*tag_size)) == c).copied().ok_or("invalid discriminant")?;
                        Ok(V::Int(d & mask(e.discr_size)))
                    }
                    V::Sym(s) => Ok(V::Sym(s)),
                    v => Err(format!("discriminant is {v:?}")),
                }
            }
            Enc::Niche { tag_off, tag_size, untagged, start, end, niche_start, discr } => {
                let t = scalar(&o.part(*tag_off, *tag_size as u64), *tag_size);
                let un = discr[*untagged] & mask(e.discr_size);
                let nv = |k: usize| niche_start.wrapping_add((k - start) as u128) & mask(*tag_size);
                match t {
                    Some(V::Int(c)) => {
                        for k in *start..=*end {
                            if k != *untagged && nv(k) == c {
                                return Ok(V::Int(discr[k] & mask(e.discr_size)));
                            }
                        }
                        Ok(V::Int(un))
                    }
                    Some(V::Sym(s)) => {
                        let mut r = T::C(un);
                        for k in *start..=*end {
                            if k != *untagged {
                                if let T::T(c) = self.eq_term(*tag_size, T::T(s), T::C(nv(k))) {
                                    r = val::ite(c, T::C(discr[k] & mask(e.discr_size)), r);
                                }
                            }
                        }
                        Ok(val::to_v(r))
                    }
                    Some(V::Ptr(..)) | Some(V::Fn(_)) | Some(V::Vt(_)) | Some(V::Fe(_)) | Some(V::Fv(..)) | Some(V::Opq(_)) => Ok(V::Int(un)),
                    Some(V::Top) => Err("discriminant is unknown".into()),
                    None => Err("read of an uninitialised niche".into()),
                }
            }
        }
    }
    fn rvalue(&mut self, r: &Rv) -> R<Obj> {
        Ok(match r {
            Rv::Use(o) => self.op(o)?.0,
            Rv::Ref(p) => {
                let l = self.place(p)?;
                let a = Self::addr(&l);
                if p.uns {
                    Obj::pair(a, l.meta.ok_or("reference to unsized data without metadata")?)
                } else {
                    Obj::S(a, 8)
                }
            }
            Rv::Bin { op, a, b, size, signed, bsize, stride } => {
                let (x, _) = self.op(a)?;
                let (y, _) = self.op(b)?;
                let s = *size;
                if s == 16 && matches!(x, Obj::M(_)) && scalar(&x, 16).is_none() {
                    // fat pointers: compare component-wise
                    let (x0, y0) = (x.part(0, 8), y.part(0, 8));
                    let (x1, y1) = (x.part(8, 8), y.part(8, 8));
                    let e = x0 == y0 && x1 == y1;
                    return match op {
                        BinOp::Eq => Ok(Obj::int(e as u128, 1)),
                        BinOp::Ne => Ok(Obj::int(!e as u128, 1)),
                        _ => Err("comparison of wide pointers".into()),
                    };
                }
                if s == 0 {
                    return match op {
                        BinOp::Eq | BinOp::Le | BinOp::Ge => Ok(Obj::int(1, 1)),
                        _ => Ok(Obj::int(0, 1)),
                    };
                }
                let xv = scalar(&x, s).ok_or("operand is uninitialised")?;
                let yv = scalar(&y, *bsize).ok_or("operand is uninitialised")?;
                let (v, rs) = self.bin(op, xv, yv, s, *signed, *bsize, *stride)?;
                Obj::S(v, rs)
            }
            Rv::Checked { op, a, b, size, signed, ovf_off } => {
                let x = self.op_scalar(a, *size)?;
                let y = self.op_scalar(b, *size)?;
                let (v, o) = self.checked(op, x, y, *size, *signed)?;
                Obj::M(vec![
                    Slot { off: 0, size: *size, v },
                    Slot { off: *ovf_off, size: 1, v: o },
                ])
            }
            Rv::Not(a, s, b) => {
                let v = self.op_scalar(a, *s)?;
                match v {
                    V::Int(c) => Obj::int(if *b { 1 - (c & 1) } else { !c & mask(*s) }, *s),
                    V::Sym(t) => {
                        if *b {
                            Obj::S(val::to_v(val::not(T::T(t))), *s)
                        } else {
                            Obj::S(V::Sym(val::term(Term::Un("Not", 8 * s, t))), *s)
                        }
                    }
                    v => return Err(format!("negation of {v:?}")),
                }
            }
            Rv::Neg(a, s) => match self.op_scalar(a, *s)? {
                V::Int(c) => Obj::int((!c).wrapping_add(1) & mask(*s), *s),
                V::Sym(t) => Obj::S(V::Sym(val::term(Term::Un("Neg", 8 * s, t))), *s),
                v => return Err(format!("negation of {v:?}")),
            },
            Rv::NegF(a, s) => match self.op_scalar(a, *s)? {
                V::Int(c) => Obj::int(c ^ (1u128 << (8 * s - 1)), *s),
                V::Sym(t) => Obj::S(V::Sym(val::term(Term::Un("NegF", 8 * s, t))), *s),
                v => return Err(format!("negation of {v:?}")),
            },
            Rv::PtrMeta(a) => {
                let (o, _) = self.op(a)?;
                match &o {
                    Obj::M(_) => o.part(8, 8),
                    _ => Obj::Z,
                }
            }
            Rv::IntCast { a, from, signed, to } => {
                let v = self.op_scalar(a, *from)?;
                Obj::S(int_cast(v, *from, *signed, *to)?, *to)
            }
            Rv::FloatOp { name, a, from, signed, to } => {
                let v = self.op_scalar(a, *from)?;
                match (*name, v) {
                    ("IntToFloat", V::Int(c)) => {
                        let x = if *signed { sext(c, *from) as f64 } else { c as f64 };
                        match to {
                            8 => Obj::int(x.to_bits() as u128, 8),
                            4 => Obj::int(if *signed { sext(c, *from) as f32 } else { c as f32 }.to_bits() as u128, 4),
                            _ => return Err("float width".into()),
                        }
                    }
                    ("FloatToFloat", V::Int(c)) => match (from, to) {
                        (4, 8) => Obj::int((f32::from_bits(c as u32) as f64).to_bits() as u128, 8),
                        (8, 4) => Obj::int((f64::from_bits(c as u64) as f32).to_bits() as u128, 4),
                        _ => return Err("float width".into()),
                    },
                    (n, V::Sym(t)) => {
                        let nm: &'static str = match (n, *from, *signed, *to) {
                            ("IntToFloat", f, false, 8) if f <= 4 => "exact_f64_of_unsigned",
                            ("IntToFloat", _, false, 8) => "rounded_f64_of_unsigned",
                            ("IntToFloat", f, true, 8) if f <= 4 => "exact_f64_of_signed",
                            ("IntToFloat", _, true, 8) => "rounded_f64_of_signed",
                            ("IntToFloat", _, _, 4) => "f32_of_int",
                            ("FloatToInt", _, _, _) => "int_of_float",
                            ("FloatToFloat", 4, _, 8) => "f64_of_f32",
                            _ => "float_cast",
                        };
                        Obj::S(V::Sym(val::term(Term::Un(nm, 8 * to, t))), *to)
                    }
                    (n, v) => return Err(format!("{n} of {v:?}")),
                }
            }
            Rv::Bytes { a, to, .. } => {
                let (o, s) = self.op(a)?;
                if *to == s {
                    o
                } else {
                    o.part(0, (*to).min(s))
                }
            }
            Rv::Unsize { a, meta, size } => {
                let (o, _) = self.op(a)?;
                let mut sl = o.slots();
                let off = 8;
                if *size < 16 {
                    return Err("unsizing coercion of a thin value".into());
                }
                if sl.len() != 1 || sl[0].off != 0 {
                    return Err("unsizing coercion of a compound value".into());
                }
                sl.push(Slot { off, size: 8, v: *meta });
                Obj::M(sl)
            }
            Rv::ToFn(i) => Obj::S(V::Fn(*i), 8),
            Rv::Discr(p, e, s) => {
                let l = self.place(p)?;
                let o = self.read_mem(l.id, l.off, p.size)?;
                let v = self.discr(&o, e)?;
                match v {
                    V::Int(c) => Obj::int(c & mask(*s), *s),
                    v => Obj::S(v, *s),
                }
            }
            Rv::Agg { parts, size, .. } => {
                let mut a = Alloc::new((*size).max(1), 1);
                for (off, sz, o) in parts {
                    let (v, _) = self.op(o)?;
                    a.write(*off, *sz, &v);
                }
                if parts.len() == 1 && parts[0].0 == 0 && parts[0].1 == *size {
                    a.read(0, *size)
                } else {
                    Obj::from_slots(a.slots)
                }
            }
            Rv::RawPtr(a, b, fat) => {
                let (p, _) = self.op(a)?;
                let p = p.part(0, 8);
                if *fat {
                    let (m, ms) = self.op(b)?;
                    let v = scalar(&p, 8).ok_or("uninitialised pointer")?;
                    let m = scalar(&m, ms as u32).ok_or("uninitialised metadata")?;
                    Obj::pair(v, m)
                } else {
                    p
                }
            }
            Rv::Repeat { a, n, stride } => {
                let (o, _) = self.op(a)?;
                if *stride == 0 {
                    Obj::Z
                } else {
                    let base = o.slots();
                    let mut v = Vec::with_capacity(base.len() * *n as usize);
                    for i in 0..*n {
                        for s in &base {
                            v.push(Slot { off: s.off + i * stride, ..*s });
                        }
                    }
                    Obj::from_slots(v)
                }
            }
            Rv::LenC(n) => Obj::int(*n as u128, 8),
            Rv::LenMeta(p) => {
                let l = self.place(p)?;
                Obj::S(l.meta.ok_or("length of unknown slice")?, 8)
            }
            Rv::Bad(e) => return Err(e.clone()),
        })
    }

    pub fn eq_term(&self, size: u32, a: T, b: T) -> T {
        if a == b {
            return T::C(1);
        }
        match (a, b) {
            (T::C(x), T::C(y)) => T::C((x == y) as u128),
            (T::C(_), T::T(_)) => self.eq_term(size, b, a),
            (T::T(t), T::C(c)) => {
                if val::is_bool(t) {
                    return match c {
                        1 => a,
                        0 => val::not(a),
                        _ => T::C(0),
                    };
                }
                match &*val::get(t) {
                    Term::Ite(g, x, y) => {
                        let (p, q) = (self.eq_term(size, *x, b), self.eq_term(size, *y, b));
                        val::ite(*g, p, q)
                    }
                    Term::Cat(v) => {
                        let mut r = T::C(1);
                        for (k, x) in v.iter().enumerate() {
                            r = val::and(r, self.eq_term(1, *x, T::C((c >> (8 * k)) & 0xff)));
                        }
                        r
                    }
                    _ => T::T(val::term(Term::Bin("Eq", 8 * size, a, b))),
                }
            }
            (T::T(x), T::T(y)) => {
                if let (Term::FeBytes(f, 0, 32), Term::FeBytes(g, 0, 32)) = (&*val::get(x), &*val::get(y)) {
                    return val::zeros(&[form::sub(*f, *g)]);
                }
                let (lo, hi) = if x < y { (a, b) } else { (b, a) };
                T::T(val::term(Term::Bin("Eq", 8 * size, lo, hi)))
            }
        }
    }
    pub fn bin(&mut self, op: &BinOp, x: V, y: V, s: u32, signed: bool, bsize: u32, stride: u64) -> R<(V, u32)> {
        use BinOp::*;
        let m = mask(s);
        // pointers
        let ptrish = |v: &V| matches!(v, V::Ptr(..) | V::Fn(_) | V::Vt(_));
        if let Offset = op {
            return match (x, y) {
                (V::Ptr(i, o), V::Int(k)) => Ok((V::Ptr(i, o.wrapping_add((k as u64).wrapping_mul(stride))), 8)),
                (V::Int(a), V::Int(k)) => Ok((V::Int((a as u64).wrapping_add((k as u64).wrapping_mul(stride)) as u128), 8)),
                (_, V::Sym(t)) if val::field_dep(t) => {
                    self.event("DataIndex", format!("offset {}", val::show_term(t, 3)));
                    Err("memory offset depends on field data".into())
                }
                (a, b) => Err(format!("pointer offset of {a:?} by {b:?}")),
            };
        }
        if ptrish(&x) || ptrish(&y) {
            return match (op, x, y) {
                (Eq, _, _) => Ok((V::Int((x == y) as u128), 1)),
                (Ne, _, _) => Ok((V::Int((x != y) as u128), 1)),
                (Lt | Le | Gt | Ge, V::Ptr(i, a), V::Ptr(j, b)) if i == j => {
                    let r = match op {
                        Lt => a < b,
                        Le => a <= b,
                        Gt => a > b,
                        _ => a >= b,
                    };
                    Ok((V::Int(r as u128), 1))
                }
                (BitAnd, V::Ptr(i, a), V::Int(k)) if k < 4096 => {
                    let al = self.alloc_align(i)?;
                    if (k + 1).is_power_of_two() && al as u128 >= k + 1 {
                        Ok((V::Int(a as u128 & k), 8))
                    } else {
                        Err("alignment test of an allocation with unknown alignment".into())
                    }
                }
                (Add | AddUnchecked, V::Ptr(i, a), V::Int(k)) | (Add | AddUnchecked, V::Int(k), V::Ptr(i, a)) => {
                    Ok((V::Ptr(i, a.wrapping_add(k as u64)), 8))
                }
                (Sub | SubUnchecked, V::Ptr(i, a), V::Int(k)) => Ok((V::Ptr(i, a.wrapping_sub(k as u64)), 8)),
                (Sub | SubUnchecked, V::Ptr(i, a), V::Ptr(j, b)) if i == j => Ok((V::Int(a.wrapping_sub(b) as u128), 8)),
                (Lt | Le, V::Int(_), V::Ptr(..)) => Ok((V::Int(1), 1)),
                (Gt | Ge, V::Ptr(..), V::Int(k)) if k < 4096 => Ok((V::Int(1), 1)),
                _ => Err(format!("{op:?} on pointers {x:?} {y:?}")),
            };
        }
        if let (V::Int(a), V::Int(b)) = (x, y) {
            let (sa, sb) = (sext(a, s), sext(b, bsize));
            let sh = (b % (8 * s as u128)) as u32;
            let r = match op {
                Add | AddUnchecked => a.wrapping_add(b) & m,
                Sub | SubUnchecked => a.wrapping_sub(b) & m,
                Mul | MulUnchecked => a.wrapping_mul(b) & m,
                Div => {
                    if b == 0 {
                        return Err("division by zero".into());
                    }
                    if signed {
                        (sa.wrapping_div(sb) as u128) & m
                    } else {
                        a / b
                    }
                }
                Rem => {
                    if b == 0 {
                        return Err("division by zero".into());
                    }
                    if signed {
                        (sa.wrapping_rem(sb) as u128) & m
                    } else {
                        a % b
                    }
                }
                BitXor => a ^ b,
                BitAnd => a & b,
                BitOr => a | b,
                Shl | ShlUnchecked => (a << sh) & m,
                Shr | ShrUnchecked => {
                    if signed {
                        ((sa >> sh) as u128) & m
                    } else {
                        a >> sh
                    }
                }
                Eq => return Ok((V::Int((a == b) as u128), 1)),
                Ne => return Ok((V::Int((a != b) as u128), 1)),
                Lt => return Ok((V::Int(if signed { sa < sb } else { a < b } as u128), 1)),
                Le => return Ok((V::Int(if signed { sa <= sb } else { a <= b } as u128), 1)),
                Gt => return Ok((V::Int(if signed { sa > sb } else { a > b } as u128), 1)),
                Ge => return Ok((V::Int(if signed { sa >= sb } else { a >= b } as u128), 1)),
                Cmp => {
                    let o = if signed { sa.cmp(&sb) } else { a.cmp(&b) };
                    return Ok((V::Int((o as i8 as u8) as u128), 1));
                }
                Offset => unreachable!(),
            };
            return Ok((V::Int(r), s));
        }
        let (a, b) = match (val::of_v(x), val::of_v(y)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err(format!("{op:?} of {x:?} and {y:?}")),
        };
        let isb = |t: T| match t {
            T::C(c) => c <= 1,
            T::T(t) => val::is_bool(t),
        };
        let mk = |n: &'static str, a: T, b: T| V::Sym(val::term(Term::Bin(n, 8 * s, a, b)));
        Ok(match op {
            Eq => (val::to_v(self.eq_term(s, a, b)), 1),
            Ne => (val::to_v(val::not(self.eq_term(s, a, b))), 1),
            BitAnd if isb(a) && isb(b) => (val::to_v(val::and(a, b)), s),
            BitOr if isb(a) && isb(b) => (val::to_v(val::or(a, b)), s),
            BitXor if isb(a) && isb(b) => {
                let r = match (a, b) {
                    (T::C(0), x) | (x, T::C(0)) => x,
                    (T::C(_), x) | (x, T::C(_)) => val::not(x),
                    (T::T(g), y) => val::ite(g, val::not(y), y),
                };
                (val::to_v(r), s)
            }
            BitAnd => match (a, b) {
                (_, T::C(0)) | (T::C(0), _) => (V::Int(0), s),
                (T::T(t), T::C(c)) | (T::C(c), T::T(t)) => {
                    if c == m {
                        (V::Sym(t), s)
                    } else if c == 0xff {
                        let mut bs = val::bytes_of(V::Sym(t), s);
                        for x in bs.iter_mut().skip(1) {
                            *x = T::C(0);
                        }
                        (val::cat(&bs), s)
                    } else {
                        (mk("BitAnd", a, b), s)
                    }
                }
                _ => (mk("BitAnd", a, b), s),
            },
            Shr | ShrUnchecked if !signed => match (a, b) {
                (T::T(t), T::C(c)) if c % 8 == 0 && c < 8 * s as u128 => {
                    let bs = val::bytes_of(V::Sym(t), s);
                    let k = (c / 8) as usize;
                    let mut v: Vec<T> = bs[k..].to_vec();
                    v.resize(s as usize, T::C(0));
                    (val::cat(&v), s)
                }
                _ => (mk("Shr", a, b), s),
            },
            Shl | ShlUnchecked => match (a, b) {
                (T::T(t), T::C(c)) if c % 8 == 0 && c < 8 * s as u128 => {
                    let bs = val::bytes_of(V::Sym(t), s);
                    let k = (c / 8) as usize;
                    let mut v: Vec<T> = vec![T::C(0); k];
                    v.extend(&bs[..s as usize - k]);
                    (val::cat(&v), s)
                }
                _ => (mk("Shl", a, b), s),
            },
            BitOr => {
                // disjoint bytes
                let (p, q) = (val::bytes_of(x, s), val::bytes_of(y, s));
                if p.iter().zip(&q).all(|(u, v)| *u == T::C(0) || *v == T::C(0)) {
                    let r: Vec<T> = p.iter().zip(&q).map(|(u, v)| if *u == T::C(0) { *v } else { *u }).collect();
                    (val::cat(&r), s)
                } else {
                    (mk("BitOr", a, b), s)
                }
            }
            Add | AddUnchecked => {
                if b == T::C(0) {
                    (x, s)
                } else if a == T::C(0) {
                    (y, s)
                } else {
                    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
                    (mk("Add", lo, hi), s)
                }
            }
            Sub | SubUnchecked => {
                if b == T::C(0) {
                    (x, s)
                } else if a == b {
                    (V::Int(0), s)
                } else {
                    (mk("Sub", a, b), s)
                }
            }
            Mul | MulUnchecked => {
                let (lo, hi) = if a < b { (a, b) } else { (b, a) };
                if lo == T::C(0) {
                    (V::Int(0), s)
                } else if lo == T::C(1) {
                    (val::to_v(hi), s)
                } else {
                    (mk("Mul", lo, hi), s)
                }
            }
            Div => {
                if b == T::C(1) {
                    (x, s)
                } else {
                    (mk("Div", a, b), s)
                }
            }
            Rem => (mk("Rem", a, b), s),
            BitXor => (mk("BitXor", a, b), s),
            Shr | ShrUnchecked => (mk("Sar", a, b), s),
            Lt => (val::to_v(T::T(val::term(Term::Bin("Lt", 8 * s, a, b)))), 1),
            Le => (val::to_v(T::T(val::term(Term::Bin("Le", 8 * s, a, b)))), 1),
            Gt => (val::to_v(T::T(val::term(Term::Bin("Lt", 8 * s, b, a)))), 1),
            Ge => (val::to_v(T::T(val::term(Term::Bin("Le", 8 * s, b, a)))), 1),
            Cmp => (mk("Cmp", a, b), 1),
            Offset => unreachable!(),
        })
    }
    pub fn checked(&mut self, op: &BinOp, x: V, y: V, s: u32, signed: bool) -> R<(V, V)> {
        let (v, _) = self.bin(op, x, y, s, signed, s, 0)?;
        if let (V::Int(a), V::Int(b)) = (x, y) {
            let o = if signed {
                let (sa, sb) = (sext(a, s), sext(b, s));
                let r = match op {
                    BinOp::Add => sa.checked_add(sb),
                    BinOp::Sub => sa.checked_sub(sb),
                    BinOp::Mul => sa.checked_mul(sb),
                    _ => return Err("checked operation".into()),
                };
                match r {
                    None => true,
                    Some(r) => sext(r as u128 & mask(s), s) != r,
                }
            } else {
                let r = match op {
                    BinOp::Add => a.checked_add(b),
                    BinOp::Sub => a.checked_sub(b),
                    BinOp::Mul => a.checked_mul(b),
                    _ => return Err("checked operation".into()),
                };
                match r {
                    None => true,
                    Some(r) => r & mask(s) != r,
                }
            };
            return Ok((v, V::Int(o as u128)));
        }
        if let (V::Ptr(..), _) | (_, V::Ptr(..)) = (x, y) {
            return Ok((v, V::Int(0)));
        }
        if x == V::Int(0) && *op != BinOp::Sub || y == V::Int(0) {
            return Ok((v, V::Int(0)));
        }
        let (a, b) = (val::of_v(x).ok_or("operand")?, val::of_v(y).ok_or("operand")?);
        let n = match op {
            BinOp::Add => 0u128,
            BinOp::Sub => 1,
            _ => 2,
        };
        let inner = val::term(Term::Bin(["OAdd", "OSub", "OMul"][n as usize], 8 * s, a, b));
        Ok((v, V::Sym(val::term(Term::Bin("Ovf", 8 * s, T::T(inner), T::C(signed as u128))))))
    }
    fn alloc_align(&self, id: u32) -> R<u64> {
        if id != ABS && id & GLOBAL == 0 && self.mem[id as usize].is_none() {
            if let Some((b, l)) = self.local_owner(id) {
                return Ok(b.local_size(l)?.1);
            }
        }
        Ok(self.alloc(id)?.align)
    }

    // ---------------------------------------------------------------- control
    fn panic_text(&self, b: &LBody, mut blk: usize) -> String {
        for _ in 0..32 {
            let Ok(lb) = b.block(blk) else { break };
            match &lb.term {
                LTerm::Call { callee: Callee::Def(d), t, .. } => match t {
                    Some(n) => blk = *n,
                    None => return format!("call of {}", d.name),
                },
                LTerm::Goto(n) | LTerm::Drop { t: n, .. } => blk = *n,
                LTerm::Switch { other, .. } => blk = *other,
                LTerm::Unreachable => return "unreachable code".into(),
                LTerm::Assert { msg, .. } => return msg.to_string(),
                _ => break,
            }
        }
        "diverging code".into()
    }

    /// Execute the current frame from `start` until `stop` (exclusive) or the return.
    fn region(&mut self, start: usize, stop: Option<usize>) -> R<Exit> {
        let body = self.frames.last().unwrap().body.clone();
        let mut b = start;
        loop {
            if Some(b) == stop {
                return Ok(Exit::Reached);
            }
            self.frames.last_mut().unwrap().block = b;
            if !body.can_return[b] {
                let t = self.panic_text(&body, b);
                if t == "unreachable code" {
                    // the compiler states that this point is never reached
                    let feasible = self.ctx.is_empty();
                    if feasible {
                        return Err("entered unreachable code".into());
                    }
                    return Ok(Exit::Diverged);
                }
                self.event("Panic", t);
                return Ok(Exit::Diverged);
            }
            let lb = body.block(b)?;
            self.steps += lb.stmts.len() as u64 + 1;
            if self.steps > self.step_limit {
                return Err("step budget exhausted".into());
            }
            for s in &lb.stmts {
                self.stmt(s)?;
            }
            match &lb.term {
                LTerm::Goto(n) => b = *n,
                LTerm::Return => return Ok(Exit::Returned),
                LTerm::Unreachable => {
                    if self.ctx.is_empty() {
                        return Err("entered unreachable code".into());
                    }
                    return Ok(Exit::Diverged);
                }
                LTerm::Bad(e) => return Err(e.clone()),
                LTerm::Drop { place, inst, t } => {
                    if let Some(i) = inst {
                        let l = self.place(place)?;
                        let p = match l.meta {
                            Some(m) if place.uns => Obj::pair(Self::addr(&l), m),
                            _ => Obj::S(Self::addr(&l), 8),
                        };
                        let i = *i;
                        match self.call_instance(i, vec![p], None)? {
                            Some(_) => {}
                            None => return Ok(Exit::Diverged),
                        }
                    }
                    b = *t;
                }
                LTerm::Assert { c, expected, msg, t } => {
                    let v = self.op_scalar(c, 1)?;
                    let t0 = val::of_v(v).ok_or_else(|| format!("assertion on {v:?}"))?;
                    let good = if *expected { t0 } else { val::not(t0) };
                    match self.truth(good) {
                        Some(true) => {}
                        Some(false) => {
                            self.event("Panic", msg.to_string());
                            return Ok(Exit::Diverged);
                        }
                        None => {
                            self.data_branch(good);
                            let d = self.ctx.len();
                            self.assume(good, false);
                            self.event("Panic", msg.to_string());
                            self.ctx.truncate(d);
                            self.assume(good, true);
                        }
                    }
                    b = *t;
                }
                LTerm::Switch { d, size, br, other } => {
                    let v = self.op_scalar(d, *size)?;
                    match v {
                        V::Int(c) => {
                            b = br.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*other);
                        }
                        V::Sym(_) => {
                            let t = val::of_v(v).unwrap();
                            let mut conds: Vec<T> = vec![];
                            let mut tg: Vec<usize> = vec![];
                            let mut rest = T::C(1);
                            let mut decided = None;
                            for (c, n) in br {
                                let e = self.eq_term(*size, t, T::C(*c));
                                match self.truth(e) {
                                    Some(true) => {
                                        decided = Some(*n);
                                        break;
                                    }
                                    Some(false) => continue,
                                    None => {}
                                }
                                conds.push(e);
                                tg.push(*n);
                                rest = val::and(rest, val::not(e));
                            }
                            if let Some(n) = decided {
                                b = n;
                                continue;
                            }
                            let other_dead = matches!(&body.block(*other)?.term, LTerm::Unreachable) && body.block(*other)?.stmts.is_empty();
                            let o = if other_dead { Some(false) } else { self.truth(rest) };
                            if o == Some(false) {
                                // last listed branch is the complement of the others
                                if conds.len() == 1 {
                                    b = tg[0];
                                    continue;
                                }
                            } else if conds.is_empty() {
                                b = *other;
                                continue;
                            } else {
                                conds.push(rest);
                                tg.push(*other);
                            }
                            for c in &conds {
                                self.data_branch(*c);
                            }
                            let j = body.ipdoms()[b];
                            // the join point must not lie beyond the current region
                            let j = match (j, stop) {
                                (None, Some(s)) => {
                                    let _ = s;
                                    None
                                }
                                (j, _) => j,
                            };
                            let tg2 = tg.clone();
                            let e = self.fork(&conds, &mut |it, i| it.region(tg2[i], j))?;
                            match e {
                                Exit::Diverged => return Ok(Exit::Diverged),
                                Exit::Returned => return Ok(Exit::Returned),
                                Exit::Reached => b = j.unwrap(),
                            }
                        }
                        v => return Err(format!("branch on {v:?}")),
                    }
                }
                LTerm::Call { callee, args, dest, t, rust_call, last_tuple } => {
                    self.calls += 1;
                    self.call_sites.insert((Rc::as_ptr(&body) as usize, b));
                    let mut av = Vec::with_capacity(args.len());
                    for a in args {
                        av.push(self.op(a)?.0);
                    }
                    let dl = self.place(dest)?;
                    let r = match callee {
                        Callee::Def(d) => {
                            let d = d.clone();
                            self.call_def(&d, av, *rust_call, last_tuple)?
                        }
                        Callee::Ptr(o) => {
                            let (p, _) = self.op(o)?;
                            match scalar(&p, 8) {
                                Some(V::Fn(i)) => {
                                    let inst = G.with(|g| g.borrow().fns[i as usize]);
                                    self.call_instance(inst, av, None)?
                                }
                                v => return Err(format!("indirect call of {v:?}")),
                            }
                        }
                    };
                    match (r, t) {
                        (Some(o), Some(n)) => {
                            self.write_mem(dl.id, dl.off, dest.size, &o)?;
                            b = *n;
                        }
                        _ => return Ok(Exit::Diverged),
                    }
                }
            }
        }
    }
    pub fn data_branch(&mut self, c: T) {
        if let T::T(t) = c {
            if val::field_dep(t) {
                let mut t = t;
                if let Term::Not(u) = &*val::get(t) {
                    t = *u;
                }
                self.event("DataBranch", format!("branch on {}", val::show_term(t, 3)));
            }
        }
    }

    pub fn call_def(&mut self, d: &CallDef, args: Vec<Obj>, rust_call: bool, last_tuple: &[(u64, u64)]) -> R<Option<Obj>> {
        match crate::models::call(self, d, &args)? {
            MRes::Val(o) => return Ok(Some(o)),
            MRes::Diverge => return Ok(None),
            MRes::No => {}
        }
        let inst = d.inst.clone().map_err(|e| format!("unresolved call {}: {e}", d.name))?;
        let args = if rust_call {
            let mut a = args;
            if let Some(t) = a.pop() {
                for (off, sz) in last_tuple {
                    a.push(t.part(*off, *sz));
                }
            }
            a
        } else {
            args
        };
        match inst.kind {
            InstanceKind::Virtual { .. } => {
                // the concrete type travels with the pointer
                let vt = args.first().and_then(|a| scalar(&a.part(8, 8), 8));
                let c = match vt {
                    Some(V::Vt(k)) => G.with(|g| g.borrow().vts[k as usize]),
                    _ => return Err(format!("dynamic dispatch to {}", d.name)),
                };
                let mut g = d.args.clone();
                match g.0.first_mut() {
                    Some(x @ GenericArgKind::Type(_)) => *x = GenericArgKind::Type(c),
                    _ => return Err(format!("dynamic dispatch to {}", d.name)),
                }
                let target = Instance::resolve(d.def, &g).map_err(|e| format!("dynamic dispatch to {}: {e:?}", d.name))?;
                let mut args = args;
                args[0] = args[0].part(0, 8);
                self.call_instance(target, args, None)
            }
            InstanceKind::Intrinsic => Err(format!("intrinsic {} is not modelled", d.name)),
            _ => self.call_instance(inst, args, Some(d)),
        }
    }

    /// Call with untupled arguments.
    pub fn call_instance(&mut self, inst: Instance, args: Vec<Obj>, d: Option<&CallDef>) -> R<Option<Obj>> {
        if inst.is_empty_shim() {
            return Ok(Some(Obj::Z));
        }
        if d.is_none() {
            // reached through a pointer or a drop: models apply here too
            if let Some(cd) = crate::models::calldef_of(inst) {
                match crate::models::call(self, &cd, &args)? {
                    MRes::Val(o) => return Ok(Some(o)),
                    MRes::Diverge => return Ok(None),
                    MRes::No => {}
                }
            }
        }
        let body = match body_of(inst) {
            Ok(b) => b,
            Err(e) => {
                if let Some(o) = crate::models::constructor(self, inst, &args)? {
                    return Ok(Some(o));
                }
                return Err(format!("{e} (called from {})", self.stack()));
            }
        };
        if self.frames.len() > 300 {
            return Err("recursion too deep".into());
        }
        *self.visited.entry(body.name.to_string()).or_insert(0) += 1;
        if crate::is_workspace(&body.krate) && !self.ws.contains_key(&*body.name) {
            let sp = body.body.span;
            self.ws.insert(body.name.to_string(), format!("{}:{}", sp.get_filename(), sp.get_lines().start_line));
        }
        let n = body.local_tys.len();
        let base = self.reserve(n);
        let argc = body.argc;
        self.frames.push(Frame { body: body.clone(), base, block: 0 });
        let mut it = args.into_iter();
        for k in 1..=argc {
            let (sz, _) = body.local_size(k)?;
            if body.spread == Some(k) {
                let t = body.local_tys[k];
                let mut a = Alloc::new(sz.max(1), 1);
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                    for (i, x) in ts.iter().enumerate() {
                        let o = it.next().ok_or("too few arguments")?;
                        a.write(field_off(t, None, i)?, ti(*x)?.size, &o);
                    }
                }
                self.write_mem(base + k as u32, 0, sz, &Obj::from_slots(a.slots))?;
            } else {
                let o = it.next().ok_or_else(|| format!("too few arguments for {}", body.name))?;
                self.write_mem(base + k as u32, 0, sz, &o)?;
            }
        }
        let r = self.region(0, None);
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let e = if e.contains(" @ ") { e } else { format!("{e} @ {}", self.stack()) };
                self.frames.pop();
                return Err(e);
            }
        };
        let out = match r {
            Exit::Returned | Exit::Reached => {
                let (sz, _) = body.local_size(0)?;
                Some(self.read_mem(base, 0, sz)?)
            }
            Exit::Diverged => None,
        };
        self.frames.pop();
        for l in base..base + n as u32 {
            if self.mem[l as usize].is_some() {
                self.touch(l);
                self.mem[l as usize] = None;
            }
        }
        if self.journal.is_empty() && self.mem.len() == (base as usize) + n {
            // no allocation outlives the call: reuse of ids is impossible to observe
            self.mem.truncate(base as usize);
        }
        Ok(out)
    }
}

impl Interp {
    pub fn zext(&self, v: V, from: u32, to: u32) -> R<V> {
        int_cast(v, from, false, to)
    }
    pub fn int_to_float(&self, v: V, from: u32, to: u32) -> R<V> {
        match v {
            V::Sym(t) if from <= 4 && to == 8 => Ok(V::Sym(val::term(Term::Un("exact_f64_of_unsigned", 64, t)))),
            v => Err(format!("float of {v:?}")),
        }
    }
}
/// Value of `f` on the set where all of `z` vanish (syntactic substitution).
pub fn subst_zero(f: Form, z: &[Form]) -> Form {
    use crate::form::Atom;
    // only the conditions connected to `f` through shared atoms can change it
    let mut live = (*form::atoms_of(f)).clone();
    let mut rest: Vec<Form> = z.to_vec();
    let mut near: Vec<Form> = vec![];
    loop {
        let (hit, miss): (Vec<Form>, Vec<Form>) = rest.into_iter().partition(|g| form::atoms_of(*g).iter().any(|a| live.contains(a)));
        rest = miss;
        if hit.is_empty() {
            break;
        }
        for g in &hit {
            live.extend(form::atoms_of(*g).iter());
        }
        near.extend(hit);
    }
    if near.is_empty() {
        return f;
    }
    near.sort_by_key(|g| z.iter().position(|h| h == g));
    let z = &near[..];
    // solve single-atom conditions by substitution, others by recognising the factor
    let mut singles: Vec<form::AtomId> = vec![];
    for &g in z {
        let p = form::poly(g);
        if p.len() == 1 {
            let m = form::mono(p[0].0);
            if m.len() == 1 {
                singles.push(m[0].0);
            }
        }
    }
    // linear elimination: g = a + rest  =>  a := -rest, for the last atom occurring linearly and alone
    let mut elim: HashMap<form::AtomId, Form> = HashMap::new();
    // conditions without such an atom are used to remove one of their terms
    let mut linear: Vec<(form::MonoId, Form)> = vec![];
    for &g in z {
        let p = form::poly(g);
        if p.len() < 2 {
            continue;
        }
        let mut cand = None;
        for &(m, c) in p.iter() {
            let mm = form::mono(m);
            if mm.len() == 1 && mm[0].1 == 1 && matches!(form::atom_of(mm[0].0), Atom::Var(_) | Atom::Free(_)) {
                let a = mm[0].0;
                let others = p.iter().any(|&(m2, _)| m2 != m && form::mono(m2).iter().any(|t| t.0 == a));
                if !others && !elim.contains_key(&a) && !singles.contains(&a) {
                    cand = Some((a, c));
                }
            }
        }
        if cand.is_none() {
            // the newest term, which mentions no newer one
            linear.push((p[p.len() - 1].0, g));
        }
        if let Some((a, c)) = cand {
            // a = -(g - c a)/c
            let fa = {
                let at = form::atom_of(a);
                form::atom(at)
            };
            let rest = form::sub(g, form::scale(fa, c));
            elim.insert(a, form::neg(form::scale(rest, c.inv0())));
        }
    }
    struct S<'a> {
        z: &'a [Form],
        singles: Vec<form::AtomId>,
        elim: HashMap<form::AtomId, Form>,
        linear: Vec<(form::MonoId, Form)>,
        memo: HashMap<Form, Form>,
    }
    fn go(f: Form, s: &mut S, d: usize) -> Form {
        if let Some(r) = s.memo.get(&f) {
            return *r;
        }
        if d == 0 {
            return f;
        }
        let mut f0 = f;
        for (m, g) in &s.linear {
            if let Some(&(_, c)) = form::poly(f0).iter().find(|t| t.0 == *m) {
                f0 = form::sub(f0, form::scale(*g, c.mul(form::poly(*g).last().unwrap().1.inv0())));
            }
        }
        let r = form::subst_with(
            f0,
            &mut |id, at| {
                if s.singles.contains(&id) {
                    return Some(form::zero());
                }
                if let Some(e) = s.elim.get(&id) {
                    return Some(*e);
                }
                match at {
                    form::Atom::Fac(g) | form::Atom::Inv(g) if s.z.contains(g) => Some(form::zero()),
                    form::Atom::Fac(g) => {
                        let h = go(*g, s, d - 1);
                        (h != *g).then_some(h)
                    }
                    form::Atom::Inv(g) => {
                        let h = go(*g, s, d - 1);
                        (h != *g).then(|| form::inv0(h))
                    }
                    form::Atom::Ite(c, x, y) => {
                        let (p, q) = (go(*x, s, d - 1), go(*y, s, d - 1));
                        (p != *x || q != *y).then(|| if p == q { p } else { form::atom(Atom::Ite(*c, p, q)) })
                    }
                    _ => None,
                }
            },
            false,
        );
        s.memo.insert(f, r);
        r
    }
    let mut s = S { z, singles, elim, linear, memo: HashMap::new() };
    go(f, &mut s, 4000)
}

pub fn join_fe(g: TermId, a: Form, b: Form) -> Form {
    if a == b {
        return a;
    }
    match &*val::get(g) {
        Term::Not(h) => return join_fe(*h, b, a),
        Term::Zeros(z) => {
            // on the guard a == b[z:=0]: then b is right everywhere
            let (x, y) = (subst_zero(a, z), subst_zero(b, z));
            if x == y {
                return b;
            }
        }
        _ => {}
    }
    // constant-time selections written as arithmetic are left to the polynomial domain
    form::atom(form::Atom::Ite(g, a, b))
}

pub fn sext(c: u128, s: u32) -> i128 {
    if s >= 16 {
        return c as i128;
    }
    let sh = 128 - 8 * s;
    ((c << sh) as i128) >> sh
}
pub fn int_cast(v: V, from: u32, signed: bool, to: u32) -> R<V> {
    Ok(match v {
        V::Int(c) => V::Int(if signed { sext(c, from) as u128 } else { c } & mask(to)),
        V::Sym(t) => {
            if from == to || val::is_bool(t) {
                V::Sym(t)
            } else {
                if let Term::Ite(g, a, b) = &*val::get(t) {
                    let (x, y) = (int_cast(val::to_v(*a), from, signed, to)?, int_cast(val::to_v(*b), from, signed, to)?);
                    if let (Some(x), Some(y)) = (val::of_v(x), val::of_v(y)) {
                        return Ok(val::to_v(val::ite(*g, x, y)));
                    }
                }
                let mut b = val::bytes_of(v, from);
                if to < from {
                    b.truncate(to as usize);
                    val::cat(&b)
                } else if signed {
                    V::Sym(val::term(Term::Un("Sext", 8 * to, t)))
                } else {
                    b.resize(to as usize, T::C(0));
                    val::cat(&b)
                }
            }
        }
        V::Ptr(..) | V::Fn(_) if to == 8 => v,
        v => return Err(format!("integer cast of {v:?}")),
    })
}
