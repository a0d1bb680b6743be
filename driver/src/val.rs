//! Abstract values, symbolic integer terms, and byte-addressed abstract memory.
use crate::form::{self, Form, TermId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Const,
    Var,
    Any,
}

/// One abstract scalar (or opaque library value) held in memory.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Int(u128),
    Ptr(u32, u64),
    Fn(u32),
    Vt(u32),
    /// field element
    Fe(Form),
    /// circuit variable of the r1cs library: value and allocation kind
    Fv(Form, Kind),
    /// opaque library handle (constraint system reference, ...)
    Opq(u32),
    /// symbolic integer / bool / float bits
    Sym(TermId),
    Top,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Var(String, u32),
    /// all of these (monic) forms are zero
    Zeros(Vec<Form>),
    Not(TermId),
    And(Vec<TermId>),
    Bin(&'static str, u32, T, T),
    Un(&'static str, u32, TermId),
    /// byte k of a term
    Byte(TermId, u32),
    /// little-endian concatenation of single bytes
    Cat(Vec<T>),
    Ite(TermId, T, T),
    /// bytes [off, off+len) of the stored representation of a field element
    FeBytes(Form, u32, u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T {
    C(u128),
    T(TermId),
}

#[derive(Default)]
pub struct Terms {
    v: Vec<Rc<Term>>,
    ix: HashMap<Rc<Term>, TermId>,
}
thread_local!(pub static TS: RefCell<Terms> = RefCell::new(Terms::default()));

pub fn reset() {
    TS.with(|s| *s.borrow_mut() = Terms::default())
}
pub fn term(t: Term) -> TermId {
    TS.with(|s| {
        let mut s = s.borrow_mut();
        let t = Rc::new(t);
        if let Some(&i) = s.ix.get(&t) {
            return i;
        }
        let i = TermId(s.v.len() as u32);
        s.v.push(t.clone());
        s.ix.insert(t, i);
        i
    })
}
pub fn get(t: TermId) -> Rc<Term> {
    TS.with(|s| s.borrow().v[t.0 as usize].clone())
}
pub fn is_bool(t: TermId) -> bool {
    match &*get(t) {
        Term::Zeros(_) | Term::Not(_) | Term::And(_) => true,
        Term::Bin(op, ..) => matches!(*op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Ovf"),
        Term::Var(_, b) => *b == 1,
        Term::Ite(_, a, b) => {
            let ok = |x: &T| match x {
                T::C(c) => *c <= 1,
                T::T(t) => is_bool(*t),
            };
            ok(a) && ok(b)
        }
        _ => false,
    }
}
pub fn not(t: T) -> T {
    match t {
        T::C(c) => T::C(1 - (c & 1)),
        T::T(t) => match &*get(t) {
            Term::Not(u) => T::T(*u),
            Term::Bin("Eq", b, x, y) => T::T(term(Term::Bin("Ne", *b, *x, *y))),
            Term::Bin("Ne", b, x, y) => T::T(term(Term::Bin("Eq", *b, *x, *y))),
            _ => T::T(term(Term::Not(t))),
        },
    }
}
pub fn and(a: T, b: T) -> T {
    match (a, b) {
        (T::C(0), _) | (_, T::C(0)) => T::C(0),
        (T::C(_), x) | (x, T::C(_)) => x,
        (T::T(x), T::T(y)) => {
            if x == y {
                return a;
            }
            if not(a) == b {
                return T::C(0);
            }
            let mut zs: Vec<Form> = vec![];
            let mut rest: Vec<TermId> = vec![];
            for t in [x, y] {
                match &*get(t) {
                    Term::Zeros(v) => zs.extend(v),
                    Term::And(v) => {
                        for u in v {
                            match &*get(*u) {
                                Term::Zeros(v) => zs.extend(v),
                                _ => rest.push(*u),
                            }
                        }
                    }
                    _ => rest.push(t),
                }
            }
            if !zs.is_empty() {
                match zeros(&zs) {
                    T::C(0) => return T::C(0),
                    T::C(_) => {}
                    T::T(t) => rest.push(t),
                }
            }
            rest.sort();
            rest.dedup();
            match rest.len() {
                0 => T::C(1),
                1 => T::T(rest[0]),
                _ => T::T(term(Term::And(rest))),
            }
        }
    }
}
pub fn or(a: T, b: T) -> T {
    not(and(not(a), not(b)))
}
pub fn zeros(fs: &[Form]) -> T {
    let mut v = vec![];
    for &f in fs {
        if let Some(c) = form::as_const(f) {
            if !c.is_zero() {
                return T::C(0);
            }
            continue;
        }
        v.push(form::monic(f).1);
    }
    v.sort();
    v.dedup();
    if v.is_empty() {
        T::C(1)
    } else {
        T::T(term(Term::Zeros(v)))
    }
}
pub fn ite(g: TermId, a: T, b: T) -> T {
    if a == b {
        return a;
    }
    let bool_like = |x: &T| match x {
        T::C(c) => *c <= 1,
        T::T(t) => is_bool(*t),
    };
    if bool_like(&a) && bool_like(&b) {
        let g = T::T(g);
        return match (a, b) {
            (T::C(1), T::C(0)) => g,
            (T::C(0), T::C(1)) => not(g),
            (x, T::C(0)) => and(g, x),
            (T::C(0), x) => and(not(g), x),
            (T::C(1), x) => or(g, x),
            (x, T::C(1)) => or(not(g), x),
            (x, y) => or(and(g, x), and(not(g), y)),
        };
    }
    if let Term::Not(h) = &*get(g) {
        return T::T(term(Term::Ite(*h, b, a)));
    }
    T::T(term(Term::Ite(g, a, b)))
}
pub fn to_v(t: T) -> V {
    match t {
        T::C(c) => V::Int(c),
        T::T(t) => V::Sym(t),
    }
}
pub fn of_v(v: V) -> Option<T> {
    match v {
        V::Int(c) => Some(T::C(c)),
        V::Sym(t) => Some(T::T(t)),
        _ => None,
    }
}
/// Width in bytes of a term when it is stored, if it is determined by the term itself.
pub fn bytes_of(v: V, size: u32) -> Vec<T> {
    match v {
        V::Int(c) => (0..size).map(|k| T::C((c >> (8 * k.min(15))) & 0xff & if k < 16 { 0xff } else { 0 })).collect(),
        V::Sym(t) => {
            if let Term::Cat(b) = &*get(t) {
                if b.len() == size as usize {
                    return b.clone();
                }
            }
            if size == 1 {
                return vec![T::T(t)];
            }
            (0..size).map(|k| T::T(term(Term::Byte(t, k)))).collect()
        }
        _ => unreachable!(),
    }
}
pub fn cat(b: &[T]) -> V {
    if b.iter().all(|x| matches!(x, T::C(_))) && b.len() <= 16 {
        let mut c = 0u128;
        for (i, x) in b.iter().enumerate() {
            if let T::C(k) = x {
                c |= k << (8 * i);
            }
        }
        return V::Int(c);
    }
    if b.len() == 1 {
        return to_v(b[0]);
    }
    if let T::T(t0) = b[0] {
        if let Term::Byte(src, 0) = &*get(t0) {
            let all = b.iter().enumerate().all(|(i, x)| match x {
                T::T(t) => matches!(&*get(*t), Term::Byte(s2, k) if s2 == src && *k as usize == i),
                _ => false,
            });
            // only whole terms are reassembled; the width of the source is its byte count
            if all && width(*src) == Some(b.len() as u32) {
                return V::Sym(*src);
            }
        }
    }
    V::Sym(term(Term::Cat(b.to_vec())))
}
/// Known storage width in bytes of a term.
pub fn width(t: TermId) -> Option<u32> {
    match &*get(t) {
        Term::Var(_, b) => Some(b.div_ceil(8)),
        Term::Bin(op, b, ..) if !matches!(*op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Ovf") => Some(b.div_ceil(8)),
        Term::Un(_, b, _) => Some(b.div_ceil(8)),
        Term::Byte(..) => Some(1),
        Term::Cat(v) => Some(v.len() as u32),
        Term::FeBytes(_, _, l) => Some(*l),
        _ => None,
    }
}
/// Does the term depend on field data?
pub fn field_dep(t: TermId) -> bool {
    let td = |x: &T| match x {
        T::C(_) => false,
        T::T(t) => field_dep(*t),
    };
    match &*get(t) {
        Term::Zeros(_) | Term::FeBytes(..) => true,
        Term::Var(..) => false,
        Term::Not(a) | Term::Un(_, _, a) | Term::Byte(a, _) => field_dep(*a),
        Term::And(v) => v.iter().any(|x| field_dep(*x)),
        Term::Bin(_, _, a, b) => td(a) || td(b),
        Term::Cat(v) => v.iter().any(td),
        Term::Ite(g, a, b) => field_dep(*g) || td(a) || td(b),
    }
}
pub fn show_t(t: T, d: usize) -> String {
    match t {
        T::C(c) => c.to_string(),
        T::T(t) => show_term(t, d),
    }
}
pub fn show_term(t: TermId, d: usize) -> String {
    if d == 0 {
        return "..".into();
    }
    let d = d - 1;
    match &*get(t) {
        Term::Var(n, _) => n.clone(),
        Term::Zeros(v) => {
            let s: Vec<_> = v.iter().take(4).map(|f| format!("{} == 0", form::show_d(*f, d.max(1)))).collect();
            if v.len() > 4 {
                format!("{} && ..({})", s.join(" && "), v.len())
            } else {
                s.join(" && ")
            }
        }
        Term::Not(a) => format!("!({})", show_term(*a, d)),
        Term::And(v) => v.iter().map(|x| show_term(*x, d)).collect::<Vec<_>>().join(" && "),
        Term::Bin(o, _, a, b) => format!("{}({}, {})", o, show_t(*a, d), show_t(*b, d)),
        Term::Un(o, _, a) => format!("{}({})", o, show_term(*a, d)),
        Term::Byte(a, k) => format!("{}.byte{}", show_term(*a, d), k),
        Term::Cat(v) => format!("cat[{}]", v.iter().map(|x| show_t(*x, d)).collect::<Vec<_>>().join(",")),
        Term::Ite(g, a, b) => format!("ite({}; {}; {})", show_term(*g, d), show_t(*a, d), show_t(*b, d)),
        Term::FeBytes(f, o, l) => format!("bytes({})[{}..{}]", form::show_d(*f, d.max(1)), o, o + l),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Slot {
    pub off: u64,
    pub size: u32,
    pub v: V,
}

/// A value in flight: its slots relative to 0.
#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Z,
    S(V, u32),
    M(Vec<Slot>),
}
impl Obj {
    pub fn int(c: u128, size: u32) -> Obj {
        Obj::S(V::Int(c), size)
    }
    pub fn slots(&self) -> Vec<Slot> {
        match self {
            Obj::Z => vec![],
            Obj::S(v, s) => vec![Slot { off: 0, size: *s, v: *v }],
            Obj::M(v) => v.clone(),
        }
    }
    pub fn from_slots(v: Vec<Slot>) -> Obj {
        match v.len() {
            0 => Obj::Z,
            1 if v[0].off == 0 => Obj::S(v[0].v, v[0].size),
            _ => Obj::M(v),
        }
    }
    pub fn pair(a: V, b: V) -> Obj {
        Obj::M(vec![Slot { off: 0, size: 8, v: a }, Slot { off: 8, size: 8, v: b }])
    }
    /// the sub-value at [off, off+size)
    pub fn part(&self, off: u64, size: u64) -> Obj {
        if size == 0 {
            return Obj::Z;
        }
        match self {
            Obj::S(_, s) if off == 0 && *s as u64 == size => self.clone(),
            _ => {
                let mut a = Alloc::new(u64::MAX, 1);
                a.slots = self.slots();
                a.read(off, size)
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Alloc {
    pub size: u64,
    pub align: u64,
    pub heap: bool,
    pub readonly: bool,
    pub slots: Vec<Slot>,
}

impl Alloc {
    pub fn new(size: u64, align: u64) -> Alloc {
        Alloc { size, align, heap: false, readonly: false, slots: vec![] }
    }
    fn pos(&self, off: u64) -> usize {
        self.slots.partition_point(|s| s.off < off)
    }
    pub fn read(&self, off: u64, size: u64) -> Obj {
        if size == 0 {
            return Obj::Z;
        }
        let i = self.pos(off);
        if let Some(s) = self.slots.get(i) {
            if s.off == off && s.size as u64 == size {
                return Obj::S(s.v, s.size);
            }
        }
        let mut out = vec![];
        // slot straddling the start
        if i > 0 {
            let p = self.slots[i - 1];
            let end = p.off + p.size as u64;
            if end > off {
                let hi = end.min(off + size);
                out.push(Slot { off: 0, size: (hi - off) as u32, v: sub_value(p, off, hi) });
            }
        }
        let mut k = i;
        while k < self.slots.len() && self.slots[k].off < off + size {
            let s = self.slots[k];
            let end = s.off + s.size as u64;
            if end <= off + size {
                out.push(Slot { off: s.off - off, size: s.size, v: s.v });
            } else {
                let hi = off + size;
                out.push(Slot { off: s.off - off, size: (hi - s.off) as u32, v: sub_value(s, s.off, hi) });
            }
            k += 1;
        }
        Obj::from_slots(out)
    }
    /// remove [off, off+size), keeping fragments of straddling slots
    pub fn clear(&mut self, off: u64, size: u64) {
        let end = off + size;
        let mut i = self.pos(off);
        let mut frags: Vec<Slot> = vec![];
        if i > 0 {
            let p = self.slots[i - 1];
            let pe = p.off + p.size as u64;
            if pe > off {
                i -= 1;
                frags.push(Slot { off: p.off, size: (off - p.off) as u32, v: sub_value(p, p.off, off) });
                if pe > end {
                    frags.push(Slot { off: end, size: (pe - end) as u32, v: sub_value(p, end, pe) });
                }
            }
        }
        let mut k = i;
        while k < self.slots.len() && self.slots[k].off < end {
            let s = self.slots[k];
            let se = s.off + s.size as u64;
            if s.off >= off && se > end {
                frags.push(Slot { off: end, size: (se - end) as u32, v: sub_value(s, end, se) });
            }
            k += 1;
        }
        if k > i || !frags.is_empty() {
            self.slots.splice(i..k, frags);
        }
    }
    pub fn write(&mut self, off: u64, size: u64, o: &Obj) {
        if size == 0 {
            return;
        }
        if let Obj::S(v, s) = o {
            if *s as u64 == size {
                let i = self.pos(off);
                if let Some(sl) = self.slots.get_mut(i) {
                    if sl.off == off && sl.size == *s {
                        sl.v = *v;
                        return;
                    }
                }
                self.clear(off, size);
                let i = self.pos(off);
                self.slots.insert(i, Slot { off, size: *s, v: *v });
                return;
            }
        }
        self.clear(off, size);
        let i = self.pos(off);
        let new: Vec<Slot> = o.slots().into_iter().map(|s| Slot { off: s.off + off, ..s }).collect();
        self.slots.splice(i..i, new);
    }
}

/// bytes [lo,hi) of a slot
fn sub_value(s: Slot, lo: u64, hi: u64) -> V {
    let (a, l) = ((lo - s.off) as u32, (hi - lo) as u32);
    match s.v {
        V::Int(c) => {
            if s.size > 16 {
                return if c == 0 { V::Int(0) } else { V::Top };
            }
            let m = if l >= 16 { u128::MAX } else { (1u128 << (8 * l)) - 1 };
            V::Int((c >> (8 * a)) & m)
        }
        V::Sym(_) if s.size <= 16 => cat(&bytes_of(s.v, s.size)[a as usize..(a + l) as usize]),
        V::Fe(f) if s.size == 32 => match form::as_const(f) {
            Some(c) if l <= 16 => {
                let mut by = [0u8; 32];
                for i in 0..4 {
                    by[8 * i..8 * i + 8].copy_from_slice(&c.0[i].to_le_bytes());
                }
                let mut r = 0u128;
                for k in 0..l {
                    r |= (by[(a + k) as usize] as u128) << (8 * k);
                }
                V::Int(r)
            }
            _ => V::Sym(term(Term::FeBytes(f, a, l))),
        },
        V::Fv(..) | V::Opq(_) => s.v, // still recognisable as (part of) an opaque value
        _ => V::Top,
    }
}

/// Interpret an object as one scalar of `size` bytes.
pub fn scalar(o: &Obj, size: u32) -> Option<V> {
    match o {
        Obj::S(v, s) if *s == size => Some(*v),
        Obj::Z => None,
        _ => {
            let sl = o.slots();
            if let Some(x) = sl.iter().find(|s| matches!(s.v, V::Fv(..) | V::Opq(_))) {
                return Some(x.v);
            }
            let mut b: Vec<T> = vec![];
            let mut fe: Option<(Form, u32, u32)> = None;
            let mut all_fe = true;
            for s in &sl {
                if s.off != b.len() as u64 {
                    return None;
                }
                match s.v {
                    V::Int(_) | V::Sym(_) => {
                        if let V::Sym(t) = s.v {
                            if let Term::FeBytes(f, o2, l) = &*get(t) {
                                match fe {
                                    None => fe = Some((*f, *o2, *l)),
                                    Some((g, a, l0)) if g == *f && a + l0 == *o2 => fe = Some((g, a, l0 + l)),
                                    _ => all_fe = false,
                                }
                            } else {
                                all_fe = false;
                            }
                        } else {
                            all_fe = false;
                        }
                        b.extend(bytes_of(s.v, s.size));
                    }
                    _ => return None,
                }
            }
            if b.len() != size as usize {
                return None;
            }
            if all_fe && size == 32 {
                if let Some((f, 0, 32)) = fe {
                    return Some(V::Fe(f));
                }
            }
            if all_fe && size <= 16 {
                if let Some((f, a, l)) = fe {
                    return Some(V::Sym(term(Term::FeBytes(f, a, l))));
                }
            }
            if size > 16 {
                return None;
            }
            Some(cat(&b))
        }
    }
}
