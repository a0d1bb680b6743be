//! Reference definitions, written from the Poseidon paper and the documentation, independently
//! of the code under analysis.
use crate::form::{self, Form};
use crate::fp::Fp;
use crate::merlin::Merlin;

#[derive(Clone, Copy)]
pub enum Sbox {
    Pow(u64),
    Inv,
    /// symbolic exponent
    Sym(form::TermId),
}
pub fn sbox(a: Sbox, x: Form) -> Form {
    match a {
        Sbox::Pow(e) => form::pow(x, e),
        Sbox::Inv => form::inv0(x),
        Sbox::Sym(t) => form::atom(form::Atom::PowSym(x, t)),
    }
}
pub fn mat_vec(t: usize, m: &[Form], x: &[Form]) -> Vec<Form> {
    (0..t).map(|i| (0..t).fold(form::zero(), |s, j| form::add(s, form::mul(m[i * t + j], x[j])))).collect()
}
/// The Poseidon permutation as defined in the paper.
pub fn plain(t: usize, rf: usize, rp: usize, a: Sbox, mds: &[Form], arc: &[Form], x: &[Form]) -> Vec<Form> {
    let mut s = x.to_vec();
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] = form::add(s[i], arc[r * t + i]);
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for i in 0..if full { t } else { 1 } {
            s[i] = sbox(a, s[i]);
        }
        s = mat_vec(t, mds, &s);
    }
    s
}
/// The products whose results a prover assigns when the permutation is computed in a circuit: the
/// S-box by repeated squaring, one product per step, for the words that depend on a variable.
pub fn products(t: usize, rf: usize, rp: usize, e: u64, mds: &[Form], arc: &[Form], x: &[Form], var: &[bool]) -> Vec<(Form, Form)> {
    let mut s = x.to_vec();
    let mut v = var.to_vec();
    let mut out = vec![];
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] = form::add(s[i], arc[r * t + i]);
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for i in 0..if full { t } else { 1 } {
            if v[i] {
                let mut n = 1;
                for b in (0..63u32.saturating_sub(e.leading_zeros())).rev() {
                    out.push((form::pow(s[i], n), form::pow(s[i], n)));
                    n *= 2;
                    if e >> b & 1 == 1 {
                        out.push((form::pow(s[i], n), s[i]));
                        n += 1;
                    }
                }
            }
            s[i] = sbox(Sbox::Pow(e), s[i]);
            v[i] &= e != 0;
        }
        s = mat_vec(t, mds, &s);
        v = vec![v.contains(&true); t];
    }
    out
}
pub struct OptTables {
    pub mds: Vec<Form>,
    pub arc: Vec<Form>,
    pub m00: Form,
    pub mi: Vec<Form>,
    pub v: Vec<Vec<Form>>,
    pub w: Vec<Vec<Form>>,
}
/// The optimized schedule (appendix B of the paper).
pub fn optimized(t: usize, rf: usize, rp: usize, a: Sbox, p: &OptTables, x: &[Form]) -> Vec<Form> {
    let mut s = x.to_vec();
    let full = |s: &mut Vec<Form>, r: usize| {
        for i in 0..t {
            s[i] = sbox(a, form::add(s[i], p.arc[r * t + i]));
        }
        *s = mat_vec(t, &p.mds, s);
    };
    for r in 0..rf / 2 {
        full(&mut s, r);
    }
    for i in 0..t {
        s[i] = form::add(s[i], p.arc[rf / 2 * t + i]);
    }
    s = mat_vec(t, &p.mi, &s);
    for r in 0..rp {
        s[0] = sbox(a, s[0]);
        if r + 1 < rp {
            s[0] = form::add(s[0], p.arc[(rf / 2 + r + 1) * t]);
        }
        let k = rp - 1 - r;
        let mut n = vec![form::mul(p.m00, s[0])];
        for j in 1..t {
            n[0] = form::add(n[0], form::mul(p.w[k][j - 1], s[j]));
        }
        for j in 1..t {
            n.push(form::add(form::mul(p.v[k][j - 1], s[0]), s[j]));
        }
        s = n;
    }
    for r in rf / 2 + rp..rf + rp {
        full(&mut s, r);
    }
    s
}

// ------------------------------------------------------------------ concrete matrices
pub type Mat = Vec<Vec<Fp>>;
pub fn mat(r: usize, c: usize, e: &[Fp]) -> Mat {
    (0..r).map(|i| e[i * c..i * c + c].to_vec()).collect()
}
pub fn ident(n: usize) -> Mat {
    (0..n).map(|i| (0..n).map(|j| if i == j { Fp::one() } else { Fp::ZERO }).collect()).collect()
}
pub fn mmul(a: &Mat, b: &Mat) -> Mat {
    a.iter()
        .map(|r| (0..b[0].len()).map(|j| (0..b.len()).fold(Fp::ZERO, |s, k| s.add(r[k].mul(b[k][j])))).collect())
        .collect()
}
pub fn transp(a: &Mat) -> Mat {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
/// (rank, determinant, inverse if regular) of a square matrix
pub fn solve(a: &Mat) -> (usize, Fp, Option<Mat>) {
    let n = a.len();
    let mut m = a.clone();
    let mut inv = ident(n);
    let mut det = Fp::one();
    let mut rank = 0;
    for c in 0..n {
        match (rank..n).find(|&r| !m[r][c].is_zero()) {
            None => {
                det = Fp::ZERO;
            }
            Some(p) => {
                if p != rank {
                    m.swap(p, rank);
                    inv.swap(p, rank);
                    det = det.neg();
                }
                det = det.mul(m[rank][c]);
                let k = m[rank][c].inv0();
                for j in 0..n {
                    m[rank][j] = m[rank][j].mul(k);
                    inv[rank][j] = inv[rank][j].mul(k);
                }
                for r in 0..n {
                    if r != rank && !m[r][c].is_zero() {
                        let f = m[r][c];
                        for j in 0..n {
                            let (x, y) = (m[rank][j].mul(f), inv[rank][j].mul(f));
                            m[r][j] = m[r][j].sub(x);
                            inv[r][j] = inv[r][j].sub(y);
                        }
                    }
                }
                rank += 1;
            }
        }
    }
    (rank, det, if rank == n { Some(inv) } else { None })
}
pub fn hat(m: &Mat) -> Mat {
    m[1..].iter().map(|r| r[1..].to_vec()).collect()
}
pub fn row_tail(m: &Mat) -> Vec<Fp> {
    m[0][1..].to_vec()
}
pub fn col_tail(m: &Mat) -> Vec<Fp> {
    m[1..].iter().map(|r| r[0]).collect()
}
pub fn embed(m: &Mat) -> Mat {
    let n = m.len() + 1;
    (0..n)
        .map(|i| {
            (0..n)
                .map(|j| match (i, j) {
                    (0, 0) => Fp::one(),
                    (0, _) | (_, 0) => Fp::ZERO,
                    _ => m[i - 1][j - 1],
                })
                .collect()
        })
        .collect()
}
pub fn mvec(a: &Mat, x: &[Fp]) -> Vec<Fp> {
    a.iter().map(|r| r.iter().zip(x).fold(Fp::ZERO, |s, (p, q)| s.add(p.mul(*q)))).collect()
}

/// The documented Cauchy matrix 1/(x_i + y_j), x = 0..t, y = t..2t.
pub fn cauchy(t: usize) -> Mat {
    (0..t).map(|i| (0..t).map(|j| Fp::from_u128((i + t + j) as u128).inv0()).collect()).collect()
}
/// The documented transcript derivation of the round constants.
pub fn derived_arc(t: usize, m: usize, rf: usize, rp: usize, alpha: u32) -> Vec<Fp> {
    let mut tr = Merlin::new(b"round-constants");
    tr.append(b"dom-sep", b"poseidon-paramgen");
    tr.append(b"t", &(t as u64).to_le_bytes());
    tr.append(b"M", &(m as u64).to_le_bytes());
    let p: Vec<u8> = crate::fp::P.iter().flat_map(|l| l.to_le_bytes()).collect();
    tr.append(b"p", &p);
    tr.append(b"r_F", &[rf as u8]);
    tr.append(b"r_P", &[rp as u8]);
    tr.append(b"alpha", &alpha.to_le_bytes());
    (0..(rf + rp) * t)
        .map(|_| {
            let b = tr.challenge(b"round-constant", (253 + 135) / 8);
            // little-endian bytes modulo p
            let mut r = Fp::ZERO;
            let k = Fp::from_u128(256);
            for x in b.iter().rev() {
                r = r.mul(k).add(Fp::from_u128(*x as u128));
            }
            r
        })
        .collect()
}
/// Round constants of the optimized schedule.
pub fn derived_oarc(t: usize, rf: usize, rp: usize, mds: &Mat, arc: &[Fp]) -> Option<Vec<Fp>> {
    let inv = solve(mds).2?;
    let mut c = mat(rf + rp, t, arc);
    for r in (rf / 2..rf / 2 + rp - 1).rev() {
        let x = mvec(&inv, &c[r + 1]);
        for j in 1..t {
            c[r][j] = c[r][j].add(x[j]);
        }
        c[r + 1] = vec![Fp::ZERO; t];
        c[r + 1][0] = x[0];
    }
    Some(c.concat())
}
/// (pre-matrix, v per round, w_hat per round) of the sparse factorisation.
pub fn factorise(rp: usize, mds: &Mat) -> Option<(Mat, Vec<Vec<Fp>>, Vec<Vec<Fp>>)> {
    let mt = transp(mds);
    let mut m = mt.clone();
    let mut mi = ident(mds.len());
    let (mut v, mut w) = (vec![], vec![]);
    for _ in 0..rp {
        let h = hat(&m);
        v.push(row_tail(&m));
        w.push(mvec(&solve(&h).2?, &col_tail(&m)));
        mi = embed(&h);
        m = mmul(&mt, &mi);
    }
    Some((transp(&mi), v, w))
}

/// gcd(a, p - 1)
pub fn gcd_with_group_order(a: u64) -> u64 {
    if a == 0 {
        return 0;
    }
    let mut r: u128 = 0;
    for i in (0..4).rev() {
        r = ((r << 64) | crate::fp::P[i] as u128) % a as u128;
    }
    let r = ((r + a as u128 - 1) % a as u128) as u64;
    let (mut x, mut y) = (a, r);
    while y != 0 {
        (x, y) = (y, x % y);
    }
    x
}
/// The bounds of the Poseidon paper (section 5.5) for given full and partial rounds.
pub fn rounds_secure(t: f64, m: f64, alpha: f64, rf: i64, rp: i64) -> Result<(), String> {
    let log2p = {
        let p = crate::fp::P;
        (p[3] as f64 + p[2] as f64 / 2f64.powi(64)).log2() + 192.0
    };
    let n = (log2p).ceil();
    let lga = |x: f64| x * 2f64.ln() / alpha.ln(); // log_alpha(2) * x
    let ln_t = t.ln() / alpha.ln();
    let (rf, rp) = (rf as f64, rp as f64);
    let stat = if m <= (log2p.floor() - (alpha - 1.0).log2()) * (t + 1.0) { 6.0 } else { 10.0 };
    if rf < stat {
        return Err(format!("statistical attacks need {stat} full rounds before the margin, {rf} given"));
    }
    let total = rf + rp;
    let inter = (lga(m.min(n))).ceil() + ln_t.ceil();
    if total <= inter {
        return Err(format!("interpolation attacks: {total} rounds, more than {inter} needed"));
    }
    let g1 = lga((m / 3.0).min(log2p / 2.0));
    let g2 = t - 1.0 + lga((m / (t + 1.0)).min(log2p / 2.0));
    if total <= g1.max(g2).floor() {
        return Err(format!("Groebner basis attacks: {total} rounds, more than {} needed", g1.max(g2)));
    }
    Ok(())
}
/// Is (rf, rp) a secure choice plus the margin of two full and 7.5 % partial rounds?
pub fn rounds_with_margin(t: usize, m: f64, alpha: f64, rf: i64, rp: i64) -> Result<(), String> {
    if rf % 2 != 0 {
        return Err(format!("odd number {rf} of full rounds"));
    }
    let mut rp0 = rp;
    while rp0 > 0 && (1.075 * rp0 as f64).ceil() as i64 > rp {
        rp0 -= 1;
    }
    rounds_secure(t as f64, m, alpha, rf - 2, rp0)
}
