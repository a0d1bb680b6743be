//! Entry points for the analysis.  Nothing here is ever executed: the driver interprets the
//! compiler's intermediate representation of these functions abstractly, instantiating the
//! generic ones itself.  Only public interfaces of the libraries are used.
#![cfg_attr(not(feature = "c_std"), no_std)]
#![allow(non_snake_case, clippy::all)]
use decaf377::Fq;
use poseidon377::{Instance, PoseidonParameters};
use poseidon_parameters::v1::{
    mat_mul, square_mat_mul, Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, OptimizedArcMatrix,
    OptimizedMdsMatrices, RoundNumbers, SquareMatrix, SquareMatrixOperations,
};

// ------------------------------------------------------------------ helpers of the contracts
#[cfg(feature = "r1cs")]
pub fn h_drain<I: Iterator>(it: I) -> alloc::vec::Vec<I::Item> {
    let mut v = alloc::vec::Vec::new();
    for x in it {
        v.push(x)
    }
    v
}
#[cfg(feature = "r1cs")]
extern crate alloc;

// ------------------------------------------------------------------ hashes
pub fn hash_1(d: Fq, v: [Fq; 1]) -> Fq {
    poseidon377::hash_1(&d, v[0])
}
pub fn hash_2(d: Fq, v: [Fq; 2]) -> Fq {
    poseidon377::hash_2(&d, (v[0], v[1]))
}
pub fn hash_3(d: Fq, v: [Fq; 3]) -> Fq {
    poseidon377::hash_3(&d, (v[0], v[1], v[2]))
}
pub fn hash_4(d: Fq, v: [Fq; 4]) -> Fq {
    poseidon377::hash_4(&d, (v[0], v[1], v[2], v[3]))
}
pub fn hash_5(d: Fq, v: [Fq; 5]) -> Fq {
    poseidon377::hash_5(&d, (v[0], v[1], v[2], v[3], v[4]))
}
pub fn hash_6(d: Fq, v: [Fq; 6]) -> Fq {
    poseidon377::hash_6(&d, (v[0], v[1], v[2], v[3], v[4], v[5]))
}
pub fn hash_7(d: Fq, v: [Fq; 7]) -> Fq {
    poseidon377::hash_7(&d, (v[0], v[1], v[2], v[3], v[4], v[5], v[6]))
}

// ------------------------------------------------------------------ parameters
fn alpha_num(a: &Alpha) -> u64 {
    match a {
        Alpha::Exponent(e) => *e as u64,
        Alpha::Inverse => 1 << 40,
    }
}
fn copy_el<M: MatrixOperations, const N: usize>(m: &M) -> [Fq; N] {
    let e = m.elements();
    if e.len() != N {
        panic!("unexpected number of elements")
    }
    let mut out = [Fq::from(0u64); N];
    for i in 0..N {
        out[i] = e[i];
    }
    out
}

pub type Aux<const S: usize, const N: usize, const SS: usize> =
    ([Fq; SS], [Fq; S], [Fq; S], [Fq; N], [Fq; N], [Fq; N], [Fq; SS]);

pub fn mk<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    inv: bool,
    alpha: u32,
    rf: usize,
    rp: usize,
    mds: [Fq; N],
    arc: [Fq; RE],
    oarc: [Fq; RE],
    m00: Fq,
    mi: [Fq; N],
    vc: [[Fq; S]; RP],
    wc: [[Fq; S]; RP],
    aux: Aux<S, N, SS>,
) -> PoseidonParameters<T, S, N, SS, RR, RC, RE, RP> {
    PoseidonParameters {
        M: 128,
        alpha: alpha_b(inv, alpha),
        rounds: RoundNumbers { r_P: rp, r_F: rf },
        mds: MdsMatrix::new_from_known(mds),
        arc: ArcMatrix::new_from_known(arc),
        optimized_arc: OptimizedArcMatrix::new_from_known(oarc),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new_from_known(aux.0),
            v: Matrix::new_from_known(aux.1),
            w: Matrix::new_from_known(aux.2),
            M_prime: SquareMatrix::new_from_known(aux.3),
            M_doubleprime: SquareMatrix::new_from_known(aux.4),
            M_inverse: SquareMatrix::new_from_known(aux.5),
            M_hat_inverse: SquareMatrix::new_from_known(aux.6),
            M_00: m00,
            M_i: Matrix::new_from_known(mi),
            v_collection: core::array::from_fn(|i| Matrix::new_from_known(vc[i])),
            w_hat_collection: core::array::from_fn(|i| Matrix::new_from_known(wc[i])),
        },
    }
}

pub fn inst_new<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    p: &PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
) -> Instance<'_, T, S, N, SS, RR, RC, RE, RP> {
    Instance::new(p)
}
pub fn inst_opt<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    i: &mut Instance<'_, T, S, N, SS, RR, RC, RE, RP>,
    x: [Fq; T],
) -> (Fq, [Fq; T]) {
    let r = i.n_to_1_fixed_hash(&x);
    (r, i.output_words())
}
pub fn inst_plain<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    i: &mut Instance<'_, T, S, N, SS, RR, RC, RE, RP>,
    x: [Fq; T],
) -> (Fq, [Fq; T]) {
    let r = i.unoptimized_n_to_1_fixed_hash(x);
    (r, i.output_words())
}
pub fn inst_words<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    i: &Instance<'_, T, S, N, SS, RR, RC, RE, RP>,
) -> [Fq; T] {
    i.output_words()
}

pub type Dump<const S: usize, const N: usize, const SS: usize, const RE: usize, const RP: usize> = (
    (usize, u64, usize, usize),
    [Fq; N],
    [Fq; RE],
    [Fq; RE],
    Fq,
    [Fq; N],
    [[Fq; S]; RP],
    [[Fq; S]; RP],
    Aux<S, N, SS>,
    [(usize, usize); 13],
    [(usize, usize); RP],
    [(usize, usize); RP],
);
fn dims<M: MatrixOperations>(m: &M) -> (usize, usize) {
    (m.n_rows(), m.n_cols())
}

pub fn dump<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    p: &PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
) -> Dump<S, N, SS, RE, RP> {
    let o = &p.optimized_mds;
    (
        (p.M, alpha_num(&p.alpha), p.rounds.full(), p.rounds.partial()),
        copy_el(&p.mds),
        copy_el(&p.arc),
        copy_el(&p.optimized_arc),
        o.M_00,
        copy_el(&o.M_i),
        core::array::from_fn(|i| copy_el(&o.v_collection[i])),
        core::array::from_fn(|i| copy_el(&o.w_hat_collection[i])),
        (
            copy_el(&o.M_hat),
            copy_el(&o.v),
            copy_el(&o.w),
            copy_el(&o.M_prime),
            copy_el(&o.M_doubleprime),
            copy_el(&o.M_inverse),
            copy_el(&o.M_hat_inverse),
        ),
        [
            dims(&p.mds),
            dims(&p.arc),
            dims(&p.optimized_arc),
            dims(&o.M_i),
            dims(&o.M_hat),
            dims(&o.v),
            dims(&o.w),
            dims(&o.M_prime),
            dims(&o.M_doubleprime),
            dims(&o.M_inverse),
            dims(&o.M_hat_inverse),
            (p.rounds.total(), 0),
            (T, S),
        ],
        core::array::from_fn(|i| dims(&o.v_collection[i])),
        core::array::from_fn(|i| dims(&o.w_hat_collection[i])),
    )
}
macro_rules! rates {
    ($(($k:literal, $t:ident, $i:ident, $c:ident, $T:literal, $S:literal, $N:literal, $SS:literal, $RE:literal)),*) => {
        $(
            pub fn $t() -> Dump<$S, $N, $SS, $RE, 31> {
                dump(&poseidon377::$c)
            }
            pub fn $i<const RP: usize>(x: [Fq; $T], plain: bool) -> (Fq, [Fq; $T]) {
                let p = &poseidon377::$c;
                let mut i = Instance::new(p);
                let r = if plain { i.unoptimized_n_to_1_fixed_hash(x) } else { i.n_to_1_fixed_hash(&x) };
                (r, i.output_words())
            }
        )*
    };
}
rates!(
    (1, tab_1, ship_1, RATE_1_PARAMS, 2, 1, 4, 1, 78),
    (2, tab_2, ship_2, RATE_2_PARAMS, 3, 2, 9, 4, 117),
    (3, tab_3, ship_3, RATE_3_PARAMS, 4, 3, 16, 9, 156),
    (4, tab_4, ship_4, RATE_4_PARAMS, 5, 4, 25, 16, 195),
    (5, tab_5, ship_5, RATE_5_PARAMS, 6, 5, 36, 25, 234),
    (6, tab_6, ship_6, RATE_6_PARAMS, 7, 6, 49, 36, 273),
    (7, tab_7, ship_7, RATE_7_PARAMS, 8, 7, 64, 49, 312)
);

pub fn params_clone<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    p: &PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
) -> Dump<S, N, SS, RE, RP> {
    let q = p.clone();
    dump(&q)
}
pub fn opt_eq<
    const T: usize,
    const S: usize,
    const N: usize,
    const SS: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    p: &PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
    q: &PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
) -> (bool, bool) {
    (p.optimized_mds == q.optimized_mds, p.optimized_mds != q.optimized_mds)
}
pub fn v2_clone<const T: usize, const N: usize, const RR: usize, const RC: usize, const RE: usize>(
    m: usize,
    inv: bool,
    alpha: u32,
    rf: usize,
    rp: usize,
    me: [Fq; N],
    mi: [Fq; N],
    arc: [Fq; RE],
) -> (usize, u64, usize, usize, [Fq; N], [Fq; N], [Fq; RE]) {
    let p = poseidon_parameters::v2::PoseidonParameters::<T, N, RR, RC, RE> {
        M: m,
        alpha: alpha_b(inv, alpha),
        rounds: RoundNumbers { r_P: rp, r_F: rf },
        m_e: SquareMatrix::new_from_known(me),
        m_i: SquareMatrix::new_from_known(mi),
        arc: ArcMatrix::new_from_known(arc),
    };
    let q = p.clone();
    (q.M, alpha_num(&q.alpha), q.rounds.r_F, q.rounds.r_P, copy_el(&q.m_e), copy_el(&q.m_i), copy_el(&q.arc))
}

// ------------------------------------------------------------------ matrices
fn see<M: MatrixOperations, const R: usize, const C: usize, const N: usize>(m: &M) -> View<R, C, N> {
    let mut g = [[Fq::from(0u64); C]; R];
    for i in 0..R {
        for j in 0..C {
            g[i][j] = m.get_element(i, j);
        }
    }
    let mut rows = [[Fq::from(0u64); C]; R];
    let mut lens = [0usize; R];
    let mut n = 0;
    for r in m.iter_rows() {
        if n >= R {
            panic!("too many rows")
        }
        lens[n] = r.len();
        for (j, x) in r.iter().enumerate() {
            rows[n][j] = *x;
        }
        n += 1;
    }
    ((m.n_rows(), m.n_cols(), n), lens, copy_el(m), g, rows)
}
pub type View<const R: usize, const C: usize, const N: usize> =
    ((usize, usize, usize), [usize; R], [Fq; N], [[Fq; C]; R], [[Fq; C]; R]);

macro_rules! kind {
    ($ty:ident, $new:ident, $known:ident, $set:ident, $get:ident, $tr:ident, $had:ident, $eq:ident, $cl:ident, $w:ident, $kw:ident,
     [$($cg:ident),*], $C:ident, $R:ident, $N:ident, $M:ty, $MT:ty) => {
        pub fn $new<$(const $cg: usize),*, const L: usize>(e: [Fq; L]) -> View<$R, $C, $N> {
            let m = <$M as MatrixOperations>::new(&e);
            see::<_, $R, $C, $N>(&m)
        }
        pub fn $w<$(const $cg: usize),*, const L: usize>(e: [Fq; L]) -> usize {
            let m = <$M as MatrixOperations>::new(&e);
            m.n_rows()
        }
        pub fn $kw<$(const $cg: usize),*>(e: [Fq; $N]) -> usize {
            let m = <$M>::new_from_known(e);
            m.n_rows()
        }
        pub fn $known<$(const $cg: usize),*>(e: [Fq; $N]) -> View<$R, $C, $N> {
            let m = <$M>::new_from_known(e);
            see::<_, $R, $C, $N>(&m)
        }
        pub fn $set<$(const $cg: usize),*>(e: [Fq; $N], i: usize, j: usize, x: Fq) -> View<$R, $C, $N> {
            let mut m = <$M>::new_from_known(e);
            m.set_element(i, j, x);
            see::<_, $R, $C, $N>(&m)
        }
        pub fn $get<$(const $cg: usize),*>(e: [Fq; $N], i: usize, j: usize) -> Fq {
            let m = <$M>::new_from_known(e);
            m.get_element(i, j)
        }
        pub fn $tr<$(const $cg: usize),*>(e: [Fq; $N]) -> View<$C, $R, $N> {
            let m = <$M>::new_from_known(e);
            see::<_, $C, $R, $N>(&m.transpose())
        }
        pub fn $had<$(const $cg: usize),*>(a: [Fq; $N], b: [Fq; $N]) -> (bool, [Fq; $N]) {
            let m = <$M>::new_from_known(a);
            let n = <$M>::new_from_known(b);
            match m.hadamard_product(&n) {
                Ok(x) => (true, copy_el(&x)),
                Err(_) => (false, [Fq::from(0u64); $N]),
            }
        }
        pub fn $eq<$(const $cg: usize),*>(a: [Fq; $N], b: [Fq; $N]) -> (bool, bool) {
            let m = <$M>::new_from_known(a);
            let n = <$M>::new_from_known(b);
            (m == n, m != n)
        }
        pub fn $cl<$(const $cg: usize),*>(a: [Fq; $N]) -> [Fq; $N] {
            let m = <$M>::new_from_known(a);
            let n = m.clone();
            copy_el(&n)
        }
    };
}
kind!(Matrix, mx_new, mx_known, mx_set, mx_get, mx_tr, mx_had, mx_eq, mx_clone, mx_build, mx_kbuild, [R, C, N], C, R, N, Matrix<R, C, N>, Matrix<C, R, N>);
kind!(ArcMatrix, ax_new, ax_known, ax_set, ax_get, ax_tr, ax_had, ax_eq, ax_clone, ax_build, ax_kbuild, [R, C, N], C, R, N, ArcMatrix<R, C, N>, ArcMatrix<C, R, N>);
kind!(OptimizedArcMatrix, ox_new, ox_known, ox_set, ox_get, ox_tr, ox_had, ox_eq, ox_clone, ox_build, ox_kbuild, [R, C, N], C, R, N, OptimizedArcMatrix<R, C, N>, OptimizedArcMatrix<C, R, N>);
kind!(SquareMatrix, sq_new, sq_known, sq_set, sq_get, sq_tr, sq_had, sq_eq, sq_clone, sq_build, sq_kbuild, [R, N], R, R, N, SquareMatrix<R, N>, SquareMatrix<R, N>);
kind!(MdsMatrix, md_new, md_known, md_set, md_get, md_tr, md_had, md_eq, md_clone, md_build, md_kbuild, [R, S, N, SS], R, R, N, MdsMatrix<R, S, N, SS>, MdsMatrix<R, S, N, SS>);

pub fn md_from<const R: usize, const S: usize, const N: usize, const SS: usize, const L: usize>(e: [Fq; L]) -> View<R, R, N> {
    let m = MdsMatrix::<R, S, N, SS>::from_elements(&e);
    see::<_, R, R, N>(&m)
}
pub fn md_fromb<const R: usize, const S: usize, const N: usize, const SS: usize, const L: usize>(e: [Fq; L]) -> usize {
    MdsMatrix::<R, S, N, SS>::from_elements(&e).n_rows()
}
pub fn mx_mulb<
    const A: usize,
    const B: usize,
    const AB: usize,
    const B2: usize,
    const C: usize,
    const BC: usize,
    const AC: usize,
>(
    x: [Fq; AB],
    y: [Fq; BC],
) -> usize {
    mat_mul::<A, B, AB, B2, C, BC, AC>(&Matrix::new_from_known(x), &Matrix::new_from_known(y)).n_rows()
}
pub fn sq_mulb<const A: usize, const AA: usize, const B: usize, const BB: usize, const C: usize>(x: [Fq; AA], y: [Fq; BB]) -> usize {
    square_mat_mul::<A, AA, B, BB, C>(&SquareMatrix::new_from_known(x), &SquareMatrix::new_from_known(y)).n_rows()
}
pub fn ax_inner<const R: usize, const C: usize, const N: usize>(e: [Fq; N]) -> [Fq; N] {
    ArcMatrix::<R, C, N>::new_from_known(e).inner_elements()
}
/// elements of a matrix of any declared size
fn flat<M: MatrixOperations, const C: usize>(m: &M) -> ((usize, usize, usize), [Fq; C], [Fq; C]) {
    let mut g = [Fq::from(0u64); C];
    let mut h = [Fq::from(0u64); C];
    for j in 0..C {
        g[j] = m.get_element(0, j);
        h[j] = m.elements()[j];
    }
    ((m.n_rows(), m.n_cols(), m.elements().len()), g, h)
}
pub fn mx_row<const R: usize, const C: usize, const N: usize>(e: [Fq; N], i: usize) -> ((usize, usize, usize), [Fq; C], [Fq; C]) {
    let m = Matrix::<R, C, N>::new_from_known(e);
    flat(&m.row_vector(i))
}
pub fn sq_row<const R: usize, const N: usize>(e: [Fq; N], i: usize) -> ((usize, usize, usize), [Fq; R], [Fq; R]) {
    let m = SquareMatrix::<R, N>::new_from_known(e);
    flat(&m.row_vector(i))
}
pub fn mx_scale<const R: usize, const C: usize, const N: usize>(e: [Fq; N], x: Fq) -> View<R, C, N> {
    let m = Matrix::<R, C, N>::new_from_known(e) * x;
    see::<_, R, C, N>(&m)
}
pub fn sq_scale<const R: usize, const N: usize>(e: [Fq; N], x: Fq) -> View<R, R, N> {
    let m = SquareMatrix::<R, N>::new_from_known(e) * x;
    see::<_, R, R, N>(&m)
}
pub fn mx_mul<
    const A: usize,
    const B: usize,
    const AB: usize,
    const B2: usize,
    const C: usize,
    const BC: usize,
    const AC: usize,
>(
    x: [Fq; AB],
    y: [Fq; BC],
) -> View<A, C, AC> {
    let m = mat_mul::<A, B, AB, B2, C, BC, AC>(&Matrix::new_from_known(x), &Matrix::new_from_known(y));
    see::<_, A, C, AC>(&m)
}
pub fn sq_mul<const A: usize, const AA: usize, const B: usize, const BB: usize, const C: usize>(
    x: [Fq; AA],
    y: [Fq; BB],
) -> View<A, A, C> {
    let m = square_mat_mul::<A, AA, B, BB, C>(&SquareMatrix::new_from_known(x), &SquareMatrix::new_from_known(y));
    see::<_, A, A, C>(&m)
}
pub fn sq_2x2(a: Fq, b: Fq, c: Fq, d: Fq) -> View<2, 2, 4> {
    see::<_, 2, 2, 4>(&SquareMatrix::<2, 4>::new_2x2(a, b, c, d))
}
pub fn sq_id<const R: usize, const N: usize>() -> View<R, R, N> {
    see::<_, R, R, N>(&SquareMatrix::<R, N>::identity())
}
pub fn sq_minors<const R: usize, const N: usize>(e: [Fq; N]) -> View<R, R, N> {
    see::<_, R, R, N>(&SquareMatrix::<R, N>::new_from_known(e).minors())
}
pub fn sq_cof<const R: usize, const N: usize>(e: [Fq; N]) -> View<R, R, N> {
    see::<_, R, R, N>(&SquareMatrix::<R, N>::new_from_known(e).cofactors())
}
pub fn sq_det<const R: usize, const N: usize>(e: [Fq; N]) -> Fq {
    SquareMatrix::<R, N>::new_from_known(e).determinant()
}
/// Answered by the driver: 0, or 2 for an error about dimensions.
#[inline(never)]
pub fn error_code<E>(_: &E) -> u8 {
    0
}
pub fn sq_inv<const R: usize, const N: usize>(e: [Fq; N]) -> (u8, [Fq; N]) {
    match SquareMatrix::<R, N>::new_from_known(e).inverse() {
        Ok(m) => (1, copy_el(&m)),
        Err(e) => (error_code(&e), [Fq::from(0u64); N]),
    }
}
pub fn md_inv<const R: usize, const S: usize, const N: usize, const SS: usize>(e: [Fq; N]) -> View<R, R, N> {
    see::<_, R, R, N>(&MdsMatrix::<R, S, N, SS>::new_from_known(e).inverse())
}
pub fn md_v<const R: usize, const S: usize, const N: usize, const SS: usize>(e: [Fq; N]) -> View<1, S, S> {
    see::<_, 1, S, S>(&MdsMatrix::<R, S, N, SS>::new_from_known(e).v())
}
pub fn md_w<const R: usize, const S: usize, const N: usize, const SS: usize>(e: [Fq; N]) -> View<S, 1, S> {
    see::<_, S, 1, S>(&MdsMatrix::<R, S, N, SS>::new_from_known(e).w())
}
pub fn md_hat<const R: usize, const S: usize, const N: usize, const SS: usize>(e: [Fq; N]) -> View<S, S, SS> {
    see::<_, S, S, SS>(&MdsMatrix::<R, S, N, SS>::new_from_known(e).hat())
}

// ------------------------------------------------------------------ descriptors
fn alpha_b(inv: bool, e: u32) -> Alpha {
    if inv {
        Alpha::Inverse
    } else {
        Alpha::Exponent(e)
    }
}
pub fn al_bytes(inv: bool, e: u32) -> [u8; 4] {
    alpha_b(inv, e).to_bytes_le()
}
pub fn al_f64(inv: bool, e: u32) -> f64 {
    f64::from(alpha_b(inv, e))
}
pub fn al_eq(i1: bool, e1: u32, i2: bool, e2: u32) -> (bool, bool) {
    (alpha_b(i1, e1) == alpha_b(i2, e2), alpha_b(i1, e1) != alpha_b(i2, e2))
}
pub fn al_clone(inv: bool, e: u32) -> u64 {
    alpha_num(&alpha_b(inv, e).clone())
}
pub fn rn_counts(f: usize, p: usize) -> (usize, usize) {
    let r = RoundNumbers { r_P: p, r_F: f };
    (r.full(), r.partial())
}
pub fn rn_total(f: usize, p: usize) -> usize {
    RoundNumbers { r_P: p, r_F: f }.total()
}
pub fn rn_set_full(f: usize, p: usize, x: usize) -> (usize, usize, usize) {
    let mut r = RoundNumbers { r_P: p, r_F: f };
    let old = *r.full_mut();
    *r.full_mut() = x;
    (old, r.r_F, r.r_P)
}
pub fn rn_set_partial(f: usize, p: usize, x: usize) -> (usize, usize, usize) {
    let mut r = RoundNumbers { r_P: p, r_F: f };
    let old = *r.partial_mut();
    *r.partial_mut() = x;
    (old, r.r_F, r.r_P)
}
pub fn rn_eq(f: usize, p: usize, g: usize, q: usize) -> (bool, bool) {
    let (a, b) = (RoundNumbers { r_P: p, r_F: f }, RoundNumbers { r_P: q, r_F: g });
    (a == b, a != b)
}
pub fn rn_clone(f: usize, p: usize) -> (usize, usize) {
    let a = RoundNumbers { r_P: p, r_F: f };
    let b = a.clone();
    (b.r_F, b.r_P)
}

// ------------------------------------------------------------------ circuits
#[cfg(feature = "r1cs")]
pub mod gadget {
    use super::*;
    use ark_r1cs_std::fields::fp::FpVar;
    use ark_relations::r1cs::ConstraintSystemRef;
    use decaf377::r1cs::FqVar;
    use poseidon_permutation::r1cs::InstanceVar;
    type Cs = ConstraintSystemRef<Fq>;

    macro_rules! gh {
        ($f:ident, $k:literal, |$v:ident| $e:expr) => {
            pub fn $f(cs: Cs, d: FqVar, $v: [FqVar; $k]) -> (bool, FqVar) {
                match poseidon377::r1cs::$f(cs, &d, $e) {
                    Ok(x) => (true, x),
                    Err(_) => (false, d),
                }
            }
        };
    }
    gh!(hash_1, 1, |v| v[0].clone());
    gh!(hash_2, 2, |v| (v[0].clone(), v[1].clone()));
    gh!(hash_3, 3, |v| (v[0].clone(), v[1].clone(), v[2].clone()));
    gh!(hash_4, 4, |v| (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()));
    gh!(hash_5, 5, |v| (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone()));
    gh!(hash_6, 6, |v| (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone()));
    gh!(hash_7, 7, |v| (
        v[0].clone(),
        v[1].clone(),
        v[2].clone(),
        v[3].clone(),
        v[4].clone(),
        v[5].clone(),
        v[6].clone()
    ));

    pub fn perm<
        const T: usize,
        const S: usize,
        const N: usize,
        const SS: usize,
        const RR: usize,
        const RC: usize,
        const RE: usize,
        const RP: usize,
    >(
        p: PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
        cs: Cs,
        x: [FpVar<Fq>; T],
    ) -> FpVar<Fq> {
        InstanceVar::n_to_1_fixed_hash(p, cs, x)
    }
    /// The state after one and after two permutations, its width, and the parameters afterwards.
    #[cfg(feature = "words")]
    pub fn words<
        const T: usize,
        const S: usize,
        const N: usize,
        const SS: usize,
        const RR: usize,
        const RC: usize,
        const RE: usize,
        const RP: usize,
    >(
        p: PoseidonParameters<T, S, N, SS, RR, RC, RE, RP>,
        cs: Cs,
        x: [FpVar<Fq>; T],
    ) -> (usize, [FpVar<Fq>; T], usize, [FpVar<Fq>; T], Dump<S, N, SS, RE, RP>) {
        let mut i = InstanceVar {
            parameters: p,
            cs,
            state_words: x.to_vec(),
        };
        i.permute();
        let n = i.state_words.len();
        let a = core::array::from_fn(|k| i.state_words[k].clone());
        i.permute();
        let m = i.state_words.len();
        let b = core::array::from_fn(|k| i.state_words[k].clone());
        (n, a, m, b, dump(&i.parameters))
    }
}
