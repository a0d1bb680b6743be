//! The scalar field F_p of decaf377 / BLS12-377, Montgomery representation.
//! Written independently of the code under analysis; used only as the coefficient ring of
//! the abstract domain and by the reference definitions.

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp(pub [u64; 4]); // Montgomery form, reduced

pub const P: [u64; 4] = [
    725501752471715841,
    6461107452199829505,
    6968279316240510977,
    1345280370688173398,
];

const fn inv_p() -> u64 {
    // -p^{-1} mod 2^64
    let mut x: u64 = 1;
    let mut i = 0;
    while i < 63 {
        x = x.wrapping_mul(x).wrapping_mul(P[0]);
        i += 1;
    }
    x.wrapping_neg()
}
const NINV: u64 = inv_p();

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut br = 0u64;
    for i in 0..4 {
        let (x, o1) = a[i].overflowing_sub(b[i]);
        let (y, o2) = x.overflowing_sub(br);
        r[i] = y;
        br = (o1 | o2) as u64;
    }
    r
}
fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}

/// Are these limbs a reduced residue?
pub fn reduced(l: &[u64; 4]) -> bool {
    !geq(l, &P)
}

impl Fp {
    pub const ZERO: Fp = Fp([0; 4]);
    pub fn one() -> Fp {
        Fp::from_u128(1)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn add(self, o: Fp) -> Fp {
        let r = add_raw(&self.0, &o.0);
        Fp(if geq(&r, &P) { sub_raw(&r, &P) } else { r })
    }
    pub fn neg(self) -> Fp {
        if self.is_zero() {
            self
        } else {
            Fp(sub_raw(&P, &self.0))
        }
    }
    pub fn sub(self, o: Fp) -> Fp {
        self.add(o.neg())
    }
    fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + (a[j] as u128) * (b[i] as u128);
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(NINV);
            let mut c = (t[0] as u128 + (m as u128) * (P[0] as u128)) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + (m as u128) * (P[j] as u128);
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + ((c >> 64) as u64);
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &P) {
            sub_raw(&r, &P)
        } else {
            r
        }
    }
    pub fn mul(self, o: Fp) -> Fp {
        Fp(Self::mont(&self.0, &o.0))
    }
    pub fn pow(self, mut e: u128) -> Fp {
        let mut b = self;
        let mut r = Fp::one();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(b);
            }
            b = b.mul(b);
            e >>= 1;
        }
        r
    }
    fn pow_limbs(self, e: &[u64; 4]) -> Fp {
        let mut r = Fp::one();
        for i in (0..256).rev() {
            r = r.mul(r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    /// x^{p-2}; zero maps to zero.
    pub fn inv0(self) -> Fp {
        let e = sub_raw(&P, &[2, 0, 0, 0]);
        self.pow_limbs(&e)
    }
    fn r2() -> [u64; 4] {
        // 2^512 mod p by doubling 1
        let mut x = [1u64, 0, 0, 0];
        for _ in 0..512 {
            let d = add_raw(&x, &x);
            x = if geq(&d, &P) { sub_raw(&d, &P) } else { d };
        }
        x
    }
    /// From an ordinary (non Montgomery) residue < 2^256.
    pub fn from_limbs(mut l: [u64; 4]) -> Fp {
        while geq(&l, &P) {
            l = sub_raw(&l, &P);
        }
        thread_local!(static R2: [u64; 4] = Fp::r2());
        R2.with(|r| Fp(Self::mont(&l, r)))
    }
    pub fn from_u128(v: u128) -> Fp {
        Fp::from_limbs([v as u64, (v >> 64) as u64, 0, 0])
    }
    pub fn from_i64(v: i64) -> Fp {
        if v < 0 {
            Fp::from_u128(v.unsigned_abs() as u128).neg()
        } else {
            Fp::from_u128(v as u128)
        }
    }
    pub fn to_limbs(self) -> [u64; 4] {
        Self::mont(&self.0, &[1, 0, 0, 0])
    }
    pub fn hex(self) -> String {
        let l = self.to_limbs();
        let s = format!("{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]);
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.into()
        }
    }
    /// Short human form (small values and their negatives in decimal).
    pub fn show(self) -> String {
        let l = self.to_limbs();
        if l[1] | l[2] | l[3] == 0 && l[0] < 1_000_000 {
            return format!("{}", l[0]);
        }
        let n = self.neg().to_limbs();
        if n[1] | n[2] | n[3] == 0 && n[0] < 1_000_000 {
            return format!("-{}", n[0]);
        }
        let h = self.hex();
        format!("0x{}..", &h[..h.len().min(12)])
    }
}
impl Fp {
    /// subtract the modulus until reduced
    pub fn reduce(mut self) -> Fp {
        while geq(&self.0, &P) {
            self = Fp(sub_raw(&self.0, &P));
        }
        self
    }
}
