//! The Merlin transcript (STROBE-128 over Keccak-f[1600]), written from its specification.
//! Used only to derive the reference round constants.

fn keccak_f(a: &mut [u64; 25]) {
    const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let b = a[PIL[i]];
            a[PIL[i]] = t.rotate_left(ROT[i]);
            t = b;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        let mut rc = 0u64;
        for j in 0..7 {
            if lfsr & 1 == 1 {
                rc |= 1 << ((1u32 << j) - 1);
            }
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
        }
        a[0] ^= rc;
    }
}

const R: usize = 166;
pub struct Merlin {
    st: [u8; 200],
    pos: usize,
    begin: usize,
}
const FI: u8 = 1;
const FA: u8 = 2;
const FC: u8 = 4;
const FM: u8 = 16;

impl Merlin {
    pub fn new(label: &[u8]) -> Merlin {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, R as u8 + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        let mut m = Merlin { st, pos: 0, begin: 0 };
        m.perm();
        m.meta_ad(b"Merlin v1.0", false);
        m.append(b"dom-sep", label);
        m
    }
    fn perm(&mut self) {
        let mut a = [0u64; 25];
        for i in 0..25 {
            a[i] = u64::from_le_bytes(self.st[8 * i..8 * i + 8].try_into().unwrap());
        }
        keccak_f(&mut a);
        for i in 0..25 {
            self.st[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
        }
    }
    fn run_f(&mut self) {
        self.st[self.pos] ^= self.begin as u8;
        self.st[self.pos + 1] ^= 4;
        self.st[R + 1] ^= 0x80;
        self.perm();
        self.pos = 0;
        self.begin = 0;
    }
    fn absorb(&mut self, d: &[u8]) {
        for b in d {
            self.st[self.pos] ^= b;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn op(&mut self, fl: u8, more: bool) {
        if more {
            return;
        }
        let old = self.begin as u8;
        self.begin = self.pos + 1;
        self.absorb(&[old, fl]);
        if fl & FC != 0 && self.pos != 0 {
            self.run_f();
        }
    }
    fn meta_ad(&mut self, d: &[u8], more: bool) {
        self.op(FM | FA, more);
        self.absorb(d);
    }
    pub fn append(&mut self, label: &[u8], msg: &[u8]) {
        self.meta_ad(label, false);
        self.meta_ad(&(msg.len() as u32).to_le_bytes(), true);
        self.op(FA, false);
        self.absorb(msg);
    }
    pub fn challenge(&mut self, label: &[u8], n: usize) -> Vec<u8> {
        self.meta_ad(label, false);
        self.meta_ad(&(n as u32).to_le_bytes(), true);
        self.op(FI | FA | FC, false);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.st[self.pos]);
            self.st[self.pos] = 0;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
        v
    }
}
