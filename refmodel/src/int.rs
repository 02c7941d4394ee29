//! Signed integers over [Nat].
use crate::nat::Nat;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Int {
    /// Never true for zero.
    pub neg: bool,
    pub mag: Nat,
}

impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int {
        let neg = neg && !mag.is_zero();
        Int { neg, mag }
    }
    pub fn nat(mag: Nat) -> Int {
        Int { neg: false, mag }
    }
    pub fn zero() -> Int {
        Int::nat(Nat::zero())
    }
    pub fn from_i128(x: i128) -> Int {
        Int::new(x < 0, Nat::from_u128(x.unsigned_abs()))
    }
    pub fn from_u128(x: u128) -> Int {
        Int::nat(Nat::from_u128(x))
    }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m <= 1u128 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int::new(self.neg, self.mag.add(&o.mag))
        } else if let Some(m) = self.mag.sub(&o.mag) {
            Int::new(self.neg, m)
        } else {
            Int::new(o.neg, o.mag.sub(&self.mag).unwrap())
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    /// Truncated division.
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    /// Euclidean division: 0 <= r < |o|.
    pub fn divrem_euclid(&self, o: &Int) -> (Int, Nat) {
        let (q, r) = self.divrem(o);
        if !r.neg {
            return (q, r.mag);
        }
        let one = Int::from_i128(1);
        if o.neg {
            (q.add(&one), o.mag.sub(&r.mag).unwrap())
        } else {
            (q.sub(&one), o.mag.sub(&r.mag).unwrap())
        }
    }
    /// Floor of self / 2^n.
    pub fn shr_floor(&self, n: usize) -> Int {
        let q = self.mag.shr(n);
        if self.neg && self.mag.low_bits_nonzero(n) {
            Int::new(true, q.add_u32(1))
        } else {
            Int::new(self.neg, q)
        }
    }
    pub fn shl(&self, n: usize) -> Int {
        Int::new(self.neg, self.mag.shl(n))
    }
    /// Two's complement limbs, `n` of them.
    fn twos(&self, n: usize) -> Vec<u32> {
        let mut d = self.mag.d.clone();
        d.resize(n, 0);
        if self.neg {
            let mut c = 1u64;
            for x in d.iter_mut() {
                let t = (!*x) as u64 + c;
                *x = t as u32;
                c = t >> 32;
            }
        }
        d
    }
    fn from_twos(d: Vec<u32>) -> Int {
        let neg = d.last().map_or(false, |x| x >> 31 == 1);
        if !neg {
            return Int::nat(Nat::norm(d));
        }
        let mut d = d;
        let mut c = 1u64;
        for x in d.iter_mut() {
            let t = (!*x) as u64 + c;
            *x = t as u32;
            c = t >> 32;
        }
        Int::new(true, Nat::norm(d))
    }
    /// Infinite two's complement bitwise function.
    pub fn bitop(&self, o: &Int, f: impl Fn(u32, u32) -> u32) -> Int {
        let n = self.mag.d.len().max(o.mag.d.len()) + 2;
        let (a, b) = (self.twos(n), o.twos(n));
        Int::from_twos(a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect())
    }
    pub fn not(&self) -> Int {
        Int::from_i128(-1).sub(self)
    }
    pub fn pow(&self, e: usize) -> Int {
        Int::new(self.neg && e & 1 == 1, self.mag.pow(e))
    }
    pub fn hex(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.hex())
    }
    pub fn to_radix(&self, r: u32) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_radix(r))
    }
}
