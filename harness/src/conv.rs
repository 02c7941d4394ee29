//! Conversions between ibig values and the reference model.
use ibig::{ops::UnsignedAbs, IBig, UBig};
use crate::W;
use refmodel::{Int, Nat};

/// By the shortest route.
pub fn plain(x: &Nat) -> UBig {
    UBig::from_le_bytes(&x.to_le())
}
/// Mostly by the shortest route; for some numbers (always the same ones) by histories that are apt to leave no spare room behind the
/// digits, or a lot of it.
pub fn ub(x: &Nat) -> UBig {
    plain(x).dup()
}
/// A copy, mostly by `clone`; for some numbers (always the same ones) by histories that are apt to leave no spare room behind the
/// digits, or a lot of it (a clone always has the same spare room).
pub trait Dup {
    fn dup(&self) -> Self;
}
impl Dup for UBig {
    fn dup(&self) -> UBig {
        let bits = self.bit_len();
        let n = bits.div_ceil(W);
        if n < 4 || n > 3000 {
            return self.clone();
        }
        let mut key = n as u64;
        for i in [1, 3, 4, 6, 7, 10, 11, 12, 13] {
            key = key << 4 ^ (self.bit(i * 5) as u64) << 3 ^ (self.bit(bits - i * 3) as u64) << 1 ^ self.bit(bits / 2 + i) as u64 ^ key >> 57;
        }
        let t = match key.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 60 {
            0..=2 => std::panic::catch_unwind(|| tight(self, n)),
            3 => std::panic::catch_unwind(|| roomy(self, n)),
            _ => return self.clone(),
        };
        match t {
            Ok(Some(t)) if t.to_le_bytes() == self.to_le_bytes() => t,
            _ => self.clone(),
        }
    }
}
impl Dup for usize {
    fn dup(&self) -> usize {
        *self
    }
}
impl Dup for IBig {
    fn dup(&self) -> IBig {
        let m = IBig::from(self.unsigned_abs().dup());
        if *self < IBig::from(0u8) {
            -m
        } else {
            m
        }
    }
}
/// Grown from a number of `m` words, with room for n, into n words.
fn tight(x: &UBig, n: usize) -> Option<UBig> {
    let m = (n.saturating_sub(n / 8 + 4).max(2)..n).find(|m| m + m / 8 + 2 == n)?;
    let (lo, hi) = (m * W - 1, n * W - 1);
    let mut t = plain(&Nat::one().shl(lo));
    t.set_bit(hi);
    t |= x;
    for i in [lo, hi] {
        if !x.bit(i) {
            t.clear_bit(i);
        }
    }
    Some(t)
}
/// What is left of a number of `m` words after its top has been cleared.
fn roomy(x: &UBig, n: usize) -> Option<UBig> {
    let m = (n..2 * n + 8).find(|m| m + m / 8 + 2 >= n + n / 4 + 4)?;
    let m = if m + m / 8 + 2 > n + n / 4 + 4 { m - 1 } else { m };
    if m <= n {
        return None;
    }
    let top = m * W - 1;
    let mut t = plain(&Nat::one().shl(top));
    t |= x;
    t.clear_bit(top);
    Some(t)
}
pub fn ib(x: &Int) -> IBig {
    let m = IBig::from(ub(&x.mag));
    if x.neg {
        -m
    } else {
        m
    }
}
pub fn nat(x: &UBig) -> Nat {
    Nat::from_le(&x.to_le_bytes())
}
pub fn int(x: &IBig) -> Int {
    let neg = *x < IBig::from(0u8);
    let m = ibig::ops::UnsignedAbs::unsigned_abs(x);
    Int { neg, mag: nat(&m) }
}
