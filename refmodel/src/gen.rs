//! Operand generators: sizes are biased towards algorithm thresholds (counted in machine words)
//! and bit patterns towards carry, borrow and normalisation corner cases.
use crate::int::Int;
use crate::nat::Nat;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Gen {
    /// Bits per machine word of the configuration under test.
    pub w: usize,
}

const LENS: &[usize] = &[
    1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 23, 24, 25, 26, 31, 32, 33, 34, 48, 49, 50, 63, 64, 65, 66, 72, 96, 97, 98, 99,
    128, 129, 160, 191, 192, 193, 194, 195, 196, 255, 256, 257, 288, 384, 385, 386, 387, 400, 512, 513, 576, 577, 578,
    579, 600, 768, 1023, 1024, 1025, 1026, 1100, 1280, 1536, 2047, 2048, 2049, 2100, 2304, 3071, 3072, 3073,
];

impl Gen {
    /// A length in words in 0..=max, biased to small values and thresholds.
    pub fn len(&self, r: &mut Rng, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let l = match r.usize(20) {
            0..=3 => r.usize(3),
            4..=7 => r.range(1, 5.min(max)),
            8..=10 => r.range(1, 40.min(max)),
            11..=15 => {
                let n = LENS.iter().take_while(|x| **x <= max).count();
                let b = LENS[r.usize(n.max(1))];
                let d = r.usize(5) as isize - 2;
                (b as isize + if r.bool() { 0 } else { d }).max(1) as usize
            }
            _ => r.log_range(1, max),
        };
        l.min(max)
    }
    /// A length near one of the given thresholds (or a multiple/fraction of it).
    pub fn len_near(&self, r: &mut Rng, base: usize, spread: usize, max: usize) -> usize {
        let lo = base.saturating_sub(spread).max(1);
        r.range(lo, base + spread).min(max).max(1)
    }
    pub fn special_word(&self, r: &mut Rng) -> u64 {
        let m = if self.w == 64 { u64::MAX } else { (1u64 << self.w) - 1 };
        let half = 1u64 << (self.w - 1);
        match r.usize(12) {
            0 | 1 => 0,
            2 | 3 => m,
            4 => 1,
            5 => m - 1,
            6 => half,
            7 => half - 1,
            8 => half + 1,
            9 => 1u64 << r.usize(self.w),
            10 => (1u64 << r.usize(self.w)).wrapping_sub(1) & m,
            _ => r.u64() & m,
        }
    }
    fn from_words(&self, words: &[u64]) -> Nat {
        let mut bytes = Vec::with_capacity(words.len() * self.w / 8);
        for x in words {
            bytes.extend_from_slice(&x.to_le_bytes()[..self.w / 8]);
        }
        Nat::from_le(&bytes)
    }
    /// Uniform with at most `bits` bits.
    pub fn random_bits(&self, r: &mut Rng, bits: usize) -> Nat {
        let n = bits.div_ceil(32);
        let d: Vec<u32> = (0..n).map(|_| r.u32()).collect();
        Nat::norm(d).low_bits(bits)
    }
    /// A number with bit length exactly `bits` for most patterns (never more).
    pub fn bits(&self, r: &mut Rng, bits: usize) -> Nat {
        if bits == 0 {
            return Nat::zero();
        }
        let top = Nat::pow2(bits - 1);
        let x = match r.usize(16) {
            0..=2 => self.random_bits(r, bits),
            3 => return Nat::ones(bits),
            4 => return top,
            5 => {
                // 2^k - small
                let s = Nat::from_u64(r.below(4) + 1);
                return Nat::pow2(bits).sub(&s).unwrap_or_else(Nat::zero).low_bits(bits);
            }
            6 => Nat::from_u64(r.below(5)).low_bits(bits),
            7 | 8 => {
                let n = bits.div_ceil(self.w);
                let v: Vec<u64> = (0..n).map(|_| self.special_word(r)).collect();
                self.from_words(&v)
            }
            9 | 10 => {
                // runs
                let mut d = vec![0u32; bits.div_ceil(32)];
                let mut i = 0;
                let mut v = r.bool();
                while i < bits {
                    let l = match r.usize(3) {
                        0 => r.range(1, 8),
                        1 => r.range(1, self.w * 2),
                        _ => r.range(1, bits),
                    };
                    if v {
                        for k in i..(i + l).min(bits) {
                            d[k / 32] |= 1 << (k % 32);
                        }
                    }
                    i += l;
                    v = !v;
                }
                Nat::norm(d)
            }
            11 => {
                // sparse
                let mut d = vec![0u32; bits.div_ceil(32)];
                for _ in 0..r.range(1, 6) {
                    let k = r.usize(bits);
                    d[k / 32] |= 1 << (k % 32);
                }
                Nat::norm(d)
            }
            12 => {
                // low zeros
                let z = if r.bool() { r.usize(bits) } else { r.usize(bits.div_ceil(self.w)) * self.w };
                self.random_bits(r, bits).shr(z).shl(z)
            }
            13 => {
                // random high, ones low
                let z = if r.bool() { r.usize(bits) } else { r.usize(bits.div_ceil(self.w)) * self.w };
                self.random_bits(r, bits).or(&Nat::ones(z))
            }
            14 => {
                // repeated word
                let w = self.special_word(r);
                self.from_words(&vec![w; bits.div_ceil(self.w)])
            }
            _ => {
                // ones, then a few words damaged
                let n = bits.div_ceil(self.w);
                let fill = if r.bool() { u64::MAX } else { 0 };
                let mut v = vec![fill; n];
                for _ in 0..r.range(1, 3) {
                    let i = r.usize(n);
                    v[i] = self.special_word(r);
                }
                self.from_words(&v)
            }
        };
        x.low_bits(bits).or(&top)
    }
    /// A number of exactly `words` machine words (0 for 0).
    pub fn words(&self, r: &mut Rng, words: usize) -> Nat {
        if words == 0 {
            return Nat::zero();
        }
        let top = match r.usize(6) {
            0 | 1 => self.w,
            2 => 1,
            3 => self.w - 1,
            _ => r.range(1, self.w),
        };
        self.bits(r, (words - 1) * self.w + top)
    }
    pub fn nat(&self, r: &mut Rng, max_words: usize) -> Nat {
        if r.chance(1, 24) {
            return Nat::from_u64(r.below(40));
        }
        let l = self.len(r, max_words);
        self.words(r, l)
    }
    pub fn nonzero(&self, r: &mut Rng, max_words: usize) -> Nat {
        let x = self.nat(r, max_words);
        if x.is_zero() {
            Nat::from_u64(r.below(9) + 1)
        } else {
            x
        }
    }
    /// A number structurally related to `a`.
    pub fn related(&self, r: &mut Rng, a: &Nat) -> Nat {
        let n = a.bit_len();
        let small = Nat::from_u64(r.below(5));
        match r.usize(15) {
            0 => a.clone(),
            1 => a.add(&small),
            2 => a.sub(&small).unwrap_or_else(Nat::zero),
            3 => Nat::ones(n).sub(a).unwrap(),
            4 => Nat::pow2(n).sub(a).unwrap(),
            5 => {
                // up to the next word boundary
                let m = n.div_ceil(self.w) * self.w;
                Nat::pow2(m).sub(a).unwrap().add(&Nat::from_u64(r.below(2)))
            }
            6 if n > 0 => {
                let k = r.usize(n);
                a.with_bit(k, !a.bit(k))
            }
            7 if n > 0 => {
                // same top, random below
                let k = r.usize(n);
                a.shr(k).shl(k).or(&self.random_bits(r, k))
            }
            8 if n > 0 => {
                // same low part
                let k = r.usize(n);
                a.low_bits(k)
            }
            9 => a.shl(r.usize(2 * self.w + 1)),
            10 => a.shr(r.usize(2 * self.w + 1)),
            11 => self.bits(r, n),
            12 => {
                let m = n.saturating_sub(r.usize(3)) + r.usize(3);
                self.bits(r, m)
            }
            13 if n > 0 => {
                let k = r.usize(n.div_ceil(self.w)) * self.w;
                a.shr(k).shl(k)
            }
            _ => self.bits(r, n),
        }
    }
    pub fn pair(&self, r: &mut Rng, max_words: usize) -> (Nat, Nat) {
        let a = self.nat(r, max_words);
        let b = if r.bool() {
            self.related(r, &a)
        } else {
            self.nat(r, max_words)
        };
        let b = if b.bit_len() > max_words * self.w { b.low_bits(max_words * self.w) } else { b };
        if r.bool() {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn int(&self, r: &mut Rng, max_words: usize) -> Int {
        Int::new(r.bool(), self.nat(r, max_words))
    }
    pub fn int_pair(&self, r: &mut Rng, max_words: usize) -> (Int, Int) {
        let (a, b) = self.pair(r, max_words);
        (Int::new(r.bool(), a), Int::new(r.bool(), b))
    }
    /// An integer near the boundaries of a primitive type of up to 128 bits.
    pub fn boundary(&self, r: &mut Rng) -> Int {
        let k = *r.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 24, 53, 96]);
        let b = Nat::pow2(k);
        let d = Nat::from_u64(r.below(3));
        let m = if r.bool() { b.add(&d) } else { b.sub(&d).unwrap() };
        Int::new(r.bool(), m)
    }
}
