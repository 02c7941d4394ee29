//! Numbers of more than 2^16 words: lengths at which a length, an index or an amount kept in too few bits is cut off.
//! What the quadratic reference model cannot multiply in reasonable time is judged by residues modulo several random 31-bit numbers.
use crate::*;
use ibig::{ops::*, ModuloRing};
use std::convert::TryFrom;

/// One case in `n` is one of these (never with 16-bit words, where the limit is 4096 words, nor under an interpreter).
pub fn due(r: &mut Rng, n: u64) -> bool {
    W > 16 && !cfg!(miri) && r.chance(1, n)
}
const FAST: bool = !cfg!(debug_assertions);

pub fn words(r: &mut Rng) -> usize {
    match r.usize(4) {
        0 => 65536 + r.usize(3),
        1 => 65536 + r.usize(64),
        2 => 65530 + r.usize(6),
        _ => r.range(65536, 90000),
    }
}
pub fn nat_of(r: &mut Rng, n: usize) -> Nat {
    match r.usize(6) {
        0 => Nat::ones(n * W),
        1 => Nat::pow2(n * W - 1),
        2 => G.words(r, n),
        _ => {
            // random, with a run of equal words somewhere
            let mut b: Vec<u8> = (0..n * (W / 8)).map(|_| r.u32() as u8).collect();
            let (at, len) = (r.usize(b.len()), r.usize(b.len()));
            let to = (at + len).min(b.len());
            let v = if r.bool() { 255 } else { 0 };
            if r.bool() {
                b[at..to].fill(v);
            }
            let l = b.len();
            b[l - 1] |= 1 << r.usize(8);
            Nat::from_le(&b)
        }
    }
}
pub fn giant(r: &mut Rng) -> Nat {
    let n = words(r);
    nat_of(r, n)
}
pub fn pair(r: &mut Rng) -> (Nat, Nat) {
    let a = giant(r);
    let b = match r.usize(5) {
        0 => giant(r),
        1 => G.nat(r, 4),
        2 => a.with_bit(r.usize(a.bit_len()), r.bool()),
        3 => a.low_bits(r.usize(a.bit_len())),
        _ => {
            let n = r.range(1, 65536);
            nat_of(r, n)
        }
    };
    if r.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

/// Residues modulo numbers drawn for the occasion.
pub struct Res(Vec<u64>);
impl Res {
    pub fn new(r: &mut Rng) -> Res {
        Res((0..4).map(|_| (1 << 30) | (r.u32() as u64 >> 2) | 1).collect())
    }
    pub fn few(r: &mut Rng, n: usize) -> Res {
        let mut q = Res::new(r);
        q.0.truncate(n);
        q
    }
    pub fn of_bytes(&self, b: &[u8]) -> Vec<u64> {
        let (c, top) = b.split_at(b.len() & !3);
        let top = top.iter().rev().fold(0, |a, b| a << 8 | *b as u64);
        let word = |c: &[u8]| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64;
        self.0.iter().map(|m| c.chunks_exact(4).rev().fold(top % m, |a, d| (a << 32 | word(d)) % m)).collect()
    }
    pub fn sub(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        self.zip(a, b, |a, b, m| (a + m - b) % m)
    }
    pub fn of(&self, x: &Nat) -> Vec<u64> {
        self.0.iter().map(|m| x.d.iter().rev().fold(0, |a, d| ((a << 32) | *d as u64) % m)).collect()
    }
    pub fn of_text(&self, s: &str, radix: u32) -> Vec<u64> {
        self.0.iter().map(|m| s.bytes().fold(0, |a, c| (a * radix as u64 + (c as char).to_digit(radix).unwrap() as u64) % m)).collect()
    }
    fn zip(&self, a: &[u64], b: &[u64], f: impl Fn(u64, u64, u64) -> u64) -> Vec<u64> {
        (0..self.0.len()).map(|i| f(a[i], b[i], self.0[i])).collect()
    }
    pub fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        self.zip(a, b, |a, b, m| a * b % m)
    }
    pub fn add(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        self.zip(a, b, |a, b, m| (a + b) % m)
    }
    pub fn pow(&self, a: &[u64], e: usize) -> Vec<u64> {
        let mut y: Vec<u64> = self.0.iter().map(|m| 1 % m).collect();
        for i in (0..usize::BITS - e.leading_zeros()).rev() {
            y = self.mul(&y, &y);
            if e >> i & 1 == 1 {
                y = self.mul(&y, a);
            }
        }
        y
    }
}

pub fn mul(r: &mut Rng, ck: &mut Ck) {
    let a = giant(r);
    let m = match r.usize(6) {
        0 => words(r).min(if FAST { usize::MAX } else { 9000 }),
        1 => r.range(400, 6000),
        2 => r.range(1, 3),
        _ => r.range(1, 400),
    };
    let b = nat_of(r, m);
    ck.inp("a", &a);
    ck.inp("b", &b);
    let q = Res::new(r);
    let (x, y) = (ub(&a), ub(&b));
    let p = match r.usize(4) {
        0 => &x * &y,
        1 => &y * &x,
        2 => x * &y,
        _ => {
            let mut t = y;
            t *= &x;
            t
        }
    };
    let p = nat(&p);
    ck.eq("giant product, residues", q.of(&p), q.mul(&q.of(&a), &q.of(&b)));
    let bits = a.bit_len() + b.bit_len();
    ck.t("giant product, length", p.bit_len() == bits || p.bit_len() == bits - 1);
}

pub fn pow(r: &mut Rng, ck: &mut Ck) {
    let b = if r.bool() { Nat::from_u64(3 + r.below(50)) } else { G.words(r, 2).or(&Nat::from_u64(5)) };
    let target = (65536 + r.usize(2000)) * if FAST { W } else { W.min(32) };
    let e = target / (b.bit_len() - 1).max(1);
    ck.inp("base", &b);
    ck.inp_n("exp", e as u128);
    let q = Res::new(r);
    let g = nat(&ub(&b).pow(e));
    ck.eq("giant power, residues", q.of(&g), q.pow(&q.of(&b), e));
    ck.t("giant power, length", g.bit_len() >= e * (b.bit_len() - 1) && g.bit_len() <= e * b.bit_len());
    let k = W * words(r) + r.usize(W);
    ck.u("giant power of two", &UBig::from(2u8).pow(k), &Nat::pow2(k));
    ck.i("giant power of -2", &IBig::from(-2i8).pow(k), &Int::new(k % 2 == 1, Nat::pow2(k)));
}

pub fn div(r: &mut Rng, ck: &mut Ck) {
    let a = giant(r);
    let m = match r.usize(8) {
        0 => r.range(20000, 60000),
        1 | 2 => a.bit_len() / W - r.usize(600),
        3 => r.range(400, 3000),
        4 => r.range(1, 2),
        _ => r.range(1, 400),
    };
    let m = if FAST || m > 64000 { m } else { m.min(3000) };
    let b = nat_of(r, m);
    ck.inp("a", &a);
    ck.inp("b", &b);
    let res = Res::new(r);
    let (x, y) = (ub(&a), ub(&b));
    let (q, m) = match r.usize(4) {
        0 => (&x).div_rem(&y),
        1 => x.clone().div_rem(y.clone()),
        2 => (&x / &y, x.clone() % &y),
        _ => {
            let mut t = x.clone();
            t /= &y;
            let mut u = x.clone();
            u %= y.clone();
            (t, u)
        }
    };
    let (q, m) = (nat(&q), nat(&m));
    ck.t("giant remainder is less than the divisor", m.lt(&b));
    ck.eq("giant q * b + r, residues", res.add(&res.mul(&res.of(&q), &res.of(&b)), &res.of(&m)), res.of(&a));
    ck.t("giant quotient, length", q.bit_len() <= a.bit_len() && q.bit_len() + b.bit_len() <= a.bit_len() + 1);
    let i = -IBig::from(&x);
    let j = IBig::from(&y);
    let (eq, em) = (&i).div_rem_euclid(&j);
    let (eq, em) = (int(&eq), int(&em).mag);
    let (wq, wm) = if m.is_zero() { (q, m) } else { (q.add(&Nat::one()), b.sub(&m).unwrap()) };
    ck.t("giant euclidean division", eq.mag == wq && (eq.neg || wq.is_zero()) && em == wm);
}

pub fn eq_ord(r: &mut Rng, ck: &mut Ck) {
    use std::hash::{Hash, Hasher};
    let (a, b) = pair(r);
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let o = a.cmp(&b);
    ck.eq("giant cmp", (x.cmp(&y), y.cmp(&x), x == y, x < y), (o, o.reverse(), o.is_eq(), o.is_lt()));
    let (i, j) = (-IBig::from(&x), -IBig::from(&y));
    ck.eq("giant cmp, negative", (i.cmp(&j), j.cmp(&i), i == j), (o.reverse(), o, o.is_eq()));
    let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x(&mut h);
        h.finish()
    };
    let k = r.usize(300);
    let mut c = y.clone();
    c.clone_from(&x);
    let routes = [(&x + &y) - &y, (&x << k) >> k, &x ^ &y ^ &y, c];
    for t in &routes {
        ck.t("giant equal", *t == x && h(&|s| t.hash(s)) == h(&|s| x.hash(s)));
        ck.u("giant value", t, &a);
    }
}
pub fn shifts(r: &mut Rng, ck: &mut Ck) {
    let a = if r.bool() { giant(r) } else { G.nonzero(r, 6) };
    let n = match r.usize(5) {
        0 => words(r) * W + r.usize(W),
        1 => {
            let n = words(r) * W;
            r.usize(n)
        }
        2 => a.bit_len().saturating_sub(r.usize(3 * W)),
        3 => 65536 * r.range(1, W) + r.usize(W),
        _ => r.usize(6 * W),
    };
    let ai = Int::new(r.bool(), a.clone());
    ck.inp_i("a", &ai);
    ck.inp_n("n", n as u128);
    let (x, p) = (ub(&a), ib(&ai));
    ck.u("giant u<<", &(&x << n), &a.shl(n));
    ck.u("giant u>>", &(&x >> n), &a.shr(n));
    ck.i("giant i>>", &(&p >> n), &ai.shr_floor(n));
    let mut t = x.dup();
    t <<= n;
    ck.u("giant u<<=", &t, &a.shl(n));
    t >>= n;
    ck.u("giant u>>=", &t, &a);
    let mut t = p.dup();
    t >>= n;
    ck.i("giant i>>=", &t, &ai.shr_floor(n));
    ck.i("giant i<<", &(p << n), &ai.shl(n));
    ck.u("giant u>>", &(x >> n), &a.shr(n));
}

pub fn bits(r: &mut Rng, ck: &mut Ck) {
    let mut a = match r.usize(4) {
        0 => G.nonzero(r, 3).shl(words(r) * W + r.usize(W)),
        1 => Nat::pow2(words(r) * W + r.usize(W)),
        2 => G.nonzero(r, 3),
        _ => giant(r),
    };
    let mut x = ub(&a);
    for _ in 0..6 {
        ck.clear_inputs();
        ck.inp("a", &a);
        ck.eq("giant bit_len", x.bit_len(), a.bit_len());
        ck.eq("giant trailing_zeros", x.trailing_zeros(), a.trailing_zeros());
        ck.eq("giant trailing_zeros, negative", (-IBig::from(&x)).trailing_zeros(), a.trailing_zeros());
        ck.eq("giant is_power_of_two", x.is_power_of_two(), a.is_pow2());
        for _ in 0..20 {
            let k = r.usize(100 * 1000 * W);
            ck.eq("giant bit", x.bit(k), a.bit(k));
        }
        let np = if a.is_zero() { Nat::one() } else if a.is_pow2() { a.clone() } else { Nat::pow2(a.bit_len()) };
        ck.u("giant next_power_of_two", &x.clone().next_power_of_two(), &np);
        let k = match r.usize(3) {
            0 => a.bit_len().saturating_sub(1),
            _ => words(r) * W + r.usize(W),
        };
        ck.inp_n("k", k as u128);
        if r.bool() {
            x.set_bit(k);
            a = a.with_bit(k, true);
        } else {
            x.clear_bit(k);
            a = if a.bit(k) { a.with_bit(k, false) } else { a };
        }
        ck.u("giant set_bit or clear_bit", &x, &a);
    }
}

pub fn text(r: &mut Rng, ck: &mut Ck) {
    let a = giant(r);
    ck.inp("a", &a);
    let x = ub(&a);
    ck.eq("giant hexadecimal", format!("{x:x}"), a.hex());
    let radix = *r.pick(&[2, 4, 8, 32, 10, 3, 36]);
    if FAST || [2, 4, 8, 32].contains(&radix) {
        let s = x.in_radix(radix).to_string();
        let q = Res::new(r);
        ck.t("giant text has no leading zero", !s.starts_with('0'));
        ck.eq("giant text, residues", q.of_text(&s, radix), q.of(&a));
        let w = s.len() + r.usize(300);
        let t = format!("{:>+w$}", IBig::from(x).in_radix(radix), w = w.min(65535));
        ck.t("giant text, padded", t.len() == (s.len() + 1).max(w.min(65535)) && t.trim_start() == format!("+{s}"));
    }
}

pub fn parse(r: &mut Rng, ck: &mut Ck) {
    let radix = *r.pick(&[2u32, 4, 8, 16, 32, 10, 10, 7, 35]);
    let pow2 = radix.is_power_of_two();
    let n = ((65600 + r.usize(3000)) * W) as f64 / (radix as f64).log2();
    // digits cut off at 2^16 or 2^20 of them, too
    let n = match r.usize(3) {
        0 => 65536 + r.usize(100),
        1 => (1 << 20) + r.usize(100),
        _ => n as usize,
    };
    let n = if FAST || pow2 { n } else { n.min(200_000) };
    let mut s: String = (0..n).map(|_| std::char::from_digit(r.u32() % radix, radix).unwrap()).collect();
    if r.chance(1, 3) {
        let z = "0".repeat(r.usize(100_000));
        s.insert_str(r.usize(s.len()), &z);
    }
    ck.inp_n("radix", radix as u128);
    ck.inp_n("digits", s.len() as u128);
    ck.inp_s("starts", &s[..20]);
    let q = Res::new(r);
    match UBig::from_str_radix(&s, radix) {
        Err(e) => ck.t(&format!("giant text is refused: {e:?}"), false),
        Ok(x) => {
            ck.eq("giant parse, residues", q.of(&nat(&x)), q.of_text(&s, radix));
            let first = s.bytes().position(|c| c != b'0').map_or(0, |p| s.len() - p);
            let bits = first as f64 * (radix as f64).log2();
            ck.t("giant parse, length", (x.bit_len() as f64) < bits + 2.0 && x.bit_len() as f64 > bits - 8.0);
        }
    }
    let at = r.usize(s.len());
    let mut t = s;
    t.replace_range(at..at + 1, "!");
    ck.t("giant invalid text", UBig::from_str_radix(&t, radix) == Err(ibig::error::ParseError::InvalidDigit));
}

pub fn bytes(r: &mut Rng, ck: &mut Ck) {
    let a = giant(r);
    ck.inp("a", &a);
    let b = a.to_le();
    let mut c = b.clone();
    c.reverse();
    let x = UBig::from_le_bytes(&b);
    let y = UBig::from_be_bytes(&c);
    ck.eq("giant hex of le", format!("{x:x}"), a.hex());
    ck.t("giant le and be agree", x == y);
    ck.t("giant to_le_bytes", y.to_le_bytes() == b);
    ck.t("giant to_be_bytes", x.to_be_bytes() == c);
    let mut p = b;
    p.extend(vec![0; r.usize(600_000)]);
    ck.t("giant padded le", UBig::from_le_bytes(&p) == x);
    p.reverse();
    ck.t("giant padded be", UBig::from_be_bytes(&p) == x);
}

pub fn conv(r: &mut Rng, ck: &mut Ck) {
    let a = giant(r);
    ck.inp("a", &a);
    let x = ub(&a);
    let i = -IBig::from(&x);
    ck.t("giant to primitives", u128::try_from(&x).is_err() && i128::try_from(&i).is_err() && u8::try_from(&x).is_err() && i64::try_from(i.clone()).is_err());
    ck.i("giant IBig", &i, &Int::new(true, a.clone()));
    ck.t("giant UBig from IBig", UBig::try_from(&i).is_err() && UBig::try_from(-&i) == Ok(x.clone()));
    ck.eq("giant to_f64", (x.to_f64(), i.to_f64()), (f64::INFINITY, f64::NEG_INFINITY));
    ck.eq("giant to_f32", (x.to_f32(), i.to_f32()), (f32::INFINITY, f32::NEG_INFINITY));
}

pub fn signs(r: &mut Rng, ck: &mut Ck) {
    let i = Int::new(r.bool(), giant(r));
    ck.inp_i("i", &i);
    let v = ib(&i);
    ck.i("giant neg", &-&v, &i.neg());
    ck.i("giant neg v", &-v.clone(), &i.neg());
    ck.i("giant abs", &(&v).abs(), &Int::nat(i.mag.clone()));
    ck.u("giant unsigned_abs", &(&v).unsigned_abs(), &i.mag);
    ck.i("giant signum", &v.signum(), &Int::from_i128(if i.neg { -1 } else { 1 }));
    ck.eq("giant is_negative", v < IBig::from(0u8), i.neg);
}

pub fn gcd(r: &mut Rng, ck: &mut Ck) {
    let g = G.nonzero(r, 3);
    let b = g.mul(&G.nonzero(r, 20));
    let mut a = giant(r);
    if r.bool() {
        // a multiple of g
        a = a.sub(&a.rem(&g)).unwrap();
    }
    if r.chance(1, 3) {
        let s = r.usize(70000 * W);
        a = a.shl(s);
    }
    ck.inp("a", &a);
    ck.inp("b", &b);
    let want = b.gcd(&a.rem(&b));
    let (x, y) = (ub(&a), ub(&b));
    ck.u("giant gcd", &x.gcd(&y), &want);
    ck.u("giant gcd", &y.gcd(&x), &want);
    let (d, s, t) = x.extended_gcd(&y);
    ck.u("giant extended_gcd", &d, &want);
    let q = Res::new(r);
    // d + |negative term| = positive term
    let (s, t) = (int(&s), int(&t));
    let (u, v) = (q.mul(&q.of(&s.mag), &q.of(&a)), q.mul(&q.of(&t.mag), &q.of(&b)));
    let sub = |a: &[u64], b: &[u64]| q.zip(a, b, |a, b, m| (a + m - b) % m);
    let z = vec![0; u.len()];
    let sum = q.add(&if s.neg { sub(&z, &u) } else { u }, &if t.neg { sub(&z, &v) } else { v });
    ck.eq("giant bezout, residues", sum, q.of(&want));
}

pub fn ring(r: &mut Rng, ck: &mut Ck) {
    let n = giant(r).or(&Nat::one());
    let (a, b) = (nat_of(r, 65000), giant(r));
    ck.inp("n", &n);
    ck.inp("a", &a);
    ck.inp("b", &b);
    let ring = ModuloRing::new(&ub(&n));
    ck.u("giant modulus", &ring.modulus(), &n);
    let red = |x: Nat| if x.lt(&n) { x } else { x.rem_near(&n) };
    let (av, bv) = (red(a.clone()), red(b.clone()));
    let (x, y) = (ring.from(ub(&a)), ring.from(-ib(&Int::nat(b))));
    let nb = if bv.is_zero() { bv } else { n.sub(&bv).unwrap() };
    ck.u("giant residue", &x.residue(), &av);
    ck.u("giant residue of a negative number", &y.residue(), &nb);
    ck.u("giant ring +", &(&x + &y).residue(), &red(av.add(&nb)));
    ck.u("giant ring -", &(&x - &y).residue(), &red(av.add(&n).sub(&nb).unwrap()));
    ck.u("giant ring neg", &(-&x).residue(), &if av.is_zero() { av.clone() } else { n.sub(&av).unwrap() });
    let z = ring.from(7u8);
    let w = nat(&(&x * &z).residue());
    ck.t("giant ring * 7", w.lt(&n) && w == red(av.mul_u32(7)));
}
trait RemNear {
    fn rem_near(&self, n: &Nat) -> Nat;
}
impl RemNear for Nat {
    /// Of a number not much longer than `n`.
    fn rem_near(&self, n: &Nat) -> Nat {
        let mut x = self.clone();
        let d = x.bit_len().saturating_sub(n.bit_len());
        if d > 64 {
            return x.rem(n);
        }
        for k in (0..=d).rev() {
            let t = n.shl(k);
            if t.le(&x) {
                x = x.sub(&t).unwrap();
            }
        }
        x
    }
}
