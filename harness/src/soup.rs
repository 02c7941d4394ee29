//! A pool of live values with their shadows in the reference model, and random steps over it: the histories that single
//! operations cannot show (leftover capacity, in-place reuse, values that survived a panic, clones into used values).
use crate::*;
use ibig::ops::*;
use ibig::ModuloRing;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub struct Soup {
    pub u: Vec<(UBig, Nat)>,
    pub i: Vec<(IBig, Int)>,
    pub max_bits: usize,
    pub g: Gen,
    /// Panicking calls are part of the mix.
    pub panics: bool,
    pub log: Option<Vec<String>>,
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A number in good shape: it behaves as any other number of its value.
pub fn valid_u(x: &UBig) -> Result<Nat, String> {
    let v = nat(x);
    let f = ub(&v);
    if *x != f || hash(x) != hash(&f) {
        return Err(format!("not equal to a fresh {}", v.hex()));
    }
    if x.bit_len() != v.bit_len() {
        return Err(format!("bit_len {} of {}", x.bit_len(), v.hex()));
    }
    if format!("{x:x}") != v.hex() {
        return Err("text".into());
    }
    if x.clone() != f || x.cmp(&f) != std::cmp::Ordering::Equal {
        return Err("clone".into());
    }
    if (x >> 1usize) + (x - (x >> 1usize)) != f {
        return Err("arithmetic".into());
    }
    Ok(v)
}
pub fn valid_i(x: &IBig) -> Result<Int, String> {
    let v = int(x);
    let f = ib(&v);
    if *x != f || hash(x) != hash(&f) {
        return Err(format!("not equal to a fresh {}", v.hex()));
    }
    if format!("{x:x}") != v.hex() {
        return Err(format!("text {x:x} of {}", v.hex()));
    }
    if x.clone() != f || x.cmp(&f) != std::cmp::Ordering::Equal || (x - &f) != IBig::from(0) || -(-x.clone()) != f {
        return Err("clone or arithmetic".into());
    }
    if v.is_zero() && (*x < IBig::from(0) || x.signum() != IBig::from(0)) {
        return Err("zero has a sign".into());
    }
    Ok(v)
}

impl Soup {
    pub fn new(r: &mut Rng, g: Gen, slots: usize, max_bits: usize) -> Soup {
        let words = (max_bits / g.w / 4).max(1);
        let u = (0..slots)
            .map(|_| {
                let v = g.nat(r, words);
                (ub(&v), v)
            })
            .collect();
        let i = (0..slots)
            .map(|_| {
                let v = g.int(r, words);
                (ib(&v), v)
            })
            .collect();
        Soup { u, i, max_bits, g, panics: false, log: None }
    }
    fn note(&mut self, s: String) {
        if let Some(l) = &mut self.log {
            l.push(s);
        }
    }
    pub fn len(&self) -> usize {
        self.u.len()
    }
    fn put_u(&mut self, r: &mut Rng, ck: &mut Ck, label: &str, x: UBig, v: Nat) {
        ck.u(label, &x, &v);
        if self.log.is_some() {
            let s = format!("{label} {}", x);
            self.note(s);
        }
        if v.bit_len() > self.max_bits {
            return;
        }
        let k = r.usize(self.u.len());
        if r.chance(1, 4) {
            self.u[k].0.clone_from(&x);
        } else {
            self.u[k].0 = x;
        }
        self.u[k].1 = v;
    }
    fn put_i(&mut self, r: &mut Rng, ck: &mut Ck, label: &str, x: IBig, v: Int) {
        ck.i(label, &x, &v);
        if self.log.is_some() {
            let s = format!("{label} {}", x);
            self.note(s);
        }
        if v.mag.bit_len() > self.max_bits {
            return;
        }
        let k = r.usize(self.i.len());
        if r.chance(1, 4) {
            self.i[k].0.clone_from(&x);
        } else {
            self.i[k].0 = x;
        }
        self.i[k].1 = v;
    }
    /// An in-place update of slot `k` that panics where there is no result; afterwards the slot must hold some valid number.
    fn inplace_u(&mut self, ck: &mut Ck, label: &str, k: usize, want: Option<Nat>, f: impl FnOnce(&mut UBig)) {
        let t = &mut self.u[k].0;
        match want {
            Some(w) => {
                if ck.ok(label, || f(t)).is_some() {
                    ck.u(label, t, &w);
                    self.u[k].1 = w;
                }
                if self.log.is_some() {
                    let s = format!("{label} {}", self.u[k].0);
                    self.note(s);
                }
            }
            None => {
                ck.panics(label, || f(t));
                self.after_panic_u(ck, label, k);
            }
        }
    }
    fn after_panic_u(&mut self, ck: &mut Ck, label: &str, k: usize) {
        let x = &self.u[k].0;
        match Ck::guard(|| valid_u(x)) {
            Ok(Ok(v)) => {
                ck.t("target of a panicked in-place operation is valid", true);
                self.u[k].1 = v;
            }
            Ok(Err(m)) | Err(m) => {
                ck.t_msg("target of a panicked in-place operation is valid", false, || format!("after {label}: {m}"));
                self.u[k] = (UBig::default(), Nat::zero());
            }
        }
        self.note(format!("{label} panicked"));
    }
    fn inplace_i(&mut self, ck: &mut Ck, label: &str, k: usize, want: Option<Int>, f: impl FnOnce(&mut IBig)) {
        let t = &mut self.i[k].0;
        match want {
            Some(w) => {
                if ck.ok(label, || f(t)).is_some() {
                    ck.i(label, t, &w);
                    self.i[k].1 = w;
                }
                if self.log.is_some() {
                    let s = format!("{label} {}", self.i[k].0);
                    self.note(s);
                }
            }
            None => {
                ck.panics(label, || f(t));
                let x = &self.i[k].0;
                match Ck::guard(|| valid_i(x)) {
                    Ok(Ok(v)) => {
                        ck.t("target of a panicked in-place operation is valid", true);
                        self.i[k].1 = v;
                    }
                    Ok(Err(m)) | Err(m) => {
                        ck.t_msg("target of a panicked in-place operation is valid", false, || format!("after {label}: {m}"));
                        self.i[k] = (IBig::default(), Int::zero());
                    }
                }
                self.note(format!("{label} panicked"));
            }
        }
    }
    /// Every value is still what its shadow says.
    pub fn verify(&self, ck: &mut Ck) {
        for (x, v) in &self.u {
            ck.u("pool value unchanged", x, v);
            if let Err(m) = valid_u(x) {
                ck.t_msg("pool value valid", false, || m);
            }
        }
        for (x, v) in &self.i {
            ck.i("pool value unchanged", x, v);
            if let Err(m) = valid_i(x) {
                ck.t_msg("pool value valid", false, || m);
            }
        }
    }

    pub fn step(&mut self, r: &mut Rng, ck: &mut Ck) {
        ck.clear_inputs();
        if r.bool() {
            self.step_u(r, ck)
        } else {
            self.step_i(r, ck)
        }
    }

    fn step_u(&mut self, r: &mut Rng, ck: &mut Ck) {
        let n = self.u.len();
        let (ka, kb) = (r.usize(n), r.usize(n));
        let (a, av) = (self.u[ka].0.clone(), self.u[ka].1.clone());
        let (b, bv) = (self.u[kb].0.clone(), self.u[kb].1.clone());
        ck.inp("a", &av);
        ck.inp("b", &bv);
        let p = self.panics;
        let m = self.max_bits;
        match r.usize(34) {
            0 => self.put_u(r, ck, "u+u", &a + b, av.add(&bv)),
            1 if av.bit_len().max(bv.bit_len()) < m => {
                let w = av.add(&bv);
                self.inplace_u(ck, "u+=u", ka, Some(w), |t| *t += b)
            }
            2 => match av.sub(&bv) {
                Some(w) => self.inplace_u(ck, "u-=&u", ka, Some(w), |t| *t -= &b),
                None if p => self.inplace_u(ck, "u-=&u", ka, None, |t| *t -= &b),
                None => self.put_u(r, ck, "u-u", b - a, bv.sub(&av).unwrap()),
            },
            3 => match av.sub(&bv) {
                Some(w) => self.inplace_u(ck, "u-=u", ka, Some(w), |t| *t -= b),
                None if p => self.inplace_u(ck, "u-=u", ka, None, |t| *t -= b),
                None => self.put_u(r, ck, "&u-&u", &b - &a, bv.sub(&av).unwrap()),
            },
            4 | 5 => self.put_u(r, ck, "u*u", &a * &b, av.mul(&bv)),
            6 if av.bit_len() + bv.bit_len() < m => {
                let w = av.mul(&bv);
                self.inplace_u(ck, "u*=u", ka, Some(w), |t| *t *= b)
            }
            7 if bv.is_zero() && p => match r.usize(6) {
                0 => self.inplace_u(ck, "u/=0", ka, None, |t| *t /= b),
                1 => self.inplace_u(ck, "u/=&0", ka, None, |t| *t /= &b),
                2 => self.inplace_u(ck, "u%=0", ka, None, |t| *t %= b),
                3 => self.inplace_u(ck, "u%=&0", ka, None, |t| *t %= &b),
                4 => self.inplace_u(ck, "u/=0u8", ka, None, |t| *t /= 0u8),
                _ => self.inplace_u(ck, "u%=0u64", ka, None, |t| {
                    *t = std::mem::take(t) % UBig::from(0u64);
                }),
            },
            7 | 8 if !bv.is_zero() => {
                let (qv, rv) = av.divrem(&bv);
                let (q, rm) = a.div_rem(b);
                self.put_u(r, ck, "div", q, qv);
                self.put_u(r, ck, "rem", rm, rv);
            }
            9 if !bv.is_zero() => {
                let w = av.divrem(&bv).0;
                self.inplace_u(ck, "u/=u", ka, Some(w), |t| *t /= b)
            }
            10 if !bv.is_zero() => {
                let w = av.rem(&bv);
                self.inplace_u(ck, "u%=&u", ka, Some(w), |t| *t %= &b)
            }
            11 => {
                let s = r.usize(3 * self.g.w);
                self.put_u(r, ck, "<<", a << s, av.shl(s))
            }
            12 => {
                let s = r.usize(av.bit_len() + self.g.w);
                let w = av.shr(s);
                self.inplace_u(ck, "u>>=", ka, Some(w), |t| *t >>= s)
            }
            13 => {
                let s = r.usize(m.saturating_sub(av.bit_len()).min(5 * self.g.w) + 1);
                let w = av.shl(s);
                self.inplace_u(ck, "u<<=", ka, Some(w), |t| *t <<= s)
            }
            14 => {
                let w = av.and(&bv);
                self.inplace_u(ck, "u&=u", ka, Some(w), |t| *t &= b)
            }
            15 => {
                let w = av.or(&bv);
                self.inplace_u(ck, "u|=&u", ka, Some(w), |t| *t |= &b)
            }
            16 => {
                let w = av.xor(&bv);
                self.inplace_u(ck, "u^=u", ka, Some(w), |t| *t ^= b)
            }
            17 => self.put_u(r, ck, "and_not", a.and_not(b), av.and_not(&bv)),
            18 => {
                let k = r.usize(av.bit_len() + 2 * self.g.w);
                if k < m {
                    let (on, w) = (r.bool(), av.clone());
                    let w = w.with_bit(k, on);
                    self.inplace_u(ck, "set_bit/clear_bit", ka, Some(w), |t| if on { t.set_bit(k) } else { t.clear_bit(k) })
                }
            }
            19 => {
                let k = r.usize(n);
                if k != ka {
                    let w = av.clone();
                    self.inplace_u(ck, "clone_from", k, Some(w), |t| t.clone_from(&a))
                }
            }
            20 if !(av.is_zero() && bv.is_zero()) && av.bit_len().min(bv.bit_len()) < 3000 => {
                self.put_u(r, ck, "gcd", a.gcd(&b), av.gcd(&bv))
            }
            20 if p && av.is_zero() && bv.is_zero() => {
                ck.panics("gcd(0, 0)", || a.gcd(&b));
            }
            21 if !(av.is_zero() && bv.is_zero()) && av.bit_len().max(bv.bit_len()) < 3000 => {
                let (g, x, y) = a.extended_gcd(&b);
                let gv = av.gcd(&bv);
                let (xv, yv) = (int(&x), int(&y));
                let id = xv.mul(&Int::nat(av)).add(&yv.mul(&Int::nat(bv))) == Int::nat(gv.clone());
                ck.t("bezout", id);
                self.put_u(r, ck, "xgcd", g, gv);
                self.put_i(r, ck, "xgcd x", x, xv);
                self.put_i(r, ck, "xgcd y", y, yv);
            }
            22 => {
                let radix = r.range(2, 36) as u32;
                let s = a.in_radix(radix).to_string();
                ck.eq("text", s.clone(), av.to_radix(radix));
                let x = UBig::from_str_radix(&s, radix).must("parse");
                self.put_u(r, ck, "parse", x, av)
            }
            23 => {
                let bytes = a.to_be_bytes();
                let x = UBig::from_be_bytes(&bytes);
                self.put_u(r, ck, "be bytes", x, av)
            }
            24 => {
                let v = IBig::from(a);
                self.put_i(r, ck, "IBig::from", v, Int::nat(av))
            }
            25 => {
                let x = std::mem::take(&mut self.u[ka].0);
                self.u[ka].1 = Nat::zero();
                ck.u("taken", &self.u[ka].0, &Nat::zero());
                self.put_u(r, ck, "take", x, av)
            }
            26 => {
                self.u.swap(ka, kb);
            }
            27 if av.bit_len() < m / 4 => {
                let e = r.usize(4);
                self.put_u(r, ck, "pow", a.pow(e), av.pow(e))
            }
            28 if !bv.is_zero() => {
                let ring = ModuloRing::new(&b);
                let x = ring.from(&a);
                let y = ring.from(&self.u[r.usize(n)].0);
                let yv = nat(&y.residue());
                let z = match r.usize(4) {
                    0 => (&x * &y + &x, av.mul(&yv).add(&av).rem(&bv)),
                    1 => (&x - &y, av.rem(&bv).add(&bv).sub(&yv).unwrap().rem(&bv)),
                    2 => (-x.clone(), bv.sub(&av.rem(&bv)).unwrap().rem(&bv)),
                    _ => {
                        let e = Nat::from_u64(r.below(300));
                        (x.pow(&ub(&e)), av.modpow(&e, &bv))
                    }
                };
                let res = z.0.residue();
                self.put_u(r, ck, "modular", res, z.1)
            }
            29 => {
                let s = serde_json::to_string(&a).must("json");
                let x: UBig = serde_json::from_str(&s).must("json");
                self.put_u(r, ck, "json", x, av)
            }
            30 => {
                let d = r.u64() >> r.usize(64);
                let dv = Nat::from_u64(d);
                if d != 0 {
                    ck.eq("u % u64", &a % d, av.rem(&dv).to_u64().unwrap());
                    self.put_u(r, ck, "u / u64", a / d, av.divrem(&dv).0)
                }
            }
            31 => {
                let v = self.g.nat(r, (m / self.g.w / 2).max(1));
                self.put_u(r, ck, "fresh", ub(&v), v)
            }
            32 => {
                ck.eq("cmp", a.cmp(&b), av.cmp(&bv));
                ck.eq("==", a == b, av == bv);
                ck.eq("trailing_zeros", a.trailing_zeros(), av.trailing_zeros());
                ck.t("valid", valid_u(&a).is_ok());
                let k = r.usize(av.bit_len() + 70);
                ck.eq("bit", a.bit(k), av.bit(k));
            }
            33 if p && UBig::MAX_BIT_LEN < 1 << 20 && !av.is_zero() => {
                let over = UBig::MAX_BIT_LEN + 1 - av.bit_len() + r.usize(3);
                match r.usize(3) {
                    0 => self.inplace_u(ck, "u<<=over", ka, None, |t| *t <<= over),
                    1 => self.inplace_u(ck, "set_bit over", ka, None, |t| t.set_bit(UBig::MAX_BIT_LEN)),
                    _ => {
                        let big = UBig::from(1u8) << (over + av.bit_len() - 2).min(UBig::MAX_BIT_LEN - 1);
                        if av.bit_len() > 4 {
                            self.inplace_u(ck, "u*=over", ka, None, |t| *t *= &big)
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn step_i(&mut self, r: &mut Rng, ck: &mut Ck) {
        let n = self.i.len();
        let (ka, kb) = (r.usize(n), r.usize(n));
        let (a, av) = (self.i[ka].0.clone(), self.i[ka].1.clone());
        let (b, bv) = (self.i[kb].0.clone(), self.i[kb].1.clone());
        ck.inp_i("a", &av);
        ck.inp_i("b", &bv);
        let p = self.panics;
        let m = self.max_bits;
        match r.usize(28) {
            0 => self.put_i(r, ck, "i+i", a + &b, av.add(&bv)),
            1 => self.put_i(r, ck, "i-i", &a - b, av.sub(&bv)),
            2 => {
                let w = av.add(&bv);
                if w.mag.bit_len() <= m {
                    self.inplace_i(ck, "i+=i", ka, Some(w), |t| *t += b)
                }
            }
            3 => {
                let w = av.sub(&bv);
                if w.mag.bit_len() <= m {
                    self.inplace_i(ck, "i-=&i", ka, Some(w), |t| *t -= &b)
                }
            }
            4 => self.put_i(r, ck, "i*i", a * b, av.mul(&bv)),
            5 if av.mag.bit_len() + bv.mag.bit_len() < m => {
                let w = av.mul(&bv);
                self.inplace_i(ck, "i*=i", ka, Some(w), |t| *t *= b)
            }
            6 if bv.is_zero() && p => match r.usize(4) {
                0 => self.inplace_i(ck, "i/=0", ka, None, |t| *t /= b),
                1 => self.inplace_i(ck, "i%=&0", ka, None, |t| *t %= &b),
                2 => self.inplace_i(ck, "i/=0i8", ka, None, |t| *t /= 0i8),
                _ => {
                    ck.panics("div_rem_euclid by 0", || (&a).div_rem_euclid(&b));
                }
            },
            6 | 7 if !bv.is_zero() => {
                let (qv, rv) = av.divrem(&bv);
                let (q, rm) = (&a).div_rem(&b);
                self.put_i(r, ck, "idiv", q, qv);
                self.put_i(r, ck, "irem", rm, rv);
            }
            8 if !bv.is_zero() => {
                let (qv, rv) = av.divrem_euclid(&bv);
                let (q, rm) = a.div_rem_euclid(b);
                self.put_i(r, ck, "ediv", q, qv);
                self.put_i(r, ck, "erem", rm, Int::nat(rv));
            }
            9 if !bv.is_zero() => {
                let w = av.divrem(&bv).0;
                self.inplace_i(ck, "i/=&i", ka, Some(w), |t| *t /= &b)
            }
            10 if !bv.is_zero() => {
                let w = av.divrem(&bv).1;
                self.inplace_i(ck, "i%=i", ka, Some(w), |t| *t %= b)
            }
            11 => {
                let s = r.usize(3 * self.g.w);
                self.put_i(r, ck, "i<<", &a << s, av.shl(s))
            }
            12 => {
                let s = r.usize(av.mag.bit_len() + self.g.w);
                let w = av.shr_floor(s);
                self.inplace_i(ck, "i>>=", ka, Some(w), |t| *t >>= s)
            }
            13 => {
                let s = r.usize(m.saturating_sub(av.mag.bit_len()).min(5 * self.g.w) + 1);
                let w = av.shl(s);
                self.inplace_i(ck, "i<<=", ka, Some(w), |t| *t <<= s)
            }
            14 => {
                let w = av.bitop(&bv, |x, y| x & y);
                self.inplace_i(ck, "i&=i", ka, Some(w), |t| *t &= b)
            }
            15 => {
                let w = av.bitop(&bv, |x, y| x | y);
                self.inplace_i(ck, "i|=&i", ka, Some(w), |t| *t |= &b)
            }
            16 => {
                let w = av.bitop(&bv, |x, y| x ^ y);
                self.inplace_i(ck, "i^=i", ka, Some(w), |t| *t ^= b)
            }
            17 => self.put_i(r, ck, "i and_not", (&a).and_not(b), av.bitop(&bv, |x, y| x & !y)),
            18 => self.put_i(r, ck, "!i", !a, av.not()),
            19 => {
                let w = av.neg();
                self.inplace_i(ck, "neg", ka, Some(w), |t| *t = -std::mem::take(t))
            }
            20 => {
                let k = r.usize(n);
                if k != ka {
                    let w = av.clone();
                    self.inplace_i(ck, "i clone_from", k, Some(w), |t| t.clone_from(&a))
                }
            }
            21 => match UBig::try_from(a) {
                Ok(x) => {
                    ck.t("non-negative", !av.neg);
                    self.put_u(r, ck, "UBig::try_from", x, av.mag)
                }
                Err(_) => ck.t("negative", av.neg),
            },
            22 => {
                let x = (&a).unsigned_abs();
                self.put_u(r, ck, "unsigned_abs", x, av.mag)
            }
            23 => {
                let s = a.to_string();
                ck.eq("text", s.clone(), av.to_radix(10));
                let x: IBig = s.parse().must("parse");
                self.put_i(r, ck, "i parse", x, av)
            }
            24 => {
                let s = bincode::serialize(&a).must("bincode");
                let x: IBig = bincode::deserialize(&s).must("bincode");
                self.put_i(r, ck, "i bincode", x, av)
            }
            25 => {
                let v = self.g.int(r, (m / self.g.w / 2).max(1));
                self.put_i(r, ck, "i fresh", ib(&v), v)
            }
            26 => {
                ck.eq("i cmp", a.cmp(&b), av.cmp(&bv));
                ck.eq("i ==", a == b, av == bv);
                ck.t("i valid", valid_i(&a).is_ok());
                if av.mag.bit_len() < 1000 {
                    ck.eq("f64 sign", a.to_f64() < 0.0, av.neg);
                }
            }
            27 if av.mag.bit_len() < m / 4 => {
                let e = r.usize(4);
                self.put_i(r, ck, "i pow", a.pow(e), av.pow(e))
            }
            _ => {}
        }
    }
}
