//! C22 the size limit (built with 16-bit words, where it is 65536 bits).
use ibig::ops::*;
use ibig::ModuloRing;
use mon::*;
use rand::{Rng as _, RngCore};

const MAX: usize = UBig::MAX_BIT_LEN;

struct Fair(Rng);
impl RngCore for Fair {
    fn next_u32(&mut self) -> u32 {
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|x| *x = (self.0.u64() >> 40) as u8)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A number with bit length at or just below the limit.
fn near(r: &mut Rng) -> Nat {
    let d = match r.usize(8) {
        0..=2 => 0,
        3 => 1,
        4 => r.usize(2 * W),
        5 => W * r.usize(4),
        6 => r.usize(200),
        _ => r.usize(3),
    };
    let n = MAX - d;
    match r.usize(5) {
        0 => Nat::ones(n),
        1 => Nat::pow2(n - 1),
        2 => Nat::ones(n).sub(&Nat::from_u64(r.below(3))).unwrap(),
        3 => Nat::pow2(n - 1).add(&Nat::from_u64(r.below(3))),
        _ => G.bits(r, n),
    }
}
fn fits(x: &Nat) -> Option<&Nat> {
    if x.bit_len() <= MAX {
        Some(x)
    } else {
        None
    }
}
fn fits_i(x: &Int) -> Option<&Int> {
    if x.mag.bit_len() <= MAX {
        Some(x)
    } else {
        None
    }
}

/// The real limit of a 32-bit platform: numbers of 512 MB.
fn real32(r: &mut Rng, ck: &mut Ck) {
    ck.inp_n("step", ck.case as u128);
    // 2^(MAX-1) or a neighbour of it
    let top = || {
        let mut x = UBig::from(1u8);
        x.set_bit(MAX - 1);
        x
    };
    match ck.case % 8 {
        0 => {
            if let Some(x) = ck.ok("set_bit(MAX - 1)", top) {
                ck.eq("bit_len", x.bit_len(), MAX);
                ck.t("top bit", x.bit(MAX - 1) && !x.bit(MAX - 2) && !x.bit(MAX) && x.bit(0));
                ck.panics("x + x", || &x + &x);
                ck.t("x usable after the panic", x.bit_len() == MAX && x.trailing_zeros() == Some(0));
                let y = ck.ok("x >> (MAX - 2)", || &x >> (MAX - 2));
                ck.eq("x >> (MAX - 2)", y, Some(UBig::from(2u8)));
            }
        }
        1 => {
            ck.panics("set_bit(MAX)", || {
                let mut x = UBig::from(1u8);
                x.set_bit(MAX)
            });
            ck.panics("1 << MAX", || UBig::from(1u8) << MAX);
            ck.panics("1 << usize::MAX", || UBig::from(1u8) << usize::MAX);
            ck.panics("-1 << MAX", || IBig::from(-1) << MAX);
            ck.panics("2.pow(MAX)", || UBig::from(2u8).pow(MAX));
        }
        2 => {
            if let Some(x) = ck.ok("1 << (MAX - 1)", || UBig::from(1u8) << (MAX - 1)) {
                ck.eq("trailing zeros", x.trailing_zeros(), Some(MAX - 1));
                ck.t("is_power_of_two", x.is_power_of_two());
                if let Some(y) = ck.ok("2^(MAX-1) - 1", || x - UBig::from(1u8)) {
                    ck.eq("bit_len", y.bit_len(), MAX - 1);
                    if let Some(z) = ck.ok("+ 1", || y + UBig::from(1u8)) {
                        ck.eq("trailing zeros", z.trailing_zeros(), Some(MAX - 1));
                        ck.panics("next_power_of_two of 2^(MAX-1) + 1", || (z + UBig::from(1u8)).next_power_of_two());
                    }
                }
            }
        }
        3 => {
            if let Some(x) = ck.ok("2.pow(MAX - 1)", || UBig::from(2u8).pow(MAX - 1)) {
                ck.eq("trailing zeros", x.trailing_zeros(), Some(MAX - 1));
                if let Some(x) = ck.ok("* 1", || x * UBig::from(1u8)) {
                    ck.panics("* 2", || x * UBig::from(2u8));
                }
            }
        }
        4 => {
            // all ones
            if let Some(x) = ck.ok("from_le_bytes of MAX bits", || UBig::from_le_bytes(&vec![255u8; MAX / 8])) {
                ck.eq("bit_len", x.bit_len(), MAX);
                ck.panics("all ones + 1", || &x + 1u8);
                ck.panics("all ones next_power_of_two", || x.clone().next_power_of_two());
                ck.eq("all ones & 0xff", &x & 0xffu8, 255);
            }
        }
        5 => {
            ck.panics("from_le_bytes of MAX + 8 bits", || {
                let mut b = vec![0u8; MAX / 8 + 1];
                b[MAX / 8] = 1;
                UBig::from_le_bytes(&b)
            });
        }
        6 => {
            // ones << shift: the exact last position
            let k = r.range(1, 200);
            if let Some(x) = ck.ok("ones << (MAX - k)", || ub(&Nat::ones(k)) << (MAX - k)) {
                ck.eq("bit_len", x.bit_len(), MAX);
                ck.eq("trailing zeros", x.trailing_zeros(), Some(MAX - k));
            }
            ck.panics("ones << (MAX - k + 1)", || ub(&Nat::ones(k)) << (MAX - k + 1));
        }
        _ => {
            if let Some(x) = ck.ok("-1 << (MAX - 1)", || IBig::from(-1) << (MAX - 1)) {
                if let Some(y) = ck.ok("!x", || !x) {
                    // 2^(MAX-1) - 1
                    ck.t("positive", y > IBig::from(0));
                    if let Some(z) = ck.ok("y >> (MAX - 9)", || y >> (MAX - 9)) {
                        ck.eq("y >> (MAX - 9)", z, IBig::from(255));
                    }
                }
            }
        }
    }
}

fn c22(r: &mut Rng, ck: &mut Ck) {
    if MAX > 1 << 20 {
        if usize::BITS == 32 {
            return real32(r, ck);
        }
        // The limit itself is not reachable in the memory of a 64-bit machine; only these are.
        let n = r.usize(1000);
        ck.u("0 << n", &(UBig::from(0u8) << (usize::MAX - n)), &Nat::zero());
        ck.u("1 >> n", &(UBig::from(1u8) >> (usize::MAX - n)), &Nat::zero());
        ck.i("-1 >> n", &(IBig::from(-1) >> (usize::MAX - n)), &Int::from_i128(-1));
        ck.inp_n("n", n as u128);
        return;
    }
    if ck.case == 0 {
        return wide_range(ck);
    }
    match r.usize(14) {
        0 | 1 => add_sub(r, ck),
        2 | 3 => mul(r, ck),
        4 => pow(r, ck),
        5 => shifts(r, ck),
        6 => bits(r, ck),
        7 | 8 => div(r, ck),
        9 => text(r, ck),
        10 => bytes(r, ck),
        11 => ring(r, ck),
        12 => sampling(r, ck),
        _ => gcd(r, ck),
    }
}

fn add_sub(r: &mut Rng, ck: &mut Ck) {
    let a = near(r);
    let b = match r.usize(5) {
        0 => Nat::from_u64(r.below(4)),
        1 => near(r),
        2 => Nat::pow2(MAX - 1).sub(&Nat::from_u64(r.below(3))).unwrap(),
        3 => {
            // up to the limit exactly, or one beyond
            let x = Nat::ones(MAX).sub(&a).unwrap();
            if r.bool() {
                x
            } else {
                x.add(&Nat::one())
            }
        }
        _ => G.nat(r, 300),
    };
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let (b, a) = if fits(&b).is_some() { (b, a) } else { return };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let s = a.add(&b);
    ck.res("&a + &b", fits_i(&Int::nat(s.clone())), &mut || one(&x + &y));
    ck.res("a + &b", fits_i(&Int::nat(s.clone())), &mut || one(x.clone() + &y));
    ck.res("&a + b", fits_i(&Int::nat(s.clone())), &mut || one(&x + y.clone()));
    ck.res("a += b", fits_i(&Int::nat(s.clone())), &mut || {
        let mut t = x.clone();
        t += &y;
        one(t)
    });
    if let Some(w) = b.to_u64() {
        ck.res("a + u64", fits_i(&Int::nat(s.clone())), &mut || one(&x + w));
        ck.res("u64 + a", fits_i(&Int::nat(s)), &mut || one(w + x.clone()));
    }
    ck.res("a - b", nonneg(Int::nat(a.clone()).sub(&Int::nat(b.clone()))).as_ref(), &mut || one(&x - &y));
    let (ia, jb) = (Int::new(r.bool(), a.clone()), Int::new(r.bool(), b.clone()));
    let (i, j) = (ib(&ia), ib(&jb));
    ck.res("IBig a + b", fits_i(&ia.add(&jb)), &mut || one(&i + &j));
    ck.res("IBig a - b", fits_i(&ia.sub(&jb)), &mut || one(i.clone() - &j));
    ck.res("IBig a -= b", fits_i(&ia.sub(&jb)), &mut || {
        let mut t = i.clone();
        t -= &j;
        one(t)
    });
    ck.t("operands intact", x == ub(&a) && y == ub(&b) && i == ib(&ia) && j == ib(&jb));
}
fn mul(r: &mut Rng, ck: &mut Ck) {
    let k = match r.usize(4) {
        0 => MAX / 2,
        1 => r.range(1, 3 * W),
        2 => r.range(1, MAX - 1),
        _ => W * r.range(1, MAX / W - 1),
    };
    let a = match r.usize(4) {
        0 => Nat::ones(k),
        1 => Nat::pow2(k - 1),
        _ => G.bits(r, k),
    };
    if a.is_zero() {
        return;
    }
    let b = match r.usize(4) {
        0 => Nat::ones(MAX).divrem(&a).0,
        1 => Nat::ones(MAX).divrem(&a).0.add(&Nat::one()),
        2 => Nat::pow2((MAX + r.usize(3) - 1).saturating_sub(a.bit_len())),
        _ => {
            let n = MAX + r.usize(3) - a.bit_len();
            G.bits(r, n)
        }
    };
    if b.bit_len() > MAX {
        return;
    }
    ck.inp("a", &a);
    ck.inp("b", &b);
    let p = a.mul(&b);
    let (x, y) = (ub(&a), ub(&b));
    let w = Int::nat(p);
    ck.res("&a * &b", fits_i(&w), &mut || one(&x * &y));
    ck.res("a * b", fits_i(&w), &mut || one(x.clone() * y.clone()));
    ck.res("a *= b", fits_i(&w), &mut || {
        let mut t = x.clone();
        t *= &y;
        one(t)
    });
    if let Some(q) = b.to_u64() {
        ck.res("a * u64", fits_i(&w), &mut || one(x.clone() * q));
    }
    let n = w.neg();
    let i = ib(&Int::new(true, a.clone()));
    ck.res("IBig -a * b", fits_i(&n), &mut || one(&i * IBig::from(&y)));
    let s = Int::nat(a.mul(&a));
    ck.res("&a * &a", fits_i(&s), &mut || one(&x * &x));
    ck.res("pow(2)", fits_i(&s), &mut || one(x.pow(2)));
    ck.t("operands intact", x == ub(&a) && y == ub(&b));
}
fn pow(r: &mut Rng, ck: &mut Ck) {
    let b = match r.usize(4) {
        0 => Nat::from_u64(r.below(20)),
        1 => Nat::pow2(r.range(1, 100)),
        _ => {
            let n = r.range(2, 600);
            G.bits(r, n)
        }
    };
    let n = b.bit_len();
    if n < 2 {
        let e = usize::MAX - r.usize(3);
        let w = if b.is_zero() { Nat::zero() } else { Nat::one() };
        ck.res("pow(huge) of 0 and 1", Some(&Int::nat(w)), &mut || one(ub(&b).pow(e)));
        return;
    }
    // around the largest exponent that fits
    let lo = MAX / n;
    let hi = MAX / (n - 1);
    let mut e = r.range(lo.saturating_sub(2).max(1), (hi + 2).min(lo + lo / (n - 1) + 3));
    if e * (n - 1) > MAX + 4 * n {
        e = lo;
    }
    ck.inp("base", &b);
    ck.inp_n("exponent", e as u128);
    let x = ub(&b);
    let w = Int::nat(b.pow(e));
    ck.res("pow", fits_i(&w), &mut || one(x.pow(e)));
    if !fits(&w.mag).is_some() {
        // one less, until it fits
        let mut v = w.mag.clone();
        let mut d = e;
        for _ in 0..6 {
            v = v.divrem(&b).0;
            d -= 1;
            if fits(&v).is_some() {
                ck.res("largest pow that fits", Some(&Int::nat(v.clone())), &mut || one(x.pow(d)));
                break;
            }
        }
    }
    ck.panics("pow far beyond", || x.pow(usize::MAX - r.usize(9)));
    // exponents for which a product of the exponent and a bit count wraps around
    for _ in 0..3 {
        let (some, power) = (r.range(1, 70), 1 << r.usize(7));
        let k = *r.pick(&[n - 1, n - 1, n, some, power]) as u128;
        let t = (1 + r.u64() as u128 % k) << usize::BITS;
        let e = (t / k + r.usize(3) as u128).saturating_sub(r.usize(2) as u128).min(usize::MAX as u128) as usize;
        if e as u128 * (n - 1) as u128 > 2 * MAX as u128 {
            ck.panics("pow whose length wraps", || x.pow(e));
        }
    }
    ck.t("operand intact", x == ub(&b));
}
fn shifts(r: &mut Rng, ck: &mut Ck) {
    let a = match r.usize(3) {
        0 => near(r),
        1 => G.nonzero(r, 3),
        _ => G.nonzero(r, MAX / W),
    };
    let n = a.bit_len();
    ck.inp("a", &a);
    for s in [(MAX - n).saturating_sub(1), MAX - n, MAX - n + 1, MAX - n + W, MAX - n + 5 * W, (MAX - n) / W * W, (MAX - n).next_multiple_of(W), MAX, usize::MAX, usize::MAX - W] {
        let w = if s <= MAX - n { Some(Int::nat(a.shl(s))) } else { None };
        let x = ub(&a);
        ck.res("<<", w.as_ref(), &mut || one(&x << s));
        ck.res("<< owned", w.as_ref(), &mut || one(x.clone() << s));
        ck.res("<<=", w.as_ref(), &mut || {
            let mut t = x.clone();
            t <<= s;
            one(t)
        });
        let m = -IBig::from(&x);
        let mw = w.map(|w| w.neg());
        ck.res("IBig <<", mw.as_ref(), &mut || one(&m << s));
        ck.i("-a >> n", &(&m >> s), &if s > MAX { Int::from_i128(-1) } else { Int::new(true, a.clone()).shr_floor(s) });
        ck.t("operand intact", x == ub(&a));
    }
}
fn bits(r: &mut Rng, ck: &mut Ck) {
    let a = match r.usize(3) {
        0 => G.nat(r, 5),
        _ => near(r),
    };
    let b = near(r);
    ck.inp("a", &a);
    ck.inp("b", &b);
    for n in [MAX - 1, MAX, MAX + 1, MAX.saturating_add(W), MAX.saturating_add(4 * W), usize::MAX, usize::MAX - 1, a.bit_len(), MAX - W, MAX - W - 1] {
        let x = ub(&a);
        let w = if n < MAX || a.bit_len() > n { Some(Int::nat(a.with_bit(n, true))) } else { None };
        ck.res("set_bit", w.as_ref(), &mut || {
            let mut t = x.clone();
            t.set_bit(n);
            one(t)
        });
        let w = if n < MAX { a.with_bit(n, false) } else { a.clone() };
        ck.res("clear_bit", Some(&Int::nat(w)), &mut || {
            let mut t = x.clone();
            t.clear_bit(n);
            one(t)
        });
        ck.eq("bit", x.bit(n), n < MAX && a.bit(n));
    }
    let x = ub(&a);
    ck.eq("bit_len", x.bit_len(), a.bit_len());
    let np = if a.is_zero() { Nat::one() } else if a.is_pow2() { a.clone() } else { Nat::pow2(a.bit_len()) };
    ck.res("next_power_of_two", fits_i(&Int::nat(np.clone())), &mut || one(x.clone().next_power_of_two()));
    let (ia, jb) = (Int::new(r.bool(), a), Int::new(r.bool(), b));
    let (i, j) = (ib(&ia), ib(&jb));
    ck.res("&", fits_i(&ia.bitop(&jb, |x, y| x & y)), &mut || one(&i & &j));
    ck.res("|", fits_i(&ia.bitop(&jb, |x, y| x | y)), &mut || one(i.clone() | &j));
    ck.res("^", fits_i(&ia.bitop(&jb, |x, y| x ^ y)), &mut || one(&i ^ j.clone()));
    ck.res("and_not", fits_i(&ia.bitop(&jb, |x, y| x & !y)), &mut || one((&i).and_not(&j)));
    ck.res("!", fits_i(&ia.not()), &mut || one(!&i));
    ck.res("! owned", fits_i(&ia.not()), &mut || one(!i.clone()));
    ck.t("operands intact", i == ib(&ia) && j == ib(&jb));
}
fn div(r: &mut Rng, ck: &mut Ck) {
    let a = near(r);
    let b = match r.usize(7) {
        0 => Nat::from_u64(r.below(4) + 1),
        1 => G.nonzero(r, 3),
        2 => near(r),
        3 => G.nonzero(r, 60),
        4 => Nat::pow2(r.usize(MAX)),
        5 => {
            let n = MAX / 2 + r.usize(40) - 20;
            G.bits(r, n)
        }
        _ => G.nonzero(r, MAX / W),
    };
    let b = if b.is_zero() { Nat::one() } else { b };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let (q, m) = a.divrem(&b);
    ck.res("/", Some(&Int::nat(q.clone())), &mut || one(&x / &y));
    ck.res("%", Some(&Int::nat(m.clone())), &mut || one(&x % &y));
    ck.res2("div_rem owned", Some((&Int::nat(q.clone()), &Int::nat(m.clone()))), &mut || two(x.clone().div_rem(y.clone())));
    ck.res("/=", Some(&Int::nat(q)), &mut || {
        let mut t = x.clone();
        t /= &y;
        one(t)
    });
    ck.res("%=", Some(&Int::nat(m)), &mut || {
        let mut t = x.clone();
        t %= &y;
        one(t)
    });
    let (ia, jb) = (Int::new(r.bool(), a), Int::new(r.bool(), b));
    let (i, j) = (ib(&ia), ib(&jb));
    let (q, m) = ia.divrem_euclid(&jb);
    // the Euclidean quotient of the most extreme operands may be one bit too long
    let fq = fits_i(&q).is_some();
    let m = Int::nat(m);
    ck.res("rem_euclid", Some(&m), &mut || one((&i).rem_euclid(&j)));
    if fq {
        ck.res2("div_rem_euclid", Some((&q, &m)), &mut || two((&i).div_rem_euclid(&j)));
        ck.res("div_euclid", Some(&q), &mut || one((&i).div_euclid(&j)));
    }
}
fn text(r: &mut Rng, ck: &mut Ck) {
    let radix = match r.usize(3) {
        0 => *r.pick(&[2u32, 4, 8, 16, 32]),
        1 => 10,
        _ => r.range(2, 36) as u32,
    };
    let a = near(r);
    ck.inp("a", &a);
    ck.inp_n("radix", radix as u128);
    let x = ub(&a);
    let t = a.to_radix(radix);
    if let Some(g) = ck.ok("text", || x.in_radix(radix).to_string()) {
        ck.eq("text", &g, &t);
    }
    let pad = format!("{}{}", "0".repeat(*r.pick(&[0usize, 1, 2, 5, 70000, 200000])), t);
    match ck.ok("parse", || UBig::from_str_radix(&pad, radix)) {
        Some(Ok(g)) => ck.u("parse", &g, &a),
        Some(Err(e)) => ck.fail("parse", format!("{e:?}")),
        None => {}
    }
    // The largest number and its successor
    let big = Nat::ones(MAX);
    for (v, ok) in [(big.clone(), true), (big.add(&Nat::one()), false), (big.add(&Nat::pow2(r.usize(MAX))), false), (big.mul_u32(r.u32() | 2), false)] {
        let t = v.to_radix(radix);
        if ok {
            match ck.ok("parse the largest number", || UBig::from_str_radix(&t, radix)) {
                Some(Ok(g)) => ck.u("parse the largest number", &g, &v),
                Some(Err(e)) => ck.fail("parse the largest number", format!("{e:?}")),
                None => {}
            }
        } else {
            ck.panics("parse a number beyond the limit", || UBig::from_str_radix(&t, radix));
            ck.panics("parse a negative number beyond the limit", || IBig::from_str_radix(&format!("-{t}"), radix));
        }
        // An invalid digit anywhere is an error, whatever the length
        let mut b = t.into_bytes();
        let k = r.usize(b.len());
        b[k] = b'!';
        let t = String::from_utf8(b).unwrap();
        if let Some(g) = ck.ok("long invalid text", || UBig::from_str_radix(&t, radix)) {
            ck.eq("long invalid text", g.err(), Some(ibig::error::ParseError::InvalidDigit));
        }
    }
}
fn bytes(r: &mut Rng, ck: &mut Ck) {
    let a = near(r);
    ck.inp("a", &a);
    let mut b = a.to_le();
    let pad = *r.pick(&[0usize, 1, 2, 7, 8, 9, 100, 100000]);
    b.extend(std::iter::repeat(0).take(pad));
    if let Some(g) = ck.ok("from_le_bytes", || UBig::from_le_bytes(&b)) {
        ck.u("from_le_bytes", &g, &a);
    }
    b.reverse();
    if let Some(g) = ck.ok("from_be_bytes", || UBig::from_be_bytes(&b)) {
        ck.u("from_be_bytes", &g, &a);
    }
    let over = Nat::pow2(MAX + r.usize(100));
    let over = if r.bool() { over } else { over.add(&a) };
    let mut b = over.to_le();
    ck.panics("from_le_bytes beyond the limit", || UBig::from_le_bytes(&b));
    b.reverse();
    ck.panics("from_be_bytes beyond the limit", || UBig::from_be_bytes(&b));
    let x = ub(&a);
    ck.eq("to_f64", x.to_f64(), f64::INFINITY);
    let s = serde_json::to_string(&x).must("json");
    if let Some(g) = ck.ok("deserialize", || serde_json::from_str::<UBig>(&s)) {
        ck.t("deserialize", g.ok().as_ref() == Some(&x));
    }
    ck.t("clone", x.clone() == x);
    let mut t = UBig::from(3u8);
    t.clone_from(&x);
    ck.u("clone_from", &t, &a);
}
fn ring(r: &mut Rng, ck: &mut Ck) {
    let n = match r.usize(5) {
        0 => near(r),
        1 => Nat::pow2(MAX - 1 - r.usize(20)),
        2 => G.words(r, 2),
        3 => G.nonzero(r, 100),
        _ => G.nonzero(r, 2),
    };
    let n = if n.is_zero() { Nat::one() } else { n };
    let a = near(r);
    ck.inp("modulus", &n);
    ck.inp("a", &a);
    let rg = match ck.ok("ModuloRing::new", || ModuloRing::new(&ub(&n))) {
        Some(x) => x,
        None => return,
    };
    ck.u("modulus()", &rg.modulus(), &n);
    let av = a.rem(&n);
    let m = match ck.ok("ring.from(near the limit)", || rg.from(ub(&a))) {
        Some(m) => m,
        None => return,
    };
    ck.u("residue", &m.residue(), &av);
    if let Some(m) = ck.ok("ring.from(-a)", || rg.from(ib(&Int::new(true, a.clone())))) {
        let w = if av.is_zero() { Nat::zero() } else { n.sub(&av).unwrap() };
        ck.u("residue of -a", &m.residue(), &w);
    }
    if let Some(g) = ck.ok("+", || &m + &m) {
        ck.u("+", &g.residue(), &av.add(&av).rem(&n));
    }
    if let Some(g) = ck.ok("*", || &m * &m) {
        ck.u("*", &g.residue(), &av.mul(&av).rem(&n));
    }
    if n.bit_len() < 4000 || r.chance(1, 10) {
        let y = ck.ok("inverse", || m.inverse());
        if let Some(Some(y)) = y {
            let one = if n.is_one() { Nat::zero() } else { Nat::one() };
            ck.t("x * inverse = 1", nat(&y.residue()).mul(&av).rem(&n) == one);
        }
    }
}
fn sampling(r: &mut Rng, ck: &mut Ck) {
    let a = near(r);
    let lo = match r.usize(3) {
        0 => Nat::zero(),
        1 => a.sub(&Nat::from_u64(r.below(9) + 1)).unwrap(),
        _ => G.nat(r, MAX / W - 20),
    };
    if !lo.lt(&a) {
        return;
    }
    ck.inp("low", &lo);
    ck.inp("high", &a);
    let mut s = Fair(Rng::new(r.u64()));
    for _ in 0..3 {
        if let Some(g) = ck.ok("gen_range(a..b) near the limit", || s.gen_range(ub(&lo)..ub(&a))) {
            let g = nat(&g);
            ck.t("in range", lo.le(&g) && g.lt(&a));
        }
        // the number of values, b - a + 1, is itself above the limit: see wide_range
        let countable = |w: &Nat| w.add(&Nat::one()).bit_len() <= MAX;
        if countable(&a.sub(&lo).unwrap()) {
            if let Some(g) = ck.ok("gen_range(a..=b) near the limit", || s.gen_range(ub(&lo)..=ub(&a))) {
                let g = nat(&g);
                ck.t("in range", lo.le(&g) && g.le(&a));
            }
            let (l, h) = (Int::new(true, a.clone()), Int::new(true, lo.clone()));
            if let Some(g) = ck.ok("IBig gen_range near the limit", || s.gen_range(ib(&l)..=ib(&h))) {
                let g = int(&g);
                ck.t("in range", !g.cmp(&l).is_lt() && !g.cmp(&h).is_gt());
            }
        }
        if countable(&a.add(&lo)) {
            let (l, h) = (Int::new(true, a.clone()), Int::nat(lo.clone()));
            if let Some(g) = ck.ok("IBig gen_range across zero near the limit", || s.gen_range(ib(&l)..=ib(&h))) {
                let g = int(&g);
                ck.t("in range", !g.cmp(&l).is_lt() && !g.cmp(&h).is_gt());
            }
        }
    }
}
/// Ranges of more than 2^MAX - 1 values (known finding; probed once).
fn wide_range(ck: &mut Ck) {
    let m = Nat::ones(MAX);
    let mut s = Fair(Rng::new(1));
    if let Some(g) = ck.ok("gen_range of more values than the limit: UBig 0..=MAX", || s.gen_range(UBig::from(0u8)..=ub(&m))) {
        ck.t("in range", nat(&g).le(&m));
    }
    let l = Int::new(true, m.clone());
    if let Some(g) = ck.ok("gen_range of more values than the limit: IBig -MAX..1", || s.gen_range(ib(&l)..IBig::from(2))) {
        ck.t("in range", !int(&g).cmp(&l).is_lt() && !int(&g).cmp(&Int::from_i128(2)).is_gt());
    }
}
fn gcd(r: &mut Rng, ck: &mut Ck) {
    let a = near(r);
    let (b, slow) = match r.usize(6) {
        0 => (Nat::from_u64(r.below(9)), false),
        1 => (G.nonzero(r, 3), false),
        2 => (a.sub(&Nat::from_u64(r.below(3) + 1)).unwrap(), false),
        3 => (Nat::pow2(r.usize(MAX)), false),
        4 => (a.shr(1), false),
        _ => (near(r), true),
    };
    if slow && !r.chance(1, 6) {
        return;
    }
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let g0 = a.gcd(&b);
    if let Some(g) = ck.ok("gcd near the limit", || x.gcd(&y)) {
        ck.u("gcd", &g, &g0);
    }
    if let Some((g, s, t)) = ck.ok("extended_gcd near the limit", || x.extended_gcd(&y)) {
        ck.u("extended_gcd", &g, &g0);
        let (s, t) = (int(&s), int(&t));
        ck.t("Bezout identity", s.mul(&Int::nat(a.clone())).add(&t.mul(&Int::nat(b.clone()))) == Int::nat(g0));
        let bound = |m: &Nat| if m.is_zero() { Nat::one() } else { m.clone() };
        ck.t("bounds", s.mag.le(&bound(&b)) && t.mag.le(&bound(&a)));
    }
}

fn main() {
    run_main(&[("C22", c22)]);
}
