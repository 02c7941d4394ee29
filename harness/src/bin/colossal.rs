//! Numbers of more than 2^32 bits (half a gigabyte): lengths in bits, bit indices, shift amounts and digit counts that do not fit 32 bits.
//! Only operations whose cost is linear.  The numbers consist of a few runs of one bits, so the expected results are known exactly.
#![allow(clippy::all)]
use ibig::ops::*;
use mon::giant::{self, Res};
use mon::*;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

const T: usize = 1 << 32;

/// Maximal runs of one bits, from..to, in ascending order.
#[derive(Clone, PartialEq, Debug)]
struct Runs(Vec<(usize, usize)>);
impl Runs {
    fn of(mut v: Vec<(usize, usize)>) -> Runs {
        v.retain(|r| r.0 < r.1);
        v.sort();
        let mut o: Vec<(usize, usize)> = vec![];
        for r in v {
            match o.last_mut() {
                Some(l) if r.0 <= l.1 => l.1 = l.1.max(r.1),
                _ => o.push(r),
            }
        }
        Runs(o)
    }
    fn pow2(n: usize) -> Runs {
        Runs(vec![(n, n + 1)])
    }
    fn len(&self) -> usize {
        self.0.last().map_or(0, |r| r.1)
    }
    fn has(&self, i: usize) -> bool {
        self.0.iter().any(|r| r.0 <= i && i < r.1)
    }
    fn zip(&self, o: &Runs, f: impl Fn(bool, bool) -> bool) -> Runs {
        let mut cuts: Vec<usize> = self.0.iter().chain(&o.0).flat_map(|r| [r.0, r.1]).collect();
        cuts.sort();
        cuts.dedup();
        Runs::of(cuts.windows(2).filter(|w| f(self.has(w[0]), o.has(w[0]))).map(|w| (w[0], w[1])).collect())
    }
    fn add2(&self, p: usize) -> Runs {
        match self.0.iter().find(|r| r.0 <= p && p < r.1) {
            None => self.zip(&Runs::pow2(p), |a, b| a | b),
            Some(&(_, e)) => self.zip(&Runs(vec![(p, e)]), |a, b| a & !b).add_at_zero(e),
        }
    }
    fn add_at_zero(&self, p: usize) -> Runs {
        self.zip(&Runs::pow2(p), |a, b| a | b)
    }
    fn sub2(&self, p: usize) -> Runs {
        if self.has(p) {
            return self.zip(&Runs::pow2(p), |a, b| a & !b);
        }
        let q = self.0.iter().find(|r| r.0 > p).expect("not below zero").0;
        self.zip(&Runs(vec![(p, q + 1)]), |a, b| a ^ b)
    }
    fn add(&self, o: &Runs) -> Runs {
        // 2^e - 2^s, from the top so that nothing goes below zero
        o.0.iter().rev().fold(self.clone(), |t, r| t.add2(r.1).sub2(r.0))
    }
    fn sub(&self, o: &Runs) -> Runs {
        o.0.iter().fold(self.clone(), |t, r| t.add2(r.0).sub2(r.1))
    }
    fn shl(&self, k: usize) -> Runs {
        Runs(self.0.iter().map(|r| (r.0 + k, r.1 + k)).collect())
    }
    fn shr(&self, k: usize) -> Runs {
        Runs::of(self.0.iter().map(|r| (r.0.saturating_sub(k), r.1.saturating_sub(k))).collect())
    }
    fn cmp(&self, o: &Runs) -> std::cmp::Ordering {
        let d = self.zip(o, |a, b| a ^ b);
        match d.0.last() {
            None => std::cmp::Ordering::Equal,
            Some(r) if self.has(r.1 - 1) => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Less,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; self.len().div_ceil(8)];
        for &(s, e) in &self.0 {
            let (i, j) = (s / 8, (e - 1) / 8);
            let (lo, hi) = (0xffu8 << (s % 8), 0xffu8 >> (7 - (e - 1) % 8));
            if i == j {
                b[i] |= lo & hi;
            } else {
                b[i] |= lo;
                b[i + 1..j].fill(0xff);
                b[j] |= hi;
            }
        }
        b
    }
    fn u(&self) -> UBig {
        UBig::from_le_bytes(&self.bytes())
    }
    fn i(&self, neg: bool) -> IBig {
        let m = IBig::from(self.u());
        if neg {
            -m
        } else {
            m
        }
    }
    fn residues(&self, q: &Res) -> Vec<u64> {
        // 2^e - 2^s
        let two: Vec<u64> = q.of(&Nat::from_u64(2));
        let zero = q.of(&Nat::zero());
        self.0.iter().fold(zero, |t, r| {
            let (e, s) = (q.pow(&two, r.1), q.pow(&two, r.0));
            q.add(&t, &q.sub(&e, &s))
        })
    }
}

/// A number of a bit more than 2^32 bits.
fn big(r: &mut Rng) -> Runs {
    let top = T + match r.usize(4) {
        0 => r.usize(4),
        1 => r.usize(64),
        _ => r.usize(4000),
    };
    shape(r, top)
}
fn shape(r: &mut Rng, top: usize) -> Runs {
    let mut v = vec![(top - 1 - r.usize(3), top)];
    for _ in 0..r.usize(4) {
        let s = match r.usize(5) {
            0 => r.usize(70),
            1 => r.usize(4000),
            2 => T - 1 - r.usize(200),
            3 => T.min(top - 1),
            _ => r.usize(top),
        };
        let n = if r.bool() { 1 + r.usize(200) } else { 1 + r.usize(top) };
        v.push((s, (s + n).min(top)));
    }
    Runs::of(v)
}
fn inp(ck: &mut Ck, name: &str, x: &Runs) {
    ck.inp_n(name, x.len() as u128);
    ck.inp_s(name, &format!("runs of ones {:?}", x.0));
    ck.max_bits = ck.max_bits.max(x.len());
}
fn is(ck: &mut Ck, label: &str, got: &UBig, want: &Runs) {
    // from_le_bytes and == are judged by C13 and C06
    let ok = got.bit_len() == want.len() && *got == want.u();
    ck.t_msg(label, ok, || format!("expected runs of ones {:?}; got {} bits", want.0, got.bit_len()));
}
fn is_i(ck: &mut Ck, label: &str, got: &IBig, neg: bool, want: &Runs) {
    ck.t_msg(label, (*got < IBig::from(0u8)) == (neg && want.len() > 0), || "wrong sign".into());
    is(ck, label, &got.unsigned_abs(), want);
}
fn res_u(q: &Res, x: &UBig) -> Vec<u64> {
    q.of_bytes(&x.to_le_bytes())
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Enough memory, or the case counts as skipped.
fn room(ck: &mut Ck) -> bool {
    let m = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let kb = m.lines().find(|l| l.starts_with("MemAvailable:")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok());
    let ok = usize::BITS == 64 && kb.map_or(false, |k| k > 9 << 20);
    if !ok {
        ck.t("skipped for want of memory", true);
    }
    ok
}

fn c01(r: &mut Rng, ck: &mut Ck) {
    let (a, b) = (big(r), if r.bool() { big(r) } else { let n = 1 + r.usize(T); shape(r, n.max(8)) });
    let (a, b) = if a.cmp(&b).is_lt() { (b, a) } else { (a, b) };
    inp(ck, "a", &a);
    inp(ck, "b", &b);
    let (x, y) = (a.u(), b.u());
    if ck.case % 2 == 0 {
        is(ck, "colossal sum", &(&y + &x), &a.add(&b));
        is(ck, "colossal difference", &(&x - &y), &a.sub(&b));
        ck.panics("colossal difference below zero", || &y - &(&x + UBig::from(1u8)));
        let o = Runs(vec![(0, a.len())]);
        is(ck, "colossal carry", &(o.u() + UBig::from(1u8)), &Runs::pow2(a.len()));
        is(ck, "colossal borrow", &(Runs::pow2(a.len()).u() - UBig::from(1u8)), &o);
    } else {
        let (s, t) = (r.bool(), r.bool());
        let mut z = if s { -IBig::from(x) } else { IBig::from(x) };
        let w = b.i(t);
        z += &w;
        is_i(ck, "colossal signed sum", &z, s, &if s == t { a.add(&b) } else { a.sub(&b) });
        z -= w;
        is_i(ck, "colossal signed difference", &z, s, &a);
    }
}
/// Numbers of some hundred thousand words, for what costs more than linear time.
fn vast(r: &mut Rng, lo: usize, hi: usize) -> Nat {
    let n = r.range(lo, hi);
    giant::nat_of(r, n)
}
fn vast_mul(r: &mut Rng, ck: &mut Ck) {
    let a = vast(r, 196_600, 200_000);
    let b = match r.usize(3) {
        0 => vast(r, 196_600, 200_000),
        1 => vast(r, 60_000, 140_000),
        _ => a.with_bit(r.usize(a.bit_len()), r.bool()),
    };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let q = Res::new(r);
    let p = nat(&(&ub(&a) * &ub(&b)));
    ck.eq("vast product, residues", q.of(&p), q.mul(&q.of(&a), &q.of(&b)));
    let l = a.bit_len() + b.bit_len();
    ck.t("vast product, length", p.bit_len() == l || p.bit_len() + 1 == l);
}
fn vast_pow(r: &mut Rng, ck: &mut Ck) {
    let b = Nat::from_u64(3 + r.below(40) * 2);
    let e = (r.range(197_000, 200_000) * W) / (b.bit_len() - 1);
    ck.inp("base", &b);
    ck.inp_n("exponent", e as u128);
    let q = Res::new(r);
    let p = nat(&ub(&b).pow(e));
    ck.eq("vast power, residues", q.of(&p), q.pow(&q.of(&b), e));
}
fn vast_div(r: &mut Rng, ck: &mut Ck) {
    let (a, d) = (vast(r, 262_000, 400_000), vast(r, 66_000, 200_000));
    ck.inp("a", &a);
    ck.inp("d", &d);
    let (q, m) = ub(&a).div_rem(&ub(&d));
    let (q, m) = (nat(&q), nat(&m));
    let s = Res::new(r);
    ck.t("vast division, remainder below divisor", m.lt(&d));
    ck.eq("vast division, residues", s.add(&s.mul(&s.of(&q), &s.of(&d)), &s.of(&m)), s.of(&a));
    ck.t("vast quotient, length", q.bit_len() + d.bit_len() == a.bit_len() || q.bit_len() + d.bit_len() == a.bit_len() + 1);
}
fn vast_text(r: &mut Rng, ck: &mut Ck) {
    let a = vast(r, 131_000, 140_000);
    let radix = if r.bool() { 10 } else { 3 + r.usize(34) as u32 };
    ck.inp("a", &a);
    ck.inp_n("radix", radix as u128);
    let t = if radix == 10 { ub(&a).to_string() } else { ub(&a).in_radix(radix).to_string() };
    let s = Res::new(r);
    ck.t("vast text, no zero in front", !t.starts_with('0'));
    ck.eq("vast text, residues", s.of_text(&t, radix), s.of(&a));
}
fn vast_parse(r: &mut Rng, ck: &mut Ck) {
    let radix = if r.bool() { 10 } else { 3 + r.usize(34) as u32 };
    let n = (131_000 * W) / radix.ilog2() as usize;
    ck.inp_n("radix", radix as u128);
    ck.inp_n("digits", n as u128);
    let mut t = String::with_capacity(n);
    let run = r.usize(n);
    for i in 0..n {
        let d = if i > 0 && i.wrapping_sub(run) < n / 8 { radix - 1 } else { 1 + r.u32() % (radix - 1) };
        t.push(std::char::from_digit(d, radix).unwrap());
    }
    let s = Res::new(r);
    match UBig::from_str_radix(&t, radix) {
        Ok(x) => ck.eq("number parsed from a vast text, residues", s.of(&nat(&x)), s.of_text(&t, radix)),
        Err(e) => ck.fail("number parsed from a vast text", format!("{e:?}")),
    }
}

fn c02(r: &mut Rng, ck: &mut Ck) {
    if ck.case % 2 == 1 {
        return vast_mul(r, ck);
    }
    let a = big(r);
    let n = if r.bool() { 64 } else { 200 };
    let n = 1 + r.usize(n);
    let m = G.nat(r, 1).or(&Nat::pow2(n)).low_bits(n + 1);
    inp(ck, "a", &a);
    ck.inp("m", &m);
    let q = Res::few(r, 2);
    let p = if r.bool() { &a.u() * ub(&m) } else { ub(&m) * a.u() };
    ck.eq("colossal product, residues", res_u(&q, &p), q.mul(&a.residues(&q), &q.of(&m)));
    let l = a.len() + m.bit_len();
    ck.t("colossal product, length", p.bit_len() == l || p.bit_len() + 1 == l);
    let k = Runs::pow2(r.usize(100));
    is_i(ck, "colossal product with a power of two", &(a.i(true) * k.i(false)), true, &a.shl(k.0[0].0));
}
fn c03(r: &mut Rng, ck: &mut Ck) {
    if ck.case % 3 == 1 {
        return vast_pow(r, ck);
    }
    // other bases are multiplied out, which takes too long
    let e = T + r.usize(if ck.case % 3 == 0 { 4 } else { 3000 });
    ck.inp_n("exponent", e as u128);
    ck.inp_s("base", "two");
    is(ck, "colossal power of 2", &UBig::from(2u8).pow(e), &Runs::pow2(e));
    is_i(ck, "colossal power of -2", &IBig::from(-2).pow(e), e % 2 == 1, &Runs::pow2(e));
    ck.t("colossal power of 1", UBig::from(1u8).pow(e) == UBig::from(1u8));
    ck.t("colossal power of -1", IBig::from(-1).pow(e) == IBig::from(if e % 2 == 1 { -1 } else { 1 }));
}
fn c04(r: &mut Rng, ck: &mut Ck) {
    if ck.case % 4 == 3 {
        return vast_div(r, ck);
    }
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.u();
    let d = match ck.case % 4 {
        0 => G.nat(r, 1).or(&Nat::from_u64(3)),
        1 => G.words(r, 2),
        _ => G.words(r, 3),
    };
    ck.inp("d", &d);
    let y = ub(&d);
    let (q, m) = (&x).div_rem(&y);
    let mods = Res::few(r, 2);
    ck.t("colossal division, remainder below divisor", nat(&m).lt(&d));
    let back = mods.add(&mods.mul(&res_u(&mods, &q), &mods.of(&d)), &mods.of(&nat(&m)));
    ck.eq("colossal division, residues", back, a.residues(&mods));
    ck.t("colossal quotient, length", q.bit_len() + d.bit_len() == a.len() || q.bit_len() + d.bit_len() == a.len() + 1);
    ck.t("colossal remainder", &x % &y == m);
    ck.t("colossal quotient", x / y == q);
    if ck.case % 4 == 0 {
        // divided by a number almost as long
        let k = 1 + r.usize(90);
        let b = a.shr(k);
        let c = a.sub(&b.shl(k));
        let (q, m) = a.i(true).div_rem(b.i(false));
        is_i(ck, "colossal divisor, quotient", &q, true, &Runs::pow2(k));
        is_i(ck, "colossal divisor, remainder", &m, true, &c);
    }
}
fn c05(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.u();
    let k = r.usize(8);
    if ck.case % 2 == 0 {
        is(ck, "colossal + u8", &(&x + (1u8 << k)), &a.add2(k));
        is(ck, "colossal - u128", &(&x - (1u128 << 70 + k)), &a.sub2(70 + k));
        ck.eq("colossal % usize", &x % (1usize << 40), (0..40).map(|i| (a.has(i) as usize) << i).sum());
        is(ck, "colossal | u64", &(x | (1u64 << k)), &a.zip(&Runs::pow2(k), |a, b| a | b));
        is_i(ck, "colossal + i8", &(a.i(true) + (-1i8)), true, &a.add2(0));
    } else {
        ck.eq("colossal & u128", &x & u128::MAX, (0..128).map(|i| (a.has(i) as u128) << i).sum());
        is(ck, "u64 + colossal", &((1u64 << k) + &x), &a.add2(k));
        is(ck, "colossal * u16", &(&x * (1u16 << k)), &a.shl(k));
        is(ck, "colossal / u32", &(x / (1u32 << k)), &a.shr(k));
        is_i(ck, "colossal / i64", &(a.i(true) / -2i64), false, &a.shr(1));
    }
}
fn c06(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.u();
    let s = r.usize(200);
    let k = r.usize(a.len());
    let y = match r.usize(3) {
        0 => (&x << s) >> s,
        1 => (&x + UBig::from(7u8)) - UBig::from(7u8),
        _ => {
            let mut y = x.clone();
            if y.bit(k) {
                y.clear_bit(k);
                y.set_bit(k);
            } else {
                y.set_bit(k);
                y.clear_bit(k);
            }
            y
        }
    };
    ck.t("equal colossal numbers", x == y && !(x != y));
    ck.t("hashes of equal colossal numbers", hash(&x) == hash(&y));
    let (p, q) = (-IBig::from(x), -IBig::from(y));
    ck.t("equal colossal IBig", p == q && hash(&p) == hash(&q) && p != -&q);
    for k in [k, a.len() - 1, a.len() & (T - 1), T, 0] {
        let b = a.zip(&Runs::pow2(k), |a, b| a ^ b);
        ck.t_msg("different colossal numbers", b.i(true) != p, || format!("differ in bit {k}"));
    }
    ck.t("a colossal number and a small one", (&p).unsigned_abs() != a.shr(T).u() && p != IBig::from(0u8));
}
fn c07(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    let b = match r.usize(4) {
        0 => big(r),
        1 => a.shr(T),
        2 => a.sub2(0),
        _ => {
            let k = r.usize(a.len());
            a.zip(&Runs::pow2(k), |a, b| a ^ b)
        }
    };
    inp(ck, "a", &a);
    inp(ck, "b", &b);
    let want = a.cmp(&b);
    let (x, y) = (a.u(), b.u());
    ck.eq("colossal cmp", x.cmp(&y), want);
    ck.eq("colossal cmp, exchanged", y.cmp(&x), want.reverse());
    ck.eq("colossal <", (x < y, x <= y, x > y, x >= y), (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()));
    let (p, q) = (-IBig::from(x), -IBig::from(y));
    ck.eq("negative colossal cmp", p.cmp(&q), want.reverse());
    ck.eq("negative colossal <", (p < q, p <= q), (want.is_gt(), want.is_ge()));
    ck.t("signs decide", p < -q);
}
/// Two's complement: f on the numbers n >= 0 or -1 - n.
fn bits2(a: (bool, &Runs), b: (bool, &Runs), f: fn(bool, bool) -> bool) -> (bool, Runs) {
    let m = |x: (bool, &Runs)| if x.0 { x.1.sub2(0) } else { x.1.clone() };
    let neg = f(a.0, b.0);
    let n = m(a).zip(&m(b), |p, q| f(p ^ a.0, q ^ b.0) ^ neg);
    (neg, if neg { n.add2(0) } else { n })
}
fn c08(r: &mut Rng, ck: &mut Ck) {
    let (a, b) = (big(r), if r.bool() { big(r) } else { let n = 8 + r.usize(T); shape(r, n) });
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    inp(ck, "a", &a);
    inp(ck, "b", &b);
    if ck.case % 2 == 0 {
        let (x, y) = (a.u(), b.u());
        is(ck, "colossal &", &(&x & &y), &a.zip(&b, |p, q| p & q));
        is(ck, "colossal |", &(&x | &y), &a.zip(&b, |p, q| p | q));
        is(ck, "colossal ^", &(&x ^ &y), &a.zip(&b, |p, q| p ^ q));
        is(ck, "colossal and_not", &x.and_not(&y), &a.zip(&b, |p, q| p & !q));
    } else {
        let (s, t) = (r.bool(), r.bool());
        let (x, y) = (a.i(s), b.i(t));
        let mut go = |l: &str, g: IBig, f: fn(bool, bool) -> bool| {
            let (n, w) = bits2((s, &a), (t, &b), f);
            is_i(ck, l, &g, n, &w);
        };
        go("colossal signed &", &x & &y, |p, q| p & q);
        go("colossal signed |", &x | &y, |p, q| p | q);
        go("colossal signed ^", x ^ y, |p, q| p ^ q);
    }
}
fn c09(r: &mut Rng, ck: &mut Ck) {
    let k = if r.bool() { 3 } else { 500 };
    let k = T + r.usize(k);
    ck.inp_n("amount", k as u128);
    for n in [4 + r.usize(60), 65 + r.usize(64), 129 + r.usize(100)] {
        let m = shape(r, n);
        inp(ck, "m", &m);
        is(ck, "shift by more than 2^32", &(m.u() << k), &m.shl(k));
        let mut x = m.i(true);
        x <<= k;
        x >>= k - 1;
        is_i(ck, "shift in place by more than 2^32", &x, true, &m.shl(1));
    }
    let a = big(r);
    inp(ck, "a", &a);
    let k = match r.usize(4) {
        0 => a.len() - 1,
        1 => T,
        2 => a.len() - 1 - r.usize(150),
        _ => r.usize(a.len()),
    };
    ck.inp_n("amount", k as u128);
    let x = a.u();
    is(ck, "colossal >>", &(&x >> k), &a.shr(k));
    is(ck, "colossal << small", &(&x << (k % 100)), &a.shl(k % 100));
    ck.t("colossal >> everything", x >> a.len() == UBig::from(0u8));
    let exact = a.0[0].0 >= k;
    let w = if exact { a.shr(k) } else { a.shr(k).add2(0) };
    is_i(ck, "negative colossal >>", &(a.i(true) >> k), true, &w);
}
fn c10(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let mut x = a.u();
    ck.eq("colossal bit_len", x.bit_len(), a.len());
    ck.eq("colossal trailing_zeros", x.trailing_zeros(), Some(a.0[0].0));
    ck.eq("colossal is_power_of_two", x.is_power_of_two(), a.0.len() == 1 && a.0[0].1 - a.0[0].0 == 1);
    for k in [0, a.len() - 1, a.len(), a.len() - T, T, T - 1, r.usize(a.len()), 2 * T] {
        ck.eq("colossal bit", x.bit(k), a.has(k));
    }
    let p = Runs::pow2(a.len() - 1);
    is(ck, "colossal next_power_of_two", &(&x).next_power_of_two(), &if a == p { p.clone() } else { Runs::pow2(a.len()) });
    let y = p.u();
    ck.eq("colossal power of two", (y.trailing_zeros(), y.is_power_of_two()), (Some(a.len() - 1), true));
    ck.eq("colossal IBig trailing_zeros", (-IBig::from(y)).trailing_zeros(), Some(a.len() - 1));
    let (k, l) = (T + r.usize(5000), r.usize(a.len()));
    ck.inp_n("set", k as u128);
    ck.inp_n("cleared", l as u128);
    x.set_bit(k);
    x.clear_bit(l);
    is(ck, "colossal set_bit and clear_bit", &x, &a.zip(&Runs::pow2(k), |a, b| a | b).zip(&Runs::pow2(l), |a, b| a & !b));
    let mut x = UBig::from(5u8);
    x.set_bit(k);
    is(ck, "set_bit beyond 2^32", &x, &Runs::of(vec![(0, 1), (2, 3), (k, k + 1)]));
    x.clear_bit(k);
    ck.t("clear_bit beyond 2^32", x == UBig::from(5u8));
}

struct Digits<'a> {
    bytes: &'a [u8],
    per: usize,
    left: usize,
    bad: Option<usize>,
}
impl Digits<'_> {
    fn digit(&self, i: usize) -> u8 {
        let at = i * self.per;
        let get = |j: usize| *self.bytes.get(j).unwrap_or(&0) as u32;
        let v = (get(at / 8) | get(at / 8 + 1) << 8) >> (at % 8) & ((1 << self.per) - 1);
        b"0123456789abcdefghijklmnopqrstuvwxyz"[v as usize]
    }
}
impl std::fmt::Write for Digits<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.left == 0 {
                self.bad.get_or_insert(usize::MAX);
                return Ok(());
            }
            self.left -= 1;
            if c != self.digit(self.left) {
                self.bad.get_or_insert(self.left);
            }
        }
        Ok(())
    }
}
fn c11(r: &mut Rng, ck: &mut Ck) {
    if ck.case % 4 == 2 {
        return vast_text(r, ck);
    }
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.u();
    let bytes = a.bytes();
    let per = [4, 5, 0, 3][ck.case as usize % 4];
    let mut w = Digits { bytes: &bytes, per, left: a.len().div_ceil(per), bad: None };
    let ok = match per {
        4 => write!(w, "{:x}", x),
        3 => write!(w, "{:o}", x),
        _ => write!(w, "{}", x.in_radix(32)),
    };
    ck.t_msg("colossal text", ok.is_ok() && w.bad.is_none() && w.left == 0, || format!("wrong at digit {:?}, {} digits missing", w.bad, w.left));
}
fn c12(r: &mut Rng, ck: &mut Ck) {
    if ck.case % 3 == 2 {
        return vast_parse(r, ck);
    }
    let a = big(r);
    inp(ck, "a", &a);
    let per = [4, 5, 0][ck.case as usize % 3];
    let bytes = a.bytes();
    let d = Digits { bytes: &bytes, per, left: 0, bad: None };
    let prefix = per == 4 && r.bool();
    let n = a.len().div_ceil(per);
    let mut s = String::with_capacity(n + 2);
    if prefix {
        s.push_str("0x");
    }
    for i in (0..n).rev() {
        s.push(d.digit(i) as char);
    }
    let g = if prefix { UBig::from_str_with_radix_prefix(&s) } else { UBig::from_str_radix(&s, 1 << per) };
    drop(s);
    drop(bytes);
    match g {
        Ok(g) => is(ck, "number parsed from a colossal text", &g, &a),
        Err(e) => ck.fail("number parsed from a colossal text", format!("{e:?}")),
    }
}
fn c13(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let mut b = a.bytes();
    let x = UBig::from_le_bytes(&b);
    ck.eq("colossal from_le_bytes", x.bit_len(), a.len());
    ck.t("colossal to_le_bytes", x.to_le_bytes() == b);
    b.resize(b.len() + r.usize(40), 0);
    ck.t("colossal from_le_bytes, padded", UBig::from_le_bytes(&b) == x);
    b.reverse();
    ck.t("colossal from_be_bytes", UBig::from_be_bytes(&b) == x);
    let z = x.to_be_bytes();
    ck.t("colossal to_be_bytes", b.ends_with(&z) && z[0] != 0 && b[..b.len() - z.len()].iter().all(|x| *x == 0));
    for k in [T, a.len() - 1, 0, 64, r.usize(a.len())] {
        ck.eq("bits of a colossal number from bytes", x.bit(k), a.has(k));
    }
}
fn c14(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let (x, z) = (a.u(), a.i(true));
    macro_rules! t { ($($t:ty)*) => { $(
        ck.t("a colossal number fits no primitive", <$t>::try_from(&x).is_err() && <$t>::try_from(&z).is_err());
    )* } }
    t!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    ck.t("a negative colossal number is no UBig", UBig::try_from(&z).is_err() && UBig::try_from(z).is_err());
    ck.t("a positive colossal number is a UBig", UBig::try_from(a.i(false)).ok().as_ref() == Some(&x));
}
fn c15(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.u();
    ck.eq("colossal to_f64", x.to_f64(), f64::INFINITY);
    ck.eq("colossal to_f32", x.to_f32(), f32::INFINITY);
    let z = -IBig::from(x);
    ck.eq("negative colossal to_f64", z.to_f64(), f64::NEG_INFINITY);
    ck.eq("negative colossal to_f32", z.to_f32(), f32::NEG_INFINITY);
}
fn c16(r: &mut Rng, ck: &mut Ck) {
    let (m, n) = (G.words(r, 2), G.words(r, 1));
    let (m, n) = (m.or(&Nat::one()), n.or(&Nat::one()));
    let (s, t) = (T + r.usize(300), if ck.case % 2 == 1 { r.usize(300) } else { T + r.usize(300) });
    ck.inp("m", &m);
    ck.inp("n", &n);
    ck.inp_n("m shifted by", s as u128);
    ck.inp_n("n shifted by", t as u128);
    let (x, y) = (ub(&m) << s, ub(&n) << t);
    let g = m.gcd(&n);
    let want = Runs::of((0..g.bit_len()).filter(|i| g.bit(*i)).map(|i| (i, i + 1)).collect()).shl(s.min(t));
    is(ck, "colossal gcd", &x.gcd(&y), &want);
    is(ck, "colossal gcd, exchanged", &y.gcd(&x), &want);
}
fn c17(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    if ck.case % 2 == 0 {
        let n = 1 + r.usize(3);
        let m = G.words(r, n).or(&Nat::one());
        let m = if m == Nat::one() { Nat::from_u64(3) } else { m };
        ck.inp("modulus", &m);
        let ring = ibig::ModuloRing::new(&ub(&m));
        let mut w = Nat::zero();
        let p2 = |e: usize| {
            let (mut y, b) = (Nat::one().rem(&m), Nat::from_u64(2).rem(&m));
            for i in (0..usize::BITS - e.leading_zeros()).rev() {
                y = y.mul(&y).rem(&m);
                if e >> i & 1 == 1 {
                    y = y.mul(&b).rem(&m);
                }
            }
            y
        };
        for &(s, e) in &a.0 {
            w = w.add(&p2(e)).add(&m).sub(&p2(s)).unwrap().rem(&m);
        }
        ck.u("residue of a colossal number", &ring.from(a.u()).residue(), &w);
        ck.u("residue of a colossal number by reference", &ring.from(&a.i(false)).residue(), &w);
    } else {
        let ring = ibig::ModuloRing::new(&a.u());
        let (b, c) = (a.sub2(r.usize(100)), { let n = 8 + r.usize(T); shape(r, n) });
        inp(ck, "b", &b);
        inp(ck, "c", &c);
        let red = |x: &Runs| if x.cmp(&a).is_ge() { x.sub(&a) } else { x.clone() };
        let (x, y) = (ring.from(b.u()), ring.from(c.u()));
        is(ck, "sum in a colossal ring", &(&x + &y).residue(), &red(&b.add(&c)));
        is(ck, "difference in a colossal ring", &(&y - &x).residue(), &red(&a.add(&c).sub(&b)));
        is(ck, "negation in a colossal ring", &(-x).residue(), &a.sub(&b));
        is(ck, "colossal modulus", &ring.modulus(), &a);
    }
}
fn c20(r: &mut Rng, ck: &mut Ck) {
    use rand::Rng as _;
    struct Quick(u64);
    impl rand::RngCore for Quick {
        fn next_u64(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ z >> 31
        }
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for c in b.chunks_mut(8) {
                c.copy_from_slice(&self.next_u64().to_le_bytes()[..c.len()]);
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
            self.fill_bytes(b);
            Ok(())
        }
    }
    let a = big(r);
    inp(ck, "a", &a);
    let mut q = Quick(r.u64());
    let x = a.u();
    let mut long = 0;
    for _ in 0..2 {
        let s = q.gen_range(UBig::from(0u8)..x.clone());
        ck.t("sample below a colossal bound", s < x);
        long += (s.bit_len() + 40 > a.len()) as u32;
        // every part of it varies
        for i in 0..8 {
            let at = i * (a.len() - 128) / 8;
            let part = (&s >> at) & u64::MAX;
            ck.t_msg("parts of a colossal sample vary", part != 0 && part != u64::MAX, || format!("{part:#x} at bit {at}"));
        }
    }
    ck.t("samples below a colossal bound are long", long > 0);
}
fn c21(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let x = a.i(r.bool());
    let b = bincode::serialize(&x).unwrap();
    ck.t("colossal encoding, length", b.len() >= a.len() / 8 && b.len() <= a.len() / 8 + 64);
    match bincode::deserialize::<IBig>(&b) {
        Ok(y) => ck.t("colossal number deserialized", y == x),
        Err(e) => ck.fail("colossal number deserialized", format!("{e:?}")),
    }
}
fn c30(r: &mut Rng, ck: &mut Ck) {
    let a = big(r);
    inp(ck, "a", &a);
    let z = a.i(true);
    is_i(ck, "colossal neg", &-&z, false, &a);
    is_i(ck, "colossal abs", &z.clone().abs(), false, &a);
    is(ck, "colossal unsigned_abs", &(&z).unsigned_abs(), &a);
    ck.t("colossal signum", z.signum() == IBig::from(-1i8));
}

macro_rules! cases { ($($p:literal $f:ident)*) => {
    $( mod $f { pub fn guarded(r: &mut super::Rng, ck: &mut super::Ck) { if super::room(ck) { super::$f(r, ck) } } } )*
    fn main() { run_main(&[$(($p, $f::guarded)),*]); }
} }
cases!("C01" c01 "C02" c02 "C03" c03 "C04" c04 "C05" c05 "C06" c06 "C07" c07 "C08" c08 "C09" c09 "C10" c10 "C11" c11 "C12" c12 "C13" c13
       "C14" c14 "C15" c15 "C16" c16 "C17" c17 "C20" c20 "C21" c21 "C30" c30);
