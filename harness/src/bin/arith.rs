//! C01 add/sub, C02 mul, C03 pow, C04 division, C30 signs, C32 num_traits.
#![allow(clippy::all)]
use ibig::ops::*;
use mon::ck::{hx, hxi};
use mon::*;

fn sz(r: &mut Rng, small: usize, big: usize) -> usize {
    if r.chance(1, 12) {
        big
    } else {
        small
    }
}

/// Expression `a op b` in one of the owned/borrowed/in-place forms chosen by `k` (0..6).
macro_rules! form {
    ($k:expr, $a:expr, $b:expr, $op:ident, $opa:ident, $tr:ident, $tra:ident) => {{
        let (a, b) = (&$a, &$b);
        match $k {
            0 => std::ops::$tr::$op(a.dup(), b.dup()),
            1 => std::ops::$tr::$op(a.dup(), b),
            2 => std::ops::$tr::$op(a, b.dup()),
            3 => std::ops::$tr::$op(a, b),
            4 => {
                let mut x = a.dup();
                std::ops::$tra::$opa(&mut x, b.dup());
                x
            }
            _ => {
                let mut x = a.dup();
                std::ops::$tra::$opa(&mut x, b);
                x
            }
        }
    }};
}
/// Forms of the library's own division traits (no in-place form).
macro_rules! form4 {
    ($k:expr, $a:expr, $b:expr, $tr:ident, $op:ident) => {{
        let (a, b) = (&$a, &$b);
        match $k % 4 {
            0 => $tr::$op(a.dup(), b.dup()),
            1 => $tr::$op(a.dup(), b),
            2 => $tr::$op(a, b.dup()),
            _ => $tr::$op(a, b),
        }
    }};
}
const FL: [&str; 6] = ["vv", "vr", "rv", "rr", "=v", "=r"];

fn c01(r: &mut Rng, ck: &mut Ck) {
    if r.chance(1, 8) {
        return c01_chain(r, ck);
    }
    let max = sz(r, 80, 1100);
    let (a, b) = if giant::due(r, 10000) { giant::pair(r) } else { G.pair(r, max) };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let sum = a.add(&b);
    let d1 = a.sub(&b);
    let (sa, sb) = (r.bool(), r.bool());
    let (ia, ib_) = (Int::new(sa, a.clone()), Int::new(sb, b.clone()));
    let (ix, iy) = (ib(&ia), ib(&ib_));
    let isum = ia.add(&ib_);
    let idif = ia.sub(&ib_);
    for k in 0..6 {
        ck.u(["u+ vv", "u+ vr", "u+ rv", "u+ rr", "u+ =v", "u+ =r"][k], &form!(k, x, y, add, add_assign, Add, AddAssign), &sum);
        if d1.is_some() || k == r.usize(6) {
            ck.u_or_panic(["u- vv", "u- vr", "u- rv", "u- rr", "u- =v", "u- =r"][k], d1.as_ref(), || {
                form!(k, x, y, sub, sub_assign, Sub, SubAssign)
            });
        }
        ck.i(["i+ vv", "i+ vr", "i+ rv", "i+ rr", "i+ =v", "i+ =r"][k], &form!(k, ix, iy, add, add_assign, Add, AddAssign), &isum);
        ck.i(["i- vv", "i- vr", "i- rv", "i- rr", "i- =v", "i- =r"][k], &form!(k, ix, iy, sub, sub_assign, Sub, SubAssign), &idif);
    }
    // Operands passed by reference are untouched.
    ck.u("operand a kept", &x, &a);
    ck.i("operand b kept", &iy, &ib_);
    ck.log(|| format!("add {} {} {}", ia.hex(), ib_.hex(), hxi(&(&ix + &iy))));
    ck.log(|| format!("sub {} {} {}", ia.hex(), ib_.hex(), hxi(&(&ix - &iy))));
}

/// Long chains of in-place updates on values that keep (and shrink) their buffers.
fn c01_chain(r: &mut Rng, ck: &mut Ck) {
    let max = sz(r, 40, 400);
    let mut n = G.nat(r, max);
    let mut u = ub(&n);
    let mut i = Int::new(r.bool(), G.nat(r, max));
    let mut v = ib(&i);
    let mut hist: Vec<Nat> = vec![n.clone()];
    for _ in 0..r.range(5, 40) {
        let b = match r.usize(5) {
            0 => G.related(r, &n),
            1 => G.related(r, &i.mag),
            2 => r.pick(&hist).clone(),
            _ => G.nat(r, max),
        };
        let b = if b.bit_len() > 2 * max * W { b.low_bits(max * W) } else { b };
        ck.clear_inputs();
        ck.inp("acc", &n);
        ck.inp_i("iacc", &i);
        ck.inp("b", &b);
        let y = ub(&b);
        if r.bool() || n.lt(&b) {
            if n.bit_len() < 3 * max * W {
                n = n.add(&b);
                if r.bool() {
                    u += &y
                } else {
                    u += y.dup()
                }
            }
        } else {
            n = n.sub(&b).unwrap();
            if r.bool() {
                u -= &y
            } else {
                u -= y.dup()
            }
        }
        ck.u("chain u", &u, &n);
        let sb = Int::new(r.bool(), b.clone());
        let w = ib(&sb);
        match r.usize(4) {
            0 => {
                v += &w;
                i = i.add(&sb)
            }
            1 => {
                v += w;
                i = i.add(&sb)
            }
            2 => {
                v -= &w;
                i = i.sub(&sb)
            }
            _ => {
                v -= w;
                i = i.sub(&sb)
            }
        }
        ck.i("chain i", &v, &i);
        hist.push(b);
    }
}

fn check_mul(r: &mut Rng, ck: &mut Ck, a: &Nat, b: &Nat, all: bool) {
    ck.clear_inputs();
    ck.inp("a", a);
    ck.inp("b", b);
    let p = a.mul(b);
    let (x, y) = (ub(a), ub(b));
    let ks: Vec<usize> = if all { (0..6).collect() } else { vec![r.usize(6)] };
    for &k in &ks {
        ck.u(["u* vv", "u* vr", "u* rv", "u* rr", "u* =v", "u* =r"][k], &form!(k, x, y, mul, mul_assign, Mul, MulAssign), &p);
    }
    let (sa, sb) = (r.bool(), r.bool());
    let (ia, ib_) = (Int::new(sa, a.clone()), Int::new(sb, b.clone()));
    let ip = Int::new(sa != sb, p.clone());
    let (ix, iy) = (ib(&ia), ib(&ib_));
    for &k in &ks {
        ck.i(["i* vv", "i* vr", "i* rv", "i* rr", "i* =v", "i* =r"][k], &form!(k, ix, iy, mul, mul_assign, Mul, MulAssign), &ip);
    }
    if ck.logging() && a.bit_len() + b.bit_len() < 40000 {
        ck.log(|| format!("mul {} {} {}", ia.hex(), ib_.hex(), hxi(&(&ix * &iy))));
    }
}

fn c02(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 3000) {
        return giant::mul(r, ck);
    }
    // Total length limited so that the product fits the 16-bit-word configuration.
    let cap = if W == 16 { 4000 } else { 5000 };
    match r.usize(20) {
        0..=5 => {
            let max = 90;
            let (a, b) = G.pair(r, max);
            check_mul(r, ck, &a, &b, true);
        }
        6..=8 => {
            // every length, and the lengths that split evenly against it: all the sizes the recursions meet
            let n = if r.chance(1, 3) { r.range(1, 480) } else { r.range(1, 130) };
            let m = match r.usize(6) {
                0 | 1 => n,
                2 => n + 1,
                3 => 2 * n,
                4 => 2 * n - 1,
                _ => n + n / 2,
            };
            let (a, b) = match r.usize(3) {
                0 => (Nat::ones(n * W), Nat::ones(m * W)),
                _ => (G.words(r, n), G.words(r, m)),
            };
            check_mul(r, ck, &a, &b, false);
        }
        9..=11 => {
            // around the schoolbook / Karatsuba threshold
            let n = r.range(20, 60);
            let m = if r.bool() { n + r.usize(4) } else { r.range(20, 400) };
            let (a, b) = (G.words(r, n), G.words(r, m));
            check_mul(r, ck, &a, &b, false);
        }
        12..=14 => {
            // Karatsuba / Toom-Cook-3
            let n = if r.bool() { r.range(185, 215) } else { r.range(193, 700) };
            let m = match r.usize(3) {
                0 => n + r.usize(6),
                1 => n + r.usize(n),
                _ => n * r.range(1, 4) + r.usize(n),
            }
            .min(cap - n);
            let a = G.words(r, n);
            let b = if r.chance(1, 3) { G.related(r, &a) } else { G.words(r, m) };
            check_mul(r, ck, &a, &b, false);
        }
        15 => {
            // long by short: chunked schoolbook
            let n = r.range(1, 30);
            let m = r.range(900, 3300).min(cap - n);
            let (a, b) = (G.words(r, n), G.words(r, m));
            if r.bool() {
                check_mul(r, ck, &a, &b, false);
            } else {
                check_mul(r, ck, &b, &a, false);
            }
        }
        16 => {
            // squares and near squares
            let max = sz(r, 200, 1200);
            let a = G.nat(r, max);
            check_mul(r, ck, &a, &a.clone(), false);
            let x = ub(&a);
            ck.u("square", &(&x * &x), &a.mul(&a));
        }
        17 => {
            // chain of in-place multiplications by short values
            let mut n = G.nonzero(r, 30);
            let mut u = ub(&n);
            for _ in 0..r.range(3, 30) {
                let wlen = if r.chance(1, 4) { 3 } else { 1 };
                let b = G.nat(r, wlen);
                if b.is_zero() && r.chance(3, 4) {
                    continue;
                }
                ck.clear_inputs();
                ck.inp("acc", &n);
                ck.inp("b", &b);
                n = n.mul(&b);
                if r.bool() {
                    u *= ub(&b)
                } else {
                    u *= &ub(&b)
                }
                ck.u("mul chain", &u, &n);
            }
        }
        18 => {
            // sparse-by-dense and block patterns whose sub-products cancel or overflow
            let n = r.range(20, 500);
            let mut a = G.words(r, n);
            let k = r.usize(n) * W;
            match r.usize(4) {
                0 => a = a.or(&Nat::ones(k)),
                1 => a = a.shr(k).shl(k),
                2 => a = Nat::ones(n * W).sub(&Nat::pow2(k)).unwrap(),
                _ => a = Nat::ones(n * W),
            }
            let m = r.range(20, 500);
            let b = if r.bool() { Nat::ones(m * W) } else { G.words(r, m) };
            check_mul(r, ck, &a, &b, false);
        }
        _ => {
            let n = r.range(600, cap / 2);
            let m = r.range(200, cap - n);
            let (a, b) = (G.words(r, n), G.words(r, m));
            check_mul(r, ck, &a, &b, false);
        }
    }
}

fn c03(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 12000) {
        return giant::pow(r, ck);
    }
    let limit = if r.chance(1, 10) { 30000 } else { 4000 };
    let base = match r.usize(12) {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => Nat::from_u64(2),
        3 => Nat::pow2(r.range(1, 3 * W)),
        4 => {
            let odd = Nat::from_u64(r.below(50) * 2 + 1);
            odd.shl(r.usize(3 * W))
        }
        5 => Nat::from_u64(r.below(40)),
        6 => {
            let k = *r.pick(&[W, 2 * W, 8, 16, 32, 64]);
            Nat::pow2(k).sub(&Nat::from_u64(r.below(3) + 1)).unwrap()
        }
        7 => Nat::from_u64(G.special_word(r)),
        8 => G.nat(r, 2),
        9 => G.nat(r, 8),
        _ => G.nat(r, 40),
    };
    let neg = r.bool();
    let exp: usize = if base.is_zero() || base.is_one() {
        match r.usize(4) {
            0 => usize::MAX - r.usize(3),
            1 => r.u64() as usize,
            2 => {
                let s = r.usize(4);
                alias(r, s)
            }
            _ => r.usize(6),
        }
    } else {
        let m = limit / base.bit_len();
        if r.chance(1, 3) {
            r.usize(6).min(m)
        } else {
            r.usize(m + 1)
        }
    };
    ck.inp("base", &base);
    ck.inp_n("exp", exp as u128);
    let want = if base.is_zero() {
        if exp == 0 {
            Nat::one()
        } else {
            Nat::zero()
        }
    } else if base.is_one() {
        Nat::one()
    } else {
        base.pow(exp)
    };
    let x = ub(&base);
    let got = x.pow(exp);
    ck.u("UBig::pow", &got, &want);
    let b = Int::new(neg, base.clone());
    let iw = Int::new(b.neg && exp % 2 == 1, want.clone());
    let ig = ib(&b).pow(exp);
    ck.i("IBig::pow", &ig, &iw);
    if exp <= 30000 && want.bit_len() <= 30000 {
        ck.log(|| format!("pow {} {exp} {}", b.hex(), hxi(&ig)));
    }
}

/// A dividend and divisor that stress quotient estimation and correction.
fn div_operands(r: &mut Rng, nmax: usize, qmax: usize) -> (Nat, Nat) {
    let n = G.len(r, nmax).max(1);
    let mut b = G.words(r, n);
    if r.chance(1, 3) {
        // special leading words: 10..0, 10..01, 0111, 11..1, and neighbours
        let top = G.special_word(r);
        let k = (n - 1) * W;
        b = b.low_bits(k).or(&Nat::from_u64(top).shl(k));
    }
    if b.is_zero() {
        b = Nat::one();
    }
    let a = match r.usize(10) {
        0..=5 => {
            let m = G.len(r, qmax);
            let q = match r.usize(3) {
                0 => Nat::ones(m * W),
                _ => G.words(r, m),
            };
            let rem = match r.usize(5) {
                0 => Nat::zero(),
                1 => b.sub(&Nat::one()).unwrap(),
                2 => Nat::from_u64(r.below(3)).rem(&b),
                3 => G.related(r, &b).rem(&b),
                _ => G.random_bits(r, b.bit_len()).rem(&b),
            };
            q.mul(&b).add(&rem)
        }
        6 => G.related(r, &b),
        7 => {
            let k = r.usize(qmax + 1) * W + r.usize(W);
            b.shl(k).sub(&Nat::from_u64(r.below(2))).unwrap()
        }
        8 => {
            // leading words equal to the divisor's: quotient digits at their maximum
            let m = G.len(r, qmax);
            let lowbits = m * W;
            b.shl(lowbits).sub(&G.random_bits(r, lowbits.min(W * 2)).add_u32(1)).unwrap_or_else(Nat::zero)
        }
        _ => {
            let m = G.len(r, qmax);
            G.words(r, n + m)
        }
    };
    (a, b)
}

fn check_div(r: &mut Rng, ck: &mut Ck, a: &Nat, b: &Nat, all: bool) {
    ck.clear_inputs();
    ck.inp("a", a);
    ck.inp("b", b);
    let (q, m) = a.divrem(b);
    let (x, y) = (ub(a), ub(b));
    let ks: Vec<usize> = if all { (0..6).collect() } else { vec![r.usize(6)] };
    for &k in &ks {
        ck.u(["u/ vv", "u/ vr", "u/ rv", "u/ rr", "u/ =v", "u/ =r"][k], &form!(k, x, y, div, div_assign, Div, DivAssign), &q);
        ck.u(["u% vv", "u% vr", "u% rv", "u% rr", "u% =v", "u% =r"][k], &form!(k, x, y, rem, rem_assign, Rem, RemAssign), &m);
        let (gq, gm) = form4!(k, x, y, DivRem, div_rem);
        ck.u("u div_rem.0", &gq, &q);
        ck.u("u div_rem.1", &gm, &m);
        ck.u("u div_euclid", &form4!(k, x, y, DivEuclid, div_euclid), &q);
        ck.u("u rem_euclid", &form4!(k, x, y, RemEuclid, rem_euclid), &m);
        let (gq, gm) = form4!(k, x, y, DivRemEuclid, div_rem_euclid);
        ck.u("u div_rem_euclid.0", &gq, &q);
        ck.u("u div_rem_euclid.1", &gm, &m);
    }
    let signs: &[(bool, bool)] = if all {
        &[(false, false), (true, false), (false, true), (true, true)]
    } else {
        &[(true, false), (false, true), (true, true)]
    };
    let pick = r.usize(signs.len());
    for (n, &(sa, sb)) in signs.iter().enumerate() {
        if !all && n != pick {
            continue;
        }
        let (ia, ibv) = (Int::new(sa, a.clone()), Int::new(sb, b.clone()));
        let (ix, iy) = (ib(&ia), ib(&ibv));
        let tq = Int::new(sa != sb, q.clone());
        let tm = Int::new(sa, m.clone());
        let (eq, em) = ia.divrem_euclid(&ibv);
        let em = Int::nat(em);
        let ks2 = if all && n > 0 { vec![r.usize(6)] } else { ks.clone() };
        for &k in &ks2 {
            ck.i(["i/ vv", "i/ vr", "i/ rv", "i/ rr", "i/ =v", "i/ =r"][k], &form!(k, ix, iy, div, div_assign, Div, DivAssign), &tq);
            ck.i(["i% vv", "i% vr", "i% rv", "i% rr", "i% =v", "i% =r"][k], &form!(k, ix, iy, rem, rem_assign, Rem, RemAssign), &tm);
            let (gq, gm) = form4!(k, ix, iy, DivRem, div_rem);
            ck.i("i div_rem.0", &gq, &tq);
            ck.i("i div_rem.1", &gm, &tm);
            ck.i(["i div_euclid vv", "i div_euclid vr", "i div_euclid rv", "i div_euclid rr"][k % 4], &form4!(k, ix, iy, DivEuclid, div_euclid), &eq);
            ck.i(["i rem_euclid vv", "i rem_euclid vr", "i rem_euclid rv", "i rem_euclid rr"][k % 4], &form4!(k, ix, iy, RemEuclid, rem_euclid), &em);
            let (gq, gm) = form4!(k, ix, iy, DivRemEuclid, div_rem_euclid);
            ck.i("i div_rem_euclid.0", &gq, &eq);
            ck.i("i div_rem_euclid.1", &gm, &em);
        }
        if ck.logging() && a.bit_len() < 40000 {
            ck.log(|| {
                let (gq, gm) = (&ix).div_rem(&iy);
                format!("divrem {} {} {} {}", ia.hex(), ibv.hex(), hxi(&gq), hxi(&gm))
            });
        }
    }
}

fn c04(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 4000) {
        return giant::div(r, ck);
    }
    let (nmax, qmax, all) = match r.usize(24) {
        0..=8 => (6, 6, true),
        9..=13 => (2, 40, true),
        14..=16 => (40, 40, false),
        17..=20 => {
            // both quotient and divisor beyond the divide-and-conquer threshold
            let n = r.range(30, 150);
            let m = r.range(30, 150);
            let mut b = G.words(r, n);
            if r.chance(1, 3) {
                let k = (n - 1) * W;
                b = b.low_bits(k).or(&Nat::from_u64(G.special_word(r).max(1)).shl(k));
            }
            let q = if r.chance(1, 3) { Nat::ones(m * W) } else { G.words(r, m) };
            let rem = match r.usize(4) {
                0 => Nat::zero(),
                1 => b.sub(&Nat::one()).unwrap(),
                _ => G.related(r, &b).rem(&b),
            };
            let a = q.mul(&b).add(&rem);
            return check_div(r, ck, &a, &b, false);
        }
        21 => {
            // long dividend, shorter divisor: several divide-and-conquer blocks
            let n = r.range(33, 200);
            let m = n * r.range(1, 6) + r.usize(n);
            let b = G.words(r, n);
            let q = G.words(r, m);
            let rem = G.related(r, &b).rem(&b);
            let a = q.mul(&b).add(&rem);
            return check_div(r, ck, &a, &b, false);
        }
        22 if r.chance(1, 20) => {
            // a quotient longer than a chunk of the schoolbook product, a divisor slightly longer still
            let m = r.range(1020, 1150) + if r.chance(1, 3) { r.usize(700) } else { 0 };
            let n = m + if r.chance(3, 4) { r.range(1, 26) } else { r.range(26, 400) };
            let b = G.words(r, n);
            let q = G.words(r, m);
            let rem = if r.bool() { b.sub(&Nat::one()).unwrap() } else { G.related(r, &b).rem(&b) };
            let a = q.mul(&b).add(&rem);
            return check_div(r, ck, &a, &b, false);
        }
        22 => (300, 300, false),
        _ => {
            // sizes where the inner products use Karatsuba and Toom-3
            let n = r.range(180, 900);
            let m = r.range(40, 900);
            let b = G.words(r, n);
            let q = G.words(r, m);
            let rem = if r.bool() { b.sub(&Nat::one()).unwrap() } else { G.related(r, &b).rem(&b) };
            let a = q.mul(&b).add(&rem);
            return check_div(r, ck, &a, &b, false);
        }
    };
    let (a, b) = div_operands(r, nmax, qmax);
    check_div(r, ck, &a, &b, all);
}

fn c30(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 6000) {
        return giant::signs(r, ck);
    }
    let max = sz(r, 20, 300);
    let (i, j) = if r.chance(1, 8) { (Int::zero(), G.int(r, max)) } else { G.int_pair(r, max) };
    ck.inp_i("i", &i);
    ck.inp_i("j", &j);
    // The value is reached by different histories.
    let v: IBig = match r.usize(8) {
        0 => ib(&i.add(&j)) - ib(&j),
        1 => ib(&i.sub(&j)) + ib(&j),
        2 => -ib(&i.neg()),
        3 => !ib(&i.not()),
        4 if !j.is_zero() => ib(&i.mul(&j)) / ib(&j),
        5 => ib(&i) ^ ib(&j) ^ ib(&j),
        6 => (ib(&i) << 7usize) >> 7usize,
        _ => ib(&i),
    };
    let z = i.is_zero();
    let one = Int::from_i128(1);
    ck.i("neg v", &-v.dup(), &i.neg());
    ck.i("neg r", &-&v, &i.neg());
    ck.i("neg neg", &-(-&v), &i);
    ck.i("abs v", &v.dup().abs(), &Int::nat(i.mag.clone()));
    ck.i("abs r", &(&v).abs(), &Int::nat(i.mag.clone()));
    ck.u("unsigned_abs v", &v.dup().unsigned_abs(), &i.mag);
    ck.u("unsigned_abs r", &(&v).unsigned_abs(), &i.mag);
    ck.i("signum", &v.signum(), &if z { Int::zero() } else { Int::new(i.neg, one.mag.clone()) });
    ck.i("a*signum", &(v.signum() * (&v).abs()), &i);
    let w = ib(&j);
    ck.i("sign of product", &(v.signum() * w.signum()), &Int::from_i128(1).mul(&i).mul(&j).clamp1());
    let m = ub(&i.mag);
    ck.i("From<UBig>", &IBig::from(m.dup()), &Int::nat(i.mag.clone()));
    ck.i("From<&UBig>", &IBig::from(&m), &Int::nat(i.mag.clone()));
    let back = UBig::try_from(IBig::from(m.dup()));
    ck.t("round trip ok", back.is_ok());
    if let Ok(b) = back {
        ck.u("round trip", &b, &i.mag);
    }
    let t1 = UBig::try_from(v.dup());
    let t2 = UBig::try_from(&v);
    ck.eq("TryFrom refuses negatives", (t1.is_err(), t2.is_err()), (i.neg, i.neg));
    if let Ok(b) = t1 {
        ck.u("TryFrom v", &b, &i.mag);
    }
    if let Ok(b) = t2 {
        ck.u("TryFrom r", &b, &i.mag);
    }
    // Zero has no sign.
    for (l, zv) in [
        ("0: a-a", &v - &v),
        ("0: a+(-a)", &v + -&v),
        ("0: -0", -(&v - &v)),
        ("0: a*0", &v * IBig::from(0u8)),
        ("0: a^a", &v ^ &v),
        ("0: -(a*0)", -(&v * IBig::from(0i8))),
    ] {
        ck.i(l, &zv, &Int::zero());
        ck.t("zero not negative", !(zv < IBig::from(0u8)) && zv.to_string() == "0" && zv == IBig::default());
    }
    ck.t("sign agrees with text", v.to_string().starts_with('-') == i.neg);
}

trait Clamp {
    fn clamp1(&self) -> Int;
}
impl Clamp for Int {
    fn clamp1(&self) -> Int {
        if self.is_zero() {
            Int::zero()
        } else {
            Int::from_i128(if self.neg { -1 } else { 1 })
        }
    }
}

mod nt {
    //! Code written only against num_traits.
    use num_traits::*;
    pub fn zero<T: Zero>() -> T {
        T::zero()
    }
    pub fn one<T: One>() -> T {
        T::one()
    }
    pub fn is_zero<T: Zero>(x: &T) -> bool {
        x.is_zero()
    }
    pub fn is_one<T: One + PartialEq>(x: &T) -> bool {
        x.is_one()
    }
    pub fn set_zero<T: Zero>(x: &mut T) {
        x.set_zero()
    }
    pub fn set_one<T: One>(x: &mut T) {
        x.set_one()
    }
    pub fn pow<T: Pow<usize>>(x: T, e: usize) -> T::Output {
        x.pow(e)
    }
    pub fn parse<T: Num>(s: &str, r: u32) -> Result<T, T::FromStrRadixErr> {
        T::from_str_radix(s, r)
    }
    pub fn signed<T: Signed>(x: &T, y: &T) -> (T, T, T, bool, bool) {
        (x.abs(), x.abs_sub(y), x.signum(), x.is_positive(), x.is_negative())
    }
    pub fn ops<T: Num + Clone>(x: &T, y: &T) -> (T, T, Option<(T, T)>) {
        let q = if y.is_zero() {
            None
        } else {
            Some((x.clone() / y.clone(), x.clone() % y.clone()))
        };
        (x.clone() + y.clone(), x.clone() * y.clone(), q)
    }
    pub fn abs_free<T: Signed>(x: T) -> T {
        abs(x)
    }
    pub fn signum_free<T: Signed>(x: T) -> T {
        signum(x)
    }
    pub fn unsigned<T: Unsigned>(x: T) -> T {
        x
    }
    pub fn powu<T: Clone + One>(x: T, e: usize) -> T {
        num_traits::pow(x, e)
    }
}

fn c32(r: &mut Rng, ck: &mut Ck) {
    let max = sz(r, 12, 100);
    let (i, j) = match r.usize(6) {
        0 => (Int::from_i128(r.usize(5) as i128 - 2), Int::from_i128(r.usize(5) as i128 - 2)),
        _ => G.int_pair(r, max),
    };
    ck.inp_i("i", &i);
    ck.inp_i("j", &j);
    let (v, w) = (ib(&i), ib(&j));
    let (u, t) = (ub(&i.mag), ub(&j.mag));
    ck.u("zero", &nt::zero::<UBig>(), &Nat::zero());
    ck.u("one", &nt::one::<UBig>(), &Nat::one());
    ck.i("zero i", &nt::zero::<IBig>(), &Int::zero());
    ck.i("one i", &nt::one::<IBig>(), &Int::from_i128(1));
    ck.u("default", &UBig::default(), &Nat::zero());
    ck.i("default i", &IBig::default(), &Int::zero());
    ck.eq("is_zero", (nt::is_zero(&u), nt::is_zero(&v)), (i.is_zero(), i.is_zero()));
    ck.eq("is_one", (nt::is_one(&u), nt::is_one(&v)), (i.mag.is_one(), i.mag.is_one() && !i.neg));
    let mut m = v.dup();
    nt::set_zero(&mut m);
    ck.i("set_zero", &m, &Int::zero());
    nt::set_one(&mut m);
    ck.i("set_one", &m, &Int::from_i128(1));
    let e = r.usize(if i.mag.bit_len() > 300 { 4 } else { 12 });
    ck.inp_n("e", e as u128);
    let p = i.pow(e);
    ck.u("Pow UBig", &nt::pow(u.dup(), e), &p.mag);
    ck.u("Pow &UBig", &nt::pow(&u, e), &p.mag);
    ck.i("Pow IBig", &nt::pow(v.dup(), e), &p);
    ck.i("Pow &IBig", &nt::pow(&v, e), &p);
    if e < 8 {
        ck.i("num_traits::pow", &nt::powu(v.dup(), e), &p);
    }
    let (ab, asub, sg, pos, neg) = nt::signed(&v, &w);
    ck.i("abs", &ab, &Int::nat(i.mag.clone()));
    let d = i.sub(&j);
    ck.i("abs_sub", &asub, &if d.neg { Int::zero() } else { d });
    ck.i("signum", &sg, &i.clamp1());
    ck.i("abs()", &nt::abs_free(v.dup()), &Int::nat(i.mag.clone()));
    ck.i("signum()", &nt::signum_free(v.dup()), &i.clamp1());
    ck.eq("is_positive/negative", (pos, neg), (!i.neg && !i.is_zero(), i.neg));
    ck.u("Unsigned", &nt::unsigned(u.dup()), &i.mag);
    let (s, mu, q) = nt::ops(&v, &w);
    ck.i("Num +", &s, &i.add(&j));
    ck.i("Num *", &mu, &i.mul(&j));
    if let Some((q, m)) = q {
        let (wq, wm) = i.divrem(&j);
        ck.i("Num /", &q, &wq);
        ck.i("Num %", &m, &wm);
    }
    let (s, mu, q) = nt::ops(&u, &t);
    ck.u("Num u+", &s, &i.mag.add(&j.mag));
    ck.u("Num u*", &mu, &i.mag.mul(&j.mag));
    if let Some((q, m)) = q {
        let (wq, wm) = i.mag.divrem(&j.mag);
        ck.u("Num u/", &q, &wq);
        ck.u("Num u%", &m, &wm);
    }
    let radix = r.range(2, 36) as u32;
    let mut text = i.to_radix(radix);
    if r.chance(1, 4) {
        let at = r.usize(text.len() + 1);
        text.insert(at, *r.pick(&['_', 'z', '/', ':', '-', '+', ' ', '0']));
    }
    ck.inp_s("text", &text);
    let a = nt::parse::<IBig>(&text, radix);
    let b = IBig::from_str_radix(&text, radix);
    ck.t("from_str_radix i agrees", a == b);
    if text == i.to_radix(radix) {
        ck.t("from_str_radix i", a.as_ref().ok() == Some(&v));
    }
    let a = nt::parse::<UBig>(&text, radix);
    let b = UBig::from_str_radix(&text, radix);
    ck.t("from_str_radix u agrees", a == b);
    if text == i.to_radix(radix) && !i.neg {
        ck.t("from_str_radix u", a.as_ref().ok() == Some(&u));
    }
    let _ = hx;
}

fn main() {
    let _ = FL;
    run_main(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C30", c30), ("C32", c32)]);
}
