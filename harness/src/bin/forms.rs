//! C05: every written form of every operator, against the reference model.
#![allow(clippy::all)]
use ibig::ops::*;
use mon::*;
use std::ops::*;

/// All forms of a binary operator: big value on the left.
macro_rules! left {
    ($ck:expr, $name:expr, $x:expr, $p:expr, $want:expr, $tr:ident::$f:ident) => {{
        let w = $want;
        $ck.res(concat!($name, " vv"), w.as_ref(), &mut || one($tr::$f($x.dup(), $p.clone())));
        $ck.res(concat!($name, " vr"), w.as_ref(), &mut || one($tr::$f($x.dup(), &$p)));
        $ck.res(concat!($name, " rv"), w.as_ref(), &mut || one($tr::$f(&$x, $p.clone())));
        $ck.res(concat!($name, " rr"), w.as_ref(), &mut || one($tr::$f(&$x, &$p)));
    }};
}
macro_rules! left2 {
    ($ck:expr, $name:expr, $x:expr, $p:expr, $want:expr, $tr:ident::$f:ident) => {{
        let w: Option<(Int, Int)> = $want;
        let w = w.as_ref().map(|(a, b)| (a, b));
        $ck.res2(concat!($name, " vv"), w, &mut || two($tr::$f($x.dup(), $p.clone())));
        $ck.res2(concat!($name, " vr"), w, &mut || two($tr::$f($x.dup(), &$p)));
        $ck.res2(concat!($name, " rv"), w, &mut || two($tr::$f(&$x, $p.clone())));
        $ck.res2(concat!($name, " rr"), w, &mut || two($tr::$f(&$x, &$p)));
    }};
}
/// All forms with the primitive on the left.
macro_rules! right {
    ($ck:expr, $name:expr, $x:expr, $p:expr, $want:expr, $tr:ident::$f:ident) => {{
        let w = $want;
        $ck.res(concat!($name, " vv"), w.as_ref(), &mut || one($tr::$f($p, $x.dup())));
        $ck.res(concat!($name, " vr"), w.as_ref(), &mut || one($tr::$f($p, &$x)));
        $ck.res(concat!($name, " rv"), w.as_ref(), &mut || one($tr::$f(&$p, $x.dup())));
        $ck.res(concat!($name, " rr"), w.as_ref(), &mut || one($tr::$f(&$p, &$x)));
    }};
}
macro_rules! assign {
    ($ck:expr, $name:expr, $x:expr, $p:expr, $want:expr, $tr:ident::$f:ident) => {{
        let w = $want;
        $ck.res(concat!($name, " v"), w.as_ref(), &mut || {
            let mut y = $x.dup();
            $tr::$f(&mut y, $p.clone());
            one(y)
        });
        $ck.res(concat!($name, " r"), w.as_ref(), &mut || {
            let mut y = $x.dup();
            $tr::$f(&mut y, &$p);
            one(y)
        });
    }};
}

/// Small divisors of primitives hit zero and equality often enough through `draw`.
fn quot(a: &Int, b: &Int) -> Option<(Int, Int)> {
    if b.is_zero() {
        None
    } else {
        Some(a.divrem(b))
    }
}
fn quot_e(a: &Int, b: &Int) -> Option<(Int, Int)> {
    if b.is_zero() {
        None
    } else {
        let (q, m) = a.divrem_euclid(b);
        Some((q, Int::nat(m)))
    }
}
fn and_not(a: &Int, b: &Int) -> Int {
    a.bitop(&b.not(), |x, y| x & y)
}

macro_rules! with_prim {
    ($fname:ident, $t:ident) => {
        // A module of its own: the compiler then spreads the work over codegen units.
        mod $fname {
        use super::*;
        pub fn run(r: &mut Rng, ck: &mut Ck) {
            let p: $t = <$t as Prim>::draw(r);
            let pi = p.obs();
            let m = match r.usize(8) {
                _ if giant::due(r, 4000) => giant::giant(r),
                0 => pi.mag.clone(),
                1 => G.related(r, &pi.mag),
                2 => pi.mag.mul(&G.nat(r, 2)),
                3 => Nat::from_u64(r.below(4)),
                4 => {
                    let d = Nat::from_u64(r.below(3));
                    pi.mag.mul(&G.nat(r, 3)).add(&d)
                }
                5 => G.boundary(r).mag,
                _ => G.nat(r, 5),
            };
            ck.inp("x", &m);
            ck.inp_i(concat!("p:", stringify!($t)), &pi);
            if r.bool() {
                let x = ub(&m);
                let xi = Int::nat(m);
                let sum = nonneg(xi.add(&pi));
                left!(ck, concat!("UBig + ", stringify!($t)), x, p, sum.clone(), Add::add);
                right!(ck, concat!(stringify!($t), " + UBig"), x, p, sum.clone(), Add::add);
                assign!(ck, concat!("UBig += ", stringify!($t)), x, p, sum, AddAssign::add_assign);
                let dif = nonneg(xi.sub(&pi));
                left!(ck, concat!("UBig - ", stringify!($t)), x, p, dif.clone(), Sub::sub);
                assign!(ck, concat!("UBig -= ", stringify!($t)), x, p, dif, SubAssign::sub_assign);
                let prod = nonneg(xi.mul(&pi));
                left!(ck, concat!("UBig * ", stringify!($t)), x, p, prod.clone(), Mul::mul);
                right!(ck, concat!(stringify!($t), " * UBig"), x, p, prod.clone(), Mul::mul);
                assign!(ck, concat!("UBig *= ", stringify!($t)), x, p, prod, MulAssign::mul_assign);
                let qr = quot(&xi, &pi);
                let q = qr.as_ref().and_then(|t| nonneg(t.0.clone()));
                let m = qr.as_ref().map(|t| t.1.clone());
                let both = qr.clone().and_then(|t| nonneg(t.0.clone()).map(|q| (q, t.1)));
                left!(ck, concat!("UBig / ", stringify!($t)), x, p, q.clone(), Div::div);
                assign!(ck, concat!("UBig /= ", stringify!($t)), x, p, q.clone(), DivAssign::div_assign);
                left!(ck, concat!("UBig % ", stringify!($t)), x, p, m.clone(), Rem::rem);
                assign!(ck, concat!("UBig %= ", stringify!($t)), x, p, m.clone(), RemAssign::rem_assign);
                left2!(ck, concat!("UBig div_rem ", stringify!($t)), x, p, both.clone(), DivRem::div_rem);
                left!(ck, concat!("UBig div_euclid ", stringify!($t)), x, p, q.clone(), DivEuclid::div_euclid);
                left!(ck, concat!("UBig rem_euclid ", stringify!($t)), x, p, m.clone(), RemEuclid::rem_euclid);
                left2!(ck, concat!("UBig div_rem_euclid ", stringify!($t)), x, p, both, DivRemEuclid::div_rem_euclid);
                let and = nonneg(xi.bitop(&pi, |a, b| a & b));
                left!(ck, concat!("UBig & ", stringify!($t)), x, p, and.clone(), BitAnd::bitand);
                right!(ck, concat!(stringify!($t), " & UBig"), x, p, and.clone(), BitAnd::bitand);
                assign!(ck, concat!("UBig &= ", stringify!($t)), x, p, and, BitAndAssign::bitand_assign);
                let or = nonneg(xi.bitop(&pi, |a, b| a | b));
                left!(ck, concat!("UBig | ", stringify!($t)), x, p, or.clone(), BitOr::bitor);
                right!(ck, concat!(stringify!($t), " | UBig"), x, p, or.clone(), BitOr::bitor);
                assign!(ck, concat!("UBig |= ", stringify!($t)), x, p, or, BitOrAssign::bitor_assign);
                let xor = nonneg(xi.bitop(&pi, |a, b| a ^ b));
                left!(ck, concat!("UBig ^ ", stringify!($t)), x, p, xor.clone(), BitXor::bitxor);
                right!(ck, concat!(stringify!($t), " ^ UBig"), x, p, xor.clone(), BitXor::bitxor);
                assign!(ck, concat!("UBig ^= ", stringify!($t)), x, p, xor, BitXorAssign::bitxor_assign);
                let an = nonneg(and_not(&xi, &pi));
                left!(ck, concat!("UBig and_not ", stringify!($t)), x, p, an, AndNot::and_not);
                ck.t("operand kept", x == ub(&xi.mag));
            } else {
                let xi = Int::new(r.bool(), m);
                let x = ib(&xi);
                let sum = Some(xi.add(&pi));
                left!(ck, concat!("IBig + ", stringify!($t)), x, p, sum.clone(), Add::add);
                right!(ck, concat!(stringify!($t), " + IBig"), x, p, sum.clone(), Add::add);
                assign!(ck, concat!("IBig += ", stringify!($t)), x, p, sum, AddAssign::add_assign);
                let dif = Some(xi.sub(&pi));
                left!(ck, concat!("IBig - ", stringify!($t)), x, p, dif.clone(), Sub::sub);
                right!(ck, concat!(stringify!($t), " - IBig"), x, p, dif.as_ref().map(|d| d.neg()), Sub::sub);
                assign!(ck, concat!("IBig -= ", stringify!($t)), x, p, dif, SubAssign::sub_assign);
                let prod = Some(xi.mul(&pi));
                left!(ck, concat!("IBig * ", stringify!($t)), x, p, prod.clone(), Mul::mul);
                right!(ck, concat!(stringify!($t), " * IBig"), x, p, prod.clone(), Mul::mul);
                assign!(ck, concat!("IBig *= ", stringify!($t)), x, p, prod, MulAssign::mul_assign);
                let qr = quot(&xi, &pi);
                let q = qr.as_ref().map(|t| t.0.clone());
                let m = qr.as_ref().map(|t| t.1.clone());
                left!(ck, concat!("IBig / ", stringify!($t)), x, p, q.clone(), Div::div);
                assign!(ck, concat!("IBig /= ", stringify!($t)), x, p, q.clone(), DivAssign::div_assign);
                left!(ck, concat!("IBig % ", stringify!($t)), x, p, m.clone(), Rem::rem);
                assign!(ck, concat!("IBig %= ", stringify!($t)), x, p, m.clone(), RemAssign::rem_assign);
                left2!(ck, concat!("IBig div_rem ", stringify!($t)), x, p, qr, DivRem::div_rem);
                let qr = quot_e(&xi, &pi);
                let q = qr.as_ref().map(|t| t.0.clone());
                let m = qr.as_ref().map(|t| t.1.clone());
                left!(ck, concat!("IBig div_euclid ", stringify!($t)), x, p, q.clone(), DivEuclid::div_euclid);
                left!(ck, concat!("IBig rem_euclid ", stringify!($t)), x, p, m.clone(), RemEuclid::rem_euclid);
                left2!(ck, concat!("IBig div_rem_euclid ", stringify!($t)), x, p, qr, DivRemEuclid::div_rem_euclid);
                let and = Some(xi.bitop(&pi, |a, b| a & b));
                left!(ck, concat!("IBig & ", stringify!($t)), x, p, and.clone(), BitAnd::bitand);
                right!(ck, concat!(stringify!($t), " & IBig"), x, p, and.clone(), BitAnd::bitand);
                assign!(ck, concat!("IBig &= ", stringify!($t)), x, p, and, BitAndAssign::bitand_assign);
                let or = Some(xi.bitop(&pi, |a, b| a | b));
                left!(ck, concat!("IBig | ", stringify!($t)), x, p, or.clone(), BitOr::bitor);
                right!(ck, concat!(stringify!($t), " | IBig"), x, p, or.clone(), BitOr::bitor);
                assign!(ck, concat!("IBig |= ", stringify!($t)), x, p, or, BitOrAssign::bitor_assign);
                let xor = Some(xi.bitop(&pi, |a, b| a ^ b));
                left!(ck, concat!("IBig ^ ", stringify!($t)), x, p, xor.clone(), BitXor::bitxor);
                right!(ck, concat!(stringify!($t), " ^ IBig"), x, p, xor.clone(), BitXor::bitxor);
                assign!(ck, concat!("IBig ^= ", stringify!($t)), x, p, xor, BitXorAssign::bitxor_assign);
                let an = Some(and_not(&xi, &pi));
                left!(ck, concat!("IBig and_not ", stringify!($t)), x, p, an, AndNot::and_not);
                ck.t("operand kept", x == ib(&xi));
            }
        }
        }
    };
}
with_prim!(f_u8, u8);
with_prim!(f_u16, u16);
with_prim!(f_u32, u32);
with_prim!(f_u64, u64);
with_prim!(f_u128, u128);
with_prim!(f_usize, usize);
with_prim!(f_i8, i8);
with_prim!(f_i16, i16);
with_prim!(f_i32, i32);
with_prim!(f_i64, i64);
with_prim!(f_i128, i128);
with_prim!(f_isize, isize);

/// Big op big, all forms of all operators; shifts.
fn big_big(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 6) { 60 } else { 6 };
    let (a, b) = G.pair(r, max);
    let (ai, bi) = (Int::new(r.bool(), a.clone()), Int::new(r.bool(), b.clone()));
    ck.inp_i("a", &ai);
    ck.inp_i("b", &bi);
    {
        let (x, y) = (ub(&a), ub(&b));
        let (ai, bi) = (Int::nat(a), Int::nat(b));
        left!(ck, "UBig + UBig", x, y, Some(ai.add(&bi)), Add::add);
        assign!(ck, "UBig += UBig", x, y, Some(ai.add(&bi)), AddAssign::add_assign);
        left!(ck, "UBig - UBig", x, y, nonneg(ai.sub(&bi)), Sub::sub);
        assign!(ck, "UBig -= UBig", x, y, nonneg(ai.sub(&bi)), SubAssign::sub_assign);
        left!(ck, "UBig * UBig", x, y, Some(ai.mul(&bi)), Mul::mul);
        assign!(ck, "UBig *= UBig", x, y, Some(ai.mul(&bi)), MulAssign::mul_assign);
        let qr = quot(&ai, &bi);
        let q = qr.as_ref().map(|t| t.0.clone());
        let m = qr.as_ref().map(|t| t.1.clone());
        left!(ck, "UBig / UBig", x, y, q.clone(), Div::div);
        assign!(ck, "UBig /= UBig", x, y, q.clone(), DivAssign::div_assign);
        left!(ck, "UBig % UBig", x, y, m.clone(), Rem::rem);
        assign!(ck, "UBig %= UBig", x, y, m.clone(), RemAssign::rem_assign);
        left2!(ck, "UBig div_rem UBig", x, y, qr.clone(), DivRem::div_rem);
        left!(ck, "UBig div_euclid UBig", x, y, q.clone(), DivEuclid::div_euclid);
        left!(ck, "UBig rem_euclid UBig", x, y, m.clone(), RemEuclid::rem_euclid);
        left2!(ck, "UBig div_rem_euclid UBig", x, y, qr, DivRemEuclid::div_rem_euclid);
        left!(ck, "UBig & UBig", x, y, Some(ai.bitop(&bi, |a, b| a & b)), BitAnd::bitand);
        assign!(ck, "UBig &= UBig", x, y, Some(ai.bitop(&bi, |a, b| a & b)), BitAndAssign::bitand_assign);
        left!(ck, "UBig | UBig", x, y, Some(ai.bitop(&bi, |a, b| a | b)), BitOr::bitor);
        assign!(ck, "UBig |= UBig", x, y, Some(ai.bitop(&bi, |a, b| a | b)), BitOrAssign::bitor_assign);
        left!(ck, "UBig ^ UBig", x, y, Some(ai.bitop(&bi, |a, b| a ^ b)), BitXor::bitxor);
        assign!(ck, "UBig ^= UBig", x, y, Some(ai.bitop(&bi, |a, b| a ^ b)), BitXorAssign::bitxor_assign);
        left!(ck, "UBig and_not UBig", x, y, Some(and_not(&ai, &bi)), AndNot::and_not);
        let n = r.usize(4 * W);
        ck.inp_n("n", n as u128);
        left!(ck, "UBig << n", x, n, Some(ai.shl(n)), Shl::shl);
        assign!(ck, "UBig <<= n", x, n, Some(ai.shl(n)), ShlAssign::shl_assign);
        left!(ck, "UBig >> n", x, n, Some(ai.shr_floor(n)), Shr::shr);
        assign!(ck, "UBig >>= n", x, n, Some(ai.shr_floor(n)), ShrAssign::shr_assign);
    }
    {
        let (x, y) = (ib(&ai), ib(&bi));
        left!(ck, "IBig + IBig", x, y, Some(ai.add(&bi)), Add::add);
        assign!(ck, "IBig += IBig", x, y, Some(ai.add(&bi)), AddAssign::add_assign);
        left!(ck, "IBig - IBig", x, y, Some(ai.sub(&bi)), Sub::sub);
        assign!(ck, "IBig -= IBig", x, y, Some(ai.sub(&bi)), SubAssign::sub_assign);
        left!(ck, "IBig * IBig", x, y, Some(ai.mul(&bi)), Mul::mul);
        assign!(ck, "IBig *= IBig", x, y, Some(ai.mul(&bi)), MulAssign::mul_assign);
        let qr = quot(&ai, &bi);
        let q = qr.as_ref().map(|t| t.0.clone());
        let m = qr.as_ref().map(|t| t.1.clone());
        left!(ck, "IBig / IBig", x, y, q.clone(), Div::div);
        assign!(ck, "IBig /= IBig", x, y, q.clone(), DivAssign::div_assign);
        left!(ck, "IBig % IBig", x, y, m.clone(), Rem::rem);
        assign!(ck, "IBig %= IBig", x, y, m.clone(), RemAssign::rem_assign);
        left2!(ck, "IBig div_rem IBig", x, y, qr, DivRem::div_rem);
        let qr = quot_e(&ai, &bi);
        let q = qr.as_ref().map(|t| t.0.clone());
        let m = qr.as_ref().map(|t| t.1.clone());
        left!(ck, "IBig div_euclid IBig", x, y, q.clone(), DivEuclid::div_euclid);
        left!(ck, "IBig rem_euclid IBig", x, y, m.clone(), RemEuclid::rem_euclid);
        left2!(ck, "IBig div_rem_euclid IBig", x, y, qr, DivRemEuclid::div_rem_euclid);
        left!(ck, "IBig & IBig", x, y, Some(ai.bitop(&bi, |a, b| a & b)), BitAnd::bitand);
        assign!(ck, "IBig &= IBig", x, y, Some(ai.bitop(&bi, |a, b| a & b)), BitAndAssign::bitand_assign);
        left!(ck, "IBig | IBig", x, y, Some(ai.bitop(&bi, |a, b| a | b)), BitOr::bitor);
        assign!(ck, "IBig |= IBig", x, y, Some(ai.bitop(&bi, |a, b| a | b)), BitOrAssign::bitor_assign);
        left!(ck, "IBig ^ IBig", x, y, Some(ai.bitop(&bi, |a, b| a ^ b)), BitXor::bitxor);
        assign!(ck, "IBig ^= IBig", x, y, Some(ai.bitop(&bi, |a, b| a ^ b)), BitXorAssign::bitxor_assign);
        left!(ck, "IBig and_not IBig", x, y, Some(and_not(&ai, &bi)), AndNot::and_not);
        let n = r.usize(4 * W);
        ck.inp_n("n", n as u128);
        left!(ck, "IBig << n", x, n, Some(ai.shl(n)), Shl::shl);
        assign!(ck, "IBig <<= n", x, n, Some(ai.shl(n)), ShlAssign::shl_assign);
        left!(ck, "IBig >> n", x, n, Some(ai.shr_floor(n)), Shr::shr);
        assign!(ck, "IBig >>= n", x, n, Some(ai.shr_floor(n)), ShrAssign::shr_assign);
        ck.t("operands kept", x == ib(&ai) && y == ib(&bi));
        // sums and products of iterators would be written with folds; chained mixed forms
        let z = (&x + 7u8) * &y - (&x * -3i16) + (5i64 - &y);
        let w = ai.add(&Int::from_i128(7)).mul(&bi).sub(&ai.mul(&Int::from_i128(-3))).add(&Int::from_i128(5).sub(&bi));
        ck.i("mixed expression", &z, &w);
    }
}

fn c05(r: &mut Rng, ck: &mut Ck) {
    const F: [fn(&mut Rng, &mut Ck); 12] =
        [
        f_u8::run, f_u16::run, f_u32::run, f_u64::run, f_u128::run, f_usize::run, f_i8::run, f_i16::run, f_i32::run, f_i64::run, f_i128::run,
        f_isize::run,
    ];
    if r.chance(1, 5) {
        big_big(r, ck)
    } else {
        (r.pick(&F))(r, ck)
    }
}

fn main() {
    run_main(&[("C05", c05)]);
}
