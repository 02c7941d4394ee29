//! C13 byte strings, C14 primitive conversions, C15 floating point.
use mon::*;
use ibig::error::OutOfBoundsError;
use std::convert::TryFrom;

fn c13(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 5000) {
        return giant::bytes(r, ck);
    }
    // A byte string of any shape.
    let len = match r.usize(8) {
        0 => r.usize(3),
        1..=3 => r.usize(40),
        4 => r.usize(8) * (W / 8) + r.usize(2),
        5 => r.usize(600),
        _ => G.len(r, 120) * (W / 8),
    };
    let mut b: Vec<u8> = match r.usize(5) {
        0 => vec![0; len],
        1 => vec![255; len],
        2 => (0..len).map(|_| if r.chance(1, 8) { r.u32() as u8 } else { 0 }).collect(),
        _ => (0..len).map(|_| r.u32() as u8).collect(),
    };
    if r.chance(1, 3) {
        let z = if r.chance(1, 50) { r.usize(30000) } else { r.usize(40) };
        b.extend(std::iter::repeat(0).take(z));
    }
    if r.chance(1, 6) && !b.is_empty() {
        // a one next to the boundary
        let k = b.len() - 1 - r.usize(b.len().min(W / 4));
        b[k] = 1 << r.usize(8);
        for x in b[k + 1..].iter_mut() {
            *x = 0;
        }
    }
    // The denoted number, digit by digit.
    let v = Nat::from_le(&b);
    if v.bit_len() > UBig::MAX_BIT_LEN {
        return;
    }
    ck.inp("value", &v);
    ck.inp_n("bytes", b.len() as u128);
    let x = match ck.ok("from_le_bytes", || UBig::from_le_bytes(&b)) {
        Some(x) => x,
        None => return,
    };
    let mut be = b.clone();
    be.reverse();
    let y = match ck.ok("from_be_bytes", || UBig::from_be_bytes(&be)) {
        Some(x) => x,
        None => return,
    };
    let mut min = b.clone();
    while min.last() == Some(&0) {
        min.pop();
    }
    let mut minbe = min.clone();
    minbe.reverse();
    ck.eq("to_le_bytes(from_le_bytes)", x.to_le_bytes(), min.clone());
    ck.eq("to_be_bytes(from_le_bytes)", x.to_be_bytes(), minbe.clone());
    ck.eq("to_le_bytes(from_be_bytes)", y.to_le_bytes(), min.clone());
    ck.eq("to_be_bytes(from_be_bytes)", y.to_be_bytes(), minbe.clone());
    ck.t("le and be agree", x == y);
    ck.eq("value in hex", format!("{x:x}"), v.hex());
    ck.eq("bit_len", x.bit_len(), v.bit_len());
    // Built by other means: a number computed from the same digits.
    let mut k = r.usize(3);
    let z = UBig::from_str_radix(&v.hex(), 16).must("parse");
    ck.eq("to_le_bytes(parsed)", z.to_le_bytes(), min.clone());
    ck.eq("to_be_bytes(parsed)", z.to_be_bytes(), minbe.clone());
    ck.t("parsed equal", z == x && z == y);
    k += r.usize(NU);
    if v.bit_len() + 20000 > UBig::MAX_BIT_LEN {
        // too close to the limit for the detours of the histories
        return;
    }
    let h = hist_u(r, &v, k);
    ck.eq("to_le_bytes(history)", h.to_le_bytes(), min);
    ck.eq("to_be_bytes(history)", h.to_be_bytes(), minbe);
    // Byte strings of a computed value that lost or gained high digits.
    let s = r.usize(3 * W);
    let sh = &h >> s;
    ck.eq("to_le_bytes(shifted)", sh.to_le_bytes(), v.shr(s).to_le());
    if !v.is_zero() {
        ck.log(|| format!("le {} x{}", v.hex(), x.to_le_bytes().iter().map(|x| format!("{x:02x}")).collect::<String>()));
        ck.log(|| format!("be {} x{}", v.hex(), x.to_be_bytes().iter().map(|x| format!("{x:02x}")).collect::<String>()));
    }
}

fn c14(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 8000) {
        return giant::conv(r, ck);
    }
    macro_rules! prims {
        ($m:ident) => {
            $m!(u8);
            $m!(u16);
            $m!(u32);
            $m!(u64);
            $m!(u128);
            $m!(usize);
            $m!(i8);
            $m!(i16);
            $m!(i32);
            $m!(i64);
            $m!(i128);
            $m!(isize);
        };
    }
    // From primitives.
    macro_rules! from_prim {
        ($t:ty) => {{
            let p = <$t as Prim>::draw(r);
            let v = p.obs();
            ck.clear_inputs();
            ck.inp_i(<$t as Prim>::NAME, &v);
            if let Some(x) = ck.ok(concat!("IBig::from(", stringify!($t), ")"), || IBig::from(p)) {
                ck.i(concat!("IBig::from(", stringify!($t), ")"), &x, &v);
                ck.eq(concat!(stringify!($t), "::try_from(IBig::from)"), <$t>::try_from(&x), Ok(p));
                ck.eq(concat!(stringify!($t), "::try_from(IBig::from) by value"), <$t>::try_from(x), Ok(p));
            }
        }};
    }
    prims!(from_prim);
    macro_rules! from_unsigned {
        ($($t:ty)*) => {$({
            let p = <$t as Prim>::draw(r);
            let v = p.obs();
            ck.clear_inputs();
            ck.inp_i(<$t as Prim>::NAME, &v);
            if let Some(x) = ck.ok(concat!("UBig::from(", stringify!($t), ")"), || UBig::from(p)) {
                ck.u(concat!("UBig::from(", stringify!($t), ")"), &x, &v.mag);
                ck.eq(concat!(stringify!($t), "::try_from(UBig::from)"), <$t>::try_from(&x), Ok(p));
                ck.eq(concat!(stringify!($t), "::try_from(UBig::from) by value"), <$t>::try_from(x), Ok(p));
            }
        })*};
    }
    from_unsigned!(u8 u16 u32 u64 u128 usize);
    macro_rules! ubig_from_signed {
        ($($t:ty)*) => {$({
            let p = <$t as Prim>::draw(r);
            let v = p.obs();
            ck.clear_inputs();
            ck.inp_i(<$t as Prim>::NAME, &v);
            match ck.ok(concat!("UBig::try_from(", stringify!($t), ")"), || UBig::try_from(p)) {
                Some(Ok(x)) => {
                    ck.t(concat!("UBig::try_from(", stringify!($t), ") refuses negatives"), !v.neg);
                    ck.u(concat!("UBig::try_from(", stringify!($t), ")"), &x, &v.mag);
                }
                Some(Err(e)) => {
                    ck.t(concat!("UBig::try_from(", stringify!($t), ") accepts"), v.neg);
                    ck.eq("error", e, OutOfBoundsError);
                }
                None => {}
            }
        })*};
    }
    ubig_from_signed!(i8 i16 i32 i64 i128 isize);
    for b in [false, true] {
        ck.clear_inputs();
        ck.inp_n("bool", b as u128);
        ck.u("UBig::from(bool)", &UBig::from(b), &Nat::from_u64(b as u64));
        ck.i("IBig::from(bool)", &IBig::from(b), &Int::from_i128(b as i128));
    }
    // Into primitives: values around every type boundary, and any.
    for _ in 0..6 {
        let v = match r.usize(6) {
            0 | 1 => G.boundary(r),
            2 => {
                // a boundary plus a multiple of a higher power: truncation must be refused
                let b = G.boundary(r);
                let k = *r.pick(&[8usize, 16, 32, 64, 128, 256]);
                b.add(&Int::new(r.bool(), Nat::pow2(k).mul_u32(r.u32() % 3)))
            }
            3 => G.int(r, 4),
            4 => {
                let n = r.usize(130);
                Int::new(r.bool(), G.bits(r, n))
            }
            _ => G.int(r, 12),
        };
        ck.clear_inputs();
        ck.inp_i("value", &v);
        let k = r.usize(NI);
        let x = hist_i(r, &v, k);
        let k = r.usize(NU);
        let u = hist_u(r, &v.mag, k);
        macro_rules! into_prim {
            ($t:ty) => {{
                let want: Result<$t, OutOfBoundsError> = {
                    let lo = <$t>::MIN.obs();
                    let hi = <$t>::MAX.obs();
                    if v.cmp(&lo).is_lt() || v.cmp(&hi).is_gt() {
                        Err(OutOfBoundsError)
                    } else {
                        let m = v.mag.to_u128().unwrap();
                        Ok(if v.neg { m.wrapping_neg() as $t } else { m as $t })
                    }
                };
                let uwant: Result<$t, OutOfBoundsError> = {
                    let hi = <$t>::MAX.obs();
                    if v.mag.cmp(&hi.mag).is_gt() {
                        Err(OutOfBoundsError)
                    } else {
                        Ok(v.mag.to_u128().unwrap() as $t)
                    }
                };
                if let Some(g) = ck.ok(concat!(stringify!($t), "::try_from(&IBig)"), || <$t>::try_from(&x)) {
                    ck.eq(concat!(stringify!($t), "::try_from(&IBig)"), g, want);
                }
                if let Some(g) = ck.ok(concat!(stringify!($t), "::try_from(IBig)"), || <$t>::try_from(x.dup())) {
                    ck.eq(concat!(stringify!($t), "::try_from(IBig)"), g, want);
                }
                if let Some(g) = ck.ok(concat!(stringify!($t), "::try_from(&UBig)"), || <$t>::try_from(&u)) {
                    ck.eq(concat!(stringify!($t), "::try_from(&UBig)"), g, uwant);
                }
                if let Some(g) = ck.ok(concat!(stringify!($t), "::try_from(UBig)"), || <$t>::try_from(u.dup())) {
                    ck.eq(concat!(stringify!($t), "::try_from(UBig)"), g, uwant);
                }
            }};
        }
        prims!(into_prim);
        // IBig to UBig and back.
        for (label, g) in [("UBig::try_from(&IBig)", UBig::try_from(&x)), ("UBig::try_from(IBig)", UBig::try_from(x.dup()))] {
            match g {
                Ok(g) => {
                    ck.t(label, !v.neg);
                    ck.u(label, &g, &v.mag);
                }
                Err(e) => {
                    ck.t(label, v.neg);
                    ck.eq("error", e, OutOfBoundsError);
                }
            }
        }
        ck.i("IBig::from(&UBig)", &IBig::from(&u), &Int::nat(v.mag.clone()));
        ck.i("IBig::from(UBig)", &IBig::from(u), &Int::nat(v.mag.clone()));
    }
}

/// Round to nearest, ties to even: significand of `p` bits, largest exponent `emax`.
/// Gives (significand, exponent) with value significand * 2^exponent, or None for overflow.
fn round(v: &Nat, p: usize, emax: usize) -> Option<(u64, usize)> {
    let n = v.bit_len();
    if n <= p {
        return Some((v.to_u64().unwrap(), 0));
    }
    let e = n - p;
    let mut m = v.shr(e).to_u64().unwrap();
    let rem = v.low_bits(e);
    let half = Nat::pow2(e - 1);
    let c = rem.cmp(&half);
    if c.is_gt() || (c.is_eq() && m & 1 == 1) {
        m += 1;
    }
    let (m, e) = if m >> p != 0 { (m >> 1, e + 1) } else { (m, e) };
    if e + p > emax + 1 {
        return None;
    }
    Some((m, e))
}
fn ref_f64(v: &Nat) -> f64 {
    match round(v, 53, 1023) {
        None => f64::INFINITY,
        Some((m, e)) => {
            // exact: both factors are representable and so is the product
            let pow = f64::from_bits((e.min(1000) as u64 + 1023) << 52);
            (m as f64) * pow
        }
    }
}
fn ref_f32(v: &Nat) -> f32 {
    match round(v, 24, 127) {
        None => f32::INFINITY,
        Some((m, e)) => (m as f32) * f32::from_bits((e as u32 + 127) << 23),
    }
}

fn c15(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 8000) {
        return giant::conv(r, ck);
    }
    let (p, emax) = *r.pick(&[(53usize, 1024usize), (24, 128)]);
    let n = match r.usize(8) {
        0 => r.usize(70),
        1 => r.range(p - 1, p + 3),
        2 => r.range(emax - 2, emax + 2),
        3 => *r.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 16, 17, 47, 48, 49]),
        4 | 5 => r.usize(emax + 3),
        6 => r.range(1, 12) * W + r.usize(3),
        _ => r.usize(2600),
    };
    let v = if n <= p || r.chance(1, 6) {
        G.bits(r, n)
    } else {
        // a significand, then a tail at, just above or just below a tie
        let m = match r.usize(4) {
            0 => Nat::ones(p),
            1 => Nat::pow2(p - 1),
            2 => Nat::pow2(p - 1).add(&Nat::from_u64(r.below(4))),
            _ => Nat::pow2(p - 1).or(&G.random_bits(r, p)),
        };
        let e = n - p;
        let tail = match r.usize(9) {
            0 => Nat::zero(),
            1 => Nat::pow2(e - 1),
            2 => Nat::pow2(e - 1).add(&Nat::one()).low_bits(e),
            3 => Nat::pow2(e - 1).sub(&Nat::one()).unwrap(),
            4 => Nat::pow2(e - 1).add(&Nat::pow2(r.usize(e))).low_bits(e),
            5 => Nat::pow2(r.usize(e)),
            6 => Nat::ones(e),
            7 => Nat::one().low_bits(e),
            _ => G.random_bits(r, e),
        };
        m.shl(e).or(&tail)
    };
    let x = if r.chance(1, 3) { let k = r.usize(NU); hist_u(r, &v, k) } else { ub(&v) };
    ck.inp("value", &v);
    let (w64, w32) = (ref_f64(&v), ref_f32(&v));
    if v.bit_len() < 1100 && (ck.case % 8 == 0) {
        // The standard library's parser as a second opinion on the reference itself.
        let s = v.to_radix(10);
        assert_eq!(s.parse::<f64>().unwrap().to_bits(), w64.to_bits());
        assert_eq!(s.parse::<f32>().unwrap().to_bits(), w32.to_bits());
    }
    if let Some(g) = ck.ok("UBig::to_f64", || x.to_f64()) {
        ck.eq("UBig::to_f64", g.to_bits(), w64.to_bits());
        ck.log(|| format!("f64 {} {:x}", v.hex(), g.to_bits()));
    }
    if let Some(g) = ck.ok("UBig::to_f32", || x.to_f32()) {
        ck.eq("UBig::to_f32", g.to_bits(), w32.to_bits());
        ck.log(|| format!("f32 {} {:x}", v.hex(), g.to_bits()));
    }
    let i = IBig::from(x);
    let neg = -&i;
    if let Some(g) = ck.ok("IBig::to_f64", || i.to_f64()) {
        ck.eq("IBig::to_f64", g.to_bits(), w64.to_bits());
    }
    if let Some(g) = ck.ok("IBig::to_f32", || i.to_f32()) {
        ck.eq("IBig::to_f32", g.to_bits(), w32.to_bits());
    }
    let (m64, m32) = if v.is_zero() { (0.0, 0.0) } else { (-w64, -w32) };
    if let Some(g) = ck.ok("negative to_f64", || neg.to_f64()) {
        ck.eq("negative to_f64", g.to_bits(), m64.to_bits());
    }
    if let Some(g) = ck.ok("negative to_f32", || neg.to_f32()) {
        ck.eq("negative to_f32", g.to_bits(), m32.to_bits());
    }
}

fn main() {
    run_main(&[("C13", c13), ("C14", c14), ("C15", c15)]);
}
