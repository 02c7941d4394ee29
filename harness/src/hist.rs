//! The same number reached by many different histories.
use crate::*;
use ibig::ModuloRing;
use ibig::ops::*;

pub const NU: usize = 30;

/// UBig of value `v` by history `k` (mod NU).
pub fn hist_u(r: &mut Rng, v: &Nat, k: usize) -> UBig {
    let j = match r.usize(4) {
        0 => G.related(r, v),
        1 => G.nat(r, 3),
        2 => Nat::ones(r.usize(6 * W)),
        _ => G.nat(r, 12),
    };
    let x = ub(v);
    let y = ub(&j);
    match k % NU {
        0 => x,
        1 => (x + &y) - &y,
        2 => {
            let mut t = &x + &y;
            t -= y;
            t
        }
        3 if !j.is_zero() => (x * &y) / y,
        4 => {
            let s = r.usize(5 * W);
            (x << s) >> s
        }
        5 => {
            let radix = r.range(2, 36) as u32;
            let s = format!("{}{}", "0".repeat(r.usize(200)), v.to_radix(radix));
            UBig::from_str_radix(&s, radix).must("history")
        }
        6 => {
            let mut b = v.to_le();
            b.extend(std::iter::repeat(0).take(r.usize(60)));
            UBig::from_le_bytes(&b)
        }
        7 => {
            let mut b = vec![0; r.usize(60)];
            b.extend(v.to_le().into_iter().rev());
            UBig::from_be_bytes(&b)
        }
        8 => {
            let mut t = y;
            t.clone_from(&x);
            t
        }
        9 => (x ^ &y) ^ y,
        10 => {
            let n = v.bit_len() + r.usize(8 * W);
            let mut t = x;
            t.set_bit(n);
            t.clear_bit(n);
            t
        }
        11 => {
            // remainder by a larger number
            let m = ub(&v.add(&G.nonzero(r, 6)));
            (x + &m * y) % m
        }
        12 => {
            let m = ub(&v.add(&G.nonzero(r, 6)));
            let ring = ModuloRing::new(&m);
            ring.from(x + &m * y).residue()
        }
        13 => v.to_u128().map_or(x, UBig::from),
        14 => v.to_u64().map_or(x, UBig::from),
        15 => UBig::try_from(-(-IBig::from(x))).must("history"),
        16 => {
            let mut t = x | (UBig::from(1u8) << (v.bit_len() + 3 * W));
            t &= (UBig::from(1u8) << (v.bit_len() + 2 * W)) - UBig::from(1u8);
            t
        }
        17 => {
            let hi = UBig::from(1u8) << (v.bit_len() + r.usize(5 * W));
            (x | &hi).and_not(hi)
        }
        18 => x.pow(1),
        19 if !v.is_zero() => x.gcd(&UBig::from(0u8)),
        20 => v.to_radix(10).parse().must("history"),
        21 => UBig::from_str_with_radix_prefix(&format!("0x{}{}", "0".repeat(r.usize(70)), v.hex())).must("history"),
        22 => {
            let mut t = x;
            let u = std::mem::take(&mut t);
            assert_eq_zero(&t);
            u
        }
        23 => serde_json::from_str(&serde_json::to_string(&x).must("history")).must("history"),
        24 => bincode::deserialize(&bincode::serialize(&x).must("history")).must("history"),
        25 => {
            // a + b - b in place, where the sum grows by a word
            let b = UBig::from(1u8) << (v.bit_len().div_ceil(W) * W);
            let mut t = x;
            t += &b;
            t -= b;
            t
        }
        26 => {
            let mut t = (x << (3 * W)) | UBig::from(7u8);
            t >>= 3 * W;
            t
        }
        27 if !j.is_zero() => {
            let (q, rem) = x.div_rem(&y);
            q * y + rem
        }
        28 => UBig::try_from(!(!IBig::from(x))).must("history"),
        29 => {
            let mut b = UBig::from(1u8) << 4000;
            b.clone_from(&(x.clone() << 3000));
            b.clone_from(&x);
            b
        }
        _ => x,
    }
}
fn assert_eq_zero(t: &UBig) {
    if *t != UBig::from(0u8) {
        panic!("LIB: mem::take left a nonzero value");
    }
}
pub const NI: usize = 20;
pub fn hist_i(r: &mut Rng, v: &Int, k: usize) -> IBig {
    let j = if r.bool() { Int::new(r.bool(), G.related(r, &v.mag)) } else { G.int(r, 8) };
    let x = ib(v);
    let y = ib(&j);
    let kk = r.usize(NU);
    match k % NI {
        0 => x,
        1 => (x + &y) - y,
        2 => (x - &y) + y,
        3 if !j.is_zero() => (x * &y) / y,
        4 => {
            let s = r.usize(5 * W);
            (x << s) >> s
        }
        5 => {
            let radix = r.range(2, 36) as u32;
            let s = format!("{}{}{}", if v.neg { "-" } else { "+" }, "0".repeat(r.usize(99)), v.mag.to_radix(radix));
            IBig::from_str_radix(&s, radix).must("history")
        }
        6 => (x ^ &y) ^ y,
        7 => !(!x),
        8 => -(-x),
        9 => {
            let mut t = y;
            t.clone_from(&x);
            t
        }
        10 => v.to_i128().map_or(x, IBig::from),
        11 => v.to_radix(10).parse().must("history"),
        12 => serde_json::from_str(&serde_json::to_string(&x).must("history")).must("history"),
        13 => bincode::deserialize(&bincode::serialize(&x).must("history")).must("history"),
        14 => {
            let m = ib(&Int::nat(v.mag.add(&G.nonzero(r, 6))));
            let t = if v.neg { x - &m * IBig::from((&y).unsigned_abs()) } else { x + &m * IBig::from((&y).unsigned_abs()) };
            t % m
        }
        15 => {
            let mut t = &x - &y;
            t += y;
            t
        }
        16 => {
            let s = x.signum();
            x.abs() * s
        }
        17 => {
            let m = IBig::from(hist_u(r, &v.mag, kk));
            if v.neg {
                -m
            } else {
                m
            }
        }
        18 => {
            let mut t = x.clone() * 3u8;
            t -= &x;
            t -= x;
            t
        }
        19 => (x.clone() & &y) + (x & !y),
        _ => x,
    }
}
