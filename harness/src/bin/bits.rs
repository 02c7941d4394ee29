//! C08 bitwise operators, C09 shifts, C10 bit queries and updates.
#![allow(clippy::all)]
use ibig::ops::*;
use mon::ck::{hx, hxi};
use mon::*;

macro_rules! form6 {
    ($k:expr, $a:expr, $b:expr, $tr:ident, $op:ident, $tra:ident, $opa:ident) => {{
        let (a, b) = (&$a, &$b);
        match $k {
            0 => std::ops::$tr::$op(a.dup(), b.dup()),
            1 => std::ops::$tr::$op(a.dup(), b),
            2 => std::ops::$tr::$op(a, b.dup()),
            3 => std::ops::$tr::$op(a, b),
            4 => {
                let mut x = a.dup();
                std::ops::$tra::$opa(&mut x, b.dup());
                x
            }
            _ => {
                let mut x = a.dup();
                std::ops::$tra::$opa(&mut x, b);
                x
            }
        }
    }};
}
const K: [&str; 6] = ["vv", "vr", "rv", "rr", "=v", "=r"];
fn lab(a: &'static [&'static str; 6], k: usize) -> &'static str {
    a[k]
}

fn c08(r: &mut Rng, ck: &mut Ck) {
    if r.chance(1, 10) {
        return c08_chain(r, ck);
    }
    let max = if r.chance(1, 10) { 300 } else { 10 };
    let (a, b) = match r.usize(4) {
        _ if giant::due(r, 15000) => giant::pair(r),
        // operands whose low words vanish: the borrow/carry of two's complement runs far
        0 => {
            let (x, y) = (r.usize(max) + 1, r.usize(max) + 1);
            let (p, q) = (G.words(r, x), G.words(r, y));
            let (s, t) = (r.usize(max + 1) * W, r.usize(max + 1) * W);
            (p.shl(s), q.shl(t))
        }
        1 => {
            let x = G.nat(r, max);
            let s = r.usize(max * W);
            (x, if r.bool() { Nat::pow2(s) } else { Nat::ones(s) })
        }
        _ => G.pair(r, max),
    };
    let (ai, bi) = (Int::new(r.bool(), a.clone()), Int::new(r.bool(), b.clone()));
    ck.inp_i("a", &ai);
    ck.inp_i("b", &bi);
    let (x, y) = (ub(&a), ub(&b));
    let (p, q) = (ib(&ai), ib(&bi));
    let (wa, wo, wx, wn) = (a.and(&b), a.or(&b), a.xor(&b), a.and_not(&b));
    let ia = ai.bitop(&bi, |a, b| a & b);
    let io = ai.bitop(&bi, |a, b| a | b);
    let ix = ai.bitop(&bi, |a, b| a ^ b);
    let inn = ai.bitop(&bi.not(), |a, b| a & b);
    for k in 0..6 {
        ck.u(lab(&["u& vv", "u& vr", "u& rv", "u& rr", "u& =v", "u& =r"], k), &form6!(k, x, y, BitAnd, bitand, BitAndAssign, bitand_assign), &wa);
        ck.u(lab(&["u| vv", "u| vr", "u| rv", "u| rr", "u| =v", "u| =r"], k), &form6!(k, x, y, BitOr, bitor, BitOrAssign, bitor_assign), &wo);
        ck.u(lab(&["u^ vv", "u^ vr", "u^ rv", "u^ rr", "u^ =v", "u^ =r"], k), &form6!(k, x, y, BitXor, bitxor, BitXorAssign, bitxor_assign), &wx);
        ck.i(lab(&["i& vv", "i& vr", "i& rv", "i& rr", "i& =v", "i& =r"], k), &form6!(k, p, q, BitAnd, bitand, BitAndAssign, bitand_assign), &ia);
        ck.i(lab(&["i| vv", "i| vr", "i| rv", "i| rr", "i| =v", "i| =r"], k), &form6!(k, p, q, BitOr, bitor, BitOrAssign, bitor_assign), &io);
        ck.i(lab(&["i^ vv", "i^ vr", "i^ rv", "i^ rr", "i^ =v", "i^ =r"], k), &form6!(k, p, q, BitXor, bitxor, BitXorAssign, bitxor_assign), &ix);
        if k < 4 {
            let g = match k {
                0 => x.dup().and_not(y.dup()),
                1 => x.dup().and_not(&y),
                2 => (&x).and_not(y.dup()),
                _ => (&x).and_not(&y),
            };
            ck.u(lab(&["u and_not vv", "u and_not vr", "u and_not rv", "u and_not rr", "", ""], k), &g, &wn);
            let g = match k {
                0 => p.dup().and_not(q.dup()),
                1 => p.dup().and_not(&q),
                2 => (&p).and_not(q.dup()),
                _ => (&p).and_not(&q),
            };
            ck.i(lab(&["i and_not vv", "i and_not vr", "i and_not rv", "i and_not rr", "", ""], k), &g, &inn);
        }
    }
    ck.i("not v", &!p.dup(), &ai.not());
    ck.i("not r", &!&p, &ai.not());
    ck.t("operands kept", x == ub(&a) && q == ib(&bi));
    // de Morgan and friends, on the library's own values
    ck.t("!(a&b) == !a|!b", !(&p & &q) == (!&p | !&q));
    ck.t("a^b == (a|b)-(a&b)", (&p ^ &q) == (&p | &q) - (&p & &q));
    ck.t("a+b == (a^b)+2(a&b)", &p + &q == (&p ^ &q) + ((&p & &q) << 1usize));
    if ck.logging() {
        ck.log(|| format!("and {} {} {}", ai.hex(), bi.hex(), hxi(&(&p & &q))));
        ck.log(|| format!("or {} {} {}", ai.hex(), bi.hex(), hxi(&(&p | &q))));
        ck.log(|| format!("xor {} {} {}", ai.hex(), bi.hex(), hxi(&(&p ^ &q))));
        ck.log(|| format!("andnot {} {} {}", ai.hex(), bi.hex(), hxi(&(&p).and_not(&q))));
        ck.log(|| format!("not {} {}", ai.hex(), hxi(&!&p)));
    }
    let _ = K;
}

fn c08_chain(r: &mut Rng, ck: &mut Ck) {
    let mut i = G.int(r, 8);
    let mut v = ib(&i);
    let mut n = G.nat(r, 8);
    let mut u = ub(&n);
    for _ in 0..r.range(4, 30) {
        let b = if r.bool() { Int::new(r.bool(), G.related(r, &i.mag)) } else { G.int(r, 8) };
        ck.clear_inputs();
        ck.inp_i("acc", &i);
        ck.inp("uacc", &n);
        ck.inp_i("b", &b);
        let w = ib(&b);
        let uw = ub(&b.mag);
        match r.usize(6) {
            0 => {
                v &= w;
                u &= uw;
                i = i.bitop(&b, |x, y| x & y);
                n = n.and(&b.mag);
            }
            1 => {
                v |= &w;
                u |= &uw;
                i = i.bitop(&b, |x, y| x | y);
                n = n.or(&b.mag);
            }
            2 => {
                v ^= w;
                u ^= uw;
                i = i.bitop(&b, |x, y| x ^ y);
                n = n.xor(&b.mag);
            }
            3 => {
                v = !v;
                u |= &uw;
                i = i.not();
                n = n.or(&b.mag);
            }
            4 => {
                v = v.and_not(w);
                u = u.and_not(uw);
                i = i.bitop(&b.not(), |x, y| x & y);
                n = n.and_not(&b.mag);
            }
            _ => {
                v ^= &w;
                u ^= &uw;
                i = i.bitop(&b, |x, y| x ^ y);
                n = n.xor(&b.mag);
            }
        }
        ck.i("chain i", &v, &i);
        ck.u("chain u", &u, &n);
    }
}

fn shift_amount(r: &mut Rng, bl: usize, big: usize) -> usize {
    match r.usize(10) {
        0 => 0,
        1 => r.usize(W),
        2 => W * r.usize(6),
        3 => (W * r.usize(6)).wrapping_add(W - 1),
        4 => bl.saturating_sub(r.usize(3)),
        5 => bl + r.usize(3),
        6 => bl.div_ceil(W) * W,
        7 => r.usize(bl + 2 * W + 1),
        8 => W * r.usize(6) + 1,
        _ => r.usize(big),
    }
}

fn c09(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 10000) {
        return giant::shifts(r, ck);
    }
    let max = if r.chance(1, 10) { 300 } else { 8 };
    let a = match r.usize(4) {
        0 => {
            let n = r.usize(max) + 1;
            let t = G.words(r, n);
            let s = r.usize(max * W);
            t.shl(s)
        }
        1 => Nat::pow2(r.usize(max * W)),
        _ => G.nat(r, max),
    };
    let ai = Int::new(r.bool(), a.clone());
    let far = match r.usize(100) {
        0 if W > 16 => 140000,
        0..=4 => 20000,
        _ => 6 * W,
    };
    let n = shift_amount(r, a.bit_len(), far);
    ck.inp_i("a", &ai);
    ck.inp_n("n", n as u128);
    // the value may sit in a buffer with spare room or exactly full
    let k = r.usize(NU);
    let x = hist_u(r, &a, k);
    let p = ib(&ai);
    let (ul, ur) = (a.shl(n), a.shr(n));
    let (il, ir) = (ai.shl(n), ai.shr_floor(n));
    for k in 0..6 {
        ck.u(lab(&["u<< vv", "u<< vr", "u<< rv", "u<< rr", "u<<=v", "u<<=r"], k), &form6!(k, x, n, Shl, shl, ShlAssign, shl_assign), &ul);
        ck.u(lab(&["u>> vv", "u>> vr", "u>> rv", "u>> rr", "u>>=v", "u>>=r"], k), &form6!(k, x, n, Shr, shr, ShrAssign, shr_assign), &ur);
        ck.i(lab(&["i<< vv", "i<< vr", "i<< rv", "i<< rr", "i<<=v", "i<<=r"], k), &form6!(k, p, n, Shl, shl, ShlAssign, shl_assign), &il);
        ck.i(lab(&["i>> vv", "i>> vr", "i>> rv", "i>> rr", "i>>=v", "i>>=r"], k), &form6!(k, p, n, Shr, shr, ShrAssign, shr_assign), &ir);
    }
    ck.t("operand kept", x == ub(&a) && p == ib(&ai));
    // the consumed operand has a history (spare capacity)
    let kk = r.usize(NU);
    let h = hist_u(r, &a, kk);
    ck.u("u<< consumed", &(h << n), &ul);
    let kk = r.usize(NU);
    let h = hist_u(r, &a, kk);
    ck.u("u>> consumed", &(h >> n), &ur);
    let kk = r.usize(NI);
    let h = hist_i(r, &ai, kk);
    ck.i("i>> consumed", &(h >> n), &ir);
    // amounts far beyond the number
    let m = match r.usize(5) {
        0 => usize::MAX,
        1 => usize::MAX - r.usize(200),
        2 => a.bit_len() + r.usize(1 << 30),
        3 => {
            let s = r.usize(a.bit_len() + W);
            alias(r, s).max(a.bit_len())
        }
        _ => (r.u64() as usize) | (1 << (usize::BITS - 2)),
    };
    ck.inp_n("m", m as u128);
    let mone = if ai.neg { Int::from_i128(-1) } else { Int::zero() };
    ck.u("u>> huge r", &(&x >> m), &Nat::zero());
    ck.u("u>> huge v", &(x.dup() >> m), &Nat::zero());
    ck.i("i>> huge r", &(&p >> m), &mone);
    ck.i("i>> huge v", &(p.dup() >> m), &mone);
    let mut t = p.dup();
    t >>= m;
    ck.i("i>>= huge", &t, &mone);
    // zero shifted left by anything
    let z = ub(&Nat::zero());
    for (l, g) in [("0<< v", z.clone() << m), ("0<< r", &z << m), ("0<< computed", (&x - &x) << m)] {
        ck.u(l, &g, &Nat::zero());
    }
    let iz = &p - &p;
    ck.i("i0<< v", &(iz.clone() << m), &Int::zero());
    ck.i("i0<< r", &(&iz << &m), &Int::zero());
    ck.log(|| format!("shl {} {n} {}", ai.hex(), hxi(&(&p << n))));
    ck.log(|| format!("shr {} {n} {}", ai.hex(), hxi(&(&p >> n))));
}

fn bit_index(r: &mut Rng, bl: usize, far: usize) -> usize {
    match r.usize(9) {
        0 => r.usize(W),
        1 => W * r.usize(5),
        2 => W * (1 + r.usize(4)) - 1,
        3 => bl.saturating_sub(1),
        4 => bl,
        5 => bl + r.usize(2 * W),
        6 => bl.div_ceil(W) * W + r.usize(2),
        7 => r.usize(far),
        _ => r.usize(bl + 1),
    }
}

fn check_queries(r: &mut Rng, ck: &mut Ck, u: &UBig, n: &Nat) {
    ck.eq("bit_len", u.bit_len(), n.bit_len());
    ck.eq("trailing_zeros", u.trailing_zeros(), n.trailing_zeros());
    ck.eq("is_power_of_two", u.is_power_of_two(), n.is_pow2());
    for _ in 0..3 {
        let k = bit_index(r, n.bit_len(), n.bit_len() + 3 * W);
        ck.eq("bit", u.bit(k), n.bit(k));
    }
    let k = usize::MAX - r.usize(2 * W);
    ck.eq("bit far", u.bit(k), false);
    for _ in 0..2 {
        let k = r.usize(n.bit_len() + W);
        let k = alias(r, k);
        ck.inp_n("bit", k as u128);
        ck.eq("bit aliased", u.bit(k), k < n.bit_len() && n.bit(k));
    }
}

fn c10(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 10000) {
        return giant::bits(r, ck);
    }
    let max = if r.chance(1, 10) { 200 } else { 6 };
    let mut n = match r.usize(6) {
        0 => Nat::zero(),
        1 => Nat::pow2(r.usize(max * W)),
        2 => Nat::ones(r.usize(max * W)),
        3 => {
            let s = r.usize(max * W);
            G.nonzero(r, 2).shl(s)
        }
        _ => G.nat(r, max),
    };
    let k = r.usize(NU);
    let mut u = hist_u(r, &n, k);
    ck.inp("a", &n);
    check_queries(r, ck, &u, &n);
    let np = if n.is_zero() {
        Nat::one()
    } else if n.is_pow2() {
        n.clone()
    } else {
        Nat::pow2(n.bit_len())
    };
    ck.u("next_power_of_two r", &(&u).next_power_of_two(), &np);
    ck.u("next_power_of_two v", &u.dup().next_power_of_two(), &np);
    let kk = r.usize(NU);
    let h = hist_u(r, &n, kk);
    ck.u("next_power_of_two consumed", &h.next_power_of_two(), &np);
    let i = Int::new(r.bool(), n.clone());
    ck.eq("IBig trailing_zeros", ib(&i).trailing_zeros(), n.trailing_zeros());
    ck.log(|| {
        let t = u.trailing_zeros().map_or("none".into(), |t| t.to_string());
        format!("bits {} {} {} {} {}", n.hex(), u.bit_len(), t, u.is_power_of_two(), hx(&(&u).next_power_of_two()))
    });
    // sequence of updates
    for _ in 0..r.range(1, 12) {
        let far = match r.usize(120) {
            0 if W > 16 => 140000,
            0..=3 => 40000,
            _ => 12 * W,
        };
        let k = bit_index(r, n.bit_len(), far);
        ck.clear_inputs();
        ck.inp("a", &n);
        ck.inp_n("k", k as u128);
        if r.bool() && !(k > 12 * W && r.chance(2, 3)) {
            u.set_bit(k);
            n = n.with_bit(k, true);
            ck.u("set_bit", &u, &n);
        } else {
            let k = match r.usize(10) {
                0 => usize::MAX - r.usize(3),
                1 => alias(r, k),
                _ => k,
            };
            ck.inp_n("clear", k as u128);
            u.clear_bit(k);
            if k < n.bit_len() {
                n = n.with_bit(k, false);
            }
            ck.u("clear_bit", &u, &n);
        }
        check_queries(r, ck, &u, &n);
        if r.chance(1, 8) {
            // clear the bits from the top down to nothing
            while n.bit_len() > 0 && n.bit_len() < 6 * W && r.chance(9, 10) {
                let k = n.bit_len() - 1;
                u.clear_bit(k);
                n = n.with_bit(k, false);
                ck.u("clear top bit", &u, &n);
            }
        }
    }
}

fn main() {
    run_main(&[("C08", c08), ("C09", c09), ("C10", c10)]);
}
