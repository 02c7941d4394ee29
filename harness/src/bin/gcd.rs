//! C16 gcd and Bezout coefficients.
use mon::*;

fn operands(r: &mut Rng) -> (Nat, Nat) {
    let max = if r.chance(1, 40) { 200 } else if r.chance(1, 4) { 40 } else { 8 };
    match r.usize(12) {
        0 => (Nat::zero(), G.nonzero(r, max)),
        1 => {
            let g = G.nonzero(r, max / 2);
            (g.mul(&G.nonzero(r, max / 2)), g.mul(&G.nonzero(r, max / 2)))
        }
        2 => {
            // multiples, and neighbours of multiples
            let a = G.nonzero(r, max / 2);
            let m = a.mul(&G.nonzero(r, max / 2));
            (a, match r.usize(3) {
                0 => m,
                1 => m.add(&Nat::one()),
                _ => m.sub(&Nat::one()).unwrap(),
            })
        }
        3 => {
            // consecutive Fibonacci-like numbers: longest Euclidean sequences
            let (mut a, mut b) = (Nat::from_u64(r.below(4)), Nat::from_u64(r.below(4) + 1));
            for _ in 0..r.range(1, max * W) {
                let c = a.add(&b);
                a = b;
                b = c;
            }
            (a, b)
        }
        4 => {
            // common powers of two
            let (s, t) = (r.usize(3 * W), r.usize(3 * W));
            (G.nonzero(r, max).shl(s), G.nonzero(r, max).shl(t))
        }
        5 => (Nat::pow2(r.usize(max * W)), G.nonzero(r, max)),
        6 => (Nat::ones(r.range(1, max * W)), Nat::ones(r.range(1, max * W))),
        7 => (Nat::from_u64(r.below(20)), Nat::from_u64(r.below(20) + 1)),
        8 => (G.nonzero(r, 1), G.nonzero(r, max)),
        9 => {
            let a = G.nonzero(r, max);
            let b = G.related(r, &a);
            (a, b)
        }
        _ => (G.nonzero(r, max), G.nonzero(r, max)),
    }
}

fn c16(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 1000) {
        return giant::gcd(r, ck);
    }
    let (a, b) = operands(r);
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    if a.is_zero() && b.is_zero() {
        ck.inp("a", &a);
        ck.inp("b", &b);
        let z = UBig::from(0u8);
        ck.panics("gcd(0, 0)", || z.gcd(&z));
        ck.panics("extended_gcd(0, 0)", || z.extended_gcd(&z));
        let z = IBig::from(0u8);
        ck.panics("IBig gcd(0, 0)", || z.gcd(&z));
        ck.panics("IBig extended_gcd(0, 0)", || z.extended_gcd(&z));
        return;
    }
    ck.inp("a", &a);
    ck.inp("b", &b);
    let g = a.gcd(&b);
    let (x, y) = (ub(&a), ub(&b));
    if let Some(z) = ck.ok("gcd", || x.gcd(&y)) {
        ck.u("gcd", &z, &g);
        ck.log(|| format!("gcd {} {} {}", a.hex(), b.hex(), nat(&z).hex()));
    }
    let bound = |m: &Nat| if m.is_zero() { Nat::one() } else { m.clone() };
    let mut bezout = |ck: &mut Ck, label: &str, a: &Int, b: &Int, got: (Int, Int, Int)| {
        let (d, s, t) = got;
        ck.t_msg(&format!("{label}: divisor"), !d.neg && d.mag == g, || format!("got {} want {}", d.hex(), g.hex()));
        let sum = s.mul(a).add(&t.mul(b));
        ck.t_msg(&format!("{label}: x*a + y*b"), sum.mag == g && !sum.neg, || {
            format!("x={} y={} give {} want {}", s.hex(), t.hex(), sum.hex(), g.hex())
        });
        ck.t_msg(&format!("{label}: bounds"), s.mag.le(&bound(&b.mag)) && t.mag.le(&bound(&a.mag)), || {
            format!("x={} y={} exceed the bounds", s.hex(), t.hex())
        });
        ck.log(|| format!("xgcd {} {} {} {} {}", a.hex(), b.hex(), d.hex(), s.hex(), t.hex()));
    };
    if let Some((d, s, t)) = ck.ok("extended_gcd", || x.extended_gcd(&y)) {
        let got = (Int::nat(nat(&d)), int(&s), int(&t));
        ck.t("results equal fresh values", d == ub(&got.0.mag) && s == ib(&got.1) && t == ib(&got.2));
        bezout(ck, "extended_gcd", &Int::nat(a.clone()), &Int::nat(b.clone()), got);
    }
    ck.t("operands unchanged", x == ub(&a) && y == ub(&b));
    for _ in 0..2 {
        let (ia, ib_) = (Int::new(r.bool(), a.clone()), Int::new(r.bool(), b.clone()));
        ck.clear_inputs();
        ck.inp_i("a", &ia);
        ck.inp_i("b", &ib_);
        let (k, l) = (r.usize(NI), r.usize(NI));
        let (x, y) = (hist_i(r, &ia, k), hist_i(r, &ib_, l));
        if let Some(z) = ck.ok("IBig gcd", || x.gcd(&y)) {
            ck.i("IBig gcd", &z, &Int::nat(g.clone()));
        }
        if let Some((d, s, t)) = ck.ok("IBig extended_gcd", || x.extended_gcd(&y)) {
            bezout(ck, "IBig extended_gcd", &ia, &ib_, (int(&d), int(&s), int(&t)));
        }
    }
}

fn main() {
    run_main(&[("C16", c16)]);
}
