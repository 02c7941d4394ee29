//! C17 ring arithmetic, C18 inverse / division / powers, C19 ring identity and copies.
use ibig::{IntoModulo, Modulo, ModuloRing};
use mon::*;

fn modulus(r: &mut Rng, max: usize) -> Nat {
    let m = match r.usize(14) {
        0 => Nat::from_u64(r.below(12) + 1),
        1 => Nat::pow2(r.usize(3 * W)),
        2 => Nat::pow2(r.range(1, 3 * W)).sub(&Nat::one()).unwrap(),
        3 => Nat::pow2(r.range(1, 3 * W)).add(&Nat::from_u64(r.below(3) + 1)),
        4 => G.nonzero(r, 1),
        5 => G.words(r, 1),
        6 => {
            // top bit of the top word set: no normalisation shift
            let k = r.range(1, 4) * W;
            Nat::pow2(k - 1).or(&G.bits(r, k))
        }
        7 => G.words(r, 2),
        8 => {
            let k = r.usize(W);
            G.words(r, 3).shl(k)
        }
        9 => Nat::ones(r.range(1, max) * W),
        10 => {
            let n = r.range(1, 4);
            G.words(r, n)
        }
        11 => Nat::pow2(r.range(1, max.min(4)) * W).sub(&Nat::from_u64(r.below(5) + 1)).unwrap(),
        _ => G.nonzero(r, max),
    };
    if m.is_zero() {
        Nat::one()
    } else {
        m
    }
}
fn big(r: &mut Rng) -> usize {
    if r.chance(1, 1500) {
        return 1200;
    }
    match r.usize(100) {
        0 => 260,
        1..=6 => 70,
        7..=30 => 20,
        _ => 5,
    }
}
/// An integer to be converted into the ring modulo n.
fn source(r: &mut Rng, n: &Nat) -> Int {
    let m = match r.usize(12) {
        0 => Nat::zero(),
        1 => Nat::from_u64(r.below(4)),
        2 => n.clone(),
        3 => n.sub(&Nat::one()).unwrap(),
        4 => n.add(&Nat::one()),
        5 => {
            let k = G.nat(r, 4);
            let d = Nat::from_u64(r.below(3));
            let x = n.mul(&k);
            if r.bool() {
                x.add(&d)
            } else {
                x.sub(&d).unwrap_or_else(Nat::zero)
            }
        }
        6 => n.shr(1),
        7 => n.shr(1).add(&Nat::one()),
        8 => G.related(r, n),
        9 => {
            let k = 2 * n.bit_len();
            G.bits(r, k + 1)
        }
        10 => G.nat(r, 6),
        _ => {
            let k = n.bit_len();
            G.bits(r, k).rem(n)
        }
    };
    Int::new(r.bool(), m)
}
fn reduce(x: &Int, n: &Nat) -> Nat {
    let m = x.mag.rem(n);
    if x.neg && !m.is_zero() {
        n.sub(&m).unwrap()
    } else {
        m
    }
}
fn ring_value<'a>(r: &mut Rng, ring: &'a ModuloRing, x: &Int) -> Modulo<'a> {
    match r.usize(4) {
        0 if !x.neg => ring.from(ub(&x.mag)),
        1 if !x.neg => ring.from(&ub(&x.mag)),
        2 => ring.from(&ib(x)),
        _ => ring.from(ib(x)),
    }
}
struct Pool<'a> {
    n: Nat,
    ring: &'a ModuloRing,
    v: Vec<(Modulo<'a>, Nat)>,
}

fn c17(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 2000) {
        return giant::ring(r, ck);
    }
    let mx = big(r);
    let n = modulus(r, mx);
    let un = hist(r, &n);
    let ring = ModuloRing::new(&un);
    ck.inp("modulus", &n);
    ck.u("modulus()", &ring.modulus(), &n);
    let mut p = Pool { n: n.clone(), ring: &ring, v: vec![] };
    for _ in 0..4 {
        let x = source(r, &n);
        ck.inp_i("x", &x);
        let m = ring_value(r, &ring, &x);
        let want = reduce(&x, &n);
        ck.u("residue of a converted integer", &m.residue(), &want);
        // every way of converting gives the same element
        let i = ib(&x);
        let a = ring.from(&i);
        let b = ring.from(i);
        ck.t("ring.from(&IBig) == ring.from(IBig)", a == b && a == m);
        if !x.neg {
            let u = ub(&x.mag);
            let a = ring.from(&u);
            let b = u.into_modulo(&ring);
            ck.t("ring.from(&UBig) == UBig::into_modulo", a == b && a == m);
        }
        p.v.push((m, want));
    }
    prims(r, ck, &p);
    for _ in 0..r.range(4, 16) {
        step(r, ck, &mut p);
    }
    for i in 0..p.v.len() {
        for j in 0..p.v.len() {
            ck.eq("== exactly when residues are equal", p.v[i].0 == p.v[j].0, p.v[i].1 == p.v[j].1);
            ck.eq("!=", p.v[i].0 != p.v[j].0, p.v[i].1 != p.v[j].1);
        }
    }
}
fn hist(r: &mut Rng, n: &Nat) -> UBig {
    if r.chance(1, 4) {
        let k = r.usize(NU);
        hist_u(r, n, k)
    } else {
        ub(n)
    }
}
fn prims(r: &mut Rng, ck: &mut Ck, p: &Pool) {
    macro_rules! go {
        ($($t:ty)*) => {{$({
            let x = <$t as Prim>::draw(r);
            let v = x.obs();
            ck.clear_inputs();
            ck.inp("modulus", &p.n);
            ck.inp_i(stringify!($t), &v);
            if let Some(m) = ck.ok(concat!("ring.from(", stringify!($t), ")"), || p.ring.from(x)) {
                ck.u(concat!("ring.from(", stringify!($t), ")"), &m.residue(), &reduce(&v, &p.n));
            }
        })*}};
    }
    match r.usize(4) {
        0 => go!(u8 i8 u16),
        1 => go!(i16 u32 i32),
        2 => go!(u64 i64 usize),
        _ => go!(u128 i128 isize),
    }
    let b = r.bool();
    ck.u("ring.from(bool)", &p.ring.from(b).residue(), &Nat::from_u64(b as u64).rem(&p.n));
}
fn step<'a>(r: &mut Rng, ck: &mut Ck, p: &mut Pool<'a>) {
    let (i, j, k) = (r.usize(p.v.len()), r.usize(p.v.len()), r.usize(p.v.len()));
    let (a, av) = (&p.v[i].0, p.v[i].1.clone());
    let (b, bv) = (&p.v[j].0, p.v[j].1.clone());
    let n = p.n.clone();
    ck.clear_inputs();
    ck.inp("modulus", &n);
    ck.inp("a", &av);
    ck.inp("b", &bv);
    let op = r.usize(5);
    let form = r.usize(6);
    let c = || a.clone();
    let d = || b.clone();
    let (label, got, want): (&str, Modulo<'a>, Nat) = match op {
        0 => {
            let g = match form {
                0 => c() + d(),
                1 => c() + b,
                2 => a + d(),
                3 => a + b,
                4 => {
                    let mut t = c();
                    t += d();
                    t
                }
                _ => {
                    let mut t = c();
                    t += b;
                    t
                }
            };
            ("+", g, av.add(&bv).rem(&n))
        }
        1 => {
            let g = match form {
                0 => c() - d(),
                1 => c() - b,
                2 => a - d(),
                3 => a - b,
                4 => {
                    let mut t = c();
                    t -= d();
                    t
                }
                _ => {
                    let mut t = c();
                    t -= b;
                    t
                }
            };
            ("-", g, av.add(&n).sub(&bv).unwrap().rem(&n))
        }
        2 | 3 => {
            let g = match form {
                0 => c() * d(),
                1 => c() * b,
                2 => a * d(),
                3 => a * b,
                4 => {
                    let mut t = c();
                    t *= d();
                    t
                }
                _ => {
                    let mut t = c();
                    t *= b;
                    t
                }
            };
            ("*", g, av.mul(&bv).rem(&n))
        }
        _ => {
            let g = if r.bool() { -c() } else { -a };
            ("neg", g, if av.is_zero() { Nat::zero() } else { n.sub(&av).unwrap() })
        }
    };
    ck.u(label, &got.residue(), &want);
    match label {
        "+" => ck.log(|| format!("modadd {} {} {} {}", n.hex(), av.hex(), bv.hex(), nat(&got.residue()).hex())),
        "-" => ck.log(|| format!("modsub {} {} {} {}", n.hex(), av.hex(), bv.hex(), nat(&got.residue()).hex())),
        "*" => ck.log(|| format!("modmul {} {} {} {}", n.hex(), av.hex(), bv.hex(), nat(&got.residue()).hex())),
        _ => {}
    }
    ck.t("result equals the element of its residue", got == p.ring.from(ub(&want)));
    ck.t("operands unchanged", nat(&a.residue()) == av && nat(&b.residue()) == bv);
    p.v[k] = (got, want);
}

fn c18(r: &mut Rng, ck: &mut Ck) {
    let mx = big(r).min(40);
    let n = modulus(r, mx);
    let ring = ModuloRing::new(&ub(&n));
    let x = match r.usize(6) {
        0 => {
            // shares a factor with n, often
            let g = n.gcd(&G.nonzero(r, 2));
            Int::new(r.bool(), g.mul(&G.nonzero(r, 2)))
        }
        1 => Int::nat(n.shr(1)),
        _ => source(r, &n),
    };
    let xv = reduce(&x, &n);
    ck.inp("modulus", &n);
    ck.inp("x", &xv);
    let a = ring.from(ib(&x));
    let one = Nat::one().rem(&n);
    // inverse
    let invertible = if n.is_one() { true } else { !xv.is_zero() && xv.gcd(&n).is_one() };
    let inv = match ck.ok("inverse()", || a.inverse()) {
        Some(i) => i,
        None => return,
    };
    ck.eq("inverse() is Some exactly when coprime", inv.is_some(), invertible);
    ck.log(|| format!("modinv {} {} {}", n.hex(), xv.hex(), inv.as_ref().map_or("none".into(), |y| nat(&y.residue()).hex())));
    if let Some(y) = &inv {
        let yv = nat(&y.residue());
        ck.t("inverse is reduced", yv.lt(&n));
        ck.t_msg("x * inverse = 1", xv.mul(&yv).rem(&n) == one, || format!("inverse {}", yv.hex()));
        ck.u("x * inverse in the ring", &(&a * y).residue(), &one);
    }
    // division
    let z = source(r, &n);
    let zv = reduce(&z, &n);
    let b = ring.from(ib(&z));
    ck.inp("z", &zv);
    if invertible {
        let prod = &b * &a;
        let q = match r.usize(6) {
            0 => ck.ok("/", || &prod / &a),
            1 => ck.ok("/", || prod.clone() / &a),
            2 => ck.ok("/", || &prod / a.clone()),
            3 => ck.ok("/", || prod.clone() / a.clone()),
            4 => ck.ok("/=", || {
                let mut t = prod.clone();
                t /= &a;
                t
            }),
            _ => ck.ok("/=", || {
                let mut t = prod.clone();
                t /= a.clone();
                t
            }),
        };
        if let Some(q) = q {
            ck.u("(z * x) / x = z", &q.residue(), &zv);
        }
        if let Some(q) = ck.ok("/", || &b / &a) {
            ck.t("(z / x) * x = z", nat(&q.residue()).mul(&xv).rem(&n) == zv);
        }
    } else {
        match r.usize(6) {
            0 => ck.panics("/ by a non-invertible value", || &b / &a),
            1 => ck.panics("/ by a non-invertible value", || b.clone() / &a),
            2 => ck.panics("/ by a non-invertible value", || &b / a.clone()),
            3 => ck.panics("/ by a non-invertible value", || b.clone() / a.clone()),
            4 => ck.panics("/= by a non-invertible value", || {
                let mut t = b.clone();
                t /= &a
            }),
            _ => ck.panics("/= by a non-invertible value", || {
                let mut t = b.clone();
                t /= a.clone()
            }),
        }
    }
    // powers
    let nb = n.bit_len().div_ceil(W).max(1);
    let maxe = (3000 / (nb * nb).max(1)).clamp(1, if r.chance(1, 10) { 100 } else { 12 });
    for k in 0..2 {
        let e = if k == 0 && nb * W <= 192 && r.chance(1, 150) {
            // so long that the powers are taken in windows of nine bits or more
            let bits = r.range(11000, 40000);
            match r.usize(3) {
                0 => Nat::ones(bits),
                1 => G.bits(r, bits).or(&Nat::ones(2000).shl(r.usize(bits - 2000))),
                _ => G.bits(r, bits),
            }
        } else {
            exponent(r, maxe, &n)
        };
        ck.clear_inputs();
        ck.inp("modulus", &n);
        ck.inp("x", &xv);
        ck.inp("e", &e);
        let want = xv.modpow(&e, &n);
        let ue = hist(r, &e);
        if let Some(g) = ck.ok("pow", || a.pow(&ue)) {
            ck.u("pow", &g.residue(), &want);
            ck.log(|| format!("modpow {} {} {} {}", n.hex(), xv.hex(), e.hex(), nat(&g.residue()).hex()));
            if e.is_zero() {
                ck.t("pow(0) = 1", g == ring.from(1u8));
            }
        }
        let ie = IBig::from(&ue);
        if let Some(g) = ck.ok("pow_signed(e)", || a.pow_signed(&ie)) {
            ck.u("pow_signed(e)", &g.residue(), &want);
        }
        if !e.is_zero() {
            let ne = -ie;
            if invertible {
                if let Some(g) = ck.ok("pow_signed(-e)", || a.pow_signed(&ne)) {
                    ck.t("pow_signed(-e) is the inverse of pow(e)", nat(&g.residue()).mul(&want).rem(&n) == one);
                }
            } else {
                ck.panics("pow_signed(-e) of a non-invertible value", || a.pow_signed(&ne));
            }
        }
    }
    ck.t("operand unchanged", nat(&a.residue()) == xv);
}
fn exponent(r: &mut Rng, max: usize, n: &Nat) -> Nat {
    match r.usize(10) {
        0 => Nat::from_u64(r.below(20)),
        1 => Nat::pow2(r.usize(max * W)),
        2 => Nat::ones(r.usize(max * W + 1)),
        3 => {
            let k = r.range(1, max.min(3));
            let x = Nat::pow2(k * W);
            if r.bool() {
                x.sub(&Nat::from_u64(r.below(3))).unwrap()
            } else {
                x.add(&Nat::from_u64(r.below(3)))
            }
        }
        4 if n.bit_len() <= max * W => n.sub(&Nat::one()).unwrap(),
        5 => G.nat(r, 1),
        6 => {
            // long runs of zero bits
            let mut x = Nat::zero();
            for _ in 0..3 {
                let k = r.usize(max * W);
                x = x.with_bit(k, true);
            }
            x
        }
        _ => {
            let k = r.usize(max * W);
            G.bits(r, k)
        }
    }
}

fn c19(r: &mut Rng, ck: &mut Ck) {
    let mx = big(r).min(20);
    let n = modulus(r, mx);
    let m = match r.usize(4) {
        0 | 1 => n.clone(),
        2 => {
            // same number of words
            let k = n.bit_len();
            let x = G.bits(r, k);
            if x.is_zero() {
                Nat::one()
            } else {
                x
            }
        }
        _ => modulus(r, mx),
    };
    let (r1, r2) = (ModuloRing::new(&ub(&n)), ModuloRing::new(&ub(&m)));
    ck.inp("modulus 1", &n);
    ck.inp("modulus 2", &m);
    ck.t("a ring equals itself", r1 == r1 && r2 == r2);
    ck.t("different rings are unequal", r1 != r2 && r2 != r1);
    let (x, y) = (source(r, &n), source(r, &m));
    let (xv, yv) = (reduce(&x, &n), reduce(&y, &m));
    ck.inp("x", &xv);
    ck.inp("y", &yv);
    let (a, b) = (ring_value(r, &r1, &x), ring_value(r, &r2, &y));
    // Mixing panics, in every form.
    macro_rules! mix {
        ($op:tt, $as:tt) => {{
            let l = concat!("values of different rings: ", stringify!($op));
            match r.usize(6) {
                0 => ck.panics(l, || &a $op &b),
                1 => ck.panics(l, || a.clone() $op &b),
                2 => ck.panics(l, || &a $op b.clone()),
                3 => ck.panics(l, || a.clone() $op b.clone()),
                4 => {
                    let mut t = a.clone();
                    ck.panics(l, || t $as &b);
                    // the target still is a valid value of its ring
                    ck.t("target valid after the panic", nat(&t.residue()).lt(&n));
                    ck.ok("target usable after the panic", || &t + &a);
                }
                _ => {
                    let mut t = a.clone();
                    ck.panics(l, || t $as b.clone());
                    ck.t("target valid after the panic", nat(&t.residue()).lt(&n));
                }
            }
        }};
    }
    mix!(+, +=);
    mix!(-, -=);
    mix!(*, *=);
    mix!(/, /=);
    ck.panics("values of different rings: ==", || a == b);
    ck.panics("values of different rings: !=", || a != b);
    ck.panics("values of different rings: == swapped", || b == a);
    ck.t("operands unchanged by the panics", nat(&a.residue()) == xv && nat(&b.residue()) == yv);
    // Values of one ring never do.
    let x2 = source(r, &n);
    let a2 = ring_value(r, &r1, &x2);
    ck.ok("same ring", || {
        let _ = (&a + &a2, &a - &a2, &a * &a2, a == a2, a != a2);
    });
    // Copies.
    let c = a.clone();
    ck.t("clone equals its source", c == a);
    ck.u("clone has the residue of its source", &c.residue(), &xv);
    let mut pool = vec![a2.clone(), b.clone(), c];
    // A third ring of another size.
    let n3 = modulus(r, 6);
    let r3 = ModuloRing::new(&ub(&n3));
    let x3 = source(r, &n3);
    let v3 = reduce(&x3, &n3);
    let d = ring_value(r, &r3, &x3);
    pool.push(d.clone());
    for _ in 0..4 {
        let k = r.usize(pool.len());
        let (src, sv, sn, sring) = match r.usize(3) {
            0 => (&a, &xv, &n, &r1),
            1 => (&b, &yv, &m, &r2),
            _ => (&d, &v3, &n3, &r3),
        };
        let t = &mut pool[k];
        t.clone_from(src);
        ck.u("clone_from takes the residue", &t.residue(), sv);
        if let Some(e) = ck.ok("clone_from takes the ring", || *t == *src) {
            ck.t("clone_from: equal", e);
        }
        if let Some(s) = ck.ok("arithmetic after clone_from", || &*t + &sring.from(1u8)) {
            ck.u("sum after clone_from", &s.residue(), &sv.add(&Nat::one()).rem(sn));
        }
        if let Some(s) = ck.ok("product after clone_from", || &*t * src) {
            ck.u("product after clone_from", &s.residue(), &sv.mul(sv).rem(sn));
        }
        ck.u("source unchanged", &src.residue(), sv);
        // Changing the copy leaves the source alone.
        *t += sring.from(1u8);
        ck.u("source unaffected by changing the copy", &src.residue(), sv);
    }
    // Order of drops does not matter.
    drop(pool);
    ck.u("source valid after the copies are gone", &a.residue(), &xv);
}

fn main() {
    run_main(&[("C17", c17), ("C18", c18), ("C19", c19)]);
}
