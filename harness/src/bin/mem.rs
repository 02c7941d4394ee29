//! C26 memory stays proportional to the values held: watches the allocator.
use ibig::ops::*;
use ibig::ModuloRing;
use mon::alloc::*;
use mon::*;

/// Bytes and blocks a value owns: what its drop gives back.
fn owned<T>(x: T) -> (i64, i64) {
    let (l, b) = (live(), blocks());
    drop(x);
    (l - live(), b - blocks())
}
fn digits(v: &Nat) -> i64 {
    (v.bit_len().div_ceil(W) * (W / 8)) as i64
}
/// What a value may own: nothing when it fits in a word; otherwise one block of about a quarter plus a few words more
/// than the digits (the margins here are twice that).
fn fair(ck: &mut Ck, label: &str, v: &Nat, got: (i64, i64)) {
    let d = digits(v);
    if v.bit_len() <= W {
        ck.t_msg("a one-word value owns no heap memory", got == (0, 0), || format!("{label}: value {} owns {} bytes in {} blocks", v.hex(), got.0, got.1));
    } else {
        ck.t_msg("an owned block is moderately larger than the digits", got.1 == 1 && got.0 >= d && got.0 <= d + d / 2 + 16 * (W / 8) as i64, || {
            format!("{label}: {} bytes of digits, owns {} bytes in {} blocks", d, got.0, got.1)
        });
    }
}

/// Runs an operation, watching the peak and what remains; gives the result back.
struct Watch {
    factor: i64,
    slack: i64,
}
fn watch<T>(ck: &mut Ck, label: &str, input: i64, w: &Watch, f: impl FnOnce() -> T, size: impl Fn(&T) -> i64) -> T {
    let before = reset_peak();
    let b0 = blocks();
    let r = f();
    let temp = peak() - before;
    let kept = live() - before;
    let kb = blocks() - b0;
    let out = size(&r);
    let bound = w.factor * (input + out) + w.slack;
    ck.t_msg("temporary memory is proportional to operands and result", temp <= bound, || {
        format!("{label}: peak {temp} bytes above the start, operands {input}, result {out}, allowed {bound}")
    });
    ck.t_msg("nothing but the result remains", kept <= out + out / 2 + 16 * 8 * 4 && kb <= 4, || {
        format!("{label}: {kept} bytes in {kb} blocks remain, result {out} bytes")
    });
    if cfg!(feature = "std") && std::env::var_os("MEM_STATS").is_some() {
        let rel = if input + out > 2048 { temp * 100 / (input + out) } else { 0 };
        eprintln!("STAT {label} {rel}");
    }
    r
}
const LIN: Watch = Watch { factor: 3, slack: 4096 };
const MUL: Watch = Watch { factor: 6, slack: 8192 };
const TXT: Watch = Watch { factor: 6, slack: 16384 };

fn size_u(x: &UBig) -> i64 {
    (x.bit_len() / 8) as i64 + 8
}

/// Values reached by every kind of history own what their size warrants.
fn holders(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 10) { 120 } else { 8 };
    let v = match r.usize(4) {
        0 => Nat::ones(r.usize(3 * W)),
        1 => Nat::pow2(r.usize(4 * W)),
        _ => G.nat(r, max),
    };
    ck.inp("value", &v);
    let k = r.usize(NU + 6);
    ck.inp_n("history", k as u128);
    let big = 40 + r.usize(200);
    let x = match k {
        // from much larger values
        30 => {
            let y = G.words(r, big);
            let m = ub(&y) + UBig::from(1u8);
            (ub(&v) + ub(&y) * &m) - ub(&y) * m
        }
        31 => {
            let mut x = ub(&v) | (UBig::from(1u8) << (big * W));
            x.clear_bit(big * W);
            x
        }
        32 => (ub(&v) << (big * W)) >> (big * W),
        33 => {
            let mut x = ub(&v.shl(big * W));
            x >>= big * W;
            x
        }
        34 => {
            let mut x = ub(&G.words(r, big));
            x.clone_from(&ub(&v));
            x
        }
        35 => {
            let mut x = ub(&G.words(r, big));
            let y = &x - ub(&v.low_bits(x.bit_len().saturating_sub(1)));
            x -= y;
            let low = v.low_bits(v.bit_len());
            let _ = low;
            x
        }
        k => hist_u(r, &v, k),
    };
    let xv = nat(&x);
    let o = owned(x);
    fair(ck, &format!("history {k}"), &xv, o);
    let i = Int::new(r.bool(), v.clone());
    let k = r.usize(NI);
    let x = hist_i(r, &i, k);
    let o = owned(x);
    fair(ck, &format!("signed history {k}"), &v, o);
}

/// A pool of values through a long history: what it owns, what is left when it goes.
fn pool(r: &mut Rng, ck: &mut Ck) {
    let l0 = live();
    let mut s = Soup::new(r, G, 4, 60 * W);
    for _ in 0..50 {
        s.step(r, ck);
    }
    let mut total = 0;
    let (u, i) = (std::mem::take(&mut s.u), std::mem::take(&mut s.i));
    for (x, v) in u {
        let o = owned(x);
        total += o.0;
        ck.inp("value", &v);
        fair(ck, "pool", &v, o);
    }
    for (x, v) in i {
        let o = owned(x);
        total += o.0;
        ck.inp_i("value", &v);
        fair(ck, "signed pool", &v.mag, o);
    }
    let _ = (l0, total);
}

/// Nothing stays behind after operations whose results are dropped, including panics.
fn leaks(r: &mut Rng, ck: &mut Ck) {
    let la = if r.chance(1, 6) { G.len(r, 300) } else { r.usize(20) };
    let lb = if r.chance(1, 6) { G.len(r, 300) } else { r.usize(20) };
    let (a, b) = (G.words(r, la.max(1)), G.words(r, lb.max(1)).add(&Nat::one()));
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let s = r.usize(200);
    let radix = r.range(2, 36) as u32;
    let k = r.usize(22);
    ck.inp_n("op", k as u128);
    let (l0, b0) = (live(), blocks());
    let res = Ck::guard(|| match k {
        0 => drop(&x + &y),
        1 => drop(&x * &y),
        2 => drop((&x).div_rem(&y)),
        3 => drop(x.in_radix(radix).to_string()),
        4 => drop(UBig::from_str_radix(&x.in_radix(radix).to_string(), radix)),
        5 => drop(x.gcd(&y)),
        6 => {
            if la + lb < 100 {
                drop(x.extended_gcd(&y))
            }
        }
        7 => drop(&x << s),
        8 => drop(&x >> s),
        9 => drop((x.to_le_bytes(), x.to_be_bytes())),
        10 => drop(UBig::from_le_bytes(&y.to_be_bytes())),
        11 => drop(x.pow(s % 5)),
        12 => {
            let ring = ModuloRing::new(&y);
            let m = ring.from(&x);
            let mut t = m.clone();
            t *= &m;
            t += &m;
            t.clone_from(&m);
            drop(t.residue());
            drop(-t);
        }
        13 => {
            let ring = ModuloRing::new(&y);
            let m = ring.from(&x);
            if lb < 30 {
                drop(m.pow(&UBig::from(s)));
                drop(m.inverse());
            }
        }
        14 => drop(serde_json::from_str::<UBig>(&serde_json::to_string(&x).unwrap())),
        15 => drop(serde_json::from_str::<UBig>("[1,2,3,4,5,6,7,8,\"x\"]")),
        16 => drop((-IBig::from(x.clone())) & IBig::from(y.clone())),
        17 => {
            let mut t = x.clone();
            t -= &y + &x; // panics
        }
        18 => drop(&x / UBig::from(0u8)), // panics
        19 => {
            let mut t = x.clone();
            t.set_bit(s * 50);
            t.clear_bit(s * 50);
            t |= &y;
            t ^= &y;
        }
        20 => {
            // rings of two objects: panics
            let (r1, r2) = (ModuloRing::new(&y), ModuloRing::new(&y));
            drop(r1.from(&x) + r2.from(&x));
        }
        _ => drop("123456789012345678901234567890123456789012345678901234567890x".parse::<UBig>()),
    });
    let failed = res.is_err();
    let (extra, eb) = match &res {
        Err(m) => (m.capacity() as i64, 1),
        _ => (0, 0),
    };
    let (l1, b1) = (live(), blocks());
    ck.t_msg("the heap is back where it was", l1 - l0 <= extra && b1 - b0 <= eb, || {
        format!("op {k}: {} bytes in {} blocks remain (panicked: {failed})", l1 - l0, b1 - b0)
    });
}

/// Rings and their elements own what the modulus warrants, whatever the numbers they come from.
fn rings(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 10) { 60 } else { 6 };
    let n = G.nonzero(r, max);
    let d = digits(&n);
    let nn = ub(&n);
    ck.inp("modulus", &n);
    let l0 = live();
    let ring = if r.bool() {
        ModuloRing::new(&nn)
    } else {
        let spare = (ub(&n.shl(60 * W))) >> (60 * W);
        ModuloRing::new(&spare)
    };
    let kept = live() - l0;
    ck.t_msg("a ring is not much larger than its modulus", kept <= 2 * d + 512, || format!("{kept} bytes for a modulus of {d} bytes"));
    let long = if r.chance(1, 4) { 300 } else { 2 * max };
    let len = r.usize(long) + 1;
    let v = G.words(r, len);
    ck.inp("value", &v);
    let k = r.usize(14);
    ck.inp_n("how", k as u128);
    let x = ub(&v);
    let big = ModuloRing::new(&(ub(&Nat::ones((len + 8) * W))));
    let m = match k {
        0 => ring.from(x),
        1 => ring.from(&x),
        2 => ring.from(IBig::from(x)),
        3 => ring.from(&-IBig::from(x)),
        4 => ring.from(x << (40 * W)),
        5 => {
            let mut m = ring.from(&x);
            m *= ring.from(&x);
            m
        }
        6 => ring.from(&x) + ring.from(3),
        7 => &ring.from(&x) - ring.from(x),
        8 => -ring.from(x),
        9 => ring.from(&x).pow(&UBig::from(5u8)),
        10 => ring.from(x).inverse().unwrap_or(ring.from(1)),
        11 => {
            // an element of a much larger ring, taken over
            let mut m = big.from(&x);
            m.clone_from(&ring.from(&x));
            m
        }
        12 => ring.from(&x).clone(),
        _ => ring.from(u128::MAX),
    };
    let res = m.residue();
    let rv = nat(&res);
    let o = owned(res);
    fair(ck, "residue", &rv, o);
    let o = owned(m);
    // an element of a long ring of one word may have a block of its own
    ck.t_msg("an element is not much larger than its modulus", o.0 <= d + d / 2 + 64 && o.1 <= 1, || {
        format!("how {k}: {} bytes in {} blocks for a modulus of {d} bytes", o.0, o.1)
    });
    drop(big);
    let o = owned(ring);
    ck.t_msg("dropping a ring returns it all", o.0 == kept, || format!("{} of {kept}", o.0));
}

/// Peak memory of single operations on larger operands.
fn peaks(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 5) { 2500 } else { 400 };
    let la = r.log_range(1, max);
    let lb = match r.usize(3) {
        0 => la,
        1 => r.log_range(1, max),
        _ => (la / 2).max(1) + r.usize(4),
    };
    let (la, lb) = if giant::due(r, 800) {
        (r.range(60000, 80000), if r.bool() { r.range(1, 1000) } else { r.range(50000, 80000) })
    } else {
        (la.min(UBig::MAX_BIT_LEN / W / 3), lb.min(UBig::MAX_BIT_LEN / W / 3))
    };
    let a = G.random_bits(r, la * W).add(&Nat::pow2(la * W - 1)).low_bits(la * W).with_bit(la * W - 1, true);
    let b = G.random_bits(r, lb * W).with_bit(lb * W - 1, true);
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (x, y) = (ub(&a), ub(&b));
    let i = size_u(&x) + size_u(&y);
    let s = r.usize(4 * W);
    let radix = *r.pick(&[10u32, 3, 36, 7, 16, 2, 32]);
    match r.usize(14) {
        0 => drop(watch(ck, "+", i, &LIN, || &x + &y, size_u)),
        1 => drop(watch(ck, "*", i, &MUL, || &x * &y, size_u)),
        2 => drop(watch(ck, "square", i, &MUL, || &x * &x, size_u)),
        3 => drop(watch(ck, "/", i, &MUL, || &x / &y, |q| size_u(q))),
        4 => drop(watch(ck, "div_rem", i, &MUL, || (&x).div_rem(&y), |q| size_u(&q.0) + size_u(&q.1))),
        5 => drop(watch(ck, "%", i, &MUL, || &x % &y, size_u)),
        6 => drop(watch(ck, "to text", size_u(&x), &TXT, || x.in_radix(radix).to_string(), |t| t.capacity() as i64)),
        7 => {
            let t = x.in_radix(radix).to_string();
            drop(watch(ck, "parse", t.len() as i64, &TXT, || UBig::from_str_radix(&t, radix), |u| size_u(u.as_ref().unwrap())))
        }
        8 => drop(watch(ck, "<<", size_u(&x), &LIN, || &x << s, size_u)),
        9 => drop(watch(ck, ">>", size_u(&x), &LIN, || &x >> s, size_u)),
        10 => drop(watch(ck, "bytes", size_u(&x), &LIN, || x.to_be_bytes(), |t| t.len() as i64)),
        11 => {
            let t = x.to_le_bytes();
            drop(watch(ck, "from bytes", size_u(&x), &LIN, || UBig::from_le_bytes(&t), size_u))
        }
        12 if la < 200 => {
            let ring = ModuloRing::new(&x);
            let m = ring.from(&y);
            let e = ub(&G.nonzero(r, 4));
            let z = watch(ck, "modpow", 34 * size_u(&x), &MUL, || m.pow(&e), |_| size_u(&x));
            let o = owned(z);
            ck.t_msg("a residue is not much larger than its modulus", o.0 <= 2 * size_u(&x) + 128, || format!("{} bytes for a modulus of {} bytes", o.0, size_u(&x)));
        }
        13 if la < 300 => drop(watch(ck, "gcd", i, &MUL, || x.gcd(&y), size_u)),
        _ => {
            let i = IBig::from(x.clone());
            let j = -IBig::from(y.clone());
            drop(watch(ck, "signed &", size_u(&x) + size_u(&y), &LIN, || &i & &j, |z| size_u(&z.unsigned_abs())))
        }
    }
}

fn c26(r: &mut Rng, ck: &mut Ck) {
    match r.usize(9) {
        8 => rings(r, ck),
        0 | 1 | 2 => holders(r, ck),
        3 => pool(r, ck),
        4 | 5 => leaks(r, ck),
        _ => peaks(r, ck),
    }
}

fn main() {
    run_main(&[("C26", c26)]);
}
