//! C27 values shared and moved between threads.
use ibig::ops::*;
use ibig::{Modulo, ModuloRing};
use mon::world::{task, Hand, Src, World, NT};
use mon::*;
use rand::distributions::uniform::Uniform;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

/// Whether a type is Send / Sync, as a value: a type that stops being so must be a finding, not a build failure.
macro_rules! is {
    ($tr:ident, $t:ty) => {{
        struct Probe<T: ?Sized>(PhantomData<T>);
        trait Fallback {
            const YES: bool = false;
        }
        impl<T: ?Sized> Fallback for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> Probe<T> {
            const YES: bool = true;
        }
        Probe::<$t>::YES
    }};
}
fn markers(ck: &mut Ck) {
    macro_rules! all {
        ($($t:ty),* $(,)?) => {$(
            ck.t_msg(concat!(stringify!($t), " is Send"), is!(Send, $t), || "not Send".into());
            ck.t_msg(concat!(stringify!($t), " is Sync"), is!(Sync, $t), || "not Sync".into());
            ck.t_msg(concat!(stringify!($t), " is Unpin"), is!(Unpin, $t), || "not Unpin".into());
        )*};
    }
    all!(
        UBig,
        IBig,
        ModuloRing,
        Modulo<'static>,
        ibig::fmt::InRadix<'static>,
        ibig::error::ParseError,
        ibig::error::OutOfBoundsError,
        ibig::rand::UniformUBig,
        ibig::rand::UniformIBig,
        Uniform<UBig>,
        Uniform<IBig>,
    );
}

/// The operands of one thread of a storm.
struct Ops {
    x: UBig,
    y: UBig,
    i: IBig,
    j: IBig,
    d: u64,
    e: u16,
    n: usize,
    radix: u32,
    text: String,
    bytes: Vec<u8>,
    json: String,
    seed: u64,
    modulus: UBig,
}
#[derive(PartialEq)]
enum Out {
    U(UBig),
    I(IBig),
    N(u64),
    S(String),
    P(UBig, UBig),
}
impl Out {
    fn show(&self) -> String {
        match self {
            Out::U(x) => format!("{x:x}"),
            Out::I(x) => format!("{x:x}"),
            Out::N(x) => format!("{x:x}"),
            Out::S(x) => x.clone(),
            Out::P(x, y) => format!("{x:x}, {y:x}"),
        }
    }
}
const NOPS: usize = 44;
/// One quick operation: state hidden behind it and shared by the threads has to survive other threads doing the same on other operands.
fn quick(k: usize, o: &Ops, ring: &ModuloRing) -> Out {
    use rand::distributions::uniform::Uniform;
    use rand::Rng as _;
    let (x, y, i, j) = (&o.x, &o.y, &o.i, &o.j);
    match k {
        0 => Out::N(x % o.d),
        1 => Out::U(x / o.d),
        2 => {
            let (q, r) = x.div_rem(o.d);
            Out::P(q, UBig::from(r))
        }
        3 => Out::N((x % o.e) as u64),
        4 => Out::U(x % y),
        5 => Out::U(x / y),
        6 => Out::U((x << 150usize) / y),
        7 => Out::U((x << 150usize) % y),
        8 => Out::I(i.div_euclid(j)),
        9 => Out::I(i.rem_euclid(j)),
        10 => Out::U(x * y),
        11 => Out::U(x * x),
        12 => Out::U(x.pow(o.n % 9)),
        13 => Out::U(UBig::from(o.d).pow(o.n % 5)),
        14 => Out::U(x.gcd(y)),
        15 => {
            let (_, a, b) = x.extended_gcd(y);
            Out::I(a * IBig::from(x) + b * IBig::from(y))
        }
        16 => Out::S(x.to_string()),
        17 => Out::S(x.in_radix(o.radix).to_string()),
        18 => Out::S(format!("{i:x}")),
        19 => Out::S(format!("{:+60}", i)),
        20 => Out::U(UBig::from_str_radix(&o.text, o.radix).unwrap_or_default()),
        21 => Out::U(UBig::from_le_bytes(&o.bytes)),
        22 => Out::S(format!("{:?}", x.to_be_bytes())),
        23 => Out::N(x.to_f64().to_bits()),
        24 => Out::N(i.to_f32().to_bits() as u64),
        25 => Out::U(ModuloRing::new(&o.modulus).from(x).residue()),
        26 => Out::U(ring.from(x).residue()),
        27 => Out::U((ring.from(x) * ring.from(y)).residue()),
        28 => Out::U(ring.from(x).pow(y).residue()),
        29 => Out::U(ring.from(x).pow(&UBig::from(o.e)).residue()),
        30 => Out::U(ring.from(i).inverse().map_or(UBig::from(0u8), |v| v.residue())),
        31 => Out::U(ModuloRing::new(&o.modulus).from(i).pow(&UBig::from(o.e)).residue()),
        32 => Out::U(Src(Rng::new(o.seed)).gen_range(UBig::from(0u8)..=x.clone())),
        33 => Out::U(Src(Rng::new(o.seed)).sample(Uniform::new(UBig::from(o.e), UBig::from(o.e) + x + 1u8))),
        34 => Out::I(serde_json::from_str(&o.json).unwrap_or_default()),
        35 => Out::S(serde_json::to_string(i).unwrap_or_default()),
        36 => Out::I(i & j),
        37 => Out::I(i ^ j),
        38 => Out::I(i >> o.n),
        39 => Out::U(x << o.n),
        40 => Out::N(x.trailing_zeros().unwrap_or(0) as u64 + x.bit_len() as u64),
        41 => Out::U(x.next_power_of_two()),
        42 => Out::I(i - j),
        _ => Out::N(u64::from(x < y) + 2 * u64::from(i < j) + 4 * u64::from(ring.from(x) == ring.from(y))),
    }
}

/// Threads repeating one or two quick operations at full speed, each on operands of its own.
fn storm(r: &mut Rng, ck: &mut Ck) {
    let threads = 4;
    let max = if r.chance(1, 12) { 40 } else { 4 };
    let ops: Vec<Ops> = (0..threads)
        .map(|_| {
            let (a, b) = (G.nonzero(r, max), G.nonzero(r, max));
            let (i, j) = (G.int(r, max), G.nonzero(r, max));
            let radix = 2 + r.usize(35) as u32;
            let t = G.nat(r, max);
            let size = if r.bool() { 1 } else { 3 };
            let modulus = ub(&G.nonzero(r, size));
            let k = r.usize(max * 8);
            let bytes: Vec<u8> = (0..k).map(|_| r.u32() as u8).collect();
            for v in [&a, &b, &i.mag, &j] {
                ck.inp("operand", v);
            }
            let j = if r.bool() { -ib(&Int::nat(j)) } else { ib(&Int::nat(j)) };
            Ops {
                x: ub(&a),
                y: ub(&b),
                i: ib(&i),
                j,
                d: 1 + (r.u64() >> r.usize(63)),
                e: 1 + (r.u32() as u16 >> r.usize(15)).min(0xfffe),
                n: r.usize(140),
                radix,
                text: t.to_radix(radix),
                bytes,
                json: serde_json::to_string(&ib(&i)).must("json"),
                seed: r.u64(),
                modulus,
            }
        })
        .collect();
    let size = if r.bool() { 1 } else { 3 };
    let ring = ModuloRing::new(&ub(&G.nonzero(r, size)));
    let kinds: Vec<usize> = (0..1 + r.usize(2)).map(|_| r.usize(NOPS)).collect();
    ck.inp_n("operation", kinds[0] as u128);
    let rounds = if max > 4 { 60 } else { 400 };
    // Half of the time before, half of the time after: a lazily filled cache is met cold as well.
    let seq = || -> Vec<Vec<Out>> { ops.iter().map(|o| kinds.iter().map(|k| quick(*k, o, &ring)).collect()).collect() };
    let before = if r.bool() { Some(seq()) } else { None };
    let go = AtomicUsize::new(0);
    let (ops_h, ring_h) = (Hand(&ops), Hand(&ring));
    // Each thread compares with its first results; the first results are compared with the sequential ones.
    let got: Vec<(Vec<Hand<Out>>, Vec<Option<String>>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (ops, ring, kinds, go) = (&ops_h, &ring_h, &kinds, &go);
                sc.spawn(move || {
                    let o = &ops.get()[t];
                    go.fetch_add(1, AcqRel);
                    while go.load(Acquire) < threads {
                        std::hint::spin_loop();
                    }
                    let first: Vec<Out> = kinds.iter().map(|k| quick(*k, o, ring.get())).collect();
                    let mut bad = vec![None; kinds.len()];
                    for _ in 0..rounds {
                        for (n, k) in kinds.iter().enumerate() {
                            let v = quick(*k, o, ring.get());
                            if v != first[n] && bad[n].is_none() {
                                bad[n] = Some(v.show());
                            }
                        }
                    }
                    (first.into_iter().map(Hand).collect(), bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("LIB: a worker panicked")).collect()
    });
    let want = before.unwrap_or_else(seq);
    *ck.labels.entry("repeated operations of threads at full speed".into()).or_insert(0) += (threads * rounds * kinds.len()) as u64;
    for (t, (first, bad)) in got.into_iter().enumerate() {
        for (n, f) in first.into_iter().enumerate() {
            let f = f.take();
            ck.t_msg("result as in sequential execution", f == want[t][n] && bad[n].is_none(), || {
                let s = bad[n].clone().unwrap_or(f.show());
                format!("thread {t} operation {}: {} instead of {}", kinds[n], ck::short_str(&s), ck::short_str(&want[t][n].show()))
            });
        }
    }
}

fn c27(r: &mut Rng, ck: &mut Ck) {
    if ck.case == 0 {
        markers(ck);
    }
    if !cfg!(miri) && ck.case % 3 == 1 {
        return storm(r, ck);
    }
    let small = cfg!(miri);
    let threads = if small { 3 } else { 4 };
    let per = if small { 5 } else { 24 };
    let max = if small {
        4
    } else if r.chance(1, 6) {
        70
    } else {
        12
    };
    let n = 4;
    let mut uv: Vec<Nat> = (0..n).map(|_| G.nat(r, max)).collect();
    if !small && r.chance(1, 8) {
        uv[0] = G.words(r, 300);
        uv[1] = G.words(r, 260);
    }
    let iv: Vec<Int> = (0..n).map(|_| G.int(r, max)).collect();
    for v in &uv {
        ck.inp("u", v);
    }
    for v in &iv {
        ck.inp_i("i", v);
    }
    let u: Vec<UBig> = uv.iter().map(ub).collect();
    let i: Vec<IBig> = iv.iter().map(ib).collect();
    let ring = ModuloRing::new(&UBig::from(r.u64() >> r.usize(63) | 1).min(UBig::from(1u64 << 15)));
    let big_ring = ModuloRing::new(&ub(&G.words(r, 3).add(&Nat::pow2(2 * W))));
    let m = u.iter().map(|x| ring.from(x)).collect();
    let bm = u.iter().map(|x| big_ring.from(x)).collect();
    let hi = ub(&uv.iter().fold(Nat::one(), |a, b| a.add(b)));
    let us = Uniform::new(UBig::from(3u8), &hi + 5u8);
    let is = Uniform::new_inclusive(-IBig::from(hi.clone()), IBig::from(hi));
    let w = Hand(World { u, i, ring: &ring, big_ring: &big_ring, m, bm, us, is });
    let plan: Vec<Vec<(usize, usize, usize, u64)>> = {
        let common: Vec<_> = (0..per).map(|_| (r.usize(NT), r.usize(n), r.usize(n), r.u64())).collect();
        (0..threads)
            .map(|t| {
                if t < 2 {
                    common.clone() // the same tasks at the same time
                } else {
                    (0..per).map(|_| (r.usize(NT), r.usize(n), r.usize(n), r.u64())).collect()
                }
            })
            .collect()
    };
    // Which was first: the sequential run or the parallel one (so that a lazily filled cache is met cold in half the cases).
    let seq = |ck: &mut Ck| -> Vec<Vec<String>> {
        let _ = &ck;
        plan.iter().map(|p| p.iter().map(|t| task(w.get(), t.0, t.1, t.2, t.3)).collect()).collect()
    };
    let before = if r.bool() { Some(seq(ck)) } else { None };
    let go = AtomicBool::new(false);
    let running = AtomicUsize::new(0);
    let overlap = AtomicU64::new(0);
    // owned values moved to the threads, and back
    let moved: Vec<Hand<(UBig, IBig)>> = (0..threads).map(|t| Hand((ub(&uv[t % n]), ib(&iv[t % n])))).collect();
    let jitter: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let got: Vec<(Vec<String>, Hand<(UBig, IBig)>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = moved
            .into_iter()
            .enumerate()
            .map(|(t, own)| {
                let (w, plan, go, running, overlap, j) = (&w, &plan[t], &go, &running, &overlap, jitter[t]);
                sc.spawn(move || {
                    let mut j = Rng::new(j);
                    while !go.load(Acquire) {
                        std::thread::yield_now();
                    }
                    running.fetch_add(1, Relaxed);
                    let (mut a, mut b) = own.take();
                    let mut out = vec![];
                    for x in plan {
                        if running.load(Relaxed) > 1 {
                            overlap.fetch_add(1, Relaxed);
                        }
                        out.push(task(w.get(), x.0, x.1, x.2, x.3));
                        // the moved values change owner and contents
                        a += &w.get().u[x.1 % 4];
                        b -= &w.get().i[x.2 % 4];
                        match j.usize(4) {
                            0 => std::thread::yield_now(),
                            1 => std::hint::spin_loop(),
                            _ => {}
                        }
                    }
                    running.fetch_sub(1, Relaxed);
                    (out, Hand((a, b)))
                })
            })
            .collect();
        go.store(true, Release);
        hs.into_iter().map(|h| h.join().expect("LIB: a worker panicked")).collect()
    });
    let want = match before {
        Some(w) => w,
        None => seq(ck),
    };
    *ck.labels.entry("tasks that ran while another thread was running".into()).or_insert(0) += overlap.load(Relaxed);
    for (t, (out, own)) in got.into_iter().enumerate() {
        for (k, x) in out.iter().enumerate() {
            ck.t_msg("result as in sequential execution", *x == want[t][k], || {
                format!("thread {t} task {:?}: {} instead of {}", plan[t][k], ck::short_str(x), ck::short_str(&want[t][k]))
            });
        }
        let (a, b) = own.take();
        let mut av = uv[t % n].clone();
        let mut bv = iv[t % n].clone();
        for x in &plan[t] {
            av = av.add(&uv[x.1 % 4]);
            bv = bv.sub(&iv[x.2 % 4]);
        }
        ck.u("moved and updated UBig", &a, &av);
        ck.i("moved and updated IBig", &b, &bv);
    }
    for k in 0..n {
        ck.u("shared UBig unchanged", &w.get().u[k], &uv[k]);
        ck.i("shared IBig unchanged", &w.get().i[k], &iv[k]);
        ck.u("shared residue unchanged", &w.get().bm[k].residue(), &uv[k].rem(&nat(&w.get().big_ring.modulus())));
    }
}

fn main() {
    run_main(&[("C27", c27)]);
}
