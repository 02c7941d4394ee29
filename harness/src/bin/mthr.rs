//! A light version of `thr` for the interpreter, which sees data races on schedules it chooses (C27).
use ibig::{IBig, ModuloRing, UBig};
use mon::world::{task, Hand, World, NT};
use mon::Rng;
use rand::distributions::uniform::Uniform;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

fn num(r: &mut Rng, max: usize) -> UBig {
    let n = r.usize(max * 8);
    let b: Vec<u8> = (0..n).map(|_| *r.pick(&[0, 255, 1, 128, 77, 200])).collect();
    UBig::from_le_bytes(&b)
}
fn int(r: &mut Rng, max: usize) -> IBig {
    let x = IBig::from(num(r, max));
    if r.bool() {
        -x
    } else {
        x
    }
}

/// Tasks run, and tasks run while another thread was running.
fn case(r: &mut Rng, threads: usize, per: usize) -> (usize, u64) {
    let n = 3;
    let max = *r.pick(&[2, 3, 3, 6]);
    let u: Vec<UBig> = (0..n).map(|_| num(r, max)).collect();
    let i: Vec<IBig> = (0..n).map(|_| int(r, max)).collect();
    let ring = ModuloRing::new(&UBig::from(1 + r.u32() % 40000));
    let big_ring = ModuloRing::new(&(num(r, 4) + (UBig::from(1u8) << 140)));
    let m = u.iter().map(|x| ring.from(x)).collect();
    let bm = u.iter().map(|x| big_ring.from(x)).collect();
    let hi: UBig = u.iter().fold(UBig::from(1u8), |a, b| a + b);
    let us = Uniform::new(UBig::from(3u8), &hi + 5u8);
    let is = Uniform::new_inclusive(-IBig::from(hi.clone()), IBig::from(hi));
    let w = Hand(World { u: u.clone(), i: i.clone(), ring: &ring, big_ring: &big_ring, m, bm, us, is });
    // inverse and gcd are the slow ones here: rarely
    let pick = |r: &mut Rng| loop {
        let k = r.usize(NT);
        if !(k == 6 || k == 12) || r.chance(1, 4) {
            break (k, r.usize(n), r.usize(n), r.u64());
        }
    };
    let common: Vec<_> = (0..per).map(|_| pick(r)).collect();
    let plan: Vec<Vec<_>> = (0..threads).map(|t| if t < 2 { common.clone() } else { (0..per).map(|_| pick(r)).collect() }).collect();
    let seq = || -> Vec<Vec<String>> { plan.iter().map(|p| p.iter().map(|t| task(w.get(), t.0, t.1, t.2, t.3)).collect()).collect() };
    let before = if r.bool() { Some(seq()) } else { None };
    let go = AtomicBool::new(false);
    let running = AtomicUsize::new(0);
    let overlap = AtomicU64::new(0);
    let moved: Vec<Hand<(UBig, IBig)>> = (0..threads).map(|t| Hand((u[t % n].clone(), i[t % n].clone()))).collect();
    let got: Vec<(Vec<String>, Hand<(UBig, IBig)>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = moved
            .into_iter()
            .enumerate()
            .map(|(t, own)| {
                let (w, plan, go, running, overlap) = (&w, &plan[t], &go, &running, &overlap);
                sc.spawn(move || {
                    while !go.load(Relaxed) {
                        std::thread::yield_now();
                    }
                    running.fetch_add(1, Relaxed);
                    let (mut a, mut b) = own.take();
                    let mut out = vec![];
                    for x in plan {
                        if running.load(Relaxed) > 1 {
                            overlap.fetch_add(1, Relaxed);
                        }
                        out.push(task(w.get(), x.0, x.1, x.2, x.3));
                        a += &w.get().u[x.1];
                        b -= &w.get().i[x.2];
                    }
                    running.fetch_sub(1, Relaxed);
                    (out, Hand((a, b)))
                })
            })
            .collect();
        go.store(true, Relaxed);
        hs.into_iter().map(|h| h.join().expect("a worker panicked")).collect()
    });
    let want = before.unwrap_or_else(seq);
    for (t, (out, own)) in got.into_iter().enumerate() {
        for (k, x) in out.iter().enumerate() {
            assert!(*x == want[t][k], "thread {t} task {:?}: {x} instead of {}", plan[t][k], want[t][k]);
        }
        let (a, b) = own.take();
        let x = plan[t].iter().fold(u[t % n].clone(), |s, x| s + &u[x.1]);
        let y = plan[t].iter().fold(i[t % n].clone(), |s, x| s - &i[x.2]);
        assert!(a == x && b == y, "values moved to thread {t}");
    }
    assert!(w.get().u == u && w.get().i == i, "shared values changed");
    (threads * per, overlap.load(Relaxed))
}

fn main() {
    mon::runner::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map_or(d, |v| v.parse().unwrap());
    let (seed, first, cases, secs) = (num("--seed", 1), num("--first", 0), num("--cases", 4), num("--max-secs", 100000));
    let start = std::time::Instant::now();
    let (mut tasks, mut over, mut bad) = (0, 0, 0);
    for c in first..first + cases {
        if c > first && start.elapsed().as_secs() >= secs {
            break;
        }
        let mut r = Rng::new(refmodel::rng::mix(&[seed, 0x7412, c]));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut r, 3, 4)));
        match res {
            Ok((t, o)) => {
                tasks += t;
                over += o;
                println!("{c} ok {t} {o}");
            }
            Err(_) => {
                let (msg, loc) = mon::ck::LAST_PANIC.lock().unwrap().take().unwrap_or_default();
                println!("{c} FAIL {msg} at {loc}");
                bad += 1;
            }
        }
    }
    println!("events {tasks} overlapping {over}");
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
