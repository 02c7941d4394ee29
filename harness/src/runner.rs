//! Command line of every monitor binary.
//!   run PROP --seed S --shard K --cases N --max-secs T --out F [--log F --log-every N] [--first C]
//!   replay PROP --seed S --shard K --case C
use crate::ck::{fnv, Ck, LAST_PANIC};
use refmodel::rng::mix;
use refmodel::Rng;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub type CaseFn = fn(&mut Rng, &mut Ck);

// Not under the interpreter, whose own allocator gives no more alignment than asked for and checks layouts.
#[cfg_attr(not(miri), global_allocator)]
static A: crate::alloc::Counting = crate::alloc::Counting;

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static BEGAN: AtomicU64 = AtomicU64::new(0);

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report(ck: &Ck, cases: u64, wall: f64, capped: bool) -> String {
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"cases\":{cases},\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"expected_panics\":{},\"max_bits\":{},\"wall\":{wall:.2},\"capped\":{capped},\"logged\":{}",
        ck.evals, ck.nontrivial, ck.distinct.len(), ck.expected_panics, ck.max_bits, ck.logged
    );
    let _ = write!(o, ",\"labels\":{{");
    for (i, (k, v)) in ck.labels.iter().enumerate() {
        let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, js(k));
    }
    let _ = write!(o, "}},\"size_classes\":{{");
    for (i, (k, v)) in ck.size_classes.iter().enumerate() {
        let _ = write!(o, "{}\"{k}\":{v}", if i > 0 { "," } else { "" });
    }
    let _ = write!(o, "}},\"samples\":[");
    for (i, s) in ck.samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
    }
    let _ = write!(o, "],\"violations\":[");
    for (i, v) in ck.violations.iter().enumerate() {
        let _ = write!(o, "{}{{\"case\":{},\"what\":{}}}", if i > 0 { "," } else { "" }, v.case, js(&v.what));
    }
    let _ = write!(o, "],\"errors\":[");
    for (i, v) in ck.errors.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(v));
    }
    o.push_str("]}");
    o
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((msg, loc));
        }
    }));
}

pub fn one_case(prop: &str, f: CaseFn, seed: u64, shard: u64, case: u64, ck: &mut Ck) {
    let mut rng = Rng::new(mix(&[seed, fnv(prop), shard, case]));
    ck.start_case(case);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, ck)));
    if r.is_err() {
        let (m, l) = LAST_PANIC.lock().unwrap().take().unwrap_or(("?".into(), "?".into()));
        // A panic raised in the harness or the reference model is an error of the check, one raised
        // in the library (or in std on its behalf) is an observation of the library.
        if m.starts_with("LIB: ") {
            ck.fail("unexpected failure", m);
        } else if l.starts_with("src/") || l.contains("refmodel") || l.contains("harness") {
            ck.errors.push(format!("case {case}: harness panic: {m} at {l}"));
        } else {
            ck.fail("unexpected panic", format!("{m} at {l}"));
        }
    }
}

pub fn run_main(props: &[(&str, CaseFn)]) {
    crate::alloc::poison(true);
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let mode = args.get(1).cloned().unwrap_or_default();
    let prop = args.get(2).cloned().unwrap_or_default();
    let f = match props.iter().find(|p| p.0 == prop) {
        Some(p) => p.1,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    install_hook();
    let (seed, shard) = (num("--seed", 1), num("--shard", 0));
    let out = get("--out");
    let mut ck = Ck::new();
    if mode == "replay" {
        ck.verbose = true;
        one_case(&prop, f, seed, shard, num("--case", 0), &mut ck);
        println!("{}", report(&ck, 1, 0.0, false));
    } else {
        if let Some(l) = get("--log") {
            ck.log = Some(std::io::BufWriter::new(std::fs::File::create(l).unwrap()));
            ck.log_every = num("--log-every", 1);
        }
        let trace = args.iter().any(|a| a == "--trace");
        let (cases, first) = (num("--cases", 1000), num("--first", 0));
        let max_secs = num("--max-secs", 600) as f64;
        let stuck_secs = num("--stuck-secs", 0);
        let start = Instant::now();
        if stuck_secs > 0 {
            let out = out.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let c = CUR.load(SeqCst);
                let b = BEGAN.load(SeqCst);
                let now = start.elapsed().as_millis() as u64;
                if c != u64::MAX && now > b + stuck_secs * 1000 && CUR.load(SeqCst) == c && BEGAN.load(SeqCst) == b {
                    if let Some(o) = &out {
                        let _ = std::fs::write(o, format!("{{\"stuck\":{c}}}"));
                    }
                    std::process::exit(3);
                }
            });
        }
        let mut done = 0;
        let mut capped = false;
        for c in first..first + cases {
            if trace {
                eprintln!("case {c}");
            }
            BEGAN.store(start.elapsed().as_millis() as u64, SeqCst);
            CUR.store(c, SeqCst);
            let before = ck.violations.len();
            one_case(&prop, f, seed, shard, c, &mut ck);
            done += 1;
            if ck.violations.len() > before {
                // Again, noting the operands of every check, for the report.
                let mut again = Ck::new();
                again.verbose = true;
                one_case(&prop, f, seed, shard, c, &mut again);
                if !again.violations.is_empty() {
                    ck.violations.truncate(before);
                    ck.violations.append(&mut again.violations);
                }
            }
            if ck.violations.len() >= 5 || ck.errors.len() >= 5 {
                break;
            }
            if start.elapsed().as_secs_f64() > max_secs {
                capped = true;
                break;
            }
        }
        CUR.store(u64::MAX, SeqCst);
        if let Some(l) = &mut ck.log {
            use std::io::Write;
            let _ = l.flush();
        }
        let rep = report(&ck, done, start.elapsed().as_secs_f64(), capped);
        match &out {
            Some(o) => std::fs::write(o, rep).unwrap(),
            None => println!("{rep}"),
        }
    }
    if !ck.errors.is_empty() {
        std::process::exit(2);
    }
    if !ck.violations.is_empty() {
        std::process::exit(1);
    }
}
