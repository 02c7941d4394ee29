//! The monitor: compares observations with the reference and records what was seen.
use crate::conv::*;
use ibig::{IBig, UBig};
use refmodel::{Int, Nat};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub struct Violation {
    pub case: u64,
    pub what: String,
}

pub struct Ck {
    pub case: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<String>,
    pub expected_panics: u64,
    pub max_bits: usize,
    pub size_classes: BTreeMap<u32, u64>,
    inputs: Vec<String>,
    input_hash: u64,
    input_big: bool,
    pub log: Option<std::io::BufWriter<std::fs::File>>,
    pub log_every: u64,
    pub logged: u64,
    pub verbose: bool,
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn nat_hash(x: &Nat) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ x.d.len() as u64;
    for w in &x.d {
        h = (h ^ *w as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 29;
    }
    h
}
fn short(s: &str) -> String {
    if s.len() <= 600 {
        s.to_string()
    } else {
        format!("{}...{} ({} digits)", &s[..280], &s[s.len() - 280..], s.len())
    }
}

/// Fast lookup of label counters without allocating per check.
impl Ck {
    pub fn new() -> Ck {
        Ck {
            case: 0,
            evals: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            violations: vec![],
            errors: vec![],
            samples: vec![],
            expected_panics: 0,
            max_bits: 0,
            size_classes: BTreeMap::new(),
            inputs: vec![],
            input_hash: 0,
            input_big: false,
            log: None,
            log_every: 1,
            logged: 0,
            verbose: false,
        }
    }
    pub fn start_case(&mut self, case: u64) {
        self.case = case;
        self.clear_inputs();
    }
    pub fn clear_inputs(&mut self) {
        self.inputs.clear();
        self.input_hash = 0;
        self.input_big = false;
    }
    fn want_text(&self) -> bool {
        self.verbose || self.samples.len() < 6
    }
    /// Declare an operand of the coming checks (for fingerprints and reports).
    pub fn inp(&mut self, name: &str, x: &Nat) {
        self.inp_i(name, &Int::nat(x.clone()))
    }
    pub fn inp_i(&mut self, name: &str, x: &Int) {
        let b = x.mag.bit_len();
        self.max_bits = self.max_bits.max(b);
        let words = b.div_ceil(crate::W).max(1);
        *self.size_classes.entry(words.ilog2()).or_insert(0) += 1;
        self.input_hash = self.input_hash.rotate_left(7) ^ nat_hash(&x.mag) ^ (x.neg as u64);
        if b > crate::W {
            self.input_big = true;
        }
        if self.want_text() {
            self.inputs.push(format!("{name}={}", short(&x.hex())));
        }
    }
    pub fn inp_n(&mut self, name: &str, x: u128) {
        self.input_hash = self.input_hash.rotate_left(7) ^ (x as u64) ^ ((x >> 64) as u64).rotate_left(32);
        if self.want_text() {
            self.inputs.push(format!("{name}={x}"));
        }
    }
    pub fn inp_s(&mut self, name: &str, x: &str) {
        self.input_hash = self.input_hash.rotate_left(7) ^ fnv(x);
        if x.len() > 4 {
            self.input_big = true;
        }
        if self.want_text() {
            self.inputs.push(format!("{name}={:?}", short_str(x)));
        }
    }
    fn count(&mut self, label: &str) {
        self.evals += 1;
        match self.labels.get_mut(label) {
            Some(c) => *c += 1,
            None => {
                self.labels.insert(label.to_string(), 1);
            }
        }
        if self.input_big {
            self.nontrivial += 1;
            if self.distinct.len() < 1_500_000 {
                self.distinct.insert(fnv(label) ^ self.input_hash.rotate_left(13));
            }
        }
        if self.samples.len() < 6 && self.input_big && self.evals % 97 == 1 {
            let s = format!("{label}: {}", self.inputs.join(" "));
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, label: &str, detail: String) {
        let what = format!("{label}: {detail}; inputs: {}", self.inputs.join(" "));
        if self.violations.len() < 20 {
            self.violations.push(Violation { case: self.case, what });
        }
    }
    pub fn u(&mut self, label: &str, got: &UBig, want: &Nat) {
        self.count(label);
        let gb = got.to_le_bytes();
        let wb = want.to_le();
        if gb != wb {
            self.fail(label, format!("got {} want {}", short(&Nat::from_le(&gb).hex()), short(&want.hex())));
        } else if *got != UBig::from_le_bytes(&wb) {
            self.fail(label, format!("result {} does not compare equal to the same number", short(&want.hex())));
        }
    }
    pub fn i(&mut self, label: &str, got: &IBig, want: &Int) {
        self.count(label);
        let g = int(got);
        if g != *want {
            self.fail(label, format!("got {} want {}", short(&g.hex()), short(&want.hex())));
        } else if *got != ib(want) {
            self.fail(label, format!("result {} does not compare equal to the same number", short(&want.hex())));
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, label: &str, got: T, want: T) {
        self.count(label);
        if got != want {
            self.fail(label, format!("got {} want {}", short_str(&format!("{got:?}")), short_str(&format!("{want:?}"))));
        }
    }
    pub fn t(&mut self, label: &str, cond: bool) {
        self.count(label);
        if !cond {
            self.fail(label, "false".into());
        }
    }
    pub fn t_msg(&mut self, label: &str, cond: bool, msg: impl FnOnce() -> String) {
        self.count(label);
        if !cond {
            self.fail(label, msg());
        }
    }
    /// Run code of the library; Err is the panic message.
    pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Ok(x),
            Err(_) => {
                let p = LAST_PANIC.lock().unwrap().take();
                Err(p.map_or("panic".into(), |(m, l)| format!("{m} at {l}")))
            }
        }
    }
    /// The call must panic.
    pub fn panics<T>(&mut self, label: &str, f: impl FnOnce() -> T) {
        self.count(label);
        self.expected_panics += 1;
        if Ck::guard(f).is_ok() {
            self.fail(label, "returned where it must panic".into());
        }
    }
    /// The call must not panic.
    pub fn ok<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        match Ck::guard(f) {
            Ok(x) => Some(x),
            Err(m) => {
                self.count(label);
                self.fail(label, format!("unexpected panic: {m}"));
                None
            }
        }
    }
    /// The call must panic exactly when `panic` holds.
    pub fn iff<T>(&mut self, label: &str, panic: bool, f: impl FnOnce() -> T) -> Option<T> {
        if panic {
            self.panics(label, f);
            None
        } else {
            self.ok(label, f)
        }
    }
    /// UBig result or panic (want = None).
    pub fn u_or_panic(&mut self, label: &str, want: Option<&Nat>, f: impl FnOnce() -> UBig) {
        match want {
            None => self.panics(label, f),
            Some(w) => {
                if let Some(g) = self.ok(label, f) {
                    self.u(label, &g, w);
                }
            }
        }
    }
    pub fn i_or_panic(&mut self, label: &str, want: Option<&Int>, f: impl FnOnce() -> IBig) {
        match want {
            None => self.panics(label, f),
            Some(w) => {
                if let Some(g) = self.ok(label, f) {
                    self.i(label, &g, w);
                }
            }
        }
    }
    /// Record an event for the offline checker. `f` gives "op arg.. = result..".
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.case % self.log_every != 0 {
            return;
        }
        let case = self.case;
        if let Some(l) = &mut self.log {
            if self.logged < 40000 {
                let _ = writeln!(l, "{case} {}", f());
                self.logged += 1;
            }
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some() && self.case % self.log_every == 0
    }
}

pub fn short_str(s: &str) -> String {
    let n = s.chars().count();
    if n <= 600 {
        s.to_string()
    } else {
        let a: String = s.chars().take(280).collect();
        let b: String = s.chars().skip(n - 280).collect();
        format!("{a}...{b} ({n} chars)")
    }
}

pub fn hx(x: &UBig) -> String {
    nat(x).hex()
}
pub fn hxi(x: &IBig) -> String {
    int(x).hex()
}

/// Unwrap a result of the library that must be a success: a failure is an observation, not a harness error.
pub trait Must<T> {
    fn must(self, what: &str) -> T;
}
impl<T, E: Debug> Must<T> for Result<T, E> {
    fn must(self, what: &str) -> T {
        match self {
            Ok(x) => x,
            Err(e) => panic!("LIB: {what}: unexpected error {e:?}"),
        }
    }
}
impl<T> Must<T> for Option<T> {
    fn must(self, what: &str) -> T {
        match self {
            Some(x) => x,
            None => panic!("LIB: {what}: unexpected None"),
        }
    }
}
