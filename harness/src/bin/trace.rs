//! A program whose observable behaviour must not depend on the platform: runs scenarios over the whole API and prints one
//! digest per case (C28 compares them between builds), checking identities as it goes. It is light enough for the
//! undefined-behaviour interpreter (C25).
use ibig::ops::*;
use ibig::{IBig, ModuloRing, UBig};
use mon::ck::LAST_PANIC;
use mon::Rng;
use rand::distributions::uniform::Uniform;
use rand::distributions::Distribution;
use serde::{Deserialize, Serialize};
use std::fmt::{Debug, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Tr {
    h: u64,
    full: bool,
    events: u64,
}
impl Tr {
    fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.h = (self.h ^ 0x1ff).wrapping_mul(0x100000001b3);
        self.events += 1;
    }
    fn s(&mut self, l: &str, x: &str) {
        self.bytes(x.as_bytes());
        if self.full {
            println!("  {l} {x}");
        }
    }
    fn d(&mut self, l: &str, x: impl Debug) {
        let t = format!("{x:?}");
        self.s(l, &t)
    }
    fn u(&mut self, l: &str, x: &UBig) {
        let b = x.to_le_bytes();
        self.bytes(&b);
        if self.full {
            println!("  {l} {x:x}");
        }
    }
    fn i(&mut self, l: &str, x: &IBig) {
        self.bytes(&[(*x < IBig::from(0u8)) as u8]);
        let b = x.unsigned_abs().to_le_bytes();
        self.bytes(&b);
        if self.full {
            println!("  {l} {x:x}");
        }
    }
    /// A call that may panic: whether it did is part of the behaviour.
    fn call<T>(&mut self, l: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                let _ = LAST_PANIC.lock().unwrap().take();
                self.s(l, "panic");
                None
            }
        }
    }
    fn check(&mut self, l: &str, c: bool) {
        if !c {
            panic!("IDENTITY {l}");
        }
    }
}

/// Bit lengths around the word sizes of all platforms.
fn bits(r: &mut Rng, max: usize) -> usize {
    let n = match r.usize(6) {
        0 => r.usize(20),
        1 => (16 * r.usize(max / 16 + 1) + r.usize(3)).saturating_sub(1),
        2 => (64 * r.usize(max / 64 + 1) + r.usize(3)).saturating_sub(1),
        _ => r.usize(max + 1),
    };
    n.min(max)
}
fn num(r: &mut Rng, n: usize) -> UBig {
    if n == 0 {
        return UBig::from(0u8);
    }
    let len = n.div_ceil(8);
    let style = r.usize(6);
    let mut b: Vec<u8> = (0..len)
        .map(|_| match style {
            0 => 0,
            1 => 255,
            2 => *r.pick(&[0, 255, 0, 255, 1, 128]),
            3 if r.chance(3, 4) => 0,
            _ => r.u32() as u8,
        })
        .collect();
    let top = (n - 1) % 8;
    b[len - 1] = b[len - 1] & ((1u16 << (top + 1)) - 1) as u8 | 1 << top;
    if style == 0 && r.bool() {
        b[0] |= 1;
    }
    UBig::from_le_bytes(&b)
}
fn un(r: &mut Rng, max: usize) -> UBig {
    let n = bits(r, max);
    num(r, n)
}
fn sn(r: &mut Rng, max: usize) -> IBig {
    let x = IBig::from(un(r, max));
    if r.bool() {
        -x
    } else {
        x
    }
}
fn one() -> UBig {
    UBig::from(1u8)
}

struct Src(Rng);
impl rand::RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|x| *x = self.0.u32() as u8)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A binary operator in one of its owned, borrowed and in-place forms.
macro_rules! form {
    ($r:expr, $a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = (&$a, &$b);
        match $r.usize(6) {
            0 => a.clone() $op b.clone(),
            1 => a.clone() $op b,
            2 => a $op b.clone(),
            3 => a $op b,
            4 => {
                let mut x = a.clone();
                x $opa b.clone();
                x
            }
            _ => {
                let mut x = a.clone();
                x $opa b;
                x
            }
        }
    }};
}
macro_rules! meth {
    ($r:expr, $a:expr, $b:expr, $f:ident) => {{
        let (a, b) = (&$a, &$b);
        match $r.usize(4) {
            0 => a.clone().$f(b.clone()),
            1 => a.clone().$f(b),
            2 => a.$f(b.clone()),
            _ => a.$f(b),
        }
    }};
}
fn forms(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, b) = (un(r, m), un(r, m));
    t.u("u+", &form!(r, a, b, +, +=));
    if let Some(x) = t.call("u-", || form!(r, a, b, -, -=)) {
        t.u("u-", &x);
    }
    t.u("u*", &form!(r, a, b, *, *=));
    if let Some(x) = t.call("u/", || form!(r, a, b, /, /=)) {
        t.u("u/", &x);
        t.u("u%", &form!(r, a, b, %, %=));
        let (q, w) = meth!(r, a, b, div_rem);
        t.u("q", &q);
        t.u("r", &w);
        t.u("div_euclid", &meth!(r, a, b, div_euclid));
        t.u("rem_euclid", &meth!(r, a, b, rem_euclid));
    }
    t.u("u&", &form!(r, a, b, &, &=));
    t.u("u|", &form!(r, a, b, |, |=));
    t.u("u^", &form!(r, a, b, ^, ^=));
    t.u("and_not", &meth!(r, a, b, and_not));
    let s = r.usize(200);
    t.u("u<<", &form!(r, a, s, <<, <<=));
    t.u("u>>", &form!(r, a, s, >>, >>=));
    let (i, j) = (sn(r, m), sn(r, m));
    t.i("i+", &form!(r, i, j, +, +=));
    t.i("i-", &form!(r, i, j, -, -=));
    t.i("i*", &form!(r, i, j, *, *=));
    if let Some(x) = t.call("i/", || form!(r, i, j, /, /=)) {
        t.i("i/", &x);
        t.i("i%", &form!(r, i, j, %, %=));
        let (q, w) = meth!(r, i, j, div_rem);
        t.i("q", &q);
        t.i("r", &w);
        let (q, w) = meth!(r, i, j, div_rem_euclid);
        t.i("eq", &q);
        t.i("er", &w);
        t.i("div_euclid", &meth!(r, i, j, div_euclid));
        t.i("rem_euclid", &meth!(r, i, j, rem_euclid));
    }
    t.i("i&", &form!(r, i, j, &, &=));
    t.i("i|", &form!(r, i, j, |, |=));
    t.i("i^", &form!(r, i, j, ^, ^=));
    t.i("and_not", &meth!(r, i, j, and_not));
    t.i("i<<", &form!(r, i, s, <<, <<=));
    t.i("i>>", &form!(r, i, s, >>, >>=));
    t.i("-", &-&i);
    t.i("!", &!&i);
    t.i("abs", &i.clone().abs());
    t.u("unsigned_abs", &i.clone().unsigned_abs());
    let (p, q) = (r.u128() >> r.usize(128), r.u128() as i128 >> r.usize(128));
    macro_rules! prim {
        ($($ty:ident $v:expr),*) => {{$({
            let v = $v as $ty;
            t.i(concat!("i+ ", stringify!($ty)), &form!(r, i, v, +, +=));
            t.i(concat!("i- ", stringify!($ty)), &form!(r, i, v, -, -=));
            t.i(concat!("i* ", stringify!($ty)), &form!(r, i, v, *, *=));
            t.u(concat!("u+ ", stringify!($ty)), &form!(r, a, (v & 0x3f), +, +=));
            if let Some(x) = t.call("i/", || form!(r, i, v, /, /=)) {
                t.i(concat!("i/ ", stringify!($ty)), &x);
                t.d(concat!("i% ", stringify!($ty)), &i % v);
                t.d(concat!("i%e ", stringify!($ty)), (&i).rem_euclid(v));
            }
            if let Some(x) = t.call("u-", || form!(r, a, v, -, -=)) {
                t.u(concat!("u- ", stringify!($ty)), &x);
            }
            if let Some(x) = t.call("u*", || v * &a) {
                t.u(concat!("u* ", stringify!($ty)), &x);
            }
            t.i(concat!("i^ ", stringify!($ty)), &form!(r, i, v, ^, ^=));
            t.i(concat!("i| ", stringify!($ty)), &form!(r, i, v, |, |=));
            t.i(concat!(stringify!($ty), " -i"), &(v - &i));
        })*}};
    }
    match r.usize(5) {
        0 => prim!(u8 p, i8 q),
        1 => prim!(u16 p, i16 q),
        2 => prim!(u32 p, i32 q),
        3 => prim!(u64 p, i64 q),
        _ => prim!(u128 p, i128 q),
    }
    // rings of one, two and more words
    let n = un(r, m.min(900)) + one();
    let ring = ModuloRing::new(&n);
    let (x, y) = (ring.from(&a), ring.from(&j));
    t.u("m+", &form!(r, x, y, +, +=).residue());
    t.u("m-", &form!(r, x, y, -, -=).residue());
    t.u("m- back", &form!(r, y, x, -, -=).residue());
    t.u("m*", &form!(r, x, y, *, *=).residue());
    t.u("-m", &(-&x).residue());
    if m < 500 {
        if let Some(z) = t.call("m/", || form!(r, x, y, /, /=)) {
            t.u("m/", &z.residue());
        }
        if let Some(z) = t.call("pow_signed", || x.pow_signed(&IBig::from(q as i16))) {
            t.u("pow_signed", &z.residue());
        }
    }
    t.d("m==", (x == y, x == ring.from(&a), ring.from(&a) + ring.from(&j) == ring.from(IBig::from(a) + j)));
}

fn addsub(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, b) = (un(r, m), un(r, m));
    let s = &a + &b;
    t.u("+", &s);
    t.check("a+b-b", &s - &b == a);
    let d = t.call("-", || &a - &b);
    if let Some(d) = d {
        t.u("-", &d);
        t.check("a-b+b", d + &b == a);
    }
    let mut x = a.clone();
    for _ in 0..4 {
        let c = un(r, m);
        x += &c;
        x += c.clone();
        x -= c;
    }
    t.u("chain", &x);
    let (i, j) = (sn(r, m), sn(r, m));
    t.i("i+i", &(&i + &j));
    t.i("i-i", &(i.clone() - &j));
    let mut k = i.clone();
    k -= j.clone();
    k += 12345u16;
    k -= -7i8;
    t.i("chain", &k);
    t.check("signed", k - IBig::from(12352) + j == i);
}
fn mul(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, b) = (un(r, m), un(r, m));
    let p = &a * &b;
    t.u("*", &p);
    if b != UBig::from(0u8) {
        t.check("a*b/b", &p / &b == a);
        t.check("a*b%b", &p % &b == UBig::from(0u8));
    }
    let mut q = a.clone();
    q *= b.clone();
    t.check("*=", q == p);
    t.u("square", &(&a * &a));
    t.i("i*i", &(sn(r, m / 2) * sn(r, m / 2)));
    let e = r.usize(5);
    if m < 3000 {
        t.u("pow", &a.pow(e));
        t.i("ipow", &sn(r, m / 3).pow(e));
    }
}
fn div(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, b) = (un(r, 2 * m), un(r, m));
    if let Some((q, w)) = t.call("div_rem", || (&a).div_rem(&b)) {
        t.u("q", &q);
        t.u("r", &w);
        t.check("r<b", w < b);
        t.check("q*b+r", &q * &b + &w == a);
        let mut x = a.clone();
        x /= &b;
        t.check("/=", x == q);
        x = a.clone();
        x %= b.clone();
        t.check("%=", x == w);
    }
    let (i, j) = (sn(r, 2 * m), sn(r, m));
    if let Some((q, w)) = t.call("i div_rem", || (&i).div_rem(&j)) {
        t.i("q", &q);
        t.i("r", &w);
        let (q, w) = i.clone().div_rem_euclid(j.clone());
        t.i("eq", &q);
        t.i("er", &w);
        t.check("euclid", &q * &j + &w == i && w >= IBig::from(0));
    }
    let d = (r.u64() >> r.usize(64)) as u32;
    if let Some((q, w)) = t.call("by u32", || (&a).div_rem(d)) {
        t.u("q", &q);
        t.d("r", w);
    }
}
fn text(r: &mut Rng, t: &mut Tr, m: usize) {
    // digits of base 2 are read in base 16 below: stay far from the limit of 16-bit words
    let m = m.min(12000);
    let i = sn(r, m);
    let a = un(r, m);
    let radix = r.range(2, 36) as u32;
    let s = a.in_radix(radix).to_string();
    t.s("radix", &s);
    t.check("parse", UBig::from_str_radix(&s, radix) == Ok(a.clone()));
    let s = i.to_string();
    t.s("display", &s);
    t.check("parse", s.parse::<IBig>() == Ok(i.clone()));
    t.s("#x", &format!("{:#x} {:#X} {:#o} {:+#b}", i, a, i, a.clone() & UBig::from(0xffffu32)));
    t.s("pad", &format!("{:>+40} {:<#30x} {:^35} {:#040b} {:-^9?}", i, a, i, a.clone() % 1000u32, i));
    t.d("debug", (&i, &a));
    let mut z = format!("{}{}", "0".repeat(r.usize(40)), a.in_radix(radix));
    if r.bool() {
        let at = r.usize(z.len());
        z.replace_range(at..at + 1, r.pick(&["_", " ", "\u{e9}", "Z", "/", ":", "@", "[", "`", "{"]));
    }
    t.d("bad", UBig::from_str_radix(&z, radix).map_err(|e| (e, e.to_string())));
    let none = *r.pick(&["", "+", "-", "0x", "-0b", "+0o", "0x+", "_", "-_", "--1", "+-1", "0b2", "0o", "0xg", "\u{b0}"]);
    t.d("no digits", UBig::from_str_radix(none, radix).map_err(|e| (e, e.to_string())));
    t.d("no digits", none.parse::<IBig>().map_err(|e| (e, e.to_string())));
    t.d("no digits", UBig::from_str_with_radix_prefix(none).map_err(|e| (e, e.to_string())));
    t.d("no digits", IBig::from_str_with_radix_prefix(none).map_err(|e| (e, e.to_string())));
    t.d("out of bounds", u64::try_from(&a).map_err(|e| (e, e.to_string())));
    t.d("out of bounds", i16::try_from(&i).map_err(|e| (e, e.to_string())));
    t.d("out of bounds", UBig::try_from(&i).map_err(|e| (e, e.to_string())));
    t.d("out of bounds", UBig::try_from(-3i8).map_err(|e| (e, e.to_string())));
    t.d("bad prefix", IBig::from_str_with_radix_prefix(&format!("{}{}", r.pick(&["-0x", "0b", "+0o", "-", "", "0x+"]), z)).map_err(|e| e.to_string()));
    // a writer that gives up
    struct Q(usize);
    impl std::fmt::Write for Q {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            // `from_utf8` on the raw bytes: a string that is not UTF-8 is undefined behaviour the interpreter does not see
            if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
                panic!("INVALID UTF-8 {:x?}", s.as_bytes());
            }
            self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
            Ok(())
        }
    }
    t.d("quota", write!(Q(r.usize(60)), "{i}").is_ok());
    t.d("quota", write!(Q(r.usize(2000)), "{} {i:o} {a:X} {:>#70b}", a.in_radix(radix), &a & 0xffffu16).is_ok());
}
fn bytes(r: &mut Rng, t: &mut Tr, m: usize) {
    let a = un(r, m);
    let (le, be) = (a.to_le_bytes(), a.to_be_bytes());
    t.d("le", &le);
    t.d("be", &be);
    let mut p = le.clone();
    p.extend(vec![0; r.usize(20)]);
    t.check("le", UBig::from_le_bytes(&p) == a);
    p.reverse();
    t.check("be", UBig::from_be_bytes(&p) == a);
    let n = r.usize(30);
    let raw: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
    t.u("raw le", &UBig::from_le_bytes(&raw));
    t.u("raw be", &UBig::from_be_bytes(&raw));
}
fn shifts(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, i) = (un(r, m), sn(r, m));
    let s = r.usize(300);
    t.u("<<", &(&a << s));
    t.u(">>", &(&a >> s));
    t.i("i<<", &(i.clone() << s));
    t.i("i>>", &(&i >> s));
    t.check("shift", (a.clone() << s) >> s == a);
    let mut x = a.clone();
    x <<= s;
    x >>= s + 1;
    t.u("chain", &x);
    let mut k = i;
    k >>= s;
    k <<= 3;
    t.i("chain", &k);
    t.u("far", &(&a >> (usize::MAX - s)));
    t.i("far", &(&k >> (usize::MAX - s)));
}
fn bitops(r: &mut Rng, t: &mut Tr, m: usize) {
    let (a, b) = (un(r, m), un(r, m));
    t.u("&", &(&a & &b));
    t.u("|", &(a.clone() | &b));
    t.u("^", &(&a ^ b.clone()));
    t.u("and_not", &a.clone().and_not(&b));
    let (i, j) = (sn(r, m), sn(r, m));
    t.i("&", &(&i & j.clone()));
    t.i("|", &(i.clone() | &j));
    t.i("^", &(i.clone() ^ j.clone()));
    t.i("!", &!i.clone());
    t.i("and_not", &(&i).and_not(&j));
    t.check("a+b = (a^b) + 2(a&b)", &i + &j == (&i ^ &j) + ((&i & &j) << 1usize));
    let mut x = a.clone();
    for _ in 0..6 {
        let n = r.usize(m + 200);
        if r.bool() {
            x.set_bit(n)
        } else {
            x.clear_bit(n)
        }
        t.d("bit", (x.bit(n), x.bit_len(), x.trailing_zeros(), x.is_power_of_two()));
    }
    t.u("bits", &x);
    t.u("np2", &x.next_power_of_two());
    t.d("tz", j.trailing_zeros());
    t.d("prim", (&a & 0xf0f0u16, &b & u64::MAX, (&i & 0x7fu8)));
}
fn gcd(r: &mut Rng, t: &mut Tr, m: usize) {
    let m = m.min(700);
    let (a, b) = (un(r, m), un(r, m));
    if let Some(g) = t.call("gcd", || a.gcd(&b)) {
        t.u("gcd", &g);
    }
    if let Some((g, x, y)) = t.call("xgcd", || a.extended_gcd(&b)) {
        t.u("g", &g);
        // the coefficients are not unique in general: only the identity is platform-independent by promise
        t.check("bezout", &x * IBig::from(&a) + &y * IBig::from(&b) == IBig::from(g));
    }
    let (i, j) = (sn(r, m / 2), sn(r, m / 2));
    if let Some(g) = t.call("igcd", || i.gcd(&j)) {
        t.i("igcd", &g);
    }
}
fn modular(r: &mut Rng, t: &mut Tr, m: usize) {
    let m = m.min(1500);
    let n = un(r, m);
    let n2 = un(r, m);
    let ring = match t.call("ring", || ModuloRing::new(&n)) {
        Some(x) => x,
        None => return,
    };
    let other = ModuloRing::new(&(n2 + one()));
    t.u("modulus", &ring.modulus());
    let (i, j) = (sn(r, 2 * m), sn(r, m));
    let (x, y) = (ring.from(&i), ring.from(j.clone()));
    t.u("+", &(&x + &y).residue());
    t.u("-", &(&x - &y).residue());
    t.u("*", &(x.clone() * &y).residue());
    t.u("neg", &(-x.clone()).residue());
    t.s("fmt", &format!("{x} {y:x}"));
    let mut z = y.clone();
    z *= &x;
    z += &y;
    z -= x.clone();
    t.check("ring", z.residue() == ring.from(&i * &j + &j - &i).residue());
    let e = un(r, 70);
    t.u("pow", &x.pow(&e).residue());
    if m < 500 {
        t.d("inverse", x.inverse().map(|v| v.residue()));
    }
    let w = other.from(r.u64() as i64);
    t.call("mixed", || &x + &w);
    t.call("mixed ==", || x == w);
    // copies into used values of the same and the other ring
    let mut c = w.clone();
    c.clone_from(&x);
    t.u("clone_from", &c.residue());
    c.clone_from(&w);
    t.u("clone_from", &c.residue());
    t.check("clone_from", c == w);
    t.u("prims", &(ring.from(u128::MAX) + ring.from(-1i8) * ring.from(true)).residue());
}
fn ser(r: &mut Rng, t: &mut Tr, m: usize) {
    let m = m.min(2000);
    let (a, i) = (un(r, m), sn(r, m));
    let b = bincode::serialize(&i).unwrap();
    t.d("bincode", &b);
    t.check("bincode", bincode::deserialize::<IBig>(&b).unwrap() == i);
    let cut = r.usize(b.len());
    t.d("cut", bincode::deserialize::<IBig>(&b[..cut]).is_ok());
    let b = bincode::serialize(&a).unwrap();
    t.check("bincode", bincode::deserialize::<UBig>(&b).unwrap() == a);
    let mut bad = b.clone();
    let k = r.usize(bad.len().min(8));
    bad[k] ^= 1 << r.usize(8);
    let _ = bincode::deserialize::<UBig>(&bad);
    if m < 600 {
        let s = serde_json::to_string(&(&a, &i)).unwrap();
        t.s("json", &s);
        let (x, y): (UBig, IBig) = serde_json::from_str(&s).unwrap();
        t.check("json", x == a && y == i);
    }
    let words: Vec<u64> = (0..r.usize(5)).map(|_| *r.pick(&[0, 1, u64::MAX, 1 << 63])).collect();
    let d = serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(words.into_iter());
    t.u("words", &UBig::deserialize(d).unwrap());
    let mut w = vec![];
    a.serialize(&mut serde_json::Serializer::new(&mut w)).unwrap();
    t.d("io", w.len());
}
fn random(r: &mut Rng, t: &mut Tr, m: usize) {
    let lo = un(r, m);
    let hi = &lo + un(r, m) + one();
    let mut s = Src(Rng::new(r.u64()));
    for _ in 0..3 {
        let x = Uniform::new(&lo, &hi).sample(&mut s);
        t.check("in range", x >= lo && x < hi);
        let x = Uniform::new_inclusive(&lo, &hi).sample(&mut s);
        t.check("in range", x >= lo && x <= hi);
        let (l, h) = (-IBig::from(hi.clone()), IBig::from(lo.clone()));
        let x = Uniform::new(&l, &(&h + 1)).sample(&mut s);
        t.check("in range", x >= l && x <= h);
    }
    t.call("empty", || Uniform::new(&hi, &lo));
    // a range of one value has one outcome on every platform
    t.u("single", &Uniform::new_inclusive(&lo, &lo).sample(&mut s));
}
fn order(r: &mut Rng, t: &mut Tr, m: usize) {
    let mut v: Vec<IBig> = (0..6).map(|_| sn(r, m)).collect();
    let a = v[0].clone();
    v.push(&a + 1);
    v.push(-a);
    v.sort();
    for x in &v {
        t.i("sorted", x);
    }
    let (x, y) = (un(r, m), un(r, m));
    t.d("cmp", (x.cmp(&y), x == y, x.clone().max(y.clone()).bit_len()));
    let mut z = un(r, m);
    z.clone_from(&x);
    t.check("clone_from", z == x);
    let w = std::mem::take(&mut z);
    t.check("take", z == UBig::default() && w == x);
    let mut l = vec![x, y, w];
    l.swap(0, 2);
    l.dedup();
    t.d("dedup", l.len());
    let h: std::collections::HashSet<UBig> = l.iter().cloned().collect();
    t.d("set", l.iter().all(|x| h.contains(x)));
}
fn prims(r: &mut Rng, t: &mut Tr, m: usize) {
    let max = *r.pick(&[9, 17, 33, 64, 65, 66, 128, 130, m]);
    let (a, i) = (un(r, max), sn(r, max));
    macro_rules! to {
        ($($t:ty)*) => {$(
            t.d(stringify!($t), (<$t>::try_from(&a).ok(), <$t>::try_from(&i).ok(), <$t>::try_from(i.clone()).ok()));
        )*};
    }
    to!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
    t.d("ubig", UBig::try_from(&i).map_err(|e| e.to_string()));
    let p = r.u128() >> r.usize(128);
    t.u("u128", &UBig::from(p));
    t.i("i128", &IBig::from(p as i128));
    t.i("i8", &IBig::from(p as i8));
    t.d("f", (a.to_f32().to_bits(), a.to_f64().to_bits(), i.to_f32().to_bits(), i.to_f64().to_bits()));
    t.i("mixed", &(&i + p as i64 - p as u8));
    t.call("u - i64", || &a - (p as i32));
    t.i("signum", &i.signum());
    t.i("abs", &(&i).abs());
    t.u("unsigned_abs", &i.unsigned_abs());
}
fn limits(r: &mut Rng, t: &mut Tr, m: usize) {
    let a = un(r, m);
    t.call("/0", || &a / UBig::from(0u8));
    t.call("%0", || &a % 0u64);
    t.call("radix", || a.in_radix(r.usize(40) as u32).to_string());
    t.call("parse radix", || UBig::from_str_radix("1", 37));
    t.call("sub", || UBig::from(3u8) - UBig::from(4u8));
    t.call("gcd", || UBig::from(0u8).gcd(&UBig::from(0u8)));
    let mut x = a.clone();
    t.call("-=", || x -= &a + one());
    t.check("target valid", &x + one() > x);
    x = a.clone();
    t.check("usable", x == a);
    let ring = ModuloRing::new(&UBig::from(30u8));
    t.call("div", || ring.from(7) / ring.from(6));
    t.u("div", &(ring.from(7) / ring.from(7)).residue());
    t.call("neg pow", || ring.from(2).pow_signed(&IBig::from(-1)));
}

const SC: &[(&str, fn(&mut Rng, &mut Tr, usize))] = &[
    ("addsub", addsub),
    ("mul", mul),
    ("div", div),
    ("text", text),
    ("bytes", bytes),
    ("shifts", shifts),
    ("bitops", bitops),
    ("gcd", gcd),
    ("modular", modular),
    ("ser", ser),
    ("random", random),
    ("order", order),
    ("prims", prims),
    ("limits", limits),
    ("forms", forms),
];

fn main() {
    mon::runner::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map_or(d, |v| v.parse().unwrap());
    let (seed, first, step, cases) = (num("--seed", 1), num("--first", 0), num("--step", 1), num("--cases", 14));
    let big_every = num("--big-every", 6);
    let big = num("--big", 3000) as usize;
    let small = num("--small", 700) as usize;
    let full = args.iter().any(|a| a == "--full");
    let secs = num("--max-secs", 100000);
    let start = std::time::Instant::now();
    let mut c = first;
    let mut events = 0;
    let mut bad = 0;
    for n in 0..cases {
        if n > 0 && start.elapsed().as_secs() >= secs {
            println!("capped after {n}");
            break;
        }
        let mut r = Rng::new(refmodel::rng::mix(&[seed, 0x7ace, c]));
        let (name, f) = SC[(c % SC.len() as u64) as usize];
        let m = if r.chance(1, big_every) { big } else { small };
        let mut t = Tr { h: 0xcbf29ce484222325, full, events: 0 };
        if full {
            println!("case {c} {name}");
        }
        eprintln!("case {c} {name}");
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut r, &mut t, m)));
        events += t.events;
        if res.is_err() {
            let (msg, loc) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            println!("{c} {name} FAIL {msg} at {loc}");
            bad += 1;
        } else {
            println!("{c} {name} {:016x} {}", t.h, t.events);
        }
        c += step;
    }
    println!("events {events}");
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
