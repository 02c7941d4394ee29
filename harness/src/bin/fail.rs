//! C23 calls fail exactly where documented, C24 failures part-way leave only valid values.
#![cfg_attr(oom_hook, feature(alloc_error_hook))]
use ibig::error::{OutOfBoundsError, ParseError};
use ibig::ops::*;
use ibig::ModuloRing;
use mon::alloc::*;
use mon::soup::{valid_i, valid_u};
use mon::*;
use rand::distributions::Uniform;
use rand::Rng as _;
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C23

fn div_forms_u(ck: &mut Ck, a: &UBig, b: &UBig, zero: bool) {
    macro_rules! t {
        ($l:expr, $e:expr) => {
            if let Some(_x) = ck.iff($l, zero, || $e) {
                ck.t($l, true)
            }
        };
    }
    t!("u / u", a.clone() / b.clone());
    t!("u / &u", a.clone() / b);
    t!("&u / u", a / b.clone());
    t!("&u / &u", a / b);
    t!("u % u", a.clone() % b.clone());
    t!("u % &u", a.clone() % b);
    t!("&u % u", a % b.clone());
    t!("&u % &u", a % b);
    t!("u.div_rem(u)", a.clone().div_rem(b.clone()));
    t!("u.div_rem(&u)", a.clone().div_rem(b));
    t!("&u.div_rem(u)", a.div_rem(b.clone()));
    t!("&u.div_rem(&u)", a.div_rem(b));
    t!("u.div_euclid(&u)", a.clone().div_euclid(b));
    t!("&u.div_euclid(u)", a.div_euclid(b.clone()));
    t!("&u.rem_euclid(&u)", a.rem_euclid(b));
    t!("u.rem_euclid(u)", a.clone().rem_euclid(b.clone()));
    t!("u.div_rem_euclid(u)", a.clone().div_rem_euclid(b.clone()));
    t!("&u.div_rem_euclid(&u)", a.div_rem_euclid(b));
    t!("u /= u", {
        let mut x = a.clone();
        x /= b.clone();
        x
    });
    t!("u /= &u", {
        let mut x = a.clone();
        x /= b;
        x
    });
    t!("u %= u", {
        let mut x = a.clone();
        x %= b.clone();
        x
    });
    t!("u %= &u", {
        let mut x = a.clone();
        x %= b;
        x
    });
}
fn div_forms_i(ck: &mut Ck, a: &IBig, b: &IBig, zero: bool) {
    macro_rules! t {
        ($l:expr, $e:expr) => {
            if let Some(_x) = ck.iff($l, zero, || $e) {
                ck.t($l, true)
            }
        };
    }
    t!("i / i", a.clone() / b.clone());
    t!("i / &i", a.clone() / b);
    t!("&i / i", a / b.clone());
    t!("&i / &i", a / b);
    t!("i % i", a.clone() % b.clone());
    t!("i % &i", a.clone() % b);
    t!("&i % i", a % b.clone());
    t!("&i % &i", a % b);
    t!("i.div_rem(i)", a.clone().div_rem(b.clone()));
    t!("i.div_rem(&i)", a.clone().div_rem(b));
    t!("&i.div_rem(i)", a.div_rem(b.clone()));
    t!("&i.div_rem(&i)", a.div_rem(b));
    t!("i.div_euclid(&i)", a.clone().div_euclid(b));
    t!("&i.div_euclid(i)", a.div_euclid(b.clone()));
    t!("i.div_euclid(i)", a.clone().div_euclid(b.clone()));
    t!("&i.div_euclid(&i)", a.div_euclid(b));
    t!("&i.rem_euclid(&i)", a.rem_euclid(b));
    t!("i.rem_euclid(i)", a.clone().rem_euclid(b.clone()));
    t!("i.rem_euclid(&i)", a.clone().rem_euclid(b));
    t!("&i.rem_euclid(i)", a.rem_euclid(b.clone()));
    t!("i.div_rem_euclid(i)", a.clone().div_rem_euclid(b.clone()));
    t!("&i.div_rem_euclid(&i)", a.div_rem_euclid(b));
    t!("i.div_rem_euclid(&i)", a.clone().div_rem_euclid(b));
    t!("&i.div_rem_euclid(i)", a.div_rem_euclid(b.clone()));
    t!("i /= i", {
        let mut x = a.clone();
        x /= b.clone();
        x
    });
    t!("i /= &i", {
        let mut x = a.clone();
        x /= b;
        x
    });
    t!("i %= i", {
        let mut x = a.clone();
        x %= b.clone();
        x
    });
    t!("i %= &i", {
        let mut x = a.clone();
        x %= b;
        x
    });
}
macro_rules! div_prims {
    ($ck:expr, $a:expr, $p:expr, $($t:ty)*) => {$({
        let z = <$t>::default();
        let one = 1 as $t;
        for d in [z, one, <$t>::MAX, <$t>::MIN] {
            let zero = d == z;
            $ck.iff(concat!("/ ", stringify!($t)), zero, || $a / d);
            $ck.iff(concat!("% ", stringify!($t)), zero, || $a % d);
            $ck.iff(concat!("div_rem ", stringify!($t)), zero, || $a.div_rem(d));
            $ck.iff(concat!("/= ", stringify!($t)), zero, || { let mut x = $a.clone(); x /= d; x });
            $ck.iff(concat!("div_euclid ", stringify!($t)), zero, || $a.div_euclid(d));
            $ck.iff(concat!("rem_euclid ", stringify!($t)), zero, || $a.rem_euclid(d));
            $ck.iff(concat!("div_rem_euclid ", stringify!($t)), zero, || $a.div_rem_euclid(d));
        }
    })*};
}

fn c23(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 10) { 90 } else { 8 };
    let a = G.nat(r, max);
    let b = if r.chance(1, 3) { Nat::zero() } else { G.related(r, &a) };
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (k1, k2) = (r.usize(NU), r.usize(NU));
    let (x, y) = (hist_u(r, &a, k1), hist_u(r, &b, k2));
    let (xi, yi) = (
        if r.bool() { -IBig::from(x.clone()) } else { IBig::from(x.clone()) },
        if r.bool() { -IBig::from(y.clone()) } else { IBig::from(y.clone()) },
    );
    match r.usize(9) {
        0 => div_forms_u(ck, &x, &y, b.is_zero()),
        1 => div_forms_i(ck, &xi, &yi, b.is_zero()),
        2 => {
            // negative results
            let neg = a.lt(&b);
            ck.iff("u - u", neg, || x.clone() - y.clone());
            ck.iff("u - &u", neg, || x.clone() - &y);
            ck.iff("&u - u", neg, || &x - y.clone());
            ck.iff("&u - &u", neg, || &x - &y);
            ck.iff("u -= u", neg, || {
                let mut t = x.clone();
                t -= y.clone();
                t
            });
            ck.iff("u -= &u", neg, || {
                let mut t = x.clone();
                t -= &y;
                t
            });
            let d = r.u64() >> r.usize(64);
            let neg = a.lt(&Nat::from_u64(d));
            ck.iff("u - u64", neg, || &x - d);
            ck.iff("u + -d", neg, || &x + -(d as i128));
            ck.iff("u * -1", !a.is_zero(), || &x * -1i8);
            ck.iff("-1 * u", !a.is_zero(), || -1i64 * &x);
            ck.t("differences", true);
        }
        3 => {
            // radix
            let radix = match r.usize(5) {
                4 => {
                    let s = r.usize(40);
                    alias(r, s) as u32
                }
                0 => r.usize(2) as u32,
                1 => 37 + r.usize(300) as u32,
                2 => *r.pick(&[u32::MAX, 256, 1 << 16, 37, 64, 1 << 31]),
                _ => r.range(2, 36) as u32,
            };
            let bad = !(2..=36).contains(&radix);
            let s = *r.pick(&["0", "1", "", "-", "+", "zz", "10", "_", "\u{7f}", "-0"]);
            ck.inp_n("radix", radix as u128);
            ck.iff("UBig::from_str_radix", bad, || UBig::from_str_radix(s, radix).is_ok());
            ck.iff("IBig::from_str_radix", bad, || IBig::from_str_radix(s, radix).is_ok());
            ck.iff("UBig in_radix", bad, || x.in_radix(radix).to_string());
            ck.iff("IBig in_radix", bad, || xi.in_radix(radix).to_string());
            ck.t("radix", true);
        }
        4 => {
            // rings
            let z = b.is_zero();
            if let Some(ring) = ck.iff("ModuloRing::new", z, || ModuloRing::new(&y)) {
                let m = ring.from(&x);
                let g = a.gcd(&b);
                let unit = g.is_one();
                let d = ring.from(&xi);
                ck.iff("m / m", !unit, || &m / &d);
                ck.iff("m / m owned", !unit, || m.clone() / d.clone());
                ck.iff("m /= m", !unit, || {
                    let mut t = m.clone();
                    t /= &d;
                    t
                });
                let e = ib(&Int::new(true, G.nonzero(r, 2)));
                ck.iff("pow_signed negative", !unit, || m.pow_signed(&e));
                ck.ok("pow_signed positive", || m.pow_signed(&-e.clone()));
                let inv = ck.ok("inverse", || m.inverse().is_some());
                ck.eq("inverse exists", inv, Some(unit));
                ck.ok("0 / unit", || ring.from(0) / ring.from(1));
            } else {
                ck.panics("ModuloRing::new(0)", || ModuloRing::new(&UBig::default()));
            }
        }
        5 => {
            let z = a.is_zero() && b.is_zero();
            ck.iff("gcd", z, || x.gcd(&y));
            ck.iff("extended_gcd", z, || x.extended_gcd(&y));
            ck.iff("i gcd", z, || xi.gcd(&yi));
            ck.iff("i extended_gcd", z, || xi.extended_gcd(&yi));
            let zero = UBig::default();
            ck.panics("gcd(0, 0)", || zero.gcd(&UBig::from(0u8)));
            ck.panics("extended_gcd(0, 0)", || zero.extended_gcd(&UBig::from(0u8)));
            let zero = IBig::default();
            ck.panics("i gcd(0, 0)", || zero.gcd(&IBig::from(0u8)));
            ck.panics("i extended_gcd(0, 0)", || zero.extended_gcd(&IBig::from(0u8)));
        }
        6 => {
            // error kinds
            let kind = |s: &str| s.parse::<UBig>().err();
            ck.eq("empty", kind(""), Some(ParseError::NoDigits));
            ck.eq("plus", kind("+"), Some(ParseError::NoDigits));
            ck.eq("letter", kind("a"), Some(ParseError::InvalidDigit));
            let s = format!("{}x{}", a.to_radix(10), b.to_radix(10));
            ck.eq("inner letter", kind(&s), Some(ParseError::InvalidDigit));
            ck.eq("minus", IBig::from_str_radix("-", r.range(2, 36) as u32).err(), Some(ParseError::NoDigits));
            ck.eq("prefix only", UBig::from_str_with_radix_prefix(r.pick(&["0x", "0b", "+0o", "+"])).err(), Some(ParseError::NoDigits));
            for e in [ParseError::NoDigits, ParseError::InvalidDigit] {
                ck.t("printable", !e.to_string().is_empty() && !format!("{e:?}").is_empty());
                #[cfg(feature = "std")]
                {
                    let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
                    ck.t("printable boxed", !b.to_string().is_empty());
                }
            }
            ck.t("distinct messages", ParseError::NoDigits.to_string() != ParseError::InvalidDigit.to_string());
            if !a.is_zero() {
                let n = -IBig::from(x.clone());
                let e: Result<UBig, OutOfBoundsError> = UBig::try_from(&n);
                ck.t("negative to UBig", e.is_err());
                ck.t("printable", !e.unwrap_err().to_string().is_empty());
                ck.eq("negative to u8", u8::try_from(&n), Err(OutOfBoundsError));
            }
            if a.bit_len() > 128 {
                ck.eq("long to u128", u128::try_from(&x), Err(OutOfBoundsError));
                ck.eq("long to i128", i128::try_from(&x), Err(OutOfBoundsError));
                #[cfg(feature = "std")]
                {
                    let b: Box<dyn std::error::Error> = Box::new(u128::try_from(&x).unwrap_err());
                    ck.t("printable boxed", !b.to_string().is_empty() && !format!("{b:?}").is_empty());
                }
            }
        }
        7 => {
            div_prims!(ck, &x, d, u8 u16 u32 u64 u128 usize);
            div_prims!(ck, &xi, d, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
            ck.t("primitive divisors", true);
        }
        _ => {
            // nothing else panics: a random history with panicking calls included
            let mut s = Soup::new(r, G, 5, 40 * W);
            s.panics = true;
            for _ in 0..60 {
                s.step(r, ck);
            }
            s.verify(ck);
        }
    }
}

// ---------------------------------------------------------------- C24

/// Fails (by an error or a panic) after accepting some number of bytes.
struct Quota {
    left: usize,
    panic: bool,
    got: String,
}
impl std::fmt::Write for Quota {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            if self.panic {
                panic!("injected");
            }
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
struct Draws(Rng, usize);
impl Draws {
    fn tick(&mut self) {
        if self.1 == 0 {
            panic!("injected");
        }
        self.1 -= 1;
    }
}
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        self.tick();
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.tick();
        d.iter_mut().for_each(|x| *x = self.0.u32() as u8)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct Hashing(usize);
impl Hasher for Hashing {
    fn write(&mut self, b: &[u8]) {
        if self.0 < b.len() {
            panic!("injected");
        }
        self.0 -= b.len();
    }
    fn finish(&self) -> u64 {
        0
    }
}
/// io::Write for the serializers.
struct IoQuota(usize, bool);
impl std::io::Write for IoQuota {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            if self.1 {
                panic!("injected");
            }
            return Err(std::io::Error::from(std::io::ErrorKind::Other));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A sequence of words that fails at some element.
struct Words(Vec<u64>, usize, usize, bool);
impl Iterator for Words {
    type Item = Elem;
    fn next(&mut self) -> Option<Elem> {
        if self.1 == self.2 {
            if self.3 {
                panic!("injected");
            }
            self.1 += 1;
            return Some(Elem(None));
        }
        let x = self.0.get(self.1).copied();
        self.1 += 1;
        x.map(|x| Elem(Some(x)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len().saturating_sub(self.1);
        (n, Some(n))
    }
}
struct Elem(Option<u64>);
impl<'de> IntoDeserializer<'de, serde::de::value::Error> for Elem {
    type Deserializer = Elem;
    fn into_deserializer(self) -> Elem {
        self
    }
}
impl<'de> serde::Deserializer<'de> for Elem {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0 {
            Some(x) => v.visit_u64(x),
            None => Err(serde::de::Error::custom("injected")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// `f` fails somewhere inside; the heap must be as before afterwards.
fn no_leak<T>(ck: &mut Ck, label: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    let (l0, b0) = (live(), blocks());
    let r = Ck::guard(f).map(drop);
    let failed = r.is_err();
    let r = r.map_err(|m| m);
    // the message of a caught panic is the only thing allowed to be alive
    let extra = match &r {
        Err(m) => m.capacity() as i64,
        _ => 0,
    };
    let (l1, b1) = (live(), blocks());
    ck.t_msg("no memory left behind", b1 - b0 <= failed as i64 && l1 - l0 <= extra + 64, || {
        format!("{label}: {} bytes in {} blocks remain (panicked: {failed})", l1 - l0, b1 - b0)
    });
    r
}

fn caller_faults(r: &mut Rng, ck: &mut Ck) {
    let max = match r.usize(12) {
        0 => 300,
        1 => 60,
        _ => 10,
    };
    let v = G.int(r, max);
    ck.inp_i("value", &v);
    let x = ib(&v);
    let m = ub(&v.mag);
    let panic = r.bool();
    match r.usize(6) {
        0 | 1 => {
            let radix = r.range(2, 36) as u32;
            let which = r.usize(5);
            let full = match which {
                0 => v.to_radix(10),
                1 => format!("{:+#050x}", x),
                2 => format!("{:*^90b}", m),
                3 => v.to_radix(radix),
                _ => {
                    let k = r.usize(5);
                    let n = v.mag.add(&Nat::from_u64(2));
                    format!("{} (mod {})", if k > 4 { Nat::zero() } else { v.mag.clone() }.to_radix(10), n.to_radix(10))
                }
            };
            let left = match r.usize(4) {
                0 => 0,
                1 => full.len().saturating_sub(1),
                2 => full.len(),
                _ => r.usize(full.len() + 2),
            };
            ck.inp_n("quota", left as u128);
            let mut w = Quota { left, panic, got: String::with_capacity(full.len() + 16) };
            let (xr, mr) = (&x, &m);
            let wr = &mut w;
            let fits = left >= full.len();
            let mut ring_n = m.clone();
            ring_n += 2u8;
            let ring = ModuloRing::new(&ring_n);
            let elem = ring.from(mr);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match which {
                4 => write!(wr, "{elem}"),
                1 => write!(wr, "{xr:+#050x}"),
                2 => write!(wr, "{mr:*^90b}"),
                k => write!(wr, "{}", xr.in_radix(if k == 0 { 10 } else { radix })),
            }));
            ck.t_msg("a prefix of the text was written", full.starts_with(&w.got), || format!("wrote {:?} of {:?}", w.got, full));
            match res {
                Ok(Ok(())) => ck.t("complete", w.got == full && fits),
                Ok(Err(_)) => ck.t("the writer's error is returned", !fits && !panic),
                Err(_) => ck.t("the writer's panic comes through", !fits && panic),
            }
        }
        2 => {
            let h = G.nonzero(r, 12);
            let lo = ub(&v.mag);
            let hi = ub(&v.mag.add(&h));
            let k = r.usize(8);
            let seed = r.u64();
            let got = no_leak(ck, "gen_range", || Draws(Rng::new(seed), k).sample(Uniform::new(&lo, &hi)));
            if let Err(msg) = &got {
                ck.t("only the injected panic", msg.starts_with("injected"));
            }
            drop(got);
            let (lo, hi) = (-IBig::from(hi), -IBig::from(lo));
            let got = no_leak(ck, "IBig gen_range", || Draws(Rng::new(seed), k).sample(Uniform::new_inclusive(&lo, &hi)));
            if let Err(msg) = &got {
                ck.t("only the injected panic", msg.starts_with("injected"));
            }
            ck.u("bound unchanged", &UBig::try_from(-lo).must("bound"), &v.mag.add(&h));
        }
        3 => {
            let k = r.usize(40);
            let got = no_leak(ck, "hash", || {
                let mut h = Hashing(k);
                x.hash(&mut h);
            });
            if let Err(msg) = &got {
                ck.t("only the injected panic", msg.starts_with("injected"));
            }
        }
        4 => {
            // serializers
            let full = serde_json::to_string(&x).must("json");
            let k = r.usize(full.len() + 2);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut s = serde_json::Serializer::new(IoQuota(k, panic));
                x.serialize(&mut s)
            }));
            match res {
                Ok(Ok(())) => ck.t("complete", k >= full.len()),
                Ok(Err(_)) => ck.t("the error is returned", k < full.len() && !panic),
                Err(_) => ck.t("the panic comes through", k < full.len() && panic),
            }
            let full = bincode::serialize(&m).must("bincode");
            let k = r.usize(full.len() + 2);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bincode::serialize_into(IoQuota(k, panic), &m)));
            match res {
                Ok(Ok(())) => ck.t("complete", k >= full.len()),
                Ok(Err(_)) => ck.t("the error is returned", k < full.len() && !panic),
                Err(_) => ck.t("the panic comes through", k < full.len() && panic),
            }
        }
        _ => {
            // deserializers
            let w: Vec<u64> = v.mag.to_le().chunks(8).map(|c| c.iter().rev().fold(0, |a, b| a << 8 | *b as u64)).collect();
            let n = w.len();
            let k = r.usize(n + 2);
            let (l0, b0) = (live(), blocks());
            let words = Words(w, 0, k, panic);
            let res = Ck::guard(|| {
                let d = serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(words);
                UBig::deserialize(d)
            });
            // what came back may be alive: a number of the size of the value, or a message
            let (l1, b1) = (live(), blocks());
            let l1 = if matches!(res, Ok(Ok(_))) { l1 - (v.mag.bit_len() / 8 * 5 / 4) as i64 } else { l1 };
            match res {
                Ok(Ok(y)) => {
                    ck.t("complete", k >= n);
                    ck.u("deserialized", &y, &v.mag);
                }
                Ok(Err(e)) => {
                    ck.t("an error element is an error", k <= n && !panic);
                    drop(e);
                }
                Err(msg) => {
                    ck.t("the panic comes through", k <= n && panic && msg.starts_with("injected"));
                    drop(msg);
                }
            }
            ck.t_msg("no memory left behind", b1 <= b0 + 2 && l1 <= l0 + 1024, || format!("deserialize: {} bytes in {} blocks", l1 - l0, b1 - b0));
        }
    }
    ck.i("value unchanged", &x, &v);
    ck.u("value unchanged", &m, &v.mag);
    ck.t("value valid", valid_i(&x).is_ok() && valid_u(&m).is_ok());
}

/// Operations to interrupt by a refused allocation. Operands are borrowed or an in-place target.
const OPS: usize = 24;
fn op(k: usize, t: &mut UBig, a: &UBig, b: &UBig, s: usize) -> Option<UBig> {
    Some(match k {
        0 => a + b,
        1 => a * b,
        2 => a / b,
        3 => a % b,
        4 => a << s,
        5 => a.clone(),
        6 => a.gcd(b),
        7 => a.extended_gcd(b).0,
        8 => UBig::from_str_radix(&a.in_radix(7).to_string(), 7).ok()?,
        9 => a.pow(3),
        10 => ModuloRing::new(b).from(a).residue(),
        11 => ModuloRing::new(b).from(a).pow(a).residue(),
        12 => UBig::from_be_bytes(&a.to_le_bytes()),
        13 => {
            *t += b;
            return None;
        }
        14 => {
            *t *= b;
            return None;
        }
        15 => {
            *t /= b;
            return None;
        }
        16 => {
            *t %= b;
            return None;
        }
        17 => {
            *t <<= s;
            return None;
        }
        18 => {
            t.set_bit(s * 7);
            return None;
        }
        19 => {
            t.clone_from(a);
            return None;
        }
        20 => {
            *t |= b;
            return None;
        }
        21 => {
            *t ^= a.clone() * b;
            return None;
        }
        22 => {
            *t >>= s;
            return None;
        }
        _ => {
            *t = std::mem::take(t).next_power_of_two();
            return None;
        }
    })
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn alarm(secs: u32) -> u32;
}

struct Case {
    t: UBig,
    a: UBig,
    b: UBig,
    s: usize,
    tv: Nat,
    av: Nat,
    bv: Nat,
}
fn oom_case(r: &mut Rng) -> Case {
    let big = r.chance(1, 3);
    let g = |r: &mut Rng| if big { G.len(r, 90) } else { r.usize(6) + 1 };
    let (la, lb, lt) = (g(r), g(r), g(r));
    let (av, bv, tv) = (G.words(r, la.max(1)), G.words(r, lb.max(1)).add(&Nat::one()), G.words(r, lt.max(1)));
    Case { t: ub(&tv), a: ub(&av), b: ub(&bv), s: r.usize(6 * W), tv, av, bv }
}
/// After a refused allocation was survived: is everything still a valid number?
fn survivors(c: &Case) -> Result<(), String> {
    if nat(&c.a) != c.av || nat(&c.b) != c.bv {
        return Err("a shared operand changed".into());
    }
    valid_u(&c.a)?;
    valid_u(&c.b)?;
    valid_u(&c.t).map_err(|m| format!("target: {m}"))?;
    Ok(())
}
fn same(x: &Option<Nat>, got: &Option<UBig>) -> bool {
    match (x, got) {
        (None, None) => true,
        (Some(v), Some(g)) => nat(g) == *v,
        _ => false,
    }
}

/// In a child process, because the standard reaction to a refused allocation is to abort.
fn oom_fork(r: &mut Rng, ck: &mut Ck) {
    let mut c = oom_case(r);
    let k = r.usize(OPS);
    ck.inp("a", &c.av);
    ck.inp("b", &c.bv);
    ck.inp("t", &c.tv);
    ck.inp_n("op", k as u128);
    // Undisturbed, for the number of allocations and the right answer.
    let before = allocs();
    let mut t = c.t.clone();
    let mid = allocs();
    let want = op(k, &mut t, &c.a, &c.b, c.s);
    let n = (allocs() - mid) as i64;
    let _ = before;
    let want_t = nat(&t);
    let want = want.map(|x| nat(&x));
    let at = if n <= 1 || r.chance(1, 4) { n.max(1) } else { r.range(1, n as usize) as i64 };
    ck.inp_n("fail_at", at as u128);
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe {
            let fd = open(b"/dev/null\0".as_ptr() as *const _, 1);
            if fd >= 0 {
                dup2(fd, 2);
            }
            alarm(60);
        }
        fail_at(at);
        let (t, a, b, s) = (&mut c.t, &c.a, &c.b, c.s);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(k, t, a, b, s)));
        fail_at(0);
        let code = match res {
            Ok(got) => {
                if same(&want, &got) && nat(&c.t) == want_t && survivors(&c).is_ok() {
                    if failed() > 0 {
                        11
                    } else {
                        10
                    }
                } else {
                    20
                }
            }
            Err(_) => {
                if survivors(&c).is_ok() {
                    12
                } else {
                    21
                }
            }
        };
        unsafe { _exit(code) }
    }
    if pid < 0 {
        ck.errors.push("fork failed".into());
        return;
    }
    let mut st = 0i32;
    if unsafe { waitpid(pid, &mut st, 0) } != pid {
        ck.errors.push("waitpid failed".into());
        return;
    }
    let (sig, code) = (st & 0x7f, (st >> 8) & 0xff);
    match (sig, code) {
        (6, _) => ck.t("refused allocation: orderly abort", true),
        (0, 10) => ck.t("all allocations granted", true),
        (0, 11) => ck.t("refused allocation: right result all the same", true),
        (0, 12) => ck.t("refused allocation: panic, survivors valid", true),
        (0, 20) => ck.t_msg("refused allocation", false, || "wrong result or invalid survivor".into()),
        (0, 21) => ck.t_msg("refused allocation", false, || "invalid survivor after a panic".into()),
        (14, _) => ck.t_msg("refused allocation", false, || "did not finish within 60 s".into()),
        _ => ck.t_msg("refused allocation", false, || format!("child ended with signal {sig}, code {code}")),
    }
}

/// In this process, with an allocation-error hook that panics (nightly builds).
#[cfg(oom_hook)]
fn oom_here(r: &mut Rng, ck: &mut Ck) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::alloc::set_alloc_error_hook(|_| panic!("out of memory"));
        let _ = Ck::guard(|| panic!("the first panic sets up what the runtime keeps"));
    });
    let mut c = oom_case(r);
    let k = r.usize(OPS);
    ck.inp("a", &c.av);
    ck.inp("b", &c.bv);
    ck.inp("t", &c.tv);
    ck.inp_n("op", k as u128);
    let mut t = c.t.clone();
    let mid = allocs();
    let want = op(k, &mut t, &c.a, &c.b, c.s);
    let n = (allocs() - mid) as i64;
    let want_t = nat(&t);
    let want = want.map(|x| nat(&x));
    drop(t);
    let at = if n <= 1 || r.chance(1, 4) { n.max(1) } else { r.range(1, n as usize) as i64 };
    ck.inp_n("fail_at", at as u128);
    // Nothing of the monitor's own may be allocated between the two measurements.
    let _ = mon::ck::LAST_PANIC.lock().unwrap().take();
    let (l0, b0) = (live(), blocks());
    c.t = c.t.clone();
    let mut t2 = c.t.clone();
    let (l1, b1) = (live(), blocks());
    let (t, a, b, s) = (&mut t2, &c.a, &c.b, c.s);
    fail_at(at);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(k, t, a, b, s)));
    fail_at(0);
    let panicked = res.is_err();
    let (ok, fine) = match res {
        Ok(got) => (same(&want, &got) && nat(&t2) == want_t, Ok(())),
        Err(p) => {
            drop(p);
            drop(mon::ck::LAST_PANIC.lock().unwrap().take());
            std::mem::swap(&mut c.t, &mut t2);
            let v = Ck::guard(|| survivors(&c)).unwrap_or_else(Err);
            std::mem::swap(&mut c.t, &mut t2);
            (true, v)
        }
    };
    drop(t2);
    let (l2, b2) = (live(), blocks());
    let _ = (l0, b0);
    if panicked {
        ck.t("refused allocation: panic", true);
        let extra = fine.is_err() as i64;
        // without its clone the heap must be smaller than it was with it, by the whole clone
        let size = c.t.clone();
        let held = { let (x, y) = (live(), blocks()); drop(size); (x - live(), y - blocks()) };
        ck.t_msg("no memory left behind", l2 <= l1 - held.0 + extra * 4096 && b2 <= b1 - held.1 + extra, || {
            format!("{} bytes in {} blocks", l2 - l1 + held.0, b2 - b1 + held.1)
        });
        if let Err(m) = fine {
            ck.t_msg("refused allocation: survivors valid", false, || m);
        }
    } else {
        ck.t("result despite a refused allocation, or all granted", ok);
    }
    drop(c);
}
#[cfg(not(oom_hook))]
fn oom_here(_: &mut Rng, _: &mut Ck) {}

fn panics_in_place(r: &mut Rng, ck: &mut Ck) {
    let l0 = live();
    {
        let mut s = Soup::new(r, G, 4, 30 * W);
        s.panics = true;
        // zeros, so that divisions by zero are frequent
        s.u[0] = (UBig::default(), Nat::zero());
        s.i[0] = (IBig::default(), Int::zero());
        for _ in 0..40 {
            s.step(r, ck);
        }
        s.verify(ck);
        drop(s);
    }
    let _ = l0;
    // one operation, watched closely: the shared operand and the target after the panic
    let a = G.nat(r, 12);
    let b = a.add(&G.nonzero(r, 12));
    ck.clear_inputs();
    ck.inp("a", &a);
    ck.inp("b", &b);
    let (mut x, y) = (ub(&a), ub(&b));
    let z = UBig::default();
    let which = r.usize(8);
    let (l1, b1) = (live(), blocks());
    let own = y.clone();
    let res = Ck::guard(|| match which {
        0 => x -= &y,
        1 => x -= own,
        2 => x /= &z,
        3 => x %= &z,
        4 => x /= 0u32,
        5 => x *= -1i32 * if a.is_zero() { 0 } else { 1 },
        6 => x += if a.is_zero() { IBig::from(0).to_f32() as i8 } else { 0 } as u8,
        _ => x = &x - &y,
    });
    let panicked = res.is_err();
    drop(res);
    let (l2, b2) = (live(), blocks());
    let should = which != 6 && !(which == 5 && a.is_zero());
    ck.eq("panicked", panicked, should);
    ck.t_msg("no memory left behind", b2 <= b1 + 1 && l2 <= l1 + (b.bit_len() / 8 + 64) as i64, || format!("{} bytes in {} blocks, op {which}", l2 - l1, b2 - b1));
    ck.u("shared operand", &y, &b);
    ck.u("shared zero", &z, &Nat::zero());
    match Ck::guard(|| valid_u(&x)) {
        Ok(Ok(_)) => ck.t("target valid", true),
        Ok(Err(m)) | Err(m) => ck.t_msg("target valid", false, || m),
    }
    // it can be used again
    if ck.ok("target usable", || {
        x += &y;
        x.clone_from(&y);
    })
    .is_some()
    {
        ck.u("target reused", &x, &b);
    }
    if r.chance(1, 3) {
        // modular values of different rings
        let m = G.nonzero(r, 5).add(&Nat::one());
        let (r1, r2) = (ModuloRing::new(&ub(&m)), ModuloRing::new(&ub(&m)));
        let mut u = r1.from(ub(&a));
        let v = r2.from(ub(&b));
        let w = u.residue();
        ck.panics("mixed rings", || u += &v);
        ck.panics("mixed rings", || u *= &v);
        ck.panics("mixed rings", || u -= v.clone());
        ck.u("left residue", &u.residue(), &nat(&w));
        ck.u("right residue", &v.residue(), &b.rem(&m));
        let t = u.clone();
        u += &t;
        ck.u("usable", &u.residue(), &nat(&w).add(&nat(&w)).rem(&m));
        if m.bit_len() > 1 {
            let zero = r1.from(0);
            ck.panics("division by a non-unit", || u /= &zero);
            ck.t("valid residue", nat(&u.residue()).lt(&m));
        }
    }
}

fn c24(r: &mut Rng, ck: &mut Ck) {
    match r.usize(8) {
        0 | 1 | 2 => caller_faults(r, ck),
        3 | 4 => panics_in_place(r, ck),
        5 | 6 if !cfg!(oom_hook) && !r.chance(1, 30) => panics_in_place(r, ck),
        7 if !cfg!(oom_hook) && !r.chance(1, 30) => caller_faults(r, ck),
        _ => {
            if cfg!(oom_hook) {
                for _ in 0..4 {
                    ck.clear_inputs();
                    oom_here(r, ck)
                }
            } else {
                oom_fork(r, ck)
            }
        }
    }
}

fn main() {
    run_main(&[("C23", c23), ("C24", c24)]);
}
