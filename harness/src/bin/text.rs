//! C11 text output, C12 parsing.
#![allow(clippy::all)]
use ibig::error::ParseError;
use ibig::ModuloRing;
use mon::*;
use std::fmt::{self, Write};

/// Digits rendered by the standard library's own integer padding code.
struct Std<'a> {
    nonneg: bool,
    prefix: &'a str,
    digits: &'a str,
}
impl fmt::Display for Std<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(self.nonneg, self.prefix, self.digits)
    }
}

/// The same list of format specifications applied to any Display value (static fill and flags, run-time width).
macro_rules! specs {
    ($k:expr, $w:expr, $x:expr) => {{
        let (w, x) = ($w, $x);
        match $k {
            0 => format!("{}", x),
            1 => format!("{:+}", x),
            2 => format!("{:w$}", x),
            3 => format!("{:<w$}", x),
            4 => format!("{:>w$}", x),
            5 => format!("{:^w$}", x),
            6 => format!("{:0w$}", x),
            7 => format!("{:+0w$}", x),
            8 => format!("{:*<w$}", x),
            9 => format!("{:é^+w$}", x),
            10 => format!("{:->w$}", x),
            11 => format!("{:#w$}", x),
            12 => format!("{:#0w$}", x),
            13 => format!("{:+#0w$}", x),
            14 => format!("{:𝄞>+#w$}", x),
            15 => format!("{:0<w$}", x),
            16 => format!("{:x^0w$}", x),
            17 => format!("{:#}", x),
            18 => format!("{:+#}", x),
            19 => format!("{:.3}", x),
            20 => format!("{:w$.5}", x),
            21 => format!("{: ^#w$}", x),
            22 => format!("{:<0w$}", x),
            _ => format!("{:_>+#0w$}", x),
        }
    }};
}
/// As `specs`, for the traits with a type letter. The reference is always a Display value.
macro_rules! specs_t {
    ($k:expr, $w:expr, $x:expr, $t:literal) => {{
        let (w, x) = ($w, $x);
        match $k {
            0 => format!(concat!("{:", $t, "}"), x),
            1 => format!(concat!("{:+", $t, "}"), x),
            2 => format!(concat!("{:w$", $t, "}"), x, w = w),
            3 => format!(concat!("{:<w$", $t, "}"), x, w = w),
            4 => format!(concat!("{:>w$", $t, "}"), x, w = w),
            5 => format!(concat!("{:^w$", $t, "}"), x, w = w),
            6 => format!(concat!("{:0w$", $t, "}"), x, w = w),
            7 => format!(concat!("{:+0w$", $t, "}"), x, w = w),
            8 => format!(concat!("{:*<w$", $t, "}"), x, w = w),
            9 => format!(concat!("{:é^+w$", $t, "}"), x, w = w),
            10 => format!(concat!("{:->w$", $t, "}"), x, w = w),
            11 => format!(concat!("{:#w$", $t, "}"), x, w = w),
            12 => format!(concat!("{:#0w$", $t, "}"), x, w = w),
            13 => format!(concat!("{:+#0w$", $t, "}"), x, w = w),
            14 => format!(concat!("{:𝄞>+#w$", $t, "}"), x, w = w),
            15 => format!(concat!("{:0<w$", $t, "}"), x, w = w),
            16 => format!(concat!("{:x^0w$", $t, "}"), x, w = w),
            17 => format!(concat!("{:#", $t, "}"), x),
            18 => format!(concat!("{:+#", $t, "}"), x),
            19 => format!(concat!("{:.3", $t, "}"), x),
            20 => format!(concat!("{:w$.5", $t, "}"), x, w = w),
            21 => format!(concat!("{: ^#w$", $t, "}"), x, w = w),
            22 => format!(concat!("{:<0w$", $t, "}"), x, w = w),
            _ => format!(concat!("{:_>+#0w$", $t, "}"), x, w = w),
        }
    }};
}
const NSPEC: usize = 24;

/// Writer that accepts at most `left` bytes.
struct Limited {
    left: usize,
    got: String,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// Writer that refuses one write, and would take the next ones.
struct Once {
    at: usize,
    calls: usize,
    got: String,
}
impl fmt::Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls - 1 == self.at {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn width(r: &mut Rng, len: usize) -> usize {
    width0(r, len).min(65535)
}
fn width0(r: &mut Rng, len: usize) -> usize {
    match r.usize(6) {
        0 => 0,
        1 => len.saturating_sub(r.usize(3)),
        2 => len + r.usize(4),
        3 => len + r.usize(60),
        4 => r.usize(20),
        _ => len + 1 + r.usize(5),
    }
}

fn value(r: &mut Rng) -> Int {
    let m = match r.usize(14) {
        0 => Nat::zero(),
        1 => Nat::from_u64(r.below(40)),
        2 => {
            // radix^k and its neighbours: the longest and shortest texts of a length
            let radix = r.range(2, 36) as u64;
            let k = if r.chance(1, 8) { r.usize(2000) } else { r.usize(150) };
            let p = Nat::from_u64(radix).pow(k);
            match r.usize(3) {
                0 => p,
                1 => p.sub(&Nat::one()).unwrap(),
                _ => p.add(&Nat::one()),
            }
        }
        3 => G.boundary(r).mag,
        4 => {
            // long runs of zero digits inside
            let radix = *r.pick(&[3u64, 7, 10, 10, 10, 36, 11]);
            let k = r.usize(400);
            Nat::from_u64(radix).pow(k).mul(&G.nat(r, 2)).add(&G.nat(r, 2))
        }
        5 => {
            let n = r.range(10, 60);
            G.words(r, n)
        }
        6 => {
            let n = r.log_range(20, 260);
            G.words(r, n)
        }
        7 if r.chance(1, 6) => {
            let n = r.range(200, 1100);
            G.words(r, n)
        }
        _ => G.nat(r, 8),
    };
    Int::new(r.bool(), m)
}

fn c11(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 3000) {
        return giant::text(r, ck);
    }
    let i = value(r);
    ck.inp_i("i", &i);
    let big = i.mag.bit_len() > 5000;
    let v = ib(&i);
    let u = ub(&i.mag);
    let dec = i.mag.to_radix(10);
    // In any radix.
    let radix = match r.usize(6) {
        0 => 10,
        1 => *r.pick(&[2, 4, 8, 16, 32]),
        _ => r.range(2, 36) as u32,
    };
    ck.inp_n("radix", radix as u128);
    let text = if radix == 10 { dec.clone() } else { i.mag.to_radix(radix) };
    let w = width(r, text.len() + 1);
    let k = r.usize(NSPEC);
    ck.inp_n("width", w as u128);
    ck.inp_n("spec", k as u128);
    {
        // in_radix: '#' only selects upper case, there is no prefix
        let alt = matches!(k, 11 | 12 | 13 | 14 | 17 | 18 | 21 | 23);
        let d = if alt { text.to_uppercase() } else { text.clone() };
        let want = specs!(k, w, &Std { nonneg: true, prefix: "", digits: &d });
        ck.eq("UBig in_radix", specs!(k, w, u.in_radix(radix)), want);
        let want = specs!(k, w, &Std { nonneg: !i.neg, prefix: "", digits: &d });
        ck.eq("IBig in_radix", specs!(k, w, v.in_radix(radix)), want);
        if !alt {
            ck.eq("in_radix to_string", v.in_radix(radix).to_string(), format!("{}{}", if i.neg { "-" } else { "" }, text));
        }
    }
    if !big || r.chance(1, 4) {
        let s = Std { nonneg: !i.neg, prefix: "", digits: &dec };
        let su = Std { nonneg: true, prefix: "", digits: &dec };
        ck.eq("Display IBig", specs!(k, w, &v), specs!(k, w, &s));
        ck.eq("Display UBig", specs!(k, w, &u), specs!(k, w, &su));
        ck.eq("Debug IBig", specs_t!(k, w, &v, "?"), specs!(k, w, &s));
        ck.eq("Debug UBig", specs_t!(k, w, &u, "?"), specs!(k, w, &su));
        ck.eq("to_string", v.to_string(), i.to_radix(10));
    }
    match r.usize(4) {
        0 => {
            let d = i.mag.to_radix(2);
            let w = width(r, d.len() + 3);
            ck.eq("Binary IBig", specs_t!(k, w, &v, "b"), specs!(k, w, &Std { nonneg: !i.neg, prefix: "0b", digits: &d }));
            ck.eq("Binary UBig", specs_t!(k, w, &u, "b"), specs!(k, w, &Std { nonneg: true, prefix: "0b", digits: &d }));
        }
        1 => {
            let d = i.mag.to_radix(8);
            let w = width(r, d.len() + 3);
            ck.eq("Octal IBig", specs_t!(k, w, &v, "o"), specs!(k, w, &Std { nonneg: !i.neg, prefix: "0o", digits: &d }));
            ck.eq("Octal UBig", specs_t!(k, w, &u, "o"), specs!(k, w, &Std { nonneg: true, prefix: "0o", digits: &d }));
        }
        2 => {
            let d = i.mag.hex();
            let w = width(r, d.len() + 3);
            ck.eq("LowerHex IBig", specs_t!(k, w, &v, "x"), specs!(k, w, &Std { nonneg: !i.neg, prefix: "0x", digits: &d }));
            ck.eq("LowerHex UBig", specs_t!(k, w, &u, "x"), specs!(k, w, &Std { nonneg: true, prefix: "0x", digits: &d }));
        }
        _ => {
            let d = i.mag.hex().to_uppercase();
            let w = width(r, d.len() + 3);
            ck.eq("UpperHex IBig", specs_t!(k, w, &v, "X"), specs!(k, w, &Std { nonneg: !i.neg, prefix: "0x", digits: &d }));
            ck.eq("UpperHex UBig", specs_t!(k, w, &u, "X"), specs!(k, w, &Std { nonneg: true, prefix: "0x", digits: &d }));
        }
    }
    // Small values against the primitives themselves.
    if let Some(p) = i.to_i128() {
        if !p.is_negative() || true {
            ck.eq("same as i128 Display", specs!(k, w, &v), specs!(k, w, &p));
        }
        if p >= 0 {
            ck.eq("same as i128 {:x}", specs_t!(k, w, &v, "x"), specs_t!(k, w, &p, "x"));
            ck.eq("same as i128 {:X}", specs_t!(k, w, &v, "X"), specs_t!(k, w, &p, "X"));
            ck.eq("same as i128 {:o}", specs_t!(k, w, &v, "o"), specs_t!(k, w, &p, "o"));
            ck.eq("same as i128 {:b}", specs_t!(k, w, &v, "b"), specs_t!(k, w, &p, "b"));
        }
    }
    // Failing writers.
    if !big {
        let full = specs!(k, w, &v);
        let cap = r.usize(full.len() + 2);
        let mut l = Limited { left: cap, got: String::new() };
        let res = match k {
            6 => write!(l, "{:0w$}", v),
            5 => write!(l, "{:^w$}", v),
            2 => write!(l, "{:w$}", v),
            3 => write!(l, "{:<w$}", v),
            _ => write!(l, "{:é^+w$}", v),
        };
        let expect = match k {
            6 => full.clone(),
            5 => full.clone(),
            2 => full.clone(),
            3 => full.clone(),
            _ => specs!(9, w, &v),
        };
        ck.eq("writer error reported", res.is_err(), expect.len() > cap);
        ck.t("output before the error is a prefix", expect.starts_with(&l.got));
        if res.is_ok() {
            ck.eq("all written", l.got, expect);
        }
    }
    // A writer that refuses a single write: either it was never asked, or the error comes back.
    {
        let put = |o: &mut Once| match k % 8 {
            0 => write!(o, "{}", v),
            1 => write!(o, "{:x}", u),
            2 => write!(o, "{:w$}", v.in_radix(radix)),
            3 => write!(o, "{:#b}", v),
            4 => write!(o, "{:^w$}", u.in_radix(radix)),
            5 => write!(o, "{:+0w$}", v),
            6 => write!(o, "{:?}", v),
            _ => write!(o, "{:#}", u.in_radix(radix)),
        };
        if !big || r.chance(1, 3) {
            let mut all = Once { at: usize::MAX, calls: 0, got: String::new() };
            ck.t("a willing writer", put(&mut all).is_ok());
            let at = r.usize(all.calls + 1);
            ck.inp_n("refused write", at as u128);
            let mut o = Once { at, calls: 0, got: String::new() };
            let res = put(&mut o);
            ck.eq("refused write reported", res.is_err(), at < all.calls);
            ck.t("output is whole or an error", res.is_err() || o.got == all.got);
        }
    }
    // Modular values.
    if !big && r.chance(1, 2) {
        let n = match r.usize(4) {
            0 => G.nonzero(r, 1),
            1 => Nat::from_u64(r.below(50) + 1),
            _ => G.nonzero(r, 6),
        };
        let ring = ModuloRing::new(&ub(&n));
        let (_, res) = i.divrem_euclid(&Int::nat(n.clone()));
        let m = ring.from(&v);
        ck.inp("n", &n);
        let (a, b) = (res.to_radix(10), n.to_radix(10));
        let w = width(r, a.len().max(b.len()));
        let one = |d: &str, p: &str| specs!(k, w, &Std { nonneg: true, prefix: p, digits: d });
        ck.eq("Modulo Display", specs!(k, w, &m), format!("{} (mod {})", one(&a, ""), one(&b, "")));
        ck.eq("Modulo Debug", specs_t!(k, w, &m, "?"), format!("{} (mod {})", one(&a, ""), one(&b, "")));
        ck.eq("Ring Display", specs!(k, w, &ring), format!("mod {}", one(&b, "")));
        let (a, b) = (res.hex(), n.hex());
        ck.eq("Modulo LowerHex", specs_t!(k, w, &m, "x"), format!("{} (mod {})", one(&a, "0x"), one(&b, "0x")));
        let (a, b) = (a.to_uppercase(), b.to_uppercase());
        ck.eq("Modulo UpperHex", specs_t!(k, w, &m, "X"), format!("{} (mod {})", one(&a, "0x"), one(&b, "0x")));
        let (a, b) = (res.to_radix(2), n.to_radix(2));
        ck.eq("Modulo Binary", specs_t!(k, w, &m, "b"), format!("{} (mod {})", one(&a, "0b"), one(&b, "0b")));
        let (a, b) = (res.to_radix(8), n.to_radix(8));
        ck.eq("Modulo Octal", specs_t!(k, w, &m, "o"), format!("{} (mod {})", one(&a, "0o"), one(&b, "0o")));
        ck.eq("Ring Octal", specs_t!(k, w, &ring, "o"), format!("mod {}", one(&b, "0o")));
    }
    if ck.logging() && text.len() < 3000 {
        ck.log(|| format!("text {} {} {}", i.hex(), radix, v.in_radix(radix)));
    }
}

fn parse_ref(s: &str, radix: u32, signed: bool) -> Result<Int, ParseError> {
    let (neg, t) = match s.chars().next() {
        Some('+') => (false, &s[1..]),
        Some('-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    digits(t, radix).map(|m| Int::new(neg, m))
}
fn digits(t: &str, radix: u32) -> Result<Nat, ParseError> {
    if t.is_empty() {
        return Err(ParseError::NoDigits);
    }
    if t.chars().any(|c| !c.is_ascii() || c.to_digit(radix).is_none()) {
        return Err(ParseError::InvalidDigit);
    }
    Ok(Nat::from_radix(&t.to_ascii_lowercase(), radix).expect("reference parse"))
}
fn parse_prefix_ref(s: &str, signed: bool) -> Result<Int, ParseError> {
    let (neg, t) = match s.chars().next() {
        Some('+') => (false, &s[1..]),
        Some('-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    let m = match t.get(..2) {
        Some("0b") => digits(&t[2..], 2),
        Some("0o") => digits(&t[2..], 8),
        Some("0x") => digits(&t[2..], 16),
        _ => digits(t, 10),
    };
    m.map(|m| Int::new(neg, m))
}

fn random_case(r: &mut Rng, s: &str) -> String {
    match r.usize(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn weird(r: &mut Rng, radix: u32) -> char {
    match r.usize(8) {
        0 => *r.pick(&['_', ' ', '+', '-', '.', ',', '\0', '\n', '/', ':', '@', '[', '`', '{', '\u{7f}']),
        1 => *r.pick(&['é', '١', '𝟘', '０', 'ß', '\u{212a}', '\u{ffff}', '🦀', 'ａ']),
        2 => {
            // the digit just beyond the radix
            let d = radix.min(35);
            std::char::from_digit(d, 36).unwrap()
        }
        3 => std::char::from_digit(radix.min(35), 36).unwrap().to_ascii_uppercase(),
        4 => char::from(r.usize(128) as u8),
        5 => std::char::from_u32(r.usize(0xd000) as u32).unwrap(),
        6 => *r.pick(&['x', 'o', 'b', 'X', 'e', 'E']),
        _ => char::from(b'0' + r.usize(10) as u8),
    }
}

fn gen_digits(r: &mut Rng, radix: u32) -> String {
    match r.usize(12) {
        0 => String::new(),
        1 => "0".repeat(r.usize(300)),
        2 => {
            // around one machine word and around the chunk size of the parser
            let per_word = ((W as f64 + 0.01) / (radix as f64).log2()) as usize;
            let n = (per_word * *r.pick(&[1usize, 1, 2, 3, 8])).saturating_add(r.usize(3)).saturating_sub(1);
            let top = std::char::from_digit(radix - 1, 36).unwrap();
            if r.bool() {
                top.to_string().repeat(n)
            } else {
                format!("1{}", "0".repeat(n.saturating_sub(1)))
            }
        }
        3 if r.chance(1, 8) => {
            let per_word = ((W as f64 + 0.01) / (radix as f64).log2()) as usize;
            let n = per_word * 256 * r.range(1, 5) + r.usize(2 * per_word) - r.usize(per_word);
            let n = n.min((65000.0 / (radix as f64).log2()) as usize);
            (0..n).map(|_| std::char::from_digit(r.usize(radix as usize) as u32, 36).unwrap()).collect()
        }
        4 => {
            let n = r.usize(200);
            (0..n).map(|_| std::char::from_digit(r.usize(radix as usize) as u32, 36).unwrap()).collect()
        }
        _ => {
            let z = if r.chance(1, 4) { r.usize(80) } else { 0 };
            let max = if r.chance(1, 8) { 120 } else { 6 };
            format!("{}{}", "0".repeat(z), G.nat(r, max).to_radix(radix))
        }
    }
}

fn guarded<T>(ck: &mut Ck, label: &str, want: &Result<Int, ParseError>, f: impl FnOnce() -> T) -> Option<T> {
    match want {
        Ok(w) if w.mag.bit_len() > UBig::MAX_BIT_LEN => {
            ck.panics(label, f);
            None
        }
        _ => ck.ok(label, f),
    }
}
fn c12(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 3000) {
        return giant::parse(r, ck);
    }
    let radix = match r.usize(5) {
        0 => 10,
        1 => *r.pick(&[2, 4, 8, 16, 32]),
        _ => r.range(2, 36) as u32,
    };
    let prefixed = r.chance(1, 3);
    let radix = if prefixed { *r.pick(&[2u32, 8, 16, 10, 10]) } else { radix };
    let mut s = String::new();
    match r.usize(6) {
        0 | 1 => {}
        2 | 3 => s.push('-'),
        4 => s.push('+'),
        _ => s.push_str(r.pick(&["+-", "--", "-+", "++", " ", "\u{2212}", "+ ", "- "])),
    }
    if prefixed {
        let p = match radix {
            2 => "0b",
            8 => "0o",
            16 => "0x",
            _ => "",
        };
        let p = if r.chance(1, 8) { *r.pick(&["0B", "0X", "0O", "0", "x", "00x", "0x0x", "0b0", "0d"]) } else { p };
        s.push_str(p);
        if r.chance(1, 16) {
            s.push_str(r.pick(&["+", "-", "_"]));
        }
    }
    let d = gen_digits(r, radix);
    s.push_str(&random_case(r, &d));
    if r.chance(1, 4) {
        // one or two mutations
        for _ in 0..r.range(1, 2) {
            let chars: Vec<char> = s.chars().collect();
            let at = r.usize(chars.len() + 1);
            let mut out: Vec<char> = chars[..at].to_vec();
            match r.usize(3) {
                0 => {
                    out.push(weird(r, radix));
                    out.extend(&chars[at..]);
                }
                1 => {
                    out.push(weird(r, radix));
                    out.extend(chars[at..].iter().skip(1));
                }
                _ => out.extend(chars[at..].iter().skip(1)),
            }
            s = out.into_iter().collect();
        }
    }
    if r.chance(1, 60) {
        s = (0..r.usize(40)).map(|_| weird(r, radix)).collect();
    }
    ck.inp_s("s", &s);
    ck.inp_n("radix", radix as u128);
    let cmp_u = |ck: &mut Ck, label: &str, got: Option<Result<UBig, ParseError>>, want: &Result<Int, ParseError>| {
        if let Some(g) = got {
            match (&g, want) {
                (Ok(g), Ok(w)) => ck.u(label, g, &w.mag),
                _ => ck.eq(label, g.map(|g| nat(&g).hex()), want.clone().map(|w| w.mag.hex())),
            }
        }
    };
    let cmp_i = |ck: &mut Ck, label: &str, got: Option<Result<IBig, ParseError>>, want: &Result<Int, ParseError>| {
        if let Some(g) = got {
            match (&g, want) {
                (Ok(g), Ok(w)) => ck.i(label, g, w),
                _ => ck.eq(label, g.map(|g| int(&g).hex()), want.clone().map(|w| w.hex())),
            }
        }
    };
    // A text that denotes a number beyond the limit (16-bit configuration) must panic, any other must not.
    let (wu, wi) = (parse_ref(&s, radix, false), parse_ref(&s, radix, true));
    let g = guarded(ck, "UBig from_str_radix returns", &wu, || UBig::from_str_radix(&s, radix));
    cmp_u(ck, "UBig from_str_radix", g, &wu);
    let g = guarded(ck, "IBig from_str_radix returns", &wi, || IBig::from_str_radix(&s, radix));
    if let (Some(Ok(v)), true) = (&g, s.len() < 3000 && !s.is_empty()) {
        ck.log(|| format!("parse {radix} {s} {}", ck::hxi(v)));
    }
    cmp_i(ck, "IBig from_str_radix", g, &wi);
    if radix == 10 {
        let g = guarded(ck, "UBig from_str returns", &wu, || s.parse::<UBig>());
        cmp_u(ck, "UBig from_str", g, &wu);
        let g = guarded(ck, "IBig from_str returns", &wi, || s.parse::<IBig>());
        cmp_i(ck, "IBig from_str", g, &wi);
    }
    if prefixed || r.chance(1, 3) {
        let (pu, pi) = (parse_prefix_ref(&s, false), parse_prefix_ref(&s, true));
        let g = guarded(ck, "UBig from_str_with_radix_prefix returns", &pu, || UBig::from_str_with_radix_prefix(&s));
        cmp_u(ck, "UBig from_str_with_radix_prefix", g, &pu);
        let g = guarded(ck, "IBig from_str_with_radix_prefix returns", &pi, || IBig::from_str_with_radix_prefix(&s));
        cmp_i(ck, "IBig from_str_with_radix_prefix", g, &pi);
    }
    // Long garbage: an error, never a panic, however long.
    if r.chance(1, 400) {
        let n = r.range(15000, 90000);
        let c = std::char::from_digit(radix - 1, 36).unwrap();
        let mut t = c.to_string().repeat(n);
        let at = r.usize(n);
        t.replace_range(at..at + 1, r.pick(&["!", " ", "_", "~"]));
        ck.inp_s("long", &t[..20]);
        let g = ck.ok("long invalid text returns", || UBig::from_str_radix(&t, radix));
        if let Some(g) = g {
            ck.eq("long invalid text is refused", g.map(|x| nat(&x).bit_len()), Err(ParseError::InvalidDigit));
        }
        let t = format!("-{}!", "0".repeat(n));
        let g = ck.ok("long invalid zeros return", || IBig::from_str_radix(&t, radix));
        if let Some(g) = g {
            ck.eq("long invalid zeros are refused", g.map(|x| int(&x).hex()), Err(ParseError::InvalidDigit));
        }
    }
    // Round trip through text.
    if r.chance(1, 4) {
        let i = G.int(r, 8);
        let radix = r.range(2, 36) as u32;
        let v = ib(&i);
        let t = if r.bool() { format!("{}", v.in_radix(radix)) } else { format!("{:#}", v.in_radix(radix)) };
        let g = IBig::from_str_radix(&t, radix);
        cmp_i(ck, "round trip", Some(g), &Ok(i));
    }
}

fn main() {
    run_main(&[("C11", c11), ("C12", c12)]);
}
