//! C21 serialization.
use mon::*;
use serde::de::value::{BorrowedStrDeserializer, Error as VError};
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};

/// A self-describing input with any length hint.
#[derive(Clone, Debug)]
enum V {
    U8(u8),
    U32(u32),
    U64(u64),
    I64(i64),
    Str(&'static str),
    Unit,
    Fail,
    Variant(&'static str),
    Seq(Vec<V>, Hint),
}
#[derive(Clone, Copy, Debug)]
enum Hint {
    Exact,
    None,
    Is(usize),
}
impl<'de> Deserializer<'de> for V {
    type Error = VError;
    fn deserialize_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, VError> {
        match self {
            V::U8(x) => v.visit_u8(x),
            V::U32(x) => v.visit_u32(x),
            V::U64(x) => v.visit_u64(x),
            V::I64(x) => v.visit_i64(x),
            V::Str(x) => v.visit_borrowed_str(x),
            V::Unit => v.visit_unit(),
            V::Fail => Err(de::Error::custom("injected failure")),
            V::Variant(s) => v.visit_enum(Var(s)),
            V::Seq(x, h) => {
                let hint = match h {
                    Hint::Exact => Some(x.len()),
                    Hint::None => None,
                    Hint::Is(n) => Some(n),
                };
                let n = hint;
                let mut it = x.into_iter();
                v.visit_seq(Acc(&mut it, n))
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Var(&'static str);
impl<'de> EnumAccess<'de> for Var {
    type Error = VError;
    type Variant = UnitOnly;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, UnitOnly), VError> {
        Ok((s.deserialize(BorrowedStrDeserializer::new(self.0))?, UnitOnly))
    }
}
struct UnitOnly;
impl<'de> de::VariantAccess<'de> for UnitOnly {
    type Error = VError;
    fn unit_variant(self) -> Result<(), VError> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, VError> {
        Err(de::Error::custom("unit"))
    }
    fn tuple_variant<Vi: Visitor<'de>>(self, _: usize, _: Vi) -> Result<Vi::Value, VError> {
        Err(de::Error::custom("unit"))
    }
    fn struct_variant<Vi: Visitor<'de>>(self, _: &'static [&'static str], _: Vi) -> Result<Vi::Value, VError> {
        Err(de::Error::custom("unit"))
    }
}
struct Acc<'a>(&'a mut std::vec::IntoIter<V>, Option<usize>);
impl<'de> SeqAccess<'de> for Acc<'_> {
    type Error = VError;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, VError> {
        match self.0.next() {
            None => Ok(None),
            Some(V::Fail) => Err(de::Error::custom("injected failure")),
            Some(v) => s.deserialize(v).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}

fn words64(v: &Nat) -> Vec<u64> {
    v.to_le()
        .chunks(8)
        .map(|c| {
            let mut t = [0u8; 8];
            t[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(t)
        })
        .collect()
}
fn from64(w: &[u64]) -> Nat {
    let mut b = vec![];
    for x in w {
        b.extend_from_slice(&x.to_le_bytes());
    }
    Nat::from_le(&b)
}
fn leb(h: Hint) -> String {
    format!("{h:?}")
}

fn round_trip(r: &mut Rng, ck: &mut Ck) {
    let max = if r.chance(1, 20) { 200 } else { 12 };
    let long = giant::due(r, 1200);
    let v = match r.usize(4) {
        _ if long => giant::giant(r),
        0 => {
            // around multiples of 64 bits
            let k = r.range(0, 8) * 64;
            Nat::pow2(k).add(&Nat::from_u64(r.below(3))).sub(&Nat::from_u64(r.below(3))).unwrap_or_else(Nat::zero)
        }
        _ => G.nat(r, max),
    };
    let x = Int::new(r.bool(), v.clone());
    let (ku, ki) = (r.usize(NU), r.usize(NI));
    let (u, i) = if long { (ub(&v), ib(&x)) } else { (hist_u(r, &v, ku), hist_i(r, &x, ki)) };
    ck.inp_i("value", &x);
    let w = words64(&v);
    let js: Vec<String> = w.iter().map(|x| x.to_string()).collect();
    let ju = format!("[{}]", js.join(","));
    let ji = format!("[\"{}\",{ju}]", if x.neg { "Negative" } else { "Positive" });
    // JSON
    let s = match ck.ok("serialize", || serde_json::to_string(&u)) {
        Some(s) => s.must("to_string"),
        None => return,
    };
    ck.eq("UBig JSON is the list of 64-bit words", &s, &ju);
    if let Some(g) = ck.ok("deserialize", || serde_json::from_str::<UBig>(&s)) {
        match g {
            Ok(g) => ck.u("UBig JSON round trip", &g, &v),
            Err(e) => ck.fail("UBig JSON round trip", format!("{e}")),
        }
    }
    let s = serde_json::to_string(&i).must("to_string");
    ck.eq("IBig JSON is sign and magnitude", &s, &ji);
    if let Some(g) = ck.ok("deserialize", || serde_json::from_str::<IBig>(&s)) {
        match g {
            Ok(g) => ck.i("IBig JSON round trip", &g, &x),
            Err(e) => ck.fail("IBig JSON round trip", format!("{e}")),
        }
    }
    if let Some(Ok(g)) = ck.ok("from serde_json::Value", || serde_json::to_value(&i).and_then(serde_json::from_value::<IBig>)) {
        ck.i("serde_json::Value round trip", &g, &x);
    }
    // bincode
    let mut want = (w.len() as u64).to_le_bytes().to_vec();
    for x in &w {
        want.extend_from_slice(&x.to_le_bytes());
    }
    let b = bincode::serialize(&u).must("bincode");
    ck.eq("UBig bincode bytes", &b, &want);
    match bincode::deserialize::<UBig>(&b) {
        Ok(g) => ck.u("UBig bincode round trip", &g, &v),
        Err(e) => ck.fail("UBig bincode round trip", format!("{e}")),
    }
    let mut wanti = (x.neg as u32).to_le_bytes().to_vec();
    wanti.extend_from_slice(&want);
    let b = bincode::serialize(&i).must("bincode");
    ck.eq("IBig bincode bytes", &b, &wanti);
    match bincode::deserialize::<IBig>(&b) {
        Ok(g) => ck.i("IBig bincode round trip", &g, &x),
        Err(e) => ck.fail("IBig bincode round trip", format!("{e}")),
    }
    // Truncated
    if !want.is_empty() {
        let cut = r.usize(want.len());
        if let Some(g) = ck.ok("truncated bincode", || bincode::deserialize::<UBig>(&want[..cut])) {
            ck.t("truncated bincode is an error", g.is_err());
        }
        let cut = r.usize(wanti.len());
        if let Some(g) = ck.ok("truncated bincode", || bincode::deserialize::<IBig>(&wanti[..cut])) {
            ck.t("truncated bincode is an error", g.is_err());
        }
        // A length prefix promising more than there is
        let mut lie = want.clone();
        let n: u64 = *r.pick(&[w.len() as u64 + 1, 1 << 20, 1 << 32, 1 << 60, u64::MAX, u64::MAX / 4, (usize::MAX / 64) as u64, 1 << 40, 1 << 25]);
        if n > w.len() as u64 {
            lie[..8].copy_from_slice(&n.to_le_bytes());
            ck.inp_n("promised words", n as u128);
            if let Some(g) = ck.ok("bincode with a false length", || bincode::deserialize::<UBig>(&lie)) {
                ck.t("bincode with a false length is an error", g.is_err());
            }
        }
    }
    // CBOR
    let b = serde_cbor::to_vec(&i).must("cbor");
    match serde_cbor::from_slice::<IBig>(&b) {
        Ok(g) => ck.i("CBOR round trip", &g, &x),
        Err(e) => ck.fail("CBOR round trip", format!("{e}")),
    }
    if b.len() > 1 {
        let cut = r.usize(b.len());
        if let Some(g) = ck.ok("truncated CBOR", || serde_cbor::from_slice::<IBig>(&b[..cut])) {
            ck.t("truncated CBOR is an error", g.is_err());
        }
    }
    // The token stream
    {
        use serde_test::Token;
        let mut t = vec![Token::Tuple { len: 2 }, Token::UnitVariant { name: "Sign", variant: if x.neg { "Negative" } else { "Positive" } }, Token::Seq { len: Some(w.len()) }];
        t.extend(w.iter().map(|x| Token::U64(*x)));
        t.extend([Token::SeqEnd, Token::TupleEnd]);
        ck.ok("token stream of an IBig", || serde_test::assert_ser_tokens(&i, &t));
        ck.ok("token stream of a UBig", || serde_test::assert_ser_tokens(&u, &t[2..t.len() - 1]));
        ck.ok("from the token stream", || serde_test::assert_de_tokens(&i, &t));
    }
    // Inside other data
    let pair = (vec![i.clone(), i.clone()], Some(u.clone()), u.clone());
    let s = serde_json::to_string(&pair).must("json");
    match serde_json::from_str::<(Vec<IBig>, Option<UBig>, UBig)>(&s) {
        Ok(p) => ck.t("nested round trip", p == pair),
        Err(e) => ck.fail("nested round trip", format!("{e}")),
    }
    // deserialize_in_place
    let mut place = ub(&G.nat(r, 4));
    match UBig::deserialize_in_place(IntoDeserializer::<VError>::into_deserializer(w.clone()), &mut place) {
        Ok(()) => ck.u("deserialize_in_place", &place, &v),
        Err(e) => ck.fail("deserialize_in_place", format!("{e}")),
    }
}

fn any_input(r: &mut Rng, ck: &mut Ck) {
    // A sequence of words, possibly with superfluous zeros, any hint, possibly damaged.
    let n = match r.usize(6) {
        0 => r.usize(3),
        1 if r.chance(1, 10) => {
            // around the size limit, where that is reachable
            if UBig::MAX_BIT_LEN > 1 << 20 {
                r.usize(50)
            } else {
                UBig::MAX_BIT_LEN / 64 + r.usize(4) - 1
            }
        }
        _ => r.usize(14),
    };
    let mut w: Vec<u64> = (0..n)
        .map(|_| match r.usize(4) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << r.usize(64),
            _ => r.u64(),
        })
        .collect();
    let z = match r.usize(6) {
        0 | 1 => r.usize(5),
        2 => {
            if r.chance(1, 10) {
                r.usize(5000)
            } else {
                r.usize(40)
            }
        }
        _ => 0,
    };
    w.extend(std::iter::repeat(0).take(z));
    let v = from64(&w);
    let hint = match r.usize(8) {
        0..=2 => Hint::Exact,
        3 | 4 => Hint::None,
        5 => Hint::Is(r.usize(w.len() + 4)),
        6 => Hint::Is(*r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 8, usize::MAX / 64, 1 << 30, 1 << 27, 100_000, 0, 1])),
        _ => Hint::Exact,
    };
    let mut items: Vec<V> = w
        .iter()
        .map(|x| {
            if *x < 256 && r.chance(1, 3) {
                V::U8(*x as u8)
            } else if *x <= u32::MAX as u64 && r.chance(1, 3) {
                V::U32(*x as u32)
            } else if *x <= i64::MAX as u64 && r.chance(1, 4) {
                V::I64(*x as i64)
            } else {
                V::U64(*x)
            }
        })
        .collect();
    let bad = r.chance(1, 4);
    let k = r.usize(items.len() + 1);
    if bad {
        items.insert(k, match r.usize(6) {
            0 => V::Fail,
            1 => V::Str("12"),
            2 => V::Unit,
            3 => V::I64(-1 - r.below(5) as i64),
            4 => V::Variant("Positive"),
            _ => V::Seq(vec![], Hint::None),
        });
    }
    let over = v.bit_len() > UBig::MAX_BIT_LEN;
    let honest = matches!(hint, Hint::Exact | Hint::None);
    ck.inp("value", &v);
    ck.inp_s("words and hint", &format!("{} words, hint {}, damaged {bad}", w.len(), leb(hint)));
    let check_u = |ck: &mut Ck, label: &str, g: Option<Result<UBig, VError>>| {
        if let Some(g) = g {
            match g {
                Ok(g) => {
                    ck.t(&format!("{label}: malformed or oversized input is refused"), !bad && !over);
                    ck.u(&format!("{label}: value"), &g, &v);
                }
                Err(e) => {
                    ck.t(&format!("{label}: well-formed input is accepted"), bad || over || !honest);
                    ck.t("the error is printable", !e.to_string().is_empty());
                }
            }
        }
    };
    let seq = V::Seq(items, hint);
    let g = ck.ok("UBig from a sequence", || UBig::deserialize(seq.clone()));
    check_u(ck, "UBig", g);
    let neg = r.bool();
    let sign = V::Variant(if neg { "Negative" } else { "Positive" });
    let tuple = V::Seq(vec![sign.clone(), seq.clone()], if r.bool() { Hint::Exact } else { Hint::None });
    if let Some(g) = ck.ok("IBig from a pair", || IBig::deserialize(tuple)) {
        match g {
            Ok(g) => {
                ck.t("IBig: malformed or oversized input is refused", !bad && !over);
                ck.i("IBig: value", &g, &Int::new(neg, v.clone()));
            }
            Err(_) => ck.t("IBig: well-formed input is accepted", bad || over || !honest),
        }
    }
    // Not a pair of sign and sequence at all
    let junk = match r.usize(8) {
        0 => V::Seq(vec![sign], Hint::Exact),
        1 => V::Seq(vec![], Hint::None),
        2 => V::Seq(vec![V::Variant("Zero"), V::Seq(vec![], Hint::Exact)], Hint::Exact),
        3 => V::U64(5),
        4 => V::Str("5"),
        5 => V::Unit,
        6 => V::Seq(vec![seq.clone(), sign], Hint::Exact),
        _ => V::Fail,
    };
    if let Some(g) = ck.ok("IBig from something else", || IBig::deserialize(junk.clone())) {
        ck.t_msg("IBig from something else is an error", g.is_err(), || format!("{junk:?} accepted"));
    }
    if !matches!(junk, V::Seq(..)) {
        if let Some(g) = ck.ok("UBig from something else", || UBig::deserialize(junk.clone())) {
            ck.t_msg("UBig from something else is an error", g.is_err(), || format!("{junk:?} accepted"));
        }
    }
}

fn text_input(r: &mut Rng, ck: &mut Ck) {
    let t = match r.usize(14) {
        0 => "[1,2".into(),
        1 => "[1,-2]".into(),
        2 => "[18446744073709551616]".into(),
        3 => "[1.5]".into(),
        4 => "\"12\"".into(),
        5 => "[\"Negative\",[0]]".into(),
        6 => "[\"Negative\",[]]".into(),
        7 => "[\"Positive\"]".into(),
        8 => "[\"Positive\",[1],[2]]".into(),
        9 => "{\"a\":1}".into(),
        10 => "null".into(),
        11 => "[[1]]".into(),
        12 => "".into(),
        _ => {
            let n = r.usize(12);
            (0..n).map(|_| *r.pick(&['[', ']', '1', '0', ',', '"', '-', 'P', '9', ' ', '.', 'e'])).collect::<String>()
        }
    };
    ck.inp_s("text", &t);
    if let Some(g) = ck.ok("UBig from text", || serde_json::from_str::<UBig>(&t)) {
        let want: Result<Vec<u64>, _> = serde_json::from_str(&t);
        ck.eq("UBig accepts exactly lists of words", g.is_ok(), want.is_ok());
        if let (Ok(g), Ok(w)) = (g, want) {
            ck.u("UBig from text", &g, &from64(&w));
        }
    }
    #[derive(Deserialize, Serialize)]
    enum Sign {
        Positive,
        Negative,
    }
    if let Some(g) = ck.ok("IBig from text", || serde_json::from_str::<IBig>(&t)) {
        let want: Result<(Sign, Vec<u64>), _> = serde_json::from_str(&t);
        ck.eq("IBig accepts exactly pairs of sign and list", g.is_ok(), want.is_ok());
        if let (Ok(g), Ok((s, w))) = (g, want) {
            ck.i("IBig from text", &g, &Int::new(matches!(s, Sign::Negative), from64(&w)));
        }
    }
    // arbitrary bytes
    let n = r.usize(40);
    let b: Vec<u8> = (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.u32() as u8 }).collect();
    if let Some(g) = ck.ok("bincode of arbitrary bytes", || bincode::deserialize::<UBig>(&b)) {
        let want: Option<Vec<u64>> = if b.len() >= 8 {
            let l = u64::from_le_bytes(b[..8].try_into().unwrap());
            if l <= (b.len() as u64 - 8) / 8 {
                Some(b[8..8 + 8 * l as usize].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
            } else {
                None
            }
        } else {
            None
        };
        ck.eq("bincode of arbitrary bytes: accepted", g.is_ok(), want.is_some());
        if let (Ok(g), Some(w)) = (g, want) {
            ck.u("bincode of arbitrary bytes", &g, &from64(&w));
        }
    }
    ck.ok("CBOR of arbitrary bytes", || {
        let _ = serde_cbor::from_slice::<IBig>(&b);
        let _ = serde_cbor::from_slice::<UBig>(&b);
    });
}

fn c21(r: &mut Rng, ck: &mut Ck) {
    match r.usize(5) {
        0 | 1 => round_trip(r, ck),
        2 | 3 => any_input(r, ck),
        _ => text_input(r, ck),
    }
}

fn main() {
    run_main(&[("C21", c21)]);
}
