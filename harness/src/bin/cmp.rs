//! C06 equality and hashing, C07 ordering.
#![allow(clippy::all)]
use mon::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

/// Records everything written to it.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn rec<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}
fn dh<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn pick_value(r: &mut Rng) -> Int {
    match r.usize(10) {
        0 => Int::zero(),
        1 => Int::from_i128(r.usize(5) as i128 - 2),
        2 => G.boundary(r),
        3 => Int::new(r.bool(), Nat::pow2(r.usize(6 * W))),
        4 => Int::new(r.bool(), Nat::ones(r.usize(6 * W))),
        5 => G.int(r, 60),
        _ => G.int(r, 6),
    }
}
/// A different value close to v.
fn other(r: &mut Rng, v: &Int) -> Int {
    for _ in 0..8 {
        let w = match r.usize(6) {
            0 => v.neg(),
            1 => v.add(&Int::from_i128(1)),
            2 => Int::new(v.neg, v.mag.with_bit(r.usize(v.mag.bit_len() + 2), r.bool())),
            3 => Int::new(v.neg, v.mag.shl(W)),
            4 => Int::new(v.neg, v.mag.shr(W)),
            _ => Int::new(r.bool(), G.related(r, &v.mag)),
        };
        if w != *v {
            return w;
        }
    }
    v.add(&Int::from_i128(1))
}

fn c06(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 6000) {
        return giant::eq_ord(r, ck);
    }
    let v = pick_value(r);
    let w = other(r, &v);
    ck.inp_i("v", &v);
    ck.inp_i("w", &w);
    // unsigned
    let mut us: Vec<(usize, UBig)> = vec![];
    for _ in 0..3 {
        let k = r.usize(NU);
        us.push((k, hist_u(r, &v.mag, k)));
    }
    ck.inp_n("h0", us[0].0 as u128);
    ck.inp_n("h1", us[1].0 as u128);
    ck.inp_n("h2", us[2].0 as u128);
    for (_, x) in &us {
        ck.u("value of history", x, &v.mag);
    }
    for i in 0..3 {
        for j in 0..3 {
            let (x, y) = (&us[i].1, &us[j].1);
            ck.t("same number: ==", x == y && !(x != y));
            ck.t("same number: hash stream", rec(x) == rec(y));
            ck.t("same number: DefaultHasher", dh(x) == dh(y));
            ck.t("same number: cmp", x.cmp(y) == Ordering::Equal);
            ck.t("same number: text", x.to_string() == y.to_string());
        }
    }
    ck.t("is zero iff default", (us[0].1 == UBig::default()) == v.mag.is_zero());
    if v.mag != w.mag {
        let k = r.usize(NU);
        let z = hist_u(r, &w.mag, k);
        ck.t("different numbers: !=", us[0].1 != z && !(us[1].1 == z) && z != us[2].1);
        ck.t("different numbers: cmp", us[0].1.cmp(&z) != Ordering::Equal);
    }
    let mut set = HashSet::new();
    set.insert(us[0].1.clone());
    ck.t("HashSet lookup", set.contains(&us[1].1) && !set.insert(us[2].1.clone()));
    // signed
    let mut is: Vec<(usize, IBig)> = vec![];
    for _ in 0..3 {
        let k = r.usize(NI);
        is.push((k, hist_i(r, &v, k)));
    }
    ck.inp_n("i0", is[0].0 as u128);
    ck.inp_n("i1", is[1].0 as u128);
    ck.inp_n("i2", is[2].0 as u128);
    for (_, x) in &is {
        ck.i("value of history i", x, &v);
    }
    for i in 0..3 {
        for j in 0..3 {
            let (x, y) = (&is[i].1, &is[j].1);
            ck.t("same number i: ==", x == y && !(x != y));
            ck.t("same number i: hash stream", rec(x) == rec(y));
            ck.t("same number i: DefaultHasher", dh(x) == dh(y));
            ck.t("same number i: cmp", x.cmp(y) == Ordering::Equal);
            ck.t("same number i: text", x.to_string() == y.to_string());
        }
    }
    ck.t("hash of slices", rec(&[is[0].1.clone(), is[1].1.clone()][..]) == rec(&[is[2].1.clone(), is[0].1.clone()][..]));
    ck.t("hash of tuple", dh(&(&is[0].1, 7u8, &us[0].1)) == dh(&(&is[1].1, 7u8, &us[1].1)));
    let k = r.usize(NI);
    let z = hist_i(r, &w, k);
    ck.t("different numbers i: !=", is[0].1 != z && !(is[1].1 == z) && z != is[2].1);
    ck.t("different numbers i: cmp", is[0].1.cmp(&z) != Ordering::Equal);
    let mut map = HashMap::new();
    map.insert(is[0].1.clone(), 1);
    map.insert(z.clone(), 2);
    ck.eq("HashMap lookup", (map.get(&is[1].1), map.get(&z), map.len()), (Some(&1), Some(&2), 2));
    // zeros
    let x = &is[0].1;
    let zeros = [x - x, x * 0u8, x & IBig::from(0u8), x ^ x, x % IBig::from(1u8), IBig::from(0u8) * -x.clone(), -(x - x), x >> usize::MAX];
    for (n, t) in zeros.iter().enumerate() {
        if n == 7 && v.neg {
            ck.i("sign-filled shift", t, &Int::from_i128(-1));
            continue;
        }
        ck.i("zero", t, &Int::zero());
        ck.t("zero is not negative", *t == IBig::default() && !(*t < IBig::default()) && rec(t) == rec(&IBig::from(0u8)));
    }
}

fn c07(r: &mut Rng, ck: &mut Ck) {
    if giant::due(r, 8000) {
        return giant::eq_ord(r, ck);
    }
    let max = if r.chance(1, 6) { 100 } else { 5 };
    let (a, b) = if r.chance(1, 3) {
        let v = pick_value(r);
        (v.clone(), other(r, &v))
    } else {
        G.int_pair(r, max)
    };
    ck.inp_i("a", &a);
    ck.inp_i("b", &b);
    let (ka, kb) = (r.usize(NI), r.usize(NI));
    let (x, y) = (hist_i(r, &a, ka), hist_i(r, &b, kb));
    let o = a.cmp(&b);
    ck.eq("IBig cmp", x.cmp(&y), o);
    ck.eq("IBig partial_cmp", x.partial_cmp(&y), Some(o));
    ck.eq("IBig cmp rev", y.cmp(&x), o.reverse());
    ck.eq("IBig operators", (x < y, x <= y, x > y, x >= y, x == y), (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq()));
    let (mn, mx) = if o.is_le() { (&a, &b) } else { (&b, &a) };
    ck.i("IBig min", &x.clone().min(y.clone()), mn);
    ck.i("IBig max", &x.clone().max(y.clone()), mx);
    ck.log(|| format!("cmp {} {} {}", a.hex(), b.hex(), x.cmp(&y) as i32));
    let (ka, kb) = (r.usize(NU), r.usize(NU));
    let (x, y) = (hist_u(r, &a.mag, ka), hist_u(r, &b.mag, kb));
    let o = a.mag.cmp(&b.mag);
    ck.eq("UBig cmp", x.cmp(&y), o);
    ck.eq("UBig partial_cmp", x.partial_cmp(&y), Some(o));
    ck.eq("UBig cmp rev", y.cmp(&x), o.reverse());
    ck.eq("UBig operators", (x < y, x <= y, x > y, x >= y, x == y), (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq()));
    let (mn, mx) = if o.is_le() { (&a.mag, &b.mag) } else { (&b.mag, &a.mag) };
    ck.u("UBig min", &x.clone().min(y.clone()), mn);
    ck.u("UBig max", &x.clone().max(y.clone()), mx);
    if r.chance(1, 12) {
        // sorting and ordered maps
        let n = r.range(3, 40);
        let mut vs: Vec<Int> = vec![];
        for _ in 0..n {
            let t = if vs.is_empty() || r.bool() { pick_value(r) } else {
                let p = r.pick(&vs).clone();
                other(r, &p)
            };
            vs.push(t);
        }
        let mut xs: Vec<IBig> = vs.iter().map(ib).collect();
        let mut usx: Vec<UBig> = vs.iter().map(|v| ub(&v.mag)).collect();
        let set: BTreeSet<IBig> = xs.iter().cloned().collect();
        let map: BTreeMap<UBig, usize> = usx.iter().cloned().zip(0..).collect();
        xs.sort();
        usx.sort_unstable();
        let mut us: Vec<Nat> = vs.iter().map(|v| v.mag.clone()).collect();
        vs.sort_by(|a, b| a.cmp(b));
        us.sort_by(|a, b| a.cmp(b));
        ck.t("sorted IBig", xs.iter().map(int).eq(vs.iter().cloned()));
        ck.t("sorted UBig", usx.iter().map(nat).eq(us.iter().cloned()));
        vs.dedup();
        us.dedup();
        ck.t("BTreeSet", set.iter().map(int).eq(vs.iter().cloned()));
        ck.t("BTreeMap", map.keys().map(nat).eq(us.iter().cloned()));
    }
}

fn main() {
    run_main(&[("C06", c06), ("C07", c07)]);
}
