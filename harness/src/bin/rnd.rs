//! C20 random sampling.
use mon::*;
use rand::distributions::uniform::{Uniform, UniformSampler};
use rand::distributions::Distribution;
use rand::{Error, Rng as _, RngCore};

/// A fair source.
/// A fair source, and the number of bits taken from it.
struct Fair(Rng, u64);
impl RngCore for Fair {
    fn next_u32(&mut self) -> u32 {
        self.1 += 32;
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 64;
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += 8 * d.len() as u64;
        for x in d {
            *x = (self.0.u64() >> 40) as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// A hostile source: plays a script, then turns fair (so that rejection loops end).
struct Script {
    items: Vec<u64>,
    pos: usize,
    fair: Fair,
    bytes_hostile: bool,
    bits: u64,
}
impl Script {
    fn item(&mut self) -> Option<u64> {
        let x = self.items.get(self.pos).copied();
        self.pos += 1;
        x
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.bits += 32;
        match self.item() {
            Some(x) => x as u32,
            None => self.fair.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        self.bits += 64;
        match self.item() {
            Some(x) => x,
            None => self.fair.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bits += 8 * d.len() as u64;
        if self.bytes_hostile && self.pos < self.items.len() {
            let b = (self.items[self.pos] & 255) as u8;
            self.pos += 1;
            d.iter_mut().for_each(|x| *x = b);
        } else {
            self.fair.fill_bytes(d)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Number of values of the range: 1.., with shapes around words.
fn width(r: &mut Rng) -> Nat {
    let n = r.range(1, 4);
    match r.usize(10) {
        _ if giant::due(r, 3000) => giant::giant(r),
        0 => Nat::from_u64(r.below(30) + 1),
        1 => {
            let d = Nat::from_u64(r.below(4) + 1);
            let b = Nat::pow2(n * W);
            if r.bool() {
                b.add(&d)
            } else {
                b.sub(&d).unwrap()
            }
        }
        2 => Nat::pow2(r.usize(4 * W)),
        // small top word
        3 | 4 => {
            let low = G.bits(r, n * W).low_bits(n * W);
            Nat::from_u64(r.below(3) + 1).shl(n * W).or(&low)
        }
        5 => Nat::from_u64(r.below(3) + 1).shl(n * W),
        6 => Nat::ones(n * W),
        7 => G.nonzero(r, 30),
        _ => G.nonzero(r, 3),
    }
}
fn draw<R: RngCore>(src: &mut R, form: usize, neg_ok: bool, low: &Int, high: &Int) -> (Int, String) {
    // `high` is inclusive
    let h1 = high.add(&Int::from_i128(1));
    if neg_ok {
        let (l, h, h1) = (ib(low), ib(high), ib(&h1));
        let (x, name) = match form % 8 {
            0 => (src.gen_range(l..h1), "gen_range(a..b)"),
            1 => (src.gen_range(l..=h), "gen_range(a..=b)"),
            2 => (Uniform::new(&l, &h1).sample(src), "Uniform::new(&a, &b)"),
            3 => (Uniform::new(l, h1).sample(src), "Uniform::new(a, b)"),
            4 => (Uniform::new_inclusive(&l, h).sample(src), "Uniform::new_inclusive(&a, b)"),
            5 => (Uniform::new_inclusive(l, &h).sample(src), "Uniform::new_inclusive(a, &b)"),
            6 => (Uniform::from(l..h1).sample(src), "Uniform::from(a..b)"),
            _ => (ibig::rand::UniformIBig::new_inclusive(&l, &h).sample(src), "UniformIBig::new_inclusive"),
        };
        (int(&x), format!("IBig {name}"))
    } else {
        let (l, h, h1) = (ub(&low.mag), ub(&high.mag), ub(&h1.mag));
        let (x, name) = match form % 8 {
            0 => (src.gen_range(l..h1), "gen_range(a..b)"),
            1 => (src.gen_range(l..=h), "gen_range(a..=b)"),
            2 => (Uniform::new(&l, &h1).sample(src), "Uniform::new(&a, &b)"),
            3 => (Uniform::new(l, h1).sample(src), "Uniform::new(a, b)"),
            4 => (Uniform::new_inclusive(&l, h).sample(src), "Uniform::new_inclusive(&a, b)"),
            5 => (Uniform::new_inclusive(l, &h).sample(src), "Uniform::new_inclusive(a, &b)"),
            6 => (Uniform::from(l..h1).sample(src), "Uniform::from(a..b)"),
            _ => (ibig::rand::UniformUBig::new_inclusive(&l, &h).sample(src), "UniformUBig::new_inclusive"),
        };
        (Int::nat(nat(&x)), format!("UBig {name}"))
    }
}

/// z-score of a chi-square statistic with k degrees of freedom (Wilson-Hilferty).
fn zscore(chi: f64, k: f64) -> f64 {
    let t = (chi / k).cbrt();
    (t - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
}
fn chi(counts: &[u64], expect: &[f64]) -> f64 {
    let c: f64 = counts.iter().zip(expect).map(|(c, e)| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    zscore(c, (counts.len() - 1) as f64)
}
fn f(x: &Nat) -> f64 {
    // for proportions only
    let n = x.bit_len();
    if n <= 64 {
        x.to_u64().unwrap() as f64
    } else {
        x.shr(n - 64).to_u64().unwrap() as f64 * 2f64.powi((n - 64) as i32)
    }
}
fn ratio(a: &Nat, b: &Nat) -> f64 {
    let s = b.bit_len().saturating_sub(500);
    f(&a.shr(s)) / f(&b.shr(s))
}

fn c20(r: &mut Rng, ck: &mut Ck) {
    let w = width(r);
    let neg_ok = r.bool();
    let low = match r.usize(4) {
        0 => Int::zero(),
        1 => {
            // the range straddles zero
            let k = G.random_bits(r, w.bit_len());
            Int::new(true, k)
        }
        _ => {
            let m = G.nat(r, 4);
            Int::new(r.bool(), m)
        }
    };
    let low = if neg_ok { low } else { Int::nat(low.mag) };
    let high = low.add(&Int::nat(w.sub(&Nat::one()).unwrap())); // inclusive
    ck.inp_i("low", &low);
    ck.inp("number of values", &w);
    let in_range = |x: &Int| !x.cmp(&low).is_lt() && !x.cmp(&high).is_gt();
    // Any random source gives values in range.
    for _ in 0..8 {
        let mut items = vec![];
        let words: Vec<u64> = {
            let b = w.to_le();
            let mut v: Vec<u64> = b
                .chunks(W / 8)
                .map(|c| {
                    let mut t = [0u8; 8];
                    t[..c.len()].copy_from_slice(c);
                    u64::from_le_bytes(t)
                })
                .collect();
            v.reverse();
            v
        };
        let style = r.usize(6);
        for i in 0..r.range(0, 12) {
            items.push(match style {
                0 => u64::MAX,
                1 => 0,
                2 => {
                    // make the sample follow the words of the range itself
                    if i % words.len() == 0 {
                        u64::MAX - r.below(3)
                    } else {
                        words[i % words.len()].wrapping_add(if r.chance(1, 4) { r.below(3).wrapping_sub(1) } else { 0 })
                    }
                }
                3 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 0xffff, 0xffff_ffff, 0xffff_ffff_0000_0000]),
                4 => G.special_word(r),
                _ => r.u64(),
            });
        }
        let form = r.usize(8);
        let mut src = Script { items, pos: 0, fair: Fair(Rng::new(r.u64()), 0), bytes_hostile: r.bool(), bits: 0 };
        if let Some((x, name)) = ck.ok("sampling", || draw(&mut src, form, neg_ok, &low, &high)) {
            ck.t_msg(&format!("{name}: in range"), in_range(&x), || format!("sample {} outside {}..={}", x.hex(), low.hex(), high.hex()));
            // A value of probability 1/w cannot be reached by fewer than log2(w) fair bits, whatever those bits are.
            let need = w.sub(&Nat::one()).unwrap().bit_len() as u64;
            ck.t_msg("enough random bits taken", src.bits >= need, || format!("{name}: one of 2^{} or more values chosen by {} bits", need - 1, src.bits));
        }
    }
    // Empty ranges panic.
    let above = high.add(&Int::nat(if r.bool() { Nat::one() } else { G.nonzero(r, 3) }));
    let mut src = Fair(Rng::new(r.u64()), 0);
    if neg_ok {
        let (l, h) = (ib(&above), ib(&low));
        match r.usize(6) {
            0 => ck.panics("empty range", || src.gen_range(l..h)),
            1 => ck.panics("empty range", || src.gen_range(l..=h)),
            2 => ck.panics("empty range", || Uniform::new(&l, &h).sample(&mut src)),
            3 => ck.panics("empty range", || Uniform::new_inclusive(&l, &h).sample(&mut src)),
            4 => ck.panics("empty range", || Uniform::new(&l, &l).sample(&mut src)),
            _ => ck.panics("empty range", || src.gen_range(l.clone()..l)),
        }
    } else {
        let (l, h) = (ub(&above.mag), ub(&low.mag));
        match r.usize(6) {
            0 => ck.panics("empty range", || src.gen_range(l..h)),
            1 => ck.panics("empty range", || src.gen_range(l..=h)),
            2 => ck.panics("empty range", || Uniform::new(&l, &h).sample(&mut src)),
            3 => ck.panics("empty range", || Uniform::new_inclusive(&l, &h).sample(&mut src)),
            4 => ck.panics("empty range", || Uniform::new(&l, &l).sample(&mut src)),
            _ => ck.panics("empty range", || src.gen_range(l.clone()..l)),
        }
    }
    // Frequencies with a fair source.
    if ck.case % 4 == 0 {
        let small = w.to_u64().map_or(false, |x| x <= 40);
        let b = if small { w.to_u64().unwrap() as usize } else { r.range(2, 24) };
        let n = 60 * b.max(8) as u64;
        let m = *r.pick(&[2usize, 3, 4, 5, 7, 16]);
        let mut by_size = vec![0u64; b];
        let mut by_rem = vec![0u64; m];
        let mut mid = vec![0u64; 8];
        let mut pair = vec![0u64; 16];
        let nb = w.bit_len();
        let shift = if nb > W { r.usize(nb - W + 1) } else { 0 };
        // two places in the sample: in different words at the same offset or anywhere
        let low_bits = nb.saturating_sub(W + 12);
        let places = if low_bits >= 8 {
            let a = r.usize(low_bits);
            let b = if r.bool() { r.usize(low_bits) } else { r.usize(low_bits.div_ceil(W)) * W + a % W };
            Some((a, b)).filter(|(a, b)| a.abs_diff(*b) >= 2 && *b < low_bits)
        } else {
            None
        };
        // One distribution for all samples, or a new one for each.
        let kept = r.chance(1, 3);
        let kept_u = if kept && !neg_ok { Some(Uniform::new_inclusive(ub(&low.mag), ub(&high.mag))) } else { None };
        let kept_i = if kept && neg_ok { Some(Uniform::new(ib(&low), ib(&high.add(&Int::from_i128(1))))) } else { None };
        let form = r.usize(8);
        let mut src = Fair(Rng::new(r.u64()), 0);
        for k in 0..n {
            let (x, name) = match (&kept_u, &kept_i) {
                (Some(u), _) => (Int::nat(nat(&u.sample(&mut src))), "UBig distribution kept".to_string()),
                (_, Some(i)) => (int(&i.sample(&mut src)), "IBig distribution kept".to_string()),
                _ => draw(&mut src, form, neg_ok, &low, &high),
            };
            ck.t_msg(&format!("{name}: in range"), in_range(&x), || format!("sample {} outside {}..={}", x.hex(), low.hex(), high.hex()));
            if !in_range(&x) {
                return;
            }
            let d = x.sub(&low).mag;
            let q = d.mul_u32(b as u32).divrem(&w).0.to_u64().unwrap() as usize;
            by_size[q] += 1;
            by_rem[d.div_u32(m as u32).1 as usize] += 1;
            if let Some((a, b)) = places {
                let two = |p: usize| d.bit(p) as usize + 2 * d.bit(p + 1) as usize;
                pair[two(a) * 4 + two(b)] += 1;
            }
            if nb >= 1024 && (nb < 50_000 || k < 2) {
                // No two words of a long sample are equal.
                let bytes = d.to_le();
                let mut words: Vec<&[u8]> = bytes.chunks_exact(8).collect();
                words.truncate((nb / 64).saturating_sub(2));
                let all = words.len();
                words.sort();
                words.dedup();
                ck.t_msg("words of a long sample differ", words.len() == all, || format!("{name}: {} different among {all} in {}", words.len(), d.hex()));
            }
            mid[(d.shr(shift).low_bits(3)).to_u64().unwrap() as usize] += 1;
        }
        let nf = n as f64;
        if places.is_some() {
            let z = chi(&pair, &vec![nf / 16.0; 16]);
            ck.t_msg("bits of a sample independent", z < 7.0, || format!("z = {z:.1}, bits {places:?}, counts {pair:?} of {n}"));
        }
        if b > 1 {
            // exact number of values in each bucket
            let cut = |i: usize| {
                let t = w.mul_u32(i as u32);
                let (q, rem) = t.div_u32(b as u32);
                if rem > 0 {
                    q.add_u32(1)
                } else {
                    q
                }
            };
            let e: Vec<f64> = (0..b).map(|i| nf * ratio(&cut(i + 1).sub(&cut(i)).unwrap(), &w)).collect();
            let z = chi(&by_size, &e);
            ck.t_msg("equal frequencies over the range", z < 7.0, || format!("z = {z:.1}, counts {by_size:?} of {n}"));
        }
        if !small {
            let e: Vec<f64> = (0..m)
                .map(|i| {
                    let (q, rem) = w.div_u32(m as u32);
                    nf * ratio(&if (i as u32) < rem { q.add_u32(1) } else { q }, &w)
                })
                .collect();
            let z = chi(&by_rem, &e);
            ck.t_msg("equal frequencies of residues", z < 7.0, || format!("z = {z:.1}, modulus {m}, counts {by_rem:?} of {n}"));
            if nb > W + 8 && shift + 12 < nb {
                let e = vec![nf / 8.0; 8];
                let z = chi(&mid, &e);
                ck.t_msg("equal frequencies of inner bits", z < 7.0, || format!("z = {z:.1}, bits {shift}.., counts {mid:?} of {n}"));
            }
        }
    }
}

fn main() {
    run_main(&[("C20", c20)]);
}
