//! Values shared by several threads, and tasks on them.
use crate::Rng;
use ibig::ops::*;
use ibig::{IBig, Modulo, ModuloRing, UBig};
use rand::distributions::uniform::Uniform;
use rand::distributions::Distribution;

/// A reference handed to other threads (whether or not the type admits to being shareable: the race detector decides).
pub struct Hand<T>(pub T);
unsafe impl<T> Send for Hand<T> {}
unsafe impl<T> Sync for Hand<T> {}
impl<T> Hand<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn take(self) -> T {
        self.0
    }
}

pub struct World<'a> {
    pub u: Vec<UBig>,
    pub i: Vec<IBig>,
    pub ring: &'a ModuloRing,
    pub big_ring: &'a ModuloRing,
    pub m: Vec<Modulo<'a>>,
    pub bm: Vec<Modulo<'a>>,
    pub us: Uniform<UBig>,
    pub is: Uniform<IBig>,
}
pub struct Src(pub Rng);
impl rand::RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|x| *x = self.0.u32() as u8)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub const NT: usize = 24;
/// One task on shared values; its result as text.
pub fn task(w: &World, k: usize, a: usize, b: usize, s: u64) -> String {
    let (x, y) = (&w.u[a % w.u.len()], &w.u[b % w.u.len()]);
    let (i, j) = (&w.i[a % w.i.len()], &w.i[b % w.i.len()]);
    let radix = 2 + (s % 35) as u32;
    match k % NT {
        0 => (x * y).to_string(),
        1 => (x + y).to_string(),
        2 => (i - j).to_string(),
        3 => {
            let (q, r) = x.div_rem(&(y + 1u8));
            format!("{q} {r}")
        }
        4 => x.in_radix(radix).to_string(),
        5 => format!("{:?}", UBig::from_str_radix(&x.in_radix(radix).to_string(), radix)),
        6 => (x.gcd(&(y + 1u8))).to_string(),
        7 => format!("{:x}", i & j),
        8 => format!("{:?}", (x << (s % 99) as usize) >> (s % 77) as usize),
        9 => {
            let m = &w.m[a % w.m.len()] * &w.m[b % w.m.len()];
            format!("{}", m + &w.m[0])
        }
        10 => format!("{}", &w.bm[a % w.bm.len()] * &w.bm[b % w.bm.len()] - &w.bm[0]),
        11 => format!("{}", w.bm[a % w.bm.len()].pow(&UBig::from(s % 50))),
        12 => format!("{:?}", w.bm[a % w.bm.len()].inverse().map(|x| x.residue())),
        13 => {
            let m = w.big_ring.from(i);
            let mut n = m.clone();
            n += &w.bm[1 % w.bm.len()];
            format!("{}", n.residue())
        }
        14 => w.us.sample(&mut Src(Rng::new(s))).to_string(),
        15 => w.is.sample(&mut Src(Rng::new(s))).to_string(),
        16 => serde_json::to_string(i).unwrap(),
        17 => {
            let mut t = x.clone();
            t.set_bit((s % 500) as usize);
            t.clone_from(y);
            t -= t.clone() >> 1usize;
            t.to_string()
        }
        18 => format!("{:?} {:?} {}", x.cmp(y), i == j, x.bit((s % 300) as usize)),
        19 => format!("{} {}", w.ring.from(x).residue(), w.ring.modulus()),
        20 => format!("{:e} {}", x.to_f64(), i.to_f32()),
        21 => format!("{:?}", x.to_be_bytes()),
        22 => (x.pow((s % 4) as usize)).to_string(),
        _ => {
            // a panic in one thread must not disturb the others
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x / UBig::from(s as u8 & 0)));
            format!("{}", r.is_err())
        }
    }
}

