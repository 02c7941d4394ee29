//! Values observable as an integer of the reference model.
use crate::conv::*;
use crate::ck::Ck;
use ibig::{IBig, UBig};
use refmodel::Int;

pub trait Obs {
    fn obs(&self) -> Int;
    /// Compares equal to a freshly built value of the same number.
    fn fresh_eq(&self, w: &Int) -> bool;
}
impl Obs for UBig {
    fn obs(&self) -> Int {
        Int::nat(nat(self))
    }
    fn fresh_eq(&self, w: &Int) -> bool {
        *self == ub(&w.mag)
    }
}
impl Obs for IBig {
    fn obs(&self) -> Int {
        int(self)
    }
    fn fresh_eq(&self, w: &Int) -> bool {
        *self == ib(w)
    }
}
macro_rules! obs_s { ($($t:ty)*) => {$(impl Obs for $t {
    fn obs(&self) -> Int { Int::from_i128(*self as i128) }
    fn fresh_eq(&self, w: &Int) -> bool { self.obs() == *w }
})*}}
macro_rules! obs_u { ($($t:ty)*) => {$(impl Obs for $t {
    fn obs(&self) -> Int { Int::from_u128(*self as u128) }
    fn fresh_eq(&self, w: &Int) -> bool { self.obs() == *w }
})*}}
obs_s!(i8 i16 i32 i64 i128 isize);
obs_u!(u8 u16 u32 u64 u128 usize);

fn seen<T: Obs>(g: T) -> Seen {
    let o = g.obs();
    let f = g.fresh_eq(&o);
    Seen { v: o, w: None, fresh: f }
}
/// What was seen of a result: its value(s), and whether it equals a freshly built value.
pub struct Seen {
    pub v: Int,
    pub w: Option<Int>,
    pub fresh: bool,
}
pub fn one<T: Obs>(g: T) -> Seen {
    seen(g)
}
pub fn two<T: Obs, U: Obs>(g: (T, U)) -> Seen {
    let (a, b) = (seen(g.0), seen(g.1));
    Seen { v: a.v, w: Some(b.v), fresh: a.fresh && b.fresh }
}

impl Ck {
    /// The call returns `want`, or panics when there is no result.
    #[inline(never)]
    pub fn res(&mut self, label: &str, want: Option<&Int>, f: &mut dyn FnMut() -> Seen) {
        match want {
            None => self.panics(label, f),
            Some(w) => {
                if let Some(g) = self.ok(label, f) {
                    self.t_msg(label, g.v == *w && g.fresh, || format!("got {} want {} (equals a fresh value: {})", g.v.hex(), w.hex(), g.fresh));
                }
            }
        }
    }
    /// Like `res` for pairs.
    #[inline(never)]
    pub fn res2(&mut self, label: &str, want: Option<(&Int, &Int)>, f: &mut dyn FnMut() -> Seen) {
        match want {
            None => self.panics(label, f),
            Some((w, v)) => {
                if let Some(g) = self.ok(label, f) {
                    let h = g.w.as_ref().unwrap();
                    self.t_msg(label, g.v == *w && h == v && g.fresh, || {
                        format!("got {}, {} want {}, {} (equal fresh values: {})", g.v.hex(), h.hex(), w.hex(), v.hex(), g.fresh)
                    });
                }
            }
        }
    }
}

/// A primitive integer type drawn for a test: interesting values of its own and of the machine word.
pub trait Prim: Copy + Obs + std::fmt::Debug {
    const NAME: &'static str;
    const SIGNED: bool;
    fn draw(r: &mut refmodel::Rng) -> Self;
}
macro_rules! prim { ($($t:ident $s:expr;)*) => {$(impl Prim for $t {
    const NAME: &'static str = stringify!($t);
    const SIGNED: bool = $s;
    fn draw(r: &mut refmodel::Rng) -> $t {
        let bits = <$t>::BITS;
        match r.usize(10) {
            0 => 0,
            1 => 1,
            2 => <$t>::MAX,
            3 => <$t>::MIN,
            4 => <$t>::MAX - r.usize(3) as $t,
            5 => <$t>::MIN + r.usize(3) as $t,
            6 => ((1u128 << r.usize(bits as usize)) as $t).wrapping_add(r.usize(3) as $t).wrapping_sub(1),
            7 => (0 as $t).wrapping_sub(r.usize(9) as $t),
            8 => r.usize(20) as $t,
            _ => (r.u128() >> r.usize(128)) as $t,
        }
    }
})*}}
prim! { u8 false; u16 false; u32 false; u64 false; u128 false; usize false; i8 true; i16 true; i32 true; i64 true; i128 true; isize true; }

pub fn nonneg(x: Int) -> Option<Int> {
    if x.neg {
        None
    } else {
        Some(x)
    }
}
