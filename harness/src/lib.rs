//! Monitoring harness: drives the real ibig code with generated workloads and compares every
//! observation with the independent reference model.
#![allow(clippy::all)]
pub mod alloc;
pub mod ck;
pub mod conv;
pub mod giant;
pub mod hist;
pub mod obs;
pub mod runner;
pub mod soup;
pub mod world;
pub use ck::{Ck, Must};
pub use conv::*;
pub use hist::*;
pub use obs::*;
pub use ibig::{IBig, UBig};
pub use refmodel::{Gen, Int, Nat, Rng};
pub use runner::run_main;
pub use soup::Soup;
/// Bits per machine word of the configuration under test.
pub const W: usize = if cfg!(force_bits = "16") {
    16
} else if cfg!(force_bits = "32") {
    32
} else if cfg!(force_bits = "64") {
    64
} else if cfg!(target_pointer_width = "64") {
    64
} else if cfg!(target_pointer_width = "16") {
    16
} else {
    32
};
pub const G: Gen = Gen { w: W };
/// An index or amount which an operation that drops its high bits takes for `small`.
pub fn alias(r: &mut Rng, small: usize) -> usize {
    let k = match r.usize(4) {
        0 => 32,
        1 => *r.pick(&[8u32, 16, 31, 33, 48, 63]),
        _ => r.usize(64) as u32,
    };
    let step = 1usize.checked_shl(k).unwrap_or(1 << 31);
    match r.usize(3) {
        0 => small.wrapping_add(step),
        1 => small.wrapping_add(step.wrapping_mul(1 + r.usize(7))),
        _ => small.wrapping_sub(step),
    }
}
