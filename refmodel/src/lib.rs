//! Independent reference model: plain schoolbook arithmetic on little-endian u32 limbs,
//! a deterministic PRNG and the operand generators. Nothing here uses or mirrors ibig.
pub mod gen;
pub mod int;
pub mod nat;
pub mod rng;
pub use gen::Gen;
pub use int::Int;
pub use nat::Nat;
pub use rng::Rng;
