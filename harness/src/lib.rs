//! Runtime monitors for enum_vec, enum_like, enum_like_derive and enum_set2.
pub mod alloc;
pub mod consume;
pub mod el;
pub mod gen;
pub mod report;
pub mod rng;

// `bare`: no vectors, so that a wrong limit does not keep the limit programs from being judged
#[cfg(not(feature = "bare"))]
pub mod dynvec;
#[cfg(not(feature = "bare"))]
pub mod engine;
#[cfg(not(feature = "bare"))]
pub mod hist;
#[cfg(not(feature = "bare"))]
pub mod mons;
