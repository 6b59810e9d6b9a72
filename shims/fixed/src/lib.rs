//! Offline stand-in for `blockworks-foundation/fixed` (v1.11.0-borsh0_10-mango, feature
//! `debug-assert-in-release`), written from the public documentation of the `fixed` crate.
//!
//! Semantics that matter and are reproduced:
//!  * values are two's complement integers of `DELTA` units
//!  * multiplication rounds toward negative infinity, division truncates toward zero
//!  * conversion from float rounds to nearest (ties to even); NaN/inf/overflow panic
//!  * conversion to integer rounds toward negative infinity, overflow panics
//!  * all operator overflow panics ("debug-assert-in-release")
//!  * comparisons against primitive numbers are exact
#![allow(clippy::all)]

mod wide;
mod float;
#[macro_use]
mod imp;
pub mod traits;
pub mod types;
mod text;

pub use text::ParseFixedError;
pub use types::*;

/// What a primitive or fixed-point number denotes: sign, magnitude `int.frac` with 128 fractional bits.
#[doc(hidden)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Exact {
    pub neg: bool,
    pub int: u128,
    pub frac: u128,
}

impl Exact {
    pub fn cmp(&self, o: &Exact) -> core::cmp::Ordering {
        use core::cmp::Ordering::*;
        let za = self.int == 0 && self.frac == 0;
        let zb = o.int == 0 && o.frac == 0;
        let na = self.neg && !za;
        let nb = o.neg && !zb;
        match (na, nb) {
            (true, false) => Less,
            (false, true) => Greater,
            (false, false) => (self.int, self.frac).cmp(&(o.int, o.frac)),
            (true, true) => (o.int, o.frac).cmp(&(self.int, self.frac)),
        }
    }
}
