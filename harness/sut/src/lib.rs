//! Uniform thunks over every routine of the library, so that one monitor can drive all of them in
//! any build configuration: arguments and results travel as raw bits in `u128` slots.
#![feature(f16, f128)]
#![allow(internal_features, unused_imports, clippy::all)]

#[cfg(feature = "hex")]
mod hex;
#[cfg(feature = "mem")]
mod mems;
#[cfg(feature = "hex")]
use hex::st;

include!("thunks.rs");
include!(concat!(env!("VERIF_GEN"), "/table.rs"));

#[no_mangle]
pub extern "C" fn sut_table() -> *const Entry {
    TABLE.as_ptr()
}
#[no_mangle]
pub extern "C" fn sut_table_len() -> usize {
    TABLE.len()
}
