//! The same thunks, freestanding, for targets whose code runs here but cannot be loaded next to
//! the monitor. Nothing but the table is exported; the surrounding program belongs to the target.
#![no_std]
#![feature(f16, f128)]
#![allow(internal_features, unused_imports, static_mut_refs, clippy::all)]
extern crate cb as compiler_builtins;

#[cfg(feature = "mem")]
mod mems;
#[cfg(feature = "hex")]
mod status;
#[cfg(feature = "hex")]
use status::st;

include!("../../sut/src/thunks.rs");
include!(concat!(env!("VERIF_GEN"), "/table32.rs"));

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    #[cfg(target_arch = "x86")]
    unsafe {
        core::arch::asm!("ud2", options(noreturn))
    }
    #[cfg(target_arch = "wasm32")]
    core::arch::wasm32::unreachable()
}

#[no_mangle]
pub extern "C" fn sut_table_len() -> usize {
    TABLE.len()
}
#[no_mangle]
pub unsafe extern "C" fn sut_call(i: usize, a: *const u128, r: *mut u128) {
    unsafe { (TABLE[i].f)(a, r) }
}

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn sut_buffer() -> *mut u128 {
    static mut BUF: [u128; 8] = [0; 8];
    unsafe { BUF.as_mut_ptr() }
}
