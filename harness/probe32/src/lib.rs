//! The stack probe's own source for 32-bit x86, with its address handed to a C program.
#![no_std]
#![feature(abi_custom, rustc_attrs)]
#![allow(internal_features)]

#[path = "/repo/compiler-builtins/src/probestack.rs"]
mod probestack;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[unsafe(no_mangle)]
pub extern "C" fn probe_address() -> usize {
    let a: usize;
    unsafe { core::arch::asm!("lea {}, [{}]", out(reg) a, sym probestack::__rust_probestack) };
    a
}
