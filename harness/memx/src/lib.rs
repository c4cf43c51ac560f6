//! The library's own memory module compiled under settings that the crate's build script does not
//! select on this machine (no unaligned loads, no SSE2).
#![allow(internal_features, dead_code, unused)]
#![feature(core_intrinsics, linkage)]
#![no_builtins]

mod support {
    pub fn cold_path() {}
}

macro_rules! intrinsics {
    ($($(#[$m:meta])* pub unsafe extern "C" fn $name:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[inline(never)]
        pub unsafe extern "C" fn $name($($a: $t),*) $(-> $r)? $b)*
    };
}

#[path = "/repo/compiler-builtins/src/mem/mod.rs"]
pub mod mem;

/// Addresses of the memory routines: memcpy, memmove, memset, memcmp, bcmp, strlen.
#[unsafe(no_mangle)]
pub extern "C" fn sut_mem(out: *mut usize) {
    let p: [usize; 6] = [
        mem::memcpy as *const () as usize,
        mem::memmove as *const () as usize,
        mem::memset as *const () as usize,
        mem::memcmp as *const () as usize,
        mem::bcmp as *const () as usize,
        mem::strlen as *const () as usize,
    ];
    for (i, v) in p.iter().enumerate() {
        unsafe { *out.add(i) = *v }
    }
}
