//! The library's ARM Linux atomic helpers compiled for this machine. The driver copies the module
//! from the tree under test and only translates its one load instruction; the kernel helpers it
//! calls at fixed addresses are provided by the monitor.
#![allow(dead_code, unused)]

macro_rules! intrinsics {
    ($($(#[$m:meta])* pub unsafe extern "C" fn $name:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)]
        #[inline(never)]
        pub unsafe extern "C" fn $name($($a: $t),*) $(-> $r)? $b)*
    };
}

#[path = "../../../build/gen/arm_linux.rs"]
mod arm_linux;
