//! Parts of the conformance suite (libm-test) as a table of thunks, in the layout of `sut`: with
//! feature `mp` its multiprecision references, with `cmp` its comparison of results, with `gen` its
//! input generators.
#![feature(f16, f128)]
#![allow(clippy::all, unused)]

use libm_test::generate::{edge_cases, random, spaced};
#[cfg(feature = "mp")]
use libm_test::mpfloat::MpOp;
use libm_test::{CheckBasis, CheckCtx, CheckOutput, FloatExt, GeneratorKind, MathOp, linear_ints, logspace};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub trait Bits: Sized {
    fn get(x: u128) -> Self;
    fn put(self) -> u128;
}
macro_rules! bits_float {
    ($($t:ty, $u:ty;)*) => {$(
        impl Bits for $t {
            fn get(x: u128) -> Self { <$t>::from_bits(x as $u) }
            fn put(self) -> u128 { self.to_bits() as u128 }
        }
    )*}
}
macro_rules! bits_int {
    ($($t:ty),*) => {$(
        impl Bits for $t {
            fn get(x: u128) -> Self { x as $t }
            fn put(self) -> u128 { self as i128 as u128 }
        }
    )*}
}
bits_float!(f16, u16; f32, u32; f64, u64; f128, u128;);
bits_int!(i32, u32, i64, u64, i128, u128, usize, isize);
impl Bits for bool {
    fn get(x: u128) -> Self {
        x != 0
    }
    fn put(self) -> u128 {
        3 * self as u128
    }
}

pub trait Args {
    unsafe fn load(i: *const u128) -> Self;
    fn save(&self, o: &mut [u128; 3]);
}
macro_rules! args {
    ($($t:ident $v:ident $n:literal),*) => {
        impl<$($t: Bits + Copy),*> Args for ($($t,)*) {
            unsafe fn load(i: *const u128) -> Self {
                unsafe { ($($t::get(*i.add($n)),)*) }
            }
            fn save(&self, o: &mut [u128; 3]) {
                let ($($v,)*) = *self;
                $(o[$n] = $v.put();)*
            }
        }
    };
}
args!(A a 0);
args!(A a 0, B b 1);
args!(A a 0, B b 1, C c 2);
pub trait Ret {
    unsafe fn store(self, o: *mut u128);
    unsafe fn fetch(i: *const u128) -> Self;
}
impl<A: Bits> Ret for A {
    unsafe fn store(self, o: *mut u128) {
        unsafe { *o = self.put() }
    }
    unsafe fn fetch(i: *const u128) -> Self {
        unsafe { A::get(*i) }
    }
}
impl<A: Bits, B: Bits> Ret for (A, B) {
    unsafe fn store(self, o: *mut u128) {
        unsafe {
            *o = self.0.put();
            *o.add(1) = self.1.put();
        }
    }
    unsafe fn fetch(i: *const u128) -> Self {
        unsafe { (A::get(*i), B::get(*i.add(1))) }
    }
}

#[repr(C)]
pub struct Entry {
    route: *const u8,
    name: *const u8,
    op: *const u8,
    sig: *const u8,
    f: unsafe extern "C" fn(*const u128, *mut u128),
}
unsafe impl Sync for Entry {}

fn basis(x: u128) -> CheckBasis {
    match x {
        0 => CheckBasis::Mpfr,
        1 => CheckBasis::Musl,
        _ => CheckBasis::None,
    }
}
fn kind(x: u128) -> GeneratorKind {
    match x {
        0 => GeneratorKind::EdgeCases,
        1 => GeneratorKind::Spaced,
        2 => GeneratorKind::Random,
        _ => GeneratorKind::List,
    }
}

#[cfg(feature = "mp")]
macro_rules! row {
    ($n:ident, $r:ident) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            type R = libm_test::op::$r::Routine;
            thread_local!(static MP: std::cell::RefCell<<R as MpOp>::MpTy> = std::cell::RefCell::new(R::new_mp()));
            let a: <R as MathOp>::RustArgs = unsafe { Args::load(i) };
            MP.with(|m| unsafe { Ret::store(R::run(&mut m.borrow_mut(), a), o) })
        }
    };
}

/// In: input (3), actual (2), expected (2), basis, generator, tolerance override or -1.
/// Out: 0 accepted, 1 refused, 2 panicked; the tolerance or -1.
#[cfg(feature = "cmp")]
macro_rules! row {
    ($n:ident, $r:ident) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            type R = libm_test::op::$r::Routine;
            unsafe {
                let a: <R as MathOp>::RustArgs = Args::load(i);
                let act: <R as MathOp>::RustRet = Ret::fetch(i.add(3));
                let exp: <R as MathOp>::RustRet = Ret::fetch(i.add(5));
                let mut c = CheckCtx::new(R::IDENTIFIER, basis(*i.add(7)), kind(*i.add(8)));
                let u = *i.add(9);
                if u != u128::MAX {
                    c.ulp = Some(u as u32);
                }
                *o.add(1) = c.ulp.map_or(u128::MAX, |x| x as u128);
                *o = match catch_unwind(AssertUnwindSafe(|| act.validate(exp, a, &c).is_ok())) {
                    Ok(true) => 0,
                    Ok(false) => 1,
                    Err(_) => 2,
                };
            }
        }
    };
}

type Sink = extern "C" fn(*mut u8, *const u128) -> bool;
#[cfg(feature = "gen")]
fn drain<A: Args>(it: impl Iterator<Item = A>, sink: Sink, user: *mut u8) {
    let mut b = [0u128; 3];
    for x in it {
        x.save(&mut b);
        if !sink(user, b.as_ptr()) {
            return;
        }
    }
}

/// In: generator, basis, number of iterations, receiver, its context.
/// Out: 0 completed, 1 panicked; the announced number of cases.
#[cfg(feature = "gen")]
macro_rules! row {
    ($n:ident, $r:ident) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            type R = libm_test::op::$r::Routine;
            type A = <R as MathOp>::RustArgs;
            unsafe {
                let mut c = CheckCtx::new(R::IDENTIFIER, basis(*i.add(1)), kind(*i));
                c.override_iterations(*i.add(2) as u64);
                let sink: Sink = std::mem::transmute(*i.add(3) as usize);
                let user = *i.add(4) as usize as *mut u8;
                let said = &mut *o.add(1);
                let r = catch_unwind(AssertUnwindSafe(|| match *i {
                    0 => {
                        let (it, n) = edge_cases::get_test_cases::<R>(&c);
                        *said = n as u128;
                        drain(it, sink, user)
                    }
                    1 => {
                        let (it, n) = spaced::get_test_cases::<R>(&c);
                        *said = n as u128;
                        drain(it, sink, user)
                    }
                    _ => {
                        let (it, n) = random::get_test_cases::<A>(&c);
                        *said = n as u128;
                        drain(it, sink, user)
                    }
                }));
                *o = r.is_err() as u128;
            }
        }
    };
}

#[cfg(feature = "gen")]
mod line {
    use super::*;
    pub unsafe extern "C" fn seed(i: *const u128, o: *mut u128) {
        unsafe { std::ptr::copy_nonoverlapping(random::SEED.as_ptr(), o as *mut u8, 32) }
    }
    macro_rules! floats {
        ($($m:ident $t:ty, $u:ty;)*) => {$(pub mod $m {
            use super::*;
            /// In: which of the four steps, value, count. Out: the value reached.
            pub unsafe extern "C" fn step(i: *const u128, o: *mut u128) {
                unsafe {
                    let (x, n) = (<$t>::get(*i.add(1)), *i.add(2) as $u);
                    *o = match *i {
                        0 => FloatExt::next_up(x),
                        1 => FloatExt::next_down(x),
                        2 => FloatExt::n_up(x, n),
                        _ => FloatExt::n_down(x, n),
                    }.put();
                }
            }
            /// In: first, last, steps, receiver, its context. Out: 0 completed, 1 panicked; announced.
            pub unsafe extern "C" fn space(i: *const u128, o: *mut u128) {
                unsafe {
                    let sink: Sink = std::mem::transmute(*i.add(3) as usize);
                    let user = *i.add(4) as usize as *mut u8;
                    let r = catch_unwind(|| {
                        let (it, n) = logspace::<$t>(Bits::get(*i), Bits::get(*i.add(1)), *i.add(2) as $u);
                        *o.add(1) = n as u128;
                        drain(it.map(|x| (x,)), sink, user)
                    });
                    *o = r.is_err() as u128;
                }
            }
        })*}
    }
    macro_rules! ints {
        ($($m:ident $t:ty;)*) => {$(pub mod $m {
            use super::*;
            pub unsafe extern "C" fn space(i: *const u128, o: *mut u128) {
                unsafe {
                    let sink: Sink = std::mem::transmute(*i.add(3) as usize);
                    let user = *i.add(4) as usize as *mut u8;
                    let r = catch_unwind(|| {
                        let (it, n) = linear_ints::<$t>(*i as $t..=*i.add(1) as $t, *i.add(2) as u64);
                        *o.add(1) = n as u128;
                        drain(it.map(|x| (x,)), sink, user)
                    });
                    *o = r.is_err() as u128;
                }
            }
        })*}
    }
    floats!(h f16, u16; s f32, u32; d f64, u64; q f128, u128;);
    ints!(i i32; l i64; x i128; u u32; ul u64; ux u128;);
}

include!(env!("VERIF_TABLE"));

#[unsafe(no_mangle)]
pub extern "C" fn sut_table() -> *const Entry {
    TABLE.as_ptr()
}
#[unsafe(no_mangle)]
pub extern "C" fn sut_table_len() -> usize {
    TABLE.len()
}
