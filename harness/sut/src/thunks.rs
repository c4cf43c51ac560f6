pub trait Bits: Sized {
    fn get(x: u128) -> Self;
    fn put(self) -> u128;
}

macro_rules! bits_float {
    ($($t:ty, $u:ty;)*) => {$(
        impl Bits for $t {
            #[inline(always)]
            fn get(x: u128) -> Self { <$t>::from_bits(x as $u) }
            #[inline(always)]
            fn put(self) -> u128 { self.to_bits() as u128 }
        }
    )*}
}
macro_rules! bits_int {
    ($($t:ty),*) => {$(
        impl Bits for $t {
            #[inline(always)]
            fn get(x: u128) -> Self { x as $t }
            #[inline(always)]
            fn put(self) -> u128 { self as i128 as u128 }
        }
    )*}
}
bits_float!(f16, u16; f32, u32; f64, u64; f128, u128;);
bits_int!(i32, u32, i64, u64, i128, u128, usize, isize);

pub trait Ret {
    unsafe fn store(self, out: *mut u128);
}
impl<A: Bits> Ret for A {
    #[inline(always)]
    unsafe fn store(self, out: *mut u128) {
        unsafe { *out = self.put() }
    }
}
impl<A: Bits, B: Bits> Ret for (A, B) {
    #[inline(always)]
    unsafe fn store(self, out: *mut u128) {
        unsafe {
            *out = self.0.put();
            *out.add(1) = self.1.put();
        }
    }
}
impl<A: Bits, B: Bits, C: Bits> Ret for (A, B, C) {
    #[inline(always)]
    unsafe fn store(self, out: *mut u128) {
        unsafe {
            *out = self.0.put();
            *out.add(1) = self.1.put();
            *out.add(2) = self.2.put();
        }
    }
}

pub const POISON: u64 = 0x5a5a_5a5a_5a5a_5a5a;

/// Run an overflow-reporting routine with the flag word preset to 0 and to junk; both runs must
/// produce the same result and verdict (3 = overflow reported twice, 0 = never).
#[inline(always)]
pub fn oflow<T: Copy + PartialEq>(f: impl Fn(&mut i32) -> T) -> (T, i32) {
    let mut a = 0;
    let mut b = 0x5a5a_5a5a;
    let r2 = f(&mut b);
    let r = f(&mut a);
    (r, (a != 0) as i32 + 2 * (b != 0) as i32 + 4 * (r != r2) as i32)
}

#[repr(C)]
pub struct Entry {
    route: *const u8,
    name: *const u8,
    op: *const u8,
    sig: *const u8,
    f: unsafe extern "C" fn(*const u128, *mut u128),
}
unsafe impl Sync for Entry {}

macro_rules! thunk {
    ($n:ident, ($a:ty), $r:ty, $e:expr) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            let f: fn($a) -> $r = |a| ($e)(a);
            unsafe { Ret::store(f(Bits::get(*i)), o) }
        }
    };
    ($n:ident, ($a:ty, $b:ty), $r:ty, $e:expr) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            let f: fn($a, $b) -> $r = |a, b| ($e)(a, b);
            unsafe { Ret::store(f(Bits::get(*i), Bits::get(*i.add(1))), o) }
        }
    };
    ($n:ident, ($a:ty, $b:ty, $c:ty), $r:ty, $e:expr) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            let f: fn($a, $b, $c) -> $r = |a, b, c| ($e)(a, b, c);
            unsafe { Ret::store(f(Bits::get(*i), Bits::get(*i.add(1)), Bits::get(*i.add(2))), o) }
        }
    };
    ($n:ident, ($a:ty, $b:ty, $c:ty, $d:ty), $r:ty, $e:expr) => {
        unsafe extern "C" fn $n(i: *const u128, o: *mut u128) {
            let f: fn($a, $b, $c, $d) -> $r = |a, b, c, d| ($e)(a, b, c, d);
            unsafe {
                Ret::store(
                    f(Bits::get(*i), Bits::get(*i.add(1)), Bits::get(*i.add(2)), Bits::get(*i.add(3))),
                    o,
                )
            }
        }
    };
}
