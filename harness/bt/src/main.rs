//! Prints every value the test drivers of the builtins hand to a routine under test.
#![feature(f16, f128)]
use builtins_test::*;
use std::cell::RefCell;
use std::io::Write;

type Out = std::io::BufWriter<std::io::Stdout>;

fn head(o: &mut Out, driver: &str, ty: &str, n: u32) {
    writeln!(o, "# {driver} {ty} {n}").unwrap();
}

macro_rules! ints {
    ($o:expr, $n:expr, $($t:ident $u:ident),*) => { $(
        head($o, "fuzz", stringify!($t), $n);
        fuzz($n, |x: $t| writeln!($o, "{:x}", x as $u).unwrap());
        head($o, "fuzz_2", stringify!($t), $n);
        let c = RefCell::new(&mut *$o);
        fuzz_2($n, |x: $t, y: $t| writeln!(c.borrow_mut(), "{:x} {:x}", x as $u, y as $u).unwrap());
        head($o, "fuzz_shift", stringify!($t), 0);
        let c = RefCell::new(&mut *$o);
        fuzz_shift(|x: $t, s: u32| writeln!(c.borrow_mut(), "{:x} {:x}", x as $u, s).unwrap());
    )* };
}

macro_rules! floats {
    ($o:expr, $n:expr, $($t:ident),*) => { $(
        head($o, "fuzz_float", stringify!($t), $n);
        let c = RefCell::new(&mut *$o);
        fuzz_float($n, |x: $t| writeln!(c.borrow_mut(), "{:x}", x.to_bits()).unwrap());
        head($o, "fuzz_float_2", stringify!($t), $n);
        let c = RefCell::new(&mut *$o);
        fuzz_float_2($n, |x: $t, y: $t| writeln!(c.borrow_mut(), "{:x} {:x}", x.to_bits(), y.to_bits()).unwrap());
    )* };
}

fn main() {
    let n: u32 = std::env::args().nth(1).unwrap().parse().unwrap();
    let mut out = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout());
    let o = &mut out;
    ints!(o, n, u16 u16, u32 u32, u64 u64, u128 u128, i32 u32, i64 u64, i128 u128, usize usize);
    floats!(o, n, f16, f32, f64, f128);
    writeln!(o, "# end").unwrap();
}
