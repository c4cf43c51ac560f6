use libm::support::{FpResult, Status};

#[inline(always)]
pub fn st<T>(r: FpResult<T>) -> (T, u32) {
    let s = r.status;
    let mut b = 0;
    if s.inexact() {
        b |= 16
    }
    if s.underflow() {
        b |= 8
    }
    if s.overflow() {
        b |= 4
    }
    if s != Status::OK && b == 0 {
        b |= 1
    }
    (r.val, b)
}

fn hexerr() -> (u128, u32) {
    (0, 0x80)
}

/// Parse hex float text: returns status bits, 0x80 = rejected; `exact` selects the exact parser.
#[no_mangle]
pub unsafe extern "C" fn sut_hex_parse(s: *const u8, n: usize, bits: u32, sig: u32, round: u32, exact: u32, out: *mut u128) -> u32 {
    use libm::support::hex_float::{parse_any, parse_hex_exact};
    use libm::support::Round;
    let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(s, n)) };
    let r = match round {
        0 => Round::Nearest,
        1 => Round::Negative,
        2 => Round::Positive,
        _ => Round::Zero,
    };
    let (v, st) = if exact != 0 {
        match parse_hex_exact(s, bits, sig) {
            Ok(v) => (v, 0),
            Err(_) => hexerr(),
        }
    } else {
        match parse_any(s, bits, sig, r) {
            Ok((v, st)) => (v, crate::st(FpResult::new((), st)).1),
            Err(_) => hexerr(),
        }
    };
    unsafe { *out = v };
    st
}

/// Format a float (t = 16, 32, 64, 128 bits wide) as hex text into buf; returns length.
#[no_mangle]
pub unsafe extern "C" fn sut_hex_fmt(bits: u128, t: u32, buf: *mut u8, cap: usize) -> usize {
    use libm::support::Hex;
    let s = match t {
        16 => format!("{}", Hex(f16::from_bits(bits as u16))),
        32 => format!("{}", Hex(f32::from_bits(bits as u32))),
        64 => format!("{}", Hex(f64::from_bits(bits as u64))),
        _ => format!("{}", Hex(f128::from_bits(bits))),
    };
    let n = s.len().min(cap);
    unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), buf, n) };
    n
}
