use libm::support::{FpResult, Status};

#[inline(always)]
pub fn st<T>(r: FpResult<T>) -> (T, u32) {
    let s = r.status;
    let mut b = 0;
    if s.inexact() {
        b |= 16
    }
    if s.underflow() {
        b |= 8
    }
    if s.overflow() {
        b |= 4
    }
    if s != Status::OK && b == 0 {
        b |= 1
    }
    (r.val, b)
}
