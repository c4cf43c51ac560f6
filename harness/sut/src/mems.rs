/// Addresses of the memory routines: memcpy, memmove, memset, memcmp, bcmp, strlen.
#[no_mangle]
pub extern "C" fn sut_mem(out: *mut usize) {
    use compiler_builtins::mem;
    let p: [usize; 6] = [
        mem::memcpy as *const () as usize,
        mem::memmove as *const () as usize,
        mem::memset as *const () as usize,
        mem::memcmp as *const () as usize,
        mem::bcmp as *const () as usize,
        mem::strlen as *const () as usize,
    ];
    for (i, v) in p.iter().enumerate() {
        unsafe { *out.add(i) = *v }
    }
}
