//! Memory routines over two small arenas: the result is a digest of everything that may have been
//! written, so that a wrong, missing or stray byte anywhere in the arenas changes it.
use compiler_builtins::mem;

const N: usize = 1024;
#[repr(align(64))]
struct Arena([u8; N]);
static mut A: Arena = Arena([0; N]);
static mut B: Arena = Arena([0; N]);

unsafe fn fill(p: *mut u8, mut s: u64) {
    let mut i = 0;
    while i < N {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { p.add(i).write_volatile((s >> 56) as u8) };
        i += 1;
    }
}
unsafe fn digest(p: *const u8) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < N {
        h = (h ^ unsafe { p.add(i).read_volatile() } as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        i += 1;
    }
    h
}
unsafe fn pair(s: u64) -> (*mut u8, *mut u8) {
    let (a, b) = unsafe { (A.0.as_mut_ptr(), B.0.as_mut_ptr()) };
    unsafe {
        fill(a, s);
        fill(b, !s);
    }
    (a, b)
}
fn both(a: *const u8, b: *const u8) -> u64 {
    unsafe { digest(a) ^ digest(b).rotate_left(17) }
}
fn off(x: u64) -> usize {
    64 + x as u32 as usize % 256
}
fn len(x: u64) -> usize {
    x as u32 as usize % 513
}

pub fn copy(n: u64, d: u64, s: u64, seed: u64) -> (u64, i32) {
    unsafe {
        let (a, b) = pair(seed);
        let d = a.add(off(d));
        let r = mem::memcpy(d, b.add(off(s)), len(n));
        (both(a, b), (r as usize).wrapping_sub(d as usize) as i32)
    }
}
pub fn mov(n: u64, d: u64, s: u64, seed: u64) -> (u64, i32) {
    unsafe {
        let (a, b) = pair(seed);
        let d = a.add(off(d));
        let r = mem::memmove(d, a.add(off(s)), len(n));
        (both(a, b), (r as usize).wrapping_sub(d as usize) as i32)
    }
}
pub fn set(n: u64, d: u64, c: u64, seed: u64) -> (u64, i32) {
    unsafe {
        let (a, b) = pair(seed);
        let d = a.add(off(d));
        let r = mem::memset(d, c as i32, len(n));
        (both(a, b), (r as usize).wrapping_sub(d as usize) as i32)
    }
}
/// equal ranges except for the byte at `seed % (length + 1)`, changed by the top byte of the seed
unsafe fn ranges(n: u64, d: u64, s: u64, seed: u64) -> (*const u8, *const u8, usize) {
    unsafe {
        let (a, b) = pair(seed);
        let (x, y, n) = (a.add(off(d)), b.add(off(s)), len(n));
        let mut i = 0;
        while i < n {
            y.add(i).write_volatile(x.add(i).read_volatile());
            i += 1;
        }
        let k = seed as u32 as usize % (n + 1);
        if k < n {
            y.add(k).write_volatile(x.add(k).read_volatile() ^ (seed >> 56) as u8);
        }
        (x, y, n)
    }
}
pub fn cmp(n: u64, d: u64, s: u64, seed: u64) -> i32 {
    unsafe {
        let (x, y, n) = ranges(n, d, s, seed);
        mem::memcmp(x, y, n).signum()
    }
}
pub fn bcmp(n: u64, d: u64, s: u64, seed: u64) -> i32 {
    unsafe {
        let (x, y, n) = ranges(n, d, s, seed);
        (mem::bcmp(x, y, n) != 0) as i32
    }
}
pub fn strlen(n: u64, d: u64, _: u64, seed: u64) -> i32 {
    unsafe {
        let (a, _) = pair(seed);
        let (d, n) = (off(d), len(n));
        let mut i = 0;
        while i < N {
            if i != d + n && a.add(i).read_volatile() == 0 {
                a.add(i).write_volatile(1);
            }
            i += 1;
        }
        a.add(d + n).write_volatile(0);
        mem::strlen(a.add(d) as *const _) as i32
    }
}
