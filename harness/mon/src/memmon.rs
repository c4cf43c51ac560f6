//! Monitor for the memory routines: a byte-exact shadow model (contents) and guard pages plus a
//! register/flag probe (containment), over every variant the driver built.
use crate::dl::Lib;
use crate::gen::Rng;
use crate::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const NAMES: [&str; 6] = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen"];
const PAGE: usize = 4096;

std::arch::global_asm!(
    ".globl vm_probe",
    "vm_probe:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 0x108",
    "mov r9, qword ptr [rip + VM_OUT@GOTPCREL]",
    "mov [r9], r8",
    "mov r9, qword ptr [rip + VM_RSP@GOTPCREL]",
    "mov [r9], rsp",
    "mov r10, 0x5ca1ab1e0ddba11a",
    "mov r11d, 31",
    "2: mov [rsp + r11*8], r10",
    "dec r11d",
    "jns 2b",
    "stmxcsr [r8 + 128]",
    "fnstcw [r8 + 144]",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov rbx, 0x1111222233334441",
    "mov rbp, 0x1111222233334442",
    "mov r12, 0x1111222233334443",
    "mov r13, 0x1111222233334444",
    "mov r14, 0x1111222233334445",
    "mov r15, 0x1111222233334446",
    "call rax",
    "mov r8, qword ptr [rip + VM_OUT@GOTPCREL]",
    "mov r8, [r8]",
    "mov [r8], rsp",
    "mov r9, qword ptr [rip + VM_RSP@GOTPCREL]",
    "mov rsp, [r9]",
    "pushfq",
    "pop rcx",
    "cld",
    "mov [r8 + 8], rcx",
    "mov [r8 + 16], rbx",
    "mov [r8 + 24], rbp",
    "mov [r8 + 32], r12",
    "mov [r8 + 40], r13",
    "mov [r8 + 48], r14",
    "mov [r8 + 56], r15",
    "mov [r8 + 64], rsp",
    "stmxcsr [r8 + 136]",
    "fnstcw [r8 + 152]",
    "mov r11d, 31",
    "xor edx, edx",
    "mov r10, 0x5ca1ab1e0ddba11a",
    "3: cmp [rsp + r11*8], r10",
    "je 4f",
    "inc edx",
    "4: dec r11d",
    "jns 3b",
    "mov [r8 + 72], rdx",
    "add rsp, 0x108",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
#[no_mangle]
static mut VM_OUT: usize = 0;
#[no_mangle]
static mut VM_RSP: usize = 0;
unsafe extern "C" {
    fn vm_probe(f: usize, a: usize, b: usize, c: usize, out: *mut u64) -> usize;
    fn memfd_create(n: *const i8, f: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn sigaltstack(a: *const [usize; 3], o: *mut [usize; 3]) -> i32;
}
#[repr(C)]
struct Sa {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}

/// Run one call with sentinels in every callee-saved register; returns (result, what was broken).
pub unsafe fn probe(f: usize, a: usize, b: usize, c: usize) -> (usize, Option<String>) {
    let mut o = [0u64; 24];
    let r = vm_probe(f, a, b, c, o.as_mut_ptr());
    let mut bad = vec![];
    if o[1] & 0x400 != 0 {
        bad.push("direction flag left set".to_string());
    }
    for (i, n) in ["rbx", "rbp", "r12", "r13", "r14", "r15"].iter().enumerate() {
        if o[2 + i] != 0x1111222233334441 + i as u64 {
            bad.push(format!("callee-saved {n} changed"));
        }
    }
    if o[0] != o[8] {
        bad.push("stack pointer not restored".into());
    }
    if o[9] != 0 {
        bad.push("the caller's stack frame was overwritten".into());
    }
    if (o[16] ^ o[17]) & 0xffc0 != 0 {
        bad.push("SSE control bits changed".into());
    }
    if (o[18] ^ o[19]) & 0xffff != 0 {
        bad.push("x87 control word changed".into());
    }
    (r, if bad.is_empty() { None } else { Some(bad.join(", ")) })
}

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
struct Case {
    /// length, destination/first offset, source/second offset
    n: usize,
    d: usize,
    s: usize,
    /// fill value, difference position, terminator data
    c: u64,
    x: usize,
    place: usize,
}

#[repr(C)]
struct Shm {
    seq: AtomicU64,
    case: Case,
    base: [usize; 4],
    fault: usize,
    evals: u64,
    checks: u64,
    distinct: u64,
    done: u64,
    nviol: u64,
    vcase: [Case; 8],
    vtext: [[u8; 192]; 8],
    samples: [Case; 4],
    nsamp: u64,
}

static mut SHM: *mut Shm = std::ptr::null_mut();

extern "C" fn on_fault(_s: i32, info: *const u8, _c: usize) {
    unsafe {
        (*SHM).fault = *(info.add(16) as *const usize);
        sys::_exit(77)
    }
}
unsafe fn install() {
    let st = sys::shared(1 << 16);
    sigaltstack(&[st as usize, 0, 1 << 16], std::ptr::null_mut());
    for s in [11, 7] {
        let a = Sa { h: on_fault as *const () as usize, mask: [0; 16], flags: 0x08000004, rest: 0 };
        sigaction(s, &a, std::ptr::null_mut());
    }
}

fn report(s: &mut Shm, c: Case, t: &str) {
    let k = s.nviol as usize;
    if k < 8 {
        s.vcase[k] = c;
        let b = t.as_bytes();
        let n = b.len().min(191);
        s.vtext[k] = [0; 192];
        s.vtext[k][..n].copy_from_slice(&b[..n]);
    }
    s.nviol += 1;
}

struct Ctx {
    s: *mut Shm,
    op: usize,
    f: usize,
    seen: HashSet<u64>,
    rng: Rng,
    end: Instant,
}

fn fill(r: &mut Rng, p: &mut [u8]) {
    let mut x = r.u64() | 1;
    for c in p.chunks_mut(8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let b = x.to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&b[..n]);
    }
}

impl Ctx {
    fn note(&mut self, c: &Case) {
        let s = unsafe { &mut *self.s };
        s.evals += 1;
        let nb = if c.n <= 512 { c.n as u64 } else { 512 + (usize::BITS - c.n.leading_zeros()) as u64 * 16 + (c.n as u64 & 15) };
        let delta = (c.d as i64 - c.s as i64).clamp(-600, 600) as u64 & 0xfff;
        let key = nb | (c.d as u64 & 31) << 12 | (c.s as u64 & 31) << 18 | delta << 24 | (c.x.min(511) as u64) << 36 | (c.place as u64) << 46;
        if self.seen.len() < 4_000_000 && self.seen.insert(key) {
            s.distinct = self.seen.len() as u64;
        }
        if s.nsamp < 4 && c.n > 0 && (s.evals.is_power_of_two()) && s.evals > 64 {
            let k = s.nsamp as usize;
            s.samples[k] = *c;
            s.nsamp += 1;
        }
    }
    fn go(&self) -> bool {
        let s = unsafe { &*self.s };
        s.nviol < 6 && Instant::now() < self.end
    }
}

// ------------------------------------------------------------------ shadow arena (contents)
struct Arena {
    b: *mut u8,
    len: usize,
    shadow: Vec<u8>,
}
impl Arena {
    fn new(len: usize, r: &mut Rng) -> Arena {
        let p = unsafe { sys::mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0) } as *mut u8;
        let mut a = Arena { b: p, len, shadow: vec![0; len] };
        fill(r, &mut a.shadow);
        a.sync();
        a
    }
    fn sync(&mut self) {
        unsafe { std::ptr::copy_nonoverlapping(self.shadow.as_ptr(), self.b, self.len) }
    }
    fn set(&mut self, i: usize, v: u8) {
        self.shadow[i] = v;
        unsafe { *self.b.add(i) = v }
    }
    fn check(&self, lo: usize, hi: usize) -> Option<usize> {
        let a = unsafe { std::slice::from_raw_parts(self.b, self.len) };
        let (lo, hi) = (lo.min(self.len), hi.min(self.len));
        if a[lo..hi] == self.shadow[lo..hi] {
            return None;
        }
        (lo..hi).find(|&i| a[i] != self.shadow[i])
    }
}

unsafe fn shadow_case(x: &mut Ctx, ar: &mut Arena, mut c: Case) {
    let s = &mut *x.s;
    let base = ar.b as usize;
    // prepare
    match x.op {
        3 | 4 => {
            // make the second range equal the first, then plant differences
            let big = c.n > 4096;
            if c.d < c.s || c.d >= c.s + c.n.max(1) {
                for i in 0..c.n {
                    let v = ar.shadow[c.d + i];
                    ar.set(c.s + i, v);
                }
            }
            if c.x < c.n {
                let v = ar.shadow[c.d + c.x];
                let w = match c.c % 6 {
                    0 => v ^ 0x80,
                    1 => v ^ 1,
                    2 => v.wrapping_add(1),
                    3 => v.wrapping_sub(1),
                    4 => !v,
                    _ => v ^ ((c.c >> 8) as u8 | 1),
                };
                ar.set(c.s + c.x, w);
                // later bytes differ the other way round
                if c.c & 0x40 != 0 {
                    for k in 1..24 {
                        if c.x + k < c.n {
                            let w2 = if v < w { 0 } else { 255 };
                            ar.set(c.s + c.x + k, w2);
                        }
                    }
                }
            }
            // bytes beyond the range differ
            if c.s + c.n < ar.len && c.d + c.n < ar.len && !big {
                let v = ar.shadow[c.d + c.n];
                ar.set(c.s + c.n, v.wrapping_add(0x55));
            }
        }
        5 => {
            for i in 0..c.n {
                if ar.shadow[c.d + i] == 0 {
                    ar.set(c.d + i, (1u8 << (i & 7)) | 0x80 * ((c.c & 1) as u8));
                }
                if c.c & 2 != 0 {
                    ar.set(c.d + i, if (i + c.x) % 3 == 0 { 0x80 } else { 0x01 });
                }
                if c.c & 4 != 0 {
                    ar.set(c.d + i, 0xff);
                }
            }
            ar.set(c.d + c.n, 0);
            if c.d > 0 && c.c & 8 != 0 {
                ar.set(c.d - 1, 0);
                for k in 1..=15 {
                    if c.d >= k {
                        ar.set(c.d - k, 0);
                    }
                }
            }
            if c.c & 16 != 0 && c.d + c.n + 1 < ar.len {
                ar.set(c.d + c.n + 1, 0);
            }
        }
        _ => {}
    }
    s.case = c;
    s.base = [base, ar.len, 0, 0];
    s.seq.fetch_add(1, SeqCst);
    let d = base + c.d;
    let src = base + c.s;
    let fill_int = c.c as i32;
    let r: usize = match x.op {
        0 | 1 => {
            let f: unsafe extern "C" fn(usize, usize, usize) -> usize = std::mem::transmute(x.f);
            f(d, src, c.n)
        }
        2 => {
            let f: unsafe extern "C" fn(usize, i32, usize) -> usize = std::mem::transmute(x.f);
            f(d, fill_int, c.n)
        }
        3 | 4 => {
            let f: unsafe extern "C" fn(usize, usize, usize) -> i32 = std::mem::transmute(x.f);
            f(d, src, c.n) as isize as usize
        }
        _ => {
            let f: unsafe extern "C" fn(usize) -> usize = std::mem::transmute(x.f);
            f(d)
        }
    };
    std::arch::asm!("cld");
    s.seq.fetch_add(1, SeqCst);
    // expected
    match x.op {
        0 | 1 => {
            let t: Vec<u8> = ar.shadow[c.s..c.s + c.n].to_vec();
            ar.shadow[c.d..c.d + c.n].copy_from_slice(&t);
            if r != d {
                report(s, c, &format!("returned {:#x} instead of the destination", r.wrapping_sub(base)));
            }
        }
        2 => {
            ar.shadow[c.d..c.d + c.n].fill(fill_int as u8);
            if r != d {
                report(s, c, "did not return the destination");
            }
        }
        3 | 4 => {
            let (mut want, mut at) = (0i64, 0);
            for i in 0..c.n {
                let (p, q) = (ar.shadow[c.d + i] as i64, ar.shadow[c.s + i] as i64);
                if p != q {
                    want = p - q;
                    at = i;
                    break;
                }
            }
            let got = r as i64;
            let ok = if x.op == 3 { got.signum() == want.signum() } else { (got != 0) == (want != 0) };
            if !ok {
                report(s, c, &format!("returned {got}; first difference at {at} is {want}"));
            }
        }
        _ => {
            if r != c.n {
                report(s, c, &format!("returned {r} for a string of length {}", c.n));
            }
        }
    }
    s.checks += 1;
    let (lo, hi) = if ar.len > 1 << 16 && s.evals % 16 != 0 {
        (c.d.saturating_sub(512).min(c.s.saturating_sub(512)), (c.d.max(c.s) + c.n + 512).min(ar.len))
    } else {
        (0, ar.len)
    };
    if let Some(i) = ar.check(lo, hi) {
        let what = if i >= c.d && i < c.d + c.n && x.op < 3 {
            format!("destination byte {} of {} is {:#04x}, expected {:#04x}", i - c.d, c.n, *ar.b.add(i), ar.shadow[i])
        } else {
            format!("byte {} relative to the destination (outside it) changed from {:#04x} to {:#04x}", i as i64 - c.d as i64, ar.shadow[i], *ar.b.add(i))
        };
        report(s, c, &what);
        ar.sync();
    }
    x.note(&c);
}

fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(10) {
        0..=3 => r.below(80) as usize,
        4 | 5 => r.below(600) as usize,
        6 => (1usize << r.below(20)) + r.below(17) as usize,
        7 => (1usize << r.below(20)).saturating_sub(r.below(17) as usize),
        8 => r.below(max as u64) as usize >> r.below(8),
        _ => PAGE * (r.below(6) as usize) + r.below(33) as usize,
    };
    n.min(max)
}

unsafe fn contents(x: &mut Ctx) {
    let mut r = Rng::new(x.rng.u64());
    let mut ar = Arena::new(4 * PAGE, &mut r);
    // every small size, alignment and (for the move) distance
    let op = x.op;
    let mut k = 0u64;
    'small: for n in 0..200usize {
        let alig = if n < 80 { 16 } else { 9 };
        for a in 0..alig {
            for b in 0..alig {
                k += 1;
                if k & 255 == 0 && !x.go() {
                    break 'small;
                }
                let c = match op {
                    0 => Case { n, d: 64 + a, s: 1024 + b, ..Case::default() },
                    1 if b == 0 => {
                        for delta in -(n.min(90) as i64) - 2..=n.min(90) as i64 + 2 {
                            shadow_case(x, &mut ar, Case { n, d: (1000 + a as i64 + delta) as usize, s: 1000 + a, ..Case::default() });
                        }
                        continue;
                    }
                    1 => Case { n, d: 64 + a, s: 1024 + b, ..Case::default() },
                    2 => Case { n, d: 64 + a, c: (b as u64).wrapping_mul(0x1111) ^ (r.u64() << 32) ^ 0xff00, ..Case::default() },
                    3 | 4 => {
                        shadow_case(x, &mut ar, Case { n, d: 64 + a, s: 1024 + b, x: n, c: r.u64(), ..Case::default() });
                        let xs = if n < 40 { 0..n } else { r.below(n as u64) as usize..n.min(200) };
                        for p in xs.step_by(if n < 40 { 1 } else { 17 }) {
                            shadow_case(x, &mut ar, Case { n, d: 64 + a, s: 1024 + b, x: p, c: r.u64(), ..Case::default() });
                        }
                        continue;
                    }
                    _ => Case { n, d: 64 + a, c: r.u64(), x: b, ..Case::default() },
                };
                shadow_case(x, &mut ar, c);
            }
        }
    }
    if op == 2 {
        for v in 0..512u64 {
            shadow_case(x, &mut ar, Case { n: 100 + (v as usize & 31), d: 64 + (v as usize & 7), c: v.wrapping_sub(256), ..Case::default() });
        }
    }
    // random, all sizes
    let mut big = Arena::new(3 << 20, &mut r);
    let half = big.len / 2;
    while x.go() {
        for _ in 0..8 {
            let n = size(&mut r, 1 << 20);
            let large = n > 3000;
            let a = if large { &mut big } else { &mut ar };
            let cap = a.len;
            let h = cap / 2;
            let mut c = Case { n, c: r.u64(), x: n, ..Case::default() };
            match op {
                0 | 3 | 4 => {
                    c.d = r.below((h - n) as u64) as usize;
                    c.s = h + r.below((h - n) as u64) as usize;
                    if op == 0 && r.one_in(8) {
                        // adjacent ranges
                        c.d = h - n + r.below(16) as usize * 0;
                        c.s = h;
                    }
                    if r.one_in(2) {
                        std::mem::swap(&mut c.d, &mut c.s);
                    }
                    if op != 0 && n > 0 && !r.one_in(4) {
                        c.x = match r.below(3) {
                            0 => r.below(n as u64) as usize,
                            1 => n - 1 - r.below(n.min(40) as u64) as usize,
                            _ => r.below(n.min(40) as u64) as usize,
                        };
                    }
                }
                1 => {
                    c.s = r.below((cap - n) as u64) as usize;
                    c.d = match r.below(4) {
                        0 => r.below((cap - n) as u64) as usize,
                        1 => (c.s as i64 + r.range(-40, 40)).clamp(0, (cap - n) as i64) as usize,
                        2 => (c.s as i64 + (if r.one_in(2) { -1 } else { 1 }) * n as i64 + r.range(-20, 20)).clamp(0, (cap - n) as i64) as usize,
                        _ => (c.s as i64 + (1i64 << r.below(20)) * if r.one_in(2) { -1 } else { 1 } + r.range(-2, 2)).clamp(0, (cap - n) as i64) as usize,
                    };
                }
                2 => c.d = r.below((cap - n) as u64) as usize,
                _ => {
                    c.d = r.below((cap - n - 1) as u64) as usize;
                    c.x = r.below(100) as usize;
                }
            }
            shadow_case(x, a, c);
        }
    }
}

// ------------------------------------------------------------------ sizes beyond 32 bits
unsafe fn alias(total: usize, fd: i32, chunk: usize) -> *mut u8 {
    let p = sys::mmap(std::ptr::null_mut(), total + (1 << 20), 0, 0x4022, -1, 0) as *mut u8;
    let mut o = 0;
    while o < total {
        let l = chunk.min(total - o);
        let q = sys::mmap(p.add(o) as _, l, 3, 0x11, fd, 0);
        if q as isize == -1 {
            sys::_exit(78);
        }
        o += l;
    }
    p
}
unsafe fn private(p: *mut u8, len: usize) {
    if sys::mmap(p as _, len, 3, 0x32, -1, 0) as isize == -1 {
        sys::_exit(78);
    }
}
/// Ranges longer than 2^`lg` bytes over repeated mappings of one small file; the ends have pages of
/// their own, so a count cut to fewer bits leaves a visible hole.
unsafe fn huge(x: &mut Ctx, lg: u32) {
    let s = &mut *x.s;
    let chunk = 4usize << 20;
    let fd = memfd_create(c"h".as_ptr(), 0);
    let fd2 = memfd_create(c"g".as_ptr(), 0);
    if fd < 0 || fd2 < 0 || ftruncate(fd, chunk as i64) != 0 || ftruncate(fd2, chunk as i64) != 0 {
        sys::_exit(78);
    }
    let big = 1usize << lg;
    let tail = 64 << 10;
    let mut r = Rng::new(x.rng.u64());
    let k = 1 + r.below(40) as usize;
    let mut pat = vec![0u8; chunk];
    fill(&mut r, &mut pat);
    for b in pat.iter_mut() {
        if *b == 0 {
            *b = 0x41
        }
    }
    let n = big + tail - k;
    let mut c = Case { n, d: 0, s: 0, c: 0, x: 0, place: 9 };
    s.case = c;
    s.base = [0; 4];
    s.seq.fetch_add(1, SeqCst);
    let run = |d: usize, b: usize, n: usize| -> usize {
        let f: unsafe extern "C" fn(usize, usize, usize) -> usize = std::mem::transmute(x.f);
        let r = f(d, b, n);
        std::arch::asm!("cld");
        r
    };
    match x.op {
        0 | 2 | 3 | 4 => {
            let a = alias(big, fd, chunk);
            private(a.add(big), tail);
            let b = alias(big, fd2, chunk);
            private(b.add(big), tail);
            let body = std::slice::from_raw_parts_mut(b, chunk);
            body.copy_from_slice(&pat);
            let bt = std::slice::from_raw_parts_mut(b.add(big), tail);
            bt.copy_from_slice(&pat[..tail]);
            let at = std::slice::from_raw_parts_mut(a.add(big), tail);
            if x.op == 0 {
                let q = run(a as usize, b as usize, n);
                if q != a as usize {
                    report(s, c, "did not return the destination");
                }
                if at[..tail - k] != bt[..tail - k] || at[tail - k..].iter().any(|&v| v != 0) {
                    report(s, c, "end of a range longer than 32 bits of bytes is wrong");
                }
                if std::slice::from_raw_parts(a, chunk) != &pat[..] {
                    report(s, c, "body of a range longer than 32 bits of bytes is wrong");
                }
            } else if x.op == 2 {
                run(a as usize, 0xc3, n);
                if at[..tail - k].iter().any(|&v| v != 0xc3) || at[tail - k..].iter().any(|&v| v != 0) {
                    report(s, c, "end of a range longer than 32 bits of bytes is wrong");
                }
                if std::slice::from_raw_parts(a, chunk).iter().any(|&v| v != 0xc3) {
                    report(s, c, "body of a range longer than 32 bits of bytes is wrong");
                }
            } else {
                std::slice::from_raw_parts_mut(a, chunk).copy_from_slice(&pat);
                at.copy_from_slice(bt);
                at[tail - k - 1] = 1;
                bt[tail - k - 1] = 2;
                let v = run(a as usize, b as usize, n) as i32;
                if !(v < 0 || (x.op == 4 && v != 0)) {
                    report(s, c, &format!("returned {v}, last byte is smaller"));
                }
                at[tail - k - 1] = 2;
                at[tail - k] = 1;
                bt[tail - k] = 2;
                let v = run(a as usize, b as usize, n) as i32;
                if v != 0 {
                    report(s, c, &format!("returned {v} for equal ranges"));
                }
            }
        }
        1 => {
            // overlapping backward move by `big`
            let a = alias(2 * big, fd, chunk);
            std::slice::from_raw_parts_mut(a, chunk).copy_from_slice(&pat);
            private(a.add(big), tail);
            private(a.add(2 * big), tail);
            let mid = std::slice::from_raw_parts_mut(a.add(big), tail);
            let mut m = vec![0u8; tail];
            fill(&mut r, &mut m);
            mid.copy_from_slice(&m);
            c.s = 0;
            c.d = big;
            s.case = c;
            run(a as usize + big, a as usize, n);
            let end = std::slice::from_raw_parts(a.add(2 * big), tail);
            if mid[..] != pat[..tail] {
                report(s, c, "start of the moved range is wrong");
            }
            if end[..tail - k] != m[..tail - k] || end[tail - k..].iter().any(|&v| v != 0) {
                report(s, c, "end of the moved range is wrong");
            }
        }
        _ => {
            let a = alias(big, fd, chunk);
            std::slice::from_raw_parts_mut(a, chunk).copy_from_slice(&pat);
            private(a.add(big), tail);
            std::slice::from_raw_parts_mut(a.add(big), tail).copy_from_slice(&pat[..tail]);
            *a.add(n) = 0;
            let f: unsafe extern "C" fn(usize) -> usize = std::mem::transmute(x.f);
            let v = f(a as usize);
            if v != n {
                report(s, c, &format!("returned {v} for a string of length {n}"));
            }
        }
    }
    s.seq.fetch_add(1, SeqCst);
    s.checks += 1;
    x.note(&c);
}

// ------------------------------------------------------------------ guard pages (containment)
struct Region {
    /// accessible bytes [lo, lo+len), inaccessible on both sides; `ro` shows the same bytes read-only
    lo: usize,
    ro: usize,
    len: usize,
    shadow: Vec<u8>,
}
impl Region {
    unsafe fn new(pages: usize, r: &mut Rng) -> Region {
        let len = pages * PAGE;
        let fd = memfd_create(c"m".as_ptr(), 0);
        if fd < 0 || ftruncate(fd, len as i64) != 0 {
            sys::_exit(78);
        }
        let g = 16 * PAGE;
        let mut v = [0usize; 2];
        for (i, p) in [3, 1].iter().enumerate() {
            let base = sys::mmap(std::ptr::null_mut(), len + 2 * g, 0, 0x4022, -1, 0) as usize;
            let q = sys::mmap((base + g) as _, len, *p, 0x11, fd, 0);
            if q as isize == -1 {
                sys::_exit(78);
            }
            v[i] = base + g;
        }
        let mut x = Region { lo: v[0], ro: v[1], len, shadow: vec![0; len] };
        fill(r, &mut x.shadow);
        for b in x.shadow.iter_mut() {
            if *b == 0 {
                *b = 7
            }
        }
        std::ptr::copy_nonoverlapping(x.shadow.as_ptr(), x.lo as *mut u8, len);
        x
    }
}

unsafe fn guard_case(x: &mut Ctx, p: &mut Region, q: &mut Region, c: Case) {
    let s = &mut *x.s;
    // c.d and c.s are offsets in p and q; place bit 4: both ranges in p (overlap)
    let over = c.place & 4 != 0;
    let dst = p.lo + c.d;
    let src = if over { p.lo + c.s } else { q.ro + c.s };
    if x.op == 3 || x.op == 4 {
        // equal but for one byte
        let (pl, ql) = (p.lo as *mut u8, q.lo as *mut u8);
        for i in 0..c.n {
            let v = *pl.add(c.d + i);
            *ql.add(c.s + i) = v;
            q.shadow[c.s + i] = v;
        }
        if c.x < c.n {
            *ql.add(c.s + c.x) ^= 0x11;
            q.shadow[c.s + c.x] ^= 0x11;
        }
    }
    let mut term = None;
    let a = if x.op == 5 {
        let at = c.d + c.n;
        term = Some((at, *(p.lo as *mut u8).add(at)));
        *(p.lo as *mut u8).add(at) = 0;
        p.ro + c.d
    } else if x.op >= 3 {
        p.ro + c.d
    } else {
        dst
    };
    s.case = c;
    s.base = [p.lo, p.ro, q.ro, p.len];
    s.seq.fetch_add(1, SeqCst);
    let b = if x.op == 2 { c.c as i32 as u32 as usize } else { src };
    let (_, bad) = probe(x.f, a, b, c.n);
    s.seq.fetch_add(1, SeqCst);
    if let Some((at, v)) = term {
        *(p.lo as *mut u8).add(at) = v;
    }
    if let Some(t) = bad {
        report(s, c, &t);
    }
    // everything outside the destination is unchanged
    let now = std::slice::from_raw_parts(p.lo as *const u8, p.len);
    if x.op < 3 {
        let lo_ok = now[..c.d] == p.shadow[..c.d];
        let hi_ok = now[c.d + c.n..] == p.shadow[c.d + c.n..];
        if !lo_ok || !hi_ok {
            report(s, c, &format!("bytes {} the destination were written", if lo_ok { "after" } else { "before" }));
            std::ptr::copy_nonoverlapping(p.shadow.as_ptr(), p.lo as *mut u8, p.len);
        }
        p.shadow[c.d..c.d + c.n].copy_from_slice(&now[c.d..c.d + c.n]);
        // the string test needs non-zero bytes; a fill with zero is undone
        if x.op == 2 && c.c as u8 == 0 {
            for i in c.d..c.d + c.n {
                p.shadow[i] = (i as u8) | 1;
                *(p.lo as *mut u8).add(i) = (i as u8) | 1;
            }
        }
    } else if now[..] != p.shadow[..] {
        report(s, c, "a range that is only read was written");
        std::ptr::copy_nonoverlapping(p.shadow.as_ptr(), p.lo as *mut u8, p.len);
    }
    s.checks += 2;
    x.note(&c);
}

unsafe fn containment(x: &mut Ctx) {
    let mut r = Rng::new(x.rng.u64());
    let op = x.op;
    let s = &mut *x.s;
    // zero lengths at pointers nobody may touch
    if op < 5 {
        let q = Region::new(1, &mut r);
        let ptrs = [0usize, 1, 7, 8, 16, usize::MAX, usize::MAX - 7, q.lo - 1, q.lo - 16, q.lo + q.len, q.lo + q.len + 3, 0x8000_0000_0000_0000, q.lo, q.lo + 5];
        for &a in &ptrs {
            for &b in &ptrs {
                let c = Case { n: 0, d: a, s: b, c: 0, x: 0, place: 8 };
                s.case = c;
                s.base = [0; 4];
                s.seq.fetch_add(1, SeqCst);
                let (v, bad) = probe(x.f, a, b, 0);
                s.seq.fetch_add(1, SeqCst);
                if let Some(t) = bad {
                    report(s, c, &t);
                }
                s.checks += 1;
                x.note(&c);
            }
        }
    }
    let mut small = (Region::new(1, &mut r), Region::new(1, &mut r));
    let mut large = (Region::new(8, &mut r), Region::new(8, &mut r));
    let mut one = |x: &mut Ctx, r: &mut Rng, n: usize, place: usize, small_gap: usize, gap2: usize, fill: u64, diff: usize| {
        let (p, q) = if n + small_gap + gap2 + 1 < PAGE && op != 5 { &mut small } else { &mut large };
        let room = p.len;
        let n = if op == 5 { n.min(room - 1 - small_gap) } else { n.min(room - small_gap - gap2) };
        // place bit 0: destination flush with the end (else start); bit 1: source likewise
        let need = n + (op == 5) as usize;
        let d = if place & 1 != 0 { room - need - small_gap } else { small_gap };
        let sc = if place & 2 != 0 { room - n - gap2 } else { gap2 };
        unsafe { guard_case(x, p, q, Case { n, d, s: sc, c: fill, x: diff, place }) };
    };
    let mut k = 0u64;
    'small: for n in 0..300usize {
        for place in 0..8usize {
            if place & 4 != 0 && op != 1 || (op == 2 || op == 5) && place & 2 != 0 {
                continue;
            }
            for gap in 0..17usize {
                for gap2 in 0..if op == 2 || op == 5 { 1 } else { 17usize } {
                    if gap != 0 && gap2 != 0 && (gap % 5 != 0 || n > 100) {
                        continue;
                    }
                    // overlap: the source is found by sliding within the same region
                    k += 1;
                    if k & 255 == 0 && !x.go() {
                        break 'small;
                    }
                    let diff = if n > 0 && k & 1 == 0 { r.below(n as u64) as usize } else { n };
                    let place = if place & 4 != 0 { if place & 1 != 0 { 7 } else { 4 } } else { place };
                    one(x, &mut r, n, place, gap, gap2, r_fill(k), diff);
                }
            }
        }
    }
    while x.go() {
        for _ in 0..16 {
            let n = size(&mut r, 7 * PAGE);
            let mut place = r.below(4) as usize;
            if op == 1 && r.one_in(2) {
                place = if r.one_in(2) { 7 } else { 4 };
            }
            let gap = if r.one_in(2) { 0 } else { r.below(40) as usize };
            let gap2 = if r.one_in(2) { 0 } else { r.below(40) as usize };
            let diff = if n > 0 && r.one_in(2) { r.below(n as u64) as usize } else { n };
            let f = r.u64();
            one(x, &mut r, n, place, gap, gap2, f, diff);
        }
    }
}
fn r_fill(k: u64) -> u64 {
    k.wrapping_mul(0x9E3779B97F4A7C15) >> 20
}

// ------------------------------------------------------------------ jobs
struct Job {
    cfg: String,
    op: usize,
    f: usize,
    kind: u32, // 0 contents, 1 containment, 32.. huge
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut workers, mut out, mut mode) = (1u64, 10.0f64, 8usize, String::new(), String::new());
    let mut huge35: Vec<String> = vec![];
    let mut suts = vec![];
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--workers" => workers = v.parse().unwrap(),
            "--out" => out = v,
            "--mode" => mode = v,
            "--sut" => suts.push(v),
            "--huge35" => huge35 = v.split(',').map(String::from).collect(),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let mut jobs = vec![];
    let mut keep = vec![];
    for s in &suts {
        let (cfg, path) = s.split_once('=').unwrap();
        let lib = Lib::open(path);
        let mut a = [0usize; 6];
        let g = lib.try_sym("sut_mem");
        if g == 0 {
            continue;
        }
        unsafe {
            let g: extern "C" fn(*mut usize) = std::mem::transmute(g);
            g(a.as_mut_ptr());
        }
        for op in 0..6 {
            if a[op] == 0 {
                continue;
            }
            if mode == "contents" {
                jobs.push(Job { cfg: cfg.into(), op, f: a[op], kind: 0 });
                // byte loops without optimisation are too slow for this
                if !cfg.starts_with("chk") {
                    jobs.push(Job { cfg: cfg.into(), op, f: a[op], kind: 32 });
                }
                if huge35.iter().any(|h| h == cfg) && op < 3 {
                    jobs.push(Job { cfg: cfg.into(), op, f: a[op], kind: 35 });
                }
            } else {
                jobs.push(Job { cfg: cfg.into(), op, f: a[op], kind: 1 });
            }
        }
        keep.push(lib);
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.kind));
    let slots = jobs.iter().filter(|j| j.kind < 2).count().max(1);
    let slice = secs * workers as f64 / slots as f64;
    let mut running: Vec<(i32, usize, *mut Shm, Instant, u64, u64)> = vec![];
    let mut next = 0;
    let (mut evals, mut checks, mut distinct) = (0u64, 0u64, 0u64);
    let (mut viol, mut samples, mut incon, mut per) = (vec![], vec![], vec![], vec![]);
    while next < jobs.len() || !running.is_empty() {
        while next < jobs.len() && running.len() < workers {
            let sh = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
            let j = &jobs[next];
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                unsafe {
                    sys::child_setup(true);
                    SHM = sh;
                    install();
                    let mut x = Ctx {
                        s: sh,
                        op: j.op,
                        f: j.f,
                        seen: HashSet::new(),
                        rng: Rng::new(seed.wrapping_mul(1000003) ^ (j.op as u64) << 8 ^ j.kind as u64 ^ j.cfg.bytes().fold(7u64, |a, b| a.wrapping_mul(31) + b as u64)),
                        end: Instant::now() + Duration::from_secs_f64(slice),
                    };
                    match j.kind {
                        0 => contents(&mut x),
                        1 => containment(&mut x),
                        k => huge(&mut x, k),
                    }
                    (*sh).done = 1;
                    sys::_exit(0);
                }
            }
            running.push((pid, next, sh, Instant::now(), 0, 0));
            next += 1;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut k = 0;
        while k < running.len() {
            let (pid, ji, sh, t0, ref mut seq, ref mut ticks) = running[k];
            let j = &jobs[ji];
            let s = unsafe { &mut *sh };
            let mut st = 0;
            let w = unsafe { sys::waitpid(pid, &mut st, 1) };
            let mut hung = false;
            if w == 0 {
                let q = s.seq.load(SeqCst);
                let cpu = sys::cpu_ticks(pid);
                if q != running[k].4 {
                    running[k].4 = q;
                    running[k].5 = cpu;
                } else if q & 1 == 1 && cpu > running[k].5 + if j.kind >= 32 { 60000 } else { 3000 } {
                    hung = true;
                    unsafe {
                        sys::kill(pid, 9);
                        sys::waitpid(pid, &mut st, 0);
                    }
                }
                if !hung {
                    k += 1;
                    continue;
                }
            }
            let label = format!("{} {}", j.cfg, NAMES[j.op]);
            let show = |c: &Case| format!("{} n={} dst={:#x} src={:#x} c={:#x} x={} place={}", label, c.n, c.d, c.s, c.c, c.x, c.place);
            for v in 0..(s.nviol.min(8) as usize) {
                let t = s.vtext[v];
                let n = t.iter().position(|&b| b == 0).unwrap_or(192);
                viol.push((format!("{} {}", j.kind, show(&s.vcase[v])), format!("{}: {}", show(&s.vcase[v]), String::from_utf8_lossy(&t[..n]))));
            }
            let sig = st & 127;
            let code = (st >> 8) & 255;
            if hung {
                viol.push((format!("{} {}", j.kind, show(&s.case)), format!("{}: does not return", show(&s.case))));
            } else if (code == 77 || sig != 0 && sig != 9) && s.seq.load(SeqCst) & 1 == 1 {
                let c = &s.case;
                let rel = |b: usize, what: &str| {
                    if b != 0 && s.fault.wrapping_sub(b).wrapping_add(1 << 16) < (1 << 18) {
                        format!(" ({:+} from the {what})", s.fault as i64 - b as i64)
                    } else {
                        String::new()
                    }
                };
                let near = if j.kind == 1 && s.base[0] != 0 {
                    format!("{}{}{}", rel(s.base[0] + c.d, "first range"), rel(s.base[1] + c.d, "first range"), rel(s.base[2] + c.s, "second range"))
                } else {
                    String::new()
                };
                viol.push((format!("{} {}", j.kind, show(c)), format!("{}: signal {} at {:#x}{}", show(c), if sig != 0 { sig } else { 11 }, s.fault, near)));
            } else if sig != 0 || code != 0 || s.done == 0 {
                incon.push(format!("{label}: worker ended with status {st:#x} outside a call"));
            }
            evals += s.evals;
            checks += s.checks;
            distinct += s.distinct;
            per.push((format!("{label}/{}", j.kind), s.evals));
            for c in &s.samples[..s.nsamp as usize] {
                samples.push(show(c));
            }
            unsafe { sys::munmap(sh as _, std::mem::size_of::<Shm>()) };
            running.swap_remove(k);
        }
    }
    samples.sort();
    let step = (samples.len() / 40).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).collect();
    let vs: Vec<String> = viol.iter().map(|(s, d)| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(s), crate::jstr(d))).collect();
    let per: Vec<String> = per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let j = format!(
        "{{\"evals\":{evals},\"checks\":{checks},\"distinct\":{distinct},\"nontrivial\":{evals},\"groups\":{},\"routines\":{},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        jobs.len(),
        jobs.len(),
        per.join(","),
        crate::jarr(&samples),
        vs.join(","),
        crate::jarr(&incon)
    );
    std::fs::write(&out, j).unwrap();
}
