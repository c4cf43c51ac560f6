//! Monitor for the stack probe: runs it on a stack whose pages appear only when touched, logging
//! every first touch in order, with sentinels in all registers.
use crate::dl::Lib;
use crate::gen::Rng;
use crate::sys;
use std::collections::HashSet;
use std::time::{Duration, Instant};

const PAGE: usize = 4096;

std::arch::global_asm!(
    ".globl vs_call",
    // vs_call(f, size, sp): registers come from VS_IN and go to VS_REGS
    "vs_call:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov r9, qword ptr [rip + VS_SAVE@GOTPCREL]",
    "mov [r9], rsp",
    "mov [r9 + 8], rdi",
    "mov rax, rsi",
    "mov rsp, rdx",
    "mov r11, qword ptr [rip + VS_IN@GOTPCREL]",
    "mov rbx, [r11]",
    "mov rcx, [r11 + 8]",
    "mov rdx, [r11 + 16]",
    "mov rsi, [r11 + 24]",
    "mov rdi, [r11 + 32]",
    "mov rbp, [r11 + 40]",
    "mov r8, [r11 + 48]",
    "mov r9, [r11 + 56]",
    "mov r10, [r11 + 64]",
    "mov r12, [r11 + 72]",
    "mov r13, [r11 + 80]",
    "mov r14, [r11 + 88]",
    "mov r15, [r11 + 96]",
    "movdqu xmm0, [r11 + 128]",
    "movdqu xmm1, [r11 + 144]",
    "movdqu xmm7, [r11 + 160]",
    "movdqu xmm15, [r11 + 176]",
    "mov r11, qword ptr [rip + VS_SAVE@GOTPCREL]",
    "call [r11 + 8]",
    "mov r11, qword ptr [rip + VS_REGS@GOTPCREL]",
    "mov [r11], rbx",
    "mov [r11 + 8], rcx",
    "mov [r11 + 16], rdx",
    "mov [r11 + 24], rsi",
    "mov [r11 + 32], rdi",
    "mov [r11 + 40], rbp",
    "mov [r11 + 48], r8",
    "mov [r11 + 56], r9",
    "mov [r11 + 64], r10",
    "mov [r11 + 72], r12",
    "mov [r11 + 80], r13",
    "mov [r11 + 88], r14",
    "mov [r11 + 96], r15",
    "mov [r11 + 104], rax",
    "mov [r11 + 112], rsp",
    "movdqu [r11 + 128], xmm0",
    "movdqu [r11 + 144], xmm1",
    "movdqu [r11 + 160], xmm7",
    "movdqu [r11 + 176], xmm15",
    "mov r9, qword ptr [rip + VS_SAVE@GOTPCREL]",
    "mov rsp, [r9]",
    "pushfq",
    "pop rax",
    "cld",
    "mov [r11 + 120], rax",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
#[no_mangle]
static mut VS_SAVE: [u64; 2] = [0; 2];
#[no_mangle]
static mut VS_IN: [u64; 24] = [0; 24];
#[no_mangle]
static mut VS_REGS: [u64; 24] = [0; 24];
unsafe extern "C" {
    fn vs_call(f: usize, size: u64, sp: usize);
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn sigaltstack(a: *const [usize; 3], o: *mut [usize; 3]) -> i32;
    fn madvise(a: usize, l: usize, k: i32) -> i32;
}
#[repr(C)]
struct Sa {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}
const REGS: [&str; 15] = ["rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "r8", "r9", "r10", "r12", "r13", "r14", "r15", "rax", "rsp"];

static mut LO: usize = 0;
static mut HI: usize = 0;
static mut LOG: *mut usize = std::ptr::null_mut();
const CAP: usize = 1 << 22;

#[repr(C)]
struct Shm {
    n: usize,
    case: [u64; 2],
    inside: u64,
    fault: usize,
    evals: u64,
    pages: u64,
    distinct: u64,
    done: u64,
    nviol: u64,
    v: [[u8; 256]; 8],
    samp: [[u8; 128]; 6],
    nsamp: u64,
}
static mut SHM: *mut Shm = std::ptr::null_mut();

extern "C" fn touched(_s: i32, info: *const u8, _c: usize) {
    unsafe {
        let a = *(info.add(16) as *const usize);
        let s = &mut *SHM;
        if a < LO || a >= HI || s.n >= CAP || s.inside == 0 {
            s.fault = a;
            sys::_exit(77);
        }
        *LOG.add(s.n) = a;
        s.n += 1;
        if sys::mprotect((a & !(PAGE - 1)) as _, PAGE, 3) != 0 {
            s.fault = a;
            sys::_exit(78);
        }
    }
}
fn put(d: &mut [u8], t: &str) {
    let n = t.len().min(d.len() - 1);
    d.fill(0);
    d[..n].copy_from_slice(&t.as_bytes()[..n]);
}
fn get(d: &[u8]) -> String {
    let n = d.iter().position(|&b| b == 0).unwrap_or(d.len());
    String::from_utf8_lossy(&d[..n]).into()
}

unsafe fn one(f: usize, size: u64, off: usize, r: &mut Rng) -> Option<String> {
    let s = &mut *SHM;
    // the caller's stack pointer
    let sp = HI - PAGE * 3 + off;
    let low = sp.wrapping_sub(size as usize);
    sys::mprotect(LO as _, HI - LO, 0);
    madvise(LO, HI - LO, 4);
    for k in 0..24 {
        VS_IN[k] = r.u64();
    }
    s.n = 0;
    s.case = [size, off as u64];
    s.inside = 1;
    vs_call(f, size, sp);
    s.inside = 0;
    s.evals += 1;
    s.pages += s.n as u64;
    for (k, name) in REGS.iter().enumerate() {
        let want = match k {
            13 => size,
            14 => sp as u64,
            _ => VS_IN[k],
        };
        if VS_REGS[k] != want {
            return Some(format!("{name} is {:#x} after the call, was {want:#x}", VS_REGS[k]));
        }
    }
    for k in 16..24 {
        if VS_REGS[k] != VS_IN[k] {
            return Some("an SSE register changed".into());
        }
    }
    if VS_REGS[15] & 0x400 != 0 {
        return Some("direction flag left set".into());
    }
    let log = std::slice::from_raw_parts(LOG, s.n);
    let mut expect = (sp - 8) & !(PAGE - 1);
    for (i, &a) in log.iter().enumerate() {
        if a < low.wrapping_sub(16) {
            return Some(format!("touched {} bytes below the requested depth", low - a));
        }
        let p = a & !(PAGE - 1);
        if p != expect {
            return Some(format!("touch {i} hit page {} below the stack pointer, expected page {}", (sp - p) / PAGE, (sp - expect) / PAGE));
        }
        expect -= PAGE;
    }
    let last = expect + PAGE;
    if size > 0 && last > low & !(PAGE - 1) {
        return Some(format!("the last {} pages of the frame were never touched", (last - (low & !(PAGE - 1))) / PAGE));
    }
    None
}

unsafe fn worker(f: usize, mut r: Rng, end: Instant, w: usize, huge: bool) {
    let s = &mut *SHM;
    let span: usize = if huge { (4usize << 30) + (64 << 20) } else { 96 << 20 };
    LO = sys::mmap(std::ptr::null_mut(), span, 0, 0x4022, -1, 0) as usize;
    HI = LO + span;
    LOG = sys::mmap(std::ptr::null_mut(), CAP * 8, 3, 0x4022, -1, 0) as *mut usize;
    let st = sys::shared(1 << 16);
    sigaltstack(&[st as usize, 0, 1 << 16], std::ptr::null_mut());
    for g in [11, 7] {
        let a = Sa { h: touched as *const () as usize, mask: [0; 16], flags: 0x08000004, rest: 0 };
        sigaction(g, &a, std::ptr::null_mut());
    }
    let mut seen = HashSet::new();
    let mut run = |size: u64, off: usize, r: &mut Rng| {
        if let Some(t) = one(f, size, off, r) {
            let k = s.nviol as usize;
            if k < 8 {
                put(&mut s.v[k], &format!("frame size {size:#x}, stack pointer at page offset {off:#x}: {t}"));
            }
            s.nviol += 1;
        }
        seen.insert((size.min(1 << 16) ^ (size >> 12) << 20, off / 8));
        s.distinct = seen.len() as u64;
        if s.nsamp < 6 && s.evals.is_power_of_two() && s.evals > 8 {
            let k = s.nsamp as usize;
            put(&mut s.samp[k], &format!("size={size:#x} offset={off:#x}: {} pages touched in order", s.n));
            s.nsamp += 1;
        }
    };
    if huge {
        run((4u64 << 30) + 0x2345, 0x700, &mut r);
        run(1 << 32, 0x10, &mut r);
    } else {
        let mut k = w as u64;
        // every size near page multiples against every interesting offset
        'grid: for pages in [0u64, 1, 2, 3, 4, 7, 8, 15, 16, 17, 33] {
            for d in -17i64..=17 {
                let size = (pages * 4096) as i64 + d;
                if size < 0 {
                    continue;
                }
                for off in [8usize, 16, 24, 32, 0x7f8, 0x800, 0xfe8, 0xff0, 0xff8, 0x1000, 0x1008] {
                    k += 1;
                    if k % 8 != 0 {
                        continue;
                    }
                    run(size as u64, off, &mut r);
                    if s_nviol() > 4 || Instant::now() > end {
                        break 'grid;
                    }
                }
            }
        }
        while s_nviol() < 5 && Instant::now() < end {
            let size = match r.below(8) {
                0 => r.below(4096),
                1 | 2 => r.below(1 << 16),
                3 => 4096 * r.below(200) + r.below(40),
                4 => (4096 * (1 + r.below(200))).wrapping_sub(r.below(40)),
                5 => r.below(1 << 20),
                6 => 1 << r.below(24),
                _ => {
                    let m = if r.one_in(8) { 80 << 20 } else { 4 << 20 };
                    r.below(m)
                }
            };
            let off = 8 * (1 + r.below(512)) as usize;
            run(size, off, &mut r);
        }
    }
    s.done = 1;
}
fn s_nviol() -> u64 {
    unsafe { (*SHM).nviol }
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut out) = (1u64, 10.0f64, String::new());
    let mut suts = vec![];
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--out" => out = v,
            "--sut" => suts.push(v),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let (cfg, path) = suts[0].split_once('=').unwrap();
    let lib = Lib::open(path);
    let g: extern "C" fn() -> usize = unsafe { std::mem::transmute(lib.sym("sut_probestack")) };
    let f = g();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut kids = vec![];
    for w in 0..8usize {
        let sh = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::child_setup(true);
                SHM = sh;
                worker(f, Rng::new(seed.wrapping_mul(9176) ^ (w as u64) << 32), end, w, w == 7);
                sys::_exit(0);
            }
        }
        kids.push((pid, w, sh));
    }
    let (mut evals, mut pages, mut distinct) = (0u64, 0u64, 0u64);
    let (mut viol, mut samples, mut incon, mut per) = (vec![], vec![], vec![], vec![]);
    let hard = end + Duration::from_secs(90);
    for (pid, w, sh) in kids {
        let s = unsafe { &mut *sh };
        let mut st = 0;
        let mut late = false;
        loop {
            if unsafe { sys::waitpid(pid, &mut st, 1) } != 0 {
                break;
            }
            if Instant::now() > hard {
                late = true;
                unsafe {
                    sys::kill(pid, 9);
                    sys::waitpid(pid, &mut st, 0);
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for v in 0..s.nviol.min(8) as usize {
            viol.push(get(&s.v[v]));
        }
        let what = format!("frame size {:#x}, stack pointer at page offset {:#x}", s.case[0], s.case[1]);
        if late {
            incon.push(format!("{what}: no end within the time allowed"));
        } else if st != 0 && st & 127 != 9 && s.inside == 1 && (st >> 8) & 255 != 78 {
            viol.push(format!("{what}: {} (fault address {:#x}, {} pages touched)", if st & 127 != 0 { format!("dies with signal {}", st & 127) } else { "faults outside the stack".into() }, s.fault, s.n));
        } else if st != 0 {
            incon.push(format!("worker {w} ended with {st:#x}"));
        }
        evals += s.evals;
        pages += s.pages;
        distinct += s.distinct;
        per.push((format!("{cfg}/{w}"), s.evals));
        for k in 0..s.nsamp as usize {
            samples.push(get(&s.samp[k]));
        }
    }
    let vs: Vec<String> = viol.iter().map(|d| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(d), crate::jstr(d))).collect();
    let per: Vec<String> = per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let j = format!(
        "{{\"evals\":{evals},\"checks\":{pages},\"distinct\":{distinct},\"nontrivial\":{evals},\"groups\":1,\"routines\":1,\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        per.join(","),
        crate::jarr(&samples),
        vs.join(","),
        crate::jarr(&incon)
    );
    std::fs::write(&out, j).unwrap();
}
