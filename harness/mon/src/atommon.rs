//! Monitor for the ARM Linux atomic helpers. Every call is single-stepped with other writers acting
//! at chosen instruction boundaries, and run under real contention; outcomes must be explainable by
//! the operation happening at one instant.
use crate::dl::Lib;
use crate::gen::Rng;
use crate::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

std::arch::global_asm!(
    ".globl va_step",
    // va_step(f, a, b, c): call f(a, b, c) with the trap flag set
    "va_step:",
    "push rbx",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "pushfq",
    "or qword ptr [rsp], 0x100",
    "popfq",
    "call rax",
    "pushfq",
    "and qword ptr [rsp], -257",
    "popfq",
    "pop rbx",
    "ret",
);
unsafe extern "C" {
    fn va_step(f: usize, a: usize, b: usize, c: usize) -> usize;
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn sigaltstack(a: *const [usize; 3], o: *mut [usize; 3]) -> i32;
}
#[repr(C)]
struct Sa {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}

// ------------------------------------------------------------------ the simulated kernel helper
static SPUR: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU32 = AtomicU32::new(0);
static WINS: AtomicU32 = AtomicU32::new(0);
static BADPTR: AtomicU64 = AtomicU64::new(0);
static EXPECT: AtomicU64 = AtomicU64::new(0);
static BARRIERS: AtomicU32 = AtomicU32::new(0);
static RANDOM_FAIL: AtomicBool = AtomicBool::new(false);

extern "C" fn kcmpxchg(old: u32, new: u32, p: *const AtomicU32) -> u32 {
    let n = CALLS.fetch_add(1, Relaxed);
    let e = EXPECT.load(Relaxed);
    if e != 0 && e != p as u64 {
        BADPTR.store(p as u64, Relaxed);
        return 1;
    }
    if RANDOM_FAIL.load(Relaxed) {
        if n % 7 == 3 {
            return 1;
        }
    } else if SPUR.load(Relaxed) > 0 {
        SPUR.fetch_sub(1, Relaxed);
        return 1;
    }
    match unsafe { (*p).compare_exchange(old, new, SeqCst, SeqCst) } {
        Ok(_) => {
            WINS.fetch_add(1, Relaxed);
            0
        }
        Err(_) => 1,
    }
}
extern "C" fn kbarrier() {
    BARRIERS.fetch_add(1, Relaxed);
}
pub unsafe fn map_helpers() -> bool {
    let p = sys::mmap(0xffff0000usize as _, 4096, 7, 0x100022, -1, 0) as usize;
    if p != 0xffff0000 {
        return false;
    }
    for (at, f) in [(0xfc0usize, kcmpxchg as *const () as usize), (0xfa0, kbarrier as *const () as usize)] {
        // jmp [rip+0]; address
        let q = (p + at) as *mut u8;
        for (i, b) in [0xffu8, 0x25, 0, 0, 0, 0].iter().enumerate() {
            *q.add(i) = *b;
        }
        (q.add(6) as *mut usize).write_unaligned(f);
    }
    true
}

// ------------------------------------------------------------------ other writers at instruction boundaries
#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Adv {
    step: u64,
    clear: u32,
    set: u32,
}
static mut STEPS: u64 = 0;
static mut ADV: [Adv; 3] = [Adv { step: 0, clear: 0, set: 0 }; 3];
static mut NADV: usize = 0;
static mut WORD: *mut u32 = std::ptr::null_mut();
extern "C" fn on_trap(_s: i32, _i: usize, _c: usize) {
    unsafe {
        STEPS += 1;
        for k in 0..NADV {
            if ADV[k].step == STEPS {
                let w = std::ptr::read_volatile(WORD);
                std::ptr::write_volatile(WORD, w & !ADV[k].clear | ADV[k].set);
            }
        }
        if STEPS > 50_000 {
            sys::_exit(79);
        }
    }
}

const OPS: [&str; 10] = ["add", "sub", "and", "or", "xor", "nand", "max", "umax", "min", "umin"];
#[derive(Clone)]
struct Fun {
    name: String,
    f: usize,
    op: usize, // index in OPS, 10 exchange, 11 compare-and-swap
    size: u32,
    new: bool,
}
static mut SYNC: usize = 0;
fn sext(x: u32, size: u32) -> i32 {
    let s = 32 - 8 * size;
    (x << s) as i32 >> s
}
fn mask(size: u32) -> u32 {
    if size == 4 {
        u32::MAX
    } else {
        (1 << (8 * size)) - 1
    }
}
fn shift(size: u32, off: u32, be: bool) -> u32 {
    8 * if be { 4 - size - off } else { off }
}
/// (returned value, new lane)
fn apply(f: &Fun, cur: u32, v: u32, w: u32) -> (u32, u32) {
    let m = mask(f.size);
    let n = match f.op {
        0 => cur.wrapping_add(v),
        1 => cur.wrapping_sub(v),
        2 => cur & v,
        3 => cur | v,
        4 => cur ^ v,
        5 => !(cur & v),
        6 => if sext(cur, f.size) > sext(v, f.size) { cur } else { v },
        7 => if cur & m > v & m { cur } else { v },
        8 => if sext(cur, f.size) < sext(v, f.size) { cur } else { v },
        9 => if cur & m < v & m { cur } else { v },
        10 => v,
        _ => if cur == v & m { w } else { cur },
    } & m;
    (if f.new { n } else { cur }, n)
}

#[repr(C)]
struct Shm {
    seq: AtomicU64,
    evals: u64,
    steps: u64,
    distinct: u64,
    hist: u64,
    done: u64,
    cur: [u8; 256],
    nviol: u64,
    v: [[u8; 512]; 8],
    samp: [[u8; 256]; 6],
    nsamp: u64,
}
fn put(d: &mut [u8], t: &str) {
    let n = t.len().min(d.len() - 1);
    d.fill(0);
    d[..n].copy_from_slice(&t.as_bytes()[..n]);
}
fn get(d: &[u8]) -> String {
    let n = d.iter().position(|&b| b == 0).unwrap_or(d.len());
    String::from_utf8_lossy(&d[..n]).into()
}

unsafe fn raw(f: &Fun, p: usize, v: u32, w: u32, step: bool) -> u32 {
    // arguments travel as the C type: sub-word values are sign- or zero-extended by the caller
    let (v, w) = if (6..=8).contains(&f.op) && f.op != 7 { (sext(v, f.size) as u32, w) } else { (v & mask(f.size), w & mask(f.size)) };
    let r = if step {
        va_step(f.f, p, v as usize, w as usize)
    } else {
        let g: unsafe extern "C" fn(usize, usize, usize) -> usize = std::mem::transmute(f.f);
        g(p, v as usize, w as usize)
    };
    r as u32 & mask(f.size)
}

fn val(r: &mut Rng, size: u32) -> u32 {
    let m = mask(size);
    (match r.below(8) {
        0 => 0,
        1 => m,
        2 => m >> 1,
        3 => (m >> 1) + 1,
        4 => 1,
        5 => r.below(4) as u32,
        _ => r.u64() as u32,
    }) & m
}

unsafe fn stepping(s: &mut Shm, funs: &[Fun], be: bool, mut r: Rng, end: Instant) {
    let buf = sys::mmap(std::ptr::null_mut(), 4096, 3, 0x22, -1, 0) as *mut u32;
    let mut seen = HashSet::new();
    let st = sys::shared(1 << 16);
    sigaltstack(&[st as usize, 0, 1 << 16], std::ptr::null_mut());
    let a = Sa { h: on_trap as *const () as usize, mask: [0; 16], flags: 0x08000004, rest: 0 };
    sigaction(5, &a, std::ptr::null_mut());
    let mut it = r.below(funs.len() as u64);
    while s.nviol < 5 && Instant::now() < end {
        it += 1;
        let f = &funs[it as usize % funs.len()];
        let off = match f.size {
            1 => r.below(4) as u32,
            2 => 2 * r.below(2) as u32,
            _ => 0,
        };
        // the first, an inner and the last word of the page
        let idx = [0usize, 5, 1023][r.below(3) as usize];
        let word = buf.add(idx);
        let p = word as usize + off as usize;
        let (sh, m) = (shift(f.size, off, be), mask(f.size));
        let w0 = match r.below(4) {
            0 => 0,
            1 => u32::MAX,
            _ => r.u64() as u32,
        };
        let lane0 = val(&mut r, f.size);
        let w0 = w0 & !(m << sh) | lane0 << sh;
        let v = if f.op == 11 && r.below(4) != 0 { lane0 } else { val(&mut r, f.size) };
        let nv = val(&mut r, f.size);
        let spur = if r.one_in(3) { r.below(4) as u32 } else { 0 };
        // how many instruction boundaries this call has
        let mut run = |adv: &[Adv], spur: u32| -> (u32, u32) {
            for i in 0..1024 {
                *buf.add(i) = 0xA5A5_0000 | i as u32;
            }
            *word = w0;
            WORD = word;
            STEPS = 0;
            NADV = adv.len();
            ADV[..adv.len()].copy_from_slice(adv);
            SPUR.store(spur, Relaxed);
            CALLS.store(0, Relaxed);
            WINS.store(0, Relaxed);
            BADPTR.store(0, Relaxed);
            EXPECT.store(word as u64, Relaxed);
            s.seq.fetch_add(1, SeqCst);
            let g = raw(f, p, v, nv, true);
            s.seq.fetch_add(1, SeqCst);
            let fin = *word;
            (g, fin)
        };
        put(&mut s.cur, &format!("{} at byte {off} of {w0:#x}, operands {v:#x} {nv:#x}, {spur} spurious failures", f.name));
        run(&[], spur);
        let total = STEPS;
        s.steps += total;
        let mut sched: Vec<Vec<Adv>> = vec![vec![]];
        let adv = |r: &mut Rng, step: u64| -> Adv {
            match r.below(6) {
                // same lane: new value, or the value the operation wants to see
                0 | 1 => Adv { step, clear: m << sh, set: val(r, f.size) << sh },
                2 => Adv { step, clear: m << sh, set: v << sh },
                3 => Adv { step, clear: m << sh, set: lane0 << sh },
                // whole word
                4 => Adv { step, clear: u32::MAX, set: r.u64() as u32 },
                // a neighbour
                _ => {
                    let nb = 8 * r.below(4) as u32;
                    let k = if f.size == 4 { u32::MAX } else { (0xffu32 << nb) & !(m << sh) };
                    Adv { step, clear: k, set: r.u64() as u32 & k }
                }
            }
        };
        let all = r.one_in(2);
        for step in 1..=total {
            if all || r.below(total) < 12 {
                sched.push(vec![adv(&mut r, step)]);
            }
        }
        for _ in 0..8 {
            let a = 1 + r.below(total + 20);
            let b = 1 + r.below(total + 20);
            let mut x = vec![adv(&mut r, a.min(b)), adv(&mut r, a.max(b))];
            if r.one_in(3) {
                // away and back again
                x[1].clear = m << sh;
                x[1].set = lane0 << sh;
            }
            sched.push(x);
        }
        for adv in &sched {
            put(
                &mut s.cur,
                &format!(
                    "{} at byte {off} of {w0:#x}, operands {v:#x} {nv:#x}, {spur} spurious failures, other writers {:?}",
                    f.name,
                    adv.iter().map(|a| format!("step {} -> {:#x}/{:#x}", a.step, a.set, a.clear)).collect::<Vec<_>>()
                ),
            );
            let (ret, fin) = run(adv, spur);
            s.evals += 1;
            s.steps += STEPS;
            // writers scheduled after the call ended did not act
            let acted: Vec<&Adv> = adv.iter().filter(|a| a.step <= STEPS).collect();
            let mut ok = false;
            let mut want = vec![];
            for at in 0..=acted.len() {
                let mut w = w0;
                let mut g = 0;
                for k in 0..=acted.len() {
                    if k == at {
                        let (rv, nl) = apply(f, w >> sh & m, v, nv);
                        g = rv;
                        w = w & !(m << sh) | nl << sh;
                    }
                    if k < acted.len() {
                        w = w & !acted[k].clear | acted[k].set;
                    }
                }
                want.push((g, w));
                ok |= (g, w) == (ret, fin);
            }
            let mut bad = None;
            if !ok {
                bad = Some(format!("returned {ret:#x} and left {fin:#x}; one instant would give one of {want:x?}"));
            }
            let bp = BADPTR.load(Relaxed);
            if bp != 0 {
                bad = Some(format!("compare-exchange on {:+} bytes from the containing word", bp as i64 - word as i64));
            }
            let wins = WINS.load(Relaxed);
            if wins > 1 {
                bad = Some(format!("stored {wins} times"));
            }
            for i in 0..1024 {
                if i != idx && *buf.add(i) != 0xA5A5_0000 | i as u32 {
                    bad = Some("a neighbouring word changed".into());
                }
            }
            if let Some(t) = bad {
                let k = s.nviol as usize;
                if k < 8 {
                    let c = get(&s.cur);
                    put(&mut s.v[k], &format!("{c}: {t}"));
                }
                s.nviol += 1;
                if s.nviol > 4 {
                    return;
                }
            }
            if seen.len() < 2_000_000 {
                seen.insert((f.f, off, adv.iter().fold(0u64, |h, a| h * 997 + a.step), acted.len(), (ret, fin) == want[0]));
                s.distinct = seen.len() as u64;
            }
            if s.nsamp < 6 && s.evals.is_power_of_two() && s.evals > 32 {
                let k = s.nsamp as usize;
                let c = get(&s.cur);
                put(&mut s.samp[k], &format!("{c}: {ret:#x}, {fin:#x}"));
                s.nsamp += 1;
            }
        }
    }
    s.done = 1;
}

/// Threads own the lanes of one word and hammer them at once: every return value must match the
/// owner's private sequential history. Then all share one lane with counting operations.
unsafe fn contention(s: &mut Shm, funs: &[Fun], be: bool, seed: u64, end: Instant) {
    let buf = sys::mmap(std::ptr::null_mut(), 4096, 3, 0x22, -1, 0) as usize;
    EXPECT.store(0, Relaxed);
    RANDOM_FAIL.store(true, Relaxed);
    let mut round = 0u64;
    if SYNC != 0 {
        put(&mut s.cur, "__sync_synchronize");
        s.seq.fetch_add(1, SeqCst);
        let n = BARRIERS.load(SeqCst);
        std::mem::transmute::<usize, unsafe extern "C" fn()>(SYNC)();
        s.seq.fetch_add(1, SeqCst);
        if BARRIERS.load(SeqCst) == n {
            put(&mut s.v[0], "__sync_synchronize returned without a memory barrier");
            s.nviol = 1;
        }
    }
    while s.nviol < 4 && Instant::now() < end {
        round += 1;
        let layout: &[(u32, u32)] = match round % 3 {
            0 => &[(0, 1), (1, 1), (2, 1), (3, 1)],
            1 => &[(0, 2), (2, 2)],
            _ => &[(0, 1), (1, 1), (2, 2)],
        };
        *(buf as *mut u32) = 0;
        put(&mut s.cur, "threads on the lanes of one word");
        s.seq.fetch_add(1, SeqCst);
        let res: Vec<(u64, Option<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = layout
                .iter()
                .map(|&(off, size)| {
                    let mut r = Rng::new(seed ^ round << 16 ^ off as u64);
                    let mine: Vec<&Fun> = funs.iter().filter(|f| f.size == size).collect();
                    sc.spawn(move || {
                        let mut lane = 0u32;
                        let mut n = 0u64;
                        for _ in 0..3000 {
                            let f = mine[r.below(mine.len() as u64) as usize];
                            let (v, w) = (if f.op == 11 && r.one_in(2) { lane } else { val(&mut r, size) }, val(&mut r, size));
                            let got = raw(f, buf + off as usize, v, w, false);
                            let (want, nl) = apply(f, lane, v, w);
                            n += 1;
                            if got != want {
                                return (n, Some(format!("{} at byte {off} with other threads on the neighbouring bytes: returned {got:#x}, its own history gives {want:#x}", f.name)));
                            }
                            lane = nl;
                        }
                        let fin = *(buf as *const u32) >> shift(size, off, be) & mask(size);
                        if fin != lane {
                            return (n, Some(format!("the {size}-byte object at byte {off} ended as {fin:#x}, its own history gives {lane:#x}")));
                        }
                        (n, None)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (n, e) in res {
            s.evals += n;
            s.hist += 1;
            if let Some(t) = e {
                let k = s.nviol as usize;
                if k < 8 {
                    put(&mut s.v[k], &t);
                }
                s.nviol += 1;
            }
        }
        // counting on one shared 32-bit object and one shared lane
        for size in [4u32, 2] {
            let Some(add) = funs.iter().find(|f| f.op == 0 && f.size == size && !f.new) else { continue };
            let Some(cas) = funs.iter().find(|f| f.op == 11 && f.size == size) else { continue };
            *(buf as *mut u32) = 0;
            let per = 2000u32;
            let seen: Vec<Vec<u32>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        sc.spawn(move || {
                            let mut got = vec![];
                            let mut guess = 0;
                            for _ in 0..per {
                                if t & 1 == 0 {
                                    got.push(raw(add, buf, 1, 0, false));
                                } else {
                                    // increment by compare-and-swap
                                    loop {
                                        let o = raw(cas, buf, guess, guess.wrapping_add(1), false);
                                        if o == guess {
                                            got.push(o);
                                            guess = guess.wrapping_add(1) & mask(size);
                                            break;
                                        }
                                        guess = o;
                                    }
                                }
                            }
                            got
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut all: Vec<u32> = seen.concat();
            s.evals += all.len() as u64;
            all.sort_unstable();
            if all.iter().enumerate().any(|(i, &x)| x != i as u32) {
                let k = s.nviol as usize;
                if k < 8 {
                    put(&mut s.v[k], &format!("{} and {}: concurrent increments returned a value twice or skipped one", add.name, cas.name));
                }
                s.nviol += 1;
            }
            s.hist += 4;
        }
        s.seq.fetch_add(1, SeqCst);
        s.distinct = s.hist;
    }
    s.done = 1;
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut out) = (1u64, 10.0f64, String::new());
    let mut suts = vec![];
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--out" => out = v,
            "--sut" => suts.push(v),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let mut libs = vec![];
    for s in &suts {
        let (cfg, path) = s.split_once('=').unwrap();
        let lib = Lib::open(path);
        let mut funs = vec![];
        let mut add = |name: String, op, size, new| {
            let f = lib.try_sym(&name);
            if f != 0 {
                funs.push(Fun { name, f, op, size, new });
            }
        };
        for size in [1u32, 2, 4] {
            for (k, o) in OPS.iter().enumerate() {
                add(format!("__sync_fetch_and_{o}_{size}"), k, size, false);
                add(format!("__sync_{o}_and_fetch_{size}"), k, size, true);
            }
            add(format!("__sync_lock_test_and_set_{size}"), 10, size, false);
            add(format!("__sync_val_compare_and_swap_{size}"), 11, size, false);
        }
        libs.push((cfg.to_string(), lib, funs));
    }
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut kids = vec![];
    for w in 0..8usize {
        // two workers run threads, the others single-step
        let stress = w >= 6;
        let li = w % libs.len();
        let sh = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let (cfg, _, funs) = &libs[li];
        let be = cfg.starts_with("be");
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::child_setup(true);
                if !map_helpers() {
                    sys::_exit(78);
                }
                let sd = seed.wrapping_mul(31337) ^ (w as u64) << 40;
                if stress {
                    SYNC = libs[li].1.try_sym("__sync_synchronize");
                    contention(&mut *sh, funs, be, sd, end);
                } else {
                    stepping(&mut *sh, funs, be, Rng::new(sd), end);
                }
                sys::_exit(0);
            }
        }
        kids.push((pid, w, li, sh));
    }
    let (mut evals, mut steps, mut distinct, mut hist) = (0u64, 0u64, 0u64, 0u64);
    let (mut viol, mut samples, mut incon, mut per) = (vec![], vec![], vec![], vec![]);
    for (pid, w, li, sh) in kids {
        let s = unsafe { &mut *sh };
        let cfg = &libs[li].0;
        let mut st = 0;
        let (mut last, mut cpu0, mut hung) = (0, 0, false);
        loop {
            if unsafe { sys::waitpid(pid, &mut st, 1) } != 0 {
                break;
            }
            let (q, cpu) = (s.seq.load(SeqCst), sys::cpu_ticks(pid));
            if q != last {
                last = q;
                cpu0 = cpu;
            } else if q & 1 == 1 && cpu > cpu0 + 6000 {
                hung = true;
                unsafe {
                    sys::kill(pid, 9);
                    sys::waitpid(pid, &mut st, 0);
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for v in 0..s.nviol.min(8) as usize {
            viol.push(format!("{cfg}: {}", get(&s.v[v])));
        }
        let inside = s.seq.load(SeqCst) & 1 == 1;
        let code = st >> 8 & 255;
        if hung || (inside && st != 0 && st & 127 != 9 && code != 78) {
            let how = if hung || code == 79 { "does not return".to_string() } else { format!("dies with signal {}", st & 127) };
            viol.push(format!("{cfg}: {}: {how}", get(&s.cur)));
        } else if st != 0 {
            incon.push(format!("{cfg}: worker {w} ended with {st:#x}"));
        }
        evals += s.evals;
        steps += s.steps;
        distinct += s.distinct;
        hist += s.hist;
        per.push((format!("{cfg}/{w}"), s.evals));
        for k in 0..s.nsamp as usize {
            samples.push(get(&s.samp[k]));
        }
    }
    let vs: Vec<String> = viol.iter().map(|d| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(d), crate::jstr(d))).collect();
    let per: Vec<String> = per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let nf: usize = libs.iter().map(|l| l.2.len()).sum();
    let j = format!(
        "{{\"evals\":{evals},\"checks\":{steps},\"distinct\":{distinct},\"nontrivial\":{evals},\"groups\":{hist},\"routines\":{nf},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        per.join(","),
        crate::jarr(&samples),
        vs.join(","),
        crate::jarr(&incon)
    );
    std::fs::write(&out, j).unwrap();
}
