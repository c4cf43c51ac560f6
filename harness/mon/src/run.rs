//! Workload engine: forked workers drive grouped routines, a parent attributes crashes and hangs.
use crate::fp::Fmt;
use crate::gen::{Dict, Gen, Rng};
use crate::refs::{self, OpRef, V};
use crate::sut::Rout;
use crate::sys;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Group {
    pub r: OpRef,
    pub g: Gen,
    pub rt: Vec<Rout>,
    pub hard: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Ref,
    Total,
    Agree,
    Special,
    Pure,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub secs: f64,
    pub workers: usize,
    pub mode: Mode,
    pub out: String,
    pub replay_dir: String,
    pub sweep: Option<String>,
    pub one: Option<[u128; 4]>,
    pub enumerate: bool,
}

const MAXFN: usize = 1024;
const MAXV: usize = 24;
const BITMAP: usize = 1 << 20; // u64 words

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Viol {
    g: u32,
    r: u32,
    kind: u32,
    comp: u32,
    a: [u128; 4],
    res: [u128; 3],
    extra: [u128; 3],
}

#[repr(C)]
pub struct Shm {
    seq: AtomicU64,
    active: AtomicU32,
    done: AtomicU32,
    g: AtomicU32,
    r: AtomicU32,
    args: [u128; 4],
    evals: u64,
    checks: u64,
    refined: u64,
    nontrivial: u64,
    nviol: AtomicU32,
    viol: [Viol; MAXV],
    per: [u64; MAXFN],
    dead: [u8; MAXFN * 64],
    nsamp: u32,
    samp: [Viol; 16],
    bitmap: [u64; BITMAP],
}

// violation kinds
pub const K_REF: u32 = 0;
pub const K_AGREE: u32 = 1;
pub const K_SYM: u32 = 2;
pub const K_RANGE: u32 = 3;
pub const K_CRASH: u32 = 4;
pub const K_HANG: u32 = 5;
pub const K_ENV: u32 = 6;
pub const K_HIST: u32 = 7;

fn shape(f: Option<Fmt>, b: u128) -> u64 {
    match f {
        Some(f) => {
            let e = (b >> f.p) as u64; // sign and exponent
            let m = b & ((1u128 << f.p) - 1);
            let top = (m >> (f.p - 3)) as u64;
            let tz = if m == 0 { 0 } else { (m.trailing_zeros() as u64).min(7) + 1 };
            e << 8 | top << 4 | tz
        }
        None => {
            let n = 128 - b.leading_zeros() as u64;
            let tz = b.trailing_zeros() as u64;
            let neg = ((b as i128) < 0) as u64;
            n << 16 | tz << 8 | (b.count_ones() as u64) << 1 | neg
        }
    }
}
fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9e3779b97f4a7c15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 32)
}

fn odd(op: &str) -> bool {
    matches!(op, "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" | "erf" | "cbrt" | "cbrt_rx" | "j1")
}
fn even(op: &str) -> bool {
    matches!(op, "cos" | "cosh" | "j0" | "hypot" | "hypot_rx" | "fabs")
}

/// documented mathematical range of the result
fn in_range(op: &str, f: Fmt, a: &[u128], r: u128, i: usize) -> bool {
    if f.is_nan(r) {
        return true;
    }
    let one = f.one() as i128;
    let o = f.ord(r);
    // pi/2 and pi rounded away from zero in the last place
    let (pi2, pi) = if f.w == 32 {
        (1.570_796_4f32.to_bits() as i128, 3.141_592_7f32.to_bits() as i128)
    } else {
        (std::f64::consts::FRAC_PI_2.to_bits() as i128, std::f64::consts::PI.to_bits() as i128)
    };
    match op {
        "sin" | "cos" | "sincos" | "tanh" | "erf" => o >= -one && o <= one,
        "exp" | "exp2" | "exp10" => !f.neg(r),
        "expm1" => o >= -one,
        "cosh" => o >= one,
        "erfc" => !f.neg(r) && o <= 2i128.pow(f.p) + one,
        "atan" | "asin" => o.abs() <= pi2,
        "acos" => o >= 0 && o <= pi,
        "atan2" => o.abs() <= pi,
        "acosh" => o >= 0,
        "hypot" => {
            // never smaller than either leg
            f.is_nan(a[0]) || f.is_nan(a[1]) || (o >= f.abs(a[0]) as i128 && o >= f.abs(a[1]) as i128)
        }
        "sqrt" => o >= 0,
        "j0" | "j1" | "jn" => o.abs() <= one,
        _ => {
            let _ = i;
            true
        }
    }
}

fn fpenv() -> (u32, u16, u64) {
    let mut mx = 0u32;
    let mut cw = 0u16;
    let fl: u64;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
        std::arch::asm!("pushfq", "pop {}", out(reg) fl);
    }
    (mx & 0xffc0, cw, fl & 0x400)
}

fn record(s: &mut Shm, g: usize, r: usize, kind: u32, comp: usize, a: &[u128; 4], res: &[u128; 3], extra: &[u128; 3]) {
    let n = s.nviol.load(SeqCst) as usize;
    if n < MAXV {
        s.viol[n] = Viol { g: g as u32, r: r as u32, kind, comp: comp as u32, a: *a, res: *res, extra: *extra };
        s.nviol.store(n as u32 + 1, SeqCst);
    }
    // stop driving this routine: one witness is enough
    s.dead[g * 64 + r] = 1;
}

#[inline(always)]
unsafe fn call(s: *mut Shm, rt: &Rout, gi: usize, ri: usize, a: &[u128; 4], res: &mut [u128; 3]) {
    (*s).args = *a;
    (*s).g.store(gi as u32, SeqCst);
    (*s).r.store(ri as u32, std::sync::atomic::Ordering::Relaxed);
    (*s).active.store(1, std::sync::atomic::Ordering::Relaxed);
    std::sync::atomic::compiler_fence(SeqCst);
    (rt.f)(a.as_ptr(), res.as_mut_ptr());
    std::sync::atomic::compiler_fence(SeqCst);
    (*s).active.store(0, std::sync::atomic::Ordering::Relaxed);
    (*s).seq.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

pub fn same(g: &Group, x: &[u128; 3], y: &[u128; 3]) -> bool {
    for i in 0..g.r.sig.r.len() {
        match Fmt::of(g.r.sig.r[i]) {
            Some(f) => {
                if x[i] != y[i] && !(f.is_nan(x[i]) && f.is_nan(y[i])) {
                    // order of zeros is unspecified for these two
                    if (g.r.op == "fmin" || g.r.op == "fmax") && f.is_zero(x[i]) && f.is_zero(y[i]) {
                        continue;
                    }
                    return false;
                }
            }
            None => {
                if x[i] != y[i] {
                    return false;
                }
            }
        }
    }
    true
}

/// Observe one argument tuple on every routine of the group.
unsafe fn observe(s: *mut Shm, o: &Opts, gs: &[Group], gi: usize, a: &[u128; 4], rng: &mut Rng) {
    let g = &gs[gi];
    let na = g.r.sig.a.len();
    if refs::exact() && g.r.costly(a) {
        return;
    }
    let mut v = [V::Any; 3];
    let mut first = [0u128; 3];
    let mut have = false;
    if matches!(o.mode, Mode::Ref | Mode::Special) {
        g.r.expect(&a[..na], &mut v);
    }
    let mut res = [0u128; 3];
    for (ri, rt) in g.rt.iter().enumerate() {
        if (*s).dead[gi * 64 + ri] != 0 {
            continue;
        }
        res = [0; 3];
        let env = if o.mode == Mode::Pure { fpenv() } else { (0, 0, 0) };
        call(s, rt, gi, ri, a, &mut res);
        (*s).evals += 1;
        match o.mode {
            Mode::Total => {}
            Mode::Ref => {
                (*s).checks += 1;
                if let Err(c) = g.r.check(&a[..na], &mut v, &res) {
                    record(&mut *s, gi, ri, K_REF, c, a, &res, &[0; 3]);
                }
            }
            Mode::Agree => {
                if !have {
                    first = res;
                    have = true;
                } else {
                    (*s).checks += 1;
                    if !same(g, &first, &res) {
                        record(&mut *s, gi, ri, K_AGREE, 0, a, &res, &first);
                    }
                }
            }
            Mode::Pure => {
                (*s).checks += 1;
                if fpenv() != env {
                    record(&mut *s, gi, ri, K_ENV, 0, a, &res, &[0; 3]);
                }
                // history: interleave an unrelated call, then repeat
                let og = rng.below(gs.len() as u64) as usize;
                let oo = &gs[og];
                let or = rng.below(oo.rt.len() as u64) as usize;
                let mut oa = [0u128; 4];
                oo.g.gen(rng, &mut oa);
                let mut t = [0u128; 3];
                call(s, &oo.rt[or], og, or, &oa, &mut t);
                let mut again = [0u128; 3];
                call(s, rt, gi, ri, a, &mut again);
                (*s).evals += 2;
                if again != res && !same(g, &again, &res) {
                    record(&mut *s, gi, ri, K_HIST, 0, a, &res, &again);
                }
            }
            Mode::Special => {
                let sp = (0..na).any(|i| {
                    Fmt::of(g.r.sig.a[i]).is_some_and(|f| !f.is_fin(a[i]) || f.is_zero(a[i]))
                });
                let nr = g.r.sig.r.len();
                if sp || v[..nr].iter().any(|x| matches!(x, V::Bits(_) | V::Nan | V::Zero | V::AnyInf)) {
                    (*s).checks += 1;
                    if let Err(c) = g.r.check(&a[..na], &mut v, &res) {
                        record(&mut *s, gi, ri, K_REF, c, a, &res, &[0; 3]);
                    }
                }
                let f = g.r.f;
                for i in 0..nr {
                    if Fmt::of(g.r.sig.r[i]).is_some() {
                        (*s).checks += 1;
                        if !in_range(&g.r.op, f, a, res[i], i) {
                            record(&mut *s, gi, ri, K_RANGE, i, a, &res, &[0; 3]);
                        }
                    }
                }
                let (od, ev) = (odd(&g.r.op), even(&g.r.op));
                if od || ev || g.r.op == "sincos" || g.r.op == "atan2" {
                    let mut b = *a;
                    b[0] ^= f.sign();
                    if ev && na == 2 {
                        // hypot: also symmetric in its arguments
                        b.swap(0, 1);
                    }
                    let mut q = [0u128; 3];
                    call(s, rt, gi, ri, &b, &mut q);
                    (*s).evals += 1;
                    (*s).checks += 1;
                    let want = if ev { res[0] } else { res[0] ^ f.sign() };
                    // the sign of j1's zero limit at infinity is nowhere specified
                    let nn = f.is_nan(res[0]) && f.is_nan(q[0]) || g.r.op == "j1" && f.is_zero(res[0]) && f.is_zero(q[0]) && f.is_inf(a[0]);
                    let bad = !nn && q[0] != want || g.r.op == "sincos" && !(f.is_nan(res[1]) && f.is_nan(q[1])) && q[1] != res[1];
                    if bad {
                        record(&mut *s, gi, ri, K_SYM, 0, a, &res, &q);
                    }
                }
            }
        }
    }
    // distinct states actually observed: argument shapes x result shape
    let mut h = gi as u64 + 1;
    let mut triv = false;
    for i in 0..na {
        let f = Fmt::of(g.r.sig.a[i]);
        triv |= f.is_some_and(|f| f.is_nan(a[i]));
        h = mix(h, shape(f, a[i]));
    }
    h = mix(h, shape(Fmt::of(g.r.sig.r[0]), res[0]));
    if !triv {
        (*s).nontrivial += 1;
        let bit = (h >> 38) as usize;
        (*s).bitmap[bit >> 6] |= 1 << (bit & 63);
    }
    (*s).per[gi.min(MAXFN - 1)] += 1;
    if (*s).nsamp < 16 && rng.one_in(5000) {
        let n = (*s).nsamp as usize;
        (*s).samp[n] = Viol { g: gi as u32, r: 0, kind: 0, comp: 0, a: *a, res, extra: [0; 3] };
        (*s).nsamp += 1;
    }
}

unsafe fn worker(s: *mut Shm, o: &Opts, gs: &[Group], w: usize, round: u64) {
    sys::child_setup(true);
    let start = Instant::now();
    let lim = Duration::from_secs_f64(o.secs);
    let mut rng = Rng::new(o.seed.wrapping_mul(1000003) ^ (w as u64) << 32 ^ round << 48);
    let n = gs.len();
    let mut spent = vec![0u64; n];
    let mut cur = vec![w as u64; n];
    let mut blk = vec![if refs::exact() { 4 } else { 64u64 }; n];
    let mut a = [0u128; 4];
    if let Some(one) = o.one {
        // replay of a single argument tuple
        if w == 0 && round == 0 {
            for gi in 0..n {
                observe(s, o, gs, gi, &one, &mut rng);
            }
        }
        return;
    }
    if round == 0 && o.enumerate {
        // half precision is small enough to enumerate
        for gi in (0..n).filter(|&i| gs[i].r.sig.a == [b'h']) {
            for x in (w as u128..1 << 16).step_by(o.workers) {
                a = [x, 0, 0, 0];
                observe(s, o, gs, gi, &a, &mut rng);
            }
        }
        a = [0; 4];
    }
    loop {
        if start.elapsed() >= lim {
            break;
        }
        // least served group
        let mut gi = usize::MAX;
        for i in 0..n {
            if (*s).dead[i * 64..i * 64 + gs[i].rt.len()].iter().all(|&x| x != 0) {
                continue;
            }
            if gi == usize::MAX || spent[i] < spent[gi] {
                gi = i;
            }
        }
        if gi == usize::MAX {
            break;
        }
        let g = &gs[gi];
        let t0 = Instant::now();
        let gl = g.g.grid_len();
        for k in 0..blk[gi] {
            let wantgrid = k & 1 == 0 && cur[gi] < gl && gl <= 300_000 * o.workers as u64;
            if wantgrid {
                g.g.grid_at(cur[gi], &mut a);
                cur[gi] += o.workers as u64;
                if !g.g.admissible(&a) {
                    continue;
                }
            } else if gl > 0 && rng.one_in(if o.mode == Mode::Special { 2 } else { 12 }) {
                if rng.one_in(2) {
                    g.g.grid_at(rng.below(gl), &mut a);
                } else {
                    // one edge operand, the rest generated
                    g.g.gen(&mut rng, &mut a);
                    let mut b = [0u128; 4];
                    g.g.grid_at(rng.below(gl), &mut b);
                    let k = rng.below(g.r.sig.a.len() as u64) as usize;
                    a[k] = b[k];
                }
                if !g.g.admissible(&a) {
                    continue;
                }
            } else {
                g.g.gen(&mut rng, &mut a);
            }
            observe(s, o, gs, gi, &a, &mut rng);
        }
        let dt = t0.elapsed().as_nanos() as u64;
        spent[gi] += dt + 1;
        if dt < 1_000_000 && blk[gi] < 1 << 14 {
            blk[gi] *= 2;
        } else if dt > 4_000_000 && blk[gi] > 2 {
            blk[gi] /= 2;
        }
    }
}

/// Exhaustive enumeration of single-argument routines over a 2^n bit space.
unsafe fn sweeper(s: *mut Shm, o: &Opts, gs: &[Group], w: usize) {
    sys::child_setup(true);
    let mut rng = Rng::new(w as u64);
    let start = Instant::now();
    let lim = Duration::from_secs_f64(o.secs);
    for gi in 0..gs.len() {
        let bits = gs[gi].r.f.w;
        let total = 1u64 << bits;
        let mut x = w as u64;
        while x < total {
            let a = [x as u128, 0, 0, 0];
            observe(s, o, gs, gi, &a, &mut rng);
            x += o.workers as u64;
            if x & 0xffff < o.workers as u64 && start.elapsed() > lim {
                return;
            }
        }
    }
}

unsafe fn single(rt: &Rout, a: &[u128; 4], cpu: u64) -> Result<[u128; 3], String> {
    // run one call in a fresh process
    let m = sys::shared(4096) as *mut u128;
    let pid = sys::fork();
    if pid == 0 {
        sys::child_setup(true);
        sys::setrlimit(0, &[cpu, cpu + 1]);
        let mut r = [0u128; 3];
        (rt.f)(a.as_ptr(), r.as_mut_ptr());
        for i in 0..3 {
            *m.add(i) = r[i];
        }
        sys::_exit(0);
    }
    let mut st = 0;
    sys::waitpid(pid, &mut st, 0);
    let out = [*m, *m.add(1), *m.add(2)];
    sys::munmap(m as *mut _, 4096);
    if st == 0 {
        Ok(out)
    } else if st & 0x7f == 24 || st & 0x7f == 9 {
        Err(format!("did not return within {cpu} s of CPU time"))
    } else {
        Err(format!("died with signal {} / status {}", st & 0x7f, st >> 8 & 0xff))
    }
}

fn showv(v: V, f: Fmt) -> String {
    match v {
        V::Bits(b) => format!("{b:#x}"),
        V::Range(l, h, s) => format!("[{:#x} .. {:#x}] sign {s}", f.unord(l), f.unord(h)),
        x => format!("{x:x?}"),
    }
}

pub fn describe(g: &Group, rt: &Rout, v: &Viol) -> String {
    let mut s = String::new();
    let f = g.r.f;
    let na = g.r.sig.a.len();
    let nr = g.r.sig.r.len();
    let args: Vec<String> = v.a[..na].iter().map(|x| format!("{x:#x}")).collect();
    let res: Vec<String> = v.res[..nr].iter().map(|x| format!("{x:#x}")).collect();
    let ext: Vec<String> = v.extra[..nr].iter().map(|x| format!("{x:#x}")).collect();
    let _ = write!(s, "{}/{}:{} {} args=({}) ", rt.cfg, rt.route, rt.name, rt.sig, args.join(", "));
    match v.kind {
        K_REF => {
            let mut e = [V::Any; 3];
            g.r.expect(&v.a[..na], &mut e);
            let _ = g.r.check(&v.a[..na], &mut e, &v.res);
            let ex: Vec<String> = (0..nr).map(|i| showv(e[i], Fmt::of(g.r.sig.r[i]).unwrap_or(f))).collect();
            let _ = write!(s, "got ({}) expected ({})", res.join(", "), ex.join(", "));
        }
        K_AGREE => {
            let _ = write!(s, "got ({}) but {}/{}:{} gives ({})", res.join(", "), g.rt[0].cfg, g.rt[0].route, g.rt[0].name, ext.join(", "));
        }
        K_SYM => {
            let _ = write!(s, "got ({}) but with the first argument negated ({})", res.join(", "), ext.join(", "));
        }
        K_RANGE => {
            let _ = write!(s, "got ({}) outside the mathematical range", res.join(", "));
        }
        K_CRASH => {
            // the last two only come from the forwarding library
            let what = match v.extra[0] {
                24 => "did not return",
                31 => "left the floating-point control word, the x87 register stack or the direction flag changed",
                _ => "crashed (panic, trap or fault)",
            };
            let _ = write!(s, "{what}");
        }
        K_HANG => {
            let _ = write!(s, "did not terminate");
        }
        K_ENV => {
            let _ = write!(s, "changed the floating-point control state or direction flag");
        }
        K_HIST => {
            let _ = write!(s, "gave ({}) then ({}) after an unrelated call", res.join(", "), ext.join(", "));
        }
        _ => {}
    }
    s
}

pub struct Outcome {
    pub evals: u64,
    pub checks: u64,
    pub distinct: u64,
    pub nontrivial: u64,
    pub per: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>, // (signature, description)
    pub inconclusive: Vec<String>,
}

pub fn run(o: &Opts, gs: &[Group]) -> Outcome {
    let start = Instant::now();
    let mut shms: Vec<*mut Shm> = vec![];
    for _ in 0..o.workers {
        shms.push(sys::shared(std::mem::size_of::<Shm>()) as *mut Shm);
    }
    let mut pids = vec![0i32; o.workers];
    let mut restarts = 0u64;
    let spawn = |w: usize, round: u64, secs: f64| -> i32 {
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                let oo = Opts { secs, prop: o.prop.clone(), out: String::new(), replay_dir: String::new(), sweep: o.sweep.clone(), ..*o };
                if o.sweep.is_some() {
                    sweeper(shms[w], &oo, gs, w);
                } else {
                    worker(shms[w], &oo, gs, w, round);
                }
                (*shms[w]).done.store(1, SeqCst);
                sys::_exit(0);
            }
        }
        pid
    };
    for w in 0..o.workers {
        pids[w] = spawn(w, 0, o.secs);
    }
    let mut viols: Vec<Viol> = vec![];
    let mut incon: Vec<String> = vec![];
    let mut last: Vec<(u64, Instant, u64)> = (0..o.workers).map(|_| (0, Instant::now(), 0)).collect();
    let mut live = o.workers;
    while live > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..o.workers {
            if pids[w] == 0 {
                continue;
            }
            let s = shms[w];
            let mut st = 0;
            let r = unsafe { sys::waitpid(pids[w], &mut st, 1) };
            if r == pids[w] {
                if st != 0 {
                    unsafe {
                        let (gi, ri) = ((*s).g.load(SeqCst) as usize, (*s).r.load(SeqCst) as usize);
                        if (*s).active.load(SeqCst) == 1 && st & 0x7f != 9 {
                            let rt = &gs[gi].rt[ri];
                            match single(rt, &(*s).args, 60) {
                                Err(_) => {
                                    viols.push(Viol { g: gi as u32, r: ri as u32, kind: K_CRASH, comp: 0, a: (*s).args, res: [0; 3], extra: [(st & 0x7f) as u128, 0, 0] });
                                }
                                Ok(_) => incon.push(format!("{} died once (status {st:#x}) but not when repeated", rt.name)),
                            }
                            for x in &shms {
                                (**x).dead[gi * 64 + ri] = 1;
                            }
                        } else {
                            incon.push(format!("worker {w} ended with status {st:#x} outside a call"));
                        }
                        (*s).active.store(0, SeqCst);
                    }
                    restarts += 1;
                    let left = o.secs - start.elapsed().as_secs_f64();
                    if left > 0.2 && restarts < 400 && o.sweep.is_none() {
                        pids[w] = spawn(w, restarts, left);
                        last[w] = (0, Instant::now(), 0);
                        continue;
                    }
                }
                pids[w] = 0;
                live -= 1;
                continue;
            }
            // watchdog
            let q = unsafe { (*s).seq.load(SeqCst) };
            if q != last[w].0 || unsafe { (*s).active.load(SeqCst) } == 0 {
                last[w] = (q, Instant::now(), sys::cpu_ticks(pids[w]));
            } else if last[w].1.elapsed() > Duration::from_secs(4) && sys::cpu_ticks(pids[w]) - last[w].2 > 300 {
                unsafe {
                    let (gi, ri) = ((*s).g.load(SeqCst) as usize, (*s).r.load(SeqCst) as usize);
                    let a = (*s).args;
                    sys::kill(pids[w], 9);
                    sys::waitpid(pids[w], &mut st, 0);
                    let rt = &gs[gi].rt[ri];
                    match single(rt, &a, 30) {
                        Err(_) => viols.push(Viol { g: gi as u32, r: ri as u32, kind: K_HANG, comp: 0, a, res: [0; 3], extra: [0; 3] }),
                        Ok(_) => {}
                    }
                    for x in &shms {
                        (**x).dead[gi * 64 + ri] = 1;
                    }
                    (*s).active.store(0, SeqCst);
                    restarts += 1;
                    let left = o.secs - start.elapsed().as_secs_f64();
                    if left > 0.2 && o.sweep.is_none() {
                        pids[w] = spawn(w, restarts, left);
                        last[w] = (0, Instant::now(), 0);
                    } else {
                        pids[w] = 0;
                        live -= 1;
                    }
                }
            }
        }
    }
    let mut out = Outcome { evals: 0, checks: 0, distinct: 0, nontrivial: 0, per: vec![], samples: vec![], violations: vec![], inconclusive: incon };
    let mut bm = vec![0u64; BITMAP];
    let mut per = vec![0u64; gs.len()];
    for &s in &shms {
        unsafe {
            out.evals += (*s).evals;
            out.checks += (*s).checks;
            out.nontrivial += (*s).nontrivial;
            for i in 0..BITMAP {
                bm[i] |= (*s).bitmap[i];
            }
            for i in 0..gs.len() {
                per[i] += (*s).per[i];
            }
            for i in 0..(*s).nviol.load(SeqCst) as usize {
                viols.push((*s).viol[i]);
            }
            for i in 0..(*s).nsamp as usize {
                let v = (*s).samp[i];
                if out.samples.len() < 24 {
                    let g = &gs[v.g as usize];
                    let a: Vec<String> = v.a[..g.r.sig.a.len()].iter().map(|x| format!("{x:#x}")).collect();
                    let r: Vec<String> = v.res[..g.r.sig.r.len()].iter().map(|x| format!("{x:#x}")).collect();
                    out.samples.push(format!("{} {} ({}) -> ({})", g.r.op, g.rt[0].sig, a.join(", "), r.join(", ")));
                }
            }
        }
    }
    out.distinct = bm.iter().map(|x| x.count_ones() as u64).sum();
    for (i, g) in gs.iter().enumerate() {
        out.per.push((format!("{} {}", g.r.op, g.rt[0].sig), per[i]));
    }
    // confirm each violation in a fresh process
    for v in viols {
        let g = &gs[v.g as usize];
        let rt = &g.rt[v.r as usize];
        let d = describe(g, rt, &v);
        let confirmed = match v.kind {
            K_CRASH | K_HANG | K_ENV => true,
            K_HIST => true,
            _ => unsafe { single(rt, &v.a, 60).map(|r| same(g, &r, &v.res)).unwrap_or(true) },
        };
        if !confirmed {
            out.inconclusive.push(format!("not reproduced: {d}"));
            continue;
        }
        let na = g.r.sig.a.len();
        let args: Vec<String> = v.a[..na].iter().map(|x| format!("{x:x}")).collect();
        let sig = format!("{} {} {} {} {}", v.kind, rt.route, rt.name, rt.sig, args.join(","));
        out.violations.push((format!("{} {sig}", rt.cfg), d));
    }
    out
}

pub fn build_groups(routs: Vec<Rout>, ops: &[String], dict: &Dict) -> Vec<Group> {
    let mut gs: Vec<Group> = vec![];
    for r in routs {
        if !ops.is_empty() && !ops.iter().any(|o| *o == r.op || o.ends_with('*') && r.op.starts_with(&o[..o.len() - 1])) {
            continue;
        }
        if let Some(g) = gs.iter_mut().find(|g| g.r.op == r.op && g.rt[0].sig == r.sig) {
            if g.rt.len() < 64 {
                g.rt.push(r);
            }
            continue;
        }
        let or = OpRef::new(&r.op, &r.sig);
        let gen = Gen::new(&r.op, &or.sig.a, &or.sig.r, dict);
        gs.push(Group { r: or, g: gen, rt: vec![r], hard: false });
    }
    assert!(gs.len() <= MAXFN);
    gs
}
