//! Schedules around the first call of a routine: with the library's writable data put back to its
//! just-loaded state, a call is single-stepped and another call runs to completion in the middle of
//! it, at every instruction boundary of interest; and real threads make their first calls at once.
use crate::fp::Fmt;
use crate::gen::{Dict, Rng};
use crate::run::{build_groups, same, Group};
use crate::{sut, sys};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Barrier;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn va_step(f: usize, a: usize, b: usize, c: usize) -> usize;
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn sigaltstack(a: *const [usize; 3], o: *mut [usize; 3]) -> i32;
}
#[repr(C)]
struct Sa {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}
static mut STEPS: u64 = 0;
static mut AT: u64 = 0;
static mut NEST: usize = 0;
static mut NIN: [u128; 4] = [0; 4];
static mut NOUT: [u128; 4] = [0; 4];
static mut CAP: u64 = 0;
extern "C" fn on_trap(_s: i32, _i: usize, ctx: usize) {
    unsafe {
        STEPS += 1;
        if STEPS == AT {
            let f: unsafe extern "C" fn(*const u128, *mut u128) = std::mem::transmute(NEST);
            f(&raw const NIN as *const u128, &raw mut NOUT as *mut u128);
        }
        if (AT != 0 && STEPS >= AT) || STEPS >= CAP {
            // let the rest run freely
            let fl = (ctx + 40 + 17 * 8) as *mut u64;
            *fl &= !0x100;
        }
    }
}

/// writable memory of one shared object
struct State {
    seg: Vec<(usize, Vec<u8>)>,
}
impl State {
    fn take(path: &str) -> State {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut seg = vec![];
        let mut prev_end = 0;
        let real = std::fs::canonicalize(path).map(|p| p.to_string_lossy().into_owned()).unwrap_or(path.into());
        for l in maps.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let (a, b) = w[0].split_once('-').unwrap();
            let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
            let ours = w.get(5).is_some_and(|p| *p == real);
            // zero-initialised data continues in an unnamed mapping
            if w[1].starts_with("rw") && (ours || w.len() == 5 && a == prev_end) {
                seg.push((a, unsafe { std::slice::from_raw_parts(a as *const u8, b - a).to_vec() }));
            }
            prev_end = if ours { b } else { 0 };
        }
        State { seg }
    }
    unsafe fn restore(&self) {
        for (a, d) in &self.seg {
            std::ptr::copy_nonoverlapping(d.as_ptr(), *a as *mut u8, d.len());
        }
    }
    unsafe fn changed(&self) -> bool {
        self.seg.iter().any(|(a, d)| std::slice::from_raw_parts(*a as *const u8, d.len()) != &d[..])
    }
    fn len(&self) -> usize {
        self.seg.iter().map(|s| s.1.len()).sum()
    }
}

#[repr(C)]
struct Shm {
    seq: AtomicU64,
    evals: u64,
    steps: u64,
    distinct: u64,
    threads: u64,
    stateful: u64,
    bytes: u64,
    cur: [u8; 256],
    nviol: u64,
    v: [[u8; 512]; 8],
    st: [[u8; 64]; 40],
    samp: [[u8; 256]; 6],
    nsamp: u64,
}
fn put(d: &mut [u8], t: &str) {
    let n = t.len().min(d.len() - 1);
    d.fill(0);
    d[..n].copy_from_slice(&t.as_bytes()[..n]);
}
fn get(d: &[u8]) -> String {
    let n = d.iter().position(|&b| b == 0).unwrap_or(d.len());
    String::from_utf8_lossy(&d[..n]).into()
}
fn hex(a: &[u128]) -> String {
    a.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(",")
}
fn viol(s: &mut Shm, t: &str) {
    let k = s.nviol as usize;
    if k < 8 {
        put(&mut s.v[k], t);
    }
    s.nviol += 1;
}
unsafe fn plain(g: &Group, ri: usize, a: &[u128; 4]) -> [u128; 3] {
    let mut o = [0u128; 4];
    (g.rt[ri].f)(a.as_ptr(), o.as_mut_ptr());
    [o[0], o[1], o[2]]
}
fn light(op: &str) -> bool {
    !op.starts_with("w_")
}

unsafe fn stepping(s: &mut Shm, gs: &[Group], st: &State, mut r: Rng, end: Instant) {
    let sp = sys::shared(1 << 18);
    sigaltstack(&[sp as usize, 0, 1 << 18], std::ptr::null_mut());
    let a = Sa { h: on_trap as *const () as usize, mask: [0; 16], flags: 0x08000004, rest: 0 };
    sigaction(5, &a, std::ptr::null_mut());
    s.bytes = st.len() as u64;
    let mut seen = HashSet::new();
    let mut found = HashSet::new();
    let pick: Vec<(usize, usize)> = gs.iter().enumerate().flat_map(|(i, g)| (0..g.rt.len()).map(move |k| (i, k))).collect();
    let mut hot: Vec<(usize, usize)> = vec![];
    let mut it = r.below(pick.len() as u64);
    while s.nviol < 5 && Instant::now() < end {
        it += 1;
        let (gi, ri) = if !hot.is_empty() && it % 3 == 0 { hot[r.below(hot.len() as u64) as usize] } else { pick[it as usize % pick.len()] };
        let g = &gs[gi];
        let mut x = [0u128; 4];
        g.g.gen(&mut r, &mut x);
        // what an isolated first call does
        put(&mut s.cur, &format!("{}:{}({})", g.rt[ri].route, g.rt[ri].name, hex(&x[..g.r.sig.a.len()])));
        s.seq.fetch_add(1, SeqCst);
        st.restore();
        let want = plain(g, ri, &x);
        let stateful = st.changed();
        // and the call after it
        let again = plain(g, ri, &x);
        if !same(g, &want, &again) {
            viol(s, &format!("{}:{}({}) gives {} on its first call and {} on its second", g.rt[ri].route, g.rt[ri].name, hex(&x[..g.r.sig.a.len()]), hex(&want), hex(&again)));
        }
        st.restore();
        STEPS = 0;
        AT = 0;
        CAP = 6000;
        let mut out = [0u128; 4];
        va_step(g.rt[ri].f as usize, x.as_ptr() as usize, out.as_mut_ptr() as usize, 0);
        let total = STEPS;
        s.steps += total;
        s.seq.fetch_add(1, SeqCst);
        if stateful && found.insert((gi, ri)) {
            hot.push((gi, ri));
            if (s.stateful as usize) < 40 {
                put(&mut s.st[s.stateful as usize], &format!("{}:{}", g.rt[ri].route, g.rt[ri].name));
            }
            s.stateful += 1;
        }
        // boundaries: all of them where library state is involved, a few otherwise
        let mut at: Vec<u64> = vec![];
        if stateful {
            at.extend(1..=total.min(1500));
        } else {
            for _ in 0..3 {
                at.push(1 + r.below(total));
            }
        }
        let (mut pi, mut pk) = (gi, ri);
        let mut y = x;
        match r.below(4) {
            0 | 1 => {}
            2 => g.g.gen(&mut r, &mut y),
            _ => {
                let q = if stateful { hot[r.below(hot.len() as u64) as usize] } else { pick[r.below(pick.len() as u64) as usize] };
                pi = q.0;
                pk = q.1;
                gs[pi].g.gen(&mut r, &mut y);
            }
        }
        let p = &gs[pi];
        st.restore();
        let pwant = plain(p, pk, &y);
        let desc = format!(
            "{}:{}({}) interrupted by {}:{}({})",
            g.rt[ri].route, g.rt[ri].name, hex(&x[..g.r.sig.a.len()]), p.rt[pk].route, p.rt[pk].name, hex(&y[..p.r.sig.a.len()])
        );
        for k in at {
            put(&mut s.cur, &format!("{desc} after {k} instructions"));
            s.seq.fetch_add(1, SeqCst);
            st.restore();
            STEPS = 0;
            AT = k;
            CAP = u64::MAX;
            NEST = p.rt[pk].f as usize;
            NIN = y;
            NOUT = [0; 4];
            let mut out = [0u128; 4];
            va_step(g.rt[ri].f as usize, x.as_ptr() as usize, out.as_mut_ptr() as usize, 0);
            s.seq.fetch_add(1, SeqCst);
            s.evals += 1;
            s.steps += STEPS;
            let (o, n) = ([out[0], out[1], out[2]], [NOUT[0], NOUT[1], NOUT[2]]);
            if STEPS >= k && !same(p, &n, &pwant) {
                viol(s, &format!("{desc} after {k} instructions: the interrupting call gives {}, alone {}", hex(&n), hex(&pwant)));
                break;
            }
            if !same(g, &o, &want) {
                viol(s, &format!("{desc} after {k} instructions: gives {}, alone {}", hex(&o), hex(&want)));
                break;
            }
            if seen.len() < 1_000_000 {
                seen.insert((gi, ri, k, stateful));
                s.distinct = seen.len() as u64;
            }
        }
        if s.nsamp < 6 && s.evals > 500 << s.nsamp {
            let k = s.nsamp as usize;
            put(&mut s.samp[k], &format!("{desc}, {total} boundaries, library data {}: {}", if stateful { "written" } else { "untouched" }, hex(&want)));
            s.nsamp += 1;
        }
    }
    st.restore();
}

/// Threads make their first calls at the same moment.
unsafe fn crowd(s: &mut Shm, gs: &[Group], st: &State, mut r: Rng, end: Instant) {
    let pick: Vec<(usize, usize)> = gs.iter().enumerate().flat_map(|(i, g)| (0..g.rt.len()).map(move |k| (i, k))).collect();
    // routines that write library data are where first calls can collide
    let mut hot = vec![];
    for &(gi, ri) in &pick {
        let mut x = [0u128; 4];
        for _ in 0..3 {
            gs[gi].g.gen(&mut r, &mut x);
            put(&mut s.cur, &format!("{}({})", gs[gi].rt[ri].name, hex(&x[..gs[gi].r.sig.a.len()])));
            s.seq.fetch_add(1, SeqCst);
            st.restore();
            plain(&gs[gi], ri, &x);
            s.seq.fetch_add(1, SeqCst);
            if st.changed() {
                hot.push((gi, ri));
                break;
            }
        }
    }
    const T: usize = 6;
    while s.nviol < 5 && Instant::now() < end {
        let jobs: Vec<((usize, usize), [u128; 4])> = (0..24)
            .map(|_| {
                let p = if !hot.is_empty() && r.below(4) != 0 { hot[r.below(hot.len() as u64) as usize] } else { pick[r.below(pick.len() as u64) as usize] };
                let mut x = [0u128; 4];
                gs[p.0].g.gen(&mut r, &mut x);
                (p, x)
            })
            .collect();
        // several collisions per set of threads: the library is put back between them
        let turns = 40;
        let bar = Barrier::new(T);
        put(&mut s.cur, "first calls of several threads at once");
        s.seq.fetch_add(1, SeqCst);
        let got: Vec<Vec<(usize, [u128; 3])>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..T)
                .map(|t| {
                    let (jobs, bar) = (&jobs, &bar);
                    sc.spawn(move || {
                        let mut out = vec![];
                        for turn in 0..turns {
                            if t == 0 {
                                st.restore();
                            }
                            bar.wait();
                            for k in 0..3 {
                                // mostly the same routine from every thread
                                let j = (turn * 5 + k + if turn & 1 == 1 { t } else { 0 }) % jobs.len();
                                let ((gi, ri), x) = &jobs[j];
                                out.push((j, plain(&gs[*gi], *ri, x)));
                            }
                            bar.wait();
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        s.seq.fetch_add(1, SeqCst);
        let want: Vec<[u128; 3]> = jobs
            .iter()
            .map(|((gi, ri), x)| {
                st.restore();
                plain(&gs[*gi], *ri, x)
            })
            .collect();
        for (j, o) in got.into_iter().flatten() {
            s.evals += 1;
            let ((gi, ri), x) = &jobs[j];
            if !same(&gs[*gi], &o, &want[j]) {
                let g = &gs[*gi];
                viol(s, &format!("{}:{}({}) among concurrent first calls gives {}, alone {}", g.rt[*ri].route, g.rt[*ri].name, hex(&x[..g.r.sig.a.len()]), hex(&o), hex(&want[j])));
                break;
            }
        }
        s.threads += (T * turns) as u64;
        s.distinct = s.threads;
    }
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut out, mut dict) = (1u64, 10.0f64, String::new(), String::new());
    let mut suts = vec![];
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--out" => out = v,
            "--dict" => dict = v,
            "--sut" => suts.push(v),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let d = Dict::load(&dict);
    let mut libs = vec![];
    let mut keep = vec![];
    for spec in &suts {
        let s = sut::load(spec);
        let mut rs = s.r;
        rs.retain(|r| light(&r.op));
        keep.push(s.lib);
        let n = rs.len();
        libs.push((s.cfg, spec.split_once('=').unwrap().1.to_string(), build_groups(rs, &[], &d), n));
    }
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut kids = vec![];
    for w in 0..10usize {
        let crowded = w >= 8;
        let li = w % libs.len();
        let sh = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let (_, path, gs, _) = &libs[li];
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::child_setup(true);
                let st = State::take(path);
                if st.len() == 0 {
                    sys::_exit(78);
                }
                let r = Rng::new(seed.wrapping_mul(77713) ^ (w as u64) << 40);
                if crowded {
                    crowd(&mut *sh, gs, &st, r, end);
                } else {
                    stepping(&mut *sh, gs, &st, r, end);
                }
                sys::_exit(0);
            }
        }
        kids.push((pid, w, li, sh));
    }
    let (mut evals, mut steps, mut distinct, mut threads) = (0u64, 0u64, 0u64, 0u64);
    let (mut vs, mut samples, mut incon, mut per) = (vec![], vec![], vec![], vec![]);
    let mut stateful = HashSet::new();
    for (pid, w, li, sh) in kids {
        let s = unsafe { &mut *sh };
        let cfg = &libs[li].0;
        let mut st = 0;
        let (mut last, mut cpu0, mut hung) = (0, 0, false);
        loop {
            if unsafe { sys::waitpid(pid, &mut st, 1) } != 0 {
                break;
            }
            let (q, cpu) = (s.seq.load(SeqCst), sys::cpu_ticks(pid));
            if q != last {
                last = q;
                cpu0 = cpu;
            } else if q & 1 == 1 && cpu > cpu0 + 6000 {
                hung = true;
                unsafe {
                    sys::kill(pid, 9);
                    sys::waitpid(pid, &mut st, 0);
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for v in 0..s.nviol.min(8) as usize {
            vs.push(format!("{cfg} {}", get(&s.v[v])));
        }
        if hung || (s.seq.load(SeqCst) & 1 == 1 && st != 0 && st & 127 != 9) {
            vs.push(format!("{cfg} {}: {}", get(&s.cur), if hung { "does not return".into() } else { format!("dies (status {st:#x})") }));
        } else if st >> 8 & 255 == 78 {
            incon.push(format!("{cfg}: no writable data found to put back"));
        } else if st != 0 {
            incon.push(format!("{cfg}: worker {w} ended with {st:#x}"));
        }
        for k in 0..s.stateful.min(40) as usize {
            stateful.insert(format!("{cfg}/{}", get(&s.st[k])));
        }
        evals += s.evals;
        steps += s.steps;
        distinct += s.distinct;
        threads += s.threads;
        per.push((format!("{cfg}/{w}"), s.evals));
        for k in 0..s.nsamp as usize {
            samples.push(get(&s.samp[k]));
        }
    }
    let mut sf: Vec<String> = stateful.into_iter().collect();
    sf.sort();
    samples.push(format!("routines seen writing library data: {}", sf.join(" ")));
    let vs: Vec<String> = vs.iter().map(|d| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(d), crate::jstr(d))).collect();
    let per: Vec<String> = per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let nf: usize = libs.iter().map(|l| l.3).sum();
    let j = format!(
        "{{\"evals\":{evals},\"checks\":{steps},\"distinct\":{distinct},\"nontrivial\":{evals},\"groups\":{threads},\"routines\":{nf},\"stateful\":{},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        sf.len(),
        per.join(","),
        crate::jarr(&samples),
        vs.join(","),
        crate::jarr(&incon)
    );
    std::fs::write(&out, j).unwrap();
    let _ = Fmt::of(b's');
}
