//! Monitor for hexadecimal float text: an independent parser with exact arithmetic on the digit
//! string decides every conversion the library makes.
use crate::dl::Lib;
use crate::gen::Rng;
use crate::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

type Parse = unsafe extern "C" fn(*const u8, usize, u32, u32, u32, u32, *mut u128) -> u32;
type Fmt = unsafe extern "C" fn(u128, u32, *mut u8, usize) -> usize;

pub const REJECT: u32 = 0x80;
const INEXACT: u32 = 16;
const UNDER: u32 = 8;
const OVER: u32 = 4;

/// Expected bits and status of `s` in the format (bits, sig) under rounding 0 nearest, 1 down, 2 up, 3 zero.
pub fn expect(s: &[u8], bits: u32, sig: u32, round: u32) -> Option<(u128, u32)> {
    let (mut i, mut neg) = (0, false);
    if i < s.len() && (s[i] == b'-' || s[i] == b'+') {
        neg = s[i] == b'-';
        i += 1;
    }
    let eb = bits - sig - 1;
    let sign = if neg { 1u128 << (bits - 1) } else { 0 };
    let inf = ((1u128 << eb) - 1) << sig;
    let rest = &s[i..];
    if rest.eq_ignore_ascii_case(b"inf") {
        return Some((sign | inf, 0));
    }
    if rest.eq_ignore_ascii_case(b"nan") {
        return Some((sign | inf | 1 << (sig - 1), 0));
    }
    if rest.len() < 2 || rest[0] != b'0' || (rest[1] | 32) != b'x' {
        return None;
    }
    let p = rest.iter().position(|&c| c | 32 == b'p')?;
    let (m, e) = (&rest[2..p], &rest[p + 1..]);
    let mut digits: Vec<u8> = vec![];
    let mut frac = 0i64;
    let mut point = false;
    for &c in m {
        if c == b'.' {
            if point {
                return None;
            }
            point = true;
            continue;
        }
        digits.push((c as char).to_digit(16)? as u8);
        if point {
            frac += 1;
        }
    }
    if digits.is_empty() {
        return None;
    }
    let (eneg, e) = match e.first() {
        Some(b'-') => (true, &e[1..]),
        Some(b'+') => (false, &e[1..]),
        _ => (false, e),
    };
    if e.is_empty() {
        return None;
    }
    let mut pe: i128 = 0;
    for &c in e {
        if !c.is_ascii_digit() {
            return None;
        }
        pe = (pe * 10 + (c - b'0') as i128).min(1 << 60);
    }
    if eneg {
        pe = -pe;
    }
    // bits from the most significant one down; value = B * 2^lo
    let lo = pe - 4 * frac as i128;
    let mut b: Vec<u8> = vec![];
    for d in &digits {
        for k in (0..4).rev() {
            b.push(d >> k & 1);
        }
    }
    let Some(first) = b.iter().position(|&x| x == 1) else { return Some((sign, 0)) };
    let b = &b[first..];
    let e = lo + b.len() as i128 - 1;
    let bias = (1i128 << (eb - 1)) - 1;
    let emin = 1 - bias;
    let q = (e - sig as i128).max(emin - sig as i128);
    // integer part of value / 2^q
    let keep = e - q + 1;
    let mut int = 0u128;
    let (mut half, mut sticky) = (0u8, false);
    for (i, &x) in b.iter().enumerate() {
        let i = i as i128;
        if i < keep {
            int = int << 1 | x as u128;
        } else if i == keep {
            half = x;
        } else {
            sticky |= x == 1;
        }
    }
    if keep > b.len() as i128 {
        int <<= (keep - b.len() as i128) as u32;
    }
    if keep < 0 {
        // the leading one lies beyond the half place
        half = 0;
        sticky = true;
    }
    let inexact = half == 1 || sticky;
    let up = match round {
        0 => half == 1 && (sticky || int & 1 == 1),
        1 => neg && inexact,
        2 => !neg && inexact,
        _ => false,
    };
    int += up as u128;
    let mut st = if inexact { INEXACT } else { 0 };
    // int < 2^(sig+1) or exactly that: the encoding carries over
    let field = q - (emin - sig as i128);
    let over = field >= 1 << eb || {
        let r = int + ((field as u128) << sig);
        r >= inf
    };
    if over {
        let toinf = match round {
            0 => true,
            1 => neg,
            2 => !neg,
            _ => false,
        };
        return Some((sign | if toinf { inf } else { inf - 1 }, INEXACT | OVER));
    }
    let r = int + ((field as u128) << sig);
    if inexact && r < 1 << sig {
        st |= UNDER;
    }
    Some((sign | r, st))
}

#[repr(C)]
struct Shm {
    seq: AtomicU64,
    text: [u8; 1024],
    len: usize,
    f: [u32; 4],
    evals: u64,
    checks: u64,
    distinct: u64,
    rejected: u64,
    formats: u64,
    done: u64,
    nviol: u64,
    v: [[u8; 640]; 8],
    nsamp: u64,
    samp: [[u8; 200]; 6],
}
fn put(d: &mut [u8], t: &str) {
    let n = t.len().min(d.len() - 1);
    d.fill(0);
    d[..n].copy_from_slice(&t.as_bytes()[..n]);
}
fn get(d: &[u8]) -> String {
    let n = d.iter().position(|&b| b == 0).unwrap_or(d.len());
    String::from_utf8_lossy(&d[..n]).into()
}

const STD: [(u32, u32); 4] = [(16, 10), (32, 23), (64, 52), (128, 112)];

fn format(r: &mut Rng) -> (u32, u32) {
    if r.below(4) != 0 {
        return STD[r.below(4) as usize];
    }
    if r.one_in(3) {
        return [(16, 7), (8, 3), (8, 2), (80, 63), (19, 10), (6, 2), (5, 2), (4, 1), (128, 119), (96, 80), (34, 4), (31, 1)][r.below(12) as usize];
    }
    loop {
        let sig = 1 + r.below(119) as u32;
        let bits = sig + 3 + r.below(28) as u32;
        if bits <= 128 && bits <= sig + 30 {
            return (bits, sig);
        }
    }
}

fn text(r: &mut Rng, bits: u32, sig: u32) -> Vec<u8> {
    let mut s = vec![];
    match r.below(3) {
        0 => s.push(b'-'),
        1 => s.push(b'+'),
        _ => {}
    }
    if r.one_in(60) {
        let w: &[u8] = [&b"inf"[..], b"nan", b"INF", b"NaN", b"iNf", b"infinity", b"in", b"nan0", b"0x", b"", b"0xp0", b"0x.p0", b"0x1.8", b"0x1p", b"0x1p+", b"0x1p-", b"1p0", b"0x1.0.0p0"][r.below(18) as usize];
        s.extend_from_slice(w);
        return s;
    }
    s.extend_from_slice(if r.one_in(4) { b"0X" } else { b"0x" });
    // significand as a bit string
    let mut b: Vec<u8> = vec![1];
    let n = match r.below(6) {
        0 => r.below(8) as usize,
        1 => sig as usize + r.below(4) as usize,
        2 => r.below(sig as u64 + 1) as usize,
        _ => sig as usize,
    };
    let style = r.below(5);
    for _ in 0..n {
        b.push(match style {
            0 => 1,
            1 => 0,
            2 => r.one_in(9) as u8,
            _ => r.one_in(2) as u8,
        });
    }
    // what follows the last kept bit
    match r.below(8) {
        0 | 1 => b.push(1),
        2 => {
            b.push(1);
            let z = [4, 20, 140, 600][r.below(4) as usize];
            let z = r.below(z) as usize;
            b.extend(std::iter::repeat(0).take(z));
            b.push(1);
        }
        3 => {
            b.push(0);
            let z = [4, 20, 140, 600][r.below(4) as usize];
            let z = r.below(z) as usize;
            b.extend(std::iter::repeat(1).take(z));
        }
        4 => {
            let z = [4, 20, 140, 600][r.below(4) as usize];
            let z = r.below(z) as usize;
            b.extend(std::iter::repeat(0).take(z));
            b.push(1);
        }
        5 => {
            let z = r.below(140) as usize;
            for _ in 0..z {
                b.push(r.one_in(2) as u8);
            }
        }
        _ => {}
    }
    if r.one_in(40) {
        b = vec![0];
    }
    // nibble alignment
    let lead = r.below(4) as usize + if r.one_in(10) { 4 * r.below(40) as usize } else { 0 };
    let mut d = vec![0u8; lead];
    let body = b.len();
    d.extend(b);
    let mut tailz = (4 - d.len() % 4) % 4;
    if r.one_in(8) {
        tailz += 4 * r.below(40) as usize;
    }
    d.extend(std::iter::repeat(0).take(tailz));
    let nd = d.len() / 4;
    let point = if r.one_in(6) { None } else { Some([r.below(nd as u64 + 1) as usize, 0, 1.min(nd), nd][r.below(4) as usize]) };
    let up = r.below(3);
    for k in 0..nd {
        if point == Some(k) {
            s.push(b'.');
        }
        let v = d[4 * k] << 3 | d[4 * k + 1] << 2 | d[4 * k + 2] << 1 | d[4 * k + 3];
        let c = char::from_digit(v as u32, 16).unwrap();
        s.push(match up {
            0 => c.to_ascii_uppercase() as u8,
            1 if r.one_in(2) => c.to_ascii_uppercase() as u8,
            _ => c as u8,
        });
    }
    if point == Some(nd) {
        s.push(b'.');
    }
    s.push(if r.one_in(4) { b'P' } else { b'p' });
    // exponent of the leading one in the digit string as written
    let frac = point.map_or(0, |p| 4 * (nd - p) as i64);
    let lead_e = (d.len() - lead) as i64 - 1 - frac;
    let eb = bits - sig - 1;
    let bias = (1i64 << (eb - 1)) - 1;
    let want = match r.below(9) {
        0 => bias + r.range(-2, 3),
        1 => 1 - bias + r.range(-2, 2),
        2 => 1 - bias - r.range(0, sig as i64 + 3),
        3 => 1 - bias - sig as i64 + r.range(-4, 4),
        4 => r.range(-20, 20),
        5 => r.range(-bias - 200, bias + 200),
        _ => r.range(1 - bias, bias),
    };
    let e: i128 = match r.below(24) {
        0 => [0, 1, -1, i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, 1 << 32, i64::MAX as i128, i64::MIN as i128][r.below(9) as usize] + r.range(-3, 6) as i128,
        1 => (1i128 << r.below(100)) * if r.one_in(2) { 1 } else { -1 } + r.range(-5, 5) as i128,
        2 => [i32::MAX as i128, i32::MIN as i128][r.below(2) as usize] + r.range(-800, 800) as i128,
        3 => (u32::MAX as i128 + 1) * r.range(-3, 3) as i128 + (want - lead_e) as i128,
        _ => (want - lead_e) as i128,
    };
    if e < 0 {
        s.push(b'-');
    } else if r.one_in(2) {
        s.push(b'+');
    }
    if r.one_in(12) {
        s.extend(std::iter::repeat(b'0').take(r.below(30) as usize));
    }
    s.extend(e.unsigned_abs().to_string().bytes());
    if r.one_in(100) {
        let k = r.below(30) as usize;
        s.extend(std::iter::repeat(b'0' + r.below(10) as u8).take(k));
    }
    s
}

fn mutate(r: &mut Rng, s: &mut Vec<u8>) {
    let pool: &[&str] = &["g", "x", "p", "P", ".", "-", "+", " ", "0", "f", "_", "@", "`", "/", ":", "G", "\0", "\u{7f}", "é", "０", "q", "e", "\n"];
    for _ in 0..1 + r.below(2) {
        let k = pool[r.below(pool.len() as u64) as usize].as_bytes();
        let i = r.below(s.len() as u64 + 1) as usize;
        match r.below(4) {
            0 if i < s.len() && s[i] < 128 => {
                s.remove(i);
            }
            1 if i < s.len() && s.iter().all(|&c| c < 128) => {
                s.splice(i..i + 1, k.iter().copied());
            }
            2 => s.truncate(if s.iter().all(|&c| c < 128) { i } else { s.len() }),
            _ => {
                if s.iter().all(|&c| c < 128) {
                    s.splice(i..i, k.iter().copied());
                }
            }
        }
    }
}

unsafe fn judge(s: &mut Shm, parse: Parse, t: &[u8], bits: u32, sig: u32, seen: &mut HashSet<u64>) {
    s.len = t.len().min(1024);
    s.text[..s.len].copy_from_slice(&t[..s.len]);
    for round in 0..4u32 {
        let want = expect(t, bits, sig, round);
        for exact in [0u32, 1] {
            if exact == 1 && round != 0 {
                continue;
            }
            s.f = [bits, sig, round, exact];
            s.seq.fetch_add(1, SeqCst);
            let mut v = 0u128;
            let st = parse(t.as_ptr(), t.len(), bits, sig, round, exact, &mut v);
            s.seq.fetch_add(1, SeqCst);
            s.evals += 1;
            let w = if exact == 1 { want.filter(|x| x.1 == 0) } else { want };
            let (v, st) = if st & REJECT != 0 { (0, REJECT) } else { (v, st) };
            let (wv, ws) = w.unwrap_or((0, REJECT));
            s.checks += 1;
            if ws == REJECT {
                s.rejected += 1;
            }
            if v != wv || st != ws {
                let k = s.nviol as usize;
                if k < 8 {
                    put(
                        &mut s.v[k],
                        &format!(
                            "{:?} as {bits}-bit with {sig} fraction bits, {}{}: {v:#x} status {st:#x}, expected {wv:#x} status {ws:#x}",
                            String::from_utf8_lossy(&t[..t.len().min(300)]),
                            ["nearest", "down", "up", "toward zero"][round as usize],
                            if exact == 1 { " (exact)" } else { "" }
                        ),
                    );
                }
                s.nviol += 1;
            }
            if seen.len() < 3_000_000 {
                let mut h = bits as u64 | (sig as u64) << 8 | (round as u64) << 16 | (ws as u64) << 20 | (t.len().min(255) as u64) << 30;
                h ^= ((wv >> sig) as u64) << 40 ^ ((wv & 15) as u64) << 58;
                seen.insert(h);
                s.distinct = seen.len() as u64;
            }
        }
    }
    if s.nsamp < 6 && s.evals.is_power_of_two() && s.evals > 1000 {
        let k = s.nsamp as usize;
        put(&mut s.samp[k], &format!("{} -> {bits}/{sig} {:x?}", String::from_utf8_lossy(&t[..t.len().min(120)]), expect(t, bits, sig, 0)));
        s.nsamp += 1;
    }
}

unsafe fn worker(s: &mut Shm, parse: Parse, fmt: Fmt, mut r: Rng, end: Instant) {
    let mut seen = HashSet::new();
    let mut k = 0u64;
    while s.nviol < 6 {
        k += 1;
        if k & 63 == 0 && Instant::now() > end {
            break;
        }
        if r.below(5) == 0 {
            // format and read back
            let i = r.below(4) as usize;
            let (bits, sig) = STD[i];
            let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            let x = if bits == 16 { (k / 7) as u128 & m } else { crate::gen::pattern(&mut r, bits) & m };
            let eb = bits - sig - 1;
            let x = match r.below(4) {
                0 => x & !(((1u128 << eb) - 1) << sig),
                1 => x & !((1u128 << sig) - 1) | r.below(3) as u128,
                _ => x,
            };
            let frac = x & ((1 << sig) - 1);
            let isnan = (x >> sig) & ((1 << eb) - 1) == (1 << eb) - 1 && frac != 0;
            let mut buf = [0u8; 256];
            put(&mut s.text, &format!("formatting {x:#x} as {bits} bits"));
            s.len = 0;
            s.seq.fetch_add(1, SeqCst);
            let n = fmt(x, bits, buf.as_mut_ptr(), 256);
            s.seq.fetch_add(1, SeqCst);
            s.evals += 1;
            s.formats += 1;
            if isnan {
                continue;
            }
            let t = buf[..n].to_vec();
            let back = expect(&t, bits, sig, 0);
            let mut v = 0u128;
            let st = parse(t.as_ptr(), n, bits, sig, 0, 1, &mut v);
            s.checks += 2;
            if back != Some((x, 0)) || st != 0 || v != x {
                let k = s.nviol as usize;
                if k < 8 {
                    put(&mut s.v[k], &format!("{x:#x} ({bits} bits) is formatted as {:?}, which denotes {back:x?} and is read back as {v:#x} status {st:#x}", String::from_utf8_lossy(&t)));
                }
                s.nviol += 1;
            }
            continue;
        }
        let (bits, sig) = format(&mut r);
        let mut t = text(&mut r, bits, sig);
        if r.below(6) == 0 {
            mutate(&mut r, &mut t);
        }
        judge(s, parse, &t, bits, sig, &mut seen);
    }
    s.done = 1;
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut out) = (1u64, 10.0f64, String::new());
    let mut suts = vec![];
    let mut one = None;
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--out" => out = v,
            "--sut" => suts.push(v),
            "--one" => one = Some(v),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let libs: Vec<(String, Lib)> = suts.iter().map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), Lib::open(b))).unwrap()).collect();
    if let Some(o) = one {
        // bits,sig,text
        let mut w = o.splitn(3, ',');
        let (b, sg) = (w.next().unwrap().parse().unwrap(), w.next().unwrap().parse().unwrap());
        let t = w.next().unwrap().as_bytes().to_vec();
        let s = unsafe { &mut *(sys::shared(std::mem::size_of::<Shm>()) as *mut Shm) };
        for (c, l) in &libs {
            unsafe { judge(s, std::mem::transmute(l.sym("sut_hex_parse")), &t, b, sg, &mut HashSet::new()) };
        }
        for k in 0..s.nviol.min(8) as usize {
            println!("{}", get(&s.v[k]));
        }
        std::process::exit((s.nviol > 0) as i32);
    }
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let (mut evals, mut checks, mut distinct, mut rejected, mut formats) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let (mut viol, mut samples, mut incon, mut per) = (vec![], vec![], vec![], vec![]);
    let mut running: Vec<(i32, usize, u64, *mut Shm, u64, u64)> = vec![];
    let spawn = |w: usize, round: u64| {
        let sh = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let (_, l) = &libs[w % libs.len()];
        let (p, f) = (l.sym("sut_hex_parse"), l.sym("sut_hex_fmt"));
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::child_setup(true);
                worker(&mut *sh, std::mem::transmute(p), std::mem::transmute(f), Rng::new(seed.wrapping_mul(7919) ^ (w as u64) << 20 ^ round << 40), end);
                sys::_exit(0);
            }
        }
        (pid, w, round, sh, 0u64, 0u64)
    };
    for w in 0..8 {
        running.push(spawn(w, 0));
    }
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut k = 0;
        while k < running.len() {
            let (pid, w, round, sh, _, _) = running[k];
            let s = unsafe { &mut *sh };
            let mut st = 0;
            let mut hung = false;
            if unsafe { sys::waitpid(pid, &mut st, 1) } == 0 {
                let (q, cpu) = (s.seq.load(SeqCst), sys::cpu_ticks(pid));
                if q != running[k].4 {
                    running[k].4 = q;
                    running[k].5 = cpu;
                } else if q & 1 == 1 && cpu > running[k].5 + 3000 {
                    hung = true;
                    unsafe {
                        sys::kill(pid, 9);
                        sys::waitpid(pid, &mut st, 0);
                    }
                }
                if !hung {
                    k += 1;
                    continue;
                }
            }
            let cfg = &libs[w % libs.len()].0;
            for v in 0..s.nviol.min(8) as usize {
                viol.push(format!("{cfg}: {}", get(&s.v[v])));
            }
            let inside = s.seq.load(SeqCst) & 1 == 1;
            let crashed = hung || (st & 127 != 0 && st & 127 != 9);
            if crashed && inside {
                let t = if s.len == 0 { get(&s.text) } else { format!("{:?} as {:?}", String::from_utf8_lossy(&s.text[..s.len]), s.f) };
                viol.push(format!("{cfg}: {t}: {}", if hung { "does not return".to_string() } else { format!("dies with signal {}", st & 127) }));
            } else if st != 0 {
                incon.push(format!("{cfg}: worker ended with {st:#x}"));
            }
            evals += s.evals;
            checks += s.checks;
            distinct += s.distinct;
            rejected += s.rejected;
            formats += s.formats;
            per.push((format!("{cfg}/{w}/{round}"), s.evals));
            for q in 0..s.nsamp as usize {
                samples.push(get(&s.samp[q]));
            }
            running.swap_remove(k);
            if crashed && round < 3 && Instant::now() < end {
                running.push(spawn(w, round + 1));
            }
        }
    }
    let vs: Vec<String> = viol.iter().map(|d| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(d), crate::jstr(d))).collect();
    let per: Vec<String> = per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let j = format!(
        "{{\"evals\":{evals},\"checks\":{checks},\"distinct\":{distinct},\"nontrivial\":{},\"groups\":{rejected},\"routines\":{formats},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        evals - rejected,
        per.join(","),
        crate::jarr(&samples),
        vs.join(","),
        crate::jarr(&incon)
    );
    std::fs::write(&out, j).unwrap();
}
