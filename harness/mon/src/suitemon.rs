//! Monitors for the conformance suite itself: which results its comparison accepts, and which inputs
//! its generators produce.
use crate::fp::{self, *};
use crate::gen::{encode_f64, Dict, FloatGen, Rng};
use crate::sut::{self, Rout};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Out {
    evals: u64,
    checks: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    viol: Vec<(String, String)>,
    samples: Vec<String>,
    per: BTreeMap<String, u64>,
    refused: u64,
    nviol: u64,
}
impl Out {
    fn bad(&mut self, sig: String, text: String) {
        self.nviol += 1;
        if self.viol.iter().filter(|v| v.0 == sig).count() == 0 && self.viol.len() < 60 {
            self.viol.push((sig, text));
        }
    }
}

fn hash(x: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &w in x {
        h = (h ^ w).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    h
}
fn call(r: &Rout, i: &[u128], o: &mut [u128; 4]) {
    *o = [0; 4];
    unsafe { (r.f)(i.as_ptr(), o.as_mut_ptr()) }
}
fn canon(x: u128, c: u8) -> u128 {
    match c {
        b'i' => x as i32 as i128 as u128,
        b'u' => x as u32 as u128,
        b'l' => x as i64 as i128 as u128,
        b'L' | b'z' => x as u64 as u128,
        b'b' => 3 * (x & 1),
        _ => x,
    }
}

// ------------------------------------------------------------------ comparison
/// Largest distance the suite may let pass, by function: what its documentation of the accuracy says.
/// `None` for operations that return no float.
fn documented(op: &str, t: u8, musl: bool) -> Option<u128> {
    let single = t == b's';
    let m = |x: u128| if musl { x } else { 0 };
    Some(match op {
        "powi" => if t == b'd' { 500_000 } else { 1000 },
        "j0" | "j1" | "jn" | "y0" | "y1" | "yn" => 8_000_000,
        "acos" | "asin" | "atan" | "cos" | "erf" | "exp" | "exp2" | "expm1" | "log" | "log10" | "log1p" | "log2" | "pow" | "sin" | "sincos" | "tan" => 1,
        "cosh" => 1.max(m(2)),
        "hypot" => if t == b'd' { m(1) } else { 1 },
        "cbrt" => if t == b'd' { m(2) } else { 0 },
        "fdim" => if t == b'd' { m(2) } else { 0 },
        "asinh" => if single { 2.max(m(3)) } else { 2 },
        "tanh" => 2.max(m(4)),
        "atan2" | "atanh" | "sinh" => 2,
        "acosh" | "erfc" | "lgamma" | "lgamma_r" => 4,
        "exp10" => 6,
        "tgamma" => if single { 1 } else { 20 },
        _ => 0,
    })
}

/// Inputs the suite documents as treated differently (known inaccuracies, limits of the references).
fn excepted(op: &str, sig: &[u8], a: &[u128], basis: u32) -> bool {
    let val = |i: usize| f64::from_bits(fp::convert(a[i], Fmt::of(sig[i]).unwrap(), D).unwrap_or(D.nan()) as u64);
    match op {
        "j0" => val(0) < -0.99e34,
        "lgamma" | "lgamma_r" => {
            let x = val(0);
            x > -32.0 && x < -2.0 || sig[0] == b's' && x == 4.0850034e36 || x == f64::NEG_INFINITY || sig[0] == b's' && a[0] as u32 == 4.0850034e36f32.to_bits()
        }
        "acosh" => basis == 1 && val(0) < 1.0,
        "copysign" => Fmt::of(sig[1]).unwrap().is_nan(a[1]),
        "fmin" | "fmax" => {
            let f = Fmt::of(sig[0]).unwrap();
            f.is_zero(a[0]) && f.is_zero(a[1]) || basis == 1 && (f.is_nan(a[0]) || f.is_nan(a[1]))
        }
        "jn" | "yn" => a[0] as u32 as i32 > 80 || val(1) == f64::NEG_INFINITY || basis == 1 && sig[1] == b's' && op == "yn",
        _ => false,
    }
}

fn cmp_one(r: &Rout, rng: &mut Rng, out: &mut Out, gens: &[FloatGen; 4]) {
    let (ar, rr) = r.sig.split_once('>').unwrap();
    let (ar, rr) = (ar.as_bytes(), rr.as_bytes());
    let gi = |c: u8| match c {
        b'h' => 0,
        b's' => 1,
        b'd' => 2,
        _ => 3,
    };
    let mut i = [0u128; 10];
    for (k, &c) in ar.iter().enumerate() {
        i[k] = match Fmt::of(c) {
            Some(_) => gens[gi(c)].any(rng),
            None if rng.one_in(2) => canon(rng.range(-200, 300) as i128 as u128, c),
            None => canon(crate::gen::pattern(rng, 128), c),
        };
    }
    let basis = rng.below(3) as u32;
    let kind = rng.below(4) as u32;
    i[7] = basis as u128;
    i[8] = kind as u128;
    i[9] = u128::MAX;
    let isf = Fmt::of(rr[0]);
    let doc = isf.map(|_| documented(&r.op, rr[0], basis == 1).unwrap());
    let mut tol = doc;
    if isf.is_some() && rng.one_in(4) {
        i[9] = [0, 1, 2, 3, 7, 100, 1 << 20, u32::MAX as u128][rng.below(8) as usize];
        tol = Some(i[9]);
    }
    let mut want = Some(true);
    let mut shape = [0u64; 2];
    for (k, &c) in rr.iter().enumerate() {
        let (e, a);
        if let Some(f) = Fmt::of(c) {
            e = gens[gi(c)].any(rng);
            let t = tol.unwrap() as i128;
            let how = if rr.len() == 2 && rng.one_in(2) { 0 } else { rng.below(12) };
            a = match how {
                0 | 1 => e,
                2 | 3 | 4 | 5 if !f.is_nan(e) => {
                    let d = match how {
                        2 => t,
                        3 => t + 1,
                        4 => (t + 1 + rng.below(1 << 20) as i128 * (rng.below(3) as i128)).min(1 << 40),
                        _ => rng.below(t as u64 + 1) as i128,
                    };
                    let o = f.ord(e) + if rng.one_in(2) { d } else { -d };
                    let b = f.unord(o.clamp(-(f.inf() as i128), f.inf() as i128));
                    if o == 0 { b | e & f.sign() } else { b }
                }
                6 => e ^ f.sign(),
                7 => f.inf() | e & f.sign(),
                8 => (f.nan() | e & 7) ^ if rng.one_in(2) { f.sign() } else { 0 },
                9 => f.inf() | 1 + rng.below(5) as u128,
                10 if f.w > 34 => f.unord((f.ord(e) + (1i128 << 32)).min(f.inf() as i128)),
                _ => gens[gi(c)].any(rng),
            };
            // one verdict per pair
            let w = if f.is_nan(a) && f.is_nan(e) {
                let loose = basis == 0 || basis == 1 && kind != 3;
                if ar.len() == 1 && r.op == "fabs" && f.is_nan(i[0]) && matches!(c, b's' | b'd') && basis != 0 { a == e } else { loose || a == e }
            } else if f.is_nan(a) || f.is_nan(e) {
                false
            } else if (a ^ e) & f.sign() != 0 || f.is_inf(a) != f.is_inf(e) {
                false
            } else {
                let d = f.ord(a).abs_diff(f.ord(e));
                if r.op == "fabs" && f.is_nan(i[0]) && matches!(c, b's' | b'd') && basis != 0 { a == e } else { d <= tol.unwrap() }
            };
            shape[k] = how << 4 | (f.is_nan(e) as u64) << 1 | (f.is_inf(e) as u64) << 2 | (f.is_zero(e) as u64) << 3 | (w as u64);
            want = want.map(|x| x && w);
        } else {
            e = canon(crate::gen::pattern(rng, 128), c);
            let how = rng.below(5);
            a = match how {
                0 | 1 => e,
                2 if c != b'b' => canon(e.wrapping_add(1), c),
                3 if c != b'b' => canon(e ^ 1 << rng.below(128), c),
                _ => canon(crate::gen::pattern(rng, 128), c),
            };
            shape[k] = how << 1 | (a == e) as u64;
            want = want.map(|x| x && a == e);
        }
        i[3 + k] = a;
        i[5 + k] = e;
    }
    let ex = excepted(&r.op, ar, &i, basis);
    let mut o = [0u128; 4];
    call(r, &i, &mut o);
    out.evals += 1;
    let ctx = || {
        format!(
            "{} with basis {} and {} inputs, input {:x?}, actual {:x?}, expected {:x?}",
            r.name, ["Mpfr", "Musl", "None"][basis as usize], ["EdgeCases", "Spaced", "Random", "List"][kind as usize], &i[..ar.len()], &i[3..3 + rr.len()], &i[5..5 + rr.len()]
        )
    };
    if i[9] == u128::MAX {
        out.checks += 1;
        if let Some(d) = doc {
            if o[1] == u128::MAX || o[1] > d {
                out.bad(format!("{} {basis} tolerance", r.name), format!("{}: basis {} allows {} steps, documented {d}", r.name, basis, o[1] as i128));
            }
        }
        // a stricter table is fine, but then the verdict is not ours to predict
        if doc.is_some_and(|d| o[1] < d) {
            want = want.filter(|&w| !w);
        }
    }
    let mut s = hash(&[shape[0], shape[1], basis as u64, kind as u64, i[9] as u64, hash(&r.name.bytes().map(|b| b as u64).collect::<Vec<_>>())]);
    if out.seen.len() < 4_000_000 {
        out.seen.insert(s);
    }
    if ex {
        if o[0] == 2 {
            out.bad(format!("{} panic", r.name), format!("{}: panicked", ctx()));
        }
        return;
    }
    if let Some(w) = want {
        out.checks += 1;
        out.nontrivial += 1;
        out.refused += !w as u64;
        if o[0] != !w as u128 {
            out.bad(
                format!("{} {} {}", r.name, basis, if w { "refused" } else { "accepted" }),
                format!("{}, tolerance {}: {}, should be {}", ctx(), o[1] as i128, ["accepted", "refused", "panicked"][o[0].min(2) as usize], if w { "accepted" } else { "refused" }),
            );
        }
    }
    if out.samples.len() < 4 && out.evals.is_power_of_two() && out.evals > 1000 {
        out.samples.push(format!("{} -> {}", ctx(), o[0]));
    }
}

fn cmp_run(rs: &[Rout], seed: u64, secs: f64, w: u64) -> Out {
    let mut out = Out::default();
    let mut rng = Rng::new(seed.wrapping_mul(104729) ^ w << 40);
    let d = Dict::load("");
    let g = [FloatGen::new(H, "", &d), FloatGen::new(S, "", &d), FloatGen::new(D, "", &d), FloatGen::new(Q, "", &d)];
    let end = Instant::now() + Duration::from_secs_f64(secs);
    while Instant::now() < end && out.nviol < 200 {
        for r in rs {
            for _ in 0..16 {
                cmp_one(r, &mut rng, &mut out, &g);
            }
        }
    }
    for r in rs {
        *out.per.entry(r.op.clone()).or_default() += out.evals / rs.len() as u64;
    }
    out
}

// ------------------------------------------------------------------ generators
/// What a generator delivered, kept per argument position.
struct Sink<'a> {
    sig: &'a [u8],
    n: u64,
    limit: u64,
    last: [u128; 3],
    order: [Vec<u128>; 3],
    sets: [HashSet<u128>; 3],
    h: u64,
}
impl<'a> Sink<'a> {
    fn new(sig: &'a [u8], limit: u64) -> Sink<'a> {
        Sink { sig, n: 0, limit, last: [0; 3], order: Default::default(), sets: Default::default(), h: 0 }
    }
}
extern "C" fn sink(s: *mut Sink, a: *const u128) -> bool {
    let s = unsafe { &mut *s };
    for k in 0..s.sig.len() {
        let x = unsafe { *a.add(k) };
        if s.n == 0 || s.last[k] != x {
            s.last[k] = x;
            if s.sets[k].len() < 1 << 21 && s.sets[k].insert(x) {
                s.order[k].push(x);
            }
        }
        if s.n < 2_000_000 {
            s.h = (s.h ^ x as u64 ^ (x >> 64) as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
        }
    }
    s.n += 1;
    s.n < s.limit
}

/// Ends of the interval a function is defined on, as far as the suite restricts its inputs.
fn domain(op: &str, f: Fmt) -> (i128, i128) {
    let inf = f.inf() as i128;
    let one = f.one() as i128;
    match op {
        "acos" | "asin" => (-one, one),
        "acosh" => (one, inf),
        "atanh" => (-one + 1, one - 1),
        "log" | "log10" | "log2" => (1, inf),
        "log1p" => (-one + 1, inf),
        "sqrt" => (0, inf),
        _ => (-inf, inf),
    }
}
fn width(c: u8) -> u32 {
    match c {
        b'i' | b'u' => 32,
        b'l' | b'L' => 64,
        _ => 128,
    }
}
fn signed(c: u8) -> bool {
    matches!(c, b'i' | b'l' | b'x')
}
fn int_limits(c: u8) -> (i128, u128) {
    let w = width(c);
    if signed(c) { (if w == 128 { i128::MIN } else { -(1 << (w - 1)) }, (1u128 << (w - 1)) - 1) } else { (0, if w == 128 { u128::MAX } else { (1 << w) - 1 }) }
}
/// Allowed range of an integer argument (as order-preserving u128), for the generators that restrict it.
fn int_range(op: &str, sig: &[u8], k: usize) -> Option<(i128, i128)> {
    match op {
        "ishl" | "ishr" if k == 1 => Some((0, width(sig[0]) as i128 - 1)),
        "jn" | "yn" if k == 0 => Some((-0xff, 0xffff)),
        _ => None,
    }
}
fn key(x: u128, c: u8) -> u128 {
    if signed(c) { x ^ 1 << 127 } else { x }
}

fn name(kind: u32) -> &'static str {
    ["edge-case", "spaced", "random"][kind as usize]
}

fn gen_one(r: &Rout, kind: u32, rng: &mut Rng, out: &mut Out) {
    let (ar, _) = r.sig.split_once('>').unwrap();
    let ar = ar.as_bytes();
    let basis = rng.below(2) as u128;
    let iters: u64 = match ar.len() {
        1 => [rng.below(3000) + 10, rng.below(200_000) + 10_000, 65536, 70_000][rng.below(4) as usize],
        2 => [rng.below(3000) + 100, rng.below(1_000_000) + 10_000][rng.below(2) as usize],
        _ => [rng.below(3000) + 100, rng.below(2_000_000) + 10_000][rng.below(2) as usize],
    };
    let limit = 2_000_000_000;
    let mut s = Sink::new(ar, limit);
    let mut o = [0u128; 4];
    let mk = |s: &mut Sink| [kind as u128, basis, iters as u128, sink as *const () as usize as u128, s as *mut _ as usize as u128];
    let i = mk(&mut s);
    call(r, &i, &mut o);
    out.evals += 1;
    out.nontrivial += (s.n > 0) as u64;
    out.checks += s.n;
    *out.per.entry(format!("{} cases", name(kind))).or_default() += s.n;
    let rn = r.name.trim_start_matches("gen:").to_string();
    let what = format!("{} inputs of {rn} ({} requested)", name(kind), if kind == 0 { "all".into() } else { iters.to_string() });
    macro_rules! bad {
        ($tag:expr, $($t:tt)*) => {
            out.bad(format!("{} {rn} {}", name(kind), $tag), format!("{what}: {}", format!($($t)*)))
        };
    }
    if out.seen.len() < 1_000_000 {
        out.seen.insert(hash(&[kind as u64, iters, s.h]));
    }
    if out.samples.len() < 5 && out.evals % 97 == 5 {
        out.samples.push(format!("{what}: {} announced, {} seen, distinct per argument {:?}", o[1], s.n, s.sets.iter().map(|x| x.len()).collect::<Vec<_>>()));
    }
    if o[0] != 0 {
        bad!("panic", "the generator panicked after {} cases", s.n);
        return;
    }
    let all = s.n < limit;
    if all && s.n as u128 != o[1] || !all && (s.n as u128) > o[1] {
        bad!("count", "{} announced, {} delivered", o[1], s.n);
    }
    if s.n == 0 {
        bad!("empty", "nothing delivered");
        return;
    }
    if all && kind != 2 {
        let p: u128 = (0..ar.len()).map(|k| s.sets[k].len() as u128).product();
        if p != s.n as u128 {
            bad!("combinations", "{} cases for {:?} distinct values per argument", s.n, (0..ar.len()).map(|k| s.sets[k].len()).collect::<Vec<_>>());
        }
    }
    let per = match ar.len() {
        1 => iters,
        n => (iters as f64).powf(1.0 / n as f64).ceil() as u64 + 1,
    };
    for (k, &c) in ar.iter().enumerate() {
        let v = &s.order[k];
        let f = Fmt::of(c);
        out.checks += 1;
        if kind == 0 {
            let mut need: Vec<(String, u128)> = vec![];
            if let Some(f) = f {
                let sg = f.sign();
                for (n, x) in [
                    ("zero", 0), ("one", f.one()), ("infinity", f.inf()), ("largest finite", f.max()), ("smallest subnormal", 1), ("largest subnormal", (1 << f.p) - 1),
                    ("smallest normal", 1 << f.p), ("next above one", f.one() + 1), ("next below one", f.one() - 1), ("quiet NaN", f.nan()),
                    ("signaling NaN", f.inf() | 1), ("full quiet NaN", f.sign() - 1), ("full signaling NaN", (f.sign() - 1) ^ f.qbit()),
                ] {
                    need.push((n.into(), x));
                    need.push((format!("negative {n}"), x | sg));
                }
                let (lo, hi) = domain(&r.op, f);
                for (n, x) in [("start of the domain", lo), ("before the start of the domain", lo - 1), ("end of the domain", hi), ("after the end of the domain", hi + 1)] {
                    if x.unsigned_abs() <= f.inf() && x != 0 {
                        need.push((n.into(), f.unord(x)));
                    }
                }
                if matches!(&*r.op, "sin" | "cos" | "tan" | "sincos") {
                    for x in [std::f64::consts::PI, std::f64::consts::FRAC_PI_2] {
                        let b = encode_f64(x, f);
                        need.push((format!("{x}"), b));
                        need.push((format!("-{x}"), b | sg));
                    }
                }
                if r.op == "tgamma" {
                    for x in 1..4 {
                        need.push((format!("-{x}"), fp::from_int(true, x, f)));
                    }
                }
            } else {
                let (lo, hi) = int_limits(c);
                let shift = matches!(&*r.op, "ishl" | "ishr") && k == 1;
                let mut ints: Vec<i128> = vec![0, 1, 2];
                if shift {
                    let w = width(ar[0]) as i128;
                    ints.extend([w - 1, w - 2]);
                } else {
                    need.push(("smallest value".into(), lo as u128));
                    need.push(("second smallest value".into(), (lo + 1) as u128));
                    need.push(("largest value".into(), hi));
                    need.push(("second largest value".into(), hi - 1));
                    if signed(c) {
                        ints.extend([-1, -2]);
                    }
                }
                if matches!(&*r.op, "scalbn" | "ldexp") {
                    let f = Fmt::of(ar[0]).unwrap();
                    let (emax, emin) = (f.bias as i128, 1 - f.bias as i128);
                    let sub = emin - f.p as i128;
                    ints.extend([emax, emax + 1, emin, emin - 1, sub, sub - 1, emax - emin, emin - emax, emax - sub, sub - emax]);
                }
                for x in ints {
                    need.push((x.to_string(), x as u128));
                }
            }
            for (n, x) in need {
                out.checks += 1;
                if !s.sets[k].contains(&x) {
                    if matches!(&*r.op, "ishl" | "ishr") && k == 0 && n.ends_with("largest value") {
                        bad!("value to shift", "argument {} never takes the {n} ({x:#x})", k + 1);
                    } else {
                        bad!(format!("argument {} lacks {n}", k + 1), "argument {} never takes the {n} ({x:#x})", k + 1);
                    }
                }
            }
            if let Some((lo, hi)) = int_range(&r.op, ar, k).filter(|_| matches!(&*r.op, "ishl" | "ishr")) {
                if let Some(x) = v.iter().find(|&&x| (x as i128) < lo || x as i128 > hi) {
                    bad!(format!("argument {} range", k + 1), "argument {} takes {}, outside {lo}..={hi}", k + 1, *x as i128);
                }
            }
            continue;
        }
        if let Some((lo, hi)) = int_range(&r.op, ar, k) {
            if let Some(x) = v.iter().find(|&&x| (x as i128) < lo || x as i128 > hi) {
                bad!(format!("argument {} range", k + 1), "argument {} takes {}, outside {lo}..={hi}", k + 1, *x as i128);
            }
        }
        if v.len() as u64 > per && !(f.is_some_and(|f| f.w == 16) && v.len() == 1 << 16) {
            bad!(format!("argument {} number", k + 1), "argument {} takes {} values", k + 1, v.len());
        }
        if kind == 1 {
            if f.is_some_and(|f| f.w == 16) && v.len() == 1 << 16 {
                continue; // every value of the type
            }
            // evenly spaced from one end of the range to the other
            let (pos, lo, hi): (Vec<i128>, i128, i128) = if let Some(f) = f {
                if v.iter().any(|&x| f.is_nan(x)) {
                    bad!(format!("argument {} NaN", k + 1), "argument {} is a NaN", k + 1);
                    continue;
                }
                let (lo, hi) = domain(&r.op, f);
                (v.iter().map(|&x| f.ord(x)).collect(), lo, hi)
            } else {
                if width(c) == 128 {
                    continue; // positions do not fit; covered by the direct calls of linear_ints
                }
                let (lo, hi) = int_range(&r.op, ar, k).unwrap_or({
                    let (a, b) = int_limits(c);
                    (a, b as i128)
                });
                (v.iter().map(|&x| x as i128).collect(), lo, hi)
            };
            spaced(&pos, lo, hi, per, &mut |t| out.bad(format!("{} {rn} argument {} {}", name(kind), k + 1, t.0), format!("{what}: argument {} {}", k + 1, t.1)));
        } else {
            // spread over the representations
            if f.is_some_and(|f| f.w > 16) && v.len() > 1000 {
                let f = f.unwrap();
                let neg = v.iter().filter(|&&x| f.neg(x)).count() as f64 / v.len() as f64;
                let nan = v.iter().filter(|&&x| f.is_nan(x)).count();
                let small = v.iter().filter(|&&x| f.abs(x) < f.one()).count() as f64 / v.len() as f64;
                if !(0.35..0.65).contains(&neg) || !(0.35..0.65).contains(&small) || f.w == 32 && v.len() > 8000 && nan == 0 {
                    bad!(format!("argument {} spread", k + 1), "argument {}: {neg:.2} negative, {small:.2} below one, {nan} NaN of {}", k + 1, v.len());
                }
            }
        }
    }
    if kind == 2 {
        // the same seed gives the same inputs
        let mut t = Sink::new(ar, limit);
        let i = mk(&mut t);
        let mut o2 = [0u128; 4];
        call(r, &i, &mut o2);
        out.checks += 1;
        if t.h != s.h || t.n != s.n {
            bad!("reproducible", "a second run gives different inputs");
        }
    }
}

/// Positions ascend in equal strides from `lo`, stay within `hi`, and reach it up to less than one stride per gap.
fn spaced(pos: &[i128], lo: i128, hi: i128, per: u64, bad: &mut dyn FnMut((&str, String))) {
    let n = pos.len();
    if pos[0] != lo {
        bad(("start", format!("starts at position {} instead of {lo}", pos[0])));
    }
    if let Some(p) = pos.iter().find(|&&p| p < lo || p > hi) {
        bad(("domain", format!("leaves the interval [{lo}, {hi}]: position {p}")));
        return;
    }
    if n < 2 {
        return;
    }
    let (mut mn, mut mx) = (i128::MAX, i128::MIN);
    for w in pos.windows(2) {
        mn = mn.min(w[1] - w[0]);
        mx = mx.max(w[1] - w[0]);
    }
    if mn < 1 {
        bad(("order", "does not ascend".into()));
        return;
    }
    if mx - mn > 1 {
        bad(("stride", format!("strides vary from {mn} to {mx}")));
    }
    if hi - pos[n - 1] >= n as i128 {
        bad(("end", format!("ends at position {}, {} before the end", pos[n - 1], hi - pos[n - 1])));
    }
    if (n as u64) + 2 < per && mx > 1 {
        bad(("few", format!("only {n} of {per} values although more exist")));
    }
}

fn line_one(r: &Rout, rng: &mut Rng, out: &mut Out, gens: &[FloatGen; 4]) {
    let c = match r.sig.bytes().next() {
        Some(c) => c,
        None => {
            let mut o = [0u128; 4];
            call(r, &[0], &mut o);
            if let Ok(s) = std::env::var("LIBM_SEED") {
                let b: Vec<u8> = o[..2].iter().flat_map(|x| x.to_le_bytes()).collect();
                out.checks += 1;
                if b != s.as_bytes() {
                    out.bad("seed".into(), format!("LIBM_SEED={s} gives the seed {:?}", String::from_utf8_lossy(&b)));
                }
            }
            return;
        }
    };
    let f = Fmt::of(c);
    let mut o = [0u128; 4];
    out.evals += 1;
    out.nontrivial += 1;
    if r.op == "step" {
        let f = f.unwrap();
        let g = &gens[match c { b'h' => 0, b's' => 1, b'd' => 2, _ => 3 }];
        let x = g.any(rng);
        let how = rng.below(4) as u128;
        let n = match rng.below(6) {
            0 => 0,
            1 => f.abs(x),
            2 => f.abs(x).wrapping_add(rng.below(5) as u128).wrapping_sub(2) & f.mask(),
            3 => (f.inf() - f.abs(x).min(f.inf())).wrapping_add(rng.below(5) as u128).wrapping_sub(2) & f.mask(),
            4 => rng.below(1000) as u128,
            _ => crate::gen::pattern(rng, f.w) & f.mask(),
        };
        call(r, &[how, x, n], &mut o);
        out.checks += 1;
        let up = how == 0 || how == 2;
        let k = if how < 2 { 1 } else { n };
        let want = if f.is_nan(x) || k == 0 {
            x
        } else {
            // positions shifted into the unsigned range
            let at = (f.ord(x) as u128).wrapping_add(1 << 127);
            let at = if up { at.saturating_add(k) } else { at.saturating_sub(k) };
            let q = at.clamp((1 << 127) - f.inf(), (1 << 127) + f.inf()).wrapping_sub(1 << 127) as i128;
            f.unord(q)
        };
        // either zero is the value between the smallest subnormals
        if o[0] != want && !(f.is_zero(o[0]) && f.is_zero(want)) {
            let nm = ["next_up", "next_down", "n_up", "n_down"][how as usize];
            out.bad(format!("{} {nm}", r.name), format!("{} of {x:#x} by {k}: {:#x}, expected {want:#x}", r.name.replace("step", nm), o[0]));
        }
        if out.seen.len() < 2_000_000 {
            out.seen.insert(hash(&[c as u64, how as u64, (x >> f.p) as u64, (n.leading_zeros()) as u64, (f.is_zero(o[0]) as u64)]));
        }
        return;
    }
    // evenly spaced sequences between two values
    let sig = [c];
    let mut steps = [rng.below(8) + 2, rng.below(3000) + 2, rng.below(100_000) + 2][rng.below(3) as usize];
    if let Some(f) = f {
        if f.w == 16 {
            steps = steps.min(65535);
        }
    }
    let (a, b, keys): (u128, u128, Box<dyn Fn(u128) -> u128>) = if let Some(f) = f {
        let g = &gens[match c { b'h' => 0, b's' => 1, b'd' => 2, _ => 3 }];
        let (mut x, mut y) = (g.any(rng), g.any(rng));
        if rng.one_in(4) {
            y = g.nudge(rng, x);
        }
        if f.is_nan(x) || f.is_nan(y) {
            return;
        }
        if f.ord(x) > f.ord(y) {
            std::mem::swap(&mut x, &mut y);
        }
        (x, y, Box::new(move |x| (f.ord(x) as u128).wrapping_add(1 << 127)))
    } else {
        let (mut x, mut y) = (canon(crate::gen::pattern(rng, 128), c), canon(crate::gen::pattern(rng, 128), c));
        if rng.one_in(4) {
            y = canon(x.wrapping_add(rng.below(2000) as u128), c);
        }
        if key(x, c) > key(y, c) {
            std::mem::swap(&mut x, &mut y);
        }
        // the stride must be a value of the type
        let span = key(y, c) - key(x, c);
        let (_, hi) = int_limits(c);
        if span / (steps as u128 - 1) > hi {
            return;
        }
        (x, y, Box::new(move |x| key(x, c)))
    };
    let mut s = Sink::new(&sig, 1 << 20);
    let i = [a, b, steps as u128, sink as *const () as usize as u128, &mut s as *mut _ as usize as u128];
    call(r, &i, &mut o);
    out.checks += s.n;
    let (lo, hi) = (keys(a), keys(b));
    let span = hi - lo;
    let want = (steps as u128 - 1).min(span) + 1;
    let what = format!("{} from {a:#x} to {b:#x} in {steps} steps", r.name);
    let mut bad = |t: &str, m: String| out.bad(format!("{} {t}", r.name), format!("{what}: {m}"));
    if o[0] != 0 {
        return bad("panic", "panicked".into());
    }
    if o[1] != want || s.n as u128 != want {
        bad("count", format!("{} announced, {} delivered, expected {want}", o[1], s.n));
    }
    let v = &s.order[0];
    if v.len() as u64 != s.n {
        return bad("repeat", format!("{} values in {} cases", v.len(), s.n));
    }
    let p: Vec<u128> = v.iter().map(|&x| keys(x)).collect();
    if p[0] != lo {
        bad("start", format!("starts at {:#x}", v[0]));
    }
    if let Some(k) = p.iter().position(|&x| x < lo || x > hi) {
        return bad("range", format!("leaves the range with {:#x}", v[k]));
    }
    if p.windows(2).any(|w| w[1] <= w[0]) {
        return bad("order", "does not ascend".into());
    }
    if p.len() > 1 {
        let d: Vec<u128> = p.windows(2).map(|w| w[1] - w[0]).collect();
        if d.iter().max().unwrap() - d.iter().min().unwrap() > 1 {
            bad("stride", "strides differ".into());
        }
        if hi - p[p.len() - 1] >= p.len() as u128 {
            bad("end", format!("ends at {:#x}", v[v.len() - 1]));
        }
    }
    if out.seen.len() < 2_000_000 {
        out.seen.insert(hash(&[c as u64, steps, (128 - span.leading_zeros()) as u64]));
    }
}

fn gen_run(rs: &[Rout], seed: u64, secs: f64, w: u64, nw: u64) -> Out {
    let mut out = Out::default();
    let mut rng = Rng::new(seed.wrapping_mul(65537) ^ w << 40);
    let d = Dict::load("");
    let g = [FloatGen::new(H, "", &d), FloatGen::new(S, "", &d), FloatGen::new(D, "", &d), FloatGen::new(Q, "", &d)];
    let end = Instant::now() + Duration::from_secs_f64(secs);
    // every generator of every routine once
    for (k, r) in rs.iter().enumerate().filter(|(_, r)| r.route == "gen") {
        if k as u64 % nw != w {
            continue;
        }
        for kind in 0..3 {
            gen_one(r, kind, &mut rng, &mut out);
        }
    }
    let lines: Vec<&Rout> = rs.iter().filter(|r| r.route == "line").collect();
    let gens: Vec<&Rout> = rs.iter().filter(|r| r.route == "gen").collect();
    while Instant::now() < end && out.nviol < 2000 {
        for r in &lines {
            for _ in 0..if r.op == "step" { 4000 } else { 4 } {
                line_one(r, &mut rng, &mut out, &g);
            }
        }
        let r = gens[rng.below(gens.len() as u64) as usize];
        let k = 1 + rng.below(2) as u32;
        gen_one(r, k, &mut rng, &mut out);
    }
    out
}

pub fn main(args: &[String]) {
    let (mut seed, mut secs, mut path, mut mode) = (1u64, 10.0f64, String::new(), String::new());
    let mut suts = vec![];
    let mut i = 0;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--out" => path = v,
            "--sut" => suts.push(v),
            "--mode" => mode = v,
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let s = sut::load(&suts[0]);
    let rs = &s.r;
    let all = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for w in 0..8u64 {
            let (all, mode) = (&all, &mode);
            sc.spawn(move || {
                let o = if mode == "cmp" { cmp_run(rs, seed, secs, w) } else { gen_run(rs, seed, secs, w, 8) };
                all.lock().unwrap().push(o);
            });
        }
    });
    let mut t = Out::default();
    for o in all.into_inner().unwrap() {
        t.evals += o.evals;
        t.checks += o.checks;
        t.nontrivial += o.nontrivial;
        t.refused += o.refused;
        t.seen.extend(o.seen);
        t.samples.extend(o.samples);
        for (k, n) in o.per {
            *t.per.entry(k).or_default() += n;
        }
        for v in o.viol {
            t.bad(v.0, v.1);
        }
    }
    t.samples.truncate(8);
    t.viol.sort();
    let vs: Vec<String> = t.viol.iter().map(|(s, d)| format!("{{\"sig\":{},\"text\":{}}}", crate::jstr(s), crate::jstr(d))).collect();
    let per: Vec<String> = t.per.iter().map(|(n, c)| format!("{}:{}", crate::jstr(n), c)).collect();
    let j = format!(
        "{{\"evals\":{},\"checks\":{},\"distinct\":{},\"nontrivial\":{},\"groups\":{},\"routines\":{},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":[]}}",
        t.evals, t.checks, t.seen.len(), t.nontrivial, t.refused, rs.len(), per.join(","), crate::jarr(&t.samples), vs.join(",")
    );
    std::fs::write(&path, j).unwrap();
}
