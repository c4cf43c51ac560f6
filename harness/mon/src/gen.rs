//! Hostile argument generators.
use crate::fp::{self, *};
use crate::refs::{canon, iw};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5851f42d4c957f2d;
        let mut s = [0; 4];
        for x in &mut s {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut t = z;
            t = (t ^ (t >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            t = (t ^ (t >> 27)).wrapping_mul(0x94d049bb133111eb);
            *x = t ^ (t >> 31);
        }
        Rng(s)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// Values mined from the sources under test, per operation, plus worst cases for pi/2 reduction.
#[derive(Default)]
pub struct Dict {
    pub ops: HashMap<String, Vec<u128>>,  // raw integer literals
    pub fops: HashMap<String, Vec<f64>>,  // float literals
    pub pio2_d: Vec<u64>,
    pub pio2_s: Vec<u32>,
}
impl Dict {
    pub fn load(p: &str) -> Dict {
        let mut d = Dict::default();
        let Ok(t) = std::fs::read_to_string(p) else { return d };
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "i" => d.ops.entry(w[1].into()).or_default().push(u128::from_str_radix(w[2], 16).unwrap()),
                "f" => d.fops.entry(w[1].into()).or_default().push(f64::from_bits(u64::from_str_radix(w[2], 16).unwrap())),
                "pd" => d.pio2_d.push(u64::from_str_radix(w[1], 16).unwrap()),
                "ps" => d.pio2_s.push(u32::from_str_radix(w[1], 16).unwrap()),
                _ => {}
            }
        }
        d
    }
}

/// Significand patterns of n bits (without the implicit one).
pub fn pattern(r: &mut Rng, n: u32) -> u128 {
    let full = if n >= 128 { !0 } else { (1u128 << n) - 1 };
    let x = match r.below(9) {
        0 => 0,
        1 => full,
        2 => full - r.below(4) as u128,
        3 => r.below(4) as u128,
        4 => {
            // few bits
            let mut x = 0;
            for _ in 0..=r.below(3) {
                x |= 1u128 << r.below(n as u64);
            }
            x
        }
        5 => {
            // run of ones
            let a = r.below(n as u64 + 1) as u32;
            let b = r.below(n as u64 + 1) as u32;
            let (a, b) = (a.min(b), a.max(b));
            let hi = if b >= 128 { !0 } else { (1u128 << b) - 1 };
            let lo = if a >= 128 { !0 } else { (1u128 << a) - 1 };
            let x = hi & !lo;
            if r.one_in(2) { x ^ full } else { x }
        }
        6 => {
            // random top bits, zero or one tail
            let k = r.below(n as u64) as u32;
            let t = (1u128 << k) - 1;
            let x = r.u128() & !t;
            if r.one_in(2) { x | t } else { x }
        }
        7 => {
            // zero top, random low
            let k = r.below(n as u64) as u32;
            r.u128() & ((1u128 << k) - 1)
        }
        _ => r.u128(),
    };
    x & full
}

pub fn specials(f: Fmt) -> Vec<u128> {
    let one = f.one();
    let u = 1u128 << f.p;
    let mut v = vec![
        0, 1, 2, 3, u / 2, u - 1, u, u + 1, 2 * u, one, one - 1, one + 1, one + u / 2, one - u, one - u / 2, one + u,
        one + u + u / 2, one - u + 1, one - u - 1, one + 2 * u, one + u + u / 4, f.max(), f.max() - 1, f.max() - u, f.inf(), f.nan(), f.inf() | 1, f.nan() | 5,
        f.inf() | (u - 1),
    ];
    let p = f.p as u128;
    for k in [p - 1, p, p + 1, p + 2] {
        if k < f.bias as u128 {
            v.push(one + k * u); // 2^k
            v.push(one + k * u + 1);
            v.push(one + k * u - 1);
            v.push(one - k * u);
            v.push(one - k * u + 1);
        }
    }
    for k in [31u128, 32, 63, 64, 127, 128] {
        if k < f.bias as u128 {
            v.push(one + k * u);
            v.push(one + k * u - 1);
        }
    }
    let n = v.len();
    for i in 0..n {
        v.push(v[i] | f.sign());
    }
    v
}

pub struct FloatGen {
    pub f: Fmt,
    pub sp: Vec<u128>,
    pub dict: Vec<u128>,
}
pub fn encode_f64(x: f64, f: Fmt) -> u128 {
    fp::convert(x.to_bits() as u128, D, f).unwrap_or(f.nan())
}
impl FloatGen {
    pub fn new(f: Fmt, op: &str, d: &Dict) -> FloatGen {
        let mut dict = vec![];
        let mut add = |b: u128| {
            let b = b & f.mask();
            dict.push(b)
        };
        for key in [op, "*"] {
            for &i in d.ops.get(key).map(|v| &v[..]).unwrap_or(&[]) {
                if f.w == 64 && i < 1 << 32 {
                    add(i << 32);
                    add(i << 32 | 0xffff_ffff);
                }
                if f.w == 64 && i < 1 << 12 && i > 0 {
                    add(i << 52);
                    add((i + 1023) << 52);
                }
                if i < f.sign() {
                    add(i);
                }
                if i < 1 << 20 {
                    add(fp::from_int(false, i, f));
                }
            }
            for &x in d.fops.get(key).map(|v| &v[..]).unwrap_or(&[]) {
                add(encode_f64(x, f));
            }
        }
        dict.sort();
        dict.dedup();
        FloatGen { f, sp: specials(f), dict }
    }
    pub fn mk(&self, neg: bool, ex: i64, man: u128) -> u128 {
        // ex is the unbiased exponent, clamped to subnormal/max finite
        let f = self.f;
        let be = ex + f.bias as i64;
        let top = (f.inf() >> f.p) as i64 - 1;
        let man = man & ((1u128 << f.p) - 1);
        let b = if be <= 0 {
            let sh = (1 - be).min(f.p as i64 + 1) as u32;
            (man | 1u128 << f.p) >> sh
        } else {
            (be.min(top) as u128) << f.p | man
        };
        b | if neg { f.sign() } else { 0 }
    }
    fn sgn(&self, r: &mut Rng, b: u128) -> u128 {
        if r.one_in(2) { b ^ self.f.sign() } else { b }
    }
    pub fn nudge(&self, r: &mut Rng, b: u128) -> u128 {
        let f = self.f;
        let d = match r.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => r.below(4) as i128 + 1,
            4 => 1i128 << r.below(f.p as u64 + 1),
            _ => r.below(1 << f.p.min(16)) as i128,
        };
        let o = f.abs(b) as i128 + if r.one_in(2) { d } else { -d };
        if o < 0 {
            return (-o) as u128 & (f.sign() - 1) | (f.sign() & !b);
        }
        (o as u128) & (f.sign() - 1) | (b & f.sign())
    }
    pub fn any(&self, r: &mut Rng) -> u128 {
        let f = self.f;
        let bias = f.bias as i64;
        match r.below(16) {
            0 => r.u128() & f.mask(),
            1 => self.sp[r.below(self.sp.len() as u64) as usize],
            2 => {
                let b = self.sp[r.below(self.sp.len() as u64) as usize];
                self.nudge(r, b)
            }
            3 | 4 => {
                let e = r.range(-bias - f.p as i64, bias);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
            5 => {
                let e = r.range(-3, 3);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
            6 | 7 => {
                let e = r.range(-20, 20);
                let m = r.u128();
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
            8 => {
                // integers and half-integers, nudged
                let k = r.below(f.p.min(62) as u64 + 1);
                let i = r.u128() & ((1u128 << k) - 1);
                let b = round(false, &Big::from(2 * i + r.below(2) as u128), -1, false, f);
                let b = self.nudge(r, b);
                self.sgn(r, b)
            }
            9 => {
                // subnormal and just above
                let e = r.range(-bias - f.p as i64, -bias + 3);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
            10 => {
                let e = r.range(bias - 3, bias);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
            11 | 12 if !self.dict.is_empty() => {
                let b = self.dict[r.below(self.dict.len() as u64) as usize];
                let b = if r.one_in(3) { b } else { self.nudge(r, b) };
                if r.one_in(3) { b ^ f.sign() } else { b }
            }
            13 => {
                // real value uniform over a random range
                let lim = [1.0, 2.0, 4.0, 10.0, 40.0, 180.0, 750.0, 1e4, 1e6, 0.5, 0.1, 1e-3][r.below(12) as usize];
                let x = (r.unit() * 2.0 - 1.0) * lim;
                let b = encode_f64(x, f);
                if f.w == 128 { b ^ (r.u64() as u128 & 0xfff_ffff_ffff) } else { b }
            }
            14 => {
                // near one
                let k = r.below(f.p as u64);
                let d = r.u128() & ((1u128 << k) - 1);
                let b = if r.one_in(2) { f.one() + d } else { f.one() - d };
                self.sgn(r, b)
            }
            _ => {
                let e = r.range(-(f.p as i64) - 3, f.p as i64 + 3);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e, m)
            }
        }
    }
    /// second operand related to the first
    pub fn related(&self, r: &mut Rng, a: u128) -> u128 {
        let f = self.f;
        match r.below(9) {
            0 => a,
            1 => a ^ f.sign(),
            2 => self.nudge(r, a),
            3 => {
                let b = self.nudge(r, a);
                b ^ f.sign()
            }
            4 | 5 => {
                // nearby exponent
                let e = (f.abs(a) >> f.p) as i64 - f.bias as i64;
                let d = r.range(-(f.p as i64) - 4, f.p as i64 + 4);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, e + d, m)
            }
            6 => {
                // same significand, other exponent
                let e = (f.abs(a) >> f.p) as i64 - f.bias as i64;
                let d = r.range(-4, 4) * if r.one_in(2) { 1 } else { f.p as i64 / 2 };
                let b = self.mk(f.neg(a), e + d, a);
                if r.one_in(2) { self.nudge(r, b) } else { b }
            }
            7 => {
                // reciprocal-like exponent
                let e = (f.abs(a) >> f.p) as i64 - f.bias as i64;
                let d = r.range(-3, 3);
                let m = pattern(r, f.p);
                let n = r.one_in(2);
                self.mk(n, -e + d, m)
            }
            _ => self.any(r),
        }
    }
    /// exponent chosen so that a product with `a` lands near a format limit
    pub fn product_limit(&self, r: &mut Rng, a: u128, div: bool) -> u128 {
        let f = self.f;
        let e = (f.abs(a) >> f.p) as i64 - f.bias as i64;
        let t = match r.below(4) {
            0 | 1 => f.emin() as i64 + r.range(-(f.p as i64) - 3, 3),
            2 => f.bias as i64 + r.range(-3, 2),
            _ => r.range(-2, 2),
        };
        let m = pattern(r, f.p);
        let n = r.one_in(2);
        if div { self.mk(n, e - t, m) } else { self.mk(n, t - e, m) }
    }
}

/// Smallest x with l <= a*x mod m <= r.
fn first_in(a: u128, m: u128, l: u128, r: u128) -> Option<u128> {
    if l == 0 {
        return Some(0);
    }
    if a == 0 || r >= m {
        return None;
    }
    let c = l.div_ceil(a);
    if a * c <= r {
        return Some(c);
    }
    let y = first_in(m % a, a, (a - r % a) % a, (a - l % a) % a)?;
    Some(l.checked_add(m.checked_mul(y)?)?.div_ceil(a))
}

pub fn int_any(r: &mut Rng, c: u8, dict: &[u128]) -> u128 {
    let (w, _) = iw(c);
    let x = match r.below(10) {
        0 => r.u128(),
        1 => pattern(r, w),
        2 | 3 => {
            let k = r.below(w as u64) as u32 + 1;
            let x = r.u128();
            if k >= 128 { x } else { x & ((1u128 << k) - 1) }
        }
        4 => {
            let k = r.below(w as u64) as u32;
            (1u128 << k).wrapping_add(r.below(7) as u128).wrapping_sub(3)
        }
        5 => (r.below(17) as u128).wrapping_sub(8),
        6 => {
            // words that are all-ones / zero / random / msb
            let mut x = 0u128;
            for _ in 0..4 {
                let p = match r.below(6) {
                    0 => 0u32,
                    1 => !0,
                    2 => 1 << 31,
                    3 => 0x7fff_ffff,
                    4 => 1,
                    _ => r.u64() as u32,
                };
                x = x << 32 | p as u128;
            }
            x
        }
        7 => {
            let k = r.below(w as u64 - 1) as u32 + 1;
            let x = pattern(r, k);
            x | 1u128 << (k - 1)
        }
        8 if !dict.is_empty() => dict[r.below(dict.len() as u64) as usize].wrapping_add(r.below(3) as u128).wrapping_sub(1),
        _ => {
            let s = 1u128 << (w - 1);
            s.wrapping_add(r.below(9) as u128).wrapping_sub(4)
        }
    };
    canon(if r.one_in(8) { x.wrapping_neg() } else { x }, c)
}

/// operands for a division: n = q*d + rem with structured parts
pub fn int_div(r: &mut Rng, c: u8) -> (u128, u128) {
    let (w, s) = iw(c);
    let mask = if w == 128 { !0 } else { (1u128 << w) - 1 };
    let m = |x: u128| x & mask;
    loop {
        let (n, d) = match r.below(8) {
            0 | 1 => (int_any(r, c, &[]), int_any(r, c, &[])),
            2 | 3 | 4 => {
                let kd = r.below(w as u64) as u32 + 1;
                let d = {
                    let p = if kd >= 2 { pattern(r, kd - 1) } else { 0 };
                    p | 1u128 << (kd - 1)
                };
                let kq = w - kd + r.below(2) as u32;
                let q = if kq == 0 { r.below(2) as u128 } else { pattern(r, kq.min(128)) };
                let rem = match r.below(5) {
                    0 => 0,
                    1 => d - 1,
                    2 => d / 2,
                    3 => 1,
                    _ => r.u128() % d,
                };
                (q.wrapping_mul(d).wrapping_add(rem), d)
            }
            5 => {
                // high parts nearly equal
                let d = int_any(r, c, &[]);
                let k = r.below(w as u64) as u32;
                let n = d ^ (r.u128() & ((1u128 << k) - 1));
                let sh = r.below(w as u64 / 2 + 1) as u32;
                (n, m(d) >> sh)
            }
            6 => {
                let d = int_any(r, c, &[]);
                (d.wrapping_add(r.below(5) as u128).wrapping_sub(2), d)
            }
            _ => {
                let half = w / 2;
                // n_hi == d or n_hi == d - 1 with half-width divisors
                let d = r.u128() & ((1u128 << half) - 1) | if r.one_in(2) { 1u128 << (half - 1) } else { 0 };
                let hi = match r.below(3) {
                    0 => d,
                    1 => d.wrapping_sub(1) & ((1u128 << half) - 1),
                    _ => pattern(r, half),
                };
                (hi << half | pattern(r, half), d)
            }
        };
        let (mut n, mut d) = (canon(m(n), c), canon(m(d), c));
        if s {
            if r.one_in(2) {
                n = canon(n.wrapping_neg(), c);
            }
            if r.one_in(2) {
                d = canon(d.wrapping_neg(), c);
            }
        }
        if m(d) != 0 {
            return (n, d);
        }
    }
}

pub struct Gen {
    pub op: String,
    pub a: Vec<u8>,
    pub r: Vec<u8>,
    pub fg: Option<FloatGen>,
    pub gg: Option<FloatGen>, // result format, when different
    pub idict: Vec<u128>,
    pub grid: Vec<Vec<u128>>,
    pub pd: Vec<u64>,
    pub ps: Vec<u32>,
}

fn trig(op: &str) -> bool {
    matches!(op, "sin" | "cos" | "tan" | "sincos")
}

impl Gen {
    pub fn new(op: &str, a: &[u8], rs: &[u8], d: &Dict) -> Gen {
        let ff = a.iter().find_map(|&c| Fmt::of(c));
        let fg = ff.map(|f| FloatGen::new(f, op, d));
        let gg = rs.iter().find_map(|&c| Fmt::of(c)).map(|f| FloatGen::new(f, op, d));
        let mut idict: Vec<u128> = d.ops.get(op).cloned().unwrap_or_default();
        idict.extend(d.ops.get("*").cloned().unwrap_or_default());
        let mut grid = vec![];
        let three = a.len() >= 3;
        for &c in a {
            let mut g: Vec<u128> = if let Some(f) = Fmt::of(c) {
                let mut g = specials(f);
                if !three {
                    if let Some(fg) = &fg {
                        if a.len() == 1 {
                            for &x in &fg.dict {
                                for k in [-1i128, 0, 1] {
                                    g.push(((x as i128).wrapping_add(k)) as u128 & f.mask());
                                    g.push((((x as i128).wrapping_add(k)) as u128 & f.mask()) ^ f.sign());
                                }
                            }
                        }
                    }
                } else {
                    let u = 1u128 << f.p;
                    g = vec![0, 1, u - 1, u, u + 1, f.one(), f.one() + 1, f.one() - 1, f.one() + u, f.max(), f.max() - u, f.inf(), f.nan(), f.inf() | 1, f.one() + u / 2, f.one() - (f.p as u128) * u.min(f.one() / (f.p as u128))];
                    let n = g.len();
                    for i in 0..n {
                        g.push(g[i] | f.sign());
                    }
                }
                g
            } else {
                let (w, _) = iw(c);
                let mut g = vec![];
                for k in 0..w {
                    if a.len() >= 3 && k % 8 != 0 && k % 8 != 7 {
                        continue;
                    }
                    g.push(1u128 << k);
                    g.push((1u128 << k) - 1);
                    if a.len() < 3 {
                        g.push((1u128 << k) + 1);
                        g.push((1u128 << k).wrapping_neg());
                        g.push((1u128 << k).wrapping_neg().wrapping_sub(1));
                        g.push((1u128 << k).wrapping_neg().wrapping_add(1));
                    }
                }
                g.push(!0);
                g.push(!1);
                if (op == "scalbn" || op == "ldexp" || op == "powi") && c == b'i' {
                    if let Some(f) = ff {
                        let b = f.bias;
                        for k in [b, b + 1, b - 1, b + f.p as i32, 2 * b, 2 * b + f.p as i32 + 1, 3 * b, 4 * b] {
                            for d in -1..=1 {
                                g.push((k + d) as i128 as u128);
                                g.push((-(k + d)) as i128 as u128);
                            }
                        }
                    }
                }
                g.iter().map(|&x| canon(x, c)).collect()
            };
            g.sort();
            g.dedup();
            grid.push(g);
        }
        let keep = trig(op);
        Gen {
            op: op.into(),
            a: a.to_vec(),
            r: rs.to_vec(),
            fg,
            gg,
            idict,
            grid,
            pd: if keep { d.pio2_d.clone() } else { vec![] },
            ps: if keep { d.pio2_s.clone() } else { vec![] },
        }
    }
    pub fn grid_len(&self) -> u64 {
        if self.a.len() >= 4 {
            return 0;
        }
        self.grid.iter().map(|g| g.len() as u64).product()
    }
    pub fn grid_at(&self, mut i: u64, out: &mut [u128; 4]) {
        for (k, g) in self.grid.iter().enumerate() {
            out[k] = g[(i % g.len() as u64) as usize];
            i /= g.len() as u64;
        }
    }
    /// preconditions of the operation
    pub fn admissible(&self, a: &[u128]) -> bool {
        match self.op.as_str() {
            "idiv" | "irem" | "idivrem" => canon(a[1], self.a[1]) != 0,
            "ishl" | "ishr" => (a[1] as u32) < iw(self.a[0]).0,
            "clz" | "ctz" => true,
            "w_shl" | "w_shr" | "w_sar" | "w_sshl" => (a[2] as u32) < 256,
            "w_add" => a[1].checked_add(a[3]).is_some_and(|h| a[0].checked_add(a[2]).is_some() || h != !0),
            "w_sub" => (a[1], a[0]) >= (a[3], a[2]),
            "w_modpow" => {
                let c = self.r[0];
                let w = iw(c).0;
                let (x, y) = (canon(a[0], c), canon(a[2], c));
                let e = a[1] as u32;
                let slow = e > 1 << 18 && (x ^ y ^ e as u128).wrapping_mul(0x9e3779b97f4a7c15) >> 20 & 0xfff != 0;
                y != 0 && !slow && y <= (if w == 128 { !0 } else { (1u128 << w) - 1 }) >> 2 && x < 2 * y
            }
            "jn" | "yn" => {
                // the work grows with the order unless the argument is extreme
                let n = (a[0] as u32 as i32).unsigned_abs();
                let f = Fmt::of(self.a[1]).unwrap();
                let x = f.abs(a[1]);
                let e = (x >> f.p) as i32 - ((1i32 << (f.w - f.p - 2)) - 1);
                n <= 3000 || f.is_zero(a[1]) || f.is_nan(a[1]) || f.is_inf(a[1]) && f.w == 64 || e < -40 || f.w == 64 && e > 310 || self.op == "yn" && f.neg(a[1])
            }
            _ => true,
        }
    }
    pub fn gen(&self, r: &mut Rng, out: &mut [u128; 4]) {
        for _ in 0..20 {
            self.gen1(r, out);
            if self.admissible(&out[..]) {
                return;
            }
        }
        // fall back to something always admissible
        for k in 0..self.a.len() {
            out[k] = 1;
        }
    }
    fn gen1(&self, r: &mut Rng, o: &mut [u128; 4]) {
        let n = self.a.len();
        match self.op.as_str() {
            "idiv" | "irem" | "idivrem" => {
                let (x, y) = int_div(r, self.a[0]);
                o[0] = x;
                o[1] = y;
                return;
            }
            "ishl" | "ishr" => {
                let w = iw(self.a[0]).0 as u64;
                o[0] = int_any(r, self.a[0], &[]);
                o[1] = r.below(w) as u128;
                return;
            }
            "w_shl" | "w_shr" | "w_sar" | "w_sshl" => {
                o[0] = int_any(r, b'X', &[]);
                o[1] = int_any(r, b'X', &[]);
                o[2] = r.below(256) as u128;
                return;
            }
            "w_sub" => {
                for k in 0..4 {
                    o[k] = int_any(r, b'X', &[]);
                }
                if r.one_in(3) {
                    o[3] = o[1];
                }
                if (o[1], o[0]) < (o[3], o[2]) {
                    o.swap(0, 2);
                    o.swap(1, 3);
                }
                return;
            }
            "w_cmp" => {
                for k in 0..4 {
                    o[k] = int_any(r, b'X', &[]);
                }
                if r.one_in(2) {
                    o[3] = o[1];
                }
                if r.one_in(4) {
                    o[2] = o[0];
                }
                return;
            }
            "w_add" => {
                for k in 0..4 {
                    o[k] = int_any(r, b'X', &[]);
                }
                o[1] >>= 1;
                o[3] >>= 1;
                return;
            }
            "w_ndiv" => {
                // dividend = q*d + rem
                let d = {
                    let k = r.below(128) as u32 + 1;
                    pattern(r, k) | 1u128 << (k - 1)
                };
                if r.one_in(8) {
                    o[0] = r.u128();
                    o[1] = int_any(r, b'X', &[]);
                    o[2] = int_any(r, b'X', &[]);
                    return;
                }
                let q = int_any(r, b'X', &[]);
                let rem = match r.below(4) {
                    0 => 0,
                    1 => d - 1,
                    2 => r.u128() % d,
                    _ => pattern(r, 128) % d,
                };
                let b = Big::from(q).mul(&Big::from(d)).add(&Big::from(rem));
                o[0] = b.hi128(0);
                o[1] = b.hi128(2);
                o[2] = d;
                match r.below(8) {
                    0 => o[1] = d.wrapping_sub(1),
                    1 => o[1] = d,
                    _ => {}
                }
                return;
            }
            "w_ndiv128" | "w_ndiv64" => {
                let w = if self.op == "w_ndiv64" { 32 } else { 64 };
                let k = r.below(w) as u32 + 1;
                let d = pattern(r, k) | 1u128 << (k - 1);
                let q = pattern(r, w as u32);
                let rem = match r.below(3) {
                    0 => d - 1,
                    1 => 0,
                    _ => r.u128() % d,
                };
                o[0] = q * d + rem;
                o[1] = if r.one_in(20) { 0 } else { d };
                if r.one_in(8) {
                    o[0] = o[0] & ((1u128 << w) - 1) | d << w;
                }
                if r.one_in(8) {
                    o[0] = int_any(r, self.a[0], &[]);
                }
                return;
            }
            "w_modpow" => {
                let w = iw(self.r[0]).0;
                let k = r.below(w as u64 - 2) as u32 + 1;
                let y = pattern(r, k) | 1u128 << (k - 1);
                let x = match r.below(3) {
                    0 => y - 1,
                    1 => r.u128() % (2 * y),
                    _ => pattern(r, k) % (2 * y),
                };
                o[0] = x;
                o[2] = y;
                o[1] = match r.below(4) {
                    0 => r.below(8) as u128,
                    1 => r.below(w as u64 * 2) as u128,
                    2 => r.below(40000) as u128,
                    // very long shifts take a while: rare
                    _ if r.one_in(5000) => r.u64() as u32 as u128,
                    _ => (r.u64() as u32 >> (14 + r.below(18))) as u128,
                };
                return;
            }
            op if op.starts_with("m_") => {
                // length, two offsets (close together half the time), contents
                let b = if r.one_in(2) { 40 } else { 513 };
                o[0] = r.below(b) as u128;
                o[1] = r.below(256) as u128;
                o[2] = if r.one_in(2) { (o[1] + r.below(65) as u128 + 224) % 256 } else { r.below(256) as u128 };
                if op == "m_memset" {
                    o[2] = r.u64() as u128;
                }
                o[3] = r.u64() as u128;
                if r.one_in(4) {
                    // a difference in the sign bit or in the lowest bit only
                    o[3] = o[3] & !(0xff << 56) | (if r.one_in(2) { 0x80 } else { 1 }) << 56;
                }
                return;
            }
            _ => {}
        }
        let Some(fg) = &self.fg else {
            // integer arguments only
            for k in 0..n {
                o[k] = int_any(r, self.a[k], &self.idict);
            }
            if n == 2 {
                match r.below(6) {
                    0 => o[1] = o[0],
                    1 => o[1] = canon(o[0].wrapping_neg(), self.a[1]),
                    2 => o[1] = canon(!o[0], self.a[1]),
                    3 => {
                        // product close to the type limit
                        let (w, s) = iw(self.a[0]);
                        let lim = if s { 1u128 << (w - 1) } else if w == 128 { !0 } else { (1 << w) - 1 };
                        let d = { let v = canon(o[0], self.a[0]); let v = if s && (v as i128) < 0 { v.wrapping_neg() } else { v }; v.max(1) };
                        let y = (lim / d).wrapping_add(r.below(3) as u128).wrapping_sub(1);
                        o[1] = canon(if s && r.one_in(2) { y.wrapping_neg() } else { y }, self.a[1]);
                    }
                    _ => {}
                }
            }
            if self.op == "itof" {
                if let Some(g) = &self.gg {
                    if r.one_in(2) {
                        self.itof_mid(r, g.f, o);
                    }
                }
            }
            return;
        };
        let f = fg.f;
        // integer second/first argument
        if n == 2 && self.a[1] == b'i' {
            o[0] = fg.any(r);
            let e = (f.abs(o[0]) >> f.p) as i64 - f.bias as i64;
            o[1] = canon(
                (match self.op.as_str() {
                    "powi" => match r.below(6) {
                        0 => r.range(-4, 40),
                        1 => r.range(-2000, 2000),
                        2 => r.u64() as i32 as i64,
                        3 => {
                            // result near the limits
                            let x = if f.w == 32 { f32::from_bits(o[0] as u32) as f64 } else if f.w == 64 { f64::from_bits(o[0] as u64) } else { 1.5 };
                            let l = x.abs().log2();
                            if l != 0.0 && l.is_finite() { ((f.bias as f64) / l) as i64 + r.range(-3, 3) } else { 7 }
                        }
                        4 => r.range(-70, 70),
                        _ => [i32::MIN, i32::MIN + 1, i32::MAX, -1, 1 << 30, -(1 << 30)][r.below(6) as usize] as i64,
                    },
                    _ => match r.below(6) {
                        0 | 1 => f.emin() as i64 - e + r.range(-(f.p as i64) - 4, 4),
                        2 => f.bias as i64 - e + r.range(-3, 3),
                        3 => r.range(-5 * f.bias as i64, 5 * f.bias as i64),
                        4 => r.range(-10, 10),
                        _ => r.u64() as i32 as i64,
                    },
                }) as i128 as u128,
                b'i',
            );
            return;
        }
        if self.a[0] == b'i' {
            // Bessel order
            if r.one_in(12) {
                // any order at arguments where it costs nothing
                o[0] = canon(
                    match r.below(4) {
                        0 => i32::MIN as i128 + r.below(3) as i128,
                        1 => i32::MAX as i128 - r.below(3) as i128,
                        _ => (r.u64() as i32 >> r.below(32)) as i128,
                    } as u128,
                    b'i',
                );
                o[1] = match r.below(4) {
                    0 => fg.any(r),
                    1 => encode_f64((-41.0 - r.unit() * 80.0).exp2(), f),
                    2 => encode_f64((311.0 + r.unit() * 700.0).exp2(), f),
                    _ => encode_f64(-(-41.0 - r.unit() * 80.0).exp2(), f),
                };
                return;
            }
            o[0] = canon(
                (match r.below(6) {
                    0 => r.range(-3, 3),
                    1 | 2 => r.range(0, 40),
                    3 => r.range(-40, 140),
                    4 => r.range(0, 140),
                    _ => r.range(-300, 3000),
                }) as i128 as u128,
                b'i',
            );
            o[1] = match r.below(3) {
                0 => fg.any(r),
                1 => encode_f64(r.unit() * 300.0, f),
                _ => encode_f64((r.unit() * 60.0 - 20.0).exp2(), f),
            };
            return;
        }
        if n == 1 {
            o[0] = self.one(r, fg);
            return;
        }
        o[0] = fg.any(r);
        o[1] = if r.one_in(2) { fg.any(r) } else { fg.related(r, o[0]) };
        let lim = r.one_in(3);
        match self.op.as_str() {
            "mul" | "fma" | "fma_wide" | "w" if lim => o[1] = fg.product_limit(r, o[0], false),
            "div" | "fmod" | "remainder" | "remquo" if lim => o[1] = fg.product_limit(r, o[0], true),
            _ => {}
        }
        match self.op.as_str() {
            "add" | "sub" | "fdim" => {
                if r.one_in(4) {
                    // exact ties: b is an odd multiple of half a unit of a
                    let e = r.range(f.emin() as i64 + 4, f.bias as i64 - 1);
                    let m = pattern(r, f.p);
                    o[0] = fg.mk(r.one_in(2), e, m);
                    let k = r.range(1, f.p as i64 + 1);
                    // significand of b with its lowest set bit at half-unit of a
                    let low = f.p as i64 + 1 - k;
                    let m = (r.u128() | 1) << low.max(0);
                    o[1] = fg.mk(r.one_in(2), e - k, m);
                    if r.one_in(3) {
                        o[1] = fg.nudge(r, o[1]);
                    }
                    if r.one_in(2) {
                        o.swap(0, 1);
                    }
                }
            }
            "mul" => {
                if r.one_in(3) {
                    self.mul_tie(r, fg, o);
                }
            }
            "div" => {
                if r.one_in(2) {
                    // quotient next to a midpoint or a representable value
                    let q = (pattern(r, f.p) | 1u128 << f.p) * 2 + r.below(2) as u128; // p+2 bits
                    let b = pattern(r, f.p) | 1u128 << f.p;
                    let prod = Big::from(q).mul(&Big::from(b));
                    let eb = r.range(f.emin() as i64, f.bias as i64);
                    let t = match r.below(3) {
                        0 => r.range(f.emin() as i64 - f.p as i64 - 2, f.emin() as i64 + 1),
                        1 => f.bias as i64 + r.range(-2, 1),
                        _ => r.range(-30, 30),
                    };
                    o[0] = round(r.one_in(2), &prod, eb + t - 2 * f.p as i64 - 1, false, f);
                    o[1] = fg.mk(r.one_in(2), eb, b);
                    if r.one_in(2) {
                        o[0] = fg.nudge(r, o[0]);
                    }
                }
            }
            "fma" | "fma_wide" => self.fma3(r, fg, o),
            "fmod" | "remainder" | "remquo" => match r.below(5) {
                0 => {
                    // x next to a multiple (or half multiple) of y
                    let k = r.below(f.p as u64 - 1) as u32 + 1;
                    let q = pattern(r, k) * 2 + r.below(2) as u128;
                    if f.is_fin(o[1]) {
                        let (_, my, ey) = f.dec(o[1]);
                        o[0] = round(r.one_in(2), &Big::from(q).mul(&Big::from(my)), ey as i64 - 1, false, f);
                        if r.one_in(2) {
                            o[0] = fg.nudge(r, o[0]);
                        }
                    }
                }
                1 => {
                    // huge exponent gap
                    o[0] = fg.mk(r.one_in(2), f.bias as i64 - r.below(40) as i64, pattern(r, f.p));
                    o[1] = fg.mk(r.one_in(2), f.emin() as i64 - f.p as i64 + r.below(2 * f.p as u64) as i64, pattern(r, f.p));
                }
                2 => {
                    // exactly representable ratio: y has few bits
                    let k = r.below(8) as u32 + 1;
                    o[1] = fg.mk(r.one_in(2), r.range(-20, 20), pattern(r, k) << (f.p - k.min(f.p)));
                    let sh = r.below(f.p as u64) as u32;
                    o[0] = fg.mk(r.one_in(2), r.range(-20, 40), r.u128() >> sh << sh);
                }
                _ => {}
            },
            "hypot" | "hypot_rx" => {
                if r.one_in(3) {
                    // Pythagorean: (m^2-n^2, 2mn) gives exact roots, nudged gives near ties
                    let h = f.p as u64 / 2;
                    let a = r.u128() & ((1u128 << r.below(h).max(2)) - 1) | 2;
                    let b = r.u128() % a;
                    o[0] = fp::from_int(false, a * a - b * b, f);
                    o[1] = fp::from_int(false, 2 * a * b, f);
                    let k = r.range(-(f.bias as i64) / 2, f.bias as i64 / 2) as i32;
                    let k = if r.one_in(3) { f.bias - 2 * h as i32 + r.range(-4, 4) as i32 } else { k };
                    o[0] = fp::scalb(o[0], k, f).unwrap_or(0);
                    o[1] = fp::scalb(o[1], k, f).unwrap_or(0);
                    if r.one_in(2) {
                        o[0] = fg.nudge(r, o[0]);
                    }
                }
            }
            "pow" => match r.below(8) {
                0 | 1 => {
                    // |result| next to the overflow/underflow limits
                    let x = self.tof64(f, o[0]).abs();
                    let l = x.log2();
                    if l.is_finite() && l != 0.0 {
                        let t = match r.below(3) {
                            0 => f.bias as f64 + r.unit() * 2.0,
                            1 => -(f.bias as f64) - r.unit() * (f.p as f64 + 3.0),
                            _ => r.unit() * 2.0 * f.bias as f64 - f.bias as f64,
                        };
                        o[1] = encode_f64(t / l, f);
                        o[1] = fg.nudge(r, o[1]);
                        o[0] = f.abs(o[0]);
                    }
                }
                2 => {
                    // integer exponents with any-sign base
                    o[1] = encode_f64(r.range(-40, 40) as f64, f);
                }
                3 => {
                    // base next to one
                    let k = r.below(f.p as u64);
                    let d = r.u128() & ((1u128 << k) - 1);
                    o[0] = if r.one_in(2) { f.one() + d } else { f.one() - d };
                    let x = self.tof64(f, o[0]);
                    let t = (r.unit() * 2.0 - 1.0) * (f.bias as f64 + f.p as f64);
                    let l = (x - 1.0) * 1.4426950408889634;
                    if l != 0.0 {
                        o[1] = encode_f64(t / l, f);
                    }
                }
                4 => {
                    // odd/even integers around 2^p
                    let e = r.range(0, f.p as i64 + 2);
                    o[1] = fg.mk(r.one_in(2), e, r.u128() >> (e.min(f.p as i64)) << e.min(f.p as i64) | (r.below(2) as u128) << (f.p as i64 - e.min(f.p as i64)));
                    if r.one_in(2) {
                        o[0] |= f.sign();
                    }
                }
                5 => {
                    o[0] = encode_f64(r.unit() * 4.0, f);
                    o[1] = encode_f64(r.unit() * 40.0 - 20.0, f);
                }
                _ => {}
            },
            "atan2" => {
                if r.one_in(3) {
                    o[0] = encode_f64(r.unit() * 2.0 - 1.0, f);
                    o[1] = encode_f64(r.unit() * 2.0 - 1.0, f);
                }
            }
            _ => {}
        }
    }
    fn tof64(&self, f: Fmt, b: u128) -> f64 {
        match f.w {
            32 => f32::from_bits(b as u32) as f64,
            64 => f64::from_bits(b as u64),
            _ => f64::from_bits(fp::convert(b, f, D).unwrap_or(D.nan()) as u64),
        }
    }
    fn itof_mid(&self, r: &mut Rng, g: Fmt, o: &mut [u128; 4]) {
        let (w, s) = iw(self.a[0]);
        let top = if s { w - 1 } else { w };
        if top <= g.p + 1 {
            return;
        }
        let len = g.p + 2 + r.below((top - g.p - 1) as u64) as u32; // bit length > p+1
        let len = len.min(top);
        let drop = len - (g.p + 1);
        let q = pattern(r, g.p) | 1u128 << g.p;
        let half = 1u128 << (drop - 1);
        let tail = match r.below(5) {
            0 => half,
            1 => half.wrapping_sub(1),
            2 => half + r.below(2) as u128,
            3 => half | (r.u128() & (half - 1)) & (1u128 << r.below(drop as u64)),
            _ => r.u128(),
        } & ((1u128 << drop) - 1);
        let x = q << drop | tail;
        o[0] = canon(if s && r.one_in(2) { x.wrapping_neg() } else { x }, self.a[0]);
    }
    fn one(&self, r: &mut Rng, fg: &FloatGen) -> u128 {
        let f = fg.f;
        match self.op.as_str() {
            "sqrt" if r.one_in(2) => {
                let m = (pattern(r, f.p) | 1u128 << f.p) * 2 + r.below(2) as u128;
                let e = r.range(f.emin() as i64 / 2 - 2, f.bias as i64 / 2);
                let b = round(false, &Big::from(m).mul(&Big::from(m)), 2 * (e - f.p as i64 - 1), false, f);
                if r.one_in(3) { b } else { fg.nudge(r, b) }
            }
            "cbrt" | "cbrt_rx" if r.one_in(2) => {
                let k = r.below(f.p as u64 + 1) as u32;
                let m = (pattern(r, f.p) >> k << k | 1u128 << f.p) * 2 + r.below(2) as u128;
                let e = r.range((f.emin() as i64 - f.p as i64) / 3, f.bias as i64 / 3);
                let m = Big::from(m);
                let b = round(r.one_in(2), &m.mul(&m).mul(&m), 3 * (e - f.p as i64 - 1), false, f);
                if r.one_in(2) { b } else { fg.nudge(r, b) }
            }
            "narrow" if r.one_in(2) => {
                let g = self.gg.as_ref().unwrap().f;
                let e = match r.below(4) {
                    0 => r.range(g.emin() as i64 - g.p as i64 - 3, g.emin() as i64 + 2),
                    1 => g.bias as i64 + r.range(-2, 2),
                    _ => r.range(g.emin() as i64, g.bias as i64),
                };
                let d = f.p - g.p;
                let keep = (g.p as i64 - (g.emin() as i64 - e).max(0)).max(0) as u32;
                let _ = d;
                let drop = f.p - keep.min(f.p);
                let q = pattern(r, f.p) >> drop << drop;
                let half = 1u128 << (drop.max(1) - 1);
                let tail = match r.below(4) {
                    0 => half,
                    1 => half - 1,
                    2 => half + 1,
                    _ => half | 1u128 << r.below(drop.max(1) as u64),
                };
                fg.mk(r.one_in(2), e, q | tail)
            }
            "ftoi" if r.one_in(2) => {
                let (w, s) = iw(self.r[0]);
                let e = match r.below(3) {
                    0 => w as i64 - s as i64 + r.range(-2, 1),
                    1 => r.range(-2, w as i64),
                    _ => f.p as i64 + r.range(-2, 2),
                };
                let m = pattern(r, f.p);
                fg.mk(r.one_in(2), e, m)
            }
            op if trig(op) => match r.below(4) {
                0 => {
                    if f.w == 64 && !self.pd.is_empty() {
                        let b = self.pd[r.below(self.pd.len() as u64) as usize] as u128;
                        let b = if r.one_in(2) { b } else { fg.nudge(r, b) };
                        b ^ if r.one_in(2) { f.sign() } else { 0 }
                    } else if f.w == 32 && !self.ps.is_empty() {
                        let b = self.ps[r.below(self.ps.len() as u64) as usize] as u128;
                        let b = if r.one_in(2) { b } else { fg.nudge(r, b) };
                        b ^ if r.one_in(2) { f.sign() } else { 0 }
                    } else {
                        fg.any(r)
                    }
                }
                1 => {
                    // next to k*pi/4
                    let kb = r.below(30);
                    let k = r.below(1 << kb.max(1)) as f64;
                    let b = encode_f64(k * std::f64::consts::FRAC_PI_4, f);
                    let b = fg.nudge(r, b);
                    b ^ if r.one_in(2) { f.sign() } else { 0 }
                }
                2 => {
                    let e = r.range(-30, f.bias as i64);
                    let m = r.u128();
                    fg.mk(r.one_in(2), e, m)
                }
                _ => fg.any(r),
            },
            op if op.starts_with("lgamma") || op == "tgamma" => match r.below(3) {
                0 => {
                    let k = r.range(-190, 190) as f64;
                    let b = encode_f64(k + (r.unit() - 0.5) * [1.0, 0.1, 1e-4, 1e-9][r.below(4) as usize], f);
                    b
                }
                1 => encode_f64(r.unit() * 360.0 - 190.0, f),
                _ => fg.any(r),
            },
            "asin" | "acos" | "atanh" | "erf" | "erfc" if r.one_in(2) => {
                let lim = if self.op.starts_with("erf") { 30.0 } else { 1.0 };
                let x = r.unit() * lim;
                let x = if r.one_in(4) { lim - x * x * x } else { x };
                encode_f64(if r.one_in(2) { -x } else { x }, f)
            }
            "exp" | "exp2" | "exp10" | "expm1" | "sinh" | "cosh" if r.one_in(3) => {
                let top = if f.w == 32 { 105.0 } else { 750.0 };
                let top = if self.op == "exp2" { top * 1.45 } else if self.op == "exp10" { top / 2.3 } else { top };
                encode_f64((r.unit() * 2.0 - 1.0) * top, f)
            }
            "log" | "log2" | "log10" | "log1p" | "acosh" | "asinh" if r.one_in(3) => {
                let k = r.below(f.p as u64);
                let d = r.u128() & ((1u128 << k) - 1);
                let b = if r.one_in(2) { f.one() + d } else { f.one() - d };
                if self.op == "log1p" {
                    let e = r.range(-60, 3);
                    return fg.mk(r.one_in(2), e, r.u128());
                }
                b
            }
            _ => fg.any(r),
        }
    }
    /// Factors whose exact product lies a hair above or below a rounding tie of a normal or subnormal result.
    fn mul_near(&self, r: &mut Rng, fg: &FloatGen, o: &mut [u128; 4]) -> bool {
        let f = fg.f;
        let p = f.p as i64;
        let top = 1u128 << p;
        let a = (pattern(r, f.p) & (top - 1)) | top | r.below(2) as u128;
        // tie bit of the product, whose lowest bit counts as 0
        let w = if r.one_in(3) { p + r.below(2) as i64 } else { r.range(p, 2 * p + 1) };
        let b = if f.w < 128 {
            let m = 1u128 << (w + 1);
            let e = 1u128 << r.range(0, (w - p).max(2).min(w - 1));
            let l = if r.one_in(2) { (1u128 << w) + 1 } else { (1u128 << w) - e };
            let base = a.wrapping_mul(top) % m;
            let l = (l + m - base) % m;
            match first_in(a % m, m, l, l + e - 1) {
                Some(x) if x < top => top + x,
                _ => return false,
            }
        } else if w <= p + 1 {
            // invert modulo a power of two
            let a = a | 1;
            let mut inv = a;
            for _ in 0..7 {
                inv = inv.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(inv)));
            }
            let e = (r.below(8) as u128 * 2).wrapping_sub(7);
            (top.wrapping_add(e).wrapping_mul(inv) & (2 * top - 1)) | top
        } else {
            // smallest factor that reaches the tie
            let n = (r.u128() & ((1u128 << (2 * p + 1 - w).max(0)) - 1)) | 1u128 << (2 * p + 1 - w);
            let n = Big::from(n | 1).shl(w as u32);
            let (mut lo, mut hi) = (top, 2 * top);
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                if Big::from(a).mul(&Big::from(mid)).cmp(&n) == std::cmp::Ordering::Greater { hi = mid } else { lo = mid }
            }
            if r.one_in(2) { hi.min(2 * top - 1) } else { lo }
        };
        // exponent of the product's lowest bit
        let u = if w <= p + 1 && r.one_in(2) {
            match r.below(3) {
                0 => f.bias as i64 - r.range(0, 2) - 2 * p - 1,
                1 => f.emin() as i64 + r.range(0, 2) - 2 * p - 1,
                _ => r.range(-20, 20) - 2 * p,
            }
        } else {
            f.emin() as i64 - p - w - 1
        };
        let (lo, hi) = (f.emin() as i64 - p, f.bias as i64 - p);
        let (lo, hi) = (lo.max(u - hi), hi.min(u - lo));
        if lo > hi {
            return false;
        }
        let i = if r.one_in(3) { (u / 2).clamp(lo, hi) } else { r.range(lo, hi) };
        o[0] = round(r.one_in(2), &Big::from(a), i, false, f);
        o[1] = round(r.one_in(2), &Big::from(b), u - i, false, f);
        true
    }
    fn mul_tie(&self, r: &mut Rng, fg: &FloatGen, o: &mut [u128; 4]) {
        let f = fg.f;
        if r.one_in(2) && self.mul_near(r, fg, o) {
            return;
        }
        // product with exactly p+2 (or p+3) significant bits ending in 1: an exact tie
        let k = r.below(f.p as u64 - 1) as u32 + 2;
        let y = (r.u128() & ((1u128 << k) - 1)) | 1 | 1u128 << (k - 1);
        let xl = f.p + 2 - k + r.below(2) as u32;
        let x = (r.u128() & ((1u128 << xl) - 1)) | 1 | 1u128 << (xl - 1);
        let ex = r.range(f.emin() as i64, f.bias as i64 - 1);
        let t = match r.below(3) {
            0 => f.emin() as i64 + r.range(-(f.p as i64) - 2, 2),
            1 => f.bias as i64 + r.range(-2, 0),
            _ => r.range(-10, 10),
        };
        o[0] = round(r.one_in(2), &Big::from(x), ex - xl as i64, false, f);
        o[1] = round(r.one_in(2), &Big::from(y), t - ex - k as i64, false, f);
        if r.one_in(4) {
            o[1] = fg.nudge(r, o[1]);
        }
    }
    fn fma3(&self, r: &mut Rng, fg: &FloatGen, o: &mut [u128; 4]) {
        let f = fg.f;
        let p = f.p as i64;
        if r.one_in(4) {
            self.mul_tie(r, fg, o);
        }
        o[2] = fg.any(r);
        if !f.is_fin(o[0]) || !f.is_fin(o[1]) || f.is_zero(o[0]) || f.is_zero(o[1]) {
            return;
        }
        match r.below(8) {
            0 | 1 => {
                // cancellation: z = -(x*y) rounded, nudged
                if let Some(b) = fp::mul(o[0], o[1], f) {
                    o[2] = b ^ f.sign();
                    if r.one_in(2) {
                        o[2] = fg.nudge(r, o[2]);
                    }
                }
            }
            2 | 3 => {
                // any exponent alignment between product and addend
                let ep = (f.abs(o[0]) >> f.p) as i64 + (f.abs(o[1]) >> f.p) as i64 - 2 * f.bias as i64;
                let d = r.range(-2 * p - 6, 2 * p + 6);
                let m = pattern(r, f.p);
                o[2] = fg.mk(r.one_in(2), ep + d, m);
            }
            4 | 5 => {
                // addend puts the sum exactly on a tie plus or minus a tiny product tail:
                // x*y = 2^k + t with t tiny
                let a = r.u128() & ((1u128 << r.below((p as u64) / 2).max(1)) - 1) | 1;
                let (mx, my) = ((1u128 << f.p) + a, (1u128 << f.p) - a); // product 2^2p - a^2
                let (mx, my) = if r.one_in(2) { (mx, my) } else { ((1u128 << f.p) + a, (1u128 << (f.p + 1)) - 2 * a + r.below(3) as u128) };
                // (2^p + a)(2^(p+1) - 2a + c) = 2^(2p+1) + small positive tail when 2a^2 ~ c 2^p
                let (mx, my) = if r.one_in(2) {
                    let k = r.below(18);
                    let c = (1 + r.below(1 << k)) as u128;
                    let sq = |n: Big| -> u128 {
                        let mut lo = 0u128;
                        for i in (0..70).rev() {
                            let t = lo | 1u128 << i;
                            if Big::from(t).mul(&Big::from(t)).cmp(&n) != std::cmp::Ordering::Greater {
                                lo = t;
                            }
                        }
                        lo
                    };
                    let a = sq(Big::from(c).shl(f.p - 1)) - r.below(3) as u128;
                    ((1u128 << f.p) + a, (1u128 << (f.p + 1)) - 2 * a + c)
                } else {
                    (mx, my)
                };
                let e1 = r.range(-200.min(f.bias as i64 / 4), 200.min(f.bias as i64 / 4));
                let e2 = r.range(-20.min(f.bias as i64 / 4), 20.min(f.bias as i64 / 4));
                o[0] = round(r.one_in(2), &Big::from(mx), e1 - p, false, f);
                o[1] = round(r.one_in(2), &Big::from(my), e2 - p, false, f);
                // z: leading bit d binades above the product so that product ~ half ulp of z (or fraction)
                let d = match r.below(4) {
                    0 => p + 1,
                    1 => p + r.range(-1, 3),
                    2 => r.range(-p, 2 * p + 3),
                    _ => p + 2,
                };
                let m = pattern(r, f.p);
                o[2] = fg.mk(r.one_in(2), e1 + e2 + d, m);
            }
            6 => {
                // result near the subnormal boundary
                let m = pattern(r, f.p);
                o[2] = fg.mk(r.one_in(2), f.emin() as i64 + r.range(-p, 3), m);
                let e = r.range(f.emin() as i64 / 2, f.bias as i64 / 2);
                o[0] = fg.mk(r.one_in(2), e, pattern(r, f.p));
                let t = f.emin() as i64 + r.range(-2 * p - 4, p + 2);
                o[1] = fg.mk(r.one_in(2), t - e, pattern(r, f.p));
                if r.one_in(3) {
                    if let Some(b) = fp::mul(o[0], o[1], f) {
                        o[2] = b ^ f.sign();
                    }
                }
            }
            _ => {}
        }
    }
}
