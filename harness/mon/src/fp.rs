//! Exact binary floating point on big integers: the reference the monitors compare against.

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fmt {
    pub w: u32,
    pub p: u32,
    pub bias: i32,
}
pub const H: Fmt = Fmt { w: 16, p: 10, bias: 15 };
pub const S: Fmt = Fmt { w: 32, p: 23, bias: 127 };
pub const D: Fmt = Fmt { w: 64, p: 52, bias: 1023 };
pub const Q: Fmt = Fmt { w: 128, p: 112, bias: 16383 };

impl Fmt {
    pub fn of(c: u8) -> Option<Fmt> {
        match c {
            b'h' => Some(H),
            b's' => Some(S),
            b'd' => Some(D),
            b'q' => Some(Q),
            _ => None,
        }
    }
    pub fn mask(&self) -> u128 {
        if self.w == 128 { !0 } else { (1u128 << self.w) - 1 }
    }
    pub fn sign(&self) -> u128 {
        1u128 << (self.w - 1)
    }
    pub fn abs(&self, b: u128) -> u128 {
        b & (self.sign() - 1)
    }
    pub fn neg(&self, b: u128) -> bool {
        b & self.sign() != 0
    }
    pub fn inf(&self) -> u128 {
        (self.sign() - 1) >> self.p << self.p
    }
    pub fn max(&self) -> u128 {
        self.inf() - 1
    }
    pub fn qbit(&self) -> u128 {
        1u128 << (self.p - 1)
    }
    pub fn nan(&self) -> u128 {
        self.inf() | self.qbit()
    }
    pub fn is_nan(&self, b: u128) -> bool {
        self.abs(b) > self.inf()
    }
    pub fn is_snan(&self, b: u128) -> bool {
        self.is_nan(b) && b & self.qbit() == 0
    }
    pub fn is_inf(&self, b: u128) -> bool {
        self.abs(b) == self.inf()
    }
    pub fn is_zero(&self, b: u128) -> bool {
        self.abs(b) == 0
    }
    pub fn is_fin(&self, b: u128) -> bool {
        self.abs(b) < self.inf()
    }
    pub fn one(&self) -> u128 {
        (self.bias as u128) << self.p
    }
    pub fn emin(&self) -> i32 {
        1 - self.bias
    }
    /// finite nonzero or zero -> (neg, m, e) with value m * 2^e
    pub fn dec(&self, b: u128) -> (bool, u128, i32) {
        let ex = (self.abs(b) >> self.p) as i32;
        let m = b & ((1u128 << self.p) - 1);
        if ex == 0 {
            (self.neg(b), m, self.emin() - self.p as i32)
        } else {
            (self.neg(b), m | 1u128 << self.p, ex - self.bias - self.p as i32)
        }
    }
    /// Order-preserving integer for non-NaN values; both zeros map to 0.
    pub fn ord(&self, b: u128) -> i128 {
        let a = self.abs(b) as i128;
        if self.neg(b) { -a } else { a }
    }
    pub fn unord(&self, o: i128) -> u128 {
        if o < 0 { (-o) as u128 | self.sign() } else { o as u128 }
    }
    pub fn is_int(&self, b: u128) -> bool {
        let (_, m, e) = self.dec(b);
        m == 0 || e >= 0 || (e > -128 && m & ((1u128 << (-e).min(127)) - 1) == 0)
    }
    /// parity for integral finite values: true if odd
    pub fn is_odd(&self, b: u128) -> bool {
        let (_, m, e) = self.dec(b);
        self.is_int(b) && e <= 0 && e > -128 && (m >> (-e)) & 1 == 1
    }
}

pub const N: usize = 14;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; N]);

impl Big {
    pub const ZERO: Big = Big([0; N]);
    pub fn from(x: u128) -> Big {
        let mut b = [0; N];
        b[0] = x as u64;
        b[1] = (x >> 64) as u64;
        Big(b)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|&x| x == 0)
    }
    pub fn bits(&self) -> u32 {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    pub fn shl(&self, n: u32) -> Big {
        debug_assert!(self.bits() + n <= 64 * N as u32);
        let (w, s) = ((n / 64) as usize, n % 64);
        let mut r = [0u64; N];
        for i in (w..N).rev() {
            let mut v = self.0[i - w] << s;
            if s > 0 && i > w {
                v |= self.0[i - w - 1] >> (64 - s);
            }
            r[i] = v;
        }
        Big(r)
    }
    /// (self >> n, whether any bit was lost)
    pub fn shr(&self, n: u32) -> (Big, bool) {
        if n >= 64 * N as u32 {
            return (Big::ZERO, !self.is_zero());
        }
        let (w, s) = ((n / 64) as usize, n % 64);
        let mut lost = self.0[..w].iter().any(|&x| x != 0);
        if s > 0 && self.0[w] << (64 - s) != 0 {
            lost = true;
        }
        let mut r = [0u64; N];
        for i in 0..N - w {
            let mut v = self.0[i + w] >> s;
            if s > 0 && i + w + 1 < N {
                v |= self.0[i + w + 1] << (64 - s);
            }
            r[i] = v;
        }
        (Big(r), lost)
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        let mut c = false;
        for i in 0..N {
            let (a, c1) = self.0[i].overflowing_add(o.0[i]);
            let (a, c2) = a.overflowing_add(c as u64);
            r[i] = a;
            c = c1 | c2;
        }
        Big(r)
    }
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        let mut c = false;
        for i in 0..N {
            let (a, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (a, c2) = a.overflowing_sub(c as u64);
            r[i] = a;
            c = c1 | c2;
        }
        Big(r)
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
    pub fn mul(&self, o: &Big) -> Big {
        let la = (self.bits() as usize + 63) / 64;
        let lb = (o.bits() as usize + 63) / 64;
        let mut r = [0u64; N];
        for i in 0..la {
            let mut c = 0u128;
            for j in 0..lb {
                if i + j >= N {
                    break;
                }
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            if i + lb < N {
                r[i + lb] = c as u64;
            }
        }
        Big(r)
    }
    pub fn low(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
    pub fn hi128(&self, k: usize) -> u128 {
        self.0[k] as u128 | (self.0[k + 1] as u128) << 64
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Rm {
    Near,
    Down,
    Up,
    Zero,
}

pub struct Rounded {
    pub bits: u128,
    pub inexact: bool,
    pub overflow: bool,
}

/// Round (-1)^neg * (m + sticky*tiny) * 2^e into the format.
pub fn round_ex(neg: bool, m: &Big, e: i64, sticky: bool, f: Fmt, rm: Rm) -> Rounded {
    let sg = if neg { f.sign() } else { 0 };
    let bl = m.bits() as i64;
    let p = f.p as i64;
    let min_lsb = f.emin() as i64 - p;
    if bl == 0 && !sticky {
        return Rounded { bits: sg, inexact: false, overflow: false };
    }
    let msb = e + bl - 1;
    let lsb = (msb - p).max(min_lsb);
    let shift = lsb - e;
    let (q, half, rest) = if bl == 0 {
        (0u128, false, true)
    } else if shift <= 0 {
        // exact (as far as m goes)
        if -shift > 200 {
            unreachable!()
        }
        (m.shl((-shift) as u32).low(), false, sticky)
    } else if shift > bl + 1 {
        (0, false, true)
    } else {
        let (q1, l1) = m.shr(shift as u32 - 1);
        let (q, l2) = q1.shr(1);
        (q.low(), l2, l1 || sticky)
    };
    let inexact = half || rest;
    let up = match rm {
        Rm::Near => half && (rest || q & 1 == 1),
        Rm::Zero => false,
        Rm::Up => inexact && !neg,
        Rm::Down => inexact && neg,
    };
    let q = q + up as u128;
    // encode; a carry out of the significand naturally bumps the exponent
    let bits = if q == 0 {
        0
    } else if lsb == min_lsb {
        q
    } else {
        let ex = lsb + p + f.bias as i64;
        if ex >= (f.inf() >> f.p) as i64 {
            f.inf()
        } else {
            ((ex as u128) << f.p) + (q - (1u128 << f.p))
        }
    };
    if bits >= f.inf() {
        let big = match rm {
            Rm::Near => f.inf(),
            Rm::Zero => f.max(),
            Rm::Up => if neg { f.max() } else { f.inf() },
            Rm::Down => if neg { f.inf() } else { f.max() },
        };
        return Rounded { bits: big | sg, inexact: true, overflow: true };
    }
    Rounded { bits: bits | sg, inexact, overflow: false }
}

pub fn round(neg: bool, m: &Big, e: i64, sticky: bool, f: Fmt) -> u128 {
    round_ex(neg, m, e, sticky, f, Rm::Near).bits
}

/// A signed exact term: (-1)^neg * m * 2^e
#[derive(Clone, Copy)]
pub struct Term {
    pub neg: bool,
    pub m: Big,
    pub e: i64,
}

pub fn term(b: u128, f: Fmt) -> Term {
    let (neg, m, e) = f.dec(b);
    Term { neg, m: Big::from(m), e: e as i64 }
}

pub fn mul_terms(a: &Term, b: &Term) -> Term {
    Term { neg: a.neg ^ b.neg, m: a.m.mul(&b.m), e: a.e + b.e }
}

/// Correctly rounded sum of two nonzero terms (zero sum gives +0).
pub fn add_terms(a: &Term, b: &Term, f: Fmt) -> u128 {
    let (hi, lo) = if a.e >= b.e { (*a, *b) } else { (*b, *a) };
    let mut lo = lo;
    if hi.e - (lo.e + lo.m.bits() as i64) > 150 {
        lo.m = Big::from(1);
        lo.e = hi.e - 150;
    }
    let hm = hi.m.shl((hi.e - lo.e) as u32);
    if hi.neg == lo.neg {
        return round(hi.neg, &hm.add(&lo.m), lo.e, false, f);
    }
    match hm.cmp(&lo.m) {
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => round(hi.neg, &hm.sub(&lo.m), lo.e, false, f),
        std::cmp::Ordering::Less => round(lo.neg, &lo.m.sub(&hm), lo.e, false, f),
    }
}

/// NaN marker used by references: any NaN is acceptable.
pub const NAN_TAG: Option<u128> = None;

pub fn add(a: u128, b: u128, f: Fmt) -> Option<u128> {
    if f.is_nan(a) || f.is_nan(b) {
        return None;
    }
    if f.is_inf(a) {
        return if f.is_inf(b) && a != b { None } else { Some(a) };
    }
    if f.is_inf(b) {
        return Some(b);
    }
    if f.is_zero(a) && f.is_zero(b) {
        return Some(if a == b { a } else { 0 });
    }
    if f.is_zero(a) {
        return Some(b);
    }
    if f.is_zero(b) {
        return Some(a);
    }
    Some(add_terms(&term(a, f), &term(b, f), f))
}

pub fn mul(a: u128, b: u128, f: Fmt) -> Option<u128> {
    if f.is_nan(a) || f.is_nan(b) {
        return None;
    }
    let sg = (a ^ b) & f.sign();
    if f.is_inf(a) || f.is_inf(b) {
        return if f.is_zero(a) || f.is_zero(b) { None } else { Some(f.inf() | sg) };
    }
    if f.is_zero(a) || f.is_zero(b) {
        return Some(sg);
    }
    let t = mul_terms(&term(a, f), &term(b, f));
    Some(round(t.neg, &t.m, t.e, false, f))
}

pub fn div(a: u128, b: u128, f: Fmt) -> Option<u128> {
    if f.is_nan(a) || f.is_nan(b) {
        return None;
    }
    let sg = (a ^ b) & f.sign();
    if f.is_inf(a) {
        return if f.is_inf(b) { None } else { Some(f.inf() | sg) };
    }
    if f.is_inf(b) {
        return Some(sg);
    }
    if f.is_zero(b) {
        return if f.is_zero(a) { None } else { Some(f.inf() | sg) };
    }
    if f.is_zero(a) {
        return Some(sg);
    }
    let (_, mut ma, mut ea) = f.dec(a);
    let (_, mut mb, mut eb) = f.dec(b);
    // normalise both significands to the same width
    let (sa, sb) = (ma.leading_zeros() - 14, mb.leading_zeros() - 14);
    ma <<= sa;
    ea -= sa as i32;
    mb <<= sb;
    eb -= sb as i32;
    let mut r = ma;
    let mut q = 0u128;
    let n = f.p + 4;
    for _ in 0..n {
        q <<= 1;
        if r >= mb {
            r -= mb;
            q |= 1;
        }
        r <<= 1;
    }
    Some(round(sg != 0, &Big::from(q), ea as i64 - eb as i64 - (n as i64 - 1), r != 0, f))
}

pub fn fma(x: u128, y: u128, z: u128, f: Fmt) -> Option<u128> {
    if f.is_nan(x) || f.is_nan(y) || f.is_nan(z) {
        return None;
    }
    let sg = (x ^ y) & f.sign();
    if f.is_inf(x) || f.is_inf(y) {
        if f.is_zero(x) || f.is_zero(y) || (f.is_inf(z) && z & f.sign() != sg) {
            return None;
        }
        return Some(f.inf() | sg);
    }
    if f.is_inf(z) {
        return Some(z);
    }
    if f.is_zero(x) || f.is_zero(y) {
        return Some(if f.is_zero(z) { if z == sg { z } else { 0 } } else { z });
    }
    let t = mul_terms(&term(x, f), &term(y, f));
    if f.is_zero(z) {
        return Some(round(t.neg, &t.m, t.e, false, f));
    }
    Some(add_terms(&t, &term(z, f), f))
}

/// Convert between formats (None = NaN).
pub fn convert(a: u128, f: Fmt, g: Fmt) -> Option<u128> {
    if f.is_nan(a) {
        return None;
    }
    let sg = if f.neg(a) { g.sign() } else { 0 };
    if f.is_inf(a) {
        return Some(g.inf() | sg);
    }
    if f.is_zero(a) {
        return Some(sg);
    }
    let t = term(a, f);
    Some(round(t.neg, &t.m, t.e, false, g))
}

pub fn from_int(neg: bool, mag: u128, f: Fmt) -> u128 {
    if mag == 0 {
        return 0;
    }
    round(neg, &Big::from(mag), 0, false, f)
}

/// Truncate to integer with saturation: (lo, hi) magnitudes: min = -lo, max = hi
pub fn to_int(a: u128, f: Fmt, lo: u128, hi: u128) -> (bool, u128) {
    if f.is_nan(a) {
        return (false, 0);
    }
    let neg = f.neg(a);
    let lim = if neg { lo } else { hi };
    if f.is_inf(a) {
        return (neg, lim);
    }
    let (_, m, e) = f.dec(a);
    let mag = if m == 0 {
        0
    } else if e >= 0 {
        if e > 128 || (m.leading_zeros() as i32) < e { lim } else { m << e }
    } else if e <= -128 {
        0
    } else {
        m >> (-e)
    };
    (neg, mag.min(lim))
}

pub fn scalb(a: u128, n: i32, f: Fmt) -> Option<u128> {
    if f.is_nan(a) {
        return None;
    }
    if !f.is_fin(a) || f.is_zero(a) {
        return Some(a);
    }
    let t = term(a, f);
    Some(round(t.neg, &t.m, t.e + n as i64, false, f))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ri {
    Ceil,
    Floor,
    Trunc,
    Away,
    Even,
}

/// Round to integral: (bits, inexact); None = NaN
pub fn rint(a: u128, f: Fmt, how: Ri) -> Option<(u128, bool)> {
    if f.is_nan(a) {
        return None;
    }
    if !f.is_fin(a) || f.is_zero(a) {
        return Some((a, false));
    }
    let (neg, m, e) = f.dec(a);
    if e >= 0 {
        return Some((a, false));
    }
    let s = (-e) as u32;
    let (q, half, rest) = if s > 120 {
        (0, false, true)
    } else {
        (m >> s, (m >> (s - 1)) & 1 == 1, m & ((1u128 << (s - 1)) - 1) != 0)
    };
    let inexact = half || rest;
    let up = match how {
        Ri::Ceil => inexact && !neg,
        Ri::Floor => inexact && neg,
        Ri::Trunc => false,
        Ri::Away => half,
        Ri::Even => half && (rest || q & 1 == 1),
    };
    let b = from_int(neg, q + up as u128, f);
    Some((b | if neg { f.sign() } else { 0 }, inexact))
}

pub fn mulmod(mut a: u128, mut b: u128, m: u128) -> u128 {
    // m < 2^120
    if m < 1 << 64 {
        return (a % m) * (b % m) % m;
    }
    a %= m;
    b %= m;
    let mut r = 0u128;
    while b != 0 {
        if b & 1 == 1 {
            r += a;
            if r >= m {
                r -= m;
            }
        }
        a <<= 1;
        if a >= m {
            a -= m;
        }
        b >>= 1;
    }
    r
}

pub fn pow2mod(mut n: u64, m: u128) -> u128 {
    let mut r = 1 % m;
    let mut b = 2 % m;
    while n > 0 {
        if n & 1 == 1 {
            r = mulmod(r, b, m);
        }
        b = mulmod(b, b, m);
        n >>= 1;
    }
    r
}

/// |x| = (8k + q) |y| + r exactly: returns (q in 0..8, r as m * 2^e)
pub fn rem8(x: u128, y: u128, f: Fmt) -> (u128, u128, i64) {
    let (_, mx, ex) = f.dec(x);
    let (_, my, ey) = f.dec(y);
    let (ex, ey) = (ex as i64, ey as i64);
    if ex >= ey {
        let m8 = my << 3;
        let r = mulmod(mx % m8, pow2mod((ex - ey) as u64, m8), m8);
        (r / my, r % my, ey)
    } else {
        // scale y up: value of y in units of 2^ex
        let s = ey - ex;
        if s >= 128 || (my.leading_zeros() as i64) < s + 4 {
            // y much larger than x or nearly so
            let b = Big::from(my);
            if s > 500 {
                return (0, mx, ex);
            }
            let ys = b.shl(s as u32);
            let xm = Big::from(mx);
            // quotient is tiny; x < 2^113
            let mut q = 0;
            let mut r = xm;
            while r.cmp(&ys) != std::cmp::Ordering::Less {
                r = r.sub(&ys);
                q += 1;
                if q > 64 {
                    break;
                }
            }
            if q <= 64 {
                return (q & 7, r.low(), ex);
            }
        }
        let ys = my << s;
        let q = mx / ys;
        (q & 7, mx % ys, ex)
    }
}

pub fn fmod(x: u128, y: u128, f: Fmt) -> Option<u128> {
    if f.is_nan(x) || f.is_nan(y) || f.is_inf(x) || f.is_zero(y) {
        return None;
    }
    if f.is_inf(y) || f.is_zero(x) {
        return Some(x);
    }
    let (_, r, e) = rem8(x, y, f);
    let b = round(false, &Big::from(r), e, false, f);
    Some(b | (x & f.sign()))
}

/// IEEE remainder and quotient low bits with sign: (bits, |q| mod 8, q negative)
pub fn remquo(x: u128, y: u128, f: Fmt) -> Option<(u128, u32, bool)> {
    if f.is_nan(x) || f.is_nan(y) || f.is_inf(x) || f.is_zero(y) {
        return None;
    }
    let qneg = f.neg(x) != f.neg(y);
    if f.is_inf(y) || f.is_zero(x) {
        return Some((x, 0, qneg));
    }
    let (q, r, e) = rem8(x, y, f);
    let (_, my, ey) = f.dec(y);
    // compare 2r * 2^e with my * 2^ey exactly
    let two_r = Big::from(r).shl(1);
    let ord = {
        let d = ey as i64 - e;
        if d > 500 {
            std::cmp::Ordering::Less
        } else {
            two_r.cmp(&Big::from(my).shl(d as u32))
        }
    };
    let up = ord == std::cmp::Ordering::Greater || (ord == std::cmp::Ordering::Equal && q & 1 == 1);
    let xs = f.neg(x);
    if up {
        let d = ey as i64 - e;
        let ys = Big::from(my).shl(d as u32);
        let m = ys.sub(&Big::from(r));
        let b = round(!xs, &m, e, false, f);
        let b = if f.is_zero(b) { x & f.sign() } else { b };
        Some((b, ((q + 1) & 7) as u32, qneg))
    } else {
        let b = f.abs(round(false, &Big::from(r), e, false, f));
        Some((b | (x & f.sign()), (q & 7) as u32, qneg))
    }
}
