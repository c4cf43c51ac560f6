//! Expected outcome of every operation, from exact arithmetic or the system's math library.
use crate::fp::{self, *};
use crate::dl;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    Any,
    Bits(u128),
    /// any NaN
    Nan,
    /// quiet NaN
    Qnan,
    Either(u128, u128),
    /// ordered-integer interval; sign: 0 = either, 1 = positive, -1 = negative sign bit
    Range(i128, i128, i8),
    /// as Range, but a zero result's sign is free
    /// result whose double-precision reference is known; refined on mismatch
    Acc(u128),
    /// comparison result predicate
    Sg(Sgn),
    /// any zero, or any value in magnitude below the tag
    Zero,
    AnyInf,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sgn {
    Z,
    Nz,
    Lt,
    Ge,
    Le,
    Gt,
}

#[derive(Clone)]
pub struct Sig {
    pub a: Vec<u8>,
    pub r: Vec<u8>,
}
impl Sig {
    pub fn parse(s: &str) -> Sig {
        let (a, r) = s.split_once('>').unwrap();
        Sig { a: a.bytes().collect(), r: r.bytes().collect() }
    }
}

pub fn iw(c: u8) -> (u32, bool) {
    match c {
        b'i' => (32, true),
        b'u' => (32, false),
        b'l' => (64, true),
        b'L' => (64, false),
        b'x' => (128, true),
        b'X' => (128, false),
        b'z' => (64, false),
        b'Z' => (64, true),
        b'b' => (32, true),
        _ => panic!("int letter"),
    }
}
/// canonical slot representation of an integer value of that letter
pub fn canon(v: u128, c: u8) -> u128 {
    let (w, s) = iw(c);
    if w == 128 {
        v
    } else if s {
        (((v << (128 - w)) as i128) >> (128 - w)) as u128
    } else {
        v & ((1u128 << w) - 1)
    }
}

pub type RefFn = fn(&OpRef, &[u128], &mut [V; 3]);

/// Judge references that claim correct rounding: no tolerance beyond the uncertainty of the 113-bit value.
pub static ANYNAN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static EXACT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn exact() -> bool {
    EXACT.load(std::sync::atomic::Ordering::Relaxed)
}
pub struct OpRef {
    pub op: String,
    pub sig: Sig,
    pub f: Fmt, // main float format (first float argument or result)
    pub kind: Option<RefFn>,
    pub f64fn: usize,
    pub f128fn: usize,
    pub f64b: usize,
    pub f128b: usize,
    pub tol: i128,
    pub fast: bool,
}

fn opt(v: Option<u128>) -> V {
    match v {
        Some(b) => V::Bits(b),
        None => V::Qnan,
    }
}

// ------------------------------------------------------------------ integers
fn int2(o: &OpRef, a: &[u128]) -> (u128, u128, u8) {
    let c = o.sig.a[0];
    (canon(a[0], c), canon(a[1], c), c)
}
fn r_iadd(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    v[0] = V::Bits(canon(x.wrapping_add(y), c));
    if o.sig.r.len() > 1 {
        let ov = if c == b'x' { (x as i128).checked_add(y as i128).is_none() } else { x.checked_add(y).is_none() };
        v[1] = V::Bits(if ov { 3 } else { 0 });
    }
}
fn r_isub(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    v[0] = V::Bits(canon(x.wrapping_sub(y), c));
    if o.sig.r.len() > 1 {
        let ov = if c == b'x' { (x as i128).checked_sub(y as i128).is_none() } else { x.checked_sub(y).is_none() };
        v[1] = V::Bits(if ov { 3 } else { 0 });
    }
}
/// 128x128 -> 256, on 32-bit digits, independent of the compiler's wide multiply helpers
pub fn wmul(a: u128, b: u128) -> (u128, u128) {
    let p = Big::from(a).mul(&Big::from(b));
    (p.hi128(0), p.hi128(2))
}
fn r_imul(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    let (w, s) = iw(c);
    let (neg, mx, my) = if s {
        let (x, y) = (x as i128, y as i128);
        ((x < 0) != (y < 0), x.unsigned_abs(), y.unsigned_abs())
    } else {
        (false, x, y)
    };
    let (lo, hi) = wmul(mx, my);
    let r = if neg { lo.wrapping_neg() } else { lo };
    v[0] = V::Bits(canon(r, c));
    if o.sig.r.len() > 1 {
        let lim = if s {
            let half = 1u128 << (w - 1);
            if neg { half } else { half - 1 }
        } else if w == 128 {
            !0
        } else {
            (1u128 << w) - 1
        };
        v[1] = V::Bits(if hi != 0 || lo > lim { 3 } else { 0 });
    }
}
fn divrem(c: u8, x: u128, y: u128) -> (u128, u128) {
    let (_, s) = iw(c);
    if s {
        let (xs, ys) = (x as i128, y as i128);
        let (mut q, mut r) = udivrem(xs.unsigned_abs(), ys.unsigned_abs());
        if (xs < 0) != (ys < 0) {
            q = q.wrapping_neg();
        }
        if xs < 0 {
            r = r.wrapping_neg();
        }
        (canon(q, c), canon(r, c))
    } else {
        udivrem(x, y)
    }
}
/// Hardware for 64-bit; for wide operands long division in base 2^32 (Knuth D on u64 digits).
fn udivrem(n: u128, d: u128) -> (u128, u128) {
    if n < 1 << 64 && d < 1 << 64 {
        return ((n as u64 / d as u64) as u128, (n as u64 % d as u64) as u128);
    }
    if n < d {
        return (0, n);
    }
    // restoring shift-subtract from the aligned position
    let mut sh = d.leading_zeros() - n.leading_zeros();
    let mut dd = d << sh;
    let (mut q, mut r) = (0u128, n);
    loop {
        q <<= 1;
        if r >= dd {
            r -= dd;
            q |= 1;
        }
        if sh == 0 {
            break;
        }
        sh -= 1;
        dd >>= 1;
    }
    (q, r)
}
fn r_idiv(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    v[0] = V::Bits(divrem(c, x, y).0);
}
fn r_irem(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    v[0] = V::Bits(divrem(c, x, y).1);
}
fn r_idivrem(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let (x, y, c) = int2(o, a);
    let (q, r) = divrem(c, x, y);
    v[0] = V::Bits(q);
    v[1] = V::Bits(r);
}
fn r_ishl(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let c = o.sig.a[0];
    v[0] = V::Bits(canon(canon(a[0], c) << (a[1] as u32), c));
}
fn r_ishr(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let c = o.sig.a[0];
    let x = canon(a[0], c);
    v[0] = V::Bits(if iw(c).1 { ((x as i128) >> (a[1] as u32)) as u128 } else { x >> (a[1] as u32) });
}
fn r_clz(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let w = iw(o.sig.a[0]).0;
    let x = canon(a[0], o.sig.a[0]);
    let mut n = 0;
    while n < w && x >> (w - 1 - n) & 1 == 0 {
        n += 1;
    }
    v[0] = V::Bits(n as u128);
}
fn r_ctz(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let w = iw(o.sig.a[0]).0;
    let x = canon(a[0], o.sig.a[0]);
    let mut n = 0;
    while n < w && x >> n & 1 == 0 {
        n += 1;
    }
    v[0] = V::Bits(n as u128);
}
fn r_bswap(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let w = iw(o.sig.a[0]).0 / 8;
    let mut r = 0u128;
    for i in 0..w {
        r |= (a[0] >> (8 * i) & 0xff) << (8 * (w - 1 - i));
    }
    v[0] = V::Bits(r);
}

// ------------------------------------------------------------------ basic float
fn hw2(f: Fmt, a: u128, b: u128, s: fn(f32, f32) -> f32, d: fn(f64, f64) -> f64) -> Option<Option<u128>> {
    if f.w == 32 {
        let r = s(f32::from_bits(a as u32), f32::from_bits(b as u32));
        Some(if r.is_nan() { None } else { Some(r.to_bits() as u128) })
    } else if f.w == 64 {
        let r = d(f64::from_bits(a as u64), f64::from_bits(b as u64));
        Some(if r.is_nan() { None } else { Some(r.to_bits() as u128) })
    } else {
        None
    }
}
fn r_add(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = opt(hw2(o.f, a[0], a[1], |x, y| x + y, |x, y| x + y).unwrap_or_else(|| fp::add(a[0], a[1], o.f)));
}
fn r_sub(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = opt(hw2(o.f, a[0], a[1], |x, y| x - y, |x, y| x - y).unwrap_or_else(|| {
        let nb = if o.f.is_nan(a[1]) { a[1] } else { a[1] ^ o.f.sign() };
        fp::add(a[0], nb, o.f)
    }));
}
fn r_mul(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = opt(hw2(o.f, a[0], a[1], |x, y| x * y, |x, y| x * y).unwrap_or_else(|| fp::mul(a[0], a[1], o.f)));
}
fn r_div(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = opt(hw2(o.f, a[0], a[1], |x, y| x / y, |x, y| x / y).unwrap_or_else(|| fp::div(a[0], a[1], o.f)));
}
fn r_cmp(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let un = f.is_nan(a[0]) || f.is_nan(a[1]);
    let c = f.ord(a[0]).cmp(&f.ord(a[1]));
    let s = match &o.op[4..] {
        "unord" => if un { Sgn::Nz } else { Sgn::Z },
        "eq" | "ne" => if !un && c == Ordering::Equal { Sgn::Z } else { Sgn::Nz },
        "lt" => if !un && c == Ordering::Less { Sgn::Lt } else { Sgn::Ge },
        "ge" => if !un && c != Ordering::Less { Sgn::Ge } else { Sgn::Lt },
        "le" => if !un && c != Ordering::Greater { Sgn::Le } else { Sgn::Gt },
        "gt" => if !un && c == Ordering::Greater { Sgn::Gt } else { Sgn::Le },
        _ => panic!(),
    };
    v[0] = V::Sg(s);
}
fn r_powi_exact(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let n = a[1] as u32 as i32;
    if f.is_nan(a[0]) {
        v[0] = if n == 0 { V::Any } else { V::Nan };
        return;
    }
    let p = dl::f128fn("pow");
    let x = f128::from_bits(fp::convert(a[0], f, Q).unwrap());
    let r = unsafe { std::mem::transmute::<usize, extern "C" fn(f128, f128) -> f128>(p)(x, n as f128) };
    v[0] = range128(o, r, 0);
}
fn r_cmpb(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let un = f.is_nan(a[0]) || f.is_nan(a[1]);
    let c = f.ord(a[0]).cmp(&f.ord(a[1]));
    let t = match &o.op[5..] {
        "unord" => un,
        "ne" => un || c != Ordering::Equal,
        "eq" => !un && c == Ordering::Equal,
        "lt" => !un && c == Ordering::Less,
        "ge" => !un && c != Ordering::Less,
        "le" => !un && c != Ordering::Greater,
        "gt" => !un && c == Ordering::Greater,
        _ => panic!(),
    };
    v[0] = V::Bits(3 * t as u128);
}
fn r_convert(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let g = Fmt::of(o.sig.r[0]).unwrap();
    v[0] = match fp::convert(a[0], o.f, g) {
        Some(b) => V::Bits(b),
        None => V::Nan,
    };
}
fn r_itof(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let c = o.sig.a[0];
    let x = canon(a[0], c);
    let neg = iw(c).1 && (x as i128) < 0;
    v[0] = V::Bits(fp::from_int(neg, if neg { x.wrapping_neg() } else { x }, o.f));
}
fn r_ftoi(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let c = o.sig.r[0];
    let (w, s) = iw(c);
    let (lo, hi) = if s {
        (1u128 << (w - 1), (1u128 << (w - 1)) - 1)
    } else {
        (0, if w == 128 { !0 } else { (1 << w) - 1 })
    };
    let (neg, m) = fp::to_int(a[0], o.f, lo, hi);
    v[0] = V::Bits(canon(if neg { m.wrapping_neg() } else { m }, c));
}
fn r_powi(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let n = a[1] as u32 as i32;
    if f.is_nan(a[0]) {
        v[0] = if n == 0 { V::Bits(f.one()) } else { V::Nan };
        return;
    }
    let recip = n < 0;
    let mut k = n.unsigned_abs();
    let (mut x, mut r) = (a[0], f.one());
    let mut exact = true;
    let mut range = false; // an intermediate left the normal range
    let mut mulx = |x: u128, y: u128| -> u128 {
        let p = if f.w == 64 {
            (f64::from_bits(x as u64) * f64::from_bits(y as u64)).to_bits() as u128
        } else if f.w == 32 {
            (f32::from_bits(x as u32) * f32::from_bits(y as u32)).to_bits() as u128
        } else {
            fp::mul(x, y, f).unwrap_or(f.nan())
        };
        if exact && f.is_fin(x) && f.is_fin(y) && !f.is_zero(x) && !f.is_zero(y) {
            let (_, mx, _) = f.dec(x);
            let (_, my, _) = f.dec(y);
            let bits = Big::from(mx).mul(&Big::from(my));
            let tz = mx.trailing_zeros() + my.trailing_zeros();
            if bits.bits() - tz > f.p + 1 {
                exact = false;
            }
        }
        if f.is_fin(x) && f.is_fin(y) && !f.is_zero(x) && !f.is_zero(y) && (!f.is_fin(p) || f.abs(p) < 1u128 << f.p) {
            range = true;
        }
        p
    };
    while k > 0 {
        if k & 1 == 1 {
            r = mulx(r, x);
        }
        k >>= 1;
        if k > 0 {
            x = mulx(x, x);
        }
    }
    let mut e = r;
    if recip {
        e = fp::div(f.one(), r, f).unwrap_or(f.nan());
        let (_, m, _) = f.dec(r);
        if f.is_fin(r) && !f.is_zero(r) && m & (m - 1) != 0 {
            exact = false;
        }
        if f.is_fin(r) && !f.is_zero(r) && (!f.is_fin(e) || f.abs(e) < 1u128 << f.p) {
            range = true;
        }
    }
    if f.is_nan(e) {
        v[0] = V::Nan;
        return;
    }
    let sgn = if f.neg(e) { -1 } else { 1 };
    let special_base = !f.is_fin(a[0]) || f.is_zero(a[0]);
    if special_base || (exact && !range) {
        v[0] = V::Bits(e);
    } else {
        let m = n.unsigned_abs() as i128;
        let d = 2 * m + 8;
        // the whole relative-error bound is meaningless once it reaches one binade
        if d > 1i128 << (f.p.min(100) - 2) {
            v[0] = V::Range(if sgn < 0 { -(f.inf() as i128) } else { 0 }, if sgn < 0 { 0 } else { f.inf() as i128 }, sgn);
        } else if range {
            // result left the normal range somewhere: allow the bound plus two binades at the ends
            let a = f.abs(e) as i128;
            let pad = d + (if f.is_inf(e) || a < (64i128 << f.p) { 64i128 << f.p } else { d });
            let (lo, hi) = ((a - pad).max(0), a.saturating_add(pad).min(f.inf() as i128));
            v[0] = if sgn < 0 { V::Range(-hi, -lo, -1) } else { V::Range(lo, hi, 1) };
        } else {
            let c = f.ord(e);
            v[0] = V::Range((c.saturating_sub(d)).max(-(f.inf() as i128)), (c.saturating_add(d)).min(f.inf() as i128), sgn);
        }
    }
}

// ------------------------------------------------------------------ exact math
fn how(op: &str) -> Ri {
    match op {
        "ceil" | "ceil_st" => Ri::Ceil,
        "floor" | "floor_st" => Ri::Floor,
        "trunc" | "trunc_st" => Ri::Trunc,
        "round" => Ri::Away,
        _ => Ri::Even,
    }
}
fn r_rint(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    match fp::rint(a[0], o.f, how(&o.op)) {
        None => {
            v[0] = V::Nan;
            v[1] = V::Any;
        }
        Some((b, ix)) => {
            v[0] = V::Bits(b);
            v[1] = V::Bits(if ix { 16 } else { 0 });
        }
    }
}
fn r_sqrt(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    v[0] = if f.is_nan(a[0]) || (f.neg(a[0]) && !f.is_zero(a[0])) {
        V::Nan
    } else if f.w == 32 {
        V::Bits(f32::from_bits(a[0] as u32).sqrt().to_bits() as u128)
    } else if f.w == 64 {
        V::Bits(f64::from_bits(a[0] as u64).sqrt().to_bits() as u128)
    } else if f.is_zero(a[0]) || f.is_inf(a[0]) {
        V::Bits(a[0])
    } else {
        // integer square root, one bit at a time
        let (_, mut m, mut e) = f.dec(a[0]);
        let sh = m.leading_zeros() - 12; // m in [2^115, 2^116)
        m <<= sh;
        e -= sh as i32;
        if e & 1 != 0 {
            m <<= 1;
            e -= 1;
        }
        let (mut root, mut rem) = (0u128, 0u128);
        let n = (f.p + 4).max(10);
        // consume m two bits at a time from bit 117 down, then zeros
        for i in 0..n as i32 {
            let pos = 116 - 2 * i;
            let two = if pos >= 0 { m >> pos & 3 } else { 0 };
            rem = rem << 2 | two;
            let t = root << 2 | 1;
            root <<= 1;
            if rem >= t {
                rem -= t;
                root |= 1;
            }
        }
        let left = 116 - 2 * (n as i32 - 1);
        let st = rem != 0 || (left > 0 && m & ((1u128 << left) - 1) != 0);
        // root^2 ~ m * 2^-left ; value exponent
        V::Bits(round(false, &Big::from(root), ((e + left) / 2) as i64, st, f))
    };
}
fn r_fma(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = match fp::fma(a[0], a[1], a[2], o.f) {
        Some(b) => V::Bits(b),
        None => V::Nan,
    };
}
fn r_fdim(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    v[0] = if f.is_nan(a[0]) || f.is_nan(a[1]) {
        V::Nan
    } else if f.ord(a[0]) > f.ord(a[1]) {
        match fp::add(a[0], a[1] ^ f.sign(), f) {
            Some(b) => V::Bits(b),
            None => V::Nan,
        }
    } else {
        V::Bits(0)
    };
}
fn r_cbrt(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    if f.is_nan(a[0]) {
        v[0] = V::Nan;
        return;
    }
    if f.is_inf(a[0]) || f.is_zero(a[0]) {
        v[0] = V::Bits(a[0]);
        return;
    }
    // integer cube root of m * 2^e with enough bits: start from the double estimate and correct
    let (neg, m, e) = f.dec(a[0]);
    // want k bits of root: scale x = m*2^e = M * 2^(3t), M ~ 2^(3*58)
    let bl = 128 - m.leading_zeros() as i64;
    let mut s = 3 * 57 - bl; // shift left
    let mut t = e as i64 - s;
    while t.rem_euclid(3) != 0 {
        s += 1;
        t -= 1;
    }
    let mm = Big::from(m).shl(s as u32);
    // estimate
    let top = mm.bits() - 60;
    let est = (mm.shr(top).0.low() as f64).cbrt() * (top as f64 / 3.0).exp2();
    let mut r = est as u128;
    let cube = |r: u128| Big::from(r).mul(&Big::from(r)).mul(&Big::from(r));
    // r around 2^57..2^58, double estimate off by up to ~2^6
    while cube(r).cmp(&mm) == Ordering::Greater {
        r -= 1;
    }
    while cube(r + 1).cmp(&mm) != Ordering::Greater {
        r += 1;
    }
    let st = cube(r) != mm;
    let b = round(neg, &Big::from(r), t / 3, st, f);
    v[0] = V::Bits(b);
    if o.op == "cbrt_rx" {
        let c = f.ord(b);
        v[0] = V::Range(c - 1, c + 1, if neg { -1 } else { 1 });
    }
}
fn r_hypot(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let (x, y) = (f.abs(a[0]), f.abs(a[1]));
    if f.is_inf(x) || f.is_inf(y) {
        v[0] = V::Bits(f.inf());
        if f.is_snan(a[0]) || f.is_snan(a[1]) {
            v[0] = V::Any;
        }
        return;
    }
    if f.is_nan(x) || f.is_nan(y) {
        v[0] = V::Nan;
        return;
    }
    let (x, y) = if x < y { (y, x) } else { (x, y) };
    if y == 0 {
        v[0] = V::Bits(x);
        return;
    }
    let (_, mx, ex) = f.dec(x);
    let (_, my, ey) = f.dec(y);
    let gap = (ex as i64 - ey as i64) as i64;
    // exact x^2 + y^2 = M * 2^(2 e); a far smaller y only matters as a sticky bit
    let (m2, e2) = if gap > 130 {
        (Big::from(mx).mul(&Big::from(mx)).shl(260).add(&Big::from(1)), 2 * (ex as i64 - 130))
    } else {
        (
            Big::from(mx).mul(&Big::from(mx)).shl(2 * gap as u32).add(&Big::from(my).mul(&Big::from(my))),
            2 * ey as i64,
        )
    };
    // integer square root of M scaled to about 120 bits
    let bl = m2.bits() as i64;
    let mut sh = 2 * 60 - bl; // target M' ~ 2^120
    if sh & 1 != 0 {
        sh += 1;
    }
    let (mm, lost) = if sh >= 0 { (m2.shl(sh as u32), false) } else { m2.shr((-sh) as u32) };
    let e2 = e2 - sh;
    let mv = mm.low();
    let mut r = (mv as f64).sqrt() as u128;
    while r * r > mv {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= mv {
        r += 1;
    }
    let st = lost || r * r != mv;
    let b = round(false, &Big::from(r), e2 / 2, st, f);
    let c = f.ord(b);
    v[0] = if o.op == "hypot_rx" || f.w == 32 {
        V::Range(c - 1, (c + 1).min(f.inf() as i128), 1)
    } else {
        V::Bits(b)
    };
}
fn r_fmod(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = match fp::fmod(a[0], a[1], o.f) {
        Some(b) => V::Bits(b),
        None => V::Nan,
    };
}
fn r_remainder(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    match fp::remquo(a[0], a[1], o.f) {
        Some((b, q, qneg)) => {
            v[0] = V::Bits(b);
            if o.op == "remquo" {
                // sign and low three bits; checked as a masked value by `quo_ok`
                v[1] = V::Acc(q as u128 | (qneg as u128) << 8);
            }
        }
        None => {
            v[0] = V::Nan;
            v[1] = V::Any;
        }
    }
}
fn r_scalbn(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = match fp::scalb(a[0], a[1] as u32 as i32, o.f) {
        Some(b) => V::Bits(b),
        None => V::Nan,
    };
}
fn r_frexp(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    if f.is_nan(a[0]) {
        v[0] = V::Nan;
        v[1] = V::Any;
        return;
    }
    if f.is_inf(a[0]) || f.is_zero(a[0]) {
        v[0] = V::Bits(a[0]);
        v[1] = if f.is_inf(a[0]) { V::Any } else { V::Bits(0) };
        return;
    }
    let (neg, m, e) = f.dec(a[0]);
    let bl = 128 - m.leading_zeros() as i32;
    v[0] = V::Bits(round(neg, &Big::from(m), -bl as i64, false, f));
    v[1] = V::Bits((e + bl) as i128 as u128);
}
fn r_ilogb(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let r: i32 = if f.is_nan(a[0]) || f.is_zero(a[0]) {
        i32::MIN
    } else if f.is_inf(a[0]) {
        i32::MAX
    } else {
        let (_, m, e) = f.dec(a[0]);
        e + 127 - m.leading_zeros() as i32
    };
    v[0] = V::Bits(r as i128 as u128);
}
fn r_modf(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    if f.is_nan(a[0]) {
        v[0] = V::Nan;
        v[1] = V::Nan;
        return;
    }
    let s = a[0] & f.sign();
    if f.is_inf(a[0]) {
        v[0] = V::Bits(s);
        v[1] = V::Bits(a[0]);
        return;
    }
    let t = fp::rint(a[0], f, Ri::Trunc).unwrap().0;
    let fr = fp::add(a[0], t ^ f.sign(), f).unwrap();
    v[0] = V::Bits(f.abs(fr) | s);
    v[1] = V::Bits(f.abs(t) | s);
}
fn r_nextafter(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    if f.is_nan(a[0]) || f.is_nan(a[1]) {
        v[0] = V::Nan;
        return;
    }
    let (x, y) = (f.ord(a[0]), f.ord(a[1]));
    v[0] = V::Bits(if x == y {
        a[1]
    } else {
        let n = if x < y { x + 1 } else { x - 1 };
        if n == 0 { a[0] & f.sign() } else { f.unord(n) }
    });
}
fn r_fabs(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    v[0] = V::Bits(o.f.abs(a[0]));
}
fn r_copysign(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let m = o.f.abs(a[0]);
    v[0] = if exact() && o.f.is_nan(a[1]) {
        // the multiprecision library does not carry the sign of a NaN
        V::Either(m, m | o.f.sign())
    } else {
        V::Bits(m | (a[1] & o.f.sign()))
    };
}
fn r_minmax(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let max = o.op.starts_with("fmax");
    let (n0, n1) = (f.is_nan(a[0]), f.is_nan(a[1]));
    let prop = o.op.ends_with("imum");
    v[0] = if n0 && n1 || prop && (n0 || n1) {
        V::Nan
    } else if n0 || n1 {
        let other = if n0 { a[1] } else { a[0] };
        V::Bits(other)
    } else if f.is_zero(a[0]) && f.is_zero(a[1]) {
        if o.op.len() <= 4 {
            // order of zeros is unspecified for fmin/fmax, but the result is one of the operands
            V::Either(a[0], a[1])
        } else if max {
            V::Bits(a[0] & a[1])
        } else {
            V::Bits(a[0] | a[1])
        }
    } else if (f.ord(a[0]) < f.ord(a[1])) != max {
        V::Bits(a[0])
    } else {
        V::Bits(a[1])
    };
}

// ------------------------------------------------------------------ accuracy
pub fn call64(p: usize, nargs: &[u8], a: &[u128]) -> (f64, i32) {
    unsafe {
        let g = |i: usize| match nargs[i] {
            b's' => f32::from_bits(a[i] as u32) as f64,
            _ => f64::from_bits(a[i] as u64),
        };
        match nargs {
            [b'i', _] => (std::mem::transmute::<usize, extern "C" fn(i32, f64) -> f64>(p)(a[0] as u32 as i32, g(1)), 0),
            [_] => (std::mem::transmute::<usize, extern "C" fn(f64) -> f64>(p)(g(0)), 0),
            _ => (std::mem::transmute::<usize, extern "C" fn(f64, f64) -> f64>(p)(g(0), g(1)), 0),
        }
    }
}
pub fn call128(p: usize, nargs: &[u8], a: &[u128]) -> f128 {
    unsafe {
        let g = |i: usize| match nargs[i] {
            b's' => f32::from_bits(a[i] as u32) as f128,
            _ => f64::from_bits(a[i] as u64) as f128,
        };
        match nargs {
            [b'i', _] => std::mem::transmute::<usize, extern "C" fn(i32, f128) -> f128>(p)(a[0] as u32 as i32, g(1)),
            [_] => std::mem::transmute::<usize, extern "C" fn(f128) -> f128>(p)(g(0)),
            _ => std::mem::transmute::<usize, extern "C" fn(f128, f128) -> f128>(p)(g(0), g(1)),
        }
    }
}

/// Range of acceptable results for a 113-bit reference value.
pub fn range128(o: &OpRef, r: f128, tol: i128) -> V {
    let b = r.to_bits();
    if Q.is_nan(b) {
        return V::Nan;
    }
    let f = o.f;
    let sgn = if Q.neg(b) { -1 } else { 1 };
    if Q.is_inf(b) || Q.is_zero(b) {
        return V::Bits(fp::convert(b, Q, f).unwrap());
    }
    let slack = 1i128 << 14;
    let c = Q.ord(b);
    let clampq = |o: i128| o.clamp(-(Q.inf() as i128) + 1, Q.inf() as i128 - 1);
    let lo = f.ord(fp::convert(Q.unord(clampq(c - slack)), Q, f).unwrap());
    let hi = f.ord(fp::convert(Q.unord(clampq(c + slack)), Q, f).unwrap());
    let m = f.inf() as i128;
    V::Range((lo - tol).max(-m), (hi + tol).min(m), sgn)
}
fn range64(o: &OpRef, r: f64, tol: i128) -> V {
    // single-precision result from a double reference
    if r.is_nan() {
        return V::Nan;
    }
    let f = o.f;
    if r.is_infinite() || r == 0.0 {
        return V::Bits((r as f32).to_bits() as u128);
    }
    let sgn = if r < 0.0 { -1 } else { 1 };
    let d = 256; // 256 double ulps of slack
    let c = D.ord(r.to_bits() as u128);
    let m = D.inf() as i128;
    let lo = f64::from_bits(D.unord((c - d).max(-m)) as u64) as f32;
    let hi = f64::from_bits(D.unord((c + d).min(m)) as u64) as f32;
    let m = f.inf() as i128;
    V::Range((f.ord(lo.to_bits() as u128) - tol).max(-m), (f.ord(hi.to_bits() as u128) + tol).min(m), sgn)
}

fn special(f: Fmt, b: u128) -> bool {
    !f.is_fin(b) || f.is_zero(b)
}
fn is_bessel(op: &str) -> bool {
    matches!(op, "j0" | "j1" | "jn" | "y0" | "y1" | "yn")
}

fn r_acc(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let na = &o.sig.a;
    let x = a[if na[0] == b'i' { 1 } else { 0 }];
    // pow and hypot map some NaN operands to numbers; a signaling NaN may or may not
    if o.op == "pow" && (f.is_snan(a[0]) || f.is_snan(a[1])) {
        v[0] = V::Any;
        return;
    }
    if o.op == "lgamma_r" {
        v[1] = V::Any;
        if !f.is_nan(x) && !f.is_inf(x) {
            if f.is_zero(x) {
                v[1] = V::Bits(if f.neg(x) { -1i128 as u128 } else { 1 });
            } else if !f.neg(x) {
                v[1] = V::Bits(1);
            } else if !f.is_int(x) {
                let fl = fp::rint(x, f, Ri::Floor).unwrap().0;
                v[1] = V::Bits(if f.is_odd(fl) { -1i128 as u128 } else { 1 });
            }
        }
    }
    if is_bessel(&o.op) {
        r_bessel(o, a, v);
        return;
    }
    if o.op == "sincos" {
        let mut w = [V::Any; 3];
        acc_one(o, a, o.f64fn, o.f128fn, &mut w[0]);
        acc_one(o, a, o.f64b, o.f128b, &mut w[1]);
        v[0] = w[0];
        v[1] = w[1];
        return;
    }
    acc_one(o, a, o.f64fn, o.f128fn, &mut v[0]);
}

fn acc_one(o: &OpRef, a: &[u128], p64: usize, p128: usize, v: &mut V) {
    let f = o.f;
    let na = &o.sig.a;
    let (g, _) = call64(p64, na, a);
    if g.is_nan() {
        *v = V::Nan;
        return;
    }
    let anyspecial = a.iter().any(|&x| special(f, x));
    if anyspecial && (g.is_infinite() || g == 0.0) {
        *v = V::Bits(if f.w == 32 { (g as f32).to_bits() as u128 } else { g.to_bits() as u128 });
        return;
    }
    if exact() {
        *v = range128(o, call128(p128, na, a), 0);
        return;
    }
    let tol = tol_at(o, a, g);
    if tol < 0 {
        // near a zero of the function only absolute accuracy can be expected
        *v = V::Any;
        let r = call128(p128, na, a);
        if tol == -1 && Q.is_fin(r.to_bits()) {
            let eps = if f.w == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
            let d = (256.0 * eps * (r as f64).abs().max(1.0)) as f128;
            let g = |v: f128| f.ord(fp::convert(v.to_bits(), Q, f).unwrap());
            *v = V::Range(g(r - d), g(r + d), 0);
        }
        return;
    }
    if f.w == 32 {
        *v = range64(o, g, tol);
        if g == 0.0 || g.is_infinite() || (g.abs() < 1e-300) {
            // the double result itself under/overflowed: decide with the wide reference
            *v = range128(o, call128(p128, na, a), tol);
        }
        return;
    }
    if o.fast && !anyspecial {
        *v = V::Acc(g.to_bits() as u128);
        return;
    }
    *v = range128(o, call128(p128, na, a), tol);
}

/// Declared tolerance in representable values; negative = lgamma next to its negative zeros (-1) or at its overflow limit (-2).
pub fn tol_at(o: &OpRef, a: &[u128], g: f64) -> i128 {
    if o.op.starts_with("lgamma") {
        let x = if o.f.w == 32 { f32::from_bits(a[0] as u32) as f64 } else { f64::from_bits(a[0] as u64) };
        let lim = if o.f.w == 32 { -13.0625 } else { -32.0 };
        if x > lim && x < -2.0 && (g.abs() < 1.0 || (x - x.round()).abs() < 0.02) {
            return -1;
        }
        if o.f.w == 32 && a[0] as u32 == 4.0850034e36f32.to_bits() {
            return -2;
        }
    }
    o.tol
}

/// Bound relative to the larger of the value and the amplitude of the oscillation around it, where
/// that amplitude is known: 16 units of the format's precision for orders 0 and 1, 32 n for order n.
fn bessel_near(f: Fmt, n: u32, x: u128, r: f128) -> Option<(i128, i128)> {
    let xa = if f.w == 32 { f32::from_bits(f.abs(x) as u32) as f64 } else { f64::from_bits(f.abs(x) as u64) };
    if n > 80 || !(1e-300..1.0995e12).contains(&xa) {
        return None;
    }
    let env = (2.0 / (std::f64::consts::PI * xa)).sqrt();
    let rr = (r as f64).abs();
    let scale = match n {
        0 | 1 => rr.max(env.min(0.5)),
        _ if xa > n as f64 => rr.max(env),
        _ => rr,
    };
    let (eps, small, big) = if f.w == 32 { (f32::EPSILON as f64, 1e-34, 1e37) } else { (f64::EPSILON, 1e-300, 1e306) };
    if !(small..big).contains(&scale) {
        return None;
    }
    let d = (if n < 2 { 16.0 } else { 32.0 * n as f64 }) * eps * scale;
    let g = |v: f128| f.ord(fp::convert(v.to_bits(), Q, f).unwrap());
    Some((g(r - d as f128), g(r + d as f128)))
}

fn r_bessel(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    let f = o.f;
    let (n, x) = if o.op.ends_with('n') { (a[0] as u32 as i32, a[1]) } else { ((o.op.as_bytes()[1] - b'0') as i32, a[0]) };
    let second = o.op.starts_with('y');
    if f.is_nan(x) {
        v[0] = V::Nan;
        return;
    }
    if f.is_inf(x) {
        v[0] = if second && f.neg(x) { V::Any } else { V::Zero };
        return;
    }
    if f.is_zero(x) {
        v[0] = if second {
            V::AnyInf
        } else if n == 0 {
            V::Bits(f.one())
        } else {
            V::Zero
        };
        return;
    }
    if second && f.neg(x) {
        v[0] = if o.op == "yn" { V::Any } else { V::Nan };
        return;
    }
    v[0] = V::Acc(0);
    if exact() {
        // the reference itself is only good relative to the amplitude of the oscillation
        let r = call128(o.f128fn, &o.sig.a, a);
        let xa = (if f.w == 32 { f32::from_bits(f.abs(x) as u32) as f64 } else { f64::from_bits(f.abs(x) as u64) }) as f128;
        let env = (0.7 / (xa as f64).sqrt()) as f128;
        let m = n.unsigned_abs().max(1);
        let d = (if xa < m as f128 { r.abs() } else { r.abs().max(env) }) * 2f128.powi(-90) * m as f128;
        if !Q.is_fin(r.to_bits()) || r.abs() < 1e-4000 {
            v[0] = V::Any;
            return;
        }
        let g = |v: f128| f.ord(fp::convert(v.to_bits(), Q, f).unwrap());
        v[0] = V::Range(g(r - d), g(r + d), 0);
        return;
    }
    let tol = if o.op.ends_with('n') && n.unsigned_abs() > 140 {
        v[0] = V::Any;
        return;
    } else if n.unsigned_abs() > 80 {
        10_000_000
    } else {
        o.tol
    };
    let r = call128(o.f128fn, &o.sig.a, a);
    let b = r.to_bits();
    if Q.is_inf(b) {
        v[0] = V::Any;
        return;
    }
    v[0] = match range128(o, r, tol) {
        V::Range(l, h, _) => V::Range(l, h, 0),
        V::Bits(_) => V::Zero,
        w => w,
    };
    if let (V::Range(l, h, _), Some((nl, nh))) = (v[0], bessel_near(f, n.unsigned_abs(), x, r)) {
        v[0] = V::Range(l.max(nl), h.min(nh), 0);
    }
    if o.op == "ynf" && n > 200 {
        v[0] = V::Any;
    }
}

// ------------------------------------------------------------------ wide integers
fn b256(lo: u128, hi: u128) -> Big {
    Big::from(lo).add(&Big::from(hi).shl(128))
}
fn put256(b: &Big, v: &mut [V; 3]) {
    v[0] = V::Bits(b.hi128(0));
    v[1] = V::Bits(b.hi128(2));
}
/// Memory routines of another target (harness/sut32/src/mems.rs): two arenas filled from the seed,
/// one call, a digest of both.
fn r_mem(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    const N: usize = 1024;
    let seed = a[3] as u64;
    let fill = |mut s: u64| -> Vec<u8> {
        (0..N)
            .map(|_| {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (s >> 56) as u8
            })
            .collect()
    };
    let digest = |b: &[u8]| {
        b.iter().fold(0xcbf29ce484222325u64, |h, &x| {
            let h = (h ^ x as u64).wrapping_mul(0x100000001b3);
            h ^ h >> 29
        })
    };
    let off = |x: u128| 64 + (x as u32 % 256) as usize;
    let (n, d, s) = ((a[0] as u32 % 513) as usize, off(a[1]), off(a[2]));
    let (mut x, y) = (fill(seed), fill(!seed));
    match o.op.as_str() {
        "m_memcpy" => x[d..d + n].copy_from_slice(&y[s..s + n]),
        "m_memmove" => x.copy_within(s..s + n, d),
        "m_memset" => x[d..d + n].fill(a[2] as u8),
        "m_memcmp" | "m_bcmp" => {
            let k = (seed as u32) as usize % (n + 1);
            let t = if k < n { x[d + k] ^ (seed >> 56) as u8 } else { 0 };
            let c = if k < n { (x[d + k] as i32 - t as i32).signum() } else { 0 };
            v[0] = V::Bits((if o.op == "m_bcmp" { c.abs() } else { c }) as i128 as u128);
            return;
        }
        "m_strlen" => {
            v[0] = V::Bits(n as u128);
            return;
        }
        _ => return,
    }
    v[0] = V::Bits((digest(&x) ^ digest(&y).rotate_left(17)) as u128);
    v[1] = V::Bits(0);
}
fn r_wide(o: &OpRef, a: &[u128], v: &mut [V; 3]) {
    match o.op.as_str() {
        "w_add" => put256(&b256(a[0], a[1]).add(&b256(a[2], a[3])), v),
        "w_sub" => put256(&b256(a[0], a[1]).sub(&b256(a[2], a[3])), v),
        "w_shl" | "w_sshl" => {
            let s = a[2] as u32;
            put256(&b256(a[0], a[1]).shl(s), v)
        }
        "w_shr" => put256(&b256(a[0], a[1]).shr(a[2] as u32).0, v),
        "w_sar" => {
            let s = a[2] as u32;
            let x = b256(a[0], a[1]);
            let mut r = x.shr(s).0;
            if (a[1] as i128) < 0 && s > 0 {
                let ones = b256(!0, !0).sub(&b256(!0, !0).shr(s).0);
                r = r.add(&ones);
            }
            put256(&r, v)
        }
        "w_or" => {
            v[0] = V::Bits(a[0] | a[2]);
            v[1] = V::Bits(a[1] | a[3]);
        }
        "w_not" => {
            v[0] = V::Bits(!a[0]);
            v[1] = V::Bits(!a[1]);
        }
        "w_cmp" => {
            let c = b256(a[0], a[1]).cmp(&b256(a[2], a[3])) as i32;
            v[0] = V::Bits(c as i128 as u128);
        }
        "w_mul" | "w_zmul" => put256(&Big::from(a[0]).mul(&Big::from(a[1])), v),
        "w_mul64" => v[0] = V::Bits((a[0] as u64 as u128) * (a[1] as u64 as u128)),
        "w_mul32" => v[0] = V::Bits((a[0] as u32 as u128) * (a[1] as u32 as u128)),
        "w_smul64" => v[0] = V::Bits(((a[0] as u64 as i64 as i128) * (a[1] as u64 as i64 as i128)) as u128),
        "w_ndiv" | "w_ndiv128" | "w_ndiv64" => {
            let (n, d, w) = match o.op.as_str() {
                "w_ndiv" => (b256(a[0], a[1]), a[2], 128),
                "w_ndiv128" => (Big::from(a[0]), a[1] as u64 as u128, 64),
                _ => (Big::from(a[0] as u64 as u128), a[1] as u32 as u128, 32),
            };
            let hi = n.shr(w).0.low();
            if d == 0 || hi >= d {
                *v = [V::Bits(0), V::Bits(0), V::Bits(0)];
                return;
            }
            // bit-serial division
            let mut rem = hi;
            let mut q = 0u128;
            for i in (0..w).rev() {
                let bit = n.shr(i).0.0[0] & 1;
                let carry = rem >> 127;
                rem = rem << 1 | bit as u128;
                q <<= 1;
                if carry == 1 || rem >= d {
                    rem = rem.wrapping_sub(d);
                    q |= 1;
                }
            }
            *v = [V::Bits(q), V::Bits(rem), V::Bits(1)];
        }
        "w_modpow" => {
            let c = o.sig.r[0];
            let (x, e, y) = (canon(a[0], c), a[1] as u32, canon(a[2], c));
            // x * 2^e mod y
            let r = mulmod_any(x % y, pow2mod_any(e as u64, y), y);
            v[0] = V::Bits(r);
        }
        _ => panic!("wide op"),
    }
}
fn mulmod_any(mut a: u128, mut b: u128, m: u128) -> u128 {
    // m <= 2^126
    let mut r = 0u128;
    a %= m;
    while b != 0 {
        if b & 1 == 1 {
            r = (r + a) % m;
        }
        a = (a << 1) % m;
        b >>= 1;
    }
    r
}
fn pow2mod_any(mut n: u64, m: u128) -> u128 {
    let mut r = 1 % m;
    let mut b = 2 % m;
    while n > 0 {
        if n & 1 == 1 {
            r = mulmod_any(r, b, m);
        }
        b = mulmod_any(b, b, m);
        n >>= 1;
    }
    r
}

// ------------------------------------------------------------------ dispatch
impl OpRef {
    pub fn new(op: &str, sig: &str) -> OpRef {
        let s = Sig::parse(sig);
        let f = s.a.iter().chain(s.r.iter()).find_map(|&c| Fmt::of(c)).unwrap_or(D);
        let single = f.w == 32;
        let (kind, tol, fast): (Option<RefFn>, i128, bool) = match op {
            "iadd" | "iaddo" => (Some(r_iadd as RefFn), 0, false),
            "isub" | "isubo" => (Some(r_isub), 0, false),
            "imul" | "imulo" => (Some(r_imul), 0, false),
            "idiv" => (Some(r_idiv), 0, false),
            "irem" => (Some(r_irem), 0, false),
            "idivrem" => (Some(r_idivrem), 0, false),
            "ishl" => (Some(r_ishl), 0, false),
            "ishr" => (Some(r_ishr), 0, false),
            "clz" => (Some(r_clz), 0, false),
            "ctz" => (Some(r_ctz), 0, false),
            "bswap" => (Some(r_bswap), 0, false),
            "add" => (Some(r_add), 0, false),
            "sub" => (Some(r_sub), 0, false),
            "mul" => (Some(r_mul), 0, false),
            "div" => (Some(r_div), 0, false),
            "extend" | "narrow" => (Some(r_convert), 0, false),
            "itof" => (Some(r_itof), 0, false),
            "ftoi" => (Some(r_ftoi), 0, false),
            "powi" => (Some(r_powi), 0, false),
            "ceil" | "floor" | "trunc" | "round" | "rint" | "roundeven" | "ceil_st" | "floor_st" | "trunc_st" | "rint_st" => {
                (Some(r_rint), 0, false)
            }
            "sqrt" => (Some(r_sqrt), 0, false),
            "fma" | "fma_wide" => (Some(r_fma), 0, false),
            "fdim" => (Some(r_fdim), 0, false),
            "cbrt" | "cbrt_rx" => (Some(r_cbrt), 0, false),
            "hypot" | "hypot_rx" => (Some(r_hypot), 0, false),
            "fmod" => (Some(r_fmod), 0, false),
            "remainder" | "remquo" => (Some(r_remainder), 0, false),
            "scalbn" | "ldexp" => (Some(r_scalbn), 0, false),
            "frexp" => (Some(r_frexp), 0, false),
            "ilogb" => (Some(r_ilogb), 0, false),
            "modf" => (Some(r_modf), 0, false),
            "nextafter" => (Some(r_nextafter), 0, false),
            "fabs" => (Some(r_fabs), 0, false),
            "copysign" => (Some(r_copysign), 0, false),
            "fmin" | "fmax" | "fminimum" | "fmaximum" | "fminimum_num" | "fmaximum_num" => (Some(r_minmax), 0, false),
            "acos" | "asin" | "atan" | "cos" | "erf" | "exp" | "exp2" | "expm1" | "log" | "log1p" | "log2" | "pow" | "sin"
            | "tan" => (Some(r_acc), 1, true),
            "sincos" => (Some(r_acc), 1, true),
            "cosh" | "log10" => (Some(r_acc), 1, false),
            "asinh" | "atan2" | "atanh" | "sinh" | "tanh" => (Some(r_acc), 2, true),
            "acosh" => (Some(r_acc), 4, true),
            "erfc" => (Some(r_acc), 4, false),
            "lgamma" | "lgamma_r" => (Some(r_acc), 4, false),
            "exp10" => (Some(r_acc), 6, true),
            "tgamma" => (Some(r_acc), if single { 1 } else { 20 }, true),
            "j0" | "j1" | "jn" | "y0" | "y1" | "yn" => (Some(r_acc), 8_000_000, false),
            x if x.starts_with("cmpb_") => (Some(r_cmpb), 0, false),
            x if x.starts_with("cmp_") => (Some(r_cmp), 0, false),
            x if x.starts_with("m_") => (Some(r_mem), 0, false),
            x if x.starts_with("w_") => (Some(r_wide), 0, false),
            _ => (None, 0, false),
        };
        let mut tol = tol;
        let mut kind = kind;
        if exact() {
            tol = 0;
            if op == "powi" {
                kind = if f.w == 128 { None } else { Some(r_powi_exact) };
            }
        }
        let base = if op == "lgamma_r" { "lgamma" } else { op };
        let (mut p64, mut p128, mut b64, mut b128) = (0, 0, 0, 0);
        if kind.map(|k| k as usize) == Some(r_acc as RefFn as usize) {
            let n = if op == "sincos" { "sin" } else { base };
            p64 = dl::f64fn(n);
            p128 = dl::f128fn(n);
            b64 = dl::f64fn("cos");
            b128 = dl::f128fn("cos");
        }
        OpRef { op: op.into(), sig: s, f, kind, f64fn: p64, f128fn: p128, f64b: b64, f128b: b128, tol, fast }
    }

    /// Arguments on which the multiprecision Bessel functions need minutes.
    pub fn costly(&self, a: &[u128]) -> bool {
        if !matches!(&*self.op, "jn" | "yn") || !self.f.is_fin(a[1]) {
            return false;
        }
        let n = a[0] as u32 as i32;
        let x = f64::from_bits(fp::convert(self.f.abs(a[1]), self.f, D).unwrap() as u64);
        n.unsigned_abs() > 300 || (n < 0 || n > 60) && x > 1500.0
    }
    pub fn expect(&self, a: &[u128], v: &mut [V; 3]) {
        *v = [V::Any; 3];
        if let Some(k) = self.kind {
            k(self, a, v)
        }
        if exact() {
            // one NaN stands for all of them
            for i in 0..self.sig.r.len() {
                let f = Fmt::of(self.sig.r[i]);
                v[i] = match (v[i], f) {
                    (V::Bits(b) | V::Either(b, _), Some(f)) if f.is_nan(b) => V::Nan,
                    (V::Qnan, _) => V::Nan,
                    (w, _) => w,
                };
            }
        }
    }

    /// Decide one observed result vector. `v` may be refined in place.
    pub fn check(&self, a: &[u128], v: &mut [V; 3], res: &[u128]) -> Result<(), usize> {
        for i in 0..self.sig.r.len() {
            let f = Fmt::of(self.sig.r[i]).unwrap_or(self.f);
            let r = res[i];
            if let V::Acc(g) = v[i] {
                if self.op == "remquo" {
                    let q = r as i128 as i64;
                    let neg = g >> 8 & 1 == 1;
                    let low = g & 7;
                    let ok = (q.unsigned_abs() & 7) as u128 == low && (q == 0 || (q < 0) == neg);
                    if !ok {
                        return Err(i);
                    }
                    continue;
                }
                if r == g {
                    continue;
                }
                let tol = tol_at(self, a, f64::from_bits(g as u64));
                let p = if i == 1 { self.f128b } else { self.f128fn };
                v[i] = range128(self, call128(p, &self.sig.a, a), tol);
            }
            if let V::Bits(b) = v[i] {
                // passing through a register of the x87 unit quiets a NaN
                if ANYNAN.load(std::sync::atomic::Ordering::Relaxed) && Fmt::of(self.sig.r[i]).is_some() && f.is_nan(b) && r == b | 1 << (f.p - 1) {
                    continue;
                }
            }
            if !ok(v[i], r, f) {
                return Err(i);
            }
        }
        Ok(())
    }
}

pub fn ok(v: V, r: u128, f: Fmt) -> bool {
    match v {
        V::Any => true,
        V::Bits(b) => r == b,
        V::Nan => f.is_nan(r) && r & !f.mask() == 0,
        V::Qnan => f.is_nan(r) && r & !f.mask() == 0 && !f.is_snan(r),
        V::Either(a, b) => r == a || r == b,
        V::Range(l, h, s) => {
            if f.is_nan(r) {
                return false;
            }
            let o = f.ord(r);
            o >= l && o <= h && (s == 0 || f.neg(r) == (s < 0))
        }
        V::Acc(_) => true,
        V::Zero => f.is_zero(r),
        V::AnyInf => f.is_inf(r),
        V::Sg(s) => {
            let x = r as i128;
            match s {
                Sgn::Z => x == 0,
                Sgn::Nz => x != 0,
                Sgn::Lt => x < 0,
                Sgn::Ge => x >= 0,
                Sgn::Le => x <= 0,
                Sgn::Gt => x > 0,
            }
        }
    }
}
