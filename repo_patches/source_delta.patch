From a64c2bbf3ab79265fc909baca573e13ba09f40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:06 +0000
Subject: [PATCH 01/16] Expose the division algorithms used on other targets
 behind cfg(verif_hooks)

---
 compiler-builtins/build.rs                    |   1 +
 .../src/int/specialized_div_rem/mod.rs        |   6 +
 .../src/int/specialized_div_rem/verif.rs      | 110 ++++++++++++++++++
 3 files changed, 117 insertions(+)
 create mode 100644 compiler-builtins/src/int/specialized_div_rem/verif.rs

diff --git a/compiler-builtins/build.rs b/compiler-builtins/build.rs
index 8869add..5060505 100644
--- a/compiler-builtins/build.rs
+++ b/compiler-builtins/build.rs
@@ -144,6 +144,7 @@ fn configure_check_cfg() {
     // Rustc is unaware of sparc target features, but this does show up from
     // `rustc --print target-features --target sparc64-unknown-linux-gnu`.
     println!("cargo::rustc-check-cfg=cfg(target_feature, values(\"vis3\"))");
+    println!("cargo::rustc-check-cfg=cfg(verif_hooks)");
 }
 
 #[cfg(feature = "c")]
diff --git a/compiler-builtins/src/int/specialized_div_rem/mod.rs b/compiler-builtins/src/int/specialized_div_rem/mod.rs
index e5324cd..8ea8de6 100644
--- a/compiler-builtins/src/int/specialized_div_rem/mod.rs
+++ b/compiler-builtins/src/int/specialized_div_rem/mod.rs
@@ -323,3 +323,9 @@ impl_binary_long!(
     i32,
     allow(dead_code)
 );
+
+// Extra instantiations for verification builds.
+#[cfg(verif_hooks)]
+mod verif;
+#[cfg(verif_hooks)]
+pub use self::verif::*;
diff --git a/compiler-builtins/src/int/specialized_div_rem/verif.rs b/compiler-builtins/src/int/specialized_div_rem/verif.rs
new file mode 100644
index 0000000..6caecfd
--- /dev/null
+++ b/compiler-builtins/src/int/specialized_div_rem/verif.rs
@@ -0,0 +1,110 @@
+//! Instantiations of the division algorithms that other targets select, so that they can be
+//! exercised on any host. Only compiled with `--cfg verif_hooks`.
+
+use super::{u32_by_u32_div_rem, u64_by_u64_div_rem, zero_div_fn};
+
+const LZ: bool = true;
+const NO_LZ: bool = false;
+
+impl_normalization_shift!(u32_shift_lz, LZ, 32, u32, i32, allow(dead_code));
+impl_normalization_shift!(u64_shift_lz, LZ, 64, u64, i64, allow(dead_code));
+impl_normalization_shift!(u32_shift_no_lz, NO_LZ, 32, u32, i32, allow(dead_code));
+impl_normalization_shift!(u64_shift_no_lz, NO_LZ, 64, u64, i64, allow(dead_code));
+
+unsafe fn u128_by_u64_div_rem(duo: u128, div: u64) -> (u64, u64) {
+    ((duo / div as u128) as u64, (duo % div as u128) as u64)
+}
+
+unsafe fn u64_by_u32_div_rem(duo: u64, div: u32) -> (u32, u32) {
+    ((duo / div as u64) as u32, (duo % div as u64) as u32)
+}
+
+impl_trifecta!(
+    verif_u128_trifecta,
+    zero_div_fn,
+    u64_by_u64_div_rem,
+    32,
+    u32,
+    u64,
+    u128
+);
+impl_asymmetric!(
+    verif_u128_asymmetric,
+    zero_div_fn,
+    u64_by_u64_div_rem,
+    u128_by_u64_div_rem,
+    32,
+    u32,
+    u64,
+    u128
+);
+impl_asymmetric!(
+    verif_u64_asymmetric,
+    zero_div_fn,
+    u32_by_u32_div_rem,
+    u64_by_u32_div_rem,
+    16,
+    u16,
+    u32,
+    u64
+);
+impl_delegate!(
+    verif_u128_delegate,
+    zero_div_fn,
+    u64_shift_lz,
+    u64_by_u64_div_rem,
+    32,
+    u32,
+    u64,
+    u128,
+    i128
+);
+impl_delegate!(
+    verif_u128_delegate_no_lz,
+    zero_div_fn,
+    u64_shift_no_lz,
+    u64_by_u64_div_rem,
+    32,
+    u32,
+    u64,
+    u128,
+    i128
+);
+impl_delegate!(
+    verif_u64_delegate,
+    zero_div_fn,
+    u32_shift_lz,
+    u32_by_u32_div_rem,
+    16,
+    u16,
+    u32,
+    u64,
+    i64
+);
+impl_delegate!(
+    verif_u64_delegate_no_lz,
+    zero_div_fn,
+    u32_shift_no_lz,
+    u32_by_u32_div_rem,
+    16,
+    u16,
+    u32,
+    u64,
+    i64
+);
+impl_binary_long!(
+    verif_u64_binary_long_no_lz,
+    zero_div_fn,
+    u64_shift_no_lz,
+    64,
+    u64,
+    i64
+);
+impl_binary_long!(
+    verif_u32_binary_long_no_lz,
+    zero_div_fn,
+    u32_shift_no_lz,
+    32,
+    u32,
+    i32
+);
-- 
2.43.0


From 9549c7d2c82cab1cdab9a90cc70c809dc1421e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:03 +0000
Subject: [PATCH 02/16] fix: keep the sticky bit of the shifted product in fma

When the addend is much larger than the product, the product is shifted
right and the bits shifted out must be remembered. They were read after the
low word had already been overwritten, so a product just above half a unit of
the addend was rounded as an exact tie.
---
 libm/src/math/generic/fma.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..1342ec1 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -71,9 +71,11 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
+                // Bits that get shifted out must be collected before `rlo` is overwritten
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
                 rlo = (rhi << (sbits - d)) | (rlo >> d);
                 // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo |= sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 564ffe9ac7040dd0b202643d1d37b0c60fac9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:03 +0000
Subject: [PATCH 03/16] fix: avoid double rounding of subnormal results in fmaf

The halfway test looked at the bits dropped from a normal result. A
subnormal result drops more bits, so a sum next to a subnormal midpoint was
rounded twice.
---
 libm/src/math/generic/fma_wide.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/generic/fma_wide.rs b/libm/src/math/generic/fma_wide.rs
index e7d5406..b3da429 100644
--- a/libm/src/math/generic/fma_wide.rs
+++ b/libm/src/math/generic/fma_wide.rs
@@ -23,7 +23,10 @@ where
     let re = result.ex();
     let zb: B = z.widen();
 
-    let prec_diff = B::SIG_BITS - F::SIG_BITS;
+    // Subnormal results keep fewer bits, so more bits are dropped when narrowing.
+    let min_normal_exp = (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let prec_diff =
+        (B::SIG_BITS - F::SIG_BITS + min_normal_exp.saturating_sub(re)).min(B::SIG_BITS);
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
-- 
2.43.0


From 176f8013264d899282805be6655dce30d4ebb822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:03 +0000
Subject: [PATCH 04/16] fix: wrap the residual in hypot's exact path

The squares are only known modulo 2^64 and their difference is meant to
wrap. Plain subtraction of the signed values overflows and panics when
overflow checks are on.
---
 libm/src/math/hypot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/hypot.rs b/libm/src/math/hypot.rs
index e8bd44c..4328c96 100644
--- a/libm/src/math/hypot.rs
+++ b/libm/src/math/hypot.rs
@@ -202,7 +202,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         rm += 1 + (rm >= (1u64 << 53)) as u64;
         let tm: u64 = rm << k;
         let rm2: u64 = tm.wrapping_mul(tm);
-        d = m2 as i64 - rm2 as i64;
+        d = m2.wrapping_sub(rm2) as i64;
 
         if d <= 0 {
             break;
@@ -213,7 +213,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         set_flags(flag);
     } else if op == om {
         let tm: u64 = (rm << k) - (1 << (k - (rm <= (1u64 << 53)) as i32));
-        d = m2 as i64 - (tm.wrapping_mul(tm)) as i64;
+        d = m2.wrapping_sub(tm.wrapping_mul(tm)) as i64;
 
         if d == 0 {
             cold_path();
-- 
2.43.0


From 59ec238f07c356d98802c1145c7904eb3d424fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:03 +0000
Subject: [PATCH 05/16] fix: accept every shift amount in linear_mul_reduction

The internal normalisation shift was added to the caller's 32-bit shift
amount, which overflowed for amounts close to the 32-bit limit.
---
 libm/src/math/support/modular.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/support/modular.rs b/libm/src/math/support/modular.rs
index 026c599..cab868d 100644
--- a/libm/src/math/support/modular.rs
+++ b/libm/src/math/support/modular.rs
@@ -14,7 +14,7 @@ use crate::support::{DInt, HInt, Int};
 
 /// Compute the remainder `(x << e) % y` with unbounded integers.
 /// Requires `x < 2y` and `y.leading_zeros() >= 2`
-pub fn linear_mul_reduction<U>(x: U, mut e: u32, mut y: U) -> U
+pub fn linear_mul_reduction<U>(x: U, e: u32, mut y: U) -> U
 where
     U: HInt + Int<Unsigned = U>,
     U::D: NarrowingDiv,
@@ -39,7 +39,7 @@ where
     // to shift the divisor so it has exactly two leading zeros to satisfy
     // the precondition of `Reducer::new`
     let s = y.leading_zeros() - 2;
-    e += s;
+    let mut e = u64::from(e) + u64::from(s);
     y <<= s;
 
     // `m: Reducer` keeps track of the remainder `x` in a form that makes it
@@ -47,12 +47,12 @@ where
     let mut m = Reducer::new(x, y);
 
     // Use the faster special case with constant `k == U::BITS - 1` while we can
-    while e >= U::BITS - 1 {
+    while e >= u64::from(U::BITS - 1) {
         m.word_reduce();
-        e -= U::BITS - 1;
+        e -= u64::from(U::BITS - 1);
     }
     // Finish with the variable shift operation
-    m.shift_reduce(e);
+    m.shift_reduce(e as u32);
 
     // The partial remainder is in `[0, 2y)` ...
     let r = m.partial_remainder();
-- 
2.43.0


From e943ed2c3eb9a7933b8e24eb59e1ded716898702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:45 +0000
Subject: [PATCH 06/16] fix: make the first log2 term exact in pow for huge
 exponents

For |y| > 2^31 the product of the leading part of 1/ln2 with x - 1 was
assumed exact, but 24 + 33 bits do not fit in 53. Results next to 1 were
off by several hundred units in the last place. Use a 20 bit leading part
and the matching tail.
---
 libm/src/math/pow.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 87eaab3..b83d557 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -86,8 +86,8 @@ const CP: f64 = 9.61796693925975554329e-01; /* 0x3feec709_dc3a03fd =2/(3ln2) */
 const CP_H: f64 = 9.61796700954437255859e-01; /* 0x3feec709_e0000000 =(float)cp */
 const CP_L: f64 = -7.02846165095275826516e-09; /* 0xbe3e2fe0_145b01f5 =tail of cp_h*/
 const IVLN2: f64 = 1.44269504088896338700e+00; /* 0x3ff71547_652b82fe =1/ln2 */
-const IVLN2_H: f64 = 1.44269502162933349609e+00; /* 0x3ff71547_60000000 =24b 1/ln2*/
-const IVLN2_L: f64 = 1.92596299112661746887e-08; /* 0x3e54ae0b_f85ddf44 =1/ln2 tail*/
+const IVLN2_H: f64 = 1.44269371032714843750e+00; /* 0x3ff71546_00000000 =20b 1/ln2*/
+const IVLN2_L: f64 = 1.33056181496985991145e-06; /* 0x3eb652b8_2fe1777d =1/ln2 tail*/
 
 /// Returns `x` to the power of `y` (f64).
 #[cfg_attr(assert_no_panic, no_panic::no_panic)]
@@ -257,7 +257,7 @@ pub fn pow(x: f64, y: f64) -> f64 {
         log(x) by x-x^2/2+x^3/3-x^4/4 */
         let t: f64 = ax - 1.0; /* t has 20 trailing zeros */
         let w: f64 = (t * t) * (0.5 - t * (0.3333333333333333333333 - t * 0.25));
-        let u: f64 = IVLN2_H * t; /* ivln2_h has 21 sig. bits */
+        let u: f64 = IVLN2_H * t; /* ivln2_h has 20 sig. bits, so this is exact */
         let v: f64 = t * IVLN2_L - w * IVLN2;
         t1 = with_set_low_word(u + v, 0);
         t2 = v - (t1 - u);
-- 
2.43.0


From 2eba9e229fac7713df2824c4bb03035a6aa487a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:45 +0000
Subject: [PATCH 07/16] fix: do not overflow early in powf for huge exponents

With |y| just above 2^27 a base up to 12 steps below 1 still gives a
finite or nonzero result. The range check returned infinity or zero for
bases more than 8 steps below 1.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 17772ae..2bfa186 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 {
                 sn * HUGE * HUGE
             } else {
-- 
2.43.0


From 485b5f974144560134274b6838a5808e5ba62828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:58 +0000
Subject: [PATCH 08/16] fix: hex float parsing with exponent text beyond 32
 bits

The decimal exponent was accumulated with a plain addition after a saturating
multiplication, and later adjusted without headroom. Texts such as
"0x1p4294967296" wrapped around to a small exponent, or overflowed and
panicked in builds with overflow checks.
---
 libm/src/math/support/hex_float.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 607ba79..52ff872 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -291,8 +291,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
@@ -307,6 +306,15 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
         exp = exp.saturating_add_unsigned(pexp);
     };
 
+    // Far outside the range of any supported format, and small enough that adjusting it
+    // for the number of significant bits cannot overflow.
+    const EXP_LIMIT: i32 = 1 << 30;
+    if exp > EXP_LIMIT {
+        exp = EXP_LIMIT;
+    } else if exp < -EXP_LIMIT {
+        exp = -EXP_LIMIT;
+    }
+
     Ok(Parsed { sig, exp })
 }
 
-- 
2.43.0


From 1a62448a37e46e7d08411d4e94099c79142aff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:40 +0000
Subject: [PATCH 09/16] fix: hex float parsing of large exponents in wide
 formats

The biased exponent was shifted into place before being compared with the
maximum. For formats where it does not fit the remaining bits, such as f128
with "0x1p49154", the top bits were lost and a finite value came back instead
of an overflow.
---
 libm/src/math/support/hex_float.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 52ff872..ade0482 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -154,7 +154,12 @@ const fn parse_finite(
     // The parsed value is X = sig * 2^exp
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
-    let uexp = (exp - min_lsb) as u128;
+    let mut uexp = (exp - min_lsb) as u128;
+    // Anything at or above the maximum exponent is out of range; don't let the shift drop bits.
+    let max_uexp = (1 << exp_bits) - 1;
+    if uexp > max_uexp {
+        uexp = max_uexp;
+    }
     let uexp = uexp << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
-- 
2.43.0


From 43d746cce15ca9a0d1ed254858401c61ff0737dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:58 +0000
Subject: [PATCH 10/16] fix: accept negative hexadecimal input in util

Negative hexadecimal integers such as -0x3 made the tool panic, and negative
hexadecimal floats were refused for f128. Keep the sign when the radix prefix
is removed and recognise the negative prefix for f128 too.
---
 crates/util/src/main.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index aa79354..174d0dc 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -338,7 +338,7 @@ macro_rules! impl_parse_tuple_int {
         impl FromStrRadix for $ty {
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseIntError> {
                 let s = strip_radix_prefix(s, radix);
-                <$ty>::from_str_radix(s, radix)
+                <$ty>::from_str_radix(&s, radix)
             }
         }
     };
@@ -390,7 +390,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
@@ -415,7 +415,7 @@ impl FromStrRadix for f16 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u16::from_str_radix(s, radix).map(Self::from_bits)
+        u16::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -427,7 +427,7 @@ impl FromStrRadix for f32 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u32::from_str_radix(s, radix).map(Self::from_bits)
+        u32::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -438,7 +438,7 @@ impl FromStrRadix for f64 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u64::from_str_radix(s, radix).map(Self::from_bits)
+        u64::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -449,16 +449,17 @@ impl FromStrRadix for f128 {
             return Ok(libm::support::hf128(s));
         }
         let s = strip_radix_prefix(s, radix);
-        u128::from_str_radix(s, radix).map(Self::from_bits)
+        u128::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
-fn strip_radix_prefix(s: &str, radix: u32) -> &str {
+/// Remove the radix prefix, keeping a leading minus sign.
+fn strip_radix_prefix(s: &str, radix: u32) -> String {
     if radix == 16 {
-        s.strip_prefix("0x").unwrap()
+        s.replacen("0x", "", 1)
     } else if radix == 2 {
-        s.strip_prefix("0b").unwrap()
+        s.replacen("0b", "", 1)
     } else {
-        s
+        s.to_owned()
     }
 }
-- 
2.43.0


From 37d86198f4374254ef29500294cded712a6a6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:58 +0000
Subject: [PATCH 11/16] fix: round decimal f128 input only once in util

Decimal text was first rounded to 128 bits and then to the format, so input just
beside a tie, and subnormal input, could end up on the wrong neighbour.
---
 crates/util/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index 174d0dc..8c386d6 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -14,6 +14,8 @@ use libm_test::mpfloat::MpOp;
 use libm_test::{MathOp, TupleCall, builtins_wrapper};
 #[cfg(feature = "build-mpfr")]
 use rug::az::{self, Az};
+#[cfg(feature = "build-mpfr")]
+use rug::float::Round::Nearest;
 
 const USAGE: &str = "\
 usage:
@@ -399,7 +401,9 @@ where
     }
 
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    // Round once, to the precision of the target and accounting for subnormals.
+    let (mut x, ord) = rug::Float::with_val_round(F::SIG_BITS + 1, x, Nearest);
+    x.subnormalize_ieee_round(ord, Nearest);
     x.az()
 }
 
-- 
2.43.0


From 271791f3aad0c1d62efce726a2f2a07f683b41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:49 +0000
Subject: [PATCH 12/16] fix: strip only the type suffix from routine names in
 update-api-list

The base name of a routine was found with `rstrip`, which removes any of the
given characters. `exp2f128` became `exp` and `atan2f128` became `atan`, so the
tool crashed or listed the sources of another routine.
---
 etc/update-api-list.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/etc/update-api-list.py b/etc/update-api-list.py
index 2d8ad29..a2c9008 100755
--- a/etc/update-api-list.py
+++ b/etc/update-api-list.py
@@ -257,15 +257,15 @@ def base_name(name: str) -> tuple[str, str]:
         return found
 
     if name.endswith("f"):
-        return (name.rstrip("f"), "f32")
+        return (name.removesuffix("f"), "f32")
     elif name.endswith("f16"):
-        return (name.rstrip("f16"), "f16")
+        return (name.removesuffix("f16"), "f16")
     elif name.endswith("f32"):
-        return (name.rstrip("f32"), "f32")
+        return (name.removesuffix("f32"), "f32")
     elif name.endswith("f64"):
-        return (name.rstrip("f64"), "f64")
+        return (name.removesuffix("f64"), "f64")
     elif name.endswith("f128"):
-        return (name.rstrip("f128"), "f128")
+        return (name.removesuffix("f128"), "f128")
 
     return (name, "f64")
 
-- 
2.43.0


From aab697b1107f4d7fac0c2d3fdda5f7030aba6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:49 +0000
Subject: [PATCH 13/16] fix: match whole routine names in architecture sources
 in update-api-list

A file under `arch` that defines `cosh` was also listed as a source of `cos`,
since the search accepted any name starting with the one looked for.
---
 etc/update-api-list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/update-api-list.py b/etc/update-api-list.py
index a2c9008..0f057d3 100755
--- a/etc/update-api-list.py
+++ b/etc/update-api-list.py
@@ -141,7 +141,7 @@ class Crate:
             contents = (ROOT_DIR.joinpath(fname)).read_text()
 
             for name in self.public_functions:
-                if f"fn {name}" in contents:
+                if re.search(rf"\bfn {name}(_round|_status)?\b", contents):
                     defs[name].add(fname)
 
         for name, sources in defs.items():
-- 
2.43.0


From 29084efc2b25ebdcea6f1c757b4d2e950332a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:52 +0000
Subject: [PATCH 14/16] fix: remove every type suffix from the base name of
 conversion routines

The suffixes were tried once, in a fixed order. `extend_f16_f32` and
`ftoi_f32_i32` therefore got the base names `extend_` and `ftoi_`, while the
documentation promises `extend`.
---
 crates/libm-macros/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/libm-macros/src/lib.rs b/crates/libm-macros/src/lib.rs
index 7bafd0c..1df6876 100644
--- a/crates/libm-macros/src/lib.rs
+++ b/crates/libm-macros/src/lib.rs
@@ -505,11 +505,9 @@ fn base_name(name: &str) -> &str {
     let mut any_found = false;
     let mut ret = name;
 
-    for sfx in strip {
-        if let Some(stripped) = ret.strip_suffix(sfx) {
-            ret = stripped;
-            any_found = true;
-        }
+    while let Some(stripped) = strip.iter().find_map(|sfx| ret.strip_suffix(sfx)) {
+        ret = stripped;
+        any_found = true;
     }
 
     // Only if no suffix was stripped, try stripping the C-style float suffix.
-- 
2.43.0


From 6d3f2706cdd59c7a99272e2a36b07bac1ac7c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:26:35 +0000
Subject: [PATCH 15/16] fix: round of large f64 integers on i586

Without SSE2 the sum in the generic round is rounded twice, first to the extended
format and then to f64. Odd integers of 2^52 and above came back changed by one.
Values without a fractional part are now returned as they are on these targets.
---
 libm/src/math/generic/round.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libm/src/math/generic/round.rs b/libm/src/math/generic/round.rs
index 9cab1e2..8fb27fc 100644
--- a/libm/src/math/generic/round.rs
+++ b/libm/src/math/generic/round.rs
@@ -6,5 +6,10 @@ pub fn round<F: Float>(x: F) -> F {
     let f0p5 = F::from_parts(false, F::EXP_BIAS - 1, F::Int::ZERO); // 0.5
     let f0p25 = F::from_parts(false, F::EXP_BIAS - 2, F::Int::ZERO); // 0.25
 
+    // No fractional part; on i586 excess precision would cause the sum below to be rounded twice.
+    if cfg!(x86_no_sse2) && x.ex() >= F::EXP_BIAS + F::SIG_BITS {
+        return x;
+    }
+
     trunc_status(x + copysign(f0p5 - f0p25 * F::EPSILON, x)).val
 }
-- 
2.43.0


From 75017e460e34be10bce8e055c12039add34d9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:26:35 +0000
Subject: [PATCH 16/16] fix: stack probe of 32-bit UEFI for frames below 16
 bytes

The routine stored the return address below the new frame while the caller's
registers were still saved there. For frames of 4, 8 and 12 bytes it overwrote
them, so ebp, ecx or edx came back wrong. The address is now copied last.
---
 compiler-builtins/src/probestack.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/compiler-builtins/src/probestack.rs b/compiler-builtins/src/probestack.rs
index c4a2eeb..abba70b 100644
--- a/compiler-builtins/src/probestack.rs
+++ b/compiler-builtins/src/probestack.rs
@@ -189,7 +189,6 @@ pub unsafe extern "custom" fn __rust_probestack() {
             mov    ebp, esp
             .cfi_def_cfa_register ebp
             push   ecx
-            push   edx
             mov    ecx, eax
 
             cmp    ecx, 0x1000
@@ -204,17 +203,17 @@ pub unsafe extern "custom" fn __rust_probestack() {
         3:
             sub    esp, ecx
             test   dword ptr [esp + 8], esp
-            mov    edx, dword ptr [ebp + 4]
-            mov    dword ptr [esp + 12], edx
             add    esp, eax
-            pop    edx
             pop    ecx
             leave
 
-            sub   esp, eax
+            // Copy the return address below the new frame. It must not be stored any
+            // earlier, frames of less than 16 bytes overlap the registers saved above.
+            sub    esp, eax
+            push   dword ptr [esp + eax]
             .cfi_def_cfa_register esp
             .cfi_adjust_cfa_offset -4
-            ret
+            ret    4
             .cfi_endproc
         ",
     )
-- 
2.43.0

