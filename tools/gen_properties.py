#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so wording edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CB = "compiler-builtins/src/"
M = "libm/src/math/"

p("C01", "Integer division and remainder are exact",
  "For every dividend and every non-zero divisor, the 32-, 64- and 128-bit division, remainder and combined divide-with-remainder routines return the mathematically exact truncated quotient and the remainder with the dividend's sign (n = q*d + r, |r| < |d|). The one overflowing signed case (MIN / -1) wraps to MIN with remainder 0 and never traps. This holds in every build configuration and for every division algorithm the library selects for some target.",
  ["inputs", "configurations"], "all (n, d != 0) pairs of each width and signedness, every build configuration (assembly and portable; 64- and 32-bit x86 hosts)",
  "2^256 operand pairs; the tests draw random operands and a fixed edge list, and only run the algorithm selected for this host and feature set.",
  [CB+"int/udiv.rs", CB+"int/sdiv.rs", CB+"int/specialized_div_rem/"],
  [("quotient estimation and correction", CB+"int/specialized_div_rem/asymmetric.rs, trifecta.rs, delegate.rs, binary_long.rs"), ("sign handling around unsigned division", CB+"int/sdiv.rs")],
  ["return value and remainder out-parameter of each routine"], "cfg(verif_hooks) re-exports of the algorithms other targets select")

p("C02", "Integer add, subtract and multiply are exact and flag overflow exactly",
  "128-bit add/sub, 64- and 128-bit multiply and the overflow-reporting variants return the exact result modulo 2^n for all operands. The overflow indication is set exactly when the true mathematical result does not fit the type, and is cleared otherwise.",
  ["inputs", "configurations"], "all operand pairs of each width, signed and unsigned, and every build configuration",
  "Operand space is 2^256; tests sample randomly plus a small edge set, so a carry or overflow case hit by a narrow operand band is unsettled.",
  [CB+"int/addsub.rs", CB+"int/mul.rs", M+"support/int_traits.rs"],
  [("split-word multiply and overflow decision", CB+"int/mul.rs"), ("carry-chained add/sub", CB+"int/addsub.rs")],
  ["returned product/sum and overflow out-parameter"])

p("C03", "Shifts, bit counts and byte swaps are exact",
  "For every operand and every in-range shift amount, left, logical-right and arithmetic-right shifts, leading- and trailing-zero counts and byte swaps return exactly what the same operation on a plain two's complement integer of that width returns. This covers every alternative counting algorithm the library carries.",
  ["inputs", "configurations"], "all operands of 32, 64 and 128 bits, all shift amounts below the width, all counting algorithm variants",
  "Tests fuzz random operands; word-boundary shift amounts combined with particular bit patterns are only sampled.",
  [CB+"int/shift.rs", CB+"int/leading_zeros.rs", CB+"int/trailing_zeros.rs", CB+"int/bswap.rs"],
  [("half-word split shifts", CB+"int/shift.rs"), ("bisection bit counting", CB+"int/leading_zeros.rs, trailing_zeros.rs")],
  ["return values"])

p("C04", "Soft-float add, subtract, multiply and divide are correctly rounded",
  "For every pair of operands in every supported format (half, single, double, quad) the software add, subtract, multiply and divide routines return the IEEE 754 round-to-nearest-even result: correct rounding, gradual underflow, overflow to infinity, exact zero signs and infinities. The result is a quiet NaN exactly when IEEE 754 says the operation is invalid or an operand is NaN.",
  ["inputs", "configurations"], "all operand pairs of each format (f16, f32, f64, f128), all build configurations",
  "Even f32 has 2^64 operand pairs; tests fuzz a fixed number per run and rounding/underflow corner cases (ties, one-bit cancellation, subnormal boundary) have measure near zero.",
  [CB+"float/add.rs", CB+"float/sub.rs", CB+"float/mul.rs", CB+"float/div.rs"],
  [("guard/round/sticky handling", CB+"float/add.rs, mul.rs"), ("Newton-Raphson reciprocal and final correction", CB+"float/div.rs")],
  ["returned bit patterns"])

p("C05", "Floating-point comparison helpers implement IEEE ordering",
  "For every pair of operands in every format, each comparison helper returns a value whose sign answers its predicate exactly as IEEE 754 does: zeros of both signs are equal, infinities order correctly, and any NaN operand is unordered so that no ordered predicate accepts it. The unordered helper is non-zero exactly when at least one operand is NaN.",
  ["inputs", "configurations"], "all operand pairs of f16, f32, f64, f128 and all predicates",
  "Tests sample pairs; NaN payload, sign and subnormal combinations are not covered pairwise for all formats.",
  [CB+"float/cmp.rs"], [("sign-magnitude integer comparison", CB+"float/cmp.rs")], ["sign of the returned comparison result"])

p("C06", "Float width conversions are exact or correctly rounded",
  "Widening a float to a larger format preserves its value exactly; narrowing returns the round-to-nearest-even value, including results that become subnormal, zero or infinite. Signs of zeros and infinities are kept, and NaN converts to NaN and never to a number or infinity.",
  ["inputs", "configurations"], "every bit pattern of every source format, all build configurations",
  "f32 sources could be enumerated but are not by the tests; f64 and f128 sources cannot. Tie and subnormal-boundary cases are rare under random sampling.",
  [CB+"float/extend.rs", CB+"float/trunc.rs"], [("significand alignment and rounding", CB+"float/trunc.rs"), ("exponent rebias and subnormal normalisation", CB+"float/extend.rs")], ["returned bit patterns"])

p("C07", "Integer/float conversions round and saturate correctly",
  "Converting any 32-, 64- or 128-bit integer to a float returns the round-to-nearest-even value. Converting any float to an integer truncates toward zero, saturates at the type's minimum or maximum when out of range (including infinities), and returns 0 for NaN.",
  ["inputs", "configurations"], "all integers of each width and signedness and all floats of each format, both directions",
  "Tests use random and edge inputs; rounding ties at particular bit widths and values next to the saturation limits need directed search.",
  [CB+"float/conv.rs"], [("integer to float rounding by bit adjustments", CB+"float/conv.rs"), ("saturating float to integer", CB+"float/conv.rs")], ["returned values"])

p("C08", "Integer powers follow repeated multiplication for every exponent",
  "For every base and every signed 32-bit exponent the integer-power helpers return the value of repeated multiplication (its reciprocal for negative exponents) to within the rounding error that many multiplications can accumulate, with exact sign, exact special values (exponent 0 gives 1, zero/infinite/NaN bases) and no overflow of the exponent handling at the most negative exponent. When every intermediate product is exactly representable the result is exact.",
  ["inputs"], "all bases of f32, f64, f128 and all i32 exponents",
  "Tests compare with a loose tolerance on sampled bases and exponents.",
  [CB+"float/pow.rs"], [("square-and-multiply loop with final reciprocal", CB+"float/pow.rs")], ["returned values"])

p("C09", "Memory routines produce exactly the bytes C specifies",
  "For every length, alignment and (for the move routine) every overlap of source and destination, the copy, move, fill, compare and string-length routines leave the destination holding exactly the specified bytes, change no byte outside it, leave the source unchanged, and return the specified value (destination pointer, comparison sign by the first differing unsigned byte, or length). This holds for the assembly and the portable implementation.",
  ["inputs", "configurations"], "all lengths, alignments, contents, overlap distances; assembly, fast-string, portable and strict-alignment variants",
  "Tests use a handful of sizes/offsets and only the variant selected for this host.",
  [CB+"mem/mod.rs", CB+"mem/impls.rs", CB+"mem/x86_64.rs"],
  [("head/words/tail split and direction choice", CB+"mem/x86_64.rs, impls.rs"), ("overlap test", CB+"mem/mod.rs")],
  ["destination, source and surrounding bytes after the call; return value"])

p("C10", "Memory routines touch only the memory they were given",
  "The copy, move, fill and compare routines never read or write a byte outside the given ranges, so buffers flush against unmapped pages never fault and zero-length calls accept any pointer; the string-length routine never touches a page beyond the one holding the terminator. On return the processor's direction flag, callee-saved registers and stack are as the ABI requires.",
  ["inputs", "configurations"], "all lengths and alignments with buffers placed flush against inaccessible pages on either side",
  "The tests only check contents in ordinary buffers; an over-read of mapped memory or leaked processor state is invisible to them.",
  [CB+"mem/mod.rs", CB+"mem/impls.rs", CB+"mem/x86_64.rs"],
  [("bounded head/tail handling", CB+"mem/x86_64.rs, impls.rs"), ("direction flag restored after backward copy", CB+"mem/x86_64.rs"), ("page-safe aligned scan", CB+"mem/x86_64.rs")],
  ["page faults, shadow memory, flags and callee-saved registers around each call"])

p("C11", "Rounding to integral values is exact",
  "For every input of every format, ceil, floor, trunc, round (ties away from zero), rint and roundeven (ties to even) return exactly the specified neighbouring integral value with the sign of the input, pass infinities and NaN through, and are the identity on integral inputs.",
  ["inputs", "configurations"], "every bit pattern of f16, f32, f64, f128; assembly, portable and intrinsic builds",
  "Only f16/f32 could be enumerated and the tests do not; half-integers and the precision boundary are rare under random sampling.",
  [M+"generic/ceil.rs", M+"generic/floor.rs", M+"generic/trunc.rs", M+"generic/rint.rs", M+"generic/round.rs", M+"roundeven.rs"],
  [("bit masking by exponent", M+"generic/ceil.rs, floor.rs, trunc.rs"), ("magic-number rounding", M+"generic/rint.rs")], ["returned bit patterns"])

p("C12", "sqrt, fma, cbrt, hypot and fdim are correctly rounded",
  "For all inputs square root, fused multiply-add, cube root, double-precision hypot and positive difference return the correctly rounded (nearest-even) value of the exact mathematical result, in every format offered, including results that are subnormal, cancel almost completely or lie next to a rounding tie. Invalid operands give NaN, and zero and infinity results carry the IEEE sign.",
  ["inputs", "configurations"], "all operand tuples of f16, f32, f64, f128 where offered; hardware-dispatched and portable paths",
  "fma alone has 2^192 double inputs; correctness failures concentrate on ties, cancellation and underflow which sampling does not reach.",
  [M+"generic/sqrt.rs", M+"generic/fma.rs", M+"generic/fma_wide.rs", M+"fmaf16.rs", M+"cbrt.rs", M+"cbrtf.rs", M+"hypot.rs", M+"generic/fdim.rs", M+"arch/x86/"],
  [("wide product, alignment and sticky bits", M+"generic/fma.rs"), ("halfway detection in the wider type", M+"generic/fma_wide.rs"), ("Goldschmidt iteration and final remainder test", M+"generic/sqrt.rs")], ["returned bit patterns"])

p("C13", "fmod, remainder and remquo are exact",
  "For all finite x and non-zero y the remainder functions return the exact real remainder (truncated quotient for fmod, nearest-even quotient for remainder and remquo), with the sign of x on zero results, no matter how far apart the exponents are; remquo also returns the quotient's sign and its low three bits. Infinite x, zero y or NaN give NaN, and an infinite y returns x.",
  ["inputs", "configurations"], "all operand pairs of f16, f32, f64, f128",
  "Exponent gaps reach 32,000 bits; tests sample pairs and the number of reduction steps is data dependent.",
  [M+"generic/fmod.rs", M+"support/modular.rs", M+"support/int_traits/narrowing_div.rs", M+"remquo.rs", M+"remquof.rs", M+"remainder.rs"],
  [("modular reduction by powers of two", M+"support/modular.rs"), ("shift-subtract loop and final nearest decision", M+"remquo.rs")], ["returned remainder and quotient"])

p("C14", "Scaling, decomposition and neighbour functions are exact",
  "scalbn/ldexp return x*2^n correctly rounded for every x and every n (including overflow, gradual underflow without double rounding, and extreme n); frexp, modf and ilogb decompose every value exactly; nextafter returns the adjacent representable value in the given direction; fabs and copysign change only the sign bit, for NaN as well.",
  ["inputs", "configurations"], "all (x, n) with n over all i32, all pairs for nextafter/copysign, all formats",
  "Double rounding at the subnormal boundary depends on specific exponent and bit combinations that sampling misses.",
  [M+"generic/scalbn.rs", M+"generic/frexp.rs", M+"generic/ilogb.rs", M+"modf.rs", M+"modff.rs", M+"nextafter.rs", M+"nextafterf.rs", M+"generic/copysign.rs", M+"generic/fabs.rs"],
  [("staged multiplication by in-range powers of two", M+"generic/scalbn.rs"), ("subnormal normalisation", M+"generic/frexp.rs, ilogb.rs")], ["returned values"])

p("C15", "Minimum/maximum families follow their NaN and signed-zero rules",
  "For every operand pair in every format, fmin/fmax return the smaller/larger operand and ignore a single NaN; fminimum/fmaximum propagate NaN and order -0 below +0; fminimum_num/fmaximum_num ignore a single NaN and order -0 below +0. The result is always numerically one of the operands, or NaN exactly when the rule says so.",
  ["inputs", "configurations"], "all operand pairs of f16, f32, f64, f128 for the six functions",
  "Tests check selected pairs; the cross product of zeros, NaN kinds, subnormals and infinities over four formats and builds is not enumerated.",
  [M+"generic/fmin.rs", M+"generic/fmax.rs", M+"generic/fminimum.rs", M+"generic/fmaximum.rs", M+"generic/fminimum_num.rs", M+"generic/fmaximum_num.rs"],
  [("comparison plus bit-level zero handling", M+"generic/fm*.rs")], ["returned bit patterns"])

p("C16", "exp, log and pow families stay within their documented accuracy",
  "For every finite input in the domain, exp, exp2, exp10, expm1, log, log2, log10, log1p and pow (single and double precision) return a value within the project's declared bound of the infinitely precise result (1 unit in the last place; 6 for exp10), including results that are subnormal or next to overflow and arguments next to 0 or 1.",
  ["inputs"], "all f32 and f64 inputs (pairs for pow)",
  "The declared bounds are only sampled by the tests; table entries, branch boundaries and reduction constants each matter for a small slice of inputs.",
  [M+"exp.rs", M+"expf.rs", M+"exp2.rs", M+"exp2f.rs", M+"exp10.rs", M+"exp10f.rs", M+"expm1.rs", M+"expm1f.rs", M+"log.rs", M+"logf.rs", M+"log2.rs", M+"log2f.rs", M+"log10.rs", M+"log10f.rs", M+"log1p.rs", M+"log1pf.rs", M+"pow.rs", M+"powf.rs", "libm-test/src/precision.rs"],
  [("argument reduction plus polynomial", M+"exp*.rs, log*.rs"), ("extra-precision log2 and exp2", M+"pow.rs, powf.rs")], ["distance of each result from a higher-precision reference"])

p("C17", "Trigonometric functions stay within their documented accuracy",
  "For every finite input, including arguments of any magnitude that need multi-word reduction modulo pi/2 and arguments next to multiples of pi/2, sin, cos, tan, sincos, asin, acos, atan (1 unit in the last place) and atan2 (2 units) return a value within that bound of the infinitely precise result, in single and double precision.",
  ["inputs"], "all f32 and f64 inputs (pairs for atan2)",
  "Large-argument reduction uses a different path and table words per exponent; tests sample few inputs per exponent and few near multiples of pi/2.",
  [M+"sin.rs", M+"cos.rs", M+"tan.rs", M+"sincos.rs", M+"rem_pio2.rs", M+"rem_pio2_large.rs", M+"rem_pio2f.rs", M+"k_sin.rs", M+"k_cos.rs", M+"k_tan.rs", M+"asin.rs", M+"acos.rs", M+"atan.rs", M+"atan2.rs"],
  [("Cody-Waite and Payne-Hanek reduction", M+"rem_pio2.rs, rem_pio2_large.rs"), ("kernel polynomials and quadrant selection", M+"k_*.rs, sin.rs, cos.rs, tan.rs")], ["distance of each result from a higher-precision reference"])

p("C18", "Hyperbolic, error, gamma and Bessel functions stay within their accuracy",
  "For every finite input, sinh, cosh, tanh, asinh, acosh, atanh, erf, erfc, tgamma, lgamma, single-precision hypot and the Bessel functions return a value within the project's declared bound of the infinitely precise result (1 to 20 units in the last place). lgamma between its limit and -2 near its zeros stays within 256 units of precision of the larger of 1 and its value; Bessel functions of order n for arguments up to 2^40 stay within 16 units (n = 0, 1) or 32 n units (n up to 80) of precision of the larger of the value and the amplitude of the oscillation at that argument. lgamma's sign output is the sign of gamma.",
  ["inputs"], "all f32 and f64 inputs; all orders for the Bessel functions",
  "Many piecewise regions with separate coefficient tables; tests sample each region thinly and skip jn/yn against high precision.",
  [M+"sinh.rs", M+"cosh.rs", M+"tanh.rs", M+"asinh.rs", M+"acosh.rs", M+"atanh.rs", M+"erf.rs", M+"tgamma.rs", M+"lgamma_r.rs", M+"hypotf.rs", M+"j0.rs", M+"j1.rs", M+"jn.rs"],
  [("piecewise rational approximations and recurrences", M+"erf.rs, lgamma_r.rs, j0.rs, jn.rs")], ["distance of each result from a higher-precision reference"])

p("C19", "Elementary functions honour special values, symmetry and range",
  "Every elementary function returns the value C Annex F prescribes at zeros, infinities, NaN, poles and out-of-domain arguments (NaN in gives NaN out except where pow and hypot define otherwise). Odd functions are exactly odd and even functions exactly even, and results never leave the mathematical range (for example |sin| <= 1, exp >= 0, tanh in [-1, 1], atan within [-pi/2, pi/2]).",
  ["inputs", "configurations"], "all inputs, in particular all special operands and their combinations for two-argument functions",
  "Special operands of two-argument functions combine with infinitely many ordinary ones (odd integers for pow, signs for atan2) that tests only sample.",
  [M+"pow.rs", M+"powf.rs", M+"atan2.rs", M+"atan2f.rs", M+"exp.rs", M+"log.rs", M+"sin.rs", M+"tgamma.rs", M+"lgamma_r.rs"],
  [("special-case prologues", M+"*.rs")], ["returned bit patterns"])

p("C20", "Every routine returns normally for every input",
  "For every bit pattern of its arguments (excluding division by zero), every arithmetic, conversion and math routine returns: it never panics, traps, indexes outside its tables, performs undefined behaviour or fails to terminate, in optimised builds and in builds with run-time checks enabled.",
  ["inputs", "configurations"], "all argument bit patterns of every public routine, checked and unchecked builds",
  "Unchecked table indexing and unchecked arithmetic are invisible in optimised builds unless the result changes; tests run few inputs in checked builds.",
  [M, CB+"int/", CB+"float/"],
  [("index macros unchecked in release", M+"mod.rs"), ("unreachable hints", CB+"int/specialized_div_rem/mod.rs, "+M+"support/int_traits/narrowing_div.rs")], ["process survival, overflow/bounds/UB checks, per-call CPU time"])

p("C21", "All build configurations compute identical results",
  "For every input, every math and arithmetic routine returns the same bits (any NaN counting as equal to any NaN) whether the library is built with or without architecture-specific code, with or without compiler intrinsics, optimised or with run-time checks, and whether reached through the math crate or through the runtime's exported symbols.",
  ["inputs", "configurations"], "all inputs across the feature matrix {arch, intrinsics} x {optimised, checked} x {math crate, runtime crate, exported archive}",
  "Each test binary checks one configuration against a tolerance; nothing compares configurations with each other.",
  [M+"arch/", M+"mod.rs", CB+"math/mod.rs", "libm/configure.rs", M+"support/macros.rs"],
  [("implementation selection", M+"support/macros.rs"), ("feature gating", "libm/configure.rs")], ["result bits of the same call in each configuration"])

p("C22", "Results do not depend on threads, history or call order",
  "Every routine is a pure function of its arguments: concurrent first calls from any number of threads, with the run-time CPU-feature selection still uninitialised, and any history of earlier calls, give the same results as a single isolated call, without data races. No call changes the rounding mode or other floating-point control state of its thread.",
  ["schedules", "histories"], "all interleavings of first and later calls from several threads; all call histories",
  "The tests are single-process and never race the first call of the lazily selected implementations.",
  [M+"support/feature_detect.rs", M+"arch/x86/detect.rs", M+"arch/x86/fma.rs"],
  [("relaxed atomic function-pointer cache", M+"support/feature_detect.rs"), ("feature flag cache with initialised bit", M+"support/feature_detect.rs")],
  ["results per thread, race detector reports, control registers before/after"], None,
  [("FUNC", "selected implementation pointer", M+"support/feature_detect.rs"), ("CACHE", "cached CPU features", M+"arch/x86/detect.rs")])

p("C23", "The runtime archive is self-contained and every entry point is wired right",
  "A freestanding program linked against nothing but the built runtime archive can call every exported symbol: each name exists with C linkage and weak binding, takes its arguments in the documented order and types, computes the function its name denotes, and never depends on an undefined symbol or calls itself endlessly. The generic per-type facade of the math crate likewise forwards every method to the function of that name with arguments in order.",
  ["inputs", "configurations"], "all exported symbols and facade methods with distinguishing arguments; with and without the memory-symbol feature",
  "The tests use mangled Rust paths only; nothing links and runs the real archive or calls the facade.",
  [CB+"macros.rs", CB+"math/mod.rs", "libm/src/libm_helper.rs", CB+"lib.rs"],
  [("symbol definition macro", CB+"macros.rs"), ("forwarding lists", CB+"math/mod.rs, libm/src/libm_helper.rs")], ["link result, symbol table binding, results of calls by C name"])

p("C24", "Wide-integer helpers behave as true 256-bit integers",
  "256-bit add, subtract, shifts, bit operations, widening multiplication, double-width narrowing division and modular reduction by powers of two give the same result as arbitrary-precision arithmetic for all operands satisfying their preconditions; the checked division declines exactly when the quotient would not fit.",
  ["inputs"], "all operands of each helper at every width offered",
  "2^384 operand space; rare quotient-correction paths are taken with probability near 2^-64 under random operands.",
  [M+"support/big.rs", M+"support/int_traits.rs", M+"support/int_traits/narrowing_div.rs", M+"support/modular.rs"],
  [("limb arithmetic", M+"support/big.rs"), ("three-by-two digit division with correction", M+"support/int_traits/narrowing_div.rs")], ["returned limbs"])

p("C25", "Hexadecimal float text converts both ways exactly",
  "For every well-formed hexadecimal float string and each rounding direction, parsing yields the correctly rounded value of the format with exact inexact/underflow/overflow status, exact parsing rejects every value that is not representable, and malformed text is rejected without panicking. Formatting any finite or infinite value and parsing it back returns the same bits.",
  ["inputs"], "all strings (any length, any exponent text), all bit patterns for formatting, all formats and rounding modes",
  "String inputs are unbounded; tests enumerate small formats and a few hand-written strings.",
  [M+"support/hex_float.rs"], [("digit accumulation with sticky tail and rounding", M+"support/hex_float.rs"), ("formatter", M+"support/hex_float.rs")], ["parsed bits, status, error, formatted text"])

p("C26", "Stack probing touches every page and preserves all state",
  "For every frame size, the stack-probe routine touches the stack at least once in each page between the caller's stack pointer and the requested depth, in order and never further below it than the slot of a return address, so an overflow always hits the guard page first. It returns with the stack pointer, the size register and every other register except its documented scratch unchanged; the 32-bit UEFI variant returns with the frame already taken off the stack pointer.",
  ["inputs"], "all frame sizes (below one page, exact multiples, huge), starting at any stack alignment, in the 64-bit, 32-bit and 32-bit UEFI variants",
  "No test calls it; a skipped page or clobbered register is invisible until a real overflow.",
  [CB+"probestack.rs"], [("page-stride probe loop", CB+"probestack.rs")], ["faulting addresses, register file before/after"])

p("C27", "Atomic helpers for old ARM Linux are atomic under every schedule",
  "Each fetch-and-op, exchange and compare-and-swap helper for 1-, 2- and 4-byte objects acts as one indivisible operation under every interleaving and every spurious or contended failure of the kernel compare-exchange: concurrent histories are linearizable, the returned old/new value is the one the operation acted on, and neighbouring bytes in the same word are never disturbed. The full-barrier helper reaches the kernel's barrier.",
  ["schedules", "histories", "inputs"], "all interleavings with other writers of the same word at every compare-exchange point, all values, sizes and in-word offsets",
  "The module is not even compiled on this host, so no test runs it.",
  [CB+"sync/arm_linux.rs", CB+"sync/arm_thumb_shared.rs"], [("load, modify, compare-exchange retry loop on the containing word", CB+"sync/arm_linux.rs"), ("sub-word insert/extract", CB+"sync/arm_linux.rs")],
  ["returned values, final memory, every kernel-helper call"])

p("C28", "The archive inspection tool flags exactly the defective archives",
  "The symbol checking tool exits successfully on archives free of its defect classes and fails on every archive that defines a global symbol twice (weak definitions included), references a core-library symbol it does not define, holds an object for another architecture, byte order or operating system, requests an executable stack, or exposes a non-hidden symbol, whatever the member order or number of objects.",
  ["inputs"], "archives built from any mix of well-formed and defective object files",
  "Its tests use a few fixed inputs, one defect each.",
  ["crates/symcheck/src/main.rs"], [("per-archive verification passes", "crates/symcheck/src/main.rs")], ["exit status and message for generated archives"])

LT = "libm-test/src/"
p("C29", "The conformance suite's comparison refuses exactly the wrong results",
  "Given an input, an expected and an actual result, the comparison used by the conformance suite refuses the result whenever it differs from the expectation by more than the number of representable steps allowed for the routine, has the other sign (zeros included), is finite where infinity is expected or the reverse, or is NaN where a number is expected or the reverse; integer, boolean and tuple results must match in every component. It accepts everything else, NaN payloads aside. The allowance in force for a routine and reference never exceeds the documented one, and inputs not documented as exceptions get no leniency.",
  ["inputs", "configurations"], "all (routine, input, expected, actual) combinations, every reference basis and generator kind, default and explicit allowances",
  "No test hands the comparison a wrong result; a comparison that accepts too much makes every other test pass.",
  [LT+"test_traits.rs", LT+"precision.rs"], [("validate and step distance", LT+"test_traits.rs"), ("allowance table and documented exceptions", LT+"precision.rs")],
  ["verdict of the comparison for constructed results"])

p("C30", "The conformance suite's input generators cover what they promise",
  "Edge-case inputs of every routine contain, for every argument, zero, one, infinity, the smallest and largest subnormal and normal numbers and their neighbours in both signs, quiet and signaling NaNs, both ends of the routine's domain with the values just outside, and the limits of every integer type; evenly spaced inputs start at one end of the domain, advance in equal strides on the number line (or integer line) and reach the other end, never leaving it; 16-bit single-argument routines are covered exhaustively when the budget allows; shift counts and Bessel orders stay in their documented ranges; every combination of per-argument values is delivered and the announced number of cases is the delivered one; random inputs repeat exactly for a given seed. The number-line helpers (next up/down, n steps up/down, logarithmic and linear spacing) hit exactly the intended values, saturating at infinity.",
  ["inputs", "configurations"], "all routines, generator kinds, iteration budgets, start/end pairs and seeds",
  "Generators are only exercised by the tests they feed; a missing value goes unnoticed because nothing fails.",
  [LT+"generate/edge_cases.rs", LT+"generate/spaced.rs", LT+"generate/random.rs", LT+"num.rs", LT+"domain.rs", LT+"run_cfg.rs"],
  [("edge-case enumeration", LT+"generate/edge_cases.rs"), ("spacing and iteration budget", LT+"generate/spaced.rs, run_cfg.rs"), ("number-line stepping", LT+"num.rs")],
  ["every argument tuple leaving a generator"])

p("C31", "The multiprecision references are correctly rounded",
  "For every routine with a multiprecision reference, the reference returns the correctly rounded result in the routine's own format: subnormals rounded once, overflow to infinity, exact halves to even, signed zeros as the routine defines, and each component of multi-valued results (frexp, modf, lgamma_r, remquo, sincos, integer division with remainder, overflow flags). Integer conversions saturate. The sign of NaN operands is exempt.",
  ["inputs"], "all inputs of all reference routines and formats",
  "The tests compare libm with these references and tolerate differences; when reference and routine err together, or the error is within the allowance, nothing fails.",
  [LT+"mpfloat.rs"], [("precision, subnormal emulation and rounding of each reference", LT+"mpfloat.rs")], ["value returned by each reference"])

U = "crates/util/src/main.rs"
p("C32", "The command-line evaluator reads, evaluates and prints numbers faithfully",
  "The utility's eval command runs exactly the named routine of the named basis on exactly the numbers typed: decimal text rounded once to nearest, hexadecimal floats exactly, 0x/0b text as bit patterns, signed and prefixed integers as written, in every supported type. What it prints, in decimal and hexadecimal, denotes exactly the routine's result; its print command reports the number's bits, class, sign, exponent and fraction correctly. Unreadable input, integers out of range, a wrong number of inputs and unknown commands, bases or operations are refused: no result is printed and the exit status says so.",
  ["inputs"], "all operations, bases, number spellings and malformed inputs",
  "The tool has no tests.",
  [U, "libm/src/math/support/hex_float.rs"], [("text to number conversion", U), ("dispatch of operation and basis", U), ("number description", U)], ["exit status and output of tool runs"])

p("C33", "The CI helper selects the tests and the baseline that a change calls for",
  "For a pull request, the helper lists per float type exactly the routines with a source file that differs between the merge base and the incoming branch (support files aside), tests those unless the text asks to skip them, adds the routines the text names, and lets the libm jobs be skipped only when no libm or musl file changed and the text does not ask for them; for anything else nothing is skipped. Directives count only at the start of a line; unknown directives and misplaced arguments are refused, as are more than 20 extensive tests without the directive that allows them. Regressions pass only when the text allows them; the baseline is taken from the newest matching artifact of the latest successful run; a service that fails is not an error, wrong flags are.",
  ["inputs", "histories"], "all histories leading to a merge, all pull request texts, all answers of the hosting service",
  "The helper has no tests; a routine it overlooks is merged without its extensive test.",
  ["ci/ci-util.py"], [("change list from the merge base", "ci/ci-util.py"), ("directive parsing", "ci/ci-util.py"), ("choice of the baseline", "ci/ci-util.py")],
  ["exit status, output and files left by helper runs"])

p("C34", "The routine lists name every public routine, its type and its source files",
  "The list tool finds exactly the public routines of the library, and for each its type and exactly the files that define it: its own, the generic one, and those of architecture-specific replacements, even when names are prefixes of each other. Its check mode fails on every list that differs from the tree in any way, passes when the lists are right, and never changes them; writing replaces stale lists by right ones. Arguments it does not know are refused.",
  ["inputs", "configurations"], "all library trees made of public, private, generic and architecture-specific definitions, all stale lists",
  "Tests run the check mode once on the tree as it is; a definition the tool overlooks is missing from both sides.",
  ["etc/update-api-list.py"], [("crawling of documentation data", "etc/update-api-list.py"), ("search for definitions", "etc/update-api-list.py"), ("comparison with the committed lists", "etc/update-api-list.py")],
  ["exit status and written lists"])

p("C35", "The test-generating macros visit exactly the routines asked for",
  "The iteration macro calls its callback once for every routine not skipped (or for exactly those named), with that routine's float and integer types, C and Rust signatures, public name, attributes and extra arguments substituted as requested, and with the default where an override is absent. The enumerations contain every routine and every base name, convert to their names and back, and map each routine to its base name. Requests that name unknown routines, fields or attributes, repeat or omit fields, or contradict themselves do not compile.",
  ["inputs"], "all requests: filters, type requests, attributes, overrides, placeholders; all routines",
  "Every generated test goes through these macros; a routine they leave out has no test that could fail.",
  ["crates/libm-macros/src/lib.rs", "crates/libm-macros/src/parse.rs", "crates/libm-macros/src/enums.rs", "crates/api-list-common/src/lib.rs"],
  [("validation and expansion of a request", "crates/libm-macros/src/lib.rs"), ("enumeration of routines", "crates/libm-macros/src/enums.rs"), ("table of signatures", "crates/api-list-common/src/lib.rs")],
  ["callback invocations recorded by compiled programs; compiler verdict on wrong requests"])

p("C36", "The builtins tests' value drivers reach every promised case",
  "The drivers that feed the builtins tests hand out, for every integer type, all runs of set bits between the promised lengths (and, in pairs, every combination and each value against zero), for every float type every combination of edge exponents and significands in both signs, and every promised shift amount, none of them out of range; then exactly as many random values as asked for, whose bits all vary, whose operands are independent and whose exponents cover the range. Two runs hand out the same values.",
  ["inputs"], "all drivers, operand types and numbers of random values",
  "A driver that hands out fewer cases makes every test using it pass more easily.",
  ["builtins-test/src/lib.rs", "compiler-builtins/src/int/traits.rs"], [("edge-case loops and bit-run randomisation", "builtins-test/src/lib.rs")], ["every value handed to a routine under test"])

X32 = "libm/src/math/arch/i586/"
p("C37", "On 32-bit x86 the library computes the same results as specified elsewhere",
  "Built for 32-bit x86 with SSE2 (i686), every routine of the library, integer, soft-float, libm, wide-integer and memory, returns what its specification says, within the bounds that hold on 64-bit machines. Built for x86 without SSE2 (i586, x87 arithmetic), the same holds for integer, soft-float, comparison, conversion, decomposition, remainder, minimum and maximum, wide-integer and memory routines, for sqrt and rounding to integers, and for exp, exp2 and exp10; other routines may round twice there. No call traps, hangs, changes the floating-point control word, leaves values on the x87 register stack or sets the direction flag; signalling NaNs may come back quiet.",
  ["inputs", "configurations"], "all routines and arguments; i686 and i586, optimised and with run-time checks",
  "The tests that run here are compiled for x86-64 only; code selected for 32-bit words or x87 is never executed.",
  [X32 + "rounding.rs", X32 + "exp_all.rs", "compiler-builtins/src/int/specialized_div_rem/mod.rs", "libm/src/math/rem_pio2_large.rs", "compiler-builtins/src/mem/impls.rs", "libm/src/math/generic/round.rs"],
  [("x87 rounding and exponential instructions", X32 + "rounding.rs"), ("64-by-32-bit division instruction", "compiler-builtins/src/int/specialized_div_rem/mod.rs"), ("copying with 4-byte words", "compiler-builtins/src/mem/impls.rs"), ("choice of division algorithms by word size", "compiler-builtins/src/int/specialized_div_rem/mod.rs")],
  ["results and processor state of calls made in 32-bit processes"])

p("C38", "On WebAssembly the library computes the same results as specified elsewhere",
  "Built for 32-bit WebAssembly with the machine's own floating-point instructions selected, every routine of the library, integer, soft-float, libm, wide-integer and memory, returns what its specification says, within the bounds that hold on 64-bit machines, and no call traps or hangs.",
  ["inputs", "configurations"], "all routines and arguments; the build that uses WebAssembly instructions for rounding, square root and absolute value",
  "The tests that run here are compiled for x86-64 only; code selected for WebAssembly is never executed.",
  ["libm/src/math/arch/wasm32/rounding.rs", "libm/src/math/arch/wasm32/sqrt.rs", "libm/src/math/arch/wasm32/fabs.rs", "libm/src/math/arch/mod.rs", "compiler-builtins/src/mem/impls.rs"],
  [("instruction selection", "libm/src/math/arch/wasm32/rounding.rs"), ("code for 4-byte words", "compiler-builtins/src/mem/impls.rs")],
  ["results of calls made inside a WebAssembly instance"])

p("C39", "CI scripts succeed only when every step they promise ran and succeeded",
  "Whichever tool call fails, and with whatever status, the script that made it fails too; only calls that merely print machine information or ask a question, and benchmark regressions outside a pull request, are excused. When every call succeeds, the script succeeds, and it has tested the builtins and checked their symbols with each feature set in debug and release mode, run the program that uses all intrinsics, tested libm in each configuration and checked it for panics, all for the requested target; nothing is executed for a target that can only be built, and libm tests are left out exactly when they may be. The extensive runner tests every routine it was given, normally and extensively; the container script runs each image it was asked for.",
  ["fault_sequences", "configurations"], "all positions and statuses of a failing call; all targets, tools present or absent, and settings of the environment",
  "Nothing tests the scripts; a swallowed status turns every test of a job into decoration.",
  ["ci/run.sh", "ci/run-extensive.sh", "ci/run-docker.sh", "ci/bench-icount.sh", "ci/miri.sh", "ci/bench-walltime.sh"],
  [("steps in order, stopping at the first failure", "ci/run.sh"), ("grouping of output around a command", "ci/run.sh"), ("regressions recorded and reported at the end", "ci/bench-icount.sh")],
  ["exit status of each script, arguments and environment of each tool call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
