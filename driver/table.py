"""The routine table: one row per (route, routine), used to generate the Rust thunks that call the
library through Rust paths and the C thunks that call the linked runtime archive by symbol name.

Row: (route, op, sig, rust expression or None, C symbol or None)
Signature letters: h f16, s f32, d f64, q f128, i i32, u u32, l i64, L u64, x i128, X u128,
z usize/isize, b bool.  "ab>cd" = arguments a,b, results c,d.
"""
FLT = {"h": ("f16", "f16", "hf"), "s": ("f32", "f", "sf"), "d": ("f64", "", "df"), "q": ("f128", "f128", "tf")}
RTY = {"h": "f16", "s": "f32", "d": "f64", "q": "f128", "i": "i32", "u": "u32", "l": "i64", "L": "u64",
       "x": "i128", "X": "u128", "z": "usize", "b": "bool", "Z": "isize"}
CTY = {"h": "_Float16", "s": "float", "d": "double", "q": "_Float128", "i": "int32_t", "u": "uint32_t",
       "l": "int64_t", "L": "uint64_t", "x": "__int128", "X": "unsigned __int128", "z": "size_t",
       "Z": "ssize_t", "b": "int"}

FWD = "fwd.c"
rows = []


def row(route, op, sig, rust, c=None):
    rows.append((route, op, sig, rust, c))


# ---------------------------------------------------------------- libm
ONE = ("acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 "
       "log1p log2 sin sinh tan tanh tgamma y0 y1").split()
TWO = "atan2 hypot nextafter pow remainder".split()
ALL1 = "ceil fabs floor rint round roundeven sqrt trunc".split()
ALL2 = "copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod".split()


def libm_name(op, t):
    if op == "lgamma_r":
        return "lgammaf_r" if t == "s" else "lgamma_r"
    return op + FLT[t][1]


def libm_rows(route, path, name):
    def r(op, t, sig):
        e = path(op, t)
        if e:
            row(route, op, sig, e, None)
    for t in "sd":
        for op in ONE:
            r(op, t, f"{t}>{t}")
        for op in TWO:
            r(op, t, f"{t}{t}>{t}")
        r("jn", t, f"i{t}>{t}")
        r("yn", t, f"i{t}>{t}")
        r("lgamma_r", t, f"{t}>{t}i")
        r("sincos", t, f"{t}>{t}{t}")
        r("modf", t, f"{t}>{t}{t}")
        r("remquo", t, f"{t}{t}>{t}i")
    for t in "hsdq":
        for op in ALL1:
            r(op, t, f"{t}>{t}")
        for op in ALL2:
            r(op, t, f"{t}{t}>{t}")
        r("fma", t, f"{t}{t}{t}>{t}")
        r("frexp", t, f"{t}>{t}i")
        r("ilogb", t, f"{t}>i")
        r("ldexp", t, f"{t}i>{t}")
        r("scalbn", t, f"{t}i>{t}")


libm_rows("libm", lambda op, t: "libm::" + libm_name(op, t), None)
row("libm", "cbrt_rx", "d>d", "libm::relaxed::cbrtf64")
row("libm", "hypot_rx", "dd>d", "libm::relaxed::hypotf64")

# the per-type facade; a few methods carry type suffixes there
FACADE_ODD = {("fmaximum", "h"): "fmaximumf16", ("sqrt", "h"): "sqrtf", ("trunc", "h"): "truncf",
              ("fmaximum", "s"): None, ("fmaximum_num", "s"): None, ("fminimum", "s"): None, ("fminimum_num", "s"): None}


def facade(op, t):
    m = FACADE_ODD.get((op, t), op)
    return m and f"libm::Libm::<{FLT[t][0]}>::{m}"


libm_rows("facade", facade, None)
for op in "fmaximum fmaximum_num fminimum fminimum_num".split():
    row("facade", op, "ss>s", f"libm::Libm::<f64>::{op}f")

# generic implementations for every format (route gen), with status where offered
for t in "hsdq":
    T = FLT[t][0]
    for op in "ceil floor rint trunc".split():
        row("gen", op + "_st", f"{t}>{t}u", f"|x: {T}| crate::st(libm::generic::{op}_status(x))")
    row("gen", "round", f"{t}>{t}", f"libm::generic::round::<{T}>")
    row("gen", "sqrt", f"{t}>{t}", f"|x: {T}| libm::generic::sqrt_round(x, libm::support::Round::Nearest).val")
    if t != "h":
        row("gen", "fma", f"{t}{t}{t}>{t}",
            f"|x: {T}, y: {T}, z: {T}| libm::generic::fma_round(x, y, z, libm::support::Round::Nearest).val")
    for op in "copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod".split():
        row("gen", op, f"{t}{t}>{t}", f"libm::generic::{op}::<{T}>")
    row("gen", "fabs", f"{t}>{t}", f"libm::generic::fabs::<{T}>")
    row("gen", "frexp", f"{t}>{t}i", f"libm::generic::frexp::<{T}>")
    row("gen", "ilogb", f"{t}>i", f"libm::generic::ilogb::<{T}>")
    row("gen", "scalbn", f"{t}i>{t}", f"libm::generic::scalbn::<{T}>")
row("gen", "fma_wide", "sss>s", "|x: f32, y: f32, z: f32| libm::generic::fma_wide_round(x, y, z, libm::support::Round::Nearest).val")

# ---------------------------------------------------------------- compiler-builtins: exported math
CB1 = {"h": "ceil fabs floor rint roundeven round sqrt trunc", "s": "cbrt ceil fabs floor rint round sqrt trunc roundeven",
       "d": "cbrt ceil fabs floor rint round sqrt trunc roundeven", "q": "ceil fabs floor rint roundeven round sqrt trunc"}
CB2 = {t: "copysign fdim fmax fmaximum_num fmaximum fmin fminimum_num fminimum fmod" for t in "hsdq"}
for t in "hsdq":
    for op in CB1[t].split():
        n = op + FLT[t][1]
        row("cbm", op, f"{t}>{t}", f"compiler_builtins::math::full_availability::{n}", n)
    for op in CB2[t].split():
        n = op + FLT[t][1]
        row("cbm", op, f"{t}{t}>{t}", f"compiler_builtins::math::full_availability::{n}", n)
    if t != "h":
        n = "fma" + FLT[t][1]
        row("cbm", "fma", f"{t}{t}{t}>{t}", f"compiler_builtins::math::full_availability::{n}", n)

# ---------------------------------------------------------------- compiler-builtins: soft float
CBF = "compiler_builtins::float::"
for t in "hsdq":
    sfx = FLT[t][2]
    for op in "add sub mul div".split():
        if op == "div" and t == "h":
            continue
        n = f"__{op}{sfx}3"
        row("cb", op, f"{t}{t}>{t}", f"{CBF}{op}::{n}", n)
    for op in "eq ge gt le lt ne unord".split():
        n = f"__{op}{sfx}2"
        row("cb", "cmp_" + op, f"{t}{t}>Z", f"{CBF}cmp::{n}", n)
    if t != "h":
        n = f"__powi{sfx}2"
        row("cb", "powi", f"{t}i>{t}", f"{CBF}pow::{n}", n)
order = "hsdq"
for a in order:
    for b in order:
        if order.index(a) < order.index(b):
            n = f"__extend{FLT[a][2]}{FLT[b][2]}2"
            row("cb", "extend", f"{a}>{b}", f"{CBF}extend::{n}", n)
        elif order.index(a) > order.index(b):
            n = f"__trunc{FLT[a][2]}{FLT[b][2]}2"
            row("cb", "narrow", f"{a}>{b}", f"{CBF}trunc::{n}", n)
row("cb", "extend", "h>s", f"{CBF}extend::__gnu_h2f_ieee", "__gnu_h2f_ieee")
row("cb", "narrow", "s>h", f"{CBF}trunc::__gnu_f2h_ieee", "__gnu_f2h_ieee")
for t in "sdq":
    for it, isfx, un in (("i", "si", ""), ("l", "di", ""), ("x", "ti", ""), ("u", "si", "un"), ("L", "di", "un"), ("X", "ti", "un")):
        n = f"__float{un}{isfx}{FLT[t][2]}"
        row("cb", "itof", f"{it}>{t}", f"{CBF}conv::{n}", n)
        n = f"__fix{'uns' if un else ''}{FLT[t][2]}{isfx}"
        row("cb", "ftoi", f"{t}>{it}", f"{CBF}conv::{n}", n)

# ---------------------------------------------------------------- compiler-builtins: integers
CBI = "compiler_builtins::int::"
for it, sfx in (("x", "i128"), ("X", "u128")):
    T = RTY[it]
    for op in ("add", "sub"):
        n = f"__rust_{sfx}_{op}"
        row("cb", "i" + op, f"{it}{it}>{it}", f"{CBI}addsub::{n}", n)
        n += "o"
        row("cb", f"i{op}o", f"{it}{it}>{it}b", f"|a: {T}, b: {T}| crate::oflow(|o| {CBI}addsub::{n}(a, b, o))", n)
row("cb", "imul", "LL>L", f"{CBI}mul::__muldi3", "__muldi3")
row("cb", "imul", "xx>x", f"{CBI}mul::__multi3", "__multi3")
for it, n in (("i", "__mulosi4"), ("l", "__mulodi4"), ("x", "__muloti4"), ("x", "__rust_i128_mulo"), ("X", "__rust_u128_mulo")):
    T = RTY[it]
    row("cb", "imulo", f"{it}{it}>{it}b", f"|a: {T}, b: {T}| crate::oflow(|o| {CBI}mul::{n}(a, b, o))", n)
for it, sfx in (("i", "si"), ("l", "di"), ("x", "ti")):
    T = RTY[it]
    row("cb", "idiv", f"{it}{it}>{it}", f"{CBI}sdiv::__div{sfx}3", f"__div{sfx}3")
    row("cb", "irem", f"{it}{it}>{it}", f"{CBI}sdiv::__mod{sfx}3", f"__mod{sfx}3")
    row("cb", "idivrem", f"{it}{it}>{it}{it}", f"|a: {T}, b: {T}| {{ let mut r: {T} = crate::POISON as {T}; let q = {CBI}sdiv::__divmod{sfx}4(a, b, &mut r); (q, r) }}", f"__divmod{sfx}4")
for it, sfx in (("u", "si"), ("L", "di"), ("X", "ti")):
    T = RTY[it]
    row("cb", "idiv", f"{it}{it}>{it}", f"{CBI}udiv::__udiv{sfx}3", f"__udiv{sfx}3")
    row("cb", "irem", f"{it}{it}>{it}", f"{CBI}udiv::__umod{sfx}3", f"__umod{sfx}3")
    row("cb", "idivrem", f"{it}{it}>{it}{it}", f"|a: {T}, b: {T}| {{ let mut r: {T} = crate::POISON as {T}; let q = {CBI}udiv::__udivmod{sfx}4(a, b, Some(&mut r)); (q, r) }}", f"__udivmod{sfx}4")
    row("cb", "idiv", f"{it}{it}>{it}", f"|a: {T}, b: {T}| {CBI}udiv::__udivmod{sfx}4(a, b, None)", f"__udivmod{sfx}4:null")
row("alg", "idivrem", "uu>uu", f"{CBI}udiv::u32_div_rem")
row("alg", "idivrem", "LL>LL", f"{CBI}udiv::u64_div_rem")
row("alg", "idivrem", "XX>XX", f"{CBI}udiv::u128_div_rem")
row("alg", "idivrem", "XX>XX", f"|a: u128, b: u128| {{ let mut r = crate::POISON as u128; let q = {CBI}udiv::u128_divide_sparc(a, b, &mut r); (q, r) }}")
for k in ("delegate", "delegate_no_lz", "trifecta", "asymmetric"):
    row("hook", "idivrem", "XX>XX", f"{CBI}udiv::verif_u128_{k}")
for k in ("delegate", "delegate_no_lz", "asymmetric", "binary_long_no_lz"):
    row("hook", "idivrem", "LL>LL", f"{CBI}udiv::verif_u64_{k}")
row("hook", "idivrem", "uu>uu", f"{CBI}udiv::verif_u32_binary_long_no_lz")
for it, st, sfx in (("u", "i", "si"), ("L", "l", "di"), ("X", "x", "ti")):
    row("cb", "ishl", f"{it}u>{it}", f"{CBI}shift::__ashl{sfx}3", f"__ashl{sfx}3")
    row("cb", "ishr", f"{it}u>{it}", f"{CBI}shift::__lshr{sfx}3", f"__lshr{sfx}3")
    row("cb", "ishr", f"{st}u>{st}", f"{CBI}shift::__ashr{sfx}3", f"__ashr{sfx}3")
    row("cb", "clz", f"{it}>z", f"{CBI}leading_zeros::__clz{sfx}2", f"__clz{sfx}2")
    row("cb", "ctz", f"{it}>z", f"{CBI}trailing_zeros::__ctz{sfx}2", f"__ctz{sfx}2")
    row("cb", "bswap", f"{it}>{it}", f"{CBI}bswap::__bswap{sfx}2", f"__bswap{sfx}2")
for it in "uLX":
    if it != "X":
        row("alg", "clz", f"{it}>z", f"{CBI}leading_zeros::leading_zeros_default::<{RTY[it]}>")
        row("alg", "clz", f"{it}>z", f"{CBI}leading_zeros::leading_zeros_condset::<{RTY[it]}>")
        row("alg", "ctz", f"{it}>z", f"{CBI}trailing_zeros::trailing_zeros::<{RTY[it]}>")

# ---------------------------------------------------------------- wide integers (two u128 limbs lo, hi)
U256 = "crate::mk256"
def wide(name, sig, expr):
    row("wide", name, sig, expr)
for s in ("libm::support", "compiler_builtins::support"):
    P = s
    wide("w_add", "XXXX>XX", f"|a: u128, b: u128, c: u128, d: u128| {{ use {P}::*; let r = u256 {{ lo: a, hi: b }} + u256 {{ lo: c, hi: d }}; (r.lo, r.hi) }}")
    wide("w_sub", "XXXX>XX", f"|a: u128, b: u128, c: u128, d: u128| {{ use {P}::*; let r = u256 {{ lo: a, hi: b }} - u256 {{ lo: c, hi: d }}; (r.lo, r.hi) }}")
    wide("w_shl", "XXu>XX", f"|a: u128, b: u128, s: u32| {{ use {P}::*; let r = u256 {{ lo: a, hi: b }} << s; (r.lo, r.hi) }}")
    wide("w_shr", "XXu>XX", f"|a: u128, b: u128, s: u32| {{ use {P}::*; let r = u256 {{ lo: a, hi: b }} >> s; (r.lo, r.hi) }}")
    wide("w_sar", "XXu>XX", f"|a: u128, b: u128, s: u32| {{ use {P}::*; let r = i256 {{ lo: a, hi: b as i128 }} >> s; (r.lo, r.hi as u128) }}")
    wide("w_sshl", "XXu>XX", f"|a: u128, b: u128, s: u32| {{ use {P}::*; let r = i256 {{ lo: a, hi: b as i128 }} << s; (r.lo, r.hi as u128) }}")
    wide("w_or", "XXXX>XX", f"|a: u128, b: u128, c: u128, d: u128| {{ use {P}::*; let r = u256 {{ lo: a, hi: b }} | u256 {{ lo: c, hi: d }}; (r.lo, r.hi) }}")
    wide("w_not", "XX>XX", f"|a: u128, b: u128| {{ use {P}::*; let r = !u256 {{ lo: a, hi: b }}; (r.lo, r.hi) }}")
    wide("w_cmp", "XXXX>i", f"|a: u128, b: u128, c: u128, d: u128| {{ use {P}::*; u256 {{ lo: a, hi: b }}.cmp(&u256 {{ lo: c, hi: d }}) as i32 }}")
    wide("w_mul", "XX>XX", f"|a: u128, b: u128| {{ use {P}::*; let r = a.widen_mul(b); (r.lo, r.hi) }}")
    wide("w_zmul", "xx>XX", f"|a: i128, b: i128| {{ use {P}::*; let r = a.zero_widen_mul(b); (r.lo, r.hi as u128) }}")
    wide("w_mul64", "LL>X", f"|a: u64, b: u64| {{ use {P}::*; HInt::widen_mul(a, b) }}")
    wide("w_mul32", "uu>L", f"|a: u32, b: u32| {{ use {P}::*; HInt::widen_mul(a, b) }}")
    wide("w_smul64", "ll>x", f"|a: i64, b: i64| {{ use {P}::*; HInt::widen_mul(a, b) }}")
    wide("w_ndiv", "XXX>XXb", f"|a: u128, b: u128, n: u128| {{ use {P}::*; match (u256 {{ lo: a, hi: b }}).checked_narrowing_div_rem(n) {{ Some((q, r)) => (q, r, 1i32), None => (0, 0, 0) }} }}")
    wide("w_ndiv128", "XL>LLb", f"|a: u128, n: u64| {{ use {P}::*; match a.checked_narrowing_div_rem(n) {{ Some((q, r)) => (q, r, 1i32), None => (0, 0, 0) }} }}")
    wide("w_ndiv64", "Lu>uub", f"|a: u64, n: u32| {{ use {P}::*; match a.checked_narrowing_div_rem(n) {{ Some((q, r)) => (q, r, 1i32), None => (0, 0, 0) }} }}")
    wide("w_modpow", "XuX>X", f"|x: u128, e: u32, y: u128| {{ use {P}::*; linear_mul_reduction(x, e, y) }}")
    wide("w_modpow", "LuL>L", f"|x: u64, e: u32, y: u64| {{ use {P}::*; linear_mul_reduction(x, e, y) }}")
    wide("w_modpow", "uuu>u", f"|x: u32, e: u32, y: u32| {{ use {P}::*; linear_mul_reduction(x, e, y) }}")


# memory routines where they cannot be called on the monitor's own buffers: length, two offsets, contents
# comparisons return a pointer-sized integer on some targets only
FOREIGN = [(ro, op, sg, f"|a: {RTY[sg[0]]}, b: {RTY[sg[1]]}| {ru}(a, b) as isize" if sg.endswith("Z") else ru, c) for ro, op, sg, ru, c in rows] + [("mem", "m_" + op, "LLLL>" + r, f"crate::mems::{fn}", op) for op, fn, r in (
    ("memcpy", "copy", "Li"), ("memmove", "mov", "Li"), ("memset", "set", "Li"), ("memcmp", "cmp", "i"), ("bcmp", "bcmp", "i"), ("strlen", "strlen", "i"))]


def entry_name(i, rows):
    route, op, sig, rust, c = rows[i]
    if rust.startswith("|"):
        return c or f"{op}#{i}"
    return c or rust.replace("libm::", "").replace("compiler_builtins::int::udiv::", "").replace("compiler_builtins::", "")


def rust_source(skip=(), rows=rows):
    out = []
    for i, (route, op, sig, rust, c) in enumerate(rows):
        if rust is None or i in skip:
            continue
        a, r = sig.split(">")
        name = f"{route}:{(c or rust.split('::')[-1] if not rust.startswith('|') else (c or op))}"
        args = ", ".join(f"{RTY[ch]}" for ch in a)
        cfg = "#[cfg(verif_hooks)] " if route == "hook" else ""
        ret = "(" + "".join(("i32" if ch == "b" else RTY[ch]) + ", " for ch in r) + ")" if len(r) > 1 else RTY[r]
        expr = rust
        if ("compiler_builtins::mem" in rust):
            continue
        out.append(f'{cfg}thunk!(t{i}, ({args}), {ret}, {expr});')
    out.append("pub static TABLE: &[Entry] = &[")
    for i, (route, op, sig, rust, c) in enumerate(rows):
        if rust is None or i in skip:
            continue
        nm = entry_name(i, rows)
        cfg = "#[cfg(verif_hooks)] " if route == "hook" else ""
        out.append(f'{cfg}Entry {{ route: b"{route}\\0".as_ptr(), name: b"{nm}\\0".as_ptr(), op: b"{op}\\0".as_ptr(), sig: b"{sig}\\0".as_ptr(), f: t{i} }},')
    out.append("];")
    return "\n".join(out) + "\n"


def c_source(skip=(), probestack=None):
    """C thunks that call each exported symbol by its C name and prototype."""
    out = ["#include <stdint.h>", "#include <stddef.h>", "#include <sys/types.h>", "typedef unsigned __int128 u128;",
           "typedef struct { const char *route, *name, *op, *sig; void (*f)(const u128*, u128*); } Entry;",
           "#define COPY(d, s, n) do { for (size_t k_ = 0; k_ < (n); k_++) ((volatile unsigned char *)(d))[k_] = ((const volatile unsigned char *)(s))[k_]; } while (0)"]
    seen = set()
    ents = []
    for i, (route, op, sig, rust, c) in enumerate(rows):
        if not c:
            continue
        sym, _, null = c.partition(":")
        if sym in skip:
            continue
        a, r = sig.split(">")
        r0 = r[0]
        ptr = None
        if op in ("iaddo", "isubo", "imulo"):
            ptr = "int32_t"
        elif op == "idivrem":
            ptr = CTY[r[1]]
        elif null:
            ptr = CTY[r[0]]
        # shift amounts are C int
        ats = [CTY[ch] for ch in a]
        if sym not in seen:
            seen.add(sym)
            out.append(f"extern {CTY[r0]} {sym}({', '.join(ats + ([ptr + ' *'] if ptr else []))}) __asm__(\"{sym}\");".replace(f" {sym}(", f" ar_{sym}("))
        body = []
        for k, ch in enumerate(a):
            body.append(f"{CTY[ch]} a{k}; COPY(&a{k}, &in[{k}], sizeof a{k});")
        call = ", ".join(f"a{k}" for k in range(len(a)))
        if ptr and null:
            call += ", 0"
        elif ptr and op != "idivrem":
            # run with the flag word preset to 0 and to junk: both must end up with the same verdict
            body.append(f"int32_t p = 0, p2 = 0x5a5a5a5a; {CTY[r0]} r2 = ar_{sym}({call}, &p2);")
            call += ", &p"
        elif ptr:
            body.append(f"{ptr} p = ({ptr})0x5a5a5a5a5a5a5a5aLL;")
            call += ", &p"
        body.append(f"{CTY[r0]} r = ar_{sym}({call}); out[0] = 0; COPY(&out[0], &r, sizeof r);")
        if r0 in "ilxZ":
            body.append("out[0] = (u128)(__int128)r;")
        if ptr and not null and op == "idivrem":
            body.append("out[1] = (u128)(__int128)p;")
        elif ptr and not null:
            body.append("out[1] = (u128)((p != 0) + 2 * (p2 != 0)) + 4 * (r != r2);")
        out.append(f"static void t{i}(const u128 *in, u128 *out) {{ {' '.join(body)} }}")
        ents.append(f'{{ "ar", "{c}", "{op}", "{sig}", t{i} }},')
    out.append("const Entry AR_TABLE[] = {")
    out += ents
    out.append("};")
    out.append("const Entry *sut_table(void) { return AR_TABLE; }")
    out.append(f"size_t sut_table_len(void) {{ return {len(ents)}; }}")
    if probestack:
        out.append(f'extern char ar_probestack[] __asm__("{probestack}");')
        out.append("size_t sut_probestack(void) { return (size_t)ar_probestack; }")
    if "memcpy" not in skip:
        names = ("memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen")
        out += [f'extern char ar_m_{n}[] __asm__("{n}");' for n in names]
        out.append("void sut_mem(size_t *out) { " + " ".join(f"out[{i}] = (size_t)ar_m_{n};" for i, n in enumerate(names)) + " }")
    return "\n".join(out) + "\n"


def forward_source(skip=(), hooks=True):
    """The same table with every entry forwarded by its position."""
    out, ents = ['#include "' + FWD + '"'], []
    for i, (route, op, sig, rust, c) in enumerate(FOREIGN):
        if rust is None or i in skip or route == "hook" and not hooks:
            continue
        n = len(ents)
        out.append(f"static void t{n}(const u128 *a, u128 *r) {{ forward({n}, a, r); }}")
        ents.append(f'{{ "{route}", "{entry_name(i, FOREIGN)}", "{op}", "{sig}", t{n} }},')
    return "\n".join(out + ["const Entry FWD_TABLE[] = {"] + ents + ["};", f"const uint32_t FWD_LEN = {len(ents)};"]) + "\n"


def symbols():
    return sorted({c.partition(":")[0] for *_, c in rows if c})


if __name__ == "__main__":
    import sys
    print({"rust": rust_source, "c": c_source}[sys.argv[1]]())
