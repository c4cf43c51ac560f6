"""Inputs mined from the current sources (every literal near an operation is a candidate operand) and
the arguments that lie closest to multiples of pi/2 for every binary exponent."""
import os
import re
import struct

REPO = os.environ.get("VERIF_REPO", "/repo")
M = REPO + "/libm/src/math"
CB = REPO + "/compiler-builtins/src"

INT = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|128|size))?(?![\w.])")
FLT = re.compile(r"(?<![\w.])-?(\d[\d_]*\.(?:\d[\d_]*)?(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)(?:_?f(?:32|64))?")
HEX = re.compile(r'"([+-]?0x[0-9a-fA-F.]+p[+-]?\d+)"')


def strip(src):
    out = []
    for line in src.split("\n"):
        k = line.find("//")
        out.append(line if k < 0 else line[:k])
    return re.sub(r"/\*.*?\*/", " ", "\n".join(out), flags=re.S)


def literals(path):
    try:
        src = open(path).read()
    except OSError:
        return set(), set()
    src = src.split("#[cfg(test)]")[0]
    src = strip(src)
    ints, flts = set(), set()
    for m in INT.finditer(src):
        t = m.group(1).replace("_", "")
        try:
            v = int(t, 0) if not (t.startswith("0") and t.isdigit()) else int(t)
        except ValueError:
            continue
        if 0 <= v < 1 << 128:
            ints.add(v)
    for m in FLT.finditer(src):
        try:
            flts.add(float(m.group(1).replace("_", "")))
        except ValueError:
            pass
    for m in HEX.finditer(src):
        try:
            flts.add(float.fromhex(m.group(1)))
        except (ValueError, OverflowError):
            pass
    return ints, flts


def deps(stem, seen, depth):
    """source files of a math module and of the helper modules it names"""
    if depth < 0 or stem in seen:
        return
    p = f"{M}/{stem}.rs"
    if not os.path.exists(p):
        return
    seen[stem] = p
    src = strip(open(p).read().split("#[cfg(test)]")[0])
    for w in set(re.findall(r"\b[a-z_0-9]+\b", src)):
        if w.startswith(("k_", "rem_pio2", "expo2", "lgamma", "log1p", "expm1", "exp", "sin", "cos", "sqrt", "scalbn")):
            deps(w, seen, depth - 1)


def libm_files(op):
    seen = {}
    for stem in (op, op + "f", "k_" + op, "k_" + op + "f"):
        deps(stem, seen, 2)
    fam = {"fmin": "fmin_fmax", "fmax": "fmin_fmax", "sincos": "sincos", "erfc": "erf", "y0": "j0", "y1": "j1", "yn": "jn",
           "lgamma_r": "lgamma_r", "cbrt_rx": "cbrt", "hypot_rx": "hypot", "fma_wide": "fma", "fma": "fmaf16",
           "fminimum": "fminimum_fmaximum", "fmaximum": "fminimum_fmaximum",
           "fminimum_num": "fminimum_fmaximum_num", "fmaximum_num": "fminimum_fmaximum_num", "ldexp": "scalbn"}.get(op.removesuffix("_st"))
    if fam:
        deps(fam, seen, 2)
        deps(fam + "f", seen, 2)
    files = list(seen.values())
    base = op.removesuffix("_st")
    for g in {base, fam or base, base.removesuffix("_wide") + "_wide"}:
        files.append(f"{M}/generic/{g}.rs")
        files.append(f"{M}/relaxed/{g}f64.rs")
    return files


CBMAP = {
    "add": ["float/add.rs", "float/sub.rs"], "sub": ["float/add.rs", "float/sub.rs"], "mul": ["float/mul.rs"],
    "div": ["float/div.rs"], "powi": ["float/pow.rs"], "extend": ["float/extend.rs"], "narrow": ["float/trunc.rs"],
    "itof": ["float/conv.rs"], "ftoi": ["float/conv.rs"], "clz": ["int/leading_zeros.rs"], "ctz": ["int/trailing_zeros.rs"],
    "bswap": ["int/bswap.rs"], "ishl": ["int/shift.rs"], "ishr": ["int/shift.rs"],
    "iadd": ["int/addsub.rs"], "isub": ["int/addsub.rs"], "iaddo": ["int/addsub.rs"], "isubo": ["int/addsub.rs"],
    "imul": ["int/mul.rs"], "imulo": ["int/mul.rs"],
}
DIVF = ["int/udiv.rs", "int/sdiv.rs"] + ["int/specialized_div_rem/" + f for f in
       ("mod.rs", "asymmetric.rs", "binary_long.rs", "delegate.rs", "norm_shift.rs", "trifecta.rs")]
for _o in ("idiv", "irem", "idivrem"):
    CBMAP[_o] = DIVF


def op_files(op):
    if op in CBMAP:
        return [f"{CB}/{f}" for f in CBMAP[op]]
    if op.startswith("cmp_"):
        return [f"{CB}/float/cmp.rs"]
    if op.startswith("w_"):
        return [f"{M}/support/big.rs", f"{M}/support/modular.rs", f"{M}/support/int_traits/narrowing_div.rs", f"{M}/support/int_traits/mod.rs", f"{M}/support/int_traits.rs"]
    return libm_files(op)


# ------------------------------------------------------------------ pi/2 worst cases
def pi_int(bits):
    def arctan_inv(x):
        one = 1 << (bits + 32)
        t = one // x
        s, n, sign = t, 3, -1
        x2 = x * x
        while t:
            t //= x2
            s += sign * (t // n)
            sign, n = -sign, n + 2
        return s
    return (4 * (4 * arctan_inv(5) - arctan_inv(239))) >> 32


def worst(p, emax):
    """m*2^e (m of p bits) closest to multiples of pi/2, by continued fractions of 2^e*2/pi"""
    prec = emax + 4 * p + 200
    pi = pi_int(prec)
    out = []
    for e in range(-p, emax + 1):
        # ratio 2^e / (pi/2) as num/den
        num, den = (1 << (prec + 1)), pi
        if e >= 0:
            num <<= e
        else:
            den <<= -e
        a, b = num, den
        h0, h1, k0, k1 = 0, 1, 1, 0
        while b:
            q = a // b
            a, b = b, a - q * b
            h0, h1 = h1, q * h1 + h0
            k0, k1 = k1, q * k1 + k0
            if k1 >= 1 << p:
                # best denominators (our m) below 2^p: the previous convergent and semiconvergents
                for m in {k0, (k1 - k0 * q) + k0 * max(((1 << p) - 1 - (k1 - k0 * q)) // max(k0, 1), 0)}:
                    if 0 < m < 1 << p:
                        mm = m
                        while mm < 1 << (p - 1) and mm * 2 < 1 << p and mm:
                            out.append((mm, e))
                            mm *= 2
                        if mm:
                            out.append((mm, e))
                break
    return out


def main(path, ops):
    lines = []
    cache = {}
    for op in ops:
        ints, flts = set(), set()
        for f in op_files(op):
            if f not in cache:
                cache[f] = literals(f)
            i, fl = cache[f]
            ints |= i
            flts |= fl
        lines += [f"i {op} {v:x}" for v in sorted(ints)]
        lines += [f"f {op} {struct.unpack('>Q', struct.pack('>d', v))[0]:x}" for v in sorted(flts)]
    if {"sin", "cos", "tan", "sincos"} & set(ops):
        seen = set()
        for m, e in worst(53, 971):
            try:
                x = float(m) * 2.0 ** e if abs(e) < 900 else float(m << e if e > 0 else m)
            except OverflowError:
                continue
            if x and x != float("inf"):
                seen.add(struct.unpack(">Q", struct.pack(">d", x))[0])
        lines += [f"pd {v:x}" for v in sorted(seen)]
        seen = set()
        for m, e in worst(24, 104):
            x = float(m) * 2.0 ** e
            if 0 < x < 3.4e38:
                seen.add(struct.unpack(">I", struct.pack(">f", x))[0])
        lines += [f"ps {v:x}" for v in sorted(seen)]
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    os.replace(tmp, path)
    return len(lines)


if __name__ == "__main__":
    import sys
    import table
    print(main(sys.argv[1], sorted({r[1] for r in table.rows})))
