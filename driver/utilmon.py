"""Workload and oracle for the command line evaluator: texts are made from known numbers, the tool runs on
them, what it prints is compared with a direct call of the routine and with the fields of the number."""
import ctypes
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from fractions import Fraction

import core
import lttable
from core import BUILD, REPO, Inconclusive, sh

sys.set_int_max_str_digits(0)
FMT = {"h": (16, 10), "s": (32, 23), "d": (64, 52), "q": (128, 112)}
INT = {"i": (32, True), "u": (32, False), "l": (64, True), "L": (64, False), "x": (128, True), "X": (128, False), "z": (64, False)}


def build():
    tdir = BUILD + "/t-util"
    r = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/crates/util/Cargo.toml", "--target-dir", tdir,
            "--no-default-features", "--features", "unstable-float,build-mpfr"], cwd=REPO)
    exe = tdir + "/debug/util"
    if r.returncode or not os.path.exists(exe):
        raise Inconclusive("the evaluator does not build:\n" + r.stderr[-3000:])
    return exe


# ------------------------------------------------------------------ numbers
def bias(t):
    w, p = FMT[t]
    return (1 << (w - p - 2)) - 1


def inf(t):
    w, p = FMT[t]
    return ((1 << (w - p - 1)) - 1) << p


def is_nan(t, b):
    return b & ~(1 << (FMT[t][0] - 1)) > inf(t)


def value(t, b):
    """The magnitude of a finite number."""
    w, p = FMT[t]
    b &= (1 << (w - 1)) - 1
    e, m = b >> p, b & ((1 << p) - 1)
    if e:
        m |= 1 << p
    return Fraction(m) * Fraction(2) ** (max(e, 1) - bias(t) - p)


def nearest(t, v):
    """Bits of the number nearest to the magnitude v, ties to even."""
    w, p = FMT[t]
    if v == 0:
        return 0
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** e > v:
        e -= 1
    q = max(e, 1 - bias(t)) - p
    x = v / Fraction(2) ** q
    n = x.numerator // x.denominator
    r = x - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    b = n if q == 1 - bias(t) - p else n + ((q + p + bias(t) - 1) << p)
    return min(b, inf(t))


def decimal(v, extra=0):
    """The exact decimal expansion of a dyadic magnitude, as scientific text."""
    k = v.denominator.bit_length() - 1
    s = str(v.numerator * 5 ** k)
    return s[0] + ("." + s[1:] if s[1:] else "") + f"e{len(s) - 1 - k}"


def hexfloat(t, b, r):
    """One of the many spellings of a finite number."""
    v = value(t, b)
    if v == 0:
        return r.choice(["0x0p0", "0x0.0p+3", "0x0p-9"])
    n, k = v.numerator, v.denominator.bit_length() - 1
    n, e = (n, -k)
    while n % 2 == 0:
        n, e = n // 2, e + 1
    sh_ = r.randrange(4)
    n, e = n << sh_, e - sh_
    h = f"{n:x}"
    if r.random() < 0.3:
        h = h.upper()
    if r.random() < 0.3:
        h = "0" * r.randrange(1, 4) + h
    cut = r.randrange(1, len(h) + 1)
    e += 4 * (len(h) - cut)
    h = h[:cut] + ("." + h[cut:] if h[cut:] else "")
    return f"0x{h}p{'+' if e >= 0 and r.random() < 0.5 else ''}{e}"


def read_hex(t, s):
    """Bits written in the tool's hexadecimal notation, or None."""
    w, p = FMT[t]
    sign = 1 << (w - 1) if s[:1] == "-" else 0
    s = s[1:] if s[:1] in "+-" else s
    m = re.fullmatch(r"[qs]?NaN\(0x([0-9a-f]+)\)|NaN", s)
    if m:
        q = 1 << (p - 1) if not s.startswith("s") else 0
        return sign | inf(t) | q | int(m.group(1) or "0", 16)
    if s == "inf":
        return sign | inf(t)
    m = re.fullmatch(r"0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]?\d+)", s)
    if not m:
        return None
    f = m.group(2) or ""
    v = Fraction(int(m.group(1) + f, 16)) * Fraction(2) ** (int(m.group(3)) - 4 * len(f))
    b = nearest(t, v)
    return sign | b if b < inf(t) and value(t, b) == v else None


def read_dec(t, s):
    """Bits nearest to what Rust's debug format prints, or None."""
    w = FMT[t][0]
    sign = 1 << (w - 1) if s[:1] == "-" else 0
    s = s.lstrip("-")
    if s == "NaN":
        return inf(t) + 1
    if s == "inf":
        return sign | inf(t)
    if s.startswith("0x"):
        return int(s, 16)
    if not re.fullmatch(r"\d+(\.\d+)?(e-?\d+)?", s):
        return None
    return sign | nearest(t, Fraction(s))


# ------------------------------------------------------------------ texts with a known meaning
def float_bits(t, r):
    w, p = FMT[t]
    k = r.random()
    if k < 0.08:
        b = r.choice([0, 1, 2, 3, (1 << p) - 1, 1 << p, (1 << p) + 1, inf(t) - 1, inf(t) - 2, bias(t) << p])
    elif k < 0.25:
        b = r.getrandbits(p)  # subnormal
    elif k < 0.6:
        b = ((bias(t) + r.randrange(-12, 13)) << p) | (r.getrandbits(p) >> r.randrange(p) << r.randrange(p)) & ((1 << p) - 1)
    else:
        b = r.randrange(inf(t))
    return b | (r.getrandbits(1) << (w - 1))


def float_text(t, r):
    """(text, bits, family)"""
    w, p = FMT[t]
    b = float_bits(t, r)
    mag, neg = b & ((1 << (w - 1)) - 1), b >> (w - 1)
    sg = "-" if neg else r.choice(["", "", "", "+"])
    k = r.random()
    if k < 0.04:
        return sg + r.choice(["inf", "Inf", "infinity"]), neg << (w - 1) | inf(t), "infinity"
    if k < 0.06:
        return r.choice(["nan", "NaN"]), inf(t) + 1, "nan"
    if k < 0.22:
        return (f"0x{b:x}" if r.random() < 0.7 else f"0b{b:b}"), b, "bits"
    if k < 0.3:
        b = r.getrandbits(w)
        return f"0x{b:0{w // 4}x}", b, "bits"
    if k < 0.5:
        return ("-" if neg else "") + hexfloat(t, b, r), b, "hex float"
    # decimal: the number itself, a tie, or next to one
    if t == "q" and abs((mag >> p) - bias(t)) > 1500 and r.random() < 0.9:
        mag = mag & ((1 << p) - 1) | (bias(t) + r.randrange(-300, 300)) << p
    v = value(t, mag)
    fam = "decimal"
    j = r.random()
    # the standard library rounds ties between subnormal f16 numbers up
    if j < 0.5 and mag + 1 < inf(t) and not (t == "h" and mag < 1 << p):
        v = (v + value(t, mag + 1)) / 2
        fam = "decimal tie"
        if j < 0.35:
            s = decimal(v)
            m, e = s.split("e")
            m += ("" if "." in m else ".") + "0" * r.randrange(0, 40) + "1"
            fam = "decimal above a tie"
            if j < 0.17:
                # the same distance below
                up = Fraction(f"{m}e{e}") - v
                v = v - up
                s = decimal2(v)
                if s:
                    return sg + s, neg << (w - 1) | nearest(t, v), "decimal below a tie"
            return f"{sg}{m}e{e}", neg << (w - 1) | nearest(t, Fraction(f"{m}e{e}")), fam
    elif j < 0.8:
        s = f"{r.randrange(10 ** r.randrange(1, 20))}"
        if r.random() < 0.6:
            s += f".{r.randrange(10 ** r.randrange(1, 20))}"
        if r.random() < 0.5:
            m = {"h": 9, "s": 50, "d": 345, "q": 5000}[t]
            s += f"e{r.randrange(-m, m)}"
        return sg + s, neg << (w - 1) | nearest(t, Fraction(s)), "decimal"
    return sg + decimal(v), neg << (w - 1) | nearest(t, v), fam


def decimal2(v):
    """Exact decimal text of a number whose denominator has only twos and fives."""
    d, k2, k5 = v.denominator, 0, 0
    while d % 2 == 0:
        d, k2 = d // 2, k2 + 1
    while d % 5 == 0:
        d, k5 = d // 5, k5 + 1
    if d != 1 or v <= 0:
        return None
    k = max(k2, k5)
    n = v.numerator * 2 ** (k - k2) * 5 ** (k - k5)
    return f"{n}e-{k}" if k else str(n)


def int_value(c, r):
    w, s = INT[c]
    k = r.random()
    if k < 0.15:
        v = r.choice([0, 1, 2, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, (1 << w) - 2])
    else:
        v = r.getrandbits(w) >> r.randrange(w)
        if r.random() < 0.3:
            v = -v & ((1 << w) - 1)
    return v - (1 << w) if s and v >> (w - 1) else v


def int_text(c, v, r):
    k = r.random()
    if k < 0.5:
        return str(v), "decimal"
    if v < 0:
        return f"-0x{-v:x}", "negative hex"
    if k < 0.6:
        return f"+{v}", "decimal"
    if k < 0.85:
        return f"0x{v:x}", "hex"
    return f"0b{v:b}", "binary"


BAD_FLOAT = ["", "x", "1.5.2", "1e", "0x", "0xg", "0b2", "--1", "1,2", "0b", "12f", "0x1p", "0x1.8pz", "-"]
BAD_INT = ["", "x", "1.5", "0x", "0xg", "0b2", "--1", "1e3", "0b", "-", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "0x1ffffffffffffffffffffffffffffffff"]


# ------------------------------------------------------------------ direct calls
class Entry(ctypes.Structure):
    _fields_ = [("route", ctypes.c_char_p), ("name", ctypes.c_char_p), ("op", ctypes.c_char_p), ("sig", ctypes.c_char_p), ("f", ctypes.c_void_p)]


def load(so):
    lib = ctypes.CDLL(so)
    lib.sut_table.restype = ctypes.POINTER(Entry)
    lib.sut_table_len.restype = ctypes.c_size_t
    tab = lib.sut_table()
    return [(e.route.decode(), e.name.decode(), e.op.decode(), e.sig.decode(), ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p)(e.f))
            for e in (tab[i] for i in range(lib.sut_table_len()))]


def call(f, args, n):
    a = (ctypes.c_uint64 * 32)()
    o = (ctypes.c_uint64 * 32)()
    base = (ctypes.addressof(a) + 15) & ~15
    ob = (ctypes.addressof(o) + 15) & ~15
    for i, v in enumerate(args):
        v &= (1 << 128) - 1
        ctypes.c_uint64.from_address(base + 16 * i).value = v & ((1 << 64) - 1)
        ctypes.c_uint64.from_address(base + 16 * i + 8).value = v >> 64
    f(base, ob)
    return [ctypes.c_uint64.from_address(ob + 16 * i).value | ctypes.c_uint64.from_address(ob + 16 * i + 8).value << 64 for i in range(n)]


# ------------------------------------------------------------------ judging
def agrees(c, text, hexed, bits):
    """What is wrong with one printed result, or None."""
    if c in FMT:
        w = FMT[c][0]
        for got in (read_dec(c, text), read_hex(c, hexed)):
            if got is None:
                return "cannot be read back"
            if is_nan(c, got) != is_nan(c, bits) or not is_nan(c, bits) and got != bits:
                return "is another number"
        return None
    if c == "b":
        want = "true" if bits else "false"
        return None if (text, hexed) == (want, want) else "is another truth value"
    w, s = INT[c]
    v = bits & ((1 << w) - 1)
    if not re.fullmatch(r"0x[0-9a-f]+", hexed) or int(hexed, 16) != v:
        return "is another integer"
    return None if text == str(v - (1 << w) if s and v >> (w - 1) else v) else "is another integer"


def pieces(line):
    m = re.fullmatch(r"\((.*)\) \((.*)\)", line)
    if m:
        return list(zip(m.group(1).split(", "), m.group(2).split(", ")))
    p = line.split(" ")
    return [tuple(p)] if len(p) == 2 else []


PRINTED = ["hex", "bits", "nan", "inf", "normal", "pos", "exp", "exp unbiased", "frac"]


def judge_print(t, bits, lines):
    w, p = FMT[t]
    nan = is_nan(t, bits)
    d = {}
    for l in lines[1:]:
        k, _, v = l.strip().partition(":")
        d[k] = v.strip()
    if len(lines) != 1 + len(PRINTED) or set(d) != set(PRINTED):
        return "fields are missing"
    if agrees(t, lines[0], d["hex"], bits):
        return "number " + agrees(t, lines[0], d["hex"], bits)
    got = int(d["bits"], 16)
    if nan and not is_nan(t, got) or not nan and got != bits:
        return f"bits {d['bits']} are another number's"
    bits = got  # the payload of a NaN read from text is not ours to say
    mag = bits & ((1 << (w - 1)) - 1)
    e, m = mag >> p, mag & ((1 << p) - 1)
    want = {"nan": str(nan).lower(), "inf": str(mag == inf(t)).lower(), "pos": str(bits >> (w - 1) == 0).lower(),
            "exp unbiased": str(e - bias(t))}
    if 0 < mag < inf(t):
        want["normal"] = str(e != 0).lower()
    for k, v in want.items():
        if d[k] != v:
            return f"{k} is {v}"
    for k, v in (("exp", e), ("frac", m)):
        q = d[k].split()
        if len(q) != 2 or int(q[0]) != v or int(q[1], 16) != v:
            return f"{k} is {v}"
    return None


def run(chk, sut, mp, secs):
    exe = build()
    direct = {"libm": {}, "mpfr": {}}
    by = {}
    for route, name, op, sig, f in load(sut):
        k = (op, sig)
        if route == "libm":
            by[("libm", name.split("::")[-1], sig)] = f
        by.setdefault(k, f) if route not in ("libm", "alg", "hook", "wide", "gen") else None
    cb = {"cmpb_" + n: n for n in "eq ge gt le lt ne unord".split()}
    for op, sig, name in lttable.rows:
        f = by.get(("libm", name, sig)) or (by.get((op, sig)) if op not in cb else None)
        if f:
            direct["libm"][name] = f
    for route, name, op, sig, f in load(mp):
        direct["mpfr"][name.split(":")[-1]] = f
    rows = [r for r in lttable.rows if r[2] in direct["libm"] or r[2] in direct["mpfr"] or r[0] in cb]
    scratch = tempfile.mkdtemp(prefix="util", dir=core.GEN)
    e = core.env(RUST_BACKTRACE="0")
    lock = threading.Lock()
    end = time.time() + secs
    st = {"evals": 0, "checks": 0, "rejected": 0}
    per, kinds, viol, samples, incon = {}, set(), [], [], []
    # the multiprecision references are not for several threads at once
    mplock = threading.Lock()

    def tool(args):
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=e, cwd=scratch)
        return p.returncode, p.stdout, p.stderr

    def bad(sig, text, args):
        with lock:
            viol.append({"sig": "util " + sig, "text": text, "args": args})

    def eval_one(r, row):
        op, sig, name = row
        a, res = sig.split(">")
        shift = op in ("ishl", "ishr")
        vals, texts, fams = [], [], []
        for i, c in enumerate(a):
            if c in FMT:
                x, b, fam = float_text(c, r)
                if op in ("jn", "yn", "tgamma", "lgamma", "lgamma_r") or c == "q" and len(x) > 3000:
                    b = nearest(c, Fraction(r.randrange(1, 5000), 256))
                    x, fam = f"0x{b:x}", "bits"
            else:
                b = int_value(c, r)
                if shift and i == 1:
                    b = r.randrange(INT[a[0]][0])
                if op in ("jn", "yn"):
                    b = r.randrange(0, 9)
                if op in ("idiv", "irem", "idivrem") and i == 1 and (b == 0 or b == -1):
                    b = 3
                x, fam = int_text(c, b, r)
            if r.random() < 0.05:
                x += ","
            vals.append(b)
            texts.append(x)
            fams.append(fam)
        basis = r.choice([k for k in direct if name in direct[k]] or ["libm"])
        if op == "copysign" and is_nan(a[1], vals[1]):
            basis = "libm"  # MPFR keeps no sign for NaN
        f = direct[basis].get(name)
        if f:
            if basis == "mpfr":
                with mplock:
                    want = call(f, vals, len(res))
            else:
                want = call(f, vals, len(res))
        else:
            t = a[0]
            key = [(-1 if v >> (FMT[t][0] - 1) else 1) * value(t, v) if v & ((1 << (FMT[t][0] - 1)) - 1) < inf(t) else v for v in vals]
            un = any(is_nan(t, v) for v in vals)
            if any(v & ((1 << (FMT[t][0] - 1)) - 1) == inf(t) for v in vals):
                return
            x, y = key
            want = [{"eq": not un and x == y, "ne": un or x != y, "lt": not un and x < y, "le": not un and x <= y, "gt": not un and x > y,
                     "ge": not un and x >= y, "unord": un}[cb[op]] if not un else cb[op] in ("ne", "unord")]
        args = [r.choice(["eval", "x"]), basis, name] + texts
        rc, out, err = tool(args)
        got = pieces(out.rstrip("\n"))
        why = None
        if rc or len(got) != len(res):
            why = f"refused: {err.strip()[-200:]}" if rc else f"printed {out!r}"
        else:
            for c, (p, h), w in zip(res, got, want):
                w = w & 1 if c == "b" else w
                bad_ = agrees(c, p, h, w)
                if bad_:
                    why = f"printed {p} {h}, which {bad_}; the routine gives {w:#x}"
                    break
        with lock:
            st["evals"] += 1
            st["checks"] += len(res)
            per[name] = per.get(name, 0) + 1
            kinds.add((basis, name) + tuple(fams))
            if len(samples) < 40 and st["evals"] % 37 == 1:
                samples.append(" ".join(args)[:160] + " -> " + out.strip()[:120])
        if why:
            bad(f"{basis} {name} {'/'.join(fams)}", f"{' '.join(args)[:300]}: {why}", args)

    def print_one(r):
        items = [(t,) + float_text(t, r) for t in (r.choice("hsdq") for _ in range(12))]
        items = [i for i in items if len(i[2 - 1]) < 6000]
        args = [r.choice(["print", "p"])]
        for t, x, b, fam in items:
            hexbits = x.startswith(("0x", "-0x")) and "p" not in x
            args.append(x + ("_" if hexbits or r.random() < 0.5 else "") + {"h": "f16", "s": "f32", "d": "f64", "q": "f128"}[t])
        rc, out, err = tool(args)
        lines = out.splitlines()
        n = 1 + len(PRINTED)
        for k, (t, x, b, fam) in enumerate(items):
            part = lines[k * n:k * n + n]
            why = f"refused: {err.strip()[-200:]}" if len(part) < n else judge_print(t, b, part)
            with lock:
                st["evals"] += 1
                st["checks"] += n
                per["print " + t] = per.get("print " + t, 0) + 1
                kinds.add(("print", t, fam, b >> FMT[t][1]))
            if why:
                bad(f"print {t} {fam}", f"print {args[1 + k][:300]}: {why}; printed {part}", ["p", args[1 + k]])
                break

    def refuse_one(r, row):
        op, sig, name = row
        a, _ = sig.split(">")
        good = [float_text(c, r)[0] if c in FMT else "1" for c in a]
        k = r.random()
        if k < 0.2:
            args = good + ["1"] if r.random() < 0.5 else good[:-1]
            what = "wrong number of inputs"
        elif k < 0.25:
            name, args, what = name + "_", good, "no such operation"
        else:
            i = r.randrange(len(a))
            args = list(good)
            what = "unreadable input"
            if a[i] in FMT:
                args[i] = r.choice(BAD_FLOAT + [f"0x1{r.getrandbits(FMT[a[i]][0]):0{FMT[a[i]][0] // 4}x}"])
            else:
                w, s = INT[a[i]]
                args[i] = r.choice(BAD_INT + [str(1 << (w - s)), str(-(1 << (w - 1)) - 1 if s else -1), f"{1 << w:#x}"])
        cmd, basis = "x", r.choice(["libm", "mpfr"])
        if k > 0.97:
            cmd, args, what = r.choice(["", "evaluate", "X", "pp", "-p", "xx"]), good, "no such command"
        elif k > 0.94:
            basis, args, what = r.choice(["", "glibc", "LIBM", "mpf"]), good, "no such basis"
        args = [cmd, basis, name] + args
        rc, out, err = tool(args)
        with lock:
            st["evals"] += 1
            st["checks"] += 1
            st["rejected"] += 1
            kinds.add(("refuse", name, what))
        if rc == 0 or out and what != "no such command":
            bad(f"{name} {what}", f"{' '.join(args)[:300]}: {what}, but the tool printed {out.strip()[:200]!r} and ended with {rc}", args)

    def worker(i):
        r = random.Random(f"{chk.seed}-{i}")
        order = rows[i::8] + rows
        n = 0
        try:
            while time.time() < end or n < len(rows[i::8]):
                row = order[n] if n < len(order) else r.choice(rows)
                eval_one(r, row)
                n += 1
                if n % 4 == 0:
                    print_one(r)
                if n % 6 == 0:
                    refuse_one(r, row)
                if len(viol) > 200:
                    return
        except subprocess.TimeoutExpired as x:
            incon.append(f"no answer within 120 s: {' '.join(x.cmd[1:])[:200]}")
        except Exception:
            incon.append(traceback.format_exc()[-600:])
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(scratch)
    return {"evals": st["evals"], "checks": st["checks"], "distinct": len(kinds), "nontrivial": st["evals"], "groups": st["rejected"],
            "routines": len(per), "per": per, "samples": samples, "violations": viol, "inconclusive": incon}
