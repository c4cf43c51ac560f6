"""Workload and oracle for the value drivers of the builtins tests: every value they hand out is recorded and
judged for presence of the promised cases, for number and for spread."""
import random
import re
import subprocess

import core
from core import BUILD, VERIF, Inconclusive, sh

FLOATS = {"f16": (16, 10), "f32": (32, 23), "f64": (64, 52), "f128": (128, 112)}


def build():
    tdir = BUILD + "/t-bt"
    r = sh(["cargo", "build", "--offline", "--release", "--target-dir", tdir], cwd=VERIF + "/harness/bt")
    if r.returncode:
        raise Inconclusive("the drivers do not build:\n" + r.stderr[-3000:])
    return tdir + "/release/bt"


def lengths(w):
    """Both ends, both sides of every power of two from a byte to half the width, and all of it mirrored."""
    v = [0, 1, 2]
    p = 8
    while p < w // 2:
        v += [p - 1, p]
        p *= 2
    v.append(w // 2 - 1)
    return v + [w - 1 - x for x in reversed(v)]


def int_edges(w):
    l, m = lengths(w), (1 << w) - 1
    return [(m >> l[a]) & (m << l[b - a]) & m for a in range(len(l)) for b in range(a, len(l))]


def float_edges(t):
    w, p = FLOATS[t]
    e = w - p - 1
    half = 1 << (e - 1)
    exps = [0, 1, 1 << (e // 2), half - 1, half, half + 1, (1 << e) - 1]
    h = 1 << (p - 1)
    sigs = [0, 1, 1 << (p // 2), h - 1, h, h + 1, (1 << p) - 1]
    return [s << (w - 1) | x << p | m for x in exps for m in sigs for s in (0, 1)]


def spread(vals, w, what):
    """What is lopsided about random values, or None."""
    n = len(vals)
    for b in range(w):
        k = sum(v >> b & 1 for v in vals)
        if not 0.12 * n < k < 0.88 * n:
            return f"bit {b} of {what} is set in {k} of {n} random values"
    d = len(set(vals))
    if w >= 32 and d < 0.7 * n:
        return f"only {d} of {n} random values of {what} differ"
    return None


def judge(driver, ty, n, rows, none):
    """Yields (fact, why)"""
    isf = ty in FLOATS
    w = FLOATS[ty][0] if isf else 64 if ty == "usize" else int(ty[1:])
    if driver == "fuzz_shift":
        have = {s for _, s in rows}
        yield "shift amounts", f"misses {sorted(set(lengths(w)) - have)}" if not have >= set(lengths(w)) else None
        yield "shift in range", f"asks for {max(have)}" if max(have) >= w else None
        xs = [x for x, _ in rows]
        yield "shifted values", "only one value is shifted" if len(set(xs)) < 4 else None
        return
    edges = float_edges(ty) if isf else int_edges(w)
    one = driver in ("fuzz", "fuzz_float")
    if one:
        need = set(edges) | {0}
    else:
        need = {(a, b) for a in edges for b in edges}
        if not isf:
            need |= {(0, a) for a in edges} | {(a, 0) for a in edges}
    yield "number of calls", f"{len(rows)} calls, {none} of them without random values" if len(rows) - none != n else None
    got = set(rows[:len(rows) - n])
    miss = need - got
    yield "edge cases", f"{len(miss)} edge cases are missing, such as {show(next(iter(miss)))}" if miss else None
    tail = rows[len(rows) - n:]
    if n < 1000:
        return
    if one:
        yield "random values", spread(tail, w, "the operand")
    else:
        yield "random values of the first operand", spread([a for a, _ in tail], w, "the first operand")
        yield "random values of the second operand", spread([b for _, b in tail], w, "the second operand")
        yield "independence", spread([a ^ b for a, b in tail], w, "the difference of the operands")
    if isf:
        _, p = FLOATS[ty]
        e = w - p - 1
        fl = tail if one else [x for t in tail for x in t]
        ex = [v >> p & ((1 << e) - 1) for v in fl]
        for name, k in (("subnormal or zero", sum(x == 0 for x in ex)), ("infinite or NaN", sum(x == (1 << e) - 1 for x in ex))):
            yield f"random {name} values", f"{k} of {len(fl)} random values are {name}" if k > 0.4 * len(fl) else None
        yield "random exponents", f"only {len(set(ex))} exponents in {len(fl)} random values" if len(set(ex)) < min(1 << (e - 1), 64) // 2 else None


def show(x):
    return f"({x[0]:#x}, {x[1]:#x})" if isinstance(x, tuple) else f"{x:#x}"


def observe(exe, n):
    p = subprocess.run([exe, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode or not p.stdout.endswith("# end\n"):
        raise Inconclusive(f"the drivers ended with {p.returncode}: {p.stderr[-500:]}")
    out, cur = [], None
    for l in p.stdout.splitlines():
        m = re.match(r"# (\S+) (\S+) (\d+)", l)
        if m:
            cur = []
            out.append((m.group(1), m.group(2), int(m.group(3)), cur))
        elif not l.startswith("#"):
            v = tuple(int(x, 16) for x in l.split())
            cur.append(v if len(v) > 1 else v[0])
    return out, p.stdout


def run(chk):
    exe = build()
    r = random.Random(chk.seed)
    sizes = [0, 1, r.randrange(2, 900), 2000 + r.randrange(3000), 10000 + r.randrange(3000)]
    if chk.tier != "quick":
        sizes += [r.randrange(1000, 60000) for _ in range(6)]
    evals = checks = 0
    none = {(d, t): len(rows) for d, t, _, rows in observe(exe, 0)[0]}
    per, kinds, viol, samples = {}, set(), [], []
    for n in sizes:
        secs, text = observe(exe, n)
        if observe(exe, n)[1] != text:
            viol.append({"sig": "bt repeat", "text": f"two runs with {n} random values differ", "n": n})
        for driver, ty, k, rows in secs:
            key = f"{driver} {ty}"
            evals += len(rows)
            per[key] = per.get(key, 0) + len(rows)
            for fact, why in judge(driver, ty, k, rows, none[driver, ty]):
                checks += 1
                kinds.add((driver, ty, fact, n))
                if why:
                    viol.append({"sig": f"bt {driver} {ty} {fact}", "text": f"{driver} for {ty} with {k} random values: {why}", "n": n})
            if len(samples) < 40 and n > 1000:
                samples.append(f"{driver} {ty}: {len(rows)} calls, last with {show(rows[-1])}")
    chk.rule = "values handed to a routine under test; distinct = distinct (driver, type, fact decided, number of random values)"
    chk.add_mon({"evals": evals, "checks": checks, "distinct": len(kinds), "nontrivial": evals, "groups": len(per), "routines": len(per), "per": per, "samples": samples,
                 "violations": viol, "inconclusive": []}, "calls", lambda v: f"python3 {VERIF}/run.py {chk.prop} --replay {v['n']}")
    return chk.finish()


def replay(n):
    bad = 0
    none = {(d, t): len(rows) for d, t, _, rows in observe(build(), 0)[0]}
    for driver, ty, k, rows in observe(build(), int(n))[0]:
        for fact, why in judge(driver, ty, k, rows, none[driver, ty]):
            if why:
                print(f"{driver} for {ty} with {k} random values: {why}")
                bad = 1
    return bad
