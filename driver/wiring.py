"""The runtime archive as a freestanding program sees it: it must link against nothing else, every
name must exist and give way to a definition of the program's own, and every routine must run
without a C library around it."""
import hashlib
import os
import re
import subprocess

import core
import table
from core import BUILD, GEN, Inconclusive, mon, sh, write_if_changed

MEM = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen"]

LOOP = r"""
static uint64_t S;
static uint64_t rnd(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 0x2545F4914F6CDD1DULL; }
static int width(char c) { switch (c) { case 'h': return 16; case 's': case 'i': case 'u': return 32; case 'd': case 'l': case 'L': case 'x': case 'X': return 64; default: return 128; } }
static int has(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return !*b; }
static u128 value(char c) {
    int w = width(c); u128 r = (u128)rnd() << 64 | rnd();
    static const int ebits[] = { 5, 8, 11, 15 };
    uint64_t k = rnd() % 8;
    if (c == 'h' || c == 's' || c == 'd' || c == 'q') {
        int e = ebits[c == 'h' ? 0 : c == 's' ? 1 : c == 'd' ? 2 : 3], m = w - 1 - e;
        u128 one = (((u128)1 << (e - 1)) - 1) << m;
        if (k == 0) return one;                                   /* 1 */
        if (k == 1) return 0;
        if (k == 2) return (((u128)1 << e) - 1) << m;             /* infinity */
        if (k < 7) return (one + ((u128)(rnd() % 12) << m) - ((u128)5 << m)) | (r & (((u128)1 << m) - 1)) | (u128)(rnd() & 1) << (w - 1);
        return r;
    }
    if (k == 0) return 0;
    if (k == 1) return 1;
    if (k == 2) return ~(u128)0;
    if (k == 3) return (u128)1 << (w - 1);
    return r >> (rnd() % w);
}
static u128 IN[4], OUT[4];
static uint64_t one(const Entry *e, int tuples) {
    uint64_t h = 0xcbf29ce484222325ULL;
    S = 0x9E3779B97F4A7C15ULL;
    for (int t = 0; t < tuples; t++) {
        int n = 0;
        for (; e->sig[n] != '>'; n++) { IN[n] = value(e->sig[n]); int w = width(e->sig[n]); if (w < 128) IN[n] &= ((u128)1 << w) - 1; }
        if (has(e->op, "idiv") || has(e->op, "irem")) IN[1] |= 1;
        if (has(e->op, "ish")) IN[1] &= width(e->sig[0]) - 1;
        if (has(e->op, "jn") || has(e->op, "yn")) IN[0] &= 63;
        OUT[0] = OUT[1] = OUT[2] = OUT[3] = 0;
        e->f(IN, OUT);
        for (unsigned i = 0; i < sizeof OUT; i++) h = (h ^ ((volatile unsigned char *)OUT)[i]) * 0x100000001b3ULL;
    }
    return h;
}
static char LINE[400];
static int fmt(const Entry *e, uint64_t h, int done) {
    int n = 0;
    const char *p[2] = { e->name, e->sig };
    for (int k = 0; k < 2; k++) { for (const char *c = p[k]; *c; c++) LINE[n++] = *c; LINE[n++] = ' '; }
    if (done) for (int i = 60; i >= 0; i -= 4) LINE[n++] = "0123456789abcdef"[h >> i & 15];
    else LINE[n++] = '?';
    LINE[n++] = '\n';
    return n;
}
"""
FREE = LOOP + r"""
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
__attribute__((force_align_arg_pointer, used)) void free_main(void) {
    for (size_t i = 0; i < sut_table_len(); i++) {
        const Entry *e = &AR_TABLE[i];
        sys3(1, 1, (long)LINE, fmt(e, 0, 0));
        uint64_t h = one(e, TUPLES);
        sys3(1, 1, (long)LINE, fmt(e, h, 1));
    }
    sys3(60, 0, 0, 0);
}
__asm__(".globl _start\n_start: xor %ebp, %ebp\n call free_main\n hlt\n");
"""
HOST = LOOP + r"""
#include <unistd.h>
int main(void) {
    for (size_t i = 0; i < sut_table_len(); i++) {
        uint64_t h = one(&AR_TABLE[i], TUPLES);
        if (write(1, LINE, fmt(&AR_TABLE[i], h, 1)) < 0) return 1;
    }
    return 0;
}
"""


def overrides(names):
    """A program with its own strong definition of every name."""
    out = ["static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile(\"syscall\" : \"=a\"(r) : \"0\"(n), \"D\"(a), \"S\"(b), \"d\"(c) : \"rcx\", \"r11\", \"memory\"); return r; }"]
    for i, n in enumerate(names):
        out.append(f'__attribute__((noinline, noclone, used)) long own_{i}(void) __asm__("{n}"); long own_{i}(void) {{ return {i + 1000}; }}')
    out.append("typedef long (*F)(void); static volatile F TAB[] = {" + ", ".join(f"own_{i}" for i in range(len(names))) + "};")
    out.append("__attribute__((force_align_arg_pointer, used)) void free_main(void) { long bad = 0; for (long i = 0; i < %d; i++) if (TAB[i]() != i + 1000) bad++; sys3(60, bad > 200 ? 200 : bad, 0, 0); }" % len(names))
    out.append('__asm__(".globl _start\\n_start: xor %ebp, %ebp\\n call free_main\\n hlt\\n");')
    return "\n".join(out) + "\n"


def compile_c(path, out):
    r = sh(["gcc", "-O1", "-fPIC", "-fno-builtin", "-ffreestanding", "-fno-stack-protector", "-w", "-c", path, "-o", out])
    if r.returncode:
        raise Inconclusive("program does not compile: " + r.stderr[-1500:])


def add(chk, key, text, cmd):
    chk.viol.append(("wire:" + hashlib.sha1(key.encode()).hexdigest()[:16], text, cmd))


def inspect(chk, name, archive, tuples, again):
    have = core.defined_symbols(archive)
    want = table.symbols() + MEM
    missing = [s for s in want if s not in have]
    for s in missing:
        add(chk, "missing " + s, f"{name}: the archive does not define {s}", f"nm {archive} | grep -w {s}")
    chk.evals += len(want)
    if not any(s.endswith("__rust_probestack") for s in have):
        add(chk, "missing probestack", f"{name}: the archive does not define __rust_probestack", f"nm {archive}")

    # everything in the archive, linked against nothing
    so = f"{GEN}/whole-{name}.so"
    cmd = ["gcc", "-shared", "-nostdlib", "-Wl,-z,defs", "-Wl,--whole-archive", archive, "-Wl,--no-whole-archive", "-o", so]
    r = sh(cmd)
    chk.evals += 1
    if r.returncode:
        und = sorted(set(re.findall(r"undefined reference to `([^']*)'", r.stderr)))
        dup = sorted(set(re.findall(r"multiple definition of `([^']*)'", r.stderr)))
        if not und and not dup:
            raise Inconclusive("linking the archive failed: " + r.stderr[-800:])
        add(chk, "link " + " ".join(und + dup), f"{name}: linked on its own the archive lacks {und[:6]} and defines twice {dup[:6]}", " ".join(cmd))

    # the program's own definitions take precedence
    names = [s for s in want if s in have]
    c = f"{GEN}/own-{name}.c"
    write_if_changed(c, overrides(names))
    compile_c(c, f"{GEN}/own-{name}.o")
    exe = f"{GEN}/own-{name}"
    cmd = ["ld", "-static", "-o", exe, f"{GEN}/own-{name}.o", "--whole-archive", archive]
    r = sh(cmd)
    dup = sorted(set(re.findall(r"multiple definition of `([^']*)'", r.stderr)))
    chk.evals += len(names)
    if dup:
        for s in dup[:8]:
            add(chk, "strong " + s, f"{name}: a program defining {s} itself does not link (the archive's definition is not weak)", " ".join(cmd))
    elif r.returncode == 0:
        p = subprocess.run([exe], capture_output=True, timeout=60)
        if p.returncode:
            add(chk, "override", f"{name}: {p.returncode} calls did not reach the program's own definition", " ".join(cmd) + f"; {exe}")
    elif "undefined reference" not in r.stderr:
        raise Inconclusive("linking with own definitions failed: " + r.stderr[-800:])
    chk.extra.setdefault("archives", {})[name] = {"symbols_expected": len(want), "overridden": len(names)}

    # run every routine without a C library, compare with the same calls in an ordinary process
    src = table.c_source(set(missing), None)
    for kind, text in (("free", FREE), ("host", HOST)):
        write_if_changed(f"{GEN}/{kind}-{name}.c", src + text.replace("TUPLES", str(tuples)))
        compile_c(f"{GEN}/{kind}-{name}.c", f"{GEN}/{kind}-{name}.o")
    cmd = ["ld", "-static", "-o", f"{GEN}/free-{name}", f"{GEN}/free-{name}.o", archive]
    r = sh(cmd)
    if r.returncode:
        und = sorted(set(re.findall(r"undefined reference to `([^']*)'", r.stderr)))
        if not und:
            raise Inconclusive("freestanding link failed: " + r.stderr[-800:])
        add(chk, "free " + " ".join(und), f"{name}: a freestanding program calling every routine lacks {und[:6]}", " ".join(cmd))
        return
    try:
        p = subprocess.run([f"{GEN}/free-{name}"], capture_output=True, timeout=240, text=True)
    except subprocess.TimeoutExpired as e:
        chk.incon.append(f"{name}: the freestanding program did not finish")
        return
    lines = p.stdout.split("\n")
    done = {l.rsplit(" ", 1)[0]: l.rsplit(" ", 1)[1] for l in lines if l and not l.endswith("?")}
    chk.evals += tuples * len(done)
    chk.distinct += len(done)
    chk.extra["archives"][name]["routines_run_freestanding"] = len(done)
    if p.returncode:
        last = lines[-2] if len(lines) > 1 else "?"
        add(chk, "dies " + last, f"{name}: {last.rstrip(' ?')} ended the freestanding program with {p.returncode}", f"{GEN}/free-{name}")
        return
    r = sh(["gcc", "-o", f"{GEN}/host-{name}", f"{GEN}/host-{name}.o", archive, "-lm"])
    if r.returncode:
        raise Inconclusive("hosted link failed: " + r.stderr[-800:])
    q = subprocess.run([f"{GEN}/host-{name}"], capture_output=True, timeout=240, text=True)
    hosted = {l.rsplit(" ", 1)[0]: l.rsplit(" ", 1)[1] for l in q.stdout.split("\n") if l}
    if q.returncode:
        chk.incon.append(f"{name}: the hosted program ended with {q.returncode}")
        return
    for k, v in done.items():
        chk.evals += 1
        if hosted.get(k) != v:
            add(chk, "differs " + k, f"{name}: {k} computes other results freestanding than hosted", again)
    for k in list(done)[:3]:
        chk.samples.append(f"[{name} freestanding] {k}: {tuples} tuples, results {done[k]}")


def run(chk, prepare):
    quick = chk.tier == "quick"
    chk.rule = ("calls of every exported routine from a freestanding program and through the facade, each compared with the exact or interval reference for the "
                "function its name denotes; one link per archive with everything forced in, one with every name overridden; distinct as for the reference checks")
    again = f"VERIF_SEED={chk.seed} VERIF_TIER={chk.tier} python3 {core.VERIF}/run.py {chk.prop}"
    variants = [("ar", {}), ("ar-noarch", {"default": False})]
    if not quick:
        variants += [("ar-s", {"opt": "s"}), ("ar-1", {"opt": "1"})]
    for name, kw in variants:
        inspect(chk, name, core.build_archive(name, **kw), 400 if quick else 4000, again)
    if not chk.viol:
        suts = prepare(chk, ["rel-arch"])
        mon(chk, "entry-points", suts, 25 if quick else 300, "ref", routes=["ar", "facade"])
    return chk.finish()
