"""Workload and oracle for the archive inspection tool: archives are assembled byte by byte with a known
list of defects, the tool runs on them, its exit status is compared with what the construction says."""
import hashlib
import json
import os
import random
import shutil
import struct
import subprocess
import tempfile
import threading
import time

import core
from core import BUILD, REPO, Inconclusive, env, sh

# triple, ELF machine, 64-bit, big-endian, e_flags
TARGETS = [
    ("x86_64-unknown-linux-gnu", 62, 1, 0, 0), ("i686-unknown-linux-gnu", 3, 0, 0, 0),
    ("aarch64-unknown-linux-gnu", 183, 1, 0, 0), ("aarch64_be-unknown-linux-gnu", 183, 1, 1, 0),
    ("armv7-unknown-linux-gnueabihf", 40, 0, 0, 0x5000000), ("armeb-unknown-linux-gnueabi", 40, 0, 1, 0x5000000),
    ("riscv64gc-unknown-linux-gnu", 243, 1, 0, 5), ("riscv32gc-unknown-linux-gnu", 243, 0, 0, 5),
    ("powerpc-unknown-linux-gnu", 20, 0, 1, 0), ("powerpc64-unknown-linux-gnu", 21, 1, 1, 1), ("powerpc64le-unknown-linux-gnu", 21, 1, 0, 2),
    ("s390x-unknown-linux-gnu", 22, 1, 1, 0), ("sparc64-unknown-linux-gnu", 43, 1, 1, 0), ("loongarch64-unknown-linux-gnu", 258, 1, 0, 0x43),
    ("mips-unknown-linux-gnu", 8, 0, 1, 0x70001005), ("mips64el-unknown-linux-gnuabi64", 8, 1, 0, 0x80000007),
    ("m68k-unknown-linux-gnu", 4, 0, 1, 0), ("csky-unknown-linux-gnuabiv2", 252, 0, 0, 0x21000000), ("hexagon-unknown-linux-musl", 164, 0, 0, 0x60),
    ("x86_64-unknown-freebsd", 62, 1, 0, 0), ("x86_64-unknown-netbsd", 62, 1, 0, 0), ("x86_64-unknown-openbsd", 62, 1, 0, 0),
    ("aarch64-unknown-none", 183, 1, 0, 0), ("riscv32imac-unknown-none-elf", 243, 0, 0, 1),
]
OSABI = {"linux": 3, "freebsd": 9, "netbsd": 2, "openbsd": 12}
LOCAL, GLOBAL, WEAK = 0, 1, 2
DEFAULT, HIDDEN = 0, 2
UNDEF, ABS = 0, 0xfff1


class Obj:
    """One relocatable object; symbols are (name, binding, visibility, section, type)."""

    def __init__(self, t):
        self.t, self.abi, self.flags = t, 0, t[4]
        self.syms, self.note, self.text, self.gdb = [], 0, True, False  # note: 0 plain, 1 executable, None absent

    def defined(self):
        return [s for s in self.syms if s[3] != UNDEF and s[1] != LOCAL]

    def bytes(self):
        _, mach, c64, be, _ = self.t
        e = ">" if be else "<"
        secs = [(b"", 0, 0, b"", 0, 0, 0)]  # name, type, flags, data, link, info, entsize
        index = {}

        def sec(n, *a):
            index[n] = len(secs)
            secs.append((n,) + a)
        if self.text:
            sec(b".text", 1, 6, b"\0" * 64, 0, 0, 0)
        sec(b".data", 1, 3, b"\0" * 64, 0, 0, 0)
        if self.gdb:
            sec(b".debug_gdb_scripts", 1, 0, b"\0" * 16, 0, 0, 0)
        if self.note is not None:
            sec(b".note.GNU-stack", 1, 4 if self.note else 0, b"", 0, 0, 0)
        strs, out = b"\0", []
        ordered = [s for s in self.syms if s[1] == LOCAL] + [s for s in self.syms if s[1] != LOCAL]
        nloc = 1 + sum(s[1] == LOCAL for s in ordered)
        ent = [(0, 0, 0, 0)] + []
        for n, b, v, s, ty in ordered:
            off = len(strs)
            strs += n.encode() + b"\0"
            s = index.get(s.encode(), index[b".data"]) if isinstance(s, str) else s
            ent.append((off, b << 4 | ty, v, s))
        sy = b""
        for off, info, vis, shn in ent:
            sy += struct.pack(e + "IBBHQQ", off, info, vis, shn, 0, 0) if c64 else struct.pack(e + "IIIBBH", off, 0, 0, info, vis, shn)
        base = len(secs)
        secs.append((b".symtab", 2, 0, sy, base + 1, nloc, 24 if c64 else 16))
        secs.append((b".strtab", 3, 0, strs, 0, 0, 0))
        names, noff = b"\0", []
        for x in secs + [(b".shstrtab",)]:
            noff.append(len(names) if x[0] else 0)
            if x[0]:
                names += x[0] + b"\0"
        secs.append((b".shstrtab", 3, 0, names, 0, 0, 0))
        eh = 64 if c64 else 52
        body, hdr = b"", b""
        for i, (n, ty, fl, data, link, info, es) in enumerate(secs):
            body += b"\0" * (-len(body) % 8)
            at = eh + len(body) if i else 0
            body += data
            hdr += struct.pack(e + ("IIQQQQIIQQ" if c64 else "IIIIIIIIII"), noff[i], ty, fl, 0, at, len(data), link, info, 8 if i else 0, es)
        body += b"\0" * (-len(body) % 8)
        sho = eh + len(body)
        ident = b"\x7fELF" + bytes([2 if c64 else 1, 2 if be else 1, 1, self.abi, 0]) + b"\0" * 7
        head = ident + struct.pack(e + ("HHIQQQIHHHHHH" if c64 else "HHIIIIIHHHHHH"), 1, mach, 1, 0, 0, sho, self.flags, eh, 0, 0,
                                   64 if c64 else 40, len(secs), len(secs) - 1)
        return head + body + hdr


def executable(t, flags, interp):
    """A linked program with a stack header."""
    _, mach, c64, be, fl = t
    e = ">" if be else "<"
    eh, pe = (64, 56) if c64 else (52, 32)
    ph = [(1, 5), (2, 6)]
    if interp:
        ph.append((3, 4))
    ph.append((0x6474e551, flags))
    random.Random(flags).shuffle(ph)
    o = Obj(t)
    o.text = True
    o.note = None
    o.syms = [("main", GLOBAL, HIDDEN, ".text", 2)]
    b = o.bytes()
    sho = struct.unpack_from(e + ("Q" if c64 else "I"), b, 40 if c64 else 32)[0]
    p = b""
    for ty, f in ph:
        p += struct.pack(e + "IIQQQQQQ", ty, f, 0, 0, 0, 0, 0, 8) if c64 else struct.pack(e + "IIIIIIII", ty, 0, 0, 0, 0, 0, f, 8)
    out = bytearray(b) + p
    struct.pack_into(e + "H", out, 16, 3)
    struct.pack_into(e + ("Q" if c64 else "I"), out, 32 if c64 else 28, len(b))
    struct.pack_into(e + "HH", out, 54 if c64 else 42, pe, len(ph))
    return bytes(out)


def archive(members, style, symtab=()):
    """members: (name, bytes); style: gnu or bsd"""
    out = b"!<arch>\n"

    def member(name, data):
        return name.ljust(16) + b"0           0     0     100644  " + str(len(data)).encode().ljust(10) + b"`\n" + data + b"\n" * (len(data) & 1)
    if style == "gnu":
        long = b""
        heads = []
        for n, _ in members:
            if len(n) > 15:
                heads.append(b"/%d" % len(long))
                long += n.encode() + b"/\n"
            else:
                heads.append(n.encode() + b"/")
        if symtab:
            out += member(b"/", struct.pack(">I", 0))
        if long:
            out += member(b"//", long)
        for h, (_, d) in zip(heads, members):
            out += member(h, d)
    else:
        for n, d in members:
            if len(n) > 16 or " " in n:
                b = n.encode()
                b += b"\0" * (-len(b) % 4)
                out += member(b"#1/%d" % len(b), b + d)
            else:
                out += member(n.encode(), d)
    return out


class Maker:
    """Builds clean archives, adds look-alikes that are no defects, then possibly one defect."""

    def __init__(self, r):
        self.r = r

    def name(self):
        r = self.r
        k = r.randrange(8)
        h = "%016x" % r.getrandbits(64)
        if k == 0:
            return "_ZN17compiler_builtins3int" + "%d" % r.randrange(2, 9) + h[:r.randrange(2, 9)] + "17h" + h + "E"
        if k == 1:
            return "_RNvNtCs" + h[:11] + "_17compiler_builtins3mem" + h[:6]
        if k == 2:
            return "__" + r.choice(["add", "mul", "div", "float", "fix"]) + r.choice(["sf", "df", "tf", "ti"]) + h[:5]
        if k == 3:
            return "mem" + h[:3]
        return "f" + h[:r.randrange(3, 16)]

    def core_name(self):
        r = self.r
        h = "%016x" % r.getrandbits(64)
        n = r.choice(["_ZN4core3str8converts9from_utf817h" + h + "E", "_ZN4core9panicking5panic17h" + h + "E", "_RNvNtNtCs" + h[:11] + "_4core9panicking5panic",
                      "_RNvMNtCs" + h[:11] + "_4core3numm3pow", "_ZN4core6option13unwrap_failed17h" + h + "E",
                      "_RINvNtCs" + h[:11] + "_4core9panicking13assert_failedmmE", "_ZN4core3fmt9Formatter3pad17h" + h + "E"])
        if r.random() < 0.2:
            n = "_" + n  # Apple's leading underscore
        return n

    def clean(self, t):
        r = self.r
        n = r.choice([1, 1, 2, 3, 5, 8, 20, 60])
        os_ = [v for k, v in OSABI.items() if k in t[0]]
        objs = []
        for i in range(n):
            o = Obj(t)
            if os_ and r.random() < 0.5:
                o.abi = os_[0]
            o.text = r.random() < 0.8
            for _ in range(r.choice([0, 1, 2, 4, 12, 40]) if i else 3):
                b = r.choice([GLOBAL, WEAK, WEAK])
                o.syms.append((self.name(), b, HIDDEN, r.choice([".text", ".data", ABS]) if o.text else ".data", r.choice([1, 2, 0])))
            if not o.text and r.random() < 0.5:
                o.note = None
            objs.append(o)
        r.shuffle(objs)
        seen = set()
        for o in objs:
            o.syms = [s for s in o.syms if not (s[0] in seen or seen.add(s[0]))]
        self.decoys(t, objs)
        return objs

    def decoys(self, t, objs):
        """Near misses: none of these is a defect."""
        r = self.r
        pick = lambda: r.choice(objs)  # noqa: E731
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.randrange(9)
            o = pick()
            if k == 0:  # locals may repeat and share the name of a global
                d = [s for x in objs for s in x.defined()]
                n = r.choice(d)[0] if d and r.random() < 0.5 else self.name()
                for x in r.sample(objs, min(len(objs), 3)):
                    if all(s[0] != n for s in x.syms):
                        x.syms.append((n, LOCAL, DEFAULT, ".data", 1))
            elif k == 1:  # references to other members
                d = [s for x in objs if x is not o for s in x.defined()]
                if d:
                    o.syms.append((r.choice(d)[0], GLOBAL, r.choice([DEFAULT, HIDDEN]), UNDEF, 0))
            elif k == 2:  # references outside, in several members
                n = r.choice(["memcpy", "abort", "_ZN3std9panicking5panic17h0123456789abcdefE", "_Unwind_Resume", "my4core", "core"])
                for x in r.sample(objs, min(len(objs), 2)):
                    x.syms.append((n, GLOBAL, DEFAULT, UNDEF, 0))
            elif k == 3:  # a core symbol defined in another member, before or after
                n = self.core_name()
                x = pick()
                if all(s[0] != n for y in objs for s in y.syms):
                    x.syms.append((n, r.choice([GLOBAL, WEAK]), HIDDEN, ".data", 1))
                    for y in r.sample(objs, min(len(objs), 3)):
                        if y is not x:
                            y.syms.append((n, GLOBAL, DEFAULT, UNDEF, 0))
            elif k == 4:  # position-independent thunks of 32-bit x86
                n = "__x86.get_pc_thunk." + r.choice(["ax", "bx", "cx"])
                for x in r.sample(objs, min(len(objs), 2)):
                    if all(s[0] != n for s in x.syms):
                        x.syms.append((n, r.choice([GLOBAL, WEAK]), HIDDEN, ".data", 2))
            elif k == 5:  # weak debugger script markers
                for x in r.sample(objs, min(len(objs), 2)):
                    if not x.gdb:
                        x.gdb = True
                        x.syms.append(("__rustc_debug_gdb_scripts_section__", WEAK, HIDDEN, ".debug_gdb_scripts", 1))
            elif k == 6:  # metadata members without code carry no note
                x = Obj(t)
                x.text, x.note = False, None
                x.syms = [(self.name() + "_meta", LOCAL, DEFAULT, ".data", 1)]
                objs.insert(r.randrange(len(objs) + 1), x)
            elif k == 7:
                o.syms.append(("file.c", LOCAL, DEFAULT, ABS, 4))
            elif k == 8 and "powerpc64-" in t[0]:
                o.note = None  # the first ELF ABI of this machine has no note
                o.flags = r.choice([0, 1])

    def defect(self, t, objs, kind):
        r = self.r
        o = r.choice(objs)
        if kind == "dup":
            d = [(x, s) for x in objs for s in x.defined() if not s[0].startswith(("__x86.get_pc", "__rustc_debug"))]
            picked = r.sample(d, min(len(d), r.choice([1, 1, 1, 3])))
            n = len(picked)
            for x, s in picked:
                ys = [y for y in objs if y is not x]
                if not ys:
                    y = Obj(t)
                    objs.insert(r.randrange(2), y)
                    ys = [y]
                y = r.choice(ys)
                y.syms = [z for z in y.syms if z[0] != s[0]]
                b = r.choice([GLOBAL, GLOBAL, WEAK])
                y.syms.append((s[0], b, HIDDEN, ".data", 1))
                if r.random() < 0.7:
                    i = x.syms.index(s)
                    x.syms[i] = (s[0], GLOBAL, HIDDEN) + s[3:]
            return f"{n} names defined twice"
        if kind == "core":
            n = self.core_name()
            for x in objs:
                x.syms = [s for s in x.syms if s[0] != n]
            for x in r.sample(objs, min(len(objs), r.choice([1, 1, 3]))):
                x.syms.append((n, r.choice([GLOBAL, GLOBAL, WEAK]), DEFAULT, UNDEF, 0))
            return f"reference to {n}"
        if kind == "machine":
            k = r.randrange(4)
            if k == 0:  # same machine, other byte order
                o.t = o.t[:3] + (1 - o.t[3],) + o.t[4:]
                return "other byte order"
            if k == 1:
                bad = r.choice([v for n, v in OSABI.items() if n not in t[0]])
                if t[0].startswith(("aarch64-unknown-none", "riscv32imac")):
                    bad = r.choice(list(OSABI.values()))
                o.abi = bad
                return f"operating system {bad}"
            pairs = {1: (62, 183, 243, 21, 258, 8), 0: (3, 40, 243, 20, 8, 4)}
            if k == 2 and t[1] in (243, 8, 258, 62, 183):  # same machine number, other width
                o.t = o.t[:2] + (1 - o.t[2],) + o.t[3:]
                return "other width"
            o.t = o.t[:1] + (r.choice([m for m in pairs[o.t[2]] if m != t[1]]),) + o.t[2:]
            return f"machine {o.t[1]}"
        if kind == "stack":
            if r.random() < 0.5:
                o.note = 1
                return "executable note"
            o.note, o.text = None, True
            if t[1] == 21:
                o.flags = 2
            return "code without a note"
        if kind == "visible":
            if not o.defined():
                o.syms.append((self.name(), GLOBAL, HIDDEN, ".data", 1))
            s = r.choice(o.defined())
            i = o.syms.index(s)
            o.syms[i] = s[:2] + (DEFAULT,) + s[3:]
            return f"visible {s[0]}"
        raise KeyError(kind)

    def pack(self, objs):
        r = self.r
        style = r.choice(["gnu", "gnu", "bsd"])
        names = []
        for i in range(len(objs)):
            names.append(r.choice(["a%d.o", "compiler_builtins-0123456789abcdef.compiler_builtins.%d-cgu.0.rcgu.o", "some member %d.o", "x.o"]).replace("%d", str(i)))
        if style == "gnu":
            names = [n.replace(" ", "_") for n in names]
        return archive([(n, o.bytes()) for n, o in zip(names, objs)], style, r.random() < 0.5 and style == "gnu")


KINDS = ["dup", "core", "machine", "stack", "visible"]


def case(r):
    """-> (args, files {name: bytes}, defective?, description, key, fake cargo or None)"""
    m = Maker(r)
    t = r.choice(TARGETS) if r.random() < 0.7 else TARGETS[0]
    args = ["--target", t[0]]
    files, kind, what = {}, None, "clean"
    noos = "none" in t[0] or r.random() < 0.15
    novis = r.random() < 0.25
    npaths = r.choice([1, 1, 1, 2, 4])
    bad_at = r.randrange(npaths) if r.random() < 0.6 else None
    for p in range(npaths):
        if r.random() < 0.08:
            interp = r.random() < 0.8
            bad = p == bad_at
            fl = r.choice([7, 5]) if bad else r.choice([6, 4])
            data = executable(t, fl, True)
            if bad:
                kind, what = "stack", "program with an executable stack header"
        else:
            objs = m.clean(t)
            if p == bad_at:
                kind = r.choice(KINDS)
                what = m.defect(t, objs, kind)
            # a single object may be given as it is
            data = objs[0].bytes() if len(objs) == 1 and objs[0].defined() and r.random() < 0.5 else m.pack(objs)
        files[f"p{p}.rlib"] = data
    # switches that turn a defect class off
    bad = kind is not None
    if noos:
        args.append("--no-os")
        bad = bad and kind != "stack"
    if novis:
        args.append("--no-visibility")
        bad = bad and kind != "visible"
    key = (t[0], kind, what.split(" ")[0] if kind in ("machine", "stack") else "", npaths, bad_at, noos, novis, tuple(len(d) for d in files.values()))
    if r.random() < 0.15:
        return build_case(r, args, files, bad, what, key)
    return ["--check"] + args, files, bad, what, key, None


def build_case(r, args, files, bad, what, key):
    """The tool drives a build: a stand-in for cargo reports artifacts, some of them not ours."""
    out, lines = {}, []
    lines.append({"reason": "compiler-message", "message": {"rendered": "warning: something"}})
    for i, (n, d) in enumerate(files.items()):
        stem = r.choice(["libcompiler_builtins-%d", "compiler_builtins%d", "builtins_test_intrinsics%d", "libcompiler_builtins_%d"]) % i
        name = stem + r.choice([".rlib", ".a", ".exe", "" if "-" not in stem else ".rlib"])
        out[name] = d
        lines.append({"reason": "compiler-artifact", "filenames": ["@/" + name]})
    # other artifacts are not looked at, however broken
    for name in ["libserde.rlib", "libcompiler_builtins-9.rmeta", "libcore-1.rlib"]:
        if r.random() < 0.5:
            out[name] = b"not an object"
            lines.append({"reason": "compiler-artifact", "filenames": ["@/" + name]})
    r.shuffle(lines)
    # several artifacts in one message
    if r.random() < 0.5:
        arts = [l for l in lines if l["reason"] == "compiler-artifact"]
        merged = {"reason": "compiler-artifact", "filenames": [f for l in arts for f in l["filenames"]]}
        lines = [merged]
    lines.append({"reason": "build-finished", "success": True})
    code = 0
    k = r.random()
    if k < 0.1:
        code, bad, what = 101, True, "the build failed"
    elif k < 0.2:
        lines = [l for l in lines if l["reason"] != "compiler-artifact"]
        bad, what = True, "the build made no library"
    return ["--build-and-check"] + args + ["--", "--release"], out, bad, "build: " + what, key + ("build", code, len(lines)), (lines, code)


NOCORE = """#![feature(no_core, lang_items, linkage)]
#![no_core]
#![crate_type = "lib"]
#[lang = "pointee_sized"] pub trait PointeeSized {}
#[lang = "meta_sized"] pub trait MetaSized: PointeeSized {}
#[lang = "sized"] pub trait Sized: MetaSized {}
#[lang = "copy"] pub trait Copy: Sized {}
impl Copy for i32 {}
%s
"""
PARTS = {
    "one": '#[unsafe(no_mangle)] pub extern "C" fn one() -> i32 { 1 }',
    "two": '#[unsafe(no_mangle)] pub extern "C" fn two() -> i32 { 2 }',
    "again": '#[unsafe(no_mangle)] pub extern "C" fn one() -> i32 { 3 }',
    "uses": 'unsafe extern "C" { #[link_name = "_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E"] fn u() -> i32; }\n'
            '#[unsafe(no_mangle)] pub extern "C" fn uses() -> i32 { unsafe { u() } }',
    "gives": '#[unsafe(export_name = "_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E")] pub extern "C" fn g() -> i32 { 3 }',
}
FOREIGN = ["x86_64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-apple-darwin", "x86_64-pc-windows-msvc", "i686-pc-windows-gnu", "aarch64-pc-windows-msvc",
           "wasm32-unknown-unknown", "powerpc64-unknown-linux-gnu", "s390x-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu", "x86_64-unknown-freebsd",
           "sparc64-unknown-linux-gnu", "loongarch64-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "mips-unknown-linux-gnu"]
# (members, defective)
COMBOS = [(["one", "two"], None), (["one", "two", "again"], "dup"), (["again", "two", "one"], "dup"), (["one", "uses"], "core"), (["uses", "one", "gives"], None),
          (["gives", "two", "uses"], None)]


def compiled_cases(scratch, rustc, notes):
    """Objects of several formats made by the compiler itself."""
    cases, objs = [], {}
    jobs = [(t, p) for t in FOREIGN for p in PARTS]
    lock = threading.Lock()

    def one(t, p):
        src, o = f"{scratch}/{p}.rs", f"{scratch}/{t}.{p}.o"
        r = subprocess.run([rustc, "--target", t, "--emit=obj", "-Cpanic=abort", "-Cdebuginfo=0", src, "-o", o], capture_output=True, env=env(), cwd=scratch)
        if r.returncode == 0:
            with lock:
                objs[t, p] = open(o, "rb").read()
    for p, text in PARTS.items():
        open(f"{scratch}/{p}.rs", "w").write(NOCORE % text)
    pool(jobs, lambda j: one(*j))
    for t in FOREIGN:
        if any((t, p) not in objs for p in PARTS):
            notes.append(f"the compiler makes no object for {t}")
            continue
        for members, bad in COMBOS:
            data = archive([(f"{m}.o", objs[t, m]) for m in members], "gnu")
            cases.append((["--check", "--target", t, "--no-visibility"], {"c.rlib": data}, bad is not None, f"{t} {'+'.join(members)}", ("compiled", t, tuple(members)), None))
        other = FOREIGN[(FOREIGN.index(t) + 1) % len(FOREIGN)]
        if (other, "two") in objs and other.split("-")[0] != t.split("-")[0]:
            data = archive([("one.o", objs[t, "one"]), ("two.o", objs[other, "two"])], "gnu")
            cases.append((["--check", "--target", t, "--no-visibility"], {"c.rlib": data}, True, f"{t} with a member for {other}", ("compiled", t, other), None))
        if "apple" in t or "linux" in t:
            data = archive([("one.o", objs[t, "one"])], "gnu")
            cases.append((["--check", "--target", t], {"c.rlib": data}, True, f"{t} visible", ("compiled", t, "visible"), None))
    return cases


def pool(items, f, n=8):
    it, errs = iter(items), []
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                x = next(it, None)
            if x is None:
                return
            try:
                f(x)
            except Exception as e:
                errs.append(e)
                return
    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def build():
    tdir = f"{BUILD}/t-symcheck"
    r = sh(["cargo", "build", "-q", "--release", "--offline", "--locked", "-p", "symcheck", "--manifest-path", REPO + "/Cargo.toml", "--target-dir", tdir], cwd=REPO)
    tool = f"{tdir}/release/symcheck"
    if r.returncode or not os.path.exists(tool):
        raise Inconclusive("the inspection tool does not build: " + r.stderr[-1500:])
    return tool


def run(chk, secs):
    tool = build()
    sysroot = sh(["rustc", "--print", "sysroot"]).stdout.strip()
    rustc = sysroot + "/bin/rustc"
    scratch = tempfile.mkdtemp(prefix="symmon")
    try:
        return observe(chk, secs, tool, rustc, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def one_run(tool, rustc, d, c):
    """-> (exit status or None, tail of the output)"""
    args, files, bad, what, key, cargo = c
    os.makedirs(d + "/bin", exist_ok=True)
    for n, b in files.items():
        with open(f"{d}/{n}", "wb") as f:
            f.write(b)
    path = f"{d}/bin:{os.path.dirname(rustc)}:/usr/bin:/bin"
    argv = [tool] + args
    if cargo:
        with open(d + "/bin/lines", "w") as f:
            for l in cargo[0]:
                f.write(json.dumps(l).replace("@/", d + "/") + "\n")
        with open(d + "/bin/cargo", "w") as f:
            f.write(f'#!/bin/sh\necho "$@" > {d}/bin/args\ncat {d}/bin/lines\nexit {cargo[1]}\n')
        os.chmod(d + "/bin/cargo", 0o755)
    else:
        argv += [f"{d}/{n}" for n in files]
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(PATH=path, RUST_BACKTRACE="0"), cwd=d)
    try:
        out = p.communicate(timeout=60)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "no answer in 60 s", None
    seen = None
    if cargo:
        try:
            seen = open(d + "/bin/args").read().split()
        except OSError:
            seen = []
    return p.returncode, out[-600:].decode(errors="replace"), seen


def observe(chk, secs, tool, rustc, scratch):
    t0 = time.time()
    chk.rule = ("archives built with a known list of defects and near misses; distinct = distinct (target, defect, number of paths, position, switches, sizes) "
                "whose verdict was compared with the exit status")
    stats, keys, lock = {}, set(), threading.Lock()

    def check(i, c):
        d = f"{scratch}/w{i}"
        args, files, bad, what, key, cargo = c
        rc, out, seen = one_run(tool, rustc, d, c)
        with lock:
            chk.evals += 1
            keys.add(key)
            label = ("defective" if bad else "clean") + (" build" if cargo else "")
            stats[label] = stats.get(label, 0) + 1
            if len(chk.samples) < 40 and (chk.evals & (chk.evals - 1)) == 0:
                chk.samples.append(f"{' '.join(args)} on {len(files)} files of {sum(map(len, files.values()))} bytes ({what}): exit {rc}")
            text = None
            if rc is None:
                chk.incon.append(f"{what}: {out}")
            elif bad and rc == 0:
                text = f"accepted a defective archive: {what}; arguments {' '.join(args)}"
            elif not bad and rc != 0:
                text = f"rejected a sound archive ({what}; arguments {' '.join(args)}): exit {rc}: {out[-300:]}"
            elif cargo and seen is not None and not ("build" in seen and args[args.index("--target") + 1] in seen and "--release" in seen):
                text = f"started cargo with {seen} for {' '.join(args)}"
            if text and len(chk.viol) < 20:
                keep = f"{core.VERIF}/replays/{chk.prop}-{len(chk.viol)}"
                shutil.rmtree(keep, ignore_errors=True)
                shutil.copytree(d, keep)
                sig = "sym:" + hashlib.sha1(repr(key).encode()).hexdigest()[:16]
                chk.viol.append((sig, text, f"{tool} {' '.join(args)} " + " ".join(f"{keep}/{n}" for n in files)))
        shutil.rmtree(d, ignore_errors=True)

    cases = compiled_cases(scratch, rustc, chk.notes)
    pool(list(enumerate(cases)), lambda ic: check(*ic))
    chk.extra["compiled_archives"] = len(cases)

    def endless():
        i = 100000
        while time.time() < t0 + secs and len(chk.viol) < 20 and len(chk.incon) < 5:
            yield i
            i += 1
    pool(endless(), lambda i: check(i, case(random.Random(chk.seed * 1000003 + i))))
    # the archive this tree builds must pass as well
    real = core.build_archive()
    rc = subprocess.run([tool, "--check", "--no-visibility", real], capture_output=True, env=env(PATH=f"{os.path.dirname(rustc)}:/usr/bin:/bin"))
    chk.extra["own_archive_exit"] = rc.returncode
    chk.evals += 1
    if rc.returncode:
        chk.viol.append(("sym:own", "rejected the archive built from this tree: " + rc.stderr[-400:].decode(errors="replace"), f"{tool} --check --no-visibility {real}"))
    chk.extra["verdicts"] = stats
    chk.distinct = len(keys)
    if chk.evals < 200 and not chk.viol:
        chk.incon.append("fewer than 200 archives inspected")
    return chk.finish()
