"""Building the configurations under test, running the monitor, reporting verdicts."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

import lttable
import mine as mined
import table

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = VERIF + "/build"
GEN = BUILD + "/gen"
TOOLCHAIN = "nightly-2026-08-21"


class Inconclusive(Exception):
    """The check could not decide: never reported as a violation."""


def env(**kw):
    e = dict_env()
    e.update(kw)
    return e


def dict_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "ASAN", "TSAN", "UBSAN", "MSAN", "LD_"))}
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             VERIF_GEN=GEN, LANG="C.UTF-8")
    return e


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=kw.pop("env", dict_env()), **kw)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"timeout after {timeout} s: {cmd if isinstance(cmd, str) else ' '.join(cmd)}")


# ------------------------------------------------------------------ configurations
# name -> (cargo profile arguments, features, output directory name, extra rustflags)
CONFIGS = {
    "rel-gen": (["--release"], "", "release", ""),
    "rel-arch": (["--release"], "arch", "release", ""),
    "rel-int": (["--release"], "intrinsics", "release", ""),
    "chk-gen": (["--profile", "checked"], "", "checked", ""),
    "chk-arch": (["--profile", "checked"], "arch", "checked", ""),
    # instrumented for the race detector
    "tsan": (["--release", "--target", "x86_64-unknown-linux-gnu"], "arch", "x86_64-unknown-linux-gnu/release",
             "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"),
    # byte-wise string instructions
    "rel-erms": (["--release"], "arch", "release", "-Ctarget-feature=+ermsb"),
    # a host CPU selection that turns on compile-time fma/ermsb/sse4 paths
    "rel-native": (["--release"], "arch", "release", "-Ctarget-feature=+fma,+avx,+avx2,+sse4.1,+sse4.2,+ssse3,+bmi1,+lzcnt,+popcnt,+ermsb"),
}


class Builder:
    """Builds the thunk library; thunks over internals that no longer exist are dropped, not fatal."""

    tab = "table.rs"
    rows = table.rows

    def __init__(self, hooks=True):
        self.hooks = hooks
        self.features = {"hex", "mem"}
        self.dropped = set()
        self.log = []

    def source(self):
        write_if_changed(f"{GEN}/{self.tab}", table.rust_source(self.dropped, self.rows))

    def cargo(self, cfg):
        prof, feat, out, flags = CONFIGS[cfg]
        feats = ",".join([f for f in [feat] if f] + sorted(self.features))
        fl = ("--cfg verif_hooks " if self.hooks else "") + flags
        tdir = f"{BUILD}/t-{cfg}"
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--target-dir", tdir] + prof + (["--features", feats] if feats else [])
        r = sh(cmd, cwd=VERIF + "/harness/sut", env=env(RUSTFLAGS=fl.strip()))
        return r, f"{tdir}/{out}/libsut.so"

    def repair(self, r):
        """Decide from compiler errors what to leave out; returns True when something changed."""
        changed = False
        lines = open(f"{GEN}/{self.tab}").read().split("\n")
        inrepo = False
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            stack = [m["message"]]
            while stack:
                x = stack.pop()
                stack += x.get("children", [])
                for sp in x.get("spans", []):
                    while sp:
                        f = sp["file_name"]
                        if f.endswith(self.tab):
                            t = re.search(r"\bt(\d+)\b", lines[sp["line_start"] - 1])
                            if t and int(t.group(1)) not in self.dropped:
                                self.dropped.add(int(t.group(1)))
                                changed = True
                        elif "/repo/" in f or m.get("target", {}).get("name") in ("compiler_builtins", "libm"):
                            inrepo = True
                        elif f.endswith(("src/hex.rs", "src/status.rs")) and "hex" in self.features:
                            self.features.discard("hex")
                            changed = True
                        elif f.endswith("src/mems.rs") and "mem" in self.features:
                            self.features.discard("mem")
                            changed = True
                        sp = (sp.get("expansion") or {}).get("span")
        if not changed and inrepo and self.hooks:
            self.hooks = False
            changed = True
        return changed

    def build(self, cfgs):
        os.makedirs(GEN, exist_ok=True)
        for _ in range(8):
            self.source()
            with ThreadPoolExecutor(len(cfgs)) as ex:
                res = list(ex.map(self.cargo, cfgs))
            bad = [r for r, _ in res if r.returncode != 0]
            if not bad:
                for c, (_, p) in zip(cfgs, res):
                    if not os.path.exists(p):
                        raise Inconclusive(f"{c}: no library produced")
                if self.dropped:
                    names = [f"{self.rows[i][0]}:{self.rows[i][4] or self.rows[i][1]} {self.rows[i][2]}" for i in sorted(self.dropped)]
                    self.log.append("not reachable in this tree: " + ", ".join(names))
                if not self.hooks:
                    self.log.append("built without the guarded hooks")
                return {c: p for c, (_, p) in zip(cfgs, res)}
            if not any([self.repair(r) for r in bad]):
                raise Inconclusive("the library under test does not build:\n" + "\n".join(rendered(bad[0])[-40:]))
        raise Inconclusive("the library under test does not build")


# name -> (cargo profile arguments, features, profile directory, target)
FOREIGN = {
    "i686": (["--release"], "arch", "release", "i686-unknown-linux-gnu"),
    "i686-chk": (["--profile", "checked"], "", "checked", "i686-unknown-linux-gnu"),
    "i586": (["--release"], "arch", "release", "i586-unknown-linux-gnu"),
    "i586-chk": (["--profile", "checked"], "", "checked", "i586-unknown-linux-gnu"),
    "wasm32": (["--release"], "intrinsics", "release", "wasm32-bare"),
}
# the only toolchain here that has the sources of the core library and compiles the repository
FOREIGN_TOOLCHAIN = "stable"
SUT32 = VERIF + "/harness/sut32"


class Foreign(Builder):
    """The thunks for other targets, each in a program of its own behind a forwarding library."""
    tab = "table32.rs"
    rows = table.FOREIGN

    def cargo(self, cfg):
        prof, feat, out, target = FOREIGN[cfg]
        feats = ",".join([f for f in [feat] if f] + sorted(self.features))
        tdir = f"{BUILD}/t-{target}"
        wasm = target.startswith("wasm")
        cmd = ["cargo", "rustc", "--lib", "--crate-type", "cdylib" if wasm else "staticlib", "--offline", "--message-format=json", "--target-dir", tdir,
               "-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"] + prof + (["--features", feats] if feats else [])
        cmd += ["--target", f"{SUT32}/{target}.json", "-Zjson-target-spec"] if wasm else ["--target", target]
        e = env(RUSTFLAGS="--cfg verif_hooks" if self.hooks else "", RUSTUP_TOOLCHAIN=FOREIGN_TOOLCHAIN, RUSTC_BOOTSTRAP="1")
        if wasm:
            e["RUSTC_WRAPPER"] = SUT32 + "/wrap.sh"
        r = sh(cmd, cwd=SUT32, timeout=800, env=e)
        return r, f"{tdir}/{target}/{out}/" + ("sut32.wasm" if wasm else "libsut32.a")

    def link(self, cfg, lib):
        src, so = f"{GEN}/fwd-{cfg}.c", f"{BUILD}/libfwd-{cfg}.so"
        write_if_changed(src, table.forward_source(self.dropped, self.hooks))
        cmds = []
        if lib.endswith(".wasm"):
            node = shutil.which("node")
            if not node:
                raise Inconclusive("nothing here runs WebAssembly")
            flags = ["-DPIPES", f'-DARGV="{node}","{SUT32}/exec.js","{lib}"']
        else:
            exe = f"{BUILD}/exec-{cfg}"
            cmds.append(["gcc", "-m32", "-march=" + cfg.split("-")[0], "-O2", "-w", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-nostdlib", "-static",
                         "-no-pie", "-Wl,--gc-sections", SUT32 + "/exec.c", lib, "-o", exe])
            flags = [f'-DARGV="{exe}"']
        for cmd in cmds + [["gcc", "-O2", "-w", "-fPIC", "-shared", "-I", SUT32] + flags + [src, "-o", so]]:
            r = sh(cmd)
            if r.returncode:
                raise Inconclusive(f"{cfg}: program around the thunks does not link: {r.stderr[-1500:]}")
        r = sh([sys.executable, "-c", f"import ctypes, sys; sys.exit(1 if ctypes.CDLL('{so}').sut_probe() else 0)"], timeout=60)
        if r.returncode:
            raise Inconclusive(f"{cfg}: programs of this kind do not run here")
        return so

    def build(self, cfgs):
        return {c: self.link(c, p) for c, p in super().build(cfgs).items()}


def rendered(r):
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                out += m["message"]["rendered"].splitlines()
        except ValueError:
            pass
    return out + r.stderr.splitlines()


def build_probe32(log):
    """Programs around the 32-bit stack probes: name -> (program, probe moves the stack pointer, reach below the frame)."""
    out = {}
    for name, feats, moves, reach in (("x86", [], "0", "4"), ("x86-uefi", ["--features", "uefi"], "1", "8")):
        src, tdir, exe = VERIF + "/harness/probe32", f"{BUILD}/t-probe-{name}", f"{BUILD}/probe-{name}"
        r = sh(["cargo", "build", "-q", "--offline", "--release", "--target", "i686-unknown-linux-gnu", "--target-dir", tdir, "-Zbuild-std=core",
                "-Zbuild-std-features=compiler-builtins-mem"] + feats, cwd=src, timeout=600, env=env(RUSTUP_TOOLCHAIN=FOREIGN_TOOLCHAIN, RUSTC_BOOTSTRAP="1"))
        if r.returncode == 0:
            r = sh(["gcc", "-m32", "-march=i686", "-mno-sse", "-O1", "-w", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-nostdlib", "-static", "-no-pie",
                    "-Wl,--gc-sections", src + "/main.c", f"{tdir}/i686-unknown-linux-gnu/release/libprobe32.a", "-o", exe])
        if r.returncode:
            log.append(f"{name} stack probe does not build here: {r.stderr[-300:]}")
        else:
            out[name] = (exe, moves, reach)
    return out


def build_mon():
    r = sh(["cargo", "build", "-q", "--offline", "--release", "--target-dir", BUILD + "/mon"], cwd=VERIF + "/harness/mon")
    if r.returncode:
        raise Inconclusive("monitor does not build:\n" + r.stderr[-3000:])
    return BUILD + "/mon/release/mon"


def build_memx(log):
    """The memory module under settings this host never selects; a variant that does not build is left out."""
    out = {}

    def one(v):
        name, prof, feats, flags = v
        tdir = f"{BUILD}/t-memx-{name}"
        d = "release" if prof == "release" else prof
        so = f"{tdir}/{d}/libmemx.so"
        r = sh(["cargo", "build", "-q", "--offline", "--target-dir", tdir] + (["--release"] if prof == "release" else ["--profile", prof]) + feats,
               cwd=VERIF + "/harness/memx", env=env(RUSTFLAGS=flags))
        return name, so if r.returncode == 0 and os.path.exists(so) else None
    vs = [("strict", "release", [], ""), ("chk-strict", "checked", [], ""), ("nosse", "release", ["--features", "arch"], "-Ctarget-feature=-sse2")]
    with ThreadPoolExecutor(3) as ex:
        for name, so in ex.map(one, vs):
            if so:
                out[name] = so
            else:
                log.append(f"memory variant {name} cannot be built from this tree and was not observed")
    return out


def build_atomx(log):
    """The ARM Linux atomics for this machine; `be` takes the branches of a big-endian target."""
    src = REPO + "/compiler-builtins/src/sync/"
    try:
        main, shared = open(src + "arm_linux.rs").read(), open(src + "arm_thumb_shared.rs").read()
    except OSError as e:
        raise Inconclusive(f"the atomics module is not where it was: {e}")
    main = re.sub(r'"ldr\s+\{(\w+)\},\s*\[\{(\w+)\}\]"', r'"mov {\1:e}, [{\2}]"', main)
    write_if_changed(GEN + "/arm_thumb_shared.rs", shared)
    out, errs = {}, []
    for name, prof in (("le", "release"), ("chk", "checked"), ("be", "release")):
        text = main
        if name == "be":
            text = re.sub(r'cfg!\(target_endian = "little"\)', 'cfg!(not(target_endian = "little"))', main)
            if text == main:
                log.append("big-endian branches not found, not observed")
                continue
        write_if_changed(GEN + "/arm_linux.rs", text)
        tdir = f"{BUILD}/t-atomx-{name}"
        so = f"{tdir}/{prof}/libatomx.so"
        r = sh(["cargo", "build", "-q", "--offline", "--target-dir", tdir] + (["--release"] if prof == "release" else ["--profile", prof]), cwd=VERIF + "/harness/atomx")
        if r.returncode or not os.path.exists(so):
            errs.append(r.stderr[-1500:])
            log.append(f"atomics variant {name} does not build on this machine")
        else:
            out[name] = so
    if not out:
        raise Inconclusive("the atomics module does not build on this machine: " + "".join(errs[:1]))
    return out


def build_lt(kind, log):
    """One part of the conformance suite (mp: references, cmp: comparison, gen: inputs) behind a thunk table."""
    tab, tdir = f"{GEN}/lt-{kind}.rs", f"{BUILD}/t-lt-{kind}"
    dropped = set()
    for _ in range(6):
        write_if_changed(tab, lttable.rust_source(kind, dropped))
        r = sh(["cargo", "build", "--offline", "--release", "--message-format=json", "--target-dir", tdir, "--features", kind],
               cwd=VERIF + "/harness/lt", env=env(VERIF_TABLE=tab))
        if r.returncode == 0:
            if dropped:
                log.append("not reachable in this tree: " + ", ".join(lttable.rows[i][2] for i in sorted(dropped)))
            return f"{tdir}/release/liblt.so"
        new = set()
        lines = open(tab).read().split("\n")
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            stack = [m["message"]] if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" else []
            while stack:
                x = stack.pop()
                stack += x.get("children", [])
                for sp in x.get("spans", []):
                    while sp:
                        t = re.search(r"\bt(\d+)\b", lines[sp["line_start"] - 1]) if sp["file_name"].endswith(f"lt-{kind}.rs") else None
                        if t:
                            new.add(int(t.group(1)))
                        sp = (sp.get("expansion") or {}).get("span")
        if not new - dropped:
            break
        dropped |= new
    raise Inconclusive("the conformance suite does not build:\n" + "\n".join(rendered(r)[-40:]))


def build_archive(name="ar", features="compiler-builtins,mem", profile="release", rustflags="", default=True, opt=None):
    """The runtime archive as shipped. Returns the path of the archive."""
    tdir = f"{BUILD}/t-{name}"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/builtins-shim/Cargo.toml", "--target-dir", tdir,
           "--features", features] + (["--release"] if profile == "release" else ["--profile", profile]) + ([] if default else ["--no-default-features"])
    r = sh(cmd, cwd=REPO, env=env(RUSTFLAGS=rustflags, **({"CARGO_PROFILE_RELEASE_OPT_LEVEL": opt} if opt else {})))
    if r.returncode:
        raise Inconclusive("the runtime archive does not build:\n" + r.stderr[-3000:])
    d = {"release": "release", "dev": "debug"}.get(profile, profile)
    return f"{tdir}/{d}/libcompiler_builtins.rlib"


def defined_symbols(path):
    r = sh(["nm", "-A", "--defined-only", path])
    return {l.split()[-1] for l in r.stdout.splitlines() if len(l.split()) >= 3}


def has_symbol(path, name):
    return name in sh(["nm", "-D", "--defined-only", path]).stdout.split()


def build_ar_thunks(archive, name="ar", allow_missing=True):
    """C thunks calling the archive by symbol name, linked against nothing else."""
    have = defined_symbols(archive)
    missing = [s for s in table.symbols() + ["memcpy"] if s not in have]
    probe = sorted(s for s in have if s.endswith("__rust_probestack"))
    src = table.c_source(set(missing), probe[0] if probe else None)
    write_if_changed(f"{GEN}/{name}.c", src)
    so = f"{BUILD}/lib{name}.so"
    o = f"{GEN}/{name}.o"
    r = sh(["gcc", "-O1", "-fPIC", "-fno-builtin", "-ffreestanding", "-w", "-c", f"{GEN}/{name}.c", "-o", o])
    if r.returncode:
        raise Inconclusive("C thunks do not compile: " + r.stderr[-2000:])
    r = sh(["gcc", "-shared", "-nostdlib", "-Wl,-z,defs", "-Wl,-Bsymbolic", "-o", so, o, archive])
    return so, missing, (r.stderr if r.returncode else "")


# ------------------------------------------------------------------ verdicts
def known_findings(prop):
    out = {}
    try:
        for l in open(VERIF + "/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


class Check:
    """Collects what one run observed and ends it with a verdict."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evals = self.distinct = 0
        self.samples = []
        self.extra = {}
        self.viol = []  # (signature, text, replay command)
        self.incon = []
        self.notes = []
        self.rule = ""
        self.assumptions = []

    def add_mon(self, j, label, cmd):
        self.evals += j["evals"]
        self.distinct += j["distinct"]
        self.samples += [f"[{label}] {s}" for s in j["samples"][:12]]
        x = self.extra.setdefault("runs", {})
        x[label] = {"routines": j["routines"], "groups": j["groups"], "verdicts_checked": j["checks"],
                    "argument_tuples_without_nan": j["nontrivial"], "fewest_tuples_for_one_group": min(j["per"].values())}
        zero = [k for k, v in j["per"].items() if v == 0]
        if zero:
            self.incon.append(f"{label}: nothing observed for {zero[:5]}")
        self.incon += j["inconclusive"]
        for v in j["violations"]:
            sig = "mon:" + hashlib.sha1(v["sig"].split(" ", 1)[1].encode()).hexdigest()[:16]
            self.viol.append((sig, v["text"], cmd(v)))

    def finish(self, level="exploration"):
        known = known_findings(self.prop)
        fresh, seen = [], set()
        for sig, text, rep in self.viol:
            if sig in known:
                if sig not in seen:
                    print(f"KNOWN-FINDING: property={self.prop} {known[sig]}")
                    seen.add(sig)
            else:
                fresh.append((sig, text, rep))
        wall = round(time.time() - self.t0, 2)
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule, "samples": self.samples[:40]}
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        if self.incon:
            cov["inconclusive"] = self.incon[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "wall_s": wall,
              "assumptions": self.assumptions, "violations": [{"signature": s, "what": t} for s, t, _ in fresh[:50]]}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = f"{VERIF}/replays/{self.prop}.txt"
            with open(path, "w") as f:
                for s, t, rep in fresh[:50]:
                    f.write(f"# {s}\n# {t}\n{rep}\n\n")
            for s, t, _ in fresh[:10]:
                print(f"{self.prop}: {t}  [{s}]")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.evals == 0 or self.distinct == 0:
            print(f"{self.prop}: inconclusive: nothing was observed")
            return 2
        if self.incon:
            print(f"{self.prop}: inconclusive: " + "; ".join(self.incon[:5]))
            return 2
        print(f"{self.prop}: held on {self.evals} evaluations, {self.distinct} distinct cases, {wall} s")
        return 0


def mon(chk, label, suts, secs, mode="ref", ops=(), sigs=(), routes=(), sweep=False, workers=8, monbin=None, seed=None, exact=False, extra=()):
    """One monitor run over the given libraries."""
    os.makedirs(GEN, exist_ok=True)
    dpath = f"{GEN}/dict.txt"
    mined.main(dpath, sorted({r[1] for r in table.rows}))
    out = f"{GEN}/out-{chk.prop}-{label}.json"
    if os.path.exists(out):
        os.remove(out)
    base = [monbin or BUILD + "/mon/release/mon", "--prop", chk.prop, "--mode", mode, "--dict", dpath]
    for c, p in suts:
        base += ["--sut", f"{c}={p}"]
    cmd = base + ["--seed", str(chk.seed if seed is None else seed), "--secs", str(secs), "--workers", str(workers), "--out", out]
    if ops:
        cmd += ["--ops", ",".join(ops)]
    if sigs:
        cmd += ["--sigs", ",".join(sigs)]
    if routes:
        cmd += ["--routes", ",".join(routes)]
    if sweep:
        cmd += ["--sweep", "1"]
    if exact:
        cmd += ["--exact", "1"]
    r = sh(cmd + list(extra), timeout=secs + 240)
    if r.returncode or not os.path.exists(out):
        raise Inconclusive(f"monitor ended with {r.returncode}: {r.stderr[-1500:]}")
    j = json.load(open(out))

    def rep(v):
        cfg, kind, route, rest = v["sig"].split(" ", 3)
        name, sig, args = rest.rsplit(" ", 2)
        return f"python3 {VERIF}/run.py {chk.prop} --replay {cfg} {mode} {route} '{name}' '{sig}' {args}"
    chk.add_mon(j, label, rep)
    return j
