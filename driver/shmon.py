"""Workload and oracle for the scripts continuous integration runs: every tool they call is a stand-in that records the
call and fails on demand. Each scenario runs once undisturbed and once for every call with that call failing."""
import itertools
import os
import random
import shutil
import subprocess
import tempfile
import threading
import time
import traceback

import core
from core import Inconclusive, REPO

TOOLS = ["cargo", "rustc", "rustup", "docker", "cc", "lscpu", "cmd.exe", "sudo", "apt-get", "curl", "git", "tar", "rm"]
TARGETS = ["x86_64-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "i586-unknown-linux-gnu", "i686-unknown-linux-gnu", "i686-pc-windows-msvc", "x86_64-pc-windows-gnu",
           "wasm32-unknown-unknown", "thumbv7em-none-eabi", "riscv64gc-unknown-linux-gnu", "aarch64-apple-darwin", "powerpc64-unknown-linux-gnu", ""]
HOST = "x86_64-unknown-linux-gnu"


def unprivileged():
    """Another user to run as, where possible: nothing the scripts could reach belongs to it."""
    global WHO
    if WHO is None:
        WHO = dict(user=65534, group=65534, extra_groups=[])
        try:
            subprocess.run(["true"], **WHO)
        except OSError:  # the stand-ins still cover every tool that could do harm
            WHO = {}
    return WHO


WHO = None


class Box:
    """A checkout with nothing but the scripts, and a search path with the stand-ins in front."""

    def __init__(self, top, i):
        self.dir = f"{top}/{i}"
        self.bin, self.log, self.tree = self.dir + "/bin", self.dir + "/log", self.dir + "/tree"
        for d in (self.bin, self.log, self.tree + "/ci"):
            os.makedirs(d)
        self.tool = self.dir + "/standin"
        shutil.copy(core.BUILD + "/standin", self.tool)
        for t in TOOLS:
            os.symlink(self.tool, f"{self.bin}/{t}")
        for f in sorted(os.listdir(REPO + "/ci")):
            if f.endswith(".sh"):
                shutil.copy(f"{REPO}/ci/{f}", self.tree + "/ci/")
        os.symlink(self.tool, self.tree + "/ci/ci-util.py")
        self.images = sorted(os.listdir(REPO + "/ci/docker"))
        for d in self.images:
            os.makedirs(f"{self.tree}/ci/docker/{d}")
        for d in (self.dir, self.log, self.tree):
            os.chmod(d, 0o777)

    def run(self, script, args, env, fail=None, code=1):
        shutil.rmtree(self.log)
        os.mkdir(self.log)
        os.chmod(self.log, 0o777)
        for n in ("gh-env", "target", "gungraun-home"):
            p = f"{self.tree}/{n}"
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.remove(p)
        nx = self.bin + "/cargo-nextest"
        if env.get("nextest") and not os.path.lexists(nx):
            os.symlink(self.tool, nx)
        if not env.get("nextest") and os.path.lexists(nx):
            os.remove(nx)
        e = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.dir, "LC_ALL": "C", "SI_DIR": self.log, "GITHUB_ENV": self.tree + "/gh-env", "GITHUB_SHA": "0123456789abcdef0123"}
        e.update({k: v for k, v in env.items() if k != "nextest"})
        if fail is not None:
            e.update(SI_FAIL=str(fail), SI_CODE=str(code))
        r = subprocess.run([f"{self.tree}/ci/{script}"] + args, cwd=self.tree, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, **unprivileged())
        calls = []
        while os.path.exists(f"{self.log}/call-{len(calls)}"):
            n, *v = open(f"{self.log}/call-{len(calls)}", "rb").read().decode(errors="replace").split("\0")
            calls.append((v[:int(n)], dict(x.split("=", 1) for x in v[int(n):] if "=" in x)))
        return r.returncode, calls, r.stderr.decode(errors="replace")[-300:]


def scenarios():
    out = []
    for t, nx, only, skip in itertools.product(TARGETS, (0, 1), ("", "1"), ("", "true", "false")):
        env = {"nextest": nx, "BUILD_ONLY": only, "MAY_SKIP_LIBM_CI": skip}
        out.append(("run.sh", [t] if t else [], env))
    for t in (HOST, "aarch64-unknown-linux-gnu"):
        out.append(("run.sh", [t], {"nextest": 0, "USING_CONTAINER_RUSTC": "1"}))
    for t in ("", "sin", "cosf,sinf", "fmaf128,fmodf128,sqrtf128"):
        out.append(("run-extensive.sh", [], {"TO_TEST": t}))
    out.append(("miri.sh", [], {}))
    for pr in ("", "1234"):
        for t in ([], [HOST], ["aarch64-unknown-linux-gnu"]):
            out.append(("bench-icount.sh", t, {"PR_NUMBER": pr}))
    out.append(("bench-walltime.sh", [], {}))
    for a in ([], ["i686-unknown-linux-gnu"], ["x86_64-unknown-linux-gnu"]):
        for e in ({}, {"DOCKER_BASE_IMAGE": "rust:latest"}, {"GITHUB_ACTIONS": "true"}):
            out.append(("run-docker.sh", a, e))
    return [s for s in out if os.path.exists(f"{REPO}/ci/{s[0]}")]


def value(a, *names):
    """Values of an option given as --name value or --name=value."""
    out = []
    for i, x in enumerate(a):
        for n in names:
            if x == n and i + 1 < len(a):
                out.append(a[i + 1])
            elif x.startswith(n + "="):
                out.append(x[len(n) + 1:])
    return out


def feats(a):
    return {f.rsplit("/", 1)[-1] if f.startswith(("compiler_builtins/", "libm/", "builtins-test/")) else f for v in value(a, "--features", "-F") for f in v.replace(",", " ").split()}


def tests(a):
    """A call that runs compiled tests."""
    return a[:2] == ["cargo", "test"] or a[:3] == ["cargo", "nextest", "run"] or a[:2] == ["cargo", "miri"]


def release(a):
    return "--release" in a or "-r" in a or "release" in value(a, "--profile", "--cargo-profile")


def undisturbed(script, args, env, calls):
    """What must have been called when nothing failed; the first thing missing, or None."""
    cargo = [(a, e) for a, e in calls if a[0] == "cargo"]
    if script == "run-extensive.sh":
        names = env["TO_TEST"].split(",") if env["TO_TEST"] else []
        if not names:
            return f"nothing was to be tested, but {cargo[0][0]} ran" if cargo else None
        ext = [(a, e) for a, e in cargo if tests(a) and e.get("LIBM_EXTENSIVE_TESTS")]
        norm = [a for a, e in cargo if tests(a) and not e.get("LIBM_EXTENSIVE_TESTS")]
        for n in names:
            if not any(n in e["LIBM_EXTENSIVE_TESTS"].split(",") and (x := a[a.index("--") + 1:] if "--" in a else []) is not None
                       and (not x or any(f in "extensive" for f in x if not f.startswith("-"))) for a, e in ext):
                return f"no extensive test of {n}"
            if not any("--" not in a or any(f in f"mp_quickspace_{n}" for f in a[a.index("--") + 1:] if not f.startswith("-")) for a in norm):
                return f"no other test of {n} selected"
        return None
    if script == "bench-icount.sh":
        b = [a for a, _ in cargo if a[1] == "bench"]
        if len([a for a in b if "arch" in feats(a)]) < 1 or len([a for a in b if "arch" not in feats(a)]) < 1:
            return "benchmarks not run both with and without target instructions"
        t = args[0] if args else HOST
        if any(value(a, "--target") not in ([], [t]) for a in b):
            return "benchmarks run for another target"
        if not any(a[0] == "tar" for a, _ in calls):
            return "no baseline saved"
        if not any(a[0] == "ci-util.py" and a[1] == "locate-baseline" for a, _ in calls):
            return "no earlier baseline looked for"
        return None
    if script == "bench-walltime.sh":
        return None if any(a[1] == "bench" for a, _ in cargo) else "no benchmark run"
    if script == "miri.sh":
        for t in {v for a, _ in cargo for v in value(a, "--target")}:
            for m in ("builtins-test", "libm"):
                if not any(value(a, "--target") == [t] and any(m in v for v in value(a, "--manifest-path", "-p", "--package")) for a, _ in cargo if tests(a)):
                    return f"{m} not tested for {t}"
        return None if len(cargo) >= 4 else "fewer than two targets tested"
    if script == "run-docker.sh":
        d = [a for a, _ in calls if a[0] == "docker"]
        for t in args or sorted(os.listdir(REPO + "/ci/docker")):
            if not any("build" in a[1:3] and a[-1].rstrip("/").endswith("/" + t) for a in d):
                return f"image of {t} not built"
            r = [a for a in d if a[1] == "run" and any(x.rstrip().endswith("ci/run.sh " + t) for x in a)]
            if not r:
                return f"tests not run in the image of {t}"
            if f"builtins-{t}" not in r[0]:
                return f"tests of {t} run in another image"
        return None
    t = args[0] if args else HOST
    for a, _ in cargo:
        for v in value(a, "--target"):
            if v != t:
                return f"{' '.join(a)}: another target than {t}"
    only, skip = env.get("BUILD_ONLY") == "1", env.get("MAY_SKIP_LIBM_CI") == "true"
    onboard = [a for a, _ in cargo if value(a, "--target") == [t] and (tests(a) or a[1] == "run" and "symcheck" not in value(a, "-p", "--package"))]
    if only and onboard:
        return f"{' '.join(onboard[0])}: runs programs of a target whose programs do not run"
    modes = [({"c"}, False), (set(), False), (set(), True)]
    name = {(frozenset({"c"}), False): "feature c", (frozenset(), False): "default features", (frozenset(), True): "no default features"}
    bt = [a for a in onboard if tests(a) and "builtins-test" in value(a, "-p", "--package")]
    sc = [a for a, _ in cargo if a[1] == "run" and "symcheck" in value(a, "-p", "--package") and "--build-and-check" in a and "--target" in a]
    for f, bare in modes:
        for rel in (False, True):
            what = f"{name[frozenset(f), bare]}, {'release' if rel else 'debug'}"
            if not only and not any(feats(a) == f and ("--no-default-features" in a) == bare and release(a) == rel and "--benches" not in a and "--no-run" not in a for a in bt):
                return f"builtins not tested with {what}"
            if not any((feats(x) - {"compiler-builtins"}) == f and ("--no-default-features" in x) == bare and release(x) == rel and "compiler_builtins" in value(x, "-p", "--package")
                       for x in (a[a.index("--build-and-check"):] for a in sc)):
                return f"symbols not checked with {what}"
    for a in sc:
        if ("--no-os" in a) != ("-none" in t):
            return f"{' '.join(a)}: executable stacks of {t}"
    for rel in (False, True):
        if not any(any("builtins-test-intrinsics" in v for v in value(x, "--manifest-path", "-p", "--package")) and release(x) == rel for x in (a[a.index("--build-and-check"):] for a in sc)):
            return "symbols of the program using all intrinsics not checked"
        if not only and "windows" not in t and not any(a[1] == "run" and any("builtins-test-intrinsics" in v for v in value(a, "--manifest-path", "-p", "--package")) and release(a) == rel
                                                       for a in onboard):
            return "program using all intrinsics not run"
    ws = [a for a in onboard if tests(a) and "--workspace" in a and "--doc" not in a]
    if skip:
        return f"{' '.join(ws[0])}: libm tested although it may be skipped" if ws else None
    if only:
        return None if any(a[1] == "build" and "libm" in value(a, "-p", "--package") for a, _ in cargo) else "libm not built"
    for need, rel in ((set(), False), ({"arch", "unstable-intrinsics"}, False), (set(), True), ({"arch"}, True), ({"arch", "unstable-intrinsics"}, True)):
        if not any(feats(a) & {"arch", "unstable-intrinsics"} == need and bool(value(a, "--profile", "--cargo-profile")) == rel and "--no-default-features" in a for a in ws):
            return f"libm not tested with features {sorted(need)}{', optimized' if rel else ''}"
    if "windows" not in t and not any(e.get("ENSURE_NO_PANIC") and a[1] == "build" and "libm" in value(a, "-p", "--package") and "--tests" in a for a, e in cargo):
        return "absence of panics not checked"
    mpfr = t.startswith(("i586", "i686", "x86_64")) and "windows" not in t or t.startswith("aarch64")
    if any(("libm-test/build-mpfr" in feats(a)) != mpfr for a in ws):
        return "multiprecision tests " + ("left out" if mpfr else "asked of a target that cannot build them")
    if env.get("nextest") and not any("--doc" in a for a in onboard):
        return "documentation tests not run"
    return None


def excused(script, env, a):
    """Calls whose failure is no failure of the run."""
    if a[0] in ("lscpu", "cc") or a[:3] == ["rustup", "target", "list"]:
        return True
    if a[0] == "rustc" and (a[1:2] == ["--print"] or a[1:] == ["-vV"]):
        return True  # queries
    return script == "bench-icount.sh" and a[:2] == ["cargo", "bench"]  # regressions are judged by the helper


def show(s):
    script, args, env = s
    return " ".join([f"{k}={v}" for k, v in env.items() if v != ""] + [script] + args)


def one(box, s, fail, code):
    """(kind, what, why) of one run; fail None runs undisturbed."""
    script, args, env = s
    rc, calls, err = box.run(script, args, env, fail, code)
    if fail is None:
        if rc:
            return (script, "clean"), calls, f"{show(s)}: no tool failed, but the script ended with {rc}: {err[-120:]}"
        why = undisturbed(script, args, env, calls)
        return (script, "clean"), calls, f"{show(s)}: {why}" if why else None
    if fail >= len(calls):
        return (script, "none"), calls, None
    a = calls[fail][0]
    head = " ".join(x for x in a[:3] if "/" not in x)
    if rc == 0 and not excused(script, env, a):
        return (script, head), calls, f"{show(s)}: '{' '.join(a)[:160]}' failed with {code}, but the script succeeded"
    return (script, head), calls, None


def prepare():
    r = core.sh(["gcc", "-O1", "-w", core.VERIF + "/harness/standin.c", "-o", core.BUILD + "/standin"])
    if r.returncode:
        raise Inconclusive("stand-in does not build: " + r.stderr[-300:])


def run(chk, secs):
    os.makedirs(core.GEN, exist_ok=True)
    prepare()
    top = tempfile.mkdtemp(prefix="ci")
    os.chmod(top, 0o755)
    lock = threading.Lock()
    end = time.time() + secs
    st = {"evals": 0, "checks": 0}
    per, kinds, viol, samples, incon = {}, set(), [], [], []
    rng = random.Random(chk.seed)
    sc = scenarios()
    work = [(i, None) for i in range(len(sc))]
    rng.shuffle(work)
    later = []

    def worker(i):
        try:
            box = Box(top, i)
            while True:
                with lock:
                    if work:
                        k, fail = work.pop()
                    elif later and time.time() < end and len(viol) < 60:
                        k, fail = later.pop(rng.randrange(len(later)))
                    else:
                        return
                    code = rng.choice((1, 2, 100, 101, 137))
                kind, calls, why = one(box, sc[k], fail, code)
                with lock:
                    st["evals"] += 1
                    st["checks"] += len(calls)
                    per[kind[0]] = per.get(kind[0], 0) + 1
                    kinds.add(kind + (k, fail))
                    if fail is None:
                        later.extend((k, n) for n in range(len(calls)))
                    if len(samples) < 40 and st["evals"] % 31 == 1:
                        samples.append(f"{show(sc[k])}: {len(calls)} calls" + (f", number {fail} failing with {code}" if fail is not None else ""))
                    if why:
                        viol.append({"sig": f"sh {why}", "text": why, "key": f"{k}:{'' if fail is None else fail}:{code}"})
        except subprocess.TimeoutExpired as x:
            incon.append(f"no end within 120 s: {x.cmd}")
        except Exception:
            incon.append(traceback.format_exc()[-600:])
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(top)
    seen, keep = set(), []
    for v in viol:  # one report for each cause
        c = v["sig"].split(": ", 1)[-1]
        if c not in seen:
            seen.add(c)
            keep.append(v)
    chk.rule = ("runs of the scripts with recording stand-ins for every tool, undisturbed or with one call failing; distinct = distinct (script, scenario, failing call); "
                "verdicts_checked counts recorded calls")
    chk.assumptions = ["tools report failure by their exit status"]
    chk.extra["failing_calls_left"] = len(later)
    chk.add_mon({"evals": st["evals"], "checks": st["checks"], "distinct": len(kinds), "nontrivial": st["evals"], "groups": len(per), "routines": len(per), "per": per,
                 "samples": samples, "violations": keep, "inconclusive": incon}, "runs", lambda v: f"python3 {core.VERIF}/run.py {chk.prop} --replay {v['key']}")
    return chk.finish()


def replay(key):
    k, fail, code = key.split(":")
    prepare()
    top = tempfile.mkdtemp(prefix="ci")
    os.chmod(top, 0o755)
    try:
        kind, calls, why = one(Box(top, 0), scenarios()[int(k)], int(fail) if fail else None, int(code))
    finally:
        shutil.rmtree(top)
    print("\n".join(" ".join(a) for a, _ in calls))
    print(why or "as it should be")
    return 1 if why else 0
