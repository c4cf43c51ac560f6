"""Workload and oracle for the helper that decides what continuous integration runs: histories, pull request
texts and answers of the hosting service are made up in a scratch directory, the helper runs on them, what it
prints and leaves behind is compared with what the history says."""
import fnmatch
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tarfile
import tempfile
import threading
import time
import traceback

import core
from core import REPO

TYPES = ["f16", "f32", "f64", "f128"]
IGNORED = ["libm/src/math/support/", "libm/src/libm_helper.rs", "libm/src/math/arch/intrinsics.rs"]
OTHER = ["README.md", "Cargo.toml", "compiler-builtins/src/int/mod.rs", "compiler-builtins/src/float/add.rs", "builtins-test/src/lib.rs", "ci/run.sh",
         "triagebot.toml", "crates/symcheck/src/main.rs", "etc/thumbv6-none-eabi.json"]
LIBM = ["libm/src/math/k_cos.rs", "libm/src/math/mod.rs", "libm-test/src/lib.rs", "crates/musl-math-sys/src/lib.rs", "crates/libm-macros/src/lib.rs", "ci/update-musl.sh",
        "libm/src/libm_helper.rs", "libm/src/math/support/mod.rs", "libm/src/math/support/float_traits.rs", "libm/src/math/arch/intrinsics.rs"]
LIMIT = 20

GH = r"""#!/bin/sh
# stands in for the hosting service's command line client; everything it says is in $GH_DIR
printf '%s\n' "$*" >> "$GH_DIR/calls"
case "$1 $2" in
"pr view")
    [ -f "$GH_DIR/pr-$3.json" ] || exit 1
    case "$*" in *--jq*|*" -q "*) cat "$GH_DIR/pr-$3.json" ;; *) cat "$GH_DIR/raw-$3.json" ;; esac ;;
"run list")
    [ -f "$GH_DIR/list-fails" ] && exit 1
    case "$*" in *--jq*|*" -q "*) cat "$GH_DIR/list" ;; *) cat "$GH_DIR/list-raw" ;; esac ;;
"run download")
    exec "$PYTHON" "$GH_DIR/../download.py" "$@" ;;
*) exit 64 ;;
esac
"""

DOWNLOAD = r"""
import fnmatch, os, shutil, sys
d = os.environ["GH_DIR"]
if os.path.exists(d + "/download-fails"):
    sys.exit(1)
a = sys.argv[3:]
job, pat = None, []
i = 0
while i < len(a):
    if a[i].startswith("--pattern="):
        pat.append(a[i][10:])
    elif a[i] in ("--pattern", "-p"):
        i += 1
        pat.append(a[i])
    else:
        job = a[i]
    i += 1
src = d + "/artifacts-" + str(job)
if not os.path.isdir(src):
    sys.exit(1)
n = 0
# artifacts arrive in no particular order
for x in sorted(os.listdir(src), key=lambda x: x[::-1]):
    if not pat or any(fnmatch.fnmatchcase(x, p) for p in pat):
        os.makedirs(x, exist_ok=True)
        shutil.copy(f"{src}/{x}", f"{x}/{x}.tar.xz")
        when = 1700000000 + 100 * n
        os.utime(f"{x}/{x}.tar.xz", (when, when))
        os.utime(x, (when, when))
        n += 1
sys.exit(0 if n else 1)
"""


def ftype(name):
    """Type a routine's name stands for."""
    if name in ("erf", "modf", "lgamma_r"):
        return "f64"
    if name == "lgammaf_r":
        return "f32"
    for t in TYPES:
        if name.endswith(t):
            return t
    return "f32" if name.endswith("f") else "f64"


def ignored(f):
    return any(f.startswith(p) for p in IGNORED)


class Box:
    """One scratch repository and the directory the stand-in client reads."""

    def __init__(self, top, i):
        self.dir = f"{top}/{i}"
        self.repo = self.dir + "/repo"
        self.gh = self.dir + "/gh"
        for d in (self.repo + "/ci", self.repo + "/etc", self.dir + "/bin", self.gh):
            os.makedirs(d)
        shutil.copy(REPO + "/ci/ci-util.py", self.repo + "/ci/ci-util.py")
        with open(self.dir + "/bin/gh", "w") as f:
            f.write(GH)
        os.chmod(self.dir + "/bin/gh", 0o755)
        with open(self.dir + "/download.py", "w") as f:
            f.write(DOWNLOAD)
        self.env = {"PATH": self.dir + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "GH_DIR": self.gh, "GIT_CONFIG_NOSYSTEM": "1",
                    "GIT_CEILING_DIRECTORIES": self.dir, "LC_ALL": "C.UTF-8", "PYTHON": sys.executable, "PYTHONDONTWRITEBYTECODE": "1"}
        self.git(["init", "-q", "-b", "main", "."])
        self.defs_real = json.load(open(REPO + "/etc/function-definitions.json"))

    def git(self, a, **kw):
        return subprocess.run(["git"] + a, cwd=self.repo, env=self.env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **kw).stdout

    def tool(self, args, cwd=None, **ev):
        e = dict(self.env)
        for k, v in ev.items():
            if v is not None:
                e[k] = v
        p = subprocess.run([sys.executable, self.repo + "/ci/ci-util.py"] + args, cwd=cwd or self.repo, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=120)
        return p.returncode, p.stdout, p.stderr

    def clear(self):
        shutil.rmtree(self.gh)
        os.makedirs(self.gh)


# ------------------------------------------------------------------ pull request texts
DIRS = ["allow-regressions", "skip-extensive", "allow-many-extensive", "test-libm", "extra-extensive"]
PROSE = ["Fix the rounding of a corner case.", "", "This brings `{d}` in.", "see ci: {d} in the manual", "CI: {d}", "xci: {d}", "- ci: {d}", "`ci: {d}`", "ci {d}", "> ci: {d}",
         "r? somebody", "Fixes #123", "cici: {d}", "the line \"ci: {d}\" is what asks for it", "# Heading", "* a list = {d}"]


def body(r, names):
    """(text, directives present, extra routines, whether it must be refused)"""
    lines, have, extra, refuse = [], set(), [], False
    for _ in range(r.randrange(0, 6)):
        lines.append(r.choice(PROSE).format(d=r.choice(DIRS + ["unknown"])))
    n = r.choice([0, 0, 1, 1, 1, 2, 3])
    put = []
    for d in r.sample(DIRS, n):
        lead = r.choice(["", "", "", " ", "    ", "\t"])
        sp = r.choice([" ", " ", "", "  ", "\t"])
        s = f"{lead}ci:{sp}{d}"
        if d == "extra-extensive":
            extra = [r.choice(names) for _ in range(r.choice([1, 1, 2, 3, 30]))]
            s += r.choice(["=", " = ", "= ", " ="]) + r.choice([",", ", ", " , "]).join(extra) + r.choice(["", " "])
        else:
            s += r.choice(["", "", "", " "])
        have.add(d)
        put.append(s)
    k = r.random()
    if k < 0.06:
        put.append("ci: " + r.choice(["skip_extensive", "foo", "allow-regression", "extensive", "Skip-Extensive", "allow-regressions,skip-extensive"]))
        refuse = True
    elif k < 0.1:
        put.append(f"ci: {r.choice(DIRS[:4])} = {r.choice(['sin', 'true', 'sin,cos'])}")
        refuse = True
    for s in put:
        lines.insert(r.randrange(len(lines) + 1), s)
    if lines and lines[-1].strip() in ("ci:", ""):
        lines.append("end")
    return r.choice(["\n", "\n", "\r\n"]).join(lines) + r.choice(["", "\n"]), have, extra, refuse


def write_pr(box, n, text):
    commits = [f"{i:040x}" for i in range(2)]
    with open(f"{box.gh}/pr-{n}.json", "w") as f:
        json.dump({"number": n, "commits": commits, "body": text, "created_at": "2025-01-01T00:00:00Z"}, f)
    with open(f"{box.gh}/raw-{n}.json", "w") as f:
        json.dump({"number": n, "commits": [{"oid": c} for c in commits], "body": text, "createdAt": "2025-01-01T00:00:00Z"}, f)


# ------------------------------------------------------------------ histories
def history(box, r, defs, key):
    """Writes a merge into the scratch repository; returns what it changed."""
    files = sorted({s for m in defs.values() for s in m["sources"]})
    out = io.BytesIO()
    marks = [0]

    def commit(ref, changes, parents):
        marks[0] += 1
        out.write(f"commit {ref}\nmark :{marks[0]}\ncommitter a <a@b> {1700000000 + marks[0]} +0000\ndata 1\nx\n".encode())
        if parents:
            out.write(f"from :{parents[0]}\n".encode())
        for p in parents[1:]:
            out.write(f"merge :{p}\n".encode())
        for path, content in changes.items():
            if content is None:
                out.write(f"D {path}\n".encode())
            else:
                b = content.encode()
                out.write(f"M 100644 inline {path}\ndata {len(b)}\n".encode() + b + b"\n")
        out.write(b"\n")
        return marks[0]

    base = {f: f"{f} {'line ' * 20} {i}\n" for i, f in enumerate(files + OTHER + LIBM)}
    pool = [f for f in files if r.random() < 0.5] or files

    def pick(few):
        n = r.choice(few)
        return r.sample(pool, min(n, len(pool)))

    def some_changes(tag):
        c = {}
        for f in pick([0, 0, 1, 1, 1, 2, 2, 3, 5, 12, 40]):
            c[f] = f"{tag} {f}\n"
        for f in r.sample(OTHER, r.choice([0, 0, 1, 2])):
            c[f] = f"{tag} {f}\n"
        if r.random() < 0.4:
            for f in r.sample(LIBM, r.choice([0, 1, 1, 2])):
                c[f] = f"{tag} {f}\n"
        return c

    ref = "refs/heads/t" + key
    a = commit(ref, base, [])
    tree_main, tree_in = dict(base), dict(base)
    here = there = a
    fork = dict(base)  # what the merge base has
    for k in range(r.randrange(0, 3)):  # main moves on
        c = some_changes(f"main{k}")
        tree_main.update(c)
        here = commit(ref + "m", c, [here])
    shape = r.random()
    if here != a and shape < 0.3:
        # the branch takes main in, main moves on again
        c = some_changes("early")
        tree_in.update(c)
        there = commit(ref + "i", c, [there])
        taken = {f: v for f, v in tree_main.items() if base.get(f) != v}
        tree_in.update(taken)
        there = commit(ref + "i", taken, [there, here])
        fork = dict(tree_main)
        c = some_changes("late")
        tree_main.update(c)
        here = commit(ref + "m", c, [here])
    for k in range(r.randrange(1, 4)):
        c = some_changes(f"in{k}")
        if r.random() < 0.15:
            c[r.choice(pool)] = None
        if r.random() < 0.2:
            back = [f for f, v in tree_in.items() if v is not None and fork.get(f) not in (None, v)]
            for f in back[:r.randrange(0, 3)]:
                c[f] = fork[f]  # undone again
        c = {f: v for f, v in c.items() if not (v is None and tree_in.get(f) is None)}
        tree_in.update(c)
        there = commit(ref + "i", c, [there])
    if there == a:
        there = commit(ref + "i", {}, [there])
    if here == a:
        here = commit(ref + "m", {}, [here])
    m = commit(f"refs/pull/{key}/merge", {}, [here, there])
    del m
    box.git(["fast-import", "--quiet", "--force"], input=out.getvalue())
    return {f for f in set(fork) | set(tree_in) if fork.get(f) != tree_in.get(f)}


def definitions(box, r):
    if r.random() < 0.5:
        d = dict(box.defs_real)
        com = d.pop("__comment", None)
    else:
        com = "made up"
        d = {}
        stems = ["sin", "cos", "fmax", "exp2", "log1p", "trunc", "roundeven", "fma", "sqrt", "j1", "nextafter", "fminimum_num"]
        for s in r.sample(stems, r.randrange(3, len(stems) + 1)):
            gen = f"libm/src/math/generic/{s}.rs"
            for t, sfx in (("f16", "f16"), ("f32", "f"), ("f64", ""), ("f128", "f128")):
                if r.random() < 0.8:
                    src = {f"libm/src/math/{s}{sfx}.rs"}
                    if r.random() < 0.5:
                        src = {f"libm/src/math/{s}.rs"}
                    if r.random() < 0.4:
                        src.add(gen)
                    if r.random() < 0.3:
                        src.add(f"libm/src/math/arch/{r.choice(['x86', 'wasm32'])}/{r.choice(['rounding', s])}.rs")
                    if r.random() < 0.2:
                        src.add(r.choice(IGNORED[1:] + [IGNORED[0] + "mod.rs"]))
                    d[s + sfx] = {"sources": sorted(src), "type": t}
        if not d:
            d["sin"] = {"sources": ["libm/src/math/sin.rs"], "type": "f64"}
    with open(box.repo + "/etc/function-definitions.json", "w") as f:
        json.dump({"__comment": com, **d} if com else d, f)
    return d


# ------------------------------------------------------------------ cases
def matrix_case(box, r, key):
    defs = definitions(box, r)
    names = list(defs)
    pr = r.random() < 0.85
    num = r.randrange(1, 99999)
    changed = set()
    have, extra, refuse = set(), [], False
    if pr:
        changed = history(box, r, defs, str(num))
        text, have, extra, refuse = body(r, names)
        write_pr(box, num, text)
        ev = {"GITHUB_REF": f"refs/pull/{num}/merge", "PR_NUMBER": str(num)}
    else:
        ev = {"GITHUB_REF": r.choice([None, "refs/heads/main", "refs/heads/auto", "refs/tags/libm-v0.2.16"]), "PR_NUMBER": r.choice([None, ""])}
    rc, out, err = box.tool(["generate-matrix"], **ev)
    per = {t: [] for t in TYPES}
    for n, m in defs.items():
        if any(s in changed and not ignored(s) for s in m["sources"]):
            per[m["type"]].append(n)
    todo = {t: ([] if "skip-extensive" in have else list(per[t])) + [x for x in extra if ftype(x) == t] for t in TYPES}
    most, least = sum(len(v) for v in todo.values()), sum(len(set(v)) for v in todo.values())
    kind = ("matrix", "pr" if pr else "push", tuple(sorted(have)), refuse, min(most, 25), tuple(bool(per[t]) for t in TYPES))
    what = f"generate-matrix {ev} with {sorted(have)} {extra} and changes {sorted(changed)[:12]}"
    if refuse:
        return kind, 1, what, None if rc else "accepted a directive it does not know or an argument that has no place"
    many = pr and "allow-many-extensive" not in have
    if many and least > LIMIT:
        return kind, 1, what, None if rc else f"accepted {least} extensive tests without the directive that allows so many"
    if many and most > LIMIT:
        return kind, 0, what, None
    if rc:
        return kind, 1, what, f"ended with {rc}: {err.strip()[-200:]}"
    got = {}
    for l in out.splitlines():
        k, _, v = l.partition("=")
        got[k] = v
    try:
        mat = json.loads(got["extensive_matrix"])["extensive_matrix"]
        seen = {m["ty"]: (m["changed"], m["to_test"]) for m in mat}
        skip = got["may_skip_libm_ci"]
    except (KeyError, ValueError, TypeError) as x:
        return kind, 1, what, f"printed {out[:200]!r}: {x!r}"
    if len(mat) != 4 or set(seen) != set(TYPES):
        return kind, 1, what, f"lists types {[m['ty'] for m in mat]}"
    for t in TYPES:
        want = (",".join(sorted(set(per[t]))), ",".join(sorted(set(todo[t]))))
        for w, g, n in zip(want, seen[t], ("changed", "to_test")):
            if w != g:
                return kind, 9, what, f"{n} for {t} is {g!r}, the history says {w!r}"
    want = pr and "test-libm" not in have and not any("libm" in f or "musl" in f for f in changed)
    if skip != str(want).lower():
        return kind, 9, what, f"may_skip_libm_ci={skip}"
    return kind, 9, what, None


def regress_case(box, r, key):
    names = ["sin", "cosf", "fmaxf16"]
    if r.random() < 0.1:
        a = r.choice([[], ["1", "2"]])
        rc, out, err = box.tool(["handle-bench-regressions"] + a)
        return ("regressions", len(a)), 1, f"handle-bench-regressions {a}", None if rc else "accepted a wrong number of arguments"
    num = r.randrange(1, 99999)
    text, have, extra, refuse = body(r, names)
    write_pr(box, num, text)
    rc, out, err = box.tool(["handle-bench-regressions", str(num)])
    ok = "allow-regressions" in have and not refuse
    return ("regressions", tuple(sorted(have)), refuse), 1, f"handle-bench-regressions with {sorted(have)} in {text!r}", None if (rc == 0) == ok else f"ended with {rc}"


def baseline_case(box, r, key):
    cwd = tempfile.mkdtemp(prefix="cwd", dir=box.dir)
    try:
        return baseline_in(box, r, cwd)
    finally:
        shutil.rmtree(cwd)


def baseline_in(box, r, cwd):
    tags = ["x86_64", "aarch64", "i686", "riscv64gc"]
    tag = r.choice(tags)
    flags = []
    down, ext, tagged = r.random() < 0.8, r.random() < 0.7, r.random() < 0.8
    if down:
        flags.append(["--download"])
    if ext:
        flags.append(["--extract"])
    if tagged:
        flags.append(["--tag", tag])
    bad = r.random() < 0.06
    if bad:
        flags.append([r.choice(["--foo", "download", "--tags"])])
    r.shuffle(flags)
    job = r.randrange(10 ** 6, 10 ** 9)
    entry = {"databaseId": job, "url": "https://example.invalid/", "headSha": "0" * 40, "conclusion": "success", "createdAt": "2025-01-01T00:00:00Z", "status": "completed",
             "workflowDatabaseId": 3, "workflowName": "CI"}
    mode = r.choice(["ok"] * 8 + ["list-fails", "empty", "garbage", "download-fails", "no-artifacts"])
    raw = [dict(entry, databaseId=job + 7, workflowName="Publish"), entry, dict(entry, databaseId=job + 9)]
    with open(box.gh + "/list", "w") as f:
        f.write({"empty": "\n", "garbage": "<html>"}.get(mode, json.dumps(entry) + "\n"))
    with open(box.gh + "/list-raw", "w") as f:
        f.write({"empty": "[]", "garbage": "<html>"}.get(mode, json.dumps(raw)))
    for m in ("list-fails", "download-fails"):
        if mode == m:
            open(f"{box.gh}/{m}", "w").close()
    art = f"{box.gh}/artifacts-{job}"
    os.makedirs(art)
    newest = None
    if mode != "no-artifacts":
        stamps = r.sample(range(202401010000, 202512312359), r.randrange(1, 6))
        for s in stamps:
            for t in (tags if tagged and r.random() < 0.5 else [tag]):
                n = f"baseline-icount-{t}-{s}-{r.getrandbits(48):012x}"
                with tarfile.open(f"{art}/{n}", "w:xz") as tf:
                    for p in (f"gungraun-home/{s}/x", f"gungraun-home/common/{t}/y"):
                        b = n.encode()
                        ti = tarfile.TarInfo(p)
                        ti.size = len(b)
                        tf.addfile(ti, io.BytesIO(b))
                if t == tag and (newest is None or s > newest[0]):
                    newest = (s, n)
    args = [x for f in flags for x in f]
    rc, out, err = box.tool(["locate-baseline"] + args, cwd=cwd)
    kind = ("baseline", tuple(args), mode)
    what = f"locate-baseline {' '.join(args)}, service: {mode}"
    calls = open(box.gh + "/calls").read().splitlines() if os.path.exists(box.gh + "/calls") else []
    got = {}
    for root, _, fs in os.walk(cwd):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), cwd)
            if not p.endswith(".tar.xz"):
                got[p] = open(os.path.join(root, f)).read()
    if bad or ext and not down:
        if rc == 0:
            return kind, 1, what, "accepted flags it must refuse"
        return kind, 2, what, "reached the service all the same" if any("download" in c.split()[:2] for c in calls) else None
    if rc:
        return kind, 1, what, f"ended with {rc}: {err.strip()[-200:]}"
    dl = [c for c in calls if c.startswith("run download")]
    usable = mode in ("ok", "download-fails", "no-artifacts")
    if bool(dl) != (down and usable):
        return kind, 2, what, f"downloads asked for: {dl}"
    if dl and str(job) not in dl[0].split():
        return kind, 2, what, f"asked for {dl[0]!r} instead of job {job}"
    want = {}
    if ext and down and mode == "ok" and newest:
        want = {f"gungraun-home/{newest[0]}/x": newest[1], f"gungraun-home/common/{tag}/y": newest[1]}
    if got != want:
        return kind, 4, what, f"left {got} behind, the newest baseline is {newest}"
    return kind, 4, what, None


def usage_case(box, r, key):
    a = r.choice([[], ["matrix"], ["generate"], ["generate-matrix", "x"], ["locate"], ["--version"], ["handle"], [""]])
    rc, out, err = box.tool(a)
    return ("usage", tuple(a)), 1, f"ci-util {a}", "accepted a command it does not have" if rc == 0 or "extensive_matrix=" in out else None


def one(box, key):
    r = random.Random(key)
    box.clear()
    k = r.random()
    f = matrix_case if k < 0.7 else regress_case if k < 0.82 else baseline_case if k < 0.98 else usage_case
    return f(box, r, key)


def run(chk, secs):
    top = tempfile.mkdtemp(prefix="ci", dir=core.GEN)
    lock = threading.Lock()
    end = time.time() + secs
    st = {"evals": 0, "checks": 0}
    per, kinds, viol, samples, incon = {}, set(), [], [], []

    def worker(i):
        try:
            box = Box(top, i)
            n = 0
            while time.time() < end or n < 20:
                key = f"{chk.seed}-{i}-{n}"
                n += 1
                kind, checks, what, why = one(box, key)
                with lock:
                    st["evals"] += 1
                    st["checks"] += checks
                    per[kind[0]] = per.get(kind[0], 0) + 1
                    kinds.add(kind)
                    if len(samples) < 40 and st["evals"] % 23 == 1:
                        samples.append(what[:300])
                    if why:
                        viol.append({"sig": f"ci {kind[0]} {why[:60]}", "text": f"{what}: {why}", "key": key})
                if len(viol) > 100:
                    return
                if n % 200 == 0:  # the scratch repository stays small
                    shutil.rmtree(box.dir)
                    box = Box(top, i)
        except subprocess.TimeoutExpired as x:
            incon.append(f"no answer within 120 s: {x.cmd}")
        except Exception:
            incon.append(traceback.format_exc()[-600:])
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(top)
    for k in ("matrix", "regressions", "baseline"):
        per.setdefault(k, 0)
    chk.rule = "helper runs on made-up histories, pull request texts and service answers; distinct = distinct (command, directives, kind of answer expected, types affected)"
    chk.assumptions = ["the hosting service's client is a stand-in that answers as its documentation says"]
    chk.add_mon({"evals": st["evals"], "checks": st["checks"], "distinct": len(kinds), "nontrivial": st["evals"], "groups": len(per), "routines": len(per), "per": per,
                 "samples": samples, "violations": viol, "inconclusive": incon}, "runs", lambda v: f"python3 {core.VERIF}/run.py {chk.prop} --replay {v['key']}")
    return chk.finish()


def replay(key):
    top = tempfile.mkdtemp(prefix="ci", dir=core.GEN)
    try:
        kind, checks, what, why = one(Box(top, 0), key)
    finally:
        shutil.rmtree(top)
    print(f"{what}: {why or 'as it should be'}")
    return 1 if why else 0
