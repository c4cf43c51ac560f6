"""Workload and oracle for the tool that lists the public routines and the files defining them: library trees
whose contents are known are written to a scratch directory, the tool runs on them, its lists and its verdicts
on stale lists are compared with what was written."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import core
from core import REPO

STEMS = ["acos", "asinh", "atan2", "cbrt", "ceil", "cos", "cosh", "erfc", "exp", "exp2", "exp10", "expm1", "fabs", "fdim", "fma", "fmax", "fmin", "fmaximum_num", "fmod", "hypot",
         "ilogb", "j0", "j1", "jn", "ldexp", "lgamma", "log", "log1p", "log2", "log10", "nextafter", "pow", "remquo", "rint", "roundeven", "sin", "sincos", "sqrt", "tan", "trunc", "y1"]
TYPES = {"f16": "f16", "f": "f32", "": "f64", "f128": "f128"}
ODD = {"erf": "erff", "modf": "modff", "lgamma_r": "lgammaf_r"}
LISTS = ["etc/function-list.txt", "etc/function-definitions.json"]


def fn(name, ty, vis="pub "):
    return f"{vis}fn {name}(x: {ty}) -> {ty} {{\n    x\n}}\n\n"


def tree(r):
    """(files, {routine: (sources, type)})"""
    files, uses, mods, truth = {}, [], [], {}
    math = "libm/src/math/"
    generic, helper, extra_mods = [], [], []
    stems = r.sample(STEMS, r.randrange(2, 14))
    groups = [(s, {s + x: t for x, t in TYPES.items() if x == "" or r.random() < 0.6}) for s in stems]
    for o in r.sample(list(ODD), r.randrange(0, 3)):
        if o == "lgamma_r" and any(s == "lgamma" for s in stems):
            continue
        groups.append((o, {o: "f64", ODD[o]: "f32"}))
    r.shuffle(groups)

    def add(path, text):
        files[path] = files.get(path, "") + text

    shared = None
    for stem, names in groups:
        src = {n: set() for n in names}
        own = r.random() < 0.4
        where = shared if shared and r.random() < 0.2 else stem
        shared = where
        for n, t in names.items():
            mod = n if own and n != where else where
            path = f"{math}{mod}.rs"
            if mod not in mods:
                mods.append(mod)
            cfg = f"#[cfg({t}_enabled)]\n" if t in ("f16", "f128") else ""
            add(path, cfg + fn(n, t))
            src[n].add(path)
            uses.append((mod, n, t))
            if r.random() < 0.15:  # a variant that also returns flags, somewhere else
                k = r.choice(["_round", "_status"])
                side = f"{stem}_side"
                if side not in mods:
                    mods.append(side)
                add(f"{math}{side}.rs", cfg + fn(n + k, t))
                src[n].add(f"{math}{side}.rs")
            if r.random() < 0.1:  # a helper whose name only resembles it
                add(f"{math}{mod}.rs", fn(r.choice([f"k_{n}", f"{n}_inner", f"x{n}"]), "f64", ""))
            helper.append((n, t))
        if r.random() < 0.4:
            # in a file of its own, in one shared with other routines, or in several
            for k in r.choice([[""], [""], ["_round"], ["", "_round"], ["_round", "_status"]]):
                where = r.choice([stem, stem, "several", stem + "_wide"])
                add(f"{math}generic/{where}.rs", f"pub fn {stem}{k}<F: Copy>(x: F) -> F {{\n    x\n}}\n")
                if where not in generic:
                    generic.append(where)
                for n in names:
                    src[n].add(f"{math}generic/{where}.rs")
        for n in names:
            truth[n] = [src[n], names[n]]
    # architecture files, never part of the build
    for stem, names in r.sample(groups, min(len(groups), r.randrange(0, 4))):
        path = f"{math}arch/{r.choice(['x86', 'wasm32', 'aarch64', 'x86/deep'])}/{r.choice(['rounding', stem])}.rs"
        for n in r.sample(list(names), r.randrange(1, len(names) + 1)):
            add(path, fn(n + r.choice(["", "", "", "_round", "_status"]), names[n], r.choice(["pub ", "pub(crate) ", "pub unsafe "])))
            truth[n][0].add(path)
        if r.random() < 0.3:
            add(path, "fn unrelated() {}\n")
    # things that look like routines and are not
    private = [s for s in STEMS if s not in stems and s not in truth][:r.randrange(0, 4)]
    for s in private:
        mods.append("k_" + s)
        add(f"{math}k_{s}.rs", fn(s + "_kernel", "f64", "pub(crate) "))
    lines = []
    for mod, n, t in uses:
        if t in ("f16", "f128"):
            continue
        lines.append((mod, n))
    text = "#[macro_use]\nmod support;\nmod generic;\n" if r.random() < 0.5 else "mod support;\nmod generic;\n"
    text += "".join(f"mod {m};\n" for m in sorted(set(mods)))
    by = {}
    for mod, n in lines:
        by.setdefault(mod, []).append(n)
    for mod, ns in by.items():
        if r.random() < 0.5 and len(ns) > 1:
            text += f"pub use self::{mod}::{{{', '.join(ns)}}};\n"
        else:
            text += "".join(f"pub use self::{mod}::{n};\n" for n in ns)
    for mod, n, t in uses:
        if t in ("f16", "f128"):
            text += f"#[cfg({t}_enabled)]\npub use self::{mod}::{n};\n"
    for s in private:
        text += f"#[allow(unused)]\n{r.choice(['pub(crate) use', 'use'])} self::k_{s}::{s}_kernel;\n"
    text += "pub use self::support::{Kind, LIMIT, Shape};\n#[allow(unused)]\npub use core::f64::consts::PI;\n"
    files[math + "mod.rs"] = text
    files[math + "support/mod.rs"] = "mod float_traits;\npub use float_traits::Shape;\npub struct Kind;\npub const LIMIT: u32 = 3;\npub fn helper() {}\n"
    files[math + "support/float_traits.rs"] = "pub trait Shape {\n" + "".join(f"    fn {n}(x: {t}) -> {t};\n" for n, t in r.sample(helper, min(3, len(helper)))) + "}\n"
    files[math + "generic/mod.rs"] = "#![allow(unused)]\n" + "".join(f"mod {s};\npub use {s}::*;\n" for s in generic)
    files["libm/src/libm_helper.rs"] = "pub struct Libm<T>(core::marker::PhantomData<T>);\nimpl Libm<f64> {\n" + "".join(f"    pub fn {n}(self, x: {t}) -> {t} {{ x }}\n" for n, t in helper) + "}\n"
    files["libm/src/lib.rs"] = ("#![no_std]\n#![allow(dead_code, unused)]\n#![feature(f16)]\n#![feature(f128)]\nmod libm_helper;\nmod math;\npub use libm_helper::*;\npub use self::math::*;\n")
    return files, truth


def expected(truth):
    lst = "# autogenerated by update-api-list.py\n" + "".join(n + "\n" for n in sorted(truth))
    return lst, {n: {"sources": sorted(s), "type": t} for n, (s, t) in sorted(truth.items())}


def spoil(r, lst, defs):
    """The two lists with one thing no longer true."""
    j = json.loads(defs)
    names = [k for k in j if k != "__comment"]
    n = r.choice(names)
    k = r.choice(["list drop", "list add", "list swap", "list newline", "list twice", "source drop", "source add", "type", "entry drop", "entry add", "source swap"])
    ls = lst.splitlines()
    if k == "list drop":
        ls.remove(n)
    elif k == "list add":
        ls.append("zeta")
    elif k == "list swap" and len(ls) > 2:
        i = r.randrange(1, len(ls) - 1)
        ls[i], ls[i + 1] = ls[i + 1], ls[i]
    elif k == "list twice":
        ls.insert(ls.index(n), n)
    elif k == "source drop":
        j[n]["sources"] = j[n]["sources"][:-1]
    elif k == "source add":
        j[n]["sources"] = sorted(j[n]["sources"] + ["libm/src/math/zeta.rs"])
    elif k == "type":
        j[n]["type"] = r.choice([t for t in TYPES.values() if t != j[n]["type"]])
    elif k == "entry drop":
        del j[n]
    elif k == "source swap":
        m = r.choice(names)
        j[n]["sources"], j[m]["sources"] = j[m]["sources"], j[n]["sources"]
    elif k == "entry add":
        j["zeta"] = {"sources": ["libm/src/math/zeta.rs"], "type": "f64"}
    else:
        k = "list newline"
    lst2 = "\n".join(ls) + ("" if k == "list newline" else "\n")
    defs2 = defs if k.startswith("list") else json.dumps(j, indent=4) + "\n"
    return k, lst2, defs2


def write(top, files):
    for p, t in files.items():
        os.makedirs(os.path.dirname(f"{top}/{p}"), exist_ok=True)
        with open(f"{top}/{p}", "w") as f:
            f.write(t)


def read(top):
    return [open(f"{top}/{p}").read() if os.path.exists(f"{top}/{p}") else None for p in LISTS]


class Trouble(Exception):
    pass


def tool(top, args):
    p = subprocess.run([sys.executable, top + "/etc/update-api-list.py"] + args, cwd=top, env=core.env(PYTHONDONTWRITEBYTECODE="1"), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode and "rustdoc" in p.stderr and "CalledProcessError" in p.stderr:
        raise Trouble("the documentation tool failed: " + p.stderr[-800:])
    return p.returncode, p.stdout, p.stderr


def one(top, key):
    """Yields (kind, what, why) for one tree."""
    r = random.Random(key)
    real = r.random() < 0.1
    d = tempfile.mkdtemp(prefix="tree", dir=top)
    try:
        os.makedirs(d + "/etc")
        shutil.copy(REPO + "/etc/update-api-list.py", d + "/etc/update-api-list.py")
        if real:
            shutil.copytree(REPO + "/libm/src", d + "/libm/src")
            for p in LISTS:
                shutil.copy(f"{REPO}/{p}", f"{d}/{p}")
            lst, defs = read(d)
            rc, out, err = tool(d, ["--check"])
            yield ("real", "up to date"), "the library's own lists", None if rc == 0 else f"refused with {rc}: {out[-300:]}"
            name = "the library itself"
        else:
            files, truth = tree(r)
            write(d, files)
            for p in LISTS:
                if r.random() < 0.5:
                    write(d, {p: "stale\n"})
            rc, out, err = tool(d, [])
            name = f"a library of {sorted(truth)}"
            if rc:
                yield ("made up", "written"), name, f"ended with {rc}: {err.strip()[-300:]}"
                return
            lst, defs = read(d)
            wl, wd = expected(truth)
            why = None
            try:
                got = json.loads(defs or "")
                got.pop("__comment", None)
            except ValueError as x:
                got, why = {}, f"the definitions cannot be read: {x}"
            if not why and lst != wl:
                a, b = (lst or "").splitlines(), wl.splitlines()
                why = f"the list has {sorted(set(a) - set(b))} too many, lacks {sorted(set(b) - set(a))}" if set(a) != set(b) else "the list is not in order"
            if not why and got != wd:
                bad = next(n for n in list(wd) + list(got) if got.get(n) != wd.get(n))
                why = f"{bad} is listed as {got.get(bad)}, it is {wd.get(bad)}"
            yield ("made up", "written", len(truth) // 8, tuple(sorted({t for _, t in truth.values()}))), name, why
            if why:
                return
            rc, out, err = tool(d, ["--check"])
            yield ("made up", "up to date"), name, None if rc == 0 and read(d) == [lst, defs] else f"its own output is refused with {rc}: {out[-300:]}"
        for _ in range(3):
            k, l2, d2 = spoil(r, lst, defs)
            write(d, {LISTS[0]: l2, LISTS[1]: d2})
            if [l2, d2] == [lst, defs]:
                continue
            rc, out, err = tool(d, ["--check"])
            kept = read(d) == [l2, d2]
            yield (real, "stale", k), f"{name}, lists spoilt ({k})", ("accepted" if rc == 0 else None) if kept else "checking changed the lists"
        if r.random() < 0.3:
            a = r.choice([["--chek"], ["-c"], ["--check", "x"], ["x"], ["--check", "--check"]])
            rc, out, err = tool(d, a)
            yield (real, "arguments", tuple(a)), f"arguments {a}", None if rc and read(d) == [l2, d2] else f"ended with {rc}, lists {'kept' if read(d) == [l2, d2] else 'changed'}"
        rc, out, err = tool(d, [])
        yield (real, "written over stale lists", k), name, None if rc == 0 and read(d) == [lst, defs] else f"stale lists are not brought up to date, ended with {rc}"
    finally:
        shutil.rmtree(d)


def run(chk, secs):
    top = tempfile.mkdtemp(prefix="api", dir=core.GEN)
    lock = threading.Lock()
    end = time.time() + secs
    st = {"evals": 0}
    per, kinds, viol, samples, incon = {}, set(), [], [], []

    def worker(i):
        try:
            n = 0
            while time.time() < end or n < 3:
                key = f"{chk.seed}-{i}-{n}"
                n += 1
                for kind, what, why in one(top, key):
                    with lock:
                        st["evals"] += 1
                        per[str(kind[1])] = per.get(str(kind[1]), 0) + 1
                        kinds.add(kind + (what,) if kind[1] == "written" else kind)
                        if len(samples) < 40 and st["evals"] % 17 == 1:
                            samples.append(f"{kind[1]}: {what[:200]}")
                        if why:
                            viol.append({"sig": f"api {kind[1]} {why[:60]}", "text": f"{what[:300]}: {why}", "key": key})
                if len(viol) > 100:
                    return
        except subprocess.TimeoutExpired as x:
            incon.append(f"no answer within 300 s: {x.cmd}")
        except Trouble as x:
            incon.append(str(x))
        except Exception:
            incon.append(traceback.format_exc()[-600:])
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(top)
    for k in ("written", "up to date", "stale"):
        per.setdefault(k, 0)
    chk.rule = "tool runs on library trees of known content; distinct = distinct trees listed, and distinct kinds of stale list or argument"
    chk.assumptions = ["rustdoc describes the tree it is given faithfully"]
    chk.add_mon({"evals": st["evals"], "checks": st["evals"], "distinct": len(kinds), "nontrivial": st["evals"], "groups": len(per), "routines": len(per), "per": per,
                 "samples": samples, "violations": viol, "inconclusive": incon}, "runs", lambda v: f"python3 {core.VERIF}/run.py {chk.prop} --replay {v['key']}")
    return chk.finish()


def replay(key):
    top = tempfile.mkdtemp(prefix="api", dir=core.GEN)
    bad = 0
    try:
        for kind, what, why in one(top, key):
            print(f"{kind[1]}: {what}: {why or 'as it should be'}")
            bad |= bool(why)
    finally:
        shutil.rmtree(top)
    return int(bad)
