"""Workload and oracle for the macros and tables the conformance suite is built from: programs that record what
the macros hand them are generated, compiled and run; requests the macros must refuse are compiled one by one."""
import json
import os
import random
import re
import subprocess
import tempfile
import shutil
import threading
import time
import traceback

import core
import lttable
from core import BUILD, REPO, Inconclusive, sh

TY = {"h": "f16", "s": "f32", "d": "f64", "q": "f128", "i": "i32", "u": "u32", "l": "i64", "L": "u64", "x": "i128", "X": "u128", "z": "usize", "b": "bool"}
FLOAT = "hsdq"
# (C arguments, C result) where C hands results back through pointers
CINT = "&'a mut core::ffi::c_int"
KNOWN = ["CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet", "path"]


def base(name):
    """A routine's name without its type."""
    if name in ("erf", "modf", "lgamma_r"):
        return name
    if name in ("erff", "modff"):
        return name[:-1]
    if name == "lgammaf_r":
        return "lgamma_r"
    m = re.fullmatch(r"(.*?)((_?[fiu](16|32|64|128))+)", name)
    if m:
        return m.group(1)
    return name[:-1] if name.endswith("f") else name


def camel(s):
    """Upper camel case: letters after digits are not a new word."""
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def facts():
    """{routine: what must be handed out for it}"""
    out = {}
    for op, sig, name in lttable.rows:
        a, res = sig.split(">")
        builtin = not any(name == n for n in LISTED)
        args, ret = [TY[c] for c in a], [TY[c] for c in res]
        cargs, cret = list(args), list(ret)
        if op in ("modf", "sincos", "frexp", "lgamma_r", "remquo"):
            ref = "&'a mut "
            if op == "sincos":
                cargs, cret = args + [ref + args[0]] * 2, []
            elif op == "modf":
                cargs, cret = args + [ref + args[0]], ret[:1]
            else:
                cargs, cret = args + [CINT], ret[:1]
        first = next((c for c in a + res if c in FLOAT), None)
        out[name] = {"args": args, "ret": ret, "cargs": cargs, "cret": cret, "builtin": builtin, "group": TY[first].upper() if first else "Integer",
                     "path": ("crate::builtins_wrapper::" if builtin else "libm::") + name, "f16": "h" in a + res, "f128": "q" in a + res, "base": base(name)}
    return out


LISTED = []


def norm(s):
    return re.sub(r"\s+", "", s)


def canon(k, v):
    """Spellings of one type that mean the same."""
    v = norm(v)
    if k in ("CFn", "RustFn"):
        v = v.replace(",)", ")")
        if "->" not in v:
            v += "->()"
        v = re.sub(r"->\(([^(),]*)\)$", lambda m: "->" + (m.group(1) or "()"), v)
    elif k in ("CRet", "RustRet"):
        v = re.sub(r"^\(([^(),]+)\)$", r"\1", v)
    if k in KNOWN:
        v = re.sub(r"(?<!\w)::", "", v).replace("std::ffi", "core::ffi").replace("core::ffi::", "")
    return v


def tup(v):
    return f"({','.join(v)},)"


def par(v):
    return f"({','.join(v)})"


def want_types(f):
    return {"CFn": f"fn({','.join(f['cargs'])},)->{par(f['cret'])}", "CArgs": tup(f["cargs"]), "CRet": par(f["cret"]),
            "RustFn": f"fn({','.join(f['args'])},)->{par(f['ret'])}", "RustArgs": tup(f["args"]), "RustRet": par(f["ret"]), "path": f["path"]}


def build():
    """Arguments that make the macros and the table they are made from available to a program."""
    r = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml", "-p", "libm-macros", "-p", "api-list-common", "--target-dir", BUILD + "/t-mac",
            "--message-format=json"], cwd=REPO)
    if r.returncode:
        raise Inconclusive("the macro crate does not build:\n" + r.stderr[-3000:])
    out = {}
    for l in r.stdout.splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("libm_macros", "api_list_common"):
            fs = [f for f in m["filenames"] if f.endswith((".so", ".rlib", ".rmeta"))]
            if not all("/deps/" in f for f in fs):  # a second copy serves the macros themselves
                out[m["target"]["name"]] = fs
    return [a for n, fs in out.items() for f in fs for a in ("--extern", f"{n}={f}")] + ["-L", f"dependency={BUILD}/t-mac/debug/deps"]


# ------------------------------------------------------------------ one request
class Req:
    """One use of the macro: its source text and what each routine must receive."""

    def __init__(self, r, F, n):
        names = list(F)
        self.n = n
        self.fields = [f"callback: cb{n}"]
        self.types = []
        keep = set(names)
        k = r.random()
        if k < 0.6:
            self.types = r.sample(KNOWN, r.randrange(1, len(KNOWN) + 1))
            self.fields.append(f"emit_types: [{', '.join(self.types)}]" if len(self.types) > 1 or r.random() < 0.5 else f"emit_types: {self.types[0]}")
        elif k < 0.8:
            self.types = list(KNOWN)
            self.fields.append("emit_types: all")
        pick = r.random()
        few = r.sample(names, r.choice([1, 2, 5, 40]))
        if pick < 0.3:
            self.fields.append(f"skip: [{', '.join(few)}]")
            keep -= set(few)
        elif pick < 0.5:
            self.fields.append(f"only: [{', '.join(few)}]")
            keep &= set(few)
        if r.random() < 0.3:
            v = r.random() < 0.8
            self.fields.append(f"skip_f16_f128: {str(v).lower()}")
            if v:
                keep = {x for x in keep if not (F[x]["f16"] or F[x]["f128"])}
        if r.random() < 0.3:
            v = r.random() < 0.8
            self.fields.append(f"skip_builtins: {str(v).lower()}")
            if v:
                keep = {x for x in keep if not F[x]["builtin"]}
        attrs = {x: [] for x in names}
        if r.random() < 0.5:
            groups = []
            for g in range(r.randrange(1, 4)):
                metas = r.sample(["allow(dead_code)", "cfg(any())", "doc = \"x\"", "meta1", "meta2(3)"], r.randrange(1, 3))
                ns = r.sample(names, r.choice([1, 2, 10]))
                groups.append("".join(f"#[{m}] " for m in metas) + f"[{', '.join(ns)}]")
                for x in ns:
                    attrs[x] += metas
            self.fields.append(f"attributes: [{', '.join(groups)}]")
        for x in names:
            attrs[x] += ["cfg(f16_enabled)"] * F[x]["f16"] + ["cfg(f128_enabled)"] * F[x]["f128"]
        self.attrs = attrs
        self.extra = None
        if r.random() < 0.5:
            self.extra = r.choice(["[1, 2]", "MACRO_FN_NAME", "[MACRO_FN_NAME, MACRO_FN_NAME_NORMALIZED]", "foo(MACRO_FN_NAME_NORMALIZED, |x| x.MACRO_FN_NAME())", "a::MACRO_FN_NAME",
                                   "MACRO_FN_NAME_NORMALIZED + other_MACRO_FN_NAME"])
            self.fields.append(f"extra: {self.extra}")
        self.fn_extra = None
        if r.random() < 0.6:
            self.fn_extra = {}
            arms = []
            free = list(names)
            for g in r.sample(["F16", "F32", "F64", "F128", "Integer"], r.choice([0, 0, 1, 2, 5])):
                e = f"all_{g.lower()}(MACRO_FN_NAME)"
                arms.append(f"ALL_{'INT' if g == 'Integer' else g} => {e}")
                for x in names:
                    if F[x]["group"] == g:
                        self.fn_extra[x] = e
            free = [x for x in names if x not in self.fn_extra]
            if len(free) == len(names) and r.random() < 0.3:
                arms.append("ALL_BUILTINS => builtin")
                for x in names:
                    if F[x]["builtin"]:
                        self.fn_extra[x] = "builtin"
                free = [x for x in names if x not in self.fn_extra]
            for g in range(r.randrange(0, 4)):
                ns = r.sample(free, min(len(free), r.choice([1, 2, 6])))
                if not ns:
                    break
                free = [x for x in free if x not in ns]
                e = r.choice([f"arm{g}", f"|x| x + {g}", f"arm{g}(MACRO_FN_NAME, MACRO_FN_NAME_NORMALIZED)"])
                arms.append(f"{' | '.join(ns)} => {e}")
                for x in ns:
                    self.fn_extra[x] = e
            r.shuffle(arms)
            if any(x not in self.fn_extra for x in keep) or r.random() < 0.3:
                arms.append("_ => MACRO_FN_NAME_NORMALIZED.default")
                for x in names:
                    self.fn_extra.setdefault(x, "MACRO_FN_NAME_NORMALIZED.default")
            if not arms:
                arms.append("_ => nothing")
                self.fn_extra = {x: "nothing" for x in names}
            self.fields.append("fn_extra: match MACRO_FN_NAME { " + ", ".join(arms) + " }")
        head, rest = self.fields[0], self.fields[1:]
        r.shuffle(rest)
        rest.insert(r.randrange(len(rest) + 1), head)
        self.call = "libm_macros::for_each_function! { " + ", ".join(rest) + r.choice(["", ","]) + " }"
        self.keep = keep

    def source(self):
        pat, put = "fn_name: $n:ident, ", f'rec({self.n}, "fn_name", stringify!($n)); '
        for t in self.types:
            pat += f"{t}: ${t}:{'path' if t == 'path' else 'ty'}, "
            put += f'rec({self.n}, "{t}", stringify!(${t})); '
        pat += "attrs: [$($attr:meta),*], "
        put += f'rec({self.n}, "attrs", concat!("", $(stringify!($attr), ";"),*)); '
        if self.extra:
            pat += "extra: $extra:expr, "
            put += f'rec({self.n}, "extra", stringify!($extra)); '
        if self.fn_extra is not None:
            pat += "fn_extra: $fe:expr, "
            put += f'rec({self.n}, "fn_extra", stringify!($fe)); '
        return f"macro_rules! cb{self.n} {{ ({pat}) => {{ {put} }}; }}\nfn run{self.n}() {{ {self.call} }}\n"

    def fill(self, e, name, F):
        e = re.sub(r"\bMACRO_FN_NAME_NORMALIZED\b", F[name]["base"], e)
        return norm(re.sub(r"\bMACRO_FN_NAME\b", name, e))

    def expected(self, F):
        out = []
        for x in sorted(self.keep):
            w = want_types(F[x])
            d = [["fn_name", x]] + [[t, canon(t, w[t])] for t in self.types] + [["attrs", norm("".join(a + ";" for a in self.attrs[x]))]]
            if self.extra:
                d.append(["extra", self.fill(self.extra, x, F)])
            if self.fn_extra is not None:
                d.append(["fn_extra", self.fill(self.fn_extra[x], x, F)])
            out.append(d)
        return out


PRELUDE = r"""
#![allow(unused)]
use std::io::Write;
fn rec(n: u32, k: &str, v: &str) { println!("{n}\t{k}\t{}", v.replace('\n', " ")); }
#[libm_macros::function_enum(BaseName)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Identifier {}
#[libm_macros::base_name_enum]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BaseName {}
fn enums() {
    for id in Identifier::ALL {
        println!("enum\t{:?}\t{}\t{:?}\t{}\t{:?}", id, id.as_str(), id.base_name(), id.base_name().as_str(), Identifier::from_str(id.as_str()));
    }
    for s in ["", "sinn", "Sin", "si", "sin ", "_", "SINF", "f", "acosf64", "addf", "add", "extend"] {
        if let Some(id) = Identifier::from_str(s) { println!("noenum\t{s}\t{id:?}"); }
    }
}
"""

TABLE = r"""
fn main() {
    for op in api_list_common::ALL_OPERATIONS.iter() {
        println!("op\t{}\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}\t{}\t{}", op.name, op.group, op.rust_sig.args, op.rust_sig.returns, op.c_sig.args, op.c_sig.returns, op.path,
            op.rust_sig.args.iter().map(|t| t.effective_bits().to_string()).collect::<Vec<_>>().join(","));
    }
}
"""


def ty_debug(t):
    """The name of a type in the table."""
    mut = t.startswith("&'a mut ")
    t = t.removeprefix("&'a mut ")
    n = {"core::ffi::c_int": "CInt", "bool": "Bool", "usize": "USize"}.get(t, t.upper())
    return ("Mut" if mut else "") + n


def bits(t):
    return {"bool": "1", "usize": "64"}.get(t, re.sub(r"\D", "", t))


def judge(F, reqs, out):
    """[(kind, what, why)] for everything one program recorded."""
    got = {q.n: [] for q in reqs}
    enums, res = [], []
    for l in out.splitlines():
        p = l.split("\t")
        if p[0] == "enum":
            enums.append(p[1:])
        elif p[0] == "noenum":
            res.append((("enum", "unknown"), f"from_str({p[1]!r})", f"gives {p[2]}"))
        else:
            n, k, v = int(p[0]), p[1], p[2]
            if k == "fn_name":
                got[n].append([])
            got[n][-1].append([k, v if k == "fn_name" else canon(k, v)])
    for q in reqs:
        w = q.expected(F)
        why = None
        g = got[q.n]
        gn, wn = [d[0][1] for d in g], [d[0][1] for d in w]
        if sorted(gn) != wn:
            twice = sorted({x for x in gn if gn.count(x) > 1})
            why = f"missing {sorted(set(wn) - set(gn))[:6]}, not asked for {sorted(set(gn) - set(wn))[:6]}, repeated {twice[:6]}"
        else:
            for a, b in zip(sorted(g), w):
                if sorted(a) != sorted(b):
                    x = next((x, y) for x, y in zip(sorted(a), sorted(b)) if x != y)
                    why = f"{a[0][1]} received {x[0]}, it should be {x[1]}"
                    break
        res.append((("request", tuple(sorted(f.split(":")[0] for f in q.fields)), len(q.keep) // 40), q.call, why))
    byname = {e[1]: e for e in enums}
    if len(enums) != len(F) or set(byname) != set(F):
        res.append((("enum", "all"), "the enumeration of routines", f"has {len(enums)} entries, missing {sorted(set(F) - set(byname))[:5]}, unknown {sorted(set(byname) - set(F))[:5]}"))
    for x, e in byname.items():
        if x in F:
            want = [e[0], x, e[2], F[x]["base"], f"Some({e[0]})"]
            why = None if e == want else f"is {e}, should be {want}"
            if not why and norm(e[0]).lower() != x.replace("_", ""):
                why = f"is called {e[0]}"
            if not why and e[2].lower() != F[x]["base"].replace("_", ""):
                why = f"has base name {e[2]}"
            res.append((("enum", x), f"entry for {x}", why))
    return res


def judge_table(F, ops):
    res = []
    if sorted(o[0] for o in ops) != sorted(F):
        res.append((("table", "all"), "the table of routines", f"lists {len(ops)} routines, there are {len(F)}"))
    for o in ops:
        if o[0] not in F:
            continue
        f = F[o[0]]
        lst = lambda v: "[" + ", ".join(ty_debug(t) for t in v) + "]"
        want = [o[0], f["group"], lst(f["args"]), lst(f["ret"]), lst(f["cargs"]), lst(f["cret"]), f["path"], ",".join(bits(t) for t in f["args"])]
        res.append((("table", o[0]), f"table entry for {o[0]}", None if o == want else f"is {o}, should be {want}"))
    return res


# ------------------------------------------------------------------ requests that must be refused
def refused(r, F):
    """(reason, source)"""
    names = list(F)
    n = r.choice(names)
    cb = "macro_rules! cb { ($($t:tt)*) => {}; }\n"
    call = lambda s: cb + f"fn main() {{ libm_macros::for_each_function! {{ {s} }} }}\n"
    wrong = r.choice([n + "_", "no_such", n.upper(), "sinf64"])
    if wrong in F:
        wrong = "no_such"
    return r.choice([
        ("unknown routine in skip", call(f"callback: cb, skip: [{n}, {wrong}]")),
        ("unknown routine in only", call(f"callback: cb, only: [{wrong}]")),
        ("unknown routine in attributes", call(f"callback: cb, attributes: [#[meta] [{n}, {wrong}]]")),
        ("unknown routine in fn_extra", call(f"callback: cb, fn_extra: match MACRO_FN_NAME {{ {wrong} => 1, _ => 2 }}")),
        ("skip and only", call(f"callback: cb, skip: [{n}], only: [{names[0]}]")),
        ("unknown field", call("callback: cb, skipp: [sin]")),
        ("repeated field", call(f"callback: cb, skip: [{n}], skip: [{names[0]}]")),
        ("repeated field", call("callback: cb, callback: cb")),
        ("flag is no flag", call(f"callback: cb, {r.choice(['skip_f16_f128', 'skip_builtins'])}: {r.choice(['1', 'yes', '[true]'])}")),
        ("no callback", call(f"skip: [{n}]")),
        ("unknown type", call("callback: cb, emit_types: [CFn, RustFunc]")),
        ("all and more", call("callback: cb, emit_types: [all, CFn]")),
        ("uncovered routine", call(f"callback: cb, fn_extra: match MACRO_FN_NAME {{ {n} => 1 }}")),
        ("uncovered routine", call("callback: cb, fn_extra: match MACRO_FN_NAME { ALL_F32 => 1, ALL_F64 => 2, ALL_F16 => 3, ALL_F128 => 4 }")),
        ("routine named twice", call(f"callback: cb, fn_extra: match MACRO_FN_NAME {{ {n} => 1, {n} => 3, _ => 2 }}")),
        ("match on something else", call("callback: cb, fn_extra: match NAME { _ => 2 }")),
        ("unknown placeholder", call("callback: cb, extra: [MACRO_FN]")),
        ("unknown placeholder", call("callback: cb, fn_extra: match MACRO_FN_NAME { _ => MACRO_NAME }")),
        ("enumeration not empty", "#[libm_macros::base_name_enum]\nenum B { X }\nfn main() {}\n"),
        ("enumeration not empty", "#[libm_macros::base_name_enum]\nenum B {}\n#[libm_macros::function_enum(B)]\nenum I { X }\nfn main() {}\n"),
        ("no base enumeration", "#[libm_macros::function_enum]\nenum I {}\nfn main() {}\n"),
        ("stray attribute", "#[libm_macros::base_name_enum(X)]\nenum B {}\nfn main() {}\n"),
        ("stray attribute", "#[libm_macros::base_name_enum]\nenum B {}\n#[libm_macros::function_enum(B, C)]\nenum I {}\nfn main() {}\n"),
    ])


def rustc(dir_, name, src, ext):
    path = f"{dir_}/{name}.rs"
    with open(path, "w") as f:
        f.write(src)
    p = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "panic=abort", "-A", "warnings", "--error-format=short", "-o", f"{dir_}/{name}", path] + ext,
                       env=core.env(), cwd=dir_, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    return p.returncode, p.stderr


def one(top, key, F, ext):
    r = random.Random(key)
    d = tempfile.mkdtemp(prefix="mac", dir=top)
    try:
        reqs = [Req(r, F, n) for n in range(8)]
        src = PRELUDE + "".join(q.source() for q in reqs) + "fn main() { enums(); " + "".join(f"run{q.n}(); " for q in reqs) + "}\n"
        rc, err = rustc(d, "main", src, ext)
        if rc:
            yield ("request", "refused"), " ".join(q.call for q in reqs)[:600], f"is refused: {err[-400:]}"
        else:
            p = subprocess.run([d + "/main"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            if p.returncode:
                yield ("request", "run"), "the recording program", f"ended with {p.returncode}: {p.stderr[-300:]}"
            else:
                yield from judge(F, reqs, p.stdout)
        if key.endswith("-0-0"):
            rc, err = rustc(d, "table", TABLE, ext)
            if rc:
                yield ("note", "table"), f"the table of routines is not laid out as expected: {err[-200:]}", None
            else:
                p = subprocess.run([d + "/table"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
                yield from judge_table(F, [l.split("\t")[1:] for l in p.stdout.splitlines()])
        for k in range(4):
            reason, src = refused(r, F)
            rc, err = rustc(d, f"bad{k}", src, ext)
            yield ("refusal", reason), src, None if rc else "is accepted"
            if rc and not re.search(r"error", err):
                raise Inconclusive(f"the compiler ended with {rc} without an error: {err[-300:]}")
    finally:
        shutil.rmtree(d)


def known():
    global LISTED
    LISTED = [l.strip() for l in open(REPO + "/etc/function-list.txt") if l.strip() and not l.startswith("#")]
    return facts()


def run(chk, secs):
    ext = build()
    F = known()
    top = tempfile.mkdtemp(prefix="mac", dir=core.GEN)
    lock = threading.Lock()
    end = time.time() + secs
    st = {"evals": 0}
    per, kinds, viol, samples, incon = {}, set(), [], [], []

    def worker(i):
        try:
            n = 0
            while time.time() < end or n < 2:
                key = f"{chk.seed}-{i}-{n}"
                n += 1
                for kind, what, why in one(top, key, F, ext):
                    with lock:
                        if kind[0] == "note":
                            chk.notes.append(what)
                            continue
                        st["evals"] += 1
                        per[kind[0]] = per.get(kind[0], 0) + 1
                        kinds.add(kind)
                        if len(samples) < 40 and kind[0] in ("request", "refusal") and st["evals"] % 7 == 1:
                            samples.append(f"{kind[0]}: {what[-300:]}")
                        if why:
                            viol.append({"sig": f"mac {kind[0]} {why[:60]}", "text": f"{what[-500:]}: {why}", "key": key})
                if len(viol) > 100:
                    return
        except subprocess.TimeoutExpired as x:
            incon.append(f"no answer in time: {x.cmd[0]}")
        except Inconclusive as x:
            incon.append(str(x))
        except Exception:
            incon.append(traceback.format_exc()[-600:])
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(top)
    for k in ("request", "refusal", "enum"):
        per.setdefault(k, 0)
    chk.rule = "uses of the macros, each compiled, run and its record judged, and entries of the generated tables; distinct = distinct (fields used, size), refusal reasons and table entries"
    chk.assumptions = ["the compiler prints a token sequence the same way up to white space"]
    chk.add_mon({"evals": st["evals"], "checks": st["evals"], "distinct": len(kinds), "nontrivial": st["evals"], "groups": len(per), "routines": len(F), "per": per,
                 "samples": samples, "violations": viol, "inconclusive": incon}, "runs", lambda v: f"python3 {core.VERIF}/run.py {chk.prop} --replay {v['key']}")
    return chk.finish()


def replay(key):
    ext = build()
    F = known()
    top = tempfile.mkdtemp(prefix="mac", dir=core.GEN)
    bad = 0
    try:
        for kind, what, why in one(top, key, F, ext):
            if why or kind[0] in ("request", "refusal"):
                print(f"{kind[0]}: {what}: {why or 'as it should be'}")
            bad |= bool(why)
    finally:
        shutil.rmtree(top)
    return int(bad)
