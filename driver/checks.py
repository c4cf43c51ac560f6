"""One function per property; `main` dispatches."""
import hashlib
import json
import os
import shlex
import sys
import traceback
from concurrent.futures import ThreadPoolExecutor

import core
import symmon
import table
import utilmon
import cimon
import apimon
import macmon
import btmon
import shmon
import wiring
from core import Builder, Check, Inconclusive, build_ar_thunks, build_archive, build_mon, mon

ALLCFG = ["rel-gen", "rel-arch", "rel-int", "chk-gen", "chk-arch"]


def prepare(chk, cfgs, ar=True):
    """Build the monitor, the thunk libraries and the archive from the current tree."""
    b = Builder()
    with ThreadPoolExecutor(3) as ex:
        fm = ex.submit(build_mon)
        fa = ex.submit(build_archive) if ar else None
        fs = ex.submit(b.build, cfgs)
        fm.result()
        suts = list(fs.result().items())
        if fa:
            so, missing, err = build_ar_thunks(fa.result())
            if err:
                chk.notes.append("the archive does not link on its own (decided by C23)")
            else:
                suts.append(("ar", so))
    chk.notes += b.log
    return suts


def native_ok():
    try:
        fl = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return all(f" {w} " in fl.replace("\n", " ") for w in ("fma", "avx2", "bmi1", "erms", "sse4_2", "popcnt"))


RULE = ("argument tuples: edge-value grids, operands mined from the sources, and directed random families (ties, cancellation, "
        "limits of range, multi-limb carries); non-trivial = no NaN operand; distinct = distinct (routine, operand shape, result "
        "shape) where shape is sign, exponent, top and trailing significand bits, or integer length/population, hashed to 2^26 bins")

# property -> (operations, signatures or ())
S1 = ("s>s", "d>d")
REF = {
    "C01": "idiv irem idivrem",
    "C02": "iadd isub iaddo isubo imul imulo",
    "C03": "ishl ishr clz ctz bswap",
    "C04": "add sub mul div",
    "C05": "cmp_*",
    "C06": "extend narrow",
    "C07": "itof ftoi",
    "C08": "powi",
    "C11": "ceil floor rint round roundeven trunc ceil_st floor_st rint_st trunc_st",
    "C12": "sqrt fma fma_wide cbrt cbrt_rx hypot hypot_rx fdim",
    "C13": "fmod remainder remquo",
    "C14": "scalbn ldexp frexp modf ilogb nextafter fabs copysign",
    "C15": "fmin fmax fminimum fmaximum fminimum_num fmaximum_num",
    "C16": "exp exp2 exp10 expm1 log log2 log10 log1p pow",
    "C17": "sin cos tan sincos asin acos atan atan2",
    "C18": "sinh cosh tanh asinh acosh atanh erf erfc tgamma lgamma lgamma_r hypot j0 j1 jn y0 y1 yn",
    "C24": "w_*",
}
# single-argument f32 operations swept over all 2^32 patterns in the thorough tier
SWEEP = {"C06": "s>*", "C11": "s>s", "C12": "s>s", "C16": "s>s", "C17": "s>s", "C18": "s>s", "C07": "s>*"}
ACC = "reference values come from glibc's quad-precision functions (accurate far beyond double), and from exact integer arithmetic where the operation is exactly specified"


def ref_check(chk):
    ops = REF[chk.prop].split()
    suts = prepare(chk, ALLCFG)
    quick = chk.tier == "quick"
    secs = 30 if quick else 420
    chk.rule = RULE
    chk.assumptions = [ACC]
    sel = suts
    mon(chk, "workload", sel, secs, "ref", ops=ops)
    if not quick and chk.prop in SWEEP:
        sig = [r[2] for r in table.rows if r[1] in ops and r[2].startswith("s>")]
        sig = sorted(set(sig))
        if sig:
            mon(chk, "sweep-f32", [s for s in suts if s[0] in ("rel-arch", "rel-gen")][:1], 360, "ref", ops=ops, sigs=sig, sweep=True)
    return chk.finish()


# on the x87 unit double rounding is inherent to everything that computes in the native formats; what is
# done on the bits, by the unit's own rounding and exponential instructions, or in software is exact there too
X87 = " ".join(REF[p] for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C13", "C14", "C15", "C24")).split() + (
    "ceil floor rint round roundeven trunc sqrt exp exp2 exp10 m_*".split())


def foreign_check(chk):
    b = core.Foreign()
    with ThreadPoolExecutor(2) as ex:
        fm = ex.submit(build_mon)
        suts = b.build(["wasm32"] if chk.prop == "C38" else ["i686", "i686-chk", "i586", "i586-chk"])
        fm.result()
    chk.notes += b.log
    quick = chk.tier == "quick"
    chk.rule = RULE + "; every call is made inside a program of the other target and judged by the monitor outside it"
    chk.assumptions = [ACC, "the processor state after each call is compared with that of a fresh process (32-bit x86)"]
    for c, so in suts.items():
        secs = (24 if quick else 360) if c == "wasm32" else (14 if quick else 150) if "-chk" not in c else (8 if quick else 50)
        j = mon(chk, c, [(c, so)], secs, "ref", ops=X87 if c.startswith("i586") else (), workers=8 if c == "wasm32" else 4,
                extra=["--anynan", "0" if c == "wasm32" else "1", "--enum", "0" if quick else "1"])
        if j["evals"] < 100000:
            raise Inconclusive(f"{c}: only {j['evals']} calls were answered")
    return chk.finish()


def special_check(chk):
    ops = sorted(set((REF["C16"] + " " + REF["C17"] + " " + REF["C18"]).split()) | {"cbrt", "sqrt", "tgamma", "hypot_rx", "cbrt_rx"})
    suts = prepare(chk, ["rel-gen", "rel-arch", "chk-arch"])
    chk.rule = RULE
    chk.assumptions = ["special values are those of C Annex F as tabulated in the monitor"]
    mon(chk, "workload", suts, 30 if chk.tier == "quick" else 400, "special", ops=ops)
    return chk.finish()


def total_check(chk):
    suts = prepare(chk, ["chk-gen", "chk-arch", "rel-arch"])
    chk.rule = RULE + "; every call runs in a forked worker whose death or lack of progress is attributed to the call in flight"
    chk.assumptions = ["a call using more than 30 s of CPU time counts as not returning"]
    mon(chk, "workload", suts, 45 if chk.tier == "quick" else 500, "total")
    return chk.finish()


def agree_check(chk):
    cfgs = ALLCFG + (["rel-native"] if native_ok() else [])
    suts = prepare(chk, cfgs)
    chk.rule = RULE + "; every tuple goes through every configuration and route offering the operation, results compared bit for bit"
    chk.assumptions = ["NaN payloads are not compared; fmin/fmax may return either zero for zeros of opposite sign"]
    mon(chk, "workload", suts, 45 if chk.tier == "quick" else 500, "agree")
    return chk.finish()


def mem_check(chk):
    suts = prepare(chk, ["rel-gen", "rel-arch", "rel-erms", "chk-gen", "chk-arch"])
    suts += list(core.build_memx(chk.notes).items())
    quick = chk.tier == "quick"
    mode = {"C09": "contents", "C10": "containment"}[chk.prop]
    chk.rule = ("calls; distinct = distinct (variant, routine, length bucket, alignment of both pointers mod 32, clamped distance, position of the "
                "difference, placement), at most 4e6 kept per routine and variant")
    secs = 30 if quick else 400
    submon(chk, "mem", mode, suts, secs, ["--mode", mode, "--huge35", "rel-arch" if quick else "rel-arch,rel-gen,rel-erms,ar"], 400)
    return chk.finish()


def submon(chk, name, label, suts, secs, extra=(), slack=240, env=None):
    """Run one of the dedicated monitors and take its report."""
    out = f"{core.GEN}/out-{chk.prop}-{label}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [core.BUILD + "/mon/release/mon", name, "--seed", str(chk.seed), "--secs", str(secs), "--out", out] + list(extra)
    for c, p in suts:
        cmd += ["--sut", f"{c}={p}"]
    r = core.sh(cmd, timeout=secs + slack, env=env or core.dict_env())
    if r.returncode or not os.path.exists(out):
        raise Inconclusive(f"{name} monitor ended with {r.returncode}: {r.stderr[-1500:]}")
    j = json.load(open(out))
    again = f"VERIF_SEED={chk.seed} VERIF_TIER={chk.tier} python3 {core.VERIF}/run.py {chk.prop}"
    chk.add_mon(j, label, lambda v: again)
    return j


def hex_check(chk):
    suts = [s for s in prepare(chk, ["rel-gen", "chk-gen"], ar=False)]
    if not core.has_symbol(suts[0][1], "sut_hex_parse"):
        raise Inconclusive("the hex float entry points are not reachable in this tree")
    chk.rule = ("conversions of generated text (ties, long digit tails, limits of range, huge exponent text, malformed mutations) in every rounding mode, "
                "plus values formatted and read back; distinct = distinct (format, rounding, status, text length, exponent and low bits of the result)")
    j = submon(chk, "hex", "text", suts, 30 if chk.tier == "quick" else 400)
    r = chk.extra["runs"]["text"]
    r["rejections_expected"] = r.pop("groups")
    r["values_formatted"] = r.pop("routines")
    return chk.finish()


def probe_check(chk):
    build_mon()
    so, missing, err = build_ar_thunks(build_archive())
    if err:
        raise Inconclusive("the archive does not link: " + err[-500:])
    if not core.has_symbol(so, "sut_probestack"):
        raise Inconclusive("the stack probe is not in the archive")
    chk.rule = ("calls of the stack probe on a stack whose pages are mapped on first touch; distinct = distinct (frame size, stack pointer offset in its page); "
                "verdicts_checked counts pages whose first touch was logged and placed in order")
    submon(chk, "probe", "frames", [("ar", so)], 25 if chk.tier == "quick" else 300)
    probe32(chk, 8 if chk.tier == "quick" else 100)
    return chk.finish()


def probe32(chk, secs):
    """The 32-bit variants, in programs of their own."""
    again = f"VERIF_SEED={chk.seed} VERIF_TIER={chk.tier} python3 {core.VERIF}/run.py {chk.prop}"
    exes = core.build_probe32(chk.notes)
    with ThreadPoolExecutor(2) as ex:
        runs = {n: ex.submit(core.sh, [exe, str(chk.seed), str(secs * 1000), moves, reach], timeout=secs + 120) for n, (exe, moves, reach) in exes.items()}
    for n, f in runs.items():
        r = f.result()
        end = [l.split() for l in r.stdout.splitlines() if l.startswith("N ")]
        for l in r.stdout.splitlines():
            if l.startswith("V "):
                chk.viol.append(("probe:" + hashlib.sha1((n + l.split(" holds ")[0]).encode()).hexdigest()[:16], f"{n}: {l[2:]}", again))
            elif l.startswith("S "):
                chk.samples.append(f"[{n}] {l[2:]}")
        if r.returncode in (4, -8, -11) and not r.stdout or r.returncode == 126:
            chk.notes.append(f"{n}: programs of this kind do not run here")
        elif r.returncode or not end and "V " not in r.stdout:
            raise Inconclusive(f"{n}: ended with {r.returncode}: {r.stdout[-300:]}")
        elif end:
            calls, distinct, pages = map(int, end[0][1:])
            chk.evals += calls
            chk.distinct += distinct
            chk.extra.setdefault("runs", {})[n] = {"calls": calls, "systematic_frames": distinct, "pages_touched": pages}


def atom_check(chk):
    build_mon()
    suts = list(core.build_atomx(chk.notes).items())
    chk.rule = ("single-stepped calls with up to two other writes at chosen instruction boundaries, plus calls under real contention; distinct = distinct "
                "(helper, byte offset, write schedule, linearization point); verdicts_checked counts instruction boundaries passed; groups counts thread histories")
    j = submon(chk, "atom", "schedules", suts, 28 if chk.tier == "quick" else 400)
    if j["routines"] < 54 * len(suts):
        chk.notes.append(f"only {j['routines']} helpers found")
    return chk.finish()


def races(chk, so, rounds):
    """First calls from eight threads under ThreadSanitizer."""
    exe = core.BUILD + "/race"
    r = core.sh(["gcc", "-O1", "-w", "-fsanitize=thread", core.VERIF + "/harness/race.c", "-o", exe, "-ldl"])
    e = core.env(TSAN_OPTIONS="halt_on_error=0 exitcode=66 report_bugs=1")
    res = {"rounds": 0, "calls": 0}
    chk.extra["race_detector"] = res
    if r.returncode == 0:
        for pre in (["setarch", "-R"], []):
            p = core.sh(pre + [exe, so, "1", "plant"], env=e, timeout=120)
            if p.returncode == 66 and "data race" in p.stderr:
                break
        else:
            r = p
    if r.returncode not in (0, 66) or r.returncode == 0 and p.returncode != 66:
        chk.notes.append("the race detector does not work on this machine: " + r.stderr[-200:])
        return
    res["planted_race_reported"] = True
    for i in range(rounds):
        p = core.sh(pre + [exe, so, str(chk.seed * 1000 + i)], env=e, timeout=300)
        if p.returncode == 66 and "data race" in p.stderr:
            t = p.stderr[p.stderr.index("WARNING: ThreadSanitizer"):]
            w = [l.strip() for l in t.splitlines() if "#0" in l or "#1" in l][:4]
            chk.viol.append(("race:" + str(len(chk.viol)), "data race: " + " / ".join(w), f"TSAN_OPTIONS=exitcode=66 {' '.join(pre)} {exe} {so} {chk.seed * 1000 + i}"))
            return
        if p.returncode:
            chk.incon.append(f"the race workload ended with {p.returncode}: {p.stderr[-300:]}")
            return
        res["rounds"] += 1
        res["calls"] += int(p.stdout.split()[-1])
    chk.evals += res["calls"]


def pure_check(chk):
    quick = chk.tier == "quick"
    suts = prepare(chk, ["rel-arch", "chk-arch", "rel-gen", "tsan"])
    so = dict(suts)["tsan"]
    suts = [s for s in suts if s[0] != "tsan"]
    chk.rule = (RULE + "; schedules: distinct = distinct (routine, instruction boundary, whether library data is involved) at which another call ran to completion, "
                "plus one per thread start; verdicts_checked counts instruction boundaries passed and groups thread starts there")
    chk.assumptions = ["a call interrupted at an instruction boundary by a complete call stands for a preempting thread; finer interleavings only from real threads"]
    mon(chk, "history", suts, 12 if quick else 150, "pure")
    submon(chk, "sched", "schedules", [s for s in suts if s[0] != "rel-gen"], 22 if quick else 250, ["--dict", core.GEN + "/dict.txt"])
    races(chk, so, 4 if quick else 40)
    return chk.finish()


def suite_check(chk):
    """The conformance suite's own comparison (cmp) and input generators (gen)."""
    quick = chk.tier == "quick"
    build_mon()
    kind = {"C29": "cmp", "C30": "gen"}[chk.prop]
    so = core.build_lt(kind, chk.notes)
    # the suite takes its seed from the environment
    seed = "".join("abcdefghijklmnopqrstuvwxyz"[(chk.seed * 7 + i * i) % 26] for i in range(32))
    if kind == "cmp":
        chk.rule = ("(routine, input, expected, actual) quadruples put to the suite's comparison, with the distance in units in the last place placed at, inside and "
                    "outside the allowance; distinct = distinct (routine, kind of case, verdict, allowance)")
    else:
        chk.rule = ("values and argument tuples produced by the suite's generators, each judged for membership, order and coverage; distinct = distinct (routine, "
                    "generator, kind of fact)")
    submon(chk, "suite", kind, [("lt", so)], 25 if quick else 300, ["--mode", kind], 300, core.env(LIBM_SEED=seed))
    return chk.finish()


def mp_check(chk):
    build_mon()
    so = core.build_lt("mp", chk.notes)
    chk.rule = RULE
    chk.assumptions = [ACC, "Bessel functions of order beyond 300, or beyond 60 at arguments over 1500, are not asked of the multiprecision library: they take minutes",
                       "the sign of a NaN does not survive the multiprecision library"]
    mon(chk, "references", [("mp", so)], 30 if chk.tier == "quick" else 500, exact=True)
    return chk.finish()


def util_check(chk):
    quick = chk.tier == "quick"
    suts = dict(prepare(chk, ["rel-arch"], ar=False))
    j = utilmon.run(chk, suts["rel-arch"], core.build_lt("mp", chk.notes), 30 if quick else 400)
    chk.rule = ("tool runs, one evaluation per number printed or input refused; distinct = distinct (basis, operation, kind of each input text), (type, kind of text, "
                "exponent) for printed numbers, and (operation, reason) for refusals")
    chk.assumptions = ["an evaluation is compared with a direct call of the same routine, whose own correctness other properties decide"]
    chk.add_mon(j, "runs", lambda v: " ".join(shlex.quote(x) for x in [core.BUILD + "/t-util/debug/util"] + v["args"]))
    return chk.finish()


CHECKS = {p: ref_check for p in REF}
CHECKS.update({"C19": special_check, "C20": total_check, "C21": agree_check, "C09": mem_check, "C10": mem_check, "C25": hex_check, "C26": probe_check, "C27": atom_check, "C22": pure_check,
               "C29": suite_check, "C30": suite_check, "C31": mp_check, "C32": util_check,
               "C33": lambda chk: cimon.run(chk, 30 if chk.tier == "quick" else 400),
               "C34": lambda chk: apimon.run(chk, 30 if chk.tier == "quick" else 400),
               "C35": lambda chk: macmon.run(chk, 30 if chk.tier == "quick" else 400),
               "C36": btmon.run,
               "C39": lambda chk: shmon.run(chk, 30 if chk.tier == "quick" else 300),
               "C37": foreign_check, "C38": foreign_check,
               "C23": lambda chk: wiring.run(chk, prepare),
               "C28": lambda chk: symmon.run(chk, 35 if chk.tier == "quick" else 400)})


TECH = {
    "C22": "runtime monitor: ThreadSanitizer, calls preempted at every instruction boundary, thread stress, floating-point control state compared",
    "C23": "runtime monitor: freestanding and overriding programs linked against the archive alone, entry points compared with the reference",
    "C29": "runtime monitor: the suite's comparison run on constructed results whose distance from the expected value is known",
    "C30": "runtime monitor: every value leaving the suite's generators checked against a model of what must be there",
    "C31": "runtime monitor: forked workload with exact-arithmetic and quad-precision oracles over the multiprecision references",
    "C32": "runtime monitor: tool runs on generated text, output compared with exact conversion and direct calls",
    "C33": "runtime monitor: helper runs on made-up histories and service answers, output compared with what the history says",
    "C34": "runtime monitor: tool runs on library trees of known content, its lists and verdicts compared with what was written",
    "C35": "runtime monitor: generated programs record what the macros hand them, compared with a model of each request",
    "C36": "runtime monitor: every value leaving the test drivers recorded and checked for presence, number and spread",
    "C37": "runtime monitor: the library executed in 32-bit x86 processes, every call judged by reference oracles, processor state and crashes observed from outside",
    "C38": "runtime monitor: the library executed as a WebAssembly module, every call judged by reference oracles, traps and hangs observed from outside",
    "C39": "runtime monitor: script runs with recording stand-ins for every tool, each call made to fail in turn",
    "C28": "runtime monitor: tool runs on generated archives, exit status compared with the defects built in",
    "C27": "runtime monitor: single-stepped execution with injected concurrent writes and thread stress, linearizability oracle",
    "C26": "runtime monitor: demand-mapped stack logging every first touch, register file compared around every call",
    "C25": "runtime monitor: independent exact parser as online oracle for every conversion",
    "C09": "runtime monitor: byte-exact shadow memory compared after every call",
    "C10": "runtime monitor: guard pages on both sides of every buffer, register and flag probe around every call",
    "C19": "runtime monitor: metamorphic and table oracle (special values, symmetry, range) over a forked workload",
    "C20": "runtime monitor: crash, trap and hang attribution over builds with run-time checks",
    "C21": "runtime monitor: online bit-for-bit comparison of build configurations",
}
LEVEL = {}
NOTES = {}
NA = {}
HOOK_COMMITS = ["a64c2bb"]


def replay(prop, a):
    own = {"C33": cimon, "C34": apimon, "C35": macmon, "C36": btmon, "C39": shmon}.get(prop)
    if own:
        return own.replay(*a)
    cfg, mode, route, name, sig, args = a
    chk = Check(prop, "quick", 1)
    if prop == "C31":
        build_mon()
        so = core.build_lt("mp", chk.notes)
        core.sh([core.BUILD + "/mon/release/mon", "--prop", prop, "--mode", mode, "--exact", "1", "--one", args, "--sigs", sig, "--name", name,
                 "--sut", "mp=" + so, "--out", core.GEN + "/one.json"])
        return replayed()
    if cfg in core.FOREIGN:
        build_mon()
        so = core.Foreign().build([cfg])[cfg]
        core.sh([core.BUILD + "/mon/release/mon", "--prop", prop, "--mode", mode, "--one", args, "--sigs", sig, "--routes", route, "--name", name,
                 "--anynan", "0" if cfg == "wasm32" else "1", "--sut", f"{cfg}={so}", "--out", core.GEN + "/one.json"])
        return replayed()
    cfgs = [cfg] if cfg != "ar" else ["rel-gen"]
    if mode == "agree":
        cfgs = list(dict.fromkeys(["rel-gen"] + cfgs))
    suts = prepare(chk, cfgs, ar=cfg == "ar")
    cmd = [core.BUILD + "/mon/release/mon", "--prop", prop, "--mode", mode, "--one", args, "--sigs", sig, "--out", core.GEN + "/one.json"]
    if mode != "agree":
        cmd += ["--routes", route, "--name", name]
    else:
        ops = {r[1] for r in table.rows if r[2] == sig and (r[4] == name or (r[3] or "").endswith(name) or name.startswith(r[1] + "#"))}
        cmd += ["--ops", ",".join(ops)]
    for c, p in suts:
        if mode == "agree" or c == cfg:
            cmd += ["--sut", f"{c}={p}"]
    core.sh(cmd)
    return replayed()


def replayed():
    j = json.load(open(core.GEN + "/one.json"))
    print(json.dumps({k: j[k] for k in ("evals", "samples", "violations", "inconclusive")}, indent=1))
    return 1 if j["violations"] else 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if argv[0] == "--setup":
            chk = Check("setup", tier, seed)
            prepare(chk, ALLCFG + ["rel-erms", "tsan"] + (["rel-native"] if native_ok() else []))
            core.build_memx(chk.notes)
            core.build_atomx(chk.notes)
            core.build_probe32(chk.notes)
            core.build_archive("ar-noarch", default=False)
            symmon.build()
            utilmon.build()
            macmon.build()
            btmon.build()
            for kind in ("mp", "cmp", "gen"):
                core.build_lt(kind, chk.notes)
            try:
                core.Foreign().build(list(core.FOREIGN))
            except Inconclusive as e:
                chk.notes.append(f"other targets: {e}")
            print("setup done", chk.notes)
            return 0
        prop = argv[0]
        if prop not in CHECKS:
            print(f"no check for {prop}")
            return 2
        if len(argv) > 1 and argv[1] == "--replay":
            return replay(prop, argv[2:])
        ev = f"{core.VERIF}/evidence/{prop}.json"
        if os.path.exists(ev):
            os.remove(ev)
        return CHECKS[prop](Check(prop, tier, seed))
    except Inconclusive as e:
        print(f"{argv[0]}: inconclusive: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
