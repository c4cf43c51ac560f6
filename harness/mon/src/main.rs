#![feature(f16, f128)]
#![allow(static_mut_refs, unsafe_op_in_unsafe_fn, dangerous_implicit_autorefs, dead_code, unused)]
mod atommon;
mod dl;
mod fp;
mod gen;
mod hexmon;
mod memmon;
mod probemon;
mod refs;
mod run;
mod schedmon;
mod suitemon;
mod sut;
mod sys;

use run::*;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|a| a.as_str()) {
        Some("mem") => return memmon::main(&args[1..]),
        Some("hex") => return hexmon::main(&args[1..]),
        Some("atom") => return atommon::main(&args[1..]),
        Some("sched") => return schedmon::main(&args[1..]),
        Some("suite") => return suitemon::main(&args[1..]),
        Some("probe") => return probemon::main(&args[1..]),
        _ => {}
    }
    let mut o = Opts {
        prop: String::new(),
        seed: 1,
        secs: 10.0,
        workers: 8,
        mode: Mode::Ref,
        out: String::new(),
        replay_dir: String::new(),
        sweep: None,
        one: None,
        enumerate: true,
    };
    let mut suts = vec![];
    let mut ops: Vec<String> = vec![];
    let mut dict = String::new();
    let mut routes: Vec<String> = vec![];
    let mut sigs: Vec<String> = vec![];
    let mut only = String::new();
    let mut i = 0;
    while i < args.len() {
        let val = args.get(i + 1).cloned().unwrap_or_default();
        let list = || val.split(',').filter(|s| !s.is_empty()).map(String::from).collect::<Vec<_>>();
        match args[i].as_str() {
            "--prop" => o.prop = val,
            "--seed" => o.seed = val.parse().unwrap(),
            "--secs" => o.secs = val.parse().unwrap(),
            "--workers" => o.workers = val.parse().unwrap(),
            "--mode" => {
                o.mode = match val.as_str() {
                    "ref" => Mode::Ref,
                    "total" => Mode::Total,
                    "agree" => Mode::Agree,
                    "special" => Mode::Special,
                    "pure" => Mode::Pure,
                    _ => panic!("mode"),
                }
            }
            "--out" => o.out = val,
            "--ops" => ops = list(),
            "--routes" => routes = list(),
            "--sigs" => sigs = list(),
            "--dict" => dict = val,
            "--sut" => suts.push(val),
            "--name" => only = val,
            "--one" => {
                let mut a = [0u128; 4];
                for (i, x) in val.split(',').enumerate() {
                    a[i] = u128::from_str_radix(x.trim_start_matches("0x"), 16).unwrap();
                }
                o.one = Some(a);
            }
            "--exact" => refs::EXACT.store(val == "1", std::sync::atomic::Ordering::Relaxed),
            "--enum" => o.enumerate = val == "1",
            "--anynan" => refs::ANYNAN.store(val == "1", std::sync::atomic::Ordering::Relaxed),
            "--sweep" => o.sweep = Some(val),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let d = gen::Dict::load(&dict);
    let mut all = vec![];
    let mut keep = vec![];
    for s in &suts {
        let s = sut::load(s);
        keep.push(s.lib);
        all.extend(s.r);
    }
    all.retain(|r| (only.is_empty() || only == r.name) && (routes.is_empty() || routes.contains(&r.route)) && (sigs.is_empty() || sigs.contains(&r.sig)));
    let gs = build_groups(all, &ops, &d);
    if gs.is_empty() {
        eprintln!("no routines selected");
        std::process::exit(2);
    }
    let r = run::run(&o, &gs);
    let per: Vec<String> = r.per.iter().map(|(n, c)| format!("{}:{}", jstr(n), c)).collect();
    let vs: Vec<String> = r.violations.iter().map(|(s, d)| format!("{{\"sig\":{},\"text\":{}}}", jstr(s), jstr(d))).collect();
    let routines: usize = gs.iter().map(|g| g.rt.len()).sum();
    let j = format!(
        "{{\"evals\":{},\"checks\":{},\"distinct\":{},\"nontrivial\":{},\"groups\":{},\"routines\":{},\"per\":{{{}}},\"samples\":{},\"violations\":[{}],\"inconclusive\":{}}}",
        r.evals, r.checks, r.distinct, r.nontrivial, gs.len(), routines, per.join(","), jarr(&r.samples), vs.join(","), jarr(&r.inconclusive)
    );
    if o.out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&o.out, j).unwrap();
    }
}
