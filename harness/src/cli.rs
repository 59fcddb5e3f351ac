use serde_json::json;
use std::collections::HashSet;
use crate::engine::{install_hook, Ctx, DynFacet, Report, Tier};

pub type Table = [(&'static str, fn() -> Vec<Box<dyn DynFacet>>)];

fn facets(t: &Table, id: &str) -> Vec<Box<dyn DynFacet>> {
    match t.iter().find(|x| x.0 == id) {
        Some(x) => x.1(),
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}

fn usage() -> ! {
    eprintln!("usage: vharness run ID --seed N --tier quick|thorough --out FILE [--inflight FILE] [--isolate] [--facet NAME] [--scale F] [--known SIG]...\n       vharness replay FILE\n       vharness list\n       vharness ref NAME ARGS..");
    std::process::exit(3)
}

/// Runaway allocation ends in an abort inside the process (and so in a case to report), not in the machine running out
/// of memory.  A fuzzing worker is one of several.
fn limit_memory(gib: u64) {
    extern "C" {
        fn getrlimit(resource: i32, r: *mut [u64; 2]) -> i32;
        fn setrlimit(resource: i32, r: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let mut r = [0; 2];
    unsafe {
        if getrlimit(RLIMIT_AS, &mut r) == 0 {
            r[0] = r[1].min(gib << 30);
            setrlimit(RLIMIT_AS, &r);
        }
    }
}

pub fn main(t: &Table) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    limit_memory(if a.first().is_some_and(|s| s.starts_with("fuzz")) { 3 } else { 26 });
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(t, &a[1..]),
        Some("replay") => replay(t, &a[1..]),
        Some("fuzz") => fuzz(t, &a[1..]),
        Some("fuzz-list") => {
            for f in facets(t, a.get(1).map(|s| s.as_str()).unwrap_or_default()) {
                if f.fuzz_runs() > 0 {
                    println!("{} {}", f.name(), f.fuzz_runs());
                }
            }
        }
        Some("fuzz-case") => {
            // ID FACET FILE: the case a recorded input stands for
            let [_, id, name, file] = &a[..] else { usage() };
            let b = std::fs::read(file).expect("input file");
            let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            let f = facets(t, id).into_iter().find(|f| f.name() == name).unwrap_or_else(|| usage());
            match f.fuzz_case(&b[4..4 + n]) {
                Some(c) => println!("{c}"),
                None => std::process::exit(1),
            }
        }
        Some("ref") => crate::refs::cli::serve(),
        Some("list") => {
            for (id, g) in t {
                for f in g() {
                    println!("{id} {}", f.name());
                }
            }
        }
        _ => usage(),
    }
}

fn run(t: &Table, a: &[String]) {
    install_hook();
    let Some(id) = a.first() else { usage() };
    let mut ctx = Ctx {
        seed: 1,
        tier: Tier::Quick,
        release: !cfg!(debug_assertions),
        known: HashSet::new(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
        inflight: None,
        isolate_all: false,
        scale: 1.0,
        hang: Box::new(|_| ()),
    };
    let mut out = None;
    let mut only = None;
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_else(|| usage());
        match a[i].as_str() {
            "--seed" => ctx.seed = v().parse().unwrap_or_else(|_| usage()),
            "--tier" => ctx.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--out" => out = Some(v()),
            "--inflight" => ctx.inflight = Some(v().into()),
            "--facet" => only = Some(v()),
            "--scale" => ctx.scale = v().parse().unwrap_or_else(|_| usage()),
            "--threads" => ctx.threads = v().parse().unwrap_or_else(|_| usage()),
            "--known" => {
                ctx.known.insert(v());
            }
            "--isolate" => {
                ctx.isolate_all = true;
                i += 1;
                continue;
            }
            _ => usage(),
        }
        i += 2;
    }
    // the two profiles explore different cases
    ctx.seed = ctx.seed.wrapping_mul(2).wrapping_add(ctx.release as u64);
    {
        let (out, id, release) = (out.clone(), id.clone(), ctx.release);
        ctx.hang = Box::new(move |v| {
            eprintln!("{}: {} on {}", v.sig, v.msg, v.case.to_string().chars().take(300).collect::<String>());
            let rep = Report { facet: v.facet.clone(), violation: Some(v), ..Default::default() };
            write(&out, &id, release, &[rep]);
            std::process::exit(1)
        });
    }
    let mut reps = vec![];
    let mut bad = false;
    for f in facets(t, id) {
        if only.as_ref().is_some_and(|o| o != f.name()) {
            continue;
        }
        if out.is_some() {
            eprintln!("facet: {}", f.name());
        }
        let r = f.run(&ctx);
        if out.is_none() {
            eprintln!("{:28} evals {:8} distinct {:8} {:.2}s {:?}{}", r.facet, r.evaluations, r.distinct_nontrivial, r.wall_s, r.labels, r.violation.as_ref().map(|v| format!("\n   VIOLATION {} {} case {}", v.sig, v.msg, v.case.to_string().chars().take(700).collect::<String>())).unwrap_or_default());
        }
        bad |= r.violation.is_some();
        reps.push(r);
        if bad && out.is_some() {
            break;
        }
    }
    write(&out, id, ctx.release, &reps);
    std::process::exit(if bad { 1 } else { 0 })
}

fn replay(t: &Table, a: &[String]) {
    install_hook();
    let Some(p) = a.first() else { usage() };
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay file is JSON");
    let id = v["property"].as_str().unwrap_or_else(|| usage());
    let name = v["facet"].as_str().unwrap_or_else(|| usage());
    let Some(f) = facets(t, id).into_iter().find(|f| f.name() == name) else { usage() };
    match f.replay(&v["case"]) {
        Ok(_) => println!("replay: {id} {name}: holds"),
        Err(e) => {
            println!("replay: {id} {name}: {} [{}]", e.msg, e.sig);
            std::process::exit(1)
        }
    }
}

#[cfg(feature = "fuzz")]
fn fuzz(t: &Table, a: &[String]) {
    install_hook();
    let [id, name, rest @ ..] = a else { usage() };
    let mut o = crate::fuzz::Opts { id: id.clone(), seed: 1, runs: 1000, dir: ".".into(), out: "fuzz.json".into(), value_profile: false, known: HashSet::new() };
    let mut i = 0;
    while i < rest.len() {
        let v = || rest.get(i + 1).cloned().unwrap_or_else(|| usage());
        match rest[i].as_str() {
            "--seed" => o.seed = v().parse().unwrap_or_else(|_| usage()),
            "--runs" => o.runs = v().parse().unwrap_or_else(|_| usage()),
            "--dir" => o.dir = v(),
            "--out" => o.out = v(),
            "--vp" => o.value_profile = v() == "1",
            "--known" => {
                o.known.insert(v());
            }
            _ => usage(),
        }
        i += 2;
    }
    let f = facets(t, id).into_iter().find(|f| f.name() == name).unwrap_or_else(|| usage());
    crate::fuzz::run(f, o)
}

#[cfg(not(feature = "fuzz"))]
fn fuzz(_: &Table, _: &[String]) {
    usage()
}

pub fn write(out: &Option<String>, id: &str, release: bool, reps: &[Report]) {
    let doc = json!({"property": id, "profile": if release {"release"} else {"checked"}, "facets": reps});
    if let Some(o) = out {
        std::fs::write(o, doc.to_string()).expect("cannot write the report");
    }
}
