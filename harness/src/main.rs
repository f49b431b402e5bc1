mod engine;
mod enumerate;
mod gen;
mod heap;
mod hist;
mod legacy;
mod mem;
mod model;
mod ops;
mod props;
mod real;
mod rng;
mod run;
mod san;
mod soak;
mod solo;
mod store;
mod scale;
mod special;
mod structure;
mod sup;
mod threshold;
mod twin;
mod wasm;
mod watch;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use std::path::PathBuf;
use std::time::Duration;

fn main() {
    real::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(sup::check(&a[2], &a)),
        Some("check-inner") => {
            let prop = a[2].clone();
            let thorough = get("--tier").as_deref() == Some("thorough");
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else if prop == "P16" { 54 } else if prop == "P22" { 45 } else { 35 });
            let o = run::Opt {
                evidence: get("--evidence").map(PathBuf::from).unwrap_or_else(|| PathBuf::from(format!("/verif/evidence/{prop}.json"))),
                replays: get("--replays").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif/replays")),
                threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                cases: get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
                first: get("--first").and_then(|s| s.parse().ok()).unwrap_or(0),
                status: get("--status").map(PathBuf::from),
                prop,
                thorough,
                seed,
                budget: Duration::from_secs(budget),
            };
            if a.iter().any(|x| x == "--announce") {
                real::announce(true);
            }
            std::process::exit(run::check(&o));
        }
        Some("probe") => std::process::exit(solo::probe()),
        Some("solo") => {
            let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
            let s = solo::Solo {
                seed: num("--seed", 1),
                first: num("--first", 0),
                cases: num("--cases", 1 << 40),
                secs: num("--secs", 10),
                transient: a.iter().any(|x| x == "--transient"),
                small: a.iter().any(|x| x == "--small"),
                verbose: a.iter().any(|x| x == "--verbose"),
            };
            std::process::exit(solo::run(&s));
        }
        Some("golden") => legacy::make_golden(std::path::Path::new(&a[2])),
        Some("replay") => {
            let r: hist::Replay = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            println!("{} [{}] {}", r.property, r.cfg.name(), r.detail);
            for o in &r.ops {
                println!("  {}", engine::opstr(o));
            }
            if matches!(r.driver.as_str(), "Asan" | "Miri" | "MiriStrict" | "Probe" | "Checked" | "Plain" | "died") {
                return;
            }
            if r.driver != "history" && r.driver != "hang" {
                let o = run::Opt {
                    prop: r.property.clone(),
                    thorough: false,
                    seed: 1,
                    budget: Duration::from_secs(600),
                    evidence: PathBuf::new(),
                    replays: PathBuf::new(),
                    threads: 1,
                    cases: 1,
                    first: 0,
                    status: None,
                };
                match special::replay(&o, &r.driver, r.seed) {
                    Some(t) => {
                        println!("AGAIN: {t}");
                        std::process::exit(1);
                    }
                    None => println!("no violation"),
                }
                return;
            }
            let (d, e) = hist::run_ops(&r.cfg, &r.ops, true);
            match d {
                Some(d) => {
                    println!("DIVERGES: {}", hist::describe(&d));
                    let l = hist::localise(&r.cfg, &e.log, &d);
                    println!("localised: {}", hist::describe(&l));
                    std::process::exit(1);
                }
                None => {
                    for s in &e.soft {
                        println!("soft: {}", hist::describe(s));
                    }
                    println!("no divergence");
                }
            }
        }
        _ => {
            eprintln!("usage: sfsmon check PROP | replay FILE");
            std::process::exit(2);
        }
    }
}
