//! Worker pool, evidence and verdicts.
use crate::engine::*;
use crate::hist::*;
use crate::ops::Op;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::{props, special, watch};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Opt {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub budget: Duration,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub threads: usize,
    pub cases: u64,
    /// number of the first case
    pub first: u64,
    /// where the workers note which case they run
    pub status: Option<PathBuf>,
}

/// what one case showed
#[derive(Default)]
pub struct CaseOut {
    pub stats: Stats,
    /// distinguishes executions
    pub hash: u64,
    pub nontrivial: bool,
    pub violation: Option<(Replay, String)>,
    /// a divergence which says nothing about this property
    pub foreign: Option<String>,
    pub sample: Option<Value>,
    pub counters: BTreeMap<String, u64>,
}

impl CaseOut {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
}

#[derive(Default)]
pub struct Total {
    pub cases: u64,
    pub stats: Stats,
    pub hashes: HashSet<u64>,
    pub nontrivial: u64,
    pub foreign: u64,
    pub foreign_samples: Vec<String>,
    pub samples: Vec<Value>,
    pub by_cfg: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(Replay, String)>,
}

pub fn write_replay(o: &Opt, r: &Replay) -> String {
    let _ = std::fs::create_dir_all(&o.replays);
    let p = o.replays.join(format!("{}-{:x}.json", o.prop, mix(r.seed ^ r.ops.len() as u64)));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(r).unwrap());
    p.to_string_lossy().to_string()
}

pub fn report_violation(o: &Opt, r: &Replay, text: &str) {
    let p = write_replay(o, r);
    println!("{text}");
    println!("VIOLATION property={} replay={}", o.prop, p);
}

pub fn write_evidence(o: &Opt, t: &Total, wall: f64, rule: &str, extra: Value) {
    let mut cov = json!({
        "evaluations": t.cases,
        "distinct_nontrivial": t.nontrivial,
        "rule": rule,
        "samples": t.samples,
        "operations_executed": t.stats.ops,
        "operations_succeeded": t.stats.ok,
        "operations_failed": t.stats.failed,
        "operations_by_kind_ok_failed": t.stats.by_kind.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
        "expected_failures_by_reason": t.stats.err_why,
        "whole_state_audits": t.stats.audits,
        "objects_audited": t.stats.objects_audited,
        "bytes_compared": t.stats.bytes_compared,
        "names_checked": t.stats.names_checked,
        "chunks_accounted": t.stats.chunks_accounted,
        "reopens": t.stats.reopens,
        "largest_live_object_count": t.stats.max_live,
        "most_memory_accesses_in_one_call": t.stats.max_steps,
        "histories_by_configuration": t.by_cfg,
        "histories_stopped_by_another_property": t.foreign,
        "foreign_divergences": t.foreign_samples,
    });
    for (k, v) in &t.counters {
        cov[k] = json!(v);
    }
    if let Value::Object(m) = extra {
        for (k, v) in m {
            cov[k] = v;
        }
    }
    let e = json!({
        "property": o.prop,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the reference model in harness/src/model.rs states the documented behaviour",
            "memory is the instrumented sparse stable memory of harness/src/mem.rs (same contract as a canister's stable memory)",
            "executions explored are a sample: a violation that none of them reaches is not seen"
        ],
        "wall_s": wall,
        "violations": t.violations.len(),
    });
    if let Some(d) = o.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, serde_json::to_string_pretty(&e).unwrap()).expect("evidence file");
}

thread_local! {
    /// a history that went wrong while another driver recorded it
    pub static DIVERGED: std::cell::RefCell<Option<(Cfg, Vec<Op>, Div)>> = const { std::cell::RefCell::new(None) };
}

/// positions in the memory beyond 31 or 32 bits, in some of the cases
pub fn raise(cfg: &mut Cfg, seed: u64) {
    if !cfg.transient && cfg.bucket >= 8 && mix(seed ^ 0x416B).is_multiple_of(8) {
        cfg.high = 1 + (seed % 12) as u8 + if seed & 0x1000 != 0 { 128 } else { 0 };
    }
}

/// one random history against the model
pub fn hist_case(o: &Opt, seed: u64) -> (Cfg, CaseOut) {
    let mut r = Rng::new(seed);
    let mut cfg = props::random_cfg(&mut r, &o.prop);
    raise(&mut cfg, seed);
    let profs = props::profiles(&o.prop);
    let mut prof = r.pick(&profs).clone();
    if mix(seed ^ 0x5A1C).is_multiple_of(3) {
        // a little of everything else
        prof = prof.spiced();
    }
    let n = match r.below(20) {
        0 => r.range(600, 1500),
        1..=5 => r.range(200, 500),
        _ => r.range(30, 200),
    } as usize;
    watch::case(&cfg, seed, "history");
    let hseed = r.u64();
    let (d, e) = run_random(&cfg, &prof, hseed, n);
    let mut c = CaseOut { hash: e.trace_hash ^ mix(e.stats.ops), nontrivial: e.stats.ok > 10 && e.mutations > 8, ..Default::default() };
    c.stats = e.stats.clone();
    if o.prop == "P25" || o.prop == "ANY" {
        if let Some(s) = e.soft.first() {
            // a wrong error number
            let mut s = s.clone();
            s.localised = true;
            let log: Vec<Op> = e.log[..s.step.min(e.log.len())].to_vec();
            let (ops, d2) = shrink(&o.prop, &cfg, &log, &s, Duration::from_secs(8));
            let text = describe(&d2);
            c.violation = Some((Replay { property: o.prop.clone(), driver: "history".into(), cfg: cfg.clone(), ops, seed, detail: text.clone() }, text));
            return (cfg, c);
        }
    }
    c.sample = Some(json!({
        "driver": "history", "profile": prof.name, "configuration": cfg.name(), "seed": seed,
        "operations": e.log.iter().filter(|x| !x.is_audit()).take(6).map(opstr).collect::<Vec<_>>(),
        "length": e.log.len(),
    }));
    if let Some(d) = d {
        settle(o, &cfg, &e.log, *d, seed, &mut c);
        if c.foreign.is_some() && !cfg.transient {
            // go on without the structural accounting: what does a caller see?
            let masked = Cfg { mask: true, ..cfg.clone() };
            watch::case(&masked, seed, "history");
            let (d, e) = run_random(&masked, &prof, hseed, n);
            c.count("histories_continued_past_a_structural_finding", 1);
            if let Some(d) = d {
                settle(o, &masked, &e.log, *d, seed, &mut c);
            }
        }
    }
    (cfg, c)
}

/// decide whose divergence it is
pub fn settle(o: &Opt, cfg: &Cfg, log: &[Op], d: Div, seed: u64, c: &mut CaseOut) {
    let l = localise(cfg, log, &d);
    let pick = if props::accept(&o.prop, &l) {
        Some(l.clone())
    } else if l.localised && l.step < d.step && props::accept_symptom(&o.prop, &d) {
        Some(Box::new(d.clone()))
    } else {
        None
    };
    match pick {
        Some(l) => {
            let (ops, d2) = shrink(&o.prop, cfg, log, &l, Duration::from_secs(8));
            let text = describe(&d2);
            c.violation = Some((Replay { property: o.prop.clone(), driver: "history".into(), cfg: cfg.clone(), ops, seed, detail: text.clone() }, text));
        }
        None => {
            c.foreign = Some(format!("[{}] {}", cfg.name(), describe(&l)));
            // is an operation of this property's kind indispensable? (a costly question, asked a few times per check)
            static ASKED: AtomicU64 = AtomicU64::new(0);
            if ASKED.fetch_add(1, Ordering::Relaxed) < 40 {
                let (ops, d2) = shrink("", cfg, log, &d, Duration::from_secs(5));
                if props::needs(&o.prop, cfg, &ops, &d2) {
                    let text = format!("{} (the failing history of {} calls needs an operation of this kind)", describe(&d2), ops.len());
                    c.foreign = None;
                    c.violation = Some((Replay { property: o.prop.clone(), driver: "history".into(), cfg: cfg.clone(), ops, seed, detail: text.clone() }, text));
                }
            }
        }
    }
}

/// `f` gets the index of the case and its seed
pub fn pool(o: &Opt, f: impl Fn(&Opt, u64, u64) -> (Cfg, CaseOut) + Send + Sync + 'static) -> Total {
    let total = Arc::new(Mutex::new(Total::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(o.first));
    let t0 = Instant::now();
    let f = Arc::new(f);
    let mut hs = vec![];
    for worker in 0..o.threads {
        let (o, total, stop, next, f) = (o.clone(), total.clone(), stop.clone(), next.clone(), f.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    watch::register();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > o.budget {
                            break;
                        }
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k - o.first >= o.cases {
                            break;
                        }
                        let seed = mix(mix(o.seed) ^ k.wrapping_mul(0x9E37));
                        if let Some(d) = &o.status {
                            let _ = std::fs::write(d.join(format!("w{worker}")), k.to_string());
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&o, k, seed)));
                        watch::idle();
                        let Ok((cfg, c)) = r else {
                            // a defect of the harness: counted, never a verdict
                            let mut t = total.lock().unwrap_or_else(|p| p.into_inner());
                            *t.counters.entry("harness_errors".into()).or_default() += 1;
                            eprintln!("harness error in case seed {seed}");
                            continue;
                        };
                        let mut t = total.lock().unwrap();
                        t.cases += 1;
                        t.stats.add(&c.stats);
                        if t.hashes.insert(c.hash) && c.nontrivial {
                            t.nontrivial += 1;
                        }
                        *t.by_cfg.entry(cfg.name()).or_default() += 1;
                        for (k, v) in &c.counters {
                            *t.counters.entry(k.clone()).or_default() += v;
                        }
                        if let Some(s) = c.sample {
                            if t.samples.len() < 4 {
                                t.samples.push(s);
                            }
                        }
                        if let Some(x) = c.foreign {
                            t.foreign += 1;
                            if t.foreign_samples.len() < 8 {
                                t.foreign_samples.push(x);
                            }
                        }
                        if let Some(v) = c.violation {
                            t.violations.push(v);
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    Arc::try_unwrap(total).ok().unwrap().into_inner().unwrap()
}

pub fn check(o: &Opt) -> i32 {
    let t0 = Instant::now();
    {
        let o2 = o.clone();
        watch::spawn(if o.thorough { 90.0 } else { 45.0 }, move |s| {
            let op = s.op.clone().unwrap();
            let cfg = s.cfg.clone().unwrap_or_else(Cfg::v1);
            let text = format!("{} does not return (configuration {}, {} seed {})", opstr(&op), cfg.name(), s.what, s.seed);
            let mut d = *Engine::panic_div(text.clone());
            d.cat = Cat::Work;
            d.op = op;
            let t = Total::default();
            if props::accept(&o2.prop, &d) {
                let rp = Replay { property: o2.prop.clone(), driver: "hang".into(), cfg, ops: vec![], seed: s.seed, detail: text.clone() };
                report_violation(&o2, &rp, &text);
                let t = Total { violations: vec![(rp, text)], ..t };
                write_evidence(&o2, &t, t0.elapsed().as_secs_f64(), "interrupted", json!({}));
                std::process::exit(1);
            }
            println!("INCONCLUSIVE: {text}");
            write_evidence(&o2, &t, t0.elapsed().as_secs_f64(), "interrupted by a call that does not return; not attributable to this property", json!({}));
            std::process::exit(0);
        });
    }
    let (t, rule, extra) = special::run(o);
    write_evidence(o, &t, t0.elapsed().as_secs_f64(), &rule, extra);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} operations, {} audits, {} foreign, {:.1}s",
        o.prop,
        t.cases,
        t.nontrivial,
        t.stats.ops,
        t.stats.audits,
        t.foreign,
        t0.elapsed().as_secs_f64()
    );
    for f in t.foreign_samples.iter().take(6) {
        println!("  note (other property): {f}");
    }
    for (r, text) in t.violations.iter().take(1) {
        report_violation(o, r, text);
    }
    if t.violations.is_empty() {
        0
    } else {
        1
    }
}
