//! Which drivers decide a property besides the plain histories, and how their cases are scheduled.
use crate::run::*;
use crate::rng::mix;
use crate::real::Cfg;
use crate::{enumerate, legacy, san, scale, soak, store, threshold, twin, wasm};
use serde_json::{json, Value};

pub const HIST_RULE: &str = "history: one case is one random history of file system calls (profile, configuration and length drawn from the seed) executed on the real code with every result compared against the reference model and whole-state audits in between; non-trivial: more than 10 successful calls and more than 8 state-changing calls";

/// `Arg::Fixed(i)`: the i-th case of an enumeration; `Arg::Seed`: random
#[derive(Clone, Copy, Debug)]
pub enum Arg {
    Fixed(u64),
    Seed(u64),
}
impl Arg {
    pub fn raw(self) -> u64 {
        match self {
            Arg::Fixed(i) => i,
            Arg::Seed(s) => s,
        }
    }
}

pub type CaseFn = fn(&Opt, Arg) -> (Cfg, CaseOut);

#[derive(Clone)]
pub struct Driver {
    pub name: &'static str,
    pub f: CaseFn,
    /// enumerated cases, run first
    pub fixed: u64,
    /// share of the random cases
    pub weight: u64,
    pub rule: &'static str,
}

fn history(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    hist_case(o, a.raw())
}

const HIST: Driver = Driver { name: "history", f: history, fixed: 0, weight: 10, rule: HIST_RULE };

pub fn drivers(o: &Opt) -> Vec<Driver> {
    let t = o.thorough;
    let mut v = match o.prop.as_str() {
        "P17" => vec![Driver { weight: 10, ..twin::CONFIGS }],
        "P18" => vec![Driver { weight: 10, ..twin::SHARED }],
        "P24" => vec![Driver { weight: 10, ..twin::NOISE }, Driver { weight: 3, ..HIST }],
        "P26" => vec![Driver { weight: 10, ..twin::SPLIT }],
        "P19" => vec![Driver { weight: 8, ..legacy::LEGACY }, Driver { weight: 2, ..legacy::GOLDEN }, legacy::FOREIGN],
        "P12" => vec![HIST, Driver { weight: 3, ..enumerate::CYCLES }],
        "P20" => vec![HIST, Driver { weight: 8, ..enumerate::PAGES }],
        "P21" => vec![HIST, Driver { weight: 8, ..enumerate::PATHS }],
        "P29" => vec![enumerate::EXHAUST],
        "P30" => vec![twin::REPLICAS],
        "P31" => vec![soak::SOAK, Driver { weight: 3, ..HIST }, Driver { weight: 2, ..scale::SCALE }],
        "P32" => vec![store::STORE],
        "P28" => vec![wasm::WASM],
        "P22" => vec![HIST, scale::SCALE],
        "ANY" => vec![
            Driver { fixed: 0, ..scale::SCALE },
            HIST,
            enumerate::CYCLES,
            Driver { fixed: 0, ..enumerate::PAGES },
            Driver { fixed: 0, ..enumerate::PATHS },
            legacy::LEGACY,
            store::STORE,
        ],
        _ => vec![HIST],
    };
    if matches!(v[0].name, "history" | "scale") {
        v.push(threshold::THRESHOLDS);
    }
    if t {
        for d in v.iter_mut() {
            match d.name {
                "paths" => d.fixed *= 4,
                "thresholds" => d.fixed *= 2,
                _ => {}
            }
        }
    }
    v
}

pub fn run(o: &Opt) -> (Total, String, Value) {
    let ds = drivers(o);
    let mut rule = ds.iter().map(|d| d.rule).collect::<Vec<_>>().join("; ") + "; distinct: different stream of observed results";
    let names: Vec<&str> = ds.iter().map(|d| d.name).collect();
    let mut names = json!({ "drivers": names });
    let fixed: u64 = ds.iter().map(|d| d.fixed).sum();
    let weight: u64 = ds.iter().map(|d| d.weight).sum();
    let mut o1 = o.clone();
    if o.prop == "P16" {
        o1.budget /= 3;
    }
    if o.prop == "P22" {
        o1.budget = o1.budget * 2 / 3;
    }
    let mut t = pool(&o1, move |o, k, seed| {
        // the enumerated cases first
        let mut x = k;
        for d in &ds {
            if x < d.fixed {
                return one(o, d, Arg::Fixed(x));
            }
            x -= d.fixed;
        }
        let _ = fixed;
        if weight == 0 {
            return (Cfg::v1(), CaseOut::default());
        }
        let mut w = mix(seed ^ 0xD217) % weight;
        for d in &ds {
            if w < d.weight {
                return one(o, d, Arg::Seed(seed));
            }
            w -= d.weight;
        }
        unreachable!()
    });
    if o.prop == "P16" && t.violations.is_empty() {
        let x = san::run(o, &mut t, (o.budget * 2 / 3).as_secs());
        names["sanitizers"] = x;
        rule += "; children: histories of the same kind in processes built with AddressSanitizer, or interpreted by Miri, with buffers allocated to their exact size and null addresses for empty ones";
    }
    if o.prop == "P22" && t.violations.is_empty() {
        names["parity"] = san::parity(o, &mut t, (o.budget / 3).as_secs());
        rule += "; parity: histories executed by the build with overflow checks and assertions and by the build without, compared result by result";
    }
    (t, rule, names)
}

fn one(o: &Opt, d: &Driver, a: Arg) -> (Cfg, CaseOut) {
    crate::run::DIVERGED.with(|x| x.borrow_mut().take());
    let (cfg, mut c) = (d.f)(o, a);
    if c.violation.is_none() && c.foreign.is_none() {
        // a history that went wrong while it was recorded
        if let Some((cfg, log, v)) = crate::run::DIVERGED.with(|x| x.borrow_mut().take()) {
            crate::run::settle(o, &cfg, &log, v, a.raw(), &mut c);
        }
    }
    c.count(&format!("cases_{}", d.name), 1);
    if let (Some((r, _)), Arg::Fixed(i)) = (&mut c.violation, a) {
        r.seed = i;
        if r.driver != "history" {
            r.driver = format!("{}#", r.driver);
        }
    }
    (cfg, c)
}

/// run the recorded case of a driver again
pub fn replay(o: &Opt, driver: &str, seed: u64) -> Option<String> {
    let name = driver.trim_end_matches('#');
    let a = if driver.ends_with('#') { Arg::Fixed(seed) } else { Arg::Seed(seed) };
    let d = drivers(o).into_iter().find(|d| d.name == name)?;
    (d.f)(o, a).1.violation.map(|v| v.1)
}
