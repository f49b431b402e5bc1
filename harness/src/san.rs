//! P16: the same workloads in child processes under AddressSanitizer and under the Miri interpreter.
use crate::real::Cfg;
use crate::run::*;
use crate::hist::Replay;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn harness_dir() -> PathBuf {
    if let Ok(d) = std::env::var("SFSMON_DIR") {
        return d.into();
    }
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
}

const NIGHTLY: &str = "nightly";
const ASAN_BIN: &str = "target/asan/x86_64-unknown-linux-gnu/release/sfsmon";

/// marks in what a child prints which prove undefined behaviour
const PROOF: &[&str] = &["ERROR: AddressSanitizer: ", "error: Undefined Behavior", "unsafe precondition(s) violated", "misaligned pointer dereference", "null pointer dereference occurred"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Asan,
    Miri,
    MiriStrict,
    Probe,
    /// the optimised build with assertions, and the one without
    Checked,
    Plain,
}

struct Kid {
    kind: Kind,
    seed: u64,
    child: Child,
    out: std::thread::JoinHandle<String>,
    err: std::thread::JoinHandle<String>,
}

fn slurp(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<String> {
    std::thread::spawn(move || {
        let mut v = vec![];
        let _ = r.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    })
}

fn command(kind: Kind, args: &[String]) -> Command {
    let d = harness_dir();
    let mut c;
    match kind {
        Kind::Asan => {
            c = Command::new(d.join(ASAN_BIN));
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:symbolize=1");
        }
        Kind::Checked | Kind::Plain => {
            c = Command::new(d.join(if kind == Kind::Plain { "target/plain/sfsmon" } else { "target/release/sfsmon" }));
        }
        _ => {
            c = Command::new("cargo");
            let mut f = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-provenance-gc=200000".to_string();
            if kind != Kind::Miri {
                f += " -Zmiri-recursive-validation";
            }
            c.env("RUSTUP_TOOLCHAIN", NIGHTLY).env("MIRIFLAGS", f).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS");
            c.args(["miri", "run", "-q", "--offline", "--target-dir"]).arg(d.join("target/miri")).arg("--");
        }
    }
    c.current_dir(d).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}

fn spawn(kind: Kind, seed: u64, args: Vec<String>) -> Result<Kid, String> {
    use std::os::unix::process::CommandExt;
    let mut c = command(kind, &args);
    c.process_group(0);
    let mut child = c.spawn().map_err(|e| format!("{kind:?}: {e}"))?;
    let (o, e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    Ok(Kid { kind, seed, child, out: slurp(o), err: slurp(e) })
}

fn wait(mut k: Kid, end: Instant) -> (Kind, u64, Option<i32>, String, String) {
    let st = loop {
        match k.child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if Instant::now() > end => {
                unsafe { libc::kill(-(k.child.id() as i32), libc::SIGKILL) };
                let _ = k.child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    let (o, e) = (k.out.join().unwrap_or_default(), k.err.join().unwrap_or_default());
    use std::os::unix::process::ExitStatusExt;
    let rc = st.map(|s| s.code().unwrap_or_else(|| -s.signal().unwrap_or(0)));
    (k.kind, k.seed, rc, o, e)
}

/// the lines around the first proof
fn excerpt(e: &str) -> Option<String> {
    let lines: Vec<&str> = e.lines().collect();
    // exhaustion is not undefined behaviour
    let not = ["AddressSanitizer: stack-overflow", "AddressSanitizer: allocation-size", "AddressSanitizer: out-of-memory", "AddressSanitizer: requested allocation", "AddressSanitizer: calloc"];
    let i = lines.iter().position(|l| PROOF.iter().any(|p| l.contains(p)) && !not.iter().any(|n| l.contains(n)))?;
    Some(lines[i..(i + 30).min(lines.len())].iter().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n"))
}

/// the recorded defect: raw metadata records are written with their padding bytes, which were never initialised
fn is_padding(text: &str) -> bool {
    text.contains("constructing invalid value of type &[u8]") && text.contains("encountered uninitialized memory") && (text.contains("Metadata") || text.contains("metadata_provider"))
}
pub const PADDING: &str = "raw-metadata-padding";

pub fn listed(id: &str) -> bool {
    let f = harness_dir().join("../known_findings.txt");
    std::fs::read_to_string(f).unwrap_or_default().lines().any(|l| l.starts_with("KNOWN-FINDING: property=P16 ") && l.contains(id))
}

fn solo(kind: Kind, seed: u64, secs: u64) -> Vec<String> {
    let mut a: Vec<String> = vec!["solo".into(), "--seed".into(), seed.to_string(), "--secs".into(), secs.to_string()];
    if matches!(kind, Kind::Miri | Kind::MiriStrict) {
        a.push("--small".into());
    }
    if kind == Kind::MiriStrict {
        a.push("--transient".into());
    }
    a
}

/// runs children for `secs` seconds and adds what they show to `t`
pub fn run(o: &Opt, t: &mut Total, secs: u64) -> Value {
    let mut kids = vec![];
    let mut broken = vec![];
    let mut start = |k: Kind, seed: u64, a: Vec<String>| match spawn(k, seed, a) {
        Ok(k) => kids.push(k),
        Err(e) => broken.push(e),
    };
    for i in 0..4u64 {
        start(Kind::Asan, o.seed * 1000 + i, solo(Kind::Asan, o.seed * 1000 + i, secs));
    }
    for i in 0..4u64 {
        let k = if i == 3 { Kind::MiriStrict } else { Kind::Miri };
        start(k, o.seed * 1000 + 100 + i, solo(k, o.seed * 1000 + 100 + i, secs));
    }
    start(Kind::Probe, 0, vec!["probe".into()]);
    let end = Instant::now() + Duration::from_secs(secs * 2 + 240);
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign = 0u64;
    let mut known = false;
    for k in kids {
        let (kind, seed, rc, out, err) = wait(k, end);
        let name = match kind {
            Kind::Asan => "asan",
            Kind::Miri => "miri",
            Kind::MiriStrict => "miri_recursive_validation",
            Kind::Probe => "miri_probe",
            Kind::Checked | Kind::Plain => unreachable!(),
        };
        let mut add = |k: &str, n: u64| *sums.entry(format!("{name}_{k}")).or_default() += n;
        add("processes", 1);
        let mut last_begin = 0;
        for l in out.lines() {
            if kind == Kind::Probe {
                add("operations", l.starts_with("probe ") as u64);
                continue;
            }
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["case"].is_null() {
                continue;
            }
            last_begin = v["case"].as_u64().unwrap_or(0) + 1;
            add("histories", 1);
            add("operations", v["ops"].as_u64().unwrap_or(0));
            add("operations_succeeded", v["ok"].as_u64().unwrap_or(0));
            if let Some(d) = v["divergence"].as_str() {
                if v["cat"] == "Canary" {
                    let text = format!("{name}, seed {seed}: {d}");
                    t.violations.push((replay(o, kind, seed, last_begin - 1, vec![], &text), text));
                } else {
                    foreign += 1;
                    if t.foreign_samples.len() < 8 {
                        t.foreign_samples.push(format!("{name}: {d}"));
                    }
                }
            }
        }
        if let Some(x) = excerpt(&err) {
            if kind == Kind::Probe && is_padding(&x) && listed(PADDING) {
                known = true;
                continue;
            }
            let ops = if kind == Kind::Probe { vec![] } else { again(kind, seed, last_begin) };
            let text = format!("{name}, seed {seed}, case {last_begin}:\n{x}");
            t.violations.push((replay(o, kind, seed, last_begin, ops, &text), text));
        } else if rc != Some(0) {
            // no proof of anything: the end of the process belongs to other properties, or to the machine
            add("inconclusive", 1);
            let tail: Vec<&str> = err.lines().rev().take(4).collect();
            eprintln!("note: {name} child seed {seed} ended with {rc:?}: {tail:?}");
        }
    }
    if known {
        println!("KNOWN-FINDING: property=P16 {PADDING}: raw metadata records are written together with their uninitialised padding bytes");
    }
    json!({ "children": sums, "children_could_not_start": broken, "children_histories_stopped_by_another_property": foreign, "known_finding_seen": known })
}

/// the operations of the case that died, with the one that was running last
fn again(kind: Kind, seed: u64, case: u64) -> Vec<crate::ops::Op> {
    let mut a = solo(kind, seed, 200);
    a.extend(["--first".into(), case.to_string(), "--cases".into(), "1".into(), "--verbose".into()]);
    let Ok(k) = spawn(kind, seed, a) else { return vec![] };
    let (_, _, _, out, _) = wait(k, Instant::now() + Duration::from_secs(150));
    out.lines().filter_map(|l| l.strip_prefix("op ")).filter_map(|l| serde_json::from_str(l).ok()).collect()
}

fn replay(o: &Opt, kind: Kind, seed: u64, case: u64, ops: Vec<crate::ops::Op>, text: &str) -> Replay {
    let how = match kind {
        Kind::Probe => "sfsmon probe (under Miri with -Zmiri-recursive-validation)".to_string(),
        _ => format!("sfsmon {} --first {case} --cases 1 --verbose ({kind:?} build, see check.sh)", solo(kind, seed, 600).join(" ")),
    };
    Replay { property: o.prop.clone(), driver: format!("{kind:?}"), cfg: Cfg::v1(), ops, seed, detail: format!("{text}\nrun again: {how}") }
}

/// P22: the same histories in the build with assertions and overflow checks and in the one without
pub fn parity(o: &Opt, t: &mut Total, secs: u64) -> Value {
    let mut pairs = vec![];
    for i in 0..4u64 {
        let seed = o.seed * 1000 + 500 + i;
        let a = spawn(Kind::Checked, seed, solo(Kind::Checked, seed, secs));
        let b = spawn(Kind::Plain, seed, solo(Kind::Plain, seed, secs));
        if let (Ok(a), Ok(b)) = (a, b) {
            pairs.push((a, b));
        }
    }
    let end = Instant::now() + Duration::from_secs(secs * 2 + 120);
    let (mut same, mut ops, mut cut) = (0u64, 0u64, 0u64);
    for (a, b) in pairs {
        let (a, b) = (wait(a, end), wait(b, end));
        let parse = |s: &str| -> BTreeMap<u64, Value> {
            s.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter_map(|v| Some((v["case"].as_u64()?, v))).collect()
        };
        let (x, y) = (parse(&a.3), parse(&b.3));
        for (k, v) in &x {
            let Some(w) = y.get(k) else { continue };
            let differ = ["hash", "ops", "ok", "divergence"].iter().any(|f| v[*f] != w[*f]);
            if differ {
                let text = format!(
                    "history {k} of seed {} differs between the checked and the unchecked build: {} calls, {} succeed, {} / {} calls, {} succeed, {}",
                    a.1, v["ops"], v["ok"], v["divergence"], w["ops"], w["ok"], w["divergence"]
                );
                if t.violations.is_empty() {
                    let ops = again(Kind::Plain, a.1, *k);
                    t.violations.push((replay(o, Kind::Plain, a.1, *k, ops, &text), text));
                }
                break;
            }
            same += 1;
            ops += v["ops"].as_u64().unwrap_or(0);
        }
        for (kind, (_, seed, rc, out, err)) in [(Kind::Checked, &a), (Kind::Plain, &b)] {
            if *rc == Some(0) {
                continue;
            }
            cut += 1;
            let k = parse(out).len() as u64;
            // died: once more, alone
            let mut args = solo(kind, *seed, 100);
            args.extend(["--first".into(), k.to_string(), "--cases".into(), "1".into()]);
            let Ok(kid) = spawn(kind, *seed, args) else { continue };
            let (_, _, rc2, _, err2) = wait(kid, Instant::now() + Duration::from_secs(120));
            if let (Some(r), Some(r2)) = (*rc, rc2) {
                if r < 0 && r2 < 0 && r != -libc::SIGKILL && t.violations.is_empty() {
                    let text = format!("history {k} of seed {seed} ends the process ({kind:?} build) with signal {}: {}", -r2, err2.lines().chain(err.lines()).filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" / "));
                    let ops = again(kind, *seed, k);
                    t.violations.push((replay(o, kind, *seed, k, ops, &text), text));
                }
            }
        }
    }
    json!({ "histories_equal_in_checked_and_unchecked_build": same, "operations_in_them": ops, "children_cut_short": cut })
}
