//! Runs a check in a child process: when the child dies of a signal (abort, stack overflow, memory exhaustion), the case that
//! killed it is run again alone, and the verdict follows from that.
use crate::hist::Replay;
use crate::ops::Op;
use crate::real::Cfg;
use crate::run::{report_violation, write_evidence, Opt, Total};
use serde_json::json;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn limit_memory(c: &mut Command) {
    // allocations beyond this abort instead of exhausting the machine
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
}

fn inner(a: &[String], status: &Path, extra: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("check-inner").args(&a[2..]).arg("--status").arg(status).args(extra);
    if a[2] != "P16" {
        // AddressSanitizer reserves terabytes
        limit_memory(&mut c);
    }
    c
}

/// (signal, last operation, stderr)
fn alone(a: &[String], dir: &Path, k: u64) -> Option<(i32, Vec<Op>, String)> {
    let (out, err) = (dir.join("out"), dir.join("err"));
    let x: Vec<String> = ["--first", &k.to_string(), "--cases", "1", "--threads", "1", "--budget", "60", "--announce", "--evidence", "/dev/null"].iter().map(|s| s.to_string()).collect();
    // the first occurrence of an option counts
    let mut b: Vec<String> = a[..3].to_vec();
    b.extend(x);
    b.extend_from_slice(&a[3..]);
    let mut c = inner(&b, dir, &[]);
    c.stdout(std::fs::File::create(&out).ok()?).stderr(std::fs::File::create(&err).ok()?);
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > Duration::from_secs(150) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let sig = st.signal()?;
    let read = |p: &PathBuf| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let ops = read(&out).lines().filter_map(|l| l.strip_prefix("op ")).filter_map(|l| serde_json::from_str(l).ok()).collect();
    Some((sig, ops, read(&err)))
}

pub fn check(prop: &str, a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let dir = std::env::temp_dir().join(format!("sfsmon-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let t0 = Instant::now();
    let mut c = inner(a, &dir, &[]);
    c.stderr(Stdio::inherit());
    let st = c.status();
    let rc = match st {
        Ok(s) => match s.signal() {
            None => s.code().unwrap_or(2),
            Some(sig) => {
                let thorough = get("--tier").as_deref() == Some("thorough");
                let o = Opt {
                    prop: prop.to_string(),
                    thorough,
                    seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                    budget: Duration::ZERO,
                    evidence: get("--evidence").map(PathBuf::from).unwrap_or_else(|| format!("/verif/evidence/{prop}.json").into()),
                    replays: get("--replays").map(PathBuf::from).unwrap_or_else(|| "/verif/replays".into()),
                    threads: 1,
                    cases: 0,
                    first: 0,
                    status: None,
                };
                died(&o, a, &dir, sig, t0)
            }
        },
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

fn died(o: &Opt, a: &[String], dir: &Path, sig: i32, t0: Instant) -> i32 {
    let mut ks: Vec<u64> = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Some(k) = std::fs::read_to_string(e.path()).ok().and_then(|s| s.trim().parse().ok()) {
            ks.push(k);
        }
    }
    ks.sort();
    let mut text = format!("the process died of signal {sig}");
    for k in ks {
        let Some((sig, ops, err)) = alone(a, dir, k) else { continue };
        let why: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).take(6).collect();
        let last = ops.last().map(crate::engine::opstr).unwrap_or_default();
        text = format!("case {k} of the seed ends the process with signal {sig}; last call: {last}; {}", why.join(" / "));
        let ub = err.contains("unsafe precondition(s) violated") || sig == libc::SIGSEGV && !err.contains("overflowed its stack") || sig == libc::SIGBUS;
        let hit = match o.prop.as_str() {
            "P22" | "ANY" => sig != libc::SIGKILL,
            "P16" => ub,
            "P31" => err.contains("memory allocation of"),
            _ => false,
        };
        if hit {
            let r = Replay { property: o.prop.clone(), driver: "died".into(), cfg: Cfg::v1(), ops, seed: k, detail: text.clone() };
            report_violation(o, &r, &text);
            let t = Total { cases: 1, violations: vec![(r, text)], ..Default::default() };
            write_evidence(o, &t, t0.elapsed().as_secs_f64(), "interrupted: a case ended the process", json!({}));
            return 1;
        }
        break;
    }
    println!("INCONCLUSIVE: {text}");
    write_evidence(o, &Total::default(), t0.elapsed().as_secs_f64(), "interrupted by a call that ends the process; not attributable to this property", json!({}));
    0
}
