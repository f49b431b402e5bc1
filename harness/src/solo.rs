//! Single-threaded runs without watchers, for builds under a sanitizer or an interpreter: the parent process counts what they
//! print and judges how they end.
use crate::engine::{Div, Engine};
use crate::gen::{Gen, Profile};
use crate::hist::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::props;
use crate::mem::SMem;
use ic_stable_structures::memory_manager::MemoryManager;
use serde_json::json;
use std::io::Write;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub struct Solo {
    pub seed: u64,
    /// first case and number of cases
    pub first: u64,
    pub cases: u64,
    pub secs: u64,
    pub small: bool,
    /// in-memory storage only
    pub transient: bool,
    /// announce each operation before it runs (slow)
    pub verbose: bool,
}

/// small histories for the interpreter; directory operations cost a second each there
fn small_profile(r: &mut Rng) -> Profile {
    let data = [("write", 30), ("read", 26), ("seek", 3), ("size", 8), ("open", 6), ("mkdir", 1), ("remove", 3), ("close", 2), ("mount", 8), ("limit", 2), ("meta", 6), ("time", 3), ("list", 3), ("stat", 1), ("chunk", 1)];
    let mut p = Profile::base("interpreted-data").only(&data);
    if r.pct(25) {
        p = Profile::base("interpreted-tree").set("rec", 3).set("mount", 6).set("list", 6).set("meta", 6);
        p.max_objs = 6;
    }
    p.bulk = 0;
    p.reopen = 15;
    p.hi = 4;
    p.bogus = 4;
    p.audit_live = 0;
    p.audit_api = 0;
    p.audit_cold = 0;
    p.audit_struct = 0;
    p.max_objs = p.max_objs.min(8);
    p.max_write = *r.pick(&[40, 300, 5000]);
    p.span = 20_000;
    p.names = 4;
    p
}

/// a few fixed calls which touch every raw record of stable storage
pub fn probe() -> i32 {
    use crate::ops::*;
    exact_buffers(true);
    let mem = SMem::new();
    let mgr = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), 1));
    let mut real = Real::on_memory(&Cfg::v2(4), mem, Some(mgr)).expect("new file system");
    let open = |p: &str| Op::Open { parent: 3, path: p.into(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 5 };
    for op in [
        open("a"),
        Op::Write { fd: 4, tag: 7, len: 5000 },
        Op::SetSize { fd: 4, size: 100 },
        Op::Mount { path: "a".into(), mem: 0, policy: Policy::Explicit(100) },
        Op::PRead { fd: 4, lens: vec![10, 0, 5], off: 3 },
        Op::Unmount { path: "a".into() },
        Op::Reopen,
        open("a"),
        Op::Metadata { fd: 4 },
        Op::Read { fd: 4, len: 50 },
    ] {
        println!("probe {} -> {}", op.kind(), real.exec(&op).brief());
    }
    0
}

fn full_profile(r: &mut Rng) -> Profile {
    let list = ["P01", "P14", "P22", "P13", "P20", "P26", "P10", "P02"];
    let p = props::profiles(list[r.us(list.len())]);
    let mut p = r.pick(&p).clone();
    p.audit_struct = 0;
    p.audit_cold /= 4;
    p
}

/// like `run_random`, but without whole-state audits, and with one memory manager for the whole run
fn light(cfg: &Cfg, prof: &Profile, seed: u64, n: usize, end: Instant) -> (Option<Box<Div>>, Engine) {
    let mem = SMem::new();
    let mgr = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), 1));
    let mut e = match Real::on_memory(cfg, mem, Some(mgr)) {
        Ok(r) => Engine::with_real(r),
        Err(p) => return (Some(Engine::panic_div(p)), Engine::with_real(Real::dummy(cfg))),
    };
    let mut r = Rng::new(seed);
    let mut g = Gen::new(prof.clone(), cfg.chunk_bytes());
    for _ in 0..n {
        if Instant::now() > end {
            break;
        }
        let o = g.next(&mut r, &e.model);
        if let Err(d) = e.run(&o) {
            return (Some(d), e);
        }
    }
    (None, e)
}

pub fn run(s: &Solo) -> i32 {
    exact_buffers(true);
    null_buffers(true);
    let t0 = Instant::now();
    let mut k = s.first;
    while k < s.first + s.cases && t0.elapsed() < Duration::from_secs(s.secs) {
        let seed = mix(mix(s.seed ^ 0x501) ^ k.wrapping_mul(0x9E37));
        let mut r = Rng::new(seed);
        let mut cfg = props::random_cfg(&mut r, "P16");
        let (prof, n);
        if s.transient {
            cfg = Cfg::transient();
        }
        if s.small {
            if cfg.bucket != 1 {
                cfg.bucket = 1;
            }
            prof = small_profile(&mut r);
            n = r.range(100, 300) as usize;
        } else {
            prof = full_profile(&mut r);
            n = r.range(40, 300) as usize;
        }
        if s.verbose {
            println!("{}", json!({"begin": k, "seed": seed, "cfg": cfg.name()}));
            let _ = std::io::stdout().flush();
        }
        announce(s.verbose);
        let (d, e) = if s.small { light(&cfg, &prof, r.u64(), n, t0 + Duration::from_secs(s.secs)) } else { run_random(&cfg, &prof, r.u64(), n) };
        println!(
            "{}",
            json!({"case": k, "cfg": cfg.name(), "ops": e.stats.ops, "ok": e.stats.ok, "bytes": e.stats.bytes_compared, "hash": e.trace_hash, "secs": t0.elapsed().as_secs_f64(),
                   "by_kind": e.stats.by_kind.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
                   "cat": d.as_ref().map(|d| format!("{:?}", d.cat)), "divergence": d.as_ref().map(|d| describe(d))})
        );
        let _ = std::io::stdout().flush();
        k += 1;
    }
    0
}
