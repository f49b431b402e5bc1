//! Differential monitors: the same history executed twice under conditions that must not matter.
use crate::gen::{Gen, Profile};
use crate::hist::Replay;
use crate::engine::{opstr, Engine};
use crate::mem::SMem;
use crate::ops::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::{CaseOut, Opt};
use crate::special::{Arg, Driver};
use crate::{props, watch};
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;
use serde_json::json;
use std::collections::{BTreeSet, HashMap};
use std::time::{Duration, Instant};

pub const CONFIGS: Driver = Driver {
    name: "configs",
    f: configs,
    fixed: 0,
    weight: 1,
    rule: "configs: one case is one random history recorded on a random configuration and replayed call by call on the in-memory storage, on block-map files, on several chunk sizes and memory layouts and with the chunk type changed at random points; every result and the final tree, metadata, contents, descriptors and mounted memories are compared; non-trivial: more than 10 successful calls",
};
pub const SHARED: Driver = Driver {
    name: "shared",
    f: shared,
    fixed: 0,
    weight: 1,
    rule: "shared: one case runs two or three random histories interleaved on file systems living in one memory manager next to foreign memories, and compares each with the same history run alone; every memory outside the given ranges is compared byte for byte; non-trivial: more than 10 successful calls",
};
pub const NOISE: Driver = Driver {
    name: "noise",
    f: noise,
    fixed: 0,
    weight: 1,
    rule: "noise: one case is one random history executed plainly and with read-only calls inserted at random points (single calls, and storms large enough to overflow every cache); all results of the history and the final state are compared; non-trivial: more than 10 successful calls",
};
pub const SPLIT: Driver = Driver {
    name: "split",
    f: split,
    fixed: 0,
    weight: 1,
    rule: "split: one case is one random history executed as recorded and with every transfer replaced by an equivalent one (other buffer splits with empty buffers, plain instead of vectored, seek-transfer-seek instead of positioned); all results and the final state are compared; non-trivial: more than 10 successful calls",
};

pub const REPLICAS: Driver = Driver {
    name: "replicas",
    f: replicas,
    fixed: 0,
    weight: 1,
    rule: "replicas: one case is one random history executed on three replicas which differ in everything that must not matter (hash seeds, heap and stack contents, other file systems alive in the process); all results, object numbers included, and the final bytes of the stable memory and of the mounted memories are compared; non-trivial: more than 10 successful calls",
};

const WORK: u64 = 30_000_000;

/// object numbers are only compared up to renaming, the chunk type not at all
#[derive(Default)]
pub struct Norm {
    ab: HashMap<u64, u64>,
    ba: HashMap<u64, u64>,
}

impl Norm {
    fn node(&mut self, a: u64, b: u64) -> bool {
        *self.ab.entry(a).or_insert(b) == b && *self.ba.entry(b).or_insert(a) == a
    }
    fn item(&mut self, a: &ListItem, b: &ListItem) -> bool {
        a.index == b.index && a.name == b.name && a.etype == b.etype && self.node(a.node, b.node)
    }
    pub fn same(&mut self, a: &Out, b: &Out) -> bool {
        match (a, b) {
            (Out::Meta(x), Out::Meta(y)) => {
                self.node(x.node, y.node) && x.dir == y.dir && x.nlink == y.nlink && x.size == y.size && x.times == y.times && x.limit == y.limit
            }
            (Out::List(x), Out::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| self.item(p, q)),
            (Out::Item(x), Out::Item(y)) => self.item(x, y),
            (Out::Panic(_), Out::Panic(_)) => true,
            // a new file system is not the place to compare Reopen results: transient has nothing to reopen
            (Out::Nothing, Out::Unit) | (Out::Unit, Out::Nothing) => true,
            _ => a == b,
        }
    }
}

/// a history recorded with the model's guidance; `ok` filters the operations
pub fn record(cfg: &Cfg, prof: &Profile, seed: u64, n: usize, prelude: &[Op], ok: &dyn Fn(&Op) -> bool) -> Option<(Vec<Op>, Vec<Out>, Engine)> {
    let mut r = Rng::new(seed);
    let mut e = Engine::new(cfg).ok()?;
    e.outs = Some(vec![]);
    let mut g = Gen::new(prof.clone(), cfg.chunk_bytes());
    let n = if prelude.is_empty() && r.below(80) == 0 { g.crowd(&mut r, n) } else { n };
    let mut run = |e: &mut Engine, o: &Op| -> bool {
        watch::op(o);
        if let Err(d) = e.run(o) {
            crate::run::DIVERGED.with(|x| *x.borrow_mut() = Some((cfg.clone(), e.log.clone(), *d)));
            return false;
        }
        if matches!(e.log.last(), Some(Op::RemoveRec { .. })) && e.last_op_failed() {
            // which part was removed is free
            e.log.pop();
            e.outs.as_mut().unwrap().pop();
            return false;
        }
        true
    };
    let mut go = true;
    for o in prelude {
        go = go && run(&mut e, o);
    }
    for _ in 0..n {
        if !go {
            break;
        }
        let o = g.next(&mut r, &e.model);
        if o.is_audit() || !ok(&o) {
            continue;
        }
        go = run(&mut e, &o);
    }
    watch::idle();
    let mut outs = e.outs.take().unwrap();
    let log: Vec<Op> = e.log.iter().filter(|o| !o.is_audit()).cloned().collect();
    outs.truncate(log.len());
    Some((log, outs, e))
}

/// pages of files worth looking at
pub fn hints(e: &Engine) -> BTreeSet<u64> {
    let mut v = BTreeSet::new();
    for i in &e.model.inodes {
        for p in i.data.touched().take(300) {
            v.insert(p);
            v.insert(p + 1);
            v.insert(p.saturating_sub(1));
        }
    }
    for m in &e.model.mems {
        v.extend(m.data.touched().take(300));
    }
    while v.len() > 1500 {
        v.pop_first();
    }
    v
}

fn bytes_hash(b: &[u8]) -> u64 {
    let mut h = 0x1234u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(27);
    }
    mix(h ^ b.len() as u64)
}

/// everything observable at the end
pub fn dump(real: &mut Real, hints: &BTreeSet<u64>) -> Vec<(String, Out)> {
    let mut v: Vec<(String, Out)> = vec![];
    for fd in 0..48 {
        let st = real.exec(&Op::GetStat { fd });
        if st.is_ok() {
            v.push((format!("flags of descriptor {fd}"), st));
            v.push((format!("cursor of descriptor {fd}"), real.exec(&Op::Tell { fd })));
            v.push((format!("metadata of descriptor {fd}"), real.exec(&Op::Metadata { fd })));
        } else {
            v.push((format!("descriptor {fd}"), st));
        }
    }
    let mut fs = std::mem::replace(&mut real.fs, crate::engine::dummy_fs());
    let r = guard(|| {
        let mut v: Vec<(String, Out)> = vec![];
        let mut stack: Vec<(String, u64)> = vec![("".into(), fs.storage.root_node())];
        let mut seen = BTreeSet::new();
        while let Some((path, node)) = stack.pop() {
            if v.len() > 40_000 {
                break;
            }
            let m = match fs.storage.get_metadata(node) {
                Ok(m) => meta_out(&m),
                Err(e) => {
                    v.push((format!("metadata of {path}"), Out::Err(e as u32)));
                    continue;
                }
            };
            v.push((format!("metadata of {path:?}"), Out::Meta(m.clone())));
            let by_path = fs.open_metadata(fs.root_fd(), &path);
            v.push((format!("metadata of {path:?} by path"), by_path.map(|m| Out::Meta(meta_out(&m))).unwrap_or_else(|e| Out::Err(e as u32))));
            if !seen.insert(node) {
                continue;
            }
            if m.dir {
                let mut items = vec![];
                fs.storage.with_direntries(node, Some(0), &mut |i, e| {
                    items.push(ListItem { index: *i, name: e.name.bytes[..e.name.length as usize].to_vec(), node: e.node, etype: e.entry_type.map(|t| t.into()) });
                    items.len() < 100_000
                });
                for it in items.iter().rev() {
                    stack.push((format!("{path}/{}", String::from_utf8_lossy(&it.name)).trim_start_matches('/').to_string(), it.node));
                }
                v.push((format!("listing of {path:?}"), Out::List(items)));
                continue;
            }
            let mut ranges: Vec<(u64, u64)> = vec![];
            if m.size <= 256 * 1024 {
                ranges.push((0, m.size));
            } else {
                for p in hints.iter().copied().chain([0, (m.size - 1) / 4096, m.size / 8192]) {
                    if p * 4096 < m.size {
                        ranges.push((p * 4096, (p * 4096 + 4096).min(m.size)));
                    }
                }
            }
            let mut h = 0u64;
            let mut total = 0u64;
            let mut err = None;
            for (a, b) in ranges {
                let mut buf = vec![0xA5u8; (b - a) as usize + 2];
                match fs.storage.read(node, a, &mut buf) {
                    Ok(n) => {
                        total += n;
                        h = mix(h ^ bytes_hash(&buf));
                    }
                    Err(e) => err = Some(e as u32),
                }
            }
            v.push((format!("content of {path:?}"), match err {
                Some(e) => Out::Err(e),
                None => Out::Data(total, h.to_le_bytes().to_vec()),
            }));
        }
        v
    });
    real.fs = fs;
    match r {
        Ok(w) => v.extend(w),
        Err(p) => v.push(("the tree".into(), Out::Panic(p))),
    }
    for (k, m) in real.mems.iter().enumerate() {
        v.push((format!("memory {k}"), Out::Num(m.content_hash())));
    }
    v
}

/// run blindly until the first panic
fn blind(real: &mut Real, ops: &[Op]) -> Vec<Out> {
    real.work_limit = WORK;
    let mut v = vec![];
    for o in ops {
        watch::op(o);
        let x = real.exec(o);
        let p = matches!(x, Out::Panic(_));
        v.push(x);
        if p {
            break;
        }
    }
    watch::idle();
    v
}

fn panicked(o: &[Out]) -> Option<&str> {
    match o.last() {
        Some(Out::Panic(p)) => Some(p),
        _ => None,
    }
}

struct Seen {
    outs: Vec<Out>,
    dump: Vec<(String, Out)>,
}

fn observe(real: &mut Real, ops: &[Op], h: &BTreeSet<u64>) -> Seen {
    let outs = blind(real, ops);
    let dump = if panicked(&outs).is_some() { vec![] } else { dump(real, h) };
    watch::idle();
    Seen { outs, dump }
}

/// the first difference between two observations of one history
fn diff(ops: &[Op], a: &Seen, b: &Seen, c: &mut CaseOut) -> Option<String> {
    let mut n = Norm::default();
    for (i, (x, y)) in a.outs.iter().zip(&b.outs).enumerate() {
        if [x, y].iter().any(|o| matches!(o, Out::Panic(p) if is_work_panic(p))) {
            return None; // P22's business
        }
        c.count("results_compared", 1);
        if !n.same(x, y) {
            return Some(format!("call {} {}: {} here, {} there", i + 1, opstr(&ops[i]), x.brief(), y.brief()));
        }
    }
    if a.outs.len() != b.outs.len() || panicked(&a.outs).is_some() {
        return None; // both panicked
    }
    if a.dump.iter().chain(&b.dump).any(|x| matches!(&x.1, Out::Panic(p) if is_work_panic(p))) {
        return None;
    }
    for (x, y) in a.dump.iter().zip(&b.dump) {
        c.count("final_observations_compared", 1);
        if x.0 != y.0 || !n.same(&x.1, &y.1) {
            return Some(format!("in the end: {}: {} here, {}: {} there", x.0, x.1.brief(), y.0, y.1.brief()));
        }
    }
    if a.dump.len() != b.dump.len() {
        return Some(format!("in the end: {} observations here, {} there", a.dump.len(), b.dump.len()));
    }
    None
}

/// remove operations while the difference stays
fn minimise(ops: Vec<Op>, cap: Duration, bad: &mut dyn FnMut(&[Op]) -> bool) -> Vec<Op> {
    let t0 = Instant::now();
    let mut cur = ops;
    if !bad(&cur) {
        return cur;
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < cap {
            let mut x = cur.clone();
            x.drain(i..(i + chunk).min(cur.len()));
            if bad(&x) {
                cur = x;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if t0.elapsed() >= cap || (chunk == 1 && !changed) {
            return cur;
        }
        chunk = (chunk / 2).max(1);
    }
}

fn fail(o: &Opt, d: &str, cfg: &Cfg, ops: Vec<Op>, seed: u64, text: String, c: &mut CaseOut) {
    c.violation = Some((Replay { property: o.prop.clone(), driver: d.into(), cfg: cfg.clone(), ops, seed, detail: text.clone() }, text));
}

fn start(driver: &str, cfg: &Cfg, seed: u64, log: &[Op], outs: &[Out], e: &Engine) -> CaseOut {
    let mut h = 0;
    for o in outs {
        h = mix(h ^ bytes_hash(format!("{}", o.brief()).as_bytes()));
    }
    let mut c = CaseOut { hash: h, stats: e.stats.clone(), nontrivial: outs.iter().filter(|o| o.is_ok()).count() > 10, ..Default::default() };
    c.sample = Some(json!({
        "driver": driver, "configuration": cfg.name(), "seed": seed, "length": log.len(),
        "operations": log.iter().take(6).map(opstr).collect::<Vec<_>>(),
    }));
    c
}

fn length(r: &mut Rng) -> usize {
    (match r.below(12) {
        0 => r.range(300, 800),
        1..=4 => r.range(100, 300),
        _ => r.range(20, 100),
    }) as usize
}

fn quiet(mut p: Profile) -> Profile {
    p.audit_live = 0;
    p.audit_api = 0;
    p.audit_cold = 0;
    p.audit_struct = 0;
    p
}

fn twin_profiles() -> Vec<Profile> {
    let mut v = vec![Profile::base("general"), Profile::base("general")];
    for p in ["P01", "P02", "P05", "P09", "P10", "P12", "P13", "P14", "P20", "P22", "P23", "P27"] {
        v.extend(props::profiles(p).into_iter().take(1));
    }
    v.into_iter().map(quiet).collect()
}

// ---- P17

fn configs(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P17");
    watch::case(&cfg, seed, "configs");
    let prof = r.pick(&twin_profiles()).clone();
    let n = length(&mut r);
    let Some((log, outs, e)) = record(&cfg, &prof, r.u64(), n, &[], &|o| {
        !matches!(o, Op::Reopen | Op::SetChunkSize { .. } | Op::SetChunkType { .. })
    }) else {
        return (cfg, CaseOut::default());
    };
    let h = hints(&e);
    let mut c = start("configs", &cfg, seed, &log, &outs, &e);
    drop(e);
    let Ok(mut base) = Real::new(&cfg) else { return (cfg, c) };
    let base_seen = observe(&mut base, &log, &h);
    let mut variants: Vec<Cfg> = vec![Cfg::transient(), Cfg::v1()];
    let mut other = Cfg::v2(*r.pick(&[4, 8, 16, 32, 64]));
    other.bucket = *r.pick(&[1, 3, 128, 0]);
    other.start = *r.pick(&[0, 10, 57, 244]);
    variants.push(other.clone());
    variants.push(Cfg::v2(*r.pick(&[0, 4, 64])));
    // the chunk type for new files changes in mid-history
    let switch = variants.len();
    variants.push(other);
    for (k, v) in variants.into_iter().enumerate() {
        if v == cfg && k != switch {
            continue;
        }
        let switches: Vec<usize> = if k == switch { (0..r.range(1, 6)).map(|_| r.us(log.len() + 1)).collect() } else { vec![] };
        let name = if k == switch { format!("{} with changing chunk types", v.name()) } else { v.name() };
        let run = |ops: &[Op]| -> Option<Seen> {
            let mut real = Real::new(&v).ok()?;
            if switches.is_empty() {
                return Some(observe(&mut real, ops, &h));
            }
            real.work_limit = WORK;
            let mut outs = vec![];
            let mut v1 = v.v1;
            for (i, o) in ops.iter().enumerate() {
                if switches.contains(&i) {
                    v1 = !v1;
                    real.exec(&Op::SetChunkType { v1 });
                }
                watch::op(o);
                let x = real.exec(o);
                let p = matches!(x, Out::Panic(_));
                outs.push(x);
                if p {
                    break;
                }
            }
            let d = if panicked(&outs).is_some() { vec![] } else { dump(&mut real, &h) };
            watch::idle();
            Some(Seen { outs, dump: d })
        };
        let Some(seen) = run(&log) else { continue };
        c.stats.ops += seen.outs.len() as u64;
        c.count("variants_run", 1);
        if let Some(d) = diff(&log, &base_seen, &seen, &mut c) {
            let ops = minimise(log.clone(), Duration::from_secs(6), &mut |x| {
                let Ok(mut b) = Real::new(&cfg) else { return false };
                let s = observe(&mut b, x, &h);
                run(x).is_some_and(|y| diff(x, &s, &y, &mut CaseOut::default()).is_some())
            });
            let text = format!("the same history gives different results on {} (here) and {name} (there): {d}", cfg.name());
            fail(o, "configs", &cfg, ops, seed, text, &mut c);
            break;
        }
    }
    (cfg, c)
}

// ---- P18

fn shared(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    if r.pct(12) {
        return own_manager(o, seed, &mut r);
    }
    let count = if r.pct(40) { 3 } else { 2 };
    let bucket = *r.pick(&[1u16, 1, 2, 8, 128]);
    // disjoint ranges, often touching each other; some longer than needed
    let mut starts: Vec<(u8, u8)> = vec![];
    let mut at = *r.pick(&[0u64, 0, 1, 5, 10, 100, 200, 214]);
    for k in 0..count {
        let len = if r.pct(25) { r.range(11, 14) } else { 10 };
        let room = 254 - (count - k - 1) * 10;
        if at + len > room {
            break;
        }
        starts.push((at as u8, (at + len) as u8));
        at += len + if r.pct(60) { 0 } else { r.range(1, 4) };
    }
    if r.pct(50) {
        // the order of creation is not the order of positions
        starts.reverse();
    }
    let base = props::random_cfg(&mut r, "P12");
    watch::case(&base, seed, "shared");
    let mut cfgs = vec![];
    for (s, _) in &starts {
        let mut c = props::random_cfg(&mut r, "P12");
        c.bucket = bucket;
        c.start = *s;
        cfgs.push(c);
    }
    let first = cfgs.first().cloned().unwrap_or(base);
    // solo runs
    let mut c = CaseOut::default();
    let mut logs = vec![];
    for cfg in &cfgs {
        let prof = r.pick(&twin_profiles()).clone();
        let n = length(&mut r).min(250);
        let prof = Profile { reopen: 15, ..prof };
        let Some((log, outs, e)) = record(cfg, &prof, r.u64(), n, &[], &|_| true) else { return (first, c) };
        let h = hints(&e);
        let s = start("shared", cfg, seed, &log, &outs, &e);
        c.hash = mix(c.hash ^ s.hash);
        c.nontrivial |= s.nontrivial;
        c.stats.add(&s.stats);
        c.sample = s.sample;
        drop(e);
        // alone, in another range of another layout
        let mut alone = cfg.clone();
        if r.pct(60) {
            alone.start = *r.pick(&[0, 33, 120, 244]);
            alone.bucket = *r.pick(&[1, 4, 128]);
        }
        let Ok(mut real) = Real::new(&alone) else { return (first, c) };
        let seen = observe(&mut real, &log, &h);
        if panicked(&seen.outs).is_some() {
            return (first, c);
        }
        logs.push((log, h, seen));
    }
    // together
    let mem = SMem::new();
    let mgr = std::rc::Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), bucket));
    let inside = |id: u8| starts.iter().any(|(a, b)| id >= *a && id < *b);
    let mut want: Vec<(u8, u64, u64)> = vec![];
    let style = r.below(4);
    let hash_of = |id: u8| -> (u64, u64) {
        let m = mgr.get(MemoryId::new(id));
        let n = m.size();
        let mut buf = vec![0u8; 4096];
        let mut h = 0;
        for p in 0..n * 16 {
            m.read(p * 4096, &mut buf);
            h = mix(h ^ bytes_hash(&buf));
        }
        (n, h)
    };
    for id in 0..255u8 {
        if inside(id) {
            continue;
        }
        let near = starts.iter().any(|(a, b)| (id as i32 - *a as i32 + 14) >= 0 && (id as i32) < *b as i32 + 14);
        let fill_it = match style {
            0 => false,
            1 => near,
            _ => r.pct(if near { 50 } else { 3 }),
        };
        if fill_it {
            let m = mgr.get(MemoryId::new(id));
            m.grow(r.range(1, 2));
            match r.below(3) {
                // looks like a stable structure of the file system
                0 => {
                    let src = &logs[r.us(logs.len())];
                    let _ = src;
                    m.write(0, b"ALO2");
                    m.write(8, &16384u64.to_le_bytes());
                    m.write(16, &3u64.to_le_bytes());
                    m.write(24, &163840u64.to_le_bytes());
                    m.write(128, &0u64.to_le_bytes());
                }
                1 => {
                    m.write(0, b"BTR\x01");
                    m.write(4, &fill(id as u32 + 1, 0, 2000));
                }
                _ => m.write(0, &fill(id as u32 + 1, 0, 60_000)),
            }
        }
        let (n, h) = hash_of(id);
        want.push((id, n, h));
    }
    let mut reals = vec![];
    for cfg in &cfgs {
        match Real::on_memory(cfg, mem.clone(), Some(mgr.clone())) {
            Ok(mut x) => {
                x.work_limit = WORK;
                reals.push(x);
            }
            Err(p) => {
                let text = format!("a file system cannot be created at index {} of a shared manager: {p}", cfg.start);
                fail(o, "shared", cfg, vec![], seed, text, &mut c);
                return (first, c);
            }
        }
    }
    // a range that is too small is refused, it never runs into the memories behind it
    for _ in 0..2 {
        let n = r.below(10) as u8;
        let at = r.below(254 - n as u64) as u8;
        c.count("small_ranges_refused", 1);
        if guard(|| stable_fs::storage::stable::StableStorage::new_with_memory_manager(&mgr, at..at + n)).is_ok() {
            let text = format!("a file system can be created in the range {at}..{} of only {n} memories", at + n);
            fail(o, "shared", &first, vec![], seed, text, &mut c);
            return (first, c);
        }
    }
    let mut pos = vec![0usize; reals.len()];
    let mut outs: Vec<Vec<Out>> = vec![vec![]; reals.len()];
    let burst = *r.pick(&[1u64, 1, 5, 40, 1000]);
    loop {
        let live: Vec<usize> = (0..reals.len()).filter(|k| pos[*k] < logs[*k].0.len() && panicked(&outs[*k]).is_none()).collect();
        if live.is_empty() {
            break;
        }
        let k = *r.pick(&live);
        for _ in 0..r.range(1, burst) {
            if pos[k] >= logs[k].0.len() {
                break;
            }
            watch::op(&logs[k].0[pos[k]]);
            let x = reals[k].exec(&logs[k].0[pos[k]]);
            pos[k] += 1;
            let p = matches!(x, Out::Panic(_));
            outs[k].push(x);
            if p {
                break;
            }
        }
    }
    c.stats.ops += pos.iter().sum::<usize>() as u64;
    c.count("file_systems_side_by_side", reals.len() as u64);
    watch::idle();
    for (k, real) in reals.iter_mut().enumerate() {
        let o1 = std::mem::take(&mut outs[k]);
        let d = if panicked(&o1).is_some() { vec![] } else { dump(real, &logs[k].1) };
        let seen = Seen { outs: o1, dump: d };
        if let Some(d) = diff(&logs[k].0, &logs[k].2, &seen, &mut c) {
            let text = format!("file system {k} at {:?} behaves differently alone (here) and next to {} others (there): {d}", starts[k], starts.len() - 1);
            fail(o, "shared", &cfgs[k], logs[k].0.clone(), seed, text, &mut c);
            return (first, c);
        }
    }
    for (id, n, h) in &want {
        let (n2, h2) = hash_of(*id);
        c.count("foreign_memories_compared", 1);
        if n2 != *n || h2 != *h {
            let text = format!("memory {id} outside of the ranges {starts:?} changed: {n} pages before, {n2} after");
            fail(o, "shared", &first, logs[0].0.clone(), seed, text, &mut c);
            return (first, c);
        }
    }
    (first, c)
}

/// `StableStorage::new` on a memory which already holds other things in the default layout
fn own_manager(o: &Opt, seed: u64, r: &mut Rng) -> (Cfg, CaseOut) {
    let mut cfg = props::random_cfg(r, "P12");
    cfg.bucket = 0;
    watch::case(&cfg, seed, "own manager");
    let prof = r.pick(&twin_profiles()).clone();
    let n = length(r).min(200);
    let Some((log, outs, e)) = record(&cfg, &prof, r.u64(), n, &[], &|_| true) else { return (cfg, CaseOut::default()) };
    let h = hints(&e);
    let mut c = start("shared", &cfg, seed, &log, &outs, &e);
    let Ok(mut solo) = Real::new(&cfg) else { return (cfg, c) };
    let a = observe(&mut solo, &log, &h);
    let mem = SMem::new();
    let ids: Vec<u8> = vec![0, 1, 7, 200, 228, 239, 240, 254];
    {
        let mgr = MemoryManager::init(mem.clone());
        for id in &ids {
            let m = mgr.get(MemoryId::new(*id));
            if id % 2 == 0 {
                m.grow(1);
                m.write(0, &fill(*id as u32 + 1, 0, 60_000));
            }
        }
    }
    // the memory is not fresh: the chunk size is set as on a fresh one
    let Ok(mut fs) = open_fs(&cfg, &mem, None) else { return (cfg, c) };
    if cfg.kb != 0 {
        let _ = fs.storage.set_chunk_size(chunk_size(cfg.kb));
    }
    let mut real = Real::dummy(&cfg);
    real.fs = fs;
    real.mem = mem.clone();
    let b = observe(&mut real, &log, &h);
    if let Some(d) = diff(&log, &a, &b, &mut c) {
        let text = format!("StableStorage::new behaves differently on an empty memory (here) and on one with other contents (there): {d}");
        fail(o, "shared", &cfg, log, seed, text, &mut c);
        return (cfg, c);
    }
    if panicked(&b.outs).is_some() {
        return (cfg, c);
    }
    drop(real);
    let mgr = MemoryManager::init(mem.snapshot());
    for id in 0..255u8 {
        if (229..239).contains(&id) {
            continue;
        }
        let m = mgr.get(MemoryId::new(id));
        let n = if ids.contains(&id) && id % 2 == 0 { 1 } else { 0 };
        let mut ok = m.size() == n;
        if ok && n == 1 {
            let mut buf = vec![0u8; 60_000];
            m.read(0, &mut buf);
            ok = buf == fill(id as u32 + 1, 0, 60_000);
        }
        c.count("foreign_memories_compared", 1);
        if !ok {
            let text = format!("memory {id} outside of the range 229..239 changed");
            fail(o, "shared", &cfg, log, seed, text, &mut c);
            return (cfg, c);
        }
    }
    (cfg, c)
}

// ---- P24

/// strings that occur as paths
fn paths_of(ops: &[Op]) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for o in ops {
        use Op::*;
        match o {
            Open { path, .. } | CreateOpenDir { path, .. } | Mkdir { path, .. } | OpenMeta { path, .. } | RemoveFile { path, .. } | RemoveDir { path, .. }
            | RemoveRec { path, .. } | Mount { path, .. } => {
                v.insert(path.clone());
            }
            Rename { opath, npath, .. } | Link { opath, npath, .. } => {
                v.insert(opath.clone());
                v.insert(npath.clone());
            }
            _ => {}
        }
    }
    v.into_iter().filter(|p| p.len() < 400).collect()
}

/// the lookups which these calls begin with
fn lookups(ops: &[Op]) -> Vec<(u32, String)> {
    let mut v = vec![];
    for o in ops {
        use Op::*;
        match o {
            Open { parent, path, .. } | CreateOpenDir { parent, path, .. } | Mkdir { parent, path, .. } | OpenMeta { parent, path } | RemoveFile { parent, path }
            | RemoveDir { parent, path } | RemoveRec { parent, path } => v.push((*parent, path.clone())),
            Rename { ofd, opath, nfd, npath } | Link { ofd, opath, nfd, npath } => {
                v.push((*ofd, opath.clone()));
                v.push((*nfd, npath.clone()));
            }
            Mount { path, .. } | Unmount { path } | InitMem { path } | StoreMem { path } => v.push((3, path.clone())),
            _ => {}
        }
    }
    v
}

/// a read of what a later call reads
fn ahead(r: &mut Rng, ops: &[Op]) -> Option<Op> {
    let v = lookups(ops);
    let w: Vec<&Op> = ops.iter().filter(|o| matches!(o, Op::PRead { .. } | Op::PWrite { .. } | Op::List { .. } | Op::Metadata { .. })).collect();
    if !w.is_empty() && (v.is_empty() || r.pct(30)) {
        return Some(match r.pick(&w) {
            Op::PWrite { fd, lens, off, .. } => Op::PRead { fd: *fd, lens: lens.clone(), off: *off },
            o => (*o).clone(),
        });
    }
    if v.is_empty() {
        return None;
    }
    let (parent, path) = r.pick(&v).clone();
    Some(Op::OpenMeta { parent, path })
}

fn noise_op(r: &mut Rng, paths: &[String], fds: &[u32]) -> Vec<Op> {
    let dirfd = |r: &mut Rng| if r.pct(60) || fds.is_empty() { 3 } else { *r.pick(fds) };
    let fd = |r: &mut Rng| if fds.is_empty() { 3 } else { *r.pick(fds) };
    let path = |r: &mut Rng| {
        if paths.is_empty() || r.pct(10) {
            return format!("nope{}", r.below(300));
        }
        let p = r.pick(paths).clone();
        match r.below(12) {
            0 => format!("{p}/x"),
            1 => format!("./{p}/"),
            2 => p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or(p),
            3 => p.rsplit('/').next().unwrap_or("").to_string(),
            _ => p,
        }
    };
    match r.below(20) {
        0..=5 => vec![Op::OpenMeta { parent: dirfd(r), path: path(r) }],
        6..=9 => {
            let flags = if r.pct(15) { DIRECTORY } else { 0 };
            let rights = if r.pct(50) { ALL_RIGHTS } else { R_READ };
            let fdflags = if r.pct(20) { F_APPEND } else { 0 };
            let n = r.range(1, 3);
            let mut v = vec![];
            for _ in 0..n {
                v.push(Op::Open { parent: dirfd(r), path: path(r), flags, fdflags, rights, ctime: r.below(1000) });
            }
            v
        }
        10 => vec![Op::GetStat { fd: fd(r) }, Op::Tell { fd: fd(r) }],
        11 => vec![Op::Metadata { fd: fd(r) }],
        12 | 13 => vec![Op::List { fd: dirfd(r), start: if r.pct(50) { None } else { Some(r.below(30) as u32) }, stop: if r.pct(60) { u32::MAX } else { r.below(6) as u32 } }],
        14 => vec![Op::DirEntry { fd: dirfd(r), index: r.below(20) as u32 }],
        15 => vec![Op::Flush { fd: fd(r) }, Op::Advice { fd: fd(r) }],
        _ => {
            let off = match r.below(5) {
                0 => 0,
                1 => r.below(200_000),
                2 => r.below(60) * 4096,
                3 => r.below(20) * 65536 + r.below(3),
                _ => r.u64() >> r.below(64),
            };
            vec![Op::PRead { fd: fd(r), lens: (0..r.range(1, 3)).map(|_| r.below(30_000) as u32).collect(), off }]
        }
    }
}

/// overflow a cache
fn storm(r: &mut Rng, paths: &[String], fds: &[u32], kind: u64) -> Vec<Op> {
    let mut v = vec![];
    match kind {
        // names
        0 => {
            for i in 0..r.range(100, 260) {
                v.push(Op::OpenMeta { parent: 3, path: if r.pct(30) && !paths.is_empty() { r.pick(paths).clone() } else { format!("miss{i}") } });
            }
        }
        // metadata of many objects
        1 => {
            for i in 0..1150 {
                v.push(Op::OpenMeta { parent: 3, path: format!("many{}/m{}", i / 96, i % 96) });
            }
        }
        // chunk pointers
        _ => {
            for k in 0..(10_300 * 4096 / (256 * 1024) + 2) {
                v.push(Op::PRead { fd: *fds.iter().min().unwrap_or(&4), lens: vec![256 * 1024], off: k * 256 * 1024 });
            }
        }
    }
    v
}

fn noise(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P24");
    watch::case(&cfg, seed, "noise");
    let prof = r.pick(&twin_profiles()).clone();
    let n = length(&mut r);
    // something large to look at
    let kind = if r.pct(10) { 1 + r.below(2) } else { 0 };
    let prelude = match kind {
        1 => (0..12)
            .flat_map(|k| [Op::Mkdir { parent: 3, path: format!("many{k}"), ctime: 1 }, Op::MCreate { parent: 3, prefix: format!("many{k}/m"), from: 0, n: 96, kind: 0, len: 0, tag: 0 }])
            .collect(),
        2 => vec![
            Op::Open { parent: 3, path: "big".into(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 },
            Op::SetSize { fd: LASTFD, size: 60 << 20 },
            Op::MStride { fd: LASTFD, start: 1000, step: 16384, n: 300, len: 30, tag: 7777 },
        ],
        _ => vec![],
    };
    let Some((log, outs, e)) = record(&cfg, &prof, r.u64(), n.min(if kind > 0 { 120 } else { 800 }), &prelude, &|_| true) else {
        return (cfg, CaseOut::default());
    };
    let h = hints(&e);
    let mut c = start("noise", &cfg, seed, &log, &outs, &e);
    drop(e);
    let paths = paths_of(&log);
    let nseed = r.u64();
    // long histories are diluted
    let long = (log.len() as u64).max(800);
    let density = *r.pick(&[100u64, 300, 600, 900]) * 800 / long;
    let storms = if kind == 0 { 1200 } else { 3000 } * 800 / long;
    let run = |ops: &[Op], with: bool, c: &mut CaseOut| -> Option<Seen> {
        let mut real = Real::new(&cfg).ok()?;
        real.work_limit = WORK;
        let mut outs: Vec<Out> = vec![];
        let mut fds: Vec<u32> = vec![3];
        for (i, op) in ops.iter().enumerate() {
            if with {
                // the noise before a call depends on the call's position only
                let mut q = Rng::new(mix(nseed ^ (ops.len() - i) as u64));
                let mut list = vec![];
                if q.below(1000) < density {
                    for _ in 0..q.range(1, 5) {
                        match ahead(&mut q, &ops[i..(i + 60).min(ops.len())]) {
                            Some(x) if q.pct(50) => list.push(x),
                            _ => list.extend(noise_op(&mut q, &paths, &fds)),
                        }
                    }
                }
                if i > prelude.len() && q.below(100_000) < storms {
                    let kind = if q.pct(50) { 0 } else { kind };
                    list.extend(storm(&mut q, &paths, &fds, kind));
                }
                let mut opened = vec![];
                for x in list {
                    watch::op(&x);
                    let y = real.exec(&x);
                    c.count("read_only_calls_inserted", 1);
                    if let Out::Panic(_) = y {
                        return None; // P22's business
                    }
                    if let (Op::Open { .. }, Out::Fd(f)) = (&x, &y) {
                        opened.push(*f);
                        if q.pct(60) {
                            real.exec(&Op::PRead { fd: *f, lens: vec![q.below(20_000) as u32], off: q.below(100_000) });
                        }
                        if q.pct(30) {
                            real.exec(&Op::List { fd: *f, start: None, stop: u32::MAX });
                        }
                    }
                }
                while let Some(f) = opened.pop() {
                    real.exec(&Op::Close { fd: f });
                }
            }
            watch::op(op);
            let x = real.exec(op);
            let p = matches!(x, Out::Panic(_));
            if let Out::Fd(f) = x {
                fds.push(f);
                if fds.len() > 12 {
                    fds.remove(1);
                }
            }
            outs.push(x);
            if p {
                break;
            }
        }
        watch::idle();
        let d = if panicked(&outs).is_some() { vec![] } else { dump(&mut real, &h) };
        Some(Seen { outs, dump: d })
    };
    let Some(x) = run(&log, false, &mut c) else { return (cfg, c) };
    let Some(y) = run(&log, true, &mut c) else { return (cfg, c) };
    c.stats.ops += 2 * log.len() as u64;
    if let Some(d) = diff(&log, &x, &y, &mut c) {
        let ops = minimise(log.clone(), Duration::from_secs(6), &mut |ops| {
            let mut c = CaseOut::default();
            match (run(ops, false, &mut c), run(ops, true, &mut c)) {
                (Some(x), Some(y)) => diff(ops, &x, &y, &mut c).is_some(),
                _ => false,
            }
        });
        let text = format!("a history gives different results plain (here) and with read-only calls inserted (there): {d}");
        fail(o, "noise", &cfg, ops, seed, text, &mut c);
    }
    (cfg, c)
}

// ---- P26

fn split_lens(r: &mut Rng, total: u32) -> Vec<u32> {
    if r.pct(10) {
        return vec![total];
    }
    let mut v = vec![];
    if r.below(60) == 0 {
        // very many buffers
        let most = *r.pick(&[2u64, 2, 8, 60]);
        let n = *r.pick(&[1024u32, 1025, 1400, 3000]);
        let mut left = total;
        for _ in 0..n {
            let l = (r.below(most) as u32).min(left);
            v.push(l);
            left -= l;
        }
        v.push(left);
        return v;
    }
    let mut left = total;
    let k = r.range(1, 6);
    for _ in 0..k {
        if r.pct(25) {
            v.push(0);
        }
        let n = match r.below(4) {
            0 => r.below(left as u64 + 1) as u32,
            1 => left.min(1),
            2 => left.min(4096),
            _ => left / 2,
        };
        v.push(n);
        left -= n;
    }
    if left > 0 {
        v.push(left);
    }
    if r.pct(25) {
        v.push(0);
    }
    if total == 0 && r.pct(30) {
        v.clear();
    }
    v
}

/// an equivalent way of doing a transfer
fn other_way(real: &mut Real, r: &mut Rng, op: &Op) -> Out {
    match op {
        Op::Read { fd, len } => real.exec(&Op::ReadVec { fd: *fd, lens: split_lens(r, *len) }),
        Op::Write { fd, tag, len } => real.exec(&Op::WriteVec { fd: *fd, tag: *tag, lens: split_lens(r, *len) }),
        Op::ReadVec { fd, lens } => {
            let t = lens.iter().sum();
            if r.pct(60) {
                real.exec(&Op::Read { fd: *fd, len: t })
            } else {
                real.exec(&Op::ReadVec { fd: *fd, lens: split_lens(r, t) })
            }
        }
        Op::WriteVec { fd, tag, lens } => {
            let t = lens.iter().sum();
            if r.pct(60) {
                real.exec(&Op::Write { fd: *fd, tag: *tag, len: t })
            } else {
                real.exec(&Op::WriteVec { fd: *fd, tag: *tag, lens: split_lens(r, t) })
            }
        }
        Op::PRead { fd, lens, off } | Op::PWrite { fd, lens, off, .. } => {
            let t: u32 = lens.iter().sum();
            let w = if let Op::PWrite { tag, .. } = op { Some(*tag) } else { None };
            let pos = |real: &mut Real, lens: Vec<u32>| match w {
                Some(tag) => real.exec(&Op::PWrite { fd: *fd, tag, lens, off: *off }),
                None => real.exec(&Op::PRead { fd: *fd, lens, off: *off }),
            };
            if r.pct(40) {
                let l = split_lens(r, t);
                return pos(real, l);
            }
            // seek, transfer, seek back
            let Out::Num(old) = real.exec(&Op::Tell { fd: *fd }) else { return pos(real, lens.clone()) };
            if *off > i64::MAX as u64 || old > i64::MAX as u64 || real.exec(&Op::Seek { fd: *fd, delta: *off as i64, whence: 0 }) != Out::Num(*off) {
                return pos(real, lens.clone());
            }
            let x = match (w, r.pct(50)) {
                (Some(tag), true) => real.exec(&Op::Write { fd: *fd, tag, len: t }),
                (Some(tag), false) => real.exec(&Op::WriteVec { fd: *fd, tag, lens: split_lens(r, t) }),
                (None, true) => real.exec(&Op::Read { fd: *fd, len: t }),
                (None, false) => real.exec(&Op::ReadVec { fd: *fd, lens: split_lens(r, t) }),
            };
            real.exec(&Op::Seek { fd: *fd, delta: old as i64, whence: 0 });
            x
        }
        _ => real.exec(op),
    }
}

fn split(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P26");
    watch::case(&cfg, seed, "split");
    let mut p = Profile::base("transfers").only(&[("write", 34), ("read", 30), ("seek", 10), ("open", 10), ("stat", 4), ("size", 6), ("close", 3), ("limit", 3), ("mount", 6), ("fd", 1)]);
    p.max_objs = 8;
    p.hi = *r.pick(&[1, 6, 25]);
    if r.pct(20) {
        p.span = 1_500_000;
        p.max_write = 400_000;
    }
    let n = length(&mut r);
    let Some((log, outs, e)) = record(&cfg, &quiet(p), r.u64(), n, &[], &|_| true) else { return (cfg, CaseOut::default()) };
    let h = hints(&e);
    let mut c = start("split", &cfg, seed, &log, &outs, &e);
    drop(e);
    let sseed = r.u64();
    let plain = |ops: &[Op]| Real::new(&cfg).ok().map(|mut x| observe(&mut x, ops, &h));
    let varied = |ops: &[Op], base: &[Out], c: &mut CaseOut| -> Option<Seen> {
        let mut real = Real::new(&cfg).ok()?;
        real.work_limit = WORK;
        let mut outs = vec![];
        for (i, op) in ops.iter().enumerate() {
            watch::op(op);
            let mut q = Rng::new(mix(sseed ^ (ops.len() - i) as u64));
            // a write stopped by a limit may keep a prefix of its buffers: the split matters then
            let writes = matches!(op, Op::Write { .. } | Op::WriteVec { .. } | Op::PWrite { .. });
            let x = if writes && !base.get(i).is_some_and(|o| o.is_ok()) {
                real.exec(op)
            } else {
                c.count("transfers_rewritten", 1);
                other_way(&mut real, &mut q, op)
            };
            let p = matches!(x, Out::Panic(_));
            outs.push(x);
            if p {
                break;
            }
        }
        watch::idle();
        let d = if panicked(&outs).is_some() { vec![] } else { dump(&mut real, &h) };
        Some(Seen { outs, dump: d })
    };
    let Some(x) = plain(&log) else { return (cfg, c) };
    let Some(y) = varied(&log, &x.outs, &mut c) else { return (cfg, c) };
    c.stats.ops += 2 * log.len() as u64;
    if let Some(d) = diff(&log, &x, &y, &mut c) {
        let ops = minimise(log.clone(), Duration::from_secs(6), &mut |ops| {
            let Some(x) = plain(ops) else { return false };
            let mut c = CaseOut::default();
            varied(ops, &x.outs, &mut c).is_some_and(|y| diff(ops, &x, &y, &mut c).is_some())
        });
        let text = format!("a history gives different results as recorded (here) and with its transfers split or positioned differently (there): {d}");
        fail(o, "split", &cfg, ops, seed, text, &mut c);
    }
    (cfg, c)
}

// ---- P30

/// where a raw metadata record at the start of a chunk holds no information (padding, payload of an absent option)
fn padding() -> Vec<bool> {
    use stable_fs::storage::types::Metadata;
    use std::mem::{offset_of, size_of};
    let mut v = vec![true; size_of::<Metadata>()];
    let mut field = |at: usize, n: usize| v[at..at + n].fill(false);
    field(offset_of!(Metadata, node), 8);
    field(offset_of!(Metadata, file_type), 1);
    field(offset_of!(Metadata, link_count), 8);
    field(offset_of!(Metadata, size), 8);
    field(offset_of!(Metadata, times), 24);
    v
}

/// the first difference between two stable memories
fn memory_diff(cfg: &Cfg, a: &SMem, b: &SMem, c: &mut CaseOut) -> Option<String> {
    if a.size() != b.size() {
        return Some(format!("the stable memory has {} pages here, {} there", a.size(), b.size()));
    }
    if cfg.transient || a.size() == 0 {
        return None;
    }
    // the memory manager's own pages
    let (mut x, mut y) = (vec![0u8; 65536], vec![0u8; 65536]);
    a.peek(0, &mut x);
    b.peek(0, &mut y);
    if let Some(p) = (0..x.len()).find(|p| x[*p] != y[*p]) {
        return Some(format!("byte {p} of the memory manager's page: {} here, {} there", x[p], y[p]));
    }
    let (ra, rb) = (crate::structure::Raw::open(cfg, a), crate::structure::Raw::open(cfg, b));
    let cs = ra.word(1).max(1);
    let pad = padding();
    for k in 0..10u8 {
        let (m, n) = (ra.vm(k), rb.vm(k));
        if m.size() != n.size() {
            return Some(format!("memory {k} has {} pages here, {} there", m.size(), n.size()));
        }
        for p in 0..m.size() {
            m.read(p * 65536, &mut x);
            n.read(p * 65536, &mut y);
            c.count("stable_memory_pages_compared", 1);
            if x == y {
                continue;
            }
            for i in 0..65536usize {
                let at = p * 65536 + i as u64;
                if x[i] != y[i] && !(k == crate::structure::IDX_V2MEM && pad.get((at % cs) as usize) == Some(&true)) {
                    return Some(format!("byte {at} of memory {k}: {} here, {} there", x[i], y[i]));
                }
            }
        }
    }
    None
}

fn replicas(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P30");
    watch::case(&cfg, seed, "replicas");
    let prof = Profile { reopen: *r.pick(&[0, 8, 40]), ..r.pick(&twin_profiles()).clone() };
    let n = length(&mut r);
    let Some((log, outs, e)) = record(&cfg, &prof, r.u64(), n, &[], &|_| true) else { return (cfg, CaseOut::default()) };
    let h = hints(&e);
    let mut c = start("replicas", &cfg, seed, &log, &outs, &e);
    drop(e);
    let bseed = r.u64();
    let compare = |ops: &[Op], c: &mut CaseOut| -> Option<String> {
        let mut first = Real::new(&cfg).ok()?;
        let one = observe(&mut first, ops, &h);
        if panicked(&one.outs).is_some() {
            return None; // P22's business
        }
        for k in 0..2 {
            // other objects in the heap, other hash seeds
            let mut q = Rng::new(bseed ^ k);
            let mut ballast: Vec<Vec<u8>> = (0..q.below(200)).map(|_| vec![q.below(256) as u8; q.below(3000) as usize]).collect();
            ballast.retain(|_| q.pct(50));
            let mut others = vec![];
            for _ in 0..q.below(4) {
                let mut x = Real::new(&Cfg::v2(4)).ok()?;
                x.exec(&Op::Open { parent: 3, path: "other".into(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 9 });
                x.exec(&Op::Write { fd: LASTFD, tag: 3, len: 5000 });
                others.push(x);
            }
            let mut second = Real::new(&cfg).ok()?;
            let two = observe(&mut second, ops, &h);
            c.count("replicas_compared", 1);
            // exactly the same, object numbers and error numbers included
            for (i, (x, y)) in one.outs.iter().zip(&two.outs).enumerate() {
                c.count("results_compared", 1);
                if x != y && !matches!((x, y), (Out::Panic(_), Out::Panic(_))) {
                    return Some(format!("call {} {}: {} here, {} there", i + 1, opstr(&ops[i]), x.brief(), y.brief()));
                }
            }
            if let Some(p) = panicked(&two.outs) {
                return Some(format!("one of them panics: {p}"));
            }
            for (x, y) in one.dump.iter().zip(&two.dump) {
                if x != y {
                    return Some(format!("in the end: {}: {} here, {}: {} there", x.0, x.1.brief(), y.0, y.1.brief()));
                }
            }
            if let Some(d) = memory_diff(&cfg, &first.mem, &second.mem, c) {
                return Some(d);
            }
            for (i, (m, n)) in first.mems.iter().zip(&second.mems).enumerate() {
                if m.content_hash() != n.content_hash() {
                    return Some(format!("the mounted memory {i} differs"));
                }
            }
            drop(ballast);
        }
        None
    };
    c.stats.ops += 3 * log.len() as u64;
    if let Some(d) = compare(&log, &mut c) {
        let ops = minimise(log.clone(), Duration::from_secs(6), &mut |x| compare(x, &mut CaseOut::default()).is_some());
        let d = compare(&ops, &mut CaseOut::default()).unwrap_or(d);
        let text = format!("the same history on two replicas gives different results: {d}");
        fail(o, "replicas", &cfg, ops, seed, text, &mut c);
    }
    (cfg, c)
}
