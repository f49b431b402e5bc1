//! P22: work stays in proportion when one dimension grows: deep trees, long paths, wide directories, many descriptors, names,
//! buffers and chunks, positions at the ends of the range; on a stack as small as a canister's.
use crate::hist::Replay;
use crate::model::MAX_FILE_SIZE;
use crate::ops::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::special::{Arg, Driver};
use crate::watch;
use serde_json::json;

pub const SCALE: Driver = Driver {
    name: "scale",
    f: scale,
    fixed: 33,
    weight: 1,
    rule: "scale: one case is one scenario (deep tree, long path, wide directory, many descriptors, many names, many buffers, extreme positions, fragmented file, chains of renames, many mounts, many objects) in one configuration, on a 512 KiB stack, with the memory accesses of every call bounded by the size of what it has to touch",
};

const STACK: usize = 1 << 19;

/// what a scenario sees
struct S {
    real: Real,
    n: u64,
    ok: u64,
    most: u64,
    hash: u64,
    op: Op,
}

type R = Result<(), String>;

impl S {
    /// run with a ceiling for the memory accesses
    fn run(&mut self, op: Op, limit: u64) -> Result<Out, String> {
        watch::op(&op);
        self.real.work_limit = limit;
        self.real.max_steps = 0;
        self.op = op.clone();
        let o = self.real.exec(&op);
        self.n += 1;
        self.most = self.most.max(self.real.max_steps);
        self.hash = mix(self.hash ^ match &o {
            Out::Num(n) => *n,
            Out::Fd(f) => *f as u64 + 1000,
            Out::Err(e) => *e as u64 + 500_000,
            Out::Data(n, d) => n ^ d.iter().fold(7, |a, b| mix(a ^ *b as u64)),
            _ => 3,
        });
        match &o {
            Out::Panic(p) if p.contains(HEAP_MSG) => Err(format!("{}: {p}", brief(&op))),
            Out::Panic(p) if is_work_panic(p) => Err(format!("{} makes more than {limit} memory accesses", brief(&op))),
            Out::Panic(p) => Err(format!("{} panics: {p}", brief(&op))),
            _ => {
                self.ok += o.is_ok() as u64;
                Ok(o)
            }
        }
    }
    fn want(&mut self, op: Op, limit: u64, f: impl Fn(&Out) -> bool) -> Result<Out, String> {
        let o = self.run(op, limit)?;
        if !f(&o) {
            return Err(format!("{} gives {}", brief(&self.op), o.brief()));
        }
        Ok(o)
    }
    fn good(&mut self, op: Op, limit: u64) -> Result<Out, String> {
        self.want(op, limit, |o| o.is_ok())
    }
    fn fd(&mut self, op: Op, limit: u64) -> Result<u32, String> {
        match self.good(op, limit)? {
            Out::Fd(f) => Ok(f),
            o => Err(format!("{} gives {}", brief(&self.op), o.brief())),
        }
    }
    fn empty_root(&mut self) -> R {
        self.want(Op::List { fd: 3, start: None, stop: 100 }, 10_000, |o| matches!(o, Out::List(l) if l.len() == 2))?;
        Ok(())
    }
}

fn brief(op: &Op) -> String {
    let s = crate::engine::opstr(op);
    if s.len() < 300 {
        return s;
    }
    let mut k = 250;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}.. ({} bytes)", &s[..k], s.len())
}

fn open(p: u32, path: &str, flags: u16) -> Op {
    Op::Open { parent: p, path: path.into(), flags, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 }
}
fn dir(p: u32, path: &str) -> Op {
    Op::CreateOpenDir { parent: p, path: path.into(), ctime: 1 }
}

/// a call that looks at `n` objects
fn per(n: u64) -> u64 {
    4000 + n * 1500
}

/// a call that may have to look through a directory of `n` entries (names that are not in the lookup index are searched for)
fn scan(n: u64) -> u64 {
    per(3) + 40 * n
}

fn deep(s: &mut S, depth: u64) -> R {
    let mut fd = 3;
    for i in 0..depth {
        let next = s.fd(dir(fd, "d"), per(1))?;
        if i % 7 == 0 {
            let f = s.fd(open(next, "f", CREATE), per(1))?;
            s.good(Op::Close { fd: f }, 100)?;
        }
        if fd != 3 {
            s.good(Op::Close { fd }, 100)?;
        }
        fd = next;
    }
    // moving the top below the bottom is refused, moving the bottom up works
    s.want(Op::Rename { ofd: 3, opath: "d".into(), nfd: fd, npath: "x".into() }, per(depth * 3 + 10), |o| matches!(o, Out::Err(_)))?;
    s.good(Op::Close { fd }, 100)?;
    let p = vec!["d"; depth as usize].join("/");
    s.good(Op::OpenMeta { parent: 3, path: p.clone() }, per(depth))?;
    s.good(Op::Mkdir { parent: 3, path: format!("{p}/e/f/g"), ctime: 0 }, per(depth * 2 + 10))?;
    let f = s.fd(Op::Rename { ofd: 3, opath: format!("{p}/e"), nfd: 3, npath: "up".into() }, per(depth * 3 + 10))?;
    s.good(Op::Close { fd: f }, 100)?;
    s.want(Op::RemoveDir { parent: 3, path: "d".into() }, per(3), |o| !o.is_ok())?;
    s.good(Op::RemoveRec { parent: 3, path: "up".into() }, per(20))?;
    s.good(Op::Reopen, per(10))?;
    s.good(Op::RemoveRec { parent: 3, path: "d".into() }, per(depth * 3))?;
    s.empty_root()
}

fn paths(s: &mut S, n: usize) -> R {
    s.good(Op::Mkdir { parent: 3, path: "a".into(), ctime: 0 }, per(1))?;
    for p in [
        format!("{}a", "./".repeat(n)),
        format!("{}a", "a/../".repeat(n)),
        format!("a{}", "/".repeat(n)),
        format!("{}{}a", "x/".repeat(n), "../".repeat(n)),
    ] {
        s.want(Op::OpenMeta { parent: 3, path: p }, per(2), |o| matches!(o, Out::Meta(m) if m.dir))?;
    }
    for p in [format!("{}..", "a/../".repeat(n)), "../".repeat(n), "/".repeat(n)] {
        s.want(Op::OpenMeta { parent: 3, path: p.clone() }, per(2), |o| !o.is_ok())?;
        s.want(open(3, &p, CREATE), per(2), |o| !o.is_ok())?;
        s.want(Op::RemoveRec { parent: 3, path: p }, per(2), |o| !o.is_ok())?;
    }
    s.want(Op::OpenMeta { parent: 3, path: "n".repeat(n * 50) }, per(2), |o| !o.is_ok())?;
    s.want(Op::OpenMeta { parent: 3, path: "q/".repeat(n) }, per(2), |o| !o.is_ok())?;
    // a long path is created at once and removed again
    let m = n / 20;
    let p = vec!["p"; m].join("/");
    s.good(Op::Mkdir { parent: 3, path: p.clone(), ctime: 0 }, per(m as u64 * 3))?;
    s.want(Op::Mkdir { parent: 3, path: p, ctime: 0 }, per(m as u64 * 2), |o| !o.is_ok())?;
    s.good(Op::RemoveRec { parent: 3, path: "p".into() }, per(m as u64 * 3))?;
    s.good(Op::RemoveDir { parent: 3, path: "a/../a/.".into() }, per(4))?;
    s.empty_root()
}

fn wide(s: &mut S, n: u64) -> R {
    let d = s.fd(dir(3, "w"), per(1))?;
    for i in 0..n {
        let f = s.fd(open(d, &format!("e{i}"), CREATE | EXCL), scan(n))?;
        s.good(Op::Close { fd: f }, 100)?;
    }
    s.want(open(d, "e0", CREATE | EXCL), per(1), |o| !o.is_ok())?;
    s.want(Op::OpenMeta { parent: d, path: "nothing".into() }, scan(n), |o| !o.is_ok())?;
    let o = s.good(Op::List { fd: d, start: None, stop: u32::MAX }, per(n / 4))?;
    let Out::List(l) = o else { return Err("no listing".into()) };
    if l.len() as u64 != n + 2 {
        return Err(format!("{} entries listed, {} created", l.len(), n + 2));
    }
    // resuming near the end does not look at the beginning
    for back in [1usize, 2, 100] {
        let e = &l[l.len() - back];
        s.want(Op::List { fd: d, start: Some(e.index), stop: u32::MAX }, per(back as u64), |o| matches!(o, Out::List(x) if x.len() == back))?;
    }
    s.want(Op::List { fd: d, start: None, stop: 5 }, per(2), |o| matches!(o, Out::List(x) if x.len() == 5))?;
    for i in (0..n).step_by(2) {
        s.good(Op::RemoveFile { parent: d, path: format!("e{i}") }, per(2))?;
    }
    s.want(Op::List { fd: d, start: None, stop: 5 }, per(2), |o| matches!(o, Out::List(x) if x.len() == 5))?;
    s.want(Op::Metadata { fd: d }, per(1), |o| matches!(o, Out::Meta(m) if m.size == n / 2))?;
    s.good(Op::Close { fd: d }, 100)?;
    s.good(Op::Reopen, per(10))?;
    s.good(Op::RemoveRec { parent: 3, path: "w".into() }, per(n * 2))?;
    s.empty_root()
}

fn descriptors(s: &mut S, n: u64) -> R {
    let mut v = vec![s.fd(open(3, "a", CREATE), per(1))?];
    for _ in 0..n {
        v.push(s.fd(open(3, "a", 0), per(1))?);
    }
    for (i, fd) in v.iter().enumerate() {
        if i % 2 == 1 {
            s.good(Op::Close { fd: *fd }, 10)?;
        }
    }
    s.want(Op::RemoveFile { parent: 3, path: "a".into() }, per(1), |o| !o.is_ok())?;
    for _ in 0..n / 2 {
        let fd = s.fd(open(3, "a", 0), per(1))?;
        if !v.contains(&fd) {
            return Err(format!("descriptor {fd} although lower ones are free"));
        }
    }
    s.good(Op::Renumber { from: v[2], to: u32::MAX }, 100)?;
    s.good(Op::Renumber { from: v[4], to: u32::MAX - 1 }, 100)?;
    for _ in 0..10 {
        s.fd(open(3, "a", 0), per(1))?;
    }
    s.good(Op::Close { fd: u32::MAX }, 100)?;
    s.fd(open(3, "a", 0), per(1))?;
    s.good(Op::Reopen, per(10))?;
    if s.real.cfg.transient {
        s.real.fs = Real::new(&s.real.cfg).map_err(|e| format!("a new file system panics: {e}"))?.fs;
        return s.empty_root();
    }
    s.good(Op::RemoveFile { parent: 3, path: "a".into() }, per(2))?;
    s.empty_root()
}

fn names(s: &mut S, n: u64) -> R {
    let f = s.fd(open(3, "a", CREATE), per(1))?;
    s.good(Op::Write { fd: f, tag: 1, len: 100_000 }, per(100))?;
    s.good(Op::Close { fd: f }, 100)?;
    for i in 0..n {
        let f = s.fd(Op::Link { ofd: 3, opath: "a".into(), nfd: 3, npath: format!("l{i}") }, scan(n))?;
        s.good(Op::Close { fd: f }, 100)?;
    }
    s.want(Op::OpenMeta { parent: 3, path: "l0".into() }, per(1), |o| matches!(o, Out::Meta(m) if m.nlink == n + 1))?;
    for i in 0..n {
        s.good(Op::RemoveFile { parent: 3, path: format!("l{i}") }, per(2))?;
    }
    s.want(Op::OpenMeta { parent: 3, path: "a".into() }, per(1), |o| matches!(o, Out::Meta(m) if m.nlink == 1 && m.size == 100_000))?;
    s.good(Op::RemoveFile { parent: 3, path: "a".into() }, per(60))?;
    s.empty_root()
}

fn buffers(s: &mut S, n: u64) -> R {
    let f = s.fd(open(3, "a", CREATE), per(1))?;
    s.want(Op::WriteVec { fd: f, tag: 1, lens: vec![1; n as usize] }, n * 100, |o| *o == Out::Num(n))?;
    s.want(Op::WriteVec { fd: f, tag: 2, lens: vec![0; n as usize] }, n * 100, |o| *o == Out::Num(0))?;
    s.want(Op::PWrite { fd: f, tag: 3, lens: vec![], off: 5 }, 1000, |o| *o == Out::Num(0))?;
    s.good(Op::Seek { fd: f, delta: 0, whence: 0 }, 100)?;
    s.want(Op::ReadVec { fd: f, lens: vec![1; n as usize * 2] }, n * 100, |o| matches!(o, Out::Data(k, d) if *k == n && (0..n).all(|i| d[i as usize] == pat(1, i))))?;
    s.want(Op::ReadVec { fd: f, lens: vec![0; n as usize] }, n * 100, |o| matches!(o, Out::Data(0, _)))?;
    s.good(Op::Close { fd: f }, 100)?;
    s.good(Op::RemoveFile { parent: 3, path: "a".into() }, per(n / 1000))?;
    s.empty_root()
}

fn positions(s: &mut S, r: &mut Rng) -> R {
    let f = s.fd(open(3, "a", CREATE), per(1))?;
    for _ in 0..40 {
        let top = MAX_FILE_SIZE - r.below(70_000);
        s.good(Op::SetSize { fd: f, size: top }, per(20))?;
        s.want(Op::PWrite { fd: f, tag: 5, lens: vec![10], off: top - 10 }, per(2), |o| *o == Out::Num(10))?;
        s.want(Op::PRead { fd: f, lens: vec![20], off: top - 10 }, per(2), |o| matches!(o, Out::Data(10, d) if (0..10).all(|i| d[i] == pat(5, i as u64))))?;
        s.want(Op::PRead { fd: f, lens: vec![100], off: top / 2 }, per(2), |o| matches!(o, Out::Data(100, d) if d.iter().all(|b| *b == 0)))?;
        s.want(Op::PRead { fd: f, lens: vec![100], off: u64::MAX - r.below(3) }, per(2), |o| matches!(o, Out::Data(0, _)))?;
        s.want(Op::PWrite { fd: f, tag: 6, lens: vec![100], off: u64::MAX - r.below(30) }, per(2), |o| !o.is_ok())?;
        s.want(Op::PWrite { fd: f, tag: 6, lens: vec![1], off: MAX_FILE_SIZE }, per(2), |o| !o.is_ok())?;
        s.good(Op::SetSize { fd: f, size: r.below(9000) }, per(20))?;
        let m = Op::SetMeta { fd: f, change: MetaChange::Size(r.below(1 << 45)) };
        s.run(m, per(20))?;
        for w in 0..3 {
            for d in [i64::MIN, i64::MIN + 1, -1, i64::MAX] {
                s.run(Op::Seek { fd: f, delta: d, whence: w }, 100)?;
                s.run(Op::Read { fd: f, len: 10 }, per(2))?;
            }
        }
        s.good(Op::Seek { fd: f, delta: 0, whence: 0 }, 100)?;
    }
    s.good(Op::Mount { path: "a".into(), mem: 0, policy: Policy::Explicit(MAX_FILE_SIZE) }, per(10))?;
    s.want(Op::PRead { fd: f, lens: vec![100], off: 1 << 40 }, per(2), |o| matches!(o, Out::Data(100, _)))?;
    s.good(Op::Unmount { path: "a".into() }, per(10))?;
    s.good(Op::Close { fd: f }, 100)?;
    s.good(Op::RemoveFile { parent: 3, path: "a".into() }, per(20))?;
    s.empty_root()
}

fn fragments(s: &mut S, n: u64) -> R {
    let cs = s.real.cfg.chunk_bytes();
    let f = s.fd(open(3, "a", CREATE), per(1))?;
    for i in 0..n {
        s.want(Op::PWrite { fd: f, tag: 5, lens: vec![3], off: i * cs * 3 + 1 }, per(2), |o| *o == Out::Num(3))?;
    }
    for i in (0..n).rev().step_by(7) {
        s.want(Op::PRead { fd: f, lens: vec![4], off: i * cs * 3 }, per(2), |o| matches!(o, Out::Data(_, d) if d[0] == 0 && d[1] == pat(5, 0)))?;
    }
    s.good(Op::SetSize { fd: f, size: cs }, per(n / 4))?;
    s.good(Op::SetSize { fd: f, size: cs * 3 * n }, per(4))?;
    s.want(Op::PRead { fd: f, lens: vec![4], off: cs * 3 }, per(2), |o| matches!(o, Out::Data(4, d) if d.iter().all(|b| *b == 0)))?;
    s.good(Op::Close { fd: f }, 100)?;
    s.good(Op::RemoveFile { parent: 3, path: "a".into() }, per(20))?;
    s.empty_root()
}

fn renames(s: &mut S, n: u64) -> R {
    for i in 0..20 {
        s.good(Op::Mkdir { parent: 3, path: format!("d{i}/sub"), ctime: 0 }, per(4))?;
    }
    let f = s.fd(open(3, "d0/sub/f", CREATE), per(4))?;
    s.good(Op::Write { fd: f, tag: 3, len: 9000 }, per(10))?;
    s.good(Op::Close { fd: f }, 100)?;
    let mut at = "d0/sub/f".to_string();
    for i in 0..n {
        let to = format!("d{}/sub/f{}", i % 20, i % 3);
        if to == at {
            continue;
        }
        let f = s.fd(Op::Rename { ofd: 3, opath: at.clone(), nfd: 3, npath: to.clone() }, per(6))?;
        s.good(Op::Close { fd: f }, 100)?;
        at = to;
    }
    s.want(Op::OpenMeta { parent: 3, path: at }, per(3), |o| matches!(o, Out::Meta(m) if m.size == 9000 && m.nlink == 1))?;
    for i in 0..20 {
        s.good(Op::RemoveRec { parent: 3, path: format!("d{i}") }, per(8))?;
    }
    s.empty_root()
}

fn mounts(s: &mut S, n: u64) -> R {
    for i in 0..n {
        let f = s.fd(open(3, &format!("m{i}"), CREATE), scan(n))?;
        s.good(Op::Mount { path: format!("m{i}"), mem: i as u32, policy: Policy::Explicit(i * 10) }, per(4))?;
        s.want(Op::PWrite { fd: f, tag: 1, lens: vec![10], off: i * 10 }, per(3), |o| *o == Out::Num(10))?;
        s.good(Op::Close { fd: f }, 100)?;
    }
    for i in 0..n {
        s.want(Op::OpenMeta { parent: 3, path: format!("m{i}") }, per(2), |o| matches!(o, Out::Meta(m) if m.size == i * 10 + 10))?;
        if i % 3 == 0 {
            s.good(Op::StoreMem { path: format!("m{i}") }, per(5))?;
        }
        s.good(Op::Unmount { path: format!("m{i}") }, per(4))?;
        s.good(Op::RemoveFile { parent: 3, path: format!("m{i}") }, per(5))?;
    }
    s.empty_root()
}

fn objects(s: &mut S, n: u64) -> R {
    for i in 0..n {
        let f = s.fd(open(3, &format!("g{}/o{i}", i % 40), CREATE), scan(n / 40))?;
        s.want(Op::Write { fd: f, tag: i as u32 + 1, len: 20 }, per(3), |o| *o == Out::Num(20))?;
        s.good(Op::Close { fd: f }, 100)?;
    }
    s.good(Op::Reopen, per(10))?;
    for k in 0..2 {
        for i in (0..n).rev() {
            let f = s.fd(open(3, &format!("g{}/o{i}", i % 40), 0), per(3))?;
            s.want(Op::Read { fd: f, len: 50 }, per(3), |o| matches!(o, Out::Data(20, d) if d[0] == pat(i as u32 + 1, 0) && d[19] == pat(i as u32 + 1, 19)))?;
            s.good(Op::Close { fd: f }, 100)?;
            if k == 1 {
                s.good(Op::RemoveFile { parent: 3, path: format!("g{}/o{i}", i % 40) }, per(3))?;
            }
        }
    }
    for i in 0..n.min(40) {
        s.good(Op::RemoveDir { parent: 3, path: format!("g{i}") }, per(2))?;
    }
    s.empty_root()
}

const NAMES: [&str; 11] = ["deep", "paths", "wide", "descriptors", "names", "buffers", "positions", "fragments", "renames", "mounts", "objects"];

fn scale(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let mut r = Rng::new(a.raw() ^ 0x5CA1E);
    let (k, cfg, big) = match a {
        Arg::Fixed(i) => ((i % 11) as usize, [Cfg::v2(4), Cfg::transient(), Cfg::v1()][(i / 11) as usize % 3].clone(), true),
        Arg::Seed(_) => (r.us(11), crate::props::random_cfg(&mut r, "P22"), r.pct(2)),
    };
    let f = if o.thorough { 4 } else { 1 };
    let mut size = |n: u64| if big { n * f } else { 1 + r.below(n / 6) };
    let n = match k {
        0 => size(4000),
        1 => 20 + size(4000),
        2 => 100 + size(1200),
        3 => 10 + size(4000),
        4 => size(700),
        5 => size(20_000),
        7 => 10 + size(2500),
        8 => size(2000),
        9 => size(150),
        10 => size(2000),
        _ => 0,
    };
    watch::case(&cfg, a.raw(), "scale");
    let seed = r.u64();
    let cfg2 = cfg.clone();
    // the calls run on a thread with a small stack
    let th = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        watch::register();
        watch::case(&cfg2, seed, NAMES[k]);
        let mut r = Rng::new(seed);
        let real = match Real::new(&cfg2) {
            Ok(r) => r,
            Err(p) => return (Err(format!("a new file system panics: {p}")), 0, 0, 0, 0, Op::Reopen),
        };
        let mut s = S { real, n: 0, ok: 0, most: 0, hash: k as u64, op: Op::Reopen };
        let x = match k {
            0 => deep(&mut s, n),
            1 => paths(&mut s, n as usize),
            2 => wide(&mut s, n),
            3 => descriptors(&mut s, n),
            4 => names(&mut s, n),
            5 => buffers(&mut s, n),
            6 => positions(&mut s, &mut r),
            7 => fragments(&mut s, n),
            8 => renames(&mut s, n),
            9 => mounts(&mut s, n),
            _ => objects(&mut s, n),
        };
        watch::idle();
        (x, s.n, s.ok, s.most, s.hash, s.op)
    });
    let (x, ops, ok, most, hash, op) = th.unwrap().join().unwrap_or_else(|_| (Ok(()), 0, 0, 0, 0, Op::Reopen));
    let mut c = CaseOut { hash: mix(hash ^ n ^ (k as u64) << 50 ^ (cfg.transient as u64) << 60 ^ (cfg.v1 as u64) << 61), nontrivial: ok > 10, ..Default::default() };
    c.stats.ops = ops;
    c.stats.ok = ok;
    c.stats.failed = ops - ok;
    c.stats.max_steps = most;
    c.count(&format!("scale_{}", NAMES[k]), 1);
    c.sample = Some(json!({ "driver": "scale", "scenario": NAMES[k], "size": n, "configuration": cfg.name(), "calls": ops, "most_memory_accesses": most }));
    if let Err(e) = x {
        let text = format!("{} (scenario {} of size {n}, configuration {})", e, NAMES[k], cfg.name());
        let heap = e.contains(HEAP_MSG);
        let work = heap || o.prop != "P31" && (e.contains(" panics: ") || e.contains("memory accesses"));
        if work || o.prop == "ANY" {
            let ops = if serde_json::to_string(&op).map(|s| s.len()).unwrap_or(0) < 10_000 { vec![op] } else { vec![] };
            c.violation = Some((Replay { property: o.prop.clone(), driver: "scale".into(), cfg: cfg.clone(), ops, seed: a.raw(), detail: text.clone() }, text));
        } else {
            c.foreign = Some(text);
        }
    }
    (cfg, c)
}
