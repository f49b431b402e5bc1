//! Enumerated histories which carry each structure over the sizes at which it changes its shape: pages of the list of free chunks,
//! caches filled exactly and beyond, counters beyond a byte, names of every length, nesting, many mounts, many descriptors.
use crate::hist;
use crate::ops::*;
use crate::real::*;
use crate::rng::mix;
use crate::run::{settle, CaseOut, Opt};
use crate::special::{Arg, Driver};
use crate::watch;
use serde_json::json;

pub const NAMES: [&str; 14] =
    ["free list", "descriptors", "nodes", "pointers", "links", "nesting", "names", "folders", "mounts", "far", "table", "buffers", "cache edges", "four gigabytes"];

pub const THRESHOLDS: Driver = Driver {
    name: "thresholds",
    f: thresholds,
    fixed: NAMES.len() as u64 * 2,
    weight: 0,
    rule: "thresholds: 28 (thorough: 56) enumerated histories, each carrying one structure over the sizes at which it changes its shape (free chunks of more than a page, 256 descriptors of a file, 65536 descriptors, 1150 nodes, 10200 chunks, 300 links, 200 nested folders, names of every length, 40 mounts, positions around 2^32 and the largest file, transfers of megabytes, caches exactly full, stored chunks across 4 GiB of stable memory), judged as random histories are; non-trivial: always",
};

fn mk(path: &str) -> Op {
    Op::Mkdir { parent: 3, path: path.into(), ctime: 1 }
}
fn op(path: &str, flags: u16) -> Op {
    Op::Open { parent: 3, path: path.into(), flags, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 }
}
fn pw(off: u64, len: u32, tag: u32) -> Op {
    Op::PWrite { fd: LASTFD, tag, lens: vec![len], off }
}
fn pr(off: u64, len: u32) -> Op {
    Op::PRead { fd: LASTFD, lens: vec![len], off }
}
fn size(size: u64) -> Op {
    Op::SetSize { fd: LASTFD, size }
}
fn rm(path: &str) -> Op {
    Op::RemoveFile { parent: 3, path: path.into() }
}
fn rename(a: &str, b: &str) -> Op {
    Op::Rename { ofd: 3, opath: a.into(), nfd: 3, npath: b.into() }
}
fn close() -> Op {
    Op::Close { fd: LASTFD }
}
fn look(path: &str) -> Op {
    Op::OpenMeta { parent: 3, path: path.into() }
}

pub fn script(kind: usize, cs: u64) -> Vec<Op> {
    let mut v = vec![];
    match kind {
        0 => {
            v.push(op("other", CREATE));
            v.push(pw(0, 3 * cs as u32, 5));
            v.push(op("big", CREATE));
            v.push(Op::MStride { fd: LASTFD, start: 7, step: cs, n: 8400, len: 3, tag: 1 });
            v.push(size(5 * cs + 1));
            v.push(Op::AuditStruct);
            v.push(Op::MStride { fd: LASTFD, start: 9, step: cs, n: 150, len: 3, tag: 90_000 });
            v.push(op("new", CREATE));
            v.push(Op::MStride { fd: LASTFD, start: 0, step: 2 * cs, n: 150, len: 30, tag: 80_000 });
            v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: cs, n: 320, len: 100 });
            v.push(Op::AuditLive);
            v.push(Op::Reopen);
            v.push(op("big", TRUNC));
            v.push(op("third", CREATE));
            v.push(Op::MStride { fd: LASTFD, start: 50, step: cs, n: 400, len: 30, tag: 70_000 });
            v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: cs, n: 420, len: 100 });
            v.push(op("other", 0));
            v.push(pr(0, 4 * cs as u32));
        }
        1 => {
            v.push(op("a", CREATE));
            v.push(pw(0, 50, 1));
            for n in [254, 1, 1, 254, 1, 1] {
                v.push(Op::MOpen { parent: 3, path: "a".into(), n, flags: 0, fdflags: 0 });
                v.push(op("b", CREATE));
                v.push(close());
                v.push(rm("a"));
                v.push(rename("b", "a"));
                v.push(rm("b"));
            }
            v.push(Op::Link { ofd: 3, opath: "a".into(), nfd: 3, npath: "c".into() });
            v.push(rm("a"));
            v.push(rm("c"));
            for fd in 4..515 {
                v.push(Op::Close { fd });
            }
            v.push(rm("c"));
            v.push(Op::CreateOpenDir { parent: 3, path: "d".into(), ctime: 1 });
            v.push(Op::MOpen { parent: 3, path: "d".into(), n: 255, flags: DIRECTORY, fdflags: 0 });
            v.push(Op::RemoveDir { parent: 3, path: "d".into() });
            v.push(Op::Reopen);
            v.push(Op::RemoveDir { parent: 3, path: "d".into() });
            v.push(rm("c"));
        }
        2 => {
            v.push(mk("m"));
            v.push(Op::MCreate { parent: 3, prefix: "m/f".into(), from: 0, n: 1150, kind: 2, len: 30, tag: 10 });
            v.push(Op::MLookup { parent: 3, prefix: "m/f".into(), from: 0, n: 1150, step: 1 });
            v.push(op("m/f0", 0));
            v.push(pw(100, 50, 3));
            v.push(Op::MLookup { parent: 3, prefix: "m/f".into(), from: 0, n: 1150, step: 7 });
            v.push(size(20));
            v.push(rename("m/f5", "x"));
            v.push(rename("m/f1000", "m/f3"));
            v.push(rm("m/f9"));
            v.push(Op::AuditLive);
            v.push(Op::Reopen);
            v.push(Op::MLookup { parent: 3, prefix: "m/f".into(), from: 0, n: 1150, step: 3 });
            v.push(op("m/f7", 0));
            v.push(pw(5, 5, 4));
            v.push(Op::MRemove { parent: 3, prefix: "m/f".into(), from: 0, n: 1150, step: 2, dirs: false });
            v.push(Op::MCreate { parent: 3, prefix: "m/g".into(), from: 0, n: 300, kind: 1, len: 0, tag: 0 });
            v.push(Op::AuditLive);
            v.push(close());
            v.push(Op::RemoveRec { parent: 3, path: "m".into() });
        }
        3 => {
            v.push(op("big", CREATE));
            v.push(Op::MStride { fd: LASTFD, start: 0, step: cs, n: 10_200, len: 3, tag: 1 });
            v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: 64 * cs, n: 165, len: 3 * cs as u32 });
            v.push(Op::MStride { fd: LASTFD, start: 2, step: 97 * cs, n: 106, len: 3, tag: 50_000 });
            v.push(op("b", CREATE));
            v.push(Op::MStride { fd: LASTFD, start: 1, step: 3 * cs, n: 40, len: 3, tag: 60_000 });
            v.push(op("big", 0));
            v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: cs, n: 10_250, len: 5 });
            v.push(size(5000 * cs + 1));
            v.push(Op::MStrideRead { fd: LASTFD, start: 4990 * cs, step: cs, n: 30, len: 5 });
            v.push(size(9000 * cs));
            v.push(Op::MStrideRead { fd: LASTFD, start: 4000 * cs, step: 10 * cs, n: 520, len: 5 });
            v.push(pw(8000 * cs - 10, 100, 4));
            v.push(pr(7999 * cs, 2 * cs as u32));
            v.push(Op::Reopen);
            v.push(op("big", 0));
            v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: 50 * cs, n: 182, len: 5 });
        }
        4 => {
            v.push(op("f", CREATE));
            v.push(pw(0, 100, 1));
            v.push(close());
            v.push(mk("d"));
            for i in 0..300 {
                v.push(Op::Link { ofd: 3, opath: if i == 0 { "f".into() } else { format!("d/l{}", i - 1) }, nfd: 3, npath: format!("d/l{i}") });
                v.push(close());
            }
            v.push(Op::AuditLive);
            v.push(rm("f"));
            v.push(rename("d/l7", "f"));
            v.push(rename("d/l8", "d/l9"));
            v.push(Op::Reopen);
            v.push(op("d/l299", 0));
            v.push(pw(90, 30, 2));
            v.push(Op::MRemove { parent: 3, prefix: "d/l".into(), from: 0, n: 299, step: 1, dirs: false });
            v.push(rm("f"));
            v.push(rm("d/l299"));
            v.push(close());
            v.push(Op::RemoveRec { parent: 3, path: "d".into() });
        }
        5 => {
            let deep = vec!["a"; 200].join("/");
            v.push(mk(&deep));
            v.push(op(&format!("{deep}/f"), CREATE));
            v.push(pw(0, 10, 1));
            v.push(close());
            v.push(look(&format!("{deep}/../{}/f", "./".repeat(300))));
            v.push(look(&format!("{deep}/{}a", "../".repeat(200))));
            v.push(look(&format!("{deep}/{}a", "../".repeat(201))));
            v.push(rename("a", "b"));
            v.push(close());
            v.push(look(&deep));
            v.push(look(&format!("b{}/f", &deep[1..])));
            v.push(op(&format!("b{}", &deep[1..]), DIRECTORY));
            v.push(Op::Rename { ofd: 3, opath: "b".into(), nfd: LASTFD, npath: "c".into() });
            v.push(close());
            v.push(Op::AuditLive);
            v.push(Op::RemoveRec { parent: 3, path: "b".into() });
        }
        6 => {
            v.push(mk("n"));
            for n in 1..=256usize {
                v.push(op(&format!("n/{}", "q".repeat(n)), CREATE));
                v.push(close());
            }
            for n in (1..=257usize).rev() {
                v.push(look(&format!("n/{}", "q".repeat(n))));
            }
            v.push(op("n", DIRECTORY));
            v.push(Op::List { fd: LASTFD, start: None, stop: u32::MAX });
            v.push(Op::AuditLive);
            for n in (1..=256usize).step_by(2) {
                v.push(rm(&format!("n/{}", "q".repeat(n))));
            }
            v.push(Op::Reopen);
            for n in (2..=250usize).step_by(4) {
                v.push(rename(&format!("n/{}", "q".repeat(n)), &format!("n/{}", "q".repeat(n + 1))));
                v.push(close());
            }
            v.push(Op::AuditLive);
            v.push(Op::RemoveRec { parent: 3, path: "n".into() });
        }
        7 => {
            v.push(mk("d"));
            v.push(mk("e"));
            v.push(Op::MCreate { parent: 3, prefix: "d/x".into(), from: 0, n: 600, kind: 0, len: 0, tag: 0 });
            v.push(Op::MRemove { parent: 3, prefix: "d/x".into(), from: 0, n: 600, step: 2, dirs: false });
            v.push(Op::MCreate { parent: 3, prefix: "d/y".into(), from: 0, n: 300, kind: 1, len: 0, tag: 0 });
            for i in 0..100 {
                v.push(rename(&format!("d/y{i}"), &format!("e/z{i}")));
                v.push(close());
                v.push(rename(&format!("d/x{}", 2 * i + 1), &format!("e/w{i}")));
                v.push(close());
            }
            v.push(op("d", DIRECTORY));
            for k in [0, 1, 255, 256, 257, 600, 601, 900, 901, u32::MAX] {
                v.push(Op::List { fd: LASTFD, start: Some(k), stop: 40 });
            }
            v.push(Op::AuditLive);
            v.push(Op::Reopen);
            v.push(Op::MCreate { parent: 3, prefix: "e/x".into(), from: 0, n: 200, kind: 0, len: 0, tag: 0 });
            v.push(Op::MLookup { parent: 3, prefix: "d/x".into(), from: 0, n: 600, step: 1 });
            v.push(Op::RemoveRec { parent: 3, path: "d".into() });
            v.push(Op::AuditLive);
            v.push(Op::RemoveRec { parent: 3, path: "e".into() });
        }
        8 => {
            for i in 0..40u32 {
                let p = format!("h{i}");
                v.push(op(&p, CREATE));
                v.push(pw(0, 100 + i, i + 1));
                v.push(Op::Mount { path: p, mem: i, policy: Policy::Explicit(10 * i as u64) });
                v.push(pw(5, 10, 900 + i));
            }
            v.push(Op::AuditLive);
            v.push(op("big", CREATE));
            v.push(pw(0, 400_005, 77));
            v.push(Op::Mount { path: "big".into(), mem: 40, policy: Policy::PrevOrZero });
            v.push(Op::InitMem { path: "big".into() });
            v.push(pr(399_900, 500));
            v.push(pw(200_000, 300_000, 78));
            v.push(Op::StoreMem { path: "big".into() });
            v.push(Op::MemPoke { mem: 40, off: 131_000, tag: 5, len: 100 });
            v.push(pr(130_990, 200));
            v.push(Op::Unmount { path: "big".into() });
            v.push(pr(130_990, 200));
            v.push(pr(499_000, 2000));
            v.push(Op::Reopen);
            for i in 0..40u32 {
                v.push(Op::Mount { path: format!("h{i}"), mem: i, policy: if i % 2 == 0 { Policy::PrevOrZero } else { Policy::PrevOrPages } });
            }
            v.push(Op::AuditLive);
            for i in 0..40u32 {
                v.push(Op::Unmount { path: format!("h{i}") });
                v.push(rm(&format!("h{i}")));
            }
        }
        9 => {
            v.push(op("f", CREATE));
            let max = crate::model::MAX_FILE_SIZE;
            for off in [(1u64 << 31) - 5, (1 << 32) - 10, (1 << 32) + cs - 3, 1 << 33, (1 << 40) + 1] {
                v.push(pw(off, 30, (off >> 20) as u32));
            }
            v.push(Op::AuditLive);
            v.push(size((1 << 32) + 5));
            v.push(pr((1 << 32) - 20, 60));
            v.push(size(1 << 41));
            for off in [(1u64 << 31) - 8, (1 << 32) - 20, (1 << 32) + cs - 8, 1 << 33, 1 << 40] {
                v.push(pr(off, 40));
            }
            for off in [max - 30, max - 29, max, max + 1, u64::MAX - 30] {
                v.push(pw(off, 30, 9));
                v.push(pr(off, 40));
            }
            v.push(Op::SetLimit { fd: LASTFD, limit: max });
            v.push(size(max));
            v.push(size(max + 1));
            v.push(Op::Seek { fd: LASTFD, delta: 0, whence: 2 });
            v.push(Op::Write { fd: LASTFD, tag: 3, len: 1 });
            v.push(Op::Seek { fd: LASTFD, delta: -3, whence: 2 });
            v.push(Op::Read { fd: LASTFD, len: 10 });
            v.push(Op::AuditLive);
            v.push(Op::Reopen);
            v.push(op("f", TRUNC));
            v.push(size(1 << 33));
            v.push(pr((1 << 32) - 20, 60));
        }
        10 => {
            // more descriptors than 16 bits count
            v.push(op("a", CREATE));
            v.push(op("b", CREATE));
            v.push(pw(0, 30, 1));
            v.push(Op::MOpen { parent: 3, path: "a".into(), n: 65_535, flags: 0, fdflags: 0 });
            v.push(rm("a"));
            v.push(Op::Write { fd: LASTFD, tag: 2, len: 20 });
            v.push(Op::Tell { fd: 300 });
            v.push(Op::Renumber { from: 65_000, to: 300 });
            v.push(op("b", 0));
            v.push(pr(0, 40));
            v.push(Op::Renumber { from: LASTFD, to: 70_000 });
            v.push(op("b", 0));
            v.push(Op::MOpen { parent: 3, path: "b".into(), n: 5, flags: 0, fdflags: 0 });
            v.push(Op::PRead { fd: 70_000, lens: vec![50], off: 0 });
            v.push(rm("a"));
        }
        11 => {
            v.push(op("f", CREATE));
            v.push(pw(3, 5 << 20, 1));
            v.push(pr(0, (5 << 20) + 100));
            v.push(Op::PWrite { fd: LASTFD, tag: 2, lens: vec![777; 1300], off: 1000 });
            v.push(Op::PRead { fd: LASTFD, lens: vec![1001; 1100], off: 10 });
            v.push(Op::WriteVec { fd: LASTFD, tag: 3, lens: (0..1030).map(|i| i % 3).collect() });
            v.push(Op::Tell { fd: LASTFD });
            v.push(Op::ReadVec { fd: LASTFD, lens: (0..2050).map(|i| (i * 7) % 1000).collect() });
            v.push(Op::Tell { fd: LASTFD });
            v.push(Op::SetLimit { fd: LASTFD, limit: 6 << 20 });
            v.push(Op::WriteVec { fd: LASTFD, tag: 4, lens: vec![100_000; 80] });
            v.push(size((3 << 20) + 17));
            v.push(size(6 << 20));
            v.push(pr(3 << 20, 3 << 20));
        }
        13 => {
            // positions in the chunk memory beyond 32 bits
            v.push(op("a", CREATE));
            v.push(pw(100, 4 * cs as u32, 4));
            v.push(op("b", CREATE));
            v.push(pw(cs - 50, 12 * cs as u32, 5));
            v.push(op("c", CREATE));
            v.push(pw(7, 3 * cs as u32, 6));
            v.push(mk("d/e"));
            v.push(op("b", 0));
            v.push(pr(0, 14 * cs as u32));
            v.push(Op::AuditStruct);
            v.push(Op::Reopen);
            v.push(op("c", 0));
            v.push(size(cs + 9));
            v.push(pw(3 * cs, 100, 8));
            v.push(op("b", 0));
            v.push(size(cs + 3));
            v.push(op("n", CREATE));
            v.push(pw(0, 9 * cs as u32, 9));
            v.push(close());
            v.push(rm("a"));
            v.push(op("m", CREATE));
            v.push(pw(0, 9 * cs as u32, 10));
            v.push(Op::Mount { path: "m".into(), mem: 0, policy: Policy::PrevOrZero });
            v.push(Op::InitMem { path: "m".into() });
            v.push(Op::AuditLive);
            v.push(Op::Unmount { path: "m".into() });
            v.push(Op::AuditCold);
        }
        _ => {
            // caches exactly full, one less, one more, and then a change of what they hold
            for (d, n) in [("p", 98u32), ("q", 99), ("r", 100), ("s", 101)] {
                v.push(mk(d));
                v.push(Op::MCreate { parent: 3, prefix: format!("{d}/"), from: 0, n, kind: 2, len: 10, tag: 3 });
                v.push(Op::Reopen);
                v.push(Op::MLookup { parent: 3, prefix: format!("{d}/"), from: 0, n, step: 1 });
                v.push(rename(&format!("{d}/0"), &format!("{d}/{}", n - 1)));
                v.push(close());
                v.push(look(&format!("{d}/0")));
                v.push(look(&format!("{d}/{}", n - 1)));
                v.push(rm(&format!("{d}/1")));
                v.push(look(&format!("{d}/1")));
                v.push(op(&format!("{d}/1"), CREATE));
                v.push(close());
            }
            v.push(mk("m"));
            v.push(Op::MCreate { parent: 3, prefix: "m/".into(), from: 0, n: 1010, kind: 2, len: 10, tag: 3 });
            for n in 994..1004u32 {
                v.push(Op::Reopen);
                v.push(op("m/0", 0));
                v.push(Op::MLookup { parent: 3, prefix: "m/".into(), from: 0, n, step: 1 });
                v.push(pw(n as u64, 7, 5));
                v.push(Op::Metadata { fd: LASTFD });
                v.push(pr(0, 2000));
            }
        }
    }
    v
}

fn thresholds(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let Arg::Fixed(i) = a else { return (Cfg::v1(), CaseOut::default()) };
    let kind = i as usize % NAMES.len();
    let round = i as usize / NAMES.len();
    let stable_only = matches!(o.prop.as_str(), "P04" | "P12" | "P29");
    let cfg = match (round, kind % 2) {
        (0, _) => Cfg::v2(4),
        (1, 0) | (2, 1) if !stable_only => Cfg::transient(),
        (1, _) | (2, _) => Cfg::v1(),
        _ => Cfg { bucket: 8, start: 100, ..Cfg::v2(8) },
    };
    let cfg = match NAMES[kind] {
        "four gigabytes" => Cfg { bucket: [128, 16][round % 2], start: [0, 200][round % 2], high: [7, 128 + 9][round % 2], ..Cfg::v2([4, 64, 16, 32][round % 4]) },
        _ => cfg,
    };
    watch::case(&cfg, i, "thresholds");
    let ops = script(kind, cfg.chunk_bytes());
    let (d, e) = hist::run_ops(&cfg, &ops, true);
    let mut c = CaseOut { hash: mix(e.trace_hash ^ 0x7357 ^ i), nontrivial: true, ..Default::default() };
    c.stats = e.stats.clone();
    c.count(&format!("threshold: {}", NAMES[kind]), 1);
    c.sample = Some(json!({ "driver": "thresholds", "kind": NAMES[kind], "configuration": cfg.name(), "calls": e.stats.ops }));
    if let Some(d) = d {
        settle(o, &cfg, &e.log, *d, i, &mut c);
    }
    (cfg, c)
}
