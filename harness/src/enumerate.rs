//! Systematically enumerated workloads: every short path string, every resume position of a directory iteration, and
//! repeated cycles that must not consume storage.
use crate::engine::*;
use crate::gen::Gen;
use crate::hist::{self, describe, Replay};
use crate::ops::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::{settle, CaseOut, Opt};
use crate::special::{Arg, Driver};
use crate::structure::{usage, Usage};
use crate::{props, watch};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub const PATHS: Driver = Driver {
    name: "paths",
    f: paths,
    fixed: 256,
    weight: 1,
    rule: "paths: the enumerated cases are all strings over {a, b, '.', '/'} up to length 6 (7 in the thorough tier) from three base directories, 64 strings to a case, each looked up, opened, created as folder and as file, renamed, linked and removed; the random ones are joined from longer and stranger components; every result and the tree are compared with the model; non-trivial: always",
};
pub const PAGES: Driver = Driver {
    name: "pages",
    f: pages,
    fixed: 127,
    weight: 1,
    rule: "pages: the enumerated cases are all directories of up to 6 created entries with every subset removed, listed from every start (including the dot positions and the extremes) with every stop; the random ones iterate larger directories in pages with creations, removals, renames and reopenings in between, and check that whatever existed throughout was returned exactly once; non-trivial: always",
};
pub const CYCLES: Driver = Driver {
    name: "cycles",
    f: cycles,
    fixed: 4,
    weight: 1,
    rule: "cycles: one case repeats a random create/write/resize/rename/link/mount/remove cycle up to 24 times and compares the occupation of every persisted structure after each; non-trivial: more than 10 successful calls",
};

fn finish(o: &Opt, cfg: &Cfg, e: Engine, r: DResult<()>, seed: u64, c: &mut CaseOut) {
    watch::idle();
    c.hash = mix(e.trace_hash ^ seed);
    c.stats = e.stats.clone();
    if let Err(d) = r {
        settle(o, cfg, &e.log, *d, seed, c);
    }
}

// ---- paths

const ALPHA: &[u8] = b"ab./";

fn nth_string(mut k: u64) -> Option<String> {
    let mut len = 0;
    let mut n = 1u64;
    while k >= n {
        k -= n;
        len += 1;
        n *= 4;
        if len > 7 {
            return None;
        }
    }
    let mut s = vec![0u8; len];
    for i in (0..len).rev() {
        s[i] = ALPHA[(k % 4) as usize];
        k /= 4;
    }
    Some(String::from_utf8(s).unwrap())
}

fn strange(r: &mut Rng) -> String {
    let long = |n: usize| "n".repeat(n);
    let n = r.range(1, 6);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(16) {
            0 | 1 => "a".to_string(),
            2 | 3 => "b".to_string(),
            4 => "".to_string(),
            5 => ".".to_string(),
            6 | 7 => "..".to_string(),
            8 => "...".to_string(),
            9 => (*r.pick(&[".a", "a.", "..a", "a..", "A", "a ", " a", "a\0", "a\\b", "~"])).to_string(),
            10 => long(255),
            11 => long(256),
            12 => long(*r.pick(&[254, 257, 300, 511, 512, 600])),
            13 => "é".repeat(*r.pick(&[127, 128])),
            14 => "名".repeat(*r.pick(&[85, 86])),
            _ => "f".to_string(),
        });
    }
    let s = v.join("/");
    match r.below(12) {
        0 => format!("/{s}"),
        1 => format!("{s}/"),
        2 => s.replacen('/', "//", 1),
        _ => s,
    }
}

/// a/b, a/b/b (file), b (file), a/a (file); descriptors 4 (a), 5 (a/b)
fn small_tree(cfg: &Cfg) -> DResult<Engine> {
    let mut e = Engine::new(cfg)?;
    let f = |p: &str, flags| Op::Open { parent: 3, path: p.into(), flags, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 };
    for o in [
        Op::Mkdir { parent: 3, path: "a".into(), ctime: 1 },
        Op::Mkdir { parent: 3, path: "a/b".into(), ctime: 1 },
        f("b", CREATE),
        Op::Write { fd: LASTFD, tag: 1, len: 10 },
        Op::Close { fd: LASTFD },
        f("a/a", CREATE),
        Op::Close { fd: LASTFD },
        f("a/b/b", CREATE),
        Op::Close { fd: LASTFD },
        f("a", 0),
        f("a/b", 0),
    ] {
        e.run(&o)?;
    }
    Ok(e)
}

fn paths(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(mix(seed ^ 0xBA5E));
    let mut cfg = match r.below(4) {
        0 => Cfg::transient(),
        1 => Cfg::v1(),
        _ => Cfg::v2(4),
    };
    if !cfg.transient {
        cfg.bucket = 1;
        cfg.start = 10;
    }
    watch::case(&cfg, seed, "paths");
    let mut c = CaseOut { nontrivial: true, ..Default::default() };
    let mut list: Vec<(usize, String)> = vec![];
    match a {
        Arg::Fixed(k) => {
            for i in 0..64 {
                let x = k * 64 + i;
                if let Some(s) = nth_string(x / 3) {
                    list.push(((x % 3) as usize, s));
                }
            }
            c.count("enumerated_paths", list.len() as u64);
        }
        Arg::Seed(_) => {
            for _ in 0..24 {
                list.push((r.us(3), strange(&mut r)));
            }
            c.count("random_paths", list.len() as u64);
        }
    }
    let strings: Vec<String> = list.iter().map(|x| x.1.clone()).collect();
    c.sample = Some(json!({ "driver": "paths", "configuration": cfg.name(), "paths": strings.iter().take(5).collect::<Vec<_>>() }));
    let mut hash = 0;
    for (b, p) in list {
        let partner = if matches!(a, Arg::Fixed(_)) && r.pct(60) { nth_string(r.below(1365)).unwrap() } else { r.pick(&strings).clone() };
        let base = 3; // replaced by the real numbers below
        let _ = base;
        let calls: Vec<Box<dyn Fn(u32, u32) -> Vec<Op>>> = vec![
            {
                let p = p.clone();
                Box::new(move |fd, _| {
                    vec![
                        Op::OpenMeta { parent: fd, path: p.clone() },
                        Op::Open { parent: fd, path: p.clone(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 2 },
                        Op::OpenMeta { parent: fd, path: p.clone() },
                    ]
                })
            },
            {
                let p = p.clone();
                Box::new(move |fd, _| vec![Op::Mkdir { parent: fd, path: p.clone(), ctime: 3 }, Op::OpenMeta { parent: fd, path: p.clone() }])
            },
            {
                let p = p.clone();
                Box::new(move |fd, _| {
                    vec![
                        Op::Open { parent: fd, path: p.clone(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 4 },
                        Op::OpenMeta { parent: fd, path: p.clone() },
                    ]
                })
            },
            {
                let (p, q) = (p.clone(), partner.clone());
                Box::new(move |fd, g| vec![Op::Rename { ofd: fd, opath: p.clone(), nfd: g, npath: q.clone() }])
            },
            {
                let (p, q) = (p.clone(), partner.clone());
                Box::new(move |fd, g| vec![Op::Rename { ofd: g, opath: q.clone(), nfd: fd, npath: p.clone() }])
            },
            {
                let (p, q) = (p.clone(), partner.clone());
                Box::new(move |fd, g| vec![Op::Link { ofd: g, opath: q.clone(), nfd: fd, npath: p.clone() }])
            },
            {
                let p = p.clone();
                Box::new(move |fd, _| vec![Op::RemoveFile { parent: fd, path: p.clone() }])
            },
            {
                let p = p.clone();
                Box::new(move |fd, _| vec![Op::RemoveDir { parent: fd, path: p.clone() }])
            },
            {
                let p = p.clone();
                Box::new(move |fd, _| vec![Op::RemoveRec { parent: fd, path: p.clone() }])
            },
        ];
        let g = r.us(3);
        let mut shared: Option<Engine> = None;
        for call in calls {
            let mut e = match shared.take() {
                Some(e) => e,
                None => match small_tree(&cfg) {
                    Ok(e) => e,
                    Err(d) => {
                        // building the tree fails: attribute it
                        let (x, e) = crate::hist::run_ops(&cfg, &[], false);
                        let _ = x;
                        finish(o, &cfg, e, Err(d), seed, &mut c);
                        return (cfg, c);
                    }
                },
            };
            // the two descriptors opened last
            let fds: Vec<u32> = e.model.fds.keys().copied().filter(|f| *f > 3).collect();
            let base = [3, fds.first().copied().unwrap_or(3), fds.get(1).copied().unwrap_or(3)];
            let before = e.mutations;
            let res = (|| {
                let mut changed = false;
                for op in call(base[b], base[g]) {
                    watch::op(&op);
                    e.run(&op)?;
                    changed |= !op.is_readonly() && !e.last_op_failed();
                }
                watch::op(&Op::AuditLive);
                e.run(&Op::AuditLive)?;
                if changed {
                    e.run(&Op::AuditApi)?;
                }
                Ok(changed)
            })();
            c.count("path_calls", e.mutations - before + 1);
            hash = mix(hash ^ e.trace_hash);
            match res {
                Ok(false) => shared = Some(e),
                Ok(true) => {
                    c.stats.add(&e.stats);
                }
                Err(d) => {
                    finish(o, &cfg, e, Err(d), seed, &mut c);
                    return (cfg, c);
                }
            }
        }
        if let Some(e) = shared {
            c.stats.add(&e.stats);
        }
    }
    watch::idle();
    c.hash = mix(hash ^ seed);
    (cfg, c)
}

// ---- directory iteration

fn pages(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(mix(seed ^ 0x9A6E));
    let mut cfg = match r.below(4) {
        0 | 1 => Cfg::transient(),
        2 => Cfg::v1(),
        _ => Cfg::v2(4),
    };
    if !cfg.transient {
        cfg.bucket = 1;
        cfg.start = 10;
    }
    watch::case(&cfg, seed, "pages");
    let mut c = CaseOut { nontrivial: true, ..Default::default() };
    let mut e = match Engine::new(&cfg) {
        Ok(e) => e,
        Err(d) => {
            finish(o, &cfg, Engine::with_real(Real::dummy(&cfg)), Err(d), seed, &mut c);
            return (cfg, c);
        }
    };
    let mut extra: Option<String> = None;
    let res = match a {
        Arg::Fixed(mut k) => {
            let mut n = 0u32;
            while k >= 1 << n {
                k -= 1 << n;
                n += 1;
            }
            let mut r2 = r.clone();
            page_grid(&mut e, n, k as u32, &mut c, &mut r2)
        }
        Arg::Seed(_) => page_walk(&mut e, &mut r, &mut c, &mut extra),
    };
    c.sample = Some(json!({ "driver": "pages", "configuration": cfg.name(), "seed": seed, "calls": e.log.len() }));
    if res.is_ok() {
        if let Some(text) = extra {
            watch::idle();
            c.hash = mix(e.trace_hash ^ seed);
            c.stats = e.stats.clone();
            c.violation = Some((Replay { property: o.prop.clone(), driver: "pages".into(), cfg: cfg.clone(), ops: e.log.clone(), seed, detail: text.clone() }, text));
            return (cfg, c);
        }
    }
    finish(o, &cfg, e, res, seed, &mut c);
    (cfg, c)
}

fn page_grid(e: &mut Engine, n: u32, mask: u32, c: &mut CaseOut, r: &mut Rng) -> DResult<()> {
    // neighbours in the number space
    for d in ["before", "d", "after"] {
        e.run(&Op::Mkdir { parent: 3, path: d.into(), ctime: 0 })?;
    }
    e.run(&Op::Mkdir { parent: 3, path: "before/x".into(), ctime: 0 })?;
    e.run(&Op::Mkdir { parent: 3, path: "after/x".into(), ctime: 0 })?;
    for i in 0..n {
        let path = format!("d/e{i}");
        if r.pct(40) {
            e.run(&Op::Mkdir { parent: 3, path, ctime: 0 })?;
        } else {
            e.run(&Op::Open { parent: 3, path, flags: CREATE | EXCL, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
            e.run(&Op::Close { fd: LASTFD })?;
        }
    }
    // let the model see the positions
    e.run(&Op::AuditLive)?;
    for i in 0..n {
        if mask >> i & 1 == 1 {
            e.run(&Op::RemoveRec { parent: 3, path: format!("d/e{i}") })?;
        }
    }
    if r.pct(50) {
        e.run(&Op::Reopen)?;
    }
    e.run(&Op::Open { parent: 3, path: "d".into(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
    let fd = e.model.last_fd;
    let m = u32::MAX;
    let starts: Vec<Option<u32>> = [None, Some(m - 5), Some(m - 4)].into_iter().chain((0..n + 4).map(Some)).chain([m, m - 1, m - 3, m - 6, m - 7, m - 9, m - 10, m - 11, m / 2].map(Some)).collect();
    for s in &starts {
        for stop in 1..n + 5 {
            e.run(&Op::List { fd, start: *s, stop })?;
            c.count("listings", 1);
        }
    }
    for i in (0..n + 4).chain([m, m - 4, m - 5, m - 10, m - 11]) {
        e.run(&Op::DirEntry { fd, index: i })?;
    }
    Ok(())
}

/// pages with changes in between
fn page_walk(e: &mut Engine, r: &mut Rng, c: &mut CaseOut, bad: &mut Option<String>) -> DResult<()> {
    e.run(&Op::Mkdir { parent: 3, path: "d".into(), ctime: 0 })?;
    e.run(&Op::Mkdir { parent: 3, path: "o".into(), ctime: 0 })?;
    let mut next = 0u32;
    let add = |e: &mut Engine, r: &mut Rng, next: &mut u32| -> DResult<()> {
        let path = format!("d/e{next}");
        *next += 1;
        if r.pct(30) {
            e.run(&Op::Mkdir { parent: 3, path, ctime: 0 })
        } else {
            e.run(&Op::Open { parent: 3, path, flags: CREATE | EXCL, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
            e.run(&Op::Close { fd: LASTFD })
        }
    };
    for _ in 0..r.range(0, 60) {
        add(e, r, &mut next)?;
    }
    e.run(&Op::AuditLive)?;
    for round in 0..4 {
        let _ = round;
        e.run(&Op::Open { parent: 3, path: "d".into(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
        let mut fd = e.model.last_fd;
        let dir = e.model.fds[&fd].ino;
        let names = |e: &Engine| -> BTreeSet<String> { e.model.inodes[dir].entries.keys().cloned().collect() };
        let mut throughout = names(e);
        let mut got: BTreeMap<String, u32> = BTreeMap::new();
        let mut start: Option<u32> = if r.pct(50) { None } else { Some(0) };
        let page = r.range(1, 12) as u32;
        let churn = r.below(3);
        for step in 0..200u32 {
            let mut items = None;
            let op = Op::List { fd, start, stop: page };
            watch::op(&op);
            let keep = e.outs.take();
            e.outs = Some(vec![]);
            let res = e.run(&op);
            if let Some(Out::List(v)) = e.outs.take().unwrap().pop() {
                items = Some(v);
            }
            e.outs = keep;
            res?;
            c.count("pages_read", 1);
            let Some(items) = items else { break };
            for it in &items {
                let n = lossy(&it.name);
                if n != "." && n != ".." {
                    *got.entry(n).or_default() += 1;
                }
            }
            let Some(last) = items.last() else { break };
            let next_start = match last.index {
                i if i == crate::model::DOT_IDX => i + 1,
                i if i == crate::model::DOTDOT_IDX => 0,
                i => i + 1,
            };
            start = Some(next_start);
            // changes between two pages
            for _ in 0..r.below(churn * 3 + 1) {
                let all: Vec<String> = names(e).into_iter().collect();
                match r.below(8) {
                    0 | 1 | 2 if step < 100 => add(e, r, &mut next)?,
                    3 | 4 if !all.is_empty() => e.run(&Op::RemoveRec { parent: 3, path: format!("d/{}", r.pick(&all)) })?,
                    5 if !all.is_empty() => e.run(&Op::Rename { ofd: 3, opath: format!("d/{}", r.pick(&all)), nfd: 3, npath: format!("o/m{next}") })?,
                    6 if !all.is_empty() => e.run(&Op::Link { ofd: 3, opath: format!("d/{}", r.pick(&all)), nfd: 3, npath: format!("o/l{next}-{step}-{}", r.below(1000)) })?,
                    7 if r.pct(30) => {
                        e.run(&Op::Reopen)?;
                        e.run(&Op::Open { parent: 3, path: "d".into(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
                        fd = e.model.last_fd;
                    }
                    _ => {}
                }
                let now = names(e);
                throughout.retain(|n| now.contains(n));
                if e.model.fds.len() > 40 {
                    e.run(&Op::Reopen)?;
                    e.run(&Op::Open { parent: 3, path: "d".into(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
                    fd = e.model.last_fd;
                }
            }
        }
        for n in &throughout {
            c.count("entries_followed", 1);
            if got.get(n).copied().unwrap_or(0) != 1 {
                *bad = Some(format!("{n:?} existed during the whole iteration and was returned {} times (pages of {page})", got.get(n).copied().unwrap_or(0)));
                return Ok(());
            }
        }
        if let Some((n, k)) = got.iter().find(|x| *x.1 > 1) {
            // a name can come back at a new position only if it was removed and created again, which never happens here
            *bad = Some(format!("{n:?} was returned {k} times"));
            return Ok(());
        }
        e.run(&Op::AuditLive)?;
    }
    Ok(())
}

// ---- cycles

fn script(r: &mut Rng, cs: u64) -> Vec<Op> {
    let mut v = vec![Op::Mkdir { parent: 3, path: "cyc".into(), ctime: 0 }];
    let mut files: Vec<String> = vec![];
    let mut mounted: Vec<String> = vec![];
    let n = r.range(3, 25);
    for k in 0..n {
        let name = if r.pct(40) { format!("cyc/d{}/f{k}", r.below(3)) } else { format!("cyc/f{k}") };
        let len = *r.pick(&[1u64, 100, cs - 1, cs, cs + 1, cs * 3, 5000]);
        let off = *r.pick(&[0, 0, 0, 1, cs, cs * 5 + 3, 1 << 33]);
        match r.below(14) {
            0..=4 => {
                v.push(Op::Open { parent: 3, path: name.clone(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 });
                for _ in 0..r.below(4) {
                    v.push(Op::PWrite { fd: LASTFD, tag: k as u32 + 1, lens: vec![len as u32], off });
                    if r.pct(30) {
                        v.push(Op::SetSize { fd: LASTFD, size: *r.pick(&[0, 1, cs, cs * 2 + 7, 1 << 34]) });
                    }
                }
                v.push(Op::Close { fd: LASTFD });
                files.push(name);
            }
            5 | 6 if !files.is_empty() => {
                let f = r.pick(&files).clone();
                v.push(Op::Rename { ofd: 3, opath: f.clone(), nfd: 3, npath: name.clone() });
                if !mounted.contains(&f) {
                    files.retain(|x| *x != f);
                    files.push(name);
                }
            }
            7 if files.len() > 1 => {
                // over an existing one
                let (f, g) = (r.pick(&files).clone(), r.pick(&files).clone());
                v.push(Op::Rename { ofd: 3, opath: f.clone(), nfd: 3, npath: g.clone() });
                if f != g && !mounted.contains(&f) && !mounted.contains(&g) {
                    files.retain(|x| *x != f);
                }
            }
            8 if !files.is_empty() => {
                v.push(Op::Link { ofd: 3, opath: r.pick(&files).clone(), nfd: 3, npath: name.clone() });
                v.push(Op::Close { fd: LASTFD });
                files.push(name);
            }
            9 if !files.is_empty() => {
                let f = r.pick(&files).clone();
                v.push(Op::RemoveFile { parent: 3, path: f.clone() });
                if !mounted.contains(&f) {
                    files.retain(|x| *x != f);
                }
            }
            10 if !files.is_empty() => {
                let f = r.pick(&files).clone();
                v.push(Op::Mount { path: f.clone(), mem: mounted.len() as u32, policy: Policy::Explicit(r.below(9000)) });
                mounted.push(f);
            }
            11 if !mounted.is_empty() => {
                let f = r.pick(&mounted).clone();
                v.push(match r.below(3) {
                    0 => Op::InitMem { path: f },
                    1 => Op::StoreMem { path: f },
                    _ => Op::Unmount { path: f },
                });
            }
            12 => v.push(Op::Reopen),
            _ => {
                v.push(Op::Open { parent: 3, path: name.clone(), flags: CREATE | TRUNC, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 });
                v.push(Op::Write { fd: LASTFD, tag: 3, len: (len % 70_000) as u32 });
                v.push(Op::Close { fd: LASTFD });
                files.push(name);
            }
        }
    }
    // everything goes away again
    v.push(Op::Reopen);
    v.push(Op::RemoveRec { parent: 3, path: "cyc".into() });
    v
}

/// so many chunks that the list of free ones takes more than a page of memory
fn many(cs: u64, i: u64) -> Vec<Op> {
    let mut v = vec![Op::Mkdir { parent: 3, path: "cyc".into(), ctime: 1 }];
    for k in 0..2 {
        v.push(Op::Open { parent: 3, path: format!("cyc/{k}"), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 });
        v.push(Op::MStride { fd: LASTFD, start: 7, step: cs, n: 4300, len: 3, tag: 1 });
    }
    for (path, size) in [("cyc/0", 5 * cs), ("cyc/1", 0)] {
        v.push(Op::Open { parent: 3, path: path.into(), flags: if i == 1 { TRUNC } else { 0 }, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 });
        v.push(Op::SetSize { fd: LASTFD, size });
    }
    if i == 2 {
        v.push(Op::Reopen);
        v.push(Op::Open { parent: 3, path: "cyc/1".into(), flags: 0, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 });
    }
    v.push(Op::MStride { fd: LASTFD, start: 9, step: cs, n: 700, len: 3, tag: 90_000 });
    v.push(Op::MStrideRead { fd: LASTFD, start: 0, step: cs, n: 720, len: 20 });
    v.push(Op::Reopen);
    v.push(Op::RemoveRec { parent: 3, path: "cyc".into() });
    v
}

fn cycles(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = match a {
        Arg::Fixed(3) => Cfg::v1(),
        Arg::Fixed(i) => Cfg::v2([4, 8, 4][i as usize % 3]),
        _ => props::random_cfg(&mut r, "P12"),
    };
    watch::case(&cfg, seed, "cycles");
    let mut c = CaseOut::default();
    let mut e = match Engine::new(&cfg) {
        Ok(e) => e,
        Err(d) => {
            finish(o, &cfg, Engine::with_real(Real::dummy(&cfg)), Err(d), seed, &mut c);
            return (cfg, c);
        }
    };
    let (ops, rounds) = match a {
        Arg::Fixed(i) => (many(cfg.chunk_bytes(), i), 4),
        _ => (script(&mut r, cfg.chunk_bytes()), *r.pick(&[4, 6, 12, 24])),
    };
    let mut seen: Vec<Usage> = vec![];
    let mut bad: Option<String> = None;
    // something that stays
    let keep = r.range(0, 4);
    let res = (|| {
        for k in 0..keep {
            e.run(&Op::Open { parent: 3, path: format!("keep{k}"), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
            e.run(&Op::Write { fd: LASTFD, tag: 9, len: 30_000 })?;
            e.run(&Op::Close { fd: LASTFD })?;
        }
        for k in 0..rounds {
            for op in &ops {
                watch::op(op);
                e.run(op)?;
                if matches!(op, Op::RemoveRec { .. }) && e.last_op_failed() {
                    return Ok(()); // model and code agree that it is refused: no cycle
                }
            }
            let u = usage(&cfg, &e.real.mem);
            c.count("cycles_measured", 1);
            if k >= 2 {
                let p = &seen[1];
                let what = [
                    ("chunk positions ever allocated", p.v2_high, u.v2_high),
                    ("chunks in use", p.used, u.used),
                    ("free chunks", p.free, u.free),
                    ("blocks", p.v1, u.v1),
                    ("metadata records", p.meta, u.meta),
                    ("directory entries", p.entries, u.entries),
                ];
                if let Some(x) = what.iter().find(|x| x.1 != x.2) {
                    bad = Some(format!("after {} repetitions of a cycle that removes everything it creates: {} {} -> {}", k + 1, x.0, x.1, x.2));
                    return Ok(());
                }
            }
            seen.push(u);
        }
        e.finish()
    })();
    if let (Some(x), Some(y)) = (seen.get(seen.len() / 2), seen.last()) {
        let slack = 3 * cfg.bucket.max(1) as u64;
        if bad.is_none() && seen.len() >= 12 && cfg.bucket != 0 && y.pages > x.pages + slack {
            bad = Some(format!("stable memory grows with every cycle: {:?} pages", seen.iter().map(|u| u.pages).collect::<Vec<_>>()));
        }
    }
    c.nontrivial = e.stats.ok > 10;
    c.sample = Some(json!({ "driver": "cycles", "configuration": cfg.name(), "seed": seed, "rounds": rounds, "cycle": ops.iter().take(8).map(opstr).collect::<Vec<_>>() }));
    if let (true, Some(text)) = (res.is_ok(), bad) {
        watch::idle();
        c.hash = mix(e.trace_hash ^ seed);
        c.stats = e.stats.clone();
        c.violation = Some((Replay { property: o.prop.clone(), driver: "cycles".into(), cfg: cfg.clone(), ops, seed, detail: text.clone() }, text));
        return (cfg, c);
    }
    let _ = describe;
    finish(o, &cfg, e, res, seed, &mut c);
    (cfg, c)
}

pub const EXHAUST: Driver = Driver {
    name: "exhaustion",
    f: exhaust,
    fixed: 0,
    weight: 10,
    rule: "exhaustion: one case is one random history during which the stable memory and the mounted memories may run full at any growth; a call that traps after a refused growth is rolled back and the storage opened again, every other result and the whole state are compared against the model; a divergence that the same history without the limits shows as well is not counted; non-trivial: at least one growth was refused",
};

fn exhaust(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P29");
    let list = ["P01", "P02", "P05", "P12", "P13", "P14", "P15", "P15", "P27", "P22"];
    let ps = props::profiles(list[r.us(list.len())]);
    let mut prof = r.pick(&ps).clone();
    prof.audit_live = 20;
    prof.audit_cold = 20;
    let n = r.range(40, 250) as usize;
    watch::case(&cfg, seed, "exhaustion");
    let mut c = CaseOut::default();
    let mut e = match Engine::new(&cfg) {
        Ok(e) => e,
        Err(d) => {
            c.foreign = Some(describe(&d));
            return (cfg, c);
        }
    };
    let mut g = Gen::new(prof.clone(), cfg.chunk_bytes());
    let slack = *r.pick(&[0u64, 1, 3, 20]);
    let res = (|| {
        for k in 0..n {
            if k >= 8 && r.pct(if k == 8 { 100 } else { 8 }) {
                let mem = if r.pct(60) { None } else { Some(r.us(4) as u32) };
                let extra = match r.below(6) {
                    0 => u64::MAX,
                    1 | 2 => 0,
                    _ => r.below(slack + 1),
                };
                e.run(&Op::MemLimit { mem, extra })?;
            }
            let op = g.next(&mut r, &e.model);
            watch::op(&op);
            e.run(&op)?;
        }
        if r.pct(50) {
            e.run(&Op::MemLimit { mem: None, extra: u64::MAX })?;
        }
        watch::op(&Op::AuditLive);
        e.finish()
    })();
    watch::idle();
    c.hash = mix(e.trace_hash ^ seed);
    c.nontrivial = e.refused_calls > 0;
    c.stats = e.stats.clone();
    c.count("calls_with_a_refused_growth", e.refused_calls);
    c.count("calls_rolled_back_after_a_trap", e.traps);
    c.sample = Some(json!({ "driver": "exhaustion", "profile": prof.name, "configuration": cfg.name(), "seed": seed, "length": e.log.len(), "traps": e.traps }));
    if let Err(d) = res {
        // the same calls with memory to spare
        let free: Vec<Op> = e.log.iter().filter(|x| !matches!(x, Op::MemLimit { .. })).cloned().collect();
        if let (Some(d2), _) = hist::run_ops(&cfg, &free, true) {
            c.foreign = Some(format!("[{}] also without limits: {}", cfg.name(), describe(&d2)));
            let _ = d;
            return (cfg, c);
        }
        settle(o, &cfg, &e.log, *d, seed, &mut c);
    }
    (cfg, c)
}
