//! P31: long runs of cycles which clean up after themselves; the heap held by the file system must not follow their number.
use crate::hist::Replay;
use crate::ops::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::special::{Arg, Driver};
use crate::watch;
use serde_json::json;
use std::time::{Duration, Instant};

pub const SOAK: Driver = Driver {
    name: "soak",
    f: soak,
    fixed: KINDS.len() as u64,
    weight: 10,
    rule: "soak: one case repeats a cycle of calls with fresh names, positions and descriptors some hundred to some thousand times on one instance, after filling its caches; each cycle closes and removes whatever it made; heap bytes held are counted by the allocator at the end of every cycle; non-trivial: more than 5000 successful calls",
};

const KINDS: [&str; 14] = ["files", "folders", "descriptors", "sparse", "mounts", "refused", "names", "listing", "metadata", "looking", "writing", "growing", "swelling", "buffers"];
/// growth between two stationary windows that is taken for noise
const SLACK: i64 = 128 << 10;
/// whatever the history, an instance with nothing open holds less than this
const MOST: i64 = 12 << 20;

struct S {
    real: Real,
    n: u64,
    ok: u64,
    hash: u64,
    uniq: u64,
    r: Rng,
}
type R = Result<(), String>;

impl S {
    fn x(&mut self, op: Op) -> Result<Out, String> {
        watch::op(&op);
        let o = self.real.exec(&op);
        self.n += 1;
        self.ok += o.is_ok() as u64;
        self.hash = mix(self.hash ^ o.is_ok() as u64 ^ op.kind().len() as u64);
        if let Out::Panic(p) = &o {
            return Err(format!("{} panics: {p}", crate::engine::opstr(&op)));
        }
        Ok(o)
    }
    fn fd(&mut self, op: Op) -> Result<u32, String> {
        match self.x(op)? {
            Out::Fd(f) => Ok(f),
            _ => Ok(u32::MAX - 99),
        }
    }
    fn far(&mut self) -> u64 {
        let b = self.r.range(10, 40);
        self.r.below(1 << b)
    }
    fn name(&mut self) -> String {
        self.uniq += 1;
        format!("{}{}", ["n", "file-", "x.y.", "名"][self.r.us(4)], self.uniq)
    }
    fn open(&mut self, path: &str, flags: u16) -> Result<u32, String> {
        self.fd(Op::Open { parent: 3, path: path.into(), flags, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 })
    }
    fn close(&mut self, fd: u32) -> R {
        self.x(Op::Close { fd })?;
        Ok(())
    }
    fn drop_fd(&mut self, op: Op) -> R {
        if let Out::Fd(f) = self.x(op)? {
            self.close(f)?;
        }
        Ok(())
    }
    fn rm(&mut self, p: &str) -> R {
        self.x(Op::RemoveFile { parent: 3, path: p.into() })?;
        Ok(())
    }
}

fn cycle(s: &mut S, kind: usize) -> R {
    let cs = s.real.cfg.chunk_bytes();
    match kind {
        0 => {
            let v: Vec<String> = (0..s.r.range(3, 12)).map(|_| s.name()).collect();
            for p in &v {
                let f = s.open(p, CREATE)?;
                s.x(Op::Write { fd: f, tag: 3, len: 100 })?;
                s.close(f)?;
            }
            for p in &v {
                s.x(Op::OpenMeta { parent: 3, path: p.clone() })?;
                let f = s.open(p, 0)?;
                s.x(Op::Read { fd: f, len: 200 })?;
                s.close(f)?;
                s.rm(p)?;
            }
        }
        1 => {
            let (a, b, c) = (s.name(), s.name(), s.name());
            let p = format!("{a}/{b}/{c}");
            s.x(Op::Mkdir { parent: 3, path: p.clone(), ctime: 1 })?;
            let d = s.fd(Op::Open { parent: 3, path: format!("{a}/./{b}"), flags: DIRECTORY, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
            s.x(Op::OpenMeta { parent: d, path: c.clone() })?;
            let f = s.fd(Op::Open { parent: d, path: format!("{c}/f"), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 })?;
            s.close(f)?;
            s.close(d)?;
            if s.r.pct(50) {
                s.x(Op::RemoveRec { parent: 3, path: a })?;
            } else {
                s.rm(&format!("{p}/f"))?;
                s.x(Op::RemoveDir { parent: 3, path: p })?;
                s.x(Op::RemoveDir { parent: 3, path: format!("{a}/{b}") })?;
                s.x(Op::RemoveDir { parent: 3, path: a })?;
            }
        }
        2 => {
            let p = s.name();
            let mut v = vec![s.open(&p, CREATE)?];
            for _ in 0..s.r.range(2, 20) {
                v.push(s.open(&p, 0)?);
            }
            for _ in 0..s.r.below(5) {
                // the numbers come from a small set: a free number is remembered
                let (k, to) = (s.r.us(v.len()), 100 + s.r.below(40) as u32);
                if !v.contains(&to) {
                    s.x(Op::Renumber { from: v[k], to })?;
                    v[k] = to;
                } else {
                    let from = v[k];
                    s.x(Op::Renumber { from, to })?;
                    v.retain(|f| *f != from || from == to);
                }
            }
            while !v.is_empty() {
                let f = v.swap_remove(s.r.us(v.len()));
                s.close(f)?;
            }
            s.rm(&p)?;
        }
        3 => {
            let p = s.name();
            let f = s.open(&p, CREATE)?;
            for _ in 0..s.r.range(1, 6) {
                let off = s.far();
                s.x(Op::PWrite { fd: f, tag: 1, lens: vec![10], off })?;
                let off = s.far();
                s.x(Op::PRead { fd: f, lens: vec![50], off })?;
            }
            for _ in 0..2 {
                let size = s.far();
                s.x(Op::SetSize { fd: f, size })?;
                let off = s.r.below(size + 1) / cs * cs;
                s.x(Op::PRead { fd: f, lens: vec![3 * cs as u32], off })?;
            }
            s.close(f)?;
            s.rm(&p)?;
        }
        4 => {
            let p = s.name();
            let f = s.open(&p, CREATE)?;
            s.x(Op::Write { fd: f, tag: 1, len: 5000 })?;
            s.x(Op::Mount { path: p.clone(), mem: 0, policy: Policy::Explicit(2000) })?;
            s.x(Op::PWrite { fd: f, tag: 2, lens: vec![10], off: 100 })?;
            if s.r.pct(50) {
                s.x(Op::InitMem { path: p.clone() })?;
            }
            if s.r.pct(50) {
                s.x(Op::StoreMem { path: p.clone() })?;
            }
            s.x(Op::Mount { path: p.clone(), mem: 1, policy: Policy::Pages })?;
            s.rm(&p)?;
            s.x(Op::Unmount { path: p.clone() })?;
            s.x(Op::Unmount { path: p.clone() })?;
            s.close(f)?;
            s.rm(&p)?;
        }
        5 => {
            let (a, b) = (s.name(), s.name());
            let f = s.open(&a, CREATE)?;
            let bad = [(a.clone(), CREATE | EXCL), (b.clone(), 0), (format!("{a}/{b}"), CREATE), (a.clone(), DIRECTORY), ("".into(), CREATE), (format!("../{b}"), CREATE), (format!("{b}/{}", "z".repeat(256)), CREATE)];
            for (path, flags) in bad {
                s.drop_fd(Op::Open { parent: 3, path, flags, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 })?;
            }
            s.x(Op::OpenMeta { parent: 3, path: format!("{b}/{a}") })?;
            s.rm(&a)?;
            s.rm(&b)?;
            s.x(Op::RemoveRec { parent: 3, path: a.clone() })?;
            s.drop_fd(Op::Link { ofd: 3, opath: b.clone(), nfd: 3, npath: a.clone() })?;
            s.drop_fd(Op::Link { ofd: 3, opath: a.clone(), nfd: 3, npath: a.clone() })?;
            s.drop_fd(Op::Rename { ofd: 3, opath: b.clone(), nfd: 3, npath: a.clone() })?;
            s.x(Op::PWrite { fd: f, tag: 1, lens: vec![10], off: u64::MAX - 4 })?;
            s.x(Op::SetSize { fd: f, size: u64::MAX })?;
            s.x(Op::SetLimit { fd: f, limit: 10 })?;
            s.x(Op::Write { fd: f, tag: 1, len: 11 })?;
            s.x(Op::Mount { path: a.clone(), mem: 0, policy: Policy::Explicit(1 << 40) })?;
            s.x(Op::Mount { path: b.clone(), mem: 0, policy: Policy::Pages })?;
            s.x(Op::Unmount { path: b.clone() })?;
            s.rm(&b)?;
            let fd = 5000 + s.r.below(1000) as u32;
            for op in [Op::Close { fd }, Op::Read { fd, len: 5 }, Op::Tell { fd }, Op::Renumber { from: fd, to: f }, Op::GetStat { fd }, Op::Seek { fd: f, delta: -5, whence: 0 }] {
                s.x(op)?;
            }
            s.close(f)?;
            s.rm(&a)?;
        }
        6 => {
            let mut v = vec![s.name()];
            let f = s.open(&v[0].clone(), CREATE)?;
            s.close(f)?;
            for _ in 0..s.r.range(1, 8) {
                let (from, to) = (v[s.r.us(v.len())].clone(), s.name());
                if s.r.pct(50) {
                    let f = s.fd(Op::Link { ofd: 3, opath: from, nfd: 3, npath: to.clone() })?;
                    s.close(f)?;
                } else {
                    let f = s.fd(Op::Rename { ofd: 3, opath: from.clone(), nfd: 3, npath: to.clone() })?;
                    s.close(f)?;
                    v.retain(|x| *x != from);
                }
                v.push(to);
            }
            for p in v {
                s.rm(&p)?;
            }
        }
        7 => {
            let d = s.name();
            let fd = s.fd(Op::CreateOpenDir { parent: 3, path: d.clone(), ctime: 0 })?;
            let v: Vec<String> = (0..s.r.range(1, 8)).map(|_| s.name()).collect();
            for p in &v {
                s.x(Op::Mkdir { parent: fd, path: p.clone(), ctime: 0 })?;
            }
            for start in [None, Some(0), Some(2), Some(u32::MAX - 1)] {
                let stop = s.r.below(12) as u32;
                s.x(Op::List { fd, start, stop })?;
            }
            s.x(Op::DirEntry { fd, index: 1 })?;
            s.x(Op::DirEntry { fd, index: 77 })?;
            s.close(fd)?;
            s.x(Op::RemoveRec { parent: 3, path: d })?;
        }
        8 => {
            let p = s.name();
            let f = s.open(&p, CREATE)?;
            let t = s.r.u64();
            for op in [
                Op::SetATime { fd: f, t },
                Op::SetMTime { fd: f, t },
                Op::SetLimit { fd: f, limit: 100_000 },
                Op::SetMeta { fd: f, change: MetaChange::SizeAndLimit(50, Some(60)) },
                Op::SetStat { fd: f, fdflags: F_APPEND, rights: ALL_RIGHTS, inheriting: 0 },
                Op::Metadata { fd: f },
                Op::GetStat { fd: f },
                Op::Write { fd: f, tag: 1, len: 10 },
                Op::Write { fd: f, tag: 1, len: 10 },
                Op::Flush { fd: f },
                Op::Advice { fd: f },
                Op::Allocate { fd: f, off: 0, len: 10 },
            ] {
                s.x(op)?;
            }
            s.close(f)?;
            s.rm(&p)?;
        }
        9 => {
            // a fixed tree is looked at, nothing changes
            let f = s.open("kept/sparse", 0)?;
            for _ in 0..s.r.range(1, 10) {
                let off = s.far();
                let len = *s.r.pick(&[1u32, 50, 9000, 70_000]);
                s.x(Op::PRead { fd: f, lens: vec![len], off })?;
            }
            s.close(f)?;
            for _ in 0..s.r.range(1, 60) {
                let p = format!("kept/{}{}", *s.r.pick(&["", "x/../"]), "./".repeat(s.r.us(60)) + &s.r.below(KEPT + 50).to_string());
                s.x(Op::OpenMeta { parent: 3, path: p })?;
            }
            let p = format!("kept/{}", s.r.below(KEPT));
            let f = s.open(&p, 0)?;
            s.x(Op::Read { fd: f, len: 10 })?;
            s.close(f)?;
            let f = s.open("kept", DIRECTORY)?;
            let (from, stop) = (s.r.below(KEPT) as u32, s.r.below(30) as u32);
            s.x(Op::List { fd: f, start: Some(from), stop })?;
            s.close(f)?;
        }
        10 => {
            // files of a fixed tree are written over
            for _ in 0..s.r.range(1, 20) {
                let p = format!("kept/{}", s.r.below(KEPT));
                let f = s.open(&p, 0)?;
                let off = s.r.below(3) * 100;
                s.x(Op::PWrite { fd: f, tag: 1, lens: vec![20], off })?;
                s.x(Op::SetMTime { fd: f, t: 5 })?;
                s.close(f)?;
            }
        }
        11 if !s.real.cfg.transient => {
            // the tree gets larger and larger
            s.uniq += 1;
            let d = format!("kept/g{}/{}", s.uniq / 40, s.uniq);
            for i in 0..s.r.range(1, 30) {
                let p = format!("{d}/{i}");
                let f = s.open(&p, CREATE)?;
                s.x(Op::PWrite { fd: f, tag: 1, lens: vec![20], off: i * 1000 })?;
                s.close(f)?;
                if s.r.pct(50) {
                    s.x(Op::OpenMeta { parent: 3, path: p })?;
                }
            }
        }
        12 if !s.real.cfg.transient => {
            // a few files get more and more chunks
            let cs = s.real.cfg.chunk_bytes();
            let many = if cs <= 16384 { 256 } else { 64 };
            let p = format!("kept/large{}", s.r.below(4));
            let f = s.open(&p, CREATE)?;
            if s.uniq < 600 {
                s.uniq += 1;
                let off = s.uniq * many * cs;
                s.x(Op::PWrite { fd: f, tag: 0, lens: vec![(many * cs) as u32], off })?;
            }
            let off = s.r.range(0, s.uniq) * many * cs;
            s.x(Op::PRead { fd: f, lens: vec![(many * cs) as u32], off })?;
            s.close(f)?;
        }
        _ => {
            let p = s.name();
            let f = s.open(&p, CREATE)?;
            let lens: Vec<u32> = (0..s.r.range(0, 9)).map(|_| s.r.below(3000) as u32).collect();
            s.x(Op::WriteVec { fd: f, tag: 1, lens: lens.clone() })?;
            s.x(Op::PWrite { fd: f, tag: 1, lens: lens.clone(), off: 777 })?;
            s.x(Op::Seek { fd: f, delta: 0, whence: 0 })?;
            s.x(Op::ReadVec { fd: f, lens: lens.clone() })?;
            s.x(Op::PRead { fd: f, lens, off: 5 })?;
            s.close(f)?;
            let f = s.open(&p, TRUNC)?;
            s.close(f)?;
            s.rm(&p)?;
        }
    }
    Ok(())
}

/// files of the tree which stays
const KEPT: u64 = 2300;

/// fill whatever is filled only once
fn warm(s: &mut S, kept: bool) -> R {
    let v: Vec<String> = (0..1100).map(|i| format!("warm{}/{i}", i % 30)).collect();
    for p in &v {
        let f = s.open(p, CREATE)?;
        s.close(f)?;
    }
    for p in &v {
        s.x(Op::OpenMeta { parent: 3, path: p.clone() })?;
    }
    let f = s.open("warm0/0", 0)?;
    s.x(Op::SetSize { fd: f, size: 1 << 40 })?;
    let cs = s.real.cfg.chunk_bytes();
    for i in 0..30 {
        s.x(Op::PRead { fd: f, lens: vec![1 << 16], off: i * 1024 * cs })?;
    }
    s.close(f)?;
    for i in 0..30 {
        s.x(Op::RemoveRec { parent: 3, path: format!("warm{i}") })?;
    }
    let mut v = vec![];
    for _ in 0..60 {
        v.push(s.open("warm", CREATE)?);
    }
    for f in v {
        s.close(f)?;
    }
    s.rm("warm")?;
    if kept {
        s.x(Op::Mkdir { parent: 3, path: "kept/x".into(), ctime: 1 })?;
        for i in 0..KEPT {
            let f = s.open(&format!("kept/{i}"), CREATE)?;
            if i % 4 == 0 || s.real.cfg.transient {
                s.x(Op::PWrite { fd: f, tag: 1, lens: vec![220], off: 0 })?;
            }
            s.close(f)?;
        }
        let f = s.open("kept/sparse", CREATE)?;
        s.x(Op::SetSize { fd: f, size: 1 << 40 })?;
        for i in 0..40 {
            s.x(Op::PWrite { fd: f, tag: 1, lens: vec![20], off: (i * i * i) << 20 })?;
        }
        s.close(f)?;
    }
    Ok(())
}

fn run(s: &mut S, kinds: &[usize], secs: f64, most: &mut i64) -> R {
    let kept = kinds.iter().any(|k| [9, 10, 11, 12].contains(k));
    warm(s, kept)?;
    let stored = if kept && s.real.cfg.transient { s.real.heap } else { 0 };
    let t0 = Instant::now();
    let mut held: Vec<i64> = vec![];
    let time = Duration::from_secs_f64(secs);
    while held.len() < 60 || t0.elapsed() < time && held.len() < 200_000 {
        let k = kinds[s.r.us(kinds.len())];
        cycle(s, k)?;
        let h = s.real.heap;
        if h > MOST + stored {
            return Err(format!("{h} bytes of heap are held with nothing open after {} cycles and {} calls", held.len() + 1, s.n));
        }
        *most = (*most).max(h);
        held.push(h);
        if t0.elapsed() > time * 4 {
            break;
        }
    }
    // everything is gone again: otherwise the cycles are not what they are meant to be
    match s.x(Op::List { fd: 3, start: None, stop: 10 })? {
        Out::List(l) if l.len() == 2 + kept as usize => {}
        _ => {
            *most = -1;
            return Ok(());
        }
    }
    let n = held.len();
    let (a, b) = (held[n / 10..n * 4 / 10].iter().max().unwrap(), held[n * 7 / 10..].iter().max().unwrap());
    if *b > a + SLACK {
        return Err(format!("the heap held with nothing open grows with the number of calls: {a} bytes at first, {b} bytes later ({n} cycles, {} calls)", s.n));
    }
    Ok(())
}

fn soak(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let mut r = Rng::new(a.raw() ^ 0x50A4);
    let cfg = match a {
        Arg::Fixed(_) => Cfg::v2(4),
        Arg::Seed(_) => crate::props::random_cfg(&mut r, &o.prop),
    };
    let kinds: Vec<usize> = match a {
        Arg::Fixed(i) => vec![i as usize % KINDS.len()],
        Arg::Seed(_) if r.pct(40) => vec![r.us(KINDS.len())],
        _ => {
            let n = r.range(2, 6);
            (0..n).map(|_| r.us(KINDS.len())).collect()
        }
    };
    watch::case(&cfg, a.raw(), "soak");
    let mut c = CaseOut::default();
    let real = match Real::new(&cfg) {
        Ok(x) => x,
        Err(_) => return (cfg, c),
    };
    let mut s = S { real, n: 0, ok: 0, hash: 0, uniq: 0, r };
    let mut most = 0;
    let x = run(&mut s, &kinds, if o.thorough { 8.0 } else { 2.0 }, &mut most);
    watch::idle();
    let names: Vec<&str> = kinds.iter().map(|k| KINDS[*k]).collect();
    c.hash = mix(s.hash ^ s.n);
    c.nontrivial = s.ok > 5000;
    c.stats.ops = s.n;
    c.stats.ok = s.ok;
    c.stats.failed = s.n - s.ok;
    c.count("soak_calls", s.n);
    if most < 0 {
        c.count("soak_not_clean", 1);
    }
    c.sample = Some(json!({ "driver": "soak", "cycles": names, "configuration": cfg.name(), "calls": s.n, "most_heap_held_between_cycles": most, "most_heap_used_by_a_call": s.real.heap_peak }));
    if let Err(e) = x {
        let text = format!("{e} (cycles of {}, configuration {})", names.join("+"), cfg.name());
        if !e.contains(" panics: ") || e.contains(HEAP_MSG) || o.prop == "ANY" {
            c.violation = Some((Replay { property: o.prop.clone(), driver: "soak".into(), cfg: cfg.clone(), ops: vec![], seed: a.raw(), detail: text.clone() }, text));
        } else {
            c.foreign = Some(text);
        }
    }
    (cfg, c)
}
