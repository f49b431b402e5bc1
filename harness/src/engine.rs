//! Runs operations on the real file system and on the model and compares every observation.
use crate::mem::{SMem, WASM_PAGE};
use crate::model::*;
use crate::ops::*;
use crate::real::*;
use serde::{Deserialize, Serialize};
use stable_fs::fs::FileSystem;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Cat {
    Content,
    Size,
    Count,
    OkErr,
    ErrCode,
    Names,
    EntryType,
    DirSize,
    Nlink,
    Times,
    Limit,
    NodeId,
    FileKind,
    ChunkType,
    FdTable,
    Cursor,
    FdStat,
    MemBytes,
    Mount,
    DirIndex,
    Panic,
    Work,
    Canary,
    Struct,
    Diff,
    Confine,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Phase {
    Op,
    Live,
    Api,
    Cold,
    Struct,
}

#[derive(Clone, Debug)]
pub struct Div {
    pub step: usize,
    pub phase: Phase,
    pub cat: Cat,
    pub why: Option<Why>,
    pub ino: Option<Ino>,
    pub off: Option<u64>,
    pub detail: String,
    /// the operation (or, after localisation, the operation that caused it)
    pub op: Op,
    pub op_failed: bool,
    /// the object is one the operation names
    pub in_targets: bool,
    /// an operation reported an error although it should have worked, and the state changed
    pub err_changed_state: bool,
    pub obj: ObjInfo,
    pub localised: bool,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct ObjInfo {
    pub dir: bool,
    pub mounted: bool,
    pub was_mounted: bool,
    pub linked: bool,
    pub shrunk: bool,
    pub alive: bool,
    pub fresh: bool,
    pub limited: bool,
    pub big: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub ops: u64,
    pub ok: u64,
    pub failed: u64,
    pub by_kind: BTreeMap<&'static str, (u64, u64)>,
    pub audits: u64,
    pub objects_audited: u64,
    pub bytes_compared: u64,
    pub names_checked: u64,
    pub chunks_accounted: u64,
    pub err_why: BTreeMap<String, u64>,
    pub max_live: u64,
    pub reopens: u64,
    pub max_steps: u64,
    pub soft: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.ops += o.ops;
        self.ok += o.ok;
        self.failed += o.failed;
        for (k, v) in &o.by_kind {
            let e = self.by_kind.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        self.audits += o.audits;
        self.objects_audited += o.objects_audited;
        self.bytes_compared += o.bytes_compared;
        self.names_checked += o.names_checked;
        self.chunks_accounted += o.chunks_accounted;
        for (k, v) in &o.err_why {
            *self.err_why.entry(k.clone()).or_default() += v;
        }
        self.max_live = self.max_live.max(o.max_live);
        self.reopens += o.reopens;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.soft += o.soft;
    }
}

pub type DResult<T> = Result<T, Box<Div>>;

/// the same call with other descriptors
pub fn map_fds(op: &Op, m: &dyn Fn(u32) -> u32) -> Op {
    let mut op = op.clone();
    let f = |x: &mut u32| *x = m(*x);
    use Op::*;
    match &mut op {
        Open { parent, .. } | CreateOpenDir { parent, .. } | Mkdir { parent, .. } | OpenMeta { parent, .. }
        | RemoveFile { parent, .. } | RemoveDir { parent, .. } | RemoveRec { parent, .. } | MCreate { parent, .. }
        | MRemove { parent, .. } | MLookup { parent, .. } | MOpen { parent, .. } => f(parent),
        Close { fd } | Read { fd, .. } | ReadVec { fd, .. } | PRead { fd, .. } | Write { fd, .. } | WriteVec { fd, .. }
        | PWrite { fd, .. } | Seek { fd, .. } | Tell { fd } | SetSize { fd, .. } | SetLimit { fd, .. }
        | SetATime { fd, .. } | SetMTime { fd, .. } | SetMeta { fd, .. } | GetStat { fd } | SetStat { fd, .. }
        | Metadata { fd } | List { fd, .. } | DirEntry { fd, .. } | Flush { fd } | Advice { fd } | Allocate { fd, .. }
        | MStride { fd, .. } | MStrideRead { fd, .. } => f(fd),
        Rename { ofd, nfd, .. } | Link { ofd, nfd, .. } => {
            f(ofd);
            f(nfd);
        }
        Renumber { from, to } => {
            f(from);
            f(to);
        }
        _ => {}
    }
    op
}

pub struct Engine {
    pub real: Real,
    pub model: Model,
    pub step: usize,
    pub stats: Stats,
    /// non-fatal divergences (wrong error codes)
    pub soft: Vec<Div>,
    /// concrete operations executed so far
    pub log: Vec<Op>,
    /// observed results (when recording)
    pub outs: Option<Vec<Out>>,
    /// hash of the result stream
    pub trace_hash: u64,
    pub node_offset_seen: BTreeSet<u64>,
    last_failed: bool,
    /// identifies state-changing operations executed so far
    pub mutations: u64,
    pub sample_salt: u64,
    /// memories may be full: a call that traps for want of memory is rolled back, as the host of a canister does
    pub exhaust: bool,
    pub traps: u64,
    pub refused_calls: u64,
}

/// raw observation of a node, via the storage layer
fn raw_list(fs: &FileSystem, node: u64) -> Vec<ListItem> {
    let mut v = vec![];
    fs.storage.with_direntries(node, Some(0), &mut |i, e| {
        v.push(ListItem {
            index: *i,
            name: e.name.bytes[..e.name.length as usize].to_vec(),
            node: e.node,
            etype: e.entry_type.map(|t| t.into()),
        });
        v.len() < 1_000_000
    });
    v
}

impl Engine {
    pub fn new(cfg: &Cfg) -> DResult<Engine> {
        let real = Real::new(cfg).map_err(|p| Self::panic_div(p))?;
        Ok(Self::with_real(real))
    }
    pub fn with_real(mut real: Real) -> Engine {
        real.work_limit = 30_000_000;
        let c = &real.cfg;
        let mut model = Model::new(c.transient, c.v1, if c.kb == 0 { 16 } else { c.kb });
        model.allocated = c.base() > 0;
        Engine {
            real,
            model,
            step: 0,
            stats: Stats::default(),
            soft: vec![],
            log: vec![],
            outs: None,
            trace_hash: 0,
            node_offset_seen: BTreeSet::new(),
            last_failed: false,
            mutations: 0,
            sample_salt: 1,
            exhaust: false,
            traps: 0,
            refused_calls: 0,
        }
    }

    pub fn last_op_failed(&self) -> bool {
        self.last_failed
    }

    pub fn panic_div(p: String) -> Box<Div> {
        let cat = if is_work_panic(&p) { Cat::Work } else { Cat::Panic };
        Box::new(Div {
            step: 0,
            phase: Phase::Op,
            cat,
            why: None,
            ino: None,
            off: None,
            detail: p,
            op: Op::Reopen,
            op_failed: false,
            in_targets: false,
            err_changed_state: false,
            obj: ObjInfo::default(),
            localised: false,
        })
    }

    fn div<T>(&self, phase: Phase, cat: Cat, ino: Option<Ino>, detail: String) -> DResult<T> {
        let op = self.log.last().cloned().unwrap_or(Op::Reopen);
        Err(Box::new(Div {
            step: self.step,
            phase,
            cat,
            why: None,
            ino,
            off: None,
            detail,
            op,
            op_failed: self.last_failed,
            in_targets: ino.is_some_and(|i| {
                let entries = matches!(cat, Cat::Names | Cat::EntryType | Cat::DirSize | Cat::DirIndex | Cat::Size);
                self.model.targets.contains(&i) || entries && self.model.parents.contains(&i)
            }),
            err_changed_state: false,
            obj: self.obj_info(ino),
            localised: false,
        }))
    }

    fn obj_info(&self, ino: Option<Ino>) -> ObjInfo {
        match ino {
            None => ObjInfo::default(),
            Some(i) => {
                let n = &self.model.inodes[i];
                ObjInfo {
                    dir: n.dir,
                    mounted: n.mounted.is_some(),
                    was_mounted: n.was_mounted,
                    linked: n.linked || n.nlink > 1,
                    shrunk: n.shrunk,
                    alive: n.alive,
                    fresh: n.host.size == 0 && !n.shrunk,
                    limited: self.model.view(i).limit.is_some(),
                    big: self.model.view(i).size > 1 << 36,
                }
            }
        }
    }

    /// replace the "last descriptor" placeholder
    pub fn subst(&self, op: &Op) -> Op {
        let l = self.model.last_fd;
        map_fds(op, &|x| if x == LASTFD { l } else { x })
    }

    pub fn run(&mut self, op: &Op) -> DResult<()> {
        if let Some(v) = op.expand() {
            for o in v {
                self.run1(&o)?;
            }
            return Ok(());
        }
        self.run1(op)
    }

    pub fn run1(&mut self, op: &Op) -> DResult<()> {
        let op = self.subst(op);
        if let Op::InitMem { path } | Op::StoreMem { path } = &op {
            // copying is proportional to the file size: not for terabytes
            if self.model.mount_copy_size(path) > 8 << 20 {
                return Ok(());
            }
        }
        self.step += 1;
        self.log.push(op.clone());
        match op {
            Op::AuditLive => return self.audit_live(),
            Op::AuditApi => return self.audit_api(),
            Op::AuditCold => return self.audit_cold(),
            Op::AuditStruct if self.real.cfg.mask => return Ok(()),
            Op::AuditStruct => return self.audit_struct(),
            _ => {}
        }
        if let Op::MemLimit { mem, .. } = &op {
            self.exhaust = true;
            if let Some(i) = mem {
                self.real.memory(*i);
                self.model.ensure_mem(*i, &self.real.mems);
            }
            self.real.exec(&op);
            return Ok(());
        }
        let before_call = self.exhaust.then(|| (self.real.mem.snapshot(), self.real.mems.iter().map(|m| m.snapshot()).collect::<Vec<_>>()));
        if let Op::Mount { mem, .. } | Op::MemPoke { mem, .. } = &op {
            self.real.memory(*mem);
            self.model.ensure_mem(*mem, &self.real.mems);
        }
        use ic_stable_structures::Memory;
        let pages: Vec<u64> = self.real.mems.iter().map(|m| m.size()).collect();
        CANARY.with(|c| *c.borrow_mut() = None);
        let out = self.real.exec(&op);
        let refused = if self.exhaust { self.real.refused() } else { 0 };
        self.refused_calls += (refused > 0) as u64;
        self.stats.ops += 1;
        let k = self.stats.by_kind.entry(op.kind()).or_default();
        if out.is_ok() {
            k.0 += 1;
            self.stats.ok += 1;
        } else {
            k.1 += 1;
            self.stats.failed += 1;
        }
        if matches!(op, Op::Reopen) {
            self.stats.reopens += 1;
        }
        self.last_failed = !out.is_ok();
        if !op.is_readonly() {
            self.mutations += 1;
        }
        self.hash_out(&out);
        if let Some(o) = &mut self.outs {
            o.push(out.clone());
        }
        if let Some(c) = CANARY.with(|c| c.borrow_mut().take()) {
            return self.div(Phase::Op, Cat::Canary, None, c);
        }
        if let (Out::Panic(p), Some((mem, mems)), true) = (&out, &before_call, refused > 0) {
            if !is_work_panic(p) && !self.real.cfg.transient {
                self.traps += 1;
                self.last_failed = false;
                self.real.mem.restore(mem);
                for (m, s) in self.real.mems.iter().zip(mems) {
                    m.restore(s);
                }
                return self.run1(&Op::Reopen);
            }
        }
        if let (Out::Err(_), true) = (&out, refused > 0) {
            // refused for want of memory: allowed, if nothing changed
            if !matches!(self.model.clone().apply(&op, &out, &pages), Exp::Err(..)) {
                self.audit_live()?;
                self.audit_cold()?;
                return self.audit_struct();
            }
        }
        if let Out::Panic(p) = &out {
            // where the call should have been aimed at, for attribution
            let cat = if is_work_panic(p) { Cat::Work } else { Cat::Panic };
            let p = p.clone();
            let d = self.div::<()>(Phase::Op, cat, None, format!("{} -> {}", opstr(&op), p));
            // what the model says about the call
            let exp = self.model.clone().apply(&op, &Out::Nothing, &pages);
            return d.map_err(|mut d| {
                if let Exp::Err(_, w) = exp {
                    d.why = Some(w);
                }
                d
            });
        }
        let fd_taken = match &out {
            Out::Fd(n) => self.model.fds.contains_key(n) || *n <= 3,
            _ => false,
        };
        let before = if out.is_ok() { None } else { Some(self.model.clone()) };
        let exp = self.model.apply(&op, &out, &pages);
        if let Exp::Err(_, w) = &exp {
            *self.stats.err_why.entry(format!("{w:?}")).or_default() += 1;
        }
        self.stats.max_live = self.stats.max_live.max(self.model.live().count() as u64);
        let r = self.compare(&op, &exp, &out, fd_taken);
        if let Err(mut d) = r {
            if d.cat == Cat::ErrCode {
                self.stats.soft += 1;
                if self.soft.len() < 20 {
                    self.soft.push(*d);
                }
                return self.resync();
            }
            // a failure that should have been a success: did it change anything?
            if d.cat == Cat::OkErr && !out.is_ok() {
                if let Some(b) = before {
                    let t = std::mem::replace(&mut self.model, b);
                    let is_partial = matches!(op, Op::WriteVec { .. } | Op::PWrite { .. } | Op::RemoveRec { .. });
                    if !is_partial && self.audit_live().is_err() {
                        d.err_changed_state = true;
                    }
                    self.model = t;
                }
            }
            return Err(d);
        }
        self.resync()
    }

    fn hash_out(&mut self, o: &Out) {
        let s = match o {
            Out::Data(n, d) => {
                let mut h = *n;
                for b in d.iter().step_by(97) {
                    h = h.wrapping_mul(31).wrapping_add(*b as u64);
                }
                h
            }
            Out::Num(n) => *n ^ 0x10,
            Out::Fd(n) => *n as u64 ^ 0x2000,
            Out::Err(n) => *n as u64 ^ 0x30000,
            Out::List(v) => v.len() as u64 ^ 0x400000,
            Out::Meta(m) => m.size ^ m.nlink << 40 ^ 0x5000000,
            _ => 0x66,
        };
        self.trace_hash = crate::rng::mix(self.trace_hash ^ s);
    }

    // ---- comparison of one result

    fn compare(&mut self, op: &Op, exp: &Exp, out: &Out, fd_taken: bool) -> DResult<()> {
        let ph = Phase::Op;
        match (exp, out) {
            (Exp::Any, _) => Ok(()),
            (Exp::Err(codes, why), Out::Err(c)) => {
                if codes.contains(c) {
                    Ok(())
                } else {
                    self.div(ph, Cat::ErrCode, None, format!("{}: error {c}, expected {codes:?} ({why:?})", opstr(op))).map_err(|mut d| {
                        d.why = Some(*why);
                        d
                    })
                }
            }
            (Exp::Err(codes, why), o) => self
                .div(ph, Cat::OkErr, None, format!("{}: returned {}, expected error {codes:?} ({why:?})", opstr(op), o.brief()))
                .map_err(|mut d| {
                    d.why = Some(*why);
                    d
                }),
            (_, Out::Err(c)) => self.div(ph, Cat::OkErr, None, format!("{}: error {c}, expected success", opstr(op))),
            (Exp::NewFd, Out::Fd(n)) => {
                if fd_taken {
                    return self.div(ph, Cat::FdTable, None, format!("{}: returned descriptor {n}, which is already open or reserved", opstr(op)));
                }
                Ok(())
            }
            (Exp::Out(Out::Num(a)), Out::Num(b)) => {
                if a == b {
                    return Ok(());
                }
                let cat = match op {
                    Op::Unmount { .. } => Cat::Mount,
                    Op::Seek { .. } | Op::Tell { .. } => Cat::Cursor,
                    _ => Cat::Count,
                };
                self.div(ph, cat, None, format!("{}: returned {b}, expected {a}", opstr(op)))
            }
            (Exp::Out(Out::Stat(..)), Out::Stat(..)) => {
                let Exp::Out(a) = exp else { unreachable!() };
                if a == out {
                    Ok(())
                } else {
                    self.div(ph, Cat::FdStat, None, format!("{}: {out:?}, expected {a:?}", opstr(op)))
                }
            }
            (Exp::Out(a), b) if a == b => Ok(()),
            (Exp::Data(d), Out::Data(n, got)) => {
                let ino = self.op_ino(op);
                self.stats.bytes_compared += d.len() as u64;
                if *n != d.len() as u64 {
                    return self.div(ph, Cat::Count, ino, format!("{}: {n} bytes, expected {}", opstr(op), d.len()));
                }
                if let Some(k) = (0..d.len()).find(|k| d[*k] != got[*k]) {
                    let s = format!("{}: byte {k} is {:02x}, expected {:02x}", opstr(op), got[k], d[k]);
                    return self.div(ph, Cat::Content, ino, s).map_err(|mut x| {
                        x.off = Some(k as u64);
                        x
                    });
                }
                Ok(())
            }
            (Exp::Meta(i), Out::Meta(m)) => {
                let i = *i;
                self.check_meta(ph, i, m, false)
            }
            (Exp::FakeMeta, Out::Meta(m)) => {
                if m.node != u64::MAX || m.dir || m.size != 0 {
                    return self.div(ph, Cat::FileKind, None, format!("{}: {m:?}", opstr(op)));
                }
                Ok(())
            }
            (Exp::List(names, start, stop), Out::List(items)) => {
                let Op::List { fd, .. } = op else { unreachable!() };
                let d = self.model.fds[fd].ino;
                let _ = names;
                self.check_list(ph, d, items, *start, *stop)
            }
            (Exp::Entry(d, idx), Out::Item(it)) => {
                let i = &self.model.inodes[*d];
                let (name, en) = i.entries.iter().find(|(_, en)| en.index.get() == *idx).map(|(a, b)| (a.clone(), b.clone())).unwrap();
                if it.name != name.as_bytes() {
                    return self.div(ph, Cat::DirIndex, Some(*d), format!("entry {idx} is {:?}, expected {name:?}", lossy(&it.name)));
                }
                self.check_node(ph, en.ino, it.node)
            }
            (a, b) => self.div(ph, Cat::OkErr, None, format!("{}: returned {}, expected {a:?}", opstr(op), b.brief())),
        }
    }

    fn op_ino(&self, op: &Op) -> Option<Ino> {
        match op {
            Op::Read { fd, .. } | Op::ReadVec { fd, .. } | Op::PRead { fd, .. } => self.model.fds.get(fd).map(|f| f.ino),
            _ => None,
        }
    }

    fn check_node(&mut self, ph: Phase, ino: Ino, node: u64) -> DResult<()> {
        let c = &self.model.inodes[ino].node;
        match c.get() {
            Some(n) if n == node => Ok(()),
            Some(n) => {
                // does the observed number belong to another live object?
                let other = self.model.live().find(|i| self.model.inodes[*i].node.get() == Some(node));
                self.div(ph, Cat::NodeId, Some(ino), format!("object number {node}, expected {n} (number of {other:?})"))
            }
            None => {
                c.set(Some(node));
                if let Some(o) = self.model.live().find(|i| *i != ino && self.model.inodes[*i].node.get() == Some(node)) {
                    return self.div(ph, Cat::NodeId, Some(ino), format!("object number {node} is shared with {}", self.path_of(o)));
                }
                Ok(())
            }
        }
    }

    pub fn path_of(&self, ino: Ino) -> String {
        if ino == ROOT {
            return "/".into();
        }
        match self.model.names_of(ino).first() {
            Some((d, n)) if *d == ROOT => n.clone(),
            Some((d, n)) => format!("{}/{}", self.path_of(*d), n),
            None => format!("<unnamed {ino}>"),
        }
    }

    fn check_meta(&mut self, ph: Phase, ino: Ino, m: &MetaOut, host: bool) -> DResult<()> {
        self.check_node(ph, ino, m.node)?;
        let e = self.model.meta_out(ino, host);
        let p = || format!("{} (object {ino})", self.path_of(ino));
        let cat = if m.dir != e.dir {
            Cat::FileKind
        } else if m.size != e.size {
            if m.dir {
                Cat::DirSize
            } else {
                Cat::Size
            }
        } else if m.nlink != e.nlink {
            Cat::Nlink
        } else if m.times != e.times {
            Cat::Times
        } else if m.limit != e.limit {
            Cat::Limit
        } else if m.v1 != e.v1 {
            Cat::ChunkType
        } else {
            return Ok(());
        };
        let s = format!("metadata of {}: {m:?}, expected {e:?}", p());
        self.div(ph, cat, Some(ino), s)
    }

    /// listing of a directory against the model
    fn check_list(&mut self, ph: Phase, d: Ino, items: &[ListItem], start: Option<u32>, stop: u32) -> DResult<()> {
        let stop = stop.max(1) as usize;
        let mut rest: &[ListItem] = items;
        let truncated = items.len() >= stop;
        if items.len() > stop {
            return self.div(ph, Cat::DirIndex, Some(d), format!("the callback was called {} times after it asked to stop at {stop}", items.len()));
        }
        let mut dots: Vec<(&str, u32)> = vec![];
        match start {
            None | Some(DOT_IDX) => dots = vec![(".", DOT_IDX), ("..", DOTDOT_IDX)],
            Some(DOTDOT_IDX) => dots = vec![("..", DOTDOT_IDX)],
            _ => {}
        }
        let from = match start {
            None | Some(DOT_IDX) | Some(DOTDOT_IDX) => 0,
            Some(s) => s,
        };
        for (n, idx) in dots {
            match rest.first() {
                Some(it) if it.name == n.as_bytes() && it.index == idx => {
                    if n == "." {
                        if let Some(nd) = self.model.inodes[d].node.get() {
                            if it.node != nd {
                                return self.div(ph, Cat::NodeId, Some(d), format!("entry \".\" has number {}, expected {nd}", it.node));
                            }
                        }
                    }
                    rest = &rest[1..];
                }
                None if truncated => return Ok(()),
                x => {
                    let s = format!("listing of {}: {:?} instead of {n:?}", self.path_of(d), x.map(|i| lossy(&i.name)));
                    return self.div(ph, Cat::DirIndex, Some(d), s);
                }
            }
        }
        let mut prev: Option<u32> = None;
        let mut seen = BTreeSet::new();
        for it in rest {
            self.stats.names_checked += 1;
            let name = match std::str::from_utf8(&it.name) {
                Ok(s) => s.to_string(),
                Err(_) => return self.div(ph, Cat::Names, Some(d), format!("name {:?} is not UTF-8", it.name)),
            };
            if !seen.insert(name.clone()) {
                return self.div(ph, Cat::Names, Some(d), format!("{name:?} is listed twice in {}", self.path_of(d)));
            }
            if prev.is_some_and(|p| p >= it.index) || it.index < from || it.index == 0 {
                return self.div(ph, Cat::DirIndex, Some(d), format!("{name:?} at position {} after {prev:?}, start {start:?}", it.index));
            }
            prev = Some(it.index);
            let Some(en) = self.model.inodes[d].entries.get(&name).cloned() else {
                return self.div(ph, Cat::Names, Some(d), format!("{name:?} is listed in {}, but does not exist", self.path_of(d)));
            };
            let e = &self.model.inodes[d].entries[&name];
            if e.index.get() == 0 {
                e.index.set(it.index);
                let dup = self.model.inodes[d].entries.iter().find(|(n, x)| **n != name && x.index.get() == it.index).map(|x| x.0.clone());
                if let Some(o) = dup {
                    return self.div(ph, Cat::DirIndex, Some(d), format!("{name:?} and {o:?} have position {}", it.index));
                }
            } else if e.index.get() != it.index {
                let was = e.index.get();
                return self.div(ph, Cat::DirIndex, Some(d), format!("position of {name:?} changed from {was} to {}", it.index));
            }
            self.check_node(ph, en.ino, it.node)?;
            let want = if self.model.inodes[en.ino].dir { 3u8 } else { 4 };
            if it.etype != Some(want) && !(it.etype.is_none() && self.model.inodes[en.ino].legacy_entry) {
                return self.div(ph, Cat::EntryType, Some(d), format!("type of {name:?} is {:?}, expected {want}", it.etype));
            }
        }
        if truncated {
            // everything between the start and the last one shown must have been shown
            let last = prev.unwrap_or(0);
            for (n, en) in &self.model.inodes[d].entries {
                let x = en.index.get();
                if x != 0 && x >= from && x <= last && !seen.contains(n) {
                    return self.div(ph, Cat::Names, Some(d), format!("{n:?} at position {x} was skipped (start {start:?})"));
                }
            }
            return Ok(());
        }
        for (n, en) in &self.model.inodes[d].entries {
            let x = en.index.get();
            if !seen.contains(n) && (x >= from && x != 0 || from <= 1) {
                return self.div(ph, Cat::Names, Some(d), format!("{n:?} is missing in the listing of {} from {start:?}", self.path_of(d)));
            }
        }
        Ok(())
    }

    /// object number of a directory, from the root listing downwards
    fn real_node(&self, ino: Ino) -> Option<u64> {
        if ino == ROOT {
            return Some(self.real.fs.storage.root_node());
        }
        let (d, n) = self.model.names_of(ino).into_iter().next()?;
        let p = self.real_node(d)?;
        raw_list(&self.real.fs, p).into_iter().find(|i| i.name == n.as_bytes()).map(|i| i.node)
    }

    /// adopt what a partly failed recursive removal did
    fn resync(&mut self) -> DResult<()> {
        let Some((d, path, _sub)) = self.model.resync.take() else { return Ok(()) };
        let Ok(f) = self.model.resolve(d, &path) else { return Ok(()) };
        let mut dirs = vec![];
        if !f.is_base {
            // the top itself
            if let Some(p) = self.real_node(f.parent) {
                if !raw_list(&self.real.fs, p).iter().any(|i| i.name == f.name.as_bytes()) {
                    if !self.model.adopt_removed(f.parent, &f.name) {
                        return self.div(Phase::Op, Cat::Names, Some(f.ino), format!("{} disappeared in a failed recursive removal although it is in use", f.name));
                    }
                    return Ok(());
                }
            }
        }
        dirs.push(f.ino);
        while let Some(x) = dirs.pop() {
            if !self.model.inodes[x].alive || !self.model.inodes[x].dir {
                continue;
            }
            let Some(n) = self.real_node(x) else { continue };
            let names: BTreeSet<Vec<u8>> = raw_list(&self.real.fs, n).into_iter().map(|i| i.name).collect();
            let mine: Vec<String> = self.model.inodes[x].entries.keys().cloned().collect();
            for m in mine {
                if !names.contains(m.as_bytes()) {
                    if !self.model.adopt_removed(x, &m) {
                        return self.div(Phase::Op, Cat::Names, Some(x), format!("{m} disappeared in a failed recursive removal although it is in use"));
                    }
                } else {
                    dirs.push(self.model.inodes[x].entries[&m].ino);
                }
            }
        }
        Ok(())
    }

    // ---- audits

    /// descriptors, mounted memories and the whole tree, on the live instance
    pub fn audit_live(&mut self) -> DResult<()> {
        self.stats.audits += 1;
        self.audit_fds()?;
        self.audit_mems()?;
        let r = guard(|| {
            let mut fs = std::mem::replace(&mut self.real.fs, dummy_fs());
            let r = self.audit_tree(Phase::Live, &mut fs, false);
            self.real.fs = fs;
            r
        });
        match r {
            Ok(r) => r,
            Err(p) => self.div(Phase::Live, if is_work_panic(&p) { Cat::Work } else { Cat::Panic }, None, format!("audit: {p}")),
        }
    }

    fn audit_fds(&mut self) -> DResult<()> {
        let fds: Vec<(u32, Fd)> = self.model.fds.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (fd, f) in &fds {
            let st = self.real.exec(&Op::GetStat { fd: *fd });
            let want = Out::Stat(self.model.inodes[f.ino].dir, f.fdflags, f.rights, f.inheriting);
            if st != want {
                let cat = if let (Out::Stat(a, ..), Out::Stat(b, ..)) = (&st, &want) { if a == b { Cat::FdStat } else { Cat::FdTable } } else { Cat::FdTable };
                return self.div(Phase::Live, cat, Some(f.ino), format!("descriptor {fd}: {st:?}, expected {want:?}"));
            }
            if !self.model.inodes[f.ino].dir {
                let t = self.real.exec(&Op::Tell { fd: *fd });
                if t != Out::Num(f.cursor) {
                    return self.div(Phase::Live, Cat::Cursor, Some(f.ino), format!("cursor of descriptor {fd}: {t:?}, expected {}", f.cursor));
                }
            }
            if *fd > 2 {
                match self.real.exec(&Op::Metadata { fd: *fd }) {
                    Out::Meta(m) => {
                        if let Some(n) = self.model.inodes[f.ino].node.get() {
                            if n != m.node {
                                return self.div(Phase::Live, Cat::FdTable, Some(f.ino), format!("descriptor {fd} denotes object {}, expected {n}", m.node));
                            }
                        }
                        self.check_meta(Phase::Live, f.ino, &m, false)?;
                    }
                    o => return self.div(Phase::Live, Cat::FdTable, Some(f.ino), format!("metadata of open descriptor {fd}: {}", o.brief())),
                }
            }
        }
        let top = self.model.fds.keys().copied().filter(|f| *f < 1000).max().unwrap_or(3) + 3;
        for fd in 0..top {
            if !self.model.fds.contains_key(&fd) {
                let st = self.real.exec(&Op::GetStat { fd });
                if st != Out::Err(e::BADF) {
                    return self.div(Phase::Live, Cat::FdTable, None, format!("descriptor {fd} should be closed: {st:?}"));
                }
            }
        }
        Ok(())
    }

    fn audit_mems(&mut self) -> DResult<()> {
        for k in 0..self.model.mems.len() {
            let mm = &self.model.mems[k];
            let mut pages: BTreeSet<u64> = mm.real.touched_pages().into_iter().collect();
            pages.extend(mm.data.touched());
            let mut a = [0u8; 4096];
            let mut b = [0u8; 4096];
            let mut bad = None;
            for p in pages {
                mm.real.peek(p * 4096, &mut a);
                mm.data.read(p * 4096, &mut b);
                if a != b {
                    let o = (0..4096).find(|i| a[*i] != b[*i]).unwrap();
                    bad = Some((p * 4096 + o as u64, a[o], b[o]));
                    break;
                }
                self.stats.bytes_compared += 4096;
            }
            if let Some((o, x, y)) = bad {
                let ino = self.model.live().find(|i| self.model.inodes[*i].mounted == Some(k as u32));
                return self.div(Phase::Live, Cat::MemBytes, ino, format!("memory {k} byte {o}: {x:02x}, expected {y:02x}"));
            }
        }
        Ok(())
    }

    /// ranges of a file worth comparing
    fn ranges(&self, sp: &Sparse, size: u64) -> Vec<(u64, u64)> {
        if size <= 192 * 1024 {
            return vec![(0, size)];
        }
        let mut pages: BTreeSet<u64> = BTreeSet::new();
        let last = (size - 1) / 4096;
        let mut add = |p: u64| {
            if p <= last {
                pages.insert(p);
            }
        };
        for p in sp.touched() {
            add(p);
            add(p + 1);
            if p > 0 {
                add(p - 1);
            }
            // the rest of the surrounding chunk
            add(p / 4 * 4);
            add(p / 16 * 16);
            add(p / 4 * 4 + 3);
            add(p / 16 * 16 + 15);
        }
        add(0);
        add(last);
        add(last.saturating_sub(1));
        let mut h = self.sample_salt ^ size ^ self.step as u64;
        for _ in 0..6 {
            h = crate::rng::mix(h);
            add(h % (last + 1));
        }
        let mut v: Vec<(u64, u64)> = vec![];
        for p in pages {
            let a = p * 4096;
            let b = (a + 4096).min(size);
            match v.last_mut() {
                Some(l) if l.1 == a && l.1 - l.0 < 256 * 1024 => l.1 = b,
                _ => v.push((a, b)),
            }
        }
        v
    }

    /// compare every object of the tree; `host`: mounts are expected to be gone
    fn audit_tree(&mut self, ph: Phase, fs: &mut FileSystem, host: bool) -> DResult<()> {
        let root = fs.storage.root_node();
        let mut stack: Vec<(Ino, u64)> = vec![(ROOT, root)];
        let mut done: BTreeSet<Ino> = BTreeSet::new();
        while let Some((ino, node)) = stack.pop() {
            let m = match fs.storage.get_metadata(node) {
                Ok(m) => meta_out(&m),
                Err(er) => return self.div(ph, Cat::Names, Some(ino), format!("no metadata for {} (number {node}): {er:?}", self.path_of(ino))),
            };
            self.check_meta(ph, ino, &m, host)?;
            match fs.metadata_from_node(node) {
                Ok(m2) if meta_out(&m2) == m => {}
                x => return self.div(ph, Cat::NodeId, Some(ino), format!("metadata_from_node({node}): {x:?}, expected {m:?}")),
            }
            if !done.insert(ino) {
                continue;
            }
            self.stats.objects_audited += 1;
            if self.model.inodes[ino].dir {
                let items = raw_list(fs, node);
                self.check_list(ph, ino, &items, Some(0), u32::MAX)?;
                for it in items {
                    let child = self.model.inodes[ino].entries[std::str::from_utf8(&it.name).unwrap()].ino;
                    stack.push((child, it.node));
                }
            } else {
                self.check_content(ph, fs, ino, node, host)?;
            }
        }
        Ok(())
    }

    fn check_content(&mut self, ph: Phase, fs: &mut FileSystem, ino: Ino, node: u64, host: bool) -> DResult<()> {
        let size = if host { self.model.inodes[ino].host.size } else { self.model.size(ino) };
        let mounted = self.model.inodes[ino].mounted.is_some() && !host;
        if mounted && size > 64 << 20 {
            return Ok(()); // reading would materialise the memory
        }
        let sp = if host { &self.model.inodes[ino].data } else { self.model.content(ino) };
        let ranges = self.ranges(sp, size);
        for (a, b) in ranges {
            // one byte more than there is, to see that nothing comes from beyond the end
            let want_n = (b - a) as usize;
            let extra = if b == size { 3 } else { 0 };
            let mut buf = vec![0xA5u8; want_n + extra];
            let n = match fs.storage.read(node, a, &mut buf) {
                Ok(n) => n,
                Err(x) => return self.div(ph, Cat::Content, Some(ino), format!("reading {}: {x:?}", self.path_of(ino))),
            };
            let mut want = vec![0u8; want_n];
            let sp = if host { &self.model.inodes[ino].data } else { self.model.content(ino) };
            sp.read(a, &mut want);
            self.stats.bytes_compared += want_n as u64;
            if n != want_n as u64 || buf[want_n..].iter().any(|x| *x != 0xA5) {
                return self.div(ph, Cat::Content, Some(ino), format!("reading {} at {a}: {n} bytes, expected {want_n}", self.path_of(ino)));
            }
            if let Some(k) = (0..want_n).find(|k| want[*k] != buf[*k]) {
                let s = format!("{} byte {}: {:02x}, expected {:02x} (size {size})", self.path_of(ino), a + k as u64, buf[k], want[k]);
                return self.div(ph, Cat::Content, Some(ino), s).map_err(|mut d| {
                    d.off = Some(a + k as u64);
                    d
                });
            }
        }
        Ok(())
    }

    /// the tree through the public calls: paths, descriptors, listings, positioned reads
    pub fn audit_api(&mut self) -> DResult<()> {
        self.stats.audits += 1;
        let mut fs = std::mem::replace(&mut self.real.fs, dummy_fs());
        let r = guard(|| self.api_tree(Phase::Api, &mut fs, false));
        self.real.fs = fs;
        match r {
            Ok(r) => r,
            Err(p) => self.div(Phase::Api, if is_work_panic(&p) { Cat::Work } else { Cat::Panic }, None, format!("audit: {p}")),
        }
    }

    fn api_tree(&mut self, ph: Phase, fs: &mut FileSystem, host: bool) -> DResult<()> {
        use stable_fs::fs::{DstBuf, FdStat, OpenFlags};
        let root = fs.root_fd();
        let mut stack: Vec<(Ino, String)> = vec![(ROOT, String::new())];
        let mut count = 0;
        while let Some((ino, path)) = stack.pop() {
            count += 1;
            if count > 3000 {
                break;
            }
            let m = match fs.open_metadata(root, &path) {
                Ok(m) => meta_out(&m),
                Err(er) => return self.div(ph, Cat::Names, Some(ino), format!("open_metadata({path:?}): {er:?}")),
            };
            self.check_meta(ph, ino, &m, host)?;
            let fd = match fs.open(root, &path, FdStat::default(), OpenFlags::empty(), 0) {
                Ok(fd) => fd,
                Err(er) => return self.div(ph, Cat::Names, Some(ino), format!("open({path:?}): {er:?}")),
            };
            if fd <= 3 || (!host && self.model.fds.contains_key(&fd)) {
                return self.div(ph, Cat::FdTable, Some(ino), format!("open({path:?}) returned descriptor {fd}, which is in use"));
            }
            let m2 = fs.metadata(fd).map(|m| meta_out(&m));
            if m2.as_ref().ok() != Some(&m) {
                return self.div(ph, Cat::NodeId, Some(ino), format!("metadata of {path:?}: by path {m:?}, by descriptor {m2:?}"));
            }
            if self.model.inodes[ino].dir {
                let mut items = vec![];
                let r = fs.with_direntries(fd, None, &mut |i, e| {
                    items.push(ListItem {
                        index: *i,
                        name: e.name.bytes[..e.name.length as usize].to_vec(),
                        node: e.node,
                        etype: e.entry_type.map(|t| t.into()),
                    });
                    true
                });
                if let Err(er) = r {
                    return self.div(ph, Cat::Names, Some(ino), format!("listing {path:?}: {er:?}"));
                }
                self.check_list(ph, ino, &items, None, u32::MAX)?;
                let names: Vec<(String, Ino)> = self.model.inodes[ino].entries.iter().map(|(a, b)| (a.clone(), b.ino)).collect();
                for (n, i) in names {
                    stack.push((i, if path.is_empty() { n } else { format!("{path}/{n}") }));
                }
                // names that are gone do not resolve
                let dead: Vec<String> = self.model.dead.iter().filter(|(d, n)| *d == ino && !self.model.inodes[ino].entries.contains_key(n)).map(|x| x.1.clone()).collect();
                for n in dead {
                    self.stats.names_checked += 1;
                    let r = fs.open_metadata(fd, &n);
                    if !matches!(&r, Err(x) if matches!(x, stable_fs::error::Error::NoSuchFileOrDirectory)) {
                        return self.div(ph, Cat::Names, Some(ino), format!("{n:?} does not exist in {path:?}, but resolves to {r:?}"));
                    }
                }
            } else {
                let size = if host { self.model.inodes[ino].host.size } else { self.model.size(ino) };
                let mounted = self.model.inodes[ino].mounted.is_some() && !host;
                if !(mounted && size > 64 << 20) {
                    let sp = if host { &self.model.inodes[ino].data } else { self.model.content(ino) };
                    for (a, b) in self.ranges(sp, size) {
                        let n = (b - a) as usize;
                        let mut buf = vec![0x5Au8; n + 1];
                        let r = fs.read_vec_with_offset(fd, &[DstBuf { buf: buf.as_mut_ptr(), len: n }], a);
                        let mut want = vec![0u8; n];
                        let sp = if host { &self.model.inodes[ino].data } else { self.model.content(ino) };
                        sp.read(a, &mut want);
                        self.stats.bytes_compared += n as u64;
                        if r != Ok(n as u64) || want != buf[..n] {
                            let k = (0..n).find(|k| want[*k] != buf[*k]).unwrap_or(0);
                            return self
                                .div(ph, Cat::Content, Some(ino), format!("{path:?}: read {r:?}, byte {} is {:02x?}, expected {:02x?}", a + k as u64, buf.get(k), want.get(k)))
                                .map_err(|mut d| {
                                    d.off = Some(a + k as u64);
                                    d
                                });
                        }
                    }
                }
            }
            if let Err(er) = fs.close(fd) {
                return self.div(ph, Cat::FdTable, Some(ino), format!("close of descriptor {fd}: {er:?}"));
            }
        }
        Ok(())
    }

    /// a second instance opened on a copy of the stable memory
    pub fn audit_cold(&mut self) -> DResult<()> {
        if self.real.cfg.transient || self.real.mgr.is_some() {
            return Ok(());
        }
        self.stats.audits += 1;
        let snap = self.real.mem.snapshot();
        let mut fs = match open_fs(&self.real.cfg, &snap, None) {
            Ok(f) => f,
            Err(p) => return self.div(Phase::Cold, Cat::Panic, None, format!("opening a copy: {p}")),
        };
        let r = guard(|| {
            self.audit_tree(Phase::Cold, &mut fs, true)?;
            self.api_tree(Phase::Cold, &mut fs, true)?;
            self.audit_mounted_meta(&mut fs)
        });
        match r {
            Ok(r) => r,
            Err(p) => self.div(Phase::Cold, Cat::Panic, None, format!("audit of a copy: {p}")),
        }
    }

    /// mounted metadata are remembered: mount scratch memories on the copy
    fn audit_mounted_meta(&mut self, fs: &mut FileSystem) -> DResult<()> {
        use stable_fs::storage::types::MountedFileSizePolicy as MP;
        let inos: Vec<Ino> = self.model.live().filter(|i| self.model.inodes[*i].mmeta.is_some()).collect();
        for ino in inos {
            let mm = self.model.inodes[ino].mmeta.clone().unwrap();
            if mm.size > 1 << 40 {
                continue;
            }
            let path = self.path_of(ino);
            let mem = SMem::with_pages(mm.size.div_ceil(WASM_PAGE));
            if let Err(er) = fs.mount_memory_file(&path, Box::new(mem), MP::PreviousOrZero) {
                return self.div(Phase::Cold, Cat::Mount, Some(ino), format!("mounting {path:?} on a copy: {er:?}"));
            }
            let m = match fs.open_metadata(fs.root_fd(), &path) {
                Ok(m) => meta_out(&m),
                Err(er) => return self.div(Phase::Cold, Cat::Mount, Some(ino), format!("mounted {path:?} on a copy: {er:?}")),
            };
            let cat = if m.size != mm.size {
                Cat::Size
            } else if m.times != mm.times {
                Cat::Times
            } else if m.limit != mm.limit {
                Cat::Limit
            } else if m.nlink != self.model.inodes[ino].nlink {
                Cat::Nlink
            } else {
                continue;
            };
            return self.div(Phase::Cold, cat, Some(ino), format!("remembered mounted metadata of {path:?}: {m:?}, expected {mm:?}")).map_err(|mut d| {
                d.obj.was_mounted = true;
                d.why = Some(Why::Mount);
                d
            });
        }
        Ok(())
    }

    pub fn audit_struct(&mut self) -> DResult<()> {
        if self.real.cfg.transient || self.real.mgr.is_some() {
            return Ok(());
        }
        self.stats.audits += 1;
        let r = guard(|| crate::structure::account(&self.model, &self.real.cfg, &self.real.mem.snapshot()));
        match r {
            Ok(Ok(n)) => {
                self.stats.chunks_accounted += n;
                Ok(())
            }
            Ok(Err(s)) => self.div(Phase::Struct, Cat::Struct, None, s),
            Err(p) => self.div(Phase::Struct, Cat::Struct, None, format!("the stable structures cannot be read: {p}")),
        }
    }

    pub fn finish(&mut self) -> DResult<()> {
        self.stats.max_steps = self.stats.max_steps.max(self.real.max_steps);
        self.run1(&Op::AuditLive)?;
        self.run1(&Op::AuditApi)?;
        self.run1(&Op::AuditCold)?;
        self.run1(&Op::AuditStruct)
    }
}

pub fn dummy_fs() -> FileSystem {
    FileSystem::new(Box::new(stable_fs::storage::dummy::DummyStorage::new())).unwrap()
}

pub fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    if s.len() > 60 {
        let mut c = 20;
        while !s.is_char_boundary(c) {
            c -= 1;
        }
        format!("{}..({} bytes)", &s[..c], b.len())
    } else {
        s
    }
}

pub fn opstr(op: &Op) -> String {
    let s = format!("{op:?}");
    if s.len() > 300 {
        let mut c = 260;
        while !s.is_char_boundary(c) {
            c -= 1;
        }
        format!("{}.. ({} chars)", &s[..c], s.len())
    } else {
        s
    }
}
