//! P32: the storage layer used directly, through the `Storage` trait, against a small model of a store.
use crate::hist::Replay;
use crate::mem::SMem;
use crate::model::{Sparse, MAX_FILE_SIZE};
use crate::ops::fill;
use crate::props;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::special::{Arg, Driver};
use crate::watch;
use ic_stable_structures::{Memory, Storable};
use serde_json::json;
use stable_fs::error::Error;
use stable_fs::fs::{ChunkType, FileSystem};
use stable_fs::storage::types::*;
use stable_fs::storage::Storage;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

pub const STORE: Driver = Driver {
    name: "store",
    f: store,
    fixed: 0,
    weight: 10,
    rule: "store: one case is one random history of calls of the Storage trait (transient, V1 and V2 stable storage, any chunk size and memory range), half of them on the storage inside a FileSystem, every result compared against a model of the store, the whole store compared at intervals and after reopening; non-trivial: more than 30 calls that changed something",
};

#[derive(Clone, PartialEq)]
struct Node {
    host: Metadata,
    data: Sparse,
    mounted: Option<usize>,
    mmeta: Option<Metadata>,
}

#[derive(Clone, PartialEq)]
struct Ent {
    name: Vec<u8>,
    node: u64,
    kind: Option<FileType>,
}

enum Obj {
    Plain(Box<dyn Storage>),
    Fs(FileSystem),
}
impl Obj {
    fn st(&mut self) -> &mut dyn Storage {
        match self {
            Obj::Plain(s) => s.as_mut(),
            Obj::Fs(f) => f.storage.as_mut(),
        }
    }
}

struct S {
    cfg: Cfg,
    st: Obj,
    in_fs: bool,
    mem: SMem,
    mems: Vec<SMem>,
    nodes: BTreeMap<u64, Node>,
    gone: Vec<u64>,
    ents: BTreeMap<(u64, u32), Ent>,
    numbers: BTreeSet<u64>,
    last: u64,
    version: u32,
    kind: ChunkType,
    r: Rng,
    ops: u64,
    changes: u64,
    refused: u64,
    bytes: u64,
    reopens: u64,
    hash: u64,
    log: Vec<String>,
    kinds: BTreeMap<&'static str, u64>,
}

type R = Result<(), String>;

fn dots(i: u32) -> bool {
    i == DUMMY_DOT_ENTRY_INDEX || i == DUMMY_DOT_DOT_ENTRY_INDEX
}

fn ent(e: &DirEntry) -> Ent {
    Ent { name: e.name.bytes[..e.name.length as usize].to_vec(), node: e.node, kind: e.entry_type }
}

fn show(e: &Ent) -> String {
    format!("{:?} -> {} {:?}", String::from_utf8_lossy(&e.name), e.node, e.kind)
}

impl S {
    fn call<T>(&mut self, what: &'static str, text: String, f: impl FnOnce(&mut dyn Storage) -> T) -> Result<T, String> {
        self.ops += 1;
        *self.kinds.entry(what).or_default() += 1;
        self.log.push(format!("{what} {text}"));
        for m in self.mems.iter().chain([&self.mem]) {
            m.begin_call(40_000_000);
        }
        let st = &mut self.st;
        let r = guard(|| f(st.st()));
        for m in self.mems.iter().chain([&self.mem]) {
            m.end_call();
        }
        r.map_err(|p| format!("{what} {text}: {p}"))
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T) -> R {
        let g = format!("{got:?}");
        for b in g.bytes().take(64) {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if got != want {
            return Err(format!("{}: {}, expected {:?}", self.log.last().cloned().unwrap_or_default(), g, want));
        }
        Ok(())
    }

    fn any_node(&mut self) -> u64 {
        let x = self.r.below(100);
        if x < 90 && !self.nodes.is_empty() {
            let k = self.r.us(self.nodes.len());
            return *self.nodes.keys().nth(k).unwrap();
        }
        if x < 95 && !self.gone.is_empty() {
            return *self.r.pick(&self.gone.clone());
        }
        self.last + 1 + self.r.below(100)
    }
    fn meta(&self, n: u64) -> Option<&Metadata> {
        let x = self.nodes.get(&n)?;
        if x.mounted.is_some() { x.mmeta.as_ref() } else { Some(&x.host) }
    }
    fn allowed(old: Option<&Metadata>, new: &Metadata) -> Result<(), Error> {
        if let Some(o) = old {
            if o.file_type != new.file_type {
                return Err(Error::FunctionNotSupported);
            }
            if o.node != new.node {
                return Err(Error::IllegalByteSequence);
            }
        }
        if new.maximum_size_allowed.is_some_and(|l| new.size > l) {
            return Err(Error::FileTooLarge);
        }
        if new.size > MAX_FILE_SIZE && old.is_none_or(|o| new.size > o.size) {
            return Err(Error::FileTooLarge);
        }
        Ok(())
    }
    /// what a successful update does
    fn put(&mut self, n: u64, m: &Metadata) -> Result<(), Error> {
        let old = self.meta(n).cloned();
        Self::allowed(old.as_ref(), m)?;
        self.changes += 1;
        match self.nodes.get_mut(&n) {
            Some(x) if x.mounted.is_some() => {
                x.host.link_count = m.link_count;
                x.mmeta = Some(m.clone());
            }
            Some(x) => {
                if m.size < x.host.size {
                    x.data.truncate(m.size);
                }
                x.host = m.clone();
            }
            None => {
                self.nodes.insert(n, Node { host: m.clone(), data: Sparse::default(), mounted: None, mmeta: None });
            }
        }
        Ok(())
    }
    fn content(&self, n: u64, off: u64, buf: &mut [u8]) {
        let x = &self.nodes[&n];
        match x.mounted {
            Some(m) => self.mems[m].peek(off, buf),
            None => x.data.read(off, buf),
        }
    }
    fn place(&mut self, n: u64) -> u64 {
        let c = self.cfg.chunk_bytes();
        let size = self.meta(n).map(|m| m.size).unwrap_or(0);
        let near = |r: &mut Rng, x: u64| x.saturating_add(r.below(5)).saturating_sub(2);
        match self.r.below(12) {
            0 => self.r.below(64),
            1..=4 => {
                let k = self.r.below(5);
                near(&mut self.r, k * c)
            }
            5..=7 => near(&mut self.r, size),
            8 => self.r.below(size.saturating_add(1)),
            9 => self.r.below(200_000),
            10 => {
                let b = self.r.range(20, 43);
                self.r.below(1 << b)
            }
            _ => {
                let x = *self.r.pick(&[MAX_FILE_SIZE, MAX_FILE_SIZE - c, u64::MAX - 2, 1 << 32, u64::MAX - 70_000]);
                near(&mut self.r, x)
            }
        }
    }
    fn size(&mut self, n: u64) -> u64 {
        self.place(n)
    }
    fn name(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => vec![b'n'; self.r.range(1, 255) as usize],
            1 => {
                let mut v = vec![b'n'; self.r.range(1, 254) as usize];
                v.push(self.r.below(256) as u8);
                v
            }
            2 => {
                let mut r = self.r.fork();
                (0..r.range(1, 6)).map(|_| r.below(256) as u8).collect()
            }
            3 => vec![],
            _ => format!("e{}", self.r.below(30)).into_bytes(),
        }
    }
    fn fname(b: &[u8]) -> FileName {
        FileName::new(b).unwrap()
    }
    fn a_dir(&mut self) -> u64 {
        // few directories, so that they get many entries
        let v: Vec<u64> = self.nodes.keys().copied().take(3).chain([0, self.last + 7]).collect();
        *self.r.pick(&v)
    }

    fn step(&mut self) -> R {
        match self.r.below(100) {
            0..=7 => self.create(),
            8..=19 => self.update(),
            20..=25 => self.get_meta(),
            26..=41 => self.write(),
            42..=55 => self.read(),
            56..=61 => self.resize(),
            62..=64 => self.remove(),
            65..=73 => self.add_entry(),
            74..=76 => self.del_entry(),
            77..=83 => self.look_entry(),
            84..=86 => self.list(),
            87..=89 => self.mount(),
            90..=92 => self.unmount(),
            93 => self.copy(true),
            94 => self.copy(false),
            95 => {
                let n = self.any_node();
                let want = self.nodes.get(&n).and_then(|x| x.mounted);
                let got = self.call("is_mounted", format!("{n}"), |s| (s.is_mounted(n), s.get_mounted_memory(n).map(|m| m.size())))?;
                let w = (want.is_some(), want.map(|m| self.mems[m].size()));
                self.eq(got, w)
            }
            96 => {
                let n = self.any_node();
                self.call("flush", format!("{n}"), |s| s.flush(n))?;
                let v = self.call("get_version", String::new(), |s| (s.get_version(), s.root_node()))?;
                self.eq(v, (self.version, 0))
            }
            97 => {
                let k = if self.r.pct(50) { ChunkType::V1 } else { ChunkType::V2 };
                self.call("set_chunk_type", format!("{k:?}"), |s| s.set_chunk_type(k))?;
                if !self.cfg.transient {
                    self.kind = k;
                }
                let got = self.call("chunk_type", String::new(), |s| s.chunk_type())?;
                self.eq(got, self.kind)
            }
            98 => self.reopen(),
            _ => self.audit(),
        }
    }

    fn create(&mut self) -> R {
        if self.nodes.len() > 14 && self.r.pct(90) {
            return Ok(());
        }
        let n = self.call("new_node", String::new(), |s| s.new_node())?;
        if !self.numbers.insert(n) || n == 0 {
            return Err(format!("new_node gives {n} again"));
        }
        self.last = self.last.max(n);
        if self.r.pct(8) {
            self.gone.push(n);
            return Ok(());
        }
        let limit = self.r.pct(15).then(|| self.r.below(100_000));
        let size = if self.r.pct(70) { 0 } else { self.size(n) };
        let m = Metadata {
            node: n,
            file_type: *self.r.pick(&[FileType::RegularFile, FileType::RegularFile, FileType::RegularFile, FileType::Directory, FileType::SymbolicLink]),
            link_count: self.r.below(4),
            size,
            times: Times { accessed: self.r.u64(), modified: self.r.below(3), created: self.r.u64() },
            first_dir_entry: self.r.pct(20).then(|| self.r.clone().u64() as u32),
            last_dir_entry: self.r.pct(20).then(|| self.r.clone().below(5) as u32),
            chunk_type: *self.r.pick(&[Some(ChunkType::V1), Some(ChunkType::V2), Some(self.kind), None]),
            maximum_size_allowed: limit,
        };
        self.do_put(n, m)
    }
    fn do_put(&mut self, n: u64, m: Metadata) -> R {
        let got = self.call("put_metadata", format!("{n} {m:?}"), |s| s.put_metadata(n, &m))?;
        let want = self.put(n, &m);
        self.refused += want.is_err() as u64;
        self.eq(got, want)
    }
    fn update(&mut self) -> R {
        let n = self.any_node();
        let Some(mut m) = self.meta(n).cloned() else { return Ok(()) };
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(12) {
                0 => m.times.accessed = self.r.u64(),
                1 => m.times.modified = self.r.u64(),
                2 => m.times.created = self.r.u64(),
                3 => m.link_count = self.r.below(1 << 40),
                4 => m.maximum_size_allowed = None,
                5 => m.maximum_size_allowed = Some(self.size(n)),
                6..=8 => m.size = self.size(n),
                9 => m.first_dir_entry = self.r.pct(70).then(|| self.r.clone().u64() as u32),
                10 => m.last_dir_entry = self.r.pct(70).then(|| self.r.clone().u64() as u32),
                _ => {}
            }
        }
        match self.r.below(30) {
            0 => m.node ^= 1 + self.r.below(9),
            1 => m.file_type = if m.file_type == FileType::Directory { FileType::RegularFile } else { FileType::Directory },
            _ => {}
        }
        self.do_put(n, m)
    }
    fn get_meta(&mut self) -> R {
        let n = self.any_node();
        self.see_meta(n)
    }
    fn see_meta(&mut self, n: u64) -> R {
        let got = self.call("get_metadata", format!("{n}"), |s| s.get_metadata(n))?;
        let want = self.meta(n).cloned().ok_or(Error::NoSuchFileOrDirectory);
        self.eq(got, want)
    }
    fn write(&mut self) -> R {
        let n = self.any_node();
        let off = self.place(n);
        let c = self.cfg.chunk_bytes() as usize;
        let len = match self.r.below(8) {
            0 => 0,
            1 => self.r.us(3 * c) + 1,
            2 => c * (1 + self.r.us(2)),
            _ => self.r.us(300) + 1,
        };
        // mounted memories are dense
        if self.nodes.get(&n).is_some_and(|x| x.mounted.is_some()) && off > 1 << 33 && off < MAX_FILE_SIZE {
            return Ok(());
        }
        self.write_at(n, off, len)
    }
    fn write_at(&mut self, n: u64, off: u64, len: usize) -> R {
        let tag = self.r.below(250) as u32 + 1;
        let buf = fill(tag, off, len);
        let got = self.call("write", format!("{n} at {off} {len} bytes"), |s| s.write(n, off, &buf))?;
        let want = match self.meta(n).cloned() {
            None => Err(Error::NoSuchFileOrDirectory),
            Some(_) if len == 0 => Ok(0),
            Some(m) => {
                let max = m.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE);
                match off.checked_add(len as u64) {
                    Some(e) if e <= max => {
                        self.changes += 1;
                        let x = self.nodes.get_mut(&n).unwrap();
                        if x.mounted.is_none() {
                            x.data.write(off, &buf);
                            x.host.size = x.host.size.max(e);
                        } else {
                            let mm = x.mmeta.as_mut().unwrap();
                            mm.size = mm.size.max(e);
                        }
                        Ok(len as u64)
                    }
                    _ => Err(Error::FileTooLarge),
                }
            }
        };
        self.refused += want.is_err() as u64;
        let ok = matches!(want, Ok(x) if x > 0);
        self.eq(got, want)?;
        if let (true, Some(m)) = (ok, self.nodes.get(&n).and_then(|x| x.mounted)) {
            let mut b = vec![0; len];
            if self.mems[m].size() * 65536 < off + len as u64 {
                return Err(format!("after write {n} at {off} {len} bytes: the mounted memory has {} pages", self.mems[m].size()));
            }
            self.mems[m].peek(off, &mut b);
            if b != buf {
                return Err(format!("after write {n} at {off} {len} bytes: the mounted memory holds other bytes"));
            }
        }
        Ok(())
    }
    fn read(&mut self) -> R {
        let n = self.any_node();
        let off = self.place(n);
        let c = self.cfg.chunk_bytes() as usize;
        let len = match self.r.below(8) {
            0 => 0,
            1 => self.r.us(4 * c) + 1,
            2 => c * (1 + self.r.us(3)),
            _ => self.r.us(400) + 1,
        };
        self.see_bytes(n, off, len)
    }
    fn see_bytes(&mut self, n: u64, off: u64, len: usize) -> R {
        let mut buf = vec![0xA5u8; len];
        let got = self.call("read", format!("{n} at {off} {len} bytes"), |s| s.read(n, off, &mut buf))?;
        let want = self.meta(n).map(|m| m.size.saturating_sub(off).min(len as u64)).ok_or(Error::NoSuchFileOrDirectory);
        let count = want.as_ref().ok().copied();
        self.eq(got, want)?;
        if let Some(k) = count {
            let mut w = vec![0u8; k as usize];
            self.content(n, off, &mut w);
            self.bytes += k;
            if let Some(i) = (0..k as usize).find(|i| buf[*i] != w[*i]) {
                return Err(format!("read {n} at {off} {len} bytes: byte {i} is {:#x}, expected {:#x}", buf[i], w[i]));
            }
        }
        Ok(())
    }
    fn resize(&mut self) -> R {
        let n = self.any_node();
        let size = if self.r.pct(15) { 0 } else { self.size(n) };
        let got = self.call("resize_file", format!("{n} to {size}"), |s| s.resize_file(n, size))?;
        let want = match self.meta(n).cloned() {
            None => Err(Error::NoSuchFileOrDirectory),
            Some(mut m) => {
                m.size = size;
                self.put(n, &m)
            }
        };
        self.refused += want.is_err() as u64;
        self.eq(got, want)
    }
    fn remove(&mut self) -> R {
        let n = self.any_node();
        if n == 0 {
            return Ok(());
        }
        let got = self.call("rm_file", format!("{n}"), |s| s.rm_file(n))?;
        let want = match self.nodes.get(&n) {
            None => Err(Error::NoSuchFileOrDirectory),
            Some(x) if x.mounted.is_some() => Err(Error::DeviceOrResourceBusy),
            Some(_) => {
                self.nodes.remove(&n);
                self.gone.push(n);
                self.changes += 1;
                Ok(())
            }
        };
        self.eq(got, want)?;
        if !self.nodes.contains_key(&n) && self.r.pct(30) && self.gone.contains(&n) {
            // the number may be given a new meaning by the caller: nothing of the old one is left
            let m = Metadata { node: n, file_type: FileType::RegularFile, link_count: 1, size: 50_000, chunk_type: Some(self.kind), ..Default::default() };
            self.do_put(n, m)?;
            self.gone.retain(|x| *x != n);
            self.see_bytes(n, 0, 50_000)?;
        }
        Ok(())
    }

    fn free_name(&mut self, d: u64) -> Option<Vec<u8>> {
        let name = self.name();
        self.ents.range((d, 0)..=(d, u32::MAX)).all(|e| e.1.name != name).then_some(name)
    }
    fn add_entry(&mut self) -> R {
        let d = self.a_dir();
        let kind = *self.r.pick(&[None, Some(FileType::RegularFile), Some(FileType::Directory), Some(FileType::SymbolicLink)]);
        let node = self.r.below(self.last + 5);
        let old: Vec<u32> = self.ents.range((d, 0)..=(d, u32::MAX)).map(|e| e.0 .1).collect();
        let (idx, name) = if self.r.pct(12) && !old.is_empty() {
            // another object under the same name
            let i = *self.r.pick(&old);
            (i, self.ents[&(d, i)].name.clone())
        } else {
            let Some(name) = self.free_name(d) else { return Ok(()) };
            if self.r.pct(80) {
                let got = self.call("new_direntry_index", format!("{d}"), |s| s.new_direntry_index(d))?;
                let want = old.last().map(|x| x + 1).unwrap_or(1);
                self.eq(got, want)?;
                (want, name)
            } else {
                let i = *self.r.pick(&[1u64, 40, 70_000, 1 << 31, (MAX_FILE_ENTRY_INDEX - 40) as u64]);
                let i = (i + self.r.below(30)) as u32;
                if old.contains(&i) {
                    return Ok(());
                }
                (i, name)
            }
        };
        if idx >= MAX_FILE_ENTRY_INDEX {
            return Ok(());
        }
        let e = Ent { name, node, kind };
        let x = DirEntry { name: Self::fname(&e.name), node, entry_type: kind };
        self.call("put_direntry", format!("{d} {idx} {}", show(&e)), |s| s.put_direntry(d, idx, x))?;
        self.ents.insert((d, idx), e);
        self.changes += 1;
        Ok(())
    }
    fn an_index(&mut self, d: u64) -> u32 {
        let old: Vec<u32> = self.ents.range((d, 0)..=(d, u32::MAX)).map(|e| e.0 .1).collect();
        if self.r.pct(80) && !old.is_empty() {
            *self.r.pick(&old)
        } else {
            self.r.below(50) as u32
        }
    }
    fn del_entry(&mut self) -> R {
        let d = self.a_dir();
        let i = self.an_index(d);
        self.call("rm_direntry", format!("{d} {i}"), |s| s.rm_direntry(d, i))?;
        if let Some(e) = self.ents.remove(&(d, i)) {
            self.changes += 1;
            self.see_name(d, e.name)?;
        }
        Ok(())
    }
    fn see_entry(&mut self, d: u64, i: u32) -> R {
        let got = self.call("get_direntry", format!("{d} {i}"), |s| s.get_direntry(d, i))?.map(|e| show(&ent(&e)));
        let want = self.ents.get(&(d, i)).map(show).ok_or(Error::NoSuchFileOrDirectory);
        self.eq(got, want)
    }
    fn see_name(&mut self, d: u64, name: Vec<u8>) -> R {
        let key = (d, Self::fname(&name));
        let got = self.call("get_direntry_index_by_name", format!("{d} {:?}", String::from_utf8_lossy(&name)), |s| s.get_direntry_index_by_name(&key))?;
        let want = self.ents.range((d, 0)..=(d, u32::MAX)).find(|e| e.1.name == name).map(|e| e.0 .1);
        // the index is a quick lookup only; the transient storage has none
        if got.is_none() && self.cfg.transient {
            return Ok(());
        }
        self.eq(got, want)
    }
    fn look_entry(&mut self) -> R {
        let d = self.a_dir();
        if self.r.pct(50) {
            let i = self.an_index(d);
            return self.see_entry(d, i);
        }
        let v: Vec<Vec<u8>> = self.ents.range((d, 0)..=(d, u32::MAX)).map(|e| e.1.name.clone()).collect();
        let name = if self.r.pct(60) && !v.is_empty() { self.r.pick(&v).clone() } else { self.name() };
        self.see_name(d, name)
    }
    fn list(&mut self) -> R {
        let d = self.a_dir();
        let i = self.an_index(d);
        let start = *self.r.pick(&[None, None, Some(0), Some(i), Some(i.saturating_add(1)), Some(DUMMY_DOT_ENTRY_INDEX), Some(DUMMY_DOT_DOT_ENTRY_INDEX), Some(MAX_FILE_ENTRY_INDEX)]);
        let stop = if self.r.pct(50) { usize::MAX } else { self.r.us(6) + 1 };
        self.see_list(d, start, stop)
    }
    fn see_list(&mut self, d: u64, start: Option<u32>, stop: usize) -> R {
        let mut v: Vec<(u32, String)> = vec![];
        self.call("with_direntries", format!("{d} from {start:?}, at most {stop}"), |s| {
            s.with_direntries(d, start, &mut |i, e| {
                let mut e = ent(e);
                if *i == DUMMY_DOT_DOT_ENTRY_INDEX {
                    e.node = 0;
                }
                v.push((*i, show(&e)));
                v.len() < stop
            })
        })?;
        let dot = |n: &str, node| show(&Ent { name: n.into(), node, kind: None });
        let mut w: Vec<(u32, String)> = vec![];
        if start.is_none() || start == Some(DUMMY_DOT_ENTRY_INDEX) {
            w.push((DUMMY_DOT_ENTRY_INDEX, dot(".", d)));
        }
        if start.is_none() || start.is_some_and(dots) {
            w.push((DUMMY_DOT_DOT_ENTRY_INDEX, dot("..", 0)));
        }
        let from = match start {
            None => 0,
            Some(x) if dots(x) => 0,
            Some(x) => x,
        };
        if from < MAX_FILE_ENTRY_INDEX {
            w.extend(self.ents.range((d, from)..(d, MAX_FILE_ENTRY_INDEX)).map(|e| (e.0 .1, show(e.1))));
        }
        w.truncate(stop);
        self.eq(v, w)
    }

    fn mount(&mut self) -> R {
        let n = self.any_node();
        if n == 0 {
            return Ok(());
        }
        let m = self.r.us(self.mems.len());
        if self.nodes.values().any(|x| x.mounted == Some(m)) && self.r.pct(90) {
            return Ok(());
        }
        if self.r.pct(20) {
            let at = self.r.below(300_000);
            let len = self.r.us(500);
            self.mems[m].poke(at, &fill(self.ops as u32 % 200 + 1, at, len));
        }
        let size = self.size(n);
        let (p, what) = match self.r.below(4) {
            0 => (MountedFileSizePolicy::PreviousOrZero, "PreviousOrZero"),
            1 => (MountedFileSizePolicy::PreviousOrMemoryPages, "PreviousOrMemoryPages"),
            2 => (MountedFileSizePolicy::Explicit(size), "Explicit"),
            _ => (MountedFileSizePolicy::MemoryPages, "MemoryPages"),
        };
        let pages = self.mems[m].size() * 65536;
        let memory = Box::new(self.mems[m].clone());
        let got = self.call("mount_node", format!("{n} memory {m} of {pages} bytes {what} {size}"), |s| s.mount_node(n, memory, p))?;
        let want = match self.nodes.get(&n) {
            None => Err(Error::NoSuchFileOrDirectory),
            Some(x) if x.mounted.is_some() => Err(Error::DeviceOrResourceBusy),
            Some(x) => {
                let prev = x.mmeta.as_ref().map(|m| m.size).filter(|s| *s <= pages);
                let new = match what {
                    "PreviousOrZero" => prev.unwrap_or(0),
                    "PreviousOrMemoryPages" => prev.unwrap_or(pages),
                    "Explicit" => size,
                    _ => pages,
                };
                let mut meta = x.mmeta.clone().unwrap_or(x.host.clone());
                meta.size = new;
                meta.link_count = x.host.link_count;
                let r = Self::allowed(x.mmeta.as_ref(), &meta);
                if r.is_ok() {
                    let x = self.nodes.get_mut(&n).unwrap();
                    x.mounted = Some(m);
                    x.mmeta = Some(meta);
                    self.changes += 1;
                }
                r
            }
        };
        self.refused += want.is_err() as u64;
        self.eq(got, want)?;
        self.see_meta(n)
    }
    fn unmount(&mut self) -> R {
        let n = self.a_mounted();
        let got = self.call("unmount_node", format!("{n}"), |s| s.unmount_node(n).map(|m| m.size()))?;
        let want = match self.nodes.get_mut(&n) {
            Some(x) if x.mounted.is_some() => Ok(self.mems[x.mounted.take().unwrap()].size()),
            _ => Err(Error::NoSuchDevice),
        };
        self.changes += want.is_ok() as u64;
        self.eq(got, want)
    }
    fn a_mounted(&mut self) -> u64 {
        let v: Vec<u64> = self.nodes.iter().filter(|x| x.1.mounted.is_some()).map(|x| *x.0).collect();
        if v.is_empty() || self.r.pct(10) { self.any_node() } else { *self.r.pick(&v) }
    }
    fn copy(&mut self, init: bool) -> R {
        const MOST: u64 = 4 << 20;
        let n = self.a_mounted();
        if n == 0 {
            return Ok(());
        }
        if let Some(x) = self.nodes.get(&n) {
            if x.host.size > MOST || x.mmeta.as_ref().is_some_and(|m| m.size > MOST) {
                return Ok(());
            }
        }
        let before: Vec<SMem> = self.mems.iter().map(|m| m.snapshot()).collect();
        let got = if init {
            self.call("init_mounted_memory", format!("{n}"), |s| s.init_mounted_memory(n))?
        } else {
            self.call("store_mounted_memory", format!("{n}"), |s| s.store_mounted_memory(n))?
        };
        let want = match self.nodes.get_mut(&n) {
            None if init => Err(Error::NoSuchDevice),
            None => Err(Error::NoSuchFileOrDirectory),
            Some(x) => match x.mounted {
                None => Err(Error::NoSuchDevice),
                Some(m) if init => {
                    let mut b = vec![0u8; x.host.size as usize];
                    x.data.read(0, &mut b);
                    x.mmeta = Some(x.host.clone());
                    let mut g = vec![0u8; b.len()];
                    self.mems[m].peek(0, &mut g);
                    if g != b && got.is_ok() {
                        return Err(format!("init_mounted_memory {n}: the memory does not hold the file"));
                    }
                    // beyond, nothing changed
                    let end = x.host.size;
                    let mut old = vec![0u8; 70_000];
                    let mut new = vec![0u8; 70_000];
                    before[m].peek(end, &mut old);
                    self.mems[m].peek(end, &mut new);
                    if old != new {
                        return Err(format!("init_mounted_memory {n}: the memory changed beyond the file"));
                    }
                    self.changes += 1;
                    Ok(())
                }
                Some(m) => {
                    let mm = x.mmeta.clone().unwrap();
                    if x.host.maximum_size_allowed.is_some_and(|l| mm.size > l) {
                        Err(Error::FileTooLarge)
                    } else {
                        let mut b = vec![0u8; mm.size as usize];
                        before[m].peek(0, &mut b);
                        x.data.clear();
                        x.data.write(0, &b);
                        x.host = mm;
                        self.changes += 1;
                        Ok(())
                    }
                }
            },
        };
        self.refused += want.is_err() as u64;
        self.eq(got, want)?;
        self.see_meta(n)
    }

    fn reopen(&mut self) -> R {
        if self.cfg.transient {
            return Ok(());
        }
        self.reopens += 1;
        self.log.push("reopen".into());
        let mem = if self.r.pct(50) { self.mem.clone() } else { self.mem.snapshot() };
        self.mem = mem;
        self.in_fs = self.r.pct(50);
        self.st = open(&self.cfg, &self.mem, self.in_fs)?;
        self.kind = if self.cfg.v1 { ChunkType::V1 } else { ChunkType::V2 };
        for x in self.nodes.values_mut() {
            x.mounted = None;
        }
        self.audit()
    }

    fn audit(&mut self) -> R {
        let all: Vec<u64> = self.nodes.keys().copied().chain(self.gone.clone()).collect();
        for n in all {
            self.see_meta(n)?;
            let Some(m) = self.meta(n).cloned() else { continue };
            let pages: Vec<u64> = self.nodes[&n].data.touched().collect();
            self.see_bytes(n, 0, 6000)?;
            self.see_bytes(n, m.size.saturating_sub(5000), 6000)?;
            for p in pages.into_iter().filter(|p| p * 4096 < m.size) {
                self.see_bytes(n, p * 4096, 4096)?;
            }
        }
        let dirs: BTreeSet<u64> = self.ents.keys().map(|k| k.0).collect();
        for d in dirs {
            self.see_list(d, None, usize::MAX)?;
            let v: Vec<Vec<u8>> = self.ents.range((d, 0)..=(d, u32::MAX)).map(|e| e.1.name.clone()).collect();
            for n in v {
                self.see_name(d, n)?;
            }
        }
        let c = self.call("chunk_size", String::new(), |s| s.chunk_size() as u64)?;
        let want = if self.cfg.transient { 4096 } else if self.cfg.kb == 0 { 16384 } else { self.cfg.kb as u64 * 1024 };
        self.eq(c, want)
    }

    /// the records keep what they are given
    fn records(&mut self) -> R {
        let n = self.r.us(300);
        let b: Vec<u8> = (0..n).map(|_| self.r.u64() as u8).collect();
        let f = FileName::new(&b);
        if n > MAX_FILE_NAME {
            return self.eq(f.err(), Some(Error::FilenameTooLong));
        }
        let f = f.map_err(|e| format!("FileName::new of {n} bytes: {e:?}"))?;
        let mut c = b.clone();
        match self.r.below(4) {
            0 if !c.is_empty() => {
                c.pop();
            }
            1 if !c.is_empty() => {
                let i = self.r.us(c.len());
                c[i] ^= 1 << self.r.below(8);
            }
            2 if c.len() < MAX_FILE_NAME => c.push(0),
            _ => {}
        }
        let g = FileName::new(&c).unwrap();
        self.log.push(format!("file names {b:?} and {c:?}"));
        self.eq((f == g, f.cmp(&g), f.partial_cmp(&g)), (b == c, b.cmp(&c), Some(b.cmp(&c))))?;
        let f2 = FileName::from_bytes(Cow::Owned(f.to_bytes().to_vec()));
        let f3 = FileName::from_bytes(Cow::Owned(f.clone().into_bytes()));
        self.eq((f2.length as usize, &f2.bytes[..n] == &b[..], f3 == f), (n, true, true))?;
        let e = DirEntry { name: f, node: self.r.u64(), entry_type: *self.r.pick(&[None, Some(FileType::Directory), Some(FileType::SymbolicLink)]) };
        let e2 = DirEntry::from_bytes(Cow::Owned(e.to_bytes().to_vec()));
        self.eq(show(&ent(&e2)), show(&ent(&e)))?;
        let h = Header { version: self.r.u64() as u32, next_node: self.r.u64() };
        let h2 = Header::from_bytes(Cow::Owned(h.to_bytes().to_vec()));
        self.eq((h2.version, h2.next_node), (h.version, h.next_node))?;
        let opt = |r: &mut Rng| r.pct(50).then(|| r.u64());
        let m = Metadata {
            node: self.r.u64(),
            file_type: *self.r.pick(&[FileType::RegularFile, FileType::Directory, FileType::SymbolicLink]),
            link_count: self.r.u64(),
            size: self.r.u64(),
            times: Times { accessed: self.r.u64(), modified: self.r.u64(), created: self.r.u64() },
            first_dir_entry: opt(&mut self.r).map(|x| x as u32),
            last_dir_entry: opt(&mut self.r).map(|x| x as u32),
            chunk_type: *self.r.pick(&[None, Some(ChunkType::V1), Some(ChunkType::V2)]),
            maximum_size_allowed: opt(&mut self.r),
        };
        let m2 = Metadata::from_bytes(Cow::Owned(m.to_bytes().to_vec()));
        self.eq(m2, m)?;
        let k = self.r.below(256) as u8;
        let want = match k {
            3 => Ok(FileType::Directory),
            4 => Ok(FileType::RegularFile),
            7 => Ok(FileType::SymbolicLink),
            _ => Err(Error::InvalidArgument),
        };
        let kind = want.as_ref().ok().copied();
        self.eq(FileType::try_from(k), want)?;
        if let Some(t) = kind {
            self.eq(u8::from(t), k)?;
        }
        let mut fc = FileChunk::default();
        fc.bytes[self.r.us(4096)] = 7;
        let fc2 = FileChunk::from_bytes(Cow::Owned(fc.to_bytes().to_vec()));
        self.eq(fc2 == fc, true)
    }
}

fn open(cfg: &Cfg, mem: &SMem, in_fs: bool) -> Result<Obj, String> {
    guard(|| {
        let st = open_storage(cfg, mem, None);
        if in_fs {
            Obj::Fs(FileSystem::new(st).expect("FileSystem::new failed"))
        } else {
            Obj::Plain(st)
        }
    })
    .map_err(|p| format!("opening: {p}"))
}

fn store(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let cfg = props::random_cfg(&mut r, "P32");
    watch::case(&cfg, seed, "store");
    let mut c = CaseOut::default();
    let n = if o.thorough { r.range(100, 1500) } else { r.range(60, 500) };
    let in_fs = r.pct(50);
    let mem = SMem::new();
    let mut s = S {
        st: match open(&cfg, &mem, in_fs) {
            Ok(s) => s,
            Err(e) => {
                c.foreign = Some(e);
                return (cfg, c);
            }
        },
        in_fs,
        mem,
        mems: (0..3).map(|k| SMem::with_pages(k * 2)).collect(),
        nodes: BTreeMap::from([(0, Node { host: Metadata { file_type: FileType::Directory, link_count: 1, ..Default::default() }, data: Sparse::default(), mounted: None, mmeta: None })]),
        gone: vec![],
        ents: BTreeMap::new(),
        numbers: BTreeSet::new(),
        last: 0,
        version: 1,
        kind: if cfg.v1 || cfg.transient { ChunkType::V1 } else { ChunkType::V2 },
        r: r.fork(),
        ops: 0,
        changes: 0,
        refused: 0,
        bytes: 0,
        reopens: 0,
        hash: seed,
        log: vec![],
        kinds: BTreeMap::new(),
        cfg: cfg.clone(),
    };
    let res = (|| {
        if !cfg.transient && cfg.kb != 0 {
            let k = chunk_size(cfg.kb);
            s.call("set_chunk_size", format!("{}", cfg.kb), |st| st.set_chunk_size(k))?.map_err(|e| format!("set_chunk_size: {e:?}"))?;
        }
        s.version = s.call("get_version", String::new(), |st| st.get_version())?;
        // beyond the capacities of the caches
        let crowd = if s.r.pct(4) { s.r.range(900, 1300) } else { 0 };
        for k in 0..crowd {
            let n = s.call("new_node", String::new(), |st| st.new_node())?;
            if !s.numbers.insert(n) {
                return Err(format!("new_node gives {n} again"));
            }
            s.last = s.last.max(n);
            let m = Metadata { node: n, file_type: FileType::RegularFile, link_count: k, size: k * 7, chunk_type: Some(s.kind), ..Default::default() };
            s.do_put(n, m)?;
        }
        if s.r.pct(4) && !cfg.transient {
            let n = s.any_node();
            let (step, m) = (cfg.chunk_bytes() * s.r.range(1, 3) + s.r.below(2), s.r.range(9_000, 11_000));
            if n != 0 && s.meta(n).is_some() {
                for k in 0..m {
                    s.write_at(n, k * step, 3)?;
                }
            }
        }
        for k in 0..n {
            watch::op(&crate::ops::Op::AuditLive);
            s.step()?;
            if k % 37 == 0 {
                s.records()?;
            }
        }
        s.audit()?;
        s.reopen()?;
        for _ in 0..20 {
            s.step()?;
        }
        s.audit()
    })();
    watch::idle();
    c.hash = mix(s.hash);
    c.nontrivial = s.changes > 30;
    c.stats.ops = s.ops;
    c.stats.ok = s.ops - s.refused;
    c.stats.bytes_compared = s.bytes;
    c.stats.reopens = s.reopens;
    c.count("calls_that_changed_something", s.changes);
    c.count("refused_calls", s.refused);
    for (k, v) in &s.kinds {
        c.count(&format!("calls_{k}"), *v);
    }
    c.sample = Some(json!({ "driver": "store", "configuration": cfg.name(), "seed": seed, "inside_a_file_system": s.in_fs, "first_calls": s.log.iter().take(8).collect::<Vec<_>>() }));
    if let Err(text) = res {
        let tail: Vec<&String> = s.log.iter().rev().take(5).collect();
        let text = format!("[{}] {text} (call {} of the case; before: {})", cfg.name(), s.ops, tail.iter().rev().map(|x| x.as_str()).collect::<Vec<_>>().join("; "));
        c.violation = Some((Replay { property: o.prop.clone(), driver: "store".into(), cfg: cfg.clone(), ops: vec![], seed, detail: text.clone() }, text));
    }
    (cfg, c)
}
