//! Offline accounting over the persisted structures: every chunk is owned exactly once or free exactly once, owners are
//! live objects, the name index is the inverse of the directory entries. Works on a snapshot of the stable memory.
use crate::mem::SMem;
use crate::model::{Model, MAX_FILE_SIZE};
use crate::real::Cfg;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager, VirtualMemory};
use ic_stable_structures::{BTreeMap as SMap, Cell as SCell, Memory};
use stable_fs::storage::types::{DirEntry, FileChunk, FileName, Header, Metadata};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const IDX_HEADER: u8 = 0;
pub const IDX_META: u8 = 1;
pub const IDX_DIR: u8 = 2;
pub const IDX_V1: u8 = 3;
pub const IDX_MOUNTED: u8 = 4;
pub const IDX_V2PTR: u8 = 5;
pub const IDX_ALLOC: u8 = 6;
pub const IDX_V2MEM: u8 = 7;
pub const IDX_JOURNAL: u8 = 8;
pub const IDX_LOOKUP: u8 = 9;

pub type VM = VirtualMemory<SMem>;

pub fn manager(cfg: &Cfg, mem: &SMem) -> (MemoryManager<SMem>, u8) {
    if cfg.bucket == 0 {
        (MemoryManager::init(mem.clone()), 229)
    } else {
        (MemoryManager::init_with_bucket_size(mem.clone(), cfg.bucket), cfg.start)
    }
}

pub struct Raw {
    pub first: u8,
    pub mgr: MemoryManager<SMem>,
}

impl Raw {
    pub fn open(cfg: &Cfg, mem: &SMem) -> Raw {
        let (mgr, first) = manager(cfg, mem);
        Raw { first, mgr }
    }
    pub fn vm(&self, k: u8) -> VM {
        self.mgr.get(MemoryId::new(self.first + k))
    }
    pub fn metadata(&self) -> SMap<u64, Metadata, VM> {
        SMap::init(self.vm(IDX_META))
    }
    pub fn mounted(&self) -> SMap<u64, Metadata, VM> {
        SMap::init(self.vm(IDX_MOUNTED))
    }
    pub fn dir(&self) -> SMap<(u64, u32), DirEntry, VM> {
        SMap::init(self.vm(IDX_DIR))
    }
    pub fn v1(&self) -> SMap<(u64, u32), FileChunk, VM> {
        SMap::init(self.vm(IDX_V1))
    }
    pub fn v2(&self) -> SMap<(u64, u32), u64, VM> {
        SMap::init(self.vm(IDX_V2PTR))
    }
    pub fn lookup(&self) -> SMap<(u64, FileName), u32, VM> {
        SMap::init(self.vm(IDX_LOOKUP))
    }
    pub fn header(&self) -> Header {
        SCell::init(self.vm(IDX_HEADER), Header { version: 0, next_node: 0 }).get().clone()
    }
    pub fn word(&self, i: u64) -> u64 {
        let m = self.vm(IDX_ALLOC);
        let mut b = [0u8; 8];
        if (i + 1) * 8 <= m.size() * 65536 {
            m.read(i * 8, &mut b);
        }
        u64::from_le_bytes(b)
    }
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Usage {
    pub v2_high: u64,
    pub free: u64,
    pub used: u64,
    pub v1: u64,
    pub meta: u64,
    pub entries: u64,
    pub pages: u64,
}

pub fn usage(cfg: &Cfg, mem: &SMem) -> Usage {
    let r = Raw::open(cfg, &mem.snapshot());
    Usage {
        v2_high: r.word(3),
        free: r.word(2),
        used: r.v2().len(),
        v1: r.v1().len(),
        meta: r.metadata().len() + r.mounted().len(),
        entries: r.dir().len() + r.lookup().len(),
        pages: mem.size(),
    }
}

/// `Ok(chunks accounted)`, or what is wrong
pub fn account(m: &Model, cfg: &Cfg, mem: &SMem) -> Result<u64, String> {
    let r = Raw::open(cfg, mem);
    let cs = r.word(1);
    let len = r.word(2);
    let max = r.word(3);
    if cs == 0 || cs % 4096 != 0 || cs > 65536 {
        return Err(format!("chunk size {cs}"));
    }
    let mut by_node: HashMap<u64, usize> = HashMap::new();
    let mut unknown = false;
    for i in m.live() {
        match m.inodes[i].node.get() {
            Some(n) => {
                by_node.insert(n, i);
            }
            None => unknown = true,
        }
    }
    if unknown {
        return Ok(0); // numbers not observed yet
    }
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    let mut n = 0u64;
    let max_idx = u32::MAX - 10;
    let check_owner = |node: u64, idx: u32, cs: u64, what: &str| -> Result<(), String> {
        let Some(i) = by_node.get(&node) else {
            return Err(format!("{what} chunk {idx} belongs to object {node}, which does not exist"));
        };
        let o = &m.inodes[*i];
        if idx >= max_idx {
            return Ok(()); // metadata
        }
        if o.dir {
            return Err(format!("{what} data chunk {idx} belongs to directory {node}"));
        }
        let size = o.host.size.min(MAX_FILE_SIZE);
        if idx as u64 >= size.div_ceil(cs) {
            return Err(format!("{what} chunk {idx} of object {node} lies beyond its size {size}"));
        }
        let from = idx as u64 * cs;
        let to = from + cs;
        let written = from < o.wfull || o.wpages.range(from / 4096..to.div_ceil(4096)).next().is_some();
        if !written {
            return Err(format!("{what} chunk {idx} of object {node} is allocated, although nothing was ever written there (size {size})"));
        }
        Ok(())
    };
    for en in r.v2().iter() {
        let (node, idx) = *en.key();
        let ptr = en.value();
        n += 1;
        if ptr < cfg.base() {
            return Err(format!("position {ptr} is used by chunk ({node},{idx}) and by other content (positions from {} are given out)", cfg.base()));
        }
        if ptr % cs != 0 || ptr >= max {
            return Err(format!("chunk ({node},{idx}) at {ptr}: not an allocated position (chunk size {cs}, allocated {max})"));
        }
        if let Some(o) = seen.insert(ptr, format!("({node},{idx})")) {
            return Err(format!("position {ptr} is used by chunk ({node},{idx}) and by {o}"));
        }
        check_owner(node, idx, cs, "v2")?;
        if idx >= max_idx && idx != u32::MAX - 1 && idx != u32::MAX - 2 {
            return Err(format!("chunk ({node},{idx}) has a reserved index"));
        }
    }
    if (16 + len) * 8 > r.vm(IDX_ALLOC).size() * 65536 {
        return Err(format!("free list of {len} does not fit its memory"));
    }
    for i in 0..len {
        let ptr = r.word(16 + i);
        n += 1;
        if ptr % cs != 0 || ptr >= max || ptr < cfg.base() {
            return Err(format!("free position {ptr} was never allocated (chunk size {cs}, allocated {max})"));
        }
        if let Some(o) = seen.insert(ptr, "the free list".into()) {
            return Err(format!("position {ptr} is free and also used by {o}"));
        }
    }
    let base = cfg.base();
    if base + (seen.len() as u64) * cs != max {
        let lost = (base / cs..max / cs).map(|k| k * cs).find(|p| !seen.contains_key(p));
        return Err(format!("{} of {} chunk positions are accounted for, position {lost:?} is lost", seen.len(), max.saturating_sub(base) / cs));
    }
    if base > 0 {
        for k in 0..crate::real::TAKEN {
            let mut b = [0; 64];
            r.vm(IDX_V2MEM).read(k * cs, &mut b);
            if b != crate::real::taken(k) {
                return Err(format!("position {} is used by other content, which was written over", k * cs));
            }
        }
    }
    for (node, idx) in r.v1().keys() {
        n += 1;
        check_owner(node, idx, 4096, "v1")?;
    }
    for (node, _) in r.metadata().iter().map(|e| (*e.key(), 0)).chain(r.mounted().iter().map(|e| (*e.key(), 0))) {
        if !by_node.contains_key(&node) {
            return Err(format!("metadata of object {node} remain, although it does not exist"));
        }
    }
    let hdr = r.header();
    let mut entries: BTreeSet<(u64, Vec<u8>)> = BTreeSet::new();
    let lookup = r.lookup();
    for en in r.dir().iter() {
        let (node, idx) = *en.key();
        let e = en.value();
        n += 1;
        if !by_node.get(&node).is_some_and(|i| m.inodes[*i].dir) {
            return Err(format!("entry ({node},{idx}) belongs to a directory which does not exist"));
        }
        let name = e.name.bytes[..e.name.length as usize].to_vec();
        if !by_node.contains_key(&e.node) {
            return Err(format!("entry ({node},{idx}) refers to object {}, which does not exist", e.node));
        }
        if e.node >= hdr.next_node {
            return Err(format!("object number {} is in use, but the next one is {}", e.node, hdr.next_node));
        }
        if let Some(k) = lookup.get(&(node, e.name.clone())) {
            if k != idx {
                return Err(format!("the index says {k} for entry ({node},{idx})"));
            }
        } else if !by_node.get(&e.node).is_some_and(|i| m.inodes[*i].legacy_entry) {
            return Err(format!("entry ({node},{idx}) is missing in the name index"));
        }
        if !entries.insert((node, name)) {
            return Err(format!("entry ({node},{idx}) has a duplicate name"));
        }
    }
    for en in lookup.iter() {
        let (node, name) = en.key().clone();
        n += 1;
        if !entries.contains(&(node, name.bytes[..name.length as usize].to_vec())) {
            return Err(format!("the name index of directory {node} has an entry which does not exist"));
        }
    }
    Ok(n)
}
