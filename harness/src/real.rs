//! Drives the real stable-fs through its public API; every call is guarded, buffers carry canaries.
use crate::heap;
use crate::mem::{SMem, WORK_MSG};
use crate::ops::*;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;
use serde::{Deserialize, Serialize};
use stable_fs::error::Error;
use stable_fs::fs::{
    Advice as Adv, ChunkSize, ChunkType, DstBuf, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf, Whence,
};
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
use stable_fs::storage::Storage;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    /// in-memory storage instead of stable storage
    pub transient: bool,
    /// chunk type for new files
    pub v1: bool,
    /// chunk size in KiB (0: leave the default)
    pub kb: u32,
    /// memory manager bucket size in pages (0: StableStorage::new on the raw memory)
    pub bucket: u16,
    /// first memory index
    pub start: u8,
    /// leave the structural accounting out
    #[serde(default)]
    pub mask: bool,
    /// so many chunks below a border of 2 or 4 GiB all chunks are in use already (see `base`)
    #[serde(default)]
    pub high: u8,
}

/// with `Cfg::high`: so many chunks at the begin of the chunk memory are watched
pub const TAKEN: u64 = 16;
pub fn taken(k: u64) -> [u8; 64] {
    std::array::from_fn(|i| (i as u64 * 131 + k * 7 + 1) as u8)
}

impl Cfg {
    pub fn transient() -> Cfg {
        Cfg { transient: true, v1: true, kb: 4, bucket: 1, start: 0, mask: false, high: 0 }
    }
    pub fn v1() -> Cfg {
        Cfg { transient: false, v1: true, kb: 0, bucket: 1, start: 10, mask: false, high: 0 }
    }
    pub fn v2(kb: u32) -> Cfg {
        Cfg { transient: false, v1: false, kb, bucket: 1, start: 10, mask: false, high: 0 }
    }
    pub fn v2_bytes(&self) -> u64 {
        if self.kb == 0 {
            16384
        } else {
            self.kb as u64 * 1024
        }
    }
    /// first position of the chunk memory to be given out
    pub fn base(&self) -> u64 {
        if self.high == 0 || self.transient {
            return 0;
        }
        let cs = self.v2_bytes();
        (if self.high & 128 != 0 { 1 << 31 } else { 1 << 32 }) - (self.high & 127) as u64 * cs
    }
    pub fn name(&self) -> String {
        if self.transient {
            return "transient".into();
        }
        format!(
            "{}-{}K-b{}-i{}{}",
            if self.v1 { "v1" } else { "v2" },
            if self.kb == 0 { 16 } else { self.kb },
            self.bucket,
            self.start,
            if self.high == 0 { String::new() } else { format!("-from{:#x}", self.base()) }
        )
    }
    pub fn chunk_bytes(&self) -> u64 {
        if self.transient || self.v1 {
            4096
        } else if self.kb == 0 {
            16384
        } else {
            self.kb as u64 * 1024
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MetaOut {
    pub node: u64,
    pub dir: bool,
    pub nlink: u64,
    pub size: u64,
    pub times: (u64, u64, u64),
    pub limit: Option<u64>,
    pub v1: Option<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ListItem {
    pub index: u32,
    pub name: Vec<u8>,
    pub node: u64,
    pub etype: Option<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Num(u64),
    Fd(u32),
    Data(u64, Vec<u8>),
    Meta(MetaOut),
    List(Vec<ListItem>),
    Item(ListItem),
    /// is_dir, fdflags, rights, inheriting
    Stat(bool, u16, u64, u64),
    Err(u32),
    Panic(String),
    /// harness-level operations
    Nothing,
}

/// a stretch of a history executed by one process
#[derive(Serialize, Deserialize)]
pub struct Segment {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

impl Segment {
    pub fn encode(&self, image: &[u8]) -> Vec<u8> {
        let j = serde_json::to_vec(self).unwrap();
        let mut v = (j.len() as u32).to_le_bytes().to_vec();
        v.extend(j);
        v.extend(image);
        v
    }
    pub fn parse(b: &[u8]) -> (Segment, &[u8]) {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        (serde_json::from_slice(&b[4..4 + n]).unwrap(), &b[4 + n..])
    }
}

impl Out {
    /// depends on everything observed, and not on the machine
    pub fn full_hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut eat = |b: &[u8]| {
            for x in b {
                h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        };
        match self {
            Out::Data(n, d) => {
                eat(&n.to_le_bytes());
                eat(d);
            }
            o => eat(format!("{o:?}").as_bytes()),
        }
        crate::rng::mix(h)
    }
    pub fn is_ok(&self) -> bool {
        !matches!(self, Out::Err(_) | Out::Panic(_))
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Data(n, d) => {
                format!("Data({n}, {} bytes {:02x?}..)", d.len(), &d[..d.len().min(8)])
            }
            Out::List(v) => format!("List({} entries)", v.len()),
            o => format!("{o:?}"),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_GUARD: Cell<bool> = const { Cell::new(false) };
    pub static CANARY: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_GUARD.with(|g| g.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info);
        }
    }));
}

/// run a call of the code under test; a panic becomes an observation
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_GUARD.with(|g| g.replace(true));
    let counted = heap::set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    heap::set(counted);
    IN_GUARD.with(|g| g.set(prev));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// a call that needs more heap than its arguments and the stored data explain
pub const HEAP_MSG: &str = "HEAP-LIMIT exceeded";

pub fn is_work_panic(s: &str) -> bool {
    s.contains(WORK_MSG) || s.contains(HEAP_MSG)
}

/// the bytes of the enums must be those of one of their values; looked at through raw bytes, since the values themselves
/// cannot be trusted here
fn check_valid(m: &Metadata) {
    fn raw<T>(x: &T) -> u8 {
        unsafe { *(x as *const T as *const u8) }
    }
    let t = raw(&m.file_type);
    if ![FileType::Directory as u8, FileType::RegularFile as u8, FileType::SymbolicLink as u8].contains(&t) {
        canary(format!("metadata with the invalid file type {t}"));
    }
    let c = raw(&m.chunk_type);
    let good: [Option<ChunkType>; 3] = [None, Some(ChunkType::V1), Some(ChunkType::V2)];
    if !good.iter().any(|g| raw(g) == c) {
        canary(format!("metadata with the invalid chunk type {c}"));
    }
}

pub fn meta_out(m: &Metadata) -> MetaOut {
    check_valid(m);
    MetaOut {
        node: m.node,
        dir: m.file_type == FileType::Directory,
        nlink: m.link_count,
        size: m.size,
        times: (m.times.accessed, m.times.modified, m.times.created),
        limit: m.maximum_size_allowed,
        v1: m.chunk_type.map(|c| c == ChunkType::V1),
    }
}

pub fn fdstat(fdflags: u16, rights: u64, inheriting: u64) -> FdStat {
    FdStat {
        flags: FdFlags::from_bits_truncate(fdflags),
        rights_base: rights,
        rights_inheriting: inheriting,
    }
}

pub fn chunk_size(kb: u32) -> ChunkSize {
    match kb {
        4 => ChunkSize::CHUNK4K,
        8 => ChunkSize::CHUNK8K,
        32 => ChunkSize::CHUNK32K,
        64 => ChunkSize::CHUNK64K,
        _ => ChunkSize::CHUNK16K,
    }
}

fn policy(p: &Policy) -> MountedFileSizePolicy {
    match p {
        Policy::PrevOrZero => MountedFileSizePolicy::PreviousOrZero,
        Policy::PrevOrPages => MountedFileSizePolicy::PreviousOrMemoryPages,
        Policy::Explicit(n) => MountedFileSizePolicy::Explicit(*n),
        Policy::Pages => MountedFileSizePolicy::MemoryPages,
    }
}

pub struct Real {
    pub cfg: Cfg,
    pub fs: FileSystem,
    /// the stable memory (unused for transient storage)
    pub mem: SMem,
    /// shared manager when several file systems live in one memory
    pub mgr: Option<std::rc::Rc<MemoryManager<SMem>>>,
    /// host memories that can be mounted
    pub mems: Vec<SMem>,
    pub max_steps: u64,
    pub work_limit: u64,
    /// heap bytes held by the file system (as far as its calls went through `exec`), and the most needed by one call
    pub heap: i64,
    pub heap_peak: i64,
}

pub fn open_storage(cfg: &Cfg, mem: &SMem, mgr: Option<&MemoryManager<SMem>>) -> Box<dyn Storage> {
    if cfg.transient {
        return Box::new(TransientStorage::new());
    }
    let mut st = if let Some(m) = mgr {
        StableStorage::new_with_memory_manager(m, cfg.start..cfg.start + 10)
    } else if cfg.bucket == 0 {
        StableStorage::new(mem.clone())
    } else {
        let mm = MemoryManager::init_with_bucket_size(mem.clone(), cfg.bucket);
        StableStorage::new_with_memory_manager(&mm, cfg.start..cfg.start + 10)
    };
    if cfg.v1 {
        st.set_chunk_type(ChunkType::V1);
    }
    Box::new(st)
}

pub fn open_fs(cfg: &Cfg, mem: &SMem, mgr: Option<&MemoryManager<SMem>>) -> Result<FileSystem, String> {
    guard(|| FileSystem::new(open_storage(cfg, mem, mgr)).expect("FileSystem::new failed"))
}

const GUARD: usize = 32;
fn gbyte(i: usize) -> u8 {
    0xC0 | ((i * 7) as u8 & 0x3F)
}

/// The buffers of one call. Each has guard bytes around it; or all lie directly behind each other in one allocation; or, for
/// the sanitizer runs, each is an allocation of exactly its size, so that one byte outside is an error the sanitizer sees,
/// whether it is read or written.
struct Bufs {
    store: Vec<Box<[u8]>>,
    /// allocation, start, length, passed as null
    at: Vec<(usize, usize, usize, bool)>,
}

static VERBOSE: AtomicBool = AtomicBool::new(false);
/// print every operation before it runs, so that the last line tells where the process died
pub fn announce(on: bool) {
    VERBOSE.store(on, Ordering::Relaxed);
}
static EXACT: AtomicBool = AtomicBool::new(false);
static NULLS: AtomicBool = AtomicBool::new(false);
/// allocate buffers exactly, without guard bytes
pub fn exact_buffers(on: bool) {
    EXACT.store(on, Ordering::Relaxed);
}
/// pass the address 0 for every other empty buffer, as C callers do
pub fn null_buffers(on: bool) {
    NULLS.store(on, Ordering::Relaxed);
}

impl Bufs {
    fn new(lens: &[u32]) -> Bufs {
        thread_local!(static TURN: Cell<u32> = const { Cell::new(0) });
        let exact = EXACT.load(Ordering::Relaxed);
        let nulls = NULLS.load(Ordering::Relaxed);
        let pad = if exact { 0 } else { GUARD };
        let alloc = |n: usize| (0..n).map(gbyte).collect::<Vec<u8>>().into_boxed_slice();
        let turn = TURN.with(|t| t.replace(t.get().wrapping_add(1)));
        let mut b = Bufs { store: vec![], at: vec![] };
        if lens.len() > 1 && turn % 3 == 0 {
            let total: usize = lens.iter().map(|l| *l as usize).sum();
            b.store.push(alloc(total + 2 * pad));
            let mut p = pad;
            for l in lens {
                b.at.push((0, p, *l as usize, false));
                p += *l as usize;
            }
            return b;
        }
        for (i, l) in lens.iter().enumerate() {
            b.store.push(alloc(*l as usize + 2 * pad));
            b.at.push((i, pad, *l as usize, nulls && *l == 0 && (turn + i as u32) % 2 == 1));
        }
        b
    }
    fn slice(&mut self, i: usize) -> &mut [u8] {
        let (s, p, l, _) = self.at[i];
        &mut self.store[s][p..p + l]
    }
    /// address and length of every buffer
    fn raw(&mut self) -> Vec<(*mut u8, usize)> {
        // one borrow per allocation: the addresses stay valid side by side
        let base: Vec<*mut u8> = self.store.iter_mut().map(|b| b.as_mut_ptr()).collect();
        self.at.iter().map(|(s, p, l, null)| (if *null { std::ptr::null_mut() } else { unsafe { base[*s].add(*p) } }, *l)).collect()
    }
    /// outside the first `used` bytes of the sequence of buffers nothing may have changed; gives a buffer near the damage
    fn check(&self, used: usize) -> Result<(), usize> {
        let mut left = used;
        let mut free: Vec<usize> = vec![0; self.store.len()];
        let mut last = vec![0; self.store.len()];
        for (i, (s, p, l, _)) in self.at.iter().enumerate() {
            let n = left.min(*l);
            left -= n;
            if (free[*s]..*p).any(|k| self.store[*s][k] != gbyte(k)) {
                return Err(i);
            }
            free[*s] = p + n;
            last[*s] = i;
        }
        for (s, st) in self.store.iter().enumerate() {
            if (free[s]..st.len()).any(|k| st[k] != gbyte(k)) {
                return Err(last[s]);
            }
        }
        Ok(())
    }
}

fn pos_total(lens: &[u32]) -> usize {
    lens.iter().map(|l| *l as usize).sum()
}

fn canary(what: String) {
    CANARY.with(|c| *c.borrow_mut() = Some(what));
}

impl Real {
    pub fn new(cfg: &Cfg) -> Result<Real, String> {
        Self::on_memory(cfg, SMem::new(), None)
    }

    /// `fresh` memories get the configured chunk size; existing ones keep theirs
    pub fn on_memory(cfg: &Cfg, mem: SMem, mgr: Option<std::rc::Rc<MemoryManager<SMem>>>) -> Result<Real, String> {
        let fresh = mem.size() == 0 || mgr.is_some();
        heap::begin(0);
        let mut fs = open_fs(cfg, &mem, mgr.as_deref())?;
        let held = heap::now().0;
        if fresh && cfg.kb != 0 && !cfg.transient {
            let _ = fs.storage.set_chunk_size(chunk_size(cfg.kb));
        }
        if mem.size() > 0 && fresh && cfg.base() > 0 && mgr.is_none() {
            drop(fs);
            // the counter of the chunk allocator, and something in the chunks which it says are in use
            let mgr = MemoryManager::init_with_bucket_size(mem.clone(), cfg.bucket);
            mgr.get(MemoryId::new(cfg.start + 6)).write(24, &cfg.base().to_le_bytes());
            let chunks = mgr.get(MemoryId::new(cfg.start + 7));
            chunks.grow((TAKEN * cfg.v2_bytes()).div_ceil(65536).saturating_sub(chunks.size()));
            for k in 0..TAKEN {
                chunks.write(k * cfg.v2_bytes(), &taken(k));
            }
            fs = open_fs(cfg, &mem, None)?;
        }
        Ok(Real { cfg: cfg.clone(), fs, mem, mgr, mems: vec![], max_steps: 0, work_limit: u64::MAX, heap: held, heap_peak: 0 })
    }

    /// placeholder when nothing could be opened
    pub fn dummy(cfg: &Cfg) -> Real {
        Real { cfg: cfg.clone(), fs: crate::engine::dummy_fs(), mem: SMem::new(), mgr: None, mems: vec![], max_steps: 0, work_limit: u64::MAX, heap: 0, heap_peak: 0 }
    }

    pub fn memory(&mut self, id: u32) -> SMem {
        while self.mems.len() <= id as usize {
            self.mems.push(SMem::with_pages(0));
        }
        self.mems[id as usize].clone()
    }

    fn res<T>(&mut self, r: Result<Result<T, Error>, String>, f: impl FnOnce(T) -> Out) -> Out {
        match r {
            Ok(Ok(t)) => f(t),
            Ok(Err(e)) => Out::Err(e as u32),
            Err(p) => Out::Panic(p),
        }
    }

    fn begin(&self) {
        self.mem.begin_call(self.work_limit);
        for m in &self.mems {
            m.begin_call(self.work_limit);
        }
    }
    fn end(&mut self) {
        let mut s = self.mem.end_call();
        for m in &self.mems {
            s += m.end_call();
        }
        self.max_steps = self.max_steps.max(s);
    }

    /// attempts to grow that were refused during the last call
    pub fn refused(&self) -> u64 {
        self.mem.refused() + self.mems.iter().map(|m| m.refused()).sum::<u64>()
    }

    pub fn exec(&mut self, op: &Op) -> Out {
        if VERBOSE.load(Ordering::Relaxed) {
            println!("op {}", serde_json::to_string(op).unwrap());
            let _ = std::io::Write::flush(&mut std::io::stdout());
        }
        self.begin();
        heap::begin(self.heap);
        let before = self.heap;
        let o = self.exec_inner(op);
        let (live, peak) = heap::now();
        self.end();
        if !matches!(op, Op::Reopen) {
            self.heap = live;
            self.heap_peak = self.heap_peak.max(peak - before);
            // generous: a few MiB, whatever is stored, and the buffers and paths of the call many times over
            let stored: u64 = self.mem.touched_bytes() + self.mems.iter().map(|m| m.touched_bytes()).sum::<u64>();
            let held = before.max(0) as u64;
            if (peak - before).max(0) as u64 > (4 << 20) + 2 * stored + 2 * held + 16 * op.given() {
                return Out::Panic(format!("{HEAP_MSG}: {} bytes of heap in one call, {stored} bytes are stored in all", peak - before));
            }
        }
        o
    }

    fn do_read(&mut self, fd: u32, lens: &[u32], off: Option<u64>, plain: bool) -> Out {
        let mut bufs = Bufs::new(lens);
        let r = if plain {
            let b = bufs.slice(0);
            let fs = &mut self.fs;
            guard(|| fs.read(fd, b))
        } else {
            let io: Vec<DstBuf> = bufs.raw().into_iter().map(|(buf, len)| DstBuf { buf, len }).collect();
            let fs = &mut self.fs;
            guard(|| match off {
                None => fs.read_vec(fd, &io),
                Some(o) => fs.read_vec_with_offset(fd, &io, o),
            })
        };
        let n = match &r {
            Ok(Ok(n)) => *n,
            _ => 0,
        };
        let total: u64 = lens.iter().map(|l| *l as u64).sum();
        if n > total {
            return Out::Data(n, vec![]);
        }
        if let Err(i) = bufs.check(n as usize) {
            canary(format!("read into {lens:?} at {off:?} reported {n} bytes but touched others (buffer {i})"));
        }
        let mut left = n as usize;
        let mut data = Vec::with_capacity(left);
        for i in 0..lens.len() {
            let used = left.min(lens[i] as usize);
            data.extend_from_slice(&bufs.slice(i)[..used]);
            left -= used;
        }
        self.res(r, |n| Out::Data(n, data))
    }

    fn do_write(&mut self, fd: u32, tag: u32, lens: &[u32], off: Option<u64>, plain: bool) -> Out {
        let mut pos = 0u64;
        let mut bufs = Bufs::new(lens);
        for (i, l) in lens.iter().enumerate() {
            let data = fill(tag, pos, *l as usize);
            bufs.slice(i).copy_from_slice(&data);
            pos += *l as u64;
        }
        let r = if plain {
            let b = bufs.slice(0);
            let fs = &mut self.fs;
            guard(|| fs.write(fd, b))
        } else {
            let io: Vec<SrcBuf> = bufs.raw().into_iter().map(|(buf, len)| SrcBuf { buf, len }).collect();
            let fs = &mut self.fs;
            guard(|| match off {
                None => fs.write_vec(fd, &io),
                Some(o) => fs.write_vec_with_offset(fd, &io, o),
            })
        };
        let mut pos = 0u64;
        let outside = bufs.check(pos_total(lens));
        for (i, l) in lens.iter().enumerate() {
            if bufs.slice(i).iter().enumerate().any(|(k, x)| *x != pat(tag, pos + k as u64)) {
                canary(format!("write changed its source buffer {i}"));
            }
            pos += *l as u64;
        }
        if let Err(i) = outside {
            canary(format!("write changed bytes around its source buffer {i}"));
        }
        self.res(r, Out::Num)
    }

    fn exec_inner(&mut self, op: &Op) -> Out {
        use Op::*;
        macro_rules! call {
            ($e:expr, $f:expr) => {{
                let r = guard(|| $e);
                self.res(r, $f)
            }};
        }
        match op {
            Open { parent, path, flags, fdflags, rights, ctime } => {
                let st = fdstat(*fdflags, *rights, ALL_RIGHTS);
                call!(self.fs.open(*parent, path, st, OpenFlags::from_bits_truncate(*flags), *ctime), Out::Fd)
            }
            CreateOpenDir { parent, path, ctime } => {
                call!(self.fs.create_open_directory(*parent, path, FdStat::default(), *ctime), Out::Fd)
            }
            Mkdir { parent, path, ctime } => {
                call!(self.fs.mkdir(*parent, path, FdStat::default(), *ctime), |_| Out::Unit)
            }
            Close { fd } => call!(self.fs.close(*fd), |_| Out::Unit),
            Read { fd, len } => self.do_read(*fd, &[*len], None, true),
            ReadVec { fd, lens } => self.do_read(*fd, lens, None, false),
            PRead { fd, lens, off } => self.do_read(*fd, lens, Some(*off), false),
            Write { fd, tag, len } => self.do_write(*fd, *tag, &[*len], None, true),
            WriteVec { fd, tag, lens } => self.do_write(*fd, *tag, lens, None, false),
            PWrite { fd, tag, lens, off } => self.do_write(*fd, *tag, lens, Some(*off), false),
            Seek { fd, delta, whence } => {
                let w = match whence {
                    0 => Whence::SET,
                    1 => Whence::CUR,
                    _ => Whence::END,
                };
                call!(self.fs.seek(*fd, *delta, w), Out::Num)
            }
            Tell { fd } => call!(self.fs.tell(*fd), Out::Num),
            SetSize { fd, size } => call!(self.fs.set_file_size(*fd, *size), |_| Out::Unit),
            SetLimit { fd, limit } => call!(self.fs.set_file_size_limit(*fd, *limit), |_| Out::Unit),
            SetATime { fd, t } => call!(self.fs.set_accessed_time(*fd, *t), |_| Out::Unit),
            SetMTime { fd, t } => call!(self.fs.set_modified_time(*fd, *t), |_| Out::Unit),
            SetMeta { fd, change } => {
                let m = match guard(|| self.fs.metadata(*fd)) {
                    Ok(Ok(m)) => m,
                    Ok(Err(e)) => return Out::Err(e as u32),
                    Err(p) => return Out::Panic(p),
                };
                let mut m = m;
                match change {
                    MetaChange::Size(s) => m.size = *s,
                    MetaChange::Limit(l) => m.maximum_size_allowed = *l,
                    MetaChange::Times(a, b, c) => {
                        m.times.accessed = *a;
                        m.times.modified = *b;
                        m.times.created = *c;
                    }
                    MetaChange::SizeAndLimit(s, l) => {
                        m.size = *s;
                        m.maximum_size_allowed = *l;
                    }
                    MetaChange::Type => {
                        m.file_type = if m.file_type == FileType::Directory { FileType::RegularFile } else { FileType::Directory }
                    }
                    MetaChange::Node => m.node = m.node.wrapping_add(1),
                }
                call!(self.fs.set_metadata(*fd, m), |_| Out::Unit)
            }
            GetStat { fd } => call!(self.fs.get_stat(*fd), |(t, s)| Out::Stat(
                t == FileType::Directory,
                s.flags.bits(),
                s.rights_base,
                s.rights_inheriting
            )),
            SetStat { fd, fdflags, rights, inheriting } => {
                call!(self.fs.set_stat(*fd, fdstat(*fdflags, *rights, *inheriting)), |_| Out::Unit)
            }
            Metadata { fd } => call!(self.fs.metadata(*fd), |m| Out::Meta(meta_out(&m))),
            OpenMeta { parent, path } => call!(self.fs.open_metadata(*parent, path), |m| Out::Meta(meta_out(&m))),
            RemoveFile { parent, path } => call!(self.fs.remove_file(*parent, path), |_| Out::Unit),
            RemoveDir { parent, path } => call!(self.fs.remove_dir(*parent, path), |_| Out::Unit),
            RemoveRec { parent, path } => call!(self.fs.remove_recursive(*parent, path), |_| Out::Unit),
            Rename { ofd, opath, nfd, npath } => call!(self.fs.rename(*ofd, opath, *nfd, npath), Out::Fd),
            Link { ofd, opath, nfd, npath } => call!(self.fs.create_hard_link(*ofd, opath, *nfd, npath), Out::Fd),
            Renumber { from, to } => call!(self.fs.renumber(*from, *to), |_| Out::Unit),
            List { fd, start, stop } => {
                let mut items = vec![];
                let stop = *stop as usize;
                let r = {
                    let items = &mut items;
                    let fs = &self.fs;
                    guard(|| {
                        fs.with_direntries(*fd, *start, &mut |i, e| {
                            let _p = heap::pause();
                            items.push(ListItem {
                                index: *i,
                                name: e.name.bytes[..e.name.length as usize].to_vec(),
                                node: e.node,
                                etype: e.entry_type.map(|t| t.into()),
                            });
                            items.len() < stop
                        })
                    })
                };
                self.res(r, |_| Out::List(items))
            }
            DirEntry { fd, index } => call!(self.fs.get_direntry(*fd, *index), |e| Out::Item(ListItem {
                index: *index,
                name: e.name.bytes[..e.name.length as usize].to_vec(),
                node: e.node,
                etype: e.entry_type.map(|t| t.into()),
            })),
            Flush { fd } => call!(self.fs.flush(*fd), |_| Out::Unit),
            Advice { fd } => call!(self.fs.advice(*fd, 0, 0, Adv::Normal), |_| Out::Unit),
            Allocate { fd, off, len } => call!(self.fs.allocate(*fd, *off, *len), |_| Out::Unit),
            Mount { path, mem, policy: p } => {
                let m = self.memory(*mem);
                m.begin_call(self.work_limit);
                // (allocated and dropped inside the guard, here and below: the heap count comes out even)
                call!(self.fs.mount_memory_file(path, Box::new(m), policy(p)), |_| Out::Unit)
            }
            Unmount { path } => {
                let r = guard(|| self.fs.unmount_memory_file(path));
                match r {
                    Ok(Ok(m)) => {
                        // which memory came back? identify it by a probe written through our own handle
                        let mut which = u64::MAX;
                        for (i, sm) in self.mems.iter().enumerate() {
                            if sm.size() != m.size() {
                                continue;
                            }
                            if sm.size() == 0 {
                                let r = m.size();
                                sm.poke(0, &[0]);
                                let same = m.size() != r;
                                if same {
                                    which = i as u64;
                                    break;
                                }
                                continue;
                            }
                            let mut old = [0u8; 8];
                            sm.peek(0, &mut old);
                            let probe = 0xFEED_0000_0000_0000u64 | crate::rng::mix(i as u64 + 77) >> 16;
                            sm.poke(0, &probe.to_le_bytes());
                            let mut got = [0u8; 8];
                            m.read(0, &mut got);
                            sm.poke(0, &old);
                            if got == probe.to_le_bytes() {
                                which = i as u64;
                                break;
                            }
                        }
                        let _ = guard(move || drop(m));
                        Out::Num(which)
                    }
                    Ok(Err(e)) => Out::Err(e as u32),
                    Err(p) => Out::Panic(p),
                }
            }
            InitMem { path } => call!(self.fs.init_memory_file(path), |_| Out::Unit),
            StoreMem { path } => call!(self.fs.store_memory_file(path), |_| Out::Unit),
            MemPoke { mem, off, tag, len } => {
                let m = self.memory(*mem);
                m.poke(*off, &fill(*tag, 0, *len as usize));
                Out::Unit
            }
            Reopen => {
                if self.cfg.transient {
                    return Out::Nothing;
                }
                heap::begin(0);
                match open_fs(&self.cfg, &self.mem, self.mgr.as_deref()) {
                    Ok(fs) => {
                        self.heap = heap::now().0;
                        self.fs = fs;
                        Out::Unit
                    }
                    Err(p) => Out::Panic(p),
                }
            }
            MemLimit { mem, extra } => {
                let m = match mem {
                    Some(i) => self.memory(*i),
                    None => self.mem.clone(),
                };
                m.set_max(m.size().saturating_add(*extra).min(u64::MAX / crate::mem::WASM_PAGE));
                Out::Nothing
            }
            SetChunkSize { kb } => call!(self.fs.storage.set_chunk_size(chunk_size(*kb)), |_| Out::Unit),
            SetChunkType { v1 } => {
                let t = if *v1 { ChunkType::V1 } else { ChunkType::V2 };
                let r = guard(|| {
                    self.fs.storage.set_chunk_type(t);
                    Ok(())
                });
                self.cfg.v1 = *v1 || self.cfg.transient;
                self.res(r, |_| Out::Unit)
            }
            AuditLive | AuditApi | AuditCold | AuditStruct => Out::Nothing,
            _ => panic!("macro not expanded"),
        }
    }
}
