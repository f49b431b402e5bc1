//! Concrete, serialisable file system operations: a history is a configuration plus a list of these.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    PrevOrZero,
    PrevOrPages,
    Explicit(u64),
    Pages,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MetaChange {
    Size(u64),
    Limit(Option<u64>),
    Times(u64, u64, u64),
    SizeAndLimit(u64, Option<u64>),
    Type,
    Node,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Open { parent: u32, path: String, flags: u16, fdflags: u16, rights: u64, ctime: u64 },
    CreateOpenDir { parent: u32, path: String, ctime: u64 },
    Mkdir { parent: u32, path: String, ctime: u64 },
    Close { fd: u32 },
    Read { fd: u32, len: u32 },
    ReadVec { fd: u32, lens: Vec<u32> },
    PRead { fd: u32, lens: Vec<u32>, off: u64 },
    Write { fd: u32, tag: u32, len: u32 },
    WriteVec { fd: u32, tag: u32, lens: Vec<u32> },
    PWrite { fd: u32, tag: u32, lens: Vec<u32>, off: u64 },
    /// whence: 0 SET, 1 CUR, 2 END
    Seek { fd: u32, delta: i64, whence: u8 },
    Tell { fd: u32 },
    SetSize { fd: u32, size: u64 },
    SetLimit { fd: u32, limit: u64 },
    SetATime { fd: u32, t: u64 },
    SetMTime { fd: u32, t: u64 },
    SetMeta { fd: u32, change: MetaChange },
    GetStat { fd: u32 },
    SetStat { fd: u32, fdflags: u16, rights: u64, inheriting: u64 },
    Metadata { fd: u32 },
    OpenMeta { parent: u32, path: String },
    RemoveFile { parent: u32, path: String },
    RemoveDir { parent: u32, path: String },
    RemoveRec { parent: u32, path: String },
    Rename { ofd: u32, opath: String, nfd: u32, npath: String },
    Link { ofd: u32, opath: String, nfd: u32, npath: String },
    Renumber { from: u32, to: u32 },
    List { fd: u32, start: Option<u32>, stop: u32 },
    DirEntry { fd: u32, index: u32 },
    Flush { fd: u32 },
    Advice { fd: u32 },
    Allocate { fd: u32, off: u64, len: u64 },
    Mount { path: String, mem: u32, policy: Policy },
    Unmount { path: String },
    InitMem { path: String },
    StoreMem { path: String },
    /// the host program writes into a memory directly
    MemPoke { mem: u32, off: u64, tag: u32, len: u32 },
    Reopen,
    /// the memory (none: the stable memory) can grow by that many more pages only
    MemLimit { mem: Option<u32>, extra: u64 },
    SetChunkSize { kb: u32 },
    SetChunkType { v1: bool },
    /// whole tree comparison on the live instance, through the storage layer (descriptors and name cache untouched)
    AuditLive,
    /// whole tree comparison on the live instance, through the public calls
    AuditApi,
    /// whole tree comparison on a second instance opened on a snapshot of the memory
    AuditCold,
    /// structural accounting on a snapshot of the memory
    AuditStruct,
    // ---- macro operations, expanded before execution
    /// create `n` objects "<prefix><i>" (kind 0: files, 1: directories, 2: files with `len` bytes each)
    MCreate { parent: u32, prefix: String, from: u32, n: u32, kind: u8, len: u32, tag: u32 },
    /// remove objects "<prefix><i>" for i in from..from+n in steps
    MRemove { parent: u32, prefix: String, from: u32, n: u32, step: u32, dirs: bool },
    /// look names up
    MLookup { parent: u32, prefix: String, from: u32, n: u32, step: u32 },
    /// open one path `n` times
    MOpen { parent: u32, path: String, n: u32, flags: u16, fdflags: u16 },
    /// strided positioned writes
    MStride { fd: u32, start: u64, step: u64, n: u32, len: u32, tag: u32 },
    /// strided positioned reads
    MStrideRead { fd: u32, start: u64, step: u64, n: u32, len: u32 },
}

/// stands for the descriptor most recently returned
pub const LASTFD: u32 = 0xFFFF_FF00;
pub const CREATE: u16 = 1;
pub const DIRECTORY: u16 = 2;
pub const EXCL: u16 = 4;
pub const TRUNC: u16 = 8;
pub const F_APPEND: u16 = 1;
pub const F_NONBLOCK: u16 = 4;
pub const ALL_RIGHTS: u64 = (1 << 28) - 1;
pub const R_READ: u64 = 1 << 1;
pub const R_WRITE: u64 = 1 << 6;

impl Op {
    /// bytes handed over or asked for
    pub fn given(&self) -> u64 {
        use Op::*;
        match self {
            Read { len, .. } | Write { len, .. } => *len as u64,
            ReadVec { lens, .. } | PRead { lens, .. } | WriteVec { lens, .. } | PWrite { lens, .. } => lens.iter().map(|l| *l as u64 + 32).sum(),
            Open { path, .. } | CreateOpenDir { path, .. } | Mkdir { path, .. } | OpenMeta { path, .. } => path.len() as u64 * 4,
            RemoveFile { path, .. } | RemoveDir { path, .. } | RemoveRec { path, .. } => path.len() as u64 * 4,
            Rename { opath, npath, .. } | Link { opath, npath, .. } => (opath.len() + npath.len()) as u64 * 4,
            _ => 0,
        }
    }
    pub fn kind(&self) -> &'static str {
        use Op::*;
        match self {
            Open { .. } => "open",
            CreateOpenDir { .. } => "create_open_dir",
            Mkdir { .. } => "mkdir",
            Close { .. } => "close",
            Read { .. } => "read",
            ReadVec { .. } => "read_vec",
            PRead { .. } => "pread",
            Write { .. } => "write",
            WriteVec { .. } => "write_vec",
            PWrite { .. } => "pwrite",
            Seek { .. } => "seek",
            Tell { .. } => "tell",
            SetSize { .. } => "set_size",
            SetLimit { .. } => "set_limit",
            SetATime { .. } => "set_atime",
            SetMTime { .. } => "set_mtime",
            SetMeta { .. } => "set_metadata",
            GetStat { .. } => "get_stat",
            SetStat { .. } => "set_stat",
            Metadata { .. } => "metadata",
            OpenMeta { .. } => "open_metadata",
            RemoveFile { .. } => "remove_file",
            RemoveDir { .. } => "remove_dir",
            RemoveRec { .. } => "remove_recursive",
            Rename { .. } => "rename",
            Link { .. } => "link",
            Renumber { .. } => "renumber",
            List { .. } => "list",
            DirEntry { .. } => "direntry",
            Flush { .. } => "flush",
            Advice { .. } => "advice",
            Allocate { .. } => "allocate",
            Mount { .. } => "mount",
            Unmount { .. } => "unmount",
            InitMem { .. } => "init_mem",
            StoreMem { .. } => "store_mem",
            MemPoke { .. } => "mem_poke",
            Reopen => "reopen",
            MemLimit { .. } => "mem_limit",
            SetChunkSize { .. } => "set_chunk_size",
            SetChunkType { .. } => "set_chunk_type",
            AuditLive => "audit_live",
            AuditApi => "audit_api",
            AuditCold => "audit_cold",
            AuditStruct => "audit_struct",
            MCreate { .. } => "m_create",
            MRemove { .. } => "m_remove",
            MLookup { .. } => "m_lookup",
            MOpen { .. } => "m_open",
            MStride { .. } => "m_stride",
            MStrideRead { .. } => "m_stride_read",
        }
    }
    pub fn is_audit(&self) -> bool {
        matches!(self, Op::AuditLive | Op::AuditApi | Op::AuditCold | Op::AuditStruct)
    }
    /// operations that never change the state
    pub fn is_readonly(&self) -> bool {
        use Op::*;
        matches!(
            self,
            PRead { .. } | Tell { .. } | GetStat { .. } | Metadata { .. } | OpenMeta { .. } | List { .. }
                | DirEntry { .. } | Flush { .. } | Advice { .. } | Allocate { .. } | MLookup { .. } | MStrideRead { .. }
        ) || self.is_audit()
    }
    /// expand a macro operation (`None`: not a macro)
    pub fn expand(&self) -> Option<Vec<Op>> {
        use Op::*;
        let mut v = vec![];
        match self {
            MCreate { parent, prefix, from, n, kind, len, tag } => {
                for i in *from..from + n {
                    let path = format!("{prefix}{i}");
                    match kind {
                        1 => v.push(Mkdir { parent: *parent, path, ctime: i as u64 }),
                        k => {
                            v.push(Open { parent: *parent, path, flags: CREATE | EXCL, fdflags: 0, rights: ALL_RIGHTS, ctime: i as u64 });
                            if *k == 2 {
                                v.push(Write { fd: LASTFD, tag: tag.wrapping_add(i), len: *len });
                            }
                            v.push(Close { fd: LASTFD });
                        }
                    }
                }
            }
            MRemove { parent, prefix, from, n, step, dirs } => {
                let mut i = *from;
                while i < from + n {
                    let path = format!("{prefix}{i}");
                    v.push(if *dirs { RemoveDir { parent: *parent, path } } else { RemoveFile { parent: *parent, path } });
                    i += step.max(&1);
                }
            }
            MLookup { parent, prefix, from, n, step } => {
                let mut i = *from;
                while i < from + n {
                    v.push(OpenMeta { parent: *parent, path: format!("{prefix}{i}") });
                    i += step.max(&1);
                }
            }
            MOpen { parent, path, n, flags, fdflags } => {
                for i in 0..*n {
                    v.push(Open { parent: *parent, path: path.clone(), flags: *flags, fdflags: *fdflags, rights: ALL_RIGHTS, ctime: i as u64 });
                }
            }
            MStride { fd, start, step, n, len, tag } => {
                for i in 0..*n {
                    v.push(PWrite { fd: *fd, tag: if *tag == 0 { 0 } else { tag.wrapping_add(i) }, lens: vec![*len], off: start.saturating_add(step.saturating_mul(i as u64)) });
                }
            }
            MStrideRead { fd, start, step, n, len } => {
                for i in 0..*n {
                    v.push(PRead { fd: *fd, lens: vec![*len], off: start.saturating_add(step.saturating_mul(i as u64)) });
                }
            }
            _ => return None,
        }
        Some(v)
    }
}

/// content byte for position `off` of the write tagged `tag`; tag 0 writes zeroes
#[inline]
pub fn pat(tag: u32, off: u64) -> u8 {
    if tag == 0 {
        return 0;
    }
    let x = (off.wrapping_add(0x1234_5678).wrapping_mul(0x9E37_79B9_7F4A_7C15))
        ^ (tag as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let b = (x >> 37) as u8;
    if b == 0 {
        0x5A
    } else {
        b
    }
}

pub fn fill(tag: u32, off: u64, len: usize) -> Vec<u8> {
    (0..len as u64).map(|i| pat(tag, off.wrapping_add(i))).collect()
}
