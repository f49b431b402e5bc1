//! Executable reference model of the file system, written from its documented behaviour.
//! Numbers the implementation is free to choose (descriptor numbers, object numbers, entry positions) are adopted
//! from the observed results and then held against the freedom they have.
use crate::mem::SMem;
use crate::ops::*;
use crate::real::{MetaOut, Out};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

pub const MAX_FILE_SIZE: u64 = (u32::MAX as u64 - 10) * 4096;
pub const DOT_IDX: u32 = u32::MAX - 5;
pub const DOTDOT_IDX: u32 = u32::MAX - 4;
pub const MAX_NAME: usize = 255;

/// WASI error numbers
pub mod e {
    pub const ACCES: u32 = 2;
    pub const BADF: u32 = 8;
    pub const BUSY: u32 = 10;
    pub const EXIST: u32 = 20;
    pub const FBIG: u32 = 22;
    pub const ILSEQ: u32 = 25;
    pub const INVAL: u32 = 28;
    pub const ISDIR: u32 = 31;
    pub const NAMETOOLONG: u32 = 37;
    pub const NODEV: u32 = 43;
    pub const NOENT: u32 = 44;
    pub const NOSYS: u32 = 52;
    pub const NOTDIR: u32 = 54;
    pub const NOTEMPTY: u32 = 55;
    pub const PERM: u32 = 63;
    pub const SPIPE: u32 = 70;
    pub const TXTBSY: u32 = 74;
}

/// why an operation is expected to fail
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    BadFd,
    WrongType,
    Path,
    NoEnt,
    Exists,
    NotEmpty,
    Busy,
    Mounted,
    Rights,
    Limit,
    Seek,
    Cycle,
    DirLink,
    Config,
    Mount,
    Other,
}

pub type Ino = usize;
pub const ROOT: Ino = 0;
const P: u64 = 4096;

/// sparse byte array
#[derive(Clone, Default, PartialEq)]
pub struct Sparse {
    pages: BTreeMap<u64, Box<[u8; P as usize]>>,
}

impl Sparse {
    pub fn write(&mut self, off: u64, src: &[u8]) {
        let mut pos = 0usize;
        while pos < src.len() {
            let a = off + pos as u64;
            let o = (a % P) as usize;
            let n = (P as usize - o).min(src.len() - pos);
            let pg = self.pages.entry(a / P).or_insert_with(|| Box::new([0; P as usize]));
            pg[o..o + n].copy_from_slice(&src[pos..pos + n]);
            pos += n;
        }
    }
    pub fn read(&self, off: u64, dst: &mut [u8]) {
        let mut pos = 0usize;
        while pos < dst.len() {
            let a = off + pos as u64;
            let o = (a % P) as usize;
            let n = (P as usize - o).min(dst.len() - pos);
            match self.pages.get(&(a / P)) {
                Some(pg) => dst[pos..pos + n].copy_from_slice(&pg[o..o + n]),
                None => dst[pos..pos + n].fill(0),
            }
            pos += n;
        }
    }
    pub fn truncate(&mut self, size: u64) {
        let first_gone = size.div_ceil(P);
        self.pages.split_off(&first_gone);
        if size % P != 0 {
            if let Some(pg) = self.pages.get_mut(&(size / P)) {
                pg[(size % P) as usize..].fill(0);
            }
        }
    }
    pub fn touched(&self) -> impl Iterator<Item = u64> + '_ {
        self.pages.keys().copied()
    }
    pub fn page_count(&self) -> usize {
        self.pages.len()
    }
    pub fn has_touched(&self, from_page: u64, to_page_excl: u64) -> bool {
        self.pages.range(from_page..to_page_excl).next().is_some()
    }
    pub fn clear(&mut self) {
        self.pages.clear();
    }
    /// the part of the touched area of `other` that lies below `size`, exactly as `other`
    pub fn copy_prefix(&mut self, other: &Sparse, size: u64) {
        for (p, pg) in other.pages.iter() {
            let a = p * P;
            if a >= size {
                break;
            }
            let n = (size - a).min(P) as usize;
            self.write(a, &pg[..n]);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub size: u64,
    /// accessed, modified, created
    pub times: (u64, u64, u64),
    pub limit: Option<u64>,
}

#[derive(Clone)]
pub struct Entry {
    pub ino: Ino,
    /// position adopted on first sight (0: not seen yet)
    pub index: Cell<u32>,
    pub seq: u64,
}

#[derive(Clone)]
pub struct Inode {
    pub node: Cell<Option<u64>>,
    pub dir: bool,
    pub nlink: u64,
    pub host: Meta,
    /// None: no chunk type recorded (directories, legacy files)
    pub v1: Option<bool>,
    pub data: Sparse,
    pub entries: BTreeMap<String, Entry>,
    pub mounted: Option<u32>,
    pub mmeta: Option<Meta>,
    pub alive: bool,
    /// content pages written (dropped only when whole 64 KiB blocks are cut off), and a prefix written completely
    pub wpages: BTreeSet<u64>,
    pub wfull: u64,
    /// history flags, for attribution
    pub shrunk: bool,
    pub linked: bool,
    pub was_mounted: bool,
    /// written by an old release: its entries may lack the type
    pub legacy_entry: bool,
    /// directories: number of live parents is always 1; remembered for cycle checks
    pub parent: Ino,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fd {
    pub ino: Ino,
    pub cursor: u64,
    pub fdflags: u16,
    pub rights: u64,
    pub inheriting: u64,
}

#[derive(Clone)]
pub struct Mem {
    pub real: SMem,
    pub data: Sparse,
}

#[derive(Clone)]
pub struct Model {
    pub transient: bool,
    pub v1: bool,
    pub chunk_kb: u32,
    /// some chunk has been allocated, the chunk size is fixed
    pub allocated: bool,
    pub inodes: Vec<Inode>,
    pub fds: BTreeMap<u32, Fd>,
    pub last_fd: u32,
    pub mems: Vec<Mem>,
    pub seq: u64,
    /// names that existed and do not any more
    pub dead: Vec<(Ino, String)>,
    /// objects named by the operation just applied (and the parents of its names)
    pub targets: BTreeSet<Ino>,
    /// directories of which only the entry list is concerned
    pub parents: BTreeSet<Ino>,
    /// set when the outcome of a partly failed recursive removal has to be adopted from the real state
    pub resync: Option<(Ino, String, Vec<Ino>)>,
    pub max_fd_open: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Out(Out),
    /// any fresh descriptor
    NewFd,
    /// expected bytes
    Data(Vec<u8>),
    List(Vec<(String, Ino)>, Option<u32>, u32),
    Entry(Ino, u32),
    Meta(Ino),
    FakeMeta,
    Err(Vec<u32>, Why),
    /// the result is not decided by the model
    Any,
}

impl Exp {
    pub fn is_err(&self) -> bool {
        matches!(self, Exp::Err(..))
    }
}

type R<T> = Result<T, (Vec<u32>, Why)>;
fn er<T>(code: u32, w: Why) -> R<T> {
    Err((vec![code], w))
}

/// lexical path components
pub fn parts(path: &str) -> R<Vec<&str>> {
    if path.starts_with('/') {
        return er(e::PERM, Why::Path);
    }
    let mut v = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if v.pop().is_none() {
                    return er(e::PERM, Why::Path);
                }
            }
            c => v.push(c),
        }
    }
    Ok(v)
}

pub struct Found {
    pub ino: Ino,
    pub parent: Ino,
    pub name: String,
    /// the path has no components: it denotes the directory it starts from
    pub is_base: bool,
}

impl Model {
    pub fn new(transient: bool, v1: bool, chunk_kb: u32) -> Model {
        let root = Inode {
            node: Cell::new(None),
            dir: true,
            nlink: 1,
            host: Meta { size: 0, times: (0, 0, 0), limit: None },
            v1: None,
            data: Sparse::default(),
            entries: BTreeMap::new(),
            mounted: None,
            mmeta: None,
            alive: true,
            wpages: BTreeSet::new(),
            wfull: 0,
            shrunk: false,
            linked: false,
            was_mounted: false,
            legacy_entry: false,
            parent: ROOT,
        };
        let mut m = Model {
            transient,
            v1: v1 || transient,
            chunk_kb,
            allocated: false,
            inodes: vec![root],
            fds: BTreeMap::new(),
            last_fd: 3,
            mems: vec![],
            seq: 0,
            dead: vec![],
            targets: BTreeSet::new(),
            parents: BTreeSet::new(),
            resync: None,
            max_fd_open: 0,
        };
        m.reset_fds();
        m
    }

    fn reset_fds(&mut self) {
        self.fds.clear();
        self.fds.insert(
            3,
            Fd { ino: ROOT, cursor: 0, fdflags: 0, rights: ALL_RIGHTS, inheriting: ALL_RIGHTS },
        );
        self.last_fd = 3;
    }

    pub fn ensure_mem(&mut self, id: u32, real: &[SMem]) {
        while self.mems.len() <= id as usize {
            let k = self.mems.len();
            self.mems.push(Mem { real: real[k].clone(), data: Sparse::default() });
        }
    }

    // ---- views

    pub fn view(&self, ino: Ino) -> &Meta {
        let i = &self.inodes[ino];
        if i.mounted.is_some() {
            i.mmeta.as_ref().unwrap()
        } else {
            &i.host
        }
    }
    fn view_mut(&mut self, ino: Ino) -> &mut Meta {
        let i = &mut self.inodes[ino];
        if i.mounted.is_some() {
            i.mmeta.as_mut().unwrap()
        } else {
            &mut i.host
        }
    }
    pub fn size(&self, ino: Ino) -> u64 {
        if self.inodes[ino].dir {
            self.inodes[ino].entries.len() as u64
        } else {
            self.view(ino).size
        }
    }
    pub fn content(&self, ino: Ino) -> &Sparse {
        match self.inodes[ino].mounted {
            Some(m) => &self.mems[m as usize].data,
            None => &self.inodes[ino].data,
        }
    }
    fn content_mut(&mut self, ino: Ino) -> &mut Sparse {
        match self.inodes[ino].mounted {
            Some(m) => &mut self.mems[m as usize].data,
            None => &mut self.inodes[ino].data,
        }
    }
    pub fn meta_out(&self, ino: Ino, host: bool) -> MetaOut {
        let i = &self.inodes[ino];
        let m = if host { &i.host } else { self.view(ino) };
        MetaOut {
            node: i.node.get().unwrap_or(u64::MAX),
            dir: i.dir,
            nlink: i.nlink,
            size: if i.dir { i.entries.len() as u64 } else { m.size },
            times: m.times,
            limit: m.limit,
            v1: i.v1,
        }
    }
    pub fn open_count(&self, ino: Ino) -> usize {
        self.fds.values().filter(|f| f.ino == ino).count()
    }
    pub fn names_of(&self, ino: Ino) -> Vec<(Ino, String)> {
        let mut v = vec![];
        for (d, i) in self.inodes.iter().enumerate() {
            if i.alive && i.dir {
                for (n, en) in &i.entries {
                    if en.ino == ino {
                        v.push((d, n.clone()));
                    }
                }
            }
        }
        v
    }
    pub fn live(&self) -> impl Iterator<Item = Ino> + '_ {
        (0..self.inodes.len()).filter(move |i| self.inodes[*i].alive)
    }

    // ---- resolution

    pub fn resolve(&self, dir: Ino, path: &str) -> R<Found> {
        let ps = parts(path)?;
        let mut f = Found { ino: dir, parent: dir, name: String::new(), is_base: ps.is_empty() };
        for p in ps {
            if p.len() > MAX_NAME {
                return er(e::NAMETOOLONG, Why::Path);
            }
            let cur = &self.inodes[f.ino];
            match cur.entries.get(p) {
                Some(en) if cur.dir => {
                    f = Found { ino: en.ino, parent: f.ino, name: p.to_string(), is_base: false };
                }
                _ => return er(e::NOENT, Why::NoEnt),
            }
        }
        Ok(f)
    }

    fn dir_fd(&self, fd: u32) -> R<Ino> {
        match self.fds.get(&fd) {
            None => er(e::BADF, Why::BadFd),
            Some(f) if !self.inodes[f.ino].dir => er(e::NOTDIR, Why::WrongType),
            Some(f) => Ok(f.ino),
        }
    }
    fn any_fd(&self, fd: u32) -> R<Ino> {
        self.fds.get(&fd).map(|f| f.ino).ok_or((vec![e::BADF], Why::BadFd))
    }
    fn file_fd(&self, fd: u32) -> R<Ino> {
        match self.fds.get(&fd) {
            Some(f) if !self.inodes[f.ino].dir => Ok(f.ino),
            Some(_) => er(e::BADF, Why::WrongType),
            None => er(e::BADF, Why::BadFd),
        }
    }

    // ---- creation and removal of names

    fn new_inode(&mut self, dir: bool, ctime: u64, parent: Ino) -> Ino {
        self.allocated = true;
        self.inodes.push(Inode {
            node: Cell::new(None),
            dir,
            nlink: 1,
            host: Meta { size: 0, times: (ctime, ctime, ctime), limit: None },
            v1: if dir { None } else { Some(self.v1) },
            data: Sparse::default(),
            entries: BTreeMap::new(),
            mounted: None,
            mmeta: None,
            alive: true,
            wpages: BTreeSet::new(),
            wfull: 0,
            shrunk: false,
            linked: false,
            was_mounted: false,
            legacy_entry: false,
            parent,
        });
        self.inodes.len() - 1
    }
    fn add_entry(&mut self, dir: Ino, name: &str, ino: Ino) {
        self.seq += 1;
        let en = Entry { ino, index: Cell::new(0), seq: self.seq };
        self.inodes[dir].entries.insert(name.to_string(), en);
        if self.inodes[ino].dir {
            self.inodes[ino].parent = dir;
        }
        self.parents.insert(dir);
        self.targets.insert(ino);
        self.dead.retain(|(d, n)| !(*d == dir && n == name));
    }
    fn del_entry(&mut self, dir: Ino, name: &str) -> Ino {
        let en = self.inodes[dir].entries.remove(name).unwrap();
        self.parents.insert(dir);
        self.targets.insert(en.ino);
        if self.dead.len() > 40 {
            self.dead.remove(0);
        }
        self.dead.push((dir, name.to_string()));
        en.ino
    }
    /// remove a name and the object with its last name
    fn unlink(&mut self, dir: Ino, name: &str) {
        let ino = self.del_entry(dir, name);
        let i = &mut self.inodes[ino];
        i.nlink -= 1;
        if i.nlink == 0 {
            i.alive = false;
            i.data.clear();
            i.wpages.clear();
            i.mmeta = None;
        }
    }
    /// can the missing components of `path` be created below `dir`? returns (deepest existing dir, missing names)
    fn creatable<'a>(&self, dir: Ino, path: &'a str) -> R<(Ino, Vec<&'a str>)> {
        let ps = parts(path)?;
        if ps.iter().any(|p| p.len() > MAX_NAME) {
            return er(e::NAMETOOLONG, Why::Path);
        }
        let mut cur = dir;
        for (k, p) in ps.iter().enumerate() {
            if !self.inodes[cur].dir {
                return er(e::INVAL, Why::WrongType);
            }
            match self.inodes[cur].entries.get(*p) {
                Some(en) => cur = en.ino,
                None => return Ok((cur, ps[k..].to_vec())),
            }
        }
        Ok((cur, vec![]))
    }
    /// create the intermediate directories; returns the parent for the leaf
    fn make_parents(&mut self, mut cur: Ino, missing: &[&str], ctime: u64) -> Ino {
        for p in &missing[..missing.len() - 1] {
            let d = self.new_inode(true, ctime, cur);
            self.add_entry(cur, p, d);
            cur = d;
        }
        cur
    }
    fn create(&mut self, dir: Ino, path: &str, is_dir: bool, ctime: u64) -> R<Ino> {
        let (base, missing) = self.creatable(dir, path)?;
        let p = self.make_parents(base, &missing, ctime);
        let i = self.new_inode(is_dir, ctime, p);
        self.add_entry(p, missing[missing.len() - 1], i);
        Ok(i)
    }

    fn new_fd(&mut self, out: &Out, ino: Ino, cursor: u64, fdflags: u16, rights: u64) {
        if let Out::Fd(n) = out {
            self.fds.insert(*n, Fd { ino, cursor, fdflags, rights, inheriting: ALL_RIGHTS });
            self.last_fd = *n;
            self.max_fd_open = self.max_fd_open.max(self.fds.len());
        }
        self.targets.insert(ino);
    }

    fn eff_limit(&self, ino: Ino) -> u64 {
        self.view(ino).limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE)
    }

    /// new size must respect the limits
    fn check_size(&self, size: u64, limit: Option<u64>) -> R<()> {
        if size > MAX_FILE_SIZE || limit.is_some_and(|l| size > l) {
            return er(e::FBIG, Why::Limit);
        }
        Ok(())
    }

    fn resize(&mut self, ino: Ino, size: u64) {
        let mounted = self.inodes[ino].mounted.is_some();
        let old = self.view(ino).size;
        self.view_mut(ino).size = size;
        // the bytes of a mounted memory are its own; the size is only a window
        if size < old {
            self.inodes[ino].shrunk = true;
        }
        if size < old && !mounted {
            let i = &mut self.inodes[ino];
            i.data.truncate(size);
            i.wpages.split_off(&(size.div_ceil(65536) * 16));
            i.wfull = i.wfull.min(size.div_ceil(65536) * 65536);
        }
        self.targets.insert(ino);
    }

    fn read_at(&self, ino: Ino, off: u64, len: u64) -> Vec<u8> {
        let size = self.size(ino);
        if off >= size {
            return vec![];
        }
        let n = len.min(size - off);
        let mut v = vec![0u8; n as usize];
        self.content(ino).read(off, &mut v);
        v
    }

    fn do_read(&mut self, fd: u32, lens: &[u32], off: Option<u64>) -> R<Exp> {
        let ino = self.file_fd(fd)?;
        let f = &self.fds[&fd];
        if f.rights & R_READ == 0 {
            return er(e::PERM, Why::Rights);
        }
        let at = off.unwrap_or(f.cursor);
        let v = self.read_at(ino, at, lens.iter().map(|l| *l as u64).sum());
        if off.is_none() {
            let n = v.len() as u64;
            self.fds.get_mut(&fd).unwrap().cursor += n;
        }
        Ok(Exp::Data(v))
    }

    fn do_write(&mut self, fd: u32, tag: u32, lens: &[u32], off: Option<u64>) -> R<Exp> {
        let ino = self.file_fd(fd)?;
        let f = self.fds[&fd].clone();
        if f.rights & R_WRITE == 0 {
            return er(e::PERM, Why::Rights);
        }
        let at = if f.fdflags & F_APPEND != 0 { self.view(ino).size } else { off.unwrap_or(f.cursor) };
        let max = self.eff_limit(ino);
        let mut pos = 0u64;
        self.targets.insert(ino);
        for l in lens {
            let l = *l as u64;
            if l == 0 {
                continue;
            }
            match (at + 0).checked_add(pos).and_then(|x| x.checked_add(l)) {
                Some(end) if end <= max => {
                    let data = fill(tag, pos, l as usize);
                    self.content_mut(ino).write(at + pos, &data);
                    if self.inodes[ino].mounted.is_none() {
                        self.inodes[ino].wpages.extend((at + pos) / P..=(end - 1) / P);
                    }
                    if end > self.view(ino).size {
                        self.view_mut(ino).size = end;
                    }
                    pos += l;
                }
                _ => return er(e::FBIG, Why::Limit),
            }
        }
        if off.is_none() {
            self.fds.get_mut(&fd).unwrap().cursor = at.wrapping_add(pos);
        }
        Ok(Exp::Out(Out::Num(pos)))
    }

    fn check_remove(&self, f: &Found, want_dir: Option<bool>) -> R<()> {
        let i = &self.inodes[f.ino];
        let mut errs = vec![];
        let mut why = Why::Other;
        if i.mounted.is_some() {
            errs.push(e::TXTBSY);
            why = Why::Mounted;
        } else if i.dir && want_dir == Some(false) {
            errs.push(e::ISDIR);
            why = Why::WrongType;
        } else if !i.dir && want_dir == Some(true) {
            errs.push(e::NOTDIR);
            why = Why::WrongType;
        } else if i.dir && !i.entries.is_empty() {
            errs.push(e::NOTEMPTY);
            why = Why::NotEmpty;
        } else if i.nlink == 1 && self.open_count(f.ino) > 0 {
            errs.push(e::TXTBSY);
            why = Why::Busy;
        }
        if errs.is_empty() {
            Ok(())
        } else {
            Err((errs, why))
        }
    }

    /// is `d` equal to or below `top`?
    pub fn is_inside(&self, mut d: Ino, top: Ino) -> bool {
        loop {
            if d == top {
                return true;
            }
            if d == ROOT {
                return false;
            }
            d = self.inodes[d].parent;
        }
    }

    /// does the existing part of the path lie in `top`?
    fn goes_inside(&self, dir: Ino, path: &str, top: Ino) -> bool {
        let mut d = dir;
        for p in parts(path).unwrap_or_default() {
            match self.inodes[d].entries.get(p) {
                Some(en) if self.inodes[en.ino].dir => d = en.ino,
                _ => break,
            }
        }
        self.is_inside(d, top)
    }

    fn link_or_rename(&mut self, op: (u32, &str, u32, &str), rename: bool, out: &Out) -> R<Exp> {
        let sd = self.dir_fd(op.0)?;
        let dd = self.dir_fd(op.2)?;
        let src = self.resolve(sd, op.1)?;
        let si = src.ino;
        let s_dir = self.inodes[si].dir;
        // every applicable refusal is acceptable, whichever is found first
        let mut errs: Vec<u32> = vec![];
        let mut why = Why::Other;
        let mut add = |c: u32, w: Why| {
            if errs.is_empty() {
                why = w;
            }
            errs.push(c);
        };
        if !rename && s_dir {
            add(e::PERM, Why::DirLink);
        }
        if rename && src.is_base {
            add(e::INVAL, Why::Cycle);
            add(e::BUSY, Why::Cycle);
            add(e::TXTBSY, Why::Cycle);
        }
        if rename && self.inodes[si].mounted.is_some() {
            add(e::TXTBSY, Why::Mounted);
        }
        let dst = match self.resolve(dd, op.3) {
            Ok(f) => Some(f),
            Err((_, Why::NoEnt)) => None,
            Err((c, w)) => {
                for x in c {
                    add(x, w);
                }
                // the target would also be inside of the moved directory
                if rename && s_dir && w == Why::Path && self.goes_inside(dd, op.3, si) {
                    add(e::INVAL, Why::Cycle);
                }
                return Err((errs, why));
            }
        };
        let mut same = false;
        let mut create = None;
        match &dst {
            Some(d) => {
                if d.ino == si {
                    if rename {
                        same = true;
                    } else {
                        add(e::EXIST, Why::Exists);
                    }
                } else {
                    let di = &self.inodes[d.ino];
                    if di.dir != s_dir {
                        if di.dir {
                            add(e::ACCES, Why::WrongType);
                        } else {
                            add(e::NOTDIR, Why::WrongType);
                        }
                    }
                    if di.dir && !di.entries.is_empty() {
                        add(e::NOTEMPTY, Why::NotEmpty);
                    }
                    if di.mounted.is_some() {
                        add(e::TXTBSY, Why::Mounted);
                    }
                    if di.nlink == 1 && self.open_count(d.ino) > 0 {
                        add(e::TXTBSY, Why::Busy);
                    }
                    if rename && s_dir && self.is_inside(d.parent, si) {
                        add(e::INVAL, Why::Cycle);
                    }
                }
            }
            None => match self.creatable(dd, op.3) {
                Ok((base, missing)) => {
                    if rename && s_dir && self.is_inside(base, si) {
                        add(e::INVAL, Why::Cycle);
                    }
                    if missing.is_empty() {
                        // a file component in the middle of the path
                        add(e::INVAL, Why::WrongType);
                    }
                    create = Some((base, missing));
                }
                Err((c, w)) => {
                    for x in c {
                        add(x, w);
                    }
                    if rename && s_dir {
                        add(e::INVAL, w);
                    }
                }
            },
        }
        if !errs.is_empty() {
            return Err((errs, why));
        }
        if !same {
            let ctime = self.view(si).times.2;
            let (pd, name) = match (&dst, create) {
                (Some(d), _) => {
                    self.unlink(d.parent, &d.name);
                    (d.parent, d.name.clone())
                }
                (None, Some((base, missing))) => {
                    let p = self.make_parents(base, &missing, ctime);
                    (p, missing[missing.len() - 1].to_string())
                }
                _ => unreachable!(),
            };
            if rename {
                self.del_entry(src.parent, &src.name);
            } else {
                self.inodes[si].nlink += 1;
                self.inodes[si].linked = true;
            }
            self.add_entry(pd, &name, si);
        }
        self.new_fd(out, si, 0, 0, ALL_RIGHTS);
        Ok(Exp::NewFd)
    }

    fn mount_path<'a>(&self, path: &'a str) -> &'a str {
        path.strip_prefix('/').unwrap_or(path)
    }

    /// bytes an init or store of this path would copy
    pub fn mount_copy_size(&self, path: &str) -> u64 {
        match self.mount_target(path) {
            Ok(i) if self.inodes[i].mounted.is_some() => {
                let n = &self.inodes[i];
                n.host.size.max(n.mmeta.as_ref().map_or(0, |m| m.size))
            }
            _ => 0,
        }
    }

    fn mount_target(&self, path: &str) -> R<Ino> {
        let f = self.resolve(ROOT, self.mount_path(path))?;
        if self.inodes[f.ino].dir {
            return er(e::BADF, Why::WrongType);
        }
        Ok(f.ino)
    }

    fn policy_size(p: &Policy, prev: Option<u64>, pages: u64) -> u64 {
        let cur = pages * crate::mem::WASM_PAGE;
        match p {
            Policy::Explicit(n) => *n,
            Policy::Pages => cur,
            Policy::PrevOrZero => prev.filter(|s| *s <= cur).unwrap_or(0),
            Policy::PrevOrPages => prev.filter(|s| *s <= cur).unwrap_or(cur),
        }
    }

    /// `pages`: size of the memory just before the call, `out`: what the implementation answered
    pub fn apply(&mut self, op: &Op, out: &Out, mem_pages: &[u64]) -> Exp {
        self.targets.clear();
        self.parents.clear();
        self.resync = None;
        match self.apply_inner(op, out, mem_pages) {
            Ok(x) => x,
            Err((c, w)) => Exp::Err(c, w),
        }
    }

    fn apply_inner(&mut self, op: &Op, out: &Out, mem_pages: &[u64]) -> R<Exp> {
        use Op::*;
        let unit = Ok(Exp::Out(Out::Unit));
        match op {
            Open { parent, path, flags, fdflags, rights, ctime } => {
                let d = self.dir_fd(*parent)?;
                match self.resolve(d, path) {
                    Ok(f) => {
                        if flags & CREATE != 0 && flags & EXCL != 0 {
                            return er(e::EXIST, Why::Exists);
                        }
                        let mut cursor = 0;
                        if !self.inodes[f.ino].dir {
                            if flags & DIRECTORY != 0 {
                                return er(e::PERM, Why::WrongType);
                            }
                            if flags & TRUNC != 0 {
                                self.resize(f.ino, 0);
                            }
                            if fdflags & F_APPEND != 0 {
                                cursor = self.view(f.ino).size;
                            }
                        }
                        self.new_fd(out, f.ino, cursor, *fdflags, *rights);
                        Ok(Exp::NewFd)
                    }
                    Err((c, Why::NoEnt)) => {
                        if flags & CREATE == 0 {
                            return Err((c, Why::NoEnt));
                        }
                        let i = self.create(d, path, flags & DIRECTORY != 0, *ctime)?;
                        self.new_fd(out, i, 0, *fdflags, *rights);
                        Ok(Exp::NewFd)
                    }
                    Err(x) => Err(x),
                }
            }
            CreateOpenDir { parent, path, ctime } | Mkdir { parent, path, ctime } => {
                let d = self.dir_fd(*parent)?;
                match self.resolve(d, path) {
                    Ok(_) => er(e::EXIST, Why::Exists),
                    Err((_, Why::NoEnt)) => {
                        let i = self.create(d, path, true, *ctime)?;
                        if matches!(op, Mkdir { .. }) {
                            unit
                        } else {
                            self.new_fd(out, i, 0, 0, ALL_RIGHTS);
                            Ok(Exp::NewFd)
                        }
                    }
                    Err(x) => Err(x),
                }
            }
            Close { fd } => {
                if *fd == 3 {
                    return unit;
                }
                let i = self.any_fd(*fd)?;
                self.fds.remove(fd);
                self.targets.insert(i);
                unit
            }
            Read { fd, len } => self.do_read(*fd, &[*len], None),
            ReadVec { fd, lens } => self.do_read(*fd, lens, None),
            PRead { fd, lens, off } => self.do_read(*fd, lens, Some(*off)),
            Write { fd, tag, len } => self.do_write(*fd, *tag, &[*len], None),
            WriteVec { fd, tag, lens } => self.do_write(*fd, *tag, lens, None),
            PWrite { fd, tag, lens, off } => self.do_write(*fd, *tag, lens, Some(*off)),
            Seek { fd, delta, whence } => {
                let ino = self.file_fd(*fd)?;
                let size = self.view(ino).size;
                let cur = self.fds[fd].cursor;
                let d = *delta as i128;
                let (base, code) = match whence {
                    0 => (0i128, e::INVAL),
                    1 => (cur as i128, e::INVAL),
                    _ => (size as i128, e::SPIPE),
                };
                let pos = base + d;
                if pos < 0 || pos > u64::MAX as i128 || (*whence == 2 && d > 0) {
                    return er(code, Why::Seek);
                }
                self.fds.get_mut(fd).unwrap().cursor = pos as u64;
                Ok(Exp::Out(Out::Num(pos as u64)))
            }
            Tell { fd } => {
                self.file_fd(*fd)?;
                Ok(Exp::Out(Out::Num(self.fds[fd].cursor)))
            }
            SetSize { fd, size } => {
                let i = self.file_fd(*fd)?;
                if self.fds[fd].rights & R_WRITE == 0 {
                    return er(e::INVAL, Why::Rights);
                }
                self.check_size(*size, self.view(i).limit)?;
                self.resize(i, *size);
                unit
            }
            SetLimit { fd, limit } => {
                let i = self.file_fd(*fd)?;
                self.check_size(self.view(i).size, Some(*limit))?;
                self.view_mut(i).limit = Some(*limit);
                self.targets.insert(i);
                unit
            }
            SetATime { fd, t } | SetMTime { fd, t } => {
                let i = self.any_fd(*fd)?;
                let times = &mut self.view_mut(i).times;
                if matches!(op, SetATime { .. }) {
                    times.0 = *t;
                } else {
                    times.1 = *t;
                }
                self.allocated = true;
                self.targets.insert(i);
                unit
            }
            SetMeta { fd, change } => {
                // the driver first fetches the metadata, which is fake for the standard streams
                if *fd <= 2 && !self.fds.contains_key(fd) {
                    return er(e::BADF, Why::BadFd);
                }
                let i = self.any_fd(*fd)?;
                if *fd <= 2 {
                    return Ok(Exp::Any);
                }
                if self.inodes[i].dir && !matches!(change, MetaChange::Times(..) | MetaChange::Type | MetaChange::Node) {
                    return Ok(Exp::Any);
                }
                let v = self.view(i).clone();
                match change {
                    MetaChange::Type => return Err((vec![e::NOSYS], Why::Config)),
                    MetaChange::Node => return Err((vec![e::ILSEQ], Why::Config)),
                    MetaChange::Times(a, b, c) => self.view_mut(i).times = (*a, *b, *c),
                    MetaChange::Size(s) => {
                        self.check_size(*s, v.limit)?;
                        self.resize(i, *s);
                    }
                    MetaChange::Limit(l) => {
                        self.check_size(v.size, *l)?;
                        self.view_mut(i).limit = *l;
                    }
                    MetaChange::SizeAndLimit(s, l) => {
                        self.check_size(*s, *l)?;
                        self.resize(i, *s);
                        self.view_mut(i).limit = *l;
                    }
                }
                self.allocated = true;
                self.targets.insert(i);
                unit
            }
            GetStat { fd } => {
                let i = self.any_fd(*fd)?;
                let f = &self.fds[fd];
                Ok(Exp::Out(Out::Stat(self.inodes[i].dir, f.fdflags, f.rights, f.inheriting)))
            }
            SetStat { fd, fdflags, rights, inheriting } => {
                let i = self.any_fd(*fd)?;
                if self.inodes[i].dir && fdflags & (F_APPEND | F_NONBLOCK) != 0 {
                    return er(e::BADF, Why::WrongType);
                }
                let f = self.fds.get_mut(fd).unwrap();
                f.fdflags = *fdflags;
                f.rights = *rights;
                f.inheriting = *inheriting;
                unit
            }
            Metadata { fd } => {
                if *fd <= 2 {
                    return Ok(Exp::FakeMeta);
                }
                Ok(Exp::Meta(self.any_fd(*fd)?))
            }
            OpenMeta { parent, path } => {
                let d = self.dir_fd(*parent)?;
                Ok(Exp::Meta(self.resolve(d, path)?.ino))
            }
            RemoveFile { parent, path } | RemoveDir { parent, path } => {
                let d = self.dir_fd(*parent)?;
                let f = self.resolve(d, path)?;
                self.check_remove(&f, Some(matches!(op, RemoveDir { .. })))?;
                self.unlink(f.parent, &f.name);
                unit
            }
            RemoveRec { parent, path } => {
                let d = self.dir_fd(*parent)?;
                let f = self.resolve(d, path)?;
                if !self.inodes[f.ino].dir {
                    self.check_remove(&f, Some(false))?;
                    self.unlink(f.parent, &f.name);
                    return unit;
                }
                let mut sub = vec![];
                self.subtree(f.ino, &mut sub);
                let blocked = f.is_base || !self.rec_removable(f.ino);
                if blocked {
                    // objects of the subtree may be gone: which ones is adopted from the real state
                    for i in &sub {
                        self.targets.insert(*i);
                    }
                    self.parents.insert(f.parent);
                    self.resync = Some((d, path.clone(), sub));
                    let why = Why::Busy;
                    return Err((vec![e::TXTBSY, e::NOTEMPTY], why));
                }
                self.remove_tree(f.ino);
                self.unlink(f.parent, &f.name);
                self.targets.extend(sub);
                unit
            }
            Rename { ofd, opath, nfd, npath } => self.link_or_rename((*ofd, opath, *nfd, npath), true, out),
            Link { ofd, opath, nfd, npath } => self.link_or_rename((*ofd, opath, *nfd, npath), false, out),
            Renumber { from, to } => {
                if from == to {
                    return Ok(Exp::Any);
                }
                if *from == 3 || *to == 3 {
                    return er(e::BADF, Why::BadFd);
                }
                let i = self.any_fd(*from)?;
                if let Some(t) = self.fds.get(to) {
                    if self.inodes[t.ino].dir != self.inodes[i].dir {
                        return er(e::BADF, Why::WrongType);
                    }
                    self.targets.insert(t.ino);
                }
                let f = self.fds.remove(from).unwrap();
                self.targets.insert(f.ino);
                self.fds.insert(*to, f);
                unit
            }
            List { fd, start, stop } => {
                let d = self.dir_fd(*fd)?;
                let v = self.inodes[d].entries.iter().map(|(n, en)| (n.clone(), en.ino)).collect();
                Ok(Exp::List(v, *start, *stop))
            }
            DirEntry { fd, index } => {
                let d = self.dir_fd(*fd)?;
                // an entry whose position has not been seen yet may be anywhere
                let i = &self.inodes[d];
                if i.entries.values().any(|en| en.index.get() == *index && *index != 0) {
                    return Ok(Exp::Entry(d, *index));
                }
                if i.entries.values().any(|en| en.index.get() == 0) {
                    return Ok(Exp::Any);
                }
                er(e::NOENT, Why::NoEnt)
            }
            Flush { fd } => {
                self.file_fd(*fd)?;
                unit
            }
            Advice { fd } | Allocate { fd, .. } => {
                if *fd <= 2 {
                    return unit;
                }
                self.file_fd(*fd)?;
                unit
            }
            Mount { path, mem, policy } => {
                let p = self.mount_path(path).to_string();
                let pages = mem_pages[*mem as usize];
                let existing = match self.resolve(ROOT, &p) {
                    Ok(f) => {
                        if self.inodes[f.ino].dir {
                            return er(e::BADF, Why::WrongType);
                        }
                        Some(f.ino)
                    }
                    Err((_, Why::NoEnt)) => {
                        if let Err((mut c, w)) = self.creatable(ROOT, &p) {
                            // both refusals apply
                            if let Err((c2, _)) = self.check_size(Self::policy_size(policy, None, pages), None) {
                                c.extend(c2);
                            }
                            return Err((c, w));
                        }
                        None
                    }
                    Err(x) => return Err(x),
                };
                if let Some(i) = existing {
                    if self.inodes[i].mounted.is_some() {
                        return er(e::BUSY, Why::Mount);
                    }
                }
                let (prev, limit) = match existing {
                    Some(i) => {
                        let n = &self.inodes[i];
                        (n.mmeta.as_ref().map(|m| m.size), n.mmeta.as_ref().unwrap_or(&n.host).limit)
                    }
                    None => (None, None),
                };
                let size = Self::policy_size(policy, prev, pages);
                if let Err(x) = self.check_size(size, limit) {
                    if existing.is_none() {
                        self.resync = None;
                    }
                    return Err(x);
                }
                let i = match existing {
                    Some(i) => i,
                    None => self.create(ROOT, &p, false, 0)?,
                };
                self.allocated = true;
                let n = &mut self.inodes[i];
                let mut m = n.mmeta.clone().unwrap_or_else(|| n.host.clone());
                m.size = size;
                n.mmeta = Some(m);
                n.mounted = Some(*mem);
                n.was_mounted = true;
                self.targets.insert(i);
                unit
            }
            Unmount { path } => {
                let i = self.mount_target(path)?;
                match self.inodes[i].mounted.take() {
                    Some(m) => {
                        self.targets.insert(i);
                        Ok(Exp::Out(Out::Num(m as u64)))
                    }
                    None => er(e::NODEV, Why::Mount),
                }
            }
            InitMem { path } => {
                let i = self.mount_target(path)?;
                let Some(m) = self.inodes[i].mounted else { return er(e::NODEV, Why::Mount) };
                let n = &mut self.inodes[i];
                let size = n.host.size;
                let mem = &mut self.mems[m as usize].data;
                // all bytes of the host file, holes included
                let mut old = Sparse::default();
                std::mem::swap(&mut old, mem);
                zero_prefix(&mut old, size);
                *mem = old;
                mem.copy_prefix(&n.data, size);
                n.mmeta = Some(n.host.clone());
                self.targets.insert(i);
                unit
            }
            StoreMem { path } => {
                let i = self.mount_target(path)?;
                let Some(m) = self.inodes[i].mounted else { return er(e::NODEV, Why::Mount) };
                let n = &self.inodes[i];
                let meta = n.mmeta.clone().unwrap();
                self.check_size(meta.size, n.host.limit)?;
                let src = self.mems[m as usize].data.clone();
                let n = &mut self.inodes[i];
                // every page below the size is written, also those that are zero
                n.data.clear();
                n.data.copy_prefix(&src, meta.size);
                if meta.size < n.host.size {
                    n.shrunk = true;
                    n.wpages.split_off(&(meta.size.div_ceil(65536) * 16));
                }
                n.wfull = meta.size;
                n.host = meta;
                self.targets.insert(i);
                unit
            }
            MemPoke { mem, off, tag, len } => {
                let data = fill(*tag, 0, *len as usize);
                self.mems[*mem as usize].data.write(*off, &data);
                for i in 0..self.inodes.len() {
                    if self.inodes[i].mounted == Some(*mem) {
                        self.targets.insert(i);
                    }
                }
                unit
            }
            Reopen => {
                if self.transient {
                    return Ok(Exp::Out(Out::Nothing));
                }
                self.reset_fds();
                for i in self.inodes.iter_mut() {
                    i.mounted = None;
                }
                unit
            }
            SetChunkSize { kb } => {
                if self.transient {
                    return unit;
                }
                if self.allocated && *kb != self.chunk_kb {
                    return er(e::INVAL, Why::Config);
                }
                self.chunk_kb = *kb;
                unit
            }
            SetChunkType { v1 } => {
                self.v1 = *v1 || self.transient;
                unit
            }
            _ => Ok(Exp::Out(Out::Nothing)),
        }
    }

    pub fn subtree(&self, d: Ino, out: &mut Vec<Ino>) {
        out.push(d);
        if self.inodes[d].dir {
            for en in self.inodes[d].entries.values() {
                self.subtree(en.ino, out);
            }
        }
    }

    /// can everything below (and) `d` be removed?
    fn rec_removable(&self, d: Ino) -> bool {
        let mut inside: BTreeMap<Ino, u64> = BTreeMap::new();
        let mut stack = vec![d];
        while let Some(x) = stack.pop() {
            *inside.entry(x).or_default() += 1;
            if self.inodes[x].dir {
                stack.extend(self.inodes[x].entries.values().map(|en| en.ino));
            }
        }
        inside.iter().all(|(i, names)| {
            let n = &self.inodes[*i];
            n.mounted.is_none() && !(self.open_count(*i) > 0 && (n.dir || *names == n.nlink))
        })
    }
    fn remove_tree(&mut self, d: Ino) {
        let names: Vec<(String, Ino)> = self.inodes[d].entries.iter().map(|(n, en)| (n.clone(), en.ino)).collect();
        for (n, i) in names {
            if self.inodes[i].dir {
                self.remove_tree(i);
            }
            self.unlink(d, &n);
        }
    }
    /// adopt the removal of a name observed after a partly failed recursive removal;
    /// false if it was not allowed to disappear
    pub fn adopt_removed(&mut self, dir: Ino, name: &str) -> bool {
        let ino = self.inodes[dir].entries[name].ino;
        let f = Found { ino, parent: dir, name: name.to_string(), is_base: false };
        if self.inodes[ino].dir && !self.inodes[ino].entries.is_empty() {
            let names: Vec<String> = self.inodes[ino].entries.keys().cloned().collect();
            for n in names {
                if !self.adopt_removed(ino, &n) {
                    return false;
                }
            }
        }
        if self.check_remove(&f, None).is_err() {
            return false;
        }
        let t = self.targets.clone();
        self.unlink(dir, name);
        self.targets.extend(t);
        true
    }
}

/// zero the first `size` bytes, keeping the rest
fn zero_prefix(s: &mut Sparse, size: u64) {
    let pages: Vec<u64> = s.touched().collect();
    for p in pages {
        let a = p * P;
        if a >= size {
            break;
        }
        let n = (size - a).min(P) as usize;
        s.write(a, &vec![0u8; n]);
    }
}
