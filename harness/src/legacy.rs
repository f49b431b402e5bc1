//! Stable memories as earlier releases left them, built byte by byte from the persisted formats (not with the code under
//! test), opened by the code under test, audited and then used.
use crate::engine::*;
use crate::gen::{Gen, Profile};
use crate::hist::{describe, Replay};
use crate::mem::SMem;
use crate::model::*;
use crate::ops::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::{CaseOut, Opt};
use crate::special::{Arg, Driver};
use crate::structure::*;
use crate::watch;
use ciborium::value::Value as V;
use ic_stable_structures::memory_manager::MemoryId;
use ic_stable_structures::storable::Bound;
use ic_stable_structures::{BTreeMap as SMap, Cell as SCell, Memory, Storable};
use serde_json::json;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::BTreeMap;

pub const LEGACY: Driver = Driver {
    name: "legacy",
    f: legacy,
    fixed: 0,
    weight: 1,
    rule: "legacy: one case builds a random stable memory in the format of an earlier release (serialized metadata without newer fields, block-map files, files without a chunk type, entries without type and name index, old allocator marker, journal of a mounted file), opens it, audits the whole tree, and runs a random history on it with audits and reopenings; non-trivial: more than 10 successful calls",
};

// ---- persisted formats, written down independently of the code under test

/// serialized record
#[derive(Clone)]
struct Blob(Vec<u8>);
impl Storable for Blob {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Blob(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}

/// one 4 KiB block
#[derive(Clone)]
struct Block(Vec<u8>);
impl Storable for Block {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Block(b.to_vec())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 4096, is_fixed_size: true };
}

/// length byte and 255 bytes; ordered by bytes, then length
#[derive(Clone, PartialEq, Eq)]
struct Name(Vec<u8>);
impl Ord for Name {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Name {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Storable for Name {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        let mut b = vec![0u8; 256];
        b[0] = self.0.len() as u8;
        b[1..1 + self.0.len()].copy_from_slice(&self.0);
        Cow::Owned(b)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.to_bytes().to_vec()
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Name(b[1..1 + b[0] as usize].to_vec())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 256, is_fixed_size: true };
}

fn cbor(fields: Vec<(&str, V)>) -> Blob {
    let v = V::Map(fields.into_iter().map(|(k, v)| (V::Text(k.into()), v)).collect());
    let mut b = vec![];
    ciborium::ser::into_writer(&v, &mut b).unwrap();
    Blob(b)
}
fn int(n: u64) -> V {
    V::Integer(n.into())
}
fn opt(n: Option<u64>) -> V {
    n.map(int).unwrap_or(V::Null)
}

#[derive(Clone, Debug, Default)]
struct MetaRec {
    node: u64,
    dir: bool,
    nlink: u64,
    size: u64,
    times: (u64, u64, u64),
    first: Option<u32>,
    last: Option<u32>,
    /// 1: blocks, 2: chunks
    ctype: Option<u8>,
    limit: Option<u64>,
}

impl MetaRec {
    /// `gen` 0: without chunk type and limit, 1: without limit, 2: everything
    fn cbor(&self, gen: u8) -> Blob {
        let t = vec![("accessed", int(self.times.0)), ("modified", int(self.times.1)), ("created", int(self.times.2))];
        let t = V::Map(t.into_iter().map(|(k, v)| (V::Text(k.into()), v)).collect());
        let mut f = vec![
            ("node", int(self.node)),
            ("file_type", V::Text(if self.dir { "Directory" } else { "RegularFile" }.into())),
            ("link_count", int(self.nlink)),
            ("size", int(self.size)),
            ("times", t),
            ("first_dir_entry", opt(self.first.map(|x| x as u64))),
            ("last_dir_entry", opt(self.last.map(|x| x as u64))),
        ];
        if gen > 0 {
            f.push(("chunk_type", self.ctype.map(|c| V::Text(if c == 1 { "V1" } else { "V2" }.into())).unwrap_or(V::Null)));
        }
        if gen > 1 {
            f.push(("maximum_size_allowed", opt(self.limit)));
        }
        cbor(f)
    }
    /// the record inside a chunk; 96 bytes, the limit may be missing in old ones (zeroes)
    fn raw(&self) -> Vec<u8> {
        let mut b = vec![0u8; 96];
        b[0..8].copy_from_slice(&self.node.to_le_bytes());
        b[8] = if self.dir { 3 } else { 4 };
        b[16..24].copy_from_slice(&self.nlink.to_le_bytes());
        b[24..32].copy_from_slice(&self.size.to_le_bytes());
        b[32..40].copy_from_slice(&self.times.0.to_le_bytes());
        b[40..48].copy_from_slice(&self.times.1.to_le_bytes());
        b[48..56].copy_from_slice(&self.times.2.to_le_bytes());
        for (at, x) in [(56, self.first), (64, self.last)] {
            if let Some(x) = x {
                b[at] = 1;
                b[at + 4..at + 8].copy_from_slice(&x.to_le_bytes());
            }
        }
        // an absent chunk type is stored in the unused value of the byte
        #[derive(Clone, Copy)]
        #[allow(dead_code)]
        enum CT {
            V1 = 1,
            V2 = 2,
        }
        let ct: Option<CT> = match self.ctype {
            None => None,
            Some(1) => Some(CT::V1),
            _ => Some(CT::V2),
        };
        b[72] = unsafe { std::mem::transmute::<Option<CT>, u8>(ct) };
        if let Some(l) = self.limit {
            b[80..88].copy_from_slice(&1u64.to_le_bytes());
            b[88..96].copy_from_slice(&l.to_le_bytes());
        }
        b
    }
}

fn entry(name: &[u8], node: u64, next: Option<u32>, prev: Option<u32>, etype: Option<bool>, gen: u8) -> Blob {
    let mut bytes = vec![0u8; 255];
    bytes[..name.len()].copy_from_slice(name);
    let n = V::Map(vec![(V::Text("length".into()), int(name.len() as u64)), (V::Text("bytes".into()), V::Bytes(bytes))]);
    let mut f = vec![("name", n), ("node", int(node))];
    if gen == 0 {
        f.push(("next_entry", opt(next.map(|x| x as u64))));
        f.push(("prev_entry", opt(prev.map(|x| x as u64))));
    } else {
        f.push(("entry_type", etype.map(|d| V::Text(if d { "Directory" } else { "RegularFile" }.into())).unwrap_or(V::Null)));
    }
    cbor(f)
}

struct Obj {
    ino: Ino,
    node: u64,
    dir: bool,
    v1: bool,
    ctype: Option<u8>,
    size: u64,
    data: Sparse,
    /// indices of the blocks or chunks that exist
    chunks: Vec<u32>,
    times: (u64, u64, u64),
    limit: Option<u64>,
    nlink: u64,
    mounted: Option<Meta>,
}

const NAMES: &[&str] = &["a", "b", "c", "ab", "abc", "A", "d1", "d2", "file.txt", "x y", "ä", "名前", "...", ".a", "a.", "b1", "b10", "old", "data.bin"];

/// the image, the model of what is in it, and calls that make the same tree on a new file system
pub fn build(r: &mut Rng) -> (Cfg, SMem, Model, Vec<Op>) {
    // 0: block-map release, 1: first chunk release, 2: chunk release with metadata in chunks, 3: like 2 with the name index
    let era = r.below(4) as u8;
    let v1_storage = r.pct(30);
    let mut cfg = if v1_storage { Cfg::v1() } else { Cfg::v2(0) };
    cfg.bucket = *r.pick(&[0, 1, 1, 1, 2, 128]);
    cfg.start = *r.pick(&[10, 0, 100, 229, 244]);
    cfg.kb = if era >= 1 { *r.pick(&[0, 0, 4, 8, 16, 32, 64]) } else { 0 };
    let cs = if cfg.kb == 0 { 16384 } else { cfg.kb as u64 * 1024 };
    let mut m = Model::new(false, v1_storage, (cs / 1024) as u32);
    m.inodes[ROOT].node = Cell::new(Some(0));

    // ---- the tree
    let n = match r.below(6) {
        0 => r.below(3),
        1 => r.range(40, 90),
        _ => r.range(3, 25),
    };
    let mut objs: Vec<Obj> = vec![];
    let mut node = 1u64;
    let mut tag = 1_000_000u32;
    let mut dirs: Vec<Ino> = vec![ROOT];
    // (dir, name, ino, index)
    let mut next_index: BTreeMap<Ino, u32> = BTreeMap::new();
    let mut ents: Vec<(Ino, String, Ino, u32)> = vec![];
    let mut prelude: Vec<Op> = vec![];
    let path_of = |m: &Model, mut d: Ino, name: &str| -> String {
        let mut p = name.to_string();
        while d != ROOT {
            let (pd, pn) = m.names_of(d).into_iter().next().unwrap();
            p = format!("{pn}/{p}");
            d = pd;
        }
        p
    };
    for k in 0..n {
        let d = *r.pick(&dirs);
        let name = if r.pct(6) {
            format!("{k}{}", "n".repeat(r.range(200, 252) as usize))
        } else if r.pct(60) {
            r.pick(NAMES).to_string()
        } else {
            format!("f{k}")
        };
        if m.inodes[d].entries.contains_key(&name) {
            continue;
        }
        let idx = next_index.entry(d).or_insert(0);
        *idx += if r.pct(25) { r.range(2, 9) as u32 } else { 1 };
        let idx = *idx;
        node += if r.pct(20) { r.range(2, 5) } else { 1 };
        // a second name
        let files: Vec<usize> = (0..objs.len()).filter(|i| !objs[*i].dir).collect();
        if r.pct(10) && !files.is_empty() {
            let o = *r.pick(&files);
            let ino = objs[o].ino;
            objs[o].nlink += 1;
            let (d0, n0) = m.names_of(ino).into_iter().next().unwrap();
            prelude.push(Op::Link { ofd: 3, opath: path_of(&m, d0, &n0), nfd: 3, npath: path_of(&m, d, &name) });
            prelude.push(Op::Close { fd: LASTFD });
            m.inodes[d].entries.insert(name.clone(), Entry { ino, index: Cell::new(idx), seq: k });
            ents.push((d, name, ino, idx));
            continue;
        }
        let dir = r.pct(28);
        let ino = m.inodes.len();
        let path = path_of(&m, d, &name);
        let t = |r: &mut Rng| *r.pick(&[0, 1, 12345, 1 << 40, u64::MAX]);
        let times = (t(r), t(r), t(r));
        let v1 = era == 0 || r.pct(40);
        let mut o = Obj { ino, node, dir, v1, ctype: None, size: 0, data: Sparse::default(), chunks: vec![], times, limit: None, nlink: 1, mounted: None };
        if dir {
            dirs.push(ino);
            prelude.push(Op::Mkdir { parent: 3, path: path.clone(), ctime: 0 });
        } else {
            prelude.push(Op::Open { parent: 3, path: path.clone(), flags: CREATE | EXCL, fdflags: 0, rights: ALL_RIGHTS, ctime: 0 });
            let c = if v1 { 4096 } else { cs };
            o.size = match r.below(8) {
                0 => 0,
                1 => r.below(100),
                2 => r.range(1, 5) * c,
                3 => r.range(1, 5) * c + *r.pick(&[1, 2, 4095]),
                4 => r.range(1, 5) * c - 1,
                5 => r.range(200_000, 700_000),
                6 => r.range(1 << 30, 1 << 34),
                _ => r.below(60_000),
            };
            if o.size > 0 {
                let all = (o.size - 1) / c;
                let sparse = r.pct(35) || all > 60;
                let mut idxs: Vec<u64> = if sparse { (0..r.below(12)).map(|_| r.below(all + 1)).collect() } else { (0..=all).collect() };
                if sparse && r.pct(50) {
                    idxs.push(all);
                }
                if all > u32::MAX as u64 / 2 {
                    idxs.retain(|i| *i < u32::MAX as u64 / 2);
                }
                idxs.sort();
                idxs.dedup();
                for i in idxs {
                    tag += 1;
                    let (a, b) = (i * c, ((i + 1) * c).min(o.size));
                    let whole = r.pct(70);
                    let (wa, wb) = if whole { (a, b) } else {
                        let x = a + r.below(b - a);
                        (x, x + r.range(1, b - x))
                    };
                    let bytes = fill(tag, wa, (wb - wa) as usize);
                    o.data.write(wa, &bytes);
                    o.chunks.push(i as u32);
                    let mut at = wa;
                    while at < wb {
                        let l = (wb - at).min(1 << 20);
                        prelude.push(Op::PWrite { fd: LASTFD, tag, lens: vec![l as u32], off: at });
                        at += l;
                    }
                }
            }
            prelude.push(Op::SetSize { fd: LASTFD, size: o.size });
            // a recorded type, or none: then the file can only be recognised by what it has
            o.ctype = match era {
                0 => None,
                1 if r.pct(50) => None,
                _ if r.pct(12) => None,
                _ => Some(if v1 { 1 } else { 2 }),
            };
            if o.ctype.is_none() && !o.v1 && (o.chunks.is_empty() || o.size == 0) {
                // nothing to recognise it by
                o.v1 = true;
            }
            if era >= 2 && r.pct(25) {
                o.limit = Some(o.size + *r.pick(&[0, 1, 5000, 1 << 20]));
                prelude.push(Op::SetLimit { fd: LASTFD, limit: o.limit.unwrap() });
            }
            prelude.push(Op::SetMeta { fd: LASTFD, change: MetaChange::Times(times.0, times.1, times.2) });
            prelude.push(Op::Close { fd: LASTFD });
            if r.pct(14) {
                o.mounted = Some(Meta { size: r.below(300_000), times: (t(r), t(r), t(r)), limit: None });
            }
        }
        let mut i = m.inodes[ROOT].clone();
        i.entries.clear();
        i.node = Cell::new(Some(node));
        i.dir = dir;
        i.parent = d;
        m.inodes.push(i);
        m.inodes[d].entries.insert(name.clone(), Entry { ino, index: Cell::new(idx), seq: k });
        ents.push((d, name, ino, idx));
        objs.push(o);
    }
    m.seq = n;
    for o in &mut objs {
        let i = &mut m.inodes[o.ino];
        i.nlink = o.nlink;
        i.linked = o.nlink > 1;
        i.host = Meta { size: if o.dir { 0 } else { o.size }, times: o.times, limit: o.limit };
        i.data = o.data.clone();
        i.v1 = o.ctype.map(|c| c == 1);
        i.mmeta = o.mounted.clone();
        i.was_mounted = o.mounted.is_some();
        let c = if o.v1 { 4096 } else { cs };
        for k in &o.chunks {
            i.wpages.extend((*k as u64 * c) / 4096..((*k as u64 + 1) * c) / 4096);
        }
        if o.dir {
            o.size = i.entries.len() as u64;
        }
    }

    // ---- the memory
    let mem = SMem::new();
    let (mgr, first) = manager(&cfg, &mem);
    let vm = |k: u8| mgr.get(MemoryId::new(first + k));
    SCell::init(vm(IDX_HEADER), cbor(vec![("version", int(1)), ("next_node", int(node + r.range(1, 3)))]));
    let mut meta: SMap<u64, Blob, VM> = SMap::init(vm(IDX_META));
    let mut dir: SMap<(u64, u32), Blob, VM> = SMap::init(vm(IDX_DIR));
    let mut v1m: SMap<(u64, u32), Block, VM> = SMap::init(vm(IDX_V1));
    let mut mounted: Option<SMap<u64, Blob, VM>> = None;
    let mut want_chunk: Vec<(u64, u32, Vec<u8>)> = vec![];
    let mut recs: Vec<(MetaRec, Option<MetaRec>)> = vec![];
    let root_times = if r.pct(50) { (0, 0, 0) } else { (5, 6, 7) };
    m.inodes[ROOT].host.times = root_times;
    let nroot = m.inodes[ROOT].entries.len() as u64;
    if nroot > 0 || root_times != (0, 0, 0) {
        recs.push((MetaRec { node: 0, dir: true, nlink: 1, size: nroot, times: root_times, ..Default::default() }, None));
    }
    for o in &objs {
        let rec = MetaRec { node: o.node, dir: o.dir, nlink: o.nlink, size: o.size, times: o.times, first: None, last: None, ctype: o.ctype, limit: o.limit };
        let mrec = o.mounted.as_ref().map(|x| MetaRec { size: x.size, times: x.times, limit: None, nlink: r.range(1, 3), ..rec.clone() });
        recs.push((rec, mrec));
        for k in &o.chunks {
            let c = if o.v1 { 4096 } else { cs };
            let mut b = vec![0u8; c as usize];
            o.data.read(*k as u64 * c, &mut b);
            if o.v1 {
                v1m.insert((o.node, *k), Block(b));
            } else {
                want_chunk.push((o.node, *k, b));
            }
        }
    }
    let mut journal: Option<MetaRec> = None;
    for (rec, mrec) in &mut recs {
        if rec.dir && era == 0 {
            let l: Vec<u32> = ents.iter().filter(|e| m.inodes[e.0].node.get() == Some(rec.node)).map(|e| e.3).collect();
            rec.first = l.iter().min().copied();
            rec.last = l.iter().max().copied();
        }
        let gen = match era {
            0 => 0,
            1 => 1,
            _ => 2,
        };
        if era >= 2 && r.pct(70) {
            want_chunk.push((rec.node, u32::MAX - 1, rec.raw()));
            if r.pct(40) {
                // the serialized record of the time before is still there, out of date
                let old = MetaRec { size: rec.size / 2, times: (9, 9, 9), limit: None, nlink: 1, ..rec.clone() };
                meta.insert(rec.node, old.cbor(r.below(2) as u8));
            }
        } else {
            meta.insert(rec.node, rec.cbor(if rec.limit.is_none() && rec.ctype.is_none() { r.below(gen + 1) as u8 } else { gen as u8 }));
        }
        if let Some(x) = mrec {
            if era >= 2 && r.pct(60) {
                want_chunk.push((x.node, u32::MAX - 2, x.raw()));
            } else if journal.is_none() && r.pct(40) {
                journal = Some(x.clone());
            } else {
                mounted.get_or_insert_with(|| SMap::init(vm(IDX_MOUNTED))).insert(x.node, x.cbor(gen.min(1) as u8));
            }
        }
    }
    for (d, name, ino, idx) in &ents {
        let dn = m.inodes[*d].node.get().unwrap();
        let mut l: Vec<u32> = ents.iter().filter(|e| e.0 == *d).map(|e| e.3).collect();
        l.sort();
        let p = l.iter().position(|x| x == idx).unwrap();
        let typed = era >= 3 && r.pct(60) || era == 2 && r.pct(30);
        let et = if typed { Some(m.inodes[*ino].dir) } else { None };
        let gen = if typed || era >= 2 { 1 } else { 0 };
        dir.insert((dn, *idx), entry(name.as_bytes(), m.inodes[*ino].node.get().unwrap(), l.get(p + 1).copied(), p.checked_sub(1).map(|q| l[q]), et, gen));
        let indexed = era >= 3 && typed;
        if indexed {
            let mut lk: SMap<(u64, Name), u32, VM> = SMap::init(vm(IDX_LOOKUP));
            lk.insert((dn, Name(name.as_bytes().to_vec())), *idx);
        } else {
            m.inodes[*ino].legacy_entry = true;
        }
    }
    // chunk positions in any order, free ones in between with old content
    if era >= 1 {
        let free = r.below(6);
        let total = want_chunk.len() as u64 + free;
        let a = vm(IDX_ALLOC);
        if total > 0 || r.pct(50) {
            a.grow(1);
            let old = era < 3 && r.pct(60);
            a.write(0, if old { b"ALO1\0\0\0\0" } else { b"FSA1\0\0\0\0" });
            let word = if total == 0 && cfg.kb == 0 { 0 } else { cs };
            a.write(8, &word.to_le_bytes());
            let mut pos: Vec<u64> = (0..total).map(|k| k * cs).collect();
            for i in (1..pos.len()).rev() {
                pos.swap(i, r.us(i + 1));
            }
            a.write(16, &free.to_le_bytes());
            a.write(24, &(total * cs).to_le_bytes());
            let data = vm(IDX_V2MEM);
            data.grow((total * cs).div_ceil(65536));
            let mut map: SMap<(u64, u32), u64, VM> = SMap::init(vm(IDX_V2PTR));
            for (node, idx, b) in &want_chunk {
                let p = pos.pop().unwrap();
                map.insert((*node, *idx), p);
                data.write(p, b);
            }
            for (k, p) in pos.iter().enumerate() {
                a.write((16 + k as u64) * 8, &p.to_le_bytes());
                data.write(*p, &fill(77, *p, cs as usize));
            }
            m.allocated = total > 0;
        } else if cfg.kb != 0 {
            a.grow(1);
            a.write(0, b"FSA1\0\0\0\0");
            a.write(8, &cs.to_le_bytes());
        }
    }
    if journal.is_some() || r.pct(20) {
        let j = vm(IDX_JOURNAL);
        j.grow(1);
        j.write(0, b"FSJ1\0\0\0\0");
        match journal {
            Some(x) => {
                let (c, len) = journal_bytes(&x);
                j.write(16, &x.node.to_le_bytes());
                j.write(24, &c[..len]);
                m.allocated = true; // opening stores it into a chunk
            }
            None => j.write(16, &u64::MAX.to_le_bytes()),
        }
    }
    (cfg, mem, m, prelude)
}

/// the journal holds the record as the compiler laid it out
fn journal_bytes(x: &MetaRec) -> (Vec<u8>, usize) {
    #[derive(Clone, Copy)]
    #[allow(dead_code)]
    enum FT {
        Directory = 3,
        RegularFile = 4,
        SymbolicLink = 7,
    }
    #[derive(Clone, Copy)]
    #[allow(dead_code)]
    enum CT {
        V1 = 1,
        V2 = 2,
    }
    #[derive(Clone)]
    #[allow(dead_code)]
    struct Times {
        accessed: u64,
        modified: u64,
        created: u64,
    }
    #[derive(Clone)]
    #[allow(dead_code)]
    struct MetadataLegacy {
        node: u64,
        file_type: FT,
        link_count: u64,
        size: u64,
        times: Times,
        first_dir_entry: Option<u32>,
        last_dir_entry: Option<u32>,
        chunk_type: Option<CT>,
    }
    let l = std::mem::size_of::<MetadataLegacy>();
    let mut b = vec![0u8; l];
    let rec = MetadataLegacy {
        node: x.node,
        file_type: FT::RegularFile,
        link_count: x.nlink,
        size: x.size,
        times: Times { accessed: x.times.0, modified: x.times.1, created: x.times.2 },
        first_dir_entry: None,
        last_dir_entry: None,
        chunk_type: match x.ctype {
            None => None,
            Some(1) => Some(CT::V1),
            _ => Some(CT::V2),
        },
    };
    unsafe { std::ptr::copy_nonoverlapping(&rec as *const MetadataLegacy as *const u8, b.as_mut_ptr(), l) };
    (b, l)
}

fn profile(r: &mut Rng) -> Profile {
    let mut p = Profile::base("legacy").set("mount", 8).set("size", 9).set("remove", 8).set("rename", 7).set("link", 5).set("list", 6);
    p.reopen = 25;
    p.audit_live = 40;
    p.audit_cold = 15;
    p.audit_struct = 15;
    p.max_objs = 60;
    if r.pct(30) {
        p = p.only(&[("write", 30), ("read", 16), ("size", 20), ("open", 14), ("close", 5), ("remove", 6), ("mount", 10)]);
    }
    p
}

/// audit what was found, then use it
fn exercise(o: &Opt, driver: &str, cfg: Cfg, mem: SMem, model: Model, prelude: Option<Vec<Op>>, seed: u64, r: &mut Rng) -> (Cfg, CaseOut) {
    watch::case(&cfg, seed, driver);
    let mut c = CaseOut::default();
    let real = match Real::on_memory(&cfg, mem, None) {
        Ok(x) => x,
        Err(p) => {
            let text = format!("the old memory cannot be opened: {p}");
            c.violation = Some((Replay { property: o.prop.clone(), driver: driver.into(), cfg: cfg.clone(), ops: vec![], seed, detail: text.clone() }, text));
            return (cfg, c);
        }
    };
    let objects = model.live().count();
    let mut e = Engine::with_real(real);
    e.model = model;
    e.sample_salt = seed | 1;
    let prof = profile(r);
    let mut g = Gen::new(prof, cfg.chunk_bytes());
    g.tag = 2_000_000;
    let n = *r.pick(&[0, 40, 40, 100, 250]);
    let res = (|| {
        for a in [Op::AuditLive, Op::AuditApi, Op::AuditCold, Op::AuditStruct] {
            watch::op(&a);
            e.run(&a)?;
        }
        for _ in 0..n {
            let op = g.next(r, &e.model);
            if matches!(op, Op::SetChunkSize { .. }) {
                continue; // depends on whether anything has been allocated yet
            }
            watch::op(&op);
            e.run(&op)?;
        }
        watch::op(&Op::AuditLive);
        e.finish()
    })();
    watch::idle();
    c.hash = e.trace_hash ^ mix(seed);
    c.stats = e.stats.clone();
    c.nontrivial = objects > 3 && e.stats.ok > 10;
    c.count("objects_in_old_images", objects as u64);
    c.sample = Some(json!({ "driver": driver, "configuration": cfg.name(), "seed": seed, "objects": objects, "length": e.log.len() }));
    if let Err(d) = res {
        let text = format!("{driver}: {}", describe(&d));
        // does it go wrong on newly created data just the same? then it is not about old data
        if let Some(p) = prelude {
            let log: Vec<Op> = e.log.clone();
            if fresh_fails(&cfg, &p, &log) {
                c.foreign = Some(format!("[{}] {text} (new data behave the same)", cfg.name()));
                return (cfg, c);
            }
        }
        c.violation = Some((Replay { property: o.prop.clone(), driver: driver.into(), cfg: cfg.clone(), ops: e.log.clone(), seed, detail: text.clone() }, text));
    }
    (cfg, c)
}

fn fresh_fails(cfg: &Cfg, prelude: &[Op], log: &[Op]) -> bool {
    let Ok(mut e) = Engine::new(cfg) else { return true };
    for op in prelude.iter().chain([&Op::Reopen]).chain(log.iter()) {
        watch::op(op);
        if e.run(op).is_err() {
            watch::idle();
            return true;
        }
    }
    let r = e.finish().is_err();
    watch::idle();
    r
}

fn legacy(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let (cfg, mem, model, prelude) = build(&mut r);
    exercise(o, "legacy", cfg, mem, model, Some(prelude), seed, &mut r)
}

// ---- memories of something else

pub const FOREIGN: Driver = Driver {
    name: "foreign",
    f: foreign,
    fixed: 0,
    weight: 1,
    rule: "foreign: one case takes a stable memory of an earlier release, writes another format version into its header or another marker into its allocator, and expects that opening it is refused; non-trivial: there is something in it",
};

fn foreign(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let (cfg, mem, model, _) = build(&mut r);
    watch::case(&cfg, seed, "foreign");
    let mut c = CaseOut::default();
    c.nontrivial = model.live().count() > 3;
    c.hash = mix(seed);
    for _ in 0..4 {
        let mem = mem.snapshot();
        let raw = Raw::open(&cfg, &mem);
        let what;
        if r.pct(60) {
            let v = match r.below(6) {
                0 => 0,
                1 => 2,
                2 => 257,
                3 => u32::MAX,
                4 => 1 << 31 | 1,
                _ => r.u64() as u32,
            };
            if v == 1 {
                continue;
            }
            let next = raw.header().next_node;
            SCell::new(raw.vm(IDX_HEADER), cbor(vec![("version", int(v as u64)), ("next_node", int(next))]));
            what = format!("version {v} in its header");
        } else {
            let m = raw.vm(IDX_ALLOC);
            if m.size() == 0 {
                continue;
            }
            let mut b = *r.pick(&[*b"ALO2", *b"FSA2", *b"FSA0", *b"fsa1", *b"FSJ1", *b"BTR\x01", *b"\0\0\0\0", *b"FSAA", *b"1ASF"]);
            if r.pct(30) {
                b = (r.u64() as u32).to_le_bytes();
            }
            if &b == b"ALO1" || &b == b"FSA1" {
                continue;
            }
            m.write(0, &b);
            what = format!("the marker {:?} in its allocator", String::from_utf8_lossy(&b));
        }
        c.count("foreign_memories_refused", 1);
        c.stats.ops += 1;
        if Real::on_memory(&cfg, mem, None).is_ok() {
            let text = format!("a memory with {what} is opened");
            c.violation = Some((Replay { property: o.prop.clone(), driver: "foreign".into(), cfg: cfg.clone(), ops: vec![], seed, detail: text.clone() }, text));
            break;
        }
    }
    watch::idle();
    (cfg, c)
}

// ---- memories written by the current release, kept as files

pub const GOLDEN: Driver = Driver {
    name: "golden",
    f: golden,
    fixed: 0,
    weight: 1,
    rule: "golden: one case opens a recorded stable memory written by the release under study (harness/golden), audits it against the model of the history that wrote it, and runs a random history on it; non-trivial: more than 10 successful calls",
};

#[derive(serde::Serialize, serde::Deserialize)]
struct Golden {
    cfg: Cfg,
    ops: Vec<Op>,
    /// descriptor returned, or -1, or -2 for an error
    outs: Vec<i64>,
    /// sizes of the mountable memories before each call are not needed: policies were chosen accordingly
    pages: u64,
}

fn pages_of(mems: &[SMem]) -> Vec<u64> {
    mems.iter().map(|m| m.size()).collect()
}

/// record memories (run once, on the tree whose format is to be kept)
pub fn make_golden(dir: &std::path::Path) {
    let _ = std::fs::create_dir_all(dir);
    let cfgs = [
        (Cfg::v1(), 1u16, 0u8),
        (Cfg::v2(0), 0, 229),
        (Cfg::v2(4), 1, 10),
        (Cfg::v2(64), 1, 100),
        (Cfg::v2(16), 2, 0),
        (Cfg::v2(8), 1, 244),
    ];
    for (k, (mut cfg, bucket, start)) in cfgs.into_iter().enumerate() {
        cfg.bucket = bucket;
        cfg.start = start;
        let mut r = Rng::new(4711 + k as u64);
        let mut p = Profile::base("golden").set("mount", 6).set("time", 8).set("limit", 6).set("link", 6).set("remove", 5).set("size", 5).set("write", 14);
        p.reopen = 10;
        p.audit_live = 0;
        p.audit_api = 0;
        p.audit_cold = 0;
        p.audit_struct = 0;
        p.max_write = 9000;
        p.span = 40_000;
        p.max_objs = 30;
        p.bulk = 0;
        p.hi = 3;
        let mut e = Engine::new(&cfg).unwrap();
        let mut outs = vec![];
        let mut ops = vec![];
        e.outs = Some(vec![]);
        let mut g = Gen::new(p, cfg.chunk_bytes());
        while ops.len() < 160 {
            let op = g.next(&mut r, &e.model);
            if op.is_audit() || op.expand().is_some() || op.is_readonly() || matches!(op, Op::RemoveRec { .. } | Op::SetChunkSize { .. } | Op::SetChunkType { .. } | Op::InitMem { .. } | Op::StoreMem { .. }) {
                continue;
            }
            // the model alone has to be able to follow: no dependence on the size of the memories
            if let Op::Mount { policy, .. } = &op {
                if !matches!(policy, Policy::Explicit(n) if *n < 1 << 20) {
                    continue;
                }
            }
            let n = e.log.len();
            e.run(&op).expect("golden history");
            for i in n..e.log.len() {
                ops.push(e.log[i].clone());
                outs.push(match &e.outs.as_ref().unwrap()[i] {
                    Out::Fd(f) => *f as i64,
                    Out::Err(_) => -2,
                    _ => -1,
                });
            }
        }
        let mem = e.real.mem.snapshot();
        e.finish().expect("golden state");
        let gd = Golden { cfg, ops, outs, pages: mem.size() };
        let mut f = serde_json::to_vec(&gd).unwrap();
        let mut out = (f.len() as u64).to_le_bytes().to_vec();
        out.append(&mut f);
        // non-zero runs of 32 bytes
        let mut b = [0u8; 4096];
        let mut run: Option<(u64, Vec<u8>)> = None;
        let mut flush = |run: &mut Option<(u64, Vec<u8>)>, out: &mut Vec<u8>| {
            if let Some((a, v)) = run.take() {
                out.extend(a.to_le_bytes());
                out.extend((v.len() as u32).to_le_bytes());
                out.extend(v);
            }
        };
        for p in mem.touched_pages() {
            mem.peek(p * 4096, &mut b);
            for (i, c) in b.chunks(32).enumerate() {
                let at = p * 4096 + i as u64 * 32;
                if c.iter().all(|x| *x == 0) {
                    flush(&mut run, &mut out);
                    continue;
                }
                match &mut run {
                    Some((a, v)) if *a + v.len() as u64 == at => v.extend(c),
                    _ => {
                        flush(&mut run, &mut out);
                        run = Some((at, c.to_vec()));
                    }
                }
            }
        }
        flush(&mut run, &mut out);
        std::fs::write(dir.join(format!("g{k}.img")), &out).unwrap();
        println!("g{k}: {} bytes", out.len());
    }
}

fn load(b: &[u8]) -> (Golden, SMem) {
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let g: Golden = serde_json::from_slice(&b[8..8 + n]).unwrap();
    let mem = SMem::with_pages(g.pages);
    let mut at = 8 + n;
    while at < b.len() {
        let a = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        let l = u32::from_le_bytes(b[at + 8..at + 12].try_into().unwrap()) as usize;
        mem.poke(a, &b[at + 12..at + 12 + l]);
        at += 12 + l;
    }
    (g, mem)
}

static IMAGES: [&[u8]; 6] = [
    include_bytes!("../golden/g0.img"),
    include_bytes!("../golden/g1.img"),
    include_bytes!("../golden/g2.img"),
    include_bytes!("../golden/g3.img"),
    include_bytes!("../golden/g4.img"),
    include_bytes!("../golden/g5.img"),
];

fn golden(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let (g, mem) = load(IMAGES[(seed % 6) as usize]);
    // the model follows the recorded history
    let c = &g.cfg;
    let mut m = Model::new(false, c.v1, if c.kb == 0 { 16 } else { c.kb });
    let mut mems: Vec<SMem> = vec![];
    for (op, out) in g.ops.iter().zip(&g.outs) {
        if let Op::Mount { mem, .. } | Op::MemPoke { mem, .. } = op {
            while mems.len() <= *mem as usize {
                mems.push(SMem::new());
            }
            m.ensure_mem(*mem, &mems);
        }
        let out = match out {
            -2 => Out::Err(0),
            -1 => Out::Unit,
            f => Out::Fd(*f as u32),
        };
        m.apply(op, &out, &pages_of(&mems));
    }
    // a new instance: descriptors and mounts are gone
    m.apply(&Op::Reopen, &Out::Unit, &pages_of(&mems));
    m.mems.clear();
    let mut cfg = g.cfg.clone();
    if r.pct(30) {
        cfg.v1 = !cfg.v1; // the type of new files is a setting of the instance
        m.v1 = cfg.v1;
    }
    // the same history on a new memory tells whether a difference is about the recorded memory
    exercise(o, "golden", cfg, mem, m, Some(g.ops), seed, &mut r)
}
