//! State-aware hostile operation generator.
use crate::model::*;
use crate::ops::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    /// class weights
    pub w: Vec<(&'static str, u32)>,
    /// percentages
    pub decor: u64,
    pub bogus: u64,
    /// operations near the size limits
    pub hi: u64,
    /// per mille: macro operations
    pub bulk: u64,
    pub reopen: u64,
    pub audit_live: u64,
    pub audit_api: u64,
    pub audit_cold: u64,
    pub audit_struct: u64,
    pub max_objs: usize,
    pub max_fds: usize,
    pub max_write: u64,
    pub span: u64,
    pub names: u64,
    /// operations at positions far apart in the file
    pub far: u64,
}

impl Profile {
    pub fn base(name: &'static str) -> Profile {
        Profile {
            name,
            w: vec![
                ("write", 18),
                ("read", 10),
                ("seek", 5),
                ("size", 6),
                ("open", 12),
                ("mkdir", 4),
                ("remove", 6),
                ("rename", 4),
                ("link", 3),
                ("rec", 1),
                ("close", 6),
                ("fd", 3),
                ("stat", 3),
                ("list", 4),
                ("limit", 2),
                ("mount", 4),
                ("time", 3),
                ("meta", 3),
                ("misc", 1),
                ("chunk", 1),
            ],
            decor: 15,
            bogus: 3,
            hi: 2,
            bulk: 3,
            reopen: 8,
            audit_live: 25,
            audit_api: 8,
            audit_cold: 8,
            audit_struct: 6,
            max_objs: 30,
            max_fds: 14,
            max_write: 70_000,
            span: 200_000,
            names: 8,
            far: 5,
        }
    }
    pub fn set(mut self, k: &'static str, v: u32) -> Profile {
        self.w.retain(|x| x.0 != k);
        if v > 0 {
            self.w.push((k, v));
        }
        self
    }
    /// a little of every kind of operation it lacks
    pub fn spiced(mut self) -> Profile {
        for (k, v) in Profile::base("").w {
            if !self.w.iter().any(|x| x.0 == k) {
                self.w.push((k, v.clamp(2, 3)));
            }
        }
        self.reopen = self.reopen.max(5);
        self
    }
    pub fn only(mut self, l: &[(&'static str, u32)]) -> Profile {
        self.w = l.to_vec();
        self
    }
}

const POOL: &[&str] = &[
    "a", "b", "c", "ab", "abc", "A", "d1", "d2", "file.txt", "x y", "ä", "名前", "...", ".a", "a.", "-", "b1", "b10", "c\\d", "~",
];

pub struct Gen {
    pub p: Profile,
    total: u32,
    pub tag: u32,
    cs: u64,
    bulk_id: u32,
    bulks: Vec<(Ino, String, u32, u32)>,
    /// positions this history comes back to
    anchors: Vec<u64>,
    /// operations to run next
    queue: Vec<Op>,
    /// an operation to run some time later
    later: Option<(u32, Op)>,
}

impl Gen {
    pub fn new(p: Profile, cs: u64) -> Gen {
        let total = p.w.iter().map(|x| x.1).sum();
        Gen { p, total, tag: 0, cs, bulk_id: 0, bulks: vec![], anchors: vec![], queue: vec![], later: None }
    }

    /// begin with more objects or chunks than the caches of the file system hold; returns how many calls to spend
    pub fn crowd(&mut self, r: &mut Rng, n: usize) -> usize {
        let rec = self.p.w.iter().any(|w| w.0 == "rec" && w.1 > 8);
        self.p.audit_live = self.p.audit_live.min(25);
        self.p.audit_api = self.p.audit_api.min(8);
        self.p.audit_cold = self.p.audit_cold.min(8);
        self.p.audit_struct = self.p.audit_struct.min(8);
        if !rec && r.pct(25) && self.p.w.iter().any(|w| w.0 == "write" && w.1 > 10) {
            // one file with many chunks, spread or together
            let mut n1 = *r.pick(&[1100u32, 2100, 2100, 4200]);
            if self.cs <= 8192 && r.pct(50) {
                // more than one page of free chunks
                n1 = 8400;
            }
            let step = *r.pick(&[self.cs, self.cs, self.cs * 2]);
            self.tag = 2_000_000;
            self.queue = vec![
                Op::Open { parent: 3, path: self.fname(r), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 },
                Op::MStride { fd: LASTFD, start: r.below(3) * self.cs, step, n: n1, len: 1 + r.below(9) as u32, tag: 1 },
                Op::MStrideRead { fd: LASTFD, start: 0, step, n: n1.min(3000), len: 5 },
            ];
            if n1 == 8400 || r.pct(20) {
                self.queue.push(Op::SetSize { fd: LASTFD, size: r.below(3) * self.cs });
                if r.pct(40) {
                    self.queue.push(Op::Reopen);
                    self.queue.push(Op::Open { parent: 3, path: self.fname(r), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 });
                }
                self.queue.push(Op::MStride { fd: LASTFD, start: r.below(100), step: self.cs, n: *r.pick(&[100, 300, 500]), len: 1 + r.below(100) as u32, tag: 9000 });
                self.queue.push(Op::AuditStruct);
                self.queue.push(Op::MStrideRead { fd: LASTFD, start: 0, step: self.cs, n: 600, len: 200 });
            }
        } else if !rec && r.pct(15) {
            // one file open very many times
            let path = self.fname(r);
            let n1 = *r.pick(&[100u32, 255, 255, 255, 257, 300, 511]);
            self.queue = vec![
                Op::Open { parent: 3, path: path.clone(), flags: CREATE, fdflags: 0, rights: ALL_RIGHTS, ctime: 1 },
                Op::MOpen { parent: 3, path: path.clone(), n: n1, flags: if r.pct(30) { CREATE } else { 0 }, fdflags: if r.pct(20) { F_APPEND } else { 0 } },
            ];
            let gone = match r.below(5) {
                0 => Op::Rename { ofd: 3, opath: self.fname(r), nfd: 3, npath: path },
                1 => Op::Rename { ofd: 3, opath: path, nfd: 3, npath: self.fname(r) },
                _ => Op::RemoveFile { parent: 3, path },
            };
            if r.pct(85) {
                self.later = Some((if r.pct(50) { 0 } else { r.range(1, 12) } as u32, gone));
            }
        } else {
            let (big, dirs) = (r.pct(if rec { 30 } else { 15 }), r.below(8));
            let n1 = if big { *r.pick(&[1030u32, 1100]) } else { *r.pick(&[60u32, 101, 130, 130, 256, 300, 520]) };
            self.p.max_objs += n1 as usize;
            let kind = match dirs {
                0 | 1 => 1,
                2 if !big => 2,
                _ => 0,
            };
            let d = self.short(r);
            let id = 1_000_000;
            let prefix = if r.pct(75) {
                self.queue.push(Op::Mkdir { parent: 3, path: d.clone(), ctime: 1 });
                format!("{d}/z{id}_")
            } else {
                format!("z{id}_")
            };
            self.queue.push(Op::MCreate { parent: 3, prefix: prefix.clone(), from: 0, n: n1, kind, len: 40, tag: 2_000_000 });
            self.bulks.push((ROOT, prefix.clone(), 0, n1));
            self.p.bulk = self.p.bulk.max(15);
            if r.pct(50) {
                self.queue.push(Op::MLookup { parent: 3, prefix: prefix.clone(), from: 0, n: n1, step: 1 });
            }
            if r.pct(if rec { 80 } else { 20 }) {
                self.later = Some((r.range(1, 40) as u32, if prefix.contains('/') { Op::RemoveRec { parent: 3, path: d } } else { Op::MRemove { parent: 3, prefix, from: 0, n: n1, step: 1, dirs: kind == 1 } }));
            }
        }
        self.queue.reverse();
        n.min(120)
    }

    fn tag(&mut self, r: &mut Rng) -> u32 {
        if r.pct(4) {
            return 0;
        }
        self.tag += 1;
        self.tag
    }

    /// an interesting number of bytes or position
    pub fn size(&self, r: &mut Rng, span: u64) -> u64 {
        let cs = *r.pick(&[self.cs, self.cs, 4096, 65536]);
        let v = match r.below(10) {
            0 => r.below(20),
            1 | 2 => r.below(span + 1),
            3 => r.below(5000),
            _ => {
                let k = r.below((span / cs).max(1) + 1) * cs;
                let d = *r.pick(&[0i64, 0, 0, 1, -1, 2, -2, 7, 100, -100, 2048]);
                (k as i64 + d).max(0) as u64
            }
        };
        v.min(span)
    }

    fn hi_off(&self, r: &mut Rng) -> u64 {
        let base = *r.pick(&[
            MAX_FILE_SIZE,
            MAX_FILE_SIZE,
            MAX_FILE_SIZE,
            u64::MAX,
            i64::MAX as u64,
            1 << 32,
            1 << 44,
            u32::MAX as u64 * 4096,
            u32::MAX as u64 * self.cs,
            (1u64 << 32) * self.cs,
            MAX_FILE_SIZE / 2,
            1 << 40,
        ]);
        let d = *r.pick(&[0i64, 1, -1, -2, 4096, -4096, -4095, -4097, -16384, -65536, -20000, 65536, -8191, -300, -11 * 4096]);
        (base as i128 + d as i128).clamp(0, u64::MAX as i128) as u64
    }

    fn choose_anchors(&mut self, r: &mut Rng) {
        let unit = *r.pick(&[self.cs, self.cs, 4096, 65536]);
        let step = *r.pick(&[10u64, 99, 100, 100, 101, 1000, 1023, 1024, 1024, 1025, 4096, 10_000]) * self.cs;
        let k = match r.below(4) {
            0 => r.below(300),
            1 => *r.pick(&[50u64, 100, 128, 256, 500, 1000, 1024, 2048, 4096, 65536, 1 << 20]),
            2 => 0,
            _ => {
                let s = r.below(22);
                r.below(2 << s)
            }
        };
        let a = k * unit;
        self.anchors = vec![a, a + step, a + step * (1 + r.below(12)), (1u64 << r.range(16, 40)) + r.below(3) * self.cs];
    }

    fn far_off(&self, r: &mut Rng) -> u64 {
        let d = *r.pick(&[0i64, 0, 0, 1, -1, 4096, 50, -50, 700, self.cs as i64, -(self.cs as i64)]);
        (*r.pick(&self.anchors) as i64 + d).max(0) as u64
    }

    fn len(&self, r: &mut Rng) -> u64 {
        let m = self.p.max_write;
        match r.below(12) {
            0 => 0,
            1 | 2 => 1 + r.below(10),
            3 | 4 | 5 => r.below(3000),
            6 => self.cs.min(m),
            7 => (self.cs * (1 + r.below(4)) + r.below(3)).saturating_sub(1).min(m),
            _ => self.size(r, m),
        }
    }

    fn lens(&self, r: &mut Rng) -> Vec<u32> {
        let n = r.below(5);
        let mut v: Vec<u32> = (0..n).map(|_| if r.pct(15) { 0 } else { (self.len(r) / 2) as u32 }).collect();
        if r.pct(3) {
            v = (0..20).map(|_| r.below(300) as u32).collect();
        } else if r.below(300) == 0 {
            let most = *r.pick(&[2u64, 2, 10, 40]);
            v = (0..*r.pick(&[1023u32, 1024, 1025, 1300, 2049, 4100])).map(|_| r.below(most) as u32).collect();
        }
        v
    }

    fn fname(&self, r: &mut Rng) -> String {
        if r.pct(2) {
            let c = *r.pick(&["n", "é", "z"]);
            let n = *r.pick(&[255usize, 254, 255, 200]);
            let mut s = String::new();
            while s.len() + c.len() <= n {
                s.push_str(c);
            }
            while s.len() < n {
                s.push('q');
            }
            return s;
        }
        let n = (self.p.names as usize).clamp(1, POOL.len());
        let k = if r.pct(15) { POOL.len() } else { n };
        POOL[r.us(k)].to_string()
    }

    fn bogus_name(&self, r: &mut Rng) -> String {
        match r.below(5) {
            0 => "n".repeat(256),
            1 => "é".repeat(128),
            2 => "x".repeat(300 + r.us(3000)),
            3 => "\u{0}".into(),
            _ => " ".into(),
        }
    }

    fn pick_dir_fd(&self, r: &mut Rng, m: &Model) -> (u32, Ino) {
        let v: Vec<(u32, Ino)> = m.fds.iter().filter(|f| m.inodes[f.1.ino].dir).map(|f| (*f.0, f.1.ino)).collect();
        if v.is_empty() || r.pct(45) {
            return (3, ROOT);
        }
        *r.pick(&v)
    }
    fn pick_file_fd(&self, r: &mut Rng, m: &Model) -> Option<u32> {
        let v: Vec<u32> = m.fds.iter().filter(|f| !m.inodes[f.1.ino].dir).map(|f| *f.0).collect();
        if v.is_empty() {
            return None;
        }
        if r.pct(35) && v.contains(&m.last_fd) {
            return Some(m.last_fd);
        }
        Some(*r.pick(&v))
    }
    fn any_fd(&self, r: &mut Rng, m: &Model) -> u32 {
        if r.below(100) < self.p.bogus {
            return self.bogus_fd(r, m);
        }
        let v: Vec<u32> = m.fds.keys().copied().collect();
        *r.pick(&v)
    }
    fn bogus_fd(&self, r: &mut Rng, m: &Model) -> u32 {
        let top = m.fds.keys().copied().max().unwrap_or(3);
        *r.pick(&[0, 1, 2, top.wrapping_add(1), 77, u32::MAX, 5, 3, 4])
    }
    fn file_fd(&self, r: &mut Rng, m: &Model) -> u32 {
        if r.below(100) < self.p.bogus {
            return self.any_fd(r, m);
        }
        match self.pick_file_fd(r, m) {
            Some(f) => f,
            None => self.any_fd(r, m),
        }
    }

    /// random walk below a directory
    fn walk(&self, r: &mut Rng, m: &Model, from: Ino, want_dir_only: bool) -> (Ino, Vec<String>) {
        let mut cur = from;
        let mut path = vec![];
        for _ in 0..4 {
            if r.pct(35) {
                break;
            }
            let v: Vec<(&String, Ino)> =
                m.inodes[cur].entries.iter().map(|e| (e.0, e.1.ino)).filter(|e| !want_dir_only || m.inodes[e.1].dir).collect();
            if v.is_empty() {
                break;
            }
            let (n, i) = r.pick(&v);
            path.push(n.to_string());
            cur = *i;
            if !m.inodes[cur].dir {
                break;
            }
        }
        (cur, path)
    }

    fn decorate(&self, r: &mut Rng, comps: &[String]) -> String {
        if r.below(100) >= self.p.decor {
            return comps.join("/");
        }
        let mut s = String::new();
        for (k, c) in comps.iter().enumerate() {
            match r.below(8) {
                0 => s.push_str("./"),
                1 => {
                    s.push_str(&self.short(r));
                    s.push_str("/../");
                }
                2 if k > 0 => s.push('/'),
                3 => {
                    s.push_str("./");
                    s.push_str(&self.short(r));
                    s.push_str("/.//../");
                }
                4 if k > 0 => {
                    s.push_str(&format!("../{}/", comps[k - 1]));
                }
                5 => {
                    s.push_str(&format!("{}/{}/../../", self.short(r), self.short(r)));
                }
                _ => {}
            }
            s.push_str(c);
            if k + 1 < comps.len() {
                s.push('/');
            }
        }
        match r.below(6) {
            0 => s.push('/'),
            1 => s.push_str("/."),
            2 if comps.is_empty() => s.push('.'),
            3 => s.push_str("//"),
            4 => s.push_str(&format!("/{}/..", self.short(r))),
            _ => {}
        }
        if s.starts_with('/') && !r.pct(10) {
            s.insert(0, '.');
        }
        s
    }
    fn short(&self, r: &mut Rng) -> String {
        let n = (self.p.names as usize).clamp(1, POOL.len());
        POOL[r.us(n)].to_string()
    }

    fn bad_path(&self, r: &mut Rng) -> String {
        match r.below(12) {
            9.. => {
                // one impossible component among new ones
                let n = if r.pct(12) { r.range(10, 60) } else { r.range(1, 6) };
                let mut v: Vec<String> = (0..n).map(|_| self.fname(r)).collect();
                let k = if r.pct(30) { v.len() } else { r.us(v.len() + 1) };
                v.insert(k, self.bogus_name(r));
                if r.pct(25) {
                    v.push("..".into());
                }
                v.join("/")
            }
            0 => "".into(),
            1 => ".".into(),
            2 => "..".into(),
            3 => "/a".into(),
            4 => "a/../../b".into(),
            5 => format!("a/{}", self.bogus_name(r)),
            6 => self.bogus_name(r),
            7 => "/".into(),
            _ => "./../a".into(),
        }
    }

    /// path from `from` to something that exists, with probability `exist`, else to something new
    pub fn path(&self, r: &mut Rng, m: &Model, from: Ino, exist: u64, dirs: bool) -> String {
        if r.below(200) < self.p.bogus {
            return self.bad_path(r);
        }
        if r.pct(exist) {
            let (_, p) = self.walk(r, m, from, dirs);
            if !p.is_empty() || r.pct(8) {
                return self.decorate(r, &p);
            }
        }
        let (d, mut p) = self.walk(r, m, from, true);
        // a name that existed before?
        let dead: Vec<&String> = m.dead.iter().filter(|x| x.0 == d).map(|x| &x.1).collect();
        if !dead.is_empty() && r.pct(40) {
            p.push(r.pick(&dead).to_string());
        } else {
            if r.pct(8) {
                p.push(self.fname(r));
            }
            if r.pct(2) {
                p.push(self.fname(r));
            }
            p.push(self.fname(r));
        }
        // sometimes a component below a file
        if r.below(300) < self.p.bogus {
            p.push(self.fname(r));
        }
        self.decorate(r, &p)
    }

    fn fdflags(&self, r: &mut Rng) -> u16 {
        match r.below(10) {
            0 | 1 => F_APPEND,
            2 => *r.pick(&[2u16, 4, 8, 16, 5, 31]),
            _ => 0,
        }
    }
    fn rights(&self, r: &mut Rng) -> u64 {
        match r.below(14) {
            0 => R_READ,
            1 => R_WRITE,
            2 => 0,
            3 => ALL_RIGHTS & !R_WRITE,
            4 => ALL_RIGHTS & !R_READ,
            5 => R_READ | R_WRITE,
            _ => ALL_RIGHTS,
        }
    }
    pub fn time(&self, r: &mut Rng) -> u64 {
        match r.below(4) {
            0 => r.below(1000),
            1 => u64::MAX,
            2 => 0,
            _ => r.u64(),
        }
    }

    fn file_path(&self, r: &mut Rng, m: &Model) -> Option<(Ino, String)> {
        let v: Vec<Ino> = m.live().filter(|i| !m.inodes[*i].dir).collect();
        if v.is_empty() {
            return None;
        }
        let i = *r.pick(&v);
        let ns = m.names_of(i);
        let (mut d, n) = r.pick(&ns).clone();
        let mut comps = vec![n];
        while d != ROOT {
            let (p, n) = m.names_of(d).into_iter().next()?;
            comps.push(n);
            d = p;
        }
        comps.reverse();
        Some((i, comps.join("/")))
    }

    fn limit(&self, r: &mut Rng, cur: u64) -> u64 {
        match r.below(8) {
            0 => cur,
            1 => cur.saturating_sub(1),
            2 => cur + 1,
            3 => self.hi_off(r),
            4 => 0,
            5 => self.size(r, self.p.span),
            6 if self.p.far > 0 => cur.saturating_add(self.far_off(r)),
            _ => cur + self.size(r, 20_000),
        }
    }

    pub fn next(&mut self, r: &mut Rng, m: &Model) -> Op {
        if self.anchors.is_empty() {
            self.choose_anchors(r);
        }
        if let Some(o) = self.queue.pop() {
            return o;
        }
        if let Some((k, o)) = self.later.take() {
            if k == 0 {
                return o;
            }
            self.later = Some((k - 1, o));
        }
        let x = r.below(1000);
        let p = &self.p;
        let mut acc = p.bulk;
        if x < acc {
            return self.bulk(r, m);
        }
        for (w, op) in [
            (p.reopen, Op::Reopen),
            (p.audit_live, Op::AuditLive),
            (p.audit_api, Op::AuditApi),
            (p.audit_cold, Op::AuditCold),
            (p.audit_struct, Op::AuditStruct),
        ] {
            if x >= acc && x < acc + w {
                return op;
            }
            acc += w;
        }
        let live = m.live().count();
        if live > self.p.max_objs && r.pct(40) {
            return if r.pct(10) { self.class(r, m, "rec") } else { self.class(r, m, "remove") };
        }
        if m.fds.len() > self.p.max_fds && r.pct(50) {
            return self.class(r, m, "close");
        }
        // something to work with first
        let files = m.fds.values().any(|f| !m.inodes[f.ino].dir);
        let mut k = r.below(self.total as u64) as u32;
        let mut c = self.p.w[0].0;
        for (n, w) in &self.p.w {
            if k < *w {
                c = n;
                break;
            }
            k -= w;
        }
        if !files && matches!(c, "write" | "read" | "seek" | "size" | "limit") && r.pct(85) {
            c = "open";
        }
        self.class(r, m, c)
    }

    fn offset(&self, r: &mut Rng, m: &Model, fd: u32) -> u64 {
        if r.below(100) < self.p.hi {
            return self.hi_off(r);
        }
        if r.below(100) < self.p.far * 3 && m.fds.get(&fd).is_none_or(|f| m.inodes[f.ino].mounted.is_none()) {
            return self.far_off(r);
        }
        let size = m.fds.get(&fd).map(|f| m.size(f.ino)).unwrap_or(0);
        match r.below(6) {
            0 => size,
            1 => size.saturating_add(self.size(r, 40_000)),
            2 if size > 0 => r.below(size),
            _ => self.size(r, self.p.span),
        }
    }

    fn class(&mut self, r: &mut Rng, m: &Model, c: &str) -> Op {
        match c {
            "write" => {
                let fd = self.file_fd(r, m);
                let tag = self.tag(r);
                match r.below(10) {
                    0..=3 => Op::Write { fd, tag, len: self.len(r) as u32 },
                    4 => Op::WriteVec { fd, tag, lens: self.lens(r) },
                    5 => Op::PWrite { fd, tag, lens: self.lens(r), off: self.offset(r, m, fd) },
                    _ => Op::PWrite { fd, tag, lens: vec![self.len(r) as u32], off: self.offset(r, m, fd) },
                }
            }
            "read" => {
                let fd = self.file_fd(r, m);
                match r.below(8) {
                    0..=2 => Op::Read { fd, len: self.len(r) as u32 },
                    3 => Op::ReadVec { fd, lens: self.lens(r) },
                    4 => Op::PRead { fd, lens: self.lens(r), off: self.offset(r, m, fd) },
                    _ => Op::PRead { fd, lens: vec![self.len(r) as u32], off: self.offset(r, m, fd) },
                }
            }
            "seek" => {
                let fd = self.file_fd(r, m);
                if r.pct(20) {
                    return Op::Tell { fd };
                }
                let whence = r.below(3) as u8;
                let size = m.fds.get(&fd).map(|f| m.size(f.ino)).unwrap_or(0) as i64;
                let cur = m.fds.get(&fd).map(|f| f.cursor).unwrap_or(0);
                let delta = match r.below(12) {
                    0 => 0,
                    1 => -(r.below(10) as i64),
                    2 if r.below(100) < 20 + self.p.hi => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, 1, i64::MAX - 1, MAX_FILE_SIZE as i64]),
                    3 => size,
                    4 => -size,
                    5 => -size - 1,
                    6 => -((cur.min(1 << 40)) as i64),
                    7 => -((cur.min(1 << 40)) as i64) - 1,
                    8 if whence == 2 => -(r.below(size.clamp(0, 1 << 40) as u64 + 1) as i64),
                    _ => match whence {
                        0 if r.below(100) < self.p.far * 2 => self.far_off(r) as i64,
                        0 => self.size(r, self.p.span) as i64,
                        1 => r.below(20_000) as i64 - 5_000,
                        _ => -(r.below(size.clamp(0, 1 << 40) as u64 + 1) as i64),
                    },
                };
                Op::Seek { fd, delta, whence }
            }
            "size" => {
                let fd = self.file_fd(r, m);
                let size = m.fds.get(&fd).map(|f| m.size(f.ino)).unwrap_or(0);
                let s = if r.below(100) < self.p.hi {
                    self.hi_off(r)
                } else if r.below(100) < self.p.far * 2 && m.fds.get(&fd).is_none_or(|f| m.inodes[f.ino].mounted.is_none()) {
                    self.far_off(r)
                } else {
                    match r.below(8) {
                        0 => 0,
                        1 => size,
                        2 => size.saturating_add(self.size(r, 60_000)),
                        3 | 4 if size > 0 => r.below(size),
                        5 if size > 0 => (r.below(size) / self.cs) * self.cs,
                        6 if size > 0 => (r.below(size) / 4096) * 4096,
                        _ => self.size(r, self.p.span),
                    }
                };
                match r.below(8) {
                    0 => {
                        if let Some((_, path)) = self.file_path(r, m) {
                            return Op::Open {
                                parent: 3,
                                path,
                                flags: TRUNC | if r.pct(30) { CREATE } else { 0 },
                                fdflags: self.fdflags(r),
                                rights: self.rights(r),
                                ctime: self.time(r),
                            };
                        }
                        Op::SetSize { fd, size: s }
                    }
                    1 if m.fds.get(&fd).is_some_and(|f| !m.inodes[f.ino].dir) => {
                        Op::SetMeta { fd, change: MetaChange::Size(s) }
                    }
                    _ => Op::SetSize { fd, size: s },
                }
            }
            "open" => {
                let (parent, d) = self.pick_dir_fd(r, m);
                let parent = if r.below(100) < self.p.bogus { self.any_fd(r, m) } else { parent };
                let exist = 50;
                let path = self.path(r, m, d, exist, false);
                let mut flags = if r.pct(75) { CREATE } else { 0 };
                if r.pct(10) {
                    flags |= EXCL;
                }
                if r.pct(8) {
                    flags |= TRUNC;
                }
                if r.pct(12) {
                    flags |= DIRECTORY;
                }
                Op::Open { parent, path, flags, fdflags: self.fdflags(r), rights: self.rights(r), ctime: self.time(r) }
            }
            "mkdir" => {
                let (parent, d) = self.pick_dir_fd(r, m);
                let path = self.path(r, m, d, 15, false);
                let ctime = self.time(r);
                if r.pct(60) {
                    Op::Mkdir { parent, path, ctime }
                } else {
                    Op::CreateOpenDir { parent, path, ctime }
                }
            }
            "remove" => {
                let (parent, d) = self.pick_dir_fd(r, m);
                let parent = if r.below(100) < self.p.bogus { self.any_fd(r, m) } else { parent };
                let path = self.path(r, m, d, 90, false);
                let is_dir = m.resolve(d, &path).map(|f| m.inodes[f.ino].dir).unwrap_or(false);
                if is_dir ^ r.pct(8) {
                    Op::RemoveDir { parent, path }
                } else {
                    Op::RemoveFile { parent, path }
                }
            }
            "rec" => {
                let (parent, d) = self.pick_dir_fd(r, m);
                let dirs = r.pct(60);
                let path = self.path(r, m, d, 93, dirs);
                // emptying everything too often makes dull histories
                if parts(&path).map(|v| v.is_empty()).unwrap_or(false) && !r.pct(10) {
                    return self.class(r, m, "open");
                }
                Op::RemoveRec { parent, path }
            }
            "rename" | "link" => {
                let (ofd, a) = self.pick_dir_fd(r, m);
                let (nfd, b) = if r.pct(40) { (ofd, a) } else { self.pick_dir_fd(r, m) };
                let ofd = if r.below(100) < self.p.bogus { self.any_fd(r, m) } else { ofd };
                let dirs = r.pct(30);
                let opath = if c == "rename" { self.path(r, m, a, 92, dirs) } else { self.path(r, m, a, 95, false) };
                let npath = if r.pct(6) && a == b {
                    // into itself, or the same name
                    if r.pct(50) {
                        opath.clone()
                    } else {
                        format!("{opath}/{}", self.short(r))
                    }
                } else {
                    self.path(r, m, b, 35, false)
                };
                if c == "rename" {
                    Op::Rename { ofd, opath, nfd, npath }
                } else {
                    Op::Link { ofd, opath, nfd, npath }
                }
            }
            "close" => Op::Close {
                fd: {
                    let f = self.any_fd(r, m);
                    if f == 3 && !r.pct(10) {
                        self.file_fd(r, m)
                    } else {
                        f
                    }
                },
            },
            "fd" => {
                let from = self.any_fd(r, m);
                let to = if r.pct(50) { self.any_fd(r, m) } else { *r.pick(&[4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 0, 1, 2, 20]) };
                Op::Renumber { from, to }
            }
            "stat" => {
                let fd = self.any_fd(r, m);
                if r.pct(50) {
                    Op::GetStat { fd }
                } else {
                    Op::SetStat { fd, fdflags: self.fdflags(r), rights: self.rights(r), inheriting: r.below(1 << 28) }
                }
            }
            "list" => {
                let (fd, d) = self.pick_dir_fd(r, m);
                let fd = if r.below(100) < self.p.bogus { self.any_fd(r, m) } else { fd };
                let idx: Vec<u32> = m.inodes[d].entries.values().map(|e| e.index.get()).filter(|x| *x > 0).collect();
                let some = |r: &mut Rng| match r.below(6) {
                    0 if !idx.is_empty() => r.pick(&idx) + 1,
                    1 | 2 | 3 if !idx.is_empty() => *r.pick(&idx),
                    4 => *r.pick(&[0u32, 1, DOT_IDX, DOTDOT_IDX, u32::MAX, u32::MAX - 10, u32::MAX - 11, u32::MAX - 6, u32::MAX - 3, 1 << 31]),
                    _ => r.below(20) as u32,
                };
                if r.pct(30) {
                    return Op::DirEntry { fd, index: some(r) };
                }
                let start = if r.pct(45) { None } else { Some(some(r)) };
                let stop = if r.pct(60) { u32::MAX } else { r.below(8) as u32 };
                Op::List { fd, start, stop }
            }
            "limit" => {
                let fd = self.file_fd(r, m);
                let cur = m.fds.get(&fd).map(|f| m.size(f.ino)).unwrap_or(0);
                if r.pct(75) || m.fds.get(&fd).is_none_or(|f| m.inodes[f.ino].dir) {
                    return Op::SetLimit { fd, limit: self.limit(r, cur) };
                }
                let change = match r.below(3) {
                    0 => MetaChange::Limit(None),
                    1 => MetaChange::Limit(Some(self.limit(r, cur))),
                    _ => MetaChange::SizeAndLimit(
                        if r.below(100) < self.p.hi { self.hi_off(r) } else { self.size(r, self.p.span) },
                        if r.pct(50) { None } else { Some(self.limit(r, cur)) },
                    ),
                };
                Op::SetMeta { fd, change }
            }
            "mount" => self.mount(r, m),
            "time" => {
                let fd = self.any_fd(r, m);
                match r.below(5) {
                    0 | 1 => Op::SetATime { fd, t: self.time(r) },
                    2 | 3 => Op::SetMTime { fd, t: self.time(r) },
                    _ => match r.below(8) {
                        0 => Op::SetMeta { fd, change: MetaChange::Type },
                        1 => Op::SetMeta { fd, change: MetaChange::Node },
                        _ => Op::SetMeta { fd, change: MetaChange::Times(self.time(r), self.time(r), self.time(r)) },
                    },
                }
            }
            "meta" => {
                if r.pct(40) {
                    Op::Metadata { fd: self.any_fd(r, m) }
                } else {
                    let (parent, d) = self.pick_dir_fd(r, m);
                    Op::OpenMeta { parent, path: self.path(r, m, d, 75, false) }
                }
            }
            "chunk" => {
                if r.pct(50) {
                    Op::SetChunkSize { kb: *r.pick(&[4, 8, 16, 32, 64]) }
                } else {
                    Op::SetChunkType { v1: r.pct(50) }
                }
            }
            _ => {
                let fd = self.any_fd(r, m);
                match r.below(3) {
                    0 => Op::Flush { fd },
                    1 => Op::Advice { fd },
                    _ => Op::Allocate { fd, off: self.size(r, 10_000), len: self.size(r, 100_000) },
                }
            }
        }
    }

    fn mount(&mut self, r: &mut Rng, m: &Model) -> Op {
        let mounted: Vec<Ino> = m.live().filter(|i| m.inodes[*i].mounted.is_some()).collect();
        let pathof = |r: &mut Rng, i: Ino| -> Option<String> {
            let ns = m.names_of(i);
            if ns.is_empty() {
                return None;
            }
            let (mut d, n) = r.pick(&ns).clone();
            let mut comps = vec![n];
            while d != ROOT {
                let (p, n) = m.names_of(d).into_iter().next()?;
                comps.push(n);
                d = p;
            }
            comps.reverse();
            let s = comps.join("/");
            Some(if r.pct(30) { format!("/{s}") } else { s })
        };
        if !mounted.is_empty() && r.pct(70) {
            let i = *r.pick(&mounted);
            if let Some(path) = pathof(r, i) {
                let n = &m.inodes[i];
                let big = n.host.size > 1 << 20 || n.mmeta.as_ref().is_some_and(|x| x.size > 1 << 20);
                match r.below(10) {
                    0 | 1 => return Op::Unmount { path },
                    2 | 3 if !big => return Op::InitMem { path },
                    4 | 5 if !big => return Op::StoreMem { path },
                    6 => return Op::Mount { path, mem: r.below(4) as u32, policy: Policy::Pages },
                    _ => {
                        let mem = n.mounted.unwrap();
                        return Op::MemPoke { mem, off: self.size(r, 200_000), tag: 1 + r.below(1 << 30) as u32, len: self.len(r) as u32 };
                    }
                }
            }
        }
        let target = self.file_path(r, m);
        let path = match target {
            Some((_, p)) if r.pct(75) => p,
            _ => self.path(r, m, ROOT, 40, false),
        };
        let path = if r.pct(20) { format!("/{path}") } else { path };
        if r.pct(6) {
            let big = mounted.iter().any(|i| m.inodes[*i].host.size > 1 << 22 || m.inodes[*i].mmeta.as_ref().is_some_and(|x| x.size > 1 << 22));
            return match r.below(3) {
                _ if big => Op::Unmount { path },
                0 => Op::Unmount { path },
                1 => Op::InitMem { path },
                _ => Op::StoreMem { path },
            };
        }
        if r.pct(15) {
            return Op::MemPoke { mem: r.below(3) as u32, off: self.size(r, 200_000), tag: 1 + r.below(1 << 30) as u32, len: self.len(r) as u32 };
        }
        // a memory that is not mounted anywhere, mostly
        let used: Vec<u32> = m.live().filter_map(|i| m.inodes[i].mounted).collect();
        let mut mem = r.below(4) as u32;
        for _ in 0..3 {
            if used.contains(&mem) && !r.pct(10) {
                mem = r.below(4) as u32;
            }
        }
        let policy = match r.below(6) {
            0 => Policy::PrevOrZero,
            1 | 2 => Policy::PrevOrPages,
            3 => Policy::Pages,
            _ => Policy::Explicit(if r.below(100) < self.p.hi { self.hi_off(r) } else { self.size(r, 200_000) }),
        };
        Op::Mount { path, mem, policy }
    }

    /// macro operations: many names, many chunks
    fn bulk(&mut self, r: &mut Rng, m: &Model) -> Op {
        self.bulks.retain(|b| m.inodes[b.0].alive);
        if r.pct(35) {
            // the single file variant
            if let Some(fd) = self.pick_file_fd(r, m) {
                let i = m.fds[&fd].ino;
                if m.inodes[i].mounted.is_none() {
                    let n = r.range(20, 120) as u32;
                    let step = *r.pick(&[self.cs, self.cs * 2, self.cs * 3 + 1, 4096]);
                    let tag = self.tag(r);
                    self.tag += n;
                    return if r.pct(60) {
                        Op::MStride { fd, start: self.size(r, 100_000), step, n, len: 1 + r.below(300) as u32, tag }
                    } else {
                        Op::MStrideRead { fd, start: self.size(r, 100_000), step, n, len: 1 + r.below(300) as u32 }
                    };
                }
            }
        }
        if !self.bulks.is_empty() && r.pct(60) {
            let (_, prefix, from, n) = r.pick(&self.bulks).clone();
            let step = *r.pick(&[1u32, 1, 2, 3, 7]);
            return if r.pct(40) {
                Op::MRemove { parent: 3, prefix, from, n, step, dirs: false }
            } else {
                Op::MLookup { parent: 3, prefix, from, n, step }
            };
        }
        // a new bunch; only below the root by path, so that it can be found again
        self.bulk_id += 1;
        let (d, p) = self.walk(r, m, ROOT, true);
        let mut prefix = p.join("/");
        if !prefix.is_empty() {
            prefix.push('/');
        }
        prefix.push_str(&format!("z{}_", self.bulk_id));
        let n = r.range(20, 130) as u32;
        self.bulks.push((d, prefix.clone(), 0, n));
        let kind = *r.pick(&[0u8, 0, 1, 2]);
        Op::MCreate { parent: 3, prefix, from: 0, n, kind, len: r.below(9000) as u32, tag: 1_000_000 + self.bulk_id * 1000 }
    }
}
