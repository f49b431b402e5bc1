//! Instrumented sparse stable memory: copy-on-write snapshots, access counting, bounds trapping.
use ic_stable_structures::Memory;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const WASM_PAGE: u64 = 65536;
const P: u64 = 4096;
const DENSE: u64 = 1 << 20;

type Page = Rc<[u8; P as usize]>;

pub const WORK_MSG: &str = "WORK-LIMIT exceeded";

#[derive(Clone)]
struct Inner {
    dense: Vec<Option<Page>>,
    sparse: HashMap<u64, Page>,
    size: u64,
    max: u64,
    /// accesses since the last reset, and the ceiling at which the monitor interrupts the call
    steps: u64,
    step_limit: u64,
    total_reads: u64,
    total_writes: u64,
    /// refused attempts to grow since the last reset
    refused: u64,
    /// pages ever written
    pages: u64,
}

#[derive(Clone)]
pub struct SMem(Rc<RefCell<Inner>>);

impl SMem {
    pub fn new() -> Self {
        Self::with_pages(0)
    }
    pub fn with_pages(pages: u64) -> Self {
        SMem(Rc::new(RefCell::new(Inner {
            dense: Vec::new(),
            sparse: HashMap::new(),
            size: pages,
            max: u64::MAX / WASM_PAGE,
            steps: 0,
            step_limit: u64::MAX,
            total_reads: 0,
            total_writes: 0,
            refused: 0,
            pages: 0,
        })))
    }
    /// independent copy of the current contents
    pub fn snapshot(&self) -> SMem {
        let mut i = self.0.borrow().clone();
        i.step_limit = u64::MAX;
        i.max = u64::MAX / WASM_PAGE;
        SMem(Rc::new(RefCell::new(i)))
    }
    /// go back to the contents of a snapshot (the limit stays)
    pub fn restore(&self, snap: &SMem) {
        let s = snap.0.borrow();
        let mut i = self.0.borrow_mut();
        i.dense = s.dense.clone();
        i.sparse = s.sparse.clone();
        i.size = s.size;
        i.pages = s.pages;
    }
    pub fn refused(&self) -> u64 {
        self.0.borrow().refused
    }
    pub fn ptr_eq(&self, o: &SMem) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
    pub fn begin_call(&self, limit: u64) {
        let mut i = self.0.borrow_mut();
        i.steps = 0;
        i.refused = 0;
        i.step_limit = limit;
    }
    pub fn end_call(&self) -> u64 {
        let mut i = self.0.borrow_mut();
        i.step_limit = u64::MAX;
        i.steps
    }
    pub fn totals(&self) -> (u64, u64) {
        let i = self.0.borrow();
        (i.total_reads, i.total_writes)
    }
    /// read as the host program would, without counting; bytes beyond the size read as zero
    pub fn peek(&self, off: u64, dst: &mut [u8]) {
        self.0.borrow().copy_out(off, dst);
    }
    /// write as the host program would (the memory grows as needed)
    pub fn poke(&self, off: u64, src: &[u8]) {
        let mut i = self.0.borrow_mut();
        let need = (off + src.len() as u64).div_ceil(WASM_PAGE);
        if i.size < need {
            i.size = need;
        }
        i.copy_in(off, src);
    }
    /// indices of the 4 KiB pages with content
    pub fn touched_pages(&self) -> Vec<u64> {
        let i = self.0.borrow();
        let mut v: Vec<u64> = i
            .dense
            .iter()
            .enumerate()
            .filter(|(_, p)| p.is_some())
            .map(|(k, _)| k as u64)
            .collect();
        v.extend(i.sparse.keys().copied());
        v.sort();
        v
    }
    pub fn touched_bytes(&self) -> u64 {
        self.0.borrow().pages * P
    }
    pub fn set_max(&self, max: u64) {
        self.0.borrow_mut().max = max;
    }
    pub fn content_hash(&self) -> u64 {
        let mut h = 0u64;
        let mut b = [0u8; P as usize];
        for p in self.touched_pages() {
            self.peek(p * P, &mut b);
            if b.iter().any(|x| *x != 0) {
                h = crate::rng::mix(h ^ p);
                for c in b.chunks(8) {
                    h = (h ^ u64::from_le_bytes(c.try_into().unwrap()))
                        .wrapping_mul(0x100000001b3)
                        .rotate_left(23);
                }
            }
        }
        crate::rng::mix(h ^ self.size())
    }
}

impl Default for SMem {
    fn default() -> Self {
        Self::new()
    }
}

impl Inner {
    fn page(&self, p: u64) -> Option<&Page> {
        if p < DENSE {
            self.dense.get(p as usize).and_then(|x| x.as_ref())
        } else {
            self.sparse.get(&p)
        }
    }
    fn page_mut(&mut self, p: u64) -> &mut [u8; P as usize] {
        if p < DENSE {
            if self.dense.len() <= p as usize {
                self.dense.resize(p as usize + 1, None);
            }
            let pages = &mut self.pages;
            Rc::make_mut(self.dense[p as usize].get_or_insert_with(|| {
                *pages += 1;
                Rc::new([0; P as usize])
            }))
        } else {
            let pages = &mut self.pages;
            Rc::make_mut(self.sparse.entry(p).or_insert_with(|| {
                *pages += 1;
                Rc::new([0; P as usize])
            }))
        }
    }
    fn copy_out(&self, off: u64, dst: &mut [u8]) {
        let mut pos = 0usize;
        while pos < dst.len() {
            let a = off + pos as u64;
            let o = (a % P) as usize;
            let n = (P as usize - o).min(dst.len() - pos);
            match self.page(a / P) {
                Some(pg) => dst[pos..pos + n].copy_from_slice(&pg[o..o + n]),
                None => dst[pos..pos + n].fill(0),
            }
            pos += n;
        }
    }
    fn copy_in(&mut self, off: u64, src: &[u8]) {
        let mut pos = 0usize;
        while pos < src.len() {
            let a = off + pos as u64;
            let o = (a % P) as usize;
            let n = (P as usize - o).min(src.len() - pos);
            let part = &src[pos..pos + n];
            // zeroes do not need a page
            if self.page(a / P).is_some() || part.iter().any(|b| *b != 0) {
                self.page_mut(a / P)[o..o + n].copy_from_slice(part);
            }
            pos += n;
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.step_limit {
            self.step_limit = u64::MAX;
            panic!("{}", WORK_MSG);
        }
    }
}

impl Memory for SMem {
    fn size(&self) -> u64 {
        self.0.borrow().size
    }
    fn grow(&self, pages: u64) -> i64 {
        let mut i = self.0.borrow_mut();
        let old = i.size;
        match old.checked_add(pages) {
            Some(n) if n <= i.max => {
                i.size = n;
                old as i64
            }
            _ => {
                i.refused += 1;
                -1
            }
        }
    }
    fn read(&self, off: u64, dst: &mut [u8]) {
        let mut i = self.0.borrow_mut();
        i.step();
        i.total_reads += 1;
        let end = off.checked_add(dst.len() as u64).expect("memory trap: read overflow");
        if end > i.size * WASM_PAGE {
            drop(i);
            panic!("memory trap: read {off}+{} out of bounds", dst.len());
        }
        i.copy_out(off, dst);
    }
    fn write(&self, off: u64, src: &[u8]) {
        let _uncounted = crate::heap::pause();
        let mut i = self.0.borrow_mut();
        i.step();
        i.total_writes += 1;
        let end = off.checked_add(src.len() as u64).expect("memory trap: write overflow");
        if end > i.size * WASM_PAGE {
            drop(i);
            panic!("memory trap: write {off}+{} out of bounds", src.len());
        }
        i.copy_in(off, src);
    }
}

/// all memories of a run as bytes: the stable memory first, then the host's
pub fn save(mem: &SMem, mems: &[SMem]) -> Vec<u8> {
    let mut v = vec![];
    v.extend((mems.len() as u64).to_le_bytes());
    for m in std::iter::once(mem).chain(mems) {
        let pages = m.touched_pages();
        v.extend(m.size().to_le_bytes());
        v.extend((pages.len() as u64).to_le_bytes());
        let mut b = [0u8; P as usize];
        for p in pages {
            m.peek(p * P, &mut b);
            v.extend(p.to_le_bytes());
            v.extend(b);
        }
    }
    v
}

pub fn load(mut b: &[u8]) -> (SMem, Vec<SMem>) {
    fn num(b: &mut &[u8]) -> u64 {
        let (h, t) = b.split_at(8);
        *b = t;
        u64::from_le_bytes(h.try_into().unwrap())
    }
    if b.is_empty() {
        return (SMem::new(), vec![]);
    }
    let n = num(&mut b);
    let mut v = vec![];
    for _ in 0..=n {
        let m = SMem::with_pages(num(&mut b));
        for _ in 0..num(&mut b) {
            let p = num(&mut b);
            let (h, t) = b.split_at(P as usize);
            m.0.borrow_mut().copy_in(p * P, h);
            b = t;
        }
        v.push(m);
    }
    let mem = v.remove(0);
    (mem, v)
}
