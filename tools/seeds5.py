exec(open('/verif/tools/seeds1.py').read().split('SEEDS='+'[')[0])
SEEDS=[
dict(id='S66-chunk-positions-in-32-bits',prop='P03',
 edits=[('storage/stable.rs','''                let ptr = self.v2_filechunk.v2_allocator.allocate();

                grow_memory(&self.v2_filechunk.v2_chunks, ptr + chunk_size as FileSize);

                // fill new chunk''','''                let ptr = self.v2_filechunk.v2_allocator.allocate() as u32 as FileSize;

                grow_memory(&self.v2_filechunk.v2_chunks, ptr + chunk_size as FileSize);

                // fill new chunk''')],
 needs='more than 4 GiB stored in V2 chunks of one stable memory',
 breaks='the chunk after the 4 GiB border overwrites the first chunk of the oldest file',
 demo='''/// keeps only pages with something in them
#[derive(Clone, Default)]
struct Thin(std::rc::Rc<std::cell::RefCell<(u64, std::collections::HashMap<u64, Vec<u8>>)>>);
impl ic_stable_structures::Memory for Thin {
    fn size(&self) -> u64 {
        self.0.borrow().0
    }
    fn grow(&self, pages: u64) -> i64 {
        let mut m = self.0.borrow_mut();
        let old = m.0;
        m.0 += pages;
        old as i64
    }
    fn read(&self, offset: u64, dst: &mut [u8]) {
        let m = self.0.borrow();
        assert!(offset + dst.len() as u64 <= m.0 * 65536);
        let mut p = 0;
        while p < dst.len() {
            let a = offset + p as u64;
            let (k, o) = (a / 65536, (a % 65536) as usize);
            let n = (65536 - o).min(dst.len() - p);
            match m.1.get(&k) {
                Some(x) => dst[p..p + n].copy_from_slice(&x[o..o + n]),
                None => dst[p..p + n].fill(0),
            }
            p += n;
        }
    }
    fn write(&self, offset: u64, src: &[u8]) {
        static ZERO: [u8; 65536] = [0; 65536];
        let mut m = self.0.borrow_mut();
        assert!(offset + src.len() as u64 <= m.0 * 65536);
        let mut p = 0;
        while p < src.len() {
            let a = offset + p as u64;
            let (k, o) = (a / 65536, (a % 65536) as usize);
            let n = (65536 - o).min(src.len() - p);
            let s = &src[p..p + n];
            if m.1.contains_key(&k) || s != &ZERO[..n] {
                m.1.entry(k).or_insert_with(|| vec![0; 65536])[o..o + n].copy_from_slice(s);
            }
            p += n;
        }
    }
}

fn main() {
    let mut s = StableStorage::new(Thin::default());
    s.set_chunk_type(stable_fs::fs::ChunkType::V2);
    s.set_chunk_size(stable_fs::fs::ChunkSize::CHUNK64K).unwrap();
    let mut f = FileSystem::new(Box::new(s)).unwrap();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"the oldest file");
    let b = create(&mut f, "b");
    let z = vec![0u8; 64 << 20];
    for i in 0..65u64 {
        wr(&mut f, b, i << 26, &z);
    }
    assert_eq!(content(&mut f, a), b"the oldest file");
}
'''),
dict(id='S67-mode-decides-what-is-freed',prop='P02',
 edits=[('storage/stable.rs','''        // delete v2 chunks

        let chunk_size = self.chunk_size();
''','''        // delete v2 chunks
        if self.chunk_type() == ChunkType::V1 {
            return Ok(());
        }

        let chunk_size = self.chunk_size();
''')],
 needs='a file written in V2 chunks; after an upgrade the storage is set to V1 chunks for new files, the old file is shrunk and grows again',
 breaks='the data above the new size reappears; the chunks are not released',
 demo='''fn main() {
    let m = mem();
    let mut f = fs_on(&m);
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[7; 100_000]);
    drop(f);
    let mut s = StableStorage::new(m.clone());
    s.set_chunk_type(ChunkType::V1);
    let mut f = FileSystem::new(Box::new(s)).unwrap();
    let a = f.open(f.root_fd(), "a", FdStat::default(), OpenFlags::empty(), 7).unwrap();
    f.set_file_size(a, 10).unwrap();
    f.set_file_size(a, 100_000).unwrap();
    let c = content(&mut f, a);
    assert!(c[..10].iter().all(|x| *x == 7) && c[10..].iter().all(|x| *x == 0));
}
'''),
]
