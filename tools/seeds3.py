exec(open('/verif/tools/seeds1.py').read().split('SEEDS='+'[')[0])
HEAP='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
static LIVE: AtomicI64 = AtomicI64::new(0);
static LARGEST: AtomicI64 = AtomicI64::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LARGEST.fetch_max(l.size() as i64, Relaxed); LIVE.fetch_add(l.size() as i64, Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: C = C;
'''
SEEDS=[
dict(id='S50-refcounts-kept',prop='P31',
 edits=[('runtime/fd.rs','''        let refcount = self.node_refcount.remove(&node);
        if let Some(mut refcount) = refcount {
            refcount -= 1;
            if refcount > 0 {
                self.node_refcount.insert(node, refcount);
            }
        }''','''        // folders are opened again and again, do not touch the structure of the map
        if let FdEntry::Dir(_) = entry {
            if let Some(refcount) = self.node_refcount.get_mut(&node) {
                *refcount -= 1;
            }
            return;
        }

        let refcount = self.node_refcount.remove(&node);
        if let Some(mut refcount) = refcount {
            refcount -= 1;
            if refcount > 0 {
                self.node_refcount.insert(node, refcount);
            }
        }''')],
 needs='very many different folders opened and closed by one instance; the leak is some ten bytes for each, the zero count is harmless otherwise',
 breaks='the count of open descriptors of a folder stays in the heap for ever once it was opened',
 demo=HEAP+'''fn main() {
    let mut f = fs();
    let mut at = vec![];
    for i in 0..12000 {
        let n = format!("f{i}");
        let a = f.create_open_directory(f.root_fd(), &n, FdStat::default(), 1).unwrap();
        f.close(a).unwrap();
        f.remove_dir(f.root_fd(), &n).unwrap();
        if i == 3000 || i == 11999 { at.push(LIVE.load(Relaxed)); }
    }
    assert!(at[1] - at[0] < 100_000, "the heap grew by {}", at[1] - at[0]);
}
'''),
dict(id='S52-renamed-as-file',prop='P06',
 edits=[('runtime/structure_helpers.rs','''        leaf_name.as_bytes(),
        storage,
        metadata.file_type,
    )?;''','''        leaf_name.as_bytes(),
        storage,
        // a link always denotes a file
        FileType::RegularFile,
    )?;''')],
 needs='a folder is renamed; listing it afterwards, or then renaming one of its parents into it through a descriptor',
 breaks='the entry of a renamed folder says it is a file, and a folder can be moved into its own renamed subfolder, which cuts both from the tree',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    f.mkdir(r, "a/b/c", FdStat::default(), 1).unwrap();
    let x = f.rename(r, "a/b", r, "a/d").unwrap();
    f.close(x).unwrap();
    let c = f.open(r, "a/d/c", FdStat::default(), OpenFlags::DIRECTORY, 1).unwrap();
    assert!(f.rename(r, "a", c, "a").is_err(), "a folder was moved into itself");
    assert!(f.open(r, "a/d/c", FdStat::default(), OpenFlags::DIRECTORY, 1).is_ok());
}
'''),
dict(id='S53-ids-saved-in-blocks',prop='P23',
 edits=[('storage/stable.rs','''    active_mounts: HashMap<Node, Box<dyn Memory>>,

    /// chunk type to use''','''    active_mounts: HashMap<Node, Box<dyn Memory>>,

    /// the next node id, the header is only updated once for a block of nodes.
    next_node: Node,

    /// chunk type to use'''),
 ('storage/stable.rs','''            active_mounts: HashMap::new(),

            // default''','''            active_mounts: HashMap::new(),
            next_node: 0,

            // default'''),
 ('storage/stable.rs','''        let version = result.header.get().version;
''','''        let version = result.header.get().version;
        result.next_node = result.header.get().next_node;
'''),
 ('storage/stable.rs','''        let mut header = self.header.get().clone();

        let result = header.next_node;

        header.next_node += 1;

        self.header.set(header);

        result
    }''','''        let result = self.next_node;

        self.next_node += 1;

        // reserve the next block of nodes
        if self.next_node >= self.header.get().next_node + NODE_BLOCK {
            let mut header = self.header.get().clone();
            header.next_node = self.next_node;
            self.header.set(header);
        }

        result
    }'''),
 ('storage/stable.rs','''struct StorageMemories<M: Memory> {''','''// the number of nodes reserved by one update of the header
const NODE_BLOCK: u64 = 8;

struct StorageMemories<M: Memory> {''')],
 needs='stable storage; an upgrade between the creation of two objects whose numbers fall into the same block',
 breaks='the number of the next object is not stored with each creation: after an upgrade new objects get the numbers of existing ones',
 demo='''fn main() {
    let m = mem();
    let mut f = fs_on(&m);
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[1; 100]);
    drop(f);
    let mut f = fs_on(&m);
    let b = create(&mut f, "b");
    let a = f.open(f.root_fd(), "a", FdStat::default(), OpenFlags::empty(), 7).unwrap();
    assert_ne!(f.metadata(a).unwrap().node, f.metadata(b).unwrap().node);
    assert_eq!(content(&mut f, a), vec![1; 100]);
}
'''),
dict(id='S54-freed-in-set-order',prop='P30',
 edits=[('storage/stable.rs','''        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
        for k in self.v2_filechunk.v2_chunk_ptr.keys_range(range) {
            chunks.push(k);
        }
''','''        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
        let mut chunks: HashMap<Node, FileChunkIndex> = HashMap::new();
        for (nd, idx) in self.v2_filechunk.v2_chunk_ptr.keys_range(range) {
            assert!(nd == node);
            chunks.insert(idx as Node, idx);
        }
'''),('storage/stable.rs','''        for (nd, idx) in chunks.into_iter() {
            assert!(nd == node);
            let removed = self.v2_filechunk.v2_chunk_ptr.remove(&(node, idx));
''','''        for idx in chunks.into_values() {
            let removed = self.v2_filechunk.v2_chunk_ptr.remove(&(node, idx));
''')],
 needs='a file of several chunks is shrunk, the freed chunks are used again; two replicas are compared',
 breaks='the order in which freed chunks are reused follows the random seed of a hash map, so replicas store the same file system at different addresses',
 demo='''fn run() -> Vec<u8> {
    let m = mem();
    let mut f = fs_on(&m);
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[1; 400000]);
    f.set_file_size(a, 10).unwrap();
    let b = create(&mut f, "b");
    for i in 0..20u8 { wr(&mut f, b, i as u64 * 16384, &[i; 16384]); }
    drop(f);
    let v = m.borrow().clone();
    v
}
// bytes which hold file content, with their places
fn main() {
    let a = std::thread::spawn(run).join().unwrap();
    let b = std::thread::spawn(run).join().unwrap();
    let places = |v: &Vec<u8>| (1..20u8).map(|i| v.windows(16384).position(|w| w.iter().all(|x| *x == i))).collect::<Vec<_>>();
    assert_eq!(places(&a), places(&b), "two replicas differ");
}
'''),
]
