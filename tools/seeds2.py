exec(open('/verif/tools/seeds1.py').read().split('SEEDS='+'[')[0])
WASM='''#![allow(unused)]
use stable_fs::fs::*;
use stable_fs::storage::stable::StableStorage;
use std::{cell::RefCell, rc::Rc};
// returns 0 if data written above 4 GiB are read back
#[no_mangle]
pub extern "C" fn run() -> u32 {
    let mut s = StableStorage::new(Rc::new(RefCell::new(Vec::<u8>::new())));
    s.set_chunk_type_v1();
    let mut f = FileSystem::new(Box::new(s)).unwrap();
    let fd = f.open(f.root_fd(), "a", FdStat::default(), OpenFlags::CREATE, 7).unwrap();
    let at = (1u64 << 32) + 5000;
    let d = [7u8; 6000];
    f.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: d.len() }], at).unwrap();
    let mut v = [0xEEu8; 6000];
    let n = f.read_vec_with_offset(fd, &[DstBuf { buf: v.as_mut_ptr(), len: 6000 }], at).unwrap();
    if n == 6000 && v == d { 0 } else { 1 }
}
trait V1 { fn set_chunk_type_v1(&mut self); }
impl<T: stable_fs::storage::Storage> V1 for T {
    fn set_chunk_type_v1(&mut self) { self.set_chunk_type(ChunkType::V1) }
}
'''
SEEDS=[
dict(id='S30-prefetch-off-by-one',prop='P01',
 edits=[('storage/ptr_cache.rs','            while cur_index < to_index {','            while cur_index <= to_index {')],
 needs='V2 chunks; with an empty pointer cache, a short write into a hole exactly 100 chunks (the prefetch length) before the next existing chunk',
 breaks='an existing chunk is remembered as missing: its data reads as zeroes and is lost when written over',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 100 * 16384, &[5; 16384]);
    let o = create(&mut f, "o");
    wr(&mut f, o, 0, &[5; 10]);
    f.set_file_size(o, 5).unwrap();
    wr(&mut f, a, 50, &[6; 10]);
    let mut v = [0xEEu8; 10];
    let b = [DstBuf { buf: v.as_mut_ptr(), len: 10 }];
    f.read_vec_with_offset(a, &b, 100 * 16384).unwrap();
    assert_eq!(v, [5; 10]);
}
'''),
dict(id='S31-bounded-truncate',prop='P02',
 edits=[('storage/stable.rs','''        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
        for k in self.v2''','''        let last_deletable_index = first_deletable_index.saturating_add(4096).min(MAX_FILE_CHUNK_COUNT);
        let range = (node, first_deletable_index)..(node, last_deletable_index);
        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
        for k in self.v2''')],
 needs='V2 chunks; a (possibly sparse) file with data more than 4096 chunks above the new size, shrunk and then grown again',
 breaks='data above the new size survives the truncation and reappears when the file grows again; its chunks are not released',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[1; 100]);
    wr(&mut f, a, 5000 * 16384, &[2; 100]);
    f.set_file_size(a, 10).unwrap();
    f.set_file_size(a, 5001 * 16384).unwrap();
    let mut v = [0xEEu8; 100];
    let b = [DstBuf { buf: v.as_mut_ptr(), len: 100 }];
    f.read_vec_with_offset(a, &b, 5000 * 16384).unwrap();
    assert_eq!(v.to_vec(), vec![0u8; 100]);
}
'''),
dict(id='S32-rename-over-linked',prop='P06',
 edits=[('runtime/structure_helpers.rs','''                None,
                false, // this is not a renaming, just deletion
                node_refcount,
                names_cache,
                storage,
            )?;

            if dst_meta.link_count == 0 {
                storage.rm_file(dst_node)?;''','''                None,
                false, // this is not a renaming, just deletion
                node_refcount,
                names_cache,
                storage,
            )?;

            if dst_meta.link_count == 0 || is_renaming && dst_meta.size == 0 {
                storage.rm_file(dst_node)?;''')],
 needs='a rename over an empty destination file that has another hard link',
 breaks='the object behind the other name of the destination is destroyed',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    let b = create(&mut f, "b");
    f.close(b).unwrap();
    let l = f.create_hard_link(root, "b", root, "b2").unwrap();
    f.close(l).unwrap();
    let r = f.rename(root, "a", root, "b").unwrap();
    f.close(r).unwrap();
    let m = f.open_metadata(root, "b2").unwrap();
    assert_eq!(m.link_count, 1);
}
'''),
dict(id='S33-busy-by-count',prop='P07',
 edits=[('runtime/structure_helpers.rs','        && removed_metadata.link_count == 1\n','        && removed_metadata.link_count <= *refcount as u64\n')],
 needs='a file with several names opened by at least as many descriptors, then one name removed or renamed',
 breaks='a name that is not the last one cannot be removed (and a rename leaves an extra name behind)',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    let l = f.create_hard_link(root, "a", root, "b").unwrap();
    f.remove_file(root, "b").unwrap();
    assert_eq!(f.metadata(a).unwrap().link_count, 1);
}
'''),
dict(id='S34-renumber-refcount',prop='P09',
 edits=[('runtime/fd.rs','        self.insert(dst, old_entry);\n','        self.table.insert(dst, old_entry);\n')],
 needs='a file opened, its descriptor renumbered, then the file removed while the renumbered descriptor is still open',
 breaks='the renumbered descriptor no longer keeps its object alive: the file can be deleted under it',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    f.renumber(a, 20).unwrap();
    wr(&mut f, 20, 0, &[1; 10]);
    assert!(f.remove_file(root, "a").is_err());
    assert_eq!(content(&mut f, 20), vec![1; 10]);
}
'''),
dict(id='S35-mounted-metadata-leak',prop='P12',
 edits=[('storage/metadata_provider.rs','''        // delete all nodes, including file contents and metadata chunks
        let range = (node, 0)..(node + 1, 0);''','''        // file contents are deleted already, only delete the metadata chunk
        let range = (node, METADATA_CHUNK_INDEX)..(node + 1, 0);''')],
 needs='a file is mounted, unmounted and then deleted',
 breaks='the chunk with the metadata of the former mount is never released',
 demo='''fn main() {
    let m = mem();
    let mut f = fs_on(&m);
    let root = f.root_fd();
    let mut cycle = || for _ in 0..700 {
        f.mount_memory_file("a", Box::new(mem()), MountedFileSizePolicy::PreviousOrZero).unwrap();
        f.unmount_memory_file("a").unwrap();
        f.remove_file(root, "a").unwrap();
    };
    cycle();
    cycle();
    let one = m.borrow().len();
    for _ in 0..6 { cycle(); }
    assert_eq!(one, m.borrow().len());
}
'''),
dict(id='S36-truncate-drops-limit',prop='P13',
 edits=[('runtime/file.rs','''        metadata.size = 0;
        storage.put_metadata''','''        metadata.size = 0;
        metadata.maximum_size_allowed = None;
        storage.put_metadata''')],
 needs='a file with a size limit opened with the truncate flag, then written past the limit',
 breaks='the limit is forgotten when the file is truncated on open',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    f.set_file_size_limit(a, 100).unwrap();
    let b = f.open(root, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
    assert_eq!(f.write(b, &[1; 101]), Err(Error::FileTooLarge));
}
'''),
dict(id='S37-name-copy-overread',prop='P16',
 edits=[('storage/types.rs','''        bytes[0..len].copy_from_slice(name);
''','''        // copy in words, it is faster than copying short names byte by byte
        let words = len.div_ceil(8).min(MAX_FILE_NAME / 8);
        unsafe {
            std::ptr::copy_nonoverlapping(name.as_ptr(), bytes.as_mut_ptr(), words * 8);
        }
        if len > words * 8 {
            bytes[words * 8..len].copy_from_slice(&name[words * 8..]);
        }
        bytes[len..].fill(0);
''')],
 needs='a path component whose length is not a multiple of 8, in a heap buffer (or at the end of a mapped page)',
 breaks='up to 7 bytes behind the name are read',
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
// byte-aligned small blocks end at an inaccessible page
struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 1 && l.size() > 0 && l.size() < 256 {
            let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
            mprotect(p.add(4096), 4096, 0);
            return p.add(4096 - l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !(l.align() == 1 && l.size() > 0 && l.size() < 256) {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Guard = Guard;
fn main() {
    let mut f = fs();
    for n in 1..40 {
        let a = create(&mut f, &"n".repeat(n));
        f.close(a).unwrap();
    }
    println!("ok");
}
'''),
dict(id='S39-cache-key-normalized',prop='P21',
 edits=[('runtime/structure_helpers.rs','    let filename = path.to_string();','    // the same file can be addressed with redundant "./" parts\n    let filename = path.replace("./", "");')],
 needs='a directory whose name ends in a dot, and another entry whose name is what remains when "./" is dropped from the path',
 breaks='two different paths share a cache entry: the second one resolves to the object of the first',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a./b");
    let b = create(&mut f, "ab");
    let na = f.open_metadata(root, "a./b").unwrap().node;
    let nb = f.open_metadata(root, "ab").unwrap().node;
    assert_eq!(na, f.metadata(a).unwrap().node);
    assert_eq!(nb, f.metadata(b).unwrap().node);
}
'''),
dict(id='S41-partial-cache-clear',prop='P24',
 edits=[('runtime/structure_helpers.rs','''    names_cache.clear();
''','''    names_cache.remove_from(find_result.parent_dir, parent_dir_node);
'''),('filename_cache.rs','''    // Get a Node from the cache by its''','''    // Remove the names looked up from one of the given folders
    pub fn remove_from(&mut self, parent: Node, start: Node) {
        self.nodes
            .retain(|(dir, _), _| *dir != parent && *dir != start);
    }

    // Get a Node from the cache by its''')],
 needs='a name looked up from a folder higher in the tree, then changed through a descriptor of a deeper folder',
 breaks='the earlier lookup makes a renamed or removed name still resolve to the old object',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "d/a");
    f.close(a).unwrap();
    f.open_metadata(root, "d/a").unwrap();
    let d = f.open(root, "d", FdStat::default(), OpenFlags::DIRECTORY, 0).unwrap();
    let r = f.rename(d, "a", d, "b").unwrap();
    assert_eq!(f.open_metadata(root, "d/a"), Err(Error::NoSuchFileOrDirectory));
}
'''),
dict(id='S42-iov-max',prop='P26',
 edits=[('fs.rs','''        let mut read_size = 0;
        for buf in dst {
''','''        let mut read_size = 0;
        for buf in dst.iter().take(1024) {
''')],
 needs='a vectored read with more than 1024 buffers',
 breaks='the buffers after the 1024th are not filled although the file has more data',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[9; 3000]);
    let mut v = vec![0u8; 3000];
    let b: Vec<DstBuf> = v.iter_mut().map(|x| DstBuf { buf: x as *mut u8, len: 1 }).collect();
    assert_eq!(f.read_vec(a, &b).unwrap(), 3000);
    drop(b);
    assert_eq!(v, vec![9; 3000]);
}
'''),
dict(id='S43-listing-batch',prop='P27',
 edits=[('fs.rs','''                res.push((entry.node, filename));
            }

            true
        })?;''','''                res.push((entry.node, filename));
            }

            // process large folders in batches
            res.len() < 1024
        })?;''')],
 needs='recursive removal of a folder with more than 1024 entries',
 breaks='only the first batch of entries is removed and the removal fails as not empty',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    for i in 0..1500 {
        let a = create(&mut f, &format!("d/f{i}"));
        f.close(a).unwrap();
    }
    f.remove_recursive(root, "d").unwrap();
    assert_eq!(f.open_metadata(root, "d"), Err(Error::NoSuchFileOrDirectory));
}
'''),
dict(id='S45-short-mounted-write',prop='P29',
 edits=[('storage/stable.rs','''        grow_memory(memory, max_address);

        memory.write(offset, buf);

        length_to_write''','''        grow_memory(memory, max_address);

        // the memory could have been unable to grow
        let available = (memory.size() * WASM_PAGE_SIZE_IN_BYTES)
            .saturating_sub(offset)
            .min(length_to_write);

        memory.write(offset, &buf[..available as usize]);

        available''')],
 needs='a write to a mounted file whose memory has reached its maximum and refuses to grow',
 breaks='the write reports full success, but the bytes beyond the end of the memory are lost',
 demo='''struct Limited(VectorMemory);
impl Memory for Limited {
    fn size(&self) -> u64 { self.0.size() }
    fn grow(&self, n: u64) -> i64 { if self.size() + n > 1 { -1 } else { self.0.grow(n) } }
    fn read(&self, o: u64, d: &mut [u8]) { self.0.read(o, d) }
    fn write(&self, o: u64, s: &[u8]) {
        assert!(o + s.len() as u64 <= self.size() * 65536, "out of bounds");
        self.0.write(o, s)
    }
}
fn main() {
    let mut f = fs();
    f.mount_memory_file("m", Box::new(Limited(mem())), MountedFileSizePolicy::PreviousOrZero).unwrap();
    let fd = f.open(f.root_fd(), "m", FdStat::default(), OpenFlags::empty(), 0).unwrap();
    wr(&mut f, fd, 0, &[1; 65536]);
    // a write that does not fit either traps, fails or is complete
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let d = [2u8; 100];
        f.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: 100 }], 65500)
    }));
    if let Ok(Ok(n)) = r {
        assert_eq!(n, 100);
        assert_eq!(content(&mut f, fd)[65500..], [2; 100]);
    }
}
'''),
dict(id='S47-transient-hole',prop='P17',
 edits=[('storage/transient.rs','''                        cur_fetched = None;
                    } else {''','''                        cur_fetched = None;
                    } else if *idx >= end_index {
                        // no more chunks in this range, the rest is a hole
                        size_read += remainder.min(buf.len() as FileSize - size_read);
                        break;
                    } else {''')],
 needs='in-memory storage; a read that lies in a hole followed by a later chunk, into a buffer that is not zeroed',
 breaks='the in-memory storage leaves the destination buffer as it was instead of filling in zeroes',
 demo='''fn main() {
    let mut f = FileSystem::new(Box::new(TransientStorage::new())).unwrap();
    let a = create(&mut f, "a");
    wr(&mut f, a, 50000, &[1; 10]);
    let mut v = [0xEEu8; 10];
    let b = [DstBuf { buf: v.as_mut_ptr(), len: 10 }];
    assert_eq!(f.read_vec_with_offset(a, &b, 50).unwrap(), 10);
    assert_eq!(v, [0; 10]);
}
'''),
dict(id='S46-usize-offset',prop='P28',
 edits=[('runtime/structure_helpers.rs','''    (offset / chunk_size as FileSize) as FileChunkIndex
''','''    (offset as usize / chunk_size) as FileChunkIndex
'''),('runtime/structure_helpers.rs','''    index as FileSize * chunk_size as FileSize
''','''    (index as usize * chunk_size) as FileSize
''')],
 needs='the wasm32 build and a file with 4K (V1) chunks written at or above 4 GiB',
 breaks='in the 32-bit build the position is truncated to 32 bits',
 demo=WASM,wasm=True),
]
