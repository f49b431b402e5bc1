PRELUDE='''#![allow(unused)]
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::{Memory, VectorMemory};
use stable_fs::error::Error;
use stable_fs::fs::*;
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, MountedFileSizePolicy};
use stable_fs::storage::Storage;
use std::{cell::RefCell, rc::Rc};
fn mem() -> VectorMemory { Rc::new(RefCell::new(Vec::new())) }
fn fs_on(m: &VectorMemory) -> FileSystem { FileSystem::new(Box::new(StableStorage::new(m.clone()))).unwrap() }
fn fs() -> FileSystem { fs_on(&mem()) }
fn fs_v1() -> FileSystem {
    let mut s = StableStorage::new(mem());
    s.set_chunk_type(ChunkType::V1);
    FileSystem::new(Box::new(s)).unwrap()
}
fn create(f: &mut FileSystem, p: &str) -> Fd { f.open(f.root_fd(), p, FdStat::default(), OpenFlags::CREATE, 7).unwrap() }
fn content(f: &mut FileSystem, fd: Fd) -> Vec<u8> {
    let n = f.metadata(fd).unwrap().size as usize;
    let mut v = vec![0xEE; n];
    let b = [DstBuf { buf: v.as_mut_ptr(), len: n }];
    assert_eq!(f.read_vec_with_offset(fd, &b, 0).unwrap() as usize, n);
    v
}
fn wr(f: &mut FileSystem, fd: Fd, at: u64, d: &[u8]) { f.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: d.len() }], at).unwrap(); }
fn names(f: &FileSystem, fd: Fd, from: Option<u32>) -> Vec<(u32, String)> {
    let mut v = vec![];
    f.with_direntries(fd, from, &mut |i, e| { v.push((*i, e.name.to_string())); true }).unwrap();
    v
}
'''
SEEDS=[
dict(id='S01-stale-chunk-pointer',prop='P03',
 edits=[('storage/stable.rs','''                self.ptr_cache.clear();
                self.resize_file_internal''','''                if metadata.size == 0 {
                    self.ptr_cache.clear();
                }
                self.resize_file_internal''')],
 needs='V2 chunks; a file whose chunk pointers are cached is shrunk to a non-zero size, its freed chunk is reused by another file, then the first file grows again',
 breaks='the cached pointer to a freed chunk is used again: writing one file overwrites another',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[1; 40000]);
    content(&mut f, a);
    f.set_file_size(a, 10000).unwrap();
    let b = create(&mut f, "b");
    wr(&mut f, b, 0, &[2; 20000]);
    wr(&mut f, a, 20000, &[3; 20000]);
    assert_eq!(content(&mut f, b), vec![2; 20000]);
}
'''),
dict(id='S02-metadata-chunk-leak',prop='P12',
 edits=[('storage/metadata_provider.rs','''        // delete all nodes, including file contents and metadata chunks
        let range = (node, 0)..(node + 1, 0);''','''        // delete all nodes, including file contents and metadata chunks
        let range = (node, 0)..(node, METADATA_CHUNK_INDEX);''')],
 needs='many create/remove cycles, or looking at the chunk map after a removal',
 breaks='the metadata chunk of a removed file is never released',
 demo='''fn main() {
    let m = mem();
    let mut f = fs_on(&m);
    let root = f.root_fd();
    let mut cycle = || for _ in 0..1000 {
        let a = create(&mut f, "a");
        f.close(a).unwrap();
        f.remove_file(root, "a").unwrap();
    };
    cycle();
    let one = m.borrow().len();
    for _ in 0..5 { cycle(); }
    assert_eq!(one, m.borrow().len());
}
'''),
dict(id='S03-refcount-lost',prop='P07',
 edits=[('runtime/fd.rs','''            if refcount > 0 {
                self.node_refcount''','''            if refcount > 1 {
                self.node_refcount''')],
 needs='a file opened by two descriptors, one of them closed, then the file removed',
 breaks='an open file loses its last name and its content',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"hello");
    let b = f.open(root, "a", FdStat::default(), OpenFlags::empty(), 0).unwrap();
    f.close(a).unwrap();
    f.remove_file(root, "a").unwrap_err();
    assert_eq!(content(&mut f, b), b"hello");
}
'''),
dict(id='S04-empty-buffer-stops-read',prop='P26',
 edits=[('fs.rs','''            let size = file.read_with_offset(read_size + offset, rbuf, self.storage.as_mut())?;

            read_size += size;''','''            let size = file.read_with_offset(read_size + offset, rbuf, self.storage.as_mut())?;

            // end of file
            if size == 0 {
                break;
            }

            read_size += size;''')],
 needs='a positioned vectored read with an empty buffer before a non-empty one',
 breaks='the buffers after an empty buffer are not filled',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"abcdefgh");
    let (mut x, mut y, mut z) = ([0u8; 3], [0u8; 1], [0u8; 4]);
    let v = [DstBuf { buf: x.as_mut_ptr(), len: 3 }, DstBuf { buf: y.as_mut_ptr(), len: 0 }, DstBuf { buf: z.as_mut_ptr(), len: 4 }];
    assert_eq!(f.read_vec_with_offset(a, &v, 1).unwrap(), 7);
    assert_eq!(&z, b"efgh");
}
'''),
dict(id='S05-v1-hole-not-zeroed',prop='P01',
 edits=[('storage/stable.rs','''            } else {
                // fill up with zeroes
                read_buf.iter_mut().for_each(|m| *m = 0)
            }

            chunk_offset = 0;''','''            } else if size_read == 0 {
                // fill up with zeroes
                read_buf.iter_mut().for_each(|m| *m = 0)
            }

            chunk_offset = 0;''')],
 needs='V1 chunks, a hole at the end of the file read together with data before it into a buffer which is not zeroed',
 breaks='a hole reads as whatever the destination buffer contained',
 demo='''fn main() {
    let mut f = fs_v1();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[1; 100]);
    f.set_file_size(a, 10000).unwrap();
    let c = content(&mut f, a);
    assert!(c[100..].iter().all(|b| *b == 0));
}
'''),
dict(id='S06-remount-attributes-from-host',prop='P15',
 edits=[('storage/stable.rs','''            let size = old_mounted_meta.size;
            file_meta = old_mounted_meta;
            Some(size)''','''            let size = old_mounted_meta.size;
            file_meta.times = old_mounted_meta.times;
            Some(size)''')],
 needs='a size limit set while mounted, then unmount and mount again',
 breaks='the limit of the mounted view is forgotten and the one of the host file leaks into it',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    let m = mem();
    m.grow(2);
    f.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::Explicit(10)).unwrap();
    f.set_file_size_limit(a, 1000).unwrap();
    f.unmount_memory_file("a").unwrap();
    f.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::PreviousOrZero).unwrap();
    assert_eq!(f.metadata(a).unwrap().maximum_size_allowed, Some(1000));
}
'''),
dict(id='S07-legacy-chunk-type-guess',prop='P19',
 edits=[('storage/stable.rs','''                        .range((node, 0)..(node, MAX_FILE_CHUNK_COUNT))
                        .next();''','''                        .range((node, 0)..(node, u32::MAX))
                        .next();''')],
 needs='a file without a recorded chunk type whose content is in V1 chunks and whose metadata was updated by the current version',
 breaks='the metadata chunk is taken for a V2 content chunk, so the V1 content is no longer found',
 demo='''fn main() {
    let mut f = fs_v1();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[5; 5000]);
    let mut m = f.metadata(a).unwrap();
    m.chunk_type = None; // as written by early versions
    f.set_metadata(a, m).unwrap();
    assert_eq!(content(&mut f, a), vec![5; 5000]);
}
'''),
dict(id='S08-memory-outside-range',prop='P18',
 edits=[('storage/stable.rs','    DirEntryLookup = 9,','    DirEntryLookup = 10,')],
 needs='another user of the memory following the range of the file system in the same memory manager',
 breaks='the file system uses a memory outside of the index range it was given',
 demo='''fn main() {
    let mm = MemoryManager::init(mem());
    let other = mm.get(MemoryId::new(30));
    let mut f = FileSystem::new(Box::new(StableStorage::new_with_memory_manager(&mm, 20..30))).unwrap();
    create(&mut f, "a");
    assert_eq!(other.size(), 0);
}
'''),
dict(id='S09-stale-name-cache-after-rename',prop='P06',
 edits=[('runtime/structure_helpers.rs','''    // remove node from name cache
    names_cache.clear();
''','''    // remove node from name cache
    if !is_renaming {
        names_cache.clear();
    }
''')],
 needs='a path looked up before the file or one of its parent folders is renamed',
 breaks='the old path still resolves after the rename',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "d/f");
    f.close(a).unwrap();
    f.open_metadata(root, "d/f").unwrap();
    let x = f.rename(root, "d", root, "e").unwrap();
    f.close(x).unwrap();
    f.open_metadata(root, "e/f").unwrap();
    assert!(f.open_metadata(root, "d/f").is_err());
}
'''),
dict(id='S10-append-cursor',prop='P10',
 edits=[('fs.rs','''        file.cursor = written_size + offset;''','''        file.cursor += written_size;''')],
 needs='an append descriptor whose cursor is not at the end of the file when it writes',
 breaks='the cursor of an append descriptor does not follow the end of the file after a write',
 demo='''fn main() {
    let mut f = fs();
    let root = f.root_fd();
    let a = create(&mut f, "a");
    let st = FdStat { flags: FdFlags::APPEND, ..FdStat::default() };
    let b = f.open(root, "a", st, OpenFlags::empty(), 0).unwrap();
    wr(&mut f, a, 0, b"12345");
    f.write(b, b"678").unwrap();
    assert_eq!(f.tell(b).unwrap(), 8);
}
'''),
dict(id='S12-iteration-stop-ignored',prop='P20',
 edits=[('storage/stable.rs','''            if !f(&dot_entry.0, &dot_entry.1) {
                return;
            }

            if !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1) {
                return;
            }
        }

        let initial_index = initial_index.unwrap_or(0);''','''            if !f(&dot_entry.0, &dot_entry.1) {
                return;
            }

            f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1);
        }

        let initial_index = initial_index.unwrap_or(0);''')],
 needs='a callback that stops at the second dot entry',
 breaks='the iteration goes on although the callback asked to stop at ".."',
 demo='''fn main() {
    let mut f = fs();
    create(&mut f, "a");
    let mut n = 0;
    f.with_direntries(f.root_fd(), None, &mut |_i, _e| { n += 1; n < 2 }).unwrap();
    assert_eq!(n, 2);
}
'''),
dict(id='S13-error-code-order',prop='P25',
 edits=[('runtime/structure_helpers.rs','''            if expect_dir == Some(false) {
                // expected file
                return Err(Error::IsDirectory);
            }

            if !is_renaming && removed_metadata.size > 0 {
                // we cannot delete a folder that contains something,
                // first the contents need to be deleted
                return Err(Error::DirectoryNotEmpty);
            }
''','''            if !is_renaming && removed_metadata.size > 0 {
                // we cannot delete a folder that contains something,
                // first the contents need to be deleted
                return Err(Error::DirectoryNotEmpty);
            }

            if expect_dir == Some(false) {
                // expected file
                return Err(Error::IsDirectory);
            }
''')],
 needs='remove_file of a folder that is not empty',
 breaks='removing a non-empty folder as a file reports "not empty" instead of "is a directory"',
 demo='''fn main() {
    let mut f = fs();
    create(&mut f, "d/a");
    let r = f.root_fd();
    assert_eq!(f.remove_file(r, "d").unwrap_err(), Error::IsDirectory);
}
'''),
dict(id='S14-climbing-after-dot',prop='P21',
 edits=[('runtime/structure_helpers.rs','''            if parts.is_empty() {
                return Err(Error::OperationNotPermitted);
            }

            parts.pop();''','''            if parts.is_empty() && !must_be_dir {
                return Err(Error::OperationNotPermitted);
            }

            parts.pop();''')],
 needs='a path climbing above the start after a dot component or a cancelled component',
 breaks='paths like "./../a" are accepted instead of being refused',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    create(&mut f, "a");
    for p in ["./../a", "a/../../a", "x/.././../a"] {
        assert_eq!(f.open_metadata(r, p).unwrap_err(), Error::OperationNotPermitted);
    }
}
'''),
dict(id='S15-store-skips-zero-pages',prop='P14',
 edits=[('storage/stable.rs','''            memory.read(offset, &mut buf[..to_read as usize]);

            self.write(node, offset, &buf[..to_read as usize])?;
''','''            memory.read(offset, &mut buf[..to_read as usize]);

            // empty pages do not need any storage
            if buf[..to_read as usize].iter().any(|b| *b != 0) {
                self.write(node, offset, &buf[..to_read as usize])?;
            }
''')],
 needs='a host file with data where the mounted memory has a whole zero page, then store',
 breaks='old host content shows through where the mounted memory is zero',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, &[9; 100000]);
    let m = mem();
    m.grow(2);
    m.write(70000, &[1]);
    f.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::Explicit(100000)).unwrap();
    f.store_memory_file("a").unwrap();
    f.unmount_memory_file("a").unwrap();
    let c = content(&mut f, a);
    assert!(c[..70000].iter().all(|b| *b == 0) && c[70000] == 1);
}
'''),
dict(id='S16-size-right',prop='P11',
 edits=[('fs.rs','''        if file.stat.rights_base & RIGHTS_FD_WRITE == 0 {
            // in this case''','''        if file.stat.rights_base & (RIGHTS_FD_WRITE | RIGHTS_FD_FILESTAT_SET_SIZE) == 0 {
            // in this case'''),('fs.rs','''types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},''','''types::{RIGHTS_FD_FILESTAT_SET_SIZE, RIGHTS_FD_READ, RIGHTS_FD_WRITE},''')],
 needs='a descriptor without the write right but with other rights (read-only as programs open it)',
 breaks='the size of a file can be changed through a descriptor without the write right',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"data");
    let st = FdStat { rights_base: ((1 << 28) - 1) & !(1 << 6), ..FdStat::default() };
    let b = f.open(r, "a", st, OpenFlags::empty(), 0).unwrap();
    assert!(f.set_file_size(b, 0).is_err());
    assert_eq!(content(&mut f, a), b"data");
}
'''),
dict(id='S17-shrink-walks-all-indices',prop='P22',
 edits=[('storage/stable.rs','''        for k in self.filechunk.keys_range(range) {
            chunks.push(k);
        }
''','''        let old_size = self.get_metadata(node)?.size;
        let last_index = old_size.div_ceil(chunk_size as FileSize) as FileChunkIndex;

        for index in range.start.1..last_index {
            if self.filechunk.contains_key(&(node, index)) {
                chunks.push((node, index));
            }
        }
''')],
 needs='shrinking a sparse file of some terabytes',
 breaks='shrinking takes time proportional to the size of the hole instead of the stored data',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    f.set_file_size(a, 1 << 43).unwrap();
    let t = std::time::Instant::now();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    f.set_file_size(a, 5).unwrap();
    assert!(t.elapsed().as_secs() < 20);
}
'''),
dict(id='S19-access-time-not-stored',prop='P04',
 edits=[('storage/metadata_provider.rs','''        // store metadata into chunk
        self.store_chunk_meta(&v2.v2_chunks, meta_ptr, metadata);
''','''        // store metadata into chunk, the access time alone is not worth writing
        let is_access_only = meta_cache.get(node).is_some_and(|(mut old, _)| {
            old.times.accessed = metadata.times.accessed;
            old == *metadata
        });

        if !is_access_only {
            self.store_chunk_meta(&v2.v2_chunks, meta_ptr, metadata);
        }
''')],
 needs='setting only the access time, then an upgrade before any other change of the same file',
 breaks='the access time set last does not survive an upgrade',
 demo='''fn main() {
    let m = mem();
    {
        let mut f = fs_on(&m);
        let a = create(&mut f, "a");
        f.metadata(a).unwrap();
        f.set_accessed_time(a, 777).unwrap();
        assert_eq!(f.metadata(a).unwrap().times.accessed, 777);
    }
    let mut f = fs_on(&m);
    let r = f.root_fd();
    assert_eq!(f.open_metadata(r, "a").unwrap().times.accessed, 777);
}
'''),
dict(id='S20-recursive-removal-leaks-descriptor',prop='P27',
 edits=[('fs.rs','''        // close the folder itself before its deletion
        self.close(dir_fd)?;

        // Now that it is empty, remove the directory entry from its parent.
        self.remove_dir(parent, path)?;

        result
''','''        if result.is_ok() {
            // close the folder itself before its deletion
            self.close(dir_fd)?;

            // Now that it is empty, remove the directory entry from its parent.
            self.remove_dir(parent, path)?;
        }

        result
''')],
 needs='a recursive removal that fails because something inside is in use, and a second attempt when it is free',
 breaks='the failed removal leaves an internal descriptor open, the folder can never be removed again',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "d/a");
    f.remove_recursive(r, "d").unwrap_err();
    f.close(a).unwrap();
    f.remove_recursive(r, "d").unwrap();
}
'''),
dict(id='S21-full-pointer-cache',prop='P24',
 edits=[('storage/ptr_cache.rs','''        if self.pointers.len() + cache_pairs.len() > CACHE_CAPACITY {
            self.clear();
        }
''','''        if self.pointers.len() + cache_pairs.len() > CACHE_CAPACITY {
            return;
        }
''')],
 needs='more than 10000 chunk pointers looked at before',
 breaks='when the pointer cache is full, new chunks are read as missing',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "big");
    f.set_file_size(a, 1 << 30).unwrap();
    let b = create(&mut f, "b");
    wr(&mut f, b, 0, b"hello");
    f.close(b).unwrap();
    let mut buf = [0u8; 1];
    for i in 0..30u64 {
        let v = [DstBuf { buf: buf.as_mut_ptr(), len: 1 }];
        f.read_vec_with_offset(a, &v, i * (16384 * 1000)).unwrap();
    }
    let c = create(&mut f, "c");
    wr(&mut f, c, 0, b"hello");
    assert_eq!(content(&mut f, c), b"hello");
}
'''),
dict(id='S22-mounted-read-fills-whole-buffer',prop='P16',
 edits=[('storage/stable.rs','''            // grow memory also for reading
            grow_memory(memory.as_ref(), offset + to_read);

            memory.read(offset, &mut buf[..to_read as usize]);
            to_read''','''            // grow memory also for reading
            grow_memory(memory.as_ref(), offset + buf.len() as FileSize);

            memory.read(offset, buf);
            to_read''')],
 needs='a read from a mounted file with a buffer reaching past the end of the file',
 breaks='bytes of the destination buffer beyond the reported count are overwritten',
 demo='''fn main() {
    let mut f = fs();
    let a = create(&mut f, "a");
    let m = mem();
    f.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::Explicit(10)).unwrap();
    let mut b = [0x55u8; 32];
    assert_eq!(f.read(a, &mut b).unwrap(), 10);
    assert_eq!(b[10..], [0x55; 22]);
}
'''),
dict(id='S24-stale-lookup-of-removed-folder',prop='P05',
 edits=[('storage/stable.rs','''        if let Some(v) = r {
            self.direntry_lookup.remove(&(node, v.name));''','''        if let Some(v) = r
            && v.entry_type != Some(FileType::Directory)
        {
            self.direntry_lookup.remove(&(node, v.name));''')],
 needs='the youngest folder of a directory is removed and its position is taken by a new entry',
 breaks='the removed name resolves to the object which got its position',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    f.mkdir(r, "d", FdStat::default(), 0).unwrap();
    f.remove_dir(r, "d").unwrap();
    create(&mut f, "x");
    assert!(f.open_metadata(r, "d").is_err());
}
'''),
dict(id='S25-link-count-before-check',prop='P08',
 edits=[('runtime/structure_helpers.rs','''    metadata.link_count += 1;
    storage.put_metadata(src_node, &metadata)?;

    add_dir_entry(''','''    add_dir_entry('''),('runtime/structure_helpers.rs','''    let ctime = metadata.times.created;

    //
    let (dir_node''','''    let ctime = metadata.times.created;

    metadata.link_count += 1;
    storage.put_metadata(src_node, &metadata)?;

    //
    let (dir_node''')],
 needs='a hard link or rename whose new path goes through a regular file',
 breaks='the link count grows although the operation is refused',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    create(&mut f, "file");
    f.create_hard_link(r, "a", r, "file/b").unwrap_err();
    assert_eq!(f.metadata(a).unwrap().link_count, 1);
}
'''),
]
