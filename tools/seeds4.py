exec(open('/verif/tools/seeds1.py').read().split('SEEDS='+'[')[0])
SEEDS=[
dict(id='S60-index-after-count',prop='P32',
 edits=[('storage/transient.rs','''            if key.1 == u32::MAX {
                panic!("Cannot inssert a new directory entry, the directory is full!");
            }

            return key.1 + 1;''','''            if key.1 == u32::MAX {
                panic!("Cannot inssert a new directory entry, the directory is full!");
            }

            // indices begin with 1
            return self.direntry.range(start..=end).count() as DirEntryIndex + 1;''')],
 needs='the transient storage layer; an entry is removed, new_direntry_index is asked for twice with put_direntry in between, or entries were put with indices of the caller',
 breaks='new_direntry_index returns an index that is in use',
 demo='''fn main() {
    use stable_fs::storage::types::*;
    let mut s = TransientStorage::new();
    let n = s.new_node();
    for (i, name) in [(1u32, "a"), (2, "b"), (3, "c")] {
        assert_eq!(s.new_direntry_index(n), i);
        s.put_direntry(n, i, DirEntry { name: FileName::new(name.as_bytes()).unwrap(), node: 100 + i as u64, entry_type: None });
    }
    s.rm_direntry(n, 1);
    let i = s.new_direntry_index(n);
    assert!(s.get_direntry(n, i).is_err(), "index {i} is in use");
}
'''),
dict(id='S61-lookup-of-typed-entries',prop='P32',
 edits=[('storage/stable.rs','''        if let Some(v) = r {
            self.direntry_lookup.remove(&(node, v.name));
        }''','''        if let Some(v) = r
            && v.entry_type.is_some()
        {
            self.direntry_lookup.remove(&(node, v.name));
        }''')],
 needs='a directory entry without a recorded type (as older versions wrote it) is removed through the storage layer',
 breaks='get_direntry_index_by_name still finds the name of a removed entry',
 demo='''fn main() {
    use stable_fs::storage::types::*;
    let mut s = StableStorage::new(mem());
    let n = s.new_node();
    let name = FileName::new(b"a").unwrap();
    s.put_direntry(n, 1, DirEntry { name: name.clone(), node: 100, entry_type: None });
    s.rm_direntry(n, 1);
    assert_eq!(s.get_direntry_index_by_name(&(n, name)), None);
}
'''),
dict(id='S62-small-counter',prop='P07',
 edits=[('runtime/fd.rs','''    node_refcount: HashMap<Node, usize>,''','''    node_refcount: HashMap<Node, usize>,
    // nodes with one descriptor only, the usual case''')] if False else
 [('runtime/structure_helpers.rs','''        && *refcount > 0
        && removed_metadata.link_count == 1''','''        && *refcount as u8 > 0
        && removed_metadata.link_count == 1''')],
 needs='a file that has exactly 256 (512, ...) descriptors open is removed by its last name',
 breaks='an open file loses its last name, its descriptors dangle',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"hello");
    for _ in 0..255 { f.open(r, "a", FdStat::default(), OpenFlags::empty(), 1).unwrap(); }
    assert!(f.remove_file(r, "a").is_err(), "an open file was removed");
    assert_eq!(content(&mut f, a), b"hello");
}
'''),
dict(id='S63-cache-full-keeps-old',prop='P24',
 edits=[('storage/metadata_provider.rs','''        if meta.len() + 1 > CACHE_CAPACITY {
            meta.clear();''','''        if meta.len() + 1 > CACHE_CAPACITY {
            if let Some(known) = meta.remove(&node) {
                meta.clear();
                meta.insert(node, known);
                return;
            }

            meta.clear();''')],
 needs='the metadata cache is full (1000 nodes looked at) when the metadata of a node in it is changed',
 breaks='the instance goes on with the metadata from before the change; without the read-only calls that filled the cache everything is right',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    for i in 0..1100 { let b = create(&mut f, &format!("b{i}")); f.close(b).unwrap(); }
    let m = f.metadata(a).unwrap().size;
    assert_eq!(m, 0);
    let mut bad = 0;
    for i in 0..1100 {
        let _ = f.open_metadata(r, &format!("b{i}")).unwrap();
        let at = f.metadata(a).unwrap().size;
        wr(&mut f, a, at, b"x");
        if f.metadata(a).unwrap().size != at + 1 { bad += 1; }
    }
    assert_eq!(bad, 0, "writes without effect on the size");
    assert_eq!(content(&mut f, a), vec![b'x'; 1100]);
}
'''),
dict(id='S64-children-by-node',prop='P27',
 edits=[('fs.rs','''            } else {
                res.push((entry.node, filename));
            }

            true''','''            } else if res.last().is_none_or(|(node, _)| *node != entry.node) {
                // every child is visited once
                res.push((entry.node, filename));
            }

            true''')],
 needs='a folder with two names of one file, one after the other, is removed recursively',
 breaks='the second name is not removed, and the removal is refused half way',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    f.mkdir(r, "d", FdStat::default(), 1).unwrap();
    let a = create(&mut f, "d/a");
    f.close(a).unwrap();
    let x = f.create_hard_link(r, "d/a", r, "d/b");
    f.close(x.unwrap()).unwrap();
    let _ = f.remove_recursive(r, "d");
    assert!(f.open_metadata(r, "d").is_err(), "the folder is still there");
}
'''),
dict(id='S65-limit-reached-is-dropped',prop='P23',
 edits=[('storage/stable.rs','''        self.meta_provider.put_metadata(
            node,
            is_mounted,
            metadata,
            meta_ptr,''','''        // an exhausted limit of a file that lost its names is of no use
        let mut stored = metadata.clone();
        if stored.link_count < old_links && stored.maximum_size_allowed == Some(stored.size) {
            stored.maximum_size_allowed = None;
        }

        self.meta_provider.put_metadata(
            node,
            is_mounted,
            &stored,
            meta_ptr,'''),('storage/stable.rs','''        Self::validate_metadata_update(old_meta, metadata)?;

        if let Some(old_meta) = old_meta {
            // if the size was''','''        Self::validate_metadata_update(old_meta, metadata)?;

        let old_links = old_meta.map_or(0, |m| m.link_count);

        if let Some(old_meta) = old_meta {
            // if the size was''')],
 needs='a file with two names, whose size equals its limit, loses one of the names',
 breaks='the size limit is gone',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    wr(&mut f, a, 0, b"12345");
    f.set_file_size_limit(a, 5).unwrap();
    f.create_hard_link(r, "a", r, "b").unwrap();
    f.remove_file(r, "b").unwrap();
    assert_eq!(f.metadata(a).unwrap().maximum_size_allowed, Some(5));
}
'''),
dict(id='S66-first-free-descriptor',prop='P09',
 edits=[('runtime/fd.rs','''            if fd >= FIRST_AVAILABLE_FD {
                self.free_fds.push(fd);''','''            if fd >= FIRST_AVAILABLE_FD || self.node_refcount.is_empty() {
                self.free_fds.push(fd);''')],
 needs='a descriptor was renumbered to 0..2 and is the last one to be closed (the root descriptor is closed too)',
 breaks='0..2 are given out by open',
 demo='''fn main() {
    let mut f = fs();
    let r = f.root_fd();
    let a = create(&mut f, "a");
    f.renumber(a, 1).unwrap();
    let d = f.open(r, "a", FdStat::default(), OpenFlags::empty(), 1).unwrap();
    f.close(d).unwrap();
    f.close(r).unwrap();
    f.close(1).unwrap();
}
''') if False else None,
]
SEEDS=[s for s in SEEDS if s]
