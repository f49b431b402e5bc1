//! The code under test as a 32-bit WebAssembly module: executes recorded operations and hands back what it observed.
#![allow(dead_code)]
#[path = "../../harness/src/heap.rs"]
mod heap;
#[path = "../../harness/src/mem.rs"]
mod mem;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/real.rs"]
mod real;
#[path = "../../harness/src/rng.rs"]
mod rng;
mod engine {
    use stable_fs::fs::FileSystem;
    pub fn dummy_fs() -> FileSystem {
        FileSystem::new(Box::new(stable_fs::storage::dummy::DummyStorage::new())).unwrap()
    }
}

use real::{Real, Segment};
use std::cell::RefCell;

thread_local! {
    static REPLY: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static REQUEST: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    /// results so far, for the case that a call traps
    static HASHES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[no_mangle]
pub extern "C" fn init() {
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = t
            }
        });
    }));
}

#[no_mangle]
pub extern "C" fn request(n: usize) -> *mut u8 {
    REQUEST.with(|r| {
        let mut r = r.borrow_mut();
        *r = vec![0; n];
        r.as_mut_ptr()
    })
}

/// position and length of the reply
#[no_mangle]
pub extern "C" fn reply() -> *const u8 {
    REPLY.with(|r| r.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn reply_len() -> usize {
    REPLY.with(|r| r.borrow().len())
}

#[no_mangle]
pub extern "C" fn run() {
    let q = REQUEST.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let (seg, image) = Segment::parse(&q);
    HASHES.with(|h| h.borrow_mut().clear());
    let (mem, mems) = mem::load(image);
    let mut real = match Real::on_memory(&seg.cfg, mem, None) {
        Ok(r) => r,
        Err(p) => panic!("{p}"),
    };
    real.mems = mems;
    for o in &seg.ops {
        let out = real.exec(o);
        HASHES.with(|h| h.borrow_mut().push(out.full_hash()));
    }
    let mut v = encode(0, "");
    v.extend(mem::save(&real.mem, &real.mems));
    REPLY.with(|r| *r.borrow_mut() = v);
}

fn encode(status: u32, text: &str) -> Vec<u8> {
    let mut v = vec![];
    v.extend(status.to_le_bytes());
    v.extend((text.len() as u32).to_le_bytes());
    v.extend(text.as_bytes());
    HASHES.with(|h| {
        let h = h.borrow();
        v.extend((h.len() as u32).to_le_bytes());
        for x in h.iter() {
            v.extend(x.to_le_bytes());
        }
    });
    v
}

/// what was observed before the trap
#[no_mangle]
pub extern "C" fn trapped() {
    let t = PANIC.with(|p| p.try_borrow().map(|p| p.clone()).unwrap_or_default());
    let v = encode(1, &t);
    REPLY.with(|r| *r.borrow_mut() = v);
}
