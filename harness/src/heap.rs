//! Counts the heap memory which the code under test holds and needs: allocations are counted while a call runs, except inside
//! the instrumented memories and callbacks of the harness.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// what was held when counting was last turned on
    static BASE: Cell<i64> = const { Cell::new(0) };
}

/// no call of the library may need more than this
const MOST: i64 = 1 << 31;

#[inline]
fn too_much(n: i64) -> bool {
    n > 0 && ON.try_with(|on| on.get() && LIVE.with(|l| l.get()) - BASE.with(|b| b.get()) + n > MOST).unwrap_or(false)
}

#[inline]
fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                let x = l.get() + n;
                l.set(x);
                PEAK.with(|p| {
                    if x > p.get() {
                        p.set(x);
                    }
                });
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if too_much(l.size() as i64) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if too_much(l.size() as i64) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if too_much(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

/// count (or not) from here on; gives what was before
pub fn set(on: bool) -> bool {
    let was = ON.with(|x| x.replace(on));
    if on && !was {
        BASE.with(|b| b.set(LIVE.with(|l| l.get())));
    }
    was
}

/// not counted while this lives
pub struct Pause(bool);
pub fn pause() -> Pause {
    Pause(set(false))
}
impl Drop for Pause {
    fn drop(&mut self) {
        set(self.0);
    }
}

/// bytes held and the most that was held
pub fn begin(live: i64) {
    LIVE.with(|l| l.set(live));
    BASE.with(|l| l.set(live));
    PEAK.with(|p| p.set(live));
}
pub fn now() -> (i64, i64) {
    (LIVE.with(|l| l.get()), PEAK.with(|p| p.get()))
}
