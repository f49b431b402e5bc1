//! Watches that calls of the code under test return: a call that burns CPU without end is interrupted by reporting it.
use crate::ops::Op;
use crate::real::Cfg;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Slot {
    pub op: Option<Op>,
    pub cpu0: f64,
    pub clock: libc::clockid_t,
    pub cfg: Option<Cfg>,
    /// the history so far is reproducible from here
    pub seed: u64,
    pub what: String,
}

static SLOTS: Mutex<Vec<Arc<Mutex<Slot>>>> = Mutex::new(Vec::new());

thread_local! {
    static MINE: RefCell<Option<Arc<Mutex<Slot>>>> = const { RefCell::new(None) };
}

fn cpu(c: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(c, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

pub fn register() {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    let s = Arc::new(Mutex::new(Slot { op: None, cpu0: 0.0, clock: c, cfg: None, seed: 0, what: String::new() }));
    SLOTS.lock().unwrap().push(s.clone());
    MINE.with(|m| *m.borrow_mut() = Some(s));
}

pub fn case(cfg: &Cfg, seed: u64, what: &str) {
    MINE.with(|m| {
        if let Some(s) = m.borrow().as_ref() {
            let mut s = s.lock().unwrap();
            s.cfg = Some(cfg.clone());
            s.seed = seed;
            s.what = what.to_string();
            s.op = None;
        }
    });
}

pub fn op(o: &Op) {
    MINE.with(|m| {
        if let Some(s) = m.borrow().as_ref() {
            let mut s = s.lock().unwrap();
            s.cpu0 = cpu(s.clock);
            s.op = Some(o.clone());
        }
    });
}

pub fn idle() {
    MINE.with(|m| {
        if let Some(s) = m.borrow().as_ref() {
            s.lock().unwrap().op = None;
        }
    });
}

/// `f` is called with the operation that has been running for more than `limit` seconds of CPU time
pub fn spawn(limit: f64, f: impl Fn(&Slot) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let v: Vec<_> = SLOTS.lock().unwrap().clone();
        for s in v {
            let s = s.lock().unwrap();
            if s.op.is_some() && cpu(s.clock) - s.cpu0 > limit {
                f(&s);
            }
        }
    });
}
