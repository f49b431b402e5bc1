//! Random histories against the model: execution, localisation of a divergence, shrinking, replay files.
use crate::engine::*;
use crate::gen::{Gen, Profile};
use crate::ops::{ALL_RIGHTS, DIRECTORY, Op};
use crate::real::*;
use crate::rng::Rng;
use crate::{props, watch};
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub driver: String,
    pub cfg: Cfg,
    #[serde(default)]
    pub ops: Vec<Op>,
    #[serde(default)]
    pub seed: u64,
    pub detail: String,
}

/// run fixed operations (and the final audits)
pub fn run_ops(cfg: &Cfg, ops: &[Op], finish: bool) -> (Option<Box<Div>>, Engine) {
    let mut e = match Engine::new(cfg) {
        Ok(e) => e,
        Err(d) => {
            let e = Engine::with_real(Real::dummy(cfg));
            return (Some(d), e);
        }
    };
    let r = (|| {
        for o in ops {
            watch::op(o);
            e.run(o)?;
        }
        if finish {
            watch::op(&Op::AuditLive);
            e.finish()?;
        }
        Ok(())
    })();
    watch::idle();
    (r.err(), e)
}

pub fn run_random(cfg: &Cfg, prof: &Profile, seed: u64, n: usize) -> (Option<Box<Div>>, Engine) {
    let mut r = Rng::new(seed);
    let mut e = match Engine::new(cfg) {
        Ok(e) => e,
        Err(d) => {
            let e = Engine::with_real(Real::dummy(cfg));
            return (Some(d), e);
        }
    };
    e.sample_salt = seed | 1;
    let mut g = Gen::new(prof.clone(), cfg.chunk_bytes());
    let n = if r.below(60) == 0 { g.crowd(&mut r, n) } else { n };
    let res = (|| {
        for _ in 0..n {
            let o = g.next(&mut r, &e.model);
            watch::op(&o);
            e.run(&o)?;
        }
        watch::op(&Op::AuditLive);
        e.finish()
    })();
    watch::idle();
    (res.err(), e)
}

/// Does the history go right when the instance is replaced by a new one (which knows only what is stored) before every call that
/// changes something? Descriptors are opened again as they were.
pub fn right_when_refreshed(cfg: &Cfg, ops: &[Op]) -> bool {
    use std::collections::BTreeMap;
    let (Ok(mut a), Ok(mut b)) = (Engine::new(cfg), Engine::new(cfg)) else { return false };
    let mut map: BTreeMap<u32, u32> = BTreeMap::from([(3, 3)]);
    let mut times = 0;
    let t0 = Instant::now();
    let mut go = || -> Option<()> {
        for o in ops {
            watch::op(o);
            let o = a.subst(o);
            if o.is_audit() {
                continue;
            }
            if t0.elapsed() > Duration::from_secs(4) {
                return None;
            }
            let fds: Vec<_> = a.model.fds.iter().filter(|x| *x.0 > 3).map(|(n, f)| (*n, f.clone())).collect();
            let mounted = a.model.live().any(|i| a.model.inodes[i].mounted.is_some());
            let named = fds.iter().all(|x| !a.path_of(x.1.ino).contains('<'));
            if !o.is_readonly() && !mounted && named && fds.len() <= 40 {
                times += 1;
                b.run(&Op::Reopen).ok()?;
                map.retain(|_, v| *v == 3);
                for (n, f) in &fds {
                    let dir = a.model.inodes[f.ino].dir;
                    let path = a.path_of(f.ino);
                    b.run(&Op::Open { parent: 3, path, flags: if dir { DIRECTORY } else { 0 }, fdflags: 0, rights: ALL_RIGHTS, ctime: 7 }).ok()?;
                    if b.last_op_failed() {
                        return None;
                    }
                    let fd = b.model.last_fd;
                    map.insert(*n, fd);
                    if !dir {
                        b.run(&Op::Seek { fd, delta: f.cursor as i64, whence: 0 }).ok()?;
                    }
                    b.run(&Op::SetStat { fd, fdflags: f.fdflags, rights: f.rights, inheriting: f.inheriting }).ok()?;
                }
            }
            let oa = a.model.last_fd;
            let before: Vec<u32> = a.model.fds.keys().copied().collect();
            let r = a.run(&o);
            b.run(&map_fds(&o, &|x| map.get(&x).copied().unwrap_or(x))).ok()?;
            if r.is_err() {
                break;
            }
            if let Op::Renumber { from, to } = o {
                if !a.last_op_failed() && from != to {
                    map.remove(&from);
                }
            } else if a.model.last_fd != oa || a.model.fds.keys().any(|k| !before.contains(k)) {
                map.insert(a.model.last_fd, b.model.last_fd);
            }
        }
        b.finish().ok()
    };
    let r = go().is_some();
    watch::idle();
    r && times > 0 && b.soft.is_empty()
}

fn probe(cfg: &Cfg, ops: &[Op]) -> Option<Box<Div>> {
    let (d, e) = run_ops(cfg, ops, true);
    d.map(|mut d| {
        d.op_failed = e.last_op_failed();
        d
    })
}

/// find the first operation after which the state (or the result) is wrong
/// (gives up, and says so by `localised == false`, when that takes too long)
pub fn localise(cfg: &Cfg, log: &[Op], d: &Div) -> Box<Div> {
    let t0 = Instant::now();
    let n = log.len();
    let mut d0 = Box::new(d.clone());
    let hi0 = if d.phase == Phase::Op && n > 0 { n - 1 } else { n };
    let mut best = match probe(cfg, &log[..hi0]) {
        None => {
            d0.localised = true;
            return d0;
        }
        Some(b) => b,
    };
    let (mut lo, mut hi) = (0, hi0);
    while hi - lo > 1 {
        if t0.elapsed() > Duration::from_secs(150) {
            return d0;
        }
        let mid = (lo + hi) / 2;
        match probe(cfg, &log[..mid]) {
            None => lo = mid,
            Some(b) => {
                best = b;
                hi = mid;
            }
        }
    }
    // the culprit is log[hi-1]
    if hi > 0 {
        best.op = log[hi - 1].clone();
        best.step = hi;
    }
    best.localised = true;
    best
}

pub fn shrink(prop: &str, cfg: &Cfg, log: &[Op], d: &Div, cap: Duration) -> (Vec<Op>, Box<Div>) {
    let t0 = Instant::now();
    let same = |ops: &[Op]| -> Option<Box<Div>> {
        let (x, e) = run_ops(cfg, ops, true);
        let x = match x {
            Some(x) => x,
            None => e.soft.first().cloned().map(Box::new)?,
        };
        (x.cat == d.cat).then_some(x)
    };
    let mut cur: Vec<Op> = log.to_vec();
    // cut the tail
    if d.step > 0 && d.step < cur.len() && same(&cur[..d.step]).is_some() {
        cur.truncate(d.step);
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < cap {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(cur.len()));
            if same(&c).is_some() {
                cur = c;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if t0.elapsed() >= cap || (chunk == 1 && !changed) {
            break;
        }
        chunk = if chunk > 1 { chunk / 2 } else { 1 };
    }
    if let Some(x) = same(&cur) {
        if prop.is_empty() {
            return (cur, x);
        }
        let l = localise(cfg, &cur, &x);
        if props::accept(prop, &l) || x.cat == Cat::ErrCode {
            return (cur, l);
        }
    }
    (log.to_vec(), Box::new(d.clone()))
}

pub fn describe(d: &Div) -> String {
    format!("{:?}/{:?} at step {} ({}): {}", d.cat, d.phase, d.step, opstr(&d.op), d.detail)
}
