//! The 32-bit WebAssembly build against the host build: a history checked against the model on the host is executed again,
//! with stretches of it inside the WebAssembly module, the memories being handed over between the two.
use crate::engine::*;
use crate::gen::Gen;
use crate::hist::*;
use crate::mem::{self, SMem};
use crate::ops::Op;
use crate::props;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::special::{Arg, Driver};
use ic_stable_structures::Memory;
use serde_json::json;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const WASM: Driver = Driver {
    name: "wasm32",
    f: case,
    fixed: 0,
    weight: 10,
    rule: "wasm32: one case is one random history executed by the host build against the reference model, and executed again with some or all stretches between reopenings inside the wasm32 build (memory images handed over), every result and the final images compared; non-trivial: more than 10 successful calls inside WebAssembly",
};

struct Node {
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static NODE: RefCell<Option<Node>> = const { RefCell::new(None) });

fn dir() -> String {
    std::env::var("SFSMON_DIR").unwrap_or_else(|_| "/verif/harness".into())
}

fn start() -> Node {
    let module = std::env::var("SFSMON_WASM").unwrap_or_else(|_| format!("{}/target/wasm/wasm32-unknown-unknown/release/sfswasm.wasm", dir()));
    let mut child = Command::new("node")
        .arg(format!("{}/../wasm/run.js", dir()))
        .arg(module)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("node");
    let (i, o) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Node { child, i, o }
}

pub struct Reply {
    pub hashes: Vec<u64>,
    /// the reason, when the module trapped
    pub trap: Option<String>,
    pub image: Vec<u8>,
}

enum Sent {
    Done(Reply),
    Hangs,
    Broken(String),
}

fn wait(o: &ChildStdout, secs: i32) -> bool {
    let mut p = libc::pollfd { fd: o.as_raw_fd(), events: libc::POLLIN, revents: 0 };
    loop {
        let r = unsafe { libc::poll(&mut p, 1, secs * 1000) };
        if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        return r > 0;
    }
}

fn send(q: &[u8]) -> Sent {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let r: std::io::Result<Option<(String, Vec<u8>)>> = (|| {
            node.i.write_all(&(q.len() as u32).to_le_bytes())?;
            node.i.write_all(q)?;
            node.i.flush()?;
            if !wait(&node.o, 120) {
                return Ok(None);
            }
            let mut h = [0; 8];
            node.o.read_exact(&mut h)?;
            let mut out = vec![0; u32::from_le_bytes(h[..4].try_into().unwrap()) as usize];
            let mut note = vec![0; u32::from_le_bytes(h[4..].try_into().unwrap()) as usize];
            node.o.read_exact(&mut note)?;
            node.o.read_exact(&mut out)?;
            Ok(Some((String::from_utf8_lossy(&note).to_string(), out)))
        })();
        match r {
            Ok(Some((note, b))) => {
                let num = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let l = num(4) as usize;
                let text = String::from_utf8_lossy(&b[8..8 + l]).to_string();
                let k = num(8 + l) as usize;
                let at = 12 + l;
                let hashes = b[at..at + 8 * k].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                let trap = (num(0) != 0).then(|| format!("{note}; {text}"));
                Sent::Done(Reply { hashes, trap, image: b[at + 8 * k..].to_vec() })
            }
            Ok(None) => {
                *n = None;
                Sent::Hangs
            }
            Err(e) => {
                *n = None;
                Sent::Broken(e.to_string())
            }
        }
    })
}

fn case(o: &Opt, a: Arg) -> (Cfg, CaseOut) {
    let seed = a.raw();
    let mut r = Rng::new(seed);
    let mut cfg = props::random_cfg(&mut r, "P28");
    crate::run::raise(&mut cfg, seed);
    let list = ["P01", "P02", "P13", "P13", "P10", "P14", "P20", "P22", "P26", "P04"];
    let ps = props::profiles(list[r.us(list.len())]);
    let mut prof = r.pick(&ps).clone();
    prof.audit_live = 0;
    prof.audit_api = 0;
    prof.audit_struct = 0;
    prof.audit_cold = 0;
    let n = r.range(30, 250) as usize;
    let mut c = CaseOut::default();
    crate::watch::case(&cfg, seed, "wasm32");
    // on the host, against the model
    let mut e = match Engine::new(&cfg) {
        Ok(e) => e,
        Err(d) => {
            c.foreign = Some(describe(&d));
            return (cfg, c);
        }
    };
    e.outs = Some(vec![]);
    let mut g = Gen::new(prof.clone(), cfg.chunk_bytes());
    let mut failed = None;
    for _ in 0..n {
        let op = g.next(&mut r, &e.model);
        crate::watch::op(&op);
        if let Err(d) = e.run(&op) {
            failed = Some(d);
            break;
        }
    }
    crate::watch::idle();
    c.hash = e.trace_hash ^ mix(e.stats.ops);
    c.stats = e.stats.clone();
    if let Some(d) = failed {
        // differs from the model on the host already: what the other build does may still be compared up to there
        c.foreign = Some(format!("[{}] {}", cfg.name(), describe(&d)));
    }
    let outs = e.outs.take().unwrap();
    let ops: Vec<Op> = e.log.iter().filter(|x| !x.is_audit()).cloned().collect();
    let len = outs.len().min(ops.len());
    let panics = matches!(outs.last(), Some(Out::Panic(_)));
    let len = if panics { len - 1 } else { len };
    // stretches between reopenings
    let mut cuts = vec![0];
    if !cfg.transient {
        cuts.extend((1..len).filter(|i| matches!(ops[*i], Op::Reopen) && r.pct(70)));
    }
    cuts.push(len);
    let mode = r.below(3);
    let mut image: Vec<u8> = vec![];
    let mut cur = cfg.clone();
    let mut inside = 0;
    let mut handed = 0;
    let mut last: Option<bool> = None;
    let bad = |c: &mut CaseOut, at: usize, text: String| {
        let text = format!("{text} (configuration {}, call {at}: {})", cfg.name(), ops.get(at).map(opstr).unwrap_or_default());
        c.violation = Some((Replay { property: o.prop.clone(), driver: "wasm32".into(), cfg: cfg.clone(), ops: ops[..len.min(at + 1)].to_vec(), seed, detail: text.clone() }, text));
    };
    for w in cuts.windows(2) {
        let (from, to) = (w[0], w[1]);
        if from == to {
            continue;
        }
        let wasm = match mode {
            0 => true,
            1 => last != Some(true),
            _ => r.pct(60),
        };
        if last.is_some_and(|l| l != wasm) {
            handed += 1;
        }
        last = Some(wasm);
        let seg = Segment { cfg: cur.clone(), ops: ops[from..to].to_vec() };
        for op in &seg.ops {
            if let Op::SetChunkType { v1 } = op {
                cur.v1 = *v1 || cur.transient;
            }
        }
        let hashes = if wasm {
            match send(&seg.encode(&image)) {
                Sent::Done(x) => {
                    inside += x.hashes.len();
                    if let Some(t) = x.trap {
                        let at = from + x.hashes.len();
                        if let Some(k) = (0..x.hashes.len()).find(|k| x.hashes[*k] != outs[from + k].full_hash()) {
                            bad(&mut c, from + k, format!("the wasm32 build answers differently from the host build ({})", outs[from + k].brief()));
                        } else {
                            bad(&mut c, at, format!("the wasm32 build traps where the host build answers {}: {t}", outs.get(at).map(|o| o.brief()).unwrap_or_default()));
                        }
                        return (cfg.clone(), c);
                    }
                    image = x.image;
                    x.hashes
                }
                Sent::Hangs => {
                    bad(&mut c, from, "the wasm32 build does not return within two minutes from a stretch that the host build finishes".into());
                    return (cfg.clone(), c);
                }
                Sent::Broken(t) => {
                    // never a verdict
                    c.count("node_failures", 1);
                    c.foreign = Some(format!("node worker: {t}"));
                    return (cfg.clone(), c);
                }
            }
        } else {
            let (m, ms) = mem::load(&image);
            let mut real = match Real::on_memory(&seg.cfg, m, None) {
                Ok(x) => x,
                Err(p) => {
                    bad(&mut c, from, format!("the host build cannot open what the wasm32 build left: {p}"));
                    return (cfg.clone(), c);
                }
            };
            real.mems = ms;
            let h = seg.ops.iter().map(|x| real.exec(x).full_hash()).collect();
            image = mem::save(&real.mem, &real.mems);
            h
        };
        if let Some(k) = (0..hashes.len()).find(|k| hashes[*k] != outs[from + k].full_hash()) {
            bad(
                &mut c,
                from + k,
                format!("{} differently from the host build ({})", if wasm { "the wasm32 build answers" } else { "after stretches in the wasm32 build, the host build answers" }, outs[from + k].brief()),
            );
            return (cfg.clone(), c);
        }
    }
    c.count("calls_inside_wasm32", inside as u64);
    c.count("handed_over", handed);
    c.nontrivial = inside > 10 && e.stats.ok > 10;
    c.sample = Some(json!({"driver": "wasm32", "profile": prof.name, "configuration": cfg.name(), "seed": seed, "length": len, "calls_inside": inside,
        "operations": ops.iter().take(6).map(opstr).collect::<Vec<_>>()}));
    if c.foreign.is_some() || image.is_empty() {
        return (cfg.clone(), c);
    }
    // what is left behind
    let (m, ms) = mem::load(&image);
    let host = &e.real;
    for (i, (x, y)) in ms.iter().zip(&host.mems).enumerate() {
        if x.size() != y.size() || x.content_hash() != y.content_hash() {
            bad(&mut c, len, format!("the mounted memory {i} has other contents: {} pages, {} pages on the host", x.size(), y.size()));
            return (cfg.clone(), c);
        }
    }
    if cfg.transient {
        return (cfg.clone(), c);
    }
    if m.size() != host.mem.size() {
        bad(&mut c, len, format!("the stable memory has {} pages, {} on the host", m.size(), host.mem.size()));
        return (cfg.clone(), c);
    }
    c.count("images_audited", 1);
    if let Err(d) = audit(&mut e, None) {
        c.foreign = Some(format!("[{}] {}", cfg.name(), describe(&d)));
        return (cfg.clone(), c);
    }
    if let Err(d) = audit(&mut e, Some(m)) {
        bad(&mut c, len, format!("the state left by the wasm32 build is wrong where that of the host build is right: {}", describe(&d)));
    }
    c.stats = e.stats.clone();
    (cfg.clone(), c)
}

fn audit(e: &mut Engine, m: Option<SMem>) -> DResult<()> {
    if let Some(m) = m {
        e.real.mem = m;
    }
    e.audit_cold()?;
    e.audit_struct()
}
