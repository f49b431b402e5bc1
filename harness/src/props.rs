//! Which monitors, workloads and configurations decide which property, and which divergence belongs to which property.
use crate::engine::*;
use crate::gen::Profile;
use crate::model::Why;
use crate::ops::Op;
use crate::real::Cfg;
use crate::rng::Rng;

pub const IDS: &[(&str, &str)] = &[
    ("P01", "content"),
    ("P02", "shrink"),
    ("P03", "isolation"),
    ("P04", "persistence"),
    ("P05", "tree"),
    ("P06", "rename"),
    ("P07", "links"),
    ("P08", "atomic failure"),
    ("P09", "descriptors"),
    ("P10", "cursor"),
    ("P11", "rights"),
    ("P12", "space"),
    ("P13", "limits"),
    ("P14", "mounted content"),
    ("P15", "mounted attributes"),
    ("P20", "iteration"),
    ("P21", "paths"),
    ("P22", "totality"),
    ("P23", "metadata"),
    ("P25", "error codes"),
    ("P27", "recursive removal"),
];

fn is_path_op(k: &str) -> bool {
    matches!(
        k,
        "open" | "create_open_dir" | "mkdir" | "open_metadata" | "remove_file" | "remove_dir" | "remove_recursive" | "rename" | "link"
    )
}
fn is_rw(k: &str) -> bool {
    matches!(k, "read" | "read_vec" | "pread" | "write" | "write_vec" | "pwrite")
}
fn is_write(k: &str) -> bool {
    matches!(k, "write" | "write_vec" | "pwrite")
}
fn is_mount(k: &str) -> bool {
    matches!(k, "mount" | "unmount" | "init_mem" | "store_mem" | "mem_poke")
}
fn is_sizing(k: &str) -> bool {
    matches!(k, "set_size" | "set_limit" | "set_metadata")
}

/// does the (localised) divergence show that the property does not hold?
pub fn accept(prop: &str, d: &Div) -> bool {
    use Cat::*;
    let k = d.op.kind();
    let c = d.cat;
    let crash = matches!(c, Panic | Work);
    let failed = c == OkErr || crash;
    let state = matches!(
        c,
        Content | Size | Names | EntryType | DirSize | Nlink | Times | Limit | NodeId | FileKind | ChunkType | FdTable | Cursor | FdStat | MemBytes | Mount
    );
    let plain = !d.obj.mounted;
    match prop {
        "P01" => plain && matches!(c, Content | Size | Count) || failed && is_rw(k) && !matches!(d.why, Some(Why::Rights | Why::BadFd | Why::WrongType | Why::Limit)),
        "P02" => {
            let trunc = matches!(&d.op, Op::Open { flags, .. } if flags & crate::ops::TRUNC != 0);
            matches!(c, Content | Size | Count | Cursor) && (d.obj.shrunk || is_sizing(k) || trunc)
                || failed && (is_sizing(k) || trunc || (is_rw(k) && d.why.is_none()))
        }
        "P03" => {
            d.localised && state && d.ino.is_some() && !d.in_targets && !d.op_failed
                || c == Struct && (d.detail.contains(" is used by ") || d.detail.contains(" is free and also "))
                || c == NodeId && d.detail.contains("shared")
        }
        "P04" => d.phase == Phase::Cold || k == "reopen",
        "P05" => {
            matches!(c, Names | EntryType | DirSize | NodeId | DirIndex | FileKind)
                || failed && (is_path_op(k) || k == "list")
                || (d.obj.fresh && matches!(c, Content | Size | Nlink) && is_path_op(k))
                || c == Struct && (d.detail.contains("name index") || d.detail.contains("entry ("))
        }
        "P06" => k == "rename",
        "P07" => matches!(k, "link" | "remove_file" | "remove_dir" | "remove_recursive") || c == Nlink || d.obj.linked && state || matches!(d.why, Some(Why::Busy | Why::DirLink)) || (k == "rename" && (c == Struct || state && d.obj.linked)),
        "P08" => d.localised && d.op_failed && (state || c == Struct) && d.phase != Phase::Op || d.err_changed_state,
        "P09" => {
            matches!(c, FdTable | FdStat | Cursor)
                || failed && (matches!(k, "close" | "renumber" | "get_stat" | "tell") || matches!(d.why, Some(Why::BadFd | Why::WrongType | Why::Busy)))
                || matches!(k, "close" | "renumber")
        }
        "P10" => {
            matches!(c, Cursor | Count) || matches!(d.why, Some(Why::Seek)) || failed && matches!(k, "seek" | "tell" | "read" | "write" | "read_vec" | "write_vec")
                || matches!(c, Content | Size) && (matches!(k, "read" | "write" | "read_vec" | "write_vec" | "pwrite" | "seek"))
        }
        "P11" => {
            c == FdStat || matches!(d.why, Some(Why::Rights)) || matches!(k, "open" | "set_stat") && (state || failed || c == Count) || c == FileKind
                || failed && (is_rw(k) || k == "set_size" || k == "get_stat")
        }
        "P12" => c == Struct,
        "P13" => {
            c == Limit || matches!(d.why, Some(Why::Limit)) || failed && (is_write(k) || is_sizing(k) || k == "mount" || k == "store_mem")
                || matches!(c, Content | Size | Count) && (d.off.is_some_and(|o| o > 1 << 36) || is_sizing(k) || d.obj.limited || d.obj.big)
        }
        "P14" => {
            matches!(c, MemBytes | Mount) || (d.obj.mounted || d.obj.was_mounted) && matches!(c, Content | Size | Count | Names) || is_mount(k) && (failed || state)
        }
        "P15" => {
            (d.obj.mounted || d.obj.was_mounted) && matches!(c, Size | Limit | Times | Nlink | ChunkType | NodeId | FileKind | Mount)
                || matches!(d.why, Some(Why::Mount | Why::Mounted)) || is_mount(k) && (failed || state)
        }
        "P16" => c == Canary,
        "P20" => c == DirIndex || matches!(k, "list" | "direntry") || matches!(c, Names | EntryType) && matches!(d.phase, Phase::Live | Phase::Api),
        "P21" => matches!(d.why, Some(Why::Path)) || is_path_op(k) && (failed || matches!(c, Names | NodeId)),
        "P22" => crash,
        "P23" => {
            matches!(c, NodeId | Times | Nlink | FileKind | Size | DirSize | ChunkType | Limit)
                || failed && matches!(k, "set_atime" | "set_mtime" | "set_metadata" | "metadata" | "open_metadata" | "set_limit")
        }
        "P25" => c == ErrCode || c == OkErr,
        "P27" => k == "remove_recursive",
        "P31" => c == Work && d.detail.contains(crate::real::HEAP_MSG),
        "P29" => true,
        "ANY" => true,
        _ => false,
    }
}

/// workloads for the history driver
pub fn profiles(prop: &str) -> Vec<Profile> {
    let b = || Profile::base("general");
    let mut hot = b();
    hot.name = "hot";
    match prop {
        "P01" => {
            let mut p = Profile::base("content").only(&[("write", 40), ("read", 22), ("seek", 8), ("size", 6), ("open", 14), ("close", 4), ("remove", 3), ("mkdir", 2), ("chunk", 2), ("misc", 1)]);
            p.bulk = 10;
            p.max_objs = 10;
            p.audit_live = 40;
            let mut q = p.clone();
            q.name = "content-large";
            q.span = 2_000_000;
            q.max_write = 700_000;
            vec![p.clone(), p, q, b()]
        }
        "P02" => {
            let mut p = Profile::base("shrink").only(&[("write", 30), ("read", 16), ("size", 34), ("seek", 3), ("open", 10), ("close", 3), ("remove", 2), ("limit", 2)]);
            p.max_objs = 6;
            p.audit_live = 50;
            p.far = 10;
            let mut q = p.clone();
            q.name = "shrink-large";
            q.span = 900_000;
            q.max_write = 300_000;
            vec![p.clone(), p, q]
        }
        "P03" => {
            let mut p = b().set("write", 26).set("remove", 14).set("size", 12).set("link", 4);
            p.name = "isolation";
            p.audit_live = 70;
            p.bulk = 5;
            vec![p, b()]
        }
        "P04" => {
            let mut p = b().set("mount", 6).set("time", 6).set("limit", 4);
            p.name = "persistence";
            p.reopen = 60;
            p.audit_cold = 60;
            p.audit_live = 5;
            p.audit_api = 2;
            p.bulk = 6;
            vec![p]
        }
        "P05" => {
            let mut p = Profile::base("tree").only(&[("open", 26), ("mkdir", 16), ("remove", 16), ("rename", 14), ("link", 8), ("rec", 4), ("list", 12), ("meta", 12), ("close", 8), ("write", 4)]);
            p.bulk = 12;
            p.max_objs = 60;
            p.audit_api = 25;
            p.reopen = 15;
            let mut q = p.clone();
            q.name = "tree-small-names";
            q.names = 3;
            q.bulk = 0;
            q.max_objs = 18;
            vec![p, q, b()]
        }
        "P06" => {
            let mut p = Profile::base("rename").only(&[("rename", 40), ("open", 14), ("mkdir", 14), ("write", 8), ("link", 6), ("remove", 6), ("close", 10), ("meta", 6), ("list", 2), ("mount", 2), ("rec", 1), ("read", 3)]);
            p.audit_live = 60;
            p.audit_api = 30;
            p.max_objs = 20;
            p.names = 4;
            vec![p]
        }
        "P07" => {
            let mut p = Profile::base("links").only(&[("link", 24), ("rename", 8), ("open", 16), ("write", 14), ("read", 6), ("remove", 20), ("mkdir", 4), ("close", 10), ("size", 4), ("rec", 2), ("mount", 3), ("meta", 3)]);
            p.audit_live = 60;
            p.audit_struct = 30;
            p.names = 4;
            p.max_objs = 16;
            vec![p, b()]
        }
        "P08" => {
            let mut p = b().set("rename", 14).set("link", 10).set("remove", 14).set("rec", 3).set("limit", 8).set("mount", 8).set("mkdir", 8).set("open", 16);
            p.name = "failing";
            p.bogus = 18;
            p.hi = 8;
            p.audit_live = 90;
            p.audit_api = 30;
            p.audit_cold = 20;
            p.max_objs = 16;
            p.names = 5;
            vec![p]
        }
        "P09" => {
            let mut p = Profile::base("descriptors").only(&[("open", 34), ("close", 30), ("fd", 18), ("stat", 8), ("seek", 8), ("write", 8), ("read", 4), ("mkdir", 4), ("remove", 8), ("rename", 4), ("link", 4), ("list", 2), ("meta", 2)]);
            p.bogus = 14;
            p.audit_live = 90;
            p.max_fds = 24;
            p.max_objs = 12;
            p.max_write = 3000;
            vec![p]
        }
        "P10" => {
            let mut p = Profile::base("cursor").only(&[("write", 30), ("read", 26), ("seek", 30), ("open", 14), ("stat", 6), ("size", 5), ("close", 3), ("limit", 2), ("mount", 3), ("fd", 3)]);
            p.hi = 5;
            p.max_objs = 6;
            p.audit_live = 70;
            vec![p]
        }
        "P11" => {
            let mut p = Profile::base("rights").only(&[("open", 34), ("stat", 20), ("write", 14), ("read", 12), ("size", 10), ("seek", 3), ("close", 8), ("mkdir", 5), ("list", 2), ("remove", 3), ("fd", 4), ("limit", 1)]);
            p.audit_live = 60;
            p.max_objs = 14;
            p.max_write = 9000;
            vec![p]
        }
        "P12" => {
            let mut p = b().set("write", 22).set("remove", 14).set("size", 14).set("rename", 6).set("link", 5).set("mount", 5).set("chunk", 3);
            p.name = "space";
            p.audit_struct = 60;
            p.audit_live = 10;
            p.reopen = 15;
            p.hi = 4;
            p.bulk = 10;
            vec![p]
        }
        "P13" => {
            let mut p = Profile::base("limits").only(&[("write", 34), ("read", 12), ("size", 22), ("limit", 22), ("seek", 8), ("open", 12), ("mount", 10), ("close", 3), ("remove", 3), ("meta", 3)]);
            p.hi = 30;
            p.max_objs = 8;
            p.audit_live = 60;
            vec![p]
        }
        "P14" | "P15" => {
            let mut p = Profile::base("mounted").only(&[("mount", 40), ("write", 20), ("read", 12), ("size", 8), ("open", 12), ("limit", 6), ("time", 6), ("seek", 3), ("remove", 5), ("rename", 4), ("link", 5), ("close", 5), ("meta", 4), ("mkdir", 2), ("rec", 1), ("stat", 1)]);
            p.max_objs = 10;
            p.audit_live = 60;
            p.audit_cold = if prop == "P15" { 40 } else { 10 };
            p.reopen = if prop == "P15" { 25 } else { 12 };
            p.hi = if prop == "P15" { 4 } else { 1 };
            vec![p]
        }
        "P20" => {
            let mut p = Profile::base("iteration").only(&[("list", 34), ("open", 18), ("mkdir", 10), ("remove", 18), ("rename", 10), ("link", 6), ("close", 8), ("rec", 2)]);
            p.bulk = 14;
            p.max_objs = 90;
            p.reopen = 10;
            p.audit_api = 20;
            vec![p]
        }
        "P21" => {
            let mut p = Profile::base("paths").only(&[("open", 24), ("mkdir", 16), ("remove", 12), ("rename", 12), ("link", 8), ("rec", 3), ("meta", 26), ("close", 8), ("list", 2)]);
            p.decor = 70;
            p.bogus = 14;
            p.max_objs = 24;
            p.audit_api = 20;
            vec![p]
        }
        "P22" | "P31" => {
            let mut p = b();
            p.name = "totality";
            p.hi = 22;
            p.bogus = 18;
            p.bulk = 8;
            p.decor = 30;
            let mut q = p.clone();
            q.name = "totality-limits";
            q = q.only(&[("write", 30), ("read", 25), ("seek", 25), ("size", 20), ("limit", 12), ("open", 10), ("mount", 10), ("list", 8), ("misc", 4), ("close", 3)]);
            q.hi = 45;
            vec![p, q]
        }
        "P23" => {
            let mut p = b().set("time", 20).set("meta", 20).set("link", 8).set("rename", 8).set("limit", 6).set("size", 10);
            p.name = "metadata";
            p.audit_live = 50;
            p.audit_cold = 30;
            p.audit_api = 20;
            p.reopen = 20;
            p.bulk = 5;
            vec![p]
        }
        "P25" => {
            let mut p = b().set("rename", 12).set("link", 12).set("remove", 14).set("rec", 4).set("mkdir", 10).set("limit", 8).set("mount", 10).set("stat", 6).set("list", 8).set("fd", 8);
            p.name = "error-codes";
            p.bogus = 25;
            p.hi = 10;
            p.decor = 25;
            p.audit_live = 10;
            p.max_objs = 16;
            p.names = 5;
            vec![p]
        }
        "P27" => {
            let mut p = Profile::base("recursive").only(&[("rec", 14), ("open", 30), ("mkdir", 26), ("link", 14), ("write", 10), ("mount", 3), ("close", 16), ("rename", 6), ("remove", 2), ("meta", 3)]);
            p.audit_live = 40;
            p.audit_struct = 25;
            p.max_objs = 60;
            p.bulk = 6;
            vec![p]
        }
        "P24" => {
            let mut p = Profile::base("lookups").only(&[("open", 22), ("mkdir", 14), ("remove", 14), ("rename", 12), ("link", 6), ("meta", 30), ("list", 6), ("close", 8), ("rec", 3), ("write", 6), ("read", 10), ("size", 4), ("mount", 4)]);
            p.audit_api = 2;
            p.audit_live = 8;
            vec![p]
        }
        _ => vec![hot],
    }
}

pub fn random_cfg(r: &mut Rng, prop: &str) -> Cfg {
    let stable_only = matches!(prop, "P04" | "P12" | "P29");
    let x = r.below(100);
    let mut c = if x < 18 && !stable_only {
        return Cfg::transient();
    } else if x < 40 {
        Cfg::v1()
    } else {
        Cfg::v2(*r.pick(&[0, 4, 4, 8, 16, 32, 64]))
    };
    if c.v1 && r.pct(30) {
        c.kb = *r.pick(&[4, 64]);
    }
    c.bucket = *r.pick(&[1, 1, 1, 1, 2, 8, 128, 0]);
    c.start = *r.pick(&[10, 0, 100, 229, 244]);
    c
}

/// the first wrong state belongs to another property, but a later observation is a direct breach of this one
pub fn accept_symptom(prop: &str, d: &Div) -> bool {
    matches!(prop, "P22" | "P16" | "P31") && accept(prop, d)
}

/// The (minimal) history cannot do without an operation whose effect the property is about: its effect is what went wrong, although
/// the first observation of it is of another kind.
pub fn needs(prop: &str, cfg: &Cfg, ops: &[Op], d: &Div) -> bool {
    use crate::ops::*;
    let any = |f: &dyn Fn(&Op) -> bool| ops.iter().any(|o| !o.is_audit() && f(o));
    let data = matches!(d.cat, Cat::Content | Cat::Size | Cat::Count | Cat::MemBytes);
    match prop {
        "P02" => data && any(&|o| matches!(o, Op::SetSize { .. } | Op::SetMeta { change: MetaChange::Size(_) | MetaChange::SizeAndLimit(..), .. }) || matches!(o, Op::Open { flags, .. } if flags & TRUNC != 0)),
        "P04" => any(&|o| matches!(o, Op::Reopen)),
        "P06" => any(&|o| matches!(o, Op::Rename { .. })),
        "P07" => any(&|o| matches!(o, Op::Link { .. })),
        "P09" => any(&|o| matches!(o, Op::Renumber { .. })),
        "P10" => data && any(&|o| matches!(o, Op::Seek { .. }) || matches!(o, Op::Open { fdflags, .. } if fdflags & F_APPEND != 0)),
        "P11" => any(&|o| matches!(o, Op::SetStat { .. })),
        "P13" => any(&|o| matches!(o, Op::SetLimit { .. } | Op::SetMeta { change: MetaChange::Limit(_) | MetaChange::SizeAndLimit(..), .. })),
        "P14" | "P15" => any(&|o| matches!(o, Op::Mount { .. })),
        "P23" => any(&|o| matches!(o, Op::SetATime { .. } | Op::SetMTime { .. } | Op::SetMeta { .. })),
        "P27" => any(&|o| matches!(o, Op::RemoveRec { .. })),
        "P24" => {
            // without its read-only calls the same history does not go wrong
            let last = ops.iter().rposition(|o| !o.is_audit()).unwrap_or(0);
            let plain: Vec<Op> = ops.iter().enumerate().filter(|(i, o)| *i >= last || !o.is_readonly()).map(|x| x.1.clone()).collect();
            if plain.len() < ops.len() && matches!(crate::hist::run_ops(cfg, &plain, true), (None, e) if e.soft.is_empty()) {
                return true;
            }
            // what is stored is right, and a new instance reads it rightly: only this one, with what it remembers, does not
            let stored_wrong = matches!(d.cat, Cat::Content | Cat::Count | Cat::Size | Cat::Names | Cat::NodeId | Cat::Limit | Cat::Nlink | Cat::FileKind | Cat::Struct | Cat::OkErr | Cat::Panic);
            if stored_wrong && !cfg.transient && ops.len() < 6000 && crate::hist::right_when_refreshed(cfg, ops) {
                return true;
            }
            let mut stored: Vec<Op> = ops.iter().filter(|o| !o.is_audit()).cloned().collect();
            if d.phase == Phase::Op && stored.last().is_some_and(|o| o.is_readonly()) {
                stored.pop();
            }
            stored.push(Op::AuditCold);
            matches!(d.phase, Phase::Op | Phase::Live | Phase::Api)
                && matches!(d.cat, Cat::Content | Cat::Count | Cat::Size | Cat::Names | Cat::NodeId | Cat::Times | Cat::Limit | Cat::Nlink | Cat::FileKind)
                && !cfg.transient
                && matches!(crate::hist::run_ops(cfg, &stored, false), (None, e) if e.soft.is_empty())
        }
        "P08" => {
            // a refused operation that is not the last one
            let Ok(mut e) = Engine::new(cfg) else { return false };
            let mut failed = 0;
            for o in ops.iter().take(ops.len().saturating_sub(1)) {
                if e.run(o).is_err() {
                    break;
                }
                failed += (!o.is_audit() && e.last_op_failed()) as u32;
            }
            failed > 0
        }
        "P21" => {
            // the same history with canonical paths does not go wrong
            let plain: Vec<Op> = ops.iter().map(canonical).collect();
            plain != ops && matches!(crate::hist::run_ops(cfg, &plain, true), (None, e) if e.soft.is_empty())
        }
        _ => false,
    }
}

fn canonical(o: &Op) -> Op {
    use crate::ops::*;
    fn c(p: &str) -> String {
        let mut v: Vec<&str> = vec![];
        for x in p.split('/') {
            match x {
                "" | "." => {}
                ".." => {
                    if v.pop().is_none() {
                        return p.to_string();
                    }
                }
                x => v.push(x),
            }
        }
        if p.starts_with('/') {
            return p.to_string();
        }
        v.join("/")
    }
    let mut o = o.clone();
    match &mut o {
        Op::Open { path, .. }
        | Op::CreateOpenDir { path, .. }
        | Op::Mkdir { path, .. }
        | Op::OpenMeta { path, .. }
        | Op::RemoveFile { path, .. }
        | Op::RemoveDir { path, .. }
        | Op::RemoveRec { path, .. } => *path = c(path),
        Op::Rename { opath, npath, .. } | Op::Link { opath, npath, .. } => {
            *opath = c(opath);
            *npath = c(npath);
        }
        _ => {}
    }
    o
}
