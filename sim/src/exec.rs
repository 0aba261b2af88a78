//! Executes the steps of simulated threads: library operations with their verdicts, and the actions of other programs
//! (git itself, the administrator, bit rot) on the same repository.

use crate::alloc::LIVE_LIB;
use crate::fs::{Data, Node, Walk};
use crate::git::{self, Fields, Kind, Obj, Oid};
use crate::model::{self, lossy, Class, Copy};
use crate::rng::{h4, Rng};
use crate::sim::*;
use crate::sys;
use rusty_git::object::{Id, Object, ObjectData, ObjectKind, Signature};
use rusty_git::reference::{Direct, ReferenceTarget, Symbolic};
use rusty_git::repository::{OpenError, Repository};
use std::cell::RefCell;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Damage {
    /// Flip `n` random bits.
    Flip(u32),
    Truncate,
    Empty,
    Zero,
    Tail(Vec<u8>),
    Splice(Vec<u8>),
    Set(Vec<u8>),
    Remove,
    /// Exchange the contents with another file.
    Swap(Vec<u8>),
    /// The content of another file was put in its place.
    Copy(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Step {
    Open { slot: usize, path: Vec<u8> },
    WaitOpen { slot: usize },
    Drop { slot: usize },
    Join,
    Barrier,
    WaitProc(usize),
    Sleep(i128),
    Write { slot: usize, obj: usize },
    Parse { slot: usize, obj: usize },
    Stream { slot: usize, obj: usize, chunk: usize, hold: i128 },
    RefRead { slot: usize, name: Vec<u8>, api: u8 },
    List { slot: usize, what: u8 },
    Peel { slot: usize, name: Vec<u8>, api: u8 },
    /// Look an object up and keep the result: parsed, or as a reader of which so many bytes are read.
    Keep { slot: usize, obj: usize, part: Option<usize> },
    /// Use a kept result: compare a parsed object again, or read a reader to its end.
    Recheck { n: usize },
    OpenBad { path: Vec<u8>, exists: bool },
    VerifyAcked { slot: usize },
    VerifyAll { slot: usize },
    MemBase,
    MemMid,
    MemCheck { slack: i64 },
    // other programs
    GitWrite { obj: usize, link: bool },
    GitPack { pack: usize },
    DropPack { pack: usize, idx_first: bool },
    PrunePacked { obj: usize },
    /// A repack leaves out the old pack: what only it holds is unreachable and older than the grace period.
    ForgetPack { pack: usize, grace: i128 },
    PruneAge { obj: usize, grace: i128 },
    /// Old temporary files are removed.
    PruneTmp { grace: i128 },
    RmEmptyDir { obj: usize },
    RefSet { name: Vec<u8>, value: Vec<u8> },
    RefDelete { name: Vec<u8> },
    Damage { path: Vec<u8>, how: Damage, unusable: bool, salt: u64 },
    /// An administrator puts intact copies in the place of all damaged files.
    Repair,
    FaultOn { path: Vec<u8>, sites: u64, errno: i32, prefix: bool },
    FaultOff,
    Jump(i128),
    Touch { path: Vec<u8> },
}

impl Step {
    pub fn slot_mut(&mut self) -> Option<&mut usize> {
        match self {
            Step::Open { slot, .. }
            | Step::WaitOpen { slot }
            | Step::Drop { slot }
            | Step::Write { slot, .. }
            | Step::Parse { slot, .. }
            | Step::Stream { slot, .. }
            | Step::RefRead { slot, .. }
            | Step::List { slot, .. }
            | Step::Peel { slot, .. }
            | Step::Keep { slot, .. }
            | Step::VerifyAcked { slot }
            | Step::VerifyAll { slot } => Some(slot),
            _ => None,
        }
    }
}

/// A result of an operation that the caller still holds.
pub struct Kept {
    obj: usize,
    op: usize,
    val: KeptVal,
}

/// Reads on; owns the library's reader.
type ReadFn = dyn FnMut(&mut [u8]) -> std::io::Result<usize>;

enum KeptVal {
    Obj(Object),
    Reader(Box<ReadFn>, usize),
    Taken,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = sys::set_active(false);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if was {
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
        } else {
            let text = format!("harness panic: {} at {}", msg, at);
            if installed() {
                k().harness(text);
            }
            eprintln!("{}", text);
        }
        sys::set_active(was);
    }));
}

/// Run library code. Err: it panicked.
fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    sys::set_active(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(v) => {
            sys::set_active(false);
            Ok(v)
        }
        Err(p) => {
            drop(p);
            sys::set_active(false);
            Err(PANIC.with(|p| p.borrow().clone()))
        }
    }
}

struct OpOpts {
    target: Option<usize>,
    write_id: Option<Oid>,
    open_op: bool,
}

fn op_begin(what: String, o: OpOpts) -> usize {
    let kk = k();
    let c = kk.cur;
    kk.threads[c].op += 1;
    kk.event("op", hash_bytes(what.as_bytes()));
    let m = &kk.model;
    let t = o.target;
    let rec = OpRec {
        tid: c,
        proc: kk.threads[c].proc,
        inv: kk.ev,
        inv_real: kk.real(),
        target: t,
        present_all: t.map_or(false, |i| m.present[i]),
        absent_all: t.map_or(true, |i| !m.some[i]),
        tainted_any: t.map_or(false, |i| m.taint[i]),
        long_all: t.map_or(false, |i| m.only_long(i)),
        fresh: false,
        outdated: false,
        keeps: false,
        blind_any: m.blind_any,
        blind_all: m.blind,
        acked: t.map_or(false, |i| m.acked[i].is_some()),
        write: o.write_id.is_some(),
        write_id: o.write_id,
        open_op: o.open_op,
        done: false,
        faulty: false,
        what,
    };
    kk.ev += 1;
    let n = kk.ops.len();
    kk.sh.set_cur(c, &rec.what);
    kk.ops.push(rec);
    kk.running.push(n);
    kk.threads[c].k0 = kk.threads[c].k;
    kk.threads[c].rec = Some(n);
    model::watch_age(kk, None);
    kk.sh.ops += 1;
    let w = kk.ops[n].what.clone();
    kk.log(|| format!("BEGIN {}", w));
    sys::reset_bb();
    kk.arm_bb(0);
    n
}

fn op_end(n: usize, result: &str) {
    let kk = k();
    let c = kk.cur;
    kk.threads[c].rec = None;
    kk.running.retain(|&x| x != n);
    kk.ops[n].done = true;
    kk.ev += 1;
    kk.log(|| format!("END {}", result));
    // descriptors the operation left open
    let p = kk.ops[n].proc;
    let open = kk.procs[p].handles.iter().filter(|h| h.is_some()).count().max(1);
    let mut bad: Option<String> = None;
    let mut packs: Vec<usize> = Vec::new();
    for f in kk.procs[p].fds.values() {
        if f.path.ends_with(b".pack") && f.flags & libc::O_ACCMODE == libc::O_RDONLY {
            packs.push(f.ino);
        } else if f.op == n as u64 + 1 && !kk.ops[n].keeps {
            bad = Some(lossy(&f.path));
        }
    }
    packs.sort();
    let others = kk.running.iter().any(|&r| kk.ops[r].proc == p);
    if !others && packs.windows(open + 1).any(|w| w.iter().all(|x| *x == w[0])) {
        bad = Some("a pack opened more than once".into());
    }
    if let Some(b) = bad {
        let w = kk.ops[n].what.clone();
        kk.anomaly("FD_LEAK", format!("{}: leaves a descriptor open on {}", w, b));
    }
    kk.sh.set_cur(c, "");
}

/// Did an injected failure hit this process while the operation ran?
fn faulted(n: usize) -> bool {
    let kk = k();
    let op = &kk.ops[n];
    let p = &kk.procs[op.proc];
    // how single files that cannot be read affect objects is known exactly (see Model)
    p.last_hard >= op.inv || (op.write && p.last_persist_write >= op.inv) || (op.target.is_none() && p.last_persist >= op.inv)
}
fn anomaly(n: usize, kind: &str, text: String) {
    let kk = k();
    let w = kk.ops[n].what.clone();
    kk.anomaly(kind, format!("{}: {}", w, text));
}

fn panicked(n: usize, msg: String) {
    anomaly(n, "PANIC", msg);
    op_end(n, "panicked");
}

// ---------------------------------------------------------------- comparing parsed objects

fn hx(i: &Id) -> String {
    i.to_hex()
}

fn sig_diff(what: &str, got: &Signature, want: &git::Sig) -> Option<String> {
    let g = (
        got.name().to_vec(),
        got.email().to_vec(),
        got.timestamp().map(|b| b.to_vec()),
        got.timezone().map(|b| b.to_vec()),
    );
    let w = (want.name.clone(), want.email.clone(), want.ts.clone(), want.tz.clone());
    if g != w {
        let s = |t: &(Vec<u8>, Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>)| {
            format!("name {:?} email {:?} time {:?} zone {:?}", lossy(&t.0), lossy(&t.1), t.2.as_ref().map(|x| lossy(x)), t.3.as_ref().map(|x| lossy(x)))
        };
        return Some(format!("{}: got {}, stored {}", what, s(&g), s(&w)));
    }
    None
}

fn kind_of(k: ObjectKind) -> Option<Kind> {
    Some(match k {
        ObjectKind::Commit => Kind::Commit,
        ObjectKind::Tree => Kind::Tree,
        ObjectKind::Blob => Kind::Blob,
        ObjectKind::Tag => Kind::Tag,
        _ => return None,
    })
}

/// Use everything an object offers, whatever it holds.
fn visit(o: &Object) {
    let mut n = 0;
    match o.data() {
        ObjectData::Blob(b) => n += b.data().len(),
        ObjectData::Tree(t) => {
            for e in t.entries() {
                n += e.filename().len() + usize::from(e.mode()) + hx(&e.id()).len();
            }
        }
        ObjectData::Commit(c) => {
            n += hx(&c.tree()).len() + c.parents().map(|p| hx(&p).len()).sum::<usize>();
            for s in [c.author(), c.committer()] {
                n += s.name().len() + s.email().len() + s.timestamp().map_or(0, |t| t.len()) + s.timezone().map_or(0, |t| t.len());
            }
            n += c.encoding().map_or(0, |e| e.len()) + c.message().len();
        }
        ObjectData::Tag(t) => {
            n += hx(&t.object()).len() + t.tag().len() + t.message().map_or(0, |m| m.len());
            let _ = t.kind();
            if let Some(s) = t.tagger() {
                n += s.name().len() + s.email().len() + s.timestamp().map_or(0, |t| t.len()) + s.timezone().map_or(0, |t| t.len());
            }
        }
    }
    if n < 3000 {
        std::hint::black_box(format!("{:?}", o).len());
    }
    std::hint::black_box(n);
}

/// None: the parsed object is the stored one. Runs as library code.
fn diff(o: &Object, want: &Obj) -> Option<String> {
    if !matches!(want.fields, Fields::Blob) {
        visit(o);
    }
    if hx(o.id()) != git::hex(&want.id) {
        return Some(format!("object claims id {}", o.id()));
    }
    match (o.data(), &want.fields) {
        (ObjectData::Blob(b), Fields::Blob) => {
            let d: &[u8] = b.data();
            if d != &want.body[..] {
                return Some(format!("blob of {} bytes differs from the stored {} bytes", d.len(), want.body.len()));
            }
            None
        }
        (ObjectData::Tree(t), Fields::Tree(es)) => {
            let it = t.entries();
            let n = it.len();
            let mut got = Vec::new();
            for e in it {
                got.push((e.mode(), e.filename().to_vec(), hx(&e.id())));
            }
            if n != got.len() {
                return Some(format!("tree announces {} entries and yields {}", n, got.len()));
            }
            let want: Vec<(u16, Vec<u8>, String)> = es.iter().map(|(m, n, i)| (*m, n.clone(), git::hex(i))).collect();
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Some(format!("tree differs at entry {} of {}/{}", at, got.len(), want.len()));
            }
            None
        }
        (ObjectData::Commit(c), Fields::Commit { tree, parents, author, committer, encoding, message }) => {
            if hx(&c.tree()) != git::hex(tree) {
                return Some(format!("commit tree {}", c.tree()));
            }
            let n = c.parents().len();
            let ps: Vec<String> = c.parents().map(|p| hx(&p)).collect();
            if n != parents.len() || ps != parents.iter().map(|p| git::hex(p)).collect::<Vec<_>>() {
                return Some(format!("commit parents {:?}", ps));
            }
            if let Some(d) = sig_diff("author", &c.author(), author) {
                return Some(d);
            }
            if let Some(d) = sig_diff("committer", &c.committer(), committer) {
                return Some(d);
            }
            let e = c.encoding().map(|e| e.to_vec());
            if e != *encoding {
                return Some(format!("commit encoding {:?}, stored {:?}", e.map(|e| lossy(&e)), encoding.as_ref().map(|e| lossy(e))));
            }
            let m: &[u8] = c.message();
            if m != &message[..] {
                return Some(format!("commit message {:?}, stored {:?}", lossy(&m[..m.len().min(80)]), lossy(&message[..message.len().min(80)])));
            }
            None
        }
        (ObjectData::Tag(t), Fields::Tag { object, kind, tag, tagger, message }) => {
            if hx(&t.object()) != git::hex(object) {
                return Some(format!("tag object {}", t.object()));
            }
            if kind_of(t.kind()) != Some(*kind) {
                return Some(format!("tag kind {:?}", t.kind()));
            }
            let g: &[u8] = t.tag();
            if g != &tag[..] {
                return Some(format!("tag name {:?}", lossy(g)));
            }
            match (t.tagger(), tagger) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    if let Some(d) = sig_diff("tagger", &g, w) {
                        return Some(d);
                    }
                }
                (g, _) => return Some(format!("tagger {}", if g.is_some() { "invented" } else { "lost" })),
            }
            let m = t.message().map(|m| m.to_vec());
            if m != *message {
                return Some(format!("tag message {:?}, stored {:?}", m.map(|m| lossy(&m)), message.as_ref().map(|m| lossy(m))));
            }
            None
        }
        (_, Fields::Raw) => Some("bytes that are no git object were parsed as one".into()),
        (_, _) => Some(format!("object of another kind than the stored {}", want.kind.name())),
    }
}

// ---------------------------------------------------------------- verdicts

enum Res {
    Same,
    Differs(String),
    NotFound,
    Err(String),
    /// The error claims something that can't be true.
    Claims(String),
}

/// What an error of a lookup of the complete id of `want` says.
fn failed(e: &rusty_git::object::ReadObjectError, want: &Obj) -> Res {
    if format!("{:?}", e).is_empty() {
        return Res::Claims("has no description".into());
    }
    if e.id().to_string() != git::hex(&want.id) {
        return Res::Claims(format!("names {} as the id that was looked up: {}", e.id(), chain(e)));
    }
    if e.is_ambiguous() {
        return Res::Claims(format!("says that a complete id is ambiguous: {}", chain(e)));
    }
    if e.is_not_found() {
        return Res::NotFound;
    }
    Res::Err(chain(e))
}

fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

fn judge_read(n: usize, i: usize, res: Res, stream: bool) -> String {
    let kk = k();
    let op = kk.ops[n].clone();
    let hard = faulted(n);
    let flip = kk.model.flipped_procs.contains(&op.proc);
    match res {
        Res::Same => {
            kk.probe(R_READ_OK);
            let packed: Vec<(usize, bool)> = kk.model.in_packs[i].iter().filter(|&&p| kk.model.packs[p].idx).map(|&p| (kk.model.packs[p].depth, kk.model.packs[p].large)).collect();
            if packed.iter().any(|p| p.0 > 0) && kk.model.loose[i] == Copy::None {
                kk.probe(R_DELTA);
            }
            if packed.iter().any(|p| p.0 >= 10) && kk.model.loose[i] == Copy::None {
                kk.probe(R_DEEP);
            }
            if packed.iter().any(|p| p.1) && kk.model.loose[i] == Copy::None {
                kk.probe(R_LARGE_OFF);
            }
            if !op.present_all && kk.model.present[i] {
                kk.probe(R_PACK_MOVED);
            }
            if !hard && kk.procs[op.proc].last_hard > 0 {
                kk.probe(R_STRICT_AFTER_FAULT);
            }
            if !stream && op.long_all && !flip {
                anomaly(n, "WRONG_DATA", "accepted although the only stored copy has more content than the object".into());
            }
            "ok".into()
        }
        Res::Differs(d) => {
            if stream && (op.tainted_any || flip || hard) {
                // the byte stream of a damaged file is not verified before it is handed out
            } else {
                anomaly(n, "WRONG_DATA", d.clone());
            }
            format!("differs: {}", d)
        }
        Res::Claims(d) => {
            anomaly(n, "WRONG_CLAIM", format!("fails with an error that {}", d));
            format!("error: {}", d)
        }
        Res::NotFound => {
            kk.probe(R_READ_MISS);
            if flip {
                // an index read with flipped bits may hide an object
            } else if op.acked && !op.tainted_any {
                anomaly(n, "ACKED_LOST", "reported as not found although an earlier write of it was acknowledged".into());
            } else if op.present_all && !op.tainted_any {
                anomaly(n, "SPURIOUS_NOTFOUND", "reported as not found although it was stored all the time".into());
            } else if op.blind_all & !kk.procs[op.proc].consulted != 0 {
                anomaly(n, "NOTFOUND_BLIND", "reported as not found although a pack could not be consulted".into());
            } else if hard && op.present_all && !op.blind_any {
                // damaged copy present, tolerated
            }
            "not found".into()
        }
        Res::Err(e) => {
            kk.probe(R_READ_ERR);
            let moved = kk.model.pack_churn >= op.inv;
            if hard || flip || op.tainted_any {
            } else if op.acked && !op.present_all {
                anomaly(n, "ACKED_LOST", format!("cannot be read although an earlier write of it was acknowledged: {}", e));
            } else if op.present_all {
                anomaly(n, "SPURIOUS_ERR", format!("failed although it was stored all the time and no call failed: {}", e));
            } else if op.absent_all && !op.blind_any && !moved {
                anomaly(n, "WRONG_ERR_FOR_MISSING", format!("is not stored, but the lookup fails with: {}", e));
            } else if !op.absent_all && !op.blind_any && !moved {
                anomaly(n, "SPURIOUS_ERR", format!("failed although no call failed: {}", e));
            }
            format!("error: {}", e)
        }
    }
}

fn handle(slot: usize) -> Option<Arc<Repository>> {
    let kk = k();
    let p = kk.threads[kk.cur].proc;
    kk.procs[p].handles.get(slot).cloned().flatten()
}

fn obj_name(i: usize) -> String {
    let o = &k().model.objs[i];
    format!("#{} {}", i, &git::hex(&o.id)[..10])
}

fn pool(i: usize) -> &'static Obj {
    // the pool never changes while a run executes
    unsafe { &*(&k().model.objs[i] as *const Obj) }
}

fn do_parse(slot: usize, i: usize) {
    let Some(h) = handle(slot) else { return };
    let want = pool(i);
    let n = op_begin(format!("parse {}", obj_name(i)), OpOpts { target: Some(i), write_id: None, open_op: false });
    stale(n, slot);
    let id = Id::from_bytes(&want.id);
    let r = call(|| match h.object_database().parse_object(id) {
        Ok(o) => match diff(&o, want) {
            None => Res::Same,
            Some(d) => Res::Differs(d),
        },
        Err(e) => failed(&e, want),
    });
    match r {
        Ok(r) => {
            let raw = matches!(want.fields, Fields::Raw);
            let s = if raw && matches!(r, Res::Err(_)) { "error".into() } else { judge_read(n, i, r, false) };
            op_end(n, &s);
        }
        Err(m) => panicked(n, m),
    }
}

fn do_stream(slot: usize, i: usize, chunk: usize, hold: i128) {
    let Some(h) = handle(slot) else { return };
    let want = pool(i);
    let n = op_begin(format!("stream {} in {} byte reads", obj_name(i), chunk), OpOpts { target: Some(i), write_id: None, open_op: false });
    stale(n, slot);
    let id = Id::from_bytes(&want.id);
    let r = call(|| match h.object_database().read_object(id) {
        Ok(mut rd) => {
            let mut got: Vec<u8> = Vec::new();
            let mut buf = vec![0u8; chunk.max(1)];
            let rdr = rd.reader();
            let mut first = true;
            loop {
                match rdr.read(&mut buf) {
                    Ok(0) => break,
                    Ok(m) => {
                        got.extend_from_slice(&buf[..m]);
                        if got.len() > want.full.len() + (1 << 20) {
                            break;
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    Err(e) => return Res::Err(e.to_string()),
                }
                if first && hold != 0 {
                    sys::pause(hold.max(0));
                    first = false;
                }
            }
            if got == want.full {
                Res::Same
            } else {
                let at = got.iter().zip(&want.full).position(|(a, b)| a != b).unwrap_or(got.len().min(want.full.len()));
                Res::Differs(format!("stream of {} bytes differs from the stored {} bytes at {}", got.len(), want.full.len(), at))
            }
        }
        Err(e) => failed(&e, want),
    });
    if hold != 0 {
        k().probe(R_HELD_READER);
    }
    match r {
        Ok(r) => {
            let s = judge_read(n, i, r, true);
            op_end(n, &s);
        }
        Err(m) => panicked(n, m),
    }
}

fn do_keep(slot: usize, i: usize, part: Option<usize>) {
    let Some(h) = handle(slot) else { return };
    let want = pool(i);
    let n = op_begin(format!("keep {} {}", if part.is_some() { "reader of" } else { "parsed" }, obj_name(i)), OpOpts { target: Some(i), write_id: None, open_op: false });
    stale(n, slot);
    let id = Id::from_bytes(&want.id);
    k().ops[n].keeps = part.is_some();
    let r = call(|| {
        let db = h.object_database();
        match part {
            None => match db.parse_object(id) {
                Ok(o) => match diff(&o, want) {
                    None => (Res::Same, KeptVal::Obj(if i % 2 == 0 { o.clone() } else { o })),
                    Some(d) => (Res::Differs(d), KeptVal::Taken),
                },
                Err(e) => (failed(&e, want), KeptVal::Taken),
            },
            Some(part) => match db.read_object(id) {
                Ok(mut rd) => {
                    let mut rd: Box<ReadFn> = Box::new(move |b: &mut [u8]| rd.reader().read(b));
                    match read_on(&mut *rd, want, 0, part) {
                    Ok(got) => (Res::Same, KeptVal::Reader(rd, got)),
                    Err(r) => (r, KeptVal::Taken),
                    }
                }
                Err(e) => (failed(&e, want), KeptVal::Taken),
            },
        }
    });
    match r {
        Ok((r, val)) => {
            let s = judge_read(n, i, r, part.is_some());
            op_end(n, &s);
            let kk = k();
            if !matches!(val, KeptVal::Taken) {
                let p = kk.threads[kk.cur].proc;
                kk.procs[p].kept.push(Kept { obj: i, op: n, val });
            }
        }
        Err(m) => panicked(n, m),
    }
}

/// Read from position `at` of the object, at least `part` bytes or to the end. Returns the new position.
fn read_on(rd: &mut ReadFn, want: &Obj, at: usize, part: usize) -> Result<usize, Res> {
    let mut got = at;
    let mut buf = [0u8; 97];
    while got < at.saturating_add(part) {
        let m = (at.saturating_add(part) - got).min(buf.len());
        match rd(&mut buf[..m]) {
            Ok(0) if got == want.full.len() => break,
            Ok(0) => return Err(Res::Differs(format!("stream ends after {} of {} bytes", got, want.full.len()))),
            Ok(m) => {
                if want.full.get(got..got + m) != Some(&buf[..m]) {
                    return Err(Res::Differs(format!("stream differs from the stored bytes after {}", got)));
                }
                got += m;
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(Res::Err(e.to_string())),
        }
    }
    Ok(got)
}

fn do_recheck(which: usize) {
    let kk = k();
    let p = kk.threads[kk.cur].proc;
    let len = kk.procs[p].kept.len();
    if len == 0 {
        return;
    }
    let at = which % len;
    let (i, keeper) = (kk.procs[p].kept[at].obj, kk.procs[p].kept[at].op);
    let val = std::mem::replace(&mut kk.procs[p].kept[at].val, KeptVal::Taken);
    if matches!(val, KeptVal::Taken) {
        return;
    }
    let want = pool(i);
    let n = op_begin(format!("use kept result of {}", obj_name(i)), OpOpts { target: None, write_id: None, open_op: true });
    if !kk.model.some[i] {
        kk.probe(R_KEPT_GONE);
    }
    if kk.procs[p].handles.iter().all(|h| h.is_none()) {
        kk.probe(R_KEPT_CLOSED);
    }
    let reader = matches!(val, KeptVal::Reader(..));
    let r = call(|| match val {
        KeptVal::Obj(o) => {
            let d = diff(&o, want);
            (d.map_or(Res::Same, Res::Differs), KeptVal::Obj(o))
        }
        KeptVal::Reader(mut rd, got) => {
            let r = read_on(&mut *rd, want, got, usize::MAX);
            drop(rd);
            (r.err().unwrap_or(Res::Same), KeptVal::Taken)
        }
        KeptVal::Taken => (Res::Same, KeptVal::Taken),
    });
    match r {
        Ok((r, val)) => {
            let kk = k();
            let excused = faulted(n) || kk.model.flipped_procs.contains(&p) || kk.model.loose_dmg[i];
            let s = match r {
                Res::Same => "ok".to_string(),
                Res::Differs(d) => {
                    if !(reader && excused) {
                        anomaly(n, "RESULT_CHANGED", d.clone());
                    }
                    format!("differs: {}", d)
                }
                Res::Err(e) => {
                    if !excused {
                        anomaly(n, "RESULT_CHANGED", format!("a reader that was handed out fails although no call failed: {}", e));
                    }
                    format!("error: {}", e)
                }
                Res::NotFound => "not found".into(),
                Res::Claims(d) => d,
            };
            op_end(n, &s);
            let kk = k();
            if reader {
                if let Some(f) = kk.procs[p].fds.values().find(|f| f.op == keeper as u64 + 1 && !f.path.ends_with(b".pack")) {
                    let t = lossy(&f.path);
                    anomaly(n, "FD_LEAK", format!("closing a reader leaves a descriptor open on {}", t));
                }
            }
            kk.procs[p].kept[at].val = val;
        }
        Err(m) => panicked(n, m),
    }
}

fn do_write(slot: usize, i: usize) {
    let Some(h) = handle(slot) else { return };
    let want = pool(i);
    let n = op_begin(
        format!("write {} ({} bytes)", obj_name(i), want.full.len()),
        OpOpts { target: Some(i), write_id: Some(want.id), open_op: false },
    );
    let stored_before = k().model.present[i];
    let r = call(|| match h.object_database().write_object(&want.full) {
        Ok(id) => Ok(id.to_hex()),
        Err(e) => Err(chain(&e)),
    });
    let kk = k();
    let s = match r {
        Err(m) => return panicked(n, m),
        Ok(Ok(id)) => {
            kk.probe(R_WRITE_OK);
            if stored_before {
                kk.probe(R_EXISTS);
            }
            if id != git::hex(&want.id) {
                anomaly(n, "WRONG_ID", format!("returned {} for content with id {}", id, git::hex(&want.id)));
            }
            if !kk.model.present[i] && !kk.model.taint[i] {
                anomaly(n, "ACK_NOT_STORED", "reported success, but the object is not completely stored".into());
            }
            // age: the loose copy or a pack with it must be as new as this write
            let inv = kk.ops[n].inv_real;
            let fresh = |t: i128| t >= inv - 2 * SEC;
            let loose = model::lookup_loose(kk, i).map_or(false, |ino| fresh(kk.fs.inodes[ino].mtime));
            let packed = kk.model.in_packs[i].iter().any(|&p| {
                let path = [&kk.gitdir[..], b"/objects/pack/", &kk.model.packs[p].name, b".pack"].concat();
                kk.fs.lookup(&path).map_or(false, |ino| fresh(kk.fs.inodes[ino].mtime))
            });
            if !loose && !packed && !kk.ops[n].outdated {
                anomaly(n, "STALE_ACK", "reported success, but the stored object kept its old age and may be pruned".into());
            }
            kk.model.acked[i] = Some(inv);
            "ok".to_string()
        }
        Ok(Err(e)) => {
            kk.probe(R_WRITE_ERR);
            if !faulted(n) {
                anomaly(n, "WRITE_ERR", format!("failed although no call failed: {}", e));
            }
            format!("error: {}", e)
        }
    };
    if !kk.model.cleanup_failed.contains(&n) {
        let left = model::leftovers(kk, n);
        if !left.is_empty() {
            anomaly(n, "TEMP_LEAK", format!("leaves {} behind", lossy(&left[0])));
        }
    }
    op_end(n, &s);
}

// ---------------------------------------------------------------- references

#[derive(Clone, PartialEq, Debug)]
pub enum RefVal {
    Sym(Vec<u8>),
    Dir(String),
    Invalid,
}

/// What a reference file means, by git's rules for files git writes.
pub fn ref_value(v: &[u8]) -> RefVal {
    let mut e = v.len();
    while e > 0 && v[e - 1].is_ascii_whitespace() {
        e -= 1;
    }
    let v = &v[..e];
    if let Some(n) = v.strip_prefix(b"ref: ") {
        if n.is_empty() || n.contains(&b' ') || n.contains(&b'\n') {
            return RefVal::Invalid;
        }
        return RefVal::Sym(n.to_vec());
    }
    if v.len() == 40 && v.iter().all(|c| c.is_ascii_hexdigit()) {
        return RefVal::Dir(lossy(v).to_lowercase());
    }
    RefVal::Invalid
}

/// Names that leave the git directory or that no file system accepts are no references.
fn odd_name(name: &[u8]) -> bool {
    name.is_empty() || name.contains(&0) || name.len() > 900 || name.split(|&c| c == b'/').any(|c| c.len() > 255)
}

fn outside_name(name: &[u8]) -> bool {
    name.starts_with(b"/") || name.split(|&c| c == b'/').any(|c| c == b"..")
}

fn do_ref(slot: usize, name: &[u8], api: u8) {
    let Some(h) = handle(slot) else { return };
    let how = ["head", "reference", "parse_reference", "read_reference_file", "read_head"][api as usize];
    let n = op_begin(format!("{} {}", how, lossy(name)), OpOpts { target: None, write_id: None, open_op: false });
    enum Out {
        Ref(rusty_git::reference::Reference),
        Bytes(Vec<u8>),
        NotFound,
        Err(String),
    }
    fn conv(r: Result<rusty_git::reference::Reference, rusty_git::reference::Error>) -> Out {
        match r {
            Ok(r) => Out::Ref(r),
            Err(rusty_git::reference::Error::ReferenceNotFound) => Out::NotFound,
            Err(e) => Out::Err(chain(&e)),
        }
    }
    fn slurp(mut f: impl Read) -> Out {
        let mut v = Vec::new();
        match f.read_to_end(&mut v) {
            Ok(_) => Out::Bytes(v),
            Err(e) => Out::Err(e.to_string()),
        }
    }
    let out = call(|| {
        let d = h.reference_database();
        match api {
            0 => conv(d.head()),
            1 => conv(d.reference(name)),
            2 => conv(d.parse_reference(name)),
            3 => match d.read_reference_file(name) {
                Ok(f) => slurp(f),
                Err(e) => conv(Err(e)),
            },
            _ => match d.read_head() {
                Ok(f) => slurp(f),
                Err(e) => conv(Err(e)),
            },
        }
    });
    let out = match out {
        Ok(o) => o,
        Err(m) => return panicked(n, m),
    };
    let kk = k();
    let name: Vec<u8> = if api == 0 || api == 4 { b"HEAD".to_vec() } else { name.to_vec() };
    let (inv, now) = (kk.ops[n].inv, kk.ev);
    let clean: Vec<u8> = name.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").collect::<Vec<_>>().join(&b'/');
    let known = !outside_name(&name) && model::is_ref(&clean);
    let values: Vec<Option<Vec<u8>>> = if known && clean == name {
        kk.model.ref_values(&clean, inv, now).into_iter().map(|(_, v)| v).collect()
    } else {
        vec![None]
    };
    let skip = kk.model.ref_damage.contains(&clean) || kk.model.flipped_procs.contains(&kk.ops[n].proc) || (!known && !outside_name(&name)) || (known && clean != name);
    if values.len() > 1 {
        kk.probe(R_REF_CHANGED);
    }
    let hard = faulted(n);
    let result = match out {
        Out::Ref(r) => {
            let exp: Vec<RefVal> = values.iter().flatten().map(|v| ref_value(v)).collect();
            let e2 = exp.clone();
            let m = call(move || {
                let ok = e2.iter().any(|e| match e {
                    RefVal::Sym(s) => match Symbolic::from_bytes(s, None) {
                        Ok(w) => {
                            let named = match r.target() {
                                ReferenceTarget::Symbolic(x) => {
                                    let d: &[u8] = x.data();
                                    d == &s[..] && r.name() == std::str::from_utf8(s).ok()
                                }
                                _ => false,
                            };
                            named && *r.target() == ReferenceTarget::Symbolic(w)
                        }
                        Err(_) => false,
                    },
                    RefVal::Dir(d) => match Direct::from_bytes(d.as_bytes()) {
                        Ok(w) => *r.target() == ReferenceTarget::Direct(w) && r.name().is_none(),
                        Err(_) => false,
                    },
                    RefVal::Invalid => false,
                });
                (ok, format!("{:?}", r))
            });
            match m {
                Ok((ok, d)) => {
                    let invalid = exp.iter().any(|e| *e == RefVal::Invalid);
                    if !ok && !invalid && !skip {
                        anomaly(n, "REF_WRONG", format!("returned {}, but held {:?}", d, values.iter().map(|v| v.as_ref().map(|v| lossy(v))).collect::<Vec<_>>()));
                    }
                    kk.probe(R_REF_OK);
                    format!("ok {}", d)
                }
                Err(m) => return panicked(n, m),
            }
        }
        Out::Bytes(b) => {
            kk.probe(R_REF_OK);
            if !values.iter().any(|v| v.as_deref() == Some(&b[..])) && !skip {
                anomaly(n, "REF_WRONG", format!("returned the bytes {:?}, but held {:?}", lossy(&b), values.iter().map(|v| v.as_ref().map(|v| lossy(v))).collect::<Vec<_>>()));
            }
            format!("ok {} bytes", b.len())
        }
        Out::NotFound => {
            kk.probe(R_REF_MISS);
            if values.iter().all(|v| v.is_some()) && !skip {
                anomaly(n, "REF_SPURIOUS_NOTFOUND", "reported as not found although it existed all the time".into());
            }
            "not found".into()
        }
        Out::Err(e) => {
            kk.probe(R_REF_ERR);
            if hard || skip {
            } else if values.iter().all(|v| v.is_none()) {
                if !odd_name(&name) {
                    anomaly(n, "WRONG_ERR_FOR_MISSING", format!("does not exist, but the lookup fails with: {}", e));
                }
            } else if values.iter().flatten().all(|v| ref_value(v) != RefVal::Invalid) {
                anomaly(n, "REF_SPURIOUS_ERR", format!("failed although no call failed: {}", e));
            }
            format!("error: {}", e)
        }
    };
    op_end(n, &result);
}

fn do_list(slot: usize, what: u8) {
    let Some(h) = handle(slot) else { return };
    let label = ["all", "heads", "tags", "remotes"][what as usize];
    let n = op_begin(format!("list {}", label), OpOpts { target: None, write_id: None, open_op: false });
    let r = call(|| {
        let d = h.reference_database();
        match what {
            0 => d.reference_names(),
            1 => d.head_reference_names(),
            2 => d.tag_reference_names(),
            _ => d.remote_reference_names(),
        }
        .map_err(|e| chain(&e))
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => return panicked(n, m),
    };
    let kk = k();
    let (inv, now) = (kk.ops[n].inv, kk.ev);
    let prefixes: &[&[u8]] = match what {
        0 => &[b"refs/heads/", b"refs/tags/", b"refs/remotes/"],
        1 => &[b"refs/heads/"],
        2 => &[b"refs/tags/"],
        _ => &[b"refs/remotes/"],
    };
    let result = match r {
        Ok(names) => {
            kk.probe(R_LIST_OK);
            let mut seen = std::collections::BTreeSet::new();
            for nm in &names {
                if !seen.insert(nm.clone()) {
                    anomaly(n, "LIST_DUP", format!("{} is listed twice", lossy(nm)));
                }
            }
            let mut always = Vec::new();
            let mut ever = std::collections::BTreeSet::new();
            for name in kk.model.refs.keys() {
                if !prefixes.iter().any(|p| name.starts_with(p)) || name.ends_with(b".lock") {
                    continue;
                }
                let vals = kk.model.ref_values(name, inv, now);
                if kk.model.aliases.contains_key(name) {
                    // whether a link to a missing reference is listed is left open
                    ever.insert(name.clone());
                }
                if vals.iter().all(|(_, v)| v.is_some()) {
                    always.push(name.clone());
                }
                if vals.iter().any(|(_, v)| v.is_some()) {
                    ever.insert(name.clone());
                }
            }
            for a in &always {
                if !seen.contains(a) {
                    anomaly(n, "LIST_MISSING", format!("{} existed all the time but is not listed", lossy(a)));
                }
            }
            for s in &seen {
                if !ever.contains(s) {
                    anomaly(n, "LIST_EXTRA", format!("{} is listed but was no reference", lossy(s)));
                }
            }
            format!("ok {} names", names.len())
        }
        Err(e) => {
            kk.probe(R_LIST_ERR);
            if !faulted(n) {
                anomaly(n, "LIST_ERR", format!("failed although no call failed: {}", e));
            }
            format!("error: {}", e)
        }
    };
    call(move || drop(h)).ok();
    op_end(n, &result);
}

/// Everything a peel may legitimately end at: object ids, absence, or an endless chain.
fn peel_outcomes(start: &[u8], inv: u64, now: u64) -> (Vec<String>, bool, usize) {
    let kk = k();
    let mut objs = Vec::new();
    let mut fails = false;
    let mut todo: Vec<(Vec<u8>, u64, usize)> = vec![(start.to_vec(), inv, 0)];
    let mut seen = std::collections::HashSet::new();
    let mut deepest = 0;
    while let Some((name, from, depth)) = todo.pop() {
        if !seen.insert((name.clone(), from, depth)) || seen.len() > 5000 {
            continue;
        }
        deepest = deepest.max(depth);
        if depth > 12 {
            fails = true;
            continue;
        }
        for (ev, v) in kk.model.ref_values(&name, from, now) {
            match v.map(|v| ref_value(&v)) {
                None | Some(RefVal::Invalid) => fails = true,
                Some(RefVal::Dir(d)) => objs.push(d),
                Some(RefVal::Sym(s)) => {
                    if outside_name(&s) {
                        fails = true
                    } else {
                        todo.push((s, ev.max(from), depth + 1))
                    }
                }
            }
        }
    }
    objs.sort();
    objs.dedup();
    (objs, fails, deepest)
}

fn do_peel(slot: usize, name: &[u8], api: u8) {
    let Some(h) = handle(slot) else { return };
    let n = op_begin(format!("peel {}", lossy(name)), OpOpts { target: None, write_id: None, open_op: false });
    let _ = api;
    enum Out {
        Obj(String, Option<String>),
        Err(String),
    }
    let r = call(|| {
        let d = h.reference_database();
        let r = if name == b"HEAD" && api == 0 { d.head() } else { d.reference(name) };
        let o = match r {
            Ok(r) => match api {
                2 => match r.target() {
                    ReferenceTarget::Direct(x) => x.object(&h),
                    ReferenceTarget::Symbolic(x) => x.peel(&h),
                },
                1 => r.target().peel(&h),
                _ => r.peel(&h),
            },
            Err(e) => Err(e),
        };
        match o {
            Ok(o) => {
                let id = hx(o.id());
                let want = git::unhex(id.as_bytes()).and_then(|v| {
                    let mut i = [0; 20];
                    i.copy_from_slice(&v);
                    let m: &model::Model = &k().model;
                    m.by_id.get(&i).map(|&i| pool(i))
                });
                let d = match want {
                    Some(w) => diff(&o, w),
                    None => Some("an object nobody stored".into()),
                };
                Out::Obj(id, d)
            }
            Err(e) => Out::Err(chain(&e)),
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => return panicked(n, m),
    };
    let kk = k();
    let (objs, fails, deepest) = peel_outcomes(name, kk.ops[n].inv, kk.ev);
    let result = match r {
        Out::Obj(id, d) => {
            kk.probe(R_PEEL_OK);
            if let Some(d) = d {
                anomaly(n, "WRONG_DATA", d);
            }
            if !objs.contains(&id) {
                anomaly(n, "PEEL_WRONG", format!("returned {}, but the chain named {:?}", id, objs));
            }
            format!("ok {}", id)
        }
        Out::Err(e) => {
            kk.probe(R_PEEL_ERR);
            let all_there = objs.iter().all(|o| {
                let mut i = [0; 20];
                i.copy_from_slice(&git::unhex(o.as_bytes()).unwrap());
                kk.model.by_id.get(&i).map_or(false, |&i| kk.model.present[i] && !kk.model.taint[i] && kk.model.objs[i].fields_ok())
            });
            if !faulted(n) && !fails && all_there && deepest <= 5 {
                anomaly(n, "PEEL_ERR", format!("failed although every reference of the chain existed and no call failed: {}", e));
            }
            format!("error: {}", e)
        }
    };
    op_end(n, &result);
}

impl Obj {
    pub fn fields_ok(&self) -> bool {
        !matches!(self.fields, Fields::Raw)
    }
}

// ---------------------------------------------------------------- handles

fn do_open(slot: usize, path: &[u8]) {
    use std::os::unix::ffi::OsStrExt;
    let n = op_begin(format!("open {}", lossy(path)), OpOpts { target: None, write_id: None, open_op: true });
    let pb = std::path::Path::new(std::ffi::OsStr::from_bytes(path));
    let r = call(|| Repository::open(pb).map_err(|e| (matches!(e, OpenError::NotFound(_)), chain(&e))));
    let kk = k();
    let c = kk.cur;
    let p = kk.threads[c].proc;
    let res = match r {
        Err(m) => {
            kk.procs[p].open_failed = true;
            return panicked(n, m);
        }
        Ok(Ok(repo)) => {
            while kk.procs[p].handles.len() <= slot {
                kk.procs[p].handles.push(None);
            }
            while kk.procs[p].opened.len() <= slot {
                kk.procs[p].opened.push(0);
            }
            kk.procs[p].opened[slot] = kk.ops[n].inv;
            kk.procs[p].handles[slot] = Some(Arc::new(repo));
            "ok".to_string()
        }
        Ok(Err((nf, e))) => {
            if nf {
                anomaly(n, "OPEN_SPURIOUS_NOTFOUND", "an existing repository was reported as not found".into());
            } else if !faulted(n) {
                anomaly(n, "OPEN_ERR", format!("failed although no call failed: {}", e));
            }
            kk.procs[p].open_failed = true;
            format!("error: {}", e)
        }
    };
    op_end(n, &res);
}

fn do_open_bad(path: &[u8], exists: bool) {
    use std::os::unix::ffi::OsStrExt;
    let n = op_begin(format!("open {}", lossy(path)), OpOpts { target: None, write_id: None, open_op: true });
    let pb = std::path::Path::new(std::ffi::OsStr::from_bytes(path));
    let r = call(|| match Repository::open(pb) {
        Ok(r) => {
            drop(r);
            Ok(())
        }
        Err(e) => Err((matches!(e, OpenError::NotFound(_)), chain(&e))),
    });
    let r = match r {
        Err(m) => return panicked(n, m),
        Ok(r) => r,
    };
    let res = match r {
        Ok(()) => {
            if !exists {
                anomaly(n, "OPEN_WRONG", "opened although there is no repository".into());
            }
            "ok".to_string()
        }
        Err((true, _)) => {
            if exists {
                anomaly(n, "OPEN_SPURIOUS_NOTFOUND", "an existing repository was reported as not found".into());
            }
            "not found".into()
        }
        Err((false, e)) => {
            if !faulted(n) {
                if exists {
                    anomaly(n, "OPEN_ERR", format!("failed although no call failed: {}", e));
                } else {
                    anomaly(n, "WRONG_ERR_FOR_MISSING", format!("there is no repository, but opening fails with: {}", e));
                }
            }
            format!("error: {}", e)
        }
    };
    op_end(n, &res);
}

fn do_drop(slot: usize) {
    let kk = k();
    let p = kk.threads[kk.cur].proc;
    let Some(h) = kk.procs[p].handles.get_mut(slot).and_then(|h| h.take()) else { return };
    let n = op_begin(format!("close handle {}", slot), OpOpts { target: None, write_id: None, open_op: true });
    if let Err(m) = call(move || drop(h)) {
        return panicked(n, m);
    }
    op_end(n, "ok");
    let kk = k();
    if kk.procs[p].handles.iter().all(|h| h.is_none()) && !kk.running.iter().any(|&r| kk.ops[r].proc == p) {
        if let Some((_, f)) = kk.procs[p].fds.iter().find(|(_, f)| f.op == 0 || !kk.ops[f.op as usize - 1].keeps) {
            let t = lossy(&f.path);
            kk.anomaly("FD_LEAK", format!("closing the last handle leaves a descriptor open on {}", t));
        }
    }
}

// ---------------------------------------------------------------- other programs

fn gd(rel: &[u8]) -> Vec<u8> {
    [&k().gitdir[..], b"/", rel].concat()
}

const CWD: i32 = libc::AT_FDCWD;

fn put_file(path: &[u8], data: &[u8], chunks: usize) -> Result<(), i32> {
    let kk = k();
    let mode = if path.ends_with(b".lock") { 0o644 } else { 0o444 };
    let fd = kk.sys_open(CWD, path, libc::O_CREAT | libc::O_EXCL | libc::O_WRONLY, mode)? as i32;
    let mut off = 0;
    let step = data.len() / chunks.max(1) + 1;
    while off < data.len() {
        let e = (off + step).min(data.len());
        match kk.sys_write(fd, &data[off..e], None) {
            Ok(n) => off += n as usize,
            Err(e) => {
                let _ = kk.sys_close(fd);
                let _ = kk.sys_unlink(CWD, path);
                return Err(e);
            }
        }
    }
    kk.sys_close(fd)?;
    Ok(())
}

fn ext_salt() -> u64 {
    let kk = k();
    let t = &kk.threads[kk.cur];
    h4(kk.seed, 0xe87, ((kk.cur as u64) << 32) | t.op as u64, 5)
}

fn git_write(i: usize, link: bool) -> Result<(), i32> {
    let kk = k();
    let o = pool(i);
    let rel = model::loose_rel(&o.id);
    let dir = gd(&rel[..10]);
    match kk.sys_mkdir(CWD, &dir, 0o777) {
        Err(e) if e != libc::EEXIST => return Err(e),
        _ => {}
    }
    let s = ext_salt();
    let tmp = [&dir[..], format!("/tmp_obj_{:06x}", s & 0xffffff).as_bytes()].concat();
    let data = git::deflate(&o.full, 1 + (s % 9) as u32, None);
    put_file(&tmp, &data, 1 + (s as usize >> 8) % 3)?;
    let dst = gd(&rel);
    if link {
        let r = kk.sys_link(CWD, &tmp, CWD, &dst);
        kk.sys_unlink(CWD, &tmp)?;
        match r {
            Err(e) if e != libc::EEXIST => return Err(e),
            _ => {}
        }
    } else {
        kk.sys_rename(CWD, &tmp, CWD, &dst, false)?;
    }
    Ok(())
}

fn git_pack(p: usize) -> Result<(), i32> {
    let kk = k();
    let files = kk.pack_files[p].clone();
    let name = kk.model.packs[p].name.clone();
    let dir = gd(b"objects/pack");
    match kk.sys_mkdir(CWD, &dir, 0o777) {
        Err(e) if e != libc::EEXIST => return Err(e),
        _ => {}
    }
    let s = ext_salt();
    for (ext, data) in [("pack", &files.0), ("idx", &files.1)] {
        let tmp = [&dir[..], format!("/tmp_{}_{:06x}", ext, s & 0xffffff).as_bytes()].concat();
        put_file(&tmp, data, 1 + (s as usize >> 8) % 3)?;
        let dst = [&dir[..], b"/", &name, b".", ext.as_bytes()].concat();
        kk.sys_rename(CWD, &tmp, CWD, &dst, false)?;
    }
    Ok(())
}

/// May pack `p` go without losing the last copy of something?
fn redundant_pack(p: usize) -> bool {
    let kk = k();
    let m = &kk.model;
    m.packs[p].objs.iter().all(|&o| m.loose[o] == Copy::Good || m.in_packs[o].iter().any(|&q| q != p && m.packs[q].idx && m.packs[q].pack && !m.packs[q].bad))
}

fn drop_pack(p: usize, idx_first: bool) -> Result<(), i32> {
    let kk = k();
    let base = [&gd(b"objects/pack/")[..], &kk.model.packs[p].name].concat();
    let exts: [&[u8]; 2] = if idx_first { [b".idx", b".pack"] } else { [b".pack", b".idx"] };
    for (j, e) in exts.iter().enumerate() {
        kk.event("unlink", p as u64);
        // the decision and the deletion are one atomic step of a careful repack
        if j == 0 && !redundant_pack(p) {
            kk.log(|| "pack is not redundant, kept".into());
            return Ok(());
        }
        let path = [&base[..], e].concat();
        unlink_now(&path);
    }
    Ok(())
}

fn unlink_now(path: &[u8]) {
    let kk = k();
    if let Ok(Walk::Found { parent, name, ino }) = kk.fs.walk(0, path, false) {
        if kk.fs.is_dir(ino) {
            return;
        }
        let now = kk.real();
        kk.fs.remove_link(parent, &name, now).unwrap();
        kk.mutate(model::Mut::Unlink { dir: parent, name, ino, what: "unlink" });
        kk.log(|| format!("unlink {}", lossy(path)));
    }
}

fn prune_packed(i: usize) {
    let kk = k();
    kk.event("unlink", i as u64);
    let m = &kk.model;
    if m.in_packs[i].iter().any(|&q| m.packs[q].idx && m.packs[q].pack && !m.packs[q].bad) {
        let path = gd(&model::loose_rel(&m.objs[i].id));
        unlink_now(&path);
    }
}

fn prune_age(i: usize, grace: i128) {
    let kk = k();
    kk.event("prune", i as u64);
    let Some(ino) = model::lookup_loose(kk, i) else { return };
    let age = kk.real() - kk.fs.inodes[ino].mtime;
    if age <= grace {
        kk.log(|| format!("prune keeps #{}", i));
        return;
    }
    let path = gd(&model::loose_rel(&kk.model.objs[i].id));
    if let Some(t) = kk.model.acked[i] {
        if kk.real() - t <= grace - 2 * SEC {
            kk.anomaly("PRUNED_ACKED", format!("{} was written successfully {} s ago and is pruned by age", obj_name(i), (kk.real() - t) / SEC));
        }
    }
    kk.model.acked[i] = None;
    for &r in &kk.running {
        if kk.ops[r].target == Some(i) {
            kk.ops[r].acked = false;
        }
    }
    unlink_now(&path);
    kk.probe(R_PRUNED);
}

fn prune_tmp(grace: i128) {
    let kk = k();
    kk.event("prune", 0);
    let now = kk.real();
    let root = gd(b"objects");
    let Some(o) = kk.fs.lookup(&root) else { return };
    let dirs: Vec<(Vec<u8>, usize)> = kk.fs.dir(o).map(|d| d.iter().map(|(n, &i)| (n.clone(), i)).collect()).unwrap_or_default();
    let mut old = Vec::new();
    for (dn, di) in dirs {
        if let Ok(d) = kk.fs.dir(di) {
            for (n, &i) in d {
                if n.starts_with(b"tmp_obj_") && now - kk.fs.inodes[i].mtime > grace {
                    old.push([&root[..], b"/", &dn, b"/", n].concat());
                }
            }
        }
    }
    for f in old {
        unlink_now(&f);
    }
}

fn forget_pack(p: usize, grace: i128) {
    let kk = k();
    kk.event("prune", p as u64);
    let base = [&gd(b"objects/pack/")[..], &kk.model.packs[p].name].concat();
    let path = [&base[..], b".pack"].concat();
    let Some(ino) = kk.fs.lookup(&path) else { return };
    if kk.real() - kk.fs.inodes[ino].mtime <= grace {
        kk.log(|| format!("pack {} is recent, kept", p));
        return;
    }
    for i in kk.model.packs[p].objs.clone() {
        let m = &kk.model;
        let elsewhere = m.loose[i] == Copy::Good || m.in_packs[i].iter().any(|&q| q != p && m.packs[q].idx && m.packs[q].pack && !m.packs[q].bad);
        if elsewhere {
            continue;
        }
        if let Some(t) = kk.model.acked[i] {
            if kk.real() - t <= grace - 2 * SEC {
                kk.anomaly("PRUNED_ACKED", format!("{} was written successfully {} s ago and is dropped with its old pack", obj_name(i), (kk.real() - t) / SEC));
            }
        }
        kk.model.acked[i] = None;
        for &r in &kk.running {
            if kk.ops[r].target == Some(i) {
                kk.ops[r].acked = false;
            }
        }
    }
    unlink_now(&[&base[..], b".idx"].concat());
    unlink_now(&path);
    kk.probe(R_PRUNED);
}

fn rm_empty_dir(i: usize) {
    let kk = k();
    let rel = model::loose_rel(&kk.model.objs[i].id);
    let _ = kk.sys_rmdir(CWD, &gd(&rel[..10]));
}

fn ref_set(name: &[u8], value: &[u8]) -> Result<(), i32> {
    let kk = k();
    let path = gd(name);
    let mut at = kk.gitdir.len() + 1;
    while let Some(n) = path[at..].iter().position(|&c| c == b'/') {
        at += n;
        match kk.sys_mkdir(CWD, &path[..at], 0o777) {
            Err(e) if e != libc::EEXIST => return Err(e),
            _ => {}
        }
        at += 1;
    }
    let lock = [&path[..], b".lock"].concat();
    put_file(&lock, value, 1 + ext_salt() as usize % 2)?;
    if let Err(e) = kk.sys_rename(CWD, &lock, CWD, &path, false) {
        let _ = kk.sys_unlink(CWD, &lock);
        // an empty directory in the way is removed, as git does
        if e == libc::EISDIR && kk.sys_rmdir(CWD, &path).is_ok() {
            put_file(&lock, value, 1)?;
            if kk.sys_rename(CWD, &lock, CWD, &path, false).is_err() {
                let _ = kk.sys_unlink(CWD, &lock);
            }
        }
        return Err(e);
    }
    Ok(())
}

fn ref_delete(name: &[u8]) -> Result<(), i32> {
    let kk = k();
    let path = gd(name);
    let lock = [&path[..], b".lock"].concat();
    let fd = kk.sys_open(CWD, &lock, libc::O_CREAT | libc::O_EXCL | libc::O_WRONLY, 0o644)? as i32;
    kk.sys_close(fd)?;
    let _ = kk.sys_unlink(CWD, &path);
    kk.sys_unlink(CWD, &lock)?;
    // empty directories below refs/heads and the like
    let mut p = path;
    for _ in 0..4 {
        let Some(cut) = p.iter().rposition(|&c| c == b'/') else { break };
        p.truncate(cut);
        let depth = p[kk.gitdir.len()..].iter().filter(|&&c| c == b'/').count();
        if depth <= 2 {
            break;
        }
        if kk.sys_rmdir(CWD, &p).is_err() {
            break;
        }
    }
    Ok(())
}

/// Change stored bytes. Returns the new content.
pub fn damaged(data: &[u8], how: &Damage, r: &mut Rng) -> Vec<u8> {
    let mut v = data.to_vec();
    match how {
        Damage::Flip(n) => {
            for _ in 0..*n {
                if !v.is_empty() {
                    let i = r.us(v.len());
                    v[i] ^= 1 << r.us(8);
                }
            }
        }
        Damage::Truncate => {
            let n = r.us(v.len().max(1));
            v.truncate(n);
        }
        Damage::Empty => v.clear(),
        Damage::Zero => {
            if !v.is_empty() {
                let a = r.us(v.len());
                let b = (a + 1 + r.us(64)).min(v.len());
                for x in &mut v[a..b] {
                    *x = 0;
                }
            }
        }
        Damage::Tail(t) => v.extend_from_slice(t),
        Damage::Splice(t) => {
            let a = r.us(v.len() + 1);
            let b = (a + t.len()).min(v.len());
            v.splice(a..b, t.iter().copied());
        }
        Damage::Set(t) => v = t.clone(),
        Damage::Remove | Damage::Swap(_) | Damage::Copy(_) => {}
    }
    v
}

fn set_content(path: &[u8], v: Vec<u8>) {
    let kk = k();
    let Some(ino) = kk.fs.lookup(path) else { return };
    if let Node::File(d) = &mut kk.fs.inodes[ino].node {
        kk.fs.used = kk.fs.used.saturating_sub(d.len()) + v.len() as u64;
        *d = Data::Small(v);
    }
    kk.mutate(model::Mut::Content { ino, what: "damage" });
}

fn note_damage(path: &[u8], unusable: bool) {
    let kk = k();
    let Some(rel) = path.strip_prefix(&kk.gitdir[..]).and_then(|p| p.strip_prefix(b"/")) else { return };
    match model::classify(rel) {
        Class::Pack(n, _) => {
            if let Some(&p) = kk.model.by_name.get(&n) {
                model::mark_pack(kk, p, |m| {
                    m.bad = true;
                    m.unusable |= unusable;
                });
            }
        }
        Class::Ref(n) => {
            kk.model.ref_damage.insert(n);
        }
        Class::Loose(id) => {
            if let Some(&i) = kk.model.by_id.get(&id) {
                model::mark_loose_dmg(kk, i);
            }
        }
        _ => {}
    }
}

pub fn do_damage(path: &[u8], how: &Damage, unusable: bool, salt: u64) {
    let kk = k();
    kk.probe(P_DAMAGE);
    match how {
        Damage::Remove => {
            if let Some(d) = kk.fs.file(path).cloned() {
                kk.backup.entry(path.to_vec()).or_insert((d, false));
            }
            note_damage(path, unusable);
            unlink_now(path);
        }
        Damage::Swap(other) => {
            let (a, b) = (kk.fs.file(path).cloned(), kk.fs.file(other).cloned());
            if let (Some(a), Some(b)) = (a, b) {
                kk.backup.entry(path.to_vec()).or_insert((a.clone(), true)).1 = true;
                kk.backup.entry(other.to_vec()).or_insert((b.clone(), true)).1 = true;
                note_damage(path, unusable);
                note_damage(other, unusable);
                set_content(path, b);
                set_content(other, a);
            }
        }
        _ => {
            let Some(d) = kk.fs.file(path).cloned() else { return };
            let mut r = Rng::new(salt);
            let v = match how {
                Damage::Copy(other) => match kk.fs.file(other).cloned() {
                    Some(o) => o,
                    None => return,
                },
                _ => damaged(&d, how, &mut r),
            };
            if v == d {
                return;
            }
            kk.backup.entry(path.to_vec()).or_insert((d, true)).1 = true;
            note_damage(path, unusable);
            set_content(path, v);
        }
    }
    kk.log(|| format!("damage {} {}", lossy(path), match how { Damage::Set(_) => "set".into(), Damage::Splice(_) => "splice".into(), h => format!("{:?}", h) }));
}

/// Every damaged file is replaced by an intact one, as a restore from a backup does it (new file, rename).
fn do_repair() {
    let kk = k();
    kk.probe(P_REPAIR);
    let now = kk.real();
    for (path, (data, changed)) in std::mem::take(&mut kk.backup) {
        let was = kk.fs.lookup(&path);
        let ino = kk.fs.put(&path, Data::Small(data), now);
        kk.fs.inodes[ino].mode = 0o444;
        let cut = path.iter().rposition(|&c| c == b'/').unwrap();
        let Some(dir) = kk.fs.lookup(&path[..cut]) else { continue };
        let rel = path.strip_prefix(&kk.gitdir[..]).and_then(|p| p.strip_prefix(b"/")).unwrap_or(b"").to_vec();
        kk.fs.inodes[dir].mode |= 0o020;
        let ev = kk.ev;
        match model::classify(&rel) {
            Class::Pack(n, _) => {
                if let Some(&p) = kk.model.by_name.get(&n) {
                    let m = &mut kk.model.packs[p];
                    m.bad = false;
                    m.unusable = false;
                    if changed {
                        m.repaired = ev;
                    }
                }
            }
            Class::Loose(id) => {
                if let Some(&i) = kk.model.by_id.get(&id) {
                    kk.model.loose_dmg[i] = false;
                }
            }
            _ => {}
        }
        kk.mutate(model::Mut::Link { dir, name: path[cut + 1..].to_vec(), ino, replaced: was, what: "repair" });
        kk.log(|| format!("repair {}", lossy(&path)));
    }
}

/// A handle that was open before a changed pack was replaced may still read the old one.
fn stale(n: usize, slot: usize) {
    let kk = k();
    let p = kk.ops[n].proc;
    let opened = kk.procs[p].opened.get(slot).copied().unwrap_or(0);
    let (mut any, mut taint) = (false, false);
    for (q, m) in kk.model.packs.iter().enumerate() {
        if m.repaired > opened {
            any = true;
            taint |= kk.ops[n].target.map_or(false, |i| kk.model.in_packs[i].contains(&q));
        }
    }
    let op = &mut kk.ops[n];
    if any {
        op.blind_any = true;
        op.blind_all = 0;
        op.tainted_any |= taint;
    }
}

fn mark_fault(path: &[u8], v: bool) {
    let kk = k();
    let Some(rel) = path.strip_prefix(&kk.gitdir[..]).and_then(|p| p.strip_prefix(b"/")) else { return };
    match model::classify(rel) {
        Class::Pack(n, _) => {
            if let Some(&p) = kk.model.by_name.get(&n) {
                model::mark_pack(kk, p, |m| m.faulty = v);
            }
        }
        Class::Loose(id) => {
            if let Some(&i) = kk.model.by_id.get(&id) {
                model::mark_loose_fault(kk, i, v);
            }
        }
        Class::Ref(n) => {
            if v {
                kk.model.ref_damage.insert(n);
            } else {
                kk.model.ref_damage.remove(&n);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- steps

pub fn exec(s: &Step) {
    let kk = k();
    let c = kk.cur;
    match s {
        Step::Open { slot, path } => do_open(*slot, path),
        Step::WaitOpen { slot } => {
            let p = kk.threads[c].proc;
            while kk.procs[p].handles.len() <= *slot {
                kk.procs[p].handles.push(None);
            }
            kk.threads[c].state = St::WaitHandle(p, *slot);
            kk.block();
        }
        Step::Drop { slot } => do_drop(*slot),
        Step::Join => {
            kk.threads[c].state = St::WaitPeers;
            kk.block();
        }
        Step::Barrier => {
            let ph = kk.phase;
            kk.threads[c].state = St::Barrier(ph);
            kk.block();
        }
        Step::WaitProc(p) => {
            kk.threads[c].state = St::WaitProc(*p);
            kk.block();
        }
        Step::Sleep(ns) => kk.sleep(*ns),
        Step::Write { slot, obj } => do_write(*slot, *obj),
        Step::Parse { slot, obj } => do_parse(*slot, *obj),
        Step::Keep { slot, obj, part } => do_keep(*slot, *obj, *part),
        Step::Recheck { n } => do_recheck(*n),
        Step::PruneTmp { grace } => prune_tmp(*grace),
        Step::Stream { slot, obj, chunk, hold } => do_stream(*slot, *obj, *chunk, *hold),
        Step::RefRead { slot, name, api } => do_ref(*slot, name, *api),
        Step::List { slot, what } => do_list(*slot, *what),
        Step::Peel { slot, name, api } => do_peel(*slot, name, *api),
        Step::OpenBad { path, exists } => do_open_bad(path, *exists),
        Step::VerifyAcked { slot } => {
            for i in 0..kk.model.objs.len() {
                if kk.model.acked[i].is_some() {
                    do_stream(*slot, i, 64, 0);
                    if k().model.objs[i].fields_ok() {
                        do_parse(*slot, i);
                    }
                }
            }
        }
        Step::VerifyAll { slot } => {
            for i in 0..kk.model.objs.len() {
                do_stream(*slot, i, 700, 0);
                if k().model.objs[i].fields_ok() {
                    do_parse(*slot, i);
                }
            }
        }
        Step::MemBase => {
            kk.mem_base = LIVE_LIB.load(Relaxed);
            kk.mem_mid = kk.mem_base;
        }
        Step::MemMid => kk.mem_mid = LIVE_LIB.load(Relaxed),
        Step::MemCheck { slack } => {
            let now = LIVE_LIB.load(Relaxed);
            let (base, mid) = (kk.mem_base, kk.mem_mid);
            // what is made once, when first needed, is no growth
            let steady = mid > base + 256 && now > mid + 256;
            kk.log(|| format!("library memory {} -> {} -> {}", base, mid, now));
            if now > base + slack && steady {
                kk.anomaly("MEM_GROWTH", format!("library memory grew from {} to {} bytes over repeated operations", base, now));
            }
        }
        Step::GitWrite { obj, link } => {
            let r = git_write(*obj, *link);
            note(r)
        }
        Step::GitPack { pack } => {
            let r = git_pack(*pack);
            note(r)
        }
        Step::DropPack { pack, idx_first } => {
            let r = drop_pack(*pack, *idx_first);
            note(r)
        }
        Step::ForgetPack { pack, grace } => forget_pack(*pack, *grace),
        Step::PrunePacked { obj } => prune_packed(*obj),
        Step::PruneAge { obj, grace } => prune_age(*obj, *grace),
        Step::RmEmptyDir { obj } => rm_empty_dir(*obj),
        Step::RefSet { name, value } => {
            let r = ref_set(name, value);
            note(r)
        }
        Step::RefDelete { name } => {
            let r = ref_delete(name);
            note(r)
        }
        Step::Damage { path, how, unusable, salt } => {
            kk.event("damage", 0);
            do_damage(path, how, *unusable, *salt);
        }
        Step::Repair => {
            kk.event("repair", 0);
            do_repair();
        }
        Step::FaultOn { path, sites, errno, prefix } => {
            kk.event("fault-on", 0);
            kk.pfaults.push(PFault { path: path.clone(), prefix: *prefix, sites: *sites, errno: *errno });
            mark_fault(path, true);
        }
        Step::FaultOff => {
            kk.event("fault-off", 0);
            let l = std::mem::take(&mut kk.pfaults);
            for f in l {
                mark_fault(&f.path, false);
            }
        }
        Step::Jump(ns) => {
            kk.event("jump", 0);
            kk.real_off += ns;
        }
        Step::Touch { path } => {
            kk.event("touch", 0);
            if let Some(i) = kk.fs.lookup(path) {
                kk.fs.inodes[i].mtime = kk.real();
            }
        }
    }
}

fn note(r: Result<(), i32>) {
    if let Err(e) = r {
        k().log(|| format!("gives up: {}", errno_name(e)));
    }
}
