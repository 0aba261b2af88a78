//! What must be true of the repository at every instant: which objects are stored where, what every reference held
//! when, and what each running operation may and may not change. Updated at every change of the simulated disk.

use crate::fs::{Ino, Node, Walk};
use crate::git::{self, Obj, Oid};
use crate::sim::{Kernel, SEC};
use std::collections::{BTreeMap, HashMap, HashSet};

pub enum Mut {
    Content { ino: Ino, what: &'static str },
    Link { dir: Ino, name: Vec<u8>, ino: Ino, replaced: Option<Ino>, what: &'static str },
    Unlink { dir: Ino, name: Vec<u8>, ino: Ino, what: &'static str },
    Meta { ino: Ino, what: &'static str },
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Copy {
    None,
    Good,
    Bad,
}

#[derive(Clone, Debug)]
pub struct MPack {
    pub name: Vec<u8>,
    pub objs: Vec<usize>,
    pub idx: bool,
    pub pack: bool,
    /// Bytes of the pack or its index were changed.
    pub bad: bool,
    /// ... so that the pack cannot be consulted at all.
    pub unusable: bool,
    /// Reads of the index or pack fail for now.
    pub faulty: bool,
    pub depth: usize,
    pub large: bool,
    /// The pack or its index was removed; a process may still hold it.
    pub gone: bool,
    /// Event at which changed bytes were replaced by the right ones.
    pub repaired: u64,
}

impl MPack {
    fn usable(&self) -> bool {
        self.idx && self.pack && !self.bad && !self.faulty
    }
    fn blind(&self) -> bool {
        self.idx && (!self.pack || self.unusable || self.faulty)
    }
    fn maybe_blind(&self) -> bool {
        self.idx && (!self.pack || self.bad || self.faulty)
    }
}

#[derive(Default)]
pub struct Model {
    pub objs: Vec<Obj>,
    pub by_id: HashMap<Oid, usize>,
    pub loose: Vec<Copy>,
    pub loose_fault: Vec<bool>,
    /// Files that are, or were, the loose copy of an object (git may leave a second name of one behind).
    pub was_loose: BTreeMap<Ino, Oid>,
    /// The stored bytes of the loose copy were damaged from outside.
    pub loose_dmg: Vec<bool>,
    /// The loose copy decompresses to more bytes than the object has.
    pub loose_long: Vec<bool>,
    pub packs: Vec<MPack>,
    pub by_name: HashMap<Vec<u8>, usize>,
    pub in_packs: Vec<Vec<usize>>,
    pub present: Vec<bool>,
    pub some: Vec<bool>,
    pub taint: Vec<bool>,
    /// Packs (by bit) that cannot be consulted now.
    pub blind: u128,
    /// Some pack may fail to answer lookups now.
    pub blind_any: bool,
    /// Event of the last removal of a pack file.
    pub pack_churn: u64,
    pub refs: BTreeMap<Vec<u8>, Vec<(u64, Option<Vec<u8>>)>>,
    /// References that are symbolic links to other references.
    pub aliases: BTreeMap<Vec<u8>, Vec<u8>>,
    /// Wall clock at the invocation of the last acknowledged write.
    pub acked: Vec<Option<i128>>,
    pub flipped_procs: HashSet<usize>,
    pub cleanup_failed: HashSet<usize>,
    /// References whose stored bytes were damaged.
    pub ref_damage: HashSet<Vec<u8>>,
}

pub enum Class {
    Loose(Oid),
    Pack(Vec<u8>, bool),
    Ref(Vec<u8>),
    Other,
}

/// HEAD, ORIG_HEAD and the like, and everything below refs/.
pub fn is_ref(rel: &[u8]) -> bool {
    rel.starts_with(b"refs/") || (rel.ends_with(b"HEAD") && rel.iter().all(|&c| c.is_ascii_uppercase() || c == b'_'))
}

pub fn classify(rel: &[u8]) -> Class {
    if is_ref(rel) {
        return Class::Ref(rel.to_vec());
    }
    if let Some(o) = rel.strip_prefix(b"objects/") {
        if o.len() == 41 && o[2] == b'/' {
            let h: Vec<u8> = o.iter().copied().filter(|&c| c != b'/').collect();
            if h.len() == 40 && !h.iter().any(|c| c.is_ascii_uppercase()) {
                if let Some(v) = git::unhex(&h) {
                    let mut id = [0; 20];
                    id.copy_from_slice(&v);
                    return Class::Loose(id);
                }
            }
        }
        if let Some(p) = o.strip_prefix(b"pack/") {
            if let Some(n) = p.strip_suffix(b".idx") {
                return Class::Pack(n.to_vec(), true);
            }
            if let Some(n) = p.strip_suffix(b".pack") {
                return Class::Pack(n.to_vec(), false);
            }
        }
    }
    Class::Other
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

impl Model {
    pub fn add_obj(&mut self, o: Obj) -> usize {
        if let Some(&i) = self.by_id.get(&o.id) {
            return i;
        }
        let i = self.objs.len();
        self.by_id.insert(o.id, i);
        self.objs.push(o);
        self.loose.push(Copy::None);
        self.loose_fault.push(false);
        self.loose_dmg.push(false);
        self.loose_long.push(false);
        self.in_packs.push(Vec::new());
        self.present.push(false);
        self.some.push(false);
        self.taint.push(false);
        self.acked.push(None);
        i
    }

    /// Announce a pack (its files may come later).
    pub fn add_pack(&mut self, p: &git::Pack) -> usize {
        let name = p.name.clone().into_bytes();
        if let Some(&i) = self.by_name.get(&name) {
            return i;
        }
        let n = self.packs.len();
        let objs: Vec<usize> = p.ids.iter().map(|i| self.by_id[i]).collect();
        for &o in &objs {
            self.in_packs[o].push(n);
        }
        self.by_name.insert(name.clone(), n);
        self.packs.push(MPack {
            name,
            objs,
            idx: false,
            pack: false,
            bad: false,
            unusable: false,
            faulty: false,
            depth: p.depth,
            large: p.segs.is_some(),
            gone: false,
            repaired: 0,
        });
        n
    }

    /// The only copy of the object is a loose file with more content than the object has.
    pub fn only_long(&self, i: usize) -> bool {
        self.loose_long[i] && !self.in_packs[i].iter().any(|&p| self.packs[p].idx || self.packs[p].pack || self.packs[p].gone)
    }

    fn derive(&mut self, i: usize) -> bool {
        let lg = self.loose[i] == Copy::Good && !self.loose_fault[i];
        let pg = self.in_packs[i].iter().any(|&p| self.packs[p].usable());
        let some = self.loose[i] != Copy::None || self.in_packs[i].iter().any(|&p| self.packs[p].idx || self.packs[p].pack);
        let taint = self.loose_dmg[i]
            || self.loose_fault[i]
            || self.in_packs[i].iter().any(|&p| self.packs[p].bad || self.packs[p].faulty || (self.packs[p].idx && !self.packs[p].pack));
        let ch = (self.present[i], self.some[i], self.taint[i]) != (lg || pg, some, taint);
        self.present[i] = lg || pg;
        self.some[i] = some;
        self.taint[i] = taint;
        ch
    }

    /// Value of a reference file at event `ev`.
    pub fn ref_at(&self, name: &[u8], ev: u64) -> Option<&Vec<u8>> {
        let name = self.aliases.get(name).map_or(name, |t| t);
        let t = self.refs.get(name)?;
        t.iter().rev().find(|(e, _)| *e <= ev).and_then(|(_, v)| v.as_ref())
    }

    /// Every value (or absence) of a reference file between two events, with the event from which it held.
    pub fn ref_values(&self, name: &[u8], from: u64, to: u64) -> Vec<(u64, Option<Vec<u8>>)> {
        let name = self.aliases.get(name).map_or(name, |t| t);
        let mut out = vec![(from, self.ref_at(name, from).cloned())];
        if let Some(t) = self.refs.get(name) {
            for (e, v) in t {
                if *e > from && *e <= to {
                    out.push((*e, v.clone()));
                }
            }
        }
        out
    }
}

/// Objects change state: tell the running operations.
pub fn refresh(k: &mut Kernel, objs: &[usize]) {
    for &i in objs {
        if !k.model.only_long(i) {
            for &r in &k.running {
                if k.ops[r].target == Some(i) {
                    k.ops[r].long_all = false;
                }
            }
        }
        if k.model.derive(i) {
            let (p, s, t) = (k.model.present[i], k.model.some[i], k.model.taint[i]);
            for &r in &k.running {
                let op = &mut k.ops[r];
                if op.target == Some(i) {
                    op.present_all &= p;
                    op.absent_all &= !s;
                    op.tainted_any |= t;
                }
            }
        }
    }
    let (mut blind, mut any) = (0, false);
    for (n, p) in k.model.packs.iter().enumerate() {
        if p.blind() && n < 128 {
            blind |= 1u128 << n;
        }
        any |= p.maybe_blind();
    }
    k.model.blind = blind;
    k.model.blind_any = any;
    for &r in &k.running {
        let op = &mut k.ops[r];
        op.blind_any |= any;
        op.blind_all &= blind;
    }
}

/// A path below the git directory, relative to it.
fn rel(k: &Kernel, path: &[u8]) -> Option<Vec<u8>> {
    path.strip_prefix(&k.gitdir[..]).and_then(|p| p.strip_prefix(b"/")).map(|p| p.to_vec())
}

/// Look at the current state of one path and bring the model in line with it.
fn sync_path(k: &mut Kernel, r: &[u8], by_lib: Option<usize>) {
    match classify(r) {
        Class::Loose(id) => {
            let full = [&k.gitdir[..], b"/", r].concat();
            let there = k.fs.lookup(&full);
            if let Some(ino) = there {
                k.model.was_loose.insert(ino, id);
            }
            let state = match there {
                None => Copy::None,
                Some(i) => match k.fs.content(i) {
                    Some(c) if git::loose_complete(c, &id) => Copy::Good,
                    _ => Copy::Bad,
                },
            };
            if state == Copy::Bad {
                if let Some(op) = by_lib {
                    let what = k.ops[op].what.clone();
                    k.anomaly("TORN_VISIBLE", format!("{}: {} is visible under its id while incomplete", what, git::hex(&id)));
                }
            }
            if let Some(&i) = k.model.by_id.get(&id) {
                let was = k.model.present[i];
                k.model.loose[i] = state;
                k.model.loose_long[i] = state == Copy::Bad && {
                    let want = k.model.objs[i].full.len();
                    k.fs.lookup(&full).and_then(|n| k.fs.content(n)).and_then(|c| git::inflate(c, 1 << 26)).map_or(false, |(raw, _)| raw.len() > want)
                };
                refresh(k, &[i]);
                if was && !k.model.present[i] {
                    if let Some(op) = by_lib {
                        let what = k.ops[op].what.clone();
                        k.anomaly("WRITE_MUTATES", format!("{}: removes or damages the stored object {}", what, git::hex(&id)));
                    }
                }
            }
        }
        Class::Pack(name, is_idx) => {
            let full = [&k.gitdir[..], b"/", r].concat();
            let there = k.fs.lookup(&full).is_some();
            if let Some(&p) = k.model.by_name.get(&name) {
                let m = &mut k.model.packs[p];
                let was = if is_idx { m.idx } else { m.pack };
                if is_idx {
                    m.idx = there;
                } else {
                    m.pack = there;
                }
                if was && !there {
                    k.model.packs[p].gone = true;
                    k.model.pack_churn = k.ev;
                }
                let objs = k.model.packs[p].objs.clone();
                refresh(k, &objs);
            }
        }
        Class::Ref(name) => {
            let full = [&k.gitdir[..], b"/", r].concat();
            let v = k.fs.lookup(&full).and_then(|i| k.fs.content(i)).cloned();
            let ev = k.ev;
            let t = k.model.refs.entry(name).or_default();
            if t.last().map_or(None, |(_, v)| v.as_ref()) != v.as_ref() {
                t.push((ev, v));
            }
        }
        Class::Other => {}
    }
}

/// Read the initial image.
pub fn init(k: &mut Kernel) {
    fn visit(k: &Kernel, ino: Ino, path: Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if let Node::Dir(d) = &k.fs.inodes[ino].node {
            for (n, &i) in d {
                let p = [&path[..], b"/", n].concat();
                visit(k, i, p, out);
            }
        } else {
            out.push(path);
        }
    }
    let Some(root) = k.fs.lookup(&k.gitdir.clone()) else { return };
    let mut all = Vec::new();
    visit(k, root, k.gitdir.clone(), &mut all);
    for p in all {
        if let Some(r) = rel(k, &p) {
            sync_path(k, &r, None);
        }
    }
    k.model.pack_churn = 0;
}

pub fn on_mutation(k: &mut Kernel, m: Mut) {
    let t = &k.threads[k.cur];
    let by_lib = if t.lib { t.rec } else { None };
    let (path, second): (Vec<u8>, Option<Ino>) = match &m {
        Mut::Content { ino, .. } | Mut::Meta { ino, .. } => (k.fs.path_of(*ino), None),
        Mut::Link { dir, name, ino, .. } => ([&k.fs.path_of(*dir)[..], b"/", name].concat(), Some(*ino)),
        Mut::Unlink { dir, name, .. } => ([&k.fs.path_of(*dir)[..], b"/", name].concat(), None),
    };
    let _ = second;
    let r = rel(k, &path);
    if let Some(op) = by_lib {
        allowed(k, op, &m, &path, r.as_deref());
    }
    if let Some(r) = r {
        if !matches!(m, Mut::Meta { .. }) {
            sync_path(k, &r, by_lib);
        }
        watch_age(k, by_lib);
    }
}

/// Several processes may renew an object at once: one that read the clock earlier may come last.
pub fn watch_age(k: &mut Kernel, by: Option<usize>) {
    for n in k.running.clone() {
        let i = match k.ops[n].target {
            Some(i) if k.ops[n].write => i,
            _ => continue,
        };
        if let Some(ino) = lookup_loose(k, i) {
            let fresh = k.fs.inodes[ino].mtime >= k.ops[n].inv_real - 2 * SEC;
            let op = &mut k.ops[n];
            op.outdated |= op.fresh && !fresh && by.is_some() && by != Some(n);
            op.fresh = fresh;
        }
    }
}

/// What may operation `op` change?
fn allowed(k: &mut Kernel, op: usize, m: &Mut, path: &[u8], rel: Option<&[u8]>) {
    let what = k.ops[op].what.clone();
    let desc = match m {
        Mut::Content { what, .. } | Mut::Link { what, .. } | Mut::Unlink { what, .. } | Mut::Meta { what, .. } => *what,
    };
    if !k.ops[op].write {
        k.anomaly("READ_MUTATES", format!("{}: {} {}", what, desc, lossy(path)));
        return;
    }
    if let Mut::Content { ino, .. } | Mut::Meta { ino, .. } = m {
        if k.fs.inodes[*ino].nlink == 0 {
            return; // deleted in the meantime
        }
    }
    let own = |k: &Kernel, ino: Ino| k.fs.inodes[ino].creator_op == op as u64 + 1;
    let target = k.ops[op].write_id;
    let is_target = |r: Option<&[u8]>| match (r.map(classify), target) {
        (Some(Class::Loose(id)), Some(t)) => id == t,
        _ => false,
    };
    let bad = match m {
        Mut::Content { ino, .. } => !own(k, *ino),
        Mut::Link { ino, replaced, what, .. } => {
            let r = rel.unwrap_or(b"");
            if *what == "mkdir" {
                // its own fan-out directory, or a temporary one inside the object store
                !r.starts_with(b"objects/")
            } else {
                let names_other = match rel.map(classify) {
                    Some(Class::Loose(id)) => Some(id) != target,
                    Some(Class::Ref(_)) | Some(Class::Pack(..)) => true,
                    Some(Class::Other) => !r.starts_with(b"objects/"),
                    None => true,
                };
                let rep = match replaced {
                    Some(o) => !own(k, *o) && !is_target(rel),
                    None => false,
                };
                !own(k, *ino) || names_other || rep
            }
        }
        Mut::Unlink { ino, .. } => !own(k, *ino),
        Mut::Meta { ino, .. } => {
            let pack_of_target = match rel.map(classify) {
                Some(Class::Pack(n, _)) => match (k.model.by_name.get(&n), target.and_then(|t| k.model.by_id.get(&t))) {
                    (Some(&p), Some(o)) => k.model.packs[p].objs.contains(o),
                    _ => false,
                },
                _ => false,
            };
            let copy_of_target = target.is_some() && k.model.was_loose.get(ino).copied() == target;
            !own(k, *ino) && !is_target(rel) && !copy_of_target && !pack_of_target
        }
    };
    if bad {
        k.anomaly("WRITE_MUTATES", format!("{}: {} {}", what, desc, lossy(path)));
    }
}

/// What a finished write left behind: files and directories it created that are neither its object nor its fan-out
/// directory.
pub fn leftovers(k: &Kernel, op: usize) -> Vec<Vec<u8>> {
    let target = k.ops[op].write_id;
    let mut out = Vec::new();
    for (i, n) in k.fs.inodes.iter().enumerate() {
        if n.creator_op != op as u64 + 1 || n.nlink == 0 {
            continue;
        }
        // every name of it
        for (d, x) in k.fs.inodes.iter().enumerate() {
            if let Node::Dir(e) = &x.node {
                if d != 0 && x.nlink == 0 {
                    continue;
                }
                for (name, &j) in e {
                    if j != i {
                        continue;
                    }
                    let p = [&k.fs.path_of(d)[..], b"/", name].concat();
                    let r = rel(k, &p).unwrap_or_default();
                    let ok = match classify(&r) {
                        Class::Loose(id) => Some(id) == target,
                        _ => match target {
                            Some(t) => k.fs.is_dir(i) && r == format!("objects/{}", &git::hex(&t)[..2]).into_bytes(),
                            None => false,
                        },
                    };
                    if !ok {
                        out.push(p);
                    }
                }
            }
        }
    }
    out
}

pub fn on_kill(_k: &mut Kernel, _p: usize) {}

pub fn on_phase(k: &mut Kernel) {
    let ph = k.phase;
    k.log(|| format!("phase {}", ph));
}

/// Mark a pack as damaged or unreadable (or not) and tell everyone.
pub fn mark_pack(k: &mut Kernel, p: usize, f: impl FnOnce(&mut MPack)) {
    f(&mut k.model.packs[p]);
    let objs = k.model.packs[p].objs.clone();
    refresh(k, &objs);
}

pub fn mark_loose_fault(k: &mut Kernel, i: usize, v: bool) {
    k.model.loose_fault[i] = v;
    refresh(k, &[i]);
}

pub fn mark_loose_dmg(k: &mut Kernel, i: usize) {
    k.model.loose_dmg[i] = true;
    refresh(k, &[i]);
}

pub fn lookup_loose(k: &Kernel, i: usize) -> Option<Ino> {
    let p = [&k.gitdir[..], b"/", &loose_rel(&k.model.objs[i].id)].concat();
    match k.fs.walk(0, &p, true) {
        Ok(Walk::Found { ino, .. }) => Some(ino),
        _ => None,
    }
}

pub fn loose_rel(id: &Oid) -> Vec<u8> {
    let h = git::hex(id);
    format!("objects/{}/{}", &h[..2], &h[2..]).into_bytes()
}

/// An index is opened: from now on this process may know what the pack holds, whatever happens to its files.
pub fn on_index_open(k: &mut Kernel, path: &[u8]) {
    let p = k.threads[k.cur].proc;
    if let Some(Class::Pack(n, true)) = rel(k, path).map(|r| classify(&r)) {
        if let Some(&m) = k.model.by_name.get(&n) {
            if m < 128 && !k.model.packs[m].blind() {
                k.procs[p].consulted |= 1 << m;
            }
        }
    }
}
