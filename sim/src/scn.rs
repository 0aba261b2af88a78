//! Scenarios: from a seed, a repository on the simulated disk, the processes and threads that use it and what they do,
//! and the rates of scheduling, timing and fault decisions. One family per property.

use crate::exec::{Damage, Step};
use crate::fs::{Data, Fs};
use crate::git::{self, Enc, Fields, Kind, Obj, Oid, PackOpts};
use crate::model::{self, Model};
use crate::rng::Rng;
use crate::sim::*;

pub const G: &[u8] = b"/w/repo/.git";
pub const WORK: &[u8] = b"/w/repo";
pub const NOW: i128 = 1_700_000_000 * SEC;
pub const DAY: i128 = 86_400 * SEC;

pub struct ThreadSpec {
    pub proc: usize,
    pub lib: bool,
    pub exempt: bool,
    pub name: String,
    pub steps: Vec<Step>,
}

pub struct ProcSpec {
    pub pid: i32,
    pub user: u8,
    pub fd_limit: usize,
}

pub struct Scn {
    pub cfg: Cfg,
    pub fs: Fs,
    pub model: Model,
    pub pack_files: Vec<(Vec<u8>, Vec<u8>)>,
    pub procs: Vec<ProcSpec>,
    pub threads: Vec<ThreadSpec>,
}

struct W {
    r: Rng,
    s: Scn,
    packs: Vec<git::Pack>,
    age_max: i128,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub quick: u64,
    pub flag: fn(&str) -> bool,
    gen: fn(&mut W),
    pub what: &'static str,
}

fn crashy(k: &str) -> bool {
    matches!(k, "PANIC" | "ABORT" | "HANG" | "DEADLOCK" | "MEMORY")
}
fn read_fail(k: &str) -> bool {
    crashy(k) || matches!(k, "WRONG_DATA" | "SPURIOUS_NOTFOUND" | "SPURIOUS_ERR")
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        title: "Acknowledged object writes stay readable",
        quick: 30_000,
        flag: |k| read_fail(k) || matches!(k, "WRONG_ID" | "ACK_NOT_STORED" | "ACKED_LOST"),
        gen: c01,
        what: "1-3 processes with 1-3 threads write and read a small pool of contents while git writes and packs some of them; write faults, full disks, short writes, kills; a later fault-free process reads every acknowledged object and writes again",
    },
    Prop {
        id: "C02",
        title: "Objects appear all at once or not at all",
        quick: 30_000,
        flag: |k| crashy(k) || matches!(k, "TORN_VISIBLE" | "WRITE_ERR" | "ACK_NOT_STORED" | "ACKED_LOST" | "WRONG_DATA" | "SPURIOUS_ERR" | "SPURIOUS_NOTFOUND"),
        gen: c02,
        what: "writers that fail or are killed at every kind of point, readers in other threads and processes watching the ids being written, process ids reused after a kill; the disk is inspected after every change; a later fault-free process writes the same contents again",
    },
    Prop {
        id: "C03",
        title: "Wrong data is never returned for an object id",
        quick: 30_000,
        flag: |k| k == "WRONG_DATA",
        gen: c03,
        what: "loose files, packs and indexes damaged before or while they are read (flips, truncation, zeroing, extension, splices, exchanged files, well-formed but different contents, exchanged index offsets), bit flips and errors in read data",
    },
    Prop {
        id: "C04",
        title: "Damaged repositories and failing I/O never crash or hang",
        quick: 30_000,
        flag: crashy,
        gen: c04,
        what: "structurally mutated objects, packs, indexes, deltas, HEAD and reference files (huge claimed sizes, delta loops, reference cycles, nonsense fields) and random damage, every operation, with failing calls",
    },
    Prop {
        id: "C05",
        title: "Objects read from packs equal the originals",
        quick: 16_000,
        flag: read_fail,
        gen: c05,
        what: "valid packs: offset and id deltas, deep chains, forward references, version 1 and 2 indexes, 64-bit offsets, packs beyond 4 GiB, several packs, loose duplicates; random read orders, chunk sizes, interruptions and short reads",
    },
    Prop {
        id: "C06",
        title: "Parsed objects report exactly the stored fields",
        quick: 16_000,
        flag: read_fail,
        gen: c06,
        what: "generated commits, trees, tags and blobs with unusual names, encodings, extra headers, many parents and entries; loose and packed; random chunking and interruption of the reads",
    },
    Prop {
        id: "C07",
        title: "Live objects stay findable while git repacks",
        quick: 24_000,
        flag: read_fail,
        gen: c07,
        what: "readers with fresh and long-open handles while other processes pack, repack, delete old packs and prune packed loose files step by step; clock jumps",
    },
    Prop {
        id: "C08",
        title: "Completed writes by others are visible at once",
        quick: 24_000,
        flag: read_fail,
        gen: c08,
        what: "handles that looked objects up (hits and misses) before and after other processes, threads and handles add them loose or in packs; small and large clock movements in both directions",
    },
    Prop {
        id: "C09",
        title: "Concurrent use of one handle behaves like sequential use",
        quick: 20_000,
        flag: |k| read_fail(k) || matches!(k, "WRONG_ID" | "ACK_NOT_STORED" | "ACKED_LOST" | "WRITE_ERR" | "REF_WRONG" | "REF_SPURIOUS_NOTFOUND" | "REF_SPURIOUS_ERR" | "WRONG_ERR_FOR_MISSING" | "LIST_MISSING" | "LIST_EXTRA" | "LIST_DUP" | "LIST_ERR"),
        gen: c09,
        what: "2-6 threads on one handle read packed and loose objects, write, and read and list references; preemption at system calls, lock operations and basic blocks of the library",
    },
    Prop {
        id: "C10",
        title: "Failures are not sticky",
        quick: 24_000,
        flag: |k| read_fail(k) || matches!(k, "WRITE_ERR" | "OPEN_ERR" | "ACK_NOT_STORED" | "ACKED_LOST" | "REF_WRONG" | "REF_SPURIOUS_NOTFOUND" | "REF_SPURIOUS_ERR" | "LIST_MISSING" | "LIST_EXTRA" | "LIST_DUP" | "LIST_ERR" | "PEEL_ERR" | "WRONG_ERR_FOR_MISSING"),
        gen: c10,
        what: "a phase with failing calls, descriptor exhaustion and unreadable files on one or more handles, then a fault-free phase on the same handles in which every operation is held to the strict result",
    },
    Prop {
        id: "C11",
        title: "Missing is reported only for what is missing",
        quick: 30_000,
        flag: |k| matches!(k, "WRONG_ERR_FOR_MISSING" | "WRONG_CLAIM" | "SPURIOUS_NOTFOUND" | "NOTFOUND_BLIND" | "REF_SPURIOUS_NOTFOUND" | "OPEN_SPURIOUS_NOTFOUND" | "OPEN_WRONG"),
        gen: c11,
        what: "lookups of existing and missing objects and references, opening of repositories and other directories, in repositories with missing or unusual directories, with failing calls",
    },
    Prop {
        id: "C12",
        title: "Reading a reference gives one whole current value",
        quick: 30_000,
        flag: |k| crashy(k) || matches!(k, "REF_WRONG" | "REF_SPURIOUS_NOTFOUND" | "REF_SPURIOUS_ERR"),
        gen: c12,
        what: "readers of HEAD and references while git creates, replaces and deletes them with lock files and renames; unusual valid values; short and failing reads",
    },
    Prop {
        id: "C13",
        title: "Listing references is complete and exact",
        quick: 24_000,
        flag: |k| crashy(k) || matches!(k, "LIST_MISSING" | "LIST_EXTRA" | "LIST_DUP" | "LIST_ERR"),
        gen: c13,
        what: "listings of nested references while other references are created, updated and deleted together with their directories and lock files; failing and partial directory reads, unknown entry types, missing directories",
    },
    Prop {
        id: "C14",
        title: "Peeling follows references to the current object",
        quick: 24_000,
        flag: |k| crashy(k) || matches!(k, "PEEL_WRONG" | "PEEL_ERR" | "WRONG_DATA"),
        gen: c14,
        what: "chains of symbolic references (also dangling and cyclic) peeled while references move and objects are repacked",
    },
    Prop {
        id: "C15",
        title: "Reading changes nothing, writing only adds",
        quick: 24_000,
        flag: |k| matches!(k, "READ_MUTATES" | "WRITE_MUTATES"),
        gen: c15,
        what: "all operations, with faults, damaged files, contention and kills; every change of the disk is attributed to the operation that made it and checked",
    },
    Prop {
        id: "C16",
        title: "Writing an existing object protects it from pruning",
        quick: 24_000,
        flag: |k| matches!(k, "PRUNED_ACKED" | "STALE_ACK" | "ACK_NOT_STORED" | "ACKED_LOST"),
        gen: c16,
        what: "writes of old stored objects while other processes prune by age, pack, and remove empty directories; failing age renewals",
    },
    Prop {
        id: "C17",
        title: "Every operation gives back what it took",
        quick: 8_000,
        flag: |k| matches!(k, "FD_LEAK" | "FD_MISUSE" | "TEMP_LEAK" | "MEM_GROWTH"),
        gen: c17,
        what: "every operation on every error path and in long repetition; descriptors, memory and left-over files are counted after each operation and after the handle is dropped",
    },
    Prop {
        id: "C18",
        title: "Damage is confined to the damaged file",
        quick: 24_000,
        flag: |k| read_fail(k) || matches!(k, "NOTFOUND_BLIND" | "OPEN_ERR" | "OPEN_SPURIOUS_NOTFOUND" | "WRITE_ERR" | "ACK_NOT_STORED" | "ACKED_LOST"),
        gen: c18,
        what: "one object file, pack or index damaged, removed, or persistently unreadable, before or while the repository is used; all other objects are held to the strict result, and everything is once the file was restored",
    },
    Prop {
        id: "C19",
        title: "Access stays inside the repository's git directory",
        quick: 24_000,
        flag: |k| k == "OUTSIDE",
        gen: c19,
        what: "hostile names passed to every operation that takes one, and stored in HEAD and reference files; every path handed to the operating system is resolved and checked",
    },
    Prop {
        id: "C21",
        title: "Maintenance by others never makes opening or writing fail",
        quick: 20_000,
        flag: |k| crashy(k) || matches!(k, "WRITE_ERR" | "ACK_NOT_STORED" | "OPEN_ERR" | "OPEN_SPURIOUS_NOTFOUND"),
        gen: c21,
        what: "writers and openers in several processes and threads while others write the same objects, pack, prune, remove empty directories, temporary files and packs and update references; left-over temporary files of killed processes, read-only objects, objects of other users; only interrupted and short calls, no failing ones",
    },
    Prop {
        id: "C22",
        title: "Results stay valid after they are returned",
        quick: 20_000,
        flag: |k| crashy(k) || matches!(k, "RESULT_CHANGED" | "WRONG_DATA"),
        gen: c22,
        what: "parsed objects and partly read readers are kept and used later, from any thread, while objects are repacked, pruned and forgotten, other operations run, and after the handle is closed",
    },
];

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn generate(p: &Prop, seed: u64) -> Scn {
    let mut r = Rng::new(seed ^ 0x7363656e);
    let cfg = base_cfg(&mut r);
    let mut w = W {
        r,
        s: Scn { cfg, fs: Fs::new(), model: Model::default(), pack_files: Vec::new(), procs: Vec::new(), threads: Vec::new() },
        packs: Vec::new(),
        age_max: 60 * DAY,
    };
    w.skeleton();
    (p.gen)(&mut w);
    if p.id != "C17" {
        w.more_handles();
    }
    w.more_users();
    w.finish()
}

fn base_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.switch_pm = *r.pick(&[30, 100, 300, 600]);
    c.pct = r.chance(25);
    if c.pct {
        let n = 1 + r.us(5);
        let span = *r.pick(&[100u64, 400, 1500]);
        c.pct_changes = (0..n).map(|_| 1 + r.below(span)).collect();
    }
    c.bb_mean = *r.pick(&[0, 0, 50, 400, 3000]);
    c.clock_step = *r.pick(&[0, 1_000, 1_000_000, 300_000_000]);
    c.dtype_unknown_pm = *r.pick(&[0, 0, 300, 1000]);
    c.short_max = *r.pick(&[1, 7, 100, 4096]);
    c.cpus = 1 + r.us(8) as i32;
    c.op_event_cap = 50_000;
    c.event_cap = 400_000;
    c.bb_cap = 30_000_000;
    c.mem_cap = 256 << 20;
    c.hard_sites = ALL_SITES;
    c.hard_phases = !0;
    c.soft_phases = !0;
    if r.chance(4) {
        // a machine whose clock was never set, or a long time from now
        c.real_shift = *r.pick(&[1_000 - 1_700_000_000, -1_700_000_000 - 5 * 86_400, 320_000_000, 1_300_000_000, 3_000_000_000]) * SEC;
    }
    c.crash_phases = !0;
    c.flip_phases = !0;
    c
}

fn gp(rel: &str) -> Vec<u8> {
    [G, b"/", rel.as_bytes()].concat()
}

#[derive(Clone, Copy)]
struct Style {
    v1: bool,
    delta_pct: u64,
    deep: bool,
    allow_ref: bool,
    off32: u64,
    v3: bool,
}

impl W {
    fn skeleton(&mut self) {
        let fs = &mut self.s.fs;
        for d in ["objects/info", "refs/heads", "refs/tags", "info", "hooks", "logs"] {
            fs.mkdirs(&gp(d));
        }
        fs.mkdirs(b"/tmp");
        fs.mkdirs(b"/w/outside");
        fs.mkdirs(b"/etc");
        fs.put(b"/etc/passwd", Data::Small(b"root:x:0:0:root:/root:/bin/bash\n".to_vec()), NOW);
        fs.put(b"/w/outside/secret", Data::Small(b"0123456789012345678901234567890123456789\n".to_vec()), NOW);
        fs.put_symlink(b"/w/alias", b"repo");
        fs.put_symlink(b"/w/tree/.git", b"../repo/.git");
        fs.put(b"/w/repo/README", Data::Small(b"hello\n".to_vec()), NOW);
        fs.put(&gp("config"), Data::Small(b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n".to_vec()), NOW);
        fs.put(&gp("description"), Data::Small(b"Unnamed repository\n".to_vec()), NOW);
        fs.put(&gp("HEAD"), Data::Small(b"ref: refs/heads/master\n".to_vec()), NOW);
        if self.r.chance(85) {
            fs.mkdirs(&gp("objects/pack"));
            if self.r.chance(30) {
                for f in ["tmp_pack_aZ93kd", "tmp_idx_9dkFj2", "multi-pack-index", "pack-0000000000000000000000000000000000000000.keep", ".tmp-1234-pack-11.pack"] {
                    if self.r.chance(50) {
                        let n = self.r.us(60);
                        let b = self.r.bytes(n);
                        fs.put(&gp(&format!("objects/pack/{}", f)), Data::Small(b), NOW - DAY);
                    }
                }
            }
        }
        if self.r.chance(20) {
            fs.put(&gp("objects/info/commit-graph"), Data::Small(self.r.bytes(40)), NOW);
            fs.put(&gp("objects/info/packs"), Data::Small(b"P pack-1234.pack\n\n".to_vec()), NOW);
        }
    }

    fn obj(&mut self, o: Obj) -> usize {
        self.s.model.add_obj(o)
    }
    fn ids(&self) -> Vec<Oid> {
        self.s.model.objs.iter().map(|o| o.id).collect()
    }
    fn blob(&mut self, max: usize) -> usize {
        let o = git::gen_blob(&mut self.r, max);
        self.obj(o)
    }
    fn small(&mut self) -> usize {
        let n = 9 + self.r.us(60);
        let b = self.r.bytes(n);
        self.obj(Obj::blob(b))
    }
    fn any(&mut self, max: usize) -> usize {
        let ids = self.ids();
        let o = match self.r.us(10) {
            0 | 1 => git::gen_commit(&mut self.r, &ids),
            2 | 3 => git::gen_tree(&mut self.r, &ids),
            4 => git::gen_tag(&mut self.r, &ids),
            _ => git::gen_blob(&mut self.r, max),
        };
        self.obj(o)
    }
    fn pool(&mut self, n: usize, max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).map(|_| self.any(max)).collect();
        if self.r.chance(4) {
            let o = git::gen_large(&mut self.r);
            v.push(self.obj(o));
        }
        v.sort();
        v.dedup();
        v
    }

    fn loose_path(&self, i: usize) -> Vec<u8> {
        [G, b"/", &model::loose_rel(&self.s.model.objs[i].id)[..]].concat()
    }
    fn loose_bytes(&mut self, i: usize) -> Vec<u8> {
        let level = *self.r.pick(&[0, 1, 6, 9]);
        let flush = if self.r.chance(10) { Some(self.r.us(64)) } else { None };
        git::deflate(&self.s.model.objs[i].full, level, flush)
    }
    fn put_loose(&mut self, i: usize) {
        let p = self.loose_path(i);
        let b = self.loose_bytes(i);
        let age = self.r.below(self.age_max as u64) as i128;
        let ino = self.s.fs.put(&p, Data::Small(b), NOW - age);
        self.s.fs.inodes[ino].mode = 0o444;
    }
    /// Some stored objects belong to other users of the repository.
    fn foreign(&mut self, pct: u64) {
        for f in object_files(self) {
            if self.r.chance(pct) {
                let i = self.s.fs.lookup(&f).unwrap();
                self.s.fs.inodes[i].foreign = true;
            }
        }
    }

    fn style(&mut self) -> Style {
        Style {
            v1: self.r.chance(25),
            delta_pct: *self.r.pick(&[0, 40, 80, 100]),
            deep: self.r.chance(30),
            allow_ref: self.r.chance(50),
            off32: if self.r.chance(25) { self.r.below(2000) } else { u64::MAX },
            v3: self.r.chance(10),
        }
    }
    fn opts(&self, st: &Style) -> PackOpts {
        PackOpts { idx_version: if st.v1 { 1 } else { 2 }, off32_limit: st.off32, pack_version: if st.v3 { 3 } else { 2 }, holes: Vec::new() }
    }
    /// Build a pack of these objects; its files do not exist yet.
    fn pack_with(&mut self, objs: &[usize], st: Style) -> usize {
        let mut order = Vec::new();
        for &i in objs {
            // a pack holds an object once, and only git objects
            if !order.contains(&i) && self.s.model.objs[i].packable() {
                order.push(i);
            }
        }
        let twice = !order.is_empty() && self.r.chance(3);
        if twice {
            // git reads packs in which some writer put an object more than once
            for _ in 0..1 + self.r.us(3) {
                let o = *self.r.pick(&order);
                order.push(o);
            }
        }
        self.r.shuffle(&mut order);
        let refs: Vec<&Obj> = order.iter().map(|&i| &self.s.model.objs[i]).collect();
        let encs = git::choose_encs(&refs, &mut self.r, st.delta_pct, st.deep, st.allow_ref && !twice);
        let opts = self.opts(&st);
        let p = git::build_pack(&refs, &encs, &mut self.r, &opts);
        self.add_pack(p)
    }
    fn add_pack(&mut self, mut p: git::Pack) -> usize {
        if self.r.chance(5) {
            // git takes any name before .idx
            let h = p.name[5..].to_string();
            p.name = match self.r.us(5) {
                0 => format!("imported-{}", h),
                1 => h,
                2 => format!("pack-{}.old", h),
                3 => format!("my pack {}", h),
                _ => format!("Pack{}", &h[..8]),
            };
        }
        let n = self.s.model.add_pack(&p);
        if n == self.packs.len() {
            self.s.pack_files.push((p.pack.clone(), p.idx.clone()));
            self.packs.push(p);
        }
        n
    }
    fn pack(&mut self, objs: &[usize]) -> usize {
        let st = self.style();
        self.pack_with(objs, st)
    }
    fn pack_path(&self, p: usize, ext: &str) -> Vec<u8> {
        gp(&format!("objects/pack/{}.{}", self.packs[p].name, ext))
    }
    fn install(&mut self, p: usize) {
        let age = self.r.below(self.age_max as u64) as i128;
        let (a, b) = (self.pack_path(p, "pack"), self.pack_path(p, "idx"));
        let data = match &self.packs[p].segs {
            Some((len, segs)) => Data::Sparse { len: *len, segs: segs.clone() },
            None => Data::Small(self.packs[p].pack.clone()),
        };
        let i = self.s.fs.put(&a, data, NOW - age);
        let j = self.s.fs.put(&b, Data::Small(self.packs[p].idx.clone()), NOW - age);
        self.s.fs.inodes[i].mode = 0o444;
        self.s.fs.inodes[j].mode = 0o444;
        if self.r.chance(3) {
            // git leaves such a pack behind when there was nothing to fetch
            let v = if self.r.chance(70) { 2 } else { 1 };
            let opts = PackOpts { idx_version: v, off32_limit: u64::MAX, pack_version: 2, holes: Vec::new() };
            let e = git::build_pack(&[], &[], &mut self.r, &opts);
            self.s.fs.put(&gp(&format!("objects/pack/{}.pack", e.name)), Data::Small(e.pack), NOW - age);
            self.s.fs.put(&gp(&format!("objects/pack/{}.idx", e.name)), Data::Small(e.idx), NOW - age);
        }
        if self.r.chance(12) {
            // what git keeps beside a pack
            for e in ["keep", "rev", "bitmap", "mtimes", "promisor"] {
                if self.r.chance(40) {
                    let f = self.pack_path(p, e);
                    let n = self.r.us(40);
                    let b = self.r.bytes(n);
                    self.s.fs.put(&f, Data::Small(b), NOW - age);
                }
            }
        }
    }
    fn packed(&mut self, objs: &[usize]) -> usize {
        let p = self.pack(objs);
        self.install(p);
        p
    }
    /// Some of these objects loose, the rest in one or two packs.
    fn store(&mut self, objs: &[usize], loose_pct: u64) -> Vec<usize> {
        let mut packs = Vec::new();
        let mut rest = Vec::new();
        for &i in objs {
            if self.r.chance(loose_pct) {
                self.put_loose(i);
                if self.r.chance(15) {
                    rest.push(i);
                }
            } else {
                rest.push(i);
            }
        }
        if rest.len() > 3 && self.r.chance(40) {
            let k = 1 + self.r.us(rest.len() - 1);
            let (a, b) = rest.split_at(k);
            let (a, mut b) = (a.to_vec(), b.to_vec());
            if self.r.chance(30) {
                b.push(a[0]);
            }
            packs.push(self.packed(&a));
            packs.push(self.packed(&b));
        } else if !rest.is_empty() {
            packs.push(self.packed(&rest));
        }
        packs
    }
    fn put_ref(&mut self, name: &[u8], value: &[u8]) {
        self.s.fs.put(&[G, b"/", name].concat(), Data::Small(value.to_vec()), NOW - DAY);
    }

    fn proc(&mut self) -> usize {
        let n = self.s.procs.len();
        self.s.procs.push(ProcSpec { pid: 4000 + 7 * n as i32, user: 0, fd_limit: 100_000 });
        n
    }
    fn open_path(&mut self) -> Vec<u8> {
        match self.r.us(40) {
            0..=7 => b"repo".to_vec(),
            8..=15 => b"./repo".to_vec(),
            16..=23 => b"/w/repo/".to_vec(),
            24 => b"/w/alias".to_vec(),
            25 => b"alias/".to_vec(),
            26 => b"/w/tree".to_vec(),
            27 => b"../w/repo/../repo".to_vec(),
            _ => WORK.to_vec(),
        }
    }
    fn thread(&mut self, proc: usize, lib: bool, steps: Vec<Step>) -> usize {
        let n = self.s.threads.len();
        let name = if lib { format!("p{}t{}", proc, n) } else { format!("ext{}", n) };
        self.s.threads.push(ThreadSpec { proc, lib, exempt: false, name, steps });
        n
    }
    /// A library process: one thread per step list, all on handle 0.
    fn lib(&mut self, lists: Vec<Vec<Step>>) -> usize {
        let p = self.proc();
        self.lib_on(p, Vec::new(), lists, false);
        p
    }
    fn lib_on(&mut self, p: usize, before: Vec<Step>, lists: Vec<Vec<Step>>, exempt: bool) {
        let n = lists.len();
        for (i, l) in lists.into_iter().enumerate() {
            let mut steps = Vec::new();
            if i == 0 {
                steps.extend(before.clone());
                let path = self.open_path();
                steps.push(Step::Open { slot: 0, path });
            } else {
                steps.push(Step::WaitOpen { slot: 0 });
            }
            steps.extend(l);
            if i == 0 {
                if n > 1 {
                    steps.push(Step::Join);
                }
                steps.push(Step::Drop { slot: 0 });
            }
            let t = self.thread(p, true, steps);
            self.s.threads[t].exempt = exempt;
        }
    }
    fn ext(&mut self, steps: Vec<Step>) -> usize {
        let p = self.proc();
        self.thread(p, false, steps);
        p
    }

    fn read(&mut self, obj: usize) -> Step {
        let o = &self.s.model.objs[obj];
        let parse = o.fields_ok() && self.r.chance(60);
        if parse {
            Step::Parse { slot: 0, obj }
        } else {
            let min = (o.full.len() / 150).max(1);
            let chunk = (*self.r.pick(&[1usize, 7, 100, 4096, 65536])).max(min);
            let hold = match self.r.us(10) {
                0 => -1,
                1 => 3 * SEC,
                _ => 0,
            };
            Step::Stream { slot: 0, obj, chunk, hold }
        }
    }
    fn soft(&mut self) {
        self.s.cfg.soft_pm = *self.r.pick(&[0, 50, 300]);
    }
    fn hard(&mut self, pms: &[u64], max: u64) {
        self.s.cfg.hard_pm = *self.r.pick(pms);
        self.s.cfg.max_hard = 1 + self.r.below(max);
        if self.r.chance(20) {
            self.s.cfg.burst = 1 + self.r.below(6) as u32;
        }
    }
    fn crash(&mut self, pct: u64) {
        if self.r.chance(pct) {
            self.s.cfg.crash_pm = *self.r.pick(&[3, 10, 30]);
            self.s.cfg.max_crash = 1 + self.r.below(2);
        }
    }
    fn jumps(&mut self) {
        if self.r.chance(35) {
            self.s.cfg.mono_jump_pm = *self.r.pick(&[5, 30, 100]);
        }
        if self.r.chance(35) {
            self.s.cfg.real_jump_pm = *self.r.pick(&[5, 30, 100]);
        }
    }

    fn refs_basic(&mut self) -> Vec<Vec<u8>> {
        let n = 1 + self.r.us(4);
        let mut names = Vec::new();
        for i in 0..n {
            let name = self.ref_name(i);
            if names.iter().any(|m: &Vec<u8>| m.starts_with(&[&name[..], b"/"].concat()) || name.starts_with(&[&m[..], b"/"].concat()) || *m == name) {
                continue;
            }
            let v = self.direct_value();
            self.put_ref(&name, &v);
            names.push(name);
        }
        names
    }
    fn ref_name(&mut self, i: usize) -> Vec<u8> {
        let base: &[u8] = *self.r.pick(&[&b"refs/heads/"[..], b"refs/heads/", b"refs/tags/", b"refs/remotes/origin/"]);
        let leafs: [&[u8]; 19] = [
            b"master",
            b"v.LOCK",
            b"1.0.lock.d",
            b"Master",
            b"MASTER",
            b"Topic/one",
            b"topic/one",
            b"topic/two",
            b"a/b/c/d",
            b"a/b/e",
            b"caf\xc3\xa9",
            b"\xff\xfelatin",
            b"v1.0",
            b"lock",
            b"x.locked",
            b"HEAD",
            b"back\\slash",
            b"-dash",
            b"n\xc2\xa0bsp\xc2\xa0",
        ];
        let mut v = base.to_vec();
        v.extend_from_slice(*self.r.pick(&leafs));
        if self.r.chance(30) {
            v.extend_from_slice(format!("{}", i).as_bytes());
        }
        if self.r.chance(3) {
            // components may have 255 bytes, and there may be many
            let n = *self.r.pick(&[1, 2, 3, 3, 12, 17]);
            for k in 0..n {
                if k > 0 {
                    v.push(b'/');
                }
                v.extend(std::iter::repeat(b'l').take(100 + self.r.us(100)));
            }
        }
        if self.r.chance(3) {
            for k in 0..4 + self.r.us(40) {
                v.extend_from_slice(format!("/{}", k).as_bytes());
            }
        }
        v.truncate(3800);
        if v.ends_with(b"/") {
            v.push(b'e');
        }
        v
    }
    fn direct_value(&mut self) -> Vec<u8> {
        let ids = self.ids();
        let id = if !ids.is_empty() && self.r.chance(80) {
            *self.r.pick(&ids)
        } else {
            let mut o = [0; 20];
            o.copy_from_slice(&self.r.bytes(20));
            o
        };
        let mut v = git::hex(&id).into_bytes();
        if self.r.chance(5) {
            v.make_ascii_uppercase();
        }
        match self.r.us(12) {
            0 => {}
            1 => v.extend_from_slice(b"\n\n"),
            2 => v.extend_from_slice(b"\r\n"),
            3 => {
                v.extend_from_slice(b"\n# trailing comment");
                if self.r.chance(30) {
                    let n = *self.r.pick(&[300, 5000, 9000]);
                    v.resize(n, b'c');
                }
                v.push(b'\n');
            }
            _ => v.push(b'\n'),
        }
        // a value the model cannot read as one of git's is replaced by the plain form
        if matches!(crate::exec::ref_value(&v), crate::exec::RefVal::Invalid) {
            v = [git::hex(&id).as_bytes(), b"\n"].concat();
        }
        v
    }
    fn sym_value(&mut self, target: &[u8]) -> Vec<u8> {
        let mut v = b"ref: ".to_vec();
        v.extend_from_slice(target);
        if self.r.chance(92) {
            v.push(b'\n');
        }
        v
    }

    /// Containers that share a volume have processes with the same id.
    fn same_pids(&mut self) {
        let pid = self.s.procs[0].pid;
        for p in &mut self.s.procs {
            p.pid = pid;
        }
    }

    /// The repository is shared by users of one group, as git sets it up for that.
    fn more_users(&mut self) {
        if !self.r.chance(8) {
            return;
        }
        for p in &mut self.s.procs {
            p.user = self.r.us(3) as u8;
        }
        for n in &mut self.s.fs.inodes {
            if let crate::fs::Node::Dir(_) = n.node {
                n.mode |= 0o020;
            }
        }
    }

    /// Some processes open the repository more than once.
    fn more_handles(&mut self) {
        if !self.r.chance(12) {
            return;
        }
        for p in 0..self.s.procs.len() {
            let ts: Vec<usize> = (0..self.s.threads.len()).filter(|&t| self.s.threads[t].proc == p && self.s.threads[t].lib).collect();
            let mut used = 0;
            for &t in &ts {
                for s in self.s.threads[t].steps.iter_mut() {
                    used = used.max(s.slot_mut().map_or(0, |s| *s));
                }
            }
            if ts.is_empty() || used > 0 || self.r.chance(30) {
                continue;
            }
            let n = 2 + self.r.us(2);
            let per_thread = self.r.chance(50);
            for (k, &t) in ts.iter().enumerate() {
                let mut out = Vec::new();
                for mut s in std::mem::take(&mut self.s.threads[t].steps) {
                    match s {
                        Open { .. } => {
                            out.push(s);
                            for i in 1..n {
                                let path = self.open_path();
                                out.push(Open { slot: i, path });
                            }
                        }
                        WaitOpen { .. } => out.extend((0..n).map(|i| WaitOpen { slot: i })),
                        Drop { .. } => out.extend((0..n).map(|i| Drop { slot: i })),
                        _ => {
                            if let Some(sl) = s.slot_mut() {
                                *sl = if per_thread { k % n } else { self.r.us(n) };
                            }
                            out.push(s);
                        }
                    }
                }
                self.s.threads[t].steps = out;
            }
        }
    }
    /// References that are symbolic links to others.
    fn put_aliases(&mut self, names: &[Vec<u8>], head: bool) -> Vec<Vec<u8>> {
        let mut out = Vec::new();
        if names.is_empty() {
            return out;
        }
        for i in 0..1 + self.r.us(2) {
            let t = self.r.pick(names).clone();
            let n = format!("refs/{}/alias{}", *self.r.pick(&["heads", "tags", "remotes"]), i).into_bytes();
            if !t.starts_with(b"refs/") {
                continue;
            }
            let target = if self.r.chance(50) { [b"../../", &t[..]].concat() } else { [G, b"/", &t].concat() };
            self.s.fs.put_symlink(&[G, b"/", &n].concat(), &target);
            self.s.model.aliases.insert(n.clone(), t);
            out.push(n);
        }
        if head && self.r.chance(40) {
            let t = self.r.pick(names).clone();
            if t.starts_with(b"refs/") {
                let f = gp("HEAD");
                if let Ok(crate::fs::Walk::Found { parent, name, .. }) = self.s.fs.walk(0, &f, false) {
                    self.s.fs.remove_link(parent, &name, NOW).unwrap();
                }
                self.s.fs.put_symlink(&f, &t);
                self.s.model.aliases.insert(b"HEAD".to_vec(), t);
            }
        }
        out
    }

    fn finish(mut self) -> Scn {
        // every library thread waits for the phases it takes part in; nothing to add here
        for p in self.s.model.packs.iter_mut() {
            p.idx = false;
            p.pack = false;
        }
        self.s
    }
}

use Step::*;

// ------------------------------------------------------------------ families

fn write_faults(w: &mut W) {
    w.soft();
    if w.r.chance(65) {
        w.s.cfg.hard_sites = if w.r.chance(70) { WRITE_SITES } else { ALL_SITES };
        w.hard(&[20, 60, 150, 300], 6);
    }
    if w.r.chance(15) {
        w.s.fs.capacity = w.s.fs.used + w.r.below(4000);
    }
}

/// Objects whose compressed form takes many calls to write, some of which fail for a moment.
fn large_writes(w: &mut W) -> Vec<usize> {
    let mut pool = Vec::new();
    for _ in 0..1 + w.r.us(2) {
        let n = *w.r.pick(&[20_000usize, 40_000, 70_000, 140_000]) + w.r.us(20_000);
        let b = w.r.bytes(n);
        pool.push(w.obj(Obj::blob(b)));
    }
    if w.r.chance(30) {
        let o = w.small();
        pool.push(o);
    }
    for _ in 0..1 + w.r.us(2) {
        let lists = (0..1 + w.r.us(2))
            .map(|_| {
                let n = 1 + w.r.us(3);
                writer_ops(w, &pool, n)
            })
            .collect();
        w.lib(lists);
    }
    w.soft();
    w.s.cfg.hard_sites = site_bit(Site::Write);
    w.hard(&[60, 200, 500], 3);
    if w.r.chance(30) {
        w.s.cfg.hard_sites = WRITE_SITES;
    }
    pool
}

fn writer_ops(w: &mut W, pool: &[usize], n: usize) -> Vec<Step> {
    let mut v = Vec::new();
    for _ in 0..n {
        let o = *w.r.pick(pool);
        match w.r.us(10) {
            0..=4 => v.push(Write { slot: 0, obj: o }),
            5 | 6 => {
                v.push(Write { slot: 0, obj: o });
                v.push(w.read(o));
            }
            _ => v.push(w.read(o)),
        }
    }
    v
}

fn write_pool(w: &mut W) -> Vec<usize> {
    let n = 2 + w.r.us(5);
    let max = *w.r.pick(&[200, 3000, 60_000]);
    let mut pool = w.pool(n, max);
    if w.r.chance(30) {
        let k = w.r.us(200);
        let b = w.r.bytes(k);
        let i = w.obj(Obj::raw(b));
        pool.push(i);
    }
    if w.r.chance(10) {
        let o = Obj::blob(Vec::new());
        let i = w.obj(o);
        pool.push(i);
    }
    pool
}

fn final_proc(w: &mut W, pool: &[usize], rewrite: bool) {
    let others: Vec<usize> = {
        let mut v: Vec<usize> = w.s.threads.iter().map(|t| t.proc).collect();
        v.dedup();
        v
    };
    let p = w.proc();
    let before: Vec<Step> = others.into_iter().map(WaitProc).collect();
    let mut steps = vec![VerifyAcked { slot: 0 }];
    if rewrite {
        for &o in pool {
            steps.push(Write { slot: 0, obj: o });
            let rd = w.read(o);
            steps.push(rd);
        }
        steps.push(VerifyAcked { slot: 0 });
    }
    w.lib_on(p, before, vec![steps], true);
}

/// Writes of objects whose only copy is an old pack that this handle knows and that goes away.
fn forgotten(w: &mut W, grace: i128) -> (Vec<usize>, Vec<usize>) {
    let n = 1 + w.r.us(3);
    let max = *w.r.pick(&[60, 600, 3000]);
    let pool = family(w, n, max);
    w.age_max = 1;
    let mut packs = Vec::new();
    for &o in &pool {
        if w.r.chance(60) || packs.is_empty() {
            let p = w.packed(&[o]);
            for e in ["pack", "idx"] {
                let f = w.pack_path(p, e);
                let i = w.s.fs.lookup(&f).unwrap();
                w.s.fs.inodes[i].mtime = NOW - *w.r.pick(&[grace + DAY, 60 * DAY, grace / 2]);
            }
            packs.push(p);
        }
    }
    if w.r.chance(40) {
        let o = *w.r.pick(&pool);
        w.put_loose(o);
    }
    let mut l = Vec::new();
    for &p in &packs {
        if w.r.chance(50) {
            l.push(Sleep(w.r.below(5 * SEC as u64) as i128));
        }
        l.push(ForgetPack { pack: p, grace });
    }
    w.ext(l);
    (pool, packs)
}

fn forgotten_writes(w: &mut W, pool: &[usize]) {
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let mut lists = Vec::new();
        for _ in 0..nt {
            let mut l = Vec::new();
            for &o in pool {
                if w.r.chance(70) {
                    let s = w.read(o);
                    l.push(s);
                }
            }
            for _ in 0..1 + w.r.us(5) {
                let o = *w.r.pick(pool);
                if w.r.chance(50) {
                    l.push(Sleep(w.r.below(3 * SEC as u64) as i128));
                }
                if w.r.chance(70) {
                    l.push(Write { slot: 0, obj: o });
                }
                let s = w.read(o);
                l.push(s);
            }
            lists.push(l);
        }
        w.lib(lists);
    }
}

/// A long life of one process: hundreds of operations on one handle, of objects that others add meanwhile.
fn long_life(w: &mut W, adds_pct: u64, writes_pct: u64) -> Vec<usize> {
    let n = *w.r.pick(&[40, 150, 400, 700]);
    let pool: Vec<usize> = (0..n).map(|_| w.small()).collect();
    let per = *w.r.pick(&[1, 1, 2, 5]);
    // a pack for each of some objects
    let most = *w.r.pick(&[0, 20, 90, 200]);
    let (mut packs, mut adds) = (0, Vec::new());
    for c in pool.chunks(per) {
        if w.r.chance(100 - adds_pct) {
            if packs < most && w.r.chance(60) {
                w.packed(c);
                packs += 1;
            } else if w.r.chance(50) {
                for &o in c {
                    w.put_loose(o);
                }
            }
        } else if packs < most && w.r.chance(60) {
            let p = w.pack(c);
            adds.push(GitPack { pack: p });
            packs += 1;
        } else {
            for &o in c {
                adds.push(GitWrite { obj: o, link: w.r.chance(50) });
            }
        }
    }
    if !adds.is_empty() {
        w.ext(adds);
    }
    let nt = *w.r.pick(&[1, 1, 2, 4]);
    let lists = (0..nt)
        .map(|_| {
            let k = *w.r.pick(&[100, 400, 1200]) / nt;
            (0..k)
                .map(|_| {
                    let o = *w.r.pick(&pool);
                    if w.r.chance(writes_pct) {
                        Write { slot: 0, obj: o }
                    } else {
                        w.read(o)
                    }
                })
                .collect()
        })
        .collect();
    w.lib(lists);
    w.s.cfg.bb_mean = 0;
    w.s.cfg.short_max = 4096;
    w.s.cfg.bb_cap = 2_000_000_000;
    w.s.cfg.event_cap = 4_000_000;
    w.s.cfg.op_event_cap = 400_000;
    pool
}

fn c01(w: &mut W) {
    if w.r.chance(1) {
        let pool = long_life(w, 20, 60);
        w.crash(20);
        final_proc(w, &pool, true);
        return;
    }
    if w.r.chance(6) {
        let pool = large_writes(w);
        final_proc(w, &pool, true);
        return;
    }
    if w.r.chance(8) {
        let (pool, _) = forgotten(w, DAY);
        forgotten_writes(w, &pool);
        w.soft();
        if w.r.chance(30) {
            w.s.cfg.hard_sites = ALL_SITES;
            w.hard(&[20, 100], 4);
        }
        w.crash(20);
        final_proc(w, &pool, true);
        return;
    }
    let pool = write_pool(w);
    if w.r.chance(35) {
        let k = 1 + w.r.us(pool.len());
        let some = pool[..k].to_vec();
        let pct = *w.r.pick(&[100, 50]);
        w.store(&some, pct);
    }
    // fan-out directories that exist already
    for &i in &pool {
        if w.r.chance(30) {
            let p = w.loose_path(i);
            w.s.fs.mkdirs(&p[..p.len() - 39]);
        }
    }
    let np = 1 + w.r.us(3);
    let mut procs = Vec::new();
    for _ in 0..np {
        let nt = 1 + w.r.us(3);
        let lists = (0..nt)
            .map(|_| {
                let n = 1 + w.r.us(4);
                writer_ops(w, &pool, n)
            })
            .collect();
        procs.push(w.lib(lists));
    }
    if w.r.chance(40) {
        let mut steps = Vec::new();
        for _ in 0..1 + w.r.us(4) {
            let o = *w.r.pick(&pool);
            let st = match w.r.us(4) {
                0 => {
                    // only complete objects are packed by git: pack what it wrote itself
                    let link = w.r.chance(50);
                    steps.push(GitWrite { obj: o, link });
                    let p = w.pack(&[o]);
                    GitPack { pack: p }
                }
                1 => PrunePacked { obj: o },
                2 => RmEmptyDir { obj: o },
                _ => GitWrite { obj: o, link: w.r.chance(50) },
            };
            steps.push(st);
        }
        w.ext(steps);
    }
    write_faults(w);
    w.crash(35);
    w.jumps();
    let rw = w.r.chance(60);
    let before = w.s.fs.capacity;
    if before == u64::MAX {
        final_proc(w, &pool, rw);
    } else {
        // a full disk stays full: only verify
        final_proc(w, &pool, false);
    }
    let _ = procs;
    if w.r.chance(10) {
        w.same_pids();
    }
}

fn c02(w: &mut W) {
    if w.r.chance(4) {
        let pool = large_writes(w);
        w.crash(30);
        final_proc(w, &pool, true);
        return;
    }
    let pool = write_pool(w);
    let reuse = w.r.chance(50);
    let mut first = Vec::new();
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let lists = (0..nt)
            .map(|_| {
                let n = 1 + w.r.us(3);
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(Write { slot: 0, obj: *w.r.pick(&pool) });
                }
                v
            })
            .collect();
        first.push(w.lib(lists));
    }
    if w.r.chance(70) {
        // observers
        let n = 1 + w.r.us(4);
        let mut l = Vec::new();
        for _ in 0..n {
            let o = *w.r.pick(&pool);
            let s = w.read(o);
            l.push(s);
        }
        w.lib(vec![l]);
    }
    if w.r.chance(30) {
        let o = *w.r.pick(&pool);
        let l = w.r.chance(50);
        w.ext(vec![GitWrite { obj: o, link: l }, RmEmptyDir { obj: o }]);
    }
    write_faults(w);
    w.s.fs.capacity = u64::MAX;
    w.crash(75);
    // a second generation that may reuse the process id of a killed one
    if w.r.chance(60) {
        let p = w.proc();
        if reuse {
            w.s.procs[p].pid = w.s.procs[first[0]].pid;
        }
        let mut steps = Vec::new();
        for &o in &pool {
            steps.push(Write { slot: 0, obj: o });
        }
        let before = first.iter().map(|&p| WaitProc(p)).collect();
        let exempt = w.r.chance(50);
        w.lib_on(p, before, vec![steps], exempt);
    }
    let n = w.s.procs.len();
    final_proc(w, &pool, true);
    if reuse {
        w.s.procs[n].pid = w.s.procs[first[0]].pid;
    }
    if w.r.chance(10) {
        w.same_pids();
    }
}

fn any_damage(w: &mut W, other: Option<Vec<u8>>) -> Damage {
    match w.r.us(10) {
        0..=2 => Damage::Flip(1 + w.r.us(4) as u32),
        3 => Damage::Truncate,
        4 => Damage::Empty,
        5 => Damage::Zero,
        6 => {
            let n = 1 + w.r.us(60);
            Damage::Tail(w.r.bytes(n))
        }
        7 => {
            let n = 1 + w.r.us(16);
            Damage::Splice(w.r.bytes(n))
        }
        8 => match other {
            Some(o) => Damage::Swap(o),
            None => Damage::Flip(1),
        },
        _ => Damage::Remove,
    }
}

/// All object files of the image.
fn object_files(w: &W) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for i in 0..w.s.model.objs.len() {
        let p = w.loose_path(i);
        if w.s.fs.lookup(&p).is_some() {
            v.push(p);
        }
    }
    for p in 0..w.packs.len() {
        for e in ["pack", "idx"] {
            let f = w.pack_path(p, e);
            if w.s.fs.lookup(&f).is_some() {
                v.push(f);
            }
        }
    }
    v
}

/// An object with the id of another one, as damage that keeps all formats intact would leave it.
fn forged(w: &mut W, i: usize) -> Obj {
    let o = w.s.model.objs[i].clone();
    let ids = w.ids();
    let mut n = match w.r.us(4) {
        0 => {
            let mut b = o.body.clone();
            if b.is_empty() {
                b.push(b'x');
            } else {
                let at = w.r.us(b.len());
                b[at] = b[at].wrapping_add(1);
            }
            Obj::new(o.kind, b, Fields::Raw)
        }
        1 => Obj::new(if o.kind == Kind::Blob { Kind::Tree } else { Kind::Blob }, o.body.clone(), Fields::Raw),
        2 => {
            let mut b = o.body.clone();
            b.push(b'\n');
            Obj::new(o.kind, b, Fields::Raw)
        }
        _ => match o.kind {
            Kind::Commit => git::gen_commit(&mut w.r, &ids),
            Kind::Tree => git::gen_tree(&mut w.r, &ids),
            Kind::Tag => git::gen_tag(&mut w.r, &ids),
            Kind::Blob => git::gen_blob(&mut w.r, 300),
        },
    };
    n.id = o.id;
    n
}

fn mark_bad(w: &mut W, p: usize) {
    w.s.model.packs[p].bad = true;
}

/// Forged contents behind intact formats.
fn forge(w: &mut W, pool: &[usize]) {
    let large: Vec<usize> = pool.iter().copied().filter(|&i| w.s.model.objs[i].body.len() > 4000).collect();
    let i = if large.is_empty() || w.r.chance(40) { *w.r.pick(pool) } else { *w.r.pick(&large) };
    let f = forged(w, i);
    if w.r.chance(50) || w.packs.is_empty() {
        let p = w.loose_path(i);
        let b = git::deflate(&f.full, 6, None);
        let b = match w.r.us(10) {
            0 => git::deflate(&[&f.full[..], b"extra"].concat(), 6, None),
            1..=3 => {
                // the object itself, and more
                let n = 1 + w.r.us(40);
                let x = if w.r.chance(50) { vec![*w.r.pick(&[0, b'\n', b'x']); n] } else { w.r.bytes(n) };
                git::deflate(&[&w.s.model.objs[i].full[..], &x].concat(), 6, None)
            }
            _ => b,
        };
        w.s.fs.put(&p, Data::Small(b), NOW);
        w.s.model.loose_dmg[i] = true;
    } else {
        // a pack in which one object has other content, possibly as the base of a delta
        let p = 0;
        let mut objs: Vec<Obj> = w.s.model.packs[p].objs.iter().map(|&j| w.s.model.objs[j].clone()).collect();
        let at = w.r.us(objs.len());
        let id = objs[at].id;
        let k = w.s.model.by_id[&id];
        objs[at] = forged(w, k);
        let refs: Vec<&Obj> = objs.iter().collect();
        let st = w.style();
        let encs = git::choose_encs(&refs, &mut w.r, st.delta_pct, st.deep, st.allow_ref);
        let o = w.opts(&st);
        let np = git::build_pack(&refs, &encs, &mut w.r, &o);
        let (a, b) = (w.pack_path(p, "pack"), w.pack_path(p, "idx"));
        w.s.fs.put(&a, Data::Small(np.pack), NOW);
        w.s.fs.put(&b, Data::Small(np.idx), NOW);
        mark_bad(w, p);
    }
}

fn c03(w: &mut W) {
    let n = 3 + w.r.us(8);
    let mut pool = w.pool(n, 3000);
    if w.r.chance(8) {
        let o = git::gen_large(&mut w.r);
        pool.push(w.obj(o));
    }
    let loose_pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool, loose_pct);
    if w.r.chance(50) {
        forge(w, &pool);
    }
    // exchanged offsets in an index
    if !w.packs.is_empty() && w.r.chance(30) {
        let p = w.r.us(w.packs.len());
        let f = w.pack_path(p, "idx");
        let nobj = w.packs[p].ids.len();
        if let Some(d) = w.s.fs.file(&f).cloned() {
            if nobj >= 2 {
                let mut d = d;
                let v2 = d[0] == 0xff;
                let (a, b) = (w.r.us(nobj), w.r.us(nobj));
                let at = |i: usize| if v2 { 8 + 1024 + nobj * 24 + 4 * i } else { 1024 + 24 * i };
                for k in 0..4 {
                    d.swap(at(a) + k, at(b) + k);
                }
                w.s.fs.put(&f, Data::Small(d), NOW);
                mark_bad(w, p);
            }
        }
    }
    let mut readers = Vec::new();
    for _ in 0..1 + w.r.us(2) {
        let mut l = Vec::new();
        for _ in 0..3 + w.r.us(8) {
            let o = *w.r.pick(&pool);
            l.push(if w.r.chance(80) { Parse { slot: 0, obj: o } } else { w.read(o) });
        }
        readers.push(l);
    }
    w.lib(readers);
    let files = object_files(w);
    if !files.is_empty() && w.r.chance(80) {
        let mut steps = Vec::new();
        for _ in 0..1 + w.r.us(3) {
            let path = w.r.pick(&files).clone();
            let other = w.r.pick(&files).clone();
            let how = any_damage(w, Some(other));
            steps.push(Step::Damage { path, how, unusable: false, salt: w.r.next() });
            if w.r.chance(30) {
                steps.push(Sleep(w.r.below(10_000_000) as i128));
            }
        }
        w.ext(steps);
    }
    w.soft();
    if w.r.chance(40) {
        w.s.cfg.flip_pm = *w.r.pick(&[10, 50, 200]);
    }
    if w.r.chance(40) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[20, 100], 5);
    }
}

fn mutate_bytes(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + r.us(4) {
        if v.is_empty() {
            v.push(r.next() as u8);
            continue;
        }
        match r.us(9) {
            0 => {
                let i = r.us(v.len());
                v[i] ^= 1 << r.us(8);
            }
            1 => {
                let n = r.us(v.len());
                v.truncate(n);
            }
            2 => {
                let at = r.us(v.len());
                let n = 1 + r.us(20);
                let b = r.bytes(n);
                v.splice(at..at, b);
            }
            3 | 4 => {
                // a 32-bit field
                if v.len() >= 4 {
                    let i = r.us(v.len() / 4) * 4;
                    let x: u32 = *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x8000_0001, 0x00ff_ffff]);
                    v[i..i + 4].copy_from_slice(&x.to_be_bytes());
                }
            }
            5 => {
                let a = r.us(v.len());
                let b = (a + 1 + r.us(40)).min(v.len());
                v.drain(a..b);
            }
            6 => {
                let i = r.us(v.len());
                v[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, b' ', b'\n', b'<']);
            }
            7 => {
                let a = r.us(v.len());
                let b = (a + 1 + r.us(100)).min(v.len());
                let c = v[a..b].to_vec();
                v.extend_from_slice(&c);
            }
            _ => {
                let n = 1 + r.us(30);
                let b = r.bytes(n);
                v.extend_from_slice(&b);
            }
        }
    }
}

fn huge(r: &mut Rng) -> u64 {
    *r.pick(&[1 << 30, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX])
}

/// A loose object file that is not what it claims to be.
fn weird_loose(w: &mut W, i: usize) -> Vec<u8> {
    let o = w.s.model.objs[i].clone();
    let h = huge(&mut w.r);
    let head = match w.r.us(14) {
        0 => format!("{} {}\0", o.kind.name(), h),
        1 => format!("{} -1\0", o.kind.name()),
        2 => format!("{} {}\0", o.kind.name(), o.body.len() + 1 + w.r.us(5)),
        3 => format!("{} {}\0", o.kind.name(), o.body.len().saturating_sub(1 + w.r.us(5))),
        4 => format!("{}{}\0", o.kind.name(), o.body.len()),
        5 => format!("bolb {}\0", o.body.len()),
        6 => format!("{} {}", o.kind.name(), o.body.len()),
        7 => format!("{} {}x\0", o.kind.name(), o.body.len()),
        8 => format!("{} \0", o.kind.name()),
        9 => format!(" {}\0", o.body.len()),
        10 => format!("{} 00000000000000000000000000000000{}\0", o.kind.name(), o.body.len()),
        11 => format!("{} {}\0", ["ofs-delta", "ref-delta", "tag", "tree", "commit"][w.r.us(5)], o.body.len()),
        12 => "\0".into(),
        _ => format!("{} 999999999999999999999999\0", o.kind.name()),
    };
    let mut body = o.body.clone();
    if w.r.chance(30) {
        mutate_bytes(&mut w.r, &mut body);
    }
    let raw = [head.as_bytes(), &body].concat();
    let mut z = git::deflate(&raw, 6, None);
    if w.r.chance(20) {
        mutate_bytes(&mut w.r, &mut z);
    }
    z
}

/// Objects whose header is right but whose content is malformed.
fn weird_body(w: &mut W) -> Obj {
    let ids = w.ids();
    let o = match w.r.us(3) {
        0 => git::gen_commit(&mut w.r, &ids),
        1 => git::gen_tree(&mut w.r, &ids),
        _ => git::gen_tag(&mut w.r, &ids),
    };
    let mut b = o.body.clone();
    match w.r.us(10) {
        6..=8 => {
            // one field is wrong, the rest is right
            let is_digit = |c: &u8| c.is_ascii_digit();
            let r = &mut w.r;
            match r.us(4) {
                0 => {
                    // a number with more digits
                    let starts: Vec<usize> = (0..b.len()).filter(|&i| is_digit(&b[i]) && (i == 0 || !is_digit(&b[i - 1]))).collect();
                    if !starts.is_empty() {
                        let at = starts[r.us(starts.len().min(6))];
                        let n = 1 + r.us(30);
                        let c = *r.pick(&[b'7', b'9', b'1', b'0']);
                        b.splice(at..at, std::iter::repeat(c).take(n));
                    }
                }
                1 => {
                    // an id that is none
                    let hex = |c: &u8| c.is_ascii_hexdigit();
                    let runs: Vec<usize> = (0..b.len().saturating_sub(39)).filter(|&i| b[i..i + 40].iter().all(hex)).collect();
                    if !runs.is_empty() {
                        let at = *r.pick(&runs) + r.us(40);
                        b[at] = *r.pick(&[b'g', b'G', b'/', b':', b'@', b'`', b' ', 0x80, 0]);
                    }
                }
                _ => {
                    // an identity that is none, of any length
                    let lines: Vec<(usize, usize)> = {
                        let mut v = Vec::new();
                        let mut at = 0;
                        for l in b.split(|&c| c == b'\n') {
                            if l.contains(&b'<') {
                                v.push((at, at + l.len()));
                            }
                            at += l.len() + 1;
                        }
                        v
                    };
                    if !lines.is_empty() {
                        let (from, to) = lines[r.us(lines.len().min(3))];
                        let drop = *r.pick(&[b'<', b'>']);
                        let mut l: Vec<u8> = b[from..to].iter().copied().filter(|&c| c != drop).collect();
                        if r.chance(50) {
                            let n = l.len() + *r.pick(&[100, 300, 2000]);
                            let at = l.iter().position(|&c| c == b' ').map_or(0, |p| p + 1);
                            let k = n - l.len();
                            l.splice(at..at, std::iter::repeat(b'n').take(k));
                        }
                        b.splice(from..to, l);
                    }
                }
            }
        }
        0 => {
            let mut n = w.r.us(b.len() + 1);
            let ends: Vec<usize> = if o.kind == Kind::Tree {
                // behind a mode, behind a name, behind its terminator, within an id, behind an entry
                let mut v = Vec::new();
                let mut at = 0;
                while let Some(z) = b[at..].iter().position(|&c| c == 0) {
                    let sp = b[at..].iter().position(|&c| c == b' ').unwrap_or(0);
                    v.extend([at + sp, at + sp + 1, at + z, at + z + 1, at + z + 2, at + z + 20]);
                    at += z + 21;
                }
                v
            } else {
                (1..b.len()).filter(|&i| matches!(b[i - 1], b'\n' | b' ' | b'<' | b'>') || b[i] == b'\n').collect()
            };
            if !ends.is_empty() && w.r.chance(60) {
                n = *w.r.pick(&ends);
            }
            b.truncate(n);
        }
        1 => b.clear(),
        2 => {
            // drop or repeat a line
            let lines: Vec<Vec<u8>> = b.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect();
            let k = w.r.us(lines.len().max(1));
            let mut out = Vec::new();
            for (i, l) in lines.iter().enumerate() {
                if i != k {
                    out.extend_from_slice(l);
                } else if w.r.chance(50) {
                    out.extend_from_slice(l);
                    out.extend_from_slice(l);
                }
            }
            b = out;
        }
        3 => {
            let s = String::from_utf8_lossy(&b).replace('<', "").replace("author ", "author");
            b = s.into_bytes();
        }
        _ => mutate_bytes(&mut w.r, &mut b),
    }
    Obj::new(o.kind, b, Fields::Raw)
}

/// A pack whose entries are structurally odd, with an index that leads to each of them.
/// A number of so many continued digits.
fn endless(r: &mut Rng, k: usize) -> Vec<u8> {
    let d = *r.pick(&[0xffu8, 0x80, 0x81, 0xfe]);
    let mut v = vec![d; k];
    v.push(r.us(128) as u8);
    v
}

fn weird_pack(w: &mut W) -> Vec<usize> {
    let n = 2 + w.r.us(6);
    let objs: Vec<Obj> = (0..n)
        .map(|_| {
            let mut o = git::gen_blob(&mut w.r, 400);
            let mut id = [0; 20];
            id.copy_from_slice(&w.r.bytes(20));
            o.id = id;
            o.fields = Fields::Raw;
            o
        })
        .collect();
    let mut pack = b"PACK".to_vec();
    pack.extend_from_slice(&2u32.to_be_bytes());
    pack.extend_from_slice(&(n as u32).to_be_bytes());
    let mut offs = Vec::new();
    let loop_all = w.r.chance(20);
    // either everything may be wrong, or at most one thing in each entry
    let single = w.r.chance(60);
    for i in 0..n {
        offs.push(pack.len() as u64);
        let h = huge(&mut w.r);
        let aspect = if i == 0 || w.r.chance(40) { 99 } else { w.r.us(8) };
        // the chance that something is wrong
        let odd = |r: &mut Rng, k: usize, pct: u64| if single { k == aspect } else { r.chance(pct) };
        let body = &objs[i].body;
        let base_at = if single { w.r.us(i.max(1)) } else { w.r.us(n) };
        let base = &objs[base_at];
        let mut delta = Vec::new();
        {
            let varint = |out: &mut Vec<u8>, mut n: u64| loop {
                let b = (n & 0x7f) as u8;
                n >>= 7;
                if n == 0 {
                    out.push(b);
                    break;
                }
                out.push(b | 0x80);
            };
            let (wrong_base, wrong_result) = (odd(&mut w.r, 0, 34), odd(&mut w.r, 1, 53));
            if wrong_base && w.r.chance(20) {
                let k = w.r.us(25);
                delta.extend(endless(&mut w.r, k));
            } else {
                varint(&mut delta, if wrong_base { h } else { base.body.len() as u64 });
            }
            if wrong_result && w.r.chance(15) {
                let k = w.r.us(25);
                delta.extend(endless(&mut w.r, k));
            } else if single && !wrong_result {
                varint(&mut delta, body.len() as u64);
            } else {
                varint(&mut delta, if wrong_result { h } else { w.r.below(1000) });
            }
            if single && aspect != 2 {
                for c in body.chunks(127) {
                    delta.push(c.len() as u8);
                    delta.extend_from_slice(c);
                }
            }
            let ops = if !single || aspect == 2 { w.r.us(6) } else { 0 };
            for _ in 0..ops {
                match w.r.us(5) {
                    0 => delta.extend_from_slice(&[0x80]),
                    1 => delta.extend_from_slice(&[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
                    2 => delta.push(0),
                    3 => {
                        let k = 1 + w.r.us(127);
                        delta.push(k as u8);
                        let m = if w.r.chance(70) { k } else { w.r.us(k) };
                        let b = w.r.bytes(m);
                        delta.extend_from_slice(&b);
                    }
                    _ => {
                        let m = w.r.us(10);
                        let b = w.r.bytes(m);
                        delta.extend_from_slice(&b);
                    }
                }
            }
        }
        let kind = if loop_all {
            7
        } else if single && aspect == 3 {
            *w.r.pick(&[0u8, 5])
        } else if single {
            *w.r.pick(if i == 0 { &[1u8, 2, 3, 3, 3, 4][..] } else { &[3u8, 6, 6, 6, 7, 7] })
        } else {
            *w.r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 6, 7, 7, 3])
        };
        let payload: &[u8] = if kind >= 6 { &delta } else { body };
        let right = single && aspect != 4;
        let len = match w.r.us(if right { 1 } else if single { 3 } else { 5 }) {
            0 if right => payload.len() as u64,
            0 => h,
            1 => payload.len() as u64 + 1 + w.r.below(100),
            2 => (payload.len() as u64).saturating_sub(1 + w.r.below(10)),
            _ => payload.len() as u64,
        };
        if odd(&mut w.r, 5, 6) {
            // more digits than any number has
            let k = w.r.us(25);
            pack.push(0x80 | kind << 4 | w.r.us(16) as u8);
            pack.extend(endless(&mut w.r, k));
        } else {
            pack.extend(git::entry_header(kind, len));
        }
        let right = single && aspect != 6;
        if kind == 6 && !right && w.r.chance(20) {
            let k = w.r.us(25);
            pack.extend(endless(&mut w.r, k));
        } else if kind == 6 {
            let off = offs[i];
            let d = match w.r.us(if right { 1 } else { 5 }) {
                0 if right => off - offs[base_at.min(i)],
                0 => 0,
                1 => off + 1 + w.r.below(100),
                2 => w.r.below(off),
                3 => h,
                _ => off - offs[w.r.us(i + 1)],
            };
            pack.extend(git::ofs_bytes(d));
        } else if kind == 7 {
            let b = if loop_all { &objs[(i + 1) % n] } else { base };
            pack.extend_from_slice(&b.id);
        }
        let mut z = git::deflate(payload, 6, None);
        if odd(&mut w.r, 7, 15) {
            mutate_bytes(&mut w.r, &mut z);
        }
        pack.extend_from_slice(&z);
    }
    let sum = git::sha1(&pack);
    pack.extend_from_slice(&sum);
    // index
    let refs: Vec<&Obj> = objs.iter().collect();
    let st = w.style();
    let o = w.opts(&st);
    let encs = vec![Enc::Whole; n];
    let mut p = git::build_pack(&refs, &encs, &mut w.r, &o);
    // build_pack made its own layout: rewrite the offsets
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| objs[i].id);
    let v2 = !st.v1;
    for (k, &i) in order.iter().enumerate() {
        let at = if v2 { 8 + 1024 + n * 24 + 4 * k } else { 1024 + 24 * k };
        let v = if w.r.chance(95) { offs[i] as u32 } else { *w.r.pick(&[0, 4, 0x8000_0000, 0x8000_0005, 0xffff_ffff, 0x7fff_ffff]) };
        p.idx[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
    let l = p.idx.len();
    p.idx[l - 40..l - 20].copy_from_slice(&sum);
    p.pack = pack;
    p.name = format!("pack-{}", git::hex(&sum));
    let ids: Vec<usize> = objs.into_iter().map(|o| w.obj(o)).collect();
    let k = w.add_pack(p);
    w.install(k);
    ids
}

/// A chain of deltas deep enough to overflow a stack that grows with it.
fn deep_pack(w: &mut W, n: usize) -> Vec<usize> {
    let mut objs = Vec::new();
    let mut body = w.r.bytes(20);
    for i in 0..n {
        let k = i % 20;
        body[k] = body[k].wrapping_add(1);
        let mut b = body.clone();
        b.extend_from_slice(&(i as u32).to_be_bytes());
        objs.push(Obj::blob(b));
    }
    let refs: Vec<&Obj> = objs.iter().collect();
    let by_ref = w.r.chance(50);
    let encs: Vec<Enc> = (0..n).map(|i| if i == 0 { Enc::Whole } else if by_ref { Enc::Ref(i - 1) } else { Enc::Ofs(i - 1) }).collect();
    let mut st = w.style();
    st.off32 = u64::MAX;
    let o = w.opts(&st);
    let p = git::build_pack(&refs, &encs, &mut w.r, &o);
    let last: Vec<Oid> = vec![objs[n - 1].id, objs[n / 2].id, objs[1].id];
    for o in objs {
        w.obj(o);
    }
    let k = w.add_pack(p);
    w.install(k);
    last.iter().map(|i| w.s.model.by_id[i]).collect()
}

fn weird_ref(w: &mut W, names: &[Vec<u8>]) -> Vec<u8> {
    match w.r.us(12) {
        0 => Vec::new(),
        1 => b"\n\n\n".to_vec(),
        2 => b"ref: ".to_vec(),
        3 => b"ref:\n".to_vec(),
        4 => {
            let n = w.r.us(200);
            w.r.bytes(n)
        }
        5 => b" ".to_vec(),
        6 => vec![b'a'; 100_000],
        7 => b"# comment only".to_vec(),
        8 => format!("{} ", "0".repeat(40)).into_bytes(),
        9 => format!("{} refs/heads/x", "g".repeat(40)).into_bytes(),
        _ => {
            let t = w.r.pick(names).clone();
            w.sym_value(&t)
        }
    }
}

fn c04(w: &mut W) {
    w.s.cfg.mem_cap = 128 << 20;
    let n = 2 + w.r.us(6);
    let mut pool = w.pool(n, 1500);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool, pct);
    let mut odd = Vec::new();
    match w.r.us(8) {
        0 | 1 => {
            let i = *w.r.pick(&pool);
            let z = weird_loose(w, i);
            let p = w.loose_path(i);
            w.s.fs.put(&p, Data::Small(z), NOW);
        }
        2 => {
            for _ in 0..2 + w.r.us(6) {
                let o = weird_body(w);
                let i = w.obj(o);
                w.put_loose(i);
                pool.push(i);
                odd.push(Parse { slot: 0, obj: i });
            }
        }
        3 | 4 => {
            let v = weird_pack(w);
            pool.extend(v);
        }
        5 => {
            let n = if w.r.chance(15) { 3000 } else { 50 + w.r.us(150) };
            let v = deep_pack(w, n);
            pool.extend(v);
            w.s.cfg.bb_mean = 0;
        }
        _ => {}
    }
    if w.r.chance(8) {
        // packs of no objects are legal
        let p = w.pack(&[]);
        w.install(p);
    }
    // mutated pack and index files
    for p in 0..w.packs.len() {
        if w.r.chance(8) {
            // cut at a boundary of the format
            let n = w.packs[p].ids.len();
            let idx = w.r.chance(60);
            let f = w.pack_path(p, if idx { "idx" } else { "pack" });
            if let Some(d) = w.s.fs.file(&f).cloned() {
                let mut d = d;
                let cut = if idx {
                    let b = 8 + 1024;
                    *w.r.pick(&[0, 4, 8, 1024, b, b + 20, b + 40, b + 20 * n, b + 24 * n, b + 28 * n, b + 28 * n + 20, b + 28 * n + 39, 1024 + 24 * n, 1024 + 20, 1024 + 40, 1024 + 24 * n + 20])
                } else {
                    *w.r.pick(&[0, 4, 8, 11, 12, 13, 19, 20, 31, 32])
                };
                d.truncate(cut);
                w.s.fs.put(&f, Data::Small(d), NOW);
                mark_bad(w, p);
            }
        }
        for e in ["pack", "idx"] {
            if w.r.chance(25) {
                let f = w.pack_path(p, e);
                if let Some(d) = w.s.fs.file(&f).cloned() {
                    let mut d = d;
                    mutate_bytes(&mut w.r, &mut d);
                    w.s.fs.put(&f, Data::Small(d), NOW);
                    mark_bad(w, p);
                }
            }
        }
    }
    if w.r.chance(10) {
        // a directory where a file is expected, and the reverse
        let what = *w.r.pick(&["objects/pack/pack-1111111111111111111111111111111111111111.idx", "refs/heads/master", "refs/tags/x"]);
        w.s.fs.mkdirs(&gp(what));
    }
    if w.r.chance(5) {
        w.s.fs.put(&gp("objects/pack/pack-2222222222222222222222222222222222222222.idx"), Data::Small(Vec::new()), NOW);
        w.s.fs.put(&gp("objects/pack/.idx"), Data::Small(vec![1, 2, 3]), NOW);
    }
    // references
    let mut names: Vec<Vec<u8>> = vec![b"HEAD".to_vec(), b"refs/heads/master".to_vec()];
    for i in 0..w.r.us(4) {
        let n = w.ref_name(i);
        if !names.iter().any(|m| m.starts_with(&[&n[..], b"/"].concat()) || n.starts_with(&[&m[..], b"/"].concat())) {
            names.push(n);
        }
    }
    for n in names.clone() {
        let full = [G, b"/", &n[..]].concat();
        if w.s.fs.lookup(&full).map_or(false, |i| w.s.fs.is_dir(i)) {
            continue;
        }
        if w.r.chance(70) {
            let v = weird_ref(w, &names);
            w.put_ref(&n, &v);
        }
    }
    let nt = 1 + w.r.us(3);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..2 + w.r.us(7) {
            let o = *w.r.pick(&pool);
            let nm = w.r.pick(&names).clone();
            l.push(match w.r.us(10) {
                0..=3 => Parse { slot: 0, obj: o },
                4 | 5 => w.read(o),
                6 => RefRead { slot: 0, name: nm, api: w.r.us(5) as u8 },
                7 => Peel { slot: 0, name: nm, api: w.r.us(3) as u8 },
                8 => List { slot: 0, what: w.r.us(4) as u8 },
                _ => Write { slot: 0, obj: o },
            });
        }
        l.append(&mut odd);
        lists.push(l);
    }
    w.lib(lists);
    let files = object_files(w);
    if !files.is_empty() && w.r.chance(40) {
        let mut steps = Vec::new();
        for _ in 0..1 + w.r.us(3) {
            let path = w.r.pick(&files).clone();
            let other = w.r.pick(&files).clone();
            let how = any_damage(w, Some(other));
            steps.push(Step::Damage { path, how, unusable: false, salt: w.r.next() });
        }
        w.ext(steps);
    }
    w.soft();
    if w.r.chance(50) {
        w.hard(&[20, 100, 300], 12);
    }
    if w.r.chance(15) {
        w.s.cfg.flip_pm = *w.r.pick(&[20, 200]);
    }
    if w.r.chance(10) {
        w.s.procs[0].fd_limit = w.r.us(6);
    }
}

fn family(w: &mut W, n: usize, max: usize) -> Vec<usize> {
    // objects that resemble each other, so that deltas have copies
    let first = git::gen_blob(&mut w.r, max);
    let mut out = vec![w.obj(first)];
    for _ in 1..n {
        if w.r.chance(70) {
            let b = *w.r.pick(&out);
            let body = w.s.model.objs[b].body.clone();
            let o = if w.s.model.objs[b].kind == Kind::Blob { git::similar_blob(&mut w.r, &body) } else { git::gen_blob(&mut w.r, max) };
            out.push(w.obj(o));
        } else {
            out.push(w.any(max));
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Copies from beyond 16 MiB of a base.
fn big_base(w: &mut W) -> Vec<usize> {
    let n = if w.r.chance(25) { 32 << 20 } else { 16 << 20 } + w.r.us(1 << 20);
    let unit = w.r.bytes(5000);
    let mut body: Vec<u8> = Vec::with_capacity(n + 5000);
    let mut c = 0u32;
    while body.len() < n {
        body.extend_from_slice(&unit);
        body.extend_from_slice(&c.to_le_bytes());
        c += 1;
    }
    let mut tail = w.r.bytes(3000);
    body.append(&mut tail.clone());
    tail.truncate(2000);
    let base = w.obj(Obj::blob(body.clone()));
    let mut pool = Vec::new();
    for _ in 0..2 {
        let mut t = Vec::new();
        if w.r.chance(50) {
            // sizes that need four bytes and more
            let at = w.r.us(10 << 20);
            let len = (2 << 20) - 100 + w.r.us(1 << 19);
            t.extend_from_slice(&body[at..at + len]);
        }
        for _ in 0..1 + w.r.us(3) {
            let at = *w.r.pick(&[body.len() - 2500, (16 << 20) - 600, 1 << 16, 16 << 20, n - 3000]);
            t.extend_from_slice(&body[at..at + 700 + w.r.us(1500)]);
            let k = w.r.us(30);
            t.extend(w.r.bytes(k));
        }
        pool.push(w.obj(Obj::blob(t)));
    }
    let refs: Vec<&Obj> = std::iter::once(base).chain(pool.iter().copied()).map(|i| &w.s.model.objs[i]).collect();
    let encs: Vec<Enc> = (0..refs.len()).map(|i| if i == 0 { Enc::Whole } else if i == 1 { Enc::Ofs(0) } else { Enc::Ref(0) }).collect();
    let opts = PackOpts { idx_version: 2, off32_limit: u64::MAX, pack_version: 2, holes: Vec::new() };
    let p = git::build_pack(&refs, &encs, &mut w.r, &opts);
    let k = w.add_pack(p);
    w.install(k);
    w.s.cfg.bb_mean = 0;
    w.s.cfg.short_max = 4096;
    w.s.cfg.op_event_cap = 400_000;
    w.s.cfg.bb_cap = 1_000_000_000;
    w.s.cfg.event_cap = 2_000_000;
    w.s.cfg.mem_cap = 512 << 20;
    if w.r.chance(50) {
        pool.push(base);
    }
    pool
}

fn c05(w: &mut W) {
    let mut every = false;
    let mut pool;
    if w.r.chance(1) && w.r.chance(25) {
        let pool = big_base(w);
        let l = pool.iter().map(|&o| if w.r.chance(50) { Parse { slot: 0, obj: o } } else { Stream { slot: 0, obj: o, chunk: 4096, hold: 0 } }).collect();
        w.lib(vec![l]);
        return;
    }
    match w.r.us(12) {
        0 => {
            // deep chain
            let n = 20 + w.r.us(100);
            pool = deep_pack(w, n);
            w.s.cfg.bb_mean = 0;
        }
        1 => {
            // a pack beyond 2 or 4 GiB
            let n = 3 + w.r.us(4);
            pool = family(w, n, 500);
            let mut order = pool.clone();
            w.r.shuffle(&mut order);
            let refs: Vec<&Obj> = order.iter().map(|&i| &w.s.model.objs[i]).collect();
            let v1 = w.r.chance(25);
            let at = 1 + w.r.us(order.len() - 1);
            let off = if v1 { 0x8000_0000 + w.r.below(0x7000_0000) } else { *w.r.pick(&[0x8000_0000u64, 0x7fff_fff0, 0x1_0000_0000, 0x1_2345_6789, 0x12_0000_0000, 0x8000_000c, 0x1_0000_000c]) };
            let r = w.r.chance(50);
            let encs = git::choose_encs(&refs, &mut w.r, 60, false, r);
            let opts = PackOpts { idx_version: if v1 { 1 } else { 2 }, off32_limit: u64::MAX, pack_version: 2, holes: vec![(at, off)] };
            let p = git::build_pack(&refs, &encs, &mut w.r, &opts);
            let k = w.add_pack(p);
            w.install(k);
        }
        2 => {
            // big blobs with copies longer than 64 KiB
            let n = 2 + w.r.us(2);
            pool = family(w, n, 300_000);
            w.packed(&pool.clone());
            w.s.cfg.bb_mean = 0;
            w.s.cfg.short_max = 4096;
        }
        3 => {
            // many small objects
            let mut n = 100 + w.r.us(300);
            if w.r.chance(4) {
                // nearly all of them are read
                n = 1000 + w.r.us(2000);
                w.s.cfg.bb_mean = 0;
                w.s.cfg.short_max = 4096;
                w.s.cfg.bb_cap = 1_000_000_000;
                w.s.cfg.event_cap = 2_000_000;
            } else if w.r.chance(1) {
                // more than 16 bits count
                n = 65_530 + w.r.us(4000);
                w.s.cfg.bb_mean = 0;
                w.s.cfg.short_max = 4096;
                w.s.cfg.bb_cap = 1_000_000_000;
            }
            pool = (0..n).map(|_| w.small()).collect();
            if n < 1000 {
                w.packed(&pool.clone());
            } else {
                let encs: Vec<Enc> = (0..n).map(|i| if i > 0 && w.r.chance(10) { Enc::Ofs(w.r.us(i)) } else { Enc::Whole }).collect();
                let refs: Vec<&Obj> = pool.iter().map(|&i| &w.s.model.objs[i]).collect();
                let st = w.r.clone().us(4);
                let opts = PackOpts { idx_version: 1 + (st > 0) as u8, off32_limit: if st == 1 { 1 << 20 } else { u64::MAX }, pack_version: 2, holes: Vec::new() };
                let p = git::build_pack(&refs, &encs, &mut w.r, &opts);
                let k = w.add_pack(p);
                w.install(k);
                // among them the last in the order of the index
                let mut v = pool.clone();
                v.sort_by_key(|&i| w.s.model.objs[i].id);
                let k = w.r.us(n - 20);
                if n < 5000 {
                    every = true;
                }
                pool = if every { v } else { v[..5].iter().chain(&v[n - 10..]).chain(&v[k..k + 10]).cloned().collect() };
            }
        }
        _ => {
            let n = 2 + w.r.us(14);
            let max = *w.r.pick(&[60, 600, 9000, 30_000]);
            pool = family(w, n, max);
            let pct = *w.r.pick(&[0, 0, 20]);
            w.store(&pool.clone(), pct);
        }
    }
    if w.r.chance(6) {
        // repositories that were never consolidated have the same object in many packs
        let k = 1 + w.r.us(3);
        let few: Vec<usize> = pool.iter().take(k).cloned().collect();
        for _ in 0..3 + w.r.us(5) {
            w.packed(&few.clone());
        }
    }
    if w.r.chance(20) {
        let i = w.small();
        w.put_loose(i);
        pool.push(i);
    }
    let nt = *w.r.pick(&[1, 1, 1, 2, 3]);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..3 + w.r.us(12) {
            let o = *w.r.pick(&pool);
            let s = w.read(o);
            l.push(s);
        }
        if every || w.r.chance(30) {
            for &o in pool.iter().take(if every { pool.len() } else { 20 }) {
                let s = w.read(o);
                l.push(s);
            }
        }
        lists.push(l);
    }
    w.lib(lists);
    w.soft();
}

fn c06(w: &mut W) {
    let n = 3 + w.r.us(8);
    let mut pool = Vec::new();
    for _ in 0..n {
        let ids = w.ids();
        let o = match w.r.us(10) {
            0..=3 => git::gen_commit(&mut w.r, &ids),
            4 | 5 => git::gen_tree(&mut w.r, &ids),
            6 | 7 => git::gen_tag(&mut w.r, &ids),
            _ => git::gen_blob(&mut w.r, 20_000),
        };
        pool.push(w.obj(o));
    }
    if w.r.chance(4) {
        let o = git::gen_huge(&mut w.r);
        pool.push(w.obj(o));
        w.s.cfg.bb_mean = 0;
        w.s.cfg.short_max = 4096;
        w.s.cfg.bb_cap = 1_000_000_000;
    }
    let pct = *w.r.pick(&[100, 60, 0]);
    w.store(&pool.clone(), pct);
    let mut lists = Vec::new();
    for _ in 0..*w.r.pick(&[1, 1, 2]) {
        lists.push(pool.iter().map(|&o| Parse { slot: 0, obj: o }).collect());
    }
    w.lib(lists);
    w.soft();
}

/// Git's maintenance of these objects: pack, prune, repack, drop.
fn maintenance(w: &mut W, pool: &[usize], rounds: usize) -> Vec<Step> {
    let mut steps = Vec::new();
    let mut live: Vec<usize> = (0..w.packs.len()).collect();
    for _ in 0..rounds {
        match w.r.us(3) {
            0 => {
                // pack some objects and remove their loose files
                let mut some = pool.to_vec();
                w.r.shuffle(&mut some);
                let k = 1 + w.r.us(some.len());
                some.truncate(k);
                let p = w.pack(&some);
                steps.push(GitPack { pack: p });
                live.push(p);
                if w.r.chance(70) {
                    for o in some {
                        steps.push(PrunePacked { obj: o });
                    }
                }
            }
            _ => {
                // consolidate everything
                let p = w.pack(pool);
                steps.push(GitPack { pack: p });
                for q in live.drain(..) {
                    if q != p {
                        steps.push(DropPack { pack: q, idx_first: w.r.chance(60) });
                    }
                }
                live.push(p);
                if w.r.chance(70) {
                    for &o in pool {
                        steps.push(PrunePacked { obj: o });
                    }
                }
            }
        }
        if w.r.chance(20) {
            let o = *w.r.pick(pool);
            steps.push(RmEmptyDir { obj: o });
        }
        if w.r.chance(30) {
            steps.push(Sleep(w.r.below(3_000_000_000) as i128));
        }
    }
    if w.r.chance(15) {
        // everything becomes loose again
        for &o in pool {
            steps.push(GitWrite { obj: o, link: w.r.chance(50) });
        }
        for q in live {
            steps.push(DropPack { pack: q, idx_first: true });
        }
    }
    steps
}

fn reads(w: &mut W, pool: &[usize], n: usize) -> Vec<Step> {
    let mut l = Vec::new();
    for _ in 0..n {
        let o = *w.r.pick(pool);
        let s = w.read(o);
        l.push(s);
        if w.r.chance(10) {
            l.push(Sleep(w.r.below(2_500_000_000) as i128));
        }
    }
    l
}

fn c07(w: &mut W) {
    if w.r.chance(2) {
        long_life(w, 0, 0);
        let stored: Vec<usize> = w.packs.iter().flat_map(|p| p.ids.clone()).map(|i| w.s.model.by_id[&i]).collect();
        if !stored.is_empty() {
            let rounds = 1 + w.r.us(3);
            let m = maintenance(w, &stored, rounds);
            w.ext(m);
        }
        w.soft();
        return;
    }
    let n = 2 + w.r.us(6);
    let max = *w.r.pick(&[60, 600, 9000]);
    let pool = family(w, n, max);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool.clone(), pct);
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let lists = (0..nt)
            .map(|_| {
                let n = 2 + w.r.us(6);
                reads(w, &pool, n)
            })
            .collect();
        w.lib(lists);
    }
    let rounds = 1 + w.r.us(4);
    let m = maintenance(w, &pool, rounds);
    w.ext(m);
    w.jumps();
    w.soft();
    if w.s.cfg.switch_pm < 100 && w.r.chance(60) {
        w.s.cfg.switch_pm = 250;
    }
}

fn c08(w: &mut W) {
    if w.r.chance(2) {
        long_life(w, 70, 5);
        w.jumps();
        return;
    }
    let nd = 1 + w.r.us(4);
    let have = family(w, nd, 600);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&have.clone(), pct);
    let nn = 1 + w.r.us(4);
    let new: Vec<usize> = (0..nn).map(|_| w.any(400)).filter(|i| !have.contains(i)).collect();
    let all: Vec<usize> = have.iter().chain(&new).copied().collect();
    // who adds
    let mut adds = Vec::new();
    for &o in &new {
        match w.r.us(3) {
            0 => adds.push(GitWrite { obj: o, link: w.r.chance(50) }),
            1 => {
                let mut v = vec![o];
                if w.r.chance(40) {
                    v.push(*w.r.pick(&all));
                    v.dedup();
                }
                // a pack holds only objects that exist
                let v: Vec<usize> = v.into_iter().filter(|x| *x == o || have.contains(x)).collect();
                let p = w.pack(&v);
                adds.push(GitPack { pack: p });
            }
            _ => {}
        }
        if w.r.chance(30) {
            adds.push(Sleep(w.r.below(4_000_000_000) as i128));
        }
        if w.r.chance(15) {
            let p = w.pack(&[o]);
            adds.push(GitPack { pack: p });
            adds.push(PrunePacked { obj: o });
        }
        if w.r.chance(10) {
            adds.push(Jump(*w.r.pick(&[-DAY, -SEC, SEC, DAY])));
        }
    }
    w.ext(adds);
    for p in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let lists = (0..nt)
            .map(|t| {
                let mut l = Vec::new();
                for _ in 0..3 + w.r.us(8) {
                    let o = if w.r.chance(70) && !new.is_empty() { *w.r.pick(&new) } else { *w.r.pick(&all) };
                    if (p == 1 || t == 1) && w.r.chance(25) {
                        l.push(Write { slot: 0, obj: o });
                    } else {
                        let s = w.read(o);
                        l.push(s);
                    }
                    if w.r.chance(15) {
                        l.push(Sleep(*w.r.pick(&[1_000_000, 500_000_000, 1_990_000_000, 2_010_000_000, 10_000_000_000])));
                    }
                }
                l
            })
            .collect();
        w.lib(lists);
    }
    w.jumps();
    if w.r.chance(50) {
        w.s.cfg.clock_step = *w.r.pick(&[0, 1000]);
    }
}

fn c09(w: &mut W) {
    if w.r.chance(1) {
        long_life(w, 20, 30);
        return;
    }
    let n = 2 + w.r.us(6);
    let max = *w.r.pick(&[60, 600, 20_000]);
    let mut pool = family(w, n, max);
    let pct = *w.r.pick(&[0, 20, 50]);
    w.store(&pool.clone(), pct);
    let names = w.refs_basic();
    for _ in 0..w.r.us(3) {
        // to be written
        let i = w.any(500);
        pool.push(i);
    }
    let nt = 2 + w.r.us(5);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(5) {
            let o = *w.r.pick(&pool);
            l.push(match w.r.us(12) {
                0..=7 => w.read(o),
                8 | 9 => Write { slot: 0, obj: o },
                10 => RefRead { slot: 0, name: if w.r.chance(80) { w.r.pick(&names).clone() } else { b"HEAD".to_vec() }, api: w.r.us(4) as u8 },
                _ => List { slot: 0, what: w.r.us(4) as u8 },
            });
        }
        lists.push(l);
    }
    w.lib(lists);
    w.s.cfg.bb_mean = *w.r.pick(&[0, 20, 50, 200, 1000]);
    if max > 1000 && w.s.cfg.bb_mean < 200 {
        w.s.cfg.bb_mean = 400;
    }
    if w.r.chance(30) {
        let rounds = 1 + w.r.us(2);
        let stored: Vec<usize> = w.packs.iter().flat_map(|p| p.ids.clone()).map(|i| w.s.model.by_id[&i]).collect();
        if !stored.is_empty() {
            let m = maintenance(w, &stored, rounds);
            w.ext(m);
        }
    }
    if w.r.chance(30) {
        w.soft();
    }
}

fn c10(w: &mut W) {
    let n = 2 + w.r.us(6);
    let mut pool = family(w, n, 2000);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool.clone(), pct);
    let names = w.refs_basic();
    let master = b"refs/heads/master".to_vec();
    if !names.iter().any(|n| n.starts_with(b"refs/heads/master")) {
        let v = w.direct_value();
        w.put_ref(&master, &v);
    }
    for _ in 0..1 + w.r.us(2) {
        let i = w.any(300);
        pool.push(i);
    }
    let nt = 1 + w.r.us(3);
    let mut lists = Vec::new();
    for t in 0..nt {
        let mut l = Vec::new();
        for phase in 0..2 {
            for _ in 0..2 + w.r.us(6) {
                let o = *w.r.pick(&pool);
                l.push(match w.r.us(12) {
                    0..=6 => w.read(o),
                    7 | 8 => Write { slot: 0, obj: o },
                    9 => RefRead { slot: 0, name: if w.r.chance(80) { w.r.pick(&names).clone() } else { b"HEAD".to_vec() }, api: w.r.us(5) as u8 },
                    10 => List { slot: 0, what: w.r.us(4) as u8 },
                    _ => Peel { slot: 0, name: w.r.pick(&names).clone(), api: w.r.us(3) as u8 },
                });
            }
            if phase == 0 {
                l.push(Barrier);
                if t == 0 && w.r.chance(30) {
                    l.push(Sleep(*w.r.pick(&[1_000_000, 3 * SEC])));
                }
            } else if t == 0 {
                l.push(VerifyAcked { slot: 0 });
                for &o in &pool {
                    let s = w.read(o);
                    l.push(s);
                }
            }
        }
        lists.push(l);
    }
    // the handle is opened before the first fault
    let p = w.proc();
    w.lib_on(p, Vec::new(), lists, false);
    w.soft();
    w.s.cfg.hard_sites = *w.r.pick(&[ALL_SITES, READ_SITES, WRITE_SITES]);
    w.hard(&[30, 100, 300, 700], 20);
    w.s.cfg.hard_phases = 1;
    if w.r.chance(30) {
        // files that cannot be read for a while
        let files = object_files(w);
        if !files.is_empty() {
            let path = w.r.pick(&files).clone();
            let e = *w.r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]);
            w.ext(vec![FaultOn { path, sites: READ_SITES, errno: e, prefix: false }, Barrier, FaultOff]);
            w.s.threads.last_mut().unwrap().name = "faults".into();
        }
    }
    if w.r.chance(30) {
        let rounds = 1;
        let stored: Vec<usize> = w.packs.iter().flat_map(|p| p.ids.clone()).map(|i| w.s.model.by_id[&i]).collect();
        if !stored.is_empty() {
            let mut m = maintenance(w, &stored, rounds);
            m.push(Barrier);
            w.ext(m);
        }
    }
}

fn c11(w: &mut W) {
    // an unusual repository
    let n = w.r.us(6);
    let pool = if n > 0 { family(w, n, 500) } else { Vec::new() };
    let pct = *w.r.pick(&[0, 50, 100]);
    if !pool.is_empty() {
        w.store(&pool.clone(), pct);
    }
    let names = if w.r.chance(70) { w.refs_basic() } else { Vec::new() };
    let gone: Vec<usize> = (0..2 + w.r.us(3)).map(|_| w.any(100)).filter(|i| !pool.contains(i)).collect();
    for &g in &gone {
        if w.r.chance(30) {
            let p = w.loose_path(g);
            w.s.fs.mkdirs(&p[..p.len() - 39]);
        }
    }
    // a pack whose file is missing, or a stray index
    let mut blind = false;
    if !w.packs.is_empty() && w.r.chance(20) {
        let p = w.r.us(w.packs.len());
        let ext = if w.r.chance(70) { "pack" } else { "idx" };
        let f = w.pack_path(p, ext);
        if let Ok(crate::fs::Walk::Found { parent, name, .. }) = w.s.fs.walk(0, &f, false) {
            w.s.fs.remove_link(parent, &name, NOW).unwrap();
            blind = true;
        }
    }
    let _ = blind;
    // directories and files for open
    w.s.fs.mkdirs(b"/w/open_empty");
    w.s.fs.mkdirs(b"/w/open_file");
    w.s.fs.put(b"/w/open_file/.git", Data::Small(b"gitdir: /w/repo/.git\n".to_vec()), NOW);
    w.s.fs.put(b"/w/open_plain", Data::Small(b"x".to_vec()), NOW);
    let bad: [(&[u8], bool); 8] = [
        (b"/w/open_empty", false),
        (b"/w/open_nothing", false),
        (b"/w/open_file", false),
        (b"/w/open_plain", false),
        (b"/w/open_nothing/deeper", false),
        (b"open_empty", false),
        (b"/w/repo", true),
        (b"repo", true),
    ];
    let missing: [&[u8]; 12] = [
        b"refs/heads/nope",
        b"refs/heads/no/such/dir",
        b"refs/nope",
        b"nope",
        b"refs/heads",
        b"refs/heads/",
        b"refs/heads/gone",
        b"refs/tags/v0",
        b"refs/remotes/origin/HEAD",
        b"HEAD/x",
        b"refs/heads/master/below",
        b"refs/heads/.",
    ];
    let nt = 1 + w.r.us(2);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..3 + w.r.us(8) {
            match w.r.us(10) {
                0..=3 if !gone.is_empty() => {
                    let o = *w.r.pick(&gone);
                    let s = w.read(o);
                    l.push(s);
                }
                4 | 5 if !pool.is_empty() => {
                    let o = *w.r.pick(&pool);
                    let s = w.read(o);
                    l.push(s);
                }
                6 => {
                    let (p, e) = *w.r.pick(&bad);
                    l.push(OpenBad { path: p.to_vec(), exists: e });
                }
                7 if !names.is_empty() => {
                    let mut nm = w.r.pick(&names).clone();
                    if w.r.chance(40) {
                        nm.extend_from_slice(b"/below");
                    }
                    l.push(RefRead { slot: 0, name: nm, api: 1 + w.r.us(3) as u8 });
                }
                8 => l.push(RefRead { slot: 0, name: b"HEAD".to_vec(), api: *w.r.pick(&[0, 4]) }),
                _ => l.push(RefRead { slot: 0, name: w.r.pick(&missing).to_vec(), api: 1 + w.r.us(3) as u8 }),
            }
        }
        lists.push(l);
    }
    w.lib(lists);
    if w.r.chance(25) {
        // parts of the repository that are not there
        for d in ["objects/pack", "refs/tags", "refs/heads", "objects/info", "HEAD"] {
            if w.r.chance(25) {
                if let Ok(crate::fs::Walk::Found { parent, name, ino }) = w.s.fs.walk(0, &gp(d), false) {
                    if !w.s.fs.is_dir(ino) || w.s.fs.dir(ino).unwrap().is_empty() {
                        w.s.fs.remove_link(parent, &name, NOW).unwrap();
                    }
                }
            }
        }
    }
    w.soft();
    if w.r.chance(70) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[30, 100, 300], 10);
    }
    if w.r.chance(15) {
        w.s.procs[0].fd_limit = 1 + w.r.us(4);
    }
    if w.r.chance(20) {
        let files = object_files(w);
        let mut cand: Vec<(Vec<u8>, bool)> = files.into_iter().map(|f| (f, false)).collect();
        cand.push((gp("objects/pack"), true));
        cand.push((gp("refs/heads"), true));
        let (path, prefix) = w.r.pick(&cand).clone();
        let e = *w.r.pick(&[libc::EIO, libc::EACCES]);
        // an unreadable pack directory makes every pack unreadable
        if !(prefix && path.ends_with(b"pack")) {
            w.ext(vec![FaultOn { path, sites: READ_SITES, errno: e, prefix }]);
        }
    }
}

fn ref_writer(w: &mut W, names: &[Vec<u8>], n: usize, dir_ops: bool) -> Vec<Step> {
    let mut l = Vec::new();
    for _ in 0..n {
        let nm = w.r.pick(names).clone();
        if dir_ops && nm != b"HEAD" && w.r.chance(30) {
            l.push(RefDelete { name: nm });
        } else {
            let sym = nm == b"HEAD" || w.r.chance(20);
            let v = if sym && w.r.chance(75) {
                let t = sym_target(w, names);
                w.sym_value(&t)
            } else {
                w.direct_value()
            };
            l.push(RefSet { name: nm, value: v });
        }
        if w.r.chance(15) {
            l.push(Sleep(w.r.below(1_000_000_000) as i128));
        }
    }
    l
}

fn sym_target(w: &mut W, names: &[Vec<u8>]) -> Vec<u8> {
    let odd: [&[u8]; 11] = [
        b"refs/heads/master",
        b"HEAD",
        b"ORIG_HEAD",
        b"refs/heads/unborn",
        b"refs/heads/caf\xc3\xa9",
        b"refs/heads/\xff\xfe",
        b"refs/heads/nbsp\xc2\xa0",
        b"refs/heads/ideographic\xe3\x80\x80",
        b"refs/heads/nel\xc2\x85",
        b"refs/heads/a#b",
        b"refs/remotes/origin/feature/x-y_z.1",
    ];
    if w.r.chance(50) {
        w.r.pick(&odd).to_vec()
    } else {
        let n = w.r.pick(names).clone();
        if n == b"HEAD" {
            b"refs/heads/master".to_vec()
        } else {
            n
        }
    }
}

fn compat(names: &[Vec<u8>], n: &[u8]) -> bool {
    !names.iter().any(|m| m == n || m.starts_with(&[n, b"/"].concat()) || n.starts_with(&[&m[..], b"/"].concat()))
}

fn c12(w: &mut W) {
    for _ in 0..3 {
        w.small();
    }
    let mut names: Vec<Vec<u8>> = vec![b"HEAD".to_vec()];
    for i in 0..1 + w.r.us(3) {
        let n = w.ref_name(i);
        if compat(&names, &n) {
            names.push(n);
        }
    }
    for n in names.clone() {
        if w.r.chance(75) {
            let v = if w.r.chance(35) {
                let t = sym_target(w, &names);
                w.sym_value(&t)
            } else {
                w.direct_value()
            };
            w.put_ref(&n, &v);
        }
    }
    let mut readable = names.clone();
    if w.r.chance(6) {
        readable.extend(w.put_aliases(&names, false));
    }
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let mut lists = Vec::new();
        for _ in 0..nt {
            let mut l = Vec::new();
            for _ in 0..2 + w.r.us(8) {
                let nm = w.r.pick(&readable).clone();
                let api = if nm == b"HEAD" { w.r.us(5) } else { 1 + w.r.us(3) } as u8;
                l.push(RefRead { slot: 0, name: nm, api });
            }
            lists.push(l);
        }
        w.lib(lists);
    }
    for _ in 0..1 + w.r.us(2) {
        let n = 2 + w.r.us(6);
        let l = ref_writer(w, &names, n, true);
        w.ext(l);
    }
    w.soft();
    if w.r.chance(35) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[30, 150], 6);
    }
}

fn c13(w: &mut W) {
    let n = w.r.us(10);
    let mut names: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let nm = w.ref_name(i);
        if compat(&names, &nm) {
            names.push(nm);
        }
    }
    for nm in names.clone() {
        let v = w.direct_value();
        w.put_ref(&nm, &v);
    }
    if w.r.chance(3) {
        // a repository with many references in one directory, or many directories
        let n = *w.r.pick(&[150, 400, 1200, 6000]);
        let per = *w.r.pick(&[1, 3, 100_000]);
        let base: &[u8] = *w.r.pick(&[&b"refs/heads/many/"[..], b"refs/tags/", b"refs/remotes/many/"]);
        let v = w.direct_value();
        for i in 0..n {
            let leaf = if per < n { format!("d{}/{}", i / per, i % per) } else { format!("n{}", i) };
            w.put_ref(&[base, leaf.as_bytes()].concat(), &v);
        }
        w.s.cfg.bb_mean = 0;
        w.s.cfg.bb_cap = 1_000_000_000;
        w.s.cfg.op_event_cap = 400_000;
        w.s.cfg.event_cap = 2_000_000;
    }
    if w.r.chance(8) {
        w.put_aliases(&names, false);
    }
    let mut extra: Vec<Vec<u8>> = Vec::new();
    for i in 0..w.r.us(4) {
        let nm = w.ref_name(50 + i);
        if compat(&names, &nm) && compat(&extra, &nm) {
            extra.push(nm);
        }
    }
    // stale lock files and empty directories
    if w.r.chance(30) {
        let l = [&b"refs/heads/stale"[..], b".lock"].concat();
        w.put_ref(&l, b"");
    }
    if w.r.chance(20) && !names.is_empty() {
        let nm = w.r.pick(&names).clone();
        let l = [&nm[..], b".lock"].concat();
        w.put_ref(&l, b"0123");
    }
    if w.r.chance(30) {
        w.s.fs.mkdirs(&gp("refs/heads/empty/dir"));
        w.s.fs.mkdirs(&gp("refs/tags/e"));
    }
    for d in ["refs/remotes", "refs/remotes/origin"] {
        if w.r.chance(30) {
            w.s.fs.mkdirs(&gp(d));
        }
    }
    if w.r.chance(15) {
        for d in ["refs/tags", "refs/heads"] {
            if let Ok(crate::fs::Walk::Found { parent, name, ino }) = w.s.fs.walk(0, &gp(d), false) {
                if w.r.chance(50) && w.s.fs.dir(ino).map_or(false, |d| d.is_empty()) {
                    w.s.fs.remove_link(parent, &name, NOW).unwrap();
                }
            }
        }
    }
    for _ in 0..1 + w.r.us(2) {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(4) {
            l.push(List { slot: 0, what: w.r.us(4) as u8 });
        }
        w.lib(vec![l]);
    }
    let all: Vec<Vec<u8>> = extra.iter().chain(names.iter().take(names.len() / 2)).cloned().collect();
    if !all.is_empty() && w.r.chance(80) {
        for _ in 0..1 + w.r.us(2) {
            let n = 1 + w.r.us(6);
            let l = ref_writer(w, &all, n, true);
            w.ext(l);
        }
    }
    w.soft();
    if w.r.chance(35) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[30, 150], 4);
    }
}

fn c14(w: &mut W) {
    let n = 2 + w.r.us(5);
    let pool = family(w, n, 400);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool.clone(), pct);
    let mut names: Vec<Vec<u8>> = vec![b"HEAD".to_vec()];
    for i in 0..2 + w.r.us(4) {
        let n = w.ref_name(i);
        if compat(&names, &n) {
            names.push(n);
        }
    }
    let direct = |w: &mut W| {
        let o = *w.r.pick(&pool);
        let id = w.s.model.objs[o].id;
        [git::hex(&id).as_bytes(), b"\n"].concat()
    };
    let chainy = w.r.chance(60);
    for (i, n) in names.clone().iter().enumerate() {
        let v = if i + 1 < names.len() && (chainy || n == b"HEAD" || w.r.chance(30)) {
            let t = if w.r.chance(85) { names[i + 1].clone() } else { w.r.pick(&names).clone() };
            w.sym_value(&t)
        } else {
            direct(w)
        };
        if w.r.chance(95) {
            w.put_ref(n, &v);
        }
    }
    let mut readable = names.clone();
    if w.r.chance(6) {
        readable.extend(w.put_aliases(&names, true));
    }
    let names: Vec<Vec<u8>> = names.into_iter().filter(|n| !w.s.model.aliases.contains_key(n)).collect();
    for _ in 0..1 + w.r.us(2) {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(5) {
            let nm = if w.r.chance(50) { b"HEAD".to_vec() } else { w.r.pick(&readable).clone() };
            l.push(Peel { slot: 0, name: nm, api: w.r.us(3) as u8 });
        }
        w.lib(vec![l]);
    }
    for _ in 0..w.r.us(3) {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(5) {
            let nm = w.r.pick(&names).clone();
            if nm != b"HEAD" && w.r.chance(10) {
                l.push(RefDelete { name: nm });
            } else {
                let v = if w.r.chance(40) {
                    let t = w.r.pick(&names).clone();
                    w.sym_value(&t)
                } else {
                    direct(w)
                };
                l.push(RefSet { name: nm, value: v });
            }
        }
        w.ext(l);
    }
    if w.r.chance(40) {
        let m = maintenance(w, &pool, 1);
        w.ext(m);
    }
    w.soft();
    if w.r.chance(20) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[30, 150], 4);
    }
}

fn c15(w: &mut W) {
    let pool = {
        let n = 3 + w.r.us(5);
        let max = *w.r.pick(&[200, 3000]);
        w.pool(n, max)
    };
    let k = pool.len() / 2 + 1;
    let some = pool[..k.min(pool.len())].to_vec();
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&some, pct);
    let names = w.refs_basic();
    let files = object_files(w);
    if w.r.chance(15) {
        forge(w, &some);
    }
    // damaged stored copies must not be touched either; stale temporary files belong to someone else
    let mut damage = Vec::new();
    if !files.is_empty() && w.r.chance(40) {
        for _ in 0..1 + w.r.us(2) {
            let path = w.r.pick(&files).clone();
            let how = *w.r.pick(&[0, 1, 2, 3]);
            let how = match how {
                0 => Damage::Flip(2),
                1 => Damage::Truncate,
                2 => Damage::Empty,
                _ => Damage::Zero,
            };
            damage.push(Step::Damage { path, how, unusable: false, salt: w.r.next() });
        }
    }
    for _ in 0..w.r.us(3) {
        let i = *w.r.pick(&pool);
        let p = w.loose_path(i);
        let dir = p[..p.len() - 39].to_vec();
        let n = *w.r.pick(&["/tmp_obj_aaaaaa", "/tmp_obj_4000_0", "/tmp_obj_0", ".tmp"]);
        let f = [&dir[..], n.as_bytes()].concat();
        if n.starts_with('/') {
            w.s.fs.put(&f, Data::Small(b"half an object".to_vec()), NOW - DAY);
        }
    }
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(3);
        let mut lists = Vec::new();
        for _ in 0..nt {
            let mut l = Vec::new();
            for _ in 0..1 + w.r.us(5) {
                let o = *w.r.pick(&pool);
                l.push(match w.r.us(12) {
                    0..=4 => Write { slot: 0, obj: o },
                    5..=7 => w.read(o),
                    8 => RefRead { slot: 0, name: w.r.pick(&names).clone(), api: 1 + w.r.us(3) as u8 },
                    9 => List { slot: 0, what: w.r.us(4) as u8 },
                    10 => OpenBad { path: WORK.to_vec(), exists: true },
                    _ => Peel { slot: 0, name: w.r.pick(&names).clone(), api: w.r.us(3) as u8 },
                });
            }
            lists.push(l);
        }
        w.lib(lists);
    }
    if !damage.is_empty() {
        w.ext(damage);
    }
    if w.r.chance(30) {
        let o = *w.r.pick(&pool);
        let link = w.r.chance(50);
        w.ext(vec![GitWrite { obj: o, link }, RmEmptyDir { obj: o }]);
    }
    if w.r.chance(30) {
        let l = ref_writer(w, &names, 3, true);
        w.ext(l);
    }
    write_faults(w);
    w.crash(25);
}

fn c16(w: &mut W) {
    let grace = *w.r.pick(&[3600 * SEC, DAY, 14 * DAY]);
    if w.r.chance(12) {
        let (pool, packs) = forgotten(w, grace);
        forgotten_writes(w, &pool);
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(4) {
            l.push(Sleep(*w.r.pick(&[SEC, grace / 3, grace / 2])));
            if w.r.chance(50) {
                l.push(ForgetPack { pack: *w.r.pick(&packs), grace });
            } else {
                l.push(PruneAge { obj: *w.r.pick(&pool), grace });
            }
        }
        w.ext(l);
        w.soft();
        if w.r.chance(40) {
            w.s.cfg.hard_sites = WRITE_SITES;
            w.hard(&[100, 300], 4);
        }
        return;
    }
    w.age_max = 60 * DAY;
    let n = 1 + w.r.us(4);
    let max = *w.r.pick(&[60, 600]);
    let pool = family(w, n, max);
    for &o in &pool.clone() {
        match w.r.us(10) {
            0..=6 => {
                let p = w.loose_path(o);
                let b = w.loose_bytes(o);
                let age = *w.r.pick(&[grace + SEC, grace + DAY, 60 * DAY, 1000 * DAY, grace / 2]);
                w.s.fs.put(&p, Data::Small(b), NOW - age);
            }
            7 => {}
            8 => {
                w.packed(&[o]);
            }
            _ => {
                w.packed(&[o]);
                w.put_loose(o);
            }
        }
    }
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(2);
        let mut lists = Vec::new();
        for _ in 0..nt {
            let mut l = Vec::new();
            for _ in 0..1 + w.r.us(4) {
                let o = *w.r.pick(&pool);
                if w.r.chance(80) {
                    l.push(Write { slot: 0, obj: o });
                } else {
                    let s = w.read(o);
                    l.push(s);
                }
                if w.r.chance(15) {
                    l.push(Sleep(*w.r.pick(&[SEC, grace / 3, grace / 2])));
                }
            }
            lists.push(l);
        }
        w.lib(lists);
    }
    for _ in 0..1 + w.r.us(2) {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(6) {
            let o = *w.r.pick(&pool);
            l.push(match w.r.us(8) {
                0 => RmEmptyDir { obj: o },
                1 => Sleep(w.r.below(SEC as u64) as i128),
                _ => PruneAge { obj: o, grace },
            });
        }
        w.ext(l);
    }
    w.s.cfg.clock_step = *w.r.pick(&[0, 1_000, 1_000_000]);
    w.soft();
    if w.r.chance(55) {
        w.s.cfg.hard_sites = if w.r.chance(60) { site_bit(Site::Utimens) } else { WRITE_SITES };
        w.hard(&[100, 300, 900], 6);
    }
}

fn c17(w: &mut W) {
    let n = 3 + w.r.us(4);
    let mut pool = family(w, n, *[600, 9000].get(w.r.clone().us(2)).unwrap());
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool.clone(), pct);
    let names = w.refs_basic();
    for _ in 0..2 {
        let i = w.any(300);
        pool.push(i);
    }
    let single = w.r.chance(50);
    if single {
        // long repetition on one thread: memory is measured
        let faults = w.r.chance(40);
        let mut cyc = Vec::new();
        for _ in 0..3 + w.r.us(4) {
            let o = *w.r.pick(&pool);
            cyc.push(match w.r.us(10) {
                0..=4 => w.read(o),
                5 | 6 => Write { slot: 0, obj: o },
                7 => RefRead { slot: 0, name: w.r.pick(&names).clone(), api: 1 + w.r.us(3) as u8 },
                8 => List { slot: 0, what: w.r.us(4) as u8 },
                _ => Peel { slot: 0, name: w.r.pick(&names).clone(), api: w.r.us(3) as u8 },
            });
        }
        let missing = w.any(50);
        cyc.push(Parse { slot: 0, obj: missing });
        let mut l = Vec::new();
        for _ in 0..4 {
            l.extend(cyc.iter().cloned());
        }
        // everything cached that may be cached
        for &o in &pool {
            l.push(Stream { slot: 0, obj: o, chunk: 4096, hold: 0 });
            if w.s.model.objs[o].fields_ok() {
                l.push(Parse { slot: 0, obj: o });
            }
        }
        l.push(Barrier);
        l.push(MemBase);
        let reps = 20 + w.r.us(30);
        let distinct = w.r.chance(30);
        for n in 0..reps {
            if n == reps / 2 {
                l.push(MemMid);
            }
            l.extend(cyc.iter().cloned());
            if distinct {
                // a lookup that finds nothing leaves nothing
                let o = w.any(8 + n);
                l.push(if w.r.chance(50) { Parse { slot: 0, obj: o } } else { Stream { slot: 0, obj: o, chunk: 100, hold: 0 } });
                l.push(RefRead { slot: 0, name: format!("refs/heads/none/{}", n).into_bytes(), api: 1 + w.r.us(3) as u8 });
            }
        }
        // a failing lookup elsewhere may be the first to need an object of a pack, which is then kept
        let kept: usize = if faults { w.packs.iter().map(|p| p.idx.len() + p.ids.iter().map(|i| 100 + w.s.model.objs[w.s.model.by_id[i]].body.len()).sum::<usize>()).sum() } else { 0 };
        l.push(MemCheck { slack: 2048 + kept as i64 });
        let mut before = Vec::new();
        let files = object_files(w);
        if !files.is_empty() && w.r.chance(35) {
            let path = w.r.pick(&files).clone();
            let how = if w.r.chance(40) { Damage::Empty } else { any_damage(w, None) };
            let salt = w.r.next();
            let e = w.ext(vec![Step::Damage { path, how, unusable: false, salt }]);
            before.push(WaitProc(e));
        }
        let p = w.proc();
        w.lib_on(p, before, vec![l], false);
        w.s.cfg.switch_pm = 0;
        w.s.cfg.pct = false;
        w.s.cfg.bb_mean = 0;
        if faults {
            w.s.cfg.hard_pm = *w.r.pick(&[10, 40]);
            w.s.cfg.max_hard = 200;
            w.s.cfg.hard_phases = if w.r.chance(50) { 1 } else { !1 };
        }
        w.soft();
    } else {
        for _ in 0..1 + w.r.us(2) {
            let nt = 1 + w.r.us(3);
            let mut lists = Vec::new();
            for _ in 0..nt {
                let mut l = Vec::new();
                for _ in 0..2 + w.r.us(6) {
                    let o = *w.r.pick(&pool);
                    l.push(match w.r.us(10) {
                        0..=3 => w.read(o),
                        4..=6 => Write { slot: 0, obj: o },
                        7 => RefRead { slot: 0, name: w.r.pick(&names).clone(), api: 1 + w.r.us(3) as u8 },
                        8 => List { slot: 0, what: w.r.us(4) as u8 },
                        _ => Peel { slot: 0, name: w.r.pick(&names).clone(), api: w.r.us(3) as u8 },
                    });
                }
                lists.push(l);
            }
            w.lib(lists);
        }
        write_faults(w);
        if w.s.cfg.hard_pm == 0 {
            w.hard(&[50, 200], 10);
        }
        let stored: Vec<usize> = w.packs.iter().flat_map(|p| p.ids.clone()).map(|i| w.s.model.by_id[&i]).collect();
        if !stored.is_empty() && w.r.chance(50) {
            let rounds = 1 + w.r.us(4);
            let m = maintenance(w, &stored, rounds);
            w.ext(m);
        }
        if w.r.chance(30) {
            let files = object_files(w);
            if !files.is_empty() {
                let path = w.r.pick(&files).clone();
                let how = any_damage(w, None);
                let salt = w.r.next();
                w.ext(vec![Step::Damage { path, how, unusable: false, salt }]);
            }
        }
    }
}

fn c18(w: &mut W) {
    let n = 4 + w.r.us(8);
    let mut pool = family(w, n, 1500);
    // at least two packs and some loose objects
    let third = pool.len() / 3;
    let (a, b, c) = (pool[..third].to_vec(), pool[third..2 * third].to_vec(), pool[2 * third..].to_vec());
    for &o in &c {
        w.put_loose(o);
    }
    let mut pa = a.clone();
    let mut pb = b.clone();
    if w.r.chance(30) {
        pb.push(a[0]);
    }
    if w.r.chance(30) {
        pa.push(c[0]);
    }
    w.packed(&pa);
    w.packed(&pb);
    for _ in 0..2 {
        let i = w.any(200);
        pool.push(i);
    }
    // the damaged file
    let files = object_files(w);
    let path = w.r.pick(&files).clone();
    let pack_file = path.ends_with(b".pack") || path.ends_with(b".idx");
    let mut steps = Vec::new();
    if w.r.chance(65) {
        let mut unusable = false;
        let same: Vec<Vec<u8>> = files.iter().filter(|f| **f != path && (!pack_file || f[f.len() - 4..] == path[path.len() - 4..])).cloned().collect();
        let how = match w.r.us(10) {
            8 | 9 if !same.is_empty() => {
                unusable = pack_file;
                Damage::Copy(w.r.pick(&same).clone())
            }
            0 => {
                unusable = pack_file;
                Damage::Empty
            }
            1 => {
                unusable = pack_file;
                let n = w.r.us(12);
                let b = w.r.bytes(n);
                Damage::Set(b)
            }
            2 => Damage::Truncate,
            3 => Damage::Remove,
            4 => Damage::Zero,
            5 => {
                let n = 1 + w.r.us(50);
                Damage::Tail(w.r.bytes(n))
            }
            _ => Damage::Flip(1 + w.r.us(6) as u32),
        };
        // an empty index or pack cannot be consulted, whether it is consulted before the damage is another matter
        steps.push(Step::Damage { path, how, unusable, salt: w.r.next() });
    } else {
        let e = *w.r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]);
        let sites = *w.r.pick(&[READ_SITES, site_bit(Site::Open), site_bit(Site::Read)]);
        steps.push(FaultOn { path, sites, errno: e, prefix: false });
    }
    let early = w.r.chance(60);
    let p = w.proc();
    let nt = 1 + w.r.us(2);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..3 + w.r.us(8) {
            let o = *w.r.pick(&pool);
            if w.r.chance(12) {
                l.push(Write { slot: 0, obj: o });
            }
            let s = w.read(o);
            l.push(s);
        }
        lists.push(l);
    }
    let e = w.ext(steps);
    let before = if early { vec![WaitProc(e)] } else { Vec::new() };
    // afterwards the file is restored from a backup
    let repair = w.r.us(6);
    let mut after = Vec::new();
    for _ in 0..3 {
        let o = *w.r.pick(&pool);
        let s = w.read(o);
        after.push(s);
    }
    if repair < 2 {
        let l = &mut lists[0];
        if nt > 1 {
            l.push(Join);
        }
        l.extend([WaitProc(e), FaultOff, Repair]);
        if repair == 0 {
            l.push(Drop { slot: 0 });
        } else {
            l.extend(after.clone());
        }
        let path = w.open_path();
        l.push(Open { slot: 1, path });
        l.push(VerifyAll { slot: 1 });
        if w.r.chance(30) {
            l.extend(after);
        }
        l.push(Drop { slot: 1 });
    } else if repair == 2 {
        let e2 = w.ext(vec![WaitProc(e), Sleep(w.r.clone().below(3 * SEC as u64) as i128), FaultOff, Repair]);
        let q = w.proc();
        w.lib_on(q, vec![WaitProc(e2)], vec![vec![VerifyAll { slot: 0 }]], false);
    }
    w.lib_on(p, before, lists, false);
    w.soft();
    w.jumps();
    if w.r.chance(20) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[20, 100], 4);
    }
}

fn c19(w: &mut W) {
    let pool = family(w, 3, 200);
    w.store(&pool, 50);
    let mut bad: Vec<Vec<u8>> = [
        &b"/etc/passwd"[..],
        b"../../../etc/passwd",
        b"../outside",
        b"../../outside/secret",
        b"refs/../../../outside/secret",
        b"refs/heads/../../../../outside/secret",
        b"refs/heads/none/../../../../../outside/secret",
        b"..",
        b"../",
        b"../../.git/HEAD",
        b"//etc/passwd",
        b"refs//../../README",
        b"./../README",
        b"../README",
        b"refs/heads/../../../README",
        b"/w/repo/.git/../README",
        b"/w/outside/secret",
        b"/",
        b"refs/..",
        b"refs/../..",
        b"refs/heads/./../../..",
    ]
    .iter()
    .map(|b| b.to_vec())
    .collect();
    let ups = 1 + w.r.us(6);
    bad.push([&b"../".repeat(ups)[..], b"w/outside/secret"].concat());
    bad.push([&b"refs/heads/"[..], &b"../".repeat(ups), b"outside/secret"].concat());
    let ok: [&[u8]; 6] = [b"refs/heads/master", b"HEAD", b"refs/heads/..dots", b"refs/heads/a..b", b"refs/heads/...", b"refs/tags/x"];
    let pick = |w: &mut W| if w.r.chance(85) { w.r.pick(&bad).clone() } else { w.r.pick(&ok).to_vec() };
    for n in ["HEAD", "refs/heads/master", "refs/heads/evil", "refs/tags/x"] {
        if w.r.chance(70) {
            let t = pick(w);
            let v = match w.r.us(6) {
                0 => [&b"ref: "[..], b"0123456789012345678901234567890123456789 ", &t, b"\n"].concat(),
                1 => [&t[..], b"\n"].concat(),
                2 if w.r.chance(50) => {
                    let t = [&b"ref: "[..], w.r.pick(&[&b"refs/heads/master"[..], b"refs/heads/evil"]), b"\n"].concat();
                    t
                }
                _ => w.sym_value(&t),
            };
            w.put_ref(n.as_bytes(), &v);
        }
    }
    let mut l = Vec::new();
    for _ in 0..3 + w.r.us(8) {
        let o = *w.r.pick(&pool);
        let stored: [&[u8]; 4] = [b"HEAD", b"refs/heads/master", b"refs/heads/evil", b"refs/tags/x"];
        let nm = if w.r.chance(60) { pick(w) } else { w.r.pick(&stored).to_vec() };
        l.push(match w.r.us(10) {
            0..=3 => RefRead { slot: 0, name: nm, api: 1 + w.r.us(3) as u8 },
            4..=6 => Peel { slot: 0, name: w.r.pick(&stored).to_vec(), api: w.r.us(3) as u8 },
            7 => List { slot: 0, what: w.r.us(4) as u8 },
            8 => w.read(o),
            _ => Write { slot: 0, obj: o },
        });
    }
    w.lib(vec![l]);
    if w.r.chance(30) {
        let mut s = Vec::new();
        for _ in 0..3 {
            let t = pick(w);
            let v = w.sym_value(&t);
            s.push(RefSet { name: b"refs/heads/evil".to_vec(), value: v });
        }
        w.ext(s);
    }
    w.soft();
    if w.r.chance(30) {
        w.hard(&[30, 150], 4);
    }
}

fn c21(w: &mut W) {
    let grace = *w.r.pick(&[3600 * SEC, DAY]);
    let n = 1 + w.r.us(5);
    let max = *w.r.pick(&[60, 600, 3000]);
    let pool = family(w, n, max);
    for &o in &pool {
        match w.r.us(8) {
            0..=2 => {
                w.put_loose(o);
            }
            3 => {
                w.packed(&[o]);
            }
            4 => {
                w.packed(&[o]);
                w.put_loose(o);
            }
            _ => {}
        }
        // a fan-out directory with what a killed process left
        if w.r.chance(35) {
            let p = w.loose_path(o);
            let dir = p[..p.len() - 39].to_vec();
            w.s.fs.mkdirs(&dir);
            for _ in 0..w.r.us(4) {
                let f = match w.r.us(3) {
                    0 => format!("/tmp_obj_{}_{}", 4000 + 7 * w.r.us(3), w.r.us(3)),
                    1 => format!("/tmp_obj_{:06x}", w.r.below(1 << 24)),
                    _ => "/tmp_obj_0".into(),
                };
                let i = w.s.fs.put(&[&dir[..], f.as_bytes()].concat(), Data::Small(b"left".to_vec()), NOW - DAY / 2);
                w.s.fs.inodes[i].mode = 0o444;
            }
            if w.r.chance(10) {
                // all that the threads of a process with this id had open
                let pid = 4000 + 7 * w.r.us(3);
                for k in 0..w.r.us(60) {
                    let f = format!("/tmp_obj_{}_{}", pid, k);
                    let i = w.s.fs.put(&[&dir[..], f.as_bytes()].concat(), Data::Small(b"left".to_vec()), NOW - DAY / 2);
                    w.s.fs.inodes[i].mode = 0o444;
                }
            }
        }
    }
    let pct = *w.r.pick(&[0, 40]);
    w.foreign(pct);
    let names = w.refs_basic();
    for _ in 0..1 + w.r.us(2) {
        let nt = 1 + w.r.us(3);
        let mut lists = Vec::new();
        for _ in 0..nt {
            let mut l = Vec::new();
            for _ in 0..1 + w.r.us(5) {
                let o = *w.r.pick(&pool);
                l.push(match w.r.us(10) {
                    0..=6 => Write { slot: 0, obj: o },
                    7 => w.read(o),
                    _ => OpenBad { path: if w.r.chance(80) { WORK.to_vec() } else { b"repo".to_vec() }, exists: true },
                });
            }
            lists.push(l);
        }
        w.lib(lists);
    }
    for _ in 0..1 + w.r.us(3) {
        let mut l = Vec::new();
        for _ in 0..1 + w.r.us(6) {
            let o = *w.r.pick(&pool);
            match w.r.us(12) {
                0..=3 => l.push(RmEmptyDir { obj: o }),
                4 | 5 => {
                    l.push(PruneAge { obj: o, grace });
                    if w.r.chance(60) {
                        l.push(RmEmptyDir { obj: o });
                    }
                }
                6 => l.push(PruneTmp { grace }),
                7 => l.push(GitWrite { obj: o, link: w.r.chance(50) }),
                8 => {
                    // only what git stored itself is complete for sure
                    l.push(GitWrite { obj: o, link: w.r.chance(50) });
                    let p = w.pack(&[o]);
                    l.push(GitPack { pack: p });
                    l.push(PrunePacked { obj: o });
                    l.push(RmEmptyDir { obj: o });
                }
                9 => {
                    let k = 1 + w.r.us(2);
                    let s = ref_writer(w, &names, k, true);
                    l.extend(s);
                }
                10 => l.push(PrunePacked { obj: o }),
                _ => l.push(Sleep(w.r.below(SEC as u64) as i128)),
            }
        }
        w.ext(l);
    }
    w.s.cfg.clock_step = *w.r.pick(&[0, 1_000, 1_000_000]);
    w.soft();
    if w.s.cfg.switch_pm < 100 && w.r.chance(60) {
        w.s.cfg.switch_pm = 300;
    }
    if w.r.chance(10) {
        w.same_pids();
    }
}

fn c22(w: &mut W) {
    let grace = 3600 * SEC;
    let n = 2 + w.r.us(5);
    let max = *w.r.pick(&[60, 600, 20_000]);
    let pool = family(w, n, max);
    let pct = *w.r.pick(&[0, 50, 100]);
    w.store(&pool.clone(), pct);
    let nt = 1 + w.r.us(3);
    let mut lists = Vec::new();
    for _ in 0..nt {
        let mut l = Vec::new();
        for _ in 0..2 + w.r.us(5) {
            let o = *w.r.pick(&pool);
            match w.r.us(10) {
                0..=4 => {
                    let len = w.s.model.objs[o].full.len();
                    let part = if w.s.model.objs[o].fields_ok() && w.r.chance(50) { None } else { Some(*w.r.pick(&[0, 0, 1, 9, len / 2, len])) };
                    l.push(Keep { slot: 0, obj: o, part });
                }
                5..=7 => l.push(Recheck { n: w.r.us(8) }),
                8 => l.push(Write { slot: 0, obj: o }),
                _ => {
                    let s = w.read(o);
                    l.push(s);
                }
            }
            if w.r.chance(15) {
                l.push(Sleep(w.r.below(3 * SEC as u64) as i128));
            }
        }
        lists.push(l);
    }
    let first = w.s.threads.len();
    w.lib(lists);
    for _ in 0..w.r.us(12) {
        // after the handle was closed
        let n = w.r.us(12);
        w.s.threads[first].steps.push(Recheck { n });
    }
    let mut l = Vec::new();
    let rounds = 1 + w.r.us(2);
    l.extend(maintenance(w, &pool, rounds));
    for _ in 0..w.r.us(6) {
        let o = *w.r.pick(&pool);
        l.push(PruneAge { obj: o, grace });
    }
    for p in 0..w.packs.len() {
        if w.r.chance(40) {
            l.push(ForgetPack { pack: p, grace: w.r.below(2) as i128 * grace });
        }
    }
    w.ext(l);
    w.soft();
    if w.r.chance(20) {
        w.s.cfg.hard_sites = READ_SITES;
        w.hard(&[20, 100], 4);
    }
}
