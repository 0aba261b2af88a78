//! The simulator kernel: threads, scheduler, clock, faults and system calls.
//!
//! Simulated threads are real threads of which exactly one runs at any time; the kernel is only touched by the thread
//! that holds the token, so it needs no lock.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use crate::fs::{Data, Fs, Ino, Node, Walk, ROOT};
use crate::model::{self, Model, Mut};
use crate::rng::{h4, mix};
use crate::shared::*;
use crate::sys;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const FD_BASE: i32 = 1000;
pub const MS: i128 = 1_000_000;
pub const SEC: i128 = 1_000_000_000;

macro_rules! probes {
    ($($id:ident = $n:expr, $name:expr;)*) => {
        $(pub const $id: usize = $n;)*
        pub const PROBE_NAMES: &[(usize, &str)] = &[$(($n, $name)),*];
    };
}
probes! {
    P_EINTR = 0, "interrupted call";
    P_SHORT_READ = 1, "short read";
    P_SHORT_WRITE = 2, "short write";
    P_READ_ERR = 3, "read error";
    P_WRITE_ERR = 4, "write error";
    P_OPEN_ERR = 5, "open error";
    P_EMFILE = 6, "out of descriptors";
    P_STAT_ERR = 7, "stat error";
    P_OPENDIR_ERR = 8, "opendir error";
    P_READDIR_ERR = 9, "readdir error";
    P_MKDIR_ERR = 10, "mkdir error";
    P_RENAME_ERR = 11, "rename/link error";
    P_UNLINK_ERR = 12, "unlink error";
    P_UTIME_ERR = 13, "utimens error";
    P_OTHER_ERR = 14, "other call error";
    P_NOSPC = 15, "disk full";
    P_KILL = 16, "process killed";
    P_MONO = 17, "clock jump forward";
    P_REAL = 18, "wall clock jump";
    P_FLIP = 19, "bit flip in read data";
    P_PERSIST = 20, "persistent file fault";
    P_DAMAGE = 21, "stored bytes damaged";
    P_DTYPE = 22, "directory entry of unknown type";
    P_POWER = 23, "power loss";
    P_FDLIMIT = 24, "descriptor limit reached";
    P_RESTART = 25, "process restarted";
    P_REPAIR = 26, "damaged file replaced by an intact one";
    R_PACK_VANISH = 32, "reach: pack file vanished before open";
    R_LOOSE_VANISH = 33, "reach: loose file vanished during read";
    R_FUTEX_WAIT = 34, "reach: thread waited for a mutex";
    R_SPIN = 35, "reach: thread waited for a map shard";
    R_EXISTS = 36, "reach: write found the object stored";
    R_CREATE_RACE = 37, "reach: create found an existing file";
    R_READ_OK = 38, "reach: object read and verified";
    R_READ_ERR = 39, "reach: object read failed";
    R_READ_MISS = 40, "reach: object reported missing";
    R_WRITE_OK = 41, "reach: write acknowledged";
    R_WRITE_ERR = 42, "reach: write failed";
    R_REF_OK = 43, "reach: reference read";
    R_REF_MISS = 44, "reach: reference reported missing";
    R_REF_ERR = 45, "reach: reference read failed";
    R_LIST_OK = 46, "reach: listing returned";
    R_LIST_ERR = 47, "reach: listing failed";
    R_PEEL_OK = 48, "reach: peel returned object";
    R_PEEL_ERR = 49, "reach: peel failed";
    R_DELTA = 50, "reach: read of a delta object";
    R_DEEP = 51, "reach: read through a chain of 10 or more deltas";
    R_PACK_MOVED = 52, "reach: object moved to a pack";
    R_PRUNED = 53, "reach: loose object pruned";
    R_REF_CHANGED = 54, "reach: reference changed during its read";
    R_LARGE_OFF = 55, "reach: read at a 64-bit offset";
    R_HELD_READER = 56, "reach: reader kept open across other operations";
    R_FOREIGN = 58, "reach: age renewal of a file owned by another user";
    R_KEPT_GONE = 59, "reach: kept result used after its object left the repository";
    R_KEPT_CLOSED = 60, "reach: kept result used after its handle was closed";
    R_STRICT_AFTER_FAULT = 57, "reach: strict operation after an earlier fault on the same handle";
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Ready,
    Futex { addr: usize, deadline: Option<i128>, real: bool },
    Spin { at: u64, tries: u32 },
    Sleep(i128),
    Barrier(u32),
    WaitProc(usize),
    /// Until every other thread of the process is done.
    WaitPeers,
    WaitHandle(usize, usize),
    Done,
    Dead,
}

pub struct Thread {
    pub proc: usize,
    pub lib: bool,
    pub state: St,
    pub go: AtomicU32,
    pub op: u32,
    pub k: u32,
    /// Events of the thread before its current operation.
    pub k0: u32,
    /// Index into `ops` while an operation runs.
    pub rec: Option<usize>,
    pub eintr_run: u32,
    pub fault_exempt: bool,
    pub timed_out: bool,
    pub prio: u64,
    pub name: String,
}

pub struct Proc {
    pub pid: i32,
    pub user: u8,
    pub dead: bool,
    pub fds: BTreeMap<i32, Fd>,
    pub last_hard: u64,
    pub last_soft: u64,
    pub last_persist: u64,
    pub last_persist_write: u64,
    /// Packs (by bit) whose index this process has opened while it was intact.
    pub consulted: u128,
    pub statics: Vec<u8>,
    pub handles: Vec<Option<std::sync::Arc<rusty_git::repository::Repository>>>,
    pub kept: Vec<crate::exec::Kept>,
    /// Event at which each handle was opened.
    pub opened: Vec<u64>,
    pub open_failed: bool,
    pub fd_limit: usize,
    pub open_dirs: usize,
    pub burst: u32,
}

#[derive(Clone)]
pub struct Fd {
    pub ino: Ino,
    /// shared by duplicates
    pub off: std::sync::Arc<AtomicU64>,
    pub flags: i32,
    pub path: Vec<u8>,
    pub op: u64,
    pub dirpos: Option<usize>,
}

pub struct SimDir {
    pub entries: Vec<(Vec<u8>, Ino, u8)>,
    pub pos: usize,
    pub fd: i32,
    pub ent: libc::dirent64,
    pub fail_at: Option<(usize, i32)>,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub tid: usize,
    pub proc: usize,
    pub what: String,
    pub inv: u64,
    pub inv_real: i128,
    pub target: Option<usize>,
    pub present_all: bool,
    pub absent_all: bool,
    pub write: bool,
    pub open_op: bool,
    pub done: bool,
    /// A write of the target had been acknowledged before.
    pub acked: bool,
    /// The object a write stores.
    pub write_id: Option<[u8; 20]>,
    pub tainted_any: bool,
    /// All the time the only copy of the target was a loose file with more content than the object has.
    pub long_all: bool,
    /// The loose copy of the target was last seen as new as this write.
    pub fresh: bool,
    /// ... and then another operation gave it a slightly older age.
    pub outdated: bool,
    /// The operation's result is kept, and with it a descriptor.
    pub keeps: bool,
    pub blind_any: bool,
    /// Packs (by bit) that could not be consulted at any time during the operation.
    pub blind_all: u128,
    pub faulty: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub switch_pm: u64,
    pub pct: bool,
    pub pct_changes: Vec<u64>,
    pub bb_mean: u64,
    pub hard_pm: u64,
    pub hard_sites: u64,
    pub max_hard: u64,
    pub hard_phases: u32,
    pub soft_pm: u64,
    pub soft_phases: u32,
    pub short_max: u64,
    pub burst: u32,
    pub crash_pm: u64,
    pub crash_phases: u32,
    pub max_crash: u64,
    pub flip_pm: u64,
    pub flip_phases: u32,
    pub clock_step: u64,
    pub mono_jump_pm: u64,
    pub real_jump_pm: u64,
    pub real_shift: i128,
    pub dtype_unknown_pm: u64,
    pub cpus: i32,
    pub op_event_cap: u32,
    pub bb_cap: u64,
    pub event_cap: u64,
    pub mem_cap: i64,
}

#[derive(Clone, Debug)]
pub struct PFault {
    pub path: Vec<u8>,
    pub prefix: bool,
    pub sites: u64,
    pub errno: i32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Site {
    Open = 0,
    Create = 1,
    Read = 2,
    Write = 3,
    Stat = 4,
    Opendir = 5,
    Readdir = 6,
    Mkdir = 7,
    Rename = 8,
    Link = 9,
    Unlink = 10,
    Utimens = 11,
    Fsync = 12,
    Mmap = 13,
    Close = 14,
    Other = 15,
}

pub fn site_bit(s: Site) -> u64 {
    1 << (s as u64)
}
pub const ALL_SITES: u64 = (1 << 16) - 1;
pub const READ_SITES: u64 = 1 | (1 << 2) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 13);
pub const WRITE_SITES: u64 = (1 << 1) | (1 << 3) | (1 << 7) | (1 << 8) | (1 << 9) | (1 << 10) | (1 << 11) | (1 << 12) | (1 << 14);

pub struct Kernel {
    pub seed: u64,
    pub fs: Fs,
    pub threads: Vec<Thread>,
    pub procs: Vec<Proc>,
    pub cur: usize,
    pub loaded_proc: usize,
    pub ev: u64,
    pub normal: u64,
    pub mono: i128,
    pub real_off: i128,
    pub cfg: Cfg,
    pub dirs: HashMap<usize, (usize, Box<SimDir>)>,
    pub maps: Vec<(usize, usize)>,
    pub ops: Vec<OpRec>,
    pub running: Vec<usize>,
    pub model: Model,
    pub phase: u32,
    pub replay: Option<HashMap<(u8, u16, u32, u32), u64>>,
    pub bb_replay: HashMap<(u16, u32), Vec<(u32, u64)>>,
    pub sh: &'static mut Shared,
    pub hard_count: u64,
    pub crash_count: u64,
    pub pfaults: Vec<PFault>,
    pub flag: fn(&str) -> bool,
    pub rand_ctr: u64,
    pub main_go: AtomicU32,
    pub gitdir: Vec<u8>,
    pub workdir: Vec<u8>,
    pub pristine: Vec<u8>,
    pub known: fn(&str, &str) -> bool,
    /// Contents of damaged files before the damage, and whether their bytes (not only their name) were touched.
    pub backup: BTreeMap<Vec<u8>, (Vec<u8>, bool)>,
    /// Processes of several users work on the repository.
    pub users: bool,
    pub mem_base: i64,
    pub mem_mid: i64,
    /// Pack and index bytes of every announced pack.
    pub pack_files: Vec<(Vec<u8>, Vec<u8>)>,
}

static mut KERNEL: *mut Kernel = std::ptr::null_mut();

pub fn k() -> &'static mut Kernel {
    unsafe { &mut *KERNEL }
}
pub fn install(kern: Kernel) {
    unsafe { KERNEL = Box::into_raw(Box::new(kern)) }
}
pub fn installed() -> bool {
    unsafe { !KERNEL.is_null() }
}

fn futex(op: i32, w: &AtomicU32, v: u32) {
    unsafe {
        sys::raw6(libc::SYS_futex, w as *const _ as usize, (op | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0);
    }
}
pub fn wait_go(w: &AtomicU32) {
    loop {
        if w.swap(0, SeqCst) == 1 {
            return;
        }
        futex(libc::FUTEX_WAIT, w, 0);
    }
}
pub fn post_go(w: &AtomicU32) {
    w.store(1, SeqCst);
    futex(libc::FUTEX_WAKE, w, 1);
}

pub type R = Result<i64, i32>;

impl Kernel {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.sh.log_on != 0 {
            let t = &self.threads[self.cur];
            let s = format!("{:>6} {:<10} op{}.{} {}", self.ev, t.name, t.op as i64, t.k, f());
            self.sh.push_log(&s);
        }
    }

    pub fn real(&self) -> i128 {
        self.mono + self.real_off
    }

    pub fn th(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.threads[c]
    }

    pub fn probe(&mut self, p: usize) {
        self.sh.probes[p] += 1;
    }

    /// Environment randomness that is not part of the schedule (hash seeds, getrandom).
    pub fn env_rand(&mut self) -> u64 {
        self.rand_ctr += 1;
        h4(self.seed, 0xE17, self.rand_ctr, 0)
    }

    fn record(&mut self, kind: u8, arg: u64) {
        let t = &self.threads[self.cur];
        self.record_at(kind, self.cur as u16, t.op, t.k, arg);
    }
    fn record_at(&mut self, kind: u8, tid: u16, op: u32, k: u32, arg: u64) {
        let n = self.sh.ndec as usize;
        if n >= MAX_DEC {
            self.sh.dec_overflow = 1;
            return;
        }
        self.sh.dec[n] = Decision { kind, tid, op, k, arg };
        self.sh.ndec += 1;
        self.sh.trace = mix(self.sh.trace ^ mix((kind as u64) << 48 ^ (tid as u64) << 32 ^ (op as u64) << 16 ^ k as u64) ^ arg);
    }

    /// Draw for the current event; salt separates independent questions.
    fn draw(&self, salt: u64) -> u64 {
        let t = &self.threads[self.cur];
        h4(self.seed, ((self.cur as u64) << 32) | t.op as u64, t.k as u64, salt)
    }

    fn replayed(&self, kind: u8) -> Option<u64> {
        let t = &self.threads[self.cur];
        self.replay.as_ref().unwrap().get(&(kind, self.cur as u16, t.op, t.k)).copied()
    }

    pub fn faults_on(&self) -> bool {
        let t = &self.threads[self.cur];
        t.lib && !t.fault_exempt && t.rec.is_some()
    }

    pub fn phase_in(&self, mask: u32) -> bool {
        mask & (1 << self.phase.min(31)) != 0
    }

    /// One scheduling point. Everything the current thread does next is atomic until its next event.
    pub fn event(&mut self, kind: &'static str, detail: u64) {
        self.ev += 1;
        self.normal += 1;
        self.sh.events += 1;
        let c = self.cur;
        self.threads[c].k += 1;
        if let St::Spin { .. } = self.threads[c].state {
            self.threads[c].state = St::Ready;
        }
        let kk = self.threads[c].k;
        self.sh.sched_hash = mix(self.sh.sched_hash ^ (c as u64) ^ mix(detail ^ kind.len() as u64 ^ (kind.as_bytes()[0] as u64) << 8));
        if self.ev > self.cfg.event_cap {
            self.finish(ST_TRUNCATED);
        }
        if self.threads[c].rec.is_some() && kk - self.threads[c].k0.min(kk) > self.cfg.op_event_cap {
            let what = self.cur_what();
            self.anomaly("HANG", format!("{} made more than {} system calls without finishing", what, self.cfg.op_event_cap));
            self.finish(ST_TRUNCATED);
        }
        // clock
        if self.cfg.clock_step > 0 {
            self.mono += (1 + self.draw(11) % self.cfg.clock_step) as i128;
        }
        let lib = self.threads[c].lib;
        if lib && self.threads[c].rec.is_some() {
            if self.replay.is_some() {
                if let Some(a) = self.replayed(D_MONO) {
                    self.jump_mono(a as i64 as i128);
                }
                if let Some(a) = self.replayed(D_REAL) {
                    self.jump_real(a as i64 as i128);
                }
                if self.replayed(D_CRASH).is_some() {
                    self.crash_current();
                }
            } else {
                if self.cfg.mono_jump_pm > 0 && self.draw(12) % 1000 < self.cfg.mono_jump_pm {
                    let opts: [i128; 5] = [1_000_000, 1_900_000_000, 2_100_000_000, 60_000_000_000, 86_400_000_000_000];
                    let a = opts[(self.draw(13) % 5) as usize];
                    self.jump_mono(a);
                }
                if self.cfg.real_jump_pm > 0 && self.draw(14) % 1000 < self.cfg.real_jump_pm {
                    let opts: [i128; 5] = [-86_400_000_000_000, -3_000_000_000, 3_000_000_000, 86_400_000_000_000, -1_000_000_000_000_000];
                    let a = opts[(self.draw(15) % 5) as usize];
                    self.jump_real(a);
                }
                if self.cfg.crash_pm > 0
                    && self.crash_count < self.cfg.max_crash
                    && self.phase_in(self.cfg.crash_phases)
                    && self.draw(16) % 1000 < self.cfg.crash_pm
                {
                    self.crash_current();
                }
            }
        }
        self.preempt();
    }

    fn cur_what(&self) -> String {
        match self.threads[self.cur].rec {
            Some(r) => self.ops[r].what.clone(),
            None => self.threads[self.cur].name.clone(),
        }
    }

    fn jump_mono(&mut self, a: i128) {
        self.mono += a;
        self.probe(P_MONO);
        self.record(D_MONO, a as i64 as u64);
        self.log(|| format!("clock jumps {} ms", a / MS));
    }
    fn jump_real(&mut self, a: i128) {
        self.real_off += a;
        self.probe(P_REAL);
        self.record(D_REAL, a as i64 as u64);
        self.log(|| format!("wall clock jumps {} ms", a / MS));
    }

    fn crash_current(&mut self) {
        let p = self.threads[self.cur].proc;
        self.record(D_CRASH, p as u64);
        self.probe(P_KILL);
        self.crash_count += 1;
        self.log(|| format!("process {} killed", p));
        self.kill_proc(p);
        self.leave();
    }

    pub fn kill_proc(&mut self, p: usize) {
        self.procs[p].dead = true;
        self.procs[p].fds.clear();
        for i in 0..self.threads.len() {
            if self.threads[i].proc == p && self.threads[i].state != St::Done {
                self.threads[i].state = St::Dead;
                if let Some(r) = self.threads[i].rec.take() {
                    self.ops[r].done = true;
                    self.running.retain(|&x| x != r);
                }
            }
        }
        model::on_kill(self, p);
    }

    fn runnable(&self, i: usize) -> bool {
        match &self.threads[i].state {
            St::Ready => true,
            St::Futex { deadline, real, .. } => deadline.map_or(false, |d| d <= if *real { self.real() } else { self.mono }),
            St::Spin { at, .. } => self.normal > *at,
            St::Sleep(t) => *t <= self.mono,
            St::Barrier(ph) => self.phase > *ph,
            St::WaitProc(p) => self.proc_finished(*p),
            St::WaitPeers => self.threads.iter().enumerate().all(|(j, t)| j == i || t.proc != self.threads[i].proc || matches!(t.state, St::Done | St::Dead)),
            St::WaitHandle(p, s) => self.procs[*p].handles[*s].is_some() || self.procs[*p].open_failed || self.procs[*p].dead,
            St::Done | St::Dead => false,
        }
    }

    fn proc_finished(&self, p: usize) -> bool {
        self.procs[p].dead || self.threads.iter().all(|t| t.proc != p || t.state == St::Done || t.state == St::Dead)
    }

    /// Possibly hand the token to another thread, the current one stays runnable.
    fn preempt(&mut self) {
        let c = self.cur;
        let target = if self.replay.is_some() {
            match self.replayed(D_SWITCH) {
                Some(t) if (t as usize) < self.threads.len() && self.runnable(t as usize) => t as usize,
                _ => return,
            }
        } else if self.cfg.pct {
            let ev = self.ev;
            if self.cfg.pct_changes.contains(&ev) {
                self.threads[c].prio = h4(self.seed, 0x9c7, ev, 1) >> 32; // below every initial priority
            }
            let mut best = c;
            for i in 0..self.threads.len() {
                if i != c && self.runnable(i) && !matches!(self.threads[i].state, St::Spin { .. }) && self.threads[i].prio > self.threads[best].prio {
                    best = i;
                }
            }
            if best == c {
                return;
            }
            best
        } else {
            if self.cfg.switch_pm == 0 || self.draw(1) % 1000 >= self.cfg.switch_pm {
                return;
            }
            let n = self.threads.len();
            let mut cnt = 0;
            for i in 0..n {
                if i != c && self.runnable(i) {
                    cnt += 1;
                }
            }
            if cnt == 0 {
                return;
            }
            let mut w = self.draw(2) % cnt;
            let mut t = c;
            for i in 0..n {
                if i != c && self.runnable(i) {
                    if w == 0 {
                        t = i;
                        break;
                    }
                    w -= 1;
                }
            }
            t
        };
        if target == c {
            return;
        }
        self.record(D_SWITCH, target as u64);
        self.switch_to(target, false);
    }

    /// Called from the basic-block callback: maybe preempt inside library code.
    pub fn bb_preempt(&mut self, count: u64) {
        if count >= self.cfg.bb_cap {
            let what = self.cur_what();
            self.anomaly("HANG", format!("{} executed more than {} basic blocks of library code", what, count));
            self.finish(ST_TRUNCATED);
        }
        let c = self.cur;
        let op = self.threads[c].op;
        if self.replay.is_some() {
            if let Some(list) = self.bb_replay.get(&(c as u16, op)) {
                if let Some(&(_, t)) = list.iter().find(|(n, _)| *n as u64 == count) {
                    let t = t as usize;
                    if t < self.threads.len() && t != c && self.runnable(t) {
                        self.record_at(D_BB, c as u16, op, count as u32, t as u64);
                        self.sh.preempts += 1;
                        self.log(|| format!("preempted in library code at block {}", count));
                        self.normal += 1;
                        self.switch_to(t, false);
                    }
                }
            }
        } else if self.cfg.bb_mean > 0 {
            let n = self.threads.len();
            let cands: Vec<usize> = (0..n).filter(|&i| i != c && self.threads[i].proc == self.threads[c].proc && self.runnable(i)).collect();
            if !cands.is_empty() {
                let t = cands[(h4(self.seed, (c as u64) << 32 | op as u64, count, 77) % cands.len() as u64) as usize];
                self.record_at(D_BB, c as u16, op, count as u32, t as u64);
                self.sh.preempts += 1;
                self.log(|| format!("preempted in library code at block {}", count));
                self.normal += 1;
                self.switch_to(t, false);
            }
        }
        self.arm_bb(count);
    }

    /// Set the block count of the next preemption of the current thread.
    pub fn arm_bb(&mut self, count: u64) {
        let c = self.cur;
        let op = self.threads[c].op;
        let mut next = self.cfg.bb_cap;
        if self.replay.is_some() {
            if let Some(list) = self.bb_replay.get(&(c as u16, op)) {
                if let Some(m) = list.iter().map(|(n, _)| *n as u64).filter(|n| *n > count).min() {
                    next = next.min(m);
                }
            }
        } else if self.cfg.bb_mean > 0 && self.threads[c].rec.is_some() {
            next = next.min(count + 1 + h4(self.seed, (c as u64) << 32 | op as u64, count, 78) % (2 * self.cfg.bb_mean));
        }
        sys::set_bb_next(next);
    }

    fn wake_from_wait(&mut self, i: usize) {
        if let St::Futex { .. } = self.threads[i].state {
            self.threads[i].timed_out = true;
        }
        self.threads[i].state = St::Ready;
    }

    /// The current thread cannot continue: choose another. Returns when the current thread is scheduled again.
    pub fn block(&mut self) {
        self.threads[self.cur].k += 1;
        let next = self.pick();
        if next == self.cur {
            self.wake_from_wait(next);
            return;
        }
        self.switch_to(next, false);
    }

    /// The current thread ends or is dead: hand the token over for good.
    pub fn leave(&mut self) {
        self.threads[self.cur].k += 1;
        let dead = self.threads[self.cur].state == St::Dead;
        if self.threads.iter().all(|t| matches!(t.state, St::Done | St::Dead)) {
            post_go(&self.main_go);
        } else {
            let next = self.pick();
            self.switch_to(next, true);
        }
        if dead {
            let w = AtomicU32::new(0);
            loop {
                futex(libc::FUTEX_WAIT, &w, 0);
            }
        }
    }

    fn pick(&mut self) -> usize {
        let n = self.threads.len();
        let mut spin_rounds = 0;
        loop {
            let cands: Vec<usize> = (0..n).filter(|&i| self.runnable(i)).collect();
            if !cands.is_empty() {
                let def = *cands.iter().find(|&&i| i > self.cur).unwrap_or(&cands[0]);
                let c = self.cur;
                let t = if self.replay.is_some() {
                    match self.replayed(D_PICK) {
                        Some(t) if cands.contains(&(t as usize)) => t as usize,
                        _ => def,
                    }
                } else if self.cfg.pct {
                    *cands.iter().max_by_key(|&&i| (!matches!(self.threads[i].state, St::Spin { .. }), self.threads[i].prio)).unwrap()
                } else {
                    cands[(self.draw(3) % cands.len() as u64) as usize]
                };
                if t != def {
                    let (op, kk) = (self.threads[c].op, self.threads[c].k);
                    self.record_at(D_PICK, c as u16, op, kk, t as u64);
                }
                return t;
            }
            // sleepers: the clock jumps to the next timer
            let next_timer = self
                .threads
                .iter()
                .filter_map(|t| match &t.state {
                    St::Sleep(x) => Some(*x),
                    _ => None,
                })
                .min();
            if let Some(t) = next_timer {
                self.mono = self.mono.max(t);
                continue;
            }
            if self.threads.iter().any(|t| matches!(t.state, St::Barrier(_)))
                && self.threads.iter().all(|t| matches!(t.state, St::Barrier(_) | St::Done | St::Dead | St::WaitProc(_) | St::WaitPeers))
            {
                self.phase += 1;
                model::on_phase(self);
                continue;
            }
            let deadline = self
                .threads
                .iter()
                .filter_map(|t| match &t.state {
                    St::Futex { deadline: Some(d), real, .. } => Some(if *real { *d - self.real_off } else { *d }),
                    _ => None,
                })
                .min();
            if let Some(d) = deadline {
                self.mono = self.mono.max(d);
                continue;
            }
            // spinners get a few more tries before this counts as a deadlock
            if spin_rounds < 3 {
                if let Some(i) = (0..n).find(|&i| matches!(self.threads[i].state, St::Spin { tries, .. } if tries < 50)) {
                    if let St::Spin { tries, .. } = &mut self.threads[i].state {
                        *tries += 1;
                    }
                    return i;
                }
                spin_rounds += 1;
                continue;
            }
            let stuck: Vec<String> = self
                .threads
                .iter()
                .filter(|t| !matches!(t.state, St::Done | St::Dead))
                .map(|t| {
                    let state = match t.state {
                        St::Futex { .. } => "waits for a lock",
                        St::Spin { .. } => "spins on a lock",
                        _ => "waits",
                    };
                    format!("{} ({}, {})", t.name, state, t.rec.map_or("-".into(), |r| self.ops[r].what.clone()))
                })
                .collect();
            if self.threads.iter().any(|t| matches!(t.state, St::Futex { .. } | St::Spin { .. })) {
                self.anomaly("DEADLOCK", format!("no thread can continue: {}", stuck.join("; ")));
                self.finish(ST_TRUNCATED);
            }
            self.harness(format!("nothing runnable: {}", stuck.join("; ")));
        }
    }

    fn switch_to(&mut self, next: usize, gone: bool) {
        let me = self.cur;
        if me == next {
            return;
        }
        self.sh.switches += 1;
        match self.threads[next].state {
            St::Ready => {}
            _ => self.wake_from_wait(next),
        }
        self.cur = next;
        self.sh.cur_tid = next as u32;
        self.sh.sched_hash = mix(self.sh.sched_hash ^ 0x51 ^ ((next as u64) << 8));
        let p = self.threads[next].proc;
        if self.threads[next].lib && p != self.loaded_proc {
            let old = self.loaded_proc;
            if old != usize::MAX {
                sys::save_statics(&mut self.procs[old].statics);
            }
            sys::load_statics(&self.procs[p].statics);
            self.loaded_proc = p;
        }
        let my_go: *const AtomicU32 = &self.threads[me].go;
        post_go(&self.threads[next].go);
        if !gone {
            unsafe { wait_go(&*my_go) };
        }
    }

    /// Start: load the statics of a thread's process and hand it the token (called by the main thread).
    pub fn start(&mut self) {
        self.cur = 0;
        let n = self.threads.len();
        let first = if self.replay.is_some() {
            match self.replay.as_ref().unwrap().get(&(D_PICK, u16::MAX, 0, 0)) {
                Some(&t) if (t as usize) < n => t as usize,
                _ => 0,
            }
        } else {
            (h4(self.seed, 0x57a, 0, 0) % n as u64) as usize
        };
        if first != 0 {
            self.record_at(D_PICK, u16::MAX, 0, 0, first as u64);
        }
        self.cur = first;
        self.sh.cur_tid = first as u32;
        let p = self.threads[first].proc;
        if self.threads[first].lib {
            sys::load_statics(&self.procs[p].statics);
            self.loaded_proc = p;
        }
        post_go(&self.threads[first].go);
        wait_go(&self.main_go);
    }

    pub fn finish(&mut self, status: u32) -> ! {
        if self.sh.status == ST_RUNNING {
            self.sh.status = status;
        }
        self.sh.sim_ns = (self.mono.max(0)) as u64;
        unsafe { libc::_exit(0) }
    }

    pub fn harness(&mut self, text: String) -> ! {
        self.sh.status = ST_HARNESS;
        self.sh.set_text(&text);
        unsafe { libc::_exit(0) }
    }

    /// A check failed. Ends the run when the property under check cares about this kind.
    pub fn anomaly(&mut self, kind: &str, text: String) {
        self.log(|| format!("ANOMALY {} {}", kind, text));
        if (self.flag)(kind) && !(self.known)(kind, &text) {
            let t = format!("{}\n{}", kind, text);
            self.sh.set_text(&t);
            self.finish(ST_VIOLATION);
        }
    }

    // ---------------------------------------------------------------- faults

    fn note_hard(&mut self) {
        let p = self.threads[self.cur].proc;
        let ev = self.ev;
        self.procs[p].last_hard = ev;
    }

    /// Decide whether this call fails hard. `path` is the normalised path where known.
    fn fault(&mut self, site: Site, path: &[u8]) -> Option<i32> {
        if !self.faults_on() {
            return None;
        }
        for f in &self.pfaults {
            let hit = if f.prefix { path.starts_with(&f.path) } else { path == &f.path[..] };
            if hit && f.sites & site_bit(site) != 0 {
                let e = f.errno;
                let pre = f.prefix;
                self.probe(P_PERSIST);
                if pre {
                    self.note_hard();
                } else {
                    let (p, ev) = (self.threads[self.cur].proc, self.ev);
                    self.procs[p].last_persist = ev;
                    // a pack that cannot be used never stands in the way of a write
                    if !path.windows(14).any(|w| w == b"/objects/pack/") {
                        self.procs[p].last_persist_write = ev;
                    }
                }
                self.log(|| format!("persistent fault {:?} {} -> {}", site, String::from_utf8_lossy(path), errno_name(e)));
                return Some(e);
            }
        }
        let e = if self.replay.is_some() {
            self.replayed(D_FAULT)? as i32
        } else {
            if self.cfg.hard_pm == 0 || self.hard_count >= self.cfg.max_hard || !self.phase_in(self.cfg.hard_phases) || self.cfg.hard_sites & site_bit(site) == 0 {
                return None;
            }
            let p = self.threads[self.cur].proc;
            let pm = if self.procs[p].burst > 0 {
                self.procs[p].burst -= 1;
                500
            } else {
                self.cfg.hard_pm
            };
            if self.draw(20) % 1000 >= pm {
                return None;
            }
            use libc::*;
            let list: &[i32] = match site {
                Site::Open => &[EIO, EMFILE, EACCES, ENFILE, ENOMEM, EPERM],
                Site::Create => &[EIO, EMFILE, EACCES, ENOSPC, EROFS, EDQUOT],
                Site::Read => &[EIO, EIO, ESTALE],
                Site::Write => &[EIO, ENOSPC, EDQUOT, EFBIG],
                Site::Stat => &[EIO, EACCES, ENOMEM],
                Site::Opendir => &[EIO, EMFILE, EACCES, ENOMEM],
                Site::Readdir => &[EIO],
                Site::Mkdir => &[EIO, EACCES, ENOSPC, EROFS],
                Site::Rename | Site::Link => &[EIO, EACCES, ENOSPC, EROFS, EPERM],
                Site::Unlink => &[EIO, EACCES, EPERM],
                Site::Utimens => &[EPERM, EACCES, EROFS, EIO],
                Site::Fsync => &[EIO, ENOSPC],
                Site::Mmap => &[ENOMEM],
                Site::Close => &[EIO],
                Site::Other => &[EIO],
            };
            list[(self.draw(21) % list.len() as u64) as usize]
        };
        self.hard_count += 1;
        let p = self.threads[self.cur].proc;
        if self.procs[p].burst == 0 && self.cfg.burst > 0 && self.replay.is_none() {
            self.procs[p].burst = self.cfg.burst;
        }
        self.note_hard();
        self.record(D_FAULT, e as u64);
        let pr = match site {
            Site::Open | Site::Create if e == libc::EMFILE || e == libc::ENFILE => P_EMFILE,
            Site::Create | Site::Write if e == libc::ENOSPC => P_NOSPC,
            Site::Open | Site::Create => P_OPEN_ERR,
            Site::Read => P_READ_ERR,
            Site::Write => P_WRITE_ERR,
            Site::Stat => P_STAT_ERR,
            Site::Opendir => P_OPENDIR_ERR,
            Site::Readdir => P_READDIR_ERR,
            Site::Mkdir => P_MKDIR_ERR,
            Site::Rename | Site::Link => P_RENAME_ERR,
            Site::Unlink => P_UNLINK_ERR,
            Site::Utimens => P_UTIME_ERR,
            _ => P_OTHER_ERR,
        };
        self.probe(pr);
        self.log(|| format!("FAULT {:?} {} -> {}", site, String::from_utf8_lossy(path), errno_name(e)));
        Some(e)
    }

    /// EINTR (Err) or a shortened length (Ok).
    fn soft(&mut self, n: usize, write: bool) -> Result<usize, i32> {
        if !self.faults_on() || n == 0 {
            return Ok(n);
        }
        let a = if self.replay.is_some() {
            match self.replayed(D_SOFT) {
                Some(a) => a,
                None => {
                    self.th().eintr_run = 0;
                    return Ok(n);
                }
            }
        } else {
            if self.cfg.soft_pm == 0 || !self.phase_in(self.cfg.soft_phases) || self.draw(30) % 1000 >= self.cfg.soft_pm {
                self.th().eintr_run = 0;
                return Ok(n);
            }
            if self.draw(31) % 3 == 0 && self.threads[self.cur].eintr_run < 4 {
                0
            } else {
                let max = (n as u64).min(self.cfg.short_max.max(1));
                1 + self.draw(32) % max
            }
        };
        self.record(D_SOFT, a);
        let p = self.threads[self.cur].proc;
        let ev = self.ev;
        self.procs[p].last_soft = ev;
        if a == 0 {
            self.th().eintr_run += 1;
            self.probe(P_EINTR);
            self.log(|| "EINTR".into());
            return Err(libc::EINTR);
        }
        self.th().eintr_run = 0;
        let a = (a as usize).min(n);
        if a < n {
            self.probe(if write { P_SHORT_WRITE } else { P_SHORT_READ });
        }
        Ok(a)
    }

    // ---------------------------------------------------------------- paths and mutations

    fn at_ino(&self, dirfd: i32) -> Result<Ino, i32> {
        if dirfd == libc::AT_FDCWD {
            return Ok(self.fs.lookup(&self.cwd()).unwrap_or(ROOT));
        }
        let p = self.threads[self.cur].proc;
        self.procs[p].fds.get(&dirfd).map(|f| f.ino).ok_or(libc::EBADF)
    }

    pub fn cwd(&self) -> Vec<u8> {
        b"/w".to_vec()
    }

    /// Normalise a path the library touches and check that it stays inside the repository.
    fn note_path(&mut self, at: Ino, path: &[u8], call: &str) -> Vec<u8> {
        let norm = self.fs.normalise(at, path);
        let t = &self.threads[self.cur];
        if t.lib && t.rec.is_some() {
            let g = &self.gitdir;
            let inside = norm == *g || (norm.starts_with(g) && norm[g.len()] == b'/');
            let sysdir = [&b"/proc"[..], b"/sys", b"/dev"].iter().any(|p| norm.starts_with(p) && (norm.len() == p.len() || norm[p.len()] == b'/'));
            let open_op = self.ops[t.rec.unwrap()].open_op;
            // opening may look at any path its caller named (to resolve it, for instance)
            let ancestor = open_op && (matches!(call, "stat" | "readlink") || g.starts_with(&norm) || norm == self.workdir || norm.starts_with(b"/w/open"));
            if !inside && !sysdir && !ancestor {
                let what = self.cur_what();
                self.anomaly(
                    "OUTSIDE",
                    format!("{}: {} of {} reaches {} outside {}", what, call, String::from_utf8_lossy(path), String::from_utf8_lossy(&norm), String::from_utf8_lossy(&self.gitdir)),
                );
            }
        }
        norm
    }

    fn device(&self, ino: Ino) -> u64 {
        let p = self.fs.path_of(ino);
        if p.starts_with(b"/tmp/") || p == b"/tmp" {
            2
        } else {
            1
        }
    }

    fn opno(&self) -> u64 {
        match self.threads[self.cur].rec {
            Some(r) => r as u64 + 1,
            None => 0,
        }
    }

    pub fn mutate(&mut self, m: Mut) {
        model::on_mutation(self, m);
    }

    fn new_fd(&mut self, f: Fd) -> R {
        let p = self.threads[self.cur].proc;
        let lim = self.procs[p].fd_limit;
        if self.procs[p].fds.len() >= lim {
            self.probe(P_FDLIMIT);
            self.note_hard();
            self.log(|| "descriptor limit".into());
            return Err(libc::EMFILE);
        }
        let mut n = FD_BASE;
        for (&fd, _) in self.procs[p].fds.range(FD_BASE..) {
            if fd != n {
                break;
            }
            n += 1;
        }
        self.procs[p].fds.insert(n, f);
        Ok(n as i64)
    }

    pub fn sys_dup(&mut self, fd: i32) -> R {
        self.event("dup", fd as u64);
        let mut f = self.fd(fd)?.clone();
        if let Some(e) = self.fault(Site::Open, &f.path) {
            return Err(e);
        }
        f.op = self.opno();
        self.log(|| format!("dup {}", String::from_utf8_lossy(&f.path)));
        self.new_fd(f)
    }

    pub fn fd(&mut self, fd: i32) -> Result<&mut Fd, i32> {
        let p = self.threads[self.cur].proc;
        self.procs[p].fds.get_mut(&fd).ok_or(libc::EBADF)
    }

    // ---------------------------------------------------------------- users

    fn umask(&self) -> u32 {
        if self.users {
            0o002
        } else {
            0o022
        }
    }

    /// Does the file belong to another user than the one of the running process?
    fn is_foreign(&self, ino: Ino) -> bool {
        let n = &self.fs.inodes[ino];
        n.foreign || {
            let owner = if n.creator == usize::MAX { 0 } else { self.procs[n.creator].user };
            owner != self.procs[self.threads[self.cur].proc].user
        }
    }

    /// What the running process may do with a file (4 read, 2 write, 1 search). All users are in one group.
    fn rights(&self, ino: Ino) -> u32 {
        self.fs.inodes[ino].mode >> if self.is_foreign(ino) { 3 } else { 6 }
    }

    /// Path resolution by the running process.
    fn walk(&self, at: Ino, path: &[u8], follow: bool) -> Result<Walk, i32> {
        let w = self.fs.walk(at, path, follow)?;
        if self.users {
            let mut d = match &w {
                Walk::Found { parent, .. } | Walk::Missing { parent, .. } => *parent,
            };
            loop {
                if self.rights(d) & 1 == 0 {
                    return Err(libc::EACCES);
                }
                let up = self.fs.parent_of(d);
                if up == d {
                    break;
                }
                d = up;
            }
        }
        Ok(w)
    }

    fn may_write(&self, dir: Ino) -> Result<(), i32> {
        if self.users && self.rights(dir) & 2 == 0 {
            return Err(libc::EACCES);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- system calls

    pub fn sys_open(&mut self, dirfd: i32, path: &[u8], flags: i32, mode: u32) -> R {
        use libc::{EEXIST, ENOENT, O_CREAT};
        self.event("open", hash_bytes(path));
        let at = self.at_ino(dirfd)?;
        let norm = self.note_path(at, path, "open");
        let creating = flags & O_CREAT != 0;
        let r = self.open_inner(at, path, &norm, flags, mode, creating);
        self.log(|| format!("open {} flags={:#o} -> {}", String::from_utf8_lossy(path), flags, show(&r)));
        if r == Err(ENOENT) && !creating && self.threads[self.cur].lib {
            let pk = [&self.gitdir[..], b"/objects/pack/"].concat();
            if norm.starts_with(&pk) && norm.len() > pk.len() {
                self.probe(R_PACK_VANISH);
            }
        }
        if r == Err(EEXIST) {
            self.probe(R_CREATE_RACE);
        }
        r
    }

    fn open_inner(&mut self, at: Ino, path: &[u8], norm: &[u8], flags: i32, mode: u32, creating: bool) -> R {
        use libc::*;
        if let Some(e) = self.fault(if creating { Site::Create } else { Site::Open }, norm) {
            return Err(e);
        }
        // an interrupted open has no length to shorten
        self.soft_intr()?;
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let excl = creating && flags & O_EXCL != 0;
        let follow = flags & O_NOFOLLOW == 0 && !excl;
        let acc = flags & O_ACCMODE;
        let w = self.walk(at, path, follow)?;
        let opno = self.opno();
        let now = self.real();
        let ino = match w {
            Walk::Found { ino, .. } => {
                if excl {
                    return Err(EEXIST);
                }
                if let Node::Symlink(_) = self.fs.inodes[ino].node {
                    return Err(ELOOP);
                }
                if self.fs.is_dir(ino) {
                    if acc != O_RDONLY || creating {
                        return Err(EISDIR);
                    }
                } else if flags & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                // the processes do not run as root
                let m = self.rights(ino);
                if (acc != O_RDONLY && m & 2 == 0) || (acc != O_WRONLY && m & 4 == 0) {
                    return Err(EACCES);
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY && !self.fs.is_dir(ino) {
                    if let Node::File(d) = &mut self.fs.inodes[ino].node {
                        let l = d.len();
                        *d = Data::Small(Vec::new());
                        self.fs.used = self.fs.used.saturating_sub(l);
                    }
                    self.fs.inodes[ino].version += 1;
                    self.fs.inodes[ino].mtime = now;
                    self.mutate(Mut::Content { ino, what: "truncate" });
                }
                ino
            }
            Walk::Missing { parent, name } => {
                if !creating {
                    return Err(ENOENT);
                }
                if path.ends_with(b"/") {
                    return Err(EISDIR);
                }
                self.may_write(parent)?;
                if self.fs.used >= self.fs.capacity {
                    self.probe(P_NOSPC);
                    self.note_hard();
                    return Err(ENOSPC);
                }
                let proc = self.threads[self.cur].proc;
                // check the descriptor limit before the file comes into being
                if self.procs[proc].fds.len() >= self.procs[proc].fd_limit {
                    self.note_hard();
                    return Err(EMFILE);
                }
                let ino = self.fs.new_inode(Node::File(Data::Small(Vec::new())), now, mode & 0o777 & !self.umask(), proc, opno);
                self.fs.add_link(parent, &name, ino, now)?;
                self.mutate(Mut::Link { dir: parent, name, ino, replaced: None, what: "create" });
                ino
            }
        };
        let path = self.fs.path_of(ino);
        if path.ends_with(b".idx") {
            model::on_index_open(self, &path);
        }
        self.new_fd(Fd { ino, off: Default::default(), flags, path, op: opno, dirpos: None })
    }

    /// Only the EINTR half of the soft faults.
    fn soft_intr(&mut self) -> Result<(), i32> {
        // use length 1: a shortened length of 1 is no fault
        match self.soft(1, false) {
            Err(e) => Err(e),
            Ok(_) => Ok(()),
        }
    }

    pub fn sys_read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R {
        self.event("read", fd as u64);
        let f = self.fd(fd)?.clone();
        if self.fs.is_dir(f.ino) {
            return Err(libc::EISDIR);
        }
        if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        if let Some(e) = self.fault(Site::Read, &f.path) {
            return Err(e);
        }
        let n = self.soft(buf.len(), false)?;
        let off = at.unwrap_or(f.off.load(Relaxed));
        let got = match &self.fs.inodes[f.ino].node {
            Node::File(d) => d.read_at(off, &mut buf[..n]),
            _ => return Err(libc::EINVAL),
        };
        if at.is_none() {
            f.off.store(off + got as u64, Relaxed);
        }
        if got > 0 {
            self.maybe_flip(&mut buf[..got], &f.path);
        }
        self.log(|| format!("read {} at {} of {} -> {}", String::from_utf8_lossy(&f.path), off, n, got));
        Ok(got as i64)
    }

    fn maybe_flip(&mut self, buf: &mut [u8], path: &[u8]) {
        if !self.faults_on() {
            return;
        }
        let a = if self.replay.is_some() {
            match self.replayed(D_FLIP) {
                Some(a) => a,
                None => return,
            }
        } else {
            if self.cfg.flip_pm == 0 || !self.phase_in(self.cfg.flip_phases) || self.draw(40) % 1000 >= self.cfg.flip_pm {
                return;
            }
            self.draw(41)
        };
        let i = (a >> 3) as usize % buf.len();
        buf[i] ^= 1 << (a & 7);
        self.record(D_FLIP, a);
        self.probe(P_FLIP);
        self.note_hard();
        let p = self.threads[self.cur].proc;
        self.model.flipped_procs.insert(p);
        self.log(|| format!("bit flip in data read from {}", String::from_utf8_lossy(path)));
    }

    pub fn sys_write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R {
        self.event("write", fd as u64);
        let f = self.fd(fd)?.clone();
        if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        if let Some(e) = self.fault(Site::Write, &f.path) {
            return Err(e);
        }
        let mut n = self.soft(buf.len(), true)?;
        let size = match &self.fs.inodes[f.ino].node {
            Node::File(d) => d.len(),
            _ => return Err(libc::EINVAL),
        };
        let off = if f.flags & libc::O_APPEND != 0 { size } else { at.unwrap_or(f.off.load(Relaxed)) };
        let grow = (off + n as u64).saturating_sub(size);
        if grow > 0 {
            let free = self.fs.capacity.saturating_sub(self.fs.used);
            if free == 0 {
                self.probe(P_NOSPC);
                self.note_hard();
                self.log(|| "write: no space".into());
                return Err(libc::ENOSPC);
            }
            if grow > free {
                n -= (grow - free) as usize;
                self.probe(P_SHORT_WRITE);
            }
        }
        let now = self.real();
        if let Node::File(Data::Small(v)) = &mut self.fs.inodes[f.ino].node {
            let end = off as usize + n;
            if v.len() < end {
                self.fs.used += (end - v.len()) as u64;
                v.resize(end, 0);
            }
            v[off as usize..end].copy_from_slice(&buf[..n]);
        } else {
            return Err(libc::EFBIG);
        }
        self.fs.inodes[f.ino].version += 1;
        self.fs.inodes[f.ino].mtime = now;
        if at.is_none() {
            f.off.store(off + n as u64, Relaxed);
        }
        self.log(|| format!("write {} at {} -> {}", String::from_utf8_lossy(&f.path), off, n));
        if n > 0 {
            self.mutate(Mut::Content { ino: f.ino, what: "write" });
        }
        Ok(n as i64)
    }

    pub fn sys_ftruncate(&mut self, fd: i32, len: u64) -> R {
        self.event("ftruncate", fd as u64);
        let f = self.fd(fd)?.clone();
        if let Some(e) = self.fault(Site::Write, &f.path) {
            return Err(e);
        }
        let now = self.real();
        if let Node::File(Data::Small(v)) = &mut self.fs.inodes[f.ino].node {
            let old = v.len() as u64;
            if len > 1 << 30 {
                return Err(libc::EFBIG);
            }
            v.resize(len as usize, 0);
            self.fs.used = self.fs.used + len - old.min(self.fs.used);
        }
        self.fs.inodes[f.ino].version += 1;
        self.fs.inodes[f.ino].mtime = now;
        self.mutate(Mut::Content { ino: f.ino, what: "truncate" });
        Ok(0)
    }

    pub fn sys_close(&mut self, fd: i32) -> R {
        self.event("close", fd as u64);
        let p = self.threads[self.cur].proc;
        let f = self.procs[p].fds.remove(&fd);
        match f {
            Some(f) => {
                self.log(|| format!("close {}", String::from_utf8_lossy(&f.path)));
                let wr = f.flags & libc::O_ACCMODE != libc::O_RDONLY;
                if wr {
                    if let Some(e) = self.fault(Site::Close, &f.path) {
                        return Err(e);
                    }
                }
                Ok(0)
            }
            None => {
                let what = self.cur_what();
                self.anomaly("FD_MISUSE", format!("{}: close of descriptor {} that is not open", what, fd));
                Err(libc::EBADF)
            }
        }
    }

    pub fn sys_lseek(&mut self, fd: i32, off: i64, whence: i32) -> R {
        self.event("lseek", fd as u64);
        let f = self.fd(fd)?.clone();
        let size = match &self.fs.inodes[f.ino].node {
            Node::File(d) => d.len() as i64,
            _ => 0,
        };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.off.load(Relaxed) as i64,
            libc::SEEK_END => size,
            _ => return Err(libc::EINVAL),
        };
        let n = base.checked_add(off).ok_or(libc::EOVERFLOW)?;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        f.off.store(n as u64, Relaxed);
        self.log(|| format!("lseek {} -> {}", String::from_utf8_lossy(&f.path), n));
        Ok(n)
    }

    pub fn sys_stat(&mut self, dirfd: i32, path: &[u8], follow: bool) -> Result<Ino, i32> {
        self.event("stat", hash_bytes(path));
        let at = self.at_ino(dirfd)?;
        let norm = self.note_path(at, path, "stat");
        if let Some(e) = self.fault(Site::Stat, &norm) {
            return Err(e);
        }
        let r = match self.walk(at, path, follow)? {
            Walk::Found { ino, .. } => Ok(ino),
            Walk::Missing { .. } => Err(libc::ENOENT),
        };
        self.log(|| format!("stat {} -> {}", String::from_utf8_lossy(path), if r.is_ok() { "ok" } else { "ENOENT" }));
        r
    }

    pub fn sys_fstat(&mut self, fd: i32) -> Result<Ino, i32> {
        self.event("fstat", fd as u64);
        let f = self.fd(fd)?.clone();
        if let Some(e) = self.fault(Site::Stat, &f.path) {
            return Err(e);
        }
        Ok(f.ino)
    }

    pub fn stat_fields(&self, ino: Ino) -> (u64, u32, u64, i128, u32) {
        let n = &self.fs.inodes[ino];
        let (fmt, size) = match &n.node {
            Node::File(d) => (libc::S_IFREG, d.len()),
            Node::Dir(_) => (libc::S_IFDIR, 4096),
            Node::Symlink(t) => (libc::S_IFLNK, t.len() as u64),
        };
        (self.device(ino), fmt | n.mode, size, n.mtime, n.nlink)
    }

    pub fn sys_mkdir(&mut self, dirfd: i32, path: &[u8], mode: u32) -> R {
        self.event("mkdir", hash_bytes(path));
        let at = self.at_ino(dirfd)?;
        let norm = self.note_path(at, path, "mkdir");
        if let Some(e) = self.fault(Site::Mkdir, &norm) {
            return Err(e);
        }
        let r = match self.walk(at, path, false)? {
            Walk::Found { .. } => Err(libc::EEXIST),
            Walk::Missing { parent, name } => {
                self.may_write(parent)?;
                let (now, p, o) = (self.real(), self.threads[self.cur].proc, self.opno());
                let ino = self.fs.new_inode(Node::Dir(BTreeMap::new()), now, mode & 0o777 & !self.umask(), p, o);
                self.fs.add_link(parent, &name, ino, now)?;
                self.mutate(Mut::Link { dir: parent, name, ino, replaced: None, what: "mkdir" });
                Ok(0)
            }
        };
        self.log(|| format!("mkdir {} -> {}", String::from_utf8_lossy(path), show(&r)));
        r
    }

    pub fn sys_rmdir(&mut self, dirfd: i32, path: &[u8]) -> R {
        self.event("rmdir", hash_bytes(path));
        let at = self.at_ino(dirfd)?;
        let norm = self.note_path(at, path, "rmdir");
        if let Some(e) = self.fault(Site::Unlink, &norm) {
            return Err(e);
        }
        match self.walk(at, path, false)? {
            Walk::Found { parent, name, ino } => {
                self.may_write(parent)?;
                if !self.fs.dir(ino)?.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
                let now = self.real();
                self.fs.remove_link(parent, &name, now)?;
                self.mutate(Mut::Unlink { dir: parent, name, ino, what: "rmdir" });
                Ok(0)
            }
            Walk::Missing { .. } => Err(libc::ENOENT),
        }
    }

    pub fn sys_unlink(&mut self, dirfd: i32, path: &[u8]) -> R {
        self.event("unlink", hash_bytes(path));
        let at = self.at_ino(dirfd)?;
        let norm = self.note_path(at, path, "unlink");
        if let Some(e) = self.fault(Site::Unlink, &norm) {
            self.log(|| format!("unlink {} -> {}", String::from_utf8_lossy(path), errno_name(e)));
            if let Some(r) = self.threads[self.cur].rec {
                self.model.cleanup_failed.insert(r);
            }
            return Err(e);
        }
        let r = self.unlink_inner(at, path);
        self.log(|| format!("unlink {} -> {}", String::from_utf8_lossy(path), show(&r)));
        r
    }

    fn unlink_inner(&mut self, at: Ino, path: &[u8]) -> R {
        match self.walk(at, path, false)? {
            Walk::Found { parent, name, ino } => {
                if self.fs.is_dir(ino) {
                    return Err(libc::EISDIR);
                }
                self.may_write(parent)?;
                let now = self.real();
                self.fs.remove_link(parent, &name, now)?;
                self.mutate(Mut::Unlink { dir: parent, name, ino, what: "unlink" });
                Ok(0)
            }
            Walk::Missing { .. } => Err(libc::ENOENT),
        }
    }

    pub fn sys_rename(&mut self, d1: i32, p1: &[u8], d2: i32, p2: &[u8], noreplace: bool) -> R {
        self.event("rename", hash_bytes(p2));
        let a1 = self.at_ino(d1)?;
        let a2 = self.at_ino(d2)?;
        let n1 = self.note_path(a1, p1, "rename");
        let n2 = self.note_path(a2, p2, "rename");
        let _ = n1;
        if let Some(e) = self.fault(Site::Rename, &n2) {
            return Err(e);
        }
        let r = self.rename_inner(a1, p1, a2, p2, noreplace);
        self.log(|| format!("rename {} -> {}: {}", String::from_utf8_lossy(p1), String::from_utf8_lossy(p2), show(&r)));
        r
    }

    pub fn rename_inner(&mut self, a1: Ino, p1: &[u8], a2: Ino, p2: &[u8], noreplace: bool) -> R {
        let (sp, sn, si) = match self.walk(a1, p1, false)? {
            Walk::Found { parent, name, ino } => (parent, name, ino),
            Walk::Missing { .. } => return Err(libc::ENOENT),
        };
        let now = self.real();
        self.may_write(sp)?;
        match self.walk(a2, p2, false)? {
            Walk::Found { parent, name, ino } => {
                self.may_write(parent)?;
                if noreplace {
                    return Err(libc::EEXIST);
                }
                if self.device(parent) != self.device(sp) {
                    return Err(libc::EXDEV);
                }
                if ino == si {
                    return Ok(0);
                }
                if self.fs.is_dir(ino) {
                    if !self.fs.is_dir(si) {
                        return Err(libc::EISDIR);
                    }
                    if !self.fs.dir(ino)?.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                } else if self.fs.is_dir(si) {
                    return Err(libc::ENOTDIR);
                }
                // atomic replacement: unlink + relink without an event in between
                self.fs.remove_link(parent, &name, now)?;
                self.fs.add_link(parent, &name, si, now)?;
                self.unlink_quiet(sp, &sn, si);
                self.mutate(Mut::Link { dir: parent, name: name.clone(), ino: si, replaced: Some(ino), what: "rename" });
                self.mutate(Mut::Unlink { dir: sp, name: sn, ino: si, what: "rename-from" });
            }
            Walk::Missing { parent, name } => {
                self.may_write(parent)?;
                if self.device(parent) != self.device(sp) {
                    return Err(libc::EXDEV);
                }
                self.fs.add_link(parent, &name, si, now)?;
                self.unlink_quiet(sp, &sn, si);
                self.mutate(Mut::Link { dir: parent, name: name.clone(), ino: si, replaced: None, what: "rename" });
                self.mutate(Mut::Unlink { dir: sp, name: sn, ino: si, what: "rename-from" });
            }
        }
        Ok(0)
    }

    /// Remove the source name of a rename without touching the link count semantics of the target name.
    fn unlink_quiet(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        let keep = self.fs.inodes[ino].link.clone();
        if let Ok(d) = self.fs.dir_mut(dir) {
            d.remove(name);
        }
        self.fs.inodes[ino].nlink -= 1;
        self.fs.inodes[ino].link = keep;
    }

    pub fn sys_link(&mut self, d1: i32, p1: &[u8], d2: i32, p2: &[u8]) -> R {
        self.event("link", hash_bytes(p2));
        let a1 = self.at_ino(d1)?;
        let a2 = self.at_ino(d2)?;
        self.note_path(a1, p1, "link");
        let n2 = self.note_path(a2, p2, "link");
        if let Some(e) = self.fault(Site::Link, &n2) {
            return Err(e);
        }
        let r = self.link_inner(a1, p1, a2, p2);
        self.log(|| format!("link {} -> {}: {}", String::from_utf8_lossy(p1), String::from_utf8_lossy(p2), show(&r)));
        r
    }

    pub fn link_inner(&mut self, a1: Ino, p1: &[u8], a2: Ino, p2: &[u8]) -> R {
        let (sp, si) = match self.walk(a1, p1, false)? {
            Walk::Found { parent, ino, .. } => (parent, ino),
            Walk::Missing { .. } => return Err(libc::ENOENT),
        };
        if self.fs.is_dir(si) {
            return Err(libc::EPERM);
        }
        match self.walk(a2, p2, false)? {
            Walk::Found { .. } => Err(libc::EEXIST),
            Walk::Missing { parent, name } => {
                self.may_write(parent)?;
                if self.device(parent) != self.device(sp) {
                    return Err(libc::EXDEV);
                }
                let now = self.real();
                self.fs.add_link(parent, &name, si, now)?;
                self.mutate(Mut::Link { dir: parent, name, ino: si, replaced: None, what: "link" });
                Ok(0)
            }
        }
    }

    pub fn sys_symlink(&mut self, target: &[u8], d: i32, path: &[u8]) -> R {
        self.event("symlink", hash_bytes(path));
        let at = self.at_ino(d)?;
        let n = self.note_path(at, path, "symlink");
        if let Some(e) = self.fault(Site::Create, &n) {
            return Err(e);
        }
        match self.walk(at, path, false)? {
            Walk::Found { .. } => Err(libc::EEXIST),
            Walk::Missing { parent, name } => {
                let (now, p, o) = (self.real(), self.threads[self.cur].proc, self.opno());
                let ino = self.fs.new_inode(Node::Symlink(target.to_vec()), now, 0o777, p, o);
                self.fs.add_link(parent, &name, ino, now)?;
                self.mutate(Mut::Link { dir: parent, name, ino, replaced: None, what: "symlink" });
                Ok(0)
            }
        }
    }

    pub fn sys_readlink(&mut self, d: i32, path: &[u8]) -> Result<Vec<u8>, i32> {
        self.event("readlink", hash_bytes(path));
        let at = self.at_ino(d)?;
        self.note_path(at, path, "readlink");
        match self.walk(at, path, false)? {
            Walk::Found { ino, .. } => match &self.fs.inodes[ino].node {
                Node::Symlink(t) => Ok(t.clone()),
                _ => Err(libc::EINVAL),
            },
            Walk::Missing { .. } => Err(libc::ENOENT),
        }
    }

    pub fn sys_utimens(&mut self, ino: Result<Ino, i32>, norm: &[u8], mtime: Option<i128>) -> R {
        if let Some(e) = self.fault(Site::Utimens, norm) {
            return Err(e);
        }
        let ino = ino?;
        if self.is_foreign(ino) {
            self.probe(R_FOREIGN);
            return Err(libc::EPERM);
        }
        if let Some(m) = mtime {
            self.fs.inodes[ino].mtime = m;
            self.mutate(Mut::Meta { ino, what: "utimens" });
        }
        self.log(|| format!("utimens {} -> {:?}", String::from_utf8_lossy(norm), mtime.map(|m| m / SEC)));
        Ok(0)
    }

    pub fn sys_utimensat(&mut self, d: i32, path: &[u8], mtime: Option<i128>, follow: bool) -> R {
        self.event("utimensat", hash_bytes(path));
        let at = self.at_ino(d)?;
        let norm = self.note_path(at, path, "utimens");
        let ino = match self.walk(at, path, follow) {
            Ok(Walk::Found { ino, .. }) => Ok(ino),
            Ok(_) => Err(libc::ENOENT),
            Err(e) => Err(e),
        };
        let r = self.sys_utimens(ino, &norm, mtime);
        if r.is_err() {
            self.log(|| format!("utimens {} -> {}", String::from_utf8_lossy(path), show(&r)));
        }
        r
    }

    pub fn sys_chmod(&mut self, ino: Result<Ino, i32>, mode: u32) -> R {
        let ino = ino?;
        if self.is_foreign(ino) {
            return Err(libc::EPERM);
        }
        self.fs.inodes[ino].mode = mode & 0o7777;
        self.mutate(Mut::Meta { ino, what: "chmod" });
        Ok(0)
    }

    pub fn sys_fsync(&mut self, fd: i32) -> R {
        self.event("fsync", fd as u64);
        let f = self.fd(fd)?.clone();
        if let Some(e) = self.fault(Site::Fsync, &f.path) {
            return Err(e);
        }
        Ok(0)
    }

    pub fn sys_opendir(&mut self, path: &[u8]) -> Result<usize, i32> {
        self.event("opendir", hash_bytes(path));
        let at = self.at_ino(libc::AT_FDCWD)?;
        let norm = self.note_path(at, path, "opendir");
        if let Some(e) = self.fault(Site::Opendir, &norm) {
            return Err(e);
        }
        let ino = match self.walk(at, path, true)? {
            Walk::Found { ino, .. } => ino,
            Walk::Missing { .. } => return Err(libc::ENOENT),
        };
        self.fs.dir(ino)?;
        if self.users && self.rights(ino) & 4 == 0 {
            return Err(libc::EACCES);
        }
        let opno = self.opno();
        let fd = self.new_fd(Fd { ino, off: Default::default(), flags: libc::O_RDONLY | libc::O_DIRECTORY, path: norm.clone(), op: opno, dirpos: None })? as i32;
        Ok(self.dir_stream(ino, fd, &norm))
    }

    pub fn sys_fdopendir(&mut self, fd: i32) -> Result<usize, i32> {
        self.event("fdopendir", fd as u64);
        let f = self.fd(fd)?.clone();
        self.fs.dir(f.ino)?;
        Ok(self.dir_stream(f.ino, fd, &f.path))
    }

    /// A directory stream is a snapshot of the directory at the moment it is opened, in arbitrary order.
    fn dir_stream(&mut self, ino: Ino, fd: i32, norm: &[u8]) -> usize {
        let mut entries: Vec<(Vec<u8>, Ino, u8)> = Vec::new();
        let salt = h4(self.seed, 0xd14, hash_bytes(norm), 0);
        let mut list: Vec<(Vec<u8>, Ino)> = self.fs.dir(ino).unwrap().iter().map(|(n, &i)| (n.clone(), i)).collect();
        list.push((b".".to_vec(), ino));
        list.push((b"..".to_vec(), self.fs.parent_of(ino)));
        list.sort_by_key(|(n, _)| h4(salt, hash_bytes(n), 0, 0));
        for (n, i) in list {
            let mut t = match self.fs.inodes[i].node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Symlink(_) => libc::DT_LNK,
            };
            if self.cfg.dtype_unknown_pm > 0 && h4(self.seed, 0xd7, hash_bytes(&n), self.ev) % 1000 < self.cfg.dtype_unknown_pm {
                t = libc::DT_UNKNOWN;
                self.probe(P_DTYPE);
            }
            entries.push((n, i, t));
        }
        self.log(|| format!("opendir {} ({} entries)", String::from_utf8_lossy(norm), entries.len()));
        let d = Box::new(SimDir { entries, pos: 0, fd, ent: unsafe { std::mem::zeroed() }, fail_at: None });
        let p = &*d as *const SimDir as usize;
        let proc = self.threads[self.cur].proc;
        self.procs[proc].open_dirs += 1;
        self.dirs.insert(p, (proc, d));
        p
    }

    pub fn sys_readdir(&mut self, dir: usize) -> Result<*mut libc::dirent64, i32> {
        self.event("readdir", 0);
        let (fd, path) = match self.dirs.get(&dir) {
            Some((_, d)) => {
                let p = self.threads[self.cur].proc;
                (d.fd, self.procs[p].fds.get(&d.fd).map(|f| f.path.clone()).unwrap_or_default())
            }
            None => return Err(libc::EBADF),
        };
        let _ = fd;
        if let Some(e) = self.fault(Site::Readdir, &path) {
            return Err(e);
        }
        let (_, d) = self.dirs.get_mut(&dir).unwrap();
        if d.pos >= d.entries.len() {
            return Ok(std::ptr::null_mut());
        }
        let (n, i, t) = d.entries[d.pos].clone();
        d.pos += 1;
        d.ent.d_ino = i as u64 + 1;
        d.ent.d_off = d.pos as i64;
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        d.ent.d_type = t;
        for (k, c) in n.iter().enumerate() {
            d.ent.d_name[k] = *c as libc::c_char;
        }
        d.ent.d_name[n.len()] = 0;
        Ok(&mut d.ent)
    }

    pub fn sys_closedir(&mut self, dir: usize) -> R {
        self.event("closedir", 0);
        match self.dirs.remove(&dir) {
            Some((p, d)) => {
                self.procs[p].open_dirs -= 1;
                self.procs[p].fds.remove(&d.fd);
                Ok(0)
            }
            None => Err(libc::EBADF),
        }
    }

    pub fn sys_mmap(&mut self, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> Result<usize, i32> {
        self.event("mmap", fd as u64);
        let f = self.fd(fd)?.clone();
        if let Some(e) = self.fault(Site::Mmap, &f.path) {
            return Err(e);
        }
        if len == 0 {
            return Err(libc::EINVAL);
        }
        let _ = (prot, flags);
        unsafe {
            let p = sys::raw6(libc::SYS_mmap, 0, len, (libc::PROT_READ | libc::PROT_WRITE) as usize, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
            if p < 0 {
                return Err(-p as i32);
            }
            let buf = std::slice::from_raw_parts_mut(p as *mut u8, len);
            if let Node::File(d) = &self.fs.inodes[f.ino].node {
                d.read_at(off as u64, buf);
            }
            self.maps.push((p as usize, len));
            Ok(p as usize)
        }
    }

    // ---------------------------------------------------------------- futex

    pub fn sys_futex(&mut self, addr: usize, op: i32, val: u32, timeout: usize) -> R {
        let cmd = op & 127 & !libc::FUTEX_CLOCK_REALTIME;
        match cmd {
            0 | 9 => {
                self.event("futex-wait", 0);
                let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
                if cur != val {
                    return Err(libc::EAGAIN);
                }
                let real = op & libc::FUTEX_CLOCK_REALTIME != 0;
                let deadline = if timeout != 0 {
                    let ts = unsafe { &*(timeout as *const libc::timespec) };
                    let t = ts.tv_sec as i128 * SEC + ts.tv_nsec as i128;
                    Some(if cmd == 0 { self.mono + t } else { t })
                } else {
                    None
                };
                self.probe(R_FUTEX_WAIT);
                self.log(|| "waits for a lock".into());
                self.th().timed_out = false;
                self.th().state = St::Futex { addr, deadline, real };
                self.block();
                if self.th().timed_out {
                    self.th().timed_out = false;
                    return Err(libc::ETIMEDOUT);
                }
                Ok(0)
            }
            1 | 10 => {
                let me = self.threads[self.cur].proc;
                let mut n = 0;
                for i in 0..self.threads.len() {
                    if n >= val {
                        break;
                    }
                    if self.threads[i].proc != me {
                        continue;
                    }
                    if let St::Futex { addr: a, .. } = self.threads[i].state {
                        if a == addr {
                            self.threads[i].state = St::Ready;
                            self.threads[i].timed_out = false;
                            n += 1;
                        }
                    }
                }
                self.event("futex-wake", 0);
                Ok(n as i64)
            }
            _ => Err(libc::ENOSYS),
        }
    }

    pub fn spin(&mut self) {
        self.probe(R_SPIN);
        self.ev += 1;
        self.sh.events += 1;
        if self.ev > self.cfg.event_cap {
            self.finish(ST_TRUNCATED);
        }
        let at = self.normal;
        let tries = match self.th().state {
            St::Spin { tries, .. } => tries,
            _ => 0,
        };
        self.th().state = St::Spin { at, tries };
        self.threads[self.cur].k += 1;
        let next = self.pick();
        if next == self.cur {
            // stays a spinner so that tries accumulate
            return;
        }
        self.switch_to(next, false);
        // woken: switch_to reset the state to Ready
    }

    /// A sleep inside library code.
    pub fn sleep(&mut self, ns: i128) {
        self.event("sleep", 0);
        let t = self.mono + ns;
        self.th().state = St::Sleep(t);
        self.block();
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn show(r: &R) -> String {
    match r {
        Ok(n) => format!("{}", n),
        Err(e) => errno_name(*e),
    }
}

pub fn errno_name(e: i32) -> String {
    use libc::*;
    let s = match e {
        EIO => "EIO",
        ENOENT => "ENOENT",
        EACCES => "EACCES",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOMEM => "ENOMEM",
        ENOSPC => "ENOSPC",
        EROFS => "EROFS",
        EDQUOT => "EDQUOT",
        EINTR => "EINTR",
        EEXIST => "EEXIST",
        ENOTDIR => "ENOTDIR",
        EISDIR => "EISDIR",
        EPERM => "EPERM",
        EXDEV => "EXDEV",
        ESTALE => "ESTALE",
        EFBIG => "EFBIG",
        ENOTEMPTY => "ENOTEMPTY",
        ENAMETOOLONG => "ENAMETOOLONG",
        ELOOP => "ELOOP",
        _ => return format!("errno {}", e),
    };
    s.to_string()
}
