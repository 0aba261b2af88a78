//! One simulated run in a forked child, and the minimiser and replay files built on it.

use crate::alloc;
use crate::exec::{self, Step};
use crate::model;
use crate::scn::{self, Prop, NOW};
use crate::shared::*;
use crate::sim::*;
use crate::sys;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Plan<'a> {
    pub prop: &'a Prop,
    pub seed: u64,
    /// Steps left out: (thread, index).
    pub dropped: &'a HashSet<(usize, usize)>,
    pub replay: Option<&'a [Decision]>,
    pub log: bool,
    pub quiet: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub status: u32,
    pub kind: String,
    pub text: String,
}

fn build(plan: &Plan, sh: &'static mut Shared, pristine: &[u8]) -> (Kernel, Vec<Vec<Step>>) {
    let s = scn::generate(plan.prop, plan.seed);
    let mut steps = Vec::new();
    let mut threads = Vec::new();
    for (i, t) in s.threads.into_iter().enumerate() {
        threads.push(Thread {
            proc: t.proc,
            lib: t.lib,
            state: St::Ready,
            go: AtomicU32::new(0),
            op: 0,
            k: 0,
            k0: 0,
            rec: None,
            eintr_run: 0,
            fault_exempt: t.exempt,
            timed_out: false,
            prio: (1 << 40) + (crate::rng::h4(plan.seed, 0x9121, i as u64, 0) >> 32),
            name: t.name,
        });
        steps.push(t.steps);
    }
    let slots = steps
        .iter()
        .flatten()
        .map(|s| match s {
            Step::Open { slot, .. } => slot + 1,
            _ => 1,
        })
        .max()
        .unwrap_or(1);
    let procs = s
        .procs
        .iter()
        .map(|p| Proc {
            pid: p.pid,
            user: p.user,
            dead: false,
            fds: BTreeMap::new(),
            last_hard: 0,
            last_soft: 0,
            last_persist: 0,
            last_persist_write: 0,
            consulted: 0,
            statics: pristine.to_vec(),
            handles: (0..slots).map(|_| None).collect(),
            kept: Vec::new(),
            opened: Vec::new(),
            open_failed: false,
            fd_limit: p.fd_limit,
            open_dirs: 0,
            burst: 0,
        })
        .collect();
    let mut bb: HashMap<(u16, u32), Vec<(u32, u64)>> = HashMap::new();
    let replay = plan.replay.map(|ds| {
        let mut m = HashMap::new();
        for d in ds {
            if d.kind == D_BB {
                bb.entry((d.tid, d.op)).or_default().push((d.k, d.arg));
            } else {
                m.insert((d.kind, d.tid, d.op, d.k), d.arg);
            }
        }
        m
    });
    alloc::CAP_LIB.store(s.cfg.mem_cap, Relaxed);
    let k = Kernel {
        seed: plan.seed,
        fs: s.fs,
        threads,
        procs,
        cur: 0,
        loaded_proc: usize::MAX,
        ev: 1,
        normal: 1,
        mono: 1_000 * SEC,
        real_off: NOW - 1_000 * SEC + s.cfg.real_shift,
        cfg: s.cfg,
        dirs: HashMap::new(),
        maps: Vec::new(),
        ops: Vec::new(),
        running: Vec::new(),
        model: s.model,
        phase: 0,
        replay,
        bb_replay: bb,
        sh,
        hard_count: 0,
        crash_count: 0,
        pfaults: Vec::new(),
        flag: plan.prop.flag,
        rand_ctr: 0,
        main_go: AtomicU32::new(0),
        gitdir: scn::G.to_vec(),
        workdir: scn::WORK.to_vec(),
        pristine: pristine.to_vec(),
        known: crate::is_known,
        users: s.procs.iter().any(|p| p.user != 0),
        backup: Default::default(),
        mem_base: i64::MAX / 4,
        mem_mid: i64::MAX / 4,
        pack_files: s.pack_files,
    };
    (k, steps)
}

fn child(plan: &Plan, sh: &'static mut Shared, pristine: &[u8]) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let l = libc::rlimit { rlim_cur: 30, rlim_max: 60 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::alarm(120);
        if plan.quiet {
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 2);
        }
    }
    exec::install_hook();
    sys::set_covmap(sh.cov.as_mut_ptr());
    sh.log_on = plan.log as u32;
    let (mut kern, steps) = build(plan, sh, pristine);
    model::init(&mut kern);
    install(kern);
    for (ti, st) in steps.into_iter().enumerate() {
        let skip: HashSet<usize> = plan.dropped.iter().filter(|d| d.0 == ti).map(|d| d.1).collect();
        std::thread::Builder::new()
            .spawn(move || {
                wait_go(&k().threads[ti].go);
                for (i, s) in st.iter().enumerate() {
                    if skip.contains(&i) {
                        continue;
                    }
                    let t = k().th();
                    t.op = (i as u32 + 1) * 1000;
                    t.k = 0;
                    t.k0 = 0;
                    exec::exec(s);
                }
                let kk = k();
                kk.th().state = St::Done;
                kk.leave();
                // destructors of this thread's own storage do not run: the run is over for it
                loop {
                    unsafe { libc::pause() };
                }
            })
            .expect("thread");
    }
    let kk = k();
    kk.start();
    kk.finish(ST_OK)
}

pub fn execute(plan: &Plan, sh: &mut Shared, pristine: &[u8]) -> Outcome {
    sh.reset();
    let sh2: &'static mut Shared = unsafe { &mut *(sh as *mut Shared) };
    let mut st = 0;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { status: ST_HARNESS, kind: "fork".into(), text: "fork failed".into() };
        }
        if pid == 0 {
            child(plan, sh2, pristine);
        }
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let h = |t: String| Outcome { status: ST_HARNESS, kind: "harness".into(), text: t };
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        let cur = sh.cur();
        if cur.is_empty() || sig == libc::SIGKILL || sig == libc::SIGALRM {
            return h(format!("run ended by signal {} during {:?}", sig, cur));
        }
        let kind = if sig == libc::SIGXCPU { "HANG" } else { "ABORT" };
        if !(plan.prop.flag)(kind) {
            return Outcome { status: ST_TRUNCATED, kind: kind.into(), text: String::new() };
        }
        return Outcome { status: ST_VIOLATION, kind: kind.into(), text: format!("{}: the process died of signal {}", cur, sig) };
    }
    match sh.status {
        ST_OK => Outcome { status: ST_OK, kind: String::new(), text: String::new() },
        ST_TRUNCATED => Outcome { status: ST_TRUNCATED, kind: String::new(), text: String::new() },
        ST_VIOLATION => {
            let t = sh.text();
            let (a, b) = t.split_once('\n').unwrap_or((&t, ""));
            Outcome { status: ST_VIOLATION, kind: a.into(), text: b.into() }
        }
        ST_HARNESS => h(sh.text()),
        _ => h(format!("run ended without a result (exit status {:#x}, in {:?})", st, sh.cur())),
    }
}

// ------------------------------------------------------------------ minimising

pub struct Failure {
    pub seed: u64,
    pub dropped: HashSet<(usize, usize)>,
    pub decisions: Vec<Decision>,
    pub outcome: Outcome,
    pub log: String,
    pub tried: u64,
    pub first: (usize, usize),
    pub repro: bool,
}

/// Smallest failing run of the same kind found within the budget.
pub fn minimise(prop: &Prop, seed: u64, sh: &mut Shared, pristine: &[u8], budget: Duration) -> Failure {
    let start = Instant::now();
    let none = HashSet::new();
    let o = execute(&Plan { prop, seed, dropped: &none, replay: None, log: true, quiet: true }, sh, pristine);
    let mut best = Failure {
        seed,
        dropped: HashSet::new(),
        decisions: sh.decisions(),
        outcome: o.clone(),
        log: sh.log(),
        tried: 0,
        first: (sh.ndec as usize, 0),
        repro: true,
    };
    if o.status != ST_VIOLATION {
        best.repro = false;
        return best;
    }
    let scn_steps: Vec<Vec<Step>> = scn::generate(prop, seed).threads.into_iter().map(|t| t.steps).collect();
    best.first.1 = scn_steps.iter().map(|s| s.len()).sum();
    let mut tried = 0u64;
    let mut attempt = |ds: &[Decision], dr: &HashSet<(usize, usize)>, sh: &mut Shared| -> bool {
        tried += 1;
        let x = execute(&Plan { prop, seed, dropped: dr, replay: Some(ds), log: false, quiet: true }, sh, pristine);
        x.status == ST_VIOLATION && x.kind == o.kind
    };
    if !attempt(&best.decisions, &best.dropped, sh) {
        best.repro = false;
        return best;
    }
    for round in 0..3 {
        let before = (best.decisions.len(), best.dropped.len());
        // steps, last first
        for t in 0..scn_steps.len() {
            let mut n = scn_steps[t].len().next_power_of_two();
            while n >= 1 {
                let mut i = scn_steps[t].len();
                while i > 0 && start.elapsed() < budget {
                    let lo = i.saturating_sub(n);
                    let mut d2 = best.dropped.clone();
                    for j in lo..i {
                        if !matches!(scn_steps[t][j], Step::Barrier | Step::WaitProc(_) | Step::Join | Step::WaitOpen { .. }) {
                            d2.insert((t, j));
                        }
                    }
                    if d2.len() > best.dropped.len() && attempt(&best.decisions, &d2, sh) {
                        best.dropped = d2;
                    }
                    i = lo;
                }
                n /= 2;
            }
        }
        // decisions
        let mut n = best.decisions.len().next_power_of_two();
        while n >= 1 && start.elapsed() < budget {
            let mut i = best.decisions.len();
            while i > 0 && start.elapsed() < budget {
                let lo = i.saturating_sub(n);
                let mut d2 = best.decisions.clone();
                d2.drain(lo..i);
                if attempt(&d2, &best.dropped, sh) {
                    best.decisions = d2;
                }
                i = lo;
            }
            n /= 2;
        }
        if (best.decisions.len(), best.dropped.len()) == before || start.elapsed() >= budget {
            break;
        }
        let _ = round;
    }
    best.tried = tried;
    let x = execute(&Plan { prop, seed, dropped: &best.dropped, replay: Some(&best.decisions), log: true, quiet: true }, sh, pristine);
    // decisions that no longer apply are not part of the schedule
    let used: HashSet<(u8, u16, u32, u32)> = sh.decisions().iter().map(|d| (d.kind, d.tid, d.op, d.k)).collect();
    best.decisions.retain(|d| used.contains(&(d.kind, d.tid, d.op, d.k)));
    best.outcome = x;
    best.log = sh.log();
    let y = execute(&Plan { prop, seed, dropped: &best.dropped, replay: Some(&best.decisions), log: true, quiet: true }, sh, pristine);
    best.repro = y == best.outcome && sh.log() == best.log;
    best
}

// ------------------------------------------------------------------ replay files

pub fn render(prop: &Prop, f: &Failure) -> String {
    let mut s = String::new();
    s.push_str("simcheck replay 1\n");
    s.push_str(&format!("property {}\n", prop.id));
    s.push_str(&format!("seed {:#018x}\n", f.seed));
    let mut d: Vec<_> = f.dropped.iter().copied().collect();
    d.sort();
    for (t, i) in d {
        s.push_str(&format!("drop {} {}\n", t, i));
    }
    for d in &f.decisions {
        s.push_str(&format!("decision {} {} {} {} {}\n", decision_name(d.kind), d.tid, d.op, d.k, d.arg));
    }
    s.push_str(&format!("kind {}\n", f.outcome.kind));
    s.push_str(&format!("text {}\n", f.outcome.text.replace('\n', " ")));
    let steps: Vec<Vec<Step>> = scn::generate(prop, f.seed).threads.into_iter().map(|t| t.steps).collect();
    s.push_str("# remaining steps:\n");
    for (t, st) in steps.iter().enumerate() {
        for (i, x) in st.iter().enumerate() {
            if !f.dropped.contains(&(t, i)) {
                let mut line = format!("{:?}", x);
                line.truncate(line.char_indices().nth(240).map_or(line.len(), |c| c.0));
                s.push_str(&format!("#   thread {} step {}: {}\n", t, i, line));
            }
        }
    }
    s.push_str("# trace:\n");
    for l in f.log.lines() {
        s.push_str(&format!("#   {}\n", l));
    }
    s
}

pub struct Saved {
    pub prop: &'static Prop,
    pub seed: u64,
    pub dropped: HashSet<(usize, usize)>,
    pub decisions: Vec<Decision>,
    pub kind: String,
    pub text: String,
}

pub fn parse(s: &str) -> Option<Saved> {
    let mut it = s.lines();
    if it.next()? != "simcheck replay 1" {
        return None;
    }
    let mut prop = None;
    let mut seed = 0;
    let (mut dropped, mut decisions, mut kind, mut text) = (HashSet::new(), Vec::new(), String::new(), String::new());
    for l in it {
        let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
        let n: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
        match w {
            "property" => prop = Some(scn::prop(rest)?),
            "seed" => seed = u64::from_str_radix(rest.trim_start_matches("0x"), 16).ok()?,
            "drop" if n.len() == 2 => {
                dropped.insert((n[0] as usize, n[1] as usize));
            }
            "decision" if n.len() == 4 => {
                decisions.push(Decision { kind: decision_kind(rest.split(' ').next()?), tid: n[0] as u16, op: n[1] as u32, k: n[2] as u32, arg: n[3] })
            }
            "kind" => kind = rest.into(),
            "text" => text = rest.into(),
            _ => {}
        }
    }
    Some(Saved { prop: prop?, seed, dropped, decisions, kind, text })
}
