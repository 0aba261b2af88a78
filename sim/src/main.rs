//! Deterministic simulation of programs that use rusty-git on a shared repository. See /verif/DESIGN.md.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

mod alloc;
mod exec;
mod fs;
mod git;
mod model;
mod rng;
mod run;
mod scn;
mod shared;
mod sim;
mod sys;

use run::{execute, Plan};
use scn::{Prop, PROPS};
use shared::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// (anomaly kind, text fragment) of known findings of the property under check.
static mut KNOWN: Vec<(String, String)> = Vec::new();

pub fn is_known(kind: &str, text: &str) -> bool {
    unsafe { KNOWN.iter().any(|(k, t)| k == kind && text.contains(t.as_str())) }
}

fn verif_dir() -> PathBuf {
    std::env::var("SIMCHECK_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        std::env::current_exe().ok().and_then(|e| e.ancestors().nth(4).map(|p| p.to_path_buf())).unwrap_or_else(|| PathBuf::from("/verif"))
    })
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| rng::mix(h ^ b as u64))
}

fn run_seed(vseed: u64, p: &Prop, i: u64) -> u64 {
    rng::h4(vseed, hash_str(p.id), i, 0x5eed)
}

/// Totals of one worker, in memory shared with the orchestrator.
#[repr(C)]
struct Sum {
    runs: u64,
    ok: u64,
    truncated: u64,
    harness: u64,
    violations: u64,
    ops: u64,
    events: u64,
    switches: u64,
    preempts: u64,
    bbs: u64,
    sim_ns: u64,
    decisions: u64,
    overflow: u64,
    probes: [u64; NPROBE],
    probe_runs: [u64; NPROBE],
    nhash: u64,
    text_len: u64,
    text: [u8; 4096],
}

struct Ctl {
    best: AtomicU64,
}

fn map_shared<T>(extra: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>() + extra,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

struct Batch {
    sums: Vec<&'static Sum>,
    /// (index, hash of the schedule, nontrivial)
    hashes: Vec<(u64, u64, bool)>,
    cov: Vec<u8>,
    best: Option<u64>,
    wall: f64,
}

fn workers() -> u64 {
    std::env::var("SIMCHECK_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).clamp(1, 64)
}

fn batch(p: &'static Prop, vseed: u64, first: u64, n: u64, w: u64, cap: Duration, pristine: &[u8], keep_going: bool) -> Batch {
    let start = Instant::now();
    let ctl: &'static Ctl = unsafe { &*map_shared::<Ctl>(0) };
    ctl.best.store(u64::MAX, SeqCst);
    let mut parts = Vec::new();
    for wi in 0..w {
        let per = (n / w + 1) as usize;
        let sum: *mut Sum = map_shared::<Sum>(per * 24);
        let hashes = unsafe { std::slice::from_raw_parts_mut((sum as *mut u8).add(std::mem::size_of::<Sum>()) as *mut [u64; 3], per) };
        let sh = Shared::map();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let s = unsafe { &mut *sum };
            let none = HashSet::new();
            let mut i = first + wi;
            while i < first + n {
                if (!keep_going && i > ctl.best.load(SeqCst)) || start.elapsed() > cap {
                    break;
                }
                let o = execute(&Plan { prop: p, seed: run_seed(vseed, p, i), dropped: &none, replay: None, log: false, quiet: true }, sh, pristine);
                s.runs += 1;
                match o.status {
                    ST_OK => s.ok += 1,
                    ST_TRUNCATED => s.truncated += 1,
                    ST_VIOLATION => {
                        s.violations += 1;
                        ctl.best.fetch_min(i, SeqCst);
                        if keep_going {
                            println!("{} {} {}", i, o.kind, o.text);
                        }
                    }
                    _ => {
                        s.harness += 1;
                        if s.text_len == 0 {
                            let t = format!("run {}: {}", i, o.text);
                            let l = t.len().min(4096);
                            s.text[..l].copy_from_slice(&t.as_bytes()[..l]);
                            s.text_len = l as u64;
                        }
                    }
                }
                s.ops += sh.ops;
                s.events += sh.events;
                s.switches += sh.switches;
                s.preempts += sh.preempts;
                s.bbs += sh.bbs;
                s.sim_ns += sh.sim_ns.saturating_sub(1_000_000_000_000);
                s.decisions += sh.ndec as u64;
                s.overflow += sh.dec_overflow as u64;
                for j in 0..NPROBE {
                    s.probes[j] += sh.probes[j];
                    s.probe_runs[j] += (sh.probes[j] > 0) as u64;
                }
                let nontrivial = sh.ops > 0 && (sh.ndec > 0 || sh.probes[..32].iter().any(|&x| x > 0));
                hashes[s.nhash as usize] = [i, sh.sched_hash, nontrivial as u64 | (o.status as u64) << 8];
                s.nhash += 1;
                i += w;
            }
            unsafe { libc::_exit(0) };
        }
        parts.push((pid, sum, sh, hashes));
    }
    let mut out = Batch { sums: Vec::new(), hashes: Vec::new(), cov: vec![0; COV], best: None, wall: 0.0 };
    for (pid, sum, sh, hashes) in parts {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} };
        let s: &'static Sum = unsafe { &*sum };
        for h in hashes.iter().take(s.nhash as usize) {
            out.hashes.push((h[0], h[1], h[2] & 1 != 0));
        }
        for (a, b) in out.cov.iter_mut().zip(sh.cov.iter()) {
            *a |= *b;
        }
        unsafe { libc::munmap(sh as *mut Shared as *mut libc::c_void, std::mem::size_of::<Shared>()) };
        out.sums.push(s);
    }
    out.hashes.sort();
    let b = ctl.best.load(SeqCst);
    if b != u64::MAX {
        out.best = Some(b);
    }
    out.wall = start.elapsed().as_secs_f64();
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn describe(p: &Prop, vseed: u64, i: u64, sh: &mut Shared, pristine: &[u8]) -> String {
    let seed = run_seed(vseed, p, i);
    let none = HashSet::new();
    let o = execute(&Plan { prop: p, seed, dropped: &none, replay: None, log: true, quiet: true }, sh, pristine);
    let log = sh.log();
    let lines: Vec<&str> = log.lines().collect();
    let s = scn::generate(p, seed);
    let mut out = format!(
        "run {} seed {:#018x}: {} processes, {} threads, {} objects, {} packs, {} references; {} events, {} decisions, {} context switches, result {}; ",
        i,
        seed,
        s.procs.len(),
        s.threads.len(),
        s.model.objs.len(),
        s.model.packs.len(),
        s.fs.file(b"/w/repo/.git/HEAD").map_or(0, |_| 1) + s.model.refs.len(),
        sh.events,
        sh.ndec,
        sh.switches,
        match o.status {
            ST_OK => "held",
            ST_TRUNCATED => "cut at the event cap",
            ST_VIOLATION => "VIOLATION",
            _ => "harness error",
        }
    );
    let pick: Vec<&&str> = lines.iter().filter(|l| l.contains("BEGIN") || l.contains("END") || l.contains("FAULT") || l.contains("killed") || l.contains("jumps")).take(24).collect();
    for l in pick {
        let l: String = l.split_whitespace().collect::<Vec<_>>().join(" ");
        out.push_str(&l.chars().take(160).collect::<String>());
        out.push_str(" | ");
    }
    out
}

fn evidence(p: &Prop, tier: &str, vseed: u64, b: &Batch, violations: u64, wall: f64, samples: &[String], asked: u64) -> String {
    let t = |f: fn(&Sum) -> u64| b.sums.iter().map(|s| f(s)).sum::<u64>();
    let mut all = HashSet::new();
    let mut nt = HashSet::new();
    for (_, h, n) in &b.hashes {
        all.insert(*h);
        if *n {
            nt.insert(*h);
        }
    }
    let runs = t(|s| s.runs);
    let mut faults = String::new();
    let mut reach = String::new();
    for (i, name) in sim::PROBE_NAMES {
        let n: u64 = b.sums.iter().map(|s| s.probes[*i]).sum();
        let r: u64 = b.sums.iter().map(|s| s.probe_runs[*i]).sum();
        let e = format!("{}: {{\"times\": {}, \"runs\": {}}}", js(name.trim_start_matches("reach: ")), n, r);
        let dst = if *i < 32 { &mut faults } else { &mut reach };
        if !dst.is_empty() {
            dst.push_str(", ");
        }
        dst.push_str(&e);
    }
    let blocks = b.cov.iter().filter(|&&x| x != 0).count();
    let guards = unsafe { sys::GUARDS };
    let per_hour = if b.wall > 0.0 { (runs as f64 * 3600.0 / b.wall) as u64 } else { 0 };
    format!(
        r#"{{
 "property": {id}, "tier": {tier}, "seed": {vseed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": {rule},
  "samples": [{samples}],
  "title": {title},
  "scenario_family": {what},
  "runs_asked": {asked}, "runs_held": {ok}, "runs_cut_at_event_cap": {trunc}, "harness_errors": {harness},
  "distinct_schedules": {all},
  "seeds_per_hour": {per_hour},
  "library_operations_judged": {ops},
  "simulated_system_calls_and_lock_events": {events},
  "context_switches": {switches},
  "preemptions_inside_library_code": {preempts},
  "schedule_and_fault_decisions": {decisions},
  "simulated_seconds": {simt:.3},
  "faults_injected": {{{faults}}},
  "conditions_reached": {{{reach}}},
  "library_basic_blocks_reached": {blocks}, "library_basic_blocks_instrumented": {guards},
  "real_components": ["all of rusty-git", "std::fs, std::io, std::time and std::sync above the C library calls", "flate2/miniz_oxide", "smallvec, bytes, bstr, regex, memchr, hex, zerocopy", "dashmap and ahash (vendored sources; map locks yield to the scheduler, hash seeds fixed per run)"],
  "stub_components": ["file system, file descriptors, memory mappings, clocks, futexes, randomness and process ids (C library calls, simulated)", "git itself and other repository users (scripted actors)", "thread scheduling (one thread at a time, chosen by the seed)"],
  "workers": {workers}
 }},
 "assumptions": ["sampling: a clean batch is evidence, not proof", "the simulated file system follows POSIX as described in DESIGN.md; directory listings are atomic snapshots", "sequentially consistent memory: only one thread runs at a time, preempted at system calls, lock operations and basic blocks", "allocation failure is not injected (Rust aborts); excessive allocation is detected by a budget"],
 "violations": {violations},
 "wall_s": {wall:.3}
}}
"#,
        id = js(p.id),
        tier = js(tier),
        vseed = vseed,
        runs = runs,
        nt = nt.len(),
        rule = js("Each run draws a fresh repository, processes, threads, steps, fault rates and schedule from its seed. A run is non-trivial when at least one library operation was judged and at least one scheduling, timing or fault decision departed from the default execution or stored bytes were damaged; two runs are distinct when the hashes of their whole event sequences (thread, kind, operands) differ."),
        samples = samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        title = js(p.title),
        what = js(p.what),
        asked = asked,
        ok = t(|s| s.ok),
        trunc = t(|s| s.truncated),
        harness = t(|s| s.harness),
        all = all.len(),
        per_hour = per_hour,
        ops = t(|s| s.ops),
        events = t(|s| s.events),
        switches = t(|s| s.switches),
        preempts = t(|s| s.preempts),
        decisions = t(|s| s.decisions),
        simt = t(|s| s.sim_ns) as f64 / 1e9,
        faults = faults,
        reach = reach,
        blocks = blocks,
        guards = guards,
        workers = b.sums.len(),
        violations = violations,
        wall = wall,
    )
}

fn load_known(p: &Prop) -> Vec<String> {
    let mut lines = Vec::new();
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else { return lines };
    // known: property=<id> kind=<KIND> match=<text fragment> :: <what fails>
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((id, r)) = r.split_once(" kind=") else { continue };
        let Some((kind, r)) = r.split_once(" match=") else { continue };
        let Some((m, what)) = r.split_once(" :: ") else { continue };
        if id == p.id && !m.is_empty() {
            unsafe { KNOWN.push((kind.to_string(), m.to_string())) };
            lines.push(format!("KNOWN-FINDING: property={} {}", id, what));
        }
    }
    lines
}

fn check(p: &'static Prop, tier: &str, vseed: u64, pristine: &[u8]) -> i32 {
    let start = Instant::now();
    for l in load_known(p) {
        println!("{}", l);
    }
    let (n, cap) = match tier {
        "thorough" => (p.quick * 40, Duration::from_secs(600)),
        _ => (p.quick, Duration::from_secs(240)),
    };
    let n = std::env::var("SIMCHECK_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    println!("{} {}: {} runs from seed {}", p.id, p.title, n, vseed);
    let b = batch(p, vseed, 0, n, workers(), cap, pristine, false);
    let sh = Shared::map();
    let harness: u64 = b.sums.iter().map(|s| s.harness).sum();
    let runs: u64 = b.sums.iter().map(|s| s.runs).sum();
    let mut violations = 0;
    let mut code = 0;
    if let Some(i) = b.best {
        violations = b.sums.iter().map(|s| s.violations).sum();
        let seed = run_seed(vseed, p, i);
        let f = run::minimise(p, seed, sh, pristine, Duration::from_secs(30));
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.txt", p.id, seed));
        let _ = std::fs::write(&path, run::render(p, &f));
        println!("run {} (seed {:#018x}) violates {}: {}", i, seed, p.id, p.title);
        println!("  {} {}", f.outcome.kind, f.outcome.text);
        println!("  minimised from {} decisions and {} steps in {} attempts: {} decisions, {} steps dropped, replay {}", f.first.0, f.first.1, f.tried, f.decisions.len(), f.dropped.len(), if f.repro { "exact" } else { "NOT exact" });
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }
    let mut samples = Vec::new();
    let ok: Vec<u64> = b.hashes.iter().filter(|h| h.2).map(|h| h.0).collect();
    for q in [0, ok.len() / 2] {
        if let Some(i) = ok.get(q) {
            samples.push(describe(p, vseed, *i, sh, pristine));
        }
    }
    let ev = evidence(p, tier, vseed, &b, violations, start.elapsed().as_secs_f64(), &samples, n);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), ev) {
        eprintln!("cannot write the evidence file: {}", e);
        return 2;
    }
    if harness > 0 {
        for s in &b.sums {
            if s.text_len > 0 {
                eprintln!("harness error: {}", String::from_utf8_lossy(&s.text[..s.text_len as usize]));
            }
        }
        eprintln!("{} of {} runs ended in a harness error", harness, runs);
    }
    if code == 0 && (runs == 0 || harness * 20 > runs) {
        return 2;
    }
    if code == 0 {
        println!("{} held on {} runs ({:.0} runs/s)", p.id, runs, runs as f64 / b.wall.max(0.001));
    }
    code
}

fn replay(path: &str, pristine: &[u8]) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let Some(f) = run::parse(&s) else {
        eprintln!("{} is no replay file", path);
        return 2;
    };
    let sh = Shared::map();
    let o = execute(&Plan { prop: f.prop, seed: f.seed, dropped: &f.dropped, replay: Some(&f.decisions), log: true, quiet: true }, sh, pristine);
    println!("{}", sh.log());
    match o.status {
        ST_VIOLATION => {
            println!("{} {}", o.kind, o.text);
            println!("{}", if o.kind == f.kind && o.text.replace('\n', " ") == f.text { "reproduced exactly" } else { "a different violation than the recorded one" });
            println!("VIOLATION property={} replay={}", f.prop.id, path);
            1
        }
        ST_HARNESS => {
            println!("harness error: {}", o.text);
            2
        }
        _ => {
            println!("the property held in this run");
            0
        }
    }
}

/// Every run twice, in different processes and with different worker counts; then once more from its recorded
/// decisions. The hashes of the event sequences and the results must agree.
fn selftest(n: u64, pristine: &[u8]) -> i32 {
    let mut bad = 0;
    let sh = Shared::map();
    for p in PROPS {
        for vseed in [1, 7, 12345] {
            let a = batch(p, vseed, 0, n, 8, Duration::from_secs(600), pristine, true);
            let b = batch(p, vseed, 0, n, 3, Duration::from_secs(600), pristine, true);
            let (x, y): (HashMap<u64, u64>, HashMap<u64, u64>) = (a.hashes.iter().map(|h| (h.0, h.1)).collect(), b.hashes.iter().map(|h| (h.0, h.1)).collect());
            let d: Vec<u64> = (0..n).filter(|i| x.get(i) != y.get(i)).collect();
            let mut r = Vec::new();
            let none = HashSet::new();
            for i in (0..n).step_by(4) {
                let seed = run_seed(vseed, p, i);
                let o1 = execute(&Plan { prop: p, seed, dropped: &none, replay: None, log: true, quiet: true }, sh, pristine);
                let (d1, h1, l1, ov) = (sh.decisions(), sh.sched_hash, sh.log(), sh.dec_overflow);
                let o2 = execute(&Plan { prop: p, seed, dropped: &none, replay: Some(&d1), log: true, quiet: true }, sh, pristine);
                if ov == 0 && (o1 != o2 || h1 != sh.sched_hash || l1 != sh.log()) {
                    r.push(i);
                }
            }
            println!("{} seed {}: {} runs, {} differ between processes {:?}, {} of {} differ when replayed {:?}", p.id, vseed, n, d.len(), &d[..d.len().min(5)], r.len(), n / 4, &r[..r.len().min(5)]);
            bad += d.len() + r.len();
        }
    }
    (bad > 0) as i32
}

fn export(s: &scn::Scn, dir: &std::path::Path) -> i32 {
    use std::os::unix::ffi::OsStrExt;
    let mut todo: Vec<(Vec<u8>, fs::Ino)> = vec![(scn::G.to_vec(), s.fs.lookup(scn::G).expect("git directory"))];
    while let Some((path, ino)) = todo.pop() {
        let out = dir.join(std::ffi::OsStr::from_bytes(&path[scn::G.len()..]).to_str().map(|p| p.trim_start_matches('/')).unwrap_or("odd"));
        match &s.fs.inodes[ino].node {
            fs::Node::Dir(d) => {
                std::fs::create_dir_all(&out).expect("directory");
                todo.extend(d.iter().map(|(n, &i)| ([&path[..], b"/", n].concat(), i)));
            }
            fs::Node::File(fs::Data::Small(v)) => std::fs::write(&out, v).expect("file"),
            _ => (),
        }
    }
    // also those that other programs will add
    for (p, (pack, idx)) in s.model.packs.iter().zip(&s.pack_files) {
        if pack.is_empty() {
            continue; // sparse
        }
        let base = dir.join("objects/pack").join(String::from_utf8_lossy(&p.name).into_owned());
        std::fs::create_dir_all(base.parent().expect("parent")).expect("directory");
        std::fs::write(base.with_extension("pack"), pack).expect("pack");
        std::fs::write(base.with_extension("idx"), idx).expect("idx");
        for &o in &p.objs {
            println!("{}", git::hex(&s.model.objs[o].id));
        }
    }
    0
}

fn main() {
    // before any library call: the state a fresh process starts from
    sys::find_statics();
    let mut pristine = Vec::new();
    sys::save_statics(&mut pristine);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(1);
    let code = match a[..] {
        ["check", id] | ["check", id, "quick"] | ["check", id, "thorough"] => {
            let tier = if a.len() > 2 { a[2].to_string() } else { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) };
            match scn::prop(id) {
                Some(p) => check(p, &tier, vseed, &pristine),
                None => 2,
            }
        }
        ["replay", f] => replay(f, &pristine),
        ["selftest", n] => selftest(n.parse().unwrap_or(200), &pristine),
        // survey <prop> <n>: every violation of the first n runs
        ["survey", id, n] => {
            let p = scn::prop(id).expect("property");
            let b = batch(p, vseed, 0, n.parse().unwrap(), workers(), Duration::from_secs(3600), &pristine, true);
            let t = |f: fn(&Sum) -> u64| b.sums.iter().map(|s| f(s)).sum::<u64>();
            println!("# runs {} ok {} truncated {} harness {} violations {} in {:.1}s; ops {} events {} decisions {} switches {} preempts {}", t(|s| s.runs), t(|s| s.ok), t(|s| s.truncated), t(|s| s.harness), t(|s| s.violations), b.wall, t(|s| s.ops), t(|s| s.events), t(|s| s.decisions), t(|s| s.switches), t(|s| s.preempts));
            for s in &b.sums {
                if s.text_len > 0 {
                    println!("# harness: {}", String::from_utf8_lossy(&s.text[..s.text_len as usize]));
                }
            }
            for (i, name) in sim::PROBE_NAMES {
                println!("# {:50} {:8} in {:6} runs", name, b.sums.iter().map(|s| s.probes[*i]).sum::<u64>(), b.sums.iter().map(|s| s.probe_runs[*i]).sum::<u64>());
            }
            println!("# blocks {} of {}", b.cov.iter().filter(|&&x| x != 0).count(), unsafe { sys::GUARDS });
            0
        }
        // export <prop> <n> <dir>: the repository run n starts with, as real files (to compare the format code with git)
        ["export", id, i, dir] => {
            let p = scn::prop(id).expect("property");
            let s = scn::generate(p, run_seed(vseed, p, i.parse().unwrap()));
            export(&s, std::path::Path::new(dir))
        }
        ["one", id, i] | ["min", id, i] => {
            let p = scn::prop(id).expect("property");
            let seed = if let Some(h) = i.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { run_seed(vseed, p, i.parse().unwrap()) };
            let sh = Shared::map();
            if a[0] == "min" {
                let f = run::minimise(p, seed, sh, &pristine, Duration::from_secs(60));
                println!("{}", run::render(p, &f));
                println!("{:?} attempts {} from {:?} exact {}", f.outcome, f.tried, f.first, f.repro);
            } else {
                let o = execute(&Plan { prop: p, seed, dropped: &HashSet::new(), replay: None, log: true, quiet: false }, sh, &pristine);
                println!("{}", sh.log());
                println!("{:?} events {} decisions {}", o, sh.events, sh.ndec);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check <property> [quick|thorough] | replay <file> | selftest <n> | survey <property> <n> | one <property> <run> | min <property> <run>");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
