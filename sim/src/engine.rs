//! Runs, workers, minimiser, replay files, evidence.
use crate::sim::raw::*;
use crate::sim::tape::{Tape, TAPE_CAP};
use crate::sim::{self, hash_bytes, mix, w, Inside, K, K_NAMES};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

const TRACE_CAP: usize = 1 << 21;
const SEQ_CAP: usize = 4096;
pub const NK: usize = K::COUNT as usize;

#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 running, 1 held, 2 violation, 3 harness error
    pub nontrivial: u32,
    pub rule_len: u32,
    pub msg_len: u32,
    pub sample_len: u32,
    pub trace_len: u32,
    pub tape_len: u32,
    pub seq_len: u32,
    pub rule: [u8; 64],
    pub msg: [u8; 8192],
    pub sample: [u8; 1024],
    pub hash: u64,
    pub sched_hash: u64,
    pub shape: u64,
    pub evals: u64,
    pub known: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub stats: [u64; NK],
    pub seq: [u64; SEQ_CAP],
    pub tape: [u32; TAPE_CAP],
    pub trace: [u8; TRACE_CAP],
}

fn shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap64(std::ptr::null_mut(), len, 3, 0x21, -1, 0);
        assert!(p as i64 != -1);
        p
    }
}
static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn put(dst: &mut [u8], s: &str) -> u32 {
    let mut n = s.len().min(dst.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}
fn get(src: &[u8], n: u32) -> String {
    String::from_utf8_lossy(&src[..n as usize]).into_owned()
}

fn finish(status: u32) -> ! {
    let s = shm();
    let wd = w();
    s.hash = wd.hash;
    s.sched_hash = wd.sched_hash;
    s.shape = wd.shape;
    s.sim_ns = wd.now_ns - 1_600_000_000_000_000_000;
    s.steps = wd.ops + wd.sched.steps;
    s.switches = wd.sched.switches;
    s.stats = wd.stats;
    s.trace_len = put(&mut s.trace, &wd.trace);
    s.status = status;
    exit_now(0)
}
/// Report a violation and stop the run.
pub fn violation(rule: &str, msg: &str) -> ! {
    let _i = Inside::new();
    w().note(|| format!("VIOLATION {}: {}", rule, msg), 0);
    let s = shm();
    s.rule_len = put(&mut s.rule, rule);
    s.msg_len = put(&mut s.msg, msg);
    finish(2)
}
pub fn harness_error(msg: &str) -> ! {
    let _i = Inside::new();
    let s = shm();
    s.msg_len = put(&mut s.msg, msg);
    finish(3)
}
const FINDINGS: &str = include_str!("../../known-findings.txt");

/// Recorded findings of a property: key and description.
fn findings(prop: &str) -> Vec<(&'static str, &'static str)> {
    let head = format!("known: property={} key=", prop);
    FINDINGS.lines().filter_map(|l| l.strip_prefix(head.as_str())).filter_map(|l| l.split_once(' ')).collect()
}
/// A violation that is exactly a recorded finding is counted, any other one
/// reported.
pub fn finding(prop: &str, key: &str, rule: &str, msg: &str) {
    match findings(prop).iter().position(|f| f.0 == key) {
        Some(i) => shm().known |= 1 << i,
        None => violation(rule, msg),
    }
}
/// One more oracle evaluation.
pub fn eval() {
    shm().evals += 1;
}
/// This run exercised what the property is about.
pub fn nontrivial() {
    shm().nontrivial = 1;
}
pub fn sample(s: &str) {
    let m = shm();
    let mut t = get(&m.sample, m.sample_len);
    if !t.is_empty() {
        t.push_str("; ");
    }
    t.push_str(s);
    m.sample_len = put(&mut m.sample, &t);
}

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub rule: String,
    pub msg: String,
    pub tape: Vec<u32>,
    pub trace: String,
    pub hash: u64,
    pub sched_hash: u64,
    pub shape: u64,
    pub evals: u64,
    pub known: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub sample: String,
    pub stats: Vec<u64>,
}
impl Outcome {
    pub fn violated(&self) -> bool {
        self.status == 2
    }
}

thread_local! {
    /// Message of the last panic of this thread.
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Execute one run in a process of its own.
pub fn execute(sc: &Scenario, tape: Tape, verbose: bool) -> Outcome {
    let s = shm();
    s.status = 0;
    s.nontrivial = 0;
    s.rule_len = 0;
    s.msg_len = 0;
    s.sample_len = 0;
    s.trace_len = 0;
    s.tape_len = 0;
    s.seq_len = 0;
    s.evals = 0;
    s.known = 0;
    s.hash = 0;
    s.stats = [0; NK];
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0);
            // 30 s of processor time or 120 s of wall time: a hang.
            setitimer(2, &[0, 0, 30, 0], std::ptr::null_mut());
            alarm(120);
        }
        let t = tape.mirror(&mut s.tape_len, s.tape.as_mut_ptr());
        sim::install(t, verbose, violation);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)()));
        match r {
            Ok(()) => finish(1),
            Err(_) => {
                let m = PANIC_MSG.with(|x| x.borrow().clone());
                harness_error(&format!("panic in harness: {}", m))
            }
        }
    }
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let s = shm();
    let mut o = Outcome {
        status: s.status,
        rule: get(&s.rule, s.rule_len),
        msg: get(&s.msg, s.msg_len),
        tape: s.tape[..s.tape_len as usize].to_vec(),
        trace: get(&s.trace, s.trace_len),
        hash: s.hash,
        sched_hash: s.sched_hash,
        shape: s.shape,
        evals: s.evals,
        known: s.known,
        nontrivial: s.nontrivial != 0,
        sim_ns: s.sim_ns,
        steps: s.steps,
        switches: s.switches,
        sample: get(&s.sample, s.sample_len),
        stats: s.stats.to_vec(),
    };
    if o.status == 0 {
        let sig = st & 0x7f;
        o.status = 2;
        if sig == 14 || sig == 27 {
            o.rule = "hang".into();
            o.msg = "an operation did not finish within 30 s of processor time or 120 s".into();
        } else if sig != 0 {
            o.rule = "process_killed".into();
            o.msg = format!("the process was killed by signal {}", sig);
        } else {
            o.status = 3;
            o.msg = format!("run ended with wait status {:#x}", st);
        }
    }
    o
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed ^ 0xd57) ^ hash_bytes(prop.as_bytes()) ^ mix(run.wrapping_add(77)))
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    done: u64,
    hash: u64,
    shape: u64,
    sched: u64,
}
#[repr(C)]
struct Totals {
    min_bad: AtomicU64,
    worker: [WorkerTotals; 64],
}
#[repr(C)]
struct WorkerTotals {
    runs: u64,
    evals: u64,
    known: u64,
    nontrivial: u64,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    reexec: u64,
    mismatch: u64,
    mismatch_run: u64,
    herr: u64,
    herr_run: u64,
    herr_len: u32,
    n_samples: u32,
    herr_msg: [u8; 512],
    sample_run: [u64; 4],
    sample_len: [u32; 4],
    sample: [[u8; 1024]; 4],
    stats: [u64; NK],
    runs_with: [u64; NK],
}

pub struct Cfg {
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub workers: usize,
    pub cap_s: u64,
    pub out: String,
}

fn init_shm() {
    unsafe { SHM = shared(std::mem::size_of::<Shm>()) as *mut Shm }
}

pub fn init() {
    unsafe {
        // Same addresses in every process.
        let p = personality(0xffffffff);
        if p & 0x0040000 == 0 && std::env::var("DST_REEXEC").is_err() {
            if personality(p as u64 | 0x0040000) != -1 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args_os().skip(1))
                    .env("DST_REEXEC", "1")
                    .exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
        setrlimit(4, &[0, 0]);
    }
    std::panic::set_hook(Box::new(|i| {
        let _g = Inside::new();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|x| *x.borrow_mut() = format!("{} at {}", m, loc));
    }));
    init_shm();
}

pub fn check(sc: &Scenario, cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let recs = shared(std::mem::size_of::<Rec>() * cfg.runs as usize) as *mut Rec;
    let tot = unsafe { &mut *(shared(std::mem::size_of::<Totals>()) as *mut Totals) };
    tot.min_bad.store(u64::MAX, SeqCst);
    let mut pids = Vec::new();
    for k in 0..cfg.workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            init_shm();
            worker(sc, cfg, k, recs, tot, t0);
            exit_now(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            eprintln!("worker ended with status {:#x}", st);
            return 2;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let ws = &tot.worker[..cfg.workers];
    for x in ws {
        if x.herr > 0 {
            eprintln!("run {}: harness error: {}", x.herr_run, get(&x.herr_msg, x.herr_len));
            return 2;
        }
    }
    let bad = tot.min_bad.load(SeqCst);
    for x in ws {
        // A violation is reported with an exact replay all the same.
        if x.mismatch > 0 {
            eprintln!("run {} is not repeatable: event hashes differ", x.mismatch_run);
            if bad == u64::MAX {
                return 2;
            }
        }
    }
    let known = ws.iter().fold(0, |a, x| a | x.known);
    for (i, f) in findings(sc.id).iter().enumerate() {
        if known >> i & 1 == 1 {
            println!("KNOWN-FINDING: property={} {}", sc.id, f.1);
        }
    }
    let mut violations = Vec::new();
    let mut code = 0;
    if bad != u64::MAX {
        let first = execute(sc, Tape::seeded(run_seed(cfg.seed, sc.id, bad)), false);
        let (tape, o, execs) = minimise(sc, &first);
        let path = format!("{}/replays/{}-{}-{}.replay", cfg.out, sc.id, cfg.seed, bad);
        let _ = std::fs::create_dir_all(format!("{}/replays", cfg.out));
        let repeat = execute(sc, Tape::replay(tape.clone()), true);
        let same = repeat.violated() && repeat.rule == o.rule && repeat.hash == o.hash;
        write_replay(&path, sc, cfg.seed, bad, &tape, &repeat, first.tape.len(), execs, same);
        println!("run {} seed {}: {} - {}", bad, cfg.seed, o.rule, o.msg);
        println!("minimised {} -> {} choices in {} executions, replay {}", first.tape.len(), tape.len(), execs, if same { "exact" } else { "NOT exact" });
        println!("VIOLATION property={} replay={}", sc.id, path);
        violations.push((o.rule.clone(), o.msg.clone(), path));
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(sc, cfg, recs, ws, &violations, search_s, wall);
    let runs: u64 = ws.iter().map(|x| x.runs).sum();
    println!("{} tier={} seed={} runs={} wall={:.1}s exit={}", sc.id, cfg.tier, cfg.seed, runs, wall, code);
    code
}

fn worker(sc: &Scenario, cfg: &Cfg, k: usize, recs: *mut Rec, tot: &mut Totals, t0: Instant) {
    let me = &mut tot.worker[k];
    let every = std::env::var("DST_REPEAT").is_ok();
    let mut i = k as u64;
    while i < cfg.runs {
        if i >= tot.min_bad.load(SeqCst) || t0.elapsed().as_secs() > cfg.cap_s {
            break;
        }
        let seed = run_seed(cfg.seed, sc.id, i);
        let o = execute(sc, Tape::seeded(seed), false);
        me.runs += 1;
        me.evals += o.evals;
        me.known |= o.known;
        me.sim_ns += o.sim_ns;
        me.steps += o.steps;
        me.switches += o.switches;
        for j in 0..NK {
            me.stats[j] += o.stats[j];
            me.runs_with[j] += (o.stats[j] > 0) as u64;
        }
        if o.status == 3 {
            me.herr += 1;
            me.herr_run = i;
            me.herr_len = put(&mut me.herr_msg, &o.msg);
            return;
        }
        let r = unsafe { &mut *recs.add(i as usize) };
        r.done = 1 + o.nontrivial as u64;
        r.hash = o.hash;
        r.shape = o.shape;
        r.sched = o.sched_hash;
        if o.nontrivial {
            me.nontrivial += 1;
            if me.n_samples < 4 && !o.sample.is_empty() {
                let n = me.n_samples as usize;
                me.sample_run[n] = i;
                me.sample_len[n] = put(&mut me.sample[n], &o.sample);
                me.n_samples += 1;
            }
        }
        if o.violated() {
            tot.min_bad.fetch_min(i, SeqCst);
            break;
        }
        if (i % 50 < cfg.workers as u64 && i / 50 % 2 == 0) || every {
            me.reexec += 1;
            let o2 = execute(sc, Tape::seeded(seed), false);
            let o3 = execute(sc, Tape::replay(o.tape.clone()), true);
            if o2.hash != o.hash || o3.hash != o.hash || o2.tape != o.tape {
                me.mismatch += 1;
                me.mismatch_run = i;
            }
        }
        i += cfg.workers as u64;
    }
}

/// Shrink the tape while the same rule stays violated.
fn minimise(sc: &Scenario, first: &Outcome) -> (Vec<u32>, Outcome, u64) {
    let mut best = first.tape.clone();
    let mut out = first.clone();
    let mut execs = 0u64;
    let t0 = Instant::now();
    let budget = |execs: u64| execs < 4000 && t0.elapsed().as_secs() < 60;
    let attempt = |cand: Vec<u32>, best: &mut Vec<u32>, out: &mut Outcome, execs: &mut u64| -> bool {
        *execs += 1;
        let o = execute(sc, Tape::replay(cand), false);
        if o.violated() && o.rule == first.rule {
            let mut t = o.tape.clone();
            while t.last() == Some(&0) {
                t.pop();
            }
            let better = t.len() < best.len() || (t.len() == best.len() && t < *best);
            if better {
                *best = t;
                *out = o;
                return true;
            }
        }
        false
    };
    {
        let t = best.clone();
        attempt(t, &mut best, &mut out, &mut execs);
    }
    loop {
        let before = best.clone();
        // Cut the tail.
        let mut n = best.len() / 2;
        while n > 0 && budget(execs) {
            if n < best.len() {
                let c = best[..best.len() - n].to_vec();
                if attempt(c, &mut best, &mut out, &mut execs) {
                    continue;
                }
            }
            n /= 2;
        }
        // Delete, then zero, blocks.
        for mode in 0..2 {
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() && budget(execs) {
                    let e = (i + size).min(best.len());
                    let mut c = best.clone();
                    if mode == 0 {
                        c.drain(i..e);
                    } else {
                        if c[i..e].iter().all(|x| *x == 0) {
                            i += size;
                            continue;
                        }
                        c[i..e].fill(0);
                    }
                    if !attempt(c, &mut best, &mut out, &mut execs) || mode == 1 {
                        i += size;
                    }
                }
                if size == 1 || !budget(execs) {
                    break;
                }
                size /= 2;
            }
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && budget(execs) {
            let mut lo = 0u32;
            let mut hi = best[i];
            let mut tries = 0;
            while lo < hi && budget(execs) && tries < 12 {
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut out, &mut execs) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || !budget(execs) {
            break;
        }
    }
    (best, out, execs)
}

fn write_replay(path: &str, sc: &Scenario, seed: u64, run: u64, tape: &[u32], o: &Outcome, full: usize, execs: u64, same: bool) {
    let mut s = String::new();
    let _ = writeln!(s, "dst-replay 1");
    let _ = writeln!(s, "property {}", sc.id);
    let _ = writeln!(s, "seed {} run {}", seed, run);
    let _ = writeln!(s, "rule {}", o.rule);
    let _ = writeln!(s, "message {}", o.msg.replace('\n', "\\n"));
    let _ = writeln!(s, "event-hash {:016x}", o.hash);
    let _ = writeln!(s, "reproduced {}", if same { "exactly" } else { "no" });
    let _ = writeln!(s, "minimised from {} choices in {} executions", full, execs);
    let _ = writeln!(s, "tape {}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "---- trace of the minimised run ----");
    s.push_str(&o.trace);
    let _ = std::fs::write(path, s);
}

pub fn replay(list: &[Scenario], path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let mut prop = String::new();
    let mut tape = Vec::new();
    let mut hash = String::new();
    let mut rule = String::new();
    for l in s.lines() {
        if l.starts_with("----") {
            break;
        }
        if let Some(x) = l.strip_prefix("property ") {
            prop = x.into();
        } else if let Some(x) = l.strip_prefix("tape ") {
            tape = x.split_whitespace().map(|v| v.parse().unwrap()).collect();
        } else if let Some(x) = l.strip_prefix("event-hash ") {
            hash = x.into();
        } else if let Some(x) = l.strip_prefix("rule ") {
            rule = x.into();
        }
    }
    let sc = match list.iter().find(|x| x.id == prop) {
        Some(x) => x,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let o = execute(sc, Tape::replay(tape), true);
    print!("{}", o.trace);
    if o.status == 3 {
        eprintln!("{}", o.msg);
        return 2;
    }
    if o.violated() {
        println!("{}: {}", o.rule, o.msg);
        println!("event hash {:016x}, recorded {} ({})", o.hash, hash, if format!("{:016x}", o.hash) == hash && o.rule == rule { "same execution" } else { "different execution" });
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    println!("property {} held in this execution", prop);
    0
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(sc: &Scenario, cfg: &Cfg, recs: *mut Rec, ws: &[WorkerTotals], viol: &[(String, String, String)], search_s: f64, wall: f64) {
    let mut hashes = HashSet::new();
    let mut nt = HashSet::new();
    let mut shapes = HashSet::new();
    let mut scheds = HashSet::new();
    for i in 0..cfg.runs as usize {
        let r = unsafe { *recs.add(i) };
        if r.done > 0 {
            hashes.insert(r.hash);
            shapes.insert(r.shape);
            scheds.insert(r.sched);
            if r.done > 1 {
                nt.insert(r.hash);
            }
        }
    }
    let sum = |f: fn(&WorkerTotals) -> u64| -> u64 { ws.iter().map(f).sum() };
    let runs = sum(|x| x.runs);
    let mut ops = BTreeMap::new();
    let mut faults = BTreeMap::new();
    for j in 0..NK {
        let n: u64 = ws.iter().map(|x| x.stats[j]).sum();
        let r: u64 = ws.iter().map(|x| x.runs_with[j]).sum();
        if n > 0 {
            if K_NAMES[j].starts_with("op_") {
                ops.insert(&K_NAMES[j][3..], n);
            } else {
                faults.insert(K_NAMES[j], (n, r));
            }
        }
    }
    let mut samples = Vec::new();
    let mut all: Vec<(u64, String)> = Vec::new();
    for x in ws {
        for n in 0..x.n_samples as usize {
            all.push((x.sample_run[n], get(&x.sample[n], x.sample_len[n])));
        }
    }
    all.sort();
    for (r, s) in all.iter().take(6) {
        samples.push(js(&format!("run {}: {}", r, s)));
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, "  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},", js(sc.id), js(&cfg.tier), cfg.seed, js(sc.level));
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"evaluations\": {},", sum(|x| x.evals));
    let _ = writeln!(o, "    \"distinct_nontrivial\": {},", nt.len());
    let _ = writeln!(o, "    \"rule\": {},", js(sc.rule));
    let _ = writeln!(o, "    \"samples\": [{}],", samples.join(", "));
    let _ = writeln!(o, "    \"runs\": {},", runs);
    let _ = writeln!(o, "    \"nontrivial_runs\": {},", sum(|x| x.nontrivial));
    let _ = writeln!(o, "    \"seeds_per_hour\": {:.0},", runs as f64 / search_s.max(0.001) * 3600.0);
    let _ = writeln!(o, "    \"simulated_seconds\": {:.3},", sum(|x| x.sim_ns) as f64 / 1e9);
    let _ = writeln!(o, "    \"scheduler_and_storage_steps\": {},", sum(|x| x.steps));
    let _ = writeln!(o, "    \"distinct_executions\": {{\"measure\": \"hash over every storage call with sizes and answers, every fault, every switch and every observed result\", \"count\": {}}},", hashes.len());
    let _ = writeln!(o, "    \"distinct_shapes\": {{\"measure\": \"hash over the sequence of kinds of calls, faults and switches, repetitions collapsed\", \"count\": {}}},", shapes.len());
    if sum(|x| x.switches) > 0 {
        let _ = writeln!(o, "    \"distinct_interleavings\": {{\"measure\": \"hash over the positions and targets of all context switches\", \"count\": {}, \"switches\": {}}},", scheds.len(), sum(|x| x.switches));
    }
    let f: Vec<String> = faults.iter().map(|(k, (n, r))| format!("{}: {{\"count\": {}, \"runs\": {}}}", js(k), n, r)).collect();
    let _ = writeln!(o, "    \"faults_injected\": {{{}}},", f.join(", "));
    let f: Vec<String> = ops.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    let _ = writeln!(o, "    \"calls_simulated\": {{{}}},", f.join(", "));
    let _ = writeln!(o, "    \"runs_reexecuted_for_repeatability\": {}, \"repeatability_mismatches\": {},", sum(|x| x.reexec), sum(|x| x.mismatch));
    let py = if sc.id == "P15" { "\"rspolib Python module (python/src), pyo3, CPython interpreter\", " } else { "" };
    let _ = writeln!(o, "    \"real_code\": [{}\"rspolib, all modules\", \"Rust std fs, io, collections, sync, thread\", \"natord, unicode-linebreak, unicode-width, lazy_static, snafu\"],", py);
    let _ = writeln!(o, "    \"stubs\": [\"kernel file system\", \"kernel random device\", \"kernel clock\", \"kernel futex wait and wake between simulated threads\"]");
    let _ = writeln!(o, "  }},");
    let a: Vec<String> = sc.assumptions.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "  \"assumptions\": [{}],", a.join(", "));
    let v: Vec<String> = viol.iter().map(|(r, m, p)| format!("{{\"rule\": {}, \"message\": {}, \"replay\": {}}}", js(r), js(m), js(p))).collect();
    let _ = writeln!(o, "  \"violations\": [{}],", v.join(", "));
    let _ = writeln!(o, "  \"wall_s\": {:.2}\n}}", wall);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.out));
    let _ = std::fs::write(format!("{}/evidence/{}.json", cfg.out, sc.id), o);
}

/// The command line: check ID | replay FILE | one ID RUN.
pub fn cli(list: &[Scenario], a: &[String]) -> i32 {
    init();
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or(d.to_string());
    match a.first().map(|x| x.as_str()) {
        Some("check") => {
            let sc = match list.iter().find(|s| Some(s.id) == a.get(1).map(|x| x.as_str())) {
                Some(s) => s,
                None => {
                    eprintln!("no such property");
                    return 2;
                }
            };
            let tier = env("VERIF_TIER", "quick");
            let runs = if tier == "thorough" { sc.thorough } else { sc.quick };
            let cfg = Cfg {
                seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
                runs: env("DST_RUNS", &runs.to_string()).parse().unwrap_or(runs),
                workers: env("DST_WORKERS", "8").parse().unwrap_or(8),
                cap_s: env("DST_CAP_S", "600").parse().unwrap_or(600),
                out: env("DST_OUT", "/verif"),
                tier,
            };
            check(sc, &cfg)
        }
        Some("replay") => replay(list, a.get(1).map_or("", |x| x)),
        Some("one") => {
            // dst one P01 RUN: print the trace of one seeded run.
            let sc = list.iter().find(|s| s.id == a[1]).unwrap();
            let seed = env("VERIF_SEED", "1").parse().unwrap_or(1);
            let t = Tape::seeded(run_seed(seed, sc.id, a[2].parse().unwrap()));
            let o = execute(sc, t, true);
            print!("{}", o.trace);
            println!("status {} {} {} hash {:016x} nontrivial {} sample {}", o.status, o.rule, o.msg, o.hash, o.nontrivial, o.sample);
            0
        }
        _ => {
            eprintln!("usage: dst check ID | replay FILE | one ID RUN");
            2
        }
    }
}
