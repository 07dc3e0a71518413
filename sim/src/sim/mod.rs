//! Simulated world below the libc boundary: storage, randomness, clock,
//! scheduler and memory accounting.  One tape of choices decides everything.
#![allow(dead_code, static_mut_refs)]
pub mod alloc;
pub mod fs;
pub mod interpose;
pub mod raw;
pub mod sched;
pub mod tape;

use std::cell::Cell;
use tape::Tape;

thread_local! {
    /// Simulated task number of this OS thread, -1 outside the simulation.
    pub static TASK: Cell<i32> = const { Cell::new(-1) };
    /// Greater than 0 while simulator or harness code runs on this thread.
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
}

/// While alive, the thread runs simulator or harness code: no preemption, no
/// memory accounting.
pub struct Inside;
impl Inside {
    pub fn new() -> Inside {
        DEPTH.with(|d| d.set(d.get() + 1));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
        if DEPTH.with(|d| d.get()) == 0 {
            sched::resume_steps();
        }
    }
}

macro_rules! kinds {
    ($($id:ident = $name:literal),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(usize)]
        pub enum K { $($id),* , COUNT }
        pub const K_NAMES: &[&str] = &[$($name),*];
    };
}
kinds! {
    OpStat = "op_lookup", OpOpen = "op_open", OpCreate = "op_create", OpRead = "op_read",
    OpSeek = "op_seek", OpWrite = "op_write", OpClose = "op_close", OpSync = "op_sync",
    OpMeta = "op_rename_unlink_etc", OpRandom = "op_random", OpClock = "op_clock",
    StatEio = "lookup_eio", StatEacces = "lookup_eacces", StatEnoent = "lookup_enoent",
    StatEnotdir = "lookup_enotdir", StatEloop = "lookup_eloop", StatEtimedout = "lookup_etimedout",
    Vanish = "vanish_after_lookup",
    OpenEacces = "open_eacces", OpenEio = "open_eio", OpenEmfile = "open_emfile", OpenEnoent = "open_enoent",
    OpenEintr = "open_eintr", OpenEnfile = "open_enfile", OpenEnotdir = "open_enotdir", OpenEtimedout = "open_etimedout",
    OpenEnomem = "open_enomem", OpenEagain = "open_eagain",
    CreateEnospc = "create_enospc", CreateErofs = "create_erofs", CreateEacces = "create_eacces", CreateEio = "create_eio",
    CreateEdquot = "create_edquot", CreateEtxtbsy = "create_etxtbsy", CreateEperm = "create_eperm", CreateEtimedout = "create_etimedout",
    ReadEio = "read_eio", ReadEstale = "read_estale", ReadShort = "read_partial", ReadEintr = "read_eintr",
    ReadEagain = "read_eagain", ReadEtimedout = "read_etimedout", ReadEnomem = "read_enomem", ReadEisdir = "read_eisdir",
    ReadEinval = "read_einval", ReadEpipe = "read_epipe", ReadEconnreset = "read_econnreset", ReadEacces = "read_eacces",
    SeekEio = "seek_eio", SeekEinval = "seek_einval",
    WriteEio = "write_eio", WriteEnospc = "write_enospc", WriteEdquot = "write_edquot", WriteZero = "write_returns_zero",
    WriteEagain = "write_eagain", WriteEtimedout = "write_etimedout", WriteEfbig = "write_efbig", WriteEpipe = "write_epipe",
    WriteEperm = "write_eperm", WriteEinval = "write_einval", WriteEnomem = "write_enomem", WriteEstale = "write_estale",
    WriteShort = "write_partial", WriteEintr = "write_eintr", DiskFull = "disk_full_mid_write",
    CloseEio = "close_eio", SyncEio = "sync_eio", MetaEio = "rename_unlink_eio",
    Crash = "process_crash", CrashInWrite = "process_crash_inside_write", PowerLoss = "power_loss",
    PlDrop = "unsynced_write_lost", PlTorn = "unsynced_write_torn", PlZero = "unsynced_block_zeroed",
    DmgFlip = "damage_bit_flip", DmgZero = "damage_block_zeroed", DmgSwap = "damage_blocks_swapped",
    DmgDup = "damage_block_duplicated", DmgTrunc = "damage_truncated", DmgStale = "damage_stale_block",
    DmgRepeat = "damage_bytes_repeated", DmgWord = "damage_word_overwritten", DmgCross = "damage_foreign_file",
    DmgTok = "damage_token_overwritten", DmgLine = "damage_line_lost_or_moved",
    Switch = "preemption", BlockFutex = "lock_wait", FirstUse = "first_use_in_process", HashSeeds = "hash_seeds_drawn",
    Restart = "process_restart",
}

/// Operation classes a fault plan can aim at.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Stat,
    Open,
    Create,
    Read,
    Seek,
    Write,
    Close,
    Sync,
    Meta,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Chunk {
    Full,
    Fixed(usize),
    Rand(usize),
}

pub struct Plan {
    pub class: Option<Op>,
    pub nth: u32,
    pub sticky: bool,
    pub fired: bool,
}

pub struct Faults {
    pub plans: Vec<Plan>,
    pub read_chunk: Chunk,
    pub write_chunk: Chunk,
    /// Chance (of 256) that a read, write or open is interrupted.
    pub eintr: u32,
    pub eintr_row: u32,
    pub rng: u64,
    /// Only this task is hit by planned faults (None: all).
    pub only_task: Option<i32>,
    pub hard_fired: u32,
    pub soft_fired: u32,
}
impl Faults {
    pub fn none() -> Faults {
        Faults {
            plans: Vec::new(),
            read_chunk: Chunk::Full,
            write_chunk: Chunk::Full,
            eintr: 0,
            eintr_row: 0,
            rng: 1,
            only_task: None,
            hard_fired: 0,
            soft_fired: 0,
        }
    }
}

pub struct World {
    pub on: bool,
    pub tape: Tape,
    pub verbose: bool,
    pub trace: String,
    pub hash: u64,
    pub sched_hash: u64,
    pub shape: u64,
    last_code: u64,
    pub fs: fs::Fs,
    pub f: Faults,
    pub now_ns: u64,
    pub ops: u64,
    pub op_limit: u64,
    pub stats: [u64; K::COUNT as usize],
    /// The simulated process is dead; nothing it does has an effect.
    pub dead: bool,
    /// Storage mutations until the process dies.
    pub crash_in: Option<u32>,
    pub crashed_once: bool,
    pub sched: sched::Sched,
    /// Called when the run must stop at once (deadlock, budget).
    pub fatal: fn(&str, &str) -> !,
    pub rnd: u64,
    pub rnd_used: u64,
    /// Number of the simulated process, 0 = not asked for yet.
    pub pid: i32,
}

#[link_section = "simdata"]
static mut WORLD: Option<Box<World>> = None;

pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
pub fn active() -> bool {
    unsafe { WORLD.as_ref().map_or(false, |w| w.on) }
}
/// Calls made by the current thread meet the simulated world.
pub fn simulated() -> bool {
    TASK.try_with(|t| t.get() >= 0).unwrap_or(false) && active()
}

pub fn install(tape: Tape, verbose: bool, fatal: fn(&str, &str) -> !) {
    let _i = Inside::new();
    let mut w = Box::new(World {
        on: true,
        tape,
        verbose,
        trace: String::new(),
        hash: 0xcbf29ce484222325,
        sched_hash: 0xcbf29ce484222325,
        shape: 0x51ed270b,
        last_code: 0,
        fs: fs::Fs::new(),
        f: Faults::none(),
        now_ns: 1_600_000_000_000_000_000,
        ops: 0,
        op_limit: u64::MAX,
        stats: [0; K::COUNT as usize],
        dead: false,
        crash_in: None,
        crashed_once: false,
        sched: sched::Sched::new(),
        fatal,
        rnd: 0,
        rnd_used: 0,
        pid: 0,
    });
    let s = w.tape.draw_raw();
    w.rnd = mix(s as u64 + 1);
    unsafe { WORLD = Some(w) }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl World {
    pub fn count(&mut self, k: K) {
        self.stats[k as usize] += 1;
    }
    pub fn ev(&mut self, code: u64, a: u64, b: u64, text: impl FnOnce() -> String) {
        let t = TASK.with(|t| t.get());
        let mut h = self.hash;
        for v in [code, a, b, t as u64] {
            h = mix(h ^ v);
        }
        self.hash = h;
        if code != self.last_code {
            self.last_code = code;
            self.shape = mix(self.shape ^ code);
        }
        if self.verbose {
            use std::fmt::Write;
            let txt = text();
            let _ = writeln!(self.trace, "[{:>9}us t{}] {}", (self.now_ns - 1_600_000_000_000_000_000) / 1000, t, txt);
        }
    }
    /// Mix an observable result of the workload into the event hash.
    pub fn note(&mut self, text: impl FnOnce() -> String, v: u64) {
        self.ev(900, v, 0, text);
    }
    pub fn fault(&mut self, k: K, txt: &str) {
        self.count(k);
        self.ev(800 + k as u64, 0, 0, || format!("    !! fault {} {}", K_NAMES[k as usize], txt));
    }
    pub fn soft_rng(&mut self) -> u64 {
        self.f.rng = self.f.rng.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.f.rng)
    }

    /// Should a planned fault hit this operation?
    pub fn hit(&mut self, op: Op) -> bool {
        if let Some(t) = self.f.only_task {
            if TASK.with(|x| x.get()) != t {
                return false;
            }
        }
        let mut hit = false;
        for p in self.f.plans.iter_mut() {
            let m = match p.class {
                None => true,
                Some(c) => c == op || (c == Op::Open && op == Op::Create),
            };
            if !m || (p.fired && !p.sticky) {
                continue;
            }
            if p.nth > 0 {
                p.nth -= 1;
            } else {
                p.fired = true;
                hit = true;
            }
        }
        if hit {
            self.f.hard_fired += 1;
        }
        hit
    }
    pub fn pick_kind(&mut self, ks: &[K]) -> K {
        ks[self.tape.draw(ks.len() as u32) as usize]
    }

    pub fn clear_faults(&mut self) {
        self.f = Faults::none();
        self.fs.free = None;
        self.ev(701, 0, 0, || "    storage healthy".into());
    }
    /// Draw chunking and interruption behaviour.
    pub fn draw_soft(&mut self, always: bool) {
        if !always && self.tape.chance(1, 3) {
            return;
        }
        let d = |t: &mut Tape| match t.draw(5) {
            0 => Chunk::Full,
            1 => Chunk::Fixed(1 + t.draw(16) as usize),
            2 => Chunk::Rand(1 + t.draw(64) as usize),
            3 => Chunk::Rand(1 + t.draw(4096) as usize),
            _ => Chunk::Rand(9000),
        };
        let r = d(&mut self.tape);
        let wr = d(&mut self.tape);
        self.f.read_chunk = r;
        self.f.write_chunk = wr;
        self.f.eintr = [0u32, 4, 24, 96][self.tape.draw(4) as usize];
        self.f.rng = self.tape.draw_raw() as u64;
        let (a, b, c) = (self.f.read_chunk, self.f.write_chunk, self.f.eintr);
        self.ev(702, 0, 0, || format!("    storage reads {:?}, writes {:?}, interruption {}/256", a, b, c));
    }
    /// Draw up to `max` hard faults aimed at the given classes.
    pub fn draw_hard(&mut self, classes: &[Op], max: u32) {
        let n = 1 + self.tape.draw(max);
        for _ in 0..n {
            let c = self.tape.draw(classes.len() as u32 + 1) as usize;
            let class = if c == 0 { None } else { Some(classes[c - 1]) };
            let scale = [1u32, 4, 24, 160, 1000][self.tape.draw(5) as usize];
            let nth = self.tape.draw(scale);
            let sticky = self.tape.chance(1, 4);
            self.ev(703, c as u64, nth as u64, || {
                format!("    fault planned: {:?} call number {}{}", class, nth, if sticky { ", and all later ones" } else { "" })
            });
            self.f.plans.push(Plan { class, nth, sticky, fired: false });
        }
    }
    /// Every call fails.
    pub fn draw_total(&mut self) {
        self.ev(703, 0, 0, || "    fault planned: every call".into());
        self.f.plans.push(Plan { class: None, nth: 0, sticky: true, fired: false });
    }
    pub fn draw_disk_free(&mut self) {
        let scale = [1u32, 64, 1024, 20000][self.tape.draw(4) as usize];
        let free = self.tape.draw(scale) as u64;
        self.fs.free = Some(free);
        self.ev(704, free, 0, || format!("    storage has {} bytes free", free));
    }
    /// Plan a process death after a drawn number of storage mutations.
    pub fn draw_crash(&mut self, max: u32) {
        let n = self.tape.draw(max);
        self.crash_in = Some(n);
        self.crashed_once = false;
        self.ev(705, n as u64, 0, || format!("    process will die at storage mutation {}", n));
    }
    /// A mutation is about to happen: does the process die here?
    pub fn mutation(&mut self) -> bool {
        if self.dead {
            return true;
        }
        if let Some(n) = self.crash_in {
            if n == 0 {
                self.dead = true;
                self.crashed_once = true;
                self.crash_in = None;
                self.count(K::Crash);
                self.ev(706, 0, 0, || "    !! process dies here".into());
                return true;
            }
            self.crash_in = Some(n - 1);
        }
        false
    }
    /// The process (alive or dead) ends, a new one starts on the same storage.
    pub fn restart(&mut self) {
        self.fs.close_all();
        self.dead = false;
        self.crash_in = None;
        self.pid = 0;
        self.count(K::Restart);
        self.ev(707, 0, 0, || "--- process restart".into());
    }
    pub fn begin_op(&mut self, k: K) {
        self.count(k);
        self.ops += 1;
        self.now_ns += 20_000;
        if self.ops > self.op_limit {
            (self.fatal)("too_many_storage_calls", "the operation exceeded its bound on storage calls");
        }
    }
}
