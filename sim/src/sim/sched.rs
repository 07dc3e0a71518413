//! Cooperative scheduler over real threads: exactly one simulated task runs;
//! switches happen at storage calls, allocations, lock waits and yields, and
//! between any two instructions of library code by single-stepping.
use super::raw::*;
use super::{active, mix, w, Inside, DEPTH, K, TASK};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering::SeqCst};

pub const MAX: usize = 8;
#[link_section = "simdata"]
static ON: AtomicBool = AtomicBool::new(false);
#[link_section = "simdata"]
static BATON: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
#[link_section = "simdata"]
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
#[link_section = "simdata"]
static PARKED: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked(usize, bool),
    Done,
}
pub struct Sched {
    pub st: Vec<St>,
    pub timed_out: Vec<bool>,
    pub cur: usize,
    pub countdown: u32,
    pub scale: u32,
    pub steps: u64,
    pub limit: u64,
    pub at_allocs: bool,
    pub switches: u64,
    /// Greater than 0: a preemption comes up to this many instructions after
    /// the point that is due.
    pub fine: u32,
    /// How many times in this run.
    pub windows: u32,
    /// Instructions of library code until the preemption.
    pub instr: u32,
    /// Count only instructions that touch memory shared by threads.
    pub shared: bool,
    /// Instructions left before such a window is given up.
    pub patience: u32,
}
impl Sched {
    pub fn new() -> Sched {
        Sched {
            st: Vec::new(),
            timed_out: Vec::new(),
            cur: 0,
            countdown: u32::MAX,
            scale: 1,
            steps: 0,
            limit: 20_000_000,
            at_allocs: true,
            switches: 0,
            fine: 0,
            windows: 0,
            instr: 0,
            shared: false,
            patience: 0,
        }
    }
}

fn fwait(a: &AtomicU32) {
    fwait_while(a, 0);
}
fn fwait_while(a: &AtomicU32, v: u32) {
    unsafe {
        sys6(SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
fn fwake(a: &AtomicU32) {
    unsafe {
        sys6(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0);
    }
}
fn take_baton(me: usize) {
    while BATON[me].swap(0, SeqCst) == 0 {
        fwait(&BATON[me]);
    }
}
fn give_baton(t: usize) {
    BATON[t].store(1, SeqCst);
    fwake(&BATON[t]);
}

fn new_countdown() {
    let w = w();
    let v = w.tape.draw(1024);
    w.sched.countdown = if v == 0 { u32::MAX } else { (v as u64 * w.sched.scale as u64 / 1024) as u32 };
}
fn ready_others() -> Vec<usize> {
    let w = w();
    (0..w.sched.st.len()).filter(|i| *i != w.sched.cur && w.sched.st[*i] == St::Ready).collect()
}
fn switch(to: usize, why: &str) {
    let me = TASK.with(|t| t.get()) as usize;
    let w = w();
    w.sched.cur = to;
    w.sched.switches += 1;
    w.sched_hash = mix(w.sched_hash ^ mix(w.sched.steps) ^ to as u64);
    w.count(K::Switch);
    w.ev(20, to as u64, 0, || format!("    ~~ switch to t{} ({})", to, why));
    give_baton(to);
    take_baton(me);
}

/// A place where the running task may be preempted.
pub fn point(why: &str, force: bool) {
    if !ON.load(SeqCst) || TASK.try_with(|t| t.get()).unwrap_or(-1) < 0 || DEPTH.try_with(|d| d.get()).unwrap_or(1) > 0 {
        return;
    }
    let _i = Inside::new();
    let s = w();
    s.sched.steps += 1;
    if s.sched.steps > s.sched.limit {
        (s.fatal)("no_progress", "the threads did not finish within the step budget");
    }
    if !force {
        if s.sched.countdown > 0 {
            if s.sched.countdown != u32::MAX {
                s.sched.countdown -= 1;
            }
            return;
        }
        new_countdown();
    }
    if !force && s.sched.windows > 0 && s.sched.instr == 0 {
        s.sched.windows -= 1;
        s.sched.instr = s.tape.draw(s.sched.fine);
        s.sched.patience = 1500;
        if s.sched.instr > 0 {
            STEPPING.store(TASK.with(|t| t.get()), SeqCst);
            return;
        }
    }
    preempt(why, force);
}
fn preempt(why: &str, force: bool) {
    let s = w();
    let others = ready_others();
    if others.is_empty() {
        return;
    }
    let pick = if force { 1 + s.tape.draw(others.len() as u32) as usize } else { s.tape.draw(others.len() as u32 + 1) as usize };
    if pick > 0 {
        switch(others[pick - 1], why);
    }
}

// ---- preemption between two instructions ----
extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static _end: u8;
    static __start_simdata: u8;
    static __stop_simdata: u8;
    fn sigaction(n: i32, a: *const SigAction, o: *mut u8) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const TF: i64 = 0x100;
/// Task whose instructions are being counted.
#[link_section = "simdata"]
static STEPPING: AtomicI32 = AtomicI32::new(-1);
/// Back in library code: go on counting.
pub fn resume_steps() {
    let t = STEPPING.load(std::sync::atomic::Ordering::Relaxed);
    if t >= 0 && TASK.try_with(|x| x.get()).unwrap_or(-1) == t {
        unsafe { single_step() };
    }
}
/// Let the processor trap after every instruction of this thread.
#[inline(never)]
unsafe fn single_step() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
/// SIGTRAP: count instructions of library code and switch when they are used
/// up.  Code of libc, of the simulator and of the harness is not counted.
unsafe extern "C" fn on_trap(_n: i32, _i: *mut u8, ctx: *mut i64) {
    // ucontext: flags, link, stack (3 words), then the registers.
    let rip = *ctx.add(5 + 16);
    let eflags = ctx.add(5 + 17);
    let task = TASK.try_with(|t| t.get()).unwrap_or(-1);
    if !ON.load(SeqCst) || task < 0 {
        *eflags &= !TF;
        return;
    }
    if DEPTH.with(|d| d.get()) > 0 {
        // resume_steps takes over when the simulator is left.
        *eflags &= !TF;
        return;
    }
    let s = w();
    let text = std::ptr::addr_of!(__executable_start) as i64..std::ptr::addr_of!(etext) as i64;
    if !text.contains(&rip) {
        return;
    }
    s.sched.steps += 1;
    if s.sched.shared {
        s.sched.patience -= 1;
        if s.sched.patience == 0 {
            s.sched.instr = 0;
            *eflags &= !TF;
            STEPPING.store(-1, SeqCst);
            return;
        }
        if !touches_shared(rip as *const u8) {
            return;
        }
    }
    s.sched.instr = s.sched.instr.saturating_sub(1);
    if s.sched.instr == 0 {
        *eflags &= !TF;
        STEPPING.store(-1, SeqCst);
        let _i = Inside::new();
        preempt(if s.sched.shared { "shared memory" } else { "instruction" }, s.sched.shared);
    }
}
/// Is the instruction an atomic one, or does it name a variable of the
/// program (not of the simulator)?
unsafe fn touches_shared(p: *const u8) -> bool {
    let (mut i, mut lock) = (0, false);
    loop {
        match *p.add(i) {
            0xf0 => lock = true,
            // Thread-local.
            0x64 | 0x65 => return false,
            0x26 | 0x2e | 0x36 | 0x3e | 0x66 | 0x67 | 0xf2 | 0xf3 | 0x40..=0x4f => {}
            _ => break,
        }
        i += 1;
    }
    let op = *p.add(i);
    let modrm = match op {
        0x0f => match *p.add(i + 1) {
            0x38 | 0x3a => i + 3,
            0x05 | 0x0b | 0x31 | 0x80..=0x8f | 0xa2 | 0xc8..=0xcf => return false,
            _ => i + 2,
        },
        0xc5 => i + 3,
        0xc4 => i + 4,
        0x00..=0x3f if op & 7 < 4 => i + 1,
        0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => i + 1,
        _ => return false,
    };
    let m = *p.add(modrm);
    if m & 0xc7 == 5 {
        let disp = (p.add(modrm + 1) as *const i32).read_unaligned();
        let to = p as i64 + modrm as i64 + 5 + disp as i64;
        let got: i64;
        std::arch::asm!("lea {}, [rip + _GLOBAL_OFFSET_TABLE_]", out(reg) got);
        let own = std::ptr::addr_of!(__start_simdata) as i64..std::ptr::addr_of!(__stop_simdata) as i64;
        // An immediate operand makes the address up to 4 bytes larger.
        return (got..std::ptr::addr_of!(_end) as i64).contains(&to) && !own.contains(&to) && !own.contains(&(to + 4)) && !own.contains(&(to + 1));
    }
    lock || (op == 0x86 || op == 0x87) && m < 0xc0
}
fn install_trap() {
    let a = SigAction { handler: on_trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
    unsafe { sigaction(5, &a, std::ptr::null_mut()) };
}
pub fn alloc_point() {
    if ON.load(std::sync::atomic::Ordering::Relaxed) && active() {
        if w().sched.at_allocs {
            point("allocation", false);
        }
    }
}

fn choose_next_or_die() -> Option<usize> {
    let s = w();
    let mut ready: Vec<usize> = (0..s.sched.st.len()).filter(|i| s.sched.st[*i] == St::Ready).collect();
    if ready.is_empty() {
        // Let a timed wait expire.
        if let Some(i) = (0..s.sched.st.len()).find(|i| matches!(s.sched.st[*i], St::Blocked(_, true))) {
            s.now_ns += 1_000_000_000;
            s.sched.timed_out[i] = true;
            s.sched.st[i] = St::Ready;
            ready.push(i);
        }
    }
    if ready.is_empty() {
        if s.sched.st.iter().all(|x| *x == St::Done) {
            return None;
        }
        (s.fatal)("deadlock", "every unfinished thread waits for another one");
    }
    let k = s.tape.draw(ready.len() as u32) as usize;
    Some(ready[k])
}

/// Intercepted futex of a simulated task.  None: let the kernel handle it.
pub unsafe fn futex(addr: usize, op: i64, val: i64, timeout: i64) -> Option<i64> {
    if !ON.load(SeqCst) || TASK.with(|t| t.get()) < 0 || DEPTH.with(|d| d.get()) > 0 {
        return None;
    }
    let me = TASK.with(|t| t.get()) as usize;
    match op & 0x7f {
        0 | 9 => {
            point("lock", false);
            let _i = Inside::new();
            let cur = (*(addr as *const AtomicU32)).load(SeqCst);
            if cur != val as u32 {
                return Some(-(EAGAIN as i64));
            }
            let s = w();
            s.count(K::BlockFutex);
            s.ev(21, 0, 0, || "    waits for a lock".into());
            s.sched.timed_out[me] = false;
            s.sched.st[me] = St::Blocked(addr, timeout != 0);
            let next = choose_next_or_die().unwrap();
            if next != me {
                switch(next, "lock wait");
            }
            let s = w();
            s.sched.cur = me;
            if s.sched.timed_out[me] {
                return Some(-(ETIMEDOUT as i64));
            }
            Some(0)
        }
        1 | 10 => {
            let n;
            {
                let _i = Inside::new();
                let s = w();
                let mut woken = 0;
                for i in 0..s.sched.st.len() {
                    if woken < val && matches!(s.sched.st[i], St::Blocked(a, _) if a == addr) {
                        s.sched.st[i] = St::Ready;
                        woken += 1;
                    }
                }
                n = woken;
                if n > 0 {
                    s.ev(22, n as u64, 0, || format!("    wakes {}", n));
                }
            }
            if n == 0 {
                return None;
            }
            point("wake", false);
            Some(n)
        }
        _ => None,
    }
}

/// Run the tasks to completion under the scheduler.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    let _i = Inside::new();
    let n = tasks.len();
    assert!(n <= MAX);
    {
        let s = w();
        s.sched.st = vec![St::Ready; n];
        s.sched.timed_out = vec![false; n];
        s.sched.steps = 0;
        s.sched.scale = [4u32, 24, 120, 800, 5000][s.tape.draw(5) as usize];
        s.sched.at_allocs = !s.tape.chance(1, 4);
        s.sched.fine = [0u32, 0, 8, 60, 400, 2000][s.tape.draw(6) as usize];
        s.sched.shared = s.sched.fine > 0 && s.tape.chance(1, 3);
        if s.sched.shared {
            s.sched.fine = [3, 3, 6, 40][s.tape.draw(4) as usize];
        }
        s.sched.windows = if s.sched.fine > 0 { 1 + s.tape.draw(6) } else { 0 };
        s.sched.instr = 0;
        new_countdown();
        if s.sched.fine > 0 {
            install_trap();
        }
    }
    ALL_DONE.store(0, SeqCst);
    PARKED.store(0, SeqCst);
    let first = w().tape.draw(n as u32) as usize;
    w().sched.cur = first;
    let mut hs = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    // One thread starts and ends at a time: what they do to
                    // the real allocator must not depend on real time.
                    PARKED.store(i as u32 + 1, SeqCst);
                    fwake(&PARKED);
                    take_baton(i);
                    TASK.with(|x| x.set(i as i32));
                    t();
                    DEPTH.with(|d| d.set(d.get() + 1));
                    let s = w();
                    s.sched.st[i] = St::Done;
                    s.ev(23, i as u64, 0, || format!("    t{} finished", i));
                    let next = choose_next_or_die();
                    TASK.with(|x| x.set(-1));
                    match next {
                        Some(t) => {
                            s.sched.cur = t;
                            give_baton(t);
                        }
                        None => {
                            ALL_DONE.store(1, SeqCst);
                            fwake(&ALL_DONE);
                        }
                    }
                    take_baton(i);
                })
                .unwrap(),
        );
        loop {
            let v = PARKED.load(SeqCst);
            if v == i as u32 + 1 {
                break;
            }
            fwait_while(&PARKED, v);
        }
    }
    ON.store(true, SeqCst);
    give_baton(first);
    while ALL_DONE.load(SeqCst) == 0 {
        fwait(&ALL_DONE);
    }
    ON.store(false, SeqCst);
    for (i, h) in hs.into_iter().enumerate() {
        give_baton(i);
        let _ = h.join();
    }
}

/// Run one task alone in a fresh thread, as a process of its own would.
pub fn solo<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            TASK.with(|x| x.set(0));
            let r = f();
            DEPTH.with(|d| d.set(d.get() + 1));
            TASK.with(|x| x.set(-1));
            r
        })
        .unwrap()
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
}
