//! The simulated runtime: edge clock, baton scheduler, link-level interposition of futex, randomness and
//! clocks, accounting allocator. Only the thread that holds the baton runs; everything that could vary
//! (who runs next, hash seeds, clock readings) comes from the run's scenario.
use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};

// ---------------------------------------------------------------- raw system calls
#[inline(never)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
fn park_on(w: &AtomicU32, expect: u32) {
    while w.load(Acquire) == expect {
        unsafe { raw(libc::SYS_futex, w as *const _ as usize, 128, expect as usize, 0, 0, 0) };
    }
}
fn wake(w: &AtomicU32) {
    unsafe { raw(libc::SYS_futex, w as *const _ as usize, 129, 1, 0, 0, 0) };
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static NALLOC: AtomicU64 = AtomicU64::new(0);
pub static CAP: AtomicI64 = AtomicI64::new(i64::MAX);

fn charge(d: i64) -> bool {
    let l = LIVE.fetch_add(d, Relaxed) + d;
    if d > 0 {
        if l > CAP.load(Relaxed).saturating_add(subject::RECORDED.load(Relaxed)) {
            LIVE.fetch_sub(d, Relaxed);
            if ACTIVE.load(Relaxed) {
                shared().flag.store(FLAG_MEM, SeqCst);
            }
            return false;
        }
        NALLOC.fetch_add(1, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
    }
    true
}
/// Seam for memory layout: while on, a freed block is handed out again to the next request of exactly its size and
/// alignment, newest first, so that a new object takes the address of an old one as often as it can.
pub static RECYCLE: AtomicBool = AtomicBool::new(false);
const BINS: usize = 96;
struct Bins {
    busy: AtomicBool,
    n: usize,
    at: [(usize, usize, usize); BINS],
}
static mut FREED: Bins = Bins { busy: AtomicBool::new(false), n: 0, at: [(0, 0, 0); BINS] };
pub static REUSED: AtomicU64 = AtomicU64::new(0);
unsafe fn bins<T>(f: impl FnOnce(&mut Bins) -> T) -> T {
    let b = &mut *std::ptr::addr_of_mut!(FREED);
    while b.busy.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(b);
    b.busy.store(false, Release);
    r
}
/// Turns address reuse on or off; either way nothing is left over from before.
pub fn recycle(on: bool) {
    RECYCLE.store(false, SeqCst);
    unsafe {
        bins(|b| {
            for (p, s, a) in b.at[..b.n].iter().copied() {
                System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
            }
            b.n = 0;
        });
    }
    RECYCLE.store(on, SeqCst);
}
unsafe fn reuse(l: Layout) -> *mut u8 {
    if l.size() < 128 || !RECYCLE.load(Relaxed) {
        return std::ptr::null_mut();
    }
    bins(|b| {
        for i in (0..b.n).rev() {
            let (p, s, a) = b.at[i];
            if s == l.size() && a == l.align() {
                b.at.copy_within(i + 1..b.n, i);
                b.n -= 1;
                REUSED.fetch_add(1, Relaxed);
                return p as *mut u8;
            }
        }
        std::ptr::null_mut()
    })
}
unsafe fn keep(p: *mut u8, l: Layout) -> bool {
    if l.size() < 128 || !RECYCLE.load(Relaxed) {
        return false;
    }
    bins(|b| {
        if b.n == BINS {
            let (p, s, a) = b.at[0];
            System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
            b.at.copy_within(1..BINS, 0);
            b.n -= 1;
        }
        b.at[b.n] = (p as usize, l.size(), l.align());
        b.n += 1;
    });
    true
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            return std::ptr::null_mut();
        }
        let p = reuse(l);
        if p.is_null() {
            System.alloc(l)
        } else {
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        if !keep(p, l) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !charge(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        if RECYCLE.load(Relaxed) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let mut q = reuse(nl);
            if q.is_null() {
                q = System.alloc(nl);
            }
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                if !keep(p, l) {
                    System.dealloc(p, l)
                }
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- page shared with the parent
#[repr(C)]
pub struct Shared {
    pub phase: AtomicU32,
    pub flag: AtomicU32,
    pub client: AtomicU32,
    pub op: AtomicU32,
    pub steps: AtomicU64,
    pub msg_len: AtomicU32,
    pub msg: [u8; 400],
}
pub const PHASE_SETUP: u32 = 0;
pub const PHASE_SIM: u32 = 1;
pub const PHASE_ORACLE: u32 = 2;
pub const FLAG_MEM: u32 = 1;
pub const FLAG_STEPS: u32 = 2;
pub const FLAG_DEADLOCK: u32 = 3;
pub const FLAG_PANIC: u32 = 4;
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}
pub fn init_shared() {
    unsafe {
        if SHARED.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            SHARED = p as *mut Shared;
        }
        std::ptr::write_bytes(SHARED, 0, 1);
    }
}
fn die(code: i32) -> ! {
    shared().steps.store(unsafe { STEPS }, SeqCst);
    unsafe { libc::_exit(code) }
}

// ---------------------------------------------------------------- edge clock
pub static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut BUDGET: u64 = u64::MAX;
static mut NGUARD: u32 = 0;
pub const MAXG: usize = 1 << 17;
pub static mut COVER: [u8; MAXG] = [0; MAXG];

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        NGUARD += 1;
        *a = NGUARD.min(MAXG as u32 - 1);
        a = a.add(1);
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    // ids are below MAXG by construction
    let c = (&raw mut COVER).cast::<u8>().add(id as usize);
    let hot = *c;
    *c = hot | 1;
    STEPS += 1;
    if STEPS >= NEXT || hot & 2 != 0 {
        edge_event(id);
    }
}
pub fn guards() -> u32 {
    unsafe { NGUARD }
}
pub fn reset_steps() {
    unsafe { STEPS = 0 }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}

// ---------------------------------------------------------------- scheduler
pub const MAXT: usize = 8;
/// Panics outside a guarded call are worth a message.
pub static LOUD: AtomicBool = AtomicBool::new(false);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
thread_local! { static ME: Cell<u32> = const { Cell::new(u32::MAX) }; }

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize, Option<u64>),
    Done,
}
pub struct Sched {
    n: usize,
    cur: usize,
    st: Vec<St>,
    timed_out: Vec<bool>,
    rng: Rng,
    mean: u64,
    replay: Option<Vec<(u64, u32)>>,
    rpos: usize,
    pub log: Vec<(u64, u32)>,
    pub switches: u64,
    pub forced: u64,
    pub ilv: u64,
    pub blocked: u64,
}
static mut SCHED: Option<Sched> = None;
fn sched() -> &'static mut Sched {
    unsafe { (*std::ptr::addr_of_mut!(SCHED)).as_mut().unwrap() }
}
fn in_sim() -> bool {
    ACTIVE.load(Relaxed) && ME.with(|m| m.get()) != u32::MAX
}

/// Means from here on: no preemption anywhere but in so many small stretches of code, and there at almost every step.
pub const HOT: u64 = 1 << 40;
static mut PLACES: [Vec<u32>; 2] = [vec![], vec![]];
/// Edges of importing and rendering, edges of reading.
pub fn set_places(work: Vec<u32>, read: Vec<u32>) {
    unsafe { *std::ptr::addr_of_mut!(PLACES) = [work, read] }
}
fn mark_hot(seed: u64, n: u64) {
    let mut r = Rng::new(mix(seed, 0x407));
    unsafe {
        let places = &*std::ptr::addr_of!(PLACES);
        let read = if r.chance(0.3) { 0.5 } else { 0.0 };
        for _ in 0..n {
            let p = &places[r.chance(read) as usize];
            let len = r.range(2, 40) as usize;
            let at = r.below(p.len().max(1));
            for id in &p[at.min(p.len())..(at + len).min(p.len())] {
                COVER[*id as usize] |= 2;
            }
        }
    }
}
fn cool() {
    unsafe {
        for c in COVER[..NGUARD as usize + 1].iter_mut() {
            *c &= 1;
        }
    }
}

/// How preemptions are chosen in a run.
#[derive(Clone, Default)]
pub struct Plan {
    pub seed: u64,
    /// mean number of edges between preemptions; 0 = only forced switches
    pub mean: u64,
    /// exact schedule to follow instead: (edge clock, thread to run)
    pub replay: Option<Vec<(u64, u32)>>,
}

impl Sched {
    fn runnable(&self) -> Vec<usize> {
        (0..self.n).filter(|&i| self.st[i] == St::Ready).collect()
    }
    fn arm(&mut self) {
        let now = unsafe { STEPS };
        let next = match &self.replay {
            Some(r) => r.get(self.rpos).map(|x| x.0).unwrap_or(u64::MAX),
            None if self.mean == 0 || self.n < 2 || self.mean >= HOT => u64::MAX,
            None => {
                // mostly around the mean, sometimes very soon: races near the switch point
                let m = if self.rng.chance(0.25) { 8 } else { self.mean };
                now + 1 + self.rng.below(2 * m as usize) as u64
            }
        };
        unsafe { NEXT = next.max(now + 1).min(BUDGET) };
    }
    fn choose(&mut self, preempt: bool) -> Option<usize> {
        let now = unsafe { STEPS };
        let mut r = self.runnable();
        if r.is_empty() {
            return None;
        }
        if let Some(rep) = &self.replay {
            // entries earlier than now that did not apply are skipped
            while self.rpos < rep.len() && rep[self.rpos].0 < now {
                self.rpos += 1;
            }
            if self.rpos < rep.len() && rep[self.rpos].0 == now {
                let t = rep[self.rpos].1 as usize;
                self.rpos += 1;
                if r.contains(&t) {
                    return Some(t);
                }
            }
            return Some(if r.contains(&self.cur) { self.cur } else { r[0] });
        }
        if preempt && r.len() > 1 {
            r.retain(|&x| x != self.cur);
        }
        Some(*self.rng.pick(&r))
    }
    fn switch(&mut self, to: usize, tag: u64) {
        let from = self.cur;
        let now = unsafe { STEPS };
        self.log.push((now, to as u32));
        if to == from {
            return;
        }
        self.switches += 1;
        self.ilv = mix(self.ilv, tag ^ ((from as u64) << 40) ^ ((to as u64) << 48));
        self.cur = to;
        GO[from].store(0, SeqCst);
        GO[to].store(1, SeqCst);
        wake(&GO[to]);
        park_on(&GO[from], 0);
    }
}

/// Nobody can run: fire the earliest timeout or report a deadlock.
fn expire_one() {
    let s = sched();
    let mut best: Option<(u64, usize)> = None;
    for i in 0..s.n {
        if let St::Blocked(_, Some(t)) = s.st[i] {
            if best.map_or(true, |b| t < b.0) {
                best = Some((t, i));
            }
        }
    }
    match best {
        Some((t, i)) => {
            advance_clock_to(t);
            s.st[i] = St::Ready;
            s.timed_out[i] = true;
        }
        None => {
            shared().flag.store(FLAG_DEADLOCK, SeqCst);
            die(78)
        }
    }
}

/// Current thread cannot continue; runs someone else until it can.
fn block() {
    loop {
        let s = sched();
        match s.choose(false) {
            Some(t) => {
                s.forced += 1;
                s.switch(t, 0xF0);
                sched().arm();
                return;
            }
            None => expire_one(),
        }
    }
}

#[cold]
unsafe fn edge_event(tag: u32) {
    if !in_sim() {
        NEXT = u64::MAX;
        return;
    }
    if STEPS >= BUDGET {
        shared().flag.store(FLAG_STEPS, SeqCst);
        die(77);
    }
    let s = sched();
    if s.mean >= HOT && STEPS < NEXT {
        // a place this run races at
        if s.replay.is_some() || s.switches >= 20_000 || !s.rng.chance(0.4) {
            return;
        }
    }
    if let Some(t) = s.choose(true) {
        if t != s.cur {
            s.switch(t, tag as u64);
        }
    }
    sched().arm();
}

/// A voluntary scheduling point (operation boundaries).
pub fn yield_point() {
    if in_sim() {
        let s = sched();
        if s.n > 1 {
            if let Some(t) = s.choose(false) {
                if t != s.cur {
                    s.switch(t, 0xE0);
                } else if s.replay.is_none() {
                    // a decision to stay is part of the schedule as well
                    s.log.push((unsafe { STEPS }, t as u32));
                }
            }
            sched().arm();
        }
    }
}

pub fn current() -> usize {
    ME.with(|m| m.get()) as usize
}

pub struct SimResult {
    pub log: Vec<(u64, u32)>,
    pub switches: u64,
    pub ilv: u64,
    pub blocked: u64,
}

/// Runs the closures as simulated threads until all are done.
pub fn run_threads(fs: Vec<Box<dyn FnOnce() + Send>>, stack: usize, plan: &Plan, budget: u64) -> SimResult {
    let n = fs.len();
    assert!(n <= MAXT && n > 0);
    for (i, f) in fs.into_iter().enumerate() {
        GO[i].store(0, SeqCst);
        let started: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                ME.with(|m| m.set(i as u32));
                started.store(1, Release);
                wake(started);
                park_on(&GO[i], 0);
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                    shared().flag.store(FLAG_PANIC, SeqCst);
                    die(79);
                }
                finish(i);
            })
            .unwrap();
        park_on(started, 0);
    }
    unsafe {
        BUDGET = STEPS.saturating_add(budget);
        let mut s = Sched {
            n,
            cur: 0,
            st: vec![St::Ready; n],
            timed_out: vec![false; n],
            rng: Rng::new(plan.seed),
            mean: plan.mean,
            replay: plan.replay.clone(),
            rpos: 0,
            log: vec![],
            switches: 0,
            forced: 0,
            ilv: 0,
            blocked: 0,
        };
        s.arm();
        SCHED = Some(s);
        let hot = n > 1 && plan.replay.is_none() && plan.mean >= HOT;
        if hot {
            mark_hot(plan.seed, plan.mean - HOT);
        }
        GO[MAXT].store(0, SeqCst);
        ACTIVE.store(true, SeqCst);
        GO[0].store(1, SeqCst);
        wake(&GO[0]);
        park_on(&GO[MAXT], 0);
        ACTIVE.store(false, SeqCst);
        NEXT = u64::MAX;
        if hot {
            cool();
        }
        let s = (*std::ptr::addr_of_mut!(SCHED)).take().unwrap();
        SimResult { log: s.log, switches: s.switches, ilv: s.ilv, blocked: s.blocked }
    }
}

fn finish(i: usize) -> ! {
    let s = sched();
    s.st[i] = St::Done;
    if s.st.iter().all(|x| *x == St::Done) {
        GO[MAXT].store(1, SeqCst);
        wake(&GO[MAXT]);
    } else {
        // hand the baton on and never come back
        loop {
            let s = sched();
            match s.choose(false) {
                Some(t) => {
                    s.log.push((unsafe { STEPS }, t as u32));
                    s.switches += 1;
                    s.ilv = mix(s.ilv, 0xD0 ^ ((i as u64) << 40) ^ ((t as u64) << 48));
                    s.cur = t;
                    s.arm();
                    GO[t].store(1, Release);
                    wake(&GO[t]);
                    break;
                }
                None => expire_one(),
            }
        }
    }
    // thread-local destructors must not run concurrently with the rest: stay parked until the process exits
    let w = AtomicU32::new(0);
    loop {
        park_on(&w, 0);
    }
}

// ---------------------------------------------------------------- environment: clocks and randomness
/// Simulated wall clock: base + edge clock + jumps.
#[derive(Clone, Copy)]
pub struct Env {
    pub hash_seed: u64,
    pub clock_base: u64,
    pub clock_rate: u64,
    pub clock_jump: u64,
}
static mut ENV: Env = Env { hash_seed: 0, clock_base: 1_700_000_000_000_000_000, clock_rate: 1, clock_jump: 0 };
static mut ENV_CALLS: u64 = 0;
static mut CLOCK_ADD: u64 = 0;
pub static mut N_GETRANDOM: u64 = 0;
pub static mut N_CLOCK: u64 = 0;
pub fn set_env(e: Env) {
    unsafe {
        ENV = e;
        ENV_CALLS = 0;
        CLOCK_ADD = 0;
    }
}
fn now_ns() -> u64 {
    unsafe { ENV.clock_base.wrapping_add(STEPS.wrapping_mul(ENV.clock_rate)).wrapping_add(CLOCK_ADD) }
}
fn advance_clock_to(t: u64) {
    unsafe {
        let n = now_ns();
        if t > n {
            CLOCK_ADD = CLOCK_ADD.wrapping_add(t - n);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() {
        N_GETRANDOM += 1;
        ENV_CALLS += 1;
        let mut r = Rng::new(mix(ENV.hash_seed, ENV_CALLS));
        for i in 0..len {
            *buf.add(i) = r.u64() as u8;
        }
        return len as isize;
    }
    let r = raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as isize
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        N_CLOCK += 1;
        // every reading jumps by the fault's step as well
        CLOCK_ADD = CLOCK_ADD.wrapping_add(ENV.clock_jump);
        let n = now_ns();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        yield_point();
    } else {
        raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}
unsafe fn sim_sleep(ns: u64) {
    let s = sched();
    let me = s.cur;
    s.st[me] = St::Blocked(0, Some(now_ns() + ns));
    block();
    sched().timed_out[me] = false;
}
#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    let r = raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & 1 != 0 { t.saturating_sub(now_ns()) } else { t };
        sim_sleep(d);
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}

/// `syscall(2)` wrapper as used by the Rust standard library for futexes.
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && in_sim() {
        return sim_futex(a, b, c, d);
    }
    if n == libc::SYS_getrandom && in_sim() {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r
}
unsafe fn sim_futex(addr: usize, op: usize, val: usize, timeout: usize) -> i64 {
    const WAIT: usize = 0;
    const WAKE: usize = 1;
    const WAIT_BITSET: usize = 9;
    const WAKE_BITSET: usize = 10;
    let s = sched();
    match op & 0x7f {
        WAIT | WAIT_BITSET => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let to = if timeout == 0 {
                None
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if op & 0x7f == WAIT { now_ns() + t } else { t })
            };
            let me = s.cur;
            s.st[me] = St::Blocked(addr, to);
            s.blocked += 1;
            block();
            let s = sched();
            if s.timed_out[me] {
                s.timed_out[me] = false;
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        WAKE | WAKE_BITSET => {
            let mut k = 0;
            for i in 0..s.n {
                if k < val as i64 {
                    if let St::Blocked(x, _) = s.st[i] {
                        if x == addr {
                            s.st[i] = St::Ready;
                            k += 1;
                        }
                    }
                }
            }
            k
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}
