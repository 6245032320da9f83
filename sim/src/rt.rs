//! Simulator runtime: everything that is nondeterministic for the library goes through here.
//! - yield points (sanitizer-coverage callbacks at every edge/load/store of library code)
//! - a baton scheduler: real threads, exactly one runs, the plan decides who
//! - entropy, clocks, sleeps, futexes, cpu count, thread creation (interposed libc symbols)
//! - the allocator (deterministic layout, injected failures)
//! - a shared-memory log and durable store that survive a simulated crash (process exit)
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- raw system calls
#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { sys6(202, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe { sys6(202, a as *const _ as i64, 129, 1, 0, 0, 0) };
}
pub fn exit_now(code: i32) -> ! {
    unsafe { sys6(231, code as i64, 0, 0, 0, 0, 0) };
    loop {}
}
pub fn real_now() -> f64 {
    let mut ts = Ts { s: 0, n: 0 };
    unsafe { sys6(228, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.s as f64 + ts.n as f64 * 1e-9
}
#[repr(C)]
pub struct Ts {
    pub s: i64,
    pub n: i64,
}

// ---------------------------------------------------------------- PRNG
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        Rng(mix(mix(mix(a) ^ b) ^ c))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u() % n }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- thread-local state
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Trig {
    pub k: u64,
    pub class: u8, // 0 = step, 1 = shared-memory access
    pub act: u8,   // 0 = switch, 1 = crash
    pub arg: u32,
}
pub const MAXTRIG: usize = 64;
#[repr(C)]
pub struct Tl {
    pub count: u64,
    pub next: u64,
    pub gcount: u64,
    pub gnext: u64,
    pub acount: u64,
    pub afail_at: u64,
    pub afail_n: u64,
    pub afired: u64,
    pub cbcount: u64,
    pub cbfail_at: u64,
    pub cbfired: u64,
    pub in_lib: bool,
    pub eff: bool,
    pub active: bool,
    pub tid: u32,
    pub op: u32,
    pub last_edge: u32,
    pub ntrig: usize,
    pub trig: [Trig; MAXTRIG],
    pub limit: u64,
    pub fair: u64,
    pub rnd: u64,
    pub futexes: u64,
    pub yields: u64,
    pub path: u64,
    pub kids: u64,
}
pub const TL0: Tl = Tl {
    count: 0, next: u64::MAX, gcount: 0, gnext: u64::MAX, acount: 0, afail_at: u64::MAX, afail_n: 0, afired: 0,
    cbcount: 0, cbfail_at: u64::MAX, cbfired: 0, in_lib: false, eff: false, active: false, tid: 0, op: 0, last_edge: 0,
    ntrig: 0, trig: [Trig { k: 0, class: 0, act: 0, arg: 0 }; MAXTRIG], limit: u64::MAX, fair: u64::MAX, rnd: 0, futexes: 0, yields: 0,
    path: 0, kids: 0,
};
#[thread_local]
pub static mut TL: Tl = TL0;

// ---------------------------------------------------------------- shared memory (survives crashes)
pub const LOGCAP: usize = 24 << 20;
pub const NEDGE: usize = 1 << 16;
pub const STORECAP: usize = 1 << 20;
#[repr(C)]
pub struct Shm {
    pub log_len: usize,
    pub status: u32, // 0 running, 1 finished, 2 crashed by plan, 3 hang, 4 deadlock, 5 overflow
    pub hang_tid: u32,
    pub hang_op: u32,
    pub inflight_afired: [u8; MAXT],
    pub effect: u32, // the first effect on the outside world: what, who, when
    pub effect_tid: u32,
    pub effect_op: u32,
    pub sched_hash: u64,
    pub sched_events: u64,
    pub statics: u64, // accesses of the library to its static variables
    pub fired: [u64; NF],
    pub clock: u64,
    pub steps: u64,
    pub store_len: usize,
    pub nedges: u32,
    pub site_hash: u64,
    pub sites: [u64; 64],
    pub nsites: usize,
    pub store: [u8; STORECAP],
    pub cov: [u8; NEDGE],
    pub log: [u8; LOGCAP],
}
// fault kinds
pub const F_PREEMPT: usize = 0;
pub const F_PREEMPT_SHARED: usize = 1;
pub const F_CRASH: usize = 2;
pub const F_ALLOC: usize = 3;
pub const F_CALLBACK: usize = 4;
pub const F_ENTROPY: usize = 5;
pub const F_CLOCK: usize = 6;
pub const F_CLOCKJUMP: usize = 7;
pub const F_NCPU: usize = 8;
pub const F_FUTEX: usize = 9;
pub const F_SLEEP: usize = 10;
pub const F_LIBTHREAD: usize = 11;
pub const F_BOUNDARY: usize = 12;
pub const F_FAIR: usize = 13;
pub const F_TORN: usize = 14;
pub const F_HEAP: usize = 15;
pub const F_BITFLIP: usize = 16;
pub const NF: usize = 17;
pub const FNAMES: [&str; NF] = [
    "preempt_at_step", "preempt_at_shared_access", "crash_at_step", "alloc_failure", "callback_panic",
    "entropy_read", "clock_read", "clock_jump", "cpu_count_read", "futex_block", "sleep", "library_thread",
    "switch_at_op_boundary", "fairness_switch", "torn_or_short_store", "heap_layout_changed", "stored_value_flipped",
];
pub static mut SHM: *mut Shm = std::ptr::null_mut();
pub unsafe fn shm() -> &'static mut Shm {
    &mut *SHM
}
pub fn fire(k: usize) {
    unsafe {
        if !SHM.is_null() {
            shm().fired[k] += 1
        }
    }
}
pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { sys6(9, 0, len as i64, 3, 0x21 | 0x4000, -1, 0) };
    assert!(p > 0, "mmap failed");
    p as *mut u8
}

// ---------------------------------------------------------------- environment of the current process
pub static mut ENV_SEED: u64 = 0;
pub static mut NCPU: u64 = 4;
pub static mut LIMIT: u64 = 400_000_000;
pub static mut CLOCK_MODE: u64 = 0;
static mut CLOCK: u64 = 1_000_000_000_000;
static CLOCKN: AtomicUsize = AtomicUsize::new(0);

// ---------------------------------------------------------------- scheduler
pub const MAXT: usize = 64;
#[derive(Clone, Copy, PartialEq)]
#[repr(u8)]
pub enum St {
    None,
    Run,
    Lock(u32),
    Futex(usize, bool), // address; with a timeout
    Done,
}
pub struct Sched {
    pub on: bool,
    pub n: usize,
    pub st: [St; MAXT],
    pub cur: usize,
    pub idle_futex: u64,
    pub locks: [i32; 64],
    pub pthreads: [u64; MAXT],
    pub woken: [bool; MAXT],
    pub callers: usize, // threads of the program; those above are the library's own
}
pub static mut S: Sched = Sched { on: false, n: 0, st: [St::None; MAXT], cur: 0, idle_futex: 0, locks: [-1; 64], pthreads: [0; MAXT], woken: [false; MAXT], callers: 1 };
static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
pub static MAINW: AtomicU32 = AtomicU32::new(0);
pub const FAIR_QUANTUM: u64 = 3_000_000;

pub fn park(tid: usize) {
    while BATON[tid].swap(0, AcqRel) == 0 {
        futex_wait(&BATON[tid], 0);
    }
}
fn hand(tid: usize) {
    BATON[tid].store(1, Release);
    futex_wake(&BATON[tid]);
}
pub fn main_wait() {
    while MAINW.swap(0, AcqRel) == 0 {
        futex_wait(&MAINW, 0);
    }
}
pub fn main_wake() {
    MAINW.store(1, Release);
    futex_wake(&MAINW);
}
pub unsafe fn start_first(t: usize) {
    S.cur = t;
    hand(t);
}
unsafe fn runnable(t: usize) -> bool {
    match S.st[t] {
        St::Run => true,
        St::Lock(l) => S.locks[l as usize] < 0,
        St::Futex(_, timed) => timed,
        _ => false,
    }
}
/// Once the library has threads of its own, the environment seed decides who runs.
static mut LIBN: u64 = 0;
static mut LIBR: u64 = 0;
unsafe fn libr(n: u64) -> u64 {
    LIBR += 1;
    mix(ENV_SEED ^ 0x71B ^ mix(LIBR)) % n
}
unsafe fn next_after(me: usize) -> Option<usize> {
    if LIBN > 0 {
        let c = (0..S.n).filter(|t| *t != me && runnable(*t)).count() as u64;
        if c == 0 {
            return None;
        }
        let k = libr(c) as usize;
        return (0..S.n).filter(|t| *t != me && runnable(*t)).nth(k);
    }
    for d in 1..=S.n {
        let t = (me + d) % S.n;
        if t != me && runnable(t) {
            return Some(t);
        }
    }
    None
}
unsafe fn note(kind: u64, me: usize, to: usize) {
    let s = shm();
    s.sched_hash = mix(s.sched_hash ^ mix(kind << 56 ^ (me as u64) << 48 ^ (to as u64) << 40 ^ (TL.op as u64) << 20) ^ TL.count);
    s.sched_events += 1;
}
unsafe fn site(kind: u64) {
    let s = shm();
    if s.nsites < 64 {
        s.sites[s.nsites] = kind << 32 | TL.last_edge as u64;
        s.nsites += 1;
    }
}
/// Hand the baton to `t`, wait for it to come back.
unsafe fn switch_to(t: usize) {
    let me = TL.tid as usize;
    if t == me {
        return;
    }
    S.cur = t;
    hand(t);
    park(me);
}
/// Switch to `want` if it can run, else to the next that can. False: nobody else can run.
pub unsafe fn yield_to(want: usize) -> bool {
    let me = TL.tid as usize;
    let t = if want < S.n && want != me && runnable(want) { Some(want) } else { next_after(me) };
    match t {
        Some(t) => {
            note(1, me, t);
            switch_to(t);
            true
        }
        None => false,
    }
}
pub unsafe fn thread_done() {
    let me = TL.tid as usize;
    TL.active = false;
    TL.next = u64::MAX;
    TL.gnext = u64::MAX;
    S.st[me] = St::Done;
    if S.st[..S.callers].iter().all(|s| matches!(s, St::Done)) {
        // threads that the library keeps for later do not matter
        main_wake();
        return;
    }
    match next_after(me) {
        Some(t) => {
            S.cur = t;
            hand(t);
        }
        None => die(4),
    }
}
pub fn die(status: u32) -> ! {
    unsafe {
        let s = shm();
        s.status = status;
        s.hang_tid = TL.tid;
        s.hang_op = TL.op;
    }
    exit_now(0)
}
pub unsafe fn lock(l: usize) {
    let me = TL.tid as usize;
    while S.locks[l] >= 0 {
        S.st[me] = St::Lock(l as u32);
        if !yield_to(S.locks[l] as usize) {
            die(4);
        }
        S.st[me] = St::Run;
    }
    S.st[me] = St::Run;
    S.locks[l] = me as i32;
}
pub unsafe fn unlock(l: usize) {
    S.locks[l] = -1;
}

pub unsafe fn arm() {
    // recompute TL.next / TL.gnext from the remaining triggers
    let mut n = TL.limit.min(TL.fair);
    let mut g = u64::MAX;
    for i in 0..TL.ntrig {
        let t = &TL.trig[i];
        if t.class == 0 && t.k > TL.count {
            n = n.min(t.k)
        }
        if t.class == 1 && t.k > TL.gcount {
            g = g.min(t.k)
        }
    }
    TL.next = n;
    TL.gnext = g;
}
#[cold]
#[inline(never)]
unsafe fn slow(class: u8) {
    if !TL.active {
        TL.next = u64::MAX;
        TL.gnext = u64::MAX;
        return;
    }
    if TL.count >= TL.limit {
        die(3);
    }
    let k = if class == 0 { TL.count } else { TL.gcount };
    let mut act = None;
    for i in 0..TL.ntrig {
        let t = TL.trig[i];
        if t.class == class && t.k == k {
            act = Some(t);
        }
    }
    if let Some(t) = act {
        if t.arg >> 8 > 0 && TL.ntrig < MAXTRIG {
            // so many steps after the access to shared memory
            TL.trig[TL.ntrig] = Trig { k: TL.count + (t.arg >> 8) as u64, class: 0, act: t.act, arg: t.arg & 0xff };
            TL.ntrig += 1;
            arm();
            return;
        }
        if t.act == 1 {
            note(2, TL.tid as usize, 0);
            site(2);
            fire(F_CRASH);
            die(2);
        }
        if S.on {
            site(class as u64);
            let il = TL.in_lib;
            if yield_to((t.arg & 0xff) as usize) {
                fire(if class == 0 { F_PREEMPT } else { F_PREEMPT_SHARED });
            }
            TL.in_lib = il;
        }
    } else if TL.count >= TL.fair {
        TL.fair = TL.count + if LIBN > 0 { 1 + libr(1 << (2 + libr(16))) } else { FAIR_QUANTUM };
        if S.on && yield_to(usize::MAX) {
            fire(F_FAIR);
        }
    }
    arm();
}
#[inline(always)]
unsafe fn step() {
    TL.count += 1;
    if TL.count >= TL.next {
        slow(0)
    }
}
pub static mut GLO: usize = 0;
pub static mut GHI: usize = 0;
// where the simulator keeps the objects that threads share
pub static mut OLO: usize = 0;
pub static mut OHI: usize = 0;
#[inline(always)]
unsafe fn access(a: usize) {
    let st = a >= GLO && a < GHI;
    if st || (a >= R2_BASE && a < R2_BASE + R_SIZE) {
        if st && !(a >= OLO && a < OHI) && !SHM.is_null() {
            (*SHM).statics += 1;
        }
        TL.gcount += 1;
        if TL.gcount >= TL.gnext {
            slow(1)
        }
    }
    step();
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    TL.last_edge = id;
    if !SHM.is_null() {
        (*SHM).cov[(id as usize) & (NEDGE - 1)] = 1;
    }
    step();
}
static mut NGUARD: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    let mut p = s;
    while p < e {
        NGUARD += 1;
        *p = NGUARD;
        p = p.add(1);
    }
}
pub fn nguards() -> u32 {
    unsafe { NGUARD }
}
macro_rules! acc {($($n:ident),*) => {$(#[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { access(a as usize) })*}}
acc!(__sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
     __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub fn init_globals() {
    unsafe {
        GLO = &__data_start as *const u8 as usize;
        GHI = &_end as *const u8 as usize;
    }
}

// ---------------------------------------------------------------- interposed libc: entropy, time, cpu, futex
unsafe fn fill(buf: *mut u8, len: usize) {
    fire(F_ENTROPY);
    for i in 0..len {
        if i % 8 == 0 {
            TL.rnd += 1;
        }
        let w = mix(mix(ENV_SEED ^ 0xE17) ^ mix(TL.path ^ (TL.tid as u64) << 40) ^ TL.rnd);
        *buf.add(i) = (w >> (8 * (i % 8))) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _f: u32) -> isize {
    fill(buf, len);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    fill(buf, len);
    0
}
unsafe fn now_ns(read: bool) -> u64 {
    if read {
        fire(F_CLOCK);
        let n = CLOCKN.fetch_add(1, Relaxed) as u64;
        let r = mix(ENV_SEED ^ 0xC10C ^ n);
        let adv = match CLOCK_MODE {
            0 => 1_000,
            1 => r % 5_000_000,
            2 => {
                if r % 4 == 0 {
                    fire(F_CLOCKJUMP);
                    3_600_000_000_000 * (1 + (r >> 8) % 48)
                } else {
                    r % 1000
                }
            }
            _ => 0, // a stalled clock
        };
        CLOCK += adv;
        if !SHM.is_null() {
            shm().clock += adv;
        }
    }
    CLOCK
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut Ts) -> i32 {
    let mut ns = now_ns(true);
    if c == 0 {
        // wall clock: base differs per environment, may step back
        ns = ns.wrapping_add(mix(ENV_SEED ^ 0xDA7E) % 2_000_000_000_000_000_000);
        if CLOCK_MODE == 2 {
            ns -= mix(ns) % 1_000_000_000;
        }
    }
    (*t).s = (ns / 1_000_000_000) as i64;
    (*t).n = (ns % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut Ts, _z: *mut u8) -> i32 {
    clock_gettime(0, t);
    (*t).n /= 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = Ts { s: 0, n: 0 };
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts.s
    }
    ts.s
}
unsafe fn sim_sleep(ts: *const Ts) {
    fire(F_SLEEP);
    if !ts.is_null() {
        let d = ((*ts).s as u64).saturating_mul(1_000_000_000) + (*ts).n as u64;
        CLOCK += d;
        if !SHM.is_null() {
            shm().clock += d;
        }
    }
    if S.on && TL.active {
        yield_to(usize::MAX);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const Ts, _b: *mut Ts) -> i32 {
    sim_sleep(a);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, a: *const Ts, _b: *mut Ts) -> i32 {
    sim_sleep(a);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if S.on && TL.active {
        // somebody yielded to runs for millions of steps: waiting this often is waiting in vain
        TL.yields += 1;
        if TL.yields > 30_000 {
            die(3);
        }
        yield_to(usize::MAX);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_p: i32, len: usize, m: *mut u8) -> i32 {
    fire(F_NCPU);
    for i in 0..len {
        *m.add(i) = 0;
    }
    for i in 0..NCPU as usize {
        *m.add(i / 8) |= 1 << (i % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if CUR_REG == 0 {
        return sys6(39, 0, 0, 0, 0, 0, 0) as i32;
    }
    1 + (mix(ENV_SEED ^ 0x91D) % 4_000_000) as i32
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *const u8, n: *const u8) -> *mut u8;
}
/// Rust's std parks threads with syscall(SYS_futex, ..): under the simulator a wait is a switch to
/// another thread, until somebody wakes it up or its timeout passes. In a third of the environments
/// every wait ends with a (legal) spurious wake-up instead.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 {
        fill(a as *mut u8, b as usize);
        return b;
    }
    if n == 24 {
        return sched_yield() as i64;
    }
    if n == 202 && S.on && TL.active {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            if *(a as *const u32) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            fire(F_FUTEX);
            TL.futexes += 1;
            S.idle_futex += 1;
            if mix(ENV_SEED ^ 0xF07E) % 3 != 0 {
                let me = TL.tid as usize;
                S.woken[me] = false;
                S.st[me] = St::Futex(a as usize, d != 0);
                if !yield_to(usize::MAX) && d == 0 {
                    die(4);
                }
                S.st[me] = St::Run;
                if TL.futexes > 200_000 {
                    die(4);
                }
                if S.woken[me] {
                    return 0;
                }
                CLOCK += 1_000_000_000;
                *__errno_location() = 110;
                return -1;
            }
            if d != 0 && S.idle_futex % 3 == 0 {
                // a timed wait: let the timeout pass
                CLOCK += 1_000_000_000;
                *__errno_location() = 110;
                return -1;
            }
            if !yield_to(usize::MAX) && d == 0 {
                die(4);
            }
            if TL.futexes > 200_000 {
                die(4);
            }
            *__errno_location() = 4;
            return -1;
        }
        if op == 1 || op == 10 {
            let mut left = c as i32;
            let mut n = 0;
            for t in 0..S.n {
                if left > 0 && matches!(S.st[t], St::Futex(p, _) if p == a as usize) {
                    S.st[t] = St::Run;
                    S.woken[t] = true;
                    left -= 1;
                    n += 1;
                }
            }
            return n;
        }
    }
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- effects on the outside world
pub const EFFECTS: [&str; 8] = [
    "none", "wrote to a file descriptor (output)", "left output in the standard output's buffer", "changed the floating-point mode",
    "replaced the panic hook", "changed an environment variable", "changed the working directory", "opened for writing, created or removed a file, or started something",
];
pub static mut ENDING: bool = false;
/// An effect of library code: noted, and not carried out.
pub unsafe fn effect(code: u32) -> bool {
    if CUR_REG == 0 || SHM.is_null() || !(ENDING || (S.on && TL.active && (TL.eff || TL.tid as usize >= S.callers))) {
        return false;
    }
    let m = shm();
    if m.effect == 0 {
        m.effect = code;
        m.effect_tid = TL.tid;
        m.effect_op = TL.op;
    }
    true
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if effect(if ENDING { 2 } else { 1 }) {
        return n as isize;
    }
    ret(sys6(1, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if effect(if ENDING { 2 } else { 1 }) {
        return (0..n as usize).map(|i| (*v.add(i))[1]).sum::<usize>() as isize;
    }
    ret(sys6(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
unsafe fn do_open(dir: i64, p: *const u8, flags: i32, mode: u32) -> i32 {
    // reading (the number of processors, say) is no effect
    if flags & (3 | 0o100 | 0o1000) != 0 && effect(7) {
        *__errno_location() = 13;
        return -1;
    }
    ret(sys6(257, dir, p as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d as i64, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d as i64, p, flags, mode)
}
/// of these, library code gets a refusal; the simulator (and the fresh process) the real one
macro_rules! refuse {
    ($($n:ident $code:literal ($($a:ident : $t:ty),*));* $(;)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> i32 {
            if effect($code) {
                return 0;
            }
            let f: extern "C" fn($($t),*) -> i32 = real(concat!(stringify!($n), "\0").as_bytes());
            f($($a),*)
        }
    )*};
}
refuse! {
    setenv 5 (a: *const u8, b: *const u8, c: i32);
    unsetenv 5 (a: *const u8);
    chdir 6 (a: *const u8);
    unlink 7 (a: *const u8);
    rmdir 7 (a: *const u8);
    rename 7 (a: *const u8, b: *const u8);
    mkdir 7 (a: *const u8, m: u32);
    socket 7 (a: i32, b: i32, c: i32);
}
pub unsafe fn check_fp() {
    let mut m: u32 = 0;
    core::arch::asm!("stmxcsr [{}]", in(reg) &mut m, options(nostack));
    if m & 0xffc0 != 0x1f80 {
        effect(3);
        m = 0x1f80;
        core::arch::asm!("ldmxcsr [{}]", in(reg) &m, options(nostack));
    }
}

// ---------------------------------------------------------------- threads the library itself would create
type StartFn = extern "C" fn(*mut u8) -> *mut u8;
struct LibThread {
    f: StartFn,
    arg: *mut u8,
    tid: usize,
    path: u64,
}
extern "C" fn lib_thread_main(p: *mut u8) -> *mut u8 {
    unsafe {
        let lt = Box::from_raw(p as *mut LibThread);
        TL.tid = lt.tid as u32;
        TL.path = lt.path;
        park(lt.tid);
        TL.active = true;
        TL.limit = LIMIT;
        TL.fair = 1 + libr(1 << (2 + libr(16)));
        arm();
        let r = (lt.f)(lt.arg);
        thread_done();
        r
    }
}
unsafe fn real<T>(name: &'static [u8]) -> T {
    let p = dlsym(-1i64 as *const u8, name.as_ptr());
    std::mem::transmute_copy(&p)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const u8, f: StartFn, arg: *mut u8) -> i32 {
    let realf: extern "C" fn(*mut u64, *const u8, StartFn, *mut u8) -> i32 = real(b"pthread_create\0");
    if S.on && TL.active {
        fire(F_LIBTHREAD);
        let tid = (S.callers..S.n).find(|t| S.st[*t] == St::Done).unwrap_or(S.n);
        if tid >= MAXT {
            return 11;
        }
        let il = TL.in_lib;
        TL.in_lib = false;
        TL.kids += 1;
        let lt = Box::into_raw(Box::new(LibThread { f, arg, tid, path: mix(TL.path ^ (TL.tid as u64) << 32 ^ TL.kids) }));
        TL.in_lib = il;
        S.n = S.n.max(tid + 1);
        S.st[tid] = St::Run;
        LIBN += 1;
        let r = realf(t, attr, lib_thread_main, lt as *mut u8);
        if r == 0 {
            S.pthreads[tid] = *t;
            if libr(2) == 0 {
                yield_to(tid);
            }
            TL.in_lib = il;
        } else {
            S.st[tid] = St::Done;
        }
        return r;
    }
    realf(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, ret: *mut *mut u8) -> i32 {
    let realf: extern "C" fn(u64, *mut *mut u8) -> i32 = real(b"pthread_join\0");
    if S.on && TL.active {
        for i in 0..S.n {
            if S.pthreads[i] == t {
                while S.st[i] != St::Done {
                    if !yield_to(if libr(2) == 0 { i } else { usize::MAX }) {
                        die(4);
                    }
                }
            }
        }
    }
    realf(t, ret)
}

// ---------------------------------------------------------------- allocator
pub const R0_BASE: usize = 0x2000_0000_0000; // worker / orchestrator
pub const R1_BASE: usize = 0x2400_0000_0000; // simulated process
pub const R2_BASE: usize = 0x2800_0000_0000; // objects shared between simulated threads
pub const R_SIZE: usize = 64 << 30;
const NCLASS: usize = 160;
struct Region {
    base: usize,
    top: usize,
    mapped: usize,
    free: [usize; NCLASS],
}
static mut REG: [Region; 3] = [
    Region { base: R0_BASE, top: R0_BASE, mapped: R0_BASE, free: [0; NCLASS] },
    Region { base: R1_BASE, top: R1_BASE, mapped: R1_BASE, free: [0; NCLASS] },
    Region { base: R2_BASE, top: R2_BASE, mapped: R2_BASE, free: [0; NCLASS] },
];
pub static mut CUR_REG: usize = 0;
pub static mut HEAP_MODE: u64 = 0; // 0 reuse last freed, 1 never reuse small blocks, 2 padded
#[thread_local]
pub static mut SHARED_ALLOC: bool = false;
/// bytes in use by the simulated process
pub static mut LIVE: i64 = 0;
fn took(l: &Layout) -> i64 {
    class(if l.align() > 16 { l.size() + l.align() } else { l.size() }).1 as i64
}
static ALOCK: AtomicBool = AtomicBool::new(false);

fn class(sz: usize) -> (usize, usize) {
    // size classes: 16..1024 step 16 (64), then 4 per power of two
    let sz = sz.max(1);
    if sz <= 1024 {
        let c = (sz + 15) / 16 - 1;
        return (c, (c + 1) * 16);
    }
    let p = usize::BITS as usize - (sz - 1).leading_zeros() as usize; // 2^(p-1) < sz <= 2^p
    let lo = 1usize << (p - 1);
    let q = lo / 4;
    let i = (sz - lo + q - 1) / q; // 1..=4
    (64 + (p - 11) * 4 + i - 1, lo + i * q)
}
unsafe fn region_alloc(r: &mut Region, sz: usize, align: usize) -> *mut u8 {
    let big_align = align > 16;
    let (c, csz) = class(if big_align { sz + align } else { sz });
    if !big_align && r.free[c] != 0 && !(HEAP_MODE == 1 && csz <= 4096 && r.base != R0_BASE) {
        let p = r.free[c];
        r.free[c] = *(p as *const usize);
        return p as *mut u8;
    }
    let mut p = r.top;
    if HEAP_MODE == 2 && r.base != R0_BASE && csz <= 4096 {
        p += 16 * (mix(ENV_SEED ^ p as u64) % 8) as usize;
    }
    if big_align {
        p = (p + align - 1) & !(align - 1);
    }
    let end = p + csz;
    if end > r.base + R_SIZE {
        return std::ptr::null_mut();
    }
    while end > r.mapped {
        let n = (8usize << 20).max((end - r.mapped + 0xfff) & !0xfff);
        // MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        let q = sys6(9, r.mapped as i64, n as i64, 3, 0x22 | 0x4000 | 0x100000, -1, 0);
        if q != r.mapped as i64 {
            return std::ptr::null_mut();
        }
        r.mapped += n;
    }
    r.top = end;
    p as *mut u8
}
pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TL.in_lib {
            TL.acount += 1;
            if TL.acount >= TL.afail_at && TL.acount < TL.afail_at.saturating_add(TL.afail_n) {
                TL.afired += 1;
                shm().inflight_afired[TL.tid as usize & (MAXT - 1)] = 1;
                fire(F_ALLOC);
                site(3);
                return std::ptr::null_mut();
            }
        }
        while ALOCK.swap(true, Acquire) {
            sys6(24, 0, 0, 0, 0, 0, 0);
        }
        let r = if SHARED_ALLOC { 2 } else { CUR_REG };
        let p = region_alloc(&mut REG[r], l.size(), l.align());
        if r > 0 && !p.is_null() {
            LIVE += took(&l);
        }
        ALOCK.store(false, Release);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        let r = if a >= R2_BASE { 2 } else if a >= R1_BASE { 1 } else { 0 };
        if r == 0 && CUR_REG != 0 {
            return;
        }
        while ALOCK.swap(true, Acquire) {
            sys6(24, 0, 0, 0, 0, 0, 0);
        }
        if r > 0 {
            LIVE -= took(&l);
        }
        if l.align() > 16 {
            ALOCK.store(false, Release);
            return;
        }
        let (c, _) = class(l.size());
        *(p as *mut usize) = REG[r].free[c];
        REG[r].free[c] = a;
        ALOCK.store(false, Release);
    }
}
/// Move this (just forked) process to its own heap, laid out from the environment seed.
pub unsafe fn fresh_heap(mode: u64) {
    CUR_REG = 1;
    HEAP_MODE = mode;
    if mode != 0 {
        fire(F_HEAP);
        REG[1].top = R1_BASE + 4096 + 16 * (mix(ENV_SEED ^ 0x4EA9) % 4096) as usize;
    }
}

// ---------------------------------------------------------------- processes
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn alarm(s: u32) -> u32;
}
pub fn limits(secs: u32) {
    unsafe {
        alarm(secs);
        setrlimit(4, &[0, 0]); // no core files
    }
}
/// true if the process ended by itself with code 0, else the signal/exit code
pub fn wait(pid: i32) -> Result<(), i32> {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    if st == 0 { Ok(()) } else { Err(st) }
}
