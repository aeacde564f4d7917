//! Seams: every source of nondeterminism the libraries under test can observe inside this process.
//!  * hash-table iteration order: `getrandom` (what std's RandomState draws its keys from)
//!  * memory: the global allocator (liveness ledger, poison + quarantine, double-free detection)
//!  * instruction progress: SanitizerCoverage edge callback in the code under test (steps, coverage,
//!    pre-emption points)
//!  * blocking: the `syscall` symbol (futex wait/wake of std's Once/Mutex/Condvar/park)
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x1234) };
    static HASH_CTR: Cell<u64> = const { Cell::new(0) };
    static SIM_TID: Cell<i32> = const { Cell::new(-1) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
}
pub static HASH_DRAWS: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
    HASH_CTR.with(|c| c.set(0));
}
pub fn set_counting(on: bool) -> bool {
    COUNTING.with(|c| c.replace(on))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill_random(buf, len);
    len as isize
}
unsafe fn fill_random(buf: *mut u8, len: usize) {
    HASH_DRAWS.fetch_add(1, Relaxed);
    let seed = HASH_SEED.with(|c| c.get());
    let mut ctr = HASH_CTR.with(|c| c.get());
    let mut i = 0;
    while i < len {
        let w = mix(seed ^ mix(ctr)).to_le_bytes();
        ctr += 1;
        for b in w {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    HASH_CTR.with(|c| c.set(ctr));
}

// ---------------------------------------------------------------------------------------------
// edge callback
pub const MAX_EDGES: usize = 1 << 16;
pub static N_EDGES: AtomicUsize = AtomicUsize::new(0);
static mut EDGE_COUNT: [u32; MAX_EDGES] = [0; MAX_EDGES];
static mut TOUCHED: [u32; MAX_EDGES] = [0; MAX_EDGES];
static mut N_TOUCHED: usize = 0;
static mut STEPS: u64 = 0;
/// executions of each edge by simulated threads, up to 201
static mut THREAD_EDGES: [u8; MAX_EDGES] = [0; MAX_EDGES];
static mut STEP_LIMIT: u64 = u64::MAX;

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    let mut n = N_EDGES.load(Relaxed);
    while p < stop {
        n += 1;
        *p = if n < MAX_EDGES { n as u32 } else { (MAX_EDGES - 1) as u32 };
        p = p.add(1);
    }
    N_EDGES.store(n, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let tid = SIM_TID.with(|c| c.get());
    if tid >= 0 {
        count_edge(*guard);
        sched_edge(tid, *guard);
    } else if COUNTING.with(|c| c.get()) {
        count_edge(*guard);
    }
}
#[inline]
unsafe fn count_edge(id: u32) {
    STEPS += 1;
    if STEPS > STEP_LIMIT {
        _exit(EXIT_STEPS);
    }
    let i = id as usize;
    if EDGE_COUNT[i] == 0 {
        TOUCHED[N_TOUCHED] = id;
        N_TOUCHED += 1;
    }
    EDGE_COUNT[i] = EDGE_COUNT[i].wrapping_add(1).max(1);
}
pub fn cov_reset(limit: u64) {
    unsafe {
        for k in 0..N_TOUCHED {
            EDGE_COUNT[TOUCHED[k] as usize] = 0;
        }
        N_TOUCHED = 0;
        STEPS = 0;
        STEP_LIMIT = limit;
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
/// order-independent signature of the set of executed edges, with log2 hit-count buckets
pub fn cov_signature() -> (u64, usize) {
    unsafe {
        let mut h = 0u64;
        let n = N_TOUCHED;
        for k in 0..n {
            let id = TOUCHED[k];
            let c = EDGE_COUNT[id as usize];
            h = h.wrapping_add(mix(((id as u64) << 8) | (32 - c.leading_zeros()) as u64));
        }
        (h, n)
    }
}
pub fn touched_edges() -> Vec<u32> {
    unsafe { (0..N_TOUCHED).map(|k| TOUCHED[k]).collect() }
}

// ---------------------------------------------------------------------------------------------
// allocator
pub struct SimAlloc;
const MAGIC_LIVE: u32 = 0xA110C8ED;
const MAGIC_FREE: u32 = 0xDEADF4EE;
const HDR: usize = 32;
#[repr(C)]
struct Hdr {
    magic: u32,
    tag: u32,
    size: usize,
    align: usize,
    pad: usize,
}
pub static LIVE_BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static QUARANTINE: AtomicBool = AtomicBool::new(false);
pub static MEM_FAULT: AtomicU32 = AtomicU32::new(0); // 1 double free, 2 wild free, 3 wrong layout, 4 write after free

const QN: usize = 1 << 15;
static mut Q: [(*mut u8, usize, usize, usize); QN] = [(std::ptr::null_mut(), 0, 0, 0); QN];
static mut Q_HEAD: usize = 0;
static mut Q_BYTES: usize = 0;
static mut Q_TAIL: usize = 0;
static QLOCK: AtomicBool = AtomicBool::new(false);

fn qlock() {
    while QLOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
}
unsafe fn q_evict_one() {
    let (base, total, off, size) = Q[Q_TAIL % QN];
    Q_TAIL += 1;
    Q_BYTES -= total;
    let user = base.add(off);
    for k in 0..size {
        if *user.add(k) != 0xDD {
            MEM_FAULT.store(4, Relaxed);
            break;
        }
    }
    let al = (*(user.sub(HDR) as *const Hdr)).align;
    System.dealloc(base, Layout::from_size_align_unchecked(total, al.max(16)));
}
/// verifies and empties the quarantine
pub fn quarantine_flush() {
    qlock();
    unsafe {
        while Q_TAIL < Q_HEAD {
            q_evict_one();
        }
    }
    QLOCK.store(false, Release);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tid = SIM_TID.with(|c| c.get());
        if tid >= 0 {
            sched_tick(tid);
        }
        let off = HDR.max(l.align());
        let total = match l.size().checked_add(off) {
            Some(t) => t,
            None => return std::ptr::null_mut(),
        };
        if total > 1 << 33 {
            return std::ptr::null_mut();
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        *(user.sub(HDR) as *mut Hdr) = Hdr { magic: MAGIC_LIVE, tag: 0, size: l.size(), align: l.align(), pad: off };
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
        TOTAL_ALLOCS.fetch_add(1, Relaxed);
        if QUARANTINE.load(Relaxed) {
            std::ptr::write_bytes(user, 0xCD, l.size());
        }
        user
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let tid = SIM_TID.with(|c| c.get());
        if tid >= 0 {
            sched_tick(tid);
        }
        let h = p.sub(HDR) as *mut Hdr;
        if (*h).magic != MAGIC_LIVE {
            MEM_FAULT.store(if (*h).magic == MAGIC_FREE { 1 } else { 2 }, Relaxed);
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            MEM_FAULT.store(3, Relaxed);
            return;
        }
        let off = (*h).pad;
        (*h).magic = MAGIC_FREE;
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as u64, Relaxed);
        let base = p.sub(off);
        let total = l.size() + off;
        if QUARANTINE.load(Relaxed) {
            std::ptr::write_bytes(p, 0xDD, l.size());
            qlock();
            Q[Q_HEAD % QN] = (base, total, off, l.size());
            Q_HEAD += 1;
            Q_BYTES += total;
            while Q_HEAD - Q_TAIL >= QN || Q_BYTES > (64 << 20) {
                q_evict_one();
            }
            QLOCK.store(false, Release);
        } else {
            System.dealloc(base, Layout::from_size_align_unchecked(total, l.align().max(16)));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// deterministic thread scheduler: real threads, one runs at a time, the seed decides which
pub const MAXT: usize = 8;
#[derive(Clone, Copy, PartialEq)]
enum TState {
    Absent,
    Ready,
    Blocked(usize),
    Done,
}
struct Sched {
    n: usize,
    state: [TState; MAXT],
    current: i32,
    rng: u64,
    countdown: u64,
    mean: u64,
    base: u64,
    rare: u64,
    start: u64,
    switches: u64,
    blocks: u64,
    preempts: u64,
    trace: u64,
    /// step at which a stalled thread may run again
    until: [u64; MAXT],
    stalls: u64,
}
static mut SCHED: Sched = Sched {
    n: 0,
    state: [TState::Absent; MAXT],
    current: -1,
    rng: 0,
    countdown: u64::MAX,
    mean: 100,
    base: 100,
    rare: 0,
    start: 0,
    switches: 0,
    blocks: 0,
    preempts: 0,
    trace: 0,
    until: [0; MAXT],
    stalls: 0,
};
static GATES: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ALL_DONE: AtomicU32 = AtomicU32::new(0);

#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
extern "C" {
    fn __errno_location() -> *mut i32;
}

/// std reaches the kernel's futex and getrandom through libc's `syscall`; this definition takes its place.
/// x86_64 passes integer variadic arguments in the same registers as fixed ones.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        fill_random(a as *mut u8, b as usize);
        return b;
    }
    let tid = SIM_TID.with(|t| t.get());
    if n == SYS_FUTEX && tid >= 0 {
        let op = (b & 0x7f) as i32;
        match op {
            0 | 9 => {
                let cur = (*(a as *const AtomicU32)).load(SeqCst);
                if cur != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                let s = &mut *std::ptr::addr_of_mut!(SCHED);
                s.blocks += 1;
                s.state[tid as usize] = TState::Blocked(a as usize);
                s.trace = mix(s.trace ^ 0xB10C ^ tid as u64);
                if !switch_from(tid) {
                    _exit(EXIT_DEADLOCK);
                }
                return 0;
            }
            1 | 10 => {
                let s = &mut *std::ptr::addr_of_mut!(SCHED);
                let mut woken = 0;
                let start = (next_rng(s) % MAXT as u64) as usize;
                for k in 0..MAXT {
                    let i = (start + k) % MAXT;
                    if woken < c && s.state[i] == TState::Blocked(a as usize) {
                        s.state[i] = TState::Ready;
                        woken += 1;
                    }
                }
                let r = raw_syscall(n, a, b, c, d, e, f);
                return woken + if r > 0 { r } else { 0 };
            }
            _ => {}
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

fn next_rng(s: &mut Sched) -> u64 {
    s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
    mix(s.rng)
}
fn next_countdown(s: &mut Sched) -> u64 {
    let r = next_rng(s);
    // roughly geometric
    let u = ((r >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
    (-(u.ln()) * s.mean as f64) as u64 + 1
}
#[inline]
unsafe fn sched_tick(tid: i32) {
    let s = &mut *std::ptr::addr_of_mut!(SCHED);
    if s.countdown > 1 {
        s.countdown -= 1;
        return;
    }
    s.countdown = next_countdown(s);
    preempt(s, tid);
}
/// at an edge: code that ran rarely so far is pre-empted more often than hot loops
#[inline]
unsafe fn sched_edge(tid: i32, id: u32) {
    let s = &mut *std::ptr::addr_of_mut!(SCHED);
    if s.rare != 0 && THREAD_EDGES[id as usize] <= 200 {
        THREAD_EDGES[id as usize] += 1;
        if next_rng(s) % s.rare == 0 {
            preempt(s, tid);
        }
    }
    sched_tick(tid);
}
unsafe fn preempt(s: &mut Sched, tid: i32) {
    s.preempts += 1;
    // a stalled thread stays away for many steps, unless nobody else can run
    let x = next_rng(s);
    if x % 6 == 0 {
        s.until[tid as usize] = STEPS + (16 << ((x >> 8) % 17));
        s.stalls += 1;
    }
    // phases of dense and sparse pre-emption; late ones are sparse, which bounds the cost of a run
    if s.preempts % 64 == 0 {
        s.mean = match next_rng(s) % 4 {
            0 | 1 => s.base,
            2 => s.base * 8,
            _ => s.base * 60,
        };
    }
    if s.switches > 10000 && s.mean < 2000 {
        s.mean = 2000;
    }
    switch_from(tid);
}
/// an explicit yield point (API-call boundaries, user callbacks)
pub fn sched_yield_point() {
    let tid = SIM_TID.with(|c| c.get());
    if tid >= 0 {
        unsafe {
            let s = &mut *std::ptr::addr_of_mut!(SCHED);
            if next_rng(s) % 3 == 0 {
                switch_from(tid);
            }
        }
    }
}
unsafe fn gate_wait(i: usize) {
    loop {
        if GATES[i].swap(0, SeqCst) == 1 {
            return;
        }
        raw_syscall(SYS_FUTEX, GATES[i].as_ptr() as i64, 128, 0, 0, 0, 0);
    }
}
unsafe fn gate_open(i: usize) {
    GATES[i].store(1, SeqCst);
    raw_syscall(SYS_FUTEX, GATES[i].as_ptr() as i64, 129, 1, 0, 0, 0);
}
/// gives the token to another ready thread (or keeps it); false if no thread can run
unsafe fn switch_from(tid: i32) -> bool {
    let s = &mut *std::ptr::addr_of_mut!(SCHED);
    let mut ready = [0usize; MAXT];
    let mut m = 0;
    for i in 0..s.n {
        if s.state[i] == TState::Ready && s.until[i] <= STEPS {
            ready[m] = i;
            m += 1;
        }
    }
    if m == 0 {
        for i in 0..s.n {
            if s.state[i] == TState::Ready {
                ready[m] = i;
                m += 1;
            }
        }
    }
    if m == 0 {
        return false;
    }
    let next = ready[(next_rng(s) % m as u64) as usize];
    if next as i32 == tid {
        return true;
    }
    s.switches += 1;
    s.trace = mix(s.trace ^ ((next as u64) << 40) ^ (STEPS - s.start));
    s.current = next as i32;
    let done = s.state[tid as usize] == TState::Done;
    gate_open(next);
    if !done {
        gate_wait(tid as usize);
    }
    true
}
pub struct SchedStats {
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub trace: u64,
    pub stalls: u64,
}
/// Runs `jobs` as simulated threads. `mean` is the mean number of edge/allocator events between
/// pre-emptions; where an edge ran at most 200 times so far it is one in `rare`
/// (0: no difference). Returns each job's result (None: it panicked).
pub fn run_threads<T: Send + 'static>(
    seed: u64,
    mean: u64,
    rare: u64,
    jobs: Vec<(u64, Box<dyn FnOnce() -> T + Send>)>,
) -> (Vec<Option<T>>, SchedStats) {
    let n = jobs.len();
    assert!(n <= MAXT);
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(SCHED);
        s.n = n;
        for i in 0..MAXT {
            s.state[i] = if i < n { TState::Ready } else { TState::Absent };
            GATES[i].store(0, SeqCst);
        }
        s.rng = seed;
        s.base = mean.max(1);
        s.rare = rare;
        s.start = STEPS;
        THREAD_EDGES = [0; MAX_EDGES];
        s.mean = s.base;
        s.switches = 0;
        s.blocks = 0;
        s.preempts = 0;
        s.stalls = 0;
        s.until = [0; MAXT];
        s.trace = 0;
        s.current = -1;
        ALL_DONE.store(0, SeqCst);
    }
    let started = std::sync::Arc::new(AtomicU32::new(0));
    let mut handles = vec![];
    for (i, (hseed, job)) in jobs.into_iter().enumerate() {
        let started = started.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    set_hash_seed(hseed);
                    started.fetch_add(1, SeqCst);
                    unsafe { gate_wait(i) };
                    SIM_TID.with(|c| c.set(i as i32));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)).ok();
                    unsafe {
                        let s = &mut *std::ptr::addr_of_mut!(SCHED);
                        s.state[i] = TState::Done;
                        SIM_TID.with(|c| c.set(-1));
                        if !switch_from(i as i32) {
                            let all = (0..s.n).all(|k| s.state[k] == TState::Done);
                            if !all {
                                _exit(EXIT_DEADLOCK);
                            }
                        }
                    }
                    r
                })
                .expect("spawn"),
        );
    }
    while started.load(SeqCst) < n as u32 {
        std::thread::yield_now();
    }
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(SCHED);
        s.countdown = next_countdown(s);
        let first = (next_rng(s) % n as u64) as usize;
        s.current = first as i32;
        gate_open(first);
    }
    let mut out = vec![];
    for h in handles {
        out.push(h.join().unwrap_or(None));
    }
    unsafe {
        let s = &*std::ptr::addr_of!(SCHED);
        (out, SchedStats { switches: s.switches, preempts: s.preempts, blocks: s.blocks, trace: s.trace, stalls: s.stalls })
    }
}
