//! Bounded exhaustive explorer.
//!
//! A *scenario* is a closure over a `Ctx`. Every source of nondeterminism of an execution
//! (the input, the operation sequence, the answer of the environment) is a call of
//! `ctx.choose(n)`. The explorer runs the scenario for every sequence of choices: it executes a
//! prefix, takes choice 0 afterwards, and schedules every alternative of the choices made after
//! the prefix (depth-first, distributed over the cores). Nothing is sampled.
//!
//! Each execution runs the real library code and compares it with a reference model; a panic of
//! the library, an execution that does not end, and unbounded memory growth are failures too.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
#[cfg(unix)]
use std::os::unix::process::ExitStatusExt;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// failures

#[derive(Debug, Clone)]
pub struct Fail {
    /// key used to match known findings; specific to what fails
    pub sig: String,
    pub msg: String,
    pub internal: bool,
}
pub type Res = Result<(), Fail>;
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail { sig: "-".into(), msg: s, internal: false }
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        s.to_string().into()
    }
}
pub fn fail<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::from(m.into()))
}
pub fn fail_sig<T>(sig: impl Into<String>, m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: m.into(), internal: false })
}
pub fn internal<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: "-".into(), msg: m.into(), internal: true })
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($x:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::engine::Fail::from(format!(
                "{}: got {} expected {}", format!($($x)*),
                $crate::engine::trunc(&format!("{:?}", a)), $crate::engine::trunc(&format!("{:?}", b)))));
        }
    }};
}
pub fn trunc(s: &str) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------------------------------------
// context

pub struct Ctx<'a> {
    prefix: &'a [u32],
    trace: Vec<(u32, u32)>,
    pub thorough: bool,
    verbose: bool,
    pub log: Vec<String>,
    steps: u64,
    states: Vec<u64>,
    obs: u64,
    diverged: bool,
    redundant: bool,
    sample: Option<String>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a 64 with a final mix: deterministic across runs (unlike RandomState)
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0x9E3779B97F4A7C15);
            x ^ (x >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

impl<'a> Ctx<'a> {
    fn new(prefix: &'a [u32], thorough: bool, verbose: bool) -> Ctx<'a> {
        Ctx {
            prefix,
            trace: vec![],
            thorough,
            verbose,
            log: vec![],
            steps: 0,
            states: vec![],
            obs: 0,
            diverged: false,
            redundant: false,
            sample: None,
        }
    }
    /// One n-way choice.
    pub fn choose(&mut self, label: &str, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice '{label}'");
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            self.diverged = true;
            panic!("harness: replay divergence at choice {i} '{label}': {c} >= {n}");
        }
        self.trace.push((c, n as u32));
        if self.verbose {
            self.log.push(format!("choose {label}: {c} of {n}"));
        }
        c as usize
    }
    pub fn pick<'b, T>(&mut self, label: &str, xs: &'b [T]) -> &'b T {
        let i = self.choose(label, xs.len());
        &xs[i]
    }
    pub fn flag(&mut self, label: &str) -> bool {
        self.choose(label, 2) == 1
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    /// count a transition of the system under test (an API call, an environment answer)
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.steps += n as u64;
    }
    /// record a visited state (deduplicated globally)
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(hash_of(t));
    }
    /// fold something into the outcome digest of this execution
    pub fn observe<T: Hash + ?Sized>(&mut self, t: &T) {
        self.obs = self.obs.rotate_left(5) ^ hash_of(t);
    }
    /// this choice sequence duplicates another one (still executed, not counted as distinct)
    pub fn redundant(&mut self) {
        self.redundant = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// scenarios and properties

pub type Body = Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

pub struct Scenario {
    pub name: &'static str,
    /// what is enumerated, in words
    pub bound: String,
    pub body: Body,
    /// wall limit of one execution
    pub hang_s: u64,
    /// run executions one at a time
    pub serial: bool,
    /// bytes of heap one execution may hold
    pub cap: i64,
}

pub fn scenario(
    name: &'static str,
    bound: impl Into<String>,
    body: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static,
) -> Scenario {
    Scenario { name, bound: bound.into(), body: Box::new(body), hang_s: 20, serial: false, cap: 2 << 30 }
}

impl Scenario {
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    pub fn cap(mut self, bytes: i64) -> Self {
        self.cap = bytes;
        self
    }
    pub fn hang(mut self, s: u64) -> Self {
        self.hang_s = s;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    pub assumptions: Vec<String>,
}

// ---------------------------------------------------------------------------------------------
// allocator with a per-thread cap

pub struct CapAlloc;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAPPED: Cell<bool> = const { Cell::new(false) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}
extern "C" {
    fn _exit(code: i32) -> !;
}
pub const EXIT_MEM: i32 = 44;
pub const EXIT_HANG: i32 = 45;

unsafe impl GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[inline]
fn account(d: i64) {
    let over = LIVE
        .try_with(|c| {
            let v = c.get() + d;
            c.set(v);
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            d > 0 && v > CAP.try_with(|c| c.get()).unwrap_or(i64::MAX)
        })
        .unwrap_or(false);
    if over && CAPPED.try_with(|c| c.get()).unwrap_or(false) {
        unsafe { _exit(EXIT_MEM) }
    }
}

/// The most memory this thread holds at any time during `f`, beyond what it holds before.
#[inline(never)]
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

// ---------------------------------------------------------------------------------------------
// running one execution

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// where there is no standard error stream
pub static STDERR: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {msg} at {loc}");
            if let Some(f) = STDERR.get() {
                f(&format!("panic: {msg} at {loc}"));
            }
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run a piece of library code; a panic becomes `Err(description)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let q = QUIET.with(|q| q.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|x| x.set(q));
    r.map_err(|_| {
        let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("panic '{m}' at {}", short_loc(&l))
    })
}

pub fn short_loc(l: &str) -> String {
    // drop line numbers and machine-specific prefixes
    let l = l.rsplit_once(':').map(|x| x.0).unwrap_or(l);
    match l.rfind("/src/") {
        Some(i) => {
            let pre = &l[..i];
            let krate = pre.rsplit('/').next().unwrap_or("");
            format!("{krate}{}", &l[i..])
        }
        None => l.to_string(),
    }
}

struct Exec {
    trace: Vec<(u32, u32)>,
    fail: Option<Fail>,
    steps: u64,
    states: Vec<u64>,
    obs: u64,
    redundant: bool,
    sample: Option<String>,
    log: Vec<String>,
}

fn run_one(s: &Scenario, prefix: &[u32], thorough: bool, verbose: bool) -> Exec {
    let mut ctx = Ctx::new(prefix, thorough, verbose);
    QUIET.with(|q| q.set(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    LIVE.with(|c| c.set(0));
    CAP.with(|c| c.set(s.cap));
    CAPPED.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (s.body)(&mut ctx)));
    CAPPED.with(|c| c.set(false));
    QUIET.with(|q| q.set(false));
    let fail = match r {
        Ok(Ok(())) => {
            if ctx.trace.len() < prefix.len() {
                Some(Fail {
                    sig: "-".into(),
                    msg: format!(
                        "harness: replay divergence, prefix of {} choices but only {} made",
                        prefix.len(),
                        ctx.trace.len()
                    ),
                    internal: true,
                })
            } else {
                None
            }
        }
        Ok(Err(f)) => Some(f),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let own = l.contains("/verif/") || !l.starts_with('/') || ctx.diverged;
            // relative locations are the harness' own crates (cargo passes relative paths for
            // workspace members only); the library and the registry are absolute.
            let internal = own && !l.contains("/repo/") && !l.contains("/rustc/");
            Some(Fail {
                sig: format!("panic@{}", short_loc(&l)),
                msg: format!("panic '{m}' at {l}"),
                internal,
            })
        }
    };
    Exec {
        trace: ctx.trace,
        fail,
        steps: ctx.steps,
        states: ctx.states,
        obs: ctx.obs,
        redundant: ctx.redundant,
        sample: ctx.sample,
        log: ctx.log,
    }
}

// ---------------------------------------------------------------------------------------------
// crash slots: where each worker writes the prefix it is about to run

const SLOT: usize = 4096;
pub struct Slots {
    base: *mut u8,
    n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
impl Slots {
    pub fn open(path: &str, n: usize) -> Slots {
        #[cfg(unix)]
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slots file");
        f.set_len((n * SLOT) as u64).expect("slots len");
        #[cfg(unix)]
        let base = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 1, f.as_raw_fd(), 0) };
        #[cfg(not(unix))]
        let base = -1isize as *mut u8;
        assert!(base as isize != -1, "mmap slots");
        Slots { base, n }
    }
    fn words(&self, i: usize) -> *mut u32 {
        unsafe { self.base.add(i * SLOT) as *mut u32 }
    }
    fn begin(&self, i: usize, scn: usize, prefix: &[u32]) {
        if i >= self.n {
            return;
        }
        let w = self.words(i);
        let n = prefix.len().min(SLOT / 4 - 4);
        unsafe {
            w.add(1).write_volatile(scn as u32);
            w.add(2).write_volatile(n as u32);
            for (k, v) in prefix[..n].iter().enumerate() {
                w.add(4 + k).write_volatile(*v);
            }
            w.write_volatile(1);
        }
    }
    fn end(&self, i: usize) {
        if i < self.n {
            unsafe { self.words(i).write_volatile(0) }
        }
    }
    pub fn read(path: &str) -> Vec<(usize, Vec<u32>)> {
        let b = std::fs::read(path).unwrap_or_default();
        let w: Vec<u32> =
            b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        w.chunks_exact(SLOT / 4)
            .filter(|s| s[0] == 1)
            .map(|s| (s[1] as usize, s[4..4 + s[2] as usize].to_vec()))
            .collect()
    }
}

// ---------------------------------------------------------------------------------------------
// exploration

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub name: String,
    pub bound: String,
    pub executions: u64,
    pub distinct: u64,
    pub redundant: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_choices: u64,
    pub known: u64,
    pub wall_s: f64,
    pub samples: Vec<String>,
    pub complete: bool,
}

pub struct Violation {
    pub scenario: String,
    pub scn_idx: usize,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub log: Vec<String>,
}

struct Job {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32, // alternatives lo..hi at position prefix.len(); lo == hi == 0: run the prefix itself
}

struct Shards(Vec<Mutex<HashSet<u64>>>);
impl Shards {
    fn new() -> Self {
        Shards((0..64).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, h: u64) -> bool {
        self.0[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

pub struct Known {
    pub sigs: Vec<(String, String)>, // (signature, description)
}
impl Known {
    pub fn find(&self, sig: &str) -> Option<&(String, String)> {
        self.sigs.iter().find(|(s, _)| s == sig)
    }
}

pub fn threads() -> usize {
    std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
}

#[repr(C)]
struct Timespec(i64, i64);
#[repr(C)]
struct Itimer([i64; 4]);
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn setitimer(which: i32, new: *const Itimer, old: *mut Itimer) -> i32;
}
/// the clock that measures the processor time of the calling thread
fn my_clock() -> u64 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c as u32 as u64
}
fn cpu_ms(clock: u64) -> u64 {
    let mut t = Timespec(0, 0);
    if clock == 0 || unsafe { clock_gettime(clock as u32 as i32, &mut t) } != 0 {
        return 0;
    }
    t.0 as u64 * 1000 + t.1 as u64 / 1_000_000
}
/// ends the process after so many seconds of processor time
const SIGPROF: i32 = 27;
fn cpu_limit(s: u64) {
    unsafe { setitimer(2, &Itimer([0, 0, s as i64, 0]), std::ptr::null_mut()) };
}

pub fn explore(
    idx: usize,
    s: &Scenario,
    thorough: bool,
    known: &Known,
    known_hits: &Mutex<std::collections::BTreeMap<String, u64>>,
    slots: Option<&Slots>,
) -> (Stats, Option<Violation>) {
    let t0 = Instant::now();
    let nthreads = if s.serial { 1 } else { threads() };
    let queue = Mutex::new((vec![Job { prefix: vec![], lo: 0, hi: 0 }], 0usize)); // (jobs, active)
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let idle = AtomicUsize::new(0);
    let states = Shards::new();
    let outcomes = Shards::new();
    let execs = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let redundant = AtomicU64::new(0);
    let maxc = AtomicU64::new(0);
    let knownc = AtomicU64::new(0);
    let samples = Mutex::new(Vec::<String>::new());
    let viol: Mutex<Option<(Vec<u32>, Fail)>> = Mutex::new(None);
    let started: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let clocks: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let ticket = AtomicU64::new(0);
    let done = AtomicBool::new(false);

    std::thread::scope(|sc| {
        // watchdog: the limit is processor time, so that a stalling machine is not taken for a hang
        sc.spawn(|| {
            // per worker: the execution it is in, its processor time at first sight of it
            let mut seen = vec![(0u64, 0u64); nthreads];
            let mut firsts = vec![0u64; nthreads];
            let mut now = 1; // milliseconds in which this thread could run
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(10));
                now += 10;
                for (i, st) in started.iter().enumerate() {
                    let b = st.load(SeqCst);
                    if b == 0 {
                        continue;
                    }
                    let cpu = cpu_ms(clocks[i].load(SeqCst));
                    if seen[i].0 != b {
                        seen[i] = (b, cpu);
                        firsts[i] = now;
                    }
                    if cpu > seen[i].1 + s.hang_s * 1000 || now > firsts[i] + 6 * s.hang_s * 1000 {
                        eprintln!("watchdog: an execution of {} exceeds {} s", s.name, s.hang_s);
                        unsafe { _exit(EXIT_HANG) }
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..nthreads {
            let (queue, cv, stop, idle, states, outcomes, execs, trans, redundant, maxc, knownc) =
                (&queue, &cv, &stop, &idle, &states, &outcomes, &execs, &trans, &redundant, &maxc, &knownc);
            let (samples, viol, started, clocks, ticket) = (&samples, &viol, &started, &clocks, &ticket);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local: Vec<Job> = vec![];
                        clocks[t].store(my_clock(), SeqCst);
                        loop {
                            let mut job = match local.pop() {
                                Some(j) => j,
                                None => {
                                    let mut q = queue.lock().unwrap();
                                    idle.fetch_add(1, SeqCst);
                                    loop {
                                        if stop.load(SeqCst) {
                                            cv.notify_all();
                                            return;
                                        }
                                        if let Some(j) = q.0.pop() {
                                            q.1 += 1;
                                            idle.fetch_sub(1, SeqCst);
                                            break j;
                                        }
                                        if q.1 == 0 {
                                            cv.notify_all();
                                            return;
                                        }
                                        q = cv.wait(q).unwrap();
                                    }
                                }
                            };
                            if stop.load(SeqCst) {
                                cv.notify_all();
                                return;
                            }
                            // share work
                            if idle.load(Relaxed) > 0 {
                                let mut q = queue.lock().unwrap();
                                if job.hi > job.lo + 1 {
                                    let mid = job.lo + (job.hi - job.lo) / 2;
                                    q.0.push(Job { prefix: job.prefix.clone(), lo: mid, hi: job.hi });
                                    job.hi = mid;
                                    cv.notify_one();
                                }
                                let k = local.len() / 2;
                                if k > 0 {
                                    q.0.extend(local.drain(..k));
                                    cv.notify_all();
                                }
                            }
                            let mut prefix = job.prefix.clone();
                            if job.hi > job.lo {
                                prefix.push(job.lo);
                                if job.lo + 1 < job.hi {
                                    local.push(Job { prefix: job.prefix, lo: job.lo + 1, hi: job.hi });
                                }
                            }
                            if let Some(sl) = slots {
                                sl.begin(t, idx, &prefix);
                            }
                            started[t].store(ticket.fetch_add(1, SeqCst) + 1, SeqCst);
                            let x = run_one(s, &prefix, thorough, false);
                            started[t].store(0, SeqCst);
                            if let Some(sl) = slots {
                                sl.end(t);
                            }
                            execs.fetch_add(1, Relaxed);
                            trans.fetch_add(x.steps, Relaxed);
                            maxc.fetch_max(x.trace.len() as u64, Relaxed);
                            if x.redundant {
                                redundant.fetch_add(1, Relaxed);
                            } else if x.obs != 0 {
                                outcomes.insert(x.obs);
                            }
                            for h in &x.states {
                                states.insert(*h);
                            }
                            if let Some(sm) = x.sample {
                                let mut v = samples.lock().unwrap();
                                if v.len() < 2 {
                                    v.push(sm);
                                }
                            }
                            if let Some(f) = x.fail {
                                match known.find(&f.sig) {
                                    Some(_) if !f.internal => {
                                        knownc.fetch_add(1, Relaxed);
                                        *known_hits.lock().unwrap().entry(f.sig.clone()).or_insert(0) += 1;
                                    }
                                    _ => {
                                        let mut v = viol.lock().unwrap();
                                        if v.is_none() {
                                            *v = Some((x.trace.iter().map(|c| c.0).collect(), f));
                                        }
                                        stop.store(true, SeqCst);
                                        cv.notify_all();
                                        return;
                                    }
                                }
                            }
                            for i in prefix.len()..x.trace.len() {
                                if x.trace[i].1 > 1 {
                                    local.push(Job {
                                        prefix: x.trace[..i].iter().map(|c| c.0).collect(),
                                        lo: 1,
                                        hi: x.trace[i].1,
                                    });
                                }
                            }
                            if local.is_empty() {
                                let mut q = queue.lock().unwrap();
                                q.1 -= 1;
                                if q.1 == 0 {
                                    cv.notify_all();
                                }
                            }
                        }
                    })
                    .expect("spawn worker"),
            );
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });

    let v = viol.into_inner().unwrap().map(|(choices, f)| {
        let (choices, f) = minimize(s, choices, f, thorough);
        let x = run_one(s, &choices, thorough, true);
        Violation { scenario: s.name.into(), scn_idx: idx, choices, fail: x.fail.unwrap_or(f), log: x.log }
    });
    let st = Stats {
        name: s.name.into(),
        bound: s.bound.clone(),
        executions: execs.load(SeqCst),
        distinct: outcomes.len(),
        redundant: redundant.load(SeqCst),
        transitions: trans.load(SeqCst),
        states: states.len(),
        max_choices: maxc.load(SeqCst),
        known: knownc.load(SeqCst),
        wall_s: t0.elapsed().as_secs_f64(),
        samples: samples.into_inner().unwrap(),
        complete: v.is_none(),
    };
    (st, v)
}

/// The same exploration without threads, files and signals, for interpreted programs: the share
/// `part` of `parts` of the executions. Calls `begin` with each choice sequence before it runs.
pub fn explore_share(
    s: &Scenario,
    thorough: bool,
    part: usize,
    parts: usize,
    mut begin: impl FnMut(&[u32]),
    mut end: impl FnMut(&[u64], u64, bool, u64, usize),
) -> Option<(Vec<u32>, Fail)> {
    let mut jobs: std::collections::VecDeque<Vec<u32>> = [vec![]].into();
    let mut share = false;
    let mut k = 0;
    loop {
        if !share && jobs.len() >= 8 * parts {
            // every process gets here with the same jobs
            jobs = jobs.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|j| j.1).collect();
            share = true;
        }
        let Some(p) = (if share { jobs.pop_back() } else { jobs.pop_front() }) else { return None };
        // until the jobs are shared out, all processes run everything to learn the choices there are
        k += 1;
        let mine = share || k % parts == part;
        begin(&p);
        let x = run_one(s, &p, thorough, false);
        // an execution that wants a file where there are none is not counted
        let none = x.fail.as_ref().is_some_and(|f| f.msg.contains(crate::files::NO_FILES));
        if let (Some(f), true, false) = (x.fail, mine, none) {
            return Some((x.trace.iter().map(|c| c.0).collect(), f));
        }
        if mine && !none {
            end(&x.states, x.obs, x.redundant, x.steps, x.trace.len());
        }
        for i in p.len()..x.trace.len() {
            for c in 1..x.trace[i].1 {
                let mut q: Vec<u32> = x.trace[..i].iter().map(|c| c.0).collect();
                q.push(c);
                jobs.push_back(q);
            }
        }
    }
}

/// Greedy reduction: lower single choices while the execution still fails.
fn minimize(s: &Scenario, mut c: Vec<u32>, mut f: Fail, thorough: bool) -> (Vec<u32>, Fail) {
    if f.internal {
        return (c, f);
    }
    let t0 = Instant::now();
    let mut budget = 600;
    let mut changed = true;
    while changed {
        changed = false;
        let mut i = 0;
        while i < c.len() {
            let cur = c[i];
            let cands: Vec<u32> = [0, cur / 2, cur.saturating_sub(1)].into_iter().filter(|x| *x < cur).collect();
            for cand in cands {
                if budget == 0 || t0.elapsed() > Duration::from_secs(8) {
                    return (c, f);
                }
                budget -= 1;
                for cut in [true, false] {
                    let mut d = c.clone();
                    d[i] = cand;
                    if cut {
                        d.truncate(i + 1);
                    }
                    let x = run_one(s, &d, thorough, false);
                    if let Some(g) = x.fail {
                        if !g.internal && g.sig == f.sig {
                            c = x.trace.iter().map(|t| t.0).collect();
                            f = g;
                            changed = true;
                            break;
                        }
                    }
                }
                if changed {
                    break;
                }
            }
            if changed {
                break;
            }
            i += 1;
        }
    }
    while c.last() == Some(&0) {
        c.pop();
    }
    (c, f)
}

// ---------------------------------------------------------------------------------------------
// small JSON writer

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jarr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// The build of the library this program holds (see the property about builds).
pub fn build_name() -> String {
    std::env::var("VERIF_BUILD").unwrap_or_else(|_| "default".into())
}

/// Statistics of earlier programs that decide the same property together with this one.
fn earlier_stats() -> Vec<Stats> {
    let Ok(f) = std::env::var("VERIF_STATS") else { return vec![] };
    std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(Stats::parse).collect()
}
fn keep_stats(stats: &[Stats]) {
    if let Ok(f) = std::env::var("VERIF_STATS") {
        std::fs::write(f, stats.iter().map(|s| s.line()).collect::<String>()).expect("write statistics");
    }
}
impl Stats {
    fn line(&self) -> String {
        let clean = |s: &str| s.replace(['\t', '\n'], " ");
        let mut l = format!("{}\t{}\t", clean(&self.name), clean(&self.bound));
        for x in [self.executions, self.distinct, self.redundant, self.transitions, self.states, self.max_choices, self.known] {
            l += &format!("{x}\t");
        }
        l += &format!("{}\t{}", self.wall_s, self.complete);
        for x in &self.samples {
            l += &format!("\t{}", clean(x));
        }
        l + "\n"
    }
    fn parse(l: &str) -> Option<Stats> {
        let mut f = l.split('\t');
        let (name, bound) = (f.next()?.to_string(), f.next()?.to_string());
        let mut n = || f.next()?.parse::<u64>().ok();
        let (executions, distinct, redundant, transitions, states, max_choices, known) = (n()?, n()?, n()?, n()?, n()?, n()?, n()?);
        let (wall_s, complete) = (f.next()?.parse().ok()?, f.next()? == "true");
        let samples = f.map(|x| x.to_string()).collect();
        Some(Stats { name, bound, executions, distinct, redundant, transitions, states, max_choices, known, wall_s, samples, complete })
    }
}

pub fn write_replay(prop: &str, tier: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let name: String = v.scenario.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = format!("{dir}/{prop}-{name}-{:016x}.json", hash_of(&v.choices));
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"build\": {},\n \"scenario\": {},\n \"choices\": {:?},\n \"signature\": {},\n \"message\": {},\n \"log\": [\n  {}\n ]\n}}\n",
        jstr(prop),
        jstr(tier),
        jstr(&build_name()),
        jstr(&v.scenario),
        v.choices,
        jstr(&v.fail.sig),
        jstr(&v.fail.msg),
        v.log.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = std::fs::write(&path, body);
    path
}

pub fn known_for(prop: &str) -> Known {
    // known_findings.txt: lines "finding: property=<id> sig=<signature> <what fails>"
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut sigs = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next(), it.next(), it.next());
            if let (Some(a), Some(b), Some(c)) = (a, b, c) {
                if a == format!("property={prop}") {
                    if let Some(s) = b.strip_prefix("sig=") {
                        sigs.push((s.to_string(), c.to_string()));
                    }
                }
            }
        }
    }
    Known { sigs }
}

pub fn write_evidence(
    prop: &Property,
    tier: &str,
    stats: &[Stats],
    wall: f64,
    violations: usize,
    extra: &[(String, String)],
) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sum = |f: fn(&Stats) -> u64| stats.iter().map(f).sum::<u64>();
    let mut samples: Vec<String> = vec![];
    for s in stats {
        for x in &s.samples {
            samples.push(jstr(&format!("{}: {}", s.name, trunc(x))));
        }
    }
    let scn: Vec<String> = stats
        .iter()
        .map(|s| {
            format!(
                "{{\"scenario\":{},\"bound\":{},\"executions\":{},\"distinct_outcomes\":{},\"redundant\":{},\"states\":{},\"transitions\":{},\"max_choices\":{},\"known_finding_hits\":{},\"complete\":{},\"wall_s\":{:.3}}}",
                jstr(&s.name), jstr(&s.bound), s.executions, s.distinct, s.redundant, s.states, s.transitions, s.max_choices, s.known, s.complete, s.wall_s
            )
        })
        .collect();
    let ex = extra.iter().map(|(k, v)| format!(",\n  {}: {}", jstr(k), v)).collect::<String>();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"rule\": {},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"scenarios\": {},\n  \"samples\": {}{}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(prop.id),
        jstr(tier),
        seed,
        jstr("Every choice sequence of every scenario is executed on the real library (see scenarios[].bound). An execution is distinct if the digest of everything it observed differs from all others; states are the distinct recorded states of the reference model together with the input (where a scenario records none: its distinct outcomes); transitions are API calls and environment answers; every execution replays the model's prediction against the implementation, executions duplicating another are not counted."),
        stats.iter().map(|s| if s.states > 0 { s.states } else { s.distinct }).sum::<u64>(),
        sum(|s| s.transitions),
        sum(|s| s.executions) - sum(|s| s.redundant),
        stats.iter().all(|s| s.complete),
        jarr(&scn),
        jarr(&samples),
        ex,
        jarr(&prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>()),
        wall,
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", prop.id), body).expect("write evidence");
}

// ---------------------------------------------------------------------------------------------
// command line driver (supervisor + child)

/// `bin run ID` (supervisor), `bin child ID SLOTS`, `bin one ID IDX c,c,c`, `bin replay FILE`, `bin list`
pub fn driver(props: impl Fn(bool) -> Vec<Property>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let get = |id: &str| -> Property {
        match props(thorough).into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props(thorough) {
                for s in &p.scenarios {
                    println!("{} {}: {}", p.id, s.name, s.bound);
                }
            }
            std::process::exit(0)
        }
        Some("run") => supervise(&args[2], tier, &get),
        Some("share") => share(&get(&args[2]), &args[3..]),
        Some("machines") => machines(&get(&args[2]), tier, &args[3..]),
        Some("child") => child(&get(&args[2]), tier, &args[3]),
        Some("one") => {
            let p = get(&args[2]);
            let s = &p.scenarios[args[3].parse::<usize>().unwrap()];
            let c: Vec<u32> = args
                .get(4)
                .map(|x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect())
                .unwrap_or_default();
            let verbose = std::env::var("VERIF_VERBOSE").is_ok();
            cpu_limit(s.hang_s);
            let x = run_one(s, &c, thorough, verbose);
            for l in x.log {
                println!("  {l}");
            }
            match x.fail {
                None => {
                    println!("execution passes");
                    std::process::exit(0)
                }
                Some(f) => {
                    println!("execution fails (signature {}): {}", f.sig, f.msg);
                    std::process::exit(1)
                }
            }
        }
        Some("replay") => {
            // minimal JSON reading: our own files
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let field = |k: &str| -> String {
                let i = t.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
                t[i..].lines().next().unwrap().trim_end_matches(',').to_string()
            };
            let id = field("property").trim_matches('"').to_string();
            let rt = field("tier").trim_matches('"').to_string();
            let scn = field("scenario").trim_matches('"').to_string();
            let ch = field("choices");
            let c: Vec<u32> =
                ch.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
            let p = props(rt == "thorough").into_iter().find(|p| p.id == id).expect("property");
            let s = p.scenarios.iter().find(|s| s.name == scn).expect("scenario");
            let x = run_one(s, &c, rt == "thorough", true);
            for l in x.log {
                println!("  {l}");
            }
            match x.fail {
                None => {
                    println!("replay: no violation");
                    std::process::exit(0)
                }
                Some(f) => {
                    println!("replay: {}", f.msg);
                    println!("VIOLATION property={id} replay={}", args[2]);
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            std::process::exit(2)
        }
    }
}

/// Explores a share of the executions of every scenario; tells each choice sequence before it runs.
pub fn share_report(p: &Property, thorough: bool, part: usize, parts: usize, mut at: impl FnMut(&str)) -> String {
    use std::fmt::Write;
    let mut out = String::new();
    let mut count = 0u64;
    let only = std::env::var("VERIF_ONLY").ok();
    for (i, s) in p.scenarios.iter().enumerate() {
        if only.as_deref().is_some_and(|o| !s.name.contains(o)) {
            continue;
        }
        let (mut n, mut red, mut steps, mut maxc) = (0u64, 0u64, 0u64, 0);
        let (mut outcomes, mut states) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        let v = explore_share(
            s,
            thorough,
            part,
            parts,
            |p| {
                count += 1;
                let l = p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                at(&format!("{i} {l} {count} {}\n", s.name));
            },
            |st, obs, r, k, len| {
                n += 1;
                steps += k;
                maxc = len.max(maxc);
                if r {
                    red += 1;
                } else if obs != 0 {
                    outcomes.insert(obs);
                }
                states.extend(st.iter().copied());
            },
        );
        let _ = writeln!(out, "name {i} {}", s.name);
        let _ = writeln!(out, "bound {i} {}", s.bound);
        let _ = writeln!(out, "n {i} {n} {red} {steps} {maxc}");
        for (k, set) in [("o", outcomes), ("s", states)] {
            for h in set {
                let _ = writeln!(out, "{k} {i} {h}");
            }
        }
        if let Some((c, f)) = v {
            let l = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let kind = if f.internal { "harness" } else { "fail" };
            let _ = writeln!(out, "{kind} {i} {l} {} {}", f.sig.replace([' ', '\n'], "_"), f.msg.replace('\n', " "));
            break;
        }
    }
    out + "done\n"
}

/// `share ID OUT PART PARTS`: run by the interpreter of another machine
fn share(p: &Property, args: &[String]) -> ! {
    use std::io::{Seek, Write};
    let mut at = std::fs::File::create(format!("{}.at", args[0])).expect("file");
    let out = share_report(p, false, args[1].parse().unwrap(), args[2].parse().unwrap(), |l| {
        let _ = at.rewind();
        let _ = at.write_all(l.as_bytes());
    });
    std::fs::write(&args[0], out).expect("write");
    std::process::exit(0)
}

/// `machines ID PROGRAM TARGET ..`: explores every scenario on interpreted machines; PROGRAM is run
/// with the target and the arguments of `share`.
fn machines(p: &Property, tier: &str, args: &[String]) -> ! {
    use std::collections::{BTreeMap, HashSet};
    let t0 = Instant::now();
    let mut stats = earlier_stats();
    let n = threads();
    let dir = format!("{}/machines-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut worst = 0;
    for target in &args[1..] {
        let t1 = Instant::now();
        let short = target.split('-').next().unwrap();
        std::env::set_var("VERIF_BUILD", short);
        let mut kids = vec![];
        for k in 0..n {
            let out = format!("{dir}/{short}.{k}");
            let log = std::fs::File::create(format!("{out}.log")).expect("log");
            let ch = std::process::Command::new(&args[0])
                .args([target, "share", p.id, &out, &k.to_string(), &n.to_string()])
                .stdout(std::process::Stdio::null())
                .stderr(log)
                .spawn()
                .expect("interpreter");
            kids.push((ch, out));
        }
        let mut names: BTreeMap<usize, (String, String)> = BTreeMap::new();
        let mut sets: BTreeMap<usize, (HashSet<u64>, HashSet<u64>, [u64; 4])> = BTreeMap::new();
        let mut bad: Option<(usize, Vec<u32>, Fail)> = None;
        for (mut ch, out) in kids {
            // an execution that takes minutes does not end
            let mut last = (String::new(), Instant::now());
            let (st, hung) = loop {
                if let Some(st) = ch.try_wait().expect("wait") {
                    break (st, false);
                }
                std::thread::sleep(Duration::from_millis(50));
                let now = std::fs::read_to_string(format!("{out}.at")).unwrap_or_default();
                if now.lines().next() != last.0.lines().next() {
                    last = (now, Instant::now());
                } else if !now.is_empty() && last.1.elapsed() > Duration::from_secs(200) {
                    let _ = ch.kill();
                    break (ch.wait().expect("wait"), true);
                }
            };
            let t = std::fs::read_to_string(&out).unwrap_or_default();
            let list = |l: &str| l.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<u32>>();
            for l in t.lines() {
                let f: Vec<&str> = l.splitn(5, ' ').collect();
                let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                let e = sets.entry(num(1) as usize).or_default();
                let rest = || l.splitn(3, ' ').nth(2).unwrap_or("").to_string();
                match f[0] {
                    "name" => names.entry(num(1) as usize).or_default().0 = rest(),
                    "bound" => names.entry(num(1) as usize).or_default().1 = rest(),
                    "n" => {
                        let g: Vec<u64> = l.split(' ').skip(2).filter_map(|x| x.parse().ok()).collect();
                        for i in 0..3 {
                            e.2[i] += g[i];
                        }
                        e.2[3] = e.2[3].max(g[3]);
                    }
                    "o" => {
                        e.0.insert(num(2));
                    }
                    "s" => {
                        e.1.insert(num(2));
                    }
                    "fail" | "harness" => {
                        let fl = Fail { sig: f[3].into(), msg: f[4].into(), internal: f[0] == "harness" };
                        if bad.as_ref().is_none_or(|b| b.2.internal) {
                            bad = Some((num(1) as usize, list(f[2]), fl));
                        }
                    }
                    _ => {}
                }
            }
            if !t.ends_with("done\n") {
                // the interpreter stopped the program: undefined behaviour, an abort, ..
                let at = std::fs::read_to_string(format!("{out}.at")).unwrap_or_default();
                let log = std::fs::read_to_string(format!("{out}.log")).unwrap_or_default();
                let why = log.lines().find(|l| l.starts_with("error")).unwrap_or("no error message").to_string();
                let l = at.lines().next().unwrap_or("");
                let why = if hung { "does not end".to_string() } else { why };
                let internal = !hung && !why.contains("Undefined Behavior") && !why.contains("abnormal termination");
                let (i, c) = l.split_once(' ').unwrap_or(("0", ""));
                let (c, rest) = c.split_once(' ').unwrap_or((c, ""));
                let nm = rest.split_once(' ').map_or("", |r| r.1);
                names.entry(i.parse().unwrap_or(0)).or_default().0 = nm.to_string();
                let fl = Fail { sig: "abnormal".into(), msg: format!("{why} ({st})"), internal };
                if internal {
                    eprint!("{log}");
                }
                if bad.as_ref().is_none_or(|b| b.2.internal) {
                    bad = Some((i.parse().unwrap_or(0), list(c), fl));
                }
            }
        }
        for (i, (o, s, c)) in sets {
            let Some(sc) = names.get(&i) else { continue };
            if c[0] == 0 {
                continue;
            }
            let st = Stats {
                name: format!("[{short}] {}", sc.0),
                bound: sc.1.clone(),
                executions: c[0],
                redundant: c[1],
                transitions: c[2],
                max_choices: c[3],
                distinct: o.len() as u64,
                states: s.len() as u64,
                complete: bad.is_none(),
                ..Stats::default()
            };
            println!(
                "{} {:<28} executions={} distinct={} states={} transitions={}",
                p.id, st.name, st.executions, st.distinct, st.states, st.transitions
            );
            stats.push(st);
        }
        println!("{} {short}: {:.1} s", p.id, t1.elapsed().as_secs_f64());
        let name = |i: usize| names.get(&i).map_or(format!("scenario {i}"), |n| n.0.clone());
        if let Some((i, c, f)) = bad {
            if f.internal {
                println!("ERROR in the harness: {} {:?}: {}", name(i), c, f.msg);
                worst = 3;
                break;
            }
            let v = Violation { scenario: name(i), scn_idx: i, choices: c, fail: f, log: vec![] };
            let path = write_replay(p.id, tier, &v);
            write_evidence(p, tier, &stats, t0.elapsed().as_secs_f64(), 1, &[]);
            println!("scenario [{short}] {}: {}", v.scenario, v.fail.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            worst = 1;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if worst == 0 {
        keep_stats(&stats);
        write_evidence(p, tier, &stats, stats.iter().map(|s| s.wall_s).sum::<f64>() + t0.elapsed().as_secs_f64(), 0, &[]);
        println!("{}: held on everything explored ({:.1}s)", p.id, t0.elapsed().as_secs_f64());
    }
    std::process::exit(worst)
}

fn child(p: &Property, tier: &str, slots: &str) -> ! {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let known = known_for(p.id);
    let hits = Mutex::new(std::collections::BTreeMap::new());
    let sl = Slots::open(slots, threads());
    let mut stats = earlier_stats();
    let only = std::env::var("VERIF_ONLY").ok();
    for (i, s) in p.scenarios.iter().enumerate() {
        if only.as_deref().is_some_and(|o| !s.name.contains(o)) {
            continue;
        }
        let (mut st, v) = explore(i, s, thorough, &known, &hits, Some(&sl));
        if build_name() != "default" {
            st.name = format!("[{}] {}", build_name(), st.name);
        }
        println!(
            "{} {:<28} executions={} distinct={} states={} transitions={} known={} {:.2}s",
            p.id, st.name, st.executions, st.distinct, st.states, st.transitions, st.known, st.wall_s
        );
        stats.push(st);
        if let Some(v) = v {
            if v.fail.internal {
                println!("ERROR in the harness: scenario {} choices {:?}: {}", v.scenario, v.choices, v.fail.msg);
                std::process::exit(3);
            }
            let path = write_replay(p.id, tier, &v);
            write_evidence(p, tier, &stats, t0.elapsed().as_secs_f64(), 1, &[]);
            println!("scenario {}: {}", v.scenario, v.fail.msg);
            for l in v.log.iter().take(40) {
                println!("  {}", trunc(l));
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            std::process::exit(1);
        }
    }
    let hits = hits.into_inner().unwrap();
    let mut kf = vec![];
    for (sig, n) in &hits {
        if let Some((_, d)) = known.find(sig) {
            println!("KNOWN-FINDING: property={} {} ({} executions)", p.id, d, n);
            kf.push(jstr(&format!("{sig}: {n} executions")));
        }
    }
    keep_stats(&stats);
    write_evidence(p, tier, &stats, stats.iter().map(|s| s.wall_s).sum::<f64>().max(t0.elapsed().as_secs_f64()), 0, &[("known_findings_hit".into(), jarr(&kf))]);
    println!("{}: held on everything explored ({:.1}s)", p.id, t0.elapsed().as_secs_f64());
    std::process::exit(0)
}

fn signal_of(s: &std::process::ExitStatus) -> Option<i32> {
    #[cfg(unix)]
    return s.signal();
    #[cfg(not(unix))]
    return s.code();
}

fn supervise(id: &str, tier: &str, get: &dyn Fn(&str) -> Property) -> ! {
    let exe = std::env::current_exe().expect("exe");
    let slots = format!("{}/slots-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let _ = std::fs::remove_file(&slots);
    for _ in 0..3 {
        supervise_once(id, tier, &exe, &slots, get);
    }
    println!("{id}: not reproducible: treated as an error of the check");
    std::process::exit(4)
}

/// ends the process unless the explorer ended abnormally for a reason that cannot be reproduced
fn supervise_once(id: &str, tier: &str, exe: &std::path::Path, slots: &str, get: &dyn Fn(&str) -> Property) {
    let st = std::process::Command::new(exe).args(["child", id, slots]).status().expect("spawn child");
    let pending = Slots::read(slots);
    let _ = std::fs::remove_file(slots);
    match st.code() {
        Some(c @ (0 | 1 | 2 | 3)) => std::process::exit(c),
        _ => {}
    }
    // The child died (signal), hung or ran out of memory: find the execution that does it.
    println!("{id}: explorer ended abnormally ({st:?}); confirming {} candidate executions", pending.len());
    let p = get(id);
    for (scn, pre) in pending {
        let list = pre.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut ch = std::process::Command::new(exe)
            .args(["one", id, &scn.to_string(), &list])
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("spawn one");
        let t0 = Instant::now();
        let limit = Duration::from_secs(p.scenarios[scn].hang_s);
        let what = loop {
            match ch.try_wait().expect("wait") {
                Some(s) => {
                    break match s.code() {
                        Some(0 | 1) => None,
                        Some(EXIT_MEM) => Some("unbounded memory growth".to_string()),
                        None if signal_of(&s) == Some(SIGPROF) => Some(format!("does not end within {} s", limit.as_secs())),
                        // ended from outside (memory of the machine)
                        None if signal_of(&s) == Some(9) => None,
                        _ => Some(format!("the process dies ({s})")),
                    }
                }
                None if t0.elapsed() > 6 * limit => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some(format!("does not end within {} s", limit.as_secs()));
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        if let Some(w) = what {
            let v = Violation {
                scenario: p.scenarios[scn].name.into(),
                scn_idx: scn,
                choices: pre,
                fail: Fail { sig: "abnormal".into(), msg: w.clone(), internal: false },
                log: vec![],
            };
            let path = write_replay(id, tier, &v);
            let s = Stats { name: v.scenario.clone(), executions: 1, ..Stats::default() };
            write_evidence(&p, tier, &[s], 0.0, 1, &[]);
            println!("scenario {}: {w}", v.scenario);
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
    }
    println!("{id}: not reproducible");
}
