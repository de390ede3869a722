//! Exhaustive exploration of thread schedules. Every execution runs in a forked child under the
//! controlled scheduler of rt/mc.c; the worker processes enumerate schedule prefixes depth-first.

use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::time::Instant;
use vcore::engine::{hash_of, known_for, write_evidence, write_replay, Fail, Property, Res, Stats, Violation};

const MAXTRACE: usize = 200_000;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Entry {
    pub pick: u16,
    pub n: u16,
    pub kind: u8,
    pub used: u8,
}
#[repr(C)]
pub struct McResult {
    pub status: u32,
    pub ntrace: u32,
    pub points: u32,
    pub switches: u32,
    pub preempted: u32,
    pub threads: u32,
    pub tr: [Entry; MAXTRACE],
}
extern "C" {
    fn mc_start(r: *mut McResult, prefix: *const u16, n: u32, bound: u32, level: i32);
    fn mc_stop();
    fn mc_point();
    fn mc_quiet(on: i32);
}
/// a place where any other thread may get its turn
pub fn point() {
    unsafe { mc_point() }
}
/// no switches by preemption while `f` runs (setting the stage)
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe { mc_quiet(1) };
    let r = f();
    unsafe { mc_quiet(-1) };
    r
}

thread_local! {
    static OBS: RefCell<String> = const { RefCell::new(String::new()) };
}
/// what this execution showed (outcomes are told apart by it)
pub fn observe(s: impl std::fmt::Display) {
    OBS.with(|o| {
        let mut o = o.borrow_mut();
        if !o.is_empty() {
            o.push_str("; ");
        }
        o.push_str(&s.to_string());
    })
}

pub type Body = Rc<dyn Fn() -> Res>;
#[derive(Clone)]
pub struct Case {
    pub desc: String,
    pub body: Body,
}
pub fn case(desc: impl Into<String>, body: impl Fn() -> Res + 'static) -> Case {
    Case { desc: desc.into(), body: Rc::new(body) }
}
pub struct Scn {
    pub name: &'static str,
    pub what: String,
    /// 0: explicit points, wakeups and thread starts; 1: plus atomics and statics; 2: plus every
    /// other non-stack access and function entry
    pub level: i32,
    pub preempt: u32,
    pub cases: Vec<Case>,
}
pub struct Prop {
    pub id: &'static str,
    pub scns: Vec<Scn>,
    pub assumptions: Vec<String>,
}
impl Scn {
    pub fn bound(&self) -> String {
        format!(
            "{}; every schedule with at most {} preemptions at {}",
            self.what,
            self.preempt,
            match self.level {
                0 => "source reads, closure calls, thread starts and wakeups",
                1 => "source reads, closure calls, thread starts, wakeups, atomic operations and accesses to statics",
                _ => "source reads, closure calls, thread starts, wakeups, atomic operations, all accesses to shared memory and function entries in the library",
            }
        )
    }
}

// ---------------------------------------------------------------------------------------------
// shared memory

#[repr(C)]
struct Out {
    done: u32,
    failed: u32,
    internal: u32,
    digest: u64,
    siglen: u32,
    msglen: u32,
    obslen: u32,
    sig: [u8; 512],
    msg: [u8; 8192],
    obs: [u8; 4096],
}
#[repr(C)]
struct Slot {
    mc: McResult,
    out: Out,
}
const MAXSCN: usize = 64;
const MAXSCHED: usize = MAXTRACE;
#[repr(C)]
#[derive(Clone, Copy)]
struct SStat {
    executions: u64,
    states: u64,
    transitions: u64,
    max_choices: u64,
    distinct: u64,
    known: u64,
    incomplete: u64,
    diverged: u64,
    micros: u64,
    samplelen: u32,
    sample: [u8; 1200],
}
#[repr(C)]
struct Shared {
    next: std::sync::atomic::AtomicU64,
    stop: std::sync::atomic::AtomicU32,
    viol: std::sync::atomic::AtomicU32,
    vscn: u32,
    vcase: u32,
    vlen: u32,
    vmsglen: u32,
    vsiglen: u32,
    vinternal: u32,
    vpick: [u16; MAXSCHED],
    vsig: [u8; 512],
    vmsg: [u8; 8192],
}
fn put(dst: &mut [u8], s: &str) -> u32 {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}
fn get(src: &[u8], n: u32) -> String {
    String::from_utf8_lossy(&src[..n as usize]).into_owned()
}
unsafe fn shared<T>(n: usize) -> *mut T {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<T>() * n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut T
}

// ---------------------------------------------------------------------------------------------
// one execution

struct Run {
    picks: Vec<u16>,
    alts: Vec<u16>,
    points: u64,
    digest: u64,
    obs: String,
    fail: Option<Fail>,
    diverged: bool,
}

const LIMIT_S: u32 = 30;

fn execute(slot: *mut Slot, scn: &Scn, c: &Case, prefix: &[u16]) -> Run {
    unsafe {
        let s = &mut *slot;
        s.mc.status = 0;
        s.mc.ntrace = 0;
        s.mc.points = 0;
        s.out.done = 0;
        s.out.failed = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            // the limit is processor time, so that a stalling machine is not taken for a hang; a
            // process that waits outside of the scheduler's control is given more time
            let t = libc::itimerval {
                it_interval: std::mem::zeroed(),
                it_value: libc::timeval { tv_sec: LIMIT_S as i64, tv_usec: 0 },
            };
            libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
            libc::alarm(4 * LIMIT_S);
            child(slot, scn, c, prefix);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            assert!(*libc::__errno_location() == libc::EINTR, "waitpid");
        }
        let n = (s.mc.ntrace as usize).min(MAXTRACE);
        let mut r = Run {
            picks: s.mc.tr[..n].iter().map(|e| e.pick).collect(),
            alts: s.mc.tr[..n].iter().map(|e| e.n).collect(),
            points: s.mc.points as u64,
            digest: 0,
            obs: String::new(),
            fail: None,
            diverged: false,
        };
        let bad = |sig: &str, m: String| Some(Fail { sig: sig.into(), msg: m, internal: false });
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            r.fail = if sig == libc::SIGALRM || sig == libc::SIGPROF {
                bad("hang", format!("does not end within {LIMIT_S} s"))
            } else {
                bad("killed", format!("the process dies with signal {sig}"))
            };
            return r;
        }
        match s.mc.status {
            1 => {}
            2 => {
                r.fail = bad("deadlock", "deadlock: every thread waits for another".into());
                return r;
            }
            3 => {
                r.fail = bad("livelock", "livelock: the threads run on without end".into());
                return r;
            }
            4 => {
                r.diverged = true;
                return r;
            }
            5 => {
                r.fail = Some(Fail { sig: "-".into(), msg: "harness: trace too long".into(), internal: true });
                return r;
            }
            x => {
                r.fail = bad("exit", format!("the process ends prematurely (exit status {}, state {x})", libc::WEXITSTATUS(st)));
                return r;
            }
        }
        r.digest = s.out.digest;
        r.obs = get(&s.out.obs, s.out.obslen);
        if s.out.failed != 0 {
            r.fail = Some(Fail {
                sig: get(&s.out.sig, s.out.siglen),
                msg: get(&s.out.msg, s.out.msglen),
                internal: s.out.internal != 0,
            });
        }
        r
    }
}

unsafe fn child(slot: *mut Slot, scn: &Scn, c: &Case, prefix: &[u16]) -> ! {
    let s = &mut *slot;
    mc_start(&mut s.mc, prefix.as_ptr(), prefix.len() as u32, scn.preempt, scn.level);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.body)()));
    mc_stop();
    let f = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(p) => {
            let m = payload(&*p);
            Some(Fail { sig: "panic".into(), msg: format!("unexpected panic: {m} at {}", last_panic()), internal: false })
        }
    };
    let obs = OBS.with(|o| o.borrow().clone());
    s.out.digest = hash_of(&obs);
    s.out.obslen = put(&mut s.out.obs, &obs);
    if let Some(f) = f {
        s.out.failed = 1;
        s.out.internal = f.internal as u32;
        s.out.siglen = put(&mut s.out.sig, &f.sig);
        s.out.msglen = put(&mut s.out.msg, &f.msg);
    }
    s.out.done = 1;
    libc::_exit(0)
}

pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn last_panic() -> String {
    LAST.lock().map(|g| g.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------
// exploration of one case (one shard of it)

struct Worker {
    sh: *mut Shared,
    slot: *mut Slot,
    stats: *mut SStat,
    known: Vec<String>,
    deadline: Instant,
}

impl Worker {
    fn stopped(&self) -> bool {
        unsafe { (*self.sh).stop.load(std::sync::atomic::Ordering::SeqCst) != 0 }
    }
    fn violation(&self, scn: usize, case: usize, picks: &[u16], f: &Fail) {
        unsafe {
            let sh = &mut *self.sh;
            if sh.viol.swap(1, std::sync::atomic::Ordering::SeqCst) == 0 {
                sh.vscn = scn as u32;
                sh.vcase = case as u32;
                let n = picks.len().min(MAXSCHED);
                sh.vpick[..n].copy_from_slice(&picks[..n]);
                sh.vlen = n as u32;
                sh.vsiglen = put(&mut sh.vsig, &f.sig);
                sh.vmsglen = put(&mut sh.vmsg, &f.msg);
                sh.vinternal = f.internal as u32;
            }
            sh.stop.store(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    fn explore(&self, si: usize, scn: &Scn, ci: usize, shard: usize, shards: usize) {
        let t0 = Instant::now();
        let st = unsafe { &mut *self.stats.add(si) };
        let c = &scn.cases[ci];
        let mut seen: HashSet<u64> = HashSet::new();
        // (picks of the parent execution, position, alternative)
        let mut stack: Vec<(Rc<Vec<u16>>, u32, u16)> = vec![];
        let mut root = true;
        let mut prefix: Vec<u16> = vec![];
        loop {
            if self.stopped() {
                return;
            }
            if Instant::now() > self.deadline {
                st.incomplete += 1;
                break;
            }
            let count = !root || shard == 0;
            let mut x = execute(self.slot, scn, c, &prefix);
            for _ in 0..3 {
                // once more if the machine may be the reason
                if x.diverged || x.fail.as_ref().is_some_and(|f| f.sig == "hang" || f.msg.ends_with("signal 9")) {
                    x = execute(self.slot, scn, c, &prefix);
                }
            }
            if count {
                st.executions += 1;
                st.transitions += x.points;
                st.states += (x.picks.len().saturating_sub(prefix.len()) + 1) as u64;
                st.max_choices = st.max_choices.max(x.picks.len() as u64);
                if x.diverged {
                    st.diverged += 1;
                } else if x.fail.is_none() && seen.insert(x.digest) {
                    st.distinct += 1;
                    if st.samplelen == 0 {
                        let p: Vec<String> = x.picks.iter().rposition(|p| *p != 0).map(|i| &x.picks[..=i]).unwrap_or(&[]).iter().map(|p| p.to_string()).collect();
                        let t = format!("{} [schedule {}]: {}", c.desc, p.join(""), x.obs);
                        st.samplelen = put(&mut st.sample, &t);
                    }
                }
            }
            if let Some(f) = &x.fail {
                if self.known.iter().any(|k| *k == f.sig) {
                    st.known += 1;
                } else {
                    self.violation(si, ci, &x.picks, f);
                    return;
                }
            }
            if root && shard == 0 && !x.diverged {
                // the same schedule twice must be the same execution
                let y = execute(self.slot, scn, c, &x.picks);
                if y.diverged || y.picks != x.picks || y.digest != x.digest {
                    st.diverged += 1;
                }
            }
            if !x.diverged {
                let picks = Rc::new(x.picks);
                let mut k = 0;
                for i in prefix.len()..picks.len() {
                    for a in 1..x.alts[i] {
                        if !root || k % shards == shard {
                            stack.push((picks.clone(), i as u32, a));
                        }
                        k += 1;
                    }
                }
            }
            root = false;
            match stack.pop() {
                None => break,
                Some((p, i, a)) => {
                    prefix.clear();
                    prefix.extend_from_slice(&p[..i as usize]);
                    prefix.push(a);
                }
            }
        }
        st.micros += t0.elapsed().as_micros() as u64;
    }
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return vec![];
        }
        (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect()
    }
}

pub fn run(p: &Prop, tier: &str) -> ! {
    let t0 = Instant::now();
    let known = known_for(p.id);
    let only = std::env::var("VERIF_ONLY").ok();
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 6 * 3600 } else { 600 });
    let cp = cpus();
    let nw = cp.len().clamp(1, 32);
    let shards = nw;
    // work items: (scenario, case, shard)
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for (si, s) in p.scns.iter().enumerate() {
        if only.as_deref().is_some_and(|o| !s.name.contains(o)) {
            continue;
        }
        for ci in 0..s.cases.len() {
            for sh in 0..shards {
                items.push((si, ci, sh));
            }
        }
    }
    assert!(p.scns.len() <= MAXSCN);
    let sh: *mut Shared = unsafe { shared(1) };
    let stats: *mut SStat = unsafe { shared(MAXSCN * nw) };
    let slots: *mut Slot = unsafe { shared(nw) };
    let known_sigs: Vec<String> = known.sigs.iter().map(|x| x.0.clone()).collect();
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cp[w % cp.len().max(1)], &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            let wk = Worker {
                sh,
                slot: unsafe { slots.add(w) },
                stats: unsafe { stats.add(w * MAXSCN) },
                known: known_sigs.clone(),
                deadline: t0 + std::time::Duration::from_secs(cap),
            };
            loop {
                let i = unsafe { (*sh).next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } as usize;
                if i >= items.len() || wk.stopped() {
                    break;
                }
                let (si, ci, s) = items[i];
                wk.explore(si, &p.scns[si], ci, s, shards);
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut broken = false;
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        if st != 0 {
            println!("ERROR: a worker ended abnormally ({st})");
            broken = true;
        }
    }
    let mut out = vec![];
    let mut diverged = 0;
    let mut hits = 0;
    for (si, s) in p.scns.iter().enumerate() {
        let mut t = Stats { name: s.name.into(), bound: format!("{} ({} cases)", s.bound(), s.cases.len()), complete: true, ..Stats::default() };
        for w in 0..nw {
            let x = unsafe { &*stats.add(w * MAXSCN + si) };
            t.executions += x.executions;
            t.distinct += x.distinct;
            t.states += x.states;
            t.transitions += x.transitions;
            t.max_choices = t.max_choices.max(x.max_choices);
            t.known += x.known;
            t.complete &= x.incomplete == 0;
            t.wall_s += x.micros as f64 / 1e6 / nw as f64;
            diverged += x.diverged;
            hits += x.known;
            if x.samplelen > 0 && t.samples.len() < 2 {
                t.samples.push(get(&x.sample, x.samplelen));
            }
        }
        if only.is_some() && t.executions == 0 {
            continue;
        }
        println!(
            "{} {:<28} cases={} schedules={} points={} max-decisions={} {:.2}s{}",
            p.id,
            t.name,
            s.cases.len(),
            t.executions,
            t.transitions,
            t.max_choices,
            t.wall_s,
            if t.complete { "" } else { " INCOMPLETE (time limit)" }
        );
        out.push(t);
    }
    let pr = Property { id: p.id, scenarios: vec![], assumptions: p.assumptions.clone() };
    let wall = t0.elapsed().as_secs_f64();
    let extra = [("diverged".to_string(), diverged.to_string())];
    let shr = unsafe { &*sh };
    if shr.viol.load(std::sync::atomic::Ordering::SeqCst) != 0 {
        let scn = &p.scns[shr.vscn as usize];
        let c = &scn.cases[shr.vcase as usize];
        let mut picks = shr.vpick[..shr.vlen as usize].to_vec();
        let mut f = Fail { sig: get(&shr.vsig, shr.vsiglen), msg: get(&shr.vmsg, shr.vmsglen), internal: shr.vinternal != 0 };
        if f.internal {
            println!("ERROR in the harness: {} / {}: {}", scn.name, c.desc, f.msg);
            std::process::exit(3);
        }
        // confirm, then undo every deviation that is not needed
        let again = execute(slots, scn, c, &picks);
        if again.fail.is_none() {
            println!("note: the violation did not show again under the same schedule (behaviour outside the scheduler's control)");
        } else {
            f = again.fail.unwrap();
            let t1 = Instant::now();
            let mut i = picks.len();
            while i > 0 && t1.elapsed().as_secs() < 20 {
                i -= 1;
                if picks[i] == 0 {
                    continue;
                }
                let mut q = picks.clone();
                q.truncate(i);
                let r = execute(slots, scn, c, &q);
                if let Some(g) = r.fail {
                    if g.sig == f.sig && !g.internal {
                        picks = q;
                        f = g;
                    }
                }
            }
            while picks.last() == Some(&0) {
                picks.pop();
            }
        }
        let v = Violation {
            scenario: scn.name.into(),
            scn_idx: shr.vscn as usize,
            choices: std::iter::once(shr.vcase).chain(picks.iter().map(|x| *x as u32)).collect(),
            fail: f.clone(),
            log: vec![c.desc.clone(), "choices: index of the case, then the answer at every scheduling decision (0: go on)".into()],
        };
        let path = write_replay(p.id, tier, &v);
        write_evidence(&pr, tier, &out, wall, 1, &extra);
        println!("scenario {}, case {}: {}", scn.name, c.desc, f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
    if hits > 0 {
        for (s, d) in &known.sigs {
            println!("KNOWN-FINDING: property={} {} [{}]", p.id, d, s);
        }
    }
    write_evidence(&pr, tier, &out, wall, 0, &extra);
    if broken {
        std::process::exit(3);
    }
    if diverged > 0 {
        println!("ERROR: {diverged} executions did not repeat under the same schedule");
        std::process::exit(3);
    }
    println!("{}: held on everything explored ({:.1}s)", p.id, wall);
    std::process::exit(0)
}

pub fn replay(file: &str, props: &dyn Fn(bool) -> Vec<Prop>) -> ! {
    let t = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| -> String {
        let i = t.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
        t[i..].lines().next().unwrap().trim_end_matches(',').to_string()
    };
    let id = field("property").trim_matches('"').to_string();
    let rt = field("tier").trim_matches('"').to_string();
    let scn = field("scenario").trim_matches('"').to_string();
    let ch: Vec<u16> = field("choices").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let p = props(rt == "thorough").into_iter().find(|p| p.id == id).expect("property");
    let s = p.scns.iter().find(|s| s.name == scn).expect("scenario");
    let c = &s.cases[ch[0] as usize];
    let slot: *mut Slot = unsafe { shared(1) };
    println!("case {}", c.desc);
    let x = execute(slot, s, c, &ch[1..]);
    match x.fail {
        None => {
            println!("replay: no violation ({}{})", x.obs, if x.diverged { ", diverged" } else { "" });
            std::process::exit(0)
        }
        Some(f) => {
            println!("replay: {}", f.msg);
            println!("VIOLATION property={id} replay={file}");
            std::process::exit(1)
        }
    }
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST.try_lock() {
            *g = l;
        }
    }));
}
