//! Monitor runtime: case scheduling, guarded library calls, counters, watchdog,
//! crash/hang attribution, evidence and verdict.
//!
//! Verdicts are three-valued:
//!   exit 0  held on everything observed (KNOWN-FINDING lines for listed deviations)
//!   exit 1  VIOLATION line; the failing case is replayable from (property, seed, case)
//!   exit 2  inconclusive (harness error, unconfirmed crash, nothing observed, ...)

use crate::rng::Rng;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocator
/// Counts live bytes, so that a runaway library call (an endless loop that pushes)
/// is seen as a bounded-resource violation instead of exhausting the machine.
pub struct CountingAlloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! {
    // bytes allocated minus bytes freed by this thread, and the largest value seen
    static MINE: Cell<isize> = const { Cell::new(0) };
    static MINE_PEAK: Cell<isize> = const { Cell::new(0) };
}
#[inline]
fn mine(d: isize) {
    let _ = MINE.try_with(|m| {
        let v = m.get() + d;
        m.set(v);
        if d > 0 {
            let _ = MINE_PEAK.try_with(|p| if v > p.get() { p.set(v) });
        }
    });
}

#[cfg(not(feature = "plain_alloc"))]
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let v = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        if v > LIVE_LIMIT.load(Relaxed) {
            trip(REASON_MEM);
        }
        mine(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        mine(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let v = LIVE.fetch_add(n, Relaxed) + n;
        LIVE.fetch_sub(l.size(), Relaxed);
        mine(n as isize - l.size() as isize);
        if v > LIVE_LIMIT.load(Relaxed) {
            trip(REASON_MEM);
        }
        System.realloc(p, l, n)
    }
}
#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static A: CountingAlloc = CountingAlloc;

// ---------------------------------------------------------------- slots
// Shared-memory record of what every monitor thread is executing right now; the
// supervisor reads it if the worker dies.
const NSLOT: usize = 64;
const REASON_MEM: u64 = 1;
const REASON_CPU: u64 = 2;

#[repr(C)]
struct Slot {
    active: AtomicU64, // 0 idle, 1 inside a library call, 2 inside a call that runs on other threads
    in_case: AtomicU64,
    case: AtomicU64,
    cpu0: AtomicU64,
    clock: AtomicU64,
    tripped: AtomicU64,
    name: [AtomicU64; 4],
}
static SLOTS: AtomicUsize = AtomicUsize::new(0);

fn slot(i: usize) -> &'static Slot {
    unsafe { &*((SLOTS.load(Relaxed) as *const Slot).add(i)) }
}

thread_local! {
    static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    let len = std::mem::size_of::<Slot>() * NSLOT;
    f.set_len(len as u64).expect("slot len");
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    SLOTS.store(p as usize, SeqCst);
}

fn trip(reason: u64) -> ! {
    LIVE_LIMIT.store(usize::MAX, SeqCst);
    let me = MYSLOT.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if SLOTS.load(Relaxed) != 0 {
        if me != usize::MAX {
            slot(me).tripped.store(reason, SeqCst);
        } else {
            for i in 0..NSLOT {
                if slot(i).active.load(Relaxed) != 0 {
                    slot(i).tripped.store(reason, SeqCst);
                }
            }
        }
    }
    unsafe { libc::_exit(97) }
}

fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if libc::clock_gettime(id, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn register_thread(i: usize) {
    MYSLOT.with(|m| m.set(i));
    let mut id: libc::clockid_t = 0;
    unsafe {
        let _ = libc::pthread_getcpuclockid(libc::pthread_self(), &mut id);
    }
    slot(i).clock.store(id as u32 as u64, SeqCst);
}

fn watchdog(limit_s: u64, stop: &AtomicBool) {
    while !stop.load(Relaxed) {
        std::thread::sleep(std::time::Duration::from_millis(250));
        for i in 0..NSLOT {
            let s = slot(i);
            let a = s.active.load(SeqCst);
            if a == 0 {
                continue;
            }
            let case = s.case.load(SeqCst);
            let c0 = s.cpu0.load(SeqCst);
            let now = if a == 1 {
                clock_ns(s.clock.load(SeqCst) as u32 as libc::clockid_t)
            } else {
                clock_ns(libc::CLOCK_PROCESS_CPUTIME_ID)
            };
            let lim = limit_s * 1_000_000_000 * if a == 1 { 1 } else { 4 };
            if now > c0 && now - c0 > lim && s.active.load(SeqCst) == a && s.case.load(SeqCst) == case && s.cpu0.load(SeqCst) == c0 {
                s.tripped.store(REASON_CPU, SeqCst);
                unsafe { libc::_exit(97) }
            }
        }
    }
}

// ---------------------------------------------------------------- observations
#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub case: u64,
    pub input: String,
}

#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub hashes: Vec<u64>,
    pub viol: Vec<Viol>,
    pub want_desc: bool,
    pub desc: String,
    pub harness_error: Option<String>,
    pub hist: BTreeMap<&'static str, BTreeSet<u64>>,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

impl Obs {
    /// count a class of observed events
    pub fn n(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.counts.entry(k).or_insert(0) += v;
    }
    /// record a distinct value of some observed quantity (kept small: capped)
    pub fn seen(&mut self, k: &'static str, v: u64) {
        let s = self.hist.entry(k).or_default();
        if s.len() < 100_000 {
            let _ = s.insert(v);
        }
    }
    /// this case was non-trivial by the property's rule; `h` identifies it
    pub fn nontrivial(&mut self, h: u64) {
        self.hashes.push(h);
    }
    pub fn input(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 8 {
            self.viol.push(Viol { sig: sig.into(), detail: detail.into(), case: 0, input: String::new() });
        }
    }
    pub fn failed(&self) -> bool {
        !self.viol.is_empty()
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.n("oracle_checks");
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    fn call_mode<R>(&mut self, name: &'static str, mode: u64, f: impl FnOnce() -> R) -> Result<R, String> {
        let me = MYSLOT.with(|m| m.get());
        if me != usize::MAX {
            let s = slot(me);
            let b = name.as_bytes();
            for k in 0..4 {
                let mut w = [0u8; 8];
                for (j, c) in w.iter_mut().enumerate() {
                    *c = *b.get(k * 8 + j).unwrap_or(&0);
                }
                s.name[k].store(u64::from_le_bytes(w), Relaxed);
            }
            let now = if mode == 1 { clock_ns(libc::CLOCK_THREAD_CPUTIME_ID) } else { clock_ns(libc::CLOCK_PROCESS_CPUTIME_ID) };
            s.cpu0.store(now, SeqCst);
            s.active.store(mode, SeqCst);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        if me != usize::MAX {
            slot(me).active.store(0, SeqCst);
        }
        self.n("library_calls");
        match r {
            Ok(v) => Ok(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let loc = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
                Err(format!("{m} [{loc}]"))
            }
        }
    }
    /// run library code; a panic is a violation of the property
    pub fn call<R>(&mut self, name: &'static str, f: impl FnOnce() -> R) -> Option<R> {
        match self.call_mode(name, 1, f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("panic:{name}"), format!("{name} panicked: {m}"));
                None
            }
        }
    }
    /// as `call` for code that fans out to a thread pool
    pub fn call_par<R>(&mut self, name: &'static str, f: impl FnOnce() -> R) -> Option<R> {
        match self.call_mode(name, 2, f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("panic:{name}"), format!("{name} panicked: {m}"));
                None
            }
        }
    }
    /// as `call`, on a thread of its own with a stack of `stack` bytes. Returns also the largest
    /// amount of memory the call had in use.
    pub fn call_small<R: Send>(&mut self, name: &'static str, stack: usize, f: impl FnOnce() -> R + Send) -> Option<(R, usize)> {
        let me = MYSLOT.with(|m| m.get());
        let old = if me != usize::MAX { slot(me).clock.load(SeqCst) } else { 0 };
        let r = self.call_mode(name, 1, || {
            if me != usize::MAX {
                slot(me).cpu0.store(u64::MAX, SeqCst);
            }
            std::thread::scope(|s| {
                let h = std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, || {
                        if me != usize::MAX {
                            let mut id: libc::clockid_t = 0;
                            unsafe {
                                let _ = libc::pthread_getcpuclockid(libc::pthread_self(), &mut id);
                            }
                            slot(me).clock.store(id as u32 as u64, SeqCst);
                            slot(me).cpu0.store(1, SeqCst);
                        }
                        MINE.with(|m| m.set(0));
                        MINE_PEAK.with(|m| m.set(0));
                        let r = f();
                        let peak = MINE_PEAK.with(|m| m.get()).max(0) as usize;
                        (r, peak)
                    })
                    .expect("spawn");
                match h.join() {
                    Ok(v) => v,
                    Err(e) => std::panic::resume_unwind(e),
                }
            })
        });
        if me != usize::MAX {
            slot(me).clock.store(old, SeqCst);
        }
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("panic:{name}"), format!("{name} panicked: {m}"));
                None
            }
        }
    }
    /// run library code where a panic is an allowed outcome
    pub fn try_call<R>(&mut self, name: &'static str, f: impl FnOnce() -> R) -> Result<R, String> {
        self.call_mode(name, 1, f)
    }
}

// ---------------------------------------------------------------- properties
pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Rng, &mut Obs),
    pub directed: &'static [fn(&mut Obs)],
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub rule: &'static str,
    /// counters which must be non-zero for a "held" verdict
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub only_case: Option<u64>,
    pub cases: Option<u64>,
    pub out: String,
    pub worker: bool,
    pub verbose: bool,
    pub verif: String,
    pub cpu_limit: u64,
    pub wall_cap: u64,
    pub threads: Option<usize>,
    pub level_extra: String,
}

pub const DIRECTED: u64 = 1 << 40;

fn run_case(p: &Prop, seed: u64, idx: u64, want_desc: bool) -> Obs {
    let mut o = Obs { want_desc, ..Default::default() };
    let me = MYSLOT.with(|m| m.get());
    if me != usize::MAX {
        slot(me).case.store(idx, SeqCst);
        slot(me).in_case.store(1, SeqCst);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        if idx >= DIRECTED {
            (p.directed[(idx - DIRECTED) as usize])(&mut o)
        } else {
            let mut rng = Rng::keyed(seed, p.id, idx);
            if crate::gen::zero_mode(rng.clone().u64()) {
                o.n("cases_with_negative_zeros");
            }
            (p.case)(&mut rng, &mut o)
        }
    }));
    if me != usize::MAX {
        slot(me).in_case.store(0, SeqCst);
        slot(me).active.store(0, SeqCst);
    }
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
        o.harness_error = Some(format!("harness panicked in case {idx}: {m} [{loc}]"));
    }
    for v in o.viol.iter_mut() {
        v.case = idx;
        v.input = o.desc.clone();
    }
    o
}

fn known_findings(verif: &str, prop: &str) -> Vec<(String, String)> {
    // lines: known: property=C14 sig=<signature> | <description>
    let mut rv = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("known: property=") {
                let mut it = rest.splitn(2, ' ');
                let id = it.next().unwrap_or("");
                let rest = it.next().unwrap_or("");
                if id == prop {
                    if let Some(r) = rest.strip_prefix("sig=") {
                        let mut it = r.splitn(2, " | ");
                        rv.push((it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
    }
    rv
}

/// Runs some cases one after another without the supervision machinery (for Miri, which has no
/// shared mappings or CPU clocks). The interpreter itself is the monitor: findings abort the run.
pub fn lite(p: &'static Prop, a: &Args) -> i32 {
    sanitizer_panic_hook();
    let n = a.cases.unwrap_or(4);
    let (mut calls, mut evals, mut viol) = (0u64, 0u64, 0u64);
    let t0 = Instant::now();
    for i in 0..n {
        if t0.elapsed().as_secs() >= a.wall_cap {
            break;
        }
        let o = run_case(p, a.seed, i, false);
        evals += 1;
        calls += o.counts.get("library_calls").copied().unwrap_or(0);
        viol += o.viol.len() as u64;
        if let Some(e) = o.harness_error {
            println!("LITE-ERROR {e}");
            return 2;
        }
        println!("LITE prop={} evals={evals} calls={calls} deviations={viol}", p.id);
    }
    println!("LITE prop={} evals={evals} calls={calls} deviations={viol}", p.id);
    0
}

/// Panics are judged by the monitors of the other properties, except arithmetic overflows and
/// violated preconditions of unsafe operations, which are reported here.
fn sanitizer_panic_hook() {
    let say = std::env::var_os("LSMON_SANITIZE").is_some();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if say {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.contains("with overflow") || m.contains("unsafe precondition") {
                eprintln!("LSMON-UB {m} at {loc}");
            }
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = loc;
        }
    }));
}

#[derive(Default)]
struct Acc {
    evals: u64,
    counts: BTreeMap<&'static str, u64>,
    hist: BTreeMap<&'static str, BTreeSet<u64>>,
    hashes: HashSet<u64>,
    viol: Vec<Viol>,
    nviol: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    err: Option<String>,
}

/// Worker: runs the cases, writes the result JSON to args.out.
pub fn worker(p: &'static Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    map_slots(&format!("{}.slots", a.out));
    sanitizer_panic_hook();
    LIVE_LIMIT.store(if a.only_case.is_some() { 3usize << 30 } else { 8usize << 30 }, SeqCst);
    let known = known_findings(&a.verif, p.id);
    if let Some(c) = a.only_case {
        // replay in a registered thread so that the watchdog covers it
        let stop = AtomicBool::new(false);
        let o = std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    register_thread(0);
                    run_case(p, a.seed, c, true)
                })
                .expect("spawn");
            let limit = a.cpu_limit;
            let stop = &stop;
            let _ = s.spawn(move || watchdog(limit, stop));
            let r = h.join();
            stop.store(true, SeqCst);
            r
        });
        let o = match o {
            Ok(o) => o,
            Err(_) => return 2,
        };
        println!("case {} of {} seed {}", c, p.id, a.seed);
        println!("{}", o.desc);
        for v in &o.viol {
            let k = known.iter().any(|k| k.0 == v.sig);
            println!("{} sig={} : {}", if k { "KNOWN" } else { "VIOLATION" }, v.sig, v.detail);
        }
        if let Some(h) = &o.harness_error {
            println!("harness error: {h}");
            return 2;
        }
        let bad = o.viol.iter().any(|v| !known.iter().any(|k| k.0 == v.sig));
        println!("{}", if bad { "replay: violated" } else { "replay: held" });
        return if bad { 1 } else { 0 };
    }
    let ncases = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    let ndir = p.directed.len() as u64;
    let total = ncases + ndir;
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let nthreads = a.threads.unwrap_or(if p.threads == 0 { ncpu } else { p.threads });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let halt = AtomicBool::new(false);
    let acc = Mutex::new(Acc::default());
    let wall_cap = a.wall_cap;
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for t in 0..nthreads {
            let (next, halt, acc) = (&next, &halt, &acc);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        register_thread(t);
                        let mut l = Acc::default();
                        let batch = (total / (nthreads as u64 * 16)).clamp(1, 64);
                        'o: loop {
                            let b = next.fetch_add(batch, SeqCst);
                            if b >= total || halt.load(Relaxed) || t0.elapsed().as_secs() >= wall_cap {
                                break;
                            }
                            for i in b..(b + batch).min(total) {
                                let idx = if i < ndir { DIRECTED + i } else { i - ndir };
                                let sample = i >= ndir && (idx < 4 || (idx < 64 && l.samples.len() < 2));
                                let o = run_case(p, a.seed, idx, sample);
                                l.evals += 1;
                                for (k, v) in &o.counts {
                                    *l.counts.entry(k).or_insert(0) += v;
                                }
                                for (k, v) in o.hist {
                                    l.hist.entry(k).or_default().extend(v);
                                }
                                if sample && !o.desc.is_empty() && !o.hashes.is_empty() {
                                    l.samples.push((idx, o.desc.clone()));
                                }
                                // (a lower bound: the sets are capped)
                                if l.hashes.len() < 6_000_000 {
                                    l.hashes.extend(o.hashes.iter());
                                }
                                if let Some(e) = o.harness_error {
                                    l.err = Some(e);
                                    halt.store(true, SeqCst);
                                    break 'o;
                                }
                                let mut described: Option<Vec<Viol>> = None;
                                for v in o.viol {
                                    let c = l.nviol.entry(v.sig.clone()).or_insert(0);
                                    *c += 1;
                                    let describe = *c <= 3;
                                    // at once: a later case may take too long
                                    *acc.lock().unwrap().nviol.entry(v.sig.clone()).or_insert(0) += 1;
                                    if describe {
                                        acc.lock().unwrap().viol.push(v.clone());
                                        if described.is_none() {
                                            described = Some(run_case(p, a.seed, idx, true).viol);
                                        }
                                        let d = described.as_ref().and_then(|d| d.iter().find(|x| x.sig == v.sig)).cloned();
                                        if let Some(d) = d {
                                            if let Some(x) = acc.lock().unwrap().viol.iter_mut().find(|x| x.case == d.case && x.sig == d.sig) {
                                                *x = d;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        let mut g = acc.lock().unwrap();
                        g.evals += l.evals;
                        for (k, v) in l.counts {
                            *g.counts.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in l.hist {
                            g.hist.entry(k).or_default().extend(v);
                        }
                        g.hashes.extend(l.hashes);
                        g.samples.extend(l.samples);
                        if l.err.is_some() {
                            g.err = l.err;
                        }
                    })
                    .expect("spawn"),
            );
        }
        let limit = a.cpu_limit;
        let stop = &stop;
        let _ = s.spawn(move || watchdog(limit, stop));
        // A broken library may produce results which take an oracle forever to judge: then what
        // was observed so far decides, or nothing does.
        while !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let late = t0.elapsed().as_secs().saturating_sub(wall_cap);
            if late < 60 {
                continue;
            }
            let mut g = acc.lock().unwrap();
            let bad = g.viol.iter().any(|v| !known.iter().any(|k| k.0 == v.sig));
            if bad || late > 300 || wall_cap + late > 870 {
                if !bad {
                    g.err = Some("a case did not end in time".to_string());
                }
                report(p, a, std::mem::take(&mut *g), total, ndir, nthreads, t0);
                unsafe { libc::_exit(0) }
            }
        }
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, SeqCst);
    });
    report(p, a, acc.into_inner().unwrap(), total, ndir, nthreads, t0);
    0
}

fn report(p: &Prop, a: &Args, mut g: Acc, total: u64, ndir: u64, nthreads: usize, t0: Instant) {
    g.viol.sort_by_key(|v| (v.case, v.sig.clone()));
    g.samples.sort();
    g.samples.truncate(3);
    let missing: Vec<&str> = p.required.iter().filter(|k| g.counts.get(**k).copied().unwrap_or(0) == 0).cloned().collect();
    let out = json!({
        "evals": g.evals,
        "planned": total,
        "directed": ndir,
        "threads": nthreads,
        "distinct": g.hashes.len(),
        "counts": g.counts,
        "distinct_seen": g.hist.iter().map(|(k,v)|(k.to_string(), json!(v.len()))).collect::<serde_json::Map<String,Value>>(),
        "samples": g.samples.iter().map(|s| json!({"case": s.0, "input": s.1.chars().take(1500).collect::<String>()})).collect::<Vec<_>>(),
        "viol": g.viol.iter().map(|v| json!({"sig": v.sig, "detail": v.detail, "case": v.case, "input": v.input})).collect::<Vec<_>>(),
        "nviol": g.nviol,
        "missing": missing,
        "err": g.err,
        "wall": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(&a.out, serde_json::to_string(&out).unwrap()).expect("write result");
}

fn spawn_worker(a: &Args, out: &str, only: Option<u64>) -> std::io::Result<std::process::Output> {
    let mut c = std::process::Command::new(std::env::current_exe()?);
    let _ = c.arg("--worker").arg("--prop").arg(&a.prop).arg("--seed").arg(a.seed.to_string()).arg("--tier").arg(&a.tier);
    let _ = c.arg("--out").arg(out).arg("--verif").arg(&a.verif).arg("--cpu-limit").arg(a.cpu_limit.to_string());
    let _ = c.arg("--wall-cap").arg(a.wall_cap.to_string());
    if let Some(n) = a.cases {
        let _ = c.arg("--cases").arg(n.to_string());
    }
    if let Some(n) = a.threads {
        let _ = c.arg("--threads").arg(n.to_string());
    }
    if let Some(n) = only {
        let _ = c.arg("--only-case").arg(n.to_string());
    }
    c.output()
}

pub fn write_replay(a: &Args, case: u64, sig: &str, detail: &str, input: &str) -> String {
    let dir = format!("{}/replays", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-case{}.json", a.prop, a.seed, case);
    let v = json!({"property": a.prop, "seed": a.seed, "case": case, "tier": a.tier, "signature": sig, "detail": detail, "input": input,
        "replay_cmd": format!("./check.sh {} --replay {}", a.prop, path)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub fn supervisor(p: &'static Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("lsmon-{}-{}", a.prop, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("tmp dir");
    let out = tmp.join("result.json").to_string_lossy().to_string();
    let rc = supervise(p, a, &out, t0);
    let _ = std::fs::remove_dir_all(&tmp);
    rc
}

fn evidence(p: &Prop, a: &Args, cov: Value, violations: u64, wall: f64) {
    let v = json!({
        "property": p.id, "tier": if a.tier == "thorough" {"thorough"} else {"quick"}, "seed": a.seed, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions, "wall_s": wall, "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.verif));
    std::fs::write(format!("{}/evidence/{}.json", a.verif, p.id), serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
}

fn supervise(p: &'static Prop, a: &Args, out: &str, t0: Instant) -> i32 {
    if let Some(c) = a.only_case {
        let r = match spawn_worker(a, out, Some(c)) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                return 2;
            }
        };
        print!("{}", String::from_utf8_lossy(&r.stdout));
        let rc = r.status.code();
        return match rc {
            Some(0) => 0,
            Some(1) => 1,
            Some(2) => 2,
            _ => {
                println!("replay: worker died ({:?})", r.status);
                1
            }
        };
    }
    let r = match spawn_worker(a, out, None) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            return 2;
        }
    };
    if r.status.code() != Some(0) {
        // the worker died: which case was executing?
        map_slots(&format!("{out}.slots"));
        let mut cand: Vec<(u64, u64, String)> = Vec::new();
        for i in 0..NSLOT {
            let s = slot(i);
            if s.in_case.load(SeqCst) != 0 {
                let mut name = Vec::new();
                for k in 0..4 {
                    name.extend_from_slice(&s.name[k].load(SeqCst).to_le_bytes());
                }
                let name = String::from_utf8_lossy(&name).trim_end_matches('\0').to_string();
                cand.push((s.tripped.load(SeqCst), s.case.load(SeqCst), name));
            }
        }
        // tripped slots first
        cand.sort_by_key(|c| (c.0 == 0, c.1));
        eprintln!("worker died: {:?}; cases in flight: {:?}", r.status, cand);
        eprintln!("{}", String::from_utf8_lossy(&r.stderr).lines().rev().take(15).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n"));
        for (trip, case, name) in &cand {
            let out2 = format!("{out}.c{case}");
            if let Ok(r2) = spawn_worker(a, &out2, Some(*case)) {
                let code = r2.status.code();
                if code != Some(0) && code != Some(2) {
                    let err = String::from_utf8_lossy(&r2.stderr).to_string();
                    let why = if code == Some(97) {
                        if *trip == REASON_MEM || *trip == 0 {
                            format!("library call {name} exceeded its CPU or memory budget (bounded-progress violation)")
                        } else {
                            format!("library call {name} did not terminate within {} CPU-seconds (bounded-progress violation)", a.cpu_limit)
                        }
                    } else {
                        format!("process died in library call {name}: {:?} {}", r2.status, err.chars().take(2000).collect::<String>())
                    };
                    let path = write_replay(a, *case, "crash", &why, &String::from_utf8_lossy(&r2.stdout));
                    println!("VIOLATION property={} replay={}", p.id, path);
                    println!("  {why}");
                    evidence(
                        p,
                        a,
                        json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [{"case": case, "died": why}]}),
                        1,
                        t0.elapsed().as_secs_f64(),
                    );
                    return 1;
                }
            }
        }
        eprintln!("INCONCLUSIVE property={}: the worker died and no in-flight case reproduces it", p.id);
        evidence(p, a, json!({"evaluations": 0, "distinct_nontrivial": 0, "rule": p.rule, "samples": ["worker died, not reproduced"], "verdict":"inconclusive"}), 0, t0.elapsed().as_secs_f64());
        return 2;
    }
    let v: Value = match std::fs::read_to_string(out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("INCONCLUSIVE: no worker result");
            return 2;
        }
    };
    let known = known_findings(&a.verif, p.id);
    let mut bad: Vec<&Value> = Vec::new();
    let mut observed_known: BTreeMap<String, u64> = BTreeMap::new();
    for x in v["viol"].as_array().unwrap() {
        let sig = x["sig"].as_str().unwrap_or("");
        if known.iter().any(|k| k.0 == sig) {
            *observed_known.entry(sig.to_string()).or_insert(0) = v["nviol"][sig].as_u64().unwrap_or(1);
        } else {
            bad.push(x);
        }
    }
    let nbad: u64 = v["nviol"].as_object().unwrap().iter().filter(|(k, _)| !known.iter().any(|f| &f.0 == *k)).map(|(_, n)| n.as_u64().unwrap_or(0)).sum();
    let mut cov = json!({
        "evaluations": v["evals"],
        "distinct_nontrivial": v["distinct"],
        "rule": p.rule,
        "samples": if v["samples"].as_array().map(|s| s.is_empty()).unwrap_or(true) { json!(["(no sampled case was non-trivial)"]) } else { v["samples"].clone() },
        "observed": v["counts"],
        "distinct_values_observed": v["distinct_seen"],
        "planned_cases": v["planned"],
        "directed_cases": v["directed"],
        "monitor_threads": v["threads"],
        "known_findings_observed": observed_known,
        "backends": ["glam Vec2/Vec3", "glam Vec2A/Vec3A", "glam DVec2/DVec3", "cgmath f32", "cgmath f64"],
    });
    if v["evals"] != v["planned"] {
        cov["stopped_early"] = json!("wall-clock cap reached before all planned cases ran");
    }
    evidence(p, a, cov, nbad, t0.elapsed().as_secs_f64());
    if let Some(e) = v["err"].as_str() {
        eprintln!("INCONCLUSIVE property={}: {e}", p.id);
        if bad.is_empty() {
            return 2;
        }
    }
    for (sig, n) in &observed_known {
        let d = known.iter().find(|k| &k.0 == sig).map(|k| k.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [{} occurrences of {}]", p.id, d, n, sig);
    }
    if !bad.is_empty() {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut first = true;
        for x in &bad {
            let sig = x["sig"].as_str().unwrap_or("").to_string();
            if !seen.insert(sig.clone()) || seen.len() > 24 {
                continue;
            }
            let path = write_replay(a, x["case"].as_u64().unwrap_or(0), &sig, x["detail"].as_str().unwrap_or(""), x["input"].as_str().unwrap_or(""));
            if first {
                println!("VIOLATION property={} replay={}", p.id, path);
                first = false;
            } else {
                println!("  also: {path}");
            }
            println!("  sig={} ({} cases) case={} : {}", sig, v["nviol"][&sig], x["case"], x["detail"].as_str().unwrap_or("").chars().take(1200).collect::<String>());
            if a.verbose {
                println!("{}", x["input"].as_str().unwrap_or(""));
            }
        }
        return 1;
    }
    if !v["missing"].as_array().unwrap().is_empty() {
        eprintln!("INCONCLUSIVE property={}: never observed: {}", p.id, v["missing"]);
        return 2;
    }
    if v["distinct"].as_u64().unwrap_or(0) < 2 {
        eprintln!("INCONCLUSIVE property={}: nothing non-trivial observed", p.id);
        return 2;
    }
    println!(
        "OK property={} held on {} cases ({} distinct non-trivial, {} oracle checks, {} library calls) in {:.1}s",
        p.id, v["evals"], v["distinct"], v["counts"]["oracle_checks"], v["counts"]["library_calls"], t0.elapsed().as_secs_f64()
    );
    0
}
