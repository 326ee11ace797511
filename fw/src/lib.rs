//! Exploration framework shared by the parser and the core harness.
//!
//! A check is a list of *spaces*. A space is a finite indexed family of cases
//! (`size` of them, numbered from 0), every one of which is executed: there is
//! no sampling anywhere. Cases of a space are independent, so they are spread
//! over worker threads; each case is identified by (space, index) and can be
//! re-executed alone, in a fresh process, with `--only space:index`.
//!
//! Guards: panics are caught by the checks; a case that does not finish within
//! the time limit, or keeps allocating, is reported as a violation by a
//! watchdog thread; a case that kills the process is identified afterwards by
//! the supervisor (check.py) from the memory-mapped slot file.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::{Acquire, Relaxed, Release}};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdH>>;

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^ (x >> 32)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(v));
    }
    h
}

// ---------------------------------------------------------------- slots
pub const NSLOT: usize = 16;
const SLOT_TEXT: usize = 4096;
#[repr(C)]
pub struct Slot {
    /// 0 = idle, otherwise space number + 1
    space: AtomicU64,
    idx: AtomicU64,
    since_ms: AtomicU64,
    len: AtomicU64,
    text: [u8; SLOT_TEXT],
}
/// padded: the counters of different threads must not share a cache line
#[repr(align(256))]
struct Pad(AtomicI64);
static LIVE: [Pad; NSLOT] = [const { Pad(AtomicI64::new(0)) }; NSLOT];
thread_local! { static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

// ---------------------------------------------------------------- schedules
/// Two threads under a controlled scheduler. Every allocation and release one
/// of them makes is a scheduling point; only the thread whose turn it is runs.
/// `until[t]` is the point at which thread t hands over (once).
pub struct Sched {
    turn: AtomicU64,
    count: [AtomicU64; 2],
    until: [u64; 2],
    done: [AtomicBool; 2],
    pub blocked: AtomicBool,
}
static NBLOCKED: AtomicU64 = AtomicU64::new(0);
thread_local! { static SCHED: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) }; }
impl Sched {
    pub fn new(until: [u64; 2]) -> Sched {
        Sched {
            turn: AtomicU64::new(0),
            count: [AtomicU64::new(0), AtomicU64::new(0)],
            until,
            done: [AtomicBool::new(false), AtomicBool::new(false)],
            blocked: AtomicBool::new(false),
        }
    }
    fn wait(&self, t: usize) {
        let mut n = 0u32;
        let mut start = None;
        while self.turn.load(Acquire) != t as u64 {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
            } else {
                // the other thread may be blocked on a lock this one holds:
                // then the schedule is not possible, and both may run
                let s = *start.get_or_insert_with(Instant::now);
                let patience = if NBLOCKED.load(Relaxed) < 100 { 100 } else { 1 };
                if s.elapsed() > Duration::from_millis(patience) {
                    NBLOCKED.fetch_add(1, Relaxed);
                    self.blocked.store(true, Relaxed);
                    return;
                }
                std::thread::yield_now();
            }
        }
    }
    fn point(&self, t: usize) {
        if self.blocked.load(Relaxed) {
            return;
        }
        let n = self.count[t].fetch_add(1, Relaxed);
        if n == self.until[t] && !self.done[1 - t].load(Relaxed) {
            self.turn.store(1 - t as u64, Release);
            self.wait(t);
        }
    }
    /// Run `f` as thread `t` of the schedule.
    pub fn run<R>(&self, t: usize, f: impl FnOnce() -> R) -> R {
        self.wait(t);
        SCHED.with(|s| s.set((self as *const Sched, t)));
        let r = f();
        SCHED.with(|s| s.set((std::ptr::null(), 0)));
        self.done[t].store(true, Relaxed);
        self.turn.store(1 - t as u64, Release);
        r
    }
    /// The calling thread's remaining steps are no scheduling points.
    pub fn leave() {
        SCHED.with(|s| s.set((std::ptr::null(), 0)));
    }
    pub fn points(&self, t: usize) -> u64 {
        self.count[t].load(Relaxed)
    }
}
#[inline]
fn sched_point() {
    let _ = SCHED.try_with(|s| {
        let (p, t) = s.get();
        if !p.is_null() {
            unsafe { (*p).point(t) }
        }
    });
}

pub struct CountAlloc;
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched_point();
        let _ = MYSLOT.try_with(|s| {
            if s.get() < NSLOT {
                LIVE[s.get()].0.fetch_add(l.size() as i64, Relaxed);
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched_point();
        let _ = MYSLOT.try_with(|s| {
            if s.get() < NSLOT {
                LIVE[s.get()].0.fetch_sub(l.size() as i64, Relaxed);
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = MYSLOT.try_with(|s| {
            if s.get() < NSLOT {
                LIVE[s.get()].0.fetch_add(n as i64 - l.size() as i64, Relaxed);
            }
        });
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: CountAlloc = CountAlloc;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn map_slots(path: Option<&str>) -> &'static [Slot] {
    let sz = std::mem::size_of::<Slot>() * NSLOT;
    unsafe {
        let p = if let Some(path) = path {
            use std::os::unix::io::AsRawFd;
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .expect("slot file");
            f.set_len(sz as u64).expect("slot size");
            mmap(std::ptr::null_mut(), sz, 3, 1, f.as_raw_fd(), 0)
        } else {
            mmap(std::ptr::null_mut(), sz, 3, 0x22, -1, 0)
        };
        assert!(p as isize != -1, "mmap failed");
        std::slice::from_raw_parts(p as *const Slot, NSLOT)
    }
}

// ---------------------------------------------------------------- results
#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    pub case: String,
}
impl Viol {
    pub fn new(what: impl Into<String>, case: impl Into<String>) -> Viol {
        Viol { what: what.into(), case: case.into() }
    }
}
pub type Res = Result<(), Viol>;

/// Distinct states and transitions are counted up to this many per thread and
/// space, to bound memory: beyond it the reported numbers are lower bounds.
const TABLE: usize = 6_000_000;

/// Per-thread accumulator.
#[derive(Default)]
pub struct Local {
    pub states: U64Set,
    pub trans: U64Set,
    pub outcomes: U64Set,
    pub evals: u64,
    pub execs: u64,
    pub extra: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<String>,
    slot: usize,
}
impl Local {
    /// a state of the model was visited
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.len() < TABLE {
            self.states.insert(h);
        }
    }
    #[inline]
    pub fn tran(&mut self, from: u64, sym: u64, to: u64) {
        if self.trans.len() < TABLE {
            self.trans.insert(mix(mix(from, sym), to));
        }
    }
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.extra.get_mut(k) {
            *v += n;
        } else {
            self.extra.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    /// record what is being executed (for the watchdog and for crash triage)
    #[inline]
    pub fn note(&mut self, text: &str) {
        let sl = &slots()[self.slot];
        let n = text.len().min(SLOT_TEXT);
        unsafe {
            std::ptr::copy_nonoverlapping(text.as_ptr(), sl.text.as_ptr() as *mut u8, n);
        }
        sl.len.store(n as u64, Relaxed);
        sl.since_ms.store(now_ms(), Relaxed);
    }
}

static mut SLOTS: Option<&'static [Slot]> = None;
fn slots() -> &'static [Slot] {
    #[allow(static_mut_refs)]
    unsafe {
        SLOTS.expect("slots")
    }
}
static START: Mutex<Option<Instant>> = Mutex::new(None);
static CLOCK_MS: AtomicU64 = AtomicU64::new(1);
fn now_ms() -> u64 {
    CLOCK_MS.load(Relaxed)
}

pub struct SpaceStat {
    pub name: String,
    pub size: u64,
    pub done: u64,
    pub execs: u64,
    pub secs: f64,
    pub note: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub config: String,
    only: Option<(String, u64)>,
    skip: Option<String>,
    pub sel: Option<String>,
    threads: usize,
    stop: AtomicBool,
    total: Mutex<Local>,
    spaces: Mutex<Vec<SpaceStat>>,
    viols: Mutex<Vec<(String, u64, Viol)>>,
    out: Option<String>,
    slotfile: Option<String>,
    names: Mutex<Vec<String>>,
    prefix: Mutex<String>,
    pick: Mutex<Option<Vec<String>>>,
    t0: Instant,
}

fn jesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn short(s: &str) -> String {
    if s.chars().count() > 600 {
        let a: String = s.chars().take(400).collect();
        let n = s.chars().count();
        let b: String = s.chars().skip(n - 150).collect();
        format!("{}...<{} chars>...{}", a, n, b)
    } else {
        s.to_string()
    }
}

pub const TIME_LIMIT_MS: u64 = 40_000;
pub const MEM_LIMIT: i64 = 3 << 30;

impl Ctx {
    pub fn from_args() -> &'static Ctx {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let prop = a.get(1).cloned().unwrap_or_default();
        let only = get("--only").map(|s| {
            let i = s.rfind(':').expect("space:idx");
            (s[..i].to_string(), s[i + 1..].parse().unwrap())
        });
        let slotfile = get("--slots");
        unsafe {
            SLOTS = Some(map_slots(slotfile.as_deref()));
        }
        *START.lock().unwrap() = Some(Instant::now());
        let threads = get("--threads").map(|t| t.parse().unwrap()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(NSLOT)
        });
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            prop,
            thorough: get("--tier").map(|t| t == "thorough").unwrap_or(false),
            config: get("--config").unwrap_or_else(|| "f32".into()),
            threads: if only.is_some() { 1 } else { threads },
            only,
            skip: get("--skip"),
            sel: get("--spaces"),
            stop: AtomicBool::new(false),
            total: Mutex::new(Local::default()),
            spaces: Mutex::new(vec![]),
            viols: Mutex::new(vec![]),
            out: get("--out"),
            slotfile,
            names: Mutex::new(vec![]),
            prefix: Mutex::new(String::new()),
            pick: Mutex::new(None),
            t0: Instant::now(),
        }));
        std::panic::set_hook(Box::new(|i| { if std::env::var_os("FW_PANICS").is_some() { eprintln!("{}", i) } }));
        std::thread::spawn(move || ctx.watchdog());
        ctx
    }

    fn watchdog(&'static self) {
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let ms = START.lock().unwrap().unwrap().elapsed().as_millis() as u64 + 1;
            CLOCK_MS.store(ms, Relaxed);
            for (i, s) in slots().iter().enumerate() {
                let sp = s.space.load(Relaxed);
                if sp == 0 {
                    continue;
                }
                let age = ms.saturating_sub(s.since_ms.load(Relaxed));
                let live = LIVE[i].0.load(Relaxed);
                let why = if age > TIME_LIMIT_MS {
                    format!("execution did not finish within {} s", TIME_LIMIT_MS / 1000)
                } else if live > MEM_LIMIT {
                    format!("execution keeps allocating ({} bytes live)", live)
                } else {
                    continue;
                };
                let n = (s.len.load(Relaxed) as usize).min(SLOT_TEXT);
                let text = String::from_utf8_lossy(&s.text[..n]).into_owned();
                let space = self.names.lock().unwrap()[sp as usize - 1].clone();
                self.viols.lock().unwrap().push((
                    space,
                    s.idx.load(Relaxed),
                    Viol::new(why, text),
                ));
                self.finish_and_exit();
            }
        }
    }

    /// Run `f` with the names of its spaces starting with `p.`; if `pick` is
    /// given, only the spaces named there (a final * stands for anything).
    pub fn within(&'static self, p: &str, pick: Option<&[&str]>, f: impl FnOnce(&'static Ctx)) {
        let old = self.prefix.lock().unwrap().clone();
        let old_pick = self.pick.lock().unwrap().clone();
        *self.prefix.lock().unwrap() = format!("{}{}.", old, p);
        if let Some(l) = pick {
            *self.pick.lock().unwrap() = Some(l.iter().map(|s| s.to_string()).collect());
        }
        f(self);
        *self.prefix.lock().unwrap() = old;
        *self.pick.lock().unwrap() = old_pick;
    }

    /// Run every case of a space.
    pub fn space<F>(&'static self, name: &str, size: u64, bound: &str, f: F)
    where
        F: Fn(u64, &mut Local) -> Res + Sync,
    {
        self.space_stack(name, size, bound, 8 << 20, f)
    }

    pub fn space_stack<F>(&'static self, name: &str, size: u64, bound: &str, stack: usize, f: F)
    where
        F: Fn(u64, &mut Local) -> Res + Sync,
    {
        if self.stop.load(Relaxed) {
            return;
        }
        if let Some(l) = &*self.pick.lock().unwrap() {
            if !l.iter().any(|p| p == name || p.ends_with('*') && name.starts_with(&p[..p.len() - 1])) {
                return;
            }
        }
        let full = format!("{}{}", self.prefix.lock().unwrap(), name);
        let name = full.as_str();
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        if let Some(s) = &self.skip {
            if s.split(',').any(|x| x == name) {
                return;
            }
        }
        let sid = {
            let mut n = self.names.lock().unwrap();
            n.push(name.to_string());
            if let Some(p) = &self.slotfile {
                // for the supervisor, should the process die in this space
                std::fs::write(format!("{}.names", p), n.join("\n")).expect("names file");
            }
            n.len() as u64
        };
        let (lo, hi) = match &self.only {
            Some((_, i)) => (*i, *i + 1),
            None => (0, size),
        };
        let t = Instant::now();
        let next = AtomicU64::new(lo);
        let done = AtomicU64::new(0);
        let nthreads = self.threads.min(((hi - lo).max(1)) as usize);
        let chunk = (((hi - lo) / (nthreads as u64 * 64)).max(1)).min(4096);
        let execs0 = self.total.lock().unwrap().execs;
        std::thread::scope(|sc| {
            for ti in 0..nthreads {
                let (next, done, f) = (&next, &done, &f);
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(sc, move || {
                        let mut loc = Local { slot: ti, ..Local::default() };
                        let sl = &slots()[ti];
                        LIVE[ti].0.store(0, Relaxed);
                        MYSLOT.with(|s| s.set(ti));
                        let mut n = 0;
                        'outer: loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= hi || self.stop.load(Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                sl.since_ms.store(now_ms(), Relaxed);
                                sl.idx.store(i, Relaxed);
                                sl.len.store(0, Relaxed);
                                sl.space.store(sid, Relaxed);
                                let r = f(i, &mut loc);
                                sl.space.store(0, Relaxed);
                                loc.evals += 1;
                                n += 1;
                                if let Err(v) = r {
                                    let mut vs = self.viols.lock().unwrap();
                                    vs.push((name.to_string(), i, v));
                                    self.stop.store(true, Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                        done.fetch_add(n, Relaxed);
                        MYSLOT.with(|s| s.set(usize::MAX));
                        let mut tot = self.total.lock().unwrap();
                        tot.evals += loc.evals;
                        tot.execs += loc.execs;
                        if tot.states.is_empty() {
                            tot.states = loc.states;
                        } else {
                            if tot.states.len() < 10 * TABLE {
                                tot.states.extend(loc.states);
                            }
                        }
                        if tot.trans.is_empty() {
                            tot.trans = loc.trans;
                        } else {
                            if tot.trans.len() < 10 * TABLE {
                                tot.trans.extend(loc.trans);
                            }
                        }
                        if tot.outcomes.len() < 20_000_000 {
                            tot.outcomes.extend(loc.outcomes);
                        }
                        for (k, v) in loc.extra {
                            *tot.extra.entry(k).or_insert(0) += v;
                        }
                        if ti == 0 {
                            for s in loc.samples {
                                if tot.samples.len() < 40 {
                                    tot.samples.push(format!("{}: {}", name, short(&s)));
                                }
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let execs = self.total.lock().unwrap().execs - execs0;
        self.spaces.lock().unwrap().push(SpaceStat {
            name: name.to_string(),
            size,
            done: done.load(Relaxed),
            execs,
            secs: t.elapsed().as_secs_f64(),
            note: bound.to_string(),
        });
    }

    fn finish_and_exit(&self) -> ! {
        let tot = self.total.lock().unwrap();
        let mut vs = self.viols.lock().unwrap().clone();
        vs.sort_by_key(|(_, i, v)| (v.case.len(), *i));
        let mut o = String::new();
        o.push_str("{\n");
        o.push_str(&format!("\"property\": {},\n", jesc(&self.prop)));
        o.push_str(&format!("\"config\": {},\n", jesc(&self.config)));
        o.push_str(&format!("\"states\": {},\n", tot.states.len()));
        o.push_str(&format!("\"transitions\": {},\n", tot.trans.len()));
        o.push_str(&format!("\"cases\": {},\n", tot.evals));
        o.push_str(&format!("\"executions\": {},\n", tot.execs));
        o.push_str(&format!("\"distinct_outcomes\": {},\n", tot.outcomes.len()));
        o.push_str("\"extra\": {");
        o.push_str(
            &tot.extra.iter().map(|(k, v)| format!("{}: {}", jesc(k), v)).collect::<Vec<_>>().join(", "),
        );
        o.push_str("},\n\"samples\": [");
        o.push_str(&tot.samples.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(",\n "));
        o.push_str("],\n\"spaces\": [");
        o.push_str(
            &self
                .spaces
                .lock()
                .unwrap()
                .iter()
                .map(|s| {
                    format!(
                        "{{\"name\": {}, \"size\": {}, \"covered\": {}, \"executions\": {}, \"seconds\": {:.2}, \"bound\": {}}}",
                        jesc(&s.name), s.size, s.done, s.execs, s.secs, jesc(&s.note)
                    )
                })
                .collect::<Vec<_>>()
                .join(",\n "),
        );
        o.push_str("],\n\"names\": [");
        o.push_str(&self.names.lock().unwrap().iter().map(|s| jesc(s)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n\"violations\": [");
        o.push_str(
            &vs.iter()
                .take(10)
                .map(|(s, i, v)| {
                    format!(
                        "{{\"space\": {}, \"index\": {}, \"what\": {}, \"case\": {}}}",
                        jesc(s),
                        i,
                        jesc(&short(&v.what)),
                        jesc(&short(&v.case))
                    )
                })
                .collect::<Vec<_>>()
                .join(",\n "),
        );
        o.push_str(&format!("],\n\"wall_s\": {:.2}\n}}\n", self.t0.elapsed().as_secs_f64()));
        match &self.out {
            Some(p) => std::fs::write(p, &o).expect("write out"),
            None => print!("{}", o),
        }
        std::process::exit(if vs.is_empty() { 0 } else { 1 })
    }

    pub fn finish(&self) -> ! {
        self.finish_and_exit()
    }
}

/// Mixed-radix decoding: idx -> digits (least significant first).
pub fn digits(mut idx: u64, radix: &[u64]) -> Vec<usize> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix {
        v.push((idx % r) as usize);
        idx /= r;
    }
    v
}
/// Number of words of length 0..=l over k symbols.
pub fn nwords(k: u64, l: u32) -> u64 {
    (0..=l).map(|i| k.pow(i)).sum()
}
/// The idx-th word in length-then-lexicographic order.
pub fn word(mut idx: u64, k: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut len = 0u32;
    loop {
        let n = k.pow(len);
        if idx < n {
            break;
        }
        idx -= n;
        len += 1;
    }
    for _ in 0..len {
        out.push((idx % k) as usize);
        idx /= k;
    }
    out.reverse();
}
/// All valid Unicode scalar values, densely numbered.
pub const NSCALAR: u64 = 0x110000 - 0x800;
pub fn scalar(i: u64) -> char {
    let v = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(v as u32).unwrap()
}
