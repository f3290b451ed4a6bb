//! Stateless, exhaustive choice-point exploration of the real code.
//!
//! A family is a deterministic body that asks the context for choices.  The engine runs the body once
//! for every combination of answers (depth first, split over threads), so every run is a complete
//! execution of the real library.  A second mode (`Kind::Bfs`) is an explicit-state breadth-first search: a
//! state is the history reaching it, the body replays it on fresh objects and returns the canonical
//! hash of the state, and histories reaching a state seen before are not extended.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub key: Option<String>,
    pub engine: bool,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(msg: impl Into<String>) -> R<T> {
    // whole arrays may be part of the message
    let mut msg: String = msg.into();
    if msg.len() > 3000 {
        let cut = (0..=3000).rev().find(|&i| msg.is_char_boundary(i)).unwrap_or(0);
        msg.truncate(cut);
        msg.push_str(" ...");
    }
    Err(Fail { msg, key: None, engine: false })
}
pub fn engine_error<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail { msg: msg.into(), key: None, engine: true })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::engine::fail(format!($($a)*)); } };
}
#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type HashSet64 = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-like 64-bit mixing hash for state fingerprints.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> Self {
        H(0xcbf29ce484222325)
    }
    #[inline]
    pub fn u(mut self, v: u64) -> Self {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
        self
    }
    pub fn bytes(mut self, b: &[u8]) -> Self {
        self = self.u(b.len() as u64);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self = self.u(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for c in it.remainder() {
            self = self.u(*c as u64);
        }
        self
    }
    pub fn s(self, s: &str) -> Self {
        self.bytes(s.as_bytes())
    }
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    pub trace: Vec<(u32, u32)>,
    dev_left: u32,
    pub steps: u64,
    pub validated: u64,
    states: &'a mut HashSet64,
    pub thorough: bool,
    want_note: bool,
    pub note: Option<String>,
    pub knowns: Vec<(String, String)>,
    known_keys: &'a HashSet<String>,
    bfs_len: Option<usize>,
}
impl<'a> Ctx<'a> {
    /// The next choice out of `n` answers.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] } else { 0 };
        assert!((c as usize) < n, "divergence while replaying a prefix: choice {c} of {n} at {pos}");
        self.trace.push((c, n as u32));
        c as usize
    }
    /// Like `choose`, for choices asked for by a scheduler: never panics.  When the number of alternatives is
    /// not the recorded one (code under test that is itself timed), the nearest alternative is taken.
    pub fn soft_choose(&mut self, n: usize) -> usize {
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] } else { 0 }.min(n as u32 - 1);
        self.trace.push((c, n as u32));
        c as usize
    }
    pub fn soft_deviate(&mut self, n: usize) -> usize {
        if self.dev_left == 0 || n <= 1 {
            return 0;
        }
        let c = self.soft_choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn pick<T: Copy>(&mut self, from: &[T]) -> T {
        from[self.choose(from.len())]
    }
    pub fn pick_ref<'b, T>(&mut self, from: &'b [T]) -> &'b T {
        &from[self.choose(from.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Integer from an inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choose((hi - lo + 1) as usize) as i64
    }
    pub fn set_deviations(&mut self, n: u32) {
        self.dev_left = n;
    }
    /// A choice whose non-zero answers are deviations from the default environment; only as many as
    /// the deviation budget allows are taken in one execution.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.dev_left == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    /// For `Kind::Bfs` bodies: the next operation of the history, or None at its end.
    pub fn next_op(&mut self, n: usize) -> Option<usize> {
        if self.trace.len() >= self.bfs_len.expect("next_op outside of a bfs family") {
            return None;
        }
        Some(self.choose(n))
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn state(&mut self, h: H) {
        self.states.insert(h.0);
    }
    pub fn compared(&mut self) {
        self.validated += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let s = f();
            self.note = Some(match self.note.take() {
                Some(o) => format!("{o}; {s}"),
                None => s,
            });
        }
    }
    /// A failure identified by `key`: passed over when the committed known-findings file lists it.
    pub fn known(&mut self, key: String, msg: String) -> R {
        if self.known_keys.contains(&key) {
            self.knowns.push((key, msg));
            Ok(())
        } else {
            Err(Fail { msg, key: Some(key), engine: false })
        }
    }
}

pub enum Kind {
    Dfs(Box<dyn Fn(&mut Ctx) -> R + Send + Sync>),
    /// (number of operations, max depth quick, max depth thorough, body returning the state hash)
    Bfs(usize, usize, usize, Box<dyn Fn(&mut Ctx) -> R<u64> + Send + Sync>),
}
pub struct Family {
    pub name: &'static str,
    pub about: &'static str,
    pub kind: Kind,
    pub thorough_only: bool,
    /// executions are themselves multi-threaded: each explorer keeps its threads on one processor, and what
    /// was observed counts even if the same decisions do not lead to it again
    pub threaded: bool,
}
pub fn dfs(name: &'static str, about: &'static str, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Family {
    Family { name, about, kind: Kind::Dfs(Box::new(f)), thorough_only: false, threaded: false }
}
pub fn bfs(
    name: &'static str,
    about: &'static str,
    ops: usize,
    dq: usize,
    dt: usize,
    f: impl Fn(&mut Ctx) -> R<u64> + Send + Sync + 'static,
) -> Family {
    Family { name, about, kind: Kind::Bfs(ops, dq, dt, Box::new(f)), thorough_only: false, threaded: false }
}
impl Family {
    pub fn thorough(mut self) -> Self {
        self.thorough_only = true;
        self
    }
    pub fn threaded(mut self) -> Self {
        self.threaded = true;
        self
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_SUT: Cell<u32> = const { Cell::new(0) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}
/// Runs a call into the library; a panic inside is a result, not an engine error.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(c.get() - 1));
    r.map_err(|_| take_panic())
}

pub struct Opts {
    pub thorough: bool,
    pub threads: usize,
    pub journal: Option<std::fs::File>,
    pub wall_cap: Duration,
    pub exec_cap: Duration,
    pub known: HashSet<String>,
    pub only_family: Option<String>,
}
#[derive(Default)]
pub struct FamilyResult {
    pub name: String,
    pub about: String,
    pub executions: u64,
    pub states: u64,
    pub steps: u64,
    pub validated: u64,
    pub max_depth: u64,
    pub exhaustive: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub violation: Option<(Vec<u32>, String)>,
    pub engine_error: Option<String>,
    pub knowns: BTreeMap<String, (u64, String)>,
}

pub struct OneRun {
    pub result: R<u64>,
    pub trace: Vec<(u32, u32)>,
    pub steps: u64,
    pub validated: u64,
    pub note: Option<String>,
    pub knowns: Vec<(String, String)>,
}
pub fn run_one(
    fam: &Family,
    prefix: &[u32],
    states: &mut HashSet64,
    thorough: bool,
    want_note: bool,
    known: &HashSet<String>,
) -> OneRun {
    let mut ctx = Ctx {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 8),
        dev_left: 0,
        steps: 0,
        validated: 0,
        states,
        thorough,
        want_note,
        note: None,
        knowns: Vec::new(),
        known_keys: known,
        bfs_len: match fam.kind {
            Kind::Bfs(..) => Some(prefix.len()),
            _ => None,
        },
    };
    let r = catch_unwind(AssertUnwindSafe(|| match &fam.kind {
        Kind::Dfs(f) => f(&mut ctx).map(|_| 0),
        Kind::Bfs(_, _, _, f) => f(&mut ctx),
    }));
    let result = match r {
        Ok(r) => r,
        Err(_) => engine_error(format!("harness panic: {}", take_panic())),
    };
    OneRun { result, trace: ctx.trace, steps: ctx.steps, validated: ctx.validated, note: ctx.note, knowns: ctx.knowns }
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}
/// Keeps the current thread, and those it starts, on one of the allowed processors.
fn pin(t: usize) {
    let mut m = [0u64; 16];
    let size = std::mem::size_of_val(&m);
    if unsafe { sched_getaffinity(0, size, m.as_mut_ptr()) } <= 0 {
        return;
    }
    let allowed: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if let Some(c) = allowed.get(t % allowed.len().max(1)) {
        let mut one = [0u64; 16];
        one[c / 64] |= 1 << (c % 64);
        unsafe { sched_setaffinity(0, size, one.as_ptr()) };
    }
}
struct Shared {
    queue: Mutex<(VecDeque<Vec<u32>>, usize)>, // items, busy workers
    cv: Condvar,
    stop: AtomicBool,
    hungry: AtomicUsize,
    execs: AtomicU64,
    capped: AtomicBool,
}
pub struct Beat {
    pub start_ms: AtomicU64, // 0 = idle
}
pub static BEATS: [Beat; 64] = [const { Beat { start_ms: AtomicU64::new(0) } }; 64];

fn journal(o: &Opts, thread: usize, fam: usize, prefix: &[u32]) {
    if let Some(f) = &o.journal {
        use std::os::unix::fs::FileExt;
        let n = prefix.len().min(1000);
        let mut buf = [0u8; 4096];
        buf[0..4].copy_from_slice(&(n as u32).to_le_bytes());
        buf[4..8].copy_from_slice(&(fam as u32 + 1).to_le_bytes());
        for (i, p) in prefix[..n].iter().enumerate() {
            buf[8 + i * 4..12 + i * 4].copy_from_slice(&p.to_le_bytes());
        }
        let _ = f.write_at(&buf[..8 + n * 4], thread as u64 * 4096);
    }
}

#[derive(Default)]
struct Acc {
    res: FamilyResult,
    states: HashSet64,
}
impl Acc {
    fn add(&mut self, run: OneRun, note_slot: bool) -> Option<Fail> {
        self.res.executions += 1;
        self.res.steps += run.steps;
        self.res.validated += run.validated;
        self.res.max_depth = self.res.max_depth.max(run.trace.len() as u64);
        if note_slot {
            if let Some(n) = run.note {
                self.res.samples.push(n);
            }
        }
        for (k, m) in run.knowns {
            let e = self.res.knowns.entry(k).or_insert((0, m));
            e.0 += 1;
        }
        run.result.err()
    }
}

pub fn run_family(idx: usize, fam: &Family, o: &Opts, t0: Instant) -> FamilyResult {
    let start = Instant::now();
    let threads = o.threads;
    let deadline = start + o.wall_cap;
    let mut out = FamilyResult { name: fam.name.into(), about: fam.about.into(), exhaustive: true, ..Default::default() };
    let mut states: HashSet64 = HashSet64::default();
    let mut viol: Option<(Vec<u32>, Fail)> = None;
    let better = |a: &Option<(Vec<u32>, Fail)>, b: &(Vec<u32>, Fail)| match a {
        None => true,
        Some((p, _)) => (b.0.len(), &b.0) < (p.len(), p),
    };
    match &fam.kind {
        Kind::Dfs(_) => {
            let sh = Shared {
                queue: Mutex::new((VecDeque::from([vec![]]), 0)),
                cv: Condvar::new(),
                stop: AtomicBool::new(false),
                hungry: AtomicUsize::new(0),
                execs: AtomicU64::new(0),
                capped: AtomicBool::new(false),
            };
            let results: Mutex<Vec<(Acc, Option<(Vec<u32>, Fail)>)>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let sh = &sh;
                    let results = &results;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            if fam.threaded {
                                pin(t);
                            }
                            let mut acc = Acc::default();
                            let mut v: Option<(Vec<u32>, Fail)> = None;
                            'work: loop {
                                let item = {
                                    let mut q = sh.queue.lock().unwrap();
                                    loop {
                                        if sh.stop.load(SeqCst) {
                                            break 'work;
                                        }
                                        if let Some(i) = q.0.pop_front() {
                                            q.1 += 1;
                                            break i;
                                        }
                                        if q.1 == 0 {
                                            sh.cv.notify_all();
                                            break 'work;
                                        }
                                        sh.hungry.fetch_add(1, SeqCst);
                                        q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                        sh.hungry.fetch_sub(1, SeqCst);
                                    }
                                };
                                let base = item.len();
                                let mut prefix = item;
                                // remaining alternatives may have been given away: per-position limit
                                let mut limits: Vec<u32> = vec![];
                                loop {
                                    journal(o, t, idx, &prefix);
                                    BEATS[t].start_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                    let n = sh.execs.fetch_add(1, SeqCst);
                                    let note = n < 3 || (n.is_power_of_two() && n < 1 << 12);
                                    let run = run_one(fam, &prefix, &mut acc.states, o.thorough, note, &o.known);
                                    BEATS[t].start_ms.store(0, SeqCst);
                                    let trace = run.trace.clone();
                                    if let Some(f) = acc.add(run, note) {
                                        let cand = (trace.iter().map(|x| x.0).collect::<Vec<_>>(), f);
                                        v = Some(cand);
                                        sh.stop.store(true, SeqCst);
                                        break;
                                    }
                                    if sh.stop.load(SeqCst) {
                                        break;
                                    }
                                    if n % 64 == 0 && Instant::now() > deadline {
                                        sh.capped.store(true, SeqCst);
                                        sh.stop.store(true, SeqCst);
                                        break;
                                    }
                                    // next in depth-first order
                                    limits.truncate(trace.len());
                                    while limits.len() < trace.len() {
                                        limits.push(trace[limits.len()].1);
                                    }
                                    let mut next: Vec<u32> = trace.iter().map(|x| x.0).collect();
                                    // give work away
                                    if sh.hungry.load(SeqCst) > 0 {
                                        if let Some(i) = (base..next.len()).find(|&i| next[i] + 1 < limits[i]) {
                                            let mut q = sh.queue.lock().unwrap();
                                            if q.0.len() < threads {
                                                for j in next[i] + 1..limits[i] {
                                                    let mut p = next[..i].to_vec();
                                                    p.push(j);
                                                    q.0.push_back(p);
                                                }
                                                limits[i] = next[i] + 1;
                                                sh.cv.notify_all();
                                            }
                                        }
                                    }
                                    let mut i = next.len();
                                    let mut done = true;
                                    while i > base {
                                        i -= 1;
                                        if next[i] + 1 < limits[i] {
                                            next[i] += 1;
                                            next.truncate(i + 1);
                                            limits.truncate(i + 1);
                                            done = false;
                                            break;
                                        }
                                    }
                                    if done {
                                        break;
                                    }
                                    prefix = next;
                                }
                                let mut q = sh.queue.lock().unwrap();
                                q.1 -= 1;
                                if q.1 == 0 && q.0.is_empty() {
                                    sh.cv.notify_all();
                                }
                            }
                            BEATS[t].start_ms.store(0, SeqCst);
                            results.lock().unwrap().push((acc, v));
                        })
                        .unwrap();
                }
            });
            if sh.capped.load(SeqCst) {
                out.exhaustive = false;
            }
            for (a, v) in results.into_inner().unwrap() {
                merge(&mut out, a, &mut states);
                if let Some(v) = v {
                    if better(&viol, &v) {
                        viol = Some(v);
                    }
                }
            }
        }
        Kind::Bfs(ops, dq, dt, _) => {
            let depth = if o.thorough { *dt } else { *dq };
            let mut seen = HashSet64::default();
            let mut frontier: Vec<Vec<u32>> = vec![vec![]];
            {
                let mut acc = Acc::default();
                let run = run_one(fam, &[], &mut acc.states, o.thorough, true, &o.known);
                match &run.result {
                    Ok(h) => {
                        seen.insert(*h);
                    }
                    Err(_) => {}
                }
                if let Some(f) = acc.add(run, true) {
                    viol = Some((vec![], f));
                }
                merge(&mut out, acc, &mut states);
            }
            let mut d = 0;
            while viol.is_none() && !frontier.is_empty() && d < depth {
                d += 1;
                let next_idx = AtomicUsize::new(0);
                let stop = AtomicBool::new(false);
                let capped = AtomicBool::new(false);
                let newf: Mutex<Vec<(u64, Vec<u32>)>> = Mutex::new(vec![]);
                let results: Mutex<Vec<(Acc, Option<(Vec<u32>, Fail)>)>> = Mutex::new(vec![]);
                std::thread::scope(|s| {
                    for t in 0..threads {
                        let (frontier, seen, next_idx, stop, capped, newf, results) =
                            (&frontier, &seen, &next_idx, &stop, &capped, &newf, &results);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || {
                                let mut acc = Acc::default();
                                let mut v = None;
                                let mut local: Vec<(u64, Vec<u32>)> = vec![];
                                let mut lseen = HashSet64::default();
                                'o: loop {
                                    let i = next_idx.fetch_add(1, SeqCst);
                                    if i >= frontier.len() || stop.load(SeqCst) {
                                        break;
                                    }
                                    if Instant::now() > deadline {
                                        capped.store(true, SeqCst);
                                        break;
                                    }
                                    for op in 0..*ops {
                                        let mut h = frontier[i].clone();
                                        h.push(op as u32);
                                        journal(o, t, idx, &h);
                                        BEATS[t].start_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                        let note = i == frontier.len() / 2 && op % 7 == 0;
                                        let run = run_one(fam, &h, &mut acc.states, o.thorough, note, &o.known);
                                        BEATS[t].start_ms.store(0, SeqCst);
                                        let st = run.result.as_ref().ok().copied();
                                        if let Some(f) = acc.add(run, note) {
                                            v = Some((h, f));
                                            stop.store(true, SeqCst);
                                            break 'o;
                                        }
                                        let st = st.unwrap();
                                        if !seen.contains(&st) && lseen.insert(st) {
                                            local.push((st, h));
                                        }
                                    }
                                }
                                newf.lock().unwrap().extend(local);
                                results.lock().unwrap().push((acc, v));
                            })
                            .unwrap();
                    }
                });
                for (a, v) in results.into_inner().unwrap() {
                    merge(&mut out, a, &mut states);
                    if let Some(v) = v {
                        if better(&viol, &v) {
                            viol = Some(v);
                        }
                    }
                }
                if capped.load(SeqCst) {
                    out.exhaustive = false;
                    break;
                }
                let mut nf = newf.into_inner().unwrap();
                nf.sort_by(|a, b| a.1.cmp(&b.1));
                frontier.clear();
                for (st, h) in nf {
                    if seen.insert(st) {
                        frontier.push(h);
                    }
                }
            }
            for s in seen {
                states.insert(s);
            }
        }
    }
    out.states = states.len() as u64;
    out.wall = start.elapsed().as_secs_f64();
    if let Some((trace, f)) = viol {
        if f.engine {
            out.engine_error = Some(format!("{} (choices {:?})", f.msg, trace));
        } else {
            // the recorded choices are replayed before the failure is trusted
            let mut st = HashSet64::default();
            let mut reproduced = false;
            let tries = 10;
            for _ in 0..tries {
                let again = run_one(fam, &trace, &mut st, o.thorough, false, &o.known);
                if matches!(&again.result, Err(g) if !g.engine) {
                    reproduced = true;
                    break;
                }
            }
            // What was observed stands: the crate then keeps something from one call to the next.
            let once = if reproduced { "" } else { " (depends on timing or on what was called before: not seen again when run alone)" };
            {
                let mut st = HashSet64::default();
                let again = run_one(fam, &trace, &mut st, o.thorough, true, &o.known);
                let note = again.note.unwrap_or_default();
                let key = f.key.map(|k| format!(" [finding key: {k}]")).unwrap_or_default();
                out.violation = Some((trace, format!("{}{once}{key} | case: {}", f.msg, note)));
            }
        }
    }
    out.samples.truncate(8);
    out
}
fn merge(out: &mut FamilyResult, a: Acc, states: &mut HashSet64) {
    out.executions += a.res.executions;
    out.steps += a.res.steps;
    out.validated += a.res.validated;
    out.max_depth = out.max_depth.max(a.res.max_depth);
    out.samples.extend(a.res.samples);
    for (k, (n, m)) in a.res.knowns {
        let e = out.knowns.entry(k).or_insert((0, m));
        e.0 += n;
    }
    states.extend(a.states);
}
