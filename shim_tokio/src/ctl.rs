use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Point {
    Spawn,
    Io,
    Alloc,
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// any thread may go on at a spawn, without using up the preemption budget
    pub spawn_free: bool,
    pub io: bool,
    pub alloc: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked,
    /// waits for something the scheduler does not know of (a lock of the library)
    Outside,
    Done,
}
struct Th {
    status: Status,
    woken: bool,
    handle: Option<Thread>,
    /// its directory under /proc
    proc_dir: String,
}
impl Th {
    /// Sleeping in the kernel: the running thread never does, unless it waits for a lock.
    fn asleep(&self) -> bool {
        match std::fs::read_to_string(format!("/proc/{}/stat", self.proc_dir)) {
            Ok(s) => s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S')),
            Err(_) => true,
        }
    }
}
/// (free, n) -> index of the chosen alternative; `free` choices are forced switches, others preemptions
type Chooser<'a> = dyn FnMut(bool, usize) -> usize + 'a;
struct St {
    th: Vec<Th>,
    cur: usize,
    chooser: *mut Chooser<'static>,
    beat: u64,
    dead: bool,
    points: u64,
    switches: u64,
    ended: usize,
    caller: Thread,
}
unsafe impl Send for St {}
pub struct Sched {
    st: Mutex<St>,
    cfg: Cfg,
    pool: Arc<Pool>,
}
pub struct Outcome {
    pub deadlock: bool,
    pub points: u64,
    pub switches: u64,
    pub threads: usize,
}
pub static STALLS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    /// how many runtimes this thread is inside of
    pub static INSIDE: Cell<u32> = const { Cell::new(0) };
}
fn guarded<T>(f: impl FnOnce() -> T) -> T {
    let g = GUARD.replace(true);
    let r = f();
    GUARD.set(g);
    r
}
pub fn controlled() -> bool {
    !CUR.get().is_null()
}
impl Sched {
    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn others(st: &St, me: usize) -> usize {
        st.th.iter().enumerate().filter(|(i, t)| *i != me && t.status == Status::Ready).count()
    }
    fn nth_other(st: &St, me: usize, n: usize) -> usize {
        st.th.iter().enumerate().filter(|(i, t)| *i != me && t.status == Status::Ready).nth(n).unwrap().0
    }
    fn pass(st: &mut St, to: usize) {
        st.cur = to;
        st.beat += 1;
        st.switches += 1;
        if let Some(h) = &st.th[to].handle {
            h.unpark();
        }
    }
    fn wait_turn(&self, me: usize) {
        let (mut seen, mut since) = (u64::MAX, Instant::now());
        loop {
            {
                let mut st = self.lock();
                if st.cur == me || st.dead {
                    st.beat += 1;
                    return;
                }
                if st.beat != seen {
                    (seen, since) = (st.beat, Instant::now());
                } else if since.elapsed() > Duration::from_millis(40) {
                    let cur = st.cur;
                    let first_waiting = st
                        .th
                        .iter()
                        .enumerate()
                        .position(|(i, t)| i != cur && t.status == Status::Ready && t.handle.is_some());
                    if cur != usize::MAX
                        && st.th[cur].status == Status::Ready
                        && first_waiting == Some(me)
                        && st.th[cur].asleep()
                    {
                        // the running thread waits for a lock that a waiting thread holds
                        st.th[cur].status = Status::Outside;
                        STALLS.fetch_add(1, SeqCst);
                        st.cur = me;
                        st.beat += 1;
                        return;
                    }
                }
            }
            std::thread::park_timeout(Duration::from_millis(25));
        }
    }
    /// Called by a thread that has just found itself overtaken.
    fn rejoin(&self, me: usize) -> bool {
        let mut st = self.lock();
        if st.cur != me && !st.dead {
            if st.th[me].status == Status::Outside {
                st.th[me].status = Status::Ready;
                if st.th[st.cur].status != Status::Ready {
                    Self::pass(&mut st, me);
                }
            }
            drop(st);
            self.wait_turn(me);
            return true;
        }
        false
    }
    fn point(&self, me: usize, kind: Point) {
        if self.rejoin(me) {
            return;
        }
        let mut st = self.lock();
        st.beat += 1;
        st.points += 1;
        if st.dead {
            return;
        }
        let n = Self::others(&st, me);
        if n == 0 {
            return;
        }
        let free = kind == Point::Spawn && self.cfg.spawn_free;
        let c = unsafe { (*st.chooser)(free, n + 1) };
        if c > 0 {
            let to = Self::nth_other(&st, me, c - 1);
            Self::pass(&mut st, to);
            drop(st);
            self.wait_turn(me);
        }
    }
    /// The current thread cannot go on: somebody else must.
    fn yield_forced(&self, st: &mut St, me: usize) {
        let n = Self::others(st, me);
        if n == 0 {
            if st.th.iter().any(|t| t.status == Status::Outside) {
                return; // they report back by themselves
            }
            if st.th.iter().any(|t| t.status == Status::Blocked) {
                st.dead = true;
                for t in &st.th {
                    if let Some(h) = &t.handle {
                        h.unpark();
                    }
                }
            }
            return;
        }
        let c = if n == 1 { 0 } else { unsafe { (*st.chooser)(true, n) } };
        let to = Self::nth_other(st, me, c);
        Self::pass(st, to);
    }
    fn block(&self, me: usize) {
        {
            let mut st = self.lock();
            if st.th[me].woken {
                st.th[me].woken = false;
                return;
            }
            st.th[me].status = Status::Blocked;
            self.yield_forced(&mut st, me);
        }
        self.wait_turn(me);
        let mut st = self.lock();
        st.th[me].woken = false;
        let dead = st.dead;
        if st.th[me].status == Status::Blocked {
            st.th[me].status = Status::Ready;
        }
        drop(st);
        if dead {
            panic!("deadlock: every thread waits for another one");
        }
    }
    fn wake(&self, who: usize) {
        let mut st = self.lock();
        st.th[who].woken = true;
        if st.th[who].status == Status::Blocked {
            st.th[who].status = Status::Ready;
            // nobody is running: go on with the woken thread
            let cur = st.cur;
            if st.th[cur].status != Status::Ready {
                Self::pass(&mut st, who);
            }
        }
    }
    fn finish(&self, me: usize) {
        self.rejoin(me);
        let mut st = self.lock();
        st.th[me].status = Status::Done;
        self.yield_forced(&mut st, me);
    }
}
/// A scheduling point of the current thread, if it is a controlled one.
#[inline]
pub fn point(kind: Point) {
    let p = CUR.get();
    if p.is_null() || GUARD.get() {
        return;
    }
    let s = unsafe { &*p };
    let on = match kind {
        Point::Spawn => true,
        Point::Io => s.cfg.io,
        Point::Alloc => s.cfg.alloc,
    };
    if on {
        guarded(|| s.point(ME.get(), kind));
    }
}
/// Runs `f` without scheduling points (for the harness's own work in a controlled thread).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    guarded(f)
}
type Job = Box<dyn FnOnce() + Send + 'static>;
/// Threads waiting for work; every exploring thread has its own set of them.
#[derive(Default)]
struct Pool(Mutex<Vec<Arc<Worker>>>);
struct Worker {
    job: Mutex<Option<Job>>,
    there: Condvar,
    thread: Mutex<Option<Thread>>,
    proc_dir: Mutex<String>,
}
impl Pool {
    /// An idle worker, or a new one.
    fn take(&self) -> Arc<Worker> {
        if let Some(w) = self.0.lock().unwrap_or_else(|e| e.into_inner()).pop() {
            return w;
        }
        let w = Arc::new(Worker {
            job: Mutex::new(None),
            there: Condvar::new(),
            thread: Mutex::new(None),
            proc_dir: Mutex::new(String::new()),
        });
        let mine = w.clone();
        let (tell, told) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                GUARD.set(true);
                let dir = std::fs::read_link("/proc/thread-self");
                *mine.proc_dir.lock().unwrap() = dir.map(|d| d.to_string_lossy().into_owned()).unwrap_or_default();
                *mine.thread.lock().unwrap() = Some(std::thread::current());
                let _ = tell.send(());
                loop {
                    let job = {
                        let mut j = mine.job.lock().unwrap();
                        loop {
                            match j.take() {
                                Some(job) => break job,
                                None => j = mine.there.wait(j).unwrap(),
                            }
                        }
                    };
                    job();
                }
            })
            .expect("a thread");
        let _ = told.recv();
        w
    }
    fn give_back(&self, w: Arc<Worker>) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push(w);
    }
}
thread_local! {
    static POOL: Arc<Pool> = Arc::default();
}
fn start(s: &Arc<Sched>, body: Job, inside: u32) -> usize {
    let w = s.pool.take();
    let id = {
        let mut st = s.lock();
        st.th.push(Th {
            status: Status::Ready,
            woken: false,
            handle: w.thread.lock().unwrap().clone(),
            proc_dir: w.proc_dir.lock().unwrap().clone(),
        });
        st.th.len() - 1
    };
    let (sched, me) = (s.clone(), w.clone());
    let job: Job = Box::new(move || {
        GUARD.set(true);
        CUR.set(Arc::as_ptr(&sched));
        ME.set(id);
        INSIDE.set(inside);
        sched.wait_turn(id);
        GUARD.set(false);
        let _ = catch_unwind(AssertUnwindSafe(body));
        GUARD.set(true);
        sched.finish(id);
        CUR.set(std::ptr::null());
        let mut st = sched.lock();
        st.ended += 1;
        if st.ended == st.th.len() {
            st.caller.unpark();
        }
        drop(st);
        sched.pool.give_back(me);
    });
    *w.job.lock().unwrap() = Some(job);
    w.there.notify_one();
    id
}
/// Starts a task as a thread of the running exploration; false when there is none.
pub(crate) fn start_task(body: Box<dyn FnOnce() + Send + 'static>) -> Result<(), Box<dyn FnOnce() + Send + 'static>> {
    let p = CUR.get();
    if p.is_null() {
        return Err(body);
    }
    guarded(|| {
        let s = unsafe {
            Arc::increment_strong_count(p);
            Arc::from_raw(p)
        };
        start(&s, body, 1);
    });
    point(Point::Spawn);
    Ok(())
}
/// Runs the threads under the given scheduling decisions, one at a time, until all have ended.
pub fn run<'a>(threads: Vec<Box<dyn FnOnce() + Send + 'a>>, cfg: Cfg, chooser: &mut Chooser<'a>) -> Outcome {
    let chooser: *mut Chooser<'a> = chooser;
    let chooser: *mut Chooser<'static> = unsafe { std::mem::transmute(chooser) };
    let s = Arc::new(Sched {
        st: Mutex::new(St {
            th: vec![],
            cur: usize::MAX,
            chooser,
            beat: 0,
            dead: false,
            points: 0,
            switches: 0,
            ended: 0,
            caller: std::thread::current(),
        }),
        cfg,
        pool: POOL.with(Clone::clone),
    });
    let n = threads.len();
    for t in threads {
        let t: Job = unsafe { std::mem::transmute(t) };
        start(&s, t, 0);
    }
    if n > 0 {
        let mut st = s.lock();
        let c = if n == 1 { 0 } else { unsafe { (*st.chooser)(true, n) } };
        Sched::pass(&mut st, c);
    }
    loop {
        {
            let st = s.lock();
            if st.ended == st.th.len() {
                break;
            }
        }
        std::thread::park();
    }
    let st = s.lock();
    Outcome { deadlock: st.dead, points: st.points, switches: st.switches, threads: st.th.len() }
}
struct ThreadWaker {
    sched: usize,
    who: usize,
}
impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        guarded(|| unsafe { &*(self.sched as *const Sched) }.wake(self.who));
    }
}
struct ParkWaker(Thread, AtomicBool);
impl Wake for ParkWaker {
    fn wake(self: Arc<Self>) {
        self.1.store(true, SeqCst);
        self.0.unpark();
    }
}
thread_local! {
    static IN_EXECUTOR: Cell<u32> = const { Cell::new(0) };
}
/// True when the current thread polls from `block_on` of this crate.
pub(crate) fn in_executor() -> bool {
    IN_EXECUTOR.get() > 0
}
struct InExecutor;
impl InExecutor {
    fn enter() -> Self {
        IN_EXECUTOR.set(IN_EXECUTOR.get() + 1);
        InExecutor
    }
}
impl Drop for InExecutor {
    fn drop(&mut self) {
        IN_EXECUTOR.set(IN_EXECUTOR.get() - 1);
    }
}
/// An executor outside of any runtime.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let _in = InExecutor::enter();
    let mut f = pin!(f);
    let p = CUR.get();
    if p.is_null() {
        let w = Arc::new(ParkWaker(std::thread::current(), AtomicBool::new(false)));
        let waker: Waker = w.clone().into();
        loop {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                return r;
            }
            while !w.1.swap(false, SeqCst) {
                std::thread::park();
            }
        }
    }
    let s = unsafe { &*p };
    let waker: Waker = guarded(|| Arc::new(ThreadWaker { sched: p as usize, who: ME.get() }).into());
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return r;
        }
        guarded_block(s);
    }
}
/// Wakes the thread that made it, and remembers having done so.
pub struct Flag {
    woken: AtomicBool,
    thread: Option<ThreadWaker>,
    outside: Thread,
}
impl Flag {
    /// Set to begin with, as a new future may be polled.
    pub fn new() -> Arc<Flag> {
        guarded(|| {
            let p = CUR.get();
            let thread = (!p.is_null()).then(|| ThreadWaker { sched: p as usize, who: ME.get() });
            Arc::new(Flag { woken: AtomicBool::new(true), thread, outside: std::thread::current() })
        })
    }
    pub fn is_set(&self) -> bool {
        self.woken.load(SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, SeqCst);
        match &self.thread {
            Some(t) => guarded(|| unsafe { &*(t.sched as *const Sched) }.wake(t.who)),
            None => self.outside.unpark(),
        }
    }
}
/// Polls once, as an executor outside of any runtime.
pub fn poll_once<F: Future + ?Sized>(f: std::pin::Pin<&mut F>, flag: &Arc<Flag>) -> Poll<F::Output> {
    flag.woken.store(false, SeqCst);
    let waker: Waker = guarded(|| flag.clone().into());
    let _in = InExecutor::enter();
    f.poll(&mut Context::from_waker(&waker))
}
/// Lets others go on until a waker of this thread is used.
pub fn wait() {
    let p = CUR.get();
    if p.is_null() {
        std::thread::park();
    } else {
        guarded_block(unsafe { &*p });
    }
}
fn guarded_block(s: &Sched) {
    let g = GUARD.replace(true);
    let r = catch_unwind(AssertUnwindSafe(|| s.block(ME.get())));
    GUARD.set(g);
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}
/// Blocks until `ready` holds, for polls made by an executor this crate does not know.
pub(crate) fn block_while(mut waiting: impl FnMut(&Waker) -> bool) {
    let p = CUR.get();
    if p.is_null() {
        let w = Arc::new(ParkWaker(std::thread::current(), AtomicBool::new(false)));
        let waker: Waker = w.clone().into();
        while waiting(&waker) {
            while !w.1.swap(false, SeqCst) {
                std::thread::park();
            }
        }
        return;
    }
    let s = unsafe { &*p };
    let waker: Waker = guarded(|| Arc::new(ThreadWaker { sched: p as usize, who: ME.get() }).into());
    while waiting(&waker) {
        guarded_block(s);
    }
}
