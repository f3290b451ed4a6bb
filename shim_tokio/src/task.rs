use crate::ctl;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Debug)]
pub struct JoinError {
    msg: String,
    cancelled: bool,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
        Box::new(self.msg)
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task panicked: {}", self.msg)
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::other(e.to_string())
    }
}
struct Slot<T> {
    value: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T>(Arc<Mutex<Slot<T>>>);
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        lock(&self.0).done
    }
    /// Tasks of the exploration always run to their end.
    pub fn abort(&self) {}
}
fn lock<T>(m: &Mutex<Slot<T>>) -> std::sync::MutexGuard<'_, Slot<T>> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !ctl::in_executor() {
            ctl::block_while(|w| {
                let mut s = lock(&self.0);
                s.waker = Some(w.clone());
                !s.done
            });
        }
        ctl::quiet(|| {
            let mut s = lock(&self.0);
            if s.done {
                Poll::Ready(s.value.take().expect("JoinHandle polled after completion"))
            } else {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
fn text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
pub(crate) fn launch<T: Send + 'static>(work: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    let slot = ctl::quiet(|| Arc::new(Mutex::new(Slot { value: None, done: false, waker: None })));
    let mine = slot.clone();
    let body = move || {
        let r = catch_unwind(AssertUnwindSafe(work));
        ctl::quiet(|| {
            let w = {
                let mut s = lock(&mine);
                s.value = Some(r.map_err(|e| JoinError { msg: text(e), cancelled: false }));
                s.done = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        });
    };
    let body: Box<dyn FnOnce() + Send> = ctl::quiet(|| Box::new(body) as Box<dyn FnOnce() + Send>);
    if let Err(body) = ctl::start_task(body) {
        let d = ctl::INSIDE.replace(1);
        body();
        ctl::INSIDE.set(d);
    }
    JoinHandle(slot)
}
pub(crate) fn launch_future<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    launch(move || ctl::block_on(f))
}
/// Like tokio's: needs a runtime around it.
#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    if ctl::INSIDE.get() == 0 {
        panic!("there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    }
    launch_future(f)
}
#[track_caller]
pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if ctl::INSIDE.get() == 0 {
        panic!("there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    }
    launch(f)
}
pub fn block_in_place<F: FnOnce() -> T, T>(f: F) -> T {
    let d = ctl::INSIDE.replace(0);
    let r = f();
    ctl::INSIDE.set(d);
    r
}
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            ctl::point(ctl::Point::Spawn);
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
/// Results in the order in which the tasks end.
pub struct JoinSet<T>(Vec<JoinHandle<T>>);
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet(vec![])
    }
    #[track_caller]
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) {
        self.0.push(spawn(f));
    }
    pub fn spawn_on<F: Future<Output = T> + Send + 'static>(&mut self, f: F, h: &crate::runtime::Handle) {
        self.0.push(h.spawn(f));
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.0.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.0.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.0[i]).poll(cx) {
                    self.0.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
