use crate::ctl;
use crate::task::{launch, launch_future, JoinHandle};
use std::future::Future;
use std::io::Result;

/// Has no state of its own: tasks belong to the exploration that is running.
#[derive(Debug)]
pub struct Runtime(Handle);
#[derive(Debug, Clone)]
pub struct Handle(());
#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
}
impl std::error::Error for TryCurrentError {}
pub struct EnterGuard<'a>(u32, std::marker::PhantomData<&'a ()>);
impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        ctl::INSIDE.set(self.0);
    }
}
impl Runtime {
    pub fn new() -> Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
    #[track_caller]
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        self.0.block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        launch_future(f)
    }
    pub fn spawn_blocking<F, T>(&self, f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        launch(f)
    }
    pub fn handle(&self) -> &Handle {
        &self.0
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        self.0.enter()
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _d: std::time::Duration) {}
}
impl Handle {
    #[track_caller]
    pub fn current() -> Handle {
        Self::try_current().unwrap_or_else(|e| panic!("{e}"))
    }
    pub fn try_current() -> std::result::Result<Handle, TryCurrentError> {
        if ctl::INSIDE.get() > 0 { Ok(Handle(())) } else { Err(TryCurrentError(())) }
    }
    #[track_caller]
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        if ctl::INSIDE.get() > 0 {
            panic!("Cannot start a runtime from within a runtime.");
        }
        let _g = self.enter();
        ctl::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        launch_future(f)
    }
    pub fn spawn_blocking<F, T>(&self, f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        launch(f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(ctl::INSIDE.replace(1), std::marker::PhantomData)
    }
}
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder(())
    }
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> Result<Runtime> {
        Runtime::new()
    }
}
