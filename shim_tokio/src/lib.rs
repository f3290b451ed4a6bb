//! Stand-in for tokio under which a model checker decides every scheduling step.
//!
//! `ctl::run` starts a set of threads of which exactly one runs at a time.  Spawned tasks are threads of the
//! same set.  Whenever the running thread reaches a point (spawning a task, reading, writing, allocating, if
//! enabled), blocks or ends, the explorer is asked which thread goes on.  Outside of `ctl::run` tasks run at
//! once, on the spot.
pub mod ctl;
pub mod runtime;
pub mod task;
pub use task::spawn;
