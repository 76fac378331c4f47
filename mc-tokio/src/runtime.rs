//! Runtimes. There is only one, the controlled scheduler.

use crate::task::JoinHandle;
use std::future::Future;

/// What `#[tokio::main]` does with the body of main(). When it returns, all tasks are cancelled, as
/// when a runtime is dropped.
pub fn run_main<F: Future>(f: F) -> F::Output {
    let r = block_on(f);
    crate::mc::cancel_tasks();
    r
}

fn block_on<F: Future>(f: F) -> F::Output {
    match crate::mc::block_on(f) {
        Some(r) => r,
        //the execution is being taken down
        None => std::panic::resume_unwind(Box::new("taken down")),
    }
}

#[derive(Clone, Debug)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard(())
    }
}
#[derive(Debug)]
pub struct EnterGuard(());
#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("no runtime")
    }
}
impl std::error::Error for TryCurrentError {}

#[derive(Debug)]
pub struct Runtime(Handle);
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
    pub fn handle(&self) -> &Handle {
        &self.0
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.0.spawn(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard(())
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _: std::time::Duration) {}
}
impl Drop for Runtime {
    fn drop(&mut self) {
        crate::mc::cancel_tasks()
    }
}

#[derive(Debug)]
pub struct Builder(());
impl Builder {
    pub fn new_current_thread() -> Builder {
        Builder(())
    }
    pub fn new_multi_thread() -> Builder {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        Runtime::new()
    }
}
