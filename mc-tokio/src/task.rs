//! Tasks.

use crate::mc;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub use real::task::{yield_now, Id};

#[derive(Debug)]
pub struct JoinError(bool);
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.0
    }
    pub fn is_panic(&self) -> bool {
        !self.0
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.0 { "task was cancelled" } else { "task panicked" })
    }
}
impl std::error::Error for JoinError {}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waiter: Option<Waker>,
}

pub struct JoinHandle<T> {
    shared: Arc<Mutex<Shared<T>>>,
    abort: AbortHandle,
}
#[derive(Clone)]
pub struct AbortHandle {
    flag: Arc<AtomicBool>,
    done: Arc<AtomicBool>,
    waker: Waker,
}
impl AbortHandle {
    pub fn abort(&self) {
        mc::point("abort");
        self.flag.store(true, SeqCst);
        self.waker.wake_by_ref();
    }
    pub fn is_finished(&self) -> bool {
        self.done.load(SeqCst)
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.abort.abort()
    }
    pub fn abort_handle(&self) -> AbortHandle {
        self.abort.clone()
    }
    pub fn is_finished(&self) -> bool {
        self.shared.lock().unwrap().done
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl std::fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("AbortHandle")
    }
}
impl<T> std::fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JoinSet")
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.lock().unwrap();
        match s.result.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.waiter = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// Completes the handle also when the task panics.
struct Finish<T>(Arc<Mutex<Shared<T>>>, Arc<AtomicBool>);
impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
        self.1.store(true, SeqCst);
        let w = {
            let mut s = self.0.lock().unwrap();
            s.done = true;
            if s.result.is_none() {
                s.result = Some(Err(JoinError(!std::thread::panicking())));
            }
            s.waiter.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    mc::uncounted(|| spawn_inner(future))
}

/// (On a thread of its own.)
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

fn spawn_inner<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let shared = Arc::new(Mutex::new(Shared { result: None, done: false, waiter: None }));
    let (flag, done) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let fin = Finish(shared.clone(), done.clone());
    let waker = mc::spawn_task(
        future,
        move |r| {
            if let Some(v) = r {
                fin.0.lock().unwrap().result = Some(Ok(v));
            }
            drop(fin);
        },
        flag.clone(),
    );
    JoinHandle { shared, abort: AbortHandle { flag, done, waker } }
}

/// As much of tokio's JoinSet as one is likely to use.
pub struct JoinSet<T>(Vec<JoinHandle<T>>);
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet(vec![])
    }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle {
        let h = spawn(f);
        let a = h.abort_handle();
        self.0.push(h);
        a
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn abort_all(&mut self) {
        for h in &self.0 {
            h.abort();
        }
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.0.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.0.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.0[i]).poll(cx) {
                self.0.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = vec![];
        while let Some(r) = self.join_next().await {
            v.push(r.unwrap());
        }
        v
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.0 {
            h.abort();
        }
    }
}
