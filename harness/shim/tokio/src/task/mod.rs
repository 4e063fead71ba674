//! Simulated tasks (see `crate::sim`).
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// Why a task has no result.
pub struct JoinError(pub(crate) ());
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError::Cancelled")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cancelled")
    }
}
impl std::error::Error for JoinError {}
impl JoinError {
    /// aborted
    pub fn is_cancelled(&self) -> bool {
        true
    }
    /// panics end the simulation instead
    pub fn is_panic(&self) -> bool {
        false
    }
}

pub(crate) struct JoinState<T> {
    pub(crate) value: Option<Result<T, JoinError>>,
    pub(crate) done: bool,
    pub(crate) waker: Option<Waker>,
}

/// Handle of a simulated task.
pub struct JoinHandle<T> {
    pub(crate) state: Arc<Mutex<JoinState<T>>>,
    pub(crate) id: usize,
}
impl<T> JoinHandle<T> {
    /// cancel the task
    pub fn abort(&self) {
        crate::sim::abort(self.id);
        finish(&self.state, Err(JoinError(())));
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.state.lock().unwrap();
        if s.done {
            match s.value.take() {
                Some(v) => Poll::Ready(v),
                None => panic!("JoinHandle polled after completion"),
            }
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
fn finish<T>(state: &Arc<Mutex<JoinState<T>>>, v: Result<T, JoinError>) {
    let w = {
        let mut s = state.lock().unwrap();
        if s.done {
            return;
        }
        s.done = true;
        s.value = Some(v);
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

/// Start a simulated task.
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let state = Arc::new(Mutex::new(JoinState { value: None, done: false, waker: None }));
    let s2 = state.clone();
    let id = crate::sim::add(Box::pin(async move {
        let v = f.await;
        finish(&s2, Ok(v));
    }));
    JoinHandle { state, id }
}
/// Runs the closure at once.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}
/// Lets the other tasks run first.
pub async fn yield_now() {
    crate::sim::yield_once().await
}
