//! Deterministic single-threaded executor. Everything a real runtime leaves open is asked for:
//! which ready task runs next, which branch of `select!` is polled first and whether another task
//! runs before a lock is taken. A run may depart from the default order (first ready first) at
//! most `budget` times (delay-bounded scheduling); every departure is an input of the harness.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
struct Flag {
    id: usize,
    queued: AtomicBool,
    done: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        if !self.done.load(Ordering::Relaxed) && !self.queued.swap(true, Ordering::Relaxed) {
            sim().queue.push_back(self.id);
        }
    }
}
struct Slot {
    fut: Option<Task>,
    flag: Arc<Flag>,
}
struct Sim {
    tasks: Vec<Slot>,
    queue: VecDeque<usize>,
    budget: usize,
    polls: u64,
    now: Duration,
    timers: Vec<(Duration, Waker)>,
}
static mut SIM: Option<Sim> = None;
#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe {
        if SIM.is_none() {
            SIM = Some(Sim {
                tasks: Vec::new(),
                queue: VecDeque::new(),
                budget: 0,
                polls: 0,
                now: Duration::from_secs(1_000_000),
                timers: Vec::new(),
            });
        }
        SIM.as_mut().unwrap()
    }
}
pub(crate) fn add(fut: Task) -> usize {
    let s = sim();
    let id = s.tasks.len();
    s.tasks.push(Slot { fut: Some(fut), flag: Arc::new(Flag { id, queued: AtomicBool::new(true), done: AtomicBool::new(false) }) });
    s.queue.push_back(id);
    id
}
pub(crate) fn abort(id: usize) {
    let s = sim();
    s.tasks[id].flag.done.store(true, Ordering::Relaxed);
    s.queue.retain(|x| *x != id);
    let f = s.tasks[id].fut.take();
    drop(f);
}
/// How many departures from the default order may still happen.
pub fn set_budget(n: usize) {
    sim().budget = n;
}
/// One of n alternatives; 0 is the default.
pub(crate) fn choose(n: usize) -> usize {
    let s = sim();
    if n < 2 || s.budget == 0 {
        return 0;
    }
    let k = rt::pick(n.min(s.budget + 1));
    s.budget -= k;
    k
}
/// a branch of n to start from; any but the first costs one departure
pub(crate) fn choose_branch(n: usize) -> usize {
    let s = sim();
    if n < 2 || s.budget == 0 {
        return 0;
    }
    let k = rt::pick(n);
    if k > 0 {
        s.budget -= 1;
    }
    k
}
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub(crate) async fn yield_once() {
    Yield(false).await
}
/// Another task may run before what follows (a lock is taken).
pub(crate) async fn preempt() {
    if sim().budget > 0 && choose(2) == 1 {
        Yield(false).await
    }
}
fn poll_task(id: usize) {
    let (mut fut, flag) = {
        let t = &mut sim().tasks[id];
        t.flag.queued.store(false, Ordering::Relaxed);
        match t.fut.take() {
            Some(f) => (f, t.flag.clone()),
            None => return,
        }
    };
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    match fut.as_mut().poll(&mut cx) {
        Poll::Ready(()) => {
            flag.done.store(true, Ordering::Relaxed);
            drop(fut);
        }
        Poll::Pending => {
            if flag.done.load(Ordering::Relaxed) {
                drop(fut); // aborted itself
            } else {
                sim().tasks[id].fut = Some(fut);
            }
        }
    }
}
/// Run ready tasks until there are none. False: `max` polls were not enough (a task never rests).
pub fn run(max: u64) -> bool {
    let mut n = 0;
    loop {
        let len = sim().queue.len();
        if len == 0 {
            return true;
        }
        if n == max {
            return false;
        }
        n += 1;
        sim().polls += 1;
        let k = choose(len);
        let id = sim().queue.remove(k).unwrap();
        poll_task(id);
    }
}
/// Run `f` with the tasks until it is done. None: everything rests and `f` is not done, or `max` polls passed.
pub fn block_on<F: Future>(f: F, max: u64) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag { id: usize::MAX, queued: AtomicBool::new(true), done: AtomicBool::new(false) });
    sim().queue.push_back(usize::MAX);
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut n = 0;
    loop {
        let len = sim().queue.len();
        if len == 0 || n == max {
            flag.done.store(true, Ordering::Relaxed);
            sim().queue.retain(|x| *x != usize::MAX);
            return None;
        }
        n += 1;
        let k = choose(len);
        let id = sim().queue.remove(k).unwrap();
        if id == usize::MAX {
            flag.queued.store(false, Ordering::Relaxed);
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                flag.done.store(true, Ordering::Relaxed);
                return Some(v);
            }
        } else {
            poll_task(id);
        }
    }
}
/// Tasks that have not finished.
pub fn live() -> usize {
    sim().tasks.iter().filter(|t| !t.flag.done.load(Ordering::Relaxed)).count()
}
pub(crate) fn now() -> Duration {
    sim().now
}
pub(crate) fn timer(at: Duration, w: Waker) {
    sim().timers.push((at, w));
}
/// Time until the next timer.
pub fn next_timer() -> Option<Duration> {
    let s = sim();
    s.timers.iter().map(|t| t.0).min().map(|t| t.saturating_sub(s.now))
}
/// simulated time
pub fn clock() -> Duration {
    sim().now
}
/// Let simulated time pass.
pub fn advance(d: Duration) {
    let s = sim();
    s.now += d;
    let now = s.now;
    let mut due = Vec::new();
    let mut i = 0;
    while i < s.timers.len() {
        if s.timers[i].0 <= now {
            due.push(s.timers.swap_remove(i).1);
        } else {
            i += 1;
        }
    }
    for w in due {
        w.wake();
    }
}
