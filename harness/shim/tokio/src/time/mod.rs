//! Simulated time.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

/// A point in simulated time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    /// now
    pub fn now() -> Instant {
        Instant(crate::sim::now())
    }
    /// time since then
    pub fn elapsed(&self) -> Duration {
        crate::sim::now() - self.0
    }
    /// difference
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0 - o.0
    }
    /// difference, if not negative
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    /// difference, or zero
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    /// later
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    /// earlier
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl std::ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0 - o.0
    }
}
/// Completes when simulated time has reached the deadline.
#[derive(Debug)]
pub struct Sleep {
    at: Duration,
}
impl Sleep {
    /// deadline
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    /// completed?
    pub fn is_elapsed(&self) -> bool {
        crate::sim::now() >= self.at
    }
    /// new deadline
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.at = at.0;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if crate::sim::now() >= self.at {
            return Poll::Ready(());
        }
        crate::sim::timer(self.at, cx.waker().clone());
        Poll::Pending
    }
}
/// sleep
pub fn sleep(d: Duration) -> Sleep {
    Sleep { at: crate::sim::now().saturating_add(d) }
}
/// sleep until
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep { at: i.0 }
}
/// Errors
pub mod error {
    /// The deadline passed.
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
/// Future with a deadline
#[derive(Debug)]
pub struct Timeout<F> {
    f: Pin<Box<F>>,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
/// timeout
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: sleep(d) }
}
/// timeout
pub fn timeout_at<F: Future>(at: Instant, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: sleep_until(at) }
}
/// What an interval does about ticks it missed.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    /// as fast as possible
    Burst,
    /// a whole period later
    Delay,
    /// at the next multiple
    Skip,
}
impl Default for MissedTickBehavior {
    fn default() -> Self {
        MissedTickBehavior::Burst
    }
}
/// Ticks
#[derive(Debug)]
pub struct Interval {
    s: Sleep,
    period: Duration,
    missed: MissedTickBehavior,
}
impl Interval {
    /// the next tick
    pub async fn tick(&mut self) -> Instant {
        crate::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    /// the next tick
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let at = self.s.at;
                let now = crate::sim::now();
                let mut next = at + self.period;
                if next < now {
                    match self.missed {
                        MissedTickBehavior::Burst => (),
                        MissedTickBehavior::Delay => next = now + self.period,
                        MissedTickBehavior::Skip => {
                            while next <= now {
                                next += self.period;
                            }
                        }
                    }
                }
                self.s.at = next;
                Poll::Ready(Instant(at))
            }
        }
    }
    /// start over
    pub fn reset(&mut self) {
        self.s.at = crate::sim::now() + self.period;
    }
    /// behaviour
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    /// behaviour
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
    /// period
    pub fn period(&self) -> Duration {
        self.period
    }
}
/// ticks, the first at once
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
/// ticks
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { s: sleep_until(start), period, missed: MissedTickBehavior::Burst }
}
