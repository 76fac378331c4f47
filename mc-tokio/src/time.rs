//! Time: a clock that advances only when the harness says so.

use crate::mc;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub use std::time::Duration;

#[derive(Default)]
pub(crate) struct Clock {
    now: Duration,
    sleepers: Vec<(Duration, Waker)>,
}

fn clock() -> &'static mut Clock {
    &mut mc::rt().expect("outside of an execution").clock
}

/// Lets time pass.
pub fn pass(d: Duration) {
    mc::uncounted(|| {
        let c = clock();
        c.now += d;
        let now = c.now;
        let due: Vec<Waker> = {
            let (due, rest) = std::mem::take(&mut c.sleepers).into_iter().partition(|s| s.0 <= now);
            c.sleepers = rest;
            let due: Vec<(Duration, Waker)> = due;
            due.into_iter().map(|d| d.1).collect()
        };
        for w in due {
            w.wake();
        }
    });
    mc::point("clock");
}

/// How many sleeps are in progress?
pub fn sleepers() -> usize {
    clock().sleepers.len()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant {
        Instant(clock().now)
    }
    pub fn elapsed(&self) -> Duration {
        clock().now.saturating_sub(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl std::ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Debug)]
pub struct Sleep(Instant);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.0
    }
    pub fn is_elapsed(&self) -> bool {
        clock().now >= self.0 .0
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.0 = at;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let c = clock();
        if c.now >= self.0 .0 {
            return Poll::Ready(());
        }
        mc::uncounted(|| c.sleepers.push((self.0 .0, cx.waker().clone())));
        Poll::Pending
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep(Instant::now() + d)
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep(at)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: start, period, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let at = self.next;
        self.next = match self.missed {
            MissedTickBehavior::Burst => at + self.period,
            _ => Instant::now() + self.period,
        };
        at
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    let mut s = Box::pin(sleep(d));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        s.as_mut().poll(cx).map(|_| Err(error::Elapsed(())))
    })
    .await
}
