use crate::sim::{sim, Timer};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant {
        Instant(sim().now)
    }
    pub fn elapsed(&self) -> Duration {
        sim().now.saturating_sub(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl std::ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}
impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}

#[derive(Debug)]
pub struct Sleep {
    at: Duration,
    id: Option<u64>,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        sim().now >= self.at
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        if let Some(id) = self.id.take() {
            sim().timers.retain(|t| t.id != id);
        }
        self.at = at.0;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let s = sim();
        if s.now >= self.at {
            return Poll::Ready(());
        }
        if let Some(id) = self.id {
            if let Some(t) = s.timers.iter_mut().find(|t| t.id == id) {
                t.waker = cx.waker().clone();
                return Poll::Pending;
            }
        }
        let id = s.next_timer;
        s.next_timer += 1;
        s.timers.push(Timer { id, at: self.at, waker: cx.waker().clone() });
        self.id = Some(id);
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            sim().timers.retain(|t| t.id != id);
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    let now = sim().now;
    Sleep { at: now.checked_add(d).unwrap_or(Duration::MAX), id: None }
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep { at: i.0, id: None }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}
pub struct Timeout<F> {
    f: F,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut me.s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep(d) }
}
pub fn timeout_at<F: std::future::IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep_until(i) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    period: Duration,
    s: Pin<Box<Sleep>>,
    m: MissedTickBehavior,
}
pub fn interval(d: Duration) -> Interval {
    interval_at(Instant::now(), d)
}
pub fn interval_at(i: Instant, d: Duration) -> Interval {
    Interval { period: d, s: Box::pin(sleep_until(i)), m: MissedTickBehavior::Burst }
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.m = m;
    }
    pub fn reset(&mut self) {
        let at = Instant::now() + self.period;
        self.s.as_mut().reset(at);
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.s.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let d = self.s.deadline();
                let next = match self.m {
                    MissedTickBehavior::Burst => d + self.period,
                    _ => Instant::now() + self.period,
                };
                self.s.as_mut().reset(next);
                Poll::Ready(d)
            }
        }
    }
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
}
