//! Stand-in for governor: the generic cell rate algorithm for direct limiters.
use std::marker::PhantomData;
use std::num::NonZeroU32;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod clock {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct DefaultClock;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct MonotonicClock;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct QuantaClock;
    pub trait Clock {}
    impl Clock for DefaultClock {}
    impl Clock for MonotonicClock {}
    impl Clock for QuantaClock {}
}
pub mod state {
    pub use direct::NotKeyed;
    pub mod direct {
        #[derive(Clone, Debug)]
        pub enum NotKeyed {}
    }
    #[derive(Debug, Default)]
    pub struct InMemoryState;
}
pub mod middleware {
    #[derive(Debug)]
    pub struct NoOpMiddleware;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Quota {
    burst: NonZeroU32,
    per_cell: Duration,
}
const fn every(secs: u64, n: NonZeroU32) -> Quota {
    Quota { burst: n, per_cell: Duration::from_nanos(secs * 1_000_000_000 / n.get() as u64) }
}
impl Quota {
    pub const fn per_second(burst: NonZeroU32) -> Self {
        every(1, burst)
    }
    pub const fn per_minute(burst: NonZeroU32) -> Self {
        every(60, burst)
    }
    pub const fn per_hour(burst: NonZeroU32) -> Self {
        every(3600, burst)
    }
    pub const fn with_period(per_cell: Duration) -> Option<Self> {
        if per_cell.is_zero() {
            return None;
        }
        Some(Self { burst: NonZeroU32::MIN, per_cell })
    }
    pub const fn allow_burst(self, burst: NonZeroU32) -> Self {
        Self { burst, ..self }
    }
    pub const fn burst_size(&self) -> NonZeroU32 {
        self.burst
    }
    pub const fn replenish_interval(&self) -> Duration {
        self.per_cell
    }
    pub const fn burst_size_replenished_in(&self) -> Duration {
        Duration::from_nanos(self.per_cell.as_nanos() as u64 * self.burst.get() as u64)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Jitter {
    min: Duration,
    interval: Duration,
}
impl Jitter {
    pub const fn new(min: Duration, interval: Duration) -> Self {
        Self { min, interval }
    }
    pub const fn up_to(interval: Duration) -> Self {
        Self::new(Duration::ZERO, interval)
    }
}
/// Not now, but at this time.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NotUntil(Instant);
impl NotUntil {
    pub fn wait_time_from(&self, now: Instant) -> Duration {
        self.0.saturating_duration_since(now)
    }
}
impl std::fmt::Display for NotUntil {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "rate-limited until {:?}", self.0)
    }
}
impl std::error::Error for NotUntil {}
/// More at once than there ever will be room for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InsufficientCapacity(pub u32);
impl std::fmt::Display for InsufficientCapacity {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "required number of cells exceeds {}", self.0)
    }
}
impl std::error::Error for InsufficientCapacity {}

#[derive(Debug)]
pub struct RateLimiter<K, S, C, MW = middleware::NoOpMiddleware> {
    quota: Quota,
    /// theoretical arrival time of the next cell
    tat: Mutex<Option<Instant>>,
    _p: PhantomData<fn() -> (K, S, C, MW)>,
}
pub type DefaultDirectRateLimiter = RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock>;

impl RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock> {
    pub fn direct(quota: Quota) -> Self {
        Self { quota, tat: Mutex::new(None), _p: PhantomData }
    }
}
impl<C: clock::Clock> RateLimiter<state::NotKeyed, state::InMemoryState, C> {
    pub fn direct_with_clock(quota: Quota, _: C) -> Self {
        Self { quota, tat: Mutex::new(None), _p: PhantomData }
    }
    pub fn check(&self) -> Result<(), NotUntil> {
        self.check_n(NonZeroU32::MIN).unwrap()
    }
    pub fn check_n(&self, n: NonZeroU32) -> Result<Result<(), NotUntil>, InsufficientCapacity> {
        let burst = self.quota.burst.get();
        let room = self.quota.per_cell * burst.checked_sub(n.get()).ok_or(InsufficientCapacity(burst))?;
        let mut tat = self.tat.lock().unwrap();
        let now = Instant::now();
        let t = tat.map_or(now, |t| t.max(now));
        if t - now > room {
            return Ok(Err(NotUntil(t - room)));
        }
        *tat = Some(t + self.quota.per_cell * n.get());
        Ok(Ok(()))
    }
    pub async fn until_ready(&self) {
        self.until_ready_with_jitter(Jitter::default()).await
    }
    pub async fn until_ready_with_jitter(&self, jitter: Jitter) {
        self.until_n_ready_with_jitter(NonZeroU32::MIN, jitter).await.unwrap()
    }
    pub async fn until_n_ready(&self, n: NonZeroU32) -> Result<(), InsufficientCapacity> {
        self.until_n_ready_with_jitter(n, Jitter::default()).await
    }
    pub async fn until_n_ready_with_jitter(&self, n: NonZeroU32, jitter: Jitter) -> Result<(), InsufficientCapacity> {
        while let Err(until) = self.check_n(n)? {
            tokio::time::sleep(until.wait_time_from(Instant::now()) + jitter.min + jitter.interval / 2).await;
        }
        Ok(())
    }
}
