//! Drop-in for `web-time` whose `Instant` reads a per-thread virtual clock that only moves when
//! the verification harness calls [`verif_advance`].
pub use std::time::{Duration, SystemTime, SystemTimeError, TryFromFloatSecsError, UNIX_EPOCH};
use std::cell::Cell;
use std::ops::{Add, AddAssign, Sub, SubAssign};

const BASE: Duration = Duration::from_secs(1_000_000);
thread_local!(static NOW: Cell<Duration> = const { Cell::new(BASE) });

/// Reset this thread's clock to its origin.
pub fn verif_reset() { NOW.with(|n| n.set(BASE)) }
/// Move this thread's clock forward.
pub fn verif_advance(d: Duration) { NOW.with(|n| n.set(n.get() + d)) }
/// Time since the origin of this thread's clock.
pub fn verif_now() -> Duration { NOW.with(|n| n.get()) - BASE }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);

impl Instant {
    pub fn now() -> Self { Instant(NOW.with(|n| n.get())) }
    pub fn duration_since(&self, earlier: Instant) -> Duration { self.saturating_duration_since(earlier) }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> { self.0.checked_sub(earlier.0) }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration { self.0.saturating_sub(earlier.0) }
    pub fn elapsed(&self) -> Duration { Instant::now().saturating_duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { self.0 -= d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.saturating_duration_since(o) } }
