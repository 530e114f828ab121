//! Stand-in for std::time in the generated copies: time moves only when the harness says so.
pub use std::time::{Duration, TryFromFloatSecsError};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::sync::Mutex;

const START: u128 = 1_000_000_000_000_000;
static NOW: Mutex<u128> = Mutex::new(START);
const EPOCH_OFFSET: u128 = 1_700_000_000_000_000_000 - 1_000_000_000_000_000;

/// test control
pub fn advance(d: Duration) {
    *NOW.lock().unwrap() += d.as_nanos();
}
/// back to the start, for a fresh history
pub fn reset() {
    *NOW.lock().unwrap() = START;
}
pub fn now_ns() -> u128 {
    *NOW.lock().unwrap()
}
pub fn unix_secs() -> u64 {
    ((now_ns() + EPOCH_OFFSET) / 1_000_000_000) as u64
}

/// like the real types, times fit 64-bit seconds
fn fit(n: u128) -> Option<u128> {
    if n <= (i64::MAX as u128) * 1_000_000_000 { Some(n) } else { None }
}
fn dur(n: u128) -> Duration {
    Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}

macro_rules! timelike {
    ($t:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $t(u128);
        impl $t {
            pub fn checked_add(&self, d: Duration) -> Option<$t> {
                self.0.checked_add(d.as_nanos()).and_then(fit).map($t)
            }
            pub fn checked_sub(&self, d: Duration) -> Option<$t> {
                self.0.checked_sub(d.as_nanos()).map($t)
            }
        }
        impl Add<Duration> for $t {
            type Output = $t;
            fn add(self, d: Duration) -> $t {
                self.checked_add(d).expect("overflow when adding duration to instant")
            }
        }
        impl Sub<Duration> for $t {
            type Output = $t;
            fn sub(self, d: Duration) -> $t {
                self.checked_sub(d).expect("overflow when subtracting duration from instant")
            }
        }
        impl AddAssign<Duration> for $t {
            fn add_assign(&mut self, d: Duration) {
                *self = *self + d;
            }
        }
        impl SubAssign<Duration> for $t {
            fn sub_assign(&mut self, d: Duration) {
                *self = *self - d;
            }
        }
    };
}
timelike!(Instant);
timelike!(SystemTime);

impl Instant {
    pub fn now() -> Instant {
        Instant(now_ns())
    }
    pub fn elapsed(&self) -> Duration {
        dur(now_ns().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        dur(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(dur)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl std::fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "second time provided was later than self")
    }
}
impl std::error::Error for SystemTimeError {}

pub const UNIX_EPOCH: SystemTime = SystemTime(0);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> SystemTime {
        SystemTime(now_ns() + EPOCH_OFFSET)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        if self.0 >= o.0 {
            Ok(dur(self.0 - o.0))
        } else {
            Err(SystemTimeError(dur(o.0 - self.0)))
        }
    }
}
