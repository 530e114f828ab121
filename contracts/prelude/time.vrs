verus! {
/// std::time as the contracts see it: points in time and spans are whole nanoseconds;
/// within one operation the clock reads the same value (now_ns / unix_ns).
pub mod tm {
    use vstd::prelude::*;
    use core::cmp::Ordering;
    pub uninterp spec fn now_ns() -> int;
    pub uninterp spec fn unix_ns() -> int;
    pub broadcast axiom fn now_nonneg() ensures #[trigger] now_ns() >= 0;
    pub broadcast axiom fn unix_nonneg() ensures 0 <= #[trigger] unix_ns() < 0x1000_0000_0000 * 1_000_000_000;
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { d: u128 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant { i: u128 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct SystemTime { i: u128 }
    impl View for Duration { type V = int; uninterp spec fn view(&self) -> int; }
    impl View for Instant { type V = int; uninterp spec fn view(&self) -> int; }
    impl View for SystemTime { type V = int; uninterp spec fn view(&self) -> int; }
    pub uninterp spec fn mkd(n: int) -> Duration;
    pub uninterp spec fn mki(n: int) -> Instant;
    pub broadcast axiom fn mkd_view(n: int) ensures 0 <= n <= 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 ==> (#[trigger] mkd(n))@ == n;
    pub broadcast axiom fn mki_view(n: int) ensures (#[trigger] mki(n))@ == n;
    pub broadcast axiom fn d_range(d: Duration) ensures 0 <= #[trigger] d@ <= 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1, mkd(d@) == d;
    pub broadcast axiom fn i_ext(d: Instant) ensures mki(#[trigger] d@) == d;
    pub open spec fn dmax() -> int { 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 }
    pub open spec fn cmp_int(a: int, b: int) -> Option<Ordering> {
        if a < b { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
    impl Duration {
        #[verifier::external_body] pub const fn from_secs(n: u64) -> (r: Duration) ensures r@ == n as int * 1_000_000_000 { Duration { d: 0 } }
        #[verifier::external_body] pub const fn from_millis(n: u64) -> (r: Duration) ensures r@ == n as int * 1_000_000 { Duration { d: 0 } }
        #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r as int == self@ / 1_000_000_000 { unimplemented!() }
        #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r as int == self@ / 1_000_000 { unimplemented!() }
        #[verifier::external_body] pub fn max(self, o: Duration) -> (r: Duration) ensures r@ == (if self@ >= o@ { self@ } else { o@ }), r == (if self@ > o@ { self } else { o }) { unimplemented!() }
        #[verifier::external_body] pub fn min(self, o: Duration) -> (r: Duration) ensures r@ == (if self@ <= o@ { self@ } else { o@ }) { unimplemented!() }
        #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
        #[verifier::external_body] pub fn saturating_sub(self, o: Duration) -> (r: Duration)
            ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
        #[verifier::external_body] pub fn saturating_mul(self, k: u32) -> (r: Duration)
            ensures r@ == (if self@ * k <= dmax() { self@ * k } else { dmax() }) { unimplemented!() }
    }
    impl Instant {
        #[verifier::external_body] pub fn now() -> (r: Instant) ensures r@ == now_ns() { unimplemented!() }
        #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration)
            ensures r@ == (if now_ns() >= self@ { now_ns() - self@ } else { 0 }) { unimplemented!() }
        #[verifier::external_body] pub fn duration_since(&self, o: Instant) -> (r: Duration)
            ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
        #[verifier::external_body] pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration)
            ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
        #[verifier::external_body] pub fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>)
            ensures match r { Some(d) => self@ >= o@ && d@ == self@ - o@, None => self@ < o@ } { unimplemented!() }
        #[verifier::external_body] pub fn checked_add(&self, o: Duration) -> (r: Option<Instant>)
            ensures r matches Some(x) ==> x@ == self@ + o@ { unimplemented!() }
    }
    #[verifier::external_body] pub struct SystemTimeError { e: u8 }
    #[verifier::external_body] pub struct Epoch { e: u8 }
    #[verifier::external_body] pub fn unix_epoch() -> (r: Epoch) { unimplemented!() }
    impl core::fmt::Debug for SystemTimeError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    impl SystemTime {
        #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures r@ == unix_ns() { unimplemented!() }
        /// the system clock is set after 1970
        #[verifier::external_body] pub fn duration_since(&self, o: Epoch) -> (r: Result<Duration, SystemTimeError>)
            ensures self@ >= 0 ==> r.is_ok() && r->Ok_0@ == self@ { unimplemented!() }
    }
    impl core::ops::Add<Duration> for Instant { type Output = Instant;
        #[verifier::external_body] fn add(self, o: Duration) -> Instant { unimplemented!() } }
    impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: Duration) -> bool { true }
        open spec fn add_spec(self, rhs: Duration) -> Instant { mki(self@ + rhs@) }
    }
    impl core::ops::Mul<u32> for Duration { type Output = Duration;
        #[verifier::external_body] fn mul(self, k: u32) -> Duration { unimplemented!() } }
    /// panics on overflow
    impl vstd::std_specs::ops::MulSpecImpl<u32> for Duration {
        open spec fn obeys_mul_spec() -> bool { true }
        open spec fn mul_req(self, rhs: u32) -> bool { self@ * rhs as int <= dmax() }
        open spec fn mul_spec(self, rhs: u32) -> Duration { mkd(self@ * rhs as int) }
    }
    impl core::ops::Div<u32> for Duration { type Output = Duration;
        #[verifier::external_body] fn div(self, k: u32) -> Duration { unimplemented!() } }
    impl vstd::std_specs::ops::DivSpecImpl<u32> for Duration {
        open spec fn obeys_div_spec() -> bool { true }
        open spec fn div_req(self, rhs: u32) -> bool { rhs != 0 }
        open spec fn div_spec(self, rhs: u32) -> Duration { mkd(self@ / rhs as int) }
    }
    impl core::ops::Sub<Instant> for Instant { type Output = Duration;
        #[verifier::external_body] fn sub(self, o: Instant) -> Duration { unimplemented!() } }
    impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
        open spec fn obeys_sub_spec() -> bool { true }
        open spec fn sub_req(self, rhs: Instant) -> bool { true }
        open spec fn sub_spec(self, rhs: Instant) -> Duration { mkd(if self@ >= rhs@ { self@ - rhs@ } else { 0 }) }
    }
    impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> bool { unimplemented!() } }
    impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> Option<Ordering> { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Duration) -> bool { self@ == o@ }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { cmp_int(self@, o@) }
    }
    impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> bool { unimplemented!() } }
    impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> Option<Ordering> { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Instant) -> bool { self@ == o@ }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<Ordering> { cmp_int(self@, o@) }
    }
}
use tm::*;
} // verus!
