//@include base
//@include str
//@include time
//@include float
//@include dmap
//@file crates/sip-ratelimit/src/lib.rs
//@rewrite self.buckets.retain ( | $k , $b | { $*body } ) ==> let ks__ = self.buckets.keys_vec(); let mut i__: usize = 0; while i__ < ks__.len() { let $k = &ks__[i__]; i__ += 1; let keep__ = { let $b = self.buckets.get_mut($k).unwrap(); $body }; if !keep__ { self.buckets.remove($k); } }
//@rewrite self.buckets.get ( $*k ).map ( | $b | { $*body } ) ==> match self.buckets.get_mut($k) { Some($b) => Some({ $body }), None => None }
//@rewrite self.buckets.get ( $*k ) ==> self.buckets.get_mut($k)
//@rewrite UNIX_EPOCH ==> unix_epoch()
//@rewrite refills_needed as u64 ==> refills_needed.to_u64()
//@rewrite f64 ==> F
//@rewrite ( $*x ) as F ==> ($x).to_f()
//@rewrite $a as F ==> $a.to_f()
//@rewrite bucket.tokens as u32 ==> bucket.tokens.to_u32()
//@rewrite 1.0 ==> 1u32.to_f()
//@rewrite self.last_refill += $*b ; ==> self.last_refill = self.last_refill + ($b);
//@rewrite self.tokens += $*b ; ==> self.tokens = self.tokens + ($b);
//@rewrite self.tokens -= $*b ; ==> self.tokens = self.tokens - ($b);
//@rewrite Arc < DashMap < String , RwLock < TokenBucket > > > ==> DMap<String, TokenBucket>
//@rewrite Arc < RateLimitConfig > ==> RateLimitConfig
//@rewrite Arc < RateLimitMetrics > ==> RateLimitMetrics
//@rewrite Arc < AtomicU64 > ==> AtomicU64
//@rewrite Arc :: new ( $*x ) ==> $x
//@rewrite DashMap :: new ==> DMap::new
//@rewrite . write ( ) ==>
//@rewrite . read ( ) ==>
//@rewrite RwLock :: new ( $*x ) ==> $x
//@rewrite ( & self ==> (&mut self
//@rewrite . entry ( $*k ) . or_insert_with ( || $*v ) ==> .entry_or_insert($k, $v)
//@rewrite | $c | $d . is_control ( ) ==> |$c: char| -> (b: bool) ensures b == is_ctrl($c) { $d.is_control() }
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, tm::now_nonneg, tm::unix_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext, fl::fmk_view, fl::view_inj};

//@const CLEANUP_EVERY_CHECKS
//@const MAX_KEY_LENGTH
//@const MAX_TRACKED_KEYS
//@const MAX_REQUESTS_PER_WINDOW
//@const MAX_WINDOW_SECS
//@const MAX_BURST_CAPACITY
//@enum RateLimitError
//@struct RateLimitConfig
//@struct TokenBucket
//@struct RateLimitMetrics
//@struct RateLimiter
//@struct RateLimitInfo

// ---- what the limiter promises -------------------------------------------------
pub open spec fn valid_key(k: Seq<char>) -> bool {
    blen(k) <= 256 && forall|i: int| 0 <= i < k.len() ==> !is_ctrl(#[trigger] k[i])
}
pub open spec fn active(c: RateLimitConfig) -> bool {
    c.refill_interval_ms != 0 && c.tokens_per_refill != 0 && c.burst_capacity != 0
}
pub open spec fn burst(c: RateLimitConfig) -> real { c.burst_capacity as int as real }
/// whole tokens the configured rate produces between two moments
pub open spec fn gain(c: RateLimitConfig, from: int, to: int) -> real {
    if to <= from || !active(c) { 0real }
    else { ((((to - from) / 1_000_000) / (c.refill_interval_ms as int)) as real) * (c.tokens_per_refill as int as real) }
}
pub open spec fn interval_ns(c: RateLimitConfig) -> int { c.refill_interval_ms as int * 1_000_000 }
pub open spec fn bucket_wf(b: TokenBucket, c: RateLimitConfig) -> bool {
    0real <= b.tokens@ && b.tokens@ <= burst(c) && b.last_refill@ <= now_ns() && b.blocked < u64::MAX
}
/// one request against one bucket
pub open spec fn step(b0: TokenBucket, b1: TokenBucket, c: RateLimitConfig, allowed: bool) -> bool {
    &&& 0real <= b1.tokens@ && b1.tokens@ <= burst(c)
    &&& b0.last_refill@ <= b1.last_refill@ && b1.last_refill@ <= now_ns()
    &&& b1.tokens@ + (if allowed { 1real } else { 0real }) <= b0.tokens@ + gain(c, b0.last_refill@, b1.last_refill@)
    &&& b1.tokens@ + (if allowed { 1real } else { 0real }) <= burst(c)
    &&& (b0.tokens@ >= 1real ==> allowed)
    &&& (active(c) && now_ns() - b0.last_refill@ >= interval_ns(c) ==> allowed)
    // a refusal never costs tokens, and a refill that was not credited is not forgotten
    &&& (!allowed ==> b1.tokens@ >= b0.tokens@)
    &&& (b1.last_refill@ == b0.last_refill@ ==> b1.tokens@ == b0.tokens@ - (if allowed { 1real } else { 0real }))
    &&& b1.last_access@ == now_ns()
}
pub open spec fn fresh(b: TokenBucket, c: RateLimitConfig) -> bool {
    b.tokens@ == burst(c) && b.last_refill@ == now_ns() && b.blocked == 0
}
/// the first request of a key: the bucket starts full
pub open spec fn first_step(b1: TokenBucket, c: RateLimitConfig, allowed: bool) -> bool {
    &&& 0real <= b1.tokens@ && b1.last_refill@ == now_ns() && b1.last_access@ == now_ns()
    &&& b1.tokens@ + (if allowed { 1real } else { 0real }) == burst(c)
    &&& (c.burst_capacity >= 1 ==> allowed)
}
pub open spec fn idle(b: TokenBucket, c: RateLimitConfig) -> bool {
    now_ns() - b.last_access@ > c.idle_timeout_secs as int * 1_000_000_000
}
/// every configuration the public constructors can build
pub open spec fn cfg_wf(c: RateLimitConfig) -> bool {
    c.refill_interval_ms <= 86_400_000 && c.burst_capacity <= 1_000_000 && c.tokens_per_refill <= 1
}
pub open spec fn limiter_wf(l: RateLimiter) -> bool {
    &&& cfg_wf(l.config) && l.metrics.total_checks.v < u64::MAX
    &&& l.buckets@.dom().finite()
    &&& forall|k: Seq<char>| l.buckets@.contains_key(k) ==> bucket_wf(#[trigger] l.buckets@[k], l.config)
}
/// cleanup drops idle buckets only and touches nothing else
pub open spec fn cleaned(m0: Map<Seq<char>, TokenBucket>, m1: Map<Seq<char>, TokenBucket>, c: RateLimitConfig) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m1.contains_key(k) ==> m0.contains_key(k) && m1[k] == m0[k]
    &&& forall|k: Seq<char>| #[trigger] m0.contains_key(k) && !m1.contains_key(k) ==> idle(m0[k], c)
}

impl RateLimitMetrics {
    /// derived Default: all counters zero (counters play no part in any decision)
    #[verifier::external_body] pub fn new() -> RateLimitMetrics { unimplemented!() }
}
//@fn validate_key
    ensures r.is_ok() == valid_key(key@),
//@end
impl RateLimitConfig {
//@fn RateLimitConfig::new
    ensures match r {
        Ok(c) => 0 < max_requests <= 1_000_000 && 0 < window_secs <= 86400
            && c.max_requests == max_requests && c.window_secs == window_secs && c.burst_capacity == max_requests
            && c.enabled && cfg_wf(c) && c.refill_interval_ms > 0 && c.tokens_per_refill > 0
            // the refill rate never exceeds max_requests per window
            && c.tokens_per_refill as int * (window_secs as int * 1000) <= c.refill_interval_ms as int * max_requests as int,
        Err(_) => max_requests == 0 || window_secs == 0 || max_requests > 1_000_000 || window_secs > 86400,
    },
@entry
    assert(window_secs <= 86400 ==> window_secs * 1000 <= 86400000) by (nonlinear_arith);
    proof { if max_requests > 0 {
        let n = window_secs as int * 1000; let d = max_requests as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + d - 1, d);
        vstd::arithmetic::div_mod::lemma_mod_bound(n + d - 1, d);
        assert(n >= 1 ==> (n + d - 1) / d <= n) by {
            if n >= 1 {
                assert(n + d - 1 <= n * d) by (nonlinear_arith) requires n >= 1, d >= 1;
                vstd::arithmetic::div_mod::lemma_div_is_ordered(n + d - 1, n * d, d);
                vstd::arithmetic::div_mod::lemma_div_by_multiple(n, d);
            }
        }
        assert(d * ((n + d - 1) / d) == ((n + d - 1) / d) * d) by (nonlinear_arith);
        assert(window_secs > 0 ==> (n + d - 1) / d >= 1) by { if window_secs > 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered(d, n + d - 1, d); vstd::arithmetic::div_mod::lemma_div_by_self(d); } }
    } }
//@end
//@fn RateLimitConfig::disabled
    ensures !r.enabled, cfg_wf(r),
//@end
//@fn RateLimitConfig::with_burst_capacity
    ensures match r { Ok(c) => capacity <= 10_000 && (cfg_wf(self) ==> cfg_wf(c)) && c == (RateLimitConfig { burst_capacity: capacity, ..self }), Err(_) => capacity > 10_000 },
//@end
//@fn RateLimitConfig::with_idle_timeout
    ensures r == (RateLimitConfig { idle_timeout_secs: timeout_secs, ..self }),
//@end
//@fn RateLimitConfig::with_enabled
    ensures r == (RateLimitConfig { enabled: enabled, ..self }),
//@end
}
impl TokenBucket {
//@fn TokenBucket::new
    ensures r.tokens == initial_tokens, r.last_refill@ == now_ns(), r.last_access@ == now_ns(), r.blocked == 0,
//@end
//@fn TokenBucket::refill
    requires bucket_wf(*old(self), *config),
    ensures
        bucket_wf(*final(self), *config),
        final(self).last_access == old(self).last_access, final(self).blocked == old(self).blocked,
        final(self).last_warn == old(self).last_warn,
        old(self).last_refill@ <= final(self).last_refill@,
        old(self).tokens@ <= final(self).tokens@,
        final(self).tokens@ <= old(self).tokens@ + gain(*config, old(self).last_refill@, final(self).last_refill@),
        final(self).last_refill@ == old(self).last_refill@ ==> final(self).tokens@ == old(self).tokens@,
        active(*config) && now_ns() - old(self).last_refill@ >= interval_ns(*config)
            ==> final(self).tokens@ >= rmin(burst(*config), old(self).tokens@ + config.tokens_per_refill as int as real),
@entry
    proof {
        let e = now_ns() - old(self).last_refill@;
        let ms = config.refill_interval_ms as int;
        let k = config.tokens_per_refill as int as real;
        if ms > 0 {
            let n = (e / 1_000_000) / ms;
            assert(e >= ms * 1_000_000 ==> n >= 1) by {
                if e >= ms * 1_000_000 {
                    vstd::arithmetic::div_mod::lemma_div_is_ordered(ms * 1_000_000, e, 1_000_000);
                    vstd::arithmetic::div_mod::lemma_div_is_ordered(ms, e / 1_000_000, ms);
                    vstd::arithmetic::div_mod::lemma_div_by_self(ms);
                }
            }
            assert(e >= 0 ==> n >= 0) by { if e >= 0 { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(e / 1_000_000, ms); } }
            assert(n >= 1 && k >= 1real ==> (n as real) * k >= k) by (nonlinear_arith);
            assert(n >= 0 && k >= 0real ==> (n as real) * k >= 0real) by (nonlinear_arith);
        }
    }
//@end
//@fn TokenBucket::try_consume
    requires bucket_wf(*old(self), *config),
    ensures
        step(*old(self), *final(self), *config, r),
        !r ==> final(self).tokens@ < 1real,
        final(self).last_warn == old(self).last_warn,
//@end
//@fn TokenBucket::is_idle
    ensures r == (now_ns() >= old(self).last_access@ && now_ns() - old(self).last_access@ > timeout@), *final(self) == *old(self),
//@end
}
impl RateLimiter {
//@fn RateLimiter::new
    ensures r.config == config, r.buckets@ == Map::<Seq<char>, TokenBucket>::empty(),
//@end
//@fn RateLimiter::check_rate_limit
    requires limiter_wf(*old(self)),
    ensures
        final(self).config == old(self).config,
        forall|k: Seq<char>| #[trigger] final(self).buckets@.contains_key(k) ==> bucket_wf2(final(self).buckets@[k], old(self).config),
        // no key beyond the cap
        old(self).buckets@.dom().len() <= 100_000 ==> final(self).buckets@.dom().len() <= 100_000,
        // other keys: untouched, or dropped because idle
        cleaned(old(self).buckets@.remove(key@), final(self).buckets@.remove(key@), old(self).config),
        !valid_key(key@) ==> !r && final(self).buckets@ == old(self).buckets@,
        valid_key(key@) && !old(self).config.enabled ==> r && final(self).buckets@ == old(self).buckets@,
        // an enabled limiter answers for a valid key from that key's bucket alone
        valid_key(key@) && old(self).config.enabled ==>
            (!r && !old(self).buckets@.contains_key(key@) && old(self).buckets@.dom().len() >= 100_000 && !final(self).buckets@.contains_key(key@))
            || (!r && old(self).buckets@.dom().len() >= 100_000 && idle(old(self).buckets@[key@], old(self).config) && !final(self).buckets@.contains_key(key@))
            || (final(self).buckets@.contains_key(key@) && old(self).buckets@.contains_key(key@)
                && step(old(self).buckets@[key@], final(self).buckets@[key@], old(self).config, r))
            || (final(self).buckets@.contains_key(key@)
                && (old(self).buckets@.contains_key(key@) ==> idle(old(self).buckets@[key@], old(self).config))
                && first_step(final(self).buckets@[key@], old(self).config, r)),
//@end
//@fn RateLimiter::cleanup_idle
    requires limiter_wf(*old(self)),
    ensures
        final(self).config == old(self).config,
        final(self).metrics.total_checks == old(self).metrics.total_checks,
        cleaned(old(self).buckets@, final(self).buckets@, old(self).config),
        final(self).buckets@.dom().len() <= old(self).buckets@.dom().len(),
        limiter_wf(*final(self)),
@loop 1
    invariant
        self.config == old(self).config, self.metrics.total_checks == old(self).metrics.total_checks,
        i__ <= ks__.len(), removed <= i__,
        timeout@ == self.config.idle_timeout_secs as int * 1_000_000_000,
        self.buckets@.dom().finite(),
        self.buckets@.dom().len() <= old(self).buckets@.dom().len(),
        forall|i: int| #![auto] i__ <= i < ks__.len() ==> self.buckets@.contains_key(ks__[i]@),
        forall|i: int, j: int| 0 <= i < j < ks__.len() ==> ks__[i]@ != ks__[j]@,
        cleaned(old(self).buckets@, self.buckets@, old(self).config),
        limiter_wf(*old(self)),
    decreases ks__.len() - i__,
//@end
//@fn RateLimiter::remaining_tokens
    requires limiter_wf(*old(self)),
    ensures
        limiter_wf(*final(self)), final(self).config == old(self).config,
        r.is_some() == old(self).buckets@.contains_key(key@),
        final(self).buckets@.remove(key@) == old(self).buckets@.remove(key@),
        r matches Some(n) ==> final(self).buckets@.contains_key(key@)
            && looked(old(self).buckets@[key@], final(self).buckets@[key@], old(self).config)
            && n as int as real <= final(self).buckets@[key@].tokens@,
//@end
//@fn RateLimiter::get_limit_info
    requires limiter_wf(*old(self)),
    ensures
        limiter_wf(*final(self)), final(self).config == old(self).config,
        final(self).buckets@.remove(key@) == old(self).buckets@.remove(key@),
        r matches Some(n) ==> final(self).buckets@.contains_key(key@) && old(self).buckets@.contains_key(key@)
            && looked(old(self).buckets@[key@], final(self).buckets@[key@], old(self).config)
            && n.limit == old(self).config.max_requests
            && n.remaining as int as real <= final(self).buckets@[key@].tokens@,
@entry
    assert forall|x: real, k: real| k == 1real implies #[trigger] rdiv(x, k) == x by { assert(x / 1real == x) by (nonlinear_arith); }
    assert forall|x: int, y: int| 0 <= x <= 1_000_001 && 0 <= y <= 86_400_000 implies #[trigger] (x * y) <= 1_000_001 * 86_400_000 && x * y >= 0 by {
        assert(x * y <= 1_000_001 * 86_400_000 && x * y >= 0) by (nonlinear_arith) requires 0 <= x <= 1_000_001, 0 <= y <= 86_400_000;
    }
//@end
//@fn RateLimiter::reset
    ensures final(self).config == old(self).config, final(self).buckets@ == old(self).buckets@.remove(key@),
//@end
//@fn RateLimiter::clear
    ensures final(self).config == old(self).config, final(self).buckets@ == Map::<Seq<char>, TokenBucket>::empty(),
//@end
}
/// what merely looking at a bucket may do: credit the tokens it has earned
pub open spec fn looked(b0: TokenBucket, b1: TokenBucket, c: RateLimitConfig) -> bool {
    &&& b0.last_refill@ <= b1.last_refill@ && b1.last_refill@ <= now_ns()
    &&& b0.tokens@ <= b1.tokens@ && b1.tokens@ <= b0.tokens@ + gain(c, b0.last_refill@, b1.last_refill@)
    &&& b1.tokens@ <= burst(c) && b1.last_access == b0.last_access && b1.blocked == b0.blocked
}
pub open spec fn bucket_wf2(b: TokenBucket, c: RateLimitConfig) -> bool {
    0real <= b.tokens@ && b.tokens@ <= burst(c) && b.last_refill@ <= now_ns()
}

// ---- the guarantee over a whole history -----------------------------------------
/// One bucket's life: state st[i], request i answered ok[i] at time tm[i] taking st[i] to st[i+1].
pub struct Life { pub tokens: Seq<real>, pub last: Seq<int>, pub at: Seq<int>, pub ok: Seq<bool> }
pub open spec fn n_ok(ok: Seq<bool>, i: int, j: int) -> int
    decreases j - i
{ if j <= i { 0 } else { n_ok(ok, i, j - 1) + (if ok[j - 1] { 1int } else { 0int }) } }
/// every step obeys the per-request contract (`step` above, with the clock of that request)
pub open spec fn life_ok(l: Life, c: RateLimitConfig) -> bool {
    &&& l.tokens.len() == l.ok.len() + 1 && l.last.len() == l.ok.len() + 1 && l.at.len() == l.ok.len()
    &&& forall|i: int| 0 <= i < l.tokens.len() ==> 0real <= #[trigger] l.tokens[i] && l.tokens[i] <= burst(c)
    &&& forall|i: int| 0 <= i < l.ok.len() ==> #[trigger] l.last[i] <= l.last[i + 1] && l.last[i + 1] <= l.at[i]
    &&& forall|i: int, j: int| 0 <= i <= j < l.at.len() ==> l.at[i] <= l.at[j]
    &&& forall|i: int| 0 <= i < l.ok.len() ==>
        #[trigger] l.tokens[i + 1] + (if l.ok[i] { 1real } else { 0real }) <= l.tokens[i] + gain(c, l.last[i], l.last[i + 1])
}
proof fn gain_adds(c: RateLimitConfig, a: int, b: int, d: int)
    requires active(c), a <= b <= d,
    ensures gain(c, a, b) + gain(c, b, d) <= gain(c, a, d), gain(c, a, b) >= 0real,
{
    let ms = c.refill_interval_ms as int;
    let k = c.tokens_per_refill as int as real;
    let x = (b - a) / 1_000_000; let y = (d - b) / 1_000_000; let z = (d - a) / 1_000_000;
    assert(x + y <= z && x >= 0 && y >= 0);
    assert(x / ms + y / ms <= z / ms) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, ms);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, ms);
        vstd::arithmetic::div_mod::lemma_mod_bound(x, ms);
        vstd::arithmetic::div_mod::lemma_mod_bound(y, ms);
        assert(ms * (x / ms) + ms * (y / ms) == ms * (x / ms + y / ms)) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_div_is_ordered(ms * (x / ms + y / ms), z, ms);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(x / ms + y / ms, ms);
    }
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, ms);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(y, ms);
    let p = (x / ms) as real; let q = (y / ms) as real; let s = (z / ms) as real;
    assert(p * k + q * k <= s * k && p * k >= 0real) by (nonlinear_arith) requires p + q <= s, k >= 0real, p >= 0real;
    let q2 = q * k; assert(q2 >= 0real) by (nonlinear_arith) requires q2 == q * k, q >= 0real, k >= 0real;
    let s2 = s * k; assert(s2 >= 0real) by (nonlinear_arith) requires s2 == s * k, s >= 0real, k >= 0real;
}
/// tokens plus requests let through never outrun the refills
proof fn telescopes(l: Life, c: RateLimitConfig, i: int, j: int)
    requires life_ok(l, c), active(c), 0 <= i <= j <= l.ok.len(),
    ensures l.tokens[j] + (n_ok(l.ok, i, j) as real) <= l.tokens[i] + gain(c, l.last[i], l.last[j]), l.last[i] <= l.last[j],
    decreases j - i,
{
    if i < j {
        telescopes(l, c, i, j - 1);
        assert(l.last[j - 1] <= l.last[j - 1 + 1]);
        assert(l.tokens[j - 1 + 1] + (if l.ok[j - 1] { 1real } else { 0real }) <= l.tokens[j - 1] + gain(c, l.last[j - 1], l.last[j]));
        gain_adds(c, l.last[i], l.last[j - 1], l.last[j]);
    }
}
/// THEOREM: whatever the requests and their times, from request i on the limiter lets through at most
/// burst + (what the rate produces since the last refill before i)
proof fn rate_is_bounded(l: Life, c: RateLimitConfig, i: int, j: int)
    requires life_ok(l, c), active(c), 0 <= i <= j <= l.ok.len(),
    ensures n_ok(l.ok, i, j) as real <= burst(c) + gain(c, l.last[i], l.last[j]),
{
    telescopes(l, c, i, j);
    assert(0real <= l.tokens[j]);
}
/// a contract step is a step of such a life
proof fn step_is_life_step(b0: TokenBucket, b1: TokenBucket, c: RateLimitConfig, ok: bool)
    requires step(b0, b1, c, ok), 0real <= b0.tokens@, b0.tokens@ <= burst(c),
    ensures life_ok(Life { tokens: seq![b0.tokens@, b1.tokens@], last: seq![b0.last_refill@, b1.last_refill@], at: seq![now_ns()], ok: seq![ok] }, c),
{ }
} // verus!
