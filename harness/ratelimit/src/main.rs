//! P11, bounded: seeded histories of requests against the real limiter under a controlled clock.
use common::Report;
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use std::collections::HashMap;
use std::time::Duration;

fn run_history(rep: &mut Report, salt: u64) {
    vclock::reset();
    let mut g = rep.rng(salt);
    let max_req = *g.pick(&[1u32, 2, 3, 7, 10, 60, 100, 333, 700, 999, 1001, 1500, 3000, 1_000_000]);
    let window = *g.pick(&[1u64, 2, 3, 7, 60, 300, 3600, 86400]);
    let burst = *g.pick(&[0u32, 1, 2, 3, 5, 10, 20, 50, 10_000]);
    let mut cfg = match RateLimitConfig::new(max_req, window) {
        Ok(c) => c,
        Err(e) => {
            rep.case(&format!("new({max_req},{window})"));
            rep.fail("config-refused", &format!("valid configuration refused: {e}"));
            return;
        }
    };
    let custom = g.chance(2, 3);
    let burst = if custom { burst } else { max_req };
    if custom {
        cfg = cfg.with_burst_capacity(burst).expect("burst within range");
    }
    // an idle timeout long enough for a full refill, as the guarantee assumes
    let full = (burst as u64 + 1) * (window * 1000).div_ceil(max_req as u64) / 1000 + 1;
    let idle = full + g.below(100);
    cfg = cfg.with_idle_timeout(idle);
    let enabled = !g.chance(1, 15);
    cfg = cfg.with_enabled(enabled);
    let lim = RateLimiter::new(cfg);
    let keys = ["a", "b", "192.168.1.100", "sip:alice@example.com"];
    let long = "k".repeat(257);
    let edge = "k".repeat(256);
    let mut hist = format!("cfg max={max_req} window={window}s burst={burst} idle={idle}s enabled={enabled};");
    // per key: times of allowed requests (ns)
    let mut allowed: HashMap<String, Vec<u128>> = HashMap::new();
    let mut last_seen: HashMap<String, u128> = HashMap::new();
    let n = if rep.thorough() { 400 } else { 150 };
    let base_ms = (window * 1000).div_ceil(max_req as u64).max(1);
    let mut prev_key = 0usize;
    for _ in 0..n {
        match g.below(14) {
            0 => {
                let bad = match g.below(4) { 0 => "a\rb".to_string(), 1 => "x\n".into(), 2 => long.clone(), _ => "n\u{0}".into() };
                hist += &format!(" bad({:?})", bad.chars().take(6).collect::<String>());
                rep.case(&hist);
                if rep.guard("check", || lim.check_rate_limit(&bad)) == Some(true) {
                    rep.fail("bad-key-allowed", "a key with control characters or over 256 bytes was allowed");
                }
            }
            1 => {
                let ms = match g.below(5) { 0 => base_ms, 1 => base_ms.saturating_sub(1), 2 => base_ms * g.range(1, 5), 3 => base_ms / 2 + 1, _ => g.below(base_ms * 3 + 2) };
                vclock::advance(Duration::from_millis(ms));
                hist += &format!(" +{ms}ms");
            }
            2 => {
                let ms = match g.below(3) { 0 => window * 1000, 1 => idle * 1000 + 1, _ => g.below(window * 1000 + 1) };
                vclock::advance(Duration::from_millis(ms));
                hist += &format!(" +{ms}ms");
            }
            3 => {
                let k = keys[g.below(4) as usize];
                hist += &format!(" peek({k})");
                rep.case(&hist);
                if let Some(Some(t)) = rep.guard("remaining", || lim.remaining_tokens(k)) {
                    rep.check(t <= burst, "tokens-over-burst", || format!("{t} tokens left with burst {burst}"));
                }
                if let Some(Some(i)) = rep.guard("info", || lim.get_limit_info(k)) {
                    rep.check(i.remaining() <= burst, "info-over-burst", || format!("{} remaining with burst {burst}", i.remaining()));
                }
            }
            4 => {
                hist += " cleanup";
                let before: Vec<(String, bool)> = keys.iter().map(|k| (k.to_string(), lim.remaining_tokens(k).is_some())).collect();
                rep.case(&hist);
                rep.guard("cleanup", || lim.cleanup_idle());
                for (k, had) in before {
                    if had && enabled && lim.remaining_tokens(&k).is_none() {
                        let seen = last_seen.get(&k).copied().unwrap_or(0);
                        rep.check(vclock::now_ns() - seen > idle as u128 * 1_000_000_000, "cleanup-not-idle",
                            || format!("key {k} dropped {} ns after its last request", vclock::now_ns() - seen));
                    }
                }
            }
            _ => {
                if g.chance(1, 3) {
                    prev_key = g.below(4) as usize;
                }
                let k = if g.chance(1, 40) { edge.as_str() } else { keys[prev_key] };
                let peek = g.chance(1, 2);
                let rem = if peek { lim.remaining_tokens(k) } else { None };
                let others: Vec<_> = keys.iter().filter(|o| **o != k).map(|o| (o.to_string(), lim.remaining_tokens(o))).collect();
                hist += &format!(" req({})", &k[..k.len().min(8)]);
                rep.case(&hist);
                let Some(ok) = rep.guard("check", || lim.check_rate_limit(k)) else { return };
                let now = vclock::now_ns();
                if !enabled {
                    rep.check(ok, "disabled-refused", || "a disabled limiter refused a request".into());
                    continue;
                }
                for (o, v) in others {
                    let v2 = lim.remaining_tokens(&o);
                    rep.check(v == v2, "other-key-changed", || format!("request for {k} changed {o}: {v:?} -> {v2:?}"));
                }
                match rem {
                    None if !peek => {}
                    Some(t) => {
                        rep.check(ok == (t >= 1), "wrong-answer", || format!("{t} tokens available, answered {ok}"));
                        let t2 = lim.remaining_tokens(k);
                        let want = if ok { t.saturating_sub(1) } else { t };
                        rep.check(t2 == Some(want), "wrong-cost", || format!("tokens {t} -> {t2:?} after answer {ok}"));
                    }
                    None => rep.check(ok == (burst >= 1), "fresh-key", || format!("first request answered {ok} with burst {burst}")),
                }
                // a key left alone for one whole refill interval is let through again
                if burst >= 1 {
                    if let Some(seen) = last_seen.get(k) {
                        if now - seen >= base_ms as u128 * 1_000_000 {
                            rep.check(ok, "starved", || format!("refused {} ms after the previous request, interval {base_ms} ms", (now - seen) / 1_000_000));
                        }
                    }
                }
                last_seen.insert(k.to_string(), now);
                if ok {
                    let v = allowed.entry(k.to_string()).or_default();
                    v.push(now);
                    // every window ending now: burst + rate * span (+ one interval already running)
                    for (i, t) in v.iter().enumerate() {
                        let got = (v.len() - i) as u128;
                        let span = (now - t) as u128;
                        let cap = burst as u128 + (span * max_req as u128) / (window as u128 * 1_000_000_000) + 1;
                        if got > cap {
                            let w = format!("{got} requests let through within {} ms; burst {burst} and {max_req} per {window} s allow {cap}", span / 1_000_000);
                            rep.fail("rate-exceeded", &w);
                            return;
                        }
                    }
                }
            }
        }
        if !rep.time_left() {
            return;
        }
    }
}

fn cap_history(rep: &mut Report) {
    // the cap on tracked keys
    let lim = RateLimiter::new(RateLimitConfig::new(10, 60).unwrap());
    rep.case("100001 distinct keys");
    for i in 0..100_001u32 {
        let ok = lim.check_rate_limit(&format!("key{i}"));
        if lim.active_count() > 100_000 {
            rep.fail("too-many-keys", &format!("{} keys tracked", lim.active_count()));
            return;
        }
        if !ok && i < 100_000 {
            rep.fail("cap-early", &format!("key {i} refused below the cap"));
            return;
        }
    }
    // an existing key keeps working at the cap
    rep.check(lim.check_rate_limit("key5"), "cap-existing", || "an existing key was refused at the cap".into());
}

/// the periodic cleanup that requests trigger never forgives a key that is still in use
fn churn(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let burst = g.range(1, 5) as u32;
    let cfg = RateLimitConfig::new(1, 60).unwrap().with_burst_capacity(burst).unwrap().with_idle_timeout(600);
    let lim = RateLimiter::new(cfg);
    rep.case(&format!("churn burst={burst}: 4000 requests of one key and bystanders, 1 ms apart"));
    let mut n = 0u32;
    for i in 0..4000u32 {
        if lim.check_rate_limit("victim") {
            n += 1;
        }
        let _ = lim.check_rate_limit(&format!("other{}", i % 50));
        vclock::advance(Duration::from_millis(1));
    }
    rep.check(n <= burst + 1, "churn-rate", || format!("{n} requests of one key let through within 4 s, burst {burst}, 1 per minute"));
    for k in [0u32, 86401] {
        rep.check(RateLimitConfig::new(10, k as u64).is_err(), "bad-window", || format!("window {k} accepted"));
    }
    for k in [0u32, 1_000_001, u32::MAX] {
        rep.check(RateLimitConfig::new(k, 60).is_err(), "bad-max", || format!("max_requests {k} accepted"));
    }
    rep.check(RateLimitConfig::new(10, 60).unwrap().with_burst_capacity(10_001).is_err(), "bad-burst", || "burst 10001 accepted".into());
}

fn presets(rep: &mut Report) {
    for (name, c, max, win, burst) in [
        ("auth", RateLimitConfig::auth_preset(), 10u64, 300u64, 3u32),
        ("register", RateLimitConfig::register_preset(), 60, 3600, 10),
        ("connection", RateLimitConfig::connection_preset(), 100, 60, 20),
        ("invite", RateLimitConfig::invite_preset(), 30, 60, 10),
        ("default", RateLimitConfig::default(), 100, 60, 100),
    ] {
        rep.case(&format!("preset {name}"));
        rep.check(c.enabled() && c.burst_capacity() == burst && c.max_requests() as u64 == max && c.window_secs() == win
            && c.tokens_per_refill() as u64 * win * 1000 <= c.refill_interval_ms() * max, "preset", || format!("{c:?}"));
    }
    let d = RateLimiter::disabled();
    for _ in 0..2000 {
        if !d.check_rate_limit("x") {
            rep.fail("disabled-refused", "disabled limiter refused");
            break;
        }
    }
}

fn main() {
    let mut rep = Report::from_args();
    rep.rule("seeded histories of requests, waits, peeks and cleanups over four keys; distinct by full history text");
    presets(&mut rep);
    cap_history(&mut rep);
    churn(&mut rep, 77);
    let mut salt = 1000;
    while rep.time_left() {
        salt += 1;
        run_history(&mut rep, salt);
    }
    rep.finish();
}
