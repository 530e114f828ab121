//! P04 and P05, bounded: seeded registrations and histories against the real sip-registrar crate.
use bytes::Bytes;
use common::{Report, Rng};
use sip_auth::*;
use sip_core::*;
use sip_registrar::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use std::time::Duration;

fn request(m: Method, uri: &str, hs: &[(String, String)]) -> Option<Request> {
    let mut h = Headers::new();
    for (n, v) in hs {
        h.push(n.as_str(), v.as_str()).ok()?;
    }
    Request::new(RequestLine::new(m, Uri::parse(uri).ok()?), h, Bytes::new()).ok()
}
fn hv(n: &str, v: impl Into<String>) -> (String, String) {
    (n.to_string(), v.into())
}
/// what is stored for an address, in a comparable form
fn held(s: &MemoryLocationStore, aor: &str) -> Vec<String> {
    let mut v: Vec<String> = s.lookup(aor).unwrap_or_default().iter().map(|b| format!("{} {} {:?} {} {} {} {:?} {:?} {:?}", b.aor(), b.contact(), b.expires(), b.call_id(), b.cseq(), b.q_value(), b.user_agent(), b.instance_id(), b.reg_id())).collect();
    v.sort();
    v
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

// ---------- P04 ----------
/// the authenticator, shared with the test
#[derive(Clone)]
struct Shared(Arc<DigestAuthenticator<MemoryCredentialStore>>);
impl Authenticator for Shared {
    fn challenge(&self, r: &Request) -> anyhow::Result<Response> { Authenticator::challenge(&*self.0, r) }
    fn verify(&self, r: &Request, h: &Headers) -> anyhow::Result<bool> { Authenticator::verify(&*self.0, r, h) }
    fn credentials_for(&self, m: &Method, u: &str) -> Option<Credentials> { Authenticator::credentials_for(&*self.0, m, u) }
    fn nonce_is_stale(&self, r: &Request) -> bool { Authenticator::nonce_is_stale(&*self.0, r) }
    fn nonce_reuse_expired(&self, r: &Request) -> bool { Authenticator::nonce_reuse_expired(&*self.0, r) }
    fn challenge_stale(&self, r: &Request) -> anyhow::Result<Response> { Authenticator::challenge_stale(&*self.0, r) }
    fn authenticated_username(&self, r: &Request) -> Option<smol_str::SmolStr> { Authenticator::authenticated_username(&*self.0, r) }
}
/// (To header, the address it names, who owns it)
const TOS: &[(&str, &str, Option<&str>)] = &[
    ("<sip:alice@example.com>", "sip:alice@example.com", Some("alice")),
    ("\"Bob\" <sip:alice@EXAMPLE.com>;tag=7", "sip:alice@example.com", Some("alice")),
    ("<sips:alice@example.com>", "sips:alice@example.com", Some("alice")),
    ("<sip:ALICE@example.com>", "sip:ALICE@example.com", Some("alice")),
    ("<sip:bob@example.com>", "sip:bob@example.com", Some("bob")),
    ("\"alice\" <sip:bob@example.com>", "sip:bob@example.com", Some("bob")),
    ("<sip:bob@example.com;user=alice>", "sip:bob@example.com", Some("bob")),
    ("<sip:alice%40other@example.com>", "sip:alice@other@example.com", Some("alice@other")),
    ("<sip:alice%40example.com@example.com>", "sip:alice@example.com", Some("alice")),
    ("<sip:example.com>", "sip:example.com", None),
    ("<sip:alice.example.com>", "sip:alice.example.com", None),
    ("<tel:+1555>", "tel:+1555", Some("+1555")),
    ("<tel:+1-555;ext=7>", "tel:+1555;ext=7", Some("+1555")),
    ("<tel:555;phone-context=alice>", "tel:555;phone-context=alice", Some("555")),
    ("<sip:carol@example.com:5070>", "sip:carol@example.com:5070", Some("carol")),
    ("<sip:ALIC%45@example.com>", "sip:ALICE@example.com", Some("alice")),
    ("<sip:alice%00@example.com>", "", None),
    ("<sip:dave@example.com>", "sip:dave@example.com", Some("dave")),
    ("<sip:fiona@example.com>", "sip:fiona@example.com", Some("fiona")),
    ("<sip:caf%C3%A9@example.com>", "sip:caf\u{e9}@example.com", Some("caf\u{e9}")),
    ("<mailto:alice@example.com>", "", None),
    ("<sip:alice@example.com", "", None),
    ("", "", None),
];
const USERS: &[(&str, &str)] = &[("alice", "pa"), ("bob", "pb"), ("+1555", "pt"), ("carol", "pc"), ("555", "p5"), ("Alice", "pA"), ("alice@other", "po"), ("mallory", "pm"), ("\u{fb01}ona", "pf"), ("caf\u{e9}", "pe"), ("cafe\u{301}", "pd"), ("\u{ff44}ave", "pw"), ("cafe", "px")];

/// the same name, written with a combining accent or with one character
fn same(a: &str, b: &str) -> bool {
    a.replace("e\u{301}", "\u{e9}").eq_ignore_ascii_case(&b.replace("e\u{301}", "\u{e9}"))
}
fn p04(rep: &mut Report) {
    rep.rule("seeded REGISTER requests (owner, foreign, host-only, tel, encoded and malformed To addresses; right, wrong, foreign, replayed and missing credentials in one or both credential headers; missing fields; wildcard and removal) through the sync and async handler, with every stored address compared before and after");
    let mut g = rep.rng(4);
    while rep.time_left() {
        vclock::reset();
        let store = MemoryLocationStore::new();
        for (_, key, _) in TOS.iter().filter(|t| !t.1.is_empty()) {
            let _ = store.upsert(Binding::new((*key).into(), "sip:kept@192.0.2.1".into(), Duration::from_secs(5000)).unwrap().with_call_id("kept".into()).unwrap());
        }
        let proxy = g.chance(1, 3);
        let creds: Vec<Credentials> = USERS.iter().map(|(u, p)| Credentials::new(*u, *p, "example.com")).collect();
        let auth = DigestAuthenticator::new("example.com", MemoryCredentialStore::with(creds)).with_proxy_auth(proxy);
        let auth = Shared(Arc::new(auth));
        let opaque = auth.0.opaque().to_string();
        let mine = if proxy { "Proxy-Authorization" } else { "Authorization" };
        let other = if proxy { "Authorization" } else { "Proxy-Authorization" };
        let handle = auth.clone();
        let required = g.chance(9, 10);
        let reg = BasicRegistrar::new(store.clone(), if required { Some(auth) } else { None });
        let asynch = g.chance(1, 2);
        let mut old: Option<(String, String, String)> = None;
        for step in 0..g.range(1, 6) {
            let (to, key, owner) = *g.pick(TOS);
            let (user, pw) = *g.pick(USERS);
            let user_s: String = if owner.is_some() && g.chance(1, 2) { owner.unwrap().to_string() } else { user.to_string() };
            let pw_s = USERS.iter().find(|(u, _)| *u == user_s).map(|(_, p)| p.to_string()).unwrap_or(pw.to_string());
            let uri = "sip:example.com";
            let method = if g.chance(1, 20) { Method::Invite } else { Method::Register };
            let nonce = handle.0.nonce_manager().generate().value().to_string();
            let mut hs = vec![hv("Via", "SIP/2.0/UDP h;branch=z9hG4bKa"), hv("From", "<sip:x@y>;tag=1"), hv("Call-ID", format!("c{step}")), hv("CSeq", format!("{} {}", g.range(1, 9), if g.chance(1, 15) { "INVITE" } else { "REGISTER" })), hv("Max-Forwards", "70")];
            let mut whole = true;
            if g.chance(1, 8) {
                let k = g.below(4) as usize;
                hs.remove(k);
                whole = false;
            }
            if !to.is_empty() { hs.push(hv("To", to)) }
            let contact = *g.pick(&["<sip:new@192.0.2.9>", "<sip:new@192.0.2.9>;expires=600", "*", "<sip:kept@192.0.2.1>;expires=0", "<mailto:a@b>", "<sip:new@192.0.2.9>;expires=1", ""]);
            if !contact.is_empty() { hs.push(hv("Contact", contact)) }
            if contact == "*" && g.chance(4, 5) { hs.push(hv("Expires", "0")) }
            // credentials
            let mode = g.below(9);
            let mut verified: Option<String> = None;
            let line = |u: &str, p: &str, n: &str| DigestClient::new(u, p).generate_authorization(&method, uri, "example.com", n, DigestAlgorithm::Sha256, Some(Qop::Auth), Some(&opaque), b"");
            match mode {
                0 => {}
                1 => hs.push(hv(mine, line(&user_s, "wrong", &nonce))),
                2 => hs.push(hv(other, line(&user_s, &pw_s, &nonce))),
                3 => { if let Some((n, l, u)) = &old { hs.push(hv(n, l.clone())); verified = Some(u.clone()); } }
                8 => {
                    // a line that is too long or lacks a field: verification ends in an error, or in no
                    let l = line(&user_s, &pw_s, &nonce);
                    let l = match g.below(4) { 0 => l.replace("cnonce=\"", &format!("cnonce=\"{}", "x".repeat(600))), 1 => l.replace(", qop=auth", ""), 2 => l.replace("nc=00000001", "nc=zzz"), _ => l.replace("SHA-256", "SHA-999") };
                    hs.push(hv(mine, l));
                }
                4 | 5 => {
                    // the right credentials, beside another name in the other header
                    let l = line(&user_s, &pw_s, &nonce);
                    let l2 = format!("Digest username=\"{}\", realm=\"example.com\", nonce=\"{nonce}\", uri=\"{uri}\", response=\"0\"", owner.unwrap_or("bob"));
                    if g.chance(1, 2) { hs.push(hv(other, l2.clone())); hs.push(hv(mine, l)); } else { hs.push(hv(mine, l)); hs.push(hv(other, l2)); }
                    verified = Some(user_s.clone());
                }
                _ => { let l = line(&user_s, &pw_s, &nonce); hs.push(hv(mine, l.clone())); old = Some((mine.to_string(), l, user_s.clone())); verified = Some(user_s.clone()); }
            }
            // a name without a password here can not be verified
            if !USERS.iter().any(|(u, _)| Some(*u) == verified.as_deref()) { verified = None }
            let Some(rq) = request(method.clone(), uri, &hs) else { continue };
            rep.case(&format!("required={required} proxy={proxy} async={asynch} {} {hs:?}", method.as_str()));
            let before: Vec<(String, Vec<String>)> = TOS.iter().map(|t| (t.1.to_string(), held(&store, t.1))).collect();
            let r = rep.guard("register", || if asynch { run(reg.handle_register_async(&rq)) } else { reg.handle_register(&rq) });
            let Some(r) = r else { continue };
            let after: Vec<(String, Vec<String>)> = TOS.iter().map(|t| (t.1.to_string(), held(&store, t.1))).collect();
            let entitled = !key.is_empty() && (!required || (verified.is_some() && owner.is_some() && same(verified.as_deref().unwrap(), owner.unwrap())));
            let ok = matches!(&r, Ok(x) if x.code() == 200);
            for ((k, b), (_, a)) in before.iter().zip(&after) {
                if b != a {
                    rep.check(entitled && k == key, "foreign-change", || format!("the contacts of {k:?} changed from {b:?} to {a:?}; verified user {verified:?}, address {key:?}, owner {owner:?}"));
                    rep.check(ok, "change-but-refused", || format!("answer {:?} though the contacts of {k:?} changed from {b:?} to {a:?}", r.as_ref().map(|x| x.code())));
                    rep.check(whole, "change-missing-field", || format!("the contacts of {k:?} changed"));
                }
            }
            if ok { rep.check(entitled && whole, "accepted", || format!("200 though verified user {verified:?}, address {key:?}, owner {owner:?}, all fields {whole}")); }
            if !entitled || !whole { rep.check(!ok, "accepted", || format!("accepted: verified {verified:?} owner {owner:?}")); }
            let plain = method == Method::Register && hs.iter().any(|(n, v)| n == "CSeq" && v.ends_with("REGISTER"));
            if entitled && whole && plain && mode != 3 && !to.contains('%') && contact == "<sip:new@192.0.2.9>;expires=600" && !(verified.is_none() && required) {
                rep.check(ok, "owner-refused", || format!("the owner's registration was answered {:?}", r.as_ref().map(|x| (x.code(), x.reason().to_string()))));
            }
            vclock::advance(Duration::from_millis(g.range(0, 3000)));
        }
    }
}

// ---------- P05 ----------
/// a store that refuses some changes
#[derive(Clone)]
struct Flaky {
    s: MemoryLocationStore,
    left: Arc<AtomicI64>,
}
impl Flaky {
    fn ask(&self) -> anyhow::Result<()> {
        if self.left.fetch_sub(1, Ordering::SeqCst) == 0 { Err(anyhow::anyhow!("refused")) } else { Ok(()) }
    }
}
impl LocationStore for Flaky {
    fn upsert(&self, b: Binding) -> anyhow::Result<()> { self.ask()?; self.s.upsert(b) }
    fn remove(&self, a: &str, c: &str) -> anyhow::Result<()> { self.ask()?; self.s.remove(a, c) }
    fn remove_all(&self, a: &str) -> anyhow::Result<()> { self.ask()?; self.s.remove_all(a) }
    fn lookup(&self, a: &str) -> anyhow::Result<Vec<Binding>> { self.s.lookup(a) }
    fn cleanup_expired(&self) -> anyhow::Result<usize> { self.s.cleanup_expired() }
}
#[async_trait::async_trait]
impl AsyncLocationStore for Flaky {
    async fn upsert(&self, b: Binding) -> anyhow::Result<()> { LocationStore::upsert(self, b) }
    async fn remove(&self, a: &str, c: &str) -> anyhow::Result<()> { LocationStore::remove(self, a, c) }
    async fn remove_all(&self, a: &str) -> anyhow::Result<()> { LocationStore::remove_all(self, a) }
    async fn lookup(&self, a: &str) -> anyhow::Result<Vec<Binding>> { LocationStore::lookup(self, a) }
    async fn cleanup_expired(&self) -> anyhow::Result<usize> { LocationStore::cleanup_expired(self) }
}
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    until: u128,
    cid: String,
    cseq: u32,
    q: f32,
    ua: Option<String>,
    inst: Option<String>,
    rid: Option<u32>,
}
type Model = BTreeMap<String, BTreeMap<String, Rec>>;
const AORS: &[(&str, &str)] = &[("<sip:a@h.example>", "sip:a@h.example"), ("sip:b@h.example", "sip:b@h.example"), ("\"x\" <sip:b@H.example:5060>;tag=q", "sip:b@h.example:5060"), ("<tel:+1(2)3;ext=4>", "tel:+123;ext=4"), ("<sips:a@h.example>", "sips:a@h.example")];
const URIS: &[&str] = &["sip:p@192.0.2.1", "sip:p@192.0.2.1:5070", "sip:p@192.0.2.1;transport=tcp", "sip:p,q@h", "sip:q@h;x=1;expires=9", "sips:s@h", "sip:[2001:db8::1]:5060"];
fn now() -> u128 { vclock::now_ns() }
const SEC: u128 = 1_000_000_000;

fn p05(rep: &mut Report) {
    rep.rule("seeded histories of REGISTER requests (several contacts, display names and quoted parameters, Expires and expires in every range, q, instance, reg-id, replays and reordered CSeq, wildcard, store refusals at a chosen change), direct store calls, clean-up and clock steps, against a reference store");
    let mut g = rep.rng(5);
    total(rep);
    while rep.time_left() {
        vclock::reset();
        let mem = MemoryLocationStore::new();
        let flaky = Flaky { s: mem.clone(), left: Arc::new(AtomicI64::new(-1)) };
        let (def, min, max) = *g.pick(&[(3600u64, 60u64, 86400u64), (3600, 60, 86400), (100, 70, 200), (60, 60, 60)]);
        let reg: BasicRegistrar<Flaky, DigestAuthenticator<MemoryCredentialStore>> = BasicRegistrar::new(flaky.clone(), None)
            .with_default_expires(Duration::from_secs(def)).with_min_expires(Duration::from_secs(min)).with_max_expires(Duration::from_secs(max));
        let mut m: Model = AORS.iter().map(|a| (a.1.to_string(), BTreeMap::new())).collect();
        let mut hist = String::new();
        for _ in 0..g.range(2, 14) {
            match g.below(10) {
                0 => { let d = g.pick(&[1u64, 30, 59, 60, 61, 100, 3600]) * 1_000_000_000 + g.below(2); vclock::advance(Duration::from_nanos(d)); hist += &format!(" +{d}ns"); }
                1 => { let n = mem.cleanup_expired(); hist += " cleanup"; rep.check(n.is_ok(), "cleanup", || format!("{n:?}")); }
                2 => {
                    let (_, key) = *g.pick(AORS);
                    let u = g.pick_s(URIS);
                    hist += &format!(" remove {key} {u}");
                    let _ = mem.remove(key, &u);
                    m.get_mut(key).unwrap().remove(&u);
                }
                3 if g.chance(1, 3) => {
                    let (_, key) = *g.pick(AORS);
                    hist += &format!(" fill {key}");
                    for i in 0..25u32 {
                        let u = format!("sip:fill{i}@h");
                        purge(&mut m);
                        let full = m[key].len() >= 20 && !m[key].contains_key(&u);
                        let r = mem.upsert(Binding::new(key.into(), u.as_str().into(), Duration::from_secs(100)).unwrap().with_call_id("f".into()).unwrap().with_cseq(1).unwrap());
                        rep.check(r.is_ok() != full, "limit-per-user", || format!("{} contacts held, {u} gave {r:?}", m[key].len()));
                        if !full { m.get_mut(key).unwrap().insert(u, Rec { until: now() + 100 * SEC, cid: "f".into(), cseq: 1, q: 1.0, ua: None, inst: None, rid: None }); }
                    }
                }
                _ => register(rep, &mut g, &reg, &flaky, &mut m, &mut hist, (def, min, max)),
            }
            // the lookups
            purge(&mut m);
            for (key, want) in &m {
                let got = match mem.lookup(key) { Ok(v) => v, Err(e) => { rep.fail("lookup", &format!("{e}")); continue } };
                let mut have: BTreeMap<String, Rec> = BTreeMap::new();
                let n = got.len();
                for b in got {
                    rep.check(b.aor() == key, "lookup-address", || format!("a binding of {} for {key}", b.aor()));
                    have.insert(b.contact().to_string(), Rec { until: now() + b.expires().as_nanos(), cid: b.call_id().into(), cseq: b.cseq(), q: b.q_value(), ua: b.user_agent().map(String::from), inst: b.instance_id().map(|s| s.to_string()), rid: b.reg_id() });
                }
                rep.check(n == have.len() && &have == want, "lookup-differs", || format!("after{hist}\n  {key}: stored {have:?}\n  expected {want:?}"));
            }
        }
    }
}
fn purge(m: &mut Model) {
    for v in m.values_mut() { v.retain(|_, r| r.until > now()); }
}
#[allow(clippy::too_many_arguments)]
fn register(rep: &mut Report, g: &mut Rng, reg: &BasicRegistrar<Flaky, DigestAuthenticator<MemoryCredentialStore>>, flaky: &Flaky, m: &mut Model, hist: &mut String, lim: (u64, u64, u64)) {
    let (def, min, max) = lim;
    let (to, key) = *g.pick(AORS);
    let cid = g.pick_s(&["c1", "c1", "c2"]);
    let cseq = *g.pick(&[1u32, 2, 3, 4, 5, 2_147_483_647]);
    let ua = if g.chance(1, 4) { Some("UA/1".to_string()) } else { None };
    let mut hs = vec![hv("Via", "SIP/2.0/UDP h;branch=z9hG4bKa"), hv("From", "<sip:x@y>;tag=1"), hv("To", to), hv("Call-ID", cid.clone()), hv("CSeq", format!("{cseq} REGISTER"))];
    if let Some(u) = &ua { hs.push(hv("User-Agent", u.clone())); }
    let times: &[u64] = &[0, 1, 59, 60, 70, 100, 200, 600, 86400, 86401, 4_294_967_296];
    let hdr = if g.chance(1, 2) { Some(*g.pick(times)) } else { None };
    if let Some(e) = hdr { hs.push(hv("Expires", e.to_string())); }
    let star = g.chance(1, 8);
    let mut wants: Vec<(String, Option<u64>, f32, Option<String>, Option<u32>)> = vec![];
    if star {
        hs.push(hv("Contact", "*"));
    } else {
        let mut texts: Vec<String> = vec![];
        for _ in 0..g.range(1, 4) {
            let u = g.pick_s(URIS);
            let plain = !u.contains([',', ';', '?']);
            let e = if g.chance(2, 3) { Some(if g.chance(1, 2) { def.max(min) } else { *g.pick(times) }) } else { None };
            let mut t = match g.below(4) {
                0 if plain => u.clone(),
                1 => format!("\"Al; expires=5, <sip:z@z>\\\"q\" <{u}>"),
                2 => format!("Al <{u}>"),
                _ => format!("<{u}>"),
            };
            if g.chance(1, 3) { t += *g.pick(&[";x=\"a;expires=7,q=0.1\"", ";methods=\"INVITE, BYE\"", ";flag"]); }
            let mut q = 1.0;
            if let Some(e) = e { t += &format!(";{}={e}", g.pick_s(&["expires", "Expires"])); }
            if g.chance(1, 3) { let s = *g.pick(&["0.5", "0", "1.0", "0.001"]); q = s.parse().unwrap(); t += &format!(";q={s}"); }
            let mut inst = None;
            let mut rid = None;
            if g.chance(1, 5) { inst = Some("\"<urn:uuid:1>\"".to_string()); t += ";+sip.instance=\"<urn:uuid:1>\""; rid = Some(3); t += ";reg-id=3"; }
            texts.push(t);
            wants.push((u, e, q, inst, rid));
        }
        if g.chance(1, 2) && wants.iter().all(|w| !w.0.contains(',')) { hs.push(hv("Contact", texts.join(", "))); } else {
            if wants.iter().any(|w| w.0.contains(',')) { return }
            for t in texts { hs.push(hv("Contact", t)); }
        }
    }
    let fail_at = if g.chance(1, 6) { g.below(4) as i64 } else { -1 };
    let asynch = g.chance(1, 2);
    let Some(rq) = request(Method::Register, "sip:h.example", &hs) else { return };
    *hist += &format!(" register({} {cid}/{cseq} {:?} async={asynch} refuse#{fail_at})", key, &hs[5..]);
    rep.case(&format!("limits {lim:?}:{hist}"));
    purge(m);
    let before = m[key].clone();
    // what should happen
    let mut want = Ok(before.clone());
    let mut changes = 0;
    if star {
        if hdr != Some(0) || before.values().any(|r| r.cid == cid && cseq <= r.cseq) { want = Err("refuse"); } else { want = Ok(BTreeMap::new()); changes = 1; }
    } else {
        for (u, e, q, inst, rid) in &wants {
            let secs = e.or(hdr).unwrap_or(def);
            let late = before.get(u).is_some_and(|r| r.cid == cid && cseq <= r.cseq);
            if late || (secs != 0 && (secs < min || secs > max || secs > 86400)) { want = Err("refuse"); break; }
            if let Ok(w) = &mut want {
                changes += 1;
                if secs == 0 { w.remove(u); } else {
                    w.insert(u.clone(), Rec { until: now() + secs as u128 * SEC, cid: cid.clone(), cseq, q: *q, ua: ua.clone(), inst: inst.clone(), rid: *rid });
                    if w.len() > 20 { want = Err("full"); break; }
                }
            }
        }
    }
    // one refusal by the store, not two: undoing may only fail if the store refuses again
    let fail_at = if want == Err("full") { -1 } else { fail_at };
    if want.is_ok() && fail_at >= 0 && fail_at < changes { want = Err("store"); }
    flaky.left.store(fail_at, Ordering::SeqCst);
    let r = rep.guard("register", || if asynch { run(reg.handle_register_async(&rq)) } else { reg.handle_register(&rq) });
    flaky.left.store(-1, Ordering::SeqCst);
    let Some(r) = r else { return };
    let ok = matches!(&r, Ok(x) if x.code() == 200);
    rep.check(ok == want.is_ok(), if ok { "accepted" } else { "refused" }, || format!("answer {:?}, expected {want:?}", r.as_ref().map(|x| (x.code(), x.reason().to_string())).map_err(|e| e.to_string())));
    match &want {
        Ok(w) => { m.insert(key.to_string(), w.clone()); }
        Err(_) => {}
    }
    if let (Ok(x), Ok(w), false) = (&r, &want, star) {
        let mut got: Vec<String> = x.headers().get_all("Contact").map(|s| s.to_string()).collect();
        let mut exp: Vec<String> = w.iter().map(|(u, r)| { let t = if u.contains([',', ';', '?']) { format!("<{u}>") } else { u.clone() }; let s = (r.until - now()) / SEC; if s == 0 { format!("{t};expires=0") } else { format!("{t};expires={s};q={}", r.q) } }).collect();
        got.sort();
        exp.sort();
        rep.check(got == exp, "answer-lists", || format!("answered contacts {got:?}, held {exp:?}"));
    }
}
/// the limit over all users
fn total(rep: &mut Report) {
    vclock::reset();
    let s = MemoryLocationStore::new();
    let b = |i: u32, e: u64| Binding::new(format!("sip:u{}@h", i / 20).as_str().into(), format!("sip:c{}@h", i % 20).as_str().into(), Duration::from_secs(e)).unwrap();
    rep.case("100000 contacts of 5000 users");
    for i in 0..100_000 {
        if s.upsert(b(i, if i < 3 { 60 } else { 6000 })).is_err() { rep.fail("limit-total-early", &format!("contact {i} of 100000 refused")); return }
    }
    rep.check(s.upsert(b(100_001, 60)).is_err(), "limit-total", || "contact 100001 was accepted".into());
    rep.check(s.upsert(b(50, 6000)).is_ok(), "limit-total-refresh", || "a refresh at the limit was refused".into());
    vclock::advance(Duration::from_secs(61));
    rep.check(s.upsert(b(100_001, 60)).is_ok(), "limit-total-expired", || "three contacts have expired, yet a new one is refused".into());
}

fn main() {
    let mut rep = Report::from_args();
    match rep.prop.as_str() {
        "P04" => p04(&mut rep),
        "P05" => p05(&mut rep),
        p => panic!("unknown property {p}"),
    }
    rep.finish();
}
