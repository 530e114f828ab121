//! P01-P03, bounded: seeded requests, credentials and histories against the real sip-auth crate.
use bytes::Bytes;
use common::{Report, Rng};
use sha2::Digest;
use sip_auth::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::HashMap;
use std::time::Duration;

// ---------- the published formulas, written down independently ----------
fn hx(a: DigestAlgorithm, d: &[u8]) -> String {
    use DigestAlgorithm::*;
    match a {
        Md5 | Md5Sess => hex::encode(md5::compute(d).0),
        Sha256 | Sha256Sess => hex::encode(sha2::Sha256::digest(d)),
        Sha512 | Sha512Sess => hex::encode(sha2::Sha512::digest(d)),
        Sha512_256 | Sha512_256Sess => hex::encode(sha2::Sha512::digest(d))[..64].to_string(),
    }
}
fn sess(a: DigestAlgorithm) -> bool {
    use DigestAlgorithm::*;
    matches!(a, Md5Sess | Sha256Sess | Sha512Sess | Sha512_256Sess)
}
fn alg_name(a: DigestAlgorithm) -> &'static str {
    use DigestAlgorithm::*;
    match a {
        Md5 => "MD5",
        Md5Sess => "MD5-sess",
        Sha256 => "SHA-256",
        Sha256Sess => "SHA-256-sess",
        Sha512 => "SHA-512",
        Sha512Sess => "SHA-512-sess",
        Sha512_256 => "SHA-512-256",
        Sha512_256Sess => "SHA-512-256-sess",
    }
}
fn qop_name(q: Qop) -> &'static str {
    match q {
        Qop::Auth => "auth",
        Qop::AuthInt => "auth-int",
    }
}
#[allow(clippy::too_many_arguments)]
fn digest(a: DigestAlgorithm, user: &str, realm: &str, pw: &str, verb: &str, uri: &str, nonce: &str, nc: &str, cn: &str, q: Qop, body: &[u8]) -> String {
    let mut h1 = hx(a, [user, realm, pw].join(":").as_bytes());
    if sess(a) {
        h1 = hx(a, [&h1, nonce, cn].join(":").as_bytes());
    }
    let mut two = format!("{verb}:{uri}");
    if q == Qop::AuthInt {
        two = format!("{two}:{}", hx(a, body));
    }
    hx(a, [h1.as_str(), nonce, nc, cn, qop_name(q), &hx(a, two.as_bytes())].join(":").as_bytes())
}
const ALGS: &[DigestAlgorithm] = &[
    DigestAlgorithm::Md5, DigestAlgorithm::Md5Sess, DigestAlgorithm::Sha256, DigestAlgorithm::Sha256Sess,
    DigestAlgorithm::Sha512, DigestAlgorithm::Sha512Sess, DigestAlgorithm::Sha512_256, DigestAlgorithm::Sha512_256Sess,
];
const VERBS: &[Method] = &[Method::Register, Method::Invite, Method::Options, Method::Message, Method::Bye];
const URIS: &[&str] = &["sip:example.com", "sip:example.com:5061", "sips:a@b.example", "sip:x@h;p=1", "tel:+1234567", "sip:example.co"];
const USERS: &[&str] = &["alice", "bob", "a:b", "Ünï", "alice ", "a'x", "ALICE", "x,y", "b=c"];
const PWS: &[&str] = &["secret", "", "p:w", "pässwörd", "\"q\"", "secret ", "x"];
const REALMS: &[&str] = &["example.com", "a:b", "réalm", "two words", "example.org"];

fn name_of(m: &Method) -> String {
    m.as_str().to_string()
}
fn request(m: &Method, uri: &str, hs: &[(String, String)], body: &[u8]) -> Option<Request> {
    let mut h = Headers::new();
    for (n, v) in hs {
        h.push(n.as_str(), v.as_str()).ok()?;
    }
    Request::new(RequestLine::new(m.clone(), Uri::parse(uri).ok()?), h, Bytes::copy_from_slice(body)).ok()
}
/// value of a quoted or plain parameter of a challenge
fn ch_param(v: &str, k: &str) -> Option<String> {
    let at = v.find(&format!("{k}="))?;
    let rest = &v[at + k.len() + 1..];
    Some(match rest.strip_prefix('"') {
        Some(r) => r[..r.find('"')?].to_string(),
        None => rest.split(',').next()?.to_string(),
    })
}

#[derive(Clone, Debug)]
struct Seen {
    at: u128,
    nc: u32,
    what: Option<(String, String, Vec<u8>)>,
    used: u128,
}
struct World {
    alg: DigestAlgorithm,
    qop: Qop,
    proxy: bool,
    realm: String,
    ttl: u128,
    age: u128,
    users: Vec<(String, String)>,
    auth: DigestAuthenticator<MemoryCredentialStore>,
    opaque: String,
    seen: HashMap<String, Seen>,
    issued: Vec<String>,
    desc: String,
}
fn world(g: &mut Rng) -> World {
    let alg = *g.pick(ALGS);
    let qop = if g.chance(1, 2) { Qop::Auth } else { Qop::AuthInt };
    let proxy = g.chance(1, 3);
    let realm = g.pick_s(REALMS);
    let ttl = *g.pick(&[0u64, 1, 5, 60, 300]);
    let age = *g.pick(&[0u64, 2, 10, 10, 100]);
    let mut users: Vec<(String, String)> = vec![];
    for _ in 0..g.range(1, 4) {
        let u = g.pick_s(USERS);
        if !users.iter().any(|(x, _)| *x == u) {
            users.push((u, g.pick_s(PWS)));
        }
    }
    let mut creds: Vec<Credentials> = vec![];
    for (u, p) in &users {
        if g.chance(1, 4) {
            // the same name in another realm, with another password
            creds.push(Credentials::new(u, "secret", "elsewhere"));
        }
        creds.push(Credentials::new(u, p, &realm));
    }
    let steps: Vec<u32> = { let mut s = vec![0, 1, 2, 3, 4]; g.shuffle(&mut s); s };
    let mut auth = DigestAuthenticator::new(&realm, MemoryCredentialStore::with(creds));
    for s in steps {
        auth = match s {
            0 => auth.with_algorithm(alg),
            1 => auth.with_qop(qop),
            2 => auth.with_proxy_auth(proxy),
            3 => auth.with_nonce_ttl(Duration::from_secs(ttl)),
            _ => auth.with_max_request_age(Duration::from_secs(age)),
        };
    }
    let desc = format!("{} {} proxy={proxy} realm={realm:?} ttl={ttl}s age={age}s users={users:?}", alg_name(alg), qop_name(qop));
    World {
        alg, qop, proxy, realm, users, opaque: auth.opaque().to_string(), auth, seen: HashMap::new(), issued: vec![], desc,
        ttl: ttl as u128 * 1_000_000_000, age: age as u128 * 1_000_000_000,
    }
}
impl World {
    fn hname(&self) -> &'static str {
        if self.proxy { "Proxy-Authorization" } else { "Authorization" }
    }
    fn challenge(&mut self, rep: &mut Report, g: &mut Rng) {
        let m = g.pick(VERBS).clone();
        let Some(rq) = request(&m, "sip:example.com", &[("Via".into(), "SIP/2.0/UDP h;branch=z9hG4bKa".into()), ("From".into(), "<sip:a@b>;tag=1".into()), ("To".into(), "<sip:a@b>".into()), ("Call-ID".into(), "c".into()), ("CSeq".into(), format!("1 {}", m.as_str()))], b"") else { return };
        let stale = g.chance(1, 5);
        let Some(r) = rep.guard("challenge", || if stale { self.auth.challenge_stale(&rq) } else { Authenticator::challenge(&self.auth, &rq) }) else { return };
        let r = match r {
            Ok(r) => r,
            Err(e) => { rep.fail("challenge-refused", &format!("{e}")); return }
        };
        rep.check(r.code() == if self.proxy { 407 } else { 401 }, "challenge-code", || format!("challenge with {}", r.code()));
        let name = if self.proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" };
        let v = r.headers().get(name).unwrap_or("").to_string();
        let fine = v.starts_with("Digest ") && ch_param(&v, "realm").as_deref() == Some(&self.realm)
            && ch_param(&v, "algorithm").as_deref() == Some(alg_name(self.alg)) && ch_param(&v, "qop").as_deref() == Some(qop_name(self.qop))
            && ch_param(&v, "opaque").as_deref() == Some(&self.opaque) && v.contains("stale=true") == stale;
        rep.check(fine, "challenge-text", || format!("challenge {v:?}"));
        let n = ch_param(&v, "nonce").unwrap_or_default();
        rep.check(n.len() >= 16 && !self.seen.contains_key(&n), "challenge-repeats", || format!("challenge value {n:?} was issued before"));
        self.seen.insert(n.clone(), Seen { at: vclock::now_ns(), nc: 0, what: None, used: vclock::now_ns() });
        self.issued.push(n);
    }
    fn live(&self, n: &str) -> bool {
        self.seen.get(n).is_some_and(|s| vclock::now_ns() - s.at <= self.ttl)
    }
}

/// one credential line: the parameters in order, as (name, value, quoted)
#[derive(Clone, Debug)]
struct Line {
    scheme: String,
    ps: Vec<(String, String, bool)>,
}
impl Line {
    fn text(&self, g: &mut Rng) -> String {
        let sep = g.pick_s(&[", ", ",", " , "]);
        let f: Vec<String> = self.ps.iter().map(|(k, v, q)| if *q { format!("{k}=\"{v}\"") } else { format!("{k}={v}") }).collect();
        format!("{} {}", self.scheme, f.join(&sep))
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.ps.iter().find(|(n, _, _)| n.eq_ignore_ascii_case(k)).map(|(_, v, _)| v.as_str())
    }
    fn dup(&self) -> bool {
        (0..self.ps.len()).any(|i| (0..i).any(|j| self.ps[i].0.eq_ignore_ascii_case(&self.ps[j].0)))
    }
    fn set(&mut self, k: &str, v: &str) {
        for p in &mut self.ps {
            if p.0.eq_ignore_ascii_case(k) {
                p.1 = v.to_string();
            }
        }
    }
}
struct Try {
    m: Method,
    uri: String,
    body: Vec<u8>,
    line: Line,
    header: Option<String>,
    more: Vec<String>,
}
/// a correct request by one of the users on one of the challenges
fn correct(w: &World, g: &mut Rng) -> Try {
    let m = g.pick(VERBS).clone();
    let uri = g.pick_s(URIS);
    let body: Vec<u8> = match g.below(3) { 0 => vec![], 1 => b"v=0".to_vec(), _ => (0..g.below(40)).map(|_| g.below(256) as u8).collect() };
    let (user, pw) = g.pick(&w.users).clone();
    let nonce = if w.issued.is_empty() { "n".to_string() } else if g.chance(2, 3) { w.issued.last().unwrap().clone() } else { g.pick(&w.issued).clone() };
    let last = w.seen.get(&nonce).map(|s| s.nc).unwrap_or(0);
    let ncn = match g.below(8) { 0 => last, 1 => last.saturating_sub(1), 2 => last + g.below(5) as u32, 3 => last + 1000, 4 => last + 1001, _ => last + 1 };
    let nc = format!("{ncn:08x}");
    let cn = g.pick_s(&["0a4f113b", "x", "", "ünïc", "c:d"]);
    let resp = digest(w.alg, &user, &w.realm, &pw, &name_of(&m), &uri, &nonce, &nc, &cn, w.qop, &body);
    let mut ps: Vec<(String, String, bool)> = vec![
        ("username".into(), user, true), ("realm".into(), w.realm.clone(), true), ("nonce".into(), nonce, true), ("uri".into(), uri.clone(), true),
        ("response".into(), resp, true), ("qop".into(), qop_name(w.qop).into(), false), ("nc".into(), nc, false), ("cnonce".into(), cn, true), ("opaque".into(), w.opaque.clone(), true),
    ];
    if g.chance(2, 3) {
        ps.push(("algorithm".into(), alg_name(w.alg).into(), false));
    }
    if g.chance(1, 3) {
        g.shuffle(&mut ps);
    }
    if g.chance(1, 6) {
        for p in &mut ps { p.0 = p.0.to_uppercase(); }
    }
    Try { m, uri, body, line: Line { scheme: g.pick_s(&["Digest", "Digest", "digest", "DIGEST"]), ps }, header: None, more: vec![] }
}
/// what may be said without a nonce being live: the static part of the oracle
fn should(w: &World, t: &Try) -> bool {
    let l = &t.line;
    if t.header.is_some() || !l.scheme.eq_ignore_ascii_case("Digest") || l.dup() {
        return false;
    }
    let (Some(user), Some(realm), Some(nonce), Some(uri), Some(resp), Some(q), Some(nc), Some(cn), Some(op)) =
        (l.get("username"), l.get("realm"), l.get("nonce"), l.get("uri"), l.get("response"), l.get("qop"), l.get("nc"), l.get("cnonce"), l.get("opaque"))
    else { return false };
    let Some((_, pw)) = w.users.iter().find(|(u, _)| u == user) else { return false };
    if realm != w.realm || uri != t.uri || op != w.opaque || !q.eq_ignore_ascii_case(qop_name(w.qop)) {
        return false;
    }
    if let Some(a) = l.get("algorithm") {
        if !a.eq_ignore_ascii_case(alg_name(w.alg)) {
            return false;
        }
    }
    if resp != digest(w.alg, user, realm, pw, &name_of(&t.m), uri, nonce, nc, cn, w.qop, &t.body) {
        return false;
    }
    let Ok(n) = u32::from_str_radix(nc, 16) else { return false };
    let Some(s) = w.seen.get(nonce) else { return false };
    let now = vclock::now_ns();
    if n > 1_000_000 || n > s.nc + 1000 || now - s.at > w.ttl || (s.nc > 0 && now - s.used > w.age) {
        return false;
    }
    n > s.nc || (n == s.nc && (s.what.is_none() || s.what == Some((name_of(&t.m), t.uri.clone(), t.body.clone()))))
}
fn spoil(w: &World, g: &mut Rng, t: &mut Try) {
    let keys = ["username", "realm", "nonce", "uri", "response", "qop", "nc", "cnonce", "opaque", "algorithm"];
    let k = g.pick_s(&keys);
    match g.below(14) {
        0 => t.line.ps.retain(|p| !p.0.eq_ignore_ascii_case(&k)),
        1 => {
            let v = t.line.get(&k).unwrap_or("x").to_string();
            t.line.ps.push((k, v, true));
        }
        2 => {
            let at = g.below(t.line.ps.len() as u64 + 1) as usize;
            t.line.ps.insert(at, (k, g.pick_s(&["x", "00000009", "auth", "MD5", "alice", "example.org"]), true));
        }
        3 => {
            let v = t.line.get(&k).unwrap_or("").to_string();
            let mut cs: Vec<char> = v.chars().collect();
            if cs.is_empty() { cs.push('q') } else {
                let i = g.below(cs.len() as u64) as usize;
                match g.below(3) { 0 => { cs.remove(i); } 1 => cs[i] = if cs[i] == 'a' { 'b' } else { 'a' }, _ => cs.truncate(i) }
            }
            let v: String = cs.into_iter().collect();
            t.line.set(&k, &v);
        }
        4 => t.m = g.pick(VERBS).clone(),
        5 => t.uri = g.pick_s(URIS),
        6 => {
            // target changed in both places, the digest is of the first
            let u = g.pick_s(URIS);
            t.uri = u.clone();
            t.line.set("uri", &u);
        }
        7 => t.body = b"tampered".to_vec(),
        8 => t.header = Some(g.pick_s(&["Authorization", "Proxy-Authorization", "WWW-Authenticate", "X-Authorization"])),
        9 => t.line.scheme = g.pick_s(&["Basic", "Bearer", "", "Digestx", "Dig"]),
        10 => {
            // a digest made with another user's password, or with another algorithm or level
            let (u, p) = (g.pick_s(USERS), g.pick_s(PWS));
            let a = *g.pick(ALGS);
            let q = if g.chance(1, 2) { Qop::Auth } else { Qop::AuthInt };
            let r = digest(a, &u, &w.realm, &p, &name_of(&t.m), &t.uri, t.line.get("nonce").unwrap_or(""), t.line.get("nc").unwrap_or(""), t.line.get("cnonce").unwrap_or(""), q, &t.body);
            t.line.set("username", &u);
            t.line.set("response", &r);
            if g.chance(1, 2) { t.line.set("algorithm", alg_name(a)); }
            if g.chance(1, 2) { t.line.set("qop", qop_name(q)); }
        }
        11 => {
            let v = g.pick_s(&["", "\u{0}", "ffffffff", "100000000", "-1", "+1", "zz", "000f4241", "0000000g", " 1"]);
            t.line.set("nc", &v);
        }
        12 => {
            let n = match g.below(3) { 0 => "x".repeat(32), 1 => t.line.get("nonce").unwrap_or("").to_uppercase(), _ => "".into() };
            t.line.set("nonce", &n);
            if let (Some(u), Some((_, p))) = (t.line.get("username").map(str::to_string), w.users.iter().find(|(u, _)| Some(u.as_str()) == t.line.get("username"))) {
                let r = digest(w.alg, &u, &w.realm, p, &name_of(&t.m), &t.uri, &n, t.line.get("nc").unwrap_or(""), t.line.get("cnonce").unwrap_or(""), w.qop, &t.body);
                t.line.set("response", &r);
            }
        }
        _ => {
            let v = "x".repeat(*g.pick(&[0usize, 1, 128, 129, 256, 257, 300, 513]));
            t.line.set(&k, &v);
        }
    }
}
fn present(rep: &mut Report, g: &mut Rng, w: &mut World, t: &Try, rt: &tokio::runtime::Runtime) {
    let mut g2 = g.clone();
    let text = t.line.text(&mut g2);
    let name = t.header.clone().unwrap_or_else(|| w.hname().to_string());
    let header_is_ours = name == w.hname();
    let mut hs = vec![("Via".to_string(), "SIP/2.0/UDP 192.0.2.1:5060;branch=z9hG4bKx".to_string())];
    hs.push((name.clone(), text.clone()));
    for m in &t.more {
        hs.push((w.hname().to_string(), m.clone()));
    }
    let Some(rq) = request(&t.m, &t.uri, &hs, &t.body) else { return };
    let mut t2 = Try { m: t.m.clone(), uri: t.uri.clone(), body: t.body.clone(), line: t.line.clone(), header: if header_is_ours { None } else { t.header.clone() }, more: vec![] };
    // values the header cannot carry as written are read as something else: leave those to the proof
    let odd = t2.line.ps.iter().any(|(_, v, q)| v.contains('"') || v.trim() != v && !q || v.len() > 256 || v.contains('\0'));
    let want = should(w, &t2);
    if t2.line.scheme.is_empty() { t2.line.scheme = "-".into(); }
    rep.case(&format!("{} | {} {} body={} | {name}: {text} | t={}", w.desc, name_of(&t.m), t.uri, String::from_utf8_lossy(&t.body), vclock::now_ns()));
    let how = g.below(4);
    let got = rep.guard("verify", || {
        if how == 0 {
            rt.block_on(w.auth.verify_async(&rq, rq.headers()))
        } else {
            Authenticator::verify(&w.auth, &rq, rq.headers())
        }
    });
    let Some(got) = got else { return };
    let ok = matches!(got, Ok(true));
    rep.check(!ok || want, "accepted-wrongly", || format!("accepted; header {text:?}"));
    if !odd {
        rep.check(ok || !want, "refused-wrongly", || format!("refused ({got:?}); header {text:?}"));
    }
    if ok {
        if let Some(nonce) = t.line.get("nonce") {
            let n = t.line.get("nc").and_then(|n| u32::from_str_radix(n, 16).ok()).unwrap_or(0);
            if let Some(s) = w.seen.get_mut(nonce) {
                s.nc = n;
                s.what = Some((name_of(&t.m), t.uri.clone(), t.body.clone()));
                s.used = vclock::now_ns();
            }
        }
    }
}

fn p01(rep: &mut Report) {
    rep.rule("seeded authenticators, challenges and credential lines, correct ones and ones spoilt in one or two places");
    let mut g = rep.rng(1);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    while rep.time_left() {
        vclock::reset();
        let mut w = world(&mut g);
        for _ in 0..g.range(2, 14) {
            if w.issued.is_empty() || g.chance(1, 4) {
                w.challenge(rep, &mut g);
            }
            let mut t = correct(&w, &mut g);
            if g.chance(2, 3) {
                spoil(&w, &mut g, &mut t);
                if g.chance(1, 3) { spoil(&w, &mut g, &mut t); }
            }
            present(rep, &mut g, &mut w, &t, &rt);
            if g.chance(1, 6) {
                vclock::advance(Duration::from_millis(*g.pick(&[1u64, 900, 1000, 1001, 5000, 10000, 10001, 60000])));
            }
        }
        // arbitrary bytes in the header: no crash, no acceptance
        let junk: String = (0..g.below(60)).map(|_| *g.pick(&['"', '\\', ',', '=', ' ', 'a', 'D', 'i', 'g', 'e', 's', 't', '\t', 'é', '\u{2028}', ';'])).collect();
        let v = if g.chance(1, 2) { format!("Digest {junk}") } else { junk };
        if let Some(rq) = request(&Method::Register, "sip:example.com", &[(w.hname().to_string(), v.clone())], b"") {
            rep.case(&format!("{} | junk {v:?}", w.desc));
            let r = rep.guard("verify-junk", || Authenticator::verify(&w.auth, &rq, rq.headers()));
            rep.check(!matches!(r, Some(Ok(true))), "accepted-junk", || format!("accepted {v:?}"));
        }
    }
}

fn p02(rep: &mut Report) {
    rep.rule("seeded histories of challenges, correct answers, replays, failed guesses and clock steps; nonce store under its limit");
    let mut g = rep.rng(2);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    while rep.time_left() {
        vclock::reset();
        let mut w = world(&mut g);
        w.challenge(rep, &mut g);
        let mut old: Vec<Try> = vec![];
        for _ in 0..g.range(4, 40) {
            if g.chance(1, 8) {
                w.challenge(rep, &mut g);
            }
            let t = match g.below(6) {
                0 | 1 if !old.is_empty() => {
                    // the same line again, perhaps on another method, target or body whose digest is recomputed
                    let o = g.pick(&old);
                    let mut t = Try { m: o.m.clone(), uri: o.uri.clone(), body: o.body.clone(), line: o.line.clone(), header: None, more: vec![] };
                    if g.chance(2, 3) {
                        match g.below(3) {
                            0 => t.m = g.pick(VERBS).clone(),
                            1 => { t.uri = g.pick_s(URIS); let u = t.uri.clone(); t.line.set("uri", &u); }
                            _ => t.body.push(b':'),
                        }
                        let user = t.line.get("username").unwrap_or("").to_string();
                        if let Some((_, p)) = w.users.iter().find(|(u, _)| *u == user) {
                            let r = digest(w.alg, &user, &w.realm, p, &name_of(&t.m), &t.uri, t.line.get("nonce").unwrap_or(""), t.line.get("nc").unwrap_or(""), t.line.get("cnonce").unwrap_or(""), w.qop, &t.body);
                            t.line.set("response", &r);
                        }
                    }
                    t
                }
                2 => {
                    let mut t = correct(&w, &mut g);
                    spoil(&w, &mut g, &mut t);
                    t
                }
                _ => correct(&w, &mut g),
            };
            present(rep, &mut g, &mut w, &t, &rt);
            old.push(t);
            if g.chance(1, 3) {
                vclock::advance(Duration::from_millis(*g.pick(&[1u64, 500, 1000, 2000, 2001, 5000, 9000, 10001, 60000, 300001])));
            }
            for n in w.issued.iter().take(3) {
                let live = w.live(n);
                rep.check(w.auth.is_nonce_stale(n) != live, "stale", || format!("challenge {n} live={live} but reported otherwise"));
            }
        }
        // the store itself
        let max = g.range(0, 25) as usize;
        let ttl = g.range(0, 20);
        let nm = NonceManager::new(Duration::from_secs(ttl)).with_max_nonces(max);
        let mut made: Vec<(String, u128)> = vec![];
        for _ in 0..g.range(1, 60) {
            rep.case(&format!("store max={max} ttl={ttl}s after {} challenges, t={}", made.len(), vclock::now_ns()));
            let Some(n) = rep.guard("generate", || nm.generate()) else { break };
            made.push((n.value().to_string(), vclock::now_ns()));
            rep.check(nm.count() <= max.max(1), "store-limit", || format!("{} live challenges, limit {max}", nm.count()));
            rep.check(nm.verify(n.value()), "fresh-refused", || "a challenge just issued is not valid".into());
            if made.len() < max {
                for (v, at) in &made {
                    let live = vclock::now_ns() - at <= ttl as u128 * 1_000_000_000;
                    rep.check(nm.verify(v) == live, "store-validity", || format!("challenge issued at {at} live={live}, the store says otherwise"));
                }
            } else {
                for (v, at) in &made {
                    let live = vclock::now_ns() - at <= ttl as u128 * 1_000_000_000;
                    rep.check(live || !nm.verify(v), "store-expired", || format!("challenge issued at {at} still valid"));
                }
            }
            if g.chance(1, 3) { vclock::advance(Duration::from_millis(g.range(1, 8000))); }
            if g.chance(1, 12) { nm.cleanup(); }
        }
    }
}

fn p03(rep: &mut Report) {
    rep.rule("seeded users, realms, targets and bodies: what the client writes is read back by the server, and the confirmation by the client");
    let mut g = rep.rng(3);
    while rep.time_left() {
        vclock::reset();
        let mut w = world(&mut g);
        if w.ttl == 0 || w.age == 0 { continue; }
        let word = |g: &mut Rng| -> String {
            let n = g.range(1, 20);
            (0..n).map(|_| *g.pick(&['a', 'Z', '9', ' ', ':', ',', '=', ';', '@', '\'', 'é', '漢', '<', '%', '\\', '/'])).collect::<String>()
        };
        let mut user = word(&mut g);
        while user.ends_with('\\') { user.push('x'); }
        let user = user.trim().to_string() + "u";
        let pw: String = if g.chance(1, 8) { String::new() } else { word(&mut g) + if g.chance(1, 4) { "\"" } else { "" } };
        let realm = if g.chance(1, 2) { w.realm.clone() } else { word(&mut g).trim().replace('\\', "") + "r" };
        let auth = DigestAuthenticator::new(&realm, MemoryCredentialStore::with(vec![Credentials::new(&user, &pw, &realm)]))
            .with_algorithm(w.alg).with_qop(w.qop).with_proxy_auth(w.proxy).with_nonce_ttl(Duration::from_secs(60));
        w.opaque = auth.opaque().to_string();
        w.realm = realm.clone();
        w.auth = auth;
        w.desc = format!("{} {} proxy={} user={user:?} realm={realm:?} pw={pw:?}", alg_name(w.alg), qop_name(w.qop), w.proxy);
        rep.case(&w.desc.clone());
        w.issued.clear();
        w.seen.clear();
        w.challenge(rep, &mut g);
        let Some(nonce) = w.issued.last().cloned() else { continue };
        let mut client = DigestClient::new(&user, &pw);
        for round in 0..g.range(1, 4) {
            let m = g.pick(VERBS).clone();
            let uri = g.pick_s(URIS);
            let body: Vec<u8> = (0..g.below(50)).map(|_| g.below(256) as u8).collect();
            rep.case(&format!("{} | {} {uri} body={body:?} round {round}", w.desc, name_of(&m)));
            let Some(line) = rep.guard("generate", || client.generate_authorization(&m, &uri, &realm, &nonce, w.alg, Some(w.qop), Some(&w.opaque), &body)) else { break };
            let want = digest(w.alg, &user, &realm, &pw, &name_of(&m), &uri, &nonce, &ch_param(&line, "nc").unwrap_or_default(), &ch_param(&line, "cnonce").unwrap_or_default(), w.qop, &body);
            rep.check(ch_param(&line, "response").as_deref() == Some(&want), "client-formula", || format!("client wrote {line:?}, expected response {want}"));
            let Some(rq) = request(&m, &uri, &[(w.hname().to_string(), line.clone())], &body) else { rep.fail("client-header", &format!("{line:?} is no header value")); break };
            let r = rep.guard("verify", || Authenticator::verify(&w.auth, &rq, rq.headers()));
            rep.check(matches!(r, Some(Ok(true))), "server-refuses-client", || format!("{r:?} for {line:?}"));
            // another password is refused, and does not use up the counter
            let mut wrong = DigestClient::new(&user, &format!("{pw}x"));
            let wl = wrong.generate_authorization(&m, &uri, &realm, &nonce, w.alg, Some(w.qop), Some(&w.opaque), &body);
            if let Some(rq2) = request(&m, &uri, &[(w.hname().to_string(), wl.clone())], &body) {
                let r = rep.guard("verify-wrong", || Authenticator::verify(&w.auth, &rq2, rq2.headers()));
                rep.check(!matches!(r, Some(Ok(true))), "server-accepts-wrong", || format!("{wl:?}"));
            }
            // the confirmation
            let rbody: Vec<u8> = (0..g.below(30)).map(|_| g.below(256) as u8).collect();
            let nn = if g.chance(1, 2) { Some("nextone") } else { None };
            let info = match rep.guard("build_auth_info", || w.auth.build_auth_info(&rq, &rbody, nn)) { Some(Ok(Some(i))) => i, x => { rep.fail("no-confirmation", &format!("{x:?}")); break } };
            let text = info.to_header_value();
            let Some(back) = rep.guard("parse", || AuthInfo::parse(&text)).flatten() else { rep.fail("confirmation-unreadable", &text); break };
            rep.check(back == info, "confirmation-differs", || format!("{info:?} came back as {back:?}"));
            let ok = client.verify_auth_info(&back, &realm, &uri, &nonce, w.alg, &rbody);
            rep.check(matches!(&ok, Ok(n) if n.as_deref() == nn), "client-refuses-server", || format!("{ok:?}"));
            // and what differs from it is refused
            let mut bad = back.clone();
            let (mut r2, mut u2, mut n2, mut b2, mut c2) = (realm.clone(), uri.clone(), nonce.clone(), rbody.clone(), None);
            let what = g.below(8);
            match what {
                0 => { let mut v: Vec<u8> = bad.rspauth.as_bytes().to_vec(); let i = g.below(v.len() as u64) as usize; v[i] = if v[i] == b'0' { b'1' } else { b'0' }; bad.rspauth = SmolStr::new(String::from_utf8(v).unwrap()); }
                1 => r2.push('x'),
                2 => u2 = "sip:other".into(),
                3 => n2.push('x'),
                4 if w.qop == Qop::AuthInt => b2.push(0),
                5 => bad.rspauth = SmolStr::new(&bad.rspauth.as_str()[..bad.rspauth.len() - 1]),
                6 => bad.cnonce = None,
                _ => c2 = Some(DigestClient::new(&user, &format!("{pw}y"))),
            }
            let c: &DigestClient = c2.as_ref().unwrap_or(&client);
            let no = c.verify_auth_info(&bad, &r2, &u2, &n2, w.alg, &b2);
            rep.check(no.is_err(), "client-accepts-wrong", || format!("change {what}: {no:?}"));
            if g.chance(1, 3) { vclock::advance(Duration::from_millis(g.range(0, 5000))); }
        }
    }
}

fn main() {
    let mut rep = Report::from_args();
    match rep.prop.as_str() {
        "P01" => p01(&mut rep),
        "P02" => p02(&mut rep),
        "P03" => p03(&mut rep),
        p => panic!("unknown property {p}"),
    }
    rep.finish();
}
