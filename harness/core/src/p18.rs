use common::{Report, Rng};
use sip_core::{SipUri, TelUri, Uri};
use std::collections::BTreeMap;

type PM = BTreeMap<String, Option<String>>;
type HM = BTreeMap<String, String>;
#[derive(Debug, Clone, PartialEq)]
struct Parts { sips: bool, user: Option<String>, host: String, port: Option<u16>, params: PM, headers: HM }
#[derive(Debug, Clone, PartialEq)]
struct Tel { number: String, global: bool, ctx: Option<String>, params: PM }
fn parts(u: &SipUri) -> Parts {
    Parts { sips: u.is_sips(), user: u.user().map(|s| s.into()), host: u.host().into(), port: u.port(),
        params: u.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect(),
        headers: u.headers().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }
}
fn tel(u: &TelUri) -> Tel {
    Tel { number: u.number().into(), global: u.is_global(), ctx: u.phone_context().map(|s| s.into()),
        params: u.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect() }
}
// ---- the reading of a SIP URI, written down independently of the code -----------------------------------------
fn cut(s: &str, c: char) -> (&str, Option<&str>) { match s.find(c) { Some(i) => (&s[..i], Some(&s[i + c.len_utf8()..])), None => (s, None) } }
fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    let hex = |x: u8| (x as char).to_digit(16).map(|d| d as u8);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() { if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) { o.push(h * 16 + l); i += 3; continue; } }
        o.push(b[i]); i += 1;
    }
    String::from_utf8(o).ok()
}
fn tok(s: &str) -> bool { !s.is_empty() && s.len() <= 64 && s.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c)) }
fn pval(s: &str) -> bool { s.len() <= 256 && s.chars().all(|c| !c.is_control() && !c.is_whitespace() && !";?@".contains(c)) }
fn hval(s: &str) -> bool { s.len() <= 512 && s.chars().all(|c| !c.is_control() && !c.is_whitespace()) }
fn user_ok(s: &str) -> bool { !s.is_empty() && s.len() <= 256 && s.chars().all(|c| !c.is_control() && !"@;?/#[]".contains(c)) }
fn host_ok(s: &str) -> bool { !s.is_empty() && s.len() <= 256 && if s.contains(':') { s.parse::<std::net::Ipv6Addr>().is_ok() } else { s.chars().all(|c| c.is_ascii_alphanumeric() || ".-_".contains(c)) } }
fn digits(s: &str) -> Option<u16> { if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None } }
fn read(x: &str) -> Option<Parts> {
    if x.chars().any(|c| c.is_control()) || x.len() > 2048 { return None; }
    let (sch, rest) = cut(x, ':'); let rest = rest?;
    let sips = sch.eq_ignore_ascii_case("sips");
    if !sips && !sch.eq_ignore_ascii_case("sip") { return None; }
    let (user, rest) = match cut(rest, '@') { (u, Some(r)) => { let d = pct(u.trim())?; if !user_ok(&d) { return None; } (Some(d), r) } (r, None) => (None, r) };
    let (addr, hs) = cut(rest, '?');
    let mut ps = addr.split(';');
    let base = ps.next()?.trim();
    let mut params = PM::new();
    for p in ps {
        if params.len() >= 50 { return None; }
        let p = p.trim(); if p.is_empty() { continue; }
        let (k, v) = cut(p, '='); let k = k.trim();
        if !tok(k) { return None; }
        let v = match v { Some(v) => { let v = v.trim(); if !pval(v) { return None; } Some(v.to_string()) } None => None };
        params.insert(k.to_ascii_lowercase(), v);
    }
    let mut headers = HM::new();
    for p in hs.unwrap_or("").split('&') {
        if headers.len() >= 50 { return None; }
        if p.is_empty() { continue; }
        let (k, v) = cut(p, '='); let (k, v) = (k.trim(), v?.trim());
        if !tok(k) || !hval(v) { return None; }
        headers.insert(k.to_ascii_lowercase(), v.to_string());
    }
    let (h, port) = if let Some(r) = base.strip_prefix('[') {
        let (h, rem) = cut(r, ']'); let rem = rem?;
        (h, if rem.is_empty() { None } else { Some(digits(rem.strip_prefix(':')?)?) })
    } else { match base.matches(':').count() { 0 => (base, None), 1 => { let (h, p) = cut(base, ':'); (h, Some(digits(p?)?)) } _ => return None } };
    let host = pct(h)?.to_ascii_lowercase();
    if !host_ok(&host) || host.contains(':') != base.starts_with('[') || port == Some(0) { return None; }
    Some(Parts { sips, user, host, port, params, headers })
}
// ---- generators -------------------------------------------------------------------------------------------------
fn junk(r: &mut Rng, alpha: &[&str], n: u64) -> String { (0..r.below(n)).map(|_| *r.pick(alpha)).collect() }
fn gen_host(r: &mut Rng) -> String { r.pick_s(&["example.com", "EXAMPLE.com", "192.0.2.1", "2001:db8::1", "2001:DB8::A", "::1", "::ffff:1.2.3.4", "a_b.c-d", "h", "", "a b", "a:b", "[::1]", "ex\u{e9}", "a%20b", "x]", "::g"]) }
fn gen_user(r: &mut Rng) -> String { if r.chance(1, 3) { junk(r, &["a", "%", "%40", "%3b", "%3B", "%zz", "é", " ", "+", "&", "=", "$", ",", ":", "#", "/", "?", ";", "\u{1}", "%00", "%C3%A9", "%C3", "\"", "<", "\\", "[", "\u{1F600}"], 8) } else { r.pick_s(&["alice", "+15551234567", "a.b-c_d", "alice:pw", "a%20b", "Bob", "o'neill", "x;y=1", "x?y"]) } }
fn gen_tok(r: &mut Rng) -> String { if r.chance(1, 6) { junk(r, &["a", "B", "-", "=", " ", ";", "é", "%", "&"], 5) } else { r.pick_s(&["transport", "LR", "lr", "user", "maddr", "x-1", "Transport", "ttl", "p%41", "n0", "n1", "n2", "n3"]) } }
fn gen_val(r: &mut Rng) -> String { if r.chance(1, 5) { junk(r, &["a", "B", "=", " ", ";", "é", "%3B", "&", "?", "@", ":", "/", "\"", "\u{1}", "\t", "\u{2003}", "\u{85}", ",", "[", "]"], 6) } else { r.pick_s(&["tcp", "TLS", "phone", "1.2.3.4", "a=b", "", "%20", "x/y:z"]) } }
fn text(r: &mut Rng) -> String {
    let mut t = String::new();
    if r.chance(1, 30) { t.push(' '); }
    t += &r.pick_s(&["sip", "sip", "sip", "sips", "SIP", "SiPs", "sipx", "tel", ""]);
    if !r.chance(1, 40) { t.push(':'); }
    if r.chance(2, 3) { t += &gen_user(r); t.push('@'); }
    let h = gen_host(r);
    if h.contains(':') && !r.chance(1, 5) || r.chance(1, 20) { t.push('['); t += &h; if !r.chance(1, 15) { t.push(']'); } } else { t += &h; }
    if r.chance(1, 3) { t.push(':'); t += &r.pick_s(&["5060", "5061", "1", "65535", "65536", "0", "00080", "", "-1", "+5", " 80", "80x", "99999999999999999999", "٣"]); }
    let np = if r.chance(1, 40) { r.range(48, 53) } else { r.below(4) };
    for i in 0..np {
        t.push(';'); if r.chance(1, 30) { t.push(' '); }
        t += &if np > 10 { format!("p{i}") } else { gen_tok(r) };
        if r.chance(2, 3) { t.push('='); t += &gen_val(r); }
    }
    if r.chance(1, 3) {
        t.push('?');
        let n = if r.chance(1, 40) { r.range(48, 53) } else { r.below(4) };
        for i in 0..n { if i > 0 { t.push('&'); } t += &if n > 10 { format!("h{i}") } else { gen_tok(r) }; if !r.chance(1, 20) { t.push('='); t += &gen_val(r); } }
    }
    if r.chance(1, 60) { t += &"x".repeat(r.range(1900, 2100) as usize); }
    if r.chance(1, 40) { t.push(' '); }
    if r.chance(1, 12) { let v: Vec<char> = t.chars().collect(); let i = r.below(v.len() as u64 + 1) as usize; let c = *r.pick(&['@', ':', ';', '?', '&', '=', '[', ']', '%', '\r', '\n', '\0', ' ', '\u{7f}', '.', 'a']); t = v[..i].iter().collect::<String>() + &c.to_string() + &v[i..].iter().collect::<String>(); }
    t
}
fn says(rep: &mut Report, what: &str, u: &SipUri) {
    let (t, p) = (u.as_str().to_string(), parts(u));
    rep.check(!t.chars().any(|c| c.is_control()), "control", || format!("{what}: control character in {t:?}"));
    if t.len() > 2048 { return; }
    match rep.guard("parse", || SipUri::parse(&t)) {
        Some(Ok(b)) => { rep.check(parts(&b) == p, "round-trip", || format!("{what}: {t:?}\nsays {:?}\nbuilt {p:?}", parts(&b))); rep.check(b == *u, "equal", || format!("{what}: {t:?} reads as a different URI")); }
        Some(Err(e)) => rep.fail("round-trip", &format!("{what}: {t:?} (from {p:?}) is refused: {e}")),
        None => {}
    }
    if t.trim() == t { if let Some(b) = rep.guard("parse", || Uri::parse(&t)) { rep.check(matches!(&b, Ok(Uri::Sip(b)) if b == u), "uri", || format!("{what}: Uri::parse({t:?}) is {b:?}")); } }
}
fn tel_says(rep: &mut Report, what: &str, u: &TelUri) {
    let (t, p) = (u.as_str().to_string(), tel(u));
    rep.check(!t.chars().any(|c| c.is_control()), "control", || format!("{what}: control character in {t:?}"));
    rep.check(p.ctx == p.params.get("phone-context").cloned().flatten() && (!p.global || p.ctx.is_none()), "tel-context", || format!("{what}: {p:?}"));
    if !p.global && p.ctx.is_none() { return; }
    match rep.guard("tel", || TelUri::parse(&t)) {
        Some(Ok(b)) => { rep.check(tel(&b) == p, "tel-round-trip", || format!("{what}: {t:?}\nsays {:?}\nbuilt {p:?}", tel(&b))); rep.check(b == *u, "tel-equal", || format!("{what}: {t:?}")); }
        Some(Err(e)) => rep.fail("tel-round-trip", &format!("{what}: {t:?} (from {p:?}) is refused: {e}")),
        None => {}
    }
}
pub fn run(rep: &mut Report) {
    rep.rule("SIP URIs written from random parts (mixed case, percent encoding, IPv6, odd ports, up to 52 parameters and headers, single-character damage) compared with an independent reading; SIP and tel URIs built from parts through every builder and read back; tel and absolute URIs read, printed and read again");
    let mut r = rep.rng(18);
    while rep.time_left() {
        // reading
        let t = text(&mut r);
        rep.case(&format!("{t:?}"));
        let want = read(&t);
        if let Some(got) = rep.guard("parse", || SipUri::parse(&t)) {
            let got = match got { Ok(u) => { rep.check(u.as_str() == t, "text", || format!("{t:?} kept as {:?}", u.as_str())); says(rep, "read", &u); Some(u) } Err(_) => None };
            let g = got.as_ref().map(parts);
            rep.check(g == want, "reading", || format!("{t:?}\nis {want:?}\nread as {g:?}"));
            if let Some(u) = got {
                if let Some(c) = rep.guard("clean", || u.clone().without_uri_headers()) { says(rep, "without_uri_headers", &c); let mut p = parts(&u); p.headers.clear(); rep.check(parts(&c) == p, "clean", || format!("{t:?} -> {:?}", parts(&c))); }
            }
        }
        if let Some(Ok(u)) = rep.guard("uri", || Uri::parse(&t)) {
            rep.check(u.as_str() == t.trim() && Uri::parse(u.as_str()).as_ref() == Ok(&u), "uri-again", || format!("{t:?} -> {:?}", u.as_str()));
            if let Uri::Sip(s) = &u { rep.check(Some(parts(s)) == read(t.trim()), "uri-reading", || format!("{t:?} -> {:?}", parts(s))); }
        }
        // building
        let (h, h2) = (gen_host(&mut r), gen_host(&mut r));
        let steps: Vec<(u64, String, Option<String>)> = { let n = if r.chance(1, 60) { 54 } else { r.below(5) }; (0..n).map(|i| { let k = if n > 10 { 3 } else { r.below(6) }; match k { 0 => (0, gen_user(&mut r), None), 1 => (1, r.pick_s(&["0", "1", "5060", "65535"]), None), 2 => (2, h2.clone(), None), 4 => (4, String::new(), None), 5 => (5, String::new(), None), _ => (3, if n > 10 { format!("p{i}") } else { gen_tok(&mut r) }, if r.chance(1, 2) { Some(gen_val(&mut r)) } else { None }) } }).collect() };
        rep.case(&format!("build {h:?} {steps:?}"));
        let start = if r.chance(1, 2) { rep.guard("new", || SipUri::new(h.as_str()).ok()).flatten() } else { SipUri::parse(&t).ok() };
        if let Some(mut u) = start {
            let mut p = parts(&u);
            says(rep, "new", &u);
            for (k, a, b) in &steps {
                let v = u.clone();
                let n = rep.guard("build", || match k { 0 => v.with_user(a.as_str()).ok(), 1 => v.with_port(a.parse().unwrap()).ok(), 2 => v.with_host(a.as_str()).ok(), 4 => Some(v.without_port()), 5 => Some(v.without_uri_headers()), _ => v.with_param(a.as_str(), b.as_deref()).ok() }).flatten();
                let ok = match k { 0 => user_ok(a), 1 => a != "0", 2 => host_ok(a), 4 | 5 => true, _ => p.params.len() < 50 && tok(a) && b.as_deref().map_or(true, pval) };
                rep.check(n.is_some() == ok, "accepts", || format!("step {k} {a:?} {b:?} accepted: {}", n.is_some()));
                let Some(n) = n else { continue };
                match k { 0 => p.user = Some(a.clone()), 1 => p.port = a.parse().ok(), 2 => p.host = a.to_ascii_lowercase(), 4 => p.port = None, 5 => p.headers.clear(), _ => { p.params.insert(a.to_ascii_lowercase(), b.clone()); } }
                u = n;
                rep.check(parts(&u) == p, "parts", || format!("after step {k} {a:?} {b:?}: {:?}, expected {p:?}", parts(&u)));
                says(rep, "built", &u);
            }
        }
        // telephone URIs
        let num = if r.chance(1, 3) { junk(&mut r, &["1", "5", "-", " ", ".", "(", ")", "+", "*", "#", "A", "d", "x", ";", "\u{0}", "é"], 9) } else { r.pick_s(&["+1-555-123", "5551234", "+15551234567", "911", " 911 ", "+(1) 2", "+--1", "*69#", "+", "-"]) };
        let ctx = r.pick_s(&["example.com", "+1-555", "EXAMPLE.com", "a..b", "-a", "+", "a;b", "a b", "+1A*", "a", "x.y-z.com"]);
        let long = ["a".repeat(60), "b".repeat(60), "c".repeat(60)].join(".");
        let ctx = if r.chance(1, 10) { long } else { ctx };
        rep.case(&format!("tel {num:?} {ctx:?}"));
        if let Some(Ok(mut u)) = rep.guard("tel-new", || TelUri::new(num.as_str(), num.starts_with('+'))) {
            tel_says(rep, "tel new", &u);
            for _ in 0..r.below(4) {
                let v = u.clone(); let (k, w, c) = (r.pick_s(&["ext", "isub", "EXT", "phone-context", "Phone-Context", "a:b", "x y", "a=b", "é"]), gen_val(&mut r), r.chance(1, 3));
                let w = if k.eq_ignore_ascii_case("phone-context") { ctx.clone() } else { w };
                let n = rep.guard("tel-build", || if c { v.with_phone_context(ctx.as_str()).ok() } else { v.with_parameter(k.as_str(), if w.len() % 2 == 0 { Some(w.as_str()) } else { None }).ok() }).flatten();
                if let Some(n) = n { rep.check(n.number() == u.number() && n.is_global() == u.is_global() && n.parameters().len() <= 20, "tel-parts", || format!("{} -> {}", u.as_str(), n.as_str())); u = n; tel_says(rep, "tel built", &u); }
            }
        }
        let mut tt = format!("{}:{num}", r.pick_s(&["tel", "TEL", "Tel", "urn", "http", "x", "1a", ""]));
        for _ in 0..r.below(4) { tt += &format!(";{}", r.pick_s(&["phone-context=example.com", "PHONE-CONTEXT=b.org", "ext=1", "isub", "", "phone-context", "ext=", "a b", "a=b=c", "phone-context=+1"])); }
        rep.case(&format!("{tt:?}"));
        if let Some(Ok(u)) = rep.guard("tel", || TelUri::parse(&tt)) {
            rep.check(u.as_str() == tt, "text", || format!("{tt:?} kept as {:?}", u.as_str()));
            tel_says(rep, "tel read", &u);
            let n = cut(cut(&tt, ':').1.unwrap_or(""), ';').0.trim();
            let nn: String = if n.starts_with('+') { n.chars().filter(|c| !"-. ()".contains(*c)).collect() } else { n.to_string() };
            rep.check(u.number() == nn && u.is_global() == n.starts_with('+'), "tel-number", || format!("{tt:?} is {:?}", tel(&u)));
        }
        if let Some(Ok(u)) = rep.guard("uri", || Uri::parse(&tt)) { rep.check(u.as_str() == tt.trim() && Uri::parse(u.as_str()).as_ref() == Ok(&u), "uri-again", || format!("{tt:?} -> {:?}", u.as_str())); }
    }
}
