use bytes::Bytes;
use common::{Report, Rng};
use sip_core::*;
use sip_parse::*;

fn val(r: &mut Rng, wide: bool) -> String {
    let alpha = ['a', 'Z', '9', ' ', ':', ';', ',', '<', '>', '"', '\\', '=', '\t', 'é', '\u{1F600}', '%', '\u{85}', '\u{1}', '\u{7f}'];
    let n = if wide && r.chance(1, 30) { r.range(1000, 8000) } else { r.below(14) };
    let s: String = (0..n).map(|_| *r.pick(&alpha)).collect();
    s.trim().to_string()
}
type P = Vec<(String, String)>;
fn pairs(h: &Headers) -> P { h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect() }
fn cl(n: &str) -> bool { n.eq_ignore_ascii_case("Content-Length") || n.eq_ignore_ascii_case("l") }
/// what must come back: the same headers in order (well-known names in their usual spelling), then the additions
fn expected(h: &P, n: usize, req: bool) -> P {
    let mut v: P = h.iter().filter(|x| !cl(&x.0)).cloned().collect();
    if req && !v.iter().any(|x| x.0.eq_ignore_ascii_case("Max-Forwards")) { v.push(("Max-Forwards".into(), "70".into())); }
    v.push(("Content-Length".into(), n.to_string()));
    v
}
fn same(a: &P, b: &P) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.eq_ignore_ascii_case(&y.0) && x.1 == y.1) }
pub fn run(rep: &mut Report) {
    rep.rule("requests and responses with known, extension and compact-free header names in mixed spelling, values with quotes, separators, control characters and non-ASCII text, length headers that lie, binary bodies with blank lines inside; written, read back (tolerant and strict) and written again");
    let mut r = rep.rng(17);
    while rep.time_left() {
        let mut h = Headers::new();
        let n = if r.chance(1, 20) { r.range(190, 198) } else { r.below(9) };
        let mut seen = std::collections::HashSet::new();
        let method = r.pick_s(&["INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER", "NOTIFY", "SUBSCRIBE", "PUBLISH", "FOO", "foo-1", "x!y", "Invite"]);
        let m = match Method::from_token(&method) { Ok(m) => m, Err(_) => continue };
        for _ in 0..n {
            let name = r.pick_s(&["Via", "via", "VIA", "Contact", "cONTACT", "Route", "record-route", "Record-Route", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "max-forwards", "Subject", "X-Long-Name", "x!y", "Content-Length", "content-length", "Content-Type", "Expires"]);
            let lc = name.to_lowercase();
            if ["from", "to", "call-id", "cseq", "max-forwards"].contains(&lc.as_str()) && !seen.insert(lc.clone()) { continue; }
            let v = match lc.as_str() {
                "cseq" => format!("{} {}", r.pick(&[1u32, 2, 2147483647]), m.as_str()),
                "via" => { let b = r.pick_s(&["", ";branch=z9hG4bKabc", ";branch=z9hG4bK.a-1;rport", ";received=1.2.3.4"]); format!("SIP/2.0/UDP host:5060{b}") }
                "max-forwards" => r.pick_s(&["0", "70", "255", "1"]),
                "content-length" => r.pick_s(&["0", "5", "99999", "-1", "x"]),
                _ => val(&mut r, n < 20),
            };
            let _ = h.push(&name, &v);
        }
        let body: Vec<u8> = match r.below(4) { 0 => vec![], 1 => b"\r\n\r\nINVITE sip:x SIP/2.0\r\n\r\n".to_vec(), _ => (0..r.below(300)).map(|_| *r.pick(&[0u8, 13, 10, 255, b'a', 0xc3])).collect() };
        let hp = pairs(&h);
        if hp.iter().map(|x| x.0.len() + x.1.len() + 4).sum::<usize>() + body.len() + 300 > 64 * 1024 { continue; }
        let bb = Bytes::from(body.clone());
        if r.chance(2, 3) {
            let uri = r.pick_s(&["sip:bob@example.com", "sips:a.b@[2001:db8::1]:5061;transport=tls", "tel:+15551234567", "sip:example.com;lr", "sip:a%20b@h?Subject=x", "urn:service:sos"]);
            let Ok(u) = Uri::parse(&uri) else { continue };
            let Ok(q) = Request::new(RequestLine::new(m.clone(), u.clone()), h, bb) else { continue };
            rep.case(&format!("{} {uri} {hp:?} body {:?}", m.as_str(), &body[..body.len().min(40)]));
            let Some(t) = rep.guard("serialize", || serialize_request(&q)) else { continue };
            let want = expected(&hp, body.len(), true);
            for strict in [false, true] {
                let Some(back) = rep.guard("parse", || if strict { parse_request_strict(&t) } else { parse_request(&t) }) else { continue };
                let Some(back) = back else { rep.fail("lost", &format!("a written request was refused (strict {strict}): {:?}", String::from_utf8_lossy(&t[..t.len().min(600)]))); continue };
                rep.check(*back.method() == m && *back.uri() == u && back.uri().as_str() == u.as_str(), "start", || format!("{} {} came back", back.method().as_str(), back.uri().as_str()));
                rep.check(same(&pairs(back.headers()), &want), "headers", || format!("expected {want:?}\ngot {:?}", pairs(back.headers())));
                rep.check(back.body()[..] == body[..], "body", || format!("body of {} octets came back with {}", body.len(), back.body().len()));
                let t2 = serialize_request(&back);
                rep.check(t2 == t, "stable", || format!("writing again gave {:?} instead of {:?}", String::from_utf8_lossy(&t2), String::from_utf8_lossy(&t)));
            }
        } else {
            let code = r.range(100, 700) as u16;
            let why = { let w: String = val(&mut r, false).chars().filter(|c| !c.is_control()).collect(); w.trim().to_string() };
            let Ok(sl) = StatusLine::new(code, &why) else { continue };
            let Ok(q) = Response::new(sl, h, bb) else { continue };
            rep.case(&format!("{code} {why:?} {hp:?} body {:?}", &body[..body.len().min(40)]));
            let Some(t) = rep.guard("serialize", || serialize_response(&q)) else { continue };
            let want = expected(&hp, body.len(), false);
            for strict in [false, true] {
                let Some(back) = rep.guard("parse", || if strict { parse_response_strict(&t) } else { parse_response(&t) }) else { continue };
                let Some(back) = back else { rep.fail("lost", &format!("a written response was refused (strict {strict}): {:?}", String::from_utf8_lossy(&t[..t.len().min(600)]))); continue };
                rep.check(back.code() == code && back.reason() == why, "start", || format!("{} {:?} came back", back.code(), back.reason()));
                rep.check(same(&pairs(back.headers()), &want), "headers", || format!("expected {want:?}\ngot {:?}", pairs(back.headers())));
                rep.check(back.body()[..] == body[..], "body", || format!("body of {} octets came back with {}", body.len(), back.body().len()));
                let t2 = serialize_response(&back);
                rep.check(t2 == t, "stable", || format!("writing again gave {:?} instead of {:?}", String::from_utf8_lossy(&t2), String::from_utf8_lossy(&t)));
            }
        }
    }
}
