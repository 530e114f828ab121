use bytes::Bytes;
use common::{Report, Rng};
use sip_core::{Headers, Request, Response};
use sip_parse::*;

const COMPACT: [(&str, &str); 17] = [("i", "Call-ID"), ("f", "From"), ("t", "To"), ("m", "Contact"), ("l", "Content-Length"), ("s", "Subject"), ("k", "Supported"), ("o", "Event"), ("e", "Content-Encoding"),
    ("c", "Content-Type"), ("v", "Via"), ("r", "Refer-To"), ("b", "Referred-By"), ("d", "Request-Disposition"), ("x", "Session-Expires"), ("a", "Accept-Contact"), ("u", "Allow-Events")];
fn full(n: &str) -> String {
    COMPACT.iter().find(|c| c.0.eq_ignore_ascii_case(n)).map(|c| c.1.to_string()).unwrap_or(n.to_string())
}
fn find(d: &[u8]) -> Option<usize> { (0..d.len().saturating_sub(3)).find(|&i| &d[i..i + 4] == b"\r\n\r\n") }
#[derive(Debug, PartialEq, Clone, Copy)]
enum L { N(usize), Over, Bad }
fn len_of(v: &str) -> L {
    if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) { return L::Bad; }
    let t = v.trim_start_matches('0');
    if t.len() > 9 { return L::Over; }
    let n: usize = if t.is_empty() { 0 } else { t.bytes().fold(0, |a, b| a * 10 + (b - b'0') as usize) };
    if n > 64 * 1024 * 1024 { L::Over } else { L::N(n) }
}
/// the framing of a message, read independently: headers as written, octets after the blank line
struct Frame { first: String, heads: Vec<(String, String)>, tail: Vec<u8>, lens: Vec<L> }
fn frame(d: &[u8]) -> Option<Frame> {
    let (h, t) = match find(d) { Some(i) => (&d[..i], &d[i + 4..]), None => (d, &d[d.len()..]) };
    let s = std::str::from_utf8(h).ok()?;
    let mut lines = vec![];
    let mut rest = s;
    while let Some(i) = rest.find("\r\n") { lines.push(&rest[..i]); rest = &rest[i + 2..]; }
    lines.push(rest);
    let mut heads = vec![];
    for l in &lines[1..] {
        if l.is_empty() { continue; }
        if l.starts_with([' ', '\t']) { return None; }
        let c = l.find(':')?;
        let (n, v) = (full(l[..c].trim()), l[c + 1..].trim().to_string());
        if n.is_empty() || n.len() > 128 || !n.bytes().all(|c| c.is_ascii_alphanumeric() || b"-.!%*_+`'~^|#$&".contains(&c)) || v.len() > 8192 || v.contains(['\r', '\n', '\0']) { return None; }
        heads.push((n, v));
    }
    let lens = heads.iter().filter(|h| h.0.eq_ignore_ascii_case("Content-Length")).map(|h| len_of(&h.1)).collect();
    Some(Frame { first: lines[0].trim().to_string(), heads, tail: t.to_vec(), lens })
}
fn ok_first(first: &str, resp: bool) -> bool {
    let b = first.as_bytes();
    if resp {
        if b.len() < 11 || !first.is_char_boundary(7) || !first[..7].eq_ignore_ascii_case("SIP/2.0") || !(b[7] == b' ' || b[7] == b'\t') { return false; }
        let t = first[7..].trim_start_matches([' ', '\t']);
        let n = t.bytes().take_while(|b| b.is_ascii_digit()).count();
        matches!(t[..n].trim_start_matches('0').parse::<u32>(), Ok(100..=699)) && (t.len() == n || t[n..].starts_with([' ', '\t'])) && !t[n..].trim().chars().any(|c| c.is_control() && c != '\t')
    } else {
        let w: Vec<&str> = first.split([' ', '\t']).filter(|x| !x.is_empty()).collect();
        w.len() == 3 && w[2].eq_ignore_ascii_case("SIP/2.0") && w[0].bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c))
    }
}
fn judge(rep: &mut Report, what: &str, d: &[u8], max: usize, strict: bool, resp: bool, got: Option<(&Headers, &Bytes, String)>, clean: Option<bool>) {
    let f = frame(d);
    let Some((hs, body, first)) = got else {
        if clean == Some(true) { rep.fail("refused", &format!("{what}: a well-formed message was refused")); }
        return;
    };
    rep.check(d.len() <= max, "size", || format!("{what}: {} octets accepted with limit {max}", d.len()));
    let Some(f) = f else { rep.fail("malformed", &format!("{what}: accepted although its header section is malformed")); return };
    rep.check(ok_first(&f.first, resp), "first-line", || format!("{what}: start line {:?} accepted", f.first));
    let mut w: Vec<String> = f.first.split_whitespace().map(|x| x.to_string()).collect();
    if resp && w.len() > 1 { w[1] = format!("{:03}", w[1].trim_start_matches('0')); }
    let n = w.join(" ");
    rep.check(n.eq_ignore_ascii_case(&first), "start", || format!("{what}: start line {:?} read as {first:?}", f.first));
    let same = hs.len() == f.heads.len() && hs.iter().zip(&f.heads).all(|(a, b)| a.name() == b.0 && a.value() == b.1);
    rep.check(same, "headers", || format!("{what}: headers {:?} read as {:?}", f.heads, hs.iter().map(|h| (h.name().to_string(), h.value().to_string())).collect::<Vec<_>>()));
    rep.check(hs.len() <= 200, "count", || format!("{what}: {} headers", hs.len()));
    for n in ["Call-ID", "CSeq", "From", "To", "Max-Forwards"] {
        let k = f.heads.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).count();
        rep.check(k <= 1, "single", || format!("{what}: {k} {n} headers accepted"));
    }
    if strict {
        rep.check(f.lens.iter().all(|l| *l == L::N(body.len())) && body[..] == f.tail[..] && (!f.lens.is_empty() || body.is_empty()), "strict-body",
            || format!("{what}: lengths {:?}, {} octets after the blank line, body of {}", f.lens, f.tail.len(), body.len()));
    } else {
        let over = f.lens.contains(&L::Over);
        rep.check(!over, "overlong", || format!("{what}: an overlong length accepted: {:?}", f.lens));
        let want: Vec<usize> = f.lens.iter().filter_map(|l| match l { L::N(n) => Some(*n), _ => None }).collect();
        let n = want.first().copied().unwrap_or(f.tail.len());
        rep.check(want.iter().all(|x| *x == n) && n <= f.tail.len() && body[..] == f.tail[..n.min(f.tail.len())], "body",
            || format!("{what}: lengths {:?}, {} octets after the blank line, body of {}", f.lens, f.tail.len(), body.len()));
    }
}
fn line(r: &mut Rng) -> String {
    let c = r.pick_s(&["X-A", "Subject", "s", "k", "Via", "v", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Contact", "m", "X-A "]);
    match c.as_str() {
        "CSeq" => format!("CSeq: {} {}", r.pick_s(&["1", "0", "2147483647", "2147483648", "007", "-1", "x"]), r.pick_s(&["INVITE", "invite", "BYE", "INVITE x"])),
        "Via" | "v" => format!("{c}: SIP/2.0/UDP a;branch={}", r.pick_s(&["z9hG4bKabc", "z9hG4bK", "abc", "z9hG4bKa;b", "z9hG4bK\"q"])),
        _ => format!("{c}{}{}", r.pick_s(&[":", ": ", " :", ":\t"]), r.pick_s(&["a", "70", "<sip:a@b>;tag=1", "", "é", "x  "])),
    }
}
fn clen(r: &mut Rng, n: usize) -> String {
    match r.below(16) {
        0 => format!("+{n}"), 1 => format!("-{n}"), 2 => format!("00{n}"), 3 => format!("{n} {n}"), 4 => format!("{n},{n}"), 5 => format!("0x{n:x}"), 6 => "67108864".into(), 7 => "67108865".into(),
        8 => "99999999999999999999999999".into(), 9 => String::new(), 10 => format!("{}", n + 1), 11 => format!("{}", n.saturating_sub(1)), 12 => "18446744073709551616".into(), 13 => "٥".into(), 14 => "4294967297".into(), _ => format!("{n}"),
    }
}
pub fn run(rep: &mut Report) {
    rep.rule("messages assembled from start lines, header lines, compact names, length values (signed, padded, listed, overlong, missing, repeated) and binary bodies, then cut, spliced and flipped byte by byte; an independent reading of the framing decides; all four parsers, and every header value reader on arbitrary text");
    let mut r = rep.rng(15);
    while rep.time_left() {
        let resp = r.chance(1, 3);
        let odd = r.chance(2, 3);
        let mut first = if resp { format!("SIP/2.0 {} {}", r.pick_s(&["200", "100", "699", "0404"]), r.pick_s(&["OK", "Not Found", ""])).trim_end().to_string() } else { format!("{} sip:bob@example.com SIP/2.0", r.pick_s(&["INVITE", "OPTIONS", "FOO"])) };
        if odd && r.chance(1, 4) {
            first = r.pick_s(&["INVITE sip:a@b SIP/2.1", "INVITE  sip:a@b\tsip/2.0", "SIP/2.0 99 x", "SIP/2.0 700 x", "SIP/2.0 65736 x", "SIP/2.0 200OK", "SIP/2.0  200  OK", "INVITE sip:a@b", "IN VITE sip:a@b SIP/2.0", "", " INVITE sip:a@b SIP/2.0 ", "SIP/2.0 200 O\u{1}K", "SIP/2.0é200 OK", "SIP/2.0", "SIP/2"]);
        }
        let n = match r.below(12) { 0 => r.range(190, 205) as usize, _ => r.below(6) as usize };
        let mut clean = !odd && n < 199;
        let body: Vec<u8> = (0..r.below(12)).map(|_| *r.pick(&[0u8, 13, 10, b'a', 255, b' ', b':'])).collect();
        let mut lines = vec![];
        for _ in 0..n { lines.push(if odd { line(&mut r) } else { format!("X-{}: {}", r.below(9), r.pick_s(&["a", "b c", "é"])) }); }
        let name = |r: &mut Rng| r.pick_s(&["Content-Length", "content-length", "CONTENT-LENGTH", "l", "L"]);
        let lens = if odd { r.below(4) } else { 1 + r.below(2) };
        for _ in 0..lens {
            let v = if odd && r.chance(1, 2) { clen(&mut r, body.len()) } else { format!("{}", body.len()) };
            let p = r.below(lines.len() as u64 + 1) as usize;
            lines.insert(p, format!("{}: {}", name(&mut r), v));
        }
        if odd && r.chance(1, 10) && !lines.is_empty() { let p = r.below(lines.len() as u64) as usize; lines[p] = r.pick_s(&[" folded", "\tfolded", "novalue", ": x", "a b: c", "", "X\u{0}: a", "X: a\u{0}b", "X: a\rb", "X: a\nb"]); }
        let mut d = format!("{first}\r\n{}{}\r\n", lines.join("\r\n"), if lines.is_empty() { "" } else { "\r\n" }).into_bytes();
        d.extend(&body);
        if odd {
            for _ in 0..r.below(3) {
                let p = r.below(d.len() as u64 + 1) as usize;
                match r.below(6) {
                    0 => d.truncate(p),
                    1 => d.insert(p, *r.pick(&[0u8, 13, 10, 0xff, 0xc3, b' ', b':', b'0', b'\t'])),
                    2 if p < d.len() => { d.remove(p); }
                    3 => { for b in b"\r\n" { d.insert(p, *b); } }
                    4 => { let t: Vec<u8> = d[p..].to_vec(); if d.len() < 4000 { d.extend(t); } }
                    _ => d.extend(b"\r\nX: y"),
                }
            }
            if r.chance(1, 200) { let k = (64 * 1024 + r.below(4) as usize).saturating_sub(1).saturating_sub(d.len()); d.extend(vec![b'x'; k]); }
        } else if d.len() > 60000 { clean = false; }
        rep.case(&format!("{:?}", String::from_utf8_lossy(&d[..d.len().min(900)])));
        let b = Bytes::from(d.clone());
        let lim = if r.chance(1, 4) { d.len().saturating_sub(r.below(2) as usize) } else { 64 * 1024 };
        let fq = |q: &Request| format!("{} {} {}", q.method().as_str(), q.uri().as_str(), q.version().as_str());
        let fr = |q: &Response| { let s = format!("{} {:03} {}", q.version().as_str(), q.code(), q.reason()); s.split_whitespace().collect::<Vec<_>>().join(" ") };
        let cq = clean && !resp; let cr = clean && resp;
        for strict in [false, true] {
            let q = rep.guard("request", || if strict { parse_request_with_limit_strict(&b, lim) } else { parse_request_with_limit(&b, lim) });
            if let Some(q) = q { judge(rep, if strict { "strict request" } else { "request" }, &d, lim, strict, false, q.as_ref().map(|q| (q.headers(), q.body(), fq(q))), Some(cq && d.len() <= lim)); }
            let q = rep.guard("request", || if strict { parse_request_strict(&b) } else { parse_request(&b) });
            if let Some(q) = q { judge(rep, if strict { "strict request" } else { "request" }, &d, 65536, strict, false, q.as_ref().map(|q| (q.headers(), q.body(), fq(q))), Some(cq)); }
            let q = rep.guard("response", || if strict { parse_response_strict(&b) } else { parse_response(&b) });
            if let Some(q) = q { judge(rep, if strict { "strict response" } else { "response" }, &d, 65536, strict, true, q.as_ref().map(|q| (q.headers(), q.body(), fr(q))), Some(cr)); }
        }
        // value readers: no text crashes them
        let alpha = ['a', '1', ' ', ';', ',', '<', '>', '"', '\\', '=', ':', '@', '[', ']', '%', '/', '*', '+', '-', 'é', '\u{2028}', '\t', '(', ')', '.', '\'', '?', '&', '\u{1F600}', 'T', 'Z', '٣'];
        let t: String = (0..r.below(24)).map(|_| *r.pick(&alpha)).collect();
        let pre = r.pick_s(&["", "<sip:", "\"", "SIP/2.0/UDP ", "Digest ", "sip:", "1 ", "Mon, 01 ", "history;", "3GPP-", "z9hG4bK", "active;", "application/", "index="]);
        values(rep, &format!("{pre}{t}"));
    }
}
fn values(rep: &mut Report, s: &str) {
    use smol_str::SmolStr;
    let v = SmolStr::new(s);
    rep.case(&format!("value {s:?}"));
    let mut h = Headers::new();
    for n in ["Route", "Call-Info", "Service-Route", "Path", "History-Info", "Geolocation", "Geolocation-Error", "Geolocation-Routing", "P-Asserted-Identity", "P-Preferred-Identity"] { let _ = h.push(n, s); }
    let b = Bytes::from(s.as_bytes().to_vec());
    rep.guard("value", || {
        let _ = parse_via_header(&v); let _ = parse_contact_header(&v); let _ = parse_route_headers(&h, "Route"); let _ = parse_route_header(&v); let _ = parse_from_header(&v); let _ = parse_to_header(&v);
        let _ = parse_call_info_header(&v); let _ = parse_call_info_headers(&h); let _ = parse_service_route(&h); let _ = parse_path(&h); let _ = parse_mime_type(&v); let _ = parse_sdp(&b);
        let _ = parse_allow_header(&v); let _ = parse_supported_header(&v); let _ = parse_authorization_header(&v); let _ = parse_proxy_authorization_header(&v); let _ = parse_priority_header(&v);
        let _ = parse_date_header(&v); let _ = parse_subject_header(&v); let _ = parse_rseq_header(&v); let _ = parse_rack_header(&v); let _ = parse_session_expires(&v); let _ = parse_min_se(&v);
        let _ = parse_resource_priority(&v); let _ = parse_event_header(&v); let _ = parse_subscription_state(&v); let _ = parse_history_info(&h); let _ = parse_reason_header(&v); let _ = parse_sip_etag(&v);
        let _ = parse_geolocation_header(&h); let _ = parse_geolocation_error(&v); let _ = parse_geolocation_routing(&v); let _ = parse_p_access_network_info(&v); let _ = parse_p_visited_network_id(&v);
        let _ = parse_p_asserted_identity(&h); let _ = parse_p_preferred_identity(&h);
    });
}
