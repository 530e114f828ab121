use bytes::Bytes;
use common::{Report, Rng};
use sip_core::*;
use sip_proxy::ProxyHelpers;

fn limit(v: &str) -> Option<u64> {
    let t = v.trim();
    if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit()) { return None; }
    let t = t.trim_start_matches('0');
    if t.len() > 3 { return None; }
    let n: u64 = if t.is_empty() { 0 } else { t.parse().unwrap() };
    if n <= 255 { Some(n) } else { None }
}
fn mf(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick_s(&["+5", "-1", " 7 ", "\t7", "0x10", "", " ", "7 7", "٣", "²", "7,", "007", "0000000001", "00000000000000000001", "1e1", "6553599", "65536", "65537", "4294967296", "18446744073709551617", "256", "254", "255", "0", "1", "00", "\u{a0}9"]),
        1 => r.edgy().to_string(),
        2 => r.range(250, 260).to_string(),
        _ => r.below(256).to_string(),
    }
}
fn vtok(c: char) -> bool { c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c) }
fn branch(s: &str) -> bool { s.len() > 7 && s.len() <= 256 && s.starts_with("z9hG4bK") && s.chars().all(vtok) }
fn list(h: &Headers) -> Vec<(String, String)> { h.iter().map(|x| (x.name().into(), x.value().into())).collect() }
fn port(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) && { let t = s.trim_start_matches('0'); !t.is_empty() && t.len() <= 5 && t.parse::<u32>().unwrap() <= 65535 } }
fn by(s: &str) -> bool {
    if s.is_empty() || s.len() > 256 || s.chars().any(|c| c.is_control()) { return false; }
    if let Some(t) = s.strip_prefix('[') {
        let Some((h, p)) = t.split_once(']') else { return false };
        return !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit() || c == ':' || c == '.') && (p.is_empty() || p.strip_prefix(':').is_some_and(port));
    }
    let (h, p) = match s.split_once(':') { Some((h, p)) => (h, Some(p)), None => (s, None) };
    !h.is_empty() && h.chars().all(|c| c.is_ascii_alphanumeric() || ".-_".contains(c)) && p.map_or(true, port)
}
fn frag(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "x".repeat(r.range(240, 260) as usize),
        1 => r.pick_s(&["[::1]", "[::1", "::1]", "[]", "[::g]", "[::1]x", "[::1]:", "[::1]:0", "[::1]:5060", "[::1]:65536", "a]b", "a[b", ":5060", "a:b:c"]),
        2 => format!("{}:{}", r.pick_s(&["host", "10.0.0.1", "a_b", "[2001:db8::1]"]), r.range(65530, 65540)),
        3 => format!("{}:{}", r.pick_s(&["host", "h", "é"]), r.pick_s(&["0", "00", "+5060", "-1", "", "05060", "4294967297", "99999", "5060x", " 5"])),
        4 => { let mut s = r.pick_s(&["host", "host:5060"]); let p = r.below(s.len() as u64) as usize; s.insert(p, *r.pick(&['\r', '\n', '\0', '\u{85}', '\x7f', ' ', '\t', ';', ',', '/', '@', 'é'])); s }
        _ => r.pick_s(&["host", "host.example.com:5060", "192.0.2.1", "A-b.c"]),
    }
}
fn req(r: &mut Rng) -> (Request, Vec<(String, String)>) {
    let mut h = Headers::new();
    let n = if r.chance(1, 30) { r.range(196, 200) } else { r.below(8) };
    for i in 0..n {
        let (a, b) = match r.below(8) { 0 | 1 => ("Via".to_string(), format!("SIP/2.0/UDP h{i};branch=z9hG4bK{i}")), 2 => (r.pick_s(&["via", "VIA"]), format!("SIP/2.0/TCP g{i}")),
            3 => (r.pick_s(&["Max-Forwards", "max-forwards"]), mf(r)), 4 => (r.pick_s(&["Viax", "Via-Trace", "X-Via", "Vi", "Vi-a", "Via.", "via_", "Via1", "V", "a", "Max-Forwards-X", "Max_Forwards", "MaxForwards", "Max-Forward", "X-Max-Forwards"]), format!("{i}")), 5 => ("Record-Route".into(), format!("<sip:p{i};lr>")), _ => (format!("X-{i}"), format!("v{i}")) };
        if h.push(&a, &b).is_err() { let _ = h.push("X", "y"); }
    }
    let l = list(&h);
    (Request::new(RequestLine::new(Method::Invite, SipUri::parse("sip:bob@example.com").unwrap()), h, Bytes::from_static(b"body")).unwrap(), l)
}
pub fn run(rep: &mut Report) {
    rep.rule("Max-Forwards values around every boundary and malformed ones, in header lists with several Via and Max-Forwards entries, through decrement_max_forwards and the proxy's helpers; Via entries added and removed in random histories; sent-by, transport and parameter texts against an independent grammar; generated branches");
    let mut r = rep.rng(22);
    let mut seen = std::collections::HashSet::new();
    while rep.time_left() {
        if seen.len() > 2_000_000 { seen.clear(); }
        let (mut q, before) = req(&mut r);
        rep.case(&format!("{before:?}"));
        let k = before.iter().position(|x| x.0.eq_ignore_ascii_case("max-forwards"));
        let proxy = r.chance(1, 2);
        let res = if proxy { ProxyHelpers::check_max_forwards(&mut q).map(|_| None).map_err(|_| None) } else { decrement_max_forwards(q.headers_mut()).map(Some).map_err(Some) };
        let after = list(q.headers());
        let mut want = before.clone();
        let out = match k {
            Some(i) => match limit(&before[i].1) { None => Err(Some(MaxForwardsError::Invalid)), Some(0) => Err(Some(MaxForwardsError::Exhausted)), Some(n) => { want[i].1 = (n - 1).to_string(); Ok(Some(n as u32 - 1)) } },
            None if before.len() < 200 => { want.push(("Max-Forwards".into(), "69".into())); Ok(Some(69)) }
            None => Err(Some(MaxForwardsError::Invalid)),
        };
        let out = if proxy { out.map(|_| None).map_err(|_| None) } else { out };
        rep.check(res == out && after == want, "limit", || format!("forwarding said {res:?} and left {after:?}; expected {out:?} and {want:?}"));
        rep.check(q.method() == &Method::Invite && q.uri().as_str() == "sip:bob@example.com" && &q.body()[..] == b"body", "rest", || "the hop limit changed something else".into());

        // Via entries on top, off the top
        let (mut q, mut want) = req(&mut r);
        let mut steps = format!("{want:?}");
        for _ in 0..r.range(1, 6) {
            match r.below(3) {
                0 | 1 => {
                    let looped = r.chance(1, 2);
                    let (h, t) = (r.pick_s(&["proxy.example.com", "10.0.0.1:5070"]), r.pick_s(&["UDP", "TLS"]));
                    steps += &format!(" add{looped}({h},{t})");
                    rep.case(&steps);
                    if want.len() >= 200 {
                        rep.guard("via-full", || if looped { ProxyHelpers::add_via_with_loop_detection(&mut q, &h, &t) } else { ProxyHelpers::add_via(&mut q, &h, &t) });
                        break;
                    }
                    let b = if looped { ProxyHelpers::add_via_with_loop_detection(&mut q, &h, &t) } else { ProxyHelpers::add_via(&mut q, &h, &t) };
                    rep.check(branch(&b) && is_valid_branch(&b), "branch", || format!("generated branch {b:?}"));
                    if !looped { rep.check(seen.insert(b.clone()), "unique", || format!("branch {b:?} generated twice")); }
                    want.insert(0, ("Via".into(), format!("SIP/2.0/{t} {h};branch={b};rport")));
                }
                _ => {
                    steps += " remove";
                    rep.case(&steps);
                    ProxyHelpers::remove_top_via(q.headers_mut());
                    if let Some(i) = want.iter().position(|x| x.0.eq_ignore_ascii_case("via")) { want.remove(i); }
                }
            }
            let got = list(q.headers());
            rep.check(got == want, "via", || format!("the headers became {got:?}, expected {want:?}"));
            if got != want { break; }
        }
        let u = SipUri::parse("sip:carol@10.1.1.1:5070;lr").unwrap();
        ProxyHelpers::set_request_uri(&mut q, u.clone());
        rep.check(q.uri().as_str() == u.as_str() && list(q.headers()).len() >= 0usize && &q.body()[..] == b"body" && q.method() == &Method::Invite, "uri", || format!("set_request_uri gave {:?}", q.uri()));

        // Via grammar
        let (t, s) = (r.pick_s(&["UDP", "tls-sctp", "", "U DP", "U/P", "x(", "é", "!%*_+`'~.", "^", &"x".repeat(32), &"x".repeat(33)]), frag(&mut r));
        rep.case(&format!("via {t:?} {s:?}"));
        let tok = !t.is_empty() && t.len() <= 32 && t.chars().all(vtok);
        let v = ViaHeader::new(&t, &s);
        rep.check(v.is_ok() == (tok && by(&s)), "via-new", || format!("ViaHeader::new({t:?}, {s:?}) said {:?}", v));
        if let Ok(mut v) = v {
            let mut n = 0;
            for i in 0..r.below(24) {
                let (k, w) = (r.pick_s(&["branch", "Branch", "rport", "received", "a b", "", "p", "é", &format!("p{i}"), &format!("q{i}"), &"k".repeat(65)]), r.pick_s(&["z9hG4bK1", "", "a\rb", "5060", "\u{85}", &"v".repeat(257)]));
                let some = r.chance(3, 4);
                let set = r.chance(1, 2);
                let old = v.clone();
                let has = v.param(&k).is_some();
                let ok = if set { v.set_param(&k, some.then_some(&*w)) } else { v.add_param(&k, some.then_some(&*w)) };
                let good = !k.is_empty() && k.len() <= 64 && k.chars().all(vtok) && (!some || (w.len() <= 256 && !w.chars().any(|c| c.is_control()))) && ((set && has) || (!has && old.params().len() < 20));
                rep.case(&format!("via {s} param {k:?}={w:?} set={set} present={has} n={n}"));
                rep.check(ok.is_ok() == good, "via-param", || format!("said {ok:?}"));
                rep.check(if good { v.param(&k.to_ascii_uppercase()).map(|x| x.as_ref().map(|y| y.to_string())) == Some(some.then(|| w.clone())) } else { v == old }, "via-param", || format!("{old:?} became {v:?}"));
                n = v.params().len();
                rep.check(n <= 20, "via-bound", || format!("{n} parameters"));
            }
            let text = v.to_string();
            rep.case(&text);
            let w = ViaHeader::parse(&text);
            rep.check(w.as_ref() == Ok(&v) || text.contains(['=', ';']), "via-text", || format!("{text:?} read back as {w:?}"));
        }
        let text = format!("{}{}/{}/{} {}{}", r.pick_s(&["", " ", "\t"]), r.pick_s(&["SIP", "sip", "HTTP"]), r.pick_s(&["2.0", "2.1", "2"]), t, s, r.pick_s(&["", ";branch=z9hG4bKa", ";a;A", ";a=\u{1}", " x", ";;b", ";=c"]));
        rep.case(&format!("parse {text:?}"));
        if s.contains(';') { continue; }
        if let Ok(v) = ViaHeader::parse(&text) {
            rep.check(v.transport() == t && v.sent_by() == s.trim() && tok && by(s.trim()) && text.contains("2.0"), "via-parse", || format!("accepted as {v:?}"));
            rep.check(v.params().len() <= 20 && v.params().iter().all(|(k, x)| !k.is_empty() && k.chars().all(vtok) && x.as_ref().map_or(true, |y| y.len() <= 256 && !y.chars().any(|c| c.is_control()))), "via-parse", || format!("parameters {:?}", v.params()));
        }
        let b = format!("{}{}", r.pick_s(&["z9hG4bK", "Z9hG4bK", "z9hG4b", ""]), r.pick_s(&["", "a", "a^", "a|", "a b", "é", "\r", &"x".repeat(249), &"x".repeat(250), "-.!%*_+`'~"]));
        rep.case(&format!("branch {b:?}"));
        rep.check(is_valid_branch(&b) == branch(&b), "valid-branch", || format!("is_valid_branch said {}", is_valid_branch(&b)));
        let g = sip_transaction::generate_branch_id().to_string();
        rep.check(branch(&g) && seen.insert(g.clone()), "branch", || format!("generated branch {g:?}"));
    }
}
