//! P06-P10, bounded: seeded messages and histories against the real dialog crate.
use bytes::Bytes;
use common::{Report, Rng};
use sip_core::*;
use sip_dialog::prack_validator::*;
use sip_dialog::session_timer_manager as stm;
use sip_dialog::session_timer_manager::{SessionTimerEvent, SessionTimerManager};
use sip_dialog::storage::{DialogStore, InMemoryDialogStore};
use sip_dialog::*;
use sip_dialog::SubscriptionState;
use smol_str::SmolStr;
use std::collections::HashMap;
use std::time::Duration;

fn uri(s: &str) -> SipUri {
    SipUri::parse(s).unwrap()
}
fn hs(h: &[(String, String)]) -> Option<Headers> {
    let mut x = Headers::new();
    for (n, v) in h {
        x.push(n.as_str(), v.as_str()).ok()?;
    }
    Some(x)
}
fn req(m: Method, h: &[(String, String)]) -> Option<Request> {
    Request::new(RequestLine::new(m, uri("sip:t@example.com")), hs(h)?, Bytes::new()).ok()
}
fn resp(code: u16, h: &[(String, String)]) -> Option<Response> {
    Response::new(StatusLine::new(code, "X").ok()?, hs(h)?, Bytes::new()).ok()
}
fn kv(a: &str, b: impl Into<String>) -> (String, String) {
    (a.into(), b.into())
}
fn show(h: &[(String, String)]) -> String {
    h.iter().map(|(n, v)| format!("{n}: {v}")).collect::<Vec<_>>().join(" | ")
}

// ---------- independent reading of the headers ----------
fn get<'a>(h: &'a [(String, String)], n: &str) -> Option<&'a str> {
    h.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
}
fn tag_of(v: &str) -> Option<String> {
    let p = match v.rfind('>') { Some(i) => &v[i + 1..], None => v };
    for f in p.split(';') {
        let t = f.trim();
        let head: String = t.chars().take(4).collect();
        if head.eq_ignore_ascii_case("tag=") {
            return Some(t.chars().skip(4).collect());
        }
    }
    None
}
fn id_of(h: &[(String, String)]) -> Option<(String, String, String)> {
    Some((get(h, "Call-ID")?.to_string(), tag_of(get(h, "From")?)?, tag_of(get(h, "To")?)?))
}
fn three(d: &DialogId) -> (String, String, String) {
    (d.call_id().into(), d.local_tag().into(), d.remote_tag().into())
}
fn cseq_of(h: &[(String, String)]) -> Option<u32> {
    get(h, "CSeq")?.split_whitespace().next()?.parse().ok()
}
fn uri_in(v: &str) -> Option<String> {
    let t = v.trim();
    let u = match t.find('<') {
        Some(a) => { let r = &t[a + 1..]; &r[..r.find('>')?] }
        None => t.split(';').next()?,
    };
    SipUri::parse(u.trim()).ok().map(|u| u.as_str().to_string())
}

#[derive(Clone, PartialEq, Debug)]
struct Snap {
    id: (String, String, String), state: DialogStateType, target: String, route: Vec<String>, l: u32, r: u32, ack: Option<u32>,
    lu: String, ru: String, sec: bool, se: Option<Duration>, refr: Option<RefresherRole>, uac: bool,
}
fn snap(d: &Dialog) -> Snap {
    Snap {
        id: three(d.id()), state: d.state(), target: d.remote_target().as_str().into(), route: d.route_set().iter().map(|u| u.as_str().to_string()).collect(),
        l: d.local_cseq(), r: d.remote_cseq(), ack: d.last_ack_cseq(), lu: d.local_uri().as_str().into(), ru: d.remote_uri().as_str().into(), sec: d.secure(),
        se: d.session_expires(), refr: d.refresher(), uac: d.is_uac(),
    }
}

// ---------- generators ----------
const TAGS: &[&str] = &["a1", "B2", "x=y", "\u{e9}t\u{e9}", "1928301774", "a-b.c", "A1", "tag", "\u{1F600}"];
const CIDS: &[&str] = &["c1", "C1", "c1@h", "c2", "843817637684230@998sdasdh09"];
fn party(g: &mut Rng, tag: Option<&str>) -> String {
    let name = g.pick_s(&["", "\"Bob\" ", "Alice ", "\"x;tag=evil\" ", "\"J\u{fc}rg;tag=no\" "]);
    let u = g.pick_s(&["sip:bob@example.com", "sips:bob@example.com", "sip:b;tag=inside@h.com", "sip:u@[2001:db8::1]:5070", "tel:+123"]);
    let pre = g.pick_s(&["", ";x=1", " ; lr", ";\u{e9}=\u{20ac}", ";t\u{e9}g=1", ";ta", ";stag=z"]);
    let t = match tag { Some(t) => format!("{}{}{}", g.pick_s(&[";tag=", ";TAG=", "; tag=", ";Tag="]), t, g.pick_s(&["", ";z=2", ";tag=second"])), None => String::new() };
    if g.chance(1, 8) && name.is_empty() { format!("{u}{pre}{t}") } else { format!("{name}<{u}>{pre}{t}") }
}
fn contact(g: &mut Rng) -> String {
    let p = g.below(6);
    let h = g.pick_s(&["h1.example.com", "10.0.0.1", "h2", "[2001:db8::7]"]);
    match g.below(6) {
        0 => format!("sip:c{p}@{h}"),
        1 => format!("\"N\" <sip:c{p}@{h}:5080;transport=tcp>;expires=60"),
        2 => format!("<sips:c{p}@{h}>"),
        3 => format!(" <sip:c{p}@{h}> "),
        4 => format!("<sip:c{p}@{h}"),
        _ => format!("<sip:c{p}@{h}>"),
    }
}
fn rr(g: &mut Rng) -> Vec<(String, String)> {
    let n = match g.below(12) { 0 => 0, 1 => 1, 2..=7 => g.below(4), 8 => 10, 9 => 21, _ => g.below(6) };
    let mut v: Vec<(String, String)> = vec![];
    for i in 0..n {
        let e = g.pick_s(&["<sip:p{};lr>", "<sip:p{}.example.com;lr>;x=\"a,b\"", "\"P, <x\" <sip:p{};lr>", "sip:p{}.net", "<sip:p{}:5061;transport=tls;lr>", "<bad{}"]).replace("{}", &i.to_string());
        match v.last_mut() {
            Some(l) if g.chance(1, 2) => { l.1.push_str(&g.pick_s(&[",", ", ", " , ", ",,"])); l.1.push_str(&e); }
            _ => v.push(kv("Record-Route", e)),
        }
    }
    v
}
/// comma separated elements outside quotes and brackets
fn split_list(v: &str) -> Vec<String> {
    let (mut q, mut d, mut cur, mut o) = (false, 0i32, String::new(), vec![]);
    for c in v.chars() {
        match c {
            '"' => q = !q,
            '<' => d += 1,
            '>' => d = (d - 1).max(0),
            ',' if !q && d == 0 => { o.push(std::mem::take(&mut cur)); continue; }
            _ => {}
        }
        cur.push(c);
    }
    o.push(cur);
    o.iter().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}
fn routes(h: &[(String, String)], rev: bool) -> Option<Vec<String>> {
    let mut els = vec![];
    for (n, v) in h { if n.eq_ignore_ascii_case("Record-Route") { els.extend(split_list(v)); } }
    let mut us: Vec<String> = vec![];
    for e in &els {
        if us.len() >= 50 { return None; }
        if let Some(u) = uri_in(e) { us.push(u); }
    }
    if rev { us.reverse(); }
    Some(us)
}
fn sess(h: &[(String, String)]) -> Option<(Duration, Option<RefresherRole>)> {
    let (d, r) = se_oracle(get(h, "Session-Expires")?)?;
    Some((Duration::from_secs(d), r))
}
fn se_oracle(v: &str) -> Option<(u64, Option<RefresherRole>)> {
    if v.chars().any(|c| c.is_control()) { return None; }
    let mut it = v.trim().split(';');
    let d = it.next()?.trim();
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let n: u128 = d.trim_start_matches('0').parse::<u128>().ok().or(if d.bytes().all(|b| b == b'0') { Some(0) } else { None })?;
    if !(90..=86400).contains(&n) { return None; }
    let mut r = None;
    for p in it {
        if let Some((k, x)) = p.trim().split_once('=') {
            if k.trim().eq_ignore_ascii_case("refresher") {
                r = if x.trim().eq_ignore_ascii_case("uac") { Some(RefresherRole::Uac) } else if x.trim().eq_ignore_ascii_case("uas") { Some(RefresherRole::Uas) } else { None };
            }
        }
    }
    Some((n as u64, r))
}
fn se_text(g: &mut Rng) -> String {
    let n = match g.below(5) { 0 => g.edgy().to_string(), 1 => g.range(85, 95).to_string(), 2 => g.range(86395, 86405).to_string(), 3 => g.range(90, 86400).to_string(),
        _ => g.pick_s(&["+90", "-90", "", "0090", "90.0", "1800s", "00000000000000000090", "4294967386", "\u{663}\u{663}\u{663}"]) };
    let p = g.pick_s(&["", "", ";refresher=uac", ";refresher=uas", " ; Refresher = UAS ", ";refresher=UAC", ";refresher=both", ";refresher", ";x=1;refresher=uas", ";refresher=uac;refresher=uas", ";REFRESHER=uac;y", ";", ";refresher=\"uas\""]);
    format!("{}{n}{p}", g.pick_s(&["", "", " "]))
}
fn exchange(g: &mut Rng, full: bool) -> (Vec<(String, String)>, Vec<(String, String)>) {
    let cid = g.pick_s(CIDS);
    let ft = g.pick_s(TAGS);
    let tt = g.pick_s(TAGS);
    let miss = if full { 99 } else { g.below(14) };
    let from = party(g, if miss == 1 { None } else { Some(&ft) });
    let to_q = party(g, None);
    let to_r = party(g, if miss == 2 { None } else { Some(&tt) });
    let cs = if full { g.range(1, 1000).to_string() } else { match g.below(6) { 0 => g.edgy().to_string(), 1 => "0".into(), 2 => "x".into(), 3 => "2147483647".into(), _ => g.range(1, 100000).to_string() } };
    let mut q = vec![kv("From", from.clone()), kv("To", to_q), kv("CSeq", format!("{cs} INVITE"))];
    if miss != 3 { q.push(kv(&g.pick_s(&["Call-ID", "call-id"]), cid.clone())); }
    if miss != 4 { q.push(kv("Contact", contact(g))); }
    q.extend(rr(g));
    let mut s = vec![kv("From", from), kv("To", to_r), kv("CSeq", format!("{cs} INVITE"))];
    if miss != 5 { s.push(kv("Call-ID", cid)); }
    if miss != 6 { s.push(kv("Contact", contact(g))); }
    if g.chance(1, 2) { s.extend(q.iter().filter(|(n, _)| n == "Record-Route").cloned()); } else { s.extend(rr(g)); }
    if g.chance(1, 2) { s.push(kv("Session-Expires", se_text(g))); }
    if g.chance(1, 4) { g.shuffle(&mut s); }
    (q, s)
}

// ---------- P06 ----------
fn p06(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let start = |g: &mut Rng| match g.below(4) { 0 => 0, 1 => g.edgy() as u32, 2 => 0x7fff_ffff - g.below(3) as u32, _ => g.below(2000) as u32 };
    let (l0, r0) = (start(&mut g), start(&mut g).min(0x7fff_ffff));
    let mut d = Dialog::unchecked_new(DialogId::unchecked_new("c", "l", "r"), DialogStateType::Confirmed, uri("sip:l@h"), uri("sip:r@h"), uri("sip:t@h"), l0, r0, None, vec![], false, None, None, g.chance(1, 2));
    let mut hist = format!("dialog local={l0} remote={r0};");
    let mut top = r0 as u64;
    for _ in 0..40 {
        match g.below(6) {
            0 | 1 => {
                let before = d.local_cseq();
                hist += " next";
                rep.case(&hist);
                if let Some(n) = rep.guard("next", || d.next_local_cseq()) {
                    rep.check(if before < u32::MAX { n == before + 1 } else { n == before }, "local-not-next", || format!("next_local_cseq went from {before} to {n}"));
                    rep.check(d.local_cseq() == n, "local-not-kept", || format!("returned {n}, kept {}", d.local_cseq()));
                }
            }
            2 => {
                let h = vec![kv("CSeq", format!("{} INVITE", g.edgy())), kv("Contact", "<sip:n@h>")];
                let code = *g.pick(&[100u16, 180, 200, 202, 300, 404, 486, 503, 603]);
                let before = (d.local_cseq(), d.remote_cseq());
                hist += &format!(" resp({code})");
                rep.case(&hist);
                let r = resp(code, &h).unwrap();
                rep.guard("update_from_response", || d.update_from_response(&r));
                rep.check((d.local_cseq(), d.remote_cseq()) == before, "response-moved-cseq", || format!("{before:?} -> {:?}", (d.local_cseq(), d.remote_cseq())));
            }
            _ => {
                let top32 = top;
                let n = match g.below(8) { 0 => top32, 1 => top32 + 1, 2 => top32.saturating_sub(1), 3 => top32 + 1000, 4 => top32 + 1001, 5 => g.edgy(), 6 => top32 + g.below(10), _ => g.below(5) };
                let m = g.pick(&[Method::Ack, Method::Bye, Method::Invite, Method::Update, Method::Info, Method::Cancel, Method::Options, Method::Prack, Method::Notify]).clone();
                let txt = match g.below(12) { 0 => "x".to_string(), 1 => String::new(), 2 => format!("  {n}"), _ => n.to_string() };
                let h = vec![kv("CSeq", format!("{txt} {}", m.as_str())), kv("Contact", "<sip:n@h>")];
                let Some(r) = req(m.clone(), &h) else { continue };
                let before = snap(&d);
                let was = d.remote_cseq();
                hist += &format!(" {}({txt})", m.as_str());
                rep.case(&hist);
                let Some(res) = rep.guard("update_from_request", || d.update_from_request(&r)) else { return };
                let read = cseq_of(&h);
                let ok = match read {
                    None | Some(0) => false,
                    Some(n) if m == Method::Ack => n == was,
                    Some(n) => n <= 0x7fff_ffff && n > was && (was == 0 || n - was <= 1000),
                };
                rep.check(res.is_ok() == ok, if ok { "in-order-refused" } else { "out-of-order-accepted" }, || format!("{} {read:?} after {was}: {res:?}", m.as_str()));
                if res.is_ok() {
                    let n = read.unwrap_or(0);
                    if m == Method::Ack {
                        rep.check(d.last_ack_cseq() == Some(n) && d.remote_cseq() == was, "ack-bookkeeping", || format!("last_ack {:?}, remote {} after ACK {n}", d.last_ack_cseq(), d.remote_cseq()));
                    } else {
                        rep.check(d.remote_cseq() == n, "remote-not-kept", || format!("accepted {n}, kept {}", d.remote_cseq()));
                        rep.check(d.last_ack_cseq() == before.ack, "ack-forgotten", || "last ACK number changed by another request".into());
                        top = n as u64;
                    }
                } else {
                    rep.check(snap(&d) == before, "refused-but-changed", || format!("{before:?} -> {:?}", snap(&d)));
                }
                rep.check(d.local_cseq() == before.l, "request-moved-local", || format!("{} -> {}", before.l, d.local_cseq()));
            }
        }
    }
    let c = start(&mut g);
    let mut s = Subscription::unchecked_new(SubscriptionId::unchecked_new("c", "f", "t", "e"), SubscriptionState::Active, uri("sip:l@h"), uri("sip:r@h"), uri("sip:c@h"), Duration::from_secs(60), c, 7);
    rep.case(&format!("subscription local={c}; next x3"));
    for _ in 0..3 {
        let b = s.local_cseq();
        if let Some(n) = rep.guard("sub-next", || s.next_local_cseq()) {
            rep.check(n == b.saturating_add(1) && s.local_cseq() == n && s.remote_cseq() == 7, "sub-local-not-next", || format!("{b} -> {n}"));
        }
    }
}

// ---------- P07 ----------
fn p07(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let full = g.chance(1, 2);
    let (q, s) = exchange(&mut g, full);
    let code = *g.pick(&[100u16, 180, 183, 199, 200, 202, 299, 300, 302, 401, 486, 500, 603, 200, 180]);
    let lu = uri(&g.pick_s(&["sip:me@l.example.com", "sips:me@l.example.com"]));
    let ru = uri(&g.pick_s(&["sip:you@r.example.com", "sips:you@r.example.com"]));
    let desc = format!("INVITE [{}] -> {code} [{}]", show(&q), show(&s));
    rep.case(&desc);
    // the tag of a header text
    for h in [&q, &s] { for n in ["From", "To"] { if let Some(v) = get(h, n) {
        if let Some(t) = rep.guard("extract_tag", || extract_tag(&SmolStr::new(v))) {
            rep.check(t.as_ref().map(|x| x.to_string()) == tag_of(v), "wrong-tag", || format!("tag of {v:?}: {t:?}"));
        }
    } } }
    let (Some(rq), Some(rs)) = (req(Method::Invite, &q), resp(code, &s)) else { return };
    let Some(a) = rep.guard("new_uac", || Dialog::new_uac(&rq, &rs, lu.clone(), ru.clone())) else { return };
    let Some(b) = rep.guard("new_uas", || Dialog::new_uas(&rq, &rs, ru.clone(), lu.clone())) else { return };
    let id = id_of(&s);
    let live = (100..300).contains(&code);
    for (d, uac) in [(&a, true), (&b, false)] {
        let side = if uac { "uac" } else { "uas" };
        let rt = routes(if uac { &s } else { &q }, uac);
        let cs = cseq_of(&q);
        let should = id.is_some() && live && rt.is_some() && cs.is_some_and(|c| (1..=0x7fff_ffff).contains(&c));
        rep.check(d.is_some() == should, &format!("{side}-{}", if should { "dialog-refused" } else { "dialog-made" }), || format!("{side}: dialog made: {}, expected {should}", d.is_some()));
        let Some(d) = d else { continue };
        let x = snap(d);
        let Some((c, f, t)) = id.clone() else { continue };
        rep.check(x.id == if uac { (c, f, t) } else { (c, t, f) }, &format!("{side}-identity"), || format!("{:?}", x.id));
        rep.check(x.state == if code < 200 { DialogStateType::Early } else { DialogStateType::Confirmed }, &format!("{side}-state"), || format!("{:?} after {code}", x.state));
        let ct = get(if uac { &s } else { &q }, "Contact").and_then(uri_in).unwrap_or(if uac { ru.as_str().to_string() } else { lu.as_str().to_string() });
        rep.check(x.target == ct, &format!("{side}-target"), || format!("target {} expected {ct}", x.target));
        rep.check(Some(x.route.clone()) == rt, &format!("{side}-route"), || format!("route {:?} expected {rt:?}", x.route));
        rep.check(x.uac == uac && x.lu == if uac { lu.as_str() } else { ru.as_str() }.to_string() && x.sec == (lu.is_sips() || ru.is_sips()), &format!("{side}-sides"), || format!("{x:?}"));
        rep.check((x.l, x.r) == if uac { (cs.unwrap_or(0), 0) } else { (0, cs.unwrap_or(0)) }, &format!("{side}-cseq"), || format!("{:?}", (x.l, x.r)));
        rep.check(x.se.map(|e| (e, x.refr)) == sess(&s), &format!("{side}-session"), || format!("{:?} {:?} expected {:?}", x.se, x.refr, sess(&s)));
    }
    // later exchanges
    for d in [a, b].into_iter().flatten() {
        let mut d = d;
        let mut hist = desc.clone();
        for _ in 0..8 {
            let before = snap(&d);
            match g.below(8) {
                0..=2 => {
                    let code = *g.pick(&[100u16, 180, 200, 200, 204, 302, 404, 491, 503, 300, 299]);
                    let (_, mut h) = exchange(&mut g, true);
                    if g.chance(1, 4) { h.retain(|(n, _)| n != "Contact"); }
                    hist += &format!(" ; resp {code} [{}]", show(&h));
                    rep.case(&hist);
                    let Some(r) = resp(code, &h) else { continue };
                    rep.guard("update_from_response", || d.update_from_response(&r));
                    let mut e = before.clone();
                    if code < 300 {
                        if let Some(c) = get(&h, "Contact").and_then(uri_in) { e.target = c; }
                        if before.state == DialogStateType::Early && code >= 200 {
                            e.state = DialogStateType::Confirmed;
                            match routes(&h, true) { Some(r) if !r.is_empty() => e.route = r, _ => {} }
                        }
                        if let Some((t, r)) = sess(&h) { e.se = Some(t); e.refr = r; }
                    }
                    let now = snap(&d);
                    rep.check(now == e, "after-response", || format!("{now:?} expected {e:?}"));
                }
                3..=5 => {
                    let m = g.pick(&[Method::Invite, Method::Update, Method::Bye, Method::Info, Method::Subscribe, Method::Notify, Method::Refer, Method::Options, Method::Message, Method::Ack, Method::Prack]).clone();
                    let n = before.r as u64 + g.below(4);
                    let mut h = vec![kv("CSeq", format!("{n} {}", m.as_str()))];
                    if g.chance(3, 4) { h.push(kv("Contact", contact(&mut g))); }
                    h.extend(rr(&mut g));
                    hist += &format!(" ; {} [{}]", m.as_str(), show(&h));
                    rep.case(&hist);
                    let Some(r) = req(m.clone(), &h) else { continue };
                    let Some(res) = rep.guard("update_from_request", || d.update_from_request(&r)) else { return };
                    let mut e = before.clone();
                    if res.is_ok() {
                        if m == Method::Ack { e.ack = Some(n as u32); } else { e.r = n as u32; }
                        if matches!(m, Method::Invite | Method::Update | Method::Subscribe | Method::Notify | Method::Refer) {
                            if let Some(c) = get(&h, "Contact").and_then(uri_in) { e.target = c; }
                        }
                    }
                    let now = snap(&d);
                    rep.check(now == e, "after-request", || format!("{} ({}): {now:?} expected {e:?}", m.as_str(), res.is_ok()));
                }
                6 => {
                    hist += " ; confirm";
                    rep.case(&hist);
                    d.confirm();
                    let mut e = before.clone();
                    if e.state == DialogStateType::Early { e.state = DialogStateType::Confirmed; }
                    rep.check(snap(&d) == e, "after-confirm", || format!("{:?} expected {e:?}", snap(&d)));
                }
                _ if g.chance(1, 3) => {
                    hist += " ; terminate";
                    rep.case(&hist);
                    d.terminate();
                    let mut e = before.clone();
                    e.state = DialogStateType::Terminated;
                    rep.check(snap(&d) == e, "after-terminate", || format!("{:?}", snap(&d)));
                }
                _ => {}
            }
        }
    }
}

// ---------- P08 ----------
fn mk(id: &DialogId, st: DialogStateType, mark: u32) -> Dialog {
    Dialog::unchecked_new(id.clone(), st, uri("sip:l@h"), uri("sip:r@h"), uri("sip:t@h"), mark, 1, None, vec![], false, None, None, true)
}
fn p08(rep: &mut Report, salt: u64, rt: &tokio::runtime::Runtime) {
    let mut g = rep.rng(salt);
    let m = DialogManager::new();
    let st = InMemoryDialogStore::default();
    let sm = SubscriptionManager::new();
    let mut model: HashMap<(String, String, String), (DialogStateType, u32)> = HashMap::new();
    let mut stored: HashMap<(String, String, String), u32> = HashMap::new();
    let mut subs: HashMap<(String, String, String, String), (SubscriptionState, u32)> = HashMap::new();
    let cids = ["c1", "c2", "C1"];
    let tags = ["a", "b", "A", "ab"];
    let mut hist = String::new();
    let mut mark = 0u32;
    for _ in 0..60 {
        let k = (g.pick_s(&cids), g.pick_s(&tags), g.pick_s(&tags));
        let id = DialogId::unchecked_new(k.0.as_str(), k.1.as_str(), k.2.as_str());
        let ev = g.pick_s(&["presence", "dialog", "Presence", "presence;id=1"]);
        let sk = (k.0.clone(), k.1.clone(), k.2.clone(), ev.clone());
        let sid = SubscriptionId::unchecked_new(k.0.as_str(), k.1.as_str(), k.2.as_str(), ev.as_str());
        mark += 1;
        match g.below(13) {
            0..=2 => {
                let s = *g.pick(&[DialogStateType::Early, DialogStateType::Confirmed, DialogStateType::Terminated]);
                hist += &format!(" insert({k:?},{s:?})");
                rep.case(&hist);
                let r = rep.guard("insert", || m.insert(mk(&id, s, mark)));
                rep.check(r.is_some_and(|r| r.is_ok()), "insert-refused", || "insert below the limits refused".into());
                model.insert(k.clone(), (s, mark));
            }
            3 => {
                hist += &format!(" remove({k:?})");
                rep.case(&hist);
                let r = m.remove(&id);
                let e = model.remove(&k);
                rep.check(r.map(|d| d.local_cseq()) == e.map(|x| x.1), "remove-result", || "remove returned another entry".into());
            }
            4 => {
                hist += " cleanup";
                rep.case(&hist);
                m.cleanup_terminated();
                model.retain(|_, v| v.0 != DialogStateType::Terminated);
            }
            5 => {
                let rev = g.chance(1, 2);
                let (f, t) = if rev { (&k.2, &k.1) } else { (&k.1, &k.2) };
                let h = vec![kv("Call-ID", k.0.clone()), kv("From", format!("<sip:f@h>;tag={f}")), kv("To", format!("<sip:t@h>;tag={t}"))];
                hist += &format!(" find_by_request({},{f},{t})", k.0);
                rep.case(&hist);
                let r = m.find_by_request(&req(Method::Bye, &h).unwrap());
                let e = model.get(&(k.0.clone(), t.clone(), f.clone()));
                rep.check(r.as_ref().map(|d| d.local_cseq()) == e.map(|x| x.1), "find-by-request", || format!("found {:?}, expected {e:?}", r.map(|d| three(d.id()))));
            }
            6 | 7 => {
                hist += &format!(" put({k:?})");
                rep.case(&hist);
                rt.block_on(st.put(mk(&id, DialogStateType::Confirmed, mark)));
                stored.insert(k.clone(), mark);
            }
            8 => {
                hist += &format!(" drop({k:?})");
                rep.case(&hist);
                rt.block_on(DialogStore::remove(&st, &id));
                stored.remove(&k);
            }
            9 | 10 => {
                let s = *g.pick(&[SubscriptionState::Active, SubscriptionState::Pending, SubscriptionState::Terminated]);
                hist += &format!(" subscribe({sk:?},{s:?})");
                rep.case(&hist);
                let r = sm.insert(Subscription::unchecked_new(sid.clone(), s, uri("sip:l@h"), uri("sip:r@h"), uri("sip:c@h"), Duration::from_secs(60), mark, 0));
                rep.check(r.is_ok(), "subscribe-refused", || "subscription below the limit refused".into());
                subs.insert(sk.clone(), (s, mark));
            }
            11 => {
                hist += &format!(" unsubscribe({sk:?})");
                rep.case(&hist);
                let r = sm.remove(&sid);
                rep.check(r.map(|s| s.local_cseq()) == subs.remove(&sk).map(|x| x.1), "unsubscribe-result", || "another subscription removed".into());
            }
            _ => {
                hist += " subs-cleanup";
                rep.case(&hist);
                let n = sm.cleanup_terminated();
                let e = subs.values().filter(|v| v.0 == SubscriptionState::Terminated).count();
                subs.retain(|_, v| v.0 != SubscriptionState::Terminated);
                rep.check(n == e, "subs-cleanup-count", || format!("{n} removed, {e} terminated"));
            }
        }
        rep.check(m.get(&id).map(|d| (d.state(), d.local_cseq())) == model.get(&k).copied(), "get", || format!("get {k:?}: {:?} expected {:?}", m.get(&id).map(|d| d.local_cseq()), model.get(&k)));
        rep.check(m.count() == model.len(), "count", || format!("{} dialogs, expected {}", m.count(), model.len()));
        let mut ids: Vec<_> = m.all_ids().iter().map(three).collect();
        ids.sort();
        let mut want: Vec<_> = model.keys().cloned().collect();
        want.sort();
        rep.check(ids == want, "all-ids", || format!("{ids:?} expected {want:?}"));
        let bc = m.find_by_call_id(&k.0);
        rep.check(match &bc { Some(d) => d.id().call_id() == k.0 && model.get(&three(d.id())).map(|x| x.1) == Some(d.local_cseq()), None => !model.keys().any(|x| x.0 == k.0) }, "find-by-call-id", || format!("{:?}", bc.map(|d| three(d.id()))));
        rep.check(rt.block_on(st.get(&id)).map(|d| d.local_cseq()) == stored.get(&k).copied(), "store-get", || format!("store get {k:?}"));
        let mut l: Vec<u32> = rt.block_on(st.list_by_call_id(&SmolStr::new(&k.0))).iter().map(|d| d.local_cseq()).collect();
        l.sort();
        let mut e: Vec<u32> = stored.iter().filter(|(x, _)| x.0 == k.0).map(|(_, v)| *v).collect();
        e.sort();
        rep.check(l == e, "store-list", || format!("list_by_call_id({}) gave {l:?}, expected {e:?}", k.0));
        rep.check(rt.block_on(st.len()) == stored.len() && st.count() == stored.len(), "store-len", || "store length".into());
        rep.check(sm.get(&sid).map(|s| (s.state(), s.local_cseq())) == subs.get(&sk).copied(), "sub-get", || format!("subscription {sk:?}"));
        let mut be: Vec<u32> = sm.by_event(&ev).iter().map(|s| s.local_cseq()).collect();
        be.sort();
        let mut e: Vec<u32> = subs.iter().filter(|(x, _)| x.3 == ev).map(|(_, v)| v.1).collect();
        e.sort();
        rep.check(be == e, "sub-by-event", || format!("{be:?} expected {e:?}"));
        rep.check(sm.all().len() == subs.len(), "sub-all", || format!("{} expected {}", sm.all().len(), subs.len()));
    }
    // identity from messages
    let (q, s) = exchange(&mut g, false);
    rep.case(&format!("ids [{}] [{}]", show(&q), show(&s)));
    if let (Some(rq), Some(rs)) = (req(Method::Subscribe, &q), resp(200, &s)) {
        let e = id_of(&s);
        rep.check(DialogId::from_response_uac(&rs).map(|d| three(&d)) == e, "id-uac", || format!("{e:?}"));
        rep.check(DialogId::from_response_uas(&rs).map(|d| three(&d)) == e.clone().map(|(c, f, t)| (c, t, f)), "id-uas", || format!("{e:?}"));
        rep.check(DialogId::from_request(&rq).map(|d| three(&d)) == id_of(&q), "id-request", || format!("{:?}", id_of(&q)));
        let mut q2 = s.clone();
        q2.push(kv("Event", "presence"));
        if let Some(r2) = req(Method::Notify, &q2) {
            let x = SubscriptionId::from_request(&r2).map(|d| (d.call_id().to_string(), d.from_tag().to_string(), d.to_tag().to_string()));
            rep.check(x == e, "sub-id", || format!("{x:?} expected {e:?}"));
            if let Some((c, f, t)) = e {
                let d = mk(&DialogId::unchecked_new(c.as_str(), t.as_str(), f.as_str()), DialogStateType::Confirmed, 1);
                rep.check(d.matches_request(&r2), "matches-request", || "the dialog's own request does not match".into());
                let o = mk(&DialogId::unchecked_new(c.as_str(), format!("{t}x").as_str(), f.as_str()), DialogStateType::Confirmed, 1);
                rep.check(!o.matches_request(&r2), "matches-foreign", || "a foreign request matches".into());
            }
        }
    }
    for e in ["presence;\u{20ac}\u{20ac}", "presence;i\u{e9}=x", "p;id=\"\u{e9}\"", "presence;id=1", ";", "", "\u{1F600}"] {
        rep.case(&format!("SubscriptionId::new(event {e:?})"));
        rep.guard("sub-new", || SubscriptionId::new("c", "f", "t", e));
    }
}
/// limits, sequentially and from several threads
fn p08_caps(rep: &mut Report, seed: u64) {
    let m = DialogManager::new();
    rep.case("early dialogs per Call-ID: fill to the limit from 8 threads");
    let mm = &m;
    let ok: usize = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|t| s.spawn(move || (0..40).filter(|i| mm.insert(mk(&DialogId::unchecked_new("c", format!("t{t}-{i}").as_str(), "r"), DialogStateType::Early, 1)).is_ok()).count())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    let held = m.all_ids().len();
    rep.check(held <= 100 && ok == held, "early-cap", || format!("{held} early dialogs on one Call-ID (limit 100), {ok} accepted"));
    rep.check(held == 100, "early-cap-low", || format!("only {held} early dialogs accepted"));
    let first = m.all_ids()[0].clone();
    rep.check(m.insert(mk(&first, DialogStateType::Early, 9)).is_ok() && m.get(&first).map(|d| d.local_cseq()) == Some(9), "early-update", || "an existing early dialog cannot be updated at the limit".into());
    rep.check(m.insert(mk(&first, DialogStateType::Confirmed, 10)).is_ok() && m.get(&first).map(|d| d.local_cseq()) == Some(10), "early-confirm", || "an existing early dialog cannot be confirmed at the limit".into());
    rep.check(m.insert(mk(&DialogId::unchecked_new("other", "x", "y"), DialogStateType::Early, 1)).is_ok(), "early-cap-cross", || "another Call-ID is affected by the limit".into());
    // whole store
    for early in [false, true] {
        let m = DialogManager::new();
        let st = if early { DialogStateType::Early } else { DialogStateType::Confirmed };
        rep.case(&format!("dialogs: fill to the limit ({st:?}) from 8 threads, seed {seed}"));
        for i in 0..9_990 { let _ = m.insert(mk(&DialogId::unchecked_new(format!("c{}", i / 50).as_str(), format!("t{i}").as_str(), "r"), st, 1)); }
        let mm = &m;
        std::thread::scope(|s| { for t in 0..8 { s.spawn(move || for i in 0..40 { let _ = mm.insert(mk(&DialogId::unchecked_new(format!("n{t}").as_str(), format!("t{i}").as_str(), "r"), st, 1)); }); } });
        rep.check(m.count() <= 10_000, "dialog-cap", || format!("{} dialogs held (limit 10000)", m.count()));
        let first = m.all_ids()[0].clone();
        rep.check(m.insert(mk(&first, DialogStateType::Confirmed, 9)).is_ok() && m.get(&first).map(|d| d.local_cseq()) == Some(9), "dialog-update-full", || "an existing dialog cannot be updated in a full store".into());
    }
    let sm = SubscriptionManager::new();
    let mks = |a: &str, mark: u32| Subscription::unchecked_new(SubscriptionId::unchecked_new(a, "f", "t", "e"), SubscriptionState::Active, uri("sip:l@h"), uri("sip:r@h"), uri("sip:c@h"), Duration::from_secs(60), mark, 0);
    rep.case("subscriptions: fill to the limit from 8 threads");
    for i in 0..9_990 { let _ = sm.insert(mks(&format!("c{i}"), 1)); }
    let (ss, mr) = (&sm, &mks);
    std::thread::scope(|s| { for t in 0..8 { s.spawn(move || for i in 0..40 { let _ = ss.insert(mr(&format!("n{t}-{i}"), 1)); }); } });
    rep.check(sm.all().len() == 10_000, "sub-cap", || format!("{} subscriptions held (limit 10000)", sm.all().len()));
    rep.check(sm.insert(mks("c5", 9)).is_ok() && sm.get(&SubscriptionId::unchecked_new("c5", "f", "t", "e")).map(|s| s.local_cseq()) == Some(9), "sub-update-full", || "an existing subscription cannot be updated in a full store".into());
}

// ---------- P09 ----------
fn p09(rep: &mut Report, salt: u64) {
    vclock::reset();
    let mut g = rep.rng(salt);
    let v = PrackValidator::new();
    struct E { rseq: u32, cseq: u32, m: Method, code: u16, done: bool, at: u128 }
    let mut model: HashMap<String, Vec<E>> = HashMap::new();
    let mut acked: HashMap<(String, u32, u32), u32> = HashMap::new();
    let ids = ["d1", "d2", "D1"];
    let mut hist = String::new();
    let mut fresh = 1u32;
    for _ in 0..60 {
        let d = g.pick_s(&ids);
        match g.below(9) {
            0..=2 => {
                fresh += 1;
                let (rseq, cseq) = (if g.chance(1, 12) { 0xffff_ff00 + fresh } else { fresh }, g.range(1, 3) as u32);
                let m = g.pick(&[Method::Invite, Method::Update]).clone();
                let code = *g.pick(&[180u16, 183]);
                hist += &format!(" send({d},{rseq},{cseq},{},{code})", m.as_str());
                rep.case(&hist);
                rep.guard("register", || v.register_reliable_provisional(&d, rseq, cseq, m.clone(), code));
                model.entry(d.clone()).or_default().push(E { rseq, cseq, m, code, done: false, at: vclock::now_ns() });
            }
            3..=6 => {
                let es = model.entry(d.clone()).or_default();
                let (mut a, mut b, mut m) = match es.len() { 0 => (1, 1, "INVITE".to_string()), n => { let e = &es[g.below(n as u64) as usize]; (e.rseq, e.cseq, e.m.as_str().to_string()) } };
                match g.below(8) { 0 => a = a.wrapping_add(1), 1 => b += 1, 2 => m = "BYE".into(), 3 => m = "UPDATE".into(), _ => {} }
                let txt = match g.below(14) { 0 => format!("{a} {b}"), 1 => "x 1 INVITE".into(), 2 => String::new(), 3 => format!("{a}  {b}\t{m}"), 4 => format!("{a} {b} {m} extra"), 5 => format!("{} {b} {m}", a as u64 + (1u64 << 32)), _ => format!("{a} {b} {m}") };
                let h = if g.chance(1, 20) { vec![] } else { vec![kv("RAck", txt.clone())] };
                let Some(r) = req(Method::Prack, &h) else { continue };
                hist += &format!(" prack({d},{txt:?}{})", if h.is_empty() { ",no header" } else { "" });
                rep.case(&hist);
                let Some(res) = rep.guard("validate", || v.validate_prack(&d, &r)) else { return };
                let now = vclock::now_ns();
                let hit = es.iter_mut().find(|e| !h.is_empty() && {
                    let p: Vec<&str> = txt.split_whitespace().collect();
                    p.len() == 3 && p[0].parse() == Ok(e.rseq) && p[1].parse() == Ok(e.cseq) && p[2].eq_ignore_ascii_case(e.m.as_str())
                });
                match (&res, hit) {
                    (Ok(k), Some(e)) => {
                        rep.check(!e.done, "prack-twice", || format!("second acknowledgement of {} accepted", e.rseq));
                        e.done = true;
                        *acked.entry((d.clone(), k.rseq, k.cseq)).or_default() += 1;
                    }
                    (Ok(k), None) => rep.fail("prack-forged", &format!("acknowledgement {k:?} names no response sent on {d}")),
                    (Err(er), Some(e)) => {
                        // legitimate: pending, recent and among the ten newest unacknowledged
                        let (er, rseq, done, at) = (er.to_string(), e.rseq, e.done, e.at);
                        let newer = es.iter().rev().take_while(|x| x.rseq != rseq).count();
                        rep.check(done || now - at > 300_000_000_000 || newer >= 10, "prack-refused", || format!("legitimate acknowledgement of {rseq} refused: {er}"));
                    }
                    (Err(_), None) => {}
                }
            }
            7 => {
                let ms = *g.pick(&[1u64, 1000, 30_000, 60_001, 299_999, 300_001]);
                hist += &format!(" +{ms}ms");
                vclock::advance(Duration::from_millis(ms));
            }
            _ => match g.below(3) {
                0 => {
                    hist += &format!(" pending({d})");
                    rep.case(&hist);
                    let p = v.get_pending(&d);
                    let es = model.entry(d.clone()).or_default();
                    for (rs, c) in &p {
                        rep.check(es.iter().any(|e| e.rseq == *rs && e.code == *c && !e.done), "pending-foreign", || format!("({rs},{c}) listed as pending on {d}"));
                    }
                    rep.check(p.len() <= 10, "pending-cap", || format!("{} pending", p.len()));
                    let now = vclock::now_ns();
                    for (i, e) in es.iter().enumerate() {
                        if !e.done && now - e.at <= 300_000_000_000 && es.len() - i <= 10 {
                            rep.check(p.contains(&(e.rseq, e.code)), "pending-lost", || format!("{} not listed as pending", e.rseq));
                        }
                    }
                }
                1 => {
                    let es = model.entry(d.clone()).or_default();
                    let Some(e) = es.first() else { continue };
                    let (rs, done) = (e.rseq, e.done);
                    hist += &format!(" remove_pracked({d},{rs})");
                    rep.case(&hist);
                    v.remove_pracked(&d, rs);
                    if done { es.remove(0); }
                }
                _ if g.chance(1, 3) => {
                    hist += &format!(" remove_dialog({d})");
                    rep.case(&hist);
                    v.remove_dialog(&d);
                    model.remove(&d);
                }
                _ => {}
            },
        }
    }
    // an acknowledged response that is sent (registered) again stays acknowledged
    {
        let v = PrackValidator::new();
        let n = g.edgy() as u32;
        let extra = g.below(6) as u32;
        let m = g.pick(&[Method::Invite, Method::Update]).clone();
        rep.case(&format!("send({n}) prack({n}) send {extra} others send({n}) again prack({n}) again"));
        let p = req(Method::Prack, &[kv("RAck", format!("{n} 5 {}", m.as_str()))]).unwrap();
        v.register_reliable_provisional("d", n, 5, m.clone(), 180);
        rep.check(v.validate_prack("d", &p).is_ok(), "prack-refused", || "first acknowledgement refused".into());
        for i in 0..extra { v.register_reliable_provisional("d", n.wrapping_add(1 + i), 5, m.clone(), 183); }
        v.register_reliable_provisional("d", n, 5, m.clone(), 180);
        rep.check(v.validate_prack("d", &p).is_err(), "prack-twice", || "the same acknowledgement was accepted twice".into());
    }
    // numbers handed out
    let m = RSeqManager::new();
    let mut last: HashMap<String, u32> = HashMap::new();
    let mut hist = String::from("rseq:");
    for _ in 0..30 {
        let d = g.pick_s(&ids);
        let id = DialogId::unchecked_new(d.as_str(), "a", "b");
        if g.chance(1, 10) { m.remove(&id); last.remove(&d); hist += &format!(" remove({d})"); continue; }
        hist += &format!(" next({d})");
        rep.case(&hist);
        let n = m.next_rseq(&id);
        match last.get(&d) {
            Some(p) => rep.check(n == p.saturating_add(1), "rseq-not-next", || format!("{n} after {p}")),
            None => rep.check((1..=0x7fff_ffff).contains(&n), "rseq-start", || format!("first number {n}")),
        }
        rep.check(m.current_rseq(&id) == Some(n), "rseq-current", || format!("current {:?} after {n}", m.current_rseq(&id)));
        last.insert(d, n);
    }
    // header forms
    for _ in 0..20 {
        let n = g.edgy();
        let t = match g.below(5) { 0 => format!("+{n}"), 1 => format!("-{n}"), 2 => format!("{n}x"), 3 => format!(" {n}"), _ => n.to_string() };
        rep.case(&format!("RSeqHeader::parse({t:?})"));
        if let Some(r) = rep.guard("rseq-parse", || RSeqHeader::parse(&t)) {
            if t == n.to_string() {
                rep.check(r.is_ok() == (1..=0x7fff_ffff).contains(&n), "rseq-parse", || format!("{t:?}: {:?}", r.map(|x| x.sequence())));
            }
        }
        let r = RAck::parse(&format!("{n} {} INVITE", n / 3));
        rep.check(r.is_ok() == (n <= u32::MAX as u64), "rack-parse", || format!("RAck {n}"));
        if let Ok(k) = r {
            rep.check(k.rseq as u64 == n && k.cseq as u64 == n / 3 && k.method == Method::Invite, "rack-fields", || format!("{k:?}"));
            rep.check(RAck::parse(&k.format()).is_ok_and(|x| x == k), "rack-print", || format!("{k:?} prints as {:?}", k.format()));
        }
    }
}

// ---------- P10 ----------
fn p10(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    for _ in 0..30 {
        let t = se_text(&mut g);
        rep.case(&format!("Session-Expires: {t:?}"));
        let Some(p) = rep.guard("se-parse", || SessionExpires::parse(&t)) else { continue };
        let e = se_oracle(&t);
        rep.check(p.as_ref().map(|x| (x.delta_seconds() as u64, x.refresher())) == e, "se-parse", || format!("{:?}, expected {e:?}", p.as_ref().map(|x| (x.delta_seconds(), x.refresher()))));
        if let Some(x) = &p {
            let s = x.to_string();
            rep.check(SessionExpires::parse(&s).as_ref() == Some(x), "se-print", || format!("prints as {s:?}"));
        }
        let m = match g.below(3) { 0 => g.edgy().to_string(), 1 => g.range(88, 92).to_string(), _ => g.range(7198, 7202).to_string() };
        let m = format!("{}{m}", g.pick_s(&["", "", "", "+", " ", "0"]));
        rep.case(&format!("Min-SE: {m:?}"));
        let Some(p) = rep.guard("minse-parse", || MinSessionExpires::parse(&m)) else { continue };
        let e = m.trim().bytes().all(|b| b.is_ascii_digit()).then(|| m.trim().parse::<u64>().ok()).flatten().filter(|n| (90..=7200).contains(n));
        rep.check(p.as_ref().map(|x| x.delta_seconds() as u64) == e, "minse-parse", || format!("{p:?}, expected {e:?}"));
        if let Some(x) = &p { rep.check(MinSessionExpires::parse(&x.to_string()).as_ref() == Some(x), "minse-print", || x.to_string()); }
        let n = g.edgy() as u32;
        rep.check(SessionExpires::new(n).is_ok() == (90..=86400).contains(&n), "se-new", || format!("new({n})"));
        rep.check(MinSessionExpires::new(n).is_ok() == (90..=7200).contains(&n), "minse-new", || format!("new({n})"));
    }
    for _ in 0..200 {
        let d = |g: &mut Rng| match g.below(4) { 0 => Duration::from_secs(g.edgy()), 1 => Duration::from_millis(g.range(89_000, 91_000)), _ => Duration::from_secs(g.range(60, 4000)) };
        let (rq, lm) = (d(&mut g), d(&mut g));
        let rm = g.chance(1, 2).then(|| d(&mut g));
        let pf = g.chance(1, 2).then(|| d(&mut g));
        rep.case(&format!("negotiate(requested {rq:?}, local min {lm:?}, remote min {rm:?}, preference {pf:?})"));
        let Some(r) = rep.guard("negotiate", || stm::negotiate_session_expires(rq, lm, rm, pf)) else { continue };
        let fl = rm.map_or(lm, |x| x.max(lm));
        match r {
            Err(m) => rep.check(rq < fl && m == fl, "negotiate-refused", || format!("refused with {m:?}, floor {fl:?}")),
            Ok(x) => rep.check(rq >= fl && x >= fl && x <= rq && x == pf.map_or(rq, |p| p.max(fl).min(rq)), "negotiate-value", || format!("{x:?}, floor {fl:?}")),
        }
        let v = stm::validate_session_expires(rq, rm);
        let lo = rm.unwrap_or(Duration::from_secs(90));
        rep.check(v == if rq < lo { Err(lo) } else { Ok(rq) }, "validate", || format!("{v:?}"));
        rep.check(stm::calculate_refresh_time(rq) == rq / 2, "refresh-time", || format!("{:?}", stm::calculate_refresh_time(rq)));
        let mut dl = mk(&DialogId::unchecked_new("c", "l", "r"), DialogStateType::Confirmed, 1);
        let s = dl.set_session_expires(rq);
        rep.check(s.is_ok() == (90..=86400).contains(&rq.as_secs()), "dialog-session", || format!("set_session_expires({rq:?}) = {s:?}"));
        rep.check(dl.session_expires() == s.ok().map(|_| rq), "dialog-session-kept", || format!("{:?}", dl.session_expires()));
    }
    for p in [None, Some("uac"), Some("uas"), Some("UAC"), Some("UAS"), Some("Uas"), Some("x"), Some("")] {
        rep.case(&format!("refresher {p:?}"));
        let (a, b) = (stm::determine_refresher_role(p, true), stm::determine_refresher_role(p, false));
        rep.check(a != b, "two-refreshers", || format!("UAC {a}, UAS {b}"));
        rep.check(b == p.is_some_and(|x| x.eq_ignore_ascii_case("uas")), "wrong-refresher", || format!("UAS refreshes: {b}"));
    }
}
/// timers under tokio's paused clock
fn p10_timers(rep: &mut Report, salt: u64) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut g = rep.rng(salt);
    rt.block_on(async {
        let m = SessionTimerManager::new();
        let mut rx = m.subscribe().await;
        let ids = ["a", "b", "c"];
        let t0 = tokio::time::Instant::now();
        // per dialog: started at, interval, refresher, refresh announced
        let mut live: HashMap<String, (Duration, Duration, bool, bool)> = HashMap::new();
        let mut hist = String::from("timers:");
        for _ in 0..25 {
            let d = g.pick_s(&ids);
            let id = DialogId::unchecked_new(d.as_str(), "l", "r");
            let now = t0.elapsed();
            match g.below(6) {
                0 | 1 => {
                    let iv = Duration::from_secs(g.range(90, 300));
                    let rf = g.chance(1, 2);
                    hist += &format!(" start({d},{}s,{rf})", iv.as_secs());
                    rep.case(&hist);
                    if g.chance(1, 2) { m.start_timer(id.clone(), iv, rf) } else { m.refresh_timer(id.clone(), iv, rf) }
                    live.insert(d, (now, iv, rf, false));
                }
                2 => {
                    hist += &format!(" stop({d})");
                    rep.case(&hist);
                    m.stop_timer(&id);
                    live.remove(&d);
                }
                3 if g.chance(1, 6) => { hist += " clear"; rep.case(&hist); m.clear(); live.clear(); }
                _ => {
                    let s = g.range(1, 200);
                    hist += &format!(" +{s}s");
                    rep.case(&hist);
                    for _ in 0..s * 2 { tokio::time::sleep(Duration::from_millis(500)).await; tokio::task::yield_now().await;
                        let now = t0.elapsed();
                        let tol = Duration::from_millis(600);
                        while let Ok(ev) = rx.try_recv() {
                            match ev {
                                SessionTimerEvent::RefreshNeeded(i) => match live.get_mut(i.call_id()) {
                                    Some(x) if x.2 && !x.3 && now >= x.0 + x.1 / 2 && now <= x.0 + x.1 / 2 + tol => x.3 = true,
                                    x => { let x = x.cloned(); rep.fail("refresh-wrong", &format!("refresh of {} announced at {now:?}, timer {x:?}", i.call_id())) }
                                },
                                SessionTimerEvent::SessionExpired(i) => match live.remove(i.call_id()) {
                                    Some(x) if now >= x.0 + x.1 && now <= x.0 + x.1 + tol && x.2 == x.3 => {}
                                    x => rep.fail("expiry-wrong", &format!("expiry of {} announced at {now:?}, timer {x:?}", i.call_id())),
                                },
                            }
                        }
                        for (k, x) in &live {
                            rep.check(now <= x.0 + x.1 + tol * 2, "expiry-missing", || format!("no expiry of {k} by {now:?}, timer {x:?}"));
                            rep.check(!x.2 || x.3 || now <= x.0 + x.1 / 2 + tol * 2, "refresh-missing", || format!("no refresh of {k} by {now:?}, timer {x:?}"));
                        }
                    }
                }
            }
            rep.check(m.active_count() == live.len(), "active-count", || format!("{} active, expected {}", m.active_count(), live.len()));
            for k in ids {
                let i = DialogId::unchecked_new(k, "l", "r");
                rep.check(m.has_timer(&i) == live.contains_key(k), "has-timer", || format!("has_timer({k}) = {}", m.has_timer(&i)));
                let now = t0.elapsed();
                let e = live.get(k).map(|x| (x.0 + x.1).saturating_sub(now));
                let r = m.time_remaining(&i);
                rep.check(r.is_some() == e.is_some() && r.unwrap_or_default().abs_diff(e.unwrap_or_default()) < Duration::from_millis(5), "time-remaining", || format!("{r:?} expected {e:?}"));
            }
        }
    });
}

fn main() {
    let mut rep = Report::from_args();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let prop = rep.prop.clone();
    rep.rule("distinct inputs or operation histories (text of the whole history)");
    let mut salt = 1;
    if prop == "P08" { p08_caps(&mut rep, 0); }
    while rep.time_left() {
        match prop.as_str() {
            "P06" => p06(&mut rep, salt),
            "P07" => p07(&mut rep, salt),
            "P08" => { p08(&mut rep, salt, &rt); if rep.thorough() && salt % 500 == 0 { p08_caps(&mut rep, salt); } }
            "P09" => p09(&mut rep, salt),
            "P10" => { p10(&mut rep, salt); if salt % 8 == 1 { p10_timers(&mut rep, salt); } }
            _ => break,
        }
        salt += 1;
    }
    rep.finish();
}
