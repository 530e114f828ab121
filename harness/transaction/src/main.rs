//! P23, P24, bounded: seeded event sequences against the real machines, and the real manager under a paused clock.
use bytes::Bytes;
use common::{Report, Rng};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_transaction::fsm::*;
use sip_transaction::timers::{TimerDefaults, Transport, TransportAwareTimers};
use sip_transaction::TransactionTimer as T;
use sip_transaction::{
    ClientInviteState as CI, ClientNonInviteState as CN, ClientTransactionUser, ServerInviteState as SI, ServerNonInviteState as SN, TransactionKey,
    TransactionManager, TransportContext, TransportDispatcher,
};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const ALL: [T; 14] = [T::A, T::B, T::C, T::D, T::E, T::F, T::G, T::H, T::I, T::J, T::K, T::T1, T::T2, T::T4];

/// everything a machine can ask for, in one vocabulary
#[derive(Debug, Clone, PartialEq)]
enum Act { Send(Bytes), Up(Response), Ack(Response, bool), Prack(Response), Arm(T, Duration), Cancel(T), End }
fn of_c(v: Vec<ClientAction>) -> Vec<Act> {
    v.into_iter().map(|a| match a {
        ClientAction::Transmit { bytes, .. } => Act::Send(bytes), ClientAction::Deliver(r) => Act::Up(r),
        ClientAction::Schedule { timer, duration } => Act::Arm(timer, duration), ClientAction::Cancel(t) => Act::Cancel(t), ClientAction::Terminate { .. } => Act::End,
    }).collect()
}
fn of_ci(v: Vec<ClientInviteAction>) -> Vec<Act> {
    v.into_iter().map(|a| match a {
        ClientInviteAction::Transmit { bytes, .. } => Act::Send(bytes), ClientInviteAction::Deliver(r) => Act::Up(r), ClientInviteAction::ExpectPrack(r) => Act::Prack(r),
        ClientInviteAction::GenerateAck { response, is_2xx } => Act::Ack(response, is_2xx),
        ClientInviteAction::Schedule { timer, duration } => Act::Arm(timer, duration), ClientInviteAction::Cancel(t) => Act::Cancel(t), ClientInviteAction::Terminate { .. } => Act::End,
    }).collect()
}
fn of_s(v: Vec<ServerAction>) -> Vec<Act> {
    v.into_iter().map(|a| match a {
        ServerAction::Transmit { bytes, .. } => Act::Send(bytes),
        ServerAction::Schedule { timer, duration } => Act::Arm(timer, duration), ServerAction::Cancel(t) => Act::Cancel(t), ServerAction::Terminate { .. } => Act::End,
    }).collect()
}
fn of_si(v: Vec<ServerInviteAction>) -> Vec<Act> {
    v.into_iter().map(|a| match a {
        ServerInviteAction::Transmit { bytes, .. } => Act::Send(bytes),
        ServerInviteAction::Schedule { timer, duration } => Act::Arm(timer, duration), ServerInviteAction::Cancel(t) => Act::Cancel(t), ServerInviteAction::Terminate { .. } => Act::End,
    }).collect()
}
/// got must hold every wanted action once, and nothing else but cancellations of timers the new state does not wait on
fn same(got: &[Act], want: &[Act], needs: &[T]) -> bool {
    let mut rest: Vec<&Act> = got.iter().collect();
    for w in want {
        match rest.iter().position(|g| *g == w) { Some(i) => { rest.remove(i); } None => return false }
    }
    rest.iter().all(|g| matches!(g, Act::Cancel(t) if !needs.contains(t)))
}

fn sip_req(m: &str, branch: &str) -> Request {
    let uri = SipUri::parse("sip:bob@example.com").unwrap();
    let mut h = Headers::new();
    h.push("Via", &format!("SIP/2.0/UDP 192.0.2.1;branch={branch}")).unwrap();
    h.push("From", "<sip:a@example.com>;tag=1").unwrap();
    h.push("To", "<sip:b@example.com>").unwrap();
    h.push("Call-ID", "cid@x").unwrap();
    h.push("CSeq", &format!("1 {m}")).unwrap();
    Request::new(RequestLine::new(Method::from_token(m).unwrap(), uri), h, Bytes::new()).unwrap()
}
fn sip_resp(code: u16, m: &str, branch: &str, extra: &[(&str, &str)]) -> Response {
    let mut h = Headers::new();
    h.push("Via", &format!("SIP/2.0/UDP 192.0.2.1;branch={branch}")).unwrap();
    h.push("To", "<sip:b@example.com>;tag=9").unwrap();
    h.push("CSeq", &format!("1 {m}")).unwrap();
    for (n, v) in extra { h.push(*n, *v).unwrap(); }
    Response::new(StatusLine::new(code, "X").unwrap(), h, Bytes::new()).unwrap()
}
/// the documented table, written down a second time
fn want_dur(tr: Transport, d: &TimerDefaults, t: T) -> Duration {
    let udp = tr == Transport::Udp;
    let x64 = Duration::from_nanos(0).checked_add(d.t1).and_then(|t| t.checked_mul(64)).unwrap_or(Duration::MAX);
    let z = Duration::from_secs(0);
    match t {
        T::T1 => d.t1, T::T2 => d.t2, T::T4 => d.t4, T::A | T::E | T::G => if udp { d.t1 } else { z }, T::B | T::F | T::H => x64,
        T::D => if udp { Duration::from_secs(32) } else { z }, T::I | T::K => if udp { d.t4 } else { z }, T::J => if udp { x64 } else { z }, T::C => Duration::from_secs(180),
    }
}
fn twice(i: Duration, t2: Duration) -> Duration { i.checked_mul(2).unwrap_or(Duration::MAX).min(t2) }
fn pick_dur(g: &mut Rng) -> Duration {
    match g.below(8) {
        0 => Duration::from_millis(500), 1 => Duration::from_secs(4), 2 => Duration::from_nanos(g.edgy()), 3 => Duration::from_secs(g.edgy()), 4 => Duration::MAX,
        5 => Duration::from_secs(0), 6 => Duration::MAX / (1 + g.below(140) as u32), _ => Duration::from_millis(g.below(9000)),
    }
}
fn pick_timers(g: &mut Rng) -> (Transport, TimerDefaults, bool) {
    let tr = *g.pick(&[Transport::Udp, Transport::Udp, Transport::Udp, Transport::Tcp, Transport::Tls]);
    if g.chance(1, 3) { (tr, TimerDefaults::default(), true) } else { (tr, TimerDefaults { t1: pick_dur(g), t2: pick_dur(g), t4: pick_dur(g) }, false) }
}
fn mk(tr: Transport, d: TimerDefaults, dflt: bool) -> TransportAwareTimers { if dflt { TransportAwareTimers::new(tr) } else { TransportAwareTimers::with_defaults(tr, d) } }

fn timers_case(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let (tr, d, dflt) = pick_timers(&mut g);
    rep.case(&format!("timers {tr:?} t1={:?} t2={:?} t4={:?} default={dflt}", d.t1, d.t2, d.t4));
    let std = TimerDefaults::default();
    rep.check(std.t1 == Duration::from_millis(500) && std.t2 == Duration::from_secs(4) && std.t4 == Duration::from_secs(5), "base-values", || format!("default base values {std:?}"));
    let tm = mk(tr, d, dflt);
    rep.check(tm.transport() == tr && tm.should_retransmit() == (tr == Transport::Udp) && tr.is_reliable() != (tr == Transport::Udp) && tr.is_unreliable() == (tr == Transport::Udp), "reliability", || "transport reliability is wrong".into());
    for t in ALL {
        if let Some(got) = rep.guard("duration", || tm.duration(t)) {
            let w = want_dur(tr, &d, t);
            rep.check(got == w, "timer-value", || format!("timer {t:?} is {got:?}, documented value {w:?}"));
        }
    }
}

fn pick_timer(g: &mut Rng) -> T { if g.chance(3, 4) { *g.pick(&[T::A, T::B, T::D, T::E, T::F, T::G, T::H, T::I, T::J, T::K]) } else { *g.pick(&ALL) } }
fn relx(g: &mut Rng) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    if g.chance(1, 2) { v.push((*g.pick(&["RSeq", "rseq"]), "7")); }
    if g.chance(1, 2) { v.push((*g.pick(&["Require", "REQUIRE"]), *g.pick(&["100rel", "timer", "timer, 100REL", "timer,precondition", "x100rel", "100rel2 , timer"]))); }
    if g.chance(1, 3) { v.push(("Require", *g.pick(&["timer", " 100rel"]))); }
    if g.chance(1, 3) { v.push(("Supported", *g.pick(&["timer", "100rel", "replaces,100Rel"]))); }
    v
}
fn wants_prack(x: &[(&str, &str)]) -> bool {
    let lists = |n: &str| x.iter().any(|(k, v)| k.eq_ignore_ascii_case(n) && v.split(',').any(|t| t.trim().eq_ignore_ascii_case("100rel")));
    x.iter().any(|(k, _)| k.eq_ignore_ascii_case("RSeq")) && (lists("Require") || lists("Supported") || !x.iter().any(|(k, _)| k.eq_ignore_ascii_case("Require")))
}
const CODES: [u16; 14] = [200, 202, 299, 300, 302, 399, 401, 404, 486, 500, 503, 599, 600, 699];

fn run_ci(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let (tr, d, dflt) = pick_timers(&mut g);
    let mut f = match rep.guard("new", || ClientInviteFsm::new(mk(tr, d, dflt))) { Some(f) => f, None => return };
    let dur = |t| want_dur(tr, &d, t);
    let (mut st, mut iv, mut inv) = (CI::Calling, dur(T::A), None::<Bytes>);
    let mut hist = format!("client INVITE {tr:?} t1={:?} t2={:?} t4={:?}:", d.t1, d.t2, d.t4);
    let mut up_final = 0;
    let deep = g.chance(1, 3);
    for step in 0..g.range(4, if deep { 90 } else { 14 }) {
        let mut want: Vec<Act> = vec![];
        let mut maybe_iv = None;
        let ev;
        if (step == 0 && !g.chance(1, 12)) || g.chance(1, 25) {
            let q = sip_req("INVITE", &format!("z9hG4bK{}", g.below(3)));
            hist += " invite";
            if st == CI::Calling {
                let b = sip_parse::serialize_request(&q);
                inv = Some(b.clone());
                want.push(Act::Send(b));
                if dur(T::A) > Duration::ZERO { want.push(Act::Arm(T::A, dur(T::A))); }
                want.push(Act::Arm(T::B, dur(T::B)));
                maybe_iv = Some(dur(T::A));
            }
            ev = ClientInviteEvent::SendInvite(q);
        } else if deep && g.chance(3, 4) {
            hist += " tA";
            if st == CI::Calling && dur(T::A) > Duration::ZERO && inv.is_some() { iv = twice(iv, d.t2); want = vec![Act::Send(inv.clone().unwrap()), Act::Arm(T::A, iv)]; }
            else if st == CI::Calling && dur(T::A) > Duration::ZERO { maybe_iv = Some(twice(iv, d.t2)); }
            ev = ClientInviteEvent::TimerFired(T::A);
        } else {
            match g.below(9) {
                0 | 1 => {
                    let x = relx(&mut g);
                    let r = sip_resp(*g.pick(&[100u16, 180, 183, 199]), "INVITE", "z9hG4bK1", &x);
                    hist += &format!(" {}{x:?}", r.code());
                    if st == CI::Calling || st == CI::Proceeding {
                        st = CI::Proceeding;
                        want = vec![Act::Cancel(T::A), Act::Up(r.clone())];
                        if wants_prack(&x) { want.push(Act::Prack(r.clone())); }
                    }
                    ev = ClientInviteEvent::ReceiveProvisional(r);
                }
                2 | 3 | 4 => {
                    let code = *g.pick(&CODES);
                    let r = sip_resp(code, "INVITE", "z9hG4bK1", &[]);
                    hist += &format!(" {code}");
                    if code < 300 { if st != CI::Confirmed { st = CI::Terminated; want = vec![Act::Cancel(T::A), Act::Cancel(T::B), Act::Up(r.clone()), Act::Ack(r.clone(), true)]; } }
                    else if st == CI::Completed { want = vec![Act::Ack(r.clone(), false)]; }
                    else if st == CI::Calling || st == CI::Proceeding {
                        st = CI::Completed;
                        want = vec![Act::Cancel(T::A), Act::Cancel(T::B), Act::Up(r.clone()), Act::Ack(r.clone(), false), Act::Arm(T::D, dur(T::D))];
                    }
                    ev = ClientInviteEvent::ReceiveFinal(r);
                }
                5 if g.chance(1, 3) => { hist += " neterr"; st = CI::Terminated; want = vec![Act::End]; ev = ClientInviteEvent::TransportError; }
                _ => {
                    let k = pick_timer(&mut g);
                    hist += &format!(" t{k:?}");
                    match (st, k) {
                        (CI::Calling, T::A) if dur(T::A) > Duration::ZERO && inv.is_some() => { iv = twice(iv, d.t2); want = vec![Act::Send(inv.clone().unwrap()), Act::Arm(T::A, iv)]; }
                        (CI::Calling, T::A) if dur(T::A) > Duration::ZERO => { maybe_iv = Some(twice(iv, d.t2)); }
                        (CI::Calling, T::B) => { st = CI::Terminated; want = vec![Act::Cancel(T::A), Act::End]; }
                        (CI::Completed, T::D) => { st = CI::Terminated; want = vec![]; }
                        _ => {}
                    }
                    ev = ClientInviteEvent::TimerFired(k);
                }
            }
        }
        rep.case(&hist);
        let fin = matches!(&ev, ClientInviteEvent::ReceiveFinal(r) if r.code() >= 300);
        let td = matches!(&ev, ClientInviteEvent::TimerFired(T::D));
        let Some(got) = rep.guard("client-invite", || of_ci(f.on_event(ev))) else { return };
        if maybe_iv.is_some() && inv.is_none() { return; } // a retransmission timer without a request: the interval is not observable
        if fin { up_final += got.iter().filter(|a| matches!(a, Act::Up(_))).count(); }
        let needs: &[T] = match st { CI::Calling => &[T::A, T::B], CI::Completed => &[T::D], _ => &[] };
        let ok = if td && want.is_empty() { got.iter().all(|a| matches!(a, Act::Cancel(_)) || *a == Act::End) } else { same(&got, &want, needs) };
        rep.check(f.state() == st, "client-invite-state", || format!("state {:?}, expected {st:?}", f.state()));
        rep.check(ok, "client-invite-actions", || format!("asked for {got:?}, expected {want:?}"));
        rep.check(up_final <= 1, "client-invite-final-twice", || "a non-2xx final response was passed up twice".into());
        if let Some(i) = maybe_iv { if i != iv { return; } }
        if f.state() != st || !ok { return; }
    }
}
fn run_c(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let (tr, d, dflt) = pick_timers(&mut g);
    let mut f = match rep.guard("new", || ClientNonInviteFsm::new(mk(tr, d, dflt))) { Some(f) => f, None => return };
    let dur = |t| want_dur(tr, &d, t);
    let (mut st, mut iv, mut req) = (CN::Trying, dur(T::E), None::<Bytes>);
    let mut hist = format!("client non-INVITE {tr:?} t1={:?} t2={:?} t4={:?}:", d.t1, d.t2, d.t4);
    let mut ups = 0;
    let deep = g.chance(1, 3);
    for step in 0..g.range(4, if deep { 90 } else { 14 }) {
        let mut want: Vec<Act> = vec![];
        let ev;
        let open = st == CN::Trying || st == CN::Proceeding;
        if step == 0 || g.chance(1, 40) {
            let q = sip_req("OPTIONS", "z9hG4bK1");
            hist += " send";
            if st == CN::Trying {
                let b = sip_parse::serialize_request(&q);
                req = Some(b.clone());
                want.push(Act::Send(b));
                if dur(T::E) > Duration::ZERO { want.push(Act::Arm(T::E, dur(T::E))); }
                want.push(Act::Arm(T::F, dur(T::F)));
            }
            if step > 0 && st == CN::Trying { rep.case(&hist); let _ = rep.guard("client", || f.on_event(ClientNonInviteEvent::SendRequest(q))); return; }
            ev = ClientNonInviteEvent::SendRequest(q);
        } else if deep && g.chance(3, 4) {
            hist += " tE";
            if open && dur(T::E) > Duration::ZERO { iv = twice(iv, d.t2); want = vec![Act::Send(req.clone().unwrap()), Act::Arm(T::E, iv)]; }
            ev = ClientNonInviteEvent::TimerFired(T::E);
        } else {
            match g.below(8) {
                0 | 1 => {
                    let r = sip_resp(*g.pick(&[100u16, 183]), "OPTIONS", "z9hG4bK1", &[]);
                    hist += &format!(" {}", r.code());
                    if open { st = CN::Proceeding; want = vec![Act::Up(r.clone())]; }
                    ev = ClientNonInviteEvent::ReceiveProvisional(r);
                }
                2 | 3 => {
                    let r = sip_resp(*g.pick(&CODES), "OPTIONS", "z9hG4bK1", &[]);
                    hist += &format!(" {}", r.code());
                    if open { st = CN::Completed; want = vec![Act::Up(r.clone()), Act::Cancel(T::E), Act::Cancel(T::F), Act::Arm(T::K, dur(T::K))]; }
                    ev = ClientNonInviteEvent::ReceiveFinal(r);
                }
                4 if g.chance(1, 3) => { hist += " neterr"; st = CN::Terminated; want = vec![Act::End]; ev = ClientNonInviteEvent::TransportError; }
                _ => {
                    let k = pick_timer(&mut g);
                    hist += &format!(" t{k:?}");
                    match (open, st, k) {
                        (true, _, T::E) if dur(T::E) > Duration::ZERO => { iv = twice(iv, d.t2); want = vec![Act::Send(req.clone().unwrap()), Act::Arm(T::E, iv)]; }
                        (true, _, T::F) => { st = CN::Terminated; want = vec![Act::Cancel(T::E), Act::End]; }
                        (_, CN::Completed, T::K) => { st = CN::Terminated; }
                        _ => {}
                    }
                    ev = ClientNonInviteEvent::TimerFired(k);
                }
            }
        }
        rep.case(&hist);
        let fin = matches!(&ev, ClientNonInviteEvent::ReceiveFinal(_));
        let tk = matches!(&ev, ClientNonInviteEvent::TimerFired(T::K));
        let Some(got) = rep.guard("client", || of_c(f.on_event(ev))) else { return };
        if fin { ups += got.iter().filter(|a| matches!(a, Act::Up(_))).count(); }
        let needs: &[T] = match st { CN::Trying | CN::Proceeding => &[T::E, T::F], CN::Completed => &[T::K], _ => &[] };
        let ok = if tk && want.is_empty() { got.iter().all(|a| matches!(a, Act::Cancel(_)) || *a == Act::End) } else { same(&got, &want, needs) };
        rep.check(f.state() == st, "client-state", || format!("state {:?}, expected {st:?}", f.state()));
        rep.check(ok, "client-actions", || format!("asked for {got:?}, expected {want:?}"));
        rep.check(ups <= 1, "client-final-twice", || "a final response was passed up twice".into());
        if f.state() != st || !ok { return; }
    }
}
fn run_s(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let (tr, d, dflt) = pick_timers(&mut g);
    let mut f = ServerNonInviteFsm::new(mk(tr, d, dflt));
    let dur = |t| want_dur(tr, &d, t);
    let (mut st, mut last) = (SN::Trying, None::<Bytes>);
    let mut hist = format!("server non-INVITE {tr:?} t1={:?}:", d.t1);
    for step in 0..g.range(4, 14) {
        let mut want: Vec<Act> = vec![];
        let ev;
        if step == 0 && g.chance(5, 6) { hist += " recv"; st = SN::Proceeding; ev = ServerNonInviteEvent::ReceiveRequest(sip_req("OPTIONS", "z9hG4bK1")); }
        else {
            match g.below(9) {
                0 => { hist += " recv"; if st == SN::Trying { st = SN::Proceeding; } ev = ServerNonInviteEvent::ReceiveRequest(sip_req("OPTIONS", "z9hG4bK1")); }
                1 | 2 => {
                    let r = sip_resp(*g.pick(&[100u16, 183]), "OPTIONS", "z9hG4bK1", &[]);
                    hist += &format!(" prov{}", r.code());
                    if st == SN::Proceeding { let b = sip_parse::serialize_response(&r); last = Some(b.clone()); want = vec![Act::Send(b)]; }
                    ev = ServerNonInviteEvent::SendProvisional(r);
                }
                3 | 4 => {
                    let r = sip_resp(*g.pick(&CODES), "OPTIONS", "z9hG4bK1", &[]);
                    hist += &format!(" final{}", r.code());
                    if st == SN::Trying || st == SN::Proceeding { st = SN::Completed; let b = sip_parse::serialize_response(&r); last = Some(b.clone()); want = vec![Act::Send(b), Act::Arm(T::J, dur(T::J))]; }
                    ev = ServerNonInviteEvent::SendFinal(r);
                }
                5 if g.chance(1, 3) => { hist += " ack"; if st == SN::Completed { st = SN::Terminated; want = vec![Act::End]; } ev = ServerNonInviteEvent::AckReceived; }
                6 if g.chance(1, 3) => { hist += " neterr"; st = SN::Terminated; want = vec![Act::End]; ev = ServerNonInviteEvent::TransportError; }
                _ => { let k = pick_timer(&mut g); hist += &format!(" t{k:?}"); if st == SN::Completed && k == T::J { st = SN::Terminated; want = vec![Act::End]; } ev = ServerNonInviteEvent::TimerFired(k); }
            }
        }
        rep.case(&hist);
        let Some(got) = rep.guard("server", || of_s(f.on_event(ev))) else { return };
        let ok = same(&got, &want, if st == SN::Completed { &[T::J] } else { &[] });
        rep.check(f.state() == st, "server-state", || format!("state {:?}, expected {st:?}", f.state()));
        rep.check(ok, "server-actions", || format!("asked for {got:?}, expected {want:?}"));
        let again = of_s(f.on_retransmit());
        let w: Vec<Act> = if st == SN::Proceeding || st == SN::Completed { last.iter().cloned().map(Act::Send).collect() } else { vec![] };
        rep.check(again == w, "server-repeat", || format!("a repeated request is answered {again:?}, expected {w:?}"));
        if f.state() != st || !ok { return; }
    }
}
fn run_si(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let (tr, d, dflt) = pick_timers(&mut g);
    let mut f = ServerInviteFsm::new(mk(tr, d, dflt));
    let dur = |t| want_dur(tr, &d, t);
    let (mut st, mut last, mut fin, mut iv) = (SI::Proceeding, None::<Bytes>, None::<Bytes>, Duration::ZERO);
    let mut hist = format!("server INVITE {tr:?} t1={:?} t2={:?}:", d.t1, d.t2);
    let deep = g.chance(1, 3);
    for _ in 0..g.range(4, if deep { 90 } else { 16 }) {
        let mut want: Vec<Act> = vec![];
        let ev;
        if deep && st == SI::Completed && g.chance(9, 10) {
            hist += " tG";
            if dur(T::G) > Duration::ZERO { iv = twice(iv, d.t2); want = vec![Act::Send(fin.clone().unwrap()), Act::Arm(T::G, iv)]; }
            ev = ServerInviteEvent::TimerFired(T::G);
        } else {
            match g.below(10) {
                0 => { hist += " invite"; ev = ServerInviteEvent::ReceiveInvite(sip_req("INVITE", "z9hG4bK1")); }
                1 => { hist += " cancel"; ev = ServerInviteEvent::ReceiveCancel; }
                2 => {
                    let r = sip_resp(*g.pick(&[100u16, 180, 183]), "INVITE", "z9hG4bK1", &[]);
                    hist += &format!(" prov{}", r.code());
                    if st == SI::Proceeding { let b = sip_parse::serialize_response(&r); last = Some(b.clone()); want = vec![Act::Send(b)]; }
                    ev = ServerInviteEvent::SendProvisional(r);
                }
                3 | 4 => {
                    let code = if deep { *g.pick(&CODES[3..]) } else { *g.pick(&CODES) };
                    let r = sip_resp(code, "INVITE", "z9hG4bK1", &[]);
                    hist += &format!(" final{code}");
                    if st == SI::Proceeding {
                        let b = sip_parse::serialize_response(&r);
                        last = Some(b.clone());
                        want = vec![Act::Send(b.clone())];
                        if code < 300 { st = SI::Terminated; want.push(Act::End); } else {
                            st = SI::Completed; fin = Some(b); iv = dur(T::G);
                            if iv > Duration::ZERO { want.push(Act::Arm(T::G, iv)); }
                            want.push(Act::Arm(T::H, dur(T::H)));
                        }
                    }
                    ev = ServerInviteEvent::SendFinal(r);
                }
                5 => { hist += " ack"; if st == SI::Completed { st = SI::Confirmed; want = vec![Act::Cancel(T::G), Act::Cancel(T::H), Act::Arm(T::I, dur(T::I))]; } ev = ServerInviteEvent::ReceiveAck; }
                6 if g.chance(1, 4) => { hist += " neterr"; st = SI::Terminated; want = vec![Act::End]; ev = ServerInviteEvent::TransportError; }
                _ => {
                    let k = pick_timer(&mut g);
                    hist += &format!(" t{k:?}");
                    match (st, k) {
                        (SI::Completed, T::G) if dur(T::G) > Duration::ZERO => { iv = twice(iv, d.t2); want = vec![Act::Send(fin.clone().unwrap()), Act::Arm(T::G, iv)]; }
                        (SI::Completed, T::H) | (SI::Confirmed, T::I) => { st = SI::Terminated; want = vec![Act::End]; }
                        _ => {}
                    }
                    ev = ServerInviteEvent::TimerFired(k);
                }
            }
        }
        rep.case(&hist);
        let Some(got) = rep.guard("server-invite", || of_si(f.on_event(ev))) else { return };
        let needs: &[T] = match st { SI::Completed => &[T::G, T::H], SI::Confirmed => &[T::I], _ => &[] };
        let ok = same(&got, &want, needs);
        rep.check(f.state() == st, "server-invite-state", || format!("state {:?}, expected {st:?}", f.state()));
        rep.check(ok, "server-invite-actions", || format!("asked for {got:?}, expected {want:?}"));
        let again = of_si(f.on_retransmit());
        let w: Vec<Act> = if st == SI::Proceeding || st == SI::Completed { last.iter().cloned().map(Act::Send).collect() } else { vec![] };
        rep.check(again == w, "server-invite-repeat", || format!("a repeated INVITE is answered {again:?}, expected {w:?}"));
        if f.state() != st || !ok { return; }
    }
}

// ---- the manager, with tokio's clock paused ----
struct Wire { t0: tokio::time::Instant, sent: Mutex<Vec<(Duration, Bytes)>>, fail: bool }
#[async_trait::async_trait]
impl TransportDispatcher for Wire {
    async fn dispatch(&self, _c: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        self.sent.lock().unwrap().push((self.t0.elapsed(), payload));
        if self.fail { anyhow::bail!("refused") } else { Ok(()) }
    }
}
#[derive(Default)]
struct User { log: Mutex<Vec<String>> }
impl User { fn push(&self, s: String) { self.log.lock().unwrap().push(s); } }
#[async_trait::async_trait]
impl ClientTransactionUser for User {
    async fn on_provisional(&self, _k: &TransactionKey, r: &Response) { self.push(format!("prov {}", r.code())); }
    async fn on_final(&self, _k: &TransactionKey, r: &Response) { self.push(format!("final {}", r.code())); }
    async fn on_terminated(&self, _k: &TransactionKey, why: &str) { self.push(format!("end {why}")); }
    async fn send_ack(&self, _k: &TransactionKey, r: Response, _c: &TransportContext, is_2xx: bool) { self.push(format!("ack {} {is_2xx}", r.code())); }
    async fn send_prack(&self, _k: &TransactionKey, r: Response, _c: &TransportContext) { self.push(format!("prack {}", r.code())); }
    async fn on_transport_error(&self, _k: &TransactionKey) { self.push("neterr".into()); }
}
fn manager_case(rep: &mut Report, salt: u64) {
    let mut g = rep.rng(salt);
    let reliable = g.chance(1, 3);
    let t1 = Duration::from_millis(*g.pick(&[500u64, 500, 200, 1000, 3000, 5000]));
    let t2 = Duration::from_millis(*g.pick(&[4000u64, 4000, 1000, 64000]));
    let t4 = Duration::from_millis(*g.pick(&[5000u64, 5000, 1]));
    let invite = g.chance(1, 2);
    let server = g.chance(1, 2);
    let fail = !server && g.chance(1, 10);
    let m = if invite { "INVITE" } else { "OPTIONS" };
    // when the peer (or, on the server, the user) answers, in units of T1; and how often it repeats itself
    let ans: Vec<(u32, u16)> = match g.below(5) {
        0 => vec![],
        1 => vec![(g.range(0, 20) as u32, 180)],
        2 => vec![(g.range(0, 20) as u32, 180), (g.range(21, 60) as u32, *g.pick(&CODES))],
        3 => { let c = *g.pick(&CODES); let a = g.range(0, 40) as u32; vec![(a, c), (a + 1, c), (a + 3, c)] }
        _ => { let a = g.range(0, 30) as u32; vec![(a, 180), (a + 1, 486), (a + 2, 486), (a + 90, 486)] }
    };
    let ack_at = if g.chance(1, 2) { Some(g.range(1, 50) as u32) } else { None };
    let desc = format!("manager {} {m} reliable={reliable} t1={t1:?} t2={t2:?} t4={t4:?} answers(T1,code)={ans:?} ack=+{ack_at:?} netfail={fail}", if server { "server" } else { "client" });
    rep.case(&desc);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let out = rep.guard("manager", || rt.block_on(async {
        let wire = Arc::new(Wire { t0: tokio::time::Instant::now(), sent: Mutex::new(vec![]), fail });
        let user = Arc::new(User::default());
        let mgr = TransactionManager::with_timers(wire.clone(), t1, t2, t4);
        let kind = if reliable { TransportKind::Tls } else { TransportKind::Udp };
        let ctx = TransportContext::new(kind, "192.0.2.9:5060".parse().unwrap(), None);
        let t0 = wire.t0;
        let end;
        if server {
            let h = mgr.receive_request(sip_req(m, "z9hG4bKx"), ctx.clone()).await;
            let mut done = None;
            for (a, c) in &ans {
                tokio::time::sleep_until(t0 + t1 * *a).await;
                let r = sip_resp(*c, m, "z9hG4bKx", &[]);
                if *c < 200 { h.send_provisional(r).await } else { h.send_final(r).await; done.get_or_insert((*a, *c)); }
            }
            if let (Some((a, _)), Some(k), true) = (done, ack_at, invite) {
                let last = ans.last().map(|x| x.0).unwrap_or(0);
                if a + k > last {
                    tokio::time::sleep_until(t0 + t1 * (a + k) + Duration::from_nanos(1_000_000)).await;
                    h.ack_received().await;
                }
            }
            tokio::time::sleep_until(t0 + t1 * 300 + Duration::from_secs(100)).await;
            end = user.log.lock().unwrap().clone();
        } else {
            let started = mgr.start_client_transaction(sip_req(m, "z9hG4bKx"), ctx, user.clone()).await.is_ok();
            if !started { user.push("refused".into()); }
            for (a, c) in &ans {
                tokio::time::sleep_until(t0 + t1 * *a + Duration::from_nanos(1_000_000)).await;
                mgr.receive_response(sip_resp(*c, m, "z9hG4bKx", &[])).await;
            }
            tokio::time::sleep_until(t0 + t1 * 300 + Duration::from_secs(100)).await;
            end = user.log.lock().unwrap().clone();
        }
        let sent = wire.sent.lock().unwrap().clone();
        (sent, end)
    }));
    let Some((sent, log)) = out else { return };
    if fail {
        rep.check(sent.len() == 1 && log.iter().filter(|l| l.starts_with("end")).count() == 1, "net-error", || format!("after a transport error: {} sends, user saw {log:?}", sent.len()));
        return;
    }
    let slack = Duration::from_millis(2); // tokio's timers work in whole milliseconds
    let near = |a: Duration, b: Duration| a <= b + slack * 40 && b <= a + slack * 40;
    // the instants at which the message is sent again
    let sched = |from: Duration, until: Duration| { let (mut v, mut t, mut i) = (vec![], from, t1); while t + i < until { t += i; v.push(t); i = (i * 2).min(t2); } v };
    let fin = ans.iter().find(|x| x.1 >= 200).copied();
    let x64 = t1 * 64;
    if !server {
        let first_any = ans.first().map(|x| t1 * x.0 + Duration::from_millis(1));
        let fin_t = fin.map(|x| t1 * x.0 + Duration::from_millis(1));
        let stop = if invite { first_any.unwrap_or(x64).min(x64) } else { fin_t.unwrap_or(x64).min(x64) };
        if t1 > t2 { return; }
        let want = if reliable { vec![] } else { sched(Duration::ZERO, stop) };
        let got: Vec<Duration> = sent.iter().skip(1).map(|x| x.0).collect();
        // a retransmission falling within a few milliseconds of the stop may or may not happen
        let edge = |v: &[Duration]| v.iter().filter(|x| **x + slack * 40 < stop).count();
        let k = edge(&want);
        rep.check(edge(&got) == k && got.len() <= k + 1 && want.iter().zip(&got).take(k).all(|(a, b)| near(*a, *b)), "client-schedule", || format!("request repeated at {got:?}, expected {want:?} before {stop:?}"));
        rep.check(sent.iter().all(|x| x.1 == sent[0].1), "client-resend-differs", || "a retransmission differs from the request".into());
        let answered_in_time = fin_t.map(|t| t < x64).unwrap_or(false) || (invite && first_any.map(|t| t < x64).unwrap_or(false));
        let timeouts = log.iter().filter(|l| l.starts_with("end")).count();
        rep.check(timeouts == if answered_in_time { 0 } else { 1 }, "client-timeout", || format!("user saw {log:?}; answered in time: {answered_in_time}"));
        let finals = log.iter().filter(|l| l.starts_with("final")).count();
        let want_f = match fin_t { Some(t) if t < x64 || (invite && first_any.unwrap() < x64) => 1, _ => 0 };
        rep.check(finals == want_f, "client-finals", || format!("user saw {log:?}, expected {want_f} final response(s)"));
        if invite {
            if let Some((a, c)) = fin { if want_f == 1 && c >= 300 {
                let d = if reliable { Duration::ZERO } else { Duration::from_secs(32) };
                let acks = ans.iter().filter(|x| x.1 >= 300 && t1 * x.0 <= t1 * a + d).count();
                let got = log.iter().filter(|l| l.starts_with("ack")).count();
                let sure = ans.iter().all(|x| !near(t1 * x.0, t1 * a + d));
                rep.check(!sure || reliable || got == acks, "client-acks", || format!("{got} ACKs for {acks} copies of the final response: {log:?}"));
            } }
        }
    } else if invite {
        if t1 > t2 { return; }
        if let Some((a, c)) = fin {
            let at = t1 * a;
            let before = ans.iter().filter(|x| x.1 < 200 && x.0 <= a).count();
            let after: Vec<Duration> = sent.iter().skip(before + 1).map(|x| x.0).collect();
            let acked = ack_at.filter(|k| a + k > ans.last().unwrap().0).map(|k| t1 * (a + k) + Duration::from_millis(1));
            let stop = acked.unwrap_or(at + x64).min(at + x64);
            let want = if reliable || c < 300 { vec![] } else { sched(at, stop) };
            let edge = |v: &[Duration]| v.iter().filter(|x| **x + slack * 40 < stop).count();
            let k = edge(&want);
            rep.check(edge(&after) == k && after.len() <= k + 1 && want.iter().zip(&after).take(k).all(|(x, y)| near(*x, *y)), "server-schedule", || format!("final response repeated at {after:?}, expected {want:?} before {stop:?}"));
        }
    } else if let Some((a, _)) = fin {
        let provs = ans.iter().filter(|x| x.1 < 200 && x.0 <= a).count();
        rep.check(sent.len() == provs + 1, "server-finals", || format!("{} responses sent, expected {}", sent.len(), provs + 1));
    }
}

fn main() {
    let mut rep = Report::from_args();
    rep.rule("distinct event histories, timer configurations or whole transactions (text of the whole history)");
    let mut n = 0u64;
    while rep.time_left() {
        n += 1;
        run_ci(&mut rep, n * 8 + 1);
        run_c(&mut rep, n * 8 + 2);
        run_s(&mut rep, n * 8 + 3);
        run_si(&mut rep, n * 8 + 4);
        timers_case(&mut rep, n * 8 + 5);
        if n % 4 == 0 { manager_case(&mut rep, n * 8 + 6); }
    }
    rep.finish();
}
