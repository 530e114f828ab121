use bytes::Bytes;
use common::{Report, Rng};
use sip_core::*;

fn token(s: &str) -> bool {
    !s.is_empty() && s.len() <= 128 && s.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~^|".contains(c))
}
fn value(s: &str) -> bool {
    s.len() <= 8192 && !s.contains(['\r', '\n', '\0'])
}
fn text(r: &mut Rng) -> String {
    let alpha = ['a', 'Z', '0', ' ', ':', ';', '<', '>', '"', '\\', '\t', '\r', '\n', '\0', '\x01', '\x7f', '\u{85}', '\u{2028}', 'é', '%', '|', '^', '`'];
    let n = match r.below(40) { 0 => r.range(8185, 8200), 1 => r.range(250, 260), _ => r.below(12) };
    let bad = r.chance(1, 3);
    let mut s = String::new();
    for i in 0..n {
        let k = r.below(alpha.len() as u64) as usize;
        let c = if bad { alpha[k] } else { ['a', 'b', ' ', ';', '=', '.', 'é'][k % 7] };
        // keep long ones mostly plain so that only the length decides
        s.push(if n > 200 && !(i == n - 1 && r.chance(1, 4)) { 'x' } else { c });
    }
    s
}
fn name(r: &mut Rng) -> String {
    match r.below(14) {
        0 => text(r),
        1 => "x".repeat(r.range(120, 136) as usize),
        2 => String::new(),
        3 => { let mut s = r.pick_s(&["Via", "To"]); let c = *r.pick(&['\r', '\n', ':', ' ', '\0', '\t', '\x7f', '/', '(', 'é', '"', ',', ';', '=', '@', '{', '#', '$', '&']); let p = r.below(s.len() as u64 + 1) as usize; s.insert(p, c); s }
        _ => r.pick_s(&["Via", "via", "VIA", "To", "to", "Contact", "X-A", "x-a", "X-B", "Call-ID", "call-id", "!%*_+`'~^|.-"]),
    }
}
type M = Vec<(String, String)>;
fn same(h: &Headers, m: &M) -> bool {
    h.len() == m.len() && h.iter().zip(m).all(|(a, b)| a.name() == b.0 && a.value() == b.1)
}
fn inv(rep: &mut Report, h: &Headers) {
    let bad = h.iter().find(|x| !token(x.name()) || !value(x.value()));
    rep.check(bad.is_none(), "invariant", || format!("the collection holds a header it must refuse: {:?}", bad));
    rep.check(h.len() <= 200, "limit", || format!("{} headers held", h.len()));
}
pub fn run(rep: &mut Report) {
    rep.rule("histories of header operations (push, push_header, set_or_push, replace_first, remove, remove_at, retain, clear, bulk construction) with ordinary, oversized and control-character names and values against an ordered list of pairs; messages from arbitrary reasons and bodies");
    let mut r = rep.rng(16);
    while rep.time_left() {
        let mut h = Headers::new();
        let mut m: M = vec![];
        if r.chance(1, 10) {
            let n = r.range(190, 205);
            let v: Vec<Header> = (0..n).map(|i| Header::new(format!("X-{}", i % 7), format!("{i}")).unwrap()).collect();
            let mm: M = v.iter().map(|x| (x.name().into(), x.value().into())).collect();
            rep.case(&format!("{n} headers at once"));
            match Headers::from_vec(v.clone()) {
                Ok(x) => { rep.check(n <= 200, "bulk", || format!("from_vec accepted {n} headers")); h = x; m = mm.clone(); }
                Err(_) => rep.check(n > 200, "bulk", || format!("from_vec refused {n} headers")),
            }
            let c: Headers = v.into_iter().collect();
            let keep: M = mm.into_iter().take(200).collect();
            rep.check(same(&c, &keep), "collect", || format!("collecting {n} headers kept {}", c.len()));
            if m.is_empty() { h = c; m = keep; }
        }
        let mut trace = String::new();
        for _ in 0..r.range(1, 25) {
            let (n, v) = (name(&mut r), text(&mut r));
            let (tn, tv) = (token(&n), value(&v));
            let op = r.below(12);
            trace += &format!(" {op}({:?},{:?})", n.chars().take(24).collect::<String>(), v.chars().take(24).collect::<String>());
            rep.case(&trace);
            let before = m.clone();
            let pos = m.iter().position(|x| x.0.eq_ignore_ascii_case(&n));
            match op {
                0..=3 => {
                    let ok = h.push(&n, &v).is_ok();
                    let want = tn && tv && m.len() < 200;
                    if want { m.push((n.clone(), v.clone())); }
                    rep.check(ok == want, "push", || format!("push({n:?}, {v:?}) with {} headers said {ok}", before.len()));
                }
                4 => {
                    let x = Header::new(&n, &v);
                    rep.check(x.is_ok() == (tn && tv), "new", || format!("Header::new({n:?}, {v:?}) said {:?}", x.is_ok()));
                    if let Ok(x) = x {
                        let ok = h.push_header(x).is_ok();
                        let want = m.len() < 200;
                        if want { m.push((n.clone(), v.clone())); }
                        rep.check(ok == want, "push_header", || format!("push_header with {} headers said {ok}", before.len()));
                    }
                }
                5 | 6 => {
                    let ok = h.set_or_push(&n, &v).is_ok();
                    let want = tn && tv && (pos.is_some() || m.len() < 200);
                    if want { match pos { Some(i) => m[i].1 = v.clone(), None => m.push((n.clone(), v.clone())) } }
                    rep.check(ok == want, "set_or_push", || format!("set_or_push({n:?}, {v:?}) said {ok}"));
                }
                7 => {
                    let x = h.replace_first(&n, &v).ok();
                    let want = if !tv { None } else { Some(pos.is_some()) };
                    if let (true, Some(i)) = (tv, pos) { m[i].1 = v.clone(); }
                    rep.check(x == want, "replace_first", || format!("replace_first({n:?}, {v:?}) said {x:?}, not {want:?}"));
                }
                8 => {
                    let x = h.remove(&n);
                    m.retain(|y| !y.0.eq_ignore_ascii_case(&n));
                    rep.check(x == before.len() - m.len(), "remove", || format!("remove({n:?}) said {x}"));
                }
                9 if !m.is_empty() => {
                    let i = r.below(m.len() as u64) as usize;
                    let x = h.remove_at(i);
                    let y = m.remove(i);
                    rep.check(x.name() == y.0 && x.value() == y.1, "remove_at", || format!("remove_at({i}) gave {x:?}"));
                }
                10 => { h.retain(|x| x.value().len() % 3 != 0); m.retain(|x| x.1.len() % 3 != 0); }
                11 if r.chance(1, 6) => { h.clear(); m.clear(); }
                11 => { let k = if r.chance(1, 2) { usize::MAX - r.below(4) as usize } else { r.below(300) as usize }; rep.guard("reserve", || h.reserve(k)); }
                _ => {}
            }
            rep.check(same(&h, &m), "content", || format!("after the last step the headers are {:?}, expected {:?}", h.iter().map(|x| (x.name(), x.value())).collect::<Vec<_>>(), m));
            inv(rep, &h);
            if !same(&h, &m) { break; }
            let q = if r.chance(1, 2) { n.clone() } else { name(&mut r) };
            let want: Vec<&str> = m.iter().filter(|x| x.0.eq_ignore_ascii_case(&q)).map(|x| x.1.as_str()).collect();
            let all: Vec<&str> = h.get_all(&q).collect();
            let alls: Vec<&str> = h.get_all_smol(&q).map(|x| x.as_str()).collect();
            let allh: Vec<&str> = h.get_all_headers(&q).map(|x| x.value()).collect();
            rep.check(all == want && alls == want && allh == want, "get_all", || format!("values of {q:?}: {all:?}, expected {want:?}"));
            rep.check(h.get(&q) == want.first().copied() && h.get_smol(&q).map(|x| x.as_str()) == want.first().copied() && h.get_header(&q).map(|x| x.value()) == want.first().copied(), "get", || format!("first value of {q:?}: {:?}, expected {:?}", h.get(&q), want.first()));
            rep.check(h.contains(&q) == !want.is_empty() && h.count(&q) == want.len(), "count", || format!("count of {q:?}: {}, expected {}", h.count(&q), want.len()));
        }
        // messages
        let (c, s) = (r.below(800) as u16, text(&mut r));
        rep.case(&format!("status {c} {s:?}"));
        let l = StatusLine::new(c, &s);
        let want = (100..700).contains(&c) && s.len() <= 256 && !s.chars().any(|x| (x as u32) < 32 || x as u32 == 127);
        rep.check(l.is_ok() == want, "status", || format!("StatusLine::new({c}, {s:?}) said {}", l.is_ok()));
        if let Ok(l) = l {
            rep.check(l.code() == c && l.reason() == s, "status", || "status line changed its parts".into());
            let big = r.chance(1, 50);
            let n = if big { 10 * 1024 * 1024 + r.below(3) as usize - 1 } else { r.below(100) as usize };
            let b = Bytes::from(vec![b'x'; n]);
            rep.case(&format!("body of {n} bytes"));
            let x = Response::new(l.clone(), h.clone(), b.clone());
            rep.check(x.is_ok() == (n <= 10 * 1024 * 1024), "body", || format!("Response::new with {n} bytes said {}", x.is_ok()));
            let mut y = Response::new(l, h.clone(), Bytes::from_static(b"old")).unwrap();
            let ok = y.set_body(b.clone()).is_ok();
            rep.check(ok == (n <= 10 * 1024 * 1024) && y.body() == &(if ok { b.clone() } else { Bytes::from_static(b"old") }), "set_body", || format!("set_body with {n} bytes said {ok}"));
            let rl = RequestLine::new(Method::Invite, SipUri::parse("sip:a@b").unwrap());
            let x = Request::new(rl.clone(), h.clone(), b.clone());
            rep.check(x.is_ok() == (n <= 10 * 1024 * 1024), "body", || format!("Request::new with {n} bytes said {}", x.is_ok()));
            let mut y = Request::new(rl, h.clone(), Bytes::from_static(b"old")).unwrap();
            let ok = y.set_body(b.clone()).is_ok();
            rep.check(ok == (n <= 10 * 1024 * 1024) && y.body() == &(if ok { b.clone() } else { Bytes::from_static(b"old") }), "set_body", || format!("set_body with {n} bytes said {ok}"));
        }
        let t = if r.chance(1, 2) { name(&mut r) } else { r.pick_s(&["invite", "Ack", "BYE", "cancel", "FOO", "x-y", "x".repeat(33).as_str()]) };
        rep.case(&format!("method {t:?}"));
        if let Ok(mm) = Method::from_token(&t) {
            rep.check(token(mm.as_str()) && mm.as_str().eq_ignore_ascii_case(&t), "method", || format!("method {t:?} became {:?}", mm.as_str()));
        }
    }
}
