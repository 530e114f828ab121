//! P19, bounded: seeded offers and local capabilities against the three answer generators.
use common::{Report, Rng};
use sip_core::sdp::SdpSession;
use sip_core::sdp_offer_answer::{AnswerOptions, CodecInfo, OfferAnswerEngine};
use sip_sdp::profiles::MediaProfileBuilder;
use sip_sdp::{Attribute, SessionDescription};

// ---------- offers as data ----------
#[derive(Clone, Debug)]
struct Codec { pt: u32, name: String, rate: u32, params: Option<String> }
#[derive(Clone, Debug)]
struct Sec { typ: String, port: u16, proto: String, fmts: Vec<String>, maps: Vec<Codec>, dir: Option<&'static str>, extra: Vec<String> }
#[derive(Clone, Debug)]
struct Offer { dir: Option<&'static str>, secs: Vec<Sec> }
const DIRS: [&str; 4] = ["sendrecv", "sendonly", "recvonly", "inactive"];
const NAMES: [(&str, u32, Option<&str>); 11] = [("PCMU", 8000, None), ("PCMA", 8000, None), ("opus", 48000, Some("2")), ("opus", 48000, None), ("H264", 90000, None), ("VP8", 90000, None), ("telephone-event", 8000, None), ("G722", 8000, None), ("L16", 44100, Some("2")), ("L16", 44100, Some("1")), ("telephone-event", 48000, None)];
fn dir(r: &mut Rng) -> Option<&'static str> { if r.chance(1, 2) { Some(*r.pick(&DIRS)) } else { None } }
fn casing(r: &mut Rng, s: &str) -> String { match r.below(5) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), _ => s.to_string() } }
fn section(r: &mut Rng) -> Sec {
    let typ = r.pick_s(&["audio", "audio", "audio", "video", "video", "application", "text", "message"]);
    let proto = r.pick_s(&["RTP/AVP", "RTP/AVP", "RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "udp", "TCP"]);
    let (mut fmts, mut maps) = (vec![], vec![]);
    if proto.contains("RTP") {
        let mut pts: Vec<u32> = vec![0, 3, 4, 8, 9, 18, 34, 95, 96, 97, 98, 100, 101, 111, 127];
        r.shuffle(&mut pts);
        for pt in pts.into_iter().take(r.range(1, 6) as usize) {
            if r.chance(5, 6) { fmts.push(pt.to_string()); }
            if pt >= 96 && r.chance(7, 8) || pt < 96 && r.chance(1, 3) {
                let fixed = match pt { 0 => Some("PCMU"), 3 => Some("GSM"), 4 => Some("G723"), 8 => Some("PCMA"), 9 => Some("G722"), 18 => Some("G729"), _ => None };
                let (n, rate, p) = match fixed { Some(n) => (n, 8000, None), None => *r.pick(&NAMES) };
                maps.push(Codec { pt, name: casing(r, n), rate: if r.chance(1, 12) { r.range(1, 200_000) as u32 } else { rate }, params: p.map(String::from) });
            }
        }
        if r.chance(1, 8) { fmts.push(r.pick_s(&["128", "255", "007", "0x8", "-1", "*", "1000", "96a", "+8"])); }
    } else { for _ in 0..r.range(1, 3) { fmts.push(r.pick_s(&["webrtc-data", "t38", "*", "0", "96", "wb"])); } }
    fmts.dedup();
    if fmts.is_empty() { fmts.push("0".into()); }
    let port = match r.below(6) { 0 => 0, 1 => 65535, _ => r.range(1, 65535) as u16 };
    let mut extra = vec![];
    if r.chance(1, 4) { extra.push(format!("fmtp:{} {}", r.pick(&fmts), r.pick(&["0-16", "minptime=10", "profile-level-id=42e01f", ""]))); }
    if r.chance(1, 6) { extra.push(r.pick_s(&["ptime:20", "rtcp-mux", "mid:1", "curr:qos e2e none", "curr:qos local sendrecv", "des:qos mandatory local sendrecv", "des:qos optional remote sendrecv", "conf:qos remote recv", "sendrecv:x", "rtcp:53020", "inactivex"])); }
    Sec { typ, port, proto, fmts, maps, dir: dir(r), extra }
}
fn offer(r: &mut Rng) -> Offer { let n = r.below(5); Offer { dir: if r.chance(1, 3) { dir(r) } else { None }, secs: (0..n).map(|_| section(r)).collect() } }
fn text(o: &Offer, r: &mut Rng) -> String {
    let mut s = String::from("v=0\r\no=al 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\n");
    if let Some(d) = o.dir { s += &format!("a={d}\r\n"); }
    for m in &o.secs {
        s += &format!("m={} {} {} {}\r\n", m.typ, m.port, m.proto, m.fmts.join(" "));
        let mut ls: Vec<String> = m.maps.iter().map(|c| format!("rtpmap:{} {}/{}{}", c.pt, c.name, c.rate, c.params.as_ref().map(|p| format!("/{p}")).unwrap_or_default())).collect();
        if let Some(d) = m.dir { ls.push(d.into()); }
        ls.extend(m.extra.iter().cloned());
        r.shuffle(&mut ls);
        for l in ls { s += &format!("a={l}\r\n"); }
    }
    s
}
// ---------- what an answer may be ----------
fn sec_dir(o: &Offer, m: &Sec) -> &'static str { m.dir.or(o.dir).unwrap_or("sendrecv") }
fn sends(d: &str) -> bool { d == "sendrecv" || d == "sendonly" }
fn recvs(d: &str) -> bool { d == "sendrecv" || d == "recvonly" }
fn allows(offer: &str, answer: &str) -> bool { (!sends(answer) || recvs(offer)) && (!recvs(answer) || sends(offer)) }
fn pt_of(f: &str) -> Option<u32> { let t = f.strip_prefix('+').unwrap_or(f); if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; } t.parse::<u32>().ok().filter(|n| *n <= 127) }
fn same(a: &Codec, b: &Codec) -> bool { a.name.eq_ignore_ascii_case(&b.name) && a.rate == b.rate && a.params == b.params }
/// formats a parser may turn down
fn odd(o: &Offer) -> bool { o.secs.iter().any(|m| is_rtp(&m.proto) && m.fmts.iter().any(|f| pt_of(f).map(|p| p.to_string()).as_ref() != Some(f))) }
fn is_rtp(p: &str) -> bool { p.contains("RTP/") }
/// the offered formats the local section takes, in the offer's order
fn common(om: &Sec, lm: &Sec) -> Vec<String> {
    om.fmts.iter().filter(|f| {
        if !is_rtp(&om.proto) { return lm.fmts.contains(f); }
        let Some(pt) = pt_of(f) else { return false };
        if pt < 96 { return lm.fmts.iter().any(|g| pt_of(g) == Some(pt)); }
        om.maps.iter().any(|m| m.pt == pt && lm.maps.iter().any(|l| same(m, l) && lm.fmts.iter().any(|g| pt_of(g) == Some(l.pt))))
    }).cloned().collect()
}
/// one section of an answer, in plain values
#[derive(Debug)]
struct Ans { typ: String, proto: String, port: u16, fmts: Vec<String>, dirs: Vec<String>, maps: Vec<Codec> }
fn ans(a: &SessionDescription) -> Vec<Ans> {
    a.media.iter().map(|m| Ans {
        typ: m.media_type.to_string(), proto: m.protocol.to_string(), port: m.port, fmts: m.formats.iter().map(|f| f.to_string()).collect(),
        dirs: m.attributes.iter().filter_map(|a| match a { Attribute::Property(n) if DIRS.contains(&n.as_str()) => Some(n.to_string()), _ => None }).collect(),
        maps: m.rtpmaps.values().map(|m| Codec { pt: m.payload_type as u32, name: m.encoding_name.to_string(), rate: m.clock_rate, params: m.encoding_params.as_ref().map(|p| p.to_string()) }).collect(),
    }).collect()
}
fn ans_core(t: &str) -> Option<Vec<Ans>> {
    let mut out: Vec<Ans> = vec![];
    for l in t.lines() {
        if let Some(m) = l.strip_prefix("m=") {
            let w: Vec<&str> = m.split(' ').collect();
            out.push(Ans { typ: w.first()?.to_string(), port: w.get(1)?.parse().ok()?, proto: w.get(2)?.to_string(), fmts: w[3..].iter().map(|s| s.to_string()).collect(), dirs: vec![], maps: vec![] });
        } else if let (Some(a), Some(s)) = (l.strip_prefix("a="), out.last_mut()) {
            if DIRS.contains(&a) { s.dirs.push(a.into()); }
            if let Some(m) = a.strip_prefix("rtpmap:") {
                let (pt, c) = m.split_once(' ')?; let p: Vec<&str> = c.split('/').collect();
                s.maps.push(Codec { pt: pt.parse().ok()?, name: p[0].into(), rate: p.get(1)?.parse().ok()?, params: p.get(2).map(|s| s.to_string()) });
            }
        }
    }
    Some(out)
}
/// what every answer must be against its offer, whoever made it
fn judge(rep: &mut Report, who: &str, o: &Offer, got: &[Ans]) -> bool {
    let k = |s: &str| format!("{who}-{s}");
    rep.check(got.len() == o.secs.len(), &k("count"), || format!("{} sections offered, {} answered: {got:?}", o.secs.len(), got.len()));
    if got.len() != o.secs.len() { return false; }
    for (m, a) in o.secs.iter().zip(got) {
        rep.check(a.typ == m.typ && a.proto == m.proto, &k("kind"), || format!("{m:?} answered by {a:?}"));
        if m.port == 0 { rep.check(a.port == 0, &k("offered-zero"), || format!("{m:?} answered by {a:?}")); }
        if a.port == 0 { continue; }
        rep.check(!a.fmts.is_empty() && a.fmts.iter().all(|f| m.fmts.contains(f)), &k("formats"), || format!("{m:?} answered by {a:?}"));
        rep.check(a.dirs.len() <= 1 && allows(sec_dir(o, m), a.dirs.first().map_or("sendrecv", |s| s)), &k("direction"), || format!("{m:?} (session {:?}) answered by {a:?}", o.dir));
        if is_rtp(&m.proto) { for f in &a.fmts {
            let (Some(pt), true) = (pt_of(f), pt_of(f).is_some_and(|p| p >= 96)) else { continue };
            let (x, y) = (m.maps.iter().find(|c| c.pt == pt), a.maps.iter().find(|c| c.pt == pt));
            rep.check(matches!((x, y), (Some(x), Some(y)) if same(x, y)), &k("mapping"), || format!("payload {pt}: {x:?} answered as {y:?}"));
        } }
    }
    true
}
fn one_negotiate(rep: &mut Report, o: &Offer, t: &str, l: &Offer, lt: &str) {
    let (Ok(po), Ok(pl)) = (SessionDescription::parse(t), SessionDescription::parse(lt)) else { return rep.check(odd(o) || odd(l), "parse", || "offer or capabilities not parsed".into()) };
    let Some(r) = rep.guard("negotiate", || sip_sdp::negotiate::negotiate_answer(&po, "192.0.2.9", &pl)) else { return };
    let Ok(a) = r else { return };
    let got = ans(&a);
    if !judge(rep, "negotiate", o, &got) { return; }
    let mut taken: Vec<&str> = vec![];
    for (m, a) in o.secs.iter().zip(&got) {
        let lm = l.secs.iter().find(|s| s.typ == m.typ);
        let want = match lm { Some(lm) if m.port != 0 && lm.proto == m.proto && !taken.contains(&m.typ.as_str()) => common(m, lm), _ => vec![] };
        if want.is_empty() { rep.check(a.port == 0, "negotiate-unsupported", || format!("{m:?} against {lm:?} answered by {a:?}")); }
        else {
            taken.push(&m.typ);
            rep.check(a.port == lm.unwrap().port && a.fmts == want, "negotiate-common", || format!("{m:?} against {lm:?}: common {want:?}, answered by {a:?}"));
        }
    }
    // the other library reads the printed answer the same way
    let printed = a.to_string();
    rep.check(ans_core(&printed).is_some_and(|g| g.len() == got.len() && g.iter().zip(&got).all(|(x, y)| x.typ == y.typ && x.proto == y.proto && x.port == y.port && x.fmts == y.fmts && x.dirs == y.dirs)), "negotiate-printed", || printed.clone());
}
fn knows(cs: &[(String, u32, Option<u16>)], c: &Codec) -> bool {
    cs.iter().any(|(n, r, ch)| n.eq_ignore_ascii_case(&c.name) && *r == c.rate && match (ch, &c.params) { (Some(n), Some(p)) => p.parse::<u16>().ok() == Some(*n), (Some(n), None) => *n == 1, (None, Some(_)) => false, (None, None) => true })
}
fn codecs(r: &mut Rng) -> Vec<(String, u32, Option<u16>)> {
    (0..r.below(5)).map(|_| { let (n, rate, p) = *r.pick(&NAMES); (casing(r, n), rate, match r.below(3) { 0 => None, 1 => Some(1), _ => p.map_or(Some(1), |p| p.parse().ok()) }) }).collect()
}
fn one_engine(rep: &mut Report, r: &mut Rng, o: &Offer, t: &str) {
    let Ok(po) = SdpSession::parse(t) else { return rep.check(odd(o), "core-parse", || "offer not parsed".into()) };
    let (ac, vc) = (codecs(r), codecs(r));
    let mk = |cs: &[(String, u32, Option<u16>)]| -> Vec<CodecInfo> { cs.iter().map(|(n, rate, ch)| CodecInfo::new(n, *rate, *ch).unwrap()).collect() };
    let base = match r.below(5) { 0 => 65535, 1 => 65532, 2 => 65533, _ => r.range(1, 65535) as u16 };
    let reject: Vec<usize> = (0..5).filter(|_| r.chance(1, 6)).collect();
    let over = if r.chance(1, 3) { Some(*r.pick(&DIRS)) } else { None };
    let mut op = AnswerOptions::default().with_base_port(base).with_audio_codecs(mk(&ac)).unwrap().with_video_codecs(mk(&vc)).unwrap().with_reject_media(reject.clone()).unwrap();
    if let Some(d) = over { op = op.with_direction_override(sip_core::sdp::Direction::parse(d).unwrap()); }
    let Some(res) = rep.guard("engine", || OfferAnswerEngine::new().generate_answer(&po, op).map(|a| a.to_string())) else { return };
    let Ok(printed) = res else { return rep.check(false, "engine-error", || "no answer".into()) };
    let Some(got) = ans_core(&printed) else { return rep.check(false, "engine-printed", || printed.clone()) };
    if !judge(rep, "engine", o, &got) { return; }
    let mut last: Option<u32> = None;
    for (i, (m, a)) in o.secs.iter().zip(&got).enumerate() {
        let cs: &[_] = match m.typ.as_str() { "audio" => &ac, "video" => &vc, _ => &[] };
        let want: Vec<String> = m.fmts.iter().filter(|f| {
            let fixed = match f.as_str() { "0" => Some("PCMU"), "3" => Some("GSM"), "4" => Some("G723"), "8" => Some("PCMA"), "9" => Some("G722"), "18" => Some("G729"), _ => None };
            match m.maps.iter().find(|c| c.pt.to_string() == **f) { Some(c) => knows(cs, c), None => fixed.is_some_and(|n| knows(cs, &Codec { pt: 0, name: n.into(), rate: 8000, params: None })) }
        }).cloned().collect();
        let room = last.is_none_or(|p| p + 2 <= 65535);
        if m.port == 0 || reject.contains(&i) || want.is_empty() || !room { rep.check(a.port == 0, "engine-unsupported", || format!("{m:?} codecs {cs:?} reject {reject:?} answered by {a:?}")); }
        else {
            rep.check(a.fmts == want, "engine-common", || format!("{m:?} codecs {cs:?}: common {want:?}, answered by {a:?}"));
            let here = last.map_or(base as u32, |p| p + 2);
            rep.check(a.port as u32 == here, "engine-port", || format!("section {i} stands on port {}, not {here}: {got:?}", a.port));
            if let Some(d) = over { let ad = a.dirs.first().map_or("sendrecv", |s| s); rep.check((!sends(ad) || sends(d)) && (!recvs(ad) || recvs(d)), "engine-override", || format!("wanted {d}, answered {ad}")); }
            last = Some(here);
        }
    }
}
fn one_profile(rep: &mut Report, r: &mut Rng, o: &Offer, t: &str) {
    let Ok(po) = SessionDescription::parse(t) else { return };
    let mut p = if r.chance(1, 2) { MediaProfileBuilder::audio_only() } else { MediaProfileBuilder::audio_video() };
    for _ in 0..r.below(3) { let (n, rate, _) = *r.pick(&NAMES); let pt = *r.pick(&[9u8, 18, 96, 97, 98, 111, 101, 127]); p = if r.chance(1, 2) { p.add_audio_codec(pt, n, rate) } else { p.add_video_codec(pt, n, rate) }; }
    p = p.telephone_event(r.chance(1, 2));
    let port = if r.chance(1, 4) { 65535 } else { r.range(1, 65535) as u16 };
    let vp = if r.chance(1, 2) { None } else { Some(r.range(1, 65535) as u16) };
    let Some(a) = rep.guard("profile", || sip_sdp::profiles::negotiate_answer(&po, &p, "bob", "192.0.2.9", port, vp)) else { return };
    let got = ans(&a);
    for a in &got {
        rep.check(a.port == 0 || !a.fmts.is_empty(), "profile-empty", || format!("{a:?}"));
        let of: Vec<&Sec> = o.secs.iter().filter(|m| m.typ == a.typ).collect();
        rep.check(a.fmts.iter().all(|f| of.iter().any(|m| m.fmts.iter().any(|g| f == g || pt_of(g).is_some() && pt_of(g) == pt_of(f)))), "profile-formats", || format!("{of:?} answered by {a:?}"));
    }
    let fits = got.len() == o.secs.len() && o.secs.iter().zip(&got).all(|(m, a)| m.typ == a.typ && m.proto == a.proto);
    rep.check(fits, "profile-sections", || format!("{:?} answered by {got:?}", o.secs));
    if fits { for (m, a) in o.secs.iter().zip(&got) {
        rep.check(m.port != 0 || a.port == 0, "profile-port-zero", || format!("{m:?} answered by {a:?}"));
        rep.check(a.port == 0 || allows(sec_dir(o, m), a.dirs.first().map_or("sendrecv", |s| s)), "profile-direction", || format!("{m:?} (session {:?}) answered by {a:?}", o.dir));
    } }
}
/// any text that parses: no crash
fn spoilt(rep: &mut Report, r: &mut Rng, t: &str) {
    let mut b: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(b.len() as u64) as usize;
        match r.below(4) { 0 => { b[i] = *r.pick(&['0', '9', ' ', '/', ':', '=', '-', 'm', 'é', '\u{1f600}', '\t']); } 1 => { b.remove(i); } 2 => { let c = b[i]; b.insert(i, c); } _ => { let n = r.pick_s(&["4294967295", "65535", "65536", "255", "127", "99999999999", "000"]); b.splice(i..i, n.chars()); } }
        if b.is_empty() { return; }
    }
    let s: String = b.into_iter().collect();
    rep.case(&s);
    let (o, l, e) = (r.next(), r.next(), r.next());
    let p = rep.guard("spoilt-sdp", || SessionDescription::parse(&s).ok()).flatten();
    if let Some(p) = p {
        let mut q = Rng::new(l); let (lo, mut q2) = (offer(&mut q), Rng::new(e));
        let lt = text(&lo, &mut q2);
        rep.guard("spoilt-negotiate", || { let Ok(l) = SessionDescription::parse(&lt) else { return }; let _ = sip_sdp::negotiate::negotiate_answer(&p, "192.0.2.9", &l); let _ = sip_sdp::negotiate::negotiate_answer(&l, "192.0.2.9", &p); });
        rep.guard("spoilt-profile", || { let _ = sip_sdp::profiles::negotiate_answer(&p, &MediaProfileBuilder::audio_video(), "bob", "192.0.2.9", o as u16, None); });
    }
    let c = rep.guard("spoilt-core", || SdpSession::parse(&s).ok()).flatten();
    if let Some(c) = c { rep.guard("spoilt-engine", || { let _ = OfferAnswerEngine::new().generate_answer(&c, AnswerOptions::default().with_base_port(o as u16)).map(|a| a.to_string()); }); }
}
fn main() {
    let mut rep = Report::from_args();
    rep.rule("offers of up to four sections (types, protocols, formats, mappings, directions, ports) with random local capabilities, codecs, ports and direction overrides; spoilt offers");
    let mut r = rep.rng(19);
    while rep.time_left() {
        let o = offer(&mut r);
        let t = text(&o, &mut r);
        let mut l = offer(&mut r);
        if r.chance(1, 2) { for (a, b) in l.secs.iter_mut().zip(&o.secs) { let d = a.dir; *a = b.clone(); a.dir = d; if r.chance(1, 2) && a.fmts.len() > 1 { a.fmts.remove(0); } if r.chance(1, 4) { for m in &mut a.maps { if m.pt >= 96 { m.pt = 96 + (m.pt + 3) % 32; } } a.fmts.extend(a.maps.iter().map(|m| m.pt.to_string())); } } }
        let lt = text(&l, &mut r);
        rep.case(&format!("{t}--- local\n{lt}"));
        one_negotiate(&mut rep, &o, &t, &l, &lt);
        one_engine(&mut rep, &mut r, &o, &t);
        one_profile(&mut rep, &mut r, &o, &t);
        spoilt(&mut rep, &mut r, &t);
    }
    rep.finish();
}
