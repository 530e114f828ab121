//! P20, bounded: seeded session descriptions and texts through both libraries' readers and writers.
use common::{Report, Rng};
use sip_core::sdp::SdpSession;
use sip_sdp::{Attribute, Bandwidth, Connection, MediaDescription, MediaType, Protocol, RepeatTime, SessionDescription, TimeZoneAdjustment};

fn tok(r: &mut Rng) -> String {
    if r.chance(1, 3) { return r.pick_s(&["-", "alice", "0", "1", "4294967296", "AS", "CT", "X-yz", "10.1", "a=b", "m=x", "IN", "(a)", "é", "名", "a\u{301}", "\u{1f600}", "%0d", "/", "a/b", "\"", "\\", "*", "+1"]); }
    let n = r.range(1, 8);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '.', '/', '=', '+', '_', ';', ',', '@', '~', 'é'])).collect()
}
/// no colon either
fn name(r: &mut Rng) -> String { if r.chance(1, 3) { r.pick_s(&["rtpmap", "fmtp", "sendrecv", "sendonly", "mid", "rtcp", "group", "ice-ufrag", "x", "candidate", "ptime", "cdsc", "sqn", "cpar", "Mid"]) } else { tok(r) } }
/// free text: blanks inside, none at the ends
fn words(r: &mut Rng) -> String { let n = r.range(1, 4); let v: Vec<String> = (0..n).map(|_| tok(r)).collect(); v.join(if r.chance(1, 4) { "  " } else if r.chance(1, 6) { ": " } else { " " }) }
fn num(r: &mut Rng) -> String { match r.below(6) { 0 => "0".into(), 1 => "4294967295".into(), 2 => "4294967296".into(), 3 => "18446744073709551615".into(), _ => r.below(100_000).to_string() } }
fn addr(r: &mut Rng) -> String { r.pick_s(&["192.0.2.1", "224.2.17.12/127", "2001:db8::1", "host.example.com", "0.0.0.0", "::", "FF15::101/3"]) }
fn attr_value(r: &mut Rng) -> String {
    match r.below(6) { 0 => format!("{} {}/{}", r.below(130), tok(r).replace('/', "x"), r.below(200_000)), 1 => format!("{} {}", r.below(130), words(r)), 2 => format!("{}:{}", tok(r), words(r)), 3 => format!(" {}", words(r)), _ => words(r) }
}
/// an attribute line's text, one that both libraries' special readings accept
fn attr_line(r: &mut Rng, media: bool) -> String {
    match r.below(12) {
        0 => r.pick_s(&["sendrecv", "sendonly", "recvonly", "inactive", "rtcp-mux", "ice-lite"]),
        1 if media => format!("mid:{}", tok(r)),
        2 if media => { let p = r.below(65536); if r.chance(1, 2) { format!("rtcp:{p}") } else { format!("rtcp:{p} IN IP4 {}", addr(r)) } }
        3 if !media => format!("group:{} {}", r.pick_s(&["LS", "FID", "BUNDLE", "DUP", "SRF", "x"]), words(r)),
        4 => format!("fmtp:{} {}", r.below(128), words(r)),
        5 => format!("rtpmap:{} {}/{}{}", r.below(128), r.pick_s(&["PCMU", "opus", "L16", "H264"]), r.range(1, 200_000), r.pick_s(&["", "/1", "/2", "/a/b"])),
        6 => r.pick_s(&["curr:qos e2e none", "des:qos mandatory local sendrecv", "conf:qos remote send", "msid-semantic: WMS stream0", "ptime:20", "k:", ":", "x:y:z", "x: "]),
        _ => { let n = name(r); if ["mid", "rtcp", "group", "cdsc", "sqn", "cpar"].contains(&n.as_str()) { format!("x-{n}:1") } else if r.chance(1, 3) { n } else { format!("{n}:{}", attr_value(r)) } }
    }
}
fn caps(r: &mut Rng) -> Vec<String> {
    let mut v = vec![format!("sqn:{}", r.below(256))];
    for i in 0..r.below(3) { v.push(format!("cdsc:{} audio RTP/AVP {} {}", 1 + i * 2, r.below(128), r.below(128))); }
    for _ in 0..r.below(3) { v.push(format!("{}:{}", r.pick_s(&["cpar", "cparmin", "cparmax"]), attr_value(r).trim())); }
    r.shuffle(&mut v);
    v
}
/// a well-formed text, fields in the standard's order
fn text(r: &mut Rng) -> String {
    let nl = r.pick_s(&["\r\n", "\r\n", "\n"]);
    let mut v = vec!["v=0".to_string()];
    v.push(format!("o={} {} {} IN {} {}", tok(r), num(r), num(r), r.pick_s(&["IP4", "IP6"]), addr(r)));
    v.push(format!("s={}", match r.below(5) { 0 => "-".into(), 1 => String::new(), _ => words(r) }));
    if r.chance(1, 3) { v.push(format!("i={}", words(r))); }
    if r.chance(1, 4) { v.push(format!("u=http://{}", tok(r))); }
    if r.chance(1, 4) { v.push(format!("e={}", words(r))); }
    if r.chance(1, 4) { v.push(format!("p=+{} {}", num(r), r.below(1000))); }
    v.push(format!("c=IN {} {}", r.pick_s(&["IP4", "IP6"]), addr(r)));
    for _ in 0..r.below(3) { v.push(format!("b={}:{}", r.pick_s(&["AS", "CT", "TIAS", "RS", "X-a"]), r.below(1_000_001))); }
    for _ in 0..r.range(1, 2) {
        v.push(format!("t={} {}", num(r), num(r)));
        for _ in 0..r.below(3) { v.push(format!("r={} {} {}", r.below(1 << 32), r.pick_s(&["1h", "7d", "3600"]), words(r))); }
    }
    if r.chance(1, 4) { let n = r.range(1, 3); let z: Vec<String> = (0..n).map(|_| format!("{} {}", r.below(1 << 32), r.pick_s(&["-1h", "0", "2h"]))).collect(); v.push(format!("z={}", z.join(" "))); }
    if r.chance(1, 5) { v.push(format!("k={}", r.pick_s(&["prompt", "clear:abc", "base64:AA==", "uri:http://x/y", "clear:"]))); }
    for _ in 0..r.below(4) { v.push(format!("a={}", attr_line(r, false))); }
    if r.chance(1, 6) { for c in caps(r) { v.push(format!("a={c}")); } }
    for _ in 0..r.below(4) {
        let proto = r.pick_s(&["RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "RTP/AVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF", "UDP", "TCP", "udp", "TCP/MSRP", "UDPTL", "udptl", "TCP/BFCP", "UDP/DTLS/SCTP", "RTP/SAVPX", "RTP/AVP2", "TCPx"]);
        let rtp = proto.contains("RTP/");
        let n = r.range(1, 5);
        let f: Vec<String> = (0..n).map(|_| if rtp { r.below(128).to_string() } else { tok(r) }).collect();
        v.push(format!("m={} {}{} {proto} {}", r.pick_s(&["audio", "video", "text", "application", "message", "image", "Audio", "audiox", "x"]), r.below(65536), r.pick_s(&["", "", "/2", "/65535"]), f.join(" ")));
        if r.chance(1, 4) { v.push(format!("i={}", words(r))); }
        if r.chance(1, 3) { v.push(format!("c=IN IP4 {}", addr(r))); }
        for _ in 0..r.below(2) { v.push(format!("b={}:{}", r.pick_s(&["AS", "TIAS"]), r.below(1_000_001))); }
        if r.chance(1, 6) { v.push("k=clear:abc".into()); }
        let mut once: Vec<String> = vec![];
        for _ in 0..r.below(5) { let l = attr_line(r, true); let k = l[..l.find(':').unwrap_or(l.len())].to_string(); if (k == "mid" || k == "rtcp") && once.contains(&k) { continue; } once.push(k); v.push(format!("a={l}")); }
        if r.chance(1, 8) { for c in caps(r) { v.push(format!("a={c}")); } }
    }
    v.iter().map(|l| format!("{l}{nl}")).collect()
}
fn clean(s: &str) -> bool { !s.contains('\r') && !s.contains('\n') }
fn breaks_core(d: &SdpSession) -> bool { let s = format!("{d:?}").replace("\\\\", ""); s.contains("\\n") || s.contains("\\r") }
/// every text field of a description
fn fields(d: &SessionDescription) -> Vec<String> {
    let mut v: Vec<String> = vec![d.origin.username.to_string(), d.origin.session_id.to_string(), d.origin.session_version.to_string(), d.origin.unicast_address.to_string(), d.session_name.to_string()];
    for o in [&d.session_info, &d.uri, &d.email, &d.phone, &d.encryption_key] { v.extend(o.iter().map(|s| s.to_string())); }
    let conn = |c: &Option<Connection>, v: &mut Vec<String>| v.extend(c.iter().map(|c| c.connection_address.to_string()));
    let attrs = |a: &Vec<Attribute>, v: &mut Vec<String>| for a in a { match a { Attribute::Property(n) => v.push(n.to_string()), Attribute::Value { name, value } => { v.push(name.to_string()); v.push(value.to_string()); } } };
    conn(&d.connection, &mut v);
    v.extend(d.bandwidth.iter().map(|b| b.bw_type.to_string()));
    for t in &d.times { for p in &t.repeats { v.push(p.repeat_interval.to_string()); v.push(p.active_duration.to_string()); v.extend(p.offsets.iter().map(|s| s.to_string())); } }
    for z in &d.time_zones { v.push(z.adjustment_time.to_string()); v.push(z.offset.to_string()); }
    attrs(&d.attributes, &mut v);
    for m in &d.media {
        v.push(m.media_type.to_string()); v.push(m.protocol.to_string()); v.extend(m.formats.iter().map(|s| s.to_string()));
        for o in [&m.title, &m.encryption_key] { v.extend(o.iter().map(|s| s.to_string())); }
        conn(&m.connection, &mut v); v.extend(m.bandwidth.iter().map(|b| b.bw_type.to_string())); attrs(&m.attributes, &mut v);
        for q in m.rtpmaps.values() { v.push(q.encoding_name.to_string()); v.extend(q.encoding_params.iter().map(|s| s.to_string())); }
    }
    v
}
/// what is read prints to text that reads back the same
fn again_sdp(rep: &mut Report, who: &str, s: &str) -> Option<SessionDescription> {
    let d = rep.guard(&format!("{who}-sdp"), || SessionDescription::parse(s).ok()).flatten()?;
    rep.check(fields(&d).iter().all(|f| clean(f)), &format!("{who}-sdp-breaks"), || format!("a field holds a line break: {:?}", fields(&d).into_iter().filter(|f| !clean(f)).collect::<Vec<_>>()));
    let p = d.to_string();
    match rep.guard(&format!("{who}-sdp-again"), || SessionDescription::parse(&p))? {
        Ok(e) => rep.check(e == d, &format!("{who}-sdp-changed"), || format!("printed as {p:?}\nread as {e:?}\nfrom   {d:?}")),
        Err(e) => rep.check(false, &format!("{who}-sdp-unread"), || format!("printed as {p:?}: {e}")),
    }
    Some(d)
}
fn again_core(rep: &mut Report, who: &str, s: &str) -> Option<SdpSession> {
    let d = rep.guard(&format!("{who}-core"), || SdpSession::parse(s).ok()).flatten()?;
    rep.check(!breaks_core(&d), &format!("{who}-core-breaks"), || format!("a field holds a line break: {d:?}"));
    let p = d.to_string();
    match rep.guard(&format!("{who}-core-again"), || SdpSession::parse(&p))? {
        Ok(e) => rep.check(e == d, &format!("{who}-core-changed"), || format!("printed as {p:?}\nread as {e:?}\nfrom   {d:?}")),
        Err(e) => rep.check(false, &format!("{who}-core-unread"), || format!("printed as {p:?}: {e}")),
    }
    Some(d)
}
/// the lines of a text with the numbers and blanks that reading may normalise kept as they are
fn lines(s: &str) -> Vec<String> { s.lines().filter(|l| !l.is_empty()).map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect() }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }

fn built(rep: &mut Report, r: &mut Rng) {
    let mut b = SessionDescription::builder().origin(&tok(r), &num(r), &addr(r)).unwrap().session_name(&words(r)).unwrap();
    if r.chance(1, 2) { b = b.session_info(&words(r)).unwrap(); }
    if r.chance(1, 2) { b = b.connection(&addr(r)).unwrap(); }
    if r.chance(1, 3) { b = b.encryption_key(&r.pick_s(&["prompt", "clear:abc", "uri:http://x/ y"])).unwrap(); }
    if r.chance(1, 3) { b = b.time(r.next(), r.next()); }
    for _ in 0..r.below(2) { b = b.add_time(r.next(), r.below(1000)).unwrap(); }
    for _ in 0..r.below(3) { b = b.time_zone_adjustment(&num(r), &r.pick_s(&["-1h", "0", "2h"])).unwrap(); }
    for _ in 0..r.below(4) { let n = name(r); let v = attr_value(r); b = b.attribute(&n, if r.chance(1, 3) { None } else { Some(&v) }).unwrap(); }
    for _ in 0..r.below(4) {
        let mut m = if r.chance(1, 2) { MediaDescription::audio(r.below(65536) as u16) } else { MediaDescription::video(r.below(65536) as u16) };
        let mut fs = vec![];
        for _ in 0..r.range(1, 4) { let pt = r.below(128) as u8; fs.push(pt); m = m.add_format(pt).unwrap(); }
        for pt in fs { if r.chance(1, 2) { let p = r.pick_s(&["2", "1", "x"]); m = m.add_rtpmap(pt, &r.pick_s(&["PCMU", "opus", "L16", "telephone-event"]), r.range(1000, 200_000) as u32, if r.chance(1, 2) { Some(&p) } else { None }).unwrap(); } }
        if r.chance(1, 2) { m = m.connection(&addr(r)).unwrap(); }
        if r.chance(1, 2) { m = m.with_direction(&r.pick_s(&["sendrecv", "sendonly", "recvonly", "inactive"])).unwrap(); }
        for _ in 0..r.below(3) { let n = name(r); if n != "rtpmap" { m = m.add_attribute(&n, &attr_value(r)).unwrap(); } }
        if r.chance(1, 3) { m.set_fmtp(r.below(128) as u8, &words(r)); }
        if r.chance(1, 3) { m.set_ptime(r.below(1000) as u32); }
        if r.chance(1, 3) { m.set_mid(&tok(r)); }
        b = b.media(m).unwrap();
    }
    let mut d = b.build();
    // what only the public fields offer
    if r.chance(1, 4) { d.uri = Some("http://example.com/a?b".into()); }
    if r.chance(1, 4) { d.email = Some(words(r).into()); }
    if r.chance(1, 4) { d.phone = Some(words(r).into()); }
    for _ in 0..r.below(3) { d.bandwidth.push(Bandwidth { bw_type: r.pick_s(&["AS", "CT", "X-a"]).into(), bandwidth: r.next() as u32 }); }
    if r.chance(1, 3) { let n = r.below(3); let offsets = (0..n).map(|_| tok(r).into()).collect(); d.times[0].repeats.push(RepeatTime { repeat_interval: num(r).into(), active_duration: "1h".into(), offsets }); }
    for m in d.media.iter_mut() {
        if r.chance(1, 4) { m.title = Some(words(r).into()); }
        if r.chance(1, 6) { m.num_ports = Some(r.below(65536) as u16); }
        if r.chance(1, 3) { m.protocol = match r.below(8) { 0 => Protocol::RtpSavp, 1 => Protocol::RtpSavpf, 2 => Protocol::UdpTlsRtpSavpf, 3 => Protocol::TcpTlsRtpSavpf, 4 => Protocol::Udp, 5 => Protocol::Tcp, 6 => Protocol::Other("RTP/AVPF".into()), _ => Protocol::Other("TCP/MSRP".into()) }; }
        if r.chance(1, 3) { m.media_type = match r.below(4) { 0 => MediaType::Text, 1 => MediaType::Application, 2 => MediaType::Message, _ => MediaType::Other("image".into()) }; }
        if r.chance(1, 5) { m.encryption_key = Some("clear:abc".into()); }
    }
    let _ = TimeZoneAdjustment { adjustment_time: "".into(), offset: "".into() };
    let p = d.to_string();
    rep.case(&format!("built\n{p}"));
    match rep.guard("built-sdp", || SessionDescription::parse(&p)) {
        Some(Ok(e)) => rep.check(e == d, "built-sdp-changed", || format!("read as {e:?}\nfrom   {d:?}")),
        Some(Err(e)) => rep.check(false, "built-sdp-unread", || e.to_string()),
        None => {}
    }
}
fn spoilt(rep: &mut Report, r: &mut Rng, t: &str) {
    let mut b: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(b.len() as u64) as usize;
        match r.below(6) {
            0 | 1 => b[i] = *r.pick(&['0', '9', ' ', '/', ':', '=', '-', 'm', 'é', '\u{1f600}', '\t', '\r', '\n', '\u{a0}', '\u{85}', '\u{2028}', '\0', 'k', 'z']),
            2 => { b.remove(i); }
            3 => { let c = b[i]; b.insert(i, c); }
            4 => { b.insert(i, *r.pick(&[' ', '\r', '\n', '\t', '\u{a0}', '\u{2028}', '0', ':', '/'])); }
            _ => { // a whole line moved, doubled or dropped
                let s: String = b.iter().collect(); let mut ls: Vec<&str> = s.split_inclusive('\n').collect();
                let j = r.below(ls.len() as u64) as usize; let l = ls.remove(j);
                for _ in 0..r.below(3) { let k = r.below(ls.len() as u64 + 1) as usize; ls.insert(k, l); }
                b = ls.concat().chars().collect();
            }
        }
        if b.is_empty() { return; }
    }
    let s: String = b.into_iter().collect();
    rep.case(&s);
    again_sdp(rep, "spoilt", &s);
    again_core(rep, "spoilt", &s);
}
/// one kind of line many times over, so that each collection's limit is met and passed
fn many(rep: &mut Report, r: &mut Rng) {
    let mut v: Vec<String> = ["v=0", "o=- 1 1 IN IP4 192.0.2.1", "s=-", "c=IN IP4 192.0.2.1", "t=0 0"].iter().map(|s| s.to_string()).collect();
    let k = r.below(10);
    let n = match r.below(4) { 0 => r.range(1, 4), 1 => r.range(9, 12), 2 => r.range(48, 53), _ => r.range(98, 103) };
    for i in 0..n {
        match k {
            0 | 1 => { let z: Vec<String> = (0..r.range(1, if k == 0 { 3 } else { 50 })).map(|j| format!("{} {}", i * 50 + j, r.pick_s(&["-1h", "0"]))).collect(); v.push(format!("z={}", z.join(" "))); }
            2 => v.push(format!("b=AS:{i}")),
            3 => v.push(format!("t={i} {i}")),
            4 => v.push(format!("r={i} 1h{}", " 0".repeat(r.below(104) as usize))),
            5 => v.push(format!("a=x{i}:1")),
            6 => v.push(format!("a=group:LS {i}{}", " x".repeat(r.below(20) as usize))),
            7 => v.push(format!("e=a{i}@x")),
            8 => v.push(format!("p=+{i}")),
            _ => v.push(format!("m=audio {i} RTP/AVP{}", " 0".repeat(1 + r.below(130) as usize))),
        }
    }
    let s: String = v.iter().map(|l| format!("{l}\r\n")).collect();
    rep.case(&s);
    again_sdp(rep, "many", &s);
    again_core(rep, "many", &s);
}
fn main() {
    let mut rep = Report::from_args();
    rep.rule("well-formed texts with every kind of line, descriptions made with the builders and public fields, one kind of line repeated past its limit, and texts spoilt by up to four edits (letters, blanks, line breaks, whole lines), each printed and read again by both libraries");
    let mut r = rep.rng(20);
    while rep.time_left() {
        let t = text(&mut r);
        rep.case(&t);
        match again_sdp(&mut rep, "text", &t) {
            Some(d) => { let p = d.to_string(); rep.check(lines(&p) == lines(&t), "text-sdp-lines", || format!("printed as {p:?}")); }
            None => rep.check(false, "text-sdp-refused", || format!("{:?}", SessionDescription::parse(&t).err())),
        }
        match again_core(&mut rep, "text", &t) {
            Some(d) => { let p = d.to_string(); rep.check(sorted(lines(&p)) == sorted(lines(&t)), "text-core-lines", || format!("printed as {p:?}")); }
            None => rep.check(false, "text-core-refused", || format!("{:?}", SdpSession::parse(&t).err())),
        }
        built(&mut rep, &mut r);
        spoilt(&mut rep, &mut r, &t);
        if r.chance(1, 4) { many(&mut rep, &mut r); }
    }
    rep.finish();
}
