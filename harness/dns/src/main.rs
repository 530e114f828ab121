//! P12, P13 and P14, bounded: seeded zones served by a name server on the loopback against the real resolvers, and seeded byte strings against the DHCP decoders.
use common::{Report, Rng};
use hickory_resolver::config::*;
use sip_core::SipUri;
use sip_dns::*;
use smol_str::SmolStr;
use std::collections::{BTreeMap, HashMap};
use std::net::{Ipv4Addr, Ipv6Addr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------- a name server ----------
#[derive(Clone, Default)]
struct Zone { naptr: HashMap<String, Vec<Naptr>>, srv: HashMap<String, Vec<Srv>>, a: HashMap<String, Vec<Ipv4Addr>>, aaaa: HashMap<String, Vec<Ipv6Addr>>, mute: Vec<String> }
#[derive(Clone, Debug)]
struct Naptr { order: u16, pref: u16, flags: String, service: String, repl: String }
#[derive(Clone, Debug, PartialEq)]
struct Srv { prio: u16, weight: u16, port: u16, target: String }
fn put_name(o: &mut Vec<u8>, n: &str) { for l in n.trim_end_matches('.').split('.').filter(|l| !l.is_empty()) { o.push(l.len() as u8); o.extend_from_slice(l.as_bytes()); } o.push(0); }
fn put_str(o: &mut Vec<u8>, s: &str) { o.push(s.len() as u8); o.extend_from_slice(s.as_bytes()); }
fn answer(q: &[u8], z: &Zone) -> Option<Vec<u8>> {
    if q.len() < 17 { return None; }
    let (mut p, mut labels) = (12, Vec::new());
    loop {
        let l = *q.get(p)? as usize; p += 1;
        if l == 0 { break; }
        labels.push(String::from_utf8_lossy(q.get(p..p + l)?).to_ascii_lowercase()); p += l;
    }
    let name = labels.join(".");
    let ty = u16::from_be_bytes([*q.get(p)?, *q.get(p + 1)?]);
    p += 4;
    if z.mute.contains(&name) { return None; }
    let mut rs: Vec<Vec<u8>> = vec![];
    match ty {
        35 => for n in z.naptr.get(&name).into_iter().flatten() {
            let mut d = vec![]; d.extend(n.order.to_be_bytes()); d.extend(n.pref.to_be_bytes());
            put_str(&mut d, &n.flags); put_str(&mut d, &n.service); put_str(&mut d, ""); put_name(&mut d, &n.repl); rs.push(d);
        },
        33 => for s in z.srv.get(&name).into_iter().flatten() {
            let mut d = vec![]; d.extend(s.prio.to_be_bytes()); d.extend(s.weight.to_be_bytes()); d.extend(s.port.to_be_bytes()); put_name(&mut d, &s.target); rs.push(d);
        },
        1 => for a in z.a.get(&name).into_iter().flatten() { rs.push(a.octets().to_vec()); },
        28 => for a in z.aaaa.get(&name).into_iter().flatten() { rs.push(a.octets().to_vec()); },
        _ => {}
    }
    let known = [z.naptr.contains_key(&name), z.srv.contains_key(&name), z.a.contains_key(&name), z.aaaa.contains_key(&name)].contains(&true);
    let mut o = vec![q[0], q[1], 0x85, if known { 0x80 } else { 0x83 }, 0, 1];
    o.extend((rs.len() as u16).to_be_bytes()); o.extend([0, 0, 0, 0]);
    o.extend_from_slice(&q[12..p]);
    for d in rs { o.extend([0xc0, 12]); o.extend(ty.to_be_bytes()); o.extend([0, 1, 0, 0, 0, 60]); o.extend((d.len() as u16).to_be_bytes()); o.extend(d); }
    Some(o)
}
fn serve() -> (u16, Arc<Mutex<Zone>>) {
    let s = UdpSocket::bind("127.0.0.1:0").expect("loopback");
    let port = s.local_addr().unwrap().port();
    let z = Arc::new(Mutex::new(Zone::default()));
    let zz = z.clone();
    std::thread::spawn(move || { let mut b = [0u8; 4096]; while let Ok((n, from)) = s.recv_from(&mut b) { let a = answer(&b[..n], &zz.lock().unwrap()); if let Some(a) = a { let _ = s.send_to(&a, from); } } });
    (port, z)
}
fn resolver(port: u16) -> SipResolver {
    let mut c = ConnectionConfig::udp(); c.port = port;
    let ns = NameServerConfig::new("127.0.0.1".parse().unwrap(), true, vec![c]);
    let mut o = ResolverOpts::default();
    o.cache_size = 0; o.use_hosts_file = ResolveHosts::Never; o.timeout = Duration::from_secs(5); o.attempts = 3; o.try_tcp_on_error = false; o.ip_strategy = LookupIpStrategy::Ipv4AndIpv6;
    SipResolver::with_config(ResolverConfig::from_parts(None, vec![], vec![ns]), o).expect("resolver").with_query_timeout(Duration::from_secs(20))
}

// ---------- what must come out ----------
fn tls(t: Transport) -> bool { matches!(t, Transport::Tls | Transport::Wss | Transport::TlsSctp) }
#[derive(Clone, Debug)]
struct Asked { sips: bool, host: String, port: Option<u16>, transport: Option<Option<String>> }
impl Asked {
    fn uri(&self) -> String {
        let h = if self.host.contains(':') { format!("[{}]", self.host) } else { self.host.clone() };
        format!("{}:u@{}{}{}", if self.sips { "sips" } else { "sip" }, h, self.port.map(|p| format!(":{p}")).unwrap_or_default(), match &self.transport { None => String::new(), Some(None) => ";transport".into(), Some(Some(t)) => format!(";transport={t}") })
    }
    /// the transport insisted on
    fn want(&self) -> Option<Transport> {
        if self.sips { return Some(Transport::Tls); }
        match &self.transport { Some(Some(t)) => Some(match t.to_ascii_lowercase().as_str() { "tcp" => Transport::Tcp, "tls" => Transport::Tls, "ws" => Transport::Ws, "wss" => Transport::Wss, "sctp" => Transport::Sctp, "tls-sctp" => Transport::TlsSctp, _ => Transport::Udp }), _ => None }
    }
    fn default_port(&self) -> u16 { self.port.unwrap_or(if self.sips { 5061 } else { 5060 }) }
}
fn srv_name(t: Transport, sips: bool, host: &str) -> String {
    let p = match t { Transport::Udp => "udp", Transport::Sctp | Transport::TlsSctp => "sctp", _ => "tcp" };
    format!("{}._{}.{}", if tls(t) || sips { "_sips" } else { "_sip" }, p, host)
}
fn offers(service: &str) -> Option<Transport> {
    Some(match service.to_ascii_uppercase().as_str() { "SIPS+D2T" => Transport::Tls, "SIP+D2T" => Transport::Tcp, "SIP+D2U" => Transport::Udp, "SIPS+D2W" => Transport::Wss, "SIP+D2W" => Transport::Ws, "SIPS+D2S" => Transport::TlsSctp, "SIP+D2S" => Transport::Sctp, _ => return None })
}
/// the services to ask, in order, and the servers of each
fn services(z: &Zone, u: &Asked, naptr: bool) -> Vec<(Transport, Vec<Srv>)> {
    let mut ns: Vec<(u16, u16, Transport, String)> = vec![];
    if naptr {
        for n in z.naptr.get(&u.host).into_iter().flatten() {
            if let Some(t) = offers(&n.service) { if (u.want().is_none() || u.want() == Some(t)) && !n.repl.is_empty() && n.repl != "." { ns.push((n.order, n.pref, t, n.repl.clone())); } }
        }
    }
    let names: Vec<(Transport, String)> = if !ns.is_empty() { ns.sort_by_key(|n| (n.0, n.1)); ns.into_iter().map(|n| (n.2, n.3)).collect() } else {
        let ts = match u.want() { Some(t) => vec![t], None => vec![Transport::Tcp, Transport::Udp] };
        ts.into_iter().map(|t| (t, srv_name(t, u.sips, &u.host))).collect()
    };
    names.into_iter().map(|(t, n)| (t, z.srv.get(&n).map(|v| v.iter().filter(|s| s.target != "." && !s.target.is_empty()).cloned().collect()).unwrap_or_default())).collect()
}
fn addresses(z: &Zone, h: &str) -> (Vec<String>, Vec<String>) {
    (z.aaaa.get(h).map(|v| v.iter().map(|a| a.to_string()).collect()).unwrap_or_default(), z.a.get(h).map(|v| v.iter().map(|a| a.to_string()).collect()).unwrap_or_default())
}
fn views(v: &[DnsTarget]) -> Vec<String> { v.iter().map(|t| format!("{}:{}/{:?}@{}", t.host(), t.port(), t.transport(), t.priority())).collect() }
/// P13: is this list a legal answer for the zone?
fn legal(z: &Zone, u: &Asked, naptr: bool, got: &Result<Vec<DnsTarget>, String>) -> Result<(), String> {
    let t = u.want().unwrap_or(Transport::Udp);
    let addr_list = |host: &str, got: &[DnsTarget]| -> Result<(), String> {
        let (v6, v4) = addresses(z, host);
        let g: Vec<&str> = got.iter().map(|t| t.host()).collect();
        let (mut all, mut have): (Vec<String>, Vec<String>) = (v6.iter().chain(&v4).cloned().collect(), g.iter().map(|s| s.to_string()).collect());
        all.sort(); have.sort();
        if all != have { return Err(format!("addresses {have:?}, expected {all:?}")); }
        // one of each family in turn, IPv6 first
        for (i, h) in g.iter().enumerate() {
            let m = v6.len().min(v4.len());
            let six = if i < 2 * m { i % 2 == 0 } else { v6.len() > v4.len() };
            if h.contains(':') != six { return Err(format!("family order {g:?}")); }
        }
        if let Some(x) = got.iter().find(|x| x.port() != u.default_port() || x.transport() != t) { return Err(format!("port/transport of {}", views(std::slice::from_ref(x))[0])); }
        Ok(())
    };
    let n_addr = |h: &str| { let (a, b) = addresses(z, h); a.len() + b.len() };
    if u.host.parse::<std::net::IpAddr>().is_ok() {
        let g = got.as_ref().map_err(|e| format!("numeric host refused: {e}"))?;
        return if g.len() == 1 && g[0].host() == u.host && g[0].port() == u.default_port() && g[0].transport() == t { Ok(()) } else { Err(format!("numeric host gave {:?}", views(g))) };
    }
    if u.port.is_some() {
        return match got { Ok(g) => addr_list(&u.host, g), Err(e) => if n_addr(&u.host) == 0 { Ok(()) } else { Err(format!("refused: {e}")) } };
    }
    let segs = services(z, u, naptr);
    let total: usize = segs.iter().map(|s| s.1.len()).sum();
    if total == 0 {
        return match got { Ok(g) => addr_list(&u.host, g), Err(e) => if n_addr(&u.host) == 0 { Ok(()) } else { Err(format!("refused: {e}")) } };
    }
    let g = match got { Ok(g) => g, Err(e) => return if total > 100 { Ok(()) } else { Err(format!("refused: {e}, with {total} servers")) } };
    if total > 100 { return Err(format!("{} targets, more than the limit", g.len())); }
    if g.len() != total { return Err(format!("{} targets for {total} servers: {:?}", g.len(), views(g))); }
    let mut at = 0;
    for (t, ss) in segs {
        let part = &g[at..at + ss.len()]; at += ss.len();
        let mut want: Vec<(u16, String, u16)> = ss.iter().map(|s| (s.prio, s.target.clone(), s.port)).collect();
        let mut have: Vec<(u16, String, u16)> = part.iter().map(|x| (x.priority(), x.host().to_string(), x.port())).collect();
        if part.windows(2).any(|w| w[0].priority() > w[1].priority()) { return Err(format!("priorities out of order in {:?}", views(part))); }
        if part.iter().any(|x| x.transport() != t) { return Err(format!("transport of {:?}, expected {t:?}", views(part))); }
        // a server of weight zero never comes before one of another weight of its priority, unless all are zero
        want.sort(); have.sort();
        if want != have { return Err(format!("servers {have:?}, expected {want:?}")); }
    }
    Ok(())
}
fn edgy16(r: &mut Rng) -> u16 { match r.below(6) { 0 => 0, 1 => 65535, 2 => 1, 3 => 65534, 4 => r.below(4) as u16, _ => r.below(65536) as u16 } }
fn srvs(r: &mut Rng, n: usize, tag: &str) -> Vec<Srv> {
    let prios: Vec<u16> = (0..1 + r.below(3)).map(|_| edgy16(r)).collect();
    (0..n).map(|i| Srv { prio: *r.pick(&prios), weight: edgy16(r), port: if r.chance(1, 5) { edgy16(r) } else { 5060 }, target: if r.chance(1, 12) { ".".into() } else { format!("s{i}.{tag}") } }).collect()
}
fn scenario(r: &mut Rng, n: u64) -> (Zone, Asked) {
    let host = match r.below(14) { 0 => "192.0.2.7".to_string(), 1 => "2001:db8::1".to_string(), _ => format!("h{n}.example") };
    let sips = r.chance(2, 5);
    let u = Asked { sips, host: host.clone(), port: match r.below(5) { 0 => Some(5060), 1 if r.chance(1, 2) => Some(1 + r.below(65535) as u16), _ => None },
        transport: match r.below(10) { 0 => Some(Some("tcp".into())), 1 => Some(Some("udp".into())), 2 => Some(Some("TLS".into())), 3 => Some(Some("ws".into())), 4 => Some(Some(r.pick_s(&["wss", "sctp", "tls-sctp", "SCTP", "quic", "x"]))), _ => None } };
    let mut z = Zone::default();
    let all = [Transport::Udp, Transport::Tcp, Transport::Tls, Transport::Ws, Transport::Wss, Transport::Sctp, Transport::TlsSctp];
    for t in all { for s in [false, true] { if r.chance(1, 2) { let (k, d) = (r.below(5) as usize, r.below(3)); z.srv.insert(srv_name(t, s, &host), srvs(r, k, &format!("d{d}"))); } } }
    if r.chance(3, 5) {
        let mut keys: Vec<(u16, u16)> = (0..1 + r.below(6)).map(|_| (edgy16(r), edgy16(r))).collect();
        keys.sort(); keys.dedup(); r.shuffle(&mut keys);
        let big = r.chance(1, 8);
        let v: Vec<Naptr> = keys.iter().enumerate().map(|(i, k)| {
            let service = r.pick_s(&["SIPS+D2T", "SIP+D2T", "SIP+D2U", "sip+d2u", "SIPS+D2W", "SIP+D2W", "SIPS+D2S", "SIP+D2S", "E2U+sip", "x", ""]);
            let t = offers(&service).unwrap_or(Transport::Udp);
            let repl = match r.below(6) { 0 => ".".to_string(), 1 => format!("other{i}.{host}"), _ => srv_name(t, sips, &if r.chance(1, 2) { host.clone() } else { format!("n{i}.example") }) };
            if repl != "." && r.chance(4, 5) { let k = if big { 20 + r.below(18) as usize } else { r.below(4) as usize }; let s = srvs(r, k, "n"); z.srv.entry(repl.clone()).or_insert(s); }
            Naptr { order: k.0, pref: k.1, flags: r.pick_s(&["s", "S", "", "a"]), service, repl }
        }).collect();
        z.naptr.insert(host.clone(), v);
    }
    if r.chance(2, 3) { z.a.insert(host.clone(), (0..r.below(5)).map(|i| Ipv4Addr::new(192, 0, 2, 10 + i as u8)).collect()); }
    if r.chance(1, 2) { z.aaaa.insert(host, (0..r.below(5)).map(|i| Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 10 + i as u16)).collect()); }
    (z, u)
}
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }

struct Net { port: u16, zone: Arc<Mutex<Zone>>, rt: tokio::runtime::Runtime }
impl Net {
    fn new() -> Net { let (port, zone) = serve(); Net { port, zone, rt: rt() } }
    fn ask(&self, z: &Zone, u: &Asked, naptr: bool) -> Option<Result<Vec<DnsTarget>, String>> {
        *self.zone.lock().unwrap() = z.clone();
        let uri = SipUri::parse(&u.uri()).ok()?;
        Some(self.rt.block_on(async { let r = resolver(self.port); let r = if naptr { r } else { r.disable_naptr() }; r.resolve(&uri).await.map_err(|e| e.to_string()) }))
    }
}

fn p12(rep: &mut Report) {
    rep.rule("every target for a sips URI is TLS; a transport parameter is honoured in every target and an explicit port whenever the host of the URI itself is located");
    let mut r = rep.rng(12);
    let net = Net::new();
    let mut n = 0;
    while rep.time_left() {
        n += 1;
        let (z, u) = scenario(&mut r, n);
        let naptr = r.chance(4, 5);
        rep.case(&format!("{u:?} naptr={naptr} zone: {:?} {:?} {:?} {:?}", z.naptr, z.srv, z.a, z.aaaa));
        let Some(Some(got)) = rep.guard("resolve", || net.ask(&z, &u, naptr)) else { continue };
        if let Ok(v) = &got {
            rep.check(!v.is_empty(), "empty", || "an empty list of targets was returned as success".into());
            rep.check(!u.sips || v.iter().all(|t| tls(t.transport())), "sips", || format!("a sips URI got {:?}", views(v)));
            rep.check(u.want().is_none() || v.iter().all(|t| Some(t.transport()) == u.want()), "transport", || format!("{} got {:?}", u.uri(), views(v)));
            rep.check(u.port.is_none() || v.iter().all(|t| Some(t.port()) == u.port), "port", || format!("{} got {:?}", u.uri(), views(v)));
        }
        // outbound servers learned by DHCP
        if n % 2 == 0 {
            let mut servers = vec![];
            for _ in 0..r.below(4) { servers.push(if r.chance(1, 2) { DhcpSipServer::Ipv4(Ipv4Addr::new(198, 51, 100, r.below(250) as u8)) } else { DhcpSipServer::Domain(SmolStr::new(r.pick_s(&[u.host.as_str(), "nowhere.example", "192.0.2.99"]))) }); }
            let hybrid = r.chance(1, 2);
            rep.case(&format!("{u:?} dhcp={servers:?} hybrid={hybrid} zone: {:?} {:?} {:?} {:?}", z.naptr, z.srv, z.a, z.aaaa));
            let Ok(uri) = SipUri::parse(&u.uri()) else { continue };
            let prov = if r.chance(1, 6) { StaticDhcpProvider::empty() } else { StaticDhcpProvider::new(servers.clone()) };
            let got = rep.guard("dhcp", || net.rt.block_on(async { if hybrid { HybridResolver::new(prov, resolver(net.port)).resolve(&uri).await } else { DhcpResolver::new(prov, resolver(net.port)).resolve(&uri).await } }));
            if let Some(Ok(v)) = got {
                rep.check(!v.is_empty() && v.len() <= 100, "empty", || format!("{} targets returned as success", v.len()));
                rep.check(!u.sips || v.iter().all(|t| tls(t.transport())), "sips", || format!("a sips URI got {:?} through DHCP", views(&v)));
                rep.check(u.want().is_none() || v.iter().all(|t| Some(t.transport()) == u.want()), "transport", || format!("{} got {:?} through DHCP", u.uri(), views(&v)));
            }
        }
    }
}

fn p13(rep: &mut Report) {
    rep.rule("targets follow NAPTR order/preference and SRV priority, each usable server exactly once up to the limit of 100; within a priority a permutation drawn by weight; without servers the addresses, families in turn; ENUM records by order then preference");
    let mut r = rep.rng(13);
    let net = Net::new();
    // drawn by weight: among weights 1 and 3 the second comes first three times in four
    for (w, lo, hi) in [((1u16, 3u16), 360, 540), ((0, 5), 0, 600), ((0, 0), 200, 400), ((65535, 65535), 200, 400)] {
        let mut z = Zone::default();
        z.srv.insert("_sip._tcp.w.example".into(), vec![Srv { prio: 5, weight: w.0, port: 1, target: "a.w.example".into() }, Srv { prio: 5, weight: w.1, port: 2, target: "b.w.example".into() }]);
        let u = Asked { sips: false, host: "w.example".into(), port: None, transport: Some(Some("tcp".into())) };
        rep.case(&format!("600 draws between weights {w:?}"));
        let (mut b, mut bad) = (0, None);
        for _ in 0..600 { match rep.guard("weights", || net.ask(&z, &u, false)) { Some(Some(g)) => { if let Err(e) = legal(&z, &u, false, &g) { bad = Some(e); } if let Ok(v) = &g { if v.first().map(|t| t.port()) == Some(2) { b += 1; } } } _ => break } }
        rep.check(bad.is_none(), "list", || bad.clone().unwrap());
        // more than eight standard deviations either way
        rep.check(lo <= b && b <= hi, "weights", || format!("the second of {w:?} came first {b} times in 600"));
    }
    let mut n = 0;
    while rep.time_left() {
        n += 1;
        let (z, u) = scenario(&mut r, n);
        let naptr = r.chance(4, 5);
        rep.case(&format!("{u:?} naptr={naptr} zone: {:?} {:?} {:?} {:?}", z.naptr, z.srv, z.a, z.aaaa));
        let Some(Some(got)) = rep.guard("resolve", || net.ask(&z, &u, naptr)) else { continue };
        let l = legal(&z, &u, naptr, &got);
        rep.check(l.is_ok(), "list", || format!("{}: {}", u.uri(), l.clone().unwrap_err()));
        // ENUM
        let mut es: Vec<EnumNaptrRecord> = (0..r.below(7)).map(|i| EnumNaptrRecord::new(*r.pick(&[0u16, 1, 65535, 7]), *r.pick(&[0u16, 1, 65535, 9]), "u", r.pick_s(&["E2U+sip", "e2u+SIP", "E2U+mailto", "E2U+sips", ""]), format!("!^.*$!sip:{i}@x!"), "")).collect();
        rep.case(&format!("{es:?}"));
        let best = rep.guard("enum", || select_best_sip_record(&es));
        if let Some(best) = best {
            let sip: Vec<&EnumNaptrRecord> = es.iter().filter(|e| e.service.eq_ignore_ascii_case("E2U+sip")).collect();
            let min = sip.iter().map(|e| (e.order, e.preference)).min();
            rep.check(best.as_ref().map(|b| (b.order, b.preference)) == min && best.as_ref().map(|b| sip.contains(&b)).unwrap_or(true), "enum", || format!("selected {best:?}, expected one at {min:?}"));
        }
        let before = es.clone();
        if rep.guard("enum", || sort_enum_records(&mut es)).is_some() {
            let count = |v: &[EnumNaptrRecord]| { let mut m = BTreeMap::new(); for e in v { *m.entry(format!("{e:?}")).or_insert(0) += 1; } m };
            rep.check(es.windows(2).all(|w| (w[0].order, w[0].preference) <= (w[1].order, w[1].preference)) && count(&es) == count(&before), "enum-sort", || format!("sorted to {es:?}"));
        }
    }
}

// ---------- P14 ----------
fn host_ok(h: &str) -> bool { !h.is_empty() && h.len() <= 253 && !h.chars().any(|c| c.is_control()) }
/// an independent reading of option 120
fn decode(d: &[u8]) -> Option<Vec<DhcpSipServer>> {
    let (enc, mut rest) = d.split_first()?;
    let mut out = vec![];
    match enc {
        1 => { if rest.len() % 4 != 0 { return None; } for q in rest.chunks(4) { out.push(DhcpSipServer::Ipv4(Ipv4Addr::from([q[0], q[1], q[2], q[3]]))); } }
        0 => while !rest.is_empty() {
            let mut labels: Vec<&str> = vec![];
            loop {
                let (l, r) = rest.split_first()?;
                rest = r;
                if *l == 0 { break; }
                if *l > 63 || *l as usize > rest.len() { return None; }
                let (a, b) = rest.split_at(*l as usize);
                rest = b;
                let s = std::str::from_utf8(a).ok()?;
                if s.contains('.') { return None; }
                labels.push(s);
            }
            let n = labels.join(".");
            if labels.is_empty() || !host_ok(&n) { return None; }
            out.push(DhcpSipServer::Domain(SmolStr::new(n)));
        },
        _ => return None,
    }
    if out.is_empty() { None } else { Some(out) }
}
fn check_bytes(rep: &mut Report, d: &[u8]) {
    rep.case(&format!("{d:?}"));
    if let Some(g) = rep.guard("option-120", || parse_dhcp_option_120(d).ok()) { let w = decode(d); rep.check(g == w, "option-120", || format!("decoded {g:?}, expected {w:?}")); }
    if let Some(g) = rep.guard("option-150", || parse_dhcp_option_150(d).ok()) {
        let w: Option<Vec<Ipv4Addr>> = if d.is_empty() || d.len() % 4 != 0 { None } else { Some(d.chunks(4).map(|q| Ipv4Addr::from([q[0], q[1], q[2], q[3]])).collect()) };
        rep.check(g == w, "option-150", || format!("decoded {g:?}, expected {w:?}"));
    }
    if let Some(g) = rep.guard("option-66", || parse_dhcp_option_66(d).ok()) {
        rep.check(g.is_some() != d.is_empty() && (std::str::from_utf8(d).is_err() || d.is_empty() || g.as_ref().map(|n| n.as_str().as_bytes()) == Some(d)), "option-66", || format!("decoded {g:?}"));
    }
}
fn p14(rep: &mut Report) {
    rep.rule("options 120, 150 and 66 are decoded as an independent decoder does, without a crash; encoding a legal list and decoding it gives it back");
    let mut r = rep.rng(14);
    for len in 0..3usize { for a in 0..=255u8 { for b in if len == 2 { 0..=255u8 } else { 0..=0 } { check_bytes(rep, &[a, b][..len.min(2)]); } } }
    while rep.time_left() {
        // a legal list there and back
        if r.chance(1, 2) {
            let want: Vec<DhcpSipServer> = (0..1 + r.below(4)).map(|_| {
                let k = 1 + r.below(4);
                DhcpSipServer::Domain(SmolStr::new((0..k).map(|_| { let l = *r.pick(&[1u64, 2, 5, 7, 62, 63]); (0..l).map(|_| *r.pick(&['a', 'z', '0', '-', 'M'])).collect::<String>() }).collect::<Vec<_>>().join(".")))
            }).filter(|d| host_ok(&d.as_str())).collect();
            let mut d = vec![0u8];
            for w in &want { for l in w.as_str().split('.') { d.push(l.len() as u8); d.extend_from_slice(l.as_bytes()); } d.push(0); }
            if !want.is_empty() {
                rep.case(&format!("{want:?}"));
                if let Some(g) = rep.guard("option-120", || parse_dhcp_option_120(&d).map_err(|e| e.to_string())) { rep.check(g.as_ref().ok() == Some(&want), "round-trip", || format!("decoded {g:?}")); }
            }
            // and damaged
            if r.chance(1, 2) { let n = r.below(d.len() as u64 + 1) as usize; d.truncate(n); }
            for _ in 0..r.below(3) { if !d.is_empty() { let i = r.below(d.len() as u64) as usize; d[i] = *r.pick(&[0u8, 1, 2, 3, 63, 64, 65, 127, 128, 192, 193, 255, 46, 10, 13, b'a']); } }
            if r.chance(1, 4) { d.push(r.below(256) as u8); }
            check_bytes(rep, &d);
        } else {
            let n = r.below(40) as usize;
            let mut d: Vec<u8> = (0..n).map(|_| match r.below(3) { 0 => r.below(8) as u8, 1 => b'a' + r.below(26) as u8, _ => r.below(256) as u8 }).collect();
            if !d.is_empty() && r.chance(3, 4) { d[0] = r.below(2) as u8; }
            check_bytes(rep, &d);
        }
    }
}
fn main() {
    let mut rep = Report::from_args();
    match rep.prop.as_str() { "P12" => p12(&mut rep), "P13" => p13(&mut rep), "P14" => p14(&mut rep), p => panic!("no such property here: {p}") }
    rep.finish();
}
