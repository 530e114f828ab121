//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@include errx
//@include anyhow
//@include iters
//@include fmt
//@rewrite Result < Vec < $t > > ==> Result<Vec<$t>, AErr>
//@rewrite Result < Vec < std :: net :: Ipv4Addr > > ==> Result<Vec<Ipv4Addr>, AErr>
//@rewrite Result < TftpServerName > ==> Result<TftpServerName, AErr>
//@rewrite std :: net :: Ipv4Addr ==> Ipv4Addr
//@rewrite DnsError :: TooManyTargets { $*x } . into ( ) ==> AErr
//@rewrite : impl Into < SmolStr > ==> : impl ToSmol
//@rewrite host . into ( ) ==> host.to_smol()
//@rewrite tls_name . into ( ) ==> tls_name.to_smol()
//@rewrite host_str . as_str ( ) ==> host_str.as_str()
//@rewrite . as_deref ( ) ==> .x_deref()
//@rewrite String :: from_utf8_lossy ( $*x ) . to_ascii_uppercase ( ) ==> x_lossy($x).to_ascii_uppercase()
//@rewrite String :: from_utf8_lossy ( $*x ) . to_string ( ) ==> x_lossy($x)
//@rewrite std :: str :: from_utf8 ( $*x ) ==> x_utf8($x)
//@rewrite tokio :: time :: timeout ( self . query_timeout , $*x ) . x_else ( $*y ) ? ? ==> x_timeout($x)?
//@rewrite . trim_end_matches ( '.' ) ==> .x_trim_end_c('.')
//@rewrite for $x in lookup . answers ( ) { $*b } ==> let an__ = lookup.answers(); let mut a__: usize = 0; while a__ < an__.len() { let $x = &an__[a__]; a__ += 1; $b }
//@rewrite for $x in lookup . iter ( ) { $*b } ==> let an__ = lookup.ips(); let mut a__: usize = 0; while a__ < an__.len() { let $x = an__[a__]; a__ += 1; $b }
//@rewrite let RData :: SRV ( srv ) = & rec . data else { continue } ; ==> let srv = match &rec.data { RData::SRV(srv) => srv, _ => { continue; } };
//@rewrite records . sort ( ) ==> x_sort_naptr(&mut records)
//@rewrite BTreeMap < u16 , Vec < ( u16 , SmolStr , u16 ) > > ==> PMap
//@rewrite BTreeMap :: new ( ) ==> PMap::new()
//@rewrite priority_groups . entry ( $*k ) . or_default ( ) . push ( $*v ) ==> priority_groups.x_push($k, $v)
//@rewrite for ( $a , $c ) in $v { $*b } ==> let mut q__ = $v.x_items(); while q__.len() > 0 { let ($a, $c) = q__.remove(0); $b }
//@rewrite for $x in $v { $*b } ==> let mut q__ = $v; while q__.len() > 0 { let $x = q__.remove(0); $b }
//@rewrite $v . into_iter ( ) . map ( | $x | $*c ) . collect ( ) ==> { let mut q__ = $v; let mut o__: Vec<DnsTarget> = Vec::new(); while q__.len() > 0 { let $x = q__.remove(0); let y__ = $c; o__.push(y__); } o__ }
//@rewrite records . iter ( ) . map ( | ( w , _ , _ ) | $*c ) . sum ( ) ==> { let mut s__: u32 = 0; let mut i__: usize = 0; while i__ < records.len() { let w = &records[i__].0; s__ = s__ + ($c); i__ += 1; } s__ }
//@rewrite records . iter ( ) . position ( | ( w , _ , _ ) | { $*c ; $d > $e } ) ==> { let mut f__: Option<usize> = None; let mut i__: usize = 0; while i__ < records.len() { let w = &records[i__].0; $c; if $d > $e { f__ = Some(i__); break; } i__ += 1; } f__ }
//@rewrite target == "." ==> target.as_str() == "."
//@rewrite replacement == "." ==> replacement.as_str() == "."
//@rewrite rand :: rng ( ) ==> XRng::new()
//@rewrite . await . ok ( ) ==> .ok()
//@rewrite & SmolStr :: new ( "transport" ) ==> "transport"
//@rewrite let $r = uri . params ( ) . get ( $*k ) ? ; ==> let $r = match uri.params().get($k) { Some(v__) => v__, None => { return None; } };
//@rewrite let $r = transport_param . as_ref ( ) ? ; ==> let $r = match transport_param { Some(v__) => v__, None => { return None; } };
//@rewrite . replacement . as_ref ( ) . map ( | replacement | replacement . as_str ( ) ) ==> .replacement.x_deref()
//@rewrite ! data . len ( ) . is_multiple_of ( 4 ) ==> data.len() % 4 != 0
//@rewrite for chunk in data . chunks_exact ( 4 ) { $*b } ==> let mut c__: usize = 0; while data.len() - c__ >= 4 { let chunk: [u8; 4] = [data[c__], data[c__ + 1], data[c__ + 2], data[c__ + 3]]; c__ += 4; $b }
//@rewrite labels . join ( "." ) ==> x_join(&labels, ".")
//@rewrite & data [ 1 .. ] ==> slice_from(data, 1)
//@rewrite & data [ pos .. pos + len ] ==> slice_sub(data, pos, pos + len)
//@rewrite all_targets . extend ( $*x ) ==> all_targets.x_extend($x)
//@rewrite let Some ( servers ) = servers else { $*b } ; ==> let servers = match servers { Some(s__) => s__, None => { $b } };
//@rewrite . map_err ( | e | AErr ) ==> .x_else(AErr)
//@rewrite . ok ( ) . flatten ( ) ==> .x_ok_flat()
//@rewrite targets . clone ( ) ==> targets.clone()
verus! {
pub mod dns0 {
    use super::*;
    use vstd::utf8::encode_utf8;
    use vstd::multiset::Multiset;
    // ---- bytes as text ----
    /// the text these bytes encode, if they are UTF-8
    pub open spec fn utf8(b: Seq<u8>) -> Option<Seq<char>> { if exists|t: Seq<char>| #[trigger] encode_utf8(t) == b { Some(choose|t: Seq<char>| #[trigger] encode_utf8(t) == b) } else { None } }
    pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
    #[verifier::external_body] pub fn x_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
    /// std::str::from_utf8
    #[verifier::external_body] pub fn x_utf8(b: &[u8]) -> (r: Result<&str, NumErr>) ensures match r { Ok(t) => utf8(b@) == Some(t@), Err(_) => utf8(b@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn slice_from(b: &[u8], a: usize) -> (r: &[u8]) requires a <= b@.len(), ensures r@ == b@.skip(a as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_sub(b: &[u8], a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int) { unimplemented!() }
    pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len()
    { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), sep) + sep + v.last() } }
    #[verifier::external_body] pub fn x_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == join(sviews(v@), sep@) { unimplemented!() }
    // ---- addresses ----
    /// std::net::Ipv4Addr: four octets
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv4Addr { x: u32 }
    impl View for Ipv4Addr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Ipv4Addr { #[verifier::external_body] pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r@ == seq![a, b, c, d] { unimplemented!() }
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == v4text(self@) { unimplemented!() } }
    pub uninterp spec fn v4text(o: Seq<u8>) -> Seq<char>;
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv6Addr { x: u128 }
    #[derive(Clone, Copy)] pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
    pub uninterp spec fn iptext(a: IpAddr) -> Seq<char>;
    impl IpAddr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == iptext(*self) { unimplemented!() } }
    /// the text is a numeric address (str::parse::<IpAddr>)
    pub uninterp spec fn is_ip(s: Seq<char>) -> bool;
    pub trait XIp { spec fn xip(&self) -> Seq<char>; fn xp_IpAddr(&self) -> (r: Result<IpAddr, NumErr>) ensures r.is_ok() == is_ip(self.xip()); }
    impl XIp for str { open spec fn xip(&self) -> Seq<char> { self@ } #[verifier::external_body] fn xp_IpAddr(&self) -> (r: Result<IpAddr, NumErr>) { unimplemented!() } }
    pub trait XDeref { spec fn dv(&self) -> Option<Seq<char>>; fn x_deref(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.dv() == Some(t@), None => self.dv().is_none() }; }
    impl XDeref for Option<SmolStr> { open spec fn dv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
    pub trait XOkFlat<T> { spec fn okf(&self) -> Option<T>; fn x_ok_flat(self) -> (r: Option<T>) ensures r == self.okf(); }
    impl<T, E> XOkFlat<T> for Result<Option<T>, E> { open spec fn okf(&self) -> Option<T> { match self { Ok(Some(v)) => Some(*v), _ => None } } #[verifier::external_body] fn x_ok_flat(self) -> (r: Option<T>) { unimplemented!() } }
    /// iterating a vector by value
    pub trait XItems<T>: Sized { spec fn xit(&self) -> Seq<T>; fn x_items(self) -> (r: Vec<T>) ensures r@ == self.xit(); }
    impl<T> XItems<T> for Vec<T> { open spec fn xit(&self) -> Seq<T> { self@ } fn x_items(self) -> (r: Vec<T>) { self } }
    // ---- hickory: names, records, answers (assumed; every answer is possible) ----
    #[verifier::external_body] pub struct Name { x: u128 }
    impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    impl Name { #[verifier::external_body] pub fn to_utf8(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
    pub struct NAPTR { pub order: u16, pub preference: u16, pub flags: Vec<u8>, pub services: Vec<u8>, pub regexp: Vec<u8>, pub replacement: Name }
    pub struct SRV { pub priority: u16, pub weight: u16, pub port: u16, pub target: Name }
    #[verifier::external_body] pub struct OtherData { x: u128 }
    pub enum RData { NAPTR(NAPTR), SRV(SRV), Other(OtherData) }
    pub struct Record { pub data: RData }
    pub enum RecordType { NAPTR, Other }
    #[verifier::external_body] pub struct TokioResolver { x: u128 }
    impl Clone for TokioResolver { #[verifier::external_body] fn clone(&self) -> (r: TokioResolver) ensures r == *self { unimplemented!() } }
    #[verifier::external_body] pub struct Lookup { x: u128 }
    impl View for Lookup { type V = Seq<Record>; uninterp spec fn view(&self) -> Seq<Record>; }
    impl Lookup { pub uninterp spec fn ipv(&self) -> Seq<IpAddr>;
        /// the answer count of a DNS message is a 16-bit number
        #[verifier::external_body] pub fn answers(&self) -> (r: &Vec<Record>) ensures r@ == self@, r@.len() <= 0xffff { unimplemented!() }
        #[verifier::external_body] pub fn ips(&self) -> (r: Vec<IpAddr>) ensures r@ == self.ipv(), r@.len() <= 0x1_ffff { unimplemented!() } }
    /// the answers for a query (None: it fails or times out)
    pub uninterp spec fn ans_naptr(r: TokioResolver, name: Seq<char>) -> Option<Seq<Record>>;
    pub uninterp spec fn ans_srv(r: TokioResolver, name: Seq<char>) -> Option<Seq<Record>>;
    pub uninterp spec fn ans_ip(r: TokioResolver, name: Seq<char>) -> Option<Seq<IpAddr>>;
    impl TokioResolver {
        #[verifier::external_body] pub fn lookup(&self, name: String, t: RecordType) -> (r: Result<Lookup, AErr>)
            requires t == RecordType::NAPTR, ensures match r { Ok(l) => ans_naptr(*self, name@) == Some(l@), Err(_) => ans_naptr(*self, name@).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn srv_lookup(&self, name: String) -> (r: Result<Lookup, AErr>)
            ensures match r { Ok(l) => ans_srv(*self, name@) == Some(l@), Err(_) => ans_srv(*self, name@).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn lookup_ip(&self, name: &str) -> (r: Result<Lookup, AErr>)
            ensures match r { Ok(l) => ans_ip(*self, name@) == Some(l.ipv()), Err(_) => ans_ip(*self, name@).is_none() } { unimplemented!() }
    }
    /// tokio::time::timeout around a query: a timeout counts as a failed query
    pub fn x_timeout(r: Result<Lookup, AErr>) -> (o: Result<Lookup, AErr>) ensures o == r { r }
    // ---- randomness ----
    /// rand: any number in the range; `d` is the history of draws
    #[verifier::external_body] pub struct XRng { x: u128 }
    pub trait XNum: Sized { spec fn n(self) -> int; }
    impl XNum for u32 { open spec fn n(self) -> int { self as int } }
    impl XNum for usize { open spec fn n(self) -> int { self as int } }
    impl XRng {
        pub uninterp spec fn d(&self) -> Seq<int>;
        #[verifier::external_body] pub fn new() -> (r: XRng) ensures r.d() == Seq::<int>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn random_range<T: XNum>(&mut self, g: std::ops::Range<T>) -> (r: T)
            requires g.start.n() < g.end.n(), ensures g.start.n() <= r.n() < g.end.n(), final(self).d() == old(self).d().push(r.n()) { unimplemented!() }
    }
    // ---- the SIP URI as server location sees it ----
    pub struct UriError;
    #[verifier::external_body] pub struct SipUri { x: u128 }
    #[verifier::external_body] pub struct Params { x: u128 }
    impl SipUri {
        pub uninterp spec fn sips(&self) -> bool;
        pub uninterp spec fn hostv(&self) -> Seq<char>;
        pub uninterp spec fn portv(&self) -> Option<u16>;
        /// the parameter of that name: absent, without a value, or with one
        pub uninterp spec fn param(&self, n: Seq<char>) -> Option<Option<Seq<char>>>;
        #[verifier::external_body] pub fn is_sips(&self) -> (r: bool) ensures r == self.sips() { unimplemented!() }
        #[verifier::external_body] pub fn host(&self) -> (r: &str) ensures r@ == self.hostv() { unimplemented!() }
        #[verifier::external_body] pub fn port(&self) -> (r: Option<u16>) ensures r == self.portv() { unimplemented!() }
        #[verifier::external_body] pub fn params(&self) -> (r: &Params) ensures forall|n: Seq<char>| r.pv(n) == #[trigger] self.param(n) { unimplemented!() }
        #[verifier::external_body] pub fn with_host(self, h: SmolStr) -> (r: Result<SipUri, UriError>)
            ensures match r { Ok(u) => u.sips() == self.sips() && u.hostv() == h@ && u.portv() == self.portv() && (forall|n: Seq<char>| #[trigger] u.param(n) == self.param(n)), Err(_) => true } { unimplemented!() }
        #[verifier::external_body] pub fn without_port(self) -> (r: SipUri)
            ensures r.sips() == self.sips(), r.hostv() == self.hostv(), r.portv().is_none(), forall|n: Seq<char>| #[trigger] r.param(n) == self.param(n) { unimplemented!() }
    }
    impl Clone for SipUri { #[verifier::external_body] fn clone(&self) -> (r: SipUri) ensures r == *self { unimplemented!() } }
    impl Params {
        pub uninterp spec fn pv(&self, n: Seq<char>) -> Option<Option<Seq<char>>>;
        #[verifier::external_body] pub fn get(&self, n: &str) -> (r: Option<&Option<SmolStr>>)
            ensures match r { None => self.pv(n@).is_none(), Some(o) => self.pv(n@) == Some(match *o { Some(t) => Some(t@), None => None }) } { unimplemented!() }
    }
}
use dns0::*;
pub mod dns1 {
use super::*;
use vstd::multiset::Multiset;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_s, sx::pat_c, st::str_bytes_bound};
//@file crates/sip-dns/src/lib.rs
//@const MAX_HOSTNAME_LENGTH
//@const MAX_TARGETS_PER_QUERY
//@enum Transport derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for Transport {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Transport) -> bool { *self == *other }
}
impl PartialEq for Transport { #[verifier::external_body] fn eq(&self, o: &Transport) -> (r: bool) { unimplemented!() } }
impl Eq for Transport {}
//@enum DnsError
//@struct DnsTarget
//@struct NaptrRecord ordlex=naptr_derived
impl Clone for DnsTarget { #[verifier::external_body] fn clone(&self) -> (r: DnsTarget) ensures r == *self { unimplemented!() } }
// ---------------- specification: transports ----------------
/// the transport is protected by TLS
pub open spec fn tls(t: Transport) -> bool { t == Transport::Tls || t == Transport::Wss || t == Transport::TlsSctp }
pub open spec fn tp_name(s: Seq<char>) -> Transport {
    let l = sx::lower(s);
    if l == "tcp"@ { Transport::Tcp } else if l == "tls"@ { Transport::Tls } else if l == "ws"@ { Transport::Ws } else if l == "wss"@ { Transport::Wss }
    else if l == "sctp"@ { Transport::Sctp } else if l == "tls-sctp"@ { Transport::TlsSctp } else { Transport::Udp }
}
/// the transport the URI insists on
pub open spec fn want(u: SipUri) -> Option<Transport> {
    if u.sips() { Some(Transport::Tls) } else { match u.param("transport"@) { Some(Some(t)) => Some(tp_name(t)), _ => None } }
}
pub open spec fn dport(u: SipUri) -> u16 { match u.portv() { Some(p) => p, None => if u.sips() { 5061 } else { 5060 } } }
pub proof fn lits()
    ensures "tcp"@ != "tls"@, "tcp"@ != "ws"@, "tcp"@ != "wss"@, "tcp"@ != "sctp"@, "tcp"@ != "tls-sctp"@, "tls"@ != "ws"@, "tls"@ != "wss"@, "tls"@ != "sctp"@, "tls"@ != "tls-sctp"@,
        "ws"@ != "wss"@, "ws"@ != "sctp"@, "ws"@ != "tls-sctp"@, "wss"@ != "sctp"@, "wss"@ != "tls-sctp"@, "sctp"@ != "tls-sctp"@,
{
    reveal_strlit("tcp"); reveal_strlit("tls"); reveal_strlit("ws"); reveal_strlit("wss"); reveal_strlit("sctp"); reveal_strlit("tls-sctp");
    assert("tcp"@[0] == 't' && "tls"@[1] == 'l' && "tcp"@[1] == 'c' && "wss"@[0] == 'w' && "ws"@[0] == 'w');
    assert("tls"@.len() == 3 && "ws"@.len() == 2 && "wss"@.len() == 3 && "sctp"@.len() == 4 && "tls-sctp"@.len() == 8 && "tcp"@.len() == 3);
    assert("tcp"@[1] != "tls"@[1]); assert("tcp"@[0] != "wss"@[0]); assert("tls"@[0] != "wss"@[0]);
}
pub open spec fn proto(t: Transport) -> Seq<char> { match t { Transport::Udp => "udp"@, Transport::Sctp | Transport::TlsSctp => "sctp"@, _ => "tcp"@ } }
pub open spec fn svc(t: Transport, sips: bool) -> Seq<char> { if tls(t) || sips { "_sips"@ } else { "_sip"@ } }
/// the name an SRV query asks for
pub open spec fn srv_name(t: Transport, sips: bool, host: Seq<char>) -> Seq<char> { svc(t, sips) + "._"@ + proto(t) + "."@ + host }
// ---------------- specification: the usable servers of an answer ----------------
pub ghost struct Srv { pub prio: u16, pub weight: u16, pub host: Seq<char>, pub port: u16 }
pub open spec fn srv_of(r: Record) -> Option<Srv> {
    match r.data { RData::SRV(s) => if s.target@ == "."@ || slx_strip(s.target@).len() == 0 { None } else { Some(Srv { prio: s.priority, weight: s.weight, host: slx_strip(s.target@), port: s.port }) }, _ => None }
}
pub open spec fn slx_strip(s: Seq<char>) -> Seq<char> { sl::strip_r(s, '.') }
/// the usable servers, in answer order
pub open spec fn usable(a: Seq<Record>) -> Seq<Srv> decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match srv_of(a.last()) { Some(s) => usable(a.drop_last()).push(s), None => usable(a.drop_last()) } } }
/// those of one priority: (weight, host, port)
pub open spec fn group(a: Seq<Srv>, p: u16) -> Seq<(u16, Seq<char>, u16)> decreases a.len()
{ if a.len() == 0 { Seq::empty() } else if a.last().prio == p { group(a.drop_last(), p).push((a.last().weight, a.last().host, a.last().port)) } else { group(a.drop_last(), p) } }
// ---------------- specification: weighted order (RFC 2782) ----------------
pub open spec fn wsum(r: Seq<(u16, Seq<char>, u16)>) -> int decreases r.len() { if r.len() == 0 { 0 } else { wsum(r.drop_last()) + r.last().0 } }
/// a draw selects entry i: all weights zero, any entry; otherwise the running sum first exceeds the draw at i
pub open spec fn selects(r: Seq<(u16, Seq<char>, u16)>, k: int, i: int) -> bool {
    &&& 0 <= i < r.len()
    &&& if wsum(r) == 0 { k == i } else { 0 <= k < wsum(r) && wsum(r.take(i)) <= k < wsum(r.take(i + 1)) }
}
/// one draw k takes entry i of r as o and leaves q
pub open spec fn draws(r: Seq<(u16, Seq<char>, u16)>, k: int, i: int, o: (Seq<char>, u16), q: Seq<(u16, Seq<char>, u16)>) -> bool {
    selects(r, k, i) && o == (r[i].1, r[i].2) && q == r.remove(i)
}
/// drawing ks one after another from r0 gives out and leaves r
pub open spec fn wrun(r0: Seq<(u16, Seq<char>, u16)>, ks: Seq<int>, out: Seq<(Seq<char>, u16)>, r: Seq<(u16, Seq<char>, u16)>) -> bool decreases ks.len()
{
    if ks.len() == 0 { out.len() == 0 && r == r0 }
    else { out.len() > 0 && exists|q: Seq<(u16, Seq<char>, u16)>, i: int| wrun(r0, ks.drop_last(), out.drop_last(), q) && #[trigger] draws(q, ks.last(), i, out.last(), r) }
}
/// out is a weighted order of r
pub open spec fn worder(r: Seq<(u16, Seq<char>, u16)>, out: Seq<(Seq<char>, u16)>) -> bool {
    exists|ks: Seq<int>| #[trigger] wrun(r, ks, out, Seq::empty())
}
pub open spec fn wviews(v: Seq<(u16, SmolStr, u16)>) -> Seq<(u16, Seq<char>, u16)> { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@, v[i].2)) }
pub open spec fn oviews(v: Seq<(SmolStr, u16)>) -> Seq<(Seq<char>, u16)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1)) }
pub proof fn wsum_bound(r: Seq<(u16, Seq<char>, u16)>) ensures 0 <= wsum(r) <= 65535 * r.len() decreases r.len() { if r.len() > 0 { wsum_bound(r.drop_last()); } }
pub open spec fn host_ok(h: Seq<char>) -> bool { h.len() > 0 && blen(h) <= 253 && !sl::has_ctrl(h) }
/// address/port pairs of a group
pub open spec fn hp(r: Seq<(u16, Seq<char>, u16)>) -> Seq<(Seq<char>, u16)> { Seq::new(r.len(), |i: int| (r[i].1, r[i].2)) }
/// a BTreeMap from priority to the servers of that priority (assumed contract on std)
#[verifier::external_body] pub struct PMap { x: u128 }
impl View for PMap { type V = Map<u16, Seq<(u16, Seq<char>, u16)>>; uninterp spec fn view(&self) -> Self::V; }
pub open spec fn mget(m: Map<u16, Seq<(u16, Seq<char>, u16)>>, k: u16) -> Seq<(u16, Seq<char>, u16)> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
impl PMap {
    #[verifier::external_body] pub fn new() -> (r: PMap) ensures r@ == Map::<u16, Seq<(u16, Seq<char>, u16)>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_push(&mut self, k: u16, v: (u16, SmolStr, u16)) ensures final(self)@ == old(self)@.insert(k, mget(old(self)@, k).push((v.0, v.1@, v.2))) { unimplemented!() }
    #[verifier::external_body] pub fn x_items(self) -> (r: Vec<(u16, Vec<(u16, SmolStr, u16)>)>)
        ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 < (#[trigger] r@[j]).0,
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && wviews(r@[i].1@) == self@[r@[i].0],
            forall|k: u16| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
}
// ---------------- specification: targets ----------------
pub ghost struct TV { pub host: Seq<char>, pub port: u16, pub transport: Transport, pub prio: u16, pub name: Option<Seq<char>> }
pub open spec fn tv(t: DnsTarget) -> TV { TV { host: t.host@, port: t.port, transport: t.transport, prio: t.priority, name: match t.tls_name { Some(n) => Some(n@), None => None } } }
pub open spec fn tvs(v: Seq<DnsTarget>) -> Seq<TV> { Seq::new(v.len(), |i: int| tv(v[i])) }
/// the targets of one priority: (host, port), in order
pub open spec fn ofprio(o: Seq<TV>, p: u16) -> Seq<(Seq<char>, u16)> decreases o.len()
{ if o.len() == 0 { Seq::empty() } else if o.last().prio == p { ofprio(o.drop_last(), p).push((o.last().host, o.last().port)) } else { ofprio(o.drop_last(), p) } }
/// o lists exactly the servers us: by priority, and in a weighted order within one priority
pub open spec fn srv_list(us: Seq<Srv>, t: Transport, o: Seq<TV>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).prio <= (#[trigger] o[j]).prio
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).transport == t && o[i].name.is_none()
    &&& forall|p: u16| worder(#[trigger] group(us, p), ofprio(o, p))
}
// ---------------- specification: NAPTR ----------------
pub ghost struct NV { pub order: u16, pub pref: u16, pub transport: Transport, pub repl: Option<Seq<char>> }
pub open spec fn occs(s: Seq<char>, t: Seq<char>) -> bool { sx::occ(s, sx::Pat::S(t)) }
/// the transport a service field offers
pub open spec fn svc_transport(f: Seq<char>) -> Option<Transport> {
    if occs(f, "SIPS+D2T"@) { Some(Transport::Tls) } else if occs(f, "SIP+D2T"@) { Some(Transport::Tcp) } else if occs(f, "SIP+D2U"@) { Some(Transport::Udp) }
    else if occs(f, "SIPS+D2W"@) { Some(Transport::Wss) } else if occs(f, "SIP+D2W"@) { Some(Transport::Ws) }
    else if occs(f, "SIPS+D2S"@) { Some(Transport::TlsSctp) } else if occs(f, "SIP+D2S"@) { Some(Transport::Sctp) } else { None }
}
/// what a NAPTR answer offers, if it is usable under the transport insisted on
pub open spec fn naptr_of(r: Record, allowed: Option<Transport>) -> Option<NV> {
    match r.data {
        RData::NAPTR(n) => match svc_transport(sx::upper(lossy(n.services@))) {
            Some(t) => if (allowed.is_some() && allowed != Some(t)) || n.replacement@ == "."@ { None }
                else { Some(NV { order: n.order, pref: n.preference, transport: t, repl: if slx_strip(n.replacement@).len() == 0 { None } else { Some(slx_strip(n.replacement@)) } }) },
            None => None,
        },
        _ => None,
    }
}
pub open spec fn naptrs(a: Seq<Record>, allowed: Option<Transport>) -> Seq<NV> decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match naptr_of(a.last(), allowed) { Some(s) => naptrs(a.drop_last(), allowed).push(s), None => naptrs(a.drop_last(), allowed) } } }
pub open spec fn nv(r: NaptrRecord) -> NV { NV { order: r.order, pref: r.preference, transport: r.transport, repl: match r.replacement { Some(t) => Some(t@), None => None } } }
pub open spec fn nvs(v: Seq<NaptrRecord>) -> Seq<NV> { Seq::new(v.len(), |i: int| nv(v[i])) }
/// service preference (RFC 3263 4.1): order first, then preference
pub open spec fn before(a: NV, b: NV) -> bool { a.order < b.order || (a.order == b.order && a.pref <= b.pref) }
pub open spec fn by_pref(v: Seq<NV>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> before(#[trigger] v[i], #[trigger] v[j]) }
/// Vec::sort with the derived order
#[verifier::external_body] pub fn x_sort_naptr(v: &mut Vec<NaptrRecord>)
    ensures nvs(final(v)@).to_multiset() == nvs(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> naptr_derived(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) { unimplemented!() }
pub trait XExtend<T> { spec fn xe(&self) -> Seq<T>; fn x_extend(&mut self, o: Vec<T>) ensures final(self).xe() == old(self).xe() + o@; }
impl XExtend<DnsTarget> for Vec<DnsTarget> { open spec fn xe(&self) -> Seq<DnsTarget> { self@ } #[verifier::external_body] fn x_extend(&mut self, o: Vec<DnsTarget>) { unimplemented!() } }
// ---------------- specification: addresses ----------------
pub open spec fn v6s(a: Seq<IpAddr>) -> Seq<IpAddr> decreases a.len() { if a.len() == 0 { Seq::empty() } else if a.last() is V6 { v6s(a.drop_last()).push(a.last()) } else { v6s(a.drop_last()) } }
pub open spec fn v4s(a: Seq<IpAddr>) -> Seq<IpAddr> decreases a.len() { if a.len() == 0 { Seq::empty() } else if a.last() is V4 { v4s(a.drop_last()).push(a.last()) } else { v4s(a.drop_last()) } }
/// one of each family in turn, IPv6 first
pub open spec fn inter(a: Seq<IpAddr>, b: Seq<IpAddr>, n: int) -> Seq<IpAddr> decreases n
{
    if n <= 0 { Seq::empty() } else {
        let x = inter(a, b, n - 1);
        let y = if n - 1 < a.len() { x.push(a[n - 1]) } else { x };
        if n - 1 < b.len() { y.push(b[n - 1]) } else { y }
    }
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn eyeballs(a: Seq<IpAddr>) -> Seq<IpAddr> { inter(v6s(a), v4s(a), imax(v6s(a).len() as int, v4s(a).len() as int)) }
/// THEOREM (P13): every address of the answer is tried exactly once
pub proof fn thm_addrs(a: Seq<IpAddr>) ensures eyeballs(a).to_multiset() == a.to_multiset()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lem_inter(v6s(a), v4s(a), imax(v6s(a).len() as int, v4s(a).len() as int));
    assert(v6s(a).take(v6s(a).len() as int) =~= v6s(a)); assert(v4s(a).take(v4s(a).len() as int) =~= v4s(a));
    lem_fam(a);
}
pub proof fn lem_inter(a: Seq<IpAddr>, b: Seq<IpAddr>, n: int)
    requires 0 <= n
    ensures inter(a, b, n).to_multiset() == a.take(if n < a.len() { n } else { a.len() as int }).to_multiset().add(b.take(if n < b.len() { n } else { b.len() as int }).to_multiset())
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if n == 0 { assert(a.take(0) =~= Seq::empty()); assert(b.take(0) =~= Seq::empty()); assert(inter(a, b, n).to_multiset() =~= a.take(0).to_multiset().add(b.take(0).to_multiset())); }
    else {
        lem_inter(a, b, n - 1);
        if n - 1 < a.len() { assert(a.take(n) =~= a.take(n - 1).push(a[n - 1])); }
        if n - 1 < b.len() { assert(b.take(n) =~= b.take(n - 1).push(b[n - 1])); }
        assert(inter(a, b, n).to_multiset() =~= a.take(if n < a.len() { n } else { a.len() as int }).to_multiset().add(b.take(if n < b.len() { n } else { b.len() as int }).to_multiset()));
    }
}
pub proof fn lem_fam(a: Seq<IpAddr>) ensures a.to_multiset() == v6s(a).to_multiset().add(v4s(a).to_multiset()) decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 { assert(a =~= Seq::empty()); assert(a.to_multiset() =~= v6s(a).to_multiset().add(v4s(a).to_multiset())); }
    else { lem_fam(a.drop_last()); assert(a =~= a.drop_last().push(a.last())); assert(a.to_multiset() =~= v6s(a).to_multiset().add(v4s(a).to_multiset())); }
}
/// THEOREM (P13): a weighted order is a permutation: no server is lost, duplicated or invented, zero weight included
pub proof fn thm_perm(r0: Seq<(u16, Seq<char>, u16)>, ks: Seq<int>, out: Seq<(Seq<char>, u16)>, r: Seq<(u16, Seq<char>, u16)>)
    requires wrun(r0, ks, out, r)
    ensures hp(r0).to_multiset() == out.to_multiset().add(hp(r).to_multiset()), out.len() + r.len() == r0.len()
    decreases ks.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if ks.len() == 0 { assert(out =~= Seq::empty()); assert(out.to_multiset() =~= Multiset::empty()); assert(hp(r0).to_multiset() =~= out.to_multiset().add(hp(r).to_multiset())); }
    else {
        let (q, i) = choose|q: Seq<(u16, Seq<char>, u16)>, i: int| wrun(r0, ks.drop_last(), out.drop_last(), q) && #[trigger] draws(q, ks.last(), i, out.last(), r);
        thm_perm(r0, ks.drop_last(), out.drop_last(), q);
        assert(hp(r) =~= hp(q).remove(i));
        assert(out =~= out.drop_last().push(out.last()));
        assert(hp(q)[i] == out.last());
        assert(hp(q) =~= hp(q).remove(i).insert(i, out.last()));
        assert(hp(q).remove(i).insert(i, out.last()).to_multiset() =~= hp(q).remove(i).to_multiset().insert(out.last()));
        assert(hp(r0).to_multiset() =~= out.to_multiset().add(hp(r).to_multiset()));
    }
}
} // mod
use dns1::*;
pub mod dns2 {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_s, sx::pat_c, st::str_bytes_bound};
//@file crates/sip-dns/src/lib.rs
impl Transport {
//@fn Transport::as_proto_str
@props P13
    ensures r@ == proto(*self),
//@end
//@fn Transport::as_service_str
@props P12,P13
    ensures r@ == svc(*self, sips),
//@end
}
//@fn validate_hostname
@props P14
    ensures r.is_ok() == host_ok(hostname@),
@entry
    proof { sl::blen_len(hostname@); }
//@end
impl DnsTarget {
//@fn DnsTarget::new
@props P12
    ensures match r { Ok(t) => t.host@ == host.tv() && t.port == port && t.transport == transport && t.priority == 0 && t.tls_name.is_none() && host_ok(host.tv()), Err(_) => !host_ok(host.tv()) },
//@end
//@fn DnsTarget::unchecked_new
@props P12,P13
    ensures r.host@ == host.tv(), r.port == port, r.transport == transport, r.priority == 0, r.tls_name.is_none(),
//@end
//@fn DnsTarget::with_priority
@props P12,P13
    ensures r == (DnsTarget { priority: priority, ..self }),
//@end
//@fn DnsTarget::with_tls_name
@props P12
    ensures r.host == self.host, r.port == self.port, r.transport == self.transport, r.priority == self.priority, r.tls_name is Some, r.tls_name->0@ == tls_name.tv(),
//@end
//@fn DnsTarget::transport
@props P12
    ensures r == self.transport,
//@end
//@fn DnsTarget::port
@props P12
    ensures r == self.port,
//@end
//@fn DnsTarget::sni
@rewrite . unwrap_or ( & self . host ) ==> .unwrap_or(self.host.as_str())
@props P12
    ensures r@ == (match self.tls_name { Some(n) => n@, None => self.host@ }),
//@end
}
//@fn enforce_target_limit
@props P13
    ensures match r { Ok(v) => v == targets && v@.len() <= 100, Err(_) => targets@.len() > 100 },
//@end
//@fn select_by_weight
@sig (records: Vec<(u16, SmolStr, u16)>) -> Vec<(SmolStr, u16)>
@rewrite result . push ( ( host , port ) ) ; ==> result.push((host, port)); proof { assert(wviews(records@) =~= rp.remove(idx as int)); assert(rng.d().drop_last() =~= d0); assert(oviews(result@).drop_last() =~= out0); assert(draws(rp, rng.d().last(), idx as int, oviews(result@).last(), wviews(records@))); if records@.len() == 0 { assert(wviews(records@) =~= Seq::empty()); } }
@props P13
    requires records@.len() <= 0xffff,
    ensures worder(wviews(records@), oviews(r@)), r@.len() == records@.len(),
@entry
    let mut records = records;
    let ghost r0 = wviews(records@); let ghost n0 = records@.len();
    proof { assert(oviews(Seq::empty()) =~= Seq::empty()); assert(wrun(r0, Seq::empty(), Seq::empty(), r0)); if records@.len() == 0 { assert(r0 =~= Seq::empty()); } }
@loop 1
    invariant wrun(r0, rng.d(), oviews(result@), wviews(records@)), records@.len() <= 0xffff, result@.len() + records@.len() == n0,
    decreases records@.len(),
@afterloop 1
    proof { assert(wviews(records@) =~= Seq::empty()); }
@loopbody 1
    let ghost rp = wviews(records@); let ghost d0 = rng.d(); let ghost out0 = oviews(result@); let ghost rv = records@;
    proof { wsum_bound(rp); }
@loop 2
    invariant i__ <= records@.len(), records@ == rv, rp == wviews(rv), records@.len() <= 0xffff, s__ as int == wsum(rp.take(i__ as int)), s__ as int <= 65535 * i__,
    decreases records@.len() - i__,
@loopbody 2
    proof { assert(rp.take(i__ + 1).drop_last() =~= rp.take(i__ as int)); }
@afterloop 2
    proof { assert(rp.take(i__ as int) =~= rp); }
@loop 3
    invariant_except_break f__.is_none(),
    invariant i__ <= records@.len(), records@ == rv, rp == wviews(rv), records@.len() <= 0xffff, cumulative as int == wsum(rp.take(if f__.is_some() { i__ + 1 } else { i__ as int })), cumulative as int <= 65535 * (i__ + 1), f__.is_none() ==> cumulative <= pick,
        f__.is_none() ==> cumulative as int <= 65535 * i__,
    ensures match f__ { Some(i) => 0 <= i < records@.len() && wsum(rp.take(i as int)) <= pick < wsum(rp.take(i + 1)), None => wsum(rp.take(records@.len() as int)) <= pick },
    decreases records@.len() - i__,
@loopbody 3
    proof { assert(rp.take(i__ + 1).drop_last() =~= rp.take(i__ as int)); }
@afterloop 3
    proof { assert(rp.take(rp.len() as int) =~= rp); }
//@end
} // mod
use dns2::*;
pub mod dns3 {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_s, sx::pat_c, st::str_bytes_bound};
//@file crates/sip-dns/src/lib.rs
/// the resolver: what it is configured to ask, and whom
//@struct SipResolver
/// the targets of an address lookup
pub open spec fn ip_targets(a: Seq<IpAddr>, port: u16, t: Transport, name: Seq<char>) -> Seq<TV>
{ Seq::new(a.len(), |i: int| TV { host: iptext(a[i]), port: port, transport: t, prio: 0, name: Some(name) }) }
pub open spec fn deft(u: SipUri) -> Transport { match want(u) { Some(t) => t, None => Transport::Udp } }
pub open spec fn order0(u: SipUri) -> Seq<Transport> { match want(u) { Some(t) => seq![t], None => seq![Transport::Tcp, Transport::Udp] } }
impl SipResolver {
//@fn SipResolver::default_transport
@props P12
    ensures r == deft(*uri),
@entry
    proof { lits(); }
//@end
//@fn SipResolver::transport_param
@props P12
    ensures !uri.sips() ==> r == want(*uri),
@entry
    proof { lits(); }
//@end
//@fn SipResolver::is_numeric_ip
@props P12
    ensures r == is_ip(host@),
//@end
//@fn SipResolver::default_transport_order
@props P12,P13
    ensures r@ == order0(*uri),
@entry
    proof { lits(); }
//@end
}
pub open spec fn naptr_answer(r: SipResolver, u: SipUri) -> Option<Seq<Record>> { ans_naptr(r.resolver, u.hostv() + "."@) }
/// rs is what the NAPTR answer offers, best first
pub open spec fn naptr_list(r: SipResolver, u: SipUri, allowed: Option<Transport>, rs: Seq<NV>) -> bool {
    match naptr_answer(r, u) { Some(a) => rs.to_multiset() == naptrs(a, allowed).to_multiset() && rs.len() > 0 && by_pref(rs), None => false }
}
pub open spec fn naptr_none(r: SipResolver, u: SipUri, allowed: Option<Transport>) -> bool {
    match naptr_answer(r, u) { Some(a) => naptrs(a, allowed).len() == 0, None => true }
}
pub open spec fn srv_answer(r: SipResolver, name: Seq<char>) -> Seq<Srv> {
    match ans_srv(r.resolver, name) { Some(a) => usable(a), None => Seq::empty() }
}
pub open spec fn addrs(r: SipResolver, host: Seq<char>) -> Seq<IpAddr> { match ans_ip(r.resolver, host) { Some(a) => eyeballs(a), None => Seq::empty() } }
/// what was gathered per priority is the grouping of the usable servers
pub open spec fn grouped(m: Map<u16, Seq<(u16, Seq<char>, u16)>>, us: Seq<Srv>) -> bool {
    forall|p: u16| mget(m, p) == #[trigger] group(us, p) && (m.contains_key(p) <==> group(us, p).len() > 0)
}
pub proof fn usable_len(a: Seq<Record>) ensures usable(a).len() <= a.len() decreases a.len() { if a.len() > 0 { usable_len(a.drop_last()); } }
pub proof fn group_len(a: Seq<Srv>, p: u16) ensures group(a, p).len() <= a.len() decreases a.len() { if a.len() > 0 { group_len(a.drop_last(), p); } }
pub proof fn group_some(a: Seq<Srv>) ensures a.len() > 0 ==> group(a, a.last().prio).len() > 0, a.len() == 0 ==> forall|p: u16| (#[trigger] group(a, p)).len() == 0 { }
pub proof fn group_push(a: Seq<Srv>, s: Srv)
    ensures forall|p: u16| #[trigger] group(a.push(s), p) == if s.prio == p { group(a, p).push((s.weight, s.host, s.port)) } else { group(a, p) }
{ assert(a.push(s).drop_last() =~= a); }
pub proof fn ofprio_push(o: Seq<TV>, t: TV)
    ensures forall|p: u16| #[trigger] ofprio(o.push(t), p) == if t.prio == p { ofprio(o, p).push((t.host, t.port)) } else { ofprio(o, p) }
{ assert(o.push(t).drop_last() =~= o); }
pub proof fn worder_nil(r: Seq<(u16, Seq<char>, u16)>) requires r.len() == 0 ensures worder(r, Seq::empty())
{ assert(r =~= Seq::empty()); assert(wrun(r, Seq::empty(), Seq::empty(), Seq::empty())); }
pub proof fn tvs_push(v: Seq<DnsTarget>, t: DnsTarget) ensures tvs(v.push(t)) == tvs(v).push(tv(t)) { assert(tvs(v.push(t)) =~= tvs(v).push(tv(t))); }
/// the items of the map in priority order: those handled so far are listed, the rest is still to come
pub open spec fn listed(us: Seq<Srv>, o: Seq<TV>, q: Seq<(u16, Vec<(u16, SmolStr, u16)>)>, t: Transport) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0 < (#[trigger] q[j]).0
    &&& forall|i: int| 0 <= i < q.len() ==> wviews((#[trigger] q[i]).1@) == group(us, q[i].0)
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).prio <= (#[trigger] o[j]).prio
    &&& forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < q.len() ==> (#[trigger] o[i]).prio < (#[trigger] q[j]).0
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).transport == t && o[i].name.is_none()
    &&& forall|p: u16| #![trigger group(us, p)] if (exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == p) { ofprio(o, p).len() == 0 } else { worder(group(us, p), ofprio(o, p)) }
}
pub open spec fn mk(d: Seq<(Seq<char>, u16)>, p: u16, t: Transport) -> Seq<TV> { Seq::new(d.len(), |i: int| TV { host: d[i].0, port: d[i].1, transport: t, prio: p, name: None }) }
/// the same with the servers of one priority partly listed
pub open spec fn listing(us: Seq<Srv>, o0: Seq<TV>, o: Seq<TV>, done: Seq<(Seq<char>, u16)>, p: u16, t: Transport) -> bool {
    o == o0 + mk(done, p, t)
}
pub proof fn lem_listing(o0: Seq<TV>, done: Seq<(Seq<char>, u16)>, p: u16, t: Transport)
    ensures forall|x: u16| #[trigger] ofprio(o0 + mk(done, p, t), x) == if x == p { ofprio(o0, x) + done } else { ofprio(o0, x) },
    decreases done.len()
{
    if done.len() == 0 { assert(o0 + mk(done, p, t) =~= o0); assert(ofprio(o0, p) + done =~= ofprio(o0, p)); }
    else {
        let d = done.drop_last();
        lem_listing(o0, d, p, t);
        let l = TV { host: done.last().0, port: done.last().1, transport: t, prio: p, name: None };
        assert(o0 + mk(done, p, t) =~= (o0 + mk(d, p, t)).push(l));
        ofprio_push(o0 + mk(d, p, t), l);
        assert((ofprio(o0, p) + d).push(done.last()) =~= ofprio(o0, p) + done);
    }
}
pub proof fn lem_group_done(us: Seq<Srv>, o0: Seq<TV>, o: Seq<TV>, out: Seq<(Seq<char>, u16)>, q: Seq<(u16, Vec<(u16, SmolStr, u16)>)>, t: Transport)
    requires q.len() > 0, listed(us, o0, q, t), listing(us, o0, o, out, q[0].0, t), worder(group(us, q[0].0), out)
    ensures listed(us, o, q.drop_first(), t)
{
    let p0 = q[0].0; let q1 = q.drop_first();
    lem_listing(o0, out, p0, t);
    assert forall|i: int, j: int| 0 <= i < j < q1.len() implies (#[trigger] q1[i]).0 < (#[trigger] q1[j]).0 by { assert(q1[i] == q[i + 1] && q1[j] == q[j + 1]); }
    assert forall|i: int| 0 <= i < q1.len() implies wviews((#[trigger] q1[i]).1@) == group(us, q1[i].0) by { assert(q1[i] == q[i + 1]); }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < q1.len() implies (#[trigger] o[i]).prio < (#[trigger] q1[j]).0 by { assert(q1[j] == q[j + 1]); if i < o0.len() { assert(o[i] == o0[i]); } else { assert(o[i].prio == p0); assert(q[0].0 < q[j + 1].0); } }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).prio <= (#[trigger] o[j]).prio by { if i < o0.len() { assert(o[i] == o0[i]); if j < o0.len() { assert(o[j] == o0[j]); } else { assert(o0[i].prio < q[0].0); } } }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).transport == t && o[i].name.is_none() by { if i < o0.len() { assert(o[i] == o0[i]); } }
    assert forall|p: u16| #![trigger group(us, p)] if (exists|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0 == p) { ofprio(o, p).len() == 0 } else { worder(group(us, p), ofprio(o, p)) } by {
        if p == p0 {
            assert(q[0].0 == p);
            assert(ofprio(o0, p).len() == 0);
            assert(ofprio(o0, p) + out =~= out);
            if exists|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0 == p { let i = choose|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0 == p; assert(q1[i] == q[i + 1]); assert(q[0].0 < q[i + 1].0); }
        } else {
            if exists|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0 == p { let i = choose|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0 == p; assert(q1[i] == q[i + 1]); }
            else if exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == p { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == p; assert(i > 0); assert(q1[i - 1] == q[i]); }
        }
    }
}
pub proof fn lem_start(us: Seq<Srv>, m: Map<u16, Seq<(u16, Seq<char>, u16)>>, q: Seq<(u16, Vec<(u16, SmolStr, u16)>)>, t: Transport)
    requires grouped(m, us),
        forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0 < (#[trigger] q[j]).0,
        forall|i: int| 0 <= i < q.len() ==> m.contains_key((#[trigger] q[i]).0) && wviews(q[i].1@) == m[q[i].0],
        forall|k: u16| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k,
    ensures listed(us, Seq::empty(), q, t)
{
    assert forall|p: u16| #![trigger group(us, p)] if (exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == p) { ofprio(Seq::empty(), p).len() == 0 } else { worder(group(us, p), ofprio(Seq::empty(), p)) } by {
        if !(exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == p) { assert(!m.contains_key(p)); worder_nil(group(us, p)); }
    }
}
pub proof fn lem_end(us: Seq<Srv>, o: Seq<TV>, q: Seq<(u16, Vec<(u16, SmolStr, u16)>)>, t: Transport)
    requires q.len() == 0, listed(us, o, q, t)
    ensures srv_list(us, t, o), (o.len() == 0) == (us.len() == 0)
{
    if us.len() > 0 {
        let p = us.last().prio; group_some(us);
        assert(worder(group(us, p), ofprio(o, p)));
        let ks = choose|ks: Seq<int>| #[trigger] wrun(group(us, p), ks, ofprio(o, p), Seq::empty());
        thm_perm(group(us, p), ks, ofprio(o, p), Seq::empty());
        assert(ofprio(o, p).len() > 0);
    } else if o.len() > 0 {
        let p = o.last().prio;
        assert(worder(group(us, p), ofprio(o, p)));
        let ks = choose|ks: Seq<int>| #[trigger] wrun(group(us, p), ks, ofprio(o, p), Seq::empty());
        thm_perm(group(us, p), ks, ofprio(o, p), Seq::empty());
        group_some(us);
    }
}
pub ghost struct Query { pub name: Seq<char>, pub transport: Transport }
pub open spec fn flat(v: Seq<Seq<TV>>) -> Seq<TV> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() } }
/// a NAPTR replacement is the name of the SRV records itself (RFC 3263 4.1)
pub open spec fn nq(r: NV, h: Seq<char>, sips: bool) -> Query { Query { name: match r.repl { Some(t) => t, None => srv_name(r.transport, sips, h) }, transport: r.transport } }
pub open spec fn nqs(rs: Seq<NV>, h: Seq<char>, sips: bool) -> Seq<Query> { Seq::new(rs.len(), |i: int| nq(rs[i], h, sips)) }
pub open spec fn dqs(ts: Seq<Transport>, h: Seq<char>, sips: bool) -> Seq<Query> { Seq::new(ts.len(), |i: int| Query { name: srv_name(ts[i], sips, h), transport: ts[i] }) }
/// one service: all its servers, listed as srv_list says
pub open spec fn seg_ok(r: SipResolver, q: Query, seg: Seq<TV>) -> bool {
    let us = srv_answer(r, q.name);
    if us.len() == 0 { seg.len() == 0 } else { srv_list(us, q.transport, seg) }
}
pub open spec fn segs_ok(r: SipResolver, qs: Seq<Query>, segs: Seq<Seq<TV>>) -> bool {
    qs.len() == segs.len() && forall|i: int| 0 <= i < qs.len() ==> seg_ok(r, #[trigger] qs[i], segs[i])
}
pub proof fn lem_segs(r: SipResolver, qs: Seq<Query>, segs: Seq<Seq<TV>>, q: Query, seg: Seq<TV>) requires segs_ok(r, qs, segs), seg_ok(r, q, seg) ensures segs_ok(r, qs.push(q), segs.push(seg))
{ assert forall|i: int| 0 <= i < qs.push(q).len() implies seg_ok(r, #[trigger] qs.push(q)[i], segs.push(seg)[i]) by { if i < qs.len() { assert(qs.push(q)[i] == qs[i]); } } }
/// the services asked, in order: those NAPTR offers by preference, else the defaults
pub open spec fn asked(r: SipResolver, u: SipUri, rs: Seq<NV>, qs: Seq<Query>) -> bool {
    if r.enable_naptr && !naptr_none(r, u, want(u)) { naptr_list(r, u, want(u), rs) && qs == nqs(rs, u.hostv(), u.sips()) } else { qs == dqs(order0(u), u.hostv(), u.sips()) }
}
pub open spec fn located(r: SipResolver, u: SipUri, rs: Seq<NV>, qs: Seq<Query>, segs: Seq<Seq<TV>>, out: Seq<TV>) -> bool {
    &&& asked(r, u, rs, qs)
    &&& segs_ok(r, qs, segs)
    &&& out == if flat(segs).len() > 0 { flat(segs) } else { ip_targets(addrs(r, u.hostv()), dport(u), deft(u), u.hostv()) }
}
/// everything that serves the URI, in the order it is to be tried (RFC 3263)
pub open spec fn found(r: SipResolver, u: SipUri, out: Seq<TV>) -> bool {
    if is_ip(u.hostv()) { out == seq![TV { host: u.hostv(), port: dport(u), transport: deft(u), prio: 0, name: None }] }
    else if u.portv().is_some() { out == ip_targets(addrs(r, u.hostv()), dport(u), deft(u), u.hostv()) }
    else { exists|rs: Seq<NV>, qs: Seq<Query>, segs: Seq<Seq<TV>>| #[trigger] located(r, u, rs, qs, segs, out) }
}
/// the answer: everything found, or a refusal when there is nothing or more than the documented limit
pub open spec fn resolves(r: SipResolver, u: SipUri, o: Option<Seq<TV>>) -> bool {
    exists|out: Seq<TV>| #[trigger] found(r, u, out) && o == if 0 < out.len() <= 100 { Some(out) } else { None }
}
/// THEOREM (P12): a target honours what the URI insists on; for sips that is TLS
pub open spec fn target_ok(u: SipUri, t: DnsTarget) -> bool {
    &&& (u.sips() ==> tls(t.transport))
    &&& (want(u) matches Some(w) ==> t.transport == w)
    &&& (u.portv() matches Some(p) ==> t.port == p)
}
pub proof fn lem_naptrs_tr(a: Seq<Record>, al: Option<Transport>) ensures al matches Some(t) ==> forall|i: int| 0 <= i < naptrs(a, al).len() ==> (#[trigger] naptrs(a, al)[i]).transport == t decreases a.len()
{ if a.len() > 0 { lem_naptrs_tr(a.drop_last(), al); } }
pub proof fn lem_sorted(v0: Seq<NaptrRecord>, v: Seq<NaptrRecord>)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> naptr_derived(#[trigger] v[i], #[trigger] v[j])
    ensures by_pref(nvs(v))
{
    assert forall|i: int, j: int| 0 <= i < j < nvs(v).len() implies before(#[trigger] nvs(v)[i], #[trigger] nvs(v)[j]) by { assert(naptr_derived(v[i], v[j])); }
}
pub proof fn lem_allowed(a: Seq<Record>, al: Option<Transport>, v: Seq<NaptrRecord>)
    requires nvs(v).to_multiset() == naptrs(a, al).to_multiset()
    ensures al matches Some(t) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).transport == t
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lem_naptrs_tr(a, al);
    if let Some(t) = al {
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).transport == t by {
            nvs(v).to_multiset_ensures(); naptrs(a, al).to_multiset_ensures(); assert(nvs(v).contains(nvs(v)[i])); assert(nvs(v).to_multiset().count(nvs(v)[i]) > 0); assert(naptrs(a, al).contains(nvs(v)[i]));
            let k = choose|k: int| 0 <= k < naptrs(a, al).len() && naptrs(a, al)[k] == nvs(v)[i];
            assert(naptrs(a, al)[k].transport == t);
        }
    }
}
impl SipResolver {
//@fn SipResolver::srv_name
@props P12,P13
@fmt
    ensures r@ == srv_name(transport, sips, host@),
//@end
//@fn SipResolver::lookup_srv
@props P12,P13
@fmt
@prewrite for ( priority , records ) in priority_groups { $*b } ==> let ghost m0 = priority_groups@; let mut q__ = priority_groups.x_items(); proof { assert(tvs(targets@) =~= Seq::empty()); lem_start(us, m0, q__@, transport); } while q__.len() > 0 { let (priority, records) = q__.remove(0); $b }
@rewrite let weighted = select_by_weight ( records ) ; ==> let weighted = select_by_weight(records); let ghost out0 = oviews(weighted@); proof { assert(out0.take(0) =~= Seq::empty()); assert(out0.skip(0) =~= out0); assert(o0 + mk(Seq::empty(), priority, transport) =~= o0); }
@rewrite targets . push ( $*x ) ; ==> targets.push($x); proof { let k = out0.len() - q__@.len(); assert(q__@ =~= qi.drop_first()); assert(oviews(qi)[0] == (host@, port)); assert(oviews(q__@) =~= oviews(qi).drop_first()); tvs_push(t0, targets@.last()); assert(targets@ =~= t0.push(targets@.last())); assert(out0.take(k) =~= out0.take(k - 1).push(out0[k - 1])); assert(out0.skip(k - 1)[0] == out0[k - 1]); assert(oviews(q__@) =~= out0.skip(k)); assert(tvs(targets@) =~= o0 + mk(out0.take(k), priority, transport)); }
    ensures match r { Ok(v) => srv_list(srv_answer(*self, srv_name@), transport, tvs(v@)) && v@.len() > 0 && srv_answer(*self, srv_name@).len() > 0 && (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).transport == transport), Err(_) => srv_answer(*self, srv_name@).len() == 0 },
@loop 1
    invariant a__ <= an__@.len(), an__@ == lookup@, an__@.len() <= 0xffff, grouped(priority_groups@, usable(an__@.take(a__ as int))),
    decreases an__@.len() - a__,
@loopbody 1
    proof { assert(an__@.take(a__ + 1).drop_last() =~= an__@.take(a__ as int)); }
    let ghost u0 = usable(an__@.take(a__ as int));
    proof { match srv_of(an__@[a__ as int]) { Some(s) => { group_push(u0, s); } None => {} } }
@afterloop 1
    proof { assert(an__@.take(a__ as int) =~= an__@); }
    let ghost us = usable(an__@);
    proof { usable_len(an__@); }
@loop 2
    invariant listed(us, tvs(targets@), q__@, transport), us.len() <= 0xffff,
    decreases q__@.len(),
@afterloop 2
    proof { lem_end(us, tvs(targets@), q__@, transport); assert forall|i: int| 0 <= i < targets@.len() implies (#[trigger] targets@[i]).transport == transport by { assert(tvs(targets@)[i].transport == transport); } }
@loopbody 2
    let ghost qo = q__@; let ghost o0 = tvs(targets@);
    proof { group_len(us, qo[0].0); }
@loopbody 3
    let ghost qi = q__@; let ghost t0 = targets@;
@loop 3
    invariant listing(us, o0, tvs(targets@), out0.take(out0.len() - q__@.len()), priority, transport), oviews(q__@) == out0.skip(out0.len() - q__@.len()), q__@.len() <= out0.len(),
    decreases q__@.len(),
@afterloop 3
    proof { assert(out0.take(out0.len() as int) =~= out0); lem_group_done(us, o0, tvs(targets@), out0, qo, transport); }
//@end
//@fn SipResolver::lookup_naptr
@props P12,P13
@fmt
@rewrite records . push ( $*x ) ; ==> records.push($x); proof { assert(nvs(records@) =~= nvs(rv0).push(nv(records@.last()))); }
    ensures match r {
        Ok(v) => naptr_list(*self, *uri, allowed_transport, nvs(v@)) && !naptr_none(*self, *uri, allowed_transport) && (allowed_transport matches Some(t) ==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).transport == t),
        Err(_) => naptr_none(*self, *uri, allowed_transport) },
@loop 1
    invariant a__ <= an__@.len(), an__@ == lookup@, nvs(records@) == naptrs(an__@.take(a__ as int), allowed_transport),
    decreases an__@.len() - a__,
@loopbody 1
    proof { assert(an__@.take(a__ + 1).drop_last() =~= an__@.take(a__ as int)); }
    let ghost rv0 = records@;
@afterloop 1
    proof { assert(an__@.take(a__ as int) =~= an__@); }
    let ghost rv1 = records@;
@rewrite x_sort_naptr ( & mut records ) ; ==> x_sort_naptr(&mut records); proof { lem_sorted(rv1, records@); lem_allowed(an__@, allowed_transport, records@); }
//@end
//@fn SipResolver::lookup_a_aaaa
@props P12,P13
@fmt
    ensures match r { Ok(v) => v@ == addrs(*self, host@) && v@.len() > 0, Err(_) => addrs(*self, host@).len() == 0 },
@loop 1
    invariant a__ <= an__@.len(), an__@ == lookup.ipv(), ipv6_addrs@ == v6s(an__@.take(a__ as int)), ipv4_addrs@ == v4s(an__@.take(a__ as int)),
    decreases an__@.len() - a__,
@loopbody 1
    proof { assert(an__@.take(a__ + 1).drop_last() =~= an__@.take(a__ as int)); }
@afterloop 1
    proof { assert(an__@.take(a__ as int) =~= an__@); }
@loop 2
    invariant result@ == inter(ipv6_addrs@, ipv4_addrs@, i as int), max_len == imax(ipv6_addrs@.len() as int, ipv4_addrs@.len() as int),
@afterloop 2
    proof { assert(result@ == eyeballs(an__@)); }
//@end
//@fn SipResolver::resolve_internal
@props P12,P13
@prewrite for record in records { $*b } ==> proof { rs0 = nvs(records@); assert(nqs(rs0, host@, uri.sips()).take(0) =~= Seq::empty()); assert(rs0.skip(0) =~= rs0); } let mut q__ = records; while q__.len() > 0 { let ghost segs0 = segs; let ghost qi = q__@; let record = q__.remove(0); let ghost q1 = nq(nv(record), host@, uri.sips()); proof { assert(nvs(qi)[0] == nv(record)); assert(nvs(q__@) =~= nvs(qi).drop_first()); let k = segs0.len() as int; assert(nqs(rs0, host@, uri.sips()).take(k + 1) =~= nqs(rs0, host@, uri.sips()).take(k).push(q1)) by { assert(rs0.skip(k)[0] == rs0[k]); } assert(rs0.skip(k + 1) =~= rs0.skip(k).drop_first()); assert(qi[0].transport == record.transport); } $b }
@prewrite for transport in transports { $*b } ==> let ghost ts0 = transports@; proof { assert(dqs(ts0, host@, uri.sips()).take(0) =~= Seq::empty()); assert(ts0.skip(0) =~= ts0); } let mut q__ = transports; while q__.len() > 0 { let ghost segs0 = segs; let ghost qi = q__@; let transport = q__.remove(0); let ghost q1 = Query { name: srv_name(transport, uri.sips(), host@), transport: transport }; proof { let k = segs0.len() as int; assert(q__@ =~= qi.drop_first()); assert(dqs(ts0, host@, uri.sips()).take(k + 1) =~= dqs(ts0, host@, uri.sips()).take(k).push(q1)) by { assert(ts0.skip(k)[0] == ts0[k]); } assert(ts0.skip(k + 1) =~= ts0.skip(k).drop_first()); } $b }
@prewrite for ip in ips { $*b } ==> let ghost al0 = ips@; proof { assert(al0.skip(0) =~= al0); assert(al0.take(0) =~= Seq::empty()); assert(tvs(all_targets@) =~= ip_targets(al0.take(0), default_port, deft(*uri), host@)); } let mut q__ = ips; while q__.len() > 0 { let ghost qi = q__@; let ghost t0 = all_targets@; let ip = q__.remove(0); $b; proof { let k = al0.len() - q__@.len(); assert(al0.skip(k - 1)[0] == al0[k - 1]); assert(q__@ =~= al0.skip(k)); tvs_push(t0, all_targets@.last()); assert(all_targets@ =~= t0.push(all_targets@.last())); assert(ip_targets(al0.take(k), default_port, deft(*uri), host@) =~= ip_targets(al0.take(k - 1), default_port, deft(*uri), host@).push(tv(all_targets@.last()))); } }
@prewrite ips . into_iter ( ) . map ( | ip | $*c ) . collect ( ) ==> { let ghost al0 = ips@; proof { assert(al0.skip(0) =~= al0); assert(al0.take(0) =~= Seq::empty()); } let mut q__ = ips; let mut o__: Vec<DnsTarget> = Vec::new(); proof { assert(tvs(o__@) =~= ip_targets(al0.take(0), port, deft(*uri), host@)); } while q__.len() > 0 { let ghost qi = q__@; let ghost t0 = o__@; let ip = q__.remove(0); let y__ = $c; o__.push(y__); proof { let k = al0.len() - q__@.len(); assert(al0.skip(k - 1)[0] == al0[k - 1]); assert(q__@ =~= al0.skip(k)); tvs_push(t0, o__@.last()); assert(o__@ =~= t0.push(o__@.last())); assert(ip_targets(al0.take(k), port, deft(*uri), host@) =~= ip_targets(al0.take(k - 1), port, deft(*uri), host@).push(tv(o__@.last()))); } } proof { assert(al0.take(al0.len() as int) =~= al0); assert(found(*self, *uri, tvs(o__@))); } o__ }
@prewrite let mut all_targets = Vec :: new ( ) ; ==> let mut all_targets: Vec<DnsTarget> = Vec::new(); let ghost mut qs: Seq<Query> = Seq::empty(); let ghost mut segs: Seq<Seq<TV>> = Seq::empty(); let ghost mut rs0: Seq<NV> = Seq::empty(); proof { assert(tvs(all_targets@) =~= Seq::empty()); assert(flat(Seq::<Seq<TV>>::empty()) =~= Seq::empty()); }
@rewrite if let Ok ( targets ) = self . lookup_srv ( $*x ) { all_targets . x_extend ( targets ) ; } ==> let ghost a0 = all_targets@; let ghost mut seg: Seq<TV> = Seq::empty(); if let Ok(targets) = self.lookup_srv($x) { proof { seg = tvs(targets@); } all_targets.x_extend(targets); } proof { lem_segs(*self, qs, segs, q1, seg); qs = qs.push(q1); segs = segs.push(seg); assert(tvs(all_targets@) =~= tvs(a0) + seg); assert(segs.drop_last() =~= segs0); }
@rewrite let ips = self . lookup_a_aaaa ( host ) ? ; return ==> let ips = match self.lookup_a_aaaa(host) { Ok(v__) => v__, Err(e__) => { proof { assert(ip_targets(addrs(*self, host@), port, deft(*uri), host@) =~= Seq::empty()); assert(found(*self, *uri, Seq::empty())); } return Err(e__); } }; return
@rewrite let default_port = $*d ; let ips = self . lookup_a_aaaa ( host ) ? ; ==> let default_port: u16 = $d; let ips = match self.lookup_a_aaaa(host) { Ok(v__) => v__, Err(e__) => { proof { assert(ip_targets(addrs(*self, host@), default_port, deft(*uri), host@) =~= Seq::empty()); assert(located(*self, *uri, rs0, qs, segs, Seq::empty())); assert(found(*self, *uri, Seq::empty())); } return Err(e__); } };
@rewrite if all_targets . is_empty ( ) { Err ( AErr ) } ==> proof { assert(located(*self, *uri, rs0, qs, segs, tvs(all_targets@))); assert(found(*self, *uri, tvs(all_targets@))); } if all_targets.is_empty() { Err(AErr) }
@rewrite return enforce_target_limit ( vec ! [ $*x ] ) ; ==> let one__ = vec![$x]; proof { assert(tvs(one__@) =~= seq![TV { host: host@, port: dport(*uri), transport: deft(*uri), prio: 0, name: None }]); assert(found(*self, *uri, tvs(one__@))); } return enforce_target_limit(one__);
    ensures resolves(*self, *uri, match r { Ok(v) => Some(tvs(v@)), Err(_) => None }),
        match r { Ok(v) => forall|i: int| 0 <= i < v@.len() ==> target_ok(*uri, #[trigger] v@[i]), Err(_) => true },
@loop 1
    invariant tvs(o__@) == ip_targets(al0.take(al0.len() - q__@.len()), port, deft(*uri), host@), q__@ == al0.skip(al0.len() - q__@.len()), q__@.len() <= al0.len(),
        host@ == uri.hostv(), forall|i: int| 0 <= i < o__@.len() ==> (#[trigger] o__@[i]).transport == deft(*uri) && o__@[i].port == port,
    decreases q__@.len(),
@loop 2
    invariant host@ == uri.hostv(), segs.len() == rs0.len() - q__@.len(), nvs(q__@) == rs0.skip(segs.len() as int), qs == nqs(rs0, host@, uri.sips()).take(segs.len() as int), segs_ok(*self, qs, segs), tvs(all_targets@) == flat(segs),
        want(*uri) matches Some(t) ==> (forall|i: int| 0 <= i < q__@.len() ==> (#[trigger] q__@[i]).transport == t) && (forall|i: int| 0 <= i < all_targets@.len() ==> (#[trigger] all_targets@[i]).transport == t),
    decreases q__@.len(),
@afterloop 2
    proof { assert(nqs(rs0, host@, uri.sips()).take(rs0.len() as int) =~= nqs(rs0, host@, uri.sips())); assert(asked(*self, *uri, rs0, qs)); }
@loop 3
    invariant host@ == uri.hostv(), segs.len() == ts0.len() - q__@.len(), q__@ == ts0.skip(segs.len() as int), qs == dqs(ts0, host@, uri.sips()).take(segs.len() as int), segs_ok(*self, qs, segs), tvs(all_targets@) == flat(segs),
        want(*uri) matches Some(t) ==> (forall|i: int| 0 <= i < q__@.len() ==> #[trigger] q__@[i] == t) && (forall|i: int| 0 <= i < all_targets@.len() ==> (#[trigger] all_targets@[i]).transport == t),
    decreases q__@.len(),
@afterloop 3
    proof { assert(dqs(ts0, host@, uri.sips()).take(ts0.len() as int) =~= dqs(ts0, host@, uri.sips())); assert(asked(*self, *uri, rs0, qs)); }
@loop 4
    invariant tvs(all_targets@) == ip_targets(al0.take(al0.len() - q__@.len()), default_port, deft(*uri), host@), q__@ == al0.skip(al0.len() - q__@.len()), q__@.len() <= al0.len(),
        host@ == uri.hostv(), forall|i: int| 0 <= i < all_targets@.len() ==> (#[trigger] all_targets@[i]).transport == deft(*uri),
    decreases q__@.len(),
@afterloop 4
    proof { assert(al0.take(al0.len() as int) =~= al0); }
//@end
}
} // mod
use dns3::*;
pub mod dns4 {
use super::*;
use vstd::utf8::encode_utf8;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_s, sx::pat_c, st::str_bytes_bound};
//@file crates/sip-dns/src/lib.rs
//@enum DhcpSipServer
//@struct TftpServerName
// ---------------- specification: DHCP options ----------------
pub ghost enum SV { D(Seq<char>), V4(Seq<u8>) }
pub open spec fn sv(s: DhcpSipServer) -> SV { match s { DhcpSipServer::Domain(d) => SV::D(d@), DhcpSipServer::Ipv4(a) => SV::V4(a@) } }
pub open spec fn svs(v: Seq<DhcpSipServer>) -> Seq<SV> { Seq::new(v.len(), |i: int| sv(v[i])) }
pub open spec fn quads(d: Seq<u8>) -> Seq<Seq<u8>> decreases d.len() { if d.len() < 4 { Seq::empty() } else { quads(d.take(d.len() - 4)).push(d.skip(d.len() - 4)) } }
pub open spec fn v4s_of(q: Seq<Seq<u8>>) -> Seq<SV> { Seq::new(q.len(), |i: int| SV::V4(q[i])) }
/// a label on the wire: UTF-8 text without a dot
pub open spec fn label_of(b: Seq<u8>) -> Option<Seq<char>> { match utf8(b) { Some(t) => if t.contains('.') { None } else { Some(t) }, None => None } }
/// the labels of the name at pos, and where it ends
pub open spec fn dlabels(d: Seq<u8>, pos: int, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, int)> decreases d.len() - pos
{
    if pos < 0 || pos >= d.len() { None } else {
        let l = d[pos] as int;
        if l == 0 { Some((acc, pos + 1)) } else if l > 63 || pos + 1 + l > d.len() { None }
        else { match label_of(d.subrange(pos + 1, pos + 1 + l)) { Some(t) => dlabels(d, pos + 1 + l, acc.push(t)), None => None } }
    }
}
pub proof fn dlabels_ahead(d: Seq<u8>, pos: int, acc: Seq<Seq<char>>)
    ensures dlabels(d, pos, acc) matches Some((ls, p)) ==> pos < p <= d.len() decreases d.len() - pos
{ if 0 <= pos < d.len() { let l = d[pos] as int; if l != 0 && l <= 63 && pos + 1 + l <= d.len() { match label_of(d.subrange(pos + 1, pos + 1 + l)) { Some(t) => dlabels_ahead(d, pos + 1 + l, acc.push(t)), None => {} } } } }
pub open spec fn dots() -> Seq<char> { "."@ }
/// a Rust slice occupies at most isize::MAX bytes
#[verifier::external_body] pub proof fn slice_bound(d: &[u8]) ensures d@.len() <= isize::MAX {}
/// the names from pos on
pub open spec fn dnames(d: Seq<u8>, pos: int, acc: Seq<SV>) -> Option<Seq<SV>> decreases d.len() - pos via dnames_dec
{
    if pos >= d.len() { Some(acc) } else {
        match dlabels(d, pos, Seq::empty()) {
            Some((ls, p)) => if ls.len() == 0 || !host_ok(join(ls, dots())) { None } else { dnames(d, p, acc.push(SV::D(join(ls, dots())))) },
            None => None,
        }
    }
}
#[via_fn] proof fn dnames_dec(d: Seq<u8>, pos: int, acc: Seq<SV>) { dlabels_ahead(d, pos, Seq::empty()); }
/// what a DHCP option 120 says
pub open spec fn opt120(d: Seq<u8>) -> Option<Seq<SV>> {
    if d.len() == 0 { None } else if d[0] == 0 { match dnames(d.skip(1), 0, Seq::empty()) { Some(v) => if v.len() == 0 { None } else { Some(v) }, None => None } }
    else if d[0] == 1 { if d.skip(1).len() % 4 != 0 || d.skip(1).len() == 0 { None } else { Some(v4s_of(quads(d.skip(1)))) } } else { None }
}
pub open spec fn aviews(v: Seq<Ipv4Addr>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
/// std::str::contains(char)
pub proof fn occ_c(s: Seq<char>, c: char) ensures sx::occ(s, sx::Pat::C(c)) == s.contains(c)
{ if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(sx::at(s, sx::Pat::C(c), i)); } else if sx::occ(s, sx::Pat::C(c)) { let i = choose|i: int| #[trigger] sx::at(s, sx::Pat::C(c), i); assert(s[i] == c); } }
//@fn parse_dhcp_option_66
@props P14
    ensures match r { Ok(n) => data@.len() > 0 && n.0@ == lossy(data@), Err(_) => data@.len() == 0 },
@rewrite SmolStr :: new ( server_name ) ==> SmolStr::from_string(server_name)
//@end
//@fn parse_dhcp_option_150
@props P14
    ensures match r { Ok(v) => data@.len() > 0 && data@.len() % 4 == 0 && aviews(v@) == quads(data@), Err(_) => data@.len() == 0 || data@.len() % 4 != 0 },
@entry
    proof { assert(data@.take(0) =~= Seq::empty()); }
@rewrite servers . push ( $*x ) ; ==> servers.push($x); proof { let p = data@.take(c__ as int); assert(p.take(p.len() - 4) =~= data@.take(c__ - 4)); assert(p.skip(p.len() - 4) =~= seq![chunk[0], chunk[1], chunk[2], chunk[3]]); assert(aviews(servers@) =~= aviews(sv0).push(p.skip(p.len() - 4))); }
@loop 1
    invariant c__ <= data@.len(), c__ % 4 == 0, aviews(servers@) == quads(data@.take(c__ as int)), (c__ > 0) == (servers@.len() > 0), data@.len() % 4 == 0,
    decreases data@.len() - c__,
@loopbody 1
    let ghost sv0 = servers@;
@afterloop 1
    proof { assert(data@.take(c__ as int) =~= data@); }
//@end
//@fn parse_dhcp_ipv4_addresses
@props P14
    ensures match r { Ok(v) => data@.len() > 0 && data@.len() % 4 == 0 && svs(v@) == v4s_of(quads(data@)), Err(_) => data@.len() == 0 || data@.len() % 4 != 0 },
@entry
    proof { assert(data@.take(0) =~= Seq::empty()); assert(v4s_of(quads(data@.take(0))) =~= Seq::empty()); }
@rewrite servers . push ( $*x ) ; ==> servers.push($x); proof { let p = data@.take(c__ as int); assert(p.take(p.len() - 4) =~= data@.take(c__ - 4)); assert(p.skip(p.len() - 4) =~= seq![chunk[0], chunk[1], chunk[2], chunk[3]]); assert(svs(servers@) =~= svs(sv0).push(SV::V4(p.skip(p.len() - 4)))); assert(v4s_of(quads(p)) =~= v4s_of(quads(data@.take(c__ - 4))).push(SV::V4(p.skip(p.len() - 4)))); }
@loop 1
    invariant c__ <= data@.len(), c__ % 4 == 0, svs(servers@) == v4s_of(quads(data@.take(c__ as int))), (c__ > 0) == (servers@.len() > 0), data@.len() % 4 == 0,
    decreases data@.len() - c__,
@loopbody 1
    let ghost sv0 = servers@;
@afterloop 1
    proof { assert(data@.take(c__ as int) =~= data@); }
//@end
//@fn parse_dhcp_domain_names
@props P14
@prewrite let mut labels = Vec :: new ( ) ; ==> let mut labels: Vec<String> = Vec::new();
@rewrite SmolStr :: new ( domain ) ==> SmolStr::from_string(domain)
@rewrite label . contains ( '.' ) ==> x_has(label, '.')
@rewrite validate_hostname ( & domain ) ? ; ==> if validate_hostname(domain.as_str()).is_err() { return Err(AErr); }
@rewrite labels . push ( label . to_string ( ) ) ; ==> labels.push(label.to_string()); proof { assert(sviews(labels@) =~= sviews(lb0).push(label@)); }
@rewrite servers . push ( DhcpSipServer :: Domain ( $*x ) ) ; ==> servers.push(DhcpSipServer::Domain($x)); proof { assert(svs(servers@) =~= svs(sv0).push(sv(servers@.last()))); }
    ensures match r { Ok(v) => dnames(data@, 0, Seq::empty()) == Some(svs(v@)) && v@.len() > 0, Err(_) => match dnames(data@, 0, Seq::empty()) { Some(v) => v.len() == 0, None => true } },
@entry
    proof { slice_bound(data); }
    proof { assert(svs(Seq::empty()) =~= Seq::empty()); }
@loop 1
    invariant data@.len() <= isize::MAX, 0 <= pos <= data@.len(), dnames(data@, 0, Seq::empty()) == dnames(data@, pos as int, svs(servers@)),
    decreases data@.len() - pos,
@loopbody 1
    let ghost p0 = pos as int; let ghost sv0 = servers@;
    proof { assert(sviews(Seq::empty()) =~= Seq::empty()); }
@loop 2
    invariant_except_break dlabels(data@, p0, Seq::empty()) == dlabels(data@, pos as int, sviews(labels@)),
    invariant data@.len() <= isize::MAX, 0 <= p0 <= pos <= data@.len(), p0 < data@.len(), dnames(data@, 0, Seq::empty()) == dnames(data@, p0, svs(servers@)), servers@ == sv0,
    ensures dlabels(data@, p0, Seq::empty()) == Some((sviews(labels@), pos as int)), p0 < pos,
    decreases data@.len() - pos,
@loopbody 2
    let ghost lb0 = labels@;
//@end
//@fn parse_dhcp_option_120
@props P14
    ensures match r { Ok(v) => opt120(data@) == Some(svs(v@)), Err(_) => opt120(data@).is_none() },
//@end
#[verifier::external_body] pub fn x_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
// ---------------- theorems: encoding a legal list and decoding it gives it back ----------------
pub open spec fn wlabel(t: Seq<char>) -> Seq<u8> { seq![encode_utf8(t).len() as u8] + encode_utf8(t) }
pub open spec fn wlabels(n: Seq<Seq<char>>) -> Seq<u8> decreases n.len() { if n.len() == 0 { seq![0u8] } else { wlabel(n[0]) + wlabels(n.drop_first()) } }
pub open spec fn wnames(ns: Seq<Seq<Seq<char>>>) -> Seq<u8> decreases ns.len() { if ns.len() == 0 { Seq::empty() } else { wlabels(ns[0]) + wnames(ns.drop_first()) } }
pub open spec fn legal_label(t: Seq<char>) -> bool { 1 <= encode_utf8(t).len() <= 63 && !t.contains('.') }
pub open spec fn legal_name(n: Seq<Seq<char>>) -> bool { n.len() > 0 && (forall|i: int| 0 <= i < n.len() ==> legal_label(#[trigger] n[i])) && host_ok(join(n, dots())) }
pub open spec fn joined(ns: Seq<Seq<Seq<char>>>) -> Seq<SV> { Seq::new(ns.len(), |i: int| SV::D(join(ns[i], dots()))) }
pub proof fn utf8_of(t: Seq<char>) ensures utf8(encode_utf8(t)) == Some(t)
{
    let u = choose|u: Seq<char>| #[trigger] encode_utf8(u) == encode_utf8(t);
    assert(encode_utf8(t) == encode_utf8(t));
    vstd::utf8::encode_utf8_decode_utf8(t); vstd::utf8::encode_utf8_decode_utf8(u);
}
pub proof fn lem_labels(d: Seq<u8>, pos: int, n: Seq<Seq<char>>, acc: Seq<Seq<char>>)
    requires 0 <= pos, pos + wlabels(n).len() <= d.len(), d.subrange(pos, pos + wlabels(n).len()) == wlabels(n), forall|i: int| 0 <= i < n.len() ==> legal_label(#[trigger] n[i]),
    ensures dlabels(d, pos, acc) == Some((acc + n, pos + wlabels(n).len()))
    decreases n.len()
{
    let w = wlabels(n);
    if n.len() == 0 { assert(w.len() == 1); assert(d.subrange(pos, pos + 1)[0] == d[pos]); assert(acc + n =~= acc); }
    else {
        let t = n[0]; let m = n.drop_first(); let l = encode_utf8(t).len() as int;
        assert(legal_label(n[0]));
        assert(w =~= wlabel(t) + wlabels(m));
        assert(wlabels(m).len() >= 1) by { if m.len() > 0 { } }
        assert(d.subrange(pos, pos + w.len())[0] == d[pos]);
        assert(w[0] == l as u8);
        assert(d.subrange(pos + 1, pos + 1 + l) =~= encode_utf8(t)) by {
            assert forall|i: int| 0 <= i < l implies d[pos + 1 + i] == encode_utf8(t)[i] by { assert(d.subrange(pos, pos + w.len())[1 + i] == d[pos + 1 + i]); assert(w[1 + i] == wlabel(t)[1 + i]); }
        }
        utf8_of(t);
        assert(d.subrange(pos + 1 + l, pos + 1 + l + wlabels(m).len()) =~= wlabels(m)) by {
            assert forall|i: int| 0 <= i < wlabels(m).len() implies d[pos + 1 + l + i] == wlabels(m)[i] by { assert(d.subrange(pos, pos + w.len())[1 + l + i] == d[pos + 1 + l + i]); assert(w[1 + l + i] == wlabels(m)[i]); }
        }
        assert forall|i: int| 0 <= i < m.len() implies legal_label(#[trigger] m[i]) by { assert(m[i] == n[i + 1]); }
        lem_labels(d, pos + 1 + l, m, acc.push(t));
        assert(acc.push(t) + m =~= acc + n);
    }
}
pub proof fn lem_names(d: Seq<u8>, pos: int, ns: Seq<Seq<Seq<char>>>, acc: Seq<SV>)
    requires 0 <= pos, d.len() == pos + wnames(ns).len(), d.skip(pos) == wnames(ns), forall|i: int| 0 <= i < ns.len() ==> legal_name(#[trigger] ns[i]),
    ensures dnames(d, pos, acc) == Some(acc + joined(ns))
    decreases ns.len()
{
    if ns.len() == 0 { assert(acc + joined(ns) =~= acc); }
    else {
        let n = ns[0]; let ms = ns.drop_first(); let w = wlabels(n);
        assert(legal_name(ns[0]));
        assert(wnames(ns) =~= w + wnames(ms));
        assert(w.len() >= 1);
        assert(d.subrange(pos, pos + w.len()) =~= w) by { assert forall|i: int| 0 <= i < w.len() implies d[pos + i] == w[i] by { assert(d.skip(pos)[i] == d[pos + i]); assert(wnames(ns)[i] == w[i]); } }
        lem_labels(d, pos, n, Seq::empty());
        assert(Seq::<Seq<char>>::empty() + n =~= n);
        assert(d.skip(pos + w.len()) =~= wnames(ms)) by { assert forall|i: int| 0 <= i < wnames(ms).len() implies d[pos + w.len() + i] == wnames(ms)[i] by { assert(d.skip(pos)[w.len() + i] == d[pos + w.len() + i]); assert(wnames(ns)[w.len() + i] == wnames(ms)[i]); } }
        assert forall|i: int| 0 <= i < ms.len() implies legal_name(#[trigger] ms[i]) by { assert(ms[i] == ns[i + 1]); }
        lem_names(d, pos + w.len(), ms, acc.push(SV::D(join(n, dots()))));
        assert(acc.push(SV::D(join(n, dots()))) + joined(ms) =~= acc + joined(ns));
        dlabels_ahead(d, pos, Seq::empty());
    }
}
/// THEOREM (P14): encoding a legal, non-empty list of names and decoding it gives the list back
pub proof fn thm_names(ns: Seq<Seq<Seq<char>>>)
    requires ns.len() > 0, forall|i: int| 0 <= i < ns.len() ==> legal_name(#[trigger] ns[i])
    ensures opt120(seq![0u8] + wnames(ns)) == Some(joined(ns))
{
    let d = seq![0u8] + wnames(ns);
    assert(d.skip(1) =~= wnames(ns)); assert(wnames(ns).skip(0) =~= wnames(ns));
    lem_names(wnames(ns), 0, ns, Seq::empty());
    assert(Seq::<SV>::empty() + joined(ns) =~= joined(ns));
}
pub open spec fn wquads(q: Seq<Seq<u8>>) -> Seq<u8> decreases q.len() { if q.len() == 0 { Seq::empty() } else { wquads(q.drop_last()) + q.last() } }
pub proof fn lem_quads(q: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() == 4
    ensures quads(wquads(q)) == q, wquads(q).len() == 4 * q.len()
    decreases q.len()
{
    if q.len() == 0 { assert(quads(wquads(q)) =~= q); }
    else {
        let p = q.drop_last(); let w = wquads(q);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() == 4 by { assert(p[i] == q[i]); }
        lem_quads(p);
        assert(q.last().len() == 4);
        assert(w.take(w.len() - 4) =~= wquads(p)); assert(w.skip(w.len() - 4) =~= q.last());
        assert(quads(w) =~= q);
    }
}
/// THEOREM (P14): the same for addresses
pub proof fn thm_quads(q: Seq<Seq<u8>>)
    requires q.len() > 0, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() == 4
    ensures opt120(seq![1u8] + wquads(q)) == Some(v4s_of(q)), quads(wquads(q)) == q
{ lem_quads(q); assert((seq![1u8] + wquads(q)).skip(1) =~= wquads(q)); }
} // mod
use dns4::*;
pub mod dns5 {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext};
//@file crates/sip-dns/src/lib.rs
/// a resolver's contract: every target honours what the URI insists on (SipResolver is proved to keep it;
/// a caller's own resolver is assumed to)
pub trait Resolver {
    fn resolve(&self, uri: &SipUri) -> (r: Result<Vec<DnsTarget>, AErr>)
        ensures match r { Ok(v) => forall|i: int| 0 <= i < v@.len() ==> target_ok(*uri, #[trigger] v@[i]), Err(_) => true };
}
pub trait DhcpProvider { fn query_sip_servers(&self) -> Result<Option<Vec<DhcpSipServer>>, AErr>; }
impl Resolver for SipResolver {
//@fn SipResolver::resolve trait=Resolver intrait
@props P12
//@end
}
/// the transport the URI insists on
pub open spec fn transport_ok(u: SipUri, t: DnsTarget) -> bool { (u.sips() ==> tls(t.transport)) && (want(u) matches Some(w) ==> t.transport == w) }
//@struct DhcpResolver
//@struct HybridResolver
impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
//@fn DhcpResolver::resolve_internal
@props P12
@prewrite let mut all_targets = Vec :: new ( ) ; ==> let mut all_targets: Vec<DnsTarget> = Vec::new();
    ensures match r { Ok(v) => v@.len() <= 100 && forall|i: int| 0 <= i < v@.len() ==> transport_ok(*uri, #[trigger] v@[i]), Err(_) => true },
@loop 1
    invariant forall|i: int| 0 <= i < all_targets@.len() ==> transport_ok(*uri, #[trigger] all_targets@[i]),
    decreases q__@.len(),
//@end
}
impl<D: DhcpProvider, R: Resolver> HybridResolver<D, R> {
//@fn HybridResolver::resolve trait=Resolver
@props P12
@prewrite let mut all_targets = Vec :: new ( ) ; ==> let mut all_targets: Vec<DnsTarget> = Vec::new();
    ensures match r { Ok(v) => v@.len() <= 100 && forall|i: int| 0 <= i < v@.len() ==> transport_ok(*uri, #[trigger] v@[i]), Err(_) => true },
@loop 1
    invariant forall|i: int| 0 <= i < all_targets@.len() ==> transport_ok(*uri, #[trigger] all_targets@[i]),
    decreases q__@.len(),
//@end
}
} // mod
use dns5::*;
pub mod dns6 {
use super::*;
broadcast use {prel::str_ext, vstd::seq_lib::group_to_multiset_ensures};
use core::cmp::Ordering;
//@file crates/sip-dns/src/enum_lookup.rs
//@struct EnumNaptrRecord
// ---------------- specification: ENUM records ----------------
pub open spec fn u16cmp(a: u16, b: u16) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// order first, then preference
pub open spec fn enum_cmp(a: EnumNaptrRecord, b: EnumNaptrRecord) -> Ordering { if a.order != b.order { u16cmp(a.order, b.order) } else { u16cmp(a.preference, b.preference) } }
pub open spec fn enum_le(a: EnumNaptrRecord, b: EnumNaptrRecord) -> bool { enum_cmp(a, b) != Ordering::Greater }
pub open spec fn is_sip(r: EnumNaptrRecord) -> bool { eq_ci(r.service@, "E2U+sip"@) }
pub open spec fn sips_of(v: Seq<EnumNaptrRecord>) -> Seq<EnumNaptrRecord> decreases v.len() { if v.len() == 0 { Seq::empty() } else if is_sip(v.last()) { sips_of(v.drop_last()).push(v.last()) } else { sips_of(v.drop_last()) } }
/// slice::sort_by: a permutation, ordered by the comparison given (stable)
#[verifier::external_body] pub fn x_sort_by<F: Fn(&EnumNaptrRecord, &EnumNaptrRecord) -> Ordering>(v: &mut [EnumNaptrRecord], f: F)
    requires forall|a: &EnumNaptrRecord, b: &EnumNaptrRecord| #[trigger] f.requires((a, b)), forall|a: &EnumNaptrRecord, b: &EnumNaptrRecord, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == enum_cmp(*a, *b),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> enum_le(#[trigger] final(v)@[i], #[trigger] final(v)@[j])
{ unimplemented!() }
#[verifier::external_body] pub fn x_ucmp(a: &u16, b: &u16) -> (o: Ordering) ensures o == u16cmp(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn x_eclone(a: &EnumNaptrRecord) -> (r: EnumNaptrRecord) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn x_efirst(a: Vec<EnumNaptrRecord>) -> (r: Option<EnumNaptrRecord>) ensures r == (if a@.len() > 0 { Some(a@[0]) } else { None }) { unimplemented!() }
//@rewrite $a . $f . cmp ( & $b . $g ) ==> x_ucmp(&$a.$f, &$b.$g)
impl EnumNaptrRecord {
//@fn EnumNaptrRecord::is_sip_service
@props P13
    ensures r == is_sip(*self),
//@end
}
//@fn sort_enum_records
@props P13
@sig (records: &mut Vec<EnumNaptrRecord>)
@rewrite records . sort_by ( | a , b | { $*b } ) ==> x_sort_by(records, |a: &EnumNaptrRecord, b: &EnumNaptrRecord| -> (o: Ordering) ensures o == enum_cmp(*a, *b) { $b })
    ensures final(records)@.to_multiset() == old(records)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(records)@.len() ==> enum_le(#[trigger] final(records)@[i], #[trigger] final(records)@[j]), final(records)@.len() == old(records)@.len(),
//@end
//@fn filter_sip_records
@props P13
@prewrite records . iter ( ) . filter ( | $r | $*c ) . cloned ( ) . collect ( ) ==> { let mut o__: Vec<EnumNaptrRecord> = Vec::new(); let mut i__: usize = 0; proof { assert(records@.take(0) =~= Seq::empty()); } while i__ < records.len() { let $r = &records[i__]; proof { assert(records@.take(i__ + 1).drop_last() =~= records@.take(i__ as int)); } if $c { o__.push(x_eclone($r)); } i__ = i__ + 1; } proof { assert(records@.take(i__ as int) =~= records@); } o__ }
    ensures r@ == sips_of(records@),
@loop 1
    invariant i__ <= records@.len(), o__@ == sips_of(records@.take(i__ as int)),
    decreases records@.len() - i__,
//@end
pub proof fn lem_sips(v: Seq<EnumNaptrRecord>)
    ensures forall|x: EnumNaptrRecord| #![trigger sips_of(v).contains(x)] sips_of(v).contains(x) <==> (v.contains(x) && is_sip(x))
    decreases v.len()
{
    if v.len() > 0 {
        let p = v.drop_last(); lem_sips(p);
        assert(v =~= p.push(v.last()));
        assert forall|x: EnumNaptrRecord| #![trigger sips_of(v).contains(x)] sips_of(v).contains(x) <==> (v.contains(x) && is_sip(x)) by {
            let q = sips_of(p);
            assert(v.contains(x) <==> p.contains(x) || x == v.last()) by {
                if v.contains(x) { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; if k < p.len() { assert(p[k] == x); } }
                if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(v[k] == x); }
                assert(v[v.len() - 1] == v.last());
            }
            if is_sip(v.last()) {
                assert(q.push(v.last()).contains(x) <==> q.contains(x) || x == v.last()) by {
                    if q.push(v.last()).contains(x) { let k = choose|k: int| 0 <= k < q.push(v.last()).len() && q.push(v.last())[k] == x; if k < q.len() { assert(q[k] == x); } }
                    if q.contains(x) { let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(q.push(v.last())[k] == x); }
                    assert(q.push(v.last())[q.len() as int] == v.last());
                }
            }
        }
    }
}
/// the best record: a SIP record no other SIP record precedes
pub open spec fn best_sip(v: Seq<EnumNaptrRecord>, r: Option<EnumNaptrRecord>) -> bool {
    match r { Some(x) => v.contains(x) && is_sip(x) && (forall|y: EnumNaptrRecord| #[trigger] v.contains(y) && is_sip(y) ==> enum_le(x, y)), None => forall|y: EnumNaptrRecord| #[trigger] v.contains(y) ==> !is_sip(y) }
}
pub proof fn lem_best(v: Seq<EnumNaptrRecord>, w: Seq<EnumNaptrRecord>)
    requires w.to_multiset() == sips_of(v).to_multiset(), forall|i: int, j: int| 0 <= i < j < w.len() ==> enum_le(#[trigger] w[i], #[trigger] w[j])
    ensures best_sip(v, if w.len() > 0 { Some(w[0]) } else { None })
{
    lem_sips(v);
    let q = sips_of(v);
    w.to_multiset_ensures(); q.to_multiset_ensures();
    assert forall|x: EnumNaptrRecord| #[trigger] w.contains(x) <==> q.contains(x) by { assert(w.to_multiset().count(x) > 0 <==> w.contains(x)); assert(q.to_multiset().count(x) > 0 <==> q.contains(x)); }
    if w.len() > 0 {
        assert(w.contains(w[0]));
        assert forall|y: EnumNaptrRecord| #[trigger] v.contains(y) && is_sip(y) implies enum_le(w[0], y) by {
            assert(q.contains(y)); assert(w.contains(y));
            let k = choose|k: int| 0 <= k < w.len() && w[k] == y;
            if k > 0 { assert(enum_le(w[0], w[k])); }
        }
    } else { assert forall|y: EnumNaptrRecord| #[trigger] v.contains(y) implies !is_sip(y) by { if is_sip(y) { assert(q.contains(y)); assert(w.contains(y)); } } }
}
//@fn select_best_sip_record
@props P13
@rewrite sip_records . into_iter ( ) . next ( ) ==> { proof { lem_best(records@, sip_records@); } x_efirst(sip_records) }
@rewrite if sip_records . is_empty ( ) { return None ; } ==> if sip_records.is_empty() { proof { lem_best(records@, sip_records@); } return None; }
    ensures best_sip(records@, r),
//@end
} // mod
} // verus!
