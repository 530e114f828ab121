//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite HashMap < u8 , RtpMap > ==> RMap
//@rewrite output . push_str ( & { $*b } ) ==> output.x_fmt(&{ $b })
//@rewrite output . push_str ( $l ) ==> output.x_push($l)
//@rewrite output . push ( ' ' ) ==> output.x_push(" ")
//@rewrite for $x in & $a . $f { $*b } ==> let mut o__: usize = 0; while o__ < $a.$f.len() { let $x = &$a.$f[o__]; o__ += 1; $b }
//@rewrite for ( idx , zone ) in sdp . time_zones . iter ( ) . enumerate ( ) { $*b } ==> let mut idx: usize = 0; while idx < sdp.time_zones.len() { let zone = &sdp.time_zones[idx]; $b idx += 1; }
//@rewrite serialize_attribute ( & mut output , ==> serialize_attribute(&mut output,
//@include errx
//@include fmt
verus! {
broadcast use {prel::str_ext, sm::smol_ext};
/// the mapping of payload types kept beside the attributes (not printed)
pub mod rmx { use super::*; #[verifier::external_body] pub struct RMap { _p: () } }
use rmx::*;
//@file crates/sip-sdp/src/lib.rs
//@struct SessionDescription derive=
//@struct Origin derive=
//@struct Connection derive=
//@struct TimeDescription derive=
//@struct RepeatTime derive=
//@struct TimeZoneAdjustment derive=
//@struct Bandwidth derive=
//@struct MediaDescription derive=
//@enum MediaType derive=
//@enum Protocol derive=
//@enum NetType derive=
//@enum AddrType derive=
//@enum Attribute derive=
//@struct RtpMap derive=

/// how each part is written
pub mod sw {
    use super::*;
    pub open spec fn e() -> Seq<char> { Seq::empty() }
    pub open spec fn nl() -> Seq<char> { "\r\n"@ }
    pub open spec fn mt(t: MediaType) -> Seq<char> { match t { MediaType::Audio => "audio"@, MediaType::Video => "video"@, MediaType::Text => "text"@, MediaType::Application => "application"@, MediaType::Message => "message"@, MediaType::Other(n) => n@ } }
    pub open spec fn pr(p: Protocol) -> Seq<char> { match p { Protocol::RtpAvp => "RTP/AVP"@, Protocol::RtpSavp => "RTP/SAVP"@, Protocol::RtpSavpf => "RTP/SAVPF"@, Protocol::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF"@, Protocol::TcpTlsRtpSavpf => "TCP/TLS/RTP/SAVPF"@, Protocol::Udp => "UDP"@, Protocol::Tcp => "TCP"@, Protocol::Other(n) => n@ } }
    pub open spec fn nt(t: NetType) -> Seq<char> { "IN"@ }
    pub open spec fn adt(t: AddrType) -> Seq<char> { match t { AddrType::IPv4 => "IP4"@, AddrType::IPv6 => "IP6"@ } }
    pub open spec fn num(n: nat) -> Seq<char> { dtext(n) }
    pub open spec fn v_l(v: u8) -> Seq<char> { e() + "v="@ + dtext(v as nat) + nl() }
    pub open spec fn o_l(o: Origin) -> Seq<char> { e() + "o="@ + o.username@ + " "@ + o.session_id@ + " "@ + o.session_version@ + " "@ + nt(o.net_type) + " "@ + adt(o.addr_type) + " "@ + o.unicast_address@ + nl() }
    /// a line of free text
    pub open spec fn t_l(k: Seq<char>, t: Seq<char>) -> Seq<char> { e() + k + t + nl() }
    pub open spec fn c_l(c: Connection) -> Seq<char> { e() + "c="@ + nt(c.net_type) + " "@ + adt(c.addr_type) + " "@ + c.connection_address@ + nl() }
    pub open spec fn b_l(b: Bandwidth) -> Seq<char> { e() + "b="@ + b.bw_type@ + ":"@ + dtext(b.bandwidth as nat) + nl() }
    pub open spec fn a_l(a: Attribute) -> Seq<char> { match a { Attribute::Property(n) => e() + "a="@ + n@ + nl(), Attribute::Value { name, value } => e() + "a="@ + name@ + ":"@ + value@ + nl() } }
    pub open spec fn tl(t: TimeDescription) -> Seq<char> { e() + "t="@ + dtext(t.start_time as nat) + " "@ + dtext(t.stop_time as nat) + nl() }
    /// words, each after a blank
    pub open spec fn words(p: Seq<char>, v: Seq<SmolStr>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { words(p, v.drop_last()) + (e() + " "@ + v.last()@) } }
    pub open spec fn r_on(p: Seq<char>, r: RepeatTime) -> Seq<char> { words(p + (e() + "r="@ + r.repeat_interval@ + " "@ + r.active_duration@), r.offsets@) + nl() }
    pub open spec fn rs_on(p: Seq<char>, v: Seq<RepeatTime>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { r_on(rs_on(p, v.drop_last()), v.last()) } }
    pub open spec fn ts_on(p: Seq<char>, v: Seq<TimeDescription>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { rs_on(ts_on(p, v.drop_last()) + tl(v.last()), v.last().repeats@) } }
    pub open spec fn z_on(p: Seq<char>, v: Seq<TimeZoneAdjustment>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { let q = z_on(p, v.drop_last()); (if v.len() > 1 { q + " "@ } else { q }) + (e() + v.last().adjustment_time@ + " "@ + v.last().offset@) } }
    pub open spec fn zs_on(p: Seq<char>, v: Seq<TimeZoneAdjustment>) -> Seq<char> { if v.len() == 0 { p } else { z_on(p + "z="@, v) + nl() } }
    pub open spec fn bs_on(p: Seq<char>, v: Seq<Bandwidth>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { bs_on(p, v.drop_last()) + b_l(v.last()) } }
    pub open spec fn as_on(p: Seq<char>, v: Seq<Attribute>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { as_on(p, v.drop_last()) + a_l(v.last()) } }
    pub open spec fn o_on(p: Seq<char>, k: Seq<char>, o: Option<SmolStr>) -> Seq<char> { match o { Some(t) => p + t_l(k, t@), None => p } }
    pub open spec fn c_on(p: Seq<char>, o: Option<Connection>) -> Seq<char> { match o { Some(c) => p + c_l(c), None => p } }
    pub open spec fn m_head(p: Seq<char>, m: MediaDescription) -> Seq<char> { let q = p + (e() + "m="@ + mt(m.media_type) + " "@);
        (match m.num_ports { Some(n) => q + (e() + dtext(m.port as nat) + "/"@ + dtext(n as nat) + " "@), None => q + (e() + dtext(m.port as nat) + " "@) }) + (e() + pr(m.protocol)) }
    pub open spec fn m1(p: Seq<char>, m: MediaDescription) -> Seq<char> { (if m.formats@.len() == 0 { m_head(p, m) + " 0"@ } else { words(m_head(p, m), m.formats@) }) + nl() }
    pub open spec fn m2(p: Seq<char>, m: MediaDescription) -> Seq<char> { c_on(o_on(m1(p, m), "i="@, m.title), m.connection) }
    pub open spec fn m3(p: Seq<char>, m: MediaDescription) -> Seq<char> { o_on(bs_on(m2(p, m), m.bandwidth@), "k="@, m.encryption_key) }
    pub open spec fn m_on(p: Seq<char>, m: MediaDescription) -> Seq<char> { as_on(m3(p, m), m.attributes@) }
    pub open spec fn ms_on(p: Seq<char>, v: Seq<MediaDescription>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { m_on(ms_on(p, v.drop_last()), v.last()) } }
    pub open spec fn s1(d: SessionDescription) -> Seq<char> { e() + v_l(d.version) + o_l(d.origin) + t_l("s="@, d.session_name@) }
    pub open spec fn s2(d: SessionDescription) -> Seq<char> { c_on(o_on(o_on(o_on(o_on(s1(d), "i="@, d.session_info), "u="@, d.uri), "e="@, d.email), "p="@, d.phone), d.connection) }
    pub open spec fn s3(d: SessionDescription) -> Seq<char> { bs_on(s2(d), d.bandwidth@) }
    pub open spec fn s4(d: SessionDescription) -> Seq<char> { ts_on(if d.times@.len() == 0 { s3(d) + "t=0 0\r\n"@ } else { s3(d) }, d.times@) }
    pub open spec fn s5(d: SessionDescription) -> Seq<char> { o_on(zs_on(s4(d), d.time_zones@), "k="@, d.encryption_key) }
    pub open spec fn s6(d: SessionDescription) -> Seq<char> { as_on(s5(d), d.attributes@) }
    /// a description as text
    pub open spec fn text(d: SessionDescription) -> Seq<char> { ms_on(s6(d), d.media@) }
    pub proof fn tk<T>(l: Seq<T>, i: int) requires 0 <= i < l.len() ensures l.take(i + 1).drop_last() == l.take(i), l.take(i + 1).last() == l[i], l.take(i + 1).len() == i + 1 { assert(l.take(i + 1).drop_last() =~= l.take(i)); }
    pub proof fn full<T>(l: Seq<T>) ensures l.take(l.len() as int) == l, l.take(0).len() == 0 { assert(l.take(l.len() as int) =~= l); }
}
use sw::*;
impl MediaType {
//@fn MediaType::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + mt(*self),
//@end
}
impl Protocol {
//@fn Protocol::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + pr(*self),
//@end
}
impl NetType {
//@fn NetType::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + nt(*self),
//@end
}
impl AddrType {
//@fn AddrType::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + adt(*self),
//@end
}
/// `{}` writes what Display writes
impl XFmt for MediaType { open spec fn fv(&self) -> Seq<char> { mt(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Protocol { open spec fn fv(&self) -> Seq<char> { pr(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for NetType { open spec fn fv(&self) -> Seq<char> { nt(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for AddrType { open spec fn fv(&self) -> Seq<char> { adt(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }

//@file crates/sip-sdp/src/serialize.rs
//@fn serialize_attribute
@fmt
    ensures final(output)@ =~= old(output)@ + a_l(*attr),
//@end
//@fn serialize_media
@fmt
    ensures final(output)@ =~= m_on(old(output)@, *media),
@entry
    let ghost p = output@;
    proof { full(media.formats@); full(media.bandwidth@); full(media.attributes@); }
@loop 1
    invariant o__ <= media.formats@.len(), p == old(output)@, output@ =~= words(m_head(p, *media), media.formats@.take(o__ as int)),
    decreases media.formats@.len() - o__,
@loopbody 1
    proof { tk(media.formats@, o__ as int); }
@afterloop 1
    proof { full(media.formats@); }
@loop 2
    invariant o__ <= media.bandwidth@.len(), p == old(output)@, output@ =~= bs_on(m2(p, *media), media.bandwidth@.take(o__ as int)),
    decreases media.bandwidth@.len() - o__,
@loopbody 2
    proof { tk(media.bandwidth@, o__ as int); }
@afterloop 2
    proof { full(media.bandwidth@); full(media.attributes@); }
@loop 3
    invariant o__ <= media.attributes@.len(), p == old(output)@, output@ =~= as_on(m3(p, *media), media.attributes@.take(o__ as int)),
    decreases media.attributes@.len() - o__,
@loopbody 3
    proof { tk(media.attributes@, o__ as int); }
@afterloop 3
    proof { full(media.attributes@); }
//@end
//@fn serialize_sdp
@attr #[verifier::rlimit(80)]
@fmt
    ensures r@ =~= text(*sdp),
@entry
    proof { full(sdp.bandwidth@); full(sdp.times@); full(sdp.time_zones@); full(sdp.attributes@); full(sdp.media@); }
@loop 1
    invariant o__ <= sdp.bandwidth@.len(), output@ =~= bs_on(s2(*sdp), sdp.bandwidth@.take(o__ as int)),
    decreases sdp.bandwidth@.len() - o__,
@loopbody 1
    proof { tk(sdp.bandwidth@, o__ as int); }
@afterloop 1
    proof { full(sdp.bandwidth@); full(sdp.times@); }
    let ghost q = if sdp.times@.len() == 0 { s3(*sdp) + "t=0 0\r\n"@ } else { s3(*sdp) };
@loop 2
    invariant o__ <= sdp.times@.len(), output@ =~= ts_on(q, sdp.times@.take(o__ as int)),
    decreases sdp.times@.len() - o__,
@loopbody 2
    proof { tk(sdp.times@, o__ as int); full(sdp.times@[o__ as int].repeats@); }
    let ghost w = ts_on(q, sdp.times@.take(o__ as int)) + tl(sdp.times@[o__ as int]);
@loop 3
    invariant o__ <= time.repeats@.len(), output@ =~= rs_on(w, time.repeats@.take(o__ as int)),
    decreases time.repeats@.len() - o__,
@loopbody 3
    proof { tk(time.repeats@, o__ as int); full(time.repeats@[o__ as int].offsets@); }
    let ghost x = rs_on(w, time.repeats@.take(o__ as int)) + (e() + "r="@ + time.repeats@[o__ as int].repeat_interval@ + " "@ + time.repeats@[o__ as int].active_duration@);
@loop 4
    invariant o__ <= repeat.offsets@.len(), output@ =~= words(x, repeat.offsets@.take(o__ as int)),
    decreases repeat.offsets@.len() - o__,
@loopbody 4
    proof { tk(repeat.offsets@, o__ as int); }
@afterloop 4
    proof { full(repeat.offsets@); }
@afterloop 3
    proof { full(time.repeats@); }
@afterloop 2
    proof { full(sdp.times@); full(sdp.time_zones@); }
@loop 5
    invariant idx <= sdp.time_zones@.len(), output@ =~= z_on(s4(*sdp) + "z="@, sdp.time_zones@.take(idx as int)),
    decreases sdp.time_zones@.len() - idx,
@loopbody 5
    proof { tk(sdp.time_zones@, idx as int); }
@afterloop 5
    proof { full(sdp.time_zones@); }
@loop 6
    invariant o__ <= sdp.attributes@.len(), output@ =~= as_on(s5(*sdp), sdp.attributes@.take(o__ as int)),
    decreases sdp.attributes@.len() - o__,
@loopbody 6
    proof { tk(sdp.attributes@, o__ as int); }
@afterloop 6
    proof { full(sdp.attributes@); full(sdp.media@); }
@loop 7
    invariant o__ <= sdp.media@.len(), output@ =~= ms_on(s6(*sdp), sdp.media@.take(o__ as int)),
    decreases sdp.media@.len() - o__,
@loopbody 7
    proof { tk(sdp.media@, o__ as int); }
@afterloop 7
    proof { full(sdp.media@); }
//@end
}
