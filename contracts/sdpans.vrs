//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite HashMap < u8 , RtpMap > ==> RMap
//@rewrite HashMap :: new ( ) ==> RMap::new()
//@rewrite . map_err ( | e | NegotiationError :: InvalidSdp ( e . to_string ( ) ) ) ==> .x_else(NegotiationError::InvalidSdp(String::new()))
//@rewrite fn find_media ( & self , media_type : MediaType ) ==> fn find_media(&self, media_type: MediaType)
//@rewrite self . media . iter ( ) . find ( | m | $*c ) ==> { let mut f__: Option<&MediaDescription> = None; let mut i__: usize = 0; while i__ < self.media.len() { let m = &self.media[i__]; if $c { f__ = Some(m); break; } i__ += 1; } f__ }
//@rewrite attributes . iter ( ) . find_map ( Direction :: from_attribute ) ==> { let mut f__: Option<Direction> = None; let mut i__: usize = 0; while i__ < attributes.len() { f__ = Direction::from_attribute(&attributes[i__]); if f__.is_some() { proof { dirs_first(attributes@, i__ as int); } break; } i__ += 1; proof { if i__ == attributes@.len() { dirs_none(attributes@); } } } f__ }
//@rewrite local_media . formats . iter ( ) . filter_map ( parse_payload_type ) . any ( | $p | $*c ) ==> ({ let mut f__ = false; let mut i__: usize = 0; while i__ < local_media.formats.len() { match parse_payload_type(&local_media.formats[i__]) { Some($p) => { if $c { f__ = true; break; } } None => {} } i__ += 1; } f__ })
//@rewrite local_media . formats . iter ( ) . any ( | f | $*c ) ==> { let mut f__ = false; let mut j__: usize = 0; while j__ < local_media.formats.len() { let f = &local_media.formats[j__]; if $c { f__ = true; break; } j__ += 1; } f__ }
//@rewrite local_media . rtpmaps . values ( ) . find ( | $p | $*c ) . cloned ( ) ==> { let vs__ = local_media.rtpmaps.vals(); let mut g__: Option<RtpMap> = None; let mut k__: usize = 0; while k__ < vs__.len() { let $p = vs__[k__]; if $c { g__ = Some($p.clone()); break; } k__ += 1; } g__ }
//@rewrite encoding_params . as_ref ( ) . map ( | s | s . as_str ( ) ) ==> encoding_params.x_str()
//@rewrite offer_rtpmap . encoding_params == local_rtpmap . encoding_params ==> x_osm_eq(&offer_rtpmap.encoding_params, &local_rtpmap.encoding_params)
//@rewrite eq_ignore_ascii_case ( & local_rtpmap . encoding_name ) ==> eq_ignore_ascii_case(local_rtpmap.encoding_name.as_str())
//@rewrite encoding_params . map ( SmolStr :: new ) ==> encoding_params.x_smol()
//@rewrite . get ( & offer_pt ) . cloned ( ) ==> .x_get_cloned(&offer_pt)
//@rewrite ( MIN_CLOCK_RATE ..= MAX_CLOCK_RATE ) . contains ( & rate ) ==> (MIN_CLOCK_RATE <= rate && rate <= MAX_CLOCK_RATE)
//@rewrite . split_whitespace ( ) ==> .x_ws_it()
//@rewrite . and_then ( | t | t . parse :: < u8 > ( ) . ok ( ) ) ==> .x_pt()
//@rewrite self . attributes . retain ( | $p | $*c ) ; ==> { let mut i__: usize = 0; while i__ < self.attributes.len() { let keep__ = { let $p = &self.attributes[i__]; $c }; if keep__ { i__ += 1; } else { proof { dirs_remove(self.attributes@, i__ as int); } self.attributes.remove(i__); } } }
//@rewrite $a . retain ( | $p | $*c ) ; ==> { let mut i__: usize = 0; while i__ < $a.len() { let keep__ = { let $p = &$a[i__]; $c }; if keep__ { i__ += 1; } else { proof { dirs_remove($a@, i__ as int); } $a.remove(i__); } } }
//@rewrite SmolStr :: new ( format ! ( $*f ) ) ==> SmolStr::from_string(format!($f))
//@rewrite SmolStr :: new ( & value ) ==> SmolStr::new(value.as_str())
//@rewrite SmolStr :: new ( & attr_value ) ==> SmolStr::new(attr_value.as_str())
//@rewrite SmolStr :: new ( payload_type . to_string ( ) ) ==> SmolStr::from_string(payload_type.x_text())
//@rewrite . add_rtpmap ( rtpmap . payload_type , & rtpmap . encoding_name , ==> .add_rtpmap(rtpmap.payload_type, rtpmap.encoding_name.as_str(),
//@rewrite ( & local_capabilities . origin . username , & generate_session_id ( ) , local_addr , ) ==> (local_capabilities.origin.username.as_str(), generate_session_id().as_str(), local_addr)
//@rewrite . session_name ( & local_capabilities . session_name ) ==> .session_name(local_capabilities.session_name.as_str())
//@rewrite set_fmtp ( pt , & local_fmtp . params ) ==> set_fmtp(pt, local_fmtp.params.as_str())
//@rewrite set_fmtp ( pt , & offer_fmtp . params ) ==> set_fmtp(pt, offer_fmtp.params.as_str())
//@rewrite accepted_types . contains ( & offer_media . media_type ) ==> { let mut f__ = false; let mut j__: usize = 0; while j__ < accepted_types.len() { if accepted_types[j__] == offer_media.media_type { f__ = true; break; } j__ += 1; } f__ }
//@include errx
//@include strit
//@include fmt
verus! {
broadcast use {prel::str_ext, sm::smol_ext, spec::dirs_push, rmx::vec_bound_s, rmx::vec_bound_a, rmx::vec_bound_m};
/// the mapping of payload types kept beside the attributes (std HashMap, assumed)
pub mod rmx {
    use super::*;
    #[verifier::external_body] pub struct RMap { _p: () }
    impl View for RMap { type V = Map<u8, RtpMap>; uninterp spec fn view(&self) -> Map<u8, RtpMap>; }
    impl RMap {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u8, RtpMap>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len(), r <= 256 { unimplemented!() }
        #[verifier::external_body] pub fn contains_key(&self, k: &u8) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &u8) -> (r: Option<&RtpMap>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
        #[verifier::external_body] pub fn x_get_cloned(&self, k: &u8) -> (r: Option<RtpMap>) ensures match r { Some(v) => self@.contains_key(*k) && v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: u8, v: RtpMap) -> (r: Option<RtpMap>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
        #[verifier::external_body] pub fn remove(&mut self, k: &u8) -> (r: Option<RtpMap>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
        /// every value once, in some order
        #[verifier::external_body] pub fn vals(&self) -> (r: Vec<&RtpMap>)
            ensures forall|i: int| 0 <= i < r@.len() ==> has_map(self@, *#[trigger] r@[i]),
                forall|k: u8| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == self@[k] { unimplemented!() }
    }
    impl Clone for RMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    pub open spec fn has_map(m: Map<u8, RtpMap>, v: RtpMap) -> bool { exists|k: u8| #[trigger] m.contains_key(k) && m[k] == v }
    /// a Vec of values that take space holds at most isize::MAX of them
    pub broadcast axiom fn vec_bound_s(v: Vec<SmolStr>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    pub broadcast axiom fn vec_bound_a(v: Vec<Attribute>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    pub broadcast axiom fn vec_bound_m(v: Vec<MediaDescription>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    pub trait XOStr { spec fn os(&self) -> Option<SmolStr>; fn x_str(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.os().is_some() && t@ == (self.os()->0)@, None => self.os().is_none() }; }
    impl XOStr for Option<SmolStr> { open spec fn os(&self) -> Option<SmolStr> { *self } #[verifier::external_body] fn x_str(&self) -> (r: Option<&str>) { unimplemented!() } }
    pub trait XOSm: Sized { spec fn osv(&self) -> Option<Seq<char>>; fn x_smol(self) -> (r: Option<SmolStr>) ensures match r { Some(t) => self.osv() == Some(t@), None => self.osv().is_none() }; fn x_pt(self) -> Option<u8>; fn x_u32(self) -> Option<u32>; }
    impl XOSm for Option<&str> { open spec fn osv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_smol(self) -> Option<SmolStr> { unimplemented!() } #[verifier::external_body] fn x_pt(self) -> Option<u8> { unimplemented!() } #[verifier::external_body] fn x_u32(self) -> Option<u32> { unimplemented!() } }
    #[verifier::external_body] pub fn x_osm_eq(a: &Option<SmolStr>, b: &Option<SmolStr>) -> (r: bool) ensures r == osm_eq(*a, *b) { unimplemented!() }
    pub open spec fn osm_eq(a: Option<SmolStr>, b: Option<SmolStr>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false } }
}
use rmx::*;

//@file crates/sip-sdp/src/lib.rs
//@enum SdpError derive=
//@const MAX_USERNAME_LENGTH
//@const MAX_SESSION_ID_LENGTH
//@const MAX_SESSION_NAME_LENGTH
//@const MAX_ADDRESS_LENGTH
//@const MAX_ENCODING_NAME_LENGTH
//@const MAX_ATTRIBUTE_NAME_LENGTH
//@const MAX_MEDIA_DESCRIPTIONS
//@const MAX_ATTRIBUTES_PER_DESCRIPTION
//@const MAX_FORMATS_PER_MEDIA
//@const MAX_RTPMAPS
//@const MIN_CLOCK_RATE
//@const MAX_CLOCK_RATE
//@const MAX_PAYLOAD_TYPE
//@struct SessionDescription
//@struct Origin
//@struct Connection
//@struct TimeDescription
//@struct RepeatTime
//@struct TimeZoneAdjustment
//@struct Bandwidth
//@struct MediaDescription
//@struct RtpMap
//@enum MediaType derive=
//@enum Protocol derive=
//@enum NetType derive=
//@enum AddrType derive=
//@enum Attribute derive=
impl Clone for MediaType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Protocol { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Connection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RtpMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for MediaType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MediaType) -> bool { *self == *o } }
impl PartialEq for MediaType { #[verifier::external_body] fn eq(&self, o: &MediaType) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Protocol { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Protocol) -> bool { *self == *o } }
impl PartialEq for Protocol { #[verifier::external_body] fn eq(&self, o: &Protocol) -> (r: bool) { unimplemented!() } }

//@file crates/sip-sdp/src/negotiate.rs
//@enum NegotiationError derive=
//@enum Direction derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for Direction { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Direction) -> bool { *self == *o } }
impl PartialEq for Direction { #[verifier::external_body] fn eq(&self, o: &Direction) -> (r: bool) { unimplemented!() } }
//@struct NegotiatedFormat

pub mod spec {
    use super::*;
    /// the direction a property attribute stands for
    pub open spec fn dir_name(s: Seq<char>) -> Option<Direction> {
        if s == "sendrecv"@ { Some(Direction::SendRecv) } else if s == "sendonly"@ { Some(Direction::SendOnly) }
        else if s == "recvonly"@ { Some(Direction::RecvOnly) } else if s == "inactive"@ { Some(Direction::Inactive) } else { None }
    }
    pub open spec fn dir_attr(a: Attribute) -> Option<Direction> { match a { Attribute::Property(n) => dir_name(n@), Attribute::Value { .. } => None } }
    /// the direction attributes among attrs, in order
    pub open spec fn dirs(attrs: Seq<Attribute>) -> Seq<Direction> decreases attrs.len() {
        if attrs.len() == 0 { Seq::empty() } else { match dir_attr(attrs.last()) { Some(d) => dirs(attrs.drop_last()).push(d), None => dirs(attrs.drop_last()) } }
    }
    pub open spec fn dir1(attrs: Seq<Attribute>) -> Option<Direction> { if dirs(attrs).len() > 0 { Some(dirs(attrs)[0]) } else { None } }
    /// the direction of a section: its own, else the session's, else both ways
    pub open spec fn sec_dir(s: SessionDescription, m: MediaDescription) -> Direction {
        match dir1(m.attributes@) { Some(d) => d, None => match dir1(s.attributes@) { Some(d) => d, None => Direction::SendRecv } }
    }
    pub open spec fn sends(d: Direction) -> bool { d == Direction::SendRecv || d == Direction::SendOnly }
    pub open spec fn recvs(d: Direction) -> bool { d == Direction::SendRecv || d == Direction::RecvOnly }
    /// an answerer's direction the offerer's direction allows
    pub open spec fn allows(offer: Direction, answer: Direction) -> bool { (sends(answer) ==> recvs(offer)) && (recvs(answer) ==> sends(offer)) }
    pub open spec fn rtp(p: Protocol) -> bool { matches!(p, Protocol::RtpAvp | Protocol::RtpSavp | Protocol::RtpSavpf | Protocol::UdpTlsRtpSavpf | Protocol::TcpTlsRtpSavpf) }
    pub open spec fn pt_of(s: Seq<char>) -> Option<u8> { match unum(s, 65535) { Some(n) => if n > 127 { None } else { Some(n as u8) }, None => None } }
    pub open spec fn has_pt(fs: Seq<SmolStr>, pt: u8) -> bool { exists|i: int| 0 <= i < fs.len() && pt_of((#[trigger] fs[i])@) == Some(pt) }
    pub open spec fn has_fmt(fs: Seq<SmolStr>, f: Seq<char>) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i])@ == f }
    pub open spec fn same_codec(o: RtpMap, l: RtpMap) -> bool { eq_ci(o.encoding_name@, l.encoding_name@) && o.clock_rate == l.clock_rate && osm_eq(o.encoding_params, l.encoding_params) }
    pub open spec fn dyn_match(lm: MediaDescription, o: RtpMap, l: RtpMap) -> bool { has_map(lm.rtpmaps@, l) && has_pt(lm.formats@, l.payload_type) && same_codec(o, l) }
    /// the local side can take format f of the offered section
    pub open spec fn takes(om: MediaDescription, lm: MediaDescription, f: Seq<char>) -> bool {
        if rtp(om.protocol) {
            match pt_of(f) {
                None => false,
                Some(pt) => if pt < 96 { has_pt(lm.formats@, pt) } else { om.rtpmaps@.contains_key(pt) && exists|l: RtpMap| #[trigger] dyn_match(lm, om.rtpmaps@[pt], l) },
            }
        } else { has_fmt(lm.formats@, f) }
    }
    pub open spec fn map_is(m: RtpMap, pt: u8, name: Seq<char>, rate: u32, p: Option<Seq<char>>) -> bool {
        m.payload_type == pt && m.encoding_name@ == name && m.clock_rate == rate && (match m.encoding_params { Some(t) => p == Some(t@), None => p.is_none() })
    }
    /// every mapping is kept under its own payload type
    pub open spec fn keyed(m: Map<u8, RtpMap>) -> bool { forall|k: u8| #[trigger] m.contains_key(k) ==> m[k].payload_type == k }
    /// the dynamic payload types answered mean the codecs the offer mapped them to
    pub open spec fn dyn_fmt(p: Protocol, f: Seq<char>) -> Option<u8> { if rtp(p) { match pt_of(f) { Some(pt) => if pt >= 96 { Some(pt) } else { None }, None => None } } else { None } }
    pub open spec fn mapped(om: MediaDescription, am: Map<u8, RtpMap>, f: Seq<char>) -> bool {
        match dyn_fmt(om.protocol, f) { Some(pt) => om.rtpmaps@.contains_key(pt) && am.contains_key(pt) && same_codec(om.rtpmaps@[pt], am[pt]), None => true }
    }
    pub open spec fn maps_ok(om: MediaDescription, lm: MediaDescription, am: Map<u8, RtpMap>, fs: Seq<SmolStr>) -> bool { keyed(lm.rtpmaps@) ==> forall|i: int| 0 <= i < fs.len() ==> mapped(om, am, (#[trigger] fs[i])@) }
    /// what is noted for a common format
    pub open spec fn noted(om: MediaDescription, lm: MediaDescription, c: NegotiatedFormat) -> bool {
        match dyn_fmt(om.protocol, c.offered_format@) {
            Some(pt) => match c.rtpmap { Some(m) => m.payload_type == pt && om.rtpmaps@.contains_key(pt) && same_codec(om.rtpmaps@[pt], m), None => false },
            None => match c.rtpmap { Some(m) => keyed(lm.rtpmaps@) ==> m.payload_type < 96, None => true },
        }
    }
    /// the first local section of a type
    pub open spec fn local_of(l: SessionDescription, t: MediaType, i: int) -> bool {
        0 <= i < l.media@.len() && l.media@[i].media_type == t && forall|j: int| 0 <= j < i ==> (#[trigger] l.media@[j]).media_type != t
    }
    /// every format of the answered section was offered and is one the local side takes
    pub open spec fn fmts_ok(om: MediaDescription, lm: MediaDescription, fs: Seq<SmolStr>) -> bool {
        forall|i: int| 0 <= i < fs.len() ==> has_fmt(om.formats@, (#[trigger] fs[i])@) && takes(om, lm, fs[i]@)
    }
    pub open spec fn fits(offer: SessionDescription, l: SessionDescription, om: MediaDescription, am: MediaDescription, i: int) -> bool {
        local_of(l, om.media_type, i) && l.media@[i].protocol == om.protocol && am.port == l.media@[i].port && fmts_ok(om, l.media@[i], am.formats@) && maps_ok(om, l.media@[i], am.rtpmaps@, am.formats@)
    }
    /// an accepted section: only what was offered and is supported, in a direction the offer allows
    pub open spec fn accepted(offer: SessionDescription, l: SessionDescription, om: MediaDescription, am: MediaDescription) -> bool {
        am.media_type == om.media_type && am.protocol == om.protocol && am.formats@.len() > 0
        && (exists|i: int| #[trigger] fits(offer, l, om, am, i))
        && dirs(am.attributes@).len() == 1 && allows(sec_dir(offer, om), dirs(am.attributes@)[0])
    }
    pub open spec fn rejected(om: MediaDescription, am: MediaDescription) -> bool {
        am.media_type == om.media_type && am.protocol == om.protocol && am.port == 0 && (om.formats@.len() > 0 ==> am.formats@ == om.formats@)
    }
    /// one section of an answer against the section it answers
    pub open spec fn answers(offer: SessionDescription, l: SessionDescription, om: MediaDescription, am: MediaDescription) -> bool {
        rejected(om, am) || (om.port != 0 && accepted(offer, l, om, am))
    }
    /// the sections answered so far
    pub open spec fn answered(offer: SessionDescription, l: SessionDescription, ms: Seq<MediaDescription>) -> bool {
        ms.len() <= offer.media@.len() && forall|i: int| 0 <= i < ms.len() ==> answers(offer, l, offer.media@[i], #[trigger] ms[i])
    }
    pub proof fn names_distinct()
        ensures "sendrecv"@ != "sendonly"@, "sendrecv"@ != "recvonly"@, "sendrecv"@ != "inactive"@, "sendonly"@ != "recvonly"@, "sendonly"@ != "inactive"@, "recvonly"@ != "inactive"@
    {
        reveal_strlit("sendrecv"); reveal_strlit("sendonly"); reveal_strlit("recvonly"); reveal_strlit("inactive");
        assert("sendrecv"@[4] != "sendonly"@[4]); assert("sendrecv"@[0] != "recvonly"@[0]); assert("sendrecv"@[0] != "inactive"@[0]);
        assert("sendonly"@[0] != "recvonly"@[0]); assert("sendonly"@[0] != "inactive"@[0]); assert("recvonly"@[0] != "inactive"@[0]);
    }
    pub broadcast proof fn dirs_push(a: Seq<Attribute>, x: Attribute)
        ensures #[trigger] dirs(a.push(x)) == (match dir_attr(x) { Some(d) => dirs(a).push(d), None => dirs(a) })
    { assert(a.push(x).drop_last() =~= a); }
    /// taking out an attribute that is no direction changes no direction
    pub proof fn dirs_remove(a: Seq<Attribute>, i: int)
        requires 0 <= i < a.len(), dir_attr(a[i]).is_none()
        ensures dirs(a.remove(i)) == dirs(a)
        decreases a.len()
    {
        if i == a.len() - 1 { assert(a.remove(i) =~= a.drop_last()); }
        else {
            let b = a.drop_last(); dirs_remove(b, i);
            assert(a.remove(i).drop_last() =~= b.remove(i)); assert(a.remove(i).last() == a.last());
        }
    }
    /// the first direction found by a scan
    pub proof fn dirs_first(a: Seq<Attribute>, i: int)
        requires 0 <= i < a.len(), forall|j: int| 0 <= j < i ==> dir_attr(#[trigger] a[j]).is_none(), dir_attr(a[i]).is_some()
        ensures dir1(a) == dir_attr(a[i])
        decreases a.len()
    {
        if a.len() == i + 1 { dirs_none(a.drop_last()); }
        else { let b = a.drop_last(); assert(b[i] == a[i]); assert forall|j: int| 0 <= j < i implies dir_attr(#[trigger] b[j]).is_none() by { assert(b[j] == a[j]); } dirs_first(b, i); }
    }
    pub proof fn dirs_none(a: Seq<Attribute>)
        requires forall|j: int| 0 <= j < a.len() ==> dir_attr(#[trigger] a[j]).is_none()
        ensures dirs(a).len() == 0
        decreases a.len()
    { if a.len() > 0 { let b = a.drop_last(); assert forall|j: int| 0 <= j < b.len() implies dir_attr(#[trigger] b[j]).is_none() by { assert(b[j] == a[j]); } dirs_none(b); } }
    pub proof fn lem_maps(om: MediaDescription, lm: MediaDescription, a0: MediaDescription, a1: MediaDescription, c: NegotiatedFormat)
        requires maps_ok(om, lm, a0.rtpmaps@, a0.formats@), a1.formats@ == a0.formats@.push(a1.formats@.last()), a1.formats@.last()@ == c.offered_format@, noted(om, lm, c),
            match c.rtpmap { None => a1.rtpmaps == a0.rtpmaps, Some(m) => a1.rtpmaps@ == a0.rtpmaps@.insert(m.payload_type, a1.rtpmaps@[m.payload_type])
                && map_is(a1.rtpmaps@[m.payload_type], m.payload_type, m.encoding_name@, m.clock_rate, match m.encoding_params { Some(t) => Some(t@), None => None }) },
        ensures maps_ok(om, lm, a1.rtpmaps@, a1.formats@)
    {
        if keyed(lm.rtpmaps@) {
            assert forall|i: int| 0 <= i < a1.formats@.len() implies mapped(om, a1.rtpmaps@, (#[trigger] a1.formats@[i])@) by {
                if i < a0.formats@.len() { assert(a1.formats@[i] == a0.formats@[i]); assert(mapped(om, a0.rtpmaps@, a0.formats@[i]@)); }
            }
        }
    }
    pub proof fn lem_fits(offer: SessionDescription, l: SessionDescription, om: MediaDescription, lm: MediaDescription, am: MediaDescription, cs: Seq<NegotiatedFormat>)
        requires exists|i: int| #[trigger] local_of(l, om.media_type, i) && l.media@[i] == lm, lm.protocol == om.protocol, am.port == lm.port, am.formats@.len() == cs.len(),
            forall|k: int| 0 <= k < cs.len() ==> (#[trigger] am.formats@[k])@ == cs[k].offered_format@,
            forall|k: int| 0 <= k < cs.len() ==> has_fmt(om.formats@, (#[trigger] cs[k]).offered_format@) && takes(om, lm, cs[k].offered_format@), maps_ok(om, lm, am.rtpmaps@, am.formats@),
        ensures exists|i: int| #[trigger] fits(offer, l, om, am, i)
    {
        let i = choose|i: int| #[trigger] local_of(l, om.media_type, i) && l.media@[i] == lm;
        assert forall|k: int| 0 <= k < am.formats@.len() implies has_fmt(om.formats@, (#[trigger] am.formats@[k])@) && takes(om, lm, am.formats@[k]@) by {
            assert(am.formats@[k]@ == cs[k].offered_format@);
        }
        assert(fits(offer, l, om, am, i));
    }
    /// P19: a finished answer has a section for each offered one, in order, each a valid answer to it
    pub proof fn p19_answer(offer: SessionDescription, l: SessionDescription, a: SessionDescription, i: int)
        requires answered(offer, l, a.media@), a.media@.len() == offer.media@.len(), 0 <= i < a.media@.len()
        ensures a.media@[i].media_type == offer.media@[i].media_type, a.media@[i].protocol == offer.media@[i].protocol,
            offer.media@[i].port == 0 ==> a.media@[i].port == 0,
            a.media@[i].port != 0 ==> (forall|k: int| 0 <= k < a.media@[i].formats@.len() ==> has_fmt(offer.media@[i].formats@, (#[trigger] a.media@[i].formats@[k])@)),
            a.media@[i].port != 0 ==> allows(sec_dir(offer, offer.media@[i]), dirs(a.media@[i].attributes@)[0]),
            (forall|j: int| 0 <= j < l.media@.len() ==> (#[trigger] l.media@[j]).media_type != offer.media@[i].media_type) ==> a.media@[i].port == 0,
    {
        assert(answers(offer, l, offer.media@[i], a.media@[i]));
    }
}
use spec::*;

//@file crates/sip-sdp/src/lib.rs
//@fn validate_field
ensures true
//@end
//@fn validate_clock_rate
ensures true
//@end
//@fn validate_payload_type
ensures true
//@end
impl SessionDescription {
//@fn SessionDescription::find_media
@ret r
ensures match r { Some(m) => exists|i: int| #[trigger] local_of(*self, media_type, i) && self.media@[i] == *m,
        None => forall|i: int| 0 <= i < self.media@.len() ==> (#[trigger] self.media@[i]).media_type != media_type }
@loop 1
invariant_except_break i__ <= self.media@.len(), f__.is_none(), forall|j: int| 0 <= j < i__ ==> (#[trigger] self.media@[j]).media_type != media_type
ensures match f__ { Some(m) => local_of(*self, media_type, i__ as int) && self.media@[i__ as int] == *m, None => forall|i: int| 0 <= i < self.media@.len() ==> (#[trigger] self.media@[i]).media_type != media_type }
decreases self.media@.len() - i__
//@end
//@fn SessionDescription::builder
@rewrite builder :: SessionDescriptionBuilder ==> SessionDescriptionBuilder
@ret r
ensures r.sdp.media@.len() == 0, r.sdp.attributes@.len() == 0
//@end
}
//@fn remove_rtpmap_attr
ensures dirs(final(attrs)@) == dirs(old(attrs)@), final(attrs)@.len() <= old(attrs)@.len()
@loop 1
invariant i__ <= attrs@.len(), dirs(attrs@) == dirs(old(attrs)@), attrs@.len() <= old(attrs)@.len(), before == old(attrs)@.len()
decreases attrs@.len() - i__
//@end
impl MediaDescription {
//@fn MediaDescription::add_format_token
@ret r
ensures match r { Ok(m) => m == (MediaDescription { formats: m.formats, ..self }) && m.formats@.len() == self.formats@.len() + 1 && m.formats@ =~= self.formats@.push(m.formats@.last()) && m.formats@.last()@ == token@, Err(_) => true }
//@end
//@fn MediaDescription::add_rtpmap
@fmt
@ret r
ensures match r { Ok(m) => m == (MediaDescription { attributes: m.attributes, rtpmaps: m.rtpmaps, ..self }) && dirs(m.attributes@) == dirs(self.attributes@)
    && m.rtpmaps@ =~= self.rtpmaps@.insert(payload_type, m.rtpmaps@[payload_type]) && map_is(m.rtpmaps@[payload_type], payload_type, encoding_name@, clock_rate, encoding_params.osv()), Err(_) => true }
//@end
//@fn MediaDescription::add_property
@ret r
ensures match r { Ok(m) => m == (MediaDescription { attributes: m.attributes, ..self }) && dirs(m.attributes@) == (match dir_name(name@) { Some(d) => dirs(self.attributes@).push(d), None => dirs(self.attributes@) }), Err(_) => true }
//@end
//@fn MediaDescription::with_direction
@ret r
ensures match r { Ok(m) => m == (MediaDescription { attributes: m.attributes, ..self }) && dirs(m.attributes@) == (match dir_name(dir@) { Some(d) => dirs(self.attributes@).push(d), None => dirs(self.attributes@) }), Err(_) => true }
//@end
}
impl Origin {
//@fn Origin::new
ensures true
//@end
}
impl Connection {
//@fn Connection::new
ensures true
//@end
}
//@file crates/sip-sdp/src/attrs.rs
//@struct Fmtp
#[verifier::external_body] fn x_fmtp(m: &MediaDescription, pt: u8) -> Option<Fmtp> { unimplemented!() }
//@fn parse_value_attr
@rewrite attrs . iter ( ) . find_map ( | a | $*c ) ==> { let mut f__: Option<&str> = None; let mut i__: usize = 0; while i__ < attrs.len() { let a = &attrs[i__]; f__ = $c; if f__.is_some() { break; } i__ += 1; } f__ }
ensures true
@loop 1
invariant i__ <= attrs@.len()
decreases attrs@.len() - i__
//@end
//@fn set_value_attr_unique
ensures dirs(final(attrs)@) == dirs(old(attrs)@)
@loop 1
invariant i__ <= attrs@.len(), dirs(attrs@) == dirs(old(attrs)@)
decreases attrs@.len() - i__
//@end
impl MediaDescription {
//@fn MediaDescription::set_fmtp
@fmt
@rewrite value : SmolStr :: new ( $*f ) ==> value: SmolStr::from_string($f)
ensures *final(self) == (MediaDescription { attributes: final(self).attributes, ..*old(self) }), dirs(final(self).attributes@) == dirs(old(self).attributes@)
@loop 1
invariant i__ <= self.attributes@.len(), dirs(self.attributes@) == dirs(old(self).attributes@), *self == (MediaDescription { attributes: self.attributes, ..*old(self) })
decreases self.attributes@.len() - i__
//@end
//@fn MediaDescription::set_ptime
ensures *final(self) == (MediaDescription { attributes: final(self).attributes, ..*old(self) }), dirs(final(self).attributes@) == dirs(old(self).attributes@)
//@end
//@fn MediaDescription::fmtp_for
@rewrite self . fmtp_iter ( ) . find ( $*c ) ==> x_fmtp(self, payload_type)
ensures true
//@end
//@fn MediaDescription::ptime
@rewrite . and_then ( | v | v . parse ( ) . ok ( ) ) ==> .x_u32()
ensures true
//@end
}
//@file crates/sip-sdp/src/builder.rs
//@struct SessionDescriptionBuilder
impl SessionDescriptionBuilder {
//@fn SessionDescriptionBuilder::new
@ret r
ensures r.sdp.media@.len() == 0, r.sdp.attributes@.len() == 0
//@end
//@fn SessionDescriptionBuilder::origin
@ret r
ensures match r { Ok(b) => b.sdp.media == self.sdp.media && b.sdp.attributes == self.sdp.attributes, Err(_) => true }
//@end
//@fn SessionDescriptionBuilder::session_name
@ret r
ensures match r { Ok(b) => b.sdp.media == self.sdp.media && b.sdp.attributes == self.sdp.attributes, Err(_) => true }
//@end
//@fn SessionDescriptionBuilder::connection
@ret r
ensures match r { Ok(b) => b.sdp.media == self.sdp.media && b.sdp.attributes == self.sdp.attributes, Err(_) => true }
//@end
//@fn SessionDescriptionBuilder::time
@ret r
ensures r.sdp.media == self.sdp.media, r.sdp.attributes == self.sdp.attributes
//@end
//@fn SessionDescriptionBuilder::media
@ret r
ensures match r { Ok(b) => b.sdp.media@ =~= self.sdp.media@.push(media) && b.sdp.attributes == self.sdp.attributes, Err(_) => true }
//@end
//@fn SessionDescriptionBuilder::build
@ret r
ensures r == self.sdp
//@end
}
//@file crates/sip-sdp/src/lib.rs
impl SessionDescription {
//@fn SessionDescription::default trait=Default
@ret r
ensures r.media@.len() == 0, r.attributes@.len() == 0
//@end
}
//@file crates/sip-sdp/src/negotiate.rs
impl Direction {
//@fn Direction::from_attribute
@ret r
ensures r == dir_attr(*attr)
@entry
proof { names_distinct(); }
//@end
//@fn Direction::reverse
@ret r
ensures sends(r) == recvs(*self), recvs(r) == sends(*self)
//@end
//@fn Direction::is_compatible_with
ensures true
//@end
//@fn Direction::negotiate
@ret r
ensures match r { Ok(d) => (sends(d) ==> sends(*self)) && (recvs(d) ==> recvs(*self)), Err(e) => e == NegotiationError::IncompatibleDirection }
//@end
}
//@fn extract_direction
@ret r
ensures r == dir1(attributes@)
@loop 1
invariant_except_break i__ <= attributes@.len(), f__.is_none(), i__ == attributes@.len() ==> dirs(attributes@).len() == 0, forall|j: int| 0 <= j < i__ ==> dir_attr(#[trigger] attributes@[j]).is_none()
ensures f__ == dir1(attributes@)
decreases attributes@.len() - i__
//@end
//@fn base_answer_media
@ret r
ensures r.media_type == offer_media.media_type, r.protocol == offer_media.protocol, r.port == port, r.formats@.len() == 0, r.attributes@.len() == 0
//@end
//@fn create_rejected_media
@ret r
ensures match r { Ok(m) => rejected(*offer_media, m), Err(_) => true }
//@end
//@fn is_rtp_protocol
@ret r
ensures r == rtp(*protocol)
//@end
//@fn parse_payload_type
@ret r
ensures r == pt_of(fmt@)
//@end
//@fn local_supports_static_pt
@ret r
ensures r == has_pt(local_media.formats@, pt)
@loop 1
invariant_except_break i__ <= local_media.formats@.len(), !f__, forall|j: int| 0 <= j < i__ ==> pt_of((#[trigger] local_media.formats@[j])@) != Some(pt)
ensures f__ == has_pt(local_media.formats@, pt)
decreases local_media.formats@.len() - i__
//@end
//@fn find_matching_dynamic_rtpmap
@ret r
ensures match r { Some(l) => dyn_match(*local_media, *offer_rtpmap, l), None => forall|l: RtpMap| !#[trigger] dyn_match(*local_media, *offer_rtpmap, l) }
@loop 1
invariant_except_break k__ <= vs__@.len(), g__.is_none(),
    forall|j: int| 0 <= j < k__ ==> !(has_pt(local_media.formats@, (#[trigger] vs__@[j]).payload_type) && same_codec(*offer_rtpmap, *vs__@[j]))
invariant
    forall|i: int| 0 <= i < vs__@.len() ==> has_map(local_media.rtpmaps@, *#[trigger] vs__@[i]),
    forall|k: u8| #[trigger] local_media.rtpmaps@.contains_key(k) ==> exists|i: int| 0 <= i < vs__@.len() && *#[trigger] vs__@[i] == local_media.rtpmaps@[k],
ensures match g__ { Some(l) => dyn_match(*local_media, *offer_rtpmap, l), None => forall|l: RtpMap| !#[trigger] dyn_match(*local_media, *offer_rtpmap, l) }
decreases vs__@.len() - k__
@loop 2
invariant_except_break i__ <= local_media.formats@.len(), !f__, forall|j: int| 0 <= j < i__ ==> pt_of((#[trigger] local_media.formats@[j])@) != Some(local_rtpmap.payload_type)
ensures f__ == has_pt(local_media.formats@, local_rtpmap.payload_type)
decreases local_media.formats@.len() - i__
//@end
//@fn find_common_formats
@rewrite let mut common = Vec :: new ( ) ==> let mut common: Vec<NegotiatedFormat> = Vec::new()
@rewrite for offer_fmt in & offer_media . formats { $*b } ==> let mut n__: usize = 0; while n__ < offer_media.formats.len() { let offer_fmt = &offer_media.formats[n__]; n__ += 1; $b }
@ret r
ensures forall|i: int| 0 <= i < r@.len() ==> has_fmt(offer_media.formats@, (#[trigger] r@[i]).offered_format@) && takes(*offer_media, *local_media, r@[i].offered_format@) && noted(*offer_media, *local_media, r@[i])
@loop 1
invariant n__ <= offer_media.formats@.len(), rtp(offer_media.protocol),
    forall|i: int| 0 <= i < common@.len() ==> has_fmt(offer_media.formats@, (#[trigger] common@[i]).offered_format@) && takes(*offer_media, *local_media, common@[i].offered_format@) && noted(*offer_media, *local_media, common@[i])
decreases offer_media.formats@.len() - n__
@loop 2
invariant n__ <= offer_media.formats@.len(), !rtp(offer_media.protocol),
    forall|i: int| 0 <= i < common@.len() ==> has_fmt(offer_media.formats@, (#[trigger] common@[i]).offered_format@) && takes(*offer_media, *local_media, common@[i].offered_format@) && noted(*offer_media, *local_media, common@[i])
decreases offer_media.formats@.len() - n__
@loop 3
invariant_except_break j__ <= local_media.formats@.len(), !f__, forall|j: int| 0 <= j < j__ ==> (#[trigger] local_media.formats@[j])@ != offer_fmt@
ensures f__ == has_fmt(local_media.formats@, offer_fmt@)
decreases local_media.formats@.len() - j__
//@end
//@fn generate_session_id
ensures true
@trusted
//@end
//@fn negotiate_media
@rewrite Ok ( answer_media ) ==> { proof { lem_fits(*offer, *local_capabilities, *offer_media, *local_media, answer_media, common_formats@); } Ok(answer_media) }
@rewrite for negotiated in & common_formats { let pt $*b } ==> let mut m__: usize = 0; while m__ < common_formats.len() { let negotiated = &common_formats[m__]; m__ += 1; let pt $b }
@rewrite for negotiated in & common_formats { $*b } ==> let mut n__: usize = 0; while n__ < common_formats.len() { let negotiated = &common_formats[n__]; n__ += 1; let ghost am0__ = answer_media; $b proof { assert(common_formats@[n__ - 1] == *negotiated); lem_maps(*offer_media, *local_media, am0__, answer_media, *negotiated); } }
@ret r
ensures match r { Ok(m) => accepted(*offer, *local_capabilities, *offer_media, m), Err(_) => true }
@entry
proof { names_distinct(); }
@loop 1
invariant n__ <= common_formats@.len(), forall|i: int| 0 <= i < common_formats@.len() ==> noted(*offer_media, *local_media, #[trigger] common_formats@[i]), answer_media.formats@.len() == n__,
    forall|k: int| 0 <= k < n__ ==> (#[trigger] answer_media.formats@[k])@ == common_formats@[k].offered_format@,
    answer_media.media_type == offer_media.media_type, answer_media.protocol == offer_media.protocol, answer_media.port == local_media.port,
    dirs(answer_media.attributes@).len() == 0,
    maps_ok(*offer_media, *local_media, answer_media.rtpmaps@, answer_media.formats@),
decreases common_formats@.len() - n__
@loop 2
invariant m__ <= common_formats@.len(), answer_media.formats@.len() == common_formats@.len(),
    forall|k: int| 0 <= k < common_formats@.len() ==> (#[trigger] answer_media.formats@[k])@ == common_formats@[k].offered_format@,
    answer_media.media_type == offer_media.media_type, answer_media.protocol == offer_media.protocol, answer_media.port == local_media.port,
    dirs(answer_media.attributes@).len() == 0,
    maps_ok(*offer_media, *local_media, answer_media.rtpmaps@, answer_media.formats@),
decreases common_formats@.len() - m__
//@end
//@fn negotiate_answer
@rewrite for offer_media in & offer . media { $*b } ==> let mut i__: usize = 0; while i__ < offer.media.len() { let offer_media = &offer.media[i__]; i__ += 1; $b }
@ret r
ensures match r { Ok(a) => a.media@.len() == offer.media@.len() && answered(*offer, *local_capabilities, a.media@) && a.attributes@.len() == 0, Err(_) => true }
@loop 1
invariant i__ <= offer.media@.len(), answer_builder.sdp.media@.len() == i__, answered(*offer, *local_capabilities, answer_builder.sdp.media@), answer_builder.sdp.attributes@.len() == 0,
decreases offer.media@.len() - i__
@loop 2
invariant j__ <= accepted_types@.len()
decreases accepted_types@.len() - j__
//@end
} // verus!
