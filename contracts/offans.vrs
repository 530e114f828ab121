//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite HashMap < String , RtpMap > ==> SMap
//@rewrite HashMap :: new ( ) ==> SMap::new()
//@rewrite fmtp . as_deref ( ) ==> fmtp.x_deref()
//@rewrite encoding_params . as_deref ( ) ==> encoding_params.x_deref()
//@rewrite mid . as_deref ( ) ==> mid.x_deref()
//@rewrite params . parse :: < u16 > ( ) . ok ( ) == Some ( codec_channels ) ==> x_ou16_is(params.xp_u16().ok(), codec_channels)
//@rewrite attr . name == $l ==> attr.name.as_str() == $l
//@rewrite Direction :: parse ( & attr . name ) ==> Direction::parse(attr.name.as_str())
//@rewrite . splitn ( 2 , ' ' ) . collect ( ) ==> .x_splitn2v(' ')
//@rewrite . split ( '/' ) . collect ( ) ==> .x_split_c('/')
//@rewrite parts [ 0 ] . parse ( ) ==> parts[0].xp_u8()
//@rewrite encoding_parts [ 1 ] . parse ( ) ==> encoding_parts[1].xp_u32()
//@rewrite s . contains ( & [ '\r' , '\n' , '\0' ] [ .. ] ) ==> x_has_line(s)
//@rewrite self . media . get ( idx ) ? . attributes ==> (match self.media.get(idx) { Some(m__) => m__, None => { return None; } }).attributes
//@rewrite for attr in attrs { $*b } ==> let mut a__: usize = 0; while a__ < attrs.len() { let attr = &attrs[a__]; a__ += 1; $b proof { if a__ == attrs@.len() { dirs_none(attrs@); } } }
//@rewrite . to_string ( ) , ) ) ? ==> .to_string(),))?
//@include errx
//@include strit
//@include fmt
verus! {
broadcast use {prel::str_ext, omx::string_ext, spec::dirs_push, spec::named_push, omx::vec_bound_s, omx::vec_bound_a, omx::vec_bound_m};
pub mod omx {
    use super::*;
    pub broadcast axiom fn string_ext(a: String, b: String) ensures #[trigger] (a@) == #[trigger] (b@) ==> a == b;
    /// a Vec of values that take space holds at most isize::MAX of them
    pub broadcast axiom fn vec_bound_s(v: Vec<String>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    pub broadcast axiom fn vec_bound_a(v: Vec<Attribute>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    pub broadcast axiom fn vec_bound_m(v: Vec<MediaDescription>) ensures #[trigger] v@.len() <= isize::MAX as nat;
    /// std HashMap<String, RtpMap> (assumed)
    #[verifier::external_body] pub struct SMap { _p: () }
    impl View for SMap { type V = Map<Seq<char>, RtpMap>; uninterp spec fn view(&self) -> Map<Seq<char>, RtpMap>; }
    impl SMap {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, RtpMap>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&RtpMap>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: String, v: RtpMap) -> (r: Option<RtpMap>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    }
    pub trait XDeref { spec fn od(&self) -> Option<Seq<char>>; fn x_deref(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.od() == Some(t@), None => self.od().is_none() }; }
    impl XDeref for Option<String> { open spec fn od(&self) -> Option<Seq<char>> { otext(*self) } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
    pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
    #[verifier::external_body] pub fn x_ou16_is(a: Option<u16>, b: u16) -> (r: bool) ensures r == (a == Some(b)) { unimplemented!() }
    #[verifier::external_body] pub fn x_has_line(s: &str) -> (r: bool) ensures r == (s@.contains('\r') || s@.contains('\n') || s@.contains('\0')) { unimplemented!() }
    #[verifier::external_body] pub fn x_own(o: Option<&str>) -> (r: Option<String>) ensures match o { Some(t) => r.is_some() && (r->0)@ == t@, None => r.is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn x_rtcp(o: Option<&RtcpAttribute>) -> (r: Option<RtcpAttribute>) ensures r == (match o { Some(t) => Some(*t), None => None }) { unimplemented!() }
    #[verifier::external_body] pub fn x_caps(o: Option<&SdpCapabilitySet>) -> (r: Option<SdpCapabilitySet>) ensures r == (match o { Some(t) => Some(*t), None => None }) { unimplemented!() }
    #[verifier::external_body] pub fn x_timing(o: &Vec<Timing>) -> (r: Vec<Timing>) ensures r@ == o@ { unimplemented!() }
    #[verifier::external_body] pub fn x_fmts(o: &[String]) -> (r: Vec<String>) ensures r@ == o@ { unimplemented!() }
    pub trait XSplitV { spec fn snv(&self) -> Seq<char>;
        /// splitn(2, c) collected: what is before the first c, and what is after it
        fn x_splitn2v<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
            ensures if occ(self.snv(), Pat::C(c)) { r@.len() == 2 && r@[0]@ == self.snv().take(fidx(self.snv(), Pat::C(c))) && r@[1]@ == self.snv().skip(fidx(self.snv(), Pat::C(c)) + 1) } else { r@.len() == 1 && r@[0]@ == self.snv() };
    }
    impl XSplitV for str { open spec fn snv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_splitn2v<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() } }
    #[verifier::external_body] pub struct MediaGroup { _p: () }
    #[verifier::external_body] pub struct SdpCapabilitySet { _p: () }
    #[verifier::external_body] pub struct Bandwidth { _p: () }
    #[verifier::external_body] pub struct RepeatTime { _p: () }
    #[verifier::external_body] pub struct TimeZone { _p: () }
    #[verifier::external_body] pub struct EncryptionKey { _p: () }
    #[verifier::external_body] pub struct RtcpAttribute { _p: () }
}
use omx::*;

//@file crates/sip-core/src/sdp.rs
//@enum SdpError derive=
//@const MAX_ENCODING_NAME_LEN
//@const MAX_FORMAT_LEN
//@const MAX_FMTP_PARAMS_LEN
//@const MAX_PAYLOAD_TYPE
//@const MAX_CLOCK_RATE
//@struct SdpSession
//@struct Origin
//@struct Connection
//@struct Timing
//@struct Attribute
//@struct MediaDescription
//@enum Direction derive=Clone,Copy
//@struct RtpMap
//@struct Fmtp
//@enum PreconditionType derive=
//@enum StrengthTag derive=Clone,Copy
//@enum StatusType derive=Clone,Copy
//@enum PreconditionDirection derive=Clone,Copy
//@struct CurrentStatus
//@struct DesiredStatus
//@struct ConfirmStatus
impl Clone for PreconditionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for StrengthTag { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &StrengthTag) -> bool { *self == *o } }
impl PartialEq for StrengthTag { #[verifier::external_body] fn eq(&self, o: &StrengthTag) -> (r: bool) { unimplemented!() } }

//@file crates/sip-core/src/sdp_offer_answer.rs
//@const MAX_MEDIA_STREAMS
//@enum NegotiationError derive=
//@struct AnswerOptions
//@struct CodecInfo
//@struct OfferAnswerEngine

pub mod spec {
    use super::*;
    /// the direction a property attribute stands for
    pub open spec fn dir_name(s: Seq<char>) -> Option<Direction> {
        if s == "sendrecv"@ { Some(Direction::SendRecv) } else if s == "sendonly"@ { Some(Direction::SendOnly) }
        else if s == "recvonly"@ { Some(Direction::RecvOnly) } else if s == "inactive"@ { Some(Direction::Inactive) } else { None }
    }
    pub open spec fn dir_attr(a: Attribute) -> Option<Direction> { if a.value.is_none() { dir_name(a.name@) } else { None } }
    /// the direction attributes among attrs, in order
    pub open spec fn dirs(attrs: Seq<Attribute>) -> Seq<Direction> decreases attrs.len() {
        if attrs.len() == 0 { Seq::empty() } else { match dir_attr(attrs.last()) { Some(d) => dirs(attrs.drop_last()).push(d), None => dirs(attrs.drop_last()) } }
    }
    pub open spec fn dir1(attrs: Seq<Attribute>) -> Option<Direction> { if dirs(attrs).len() > 0 { Some(dirs(attrs)[0]) } else { None } }
    /// the direction of a section: its own, else the session's, else both ways
    pub open spec fn sec_dir(s: SdpSession, m: MediaDescription) -> Direction {
        match dir1(m.attributes@) { Some(d) => d, None => match dir1(s.attributes@) { Some(d) => d, None => Direction::SendRecv } }
    }
    pub open spec fn sends(d: Direction) -> bool { d == Direction::SendRecv || d == Direction::SendOnly }
    pub open spec fn recvs(d: Direction) -> bool { d == Direction::SendRecv || d == Direction::RecvOnly }
    /// an answerer's direction the offerer's direction allows
    pub open spec fn allows(offer: Direction, answer: Direction) -> bool { (sends(answer) ==> recvs(offer)) && (recvs(answer) ==> sends(offer)) }
    pub open spec fn has_fmt(fs: Seq<String>, f: Seq<char>) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i])@ == f }
    /// an rtpmap value "<payload> <name>/<rate>[/<parameters>]" stands for m
    pub open spec fn rtp_of(v: Seq<char>, m: RtpMap) -> bool {
        let k = fidx(v, Pat::C(' ')); let fs = fields(v.skip(k + 1), '/');
        occ(v, Pat::C(' ')) && unum(v.take(k), 255) == Some(m.payload_type as nat) && m.payload_type <= 127
        && fs.len() >= 2 && m.encoding_name@ == fs[0] && unum(fs[1], 0xffff_ffff) == Some(m.clock_rate as nat) && m.clock_rate > 0
        && otext(m.encoding_params) == (if fs.len() > 2 { Some(fs[2]) } else { None })
    }
    pub open spec fn rtext(m: RtpMap) -> Seq<char> {
        let b = dtext(m.payload_type as nat) + " "@ + m.encoding_name@ + "/"@ + dtext(m.clock_rate as nat);
        match m.encoding_params { Some(p) => b + "/"@ + p@, None => b }
    }
    /// attribute a declares the mapping m
    pub open spec fn declares(a: Attribute, m: RtpMap) -> bool { a.name@ == "rtpmap"@ && a.value.is_some() && rtp_of((a.value->0)@, m) }
    /// what the payload types with a fixed meaning stand for (RFC 3551)
    pub open spec fn fixed(k: Seq<char>, pt: u8, name: Seq<char>) -> bool {
        (k == "0"@ && pt == 0 && name == "PCMU"@) || (k == "8"@ && pt == 8 && name == "PCMA"@) || (k == "3"@ && pt == 3 && name == "GSM"@)
        || (k == "4"@ && pt == 4 && name == "G723"@) || (k == "9"@ && pt == 9 && name == "G722"@) || (k == "18"@ && pt == 18 && name == "G729"@)
    }
    pub open spec fn static_map(k: Seq<char>, m: RtpMap) -> bool { fixed(k, m.payload_type, m.encoding_name@) && m.clock_rate == 8000 && m.encoding_params.is_none() }
    /// the section's attributes among the first n declare that payload type k stands for codec m
    pub open spec fn mapped(s: MediaDescription, k: Seq<char>, m: RtpMap, n: int) -> bool {
        k == dtext(m.payload_type as nat) && exists|i: int| 0 <= i < n && declares(#[trigger] s.attributes@[i], m)
    }
    /// the section says that payload type k stands for codec m
    pub open spec fn offers(s: MediaDescription, k: Seq<char>, m: RtpMap) -> bool { mapped(s, k, m, s.attributes@.len() as int) || static_map(k, m) }
    pub open spec fn codec_is(c: CodecInfo, m: RtpMap) -> bool {
        eq_ci(c.name@, m.encoding_name@) && c.clock_rate == m.clock_rate && match (c.channels, m.encoding_params) {
            (Some(n), Some(p)) => unum(p@, 65535) == Some(n as nat), (Some(n), None) => n == 1, (None, Some(_)) => false, (None, None) => true }
    }
    /// the codecs configured for a media type
    pub open spec fn codecs(o: AnswerOptions, t: Seq<char>) -> Seq<CodecInfo> { if t == "audio"@ { o.audio_codecs@ } else if t == "video"@ { o.video_codecs@ } else { Seq::empty() } }
    pub open spec fn knows(o: AnswerOptions, t: Seq<char>, m: RtpMap) -> bool { exists|i: int| 0 <= i < codecs(o, t).len() && codec_is(#[trigger] codecs(o, t)[i], m) }
    /// one of the attributes is the mapping m, written out
    pub open spec fn named(a: Seq<Attribute>, m: RtpMap) -> bool { exists|i: int| 0 <= i < a.len() && is_map(#[trigger] a[i], m) }
    pub open spec fn is_map(a: Attribute, m: RtpMap) -> bool { a.name@ == "rtpmap"@ && a.value.is_some() && (a.value->0)@ == rtext(m) }
    /// payload type f was offered as codec m, which is configured and declared in the answer
    pub open spec fn taken(o: AnswerOptions, om: MediaDescription, attrs: Seq<Attribute>, f: Seq<char>, m: RtpMap) -> bool {
        has_fmt(om.fmt@, f) && offers(om, f, m) && knows(o, om.media@, m) && named(attrs, m)
    }
    pub open spec fn is_taken(o: AnswerOptions, om: MediaDescription, attrs: Seq<Attribute>, f: Seq<char>) -> bool { exists|m: RtpMap| #[trigger] taken(o, om, attrs, f, m) }
    pub open spec fn pick(o: AnswerOptions, om: MediaDescription, c: (String, &RtpMap)) -> bool { has_fmt(om.fmt@, c.0@) && offers(om, c.0@, *c.1) && knows(o, om.media@, *c.1) }
    /// an accepted section: only what was offered and is supported, in a direction the offer allows
    pub open spec fn accepted(offer: SdpSession, o: AnswerOptions, om: MediaDescription, am: MediaDescription) -> bool {
        am.media@ == om.media@ && am.proto@ == om.proto@ && am.fmt@.len() > 0
        && (forall|i: int| 0 <= i < am.fmt@.len() ==> is_taken(o, om, am.attributes@, (#[trigger] am.fmt@[i])@))
        && dirs(am.attributes@).len() == 1 && allows(sec_dir(offer, om), dirs(am.attributes@)[0])
    }
    pub open spec fn rejected(om: MediaDescription, am: MediaDescription) -> bool { am.media@ == om.media@ && am.proto@ == om.proto@ && am.port == 0 && am.fmt@ == om.fmt@ }
    pub open spec fn answers(offer: SdpSession, o: AnswerOptions, om: MediaDescription, am: MediaDescription) -> bool { rejected(om, am) || (om.port != 0 && accepted(offer, o, om, am)) }
    pub open spec fn turned_down(o: AnswerOptions, i: int) -> bool { exists|j: int| 0 <= j < o.reject_media@.len() && #[trigger] o.reject_media@[j] == i }
    /// the sections answered so far; accepted ones stand on ports of their own
    pub open spec fn answered(offer: SdpSession, o: AnswerOptions, ms: Seq<MediaDescription>) -> bool {
        ms.len() <= offer.media@.len() && (forall|i: int| 0 <= i < ms.len() ==> answers(offer, o, offer.media@[i], #[trigger] ms[i]))
        && (forall|i: int| 0 <= i < ms.len() && turned_down(o, i) ==> (#[trigger] ms[i]).port == 0)
        && (forall|i: int, j: int| 0 <= i < j < ms.len() && (#[trigger] ms[i]).port != 0 && (#[trigger] ms[j]).port != 0 ==> ms[i].port + 2 <= ms[j].port)
    }
    pub proof fn names_distinct()
        ensures "sendrecv"@ != "sendonly"@, "sendrecv"@ != "recvonly"@, "sendrecv"@ != "inactive"@, "sendonly"@ != "recvonly"@, "sendonly"@ != "inactive"@, "recvonly"@ != "inactive"@
    {
        reveal_strlit("sendrecv"); reveal_strlit("sendonly"); reveal_strlit("recvonly"); reveal_strlit("inactive");
        assert("sendrecv"@[4] != "sendonly"@[4]); assert("sendrecv"@[0] != "recvonly"@[0]); assert("sendrecv"@[0] != "inactive"@[0]);
        assert("sendonly"@[0] != "recvonly"@[0]); assert("sendonly"@[0] != "inactive"@[0]); assert("recvonly"@[0] != "inactive"@[0]);
    }
    pub broadcast proof fn dirs_push(a: Seq<Attribute>, x: Attribute)
        ensures #[trigger] dirs(a.push(x)) == (match dir_attr(x) { Some(d) => dirs(a).push(d), None => dirs(a) })
    { assert(a.push(x).drop_last() =~= a); }
    pub broadcast proof fn named_push(a: Seq<Attribute>, x: Attribute, m: RtpMap)
        ensures #[trigger] named(a.push(x), m) == (named(a, m) || is_map(x, m))
    {
        if named(a, m) { let i = choose|i: int| 0 <= i < a.len() && is_map(#[trigger] a[i], m); assert(a.push(x)[i] == a[i]); }
        if is_map(x, m) { assert(a.push(x)[a.len() as int] == x); }
        if named(a.push(x), m) { let i = choose|i: int| 0 <= i < a.push(x).len() && is_map(#[trigger] a.push(x)[i], m); if i < a.len() { assert(a[i] == a.push(x)[i]); } }
    }
    /// taking out an attribute that is no direction changes no direction
    pub proof fn dirs_none(a: Seq<Attribute>)
        ensures (forall|j: int| 0 <= j < a.len() ==> dir_attr(#[trigger] a[j]).is_none()) ==> dirs(a).len() == 0
        decreases a.len()
    { if a.len() > 0 { dirs_none(a.drop_last()); if forall|j: int| 0 <= j < a.len() ==> dir_attr(#[trigger] a[j]).is_none() { assert forall|j: int| 0 <= j < a.len() - 1 implies dir_attr(#[trigger] a.drop_last()[j]).is_none() by { assert(a.drop_last()[j] == a[j]); } } } }
    /// the first direction found by a scan
    pub proof fn dirs_first(a: Seq<Attribute>, i: int)
        requires 0 <= i < a.len(), forall|j: int| 0 <= j < i ==> dir_attr(#[trigger] a[j]).is_none(), dir_attr(a[i]).is_some()
        ensures dir1(a) == dir_attr(a[i])
        decreases a.len()
    {
        let b = a.drop_last();
        if a.len() == i + 1 { assert forall|j: int| 0 <= j < b.len() implies dir_attr(#[trigger] b[j]).is_none() by { assert(b[j] == a[j]); } dirs_none(b); }
        else { assert(b[i] == a[i]); assert forall|j: int| 0 <= j < i implies dir_attr(#[trigger] b[j]).is_none() by { assert(b[j] == a[j]); } dirs_first(b, i); }
    }
    pub proof fn dirs_clean(a: Seq<Attribute>)
        requires forall|j: int| 0 <= j < a.len() ==> dir_attr(#[trigger] a[j]).is_none()
        ensures dirs(a).len() == 0
    { dirs_none(a); }
    /// P19: a finished answer has a section for each offered one, in order, each a valid answer to it
    pub proof fn p19_engine(offer: SdpSession, o: AnswerOptions, a: SdpSession, i: int)
        requires answered(offer, o, a.media@), a.media@.len() == offer.media@.len(), 0 <= i < a.media@.len()
        ensures a.media@[i].media@ == offer.media@[i].media@, a.media@[i].proto@ == offer.media@[i].proto@,
            offer.media@[i].port == 0 ==> a.media@[i].port == 0,
            a.media@[i].port != 0 ==> (forall|k: int| 0 <= k < a.media@[i].fmt@.len() ==> has_fmt(offer.media@[i].fmt@, (#[trigger] a.media@[i].fmt@[k])@)),
            a.media@[i].port != 0 ==> allows(sec_dir(offer, offer.media@[i]), dirs(a.media@[i].attributes@)[0]),
    {
        assert(answers(offer, o, offer.media@[i], a.media@[i]));
        if a.media@[i].port != 0 {
            assert forall|k: int| 0 <= k < a.media@[i].fmt@.len() implies has_fmt(offer.media@[i].fmt@, (#[trigger] a.media@[i].fmt@[k])@) by {
                assert(is_taken(o, offer.media@[i], a.media@[i].attributes@, a.media@[i].fmt@[k]@));
            }
        }
    }
}
use spec::*;

//@file crates/sip-core/src/sdp.rs
//@fn validate_string
ensures true
@loop 1
invariant i__ <= cs__@.len()
decreases cs__@.len() - i__
//@end
//@fn validate_payload_type
@ret r
ensures r.is_ok() ==> pt <= 127
//@end
//@fn validate_clock_rate
@ret r
ensures r.is_ok() ==> rate > 0
//@end
impl Direction {
//@fn Direction::as_str
@ret r
ensures dir_name(r@) == Some(self)
@entry
proof { names_distinct(); }
//@end
//@fn Direction::parse
@ret r
ensures r == dir_name(s@)
@entry
proof { names_distinct(); }
//@end
}
impl RtpMap {
//@fn RtpMap::parse
@rewrite params . to_string ( ) ==> params.x_text()
@ret r
ensures match r { Some(m) => rtp_of(value@, m), None => true }
//@end
//@fn RtpMap::to_value
@fmt
@ret r
ensures r@ =~= rtext(*self)
//@end
//@fn RtpMap::payload_type
@ret r
ensures r == self.payload_type
//@end
//@fn RtpMap::encoding_name
@ret r
ensures r@ == self.encoding_name@
//@end
//@fn RtpMap::clock_rate
@ret r
ensures r == self.clock_rate
//@end
//@fn RtpMap::encoding_params
@ret r
ensures match r { Some(t) => otext(self.encoding_params) == Some(t@), None => self.encoding_params.is_none() }
//@end
}
impl Fmtp {
//@fn Fmtp::parse
ensures true
//@end
//@fn Fmtp::format
@ret r
ensures r@ == self.format@
//@end
}
impl StatusType {
//@fn StatusType::invert
@ret r
ensures match self { StatusType::E2E => r == StatusType::E2E, StatusType::Local => r == StatusType::Remote, StatusType::Remote => r == StatusType::Local }
//@end
}
impl PreconditionDirection {
//@fn PreconditionDirection::invert
@ret r
ensures match self { PreconditionDirection::Send => r == PreconditionDirection::Recv, PreconditionDirection::Recv => r == PreconditionDirection::Send, _ => r == self }
//@end
}
impl CurrentStatus {
#[verifier::external_body] pub fn parse(value: &str) -> Result<CurrentStatus, SdpError> { unimplemented!() }
#[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
}
impl DesiredStatus {
#[verifier::external_body] pub fn parse(value: &str) -> Result<DesiredStatus, SdpError> { unimplemented!() }
#[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
}
impl ConfirmStatus {
#[verifier::external_body] pub fn parse(value: &str) -> Result<ConfirmStatus, SdpError> { unimplemented!() }
#[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
}
impl MediaDescription {
//@fn MediaDescription::media
@ret r
ensures r@ == self.media@
//@end
//@fn MediaDescription::port
@ret r
ensures r == self.port
//@end
//@fn MediaDescription::proto
@ret r
ensures r@ == self.proto@
//@end
//@fn MediaDescription::fmt
@rewrite & self . fmt ==> self.fmt.as_slice()
@ret r
ensures r@ == self.fmt@
//@end
//@fn MediaDescription::attributes
@rewrite & self . attributes ==> self.attributes.as_slice()
@ret r
ensures r@ == self.attributes@
//@end
//@fn MediaDescription::mid
ensures true
//@end
//@fn MediaDescription::rtcp
ensures true
//@end
//@fn MediaDescription::capability_set
ensures true
//@end
}
impl SdpSession {
//@fn SdpSession::new
@ret r
ensures r.media@.len() == 0, r.attributes@.len() == 0
//@end
//@fn SdpSession::media
@rewrite & self . media ==> self.media.as_slice()
@ret r
ensures r@ == self.media@
//@end
//@fn SdpSession::session_name
@ret r
ensures r@ == self.session_name@
//@end
//@fn SdpSession::find_direction
@rewrite return Some ( dir ) ==> { proof { dirs_first(attrs@, a__ - 1); } return Some(dir) }
@ret r
ensures media_idx.is_none() ==> r == dir1(self.attributes@), media_idx.is_some() && (media_idx->0) < self.media@.len() ==> r == dir1(self.media@[media_idx->0 as int].attributes@)
@entry
proof { dirs_none(self.attributes@); if media_idx.is_some() && (media_idx->0) < self.media@.len() { dirs_none(self.media@[media_idx->0 as int].attributes@); } }
@loop 1
invariant a__ <= attrs@.len(), media_idx.is_none() ==> attrs@ == self.attributes@, media_idx.is_some() ==> (media_idx->0) < self.media@.len() && attrs@ == self.media@[media_idx->0 as int].attributes@, forall|j: int| 0 <= j < a__ ==> dir_attr(#[trigger] attrs@[j]).is_none(),
    a__ == attrs@.len() ==> dirs(attrs@).len() == 0,
decreases attrs@.len() - a__
//@end
}
//@file crates/sip-core/src/sdp_offer_answer.rs
impl CodecInfo {
//@fn CodecInfo::clock_rate
@ret r
ensures r == self.clock_rate
//@end
//@fn CodecInfo::matches
@ret r
ensures r == codec_is(*self, *rtpmap)
//@end
}
impl AnswerOptions {
//@fn AnswerOptions::local_address
ensures true
//@end
//@fn AnswerOptions::base_port
@ret r
ensures r == self.base_port
//@end
//@fn AnswerOptions::audio_codecs
@rewrite & self . audio_codecs ==> self.audio_codecs.as_slice()
@ret r
ensures r@ == self.audio_codecs@
//@end
//@fn AnswerOptions::video_codecs
@rewrite & self . video_codecs ==> self.video_codecs.as_slice()
@ret r
ensures r@ == self.video_codecs@
//@end
//@fn AnswerOptions::direction_override
@ret r
ensures r == self.direction_override
//@end
//@fn AnswerOptions::reject_media
@rewrite & self . reject_media ==> self.reject_media.as_slice()
@ret r
ensures r@ == self.reject_media@
//@end
//@fn AnswerOptions::username
ensures true
//@end
//@fn AnswerOptions::session_id
ensures true
//@end
//@fn AnswerOptions::qos_local_status
ensures true
//@end
//@fn AnswerOptions::qos_remote_status
ensures true
//@end
//@fn AnswerOptions::upgrade_preconditions_to_mandatory
ensures true
//@end
}
impl OfferAnswerEngine {
//@fn OfferAnswerEngine::generate_answer
@rewrite answer . timing = offer . timing . clone ( ) ; ==> answer.timing = x_timing(&offer.timing);
@rewrite options . reject_media ( ) . contains ( & idx ) ==> ({ let rj__ = options.reject_media(); let mut f__ = false; let mut j__: usize = 0; while j__ < rj__.len() { if rj__[j__] == idx { f__ = true; break; } j__ += 1; } f__ })
@rewrite for ( idx , offer_media ) in offer . media ( ) . iter ( ) . enumerate ( ) { $*b } ==> let om__ = offer.media(); let mut i__: usize = 0; while i__ < om__.len() { let idx = i__; let offer_media = &om__[i__]; i__ += 1; $b }
@ret r
ensures match r { Ok(a) => a.media@.len() == offer.media@.len() && answered(*offer, options, a.media@) && a.attributes@.len() == 0, Err(_) => offer.media@.len() > MAX_MEDIA_STREAMS }
@loop 1
invariant i__ <= om__@.len(), om__@ == offer.media@, answer.media@.len() == i__, answered(*offer, options, answer.media@), answer.attributes@.len() == 0,
    forall|i: int| 0 <= i < i__ && (#[trigger] answer.media@[i]).port != 0 ==> (match next_port { Some(p) => answer.media@[i].port + 2 <= p, None => true }),
decreases om__@.len() - i__
@loop 2
invariant_except_break j__ <= rj__@.len(), !f__, forall|k: int| 0 <= k < j__ ==> #[trigger] rj__@[k] != idx
invariant rj__@ == options.reject_media@
ensures f__ == turned_down(options, idx as int)
decreases rj__@.len() - j__
//@end
//@fn OfferAnswerEngine::negotiate_media
@rewrite self . handle_preconditions ( offer_media , options , & mut attributes ) ; ==> let ghost at1__ = attributes@; self.handle_preconditions(offer_media, options, &mut attributes); proof { assert forall|i: int| 0 <= i < fmt@.len() implies is_taken(*options, *offer_media, attributes@, (#[trigger] fmt@[i])@) by { assert(pick(*options, *offer_media, common_codecs@[i])); assert(named(at1__, *common_codecs@[i].1)); assert(named(attributes@, *common_codecs@[i].1)); assert(taken(*options, *offer_media, attributes@, fmt@[i]@, *common_codecs@[i].1)); } }
@rewrite let mut common_codecs : Vec < ( String , & RtpMap ) > = Vec :: new ( ) ; ==> let mut common_codecs: Vec<(String, &RtpMap)> = Vec::new(); let fm__ = offer_media.fmt();
@rewrite for payload in offer_media . fmt ( ) { $*b } ==> let mut i__: usize = 0; while i__ < fm__.len() { let payload = &fm__[i__]; i__ += 1; $b }
@rewrite for codec in supported_codecs { $*b } ==> let mut j__: usize = 0; while j__ < supported_codecs.len() { let codec = &supported_codecs[j__]; j__ += 1; $b }
@rewrite common_codecs . iter ( ) . map ( | ( pt , _ ) | pt . clone ( ) ) . collect ( ) ==> { let mut o__: Vec<String> = Vec::new(); let mut k__: usize = 0; while k__ < common_codecs.len() { o__.push(common_codecs[k__].0.clone()); k__ += 1; } o__ }
@rewrite let mut attributes = Vec :: new ( ) ; ==> let mut attributes: Vec<Attribute> = Vec::new();
@rewrite for ( payload , rtpmap ) in & common_codecs { $*b } ==> let mut n__: usize = 0; while n__ < common_codecs.len() { let payload = &common_codecs[n__].0; let rtpmap = common_codecs[n__].1; n__ += 1; $b }
@rewrite offer_media . mid ( ) . map ( String :: from ) ==> x_own(offer_media.mid())
@rewrite offer_media . rtcp ( ) . cloned ( ) ==> x_rtcp(offer_media.rtcp())
@rewrite offer_media . capability_set ( ) . cloned ( ) ==> x_caps(offer_media.capability_set())
@ret r
ensures match r { Ok(m) => accepted(*offer, *options, *offer_media, m) && m.port == port, Err(_) => true }
@loop 1
invariant i__ <= fm__@.len(), fm__@ == offer_media.fmt@, supported_codecs@ == codecs(*options, offer_media.media@),
    forall|k: Seq<char>| #[trigger] offer_rtpmaps@.contains_key(k) ==> offers(*offer_media, k, offer_rtpmaps@[k]),
    forall|k: int| 0 <= k < common_codecs@.len() ==> pick(*options, *offer_media, #[trigger] common_codecs@[k]),
decreases fm__@.len() - i__
@loop 2
invariant j__ <= supported_codecs@.len(), supported_codecs@ == codecs(*options, offer_media.media@), offers(*offer_media, payload@, *rtpmap), has_fmt(offer_media.fmt@, payload@),
    forall|k: int| 0 <= k < common_codecs@.len() ==> pick(*options, *offer_media, #[trigger] common_codecs@[k]),
decreases supported_codecs@.len() - j__
@loop 3
invariant k__ <= common_codecs@.len(), o__@.len() == k__, forall|k: int| 0 <= k < k__ ==> (#[trigger] o__@[k])@ == common_codecs@[k].0@,
decreases common_codecs@.len() - k__
@loop 4
invariant n__ <= common_codecs@.len(), dirs(attributes@).len() == 0, forall|k: int| 0 <= k < n__ ==> named(attributes@, *(#[trigger] common_codecs@[k]).1),
decreases common_codecs@.len() - n__
//@end
//@fn OfferAnswerEngine::create_rejected_media
@rewrite offer_media . fmt ( ) . to_vec ( ) ==> x_fmts(offer_media.fmt())
@rewrite offer_media . mid ( ) . map ( String :: from ) ==> x_own(offer_media.mid())
@rewrite offer_media . capability_set ( ) . cloned ( ) ==> x_caps(offer_media.capability_set())
@ret r
ensures rejected(*offer_media, r)
//@end
//@fn OfferAnswerEngine::extract_rtpmaps
@rewrite for attr in media . attributes ( ) { $*b } ==> let as__ = media.attributes(); let mut i__: usize = 0; while i__ < as__.len() { let attr = &as__[i__]; i__ += 1; $b }
@rewrite for fmt in media . fmt ( ) { $*b } ==> let fm__ = media.fmt(); let mut j__: usize = 0; while j__ < fm__.len() { let fmt = &fm__[j__]; j__ += 1; $b }
@rewrite RtpMap :: parse ( value ) ==> RtpMap::parse(value.as_str())
@rewrite rtpmap . payload_type ( ) . to_string ( ) ==> rtpmap.payload_type().x_text()
@rewrite get_static_payload_rtpmap ( fmt ) ==> get_static_payload_rtpmap(fmt.as_str())
@ret r
ensures forall|k: Seq<char>| #[trigger] r@.contains_key(k) ==> offers(*media, k, r@[k])
@loop 1
invariant i__ <= as__@.len(), as__@ == media.attributes@, forall|k: Seq<char>| #[trigger] rtpmaps@.contains_key(k) ==> mapped(*media, k, rtpmaps@[k], i__ as int)
decreases as__@.len() - i__
@loop 2
invariant j__ <= fm__@.len(), forall|k: Seq<char>| #[trigger] rtpmaps@.contains_key(k) ==> offers(*media, k, rtpmaps@[k])
decreases fm__@.len() - j__
//@end
//@fn OfferAnswerEngine::get_static_payload_rtpmap
@ret r
ensures match r { Some(m) => static_map(payload@, m), None => true }
//@end
//@fn OfferAnswerEngine::find_fmtp_for_payload
@rewrite for attr in media . attributes ( ) { $*b } ==> let as__ = media.attributes(); let mut i__: usize = 0; while i__ < as__.len() { let attr = &as__[i__]; i__ += 1; $b }
@rewrite Fmtp :: parse ( value ) ==> Fmtp::parse(value.as_str())
ensures true
@loop 1
invariant i__ <= as__@.len()
decreases as__@.len() - i__
//@end
//@fn OfferAnswerEngine::find_media_direction
@rewrite for attr in media . attributes ( ) { $*b } ==> let as__ = media.attributes(); let mut i__: usize = 0; while i__ < as__.len() { let attr = &as__[i__]; i__ += 1; $b }
@rewrite return Some ( dir ) ==> { proof { dirs_first(as__@, i__ - 1); } return Some(dir) }
@ret r
ensures r == dir1(media.attributes@)
@entry
proof { dirs_none(media.attributes@); }
@loop 1
invariant i__ <= as__@.len(), as__@ == media.attributes@, forall|j: int| 0 <= j < i__ ==> dir_attr(#[trigger] as__@[j]).is_none(),
decreases as__@.len() - i__
@afterloop 1
proof { dirs_clean(as__@); }
//@end
//@fn OfferAnswerEngine::negotiate_direction
@ret r
ensures allows(offer_direction, r), forall|d: Direction| #[trigger] allows(offer_direction, d) ==> (sends(d) ==> sends(r)) && (recvs(d) ==> recvs(r))
//@end
//@fn OfferAnswerEngine::restrict_direction
@ret r
ensures sends(r) == (sends(wanted) && sends(allowed)), recvs(r) == (recvs(wanted) && recvs(allowed))
//@end
//@fn OfferAnswerEngine::handle_preconditions
@rewrite for attr in & offer_media . attributes { $*b } ==> let mut i__: usize = 0; while i__ < offer_media.attributes.len() { let attr = &offer_media.attributes[i__]; i__ += 1; $b }
@rewrite CurrentStatus :: parse ( value ) ==> CurrentStatus::parse(value.as_str())
@rewrite DesiredStatus :: parse ( value ) ==> DesiredStatus::parse(value.as_str())
@rewrite ConfirmStatus :: parse ( value ) ==> ConfirmStatus::parse(value.as_str())
@rewrite for offer_c in & offer_curr { $*b } ==> let mut c__: usize = 0; while c__ < offer_curr.len() { let offer_c = &offer_curr[c__]; c__ += 1; $b }
@rewrite for offer_d in & offer_des { $*b } ==> let mut d__: usize = 0; while d__ < offer_des.len() { let offer_d = &offer_des[d__]; d__ += 1; $b }
@rewrite for offer_conf_item in & offer_conf { $*b } ==> let mut f__: usize = 0; while f__ < offer_conf.len() { let offer_conf_item = &offer_conf[f__]; f__ += 1; $b }
ensures dirs(final(attributes)@) == dirs(old(attributes)@), forall|m: RtpMap| #[trigger] named(old(attributes)@, m) ==> named(final(attributes)@, m)
@loop 1
invariant i__ <= offer_media.attributes@.len(), attributes@ == old(attributes)@
decreases offer_media.attributes@.len() - i__
@loop 2
invariant c__ <= offer_curr@.len(), dirs(attributes@) == dirs(old(attributes)@), forall|m: RtpMap| #[trigger] named(old(attributes)@, m) ==> named(attributes@, m)
decreases offer_curr@.len() - c__
@loop 3
invariant d__ <= offer_des@.len(), dirs(attributes@) == dirs(old(attributes)@), forall|m: RtpMap| #[trigger] named(old(attributes)@, m) ==> named(attributes@, m)
decreases offer_des@.len() - d__
@loop 4
invariant f__ <= offer_conf@.len(), dirs(attributes@) == dirs(old(attributes)@), forall|m: RtpMap| #[trigger] named(old(attributes)@, m) ==> named(attributes@, m)
decreases offer_conf@.len() - f__
//@end
}
} // verus!
