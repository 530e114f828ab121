//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite & lines [ idx ] [ 2 .. ] ==> lines[idx].x_from(2)
//@rewrite & line [ 2 .. ] ==> line.x_from(2)
//@rewrite line [ 2 .. ] . parse ( ) ==> line.x_from(2).xp_u32()
//@rewrite line [ 2 .. ] ==> line.x_from(2)
//@rewrite . split ( ':' ) . collect ( ) ==> .x_split_c(':')
//@rewrite . split ( '/' ) . collect ( ) ==> .x_split_c('/')
//@rewrite . splitn ( 2 , ':' ) . collect ( ) ==> .x_splitn2v(':')
//@rewrite port_parts [ $i ] . parse ( ) ==> port_parts[$i].xp_u16()
//@rewrite parts [ $i ] . parse ( ) ==> parts[$i].xp_u64()
//@rewrite s . contains ( & [ '\r' , '\n' , '\0' ] [ .. ] ) ==> x_has_line(s)
//@rewrite ! parts . len ( ) . is_multiple_of ( 2 ) ==> parts.len() % 2 != 0
//@rewrite parts [ $n .. ] . iter ( ) . map ( | s | s . to_string ( ) ) . collect ( ) ==> x_owned_from(&parts, $n)
//@rewrite for chunk in parts . chunks ( 2 ) { $*b } ==> let mut k__: usize = 0; while k__ < parts.len() { $b k__ += 2; }
//@rewrite chunk [ 0 ] . parse ( ) ==> parts[k__].xp_u64()
//@rewrite chunk [ 0 ] ==> parts[k__]
//@rewrite chunk [ 1 ] ==> parts[k__ + 1]
//@rewrite for offset in & offsets { $*b } ==> let mut o__: usize = 0; while o__ < offsets.len() { let offset = &offsets[o__]; o__ += 1; $b }
//@rewrite for mid in & mids { $*b } ==> let mut o__: usize = 0; while o__ < mids.len() { let mid = &mids[o__]; o__ += 1; $b }
//@rewrite for fmt in & formats { $*b } ==> let mut o__: usize = 0; while o__ < formats.len() { let fmt = &formats[o__]; o__ += 1; $b }
//@rewrite validate_string ( mid , ==> validate_string(mid.as_str(),
//@rewrite validate_string ( fmt , ==> validate_string(fmt.as_str(),
//@rewrite for f in & fmt { $*b } ==> let mut o__: usize = 0; while o__ < fmt.len() { let f = &fmt[o__]; o__ += 1; $b }
//@rewrite validate_string ( offset , ==> validate_string(offset.as_str(),
//@rewrite validate_string ( f , ==> validate_string(f.as_str(),
//@rewrite validate_collection_size ( & $x . $y , ==> validate_collection_size($x.$y.as_slice(),
//@rewrite validate_collection_size ( & $x , ==> validate_collection_size($x.as_slice(),
//@rewrite let Some ( field_type ) = line . chars ( ) . next ( ) else { $*e } ; ==> let field_type = match x_char(line, 0) { Some(c__) => c__, None => { $e } };
//@rewrite line . chars ( ) . nth ( $n ) ==> x_char(line, $n)
//@rewrite self . time_zones . extend ( zones ) ==> x_extend(&mut self.time_zones, zones)
//@rewrite for attr in $x . attributes . drain ( .. ) { $*b } ==> let dr__ = x_drain(&mut $x.attributes); let mut a__: usize = 0; while a__ < dr__.len() { let attr = x_attr(&dr__, a__); a__ += 1; $b }
//@rewrite for attr in attributes . drain ( .. ) { $*b } ==> let dr__ = x_drain(attributes); let mut a__: usize = 0; while a__ < dr__.len() { let attr = x_attr(&dr__, a__); a__ += 1; $b }
//@rewrite for media in & mut self . media { $*b } ==> let mut m__: usize = 0; while m__ < self.media.len() { let mut media = x_media(&self.media, m__); $b self.media.set(m__, media); m__ += 1; }
//@rewrite attr . name == $l ==> attr.name.as_str() == $l
//@rewrite MediaGroup :: parse ( value ) ==> MediaGroup::parse(value.as_str())
//@rewrite RtcpAttribute :: parse ( value ) ==> RtcpAttribute::parse(value.as_str())
//@rewrite CapabilityDescription :: parse ( value ) ==> CapabilityDescription::parse(value.as_str())
//@rewrite CapabilityParameter :: parse ( CapabilityParameterType :: $t , value , ) ==> CapabilityParameter::parse(CapabilityParameterType::$t, value.as_str())
//@rewrite let seq = value . parse :: < u8 > ( ) ==> let seq = value.as_str().xp_u8()
//@rewrite writeln ! ( f ) ==> { f.x_push("\n"); Ok::<(), FmtErr>(()) }
//@include errx
//@include fmt
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, omx::string_ext, sx::ws_ascii, sx::ctrl_ascii};
pub mod omx {
    use super::*;
    pub broadcast axiom fn string_ext(a: String, b: String) ensures #[trigger] (a@) == #[trigger] (b@) ==> a == b;
    pub axiom fn vec_bound_str(v: Vec<&str>) ensures v@.len() <= isize::MAX as nat;
    #[verifier::external_body] pub fn x_has_line(s: &str) -> (r: bool) ensures r == (s@.contains('\r') || s@.contains('\n') || s@.contains('\0')) { unimplemented!() }
    pub trait XSplitV { spec fn snv(&self) -> Seq<char>;
        /// splitn(2, c) collected: what is before the first c, and what is after it
        fn x_splitn2v<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
            ensures if occ(self.snv(), Pat::C(c)) { r@.len() == 2 && r@[0]@ == self.snv().take(fidx(self.snv(), Pat::C(c))) && r@[1]@ == self.snv().skip(fidx(self.snv(), Pat::C(c)) + 1) } else { r@.len() == 1 && r@[0]@ == self.snv() };
    }
    impl XSplitV for str { open spec fn snv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_splitn2v<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() } }
    /// the carriage returns at the end are dropped
    pub open spec fn trim_cr(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == '\r' { trim_cr(s.drop_last()) } else { s } }
    pub open spec fn trimmed(q: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(q.len(), |i: int| trim_cr(q[i])) }
    /// the lines of a text that are not empty
    pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> { nonempty(trimmed(fields(s, '\n'))) }
    /// s.lines() without trailing carriage returns, empty lines left out
    #[verifier::external_body] pub fn x_lines(s: &str) -> (r: Vec<&str>) ensures views(r@) == lines_of(s@) { unimplemented!() }
    #[verifier::external_body] pub fn x_char(s: &str, n: usize) -> (r: Option<char>) ensures r == if n < s@.len() { Some(s@[n as int]) } else { None::<char> } { unimplemented!() }
    #[verifier::external_body] pub fn x_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
    /// v[n..].iter().map(|s| s.to_string()).collect()
    pub fn x_owned_from(v: &Vec<&str>, n: usize) -> (r: Vec<String>)
        requires n <= v@.len()
        ensures r@.len() == v@.len() - n, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@[i + n]@
    {
        let mut out: Vec<String> = Vec::new();
        let mut i = n;
        while i < v.len()
            invariant n <= i <= v@.len(), out@.len() == i - n, forall|j: int| 0 <= j < out@.len() ==> (#[trigger] out@[j])@ == v@[j + n]@
            decreases v@.len() - i
        { out.push(v[i].x_text()); i += 1; }
        out
    }
    // ---- split_whitespace -------------------------------------------------------------------------------
    /// the pieces between blanks, empty ones included
    pub open spec fn wparts(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
        if s.len() == 0 { Seq::empty().push(Seq::empty()) } else {
            let f = wparts(s.drop_last());
            if is_ws(s.last()) { f.push(Seq::empty()) } else { f.update(f.len() - 1, f.last().push(s.last())) }
        }
    }
    pub open spec fn nonempty(q: Seq<Seq<char>>) -> Seq<Seq<char>> decreases q.len() {
        if q.len() == 0 { q } else if q.last().len() == 0 { nonempty(q.drop_last()) } else { nonempty(q.drop_last()).push(q.last()) }
    }
    /// str::split_whitespace gives the non-empty pieces between blanks
    pub axiom fn ws_fields_def(s: Seq<char>) ensures ws_fields(s) == nonempty(wparts(s));
}
use omx::*;

//@file crates/sip-core/src/sdp.rs
//@enum SdpError derive=
//@const MAX_USERNAME_LEN
//@const MAX_SESSION_ID_LEN
//@const MAX_SESSION_VERSION_LEN
//@const MAX_NETTYPE_LEN
//@const MAX_SESSION_NAME_LEN
//@const MAX_SESSION_INFO_LEN
//@const MAX_URI_LEN
//@const MAX_EMAIL_LEN
//@const MAX_PHONE_LEN
//@const MAX_EMAILS
//@const MAX_MID_LEN
//@const MAX_MIDS
//@const MAX_GROUPS
//@const MAX_CAPABILITY_DESCRIPTIONS
//@const MAX_CAPABILITY_PARAMETERS
//@const MAX_PHONES
//@const MAX_BANDWIDTH_ENTRIES
//@const MAX_TIMING_ENTRIES
//@const MAX_REPEAT_TIMES
//@const MAX_ATTRIBUTES
//@const MAX_MEDIA_DESCRIPTIONS
//@const MAX_ADDRTYPE_LEN
//@const MAX_ADDRESS_LEN
//@const MAX_BANDWIDTH_TYPE_LEN
//@const MAX_ENCRYPTION_METHOD_LEN
//@const MAX_ENCRYPTION_KEY_LEN
//@const MAX_ATTRIBUTE_NAME_LEN
//@const MAX_ATTRIBUTE_VALUE_LEN
//@const MAX_MEDIA_TYPE_LEN
//@const MAX_PROTO_LEN
//@const MAX_FORMAT_LEN
//@const MAX_TIME_ZONES
//@const MAX_FORMAT_TYPES
//@const MAX_OFFSETS
//@const MAX_BANDWIDTH_VALUE
//@struct Origin
//@struct Connection
//@struct Bandwidth
//@struct Timing
//@struct RepeatTime
//@struct TimeZone
//@struct EncryptionKey
//@struct Attribute
//@enum GroupSemantics derive=
//@struct MediaGroup
//@struct CapabilityDescription
//@enum CapabilityParameterType derive=Clone,Copy
//@struct CapabilityParameter
//@struct SdpCapabilitySet
//@struct RtcpAttribute
//@struct MediaDescription
//@struct SdpSession

pub mod spec {
    use super::*;
    pub open spec fn okc(c: char) -> bool { c != '\r' && c != '\n' && c != '\0' && !(is_ctrl(c) && c != '\t') }
    /// text a field may hold: no line break, no other control character but tab, within its limit
    pub open spec fn okstr(s: Seq<char>, max: int) -> bool { blen(s) <= max && forall|i: int| 0 <= i < s.len() ==> okc(#[trigger] s[i]) }
    pub open spec fn nows(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]) }
    pub open spec fn token(s: Seq<char>, max: int) -> bool { s.len() > 0 && nows(s) && okstr(s, max) }
    pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
    pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
    /// what stands after the two characters that name the line
    pub open spec fn body(line: Seq<char>) -> Seq<char> { line.skip(2) }
    pub open spec fn wsf(line: Seq<char>) -> Seq<Seq<char>> { ws_fields(body(line)) }
    pub open spec fn head_ascii(line: Seq<char>) -> bool { line.len() >= 2 && ascii(line.take(2)) }
    // ---- what a line says ----
    pub open spec fn o_fits(f: Seq<Seq<char>>) -> bool { f.len() == 6 && okstr(f[0], 255) && okstr(f[1], 64) && okstr(f[2], 64) && okstr(f[3], 16) && okstr(f[4], 16) && okstr(f[5], 255) }
    pub open spec fn o_reads(line: Seq<char>, r: Result<Origin, SdpError>) -> bool { let f = wsf(line);
        match r { Ok(o) => o_fits(f) && o.username@ == f[0] && o.sess_id@ == f[1] && o.sess_version@ == f[2] && o.nettype@ == f[3] && o.addrtype@ == f[4] && o.unicast_address@ == f[5], Err(_) => !o_fits(f) } }
    pub open spec fn o_ok(o: Origin) -> bool { token(o.username@, 255) && token(o.sess_id@, 64) && token(o.sess_version@, 64) && token(o.nettype@, 16) && token(o.addrtype@, 16) && token(o.unicast_address@, 255) }
    pub open spec fn o_text(o: Origin) -> Seq<char> { "o="@ + o.username@ + " "@ + o.sess_id@ + " "@ + o.sess_version@ + " "@ + o.nettype@ + " "@ + o.addrtype@ + " "@ + o.unicast_address@ }
    pub open spec fn c_fits(f: Seq<Seq<char>>) -> bool { f.len() == 3 && okstr(f[0], 16) && okstr(f[1], 16) && okstr(f[2], 255) }
    pub open spec fn c_reads(line: Seq<char>, r: Result<Connection, SdpError>) -> bool { let f = wsf(line);
        match r { Ok(c) => c_fits(f) && c.nettype@ == f[0] && c.addrtype@ == f[1] && c.connection_address@ == f[2], Err(_) => !c_fits(f) } }
    pub open spec fn c_ok(c: Connection) -> bool { token(c.nettype@, 16) && token(c.addrtype@, 16) && token(c.connection_address@, 255) }
    pub open spec fn c_text(c: Connection) -> Seq<char> { "c="@ + c.nettype@ + " "@ + c.addrtype@ + " "@ + c.connection_address@ }
    pub open spec fn b_reads(line: Seq<char>, r: Result<Bandwidth, SdpError>) -> bool { let f = fields(body(line), ':'); let n = unum(f[1], 0xffff_ffff_ffff_ffff);
        match r { Ok(b) => f.len() == 2 && okstr(f[0], 32) && b.bwtype@ == f[0] && n == Some(b.bandwidth as nat) && b.bandwidth <= 10_000_000, Err(_) => !(f.len() == 2 && okstr(f[0], 32) && n.is_some() && (n->0) <= 10_000_000) } }
    pub open spec fn b_ok(b: Bandwidth) -> bool { okstr(b.bwtype@, 32) && lacks(b.bwtype@, ':') && b.bandwidth <= 10_000_000 }
    pub open spec fn b_text(b: Bandwidth) -> Seq<char> { "b="@ + b.bwtype@ + ":"@ + dtext(b.bandwidth as nat) }
    pub open spec fn t_reads(line: Seq<char>, r: Result<Timing, SdpError>) -> bool { let f = wsf(line); let a = unum(f[0], 0xffff_ffff_ffff_ffff); let b = unum(f[1], 0xffff_ffff_ffff_ffff);
        match r { Ok(t) => f.len() == 2 && a == Some(t.start_time as nat) && b == Some(t.stop_time as nat), Err(_) => !(f.len() == 2 && a.is_some() && b.is_some()) } }
    pub open spec fn t_text(t: Timing) -> Seq<char> { "t="@ + dtext(t.start_time as nat) + " "@ + dtext(t.stop_time as nat) }
    /// a list of words, each after a blank
    pub open spec fn words(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { words(l.drop_last()) + " "@ + l.last() } }
    pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn all_ok(f: Seq<Seq<char>>, max: int) -> bool { forall|i: int| 0 <= i < f.len() ==> okstr(#[trigger] f[i], max) }
    pub open spec fn all_tok(f: Seq<Seq<char>>, max: int) -> bool { forall|i: int| 0 <= i < f.len() ==> token(#[trigger] f[i], max) }
    pub open spec fn r_fits(f: Seq<Seq<char>>) -> bool { 3 <= f.len() <= 52 && all_ok(f, 16) }
    pub open spec fn r_reads(line: Seq<char>, r: Result<RepeatTime, SdpError>) -> bool { let f = wsf(line);
        match r { Ok(t) => r_fits(f) && t.repeat_interval@ == f[0] && t.active_duration@ == f[1] && texts(t.offsets@) == f.skip(2), Err(_) => !r_fits(f) } }
    pub open spec fn r_ok(t: RepeatTime) -> bool { token(t.repeat_interval@, 16) && token(t.active_duration@, 16) && 1 <= t.offsets@.len() <= 50 && all_tok(texts(t.offsets@), 16) }
    pub open spec fn r_text(t: RepeatTime) -> Seq<char> { "r="@ + t.repeat_interval@ + " "@ + t.active_duration@ + words(texts(t.offsets@)) }
    /// the pairs of a z= line
    pub open spec fn z_pairs(f: Seq<Seq<char>>, z: Seq<TimeZone>) -> bool { f.len() == 2 * z.len() && forall|i: int| 0 <= i < z.len() ==> z_pair(f, #[trigger] z[i], i) }
    pub open spec fn z_pair(f: Seq<Seq<char>>, z: TimeZone, i: int) -> bool { unum(f[2 * i], 0xffff_ffff_ffff_ffff) == Some(z.adjustment_time as nat) && z.offset@ == f[2 * i + 1] && okstr(f[2 * i + 1], 16) }
    pub open spec fn z_fits(f: Seq<Seq<char>>) -> bool { f.len() % 2 == 0 && f.len() <= 100 && forall|i: int| 0 <= i < f.len() / 2 ==> z_fit(f, i) }
    pub open spec fn z_fit(f: Seq<Seq<char>>, i: int) -> bool { unum(f[2 * i], 0xffff_ffff_ffff_ffff).is_some() && okstr(f[2 * i + 1], 16) }
    pub open spec fn z_reads(line: Seq<char>, r: Result<Vec<TimeZone>, SdpError>) -> bool { let f = wsf(line);
        match r { Ok(z) => z_pairs(f, z@) && z@.len() <= 50, Err(_) => !z_fits(f) } }
    pub open spec fn zone_ok(z: TimeZone) -> bool { token(z.offset@, 16) }
    /// "name" or "name:value"
    pub open spec fn nv(s: Seq<char>) -> (Seq<char>, Option<Seq<char>>) { let k = fidx(s, Pat::C(':')); if occ(s, Pat::C(':')) { (s.take(k), Some(s.skip(k + 1))) } else { (s, None) } }
    pub open spec fn nv_fits(p: (Seq<char>, Option<Seq<char>>), m: int, n: int) -> bool { okstr(p.0, m) && match p.1 { Some(v) => okstr(v, n), None => true } }
    pub open spec fn nv_text(n: Seq<char>, v: Option<Seq<char>>) -> Seq<char> { match v { Some(v) => n + ":"@ + v, None => n } }
    pub open spec fn k_reads(line: Seq<char>, r: Result<EncryptionKey, SdpError>) -> bool { let p = nv(body(line));
        match r { Ok(k) => nv_fits(p, 64, 1024) && k.method@ == p.0 && otext(k.key) == p.1, Err(_) => !nv_fits(p, 64, 1024) } }
    pub open spec fn k_ok(k: EncryptionKey) -> bool { nv_fits((k.method@, otext(k.key)), 64, 1024) && lacks(k.method@, ':') }
    pub open spec fn k_text(k: EncryptionKey) -> Seq<char> { "k="@ + nv_text(k.method@, otext(k.key)) }
    pub open spec fn a_reads(line: Seq<char>, r: Result<Attribute, SdpError>) -> bool { let p = nv(body(line));
        match r { Ok(a) => nv_fits(p, 128, 4096) && a.name@ == p.0 && otext(a.value) == p.1, Err(_) => !nv_fits(p, 128, 4096) } }
    pub open spec fn a_ok(a: Attribute) -> bool { nv_fits((a.name@, otext(a.value)), 128, 4096) && lacks(a.name@, ':') }
    pub open spec fn a_text(a: Attribute) -> Seq<char> { "a="@ + nv_text(a.name@, otext(a.value)) }
    // m=
    pub open spec fn port_of(s: Seq<char>, port: u16, count: Option<u16>) -> bool { let f = fields(s, '/');
        unum(f[0], 65535) == Some(port as nat) && match count { Some(n) => f.len() > 1 && unum(f[1], 65535) == Some(n as nat), None => f.len() == 1 } }
    pub open spec fn port_fits(s: Seq<char>) -> bool { let f = fields(s, '/'); unum(f[0], 65535).is_some() && (f.len() > 1 ==> unum(f[1], 65535).is_some()) }
    pub open spec fn port_text(port: u16, count: Option<u16>) -> Seq<char> { match count { Some(n) => dtext(port as nat) + "/"@ + dtext(n as nat), None => dtext(port as nat) } }
    pub open spec fn m_fits(f: Seq<Seq<char>>) -> bool { 4 <= f.len() <= 131 && okstr(f[0], 32) && port_fits(f[1]) && okstr(f[2], 64) && all_ok(f.skip(3), 16) }
    pub open spec fn m_reads(line: Seq<char>, r: Result<MediaLineParsed, SdpError>) -> bool { let f = wsf(line);
        match r { Ok(m) => m_fits(f) && m.0@ == f[0] && port_of(f[1], m.1, m.2) && m.3@ == f[2] && texts(m.4@) == f.skip(3), Err(_) => !m_fits(f) } }
    pub open spec fn m_ok(m: MediaLineParsed) -> bool { token(m.0@, 32) && token(m.3@, 64) && 1 <= m.4@.len() <= 128 && all_tok(texts(m.4@), 16) }
    pub open spec fn m_text(m: MediaLineParsed) -> Seq<char> { "m="@ + m.0@ + " "@ + port_text(m.1, m.2) + " "@ + m.3@ + words(texts(m.4@)) }
    pub open spec fn v_reads(line: Seq<char>, r: Result<u32, SdpError>) -> bool { match r { Ok(v) => unum(body(line), 0xffff_ffff) == Some(v as nat), Err(_) => unum(body(line), 0xffff_ffff).is_none() } }
    pub open spec fn v_text(v: u32) -> Seq<char> { "v="@ + dtext(v as nat) }
    pub proof fn from2(line: Seq<char>) requires head_ascii(line) ensures bnd(line, 2), cidx(line, 2) == 2 { at_ascii(line, 2); }
}
use spec::*;
//@type MediaLineParsed

//@fn validate_string
    ensures r.is_ok() == okstr(s@, max_len as int),
@entry
    proof { blen_len(s@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !(is_ctrl(#[trigger] cs__@[j]) && cs__@[j] != '\t'),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == s@,
    ensures f__ == !(forall|j: int| 0 <= j < s@.len() ==> !(is_ctrl(#[trigger] s@[j]) && s@[j] != '\t')),
    decreases cs__@.len() - i__,
//@end
//@fn validate_collection_size
    ensures r.is_ok() == (collection@.len() <= max_size),
//@end
//@fn validate_port
    ensures r.is_ok(),
//@end
//@fn validate_bandwidth
@fmt
    ensures r.is_ok() == (bw <= MAX_BANDWIDTH_VALUE),
//@end
//@fn parse_version
    requires head_ascii(line@),
    ensures v_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_origin
    requires head_ascii(line@),
    ensures o_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_connection
    requires head_ascii(line@),
    ensures c_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_bandwidth
    requires head_ascii(line@),
    ensures b_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_timing
    requires head_ascii(line@),
    ensures t_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_repeat_time
    requires head_ascii(line@),
    ensures r_reads(line@, r),
@entry
    proof { from2(line@); }
@loop 1
    invariant o__ <= offsets@.len(), texts(offsets@) == wsf(line@).skip(2), wsf(line@).len() >= 3, forall|j: int| 0 <= j < o__ ==> okstr(#[trigger] offsets@[j]@, 16),
    decreases offsets@.len() - o__,
@loopbody 1
    proof { let f = wsf(line@); assert(texts(offsets@).len() == f.skip(2).len()); assert(offsets@[o__ as int]@ == texts(offsets@)[o__ as int]); assert(f.skip(2)[o__ as int] == f[o__ + 2]); if r_fits(f) { assert(okstr(f[o__ + 2], 16)); } }
@afterloop 1
    proof { let f = wsf(line@); assert forall|i: int| 0 <= i < f.len() implies okstr(#[trigger] f[i], 16) by { if i >= 2 { assert(texts(offsets@)[i - 2] == f.skip(2)[i - 2]); assert(okstr(offsets@[i - 2]@, 16)); } } }
//@end
//@fn parse_time_zones
    requires head_ascii(line@),
    ensures z_reads(line@, r),
@entry
    proof { from2(line@); }
@loop 1
    invariant k__ % 2 == 0, parts@.len() % 2 == 0, k__ <= parts@.len(), 2 * zones@.len() == k__, views(parts@) == wsf(line@), forall|i: int| 0 <= i < zones@.len() ==> z_pair(wsf(line@), #[trigger] zones@[i], i),
    decreases parts@.len() - k__,
@loopbody 1
    proof { vec_bound_str(parts); let n = k__ as int / 2; assert(2 * n == k__); assert(parts@[k__ as int]@ == views(parts@)[2 * n]); assert(parts@[k__ + 1]@ == views(parts@)[2 * n + 1]); if z_fits(wsf(line@)) { assert(z_fit(wsf(line@), n)); } }
//@end
//@fn parse_encryption_key
    requires head_ascii(line@),
    ensures k_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_attribute
    requires head_ascii(line@),
    ensures a_reads(line@, r),
@entry
    proof { from2(line@); }
//@end
//@fn parse_media_line
    requires head_ascii(line@),
    ensures m_reads(line@, r),
@entry
    proof { from2(line@); }
@loop 1
    invariant o__ <= fmt@.len(), texts(fmt@) == wsf(line@).skip(3), wsf(line@).len() >= 4, forall|j: int| 0 <= j < o__ ==> okstr(#[trigger] fmt@[j]@, 16),
    decreases fmt@.len() - o__,
@loopbody 1
    proof { let f = wsf(line@); assert(fmt@[o__ as int]@ == texts(fmt@)[o__ as int]); assert(f.skip(3)[o__ as int] == texts(fmt@)[o__ as int]); if m_fits(f) { assert(okstr(f.skip(3)[o__ as int], 16)); } }
@afterloop 1
    proof { let f = wsf(line@).skip(3); assert forall|i: int| 0 <= i < f.len() implies okstr(#[trigger] f[i], 16) by { assert(texts(fmt@)[i] == f[i]); assert(okstr(fmt@[i]@, 16)); } }
//@end

impl Origin {
//@fn Origin::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + o_text(*self),
//@end
}
impl Connection {
//@fn Connection::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + c_text(*self),
//@end
}
impl Bandwidth {
//@fn Bandwidth::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + b_text(*self),
//@end
}
impl Timing {
//@fn Timing::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + t_text(*self),
//@end
}
impl EncryptionKey {
//@fn EncryptionKey::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + k_text(*self),
//@end
}
impl Attribute {
//@fn Attribute::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + a_text(*self),
//@end
}
impl RepeatTime {
//@fn RepeatTime::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
@rewrite for offset in & self . offsets { $*b } ==> let mut o__: usize = 0; while o__ < self.offsets.len() { let offset = &self.offsets[o__]; o__ += 1; $b }
    ensures r.is_ok(), final(f)@ == old(f)@ + r_text(*self),
@loop 1
    invariant o__ <= self.offsets@.len(), f@ == old(f)@ + ("r="@ + self.repeat_interval@ + " "@ + self.active_duration@ + words(texts(self.offsets@).take(o__ as int))),
    decreases self.offsets@.len() - o__,
@loopbody 1
    proof { words_next(texts(self.offsets@), o__ as int); }
@afterloop 1
    proof { let t = texts(self.offsets@); assert(t.take(t.len() as int) =~= t); }
//@end
}

// ---- what is printed reads back -----------------------------------------------------------------------------------
pub mod th {
use super::*;
broadcast use {prel::str_ext, omx::string_ext, sx::ws_ascii};
pub open spec fn ch(c: char) -> Seq<char> { seq![c] }
pub proof fn words_next(l: Seq<Seq<char>>, i: int) requires 0 <= i < l.len() ensures words(l.take(i + 1)) == words(l.take(i)) + " "@ + l[i]
{ assert(l.take(i + 1).drop_last() =~= l.take(i)); assert(l.take(i + 1).last() == l[i]); }
pub proof fn sp() ensures " "@ == ch(' '), ":"@ == ch(':'), "/"@ == ch('/') { reveal_strlit(" "); reveal_strlit(":"); reveal_strlit("/"); assert(" "@ =~= ch(' ')); assert(":"@ =~= ch(':')); assert("/"@ =~= ch('/')); }
pub proof fn wparts_some(s: Seq<char>) ensures wparts(s).len() >= 1 decreases s.len() { if s.len() > 0 { wparts_some(s.drop_last()); } }
pub proof fn wparts_word(t: Seq<char>) requires nows(t) ensures wparts(t) == seq![t] decreases t.len()
{
    if t.len() > 0 { let u = t.drop_last(); assert(nows(u)) by { assert forall|i: int| 0 <= i < u.len() implies !is_ws(#[trigger] u[i]) by { assert(!is_ws(t[i])); } } wparts_word(u); assert(!is_ws(t[t.len() - 1])); assert(u.push(t.last()) =~= t); assert(wparts(t) =~= seq![t]); }
    else { assert(t =~= Seq::empty()); assert(wparts(t) =~= seq![t]); }
}
pub proof fn wparts_add(a: Seq<char>, t: Seq<char>) requires nows(t) ensures wparts(a + ch(' ') + t) == wparts(a).push(t) decreases t.len()
{
    let s = a + ch(' ') + t;
    wparts_some(a);
    if t.len() == 0 { assert(t =~= Seq::empty()); assert(s.drop_last() =~= a); assert(s.last() == ' '); assert(is_ws(' ')); }
    else {
        let u = t.drop_last();
        assert(nows(u)) by { assert forall|i: int| 0 <= i < u.len() implies !is_ws(#[trigger] u[i]) by { assert(!is_ws(t[i])); } }
        wparts_add(a, u);
        assert(s.drop_last() =~= a + ch(' ') + u); assert(s.last() == t.last()); assert(!is_ws(t[t.len() - 1]));
        let f = wparts(a).push(u);
        assert(f.update(f.len() - 1, f.last().push(s.last())) =~= wparts(a).push(t)) by { assert(u.push(t.last()) =~= t); }
    }
}
/// one more word
pub proof fn ws_add(a: Seq<char>, t: Seq<char>) requires nows(t), t.len() > 0 ensures ws_fields(a + " "@ + t) == ws_fields(a).push(t)
{ sp(); ws_fields_def(a); ws_fields_def(a + " "@ + t); wparts_add(a, t); assert(wparts(a).push(t).drop_last() =~= wparts(a)); }
pub proof fn ws_one(t: Seq<char>) requires nows(t), t.len() > 0 ensures ws_fields(t) == seq![t]
{ ws_fields_def(t); wparts_word(t); let q = seq![t]; assert(q.drop_last() =~= Seq::empty()); assert(nonempty(q.drop_last()) =~= Seq::empty()); assert(nonempty(q) =~= q); }
pub proof fn ws_words(a: Seq<char>, l: Seq<Seq<char>>, m: int) requires all_tok(l, m) ensures ws_fields(a + words(l)) == ws_fields(a) + l decreases l.len()
{
    if l.len() == 0 { assert(a + words(l) =~= a); assert(ws_fields(a) + l =~= ws_fields(a)); }
    else { let k = l.drop_last(); assert(all_tok(k, m)) by { assert forall|i: int| 0 <= i < k.len() implies token(#[trigger] k[i], m) by { assert(token(l[i], m)); } } ws_words(a, k, m); assert(token(l[l.len() - 1], m)); ws_add(a + words(k), l.last()); assert(a + words(l) =~= a + words(k) + " "@ + l.last()); assert(ws_fields(a) + l =~= (ws_fields(a) + k).push(l.last())); }
}
/// every word has a character and no blank
pub proof fn ws_tokens(s: Seq<char>) ensures forall|i: int| 0 <= i < ws_fields(s).len() ==> (#[trigger] ws_fields(s)[i]).len() > 0 && nows(ws_fields(s)[i])
{ ws_fields_def(s); wparts_nows(s); nonempty_tok(wparts(s)); }
pub proof fn wparts_nows(s: Seq<char>) ensures forall|i: int| 0 <= i < wparts(s).len() ==> nows(#[trigger] wparts(s)[i]) decreases s.len()
{
    if s.len() > 0 {
        wparts_nows(s.drop_last()); wparts_some(s.drop_last());
        let f = wparts(s.drop_last());
        assert forall|i: int| 0 <= i < wparts(s).len() implies nows(#[trigger] wparts(s)[i]) by {
            if !is_ws(s.last()) && i == f.len() - 1 { assert(nows(f[i])); assert(wparts(s)[i] == f[i].push(s.last())); } else if i < f.len() { assert(nows(f[i])); }
        }
    }
}
pub proof fn nonempty_tok(q: Seq<Seq<char>>) requires forall|i: int| 0 <= i < q.len() ==> nows(#[trigger] q[i])
    ensures forall|i: int| 0 <= i < nonempty(q).len() ==> (#[trigger] nonempty(q)[i]).len() > 0 && nows(nonempty(q)[i]) decreases q.len()
{ if q.len() > 0 { let p = q.drop_last(); assert forall|i: int| 0 <= i < p.len() implies nows(#[trigger] p[i]) by { assert(nows(q[i])); } nonempty_tok(p); assert(nows(q[q.len() - 1])); let r = nonempty(q); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() > 0 && nows(r[i]) by { if i < nonempty(p).len() { assert(r[i] == nonempty(p)[i]); } } } }
/// decimal digits: no blank, no separator; read back as the number
pub proof fn digits(n: nat, max: nat) requires n <= max ensures nows(dtext(n)), dtext(n).len() > 0, lacks(dtext(n), ':'), lacks(dtext(n), '/'), unum(dtext(n), max) == Some(n)
{
    dtext_dec(n); let t = dtext(n);
    assert forall|i: int| 0 <= i < t.len() implies !is_ws(#[trigger] t[i]) && t[i] != ':' && t[i] != '/' by { assert(is_digit(t[i])); }
    assert(is_digit(t[0]));
}
pub proof fn fields_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures fields(s, c) == seq![s] decreases s.len()
{ if s.len() > 0 { assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } } fields_lacks(s.drop_last(), c); assert(s.last() != c); assert(fields(s, c) =~= seq![s]) by { assert(s.drop_last().push(s.last()) =~= s); } } else { assert(s =~= Seq::empty()); assert(fields(s, c) =~= seq![s]); } }
pub proof fn fields_add(a: Seq<char>, c: char, b: Seq<char>) requires lacks(b, c) ensures fields(a + ch(c) + b, c) == fields(a, c).push(b) decreases b.len()
{
    let s = a + ch(c) + b;
    fields_some(a, c);
    if b.len() == 0 { assert(b =~= Seq::empty()); assert(s.drop_last() =~= a); assert(s.last() == c); }
    else {
        let b1 = b.drop_last();
        assert(lacks(b1, c)) by { assert forall|i: int| 0 <= i < b1.len() implies #[trigger] b1[i] != c by { assert(b[i] != c); } }
        fields_add(a, c, b1);
        assert(s.drop_last() =~= a + ch(c) + b1); assert(s.last() == b.last()); assert(b[b.len() - 1] != c);
        let f = fields(a, c).push(b1);
        assert(f.update(f.len() - 1, f.last().push(s.last())) =~= fields(a, c).push(b)) by { assert(b1.push(b.last()) =~= b); }
    }
}
pub proof fn fields_each(s: Seq<char>, c: char) ensures forall|i: int| 0 <= i < fields(s, c).len() ==> lacks(#[trigger] fields(s, c)[i], c) decreases s.len()
{
    if s.len() > 0 { fields_each(s.drop_last(), c); fields_some(s.drop_last(), c); let f = fields(s.drop_last(), c);
        assert forall|i: int| 0 <= i < fields(s, c).len() implies lacks(#[trigger] fields(s, c)[i], c) by { if s.last() != c && i == f.len() - 1 { assert(lacks(f[i], c)); assert(fields(s, c)[i] == f[i].push(s.last())); } else if i < f.len() { assert(lacks(f[i], c)); } } }
}
pub proof fn nv_back(n: Seq<char>, v: Option<Seq<char>>) requires lacks(n, ':') ensures nv(nv_text(n, v)) == (n, v)
{
    sp();
    match v {
        Some(w) => { let s = n + ":"@ + w; assert(at(s, Pat::C(':'), n.len() as int)); assert(first(s, Pat::C(':'), n.len() as int)) by { assert forall|j: int| 0 <= j < n.len() implies !at(s, Pat::C(':'), j) by { assert(s[j] == n[j]); } } first_is(s, Pat::C(':'), n.len() as int); assert(s.take(n.len() as int) =~= n); assert(s.skip(n.len() as int + 1) =~= w); }
        None => { assert(!occ(n, Pat::C(':'))) by { assert forall|j: int| 0 <= j < n.len() implies !at(n, Pat::C(':'), j) by { assert(n[j] != ':'); } } }
    }
}
pub proof fn nv_lacks(s: Seq<char>) ensures lacks(nv(s).0, ':')
{ let k = fidx(s, Pat::C(':')); if occ(s, Pat::C(':')) { first_any(s, ':'); assert forall|i: int| 0 <= i < k implies #[trigger] s.take(k)[i] != ':' by { assert(!at(s, Pat::C(':'), i)); } } else { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ':' by { assert(!at(s, Pat::C(':'), i)); } } }
/// an occurrence has a first one
pub proof fn first_any(s: Seq<char>, c: char) requires occ(s, Pat::C(c)) ensures first(s, Pat::C(c), fidx(s, Pat::C(c)))
{ let i = choose|i: int| #[trigger] at(s, Pat::C(c), i); let j = least(s, c, i); assert(first(s, Pat::C(c), j)); }
pub proof fn least(s: Seq<char>, c: char, i: int) -> (j: int) requires at(s, Pat::C(c), i) ensures first(s, Pat::C(c), j) decreases i
{ if forall|k: int| 0 <= k < i ==> !#[trigger] at(s, Pat::C(c), k) { i } else { let k = choose|k: int| 0 <= k < i && #[trigger] at(s, Pat::C(c), k); least(s, c, k) } }
pub proof fn head(c: &str, t: Seq<char>) requires c@.len() == 2, (c@[0] as u32) < 128, (c@[1] as u32) < 128 ensures head_ascii(c@ + t), body(c@ + t) == t { assert(body(c@ + t) =~= t); assert((c@ + t).take(2) =~= c@); }

/// a printed line reads back as the value, and every line that is read gives a value that prints to such a line
pub proof fn p20_origin(o: Origin, r: Result<Origin, SdpError>)
    ensures o_ok(o) && o_reads(o_text(o), r) ==> r == Ok::<Origin, SdpError>(o), forall|l: Seq<char>| #[trigger] o_reads(l, Ok(o)) ==> o_ok(o), head_ascii(o_text(o)),
{
    let (a, b, c, d, e, g) = (o.username@, o.sess_id@, o.sess_version@, o.nettype@, o.addrtype@, o.unicast_address@);
    let t = a + " "@ + b + " "@ + c + " "@ + d + " "@ + e + " "@ + g;
    reveal_strlit("o="); head("o=", t); assert(o_text(o) =~= "o="@ + t);
    if o_ok(o) { ws_one(a); ws_add(a, b); ws_add(a + " "@ + b, c); ws_add(a + " "@ + b + " "@ + c, d); ws_add(a + " "@ + b + " "@ + c + " "@ + d, e); ws_add(a + " "@ + b + " "@ + c + " "@ + d + " "@ + e, g); assert(ws_fields(t) =~= seq![a, b, c, d, e, g]); }
    assert forall|l: Seq<char>| #[trigger] o_reads(l, Ok(o)) implies o_ok(o) by { ws_tokens(body(l)); }
}
pub proof fn p20_connection(o: Connection, r: Result<Connection, SdpError>)
    ensures c_ok(o) && c_reads(c_text(o), r) ==> r == Ok::<Connection, SdpError>(o), forall|l: Seq<char>| #[trigger] c_reads(l, Ok(o)) ==> c_ok(o), head_ascii(c_text(o)),
{
    let (a, b, c) = (o.nettype@, o.addrtype@, o.connection_address@);
    let t = a + " "@ + b + " "@ + c;
    reveal_strlit("c="); head("c=", t); assert(c_text(o) =~= "c="@ + t);
    if c_ok(o) { ws_one(a); ws_add(a, b); ws_add(a + " "@ + b, c); assert(ws_fields(t) =~= seq![a, b, c]); }
    assert forall|l: Seq<char>| #[trigger] c_reads(l, Ok(o)) implies c_ok(o) by { ws_tokens(body(l)); }
}
pub proof fn p20_bandwidth(o: Bandwidth, r: Result<Bandwidth, SdpError>)
    ensures b_ok(o) && b_reads(b_text(o), r) ==> r == Ok::<Bandwidth, SdpError>(o), forall|l: Seq<char>| #[trigger] b_reads(l, Ok(o)) ==> b_ok(o), head_ascii(b_text(o)),
{
    let a = o.bwtype@; let n = dtext(o.bandwidth as nat); let t = a + ":"@ + n;
    reveal_strlit("b="); head("b=", t); assert(b_text(o) =~= "b="@ + t); sp();
    if b_ok(o) { digits(o.bandwidth as nat, 0xffff_ffff_ffff_ffff); fields_lacks(a, ':'); fields_add(a, ':', n); assert(fields(t, ':') =~= seq![a, n]); }
    assert forall|l: Seq<char>| #[trigger] b_reads(l, Ok(o)) implies b_ok(o) by { fields_each(body(l), ':'); }
}
pub proof fn p20_timing(o: Timing, r: Result<Timing, SdpError>)
    ensures t_reads(t_text(o), r) ==> r == Ok::<Timing, SdpError>(o), head_ascii(t_text(o)),
{
    let (a, b) = (dtext(o.start_time as nat), dtext(o.stop_time as nat)); let t = a + " "@ + b;
    reveal_strlit("t="); head("t=", t); assert(t_text(o) =~= "t="@ + t);
    digits(o.start_time as nat, 0xffff_ffff_ffff_ffff); digits(o.stop_time as nat, 0xffff_ffff_ffff_ffff); ws_one(a); ws_add(a, b); assert(ws_fields(t) =~= seq![a, b]);
}
pub proof fn p20_version(v: u32, r: Result<u32, SdpError>)
    ensures v_reads(v_text(v), r) ==> r == Ok::<u32, SdpError>(v), head_ascii(v_text(v)),
{ reveal_strlit("v="); head("v=", dtext(v as nat)); digits(v as nat, 0xffff_ffff); }
pub proof fn same_texts(a: Seq<String>, b: Seq<String>) requires texts(a) == texts(b) ensures a == b
{ assert(a.len() == texts(a).len()); assert(b.len() == texts(b).len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(texts(a)[i] == a[i]@); assert(texts(b)[i] == b[i]@); } assert(a =~= b); }
pub proof fn p20_repeat(o: RepeatTime, r: Result<RepeatTime, SdpError>)
    ensures r_ok(o) && r_reads(r_text(o), r) ==> r.is_ok() && (r->Ok_0).repeat_interval == o.repeat_interval && (r->Ok_0).active_duration == o.active_duration && (r->Ok_0).offsets@ == o.offsets@, forall|l: Seq<char>| #[trigger] r_reads(l, Ok(o)) ==> r_ok(o), head_ascii(r_text(o)),
{
    let (a, b, l) = (o.repeat_interval@, o.active_duration@, texts(o.offsets@)); let t = a + " "@ + b + words(l);
    reveal_strlit("r="); head("r=", t); assert(r_text(o) =~= "r="@ + t);
    if r_ok(o) {
        ws_one(a); ws_add(a, b); ws_words(a + " "@ + b, l, 16); let f = ws_fields(t); assert(f =~= seq![a, b] + l); assert(f.skip(2) =~= l);
        assert(r_fits(f)) by { assert forall|i: int| 0 <= i < f.len() implies okstr(#[trigger] f[i], 16) by { if i >= 2 { assert(f[i] == l[i - 2]); assert(token(l[i - 2], 16)); } } }
        if r_reads(r_text(o), r) { same_texts((r->Ok_0).offsets@, o.offsets@); }
    }
    assert forall|x: Seq<char>| #[trigger] r_reads(x, Ok(o)) implies r_ok(o) by { ws_tokens(body(x)); let f = wsf(x); assert(texts(o.offsets@).len() == f.len() - 2); assert forall|i: int| 0 <= i < l.len() implies token(#[trigger] l[i], 16) by { assert(l[i] == f.skip(2)[i]); assert(okstr(f[i + 2], 16)); } assert(okstr(f[0], 16) && okstr(f[1], 16)); }
}
pub proof fn p20_key(o: EncryptionKey, r: Result<EncryptionKey, SdpError>)
    ensures k_ok(o) && k_reads(k_text(o), r) ==> r == Ok::<EncryptionKey, SdpError>(o), forall|l: Seq<char>| #[trigger] k_reads(l, Ok(o)) ==> k_ok(o), head_ascii(k_text(o)),
{
    let t = nv_text(o.method@, otext(o.key)); reveal_strlit("k="); head("k=", t); if k_ok(o) { nv_back(o.method@, otext(o.key)); }
    assert forall|l: Seq<char>| #[trigger] k_reads(l, Ok(o)) implies k_ok(o) by { nv_lacks(body(l)); }
}
pub proof fn p20_attribute(o: Attribute, r: Result<Attribute, SdpError>)
    ensures a_ok(o) && a_reads(a_text(o), r) ==> r == Ok::<Attribute, SdpError>(o), forall|l: Seq<char>| #[trigger] a_reads(l, Ok(o)) ==> a_ok(o), head_ascii(a_text(o)),
{
    let t = nv_text(o.name@, otext(o.value)); reveal_strlit("a="); head("a=", t); if a_ok(o) { nv_back(o.name@, otext(o.value)); }
    assert forall|l: Seq<char>| #[trigger] a_reads(l, Ok(o)) implies a_ok(o) by { nv_lacks(body(l)); }
}
pub proof fn p20_media(o: MediaLineParsed, r: Result<MediaLineParsed, SdpError>)
    ensures m_ok(o) && m_reads(m_text(o), r) ==> r.is_ok() && (r->Ok_0).0 == o.0 && (r->Ok_0).1 == o.1 && (r->Ok_0).2 == o.2 && (r->Ok_0).3 == o.3 && (r->Ok_0).4@ == o.4@, forall|l: Seq<char>| #[trigger] m_reads(l, Ok(o)) ==> m_ok(o), head_ascii(m_text(o)),
{
    let (a, p, b, l) = (o.0@, port_text(o.1, o.2), o.3@, texts(o.4@)); let t = a + " "@ + p + " "@ + b + words(l);
    reveal_strlit("m="); head("m=", t); assert(m_text(o) =~= "m="@ + t);
    if m_ok(o) {
        port_back(o.1, o.2);
        ws_one(a); ws_add(a, p); ws_add(a + " "@ + p, b); ws_words(a + " "@ + p + " "@ + b, l, 16); let f = ws_fields(t); assert(f =~= seq![a, p, b] + l); assert(f.skip(3) =~= l);
        assert(all_ok(f.skip(3), 16)) by { assert forall|i: int| 0 <= i < l.len() implies okstr(#[trigger] l[i], 16) by { assert(token(l[i], 16)); } }
        assert(m_fits(f));
        if m_reads(m_text(o), r) { same_texts((r->Ok_0).4@, o.4@); }
    }
    assert forall|x: Seq<char>| #[trigger] m_reads(x, Ok(o)) implies m_ok(o) by { ws_tokens(body(x)); let f = wsf(x); assert(l.len() == f.len() - 3); assert forall|i: int| 0 <= i < l.len() implies token(#[trigger] l[i], 16) by { assert(l[i] == f.skip(3)[i]); assert(okstr(f.skip(3)[i], 16)); assert(f[i + 3] == f.skip(3)[i]); } }
}
pub proof fn port_back(port: u16, count: Option<u16>)
    ensures nows(port_text(port, count)), port_text(port, count).len() > 0, port_fits(port_text(port, count)), forall|p: u16, c: Option<u16>| #[trigger] port_of(port_text(port, count), p, c) ==> p == port && c == count,
{
    let a = dtext(port as nat); digits(port as nat, 65535); fields_lacks(a, '/'); sp();
    match count { Some(n) => { let b = dtext(n as nat); digits(n as nat, 65535); fields_add(a, '/', b); assert(fields(a + "/"@ + b, '/') =~= seq![a, b]); let t = a + "/"@ + b; assert forall|i: int| 0 <= i < t.len() implies !is_ws(#[trigger] t[i]) by { if i < a.len() { assert(!is_ws(a[i])); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } else { assert(t[i] == '/'); } } } None => {} }
}
}
use th::*;

// ---- whole texts: lines to descriptions ---------------------------------------------------------------------------
pub mod ws {
    use super::*;
    pub open spec fn is2(l: Seq<char>, k: char) -> bool { l.len() >= 2 && l[0] == k && l[1] == '=' }
    pub open spec fn shape(l: Seq<char>) -> bool { l.len() >= 2 && l[1] == '=' }
    /// the lines of one kind, in order
    pub open spec fn sel(ls: Seq<Seq<char>>, k: char) -> Seq<Seq<char>> decreases ls.len() {
        if ls.len() == 0 { Seq::empty() } else if is2(ls.last(), k) { sel(ls.drop_last(), k).push(ls.last()) } else { sel(ls.drop_last(), k) }
    }
    /// where the next media section begins
    pub open spec fn mend(ls: Seq<Seq<char>>, i: int) -> int decreases ls.len() - i { if i >= ls.len() { ls.len() as int } else if is2(ls[i], 'm') { i } else { mend(ls, i + 1) } }
    pub open spec fn b_fits(l: Seq<char>) -> bool { let f = fields(body(l), ':'); let n = unum(f[1], 0xffff_ffff_ffff_ffff); f.len() == 2 && okstr(f[0], 32) && n.is_some() && (n->0) <= 10_000_000 }
    pub open spec fn t_fits(l: Seq<char>) -> bool { let f = wsf(l); f.len() == 2 && unum(f[0], 0xffff_ffff_ffff_ffff).is_some() && unum(f[1], 0xffff_ffff_ffff_ffff).is_some() }
    #[verifier::opaque] pub open spec fn good_m(l: Seq<char>) -> bool {
        shape(l) && (if l[0] == 'i' { okstr(body(l), 2048) } else if l[0] == 'c' { c_fits(wsf(l)) } else if l[0] == 'b' { b_fits(l) } else if l[0] == 'k' { nv_fits(nv(body(l)), 64, 1024) } else if l[0] == 'a' { nv_fits(nv(body(l)), 128, 4096) } else { false })
    }
    #[verifier::opaque] pub open spec fn all_m(b: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < b.len() ==> good_m(#[trigger] b[i]) }
    pub open spec fn lim_m(b: Seq<Seq<char>>) -> bool { sel(b, 'b').len() <= 20 && sel(b, 'a').len() <= 100 }
    // what the lines of one kind give
    pub open spec fn txt_of(ls: Seq<Seq<char>>) -> Option<Seq<char>> { if ls.len() == 0 { None } else { Some(body(ls.last())) } }
    pub open spec fn conn_of(ls: Seq<Seq<char>>, c: Option<Connection>) -> bool { match c { Some(v) => ls.len() > 0 && c_reads(ls.last(), Ok(v)), None => ls.len() == 0 } }
    pub open spec fn key_of(ls: Seq<Seq<char>>, c: Option<EncryptionKey>) -> bool { match c { Some(v) => ls.len() > 0 && k_reads(ls.last(), Ok(v)), None => ls.len() == 0 } }
    pub open spec fn bws_of(ls: Seq<Seq<char>>, v: Seq<Bandwidth>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> b_reads(#[trigger] ls[i], Ok(v[i])) }
    pub open spec fn ats_of(ls: Seq<Seq<char>>, v: Seq<Attribute>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> a_reads(#[trigger] ls[i], Ok(v[i])) }
    pub open spec fn tms_of(ls: Seq<Seq<char>>, v: Seq<Timing>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> t_reads(#[trigger] ls[i], Ok(v[i])) }
    pub open spec fn rps_of(ls: Seq<Seq<char>>, v: Seq<RepeatTime>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> r_reads(#[trigger] ls[i], Ok(v[i])) }
    pub open spec fn strs_of(ls: Seq<Seq<char>>, v: Seq<String>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> body(#[trigger] ls[i]) == v[i]@ }
    /// what a media section's lines after the m= line give
    #[verifier::opaque] pub open spec fn m_has(b: Seq<Seq<char>>, d: MediaDescription) -> bool {
        otext(d.title) == txt_of(sel(b, 'i')) && conn_of(sel(b, 'c'), d.connection) && bws_of(sel(b, 'b'), d.bandwidth@) && key_of(sel(b, 'k'), d.encryption_key) && ats_of(sel(b, 'a'), d.attributes@)
    }
    #[verifier::opaque] pub open spec fn mhead(l: Seq<char>, a: String, b: u16, c: Option<u16>, d: String, e: Vec<String>) -> bool { m_reads(l, Ok((a, b, c, d, e))) }
    pub open spec fn grown<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a }
    /// what one more line changes
    pub open spec fn m_step(l: Seq<char>, d: MediaDescription, e: MediaDescription) -> bool {
        (if l[0] == 'i' { e.title.is_some() && (e.title->0)@ == body(l) } else { e.title == d.title })
        && (if l[0] == 'c' { e.connection.is_some() && c_reads(l, Ok(e.connection->0)) } else { e.connection == d.connection })
        && (if l[0] == 'b' { grown(d.bandwidth@, e.bandwidth@) && b_reads(l, Ok(e.bandwidth@.last())) } else { e.bandwidth == d.bandwidth })
        && (if l[0] == 'k' { e.encryption_key.is_some() && k_reads(l, Ok(e.encryption_key->0)) } else { e.encryption_key == d.encryption_key })
        && (if l[0] == 'a' { grown(d.attributes@, e.attributes@) && a_reads(l, Ok(e.attributes@.last())) } else { e.attributes == d.attributes })
    }
    pub open spec fn blk(ls: Seq<Seq<char>>, i: int) -> Seq<Seq<char>> { ls.subrange(i + 1, mend(ls, i + 1)) }
    pub open spec fn md_fits(ls: Seq<Seq<char>>, i: int) -> bool { 0 <= i < ls.len() && is2(ls[i], 'm') && m_fits(wsf(ls[i])) && all_m(blk(ls, i)) && lim_m(blk(ls, i)) }
    pub open spec fn md_reads(ls: Seq<Seq<char>>, i: int, d: MediaDescription) -> bool {
        mhead(ls[i], d.media, d.port, d.port_count, d.proto, d.fmt) && m_has(blk(ls, i), d) && d.mid.is_none() && d.rtcp.is_none() && d.capability_set.is_none()
    }
    pub proof fn mend_in(ls: Seq<Seq<char>>, i: int) requires 0 <= i <= ls.len() ensures i <= mend(ls, i) <= ls.len() decreases ls.len() - i { if i < ls.len() && !is2(ls[i], 'm') { mend_in(ls, i + 1); } }
    /// one more line
    pub proof fn sel_next(ls: Seq<Seq<char>>, a: int, i: int, k: char) requires 0 <= a <= i < ls.len()
        ensures sel(ls.subrange(a, i + 1), k) == if is2(ls[i], k) { sel(ls.subrange(a, i), k).push(ls[i]) } else { sel(ls.subrange(a, i), k) }
    { assert(ls.subrange(a, i + 1).drop_last() =~= ls.subrange(a, i)); assert(ls.subrange(a, i + 1).last() == ls[i]); }
    pub proof fn sel_mono(ls: Seq<Seq<char>>, a: int, i: int, j: int, k: char) requires 0 <= a <= i <= j <= ls.len() ensures sel(ls.subrange(a, i), k).len() <= sel(ls.subrange(a, j), k).len() decreases j - i
    { if i < j { sel_mono(ls, a, i, j - 1, k); sel_next(ls, a, j - 1, k); } }
    pub proof fn lit2(l: Seq<char>, s: &str) requires s@.len() == 2, s@[1] == '=' ensures at(l, Pat::S(s@), 0) == is2(l, s@[0])
    { if is2(l, s@[0]) { assert(l.subrange(0, 2) =~= s@); } if at(l, Pat::S(s@), 0) { assert(l[0] == l.subrange(0, 2)[0]); assert(l[1] == l.subrange(0, 2)[1]); } }
    pub proof fn lits(l: Seq<char>) ensures at(l, Pat::S("m="@), 0) == is2(l, 'm'), at(l, Pat::S("v="@), 0) == is2(l, 'v'), at(l, Pat::S("o="@), 0) == is2(l, 'o'), at(l, Pat::S("s="@), 0) == is2(l, 's'), at(l, Pat::S("r="@), 0) == is2(l, 'r')
    { reveal_strlit("m="); reveal_strlit("v="); reveal_strlit("o="); reveal_strlit("s="); reveal_strlit("r="); lit2(l, "m="); lit2(l, "v="); lit2(l, "o="); lit2(l, "s="); lit2(l, "r="); }
    pub proof fn head2(l: Seq<char>) requires shape(l), (l[0] as u32) < 128 ensures head_ascii(l), bnd(l, 2), cidx(l, 2) == 2 { assert(ascii(l.take(2))) by { assert(l.take(2)[0] == l[0]); assert(l.take(2)[1] == l[1]); } from2(l); }
    pub proof fn m_next(ls: Seq<Seq<char>>, a: int, i: int, d: MediaDescription) requires 0 <= a <= i < ls.len(), shape(ls[i]), m_has(ls.subrange(a, i), d)
        ensures forall|e: MediaDescription| m_step(ls[i], d, e) ==> #[trigger] m_has(ls.subrange(a, i + 1), e)
    {
        reveal(m_has); let l = ls[i];
        sel_next(ls, a, i, 'i'); sel_next(ls, a, i, 'c'); sel_next(ls, a, i, 'b'); sel_next(ls, a, i, 'k'); sel_next(ls, a, i, 'a');
        let b = ls.subrange(a, i); let c = ls.subrange(a, i + 1);
        assert forall|e: MediaDescription| m_step(l, d, e) implies #[trigger] m_has(c, e) by {
            if l[0] == 'b' { assert forall|j: int| 0 <= j < e.bandwidth@.len() implies b_reads(#[trigger] sel(c, 'b')[j], Ok(e.bandwidth@[j])) by { if j < d.bandwidth@.len() { assert(e.bandwidth@.drop_last()[j] == e.bandwidth@[j]); assert(sel(b, 'b')[j] == sel(c, 'b')[j]); } } }
            if l[0] == 'a' { assert forall|j: int| 0 <= j < e.attributes@.len() implies a_reads(#[trigger] sel(c, 'a')[j], Ok(e.attributes@[j])) by { if j < d.attributes@.len() { assert(e.attributes@.drop_last()[j] == e.attributes@[j]); assert(sel(b, 'a')[j] == sel(c, 'a')[j]); } } }
        }
    }
    /// a good line of a known kind
    pub proof fn good_is(l: Seq<char>) ensures good_m(l) == (shape(l) && (if l[0] == 'i' { okstr(body(l), 2048) } else if l[0] == 'c' { c_fits(wsf(l)) } else if l[0] == 'b' { b_fits(l) } else if l[0] == 'k' { nv_fits(nv(body(l)), 64, 1024) } else if l[0] == 'a' { nv_fits(nv(body(l)), 128, 4096) } else { false })) { reveal(good_m); }
    pub proof fn bad_line(ls: Seq<Seq<char>>, a: int, i: int, e: int) requires 0 <= a <= i < e <= ls.len(), !good_m(ls[i]) ensures !all_m(ls.subrange(a, e)) { reveal(all_m); assert(ls.subrange(a, e)[i - a] == ls[i]); }
    pub proof fn none_m(ls: Seq<Seq<char>>, a: int) requires 0 <= a <= ls.len() ensures all_m(ls.subrange(a, a)), lim_m(ls.subrange(a, a)), forall|d: MediaDescription| d.title.is_none() && d.connection.is_none() && d.bandwidth@.len() == 0 && d.encryption_key.is_none() && d.attributes@.len() == 0 ==> #[trigger] m_has(ls.subrange(a, a), d)
    { reveal(all_m); reveal(m_has); }
    pub proof fn m_lens(b: Seq<Seq<char>>, d: MediaDescription) requires m_has(b, d) ensures d.bandwidth@.len() == sel(b, 'b').len(), d.attributes@.len() == sel(b, 'a').len() { reveal(m_has); }
    pub proof fn all_next(ls: Seq<Seq<char>>, a: int, i: int) requires 0 <= a <= i < ls.len(), all_m(ls.subrange(a, i)), good_m(ls[i]) ensures all_m(ls.subrange(a, i + 1))
    { reveal(all_m); let b = ls.subrange(a, i + 1); assert forall|j: int| 0 <= j < b.len() implies good_m(#[trigger] b[j]) by { if j < i - a { assert(ls.subrange(a, i)[j] == b[j]); } } }
    pub proof fn line_in(ls: Seq<Seq<char>>, a: int, i: int, e: int) requires 0 <= a <= i < e <= ls.len() ensures ls.subrange(a, e)[i - a] == ls[i] {}
    // ---- session level ----
    #[verifier::opaque] pub open spec fn good_s(p: Seq<char>, l: Seq<char>) -> bool {
        shape(l) && (if l[0] == 'i' { okstr(body(l), 2048) } else if l[0] == 'u' { okstr(body(l), 2048) } else if l[0] == 'e' { okstr(body(l), 320) } else if l[0] == 'p' { okstr(body(l), 32) }
            else if l[0] == 'c' { c_fits(wsf(l)) } else if l[0] == 'b' { b_fits(l) } else if l[0] == 't' { t_fits(l) } else if l[0] == 'r' { r_fits(wsf(l)) && (is2(p, 't') || is2(p, 'r')) }
            else if l[0] == 'z' { z_fits(wsf(l)) } else if l[0] == 'k' { nv_fits(nv(body(l)), 64, 1024) } else if l[0] == 'a' { nv_fits(nv(body(l)), 128, 4096) } else { true })
    }
    #[verifier::opaque] pub open spec fn all_s(ls: Seq<Seq<char>>, a: int, e: int) -> bool { forall|i: int| a <= i < e ==> good_s(ls[i - 1], #[trigger] ls[i]) }
    /// how many zones the z= lines give
    pub open spec fn zn(ls: Seq<Seq<char>>) -> nat decreases ls.len() { if ls.len() == 0 { 0 } else { zn(ls.drop_last()) + wsf(ls.last()).len() / 2 } }
    pub open spec fn zs_of(ls: Seq<Seq<char>>, z: Seq<TimeZone>) -> bool decreases ls.len() {
        if ls.len() == 0 { z.len() == 0 } else { let w = wsf(ls.last()).len() / 2; w <= z.len() && z_pairs(wsf(ls.last()), z.skip(z.len() - w)) && zs_of(ls.drop_last(), z.take(z.len() - w)) }
    }
    #[verifier::opaque] pub open spec fn lim_s(b: Seq<Seq<char>>) -> bool { sel(b, 'e').len() <= 10 && sel(b, 'p').len() <= 10 && sel(b, 'b').len() <= 20 && sel(b, 't').len() <= 10 && sel(b, 'r').len() <= 10 && sel(b, 'a').len() <= 100 && zn(sel(b, 'z')) <= 50 }
    #[verifier::opaque] pub open spec fn s_has(b: Seq<Seq<char>>, d: SdpSession) -> bool {
        otext(d.session_info) == txt_of(sel(b, 'i')) && otext(d.uri) == txt_of(sel(b, 'u')) && strs_of(sel(b, 'e'), d.emails@) && strs_of(sel(b, 'p'), d.phones@) && conn_of(sel(b, 'c'), d.connection)
        && bws_of(sel(b, 'b'), d.bandwidth@) && tms_of(sel(b, 't'), d.timing@) && rps_of(sel(b, 'r'), d.repeat_times@) && zs_of(sel(b, 'z'), d.time_zones@) && key_of(sel(b, 'k'), d.encryption_key) && ats_of(sel(b, 'a'), d.attributes@)
    }
    pub open spec fn s_blank(d: SdpSession) -> bool {
        d.session_info.is_none() && d.uri.is_none() && d.emails@.len() == 0 && d.phones@.len() == 0 && d.connection.is_none() && d.bandwidth@.len() == 0 && d.timing@.len() == 0 && d.repeat_times@.len() == 0 && d.time_zones@.len() == 0 && d.encryption_key.is_none() && d.attributes@.len() == 0
    }
    pub open spec fn s_step(l: Seq<char>, d: SdpSession, e: SdpSession) -> bool {
        (if l[0] == 'i' { e.session_info.is_some() && (e.session_info->0)@ == body(l) } else { e.session_info == d.session_info })
        && (if l[0] == 'u' { e.uri.is_some() && (e.uri->0)@ == body(l) } else { e.uri == d.uri })
        && (if l[0] == 'e' { grown(d.emails@, e.emails@) && e.emails@.last()@ == body(l) } else { e.emails == d.emails })
        && (if l[0] == 'p' { grown(d.phones@, e.phones@) && e.phones@.last()@ == body(l) } else { e.phones == d.phones })
        && (if l[0] == 'c' { e.connection.is_some() && c_reads(l, Ok(e.connection->0)) } else { e.connection == d.connection })
        && (if l[0] == 'b' { grown(d.bandwidth@, e.bandwidth@) && b_reads(l, Ok(e.bandwidth@.last())) } else { e.bandwidth == d.bandwidth })
        && (if l[0] == 't' { grown(d.timing@, e.timing@) && t_reads(l, Ok(e.timing@.last())) } else { e.timing == d.timing })
        && (if l[0] == 'r' { grown(d.repeat_times@, e.repeat_times@) && r_reads(l, Ok(e.repeat_times@.last())) } else { e.repeat_times == d.repeat_times })
        && (if l[0] == 'z' { let n = d.time_zones@.len(); e.time_zones@.len() >= n && e.time_zones@.take(n as int) =~= d.time_zones@ && z_pairs(wsf(l), e.time_zones@.skip(n as int)) } else { e.time_zones == d.time_zones })
        && (if l[0] == 'k' { e.encryption_key.is_some() && k_reads(l, Ok(e.encryption_key->0)) } else { e.encryption_key == d.encryption_key })
        && (if l[0] == 'a' { grown(d.attributes@, e.attributes@) && a_reads(l, Ok(e.attributes@.last())) } else { e.attributes == d.attributes })
    }
    #[verifier::opaque] pub open spec fn shead(ls: Seq<Seq<char>>, v: u32, o: Origin, n: String) -> bool { v_reads(ls[0], Ok(v)) && o_reads(ls[1], Ok(o)) && n@ == body(ls[2]) }
    pub open spec fn s_fits(ls: Seq<Seq<char>>) -> bool {
        ls.len() >= 3 && is2(ls[0], 'v') && unum(body(ls[0]), 0xffff_ffff).is_some() && is2(ls[1], 'o') && o_fits(wsf(ls[1])) && is2(ls[2], 's') && okstr(body(ls[2]), 1024)
        && all_s(ls, 3, mend(ls, 3)) && lim_s(ls.subrange(3, mend(ls, 3)))
    }
    pub open spec fn s_reads(ls: Seq<Seq<char>>, d: SdpSession) -> bool { shead(ls, d.version, d.origin, d.session_name) && s_has(ls.subrange(3, mend(ls, 3)), d) }
    pub open spec fn same_rest(d: SdpSession, e: SdpSession) -> bool { e.groups == d.groups && e.capability_set == d.capability_set && e.media == d.media }
    pub proof fn zn_mono(ls: Seq<Seq<char>>, a: int, i: int, j: int) requires 0 <= a <= i <= j <= ls.len() ensures zn(sel(ls.subrange(a, i), 'z')) <= zn(sel(ls.subrange(a, j), 'z')) decreases j - i
    { if i < j { zn_mono(ls, a, i, j - 1); sel_next(ls, a, j - 1, 'z'); let p = sel(ls.subrange(a, j - 1), 'z'); assert(p.push(ls[j - 1]).drop_last() =~= p); } }
    pub proof fn zs_len(ls: Seq<Seq<char>>, z: Seq<TimeZone>) requires zs_of(ls, z) ensures z.len() == zn(ls) decreases ls.len()
    { if ls.len() > 0 { let w = wsf(ls.last()).len() / 2; zs_len(ls.drop_last(), z.take(z.len() - w)); } }
    pub proof fn s_lens(b: Seq<Seq<char>>, d: SdpSession) requires s_has(b, d) ensures d.emails@.len() == sel(b, 'e').len(), d.phones@.len() == sel(b, 'p').len(), d.bandwidth@.len() == sel(b, 'b').len(), d.timing@.len() == sel(b, 't').len(), d.repeat_times@.len() == sel(b, 'r').len(), d.attributes@.len() == sel(b, 'a').len(), d.time_zones@.len() == zn(sel(b, 'z'))
    { reveal(s_has); zs_len(sel(b, 'z'), d.time_zones@); }
    pub proof fn s_good_is(p: Seq<char>, l: Seq<char>) ensures good_s(p, l) == (shape(l) && (if l[0] == 'i' { okstr(body(l), 2048) } else if l[0] == 'u' { okstr(body(l), 2048) } else if l[0] == 'e' { okstr(body(l), 320) } else if l[0] == 'p' { okstr(body(l), 32) }
            else if l[0] == 'c' { c_fits(wsf(l)) } else if l[0] == 'b' { b_fits(l) } else if l[0] == 't' { t_fits(l) } else if l[0] == 'r' { r_fits(wsf(l)) && (is2(p, 't') || is2(p, 'r')) }
            else if l[0] == 'z' { z_fits(wsf(l)) } else if l[0] == 'k' { nv_fits(nv(body(l)), 64, 1024) } else if l[0] == 'a' { nv_fits(nv(body(l)), 128, 4096) } else { true })) { reveal(good_s); }
    pub proof fn z_fine(f: Seq<Seq<char>>) ensures forall|z: Seq<TimeZone>| #[trigger] z_pairs(f, z) && z.len() <= 50 ==> z_fits(f)
    { assert forall|z: Seq<TimeZone>| #[trigger] z_pairs(f, z) && z.len() <= 50 implies z_fits(f) by { assert forall|i: int| 0 <= i < f.len() / 2 implies z_fit(f, i) by { assert(z_pair(f, z[i], i)); } } }
    pub proof fn s_bad_line(ls: Seq<Seq<char>>, i: int, e: int) requires 3 <= i < e, !good_s(ls[i - 1], ls[i]) ensures !all_s(ls, 3, e) { reveal(all_s); }
    pub proof fn s_none(ls: Seq<Seq<char>>) requires 3 <= ls.len() ensures all_s(ls, 3, 3), lim_s(ls.subrange(3, 3)), forall|d: SdpSession| s_blank(d) ==> #[trigger] s_has(ls.subrange(3, 3), d) { reveal(all_s); reveal(s_has); reveal(lim_s); }
    pub proof fn s_all_next(ls: Seq<Seq<char>>, i: int) requires 3 <= i, all_s(ls, 3, i), good_s(ls[i - 1], ls[i]) ensures all_s(ls, 3, i + 1) { reveal(all_s); }
    pub open spec fn one(l: Seq<char>, k: char) -> nat { if l[0] == k { 1 } else { 0 } }
    pub proof fn s_lim_next(ls: Seq<Seq<char>>, i: int, e: int, d: SdpSession) requires 3 <= i < e <= ls.len(), s_has(ls.subrange(3, i), d)
        ensures !lim_s(ls.subrange(3, i + 1)) ==> !lim_s(ls.subrange(3, e)), shape(ls[i]) ==> lim_s(ls.subrange(3, i + 1)) == (d.emails@.len() + one(ls[i], 'e') <= 10 && d.phones@.len() + one(ls[i], 'p') <= 10 && d.bandwidth@.len() + one(ls[i], 'b') <= 20 && d.timing@.len() + one(ls[i], 't') <= 10 && d.repeat_times@.len() + one(ls[i], 'r') <= 10 && d.attributes@.len() + one(ls[i], 'a') <= 100 && d.time_zones@.len() + (if ls[i][0] == 'z' { wsf(ls[i]).len() / 2 } else { 0 }) <= 50),
            lim_s(ls.subrange(3, i)) == (d.emails@.len() <= 10 && d.phones@.len() <= 10 && d.bandwidth@.len() <= 20 && d.timing@.len() <= 10 && d.repeat_times@.len() <= 10 && d.attributes@.len() <= 100 && d.time_zones@.len() <= 50)
    {
        reveal(lim_s); let l = ls[i]; s_lens(ls.subrange(3, i), d);
        sel_next(ls, 3, i, 'e'); sel_next(ls, 3, i, 'p'); sel_next(ls, 3, i, 'b'); sel_next(ls, 3, i, 't'); sel_next(ls, 3, i, 'r'); sel_next(ls, 3, i, 'a'); sel_next(ls, 3, i, 'z');
        sel_mono(ls, 3, i + 1, e, 'e'); sel_mono(ls, 3, i + 1, e, 'p'); sel_mono(ls, 3, i + 1, e, 'b'); sel_mono(ls, 3, i + 1, e, 't'); sel_mono(ls, 3, i + 1, e, 'r'); sel_mono(ls, 3, i + 1, e, 'a'); zn_mono(ls, 3, i + 1, e);
        let p = sel(ls.subrange(3, i), 'z'); assert(p.push(l).drop_last() =~= p);
    }
    pub proof fn s_next(ls: Seq<Seq<char>>, i: int, d: SdpSession) requires 3 <= i < ls.len(), shape(ls[i]), s_has(ls.subrange(3, i), d)
        ensures forall|e: SdpSession| s_step(ls[i], d, e) ==> #[trigger] s_has(ls.subrange(3, i + 1), e)
    {
        reveal(s_has); let l = ls[i];
        sel_next(ls, 3, i, 'i'); sel_next(ls, 3, i, 'u'); sel_next(ls, 3, i, 'e'); sel_next(ls, 3, i, 'p'); sel_next(ls, 3, i, 'c'); sel_next(ls, 3, i, 'b'); sel_next(ls, 3, i, 't'); sel_next(ls, 3, i, 'r'); sel_next(ls, 3, i, 'z'); sel_next(ls, 3, i, 'k'); sel_next(ls, 3, i, 'a');
        let b = ls.subrange(3, i); let c = ls.subrange(3, i + 1);
        assert forall|e: SdpSession| s_step(l, d, e) implies #[trigger] s_has(c, e) by {
            if l[0] == 'e' { assert forall|j: int| 0 <= j < e.emails@.len() implies body(#[trigger] sel(c, 'e')[j]) == e.emails@[j]@ by { if j < d.emails@.len() { assert(e.emails@.drop_last()[j] == e.emails@[j]); assert(sel(b, 'e')[j] == sel(c, 'e')[j]); } } }
            if l[0] == 'p' { assert forall|j: int| 0 <= j < e.phones@.len() implies body(#[trigger] sel(c, 'p')[j]) == e.phones@[j]@ by { if j < d.phones@.len() { assert(e.phones@.drop_last()[j] == e.phones@[j]); assert(sel(b, 'p')[j] == sel(c, 'p')[j]); } } }
            if l[0] == 'b' { assert forall|j: int| 0 <= j < e.bandwidth@.len() implies b_reads(#[trigger] sel(c, 'b')[j], Ok(e.bandwidth@[j])) by { if j < d.bandwidth@.len() { assert(e.bandwidth@.drop_last()[j] == e.bandwidth@[j]); assert(sel(b, 'b')[j] == sel(c, 'b')[j]); } } }
            if l[0] == 't' { assert forall|j: int| 0 <= j < e.timing@.len() implies t_reads(#[trigger] sel(c, 't')[j], Ok(e.timing@[j])) by { if j < d.timing@.len() { assert(e.timing@.drop_last()[j] == e.timing@[j]); assert(sel(b, 't')[j] == sel(c, 't')[j]); } } }
            if l[0] == 'r' { assert forall|j: int| 0 <= j < e.repeat_times@.len() implies r_reads(#[trigger] sel(c, 'r')[j], Ok(e.repeat_times@[j])) by { if j < d.repeat_times@.len() { assert(e.repeat_times@.drop_last()[j] == e.repeat_times@[j]); assert(sel(b, 'r')[j] == sel(c, 'r')[j]); } } }
            if l[0] == 'a' { assert forall|j: int| 0 <= j < e.attributes@.len() implies a_reads(#[trigger] sel(c, 'a')[j], Ok(e.attributes@[j])) by { if j < d.attributes@.len() { assert(e.attributes@.drop_last()[j] == e.attributes@[j]); assert(sel(b, 'a')[j] == sel(c, 'a')[j]); } } }
            if l[0] == 'z' { let n = d.time_zones@.len(); let z = e.time_zones@; let w = wsf(l).len() / 2; assert(z.skip(n as int).len() == w); assert(z.len() - w == n); assert(sel(c, 'z').drop_last() =~= sel(b, 'z')); assert(z.take(n as int) == d.time_zones@); }
        }
    }
}
use ws::*;
impl MediaDescription {
//@fn MediaDescription::parse
@fmt
    requires *old(idx) <= lines@.len(),
    ensures r.is_ok() == md_fits(views(lines@), *old(idx) as int), r.is_ok() ==> md_reads(views(lines@), *old(idx) as int, r->Ok_0) && *final(idx) == mend(views(lines@), *old(idx) + 1) && *old(idx) < *final(idx) <= lines@.len(),
@entry
    let ghost ls = views(lines@); let ghost i0 = *idx as int; let ghost e = mend(ls, i0 + 1);
    proof { broadcast use {sx::pat_s}; if i0 < ls.len() { lits(ls[i0]); mend_in(ls, i0 + 1); assert(lines@[i0]@ == ls[i0]); if is2(ls[i0], 'm') { head2(ls[i0]); } none_m(ls, i0 + 1); } reveal(mhead); }
@loop 1
    invariant ls == views(lines@), i0 == *old(idx), 0 <= i0 < ls.len(), e == mend(ls, i0 + 1), i0 + 1 <= *idx <= e <= ls.len(), mend(ls, *idx as int) == e, is2(ls[i0], 'm'), m_fits(wsf(ls[i0])),
        mhead(ls[i0], desc.media, desc.port, desc.port_count, desc.proto, desc.fmt), desc.mid.is_none(), desc.rtcp.is_none(), desc.capability_set.is_none(),
        all_m(ls.subrange(i0 + 1, *idx as int)), lim_m(ls.subrange(i0 + 1, *idx as int)), m_has(ls.subrange(i0 + 1, *idx as int), desc),
    decreases lines@.len() - *idx,
@loopbody 1
    proof { broadcast use {sx::pat_s}; let i = *idx as int; let l = ls[i]; assert(lines@[i]@ == l); lits(l); blen_len(l); mend_in(ls, i + 1); good_is(l);
        if shape(l) && (l[0] as u32) < 128 { head2(l); }
        if good_m(l) { all_next(ls, i0 + 1, i); m_lens(ls.subrange(i0 + 1, i), desc); m_next(ls, i0 + 1, i, desc); } else { bad_line(ls, i0 + 1, i, e); }
        sel_next(ls, i0 + 1, i, 'b'); sel_next(ls, i0 + 1, i, 'a'); sel_mono(ls, i0 + 1, i + 1, e, 'b'); sel_mono(ls, i0 + 1, i + 1, e, 'a'); }
@afterloop 1
    proof { let i = *idx as int; if i < ls.len() { broadcast use {sx::pat_s}; lits(ls[i]); assert(lines@[i]@ == ls[i]); } assert(i == e); }
//@end
}
// ---- values of group, capability and rtcp attributes ---------------------------------------------------------------
pub mod av {
    use super::*;
    pub axiom fn upper_names() ensures uupper("LS"@) == "LS"@, uupper("FID"@) == "FID"@, uupper("SRF"@) == "SRF"@;
    pub open spec fn sem_reads(t: Seq<char>, s: GroupSemantics) -> bool {
        let u = uupper(t);
        match s { GroupSemantics::LS => u == "LS"@, GroupSemantics::FID => u == "FID"@, GroupSemantics::SRF => u == "SRF"@, GroupSemantics::Other(o) => o@ == t && u != "LS"@ && u != "FID"@ && u != "SRF"@ }
    }
    pub open spec fn sem_text(s: GroupSemantics) -> Seq<char> { match s { GroupSemantics::LS => "LS"@, GroupSemantics::FID => "FID"@, GroupSemantics::SRF => "SRF"@, GroupSemantics::Other(o) => o@ } }
    pub open spec fn g_fits(f: Seq<Seq<char>>) -> bool { 2 <= f.len() <= 51 && okstr(f[0], 128) && all_ok(f.skip(1), 64) }
    pub open spec fn g_reads(v: Seq<char>, r: Result<MediaGroup, SdpError>) -> bool { let f = ws_fields(v);
        match r { Ok(g) => g_fits(f) && sem_reads(f[0], g.semantics) && texts(g.mids@) == f.skip(1), Err(_) => !g_fits(f) } }
    pub open spec fn g_ok(g: MediaGroup) -> bool { token(sem_text(g.semantics), 128) && sem_reads(sem_text(g.semantics), g.semantics) && 1 <= g.mids@.len() <= 50 && all_tok(texts(g.mids@), 64) }
    pub open spec fn g_text(g: MediaGroup) -> Seq<char> { sem_text(g.semantics) + words(texts(g.mids@)) }
    pub open spec fn d_fits(f: Seq<Seq<char>>) -> bool { 4 <= f.len() <= 131 && unum(f[0], 255).is_some() && (unum(f[0], 255)->0) > 0 && okstr(f[1], 32) && okstr(f[2], 64) && all_ok(f.skip(3), 16) }
    pub open spec fn d_reads(v: Seq<char>, r: Result<CapabilityDescription, SdpError>) -> bool { let f = ws_fields(v);
        match r { Ok(d) => d_fits(f) && unum(f[0], 255) == Some(d.cap_num as nat) && d.media@ == f[1] && d.transport@ == f[2] && texts(d.formats@) == f.skip(3), Err(_) => !d_fits(f) } }
    pub open spec fn d_ok(d: CapabilityDescription) -> bool { d.cap_num > 0 && token(d.media@, 32) && token(d.transport@, 64) && 1 <= d.formats@.len() <= 128 && all_tok(texts(d.formats@), 16) }
    pub open spec fn d_text(d: CapabilityDescription) -> Seq<char> { dtext(d.cap_num as nat) + " "@ + d.media@ + " "@ + d.transport@ + words(texts(d.formats@)) }
    pub open spec fn rt_fits(f: Seq<Seq<char>>) -> bool { (f.len() == 1 || f.len() == 4) && unum(f[0], 65535).is_some() }
    pub open spec fn rt_is(f: Seq<Seq<char>>, t: RtcpAttribute) -> bool {
        unum(f[0], 65535) == Some(t.port as nat) && if f.len() == 1 { t.nettype.is_none() && t.addrtype.is_none() && t.connection_address.is_none() } else { f.len() == 4 && otext(t.nettype) == Some(f[1]) && otext(t.addrtype) == Some(f[2]) && otext(t.connection_address) == Some(f[3]) } }
    pub open spec fn rt_reads(v: Seq<char>, r: Result<RtcpAttribute, SdpError>) -> bool { let f = ws_fields(v); match r { Ok(t) => rt_fits(f) && rt_is(f, t), Err(_) => !rt_fits(f) } }
    pub open spec fn word(s: Seq<char>) -> bool { s.len() > 0 && nows(s) }
    pub open spec fn rt_ok(t: RtcpAttribute) -> bool {
        (t.nettype.is_none() && t.addrtype.is_none() && t.connection_address.is_none()) || (t.nettype.is_some() && t.addrtype.is_some() && t.connection_address.is_some() && word((t.nettype->0)@) && word((t.addrtype->0)@) && word((t.connection_address->0)@)) }
    pub open spec fn rt_text(t: RtcpAttribute) -> Seq<char> {
        if t.nettype.is_some() && t.addrtype.is_some() && t.connection_address.is_some() { dtext(t.port as nat) + " "@ + (t.nettype->0)@ + " "@ + (t.addrtype->0)@ + " "@ + (t.connection_address->0)@ } else { dtext(t.port as nat) } }
}
use av::*;
// {} of a value prints what the Display contract below says
impl XFmt for GroupSemantics { open spec fn fv(&self) -> Seq<char> { sem_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for MediaGroup { open spec fn fv(&self) -> Seq<char> { g_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for CapabilityDescription { open spec fn fv(&self) -> Seq<char> { d_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for CapabilityParameter { open spec fn fv(&self) -> Seq<char> { self.value@ } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for RtcpAttribute { open spec fn fv(&self) -> Seq<char> { rt_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Origin { open spec fn fv(&self) -> Seq<char> { o_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Connection { open spec fn fv(&self) -> Seq<char> { c_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Bandwidth { open spec fn fv(&self) -> Seq<char> { b_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Timing { open spec fn fv(&self) -> Seq<char> { t_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for RepeatTime { open spec fn fv(&self) -> Seq<char> { r_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for EncryptionKey { open spec fn fv(&self) -> Seq<char> { k_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl XFmt for Attribute { open spec fn fv(&self) -> Seq<char> { a_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
//@fn validate_capability_number
    ensures r.is_ok() == (cap_num > 0),
//@end
//@fn validate_sequence_number
    ensures r.is_ok(),
//@end
impl GroupSemantics {
//@fn GroupSemantics::as_str
    ensures r@ == sem_text(*self),
//@end
//@fn GroupSemantics::parse
@rewrite match s . to_uppercase ( ) . as_str ( ) { $*b } ==> { let u__ = s.to_uppercase(); match u__.as_str() { $b } }
    ensures sem_reads(s@, r),
@entry
    proof { reveal_strlit("LS"); reveal_strlit("FID"); reveal_strlit("SRF"); assert("LS"@.len() == 2); assert("FID"@[0] != "SRF"@[0]); }
//@end
//@fn GroupSemantics::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + sem_text(*self),
//@end
}
impl MediaGroup {
//@fn MediaGroup::parse
    ensures g_reads(value@, r),
@loop 1
    invariant o__ <= mids@.len(), texts(mids@) == ws_fields(value@).skip(1), ws_fields(value@).len() >= 2, forall|j: int| 0 <= j < o__ ==> okstr(#[trigger] mids@[j]@, 64),
    decreases mids@.len() - o__,
@loopbody 1
    proof { let f = ws_fields(value@); assert(mids@[o__ as int]@ == texts(mids@)[o__ as int]); assert(f.skip(1)[o__ as int] == texts(mids@)[o__ as int]); if g_fits(f) { assert(okstr(f.skip(1)[o__ as int], 64)); } }
@afterloop 1
    proof { let f = ws_fields(value@).skip(1); assert forall|i: int| 0 <= i < f.len() implies okstr(#[trigger] f[i], 64) by { assert(texts(mids@)[i] == f[i]); assert(okstr(mids@[i]@, 64)); } }
//@end
//@fn MediaGroup::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
@rewrite for mid in & self . mids { $*b } ==> let mut o__: usize = 0; while o__ < self.mids.len() { let mid = &self.mids[o__]; o__ += 1; $b }
    ensures r.is_ok(), final(f)@ == old(f)@ + g_text(*self),
@loop 1
    invariant o__ <= self.mids@.len(), f@ == old(f)@ + (sem_text(self.semantics) + words(texts(self.mids@).take(o__ as int))),
    decreases self.mids@.len() - o__,
@loopbody 1
    proof { words_next(texts(self.mids@), o__ as int); }
@afterloop 1
    proof { let t = texts(self.mids@); assert(t.take(t.len() as int) =~= t); }
//@end
}
impl CapabilityDescription {
//@fn CapabilityDescription::parse
    ensures d_reads(value@, r),
@loop 1
    invariant o__ <= formats@.len(), texts(formats@) == ws_fields(value@).skip(3), ws_fields(value@).len() >= 4, forall|j: int| 0 <= j < o__ ==> okstr(#[trigger] formats@[j]@, 16),
    decreases formats@.len() - o__,
@loopbody 1
    proof { let f = ws_fields(value@); assert(formats@[o__ as int]@ == texts(formats@)[o__ as int]); assert(f.skip(3)[o__ as int] == texts(formats@)[o__ as int]); if d_fits(f) { assert(okstr(f.skip(3)[o__ as int], 16)); } }
@afterloop 1
    proof { let f = ws_fields(value@).skip(3); assert forall|i: int| 0 <= i < f.len() implies okstr(#[trigger] f[i], 16) by { assert(texts(formats@)[i] == f[i]); assert(okstr(formats@[i]@, 16)); } }
//@end
//@fn CapabilityDescription::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
@rewrite for fmt in & self . formats { $*b } ==> let mut o__: usize = 0; while o__ < self.formats.len() { let fmt = &self.formats[o__]; o__ += 1; $b }
    ensures r.is_ok(), final(f)@ == old(f)@ + d_text(*self),
@loop 1
    invariant o__ <= self.formats@.len(), f@ == old(f)@ + (dtext(self.cap_num as nat) + " "@ + self.media@ + " "@ + self.transport@ + words(texts(self.formats@).take(o__ as int))),
    decreases self.formats@.len() - o__,
@loopbody 1
    proof { words_next(texts(self.formats@), o__ as int); }
@afterloop 1
    proof { let t = texts(self.formats@); assert(t.take(t.len() as int) =~= t); }
//@end
}
impl CapabilityParameterType {
//@fn CapabilityParameterType::as_str
    ensures r@ == ptext(self),
//@end
}
pub open spec fn ptext(t: CapabilityParameterType) -> Seq<char> { match t { CapabilityParameterType::General => "cpar"@, CapabilityParameterType::Min => "cparmin"@, CapabilityParameterType::Max => "cparmax"@ } }
impl CapabilityParameter {
//@fn CapabilityParameter::parse
    ensures r.param_type == param_type, r.value@ == value@,
//@end
//@fn CapabilityParameter::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + self.value@,
//@end
}
impl RtcpAttribute {
//@fn RtcpAttribute::new
    ensures r.port == port, r.nettype.is_none(), r.addrtype.is_none(), r.connection_address.is_none(),
//@end
//@fn RtcpAttribute::with_address
    ensures r.port == port, r.nettype == Some(nettype), r.addrtype == Some(addrtype), r.connection_address == Some(connection_address),
//@end
//@fn RtcpAttribute::parse
    ensures rt_reads(value@, r),
//@end
//@fn RtcpAttribute::format
@fmt
@rewrite self . port . to_string ( ) ==> self.port.x_text()
    ensures r@ =~= rt_text(*self),
//@end
//@fn RtcpAttribute::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures r.is_ok(), final(f)@ == old(f)@ + rt_text(*self),
//@end
}
// ---- attributes with a place of their own ---------------------------------------------------------------------------
pub mod xatt {
    use super::*;
    /// attributes.drain(..): everything out
    #[verifier::external_body] pub fn x_drain(v: &mut Vec<Attribute>) -> (r: Vec<Attribute>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn x_attr(v: &Vec<Attribute>, i: usize) -> (r: Attribute) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn x_media(v: &Vec<MediaDescription>, i: usize) -> (r: MediaDescription) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
    pub open spec fn keep(a: Seq<Attribute>, n: Seq<char>) -> Seq<Attribute> decreases a.len() { if a.len() == 0 { a } else if a.last().name@ == n { keep(a.drop_last(), n) } else { keep(a.drop_last(), n).push(a.last()) } }
    pub open spec fn vals(a: Seq<Attribute>, n: Seq<char>) -> Seq<Attribute> decreases a.len() { if a.len() == 0 { a } else if a.last().name@ == n { vals(a.drop_last(), n).push(a.last()) } else { vals(a.drop_last(), n) } }
    pub open spec fn aval(a: Attribute) -> Seq<char> { (a.value->0)@ }
    // groups
    pub open spec fn gs_fit(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> g_good(#[trigger] v[i]) }
    pub open spec fn g_good(a: Attribute) -> bool { a.value.is_some() && g_fits(ws_fields(aval(a))) }
    pub open spec fn gs_of(v: Seq<Attribute>, g: Seq<MediaGroup>) -> bool { g.len() == v.len() && forall|i: int| 0 <= i < g.len() ==> g_reads(aval(#[trigger] v[i]), Ok(g[i])) }
    // mids
    pub open spec fn valued(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).value.is_some() }
    pub open spec fn mid_of(v: Seq<Attribute>, m: Option<String>) -> bool { match m { Some(t) => v.len() > 0 && t@ == aval(v.last()), None => v.len() == 0 } }
    pub open spec fn md_rest(d: MediaDescription, e: MediaDescription) -> bool { e.media == d.media && e.port == d.port && e.port_count == d.port_count && e.proto == d.proto && e.fmt == d.fmt && e.title == d.title && e.connection == d.connection && e.bandwidth == d.bandwidth && e.encryption_key == d.encryption_key }
    pub open spec fn md_mid(d: MediaDescription, e: MediaDescription) -> bool { md_rest(d, e) && e.rtcp == d.rtcp && e.capability_set == d.capability_set && mid_of(vals(d.attributes@, "mid"@), e.mid) && e.attributes@ == keep(d.attributes@, "mid"@) && valued(vals(d.attributes@, "mid"@)) }
    pub open spec fn s_rest(d: SdpSession, e: SdpSession) -> bool { e.version == d.version && e.origin == d.origin && e.session_name == d.session_name && e.session_info == d.session_info && e.uri == d.uri && e.emails == d.emails && e.phones == d.phones && e.connection == d.connection && e.bandwidth == d.bandwidth && e.timing == d.timing && e.repeat_times == d.repeat_times && e.time_zones == d.time_zones && e.encryption_key == d.encryption_key }
    pub open spec fn gm_fits(d: SdpSession) -> bool { gs_fit(vals(d.attributes@, "group"@)) && vals(d.attributes@, "group"@).len() <= 20 && forall|i: int| 0 <= i < d.media@.len() ==> valued(vals((#[trigger] d.media@[i]).attributes@, "mid"@)) }
    pub open spec fn gm_rel(d: SdpSession, e: SdpSession) -> bool {
        s_rest(d, e) && e.capability_set == d.capability_set && gs_of(vals(d.attributes@, "group"@), e.groups@) && e.attributes@ == keep(d.attributes@, "group"@)
        && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < e.media@.len() ==> md_mid(d.media@[i], #[trigger] e.media@[i])
    }
    // rtcp
    pub open spec fn rts_fit(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> rt_good(#[trigger] v[i]) }
    pub open spec fn rt_good(a: Attribute) -> bool { a.value.is_some() && rt_fits(ws_fields(aval(a))) }
    pub open spec fn rtcp_of(v: Seq<Attribute>, m: Option<RtcpAttribute>) -> bool { match m { Some(t) => v.len() > 0 && rt_is(ws_fields(aval(v.last())), t), None => v.len() == 0 } }
    pub open spec fn md_rt(d: MediaDescription, e: MediaDescription) -> bool { md_rest(d, e) && e.mid == d.mid && e.capability_set == d.capability_set && rtcp_of(vals(d.attributes@, "rtcp"@), e.rtcp) && e.attributes@ == keep(d.attributes@, "rtcp"@) && rts_fit(vals(d.attributes@, "rtcp"@)) }
    pub open spec fn rt_all(d: SdpSession) -> bool { forall|i: int| 0 <= i < d.media@.len() ==> rts_fit(vals((#[trigger] d.media@[i]).attributes@, "rtcp"@)) }
    pub open spec fn rt_rel(d: SdpSession, e: SdpSession) -> bool {
        s_rest(d, e) && e.capability_set == d.capability_set && e.groups == d.groups && e.attributes == d.attributes
        && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < e.media@.len() ==> md_rt(d.media@[i], #[trigger] e.media@[i])
    }
    // capabilities
    pub open spec fn parkey(n: Seq<char>) -> bool { n == "cpar"@ || n == "cparmin"@ || n == "cparmax"@ }
    pub open spec fn capkey(n: Seq<char>) -> bool { n == "sqn"@ || n == "cdsc"@ || parkey(n) }
    pub open spec fn keepc(a: Seq<Attribute>) -> Seq<Attribute> decreases a.len() { if a.len() == 0 { a } else if capkey(a.last().name@) { keepc(a.drop_last()) } else { keepc(a.drop_last()).push(a.last()) } }
    pub open spec fn pvals(a: Seq<Attribute>) -> Seq<Attribute> decreases a.len() { if a.len() == 0 { a } else if parkey(a.last().name@) { pvals(a.drop_last()).push(a.last()) } else { pvals(a.drop_last()) } }
    pub open spec fn c_good(a: Attribute) -> bool { (a.name@ == "sqn"@ ==> a.value.is_some() && unum(aval(a), 255).is_some()) && (a.name@ == "cdsc"@ ==> a.value.is_some() && d_fits(ws_fields(aval(a)))) && (parkey(a.name@) ==> a.value.is_some()) }
    pub open spec fn all_cg(a: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < a.len() ==> c_good(#[trigger] a[i]) }
    pub open spec fn cap_fits(a: Seq<Attribute>) -> bool { all_cg(a) && vals(a, "cdsc"@).len() <= 50 && pvals(a).len() <= 100 && (vals(a, "sqn"@).len() > 0 || (vals(a, "cdsc"@).len() == 0 && pvals(a).len() == 0)) }
    pub open spec fn ds_of(v: Seq<Attribute>, g: Seq<CapabilityDescription>) -> bool { g.len() == v.len() && forall|i: int| 0 <= i < g.len() ==> d_reads(aval(#[trigger] v[i]), Ok(g[i])) }
    pub open spec fn ps_of(v: Seq<Attribute>, g: Seq<CapabilityParameter>) -> bool { g.len() == v.len() && forall|i: int| 0 <= i < g.len() ==> p_is(#[trigger] v[i], g[i]) }
    pub open spec fn p_is(a: Attribute, p: CapabilityParameter) -> bool { a.name@ == ptext(p.param_type) && a.value.is_some() && aval(a) == p.value@ }
    pub open spec fn sqn_of(v: Seq<Attribute>, q: Option<u8>) -> bool { match q { Some(n) => v.len() > 0 && unum(aval(v.last()), 255) == Some(n as nat), None => v.len() == 0 } }
    pub open spec fn cap_of(a: Seq<Attribute>, r: Option<SdpCapabilitySet>) -> bool {
        match r { None => vals(a, "sqn"@).len() == 0 && vals(a, "cdsc"@).len() == 0 && pvals(a).len() == 0, Some(c) => sqn_of(vals(a, "sqn"@), Some(c.sequence_number)) && ds_of(vals(a, "cdsc"@), c.descriptions@) && ps_of(pvals(a), c.parameters@) } }
    pub open spec fn md_cap(d: MediaDescription, e: MediaDescription) -> bool { md_rest(d, e) && e.mid == d.mid && e.rtcp == d.rtcp && cap_of(d.attributes@, e.capability_set) && e.attributes@ == keepc(d.attributes@) }
    pub open spec fn cap_all(d: SdpSession) -> bool { cap_fits(d.attributes@) && forall|i: int| 0 <= i < d.media@.len() ==> cap_fits((#[trigger] d.media@[i]).attributes@) }
    pub open spec fn cap_rel(d: SdpSession, e: SdpSession) -> bool {
        s_rest(d, e) && e.groups == d.groups && cap_of(d.attributes@, e.capability_set) && e.attributes@ == keepc(d.attributes@)
        && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < e.media@.len() ==> md_cap(d.media@[i], #[trigger] e.media@[i])
    }
    pub open spec fn s_valid(d: SdpSession) -> bool { d.timing@.len() > 0 && (d.connection.is_some() || forall|i: int| 0 <= i < d.media@.len() ==> (#[trigger] d.media@[i]).connection.is_some()) }
    pub proof fn cnames() ensures "sqn"@ != "cdsc"@, "sqn"@ != "cpar"@, "sqn"@ != "cparmin"@, "sqn"@ != "cparmax"@, "cdsc"@ != "cpar"@, "cdsc"@ != "cparmin"@, "cdsc"@ != "cparmax"@, "cpar"@ != "cparmin"@, "cpar"@ != "cparmax"@, "cparmin"@ != "cparmax"@
    { reveal_strlit("sqn"); reveal_strlit("cdsc"); reveal_strlit("cpar"); reveal_strlit("cparmin"); reveal_strlit("cparmax"); assert("sqn"@.len() == 3); assert("cdsc"@.len() == 4); assert("cpar"@.len() == 4); assert("cparmin"@.len() == 7); assert("cdsc"@[1] == 'd'); assert("cpar"@[1] == 'p'); assert("cparmin"@[5] == 'i'); assert("cparmax"@[5] == 'a'); }
    pub proof fn pvals_mono(a: Seq<Attribute>, i: int) requires 0 <= i <= a.len() ensures pvals(a.take(i)).len() <= pvals(a).len() decreases a.len() - i
    { if i == a.len() { assert(a.take(i) =~= a); } else { pvals_mono(a, i + 1); take_next(a, i); } }
    /// one more attribute
    pub proof fn cap_next(a: Seq<Attribute>, i: int) requires 0 <= i < a.len()
        ensures vals(a.take(i + 1), "sqn"@) == if a[i].name@ == "sqn"@ { vals(a.take(i), "sqn"@).push(a[i]) } else { vals(a.take(i), "sqn"@) },
            vals(a.take(i + 1), "cdsc"@) == if a[i].name@ == "cdsc"@ { vals(a.take(i), "cdsc"@).push(a[i]) } else { vals(a.take(i), "cdsc"@) },
            pvals(a.take(i + 1)) == if parkey(a[i].name@) { pvals(a.take(i)).push(a[i]) } else { pvals(a.take(i)) },
            keepc(a.take(i + 1)) == if capkey(a[i].name@) { keepc(a.take(i)) } else { keepc(a.take(i)).push(a[i]) },
            vals(a.take(i + 1), "cdsc"@).len() <= vals(a, "cdsc"@).len(), pvals(a.take(i + 1)).len() <= pvals(a).len(),
    { take_next(a, i); vals_mono(a, i + 1, "cdsc"@); pvals_mono(a, i + 1); }
    pub proof fn take_next(a: Seq<Attribute>, i: int) requires 0 <= i < a.len() ensures a.take(i + 1).drop_last() == a.take(i), a.take(i + 1).last() == a[i] { assert(a.take(i + 1).drop_last() =~= a.take(i)); }
    pub proof fn vals_mono(a: Seq<Attribute>, i: int, n: Seq<char>) requires 0 <= i <= a.len() ensures vals(a.take(i), n).len() <= vals(a, n).len(), vals(a.take(i), n) == vals(a, n).take(vals(a.take(i), n).len() as int) decreases a.len() - i
    { if i == a.len() { assert(a.take(i) =~= a); assert(vals(a, n).take(vals(a, n).len() as int) =~= vals(a, n)); } else { vals_mono(a, i + 1, n); take_next(a, i); let p = vals(a.take(i), n); let q = vals(a.take(i + 1), n); let k = vals(a, n); assert(p =~= k.take(p.len() as int)) by { assert(q == k.take(q.len() as int)); if a[i].name@ == n { assert(q.drop_last() =~= p); } } } }
}
use xatt::*;
// ---- the whole text -------------------------------------------------------------------------------------------------
pub mod wt {
    use super::*;
    /// where the media sections begin
    pub open spec fn sstarts(ls: Seq<Seq<char>>, i: int) -> Seq<int> decreases ls.len() - i { if i >= ls.len() || mend(ls, i + 1) <= i || mend(ls, i + 1) > ls.len() { Seq::empty() } else { seq![i] + sstarts(ls, mend(ls, i + 1)) } }
    pub open spec fn all_fit(ls: Seq<Seq<char>>) -> bool { let q = sstarts(ls, mend(ls, 3)); q.len() <= 50 && forall|j: int| 0 <= j < q.len() ==> md_fits(ls, #[trigger] q[j]) }
    #[verifier::opaque] pub open spec fn raw_reads(ls: Seq<Seq<char>>, d: SdpSession) -> bool {
        let q = sstarts(ls, mend(ls, 3));
        s_reads(ls, d) && d.groups@.len() == 0 && d.capability_set.is_none() && d.media@.len() == q.len() && forall|j: int| 0 <= j < q.len() ==> md_reads(ls, #[trigger] q[j], d.media@[j])
    }
    pub proof fn s_frame(b: Seq<Seq<char>>) ensures forall|d: SdpSession, e: SdpSession| #[trigger] s_has(b, d) && s_rest(d, e) && e.attributes == d.attributes ==> #[trigger] s_has(b, e) { reveal(s_has); }
    pub open spec fn parsed(ls: Seq<Seq<char>>, d: SdpSession) -> bool {
        s_fits(ls) && all_fit(ls) && s_valid(d) && exists|a: SdpSession, b: SdpSession, c: SdpSession| raw_reads(ls, a) && gm_fits(a) && #[trigger] gm_rel(a, b) && cap_all(b) && #[trigger] cap_rel(b, c) && rt_all(c) && #[trigger] rt_rel(c, d)
    }
    pub open spec fn refused(ls: Seq<Seq<char>>) -> bool {
        !s_fits(ls) || !all_fit(ls) || (exists|a: SdpSession| raw_reads(ls, a) && !#[trigger] gm_fits(a)) || (exists|a: SdpSession, b: SdpSession| raw_reads(ls, a) && #[trigger] gm_rel(a, b) && !cap_all(b))
        || (exists|a: SdpSession, b: SdpSession, c: SdpSession| raw_reads(ls, a) && #[trigger] gm_rel(a, b) && #[trigger] cap_rel(b, c) && !rt_all(c))
        || (exists|a: SdpSession, b: SdpSession, c: SdpSession, d: SdpSession| raw_reads(ls, a) && #[trigger] gm_rel(a, b) && #[trigger] cap_rel(b, c) && #[trigger] rt_rel(c, d) && !s_valid(d))
    }
}
use wt::*;
impl SdpSession {
//@fn SdpSession::parse_session_level
@fmt
    requires idx == 0, s_blank(*old(self)),
    ensures r.is_ok() == s_fits(views(lines@)), same_rest(*old(self), *final(self)), r.is_ok() ==> s_reads(views(lines@), *final(self)) && r->Ok_0 == mend(views(lines@), 3) && 3 <= r->Ok_0 <= lines@.len(),
@entry
    let ghost ls = views(lines@); let ghost e = mend(ls, 3);
    proof { broadcast use {sx::pat_s}; if 0 < ls.len() { lits(ls[0]); assert(lines@[0]@ == ls[0]); if is2(ls[0], 'v') { head2(ls[0]); } }
        if 1 < ls.len() { lits(ls[1]); assert(lines@[1]@ == ls[1]); if is2(ls[1], 'o') { head2(ls[1]); } }
        if 2 < ls.len() { lits(ls[2]); assert(lines@[2]@ == ls[2]); if is2(ls[2], 's') { head2(ls[2]); } mend_in(ls, 3); s_none(ls); } reveal(shead); }
@loop 1
    invariant ls == views(lines@), ls.len() >= 3, e == mend(ls, 3), 3 <= idx <= e <= ls.len(), mend(ls, idx as int) == e, same_rest(*old(self), *self),
        is2(ls[0], 'v'), unum(body(ls[0]), 0xffff_ffff).is_some(), is2(ls[1], 'o'), o_fits(wsf(ls[1])), is2(ls[2], 's'), okstr(body(ls[2]), 1024),
        shead(ls, self.version, self.origin, self.session_name), all_s(ls, 3, idx as int), lim_s(ls.subrange(3, idx as int)), s_has(ls.subrange(3, idx as int), *self),
        idx < e && is2(ls[idx as int], 'r') ==> !is2(ls[idx - 1], 't') && !is2(ls[idx - 1], 'r'),
    decreases lines@.len() - idx,
@loopbody 1
    proof { broadcast use {sx::pat_s}; let i = idx as int; let l = ls[i]; assert(lines@[i]@ == l); lits(l); blen_len(l); mend_in(ls, i + 1); s_good_is(ls[i - 1], l);
        if shape(l) && (l[0] as u32) < 128 { head2(l); } z_fine(wsf(l));
        if i + 1 < ls.len() { lits(ls[i + 1]); assert(lines@[i + 1]@ == ls[i + 1]); }
        if good_s(ls[i - 1], l) { s_all_next(ls, i); s_next(ls, i, *self); } else { s_bad_line(ls, i, e); }
        s_lim_next(ls, i, e, *self); }
    let ghost i1 = idx;
@loop 2
    invariant ls == views(lines@), i1 <= idx, lines@.len() <= usize::MAX, ls.len() >= 3, e == mend(ls, 3), 3 <= idx < e <= ls.len(), mend(ls, idx + 1) == e, same_rest(*old(self), *self),
        is2(ls[0], 'v'), unum(body(ls[0]), 0xffff_ffff).is_some(), is2(ls[1], 'o'), o_fits(wsf(ls[1])), is2(ls[2], 's'), okstr(body(ls[2]), 1024),
        shead(ls, self.version, self.origin, self.session_name), all_s(ls, 3, idx + 1), lim_s(ls.subrange(3, idx + 1)), s_has(ls.subrange(3, idx + 1), *self),
        is2(ls[idx as int], 't') || is2(ls[idx as int], 'r'),
    decreases lines@.len() - idx,
@loopbody 2
    proof { broadcast use {sx::pat_s}; let i = idx + 1; let l = ls[i]; assert(lines@[i]@ == l); lits(l); mend_in(ls, i + 1); s_good_is(ls[i - 1], l); head2(l);
        if i + 1 < ls.len() { lits(ls[i + 1]); assert(lines@[i + 1]@ == ls[i + 1]); }
        if good_s(ls[i - 1], l) { s_all_next(ls, i); s_next(ls, i, *self); } else { s_bad_line(ls, i, e); }
        s_lim_next(ls, i, e, *self); }
@afterloop 2
    proof { let i = idx + 1; if i < ls.len() { broadcast use {sx::pat_s}; lits(ls[i]); assert(lines@[i]@ == ls[i]); } }
@afterloop 1
    proof { let i = idx as int; if i < ls.len() { broadcast use {sx::pat_s}; lits(ls[i]); assert(lines@[i]@ == ls[i]); } assert(i == e); }
//@end
//@fn SdpSession::extract_groups_and_mids
    requires old(self).groups@.len() == 0, forall|i: int| 0 <= i < old(self).media@.len() ==> (#[trigger] old(self).media@[i]).mid.is_none(),
    ensures r.is_ok() == gm_fits(*old(self)), r.is_ok() ==> gm_rel(*old(self), *final(self)),
@loop 1
    invariant a__ <= dr__@.len(), dr__@ == old(self).attributes@, s_rest(*old(self), *self), self.capability_set == old(self).capability_set, self.media == old(self).media,
        remaining_attrs@ == keep(dr__@.take(a__ as int), "group"@), gs_of(vals(dr__@.take(a__ as int), "group"@), self.groups@), gs_fit(vals(dr__@.take(a__ as int), "group"@)), self.groups@.len() <= 20,
    decreases dr__@.len() - a__,
@loopbody 1
    proof { let i = a__ as int; take_next(dr__@, i); vals_mono(dr__@, i, "group"@); vals_mono(dr__@, i + 1, "group"@); let p = vals(dr__@.take(i), "group"@); let q = vals(dr__@.take(i + 1), "group"@); let v = vals(dr__@, "group"@); if dr__@[i].name@ == "group"@ { assert(q == p.push(dr__@[i])); assert(v[q.len() - 1] == q[q.len() - 1]); assert forall|j: int| 0 <= j < p.len() implies q[j] == p[j] by {} } }
@afterloop 1
    proof { assert(dr__@.take(dr__@.len() as int) =~= dr__@); }
@loop 2
    invariant m__ <= self.media@.len(), s_rest(*old(self), *self), self.capability_set == old(self).capability_set, gs_of(vals(old(self).attributes@, "group"@), self.groups@), gs_fit(vals(old(self).attributes@, "group"@)), vals(old(self).attributes@, "group"@).len() <= 20, self.attributes@ == keep(old(self).attributes@, "group"@),
        self.media@.len() == old(self).media@.len(), forall|i: int| 0 <= i < m__ ==> md_mid(old(self).media@[i], #[trigger] self.media@[i]), forall|i: int| m__ <= i < self.media@.len() ==> old(self).media@[i] == #[trigger] self.media@[i],
        forall|i: int| 0 <= i < m__ ==> valued(vals((#[trigger] old(self).media@[i]).attributes@, "mid"@)), forall|i: int| 0 <= i < old(self).media@.len() ==> (#[trigger] old(self).media@[i]).mid.is_none(),
    decreases self.media@.len() - m__,
@loopbody 2
    let ghost d0 = self.media@[m__ as int];
    proof { assert(d0 == old(self).media@[m__ as int]); }
@loop 3
    invariant a__ <= dr__@.len(), dr__@ == d0.attributes@, md_rest(d0, media), media.rtcp == d0.rtcp, media.capability_set == d0.capability_set, m__ < old(self).media@.len(), d0 == old(self).media@[m__ as int],
        remaining_attrs@ == keep(dr__@.take(a__ as int), "mid"@), mid_of(vals(dr__@.take(a__ as int), "mid"@), media.mid), valued(vals(dr__@.take(a__ as int), "mid"@)),
    decreases dr__@.len() - a__,
@loopbody 3
    proof { let i = a__ as int; take_next(dr__@, i); vals_mono(dr__@, i, "mid"@); vals_mono(dr__@, i + 1, "mid"@); let p = vals(dr__@.take(i), "mid"@); let q = vals(dr__@.take(i + 1), "mid"@); let v = vals(dr__@, "mid"@); if dr__@[i].name@ == "mid"@ { assert(q == p.push(dr__@[i])); assert(v[q.len() - 1] == q[q.len() - 1]); } }
@afterloop 3
    proof { assert(dr__@.take(dr__@.len() as int) =~= dr__@); }
//@end
//@fn SdpSession::extract_rtcp
    requires forall|i: int| 0 <= i < old(self).media@.len() ==> (#[trigger] old(self).media@[i]).rtcp.is_none(),
    ensures r.is_ok() == rt_all(*old(self)), r.is_ok() ==> rt_rel(*old(self), *final(self)),
@loop 1
    invariant m__ <= self.media@.len(), s_rest(*old(self), *self), self.capability_set == old(self).capability_set, self.groups == old(self).groups, self.attributes == old(self).attributes,
        self.media@.len() == old(self).media@.len(), forall|i: int| 0 <= i < m__ ==> md_rt(old(self).media@[i], #[trigger] self.media@[i]), forall|i: int| m__ <= i < self.media@.len() ==> old(self).media@[i] == #[trigger] self.media@[i],
        forall|i: int| 0 <= i < m__ ==> rts_fit(vals((#[trigger] old(self).media@[i]).attributes@, "rtcp"@)), forall|i: int| 0 <= i < old(self).media@.len() ==> (#[trigger] old(self).media@[i]).rtcp.is_none(),
    decreases self.media@.len() - m__,
@loopbody 1
    let ghost d0 = self.media@[m__ as int];
    proof { assert(d0 == old(self).media@[m__ as int]); }
@loop 2
    invariant a__ <= dr__@.len(), dr__@ == d0.attributes@, md_rest(d0, media), media.mid == d0.mid, media.capability_set == d0.capability_set, m__ < old(self).media@.len(), d0 == old(self).media@[m__ as int],
        remaining_attrs@ == keep(dr__@.take(a__ as int), "rtcp"@), rtcp_of(vals(dr__@.take(a__ as int), "rtcp"@), media.rtcp), rts_fit(vals(dr__@.take(a__ as int), "rtcp"@)),
    decreases dr__@.len() - a__,
@loopbody 2
    proof { let i = a__ as int; take_next(dr__@, i); vals_mono(dr__@, i, "rtcp"@); vals_mono(dr__@, i + 1, "rtcp"@); let p = vals(dr__@.take(i), "rtcp"@); let q = vals(dr__@.take(i + 1), "rtcp"@); let v = vals(dr__@, "rtcp"@); if dr__@[i].name@ == "rtcp"@ { assert(q == p.push(dr__@[i])); assert(v[q.len() - 1] == q[q.len() - 1]); } }
@afterloop 2
    proof { assert(dr__@.take(dr__@.len() as int) =~= dr__@); }
//@end
//@fn SdpSession::extract_capability_set_from_attributes
    ensures r.is_ok() == cap_fits(old(attributes)@), r.is_ok() ==> cap_of(old(attributes)@, r->Ok_0) && final(attributes)@ == keepc(old(attributes)@),
@loop 1
    invariant a__ <= dr__@.len(), dr__@ == old(attributes)@, remaining_attrs@ == keepc(dr__@.take(a__ as int)), sqn_of(vals(dr__@.take(a__ as int), "sqn"@), sqn), ds_of(vals(dr__@.take(a__ as int), "cdsc"@), descriptions@), ps_of(pvals(dr__@.take(a__ as int)), parameters@),
        forall|j: int| 0 <= j < a__ ==> c_good(#[trigger] dr__@[j]), descriptions@.len() <= 50, parameters@.len() <= 100,
    decreases dr__@.len() - a__,
@loopbody 1
    proof { cnames(); cap_next(dr__@, a__ as int); assert(c_good(dr__@[a__ as int]) || !all_cg(dr__@)); let a = dr__@[a__ as int].name@; assert(a == "sqn"@ || a == "cdsc"@ || a == "cpar"@ || a == "cparmin"@ || a == "cparmax"@ || !capkey(a)); }
@afterloop 1
    proof { assert(dr__@.take(dr__@.len() as int) =~= dr__@); }
//@end
//@fn SdpSession::extract_capabilities
    requires forall|i: int| 0 <= i < old(self).media@.len() ==> (#[trigger] old(self).media@[i]).capability_set.is_none(),
    ensures r.is_ok() == cap_all(*old(self)), r.is_ok() ==> cap_rel(*old(self), *final(self)),
@loop 1
    invariant m__ <= self.media@.len(), s_rest(*old(self), *self), self.groups == old(self).groups, cap_of(old(self).attributes@, self.capability_set), self.attributes@ == keepc(old(self).attributes@), cap_fits(old(self).attributes@),
        self.media@.len() == old(self).media@.len(), forall|i: int| 0 <= i < m__ ==> md_cap(old(self).media@[i], #[trigger] self.media@[i]), forall|i: int| m__ <= i < self.media@.len() ==> old(self).media@[i] == #[trigger] self.media@[i],
        forall|i: int| 0 <= i < m__ ==> cap_fits((#[trigger] old(self).media@[i]).attributes@),
    decreases self.media@.len() - m__,
@loopbody 1
    let ghost d0 = self.media@[m__ as int];
    proof { assert(d0 == old(self).media@[m__ as int]); }
//@end
//@fn SdpSession::validate
@rewrite for media in & self . media { $*b } ==> let mut m__: usize = 0; while m__ < self.media.len() { let media = &self.media[m__]; m__ += 1; $b }
    ensures r.is_ok() == s_valid(*self),
@loop 1
    invariant m__ <= self.media@.len(), self.timing@.len() > 0, self.connection.is_none(), forall|i: int| 0 <= i < m__ ==> (#[trigger] self.media@[i]).connection.is_some(),
    decreases self.media@.len() - m__,
//@end
//@fn SdpSession::parse
@prewrite input . lines ( ) . map ( | line | line . trim_end_matches ( '\r' ) ) . filter ( | line | ! line . is_empty ( ) ) . collect ( ) ==> x_lines(input)
@prewrite parse_session_level ( & lines , ==> parse_session_level(lines.as_slice(),
@prewrite MediaDescription :: parse ( & lines , ==> MediaDescription::parse(lines.as_slice(),
    ensures match r { Ok(d) => parsed(lines_of(input@), d), Err(_) => refused(lines_of(input@)) },
@entry
    let ghost ls = lines_of(input@);
    proof { reveal(raw_reads); }
@loop 1
    invariant ls == views(lines@), ls == lines_of(input@), s_fits(ls), s_reads(ls, session), session.groups@.len() == 0, session.capability_set.is_none(), 3 <= idx <= ls.len(), session.media@.len() <= 50,
        ({ let q = sstarts(ls, mend(ls, 3)); let n = session.media@.len() as int; &&& n <= q.len() &&& q.skip(n) == sstarts(ls, idx as int) &&& forall|j: int| 0 <= j < n ==> md_fits(ls, #[trigger] q[j]) && md_reads(ls, q[j], session.media@[j]) }),
    decreases ls.len() - idx,
@loopbody 1
    proof { mend_in(ls, idx + 1); s_frame(ls.subrange(3, mend(ls, 3))); let q = sstarts(ls, mend(ls, 3)); let n = session.media@.len() as int; let u = sstarts(ls, idx as int); assert(q.skip(n) == u); assert(u.len() > 0); assert(u[0] == idx); assert(q.skip(n).len() == q.len() - n); assert(n < q.len()); assert(q.skip(n)[0] == q[n + 0]); assert(q[n] == idx); let t = sstarts(ls, mend(ls, idx + 1)); assert(q.skip(n + 1) =~= q.skip(n).skip(1)); assert((seq![idx as int] + t).skip(1) =~= t); assert(all_fit(ls) ==> md_fits(ls, q[n])); }
@afterloop 1
    proof { assert(sstarts(ls, idx as int).len() == 0); assert(raw_reads(ls, session)); assert(all_fit(ls)); assert forall|i: int| 0 <= i < session.media@.len() implies md_reads(ls, sstarts(ls, mend(ls, 3))[i], #[trigger] session.media@[i]) by {} }
//@end
}
// ---- what is printed ------------------------------------------------------------------------------------------------
pub mod pt {
    use super::*;
    // what a text becomes when lines are written after it
    pub open spec fn onto(p: Seq<char>, l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { p } else { onto(p, l.drop_last()) + l.last() + "\n"@ } }
    pub open spec fn pre_onto(p: Seq<char>, k: Seq<char>, l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { p } else { pre_onto(p, k, l.drop_last()) + k + l.last() + "\n"@ } }
    pub open spec fn words_onto(p: Seq<char>, l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { p } else { words_onto(p, l.drop_last()) + " "@ + l.last() } }
    pub open spec fn cp_onto(p: Seq<char>, v: Seq<CapabilityParameter>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { cp_onto(p, v.drop_last()) + "a="@ + ptext(v.last().param_type) + ":"@ + v.last().value@ + "\n"@ } }
    pub open spec fn z_onto(p: Seq<char>, v: Seq<TimeZone>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { let q = z_onto(p, v.drop_last()); (if v.len() > 1 { q + " "@ } else { q }) + dtext(v.last().adjustment_time as nat) + " "@ + v.last().offset@ } }
    pub open spec fn md_onto(p: Seq<char>, v: Seq<MediaDescription>) -> Seq<char> decreases v.len() { if v.len() == 0 { p } else { md_onto(p, v.drop_last()) + md_text(v.last()) } }
    pub open spec fn opt_onto(p: Seq<char>, k: Seq<char>, o: Option<String>) -> Seq<char> { match o { Some(t) => p + k + t@ + "\n"@, None => p } }
    pub open spec fn conn_onto(p: Seq<char>, o: Option<Connection>) -> Seq<char> { match o { Some(t) => p + c_text(t) + "\n"@, None => p } }
    pub open spec fn key_onto(p: Seq<char>, o: Option<EncryptionKey>) -> Seq<char> { match o { Some(t) => p + k_text(t) + "\n"@, None => p } }
    pub open spec fn rt_onto(p: Seq<char>, o: Option<RtcpAttribute>) -> Seq<char> { match o { Some(t) => p + "a=rtcp:"@ + rt_text(t) + "\n"@, None => p } }
    pub open spec fn bwl(v: Seq<Bandwidth>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| b_text(v[i])) }
    pub open spec fn tml(v: Seq<Timing>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| t_text(v[i])) }
    pub open spec fn rpl(v: Seq<RepeatTime>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| r_text(v[i])) }
    pub open spec fn atl(v: Seq<Attribute>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| a_text(v[i])) }
    pub open spec fn cdl(v: Seq<CapabilityDescription>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| d_text(v[i])) }
    pub open spec fn grl(v: Seq<MediaGroup>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| g_text(v[i])) }
    pub open spec fn cap_onto(p: Seq<char>, o: Option<SdpCapabilitySet>) -> Seq<char> { match o { Some(c) => cp_onto(pre_onto(sqn_onto(p, c), "a=cdsc:"@, cdl(c.descriptions@)), c.parameters@), None => p } }
    pub open spec fn sqn_onto(p: Seq<char>, c: SdpCapabilitySet) -> Seq<char> { p + "a=sqn:"@ + dtext(c.sequence_number as nat) + "\n"@ }
    pub open spec fn m_onto(p: Seq<char>, d: MediaDescription) -> Seq<char> { let q = p + "m="@ + d.media@ + " "@ + dtext(d.port as nat); (match d.port_count { Some(n) => q + "/"@ + dtext(n as nat), None => q }) + " "@ + d.proto@ }
    pub open spec fn mo1(p: Seq<char>, d: MediaDescription) -> Seq<char> { words_onto(m_onto(p, d), texts(d.fmt@)) + "\n"@ }
    pub open spec fn mo3(p: Seq<char>, d: MediaDescription) -> Seq<char> { conn_onto(opt_onto(mo1(p, d), "i="@, d.title), d.connection) }
    pub open spec fn mo4(p: Seq<char>, d: MediaDescription) -> Seq<char> { onto(mo3(p, d), bwl(d.bandwidth@)) }
    pub open spec fn mo7(p: Seq<char>, d: MediaDescription) -> Seq<char> { rt_onto(opt_onto(key_onto(mo4(p, d), d.encryption_key), "a=mid:"@, d.mid), d.rtcp) }
    pub open spec fn mo8(p: Seq<char>, d: MediaDescription) -> Seq<char> { cap_onto(mo7(p, d), d.capability_set) }
    pub open spec fn mo9(p: Seq<char>, d: MediaDescription) -> Seq<char> { onto(mo8(p, d), atl(d.attributes@)) }
    /// a media section as text
    pub open spec fn md_text(d: MediaDescription) -> Seq<char> { mo9(Seq::empty(), d) }
    pub open spec fn so0(p: Seq<char>, d: SdpSession) -> Seq<char> { p + "v="@ + dtext(d.version as nat) + "\n"@ + o_text(d.origin) + "\n"@ + "s="@ + d.session_name@ + "\n"@ }
    pub open spec fn so2(p: Seq<char>, d: SdpSession) -> Seq<char> { opt_onto(opt_onto(so0(p, d), "i="@, d.session_info), "u="@, d.uri) }
    pub open spec fn so3(p: Seq<char>, d: SdpSession) -> Seq<char> { pre_onto(so2(p, d), "e="@, texts(d.emails@)) }
    pub open spec fn so5(p: Seq<char>, d: SdpSession) -> Seq<char> { conn_onto(pre_onto(so3(p, d), "p="@, texts(d.phones@)), d.connection) }
    pub open spec fn so6(p: Seq<char>, d: SdpSession) -> Seq<char> { onto(so5(p, d), bwl(d.bandwidth@)) }
    pub open spec fn so7(p: Seq<char>, d: SdpSession) -> Seq<char> { onto(so6(p, d), tml(d.timing@)) }
    pub open spec fn so8(p: Seq<char>, d: SdpSession) -> Seq<char> { onto(so7(p, d), rpl(d.repeat_times@)) }
    pub open spec fn so9(p: Seq<char>, d: SdpSession) -> Seq<char> { if d.time_zones@.len() == 0 { so8(p, d) } else { z_onto(so8(p, d) + "z="@, d.time_zones@) + "\n"@ } }
    pub open spec fn so10(p: Seq<char>, d: SdpSession) -> Seq<char> { key_onto(so9(p, d), d.encryption_key) }
    pub open spec fn so11(p: Seq<char>, d: SdpSession) -> Seq<char> { onto(so10(p, d), atl(d.attributes@)) }
    pub open spec fn so12(p: Seq<char>, d: SdpSession) -> Seq<char> { cap_onto(so11(p, d), d.capability_set) }
    pub open spec fn so13(p: Seq<char>, d: SdpSession) -> Seq<char> { pre_onto(so12(p, d), "a=group:"@, grl(d.groups@)) }
    pub open spec fn so14(p: Seq<char>, d: SdpSession) -> Seq<char> { md_onto(so13(p, d), d.media@) }
    /// a description as text
    pub open spec fn s_text(d: SdpSession) -> Seq<char> { so14(Seq::empty(), d) }
    pub proof fn tk<T>(l: Seq<T>, i: int) requires 0 <= i < l.len() ensures l.take(i + 1).drop_last() == l.take(i), l.take(i + 1).last() == l[i], l.take(i + 1).len() > 0 { assert(l.take(i + 1).drop_last() =~= l.take(i)); }
    pub proof fn full<T>(l: Seq<T>) ensures l.take(l.len() as int) == l, l.take(0).len() == 0 { assert(l.take(l.len() as int) =~= l); }
}
use pt::*;
impl MediaDescription {
//@fn MediaDescription::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
@rewrite for $x in & self . $f { $*b } ==> let mut o__: usize = 0; while o__ < self.$f.len() { let $x = &self.$f[o__]; o__ += 1; $b }
@rewrite for $x in & cap_set . $f { $*b } ==> let mut o__: usize = 0; while o__ < cap_set.$f.len() { let $x = &cap_set.$f[o__]; o__ += 1; $b }
    ensures r.is_ok(), final(f)@ == mo9(old(f)@, *self),
@entry
    let ghost p = f@;
    proof { full(texts(self.fmt@)); }
@loop 1
    invariant o__ <= self.fmt@.len(), p == old(f)@, f@ == words_onto(m_onto(p, *self), texts(self.fmt@).take(o__ as int)),
    decreases self.fmt@.len() - o__,
@loopbody 1
    proof { tk(texts(self.fmt@), o__ as int); }
@afterloop 1
    proof { full(texts(self.fmt@)); full(bwl(self.bandwidth@)); }
@loop 2
    invariant o__ <= self.bandwidth@.len(), p == old(f)@, f@ == onto(mo3(p, *self), bwl(self.bandwidth@).take(o__ as int)),
    decreases self.bandwidth@.len() - o__,
@loopbody 2
    proof { tk(bwl(self.bandwidth@), o__ as int); }
@afterloop 2
    proof { full(bwl(self.bandwidth@)); if self.capability_set.is_some() { full(cdl((self.capability_set->0).descriptions@)); } full(atl(self.attributes@)); }
@loop 3
    invariant o__ <= cap_set.descriptions@.len(), Some(*cap_set) == self.capability_set, p == old(f)@, f@ == pre_onto(sqn_onto(mo7(p, *self), *cap_set), "a=cdsc:"@, cdl(cap_set.descriptions@).take(o__ as int)),
    decreases cap_set.descriptions@.len() - o__,
@loopbody 3
    proof { tk(cdl(cap_set.descriptions@), o__ as int); }
@afterloop 3
    proof { full(cdl(cap_set.descriptions@)); full(cap_set.parameters@); }
@loop 4
    invariant o__ <= cap_set.parameters@.len(), Some(*cap_set) == self.capability_set, p == old(f)@, f@ == cp_onto(pre_onto(sqn_onto(mo7(p, *self), *cap_set), "a=cdsc:"@, cdl(cap_set.descriptions@)), cap_set.parameters@.take(o__ as int)),
    decreases cap_set.parameters@.len() - o__,
@loopbody 4
    proof { tk(cap_set.parameters@, o__ as int); }
@afterloop 4
    proof { full(cap_set.parameters@); }
@loop 5
    invariant o__ <= self.attributes@.len(), p == old(f)@, f@ == onto(mo8(p, *self), atl(self.attributes@).take(o__ as int)),
    decreases self.attributes@.len() - o__,
@loopbody 5
    proof { tk(atl(self.attributes@), o__ as int); }
@afterloop 5
    proof { full(atl(self.attributes@)); }
//@end
}
impl XFmt for MediaDescription { open spec fn fv(&self) -> Seq<char> { md_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
impl SdpSession {
//@fn SdpSession::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
@rewrite for $x in & self . $f { $*b } ==> let mut o__: usize = 0; while o__ < self.$f.len() { let $x = &self.$f[o__]; o__ += 1; $b }
@rewrite for $x in & cap_set . $f { $*b } ==> let mut o__: usize = 0; while o__ < cap_set.$f.len() { let $x = &cap_set.$f[o__]; o__ += 1; $b }
@rewrite for ( i , tz ) in self . time_zones . iter ( ) . enumerate ( ) { $*b } ==> let mut i: usize = 0; while i < self.time_zones.len() { let tz = &self.time_zones[i]; $b i += 1; }
    ensures r.is_ok(), final(f)@ == so14(old(f)@, *self),
@entry
    let ghost p = f@;
    proof { full(texts(self.emails@)); }
@loop 1
    invariant o__ <= self.emails@.len(), p == old(f)@, f@ == pre_onto(so2(p, *self), "e="@, texts(self.emails@).take(o__ as int)),
    decreases self.emails@.len() - o__,
@loopbody 1
    proof { tk(texts(self.emails@), o__ as int); }
@afterloop 1
    proof { full(texts(self.emails@)); full(texts(self.phones@)); }
@loop 2
    invariant o__ <= self.phones@.len(), p == old(f)@, f@ == pre_onto(so3(p, *self), "p="@, texts(self.phones@).take(o__ as int)),
    decreases self.phones@.len() - o__,
@loopbody 2
    proof { tk(texts(self.phones@), o__ as int); }
@afterloop 2
    proof { full(texts(self.phones@)); full(bwl(self.bandwidth@)); }
@loop 3
    invariant o__ <= self.bandwidth@.len(), p == old(f)@, f@ == onto(so5(p, *self), bwl(self.bandwidth@).take(o__ as int)),
    decreases self.bandwidth@.len() - o__,
@loopbody 3
    proof { tk(bwl(self.bandwidth@), o__ as int); }
@afterloop 3
    proof { full(bwl(self.bandwidth@)); full(tml(self.timing@)); }
@loop 4
    invariant o__ <= self.timing@.len(), p == old(f)@, f@ == onto(so6(p, *self), tml(self.timing@).take(o__ as int)),
    decreases self.timing@.len() - o__,
@loopbody 4
    proof { tk(tml(self.timing@), o__ as int); }
@afterloop 4
    proof { full(tml(self.timing@)); full(rpl(self.repeat_times@)); }
@loop 5
    invariant o__ <= self.repeat_times@.len(), p == old(f)@, f@ == onto(so7(p, *self), rpl(self.repeat_times@).take(o__ as int)),
    decreases self.repeat_times@.len() - o__,
@loopbody 5
    proof { tk(rpl(self.repeat_times@), o__ as int); }
@afterloop 5
    proof { full(rpl(self.repeat_times@)); full(self.time_zones@); full(atl(self.attributes@)); if self.capability_set.is_some() { full(cdl((self.capability_set->0).descriptions@)); } full(grl(self.groups@)); full(self.media@); }
@loop 6
    invariant i <= self.time_zones@.len(), p == old(f)@, f@ == z_onto(so8(p, *self) + "z="@, self.time_zones@.take(i as int)),
    decreases self.time_zones@.len() - i,
@loopbody 6
    proof { tk(self.time_zones@, i as int); }
@afterloop 6
    proof { full(self.time_zones@);  }
@loop 7
    invariant o__ <= self.attributes@.len(), p == old(f)@, f@ == onto(so10(p, *self), atl(self.attributes@).take(o__ as int)),
    decreases self.attributes@.len() - o__,
@loopbody 7
    proof { tk(atl(self.attributes@), o__ as int); }
@afterloop 7
    proof { full(atl(self.attributes@)); if self.capability_set.is_some() { full(cdl((self.capability_set->0).descriptions@)); } full(grl(self.groups@)); full(self.media@); }
@loop 8
    invariant o__ <= cap_set.descriptions@.len(), p == old(f)@, Some(*cap_set) == self.capability_set, f@ == pre_onto(sqn_onto(so11(p, *self), *cap_set), "a=cdsc:"@, cdl(cap_set.descriptions@).take(o__ as int)),
    decreases cap_set.descriptions@.len() - o__,
@loopbody 8
    proof { tk(cdl(cap_set.descriptions@), o__ as int); }
@afterloop 8
    proof { full(cdl(cap_set.descriptions@)); full(cap_set.parameters@); }
@loop 9
    invariant o__ <= cap_set.parameters@.len(), p == old(f)@, Some(*cap_set) == self.capability_set, f@ == cp_onto(pre_onto(sqn_onto(so11(p, *self), *cap_set), "a=cdsc:"@, cdl(cap_set.descriptions@)), cap_set.parameters@.take(o__ as int)),
    decreases cap_set.parameters@.len() - o__,
@loopbody 9
    proof { tk(cap_set.parameters@, o__ as int); }
@afterloop 9
    proof { full(cap_set.parameters@); full(grl(self.groups@)); full(self.media@); }
@loop 10
    invariant o__ <= self.groups@.len(), p == old(f)@, f@ == pre_onto(so12(p, *self), "a=group:"@, grl(self.groups@).take(o__ as int)),
    decreases self.groups@.len() - o__,
@loopbody 10
    proof { tk(grl(self.groups@), o__ as int); }
@afterloop 10
    proof { full(grl(self.groups@)); full(self.media@); }
@loop 11
    invariant o__ <= self.media@.len(), p == old(f)@, f@ == md_onto(so13(p, *self), self.media@.take(o__ as int)),
    decreases self.media@.len() - o__,
@loopbody 11
    proof { tk(self.media@, o__ as int); }
@afterloop 11
    proof { full(self.media@);  }
//@end
}
// ---- what is printed for a whole description, as lines ---------------------------------------------------------------
pub mod rb {
use super::*;
broadcast use {prel::str_ext, omx::string_ext};
/// no line break inside
pub open spec fn nel(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' }
#[verifier::opaque] pub open spec fn clean(l: Seq<char>) -> bool { l.len() > 0 && nel(l) }
#[verifier::opaque] pub open spec fn cleans(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> clean(#[trigger] ls[i]) }
pub open spec fn flat(ls: Seq<Seq<char>>) -> Seq<char> { onto(Seq::empty(), ls) }
pub open spec fn prel(k: Seq<char>, l: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| k + l[i]) }
pub open spec fn optl(k: Seq<char>, o: Option<String>) -> Seq<Seq<char>> { match o { Some(t) => seq![k + t@], None => Seq::empty() } }
pub open spec fn connl(o: Option<Connection>) -> Seq<Seq<char>> { match o { Some(t) => seq![c_text(t)], None => Seq::empty() } }
pub open spec fn keyl(o: Option<EncryptionKey>) -> Seq<Seq<char>> { match o { Some(t) => seq![k_text(t)], None => Seq::empty() } }
pub open spec fn rtl(o: Option<RtcpAttribute>) -> Seq<Seq<char>> { match o { Some(t) => seq!["a=rtcp:"@ + rt_text(t)], None => Seq::empty() } }
pub open spec fn cp_text(p: CapabilityParameter) -> Seq<char> { "a="@ + ptext(p.param_type) + ":"@ + p.value@ }
pub open spec fn cpl(v: Seq<CapabilityParameter>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| cp_text(v[i])) }
pub open spec fn sqnl(c: SdpCapabilitySet) -> Seq<Seq<char>> { seq!["a=sqn:"@ + dtext(c.sequence_number as nat)] }
pub open spec fn capl(o: Option<SdpCapabilitySet>) -> Seq<Seq<char>> { match o { Some(c) => sqnl(c) + prel("a=cdsc:"@, cdl(c.descriptions@)) + cpl(c.parameters@), None => Seq::empty() } }
pub open spec fn z_text(v: Seq<TimeZone>) -> Seq<char> { "z="@ + z_onto(Seq::empty(), v) }
pub open spec fn zl(v: Seq<TimeZone>) -> Seq<Seq<char>> { if v.len() == 0 { Seq::empty() } else { seq![z_text(v)] } }
pub open spec fn mline(d: MediaDescription) -> Seq<char> { m_text((d.media, d.port, d.port_count, d.proto, d.fmt)) }
pub open spec fn mal(d: MediaDescription) -> Seq<Seq<char>> { optl("a=mid:"@, d.mid) + rtl(d.rtcp) + capl(d.capability_set) + atl(d.attributes@) }
/// a media section's lines after its m= line
pub open spec fn mb(d: MediaDescription) -> Seq<Seq<char>> { optl("i="@, d.title) + connl(d.connection) + bwl(d.bandwidth@) + keyl(d.encryption_key) + mal(d) }
pub open spec fn ml(d: MediaDescription) -> Seq<Seq<char>> { seq![mline(d)] + mb(d) }
pub open spec fn mls(v: Seq<MediaDescription>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { mls(v.drop_last()) + ml(v.last()) } }
pub open spec fn sal(d: SdpSession) -> Seq<Seq<char>> { atl(d.attributes@) + capl(d.capability_set) + prel("a=group:"@, grl(d.groups@)) }
pub open spec fn sb1(d: SdpSession) -> Seq<Seq<char>> { optl("i="@, d.session_info) + optl("u="@, d.uri) + prel("e="@, texts(d.emails@)) + prel("p="@, texts(d.phones@)) + connl(d.connection) + bwl(d.bandwidth@) }
/// the session's lines after s=
pub open spec fn sb(d: SdpSession) -> Seq<Seq<char>> { sb1(d) + tml(d.timing@) + rpl(d.repeat_times@) + zl(d.time_zones@) + keyl(d.encryption_key) + sal(d) }
pub open spec fn sh(d: SdpSession) -> Seq<Seq<char>> { seq![v_text(d.version), o_text(d.origin), "s="@ + d.session_name@] }
pub open spec fn sl(d: SdpSession) -> Seq<Seq<char>> { sh(d) + sb(d) + mls(d.media@) }
// text to lines
pub proof fn onto_cat(p: Seq<char>, a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures onto(onto(p, a), b) == onto(p, a + b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { onto_cat(p, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub proof fn onto_one(p: Seq<char>, l: Seq<char>) ensures onto(p, seq![l]) == p + l + "\n"@ { let q = seq![l]; assert(q.drop_last() =~= Seq::empty()); assert(onto(p, q.drop_last()) == p); }
pub proof fn onto_flat(p: Seq<char>, l: Seq<Seq<char>>) ensures onto(p, l) == p + flat(l) decreases l.len()
{ if l.len() == 0 { assert(p + flat(l) =~= p); } else { onto_flat(p, l.drop_last()); assert(onto(p, l) =~= p + flat(l)); } }
pub proof fn pre_is(p: Seq<char>, k: Seq<char>, l: Seq<Seq<char>>) ensures pre_onto(p, k, l) == onto(p, prel(k, l)) decreases l.len()
{ if l.len() > 0 { pre_is(p, k, l.drop_last()); assert(prel(k, l).drop_last() =~= prel(k, l.drop_last())); let q = pre_onto(p, k, l.drop_last()); assert(q + k + l.last() + "\n"@ =~= q + (k + l.last()) + "\n"@); } }
pub proof fn cp_is(p: Seq<char>, v: Seq<CapabilityParameter>) ensures cp_onto(p, v) == onto(p, cpl(v)) decreases v.len()
{ if v.len() > 0 { cp_is(p, v.drop_last()); assert(cpl(v).drop_last() =~= cpl(v.drop_last())); let q = cp_onto(p, v.drop_last()); let t = v.last(); assert(q + "a="@ + ptext(t.param_type) + ":"@ + t.value@ + "\n"@ =~= q + cp_text(t) + "\n"@); } }
pub proof fn z_is(p: Seq<char>, v: Seq<TimeZone>) ensures z_onto(p, v) == p + z_onto(Seq::empty(), v) decreases v.len()
{ if v.len() == 0 { assert(p + z_onto(Seq::empty(), v) =~= p); } else { z_is(p, v.drop_last()); assert(z_onto(p, v) =~= p + z_onto(Seq::empty(), v)); } }
pub proof fn words_is(p: Seq<char>, l: Seq<Seq<char>>) ensures words_onto(p, l) == p + words(l) decreases l.len()
{ if l.len() == 0 { assert(p + words(l) =~= p); } else { words_is(p, l.drop_last()); assert(words_onto(p, l) =~= p + words(l)); } }
pub proof fn opt_is(p: Seq<char>, k: Seq<char>, o: Option<String>) ensures opt_onto(p, k, o) == onto(p, optl(k, o))
{ match o { Some(t) => { onto_one(p, k + t@); assert(p + k + t@ + "\n"@ =~= p + (k + t@) + "\n"@); } None => {} } }
pub proof fn conn_is(p: Seq<char>, o: Option<Connection>) ensures conn_onto(p, o) == onto(p, connl(o)) { match o { Some(t) => { onto_one(p, c_text(t)); } None => {} } }
pub proof fn key_is(p: Seq<char>, o: Option<EncryptionKey>) ensures key_onto(p, o) == onto(p, keyl(o)) { match o { Some(t) => { onto_one(p, k_text(t)); } None => {} } }
pub proof fn rt_is2(p: Seq<char>, o: Option<RtcpAttribute>) ensures rt_onto(p, o) == onto(p, rtl(o)) { match o { Some(t) => { let x = "a=rtcp:"@ + rt_text(t); onto_one(p, x); assert(p + "a=rtcp:"@ + rt_text(t) + "\n"@ =~= p + x + "\n"@); } None => {} } }
pub proof fn cap_is(p: Seq<char>, o: Option<SdpCapabilitySet>) ensures cap_onto(p, o) == onto(p, capl(o))
{ match o { Some(c) => {
    let x = "a=sqn:"@ + dtext(c.sequence_number as nat); onto_one(p, x); assert(p + "a=sqn:"@ + dtext(c.sequence_number as nat) + "\n"@ =~= p + x + "\n"@); let q = sqn_onto(p, c); assert(q == onto(p, sqnl(c)));
    pre_is(q, "a=cdsc:"@, cdl(c.descriptions@)); onto_cat(p, sqnl(c), prel("a=cdsc:"@, cdl(c.descriptions@)));
    let y = sqnl(c) + prel("a=cdsc:"@, cdl(c.descriptions@)); cp_is(onto(p, y), c.parameters@); onto_cat(p, y, cpl(c.parameters@)); } None => {} } }
pub open spec fn mb1(d: MediaDescription) -> Seq<Seq<char>> { optl("i="@, d.title) + connl(d.connection) + bwl(d.bandwidth@) + keyl(d.encryption_key) }
pub proof fn md_line(p: Seq<char>, d: MediaDescription) ensures mo1(p, d) == onto(p, seq![mline(d)])
{ words_is(m_onto(p, d), texts(d.fmt@)); onto_one(p, mline(d)); assert(mo1(p, d) =~= p + mline(d) + "\n"@); }
pub proof fn md_first(p: Seq<char>, d: MediaDescription) ensures key_onto(mo4(p, d), d.encryption_key) == onto(mo1(p, d), mb1(d))
{
    let q = mo1(p, d);
    let l1 = optl("i="@, d.title); opt_is(q, "i="@, d.title);
    let l2 = l1 + connl(d.connection); conn_is(onto(q, l1), d.connection); onto_cat(q, l1, connl(d.connection)); assert(mo3(p, d) == onto(q, l2));
    let l3 = l2 + bwl(d.bandwidth@); onto_cat(q, l2, bwl(d.bandwidth@)); assert(mo4(p, d) == onto(q, l3));
    key_is(onto(q, l3), d.encryption_key); onto_cat(q, l3, keyl(d.encryption_key));
}
pub proof fn md_second(p: Seq<char>, d: MediaDescription) ensures mo9(p, d) == onto(key_onto(mo4(p, d), d.encryption_key), mal(d))
{
    let q = key_onto(mo4(p, d), d.encryption_key);
    let l1 = optl("a=mid:"@, d.mid); opt_is(q, "a=mid:"@, d.mid);
    let l2 = l1 + rtl(d.rtcp); rt_is2(onto(q, l1), d.rtcp); onto_cat(q, l1, rtl(d.rtcp)); assert(mo7(p, d) == onto(q, l2));
    let l3 = l2 + capl(d.capability_set); cap_is(onto(q, l2), d.capability_set); onto_cat(q, l2, capl(d.capability_set)); assert(mo8(p, d) == onto(q, l3));
    onto_cat(q, l3, atl(d.attributes@));
}
pub proof fn md_is(p: Seq<char>, d: MediaDescription) ensures mo9(p, d) == onto(p, ml(d))
{
    let (h, a, b) = (seq![mline(d)], mb1(d), mal(d));
    md_line(p, d); md_first(p, d); md_second(p, d); onto_cat(p, h, a); onto_cat(p, h + a, b);
    assert(h + a + b =~= ml(d)) by { assert(mb(d) =~= a + b); }
}
pub proof fn mds_are(p: Seq<char>, v: Seq<MediaDescription>) ensures md_onto(p, v) == onto(p, mls(v)) decreases v.len()
{ if v.len() > 0 { mds_are(p, v.drop_last()); md_is(Seq::empty(), v.last()); onto_flat(onto(p, mls(v.drop_last())), ml(v.last())); onto_cat(p, mls(v.drop_last()), ml(v.last())); } }
pub proof fn s_head(p: Seq<char>, d: SdpSession) ensures so0(p, d) == onto(p, sh(d))
{
    let a = seq![v_text(d.version)]; let b = seq![o_text(d.origin)]; let c = seq!["s="@ + d.session_name@]; onto_one(p, v_text(d.version)); onto_one(onto(p, a), o_text(d.origin)); onto_one(onto(onto(p, a), b), "s="@ + d.session_name@); onto_cat(p, a, b); onto_cat(p, a + b, c); assert(a + b + c =~= sh(d));
    assert(so0(p, d) =~= p + v_text(d.version) + "\n"@ + o_text(d.origin) + "\n"@ + ("s="@ + d.session_name@) + "\n"@);
}
pub proof fn s_first(p: Seq<char>, d: SdpSession) ensures so6(p, d) == onto(so0(p, d), sb1(d))
{
    let q = so0(p, d);
    let l1 = optl("i="@, d.session_info); opt_is(q, "i="@, d.session_info);
    let l2 = l1 + optl("u="@, d.uri); opt_is(onto(q, l1), "u="@, d.uri); onto_cat(q, l1, optl("u="@, d.uri)); assert(so2(p, d) == onto(q, l2));
    let l3 = l2 + prel("e="@, texts(d.emails@)); pre_is(onto(q, l2), "e="@, texts(d.emails@)); onto_cat(q, l2, prel("e="@, texts(d.emails@))); assert(so3(p, d) == onto(q, l3));
    let l4 = l3 + prel("p="@, texts(d.phones@)); pre_is(onto(q, l3), "p="@, texts(d.phones@)); onto_cat(q, l3, prel("p="@, texts(d.phones@)));
    let l5 = l4 + connl(d.connection); conn_is(onto(q, l4), d.connection); onto_cat(q, l4, connl(d.connection)); assert(so5(p, d) == onto(q, l5));
    onto_cat(q, l5, bwl(d.bandwidth@));
}
pub open spec fn sb2(d: SdpSession) -> Seq<Seq<char>> { tml(d.timing@) + rpl(d.repeat_times@) + zl(d.time_zones@) + keyl(d.encryption_key) }
pub proof fn s_zone(q: Seq<char>, v: Seq<TimeZone>) ensures (if v.len() == 0 { q } else { z_onto(q + "z="@, v) + "\n"@ }) == onto(q, zl(v))
{ if v.len() > 0 { z_is(q + "z="@, v); onto_one(q, z_text(v)); assert(z_onto(q + "z="@, v) + "\n"@ =~= q + z_text(v) + "\n"@); } }
pub proof fn s_second(p: Seq<char>, d: SdpSession) ensures so10(p, d) == onto(so6(p, d), sb2(d))
{
    let q = so6(p, d);
    let l1 = tml(d.timing@); assert(so7(p, d) == onto(q, l1));
    let l2 = l1 + rpl(d.repeat_times@); onto_cat(q, l1, rpl(d.repeat_times@)); assert(so8(p, d) == onto(q, l2));
    let l3 = l2 + zl(d.time_zones@); s_zone(onto(q, l2), d.time_zones@); onto_cat(q, l2, zl(d.time_zones@)); assert(so9(p, d) == onto(q, l3));
    key_is(onto(q, l3), d.encryption_key); onto_cat(q, l3, keyl(d.encryption_key));
}
pub proof fn s_third(p: Seq<char>, d: SdpSession) ensures so13(p, d) == onto(so10(p, d), sal(d))
{
    let q = so10(p, d);
    let l1 = atl(d.attributes@); assert(so11(p, d) == onto(q, l1));
    let l2 = l1 + capl(d.capability_set); cap_is(onto(q, l1), d.capability_set); onto_cat(q, l1, capl(d.capability_set)); assert(so12(p, d) == onto(q, l2));
    pre_is(onto(q, l2), "a=group:"@, grl(d.groups@)); onto_cat(q, l2, prel("a=group:"@, grl(d.groups@)));
}
pub proof fn s_is(d: SdpSession) ensures s_text(d) == flat(sl(d))
{
    let p = Seq::<char>::empty(); let (h, a, b, c, m) = (sh(d), sb1(d), sb2(d), sal(d), mls(d.media@));
    s_head(p, d); s_first(p, d); s_second(p, d); s_third(p, d); mds_are(so13(p, d), d.media@);
    onto_cat(p, h, a); onto_cat(p, h + a, b); onto_cat(p, h + a + b, c); onto_cat(p, h + a + b + c, m);
    assert(h + a + b + c + m =~= sl(d)) by { assert(sb(d) =~= a + b + c); }
}
// lines of a text
pub proof fn fields_tail(p: Seq<char>, c: char, l: Seq<char>) requires lacks(l, c) ensures fields(p + l, c) == fields(p, c).drop_last().push(fields(p, c).last() + l) decreases l.len()
{
    fields_some(p, c); let f = fields(p, c);
    if l.len() == 0 { assert(p + l =~= p); assert(f.last() + l =~= f.last()); assert(f.drop_last().push(f.last()) =~= f); }
    else {
        let k = l.drop_last(); assert(lacks(k, c)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != c by { assert(l[i] != c); } }
        fields_tail(p, c, k); assert((p + l).drop_last() =~= p + k); assert((p + l).last() == l.last()); assert(l[l.len() - 1] != c);
        let g = fields(p + k, c); assert((f.last() + k).push(l.last()) =~= f.last() + l); assert(g.update(g.len() - 1, g.last().push(l.last())) =~= f.drop_last().push(f.last() + l));
    }
}
pub proof fn fields_flat(ls: Seq<Seq<char>>) requires cleans(ls) ensures fields(flat(ls), '\n') == ls.push(Seq::empty()) decreases ls.len()
{
    reveal(cleans); reveal(clean);
    reveal_strlit("\n"); assert("\n"@ =~= ch('\n'));
    if ls.len() == 0 { assert(fields(flat(ls), '\n') =~= ls.push(Seq::empty())); }
    else {
        let k = ls.drop_last(); let l = ls.last(); assert(clean(ls[ls.len() - 1]));
        assert(cleans(k)) by { assert forall|i: int| 0 <= i < k.len() implies clean(#[trigger] k[i]) by { assert(clean(ls[i])); } }
        fields_flat(k); let p = flat(k);
        assert(lacks(l, '\n')); fields_tail(p, '\n', l); assert(fields(p, '\n').drop_last() =~= k); assert(fields(p, '\n').last() + l =~= l);
        assert(fields(p + l, '\n') =~= ls);
        let e = Seq::<char>::empty(); fields_add(p + l, '\n', e); assert(p + l + ch('\n') + e =~= flat(ls));
    }
}
pub proof fn ne_all(q: Seq<Seq<char>>) requires cleans(q) ensures nonempty(q) == q decreases q.len()
{ reveal(cleans); reveal(clean); if q.len() > 0 { let k = q.drop_last(); assert(cleans(k)) by { assert forall|i: int| 0 <= i < k.len() implies clean(#[trigger] k[i]) by { assert(clean(q[i])); } } ne_all(k); assert(clean(q[q.len() - 1])); assert(k.push(q.last()) =~= q); } }
/// lines printed one after the other are the lines read
pub proof fn lines_back(ls: Seq<Seq<char>>) requires cleans(ls) ensures lines_of(flat(ls)) == ls
{
    fields_flat(ls); let f = ls.push(Seq::empty()); let t = trimmed(f);
    assert(t =~= f) by { reveal(cleans); reveal(clean); assert forall|i: int| 0 <= i < f.len() implies #[trigger] t[i] == f[i] by { if i < ls.len() { assert(clean(ls[i])); assert(ls[i][ls[i].len() - 1] != '\r'); } } }
    assert(f.last().len() == 0); assert(f.drop_last() =~= ls); ne_all(ls);
}
}
// ---- well-formed descriptions, and one line each ------------------------------------------------------------------------
pub mod rc {
use super::*; use rb::*;
broadcast use {prel::str_ext, omx::string_ext};
// ---- well-formed descriptions ----
pub open spec fn optok(o: Option<String>, m: int) -> bool { match o { Some(t) => okstr(t@, m), None => true } }
pub open spec fn connok(o: Option<Connection>) -> bool { match o { Some(t) => c_ok(t), None => true } }
pub open spec fn keyok(o: Option<EncryptionKey>) -> bool { match o { Some(t) => k_ok(t), None => true } }
pub open spec fn bwok(v: Seq<Bandwidth>) -> bool { v.len() <= 20 && forall|i: int| 0 <= i < v.len() ==> b_ok(#[trigger] v[i]) }
pub open spec fn rpok(v: Seq<RepeatTime>) -> bool { v.len() <= 10 && forall|i: int| 0 <= i < v.len() ==> r_ok(#[trigger] v[i]) }
pub open spec fn zok(v: Seq<TimeZone>) -> bool { v.len() <= 50 && forall|i: int| 0 <= i < v.len() ==> zone_ok(#[trigger] v[i]) }
pub open spec fn txok(v: Seq<String>, m: int) -> bool { v.len() <= 10 && forall|i: int| 0 <= i < v.len() ==> okstr((#[trigger] v[i])@, m) }
pub open spec fn atok(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> a_ok(#[trigger] v[i]) }
pub open spec fn dsok(v: Seq<CapabilityDescription>) -> bool { v.len() <= 50 && forall|i: int| 0 <= i < v.len() ==> dok(#[trigger] v[i]) }
pub open spec fn dok(d: CapabilityDescription) -> bool { d_ok(d) && okstr(d_text(d), 4096) }
pub open spec fn psok(v: Seq<CapabilityParameter>) -> bool { v.len() <= 100 && forall|i: int| 0 <= i < v.len() ==> okstr((#[trigger] v[i]).value@, 4096) }
pub open spec fn capok(o: Option<SdpCapabilitySet>) -> bool { match o { Some(c) => dsok(c.descriptions@) && psok(c.parameters@), None => true } }
pub open spec fn gsok(v: Seq<MediaGroup>) -> bool { v.len() <= 20 && forall|i: int| 0 <= i < v.len() ==> gok(#[trigger] v[i]) }
pub open spec fn gok(g: MediaGroup) -> bool { g_ok(g) && okstr(g_text(g), 4096) }
pub open spec fn rtok(o: Option<RtcpAttribute>) -> bool { match o { Some(t) => rt_ok(t) && okstr(rt_text(t), 4096), None => true } }
pub open spec fn anames_s(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).name@ != "group"@ && !capkey(v[i].name@) }
pub open spec fn anames_m(v: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).name@ != "mid"@ && v[i].name@ != "rtcp"@ && !capkey(v[i].name@) }
pub open spec fn md_ok(d: MediaDescription) -> bool {
    m_ok((d.media, d.port, d.port_count, d.proto, d.fmt)) && optok(d.title, 2048) && connok(d.connection) && bwok(d.bandwidth@) && keyok(d.encryption_key) && optok(d.mid, 4096) && rtok(d.rtcp) && capok(d.capability_set)
    && atok(d.attributes@) && anames_m(d.attributes@) && mal(d).len() <= 100
}
/// a description the text form can carry: every value within its field's limits, and no attribute under a name that has a place of its own
pub open spec fn s_ok(d: SdpSession) -> bool {
    o_ok(d.origin) && okstr(d.session_name@, 1024) && optok(d.session_info, 2048) && optok(d.uri, 2048) && txok(d.emails@, 320) && txok(d.phones@, 32) && connok(d.connection) && bwok(d.bandwidth@) && d.timing@.len() <= 10
    && rpok(d.repeat_times@) && zok(d.time_zones@) && keyok(d.encryption_key) && capok(d.capability_set) && gsok(d.groups@) && atok(d.attributes@) && anames_s(d.attributes@) && sal(d).len() <= 100
    && d.media@.len() <= 50 && (forall|i: int| 0 <= i < d.media@.len() ==> md_ok(#[trigger] d.media@[i])) && s_valid(d)
}
// ---- line breaks ----
pub broadcast proof fn nel_add(a: Seq<char>, b: Seq<char>) ensures #[trigger] nel(a + b) == (nel(a) && nel(b))
{
    let c = a + b;
    if nel(c) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '\n' && a[i] != '\r' by { assert(c[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '\n' && b[i] != '\r' by { assert(c[i + a.len()] == b[i]); } }
    if nel(a) && nel(b) { assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != '\n' && c[i] != '\r' by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
}
pub proof fn nel_ok(s: Seq<char>, m: int) requires okstr(s, m) ensures nel(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' && s[i] != '\r' by { assert(okc(s[i])); } }
pub proof fn nel_num(n: nat) ensures nel(dtext(n)) { dtext_dec(n); let t = dtext(n); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' && t[i] != '\r' by { assert(is_digit(t[i])); } }
pub proof fn nel_words(l: Seq<Seq<char>>, m: int) requires all_tok(l, m) ensures nel(words(l)) decreases l.len()
{ if l.len() > 0 { let k = l.drop_last(); assert forall|i: int| 0 <= i < k.len() implies token(#[trigger] k[i], m) by { assert(token(l[i], m)); } nel_words(k, m); assert(token(l[l.len() - 1], m)); nel_ok(l.last(), m); nel_lits(); nel_add(words(k) + " "@, l.last()); nel_add(words(k), " "@); } }
pub proof fn nel_lits() ensures nel(" "@), nel(":"@), nel("/"@), nel("i="@), nel("u="@), nel("e="@), nel("p="@), nel("c="@), nel("b="@), nel("t="@), nel("r="@), nel("z="@), nel("k="@), nel("a="@), nel("m="@), nel("v="@), nel("o="@), nel("s="@), nel(Seq::<char>::empty())
{ reveal_strlit(" "); reveal_strlit(":"); reveal_strlit("/"); reveal_strlit("i="); reveal_strlit("u="); reveal_strlit("e="); reveal_strlit("p="); reveal_strlit("c="); reveal_strlit("b="); reveal_strlit("t="); reveal_strlit("r="); reveal_strlit("z="); reveal_strlit("k="); reveal_strlit("a="); reveal_strlit("m="); reveal_strlit("v="); reveal_strlit("o="); reveal_strlit("s="); }
pub proof fn two(s: &str, t: Seq<char>) requires s@.len() == 2, s@[1] == '=' ensures is2(s@ + t, s@[0]), body(s@ + t) == t, (s@ + t).len() >= 2 { assert(body(s@ + t) =~= t); }
// ---- one line each ----
pub proof fn l_text(s: &str, t: Seq<char>, m: int) requires s@.len() == 2, s@[1] == '=', okstr(t, m), nel(s@) ensures is2(s@ + t, s@[0]), body(s@ + t) == t, nel(s@ + t) { two(s, t); nel_ok(t, m); nel_add(s@, t); }
pub proof fn l_version(v: u32) ensures is2(v_text(v), 'v'), nel(v_text(v)), unum(body(v_text(v)), 0xffff_ffff) == Some(v as nat) { reveal_strlit("v="); two("v=", dtext(v as nat)); nel_num(v as nat); nel_lits(); digits(v as nat, 0xffff_ffff); nel_add("v="@, dtext(v as nat)); }
pub proof fn l_origin(o: Origin) requires o_ok(o) ensures is2(o_text(o), 'o'), nel(o_text(o)), o_fits(wsf(o_text(o))), forall|x: Origin| #[trigger] o_reads(o_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("o=");
    let (a, b, c, d, e, g) = (o.username@, o.sess_id@, o.sess_version@, o.nettype@, o.addrtype@, o.unicast_address@); nel_ok(a, 255); nel_ok(b, 64); nel_ok(c, 64); nel_ok(d, 16); nel_ok(e, 16); nel_ok(g, 255);
    assert(o_text(o)[0] == 'o' && o_text(o)[1] == '=');
    p20_origin(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: Origin| #[trigger] o_reads(o_text(o), Ok(x)) implies x == o by { p20_origin(o, Ok(x)); }
}
pub proof fn l_conn(o: Connection) requires c_ok(o) ensures is2(c_text(o), 'c'), nel(c_text(o)), c_fits(wsf(c_text(o))), forall|x: Connection| #[trigger] c_reads(c_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("c=");
    let (a, b, c) = (o.nettype@, o.addrtype@, o.connection_address@); nel_ok(a, 16); nel_ok(b, 16); nel_ok(c, 255);
    assert(c_text(o)[0] == 'c' && c_text(o)[1] == '=');
    p20_connection(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: Connection| #[trigger] c_reads(c_text(o), Ok(x)) implies x == o by { p20_connection(o, Ok(x)); }
}
pub proof fn l_bw(o: Bandwidth) requires b_ok(o) ensures is2(b_text(o), 'b'), nel(b_text(o)), b_fits(b_text(o)), forall|x: Bandwidth| #[trigger] b_reads(b_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("b=");
    nel_ok(o.bwtype@, 32); nel_num(o.bandwidth as nat);
    assert(b_text(o)[0] == 'b' && b_text(o)[1] == '=');
    p20_bandwidth(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: Bandwidth| #[trigger] b_reads(b_text(o), Ok(x)) implies x == o by { p20_bandwidth(o, Ok(x)); }
}
pub proof fn l_tm(o: Timing) ensures is2(t_text(o), 't'), nel(t_text(o)), t_fits(t_text(o)), forall|x: Timing| #[trigger] t_reads(t_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("t=");
    nel_num(o.start_time as nat); nel_num(o.stop_time as nat);
    assert(t_text(o)[0] == 't' && t_text(o)[1] == '=');
    p20_timing(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: Timing| #[trigger] t_reads(t_text(o), Ok(x)) implies x == o by { p20_timing(o, Ok(x)); }
}
pub open spec fn r_same(a: RepeatTime, b: RepeatTime) -> bool { a.repeat_interval == b.repeat_interval && a.active_duration == b.active_duration && a.offsets@ == b.offsets@ }
pub proof fn l_rp(o: RepeatTime) requires r_ok(o) ensures is2(r_text(o), 'r'), nel(r_text(o)), r_fits(wsf(r_text(o))), forall|x: RepeatTime| #[trigger] r_reads(r_text(o), Ok(x)) ==> r_same(o, x)
{
    broadcast use nel_add; nel_lits(); reveal_strlit("r=");
    nel_ok(o.repeat_interval@, 16); nel_ok(o.active_duration@, 16); nel_words(texts(o.offsets@), 16);
    assert(r_text(o)[0] == 'r' && r_text(o)[1] == '=');
    p20_repeat(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: RepeatTime| #[trigger] r_reads(r_text(o), Ok(x)) implies r_same(o, x) by { p20_repeat(o, Ok(x)); }
}
pub proof fn l_key(o: EncryptionKey) requires k_ok(o) ensures is2(k_text(o), 'k'), nel(k_text(o)), nv_fits(nv(body(k_text(o))), 64, 1024), forall|x: EncryptionKey| #[trigger] k_reads(k_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("k="); nel_ok(o.method@, 64); match otext(o.key) { Some(t) => { nel_ok(t, 1024); } None => {} }
    two("k=", nv_text(o.method@, otext(o.key)));
    p20_key(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: EncryptionKey| #[trigger] k_reads(k_text(o), Ok(x)) implies x == o by { p20_key(o, Ok(x)); }
}
pub proof fn l_at(o: Attribute) requires a_ok(o) ensures is2(a_text(o), 'a'), nel(a_text(o)), nv_fits(nv(body(a_text(o))), 128, 4096), forall|x: Attribute| #[trigger] a_reads(a_text(o), Ok(x)) ==> x == o
{
    broadcast use nel_add; nel_lits(); reveal_strlit("a="); nel_ok(o.name@, 128); match otext(o.value) { Some(t) => { nel_ok(t, 4096); } None => {} }
    two("a=", nv_text(o.name@, otext(o.value)));
    p20_attribute(o, Err(SdpError::MissingRequiredField("")));
    assert forall|x: Attribute| #[trigger] a_reads(a_text(o), Ok(x)) implies x == o by { p20_attribute(o, Ok(x)); }
}
pub open spec fn named(a: Attribute, n: Seq<char>, t: Seq<char>) -> bool { a.name@ == n && otext(a.value) == Some(t) }
/// an attribute line of a given name
pub proof fn l_named(l: Seq<char>, n: Seq<char>, t: Seq<char>) requires l == "a="@ + (n + ":"@ + t), lacks(n, ':'), okstr(n, 128), okstr(t, 4096)
    ensures is2(l, 'a'), nel(l), nv_fits(nv(body(l)), 128, 4096), forall|x: Attribute| #[trigger] a_reads(l, Ok(x)) ==> named(x, n, t)
{
    broadcast use nel_add; nel_lits(); reveal_strlit("a="); nel_ok(n, 128); nel_ok(t, 4096); two("a=", n + ":"@ + t); nv_back(n, Some(t)); assert(nv_text(n, Some(t)) == n + ":"@ + t);
}
pub proof fn small(c: char) requires 'a' <= c <= 'z' ensures okc(c) { broadcast use sx::ctrl_ascii; }
pub proof fn names() ensures okstr("group"@, 128), okstr("mid"@, 128), okstr("rtcp"@, 128), okstr("sqn"@, 128), okstr("cdsc"@, 128), okstr("cpar"@, 128), okstr("cparmin"@, 128), okstr("cparmax"@, 128),
    lacks("group"@, ':'), lacks("mid"@, ':'), lacks("rtcp"@, ':'), lacks("sqn"@, ':'), lacks("cdsc"@, ':'), lacks("cpar"@, ':'), lacks("cparmin"@, ':'), lacks("cparmax"@, ':'),
{
    reveal_strlit("group"); reveal_strlit("mid"); reveal_strlit("rtcp"); reveal_strlit("sqn"); reveal_strlit("cdsc"); reveal_strlit("cpar"); reveal_strlit("cparmin"); reveal_strlit("cparmax");
    nam("group"@); nam("mid"@); nam("rtcp"@); nam("sqn"@); nam("cdsc"@); nam("cpar"@); nam("cparmin"@); nam("cparmax"@);
}
pub proof fn nam(s: Seq<char>) requires s.len() <= 128, forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' ensures okstr(s, 128), lacks(s, ':')
{ assert forall|i: int| 0 <= i < s.len() implies okc(#[trigger] s[i]) by { small(s[i]); } assert(ascii(s)); blen_ascii(s); }
pub proof fn pnames() ensures "a=mid:"@ == "a="@ + "mid"@ + ":"@, "a=rtcp:"@ == "a="@ + "rtcp"@ + ":"@, "a=sqn:"@ == "a="@ + "sqn"@ + ":"@, "a=cdsc:"@ == "a="@ + "cdsc"@ + ":"@, "a=group:"@ == "a="@ + "group"@ + ":"@
{
    reveal_strlit("group"); reveal_strlit("mid"); reveal_strlit("rtcp"); reveal_strlit("sqn"); reveal_strlit("cdsc"); reveal_strlit("a="); reveal_strlit(":"); reveal_strlit("a=mid:"); reveal_strlit("a=rtcp:"); reveal_strlit("a=sqn:"); reveal_strlit("a=cdsc:"); reveal_strlit("a=group:");
    assert("a=mid:"@ =~= "a="@ + "mid"@ + ":"@); assert("a=rtcp:"@ =~= "a="@ + "rtcp"@ + ":"@); assert("a=sqn:"@ =~= "a="@ + "sqn"@ + ":"@); assert("a=cdsc:"@ =~= "a="@ + "cdsc"@ + ":"@); assert("a=group:"@ =~= "a="@ + "group"@ + ":"@);
}
pub proof fn assoc(a: Seq<char>, n: Seq<char>, c: Seq<char>, t: Seq<char>) ensures (a + n + c) + t == a + (n + c + t) { assert((a + n + c) + t =~= a + (n + c + t)); }
// ---- zones ----
pub open spec fn zf(v: Seq<TimeZone>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { zf(v.drop_last()).push(dtext(v.last().adjustment_time as nat)).push(v.last().offset@) } }
pub proof fn z_fields(v: Seq<TimeZone>) requires zok(v), v.len() > 0 ensures ws_fields(z_onto(Seq::empty(), v)) == zf(v), nel(z_onto(Seq::empty(), v)) decreases v.len()
{
    broadcast use nel_add; nel_lits();
    let a = dtext(v.last().adjustment_time as nat); let b = v.last().offset@; digits(v.last().adjustment_time as nat, 0xffff_ffff_ffff_ffff); nel_num(v.last().adjustment_time as nat); assert(zone_ok(v[v.len() - 1])); nel_ok(b, 16);
    let k = v.drop_last(); let q = z_onto(Seq::empty(), k);
    if v.len() == 1 { assert(q + a =~= a); assert(q.len() == 0); ws_one(a); ws_add(a, b); assert(zf(k) =~= Seq::empty()); assert(zf(v) =~= seq![a].push(b)); assert(z_onto(Seq::empty(), v) == a + " "@ + b); }
    else { assert(zok(k)) by { assert forall|i: int| 0 <= i < k.len() implies zone_ok(#[trigger] k[i]) by { assert(zone_ok(v[i])); } } z_fields(k); ws_add(q, a); ws_add(q + " "@ + a, b); }
}
pub proof fn zf_at(v: Seq<TimeZone>) ensures zf(v).len() == 2 * v.len(), forall|i: int| 0 <= i < v.len() ==> zf(v)[2 * i] == dtext((#[trigger] v[i]).adjustment_time as nat) && zf(v)[2 * i + 1] == v[i].offset@ decreases v.len()
{ if v.len() > 0 { let k = v.drop_last(); zf_at(k); assert forall|i: int| 0 <= i < v.len() implies zf(v)[2 * i] == dtext((#[trigger] v[i]).adjustment_time as nat) && zf(v)[2 * i + 1] == v[i].offset@ by { if i < k.len() { assert(k[i] == v[i]); } } } }
pub proof fn l_z(v: Seq<TimeZone>) requires zok(v), v.len() > 0 ensures is2(z_text(v), 'z'), nel(z_text(v)), z_fits(wsf(z_text(v))), wsf(z_text(v)).len() == 2 * v.len(), forall|w: Seq<TimeZone>| #[trigger] z_pairs(wsf(z_text(v)), w) ==> w == v
{
    broadcast use nel_add; nel_lits(); reveal_strlit("z="); z_fields(v); zf_at(v); two("z=", z_onto(Seq::empty(), v)); let f = zf(v);
    assert forall|i: int| 0 <= i < v.len() implies unum(f[2 * i], 0xffff_ffff_ffff_ffff) == Some((#[trigger] v[i]).adjustment_time as nat) && okstr(f[2 * i + 1], 16) by { digits(v[i].adjustment_time as nat, 0xffff_ffff_ffff_ffff); assert(zone_ok(v[i])); }
    assert forall|i: int| 0 <= i < f.len() / 2 implies z_fit(f, i) by { let t = v[i]; assert(unum(f[2 * i], 0xffff_ffff_ffff_ffff) == Some(t.adjustment_time as nat)); }
    assert forall|w: Seq<TimeZone>| #[trigger] z_pairs(f, w) implies w == v by { assert(w.len() == v.len()); assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(z_pair(f, w[i], i)); assert(unum(f[2 * i], 0xffff_ffff_ffff_ffff) == Some(v[i].adjustment_time as nat)); assert(w[i].offset@ == v[i].offset@); } assert(w =~= v); }
}
}
// ---- blocks of lines of one kind -----------------------------------------------------------------------------------------
pub mod rd {
use super::*; use rb::*; use rc::*;
broadcast use {prel::str_ext, omx::string_ext};
// ---- lines of one kind ----
#[verifier::opaque] pub open spec fn kin(b: Seq<Seq<char>>, k: char) -> bool { forall|i: int| 0 <= i < b.len() ==> is2(#[trigger] b[i], k) }
pub proof fn sel_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: char) ensures sel(a + b, k) == sel(a, k) + sel(b, k) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel(a, k) + sel(b, k) =~= sel(a, k)); }
    else { sel_cat(a, b.drop_last(), k); assert((a + b).drop_last() =~= a + b.drop_last()); assert(sel(a + b, k) =~= sel(a, k) + sel(b, k)); }
}
pub proof fn sel_kin(b: Seq<Seq<char>>, j: char, k: char) requires kin(b, j) ensures sel(b, k) == if j == k { b } else { Seq::<Seq<char>>::empty() } decreases b.len()
{
    reveal(kin);
    if b.len() == 0 { assert(sel(b, k) =~= b); }
    else { let c = b.drop_last(); assert(kin(c, j)) by { assert forall|i: int| 0 <= i < c.len() implies is2(#[trigger] c[i], j) by { assert(is2(b[i], j)); } } sel_kin(c, j, k); assert(is2(b[b.len() - 1], j)); if j == k { assert(c.push(b.last()) =~= b); } }
}
/// a block of one kind behind others
pub proof fn sel_blk(a: Seq<Seq<char>>, b: Seq<Seq<char>>, j: char) requires kin(b, j) ensures forall|k: char| #[trigger] sel(a + b, k) == if j == k { sel(a, k) + b } else { sel(a, k) }
{ assert forall|k: char| #[trigger] sel(a + b, k) == if j == k { sel(a, k) + b } else { sel(a, k) } by { sel_cat(a, b, k); sel_kin(b, j, k); if j != k { assert(sel(a, k) + sel(b, k) =~= sel(a, k)); } } }
pub proof fn sel_none(k: char) ensures sel(Seq::<Seq<char>>::empty(), k) == Seq::<Seq<char>>::empty() {}
// ---- a line that may stand in the session's block ----
#[verifier::opaque] pub open spec fn fine_s(l: Seq<char>) -> bool { clean(l) && shape(l) && l[0] != 'm' && (forall|p: Seq<char>| (is2(l, 'r') ==> is2(p, 't') || is2(p, 'r')) ==> #[trigger] good_s(p, l)) }
#[verifier::opaque] pub open spec fn fines_s(b: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < b.len() ==> fine_s(#[trigger] b[i]) }
#[verifier::opaque] pub open spec fn fine_m(l: Seq<char>) -> bool { clean(l) && !is2(l, 'm') && good_m(l) }
#[verifier::opaque] pub open spec fn fines_m(b: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < b.len() ==> fine_m(#[trigger] b[i]) }
pub broadcast proof fn fines_s_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires fines_s(a), fines_s(b) ensures #[trigger] fines_s(a + b)
{ reveal(fines_s); let c = a + b; assert forall|i: int| 0 <= i < c.len() implies fine_s(#[trigger] c[i]) by { if i < a.len() { assert(fine_s(a[i])); } else { assert(fine_s(b[i - a.len()])); } } }
pub broadcast proof fn fines_m_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires fines_m(a), fines_m(b) ensures #[trigger] fines_m(a + b)
{ reveal(fines_m); let c = a + b; assert forall|i: int| 0 <= i < c.len() implies fine_m(#[trigger] c[i]) by { if i < a.len() { assert(fine_m(a[i])); } else { assert(fine_m(b[i - a.len()])); } } }
pub broadcast proof fn kin_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: char) requires kin(a, k), kin(b, k) ensures #[trigger] kin(a + b, k)
{ reveal(kin); let c = a + b; assert forall|i: int| 0 <= i < c.len() implies is2(#[trigger] c[i], k) by { if i < a.len() { assert(is2(a[i], k)); } else { assert(is2(b[i - a.len()], k)); } } }
pub open spec fn blk_s(b: Seq<Seq<char>>, k: char) -> bool { kin(b, k) && fines_s(b) }
pub open spec fn blk_m(b: Seq<Seq<char>>, k: char) -> bool { kin(b, k) && fines_m(b) }
/// a block may stand in the session's lines when each of its lines is fine there
pub proof fn mk_s(b: Seq<Seq<char>>, k: char) requires k != 'm', forall|i: int| 0 <= i < b.len() ==> is2(#[trigger] b[i], k) && nel(b[i]) && good_s("t="@, b[i]) ensures blk_s(b, k)
{
    reveal(kin); reveal(fines_s); reveal(fine_s); reveal(clean); reveal_strlit("t=");
    assert forall|i: int| 0 <= i < b.len() implies fine_s(#[trigger] b[i]) by { let l = b[i]; assert(is2(l, k)); s_good_is("t="@, l); assert(is2("t="@, 't'));
        assert forall|p: Seq<char>| (is2(l, 'r') ==> is2(p, 't') || is2(p, 'r')) implies #[trigger] good_s(p, l) by { s_good_is(p, l); } }
}
pub proof fn mk_m(b: Seq<Seq<char>>, k: char) requires k != 'm', forall|i: int| 0 <= i < b.len() ==> is2(#[trigger] b[i], k) && nel(b[i]) && good_m(b[i]) ensures blk_m(b, k)
{ reveal(kin); reveal(fines_m); reveal(fine_m); reveal(clean); assert forall|i: int| 0 <= i < b.len() implies fine_m(#[trigger] b[i]) by { assert(is2(b[i], k)); } }
pub proof fn both(b: Seq<Seq<char>>, k: char) requires k == 'i' || k == 'c' || k == 'b' || k == 'k' || k == 'a', forall|i: int| 0 <= i < b.len() ==> is2(#[trigger] b[i], k) && nel(b[i]) && good_m(b[i]) ensures blk_s(b, k), blk_m(b, k)
{
    mk_m(b, k);
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], k) && nel(b[i]) && good_s("t="@, b[i]) by { good_is(b[i]); s_good_is("t="@, b[i]); }
    mk_s(b, k);
}
// ---- the blocks ----
pub proof fn k_opt_i(o: Option<String>) requires optok(o, 2048) ensures blk_s(optl("i="@, o), 'i'), blk_m(optl("i="@, o), 'i'), otext(o) == txt_of(optl("i="@, o))
{ reveal_strlit("i="); nel_lits(); match o { Some(t) => { l_text("i=", t@, 2048); good_is("i="@ + t@); } None => {} } both(optl("i="@, o), 'i'); }
pub proof fn k_opt_u(o: Option<String>) requires optok(o, 2048) ensures blk_s(optl("u="@, o), 'u'), otext(o) == txt_of(optl("u="@, o))
{ reveal_strlit("u="); nel_lits(); match o { Some(t) => { l_text("u=", t@, 2048); s_good_is("t="@, "u="@ + t@); } None => {} } mk_s(optl("u="@, o), 'u'); }
pub proof fn k_e(v: Seq<String>) requires txok(v, 320) ensures blk_s(prel("e="@, texts(v)), 'e'), forall|w: Seq<String>| #[trigger] strs_of(prel("e="@, texts(v)), w) ==> w == v
{
    reveal_strlit("e="); nel_lits(); let b = prel("e="@, texts(v));
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'e') && nel(b[i]) && good_s("t="@, b[i]) && body(b[i]) == v[i]@ by { assert(okstr(v[i]@, 320)); assert(b[i] == "e="@ + v[i]@); l_text("e=", v[i]@, 320); s_good_is("t="@, b[i]); }
    mk_s(b, 'e');
    assert forall|w: Seq<String>| #[trigger] strs_of(b, w) implies w == v by { assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(body(b[i]) == w[i]@); } assert(w =~= v); }
}
pub proof fn k_p(v: Seq<String>) requires txok(v, 32) ensures blk_s(prel("p="@, texts(v)), 'p'), forall|w: Seq<String>| #[trigger] strs_of(prel("p="@, texts(v)), w) ==> w == v
{
    reveal_strlit("p="); nel_lits(); let b = prel("p="@, texts(v));
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'p') && nel(b[i]) && good_s("t="@, b[i]) && body(b[i]) == v[i]@ by { assert(okstr(v[i]@, 32)); assert(b[i] == "p="@ + v[i]@); l_text("p=", v[i]@, 32); s_good_is("t="@, b[i]); }
    mk_s(b, 'p');
    assert forall|w: Seq<String>| #[trigger] strs_of(b, w) implies w == v by { assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(body(b[i]) == w[i]@); } assert(w =~= v); }
}
pub proof fn k_conn(o: Option<Connection>) requires connok(o) ensures blk_s(connl(o), 'c'), blk_m(connl(o), 'c'), forall|x: Option<Connection>| #[trigger] conn_of(connl(o), x) ==> x == o
{ match o { Some(t) => { l_conn(t); good_is(c_text(t)); } None => {} } both(connl(o), 'c'); assert forall|x: Option<Connection>| #[trigger] conn_of(connl(o), x) implies x == o by { match x { Some(y) => { if let Some(t) = o { assert(connl(o).last() == c_text(t)); assert(c_reads(c_text(t), Ok(y))); } } None => {} } } }
pub proof fn k_key(o: Option<EncryptionKey>) requires keyok(o) ensures blk_s(keyl(o), 'k'), blk_m(keyl(o), 'k'), forall|x: Option<EncryptionKey>| #[trigger] key_of(keyl(o), x) ==> x == o
{ match o { Some(t) => { l_key(t); good_is(k_text(t)); } None => {} } both(keyl(o), 'k'); assert forall|x: Option<EncryptionKey>| #[trigger] key_of(keyl(o), x) implies x == o by { match x { Some(y) => { if let Some(t) = o { assert(keyl(o).last() == k_text(t)); assert(k_reads(k_text(t), Ok(y))); } } None => {} } } }
pub proof fn k_bw(v: Seq<Bandwidth>) requires bwok(v) ensures blk_s(bwl(v), 'b'), blk_m(bwl(v), 'b'), forall|w: Seq<Bandwidth>| #[trigger] bws_of(bwl(v), w) ==> w == v
{
    let b = bwl(v);
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'b') && nel(b[i]) && good_m(b[i]) by { assert(b_ok(v[i])); l_bw(v[i]); good_is(b[i]); }
    both(b, 'b');
    assert forall|w: Seq<Bandwidth>| #[trigger] bws_of(b, w) implies w == v by { assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(b_ok(v[i])); l_bw(v[i]); assert(b_reads(b[i], Ok(w[i]))); } assert(w =~= v); }
}
pub proof fn k_tm(v: Seq<Timing>) ensures blk_s(tml(v), 't'), forall|w: Seq<Timing>| #[trigger] tms_of(tml(v), w) ==> w == v
{
    let b = tml(v);
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 't') && nel(b[i]) && good_s("t="@, b[i]) by { l_tm(v[i]); s_good_is("t="@, b[i]); }
    mk_s(b, 't');
    assert forall|w: Seq<Timing>| #[trigger] tms_of(b, w) implies w == v by { assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { l_tm(v[i]); assert(t_reads(b[i], Ok(w[i]))); } assert(w =~= v); }
}
pub open spec fn rps_same(v: Seq<RepeatTime>, w: Seq<RepeatTime>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> r_same(#[trigger] v[i], w[i]) }
pub proof fn k_rp(v: Seq<RepeatTime>) requires rpok(v) ensures blk_s(rpl(v), 'r'), forall|w: Seq<RepeatTime>| #[trigger] rps_of(rpl(v), w) ==> rps_same(v, w)
{
    let b = rpl(v); reveal_strlit("t=");
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'r') && nel(b[i]) && good_s("t="@, b[i]) by { assert(r_ok(v[i])); l_rp(v[i]); assert(is2("t="@, 't')); s_good_is("t="@, b[i]); }
    mk_s(b, 'r');
    assert forall|w: Seq<RepeatTime>| #[trigger] rps_of(b, w) implies rps_same(v, w) by { assert forall|i: int| 0 <= i < v.len() implies r_same(#[trigger] v[i], w[i]) by { assert(r_ok(v[i])); l_rp(v[i]); assert(r_reads(b[i], Ok(w[i]))); } }
}
pub proof fn k_z(v: Seq<TimeZone>) requires zok(v) ensures blk_s(zl(v), 'z'), zn(zl(v)) == v.len(), forall|w: Seq<TimeZone>| #[trigger] zs_of(zl(v), w) ==> w == v
{
    let b = zl(v);
    if v.len() > 0 { l_z(v); s_good_is("t="@, z_text(v)); }
    mk_s(b, 'z');
    let e = b.drop_last();
    if v.len() > 0 { assert(e =~= Seq::empty()); assert(zn(e) == 0); assert(b.last() == z_text(v)); assert(zn(b) == zn(e) + wsf(b.last()).len() / 2); }
    assert forall|w: Seq<TimeZone>| #[trigger] zs_of(b, w) implies w == v by { if v.len() > 0 { let n = wsf(b.last()).len() / 2; assert(n == v.len()); assert(zs_of(e, w.take(w.len() - n))); assert(w.len() == n); assert(w.skip(w.len() - n) =~= w); assert(z_pairs(wsf(z_text(v)), w)); } else { assert(w =~= v); } }
}
pub proof fn k_at(v: Seq<Attribute>) requires atok(v) ensures blk_s(atl(v), 'a'), blk_m(atl(v), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(atl(v), w) ==> w == v
{
    let b = atl(v);
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'a') && nel(b[i]) && good_m(b[i]) by { assert(a_ok(v[i])); l_at(v[i]); good_is(b[i]); }
    both(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies w == v by { assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(a_ok(v[i])); l_at(v[i]); assert(a_reads(b[i], Ok(w[i]))); } assert(w =~= v); }
}
// attributes with a place of their own
pub open spec fn is_grp(w: Seq<Attribute>, v: Seq<MediaGroup>) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> named(#[trigger] w[i], "group"@, g_text(v[i])) }
pub proof fn k_grp(v: Seq<MediaGroup>) requires gsok(v) ensures blk_s(prel("a=group:"@, grl(v)), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(prel("a=group:"@, grl(v)), w) ==> is_grp(w, v)
{
    let b = prel("a=group:"@, grl(v)); names(); pnames();
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'a') && nel(b[i]) && good_m(b[i]) && forall|x: Attribute| #[trigger] a_reads(b[i], Ok(x)) ==> named(x, "group"@, g_text(v[i])) by { let t = g_text(v[i]); assert(gok(v[i])); assoc("a="@, "group"@, ":"@, t); assert(b[i] == "a=group:"@ + t); l_named(b[i], "group"@, t); good_is(b[i]); }
    both(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_grp(w, v) by { assert forall|i: int| 0 <= i < v.len() implies named(#[trigger] w[i], "group"@, g_text(v[i])) by { assert(a_reads(b[i], Ok(w[i]))); } }
}
pub open spec fn is_mid(w: Seq<Attribute>, o: Option<String>) -> bool { match o { Some(t) => w.len() == 1 && named(w[0], "mid"@, t@), None => w.len() == 0 } }
pub proof fn k_mid(o: Option<String>) requires optok(o, 4096) ensures blk_m(optl("a=mid:"@, o), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(optl("a=mid:"@, o), w) ==> is_mid(w, o)
{
    let b = optl("a=mid:"@, o); names(); pnames();
    match o { Some(t) => { assoc("a="@, "mid"@, ":"@, t@); l_named(b[0], "mid"@, t@); good_is(b[0]); } None => {} }
    mk_m(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_mid(w, o) by { match o { Some(t) => { assert(a_reads(b[0], Ok(w[0]))); } None => {} } }
}
pub open spec fn is_rt(w: Seq<Attribute>, o: Option<RtcpAttribute>) -> bool { match o { Some(t) => w.len() == 1 && named(w[0], "rtcp"@, rt_text(t)), None => w.len() == 0 } }
pub proof fn k_rt(o: Option<RtcpAttribute>) requires rtok(o) ensures blk_m(rtl(o), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(rtl(o), w) ==> is_rt(w, o)
{
    let b = rtl(o); names(); pnames();
    match o { Some(t) => { assoc("a="@, "rtcp"@, ":"@, rt_text(t)); l_named(b[0], "rtcp"@, rt_text(t)); good_is(b[0]); } None => {} }
    mk_m(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_rt(w, o) by { match o { Some(t) => { assert(a_reads(b[0], Ok(w[0]))); } None => {} } }
}
pub open spec fn is_sqn(w: Seq<Attribute>, c: SdpCapabilitySet) -> bool { w.len() == 1 && named(w[0], "sqn"@, dtext(c.sequence_number as nat)) }
pub open spec fn is_ds(w: Seq<Attribute>, v: Seq<CapabilityDescription>) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> named(#[trigger] w[i], "cdsc"@, d_text(v[i])) }
pub open spec fn is_ps(w: Seq<Attribute>, v: Seq<CapabilityParameter>) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> named(#[trigger] w[i], ptext(v[i].param_type), v[i].value@) }
pub open spec fn is_cap(w: Seq<Attribute>, o: Option<SdpCapabilitySet>) -> bool { match o { Some(c) => exists|a: Seq<Attribute>, b: Seq<Attribute>, p: Seq<Attribute>| w == #[trigger] (a + b + p) && is_sqn(a, c) && is_ds(b, c.descriptions@) && is_ps(p, c.parameters@), None => w.len() == 0 } }
pub proof fn num_ok(n: nat) requires n < 1000 ensures okstr(dtext(n), 4096)
{ dtext_dec(n); let t = dtext(n); assert forall|i: int| 0 <= i < t.len() implies okc(#[trigger] t[i]) && (t[i] as u32) < 128 by { broadcast use sx::ctrl_ascii; assert(is_digit(t[i])); } assert(ascii(t)); blen_ascii(t); assert(t.len() <= 3) by { reveal_with_fuel(dtext, 4); } }
pub proof fn k_sqn(c: SdpCapabilitySet) ensures blk_s(sqnl(c), 'a'), blk_m(sqnl(c), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(sqnl(c), w) ==> is_sqn(w, c)
{
    let b = sqnl(c); names(); pnames(); let t = dtext(c.sequence_number as nat); num_ok(c.sequence_number as nat); assoc("a="@, "sqn"@, ":"@, t); l_named(b[0], "sqn"@, t); good_is(b[0]); both(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_sqn(w, c) by { assert(a_reads(b[0], Ok(w[0]))); }
}
pub proof fn k_ds(v: Seq<CapabilityDescription>) requires dsok(v) ensures blk_s(prel("a=cdsc:"@, cdl(v)), 'a'), blk_m(prel("a=cdsc:"@, cdl(v)), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(prel("a=cdsc:"@, cdl(v)), w) ==> is_ds(w, v)
{
    let b = prel("a=cdsc:"@, cdl(v)); names(); pnames();
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'a') && nel(b[i]) && good_m(b[i]) && forall|x: Attribute| #[trigger] a_reads(b[i], Ok(x)) ==> named(x, "cdsc"@, d_text(v[i])) by { let t = d_text(v[i]); assert(dok(v[i])); assoc("a="@, "cdsc"@, ":"@, t); assert(b[i] == "a=cdsc:"@ + t); l_named(b[i], "cdsc"@, t); good_is(b[i]); }
    both(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_ds(w, v) by { assert forall|i: int| 0 <= i < v.len() implies named(#[trigger] w[i], "cdsc"@, d_text(v[i])) by { assert(a_reads(b[i], Ok(w[i]))); } }
}
pub proof fn k_ps(v: Seq<CapabilityParameter>) requires psok(v) ensures blk_s(cpl(v), 'a'), blk_m(cpl(v), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(cpl(v), w) ==> is_ps(w, v)
{
    let b = cpl(v); names(); pnames();
    assert forall|i: int| 0 <= i < b.len() implies is2(#[trigger] b[i], 'a') && nel(b[i]) && good_m(b[i]) && forall|x: Attribute| #[trigger] a_reads(b[i], Ok(x)) ==> named(x, ptext(v[i].param_type), v[i].value@) by { let t = v[i].value@; let n = ptext(v[i].param_type); assert(okstr(v[i].value@, 4096)); assoc("a="@, n, ":"@, t); assert(b[i] == cp_text(v[i])); l_named(b[i], n, t); good_is(b[i]); }
    both(b, 'a');
    assert forall|w: Seq<Attribute>| #[trigger] ats_of(b, w) implies is_ps(w, v) by { assert forall|i: int| 0 <= i < v.len() implies named(#[trigger] w[i], ptext(v[i].param_type), v[i].value@) by { assert(a_reads(b[i], Ok(w[i]))); } }
}
/// attributes read from two blocks of lines
pub proof fn ats_cut(a: Seq<Seq<char>>, b: Seq<Seq<char>>, w: Seq<Attribute>) -> (r: (Seq<Attribute>, Seq<Attribute>)) requires ats_of(a + b, w) ensures w == r.0 + r.1, ats_of(a, r.0), ats_of(b, r.1)
{
    let n = a.len() as int; let x = w.take(n); let y = w.skip(n); let c = a + b;
    assert forall|i: int| 0 <= i < x.len() implies a_reads(#[trigger] a[i], Ok(x[i])) by { assert(c[i] == a[i]); assert(a_reads(c[i], Ok(w[i]))); }
    assert forall|i: int| 0 <= i < y.len() implies a_reads(#[trigger] b[i], Ok(y[i])) by { assert(c[i + n] == b[i]); assert(a_reads(c[i + n], Ok(w[i + n]))); }
    assert(w =~= x + y); (x, y)
}
pub proof fn k_cap(o: Option<SdpCapabilitySet>) requires capok(o) ensures blk_s(capl(o), 'a'), blk_m(capl(o), 'a'), forall|w: Seq<Attribute>| #[trigger] ats_of(capl(o), w) ==> is_cap(w, o)
{
    broadcast use {fines_s_add, fines_m_add, kin_add};
    match o {
        Some(c) => {
            k_sqn(c); k_ds(c.descriptions@); k_ps(c.parameters@);
            let (x, y, z) = (sqnl(c), prel("a=cdsc:"@, cdl(c.descriptions@)), cpl(c.parameters@));
            assert forall|w: Seq<Attribute>| #[trigger] ats_of(capl(o), w) implies is_cap(w, o) by { let (u, p) = ats_cut(x + y, z, w); let (a, b) = ats_cut(x, y, u); assert(w == a + b + p); }
        }
        None => { both(capl(o), 'a'); }
    }
}
}
// ---- all the lines of a printed description -----------------------------------------------------------------------------
pub mod re {
use super::*; use rb::*; use rc::*; use rd::*;
broadcast use {prel::str_ext, omx::string_ext};
/// the same value, texts compared letter by letter
pub open spec fn m_like(d: MediaDescription, e: MediaDescription) -> bool {
    e.media == d.media && e.port == d.port && e.port_count == d.port_count && e.proto == d.proto && e.fmt@ == d.fmt@ && e.title == d.title && e.connection == d.connection && e.bandwidth@ == d.bandwidth@ && e.encryption_key == d.encryption_key
}
pub open spec fn s_like(d: SdpSession, e: SdpSession) -> bool {
    e.version == d.version && e.origin == d.origin && e.session_name == d.session_name && e.session_info == d.session_info && e.uri == d.uri && e.emails@ == d.emails@ && e.phones@ == d.phones@ && e.connection == d.connection
    && e.bandwidth@ == d.bandwidth@ && e.timing@ == d.timing@ && rps_same(d.repeat_times@, e.repeat_times@) && e.time_zones@ == d.time_zones@ && e.encryption_key == d.encryption_key
}
pub proof fn opt_eq(a: Option<String>, b: Option<String>) requires otext(a) == otext(b) ensures a == b { match a { Some(x) => match b { Some(y) => { assert(x@ == y@); } None => {} }, None => {} } }
pub open spec fn one_s(d: SdpSession) -> bool { d.session_info.is_some() }
pub proof fn optl_none(k: Seq<char>, o: Option<String>) ensures optl(k, o).len() <= 1 {}
/// the media section's lines are accepted and give the section back, its attributes still in one list
pub proof fn m_sel(d: MediaDescription) requires md_ok(d)
    ensures sel(mb(d), 'i') == optl("i="@, d.title), sel(mb(d), 'c') == connl(d.connection), sel(mb(d), 'b') == bwl(d.bandwidth@), sel(mb(d), 'k') == keyl(d.encryption_key), sel(mb(d), 'a') == mal(d), fines_m(mb(d)),
{
    broadcast use {fines_m_add, kin_add};
    k_opt_i(d.title); k_conn(d.connection); k_bw(d.bandwidth@); k_key(d.encryption_key); k_mid(d.mid); k_rt(d.rtcp); k_cap(d.capability_set); k_at(d.attributes@);
    let (a, b, c, e, g) = (optl("i="@, d.title), connl(d.connection), bwl(d.bandwidth@), keyl(d.encryption_key), mal(d));
    assert(blk_m(g, 'a'));
    let z = Seq::<Seq<char>>::empty(); assert(z + a =~= a);
    sel_blk(z, a, 'i'); sel_blk(a, b, 'c'); sel_blk(a + b, c, 'b'); sel_blk(a + b + c, e, 'k'); sel_blk(a + b + c + e, g, 'a');
    assert(mb(d) == a + b + c + e + g);
    assert(z + b =~= b); assert(z + c =~= c); assert(z + e =~= e); assert(z + g =~= g);
}
pub proof fn m_fine(d: MediaDescription) requires md_ok(d) ensures fines_m(mb(d)) { m_sel(d); }
pub proof fn m_back(d: MediaDescription) requires md_ok(d) ensures all_m(mb(d)), lim_m(mb(d)), fines_m(mb(d)), forall|e: MediaDescription| #[trigger] m_has(mb(d), e) ==> e.title == d.title && e.connection == d.connection && e.bandwidth@ == d.bandwidth@ && e.encryption_key == d.encryption_key && ats_of(mal(d), e.attributes@)
{
    m_sel(d); let b = mb(d);
    assert(all_m(b)) by { reveal(all_m); reveal(fines_m); reveal(fine_m); assert forall|i: int| 0 <= i < b.len() implies good_m(#[trigger] b[i]) by { assert(fine_m(b[i])); } }
    k_opt_i(d.title); k_conn(d.connection); k_bw(d.bandwidth@); k_key(d.encryption_key);
    assert forall|e: MediaDescription| #[trigger] m_has(b, e) implies e.title == d.title && e.connection == d.connection && e.bandwidth@ == d.bandwidth@ && e.encryption_key == d.encryption_key && ats_of(mal(d), e.attributes@) by { reveal(m_has); opt_eq(e.title, d.title); }
}
pub proof fn mline_back(d: MediaDescription) requires m_ok((d.media, d.port, d.port_count, d.proto, d.fmt))
    ensures is2(mline(d), 'm'), clean(mline(d)), m_fits(wsf(mline(d))), forall|e: MediaDescription| #[trigger] mhead(mline(d), e.media, e.port, e.port_count, e.proto, e.fmt) ==> e.media == d.media && e.port == d.port && e.port_count == d.port_count && e.proto == d.proto && e.fmt@ == d.fmt@
{
    reveal(clean); reveal(mhead); broadcast use nel_add; nel_lits(); reveal_strlit("m=");
    let o = (d.media, d.port, d.port_count, d.proto, d.fmt);
    nel_ok(d.media@, 32); nel_ok(d.proto@, 64); nel_words(texts(d.fmt@), 16); nel_num(d.port as nat); if let Some(n) = d.port_count { nel_num(n as nat); }
    assert(mline(d)[0] == 'm' && mline(d)[1] == '=');
    p20_media(o, Err(SdpError::MissingRequiredField("")));
    assert forall|e: MediaDescription| #[trigger] mhead(mline(d), e.media, e.port, e.port_count, e.proto, e.fmt) implies e.media == d.media && e.port == d.port && e.port_count == d.port_count && e.proto == d.proto && e.fmt@ == d.fmt@ by { p20_media(o, Ok((e.media, e.port, e.port_count, e.proto, e.fmt))); }
}
// ---- the session's block ----
pub proof fn s_sel1(d: SdpSession) requires s_ok(d)
    ensures fines_s(sb1(d)), forall|k: char| #[trigger] sel(sb1(d), k) == if k == 'i' { optl("i="@, d.session_info) } else if k == 'u' { optl("u="@, d.uri) } else if k == 'e' { prel("e="@, texts(d.emails@)) } else if k == 'p' { prel("p="@, texts(d.phones@)) } else if k == 'c' { connl(d.connection) } else if k == 'b' { bwl(d.bandwidth@) } else { Seq::<Seq<char>>::empty() }
{
    broadcast use {fines_s_add};
    k_opt_i(d.session_info); k_opt_u(d.uri); k_e(d.emails@); k_p(d.phones@); k_conn(d.connection); k_bw(d.bandwidth@);
    let (a, b, c, e, g, h) = (optl("i="@, d.session_info), optl("u="@, d.uri), prel("e="@, texts(d.emails@)), prel("p="@, texts(d.phones@)), connl(d.connection), bwl(d.bandwidth@));
    let z = Seq::<Seq<char>>::empty(); assert(z + a =~= a);
    sel_blk(z, a, 'i'); sel_blk(a, b, 'u'); sel_blk(a + b, c, 'e'); sel_blk(a + b + c, e, 'p'); sel_blk(a + b + c + e, g, 'c'); sel_blk(a + b + c + e + g, h, 'b');
    assert(z + b =~= b); assert(z + c =~= c); assert(z + e =~= e); assert(z + g =~= g); assert(z + h =~= h);
}
pub proof fn s_blk2(d: SdpSession) requires s_ok(d) ensures blk_s(tml(d.timing@), 't'), blk_s(rpl(d.repeat_times@), 'r'), blk_s(zl(d.time_zones@), 'z'), blk_s(keyl(d.encryption_key), 'k'), blk_s(sal(d), 'a')
{
    broadcast use {fines_s_add, kin_add};
    k_tm(d.timing@); k_rp(d.repeat_times@); k_z(d.time_zones@); k_key(d.encryption_key); k_at(d.attributes@); k_cap(d.capability_set); k_grp(d.groups@);
}
pub proof fn s_sel(d: SdpSession) requires s_ok(d)
    ensures fines_s(sb(d)), sel(sb(d), 'i') == optl("i="@, d.session_info), sel(sb(d), 'u') == optl("u="@, d.uri), sel(sb(d), 'e') == prel("e="@, texts(d.emails@)), sel(sb(d), 'p') == prel("p="@, texts(d.phones@)), sel(sb(d), 'c') == connl(d.connection), sel(sb(d), 'b') == bwl(d.bandwidth@),
        sel(sb(d), 't') == tml(d.timing@), sel(sb(d), 'r') == rpl(d.repeat_times@), sel(sb(d), 'z') == zl(d.time_zones@), sel(sb(d), 'k') == keyl(d.encryption_key), sel(sb(d), 'a') == sal(d),
{
    broadcast use {fines_s_add};
    s_sel1(d); s_blk2(d);
    let (x, a, b, c, e, g) = (sb1(d), tml(d.timing@), rpl(d.repeat_times@), zl(d.time_zones@), keyl(d.encryption_key), sal(d));
    let z = Seq::<Seq<char>>::empty();
    sel_blk(x, a, 't'); sel_blk(x + a, b, 'r'); sel_blk(x + a + b, c, 'z'); sel_blk(x + a + b + c, e, 'k'); sel_blk(x + a + b + c + e, g, 'a');
    assert(sb(d) == x + a + b + c + e + g);
    assert(z + a =~= a); assert(z + b =~= b); assert(z + c =~= c); assert(z + e =~= e); assert(z + g =~= g);
}
/// r= lines stand behind t= or r= lines
pub proof fn s_order(d: SdpSession, i: int) requires s_ok(d), 0 <= i < sb(d).len(), is2(sb(d)[i], 'r') ensures i > 0, is2(sb(d)[i - 1], 't') || is2(sb(d)[i - 1], 'r')
{
    s_sel1(d); s_blk2(d); reveal(kin);
    let (x, a, b, c, e, g) = (sb1(d), tml(d.timing@), rpl(d.repeat_times@), zl(d.time_zones@), keyl(d.encryption_key), sal(d)); let s = sb(d);
    let (n1, n2, n3) = (x.len() as int, a.len() as int, b.len() as int);
    assert(n2 > 0);
    if i < n1 { assert(s[i] == x[i]); sel_has(x, i, 'r'); assert(false); }
    else if i < n1 + n2 { assert(s[i] == a[i - n1]); assert(false); }
    else if i < n1 + n2 + n3 { if i == n1 + n2 { assert(s[i - 1] == a[n2 - 1]); } else { assert(s[i - 1] == b[i - 1 - n1 - n2]); } }
    else { let y = c + e + g; assert(s[i] == y[i - n1 - n2 - n3]); let q = i - n1 - n2 - n3; if q < c.len() { assert(is2(c[q], 'z')); } else if q < c.len() + e.len() { assert(is2(e[q - c.len()], 'k')); } else { assert(is2(g[q - c.len() - e.len()], 'a')); } }
}
pub proof fn sel_has(x: Seq<Seq<char>>, i: int, k: char) requires 0 <= i < x.len(), is2(x[i], k) ensures sel(x, k).len() > 0 decreases x.len()
{ if i < x.len() - 1 { sel_has(x.drop_last(), i, k); } }
pub proof fn s_back(d: SdpSession) requires s_ok(d) ensures lim_s(sb(d)), forall|e: SdpSession| #[trigger] s_has(sb(d), e) ==> e.session_info == d.session_info && e.uri == d.uri && e.emails@ == d.emails@ && e.phones@ == d.phones@ && e.connection == d.connection
    && e.bandwidth@ == d.bandwidth@ && e.timing@ == d.timing@ && rps_same(d.repeat_times@, e.repeat_times@) && e.time_zones@ == d.time_zones@ && e.encryption_key == d.encryption_key && ats_of(sal(d), e.attributes@)
{
    s_sel(d);
    k_opt_i(d.session_info); k_opt_u(d.uri); k_e(d.emails@); k_p(d.phones@); k_conn(d.connection); k_bw(d.bandwidth@); k_tm(d.timing@); k_rp(d.repeat_times@); k_z(d.time_zones@); k_key(d.encryption_key);
    assert(lim_s(sb(d))) by { reveal(lim_s); }
    assert forall|e: SdpSession| #[trigger] s_has(sb(d), e) implies e.session_info == d.session_info && e.uri == d.uri && e.emails@ == d.emails@ && e.phones@ == d.phones@ && e.connection == d.connection
        && e.bandwidth@ == d.bandwidth@ && e.timing@ == d.timing@ && rps_same(d.repeat_times@, e.repeat_times@) && e.time_zones@ == d.time_zones@ && e.encryption_key == d.encryption_key && ats_of(sal(d), e.attributes@) by { reveal(s_has); opt_eq(e.session_info, d.session_info); opt_eq(e.uri, d.uri); }
}
pub proof fn mend_is(ls: Seq<Seq<char>>, i: int, e: int) requires 0 <= i <= e <= ls.len(), forall|x: int| i <= x < e ==> !is2(#[trigger] ls[x], 'm'), e == ls.len() || is2(ls[e], 'm') ensures mend(ls, i) == e decreases e - i
{ if i < e { assert(!is2(ls[i], 'm')); mend_is(ls, i + 1, e); } }
// ---- where the media sections stand ----
pub proof fn mls_split(v: Seq<MediaDescription>, j: int) requires 0 <= j < v.len() ensures mls(v) == mls(v.take(j)) + ml(v[j]) + mls(v.skip(j + 1)), mls(v.take(j + 1)) == mls(v.take(j)) + ml(v[j]) decreases v.len()
{
    assert(v.take(j + 1).drop_last() =~= v.take(j));
    if j == v.len() - 1 { assert(v.take(j + 1) =~= v); assert(v.skip(j + 1).len() == 0); assert(mls(v) =~= mls(v.take(j)) + ml(v[j]) + mls(v.skip(j + 1))); }
    else { let u = v.drop_last(); mls_split(u, j); assert(u.take(j) =~= v.take(j)); assert(u[j] == v[j]); assert(v.skip(j + 1).drop_last() =~= u.skip(j + 1)); assert(v.skip(j + 1).last() == v.last()); assert(mls(v) =~= mls(v.take(j)) + ml(v[j]) + mls(v.skip(j + 1))); }
}
pub proof fn ok_line(d: MediaDescription) requires md_ok(d) ensures m_ok((d.media, d.port, d.port_count, d.proto, d.fmt)) {}
pub proof fn ok_md(d: SdpSession, j: int) requires s_ok(d), 0 <= j < d.media@.len() ensures md_ok(d.media@[j]) {}
/// where section j begins
pub open spec fn st(d: SdpSession, j: int) -> int { (3 + sb(d).len() + mls(d.media@.take(j)).len()) as int }
pub proof fn sect(d: SdpSession, j: int) requires s_ok(d), 0 <= j < d.media@.len()
    ensures 0 <= st(d, j) < st(d, j + 1) <= sl(d).len(), st(d, j + 1) == st(d, j) + 1 + mb(d.media@[j]).len(), sl(d)[st(d, j)] == mline(d.media@[j]), sl(d).subrange(st(d, j) + 1, st(d, j + 1)) == mb(d.media@[j]), is2(sl(d)[st(d, j)], 'm')
{
    hide(s_ok); hide(md_ok); hide(mls); hide(sb); hide(mb); hide(mline); hide(m_fits); hide(mhead); hide(is2); hide(m_ok);
    let v = d.media@; mls_split(v, j); let m = v[j]; ok_md(d, j); ok_line(m); mline_back(m);
    let p = sh(d) + sb(d) + mls(v.take(j)); let q = mls(v.skip(j + 1));
    assert(sl(d) =~= p + ml(m) + q); assert(p.len() == st(d, j)); assert(ml(m)[0] == mline(m));
    assert(sl(d).subrange(st(d, j) + 1, st(d, j + 1)) =~= mb(m));
}
pub proof fn st_end(d: SdpSession) ensures st(d, d.media@.len() as int) == sl(d).len() { assert(d.media@.take(d.media@.len() as int) =~= d.media@); }
pub proof fn mend_at(d: SdpSession, j: int) requires s_ok(d), 0 <= j < d.media@.len() ensures mend(sl(d), st(d, j) + 1) == st(d, j + 1)
{
    hide(s_ok); hide(md_ok); hide(mls); hide(sl); hide(mb); hide(mline); hide(sel); hide(mend);
    let ls = sl(d); let v = d.media@; sect(d, j); ok_md(d, j); m_fine(v[j]); let b = mb(v[j]);
    assert forall|x: int| st(d, j) + 1 <= x < st(d, j + 1) implies !is2(#[trigger] ls[x], 'm') by { assert(ls.subrange(st(d, j) + 1, st(d, j + 1))[x - st(d, j) - 1] == ls[x]); assert(b[x - st(d, j) - 1] == ls[x]); reveal(fines_m); reveal(fine_m); assert(fine_m(b[x - st(d, j) - 1])); }
    if j + 1 < v.len() { sect(d, j + 1); } else { st_end(d); }
    mend_is(ls, st(d, j) + 1, st(d, j + 1));
}
pub proof fn mend_first(d: SdpSession) requires s_ok(d) ensures mend(sl(d), 3) == st(d, 0), sl(d).subrange(3, st(d, 0)) == sb(d), all_s(sl(d), 3, st(d, 0))
{
    let ls = sl(d); let b = sb(d); s_sel(d); let v = d.media@; assert(v.take(0).len() == 0); assert(st(d, 0) == 3 + b.len());
    assert(ls.subrange(3, st(d, 0)) =~= b);
    assert forall|x: int| 3 <= x < st(d, 0) implies ls[x] == b[x - 3] && !is2(#[trigger] ls[x], 'm') by { reveal(fines_s); reveal(fine_s); assert(ls[x] == b[x - 3]); assert(fine_s(b[x - 3])); }
    if v.len() > 0 { sect(d, 0); } else { st_end(d); }
    mend_is(ls, 3, st(d, 0));
    reveal(all_s);
    assert forall|i: int| 3 <= i < st(d, 0) implies good_s(ls[i - 1], #[trigger] ls[i]) by { let l = b[i - 3]; assert(ls[i] == l); reveal(fines_s); reveal(fine_s); assert(fine_s(l)); if is2(l, 'r') { s_order(d, i - 3); assert(ls[i - 1] == b[i - 4]); } }
}
pub proof fn starts(d: SdpSession, j: int) requires s_ok(d), 0 <= j <= d.media@.len() ensures sstarts(sl(d), st(d, j)) == Seq::new((d.media@.len() - j) as nat, |i: int| st(d, i + j)) decreases d.media@.len() - j
{
    hide(s_ok); hide(md_ok); hide(mls); hide(sl); hide(mb); hide(mline); hide(st); hide(mend); hide(is2);
    let n = d.media@.len() as int; let w = Seq::new((n - j) as nat, |i: int| st(d, i + j));
    if j == n { st_end(d); assert(sstarts(sl(d), st(d, j)) =~= w); }
    else { sect(d, j); mend_at(d, j); starts(d, j + 1); assert(seq![st(d, j)] + sstarts(sl(d), st(d, j + 1)) =~= w) by { let u = Seq::new((n - j - 1) as nat, |i: int| st(d, i + (j + 1))); assert forall|i: int| 1 <= i < n - j implies #[trigger] w[i] == u[i - 1] by {} } }
}
pub proof fn all_clean(d: SdpSession) requires s_ok(d) ensures cleans(sl(d))
{
    let ls = sl(d); s_sel(d); reveal(cleans);
    assert forall|i: int| 0 <= i < ls.len() implies clean(#[trigger] ls[i]) by {
        if i < 3 { reveal(clean); l_version(d.version); l_origin(d.origin); reveal_strlit("s="); nel_lits(); l_text("s=", d.session_name@, 1024); assert(ls[i] == sh(d)[i]); }
        else if i < 3 + sb(d).len() { assert(ls[i] == sb(d)[i - 3]); reveal(fines_s); reveal(fine_s); assert(fine_s(sb(d)[i - 3])); }
        else { let v = d.media@; let k = i - 3 - sb(d).len(); assert(ls[i] == mls(v)[k]); mls_clean(v); }
    }
}
pub proof fn mls_clean(v: Seq<MediaDescription>) requires forall|i: int| 0 <= i < v.len() ==> md_ok(#[trigger] v[i]) ensures cleans(mls(v)), forall|i: int| 0 <= i < mls(v).len() ==> clean(#[trigger] mls(v)[i]) decreases v.len()
{
    reveal(cleans);
    if v.len() > 0 {
        let u = v.drop_last(); assert forall|i: int| 0 <= i < u.len() implies md_ok(#[trigger] u[i]) by { assert(md_ok(v[i])); } mls_clean(u); let m = v.last(); assert(md_ok(v[v.len() - 1])); mline_back(m); m_sel(m);
        assert forall|i: int| 0 <= i < mls(v).len() implies clean(#[trigger] mls(v)[i]) by {
            let n = mls(u).len() as int; if i < n { assert(mls(v)[i] == mls(u)[i]); } else if i == n { assert(mls(v)[i] == mline(m)); } else { assert(mls(v)[i] == mb(m)[i - n - 1]); reveal(fines_m); reveal(fine_m); assert(fine_m(mb(m)[i - n - 1])); } }
    }
}
/// the lines of a printed description as read: the description, its attributes still in one list
pub open spec fn raw_like(d: SdpSession, a: SdpSession) -> bool {
    s_like(d, a) && ats_of(sal(d), a.attributes@) && a.groups@.len() == 0 && a.capability_set.is_none() && a.media@.len() == d.media@.len()
    && forall|i: int| 0 <= i < d.media@.len() ==> mraw(d.media@[i], #[trigger] a.media@[i])
}
pub open spec fn mraw(d: MediaDescription, e: MediaDescription) -> bool { m_like(d, e) && ats_of(mal(d), e.attributes@) && e.mid.is_none() && e.rtcp.is_none() && e.capability_set.is_none() }
pub proof fn first_lines(d: SdpSession) requires s_ok(d) ensures sl(d).len() >= 3, is2(sl(d)[0], 'v'), unum(body(sl(d)[0]), 0xffff_ffff).is_some(), is2(sl(d)[1], 'o'), o_fits(wsf(sl(d)[1])), is2(sl(d)[2], 's'), okstr(body(sl(d)[2]), 1024),
    forall|v: u32, o: Origin, n: String| #[trigger] shead(sl(d), v, o, n) ==> v == d.version && o == d.origin && n == d.session_name
{
    hide(mls); hide(sb);
    let ls = sl(d);
    l_version(d.version); l_origin(d.origin); reveal_strlit("s="); nel_lits(); l_text("s=", d.session_name@, 1024);
    assert(ls[0] == sh(d)[0] && ls[1] == sh(d)[1] && ls[2] == sh(d)[2]);
    assert forall|v: u32, o: Origin, n: String| #[trigger] shead(ls, v, o, n) implies v == d.version && o == d.origin && n == d.session_name by { reveal(shead); assert(o_reads(o_text(d.origin), Ok(o))); p20_version(d.version, Ok(v)); }
}
pub proof fn sect_back(d: SdpSession, j: int) requires s_ok(d), 0 <= j < d.media@.len() ensures md_fits(sl(d), st(d, j)), forall|e: MediaDescription| #[trigger] md_reads(sl(d), st(d, j), e) ==> mraw(d.media@[j], e)
{
    hide(s_ok); hide(md_ok); hide(mls); hide(sl); hide(mb); hide(mline); hide(st); hide(mend); hide(is2); hide(sel); hide(m_fits); hide(mal); hide(m_ok);
    let v = d.media@; sect(d, j); mend_at(d, j); ok_md(d, j); ok_line(v[j]); m_back(v[j]); mline_back(v[j]);
    assert(blk(sl(d), st(d, j)) == mb(v[j]));
}
pub proof fn lines_fit(d: SdpSession) requires s_ok(d) ensures s_fits(sl(d)), all_fit(sl(d)), sstarts(sl(d), mend(sl(d), 3)) == Seq::new(d.media@.len(), |i: int| st(d, i))
{
    hide(md_ok); hide(mls); hide(sl); hide(sb); hide(st); hide(mend); hide(is2); hide(sel); hide(m_fits); hide(o_fits); hide(okstr); hide(lim_m); hide(sstarts); hide(md_fits);
    let ls = sl(d); let v = d.media@; mend_first(d); s_back(d); starts(d, 0); first_lines(d);
    let q = sstarts(ls, mend(ls, 3)); let w = Seq::new(v.len(), |i: int| st(d, i)); assert(q =~= w); assert(q.len() == v.len());
    assert forall|j: int| 0 <= j < q.len() implies md_fits(ls, #[trigger] q[j]) by { sect_back(d, j); }
}
pub proof fn lines_in(d: SdpSession, a: SdpSession) requires s_ok(d), raw_reads(sl(d), a) ensures raw_like(d, a)
{
    hide(md_ok); hide(mls); hide(sl); hide(sb); hide(st); hide(mend); hide(is2); hide(sel); hide(sstarts); hide(md_reads); hide(mraw); hide(sal); hide(rps_same); hide(s_ok); hide(ats_of);
    let ls = sl(d); let v = d.media@; mend_first(d); s_back(d); first_lines(d); lines_fit(d);
    reveal(raw_reads); assert(s_reads(ls, a)); assert(s_has(ls.subrange(3, mend(ls, 3)), a)); assert(shead(ls, a.version, a.origin, a.session_name));
    let q = sstarts(ls, mend(ls, 3));
    assert forall|i: int| 0 <= i < v.len() implies mraw(v[i], #[trigger] a.media@[i]) by { let x = q[i]; assert(md_reads(ls, x, a.media@[i])); assert(x == st(d, i)); sect_back(d, i); }
}
}
// ---- the description read from them ---------------------------------------------------------------------------------------
pub mod rf {
use super::*; use rb::*; use rc::*; use rd::*; use re::*;
broadcast use {prel::str_ext, omx::string_ext};
// ---- values of attributes with a place of their own read back ----
pub open spec fn g_same(a: MediaGroup, b: MediaGroup) -> bool { a.semantics == b.semantics && a.mids@ == b.mids@ }
pub proof fn sem_one(t: Seq<char>, a: GroupSemantics, b: GroupSemantics) requires sem_reads(t, a), sem_reads(t, b) ensures a == b
{ reveal_strlit("LS"); reveal_strlit("FID"); reveal_strlit("SRF"); assert("LS"@.len() == 2); assert("FID"@.len() == 3); assert("SRF"@.len() == 3); assert("FID"@[0] != "SRF"@[0]); }
pub proof fn p20_group(g: MediaGroup, r: Result<MediaGroup, SdpError>)
    ensures g_ok(g) && g_reads(g_text(g), r) ==> r.is_ok() && g_same(g, r->Ok_0), g_ok(g) ==> g_fits(ws_fields(g_text(g))), forall|v: Seq<char>| #[trigger] g_reads(v, Ok(g)) ==> g_ok(g),
{
    let s = sem_text(g.semantics); let l = texts(g.mids@); let t = g_text(g);
    if g_ok(g) {
        ws_one(s); ws_words(s, l, 64); let f = ws_fields(t); assert(f == seq![s] + l); assert(f.skip(1) =~= l); assert(f[0] == s);
        assert(all_ok(f.skip(1), 64)) by { assert forall|i: int| 0 <= i < l.len() implies okstr(#[trigger] l[i], 64) by { assert(token(l[i], 64)); } }
        if g_reads(t, r) { same_texts((r->Ok_0).mids@, g.mids@); sem_one(s, g.semantics, (r->Ok_0).semantics); }
    }
    assert forall|v: Seq<char>| #[trigger] g_reads(v, Ok(g)) implies g_ok(g) by { ws_tokens(v); upper_names(); let f = ws_fields(v); assert(l.len() == f.len() - 1); assert(l =~= f.skip(1)); assert forall|i: int| 0 <= i < l.len() implies token(#[trigger] l[i], 64) by { assert(l[i] == f[i + 1]); assert(okstr(f.skip(1)[i], 64)); }
        sem_tok(f[0], g.semantics); }
}
pub proof fn sem_tok(t: Seq<char>, s: GroupSemantics) requires sem_reads(t, s), token(t, 128) ensures token(sem_text(s), 128), sem_reads(sem_text(s), s)
{
    broadcast use {sx::ctrl_ascii, sx::ws_ascii}; upper_names(); reveal_strlit("LS"); reveal_strlit("FID"); reveal_strlit("SRF");
    match s { GroupSemantics::Other(o) => {}, _ => { let x = sem_text(s); assert(ascii(x)); blen_ascii(x); assert(forall|i: int| 0 <= i < x.len() ==> 'A' <= #[trigger] x[i] <= 'Z'); assert forall|i: int| 0 <= i < x.len() implies okc(#[trigger] x[i]) by {} assert forall|i: int| 0 <= i < x.len() implies !is_ws(#[trigger] x[i]) by {} } }
}
pub open spec fn d_same(a: CapabilityDescription, b: CapabilityDescription) -> bool { a.cap_num == b.cap_num && a.media == b.media && a.transport == b.transport && a.formats@ == b.formats@ }
pub proof fn p20_cdsc(d: CapabilityDescription, r: Result<CapabilityDescription, SdpError>)
    ensures d_ok(d) && d_reads(d_text(d), r) ==> r.is_ok() && d_same(d, r->Ok_0), d_ok(d) ==> d_fits(ws_fields(d_text(d))), forall|v: Seq<char>| #[trigger] d_reads(v, Ok(d)) ==> d_ok(d),
{
    let n = dtext(d.cap_num as nat); let (a, b, l) = (d.media@, d.transport@, texts(d.formats@)); let t = d_text(d);
    if d_ok(d) {
        digits(d.cap_num as nat, 255); ws_one(n); ws_add(n, a); ws_add(n + " "@ + a, b); ws_words(n + " "@ + a + " "@ + b, l, 16);
        let f = ws_fields(t); assert(f =~= seq![n, a, b] + l); assert(f.skip(3) =~= l);
        assert(all_ok(f.skip(3), 16)) by { assert forall|i: int| 0 <= i < l.len() implies okstr(#[trigger] l[i], 16) by { assert(token(l[i], 16)); } }
        if d_reads(t, r) { same_texts((r->Ok_0).formats@, d.formats@); }
    }
    assert forall|v: Seq<char>| #[trigger] d_reads(v, Ok(d)) implies d_ok(d) by { ws_tokens(v); let f = ws_fields(v); assert(l.len() == f.len() - 3); assert forall|i: int| 0 <= i < l.len() implies token(#[trigger] l[i], 16) by { assert(l[i] == f.skip(3)[i]); assert(okstr(f.skip(3)[i], 16)); assert(f[i + 3] == f.skip(3)[i]); } }
}
pub proof fn p20_rtcp(t: RtcpAttribute, r: Result<RtcpAttribute, SdpError>)
    ensures rt_ok(t) && rt_reads(rt_text(t), r) ==> r == Ok::<RtcpAttribute, SdpError>(t), rt_ok(t) ==> rt_fits(ws_fields(rt_text(t))), forall|v: Seq<char>| #[trigger] rt_reads(v, Ok(t)) ==> rt_ok(t),
{
    let n = dtext(t.port as nat); digits(t.port as nat, 65535); ws_one(n);
    if rt_ok(t) {
        if t.nettype.is_some() { let (a, b, c) = ((t.nettype->0)@, (t.addrtype->0)@, (t.connection_address->0)@); ws_add(n, a); ws_add(n + " "@ + a, b); ws_add(n + " "@ + a + " "@ + b, c); assert(ws_fields(rt_text(t)) =~= seq![n, a, b, c]); }
        if rt_reads(rt_text(t), r) { let x = r->Ok_0; opt_eq(x.nettype, t.nettype); opt_eq(x.addrtype, t.addrtype); opt_eq(x.connection_address, t.connection_address); }
    }
    assert forall|v: Seq<char>| #[trigger] rt_reads(v, Ok(t)) implies rt_ok(t) by { ws_tokens(v); let f = ws_fields(v); if f.len() == 4 { assert(f[1].len() > 0 && nows(f[1])); assert(f[2].len() > 0 && nows(f[2])); assert(f[3].len() > 0 && nows(f[3])); } }
}
// ---- attribute lists ----
pub proof fn vals_cat(a: Seq<Attribute>, b: Seq<Attribute>, n: Seq<char>) ensures vals(a + b, n) == vals(a, n) + vals(b, n), keep(a + b, n) == keep(a, n) + keep(b, n) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(vals(a, n) + vals(b, n) =~= vals(a, n)); assert(keep(a, n) + keep(b, n) =~= keep(a, n)); }
  else { vals_cat(a, b.drop_last(), n); assert((a + b).drop_last() =~= a + b.drop_last()); assert(vals(a + b, n) =~= vals(a, n) + vals(b, n)); assert(keep(a + b, n) =~= keep(a, n) + keep(b, n)); } }
pub proof fn caps_cat(a: Seq<Attribute>, b: Seq<Attribute>) ensures pvals(a + b) == pvals(a) + pvals(b), keepc(a + b) == keepc(a) + keepc(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(pvals(a) + pvals(b) =~= pvals(a)); assert(keepc(a) + keepc(b) =~= keepc(a)); }
  else { caps_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(pvals(a + b) =~= pvals(a) + pvals(b)); assert(keepc(a + b) =~= keepc(a) + keepc(b)); } }
pub open spec fn nall(w: Seq<Attribute>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).name@ == n }
pub open spec fn nnone(w: Seq<Attribute>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).name@ != n }
pub proof fn vals_all(w: Seq<Attribute>, n: Seq<char>) requires nall(w, n) ensures vals(w, n) == w, keep(w, n) == Seq::<Attribute>::empty() decreases w.len()
{ if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).name@ == n by { assert(w[i].name@ == n); } vals_all(u, n); assert(w[w.len() - 1].name@ == n); assert(u.push(w.last()) =~= w); } else { assert(w =~= Seq::empty()); } }
pub proof fn vals_none(w: Seq<Attribute>, n: Seq<char>) requires nnone(w, n) ensures vals(w, n) == Seq::<Attribute>::empty(), keep(w, n) == w decreases w.len()
{ if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).name@ != n by { assert(w[i].name@ != n); } vals_none(u, n); assert(w[w.len() - 1].name@ != n); assert(u.push(w.last()) =~= w); } else { assert(w =~= Seq::empty()); } }
pub open spec fn cnone(w: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < w.len() ==> !capkey((#[trigger] w[i]).name@) }
pub open spec fn pall(w: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < w.len() ==> parkey((#[trigger] w[i]).name@) }
pub open spec fn pnone(w: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < w.len() ==> !parkey((#[trigger] w[i]).name@) }
pub proof fn caps_none(w: Seq<Attribute>) requires cnone(w) ensures keepc(w) == w, pvals(w) == Seq::<Attribute>::empty(), vals(w, "sqn"@) == Seq::<Attribute>::empty(), vals(w, "cdsc"@) == Seq::<Attribute>::empty(), all_cg(w) decreases w.len()
{ assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).name@ != "sqn"@ && w[i].name@ != "cdsc"@ && c_good(w[i]) by { assert(!capkey(w[i].name@)); }
  vals_none(w, "sqn"@); vals_none(w, "cdsc"@);
  if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies !capkey((#[trigger] u[i]).name@) by { assert(!capkey(w[i].name@)); } caps_none(u); assert(!capkey(w[w.len() - 1].name@)); assert(u.push(w.last()) =~= w); } else { assert(w =~= Seq::empty()); } }
pub proof fn keepc_all(w: Seq<Attribute>) requires forall|i: int| 0 <= i < w.len() ==> capkey((#[trigger] w[i]).name@) ensures keepc(w) == Seq::<Attribute>::empty() decreases w.len()
{ if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies capkey((#[trigger] u[i]).name@) by { assert(capkey(w[i].name@)); } keepc_all(u); assert(capkey(w[w.len() - 1].name@)); } }
pub proof fn pvals_all(w: Seq<Attribute>) requires pall(w) ensures pvals(w) == w decreases w.len()
{ if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies parkey((#[trigger] u[i]).name@) by { assert(parkey(w[i].name@)); } pvals_all(u); assert(parkey(w[w.len() - 1].name@)); assert(u.push(w.last()) =~= w); } else { assert(w =~= Seq::empty()); } }
pub proof fn pvals_none(w: Seq<Attribute>) requires pnone(w) ensures pvals(w) == Seq::<Attribute>::empty() decreases w.len()
{ if w.len() > 0 { let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies !parkey((#[trigger] u[i]).name@) by { assert(!parkey(w[i].name@)); } pvals_none(u); assert(!parkey(w[w.len() - 1].name@)); } }
pub open spec fn ds_same(v: Seq<CapabilityDescription>, w: Seq<CapabilityDescription>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> d_same(#[trigger] v[i], w[i]) }
pub open spec fn cap_same(a: Option<SdpCapabilitySet>, b: Option<SdpCapabilitySet>) -> bool { match a { Some(x) => b.is_some() && (b->0).sequence_number == x.sequence_number && ds_same(x.descriptions@, (b->0).descriptions@) && (b->0).parameters@ == x.parameters@, None => b.is_none() } }
pub proof fn keys_differ() ensures !capkey("group"@), !capkey("mid"@), !capkey("rtcp"@), "mid"@ != "rtcp"@
{ reveal_strlit("group"); reveal_strlit("mid"); reveal_strlit("rtcp"); reveal_strlit("sqn"); reveal_strlit("cdsc"); reveal_strlit("cpar"); reveal_strlit("cparmin"); reveal_strlit("cparmax");
  assert("group"@.len() == 5); assert("mid"@.len() == 3); assert("rtcp"@.len() == 4); assert("sqn"@.len() == 3); assert("cdsc"@.len() == 4); assert("cpar"@.len() == 4); assert("cparmin"@.len() == 7); assert("cparmax"@.len() == 7); assert("mid"@[0] == 'm'); assert("sqn"@[0] == 's'); assert("rtcp"@[0] == 'r'); assert("cdsc"@[0] == 'c'); assert("cpar"@[0] == 'c'); }
pub proof fn is_val(a: Attribute, n: Seq<char>, t: Seq<char>) requires named(a, n, t) ensures a.name@ == n, a.value.is_some(), aval(a) == t {}
/// the capability attributes hold the set, and nothing else
pub proof fn cap_list(w: Seq<Attribute>, o: Option<SdpCapabilitySet>) requires is_cap(w, o), capok(o)
    ensures cap_fits(w), keepc(w) == Seq::<Attribute>::empty(), forall|r: Option<SdpCapabilitySet>| #[trigger] cap_of(w, r) ==> cap_same(o, r), forall|i: int| 0 <= i < w.len() ==> capkey((#[trigger] w[i]).name@)
{
    cnames();
    match o {
        None => { assert(w =~= Seq::empty()); }
        Some(c) => {
            let (a, b, p) = choose|a: Seq<Attribute>, b: Seq<Attribute>, p: Seq<Attribute>| w == #[trigger] (a + b + p) && is_sqn(a, c) && is_ds(b, c.descriptions@) && is_ps(p, c.parameters@);
            let (ds, ps) = (c.descriptions@, c.parameters@);
            is_val(a[0], "sqn"@, dtext(c.sequence_number as nat)); digits(c.sequence_number as nat, 255);
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).name@ == "sqn"@ && a[i].value.is_some() && c_good(a[i]) by { assert(i == 0); }
            assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).name@ == "cdsc"@ && b[i].value.is_some() && aval(b[i]) == d_text(ds[i]) && c_good(b[i]) by { is_val(b[i], "cdsc"@, d_text(ds[i])); assert(dok(ds[i])); p20_cdsc(ds[i], Err(SdpError::MissingRequiredField(""))); }
            assert forall|i: int| 0 <= i < p.len() implies parkey((#[trigger] p[i]).name@) && p[i].name@ == ptext(ps[i].param_type) && p[i].value.is_some() && aval(p[i]) == ps[i].value@ && p[i].name@ != "sqn"@ && p[i].name@ != "cdsc"@ && c_good(p[i]) by { is_val(p[i], ptext(ps[i].param_type), ps[i].value@); }
            vals_cat(a + b, p, "sqn"@); vals_cat(a, b, "sqn"@); vals_cat(a + b, p, "cdsc"@); vals_cat(a, b, "cdsc"@); caps_cat(a + b, p); caps_cat(a, b);
            vals_all(a, "sqn"@); vals_none(a, "cdsc"@); vals_all(b, "cdsc"@); vals_none(b, "sqn"@); vals_none(p, "sqn"@); vals_none(p, "cdsc"@); pvals_all(p); pvals_none(a); pvals_none(b);
            let z = Seq::<Attribute>::empty();
            assert(vals(w, "sqn"@) =~= a); assert(vals(w, "cdsc"@) =~= b); assert(pvals(w) =~= p);
            assert forall|i: int| 0 <= i < w.len() implies c_good(#[trigger] w[i]) && capkey(w[i].name@) by { if i < 1 { assert(w[i] == a[i]); } else if i < 1 + b.len() { assert(w[i] == b[i - 1]); } else { assert(w[i] == p[i - 1 - b.len()]); } }
            keepc_all(w);
            assert forall|r: Option<SdpCapabilitySet>| #[trigger] cap_of(w, r) implies cap_same(o, r) by {
                let x = r->0;
                assert(a.len() == 1); assert(a.last() == a[0]);
                assert forall|i: int| 0 <= i < ds.len() implies d_same(#[trigger] ds[i], x.descriptions@[i]) by { assert(dok(ds[i])); assert(d_reads(aval(b[i]), Ok(x.descriptions@[i]))); assert(aval(b[i]) == d_text(ds[i])); p20_cdsc(ds[i], Ok(x.descriptions@[i])); }
                assert forall|i: int| 0 <= i < ps.len() implies #[trigger] ps[i] == x.parameters@[i] by { assert(p_is(p[i], x.parameters@[i])); assert(aval(p[i]) == ps[i].value@); ptext_one(ps[i].param_type, x.parameters@[i].param_type); }
                assert(ps =~= x.parameters@);
            }
        }
    }
}
pub proof fn ptext_one(a: CapabilityParameterType, b: CapabilityParameterType) requires ptext(a) == ptext(b) ensures a == b { cnames(); }
/// capability attributes among attributes with other names
pub proof fn cap_among(x: Seq<Attribute>, w: Seq<Attribute>, y: Seq<Attribute>, o: Option<SdpCapabilitySet>) requires is_cap(w, o), capok(o), cnone(x), cnone(y)
    ensures cap_fits(x + w + y), keepc(x + w + y) == x + y, forall|r: Option<SdpCapabilitySet>| #[trigger] cap_of(x + w + y, r) ==> cap_same(o, r)
{
    cap_list(w, o); caps_none(x); caps_none(y); let s = x + w + y;
    vals_cat(x + w, y, "sqn"@); vals_cat(x, w, "sqn"@); vals_cat(x + w, y, "cdsc"@); vals_cat(x, w, "cdsc"@); caps_cat(x + w, y); caps_cat(x, w);
    assert(vals(s, "sqn"@) =~= vals(w, "sqn"@)); assert(vals(s, "cdsc"@) =~= vals(w, "cdsc"@)); assert(pvals(s) =~= pvals(w)); assert(keepc(s) =~= x + y);
    assert(all_cg(s)) by { assert forall|i: int| 0 <= i < s.len() implies c_good(#[trigger] s[i]) by { if i < x.len() { assert(s[i] == x[i]); } else if i < x.len() + w.len() { assert(s[i] == w[i - x.len()]); } else { assert(s[i] == y[i - x.len() - w.len()]); } } }
    assert forall|r: Option<SdpCapabilitySet>| #[trigger] cap_of(s, r) implies cap_same(o, r) by { assert(cap_of(w, r)); }
}
// ---- the stages of reading ----
pub open spec fn gs_same(v: Seq<MediaGroup>, w: Seq<MediaGroup>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> g_same(#[trigger] v[i], w[i]) }
pub open spec fn m1(d: MediaDescription, e: MediaDescription) -> bool { m_like(d, e) && e.mid == d.mid && e.rtcp.is_none() && e.capability_set.is_none() && exists|x: Seq<Attribute>, w: Seq<Attribute>| e.attributes@ == #[trigger] (x + w + d.attributes@) && is_rt(x, d.rtcp) && is_cap(w, d.capability_set) }
pub open spec fn m2(d: MediaDescription, e: MediaDescription) -> bool { m_like(d, e) && e.mid == d.mid && e.rtcp.is_none() && cap_same(d.capability_set, e.capability_set) && exists|x: Seq<Attribute>| e.attributes@ == #[trigger] (x + d.attributes@) && is_rt(x, d.rtcp) }
/// the same media section
pub open spec fn m_same(d: MediaDescription, e: MediaDescription) -> bool { m_like(d, e) && e.mid == d.mid && e.rtcp == d.rtcp && cap_same(d.capability_set, e.capability_set) && e.attributes@ == d.attributes@ }
pub open spec fn s1(d: SdpSession, e: SdpSession) -> bool { s_like(d, e) && gs_same(d.groups@, e.groups@) && (exists|w: Seq<Attribute>| e.attributes@ == #[trigger] (d.attributes@ + w) && is_cap(w, d.capability_set)) && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < d.media@.len() ==> m1(d.media@[i], #[trigger] e.media@[i]) }
pub open spec fn s2(d: SdpSession, e: SdpSession) -> bool { s_like(d, e) && gs_same(d.groups@, e.groups@) && cap_same(d.capability_set, e.capability_set) && e.attributes@ == d.attributes@ && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < d.media@.len() ==> m2(d.media@[i], #[trigger] e.media@[i]) }
/// the same description
pub open spec fn s_same(d: SdpSession, e: SdpSession) -> bool { s_like(d, e) && gs_same(d.groups@, e.groups@) && cap_same(d.capability_set, e.capability_set) && e.attributes@ == d.attributes@ && e.media@.len() == d.media@.len() && forall|i: int| 0 <= i < d.media@.len() ==> m_same(d.media@[i], #[trigger] e.media@[i]) }
pub proof fn m_raw(d: MediaDescription, e: MediaDescription) requires md_ok(d), mraw(d, e) ensures valued(vals(e.attributes@, "mid"@)), forall|g: MediaDescription| #[trigger] md_mid(e, g) ==> m1(d, g)
{
    keys_differ(); k_mid(d.mid); k_rt(d.rtcp); k_cap(d.capability_set); k_at(d.attributes@);
    let (p, q, r, t) = (optl("a=mid:"@, d.mid), rtl(d.rtcp), capl(d.capability_set), atl(d.attributes@));
    let (u, a0) = ats_cut(p + q + r, t, e.attributes@); let (v, w) = ats_cut(p + q, r, u); let (m, x) = ats_cut(p, q, v);
    assert(is_mid(m, d.mid)); assert(is_rt(x, d.rtcp)); assert(is_cap(w, d.capability_set)); assert(a0 == d.attributes@);
    cap_list(w, d.capability_set);
    let n = "mid"@; assert(nnone(x, n)); assert(nnone(w, n)) by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).name@ != n by { assert(capkey(w[i].name@)); } } assert(nnone(a0, n)); assert(nall(m, n));
    vals_all(m, n); vals_none(x, n); vals_none(w, n); vals_none(a0, n);
    let s = e.attributes@; assert(s == m + x + w + a0);
    vals_cat(m + x + w, a0, n); vals_cat(m + x, w, n); vals_cat(m, x, n);
    assert(vals(s, n) =~= m); assert(keep(s, n) =~= x + w + a0);
    assert forall|g: MediaDescription| #[trigger] md_mid(e, g) implies m1(d, g) by { opt_eq(g.mid, d.mid); assert(g.attributes@ == x + w + d.attributes@); }
}
pub proof fn m_one(d: MediaDescription, e: MediaDescription) requires md_ok(d), m1(d, e) ensures cap_fits(e.attributes@), forall|g: MediaDescription| #[trigger] md_cap(e, g) ==> m2(d, g)
{
    keys_differ();
    let (x, w) = choose|x: Seq<Attribute>, w: Seq<Attribute>| e.attributes@ == #[trigger] (x + w + d.attributes@) && is_rt(x, d.rtcp) && is_cap(w, d.capability_set);
    assert(cnone(x)); cap_among(x, w, d.attributes@, d.capability_set);
}
pub proof fn m_two(d: MediaDescription, e: MediaDescription) requires md_ok(d), m2(d, e) ensures rts_fit(vals(e.attributes@, "rtcp"@)), forall|g: MediaDescription| #[trigger] md_rt(e, g) ==> m_same(d, g)
{
    let n = "rtcp"@; let x = choose|x: Seq<Attribute>| e.attributes@ == #[trigger] (x + d.attributes@) && is_rt(x, d.rtcp);
    assert(nall(x, n)); assert(nnone(d.attributes@, n)); vals_all(x, n); vals_none(d.attributes@, n); vals_cat(x, d.attributes@, n);
    assert(vals(e.attributes@, n) =~= x); assert(keep(e.attributes@, n) =~= d.attributes@);
    if let Some(t) = d.rtcp { p20_rtcp(t, Err(SdpError::MissingRequiredField(""))); }
    assert forall|g: MediaDescription| #[trigger] md_rt(e, g) implies m_same(d, g) by { match g.rtcp { Some(y) => { if let Some(t) = d.rtcp { assert(x.last() == x[0]); is_val(x[0], n, rt_text(t)); p20_rtcp(t, Ok(y)); } } None => {} } }
}
pub proof fn s_raw(d: SdpSession, e: SdpSession) requires s_ok(d), raw_like(d, e) ensures gm_fits(e), forall|g: SdpSession| #[trigger] gm_rel(e, g) ==> s1(d, g)
{
    keys_differ(); k_at(d.attributes@); k_cap(d.capability_set); k_grp(d.groups@);
    let (p, q, r) = (atl(d.attributes@), capl(d.capability_set), prel("a=group:"@, grl(d.groups@)));
    let (u, m) = ats_cut(p + q, r, e.attributes@); let (a0, w) = ats_cut(p, q, u); let v = d.groups@;
    assert(a0 == d.attributes@); assert(is_cap(w, d.capability_set)); assert(is_grp(m, v)); cap_list(w, d.capability_set);
    let n = "group"@; assert(nnone(a0, n)); assert(nnone(w, n)) by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).name@ != n by { assert(capkey(w[i].name@)); } }
    assert(nall(m, n)) by { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).name@ == n by { assert(named(m[i], n, g_text(v[i]))); } }
    vals_none(a0, n); vals_none(w, n); vals_all(m, n); vals_cat(a0 + w, m, n); vals_cat(a0, w, n);
    assert(vals(e.attributes@, n) =~= m); assert(keep(e.attributes@, n) =~= a0 + w);
    assert forall|i: int| 0 <= i < m.len() implies g_good(#[trigger] m[i]) by { assert(named(m[i], n, g_text(v[i]))); assert(gok(v[i])); p20_group(v[i], Err(SdpError::MissingRequiredField(""))); }
    assert forall|i: int| 0 <= i < e.media@.len() implies valued(vals((#[trigger] e.media@[i]).attributes@, "mid"@)) by { ok_md(d, i); assert(mraw(d.media@[i], e.media@[i])); m_raw(d.media@[i], e.media@[i]); }
    assert forall|g: SdpSession| #[trigger] gm_rel(e, g) implies s1(d, g) by {
        assert forall|i: int| 0 <= i < v.len() implies g_same(#[trigger] v[i], g.groups@[i]) by { assert(gok(v[i])); assert(named(m[i], n, g_text(v[i]))); assert(g_reads(aval(m[i]), Ok(g.groups@[i]))); p20_group(v[i], Ok(g.groups@[i])); }
        assert(g.attributes@ == d.attributes@ + w);
        assert forall|i: int| 0 <= i < d.media@.len() implies m1(d.media@[i], #[trigger] g.media@[i]) by { ok_md(d, i); assert(mraw(d.media@[i], e.media@[i])); m_raw(d.media@[i], e.media@[i]); assert(md_mid(e.media@[i], g.media@[i])); }
    }
}
pub proof fn s_one(d: SdpSession, e: SdpSession) requires s_ok(d), s1(d, e) ensures cap_all(e), forall|g: SdpSession| #[trigger] cap_rel(e, g) ==> s2(d, g)
{
    let w = choose|w: Seq<Attribute>| e.attributes@ == #[trigger] (d.attributes@ + w) && is_cap(w, d.capability_set);
    let z = Seq::<Attribute>::empty(); assert(d.attributes@ + w + z =~= e.attributes@); assert(d.attributes@ + z =~= d.attributes@); cap_among(d.attributes@, w, z, d.capability_set);
    assert forall|i: int| 0 <= i < e.media@.len() implies cap_fits((#[trigger] e.media@[i]).attributes@) by { ok_md(d, i); assert(m1(d.media@[i], e.media@[i])); m_one(d.media@[i], e.media@[i]); }
    assert forall|g: SdpSession| #[trigger] cap_rel(e, g) implies s2(d, g) by { assert forall|i: int| 0 <= i < d.media@.len() implies m2(d.media@[i], #[trigger] g.media@[i]) by { ok_md(d, i); assert(m1(d.media@[i], e.media@[i])); m_one(d.media@[i], e.media@[i]); assert(md_cap(e.media@[i], g.media@[i])); } }
}
pub proof fn s_two(d: SdpSession, e: SdpSession) requires s_ok(d), s2(d, e) ensures rt_all(e), forall|g: SdpSession| #[trigger] rt_rel(e, g) ==> s_same(d, g)
{
    assert forall|i: int| 0 <= i < e.media@.len() implies rts_fit(vals((#[trigger] e.media@[i]).attributes@, "rtcp"@)) by { ok_md(d, i); assert(m2(d.media@[i], e.media@[i])); m_two(d.media@[i], e.media@[i]); }
    assert forall|g: SdpSession| #[trigger] rt_rel(e, g) implies s_same(d, g) by { assert forall|i: int| 0 <= i < d.media@.len() implies m_same(d.media@[i], #[trigger] g.media@[i]) by { ok_md(d, i); assert(m2(d.media@[i], e.media@[i])); m_two(d.media@[i], e.media@[i]); assert(md_rt(e.media@[i], g.media@[i])); } }
}
pub proof fn same_valid(d: SdpSession, e: SdpSession) requires s_valid(d), s_same(d, e) ensures s_valid(e)
{ if d.connection.is_none() { assert forall|i: int| 0 <= i < e.media@.len() implies (#[trigger] e.media@[i]).connection.is_some() by { assert(m_same(d.media@[i], e.media@[i])); assert(d.media@[i].connection.is_some()); } } }
/// P20: a printed description is read, and what is read is the description printed
pub proof fn p20_text(d: SdpSession) requires s_ok(d)
    ensures !refused(lines_of(s_text(d))), forall|e: SdpSession| #[trigger] parsed(lines_of(s_text(d)), e) ==> s_same(d, e)
{
    hide(s_ok); hide(s_text); hide(sl); hide(lines_of); hide(raw_like); hide(gm_fits); hide(gm_rel); hide(cap_all); hide(cap_rel); hide(rt_all); hide(rt_rel); hide(s1); hide(s2); hide(s_fits); hide(all_fit); hide(s_same); hide(s_valid);
    s_is(d); all_clean(d); lines_back(sl(d)); let ls = sl(d); assert(lines_of(s_text(d)) == ls); lines_fit(d); ok_valid(d);
    assert forall|a: SdpSession| #[trigger] raw_reads(ls, a) implies gm_fits(a) && forall|b: SdpSession| #[trigger] gm_rel(a, b) ==> s1(d, b) by { lines_in(d, a); s_raw(d, a); }
    assert forall|b: SdpSession| #[trigger] s1(d, b) implies cap_all(b) && forall|c: SdpSession| #[trigger] cap_rel(b, c) ==> s2(d, c) by { s_one(d, b); }
    assert forall|c: SdpSession| #[trigger] s2(d, c) implies rt_all(c) && forall|e: SdpSession| #[trigger] rt_rel(c, e) ==> s_same(d, e) by { s_two(d, c); }
    assert forall|e: SdpSession| #[trigger] s_same(d, e) implies s_valid(e) by { same_valid(d, e); }
}
pub proof fn ok_valid(d: SdpSession) requires s_ok(d) ensures s_valid(d) {}
}
// ---- what is read can be printed -----------------------------------------------------------------------------------------
pub mod rg {
use super::*; use rb::*; use rc::*; use rd::*; use re::*; use rf::*;
broadcast use {prel::str_ext, omx::string_ext};
pub open spec fn okall(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> okc(#[trigger] s[i]) }
pub proof fn okall_add(a: Seq<char>, b: Seq<char>) requires okall(a), okall(b) ensures okall(a + b) { let c = a + b; assert forall|i: int| 0 <= i < c.len() implies okc(#[trigger] c[i]) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
pub proof fn ok_num(n: nat) ensures okall(dtext(n)), blen(dtext(n)) == dtext(n).len()
{ dtext_dec(n); let t = dtext(n); assert forall|i: int| 0 <= i < t.len() implies okc(#[trigger] t[i]) && (t[i] as u32) < 128 by { broadcast use sx::ctrl_ascii; assert(is_digit(t[i])); } assert(ascii(t)); blen_ascii(t); }
pub proof fn ok_sp() ensures okall(" "@), blen(" "@) == 1 { broadcast use sx::ctrl_ascii; reveal_strlit(" "); assert(ascii(" "@)); blen_ascii(" "@); }
/// a number's own digits are its shortest spelling
pub proof fn dtext_min(t: Seq<char>) requires all_digits(t), t.len() > 0 ensures dtext(dec(t)).len() <= t.len() decreases t.len()
{
    assert(is_digit(t[t.len() - 1])); let u = t.drop_last();
    if u.len() > 0 { assert(all_digits(u)) by { assert forall|i: int| 0 <= i < u.len() implies is_digit(#[trigger] u[i]) by { assert(is_digit(t[i])); } } dtext_min(u); if dec(t) >= 10 { assert(dec(t) / 10 == dec(u)); } } else { assert(dec(u) == 0); assert(dec(t) < 10); }
}
pub proof fn unum_min(s: Seq<char>, max: nat) requires unum(s, max).is_some(), s.len() > 0 ensures blen(dtext(unum(s, max)->0)) <= blen(s)
{ let t = if s[0] == '+' { s.skip(1) } else { s }; ok_num(dec(t)); blen_len(s); dtext_dec(dec(t)); if t.len() > 0 { dtext_min(t); } else { assert(dec(t) == 0); } }
pub open spec fn sumlen(q: Seq<Seq<char>>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { sumlen(q.drop_last()) + blen(q.last()) } }
pub proof fn sum_push(q: Seq<Seq<char>>, t: Seq<char>) ensures sumlen(q.push(t)) == sumlen(q) + blen(t) { assert(q.push(t).drop_last() =~= q); }
pub proof fn wparts_len(s: Seq<char>) ensures sumlen(wparts(s)) + wparts(s).len() <= blen(s) + 1, wparts(s).len() >= 1, okall(s) ==> forall|i: int| 0 <= i < wparts(s).len() ==> okall(#[trigger] wparts(s)[i]) decreases s.len()
{
    blen_empty();
    if s.len() == 0 { let e = Seq::<Seq<char>>::empty(); sum_push(e, Seq::empty()); assert(wparts(s) == e.push(Seq::empty())); }
    else {
        let p = s.drop_last(); let c = s.last(); wparts_len(p); blen_push(p, c); assert(p.push(c) =~= s); let f = wparts(p); clen_pos(c);
        if okall(s) { assert(okall(p)) by { assert forall|i: int| 0 <= i < p.len() implies okc(#[trigger] p[i]) by { assert(okc(s[i])); } } assert(okc(s[s.len() - 1])); }
        if is_ws(c) { sum_push(f, Seq::empty()); }
        else { let g = f.drop_last(); let l = f.last(); assert(f =~= g.push(l)); sum_push(g, l); let m = l.push(c); blen_push(l, c); assert(wparts(s) =~= g.push(m)); sum_push(g, m);
            if okall(s) { assert forall|i: int| 0 <= i < wparts(s).len() implies okall(#[trigger] wparts(s)[i]) by { assert(okall(f[i])); } } }
    }
}
pub proof fn clen_pos(c: char) ensures clen(c) >= 1 { let t = seq![c]; blen_first(t); blen_len(t); assert(t.drop_first() =~= Seq::empty()); blen_empty(); }
pub proof fn ne_len(q: Seq<Seq<char>>) ensures sumlen(nonempty(q)) <= sumlen(q), nonempty(q).len() <= q.len(), (forall|i: int| 0 <= i < q.len() ==> okall(#[trigger] q[i])) ==> forall|i: int| 0 <= i < nonempty(q).len() ==> okall(#[trigger] nonempty(q)[i]) decreases q.len()
{
    if q.len() > 0 { let p = q.drop_last(); ne_len(p); if q.last().len() > 0 { sum_push(nonempty(p), q.last()); }
        if forall|i: int| 0 <= i < q.len() ==> okall(#[trigger] q[i]) { assert forall|i: int| 0 <= i < p.len() implies okall(#[trigger] p[i]) by { assert(okall(q[i])); } assert(okall(q[q.len() - 1])); } }
}
/// words with one blank between them are no longer than the text they stand in
pub proof fn words_fit(s: Seq<char>) ensures ws_fields(s).len() > 0 ==> sumlen(ws_fields(s)) + ws_fields(s).len() <= blen(s) + 1, okall(s) ==> forall|i: int| 0 <= i < ws_fields(s).len() ==> okall(#[trigger] ws_fields(s)[i])
{ ws_fields_def(s); wparts_len(s); ne_len(wparts(s)); }
pub proof fn words_len(l: Seq<Seq<char>>, m: nat) requires all_tok(l, m as int) ensures blen(words(l)) <= (m + 1) * l.len(), okall(words(l)) decreases l.len()
{
    if l.len() == 0 { blen_empty(); }
    else { let k = l.drop_last(); assert(all_tok(k, m as int)) by { assert forall|i: int| 0 <= i < k.len() implies token(#[trigger] k[i], m as int) by { assert(token(l[i], m as int)); } } words_len(k, m); assert(token(l[l.len() - 1], m as int)); ok_sp(); blen_cat(words(k), " "@); blen_cat(words(k) + " "@, l.last()); okall_add(words(k), " "@); okall_add(words(k) + " "@, l.last()); assert((m + 1) * l.len() == (m + 1) * k.len() + (m + 1)) by (nonlinear_arith) requires l.len() == k.len() + 1; }
}
pub proof fn g_fit(g: MediaGroup) requires g_ok(g) ensures gok(g)
{ let l = texts(g.mids@); words_len(l, 64); blen_cat(sem_text(g.semantics), words(l)); okall_add(sem_text(g.semantics), words(l)); assert(65 * l.len() <= 65 * 50) by (nonlinear_arith) requires l.len() <= 50; }
pub proof fn d_fit(d: CapabilityDescription) requires d_ok(d) ensures dok(d)
{
    let n = dtext(d.cap_num as nat); let (a, b, l) = (d.media@, d.transport@, texts(d.formats@)); words_len(l, 16); ok_num(d.cap_num as nat); num_ok(d.cap_num as nat); assert(n.len() <= 3) by { reveal_with_fuel(dtext, 4); } ok_sp();
    blen_cat(n, " "@); blen_cat(n + " "@, a); blen_cat(n + " "@ + a, " "@); blen_cat(n + " "@ + a + " "@, b); blen_cat(n + " "@ + a + " "@ + b, words(l));
    okall_add(n, " "@); okall_add(n + " "@, a); okall_add(n + " "@ + a, " "@); okall_add(n + " "@ + a + " "@, b); okall_add(n + " "@ + a + " "@ + b, words(l));
    assert(17 * l.len() <= 17 * 128) by (nonlinear_arith) requires l.len() <= 128;
}
pub proof fn rt_fit(v: Seq<char>, t: RtcpAttribute) requires okstr(v, 4096), rt_fits(ws_fields(v)), rt_is(ws_fields(v), t) ensures rtok(Some(t))
{
    let f = ws_fields(v); words_fit(v); ws_tokens(v); p20_rtcp(t, Ok(t)); assert(rt_reads(v, Ok(t))); let n = dtext(t.port as nat); ok_num(t.port as nat); assert(f[0].len() > 0); unum_min(f[0], 65535); ok_sp();
    let e = Seq::<Seq<char>>::empty();
    if f.len() == 1 { assert(f =~= e.push(f[0])); sum_push(e, f[0]); }
    else {
        let (a, b, c) = (f[1], f[2], f[3]); assert(f =~= e.push(f[0]).push(a).push(b).push(c)); sum_push(e, f[0]); sum_push(e.push(f[0]), a); sum_push(e.push(f[0]).push(a), b); sum_push(e.push(f[0]).push(a).push(b), c);
        assert(okall(a) && okall(b) && okall(c));
        blen_cat(n, " "@); blen_cat(n + " "@, a); blen_cat(n + " "@ + a, " "@); blen_cat(n + " "@ + a + " "@, b); blen_cat(n + " "@ + a + " "@ + b, " "@); blen_cat(n + " "@ + a + " "@ + b + " "@, c);
        okall_add(n, " "@); okall_add(n + " "@, a); okall_add(n + " "@ + a, " "@); okall_add(n + " "@ + a + " "@, b); okall_add(n + " "@ + a + " "@ + b, " "@); okall_add(n + " "@ + a + " "@ + b + " "@, c);
    }
}
// ---- attribute lists ----
pub proof fn keep_len(a: Seq<Attribute>, n: Seq<char>) ensures keep(a, n).len() + vals(a, n).len() == a.len(), nnone(keep(a, n), n), atok(a) ==> atok(keep(a, n)) && atok(vals(a, n)) decreases a.len()
{ if a.len() > 0 { let b = a.drop_last(); keep_len(b, n); if atok(a) { assert(a_ok(a[a.len() - 1])); assert forall|i: int| 0 <= i < b.len() implies a_ok(#[trigger] b[i]) by { assert(a_ok(a[i])); } } } }
pub proof fn keep_none(a: Seq<Attribute>, n: Seq<char>, m: Seq<char>) requires nnone(a, m) ensures nnone(keep(a, n), m) decreases a.len()
{ if a.len() > 0 { let b = a.drop_last(); assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).name@ != m by { assert(a[i].name@ != m); } keep_none(b, n, m); assert(a[a.len() - 1].name@ != m); } }
pub proof fn keep_cnone(a: Seq<Attribute>, n: Seq<char>) requires cnone(a) ensures cnone(keep(a, n)) decreases a.len()
{ if a.len() > 0 { let b = a.drop_last(); assert forall|i: int| 0 <= i < b.len() implies !capkey((#[trigger] b[i]).name@) by { assert(!capkey(a[i].name@)); } keep_cnone(b, n); assert(!capkey(a[a.len() - 1].name@)); } }
pub proof fn keepc_len(a: Seq<Attribute>) ensures keepc(a).len() + vals(a, "sqn"@).len() + vals(a, "cdsc"@).len() + pvals(a).len() == a.len(), cnone(keepc(a)), atok(a) ==> atok(keepc(a)) && atok(pvals(a)) decreases a.len()
{ if a.len() > 0 { cnames(); let b = a.drop_last(); keepc_len(b); if atok(a) { assert(a_ok(a[a.len() - 1])); assert forall|i: int| 0 <= i < b.len() implies a_ok(#[trigger] b[i]) by { assert(a_ok(a[i])); } } } }
pub proof fn keepc_none(a: Seq<Attribute>, m: Seq<char>) requires nnone(a, m) ensures nnone(keepc(a), m) decreases a.len()
{ if a.len() > 0 { let b = a.drop_last(); assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).name@ != m by { assert(a[i].name@ != m); } keepc_none(b, m); assert(a[a.len() - 1].name@ != m); } }
/// a capability set that was read is within its limits
pub proof fn cap_in(a: Seq<Attribute>, r: Option<SdpCapabilitySet>) requires atok(a), cap_fits(a), cap_of(a, r) ensures capok(r), capl(r).len() + keepc(a).len() <= a.len()
{
    keepc_len(a);
    if let Some(c) = r {
        let (ds, ps) = (c.descriptions@, c.parameters@);
        assert forall|i: int| 0 <= i < ds.len() implies dok(#[trigger] ds[i]) by { let v = vals(a, "cdsc"@); assert(d_reads(aval(v[i]), Ok(ds[i]))); p20_cdsc(ds[i], Ok(ds[i])); d_fit(ds[i]); }
        assert forall|i: int| 0 <= i < ps.len() implies okstr((#[trigger] ps[i]).value@, 4096) by { let p = pvals(a)[i]; assert(p_is(pvals(a)[i], ps[i])); assert(a_ok(p)); }
    }
}
// ---- stages ----
pub open spec fn mi0(d: MediaDescription) -> bool { m_ok((d.media, d.port, d.port_count, d.proto, d.fmt)) && optok(d.title, 2048) && connok(d.connection) && bwok(d.bandwidth@) && keyok(d.encryption_key) && atok(d.attributes@) }
pub open spec fn mi1(d: MediaDescription) -> bool { mi0(d) && optok(d.mid, 4096) && nnone(d.attributes@, "mid"@) && optl("a=mid:"@, d.mid).len() + d.attributes@.len() <= 100 }
pub open spec fn mi2(d: MediaDescription) -> bool { mi0(d) && optok(d.mid, 4096) && nnone(d.attributes@, "mid"@) && capok(d.capability_set) && cnone(d.attributes@) && optl("a=mid:"@, d.mid).len() + capl(d.capability_set).len() + d.attributes@.len() <= 100 }
pub open spec fn si0(d: SdpSession) -> bool {
    o_ok(d.origin) && okstr(d.session_name@, 1024) && optok(d.session_info, 2048) && optok(d.uri, 2048) && txok(d.emails@, 320) && txok(d.phones@, 32) && connok(d.connection) && bwok(d.bandwidth@) && d.timing@.len() <= 10
    && rpok(d.repeat_times@) && zok(d.time_zones@) && keyok(d.encryption_key) && atok(d.attributes@) && d.media@.len() <= 50
}
pub open spec fn sj0(d: SdpSession) -> bool { si0(d) && d.attributes@.len() <= 100 && forall|i: int| 0 <= i < d.media@.len() ==> mi0(#[trigger] d.media@[i]) && d.media@[i].attributes@.len() <= 100 }
pub open spec fn sj1(d: SdpSession) -> bool { si0(d) && gsok(d.groups@) && nnone(d.attributes@, "group"@) && d.groups@.len() + d.attributes@.len() <= 100 && forall|i: int| 0 <= i < d.media@.len() ==> mi1(#[trigger] d.media@[i]) }
pub open spec fn sj2(d: SdpSession) -> bool { si0(d) && gsok(d.groups@) && nnone(d.attributes@, "group"@) && cnone(d.attributes@) && capok(d.capability_set) && d.groups@.len() + capl(d.capability_set).len() + d.attributes@.len() <= 100 && forall|i: int| 0 <= i < d.media@.len() ==> mi2(#[trigger] d.media@[i]) }
pub proof fn m_1(d: MediaDescription, e: MediaDescription) requires mi0(d), d.attributes@.len() <= 100, md_mid(d, e) ensures mi1(e)
{ let n = "mid"@; keep_len(d.attributes@, n); if let Some(t) = e.mid { let v = vals(d.attributes@, n); assert(a_ok(v[v.len() - 1])); } }
pub proof fn m_2(d: MediaDescription, e: MediaDescription) requires mi1(d), cap_fits(d.attributes@), md_cap(d, e) ensures mi2(e)
{ cap_in(d.attributes@, e.capability_set); keepc_len(d.attributes@); keepc_none(d.attributes@, "mid"@); }
pub proof fn m_3(d: MediaDescription, e: MediaDescription) requires mi2(d), rts_fit(vals(d.attributes@, "rtcp"@)), md_rt(d, e) ensures md_ok(e)
{
    let n = "rtcp"@; keep_len(d.attributes@, n); keep_none(d.attributes@, n, "mid"@); keep_cnone(d.attributes@, n);
    if let Some(t) = e.rtcp { let v = vals(d.attributes@, n); let a = v[v.len() - 1]; assert(a_ok(v[v.len() - 1])); assert(rt_good(v[v.len() - 1])); rt_fit(aval(a), t); }
}
pub proof fn s_1(d: SdpSession, e: SdpSession) requires sj0(d), gm_fits(d), gm_rel(d, e) ensures sj1(e)
{
    let n = "group"@; keep_len(d.attributes@, n); let v = vals(d.attributes@, n);
    assert forall|i: int| 0 <= i < e.groups@.len() implies gok(#[trigger] e.groups@[i]) by { assert(g_reads(aval(v[i]), Ok(e.groups@[i]))); p20_group(e.groups@[i], Ok(e.groups@[i])); g_fit(e.groups@[i]); }
    assert forall|i: int| 0 <= i < e.media@.len() implies mi1(#[trigger] e.media@[i]) by { assert(mi0(d.media@[i])); m_1(d.media@[i], e.media@[i]); }
}
pub proof fn s_2(d: SdpSession, e: SdpSession) requires sj1(d), cap_all(d), cap_rel(d, e) ensures sj2(e)
{
    cap_in(d.attributes@, e.capability_set); keepc_len(d.attributes@); keepc_none(d.attributes@, "group"@);
    assert forall|i: int| 0 <= i < e.media@.len() implies mi2(#[trigger] e.media@[i]) by { assert(mi1(d.media@[i])); assert(cap_fits(d.media@[i].attributes@)); m_2(d.media@[i], e.media@[i]); }
}
pub proof fn s_3(d: SdpSession, e: SdpSession) requires sj2(d), rt_all(d), rt_rel(d, e), s_valid(e) ensures s_ok(e)
{ assert forall|i: int| 0 <= i < e.media@.len() implies md_ok(#[trigger] e.media@[i]) by { assert(mi2(d.media@[i])); assert(rts_fit(vals(d.media@[i].attributes@, "rtcp"@))); m_3(d.media@[i], e.media@[i]); } }
// ---- the lines ----
pub proof fn sel_all(b: Seq<Seq<char>>, k: char, f: spec_fn(Seq<char>) -> bool) requires forall|i: int| 0 <= i < b.len() ==> f(#[trigger] b[i]) ensures forall|i: int| 0 <= i < sel(b, k).len() ==> f(#[trigger] sel(b, k)[i]) && is2(sel(b, k)[i], k) decreases b.len()
{ if b.len() > 0 { let c = b.drop_last(); assert forall|i: int| 0 <= i < c.len() implies f(#[trigger] c[i]) by { assert(f(b[i])); } sel_all(c, k, f); assert(f(b[b.len() - 1]));
    let s0 = sel(c, k); let s1 = sel(b, k);
    assert forall|i: int| 0 <= i < s1.len() implies f(#[trigger] s1[i]) && is2(s1[i], k) by { if i < s0.len() { assert(s1[i] == s0[i]); assert(f(s0[i]) && is2(s0[i], k)); } else { assert(s1[i] == b.last()); } } } }
pub proof fn m_in(b: Seq<Seq<char>>, d: MediaDescription) requires all_m(b), lim_m(b), m_has(b, d) ensures optok(d.title, 2048), connok(d.connection), bwok(d.bandwidth@), keyok(d.encryption_key), atok(d.attributes@), d.attributes@.len() <= 100
{
    reveal(m_has); let f = |l: Seq<char>| good_m(l); assert forall|i: int| 0 <= i < b.len() implies f(#[trigger] b[i]) by { reveal(all_m); }
    sel_all(b, 'i', f);
    if let Some(t) = d.title { let v = sel(b, 'i'); let l = v[v.len() - 1]; assert(f(v[v.len() - 1])); good_is(l); }
    if let Some(t) = d.connection { p20_connection(t, Ok(t)); }
    if let Some(t) = d.encryption_key { p20_key(t, Ok(t)); }
    assert forall|i: int| 0 <= i < d.bandwidth@.len() implies b_ok(#[trigger] d.bandwidth@[i]) by { assert(b_reads(sel(b, 'b')[i], Ok(d.bandwidth@[i]))); p20_bandwidth(d.bandwidth@[i], Ok(d.bandwidth@[i])); }
    assert forall|i: int| 0 <= i < d.attributes@.len() implies a_ok(#[trigger] d.attributes@[i]) by { assert(a_reads(sel(b, 'a')[i], Ok(d.attributes@[i]))); p20_attribute(d.attributes@[i], Ok(d.attributes@[i])); }
}
pub proof fn zs_in(ls: Seq<Seq<char>>, z: Seq<TimeZone>) requires zs_of(ls, z) ensures forall|i: int| 0 <= i < z.len() ==> zone_ok(#[trigger] z[i]) decreases ls.len()
{
    if ls.len() > 0 { let f = wsf(ls.last()); let w = f.len() / 2; let n = z.len() - w; let y = z.take(n); let x = z.skip(n); zs_in(ls.drop_last(), y); ws_tokens(body(ls.last()));
        assert forall|i: int| 0 <= i < z.len() implies zone_ok(#[trigger] z[i]) by { if i < n { assert(zone_ok(y[i])); } else { let j = i - n; assert(x[j] == z[i]); assert(z_pair(f, x[j], j)); assert(f[2 * j + 1].len() > 0 && nows(f[2 * j + 1])); } } }
}
pub open spec fn some_good(l: Seq<char>) -> bool { exists|p: Seq<char>| #[trigger] good_s(p, l) }
pub proof fn s_in(b: Seq<Seq<char>>, d: SdpSession) requires forall|i: int| 0 <= i < b.len() ==> some_good(#[trigger] b[i]), lim_s(b), s_has(b, d)
    ensures optok(d.session_info, 2048), optok(d.uri, 2048), txok(d.emails@, 320), txok(d.phones@, 32), connok(d.connection), bwok(d.bandwidth@), d.timing@.len() <= 10, rpok(d.repeat_times@), zok(d.time_zones@), keyok(d.encryption_key), atok(d.attributes@), d.attributes@.len() <= 100
{
    s_lens(b, d); reveal(lim_s); reveal(s_has); let f = |l: Seq<char>| some_good(l); assert forall|i: int| 0 <= i < b.len() implies f(#[trigger] b[i]) by {}
    sel_all(b, 'i', f); sel_all(b, 'u', f); sel_all(b, 'e', f); sel_all(b, 'p', f);
    if let Some(t) = d.session_info { let v = sel(b, 'i'); let l = v[v.len() - 1]; assert(f(v[v.len() - 1])); let p = choose|p: Seq<char>| #[trigger] good_s(p, l); s_good_is(p, l); }
    if let Some(t) = d.uri { let v = sel(b, 'u'); let l = v[v.len() - 1]; assert(f(v[v.len() - 1])); let p = choose|p: Seq<char>| #[trigger] good_s(p, l); s_good_is(p, l); }
    assert forall|i: int| 0 <= i < d.emails@.len() implies okstr((#[trigger] d.emails@[i])@, 320) by { let l = sel(b, 'e')[i]; assert(f(sel(b, 'e')[i])); let p = choose|p: Seq<char>| #[trigger] good_s(p, l); s_good_is(p, l); }
    assert forall|i: int| 0 <= i < d.phones@.len() implies okstr((#[trigger] d.phones@[i])@, 32) by { let l = sel(b, 'p')[i]; assert(f(sel(b, 'p')[i])); let p = choose|p: Seq<char>| #[trigger] good_s(p, l); s_good_is(p, l); }
    if let Some(t) = d.connection { p20_connection(t, Ok(t)); }
    if let Some(t) = d.encryption_key { p20_key(t, Ok(t)); }
    assert forall|i: int| 0 <= i < d.bandwidth@.len() implies b_ok(#[trigger] d.bandwidth@[i]) by { assert(b_reads(sel(b, 'b')[i], Ok(d.bandwidth@[i]))); p20_bandwidth(d.bandwidth@[i], Ok(d.bandwidth@[i])); }
    assert forall|i: int| 0 <= i < d.repeat_times@.len() implies r_ok(#[trigger] d.repeat_times@[i]) by { assert(r_reads(sel(b, 'r')[i], Ok(d.repeat_times@[i]))); p20_repeat(d.repeat_times@[i], Ok(d.repeat_times@[i])); }
    assert forall|i: int| 0 <= i < d.attributes@.len() implies a_ok(#[trigger] d.attributes@[i]) by { assert(a_reads(sel(b, 'a')[i], Ok(d.attributes@[i]))); p20_attribute(d.attributes@[i], Ok(d.attributes@[i])); }
    zs_in(sel(b, 'z'), d.time_zones@);
}
pub proof fn md_in(ls: Seq<Seq<char>>, i: int, d: MediaDescription) requires md_fits(ls, i), md_reads(ls, i, d) ensures mi0(d), d.attributes@.len() <= 100
{ m_in(blk(ls, i), d); reveal(mhead); let o = (d.media, d.port, d.port_count, d.proto, d.fmt); p20_media(o, Ok(o)); }
pub proof fn raw_in(ls: Seq<Seq<char>>, d: SdpSession) requires s_fits(ls), all_fit(ls), raw_reads(ls, d) ensures sj0(d)
{
    hide(md_fits); hide(md_reads); hide(mi0); hide(sstarts); hide(mend);
    reveal(raw_reads); let e = mend(ls, 3); mend_in(ls, 3); let b = ls.subrange(3, e); let q = sstarts(ls, e);
    assert forall|i: int| 0 <= i < b.len() implies some_good(#[trigger] b[i]) by { reveal(all_s); assert(b[i] == ls[i + 3]); assert(good_s(ls[i + 2], ls[i + 3])); }
    s_in(b, d); reveal(shead); p20_origin(d.origin, Ok(d.origin));
    assert forall|i: int| 0 <= i < d.media@.len() implies mi0(#[trigger] d.media@[i]) && d.media@[i].attributes@.len() <= 100 by { assert(md_reads(ls, q[i], d.media@[i])); assert(md_fits(ls, q[i])); md_in(ls, q[i], d.media@[i]); }
}
/// P20: what was read can be printed: it is within every limit
pub proof fn p20_read(ls: Seq<Seq<char>>, d: SdpSession) requires parsed(ls, d) ensures s_ok(d)
{
    hide(sj0); hide(sj1); hide(sj2); hide(s_ok); hide(gm_fits); hide(gm_rel); hide(cap_all); hide(cap_rel); hide(rt_all); hide(rt_rel); hide(s_fits); hide(all_fit); hide(s_valid);
    let (a, b, c) = choose|a: SdpSession, b: SdpSession, c: SdpSession| raw_reads(ls, a) && gm_fits(a) && #[trigger] gm_rel(a, b) && cap_all(b) && #[trigger] cap_rel(b, c) && rt_all(c) && #[trigger] rt_rel(c, d);
    raw_in(ls, a); s_1(a, b); s_2(b, c); s_3(c, d);
}
/// P20: a description that was read, printed and read again is the same description
pub proof fn p20_again(t: Seq<char>, d: SdpSession) requires parsed(lines_of(t), d)
    ensures !refused(lines_of(s_text(d))), forall|e: SdpSession| #[trigger] parsed(lines_of(s_text(d)), e) ==> s_same(d, e)
{ hide(parsed); hide(refused); hide(s_ok); hide(s_text); hide(lines_of); p20_read(lines_of(t), d); p20_text(d); }
}
}
