//@rewrite $u . chars ( ) . find ( | c | matches ! ( c , $*p ) ) ==> { let cs__ = $u.x_chars(); let mut f__: Option<char> = None; let mut i__: usize = 0; while i__ < cs__.len() { let c = cs__[i__]; if matches!(c, $p) { f__ = Some(c); break; } i__ += 1; } f__ }
//@rewrite . chars ( ) . all ( | c | c . is_ascii_digit ( ) ) ==> .x_all_digits()
//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite BTreeMap < SmolStr , Option < SmolStr > > ==> BMap<Option<SmolStr>>
//@rewrite BTreeMap < SmolStr , SmolStr > ==> BMap<SmolStr>
//@rewrite host . parse :: < std :: net :: Ipv6Addr > ( ) . map_err ( $*c ) ==> x_ip6(host).x_else(UriError::InvalidHost(String::new()))
//@rewrite percent_decode_str ( $*x ) . decode_utf8 ( ) . map_err ( $*c ) ==> x_pct_utf8($x).x_else(UriError::PercentDecodingError(String::new()))
//@rewrite SmolStr :: new ( $*e . to_ascii_lowercase ( ) ) ==> SmolStr::from_string($e.to_ascii_lowercase())
//@rewrite SmolStr :: new ( & * decoded ) ==> SmolStr::new(decoded.as_str())
//@rewrite validate_user ( & decoded ) ==> validate_user(decoded.as_str())
//@rewrite SmolStr :: new ( decoded_host ) ==> SmolStr::from_string(decoded_host)
//@rewrite validate_host ( & decoded_host ) ==> validate_host(decoded_host.as_str())
//@rewrite addr_part . split ( ';' ) ==> addr_part.x_split_it(';')
//@rewrite for param in addr_iter { $*b } ==> while let Some(param) = addr_iter.next() { $b }
//@rewrite for pair in headers_part . split ( '&' ) { $*b } ==> let mut it__ = headers_part.x_split_it('&'); while let Some(pair) = it__.next() { $b }
//@rewrite input . rfind ( ':' ) ==> input.x_rfind_c(':')
//@rewrite input . matches ( ':' ) . count ( ) ==> input.x_count_c(':')
//@rewrite input . split_at ( idx ) ==> (input.x_to(idx), input.x_from(idx))
//@rewrite port_str [ 1 .. ] . $m ==> port_str.x_from(1).$m
//@rewrite & input [ 1 .. end ] ==> input.x_sub(1, end)
//@rewrite & input [ end + 1 .. ] ==> input.x_from(end + 1)
//@rewrite digits . parse ( ) ==> digits.xp_u16()
//@rewrite port_str . x_from ( 1 ) . parse ( ) ==> port_str.x_from(1).xp_u16()
//@rewrite out . push_str ( & port . to_string ( ) ) ==> out.x_fmt(&port)
//@rewrite out . push_str ( & utf8_percent_encode ( $*a , USER_ESCAPE ) . to_string ( ) ) ==> out.x_push(x_pct_enc($a, esc__).as_str())
//@rewrite USER_ESCAPE : & AsciiSet = & NON_ALPHANUMERIC ==> USER_ESCAPE: AsciiSet = x_nonalnum()
//@rewrite out . push_str ( $*s ) ==> out.x_push($s)
//@rewrite out . push ( $*c ) ==> out.x_pushc($c)
//@rewrite SmolStr :: new ( out ) ==> { proof { assert(out@ =~= o1(*uri, esc__@) + ptail(uri.params.ks(), uv(*uri).params) + htext(uri.headers.ks(), uv(*uri).headers)); built(*uri, out@, esc__@); } SmolStr::from_string(out) }
//@rewrite let $x = $x . into ( ) ; ==> let $x = $x.to_smol();
//@rewrite SmolStr :: default ( ) ==> SmolStr::new("")
//@rewrite . map_err ( | e | UriError :: InvalidFormat ( e . to_string ( ) ) ) ==> .x_else(UriError::InvalidFormat(String::new()))
//@include errx
//@include strit
//@include fmt
verus! {
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, sx::ws_ascii, sx::ctrl_ascii, st::str_bytes_bound};
/// what the URI code takes from its dependencies (assumed contracts)
pub mod pct {
    use super::*;
    use vstd::utf8::*;
    /// the text these bytes encode, if they are UTF-8
    pub open spec fn utf8(b: Seq<u8>) -> Option<Seq<char>> { if exists|t: Seq<char>| #[trigger] encode_utf8(t) == b { Some(choose|t: Seq<char>| #[trigger] encode_utf8(t) == b) } else { None } }
    pub proof fn utf8_of(t: Seq<char>) ensures utf8(encode_utf8(t)) == Some(t)
    { let u = choose|u: Seq<char>| #[trigger] encode_utf8(u) == encode_utf8(t); encode_utf8_decode_utf8(t); encode_utf8_decode_utf8(u); }
    pub open spec fn hexv(b: u8) -> Option<int> { if 48 <= b <= 57 { Some(b - 48) } else if 65 <= b <= 70 { Some(b - 55) } else if 97 <= b <= 102 { Some(b - 87) } else { None } }
    /// percent decoding: %XY is one byte; a % not followed by two hex digits stands for itself
    pub open spec fn pdec(b: Seq<u8>) -> Seq<u8> decreases b.len() {
        if b.len() == 0 { b }
        else if b[0] == 37 && b.len() >= 3 && hexv(b[1]).is_some() && hexv(b[2]).is_some() { seq![(hexv(b[1])->0 * 16 + hexv(b[2])->0) as u8] + pdec(b.skip(3)) }
        else { seq![b[0]] + pdec(b.skip(1)) }
    }
    pub open spec fn hexd(n: int) -> char { if n < 10 { (48 + n) as u8 as char } else { (55 + n) as u8 as char } }
    /// percent encoding: bytes of the set, and all bytes that are not ASCII, become %XY
    pub open spec fn penc(b: Seq<u8>, esc: Set<u8>) -> Seq<char> decreases b.len() {
        if b.len() == 0 { Seq::empty() }
        else { (if b[0] >= 128 || esc.contains(b[0]) { seq!['%', hexd(b[0] as int / 16), hexd(b[0] as int % 16)] } else { seq![b[0] as char] }) + penc(b.skip(1), esc) }
    }
    /// the decoded text, if it is UTF-8
    pub open spec fn pct_utf8(s: Seq<char>) -> Option<Seq<char>> { utf8(pdec(encode_utf8(s))) }
    #[verifier::external_body] pub fn x_pct_utf8(s: &str) -> (r: Result<String, NumErr>) ensures match r { Ok(t) => pct_utf8(s@) == Some(t@), Err(_) => pct_utf8(s@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub struct AsciiSet { x: u128 }
    impl View for AsciiSet { type V = Set<u8>; uninterp spec fn view(&self) -> Set<u8>; }
    impl AsciiSet { #[verifier::external_body] pub const fn remove(&self, b: u8) -> (r: AsciiSet) ensures r@ == self@.remove(b) { AsciiSet { x: 0 } } }
    pub open spec fn alnum_b(b: u8) -> bool { (48 <= b <= 57) || (65 <= b <= 90) || (97 <= b <= 122) }
    pub uninterp spec fn nonalnum() -> Set<u8>;
    pub broadcast axiom fn nonalnum_is(b: u8) ensures #[trigger] nonalnum().contains(b) == (b < 128 && !alnum_b(b));
    #[verifier::external_body] pub const fn x_nonalnum() -> (r: AsciiSet) ensures r@ == nonalnum() { AsciiSet { x: 0 } }
    #[verifier::external_body] pub fn x_pct_enc(s: &str, esc: AsciiSet) -> (r: String) ensures r@ == penc(encode_utf8(s@), esc@) { unimplemented!() }
    /// std::net::Ipv6Addr::from_str: which texts it accepts is not decided here, except that they are made
    /// of hex digits, colons and dots, whatever the case of the digits
    pub uninterp spec fn ip6(s: Seq<char>) -> bool;
    pub open spec fn ip6c(c: char) -> bool { is_hex(c) || c == ':' || c == '.' }
    pub broadcast axiom fn ip6_chars(s: Seq<char>) ensures #[trigger] ip6(s) ==> s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> ip6c(#[trigger] s[i]);
    pub axiom fn ip6_case(s: Seq<char>) ensures ip6(s) ==> ip6(lower(s));
    #[verifier::external_body] pub fn x_ip6(s: &str) -> (r: Result<(), NumErr>) ensures r.is_ok() == ip6(s@) { unimplemented!() }
    pub open spec fn cnt(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
    pub open spec fn only_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub trait XMore { spec fn mv(&self) -> Seq<char>;
        fn x_all_digits(&self) -> (r: bool) ensures r == only_digits(self.mv());
        /// matches(c).count()
        fn x_count_c(&self, c: char) -> (r: usize) ensures r as nat == cnt(self.mv(), c); }
    impl XMore for str { open spec fn mv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_all_digits(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn x_count_c(&self, c: char) -> (r: usize) { unimplemented!() } }
    pub trait XPushC { spec fn pcv(&self) -> Seq<char>; fn x_pushc(&mut self, c: char) ensures final(self).pcv() == old(self).pcv().push(c); }
    impl XPushC for String { open spec fn pcv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_pushc(&mut self, c: char) { unimplemented!() } }
    impl<V> BMap<V> { #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() } }
}
use pct::*;
use vstd::utf8::encode_utf8;

// ---- what the parts of a SIP URI may be ---------------------------------------------------------------
pub open spec fn hostc(c: char) -> bool { is_alnum(c) || c == '.' || c == '-' || c == '_' }
/// a host name, IPv4 address or IPv6 address (without brackets)
#[verifier::opaque]
pub open spec fn host_ok(s: Seq<char>) -> bool {
    s.len() > 0 && blen(s) <= 256 && if occ(s, Pat::C(':')) { ip6(s) } else { forall|i: int| 0 <= i < s.len() ==> hostc(#[trigger] s[i]) }
}
pub open spec fn udelim(c: char) -> bool { c == '@' || c == ';' || c == '?' || c == '/' || c == '#' || c == '[' || c == ']' }
#[verifier::opaque]
pub open spec fn user_ok(s: Seq<char>) -> bool { s.len() > 0 && blen(s) <= 256 && !has_ctrl(s) && forall|i: int| 0 <= i < s.len() ==> !udelim(#[trigger] s[i]) }
pub open spec fn utok(c: char) -> bool { is_alnum(c) || c == '-' || c == '.' || c == '!' || c == '%' || c == '*' || c == '_' || c == '+' || c == '`' || c == '\'' || c == '~' }
/// names of parameters and headers
#[verifier::opaque]
pub open spec fn pname_ok(s: Seq<char>) -> bool { s.len() > 0 && blen(s) <= 64 && forall|i: int| 0 <= i < s.len() ==> utok(#[trigger] s[i]) }
pub open spec fn pvalc(c: char) -> bool { !is_ctrl(c) && !is_ws(c) && c != ';' && c != '?' && c != '@' }
#[verifier::opaque]
pub open spec fn pval_ok(s: Seq<char>) -> bool { blen(s) <= 256 && forall|i: int| 0 <= i < s.len() ==> pvalc(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn hval_ok(s: Seq<char>) -> bool { blen(s) <= 512 && forall|i: int| 0 <= i < s.len() ==> !is_ctrl(#[trigger] s[i]) && !is_ws(s[i]) }

// ---- what a text says: the reading of a SIP URI ----------------------------------------------------------
/// the parts of a SIP URI
pub ghost struct SU { pub sips: bool, pub user: Option<Seq<char>>, pub host: Seq<char>, pub port: Option<nat>, pub params: Map<Seq<char>, Option<Seq<char>>>, pub headers: Map<Seq<char>, Seq<char>> }
/// the text up to the first c, and what follows that c
#[verifier::opaque]
pub open spec fn cut(s: Seq<char>, c: char) -> (Seq<char>, Option<Seq<char>>) {
    if occ(s, Pat::C(c)) { (s.take(fidx(s, Pat::C(c))), Some(s.skip(fidx(s, Pat::C(c)) + 1))) } else { (s, None) }
}
pub open spec fn pkv(m: Map<Seq<char>, Option<Seq<char>>>, k0: Seq<char>, v0: Seq<char>) -> Option<Map<Seq<char>, Option<Seq<char>>>> {
    if pname_ok(trim_s(k0)) && pval_ok(trim_s(v0)) { Some(m.insert(lower(trim_s(k0)), Some(trim_s(v0)))) } else { None }
}
#[verifier::opaque]
pub open spec fn pstep(m: Map<Seq<char>, Option<Seq<char>>>, seg: Seq<char>) -> Option<Map<Seq<char>, Option<Seq<char>>>> {
    let p = trim_s(seg);
    if p.len() == 0 { Some(m) } else {
        match cut(p, '=') {
            (k0, Some(v0)) => pkv(m, k0, v0),
            (k0, None) => if pname_ok(p) { Some(m.insert(lower(p), None)) } else { None }
        }
    }
}
/// parameters written as these pieces (at most 50; of two with one name the later stands)
pub open spec fn pfold(fs: Seq<Seq<char>>) -> Option<Map<Seq<char>, Option<Seq<char>>>> decreases fs.len() {
    if fs.len() == 0 { Some(Map::empty()) } else { match pfold(fs.drop_last()) { Some(m) => if m.dom().len() >= 50 { None } else { pstep(m, fs.last()) }, None => None } }
}
pub open spec fn hkv(m: Map<Seq<char>, Seq<char>>, k0: Seq<char>, v0: Seq<char>) -> Option<Map<Seq<char>, Seq<char>>> {
    if pname_ok(trim_s(k0)) && hval_ok(trim_s(v0)) { Some(m.insert(lower(trim_s(k0)), trim_s(v0))) } else { None }
}
#[verifier::opaque]
pub open spec fn hstep(m: Map<Seq<char>, Seq<char>>, seg: Seq<char>) -> Option<Map<Seq<char>, Seq<char>>> {
    if seg.len() == 0 { Some(m) } else {
        match cut(seg, '=') {
            (k0, Some(v0)) => hkv(m, k0, v0),
            (k0, None) => None
        }
    }
}
pub open spec fn hfold(fs: Seq<Seq<char>>) -> Option<Map<Seq<char>, Seq<char>>> decreases fs.len() {
    if fs.len() == 0 { Some(Map::empty()) } else { match hfold(fs.drop_last()) { Some(m) => if m.dom().len() >= 50 { None } else { hstep(m, fs.last()) }, None => None } }
}
/// host and port: "[" IPv6 "]" or a name, then ":" and digits
pub open spec fn hostport(s: Seq<char>) -> Option<(Seq<char>, Option<nat>)> {
    if s.len() > 0 && s[0] == '[' {
        if !occ(s, Pat::C(']')) { None } else {
            let e = fidx(s, Pat::C(']')); let h = s.subrange(1, e); let rem = s.skip(e + 1);
            if rem.len() == 0 { Some((h, None)) }
            else if rem[0] == ':' && all_digits(rem.skip(1)) && dec(rem.skip(1)) <= 65535 { Some((h, Some(dec(rem.skip(1))))) }
            else { None }
        }
    } else if occ(s, Pat::C(':')) {
        let i = lidx(s, Pat::C(':')); let d = s.skip(i + 1);
        if cnt(s, ':') > 1 { None }
        else if all_digits(d) { if dec(d) <= 65535 { Some((s.take(i), Some(dec(d)))) } else { None } }
        else { Some((s, None)) }
    } else { Some((s, None)) }
}
/// the user part as written: percent-encoded
#[verifier::opaque]
pub open spec fn user_part(u: Option<Seq<char>>) -> Option<Option<Seq<char>>> {
    match u { None => Some(None), Some(t) => match pct_utf8(trim_s(t)) { Some(d) => if user_ok(d) { Some(Some(d)) } else { None }, None => None } }
}
#[verifier::opaque]
pub open spec fn host_part(base: Seq<char>) -> Option<(Seq<char>, Option<nat>)> {
    if base.len() == 0 { None } else { match hostport(base) {
        None => None,
        Some((h0, p)) => match pct_utf8(h0) {
            None => None,
            Some(d) => { let h = lower(d); if host_ok(h) && occ(h, Pat::C(':')) == (base[0] == '[') && p != Some(0nat) { Some((h, p)) } else { None } }
        }
    } }
}
pub open spec fn hdr_part(h: Option<Seq<char>>) -> Option<Map<Seq<char>, Seq<char>>> { match h { None => Some(Map::empty()), Some(t) => hfold(fields(t, '&')) } }
pub open spec fn sip_s() -> Seq<char> { "sip"@ }
pub open spec fn sips_s() -> Seq<char> { "sips"@ }
pub open spec fn is_sip_scheme(s: Seq<char>) -> bool { eq_ci(s, sip_s()) || eq_ci(s, sips_s()) }
#[verifier::opaque]
pub open spec fn asm(sips: bool, up: Option<Seq<char>>, addr: Seq<char>, h: Option<Seq<char>>) -> Option<SU> {
    let fs = fields(addr, ';');
    match (pfold(fs.skip(1)), user_part(up), host_part(trim_s(fs[0])), hdr_part(h)) {
        (Some(params), Some(user), Some(hp), Some(headers)) => Some(SU { sips, user, host: hp.0, port: hp.1, params, headers }),
        _ => None
    }
}
/// everything after the scheme
pub open spec fn sip_rest(sips: bool, rest: Seq<char>) -> Option<SU> {
    let up = match cut(rest, '@') { (a, Some(b)) => (Some(a), b), (a, None) => (None, a) };
    let ah = cut(up.1, '?');
    asm(sips, up.0, ah.0, ah.1)
}
/// what the text says, if it is a SIP URI
pub open spec fn sip_parse(x: Seq<char>) -> Option<SU> {
    if has_ctrl(x) || blen(x) > 2048 { None } else {
        match cut(x, ':') {
            (sch, Some(rest)) => if is_sip_scheme(sch) { sip_rest(eq_ci(sch, sips_s()), rest) } else { None }
            (sch, None) => None
        }
    }
}
//@file crates/sip-core/src/uri.rs
//@struct SipUri
//@enum UriError
//@const MAX_URI_LENGTH
//@const MAX_USER_LENGTH
//@const MAX_HOST_LENGTH
//@const MAX_PARAM_NAME_LENGTH
//@const MAX_PARAM_VALUE_LENGTH
//@const MAX_HEADER_NAME_LENGTH
//@const MAX_HEADER_VALUE_LENGTH
//@const MAX_PARAMS
//@const MAX_HEADERS
//@const MAX_ABSOLUTE_URI_LENGTH
pub open spec fn ov(o: Option<SmolStr>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn onat(o: Option<u16>) -> Option<nat> { match o { Some(v) => Some(v as nat), None => None } }
pub open spec fn pmap(m: Map<Seq<char>, Option<SmolStr>>) -> Map<Seq<char>, Option<Seq<char>>> { Map::new(m.dom(), |k: Seq<char>| ov(m[k])) }
pub open spec fn hmap(m: Map<Seq<char>, SmolStr>) -> Map<Seq<char>, Seq<char>> { Map::new(m.dom(), |k: Seq<char>| m[k]@) }
/// the parts of a URI value
pub open spec fn uv(u: SipUri) -> SU { SU { sips: u.sips, user: ov(u.user), host: u.host@, port: onat(u.port), params: pmap(u.params@), headers: hmap(u.headers@) } }
pub proof fn pmap_ins(m: Map<Seq<char>, Option<SmolStr>>, k: Seq<char>, v: Option<SmolStr>) ensures pmap(m.insert(k, v)) == pmap(m).insert(k, ov(v)), pmap(m).dom() == m.dom()
{ assert(pmap(m.insert(k, v)) =~= pmap(m).insert(k, ov(v))); assert(pmap(m).dom() =~= m.dom()); }
pub proof fn hmap_ins(m: Map<Seq<char>, SmolStr>, k: Seq<char>, v: SmolStr) ensures hmap(m.insert(k, v)) == hmap(m).insert(k, v@), hmap(m).dom() == m.dom()
{ assert(hmap(m.insert(k, v)) =~= hmap(m).insert(k, v@)); assert(hmap(m).dom() =~= m.dom()); }
pub proof fn empties() ensures pmap(Map::empty()) == Map::<Seq<char>, Option<Seq<char>>>::empty(), hmap(Map::empty()) == Map::<Seq<char>, Seq<char>>::empty()
{ assert(pmap(Map::empty()) =~= Map::<Seq<char>, Option<Seq<char>>>::empty()); assert(hmap(Map::empty()) =~= Map::<Seq<char>, Seq<char>>::empty()); }
/// pieces already refused stay refused
pub proof fn pfold_none(fs: Seq<Seq<char>>, i: int) requires 0 <= i <= fs.len(), pfold(fs.take(i)).is_none() ensures pfold(fs).is_none() decreases fs.len()
{ if i < fs.len() { assert(fs.drop_last().take(i) =~= fs.take(i)); pfold_none(fs.drop_last(), i); } else { assert(fs.take(i) =~= fs); } }
pub proof fn hfold_none(fs: Seq<Seq<char>>, i: int) requires 0 <= i <= fs.len(), hfold(fs.take(i)).is_none() ensures hfold(fs).is_none() decreases fs.len()
{ if i < fs.len() { assert(fs.drop_last().take(i) =~= fs.take(i)); hfold_none(fs.drop_last(), i); } else { assert(fs.take(i) =~= fs); } }

// ---- the functions that check one part --------------------------------------------------------------------
//@fn validate_host
@fmt
    ensures r.is_ok() == host_ok(host@),
@entry
    broadcast use {ip6_chars};
    proof { reveal(host_ok); blen_len(host@); host_ctrl(host@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> hostc(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == host@,
    ensures f__ == (forall|j: int| 0 <= j < host@.len() ==> hostc(#[trigger] host@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_user
@fmt
    ensures r.is_ok() == user_ok(user@),
@entry
    proof { reveal(user_ok); blen_len(user@); }
@loop 1
    invariant_except_break f__.is_none(), forall|j: int| 0 <= j < i__ ==> !udelim(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == user@,
    ensures f__.is_none() == (forall|j: int| 0 <= j < user@.len() ==> !udelim(#[trigger] user@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_port
    ensures r.is_ok() == (port > 0),
//@end
//@fn is_token_char
    ensures r == utok(c),
//@end
//@fn validate_param_name
    ensures r.is_ok() == pname_ok(name@),
@entry
    proof { reveal(pname_ok); blen_len(name@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> utok(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == !(forall|j: int| 0 <= j < name@.len() ==> utok(#[trigger] name@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_param_value
    ensures r.is_ok() == pval_ok(value@),
@entry
    proof { reveal(pval_ok); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> pvalc(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == value@, !has_ctrl(value@),
    ensures f__ == !(forall|j: int| 0 <= j < value@.len() ==> pvalc(#[trigger] value@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_header_name
    ensures r.is_ok() == pname_ok(name@),
@entry
    proof { reveal(pname_ok); blen_len(name@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> utok(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == !(forall|j: int| 0 <= j < name@.len() ==> utok(#[trigger] name@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_header_value
    ensures r.is_ok() == hval_ok(value@),
@entry
    proof { reveal(hval_ok); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_ctrl(#[trigger] cs__@[j]) && !is_ws(cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == value@,
    ensures f__ == !(forall|j: int| 0 <= j < value@.len() ==> !is_ctrl(#[trigger] value@[j]) && !is_ws(value@[j])),
    decreases cs__@.len() - i__,
//@end
proof fn host_ctrl(s: Seq<char>) ensures host_ok(s) ==> !has_ctrl(s)
{
    broadcast use {ip6_chars}; reveal(host_ok);
    if host_ok(s) && has_ctrl(s) { let i = choose|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]); if occ(s, Pat::C(':')) { assert(ip6c(s[i])); } else { assert(hostc(s[i])); } }
}

// ---- reading -------------------------------------------------------------------------------------------------
proof fn port_hint(s: Seq<char>, t: Seq<char>, i: int)
    requires 0 <= i < s.len(), t == s.skip(i), s[i] == ':', i == lidx(s, Pat::C(':'))
    ensures t.skip(1) == s.skip(i + 1), blen(t) > 1 <==> t.len() > 1, bnd(t, 1), cidx(t, 1) == 1
{
    assert(t.skip(1) =~= s.skip(i + 1));
    blen_first(t); blen_len(t.drop_first());
    at_zero(t); step_ascii(t, 0);
}
//@fn split_host_port
@rewrite let ( host , port_str ) = $*p ; ==> let (host, port_str) = $p; proof { port_hint(input@, port_str@, cidx(input@, idx as int)); }
    ensures match r { Ok((h, p)) => hostport(input@) == Some((h@, onat(p))), Err(_) => hostport(input@).is_none() },
@entry
    broadcast use {sx::first_is, sx::last_is, sl::at_zero, sl::step_ascii};
//@end
pub proof fn cut_none(s: Seq<char>, c: char) requires !occ(s, Pat::C(c)) ensures cut(s, c) == (s, None::<Seq<char>>) { reveal(cut); }
pub proof fn cut_some(s: Seq<char>, c: char, n: int) requires first(s, Pat::C(c), n) ensures cut(s, c) == (s.take(n), Some(s.skip(n + 1))) { reveal(cut); first_is(s, Pat::C(c), n); }
pub broadcast proof fn cut_is(s: Seq<char>, c: char, n: int) requires #[trigger] first(s, Pat::C(c), n) ensures cut(s, c) == (s.take(n), Some(s.skip(n + 1))) { cut_some(s, c, n); }
pub proof fn pstep_is(m: Map<Seq<char>, Option<Seq<char>>>, seg: Seq<char>)
    ensures trim_s(seg).len() == 0 ==> pstep(m, seg) == Some(m),
        trim_s(seg).len() > 0 && !occ(trim_s(seg), Pat::C('=')) ==> pstep(m, seg) == (if pname_ok(trim_s(seg)) { Some(m.insert(lower(trim_s(seg)), None)) } else { None }),
        trim_s(seg).len() > 0 ==> forall|n: int| #[trigger] first(trim_s(seg), Pat::C('='), n) ==> pstep(m, seg) == pkv(m, trim_s(seg).take(n), trim_s(seg).skip(n + 1)),
{ let p = trim_s(seg); reveal(pstep); if !occ(p, Pat::C('=')) { cut_none(p, '='); } assert forall|n: int| #[trigger] first(p, Pat::C('='), n) && p.len() > 0 implies pstep(m, seg) == pkv(m, p.take(n), p.skip(n + 1)) by { cut_some(p, '=', n); } }
pub proof fn hstep_is(m: Map<Seq<char>, Seq<char>>, p: Seq<char>)
    ensures p.len() == 0 ==> hstep(m, p) == Some(m),
        p.len() > 0 && !occ(p, Pat::C('=')) ==> hstep(m, p).is_none(),
        p.len() > 0 ==> forall|n: int| #[trigger] first(p, Pat::C('='), n) ==> hstep(m, p) == hkv(m, p.take(n), p.skip(n + 1)),
{ reveal(hstep); if !occ(p, Pat::C('=')) { cut_none(p, '='); } assert forall|n: int| #[trigger] first(p, Pat::C('='), n) && p.len() > 0 implies hstep(m, p) == hkv(m, p.take(n), p.skip(n + 1)) by { cut_some(p, '=', n); } }
pub proof fn asm_none(sips: bool, up: Option<Seq<char>>, addr: Seq<char>, h: Option<Seq<char>>)
    ensures pfold(fields(addr, ';').skip(1)).is_none() ==> asm(sips, up, addr, h).is_none(), user_part(up).is_none() ==> asm(sips, up, addr, h).is_none(),
        host_part(trim_s(fields(addr, ';')[0])).is_none() ==> asm(sips, up, addr, h).is_none(), hdr_part(h).is_none() ==> asm(sips, up, addr, h).is_none(),
        match (pfold(fields(addr, ';').skip(1)), user_part(up), host_part(trim_s(fields(addr, ';')[0])), hdr_part(h)) {
            (Some(params), Some(user), Some(hp), Some(headers)) => asm(sips, up, addr, h) == Some(SU { sips, user, host: hp.0, port: hp.1, params, headers }), _ => true }
{ reveal(asm); }
/// what the code has cut out of the text so far, and what the text then says
pub proof fn cuts(x: Seq<char>, rest: Seq<char>, n: int, sips: bool, up: Option<Seq<char>>, r2: Seq<char>, addr: Seq<char>, h: Option<Seq<char>>)
    requires !has_ctrl(x), blen(x) <= 2048, first(x, Pat::C(':'), n), is_sip_scheme(x.take(n)), sips == eq_ci(x.take(n), sips_s()), rest == x.skip(n + 1),
        match up { Some(a) => first(rest, Pat::C('@'), a.len() as int) && a == rest.take(a.len() as int) && r2 == rest.skip(a.len() as int + 1), None => !occ(rest, Pat::C('@')) && r2 == rest },
        match h { Some(b) => first(r2, Pat::C('?'), addr.len() as int) && addr == r2.take(addr.len() as int) && b == r2.skip(addr.len() as int + 1), None => !occ(r2, Pat::C('?')) && addr == r2 },
    ensures sip_parse(x) == asm(sips, up, addr, h)
{
    cut_some(x, ':', n);
    match up { Some(a) => { cut_some(rest, '@', a.len() as int); } None => { cut_none(rest, '@'); } }
    match h { Some(b) => { cut_some(r2, '?', addr.len() as int); } None => { cut_none(r2, '?'); } }
}
pub proof fn user_is(t: Seq<char>) ensures user_part(Some(t)) == (match pct_utf8(trim_s(t)) { Some(d) => if user_ok(d) { Some(Some(d)) } else { None }, None => None }), user_part(None) == Some(None::<Seq<char>>) { reveal(user_part); }
pub mod pa {
use super::*;
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sl::fields_some, sm::smol_ext, cut_is};
impl SipUri {
//@fn SipUri::parse
@fmt
@rewrite let mut addr_iter = addr_part . x_split_it ( ';' ) ; ==> proof { cuts(input@, rest0__@, scheme@.len() as int, sips, match user_part { Some(t) => Some(t@), None => None }, rest@, addr_part@, match headers_part { Some(t) => Some(t@), None => None }); asm_none(sips, match user_part { Some(t) => Some(t@), None => None }, addr_part@, match headers_part { Some(t) => Some(t@), None => None }); let fs = fields(addr_part@, ';'); assert(fs.skip(1).take(fs.len() - 1) =~= fs.skip(1)); assert(fs.skip(1).take(0) =~= Seq::empty()); user_is(match user_part { Some(t) => t@, None => Seq::empty() }); } let mut addr_iter = addr_part.x_split_it(';');
@rewrite let ( user_part , rest ) = match ==> let ghost rest0__ = rest; let (user_part, rest) = match
@rewrite let mut it__ = headers_part . x_split_it ( '&' ) ; ==> proof { let fs = fields(headers_part@, '&'); assert(fs.take(fs.len() as int) =~= fs); assert(fs.take(0) =~= Seq::empty()); } let mut it__ = headers_part.x_split_it('&');
@rewrite let host_port = base ; ==> let host_port = base; proof { reveal(host_part); }
@rewrite let mut params = BTreeMap :: new ( ) ==> let mut params: BMap<Option<SmolStr>> = BMap::new()
@rewrite let mut headers = BTreeMap :: new ( ) ==> let mut headers: BMap<SmolStr> = BMap::new()
    ensures match r { Ok(u) => u.raw@ == input@ && sip_parse(input@) == Some(uv(u)), Err(_) => sip_parse(input@).is_none() },
@entry
    proof { empties(); if !occ(input@, Pat::C(':')) { cut_none(input@, ':'); } }
@loop 1
    invariant addr_iter.wf(), views(addr_iter.v@) == fields(addr_part@, ';'), addr_iter.i >= 1, pfold(fields(addr_part@, ';').skip(1)).is_none() ==> sip_parse(input@).is_none(), fields(addr_part@, ';').skip(1).take(fields(addr_part@, ';').len() - 1) == fields(addr_part@, ';').skip(1), pfold(fields(addr_part@, ';').skip(1).take(addr_iter.i - 1)) == Some(pmap(params@)),
    ensures pfold(fields(addr_part@, ';').skip(1)) == Some(pmap(params@)),
    decreases addr_iter.v@.len() - addr_iter.i,
@loopbody 1
    proof { let fs = fields(addr_part@, ';').skip(1); let n = addr_iter.i - 1; pstep_is(pmap(params@), param@); assert(fs.take(n).drop_last() =~= fs.take(n - 1)); assert(fs.take(n).last() == param@); assert(pfold(fs.take(n)).is_none() ==> pfold(fs).is_none()) by { if pfold(fs.take(n)).is_none() { pfold_none(fs, n); } }
        assert forall|k: Seq<char>, v: Option<SmolStr>| true implies #[trigger] pmap(params@.insert(k, v)) == pmap(params@).insert(k, ov(v)) by { pmap_ins(params@, k, v); } pmap_ins(params@, param@, None); }
@loop 2
    invariant it__.wf(), views(it__.v@) == fields(headers_part@, '&'), hfold(fields(headers_part@, '&')).is_none() ==> sip_parse(input@).is_none(), fields(headers_part@, '&').take(fields(headers_part@, '&').len() as int) == fields(headers_part@, '&'), hfold(fields(headers_part@, '&').take(it__.i as int)) == Some(hmap(headers@)),
    ensures hfold(fields(headers_part@, '&')) == Some(hmap(headers@)),
    decreases it__.v@.len() - it__.i,
@loopbody 2
    proof { let hs = fields(headers_part@, '&'); hstep_is(hmap(headers@), pair@); assert(hs.take(it__.i as int).drop_last() =~= hs.take(it__.i - 1)); assert(hs.take(it__.i as int).last() == pair@); assert(hfold(hs.take(it__.i as int)).is_none() ==> hfold(hs).is_none()) by { if hfold(hs.take(it__.i as int)).is_none() { hfold_none(hs, it__.i as int); } }
        assert forall|k: Seq<char>, v: SmolStr| true implies #[trigger] hmap(headers@.insert(k, v)) == hmap(headers@).insert(k, v@) by { hmap_ins(headers@, k, v); } hmap_ins(headers@, pair@, arbitrary()); }
//@end
}
}

// ---- printing from the parts ---------------------------------------------------------------------------------
pub open spec fn ch(c: char) -> Seq<char> { seq![c] }
pub open spec fn seg(k: Seq<char>, v: Option<Seq<char>>) -> Seq<char> { match v { Some(x) => k + ch('=') + x, None => k } }
pub open spec fn ptail(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) -> Seq<char> decreases ks.len()
{ if ks.len() == 0 { Seq::empty() } else { ptail(ks.drop_last(), m) + ch(';') + seg(ks.last(), m[ks.last()]) } }
pub open spec fn hjoin(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) -> Seq<char> decreases ks.len()
{ if ks.len() == 0 { Seq::empty() } else { hjoin(ks.drop_last(), m) + (if ks.len() > 1 { ch('&') } else { Seq::empty() }) + (ks.last() + ch('=') + m[ks.last()]) } }
pub open spec fn htext(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) -> Seq<char> { if ks.len() == 0 { Seq::empty() } else { ch('?') + hjoin(ks, m) } }
/// what is not percent-encoded in a printed user part
pub open spec fn plainb(b: u8) -> bool { alnum_b(b) || b == 45 || b == 95 || b == 46 || b == 33 || b == 126 || b == 42 || b == 39 || b == 40 || b == 41 || b == 38 || b == 61 || b == 43 || b == 36 || b == 44 || b == 58 }
pub open spec fn esc_ok(e: Set<u8>) -> bool { forall|b: u8| b < 128 ==> #[trigger] e.contains(b) == !plainb(b) }
pub open spec fn utext(u: Option<Seq<char>>, e: Set<u8>) -> Seq<char> { match u { Some(x) => penc(encode_utf8(x), e) + ch('@'), None => Seq::empty() } }
pub open spec fn hosttext(h: Seq<char>) -> Seq<char> { if occ(h, Pat::C(':')) { ch('[') + h + ch(']') } else { h } }
pub open spec fn basetext(h: Seq<char>, p: Option<nat>) -> Seq<char> { hosttext(h) + (match p { Some(n) => ch(':') + dtext(n), None => Seq::empty() }) }
pub open spec fn scheme_of(sips: bool) -> Seq<char> { if sips { sips_s() } else { sip_s() } }
pub open spec fn print(u: SU, ks: Seq<Seq<char>>, hs: Seq<Seq<char>>, e: Set<u8>) -> Seq<char> {
    scheme_of(u.sips) + ch(':') + (utext(u.user, e) + (basetext(u.host, u.port) + ptail(ks, u.params) + htext(hs, u.headers)))
}
/// ks lists the keys of a map, each once
pub open spec fn lists(ks: Seq<Seq<char>>, d: Set<Seq<char>>) -> bool { ks.no_duplicates() && ks.to_set() == d }
/// what the parts of every URI value satisfy
pub open spec fn parts_ok(u: SU) -> bool {
    &&& (u.user matches Some(x) ==> user_ok(x))
    &&& host_ok(u.host) && lower(u.host) == u.host
    &&& (u.port matches Some(p) ==> 0 < p <= 65535)
    &&& u.params.dom().len() <= 50 && (forall|k: Seq<char>| #[trigger] u.params.contains_key(k) ==> pname_ok(k) && lower(k) == k && (u.params[k] matches Some(v) ==> pval_ok(v)))
    &&& u.headers.dom().len() <= 50 && (forall|k: Seq<char>| #[trigger] u.headers.contains_key(k) ==> pname_ok(k) && lower(k) == k && hval_ok(u.headers[k]) && !occ(u.headers[k], Pat::C('&')) && (u.user.is_none() ==> !occ(u.headers[k], Pat::C('@'))))
}
/// a text says these parts: it has no control characters and is read back as exactly them, or it is over the length limit
pub open spec fn says(t: Seq<char>, u: SU) -> bool { !has_ctrl(t) && (blen(t) <= 2048 ==> sip_parse(t) == Some(u)) }
/// the invariant of every SIP URI value: its text is read back as its parts (a text over the length limit is refused)
pub open spec fn sip_inv(u: SipUri) -> bool { parts_ok(uv(u)) && says(u.raw@, uv(u)) }

// characters that do not occur
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lacks_occ(s: Seq<char>, c: char) ensures lacks(s, c) == !occ(s, Pat::C(c))
{ if !lacks(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c; assert(at(s, Pat::C(c), i)); } if occ(s, Pat::C(c)) { let i = choose|i: int| #[trigger] at(s, Pat::C(c), i); assert(s[i] == c); } }
pub proof fn cut_at(a: Seq<char>, c: char, b: Seq<char>) requires lacks(a, c) ensures cut(a + ch(c) + b, c) == (a, Some(b)), first(a + ch(c) + b, Pat::C(c), a.len() as int)
{
    let s = a + ch(c) + b;
    assert(at(s, Pat::C(c), a.len() as int));
    assert forall|j: int| 0 <= j < a.len() implies !#[trigger] at(s, Pat::C(c), j) by { assert(s[j] == a[j]); }
    cut_some(s, c, a.len() as int);
    assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int + 1) =~= b);
}
pub proof fn cut_lacks(a: Seq<char>, c: char) requires lacks(a, c) ensures cut(a, c) == (a, None::<Seq<char>>) { lacks_occ(a, c); cut_none(a, c); }
/// characters of a host, port and parameters
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> pvalc(#[trigger] s[i]) }
pub open spec fn noctrl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ctrl(#[trigger] s[i]) }
pub proof fn trim_plain(s: Seq<char>) requires plain(s) ensures trim_s(s) == s { if s.len() > 0 { assert(pvalc(s[0])); assert(pvalc(s.last())); assert(trim_l(s) == s); } }
pub proof fn dtext_digits(n: nat) ensures all_digits(dtext(n)), plain(dtext(n)), lacks(dtext(n), ':'), dec(dtext(n)) == n, dtext(n).len() >= 1
{ dtext_dec(n); let s = dtext(n); assert forall|i: int| 0 <= i < s.len() implies pvalc(#[trigger] s[i]) && s[i] != ':' by { assert(is_digit(s[i])); } }
pub proof fn name_plain(k: Seq<char>) requires pname_ok(k) ensures plain(k), lacks(k, '='), lacks(k, '&'), lacks(k, '@'), k.len() > 0
{ reveal(pname_ok); assert forall|i: int| 0 <= i < k.len() implies pvalc(#[trigger] k[i]) && k[i] != '=' && k[i] != '&' && k[i] != '@' by { assert(utok(k[i])); } }
pub open spec fn hc(c: char) -> bool { hostc(c) || ip6c(c) }
pub proof fn host_chars(h: Seq<char>) requires host_ok(h) ensures h.len() > 0, forall|i: int| 0 <= i < h.len() ==> hc(#[trigger] h[i])
{ broadcast use {ip6_chars}; reveal(host_ok); }
pub proof fn hc_plain(c: char) requires hc(c) ensures pvalc(c), c != '[', c != ']', c != '%', (c as u32) < 128 {}
pub proof fn host_plain(h: Seq<char>) requires host_ok(h) ensures plain(h), lacks(h, '['), lacks(h, ']'), lacks(h, '%'), h.len() > 0, ascii(h)
{
    host_chars(h);
    assert forall|i: int| 0 <= i < h.len() implies pvalc(#[trigger] h[i]) && h[i] != '[' && h[i] != ']' && h[i] != '%' && (h[i] as u32) < 128 by { hc_plain(h[i]); }
}
pub proof fn seg_plain(k: Seq<char>, v: Option<Seq<char>>) requires pname_ok(k), v matches Some(x) ==> pval_ok(x)
    ensures plain(seg(k, v)), seg(k, v).len() > 0
{ name_plain(k); reveal(pval_ok); let s = seg(k, v); assert forall|i: int| 0 <= i < s.len() implies pvalc(#[trigger] s[i]) by { match v { Some(x) => { if i < k.len() { assert(s[i] == k[i]); } else if i > k.len() { assert(s[i] == x[i - k.len() - 1]); } } None => {} } } }

// fields
pub proof fn fields_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures fields(s, c) == seq![s] decreases s.len()
{ if s.len() > 0 { assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } } fields_lacks(s.drop_last(), c); assert(s.last() != c); assert(fields(s, c) =~= seq![s]) by { assert(s.drop_last().push(s.last()) =~= s); } } else { assert(s =~= Seq::empty()); assert(fields(s, c) =~= seq![s]); } }
pub proof fn fields_add(a: Seq<char>, c: char, b: Seq<char>) requires lacks(b, c) ensures fields(a + ch(c) + b, c) == fields(a, c).push(b) decreases b.len()
{
    let s = a + ch(c) + b;
    fields_some(a, c);
    if b.len() == 0 { assert(b =~= Seq::empty()); assert(s.drop_last() =~= a); assert(s.last() == c); }
    else {
        let b1 = b.drop_last();
        assert(lacks(b1, c)) by { assert forall|i: int| 0 <= i < b1.len() implies #[trigger] b1[i] != c by { assert(b[i] != c); } }
        fields_add(a, c, b1);
        assert(s.drop_last() =~= a + ch(c) + b1); assert(s.last() == b.last()); assert(b[b.len() - 1] != c);
        let f = fields(a, c).push(b1);
        assert(f.update(f.len() - 1, f.last().push(s.last())) =~= fields(a, c).push(b)) by { assert(b1.push(b.last()) =~= b); }
    }
}
pub open spec fn segs(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) -> Seq<Seq<char>> { Seq::new(ks.len(), |i: int| seg(ks[i], m[ks[i]])) }
pub open spec fn hsegs(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) -> Seq<Seq<char>> { Seq::new(ks.len(), |i: int| ks[i] + ch('=') + m[ks[i]]) }
pub open spec fn pkeys(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < ks.len() ==> pname_ok(#[trigger] ks[i]) && lower(ks[i]) == ks[i] && (m[ks[i]] matches Some(v) ==> pval_ok(v)) }
pub open spec fn hkeys(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) -> bool { forall|i: int| 0 <= i < ks.len() ==> pname_ok(#[trigger] ks[i]) && lower(ks[i]) == ks[i] && hval_ok(m[ks[i]]) && lacks(m[ks[i]], '&') }
pub proof fn pkeys_less(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) requires pkeys(ks, m), ks.len() > 0 ensures pkeys(ks.drop_last(), m), pname_ok(ks.last()), lower(ks.last()) == ks.last(), m[ks.last()] matches Some(v) ==> pval_ok(v)
{ assert forall|i: int| 0 <= i < ks.len() - 1 implies pname_ok(#[trigger] ks.drop_last()[i]) && lower(ks.drop_last()[i]) == ks.drop_last()[i] && (m[ks.drop_last()[i]] matches Some(v) ==> pval_ok(v)) by { assert(pname_ok(ks[i])); } assert(pname_ok(ks[ks.len() - 1])); }
pub proof fn hkeys_less(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) requires hkeys(ks, m), ks.len() > 0 ensures hkeys(ks.drop_last(), m), pname_ok(ks.last()), lower(ks.last()) == ks.last(), hval_ok(m[ks.last()]), lacks(m[ks.last()], '&')
{ assert forall|i: int| 0 <= i < ks.len() - 1 implies pname_ok(#[trigger] ks.drop_last()[i]) && lower(ks.drop_last()[i]) == ks.drop_last()[i] && hval_ok(m[ks.drop_last()[i]]) && lacks(m[ks.drop_last()[i]], '&') by { assert(pname_ok(ks[i])); } assert(pname_ok(ks[ks.len() - 1])); }
pub proof fn tail_fields(base: Seq<char>, ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>)
    requires pkeys(ks, m), lacks(base, ';')
    ensures fields(base + ptail(ks, m), ';') == seq![base] + segs(ks, m)
    decreases ks.len()
{
    if ks.len() == 0 { assert(base + ptail(ks, m) =~= base); fields_lacks(base, ';'); assert(seq![base] + segs(ks, m) =~= seq![base]); }
    else {
        pkeys_less(ks, m); tail_fields(base, ks.drop_last(), m);
        let sg = seg(ks.last(), m[ks.last()]);
        seg_plain(ks.last(), m[ks.last()]);
        assert(lacks(sg, ';')) by { assert forall|i: int| 0 <= i < sg.len() implies #[trigger] sg[i] != ';' by { assert(pvalc(sg[i])); } }
        assert(base + ptail(ks, m) =~= (base + ptail(ks.drop_last(), m)) + ch(';') + sg);
        fields_add(base + ptail(ks.drop_last(), m), ';', sg);
        assert(seq![base] + segs(ks, m) =~= (seq![base] + segs(ks.drop_last(), m)).push(sg));
    }
}
pub proof fn hjoin_fields(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>)
    requires hkeys(ks, m), ks.len() > 0
    ensures fields(hjoin(ks, m), '&') == hsegs(ks, m)
    decreases ks.len()
{
    hkeys_less(ks, m);
    let l = ks.last(); let sg = l + ch('=') + m[l];
    name_plain(l);
    assert(lacks(sg, '&')) by { assert forall|i: int| 0 <= i < sg.len() implies #[trigger] sg[i] != '&' by { if i < l.len() { assert(sg[i] == l[i]); } else if i > l.len() { assert(sg[i] == m[l][i - l.len() - 1]); } } }
    if ks.len() == 1 { assert(hjoin(ks.drop_last(), m) =~= Seq::empty()); assert(hjoin(ks, m) =~= sg); fields_lacks(sg, '&'); assert(hsegs(ks, m) =~= seq![sg]); }
    else { hjoin_fields(ks.drop_last(), m); fields_add(hjoin(ks.drop_last(), m), '&', sg); assert(hsegs(ks, m) =~= hsegs(ks.drop_last(), m).push(sg)); }
}
/// the map restricted to some of its keys
pub open spec fn part<V>(m: Map<Seq<char>, V>, ks: Seq<Seq<char>>) -> Map<Seq<char>, V> { Map::new(ks.to_set(), |k: Seq<char>| m[k]) }
pub proof fn part_step<V>(m: Map<Seq<char>, V>, ks: Seq<Seq<char>>) requires ks.len() > 0, ks.no_duplicates()
    ensures part(m, ks) == part(m, ks.drop_last()).insert(ks.last(), m[ks.last()]), part(m, ks.drop_last()).dom().len() == ks.len() - 1, ks.drop_last().no_duplicates()
{
    let d = ks.drop_last();
    d.unique_seq_to_set();
    assert(part(m, d).dom() =~= d.to_set());
    assert forall|k: Seq<char>| ks.to_set().contains(k) == (d.to_set().contains(k) || k == ks.last()) by {
        if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; if i < d.len() { assert(d[i] == k); assert(d.contains(k)); } }
        if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(ks[i] == k); assert(ks.contains(k)); }
        assert(ks[ks.len() - 1] == ks.last()); assert(ks.contains(ks.last()));
    }
    assert(part(m, ks) =~= part(m, d).insert(ks.last(), m[ks.last()]));
}
pub proof fn pfold_back(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>)
    requires pkeys(ks, m), ks.no_duplicates(), ks.len() <= 50
    ensures pfold(segs(ks, m)) == Some(part(m, ks))
    decreases ks.len()
{
    if ks.len() == 0 { assert(part(m, ks) =~= Map::empty()); }
    else {
        part_step(m, ks); pkeys_less(ks, m); pfold_back(ks.drop_last(), m);
        let l = ks.last(); let sg = seg(l, m[l]); let m0 = part(m, ks.drop_last());
        assert(segs(ks, m).drop_last() =~= segs(ks.drop_last(), m)); assert(segs(ks, m).last() == sg);
        seg_plain(l, m[l]); trim_plain(sg); pstep_is(m0, sg); name_plain(l);
        match m[l] {
            Some(v) => { reveal(pval_ok); trim_plain(v); trim_plain(l); cut_at(l, '=', v); assert(sg.take(l.len() as int) =~= l); assert(sg.skip(l.len() as int + 1) =~= v); assert(pstep(m0, sg) == pkv(m0, l, v)); }
            None => { lacks_occ(l, '='); }
        }
    }
}
pub proof fn hfold_back(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>)
    requires hkeys(ks, m), ks.no_duplicates(), ks.len() <= 50
    ensures hfold(hsegs(ks, m)) == Some(part(m, ks))
    decreases ks.len()
{
    if ks.len() == 0 { assert(part(m, ks) =~= Map::empty()); }
    else {
        part_step(m, ks); hkeys_less(ks, m); hfold_back(ks.drop_last(), m);
        let l = ks.last(); let v = m[l]; let sg = l + ch('=') + v; let m0 = part(m, ks.drop_last());
        assert(hsegs(ks, m).drop_last() =~= hsegs(ks.drop_last(), m)); assert(hsegs(ks, m).last() == sg);
        hstep_is(m0, sg); name_plain(l); trim_plain(l);
        reveal(hval_ok);
        if v.len() > 0 { assert(!is_ws(v[0])); assert(!is_ws(v[v.len() - 1])); assert(trim_l(v) == v); }
        cut_at(l, '=', v); assert(sg.take(l.len() as int) =~= l); assert(sg.skip(l.len() as int + 1) =~= v);
        assert(hstep(m0, sg) == hkv(m0, l, v));
    }
}
// host and port
pub proof fn cnt_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures cnt(s, c) == 0 decreases s.len()
{ if s.len() > 0 { assert(s[s.len() - 1] != c); assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } } cnt_lacks(s.drop_last(), c); } }
pub proof fn cnt_cat(a: Seq<char>, b: Seq<char>, c: char) ensures cnt(a + b, c) == cnt(a, c) + cnt(b, c) decreases b.len()
{ if b.len() > 0 { cnt_cat(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
pub proof fn pdec_plain(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 37 ensures pdec(b) == b decreases b.len()
{ if b.len() > 0 { assert forall|i: int| 0 <= i < b.skip(1).len() implies #[trigger] b.skip(1)[i] != 37 by { assert(b[i + 1] != 37); } pdec_plain(b.skip(1)); assert(b[0] != 37); assert(seq![b[0]] + b.skip(1) =~= b); } }
pub proof fn host_dec(h: Seq<char>) requires host_ok(h) ensures pct_utf8(h) == Some(h)
{
    host_plain(h);
    assert(h.len() == 0 || ascii(h));
    ascii_bytes(h);
    let b = encode_utf8(h);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 37 by { assert(b[i] == h[i] as u8); assert(h[i] != '%'); }
    pdec_plain(b); utf8_of(h);
}
/// ASCII text is its own encoding
pub proof fn ascii_bytes(s: Seq<char>) requires ascii(s) ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8 decreases s.len()
{
    if s.len() == 0 { assert(s =~= Seq::empty()); blen_empty(); assert(blen(s) == 0); }
    else {
        let t = s.drop_last(); let l = seq![s.last()];
        assert(ascii(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { assert((s[i] as u32) < 128); } }
        ascii_bytes(t); assert((s[s.len() - 1] as u32) < 128);
        assert(s =~= t + l); vstd::utf8::encode_utf8_concat(t, l); one_ascii(s.last());
    }
}
pub proof fn one_ascii(c: char) requires (c as u32) < 128 ensures encode_utf8(seq![c]) == seq![c as u8]
{
    let s = seq![c];
    blen_ascii(s);
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    let v = c as u32;
    assert(vstd::utf8::encode_scalar(v) == seq![c as u8]) by { assert(v < 0x80 ==> v & 0x7f == v) by (bit_vector); }
    assert(s.subrange(1, 1) =~= Seq::empty());
    assert(encode_utf8(s) =~= seq![c as u8]);
}
pub proof fn base_back(h: Seq<char>, p: Option<nat>)
    requires host_ok(h), lower(h) == h, p matches Some(n) ==> 0 < n <= 65535
    ensures host_part(basetext(h, p)) == Some((h, p)), plain(basetext(h, p)), basetext(h, p).len() > 0
{
    let t = basetext(h, p); let ht = hosttext(h);
    let pt = match p { Some(n) => ch(':') + dtext(n), None => Seq::empty() };
    host_plain(h); host_dec(h);
    if let Some(n) = p { dtext_digits(n); }
    assert(plain(t)) by { assert forall|i: int| 0 <= i < t.len() implies pvalc(#[trigger] t[i]) by {
        if i >= ht.len() { assert(t[i] == pt[i - ht.len()]); if i > ht.len() { assert(pt[i - ht.len()] == dtext(p->0)[i - ht.len() - 1]); } }
        else if occ(h, Pat::C(':')) { if 1 <= i && i < 1 + h.len() { assert(t[i] == h[i - 1]); } } else { assert(t[i] == h[i]); } } }
    assert(hostport(t) == Some((h, p))) by {
        if occ(h, Pat::C(':')) {
            let a = ch('[') + h;
            assert(lacks(a, ']')) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != ']' by { if i > 0 { assert(a[i] == h[i - 1]); } } }
            assert(t =~= a + ch(']') + pt);
            cut_at(a, ']', pt); first_is(t, Pat::C(']'), a.len() as int);
            assert(t.subrange(1, a.len() as int) =~= h); assert(t.skip(a.len() as int + 1) =~= pt);
            assert(t[0] == '[');
            if let Some(n) = p { assert(pt.skip(1) =~= dtext(n)); assert(pt[0] == ':'); }
        } else {
            lacks_occ(h, ':'); cnt_lacks(h, ':');
            assert(t[0] == h[0]);
            match p {
                None => { assert(t =~= h); }
                Some(n) => {
                    let i = h.len() as int; let d = dtext(n);
                    assert(t =~= h + ch(':') + d);
                    cnt_cat(h + ch(':'), d, ':'); cnt_cat(h, ch(':'), ':'); cnt_lacks(d, ':');
                    assert(cnt(ch(':'), ':') == 1) by { assert(ch(':').drop_last() =~= Seq::empty()); reveal_with_fuel(cnt, 2); }
                    assert(last(t, Pat::C(':'), i)) by { assert(at(t, Pat::C(':'), i)); assert forall|j: int| j > i implies !#[trigger] at(t, Pat::C(':'), j) by { if j < t.len() { assert(t[j] == d[j - i - 1]); } } }
                    last_is(t, Pat::C(':'), i);
                    assert(t.skip(i + 1) =~= d); assert(t.take(i) =~= h);
                }
            }
        }
    }
    assert((t[0] == '[') == occ(h, Pat::C(':')));
    reveal(host_part);
}
// the user part
pub open spec fn hexn(c: char) -> bool { is_digit(c) || ('A' <= c && c <= 'F') }
pub open spec fn escc(c: char) -> bool { is_alnum(c) || c == '%' || ((c as u32) < 128 && plainb(c as u8)) }
pub proof fn penc_back(b: Seq<u8>, e: Set<u8>)
    requires esc_ok(e)
    ensures pdec(encode_utf8(penc(b, e))) == b, ascii(penc(b, e)), forall|i: int| 0 <= i < penc(b, e).len() ==> escc(#[trigger] penc(b, e)[i]), b.len() > 0 ==> penc(b, e).len() > 0
    decreases b.len()
{
    let p = penc(b, e);
    if b.len() == 0 { assert(p =~= Seq::empty()); blen_empty(); assert(encode_utf8(p) =~= Seq::empty()); assert(pdec(encode_utf8(p)) =~= b); }
    else {
        let q = penc(b.skip(1), e);
        penc_back(b.skip(1), e);
        let z = b[0];
        if z < 128 { assert(e.contains(z) == !plainb(z)); }
        let h = if z >= 128 || e.contains(z) { seq!['%', hexd(z as int / 16), hexd(z as int % 16)] } else { seq![z as char] };
        assert(p == h + q);
        assert(hexn(hexd(z as int / 16)) && hexn(hexd(z as int % 16)));
        assert forall|i: int| 0 <= i < p.len() implies escc(#[trigger] p[i]) && (p[i] as u32) < 128 by { if i >= h.len() { assert(p[i] == q[i - h.len()]); } else { assert(p[i] == h[i]); if !(z >= 128 || e.contains(z)) { assert(plainb(z)); assert((z as char) as u8 == z); } } }
        ascii_bytes(p); ascii_bytes(q);
        let pb = encode_utf8(p); let qb = encode_utf8(q);
        assert(seq![z] + b.skip(1) =~= b);
        if z >= 128 || e.contains(z) {
            assert(pb.skip(3) =~= qb) by { assert forall|i: int| 0 <= i < qb.len() implies pb[i + 3] == qb[i] by { assert(p[i + 3] == q[i]); } }
            assert(pb[0] == 37); assert(p[1] == hexd(z as int / 16)); assert(p[2] == hexd(z as int % 16));
            assert(hexv(pb[1]) == Some(z as int / 16)); assert(hexv(pb[2]) == Some(z as int % 16));
            assert((z as int / 16) * 16 + z as int % 16 == z as int);
        } else {
            assert(pb.skip(1) =~= qb) by { assert forall|i: int| 0 <= i < qb.len() implies pb[i + 1] == qb[i] by { assert(p[i + 1] == q[i]); } }
            assert(p[0] == z as char); assert(pb[0] == z); assert(plainb(z)); assert(z != 37);
        }
    }
}
pub proof fn user_back(x: Seq<char>, e: Set<u8>)
    requires user_ok(x), esc_ok(e)
    ensures user_part(Some(penc(encode_utf8(x), e))) == Some(Some(x)), plain(penc(encode_utf8(x), e)), lacks(penc(encode_utf8(x), e), '@')
{
    let p = penc(encode_utf8(x), e);
    penc_back(encode_utf8(x), e); utf8_of(x);
    assert forall|i: int| 0 <= i < p.len() implies pvalc(#[trigger] p[i]) by { assert(escc(p[i])); }
    trim_plain(p);
    user_is(p);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != '@' by { assert(pvalc(p[i])); }
}
// the whole
pub proof fn ptail_plain(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) requires pkeys(ks, m)
    ensures lacks(ptail(ks, m), '@'), lacks(ptail(ks, m), '?'), noctrl(ptail(ks, m)) decreases ks.len()
{
    if ks.len() > 0 {
        pkeys_less(ks, m); ptail_plain(ks.drop_last(), m); seg_plain(ks.last(), m[ks.last()]);
        let a = ptail(ks.drop_last(), m); let sg = seg(ks.last(), m[ks.last()]); let t = ptail(ks, m);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '@' && t[i] != '?' && !is_ctrl(t[i]) by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == sg[i - a.len() - 1]); assert(pvalc(sg[i - a.len() - 1])); } }
    }
}
pub proof fn hjoin_clean(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) requires hkeys(ks, m)
    ensures noctrl(hjoin(ks, m)), (forall|i: int| 0 <= i < ks.len() ==> lacks(m[#[trigger] ks[i]], '@')) ==> lacks(hjoin(ks, m), '@') decreases ks.len()
{
    if ks.len() > 0 {
        hkeys_less(ks, m); hjoin_clean(ks.drop_last(), m);
        let l = ks.last(); let v = m[l]; let a = hjoin(ks.drop_last(), m) + (if ks.len() > 1 { ch('&') } else { Seq::empty() }); let a0 = hjoin(ks.drop_last(), m); let sg = l + ch('=') + v; let t = hjoin(ks, m);
        name_plain(l); reveal(hval_ok);
        assert(t == a + sg);
        assert(noctrl(sg)) by { assert forall|i: int| 0 <= i < sg.len() implies !is_ctrl(#[trigger] sg[i]) by { if i < l.len() { assert(sg[i] == l[i]); assert(pvalc(l[i])); } else if i > l.len() { assert(sg[i] == v[i - l.len() - 1]); } } }
        assert forall|i: int| 0 <= i < t.len() implies !is_ctrl(#[trigger] t[i]) by { if i < a0.len() { assert(t[i] == a0[i]); } else if i < a.len() { assert(t[i] == '&'); } else { assert(t[i] == sg[i - a.len()]); } }
        if forall|i: int| 0 <= i < ks.len() ==> lacks(m[#[trigger] ks[i]], '@') {
            assert(forall|i: int| 0 <= i < ks.drop_last().len() ==> lacks(m[#[trigger] ks.drop_last()[i]], '@')) by { assert forall|i: int| 0 <= i < ks.len() - 1 implies lacks(m[#[trigger] ks.drop_last()[i]], '@') by { assert(lacks(m[ks[i]], '@')); } }
            assert(lacks(m[ks[ks.len() - 1]], '@'));
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '@' by { if i < a0.len() { assert(t[i] == a0[i]); } else if i < a.len() { assert(t[i] == '&'); } else { assert(t[i] == sg[i - a.len()]); let j = i - a.len(); if j < l.len() { assert(sg[j] == l[j]); } else if j > l.len() { assert(sg[j] == v[j - l.len() - 1]); } } }
        }
    }
}
/// the text printed from the parts is read back as exactly those parts
pub proof fn p18_print(u: SU, ks: Seq<Seq<char>>, hs: Seq<Seq<char>>, e: Set<u8>)
    requires parts_ok(u), lists(ks, u.params.dom()), lists(hs, u.headers.dom()), esc_ok(e)
    ensures !has_ctrl(print(u, ks, hs, e)), blen(print(u, ks, hs, e)) <= 2048 ==> sip_parse(print(u, ks, hs, e)) == Some(u)
{
    let x = print(u, ks, hs, e);
    let sch = scheme_of(u.sips); let us = utext(u.user, e); let base = basetext(u.host, u.port); let pt = ptail(ks, u.params); let ht = htext(hs, u.headers);
    let addr = base + pt; let r2 = addr + ht; let rest = us + r2;
    reveal_strlit("sip"); reveal_strlit("sips");
    ks.unique_seq_to_set(); hs.unique_seq_to_set();
    assert(pkeys(ks, u.params)) by { assert forall|i: int| 0 <= i < ks.len() implies pname_ok(#[trigger] ks[i]) && lower(ks[i]) == ks[i] && (u.params[ks[i]] matches Some(v) ==> pval_ok(v)) by { assert(ks.contains(ks[i])); assert(ks.to_set().contains(ks[i])); assert(u.params.contains_key(ks[i])); } }
    assert forall|i: int| 0 <= i < hs.len() implies u.headers.contains_key(#[trigger] hs[i]) by { assert(hs.contains(hs[i])); assert(hs.to_set().contains(hs[i])); }
    assert(hkeys(hs, u.headers)) by { assert forall|i: int| 0 <= i < hs.len() implies pname_ok(#[trigger] hs[i]) && lower(hs[i]) == hs[i] && hval_ok(u.headers[hs[i]]) && lacks(u.headers[hs[i]], '&') by { assert(u.headers.contains_key(hs[i])); lacks_occ(u.headers[hs[i]], '&'); } }
    base_back(u.host, u.port); ptail_plain(ks, u.params); hjoin_clean(hs, u.headers);
    if let Some(x) = u.user { user_back(x, e); } else { user_is(Seq::empty()); assert forall|i: int| 0 <= i < hs.len() implies lacks(u.headers[#[trigger] hs[i]], '@') by { assert(u.headers.contains_key(hs[i])); lacks_occ(u.headers[hs[i]], '@'); } }
    // no control characters
    assert(noctrl(x)) by {
        assert(noctrl(sch)); assert(noctrl(us)) by { if let Some(q) = u.user { let p = penc(encode_utf8(q), e); assert forall|i: int| 0 <= i < us.len() implies !is_ctrl(#[trigger] us[i]) by { if i < p.len() { assert(us[i] == p[i]); assert(pvalc(p[i])); } } } }
        assert(noctrl(base)) by { assert forall|i: int| 0 <= i < base.len() implies !is_ctrl(#[trigger] base[i]) by { assert(pvalc(base[i])); } }
        cat_noctrl(base, pt); assert(noctrl(ht)) by { if hs.len() > 0 { cat_noctrl(ch('?'), hjoin(hs, u.headers)); } }
        cat_noctrl(addr, ht); cat_noctrl(us, r2); cat_noctrl(sch, ch(':')); cat_noctrl(sch + ch(':'), rest);
    }
    if blen(x) <= 2048 {
        cut_at(sch, ':', rest);
        assert(cut(x, ':') == (sch, Some(rest)));
        assert(eq_ci(sch, sips_s()) == u.sips) by { if !u.sips { assert(lower(sch).len() == 3 && lower(sips_s()).len() == 4); } }
        assert(is_sip_scheme(sch));
        // the user part
        let b0 = base;
        match u.user {
            Some(q) => { let p = penc(encode_utf8(q), e); assert(rest =~= p + ch('@') + r2); cut_at(p, '@', r2); }
            None => {
                assert(rest =~= r2);
                assert(lacks(r2, '@')) by { assert forall|i: int| 0 <= i < r2.len() implies #[trigger] r2[i] != '@' by {
                    if i < base.len() { assert(r2[i] == base[i]); assert(pvalc(base[i])); } else if i < addr.len() { assert(r2[i] == pt[i - base.len()]); } else { assert(r2[i] == ht[i - addr.len()]); if i > addr.len() { assert(ht[i - addr.len()] == hjoin(hs, u.headers)[i - addr.len() - 1]); } } } }
                cut_lacks(r2, '@');
            }
        }
        assert(lacks(addr, '?')) by { assert forall|i: int| 0 <= i < addr.len() implies #[trigger] addr[i] != '?' by { if i < base.len() { assert(addr[i] == base[i]); assert(pvalc(base[i])); } else { assert(addr[i] == pt[i - base.len()]); } } }
        if hs.len() == 0 { assert(r2 =~= addr); cut_lacks(addr, '?'); assert(u.headers =~= Map::empty()); }
        else { assert(r2 =~= addr + ch('?') + hjoin(hs, u.headers)); cut_at(addr, '?', hjoin(hs, u.headers)); hjoin_fields(hs, u.headers); hfold_back(hs, u.headers); assert(part(u.headers, hs) =~= u.headers); }
        assert(lacks(base, ';')) by { assert forall|i: int| 0 <= i < base.len() implies #[trigger] base[i] != ';' by { assert(pvalc(base[i])); } }
        tail_fields(base, ks, u.params); pfold_back(ks, u.params); assert(part(u.params, ks) =~= u.params);
        let fs = fields(addr, ';');
        assert(fs.skip(1) =~= segs(ks, u.params)); assert(fs[0] == base); trim_plain(base);
        reveal(asm);
    }
}
pub proof fn cat_noctrl(a: Seq<char>, b: Seq<char>) requires noctrl(a), noctrl(b) ensures noctrl(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies !is_ctrl(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }

// ---- what reading guarantees of the parts ----------------------------------------------------------------------
pub proof fn lower_name(k: Seq<char>) requires pname_ok(k) ensures pname_ok(lower(k)), lower(lower(k)) == lower(k)
{
    reveal(pname_ok);
    let l = lower(k);
    assert forall|i: int| 0 <= i < l.len() implies utok(#[trigger] l[i]) && (l[i] as u32) < 128 && (k[i] as u32) < 128 && low(l[i]) == l[i] by { assert(utok(k[i])); }
    blen_ascii(k); blen_ascii(l);
    assert(lower(l) =~= l);
}
pub proof fn lower_host(h: Seq<char>) requires host_ok(h) ensures host_ok(lower(h)), lower(lower(h)) == lower(h), occ(lower(h), Pat::C(':')) == occ(h, Pat::C(':'))
{
    let l = lower(h);
    host_chars(h);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i] as u32) < 128 && (h[i] as u32) < 128 && low(l[i]) == l[i] && (l[i] == ':') == (h[i] == ':') by { assert(hc(h[i])); }
    blen_ascii(h); blen_ascii(l);
    assert(lower(l) =~= l);
    lacks_occ(h, ':'); lacks_occ(l, ':');
    assert(lacks(l, ':') == lacks(h, ':')) by { if !lacks(l, ':') { let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == ':'; assert(h[i] == ':'); } if !lacks(h, ':') { let i = choose|i: int| 0 <= i < h.len() && #[trigger] h[i] == ':'; assert(l[i] == ':'); } }
    reveal(host_ok); ip6_case(h);
    if lacks(h, ':') { assert forall|i: int| 0 <= i < l.len() implies hostc(#[trigger] l[i]) by { assert(hostc(h[i])); } }
}
pub proof fn trim_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures lacks(trim_s(s), c)
{ trim_l_lacks(s, c); trim_r_lacks(trim_l(s), c); }
pub proof fn trim_l_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures lacks(trim_l(s), c) decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { assert(lacks(s.drop_first(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_first()[i] != c by { assert(s[i + 1] != c); } } trim_l_lacks(s.drop_first(), c); } }
pub proof fn trim_r_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures lacks(trim_r(s), c) decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } } trim_r_lacks(s.drop_last(), c); } }
pub open spec fn all_lack(v: Seq<Seq<char>>, c: char) -> bool { forall|i: int| 0 <= i < v.len() ==> lacks(#[trigger] v[i], c) }
pub proof fn fields_each(s: Seq<char>, c: char, d: char) requires d == c || lacks(s, d) ensures all_lack(fields(s, c), d) decreases s.len()
{
    if s.len() == 0 { assert(lacks(Seq::<char>::empty(), d)); }
    else {
        let t = s.drop_last(); let f = fields(t, c);
        if d != c { assert(lacks(t, d)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != d by { assert(s[i] != d); } } assert(s[s.len() - 1] != d); }
        fields_each(t, c, d); fields_some(t, c);
        let g = fields(s, c);
        assert forall|i: int| 0 <= i < g.len() implies lacks(#[trigger] g[i], d) by {
            if s.last() == c { if i < f.len() { assert(lacks(f[i], d)); } }
            else { assert(lacks(f[f.len() - 1], d)); if i < f.len() - 1 { assert(lacks(f[i], d)); } else { let w = f.last().push(s.last()); assert(g[i] == w); assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] != d by { if j < f.last().len() { assert(f.last()[j] != d); } } } }
        }
    }
}
pub open spec fn pparts(m: Map<Seq<char>, Option<Seq<char>>>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> pname_ok(k) && lower(k) == k && (m[k] matches Some(v) ==> pval_ok(v)) }
pub open spec fn hparts(m: Map<Seq<char>, Seq<char>>, at_ok: bool) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> pname_ok(k) && lower(k) == k && hval_ok(m[k]) && lacks(m[k], '&') && (at_ok || lacks(m[k], '@')) }
pub proof fn pfold_parts(fs: Seq<Seq<char>>) requires pfold(fs).is_some() ensures pparts(pfold(fs)->0), pfold(fs)->0.dom().len() <= 50 decreases fs.len()
{
    if fs.len() > 0 {
        pfold_parts(fs.drop_last());
        let m = pfold(fs.drop_last())->0; let p = trim_s(fs.last());
        pstep_is(m, fs.last());
        if p.len() > 0 {
            if occ(p, Pat::C('=')) { lacks_occ(p, '='); let n = fidx(p, Pat::C('=')); first_any(p, '='); let k = trim_s(p.take(n)); assert(pstep(m, fs.last()) == pkv(m, p.take(n), p.skip(n + 1))); lower_name(k); }
            else { lower_name(p); }
        }
    }
}
/// an occurrence has a first one
pub proof fn first_any(s: Seq<char>, c: char) requires occ(s, Pat::C(c)) ensures first(s, Pat::C(c), fidx(s, Pat::C(c)))
{ let i = choose|i: int| #[trigger] at(s, Pat::C(c), i); let j = least(s, c, i); assert(first(s, Pat::C(c), j)); }
pub proof fn least(s: Seq<char>, c: char, i: int) -> (j: int) requires at(s, Pat::C(c), i) ensures first(s, Pat::C(c), j) decreases i
{ if forall|k: int| 0 <= k < i ==> !#[trigger] at(s, Pat::C(c), k) { i } else { let k = choose|k: int| 0 <= k < i && #[trigger] at(s, Pat::C(c), k); least(s, c, k) } }
pub proof fn hfold_parts(fs: Seq<Seq<char>>, at_ok: bool) requires hfold(fs).is_some(), all_lack(fs, '&'), at_ok || all_lack(fs, '@') ensures hparts(hfold(fs)->0, at_ok), hfold(fs)->0.dom().len() <= 50 decreases fs.len()
{
    if fs.len() > 0 {
        let d = fs.drop_last();
        assert(all_lack(d, '&')) by { assert forall|i: int| 0 <= i < d.len() implies lacks(#[trigger] d[i], '&') by { assert(lacks(fs[i], '&')); } }
        assert(at_ok || all_lack(d, '@')) by { if !at_ok { assert forall|i: int| 0 <= i < d.len() implies lacks(#[trigger] d[i], '@') by { assert(lacks(fs[i], '@')); } } }
        hfold_parts(d, at_ok);
        let m = hfold(d)->0; let p = fs.last();
        assert(lacks(fs[fs.len() - 1], '&')); if !at_ok { assert(lacks(fs[fs.len() - 1], '@')); }
        hstep_is(m, p);
        if p.len() > 0 {
            let n = fidx(p, Pat::C('=')); first_any(p, '=');
            let k = trim_s(p.take(n)); let w = p.skip(n + 1);
            assert(hstep(m, p) == hkv(m, p.take(n), w)); lower_name(k);
            assert(lacks(w, '&')) by { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != '&' by { assert(p[i + n + 1] != '&'); } }
            trim_lacks(w, '&');
            if !at_ok { assert(lacks(w, '@')) by { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != '@' by { assert(p[i + n + 1] != '@'); } } trim_lacks(w, '@'); }
        }
    }
}
pub proof fn cut_parts(s: Seq<char>, c: char) ensures occ(s, Pat::C(c)) == cut(s, c).1.is_some(), cut(s, c).1 matches Some(b) ==> (forall|d: char| lacks(s, d) ==> #[trigger] lacks(b, d))
{
    reveal(cut);
    if occ(s, Pat::C(c)) { first_any(s, c); let n = fidx(s, Pat::C(c)); let b = s.skip(n + 1); assert forall|d: char| lacks(s, d) implies #[trigger] lacks(b, d) by { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != d by { assert(s[i + n + 1] != d); } } }
}
/// whatever is accepted has proper parts: no control characters anywhere, a host, brackets exactly around IPv6, a port in range, no delimiters in the user, ...
pub proof fn p18_parts(x: Seq<char>) ensures sip_parse(x) matches Some(u) ==> parts_ok(u) && !has_ctrl(x) && blen(x) <= 2048
{
    if let Some(u) = sip_parse(x) {
        let rest = cut(x, ':').1->0;
        let (up, r2) = match cut(rest, '@') { (a, Some(b)) => (Some(a), b), (a, None) => (None, a) };
        let (addr, h) = cut(r2, '?');
        reveal(asm); reveal(user_part); reveal(host_part);
        cut_parts(x, ':'); cut_parts(rest, '@'); cut_parts(r2, '?');
        let fs = fields(addr, ';');
        pfold_parts(fs.skip(1));
        let lh = pct_utf8((hostport(trim_s(fs[0]))->0).0)->0;
        assert(lower(lower(lh)) =~= lower(lh)) by { assert forall|i: int| 0 <= i < lh.len() implies low(low(#[trigger] lh[i])) == low(lh[i]) by { } }
        if u.user.is_none() { cut_lack(rest); }
        if let Some(t) = h { let hf = fields(t, '&'); fields_each(t, '&', '&'); if up.is_none() { fields_each(t, '&', '@'); } hfold_parts(hf, up.is_some()); }
        assert forall|k: Seq<char>| #[trigger] u.headers.contains_key(k) implies pname_ok(k) && lower(k) == k && hval_ok(u.headers[k]) && !occ(u.headers[k], Pat::C('&')) && (u.user.is_none() ==> !occ(u.headers[k], Pat::C('@'))) by { lacks_occ(u.headers[k], '&'); lacks_occ(u.headers[k], '@'); }
    }
}
pub proof fn cut_lack(s: Seq<char>) ensures cut(s, '@').1.is_none() ==> cut(s, '@').0 == s && lacks(s, '@') { reveal(cut); lacks_occ(s, '@'); }

// ---- building ------------------------------------------------------------------------------------------------------
//@rewrite uri . host . contains ==> uri.host.as_str().contains
//@rewrite uri . host . starts_with ==> uri.host.as_str().starts_with
//@rewrite uri . host . ends_with ( ']' ) ==> uri.host.as_str().x_ends_with_c(']')
//@rewrite let mut out = String :: new ( ) ; ==> let mut out = String::new(); let esc__ = USER_ESCAPE;
//@rewrite for ( key , value ) in & uri . params { $*b } ==> let ghost o1__ = out@; proof { assert(o1__ =~= o1(*uri, esc__@)); bmap_ks(&uri.headers); } let ps__ = uri.params.pairs(); let mut i__: usize = 0; while i__ < ps__.len() { let key = ps__[i__].0; let value = ps__[i__].1; i__ += 1; $b }
//@rewrite for ( key , value ) in & uri . headers { $*b } ==> let ghost o2__ = out@; let ps__ = uri.headers.pairs(); let mut i__: usize = 0; while i__ < ps__.len() { let key = ps__[i__].0; let value = ps__[i__].1; i__ += 1; $b }
//@rewrite validate_host ( & host ) ==> validate_host(host.as_str())
//@rewrite validate_user ( & user ) ==> validate_user(user.as_str())
//@rewrite validate_param_name ( & name ) ==> validate_param_name(name.as_str())
//@rewrite validate_param_value ( & v ) ==> validate_param_value(v.as_str())
//@rewrite self . user . as_deref ( ) ==> match self.user { Some(ref t__) => Some(t__.as_str()), None => None }
pub mod bd {
use super::*;
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sm::smol_ext, pct::nonalnum_is, sit::bmap_finite};
//@const USER_ESCAPE exec | esc_ok(USER_ESCAPE@)
pub proof fn listed<V>(m: BMap<V>, d: Set<Seq<char>>)
    requires d =~= m@.dom(), 
    ensures lists(m.ks(), d)
{
    let ks = m.ks(); bmap_ks(&m);
    assert forall|k: Seq<char>| ks.to_set().contains(k) == d.contains(k) by { if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(d.contains(ks[i])); } }
    assert(ks.to_set() =~= d);
}
pub proof fn ptail_step(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>, i: int) requires 0 <= i < ks.len()
    ensures ptail(ks.take(i + 1), m) == ptail(ks.take(i), m) + ch(';') + seg(ks[i], m[ks[i]])
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); assert(ks.take(i + 1).last() == ks[i]); }
pub proof fn hjoin_step(ks: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>, i: int) requires 0 <= i < ks.len()
    ensures hjoin(ks.take(i + 1), m) == hjoin(ks.take(i), m) + (if i > 0 { ch('&') } else { Seq::empty() }) + (ks[i] + ch('=') + m[ks[i]])
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); assert(ks.take(i + 1).last() == ks[i]); }
pub open spec fn pairs_of<V>(ps: Seq<(&SmolStr, &V)>, m: BMap<V>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0@ == m.ks()[i] && *ps[i].1 == m@[m.ks()[i]] && m@.contains_key(m.ks()[i]) }
pub proof fn texts() ensures "sip:"@ == scheme_of(false) + ch(':'), "sips:"@ == scheme_of(true) + ch(':')
{ reveal_strlit("sip"); reveal_strlit("sips"); reveal_strlit("sip:"); reveal_strlit("sips:"); assert("sip:"@ =~= "sip"@ + ch(':')); assert("sips:"@ =~= "sips"@ + ch(':')); }
pub open spec fn o1(u: SipUri, e: Set<u8>) -> Seq<char> { scheme_of(u.sips) + ch(':') + utext(ov(u.user), e) + basetext(u.host@, onat(u.port)) }
/// the text before the parameters
pub proof fn full<V>(m: BMap<V>, n: int) requires n == m.ks().len() ensures m.ks().take(n) == m.ks() { assert(m.ks().take(n) =~= m.ks()); }
pub proof fn built(u: SipUri, t: Seq<char>, e: Set<u8>)
    requires parts_ok(uv(u)), esc_ok(e),
        t == o1(u, e) + ptail(u.params.ks(), uv(u).params) + htext(u.headers.ks(), uv(u).headers)
    ensures says(t, uv(u))
{
    bmap_ks(&u.params); bmap_ks(&u.headers); listed(u.params, uv(u).params.dom()); listed(u.headers, uv(u).headers.dom());
    assert(t =~= print(uv(u), u.params.ks(), u.headers.ks(), e));
    p18_print(uv(u), u.params.ks(), u.headers.ks(), e);
}
//@fn build_raw_sip_uri
@rewrite if uri . host . as_str ( ) . contains ==> proof { assert(out@ =~= scheme_of(uri.sips) + ch(':') + utext(ov(uri.user), esc__@)); } if uri.host.as_str().contains
@rewrite if let Some ( port ) = uri . port ==> proof { assert(out@ =~= scheme_of(uri.sips) + ch(':') + utext(ov(uri.user), esc__@) + hosttext(uri.host@)); } if let Some(port) = uri.port
    requires parts_ok(uv(*uri)),
    ensures says(r@, uv(*uri)),
@entry
    proof { texts(); reveal(host_ok); host_chars(uri.host@); }
@loop 1
    invariant i__ <= ps__@.len(), ps__@.len() == uri.params.ks().len(), pairs_of(ps__@, uri.params),
        out@ == o1__ + ptail(uri.params.ks().take(i__ as int), uv(*uri).params),
    decreases ps__@.len() - i__,
@loopbody 1
    proof { ptail_step(uri.params.ks(), uv(*uri).params, i__ as int); assert(uri.params@.contains_key(ps__@[i__ as int].0@)); assert(uv(*uri).params.contains_key(uri.params.ks()[i__ as int])); }
@afterloop 1
    proof { full(uri.params, i__ as int); }
@loop 2
    invariant i__ <= ps__@.len(), ps__@.len() == uri.headers.ks().len(), pairs_of(ps__@, uri.headers),
        out@ == o2__ + hjoin(uri.headers.ks().take(i__ as int), uv(*uri).headers), first == (i__ == 0),
    decreases ps__@.len() - i__,
@afterloop 2
    proof { full(uri.headers, i__ as int); assert(out@ =~= o1(*uri, esc__@) + ptail(uri.params.ks(), uv(*uri).params) + htext(uri.headers.ks(), uv(*uri).headers)); }
@loopbody 2
    proof { hjoin_step(uri.headers.ks(), uv(*uri).headers, i__ as int); }
//@end
}

// ---- values made from parts ----------------------------------------------------------------------------------------
//@rewrite BTreeMap :: new ( ) ==> BMap::new()
pub mod mk {
use super::*;
use super::bd::*;
broadcast use {prel::str_ext, sm::smol_ext, st::str_bytes_bound, sit::bmap_finite};
pub proof fn ins_fin<V>(m: Map<Seq<char>, V>, k: Seq<char>, v: V) requires m.dom().finite() ensures m.insert(k, v).dom().len() <= m.dom().len() + 1
{ assert(m.insert(k, v).dom() =~= m.dom().insert(k)); }
impl SipUri {
//@fn SipUri::new
@sig (host: SmolStr) -> Result<Self, UriError>
    ensures r matches Ok(u) ==> sip_inv(u) && uv(u) == (SU { sips: false, user: None, host: lower(host@), port: None, params: Map::empty(), headers: Map::empty() }),
        r.is_ok() == host_ok(host@),
@entry
    proof { empties(); if host_ok(host@) { lower_host(host@); } }
//@end
//@fn SipUri::as_str
    ensures r@ == self.raw@,
//@end
//@fn SipUri::is_sips
    ensures r == uv(*self).sips,
//@end
//@fn SipUri::user
    ensures (match r { Some(t) => Some(t@), None => None }) == uv(*self).user,
//@end
//@fn SipUri::host
@rewrite & self . host ==> self.host.as_str()
    ensures r@ == uv(*self).host,
//@end
//@fn SipUri::port
    ensures onat(r) == uv(*self).port,
//@end
//@fn SipUri::params
    ensures pmap(r@) == uv(*self).params,
//@end
//@fn SipUri::headers
    ensures hmap(r@) == uv(*self).headers,
//@end
//@fn SipUri::with_host
@sig (self, host: SmolStr) -> Result<Self, UriError>
    requires sip_inv(self),
    ensures r matches Ok(u) ==> sip_inv(u) && uv(u) == (SU { host: lower(host@), ..uv(self) }),
        r.is_ok() == host_ok(host@),
@entry
    proof { if host_ok(host@) { lower_host(host@); } }
//@end
//@fn SipUri::without_port
    requires sip_inv(self),
    ensures sip_inv(r) && uv(r) == (SU { port: None, ..uv(self) }),
//@end
//@fn SipUri::with_user
@sig (self, user: SmolStr) -> Result<Self, UriError>
    requires sip_inv(self),
    ensures r matches Ok(u) ==> sip_inv(u) && uv(u) == (SU { user: Some(user@), ..uv(self) }),
        r.is_ok() == user_ok(user@),
//@end
//@fn SipUri::with_port
    requires sip_inv(self),
    ensures r matches Ok(u) ==> sip_inv(u) && uv(u) == (SU { port: Some(port as nat), ..uv(self) }),
        r.is_ok() == (port > 0),
//@end
//@fn SipUri::without_uri_headers
    requires sip_inv(self),
    ensures sip_inv(r) && uv(r) == (SU { headers: Map::empty(), ..uv(self) }),
@entry
    proof { empties(); if self.headers@.dom().len() == 0 { assert(uv(self).headers =~= Map::empty()); } }
//@end
//@fn SipUri::with_param
@sig (self, name: SmolStr, value: Option<SmolStr>) -> Result<Self, UriError>
    requires sip_inv(self),
    ensures r matches Ok(u) ==> sip_inv(u) && uv(u) == (SU { params: uv(self).params.insert(lower(name@), ov(value)), ..uv(self) }),
        r.is_ok() == (uv(self).params.dom().len() < 50 && pname_ok(name@) && (value matches Some(v) ==> pval_ok(v@))),
@entry
    proof { if pname_ok(name@) { lower_name(name@); } pmap_ins(self.params@, lower(name@), value); ins_fin(self.params@, lower(name@), value); pmap_ins(self.params@.insert(lower(name@), value), lower(name@), value); }
//@end
}
}

// ---- telephone URIs -----------------------------------------------------------------------------------------------
//@rewrite for c in $x . chars ( ) { $*b } ==> let cs__ = $x.x_chars(); let mut i__: usize = 0; while i__ < cs__.len() { let c = cs__[i__]; i__ += 1; $b }
//@rewrite $x . chars ( ) . skip ( 1 ) . any ( | c | $*b ) ==> { let cs__ = $x.x_chars(); let mut f__ = false; let mut i__: usize = 1; while i__ < cs__.len() { let c = cs__[i__]; if $b { f__ = true; break; } i__ += 1; } f__ }
//@rewrite for label in lower . split ( $*c ) { $*b } ==> let ls__ = lower.as_str().x_split_c($c); let mut i__: usize = 0; while i__ < ls__.len() { let label = ls__[i__]; i__ += 1; $b }
//@rewrite let normalized : String = number . chars ( ) . filter ( | c | $*b ) . collect ( ) ; ==> let cs__ = number.x_chars(); let mut normalized = String::new(); let mut i__: usize = 0; while i__ < cs__.len() { let c = cs__[i__]; i__ += 1; if $b { normalized.x_pushc(c); } }
//@rewrite SmolStr :: new ( normalized ) ==> SmolStr::from_string(normalized)
//@rewrite rest . split ( ';' ) ==> rest.x_split_it(';')
//@rewrite for param in parts { $*b } ==> while let Some(param) = parts.next() { $b }
//@rewrite parameters . get ( "phone-context" ) ==> parameters.get(&SmolStr::new("phone-context"))
//@rewrite parameters : BTreeMap < SmolStr , Option < SmolStr >> ==> parameters: BMap<Option<SmolStr>>
//@rewrite . contains_key ( "phone-context" ) ==> .contains_key(&SmolStr::new("phone-context"))
//@rewrite validate_telephone_number ( & number ) ==> validate_telephone_number(number.as_str())
//@rewrite normalize_global_number ( & number ) ==> normalize_global_number(number.as_str())
//@rewrite validate_parameter_value ( & v ) ==> validate_parameter_value(v.as_str())
//@rewrite let v = v . into ( ) ; ==> let v = v.to_smol();
//@rewrite validate_phone_context ( & $v ) ==> validate_phone_context($v.as_str())
//@rewrite label . ends_with ( $*c ) ==> label.x_ends_with_c($c)
//@rewrite lower . ends_with ( $*c ) ==> lower.as_str().x_ends_with_c($c)
//@rewrite lower . starts_with ( $*c ) ==> lower.as_str().starts_with($c)
//@rewrite lower . contains ( $*c ) ==> lower.as_str().contains($c)
//@rewrite lower . split ==> lower.as_str().split
pub mod te {
use super::*;
use super::bd::*;
use super::mk::*;
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sx::pat_s, sx::ws_ascii, sx::ctrl_ascii, sm::smol_ext};
/// visual separators
pub open spec fn sepc(c: char) -> bool { c == '-' || c == '.' || c == ' ' || c == '(' || c == ')' }
pub open spec fn dtmf(c: char) -> bool { c == '*' || c == '#' || c == 'A' || c == 'B' || c == 'C' || c == 'D' || c == 'a' || c == 'b' || c == 'c' || c == 'd' }
pub open spec fn numc(c: char, global: bool) -> bool { is_digit(c) || sepc(c) || (!global && dtmf(c)) }
pub open spec fn is_glob(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '+' }
pub open spec fn gfrom(s: Seq<char>) -> int { if is_glob(s) { 1 } else { 0 } }
/// a telephone number: '+', digits and separators; or digits, separators and the other keys of a telephone
#[verifier::opaque]
pub open spec fn num_ok(s: Seq<char>) -> bool {
    s.len() > 0 && blen(s) <= 64 && (forall|i: int| gfrom(s) <= i < s.len() ==> numc(#[trigger] s[i], is_glob(s))) && (exists|i: int| gfrom(s) <= i < s.len() && is_digit(#[trigger] s[i]))
}
/// the number without separators
pub open spec fn norm(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if sepc(s.last()) { norm(s.drop_last()) } else { norm(s.drop_last()).push(s.last()) } }
pub open spec fn gctxc(c: char) -> bool { is_digit(c) || c == '-' || c == '.' || c == '(' || c == ')' || c == 'A' || c == 'B' || c == 'C' || c == 'D' || c == '*' || c == '#' }
pub open spec fn labc(c: char) -> bool { is_alnum(c) || c == '-' }
pub open spec fn lab_ok(l: Seq<char>) -> bool { 0 < l.len() && blen(l) <= 63 && l[0] != '-' && l.last() != '-' && forall|i: int| 0 <= i < l.len() ==> labc(#[trigger] l[i]) }
pub open spec fn dotdot() -> Seq<char> { seq!['.', '.'] }
pub open spec fn dom_ok(l: Seq<char>) -> bool { !(l.len() > 0 && l[0] == '.') && !(l.len() > 0 && l.last() == '.') && !occ(l, Pat::S(dotdot())) && forall|i: int| 0 <= i < fields(l, '.').len() ==> lab_ok(#[trigger] fields(l, '.')[i]) }
/// a phone-context: '+' and digits, or a domain name
#[verifier::opaque]
pub open spec fn ctx_ok(s: Seq<char>) -> bool {
    s.len() > 0 && blen(s) <= 256 && !has_ctrl(s) &&
    if s[0] == '+' { (forall|i: int| 1 <= i < s.len() ==> gctxc(#[trigger] s[i])) && (exists|i: int| 1 <= i < s.len() && is_digit(#[trigger] s[i])) } else { dom_ok(lower(s)) }
}
pub open spec fn tnc(c: char) -> bool { !is_ctrl(c) && !is_ws(c) && c != ';' && c != '=' }
#[verifier::opaque]
pub open spec fn tname_ok(s: Seq<char>) -> bool { s.len() > 0 && blen(s) <= 32 && forall|i: int| 0 <= i < s.len() ==> tnc(#[trigger] s[i]) }
pub open spec fn tvc(c: char) -> bool { !is_ctrl(c) && !is_ws(c) && c != ';' }
#[verifier::opaque]
pub open spec fn tval_ok(s: Seq<char>) -> bool { blen(s) <= 128 && forall|i: int| 0 <= i < s.len() ==> tvc(#[trigger] s[i]) }
pub open spec fn pctx() -> Seq<char> { "phone-context"@ }
//@file crates/sip-core/src/tel_uri.rs
//@struct TelUri
//@enum TelUriError
//@const MAX_TELEPHONE_NUMBER_LENGTH
//@const MAX_PHONE_CONTEXT_LENGTH
//@const MAX_PARAMETER_NAME_LENGTH
//@const MAX_PARAMETER_VALUE_LENGTH
//@const MAX_PARAMETERS
proof fn num_ctrl(s: Seq<char>) ensures num_ok(s) ==> !has_ctrl(s)
{ reveal(num_ok); if num_ok(s) && has_ctrl(s) { let i = choose|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]); if i >= gfrom(s) { assert(numc(s[i], is_glob(s))); } } }
//@fn validate_telephone_number
@fmt
    ensures r.is_ok() == num_ok(number@),
@entry
    proof { reveal(num_ok); blen_len(number@); num_ctrl(number@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 1 <= j < i__ ==> numc(#[trigger] cs__@[j], true),
    invariant 1 <= i__ <= cs__@.len(), cs__@ == number@, is_glob(number@),
    ensures f__ == !(forall|j: int| 1 <= j < number@.len() ==> numc(#[trigger] number@[j], true)),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break !f__, forall|j: int| 1 <= j < i__ ==> !is_digit(#[trigger] cs__@[j]),
    invariant 1 <= i__ <= cs__@.len(), cs__@ == number@,
    ensures f__ == (exists|j: int| 1 <= j < number@.len() && is_digit(#[trigger] number@[j])),
    decreases cs__@.len() - i__,
@loop 3
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> numc(#[trigger] cs__@[j], false),
    invariant i__ <= cs__@.len(), cs__@ == number@,
    ensures f__ == !(forall|j: int| 0 <= j < number@.len() ==> numc(#[trigger] number@[j], false)),
    decreases cs__@.len() - i__,
@loop 4
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_digit(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == number@,
    ensures f__ == (exists|j: int| 0 <= j < number@.len() && is_digit(#[trigger] number@[j])),
    decreases cs__@.len() - i__,
//@end
pub proof fn ctx_is(s: Seq<char>) ensures ctx_ok(s) == (s.len() > 0 && blen(s) <= 256 && !has_ctrl(s) && if s[0] == '+' { (forall|i: int| 1 <= i < s.len() ==> gctxc(#[trigger] s[i])) && (exists|i: int| 1 <= i < s.len() && is_digit(#[trigger] s[i])) } else { dom_ok(lower(s)) }) { reveal(ctx_ok); }
//@fn validate_phone_context
@fmt
    ensures r.is_ok() == ctx_ok(context@),
@entry
    proof { ctx_is(context@); blen_len(context@); reveal_strlit(".."); assert(".."@ =~= dotdot()); }
@loop 1
    invariant i__ <= cs__@.len(), cs__@ == rest@, context@.len() > 0, context@[0] == '+', rest@ == context@.skip(1),
        forall|j: int| 0 <= j < i__ ==> gctxc(#[trigger] rest@[j]), has_digit == (exists|j: int| 0 <= j < i__ && is_digit(#[trigger] rest@[j])),
        forall|i: int| 0 <= i < rest@.len() ==> #[trigger] rest@[i] == context@[i + 1],
        ctx_ok(context@) ==> forall|i: int| 1 <= i < context@.len() ==> gctxc(#[trigger] context@[i]),
    decreases cs__@.len() - i__,
@afterloop 1
    proof {
        assert forall|i: int| 1 <= i < context@.len() implies gctxc(#[trigger] context@[i]) by { assert(rest@[i - 1] == context@[i]); }
        if has_digit { let j = choose|j: int| 0 <= j < rest@.len() && is_digit(#[trigger] rest@[j]); assert(is_digit(context@[j + 1])); }
        if exists|i: int| 1 <= i < context@.len() && is_digit(#[trigger] context@[i]) { let i = choose|i: int| 1 <= i < context@.len() && is_digit(#[trigger] context@[i]); assert(is_digit(rest@[i - 1])); }
    }
@loop 2
    invariant i__ <= ls__@.len(), views(ls__@) == fields(lower@, '.'), forall|j: int| 0 <= j < i__ ==> lab_ok(fields(lower@, '.')[j]),
        ctx_ok(context@) ==> forall|i: int| 0 <= i < fields(lower@, '.').len() ==> lab_ok(#[trigger] fields(lower@, '.')[i]),
    decreases ls__@.len() - i__,
@loopbody 2
    proof { let l = ls__@[i__ as int]; blen_len(l@); assert(views(ls__@)[i__ as int] == l@); }
@loop 3
    invariant i__ <= cs__@.len(), cs__@ == label@, forall|j: int| 0 <= j < i__ ==> labc(#[trigger] label@[j]),
        ctx_ok(context@) ==> lab_ok(label@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_parameter_name
    ensures r.is_ok() == tname_ok(name@),
@entry
    proof { reveal(tname_ok); blen_len(name@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> tnc(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == !(forall|j: int| 0 <= j < name@.len() ==> tnc(#[trigger] name@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_parameter_value
    ensures r.is_ok() == tval_ok(value@),
@entry
    proof { reveal(tval_ok); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> tvc(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == value@,
    ensures f__ == !(forall|j: int| 0 <= j < value@.len() ==> tvc(#[trigger] value@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn normalize_global_number
    ensures r@ == norm(number@),
@loop 1
    invariant i__ <= cs__@.len(), cs__@ == number@, normalized@ == norm(number@.take(i__ as int)),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(number@.take(i__ + 1).drop_last() =~= number@.take(i__ as int)); }
@afterloop 1
    proof { assert(number@.take(i__ as int) =~= number@); }
//@end
// reading
pub ghost struct TU { pub number: Seq<char>, pub global: bool, pub ctx: Option<Seq<char>>, pub params: Map<Seq<char>, Option<Seq<char>>> }
pub open spec fn tpv(k: Seq<char>, v: Seq<char>) -> bool { if k == pctx() { ctx_ok(v) } else { tval_ok(v) } }
pub open spec fn tkv(m: Map<Seq<char>, Option<Seq<char>>>, k: Seq<char>, v: Seq<char>) -> Option<Map<Seq<char>, Option<Seq<char>>>> { if tname_ok(k) && tpv(lower(k), v) { Some(m.insert(lower(k), Some(v))) } else { None } }
pub open spec fn any_ws(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_ws(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn tstep(m: Map<Seq<char>, Option<Seq<char>>>, p: Seq<char>) -> Option<Map<Seq<char>, Option<Seq<char>>>> {
    if p.len() == 0 { Some(m) } else if any_ws(p) { None } else {
        match cut(p, '=') { (k, Some(v)) => tkv(m, k, v), (k, None) => if tname_ok(p) { Some(m.insert(lower(p), None)) } else { None } }
    }
}
pub open spec fn tfold(fs: Seq<Seq<char>>) -> Option<Map<Seq<char>, Option<Seq<char>>>> decreases fs.len() {
    if fs.len() == 0 { Some(Map::empty()) } else { match tfold(fs.drop_last()) { Some(m) => if m.dom().len() >= 20 { None } else { tstep(m, fs.last()) }, None => None } }
}
pub open spec fn ctx_of(m: Map<Seq<char>, Option<Seq<char>>>) -> Option<Seq<char>> { if m.contains_key(pctx()) { m[pctx()] } else { None } }
pub open spec fn tel_s() -> Seq<char> { "tel"@ }
pub open spec fn numv(n: Seq<char>) -> Seq<char> { if is_glob(n) { norm(n) } else { n } }
#[verifier::opaque]
pub open spec fn tel_rest(rest: Seq<char>) -> Option<TU> {
    let fs = fields(rest, ';'); let n = trim_s(fs[0]);
    if !num_ok(n) { None } else { match tfold(fs.skip(1)) {
        None => None,
        Some(m) => if is_glob(n) == ctx_of(m).is_some() { None } else { Some(TU { number: numv(n), global: is_glob(n), ctx: ctx_of(m), params: m }) }
    } }
}
/// what the text says, if it is a telephone URI
pub open spec fn tel_parse(x: Seq<char>) -> Option<TU> {
    if has_ctrl(x) { None } else { match cut(x, ':') { (sch, Some(rest)) => if eq_ci(sch, tel_s()) { tel_rest(rest) } else { None }, (sch, None) => None } }
}
pub open spec fn tuv(u: TelUri) -> TU { TU { number: u.number@, global: u.is_global, ctx: ov(u.phone_context), params: pmap(u.parameters@) } }
pub proof fn tstep_is(m: Map<Seq<char>, Option<Seq<char>>>, p: Seq<char>)
    ensures p.len() == 0 ==> tstep(m, p) == Some(m), p.len() > 0 && any_ws(p) ==> tstep(m, p).is_none(),
        p.len() > 0 && !any_ws(p) && !occ(p, Pat::C('=')) ==> tstep(m, p) == (if tname_ok(p) { Some(m.insert(lower(p), None)) } else { None }),
        p.len() > 0 && !any_ws(p) ==> forall|n: int| #[trigger] first(p, Pat::C('='), n) ==> tstep(m, p) == tkv(m, p.take(n), p.skip(n + 1)),
{ reveal(tstep); if !occ(p, Pat::C('=')) { cut_none(p, '='); } assert forall|n: int| #[trigger] first(p, Pat::C('='), n) && p.len() > 0 && !any_ws(p) implies tstep(m, p) == tkv(m, p.take(n), p.skip(n + 1)) by { cut_some(p, '=', n); } }
pub proof fn tfold_none(fs: Seq<Seq<char>>, i: int) requires 0 <= i <= fs.len(), tfold(fs.take(i)).is_none() ensures tfold(fs).is_none() decreases fs.len()
{ if i < fs.len() { assert(fs.drop_last().take(i) =~= fs.take(i)); tfold_none(fs.drop_last(), i); } else { assert(fs.take(i) =~= fs); } }
pub proof fn pctx_low() ensures lower(pctx()) == pctx(), pctx().len() == 13, ascii(pctx()), tname_ok(pctx()), forall|k: Seq<char>| #[trigger] eq_ci(k, pctx()) == (lower(k) == pctx())
{
    reveal_strlit("phone-context"); let p = pctx(); assert(lower(p) =~= p);
    assert forall|i: int| 0 <= i < p.len() implies tnc(#[trigger] p[i]) && (p[i] as u32) < 128 by { }
    blen_ascii(p); reveal(tname_ok);
}
pub proof fn num_pos() ensures forall|s: Seq<char>| #[trigger] num_ok(s) ==> s.len() > 0 { reveal(num_ok); }
pub mod tp {
use super::*;
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sl::fields_some, sm::smol_ext};
impl TelUri {
//@fn TelUri::parse
@fmt
@rewrite let mut parts = rest . x_split_it ( ';' ) ; ==> proof { reveal(tel_rest); pctx_low(); let fs = fields(rest@, ';'); assert(fs.skip(1).take(fs.len() - 1) =~= fs.skip(1)); assert(fs.skip(1).take(0) =~= Seq::empty()); } let mut parts = rest.x_split_it(';');
    ensures match r { Ok(u) => u.raw@ == input@ && tel_parse(input@) == Some(tuv(u)), Err(_) => tel_parse(input@).is_none() },
@entry
    broadcast use sx::first_is;
    proof { empties(); num_pos(); if !occ(input@, Pat::C(':')) { cut_none(input@, ':'); } else { first_any(input@, ':'); cut_some(input@, ':', fidx(input@, Pat::C(':'))); } blen_len(input@); }
@loop 1
    invariant parts.wf(), views(parts.v@) == fields(rest@, ';'), parts.i >= 1, pctx() == "phone-context"@, tfold(fields(rest@, ';').skip(1)).is_none() ==> tel_parse(input@).is_none(), fields(rest@, ';').skip(1).take(fields(rest@, ';').len() - 1) == fields(rest@, ';').skip(1), tfold(fields(rest@, ';').skip(1).take(parts.i - 1)) == Some(pmap(parameters@)),
    ensures tfold(fields(rest@, ';').skip(1)) == Some(pmap(parameters@)),
    decreases parts.v@.len() - parts.i,
@loopbody 1
    proof { let fs = fields(rest@, ';').skip(1); let n = parts.i - 1; pctx_low(); blen_len(param@); tstep_is(pmap(parameters@), param@); assert(fs.take(n).drop_last() =~= fs.take(n - 1)); assert(fs.take(n).last() == param@); assert(tfold(fs.take(n)).is_none() ==> tfold(fs).is_none()) by { if tfold(fs.take(n)).is_none() { tfold_none(fs, n); } }
        assert forall|k: Seq<char>, v: Option<SmolStr>| true implies #[trigger] pmap(parameters@.insert(k, v)) == pmap(parameters@).insert(k, ov(v)) by { pmap_ins(parameters@, k, v); } pmap_ins(parameters@, param@, None); }
@loop 2
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_ws(#[trigger] cs__@[j]),
    invariant i__ <= cs__@.len(), cs__@ == param@,
    ensures f__ == any_ws(param@),
    decreases cs__@.len() - i__,
//@end
}
}
// what reading guarantees of the parts, and printing
pub open spec fn tparam_ok(m: Map<Seq<char>, Option<Seq<char>>>, k: Seq<char>) -> bool { tname_ok(k) && lower(k) == k && (m[k] matches Some(v) ==> tpv(k, v)) }
pub open spec fn tparts(m: Map<Seq<char>, Option<Seq<char>>>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> tparam_ok(m, k) }
/// what the parts of every telephone URI satisfy
pub open spec fn tel_ok(u: TU) -> bool {
    &&& num_ok(u.number) && trim_s(u.number) == u.number && numv(u.number) == u.number && is_glob(u.number) == u.global
    &&& u.ctx == ctx_of(u.params) && (u.global ==> u.ctx.is_none())
    &&& u.params.dom().len() <= 20 && tparts(u.params)
}
/// a local number needs its phone-context to be a URI
pub open spec fn tel_full(u: TU) -> bool { u.global || u.ctx.is_some() }
pub open spec fn tel_says(t: Seq<char>, u: TU) -> bool { !has_ctrl(t) && (tel_full(u) ==> tel_parse(t) == Some(u)) }
pub open spec fn tel_inv(u: TelUri) -> bool { tel_ok(tuv(u)) && tel_says(u.raw@, tuv(u)) }
pub proof fn blen_lower(s: Seq<char>) ensures blen(lower(s)) == blen(s) decreases s.len()
{
    if s.len() == 0 { assert(lower(s) =~= s); }
    else { blen_first(s); blen_first(lower(s)); assert(lower(s).drop_first() =~= lower(s.drop_first())); blen_lower(s.drop_first()); assert(clen(low(s[0])) == clen(s[0])); }
}
pub proof fn lower_twice(s: Seq<char>) ensures lower(lower(s)) == lower(s)
{ assert forall|i: int| 0 <= i < s.len() implies low(low(#[trigger] s[i])) == low(s[i]) by { } assert(lower(lower(s)) =~= lower(s)); }
pub proof fn lower_tname(k: Seq<char>) requires tname_ok(k) ensures tname_ok(lower(k)), lower(lower(k)) == lower(k)
{
    reveal(tname_ok); blen_lower(k); lower_twice(k);
    let l = lower(k);
    assert forall|i: int| 0 <= i < l.len() implies tnc(#[trigger] l[i]) by { assert(tnc(k[i])); }
}
pub proof fn norm_is(s: Seq<char>) ensures norm(s).len() <= s.len(), forall|i: int| 0 <= i < norm(s).len() ==> !sepc(#[trigger] norm(s)[i]) && s.contains(norm(s)[i]),
        s.len() > 0 && !sepc(s[0]) ==> norm(s).len() > 0 && norm(s)[0] == s[0],
        forall|c: char| #[trigger] s.contains(c) && !sepc(c) ==> norm(s).contains(c)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); norm_is(d); let n = norm(s);
        assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < n.len() implies !sepc(#[trigger] n[i]) && s.contains(n[i]) by { if i < norm(d).len() { assert(n[i] == norm(d)[i]); let j = choose|j: int| 0 <= j < d.len() && d[j] == n[i]; assert(s[j] == n[i]); } }
        assert forall|c: char| #[trigger] s.contains(c) && !sepc(c) implies n.contains(c) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == c;
            if j < d.len() { assert(d[j] == c); assert(d.contains(c)); let q = choose|q: int| 0 <= q < norm(d).len() && norm(d)[q] == c; assert(n[q] == c); } else { assert(n[n.len() - 1] == c); }
        }
        if !sepc(s[0]) { if s.len() > 1 { assert(d[0] == s[0]); assert(n[0] == norm(d)[0]); } }
    }
}
pub proof fn norm_same(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> !sepc(#[trigger] s[i]) ensures norm(s) == s decreases s.len()
{ if s.len() > 0 { assert(!sepc(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.len() - 1 implies !sepc(#[trigger] s.drop_last()[i]) by { assert(!sepc(s[i])); } norm_same(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn num_chars(s: Seq<char>) requires num_ok(s) ensures s.len() > 0, ascii(s), lacks(s, ';'), noctrl(s), blen(s) == s.len(), forall|i: int| 0 <= i < s.len() ==> (is_ws(#[trigger] s[i]) == (s[i] == ' '))
{
    reveal(num_ok);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 && s[i] != ';' && !is_ctrl(s[i]) && (is_ws(s[i]) == (s[i] == ' ')) by { if i >= gfrom(s) { assert(numc(s[i], is_glob(s))); } }
    blen_ascii(s);
}
pub proof fn no_ws_trim(s: Seq<char>) requires !any_ws(s) ensures trim_s(s) == s
{ if s.len() > 0 { assert(!is_ws(s[0])); assert(!is_ws(s[s.len() - 1])); assert(trim_l(s) == s); } }
/// separators dropped, a global number stays one
pub proof fn norm_num(n: Seq<char>) requires num_ok(n), is_glob(n) ensures num_ok(norm(n)), is_glob(norm(n)), norm(norm(n)) == norm(n), trim_s(norm(n)) == norm(n)
{
    norm_is(n); num_chars(n); let m = norm(n);
    norm_same(m);
    assert forall|i: int| 0 <= i < m.len() implies !is_ws(#[trigger] m[i]) && (m[i] as u32) < 128 && (is_digit(m[i]) || m[i] == '+') by {
        let j = choose|j: int| 0 <= j < n.len() && n[j] == m[i]; assert(n[j] == m[i]); reveal(num_ok); if j > 0 { assert(numc(n[j], true)); }
    }
    no_ws_trim(m); blen_ascii(m);
    assert(num_ok(m)) by {
        reveal(num_ok);
        let d = choose|d: int| 1 <= d < n.len() && is_digit(#[trigger] n[d]); assert(n.contains(n[d])); assert(m.contains(n[d]));
        let e = choose|e: int| 0 <= e < m.len() && m[e] == n[d]; assert(is_digit(m[e]));
        one_plus(n);
        assert forall|i: int| 1 <= i < m.len() implies numc(#[trigger] m[i], true) by { }
    }
}
pub proof fn one_plus(n: Seq<char>) requires num_ok(n), is_glob(n) ensures forall|i: int| 1 <= i < norm(n).len() ==> is_digit(#[trigger] norm(n)[i]) decreases n.len()
{
    reveal(num_ok);
    one_plus_(n);
}
pub proof fn one_plus_(n: Seq<char>) requires is_glob(n), forall|i: int| 1 <= i < n.len() ==> numc(#[trigger] n[i], true) ensures norm(n).len() >= 1, norm(n)[0] == '+', forall|i: int| 1 <= i < norm(n).len() ==> is_digit(#[trigger] norm(n)[i]) decreases n.len()
{
    norm_is(n);
    if n.len() > 1 {
        let d = n.drop_last(); assert(d[0] == n[0]);
        assert forall|i: int| 1 <= i < d.len() implies numc(#[trigger] d[i], true) by { assert(numc(n[i], true)); }
        one_plus_(d); assert(numc(n[n.len() - 1], true));
    } else { let d = n.drop_last(); assert(norm(d) =~= Seq::empty()); }
}
/// a trimmed text has no blanks at its ends
pub proof fn trim_l_ends(s: Seq<char>) ensures trim_l(s).len() > 0 ==> !is_ws(trim_l(s)[0]) decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_l_ends(s.drop_first()); } }
pub proof fn trim_r_ends(s: Seq<char>) ensures trim_r(s).len() > 0 ==> !is_ws(trim_r(s).last()) && trim_r(s)[0] == s[0], trim_r(s).len() <= s.len() decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_r_ends(s.drop_last()); } }
pub proof fn trim_twice(s: Seq<char>) ensures trim_s(trim_s(s)) == trim_s(s), trim_s(s).len() > 0 ==> !is_ws(trim_s(s)[0]) && !is_ws(trim_s(s).last())
{ trim_l_ends(s); trim_r_ends(trim_l(s)); let t = trim_s(s); if t.len() > 0 { assert(trim_l(t) == t); assert(trim_r(t) == t); } }
pub proof fn trim_r_num(s: Seq<char>, g: bool) requires forall|i: int| 0 <= i < s.len() ==> numc(#[trigger] s[i], g), exists|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < trim_r(s).len() ==> numc(#[trigger] trim_r(s)[i], g), exists|i: int| 0 <= i < trim_r(s).len() && is_digit(#[trigger] trim_r(s)[i]), trim_r(s).len() <= s.len() decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { let d = s.drop_last(); let k = choose|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]); assert(k < s.len() - 1) by { if k == s.len() - 1 { assert(is_ws(s[k])); } } assert(d[k] == s[k]); assert forall|i: int| 0 <= i < d.len() implies numc(#[trigger] d[i], g) by { assert(numc(s[i], g)); } trim_r_num(d, g); } else { assert(trim_r(s) == s); let k = choose|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]); assert(is_digit(trim_r(s)[k])); } }
pub proof fn trim_l_num(s: Seq<char>, g: bool) requires forall|i: int| 0 <= i < s.len() ==> numc(#[trigger] s[i], g), exists|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < trim_l(s).len() ==> numc(#[trigger] trim_l(s)[i], g), exists|i: int| 0 <= i < trim_l(s).len() && is_digit(#[trigger] trim_l(s)[i]), trim_l(s).len() <= s.len() decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { let d = s.drop_first(); let k = choose|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]); assert(k > 0) by { if k == 0 { assert(is_ws(s[k])); } } assert(d[k - 1] == s[k]); assert forall|i: int| 0 <= i < d.len() implies numc(#[trigger] d[i], g) by { assert(numc(s[i + 1], g)); } trim_l_num(d, g); } else { assert(trim_l(s) == s); let k = choose|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]); assert(is_digit(trim_l(s)[k])); } }
/// a local number without surrounding blanks is still one
pub proof fn trim_num(n: Seq<char>) requires num_ok(n), !is_glob(n) ensures num_ok(trim_s(n)), !is_glob(trim_s(n))
{
    num_chars(n); reveal(num_ok);
    trim_l_num(n, false); trim_r_num(trim_l(n), false); let t = trim_s(n);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 && t[i] != '+' by { assert(numc(t[i], false)); }
    blen_ascii(t);
}
pub proof fn tfold_parts(fs: Seq<Seq<char>>) requires tfold(fs).is_some() ensures tparts(tfold(fs)->0), tfold(fs)->0.dom().len() <= 20, tfold(fs)->0.dom().finite() decreases fs.len()
{
    if fs.len() > 0 {
        tfold_parts(fs.drop_last());
        let m = tfold(fs.drop_last())->0; let p = fs.last();
        tstep_is(m, p);
        if p.len() > 0 && !any_ws(p) {
            if occ(p, Pat::C('=')) { let n = fidx(p, Pat::C('=')); first_any(p, '='); assert(tstep(m, p) == tkv(m, p.take(n), p.skip(n + 1))); lower_tname(p.take(n)); }
            else { lower_tname(p); }
        }
    }
}
/// whatever is accepted has proper parts
pub proof fn p18_tel_parts(x: Seq<char>) ensures tel_parse(x) matches Some(u) ==> tel_ok(u) && tel_full(u) && !has_ctrl(x)
{
    if let Some(u) = tel_parse(x) {
        let rest = cut(x, ':').1->0; reveal(tel_rest);
        let fs = fields(rest, ';'); let n = trim_s(fs[0]);
        tfold_parts(fs.skip(1)); trim_twice(fs[0]);
        if is_glob(n) { norm_num(n); }
    }
}
pub open spec fn tkeys(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < ks.len() ==> tparam_ok(m, #[trigger] ks[i]) }
pub open spec fn tclean(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> tvc(#[trigger] s[i]) }
pub proof fn ctx_clean(v: Seq<char>) requires ctx_ok(v) ensures tclean(v)
{
    ctx_is(v);
    if v[0] == '+' { assert forall|i: int| 0 <= i < v.len() implies tvc(#[trigger] v[i]) by { if i > 0 { assert(gctxc(v[i])); } } }
    else {
        let l = lower(v);
        assert forall|i: int| 0 <= i < v.len() implies tvc(#[trigger] v[i]) by {
            fields_cover(l, '.', i);
            if l[i] != '.' { let q = choose|q: (int, int)| 0 <= q.0 < fields(l, '.').len() && 0 <= q.1 < fields(l, '.')[q.0].len() && #[trigger] fields(l, '.')[q.0][q.1] == l[i]; assert(lab_ok(fields(l, '.')[q.0])); assert(labc(fields(l, '.')[q.0][q.1])); }
            assert(l[i] == low(v[i]));
        }
    }
}
/// every character of a text is a separator or inside one of its fields
pub proof fn fields_cover(s: Seq<char>, c: char, i: int) requires 0 <= i < s.len() ensures s[i] == c || exists|q: (int, int)| 0 <= q.0 < fields(s, c).len() && 0 <= q.1 < fields(s, c)[q.0].len() && #[trigger] fields(s, c)[q.0][q.1] == s[i] decreases s.len()
{
    let d = s.drop_last(); let f = fields(d, c); let g = fields(s, c); fields_some(d, c);
    if i == s.len() - 1 { if s[i] != c { let w = g[f.len() - 1]; assert(w == f.last().push(s[i])); let q = (f.len() - 1, w.len() - 1); assert(g[q.0][q.1] == s[i]); } }
    else {
        fields_cover(d, c, i); assert(d[i] == s[i]);
        if s[i] != c { let q = choose|q: (int, int)| 0 <= q.0 < f.len() && 0 <= q.1 < f[q.0].len() && #[trigger] f[q.0][q.1] == d[i]; assert(g[q.0][q.1] == s[i]) by { if s.last() != c && q.0 == f.len() - 1 { assert(g[q.0] == f.last().push(s.last())); } } }
    }
}
pub proof fn tseg_clean(k: Seq<char>, v: Option<Seq<char>>) requires tname_ok(k), v matches Some(x) ==> tpv(k, x) ensures tclean(seg(k, v)), seg(k, v).len() > 0, lacks(k, '='), !any_ws(seg(k, v)), lacks(seg(k, v), ';')
{
    reveal(tname_ok); reveal(tval_ok); let s = seg(k, v);
    if let Some(x) = v { if k == pctx() { ctx_clean(x); } }
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '=' by { assert(tnc(k[i])); }
    assert forall|i: int| 0 <= i < s.len() implies tvc(#[trigger] s[i]) by { match v { Some(x) => { if i < k.len() { assert(s[i] == k[i]); assert(tnc(k[i])); } else if i > k.len() { assert(s[i] == x[i - k.len() - 1]); assert(tvc(x[i - k.len() - 1])); } } None => { assert(tnc(k[i])); } } }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ';' by { assert(tvc(s[i])); }
    if any_ws(s) { let i = choose|i: int| 0 <= i < s.len() && is_ws(#[trigger] s[i]); assert(tvc(s[i])); }
}
pub proof fn tkeys_less(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>) requires tkeys(ks, m), ks.len() > 0 ensures tkeys(ks.drop_last(), m), tparam_ok(m, ks.last())
{ assert(tparam_ok(m, ks[ks.len() - 1])); assert forall|i: int| 0 <= i < ks.len() - 1 implies tparam_ok(m, #[trigger] ks.drop_last()[i]) by { assert(tparam_ok(m, ks[i])); } }
pub proof fn ttail_fields(base: Seq<char>, ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>)
    requires tkeys(ks, m), lacks(base, ';')
    ensures fields(base + ptail(ks, m), ';') == seq![base] + segs(ks, m), noctrl(ptail(ks, m))
    decreases ks.len()
{
    if ks.len() == 0 { assert(base + ptail(ks, m) =~= base); fields_lacks(base, ';'); assert(seq![base] + segs(ks, m) =~= seq![base]); }
    else {
        tkeys_less(ks, m); ttail_fields(base, ks.drop_last(), m);
        let sg = seg(ks.last(), m[ks.last()]);
        tseg_clean(ks.last(), m[ks.last()]);
        assert(base + ptail(ks, m) =~= (base + ptail(ks.drop_last(), m)) + ch(';') + sg);
        fields_add(base + ptail(ks.drop_last(), m), ';', sg);
        assert(seq![base] + segs(ks, m) =~= (seq![base] + segs(ks.drop_last(), m)).push(sg));
        assert(noctrl(sg)) by { assert forall|i: int| 0 <= i < sg.len() implies !is_ctrl(#[trigger] sg[i]) by { assert(tvc(sg[i])); } }
        cat_noctrl(ptail(ks.drop_last(), m), ch(';')); cat_noctrl(ptail(ks.drop_last(), m) + ch(';'), sg);
    }
}
pub proof fn tfold_back(ks: Seq<Seq<char>>, m: Map<Seq<char>, Option<Seq<char>>>)
    requires tkeys(ks, m), ks.no_duplicates(), ks.len() <= 20
    ensures tfold(segs(ks, m)) == Some(part(m, ks))
    decreases ks.len()
{
    if ks.len() == 0 { assert(part(m, ks) =~= Map::empty()); }
    else {
        part_step(m, ks); tkeys_less(ks, m); tfold_back(ks.drop_last(), m);
        let l = ks.last(); let sg = seg(l, m[l]); let m0 = part(m, ks.drop_last());
        assert(segs(ks, m).drop_last() =~= segs(ks.drop_last(), m)); assert(segs(ks, m).last() == sg);
        tseg_clean(l, m[l]); tstep_is(m0, sg);
        match m[l] {
            Some(v) => { cut_at(l, '=', v); assert(sg.take(l.len() as int) =~= l); assert(sg.skip(l.len() as int + 1) =~= v); assert(tstep(m0, sg) == tkv(m0, l, v)); }
            None => { lacks_occ(l, '='); }
        }
    }
}
pub open spec fn tel_print(u: TU, ks: Seq<Seq<char>>) -> Seq<char> { tel_s() + ch(':') + u.number + ptail(ks, u.params) }
/// the text printed from the parts is read back as exactly those parts
pub proof fn p18_tel_print(u: TU, ks: Seq<Seq<char>>) requires tel_ok(u), lists(ks, u.params.dom()) ensures tel_says(tel_print(u, ks), u)
{
    let x = tel_print(u, ks); let pt = ptail(ks, u.params); let rest = u.number + pt;
    reveal_strlit("tel"); ks.unique_seq_to_set();
    assert(tkeys(ks, u.params)) by { assert forall|i: int| 0 <= i < ks.len() implies tparam_ok(u.params, #[trigger] ks[i]) by { assert(ks.contains(ks[i])); assert(ks.to_set().contains(ks[i])); assert(u.params.contains_key(ks[i])); } }
    num_chars(u.number); ttail_fields(u.number, ks, u.params);
    assert(noctrl(tel_s())); cat_noctrl(tel_s(), ch(':')); cat_noctrl(tel_s() + ch(':'), u.number); cat_noctrl(tel_s() + ch(':') + u.number, pt);
    assert(x =~= tel_s() + ch(':') + rest); cut_at(tel_s(), ':', rest);
    tfold_back(ks, u.params); assert(part(u.params, ks) =~= u.params);
    let fs = fields(rest, ';');
    assert(fs.skip(1) =~= segs(ks, u.params)); assert(fs[0] == u.number);
    reveal(tel_rest);
}
//@fn build_raw_uri
@fmt
    ensures forall|u: TU| tel_ok(u) && u.number == number@ && u.params == pmap(parameters@) ==> tel_says(r@, u),
@rewrite for ( key , value ) in parameters { $*b } ==> let ps__ = parameters.pairs(); let mut i__: usize = 0; while i__ < ps__.len() { let key = ps__[i__].0; let value = ps__[i__].1; i__ += 1; $b }
@prewrite SmolStr :: new ( out ) ==> { proof { tbuilt(number@, *parameters, out@); } SmolStr::from_string(out) }
@entry
    proof { reveal_strlit("tel"); reveal_strlit("tel:"); assert("tel:"@ =~= tel_s() + ch(':')); bmap_ks(parameters); }
@loop 1
    invariant i__ <= ps__@.len(), ps__@.len() == parameters.ks().len(), pairs_of(ps__@, *parameters), tel_s() + ch(':') == "tel:"@,
        out@ =~= tel_s() + ch(':') + number@ + ptail(parameters.ks().take(i__ as int), pmap(parameters@)),
    decreases ps__@.len() - i__,
@loopbody 1
    proof { ptail_step(parameters.ks(), pmap(parameters@), i__ as int); assert(parameters@.contains_key(ps__@[i__ as int].0@)); assert(pmap(parameters@).contains_key(parameters.ks()[i__ as int])); }
@afterloop 1
    proof { full(*parameters, i__ as int); }
//@end
pub proof fn tbuilt(n: Seq<char>, m: BMap<Option<SmolStr>>, t: Seq<char>)
    requires t == tel_s() + ch(':') + n + ptail(m.ks(), pmap(m@))
    ensures forall|u: TU| tel_ok(u) && u.number == n && u.params == pmap(m@) ==> tel_says(t, u)
{
    bmap_ks(&m); listed(m, pmap(m@).dom());
    assert forall|u: TU| tel_ok(u) && u.number == n && u.params == pmap(m@) implies tel_says(t, u) by { p18_tel_print(u, m.ks()); }
}
pub proof fn tins(m: Map<Seq<char>, Option<SmolStr>>, k: Seq<char>, v: Option<SmolStr>)
    requires tparts(pmap(m)), tname_ok(k), lower(k) == k, v matches Some(x) ==> tpv(k, x@), m.dom().finite()
    ensures tparts(pmap(m.insert(k, v))), pmap(m.insert(k, v)) == pmap(m).insert(k, ov(v)), pmap(m.insert(k, v)).dom() == m.insert(k, v).dom(), m.insert(k, v).dom().len() <= m.dom().len() + 1, m.contains_key(k) ==> m.insert(k, v).dom().len() == m.dom().len()
{
    pmap_ins(m, k, v); pmap_ins(m.insert(k, v), k, v); ins_fin(m, k, v);
    if m.contains_key(k) { assert(m.insert(k, v).dom() =~= m.dom()); }
    let n = pmap(m.insert(k, v));
    assert forall|q: Seq<char>| #[trigger] n.contains_key(q) implies tparam_ok(n, q) by { if q != k { assert(pmap(m).contains_key(q)); assert(tparam_ok(pmap(m), q)); } }
}
pub mod tm {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, st::str_bytes_bound, sit::bmap_finite, sx::pat_c};
impl TelUri {
//@fn TelUri::new
@fmt
@rewrite SmolStr :: new ( { $*b } ) ==> SmolStr::from_string({ $b })
@rewrite number . starts_with ( '+' ) ==> number.as_str().starts_with('+')
@rewrite SmolStr :: new ( number . trim ( ) ) ==> SmolStr::new(number.as_str().trim())
@sig (number: SmolStr, is_global: bool) -> Result<Self, TelUriError>
    ensures r matches Ok(u) ==> tel_inv(u) && tuv(u) == (TU { number: if is_global { norm(number@) } else { trim_s(number@) }, global: is_global, ctx: None, params: Map::empty() }),
        r.is_ok() == (num_ok(number@) && is_glob(number@) == is_global),
@entry
    proof { empties(); pctx_low(); if num_ok(number@) { num_chars(number@); trim_twice(number@); if is_glob(number@) { norm_num(number@); } else { trim_num(number@); }
        let u = TU { number: if is_global { norm(number@) } else { trim_s(number@) }, global: is_global, ctx: None, params: Map::empty() };
        if is_glob(number@) == is_global { assert(Seq::<Seq<char>>::empty().to_set() =~= u.params.dom()); assert(Seq::<Seq<char>>::empty().no_duplicates()); p18_tel_print(u, Seq::empty()); reveal_strlit("tel"); reveal_strlit("tel:"); assert(tel_print(u, Seq::empty()) =~= "tel:"@ + u.number); } } }
//@end
//@fn TelUri::as_str
    ensures r@ == self.raw@,
//@end
//@fn TelUri::number
    ensures r@ == tuv(*self).number,
//@end
//@fn TelUri::is_global
    ensures r == tuv(*self).global,
//@end
//@fn TelUri::phone_context
@rewrite self . phone_context . as_deref ( ) ==> match self.phone_context { Some(ref t__) => Some(t__.as_str()), None => None }
    ensures (match r { Some(t) => Some(t@), None => None }) == tuv(*self).ctx,
//@end
//@fn TelUri::parameters
    ensures pmap(r@) == tuv(*self).params,
//@end
//@fn TelUri::with_parameter
@sig (self, key: SmolStr, value: Option<SmolStr>) -> Result<Self, TelUriError>
@prewrite SmolStr :: new ( key . into ( ) . to_ascii_lowercase ( ) ) ==> SmolStr::from_string(key.to_ascii_lowercase())
    requires tel_inv(self),
    ensures r matches Ok(u) ==> tel_inv(u) && tuv(u).number == self.number@ && tuv(u).global == self.is_global && tuv(u).params == tuv(self).params.insert(lower(key@), ov(value)),
@entry
    proof { pctx_low(); lower_twice(key@); let k = lower(key@);
        if tname_ok(k) && (ov(value) matches Some(v) ==> tpv(k, v)) { tins(self.parameters@, k, value); } }
//@end
//@fn TelUri::with_phone_context
@sig (self, context: SmolStr) -> Result<Self, TelUriError>
    requires tel_inv(self),
    ensures r matches Ok(u) ==> tel_inv(u) && tuv(u) == (TU { ctx: Some(context@), params: tuv(self).params.insert(pctx(), Some(context@)), ..tuv(self) }),
        r.is_ok() == (!self.is_global && ctx_ok(context@) && (self.parameters@.contains_key(pctx()) || self.parameters@.dom().len() < 20)),
@entry
    proof { pctx_low(); if ctx_ok(context@) { tins(self.parameters@, pctx(), Some(context)); } }
//@end
}
}
}

// ---- any URI ---------------------------------------------------------------------------------------------------------
//@rewrite . map ( Uri :: Tel ) ==> .map(|u__: TelUri| -> (o__: Uri) ensures o__ == Uri::Tel(u__) { Uri::Tel(u__) })
//@rewrite . map ( Uri :: Sip ) ==> .map(|u__: SipUri| -> (o__: Uri) ensures o__ == Uri::Sip(u__) { Uri::Sip(u__) })
//@rewrite . map ( Uri :: Absolute ) ==> .map(|u__: SmolStr| -> (o__: Uri) ensures o__ == Uri::Absolute(u__) { Uri::Absolute(u__) })
//@rewrite let mut chars = trimmed . chars ( ) ; ==> let cs__ = trimmed.x_chars();
//@rewrite chars . next ( ) ==> x_first_c(&cs__)
//@rewrite for ch in chars { $*b } ==> let mut i__: usize = 1; while i__ < cs__.len() { let ch = cs__[i__]; i__ += 1; $b }
//@rewrite ! trimmed [ idx .. ] . starts_with ( ':' ) ==> !trimmed.x_from(idx).starts_with(':')
//@rewrite & trimmed [ idx + 1 .. ] ==> trimmed.x_from(idx + 1)
pub mod an {
use super::*;
use super::te::*;
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sm::smol_ext};
//@file crates/sip-core/src/uri.rs
//@enum Uri
pub fn x_first_c(v: &Vec<char>) -> (r: Option<char>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None::<char> }) { if v.len() > 0 { Some(v[0]) } else { None } }
pub ghost enum UVal { Sip(SU), Tel(TU), Abs }
pub open spec fn schc(c: char) -> bool { is_alnum(c) || c == '+' || c == '-' || c == '.' }
/// scheme ":" and something after it
#[verifier::opaque]
pub open spec fn abs_ok(x: Seq<char>) -> bool {
    blen(x) <= 2048 && match cut(trim_s(x), ':') { (s, Some(rem)) => s.len() > 0 && is_alpha(s[0]) && (forall|i: int| 1 <= i < s.len() ==> schc(#[trigger] s[i])) && rem.len() > 0 && !has_ctrl(rem), (s, None) => false }
}
pub open spec fn scheme_part(t: Seq<char>) -> Seq<char> { match cut(t, ':') { (s, Some(rem)) => s, (s, None) => Seq::empty() } }
/// what a text says, if it is a URI: its text without surrounding blanks and its parts
pub open spec fn uri_parse(x: Seq<char>) -> Option<(Seq<char>, UVal)> {
    let t = trim_s(x); let sch = scheme_part(t);
    if has_ctrl(x) { None }
    else if eq_ci(sch, tel_s()) { match tel_parse(t) { Some(u) => Some((t, UVal::Tel(u))), None => None } }
    else if is_sip_scheme(sch) { match sip_parse(t) { Some(u) => Some((t, UVal::Sip(u))), None => None } }
    else { if abs_ok(t) { Some((t, UVal::Abs)) } else { None } }
}
pub open spec fn utxt(u: Uri) -> Seq<char> { match u { Uri::Sip(s) => s.raw@, Uri::Tel(t) => t.raw@, Uri::Absolute(a) => a@ } }
pub open spec fn uval(u: Uri) -> (Seq<char>, UVal) { (utxt(u), match u { Uri::Sip(s) => UVal::Sip(uv(s)), Uri::Tel(t) => UVal::Tel(tuv(t)), Uri::Absolute(a) => UVal::Abs }) }
proof fn trim_clean(s: Seq<char>) ensures !has_ctrl(s) ==> !has_ctrl(trim_s(s))
{ if !has_ctrl(s) && has_ctrl(trim_s(s)) { let t = trim_s(s); let i = choose|i: int| 0 <= i < t.len() && is_ctrl(#[trigger] t[i]); assert(lacks(s, t[i])) by { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != t[i] by { } } trim_lacks(s, t[i]); } }
/// the text of a URI that was read is read again as the same URI
pub proof fn p18_again(x: Seq<char>) ensures uri_parse(x) matches Some(v) ==> v.0 == trim_s(x) && uri_parse(v.0) == Some(v) && !has_ctrl(v.0)
{ trim_twice(x); trim_clean(x); }
/// what the scan of the scheme has shown
proof fn abs_scan(x: Seq<char>, i: int)
    requires 1 <= i <= trim_s(x).len(), is_alpha(trim_s(x)[0]), forall|j: int| 1 <= j < i ==> schc(#[trigger] trim_s(x)[j]) && trim_s(x)[j] != ':'
    ensures i < trim_s(x).len() && trim_s(x)[i] != ':' && !schc(trim_s(x)[i]) ==> !abs_ok(x), i == trim_s(x).len() ==> !abs_ok(x),
        i < trim_s(x).len() && trim_s(x)[i] == ':' ==> abs_ok(x) == (blen(x) <= 2048 && trim_s(x).skip(i + 1).len() > 0 && !has_ctrl(trim_s(x).skip(i + 1))),
        bnd(trim_s(x), i), cidx(trim_s(x), i) == i, i < trim_s(x).len() && trim_s(x)[i] == ':' ==> bnd(trim_s(x), i + 1) && cidx(trim_s(x), i + 1) == i + 1,
        blen(trim_s(x).skip(i)) == 0 <==> i == trim_s(x).len()
{
    reveal(abs_ok); let t = trim_s(x);
    assert forall|j: int| 0 <= j < i implies (#[trigger] t.take(i)[j] as u32) < 128 by { if j > 0 { assert(schc(t[j])); } }
    blen_ascii(t.take(i)); at_char(t, i); blen_len(t.skip(i));
    if i < t.len() && t[i] == ':' { step_ascii(t, i); }
    if i < t.len() && t[i] == ':' { assert(at(t, Pat::C(':'), i)); assert(occ(t, Pat::C(':'))); }
    if !occ(t, Pat::C(':')) { cut_none(t, ':'); }
    else {
        first_any(t, ':'); let n = fidx(t, Pat::C(':')); cut_some(t, ':', n);
        assert(n >= i) by { if n < i { assert(at(t, Pat::C(':'), n)); if n > 0 { assert(t[n] != ':'); } } }
        if i < t.len() && t[i] == ':' { assert(at(t, Pat::C(':'), i)); assert(n == i); }
        if i < n { assert(t.take(n)[i] == t[i]); }
        if n == i { assert(t.take(n)[0] == t[0]); assert forall|q: int| 1 <= q < t.take(n).len() implies schc(#[trigger] t.take(n)[q]) by { assert(schc(t[q])); } }
    }
}
proof fn abs_start(x: Seq<char>) ensures trim_s(x).len() == 0 || !is_alpha(trim_s(x)[0]) || blen(x) > 2048 ==> !abs_ok(x)
{ reveal(abs_ok); let t = trim_s(x); if !occ(t, Pat::C(':')) { cut_none(t, ':'); } else { first_any(t, ':'); cut_some(t, ':', fidx(t, Pat::C(':'))); } }
//@fn parse_absolute_uri
@fmt
    ensures match r { Ok(s) => s@ == trim_s(input@) && abs_ok(input@), Err(_) => !abs_ok(input@) },
@entry
    proof { abs_start(input@); }
@loop 1
    invariant_except_break idx == i__,
    invariant 1 <= i__ <= cs__@.len(), cs__@ == trimmed@, trimmed@ == trim_s(input@), is_alpha(trimmed@[0]), 1 <= idx <= trimmed@.len(), forall|j: int| 1 <= j < idx ==> schc(#[trigger] trimmed@[j]) && trimmed@[j] != ':',
    ensures idx < trimmed@.len() ==> trimmed@[idx as int] == ':',
    decreases cs__@.len() - i__,
@loopbody 1
    proof { abs_scan(input@, i__ as int); }
@afterloop 1
    proof { abs_scan(input@, idx as int); }
//@end
/// values that were read satisfy the invariant that the builders keep
pub proof fn p18_read_inv(u: SipUri) requires sip_parse(u.raw@) == Some(uv(u)) ensures sip_inv(u) { p18_parts(u.raw@); }
pub proof fn p18_tel_read_inv(u: TelUri) requires tel_parse(u.raw@) == Some(tuv(u)) ensures tel_inv(u) { p18_tel_parts(u.raw@); }
//@file crates/sip-core/src/tel_uri.rs
impl TelUri {
//@fn TelUri::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures final(f)@ == old(f)@ + self.raw@,
//@end
}
//@file crates/sip-core/src/uri.rs
impl Uri {
//@fn Uri::fmt trait=Display
@fmt
@sig (&self, f: &mut Fmtr) -> Result<(), FmtErr>
    ensures final(f)@ == old(f)@ + utxt(*self),
//@end
//@fn Uri::parse
@fmt
    ensures match r { Ok(u) => uri_parse(input@) == Some(uval(u)), Err(_) => uri_parse(input@).is_none() },
@entry
    proof { trim_twice(input@); trim_clean(input@); let t = trim_s(input@); if !occ(t, Pat::C(':')) { cut_none(t, ':'); } else { first_any(t, ':'); cut_some(t, ':', fidx(t, Pat::C(':'))); } assert(""@ =~= Seq::empty()) by { reveal_strlit(""); } }
//@end
//@fn Uri::as_str
    ensures r@ == utxt(*self),
//@end
//@fn Uri::is_sip
    ensures r == (uval(*self).1 is Sip),
//@end
//@fn Uri::is_tel
    ensures r == (uval(*self).1 is Tel),
//@end
//@fn Uri::is_absolute
    ensures r == (uval(*self).1 is Abs),
//@end
//@fn Uri::as_sip
    ensures r matches Some(s) ==> *self == Uri::Sip(*s), r.is_none() ==> !(*self is Sip),
//@end
//@fn Uri::as_tel
    ensures r matches Some(s) ==> *self == Uri::Tel(*s), r.is_none() ==> !(*self is Tel),
//@end
//@fn Uri::without_uri_headers
    requires self matches Uri::Sip(s) ==> sip_inv(s),
    ensures match self { Uri::Sip(s) => (r matches Uri::Sip(t) && sip_inv(t) && uv(t) == (SU { headers: Map::empty(), ..uv(s) })), _ => r == self },
//@end
}
}
}
