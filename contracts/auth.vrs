//@rewrite for ch in input . chars ( ) { $*b } ==> let cs__ = input.x_chars(); let mut i__: usize = 0; while i__ < cs__.len() { let ch = cs__[i__]; i__ += 1; $b }
//@rewrite . trim ( ) . to_owned ( ) ==> .trim().x_string()
//@rewrite . map ( SmolStr :: new ) ==> .x_map_smol()
//@rewrite unreachable ! ( $*x ) ==> vstd::pervasive::unreached()
//@rewrite Result < bool > ==> Result<bool, AErr>
//@rewrite Result < Response > ==> Result<Response, AErr>
//@rewrite Result < Option < $*t > > ==> Result<Option<$t>, AErr>
//@rewrite . as_bytes ( ) ==> .x_bytes()
//@rewrite . ct_eq ( $*a ) . into ( ) ==> .x_ct_eq($a)
//@rewrite u32 :: from_str_radix ( $*a , 16 ) ==> x_u32_hex($a)
//@rewrite hex :: encode ( & $d :: digest ( $*a ) [ .. $n ] ) ==> hex_encode_to($d::digest($a), $n)
//@rewrite hex :: encode ( ==> hex_encode(
//@rewrite format ! ( "{:x}" , md5 :: compute ( $*a ) ) ==> hex_encode(md5_compute($a))
//@rewrite ha1_input . zeroize ( ) ; ==>
//@rewrite Arc < DashMap < SmolStr , Nonce > > ==> DMap<SmolStr, Nonce>
//@rewrite Arc :: new ( DashMap :: new ( ) ) ==> DMap::new()
//@rewrite . to_be_bytes ( ) ==> .x_be8()
//@rewrite rand :: rng ( ) . sample_iter ( Alphanumeric ) . take ( $n ) . map ( char :: from ) . collect ( ) ==> x_rand_alnum($n)
//@rewrite SmolStr :: new ( $*e . to_ascii_lowercase ( ) ) ==> SmolStr::from_string($e.to_ascii_lowercase())
//@rewrite BTreeMap < SmolStr , SmolStr > ==> BMap<SmolStr>
//@rewrite . as_deref ( ) ==> .x_deref()
//@include ../headers
//@include errx
//@include strit
//@include fmt
//@include anyhow
//@include time
//@include dmap
verus! {
/// digests, random tokens, byte views (assumed contracts on md5, sha2, hex, rand, subtle)
pub mod dgx {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::st::*;
    use super::sx::*;
    use super::sm::*;
    use super::fmtx::*;
    pub open spec fn utf(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
    pub uninterp spec fn md5b(d: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn sha256b(d: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn sha512b(d: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn hexs(d: Seq<u8>) -> Seq<char>;
    pub broadcast axiom fn sha512_len(d: Seq<u8>) ensures (#[trigger] sha512b(d)).len() == 64;
    /// a finished digest
    #[verifier::external_body] pub struct Dg { x: u128 }
    impl View for Dg { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    #[verifier::external_body] pub fn md5_compute(d: &[u8]) -> (r: Dg) ensures r@ == md5b(d@) { unimplemented!() }
    #[verifier::external_body] pub fn hex_encode(d: Dg) -> (r: String) ensures r@ == hexs(d@) { unimplemented!() }
    #[verifier::external_body] pub fn hex_encode_to(d: Dg, n: usize) -> (r: String) requires n <= d@.len(), ensures r@ == hexs(d@.take(n as int)) { unimplemented!() }
    #[verifier::external_body] pub struct Sha512 { x: u128 }
    impl Sha512 { #[verifier::external_body] pub fn digest(d: &[u8]) -> (r: Dg) ensures r@ == sha512b(d@) { unimplemented!() } }
    /// a running SHA-256
    #[verifier::external_body] pub struct Sha256 { x: u128 }
    impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Sha256 {
        #[verifier::external_body] pub fn digest(d: &[u8]) -> (r: Dg) ensures r@ == sha256b(d@) { unimplemented!() }
        #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self)@ == old(self)@ + d@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (r: Dg) ensures r@ == sha256b(self@) { unimplemented!() }
    }
    /// a length as eight bytes, most significant first
    pub uninterp spec fn be8(n: nat) -> Seq<u8>;
    pub broadcast axiom fn be8_len(n: nat) ensures (#[trigger] be8(n)).len() == 8;
    pub axiom fn be8_inj(a: nat, b: nat) requires be8(a) == be8(b), a < 0x1_0000_0000_0000_0000, b < 0x1_0000_0000_0000_0000 ensures a == b;
    pub trait XBe8 { spec fn nv(&self) -> nat; fn x_be8(&self) -> (r: &[u8]) ensures r@ == be8(self.nv()); }
    impl XBe8 for u64 { open spec fn nv(&self) -> nat { *self as nat } #[verifier::external_body] fn x_be8(&self) -> (r: &[u8]) { unimplemented!() } }
    pub trait XBytes { spec fn bv(&self) -> Seq<u8>; fn x_bytes(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
    impl XBytes for str { open spec fn bv(&self) -> Seq<u8> { utf(self@) } #[verifier::external_body] fn x_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
    impl XBytes for String { open spec fn bv(&self) -> Seq<u8> { utf(self@) } #[verifier::external_body] fn x_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
    impl XBytes for SmolStr { open spec fn bv(&self) -> Seq<u8> { utf(self@) } #[verifier::external_body] fn x_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
    impl XBytes for Bytes { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn x_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
    /// the same bytes are the same text
    pub axiom fn utf_inj(a: Seq<char>, b: Seq<char>) requires utf(a) == utf(b) ensures a == b;
    pub trait XCt { spec fn cv(&self) -> Seq<u8>; fn x_ct_eq(&self, o: &[u8]) -> (r: bool) ensures r == (self.cv() == o@); }
    impl XCt for [u8] { open spec fn cv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn x_ct_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
    pub open spec fn alnum(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) }
    /// n random letters and digits
    #[verifier::external_body] pub fn x_rand_alnum(n: usize) -> (r: String) ensures r@.len() == n, alnum(r@) { unimplemented!() }
    pub open spec fn hexd(c: char) -> nat { if is_digit(c) { (c as u32 - 48) as nat } else if 'a' <= c && c <= 'f' { (c as u32 - 87) as nat } else { (c as u32 - 55) as nat } }
    pub open spec fn all_hex(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
    pub open spec fn hexn(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { hexn(s.drop_last()) * 16 + hexd(s.last()) } }
    /// u32::from_str_radix(_, 16): optional '+', hex digits, in range
    pub open spec fn hexnum(s: Seq<char>) -> Option<nat> {
        let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
        if all_hex(t) && hexn(t) <= 0xffff_ffff { Some(hexn(t)) } else { None }
    }
    #[verifier::external_body] pub fn x_u32_hex(s: &str) -> (r: Result<u32, NumErr>)
        ensures match r { Ok(v) => hexnum(s@) == Some(v as nat), Err(_) => hexnum(s@).is_none() } { unimplemented!() }
    pub trait XOwn { spec fn ov(&self) -> Seq<char>; fn x_string(&self) -> (r: String) ensures r@ == self.ov(); }
    impl XOwn for SmolStr { open spec fn ov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_string(&self) -> (r: String) { unimplemented!() } }
    impl XOwn for str { open spec fn ov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_string(&self) -> (r: String) { unimplemented!() } }
    pub trait XDeref { spec fn dv(&self) -> Option<Seq<char>>; fn x_deref(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.dv() == Some(t@), None => self.dv().is_none() }; }
    impl XDeref for Option<SmolStr> { open spec fn dv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
    impl XDeref for Option<String> { open spec fn dv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
    pub trait XMapSmol { spec fn mv(&self) -> Option<Seq<char>>; fn x_map_smol(self) -> (r: Option<SmolStr>) ensures match r { Some(t) => self.mv() == Some(t@), None => self.mv().is_none() }, r.is_some() == self.mv().is_some(); }
    impl XMapSmol for Option<&str> { open spec fn mv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_map_smol(self) -> (r: Option<SmolStr>) { unimplemented!() } }
}
use dgx::*;
impl Uri { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }

// ---- the Authorization header ------------------------------------------------------------------------
pub mod pa {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, st::str_bytes_bound};
//@file crates/sip-core/src/auth.rs
//@rewrite & self . scheme ==> self.scheme.as_str()
//@const MAX_SCHEME_LENGTH
//@const MAX_AUTH_PARAMS
//@const MAX_PARAM_NAME_LENGTH
//@const MAX_PARAM_VALUE_LENGTH
//@enum AuthorizationError
//@struct AuthorizationHeader
/// RFC 7230 token characters
pub open spec fn tch(c: char) -> bool { is_alnum(c) || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\'' || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~' }
pub open spec fn all_tch(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> tch(#[trigger] s[i]) }
pub open spec fn scheme_ok(s: Seq<char>) -> bool { 0 < blen(s) <= 64 && all_tch(s) }
pub open spec fn apname_ok(s: Seq<char>) -> bool { 0 < blen(s) <= 64 && all_tch(s) }
pub open spec fn ctl_not_tab(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]) && s[i] != '\t' }
pub open spec fn apval_ok(s: Seq<char>) -> bool { blen(s) <= 256 && !ctl_not_tab(s) }
pub open spec fn ah_ok(h: AuthorizationHeader) -> bool {
    scheme_ok(h.scheme@) && h.params@.dom().len() <= 30 && forall|k: Seq<char>| #[trigger] h.params@.contains_key(k) ==> apname_ok(k) && lower(k) == k && apval_ok(h.params@[k]@)
}
proof fn tch_noctrl(s: Seq<char>) ensures all_tch(s) ==> !has_ctrl(s)
{ if all_tch(s) && has_ctrl(s) { let i = choose|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]); assert(tch(s[i])); ctrl_ascii(s[i]); } }
//@fn is_token_char
    ensures r == tch(c),
@props P01,P03
//@end
//@fn validate_scheme
    ensures r.is_ok() == scheme_ok(scheme@),
@props P01,P03
@entry
    proof { tch_noctrl(scheme@); blen_len(scheme@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> tch(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == scheme@,
    ensures f__ == all_tch(scheme@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_param_name
    ensures r.is_ok() == apname_ok(name@),
@props P01,P03
@entry
    proof { tch_noctrl(name@); blen_len(name@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> tch(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == all_tch(name@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_param_value
    ensures r.is_ok() == apval_ok(value@),
@props P01,P03
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !(is_ctrl(#[trigger] cs__@[j]) && cs__@[j] != '\t'),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == value@,
    ensures f__ == ctl_not_tab(value@),
    decreases cs__@.len() - i__,
//@end
impl AuthorizationHeader {
//@fn AuthorizationHeader::from_raw
@props P01,P03
@fmt
@rewrite for ( name , value ) in params { $*b } ==> let ps__ = params.pairs(); let mut i__: usize = 0; while i__ < ps__.len() { let name = ps__[i__].0.clone(); let value = ps__[i__].1.clone(); i__ += 1; $b }
@rewrite validate_scheme ( & scheme ) ==> validate_scheme(scheme.as_str())
@rewrite validate_param_name ( & name ) ==> validate_param_name(name.as_str())
@rewrite validate_param_value ( & value ) ==> validate_param_value(value.as_str())
@rewrite let mut normalized = BTreeMap :: new ( ) ==> let mut normalized: BMap<SmolStr> = BMap::new()
    requires forall|k: Seq<char>| #[trigger] params@.contains_key(k) ==> lower(k) == k,
    ensures match r {
        Ok(h) => ah_ok(h) && h.scheme == scheme && h.params@ =~= params@,
        Err(_) => !scheme_ok(scheme@) || params@.dom().len() > 30 || exists|k: Seq<char>| #[trigger] params@.contains_key(k) && !(apname_ok(k) && apval_ok(params@[k]@)) },
@loop 1
    invariant 0 <= i__ <= ps__@.len(), scheme_ok(scheme@), forall|k: Seq<char>| #[trigger] params@.contains_key(k) ==> lower(k) == k,
        ps__@.len() == params.ks().len(), ps__@.len() == params@.dom().len(), params@.dom().finite(),
        forall|i: int| 0 <= i < ps__@.len() ==> (#[trigger] ps__@[i]).0@ == params.ks()[i] && params@.contains_key(params.ks()[i]) && *ps__@[i].1 == params@[params.ks()[i]],
        forall|i: int, j: int| 0 <= i < j < ps__@.len() ==> params.ks()[i] != params.ks()[j],
        forall|k: Seq<char>| #[trigger] params@.contains_key(k) ==> params.ks().contains(k),
        normalized@.dom().len() == i__, normalized@.dom().finite(), i__ <= 30,
        forall|j: int| 0 <= j < i__ ==> normalized@.contains_key(#[trigger] params.ks()[j]) && apname_ok(params.ks()[j]) && apval_ok(params@[params.ks()[j]]@),
        forall|k: Seq<char>| #[trigger] normalized@.contains_key(k) ==> params@.contains_key(k) && normalized@[k] == params@[k] && exists|j: int| 0 <= j < i__ && params.ks()[j] == k,
    decreases ps__@.len() - i__,
@afterloop 1
    proof { assert forall|k: Seq<char>| params@.contains_key(k) implies normalized@.contains_key(k) by { let j = choose|j: int| 0 <= j < params.ks().len() && params.ks()[j] == k; assert(normalized@.contains_key(params.ks()[j])); } }
//@end
//@fn AuthorizationHeader::scheme
    ensures r@ == self.scheme@,
@props P01,P03
//@end
//@fn AuthorizationHeader::param
    ensures match r { Some(v) => self.params@.contains_key(lower(name@)) && *v == self.params@[lower(name@)], None => !self.params@.contains_key(lower(name@)) },
@props P01,P03
//@end
}
//@file crates/sip-parse/src/header_values.rs
//@const MAX_PARAMS
/// cutting at the commas that are outside quotes; a part that is only blanks is dropped
pub struct QS { pub parts: Seq<Seq<char>>, pub cur: Seq<char>, pub q: bool, pub esc: bool }
pub open spec fn qflush(p: Seq<Seq<char>>, cur: Seq<char>) -> Seq<Seq<char>> { if trim_s(cur).len() > 0 { p.push(trim_s(cur)) } else { p } }
pub open spec fn qstep(s: QS, c: char) -> QS {
    if s.esc { QS { cur: s.cur.push(c), esc: false, ..s } }
    else if c == '\\' && s.q { QS { cur: s.cur.push(c), esc: true, ..s } }
    else if c == '"' { QS { cur: s.cur.push(c), q: !s.q, ..s } }
    else if c == ',' && !s.q { QS { parts: qflush(s.parts, s.cur), cur: Seq::empty(), ..s } }
    else { QS { cur: s.cur.push(c), ..s } }
}
pub open spec fn qrun(s: Seq<char>) -> QS decreases s.len() {
    if s.len() == 0 { QS { parts: Seq::empty(), cur: Seq::empty(), q: false, esc: false } } else { qstep(qrun(s.drop_last()), s.last()) }
}
pub open spec fn qparts(s: Seq<char>) -> Seq<Seq<char>> { qflush(qrun(s).parts, qrun(s).cur) }
/// parts only grow
proof fn qmono(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures qrun(s.take(i)).parts.len() <= qparts(s).len(), qflush(qrun(s.take(i)).parts, qrun(s.take(i)).cur).len() <= qparts(s).len() + (if i < s.len() { 1int } else { 0 }),
        i < s.len() && s[i] == ',' && !qrun(s.take(i)).q && !qrun(s.take(i)).esc ==> qflush(qrun(s.take(i)).parts, qrun(s.take(i)).cur).len() <= qparts(s).len(),
    decreases s.len() - i
{ assert(s.take(s.len() as int) =~= s); if i < s.len() { qmono(s, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); } }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
//@fn split_quoted_commas
@props P01,P03
@rewrite let mut parts = Vec :: new ( ) ==> let mut parts: Vec<String> = Vec::new()
    ensures match r { Some(v) => !qrun(input@).q && sviews(v@) =~= qparts(input@) && v@.len() <= max_parts, None => qrun(input@).q || qparts(input@).len() > max_parts },
@loop 1
    invariant 0 <= i__ <= cs__@.len(), cs__@ == input@, parts@.len() <= max_parts,
        ({ let s = qrun(input@.take(i__ as int)); sviews(parts@) =~= s.parts && current@ == s.cur && in_quotes == s.q && escape_next == s.esc }),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(input@.take(i__ + 1).drop_last() =~= input@.take(i__ as int)); qmono(input@, i__ as int); qmono(input@, i__ + 1); }
@afterloop 1
    proof { assert(input@.take(input@.len() as int) =~= input@); }
//@end

/// one name=value part added to those before it
pub open spec fn akey(p: Seq<char>) -> Seq<char> { lower(trim_s(p.take(fidx(p, Pat::C('='))))) }
pub open spec fn aval(p: Seq<char>) -> Seq<char> { strip_r(strip_l(trim_s(p.skip(fidx(p, Pat::C('=')) + 1)), '"'), '"') }
pub open spec fn afold(parts: Seq<Seq<char>>) -> Option<Map<Seq<char>, Seq<char>>> decreases parts.len() {
    if parts.len() == 0 { Some(Map::empty()) } else {
        match afold(parts.drop_last()) {
            Some(m) => if occ(parts.last(), Pat::C('=')) && !m.contains_key(akey(parts.last())) { Some(m.insert(akey(parts.last()), aval(parts.last()))) } else { None },
            None => None,
        }
    }
}
pub struct AV { pub scheme: Seq<char>, pub m: Map<Seq<char>, Seq<char>> }
pub open spec fn ascheme(t: Seq<char>) -> Seq<char> { if occ(t, Pat::C(' ')) { trim_s(t.take(fidx(t, Pat::C(' ')))) } else { trim_s(t) } }
pub open spec fn arest(t: Seq<char>) -> Seq<char> { if occ(t, Pat::C(' ')) { t.skip(fidx(t, Pat::C(' ')) + 1) } else { Seq::empty() } }
pub open spec fn legal(scheme: Seq<char>, m: Map<Seq<char>, Seq<char>>) -> bool {
    scheme_ok(scheme) && m.dom().len() <= 30 && forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> apname_ok(k) && apval_ok(m[k])
}
/// what an Authorization value says: the scheme and its parameters, if it is well formed
pub open spec fn auth_of(s: Seq<char>) -> Option<AV> {
    let t = trim_s(s); let rest = arest(t); let parts = qparts(rest);
    if t.len() > 0 && !qrun(rest).q && parts.len() <= 64 && afold(parts).is_some() && legal(ascheme(t), afold(parts).unwrap()) { Some(AV { scheme: ascheme(t), m: afold(parts).unwrap() }) } else { None }
}
pub open spec fn same(p: Map<Seq<char>, SmolStr>, m: Map<Seq<char>, Seq<char>>) -> bool { p.dom() =~= m.dom() && forall|k: Seq<char>| #[trigger] p.contains_key(k) ==> p[k]@ == m[k] }
pub open spec fn says(h: AuthorizationHeader, a: AV) -> bool { h.scheme@ == a.scheme && same(h.params@, a.m) }
pub trait XSplitN { spec fn sn(&self) -> Seq<char>;
    /// splitn(2, c): what is before the first c, and what is after it
    fn x_splitn2<'a>(&'a self, c: char) -> (r: XIt<'a>) ensures r.wf(), r.i == 0,
        if occ(self.sn(), Pat::C(c)) { r.v@.len() == 2 && r.v@[0]@ == self.sn().take(fidx(self.sn(), Pat::C(c))) && r.v@[1]@ == self.sn().skip(fidx(self.sn(), Pat::C(c)) + 1) } else { r.v@.len() == 1 && r.v@[0]@ == self.sn() }; }
impl XSplitN for str { open spec fn sn(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_splitn2<'a>(&'a self, c: char) -> (r: XIt<'a>) { unimplemented!() } }
proof fn afold_pre(parts: Seq<Seq<char>>, i: int)
    requires 0 <= i <= parts.len()
    ensures afold(parts).is_some() ==> afold(parts.take(i)).is_some(), i < parts.len() && afold(parts).is_some() ==> afold(parts.take(i + 1)).is_some()
    decreases parts.len() - i
{ assert(parts.take(parts.len() as int) =~= parts); if i < parts.len() { assert(parts.take(i + 1).drop_last() =~= parts.take(i)); afold_pre(parts, i + 1); } }
proof fn lower2(s: Seq<char>) ensures lower(lower(s)) == lower(s) { assert(lower(lower(s)) =~= lower(s)); }
//@fn parse_auth_like_header
@props P01,P03
@rewrite value . trim ( ) ==> value.as_str().trim()
@rewrite trimmed . splitn ( 2 , ' ' ) ==> trimmed.x_splitn2(' ')
@rewrite . trim_matches ( '"' ) ==> .x_trim_c('"')
@rewrite let mut params = BTreeMap :: new ( ) ==> let mut params: BMap<SmolStr> = BMap::new()
@rewrite for part in $*e { $*b } ==> let ps__ = $e; let mut k__: usize = 0; while k__ < ps__.len() { let part = ps__[k__].as_str(); k__ += 1; $b }
    ensures match r { Some(h) => ah_ok(h) && auth_of(value@).is_some() && says(h, auth_of(value@).unwrap()), None => auth_of(value@).is_none() },
@entry
    broadcast use {sx::first_is};
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@loop 1
    invariant 0 <= k__ <= ps__@.len(), sviews(ps__@) =~= qparts(remainder@), remainder@ == arest(trim_s(value@)), !qrun(remainder@).q, ps__@.len() <= 64, scheme@ == ascheme(trim_s(value@)), trim_s(value@).len() > 0,
        ({ let f = afold(qparts(remainder@).take(k__ as int)); f.is_some() && same(params@, f.unwrap()) }),
        forall|k: Seq<char>| #[trigger] params@.contains_key(k) ==> lower(k) == k,
    decreases ps__@.len() - k__,
@loopbody 1
    proof { let q = qparts(remainder@); assert(q[k__ as int] == sviews(ps__@)[k__ as int]); assert(q.take(k__ + 1).drop_last() =~= q.take(k__ as int)); assert(q.take(k__ + 1).last() == ps__@[k__ as int]@); afold_pre(q, k__ as int);
        let pt = ps__@[k__ as int]@; lower2(trim_s(pt.take(fidx(pt, Pat::C('=')))));
        }
@afterloop 1
    proof { let q = qparts(remainder@); assert(q.take(q.len() as int) =~= q); let m = afold(q).unwrap(); assert(params@.dom() =~= m.dom()); assert(forall|k: Seq<char>| #[trigger] params@.contains_key(k) ==> params@[k]@ == m[k]); assert(forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> params@.contains_key(k)); }
//@end
//@fn parse_authorization_header
    ensures match r { Some(h) => ah_ok(h) && auth_of(value@).is_some() && says(h, auth_of(value@).unwrap()), None => auth_of(value@).is_none() },
@props P01,P03
//@end
}

// ---- digest authentication -----------------------------------------------------------------------------
pub mod au {
use super::*;
use super::pa::*;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, st::str_bytes_bound, tm::now_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext, dgx::sha512_len, dgx::be8_len, sl::at_zero};
//@file crates/sip-auth/src/lib.rs
//@rewrite SmolStr :: new ( token ) ==> SmolStr::from_string(token)
//@rewrite SmolStr :: new ( opaque ) ==> SmolStr::from_string(opaque)
//@rewrite SmolStr :: new ( value ) ==> SmolStr::from_string(value)
//@rewrite SmolStr :: new ( format ! ( $*a ) ) ==> SmolStr::from_string(format!($a))
//@rewrite & self . realm ==> self.realm.as_str()
//@rewrite & self . opaque ==> self.opaque.as_str()
//@rewrite & self . username ==> self.username.as_str()
//@rewrite & self . password ==> self.password.as_str()
//@rewrite & self . value ==> self.value.as_str()
//@const MAX_NONCE_COUNT
//@const DEFAULT_MAX_REQUEST_AGE exec | DEFAULT_MAX_REQUEST_AGE@ == 10_000_000_000
//@const MAX_PARAM_USERNAME_LEN
//@const MAX_PARAM_REALM_LEN
//@const MAX_PARAM_NONCE_LEN
//@const MAX_PARAM_URI_LEN
//@const MAX_PARAM_RESPONSE_LEN
//@const MAX_PARAM_CNONCE_LEN
//@const MAX_PARAM_NC_LEN
//@const MAX_PARAM_OPAQUE_LEN
//@const MAX_BODY_SIZE
//@const MAX_VIA_HOST_LEN
//@const MAX_NC_VALUE
//@const MAX_NC_JUMP
//@struct Credentials
impl Clone for Credentials { #[verifier::external_body] fn clone(&self) -> (r: Credentials) ensures r == *self { unimplemented!() } }
//@enum DigestAlgorithm derive=Clone,Copy
//@enum Qop derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for DigestAlgorithm { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DigestAlgorithm) -> bool { *self == *o } }
impl PartialEq for DigestAlgorithm { #[verifier::external_body] fn eq(&self, o: &DigestAlgorithm) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Qop { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Qop) -> bool { *self == *o } }
impl PartialEq for Qop { #[verifier::external_body] fn eq(&self, o: &Qop) -> (r: bool) { unimplemented!() } }
//@struct Nonce
impl Clone for Nonce { #[verifier::external_body] fn clone(&self) -> (r: Nonce) ensures r == *self { unimplemented!() } }
//@struct NonceManager
//@struct DigestParams
//@struct DigestAuthenticator
//@struct AuthInfo
//@struct DigestClient
/// opaque in this unit
#[verifier::external_body] pub struct RateLimiter { x: u128 }
impl RateLimiter { #[verifier::external_body] pub fn check_rate_limit(&self, k: &String) -> (r: bool) { unimplemented!() } }
/// where passwords come from
pub trait CredentialStore { spec fn holds(&self, u: Seq<char>, r: Seq<char>) -> Option<Credentials>;
    fn fetch(&self, username: &str, realm: &str) -> (r: Option<Credentials>) ensures r == self.holds(username@, realm@); }
impl Credentials {
//@fn Credentials::username
    ensures r@ == self.username@,
@props P01,P03
//@end
//@fn Credentials::password
    ensures r@ == self.password@,
@props P01,P03
//@end
//@fn Credentials::realm
    ensures r@ == self.realm@,
@props P01,P03
//@end
}
//@struct MemoryCredentialStore
pub open spec fn found(v: Seq<Credentials>, u: Seq<char>, r: Seq<char>, i: int) -> Option<Credentials> decreases v.len() - i
{ if i < 0 || i >= v.len() { None } else if v[i].username@ == u && v[i].realm@ == r { Some(v[i]) } else { found(v, u, r, i + 1) } }
impl MemoryCredentialStore {
//@fn MemoryCredentialStore::with
    ensures r.creds@ == creds@,
@props P01,P03
//@end
//@fn MemoryCredentialStore::add
    ensures final(self).creds@ == old(self).creds@.push(creds),
@props P01,P03
//@end
}
impl CredentialStore for MemoryCredentialStore {
    open spec fn holds(&self, u: Seq<char>, r: Seq<char>) -> Option<Credentials> { found(self.creds@, u, r, 0) }
//@fn MemoryCredentialStore::fetch trait=CredentialStore intrait
@props P01,P03
@rewrite self . creds . iter ( ) . find ( | $c | $*b ) . cloned ( ) ==> { let mut f__: Option<Credentials> = None; let mut i__: usize = 0; while i__ < self.creds.len() { let $c = &self.creds[i__]; if $b { f__ = Some($c.clone()); break; } i__ += 1; } f__ }
@rewrite c . username == username ==> c.username.as_str() == username
@rewrite c . realm == realm ==> c.realm.as_str() == realm
@loop 1
    invariant_except_break f__.is_none(), found(self.creds@, username@, realm@, 0) == found(self.creds@, username@, realm@, i__ as int),
    invariant 0 <= i__ <= self.creds.len(),
    ensures f__ == found(self.creds@, username@, realm@, 0),
    decreases self.creds.len() - i__,
//@end
}
// ---- the published formulas (RFC 7616 section 3.4) ------------------------------------------------------
pub open spec fn base_of(a: DigestAlgorithm) -> DigestAlgorithm {
    match a {
        DigestAlgorithm::Md5Sess => DigestAlgorithm::Md5, DigestAlgorithm::Sha256Sess => DigestAlgorithm::Sha256,
        DigestAlgorithm::Sha512Sess => DigestAlgorithm::Sha512, DigestAlgorithm::Sha512_256Sess => DigestAlgorithm::Sha512_256, o => o }
}
pub open spec fn sess(a: DigestAlgorithm) -> bool { a != base_of(a) }
pub open spec fn hb(a: DigestAlgorithm, d: Seq<u8>) -> Seq<char> {
    match base_of(a) { DigestAlgorithm::Md5 => hexs(md5b(d)), DigestAlgorithm::Sha256 => hexs(sha256b(d)), DigestAlgorithm::Sha512 => hexs(sha512b(d)), _ => hexs(sha512b(d).take(32)) }
}
pub open spec fn h(a: DigestAlgorithm, t: Seq<char>) -> Seq<char> { hb(a, utf(t)) }
pub open spec fn e() -> Seq<char> { Seq::empty() }
pub open spec fn c3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char> { e() + a + ":"@ + b + ":"@ + c }
pub open spec fn ha1_base(a: DigestAlgorithm, user: Seq<char>, realm: Seq<char>, pw: Seq<char>) -> Seq<char> { h(a, c3(user, realm, pw)) }
pub open spec fn ha1(a: DigestAlgorithm, base: Seq<char>, nonce: Seq<char>, cn: Seq<char>) -> Seq<char> { if sess(a) { h(a, c3(base, nonce, cn)) } else { base } }
pub open spec fn ha2(a: DigestAlgorithm, q: Option<Qop>, m: Seq<char>, uri: Seq<char>, body: Seq<u8>) -> Seq<char> {
    if q == Some(Qop::AuthInt) { h(a, c3(m, uri, hb(a, body))) } else { h(a, e() + m + ":"@ + uri) }
}
pub open spec fn qt(q: Qop) -> Seq<char> { match q { Qop::Auth => "auth"@, Qop::AuthInt => "auth-int"@ } }
pub open spec fn final6(a: DigestAlgorithm, x1: Seq<char>, nonce: Seq<char>, nc: Seq<char>, cn: Seq<char>, q: Qop, x2: Seq<char>) -> Seq<char> {
    h(a, e() + x1 + ":"@ + nonce + ":"@ + nc + ":"@ + cn + ":"@ + qt(q) + ":"@ + x2)
}
/// the response value
pub open spec fn response(a: DigestAlgorithm, user: Seq<char>, realm: Seq<char>, pw: Seq<char>, m: Seq<char>, uri: Seq<char>, nonce: Seq<char>, nc: Seq<char>, cn: Seq<char>, q: Qop, body: Seq<u8>) -> Seq<char> {
    final6(a, ha1(a, ha1_base(a, user, realm, pw), nonce, cn), nonce, nc, cn, q, ha2(a, Some(q), m, uri, body))
}
pub open spec fn ha2r(a: DigestAlgorithm, q: Qop, uri: Seq<char>, body: Seq<u8>) -> Seq<char> {
    match q { Qop::Auth => h(a, e() + ":"@ + uri), Qop::AuthInt => h(a, e() + ":"@ + uri + ":"@ + hb(a, body)) }
}
/// the server's confirmation (section 3.5): no method, the body of the response
pub open spec fn confirm(a: DigestAlgorithm, user: Seq<char>, realm: Seq<char>, pw: Seq<char>, uri: Seq<char>, nonce: Seq<char>, nc: Seq<char>, cn: Seq<char>, q: Qop, body: Seq<u8>) -> Seq<char> {
    final6(a, ha1(a, ha1_base(a, user, realm, pw), nonce, cn), nonce, nc, cn, q, ha2r(a, q, uri, body))
}
pub open spec fn alg_of(s: Seq<char>) -> Option<DigestAlgorithm> {
    let u = upper(s);
    if u == "MD5"@ { Some(DigestAlgorithm::Md5) } else if u == "MD5-SESS"@ { Some(DigestAlgorithm::Md5Sess) }
    else if u == "SHA-256"@ { Some(DigestAlgorithm::Sha256) } else if u == "SHA-256-SESS"@ { Some(DigestAlgorithm::Sha256Sess) }
    else if u == "SHA-512"@ { Some(DigestAlgorithm::Sha512) } else if u == "SHA-512-SESS"@ { Some(DigestAlgorithm::Sha512Sess) }
    else if u == "SHA-512-256"@ { Some(DigestAlgorithm::Sha512_256) } else if u == "SHA-512-256-SESS"@ { Some(DigestAlgorithm::Sha512_256Sess) } else { None }
}
pub open spec fn alg_t(a: DigestAlgorithm) -> Seq<char> {
    match a { DigestAlgorithm::Md5 => "MD5"@, DigestAlgorithm::Md5Sess => "MD5-sess"@, DigestAlgorithm::Sha256 => "SHA-256"@, DigestAlgorithm::Sha256Sess => "SHA-256-sess"@,
        DigestAlgorithm::Sha512 => "SHA-512"@, DigestAlgorithm::Sha512Sess => "SHA-512-sess"@, DigestAlgorithm::Sha512_256 => "SHA-512-256"@, DigestAlgorithm::Sha512_256Sess => "SHA-512-256-sess"@ }
}
pub open spec fn qop_of(s: Seq<char>) -> Option<Qop> { let l = lower(s); if l == "auth"@ { Some(Qop::Auth) } else if l == "auth-int"@ { Some(Qop::AuthInt) } else { None } }
impl DigestAlgorithm {
//@fn DigestAlgorithm::as_str
    ensures r@ == alg_t(*self),
@props P01,P03
//@end
//@fn DigestAlgorithm::parse
@props P01,P03
@rewrite s . to_ascii_uppercase ( ) . as_str ( ) ==> { let u__ = s.to_ascii_uppercase(); u__ }.as_str()
    ensures r == alg_of(s@),
//@end
//@fn DigestAlgorithm::is_sess
    ensures r == sess(*self),
@props P01,P03
//@end
//@fn DigestAlgorithm::base
    ensures r == base_of(*self),
@props P01,P03
//@end
}
impl Qop {
//@fn Qop::as_str
    ensures r@ == qt(*self),
@props P01,P03
//@end
//@fn Qop::parse
    ensures r == qop_of(s@),
@props P01,P03
//@end
}
pub open spec fn par_ok(s: Seq<char>, max: int) -> bool { blen(s) <= max && one_line(s) }
//@fn validate_param
    ensures r.is_ok() == par_ok(value@, max_len as int),
@props P01,P03
@entry
    proof { lines(value@); }
//@end
proof fn lines(s: Seq<char>)
    ensures one_line(s) == (!occ(s, Pat::C('\r')) && !occ(s, Pat::C('\n')) && !occ(s, Pat::C('\0')))
{
    assert forall|c: char| !#[trigger] occ(s, Pat::C(c)) == (forall|i: int| 0 <= i < s.len() ==> s[i] != c) by {
        if exists|i: int| 0 <= i < s.len() && s[i] == c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(at(s, Pat::C(c), i)); }
    }
}

// ---- challenges -----------------------------------------------------------------------------------------
pub open spec fn since(t: Instant) -> int { if now_ns() >= t@ { now_ns() - t@ } else { 0 } }
pub open spec fn live(n: Nonce) -> bool { since(n.created_at) <= n.ttl@ }
/// what identifies a request to the replay check
pub open spec fn reqtext(m: Seq<char>, uri: Seq<char>, body: Seq<u8>) -> Seq<u8> {
    Seq::<u8>::empty() + be8(utf(m).len()) + utf(m) + be8(utf(uri).len()) + utf(uri) + body
}
pub open spec fn reqhash(m: Seq<char>, uri: Seq<char>, body: Seq<u8>) -> Seq<char> { hexs(sha256b(reqtext(m, uri, body))) }
pub open spec fn lasth(n: Nonce) -> Option<Seq<char>> { match n.last_request_hash { Some(x) => Some(x@), None => None } }
/// the counter value may be used now by the request with that hash
pub open spec fn nc_ok(n: Nonce, nc: int, hh: Seq<char>, age: int) -> bool {
    !(n.last_nc > 0 && since(n.last_used) > age) && (nc > n.last_nc || (nc == n.last_nc && (lasth(n).is_none() || lasth(n) == Some(hh))))
}
pub open spec fn used(a: Nonce, b: Nonce, nc: int, hh: Seq<char>) -> bool {
    b.value == a.value && b.created_at == a.created_at && b.ttl == a.ttl && b.last_nc == nc && lasth(b) == Some(hh) && b.last_used@ == now_ns()
}
pub open spec fn fresh(n: Nonce, ttl: Duration) -> bool {
    n.created_at@ == now_ns() && n.last_used@ == now_ns() && n.ttl == ttl && n.last_nc == 0 && n.last_request_hash.is_none() && n.value@.len() == 32 && alnum(n.value@)
}
pub proof fn ext4(a: Seq<u8>, a2: Seq<u8>, b: Seq<u8>, b2: Seq<u8>)
    requires a + b == a2 + b2, a.len() == a2.len()
    ensures a == a2, b == b2
{ assert(a =~= (a + b).take(a.len() as int)); assert(a2 =~= (a2 + b2).take(a.len() as int)); assert(b =~= (a + b).skip(a.len() as int)); assert(b2 =~= (a2 + b2).skip(a.len() as int)); }
/// [P02] two requests with the same replay text have the same method, target and body
pub proof fn reqtext_inj(m: Seq<char>, u: Seq<char>, b: Seq<u8>, m2: Seq<char>, u2: Seq<char>, b2: Seq<u8>)
    requires reqtext(m, u, b) == reqtext(m2, u2, b2), utf(m).len() < 0x8000_0000_0000_0000, utf(m2).len() < 0x8000_0000_0000_0000, utf(u).len() < 0x8000_0000_0000_0000, utf(u2).len() < 0x8000_0000_0000_0000
    ensures m == m2, u == u2, b == b2
{
    let r1 = utf(m) + (be8(utf(u).len()) + (utf(u) + b)); let r2 = utf(m2) + (be8(utf(u2).len()) + (utf(u2) + b2));
    assert(reqtext(m, u, b) =~= be8(utf(m).len()) + r1);
    assert(reqtext(m2, u2, b2) =~= be8(utf(m2).len()) + r2);
    ext4(be8(utf(m).len()), be8(utf(m2).len()), r1, r2);
    be8_inj(utf(m).len(), utf(m2).len());
    ext4(utf(m), utf(m2), be8(utf(u).len()) + (utf(u) + b), be8(utf(u2).len()) + (utf(u2) + b2));
    ext4(be8(utf(u).len()), be8(utf(u2).len()), utf(u) + b, utf(u2) + b2);
    be8_inj(utf(u).len(), utf(u2).len());
    ext4(utf(u), utf(u2), b, b2);
    utf_inj(m, m2); utf_inj(u, u2);
}
impl Nonce {
//@fn Nonce::new
    ensures fresh(r, ttl),
@props P01,P02
//@end
//@fn Nonce::is_valid
    ensures r == live(*self),
@props P01,P02
//@end
//@fn Nonce::validate_nc_with_request
@props P02
@rewrite ( method . as_str ( ) . len ( ) as u64 ) . to_be_bytes ( ) ==> (method.as_str().x_bytes().len() as u64).x_be8()
@rewrite ( uri . len ( ) as u64 ) . to_be_bytes ( ) ==> (uri.x_bytes().len() as u64).x_be8()
    ensures r == nc_ok(*old(self), nc as int, reqhash(mname(*method), uri@, body@), max_request_age@),
        !r ==> *final(self) == *old(self),
        r ==> used(*old(self), *final(self), nc as int, reqhash(mname(*method), uri@, body@)),
@entry
    proof { let h1 = reqhash(mname(*method), uri@, body@); if let Some(ref x) = self.last_request_hash { if utf(x@) == utf(h1) { utf_inj(x@, h1); } } }
//@end
//@fn Nonce::value
    ensures r@ == self.value@,
@props P02
//@end
//@fn Nonce::created_at
    ensures r == self.created_at,
@props P02
//@end
//@fn Nonce::ttl
    ensures r == self.ttl,
@props P02
//@end
//@fn Nonce::last_nc
    ensures r == self.last_nc,
@props P02
//@end
//@fn Nonce::last_request_hash
    ensures match r { Some(t) => lasth(*self) == Some(t@), None => lasth(*self).is_none() },
@props P02
//@end
//@fn Nonce::last_used
    ensures r == self.last_used,
@props P02
//@end
}

/// what the manager keeps besides the challenges
pub open spec fn conf(a: NonceManager, b: NonceManager) -> bool { a.ttl == b.ttl && a.max_nonces == b.max_nonces && a.max_request_age == b.max_request_age }
pub open spec fn cap(a: NonceManager) -> nat { if a.max_nonces == 0 { 1 } else { a.max_nonces as nat } }
pub open spec fn sub(a: Map<Seq<char>, Nonce>, b: Map<Seq<char>, Nonce>) -> bool { forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k] }
/// the entry for v after one accepted use
pub open spec fn nused(a: Map<Seq<char>, Nonce>, b: Map<Seq<char>, Nonce>, v: Seq<char>, nc: int, hh: Seq<char>) -> bool {
    a.contains_key(v) && b.contains_key(v) && used(a[v], b[v], nc, hh) && b == a.insert(v, b[v])
}
pub open spec fn may_use(m: Map<Seq<char>, Nonce>, v: Seq<char>, nc: int, hh: Seq<char>, age: int) -> bool { m.contains_key(v) && live(m[v]) && nc_ok(m[v], nc, hh, age) }
pub open spec fn jump_ok(m: Map<Seq<char>, Nonce>, v: Seq<char>, nc: int) -> bool {
    m.contains_key(v) ==> nc <= (if m[v].last_nc + MAX_NC_JUMP <= 0xffff_ffff { m[v].last_nc + MAX_NC_JUMP } else { 0xffff_ffff })
}
#[verifier::external_body] pub fn x_sort_age(v: &mut Vec<(SmolStr, Instant)>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).1@ <= (#[trigger] final(v)@[j]).1@ { unimplemented!() }
pub proof fn sub_len(a: Map<Seq<char>, Nonce>, b: Map<Seq<char>, Nonce>)
    requires sub(a, b)
    ensures a.dom().len() <= b.dom().len()
{ assert(a.dom().subset_of(b.dom())); vstd::set_lib::lemma_len_subset(a.dom(), b.dom()); }
impl NonceManager {
//@fn NonceManager::new
    ensures r.nonces@ == Map::<Seq<char>, Nonce>::empty(), r.ttl == ttl, r.max_nonces == MAX_NONCE_COUNT, r.max_request_age@ == 10_000_000_000,
@props P02
//@end
//@fn NonceManager::default trait=Default
    ensures r.nonces@ == Map::<Seq<char>, Nonce>::empty(), r.ttl@ == 300_000_000_000, r.max_nonces == MAX_NONCE_COUNT, r.max_request_age@ == 10_000_000_000,
@props P02
//@end
//@fn NonceManager::with_max_nonces
    ensures r.nonces@ == self.nonces@, r.ttl == self.ttl, r.max_nonces == max, r.max_request_age == self.max_request_age,
@props P02
//@end
//@fn NonceManager::with_max_request_age
    ensures r.nonces@ == self.nonces@, r.ttl == self.ttl, r.max_nonces == self.max_nonces, r.max_request_age == max_request_age,
@props P02
//@end
//@fn NonceManager::cleanup
@props P02
@sig (&mut self)
@rewrite self . nonces . retain ( | _ , nonce | $*c ) ==> let ks__ = self.nonces.keys_vec(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; let keep__ = match self.nonces.get(k__) { Some(nonce) => $c, None => true }; if !keep__ { self.nonces.remove(k__); } }
    ensures conf(*old(self), *final(self)), sub(final(self).nonces@, old(self).nonces@),
        forall|k: Seq<char>| #[trigger] old(self).nonces@.contains_key(k) ==> (final(self).nonces@.contains_key(k) <==> live(old(self).nonces@[k])),
@entry
    let ghost m0 = self.nonces@;
@loop 1
    invariant 0 <= i__ <= ks__@.len(), conf(*old(self), *self), m0 == old(self).nonces@, sub(self.nonces@, m0),
        forall|k: Seq<char>| m0.contains_key(k) ==> exists|i: int| 0 <= i < ks__@.len() && #[trigger] ks__@[i]@ == k,
        forall|i: int, j: int| 0 <= i < j < ks__@.len() ==> ks__@[i]@ != ks__@[j]@,
        forall|i: int| 0 <= i < ks__@.len() ==> m0.contains_key(#[trigger] ks__@[i]@),
        forall|i: int| 0 <= i < i__ ==> (self.nonces@.contains_key(#[trigger] ks__@[i]@) <==> live(m0[ks__@[i]@])),
        forall|i: int| i__ <= i < ks__@.len() ==> self.nonces@.contains_key(#[trigger] ks__@[i]@),
    decreases ks__@.len() - i__,
//@end
//@fn NonceManager::remove_oldest
@props P02
@sig (&mut self, count: usize)
@rewrite let mut entries : Vec < _ > = self . nonces . iter ( ) . map ( | entry | $*e ) . collect ( ) ==> let ks__ = self.nonces.keys_vec(); let mut entries: Vec<(SmolStr, Instant)> = Vec::new(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.nonces.get(k__) { entries.push($e); } }
@rewrite entry . key ( ) ==> k__
@rewrite entry . value ( ) ==> v__
@rewrite entries . sort_by_key ( $*x ) ; ==> x_sort_age(&mut entries); proof { assert forall|i: int| 0 <= i < entries@.len() implies m0.contains_key((#[trigger] entries@[i]).0@) && entries@[i].1 == m0[entries@[i].0@].created_at by { assert(e0.contains(entries@[i])); } assert forall|k: Seq<char>| #[trigger] m0.contains_key(k) implies exists|i: int| 0 <= i < entries@.len() && #[trigger] entries@[i].0@ == k by { let i = choose|i: int| 0 <= i < e0.len() && #[trigger] e0[i].0@ == k; assert(entries@.contains(e0[i])); let j = choose|j: int| 0 <= j < entries@.len() && entries@[j] == e0[i]; assert(entries@[j].0@ == k); } }
@rewrite for ( key , _ ) in entries . iter ( ) . take ( count ) { $*b } ==> let mut n__: usize = 0; while n__ < count && n__ < entries.len() { let key = &entries[n__].0; n__ += 1; $b }
    ensures conf(*old(self), *final(self)), sub(final(self).nonces@, old(self).nonces@),
        count > 0 && old(self).nonces@.dom().len() > 0 ==> final(self).nonces@.dom().len() < old(self).nonces@.dom().len(),
        forall|k: Seq<char>, j: Seq<char>| old(self).nonces@.contains_key(k) && !final(self).nonces@.contains_key(k) && #[trigger] final(self).nonces@.contains_key(j) ==> #[trigger] old(self).nonces@[k].created_at@ <= old(self).nonces@[j].created_at@,
@entry
    let ghost m0 = self.nonces@;
@loop 1
    invariant 0 <= i__ <= ks__@.len(), *self == *old(self), m0 == self.nonces@, entries@.len() == i__,
        forall|i: int| 0 <= i < ks__@.len() ==> m0.contains_key(#[trigger] ks__@[i]@),
        forall|i: int| 0 <= i < i__ ==> (#[trigger] entries@[i]).0@ == ks__@[i]@ && entries@[i].1 == m0[ks__@[i]@].created_at,
    decreases ks__@.len() - i__,
@afterloop 1
    let ghost e0 = entries@;
    proof { assert(forall|i: int| 0 <= i < e0.len() ==> m0.contains_key((#[trigger] e0[i]).0@) && e0[i].1 == m0[e0[i].0@].created_at); }
    proof { assert(forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> exists|i: int| 0 <= i < e0.len() && #[trigger] e0[i].0@ == k) by { assert forall|k: Seq<char>| #[trigger] m0.contains_key(k) implies exists|i: int| 0 <= i < e0.len() && #[trigger] e0[i].0@ == k by { let i = choose|i: int| 0 <= i < ks__@.len() && #[trigger] ks__@[i]@ == k; assert(e0[i].0@ == k); } } }
@loop 2
    invariant 0 <= n__ <= entries@.len(), n__ <= count, conf(*old(self), *self), m0 == old(self).nonces@, sub(self.nonces@, m0),
        forall|i: int| 0 <= i < entries@.len() ==> m0.contains_key((#[trigger] entries@[i]).0@) && entries@[i].1 == m0[entries@[i].0@].created_at,
        forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> exists|i: int| 0 <= i < entries@.len() && #[trigger] entries@[i].0@ == k,
        forall|i: int, j: int| 0 <= i < j < entries@.len() ==> (#[trigger] entries@[i]).1@ <= (#[trigger] entries@[j]).1@,
        forall|k: Seq<char>| m0.contains_key(k) && !#[trigger] self.nonces@.contains_key(k) ==> exists|i: int| 0 <= i < n__ && #[trigger] entries@[i].0@ == k,
        forall|i: int| 0 <= i < n__ ==> !self.nonces@.contains_key(#[trigger] entries@[i].0@),
        self.nonces@.dom().subset_of(m0.dom()),
    decreases entries@.len() - n__,
@afterloop 2
    proof { if count > 0 && m0.dom().len() > 0 { assert(exists|k: Seq<char>| m0.dom().contains(k)) by { if forall|k: Seq<char>| !m0.dom().contains(k) { assert(m0.dom() =~= Set::empty()); } } let k = choose|k: Seq<char>| m0.dom().contains(k); assert(m0.contains_key(k)); assert(entries@.len() > 0); let k0 = entries@[0].0@; assert(!self.nonces@.contains_key(k0)); assert(m0.contains_key(k0)); assert(self.nonces@.dom().subset_of(m0.dom().remove(k0))); vstd::set_lib::lemma_len_subset(self.nonces@.dom(), m0.dom().remove(k0)); } }
//@end
//@fn NonceManager::generate
@props P02
@sig (&mut self) -> Nonce
    ensures fresh(r, old(self).ttl), conf(*old(self), *final(self)), final(self).nonces@.contains_key(r.value@), final(self).nonces@[r.value@] == r,
        forall|k: Seq<char>| k != r.value@ && #[trigger] final(self).nonces@.contains_key(k) ==> old(self).nonces@.contains_key(k) && final(self).nonces@[k] == old(self).nonces@[k],
        old(self).nonces@.dom().len() <= cap(*old(self)) ==> final(self).nonces@.dom().len() <= cap(*old(self)),
        old(self).nonces@.dom().len() < old(self).max_nonces ==> sub(old(self).nonces@.remove(r.value@), final(self).nonces@),
@entry
    proof { assert forall|m: Map<Seq<char>, Nonce>, m2: Map<Seq<char>, Nonce>| #[trigger] sub(m, m2) implies m.dom().len() <= m2.dom().len() by { sub_len(m, m2); }
        assert forall|m: Map<Seq<char>, Nonce>, k: Seq<char>, n: Nonce| (#[trigger] m.insert(k, n)).dom().len() <= m.dom().len() + 1 by { assert(m.insert(k, n).dom() =~= m.dom().insert(k)); } }
//@end
//@fn NonceManager::verify_with_nc
@props P01,P02
@sig (&mut self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool
@rewrite Some ( mut entry ) ==> Some(entry)
    ensures conf(*old(self), *final(self)),
        r == may_use(old(self).nonces@, value@, nc as int, reqhash(mname(*method), uri@, body@), old(self).max_request_age@),
        !r ==> final(self).nonces@ =~= old(self).nonces@,
        r ==> nused(old(self).nonces@, final(self).nonces@, value@, nc as int, reqhash(mname(*method), uri@, body@)),
//@end
//@fn NonceManager::check_nc
    ensures r == may_use(self.nonces@, value@, nc as int, reqhash(mname(*method), uri@, body@), self.max_request_age@),
@props P01,P02
//@end
//@fn NonceManager::verify
    ensures r == (self.nonces@.contains_key(value@) && live(self.nonces@[value@])),
@props P01,P02
//@end
//@fn NonceManager::is_stale
    ensures r == (self.nonces@.contains_key(value@) && !live(self.nonces@[value@])),
@props P02
//@end
//@fn NonceManager::reuse_window_exceeded
    ensures r == (self.nonces@.contains_key(value@) && live(self.nonces@[value@]) && self.nonces@[value@].last_nc > 0 && since(self.nonces@[value@].last_used) > self.max_request_age@),
@props P02
//@end
//@fn NonceManager::is_nc_jump_reasonable
    ensures r == jump_ok(self.nonces@, value@, nc as int),
@props P02
//@end
//@fn NonceManager::count
    ensures r == self.nonces@.dom().len(),
@props P02
//@end
}

// ---- who is asking ---------------------------------------------------------------------------------------
pub open spec fn digest_of(h: Headers, name: Seq<char>) -> Option<AV> {
    match hget(h, name) { Some(t) => match auth_of(t) { Some(a) => if eq_ci(a.scheme, "Digest"@) { Some(a) } else { None }, None => None }, None => None }
}
pub open spec fn pv(a: AV, k: Seq<char>) -> Option<Seq<char>> { if a.m.contains_key(k) { Some(a.m[k]) } else { None } }
pub open spec fn either(h: Headers) -> Seq<char> { if hget(h, "Authorization"@).is_some() { "Authorization"@ } else { "Proxy-Authorization"@ } }
pub open spec fn named(h: Headers, name: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { match digest_of(h, name) { Some(a) => pv(a, k), None => None } }
proof fn keys()
    ensures lower("username"@) == "username"@, lower("realm"@) == "realm"@, lower("nonce"@) == "nonce"@, lower("uri"@) == "uri"@, lower("response"@) == "response"@,
        lower("algorithm"@) == "algorithm"@, lower("nc"@) == "nc"@, lower("cnonce"@) == "cnonce"@, lower("qop"@) == "qop"@, lower("opaque"@) == "opaque"@,
{
    reveal_strlit("username"); reveal_strlit("realm"); reveal_strlit("nonce"); reveal_strlit("uri"); reveal_strlit("response"); reveal_strlit("algorithm"); reveal_strlit("nc"); reveal_strlit("cnonce"); reveal_strlit("qop"); reveal_strlit("opaque");
    assert(lower("username"@) =~= "username"@); assert(lower("realm"@) =~= "realm"@); assert(lower("nonce"@) =~= "nonce"@); assert(lower("uri"@) =~= "uri"@); assert(lower("response"@) =~= "response"@);
    assert(lower("algorithm"@) =~= "algorithm"@); assert(lower("nc"@) =~= "nc"@); assert(lower("cnonce"@) =~= "cnonce"@); assert(lower("qop"@) =~= "qop"@); assert(lower("opaque"@) =~= "opaque"@);
}
//@fn extract_auth_username
@props P01
@rewrite . or_else ( || $*x ) ==> .or($x)
@rewrite . cloned ( ) ==> .x_cloned()
    ensures match r { Some(t) => named(*headers, either(*headers), "username"@) == Some(t@), None => named(*headers, either(*headers), "username"@).is_none() },
@entry
    proof { keys(); }
//@end
//@fn extract_auth_nonce
@props P01
@rewrite . or_else ( || $*x ) ==> .or($x)
@rewrite . cloned ( ) ==> .x_cloned()
    ensures match r { Some(t) => named(*headers, either(*headers), "nonce"@) == Some(t@), None => named(*headers, either(*headers), "nonce"@).is_none() },
@entry
    proof { keys(); }
//@end
//@fn extract_via_host
@props P01
@rewrite host_part . matches ( ':' ) . count ( ) ==> host_part.x_count(':')
@rewrite & host_part [ 1 .. end ] ==> host_part.x_sub(1, end)
@rewrite . split_once ( ':' ) . map ( | ( host , _ ) | host ) ==> .x_before(':')
@entry
    proof { if host_part@.len() > 0 && host_part@[0] == '[' { step_ascii(host_part@, 0); } }
//@end
//@fn extract_rate_limit_key
@props P01
@rewrite for param in params . split ( ';' ) { $*b } ==> let ps__ = params.x_split_c(';'); let mut k__: usize = 0; while k__ < ps__.len() { let param = ps__[k__]; k__ += 1; $b }
@loop 1
    invariant 0 <= k__ <= ps__@.len(),
    decreases ps__@.len() - k__,
//@end
pub trait XMisc { spec fn ms(&self) -> Seq<char>;
    fn x_count(&self, c: char) -> (r: usize) ensures (r == 0) == !occ(self.ms(), Pat::C(c));
    fn x_before(&self, c: char) -> (r: Option<&str>) ensures match r { Some(t) => occ(self.ms(), Pat::C(c)) && t@ == self.ms().take(fidx(self.ms(), Pat::C(c))), None => !occ(self.ms(), Pat::C(c)) }; }
impl XMisc for str { open spec fn ms(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_count(&self, c: char) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn x_before(&self, c: char) -> (r: Option<&str>) { unimplemented!() } }
pub trait XRef<T> { spec fn xr(&self) -> Option<T>; fn x_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.xr() == Some(*x), None => self.xr().is_none() }; }
impl<T> XRef<T> for Option<T> { open spec fn xr(&self) -> Option<T> { *self } #[verifier::external_body] fn x_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait XCloned<T> { spec fn xo(&self) -> Option<T>; fn x_cloned(self) -> (r: Option<T>) ensures r == self.xo(); }
impl<'a, T> XCloned<T> for Option<&'a T> { open spec fn xo(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn x_cloned(self) -> (r: Option<T>) { unimplemented!() } }

// ---- the server ------------------------------------------------------------------------------------------
pub open spec fn cred_name(proxy: bool) -> Seq<char> { if proxy { "Proxy-Authorization"@ } else { "Authorization"@ } }
pub open spec fn said<S>(a: DigestAuthenticator<S>, h: Headers) -> Option<AV> { digest_of(h, cred_name(a.proxy_auth)) }
/// everything but the digest itself: the header is a Digest for this realm, target, algorithm, opaque and qop, within limits, on a challenge that may be used
pub open spec fn ready<S>(a: DigestAuthenticator<S>, rq: Request, h: Headers) -> bool {
    said(a, h) matches Some(av) && ({
        let nc = pv(av, "nc"@);
        rq.body@.len() <= MAX_BODY_SIZE && pv(av, "username"@).is_some() && pv(av, "nonce"@).is_some() && pv(av, "response"@).is_some() && nc.is_some() && pv(av, "cnonce"@).is_some()
        && pv(av, "realm"@) == Some(a.realm@) && pv(av, "uri"@) == Some(rq.start.uri.text()) && pv(av, "opaque"@) == Some(a.opaque@)
        && pv(av, "qop"@).is_some() && qop_of(pv(av, "qop"@).unwrap()) == Some(a.qop)
        && (pv(av, "algorithm"@).is_none() || alg_of(pv(av, "algorithm"@).unwrap()) == Some(a.algorithm))
        && within(av) && hexnum(nc.unwrap()).is_some() && hexnum(nc.unwrap()).unwrap() <= MAX_NC_VALUE
        && jump_ok(a.nonce_manager.nonces@, pv(av, "nonce"@).unwrap(), hexnum(nc.unwrap()).unwrap() as int)
        && may_use(a.nonce_manager.nonces@, pv(av, "nonce"@).unwrap(), hexnum(nc.unwrap()).unwrap() as int, rqhash(rq), a.nonce_manager.max_request_age@)
    })
}
pub open spec fn rqhash(rq: Request) -> Seq<char> { reqhash(mname(rq.start.method), rq.start.uri.text(), rq.body@) }
pub open spec fn lim(av: AV, k: Seq<char>, n: int) -> bool { av.m.contains_key(k) ==> par_ok(av.m[k], n) }
pub open spec fn within(av: AV) -> bool {
    lim(av, "username"@, 256) && lim(av, "realm"@, 256) && lim(av, "nonce"@, 128) && lim(av, "uri"@, 2048) && lim(av, "response"@, 512) && lim(av, "nc"@, 8) && lim(av, "cnonce"@, 256) && lim(av, "opaque"@, 256)
}
/// the digest is the published one over the stored password
pub open spec fn right<S>(a: DigestAuthenticator<S>, rq: Request, av: AV, pw: Seq<char>) -> bool {
    av.m["response"@] == response(a.algorithm, av.m["username"@], a.realm@, pw, mname(rq.start.method), rq.start.uri.text(), av.m["nonce"@], av.m["nc"@], av.m["cnonce"@], a.qop, rq.body@)
}
/// what a prepared digest carries
pub open spec fn carries<S>(a: DigestAuthenticator<S>, p: DigestParams, av: AV) -> bool {
    p.username@ == av.m["username"@] && p.realm@ == a.realm@ && p.nonce@ == av.m["nonce"@] && p.uri@ == av.m["uri"@] && p.response@ == av.m["response"@]
    && p.nc.is_some() && hexnum(av.m["nc"@]) == Some(p.nc.unwrap() as nat) && p.nc_raw.is_some() && p.nc_raw.unwrap()@ == av.m["nc"@] && p.cnonce.is_some() && p.cnonce.unwrap()@ == av.m["cnonce"@] && p.qop == Some(a.qop)
}
impl<S> DigestAuthenticator<S> {
//@fn DigestAuthenticator::realm
    ensures r@ == self.realm@,
@props P01,P03
//@end
//@fn DigestAuthenticator::algorithm
    ensures r == self.algorithm,
@props P01,P03
//@end
//@fn DigestAuthenticator::qop
    ensures r == self.qop,
@props P01,P03
//@end
//@fn DigestAuthenticator::proxy_auth
    ensures r == self.proxy_auth,
@props P01,P03
//@end
//@fn DigestAuthenticator::opaque
    ensures r@ == self.opaque@,
@props P01,P03
//@end
//@fn DigestAuthenticator::nonce_manager
    ensures *r == self.nonce_manager,
@props P02
//@end
//@fn DigestAuthenticator::prepare_digest
@props P01,P02,P03
@sig (&self, request: &Request, headers: &Headers) -> Result<Option<DigestParams>, AErr>
@rewrite parsed . param ( "qop" ) . and_then ( | q | $*e ) ==> match parsed.param("qop") { Some(q) => $e, None => None }
@rewrite request . body ( ) ==> request.body().x_bytes()
@rewrite let opaque_match : bool = ==> let opaque_match =
@rewrite if ! opaque_match ==> proof { if opaque_match { utf_inj(client_opaque@, self.opaque@); } } if !opaque_match
@rewrite check_nc ( nonce , ==> check_nc(nonce.as_str(),
@rewrite . verify ( nonce ) ==> .verify(nonce.as_str())
@rewrite nc . cloned ( ) ==> nc.x_cloned()
@rewrite cnonce . cloned ( ) ==> cnonce.x_cloned()
    ensures
        match r { Ok(Some(p)) => ready(*self, *request, *headers) && carries(*self, p, said(*self, *headers).unwrap()), _ => !ready(*self, *request, *headers) || self.rate_limiter.is_some() },
@entry
    proof { keys(); }
//@end
//@fn DigestAuthenticator::record_nonce_use
@props P02
@sig (&mut self, request: &Request, params: &DigestParams) -> bool
@rewrite request . body ( ) ==> request.body().x_bytes()
    ensures same_but_nonces(*old(self), *final(self)),
        params.nc matches Some(nc) ==> r == may_use(old(self).nonce_manager.nonces@, params.nonce@, nc as int, rqhash(*request), old(self).nonce_manager.max_request_age@)
            && (r ==> nused(old(self).nonce_manager.nonces@, final(self).nonce_manager.nonces@, params.nonce@, nc as int, rqhash(*request))),
        !r ==> final(self).nonce_manager.nonces@ =~= old(self).nonce_manager.nonces@,
        params.nc.is_none() ==> r,
//@end
}
pub open spec fn same_but_nonces<S>(a: DigestAuthenticator<S>, b: DigestAuthenticator<S>) -> bool {
    a.realm == b.realm && a.algorithm == b.algorithm && a.qop == b.qop && a.store == b.store && a.proxy_auth == b.proxy_auth && a.opaque == b.opaque && a.rate_limiter == b.rate_limiter && conf(a.nonce_manager, b.nonce_manager)
}

pub open spec fn chtext(realm: Seq<char>, nonce: Seq<char>, a: DigestAlgorithm, q: Qop, opaque: Seq<char>, stale: bool) -> Seq<char> {
    let t = e() + "Digest realm=\""@ + realm + "\", nonce=\""@ + nonce + "\", algorithm="@ + alg_t(a) + ", qop=\""@ + qt(q) + "\", opaque=\""@ + opaque + "\""@;
    if stale { t + ", stale=true"@ } else { t }
}
pub open spec fn ch_of<S>(a: DigestAuthenticator<S>, n: Seq<char>, stale: bool) -> Seq<char> { chtext(a.realm@, n, a.algorithm, a.qop, a.opaque@, stale) }
/// the configured realm can be written in a header line
pub open spec fn realm_fits<S>(a: DigestAuthenticator<S>) -> bool { forall|n: Seq<char>, st: bool| n.len() == 32 && alnum(n) ==> val_ok(#[trigger] ch_of(a, n, st)) }
pub open spec fn chal_name(proxy: bool) -> Seq<char> { if proxy { "Proxy-Authenticate"@ } else { "WWW-Authenticate"@ } }
/// n is the challenge this call added
pub open spec fn issued(a: NonceManager, b: NonceManager, n: Nonce) -> bool {
    fresh(n, a.ttl) && conf(a, b) && b.nonces@.contains_key(n.value@) && b.nonces@[n.value@] == n
    && (forall|k: Seq<char>| k != n.value@ && #[trigger] b.nonces@.contains_key(k) ==> a.nonces@.contains_key(k) && b.nonces@[k] == a.nonces@[k])
    && (a.nonces@.dom().len() <= cap(a) ==> b.nonces@.dom().len() <= cap(a))
}
pub open spec fn challenged<S>(a: DigestAuthenticator<S>, b: DigestAuthenticator<S>, h: Headers, n: Nonce, stale: bool) -> bool {
    issued(a.nonce_manager, b.nonce_manager, n) && h.inner@.len() >= 1 && h.inner@[0].name@ == chal_name(a.proxy_auth) && h.inner@[0].value@ == ch_of(a, n.value@, stale)
}
/// as many headers as copied, from the request, after the challenge
proof fn chal_tok() ensures name_ok("Proxy-Authenticate"@), name_ok("WWW-Authenticate"@)
{ reveal_strlit("Proxy-Authenticate"); reveal_strlit("WWW-Authenticate"); blen_ascii("Proxy-Authenticate"@); blen_ascii("WWW-Authenticate"@);
  assert(forall|i: int| 0 <= i < "Proxy-Authenticate"@.len() ==> tokc(#[trigger] "Proxy-Authenticate"@[i])); assert(forall|i: int| 0 <= i < "WWW-Authenticate"@.len() ==> tokc(#[trigger] "WWW-Authenticate"@[i])); }
impl From<HeaderError> for AErr { #[verifier::external_body] fn from(e: HeaderError) -> AErr { unimplemented!() } }
impl From<MessageError> for AErr { #[verifier::external_body] fn from(e: MessageError) -> AErr { unimplemented!() } }
//@fn ensure_to_tag
@props P01,P03
@rewrite SmolStr :: new ( { $*a } ) ==> SmolStr::from_string({ $a })
@fmt
    ensures occ(to_header@, Pat::S(";tag="@)) ==> r@ == to_header@,
        !occ(to_header@, Pat::S(";tag="@)) ==> exists|t: Seq<char>| #![auto] t.len() == 8 && alnum(t) && r@ == e() + to_header@ + ";tag="@ + t,
//@end
impl<S> DigestAuthenticator<S> {
//@fn DigestAuthenticator::new
    ensures r.realm@ == realm@, r.algorithm == DigestAlgorithm::Sha256, r.qop == Qop::Auth, r.store == store, !r.proxy_auth, r.rate_limiter.is_none(), alnum(r.opaque@), r.opaque@.len() == 32,
        r.nonce_manager.nonces@ == Map::<Seq<char>, Nonce>::empty(),
@props P01,P03
//@end
//@fn DigestAuthenticator::with_algorithm
    ensures r == (DigestAuthenticator { algorithm, ..self }),
@props P01,P03
//@end
//@fn DigestAuthenticator::with_qop
    ensures r == (DigestAuthenticator { qop, ..self }),
@props P01,P03
//@end
//@fn DigestAuthenticator::with_proxy_auth
    ensures r == (DigestAuthenticator { proxy_auth, ..self }),
@props P01,P03
//@end
//@fn DigestAuthenticator::with_nonce_ttl
    ensures r == (DigestAuthenticator { nonce_manager: r.nonce_manager, ..self }), r.nonce_manager.nonces@ == Map::<Seq<char>, Nonce>::empty(), r.nonce_manager.ttl == ttl, r.nonce_manager.max_request_age == self.nonce_manager.max_request_age,
@props P01,P03
//@end
//@fn DigestAuthenticator::with_max_request_age
    ensures r == (DigestAuthenticator { nonce_manager: r.nonce_manager, ..self }), r.nonce_manager.nonces@ == self.nonce_manager.nonces@, r.nonce_manager.ttl == self.nonce_manager.ttl, r.nonce_manager.max_request_age == max_request_age,
@props P01,P03
//@end
//@fn DigestAuthenticator::with_rate_limiter
    ensures r == (DigestAuthenticator { rate_limiter: Some(limiter), ..self }),
@props P01,P03
//@end
//@fn DigestAuthenticator::is_nonce_stale
    ensures r == (self.nonce_manager.nonces@.contains_key(nonce@) && !live(self.nonce_manager.nonces@[nonce@])),
@props P02
//@end
//@fn DigestAuthenticator::is_nonce_reuse_expired
    ensures r == reuse_expired(self.nonce_manager, nonce@),
@props P02
//@end
//@fn DigestAuthenticator::presented_nonce
@props P02
@rewrite . cloned ( ) ==> .x_cloned()
    ensures match r { Some(t) => named(request.headers, cred_name(self.proxy_auth), "nonce"@) == Some(t@), None => named(request.headers, cred_name(self.proxy_auth), "nonce"@).is_none() },
@entry
    proof { keys(); }
//@end
//@fn DigestAuthenticator::build_challenge_with_stale
@props P01,P03
@sig (&mut self, stale: bool) -> Headers
@rewrite self . nonce_manager ( ) . generate ==> self.nonce_manager.generate
@rewrite hdrs . push ( SmolStr :: new ( header_name ) , SmolStr :: from_string ( value ) ) . unwrap ( ) ==> hdrs.push(header_name, value.as_str()).x_must()
@rewrite hdrs . push ( SmolStr :: new ( header_name ) , SmolStr :: new ( value ) ) . unwrap ( ) ==> hdrs.push(header_name, value.as_str()).x_must()
@fmt
    requires realm_fits(*old(self)),
    ensures same_but_nonces(*old(self), *final(self)), hs_ok(r), r.inner@.len() == 1, exists|n: Nonce| challenged(*old(self), *final(self), r, n, stale),
@entry
    proof { chal_tok(); }
@rewrite let mut value = String :: new ( ) ; ==> let mut value = String::new(); let ghost n0__ = nonce; proof { assert(value@ =~= e()); }
@rewrite let header_name = ==> proof { assert(value@ == ch_of(*old(self), nonce.value@, stale)); assert(val_ok(ch_of(*old(self), nonce.value@, stale))); } let header_name =
@rewrite . x_must ( ) ; hdrs ==> .x_must(); proof { assert(challenged(*old(self), *self, hdrs, n0__, stale)) by { assert(hdrs.inner@[0] == hdrs.inner@.last()); } } hdrs
//@end
//@fn DigestAuthenticator::build_challenge
@props P01,P03
@sig (&mut self) -> Headers
    requires realm_fits(*old(self)),
    ensures same_but_nonces(*old(self), *final(self)), hs_ok(r), r.inner@.len() == 1, exists|n: Nonce| challenged(*old(self), *final(self), r, n, false),
//@end
//@fn DigestAuthenticator::compute_ha1
@props P01,P03
@fmt
@rewrite Self :: hash ==> DigestAuthenticator::<S>::hash
    ensures r@ == ha1_base(self.algorithm, username@, self.realm@, password@),
//@end
//@fn DigestAuthenticator::apply_sess
@props P01,P03
@fmt
@rewrite . to_string ( ) ==> .x_string()
    ensures r@ == ha1(self.algorithm, base_ha1@, nonce@, match cnonce { Some(c) => c@, None => e() }),
@entry
    proof { reveal_strlit(""); assert(""@ =~= e()); }
//@end
//@fn DigestAuthenticator::compute_ha2
@props P01,P03
@fmt
    ensures r@ == ha2(self.algorithm, Some(self.qop), mname(*method), uri@, body@),
//@end
//@fn DigestAuthenticator::hash
    ensures r@ == hb(*algorithm, data@),
@props P01,P03
//@end
//@fn DigestAuthenticator::compute_response
@props P01,P03
@fmt
@rewrite & base_ha1 ==> base_ha1.as_str()
    ensures qop == Some(self.qop) && nc.is_some() && cnonce.is_some() ==> r@ == response(self.algorithm, username@, self.realm@, password@, mname(*method), uri@, nonce@, nc.unwrap()@, cnonce.unwrap()@, self.qop, body@),
//@end
//@fn DigestAuthenticator::challenge_stale
@props P01,P03
@sig (&mut self, request: &Request) -> Result<Response, AErr>
@rewrite headers . push ( SmolStr :: new ( $n ) , ensure_to_tag ( to ) ) ==> headers.push($n, ensure_to_tag(to).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , $*v ) ==> headers.push($n, $v)
@rewrite let mut headers = self . build_challenge_with_stale ( true ) ; ==> let mut headers = self.build_challenge_with_stale(true); let ghost n0__ = choose|n: Nonce| challenged(*old(self), *self, headers, n, true); let ghost h0__ = headers;
@rewrite Ok ( Response :: new ( $*x ) ? ) ==> { proof { assert(headers.inner@[0] == h0__.inner@[0]); assert(challenged(*old(self), *self, headers, n0__, true)); } Ok(Response::new($x)?) }
    requires realm_fits(*old(self)),
    ensures same_but_nonces(*old(self), *final(self)),
        r matches Ok(m) ==> res_ok(m) && m.start.code == (if old(self).proxy_auth { 407u16 } else { 401u16 }) && m.body@.len() == 0 && exists|n: Nonce| challenged(*old(self), *final(self), m.headers, n, true),
@entry
    proof { assert(forall|b: Seq<Header>| b.len() >= 2 ==> (#[trigger] b.drop_last())[0] == b[0]); }
//@end
}
pub open spec fn reuse_expired(m: NonceManager, v: Seq<char>) -> bool { m.nonces@.contains_key(v) && live(m.nonces@[v]) && m.nonces@[v].last_nc > 0 && since(m.nonces@[v].last_used) > m.max_request_age@ }
//@fn constant_time_eq
    ensures r == (a@ == b@),
@props P01,P03
//@end
proof fn ready_use<S>(a: DigestAuthenticator<S>, rq: Request, h: Headers, p: DigestParams)
    ensures ready(a, rq, h) && carries(a, p, said(a, h).unwrap()) ==> said(a, h).is_some() && may_use(a.nonce_manager.nonces@, p.nonce@, p.nc.unwrap() as int, rqhash(rq), a.nonce_manager.max_request_age@)
        && said(a, h).unwrap().m["uri"@] == rq.start.uri.text() && hexnum(said(a, h).unwrap().m["nc"@]).unwrap() == p.nc.unwrap()
{ }
impl<S: CredentialStore> DigestAuthenticator<S> {
//@fn DigestAuthenticator::challenge trait=Authenticator
@props P01,P03
@sig (&mut self, request: &Request) -> Result<Response, AErr>
@rewrite headers . push ( SmolStr :: new ( $n ) , ensure_to_tag ( to ) ) ==> headers.push($n, ensure_to_tag(to).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , $*v ) ==> headers.push($n, $v)
@rewrite SmolStr :: new ( if $*x ) ==> (if $x)
@rewrite let mut headers = self . build_challenge ( ) ; ==> let mut headers = self.build_challenge(); let ghost n0__ = choose|n: Nonce| challenged(*old(self), *self, headers, n, false); let ghost h0__ = headers;
@rewrite Ok ( Response :: new ( $*x ) ? ) ==> { proof { assert(headers.inner@[0] == h0__.inner@[0]); assert(challenged(*old(self), *self, headers, n0__, false)); } Ok(Response::new($x)?) }
    requires realm_fits(*old(self)),
    ensures same_but_nonces(*old(self), *final(self)),
        r matches Ok(m) ==> res_ok(m) && m.start.code == (if old(self).proxy_auth { 407u16 } else { 401u16 }) && m.body@.len() == 0 && exists|n: Nonce| challenged(*old(self), *final(self), m.headers, n, false),
@entry
    proof { assert(forall|b: Seq<Header>| b.len() >= 2 ==> (#[trigger] b.drop_last())[0] == b[0]); }
//@end
//@fn DigestAuthenticator::verify trait=Authenticator
@props P01,P02,P03
@sig (&mut self, request: &Request, headers: &Headers) -> Result<bool, AErr>
@rewrite request . body ( ) ==> request.body().x_bytes()
@rewrite if ! constant_time_eq ( $*a ) ==> proof { if utf(response_calc@) == utf(params.response@) { utf_inj(response_calc@, params.response@); } ready_use(*self, *request, *headers, params); } if !constant_time_eq($a)
    ensures same_but_nonces(*old(self), *final(self)),
        ({
            let good = ready(*old(self), *request, *headers);
            let av = said(*old(self), *headers).unwrap();
            let creds = old(self).store.holds(av.m["username"@], old(self).realm@);
            let auth = good && creds.is_some() && right(*old(self), *request, av, creds.unwrap().password@);
            match r {
                Ok(true) => auth && nused(old(self).nonce_manager.nonces@, final(self).nonce_manager.nonces@, av.m["nonce"@], hexnum(av.m["nc"@]).unwrap() as int, rqhash(*request)),
                _ => (!auth || old(self).rate_limiter.is_some()) && final(self).nonce_manager.nonces@ =~= old(self).nonce_manager.nonces@,
            }
        }),
@entry
    hide(ready); hide(may_use); hide(said); hide(nused); hide(rqhash);
//@end
//@fn DigestAuthenticator::nonce_is_stale trait=Authenticator
    ensures r == (named(request.headers, cred_name(self.proxy_auth), "nonce"@) matches Some(v) && self.nonce_manager.nonces@.contains_key(v) && !live(self.nonce_manager.nonces@[v])),
@props P02
//@end
//@fn DigestAuthenticator::nonce_reuse_expired trait=Authenticator
    ensures r == (named(request.headers, cred_name(self.proxy_auth), "nonce"@) matches Some(v) && reuse_expired(self.nonce_manager, v)),
@props P02
//@end
//@fn DigestAuthenticator::authenticated_username trait=Authenticator
    ensures match r { Some(u) => claimed(request.headers, cred_name(self.proxy_auth)) == Some(u@), None => claimed(request.headers, cred_name(self.proxy_auth)).is_none() },
@props P04
@rewrite . cloned ( ) ==> .x_cloned()
@entry
    proof { keys(); }
//@end
}
/// the user name in that header
pub open spec fn claimed(h: Headers, name: Seq<char>) -> Option<Seq<char>> { match hget(h, name) { Some(t) => match auth_of(t) { Some(a) => pv(a, "username"@), None => None }, None => None } }
/// the user name checked is the one the registrar asks for
proof fn thm_who<S: CredentialStore>(a: DigestAuthenticator<S>, rq: Request)
    requires ready(a, rq, rq.headers)
    ensures claimed(rq.headers, cred_name(a.proxy_auth)) == Some(said(a, rq.headers).unwrap().m["username"@])
{ keys(); }

/// a credential store asked across an await: other requests may run meanwhile
pub trait AsyncCredentialStore { spec fn holds_async(&self, u: Seq<char>, r: Seq<char>) -> Option<Credentials>;
    fn fetch(&self, username: &str, realm: &str) -> (r: Option<Credentials>) ensures r == self.holds_async(username@, realm@); }
impl NonceManager {
    /// whatever other tasks did to the challenges in between
    #[verifier::external_body] pub fn x_others(&mut self) ensures conf(*old(self), *final(self)) { unimplemented!() }
}
/// b is a after one accepted use of the challenge v by the request with that hash, from some state m between
pub open spec fn used_from(m: Map<Seq<char>, Nonce>, b: Map<Seq<char>, Nonce>, v: Seq<char>, nc: int, hh: Seq<char>, age: int) -> bool { may_use(m, v, nc, hh, age) && nused(m, b, v, nc, hh) }
impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
//@fn DigestAuthenticator::verify_async
@props P01,P02,P03
@sig (&mut self, request: &Request, headers: &Headers) -> Result<bool, AErr>
@prewrite let creds = self . store . fetch ( $*a ) . await ==> self.nonce_manager.x_others(); let creds = self.store.fetch($a)
@rewrite request . body ( ) ==> request.body().x_bytes()
@rewrite if ! constant_time_eq ( $*a ) ==> proof { if utf(response_calc@) == utf(params.response@) { utf_inj(response_calc@, params.response@); } ready_use(*old(self), *request, *headers, params); } if !constant_time_eq($a)
@rewrite Ok ( self . record_nonce_use ( request , & params ) ) ==> { let ghost m__ = self.nonce_manager.nonces@; let r__ = self.record_nonce_use(request, &params); proof { if r__ { assert(used_from(m__, self.nonce_manager.nonces@, params.nonce@, params.nc.unwrap() as int, rqhash(*request), old(self).nonce_manager.max_request_age@)); } } Ok(r__) }
    ensures same_but_nonces(*old(self), *final(self)),
        ({
            let av = said(*old(self), *headers).unwrap();
            let creds = old(self).store.holds_async(av.m["username"@], old(self).realm@);
            r matches Ok(true) ==> ready(*old(self), *request, *headers) && creds.is_some() && right(*old(self), *request, av, creds.unwrap().password@)
                && exists|m: Map<Seq<char>, Nonce>| used_from(m, final(self).nonce_manager.nonces@, av.m["nonce"@], hexnum(av.m["nc"@]).unwrap() as int, rqhash(*request), old(self).nonce_manager.max_request_age@)
        }),
@entry
    hide(ready); hide(may_use); hide(said); hide(nused); hide(rqhash);
//@end
}
// ---- the confirmation ------------------------------------------------------------------------------------
pub open spec fn ot(o: Option<SmolStr>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub struct IV { pub qop: Option<Qop>, pub rsp: Option<Seq<char>>, pub cn: Option<Seq<char>>, pub nc: Option<Seq<char>>, pub nn: Option<Seq<char>> }
pub open spec fn info_is(i: AuthInfo, v: IV) -> bool { i.qop == v.qop && Some(i.rspauth@) == v.rsp && ot(i.cnonce) == v.cn && ot(i.nc) == v.nc && ot(i.nextnonce) == v.nn }
pub open spec fn unq(s: Seq<char>) -> Seq<char> { let t = trim_s(s); if t.len() >= 2 && t[0] == '"' && t.last() == '"' { t.subrange(1, t.len() - 1) } else { t } }
pub open spec fn ikey(p: Seq<char>) -> Seq<char> { lower(trim_s(p.take(fidx(p, Pat::C('='))))) }
pub open spec fn ival(p: Seq<char>) -> Seq<char> { unq(trim_s(p.skip(fidx(p, Pat::C('=')) + 1))) }
pub open spec fn istep(a: IV, p: Seq<char>) -> IV {
    if !occ(p, Pat::C('=')) { a } else {
        let k = ikey(p); let v = ival(p);
        if k == "qop"@ { IV { qop: qop_of(v), ..a } } else if k == "rspauth"@ { IV { rsp: Some(v), ..a } } else if k == "cnonce"@ { IV { cn: Some(v), ..a } }
        else if k == "nc"@ { IV { nc: Some(v), ..a } } else if k == "nextnonce"@ { IV { nn: Some(v), ..a } } else { a }
    }
}
pub open spec fn ifold(p: Seq<Seq<char>>) -> IV decreases p.len() { if p.len() == 0 { IV { qop: None, rsp: None, cn: None, nc: None, nn: None } } else { istep(ifold(p.drop_last()), p.last()) } }
pub open spec fn info_text(v: IV) -> Seq<char> {
    let t = match v.qop { Some(q) => e() + (e() + "qop="@ + qt(q) + ", "@), None => e() };
    let t = t + (e() + "rspauth=\""@ + v.rsp.unwrap() + "\""@);
    let t = match v.cn { Some(c) => t + (e() + ", cnonce=\""@ + c + "\""@), None => t };
    let t = match v.nc { Some(c) => t + (e() + ", nc="@ + c), None => t };
    match v.nn { Some(c) => t + (e() + ", nextnonce=\""@ + c + "\""@), None => t }
}
pub open spec fn iv(i: AuthInfo) -> IV { IV { qop: i.qop, rsp: Some(i.rspauth@), cn: ot(i.cnonce), nc: ot(i.nc), nn: ot(i.nextnonce) } }
//@fn strip_quotes
@props P03
@rewrite s . ends_with ( '"' ) ==> s.x_ends_with_c('"')
@rewrite & s [ 1 .. s . len ( ) - 1 ] ==> s.x_sub(1, s.len() - 1)
    ensures r@ == unq(s@),
@rewrite let s = s . trim ( ) ; ==> let s = s.trim(); proof { quoted(s@); }
//@end
proof fn quoted(t: Seq<char>)
    ensures (blen(t) >= 2 && t.len() > 0 && t[0] == '"' && t.last() == '"') == (t.len() >= 2 && t[0] == '"' && t.last() == '"'),
        t.len() >= 2 && t[0] == '"' && t.last() == '"' ==> blen(t) >= 2 && bnd(t, 1) && bnd(t, blen(t) - 1) && cidx(t, 1) == 1 && cidx(t, blen(t) - 1) == t.len() - 1,
{
    blen_len(t);
    if t.len() == 1 && t[0] == '"' { blen_ascii(t); }
    if t.len() >= 2 && t[0] == '"' && t.last() == '"' {
        at_ascii(t, 1); let n = t.len() - 1; at_char(t, n); assert(t.take(n).push(t.last()) =~= t); blen_push(t.take(n), t.last());
    }
}
//@fn split_auth_info_params
@props P03
@rewrite let mut out = Vec :: new ( ) ==> let mut out: Vec<String> = Vec::new()
@rewrite trimmed . to_string ( ) ==> trimmed.x_string()
    ensures sviews(r@) =~= qparts(input@),
@loop 1
    invariant 0 <= i__ <= cs__@.len(), cs__@ == input@,
        ({ let s = qrun(input@.take(i__ as int)); sviews(out@) =~= s.parts && current@ == s.cur && in_quotes == s.q && escape == s.esc }),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(input@.take(i__ + 1).drop_last() =~= input@.take(i__ as int)); }
@afterloop 1
    proof { assert(input@.take(input@.len() as int) =~= input@); }
//@end
impl AuthInfo {
//@fn AuthInfo::to_header_value
@props P03
@fmt
@rewrite out . push_str ( & { $*b } ) ==> { let t__ = { $b }; out.x_push(t__.as_str()) }
    ensures r@ == info_text(iv(*self)),
//@end
//@fn AuthInfo::parse
@props P03
@rewrite for raw in split_auth_info_params ( value ) { $*b } ==> let ps__ = split_auth_info_params(value); let mut k__: usize = 0; while k__ < ps__.len() { let raw = ps__[k__].as_str(); k__ += 1; $b }
@rewrite match key . to_ascii_lowercase ( ) . as_str ( ) { $*b } ==> { let lk__ = key.to_ascii_lowercase(); match lk__.as_str() { $b } }
@rewrite let mut qop = None ==> let mut qop: Option<Qop> = None
@rewrite let mut cnonce = None ==> let mut cnonce: Option<SmolStr> = None
@rewrite let mut nc = None ==> let mut nc: Option<SmolStr> = None
@rewrite let mut nextnonce = None ==> let mut nextnonce: Option<SmolStr> = None
    ensures match r { Some(i) => info_is(i, ifold(qparts(value@))), None => ifold(qparts(value@)).rsp.is_none() },
@entry
    broadcast use {sx::first_is};
@loop 1
    invariant 0 <= k__ <= ps__@.len(), sviews(ps__@) =~= qparts(value@),
        ({ let v = ifold(qparts(value@).take(k__ as int)); qop == v.qop && ot(rspauth) == v.rsp && ot(cnonce) == v.cn && ot(nc) == v.nc && ot(nextnonce) == v.nn }),
    decreases ps__@.len() - k__,
@loopbody 1
    proof { let q = qparts(value@); assert(q[k__ as int] == sviews(ps__@)[k__ as int]); assert(q.take(k__ + 1).drop_last() =~= q.take(k__ as int)); assert(q.take(k__ + 1).last() == ps__@[k__ as int]@); }
@afterloop 1
    proof { let q = qparts(value@); assert(q.take(q.len() as int) =~= q); }
//@end
}
impl<S: CredentialStore> DigestAuthenticator<S> {
//@fn DigestAuthenticator::build_auth_info
@props P03
@rewrite SmolStr :: new ( rspauth ) ==> SmolStr::from_string(rspauth)
@rewrite & nc_raw , & cnonce ==> nc_raw.as_str(), cnonce.as_str()
@rewrite let Some ( $x ) = $*e else { $*b } ; ==> let $x = match $e { Some(v__) => v__, None => { $b } };
    ensures ({
            let av = said(*self, request.headers).unwrap();
            let creds = self.store.holds(av.m["username"@], self.realm@);
            match r {
                Ok(Some(i)) => ready(*self, *request, request.headers) && creds.is_some() && i.qop == Some(self.qop) && ot(i.cnonce) == Some(av.m["cnonce"@]) && ot(i.nc) == Some(av.m["nc"@])
                    && ot(i.nextnonce) == (match nextnonce { Some(t) => Some(t@), None => None })
                    && i.rspauth@ == confirm(self.algorithm, av.m["username"@], self.realm@, creds.unwrap().password@, av.m["uri"@], av.m["nonce"@], av.m["nc"@], av.m["cnonce"@], self.qop, response_body@),
                _ => !ready(*self, *request, request.headers) || creds.is_none() || self.rate_limiter.is_some(),
            }
        }),
@entry
    hide(ready); hide(said);
//@end
//@fn DigestAuthenticator::compute_rspauth
@props P03
@fmt
@rewrite & base_ha1 ==> base_ha1.as_str()
    ensures r@ == confirm(self.algorithm, username@, self.realm@, password@, uri@, nonce@, nc@, cnonce@, qop, response_body@),
//@end
}
// ---- the client ------------------------------------------------------------------------------------------
pub open spec fn autext(user: Seq<char>, realm: Seq<char>, nonce: Seq<char>, uri: Seq<char>, resp: Seq<char>, a: DigestAlgorithm, q: Qop, nc: Seq<char>, cn: Seq<char>, opaque: Option<Seq<char>>) -> Seq<char> {
    let t = e() + "Digest username=\""@ + user + "\", realm=\""@ + realm + "\", nonce=\""@ + nonce + "\", uri=\""@ + uri + "\", response=\""@ + resp + "\", algorithm="@ + alg_t(a);
    let t = t + (e() + ", qop="@ + qt(q) + ", nc="@ + nc + ", cnonce=\""@ + cn + "\""@);
    match opaque { Some(o) => t + (e() + ", opaque=\""@ + o + "\""@), None => t }
}
pub open spec fn nc8(n: u32) -> Seq<char> { fmt_as(&n, "08x"@) }
/// {:08x} writes eight hexadecimal digits of the value
pub broadcast axiom fn nc8_is(n: u32) ensures #![trigger fmt_as(&n, "08x"@)] fmt_as(&n, "08x"@).len() == 8, hexnum(fmt_as(&n, "08x"@)) == Some(n as nat), all_hex(fmt_as(&n, "08x"@));
pub open spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
/// the header this client writes, with client nonce cn
pub open spec fn wrote(c: DigestClient, cn: Seq<char>, m: Seq<char>, uri: Seq<char>, realm: Seq<char>, nonce: Seq<char>, a: DigestAlgorithm, q: Qop, opaque: Option<Seq<char>>, body: Seq<u8>) -> Seq<char> {
    autext(c.username@, realm, nonce, uri, response(a, c.username@, realm, c.password@, m, uri, nonce, nc8(c.nc), cn, q, body), a, q, nc8(c.nc), cn, opaque)
}
pub open spec fn is_auth_text(t: Seq<char>, cn: Seq<char>, c: DigestClient, m: Seq<char>, uri: Seq<char>, realm: Seq<char>, nonce: Seq<char>, a: DigestAlgorithm, q: Qop, opaque: Option<Seq<char>>, body: Seq<u8>) -> bool {
    cn.len() == 16 && alnum(cn) && t == wrote(c, cn, m, uri, realm, nonce, a, q, opaque, body)
}
impl DigestClient {
//@fn DigestClient::new
@props P03
@rewrite . to_string ( ) ==> .x_string()
    ensures r.username@ == username@, r.password@ == password@, r.nc == 0,
//@end
//@fn DigestClient::username
    ensures r@ == self.username@,
@props P03
//@end
//@fn DigestClient::password
    ensures r@ == self.password@,
@props P03
//@end
//@fn DigestClient::nc
    ensures r == self.nc,
@props P03
//@end
//@fn DigestClient::hash
    ensures r@ == hb(*algorithm, data@),
@props P03
//@end
//@fn DigestClient::generate_authorization
@props P03
@fmt
@rewrite auth . push_str ( & { $*b } ) ==> { let t__ = { $b }; auth.x_push(t__.as_str()) }
@rewrite auth } ==> proof { if let Some(q) = qop { assert(is_auth_text(auth@, cnonce@, *self, mname(*method), uri@, realm@, nonce@, algorithm, q, ov(opaque), body@)); } } auth }
    ensures final(self).username == old(self).username, final(self).password == old(self).password, final(self).nc == (if old(self).nc < 0xffff_ffff { old(self).nc + 1 } else { 0xffff_ffff }),
        qop matches Some(q) ==> exists|cn: Seq<char>| is_auth_text(r@, cn, *final(self), mname(*method), uri@, realm@, nonce@, algorithm, q, ov(opaque), body@),
//@end
//@fn DigestClient::verify_auth_info
@props P03
@fmt
@prewrite . as_ref ( ) . ok_or_else ==> .x_ref().ok_or_else
@rewrite -> Result < Option < SmolStr > > ==> -> Result<Option<SmolStr>, AErr>
@rewrite if ! constant_time_eq ( $*a ) ==> proof { if utf(expected@) == utf(info.rspauth@) { utf_inj(expected@, info.rspauth@); } } if !constant_time_eq($a)
    ensures match r {
        Ok(n) => info.qop.is_some() && info.cnonce.is_some() && info.nc.is_some() && n == info.nextnonce
            && info.rspauth@ == confirm(algorithm, self.username@, realm@, self.password@, digest_uri@, nonce@, info.nc.unwrap()@, info.cnonce.unwrap()@, info.qop.unwrap(), response_body@),
        Err(_) => !(info.qop.is_some() && info.cnonce.is_some() && info.nc.is_some()
            && info.rspauth@ == confirm(algorithm, self.username@, realm@, self.password@, digest_uri@, nonce@, info.nc.unwrap()@, info.cnonce.unwrap()@, info.qop.unwrap(), response_body@)),
    },
//@end
}
// ---- whole histories -------------------------------------------------------------------------------------
pub struct Use { pub nc: int, pub hh: Seq<char> }
/// step i: the challenge was used by u[i], going from n[i] to n[i + 1]
pub open spec fn use_at(n: Seq<Nonce>, u: Seq<Use>, i: int) -> bool {
    (u[i].nc > n[i].last_nc || (u[i].nc == n[i].last_nc && (lasth(n[i]).is_none() || lasth(n[i]) == Some(u[i].hh)))) && n[i + 1].last_nc == u[i].nc && lasth(n[i + 1]) == Some(u[i].hh)
}
/// [P02] every accepted use is a step of the history
proof fn thm_step(a: Map<Seq<char>, Nonce>, b: Map<Seq<char>, Nonce>, v: Seq<char>, nc: int, hh: Seq<char>, age: int)
    requires may_use(a, v, nc, hh, age), nused(a, b, v, nc, hh)
    ensures use_at(seq![a[v], b[v]], seq![Use { nc, hh }], 0), forall|k: Seq<char>| k != v && #[trigger] b.contains_key(k) ==> a.contains_key(k) && a[k] == b[k]
{ }
/// [P02] over any number of accepted requests on one challenge, the counter never goes back, and a counter value is only repeated by a request with the same hash
proof fn thm_history(n: Seq<Nonce>, u: Seq<Use>, i: int, j: int)
    requires n.len() == u.len() + 1, forall|k: int| 0 <= k < u.len() ==> #[trigger] use_at(n, u, k), 0 <= i < j < u.len()
    ensures u[j].nc >= u[i].nc, u[j].nc == u[i].nc ==> u[j].hh == u[i].hh
    decreases j - i
{
    assert(use_at(n, u, i)); assert(use_at(n, u, j));
    hist_mono(n, u, i, j);
}
proof fn hist_mono(n: Seq<Nonce>, u: Seq<Use>, i: int, j: int)
    requires n.len() == u.len() + 1, forall|k: int| 0 <= k < u.len() ==> #[trigger] use_at(n, u, k), 0 <= i < j < u.len()
    ensures n[j].last_nc >= u[i].nc, n[j].last_nc == u[i].nc ==> lasth(n[j]) == Some(u[i].hh)
    decreases j - i
{
    assert(use_at(n, u, i)); assert(use_at(n, u, j - 1));
    if j > i + 1 { hist_mono(n, u, i, j - 1); }
}
}
} // verus!
