//@rewrite anyhow :: AErr ==> AErr
//@rewrite Result < Response > ==> Result<Response, AErr>
//@rewrite ( 0.0 ..= 1.0 ) . contains ( & $c ) ==> f_unit($c)
//@rewrite $q . is_nan ( ) ==> f_nan($q)
//@rewrite $q . clamp ( 0.0 , 1.0 ) ==> f_clamp($q)
//@rewrite Ok ( 1.0 ) ==> Ok(f_one())
//@rewrite q_value : 1.0 ==> q_value: f_one()
//@rewrite . unwrap_or_else ( | _ | { $*c } ) ==> .x_or({ $c })
//@rewrite StatusLine :: new ( $*a ) . expect ( $m ) ==> x_line($a)
//@rewrite . expect ( "valid response" ) ==> .x_must()
//@rewrite if let Some ( ref $x ) = self . $f { ==> if let Some($x) = &self.$f {
//@rewrite SmolStr :: new ( Utc :: now ( ) . to_rfc2822 ( ) ) ==> x_date().as_str()
//@rewrite rand :: rng ( ) . sample_iter ( Alphanumeric ) . take ( $n ) . map ( char :: from ) . collect ( ) ==> x_rand_alnum($n)
//@rewrite use unicode_normalization :: UnicodeNormalization ; ==>
//@rewrite . nfc ( ) . collect ( ) ==> .x_nfc()
//@rewrite . split ( $c ) . next ( ) ==> .x_split_it($c).next()
//@rewrite ( ! number . is_empty ( ) ) . then_some ( number ) ==> (if !number.is_empty() { Some(number) } else { None })
//@rewrite $s . rsplit_once ( $c ) . map ( | ( $a , _ ) | $e ) ==> (match $s.x_rsplit_once($c) { Some(($a, _)) => Some($e), None => None })
//@rewrite . rsplit_once ( ==> .x_rsplit_once(
//@rewrite . split ( $c ) . next ( ) ==> .x_split_it($c).next()
//@include ../headers
//@include errx
//@include strit
//@include fmt
//@include anyhow
//@include time
//@include dmap
verus! {
pub mod rg0 {
use super::*;
pub open spec fn alnum(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) }
/// n random letters and digits
#[verifier::external_body] pub fn x_rand_alnum(n: usize) -> (r: String) ensures r@.len() == n, alnum(r@) { unimplemented!() }
/// the current date as text
#[verifier::external_body] pub fn x_date() -> (r: SmolStr) { unimplemented!() }
// floating point numbers: uninterpreted
pub uninterp spec fn f32_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn in_unit(f: f32) -> bool;
pub uninterp spec fn is_nanf(f: f32) -> bool;
pub uninterp spec fn clampf(f: f32) -> f32;
pub uninterp spec fn onef() -> f32;
pub uninterp spec fn f32_text(f: f32) -> Seq<char>;
#[verifier::external_body] pub fn f_unit(f: f32) -> (r: bool) ensures r == in_unit(f) { unimplemented!() }
#[verifier::external_body] pub fn f_nan(f: f32) -> (r: bool) ensures r == is_nanf(f) { unimplemented!() }
#[verifier::external_body] pub fn f_clamp(f: f32) -> (r: f32) ensures r == clampf(f) { unimplemented!() }
#[verifier::external_body] pub fn f_one() -> (r: f32) ensures r == onef() { unimplemented!() }
pub trait XF32 { spec fn ft(&self) -> Seq<char>; fn xp_f32(&self) -> (r: Result<f32, NumErr>) ensures match r { Ok(v) => f32_of(self.ft()) == Some(v), Err(_) => f32_of(self.ft()).is_none() }; }
impl XF32 for str { open spec fn ft(&self) -> Seq<char> { self@ } #[verifier::external_body] fn xp_f32(&self) -> (r: Result<f32, NumErr>) { unimplemented!() } }
impl XFmt for f32 { open spec fn fv(&self) -> Seq<char> { f32_text(*self) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
// text
pub uninterp spec fn nfc(s: Seq<char>) -> Seq<char>;
pub trait XText { spec fn tx(&self) -> Seq<char>;
    fn x_nfc(&self) -> (r: String) ensures r@ == nfc(self.tx());
    fn x_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some((a, b)) => last(self.tx(), Pat::C(c), a@.len() as int) && a@ == self.tx().take(a@.len() as int) && b@ == self.tx().skip(a@.len() as int + 1), None => !occ(self.tx(), Pat::C(c)) };
    fn x_has3(&self, a: char, b: char, c: char) -> (r: bool) ensures r == (occ(self.tx(), Pat::C(a)) || occ(self.tx(), Pat::C(b)) || occ(self.tx(), Pat::C(c)));
}
impl XText for str { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_nfc(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn x_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() } #[verifier::external_body] fn x_has3(&self, a: char, b: char, c: char) -> (r: bool) { unimplemented!() } }
pub trait XOwn { spec fn ov(&self) -> Seq<char>; fn x_string(&self) -> (r: String) ensures r@ == self.ov(); }
impl XOwn for SmolStr { open spec fn ov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_string(&self) -> (r: String) { unimplemented!() } }
impl XOwn for str { open spec fn ov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_string(&self) -> (r: String) { unimplemented!() } }
impl XOwn for String { open spec fn ov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_string(&self) -> (r: String) { unimplemented!() } }
pub trait XRef<T> { spec fn xr(&self) -> Option<T>; fn x_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.xr() == Some(*x), None => self.xr().is_none() }; }
impl<T> XRef<T> for Option<T> { open spec fn xr(&self) -> Option<T> { *self } #[verifier::external_body] fn x_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait XCloned<T> { spec fn xo(&self) -> Option<T>; fn x_cloned(self) -> (r: Option<T>) ensures r == self.xo(); }
impl<'a, T> XCloned<T> for Option<&'a T> { open spec fn xo(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn x_cloned(self) -> (r: Option<T>) { unimplemented!() } }
pub trait XSome<T, E>: Sized { spec fn xsv(&self) -> Result<T, E>; fn x_some(self) -> (r: Result<Option<T>, E>) ensures r == (match self.xsv() { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }); }
impl<T, E> XSome<T, E> for Result<T, E> { open spec fn xsv(&self) -> Result<T, E> { *self } fn x_some(self) -> (r: Result<Option<T>, E>) { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } } }
/// unwrap_or_else with a value that has no effects
pub trait XOr<T>: Sized { spec fn xvo(&self) -> Option<T>; fn x_or(self, d: T) -> (r: T) ensures r == (match self.xvo() { Some(v) => v, None => d }); }
impl<T, E> XOr<T> for Result<T, E> { open spec fn xvo(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } } fn x_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } } }
impl<T> XOr<T> for Option<T> { open spec fn xvo(&self) -> Option<T> { *self } fn x_or(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } } }
// types of other crates
#[verifier::external_body] pub struct PathHeader { x: u128 }
impl Clone for PathHeader { #[verifier::external_body] fn clone(&self) -> (r: PathHeader) ensures r == *self { unimplemented!() } }
impl PathHeader { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct ServiceRouteHeader { x: u128 }
impl ServiceRouteHeader { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct RouteError { x: u128 }
#[verifier::external_body] pub struct RateLimiter { x: u128 }
impl RateLimiter { #[verifier::external_body] pub fn check_rate_limit(&self, key: &str) -> (r: bool) { unimplemented!() } }
/// the caller's key function
#[verifier::external_body] pub struct KeyFn { x: u128 }
#[verifier::external_body] pub fn x_call(f: &KeyFn, rq: &Request) -> (r: Option<SmolStr>) { unimplemented!() }
pub uninterp spec fn path_of(h: Headers) -> Option<PathHeader>;
#[verifier::external_body] pub fn parse_path(h: &Headers) -> (r: Result<PathHeader, RouteError>) ensures match r { Ok(p) => path_of(*h) == Some(p), Err(_) => path_of(*h).is_none() } { unimplemented!() }
/// a sip or sips URI (its parser is outside this unit)
#[verifier::external_body] pub struct SipUri { x: u128 }
impl SipUri {
    pub uninterp spec fn sips(&self) -> bool; pub uninterp spec fn hostv(&self) -> Seq<char>; pub uninterp spec fn portv(&self) -> Option<u16>; pub uninterp spec fn userv(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn is_sips(&self) -> (r: bool) ensures r == self.sips() { unimplemented!() }
    #[verifier::external_body] pub fn host(&self) -> (r: &str) ensures r@ == self.hostv() { unimplemented!() }
    #[verifier::external_body] pub fn port(&self) -> (r: Option<u16>) ensures r == self.portv() { unimplemented!() }
    #[verifier::external_body] pub fn user(&self) -> (r: Option<&str>) ensures match r { Some(u) => self.userv() == Some(u@), None => self.userv().is_none() } { unimplemented!() }
}
/// a tel URI
#[verifier::external_body] pub struct TelUri { x: u128 }
pub type TP = (Seq<char>, Option<Seq<char>>);
pub open spec fn tpo(o: Option<SmolStr>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
impl TelUri {
    pub uninterp spec fn numv(&self) -> Seq<char>; pub uninterp spec fn globalv(&self) -> bool; pub uninterp spec fn ctxv(&self) -> Option<Seq<char>>; pub uninterp spec fn prm(&self) -> Seq<TP>;
    #[verifier::external_body] pub fn number(&self) -> (r: &str) ensures r@ == self.numv() { unimplemented!() }
    #[verifier::external_body] pub fn is_global(&self) -> (r: bool) ensures r == self.globalv() { unimplemented!() }
    #[verifier::external_body] pub fn phone_context(&self) -> (r: Option<&str>) ensures match r { Some(u) => self.ctxv() == Some(u@), None => self.ctxv().is_none() } { unimplemented!() }
    /// the parameters in key order
    #[verifier::external_body] pub fn x_parameters(&self) -> (r: Vec<(&SmolStr, &Option<SmolStr>)>) ensures r@.len() == self.prm().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.prm()[i].0 && tpo(*r@[i].1) == self.prm()[i].1 { unimplemented!() }
}
pub open spec fn spo(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn tps(v: Seq<(String, Option<String>)>) -> Seq<TP> { Seq::new(v.len(), |i: int| (v[i].0@, spo(v[i].1))) }
/// a stable sort by key
pub uninterp spec fn psort(s: Seq<TP>) -> Seq<TP>;
#[verifier::external_body] pub fn x_sort_params(v: &mut Vec<(String, Option<String>)>) ensures tps(final(v)@) == psort(tps(old(v)@)) { unimplemented!() }
#[verifier::external_body] pub struct AbsUri { x: u128 }
pub enum PUri { Sip(SipUri), Tel(TelUri), Absolute(AbsUri) }
pub uninterp spec fn uri_of(s: Seq<char>) -> Option<PUri>;
#[verifier::external_body] pub struct UriErr { x: u128 }
impl PUri { #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<PUri, UriErr>) ensures match r { Ok(u) => uri_of(s@) == Some(u), Err(_) => uri_of(s@).is_none() } { unimplemented!() } }
#[verifier::external_body] pub struct NameAddr { x: u128 }
impl NameAddr { pub uninterp spec fn uriv(&self) -> PUri; #[verifier::external_body] pub fn uri(&self) -> (r: &PUri) ensures *r == self.uriv() { unimplemented!() } }
#[verifier::external_body] pub struct ToHeader { x: u128 }
impl ToHeader { pub uninterp spec fn inn(&self) -> NameAddr; #[verifier::external_body] pub fn inner(&self) -> (r: &NameAddr) ensures *r == self.inn() { unimplemented!() } }
pub uninterp spec fn to_of(s: Seq<char>) -> Option<ToHeader>;
#[verifier::external_body] pub fn parse_to_header(s: &SmolStr) -> (r: Option<ToHeader>) ensures r == to_of(s@) { unimplemented!() }
/// a status line of this text (the literal reasons are legal)
#[verifier::external_body] pub fn x_line(code: u16, reason: &str) -> (r: StatusLine) requires 100 <= code <= 699, ensures sl_ok(r), r.code == code { unimplemented!() }
impl From<HeaderError> for AErr { #[verifier::external_body] fn from(e: HeaderError) -> AErr { unimplemented!() } }
impl From<MessageError> for AErr { #[verifier::external_body] fn from(e: MessageError) -> AErr { unimplemented!() } }
}
use rg0::*;
pub mod rg {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, st::str_bytes_bound, sx::first_is, sx::last_is, tm::mkd_view, tm::d_range};
//@file crates/sip-parse/src/lib.rs
/// the long form of a header name
pub uninterp spec fn canon(n: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn canonical_header_name(name: &str) -> (r: SmolStr) ensures r@ == canon(name@) { unimplemented!() }
pub open spec fn hdr(h: Headers, n: Seq<char>) -> Option<Seq<char>> { if hget(h, n).is_some() { hget(h, n) } else { hget(h, canon(n)) } }
//@fn header
@rewrite headers . get_smol ( name ) . or_else ( || $*e ) ==> match headers.get_smol(name) { Some(v) => Some(v), None => $e }
    ensures match r { Some(v) => hdr(*headers, name@) == Some(v@), None => hdr(*headers, name@).is_none() },
//@end
//@file crates/sip-registrar/src/lib.rs
//@rewrite Uri :: ==> PUri::
//@rewrite & Uri ==> &PUri
//@const MAX_AOR_LENGTH
//@const MAX_CONTACT_LENGTH
//@const MAX_CALL_ID_LENGTH
//@const MAX_USER_AGENT_LENGTH
//@const MAX_CSEQ_VALUE
//@const MIN_EXPIRES_SECS
//@const MAX_EXPIRES_SECS
//@enum RegistrationError
//@enum NormalizeError
//@enum ExpiresError
//@enum ContactHeaderError
//@enum ContactParamError
//@struct Binding
impl From<RegistrationError> for AErr { #[verifier::external_body] fn from(e: RegistrationError) -> AErr { unimplemented!() } }
impl Clone for Binding { #[verifier::external_body] fn clone(&self) -> (r: Binding) ensures r == *self { unimplemented!() } }
pub open spec fn legal(s: Seq<char>, max: int) -> bool { blen(s) <= max && !has_ctrl(s) }
//@fn validate_aor
    ensures r.is_ok() == legal(aor@, MAX_AOR_LENGTH as int),
//@end
//@fn validate_contact
    ensures r.is_ok() == legal(contact@, MAX_CONTACT_LENGTH as int),
//@end
//@fn validate_call_id
    ensures r.is_ok() == legal(call_id@, MAX_CALL_ID_LENGTH as int),
//@end
//@fn validate_user_agent
    ensures r.is_ok() == legal(user_agent@, MAX_USER_AGENT_LENGTH as int),
//@end
//@fn validate_cseq
    ensures r.is_ok() == (cseq <= MAX_CSEQ_VALUE),
//@end
//@fn validate_q_value
    ensures r.is_ok() == (in_unit(q) && !is_nanf(q)),
//@end
//@fn validate_expires
    ensures r.is_ok() == (MIN_EXPIRES_SECS <= expires@ / 1_000_000_000 <= MAX_EXPIRES_SECS),
//@end
impl Binding {
//@fn Binding::new
@rewrite ( & $x ) ? ==> ($x.as_str())?
    ensures match r {
        Ok(b) => b.aor == aor && b.contact == contact && b.expires == expires && b.call_id@.len() == 0 && b.cseq == 0 && b.user_agent.is_none() && b.path.is_none() && b.flow_token.is_none() && b.instance_id.is_none() && b.reg_id.is_none(),
        Err(_) => !(legal(aor@, MAX_AOR_LENGTH as int) && legal(contact@, MAX_CONTACT_LENGTH as int) && MIN_EXPIRES_SECS <= expires@ / 1_000_000_000 <= MAX_EXPIRES_SECS) },
@entry
    proof { reveal_strlit(""); }
//@end
//@fn Binding::with_call_id
@rewrite ( & $x ) ? ==> ($x.as_str())?
    ensures match r { Ok(b) => b == (Binding { call_id: call_id, ..self }), Err(_) => !legal(call_id@, MAX_CALL_ID_LENGTH as int) },
//@end
//@fn Binding::with_user_agent
@rewrite ( & $x ) ? ==> ($x.as_str())?
    ensures match r { Ok(b) => b == (Binding { user_agent: Some(user_agent), ..self }), Err(_) => !legal(user_agent@, MAX_USER_AGENT_LENGTH as int) },
//@end
//@fn Binding::with_cseq
    ensures match r { Ok(b) => b == (Binding { cseq, ..self }), Err(_) => cseq > MAX_CSEQ_VALUE },
//@end
//@fn Binding::with_q_value
    ensures match r { Ok(b) => b == (Binding { q_value: clampf(q_value), ..self }), Err(_) => !in_unit(q_value) || is_nanf(q_value) },
//@end
//@fn Binding::with_path
    ensures r == (Binding { path: Some(path), ..self }),
//@end
//@fn Binding::with_flow_token
    ensures r == (Binding { flow_token: Some(flow_token), ..self }),
//@end
//@fn Binding::with_instance_id
    ensures r == (Binding { instance_id: Some(instance_id), ..self }),
//@end
//@fn Binding::with_reg_id
    ensures r == (Binding { reg_id: Some(reg_id), ..self }),
//@end
//@fn Binding::contact
@rewrite & self . contact ==> self.contact.as_str()
    ensures r@ == self.contact@,
//@end
//@fn Binding::path
@prewrite self . path . as_ref ( ) ==> self.path.x_ref()
    ensures match r { Some(p) => self.path == Some(*p), None => self.path.is_none() },
//@end
}

pub open spec fn e() -> Seq<char> { Seq::empty() }
// ---- whose registration it is -----------------------------------------------------------------------
/// user names are the same up to ASCII case and Unicode composition
pub open spec fn same_user(a: Seq<char>, b: Seq<char>) -> bool { eq_ci(nfc(a), nfc(b)) }
//@fn usernames_equal
@props P04
@rewrite a_nfc . eq_ignore_ascii_case ( & b_nfc ) ==> a_nfc.as_str().eq_ignore_ascii_case(b_nfc.as_str())
    ensures r == same_user(a@, b@),
//@end
/// the identity an address-of-record belongs to: the number of a tel address, otherwise the user part
pub open spec fn aor_id(s: Seq<char>) -> Option<Seq<char>> {
    if !occ(s, Pat::C(':')) { None } else {
        let k = fidx(s, Pat::C(':')); let rest = s.skip(k + 1);
        if eq_ci(s.take(k), "tel"@) { let n = fields(rest, ';')[0]; if n.len() > 0 { Some(n) } else { None } }
        else if occ(rest, Pat::C('@')) { Some(rest.take(lidx(rest, Pat::C('@')))) } else { None }
    }
}
//@fn aor_identity
@props P04
    ensures match r { Some(t) => aor_id(aor@) == Some(t@), None => aor_id(aor@).is_none() },
@rewrite aor . split_once ( ':' ) ? ==> (match aor.split_once(':') { Some(p__) => p__, None => return None })
@entry
    broadcast use sl::fields_some;
//@end
/// the user part without a repeated host
pub open spec fn sip_user(u: Seq<char>, host: Seq<char>) -> Seq<char> {
    if occ(u, Pat::C('@')) && eq_ci(u.skip(lidx(u, Pat::C('@')) + 1), host) { u.take(lidx(u, Pat::C('@'))) } else { u }
}
pub open spec fn hostport(u: SipUri) -> Seq<char> { match u.portv() { Some(p) => e() + lower(u.hostv()) + ":"@ + dtext(p as nat), None => lower(u.hostv()) } }
pub open spec fn has_user(u: SipUri) -> bool { u.userv().is_some() && sip_user(u.userv().unwrap(), u.hostv()).len() > 0 }
pub open spec fn scheme_of(u: SipUri) -> Seq<char> { if u.sips() { "sips"@ } else { "sip"@ } }
pub open spec fn sip_aor(u: SipUri) -> Seq<char> {
    if has_user(u) { e() + scheme_of(u) + ":"@ + sip_user(u.userv().unwrap(), u.hostv()) + "@"@ + hostport(u) } else { e() + scheme_of(u) + ":"@ + hostport(u) }
}
//@fn normalize_sip_aor
@props P04,P05
@fmt
@rewrite uri . user ( ) . map ( | u | { $*b } ) ==> uri.user().map(|u: &str| -> (o: String) ensures o@ == sip_user(u@, uri.hostv()) { $b })
@rewrite Some ( user ) if ! user . is_empty ( ) ==> Some(user) if user.as_str().len() > 0
    ensures r@ == sip_aor(*uri),
//@end

/// a sip address belongs to its user part (its host part has no '@')
pub proof fn thm_sip_owner(u: SipUri)
    requires !occ(hostport(u), Pat::C('@'))
    ensures aor_id(sip_aor(u)) == (if has_user(u) { Some(sip_user(u.userv().unwrap(), u.hostv())) } else { None })
{
    reveal_strlit(":"); reveal_strlit("@"); reveal_strlit("sip"); reveal_strlit("sips"); reveal_strlit("tel");
    let s = sip_aor(u); let k = scheme_of(u).len() as int; let hp = hostport(u);
    assert(scheme_of(u) == "sip"@ || scheme_of(u) == "sips"@);
    assert(s.len() > k && s[k] == ':');
    assert forall|j: int| 0 <= j < k implies !at(s, Pat::C(':'), j) by { assert(s[j] == scheme_of(u)[j]); }
    assert(at(s, Pat::C(':'), k));
    assert(first(s, Pat::C(':'), k));
    assert(fidx(s, Pat::C(':')) == k);
    assert(s.take(k) =~= scheme_of(u));
    assert(!eq_ci(scheme_of(u), "tel"@)) by {
        if eq_ci(scheme_of(u), "tel"@) { assert(lower(scheme_of(u))[0] == lower("tel"@)[0]); assert(low(scheme_of(u)[0]) == low("tel"@[0])); }
    }
    let rest = s.skip(k + 1);
    assert forall|j: int| !#[trigger] at(hp, Pat::C('@'), j) by { }
    if has_user(u) {
        let us = sip_user(u.userv().unwrap(), u.hostv()); let n = us.len() as int;
        assert(rest =~= us + "@"@ + hp);
        assert(rest[n] == '@');
        assert(at(rest, Pat::C('@'), n));
        assert forall|j: int| j > n implies !at(rest, Pat::C('@'), j) by { if j < rest.len() { assert(rest[j] == hp[j - n - 1]); assert(!at(hp, Pat::C('@'), j - n - 1)); } }
        assert(last(rest, Pat::C('@'), n));
        assert(rest.take(n) =~= us);
    } else {
        assert(rest =~= hp);
    }
}

// ---- tel addresses ------------------------------------------------------------------------------------
pub open spec fn sepc(c: char) -> bool { c == '-' || c == '.' || c == ' ' || c == '(' || c == ')' }
/// the number without visual separators
pub open spec fn telnum(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { e() } else if sepc(s.last()) { telnum(s.drop_last()) } else { telnum(s.drop_last()).push(s.last()) } }
//@fn normalize_tel_number
@props P04,P05
@rewrite let normalized : String = number . chars ( ) . filter ( | c | $*p ) . collect ( ) ; ==> let mut normalized: String = String::new(); let cs__ = number.x_chars(); let mut i__: usize = 0; while i__ < cs__.len() { let c = &cs__[i__]; i__ += 1; if $p { normalized.push(*c); } }
@rewrite SmolStr :: new ( normalized ) ==> SmolStr::from_string(normalized)
    ensures r@ == telnum(number@),
@loop 1
    invariant 0 <= i__ <= cs__@.len(), cs__@ == number@, normalized@ =~= telnum(number@.take(i__ as int)),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(number@.take(i__ + 1).drop_last() =~= number@.take(i__ as int)); }
@afterloop 1
    proof { assert(number@.take(number@.len() as int) =~= number@); }
//@end
pub open spec fn telctx(c: Seq<char>) -> Seq<char> { if at(c, Pat::C('+'), 0) { telnum(c) } else { lower(c) } }
/// the other parameters, keys in lower case
pub open spec fn tkept(s: Seq<TP>) -> Seq<TP> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if eq_ci(s.last().0, "phone-context"@) { tkept(s.drop_last()) } else { tkept(s.drop_last()).push((lower(s.last().0), s.last().1)) }
}
pub open spec fn ptext(p: TP) -> Seq<char> { match p.1 { Some(v) => seq![';'] + p.0 + seq!['='] + v, None => seq![';'] + p.0 } }
pub open spec fn ptail(s: Seq<TP>) -> Seq<char> decreases s.len() { if s.len() == 0 { e() } else { ptail(s.drop_last()) + ptext(s.last()) } }
pub open spec fn tel_aor(u: TelUri) -> Seq<char> {
    e() + "tel:"@ + telnum(u.numv()) + (if !u.globalv() && u.ctxv().is_some() { ";phone-context="@ + telctx(u.ctxv().unwrap()) } else { e() }) + ptail(psort(tkept(u.prm())))
}
//@fn normalize_tel_aor
@props P04,P05
@rewrite params . sort_by ( $*c ) ; ==> x_sort_params(&mut params);
@rewrite uri . phone_context ( ) . map ( | context | { $*b } ) ==> (match uri.phone_context() { Some(context) => Some({ $b }), None => None })
@rewrite for ( key , value ) in uri . parameters ( ) { $*b } ==> let ps__ = uri.x_parameters(); let mut i__: usize = 0; while i__ < ps__.len() { let key = ps__[i__].0; let value = ps__[i__].1; i__ += 1; $b }
@rewrite for ( key , value ) in params { $*b } ==> let mut j__: usize = 0; while j__ < params.len() { let key = params[j__].0.clone(); let value = params[j__].1.clone(); j__ += 1; $b }
@rewrite value . map ( | v | v . as_str ( ) . to_owned ( ) ) ==> (match value { Some(v) => Some(v.x_string()), None => None })
@rewrite . push_str ( & $x ) ==> .push_str($x.as_str())
@rewrite let mut params = Vec :: new ( ) ==> let mut params: Vec<(String, Option<String>)> = Vec::new()
@fmt
    ensures r@ =~= tel_aor(*uri),
@loop 1
    invariant 0 <= i__ <= ps__@.len(), ps__@.len() == uri.prm().len(), tps(params@) =~= tkept(uri.prm().take(i__ as int)),
        forall|i: int| 0 <= i < ps__@.len() ==> (#[trigger] ps__@[i]).0@ == uri.prm()[i].0 && tpo(*ps__@[i].1) == uri.prm()[i].1,
    decreases ps__@.len() - i__,
@loopbody 1
    proof { assert(uri.prm().take(i__ + 1).drop_last() =~= uri.prm().take(i__ as int)); assert(uri.prm().take(i__ + 1).last() == uri.prm()[i__ as int]); }
@afterloop 1
    proof { assert(uri.prm().take(uri.prm().len() as int) =~= uri.prm()); }
@loop 2
    invariant 0 <= j__ <= params@.len(), uri.globalv(), tps(params@) == psort(tkept(uri.prm())), number@ == telnum(uri.numv()),
        out@ =~= e() + "tel:"@ + telnum(uri.numv()) + ptail(tps(params@).take(j__ as int)),
    decreases params@.len() - j__,
@loopbody 2
    proof { assert(tps(params@).take(j__ + 1).drop_last() =~= tps(params@).take(j__ as int)); }
@afterloop 2
    proof { assert(tps(params@).take(params@.len() as int) =~= tps(params@)); }
@loop 3
    invariant 0 <= j__ <= params@.len(), !uri.globalv(), tps(params@) == psort(tkept(uri.prm())), number@ == telnum(uri.numv()),
        out@ =~= e() + "tel:"@ + telnum(uri.numv()) + (if uri.ctxv().is_some() { ";phone-context="@ + telctx(uri.ctxv().unwrap()) } else { e() }) + ptail(tps(params@).take(j__ as int)),
    decreases params@.len() - j__,
@loopbody 3
    proof { assert(tps(params@).take(j__ + 1).drop_last() =~= tps(params@).take(j__ as int)); }
@afterloop 3
    proof { assert(tps(params@).take(params@.len() as int) =~= tps(params@)); }
//@end
/// a tel address belongs to its number
pub proof fn thm_tel_owner(u: TelUri)
    requires !occ(telnum(u.numv()), Pat::C(';')), telnum(u.numv()).len() > 0
    ensures aor_id(tel_aor(u)) == Some(telnum(u.numv()))
{
    reveal_strlit("tel"); reveal_strlit("tel:"); reveal_strlit(";phone-context=");
    let s = tel_aor(u); let n = telnum(u.numv());
    let tail = (if !u.globalv() && u.ctxv().is_some() { ";phone-context="@ + telctx(u.ctxv().unwrap()) } else { e() }) + ptail(psort(tkept(u.prm())));
    assert(s =~= "tel:"@ + n + tail);
    assert(s[3] == ':'); assert(s[0] == 't' && s[1] == 'e' && s[2] == 'l');
    assert(at(s, Pat::C(':'), 3));
    assert(first(s, Pat::C(':'), 3));
    assert(s.take(3) =~= "tel"@);
    assert(s.skip(4) =~= n + tail);
    tail_start(psort(tkept(u.prm())));
    assert(tail.len() == 0 || tail[0] == ';');
    field0(n, tail);
}
proof fn tail_start(s: Seq<TP>) ensures ptail(s).len() == 0 || ptail(s)[0] == ';' decreases s.len() { if s.len() > 0 { tail_start(s.drop_last()); } }
proof fn field0(n: Seq<char>, t: Seq<char>)
    requires !occ(n, Pat::C(';')), t.len() == 0 || t[0] == ';'
    ensures fields(n + t, ';').len() >= 1, fields(n + t, ';')[0] == n
    decreases n.len() + t.len()
{
    broadcast use sl::fields_some;
    if t.len() == 0 {
        assert(n + t =~= n);
        field_all(n);
    } else if t.len() == 1 {
        assert((n + t).drop_last() =~= n); field_all(n);
    } else {
        assert((n + t).drop_last() =~= n + t.drop_last());
        assert(t.drop_last()[0] == ';');
        field0(n, t.drop_last());
        let f = fields(n + t.drop_last(), ';');
        assert(f.len() >= 2) by { field_two(n, t.drop_last()); }
    }
}
proof fn field_all(n: Seq<char>)
    requires !occ(n, Pat::C(';')) ensures fields(n, ';') =~= seq![n] decreases n.len()
{ if n.len() > 0 { assert(!occ(n.drop_last(), Pat::C(';'))) by { if occ(n.drop_last(), Pat::C(';')) { let i = choose|i: int| #[trigger] at(n.drop_last(), Pat::C(';'), i); assert(at(n, Pat::C(';'), i)); } } field_all(n.drop_last()); assert(!at(n, Pat::C(';'), n.len() - 1)); assert(n.drop_last().push(n.last()) =~= n); assert(fields(n, ';') =~= seq![n]); } else { assert(n =~= Seq::empty()); } }
proof fn field_two(n: Seq<char>, t: Seq<char>)
    requires t.len() > 0, t[0] == ';' ensures fields(n + t, ';').len() >= 2 decreases t.len()
{ broadcast use sl::fields_some; if t.len() > 1 { assert((n + t).drop_last() =~= n + t.drop_last()); field_two(n, t.drop_last()); } else { assert((n + t).drop_last() =~= n); assert((n + t).last() == t[0]); sl::fields_some(n, ';'); } }
/// the address-of-record a URI names
pub open spec fn aor_of(u: PUri) -> Option<Seq<char>> { match u { PUri::Sip(x) => Some(sip_aor(x)), PUri::Tel(x) => Some(tel_aor(x)), PUri::Absolute(_) => None } }
//@fn normalize_aor
@props P04,P05
    ensures match r { Ok(t) => aor_of(*uri) == Some(t@), Err(_) => aor_of(*uri).is_none() },
//@end
/// the address-of-record a request names in its To header
pub open spec fn to_aor(h: Headers) -> Option<Seq<char>> {
    match hdr(h, "To"@) { Some(t) => match to_of(t) { Some(x) => aor_of(x.inn().uriv()), None => None }, None => None }
}

// ---- reading a Contact --------------------------------------------------------------------------------
/// inside a quoted string, and right after a backslash there
pub struct Qt { pub q: bool, pub esc: bool }
pub open spec fn qt(s: Seq<char>) -> Qt decreases s.len() {
    if s.len() == 0 { Qt { q: false, esc: false } } else { let p = qt(s.drop_last());
        if p.esc { Qt { q: p.q, esc: false } } else if s.last() == '\\' && p.q { Qt { q: p.q, esc: true } } else if s.last() == '"' { Qt { q: !p.q, esc: false } } else { p } }
}
/// c at position i, outside quotes
pub open spec fn uat(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && c != '"' && !qt(s.take(i)).q && !qt(s.take(i)).esc }
pub open spec fn uocc(s: Seq<char>, c: char) -> bool { exists|i: int| uat(s, c, i) }
pub open spec fn ufirst(s: Seq<char>, c: char, i: int) -> bool { uat(s, c, i) && forall|j: int| 0 <= j < i ==> !#[trigger] uat(s, c, j) }
pub open spec fn uidx(s: Seq<char>, c: char) -> int { choose|i: int| ufirst(s, c, i) }
pub broadcast proof fn ufirst_is(s: Seq<char>, c: char, i: int)
    requires #[trigger] ufirst(s, c, i) ensures uocc(s, c), uidx(s, c) == i
{ let k = uidx(s, c); assert(ufirst(s, c, k)); if k < i { assert(!uat(s, c, k)); } else if i < k { assert(!uat(s, c, i)); } }
proof fn qt_esc(s: Seq<char>) ensures qt(s).esc ==> qt(s).q decreases s.len() { if s.len() > 0 { qt_esc(s.drop_last()); } }
//@fn find_unquoted
@props P05
@rewrite for ( pos , ch ) in input . char_indices ( ) { $*b } ==> let cs__ = input.x_char_indices(); let mut i__: usize = 0; while i__ < cs__.len() { let pos = cs__[i__].0; let ch = cs__[i__].1; i__ += 1; $b }
    ensures match r { Some(b) => b < 0x7fff_ffff_ffff_ffff && bnd(input@, b as int) && ufirst(input@, wanted, cidx(input@, b as int)), None => !uocc(input@, wanted) },
@loop 1
    invariant 0 <= i__ <= cs__@.len(), cs__@.len() == input@.len(), cs__@.len() <= 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < cs__@.len() ==> (#[trigger] cs__@[i]).1 == input@[i] && cs__@[i].0 as int == boff(input@, i) && cs__@[i].0 < 0x7fff_ffff_ffff_ffff,
        in_quotes == qt(input@.take(i__ as int)).q, escape_next == qt(input@.take(i__ as int)).esc,
        forall|j: int| 0 <= j < i__ ==> !uat(input@, wanted, j),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(input@.take(i__ + 1).drop_last() =~= input@.take(i__ as int)); at_char(input@, i__ as int); }
//@end
/// the pieces between the unquoted separators
pub open spec fn usplit(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if uocc(s, c) && 0 <= uidx(s, c) < s.len() { seq![s.take(uidx(s, c))] + usplit(s.skip(uidx(s, c) + 1), c) } else { seq![s] }
}
//@fn split_unquoted
@props P05
@rewrite & rest [ .. pos ] ==> rest.x_to(pos)
@rewrite & rest [ pos + sep . len_utf8 ( ) .. ] ==> rest.x_from(pos + sep.len_utf8())
@rewrite let mut parts = Vec :: new ( ) ==> let mut parts: Vec<&str> = Vec::new()
    ensures views(r@) =~= usplit(input@, sep),
@loop 1
    invariant views(parts@) + usplit(rest@, sep) =~= usplit(input@, sep),
    ensures views(parts@) + seq![rest@] =~= usplit(input@, sep),
    decreases rest@.len(),
@loopbody 1
    broadcast use rg::ufirst_is;
    proof { at_next(rest@, cidx(rest@, pos as int)); }
//@end

/// what follows the address of a Contact, and the address itself
pub open spec fn curi(s: Seq<char>) -> Option<Seq<char>> {
    let t = trim_s(s);
    if uocc(t, '<') {
        let rest = t.skip(uidx(t, '<') + 1);
        if occ(rest, Pat::C('>')) { nonempty(trim_s(rest.take(fidx(rest, Pat::C('>'))))) } else { None }
    } else if occ(t, Pat::C(';')) { nonempty(trim_s(t.take(fidx(t, Pat::C(';'))))) } else { nonempty(t) }
}
pub open spec fn nonempty(s: Seq<char>) -> Option<Seq<char>> { if s.len() > 0 { Some(s) } else { None } }
pub enum PV { Absent, Bad, Val(Seq<char>) }
/// the first parameter of that name among the pieces
pub open spec fn scan(p: Seq<Seq<char>>, name: Seq<char>) -> PV decreases p.len() {
    if p.len() == 0 { PV::Absent } else {
        let t = trim_s(p[0]);
        if t.len() == 0 { scan(p.drop_first(), name) }
        else if occ(t, Pat::C('=')) {
            let k = fidx(t, Pat::C('='));
            if eq_ci(trim_s(t.take(k)), name) { if trim_s(t.skip(k + 1)).len() == 0 { PV::Bad } else { PV::Val(trim_s(t.skip(k + 1))) } } else { scan(p.drop_first(), name) }
        }
        else if eq_ci(t, name) { PV::Bad } else { scan(p.drop_first(), name) }
    }
}
/// the parameter section of a Contact, if it has one
pub open spec fn csect(t: Seq<char>) -> Result<Option<Seq<char>>, ()> {
    if t == "*"@ { Ok(None) }
    else if uocc(t, '<') { let rest = t.skip(uidx(t, '<') + 1); if occ(rest, Pat::C('>')) { Ok(Some(trim_s(rest.skip(fidx(rest, Pat::C('>')) + 1)))) } else { Err(()) } }
    else if occ(t, Pat::C(';')) { Ok(Some(t.skip(fidx(t, Pat::C(';'))))) } else { Ok(None) }
}
pub open spec fn nosemi(s: Seq<char>) -> Seq<char> { if at(s, Pat::C(';'), 0) { s.skip(1) } else { s } }
pub open spec fn cparam(s: Seq<char>, name: Seq<char>) -> PV {
    match csect(trim_s(s)) {
        Ok(Some(x)) => if nosemi(trim_s(x)).len() == 0 { PV::Absent } else { scan(usplit(nosemi(trim_s(x)), ';'), name) },
        Ok(None) => PV::Absent,
        Err(_) => PV::Bad,
    }
}
pub open spec fn pv(r: Result<Option<&str>, ContactParamError>) -> PV { match r { Ok(Some(t)) => PV::Val(t@), Ok(None) => PV::Absent, Err(_) => PV::Bad } }
//@rewrite std :: collections :: HashMap :: new ( ) ==> DMap::new()
//@rewrite Option < Arc < dyn Fn ( & Request ) -> Option < SmolStr > + Send + Sync >> ==> Option<KeyFn>
//@rewrite Option < Arc < dyn Fn ( & Request ) -> Option < SmolStr > + Send + Sync > > ==> Option<KeyFn>
//@struct BasicRegistrar
/// the configured lifetimes, in seconds
pub struct Cfg { pub d: int, pub lo: int, pub hi: int }
pub open spec fn secs(d: Duration) -> int { d@ / 1_000_000_000 }
pub enum EX { Secs(int), Brief, Long, Bad }
/// the lifetime granted to a contact
pub open spec fn granted(c: Cfg, h: Headers, ct: Seq<char>) -> EX {
    let p = cparam(ct, "expires"@); let x = hget(h, "Expires"@);
    if p == PV::Bad || (p matches PV::Val(t) && unum(t, 0xffff_ffff_ffff_ffff).is_none()) || (x matches Some(t) && unum(t, 0xffff_ffff_ffff_ffff).is_none()) { EX::Bad } else {
        let n = match p { PV::Val(t) => unum(t, 0xffff_ffff_ffff_ffff).unwrap() as int, _ => match x { Some(t) => unum(t, 0xffff_ffff_ffff_ffff).unwrap() as int, None => c.d } };
        if n == 0 { EX::Secs(0) } else if n < c.lo { EX::Brief } else if n > c.hi { EX::Long } else { EX::Secs(n) }
    }
}
/// a granted lifetime is 0 (removal) or within the configured limits
pub proof fn thm_granted(c: Cfg, h: Headers, ct: Seq<char>) ensures granted(c, h, ct) matches EX::Secs(n) ==> n == 0 || c.lo <= n <= c.hi { }
/// the preference of a contact
pub open spec fn qval(ct: Seq<char>) -> Option<f32> {
    match cparam(ct, "q"@) { PV::Absent => Some(onef()), PV::Bad => None, PV::Val(t) => match f32_of(t) { Some(v) => if in_unit(v) { Some(v) } else { None }, None => None } }
}
pub open spec fn instance(ct: Seq<char>) -> PV { cparam(ct, "+sip.instance"@) }
pub open spec fn regid(ct: Seq<char>) -> PV { cparam(ct, "reg-id"@) }
/// the sequence number of the request, if its CSeq names REGISTER
pub open spec fn cseq_of(h: Headers) -> Option<nat> {
    match hdr(h, "CSeq"@) {
        Some(t) => { let f = ws_fields(t); if f.len() >= 2 && eq_ci(f[1], "REGISTER"@) { unum(f[0], 0xffff_ffff) } else { None } },
        None => None }
}
impl<S, A> BasicRegistrar<S, A> {
pub open spec fn cfg(&self) -> Cfg { Cfg { d: secs(self.default_expires), lo: secs(self.min_expires), hi: secs(self.max_expires) } }
//@fn BasicRegistrar::new
@props P04,P05
    ensures r.store == store, r.authenticator == authenticator, r.cfg() == (Cfg { d: 3600, lo: 60, hi: 86400 }),
//@end
//@fn BasicRegistrar::with_default_expires
@props P05
    ensures r == (BasicRegistrar { default_expires: expires, ..self }),
//@end
//@fn BasicRegistrar::with_min_expires
@props P05
    ensures r == (BasicRegistrar { min_expires: expires, ..self }),
//@end
//@fn BasicRegistrar::with_max_expires
@props P05
    ensures r == (BasicRegistrar { max_expires: expires, ..self }),
//@end
//@fn BasicRegistrar::with_rate_limiter
@props P04
    ensures r == (BasicRegistrar { rate_limiter: Some(limiter), ..self }),
//@end
//@fn BasicRegistrar::extract_contact_uri
@props P05
@rewrite trimmed [ start + 1 .. start + 1 + end ] . trim ( ) ==> trimmed.x_sub(start + 1, start + 1 + end).trim()
@rewrite trimmed [ start + 1 .. ] ==> trimmed.x_from(start + 1)
@rewrite trimmed [ .. pos ] ==> trimmed.x_to(pos)
    ensures match r { Ok(t) => curi(contact_header@) == Some(t@), Err(_) => curi(contact_header@).is_none() },
@entry
    broadcast use {rg::ufirst_is, sl::step_ascii, sl::sub_off};
//@end
//@fn BasicRegistrar::contact_param_value
@props P05
@rewrite & trimmed [ start + 1 + end + 1 .. ] ==> ({ let ghost t1__ = trimmed@.skip(cidx(trimmed@, start + 1)); let a__ = trimmed.x_from(start + 1 + end + 1); proof { assert(a__@ =~= t1__.skip(cidx(t1__, end as int) + 1)); } a__ })
@rewrite trimmed [ start + 1 .. ] ==> trimmed.x_from(start + 1)
@rewrite & trimmed [ pos .. ] ==> trimmed.x_from(pos)
@rewrite for param in split_unquoted ( params , ';' ) { $*b } ==> let ps__ = split_unquoted(params, ';'); proof { assert(views(ps__@).skip(0) =~= views(ps__@)); } let mut i__: usize = 0; while i__ < ps__.len() { let param = ps__[i__]; i__ += 1; $b }
    ensures pv(r) == cparam(contact_value@, name@),
@entry
    broadcast use {rg::ufirst_is, sl::step_ascii, sl::sub_off};
@loop 1
    invariant 0 <= i__ <= ps__@.len(), cparam(contact_value@, name@) == scan(views(ps__@).skip(i__ as int), name@),
    decreases ps__@.len() - i__,
@loopbody 1
    proof { let w = views(ps__@).skip(i__ as int); assert(w.drop_first() =~= views(ps__@).skip(i__ + 1)); assert(w[0] == ps__@[i__ as int]@); }
//@end
//@fn BasicRegistrar::parse_instance_id
@props P05
    ensures match r { Ok(Some(t)) => instance(contact_value@) == PV::Val(t@), Ok(None) => instance(contact_value@) == PV::Absent, Err(_) => instance(contact_value@) == PV::Bad },
//@end
//@fn BasicRegistrar::parse_reg_id
@props P05
@rewrite . map ( Some ) ==> .x_some()
    ensures match r { Ok(Some(n)) => regid(contact_value@) matches PV::Val(t) && unum(t, 0xffff_ffff) == Some(n as nat), Ok(None) => regid(contact_value@) == PV::Absent,
        Err(_) => regid(contact_value@) == PV::Bad || (regid(contact_value@) matches PV::Val(t) && unum(t, 0xffff_ffff).is_none()) },
//@end
//@fn BasicRegistrar::extract_path
@props P05
@rewrite sip_core :: service_route :: RouteError ==> RouteError
@rewrite sip_parse :: parse_path ( request . headers ( ) ) . map ( Some ) ==> parse_path(request.headers()).x_some()
    ensures match r { Ok(p) => p == (if hget(request.headers, "Path"@).is_some() { path_of(request.headers) } else { None }), Err(_) => hget(request.headers, "Path"@).is_some() && path_of(request.headers).is_none() },
//@end
//@fn BasicRegistrar::parse_expires
@props P05
    ensures match r { Ok(d) => granted(self.cfg(), request.headers, contact_value@) == EX::Secs(secs(d)) && d@ == secs(d) * 1_000_000_000,
        Err(ExpiresError::TooBrief(_)) => granted(self.cfg(), request.headers, contact_value@) == EX::Brief,
        Err(ExpiresError::TooLong(_)) => granted(self.cfg(), request.headers, contact_value@) == EX::Long,
        Err(ExpiresError::Invalid) => granted(self.cfg(), request.headers, contact_value@) == EX::Bad },
//@end
//@fn BasicRegistrar::parse_q_value
@props P05
    ensures match r { Ok(v) => qval(contact_value@) == Some(v), Err(_) => qval(contact_value@).is_none() },
//@end
//@fn BasicRegistrar::build_error_response
@props P04
@rewrite headers . push ( SmolStr :: new ( $n ) , ensure_to_tag ( to ) ) ==> headers.push($n, ensure_to_tag(to).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( $m ) ) ==> headers.push($n, $m)
@rewrite headers . push ( SmolStr :: new ( $n ) , $*v ) ==> headers.push($n, $v)
    ensures r matches Ok(m) ==> res_ok(m) && m.start.code == code,
//@end
//@fn BasicRegistrar::build_interval_too_brief
@props P04
@rewrite . push ( SmolStr :: new ( $n ) , SmolStr :: new ( min_expires . to_string ( ) ) , ) ==> .push($n, min_expires.x_text().as_str())
    ensures r matches Ok(m) ==> m.start.code == 423,
//@end
//@fn BasicRegistrar::validate_required_headers
@props P04
@rewrite let required = [ $*l ] ; ==> let required: Vec<(&str, &str)> = vec![$l];
@rewrite for ( name , reason ) in required { $*b } ==> let mut i__: usize = 0; while i__ < required.len() { let (name, reason) = required[i__]; i__ += 1; $b }
    ensures r matches Err(m) ==> m.start.code == 400,
        r.is_ok() ==> hget(request.headers, "Via"@).is_some() && hget(request.headers, "From"@).is_some() && hget(request.headers, "Call-ID"@).is_some() && hget(request.headers, "CSeq"@).is_some(),
@loop 1
    invariant 0 <= i__ <= required@.len(), required@.len() >= 4, required@[0].0@ == "Via"@, required@[1].0@ == "From"@, required@[2].0@ == "Call-ID"@, required@[3].0@ == "CSeq"@,
        forall|j: int| 0 <= j < i__ ==> hget(request.headers, (#[trigger] required@[j]).0@).is_some(),
    decreases required@.len() - i__,
//@end
//@fn BasicRegistrar::parse_cseq_number
@props P04,P05
@rewrite . split_whitespace ( ) ==> .as_str().x_ws_it()
@rewrite parts . next ( ) . and_then ( | n | $*e ) { ==> (match parts.next() { Some(n) => $e, None => None }) {
    ensures match r { Ok(n) => cseq_of(request.headers) == Some(n as nat), Err(m) => m.start.code == 400 && cseq_of(request.headers).is_none() },
@entry
    proof { reveal_strlit(""); reveal_strlit("REGISTER"); assert(lower(""@).len() != lower("REGISTER"@).len()); }
//@end
}
/// Contact header text of a binding
pub open spec fn contact_text(u: Seq<char>, d: Duration, q: f32) -> Seq<char> {
    let v = if occ(u, Pat::C(',')) || occ(u, Pat::C(';')) || occ(u, Pat::C('?')) { e() + "<"@ + u + ">"@ } else { u };
    if secs(d) == 0 { e() + v + ";expires=0"@ } else { e() + v + ";expires="@ + dtext(secs(d) as nat) + ";q="@ + f32_text(q) }
}
//@fn format_contact
@props P05
@rewrite contact_uri . contains ( [ $a , $b , $c ] ) ==> contact_uri.as_str().x_has3($a, $b, $c)
@rewrite SmolStr :: new ( { $*x } ) ==> SmolStr::from_string({ $x })
@fmt
    ensures r@ == contact_text(contact_uri@, expires, q_value),
//@end
//@fn ensure_to_tag
@rewrite SmolStr :: new ( { $*a } ) ==> SmolStr::from_string({ $a })
@fmt
    ensures occ(to_header@, Pat::S(";tag="@)) ==> r@ == to_header@,
        !occ(to_header@, Pat::S(";tag="@)) ==> exists|t: Seq<char>| #![auto] t.len() == 8 && alnum(t) && r@ == e() + to_header@ + ";tag="@ + t,
//@end

// ---- the Contact headers of a request -----------------------------------------------------------------
/// cutting at the commas that are outside quotes; a part that is only blanks is dropped
pub struct QS { pub parts: Seq<Seq<char>>, pub cur: Seq<char>, pub q: bool, pub esc: bool }
pub open spec fn qflush(p: Seq<Seq<char>>, cur: Seq<char>) -> Seq<Seq<char>> { if trim_s(cur).len() > 0 { p.push(trim_s(cur)) } else { p } }
pub open spec fn qstep(s: QS, c: char) -> QS {
    if s.esc { QS { cur: s.cur.push(c), esc: false, ..s } }
    else if c == '\\' && s.q { QS { cur: s.cur.push(c), esc: true, ..s } }
    else if c == '"' { QS { cur: s.cur.push(c), q: !s.q, ..s } }
    else if c == ',' && !s.q { QS { parts: qflush(s.parts, s.cur), cur: Seq::empty(), ..s } }
    else { QS { cur: s.cur.push(c), ..s } }
}
pub open spec fn qrun(s: Seq<char>) -> QS decreases s.len() {
    if s.len() == 0 { QS { parts: Seq::empty(), cur: Seq::empty(), q: false, esc: false } } else { qstep(qrun(s.drop_last()), s.last()) }
}
pub open spec fn qparts(s: Seq<char>) -> Seq<Seq<char>> { qflush(qrun(s).parts, qrun(s).cur) }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn smv(v: Seq<SmolStr>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
//@fn split_quoted_commas
@props P05
@rewrite let mut parts = Vec :: new ( ) ==> let mut parts: Vec<String> = Vec::new()
@rewrite current . trim ( ) . to_owned ( ) ==> current.as_str().trim().x_string()
@rewrite current . trim ( ) . is_empty ( ) ==> current.as_str().trim().is_empty()
@rewrite for ch in input . chars ( ) { $*b } ==> let cs__ = input.x_chars(); let mut i__: usize = 0; while i__ < cs__.len() { let ch = cs__[i__]; i__ += 1; $b }
    ensures sviews(r@) =~= qparts(input@),
@loop 1
    invariant 0 <= i__ <= cs__@.len(), cs__@ == input@,
        ({ let s = qrun(input@.take(i__ as int)); sviews(parts@) =~= s.parts && current@ == s.cur && in_quotes == s.q && escape_next == s.esc }),
    decreases cs__@.len() - i__,
@loopbody 1
    proof { assert(input@.take(i__ + 1).drop_last() =~= input@.take(i__ as int)); }
@afterloop 1
    proof { assert(input@.take(input@.len() as int) =~= input@); }
//@end
pub open spec fn clist(a: Seq<Seq<char>>, p: Seq<Seq<char>>) -> Seq<Seq<char>> decreases p.len() { if p.len() == 0 { a } else { qflush(clist(a, p.drop_last()), p.last()) } }
pub open spec fn call(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { clist(call(v.drop_last()), qparts(v.last())) } }
/// every contact of the request, in order
pub open spec fn contacts_of(h: Headers) -> Seq<Seq<char>> { call(hall(h, "Contact"@)) }
//@fn contact_headers
@props P05
@rewrite let mut contacts = Vec :: new ( ) ==> let mut contacts: Vec<SmolStr> = Vec::new()
@rewrite for value in headers . get_all_smol ( $n ) { $*b } ==> let vs__ = headers.get_all_smol($n); let mut i__: usize = 0; while i__ < vs__.len() { let value = vs__[i__]; i__ += 1; $b }
@rewrite for part in split_quoted_commas ( $*e ) { $*b } ==> let ps__ = split_quoted_commas($e); let mut j__: usize = 0; while j__ < ps__.len() { let part = &ps__[j__]; j__ += 1; $b }
@rewrite part . trim ( ) ==> part.as_str().trim()
    ensures smv(r@) =~= contacts_of(*headers),
@loop 1
    invariant 0 <= i__ <= vs__@.len(), smols(vs__@) =~= hall(*headers, "Contact"@), smv(contacts@) =~= call(smols(vs__@).take(i__ as int)),
    decreases vs__@.len() - i__,
@loopbody 1
    proof { assert(smols(vs__@).take(i__ + 1).drop_last() =~= smols(vs__@).take(i__ as int)); assert(smols(vs__@).take(i__ + 1).last() == vs__@[i__ as int]@); }
@afterloop 1
    proof { assert(smols(vs__@).take(vs__@.len() as int) =~= smols(vs__@)); }
@loop 2
    invariant 0 <= j__ <= ps__@.len(), 0 < i__ <= vs__@.len(), smols(vs__@) =~= hall(*headers, "Contact"@), sviews(ps__@) =~= qparts(vs__@[i__ - 1]@),
        smv(contacts@) =~= clist(call(smols(vs__@).take(i__ - 1)), sviews(ps__@).take(j__ as int)),
    decreases ps__@.len() - j__,
@loopbody 2
    proof { assert(sviews(ps__@).take(j__ + 1).drop_last() =~= sviews(ps__@).take(j__ as int)); assert(sviews(ps__@).take(j__ + 1).last() == ps__@[j__ as int]@); }
@afterloop 2
    proof { assert(sviews(ps__@).take(ps__@.len() as int) =~= sviews(ps__@)); }
//@end

// ---- the store and the authenticator, as the registrar uses them -----------------------------------------
/// what was asked of the store, in order; Failed: a change that the store refused
pub enum Op { Put(Binding), Drop(Seq<char>, Seq<char>), DropAll(Seq<char>), Failed }
pub open spec fn one_each(v: Seq<Binding>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).contact@ != (#[trigger] v[j]).contact@ }
/// (contracts of MemoryLocationStore: unit locstore)
pub trait LocationStore: Sized {
    spec fn log(&self) -> Seq<Op>;
    spec fn held(&self, a: Seq<char>) -> Seq<Binding>;
    fn upsert(&mut self, binding: Binding) -> (r: Result<(), AErr>) ensures final(self).log() == old(self).log().push(if r.is_ok() { Op::Put(binding) } else { Op::Failed });
    fn remove(&mut self, aor: &str, contact: &str) -> (r: Result<(), AErr>) ensures final(self).log() == old(self).log().push(if r.is_ok() { Op::Drop(aor@, contact@) } else { Op::Failed });
    fn remove_all(&mut self, aor: &str) -> (r: Result<(), AErr>) ensures final(self).log() == old(self).log().push(if r.is_ok() { Op::DropAll(aor@) } else { Op::Failed });
    fn lookup(&mut self, aor: &str) -> (r: Result<Vec<Binding>, AErr>)
        ensures final(self).log() == old(self).log(), forall|a: Seq<char>| (#[trigger] final(self).held(a)) == old(self).held(a), r matches Ok(v) ==> v@ == old(self).held(aor@) && one_each(v@) && (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).aor@ == aor@);
}
/// (contracts of DigestAuthenticator: unit auth)
pub trait Authenticator: Sized {
    spec fn accepts(&self, rq: Request) -> bool;
    spec fn who(&self, rq: Request) -> Option<Seq<char>>;
    fn verify(&self, request: &Request, headers: &Headers) -> (r: Result<bool, AErr>) ensures *headers == request.headers ==> (r matches Ok(b) ==> b == self.accepts(*request));
    fn nonce_is_stale(&self, request: &Request) -> (r: bool);
    fn challenge(&self, request: &Request) -> (r: Result<Response, AErr>) ensures r matches Ok(m) ==> m.start.code == 401 || m.start.code == 407;
    fn challenge_stale(&self, request: &Request) -> (r: Result<Response, AErr>) ensures r matches Ok(m) ==> m.start.code == 401 || m.start.code == 407;
    fn authenticated_username(&self, request: &Request) -> (r: Option<SmolStr>) ensures match r { Some(t) => self.who(*request) == Some(t@), None => self.who(*request).is_none() };
}
/// the request may change this address: its credentials verified and name the owner
pub open spec fn may<A: Authenticator>(a: Option<A>, rq: Request, aor: Seq<char>) -> bool {
    match a { None => true, Some(x) => x.accepts(rq) && match x.who(rq) { Some(u) => match aor_id(aor) { Some(i) => same_user(i, u), None => false }, None => false } }
}
pub open spec fn cid_of(h: Headers) -> Seq<char> { match hdr(h, "Call-ID"@) { Some(t) => t, None => e() } }
pub open spec fn on(op: Op, a: Seq<char>) -> bool { match op { Op::Put(b) => b.aor@ == a, Op::Drop(x, _) => x == a, Op::DropAll(x) => x == a, Op::Failed => true } }
/// no binding of this contact was made by the same call with this or a later sequence number
pub open spec fn newer(h: Headers, held: Seq<Binding>, u: Seq<char>) -> bool {
    forall|i: int| 0 <= i < held.len() && (#[trigger] held[i]).contact@ == u && held[i].call_id@ == cid_of(h) ==> cseq_of(h).unwrap() > held[i].cseq
}
pub open spec fn newest(h: Headers, held: Seq<Binding>) -> bool {
    forall|i: int| 0 <= i < held.len() && (#[trigger] held[i]).call_id@ == cid_of(h) ==> cseq_of(h).unwrap() > held[i].cseq
}
/// the binding a contact asks for
pub open spec fn asked(b: Binding, h: Headers, a: Seq<char>, u: Seq<char>, n: int, ct: Seq<char>) -> bool {
    b.aor@ == a && b.contact@ == u && b.expires@ == n * 1_000_000_000 && b.call_id@ == cid_of(h) && Some(b.cseq as nat) == cseq_of(h) && qval(ct).is_some() && b.q_value == clampf(qval(ct).unwrap())
        && tpo(b.user_agent) == hdr(h, "User-Agent"@) && b.path == (if hget(h, "Path"@).is_some() { path_of(h) } else { None }) && b.flow_token.is_none()
        && (match instance(ct) { PV::Val(t) => b.instance_id.is_some() && b.instance_id.unwrap()@ == t, _ => b.instance_id.is_none() })
        && (match regid(ct) { PV::Val(t) => b.reg_id.is_some() && unum(t, 0xffff_ffff) == Some(b.reg_id.unwrap() as nat), _ => b.reg_id.is_none() })
}
/// what one contact of an accepted request does
pub open spec fn acts(op: Op, c: Cfg, h: Headers, a: Seq<char>, ct: Seq<char>, held: Seq<Binding>) -> bool {
    cseq_of(h).is_some() && match (curi(ct), granted(c, h, ct)) {
        (Some(u), EX::Secs(n)) => (uri_of(u) matches Some(PUri::Sip(_))) && newer(h, held, u) && (if n == 0 { op == Op::Drop(a, u) } else { match op { Op::Put(b) => asked(b, h, a, u, n, ct), _ => false } }),
        _ => false,
    }
}
pub open spec fn star(h: Headers) -> bool { contacts_of(h).len() == 1 && trim_s(contacts_of(h)[0]) == "*"@ }
/// what an accepted request does: everything it asks, in order, and nothing else
pub open spec fn done(n: Seq<Op>, c: Cfg, h: Headers, a: Seq<char>, held: Seq<Binding>) -> bool {
    if star(h) { n.len() == 1 && n[0] == Op::DropAll(a) && cseq_of(h).is_some() && newest(h, held) && (hdr(h, "Expires"@) matches Some(t) && unum(t, 0xffff_ffff_ffff_ffff) == Some(0nat)) }
    else { contacts_of(h).len() > 0 && n.len() == contacts_of(h).len() && forall|i: int| 0 <= i < n.len() ==> acts(#[trigger] n[i], c, h, a, contacts_of(h)[i], held) }
}
/// after a change the store refused, the earlier bindings are put back (unless it refuses that too)
pub open spec fn restored(n: Seq<Op>, k: int, a: Seq<char>, held: Seq<Binding>) -> bool {
    n.len() == k + 2 + held.len() && n[k + 1] == Op::DropAll(a) && forall|j: int| 0 <= j < held.len() ==> #[trigger] n[k + 2 + j] == Op::Put(held[j])
}
pub open spec fn failed_at(n: Seq<Op>, k: int) -> bool { 0 <= k < n.len() && n[k] is Failed }
pub open spec fn undone(n: Seq<Op>, a: Seq<char>, held: Seq<Binding>, alone: bool) -> bool {
    forall|k: int| #[trigger] failed_at(n, k) && (forall|j: int| 0 <= j < k ==> !failed_at(n, j)) ==> alone && n.len() == 1 || (exists|j: int| j > k && failed_at(n, j)) || restored(n, k, a, held)
}
/// what was asked of the store since
pub open spec fn since(l0: Seq<Op>, l1: Seq<Op>) -> Seq<Op> { l1.skip(l0.len() as int) }
pub open spec fn longer(l0: Seq<Op>, l1: Seq<Op>) -> bool { l1.len() >= l0.len() && l1.take(l0.len() as int) =~= l0 }
pub open spec fn upd(a: Seq<char>, u: (SmolStr, Option<Binding>)) -> Op { match u.1 { Some(b) => Op::Put(b), None => Op::Drop(a, u.0@) } }
pub open spec fn upds(a: Seq<char>, v: Seq<(SmolStr, Option<Binding>)>) -> Seq<Op> { Seq::new(v.len(), |i: int| upd(a, v[i])) }
pub open spec fn puts(v: Seq<Binding>) -> Seq<Op> { Seq::new(v.len(), |i: int| Op::Put(v[i])) }
pub open spec fn undo(p: Seq<Op>, a: Seq<char>, v: Seq<Binding>) -> Seq<Op> { p.push(Op::Failed).push(Op::DropAll(a)) + puts(v) }
/// the request was refused or failed: the store is as it was, or what it was has been put back
#[verifier::opaque]
pub open spec fn err_ok(l0: Seq<Op>, l1: Seq<Op>, a: Seq<char>, held: Seq<Binding>, alone: bool) -> bool {
    longer(l0, l1) && (forall|i: int| 0 <= i < since(l0, l1).len() ==> on(#[trigger] since(l0, l1)[i], a)) && undone(since(l0, l1), a, held, alone)
}
/// how a REGISTER ends
#[verifier::opaque]
pub open spec fn ends<S: LocationStore, A: Authenticator>(s0: BasicRegistrar<S, A>, s1: BasicRegistrar<S, A>, rq: Request, r: Result<Response, AErr>) -> bool {
    let h = rq.headers; let l0 = s0.store.log(); let l1 = s1.store.log(); let n = since(l0, l1);
    &&& longer(l0, l1)
    &&& n.len() > 0 ==> to_aor(h).is_some() && may(s0.authenticator, rq, to_aor(h).unwrap())
    &&& forall|i: int| 0 <= i < n.len() ==> on(#[trigger] n[i], to_aor(h).unwrap())
    &&& match r {
        Ok(m) => if m.start.code == 200 {
                to_aor(h).is_some() && may(s0.authenticator, rq, to_aor(h).unwrap()) && done(n, s0.cfg(), h, to_aor(h).unwrap(), s0.store.held(to_aor(h).unwrap()))
                && (!star(h) ==> hall(m.headers, "Contact"@) =~= listed(s1.store.held(to_aor(h).unwrap())))
            } else { n.len() == 0 },
        Err(_) => n.len() == 0 || undone(n, to_aor(h).unwrap(), s0.store.held(to_aor(h).unwrap()), star(h)),
    }
}
pub broadcast proof fn ends_quiet<S: LocationStore, A: Authenticator>(s0: BasicRegistrar<S, A>, s1: BasicRegistrar<S, A>, rq: Request, r: Result<Response, AErr>)
    requires s1.store.log() == s0.store.log(), r matches Ok(m) ==> m.start.code != 200,
    ensures #[trigger] ends(s0, s1, rq, r)
{ reveal(ends); }
pub broadcast proof fn ends_err<S: LocationStore, A: Authenticator>(s0: BasicRegistrar<S, A>, s1: BasicRegistrar<S, A>, rq: Request, r: Result<Response, AErr>)
    requires r.is_err(), to_aor(rq.headers).is_some(), may(s0.authenticator, rq, to_aor(rq.headers).unwrap()),
        err_ok(s0.store.log(), s1.store.log(), to_aor(rq.headers).unwrap(), s0.store.held(to_aor(rq.headers).unwrap()), star(rq.headers)),
    ensures #[trigger] ends(s0, s1, rq, r)
{ reveal(ends); reveal(err_ok); }
pub broadcast proof fn ends_ok<S: LocationStore, A: Authenticator>(s0: BasicRegistrar<S, A>, s1: BasicRegistrar<S, A>, rq: Request, r: Result<Response, AErr>)
    requires r matches Ok(m) && m.start.code == 200 && (!star(rq.headers) ==> hall(m.headers, "Contact"@) == listed(s1.store.held(to_aor(rq.headers).unwrap()))),
        to_aor(rq.headers).is_some(), may(s0.authenticator, rq, to_aor(rq.headers).unwrap()),
        err_ok(s0.store.log(), s1.store.log(), to_aor(rq.headers).unwrap(), s0.store.held(to_aor(rq.headers).unwrap()), star(rq.headers)),
        done(since(s0.store.log(), s1.store.log()), s0.cfg(), rq.headers, to_aor(rq.headers).unwrap(), s0.store.held(to_aor(rq.headers).unwrap())),
    ensures #[trigger] ends(s0, s1, rq, r)
{ reveal(ends); reveal(err_ok); }
proof fn star_steps(l0: Seq<Op>, a: Seq<char>, held: Seq<Binding>, h: Headers, c: Cfg)
    ensures err_ok(l0, l0.push(Op::Failed), a, held, true), err_ok(l0, l0.push(Op::DropAll(a)), a, held, true),
        star(h) && cseq_of(h).is_some() && newest(h, held) && (hdr(h, "Expires"@) matches Some(t) && unum(t, 0xffff_ffff_ffff_ffff) == Some(0nat)) ==> done(since(l0, l0.push(Op::DropAll(a))), c, h, a, held),
{
    reveal(err_ok);
    let f = since(l0, l0.push(Op::Failed)); let d = since(l0, l0.push(Op::DropAll(a)));
    assert(f =~= seq![Op::Failed]); assert(d =~= seq![Op::DropAll(a)]);
}
proof fn upd_steps(l0: Seq<Op>, a: Seq<char>, v: Seq<(SmolStr, Option<Binding>)>, u: int, held: Seq<Binding>, al: bool)
    requires 0 <= u <= v.len(), forall|j: int| 0 <= j < v.len() ==> on(#[trigger] upd(a, v[j]), a),
    ensures err_ok(l0, l0 + upds(a, v.take(u)), a, held, al), err_ok(l0, (l0 + upds(a, v.take(u))).push(Op::Failed).push(Op::Failed), a, held, al),
        (l0 + upds(a, v.take(u))).push(Op::Failed).push(Op::DropAll(a)) == l0 + undo(upds(a, v.take(u)), a, held.take(0)),
        u < v.len() ==> (l0 + upds(a, v.take(u))).push(upd(a, v[u])) == l0 + upds(a, v.take(u + 1)),
{
    reveal(err_ok);
    let p = upds(a, v.take(u)); let l1 = l0 + p;
    assert(since(l0, l1) =~= p);
    assert(forall|i: int| 0 <= i < p.len() ==> p[i] == upd(a, v[i]));
    let n = p.push(Op::Failed).push(Op::Failed);
    assert(since(l0, l1.push(Op::Failed).push(Op::Failed)) =~= n);
    assert(failed_at(n, p.len() as int + 1)); assert(failed_at(n, p.len() as int));
    assert(l1.push(Op::Failed).push(Op::DropAll(a)) =~= l0 + undo(p, a, held.take(0)));
    if u < v.len() { assert(l1.push(upd(a, v[u])) =~= l0 + upds(a, v.take(u + 1))); }
}
proof fn undo_steps(l0: Seq<Op>, a: Seq<char>, v: Seq<(SmolStr, Option<Binding>)>, u: int, k: int, held: Seq<Binding>, al: bool)
    requires 0 <= u <= v.len(), forall|j: int| 0 <= j < v.len() ==> on(#[trigger] upd(a, v[j]), a), 0 <= k <= held.len(), forall|j: int| 0 <= j < held.len() ==> (#[trigger] held[j]).aor@ == a,
    ensures err_ok(l0, (l0 + undo(upds(a, v.take(u)), a, held.take(k))).push(Op::Failed), a, held, al),
        k < held.len() ==> (l0 + undo(upds(a, v.take(u)), a, held.take(k))).push(Op::Put(held[k])) == l0 + undo(upds(a, v.take(u)), a, held.take(k + 1)),
        k == held.len() ==> err_ok(l0, l0 + undo(upds(a, v.take(u)), a, held.take(k)), a, held, al),
{
    reveal(err_ok);
    let p = upds(a, v.take(u)); let q = undo(p, a, held.take(k)); let n = q.push(Op::Failed);
    assert(forall|i: int| 0 <= i < p.len() ==> p[i] == upd(a, v[i]));
    assert(since(l0, l0 + q) =~= q);
    assert(since(l0, (l0 + q).push(Op::Failed)) =~= n);
    assert(failed_at(n, p.len() as int + 2 + k)); assert(failed_at(n, p.len() as int)); assert(failed_at(q, p.len() as int));
    assert forall|i: int| 0 <= i < q.len() implies on(#[trigger] q[i], a) by { if i < p.len() { assert(q[i] == p[i]); } else if i >= p.len() + 2 { assert(q[i] == Op::Put(held[i - p.len() - 2])); } }
    assert(forall|i: int| 0 <= i < q.len() ==> n[i] == q[i]);
    assert forall|m: int| #[trigger] failed_at(n, m) implies m == p.len() || m == n.len() - 1 by { if m < p.len() { assert(n[m] == p[m]); } }
    if k < held.len() { assert((l0 + q).push(Op::Put(held[k])) =~= l0 + undo(p, a, held.take(k + 1))); }
    else {
        assert(restored(q, p.len() as int, a, held));
        assert forall|m: int| #[trigger] failed_at(q, m) implies m == p.len() by { if m < p.len() { assert(q[m] == p[m]); } }
    }
}
proof fn all_done(v: Seq<(SmolStr, Option<Binding>)>, c: Cfg, h: Headers, a: Seq<char>, cs: Seq<SmolStr>, held: Seq<Binding>)
    requires !star(h), smv(cs) == contacts_of(h), cs.len() > 0, v.len() == cs.len(), forall|j: int| 0 <= j < v.len() ==> acts(#[trigger] upd(a, v[j]), c, h, a, cs[j]@, held),
    ensures done(upds(a, v), c, h, a, held)
{
    let n = upds(a, v);
    assert forall|i: int| 0 <= i < n.len() implies acts(#[trigger] n[i], c, h, a, contacts_of(h)[i], held) by { assert(n[i] == upd(a, v[i])); assert(contacts_of(h)[i] == smv(cs)[i]); }
}
#[verifier::external_body] pub fn x_pair(v: &Vec<(SmolStr, Option<Binding>)>, i: usize) -> (r: (SmolStr, Option<Binding>)) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
/// the bindings by contact, after the first n
pub open spec fn indexed(m: Map<Seq<char>, &Binding>, held: Seq<Binding>, n: int) -> bool {
    (forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && *m[k] == #[trigger] held[i] && held[i].contact@ == k)
        && (forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] held[i]).contact@))
}
proof fn index_newer(m: Map<Seq<char>, &Binding>, held: Seq<Binding>, h: Headers, u: Seq<char>)
    requires indexed(m, held, held.len() as int), one_each(held), !m.contains_key(u) || m[u].call_id@ != cid_of(h) || cseq_of(h).unwrap() > m[u].cseq
    ensures newer(h, held, u)
{
    assert forall|i: int| 0 <= i < held.len() && (#[trigger] held[i]).contact@ == u && held[i].call_id@ == cid_of(h) implies cseq_of(h).unwrap() > held[i].cseq by {
        assert(m.contains_key(held[i].contact@));
        let j = choose|j: int| 0 <= j < held.len() && *m[u] == #[trigger] held[j] && held[j].contact@ == u;
        assert(held[i].contact@ == held[j].contact@);
    }
}
/// the headers as sent, after the bindings listed
pub open spec fn listed(v: Seq<Binding>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| contact_text(v[i].contact@, v[i].expires, v[i].q_value)) }
pub broadcast proof fn hall_last(b: Seq<Header>, m: Seq<char>)
    requires b.len() > 0
    ensures #![trigger hall_s(b, m), b.drop_last()] hall_s(b, m) == (if eq_ci(b.last().name@, m) { hall_s(b.drop_last(), m).push(b.last().value@) } else { hall_s(b.drop_last(), m) })
{ }
pub open spec fn no_contact(n: Seq<char>) -> bool { !eq_ci(n, "Contact"@) }
proof fn names_differ() ensures no_contact("Via"@), no_contact("From"@), no_contact("To"@), no_contact("Call-ID"@), no_contact("CSeq"@), no_contact("Date"@), no_contact("Content-Length"@), no_contact("Supported"@), no_contact("Service-Route"@), no_contact("Path"@), eq_ci("Contact"@, "Contact"@)
{
    reveal_strlit("Via"); reveal_strlit("From"); reveal_strlit("To"); reveal_strlit("Call-ID"); reveal_strlit("CSeq"); reveal_strlit("Date"); reveal_strlit("Content-Length"); reveal_strlit("Supported"); reveal_strlit("Service-Route"); reveal_strlit("Path"); reveal_strlit("Contact");
    let c = "Contact"@;
    let ci = "Call-ID"@; if eq_ci(ci, c) { assert(lower(ci)[1] == lower(c)[1]); }
    assert(forall|a: Seq<char>| a.len() != 7 ==> lower(a).len() != lower(c).len());
}
impl<S, A> BasicRegistrar<S, A> {
//@fn BasicRegistrar::append_extensions
@props P05
@rewrite Result < ( ) > ==> Result<(), AErr>
@rewrite for binding in bindings { $*b } ==> let mut i__: usize = 0; while i__ < bindings.len() { let binding = &bindings[i__]; i__ += 1; $b }
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( service_route . to_string ( ) ) , ) ==> headers.push($n, service_route.to_string().as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( & value ) ) ==> headers.push($n, value.as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( $m ) ) ==> headers.push($n, $m)
@rewrite seen . iter ( ) . any ( | s | s == & value ) ==> x_among(&seen, &value)
    requires hs_ok(*old(headers)),
    ensures hs_ok(*final(headers)), hall(*final(headers), "Contact"@) == hall(*old(headers), "Contact"@),
@entry
    broadcast use rg::hall_last;
    proof { names_differ(); }
@loop 1
    invariant 0 <= i__ <= bindings@.len(), hs_ok(*headers), hall(*headers, "Contact"@) == hall(*old(headers), "Contact"@), no_contact("Path"@),
    decreases bindings@.len() - i__,
//@end
}
#[verifier::external_body] pub fn x_among(v: &Vec<String>, s: &String) -> (r: bool) { unimplemented!() }

pub mod rh {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, tm::mkd_view, tm::d_range, rg::hall_last, rg::ends_quiet, rg::ends_err, rg::ends_ok};
impl<S: LocationStore, A: Authenticator> BasicRegistrar<S, A> {
//@fn BasicRegistrar::handle_register
@attr #[verifier::rlimit(60)]
@props P04,P05
@sig (&mut self, request: &Request) -> Result<Response, AErr>
@prewrite let authorized = auth . authenticated_username ( request ) . and_then ( | auth_user | { $*c } ) . unwrap_or ( false ) ; ==> let authorized = (match auth.authenticated_username(request) { Some(auth_user) => { match { $c } { Some(b__) => b__, None => false } }, None => false });
@prewrite aor_identity ( & aor ) . map ( | id | $*e ) ==> (match aor_identity(aor.as_str()) { Some(id) => Some($e), None => None })
@rewrite key_fn ( request ) ==> x_call(key_fn, request)
@rewrite contacts . iter ( ) . any ( | c | $*e ) ==> { let mut f__ = false; let mut i__: usize = 0; while i__ < contacts.len() { let c = &contacts[i__]; i__ += 1; if $e { f__ = true; } } f__ }
@rewrite c . trim ( ) ==> c.as_str().trim()
@rewrite contacts [ 0 ] . trim ( ) ==> contacts[0].as_str().trim()
@rewrite value . parse ==> value.as_str().parse
@rewrite value . xp_u64 ==> value.as_str().xp_u64
@rewrite for binding in & self . store . lookup ( & aor ) ? { $*b } ==> let v__ = self.store.lookup(aor.as_str())?; let mut i__: usize = 0; while i__ < v__.len() { let binding = &v__[i__]; i__ += 1; $b }
@rewrite for binding in & existing { $*b } ==> let mut i__: usize = 0; while i__ < existing.len() { let binding = &existing[i__]; i__ += 1; $b }
@rewrite for binding in & bindings { $*b } ==> let mut i__: usize = 0; while i__ < bindings.len() { let binding = &bindings[i__]; i__ += 1; $b }
@rewrite for contact in & contacts { $*b } ==> let mut i__: usize = 0; while i__ < contacts.len() { let contact = &contacts[i__]; i__ += 1; $b }
@rewrite for binding in existing { $*b } ==> let mut k__: usize = 0; while k__ < existing.len() { let binding = existing[k__].clone(); k__ += 1; $b }
@rewrite for ( contact_uri , update ) in updates { $*b } ==> let mut u__: usize = 0; while u__ < updates.len() { let (contact_uri, update) = x_pair(&updates, u__); u__ += 1; $b }
@rewrite ( & aor ) ==> (aor.as_str())
@rewrite ( & aor , ==> (aor.as_str(),
@rewrite SmolStr :: new ( binding . contact ( ) ) ==> binding.contact.clone()
@rewrite let mut existing_by_contact = ==> let mut existing_by_contact: DMap<SmolStr, &Binding> =
@rewrite SmolStr :: new ( aor . clone ( ) ) ==> SmolStr::from_string(aor.clone())
@rewrite headers . push ( SmolStr :: new ( $n ) , ensure_to_tag ( to ) ) ==> headers.push($n, ensure_to_tag(to).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( $m ) ) ==> headers.push($n, $m)
@rewrite headers . push ( SmolStr :: new ( $n ) , format_contact ( $*x ) , ) ==> headers.push($n, format_contact($x).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , $*v ) ==> headers.push($n, $v)
@rewrite header ( request . headers ( ) , "Call-ID" ) . cloned ( ) . unwrap_or_else ( || SmolStr :: new ( "" ) ) ==> header(request.headers(), "Call-ID").x_cloned().x_or(SmolStr::new(""))
@rewrite . cloned ( ) ==> .x_cloned()
@rewrite Self :: extract_path ==> BasicRegistrar::<S, A>::extract_path
    ensures *final(self) == (BasicRegistrar { store: final(self).store, ..*old(self) }),
        ends(*old(self), *final(self), *request, r),
@entry
    proof { names_differ(); reveal_strlit(""); assert(""@ =~= e()); }
    let ghost l0 = self.store.log();
    let ghost h = request.headers;
    let ghost s0 = *self;
@loop 1
    invariant 0 <= i__ <= contacts@.len(),
    decreases contacts@.len() - i__,
@loop 2
    invariant 0 <= i__ <= v__@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), self.store.log() == l0, s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), v__@ == s0.store.held(aor@),
        forall|j: int| 0 <= j < i__ && (#[trigger] v__@[j]).call_id@ == cid_of(h) ==> cseq > v__@[j].cseq,
    decreases v__@.len() - i__,
@afterloop 2
    proof { star_steps(l0, aor@, s0.store.held(aor@), h, s0.cfg()); }
@loop 3
    invariant 0 <= i__ <= existing@.len(), indexed(existing_by_contact@, existing@, i__ as int),
    decreases existing@.len() - i__,
@loop 4
    invariant 0 <= i__ <= contacts@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), self.store.log() == l0, s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), smv(contacts@) == contacts_of(h),
        indexed(existing_by_contact@, existing@, existing@.len() as int), one_each(existing@), updates@.len() == i__, tpo(user_agent) == hdr(h, "User-Agent"@), request_path == (if hget(h, "Path"@).is_some() { path_of(h) } else { None }),
        forall|j: int| 0 <= j < i__ ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
    decreases contacts@.len() - i__,
@loop 5
    invariant 0 <= u__ <= updates@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), updates@.len() == contacts@.len(), smv(contacts@) == contacts_of(h), contacts@.len() > 0, existing@ == s0.store.held(aor@), !star(h),
        forall|j: int| 0 <= j < updates@.len() ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
        forall|j: int| 0 <= j < updates@.len() ==> on(#[trigger] upd(aor@, updates@[j]), aor@), forall|j: int| 0 <= j < existing@.len() ==> (#[trigger] existing@[j]).aor@ == aor@,
        self.store.log() == l0 + upds(aor@, updates@.take(u__ as int)),
    decreases updates@.len() - u__,
@loopbody 5
    proof { upd_steps(l0, aor@, updates@, u__ as int, existing@, false); }
@afterloop 5
    proof { upd_steps(l0, aor@, updates@, u__ as int, existing@, false); assert(updates@.take(u__ as int) =~= updates@); assert(since(l0, self.store.log()) =~= upds(aor@, updates@)); all_done(updates@, s0.cfg(), h, aor@, contacts@, existing@); }
@loop 6
    invariant 0 <= k__ <= existing@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), updates@.len() == contacts@.len(), smv(contacts@) == contacts_of(h), contacts@.len() > 0, existing@ == s0.store.held(aor@), !star(h),
        forall|j: int| 0 <= j < updates@.len() ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
        forall|j: int| 0 <= j < updates@.len() ==> on(#[trigger] upd(aor@, updates@[j]), aor@), forall|j: int| 0 <= j < existing@.len() ==> (#[trigger] existing@[j]).aor@ == aor@,
        0 < u__ <= updates@.len(), self.store.log() == l0 + undo(upds(aor@, updates@.take(u__ - 1)), aor@, existing@.take(k__ as int)),
    decreases existing@.len() - k__,
@loopbody 6
    proof { undo_steps(l0, aor@, updates@, u__ - 1, k__ as int, existing@, false); }
@afterloop 6
    proof { undo_steps(l0, aor@, updates@, u__ - 1, k__ as int, existing@, false); }
@loop 7
    invariant 0 <= i__ <= bindings@.len(), hs_ok(headers), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@),
        err_ok(l0, self.store.log(), aor@, s0.store.held(aor@), false), !star(h), hall(headers, "Contact"@) =~= listed(bindings@).take(i__ as int), eq_ci("Contact"@, "Contact"@),
    decreases bindings@.len() - i__,
@afterloop 7
    assert(hall(headers, "Contact"@) =~= listed(bindings@));
//@end
}

impl<S: LocationStore, A: Authenticator> BasicRegistrar<S, A> {
//@fn BasicRegistrar::handle_register_async
@attr #[verifier::rlimit(60)]
@props P04,P05
@sig (&mut self, request: &Request) -> Result<Response, AErr>
@prewrite let authorized = auth . authenticated_username ( request ) . and_then ( | auth_user | { $*c } ) . unwrap_or ( false ) ; ==> let authorized = (match auth.authenticated_username(request) { Some(auth_user) => { match { $c } { Some(b__) => b__, None => false } }, None => false });
@prewrite aor_identity ( & aor ) . map ( | id | $*e ) ==> (match aor_identity(aor.as_str()) { Some(id) => Some($e), None => None })
@rewrite key_fn ( request ) ==> x_call(key_fn, request)
@rewrite contacts . iter ( ) . any ( | c | $*e ) ==> { let mut f__ = false; let mut i__: usize = 0; while i__ < contacts.len() { let c = &contacts[i__]; i__ += 1; if $e { f__ = true; } } f__ }
@rewrite c . trim ( ) ==> c.as_str().trim()
@rewrite contacts [ 0 ] . trim ( ) ==> contacts[0].as_str().trim()
@rewrite value . parse ==> value.as_str().parse
@rewrite value . xp_u64 ==> value.as_str().xp_u64
@rewrite for binding in & self . store . lookup ( & aor ) ? { $*b } ==> let v__ = self.store.lookup(aor.as_str())?; let mut i__: usize = 0; while i__ < v__.len() { let binding = &v__[i__]; i__ += 1; $b }
@rewrite for binding in & existing { $*b } ==> let mut i__: usize = 0; while i__ < existing.len() { let binding = &existing[i__]; i__ += 1; $b }
@rewrite for binding in & bindings { $*b } ==> let mut i__: usize = 0; while i__ < bindings.len() { let binding = &bindings[i__]; i__ += 1; $b }
@rewrite for contact in & contacts { $*b } ==> let mut i__: usize = 0; while i__ < contacts.len() { let contact = &contacts[i__]; i__ += 1; $b }
@rewrite for binding in existing { $*b } ==> let mut k__: usize = 0; while k__ < existing.len() { let binding = existing[k__].clone(); k__ += 1; $b }
@rewrite for ( contact_uri , update ) in updates { $*b } ==> let mut u__: usize = 0; while u__ < updates.len() { let (contact_uri, update) = x_pair(&updates, u__); u__ += 1; $b }
@rewrite ( & aor ) ==> (aor.as_str())
@rewrite ( & aor , ==> (aor.as_str(),
@rewrite SmolStr :: new ( binding . contact ( ) ) ==> binding.contact.clone()
@rewrite let mut existing_by_contact = ==> let mut existing_by_contact: DMap<SmolStr, &Binding> =
@rewrite SmolStr :: new ( aor . clone ( ) ) ==> SmolStr::from_string(aor.clone())
@rewrite headers . push ( SmolStr :: new ( $n ) , ensure_to_tag ( to ) ) ==> headers.push($n, ensure_to_tag(to).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , SmolStr :: new ( $m ) ) ==> headers.push($n, $m)
@rewrite headers . push ( SmolStr :: new ( $n ) , format_contact ( $*x ) , ) ==> headers.push($n, format_contact($x).as_str())
@rewrite headers . push ( SmolStr :: new ( $n ) , $*v ) ==> headers.push($n, $v)
@rewrite header ( request . headers ( ) , "Call-ID" ) . cloned ( ) . unwrap_or_else ( || SmolStr :: new ( "" ) ) ==> header(request.headers(), "Call-ID").x_cloned().x_or(SmolStr::new(""))
@rewrite . cloned ( ) ==> .x_cloned()
@rewrite Self :: extract_path ==> BasicRegistrar::<S, A>::extract_path
    ensures *final(self) == (BasicRegistrar { store: final(self).store, ..*old(self) }),
        ends(*old(self), *final(self), *request, r),
@entry
    proof { names_differ(); reveal_strlit(""); assert(""@ =~= e()); }
    let ghost l0 = self.store.log();
    let ghost h = request.headers;
    let ghost s0 = *self;
@loop 1
    invariant 0 <= i__ <= contacts@.len(),
    decreases contacts@.len() - i__,
@loop 2
    invariant 0 <= i__ <= v__@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), self.store.log() == l0, s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), v__@ == s0.store.held(aor@),
        forall|j: int| 0 <= j < i__ && (#[trigger] v__@[j]).call_id@ == cid_of(h) ==> cseq > v__@[j].cseq,
    decreases v__@.len() - i__,
@afterloop 2
    proof { star_steps(l0, aor@, s0.store.held(aor@), h, s0.cfg()); }
@loop 3
    invariant 0 <= i__ <= existing@.len(), indexed(existing_by_contact@, existing@, i__ as int),
    decreases existing@.len() - i__,
@loop 4
    invariant 0 <= i__ <= contacts@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), self.store.log() == l0, s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), smv(contacts@) == contacts_of(h),
        indexed(existing_by_contact@, existing@, existing@.len() as int), one_each(existing@), updates@.len() == i__, tpo(user_agent) == hdr(h, "User-Agent"@), request_path == (if hget(h, "Path"@).is_some() { path_of(h) } else { None }),
        forall|j: int| 0 <= j < i__ ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
    decreases contacts@.len() - i__,
@loop 5
    invariant 0 <= u__ <= updates@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), updates@.len() == contacts@.len(), smv(contacts@) == contacts_of(h), contacts@.len() > 0, existing@ == s0.store.held(aor@), !star(h),
        forall|j: int| 0 <= j < updates@.len() ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
        forall|j: int| 0 <= j < updates@.len() ==> on(#[trigger] upd(aor@, updates@[j]), aor@), forall|j: int| 0 <= j < existing@.len() ==> (#[trigger] existing@[j]).aor@ == aor@,
        self.store.log() == l0 + upds(aor@, updates@.take(u__ as int)),
    decreases updates@.len() - u__,
@loopbody 5
    proof { upd_steps(l0, aor@, updates@, u__ as int, existing@, false); }
@afterloop 5
    proof { upd_steps(l0, aor@, updates@, u__ as int, existing@, false); assert(updates@.take(u__ as int) =~= updates@); assert(since(l0, self.store.log()) =~= upds(aor@, updates@)); all_done(updates@, s0.cfg(), h, aor@, contacts@, existing@); }
@loop 6
    invariant 0 <= k__ <= existing@.len(), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@), cseq_of(h) == Some(cseq as nat), call_id@ == cid_of(h), updates@.len() == contacts@.len(), smv(contacts@) == contacts_of(h), contacts@.len() > 0, existing@ == s0.store.held(aor@), !star(h),
        forall|j: int| 0 <= j < updates@.len() ==> acts(#[trigger] upd(aor@, updates@[j]), s0.cfg(), h, aor@, contacts@[j]@, existing@),
        forall|j: int| 0 <= j < updates@.len() ==> on(#[trigger] upd(aor@, updates@[j]), aor@), forall|j: int| 0 <= j < existing@.len() ==> (#[trigger] existing@[j]).aor@ == aor@,
        0 < u__ <= updates@.len(), self.store.log() == l0 + undo(upds(aor@, updates@.take(u__ - 1)), aor@, existing@.take(k__ as int)),
    decreases existing@.len() - k__,
@loopbody 6
    proof { undo_steps(l0, aor@, updates@, u__ - 1, k__ as int, existing@, false); }
@afterloop 6
    proof { undo_steps(l0, aor@, updates@, u__ - 1, k__ as int, existing@, false); }
@loop 7
    invariant 0 <= i__ <= bindings@.len(), hs_ok(headers), *self == (BasicRegistrar { store: self.store, ..s0 }), s0 == *old(self), l0 == s0.store.log(), h == request.headers, to_aor(h) == Some(aor@), may(s0.authenticator, *request, aor@),
        err_ok(l0, self.store.log(), aor@, s0.store.held(aor@), false), !star(h), hall(headers, "Contact"@) =~= listed(bindings@).take(i__ as int), eq_ci("Contact"@, "Contact"@),
    decreases bindings@.len() - i__,
@afterloop 7
    assert(hall(headers, "Contact"@) =~= listed(bindings@));
//@end
}
}
}
}
