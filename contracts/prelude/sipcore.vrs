//@rewrite self . inner . iter ( ) . find ( | $h | $*c ) . map ( | $g | $*m ) ==> match self.inner.iter().find(|$h| $c) { Some($g) => Some($m), None => None }
//@rewrite self . inner . iter ( ) . find ( | $h | $*c ) ==> { let mut f__: Option<&Header> = None; let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; if $c { f__ = Some($h); break; } i__ += 1; } f__ }
//@rewrite self . inner . iter ( ) . any ( | $h | $*c ) ==> { let mut f__ = false; let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; if $c { f__ = true; break; } i__ += 1; } f__ }
//@rewrite & self . name ==> self.name.as_str()
//@rewrite & self . reason ==> self.reason.as_str()
//@rewrite : impl AsRef < str > ==> : &str
//@rewrite . as_ref ( ) ==>
//@rewrite : impl Into < Uri > ==> : Uri
//@rewrite uri . into ( ) ==> uri
//@rewrite SmolStr :: new ( token . to_ascii_uppercase ( ) ) ==> SmolStr::from_string(token.to_ascii_uppercase())
verus! {
//@file crates/sip-core/src/method.rs
//@enum MethodError
//@enum Method
impl Clone for Method { #[verifier::external_body] fn clone(&self) -> (r: Method) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Method) -> bool { *self == *other }
}
impl PartialEq for Method { #[verifier::external_body] fn eq(&self, o: &Method) -> (r: bool) { unimplemented!() } }
impl Eq for Method {}
/// opaque in this unit
#[verifier::external_body] pub struct Uri { x: u128 }
impl Clone for Uri { #[verifier::external_body] fn clone(&self) -> (r: Uri) ensures r == *self { unimplemented!() } }
/// the method token
pub open spec fn mname(m: Method) -> Seq<char> {
    match m {
        Method::Invite => "INVITE"@, Method::Ack => "ACK"@, Method::Bye => "BYE"@, Method::Cancel => "CANCEL"@, Method::Register => "REGISTER"@,
        Method::Options => "OPTIONS"@, Method::Info => "INFO"@, Method::Update => "UPDATE"@, Method::Message => "MESSAGE"@, Method::Prack => "PRACK"@,
        Method::Refer => "REFER"@, Method::Subscribe => "SUBSCRIBE"@, Method::Notify => "NOTIFY"@, Method::Publish => "PUBLISH"@, Method::Unknown(t) => t@,
    }
}
impl Method {
//@fn Method::as_str
    ensures r@ == mname(*self),
//@end
}
//@file crates/sip-core/src/version.rs
//@enum SipVersion derive=Clone,Copy
//@file crates/sip-core/src/headers.rs
//@enum HeaderError
//@struct Header
//@struct Headers
/// the value of the first header of that name (names compare case-insensitively)
pub open spec fn hget_from(h: Seq<Header>, n: Seq<char>, i: int) -> Option<Seq<char>>
    decreases h.len() - i
{ if i < 0 || i >= h.len() { None } else if eq_ci(h[i].name@, n) { Some(h[i].value@) } else { hget_from(h, n, i + 1) } }
pub open spec fn hget(h: Headers, n: Seq<char>) -> Option<Seq<char>> { hget_from(h.inner@, n, 0) }
impl Header {
//@fn Header::name
    ensures r@ == self.name@,
//@end
//@fn Header::value
@rewrite & self . value ==> self.value.as_str()
    ensures r@ == self.value@,
//@end
//@fn Header::value_smol
    ensures r@ == self.value@, *r == self.value,
//@end
//@fn Header::name_eq
    ensures r == eq_ci(self.name@, other@),
//@end
}
/// the values of every header of that name, in order
pub open spec fn hall_s(h: Seq<Header>, n: Seq<char>) -> Seq<Seq<char>> decreases h.len()
{ if h.len() == 0 { Seq::empty() } else if eq_ci(h.last().name@, n) { hall_s(h.drop_last(), n).push(h.last().value@) } else { hall_s(h.drop_last(), n) } }
pub open spec fn hall(h: Headers, n: Seq<char>) -> Seq<Seq<char>> { hall_s(h.inner@, n) }
pub open spec fn smols(v: Seq<&SmolStr>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl Headers {
//@fn Headers::get_header
    ensures match r { Some(h) => hget(*self, name@) == Some(h.value@), None => hget(*self, name@).is_none() },
@loop 1
    invariant_except_break f__.is_none(), hget(*self, name@) == hget_from(self.inner@, name@, i__ as int),
    invariant 0 <= i__ <= self.inner.len(),
    ensures match f__ { Some(h) => hget(*self, name@) == Some(h.value@), None => hget(*self, name@).is_none() },
    decreases self.inner.len() - i__,
//@end
//@fn Headers::get_smol
@rewrite . map ( | h | h . value_smol ( ) ) ==> .map(|h: &Header| -> (o: &SmolStr) ensures o@ == h.value@ { h.value_smol() })
    ensures match r { Some(v) => hget(*self, name@) == Some(v@), None => hget(*self, name@).is_none() },
//@end
//@fn Headers::get_all_smol
@sig (&self, name: &str) -> Vec<&SmolStr>
@rewrite self . inner . iter ( ) . filter ( move | $h | $*c ) . map ( | $g | $*m ) ==> { let mut o__: Vec<&SmolStr> = Vec::new(); let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; i__ += 1; if $c { let $g = $h; o__.push($m); } } o__ }
    ensures smols(r@) =~= hall(*self, name@), r@.len() == hall(*self, name@).len(),
@loop 1
    invariant 0 <= i__ <= self.inner.len(), smols(o__@) =~= hall_s(self.inner@.take(i__ as int), name@),
    decreases self.inner.len() - i__,
@loopbody 1
    proof { assert(self.inner@.take(i__ + 1).drop_last() =~= self.inner@.take(i__ as int)); }
@afterloop 1
    proof { assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@); }
//@end
//@fn Headers::get
    ensures match r { Some(v) => hget(*self, name@) == Some(v@), None => hget(*self, name@).is_none() },
@loop 1
    invariant_except_break f__.is_none(), hget(*self, name@) == hget_from(self.inner@, name@, i__ as int),
    invariant 0 <= i__ <= self.inner.len(),
    ensures match f__ { Some(h) => hget(*self, name@) == Some(h.value@), None => hget(*self, name@).is_none() },
    decreases self.inner.len() - i__,
//@end
//@fn Headers::contains
    ensures r == hget(*self, name@).is_some(),
@loop 1
    invariant_except_break !f__, hget(*self, name@) == hget_from(self.inner@, name@, i__ as int),
    invariant 0 <= i__ <= self.inner.len(),
    ensures f__ == hget(*self, name@).is_some(),
    decreases self.inner.len() - i__,
//@end
}
//@file crates/sip-core/src/msg.rs
//@struct RequestLine
//@struct StatusLine
//@struct Request
//@struct Response
impl RequestLine {
//@fn RequestLine::method
    ensures *r == self.method,
//@end
//@fn RequestLine::uri
    ensures *r == self.uri,
//@end
}
impl StatusLine {
//@fn StatusLine::code
    ensures r == self.code,
//@end
//@fn StatusLine::is_success
    ensures r == (200 <= self.code < 300),
//@end
//@fn StatusLine::is_informational
    ensures r == (100 <= self.code < 200),
//@end
}
impl Request {
//@fn Request::method
    ensures *r == self.start.method,
//@end
//@fn Request::uri
    ensures *r == self.start.uri,
//@end
//@fn Request::headers
    ensures *r == self.headers,
//@end
//@fn Request::body
    ensures *r == self.body,
//@end
}
impl Response {
//@fn Response::code
    ensures r == self.start.code,
//@end
//@fn Response::headers
    ensures *r == self.headers,
//@end
//@fn Response::body
    ensures *r == self.body,
//@end
//@fn Response::is_success
    ensures r == (200 <= self.start.code < 300),
//@end
//@fn Response::is_informational
    ensures r == (100 <= self.start.code < 200),
//@end
}
} // verus!
