//@include ../headers
//@include errx
//@include strit
//@include fmt
//@rewrite MAGIC_COOKIE : & str ==> MAGIC_COOKIE: &'static str
//@rewrite MAGIC_COOKIE . len ( ) + 1 ==> { proof { cookie_len(); } MAGIC_COOKIE.len() + 1 }
//@rewrite . split ( "\r\n" ) ==> .x_split_s("\r\n")
//@rewrite data . windows ( delim . len ( ) ) . position ( | $w | $a == $b ) ==> x_find_bytes(data, delim)
//@rewrite std :: str :: from_utf8 ( $*b ) ==> x_utf8($b)
//@rewrite & data [ .. pos ] ==> slice_to(data, pos)
//@rewrite & data [ pos + delim . len ( ) .. ] ==> slice_from(data, pos + delim.len())
//@rewrite & body_bytes [ .. declared ] ==> slice_to(body_bytes, declared)
//@rewrite Some ( ( head , & [ ] ) ) ==> Some((head, x_no_bytes()))
//@rewrite split_whitespace ( ) ==> x_ws_it()
//@rewrite number_token . parse ( ) ==> number_token.xp_u64()
//@rewrite headers . get_smol ( $a ) . or_else ( || $*c ) ==> match headers.get_smol($a) { Some(v__) => Some(v__), None => $c }
//@rewrite . get_all_smol ( $*n ) . collect ( ) ==> .get_all_smol($n)
//@rewrite let $v : Vec < _ > = ==> let $v: Vec<&SmolStr> =
//@rewrite for value in & values { $*b } ==> let mut i__: usize = 0; while i__ < values.len() { let value = values[i__]; i__ += 1; $b }
//@rewrite for value in headers . get_all_smol ( $*n ) { $*b } ==> let vs__: Vec<&SmolStr> = headers.get_all_smol($n); let mut i__: usize = 0; while i__ < vs__.len() { let value = vs__[i__]; i__ += 1; $b }
//@rewrite take_while1 :: < _ , _ , nom :: error :: Error < _ > > ( $f ) ==> (NTake1 { f: $f })
//@rewrite space1 :: < _ , nom :: error :: Error < _ > > ==> NSpace1
//@rewrite rest :: < _ , nom :: error :: Error < _ > > ==> NRest
//@rewrite nom_u16 :: < _ , nom :: error :: Error < _ > > ==> NU16
//@rewrite tag_no_case :: < _ , _ , nom :: error :: Error < _ > > ( $*f ) ==> (NTagNc { t: $f })
//@rewrite let mut parser = tuple ( ( $*a , $*b , $*c , $*d , $*e , ) ) ; let ( _ , ( $p , $q , $r , $s , $t ) ) = parser ( $*x ) . ok ( ) ? ; ==> let in__ = $x; let p1__ = ($a).eat(in__)?; proof { run_hint(in__@, p1__.0@.len() as int); } let p2__ = ($b).eat(p1__.1)?; let p3__ = ($c).eat(p2__.1)?; proof { run_hint(p2__.1@, p3__.0@.len() as int); } let p4__ = ($d).eat(p3__.1)?; let p5__ = ($e).eat(p4__.1)?; let $p = p1__.0; let $q = p2__.0; let $r = p3__.0; let $s = p4__.0; let $t = p5__.0;
//@rewrite let mut parser = tuple ( ( $*a , $*b , $*c , $*d , ) ) ; let ( _ , ( $p , $q , $r , $s ) ) = parser ( $*x ) . ok ( ) ? ; ==> let p1__ = ($a).eat($x)?; let p2__ = ($b).eat(p1__.1)?; let p3__ = ($c).eat(p2__.1)?; let p4__ = ($d).eat(p3__.1)?; let $p = p1__.0; let $q = p2__.0; let $r = p3__.0; let $s = p4__.0;
//@rewrite ( 1u32 << 31 ) - 1 ==> { proof { assert((1u32 << 31) == 0x8000_0000u32) by (bit_vector); } (1u32 << 31) - 1 }
//@rewrite use nom :: { $*x } ; ==>
//@rewrite use std :: fmt :: Write ; ==>
//@rewrite $v . split ( ';' ) . find_map ( | p | p . trim ( ) . strip_prefix ( $*c ) ) ==> { let ps__ = $v.x_split_c(';'); let mut f__: Option<&str> = None; let mut i__: usize = 0; while i__ < ps__.len() { let p = ps__[i__]; i__ += 1; let o__ = p.trim().strip_prefix($c); if o__.is_some() { f__ = o__; break; } } f__ }
//@rewrite SINGLETON_HEADERS : & [ & str ] = & [ $*x ] ==> SINGLETON_HEADERS: [&'static str; 5] = [$x]
//@rewrite SINGLETON_HEADERS . iter ( ) . all ( | name | $*c ) ==> { let mut f__ = true; let mut i__: usize = 0; while i__ < SINGLETON_HEADERS.len() { let name = SINGLETON_HEADERS[i__]; if !($c) { f__ = false; break; } i__ += 1; } f__ }
//@rewrite $v . bytes ( ) . all ( | b | b . is_ascii_digit ( ) ) ==> $v.x_digits()
//@rewrite for header in $a . headers ( ) . iter ( ) { $*b } ==> let mut i__: usize = 0; while i__ < $a.headers().inner.len() { let header = &$a.headers().inner[i__]; i__ += 1; $b }
//@rewrite buf . len ( ) ==> x_str_len(&buf)
//@rewrite buf . as_bytes ( ) ==> x_str_bytes(&buf)
//@rewrite buf . push_str ( $*s ) ==> buf.x_push($s)
verus! {
pub mod pw {
    use super::*;
    use vstd::utf8::encode_utf8;
    // ---- bytes as text ----
    /// the text these bytes encode, if they are UTF-8
    pub open spec fn utf8(b: Seq<u8>) -> Option<Seq<char>> { if exists|t: Seq<char>| #[trigger] encode_utf8(t) == b { Some(choose|t: Seq<char>| #[trigger] encode_utf8(t) == b) } else { None } }
    /// std::str::from_utf8
    #[verifier::external_body] pub fn x_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, NumErr>) ensures match r { Ok(t) => utf8(b@) == Some(t@), Err(_) => utf8(b@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn slice_from<'a>(b: &'a [u8], a: usize) -> (r: &'a [u8]) requires a <= b@.len(), ensures r@ == b@.skip(a as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_to<'a>(b: &'a [u8], a: usize) -> (r: &'a [u8]) requires a <= b@.len(), ensures r@ == b@.take(a as int) { unimplemented!() }
    #[verifier::external_body] pub fn x_no_bytes() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    pub open spec fn bat(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
    /// the first place p occurs in s
    pub open spec fn bfirst(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { bat(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] bat(s, p, j) }
    pub open spec fn bocc(s: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| #[trigger] bat(s, p, i) }
    pub open spec fn bidx(s: Seq<u8>, p: Seq<u8>) -> int { choose|i: int| bfirst(s, p, i) }
    pub proof fn bfirst_is(s: Seq<u8>, p: Seq<u8>, i: int) requires bfirst(s, p, i) ensures bocc(s, p), bidx(s, p) == i
    { let k = bidx(s, p); assert(bfirst(s, p, k)); assert(bat(s, p, i)); if k < i { assert(!bat(s, p, k)); } else if i < k { assert(!bat(s, p, i)); } }
    /// windows(n).position(..): the first place the n bytes occur
    #[verifier::external_body] pub fn x_find_bytes<const N: usize>(s: &[u8], p: &[u8; N]) -> (r: Option<usize>)
        ensures match r { Some(i) => bfirst(s@, p@, i as int), None => !bocc(s@, p@) } { unimplemented!() }
    pub trait XBytes { spec fn bv(&self) -> Seq<u8>; fn x_slice(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
    impl XBytes for Bytes { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn x_slice(&self) -> (r: &[u8]) { unimplemented!() } }
    impl Bytes { #[verifier::external_body] pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() } }
    /// no buffer is longer than isize::MAX bytes
    pub broadcast axiom fn bytes_bound(b: &Bytes) ensures (#[trigger] b@).len() <= 0x7fff_ffff_ffff_ffff;
    #[verifier::external_body] pub struct BytesMut { x: u128 }
    impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl BytesMut {
        #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn extend_from_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
        #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    }
    /// String::as_bytes, and its length bound
    #[verifier::external_body] pub fn x_str_bytes(s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { unimplemented!() }
    #[verifier::external_body] pub fn x_str_len(s: &String) -> (r: usize) ensures r as nat == blen(s@), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    /// every text that fits in memory is some SmolStr's
    pub axiom fn smol_any(t: Seq<char>) requires blen(t) <= 0x7fff_ffff_ffff_ffff ensures exists|x: SmolStr| #[trigger] x@ == t;
    // ---- splitting at a text ----
    pub open spec fn splits(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
        let i = fidx(s, Pat::S(p));
        if p.len() > 0 && occ(s, Pat::S(p)) && 0 <= i && i + p.len() <= s.len() { seq![s.take(i)] + splits(s.skip(i + p.len()), p) } else { seq![s] }
    }
    pub open spec fn digs(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub trait XSplitS { spec fn xss(&self) -> Seq<char>;
        fn x_split_s<'a>(&'a self, p: &str) -> (r: XIt<'a>) requires p@.len() > 0, ensures r.wf(), r.i == 0, views(r.v@) == splits(self.xss(), p@), r.rest() == splits(self.xss(), p@);
        /// bytes().all(|b| b.is_ascii_digit())
        fn x_digits(&self) -> (r: bool) ensures r == digs(self.xss()); }
    impl XSplitS for str { open spec fn xss(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_split_s<'a>(&'a self, p: &str) -> (r: XIt<'a>) { unimplemented!() }
        #[verifier::external_body] fn x_digits(&self) -> (r: bool) { unimplemented!() } }
    // ---- nom's combinators, one after another ----
    /// how many characters at the front satisfy f
    pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() > 0 && f(s[0]) { 1 + run(s.drop_first(), f) } else { 0 } }
    pub proof fn run_range(s: Seq<char>, f: spec_fn(char) -> bool)
        ensures 0 <= run(s, f) <= s.len(), forall|i: int| 0 <= i < run(s, f) ==> f(#[trigger] s[i]), run(s, f) < s.len() ==> !f(s[run(s, f)])
        decreases s.len()
    {
        if s.len() > 0 && f(s[0]) {
            let t = s.drop_first();
            run_range(t, f);
            assert forall|i: int| 0 <= i < run(s, f) implies f(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
        }
    }
    pub proof fn run_is(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
        requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]), n < s.len() ==> !f(s[n])
        ensures run(s, f) == n
    { run_range(s, f); let k = run(s, f); if k < n { assert(f(s[k])); } else if n < k { assert(f(s[n])); } }
    pub struct NTake1<F> { pub f: F }
    pub struct NSpace1;
    pub struct NRest;
    pub struct NTagNc<'t> { pub t: &'t str }
    pub struct NU16;
    pub open spec fn is_sp(c: char) -> bool { c == ' ' || c == '\t' }
    pub open spec fn spf() -> spec_fn(char) -> bool { |c: char| is_sp(c) }
    pub open spec fn digf() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
    impl<F: Fn(char) -> bool> NTake1<F> {
        #[verifier::external_body] pub fn eat<'a>(self, s: &'a str) -> (r: Option<(&'a str, &'a str)>)
            requires forall|c: char| call_requires(self.f, (c,)),
            ensures match r {
                Some((a, b)) => { let n = a@.len() as int; 0 < n <= s@.len() && a@ == s@.take(n) && b@ == s@.skip(n) && (forall|i: int| 0 <= i < n ==> call_ensures(self.f, (#[trigger] s@[i],), true)) && (n < s@.len() ==> call_ensures(self.f, (s@[n],), false)) },
                None => s@.len() > 0 ==> call_ensures(self.f, (s@[0],), false) } { unimplemented!() }
    }
    impl NSpace1 { #[verifier::external_body] pub fn eat<'a>(self, s: &'a str) -> (r: Option<(&'a str, &'a str)>)
            ensures match r { Some((a, b)) => { let n = run(s@, spf()); n > 0 && a@ == s@.take(n) && b@ == s@.skip(n) }, None => run(s@, spf()) == 0 } { unimplemented!() } }
    impl NRest { #[verifier::external_body] pub fn eat<'a>(self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures r.is_some(), r.unwrap().0@ == s@, r.unwrap().1@.len() == 0 { unimplemented!() } }
    impl<'t> NTagNc<'t> { #[verifier::external_body] pub fn eat<'a>(self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) requires ascii(self.t@),
            ensures match r { Some((a, b)) => { let n = self.t@.len() as int; n <= s@.len() && eq_ci(s@.take(n), self.t@) && a@ == s@.take(n) && b@ == s@.skip(n) },
                None => !(self.t@.len() <= s@.len() && eq_ci(s@.take(self.t@.len() as int), self.t@)) } { unimplemented!() } }
    /// the digits at the front, as a number that must fit
    impl NU16 { #[verifier::external_body] pub fn eat<'a>(self, s: &'a str) -> (r: Option<(u16, &'a str)>)
            ensures match r { Some((v, b)) => { let n = run(s@, digf()); n > 0 && dec(s@.take(n)) == v as nat && b@ == s@.skip(n) },
                None => run(s@, digf()) == 0 || dec(s@.take(run(s@, digf()))) > 65535 } { unimplemented!() } }
    // ---- URIs: what a text means as one (decided in the unit for P18) ----
    pub uninterp spec fn uri_of(t: Seq<char>) -> Option<Uri>;
    pub uninterp spec fn utext(u: Uri) -> Seq<char>;
    impl Uri {
        #[verifier::external_body] pub fn parse(t: &str) -> (r: Result<Uri, NumErr>) ensures match r { Ok(u) => uri_of(t@) == Some(u), Err(_) => uri_of(t@).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == utext(*self) { unimplemented!() }
    }
}
use pw::*;
pub mod pp {
use super::*;
use vstd::utf8::encode_utf8;
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, st::str_bytes_bound, pw::bytes_bound};
//@file crates/sip-core/src/version.rs
pub open spec fn sip20() -> Seq<char> { "SIP/2.0"@ }
impl SipVersion {
//@fn SipVersion::as_str
    ensures r@ == sip20(),
//@end
}
//@file crates/sip-core/src/msg.rs
impl RequestLine {
//@fn RequestLine::version
    ensures *r == self.version,
//@end
}
impl StatusLine {
//@fn StatusLine::version
    ensures *r == self.version,
//@end
}
impl Request {
//@fn Request::version
    ensures *r == self.start.version,
//@end
}
impl Response {
//@fn Response::version
    ensures *r == self.start.version,
//@end
}
//@file crates/sip-core/src/max_forwards.rs
pub open spec fn cookie() -> Seq<char> { "z9hG4bK"@ }
pub proof fn cookie_len() ensures blen(cookie()) == 7, MAGIC_COOKIE@ == cookie() { reveal_strlit("z9hG4bK"); blen_ascii(cookie()); }
//@const MAX_BRANCH_LENGTH
//@const MAGIC_COOKIE
//@const MIN_BRANCH_LENGTH exec | MIN_BRANCH_LENGTH == 8
/// characters of a Via token here (RFC 3261 token)
pub open spec fn vtok(c: char) -> bool { is_alnum(c) || c == '-' || c == '.' || c == '!' || c == '%' || c == '*' || c == '_' || c == '+' || c == '`' || c == '\'' || c == '~' }
pub open spec fn all_vtok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> vtok(#[trigger] s[i]) }
pub open spec fn branch_ok(s: Seq<char>) -> bool { all_vtok(s) && at(s, Pat::S(cookie()), 0) && 8 <= blen(s) <= 256 }
//@fn is_valid_branch
    ensures r == branch_ok(branch@),
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_actl(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == branch@,
    ensures f__ == (exists|j: int| 0 <= j < branch@.len() && is_actl(#[trigger] branch@[j])),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> vtok(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == branch@,
    ensures f__ == all_vtok(branch@),
    decreases cs__@.len() - i__,
@afterloop 1
    proof { if f__ { let j = choose|j: int| 0 <= j < branch@.len() && is_actl(#[trigger] branch@[j]); assert(!vtok(branch@[j])); } }
//@end

//@file crates/sip-parse/src/lib.rs
// ---- framing -------------------------------------------------------------------------------------
pub open spec fn crlf2() -> Seq<u8> { seq![13u8, 10, 13, 10] }
/// the bytes of the head: up to the first blank line, or everything
pub open spec fn head_bytes(d: Seq<u8>) -> Seq<u8> { if bocc(d, crlf2()) { d.take(bidx(d, crlf2())) } else { d } }
/// the bytes after the blank line
pub open spec fn tail_bytes(d: Seq<u8>) -> Seq<u8> { if bocc(d, crlf2()) { d.skip(bidx(d, crlf2()) + 4) } else { Seq::empty() } }
//@fn split_head_body
@prewrite datagram . as_ref ( ) ==> datagram.x_slice()
    ensures match r {
            Some((h, b)) => utf8(head_bytes(datagram@)) == Some(h@) && b@ == tail_bytes(datagram@),
            None => utf8(head_bytes(datagram@)).is_none() },
@rewrite let delim = $*x ; ==> let delim: &[u8; 4] = &[13u8, 10, 13, 10]; proof { assert(delim@ =~= crlf2()); assert forall|i: int| bfirst(data@, crlf2(), i) implies bocc(data@, crlf2()) && bidx(data@, crlf2()) == i by { bfirst_is(data@, crlf2(), i); } }
//@end

// ---- Content-Length ------------------------------------------------------------------------------
//@const MAX_CONTENT_LENGTH
//@enum ContentLengthError
pub enum CL { Len(nat), Invalid, Oversized }
/// what a Content-Length value says: decimal digits only, at most 64 MiB
pub open spec fn cl_of(v: Seq<char>) -> CL {
    let t = trim_s(v);
    if !all_digits(t) { CL::Invalid } else if dec(t) > 64 * 1024 * 1024 { CL::Oversized } else { CL::Len(dec(t)) }
}
pub open spec fn cln() -> Seq<char> { "Content-Length"@ }
/// the lengths declared by the valid values agree with n
pub open spec fn all_len(vs: Seq<Seq<char>>, n: nat) -> bool { forall|i: int| 0 <= i < vs.len() ==> (cl_of(#[trigger] vs[i]) matches CL::Len(k) ==> k == n) }
/// the first valid value, if any
pub open spec fn first_len(vs: Seq<Seq<char>>) -> Option<nat> decreases vs.len()
{ if vs.len() == 0 { None } else { match first_len(vs.drop_last()) { Some(n) => Some(n), None => match cl_of(vs.last()) { CL::Len(n) => Some(n), _ => None } } } }
pub open spec fn none_over(vs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < vs.len() ==> !(cl_of(#[trigger] vs[i]) matches CL::Oversized) }
pub open spec fn all_valid(vs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < vs.len() ==> (cl_of(#[trigger] vs[i]) matches CL::Len(_)) }
/// the body of a message in tolerant mode
pub open spec fn body_tol(b: Seq<u8>, vs: Seq<Seq<char>>) -> Option<Seq<u8>> {
    let n = match first_len(vs) { Some(n) => n as int, None => b.len() as int };
    if !none_over(vs) || (first_len(vs) matches Some(k) && !all_len(vs, k)) || n > b.len() { None } else { Some(b.take(n)) }
}
/// the body of a message in strict mode
pub open spec fn body_strict(b: Seq<u8>, vs: Seq<Seq<char>>) -> Option<Seq<u8>> {
    if !all_valid(vs) || (first_len(vs) matches Some(k) && !all_len(vs, k)) { None }
    else { match first_len(vs) { Some(n) => if n == b.len() { Some(b) } else { None }, None => if b.len() == 0 { Some(b) } else { None } } }
}
pub proof fn first_len_is(vs: Seq<Seq<char>>)
    ensures match first_len(vs) { Some(n) => exists|i: int| 0 <= i < vs.len() && cl_of(#[trigger] vs[i]) == CL::Len(n), None => forall|i: int| 0 <= i < vs.len() ==> !(cl_of(#[trigger] vs[i]) matches CL::Len(_)) }
    decreases vs.len()
{
    if vs.len() > 0 {
        let u = vs.drop_last();
        first_len_is(u);
        match first_len(u) {
            Some(n) => { let i = choose|i: int| 0 <= i < u.len() && cl_of(#[trigger] u[i]) == CL::Len(n); assert(vs[i] == u[i]); },
            None => { assert forall|i: int| 0 <= i < vs.len() - 1 implies !(cl_of(#[trigger] vs[i]) matches CL::Len(_)) by { assert(u[i] == vs[i]); } assert(vs.last() == vs[vs.len() - 1]); },
        }
    }
}
/// one more value
pub proof fn len_step(vs: Seq<Seq<char>>, i: int)
    requires 0 <= i < vs.len()
    ensures ({ let a = vs.take(i); let b = vs.take(i + 1);
        &&& first_len(b) == (match first_len(a) { Some(n) => Some(n), None => match cl_of(vs[i]) { CL::Len(n) => Some(n), _ => None } })
        &&& all_valid(b) == (all_valid(a) && (cl_of(vs[i]) matches CL::Len(_)))
        &&& none_over(b) == (none_over(a) && !(cl_of(vs[i]) matches CL::Oversized))
        &&& forall|n: nat| #[trigger] all_len(b, n) == (all_len(a, n) && (cl_of(vs[i]) matches CL::Len(k) ==> k == n))
        &&& (cl_of(vs[i]) matches CL::Len(k) ==> (first_len(a) matches Some(n) ==> (all_len(vs, n) ==> k == n)))
        &&& (all_valid(vs) ==> cl_of(vs[i]) matches CL::Len(_))
        &&& (none_over(vs) ==> !(cl_of(vs[i]) matches CL::Oversized))
        &&& (first_len(a) is Some ==> first_len(vs) == first_len(a))
        &&& (first_len(a).is_none() ==> forall|n: nat| #[trigger] all_len(a, n))
    }),
        first_len(vs.take(0)).is_none(), all_valid(vs.take(0)), none_over(vs.take(0)),
{
    let a = vs.take(i); let b = vs.take(i + 1);
    assert(b.drop_last() =~= a);
    assert(b.last() == vs[i]);
    assert forall|j: int| 0 <= j < i implies a[j] == #[trigger] b[j] by {}
    if all_valid(b) { assert(b[i] == vs[i]); assert forall|j: int| 0 <= j < a.len() implies (cl_of(#[trigger] a[j]) matches CL::Len(_)) by { assert(b[j] == a[j]); } }
    if none_over(b) { assert(b[i] == vs[i]); assert forall|j: int| 0 <= j < a.len() implies !(cl_of(#[trigger] a[j]) matches CL::Oversized) by { assert(b[j] == a[j]); } }
    assert forall|n: nat| #[trigger] all_len(b, n) == (all_len(a, n) && (cl_of(vs[i]) matches CL::Len(k) ==> k == n)) by {
        if all_len(b, n) { assert(b[i] == vs[i]); assert forall|j: int| 0 <= j < a.len() implies (cl_of(#[trigger] a[j]) matches CL::Len(k) ==> k == n) by { assert(b[j] == a[j]); } }
    }
    first_take(vs, i); first_len_is(a);
}
proof fn first_take(vs: Seq<Seq<char>>, i: int)
    requires 0 <= i <= vs.len()
    ensures first_len(vs.take(i)) is Some ==> first_len(vs) == first_len(vs.take(i))
    decreases vs.len()
{ if i < vs.len() { first_take(vs.drop_last(), i); assert(vs.drop_last().take(i) =~= vs.take(i)); } else { assert(vs.take(i) =~= vs); } }
/// nothing read yet, and everything read
pub proof fn len_ends(vs: Seq<Seq<char>>)
    ensures first_len(vs.take(0)).is_none(), all_valid(vs.take(0)), none_over(vs.take(0)), vs.take(vs.len() as int) == vs,
        vs.len() == 1 ==> first_len(vs) == (match cl_of(vs[0]) { CL::Len(n) => Some(n), _ => None }) && none_over(vs) == !(cl_of(vs[0]) matches CL::Oversized) && forall|n: nat| #[trigger] all_len(vs, n) == (cl_of(vs[0]) matches CL::Len(k) ==> k == n),
        vs.len() == 0 ==> first_len(vs).is_none() && none_over(vs),
{
    assert(vs.take(vs.len() as int) =~= vs);
    if vs.len() == 1 { len_step(vs, 0); assert(vs.take(1) =~= vs); }
}
//@fn parse_content_length_detailed
@rewrite value . trim ( ) ==> value.as_str().trim()
@rewrite $a . bytes ( ) . all ( | b | b . is_ascii_digit ( ) ) ==> $a.x_digits()
    ensures match r { Ok(n) => cl_of(value@) == CL::Len(n as nat), Err(ContentLengthError::Invalid) => cl_of(value@) == CL::Invalid, Err(ContentLengthError::Oversized) => cl_of(value@) == CL::Oversized },
//@end
//@fn parse_content_length_value
    ensures r == (match cl_of(value@) { CL::Len(n) => Some(n as usize), _ => None }), cl_of(value@) matches CL::Len(n) ==> n <= 64 * 1024 * 1024,
//@end
//@fn strict_content_length
    ensures ({ let vs = hall(*headers, cln());
        match r {
            Ok(o) => all_valid(vs) && (first_len(vs) matches Some(k) ==> all_len(vs, k)) && match o { Some(n) => first_len(vs) == Some(n as nat), None => first_len(vs).is_none() },
            Err(_) => !all_valid(vs) || (first_len(vs) matches Some(k) && !all_len(vs, k)),
        } }),
@entry
    proof { len_ends(hall(*headers, cln())); }
@loop 1
    invariant 0 <= i__ <= vs__@.len(), smols(vs__@) == hall(*headers, cln()),
        all_valid(smols(vs__@).take(i__ as int)), first_len(smols(vs__@).take(i__ as int)) == (match length { Some(n) => Some(n as nat), None => None }),
        length matches Some(n) ==> all_len(smols(vs__@).take(i__ as int), n as nat),
    decreases vs__@.len() - i__,
@loopbody 1
    proof {
        let vs = smols(vs__@);
        len_step(vs, i__ as int); assert(vs[i__ as int] == vs__@[i__ as int]@);
    }
@afterloop 1
    proof { assert(smols(vs__@).take(i__ as int) =~= hall(*headers, cln())); }
//@end
//@fn extract_body
    ensures match r { Some(b) => body_tol(body_bytes@, hall(*headers, cln())) == Some(b@), None => body_tol(body_bytes@, hall(*headers, cln())).is_none() },
@entry
    proof { len_ends(hall(*headers, cln())); }
@loop 1
    invariant 0 <= i__ <= values@.len(), smols(values@) == hall(*headers, cln()),
        none_over(smols(values@).take(i__ as int)), first_len(smols(values@).take(i__ as int)) == (match first_valid { Some(n) => Some(n as nat), None => None }),
        first_valid matches Some(n) ==> all_len(smols(values@).take(i__ as int), n as nat),
    decreases values@.len() - i__,
@loopbody 1
    proof {
        let vs = smols(values@);
        len_step(vs, i__ as int); assert(vs[i__ as int] == values@[i__ as int]@);
    }
@afterloop 1
    proof { assert(smols(values@).take(i__ as int) =~= hall(*headers, cln())); }
//@end
//@fn extract_body_strict
    ensures match r { Some(b) => b@ == body_bytes@ && declared == body_bytes@.len(), None => declared != body_bytes@.len() },
//@end

// ---- lines ---------------------------------------------------------------------------------------
/// the full name of a header written in compact form
pub open spec fn canon(name: Seq<char>) -> Seq<char> {
    let l = lower(name);
    if l == "i"@ { "Call-ID"@ } else if l == "f"@ { "From"@ } else if l == "t"@ { "To"@ } else if l == "m"@ { "Contact"@ } else if l == "l"@ { "Content-Length"@ }
    else if l == "s"@ { "Subject"@ } else if l == "k"@ { "Supported"@ } else if l == "o"@ { "Event"@ } else if l == "e"@ { "Content-Encoding"@ } else if l == "c"@ { "Content-Type"@ }
    else if l == "v"@ { "Via"@ } else if l == "r"@ { "Refer-To"@ } else if l == "b"@ { "Referred-By"@ } else if l == "d"@ { "Request-Disposition"@ } else if l == "x"@ { "Session-Expires"@ }
    else if l == "a"@ { "Accept-Contact"@ } else if l == "u"@ { "Allow-Events"@ } else { name }
}
//@fn canonical_header_name
    ensures r@ == canon(name@),
//@end
/// the header of that name and value
pub open spec fn sm_of(t: Seq<char>) -> SmolStr { choose|x: SmolStr| x@ == t }
pub open spec fn mkh(n: Seq<char>, v: Seq<char>) -> Header { Header { name: sm_of(n), value: sm_of(v) } }
pub proof fn mkh_is(h: Header) ensures mkh(h.name@, h.value@) == h { smol_ext(sm_of(h.name@), h.name); smol_ext(sm_of(h.value@), h.value); }
/// the header a line is, if it is one: no folding, a colon, an acceptable name and value
pub open spec fn hline(l: Seq<char>) -> Option<Header> {
    let k = fidx(l, Pat::C(':'));
    if at(l, Pat::C(' '), 0) || at(l, Pat::C('\t'), 0) || !occ(l, Pat::C(':')) { None }
    else { let n = canon(trim_s(l.take(k))); let v = trim_s(l.skip(k + 1)); if name_ok(n) && val_ok(v) { Some(mkh(n, v)) } else { None } }
}
/// the headers with one more line
pub open spec fn hadd(h: Seq<Header>, l: Seq<char>) -> Option<Seq<Header>> {
    if l.len() == 0 { Some(h) } else { match hline(l) { Some(x) => if h.len() < 200 { Some(h.push(x)) } else { None }, None => None } }
}
/// the headers the lines are (empty lines skipped), at most 200
pub open spec fn hlines(ls: Seq<Seq<char>>) -> Option<Seq<Header>> decreases ls.len() {
    if ls.len() == 0 { Some(Seq::empty()) } else { match hlines(ls.drop_last()) { None => None, Some(h) => hadd(h, ls.last()) } }
}
proof fn hlines_none(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ls.len(), hlines(ls.take(i)).is_none()
    ensures hlines(ls).is_none() decreases ls.len() - i
{ if i < ls.len() { assert(ls.take(i + 1).drop_last() =~= ls.take(i)); hlines_none(ls, i + 1); } else { assert(ls.take(i) =~= ls); } }
pub broadcast proof fn pushed(a: Seq<Header>) requires a.len() > 0 ensures #[trigger] a.drop_last().push(a.last()) == a, mkh(a.last().name@, a.last().value@) == a.last() { assert(a.drop_last().push(a.last()) =~= a); mkh_is(a.last()); }
pub broadcast proof fn pushed2(a: Seq<Header>) requires a.len() > 0 ensures #![trigger a.drop_last()] a.drop_last().push(a.last()) == a, mkh(a.last().name@, a.last().value@) == a.last() { pushed(a); }
//@fn parse_headers
@sig <>(from: XIt) -> Option<Headers>
    requires from.wf(),
    ensures match r { Some(h) => hs_ok(h) && hlines(from.rest()) == Some(h.inner@), None => hlines(from.rest()).is_none() },
@entry
    let ghost all = from.rest();
    let mut lines = from;
    broadcast use pushed2;
    let ghost mut n: int = 0;
    proof { assert(all.take(0) =~= Seq::empty());  }
@rewrite for line in lines { $*b } ==> proof { assert(headers.inner@ =~= Seq::empty()); assert(lines.rest() =~= all.skip(0)); } while let Some(line) = lines.next() { $b }
@loop 1
    invariant all == from.rest(), lines.wf(), 0 <= n <= all.len(), lines.rest() == all.skip(n), hs_ok(headers), hlines(all.take(n)) == Some(headers.inner@),
    ensures n == all.len(), hlines(all.take(n)) == Some(headers.inner@), hs_ok(headers),
    decreases lines.rest().len(),
@loopbody 1
    let ghost h0 = headers.inner@;
    proof {
        assert(line@ == all[n]);
        assert(all.skip(n).drop_first() =~= all.skip(n + 1));
        assert(all.take(n + 1).drop_last() =~= all.take(n));
        n = n + 1;
        assert(all.take(n).last() == line@);
        assert(hlines(all.take(n)) == hadd(h0, line@));
        if hadd(h0, line@).is_none() { hlines_none(all, n); }
        assert(n <= all.len());
        assert forall|k: int| first(line@, Pat::C(':'), k) implies occ(line@, Pat::C(':')) && fidx(line@, Pat::C(':')) == k by { first_is(line@, Pat::C(':'), k); }
    }
@afterloop 1
    proof { assert(all.take(n) =~= all); }
//@end

// ---- first lines ---------------------------------------------------------------------------------
/// characters of a method token here
pub open spec fn mtok(c: char) -> bool { is_alnum(c) || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\'' || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~' }
pub open spec fn urc(c: char) -> bool { !is_ws(c) }
pub open spec fn mtokf() -> spec_fn(char) -> bool { |c: char| mtok(c) }
pub open spec fn urcf() -> spec_fn(char) -> bool { |c: char| urc(c) }
//@fn is_token_char
    ensures r == mtok(c),
//@end
//@fn is_uri_char
    ensures r == urc(c),
//@end
//@fn detect_method
    ensures r == meth(token@), r matches Some(m) ==> eq_ci(mname(m), token@) && is_token(mname(m)),
//@end
proof fn run_hint(s: Seq<char>, n: int)
    ensures 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> mtok(#[trigger] s[i])) && (n < s.len() ==> !mtok(s[n])) ==> run(s, mtokf()) == n,
        0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> urc(#[trigger] s[i])) && (n < s.len() ==> !urc(s[n])) ==> run(s, urcf()) == n,
{
    if 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> mtok(#[trigger] s[i])) && (n < s.len() ==> !mtok(s[n])) { run_is(s, mtokf(), n); }
    if 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> urc(#[trigger] s[i])) && (n < s.len() ==> !urc(s[n])) { run_is(s, urcf(), n); }
}
/// the pieces of a request line: token, spaces, address, spaces, version
pub open spec fn rline(l: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let a = run(l, mtokf()); let s1 = l.skip(a);
    let b = run(s1, spf()); let s2 = s1.skip(b);
    let c = run(s2, urcf()); let s3 = s2.skip(c);
    let d = run(s3, spf()); let s4 = s3.skip(d);
    if a > 0 && b > 0 && c > 0 && d > 0 && eq_ci(s4, sip20()) { Some((l.take(a), s2.take(c))) } else { None }
}
/// the method and address of a request line
pub open spec fn request_line(l: Seq<char>) -> Option<(Method, Uri)> {
    match rline(trim_s(l)) { Some((t, a)) => match (meth(t), uri_of(a)) { (Some(m), Some(u)) => Some((m, u)), _ => None }, None => None }
}
//@fn parse_request_line
    ensures r == request_line(line@), r matches Some(p) ==> eq_ci(mname(p.0), rline(trim_s(line@)).unwrap().0) && is_token(mname(p.0)),
//@end
/// the code and reason of a status line
pub open spec fn status_line(l: Seq<char>) -> Option<(u16, Seq<char>)> {
    let t = trim_s(l);
    let s1 = t.skip(7); let b = run(s1, spf()); let s2 = s1.skip(b); let n = run(s2, digf()); let s3 = s2.skip(n); let v = dec(s2.take(n));
    let why = trim_s(s3);
    if 7 <= t.len() && eq_ci(t.take(7), sip20()) && b > 0 && n > 0 && v <= 65535 && (s3.len() == 0 || at(s3, Pat::C(' '), 0) || at(s3, Pat::C('\t'), 0)) && 100 <= v <= 699 && reason_ok(why) { Some((v as u16, why)) } else { None }
}
//@fn parse_status_line
    ensures match r { Some(s) => sl_ok(s) && status_line(line@) == Some((s.code, s.reason@)), None => status_line(line@).is_none() },
@entry
    proof { sip20_text(); }
//@end
proof fn sip20_text() ensures sip20().len() == 7, ascii(sip20()), is_line(sip20()) { reveal_strlit("SIP/2.0"); }
pub open spec fn is_line(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\r' && s[i] != '\n' }

// ---- CSeq, singletons ------------------------------------------------------------------------------
//@const MAX_CSEQ_NUMBER exec | MAX_CSEQ_NUMBER == 0x7fff_ffff
/// a CSeq value: number, method
pub open spec fn cseq_of(v: Seq<char>) -> Option<(nat, Seq<char>)> {
    let w = ws_fields(v);
    if w.len() == 2 && all_digits(w[0]) && 1 <= dec(w[0]) < 0x7fff_ffff + 1 { Some((dec(w[0]), w[1])) } else { None }
}
//@fn parse_and_validate_cseq
    ensures match r { Some(p) => cseq_of(value@) == Some((p.0 as nat, p.1@)), None => cseq_of(value@).is_none() },
@entry
    proof { assert forall|s: Seq<char>| #[trigger] digs(s) && s.len() > 0 implies all_digits(s) by {} }
//@end
//@fn cseq_matches
    ensures match hget(*headers, "CSeq"@) { None => r == Some(true), Some(v) => match cseq_of(v) { Some((n, m)) => r == Some(eq_ci(mname(*method), m)), None => r.is_none() } },
//@end
//@fn validate_response_cseq
    ensures r == (hget(*headers, "CSeq"@) matches Some(v) ==> cseq_of(v).is_some()),
//@end
//@const SINGLETON_HEADERS
pub open spec fn singles() -> Seq<Seq<char>> { seq!["Call-ID"@, "CSeq"@, "From"@, "To"@, "Max-Forwards"@] }
/// none of the headers that may occur once occurs twice
pub open spec fn singles_ok(h: Seq<Header>) -> bool { forall|i: int| 0 <= i < 5 ==> hall_s(h, #[trigger] singles()[i]).len() <= 1 }
//@fn singleton_headers_unique
    ensures r == singles_ok(headers.inner@),
@loop 1
    invariant_except_break f__, forall|i: int| 0 <= i < i__ ==> hall_s(headers.inner@, #[trigger] singles()[i]).len() <= 1,
    invariant 0 <= i__ <= 5,
    ensures f__ == singles_ok(headers.inner@),
    decreases 5 - i__,
@loopbody 1
    proof { assert(SINGLETON_HEADERS@.len() == 5); assert(SINGLETON_HEADERS[i__ as int]@ == singles()[i__ as int]); }
//@end
//@fn canonical_name
    ensures r@ == (if eq_ci(name@, "Via"@) { "Via"@ } else if eq_ci(name@, "Contact"@) { "Contact"@ } else if eq_ci(name@, "Route"@) { "Route"@ } else if eq_ci(name@, "Record-Route"@) { "Record-Route"@ } else { name@ }),
//@end
//@fn header
    ensures match r { Some(v) => Some(v@) == (match hget(*headers, name@) { Some(x) => Some(x), None => hget(*headers, canon(name@)) }), None => hget(*headers, name@).is_none() && hget(*headers, canon(name@)).is_none() },
//@end

// ---- whole messages --------------------------------------------------------------------------------
pub open spec fn crlf() -> Seq<char> { "\r\n"@ }
pub open spec fn brk() -> Seq<char> { "branch="@ }
/// the branch parameter of a Via value, as the parser looks for it
pub open spec fn via_branch(ps: Seq<Seq<char>>) -> Option<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { None } else { match via_branch(ps.drop_last()) { Some(b) => Some(b), None => if at(trim_s(ps.last()), Pat::S(brk()), 0) { Some(trim_s(ps.last()).skip(7)) } else { None } } }
}
/// the topmost Via's branch, if it has one, carries the magic cookie
pub open spec fn via_ok(h: Seq<Header>) -> bool {
    hget_from(h, "Via"@, 0) matches Some(v) ==> (via_branch(fields(v, ';')) matches Some(b) ==> branch_ok(trim_s(b)))
}
pub open spec fn cseq_ok(h: Seq<Header>, m: Method) -> bool { hget_from(h, "CSeq"@, 0) matches Some(v) ==> (cseq_of(v) matches Some(p) && eq_ci(mname(m), p.1)) }
pub open spec fn cseq_fine(h: Seq<Header>) -> bool { hget_from(h, "CSeq"@, 0) matches Some(v) ==> cseq_of(v).is_some() }
/// what a request consists of
pub struct Req { pub m: Method, pub u: Uri, pub h: Seq<Header>, pub b: Seq<u8> }
pub struct Res { pub code: u16, pub why: Seq<char>, pub h: Seq<Header>, pub b: Seq<u8> }
pub open spec fn body_of(d: Seq<u8>, h: Seq<Header>, strict: bool) -> Option<Seq<u8>> { if strict { body_strict(tail_bytes(d), hall_s(h, cln())) } else { body_tol(tail_bytes(d), hall_s(h, cln())) } }
/// first line and headers of these bytes
pub open spec fn head_of(d: Seq<u8>, max: int) -> Option<(Seq<char>, Seq<Header>)> {
    if d.len() > max || utf8(head_bytes(d)).is_none() { None } else {
        let ls = splits(utf8(head_bytes(d)).unwrap(), crlf());
        let first = trim_s(ls[0]);
        if first.len() == 0 { None } else { match hlines(ls.skip(1)) { Some(h) => if singles_ok(h) { Some((first, h)) } else { None }, None => None } }
    }
}
/// the request these bytes are
pub open spec fn request_of(d: Seq<u8>, max: int, strict: bool) -> Option<Req> {
    match head_of(d, max) {
        None => None,
        Some((l, h)) => match (request_line(l), body_of(d, h, strict)) {
            (Some((m, u)), Some(b)) => if via_ok(h) && cseq_ok(h, m) && b.len() <= 10 * 1024 * 1024 { Some(Req { m, u, h, b }) } else { None },
            _ => None,
        },
    }
}
/// the response these bytes are
pub open spec fn response_of(d: Seq<u8>, max: int, strict: bool) -> Option<Res> {
    match head_of(d, max) {
        None => None,
        Some((l, h)) => match (status_line(l), body_of(d, h, strict)) {
            (Some((code, why)), Some(b)) => if cseq_fine(h) && b.len() <= 10 * 1024 * 1024 { Some(Res { code, why, h, b }) } else { None },
            _ => None,
        },
    }
}
pub open spec fn is_req(r: Option<Request>, o: Option<Req>) -> bool {
    match r { Some(q) => req_ok(q) && o == Some(Req { m: q.start.method, u: q.start.uri, h: q.headers.inner@, b: q.body@ }), None => o.is_none() }
}
pub open spec fn is_res(r: Option<Response>, o: Option<Res>) -> bool {
    match r { Some(q) => res_ok(q) && o == Some(Res { code: q.start.code, why: q.start.reason@, h: q.headers.inner@, b: q.body@ }), None => o.is_none() }
}
proof fn texts() ensures crlf().len() == 2, brk().len() == 7 { reveal_strlit("\r\n"); reveal_strlit("branch="); }
proof fn ls_first(s: Seq<char>) ensures splits(s, crlf()).len() >= 1, splits(s, crlf()).skip(0) == splits(s, crlf()), splits(s, crlf()).drop_first() == splits(s, crlf()).skip(1)
{ assert(splits(s, crlf()).skip(0) =~= splits(s, crlf())); assert(splits(s, crlf()).drop_first() =~= splits(s, crlf()).skip(1)); }
//@const DEFAULT_MAX_MESSAGE_SIZE
//@fn parse_request
    ensures is_req(r, request_of(datagram@, 65536, false)),
//@end
//@fn parse_request_strict
    ensures is_req(r, request_of(datagram@, 65536, true)),
//@end
//@fn parse_request_with_limit
@attr #[verifier::spinoff_prover]
    ensures is_req(r, request_of(datagram@, max_size as int, false)),
@entry
    proof { texts(); assert forall|s: Seq<char>| #[trigger] splits(s, crlf()).len() >= 1 && splits(s, crlf()).drop_first() == splits(s, crlf()).skip(1) by { ls_first(s); } assert forall|s: Seq<Seq<char>>, n: int| n == s.len() implies #[trigger] s.take(n) == s by { assert(s.take(n) =~= s); } }
@loop 1
    invariant_except_break f__.is_none(), via_branch(views(ps__@).take(i__ as int)).is_none(),
    invariant 0 <= i__ <= ps__@.len(), views(ps__@) == fields(via@, ';'), views(ps__@).take(ps__@.len() as int) == views(ps__@),
    ensures match f__ { Some(b) => via_branch(fields(via@, ';')) == Some(b@), None => via_branch(fields(via@, ';')).is_none() },
    decreases ps__@.len() - i__,
@loopbody 1
    proof {
        let v = views(ps__@); via_first(v, i__ as int); assert(v.take(i__ as int).len() == i__);
        assert(v.take(i__ + 1).drop_last() =~= v.take(i__ as int)); assert(v.take(i__ + 1).last() == p_at(v, i__ as int)); texts(); via_first(v, i__ + 1);
        assert(v.take(v.len() as int) =~= v);
    }
@afterloop 1
    proof { assert(views(ps__@).take(ps__@.len() as int) =~= views(ps__@)); }
//@end
//@fn parse_request_with_limit_strict
@attr #[verifier::spinoff_prover]
    ensures is_req(r, request_of(datagram@, max_size as int, true)),
@entry
    proof { texts(); assert forall|s: Seq<char>| #[trigger] splits(s, crlf()).len() >= 1 && splits(s, crlf()).drop_first() == splits(s, crlf()).skip(1) by { ls_first(s); } assert forall|s: Seq<Seq<char>>, n: int| n == s.len() implies #[trigger] s.take(n) == s by { assert(s.take(n) =~= s); } }
@loop 1
    invariant_except_break f__.is_none(), via_branch(views(ps__@).take(i__ as int)).is_none(),
    invariant 0 <= i__ <= ps__@.len(), views(ps__@) == fields(via@, ';'), views(ps__@).take(ps__@.len() as int) == views(ps__@),
    ensures match f__ { Some(b) => via_branch(fields(via@, ';')) == Some(b@), None => via_branch(fields(via@, ';')).is_none() },
    decreases ps__@.len() - i__,
@loopbody 1
    proof {
        let v = views(ps__@); via_first(v, i__ as int); assert(v.take(i__ as int).len() == i__);
        assert(v.take(i__ + 1).drop_last() =~= v.take(i__ as int)); assert(v.take(i__ + 1).last() == p_at(v, i__ as int)); texts(); via_first(v, i__ + 1);
        assert(v.take(v.len() as int) =~= v);
    }
@afterloop 1
    proof { assert(views(ps__@).take(ps__@.len() as int) =~= views(ps__@)); }
//@end
//@fn parse_response
@attr #[verifier::spinoff_prover]
    ensures is_res(r, response_of(datagram@, 65536, false)),
@entry
    proof { texts(); assert forall|s: Seq<char>| #[trigger] splits(s, crlf()).len() >= 1 && splits(s, crlf()).drop_first() == splits(s, crlf()).skip(1) by { ls_first(s); } assert forall|s: Seq<Seq<char>>, n: int| n == s.len() implies #[trigger] s.take(n) == s by { assert(s.take(n) =~= s); } }
//@end
//@fn parse_response_strict
@attr #[verifier::spinoff_prover]
    ensures is_res(r, response_of(datagram@, 65536, true)),
@entry
    proof { texts(); assert forall|s: Seq<char>| #[trigger] splits(s, crlf()).len() >= 1 && splits(s, crlf()).drop_first() == splits(s, crlf()).skip(1) by { ls_first(s); } assert forall|s: Seq<Seq<char>>, n: int| n == s.len() implies #[trigger] s.take(n) == s by { assert(s.take(n) =~= s); } }
//@end

pub open spec fn p_at(v: Seq<Seq<char>>, i: int) -> Seq<char> { v[i] }
proof fn via_first(v: Seq<Seq<char>>, i: int)
    requires 0 <= i <= v.len() ensures via_branch(v.take(i)).is_some() ==> via_branch(v) == via_branch(v.take(i)) decreases v.len()
{ if i < v.len() { via_first(v.drop_last(), i); assert(v.drop_last().take(i) =~= v.take(i)); } else { assert(v.take(i) =~= v); } }

// ---- writing ---------------------------------------------------------------------------------------
pub open spec fn is_cl(n: Seq<char>) -> bool { eq_ci(n, cln()) || eq_ci(n, "l"@) }
pub open spec fn mfn() -> Seq<char> { "Max-Forwards"@ }
pub open spec fn cname(n: Seq<char>) -> Seq<char> { if eq_ci(n, "Via"@) { "Via"@ } else if eq_ci(n, "Contact"@) { "Contact"@ } else if eq_ci(n, "Route"@) { "Route"@ } else if eq_ci(n, "Record-Route"@) { "Record-Route"@ } else { n } }
pub open spec fn hl(n: Seq<char>, v: Seq<char>) -> Seq<char> { n + ": "@ + v + crlf() }
/// the header lines written for a request
pub open spec fn qlines(h: Seq<Header>) -> Seq<char> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if is_cl(h.last().name@) { qlines(h.drop_last()) } else { qlines(h.drop_last()) + hl(cname(h.last().name@), trim_s(h.last().value@)) }
}
/// the header lines written for a response
pub open spec fn rlines(h: Seq<Header>) -> Seq<char> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if is_cl(h.last().name@) { rlines(h.drop_last()) } else { rlines(h.drop_last()) + hl(h.last().name@, h.last().value@) }
}
pub open spec fn has_mf(h: Seq<Header>) -> bool decreases h.len() { h.len() > 0 && (has_mf(h.drop_last()) || (!is_cl(h.last().name@) && eq_ci(h.last().name@, mfn()))) }
pub open spec fn end_lines(n: nat) -> Seq<char> { hl(cln(), dtext(n)) + crlf() }
pub open spec fn qfirst(q: Request) -> Seq<char> { mname(q.start.method) + " "@ + utext(q.start.uri) + " "@ + sip20() + crlf() }
pub open spec fn rfirst(q: Response) -> Seq<char> { sip20() + " "@ + dtext(q.start.code as nat) + " "@ + q.start.reason@ + crlf() }
pub open spec fn qtext(q: Request) -> Seq<char> {
    qfirst(q) + qlines(q.headers.inner@) + (if has_mf(q.headers.inner@) { Seq::empty() } else { hl(mfn(), "70"@) }) + end_lines(q.body@.len())
}
pub open spec fn rtext(q: Response) -> Seq<char> { rfirst(q) + rlines(q.headers.inner@) + end_lines(q.body@.len()) }
proof fn wlits()
    ensures crlf() == seq!['\r', '\n'], "\r\n"@ == crlf(), ": "@ == seq![':', ' '], "Content-Length: "@ =~= cln() + ": "@, "Max-Forwards: 70\r\n"@ =~= hl(mfn(), "70"@), ""@ =~= Seq::<char>::empty(), " "@ == seq![' '],
{
    reveal_strlit("\r\n"); reveal_strlit(": "); reveal_strlit("Content-Length: "); reveal_strlit("Content-Length"); reveal_strlit("Max-Forwards"); reveal_strlit("70"); reveal_strlit("Max-Forwards: 70\r\n"); reveal_strlit(""); reveal_strlit(" ");
}
//@rewrite sip_core :: Response ==> Response
//@fn serialize_request
    ensures r@ == encode_utf8(qtext(*req)) + req.body@,
@entry
    proof { wlits(); assert(req.headers.inner@.take(0) =~= Seq::<Header>::empty()); assert(req.headers.inner@.take(req.headers.inner@.len() as int) =~= req.headers.inner@); }
@fmt
@prewrite . body ( ) . as_ref ( ) ==> .body().x_slice()
@afterloop 1
    proof { assert(req.headers.inner@.take(i__ as int) == req.headers.inner@); assert(buf@ =~= qfirst(*req) + qlines(req.headers.inner@)); }
@prewrite let mut out = BytesMut :: with_capacity ( $*x ) ; ==> proof { assert(buf@ =~= qtext(*req)); } let mut out = BytesMut::with_capacity($x);
@loop 1
    invariant 0 <= i__ <= req.headers.inner@.len(), buf@ =~= qfirst(*req) + qlines(req.headers.inner@.take(i__ as int)), has_max_forwards == has_mf(req.headers.inner@.take(i__ as int)),
        ": "@ == seq![':', ' '], "\r\n"@ == crlf(), req.headers.inner@.take(req.headers.inner@.len() as int) == req.headers.inner@,
    decreases req.headers.inner@.len() - i__,
@loopbody 1
    proof { let t = req.headers.inner@.take(i__ + 1); assert(t.drop_last() =~= req.headers.inner@.take(i__ as int)); assert(t.last() == req.headers.inner@[i__ as int]); }
//@end
//@fn serialize_response
    ensures r@ == encode_utf8(rtext(*res)) + res.body@,
@entry
    proof { wlits(); assert(res.headers.inner@.take(0) =~= Seq::<Header>::empty()); assert(res.headers.inner@.take(res.headers.inner@.len() as int) =~= res.headers.inner@); }
@fmt
@prewrite . body ( ) . as_ref ( ) ==> .body().x_slice()
@afterloop 1
    proof { assert(res.headers.inner@.take(i__ as int) == res.headers.inner@); assert(buf@ =~= rfirst(*res) + rlines(res.headers.inner@)); }
@prewrite let mut out = BytesMut :: with_capacity ( $*x ) ; ==> proof { assert(buf@ =~= rtext(*res)); } let mut out = BytesMut::with_capacity($x);
@loop 1
    invariant 0 <= i__ <= res.headers.inner@.len(), buf@ =~= rfirst(*res) + rlines(res.headers.inner@.take(i__ as int)),
        ": "@ == seq![':', ' '], "\r\n"@ == crlf(), res.headers.inner@.take(res.headers.inner@.len() as int) == res.headers.inner@,
    decreases res.headers.inner@.len() - i__,
@loopbody 1
    proof { let t = res.headers.inner@.take(i__ + 1); assert(t.drop_last() =~= res.headers.inner@.take(i__ as int)); assert(t.last() == res.headers.inner@[i__ as int]); }
//@end

// ---- P15 -------------------------------------------------------------------------------------------
pub open spec fn lens_of(h: Seq<Header>) -> Seq<Seq<char>> { hall_s(h, cln()) }
/// strict reading: whatever is accepted has exactly the declared body, nothing more; no length, no body
pub proof fn p15_strict(d: Seq<u8>, h: Seq<Header>, b: Seq<u8>)
    requires body_of(d, h, true) == Some(b)
    ensures b == tail_bytes(d),
        forall|i: int| 0 <= i < lens_of(h).len() ==> cl_of(#[trigger] lens_of(h)[i]) == CL::Len(b.len()),
        lens_of(h).len() == 0 ==> b.len() == 0,
{ let vs = lens_of(h); first_len_is(vs); if first_len(vs).is_none() && vs.len() > 0 { assert(cl_of(vs[0]) matches CL::Len(_)); } }
/// tolerant reading: the body is the first N octets after the blank line where N is what every readable length says; a length too large is refused
pub proof fn p15_tolerant(d: Seq<u8>, h: Seq<Header>, b: Seq<u8>)
    requires body_of(d, h, false) == Some(b)
    ensures b.len() <= tail_bytes(d).len(), b == tail_bytes(d).take(b.len() as int),
        forall|i: int| 0 <= i < lens_of(h).len() ==> !(cl_of(#[trigger] lens_of(h)[i]) matches CL::Oversized),
        forall|i: int| 0 <= i < lens_of(h).len() ==> (cl_of(#[trigger] lens_of(h)[i]) matches CL::Len(n) ==> n == b.len()),
        (forall|i: int| 0 <= i < lens_of(h).len() ==> cl_of(#[trigger] lens_of(h)[i]) == CL::Invalid) ==> b == tail_bytes(d),
{ let vs = lens_of(h); first_len_is(vs); let t = tail_bytes(d); assert(t.take(t.len() as int) =~= t);
  if first_len(vs).is_some() { assert(all_len(vs, first_len(vs).unwrap())); } }
/// an accepted request: within the size limit, UTF-8 head, a first line that is one, headers that are, and the body above
pub proof fn p15_request(d: Seq<u8>, max: int, strict: bool, r: Req)
    requires request_of(d, max, strict) == Some(r)
    ensures d.len() <= max, utf8(head_bytes(d)).is_some(), ({ let ls = splits(utf8(head_bytes(d)).unwrap(), crlf());
            request_line(trim_s(ls[0])) == Some((r.m, r.u)) && hlines(ls.skip(1)) == Some(r.h) }),
        r.h.len() <= 200, singles_ok(r.h), cseq_ok(r.h, r.m), via_ok(r.h), body_of(d, r.h, strict) == Some(r.b),
{ let ls = splits(utf8(head_bytes(d)).unwrap(), crlf()); hlines_len(ls.skip(1)); }
pub proof fn p15_response(d: Seq<u8>, max: int, strict: bool, r: Res)
    requires response_of(d, max, strict) == Some(r)
    ensures d.len() <= max, utf8(head_bytes(d)).is_some(), ({ let ls = splits(utf8(head_bytes(d)).unwrap(), crlf());
            status_line(trim_s(ls[0])) == Some((r.code, r.why)) && hlines(ls.skip(1)) == Some(r.h) }),
        r.h.len() <= 200, singles_ok(r.h), cseq_fine(r.h), body_of(d, r.h, strict) == Some(r.b),
{ let ls = splits(utf8(head_bytes(d)).unwrap(), crlf()); hlines_len(ls.skip(1)); }
/// every header of an accepted message stands on a line of its own, with an acceptable name and value
pub proof fn hlines_len(ls: Seq<Seq<char>>)
    ensures hlines(ls) matches Some(h) ==> h.len() <= 200 && forall|i: int| 0 <= i < h.len() ==> line_of(ls, #[trigger] h[i])
    decreases ls.len()
{
    if ls.len() > 0 {
        hlines_len(ls.drop_last());
        if let Some(h) = hlines(ls) {
            let h0 = hlines(ls.drop_last()).unwrap();
            assert forall|i: int| 0 <= i < h.len() implies line_of(ls, #[trigger] h[i]) by {
                if i < h0.len() { assert(line_of(ls.drop_last(), h0[i])); let j = choose|j: int| 0 <= j < ls.len() - 1 && hline(#[trigger] ls.drop_last()[j]) == Some(h0[i]); assert(hline(ls[j]) == Some(h[i])); }
                else { assert(hline(ls[ls.len() - 1]) == Some(h[i])); }
            }
        }
    }
}
pub open spec fn line_of(ls: Seq<Seq<char>>, x: Header) -> bool { exists|j: int| 0 <= j < ls.len() && hline(#[trigger] ls[j]) == Some(x) }
}
/// P17: reading what was written gives the message back
pub mod rt {
use super::*;
use super::pp::*;
use vstd::utf8::*;
pub open spec fn no13(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 13 }
proof fn scal(c: char) requires c != '\r' ensures no13(encode_scalar(c as u32)), encode_scalar(c as u32).len() >= 1
{
    let v = c as u32;
    assert(v != 13);
    assert(v <= 0x7f ==> (v & 0x7f) as u8 != 13) by (bit_vector) requires v != 13;
    assert(forall|x: u8| #![auto] (0x80u8 | x) != 13 && (0xC0u8 | x) != 13 && (0xE0u8 | x) != 13 && (0xF0u8 | x) != 13) by (bit_vector);
}
proof fn enc_line(s: Seq<char>)
    requires is_line(s)
    ensures no13(encode_utf8(s)), s.len() > 0 ==> encode_utf8(s).len() > 0, s.len() == 0 ==> encode_utf8(s).len() == 0
    decreases s.len()
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) != '\r' && t[i] != '\n' by { assert(t[i] == s[i + 1]); }
        enc_line(t); scal(s[0]);
        assert(encode_utf8(s) =~= encode_scalar(s[0] as u32) + encode_utf8(t));
    }
}
proof fn enc_crlf() ensures encode_utf8(crlf()) == seq![13u8, 10], crlf() == seq!['\r', '\n'], crlf().len() == 2
{
    reveal_strlit("\r\n"); assert(crlf() =~= seq!['\r', '\n']);
    reveal_with_fuel(encode_utf8, 3);
    assert((13u32 & 0x7f) as u8 == 13 && (10u32 & 0x7f) as u8 == 10) by (bit_vector);
    assert(crlf().drop_first() =~= seq!['\n']); assert(crlf().drop_first().drop_first() =~= Seq::empty());
    assert(encode_utf8(crlf()) =~= seq![13u8, 10]);
}
/// lines, each ended by a line break
pub open spec fn jt(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { ls[0] + crlf() + jt(ls.drop_first()) } }
pub open spec fn good(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> is_line(#[trigger] ls[i]) && ls[i].len() > 0 }
proof fn good_rest(ls: Seq<Seq<char>>) requires good(ls), ls.len() > 0 ensures good(ls.drop_first()), is_line(ls[0]), ls[0].len() > 0
{ let t = ls.drop_first(); assert forall|i: int| 0 <= i < t.len() implies is_line(#[trigger] t[i]) && t[i].len() > 0 by { assert(t[i] == ls[i + 1]); } }
/// the blank line found is the one after the last line
proof fn head_end(ls: Seq<Seq<char>>, b: Seq<u8>)
    requires good(ls), ls.len() > 0
    ensures ({ let e = encode_utf8(jt(ls)); let d = e + seq![13u8, 10] + b; e.len() >= 2 && bfirst(d, crlf2(), e.len() - 2) && e.subrange(e.len() - 2, e.len() as int) == seq![13u8, 10] && (e.len() > 0 && e[0] != 13) })
    decreases ls.len()
{
    let e = encode_utf8(jt(ls)); let d = e + seq![13u8, 10] + b;
    let t = ls.drop_first();
    let e0 = encode_utf8(ls[0]); let e1 = encode_utf8(jt(t));
    good_rest(ls); enc_line(ls[0]); enc_crlf();
    encode_utf8_concat(ls[0] + crlf(), jt(t)); encode_utf8_concat(ls[0], crlf());
    assert(e =~= e0 + seq![13u8, 10] + e1);
    let n = e0.len() as int;
    let d1 = e1 + seq![13u8, 10] + b;
    assert(d =~= e0 + seq![13u8, 10] + d1);
    let p = e.len() - 2;
    if t.len() == 0 {
        reveal_with_fuel(encode_utf8, 2);
        assert(jt(t).len() == 0); assert(e1.len() == 0); assert(p == n);
        assert(d.subrange(p, p + 4) =~= crlf2());
    } else {
        head_end(t, b);
        assert(d.subrange(p, p + 4) =~= d1.subrange(e1.len() - 2, e1.len() as int + 2)); 
        assert(e.subrange(p, e.len() as int) =~= e1.subrange(e1.len() - 2, e1.len() as int));
    }
    assert(e.subrange(p, e.len() as int) =~= seq![13u8, 10]);
    assert(e[0] == e0[0]);
    assert forall|j: int| 0 <= j < p implies !#[trigger] bat(d, crlf2(), j) by {
        let s = d.subrange(j, j + 4);
        if bat(d, crlf2(), j) {
            assert(s[0] == 13 && s[2] == 13); assert(d[j] == s[0] && d[j + 2] == s[2]);
            if j < n { assert(d[j] == e0[j]); }
            else if j == n { assert(t.len() > 0); assert(d[j + 2] == e1[0]); }
            else if j == n + 1 { assert(d[j] == 10); }
            else { assert(d1.subrange(j - n - 2, j - n + 2) =~= s); assert(bat(d1, crlf2(), j - n - 2)); }
        }
    }
}
/// lines, with line breaks in between
pub open spec fn jn(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else if ls.len() == 1 { ls[0] } else { ls[0] + crlf() + jn(ls.drop_first()) } }
proof fn jn_jt(ls: Seq<Seq<char>>) requires ls.len() > 0 ensures jt(ls) == jn(ls) + crlf() decreases ls.len()
{
    let t = ls.drop_first();
    if t.len() > 0 { jn_jt(t); } else { assert(jt(t) =~= Seq::empty()); }
    assert(jt(ls) =~= jn(ls) + crlf());
}
proof fn split_at(s: Seq<char>, n: int)
    requires first(s, Pat::S(crlf()), n)
    ensures splits(s, crlf()) == seq![s.take(n)] + splits(s.skip(n + 2), crlf())
{ enc_crlf(); first_is(s, Pat::S(crlf()), n); reveal_with_fuel(splits, 2); }
proof fn split_none(s: Seq<char>) requires is_line(s) ensures splits(s, crlf()) == seq![s]
{
    enc_crlf(); let p = Pat::S(crlf());
    assert forall|j: int| !#[trigger] at(s, p, j) by { if at(s, p, j) { assert(s.subrange(j, j + 2)[0] == '\r'); assert(s[j] == '\r'); } }
    assert(!occ(s, p));
}
proof fn split_back(ls: Seq<Seq<char>>)
    requires good(ls), ls.len() > 0
    ensures splits(jn(ls), crlf()) == ls
    decreases ls.len()
{
    hide(splits); enc_crlf(); good_rest(ls); reveal_with_fuel(jn, 2);
    let s = jn(ls); let p = Pat::S(crlf()); let t = ls.drop_first(); let n = ls[0].len() as int;
    if ls.len() == 1 { split_none(s); assert(ls =~= seq![s]); }
    else {
        assert(s == ls[0] + crlf() + jn(t));
        assert forall|j: int| 0 <= j < n implies !#[trigger] at(s, p, j) by { if at(s, p, j) { assert(s.subrange(j, j + 2)[0] == '\r'); assert(s[j] == ls[0][j]); } }
        assert(s.subrange(n, n + 2) =~= crlf());
        assert(at(s, p, n));
        split_at(s, n);
        assert(s.take(n) =~= ls[0]);
        assert(s.skip(n + 2) =~= jn(t));
        split_back(t);
        assert(ls =~= seq![ls[0]] + t);
    }
}
pub proof fn framed(ls: Seq<Seq<char>>, b: Seq<u8>)
    requires good(ls), ls.len() > 0
    ensures ({ let d = encode_utf8(jt(ls) + crlf()) + b; utf8(head_bytes(d)) == Some(jn(ls)) && splits(jn(ls), crlf()) == ls && tail_bytes(d) == b })
{
    let e = encode_utf8(jt(ls)); let d = encode_utf8(jt(ls) + crlf()) + b;
    enc_crlf(); encode_utf8_concat(jt(ls), crlf());
    assert(d =~= e + seq![13u8, 10] + b);
    head_end(ls, b); bfirst_is(d, crlf2(), e.len() - 2);
    jn_jt(ls); encode_utf8_concat(jn(ls), crlf());
    let h = encode_utf8(jn(ls));
    assert(e =~= h + seq![13u8, 10]);
    assert(head_bytes(d) =~= h);
    assert(tail_bytes(d) =~= b);
    utf8_of(jn(ls));
    split_back(ls);
}
proof fn utf8_of(t: Seq<char>) ensures utf8(encode_utf8(t)) == Some(t)
{
    let b = encode_utf8(t);
    let u = choose|u: Seq<char>| #[trigger] encode_utf8(u) == b;
    encode_utf8_decode_utf8(t); encode_utf8_decode_utf8(u);
}

// ---- trimming ----
/// no blank at either end
pub open spec fn tight(s: Seq<char>) -> bool { s.len() == 0 || (!is_ws(s[0]) && !is_ws(s.last())) }
pub proof fn trim_tight(s: Seq<char>) requires tight(s) ensures trim_s(s) == s { if s.len() > 0 { assert(trim_l(s) == s); } }
proof fn trim_l_first(s: Seq<char>) ensures trim_l(s).len() == 0 || !is_ws(trim_l(s)[0]), trim_l(s).len() <= s.len(), trim_l(s).len() > 0 ==> trim_l(s).last() == s.last() decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { trim_l_first(s.drop_first()); } }
proof fn trim_r_tight(s: Seq<char>) requires s.len() == 0 || !is_ws(s[0]) ensures tight(trim_r(s)), trim_r(s).len() <= s.len(), trim_r(s).len() > 0 ==> trim_r(s)[0] == s[0] decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { trim_r_tight(s.drop_last()); } }
pub proof fn trim_is_tight(s: Seq<char>) ensures tight(trim_s(s)) { trim_l_first(s); trim_r_tight(trim_l(s)); }
/// one blank in front
proof fn trim_sp(s: Seq<char>) requires tight(s) ensures trim_s(" "@ + s) == s
{ broadcast use sx::ws_ascii; reveal_strlit(" "); let t = " "@ + s; assert(t.drop_first() =~= s); assert(trim_l(t) == trim_l(s)); trim_tight(s); if s.len() > 0 { assert(trim_l(s) == s); } }
/// ... or behind
proof fn trim_end_sp(s: Seq<char>) requires tight(s), s.len() > 0 ensures trim_s(s + " "@) == s
{ broadcast use sx::ws_ascii; reveal_strlit(" "); let t = s + " "@; assert(t.drop_last() =~= s); assert(t[0] == s[0]); assert(trim_l(t) == t); assert(trim_r(t) == trim_r(s)); assert(trim_r(s) == s); }
// ---- names ----
proof fn tok_tight(s: Seq<char>) requires is_token(s) ensures tight(s), is_line(s), trim_s(s) == s
{ broadcast use sx::ws_ascii; assert(tokc(s[0])); assert(tokc(s.last())); trim_tight(s); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != '\r' && s[i] != '\n' by { assert(tokc(s[i])); } }
pub proof fn ci_len(a: Seq<char>, b: Seq<char>) ensures eq_ci(a, b) ==> a.len() == b.len() { if eq_ci(a, b) { assert(lower(a).len() == lower(b).len()); } }
proof fn lit_lens()
    ensures "Via"@.len() == 3, "Contact"@.len() == 7, "Route"@.len() == 5, "Record-Route"@.len() == 12, cln().len() == 14, mfn().len() == 12, "l"@.len() == 1,
        "Call-ID"@.len() == 7, "CSeq"@.len() == 4, "From"@.len() == 4, "To"@.len() == 2,
        name_ok("Via"@), name_ok("Contact"@), name_ok("Route"@), name_ok("Record-Route"@), name_ok(cln()), name_ok(mfn()),
        !eq_ci("Via"@, cln()), !eq_ci("Record-Route"@, mfn()), !eq_ci("Contact"@, "Call-ID"@),
{
    reveal_strlit("Via"); reveal_strlit("Contact"); reveal_strlit("Route"); reveal_strlit("Record-Route"); reveal_strlit("Content-Length"); reveal_strlit("Max-Forwards"); reveal_strlit("l"); reveal_strlit("Call-ID"); reveal_strlit("CSeq"); reveal_strlit("From"); reveal_strlit("To");
    sl::blen_ascii("Via"@); sl::blen_ascii("Contact"@); sl::blen_ascii("Route"@); sl::blen_ascii("Record-Route"@); sl::blen_ascii(cln()); sl::blen_ascii(mfn());
    ci_len("Via"@, cln());
    assert(lower("Record-Route"@)[2] == 'c' && lower(mfn())[2] == 'x');
    assert(lower("Contact"@)[1] == 'o' && lower("Call-ID"@)[1] == 'a');
}
proof fn canon_long(n: Seq<char>) requires n.len() > 1 ensures canon(n) == n
{
    reveal_strlit("i"); reveal_strlit("f"); reveal_strlit("t"); reveal_strlit("m"); reveal_strlit("l"); reveal_strlit("s"); reveal_strlit("k"); reveal_strlit("o"); reveal_strlit("e"); reveal_strlit("c"); reveal_strlit("v"); reveal_strlit("r"); reveal_strlit("b"); reveal_strlit("d"); reveal_strlit("x"); reveal_strlit("a"); reveal_strlit("u");
    assert(lower(n).len() == n.len());
}
// ---- header lines ----
pub open spec fn cn(q: bool, n: Seq<char>) -> Seq<char> { if q { cname(n) } else { n } }
pub open spec fn lt(n: Seq<char>, v: Seq<char>) -> Seq<char> { n + ": "@ + v }
/// a header the parsers can have made: acceptable, its name written out, its value trimmed
pub open spec fn norm(h: Header) -> bool { name_ok(h.name@) && canon(h.name@) == h.name@ && val_ok(h.value@) && trim_s(h.value@) == h.value@ }
pub open spec fn norms(h: Seq<Header>) -> bool { forall|i: int| 0 <= i < h.len() ==> norm(#[trigger] h[i]) }
/// the lines written for these headers, and what they are read back as
pub open spec fn nls(h: Seq<Header>, q: bool) -> Seq<Seq<char>> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if is_cl(h.last().name@) { nls(h.drop_last(), q) } else { nls(h.drop_last(), q).push(lt(cn(q, h.last().name@), h.last().value@)) }
}
pub open spec fn nhs(h: Seq<Header>, q: bool) -> Seq<Header> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if is_cl(h.last().name@) { nhs(h.drop_last(), q) } else { nhs(h.drop_last(), q).push(mkh(cn(q, h.last().name@), h.last().value@)) }
}
proof fn norms_rest(h: Seq<Header>) requires norms(h), h.len() > 0 ensures norms(h.drop_last()), norm(h.last())
{ let t = h.drop_last(); assert forall|i: int| 0 <= i < t.len() implies norm(#[trigger] t[i]) by { assert(t[i] == h[i]); } }
proof fn cname_norm(n: Seq<char>) requires name_ok(n), canon(n) == n ensures name_ok(cname(n)), canon(cname(n)) == cname(n), eq_ci(cname(n), n), is_cl(cname(n)) == is_cl(n), cname(cname(n)) == cname(n)
{ lit_lens(); canon_long("Via"@); canon_long("Contact"@); canon_long("Route"@); canon_long("Record-Route"@); }
proof fn mkh_views(n: Seq<char>, v: Seq<char>) requires name_ok(n), val_ok(v) ensures mkh(n, v).name@ == n, mkh(n, v).value@ == v
{ smol_any(n); smol_any(v); }
/// a written header line is read as that header
proof fn line_back(n: Seq<char>, v: Seq<char>)
    requires name_ok(n), canon(n) == n, val_ok(v), trim_s(v) == v
    ensures hline(lt(n, v)) == Some(mkh(n, v)), is_line(lt(n, v)), lt(n, v).len() > 0
{
    broadcast use sx::ws_ascii;
    reveal_strlit(": "); reveal_strlit(" ");
    let l = lt(n, v); let k = n.len() as int; let p = Pat::C(':');
    tok_tight(n); trim_is_tight(v); trim_sp(v);
    assert(tokc(n[0])); assert(l[0] == n[0]);
    assert forall|j: int| 0 <= j < k implies !#[trigger] at(l, p, j) by { assert(tokc(n[j])); assert(l[j] == n[j]); }
    assert(l[k] == ':'); assert(at(l, p, k)); assert(first(l, p, k)); first_is(l, p, k);
    assert(l.take(k) =~= n); assert(l.skip(k + 1) =~= " "@ + v);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) != '\r' && l[i] != '\n' by { if i < k { assert(n[i] == l[i]); } else if i >= k + 2 { assert(v[i - k - 2] == l[i]); } }
}
proof fn lines_back(h: Seq<Header>, q: bool)
    requires norms(h), h.len() <= 200
    ensures good(nls(h, q)), hlines(nls(h, q)) == Some(nhs(h, q)), nhs(h, q).len() <= h.len(), nhs(h, q).len() == nls(h, q).len()
    decreases h.len()
{
    if h.len() > 0 {
        norms_rest(h); lines_back(h.drop_last(), q);
        if !is_cl(h.last().name@) {
            cname_norm(h.last().name@);
            line_push(nls(h.drop_last(), q), nhs(h.drop_last(), q), cn(q, h.last().name@), h.last().value@);
        }
    }
}
proof fn line_push(ls: Seq<Seq<char>>, hs: Seq<Header>, n: Seq<char>, v: Seq<char>)
    requires good(ls), hlines(ls) == Some(hs), hs.len() < 200, name_ok(n), canon(n) == n, val_ok(v), trim_s(v) == v
    ensures good(ls.push(lt(n, v))), hlines(ls.push(lt(n, v))) == Some(hs.push(mkh(n, v)))
{
    line_back(n, v);
    let m = ls.push(lt(n, v));
    assert(m.drop_last() =~= ls); assert(m.last() == lt(n, v));
    assert forall|i: int| 0 <= i < m.len() implies is_line(#[trigger] m[i]) && m[i].len() > 0 by { if i < ls.len() { assert(ls[i] == m[i]); } }
}
proof fn jt_push(ls: Seq<Seq<char>>, l: Seq<char>) ensures jt(ls.push(l)) == jt(ls) + l + crlf() decreases ls.len()
{
    let m = ls.push(l);
    if ls.len() == 0 { assert(m.drop_first() =~= Seq::empty()); assert(jt(m.drop_first()) =~= Seq::empty()); assert(jt(m) =~= jt(ls) + l + crlf()); }
    else { assert(m.drop_first() =~= ls.drop_first().push(l)); jt_push(ls.drop_first(), l); assert(jt(m) =~= jt(ls) + l + crlf()); }
}

// ---- what is found in the headers read back ----
pub open spec fn not_cl(m: Seq<char>) -> bool { m.len() != 14 && m.len() != 1 }
proof fn ci_cname(x: Seq<char>, m: Seq<char>) ensures eq_ci(cname(x), m) == eq_ci(x, m) {}
proof fn nhs_all(h: Seq<Header>, q: bool, m: Seq<char>)
    requires norms(h), not_cl(m) ensures hall_s(nhs(h, q), m) == hall_s(h, m), forall|i: int| 0 <= i < nhs(h, q).len() ==> !is_cl((#[trigger] nhs(h, q)[i]).name@) decreases h.len()
{
    if h.len() > 0 {
        let t = h.drop_last(); let x = h.last();
        norms_rest(h); nhs_all(t, q, m); lit_lens();
        ci_len(x.name@, m); ci_len(x.name@, cln()); ci_len(x.name@, "l"@);
        if !is_cl(x.name@) { let n = cn(q, x.name@); cname_norm(x.name@); ci_cname(x.name@, m); mkh_views(n, x.value@); hall_push(nhs(t, q), mkh(n, x.value@), m); }
    }
}
proof fn hall_push(a: Seq<Header>, x: Header, m: Seq<char>) ensures hall_s(a.push(x), m) == (if eq_ci(x.name@, m) { hall_s(a, m).push(x.value@) } else { hall_s(a, m) })
{ assert(a.push(x).drop_last() =~= a); }
proof fn no_cl(h: Seq<Header>) requires forall|i: int| 0 <= i < h.len() ==> !is_cl((#[trigger] h[i]).name@) ensures hall_s(h, cln()) == Seq::<Seq<char>>::empty() decreases h.len()
{ if h.len() > 0 { let t = h.drop_last(); assert forall|i: int| 0 <= i < t.len() implies !is_cl((#[trigger] t[i]).name@) by { assert(t[i] == h[i]); } no_cl(t); assert(!is_cl(h[h.len() - 1].name@)); } }
proof fn mf_all(h: Seq<Header>) ensures has_mf(h) == (hall_s(h, mfn()).len() > 0) decreases h.len()
{ if h.len() > 0 { mf_all(h.drop_last()); lit_lens(); ci_len(h.last().name@, mfn()); ci_len(h.last().name@, cln()); ci_len(h.last().name@, "l"@); } }
/// the headers read back: those written, the hop limit if there was none, the length
pub open spec fn fh(h: Seq<Header>, n: nat, q: bool) -> Seq<Header> {
    let a = nhs(h, q);
    (if q && !has_mf(h) { a.push(mkh(mfn(), "70"@)) } else { a }).push(mkh(cln(), dtext(n)))
}
pub open spec fn fl(h: Seq<Header>, n: nat, q: bool) -> Seq<Seq<char>> {
    let a = nls(h, q);
    (if q && !has_mf(h) { a.push(lt(mfn(), "70"@)) } else { a }).push(lt(cln(), dtext(n)))
}
proof fn digits_val(n: nat) requires n <= 64 * 1024 * 1024 ensures val_ok(dtext(n)), tight(dtext(n)), trim_s(dtext(n)) == dtext(n), cl_of(dtext(n)) == CL::Len(n), is_line(dtext(n))
{
    broadcast use sx::ws_ascii;
    dtext_dec(n); let s = dtext(n);
    assert(is_digit(s[0])); assert(is_digit(s.last())); trim_tight(s);
    short_digits(n);
    sl::blen_ascii(s);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != '\r' && s[i] != '\n' && s[i] != '\0' by { assert(is_digit(s[i])); }
}
proof fn short_digits(n: nat) requires n <= 64 * 1024 * 1024 ensures dtext(n).len() <= 8 { reveal_with_fuel(pow10, 10); dtext_len(n, 8, 100_000_000); }
proof fn extras() ensures mkh(mfn(), "70"@).name@ == mfn(), mkh(mfn(), "70"@).value@ == "70"@, name_ok(mfn()), canon(mfn()) == mfn(), val_ok("70"@), trim_s("70"@) == "70"@, name_ok(cln()), canon(cln()) == cln(), is_line("70"@)
{ broadcast use sx::ws_ascii; lit_lens(); canon_long(mfn()); canon_long(cln()); reveal_strlit("70"); sl::blen_ascii("70"@); trim_tight("70"@); mkh_views(mfn(), "70"@); }
proof fn full_back(h: Seq<Header>, n: nat, q: bool)
    requires norms(h), h.len() <= 198, n <= 64 * 1024 * 1024
    ensures good(fl(h, n, q)), hlines(fl(h, n, q)) == Some(fh(h, n, q)),
        hall_s(fh(h, n, q), cln()) == seq![dtext(n)],
        hall_s(fh(h, n, q), mfn()).len() <= (if hall_s(h, mfn()).len() > 1 { hall_s(h, mfn()).len() } else { 1 }),
        forall|m: Seq<char>| not_cl(m) && !eq_ci(mfn(), m) ==> #[trigger] hall_s(fh(h, n, q), m) == hall_s(h, m),
        mkh(cln(), dtext(n)).name@ == cln(), mkh(cln(), dtext(n)).value@ == dtext(n),
{
    lines_back(h, q); extras(); digits_val(n); mkh_views(cln(), dtext(n)); lit_lens();
    let a = nhs(h, q); let l = nls(h, q);
    let mf = mkh(mfn(), "70"@); let c = mkh(cln(), dtext(n));
    let a1 = if q && !has_mf(h) { a.push(mf) } else { a };
    let l1 = if q && !has_mf(h) { l.push(lt(mfn(), "70"@)) } else { l };
    if q && !has_mf(h) { line_push(l, a, mfn(), "70"@); }
    line_push(l1, a1, cln(), dtext(n));
    ci_len(mfn(), cln()); ci_len(cln(), mfn());
    nhs_all(h, q, mfn()); no_cl(a); mf_all(h);
    hall_push(a, mf, cln()); hall_push(a1, c, cln()); hall_push(a, mf, mfn()); hall_push(a1, c, mfn());
    assert(hall_s(fh(h, n, q), cln()) =~= seq![dtext(n)]);
    assert forall|m: Seq<char>| not_cl(m) && !eq_ci(mfn(), m) implies #[trigger] hall_s(fh(h, n, q), m) == hall_s(h, m) by {
        nhs_all(h, q, m); hall_push(a, mf, m); hall_push(a1, c, m); ci_len(cln(), m);
    }
}
proof fn checks_back(h: Seq<Header>, n: nat, q: bool)
    requires norms(h), h.len() <= 198, n <= 64 * 1024 * 1024
    ensures singles_ok(h) ==> singles_ok(fh(h, n, q)), via_ok(h) ==> via_ok(fh(h, n, q)), forall|m: Method| cseq_ok(h, m) ==> #[trigger] cseq_ok(fh(h, n, q), m), cseq_fine(h) ==> cseq_fine(fh(h, n, q)),
{
    full_back(h, n, q); lit_lens(); let f = fh(h, n, q);
    ci_len(mfn(), "Via"@); ci_len(mfn(), "CSeq"@); ci_len(mfn(), "Call-ID"@); ci_len(mfn(), "From"@); ci_len(mfn(), "To"@);
    thm_get_is_first(f, "Via"@); thm_get_is_first(h, "Via"@); thm_get_is_first(f, "CSeq"@); thm_get_is_first(h, "CSeq"@);
    assert(hall_s(f, "Via"@) == hall_s(h, "Via"@)); assert(hall_s(f, "CSeq"@) == hall_s(h, "CSeq"@));
    assert(hall_s(f, "Call-ID"@) == hall_s(h, "Call-ID"@)); assert(hall_s(f, "From"@) == hall_s(h, "From"@)); assert(hall_s(f, "To"@) == hall_s(h, "To"@));
    if singles_ok(h) {
        assert(singles()[0] == "Call-ID"@ && singles()[1] == "CSeq"@ && singles()[2] == "From"@ && singles()[3] == "To"@ && singles()[4] == "Max-Forwards"@);
        assert(hall_s(h, singles()[4]).len() <= 1); assert(hall_s(h, singles()[0]).len() <= 1); assert(hall_s(h, singles()[1]).len() <= 1); assert(hall_s(h, singles()[2]).len() <= 1); assert(hall_s(h, singles()[3]).len() <= 1);
        assert forall|i: int| 0 <= i < 5 implies hall_s(f, #[trigger] singles()[i]).len() <= 1 by {}
    }
}
proof fn body_back(b: Seq<u8>, strict: bool)
    requires b.len() <= 64 * 1024 * 1024
    ensures (if strict { body_strict(b, seq![dtext(b.len())]) } else { body_tol(b, seq![dtext(b.len())]) }) == Some(b)
{ let vs = seq![dtext(b.len())]; digits_val(b.len()); len_ends(vs); assert(b.take(b.len() as int) =~= b); assert(vs[0] == dtext(b.len())); }
/// the text written, line by line
proof fn jt_lines(h: Seq<Header>, q: bool) requires norms(h) ensures jt(nls(h, q)) == (if q { qlines(h) } else { rlines(h) }) decreases h.len()
{ if h.len() > 0 { norms_rest(h); jt_lines(h.drop_last(), q); if !is_cl(h.last().name@) { let l = lt(cn(q, h.last().name@), h.last().value@); jt_push(nls(h.drop_last(), q), l); assert(jt(nls(h, q)) =~= jt(nls(h.drop_last(), q)) + (l + crlf())); } } }
proof fn jt_full(h: Seq<Header>, n: nat, q: bool)
    requires norms(h)
    ensures jt(fl(h, n, q)) + crlf() == (if q { qlines(h) + (if has_mf(h) { Seq::empty() } else { hl(mfn(), "70"@) }) } else { rlines(h) }) + end_lines(n)
{
    jt_lines(h, q); let l = nls(h, q);
    let a = lt(mfn(), "70"@); let l1 = if q && !has_mf(h) { l.push(a) } else { l };
    jt_push(l, a); jt_push(l1, lt(cln(), dtext(n)));
    assert(a + crlf() =~= hl(mfn(), "70"@)); assert(lt(cln(), dtext(n)) + crlf() =~= hl(cln(), dtext(n)));
    assert(jt(fl(h, n, q)) + crlf() =~= (if q { qlines(h) + (if has_mf(h) { Seq::empty() } else { hl(mfn(), "70"@) }) } else { rlines(h) }) + end_lines(n));
}
/// a first line and header lines
proof fn whole(f: Seq<char>, h: Seq<Header>, n: nat, q: bool, b: Seq<u8>)
    requires norms(h), h.len() <= 198, n <= 64 * 1024 * 1024, is_line(f), f.len() > 0
    ensures ({ let ls = seq![f] + fl(h, n, q); let d = encode_utf8(f + crlf() + jt(fl(h, n, q)) + crlf()) + b;
        utf8(head_bytes(d)) == Some(jn(ls)) && splits(jn(ls), crlf()) == ls && ls[0] == f && ls.skip(1) == fl(h, n, q) && tail_bytes(d) == b })
{
    full_back(h, n, q); let k = fl(h, n, q); let ls = seq![f] + k;
    assert forall|i: int| 0 <= i < ls.len() implies is_line(#[trigger] ls[i]) && ls[i].len() > 0 by { if i > 0 { assert(ls[i] == k[i - 1]); } }
    assert(ls.drop_first() =~= k); assert(ls.skip(1) =~= k);
    assert(jt(ls) + crlf() =~= f + crlf() + jt(k) + crlf());
    framed(ls, b);
}
proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
// ---- requests ----
/// what can be sent and read: acceptable headers, a method and a URI that read back as themselves
pub open spec fn sendable(q: Request) -> bool {
    let h = q.headers.inner@; let m = q.start.method; let u = q.start.uri;
    &&& norms(h) && h.len() <= 198 && singles_ok(h) && cseq_ok(h, m) && via_ok(h) && q.body@.len() <= 10 * 1024 * 1024
    &&& is_token(mname(m)) && meth(mname(m)) == Some(m)
    &&& uri_fine(u)
}
/// the text of the URI is one word and reads back as the URI
pub open spec fn uri_fine(u: Uri) -> bool { uri_of(utext(u)) == Some(u) && utext(u).len() > 0 && forall|i: int| 0 <= i < utext(u).len() ==> !is_ws(#[trigger] utext(u)[i]) }
proof fn reqline_back(m: Method, u: Uri)
    requires is_token(mname(m)), meth(mname(m)) == Some(m), uri_fine(u)
    ensures ({ let f = mname(m) + " "@ + utext(u) + " "@ + sip20(); is_line(f) && f.len() > 0 && trim_s(f) == f && request_line(f) == Some((m, u)) })
{
    broadcast use sx::ws_ascii;
    reveal_strlit(" "); reveal_strlit("SIP/2.0");
    let a = mname(m); let b = utext(u); let v = sip20();
    let f = a + " "@ + b + " "@ + v;
    assert(tokc(a[0])); assert(f[0] == a[0]); assert(f.last() == v.last()); assert(v.last() == '0'); trim_tight(f);
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) != '\r' && f[i] != '\n' by {
        if i < a.len() { assert(tokc(a[i])); } else if a.len() < i && i < a.len() + 1 + b.len() { let j = i - a.len() - 1; assert(!is_ws(b[j])); assert(f[i] == b[j]); } else if i >= a.len() + b.len() + 2 { assert(f[i] == v[i - a.len() - b.len() - 2]); }
    }
    let na = a.len() as int; let nb = b.len() as int;
    assert forall|i: int| 0 <= i < na implies mtokf()(#[trigger] f[i]) by { assert(tokc(a[i])); assert(f[i] == a[i]); }
    assert(f[na] == ' '); run_is(f, mtokf(), na);
    let s1 = f.skip(na); assert(s1[0] == ' '); assert(s1[1] == b[0]); assert(!is_ws(b[0])); run_is(s1, spf(), 1);
    let s2 = s1.skip(1);
    assert forall|i: int| 0 <= i < nb implies urcf()(#[trigger] s2[i]) by { assert(s2[i] == b[i]); }
    assert(s2[nb] == ' '); run_is(s2, urcf(), nb);
    let s3 = s2.skip(nb); assert(s3[0] == ' '); assert(s3[1] == 'S'); run_is(s3, spf(), 1);
    assert(s3.skip(1) =~= v);
    assert(f.take(na) =~= a); assert(s2.take(nb) =~= b);
}
/// P17, requests: reading what was written gives the method, the URI, the headers (normalised) and the body
pub proof fn p17_request(q: Request, max: int, strict: bool)
    requires sendable(q), encode_utf8(qtext(q)).len() + q.body@.len() <= max
    ensures request_of(encode_utf8(qtext(q)) + q.body@, max, strict) == Some(Req { m: q.start.method, u: q.start.uri, h: fh(q.headers.inner@, q.body@.len(), true), b: q.body@ })
{
    let h = q.headers.inner@; let n = q.body@.len(); let m = q.start.method; let u = q.start.uri;
    let f = mname(m) + " "@ + utext(u) + " "@ + sip20();
    reqline_back(m, u); jt_full(h, n, true); whole(f, h, n, true, q.body@); full_back(h, n, true); checks_back(h, n, true); body_back(q.body@, strict);
    let k = jt(fl(h, n, true)); let mf = if has_mf(h) { Seq::empty() } else { hl(mfn(), "70"@) };
    assoc(f + crlf(), k, crlf()); assoc(qfirst(q), qlines(h), mf); assoc(qfirst(q), qlines(h) + mf, end_lines(n));
    assert(qtext(q) == f + crlf() + k + crlf());
    let d = encode_utf8(qtext(q)) + q.body@;
    assert(head_of(d, max) == Some((f, fh(h, n, true))));
}
// ---- responses ----
pub open spec fn answerable(q: Response) -> bool {
    let h = q.headers.inner@;
    &&& norms(h) && h.len() <= 198 && singles_ok(h) && cseq_fine(h) && q.body@.len() <= 10 * 1024 * 1024
    &&& sl_ok(q.start) && trim_s(q.start.reason@) == q.start.reason@
}
proof fn statline_back(c: nat, why: Seq<char>)
    requires 100 <= c <= 699, reason_ok(why), tight(why)
    ensures ({ let f = sip20() + " "@ + dtext(c) + " "@ + why; is_line(f) && f.len() > 0 && trim_s(f).len() > 0 && status_line(trim_s(f)) == Some((c as u16, why)) })
{
    broadcast use sx::ws_ascii;
    reveal_strlit(" "); reveal_strlit("SIP/2.0"); digits_val(c); dtext_dec(c); trim_tight(why); trim_sp(why);
    let v = sip20(); let t = dtext(c); let k = t.len() as int;
    let g = v + " "@ + t; let f = g + " "@ + why;
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) != '\r' && f[i] != '\n' by {
        if 8 <= i && i < 8 + k { assert(f[i] == t[i - 8]); assert(is_digit(t[i - 8])); } else if i >= 9 + k { assert(f[i] == why[i - 9 - k]); assert(!is_actl(why[i - 9 - k])); } else if i < 7 { assert(f[i] == v[i]); }
    }
    assert(g[0] == 'S'); assert(g.last() == t.last()); assert(is_digit(t.last()));
    if why.len() == 0 { assert(f =~= g + " "@); trim_end_sp(g); } else { assert(f.last() == why.last()); trim_tight(f); }
    let l = trim_s(f);
    assert(l == (if why.len() == 0 { g } else { f }));
    assert(tight(l)); trim_tight(l);
    assert(l.take(7) =~= v);
    let s1 = l.skip(7); assert(s1[0] == ' '); assert(s1[1] == t[0]); assert(is_digit(t[0])); run_is(s1, spf(), 1);
    let s2 = s1.skip(1);
    assert forall|i: int| 0 <= i < k implies digf()(#[trigger] s2[i]) by { assert(s2[i] == t[i]); }
    if why.len() > 0 { assert(s2[k] == ' '); } else { assert(s2.len() == k); }
    run_is(s2, digf(), k);
    assert(s2.take(k) =~= t);
    let s3 = s2.skip(k);
    if why.len() > 0 { assert(s3 =~= " "@ + why); } else { assert(s3.len() == 0); assert(s3 =~= why); }
}
/// P17, responses
pub proof fn p17_response(q: Response, max: int, strict: bool)
    requires answerable(q), encode_utf8(rtext(q)).len() + q.body@.len() <= max
    ensures response_of(encode_utf8(rtext(q)) + q.body@, max, strict) == Some(Res { code: q.start.code, why: q.start.reason@, h: fh(q.headers.inner@, q.body@.len(), false), b: q.body@ })
{
    let h = q.headers.inner@; let n = q.body@.len();
    let f = sip20() + " "@ + dtext(q.start.code as nat) + " "@ + q.start.reason@;
    trim_is_tight(q.start.reason@);
    statline_back(q.start.code as nat, q.start.reason@); jt_full(h, n, false); whole(f, h, n, false, q.body@); full_back(h, n, false); checks_back(h, n, false); body_back(q.body@, strict);
    let k = jt(fl(h, n, false));
    assoc(f + crlf(), k, crlf()); assoc(rfirst(q), rlines(h), end_lines(n));
    assert(rtext(q) == f + crlf() + k + crlf());
    let d = encode_utf8(rtext(q)) + q.body@;
    assert(head_of(d, max) == Some((trim_s(f), fh(h, n, false))));
}
// ---- again ----
proof fn tidy_lines(h: Seq<Header>, q: bool)
    requires norms(h)
    ensures (if q { qlines(nhs(h, q)) == qlines(h) } else { rlines(nhs(h, q)) == rlines(h) }), has_mf(nhs(h, q)) == has_mf(h)
    decreases h.len()
{
    if h.len() > 0 {
        let t = h.drop_last(); let x = h.last();
        norms_rest(h); tidy_lines(t, q); lit_lens();
        ci_len(x.name@, cln()); ci_len(x.name@, "l"@);
        if !is_cl(x.name@) {
            let n = cn(q, x.name@); let y = mkh(n, x.value@);
            cname_norm(x.name@); mkh_views(n, x.value@); assert(nhs(t, q).push(y).drop_last() =~= nhs(t, q));
        }
    }
}
/// writing the headers read back gives the same lines again
pub proof fn again(h: Seq<Header>, n: nat, q: bool)
    requires norms(h), n <= 64 * 1024 * 1024
    ensures q ==> qlines(fh(h, n, q)) + (if has_mf(fh(h, n, q)) { Seq::empty() } else { hl(mfn(), "70"@) }) == qlines(h) + (if has_mf(h) { Seq::empty() } else { hl(mfn(), "70"@) }),
        !q ==> rlines(fh(h, n, q)) == rlines(h),
{
    tidy_lines(h, q); extras(); lit_lens(); digits_val(n); mkh_views(cln(), dtext(n));
    let a = nhs(h, q); let mf = mkh(mfn(), "70"@); let c = mkh(cln(), dtext(n));
    let a1 = if q && !has_mf(h) { a.push(mf) } else { a };
    assert(a.push(mf).drop_last() =~= a); assert(a1.push(c).drop_last() =~= a1);
    ci_len(mfn(), cln()); ci_len(mfn(), "l"@); ci_len(mfn(), "Via"@); ci_len(mfn(), "Contact"@); ci_len(mfn(), "Route"@);
    assert(lower("Record-Route"@)[2] == 'c' && lower(mfn())[2] == 'x') by { reveal_strlit("Record-Route"); reveal_strlit("Max-Forwards"); }
    let e = Seq::<char>::empty(); let f = fh(h, n, q);
    assert(f == a1.push(c)); assert(is_cl(cln())); assert(!is_cl(mfn())); assert(cname(mfn()) == mfn());
    assert(f.last() == c); assert(qlines(f) == qlines(a1)); assert(has_mf(f) == has_mf(a1));
    if q && !has_mf(h) { assert(a1.last() == mf); assert(a1 == a.push(mf)); assert(has_mf(a1)); assert(qlines(a1) == qlines(a) + hl(mfn(), "70"@)); } else if q { assert(has_mf(a1)); }
    assert(qlines(h) + e =~= qlines(h));
    assert(qlines(h) + hl(mfn(), "70"@) + e =~= qlines(h) + hl(mfn(), "70"@));
}
/// P17: what was read back is written as the same bytes
pub proof fn p17_stable(q: Request, q2: Request)
    requires sendable(q), q2.start.method == q.start.method, q2.start.uri == q.start.uri, q2.body@ == q.body@, q2.headers.inner@ == fh(q.headers.inner@, q.body@.len(), true)
    ensures qtext(q2) == qtext(q)
{
    let h = q.headers.inner@; let h2 = q2.headers.inner@; again(h, q.body@.len(), true);
    let m1 = if has_mf(h) { Seq::empty() } else { hl(mfn(), "70"@) }; let m2 = if has_mf(h2) { Seq::empty() } else { hl(mfn(), "70"@) };
    assoc(qfirst(q), qlines(h), m1); assoc(qfirst(q2), qlines(h2), m2);
}
pub proof fn p17_stable_response(q: Response, q2: Response)
    requires answerable(q), q2.start.code == q.start.code, q2.start.reason@ == q.start.reason@, q2.body@ == q.body@, q2.headers.inner@ == fh(q.headers.inner@, q.body@.len(), false)
    ensures rtext(q2) == rtext(q)
{ again(q.headers.inner@, q.body@.len(), false); }
// ---- what was parsed can be sent ----
proof fn trim_shorter(s: Seq<char>) ensures trim_s(trim_s(s)) == trim_s(s) { trim_is_tight(s); trim_tight(trim_s(s)); }
proof fn canon_again(n: Seq<char>) ensures canon(canon(n)) == canon(n)
{
    reveal_strlit("Call-ID"); reveal_strlit("From"); reveal_strlit("To"); reveal_strlit("Contact"); reveal_strlit("Content-Length"); reveal_strlit("Subject"); reveal_strlit("Supported"); reveal_strlit("Event"); reveal_strlit("Content-Encoding"); reveal_strlit("Content-Type"); reveal_strlit("Via"); reveal_strlit("Refer-To"); reveal_strlit("Referred-By"); reveal_strlit("Request-Disposition"); reveal_strlit("Session-Expires"); reveal_strlit("Accept-Contact"); reveal_strlit("Allow-Events");
    if canon(n) != n { canon_long(canon(n)); }
}
pub proof fn parsed_norm(ls: Seq<Seq<char>>) ensures hlines(ls) matches Some(h) ==> norms(h)
{
    hlines_len(ls);
    if let Some(h) = hlines(ls) {
        assert forall|i: int| 0 <= i < h.len() implies norm(#[trigger] h[i]) by {
            assert(line_of(ls, h[i]));
            let j = choose|j: int| 0 <= j < ls.len() && hline(#[trigger] ls[j]) == Some(h[i]);
            let l = ls[j]; let k = fidx(l, Pat::C(':'));
            trim_shorter(l.skip(k + 1)); canon_again(trim_s(l.take(k)));
            mkh_views(canon(trim_s(l.take(k))), trim_s(l.skip(k + 1)));
        }
    }
}
proof fn meth_again(t: Seq<char>) ensures meth(t) matches Some(m) ==> is_token(mname(m)) && meth(mname(m)) == Some(m)
{
    if let Some(m) = meth(t) {
        reveal_strlit("INVITE"); reveal_strlit("ACK"); reveal_strlit("BYE"); reveal_strlit("CANCEL"); reveal_strlit("REGISTER"); reveal_strlit("OPTIONS"); reveal_strlit("INFO"); reveal_strlit("UPDATE"); reveal_strlit("MESSAGE"); reveal_strlit("PRACK"); reveal_strlit("REFER"); reveal_strlit("SUBSCRIBE"); reveal_strlit("NOTIFY"); reveal_strlit("PUBLISH");
        if m is Unknown {
            let u = upper(t);
            assert(forall|x: Seq<char>| #[trigger] eq_ci(u, x) == eq_ci(t, x)) by { assert(lower(u) =~= lower(t)); }
            assert(upper(u) =~= u);
            assert(is_token(u)) by { assert forall|i: int| 0 <= i < u.len() implies tokc(#[trigger] u[i]) by { assert(tokc(t[i])); } }
            assert(ascii(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { assert(tokc(t[i])); } }
            assert(ascii(u)) by { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i] as u32) < 128 by { assert(tokc(u[i])); } }
            sl::blen_ascii(t); sl::blen_ascii(u);
            smol_any(u);
        } else {
            let n = mname(m);
            assert(is_token(n));
            assert(forall|x: Seq<char>| #[trigger] eq_ci(n, x) ==> n.len() == x.len() && low(n[0]) == low(x[0])) by {
                assert forall|x: Seq<char>| #[trigger] eq_ci(n, x) implies n.len() == x.len() && low(n[0]) == low(x[0]) by { ci_len(n, x); assert(lower(n)[0] == lower(x)[0]); }
            }
        }
    }
}
/// P17: a request a parser accepted (with at most 198 headers) can be sent
pub proof fn p17_parsed(d: Seq<u8>, max: int, strict: bool, r: Req, q: Request)
    requires request_of(d, max, strict) == Some(r), q.start.method == r.m, q.start.uri == r.u, q.headers.inner@ == r.h, q.body@ == r.b, r.h.len() <= 198, uri_fine(r.u)
    ensures sendable(q)
{
    let ls = splits(utf8(head_bytes(d)).unwrap(), crlf());
    parsed_norm(ls.skip(1));
    let p = rline(trim_s(trim_s(ls[0])));
    meth_again(p.unwrap().0);
}
pub proof fn p17_parsed_response(d: Seq<u8>, max: int, strict: bool, r: Res, q: Response)
    requires response_of(d, max, strict) == Some(r), q.start.code == r.code, q.start.reason@ == r.why, q.headers.inner@ == r.h, q.body@ == r.b, r.h.len() <= 198
    ensures answerable(q)
{
    let ls = splits(utf8(head_bytes(d)).unwrap(), crlf());
    parsed_norm(ls.skip(1));
    let t = trim_s(trim_s(ls[0])); let s1 = t.skip(7); let s2 = s1.skip(run(s1, spf())); trim_shorter(s2.skip(run(s2, digf())));
}
}
} // verus!
