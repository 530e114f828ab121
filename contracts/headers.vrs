//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite self . inner . retain ( | $p | $*c ) ; ==> let ghost v0__ = self.inner@; let ghost mut j__: int = 0; let mut i__: usize = 0; while i__ < self.inner.len() { let keep__ = { let $p = &self.inner[i__]; $c }; proof { assert(v0__.take(j__ + 1).drop_last() =~= v0__.take(j__)); j__ = j__ + 1; } if keep__ { i__ += 1; } else { self.inner.remove(i__); } } proof { assert(v0__.take(v0__.len() as int) =~= v0__); }
//@include iters
//@rewrite self . inner . iter ( ) . filter ( | $h | $*c ) . count ( ) ==> { let mut n__: usize = 0; let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; i__ += 1; if $c { n__ += 1; } } n__ }
//@rewrite self . inner . iter ( ) . filter ( move | $h | $*c ) . map ( | $g | $*m ) ==> { let mut o__ = Vec::new(); let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; i__ += 1; if $c { let $g = $h; o__.push($m); } } o__ }
//@rewrite self . inner . iter ( ) . filter ( move | $h | $*c ) ==> { let mut o__ = Vec::new(); let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; i__ += 1; if $c { o__.push($h); } } o__ }
//@rewrite if let Some ( $x ) = self . inner . iter_mut ( ) . find ( | $h | $*c ) { $x . value = $*e ; $*r } ==> let mut f__: Option<usize> = None; let mut i__: usize = 0; while i__ < self.inner.len() { let $h = &self.inner[i__]; if $c { f__ = Some(i__); break; } i__ += 1; } if let Some(k__) = f__ { let mut $x = self.inner[k__].clone(); $x.value = $e; self.inner.set(k__, $x); $r }
//@rewrite Self :: default ( ) ==> Headers { inner: Vec::new() }
//@rewrite iter . into_iter ( ) . take ( $*n ) . collect ( ) ==> { let mut t__ = iter; t__.truncate($n); t__ }
//@rewrite iter . into_iter ( ) . collect ( ) ==> iter
//@rewrite ( $a ..= $b ) . contains ( & $c ) ==> ($a <= $c && $c <= $b)
//@include sipcore
verus! {
broadcast use {prel::str_ext, sm::smol_ext, sx::pat_c, sx::pat_s, st::str_bytes_bound};
impl Clone for Header { #[verifier::external_body] fn clone(&self) -> (r: Header) ensures r == *self { unimplemented!() } }
impl Clone for Headers { #[verifier::external_body] fn clone(&self) -> (r: Headers) ensures r == *self { unimplemented!() } }
//@file crates/sip-core/src/headers.rs
//@const MAX_HEADER_NAME_LENGTH
//@const MAX_HEADER_VALUE_LENGTH
//@const MAX_HEADERS

// ---- what a message may carry -------------------------------------------------------------------
/// characters of an RFC 3261 token
pub open spec fn tokc(c: char) -> bool {
    is_alnum(c) || c == '-' || c == '.' || c == '!' || c == '%' || c == '*' || c == '_' || c == '+' || c == '`' || c == '\'' || c == '~' || c == '^' || c == '|'
}
pub open spec fn is_token(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> tokc(#[trigger] s[i]) }
pub open spec fn name_ok(s: Seq<char>) -> bool { is_token(s) && blen(s) <= 128 }
/// no line break, no NUL
pub open spec fn one_line(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\r' && s[i] != '\n' && s[i] != '\0' }
pub open spec fn val_ok(s: Seq<char>) -> bool { one_line(s) && blen(s) <= 8192 }
pub open spec fn hdr_ok(h: Header) -> bool { name_ok(h.name@) && val_ok(h.value@) }
/// the invariant of every header collection
pub open spec fn hs_ok(h: Headers) -> bool { h.inner@.len() <= 200 && forall|i: int| 0 <= i < h.inner@.len() ==> hdr_ok(#[trigger] h.inner@[i]) }
pub open spec fn is_n(n: Seq<char>) -> spec_fn(Header) -> bool { |h: Header| eq_ci(h.name@, n) }
pub open spec fn not_n(n: Seq<char>) -> spec_fn(Header) -> bool { |h: Header| !eq_ci(h.name@, n) }
/// position of the first header of that name at or after i
pub open spec fn hpos(h: Seq<Header>, n: Seq<char>, i: int) -> Option<int> decreases h.len() - i
{ if i < 0 || i >= h.len() { None } else if eq_ci(h[i].name@, n) { Some(i) } else { hpos(h, n, i + 1) } }
pub open spec fn sets(a: Seq<Header>, b: Seq<Header>, n: Seq<char>, v: Seq<char>) -> bool {
    let k = hpos(a, n, 0).unwrap();
    hpos(a, n, 0).is_some() && 0 <= k < a.len() && eq_ci(a[k].name@, n) && b.len() == a.len() && b[k].name == a[k].name && b[k].value@ == v
        && forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i]
}
pub proof fn hpos_range(h: Seq<Header>, n: Seq<char>, i: int)
    ensures hpos(h, n, i) matches Some(k) ==> i <= k < h.len() && eq_ci(h[k].name@, n),
        hpos(h, n, i).is_none() ==> forall|j: int| i <= j < h.len() && 0 <= i ==> !eq_ci(#[trigger] h[j].name@, n)
    decreases h.len() - i
{ if 0 <= i < h.len() { hpos_range(h, n, i + 1); } }
pub proof fn one_line_blen(s: Seq<char>)
    ensures val_ok(s) == (blen(s) <= 8192 && !occ(s, Pat::C('\r')) && !occ(s, Pat::C('\n')) && !occ(s, Pat::C('\0')))
{
    assert forall|c: char| !#[trigger] occ(s, Pat::C(c)) == (forall|i: int| 0 <= i < s.len() ==> s[i] != c) by {
        if exists|i: int| 0 <= i < s.len() && s[i] == c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(at(s, Pat::C(c), i)); }
    }
}

//@fn validate_header_name
    ensures r.is_ok() == name_ok(name@),
@entry
    proof { blen_len(name@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_actl(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == (exists|j: int| 0 <= j < name@.len() && is_actl(#[trigger] name@[j])),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> tokc(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == (forall|j: int| 0 <= j < name@.len() ==> tokc(#[trigger] name@[j])),
    decreases cs__@.len() - i__,
@afterloop 1
    proof { if f__ { let j = choose|j: int| 0 <= j < name@.len() && is_actl(#[trigger] name@[j]); assert(!tokc(name@[j])); } }
//@end
//@fn validate_header_value
    ensures r.is_ok() == val_ok(value@),
@entry
    proof { one_line_blen(value@); }
//@end
impl Header {
//@fn Header::new
    ensures match r { Ok(h) => h.name@ == name@ && h.value@ == value@ && hdr_ok(h), Err(_) => !(name_ok(name@) && val_ok(value@)) },
//@end
//@fn Header::name_smol
@rewrite self.name.as_str() ==> &self.name
    ensures *r == self.name,
//@end
//@fn Header::as_tuple
    ensures r.0@ == self.name@, r.1@ == self.value@,
//@end
}
impl Headers {
//@fn Headers::new
    ensures hs_ok(r), r.inner@.len() == 0,
//@end
//@fn Headers::from_vec
    requires forall|i: int| 0 <= i < headers@.len() ==> hdr_ok(#[trigger] headers@[i]),
    ensures match r { Ok(h) => hs_ok(h) && h.inner@ == headers@, Err(_) => headers@.len() > 200 },
//@end
//@fn Headers::push
    requires hs_ok(*old(self)),
    ensures hs_ok(*final(self)),
        match r {
            Ok(_) => final(self).inner@.len() == old(self).inner@.len() + 1 && final(self).inner@.drop_last() == old(self).inner@
                && final(self).inner@.last().name@ == name@ && final(self).inner@.last().value@ == value@,
            Err(_) => final(self).inner@ == old(self).inner@ && !(old(self).inner@.len() < 200 && name_ok(name@) && val_ok(value@)),
        },
//@end
//@fn Headers::push_header
    requires hs_ok(*old(self)), hdr_ok(header),
    ensures hs_ok(*final(self)),
        match r {
            Ok(_) => final(self).inner@ == old(self).inner@.push(header),
            Err(_) => final(self).inner@ == old(self).inner@ && old(self).inner@.len() >= 200,
        },
//@end
//@fn Headers::len
    ensures r as nat == self.inner@.len(),
//@end
//@fn Headers::is_empty
    ensures r == (self.inner@.len() == 0),
//@end
//@fn Headers::get_all
@sig (&'a self, name: &'a str) -> Vec<&'a str>
    ensures views(r@) =~= hall(*self, name@),
@loop 1
    invariant 0 <= i__ <= self.inner.len(), views(o__@) =~= hall_s(self.inner@.take(i__ as int), name@),
    decreases self.inner.len() - i__,
@loopbody 1
    proof { assert(self.inner@.take(i__ + 1).drop_last() =~= self.inner@.take(i__ as int)); }
@afterloop 1
    proof { assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@); }
//@end
//@fn Headers::get_all_headers
@sig (&'a self, name: &'a str) -> Vec<&'a Header>
    ensures hdrs(r@) =~= kept(self.inner@, is_n(name@)),
@loop 1
    invariant 0 <= i__ <= self.inner.len(), hdrs(o__@) =~= kept(self.inner@.take(i__ as int), is_n(name@)),
    decreases self.inner.len() - i__,
@loopbody 1
    proof { assert(self.inner@.take(i__ + 1).drop_last() =~= self.inner@.take(i__ as int)); }
@afterloop 1
    proof { assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@); }
//@end
//@fn Headers::count
    ensures r as nat == hall(*self, name@).len(),
@loop 1
    invariant 0 <= i__ <= self.inner.len(), n__ <= i__, n__ as nat == hall_s(self.inner@.take(i__ as int), name@).len(),
    decreases self.inner.len() - i__,
@loopbody 1
    proof { assert(self.inner@.take(i__ + 1).drop_last() =~= self.inner@.take(i__ as int)); }
@afterloop 1
    proof { assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@); }
//@end
//@fn Headers::remove
    requires hs_ok(*old(self)),
    ensures hs_ok(*final(self)), final(self).inner@ =~= kept(old(self).inner@, not_n(name@)), r as int == old(self).inner@.len() - final(self).inner@.len(),
@loop 1
    invariant retaining(v0__, self.inner@, i__ as int, j__, not_n(name@)), v0__ == old(self).inner@,
    decreases v0__.len() - j__,
@afterloop 1
    proof { kept_sub(v0__, not_n(name@)); assert forall|i: int| 0 <= i < self.inner@.len() implies hdr_ok(#[trigger] self.inner@[i]) by { assert(v0__.contains(kept(v0__, not_n(name@))[i])); } }
//@end
//@fn Headers::retain [as=retain]
@sig (&mut self, f: F) where F: Fn(&Header) -> bool,
    requires hs_ok(*old(self)), forall|h: &Header| #[trigger] call_requires(f, (h,)),
    ensures hs_ok(*final(self)), final(self).inner@.len() <= old(self).inner@.len(),
        forall|i: int| 0 <= i < final(self).inner@.len() ==> old(self).inner@.contains(#[trigger] final(self).inner@[i]) && call_ensures(f, (&final(self).inner@[i],), true),
@loop 1
    invariant forall|h: &Header| #[trigger] call_requires(f, (h,)), v0__ == old(self).inner@,
        0 <= j__ <= v0__.len(), 0 <= i__ <= j__, self.inner@.len() == i__ + v0__.len() - j__,
        forall|k: int| i__ <= k < self.inner@.len() ==> #[trigger] self.inner@[k] == v0__[k - i__ + j__],
        forall|k: int| 0 <= k < i__ ==> v0__.contains(#[trigger] self.inner@[k]) && call_ensures(f, (&self.inner@[k],), true),
    decreases v0__.len() - j__,
@afterloop 1
    proof { assert forall|i: int| 0 <= i < self.inner@.len() implies hdr_ok(#[trigger] self.inner@[i]) by { assert(v0__.contains(self.inner@[i])); } }
//@end
//@fn Headers::replace_first
    requires hs_ok(*old(self)),
    ensures hs_ok(*final(self)),
        match r {
            Ok(true) => sets(old(self).inner@, final(self).inner@, name@, value@) && val_ok(value@),
            Ok(false) => final(self).inner@ == old(self).inner@ && hpos(old(self).inner@, name@, 0).is_none(),
            Err(_) => final(self).inner@ == old(self).inner@ && !val_ok(value@),
        },
@loop 1
    invariant_except_break f__.is_none(), hpos(self.inner@, name@, 0) == hpos(self.inner@, name@, i__ as int),
    invariant self.inner@ == old(self).inner@, 0 <= i__ <= self.inner.len(),
    ensures match f__ { Some(k) => hpos(self.inner@, name@, 0) == Some(k as int) && 0 <= k < self.inner@.len() && eq_ci(self.inner@[k as int].name@, name@), None => hpos(self.inner@, name@, 0).is_none() },
    decreases self.inner.len() - i__,
//@end
//@fn Headers::set_or_push
    requires hs_ok(*old(self)),
    ensures hs_ok(*final(self)),
        match r {
            Ok(_) => if hpos(old(self).inner@, name@, 0).is_some() { sets(old(self).inner@, final(self).inner@, name@, value@) } else {
                final(self).inner@.len() == old(self).inner@.len() + 1 && final(self).inner@.drop_last() == old(self).inner@
                    && final(self).inner@.last().name@ == name@ && final(self).inner@.last().value@ == value@ },
            Err(_) => final(self).inner@ == old(self).inner@ && (!name_ok(name@) || !val_ok(value@) || (old(self).inner@.len() >= 200 && hpos(old(self).inner@, name@, 0).is_none())),
        },
@loop 1
    invariant_except_break f__.is_none(), hpos(self.inner@, name@, 0) == hpos(self.inner@, name@, i__ as int),
    invariant self.inner@ == old(self).inner@, 0 <= i__ <= self.inner.len(),
    ensures match f__ { Some(k) => hpos(self.inner@, name@, 0) == Some(k as int) && 0 <= k < self.inner@.len() && eq_ci(self.inner@[k as int].name@, name@), None => hpos(self.inner@, name@, 0).is_none() },
    decreases self.inner.len() - i__,
//@end
//@fn Headers::remove_at
    requires hs_ok(*old(self)), index < old(self).inner@.len(),
    ensures hs_ok(*final(self)), final(self).inner@ == old(self).inner@.remove(index as int), r == old(self).inner@[index as int],
//@end
//@fn Headers::into_inner
    ensures r@ == self.inner@,
//@end
//@fn Headers::as_slice
    ensures r@ == self.inner@,
//@end
//@fn Headers::clear
    ensures final(self).inner@.len() == 0, hs_ok(*final(self)),
//@end
//@fn Headers::reserve
    ensures final(self).inner@ == old(self).inner@,
//@end
//@fn Headers::from_iter [trait=FromIterator]
@sig <>(iter: Vec<Header>) -> Headers
    requires forall|i: int| 0 <= i < iter@.len() ==> hdr_ok(#[trigger] iter@[i]),
    ensures hs_ok(r), r.inner@ =~= (if iter@.len() <= 200 { iter@ } else { iter@.take(200) }),
//@end
//@fn Headers::try_from_iter
@sig <>(iter: Vec<Header>) -> Result<Headers, HeaderError>
    requires forall|i: int| 0 <= i < iter@.len() ==> hdr_ok(#[trigger] iter@[i]),
    ensures match r { Ok(h) => hs_ok(h) && h.inner@ == iter@, Err(_) => iter@.len() > 200 },
//@end
}
pub open spec fn hdrs(v: Seq<&Header>) -> Seq<Header> { Seq::new(v.len(), |i: int| *v[i]) }

// ---- methods -------------------------------------------------------------------------------------
//@file crates/sip-core/src/method.rs
//@const MAX_METHOD_LENGTH
//@fn validate_method_token
    ensures r.is_ok() == (is_token(token@) && blen(token@) <= 32),
@entry
    proof { blen_len(token@); }
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_actl(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == token@,
    ensures f__ == (exists|j: int| 0 <= j < token@.len() && is_actl(#[trigger] token@[j])),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> tokc(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == token@,
    ensures f__ == (forall|j: int| 0 <= j < token@.len() ==> tokc(#[trigger] token@[j])),
    decreases cs__@.len() - i__,
//@end
proof fn known_tokens()
    ensures is_token("INVITE"@), is_token("ACK"@), is_token("BYE"@), is_token("CANCEL"@), is_token("REGISTER"@), is_token("OPTIONS"@), is_token("INFO"@), is_token("UPDATE"@), is_token("MESSAGE"@), is_token("PRACK"@), is_token("REFER"@), is_token("SUBSCRIBE"@), is_token("NOTIFY"@), is_token("PUBLISH"@)
{
    reveal_strlit("INVITE");
    reveal_strlit("ACK");
    reveal_strlit("BYE");
    reveal_strlit("CANCEL");
    reveal_strlit("REGISTER");
    reveal_strlit("OPTIONS");
    reveal_strlit("INFO");
    reveal_strlit("UPDATE");
    reveal_strlit("MESSAGE");
    reveal_strlit("PRACK");
    reveal_strlit("REFER");
    reveal_strlit("SUBSCRIBE");
    reveal_strlit("NOTIFY");
    reveal_strlit("PUBLISH");
}
proof fn upper_token(s: Seq<char>)
    ensures eq_ci(upper(s), s), is_token(s) ==> is_token(upper(s))
{
    assert(lower(upper(s)) =~= lower(s));
    assert forall|i: int| 0 <= i < s.len() && tokc(s[i]) implies tokc(#[trigger] upper(s)[i]) by { assert(upper(s)[i] == upp(s[i])); }
}
/// an extension method of that name
pub open spec fn unk(t: Seq<char>) -> Method { Method::Unknown(choose|x: SmolStr| x@ == t) }
/// the method a token names
pub open spec fn meth(t: Seq<char>) -> Option<Method> {
    if eq_ci(t, "INVITE"@) { Some(Method::Invite) } else if eq_ci(t, "ACK"@) { Some(Method::Ack) } else if eq_ci(t, "BYE"@) { Some(Method::Bye) } else if eq_ci(t, "CANCEL"@) { Some(Method::Cancel) }
    else if eq_ci(t, "REGISTER"@) { Some(Method::Register) } else if eq_ci(t, "OPTIONS"@) { Some(Method::Options) } else if eq_ci(t, "INFO"@) { Some(Method::Info) } else if eq_ci(t, "UPDATE"@) { Some(Method::Update) }
    else if eq_ci(t, "MESSAGE"@) { Some(Method::Message) } else if eq_ci(t, "PRACK"@) { Some(Method::Prack) } else if eq_ci(t, "REFER"@) { Some(Method::Refer) } else if eq_ci(t, "SUBSCRIBE"@) { Some(Method::Subscribe) }
    else if eq_ci(t, "NOTIFY"@) { Some(Method::Notify) } else if eq_ci(t, "PUBLISH"@) { Some(Method::Publish) }
    else if is_token(t) && blen(t) <= 32 { Some(unk(upper(t))) } else { None }
}
impl Method {
//@fn Method::from_token
    ensures match r { Ok(m) => meth(token@) == Some(m) && eq_ci(mname(m), token@) && is_token(mname(m)), Err(_) => meth(token@).is_none() },
@entry
    proof { known_tokens(); upper_token(token@); }
//@end
}

// ---- messages ------------------------------------------------------------------------------------
//@file crates/sip-core/src/msg.rs
//@enum MessageError
//@const MAX_REASON_LENGTH
//@const MAX_BODY_SIZE
pub open spec fn reason_ok(s: Seq<char>) -> bool { blen(s) <= 256 && forall|i: int| 0 <= i < s.len() ==> !is_actl(#[trigger] s[i]) }
pub open spec fn sl_ok(s: StatusLine) -> bool { 100 <= s.code <= 699 && reason_ok(s.reason@) }
pub open spec fn req_ok(m: Request) -> bool { hs_ok(m.headers) && m.body@.len() <= 10 * 1024 * 1024 }
pub open spec fn res_ok(m: Response) -> bool { sl_ok(m.start) && hs_ok(m.headers) && m.body@.len() <= 10 * 1024 * 1024 }
//@fn validate_reason_phrase
    ensures r.is_ok() == reason_ok(reason@),
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_actl(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == reason@,
    ensures f__ == (exists|j: int| 0 <= j < reason@.len() && is_actl(#[trigger] reason@[j])),
    decreases cs__@.len() - i__,
//@end
//@fn validate_body_size
    ensures r.is_ok() == (body@.len() <= 10 * 1024 * 1024),
//@end
impl RequestLine {
//@fn RequestLine::new
    ensures r.method == method, r.uri == uri,
//@end
//@fn RequestLine::set_uri
    ensures final(self).uri == uri, final(self).method == old(self).method, final(self).version == old(self).version,
//@end
}
impl StatusLine {
//@fn StatusLine::new
    ensures match r { Ok(s) => sl_ok(s) && s.code == code && s.reason@ == reason@, Err(_) => !(100 <= code <= 699 && reason_ok(reason@)) },
//@end
//@fn StatusLine::reason
    ensures r@ == self.reason@,
//@end
}
impl Request {
//@fn Request::new
    requires hs_ok(headers),
    ensures match r { Ok(m) => req_ok(m) && m.start == start && m.headers == headers && m.body == body, Err(_) => body@.len() > 10 * 1024 * 1024 },
//@end
//@fn Request::headers_mut
    ensures *r == old(self).headers, final(self).headers == *final(r), final(self).start == old(self).start, final(self).body == old(self).body,
//@end
//@fn Request::set_body
    requires req_ok(*old(self)),
    ensures req_ok(*final(self)), final(self).headers == old(self).headers, final(self).start == old(self).start,
        match r { Ok(_) => final(self).body == body, Err(_) => final(self).body == old(self).body && body@.len() > 10 * 1024 * 1024 },
//@end
//@fn Request::set_uri
    ensures final(self).headers == old(self).headers, final(self).body == old(self).body,
//@end
//@fn Request::body_len
    ensures r as nat == self.body@.len(),
//@end
//@fn Request::into_parts
    ensures r == (self.start, self.headers, self.body),
//@end
}
impl Response {
//@fn Response::new
    requires hs_ok(headers), sl_ok(start),
    ensures match r { Ok(m) => res_ok(m) && m.start == start && m.headers == headers && m.body == body, Err(_) => body@.len() > 10 * 1024 * 1024 },
//@end
//@fn Response::headers_mut
    ensures *r == old(self).headers, final(self).headers == *final(r), final(self).start == old(self).start, final(self).body == old(self).body,
//@end
//@fn Response::set_body
    requires res_ok(*old(self)),
    ensures res_ok(*final(self)), final(self).headers == old(self).headers, final(self).start == old(self).start,
        match r { Ok(_) => final(self).body == body, Err(_) => final(self).body == old(self).body && body@.len() > 10 * 1024 * 1024 },
//@end
//@fn Response::into_parts
    ensures r == (self.start, self.headers, self.body),
//@end
//@fn Response::reason
    ensures r@ == self.start.reason@,
//@end
}

// ---- P16: consequences ---------------------------------------------------------------------------
/// the text a header becomes on the wire: one line, broken only at its end
pub open spec fn line(h: Header) -> Seq<char> { h.name@ + seq![':', ' '] + h.value@ }
pub proof fn thm_one_line(h: Header)
    requires hdr_ok(h)
    ensures one_line(line(h)), h.name@.len() > 0, first(line(h), Pat::C(':'), h.name@.len() as int)
{
    let l = line(h);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) != '\r' && l[i] != '\n' && l[i] != '\0' by {
        if i < h.name@.len() { assert(tokc(h.name@[i])); } else if i >= h.name@.len() + 2 { assert(l[i] == h.value@[i - h.name@.len() - 2]); }
    }
    assert forall|j: int| 0 <= j < h.name@.len() implies !#[trigger] at(l, Pat::C(':'), j) by { assert(tokc(h.name@[j])); assert(l[j] == h.name@[j]); }
    assert(at(l, Pat::C(':'), h.name@.len() as int));
}
/// replacing or setting one header leaves every header of another name as it was, and keeps the count
pub proof fn thm_set_frame(a: Seq<Header>, b: Seq<Header>, n: Seq<char>, v: Seq<char>, m: Seq<char>)
    requires sets(a, b, n, v), !eq_ci(n, m)
    ensures hall_s(a, m) == hall_s(b, m), hget_from(a, m, 0) == hget_from(b, m, 0)
{
    same_all(a, b, m); same_get(a, b, m, 0);
}
pub open spec fn like(a: Seq<Header>, b: Seq<Header>, m: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].name == a[i].name && (eq_ci(a[i].name@, m) ==> b[i].value@ == a[i].value@)
}
proof fn same_all(a: Seq<Header>, b: Seq<Header>, m: Seq<char>)
    requires like(a, b, m) ensures hall_s(a, m) == hall_s(b, m) decreases a.len()
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] b.drop_last()[i].name == a.drop_last()[i].name && (eq_ci(a.drop_last()[i].name@, m) ==> b.drop_last()[i].value@ == a.drop_last()[i].value@) by { assert(b[i].name == a[i].name); } same_all(a.drop_last(), b.drop_last(), m); assert(b[a.len() - 1].name == a[a.len() - 1].name); } }
proof fn same_get(a: Seq<Header>, b: Seq<Header>, m: Seq<char>, i: int)
    requires like(a, b, m) ensures hget_from(a, m, i) == hget_from(b, m, i) decreases a.len() - i
{ if 0 <= i < a.len() { same_get(a, b, m, i + 1); assert(b[i].name == a[i].name); } }
/// a header that was set reads back as set, and there are exactly as many of that name as before
pub proof fn thm_set_reads(a: Seq<Header>, b: Seq<Header>, n: Seq<char>, v: Seq<char>, m: Seq<char>)
    requires sets(a, b, n, v), eq_ci(n, m)
    ensures hget_from(b, m, 0) == Some(v), hall_s(b, m).len() == hall_s(a, m).len()
{
    same_len(a, b, m);
    hpos_range(a, n, 0);
    found_at(a, b, n, m, 0);
}
proof fn same_len(a: Seq<Header>, b: Seq<Header>, m: Seq<char>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].name == a[i].name
    ensures hall_s(a, m).len() == hall_s(b, m).len() decreases a.len()
{ if a.len() > 0 { same_len(a.drop_last(), b.drop_last(), m); assert(b[a.len() - 1].name == a[a.len() - 1].name); } }
proof fn found_at(a: Seq<Header>, b: Seq<Header>, n: Seq<char>, m: Seq<char>, i: int)
    requires 0 <= i <= hpos(a, n, 0).unwrap() < a.len(), hpos(a, n, 0) == hpos(a, n, i), a.len() == b.len(), eq_ci(n, m), hpos(a, n, 0).is_some(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].name == a[i].name,
    ensures hget_from(b, m, i) == Some(b[hpos(a, n, 0).unwrap()].value@)
    decreases a.len() - i
{
    assert(b[i].name == a[i].name);
    if eq_ci(a[i].name@, n) { } else { hpos_range(a, n, i + 1); found_at(a, b, n, m, i + 1); }
}
/// an added header comes last among its name and touches no other name
pub proof fn thm_push(a: Seq<Header>, h: Header, m: Seq<char>)
    ensures hall_s(a.push(h), m) == (if eq_ci(h.name@, m) { hall_s(a, m).push(h.value@) } else { hall_s(a, m) }),
        hget_from(a.push(h), m, 0) == (if hget_from(a, m, 0).is_some() { hget_from(a, m, 0) } else if eq_ci(h.name@, m) { Some(h.value@) } else { None }),
{
    assert(a.push(h).drop_last() =~= a);
    push_get(a, h, m, 0);
}
proof fn push_get(a: Seq<Header>, h: Header, m: Seq<char>, i: int)
    requires 0 <= i <= a.len()
    ensures hget_from(a.push(h), m, i) == (if hget_from(a, m, i).is_some() { hget_from(a, m, i) } else if eq_ci(h.name@, m) { Some(h.value@) } else { None })
    decreases a.len() - i
{ if i < a.len() { push_get(a, h, m, i + 1); } else { assert(hget_from(a.push(h), m, i + 1).is_none()); } }
/// removing a name removes all of it and nothing else
pub proof fn thm_remove(a: Seq<Header>, n: Seq<char>, m: Seq<char>)
    ensures hall_s(kept(a, not_n(n)), m) == (if eq_ci(n, m) { Seq::empty() } else { hall_s(a, m) })
    decreases a.len()
{
    if a.len() > 0 {
        thm_remove(a.drop_last(), n, m);
        let k = kept(a.drop_last(), not_n(n));
        if !eq_ci(a.last().name@, n) { assert(k.push(a.last()).drop_last() =~= k); }
    }
}
/// the first value read is the first of all values
pub proof fn thm_get_is_first(a: Seq<Header>, n: Seq<char>)
    ensures hget_from(a, n, 0) == (if hall_s(a, n).len() == 0 { None } else { Some(hall_s(a, n)[0]) })
    decreases a.len()
{
    if a.len() > 0 {
        thm_get_is_first(a.drop_last(), n);
        assert(a.drop_last().push(a.last()) =~= a);
        push_get(a.drop_last(), a.last(), n, 0);
    }
}
/// names differing only in letter case read the same
pub proof fn thm_case(a: Seq<Header>, n: Seq<char>, m: Seq<char>)
    requires eq_ci(n, m)
    ensures hall_s(a, n) == hall_s(a, m)
    decreases a.len()
{ if a.len() > 0 { thm_case(a.drop_last(), n, m); } }
} // verus!
