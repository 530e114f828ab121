//@include base
//@include str
//@include strx
//@include slx
//@include time
//@include smol
//@include dmap
//@include sipcore
//@include iters
//@rewrite | u | u . len ( ) ==> |u: &str| -> (n: usize) ensures n as nat == blen(u@), n <= 0x7fff_ffff_ffff_ffff { u.len() }
//@rewrite | _ | 6 ==> |p: u16| -> (n: usize) ensures n == 6 { 6 }
//@rewrite . or_else ( || $*e ) ==> .or($e)
//@rewrite & raw [ $*a .. ] ==> raw.x_from($a)
//@rewrite raw [ $*a .. ] ==> raw.x_from($a)
//@rewrite & raw [ $*a .. $*b ] ==> raw.x_sub($a, $b)
//@rewrite raw [ $*a .. $*b ] ==> raw.x_sub($a, $b)
//@rewrite . and_then ( | raw | parse_uri_from_header ( $*a ) ) ==> .and_then(|raw: &SmolStr| -> (o: Option<SipUri>) ensures o == uri_in(raw@) { parse_uri_from_header($a) })
//@rewrite . find ( $c ) ? ==> .find($c)?
//@rewrite . split_whitespace ( ) . next ( ) ==> .as_str().x_ws_first()
//@rewrite routes . reverse ( ) ==> x_reverse(&mut routes)
//@rewrite build_route_set ( $*a ) . unwrap_or_default ( ) ==> (match build_route_set($a) { Ok(v__) => v__, Err(_) => Vec::new() })
//@rewrite part . to_owned ( ) ==> x_string(part)
//@rewrite for ( $i , $c ) in raw . char_indices ( ) { $*b } ==> let cs__ = raw.x_char_indices(); let mut i__: usize = 0; while i__ < cs__.len() { let ($i, $c) = cs__[i__]; i__ += 1; $b }
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sx::pat_s, tm::now_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext, sl::at_zero};
}
//@include dlg
verus! {
#[verifier::external_body] pub fn x_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn x_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
/// a parsed SIP URI (its own properties are P18's)
#[verifier::external_body] pub struct SipUri { x: u128 }
impl Clone for SipUri { #[verifier::external_body] fn clone(&self) -> (r: SipUri) ensures r == *self { unimplemented!() } }
pub struct UriErr;
pub uninterp spec fn uri_parse(s: Seq<char>) -> Option<SipUri>;
impl SipUri {
    pub uninterp spec fn sips(&self) -> bool;
    pub uninterp spec fn suser(&self) -> Option<Seq<char>>;
    pub uninterp spec fn shost(&self) -> Seq<char>;
    pub uninterp spec fn sport(&self) -> Option<u16>;
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<SipUri, UriErr>) ensures match r { Ok(u) => uri_parse(s@) == Some(u), Err(_) => uri_parse(s@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn is_sips(&self) -> (r: bool) ensures r == self.sips() { unimplemented!() }
    #[verifier::external_body] pub fn user(&self) -> (r: Option<&str>) ensures match r { Some(u) => self.suser() == Some(u@), None => self.suser().is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn host(&self) -> (r: &str) ensures r@ == self.shost(), blen(r@) <= 0x3fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn port(&self) -> (r: Option<u16>) ensures r == self.sport() { unimplemented!() }
}
pub open spec fn uri_ok(u: SipUri) -> bool {
    (if u.suser().is_some() { blen(u.suser().unwrap()) } else { 0 }) + blen(u.shost()) + (if u.sport().is_some() { 6int } else { 0 }) + 10 <= 512
}
//@fn validate_uri
@props P07
    ensures r.is_ok() == uri_ok(*uri),
//@end
//@fn validate_cseq
@props P06
    ensures r.is_ok() == (1 <= cseq <= 0x7fff_ffff),
//@end
//@fn validate_cseq_increment
@props P06
    ensures r.is_ok() == (prev < new && new - prev <= 1000),
//@end
//@fn validate_session_expires
@props P10
@rewrite u32 :: try_from ( $*e ) . unwrap_or ( $*d ) ==> (match u32::try_from($e) { Ok(v__) => v__, Err(_) => $d })
    ensures r.is_ok() == (90 <= duration@ / 1_000_000_000 <= 86400),
//@end
//@fn validate_route_set
@rewrite for uri in route_set { $*b } ==> let mut i__: usize = 0; while i__ < route_set.len() { let uri = &route_set[i__]; i__ += 1; $b }
@props P07
    ensures r.is_ok() == (route_set@.len() <= 50 && forall|i: int| 0 <= i < route_set@.len() ==> uri_ok(#[trigger] route_set@[i])),
@loop 1
    invariant 0 <= i__ <= route_set.len(), forall|i: int| 0 <= i < i__ ==> uri_ok(#[trigger] route_set@[i]),
    decreases route_set.len() - i__,
//@end
/// the address inside < >, or what stands before the first parameter
pub open spec fn addr_of(s: Seq<char>) -> Option<Seq<char>> {
    let t = trim_s(s);
    if occ(t, Pat::C('<')) {
        let a = fidx(t, Pat::C('<'));
        let u = t.skip(a + 1);
        if occ(u, Pat::C('>')) { Some(u.take(fidx(u, Pat::C('>')))) } else { None }
    } else { Some(fields(t, ';')[0]) }
}
pub open spec fn uri_in(s: Seq<char>) -> Option<SipUri> { if addr_of(s).is_some() { uri_parse(trim_s(addr_of(s).unwrap())) } else { None } }
//@fn parse_uri_from_header
@rewrite trimmed . split ( $c ) . next ( ) ==> x_first(trimmed.x_split_c($c))
@props P07
    ensures r == uri_in(raw@),
@entry
    broadcast use {sx::first_is, sl::step_ascii, sl::fields_some, sl::sub_off};
//@end
#[verifier::external_body] pub fn x_first<'a>(v: Vec<&'a str>) -> (r: Option<&'a str>) ensures match r { Some(t) => v@.len() > 0 && t@ == v@[0]@, None => v@.len() == 0 } { unimplemented!() }

// ---- comma separated values, respecting quotes and < > ----
pub open spec fn qd(s: Seq<char>, i: int) -> (bool, nat) decreases i {
    if i <= 0 { (false, 0) } else {
        let p = qd(s, i - 1); let c = s[i - 1];
        if c == '"' { (!p.0, p.1) } else if c == '<' { (p.0, p.1 + 1) } else if c == '>' { (p.0, if p.1 > 0 { (p.1 - 1) as nat } else { 0 }) } else { p }
    }
}
pub open spec fn add_part(p: Seq<Seq<char>>, t: Seq<char>) -> Seq<Seq<char>> { if trim_s(t).len() > 0 { p.push(trim_s(t)) } else { p } }
/// the elements completed within the first i characters, and where the next one starts
pub open spec fn csv_st(s: Seq<char>, i: int) -> (Seq<Seq<char>>, int) decreases i {
    if i <= 0 { (Seq::empty(), 0) } else {
        let p = csv_st(s, i - 1);
        if s[i - 1] == ',' && !qd(s, i - 1).0 && qd(s, i - 1).1 == 0 { (add_part(p.0, s.skip(p.1).take(i - 1 - p.1)), i) } else { p }
    }
}
pub open spec fn csv(s: Seq<char>) -> Seq<Seq<char>> { let p = csv_st(s, s.len() as int); add_part(p.0, s.skip(p.1)) }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
//@fn split_header_values
@props P07
    ensures strs(r@) =~= csv(raw@), r@.len() == csv(raw@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == csv(raw@)[i],
@entry
    broadcast use {sl::step_ascii};
@loop 1
    invariant 0 <= i__ <= cs__.len(), cs__.len() == raw@.len(), raw@.len() <= 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < cs__@.len() ==> (#[trigger] cs__@[i]).1 == raw@[i] && cs__@[i].0 as int == boff(raw@, i) && cs__@[i].0 < 0x7fff_ffff_ffff_ffff,
        in_quotes == qd(raw@, i__ as int).0, angle_depth == qd(raw@, i__ as int).1, angle_depth <= i__,
        strs(parts@) =~= csv_st(raw@, i__ as int).0, bnd(raw@, start as int), cidx(raw@, start as int) == csv_st(raw@, i__ as int).1,
        0 <= csv_st(raw@, i__ as int).1 <= i__,
    decreases cs__.len() - i__,
@loopbody 1
    proof { broadcast use sl::step_ascii; sl::at_char(raw@, i__ as int); sl::at_next(raw@, i__ as int); sl::mono(raw@, start as int, boff(raw@, i__ as int)); assert(start <= boff(raw@, i__ as int)); }
//@end
/// all the elements of several header values
pub open spec fn elems(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { elems(v.drop_last()) + csv(v.last()) } }
/// the addresses among them
pub open spec fn uris(e: Seq<Seq<char>>) -> Seq<SipUri> decreases e.len()
{ if e.len() == 0 { Seq::empty() } else if uri_in(e.last()).is_some() { uris(e.drop_last()).push(uri_in(e.last()).unwrap()) } else { uris(e.drop_last()) } }
pub open spec fn rr(h: Headers) -> Seq<Seq<char>> { elems(hall(h, "Record-Route"@)) }
/// the route as the given side uses it: nearest hop first
pub open spec fn route(h: Headers, rev: bool) -> Seq<SipUri> { if rev { uris(rr(h)).reverse() } else { uris(rr(h)) } }
pub open spec fn bad_hop(e: Seq<Seq<char>>, k: int) -> bool { 0 <= k < e.len() && uri_in(e[k]).is_some() && !uri_ok(uri_in(e[k]).unwrap()) }
pub open spec fn route_bad(h: Headers) -> bool { rr(h).len() > 50 || exists|k: int| bad_hop(rr(h), k) }
proof fn elems_prefix(v: Seq<Seq<char>>, i: int)
    requires 0 <= i <= v.len()
    ensures elems(v.take(i)).len() <= elems(v).len(), elems(v).take(elems(v.take(i)).len() as int) =~= elems(v.take(i))
    decreases v.len()
{
    if i == v.len() { assert(v.take(i) =~= v); } else {
        elems_prefix(v.drop_last(), i);
        assert(v.drop_last().take(i) =~= v.take(i));
    }
}
proof fn uris_len(e: Seq<Seq<char>>) ensures uris(e).len() <= e.len() decreases e.len() { if e.len() > 0 { uris_len(e.drop_last()); } }
pub open spec fn upto(v: Seq<Seq<char>>, i: int, j: int) -> Seq<Seq<char>> { elems(v.take(i)) + csv(v[i]).take(j) }
proof fn upto_facts(v: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i < v.len(), 0 <= j < csv(v[i]).len()
    ensures
        upto(v, i, j).len() < elems(v).len(), elems(v)[upto(v, i, j).len() as int] == csv(v[i])[j],
        uris(upto(v, i, j + 1)) =~= (if uri_in(csv(v[i])[j]).is_some() { uris(upto(v, i, j)).push(uri_in(csv(v[i])[j]).unwrap()) } else { uris(upto(v, i, j)) }),
        uris(upto(v, i, j)).len() <= upto(v, i, j).len(),
{
    assert(upto(v, i, j + 1).drop_last() =~= upto(v, i, j));
    assert(upto(v, i, j + 1).last() == csv(v[i])[j]);
    uris_len(upto(v, i, j));
    elems_prefix(v, i + 1);
    assert(v.take(i + 1).drop_last() =~= v.take(i));
    let full = elems(v.take(i + 1));
    assert(full =~= elems(v.take(i)) + csv(v[i]));
    let k = upto(v, i, j).len() as int;
    assert(elems(v)[k] == elems(v).take(full.len() as int)[k]);
}
proof fn upto_edges(v: Seq<Seq<char>>, i: int)
    requires 0 <= i < v.len()
    ensures upto(v, i, 0) =~= elems(v.take(i)), upto(v, i, csv(v[i]).len() as int) =~= elems(v.take(i + 1))
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
//@fn build_route_set
@props P07
@rewrite for value in headers . get_all_smol ( $*n ) { $*b } ==> let all__ = headers.get_all_smol($n); let mut a__: usize = 0; while a__ < all__.len() { let value = all__[a__]; a__ += 1; $b }
@rewrite for uri_str in split_header_values ( $*v ) { $*b } ==> let ps__ = split_header_values($v); let mut p__: usize = 0; while p__ < ps__.len() { let uri_str = &ps__[p__]; p__ += 1; $b }
    ensures match r {
        Ok(v) => v@ == route(*headers, reverse) && v@.len() <= 50 && forall|i: int| 0 <= i < v@.len() ==> uri_ok(#[trigger] v@[i]),
        Err(_) => route_bad(*headers) },
@loop 1
    invariant 0 <= a__ <= all__.len(), smols(all__@) =~= hall(*headers, "Record-Route"@), all__@.len() == hall(*headers, "Record-Route"@).len(),
        routes@ =~= uris(elems(hall(*headers, "Record-Route"@).take(a__ as int))),
        routes@.len() <= 50, forall|i: int| 0 <= i < routes@.len() ==> uri_ok(#[trigger] routes@[i]),
    decreases all__.len() - a__,
@loopbody 1
    let ghost vs = hall(*headers, "Record-Route"@);
    proof { assert(all__@[a__ as int]@ == smols(all__@)[a__ as int]); upto_edges(vs, a__ as int); }
@loop 2
    invariant 0 <= p__ <= ps__.len(), 0 < a__ <= all__.len(), vs == hall(*headers, "Record-Route"@), vs.len() == all__@.len(),
        ps__@.len() == csv(vs[a__ - 1]).len(), forall|i: int| 0 <= i < ps__@.len() ==> (#[trigger] ps__@[i])@ == csv(vs[a__ - 1])[i],
        routes@ =~= uris(upto(vs, a__ - 1, p__ as int)),
        routes@.len() <= 50, forall|i: int| 0 <= i < routes@.len() ==> uri_ok(#[trigger] routes@[i]),
    decreases ps__.len() - p__,
@loopbody 2
    proof { upto_facts(vs, a__ - 1, p__ as int); assert(bad_hop(rr(*headers), upto(vs, a__ - 1, p__ as int).len() as int) == (uri_in(csv(vs[a__ - 1])[p__ as int]).is_some() && !uri_ok(uri_in(csv(vs[a__ - 1])[p__ as int]).unwrap()))); }
@afterloop 1
    proof { assert(hall(*headers, "Record-Route"@).take(all__@.len() as int) =~= hall(*headers, "Record-Route"@)); }
//@end

//@file crates/sip-core/src/session_timer.rs
//@enum RefresherRole derive=Clone,Copy
//@struct SessionExpires
/// what a Session-Expires text means (decided under P10)
pub uninterp spec fn se_of(s: Seq<char>) -> Option<SessionExpires>;
#[verifier::external_body] pub fn parse_session_expires(value: &SmolStr) -> (r: Option<SessionExpires>)
    ensures r == se_of(value@), r is Some ==> 90 <= r.unwrap().delta_seconds <= 86400 { unimplemented!() }
impl SessionExpires {
//@fn SessionExpires::delta_seconds
    ensures r == self.delta_seconds,
//@end
//@fn SessionExpires::refresher
    ensures r == self.refresher,
//@end
}
//@file crates/sip-dialog/src/lib.rs
//@enum DialogStateType derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for DialogStateType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &DialogStateType) -> bool { *self == *other }
}
impl PartialEq for DialogStateType { #[verifier::external_body] fn eq(&self, o: &DialogStateType) -> (r: bool) { unimplemented!() } }
impl Eq for DialogStateType {}
//@struct Dialog
pub open spec fn contact(h: Headers) -> Option<SipUri> { if hdr(h, "Contact"@).is_some() { uri_in(hdr(h, "Contact"@).unwrap()) } else { None } }
pub open spec fn cseq_of(h: Headers) -> Option<nat> {
    if hdr(h, "CSeq"@).is_some() && ws_fields(hdr(h, "CSeq"@).unwrap()).len() > 0 { unum(ws_fields(hdr(h, "CSeq"@).unwrap())[0], 0xffff_ffff) } else { None }
}
pub open spec fn sess(h: Headers) -> Option<SessionExpires> { if hdr(h, "Session-Expires"@).is_some() { se_of(hdr(h, "Session-Expires"@).unwrap()) } else { None } }
pub open spec fn sess_is(h: Headers, d: Option<Duration>, r: Option<RefresherRole>) -> bool {
    match sess(h) { Some(e) => d.is_some() && d.unwrap()@ == e.delta_seconds as int * 1_000_000_000 && r == e.refresher, None => d.is_none() && r.is_none() }
}
//@fn extract_contact_uri
@props P07
    ensures r == contact(*headers),
//@end
//@fn parse_cseq_number
@props P06
    ensures match r { Some(n) => cseq_of(*headers) == Some(n as nat), None => cseq_of(*headers).is_none() },
//@end
//@fn extract_session_timer
@props P07,P10
    ensures sess_is(resp.headers, r.0, r.1), r.0 matches Some(d) ==> 90 <= d@ / 1_000_000_000 <= 86400,
//@end
pub open spec fn target(h: Headers, u: SipUri) -> SipUri { if contact(h).is_some() { contact(h).unwrap() } else { u } }
pub open spec fn state_for(code: u16) -> Option<DialogStateType> {
    if 100 <= code <= 199 { Some(DialogStateType::Early) } else if 200 <= code <= 299 { Some(DialogStateType::Confirmed) } else { None }
}
/// what a new dialog is, on the side given: identity and route from the messages, target from the peer's contact
pub open spec fn born(d: Dialog, uac: bool, req: Request, resp: Response, l: SipUri, r: SipUri) -> bool {
    &&& state_for(resp.start.code) == Some(d.state)
    &&& (200 <= resp.start.code <= 299) == (d.state == DialogStateType::Confirmed)
    &&& d.local_uri == l && d.remote_uri == r && d.is_uac == uac && d.last_ack_cseq.is_none()
    &&& d.secure == (l.sips() || r.sips())
    &&& sess_is(resp.headers, d.session_expires, d.refresher)
    &&& id_ft(resp.headers).is_some()
    &&& if uac {
        &&& d.id@ == id_ft(resp.headers).unwrap()
        &&& d.remote_target == target(resp.headers, r)
        &&& d.route_set@ == route(resp.headers, true)
        &&& cseq_of(req.headers) == Some(d.local_cseq as nat) && 1 <= d.local_cseq <= 0x7fff_ffff && d.remote_cseq == 0
    } else {
        &&& swapped(d.id@) == id_ft(resp.headers).unwrap()
        &&& d.remote_target == target(req.headers, r)
        &&& d.route_set@ == route(req.headers, false)
        &&& cseq_of(req.headers) == Some(d.remote_cseq as nat) && 1 <= d.remote_cseq <= 0x7fff_ffff && d.local_cseq == 0
    }
}
/// when no dialog may be made of a request and its response
pub open spec fn unborn(uac: bool, req: Request, resp: Response, l: SipUri, r: SipUri) -> bool {
    let src = if uac { resp.headers } else { req.headers };
    ||| state_for(resp.start.code).is_none() || id_ft(resp.headers).is_none()
    ||| !uri_ok(l) || !uri_ok(r) || !uri_ok(target(src, r)) || route_bad(src)
    ||| cseq_of(req.headers).is_none() || !(1 <= cseq_of(req.headers).unwrap() <= 0x7fff_ffff)
}
pub open spec fn mlit(m: Seq<char>, s: Seq<char>) -> bool { m == s }
/// requests that may move the remote target
pub open spec fn refreshes(m: Method) -> bool { mname(m) == "INVITE"@ || mname(m) == "UPDATE"@ || mname(m) == "SUBSCRIBE"@ || mname(m) == "NOTIFY"@ || mname(m) == "REFER"@ }
/// identity, side, addresses: fixed for life
pub open spec fn same_dialog(a: Dialog, b: Dialog) -> bool {
    a.id == b.id && a.local_uri == b.local_uri && a.remote_uri == b.remote_uri && a.secure == b.secure && a.is_uac == b.is_uac
}
/// states only move from early to confirmed to terminated
pub open spec fn rank(s: DialogStateType) -> int { match s { DialogStateType::Early => 0, DialogStateType::Confirmed => 1, DialogStateType::Terminated => 2 } }
pub open spec fn forward(a: Dialog, b: Dialog) -> bool { rank(a.state) <= rank(b.state) }
impl Dialog {
//@fn Dialog::new_uac
    ensures
        r matches Some(d) ==> born(d, true, *req, *resp, local_uri, remote_uri), // [P07] [P06]
        r is None ==> unborn(true, *req, *resp, local_uri, remote_uri), // [P07]
//@end
//@fn Dialog::new_uas
    ensures
        r matches Some(d) ==> born(d, false, *req, *resp, local_uri, remote_uri), // [P07] [P06]
        r is None ==> unborn(false, *req, *resp, local_uri, remote_uri), // [P07]
//@end
//@fn Dialog::id
    ensures *r == self.id,
//@end
//@fn Dialog::state
    ensures r == self.state,
//@end
//@fn Dialog::remote_target
    ensures *r == self.remote_target,
//@end
//@fn Dialog::route_set
@rewrite & self . route_set ==> self.route_set.as_slice()
    ensures r@ == self.route_set@,
//@end
//@fn Dialog::local_cseq
    ensures r == self.local_cseq,
//@end
//@fn Dialog::remote_cseq
    ensures r == self.remote_cseq,
//@end
//@fn Dialog::last_ack_cseq
    ensures r == self.last_ack_cseq,
//@end
//@fn Dialog::secure
    ensures r == self.secure,
//@end
//@fn Dialog::is_uac
    ensures r == self.is_uac,
//@end
//@fn Dialog::set_session_expires
@props P07,P10
    ensures
        match r { Ok(_) => 90 <= expires@ / 1_000_000_000 <= 86400 && *final(self) == (Dialog { session_expires: Some(expires), ..*old(self) }),
            Err(_) => !(90 <= expires@ / 1_000_000_000 <= 86400) && *final(self) == *old(self) },
//@end
//@fn Dialog::confirm
@props P07
    ensures *final(self) == (Dialog { state: if old(self).state == DialogStateType::Early { DialogStateType::Confirmed } else { old(self).state }, ..*old(self) }),
//@end
//@fn Dialog::terminate
@props P07
    ensures *final(self) == (Dialog { state: DialogStateType::Terminated, ..*old(self) }),
//@end
//@fn Dialog::next_local_cseq
    ensures
        final(self).local_cseq == r, old(self).local_cseq < u32::MAX ==> r == old(self).local_cseq + 1, // [P06]
        r >= old(self).local_cseq, // [P06]
        *final(self) == (Dialog { local_cseq: r, ..*old(self) }), // [P06] [P07]
//@end
//@fn Dialog::update_from_response
    ensures
        final(self).local_cseq == old(self).local_cseq, final(self).remote_cseq == old(self).remote_cseq, final(self).last_ack_cseq == old(self).last_ack_cseq, // [P06]
        same_dialog(*old(self), *final(self)), forward(*old(self), *final(self)), // [P07]
        // redirects and failures leave the dialog as it is
        resp.start.code >= 300 ==> *final(self) == *old(self), // [P07]
        resp.start.code < 300 ==> final(self).remote_target == target(resp.headers, old(self).remote_target), // [P07]
        // the route is completed only by the answer that confirms an early dialog
        old(self).state == DialogStateType::Early && 200 <= resp.start.code < 300 && uris(rr(resp.headers)).len() > 0 ==>
            final(self).route_set@ == route(resp.headers, true) || (route_bad(resp.headers) && final(self).route_set == old(self).route_set), // [P07]
        !(old(self).state == DialogStateType::Early && 200 <= resp.start.code < 300 && uris(rr(resp.headers)).len() > 0) ==> final(self).route_set == old(self).route_set, // [P07]
        final(self).state == (if old(self).state == DialogStateType::Early && 200 <= resp.start.code < 300 { DialogStateType::Confirmed } else { old(self).state }), // [P07]
        resp.start.code < 300 && sess(resp.headers).is_some() ==> sess_is(resp.headers, final(self).session_expires, final(self).refresher), // [P07] [P10]
        resp.start.code < 300 && sess(resp.headers).is_none() ==> final(self).session_expires == old(self).session_expires && final(self).refresher == old(self).refresher, // [P07] [P10]
//@end
//@fn Dialog::update_from_request
@rewrite matches ! ( req . method ( ) . as_str ( ) , $*p ) ==> (match req.method().as_str() { $p => true, _ => false })
    ensures
        same_dialog(*old(self), *final(self)), final(self).state == old(self).state, final(self).route_set == old(self).route_set, // [P07]
        final(self).session_expires == old(self).session_expires, final(self).refresher == old(self).refresher, // [P07]
        final(self).local_cseq == old(self).local_cseq, // [P06]
        match r {
            Ok(_) => {
                &&& cseq_of(req.headers).is_some()
                &&& ({ let n = cseq_of(req.headers).unwrap();
                    if mname(req.start.method) == "ACK"@ {
                        // an ACK repeats the number of the request it acknowledges
                        n == old(self).remote_cseq && n > 0 && final(self).remote_cseq == old(self).remote_cseq && final(self).last_ack_cseq == Some(n as u32)
                    } else {
                        // any other request is newer than everything accepted before
                        n > old(self).remote_cseq && 1 <= n <= 0x7fff_ffff && final(self).remote_cseq == n && final(self).last_ack_cseq == old(self).last_ack_cseq
                            && (old(self).remote_cseq > 0 ==> n - old(self).remote_cseq <= 1000)
                    } })
            },
            Err(_) => *final(self) == *old(self),
        }, // [P06]
        r is Err ==> ({ let n = cseq_of(req.headers); n.is_none() || n.unwrap() == 0 || (if mname(req.start.method) == "ACK"@ { n.unwrap() != old(self).remote_cseq }
            else { n.unwrap() > 0x7fff_ffff || n.unwrap() <= old(self).remote_cseq || (old(self).remote_cseq > 0 && n.unwrap() - old(self).remote_cseq > 1000) }) }), // [P06]
        r is Ok ==> final(self).remote_target == (if refreshes(req.start.method) { target(req.headers, old(self).remote_target) } else { old(self).remote_target }), // [P07]
@entry
    proof { reveal_strlit("ACK"); reveal_strlit("INVITE"); reveal_strlit("UPDATE"); reveal_strlit("SUBSCRIBE"); reveal_strlit("NOTIFY"); reveal_strlit("REFER"); }
//@end
//@fn Dialog::matches_request
@props P08
    ensures r == (id_ft(req.headers).is_some() && swapped(id_ft(req.headers).unwrap()) == self.id@),
//@end
}
// ---- the two sides agree --------------------------------------------------------
/// THEOREM: caller and callee derive mirrored identities from one exchange, each goes to the other's contact, and the
/// callee's route is the caller's, reversed, when both messages carry the same Record-Route list
proof fn mirrored(a: Dialog, b: Dialog, req: Request, resp: Response, l: SipUri, r: SipUri, l2: SipUri, r2: SipUri)
    requires born(a, true, req, resp, l, r), born(b, false, req, resp, l2, r2)
    ensures b.id@ == swapped(a.id@), a.state == b.state, a.local_cseq == b.remote_cseq,
        hall(req.headers, "Record-Route"@) == hall(resp.headers, "Record-Route"@) ==> a.route_set@ =~= b.route_set@.reverse(),
{ }
// ---- sequence numbers over a whole history ----------------------------------------
pub enum Ev { In(nat, bool, bool), Out(u32) } // number, is it an ACK, accepted
pub open spec fn step(a: Dialog, e: Ev, b: Dialog) -> bool {
    match e {
        Ev::In(n, ack, true) => b.local_cseq == a.local_cseq && if ack { n == a.remote_cseq && b.remote_cseq == a.remote_cseq } else { n > a.remote_cseq && n <= 0x7fff_ffff && b.remote_cseq == n },
        Ev::In(n, ack, false) => b == a,
        Ev::Out(r) => b.remote_cseq == a.remote_cseq && b.local_cseq == r && r == a.local_cseq + 1,
    }
}
pub open spec fn run(ds: Seq<Dialog>, es: Seq<Ev>) -> bool { ds.len() == es.len() + 1 && forall|i: int| 0 <= i < es.len() ==> step(ds[i], #[trigger] es[i], ds[i + 1]) }
proof fn grows(ds: Seq<Dialog>, es: Seq<Ev>, i: int, j: int)
    requires run(ds, es), 0 <= i <= j <= es.len()
    ensures ds[i].remote_cseq <= ds[j].remote_cseq, ds[i].local_cseq <= ds[j].local_cseq
    decreases j - i
{ if i < j { grows(ds, es, i, j - 1); assert(step(ds[j - 1], es[j - 1], ds[j])); } }
/// THEOREM: over any history, accepted requests other than ACK and generated requests carry strictly increasing numbers
proof fn only_forward(ds: Seq<Dialog>, es: Seq<Ev>, i: int, j: int)
    requires run(ds, es), 0 <= i < j < es.len()
    ensures
        (es[i] matches Ev::In(n, false, true) && es[j] matches Ev::In(m, false, true)) ==> es[i]->In_0 < es[j]->In_0,
        (es[i] matches Ev::Out(n) && es[j] matches Ev::Out(m)) ==> es[i]->Out_0 < es[j]->Out_0,
{ grows(ds, es, i + 1, j); assert(step(ds[i], es[i], ds[i + 1])); assert(step(ds[j], es[j], ds[j + 1])); }
} // verus!
