//@rewrite for ( $i , $h ) in headers . iter ( ) . enumerate ( ) { $*b } ==> let mut i__: usize = 0; while i__ < headers.inner.len() { let $i = i__; let $h = &headers.inner[i__]; i__ += 1; $b }
//@rewrite for ( $i , $h ) in headers . clone ( ) . into_iter ( ) . enumerate ( ) { $*b } ==> let v__ = headers.clone().into_inner(); let mut i__: usize = 0; while i__ < v__.len() { let $i = i__; let $h = v__[i__].clone(); i__ += 1; $b }
//@rewrite new_headers . extend ( $*e ) ; ==> let mut more__ = ($e).into_inner(); new_headers.append(&mut more__);
//@rewrite . expect ( $*m ) ==> .x_must()
//@rewrite Header :: new ( "Via" , via_value ) ==> Header::new("Via", via_value.as_str())
//@rewrite MAGIC_COOKIE : & str ==> MAGIC_COOKIE: &'static str
//@rewrite MAGIC_COOKIE . len ( ) + 1 ==> { proof { cookie_len(); } MAGIC_COOKIE.len() + 1 }
//@rewrite trimmed . bytes ( ) . all ( | $b | $*c ) ==> trimmed.x_all_digits()
//@include ../headers
//@rewrite BTreeMap < SmolStr , Option < SmolStr > > ==> BMap<Option<SmolStr>>
//@rewrite BTreeMap :: new ( ) ==> BMap::new()
//@rewrite validate_transport ( & transport ) ==> validate_transport(transport.as_str())
//@rewrite validate_sent_by ( & sent_by ) ==> validate_sent_by(sent_by.as_str())
//@rewrite validate_param_name ( & name ) ==> validate_param_name(name.as_str())
//@rewrite validate_param_value ( & v ) ==> validate_param_value(v.as_str())
//@rewrite let $x = $x . into ( ) ; ==>
//@rewrite SmolStr :: new ( $*e . to_ascii_lowercase ( ) ) ==> SmolStr::from_string($e.to_ascii_lowercase())
//@rewrite & self . transport ==> self.transport.as_str()
//@rewrite & self . sent_by ==> self.sent_by.as_str()
//@include errx
//@include strit
//@include fmt
//@include anyhow
verus! {
pub mod hx {
    use vstd::prelude::*;
    use super::sx::*;
    pub open spec fn only_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub trait XDig { spec fn dv(&self) -> Seq<char>;
        /// every byte is an ASCII digit (bytes of other characters are >= 128)
        fn x_all_digits(&self) -> (r: bool) ensures r == only_digits(self.dv()); }
    impl XDig for str { open spec fn dv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_all_digits(&self) -> (r: bool) { unimplemented!() } }
}
use hx::*;
//@file crates/sip-core/src/max_forwards.rs
//@enum MaxForwardsError
//@const MAX_FORWARDS_MAX
//@const MAX_BRANCH_LENGTH
//@const MAGIC_COOKIE
//@const MIN_BRANCH_LENGTH exec | MIN_BRANCH_LENGTH == 8
proof fn cookie_len() ensures blen(cookie()) == 7, cookie().len() == 7, all_vtok(cookie()) { reveal_strlit("z9hG4bK"); blen_ascii(cookie()); }
/// a hop limit as the grammar allows it: digits only, at most 255
pub open spec fn limit(s: Seq<char>) -> Option<nat> { let t = trim_s(s); if all_digits(t) && dec(t) <= 255 { Some(dec(t)) } else { None } }
pub open spec fn mf() -> Seq<char> { "Max-Forwards"@ }
pub proof fn digits_ok(n: nat)
    requires n <= 255
    ensures val_ok(dtext(n)), limit(dtext(n)) == Some(n)
{
    dtext_dec(n);
    assert(pow10(3) == 1000) by { reveal_with_fuel(pow10, 4); }
    dtext_len(n, 3, 1000);
    blen_ascii(dtext(n));
    no_trim(dtext(n));
}
proof fn no_trim(s: Seq<char>)
    requires s.len() > 0, all_digits(s)
    ensures trim_s(s) == s
{ assert(is_digit(s[0])); assert(is_digit(s.last())); assert(!is_ws(s[0])) by { ws_ascii(s[0]); } assert(!is_ws(s.last())) by { ws_ascii(s.last()); } }
proof fn mf_text()
    ensures name_ok(mf()), val_ok("69"@), "69"@ == dtext(69)
{
    reveal_strlit("Max-Forwards"); reveal_strlit("69");
    blen_ascii(mf()); blen_ascii("69"@);
    reveal_with_fuel(dtext, 3);
    assert("69"@ =~= dtext(69));
}
pub proof fn get_pos(h: Seq<Header>, n: Seq<char>, i: int)
    requires 0 <= i
    ensures hget_from(h, n, i).is_some() == hpos(h, n, i).is_some(), hpos(h, n, i).is_some() ==> hget_from(h, n, i) == Some(h[hpos(h, n, i).unwrap()].value@)
    decreases h.len() - i
{ if i < h.len() { get_pos(h, n, i + 1); } }
proof fn limit_num(s: Seq<char>)
    ensures all_digits(trim_s(s)) ==> unum(trim_s(s), 65535) == (if dec(trim_s(s)) <= 65535 { Some(dec(trim_s(s))) } else { None })
{ if all_digits(trim_s(s)) { assert(is_digit(trim_s(s)[0])); } }
//@fn decrement_max_forwards
@rewrite decremented . to_string ( ) ==> decremented.x_text().as_str()
@rewrite ? . into ( ) ==> ? as u32
    requires hs_ok(*old(headers)),
    ensures hs_ok(*final(headers)),
        match r {
            Ok(n) => match hget(*old(headers), mf()) {
                Some(v) => limit(v) == Some(n as nat + 1) && sets(old(headers).inner@, final(headers).inner@, mf(), dtext(n as nat)),
                None => n == 69 && final(headers).inner@.drop_last() == old(headers).inner@ && final(headers).inner@.last().name@ == mf() && final(headers).inner@.last().value@ == dtext(69),
            },
            Err(e) => final(headers).inner@ == old(headers).inner@ && match hget(*old(headers), mf()) {
                Some(v) => if limit(v) == Some(0nat) { e == MaxForwardsError::Exhausted } else { limit(v).is_none() && e == MaxForwardsError::Invalid },
                None => old(headers).inner@.len() >= 200,
            },
        },
@entry
    proof {
        mf_text();
        get_pos(headers.inner@, mf(), 0);
        if let Some(v) = hget(*headers, mf()) { limit_num(v); }
        assert forall|n: nat| n <= 255 implies val_ok(#[trigger] dtext(n)) by { digits_ok(n); }
    }
//@end
pub open spec fn cookie() -> Seq<char> { "z9hG4bK"@ }
/// characters of a Via token here (RFC 3261 token)
pub open spec fn vtok(c: char) -> bool { is_alnum(c) || c == '-' || c == '.' || c == '!' || c == '%' || c == '*' || c == '_' || c == '+' || c == '`' || c == '\'' || c == '~' }
pub open spec fn all_vtok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> vtok(#[trigger] s[i]) }
pub open spec fn branch_ok(s: Seq<char>) -> bool { all_vtok(s) && at(s, Pat::S(cookie()), 0) && 8 <= blen(s) <= 256 }
//@fn is_valid_branch
    ensures r == branch_ok(branch@),
@loop 1
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> !is_actl(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == branch@,
    ensures f__ == (exists|j: int| 0 <= j < branch@.len() && is_actl(#[trigger] branch@[j])),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> vtok(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == branch@,
    ensures f__ == all_vtok(branch@),
    decreases cs__@.len() - i__,
@afterloop 1
    proof { if f__ { let j = choose|j: int| 0 <= j < branch@.len() && is_actl(#[trigger] branch@[j]); assert(!vtok(branch@[j])); } }
//@end

// ---- Via ------------------------------------------------------------------------------------------
//@file crates/sip-core/src/via.rs
//@const MAX_TRANSPORT_LENGTH
//@const MAX_SENT_BY_LENGTH
//@const MAX_PARAM_NAME_LENGTH
//@const MAX_PARAM_VALUE_LENGTH
//@const MAX_PARAMS
//@enum ViaError
//@struct ViaHeader
pub open spec fn transport_ok(s: Seq<char>) -> bool { 0 < blen(s) <= 32 && all_vtok(s) }
pub open spec fn port_ok(s: Seq<char>) -> bool { all_digits(s) && 1 <= dec(s) <= 65535 }
pub open spec fn v6c(c: char) -> bool { is_hex(c) || c == ':' || c == '.' }
pub open spec fn hostc(c: char) -> bool { is_alnum(c) || c == '.' || c == '-' || c == '_' }
pub open spec fn all_v6(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> v6c(#[trigger] s[i]) }
pub open spec fn all_host(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hostc(#[trigger] s[i]) }
pub open spec fn v6_by(s: Seq<char>) -> bool {
    occ(s, Pat::C(']')) && {
        let e = fidx(s, Pat::C(']')); let h = s.subrange(1, e); let rest = s.skip(e + 1);
        h.len() > 0 && all_v6(h) && (rest.len() == 0 || (rest[0] == ':' && port_ok(rest.skip(1))))
    }
}
pub open spec fn name_by(s: Seq<char>) -> bool {
    !occ(s, Pat::C('[')) && !occ(s, Pat::C(']')) && fields(s, ':').len() <= 2
        && if occ(s, Pat::C(':')) { let k = lidx(s, Pat::C(':')); k > 0 && all_host(s.take(k)) && port_ok(s.skip(k + 1)) } else { s.len() > 0 && all_host(s) }
}
pub open spec fn by_ok(s: Seq<char>) -> bool { 0 < blen(s) <= 256 && !has_ctrl(s) && if at(s, Pat::C('['), 0) { v6_by(s) } else { name_by(s) } }
pub open spec fn pname_ok(s: Seq<char>) -> bool { 0 < blen(s) <= 64 && all_vtok(s) }
pub open spec fn pval_ok(s: Seq<char>) -> bool { blen(s) <= 256 && !has_ctrl(s) }
/// the invariant of a Via value
pub open spec fn via_ok(v: ViaHeader) -> bool {
    transport_ok(v.transport@) && by_ok(v.sent_by@) && params_ok(v.params@)
}
pub open spec fn params_ok(p: Map<Seq<char>, Option<SmolStr>>) -> bool {
    p.dom().len() <= 20 && forall|k: Seq<char>| #[trigger] p.contains_key(k) ==> pname_ok(k) && lower(k) == k && (p[k] matches Some(x) ==> pval_ok(x@))
}
/// the entry without the blanks and tabs around it
pub uninterp spec fn lws_trim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn x_trim_lws(s: &str) -> (r: &str) ensures r@ == lws_trim(s@) { unimplemented!() }
/// any control character other than tab
#[verifier::external_body] pub fn x_any_ctrl_not_tab(s: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < s@.len() && is_ctrl(#[trigger] s@[i]) && s@[i] != '\t') { unimplemented!() }
/// what the entry says before its parameters: SIP/2.0/transport, blank, sent-by
pub open spec fn via_text(s: Seq<char>, transport: Seq<char>, by: Seq<char>) -> bool {
    let w = ws_fields(trim_s(fields(lws_trim(s), ';')[0])); let p = fields(w[0], '/');
    w.len() == 2 && w[1] == by && p.len() == 3 && eq_ci(p[0], "SIP"@) && p[1] == "2.0"@ && p[2] == transport
}
proof fn vtok_noctrl(s: Seq<char>) ensures all_vtok(s) ==> !has_ctrl(s)
{ if all_vtok(s) && has_ctrl(s) { let i = choose|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]); assert(vtok(s[i])); ctrl_ascii(s[i]); } }
proof fn lower_name(s: Seq<char>) ensures pname_ok(s) ==> pname_ok(lower(s)), lower(lower(s)) == lower(s)
{
    assert(lower(lower(s)) =~= lower(s));
    if pname_ok(s) {
        assert forall|i: int| 0 <= i < s.len() implies vtok(#[trigger] lower(s)[i]) by { assert(vtok(s[i])); }
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(vtok(s[i])); }
        blen_ascii(s);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] lower(s)[i] as u32) < 128 by { assert(vtok(lower(s)[i])); }
        blen_ascii(lower(s));
    }
}
//@fn is_token_char
    ensures r == vtok(c),
//@end
//@fn validate_transport
    ensures r.is_ok() == transport_ok(transport@),
@entry
    proof { vtok_noctrl(transport@); blen_len(transport@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> vtok(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == transport@,
    ensures f__ == all_vtok(transport@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_port
@rewrite ( $a ..= $b ) . contains ( & $c ) ==> ($a <= $c && $c <= $b)
    ensures r.is_ok() == port_ok(port@),
@entry
    proof { if all_digits(port@) { assert(is_digit(port@[0])); } }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> is_digit(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == port@,
    ensures f__ == only_digits(port@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_sent_by
@rewrite & sent_by [ $*a .. ] ==> sent_by.x_from($a)
@rewrite & sent_by [ .. $*a ] ==> sent_by.x_to($a)
@rewrite & sent_by [ 1 .. $*b ] ==> sent_by.x_sub(1, $b)
@rewrite sent_by . rfind ( $*p ) ==> sent_by.x_rfind_c($p)
@rewrite sent_by . matches ( $*p ) . count ( ) ==> (sent_by.x_split_c($p).len() - 1)
    ensures r.is_ok() == by_ok(sent_by@),
@entry
    broadcast use {sx::first_is, sx::last_is, sl::step_ascii, sl::at_zero};
    proof { blen_len(sent_by@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> v6c(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == host@,
    ensures f__ == all_v6(host@),
    decreases cs__@.len() - i__,
@loop 2
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> hostc(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == host@,
    ensures f__ == all_host(host@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_param_name
    ensures r.is_ok() == pname_ok(name@),
@entry
    proof { blen_len(name@); }
@loop 1
    invariant_except_break f__, forall|j: int| 0 <= j < i__ ==> vtok(#[trigger] cs__@[j]),
    invariant 0 <= i__ <= cs__@.len(), cs__@ == name@,
    ensures f__ == all_vtok(name@),
    decreases cs__@.len() - i__,
//@end
//@fn validate_param_value
    ensures r.is_ok() == pval_ok(value@),
//@end
impl ViaHeader {
//@fn ViaHeader::new
@sig <>(transport: SmolStr, sent_by: SmolStr) -> Result<Self, ViaError>
    ensures match r { Ok(v) => via_ok(v) && v.transport == transport && v.sent_by == sent_by && v.params@ == Map::<Seq<char>, Option<SmolStr>>::empty(), Err(_) => !(transport_ok(transport@) && by_ok(sent_by@)) },
//@end
//@fn ViaHeader::param
    ensures match r { Some(v) => self.params@.contains_key(lower(name@)) && *v == self.params@[lower(name@)], None => !self.params@.contains_key(lower(name@)) },
//@end
//@fn ViaHeader::transport
    ensures r@ == self.transport@,
//@end
//@fn ViaHeader::sent_by
    ensures r@ == self.sent_by@,
//@end
//@fn ViaHeader::with_param
@fmt
@sig <>(self, name: SmolStr, value: Option<SmolStr>) -> Result<Self, ViaError>
    requires via_ok(self),
    ensures match r {
        Ok(v) => via_ok(v) && v.transport == self.transport && v.sent_by == self.sent_by && !self.params@.contains_key(lower(name@)) && v.params@ == self.params@.insert(lower(name@), value),
        Err(_) => !pname_ok(name@) || self.params@.contains_key(lower(name@)) || self.params@.dom().len() >= 20 || (value matches Some(x) && !pval_ok(x@)) },
@entry
    proof { lower_name(name@); }
//@end
//@fn ViaHeader::add_param
@fmt
@sig <>(&mut self, name: SmolStr, value: Option<SmolStr>) -> Result<(), ViaError>
    requires via_ok(*old(self)),
    ensures via_ok(*final(self)), final(self).transport == old(self).transport, final(self).sent_by == old(self).sent_by,
        match r {
        Ok(_) => !old(self).params@.contains_key(lower(name@)) && final(self).params@ == old(self).params@.insert(lower(name@), value),
        Err(_) => final(self).params == old(self).params && (!pname_ok(name@) || old(self).params@.contains_key(lower(name@)) || old(self).params@.dom().len() >= 20 || (value matches Some(x) && !pval_ok(x@))) },
@entry
    proof { lower_name(name@); }
//@end
//@fn ViaHeader::set_param
@fmt
@sig <>(&mut self, name: SmolStr, value: Option<SmolStr>) -> Result<(), ViaError>
    requires via_ok(*old(self)),
    ensures via_ok(*final(self)), final(self).transport == old(self).transport, final(self).sent_by == old(self).sent_by,
        match r {
        Ok(_) => final(self).params@ == old(self).params@.insert(lower(name@), value),
        Err(_) => final(self).params == old(self).params && (!pname_ok(name@) || old(self).params@.dom().len() >= 20 || (value matches Some(x) && !pval_ok(x@))) },
@entry
    proof { lower_name(name@); }
//@end
//@fn ViaHeader::parse
@fmt
@prewrite input . chars ( ) . any ( $*a ) ==> x_any_ctrl_not_tab(input)
@rewrite input . trim_matches ( $*a ) ==> x_trim_lws(input)
@rewrite . split ( '/' ) . collect ( ) ==> .x_split_c('/')
@rewrite . split ( ';' ) ==> .x_split_it(';')
@rewrite . split_whitespace ( ) ==> .x_ws_it()
@rewrite let mut params = BTreeMap :: new ( ) ==> let mut params: BMap<Option<SmolStr>> = BMap::new()
    ensures r matches Ok(v) ==> via_ok(v) && via_text(input@, v.transport@, v.sent_by@),
@entry
    broadcast use {sl::fields_some};
@loop 1
    invariant params_ok(params@), parts.wf(),
    decreases parts.v@.len() - parts.i,
@loopbody 1
    proof { assert forall|t: Seq<char>| true implies (#[trigger] pname_ok(t)) ==> pname_ok(lower(t)) && lower(lower(t)) == lower(t) by { lower_name(t); } }
//@end
}

// ---- branches --------------------------------------------------------------------------------------
/// n random letters and digits (rand: which ones is not decided; that they are letters and digits is assumed)
#[verifier::external_body] pub fn x_rand_alnum(n: usize) -> (r: String) ensures r@.len() == n, forall|i: int| 0 <= i < r@.len() ==> is_alnum(#[trigger] r@[i]) { unimplemented!() }
proof fn branch_made(b: Seq<char>, t: Seq<char>)
    requires b == cookie() + t, 1 <= t.len() <= 200, forall|i: int| 0 <= i < t.len() ==> is_alnum(#[trigger] t[i])
    ensures branch_ok(b)
{
    cookie_len();
    assert forall|i: int| 0 <= i < b.len() implies vtok(#[trigger] b[i]) by { if i < 7 { assert(vtok(cookie()[i])); } else { assert(is_alnum(t[i - 7])); } }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i] as u32) < 128 by { assert(vtok(b[i])); }
    blen_ascii(b);
    assert(b.subrange(0, 7) =~= cookie());
}
/// test aid: a counter in place of the random part (sip-uas also reads it in release builds)
#[verifier::external_body] fn deterministic_counter() -> (r: Option<u64>) { unimplemented!() }
/// {:016x} writes 16 lowercase hex digits (assumed)
pub broadcast axiom fn hex16(n: u64) ensures #![trigger fmt_as(&n, "016x"@)] fmt_as(&n, "016x"@).len() == 16, forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] fmt_as(&n, "016x"@)[i]);
//@file crates/sip-transaction/src/lib.rs
//@fn generate_branch_id
@fmt
@rewrite let mut rng = rand :: rng ( ) ; ==>
@rewrite ( & mut rng ) . sample_iter ( Alphanumeric ) . take ( $*n ) . map ( char :: from ) . collect ( ) ==> x_rand_alnum($n)
@rewrite SmolStr :: new ( $*e ) ==> SmolStr::from_string($e)
    ensures branch_ok(r@), r@.len() == 23,
@entry
    broadcast use {hex16};
    proof { cookie_len(); assert forall|t: Seq<char>| 1 <= t.len() <= 200 && (forall|i: int| 0 <= i < t.len() ==> is_alnum(#[trigger] t[i])) implies branch_ok(#[trigger] (cookie() + t)) by { branch_made(cookie() + t, t); } assert(Seq::<char>::empty() + cookie() =~= cookie()); }
//@end
//@file crates/sip-uac/src/lib.rs
//@fn generate_branch as=uac_branch
@fmt
@rewrite rand :: rng ( ) . sample_iter ( Alphanumeric ) . take ( $*n ) . map ( char :: from ) . collect ( ) ==> x_rand_alnum($n)
    ensures branch_ok(r@), r@.len() == 23,
@entry
    broadcast use {hex16};
    proof { cookie_len(); assert forall|t: Seq<char>| 1 <= t.len() <= 200 && (forall|i: int| 0 <= i < t.len() ==> is_alnum(#[trigger] t[i])) implies branch_ok(#[trigger] (cookie() + t)) by { branch_made(cookie() + t, t); } assert(Seq::<char>::empty() + cookie() =~= cookie()); }
//@end
//@file crates/sip-uas/src/lib.rs
//@fn generate_branch as=uas_branch
@fmt
@prewrite use rand :: { distr :: Alphanumeric , RngExt } ; ==>
@rewrite rand :: rng ( ) . sample_iter ( Alphanumeric ) . take ( $*n ) . map ( char :: from ) . collect ( ) ==> x_rand_alnum($n)
    ensures branch_ok(r@), r@.len() == 23,
@entry
    broadcast use {hex16};
    proof { cookie_len(); assert forall|t: Seq<char>| 1 <= t.len() <= 200 && (forall|i: int| 0 <= i < t.len() ==> is_alnum(#[trigger] t[i])) implies branch_ok(#[trigger] (cookie() + t)) by { branch_made(cookie() + t, t); } assert(Seq::<char>::empty() + cookie() =~= cookie()); }
//@end

// ---- the proxy's edits -------------------------------------------------------------------------------
//@file crates/sip-proxy/src/lib.rs
pub struct ProxyHelpers;
/// the loop-detection branch: the cookie and 32 hex digits of a SHA-256 over the request's identity (assumed)
pub uninterp spec fn loop_branch(r: Request, host: Seq<char>) -> Seq<char>;
#[verifier::external_body] fn compute_loop_branch(request: &Request, proxy_host: &str) -> (r: String)
    ensures r@ == loop_branch(*request, proxy_host@), branch_ok(r@) { unimplemented!() }
pub open spec fn via_entry(transport: Seq<char>, host: Seq<char>, branch: Seq<char>) -> Seq<char> { "SIP/2.0/"@ + transport + " "@ + host + ";branch="@ + branch + ";rport"@ }
/// one Via entry, on top of what was there
pub open spec fn via_added(a: Seq<Header>, b: Seq<Header>, v: Seq<char>) -> bool {
    b.len() == a.len() + 1 && b.drop_first() =~= a && b[0].name@ == "Via"@ && b[0].value@ == v
}
/// the topmost Via entry gone, everything else as it was
pub open spec fn via_removed(a: Seq<Header>, b: Seq<Header>) -> bool {
    match hpos(a, "Via"@, 0) { Some(k) => b == a.remove(k), None => b == a }
}
proof fn via_fits(transport: Seq<char>, host: Seq<char>, branch: Seq<char>)
    requires one_line(transport), one_line(host), blen(transport) + blen(host) <= 4096, branch_ok(branch)
    ensures val_ok(via_entry(transport, host, branch)), name_ok("Via"@)
{
    reveal_strlit("Via"); reveal_strlit("SIP/2.0/"); reveal_strlit(" "); reveal_strlit(";branch="); reveal_strlit(";rport");
    blen_ascii("Via"@); blen_ascii("SIP/2.0/"@); blen_ascii(" "@); blen_ascii(";branch="@); blen_ascii(";rport"@);
    let a = "SIP/2.0/"@ + transport; let b = a + " "@; let c = b + host; let d = c + ";branch="@; let e = d + branch;
    blen_cat("SIP/2.0/"@, transport); blen_cat(a, " "@); blen_cat(b, host); blen_cat(c, ";branch="@); blen_cat(d, branch); blen_cat(e, ";rport"@);
    assert forall|i: int| 0 <= i < branch.len() implies (#[trigger] branch[i]) != '\r' && branch[i] != '\n' && branch[i] != '\0' by { assert(vtok(branch[i])); }
    lines_cat("SIP/2.0/"@, transport); lines_cat(a, " "@); lines_cat(b, host); lines_cat(c, ";branch="@); lines_cat(d, branch); lines_cat(e, ";rport"@);
}
proof fn lines_cat(a: Seq<char>, b: Seq<char>) requires one_line(a), one_line(b) ensures one_line(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]) != '\r' && (a + b)[i] != '\n' && (a + b)[i] != '\0' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
impl ProxyHelpers {
//@fn ProxyHelpers::check_max_forwards
    requires hs_ok(old(request).headers),
    ensures hs_ok(final(request).headers), final(request).start == old(request).start, final(request).body == old(request).body,
        match r {
            Ok(_) => match hget(old(request).headers, mf()) {
                Some(v) => limit(v).is_some() && limit(v).unwrap() >= 1 && sets(old(request).headers.inner@, final(request).headers.inner@, mf(), dtext((limit(v).unwrap() - 1) as nat)),
                None => final(request).headers.inner@.drop_last() == old(request).headers.inner@ && final(request).headers.inner@.last().name@ == mf() && final(request).headers.inner@.last().value@ == dtext(69),
            },
            Err(_) => final(request).headers.inner@ == old(request).headers.inner@ && match hget(old(request).headers, mf()) {
                Some(v) => limit(v).is_none() || limit(v) == Some(0nat),
                None => old(request).headers.inner@.len() >= 200,
            },
        },
//@end
//@fn ProxyHelpers::add_via
@fmt
@rewrite let mut new_headers = Vec :: new ( ) ; ==> assert(via_value@ =~= via_entry(transport@, host@, branch@)); let mut new_headers: Vec<Header> = Vec::new();
    requires hs_ok(old(request).headers), old(request).headers.inner@.len() < 200, one_line(transport@), one_line(host@), blen(transport@) + blen(host@) <= 4096,
    ensures hs_ok(final(request).headers), final(request).start == old(request).start, final(request).body == old(request).body,
        branch_ok(r@), via_added(old(request).headers.inner@, final(request).headers.inner@, via_entry(transport@, host@, r@)),
@entry
    proof { assert forall|b: Seq<char>| branch_ok(b) implies val_ok(#[trigger] via_entry(transport@, host@, b)) by { via_fits(transport@, host@, b); } cookie_len(); branch_made(cookie() + seq!['a'], seq!['a']); via_fits(transport@, host@, cookie() + seq!['a']); assert(Seq::<char>::empty() + "SIP/2.0/"@ =~= "SIP/2.0/"@); }
//@end
//@fn ProxyHelpers::add_via_with_loop_detection
@fmt
@rewrite let mut new_headers = Vec :: new ( ) ; ==> assert(via_value@ =~= via_entry(transport@, host@, branch@)); let mut new_headers: Vec<Header> = Vec::new();
    requires hs_ok(old(request).headers), old(request).headers.inner@.len() < 200, one_line(transport@), one_line(host@), blen(transport@) + blen(host@) <= 4096,
    ensures hs_ok(final(request).headers), final(request).start == old(request).start, final(request).body == old(request).body,
        r@ == loop_branch(*old(request), host@), branch_ok(r@), via_added(old(request).headers.inner@, final(request).headers.inner@, via_entry(transport@, host@, r@)),
@entry
    proof { assert forall|b: Seq<char>| branch_ok(b) implies val_ok(#[trigger] via_entry(transport@, host@, b)) by { via_fits(transport@, host@, b); } cookie_len(); branch_made(cookie() + seq!['a'], seq!['a']); via_fits(transport@, host@, cookie() + seq!['a']); assert(Seq::<char>::empty() + "SIP/2.0/"@ =~= "SIP/2.0/"@); }
//@end
//@fn ProxyHelpers::remove_top_via
    requires hs_ok(*old(headers)),
    ensures hs_ok(*final(headers)), via_removed(old(headers).inner@, final(headers).inner@),
@loop 1
    invariant_except_break found_index.is_none(), hpos(headers.inner@, "Via"@, 0) == hpos(headers.inner@, "Via"@, i__ as int),
    invariant headers.inner@ == old(headers).inner@, 0 <= i__ <= headers.inner.len(),
    ensures match found_index { Some(k) => hpos(headers.inner@, "Via"@, 0) == Some(k as int) && 0 <= k < headers.inner@.len(), None => hpos(headers.inner@, "Via"@, 0).is_none() },
    decreases headers.inner.len() - i__,
@loop 2
    invariant 0 <= i__ <= v__.len(), v__@ == old(headers).inner@, headers.inner@ == old(headers).inner@, 0 <= index < v__.len(), hs_ok(*old(headers)),
        new_headers@ =~= (if i__ <= index { v__@.take(i__ as int) } else { v__@.take(i__ as int).remove(index as int) }),
    decreases v__.len() - i__,
@afterloop 2
    proof { assert(v__@.take(v__@.len() as int) =~= v__@); }
//@end
//@fn ProxyHelpers::set_request_uri
@sig (request: &mut Request, target_uri: Uri)
    requires req_ok(*old(request)),
    ensures final(request).start.uri == target_uri, final(request).start.method == old(request).start.method, final(request).headers == old(request).headers, final(request).body@ == old(request).body@, req_ok(*final(request)),
//@end
}
/// adding an entry on top and removing the topmost one gives back the list
pub proof fn thm_via_stack(a: Seq<Header>, b: Seq<Header>, c: Seq<Header>, v: Seq<char>)
    requires via_added(a, b, v), via_removed(b, c)
    ensures c == a
{ assert(hpos(b, "Via"@, 0) == Some(0int)); assert(b.remove(0) =~= b.drop_first()); }
/// removing the topmost Via takes only that value: the rest of the Via values stay, in order
pub proof fn thm_hops_finite(v: Seq<char>, n: nat)
    requires limit(v) == Some(n)
    ensures n <= 255, n >= 1 ==> limit(dtext((n - 1) as nat)) == Some((n - 1) as nat)
{ if n >= 1 { digits_ok((n - 1) as nat); } }
} // verus!
