//@rewrite : impl Into < SmolStr > ==> : impl ToSmol
//@rewrite call_id . into ( ) ==> call_id.to_smol()
//@rewrite local_tag . into ( ) ==> local_tag.to_smol()
//@rewrite remote_tag . into ( ) ==> remote_tag.to_smol()
//@rewrite from_tag . into ( ) ==> from_tag.to_smol()
//@rewrite to_tag . into ( ) ==> to_tag.to_smol()
//@rewrite event . into ( ) ==> event.to_smol()
//@rewrite & self . call_id ==> self.call_id.as_str()
//@rewrite & self . local_tag ==> self.local_tag.as_str()
//@rewrite & self . remote_tag ==> self.remote_tag.as_str()
//@rewrite & self . from_tag ==> self.from_tag.as_str()
//@rewrite & self . to_tag ==> self.to_tag.as_str()
//@rewrite & self . event ==> self.event.as_str()
//@rewrite format ! ( $*x ) ==> x_fmt()
//@rewrite . to_string ( ) ==> .x_owned()
//@rewrite | c | c . is_control ( ) ==> |c: char| -> (b: bool) ensures b == is_ctrl(c) { c.is_control() }
//@rewrite value . rfind ( $c ) ==> value.as_str().x_rfind_c($c)
//@rewrite & value [ $*a .. ] ==> value.as_str().x_from($a)
//@rewrite trimmed . get ( .. $n ) ==> trimmed.x_get_to($n)
//@rewrite & trimmed [ $*a .. ] ==> trimmed.x_from($a)
//@rewrite trimmed [ $*a .. ] ==> trimmed.x_from($a)
//@rewrite & trimmed [ $*a .. $*b ] ==> trimmed.x_sub($a, $b)
//@rewrite params . split ( $c ) . find_map ( | $s | $*b ) ==> { let ps__ = params.x_split_c($c); let mut f__: Option<SmolStr> = None; let mut i__: usize = 0; while i__ < ps__.len() { let $s = ps__[i__]; let t__ = $b; if t__.is_some() { f__ = t__; break; } i__ += 1; } f__ }
verus! {
#[verifier::external_body] pub fn x_fmt() -> (r: String) { unimplemented!() }
pub trait XOwned { fn x_owned(&self) -> String; }
impl XOwned for str { #[verifier::external_body] fn x_owned(&self) -> String { unimplemented!() } }
/// compact header names
pub uninterp spec fn canon(n: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn canonical_header_name(name: &str) -> (r: SmolStr) ensures r@ == canon(name@) { unimplemented!() }
/// the value of the first header of that name, or of its long name
pub open spec fn hdr(h: Headers, n: Seq<char>) -> Option<Seq<char>> { if hget(h, n).is_some() { hget(h, n) } else { hget(h, canon(n)) } }
//@file crates/sip-parse/src/lib.rs
//@fn header
@rewrite . or_else ( || $*e ) ==> .or($e)
    ensures match r { Some(v) => hdr(*headers, name@) == Some(v@), None => hdr(*headers, name@).is_none() },
//@end
//@file crates/sip-dialog/src/lib.rs
//@const MAX_CALL_ID_LENGTH
//@const MAX_TAG_LENGTH
//@const MAX_URI_LENGTH
//@const MAX_ROUTE_SET_SIZE
//@const MAX_CSEQ_VALUE
//@const MAX_CSEQ_JUMP
//@const MIN_SESSION_EXPIRES
//@const MAX_SESSION_EXPIRES
//@enum DialogError
//@struct DialogId
impl Clone for DialogId { #[verifier::external_body] fn clone(&self) -> (r: DialogId) ensures r == *self { unimplemented!() } }
impl View for DialogId { type V = (Seq<char>, Seq<char>, Seq<char>); open spec fn view(&self) -> (Seq<char>, Seq<char>, Seq<char>) { (self.call_id@, self.local_tag@, self.remote_tag@) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DialogId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &DialogId) -> bool { self@ == other@ }
}
impl PartialEq for DialogId { #[verifier::external_body] fn eq(&self, o: &DialogId) -> (r: bool) { unimplemented!() } }
impl Eq for DialogId {}
// ---- the tag of a From / To header ----
/// the header parameters: everything after the address
pub open spec fn params_of(s: Seq<char>) -> Seq<char> { if occ(s, Pat::C('>')) { s.skip(lidx(s, Pat::C('>')) + 1) } else { s } }
pub open spec fn tag_field(f: Seq<char>) -> Option<Seq<char>> {
    let t = trim_s(f);
    if t.len() >= 4 && eq_ci(t.take(4), "tag="@) { Some(t.skip(4)) } else { None }
}
pub open spec fn first_tag(f: Seq<Seq<char>>, i: int) -> Option<Seq<char>> decreases f.len() - i
{ if i < 0 || i >= f.len() { None } else if tag_field(f[i]).is_some() { tag_field(f[i]) } else { first_tag(f, i + 1) } }
pub open spec fn tag_in(s: Seq<char>) -> Option<Seq<char>> { first_tag(fields(params_of(s), ';'), 0) }
proof fn tag_prefix(t: Seq<char>)
    ensures
        t.len() >= 4 && eq_ci(t.take(4), "tag="@) ==> bnd(t, 4) && cidx(t, 4) == 4,
        bnd(t, 4) && eq_ci(t.take(cidx(t, 4)), "tag="@) ==> cidx(t, 4) == 4 && t.len() >= 4,
{
    reveal_strlit("tag=");
    if t.len() >= 4 && eq_ci(t.take(4), "tag="@) {
        assert forall|i: int| 0 <= i < 4 implies (#[trigger] t.take(4)[i] as u32) < 128 by {
            assert(lower(t.take(4))[i] == lower("tag="@)[i]);
        }
        sl::at_ascii(t, 4);
    }
    if bnd(t, 4) && eq_ci(t.take(cidx(t, 4)), "tag="@) {
        assert(lower(t.take(cidx(t, 4))).len() == lower("tag="@).len());
    }
}
//@fn extract_tag
@props P07
    ensures match r { Some(t) => tag_in(value@) == Some(t@), None => tag_in(value@).is_none() },
@entry
    broadcast use {sx::last_is, sl::step_ascii};
    assert forall|t: Seq<char>| (#[trigger] bnd(t, 4) && eq_ci(t.take(cidx(t, 4)), "tag="@)) == (t.len() >= 4 && eq_ci(t.take(4), "tag="@)) by { tag_prefix(t); }
    assert forall|t: Seq<char>| t.len() >= 4 && eq_ci(#[trigger] t.take(4), "tag="@) implies bnd(t, 4) && cidx(t, 4) == 4 by { tag_prefix(t); }
@loop 1
    invariant_except_break f__.is_none(), first_tag(fields(params@, ';'), 0) == first_tag(fields(params@, ';'), i__ as int),
    invariant 0 <= i__ <= ps__.len(), ps__.len() == fields(params@, ';').len(),
        forall|i: int| 0 <= i < ps__@.len() ==> (#[trigger] ps__@[i])@ == fields(params@, ';')[i],
        params@ == params_of(value@),
        forall|t: Seq<char>| (#[trigger] bnd(t, 4) && eq_ci(t.take(cidx(t, 4)), "tag="@)) == (t.len() >= 4 && eq_ci(t.take(4), "tag="@)),
        forall|t: Seq<char>| t.len() >= 4 && eq_ci(#[trigger] t.take(4), "tag="@) ==> bnd(t, 4) && cidx(t, 4) == 4,
    ensures match f__ { Some(t) => tag_in(value@) == Some(t@), None => tag_in(value@).is_none() },
    decreases ps__.len() - i__,
//@end
impl DialogId {
//@fn DialogId::call_id
    ensures r@ == self@.0,
//@end
//@fn DialogId::local_tag
    ensures r@ == self@.1,
//@end
//@fn DialogId::remote_tag
    ensures r@ == self@.2,
//@end
//@fn DialogId::unchecked_new
    ensures r@ == (call_id.tv(), local_tag.tv(), remote_tag.tv()),
//@end
//@fn DialogId::from_request
@props P07,P08
    ensures match r { Some(d) => id_ft(req.headers) == Some(d@), None => id_ft(req.headers).is_none() },
//@end
//@fn DialogId::from_response_uac
@props P07,P08
    ensures match r { Some(d) => id_ft(resp.headers) == Some(d@), None => id_ft(resp.headers).is_none() },
//@end
//@fn DialogId::from_response_uas
@props P07,P08
    ensures match r { Some(d) => id_ft(resp.headers).is_some() && id_ft(resp.headers).unwrap() == swapped(d@), None => id_ft(resp.headers).is_none() },
//@end
}
/// Call-ID, From tag, To tag of a message
pub open spec fn id_ft(h: Headers) -> Option<(Seq<char>, Seq<char>, Seq<char>)> {
    let c = hdr(h, "Call-ID"@); let f = hdr(h, "From"@); let t = hdr(h, "To"@);
    if c.is_some() && f.is_some() && t.is_some() && tag_in(f.unwrap()).is_some() && tag_in(t.unwrap()).is_some() {
        Some((c.unwrap(), tag_in(f.unwrap()).unwrap(), tag_in(t.unwrap()).unwrap()))
    } else { None }
}
pub open spec fn swapped(d: (Seq<char>, Seq<char>, Seq<char>)) -> (Seq<char>, Seq<char>, Seq<char>) { (d.0, d.2, d.1) }
} // verus!
