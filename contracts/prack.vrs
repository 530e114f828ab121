//@include base
//@include str
//@include strx
//@include time
//@include smol
//@include dmap
//@include anyhow
//@include sipcore
//@include iters
//@rewrite Arc < DashMap < String , Vec < PendingReliable > > > ==> DMap<String, Vec<PendingReliable>>
//@rewrite Arc < DashMap < String , Instant > > ==> DMap<String, Instant>
//@rewrite Arc < DashMap < DialogId , u32 > > ==> DMap<DialogId, u32>
//@rewrite Arc :: new ( $*x ) ==> $x
//@rewrite DashMap :: new ==> DMap::new
//@rewrite ( & self , ==> (&mut self,
//@rewrite . entry ( $*k ) . or_default ( ) ==> .entry_or_insert($k, Vec::new())
//@rewrite last . value ( ) ==> last
//@rewrite entry . value ( ) ==> entry
//@rewrite | p | p . pracked ==> |p: &PendingReliable| -> (b: bool) ensures b == p.pracked { p.pracked }
//@rewrite pending_list . drain ( 0 .. $n ) ==> drain_front(pending_list, $n)
//@rewrite pending_list . iter ( ) . find ( | $p | $*c ) ==> { let mut f__: Option<&PendingReliable> = None; let mut i__: usize = 0; while i__ < pending_list.len() { let $p = &pending_list[i__]; if $c { f__ = Some($p); break; } i__ += 1; } f__ }
//@rewrite pending_list . iter ( ) . filter ( | $p | $*c ) . map ( | $q | $*m ) . collect ( ) ==> { let mut o__ = Vec::new(); let mut i__: usize = 0; while i__ < pending_list.len() { let $p = &pending_list[i__]; if $c { let $q = $p; o__.push($m); } i__ += 1; } o__ }
//@rewrite . and_then ( | v | v . xp_u32 ( ) . ok ( ) ) ==> .and_then(|v: &str| -> (o: Option<u32>) ensures match o { Some(n) => unum(v@, 0xffff_ffff) == Some(n as nat), None => unum(v@, 0xffff_ffff).is_none() } { v.xp_u32().ok() })
//@file crates/sip-dialog/src/prack_validator.rs
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, tm::now_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext};
//@const MAX_PENDING_PRACK_PER_DIALOG
//@const PENDING_PRACK_CLEANUP_INTERVAL_SECS
//@const PENDING_PRACK_TIMEOUT_SECS
//@struct RAck
//@struct PendingReliable
//@struct PrackValidator

pub type Book = Map<Seq<char>, Vec<PendingReliable>>;
/// what the acknowledgement text says: number, request number, method
pub open spec fn method_of(s: Seq<char>) -> Option<Method> {
    let u = uupper(s);
    if u == "INVITE"@ { Some(Method::Invite) } else if u == "ACK"@ { Some(Method::Ack) } else if u == "BYE"@ { Some(Method::Bye) } else if u == "CANCEL"@ { Some(Method::Cancel) } else if u == "REGISTER"@ { Some(Method::Register) } else if u == "OPTIONS"@ { Some(Method::Options) } else if u == "INFO"@ { Some(Method::Info) } else if u == "UPDATE"@ { Some(Method::Update) } else if u == "MESSAGE"@ { Some(Method::Message) } else if u == "PRACK"@ { Some(Method::Prack) } else if u == "REFER"@ { Some(Method::Refer) } else if u == "SUBSCRIBE"@ { Some(Method::Subscribe) } else if u == "NOTIFY"@ { Some(Method::Notify) } else if u == "PUBLISH"@ { Some(Method::Publish) } else { None }
}
pub open spec fn rack_of(s: Seq<char>) -> Option<(nat, nat, Method)> {
    let f = ws_fields(s);
    if f.len() == 3 && unum(f[0], 0xffff_ffff).is_some() && unum(f[1], 0xffff_ffff).is_some() && method_of(f[2]).is_some() {
        Some((unum(f[0], 0xffff_ffff).unwrap(), unum(f[1], 0xffff_ffff).unwrap(), method_of(f[2]).unwrap()))
    } else { None }
}
pub open spec fn rack_is(k: RAck, t: (nat, nat, Method)) -> bool { k.rseq == t.0 && k.cseq == t.1 && k.method == t.2 }
/// still waiting for its acknowledgement and not given up
pub open spec fn live(p: PendingReliable) -> bool { !p.pracked && now_ns() - p.created_at@ <= 300_000_000_000 }
pub open spec fn live_f() -> spec_fn(PendingReliable) -> bool { |p: PendingReliable| live(p) }
pub open spec fn unacked_or_other(rseq: u32) -> spec_fn(PendingReliable) -> bool { |p: PendingReliable| p.rseq != rseq || !p.pracked }
/// never more than ten responses wait on one dialog
pub open spec fn bounded(b: Book) -> bool { forall|id: Seq<char>| b.contains_key(id) ==> (#[trigger] b[id])@.len() <= 10 }
pub open spec fn entries(b: Book, id: Seq<char>) -> Seq<PendingReliable> { if b.contains_key(id) { b[id]@ } else { Seq::empty() } }
/// housekeeping only ever forgets responses that are acknowledged or given up
pub open spec fn tidied(b0: Book, b1: Book, id: Seq<char>) -> bool {
    &&& b1.remove(id) =~= b0.remove(id)
    &&& bounded(b0) ==> bounded(b1)
    &&& b1.contains_key(id) == b0.contains_key(id)
    &&& entries(b1, id) =~= entries(b0, id) || entries(b1, id) =~= kept(entries(b0, id), live_f())
}
/// the response an acknowledgement names
pub open spec fn named(s: Seq<PendingReliable>, i: int, rseq: u32) -> bool {
    0 <= i < s.len() && s[i].rseq == rseq && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).rseq != rseq
}
pub open spec fn acceptable(p: PendingReliable, k: RAck) -> bool { p.rseq == k.rseq && p.cseq == k.cseq && p.method == k.method && !p.pracked }
pub open spec fn acked(p: PendingReliable) -> PendingReliable { PendingReliable { pracked: true, ..p } }

pub open spec fn accepted_from(s: Seq<PendingReliable>, t: Seq<PendingReliable>, k: RAck) -> bool {
    exists|i: int| #[trigger] named(s, i, k.rseq) && acceptable(s[i], k) && t =~= s.update(i, acked(s[i]))
}
pub open spec fn stays(s: Seq<PendingReliable>, t: Seq<PendingReliable>) -> bool {
    t =~= (if s.len() >= 10 { s.skip(s.len() - 9) } else { s })
}
proof fn named_unique(s: Seq<PendingReliable>)
    ensures forall|i: int, j: int, q: u32| #[trigger] named(s, i, q) && #[trigger] named(s, j, q) ==> i == j,
{ }
//@fn parse_method
    ensures r == method_of(s@),
//@end
impl RAck {
//@fn RAck::parse
    ensures match r { Ok(k) => rack_of(value@).is_some() && rack_is(k, rack_of(value@).unwrap()), Err(_) => rack_of(value@).is_none() },
//@end
}
impl PrackValidator {
//@fn PrackValidator::new
    ensures r.pending@ == Book::empty(),
//@end
//@fn PrackValidator::cleanup_pending
    ensures tidied(old(self).pending@, final(self).pending@, dialog_id@),
@loop 1
    invariant
        now@ == now_ns(), timeout@ == 300_000_000_000,
        retaining(v0__, pending_list@, i__ as int, j__, live_f()),
    decreases v0__.len() - j__,
@afterloop 1
    proof { itx::kept_sub(v0__, live_f()); }
//@end
//@fn PrackValidator::register_reliable_provisional
    requires bounded(old(self).pending@),
    ensures
        bounded(final(self).pending@),
        final(self).pending@.remove(dialog_id@) =~= old(self).pending@.remove(dialog_id@),
        entries(final(self).pending@, dialog_id@).len() > 0,
        entries(final(self).pending@, dialog_id@).last() == (PendingReliable { rseq, cseq, method, code, pracked: false, created_at: mki(now_ns()) }),
        // what was there stays there, oldest dropped beyond ten
        stays(entries(old(self).pending@, dialog_id@), entries(final(self).pending@, dialog_id@).drop_last())
            || stays(kept(entries(old(self).pending@, dialog_id@), live_f()), entries(final(self).pending@, dialog_id@).drop_last()),
@entry
    proof { itx::kept_sub(entries(self.pending@, dialog_id@), live_f()); }
//@end
//@fn PrackValidator::validate_prack
    requires bounded(old(self).pending@),
    ensures
        bounded(final(self).pending@),
        final(self).pending@.remove(dialog_id@) =~= old(self).pending@.remove(dialog_id@),
        match r {
            Ok(k) => {
                &&& hget(prack.headers, "RAck"@).is_some()
                &&& rack_of(hget(prack.headers, "RAck"@).unwrap()).is_some()
                &&& rack_is(k, rack_of(hget(prack.headers, "RAck"@).unwrap()).unwrap())
                // it names a response sent on this dialog, not acknowledged before; that one and no other becomes acknowledged
                &&& (accepted_from(entries(old(self).pending@, dialog_id@), entries(final(self).pending@, dialog_id@), k)
                    || accepted_from(kept(entries(old(self).pending@, dialog_id@), live_f()), entries(final(self).pending@, dialog_id@), k))
            },
            Err(_) => {
                &&& tidied(old(self).pending@, final(self).pending@, dialog_id@)
                // nothing acceptable was refused
                &&& ({ let v = hget(prack.headers, "RAck"@);
                    v.is_none() || rack_of(v.unwrap()).is_none()
                    || forall|i: int| named(entries(final(self).pending@, dialog_id@), i, rack_of(v.unwrap()).unwrap().0 as u32) ==>
                        ({ let p = #[trigger] entries(final(self).pending@, dialog_id@)[i];
                           p.pracked || p.cseq != rack_of(v.unwrap()).unwrap().1 || p.method != rack_of(v.unwrap()).unwrap().2 }) })
            },
        },
@entry
    assert forall|s: Seq<PendingReliable>, i: int, j: int, q: u32| #[trigger] named(s, i, q) && #[trigger] named(s, j, q) implies i == j by { }
@loop 1
    invariant_except_break f__.is_none(), forall|j: int| 0 <= j < i__ ==> (#[trigger] pending_list@[j]).rseq != rack.rseq,
    invariant 0 <= i__ <= pending_list.len(),
    ensures match f__ { Some(i) => named(pending_list@, i as int, rack.rseq), None => forall|j: int| 0 <= j < pending_list@.len() ==> (#[trigger] pending_list@[j]).rseq != rack.rseq },
    decreases pending_list.len() - i__,
//@end
//@fn PrackValidator::is_pracked
    ensures
        final(self).pending@ == old(self).pending@,
        r == (exists|i: int| #![auto] named(entries(old(self).pending@, dialog_id@), i, rseq) && entries(old(self).pending@, dialog_id@)[i].pracked),
@loop 1
    invariant_except_break f__.is_none(), forall|j: int| 0 <= j < i__ ==> (#[trigger] pending_list@[j]).rseq != rseq,
    invariant 0 <= i__ <= pending_list.len(),
    ensures match f__ { Some(p) => named(pending_list@, i__ as int, rseq) && *p == pending_list@[i__ as int], None => forall|j: int| 0 <= j < pending_list@.len() ==> (#[trigger] pending_list@[j]).rseq != rseq },
    decreases pending_list.len() - i__,
//@end
//@fn PrackValidator::get_pending
    ensures
        tidied(old(self).pending@, final(self).pending@, dialog_id@),
        r@ == outstanding(entries(final(self).pending@, dialog_id@)),
@loop 1
    invariant 0 <= i__ <= pending_list.len(), o__@ == outstanding(pending_list@.take(i__ as int)),
    decreases pending_list.len() - i__,
@loopbody 1
    proof { assert(pending_list@.take(i__ + 1).drop_last() =~= pending_list@.take(i__ as int)); }
@afterloop 1
    proof { assert(pending_list@.take(pending_list@.len() as int) =~= pending_list@); }
//@end
//@fn PrackValidator::remove_dialog
    ensures final(self).pending@ == old(self).pending@.remove(dialog_id@),
//@end
//@fn PrackValidator::remove_pracked
    ensures
        final(self).pending@.remove(dialog_id@) =~= old(self).pending@.remove(dialog_id@),
        entries(final(self).pending@, dialog_id@) == kept(entries(old(self).pending@, dialog_id@), unacked_or_other(rseq)),
@loop 1
    invariant
        retaining(v0__, pending_list@, i__ as int, j__, unacked_or_other(rseq)),
    decreases v0__.len() - j__,
//@end
}
pub open spec fn outstanding(s: Seq<PendingReliable>) -> Seq<(u32, u16)>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if !s.last().pracked { outstanding(s.drop_last()).push((s.last().rseq, s.last().code)) } else { outstanding(s.drop_last()) } }
//@fn extract_rseq
    ensures match r { Some(n) => hget(response.headers, "RSeq"@).is_some() && unum(hget(response.headers, "RSeq"@).unwrap(), 0xffff_ffff) == Some(n as nat),
        None => hget(response.headers, "RSeq"@).is_none() || unum(hget(response.headers, "RSeq"@).unwrap(), 0xffff_ffff).is_none() },
//@end
//@fn is_reliable_provisional
    ensures r == (100 < response.start.code < 200 && hget(response.headers, "RSeq"@).is_some()),
//@end

// ---- exactly once -------------------------------------------------------------
/// THEOREM: once an acknowledgement has been accepted, the same one is not accepted again, whatever housekeeping
/// runs in between (responses with a number used only once on the dialog)
proof fn accepted_once(s0: Seq<PendingReliable>, i: int, k: RAck, s1: Seq<PendingReliable>, b: Book, id: Seq<char>, j: int)
    requires
        named(s0, i, k.rseq), acceptable(s0[i], k),
        forall|a: int, c: int| 0 <= a < s0.len() && 0 <= c < s0.len() && a != c ==> s0[a].rseq != s0[c].rseq,
        s1 == s0.update(i, acked(s0[i])),
        b.contains_key(id), b[id]@ == s1 || b[id]@ == kept(s1, live_f()),
        named(b[id]@, j, k.rseq),
    ensures !acceptable(b[id]@[j], k),
{
    itx::kept_sub(s1, live_f());
    if acceptable(b[id]@[j], k) {
        assert(s1.contains(b[id]@[j]));
        let m = choose|m: int| 0 <= m < s1.len() && s1[m] == b[id]@[j];
        assert(s0[m].rseq == k.rseq || m == i);
        assert(m == i);
    }
}

// ---- numbers ------------------------------------------------------------------
//@file crates/sip-dialog/src/lib.rs
#[verifier::external_body] pub struct DialogId { x: u128 }
impl View for DialogId { type V = int; uninterp spec fn view(&self) -> int; }
impl Clone for DialogId { #[verifier::external_body] fn clone(&self) -> (r: DialogId) ensures r@ == self@ { unimplemented!() } }
//@struct RSeqManager
//@fn random_initial_rseq
@rewrite use rand :: { rngs :: SysRng , TryRng } ; ==>
@rewrite SysRng . try_next_u32 ( ) . expect ( $*x ) ==> any_u32()
    ensures 1 <= r <= 0x7fff_ffff,
@entry
    assert(forall|n: u32| #[trigger] (n & 0x7FFF_FFFF) <= 0x7fff_ffff) by (bit_vector);
//@end
#[verifier::external_body] pub fn any_u32() -> u32 { unimplemented!() }
impl RSeqManager {
//@fn RSeqManager::next_rseq
@rewrite * self . sequences . entry ( $*k ) . and_modify ( | $r | $*m ) . or_insert_with ( $*f ) ==> if let Some($r) = self.sequences.get_mut(&$k) { $m; *$r } else { let v__ = $f(); self.sequences.insert($k, v__); v__ }
    ensures
        final(self).sequences@ == old(self).sequences@.insert(dialog_id@, r),
        // strictly increasing while the 32-bit range lasts, and it never wraps
        old(self).sequences@.contains_key(dialog_id@) ==>
            r as int == (if old(self).sequences@[dialog_id@] < u32::MAX { old(self).sequences@[dialog_id@] + 1 } else { u32::MAX as int }),
        !old(self).sequences@.contains_key(dialog_id@) ==> 1 <= r <= 0x7fff_ffff,
//@end
//@fn RSeqManager::current_rseq
@rewrite . map ( | entry | * entry ) ==> .copied()
    ensures final(self).sequences@ == old(self).sequences@,
        r == (if old(self).sequences@.contains_key(dialog_id@) { Some(old(self).sequences@[dialog_id@]) } else { None }),
//@end
//@fn RSeqManager::remove
    ensures final(self).sequences@ == old(self).sequences@.remove(dialog_id@),
//@end
}
//@file crates/sip-core/src/rseq.rs
//@enum RSeqError
//@struct RSeqHeader
//@struct RAckHeader
//@fn validate_sequence
    ensures r.is_ok() == (1 <= sequence <= 0x7fff_ffff),
//@end
impl RSeqHeader {
//@fn RSeqHeader::new
    ensures match r { Ok(h) => h.sequence == sequence && 1 <= sequence <= 0x7fff_ffff, Err(_) => !(1 <= sequence <= 0x7fff_ffff) },
//@end
//@fn RSeqHeader::next
    ensures match r { Ok(h) => h.sequence == self.sequence + 1 && h.sequence <= 0x7fff_ffff, Err(_) => self.sequence >= 0x7fff_ffff },
//@end
}
impl RAckHeader {
//@fn RAckHeader::new
    ensures match r { Ok(h) => h.rseq == rseq && h.cseq_number == cseq_number && h.cseq_method == cseq_method && 1 <= rseq <= 0x7fff_ffff && 1 <= cseq_number <= 0x7fff_ffff,
        Err(_) => !(1 <= rseq <= 0x7fff_ffff) || !(1 <= cseq_number <= 0x7fff_ffff) },
//@end
}
} // verus!
