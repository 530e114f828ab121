//@include base
//@include str
//@include strx
//@include slx
//@include time
//@include smol
//@include dmap
//@include sipcore
//@include iters
//@rewrite Arc < DashMap < $k , $v > > ==> DMap<$k, $v>
//@rewrite dashmap :: DashMap < SmolStr , Vec < DialogId > > ==> DMap<SmolStr, Vec<DialogId>>
//@rewrite dashmap :: DashMap < $k , $v > ==> DMap<$k, $v>
//@rewrite Arc < parking_lot :: Mutex < ( ) > > ==> XLock
//@rewrite Arc < metrics :: DialogMetrics > ==> XMetrics
//@rewrite Arc :: new ( parking_lot :: Mutex :: new ( ( ) ) ) ==> XLock::new()
//@rewrite Arc :: new ( metrics :: DialogMetrics :: default ( ) ) ==> XMetrics::new()
//@rewrite Arc :: new ( $*x ) ==> $x
//@rewrite DashMap :: new ==> DMap::new
//@rewrite self . dialogs . iter ( ) . filter ( | entry | { $*c } ) . count ( ) ==> { let ks__ = self.dialogs.keys_vec(); let mut n__: usize = 0; let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if (match self.dialogs.get(k__) { Some(v__) => $c, None => false }) { n__ += 1; } } n__ }
//@rewrite self . $m . iter ( ) . find ( | entry | $*c ) . map ( | entry | $*e ) ==> { let ks__ = self.$m.keys_vec(); let mut f__ = None; let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.$m.get(k__) { if $c { f__ = Some($e); break; } } } f__ }
//@rewrite self . dialogs . iter ( ) . map ( | entry | $*e ) . collect ( ) ==> { let ks__ = self.dialogs.keys_vec(); let mut o__: Vec<DialogId> = Vec::new(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.dialogs.get(k__) { o__.push($e); } } o__ }
//@rewrite self . subscriptions . iter ( ) . filter ( | entry | $*c ) . map ( | entry | entry . value ( ) . clone ( ) ) . collect ( ) ==> { let ks__ = self.subscriptions.keys_vec(); let mut o__: Vec<Subscription> = Vec::new(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.subscriptions.get(k__) { if $c { o__.push(v__.clone()); } } } o__ }
//@rewrite self . subscriptions . iter ( ) . filter ( | entry | $*c ) . map ( | entry | entry . key ( ) . clone ( ) ) . collect ( ) ==> { let ks__ = self.subscriptions.keys_vec(); let mut o__: Vec<SubscriptionId> = Vec::new(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.subscriptions.get(k__) { if $c { o__.push(k__.clone()); } } } o__ }
//@rewrite self . subscriptions . iter ( ) . map ( | entry | $*e ) . collect ( ) ==> { let ks__ = self.subscriptions.keys_vec(); let mut o__: Vec<Subscription> = Vec::new(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(v__) = self.subscriptions.get(k__) { o__.push($e); } } o__ }
//@rewrite self . dialogs . retain ( | _ , dialog | $*c ) ==> let ks__ = self.dialogs.keys_vec(); let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; let keep__ = match self.dialogs.get(k__) { Some(dialog) => $c, None => true }; if !keep__ { self.dialogs.remove(k__); } }
//@rewrite entry . value ( ) ==> v__
//@rewrite entry . key ( ) ==> k__
//@rewrite . remove ( id ) . map ( | ( _ , $d ) | $e ) ==> .remove(id)
//@rewrite . get ( id ) . map ( | entry | $*c ) ==> .get(id).x_cloned()
//@rewrite . get ( id ) . map ( | d | $*c ) ==> .get(id).x_cloned()
//@rewrite k__ != & dialog . id ==> *k__ != dialog.id
//@rewrite . entry ( $*k ) . or_default ( ) ==> .entry_or_insert($k, Vec::new())
//@rewrite ! ids . contains ( $*k ) ==> !x_has(ids, $k)
//@rewrite drop ( ids ) ; ==>
//@rewrite did != id ==> *did != *id
//@rewrite ids . iter ( ) . filter_map ( | id | $*e ) . collect ( ) ==> { let mut o__ = Vec::new(); let mut i__: usize = 0; while i__ < ids.len() { let id = &ids[i__]; i__ += 1; if let Some(v__) = $e { o__.push(v__); } } o__ }
//@rewrite for id in terminated { $*b } ==> let mut i__: usize = 0; while i__ < terminated.len() { let id = &terminated[i__]; i__ += 1; $b }
//@rewrite . remove ( & id ) ==> .remove(id)
//@rewrite let terminated : Vec < _ > ==> let terminated: Vec<SubscriptionId>
//@rewrite use crate :: { $*x } ; ==>
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sx::pat_s, tm::now_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext, sl::at_zero, sm::smol_ext};
}
//@include dlg
verus! {
/// the lock and the counters carry no state the contracts use (each operation is one atomic step)
#[verifier::external_body] pub struct XLock { x: u8 }
impl XLock { #[verifier::external_body] pub fn new() -> XLock { unimplemented!() } #[verifier::external_body] pub fn lock(&self) -> u8 { unimplemented!() } }
#[verifier::external_body] pub struct XMetrics { x: u8 }
impl XMetrics { #[verifier::external_body] pub fn new() -> XMetrics { unimplemented!() } #[verifier::external_body] pub fn record_created(&self) { unimplemented!() } #[verifier::external_body] pub fn record_terminated(&self) { unimplemented!() } }
pub trait XCloned<T> { spec fn xo(&self) -> Option<T>; fn x_cloned(self) -> (r: Option<T>) ensures r == self.xo(); }
impl<'a, T> XCloned<T> for Option<&'a T> { open spec fn xo(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn x_cloned(self) -> (r: Option<T>) { unimplemented!() } }
#[verifier::external_body] pub fn x_has(v: &Vec<DialogId>, k: &DialogId) -> (r: bool) ensures r == (exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i]@ == k@) { unimplemented!() }
pub broadcast proof fn id_ext(a: DialogId, b: DialogId) ensures #[trigger] a@ == #[trigger] b@ ==> a == b { }
/// opaque here
#[verifier::external_body] pub struct SipUri { x: u128 }
//@const MAX_EARLY_DIALOGS_PER_CALL_ID
//@const MAX_CONFIRMED_DIALOGS
//@const MAX_SUBSCRIPTIONS
//@file crates/sip-core/src/session_timer.rs
//@enum RefresherRole derive=Clone,Copy
//@file crates/sip-dialog/src/lib.rs
//@enum DialogStateType derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for DialogStateType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &DialogStateType) -> bool { *self == *other }
}
impl PartialEq for DialogStateType { #[verifier::external_body] fn eq(&self, o: &DialogStateType) -> (r: bool) { unimplemented!() } }
impl Eq for DialogStateType {}
//@struct Dialog
impl Clone for Dialog { #[verifier::external_body] fn clone(&self) -> (r: Dialog) ensures r == *self { unimplemented!() } }
//@struct DialogManager
pub type Key = (Seq<char>, Seq<char>, Seq<char>);
pub type Store = Map<Key, Dialog>;
/// every entry is stored under its own identity
pub open spec fn keyed(m: Store) -> bool { forall|k: Key| m.contains_key(k) ==> (#[trigger] m[k]).id@ == k }
pub open spec fn early(m: Store, c: Seq<char>, except: Key) -> Set<Key> { m.dom().filter(|k: Key| m[k].state == DialogStateType::Early && k.0 == c && k != except) }
pub open spec fn bounded(m: Store) -> bool { m.dom().finite() && m.dom().len() <= 10_000 }
pub open spec fn got(m: Store, k: Key) -> Option<Dialog> { if m.contains_key(k) { Some(m[k]) } else { None } }
impl DialogManager {
//@fn DialogManager::new
    ensures r.dialogs@ == Store::empty(),
//@end
//@fn DialogManager::insert
@rewrite ( & self ==> (&mut self
    requires keyed(old(self).dialogs@), bounded(old(self).dialogs@),
    ensures
        match r {
            Ok(_) => final(self).dialogs@ == old(self).dialogs@.insert(dialog.id@, dialog),
            Err(_) => final(self).dialogs@ == old(self).dialogs@ && (
                (old(self).dialogs@.dom().len() >= 10_000 && !old(self).dialogs@.contains_key(dialog.id@))
                || (dialog.state == DialogStateType::Early && early(old(self).dialogs@, dialog.id@.0, dialog.id@).len() >= 100)),
        },
        r is Ok && dialog.state == DialogStateType::Early ==> early(old(self).dialogs@, dialog.id@.0, dialog.id@).len() < 100,
        keyed(final(self).dialogs@), bounded(final(self).dialogs@),
@loop 1
    invariant
        0 <= i__ <= ks__.len(), n__ <= i__, self.dialogs@ == old(self).dialogs@, self.dialogs@.dom().finite(),
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.dialogs@.contains_key(ks__[i]@),
        forall|i: int, j: int| 0 <= i < j < ks__.len() ==> ks__[i]@ != ks__[j]@,
        s__.finite(), s__.len() == n__,
        forall|k: Key| #[trigger] s__.contains(k) == (exists|j: int| 0 <= j < i__ && #[trigger] ks__[j]@ == k && early(self.dialogs@, dialog.id@.0, dialog.id@).contains(k)),
    decreases ks__.len() - i__,
@entry
    let ghost mut s__: Set<Key> = Set::empty();
@loopbody 1
    proof {
        let k = ks__[i__ as int]@; let e = early(self.dialogs@, dialog.id@.0, dialog.id@);
        let s0 = s__;
        assert(!s0.contains(k));
        if e.contains(k) { s__ = s0.insert(k); }
        assert forall|q: Key| #[trigger] s__.contains(q) == (exists|j: int| 0 <= j < i__ + 1 && #[trigger] ks__[j]@ == q && e.contains(q)) by {
            if s__.contains(q) { if s0.contains(q) { let j = choose|j: int| 0 <= j < i__ && #[trigger] ks__[j]@ == q && e.contains(q); assert(ks__[j]@ == q); } else { assert(ks__[i__ as int]@ == q); } }
            if exists|j: int| 0 <= j < i__ + 1 && #[trigger] ks__[j]@ == q && e.contains(q) {
                let j = choose|j: int| 0 <= j < i__ + 1 && #[trigger] ks__[j]@ == q && e.contains(q);
                if j < i__ { assert(s0.contains(q)); } else { assert(q == k); }
            }
        }
    }
@afterloop 1
    proof { assert(s__ =~= early(self.dialogs@, dialog.id@.0, dialog.id@)); }
//@end
//@fn DialogManager::get
@rewrite ( & self ==> (&mut self
    ensures final(self).dialogs@ == old(self).dialogs@, r == got(old(self).dialogs@, id@),
//@end
//@fn DialogManager::find_by_request
@rewrite ( & self ==> (&mut self
    ensures
        final(self).dialogs@ == old(self).dialogs@,
        r == (if id_ft(req.headers).is_some() { got(old(self).dialogs@, swapped(id_ft(req.headers).unwrap())) } else { None }),
//@end
//@fn DialogManager::remove
@rewrite ( & self ==> (&mut self
    ensures final(self).dialogs@ == old(self).dialogs@.remove(id@), r == got(old(self).dialogs@, id@),
//@end
//@fn DialogManager::count
@rewrite ( & self ==> (&mut self
    ensures final(self).dialogs@ == old(self).dialogs@, r == old(self).dialogs@.dom().len(),
//@end
//@fn DialogManager::cleanup_terminated
@rewrite ( & self ==> (&mut self
    ensures
        forall|k: Key| #[trigger] final(self).dialogs@.contains_key(k) == (old(self).dialogs@.contains_key(k) && old(self).dialogs@[k].state != DialogStateType::Terminated),
        forall|k: Key| final(self).dialogs@.contains_key(k) ==> #[trigger] final(self).dialogs@[k] == old(self).dialogs@[k],
@loop 1
    invariant
        0 <= i__ <= ks__.len(),
        forall|k: Key| old(self).dialogs@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
        forall|k: Key| #[trigger] self.dialogs@.contains_key(k) ==> old(self).dialogs@.contains_key(k) && self.dialogs@[k] == old(self).dialogs@[k],
        forall|k: Key| old(self).dialogs@.contains_key(k) && old(self).dialogs@[k].state != DialogStateType::Terminated ==> #[trigger] self.dialogs@.contains_key(k),
        forall|j: int| 0 <= j < i__ && #[trigger] self.dialogs@.contains_key(ks__[j]@) ==> self.dialogs@[ks__[j]@].state != DialogStateType::Terminated,
    decreases ks__.len() - i__,
//@end
//@fn DialogManager::find_by_call_id
@rewrite ( & self ==> (&mut self
    ensures
        final(self).dialogs@ == old(self).dialogs@,
        match r { Some(d) => exists|k: Key| old(self).dialogs@.contains_key(k) && k.0 == call_id@ && #[trigger] old(self).dialogs@[k] == d,
            None => forall|k: Key| #[trigger] old(self).dialogs@.contains_key(k) ==> k.0 != call_id@ },
@loop 1
    invariant_except_break f__.is_none(), forall|j: int| 0 <= j < i__ ==> (#[trigger] ks__[j])@.0 != call_id@,
    invariant 0 <= i__ <= ks__.len(), self.dialogs@ == old(self).dialogs@,
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.dialogs@.contains_key(ks__[i]@),
        forall|k: Key| self.dialogs@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
    ensures
        match f__ { Some(d) => exists|k: Key| old(self).dialogs@.contains_key(k) && k.0 == call_id@ && #[trigger] old(self).dialogs@[k] == d,
            None => forall|j: int| 0 <= j < ks__.len() ==> (#[trigger] ks__[j])@.0 != call_id@ },
    decreases ks__.len() - i__,
//@end
//@fn DialogManager::all_ids
@rewrite ( & self ==> (&mut self
    ensures
        final(self).dialogs@ == old(self).dialogs@,
        forall|k: Key| #[trigger] old(self).dialogs@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == k,
        forall|i: int| 0 <= i < r@.len() ==> old(self).dialogs@.contains_key((#[trigger] r@[i])@),
@loop 1
    invariant 0 <= i__ <= ks__.len(), self.dialogs@ == old(self).dialogs@, o__@.len() == i__,
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.dialogs@.contains_key(ks__[i]@),
        forall|j: int| 0 <= j < i__ ==> (#[trigger] o__@[j])@ == ks__[j]@,
        forall|k: Key| self.dialogs@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
    decreases ks__.len() - i__,
@afterloop 1
    proof { assert forall|k: Key| #[trigger] self.dialogs@.contains_key(k) implies exists|i: int| 0 <= i < o__@.len() && #[trigger] o__@[i]@ == k by { let i = choose|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k; assert(o__@[i]@ == k); } }
//@end
}
// ---- subscriptions ----
//@enum SubscriptionError
//@enum SubscriptionState derive=Clone,Copy
impl vstd::std_specs::cmp::PartialEqSpecImpl for SubscriptionState {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &SubscriptionState) -> bool { *self == *other }
}
impl PartialEq for SubscriptionState { #[verifier::external_body] fn eq(&self, o: &SubscriptionState) -> (r: bool) { unimplemented!() } }
impl Eq for SubscriptionState {}
//@struct SubscriptionId
impl Clone for SubscriptionId { #[verifier::external_body] fn clone(&self) -> (r: SubscriptionId) ensures r == *self { unimplemented!() } }
impl View for SubscriptionId { type V = (Seq<char>, Seq<char>, Seq<char>, Seq<char>); open spec fn view(&self) -> (Seq<char>, Seq<char>, Seq<char>, Seq<char>) { (self.call_id@, self.from_tag@, self.to_tag@, self.event@) } }
//@struct Subscription
impl Clone for Subscription { #[verifier::external_body] fn clone(&self) -> (r: Subscription) ensures r == *self { unimplemented!() } }
//@struct SubscriptionManager
pub type SKey = (Seq<char>, Seq<char>, Seq<char>, Seq<char>);
pub type SStore = Map<SKey, Subscription>;
pub open spec fn skeyed(m: SStore) -> bool { forall|k: SKey| m.contains_key(k) ==> (#[trigger] m[k]).id@ == k }
pub open spec fn sbounded(m: SStore) -> bool { m.dom().finite() && m.dom().len() <= 10_000 }
pub open spec fn sgot(m: SStore, k: SKey) -> Option<Subscription> { if m.contains_key(k) { Some(m[k]) } else { None } }
impl SubscriptionId {
//@fn SubscriptionId::unchecked_new
    ensures r@ == (call_id.tv(), from_tag.tv(), to_tag.tv(), event.tv()),
//@end
//@fn SubscriptionId::from_request
    ensures
        match r { Some(d) => id_ft(req.headers).is_some() && hdr(req.headers, "Event"@) == Some(d@.3) && id_ft(req.headers) == Some((d@.0, d@.1, d@.2)),
            None => id_ft(req.headers).is_none() || hdr(req.headers, "Event"@).is_none() },
//@end
//@fn SubscriptionId::from_request_response
    ensures
        match r { Some(d) => hdr(req.headers, "Event"@) == Some(d@.3) && hdr(req.headers, "Call-ID"@) == Some(d@.0)
                && hdr(req.headers, "From"@).is_some() && tag_in(hdr(req.headers, "From"@).unwrap()) == Some(d@.1)
                && hdr(resp.headers, "To"@).is_some() && tag_in(hdr(resp.headers, "To"@).unwrap()) == Some(d@.2),
            None => true },
//@end
}
impl Subscription {
//@fn Subscription::next_local_cseq
@props P06
    ensures
        r == final(self).local_cseq, r >= old(self).local_cseq, old(self).local_cseq < u32::MAX ==> r == old(self).local_cseq + 1,
        final(self).id == old(self).id, final(self).remote_cseq == old(self).remote_cseq, final(self).state == old(self).state,
//@end
//@fn Subscription::update_state
    ensures final(self).state == new_state, final(self).id == old(self).id, final(self).local_cseq == old(self).local_cseq, final(self).remote_cseq == old(self).remote_cseq,
//@end
}
impl SubscriptionManager {
//@fn SubscriptionManager::new
    ensures r.subscriptions@ == SStore::empty(),
//@end
//@fn SubscriptionManager::insert
@rewrite ( & self ==> (&mut self
    requires skeyed(old(self).subscriptions@), sbounded(old(self).subscriptions@),
    ensures
        match r {
            Ok(_) => final(self).subscriptions@ == old(self).subscriptions@.insert(subscription.id@, subscription),
            Err(_) => final(self).subscriptions@ == old(self).subscriptions@ && old(self).subscriptions@.dom().len() >= 10_000 && !old(self).subscriptions@.contains_key(subscription.id@),
        },
        skeyed(final(self).subscriptions@), sbounded(final(self).subscriptions@),
//@end
//@fn SubscriptionManager::get
@rewrite ( & self ==> (&mut self
    ensures final(self).subscriptions@ == old(self).subscriptions@, r == sgot(old(self).subscriptions@, id@),
//@end
//@fn SubscriptionManager::remove
@rewrite ( & self ==> (&mut self
    ensures final(self).subscriptions@ == old(self).subscriptions@.remove(id@), r == sgot(old(self).subscriptions@, id@),
//@end
//@fn SubscriptionManager::all
@rewrite ( & self ==> (&mut self
    ensures
        final(self).subscriptions@ == old(self).subscriptions@,
        forall|k: SKey| #[trigger] old(self).subscriptions@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == old(self).subscriptions@[k],
        forall|i: int| 0 <= i < r@.len() ==> held(old(self).subscriptions@, #[trigger] r@[i]),
@loop 1
    invariant 0 <= i__ <= ks__.len(), self.subscriptions@ == old(self).subscriptions@, o__@.len() == i__,
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.subscriptions@.contains_key(ks__[i]@),
        forall|j: int| 0 <= j < i__ ==> (#[trigger] o__@[j]) == self.subscriptions@[ks__[j]@],
        forall|k: SKey| self.subscriptions@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
    decreases ks__.len() - i__,
@afterloop 1
    proof {
        assert forall|k: SKey| #[trigger] self.subscriptions@.contains_key(k) implies exists|i: int| 0 <= i < o__@.len() && #[trigger] o__@[i] == self.subscriptions@[k] by { let i = choose|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k; assert(o__@[i] == self.subscriptions@[k]); }
        assert forall|i: int| 0 <= i < o__@.len() implies held(self.subscriptions@, #[trigger] o__@[i]) by { assert(self.subscriptions@.contains_key(ks__[i]@)); }
    }
//@end
//@fn SubscriptionManager::by_event
@rewrite ( & self ==> (&mut self
    requires skeyed(old(self).subscriptions@),
    ensures
        final(self).subscriptions@ == old(self).subscriptions@,
        forall|k: SKey| #[trigger] old(self).subscriptions@.contains_key(k) && k.3 == event@ ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == old(self).subscriptions@[k],
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).id@.3 == event@ && old(self).subscriptions@.contains_key(r@[i].id@) && old(self).subscriptions@[r@[i].id@] == r@[i],
@loop 1
    invariant 0 <= i__ <= ks__.len(), self.subscriptions@ == old(self).subscriptions@, skeyed(self.subscriptions@),
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.subscriptions@.contains_key(ks__[i]@),
        forall|k: SKey| self.subscriptions@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
        forall|j: int| 0 <= j < i__ && (#[trigger] ks__[j])@.3 == event@ ==> inv(o__@, self.subscriptions@[ks__[j]@]),
        forall|i: int| 0 <= i < o__@.len() ==> (#[trigger] o__@[i]).id@.3 == event@ && self.subscriptions@.contains_key(o__@[i].id@) && self.subscriptions@[o__@[i].id@] == o__@[i],
    decreases ks__.len() - i__,
@loopbody 1
    let ghost o0 = o__@;
    proof { assert forall|x: Subscription, y: Subscription| inv(o0, x) implies #[trigger] inv(o0.push(y), x) by { let i = choose|i: int| 0 <= i < o0.len() && #[trigger] o0[i] == x; assert(o0.push(y)[i] == x); }
        assert forall|y: Subscription| #[trigger] inv(o0.push(y), y) by { assert(o0.push(y)[o0.len() as int] == y); } }
@afterloop 1
    proof { assert forall|k: SKey| #[trigger] self.subscriptions@.contains_key(k) && k.3 == event@ implies exists|i: int| 0 <= i < o__@.len() && #[trigger] o__@[i] == self.subscriptions@[k] by { let i = choose|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k; assert(inv(o__@, self.subscriptions@[ks__[i]@])); } }
//@end
//@fn SubscriptionManager::cleanup_terminated
@rewrite ( & self ==> (&mut self
    ensures
        forall|k: SKey| #[trigger] final(self).subscriptions@.contains_key(k) == (old(self).subscriptions@.contains_key(k) && old(self).subscriptions@[k].state != SubscriptionState::Terminated),
        forall|k: SKey| final(self).subscriptions@.contains_key(k) ==> #[trigger] final(self).subscriptions@[k] == old(self).subscriptions@[k],
@loop 1
    invariant 0 <= i__ <= ks__.len(), self.subscriptions@ == old(self).subscriptions@,
        forall|i: int| #![auto] 0 <= i < ks__.len() ==> self.subscriptions@.contains_key(ks__[i]@),
        forall|k: SKey| self.subscriptions@.contains_key(k) ==> exists|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k,
        forall|j: int| 0 <= j < i__ && self.subscriptions@[(#[trigger] ks__[j])@].state == SubscriptionState::Terminated ==> ink(o__@, ks__[j]@),
        forall|i: int| 0 <= i < o__@.len() ==> self.subscriptions@.contains_key((#[trigger] o__@[i])@) && self.subscriptions@[o__@[i]@].state == SubscriptionState::Terminated,
    decreases ks__.len() - i__,
@loopbody 1
    let ghost o0 = o__@;
    proof { assert forall|x: SKey, y: SubscriptionId| ink(o0, x) implies #[trigger] ink(o0.push(y), x) by { let i = choose|i: int| 0 <= i < o0.len() && #[trigger] o0[i]@ == x; assert(o0.push(y)[i]@ == x); }
        assert forall|y: SubscriptionId| ink(#[trigger] o0.push(y), y@) by { assert(o0.push(y)[o0.len() as int]@ == y@); } }
@afterloop 1
    proof { assert forall|k: SKey| #[trigger] self.subscriptions@.contains_key(k) && self.subscriptions@[k].state == SubscriptionState::Terminated implies ink(o__@, k) by { let i = choose|i: int| 0 <= i < ks__.len() && #[trigger] ks__[i]@ == k; assert(ink(o__@, ks__[i]@)); } }
@loop 2
    invariant 0 <= i__ <= terminated.len(),
        forall|i: int| 0 <= i < terminated@.len() ==> old(self).subscriptions@.contains_key((#[trigger] terminated@[i])@) && old(self).subscriptions@[terminated@[i]@].state == SubscriptionState::Terminated,
        forall|k: SKey| #[trigger] old(self).subscriptions@.contains_key(k) && old(self).subscriptions@[k].state == SubscriptionState::Terminated ==> ink(terminated@, k),
        forall|k: SKey| #[trigger] self.subscriptions@.contains_key(k) ==> old(self).subscriptions@.contains_key(k) && self.subscriptions@[k] == old(self).subscriptions@[k],
        forall|k: SKey| old(self).subscriptions@.contains_key(k) && old(self).subscriptions@[k].state != SubscriptionState::Terminated ==> #[trigger] self.subscriptions@.contains_key(k),
        forall|j: int| 0 <= j < i__ ==> !self.subscriptions@.contains_key((#[trigger] terminated@[j])@),
    decreases terminated.len() - i__,
@afterloop 2
    proof { assert forall|k: SKey| #[trigger] self.subscriptions@.contains_key(k) implies self.subscriptions@[k].state != SubscriptionState::Terminated by {
        if self.subscriptions@[k].state == SubscriptionState::Terminated { assert(ink(terminated@, k)); let i = choose|i: int| 0 <= i < terminated@.len() && #[trigger] terminated@[i]@ == k; } } }
//@end
}
pub open spec fn held(m: SStore, x: Subscription) -> bool { exists|k: SKey| #[trigger] m.contains_key(k) && m[k] == x }
pub open spec fn inv(s: Seq<Subscription>, x: Subscription) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
pub open spec fn ink(s: Seq<SubscriptionId>, x: SKey) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == x }
// ---- the in-memory dialog store and its Call-ID index ----
//@file crates/sip-dialog/src/storage.rs
//@const MAX_DIALOGS
//@struct InMemoryDialogStore
pub type Index = Map<Seq<char>, Vec<DialogId>>;
/// the index lists, for every Call-ID, exactly the identities stored, each once
pub open spec fn indexed(m: Store, ix: Index) -> bool {
    &&& forall|c: Seq<char>, i: int| ix.contains_key(c) && 0 <= i < ix[c]@.len() ==> (#[trigger] ix[c]@[i])@.0 == c && m.contains_key(ix[c]@[i]@)
    &&& forall|c: Seq<char>, i: int, j: int| ix.contains_key(c) && 0 <= i < j < ix[c]@.len() ==> (#[trigger] ix[c]@[i])@ != (#[trigger] ix[c]@[j])@
    &&& forall|k: Key| #[trigger] m.contains_key(k) ==> ix.contains_key(k.0) && listed(ix[k.0]@, k)
    &&& forall|c: Seq<char>| #[trigger] ix.contains_key(c) ==> ix[c]@.len() > 0
}
pub open spec fn listed(s: Seq<DialogId>, k: Key) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == k }
pub open spec fn is_not(k: Key) -> spec_fn(DialogId) -> bool { |d: DialogId| d@ != k }
proof fn kept_once(s: Seq<DialogId>, f: spec_fn(DialogId) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@,
    ensures forall|i: int, j: int| 0 <= i < j < kept(s, f).len() ==> (#[trigger] kept(s, f)[i])@ != (#[trigger] kept(s, f)[j])@,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        kept_once(t, f); kept_sub(t, f);
        let k = kept(s, f); let kt = kept(t, f);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies (#[trigger] k[i])@ != (#[trigger] k[j])@ by {
            if j < kt.len() { assert(k[i] == kt[i] && k[j] == kt[j]); }
            else { assert(k[i] == kt[i]); assert(t.contains(kt[i])); let q = choose|q: int| 0 <= q < t.len() && t[q] == kt[i]; assert(s[q] == k[i]); assert(s[s.len() - 1] == k[j]); }
        }
    }
}
pub open spec fn listed_d(s: Seq<Dialog>, d: Dialog) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == d }
proof fn put_ok(m: Store, ix: Index, d: Dialog, id: DialogId, v0: Seq<DialogId>, v1: Seq<DialogId>)
    requires indexed(m, ix), id@ == d.id@, v0 == (if ix.contains_key(id@.0) { ix[id@.0]@ } else { Seq::<DialogId>::empty() }),
        v1 == (if listed(v0, id@) { v0 } else { v0.push(id) }),
    ensures forall|v: Vec<DialogId>| v@ == v1 ==> indexed(m.insert(d.id@, d), #[trigger] ix.insert(id@.0, v)),
{
    let m2 = m.insert(d.id@, d);
    assert forall|v: Vec<DialogId>| v@ == v1 implies indexed(m2, #[trigger] ix.insert(id@.0, v)) by {
        let ix2 = ix.insert(id@.0, v);
        if !listed(v0, id@) { assert(v1[v0.len() as int] == id); }
        assert(listed(v1, id@));
        assert forall|k: Key| listed(v0, k) implies #[trigger] listed(v1, k) by { let i = choose|i: int| 0 <= i < v0.len() && #[trigger] v0[i]@ == k; assert(v1[i]@ == k); }
    }
}
impl InMemoryDialogStore {
//@fn InMemoryDialogStore::count
@rewrite ( & self ==> (&mut self
    ensures final(self).inner@ == old(self).inner@, final(self).by_call_id@ == old(self).by_call_id@, r == old(self).inner@.dom().len(),
//@end
//@fn InMemoryDialogStore::get trait=DialogStore
@rewrite ( & self ==> (&mut self
    ensures final(self).inner@ == old(self).inner@, final(self).by_call_id@ == old(self).by_call_id@, r == got(old(self).inner@, id@),
//@end
//@fn InMemoryDialogStore::put trait=DialogStore
@rewrite if ! x_has ( ids , & dialog_id ) { $*b } ==> let ghost v0 = ids@; if !x_has(ids, &dialog_id) { $b } proof { put_ok(old(self).inner@, old(self).by_call_id@, dialog, dialog_id, v0, ids@); }
@rewrite ( & self ==> (&mut self
    requires keyed(old(self).inner@), indexed(old(self).inner@, old(self).by_call_id@), old(self).inner@.dom().finite(), old(self).inner@.dom().len() <= 100_000,
    ensures
        final(self).inner@ == (if old(self).inner@.dom().len() >= 100_000 && !old(self).inner@.contains_key(dialog.id@) { old(self).inner@ } else { old(self).inner@.insert(dialog.id@, dialog) }),
        keyed(final(self).inner@), indexed(final(self).inner@, final(self).by_call_id@), final(self).inner@.dom().finite(), final(self).inner@.dom().len() <= 100_000,
//@end
//@fn InMemoryDialogStore::remove trait=DialogStore
@rewrite ( & self ==> (&mut self
    requires keyed(old(self).inner@), indexed(old(self).inner@, old(self).by_call_id@),
    ensures
        final(self).inner@ == old(self).inner@.remove(id@),
        keyed(final(self).inner@), indexed(final(self).inner@, final(self).by_call_id@),
@loop 1
    invariant 0 <= i__ <= ids@.len(), retaining(v0__, ids@, i__ as int, j__, is_not(id@)), v0__ == old(self).by_call_id@[id@.0]@,
    decreases v0__.len() - j__,
@afterloop 1
    proof { kept_sub(v0__, is_not(id@)); kept_once(v0__, is_not(id@)); }
//@end
//@fn InMemoryDialogStore::list_by_call_id trait=DialogStore
@rewrite ( & self ==> (&mut self
    requires keyed(old(self).inner@), indexed(old(self).inner@, old(self).by_call_id@),
    ensures
        final(self).inner@ == old(self).inner@, final(self).by_call_id@ == old(self).by_call_id@,
        forall|k: Key| #[trigger] old(self).inner@.contains_key(k) && k.0 == call_id@ ==> listed_d(r@, old(self).inner@[k]),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).id@.0 == call_id@ && old(self).inner@.contains_key(r@[i].id@) && old(self).inner@[r@[i].id@] == r@[i],
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).id@ != (#[trigger] r@[j]).id@,
@loop 1
    invariant 0 <= i__ <= ids.len(), o__@.len() == i__, keyed(self.inner@),
        self.inner@ == old(self).inner@,
        forall|i: int| 0 <= i < ids@.len() ==> (#[trigger] ids@[i])@.0 == call_id@ && self.inner@.contains_key(ids@[i]@),
        forall|j: int| 0 <= j < i__ ==> (#[trigger] o__@[j]) == self.inner@[ids@[j]@],
    decreases ids.len() - i__,
@afterloop 1
    proof { assert forall|k: Key| #[trigger] self.inner@.contains_key(k) && k.0 == call_id@ implies listed_d(o__@, self.inner@[k]) by { assert(listed(ids@, k)); let i = choose|i: int| 0 <= i < ids@.len() && #[trigger] ids@[i]@ == k; assert(o__@[i] == self.inner@[k]); } }
//@end
//@fn InMemoryDialogStore::len trait=DialogStore
@rewrite ( & self ==> (&mut self
    ensures final(self).inner@ == old(self).inner@, final(self).by_call_id@ == old(self).by_call_id@, r == old(self).inner@.dom().len(),
//@end
}
} // verus!
