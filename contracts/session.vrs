//@include base
//@include str
//@include strx
//@include slx
//@include time
//@include smol
//@include dmap
//@include sipcore
//@rewrite Arc < DashMap < $k , $v > > ==> DMap<$k, $v>
//@rewrite input . split ( ';' ) . collect ( ) ==> input.x_split_c(';')
//@rewrite for part in & parts [ 1 .. ] { $*b } ==> let mut i__: usize = 1; while i__ < parts.len() { let part = &parts[i__]; i__ += 1; $b }
//@rewrite match input . trim ( ) . to_lowercase ( ) . as_str ( ) { $*b } ==> { let low__ = input.trim().to_lowercase(); match low__.as_str() { $b } }
//@rewrite . xp_u32 ( ) . ok ( ) ==> .xp_u32().ok()
//@rewrite let ids : Vec < DialogId > = self . tasks . iter ( ) . map ( | entry | entry . key ( ) . clone ( ) ) . collect ( ) ; ==> let ids: Vec<DialogId> = self.tasks.keys_vec();
//@rewrite for id in ids { $*b } ==> let mut i__: usize = 0; while i__ < ids.len() { let id = &ids[i__]; i__ += 1; $b }
//@rewrite self . stop_timer ( & id ) ==> self.stop_timer(id)
//@rewrite if let Some ( ( _ , task ) ) = self . tasks . remove ( dialog_id ) ==> if let Some(task) = self.tasks.remove(dialog_id)
//@rewrite self . tasks . get ( dialog_id ) . map ( | task | { $*b } ) ==> match self.tasks.get(dialog_id) { Some(task) => Some({ $b }), None => None }
//@rewrite mpsc :: Sender < ( ) > ==> XSender
//@rewrite mpsc :: channel ( $*x ) ==> x_channel($x)
//@rewrite Duration :: ZERO ==> Duration::from_secs(0)
verus! {
broadcast use {prel::str_ext, st::str_bytes_bound, sx::pat_c, sx::pat_s, tm::now_nonneg, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext, sl::fields_some};
#[verifier::external_body] pub struct XSender { x: u8 }
#[verifier::external_body] pub struct XReceiver { x: u8 }
impl XSender { #[verifier::external_body] pub fn try_send(&self, x: ()) -> Result<(), ()> { unimplemented!() } }
#[verifier::external_body] pub fn x_channel(n: usize) -> (r: (XSender, XReceiver)) requires n > 0 { unimplemented!() }
/// the dialog identity is opaque here
#[verifier::external_body] pub struct DialogId { x: u128 }
impl View for DialogId { type V = (Seq<char>, Seq<char>, Seq<char>); uninterp spec fn view(&self) -> (Seq<char>, Seq<char>, Seq<char>); }
impl Clone for DialogId { #[verifier::external_body] fn clone(&self) -> (r: DialogId) ensures r == *self { unimplemented!() } }
// ---- the Session-Expires and Min-SE texts ----
//@file crates/sip-core/src/session_timer.rs
//@const MAX_SESSION_EXPIRES
//@const MAX_MIN_SE
//@enum SessionTimerError
//@enum RefresherRole derive=Clone,Copy
//@struct SessionExpires
//@struct MinSessionExpires
/// 1*DIGIT within 32 bits
pub open spec fn delta(s: Seq<char>) -> Option<nat> { if all_digits(s) && dec(s) <= 0xffff_ffff { Some(dec(s)) } else { None } }
pub open spec fn role_of(s: Seq<char>) -> Option<RefresherRole> {
    if ulower(trim_s(s)) == "uac"@ { Some(RefresherRole::Uac) } else if ulower(trim_s(s)) == "uas"@ { Some(RefresherRole::Uas) } else { None }
}
pub open spec fn eq_at(s: Seq<char>) -> int { fidx(s, Pat::C('=')) }
/// the role named by the last refresher parameter among fields 1..n
pub open spec fn role_in(f: Seq<Seq<char>>, n: int) -> Option<RefresherRole> decreases n {
    if n <= 1 { None } else {
        let p = trim_s(f[n - 1]);
        if occ(p, Pat::C('=')) && eq_ci(trim_s(p.take(eq_at(p))), "refresher"@) { role_of(trim_s(p.skip(eq_at(p) + 1))) } else { role_in(f, n - 1) }
    }
}
pub open spec fn se_text(s: Seq<char>) -> Option<(nat, Option<RefresherRole>)> {
    let t = trim_s(s); let f = fields(t, ';'); let d = delta(trim_s(f[0]));
    if has_ctrl(s) || t.len() == 0 || d.is_none() || d.unwrap() < 90 || d.unwrap() > 86400 { None } else { Some((d.unwrap(), role_in(f, f.len() as int))) }
}
pub open spec fn minse_text(s: Seq<char>) -> Option<nat> {
    let d = delta(trim_s(s));
    if has_ctrl(s) || trim_s(s).len() == 0 || d.is_none() || d.unwrap() < 90 || d.unwrap() > 7200 { None } else { d }
}
//@fn parse_delta_seconds
    ensures match r { Some(n) => delta(text@) == Some(n as nat), None => delta(text@).is_none() },
@entry
    assert(at(text@, Pat::C('+'), 0) == (text@.len() > 0 && text@[0] == '+'));
    assert(text@.len() > 0 && text@[0] == '+' ==> !all_digits(text@)) by { if text@.len() > 0 && text@[0] == '+' { assert(!is_digit(text@[0])); } }
//@end
impl RefresherRole {
//@fn RefresherRole::as_str
    ensures match self { RefresherRole::Uac => r@ == "uac"@, RefresherRole::Uas => r@ == "uas"@ },
//@end
//@fn RefresherRole::parse
    ensures r == role_of(input@),
//@end
}
impl SessionExpires {
//@fn SessionExpires::minimum
    ensures r == 90,
//@end
//@fn SessionExpires::maximum
    ensures r == 86400,
//@end
//@fn SessionExpires::new
    ensures match r { Ok(e) => e.delta_seconds == delta_seconds && e.refresher.is_none() && 90 <= delta_seconds <= 86400, Err(_) => !(90 <= delta_seconds <= 86400) },
//@end
//@fn SessionExpires::with_refresher
    ensures r.delta_seconds == self.delta_seconds, r.refresher == Some(role),
//@end
//@fn SessionExpires::is_valid
    ensures r == (90 <= self.delta_seconds <= 86400),
//@end
//@fn SessionExpires::parse
    ensures
        match r { Some(e) => se_text(input@) == Some((e.delta_seconds as nat, e.refresher)), None => se_text(input@).is_none() },
        r matches Some(e) ==> 90 <= e.delta_seconds <= 86400,
@entry
    broadcast use {sx::first_is};
@loop 1
    invariant 1 <= i__ <= parts.len(), parts@.len() == fields(input@, ';').len(),
        forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@ == fields(input@, ';')[i],
        refresher == role_in(fields(input@, ';'), i__ as int),
    decreases parts.len() - i__,
//@end
}
impl MinSessionExpires {
//@fn MinSessionExpires::default_minimum
    ensures r == 90,
//@end
//@fn MinSessionExpires::maximum
    ensures r == 7200,
//@end
//@fn MinSessionExpires::new
    ensures match r { Ok(e) => e.delta_seconds == delta_seconds && 90 <= delta_seconds <= 7200, Err(_) => !(90 <= delta_seconds <= 7200) },
//@end
//@fn MinSessionExpires::parse
    ensures match r { Some(e) => minse_text(input@) == Some(e.delta_seconds as nat), None => minse_text(input@).is_none() },
        r matches Some(e) ==> 90 <= e.delta_seconds <= 7200,
//@end
}
//@file crates/sip-parse/src/header_values.rs
//@fn parse_session_expires
    ensures match r { Some(e) => se_text(value@) == Some((e.delta_seconds as nat, e.refresher)), None => se_text(value@).is_none() }, r matches Some(e) ==> 90 <= e.delta_seconds <= 86400,
//@end
//@fn parse_min_se
    ensures match r { Some(e) => minse_text(value@) == Some(e.delta_seconds as nat), None => minse_text(value@).is_none() },
//@end
// ---- negotiation ----
pub open spec fn max_i(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn min_i(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn floor_of(l: Duration, r: Option<Duration>) -> int { match r { Some(x) => max_i(l@, x@), None => l@ } }
//@file crates/sip-dialog/src/session_timer_manager.rs
//@const MIN_SESSION_EXPIRES exec | MIN_SESSION_EXPIRES@ == 90_000_000_000
//@fn validate_session_expires
@rewrite min_se . unwrap_or ( MIN_SESSION_EXPIRES ) ==> (match min_se { Some(m__) => m__, None => MIN_SESSION_EXPIRES })
    ensures match r {
        Ok(d) => d@ == session_expires@ && session_expires@ >= (match min_se { Some(m) => m@, None => 90_000_000_000 }),
        Err(d) => d@ == (match min_se { Some(m) => m@, None => 90_000_000_000 }) && session_expires@ < d@ },
//@end
//@fn calculate_refresh_time
    ensures r@ == session_expires@ / 2,
//@end
//@fn negotiate_session_expires
    ensures match r {
        Err(m) => m@ == floor_of(local_min_se, remote_min_se) && requested@ < m@,
        Ok(d) => requested@ >= floor_of(local_min_se, remote_min_se) && d@ == (match local_preference {
            Some(p) => min_i(requested@, max_i(p@, floor_of(local_min_se, remote_min_se))), None => requested@ }) },
        r matches Ok(d) ==> floor_of(local_min_se, remote_min_se) <= d@ <= requested@,
//@end
//@fn determine_refresher_role
    ensures r == (match refresher_param { Some(s) => if eq_ci(s@, "uas"@) { !is_uac } else { is_uac }, None => is_uac }),
//@end
/// THEOREM: both sides reading the same header agree on exactly one refresher
pub proof fn one_refresher(p: Option<&str>, a: bool, b: bool)
    ensures ({ let f = |u: bool| match p { Some(s) => if eq_ci(s@, "uas"@) { !u } else { u }, None => u }; f(true) != f(false) })
{ }
// ---- the timer book and the timer task ----
//@const MAX_SESSION_TIMERS
//@const SESSION_TIMER_CHANNEL_BOUND
//@enum SessionTimerEvent
//@struct SessionTimerTask
pub struct SessionTimerManager { pub tasks: DMap<DialogId, SessionTimerTask> }
pub type Key = (Seq<char>, Seq<char>, Seq<char>);
pub type Tasks = Map<Key, SessionTimerTask>;
pub open spec fn full(t: Tasks) -> bool { t.dom().finite() && t.dom().len() >= 10_000 }
impl SessionTimerManager {
//@fn SessionTimerManager::stop_timer
@rewrite ( & self ==> (&mut self
    ensures final(self).tasks@ == old(self).tasks@.remove(dialog_id@),
//@end
//@fn SessionTimerManager::start_timer
@rewrite ( & self ==> (&mut self
@prewrite let tasks_ref = $*a ; ==>
@prewrite let event_tx = $*a ; ==>
@prewrite tokio :: spawn ( async move { $*b } ) ; ==>
    ensures
        final(self).tasks@ == old(self).tasks@.remove(dialog_id@) && full(old(self).tasks@.remove(dialog_id@))
        || (!full(old(self).tasks@.remove(dialog_id@)) && final(self).tasks@.contains_key(dialog_id@) && final(self).tasks@.remove(dialog_id@) =~= old(self).tasks@.remove(dialog_id@)
            && final(self).tasks@[dialog_id@].expiry_time@ == now_ns() + session_expires@ && final(self).tasks@[dialog_id@].cancel_tx.is_some()),
//@end
//@fn SessionTimerManager::refresh_timer
@rewrite ( & self ==> (&mut self
    ensures
        final(self).tasks@ == old(self).tasks@.remove(dialog_id@) && full(old(self).tasks@.remove(dialog_id@))
        || (!full(old(self).tasks@.remove(dialog_id@)) && final(self).tasks@.contains_key(dialog_id@) && final(self).tasks@.remove(dialog_id@) =~= old(self).tasks@.remove(dialog_id@)
            && final(self).tasks@[dialog_id@].expiry_time@ == now_ns() + session_expires@ && final(self).tasks@[dialog_id@].cancel_tx.is_some()),
//@end
//@fn SessionTimerManager::has_timer
    ensures r == self.tasks@.contains_key(dialog_id@),
//@end
//@fn SessionTimerManager::time_remaining
    requires self.tasks@.contains_key(dialog_id@) ==> self.tasks@[dialog_id@].expiry_time@ - now_ns() <= dmax(),
    ensures match r { Some(d) => self.tasks@.contains_key(dialog_id@) && d@ == max_i(0, self.tasks@[dialog_id@].expiry_time@ - now_ns()), None => !self.tasks@.contains_key(dialog_id@) },
//@end
//@fn SessionTimerManager::active_count
    ensures r == self.tasks@.dom().len(),
//@end
//@fn SessionTimerManager::clear
@rewrite ( & self ==> (&mut self
    ensures final(self).tasks@ =~= Tasks::empty(),
@loop 1
    invariant 0 <= i__ <= ids.len(),
        forall|k: Key| #[trigger] self.tasks@.contains_key(k) ==> exists|i: int| 0 <= i < ids.len() && #[trigger] ids[i]@ == k,
        forall|j: int| 0 <= j < i__ ==> !self.tasks@.contains_key((#[trigger] ids[j])@),
    decreases ids.len() - i__,
//@end
}
/// one run of the spawned task: how long it has slept, what it has announced and when, whether it was cancelled,
/// and the timer book as it finds it when it wakes up (anything may have happened to the book meanwhile)
pub struct XRun { pub slept: Ghost<int>, pub log: Ghost<Seq<(int, SessionTimerEvent)>>, pub cancelled: Ghost<bool>, pub seen: Ghost<Tasks>, pub tasks: DMap<DialogId, SessionTimerTask> }
impl XRun {
    /// select over the cancellation and the sleep
    #[verifier::external_body] pub fn cancelled_within(&mut self, d: Duration) -> (r: bool)
        ensures final(self).log@ == old(self).log@, r == final(self).cancelled@, !r ==> final(self).slept@ == old(self).slept@ + d@, final(self).seen@ == final(self).tasks@ { unimplemented!() }
    #[verifier::external_body] pub fn send(&mut self, e: SessionTimerEvent) -> Result<(), ()>
        ensures final(self).log@ == old(self).log@.push((old(self).slept@, e)), final(self).slept@ == old(self).slept@, final(self).cancelled@ == old(self).cancelled@, final(self).seen@ == old(self).seen@, final(self).tasks@ == old(self).tasks@ { unimplemented!() }
}
pub open spec fn is_refresh(e: SessionTimerEvent, k: Key) -> bool { e matches SessionTimerEvent::RefreshNeeded(d) && d@ == k }
pub open spec fn is_expired(e: SessionTimerEvent, k: Key) -> bool { e matches SessionTimerEvent::SessionExpired(d) && d@ == k }
/// the book still holds this very timer
pub open spec fn current(t: Tasks, k: Key, at: Instant) -> bool { t.contains_key(k) && t[k].expiry_time@ == at@ }
//@fn SessionTimerManager::start_timer as=timer_task
@sig (run: &mut XRun, dialog_id_clone: DialogId, session_expires: Duration, is_refresher: bool, expiry_time: Instant)
@prewrite self . stop_timer ( $*x ) ; ==>
@prewrite if self . tasks . len ( ) >= MAX_SESSION_TIMERS { return ; } ==>
@prewrite let expiry_time = $*x ; ==>
@prewrite let ( cancel_tx , mut cancel_rx ) = $*x ; ==>
@prewrite let task = SessionTimerTask { $*x } ; ==>
@prewrite self . tasks . insert ( $*x ) ; ==>
@prewrite let tasks_ref = $*a ; ==>
@prewrite let event_tx = $*a ; ==>
@prewrite let dialog_id_clone = $*a ; ==>
@prewrite tokio :: spawn ( async move { $*b } ) ; ==> $b
@prewrite tokio :: select ! { biased ; _ = cancel_rx . recv ( ) => { $*a } _ = sleep ( $*d ) => { $*b } } ==> if run.cancelled_within($d) { $a } else { $b }
@prewrite event_tx . send ( $*e ) ==> run.send($e)
@prewrite let current = tasks_ref . remove_if ( & $k , | _ , $t | $*c ) ; ==> let fire__ = match run.tasks.get(&$k) { Some($t) => $c, None => false }; let current = if fire__ { run.tasks.remove(&$k) } else { None };
    requires old(run).slept@ == 0, old(run).log@.len() == 0,
    ensures
        final(run).log@.len() <= 2,
        // a refresh request at half time, only on the refresher's side; expiry at the full time, and only of the timer still in the book, which leaves it
        forall|i: int| 0 <= i < final(run).log@.len() ==> {
            let x = #[trigger] final(run).log@[i];
            (i == 0 && is_refresher && is_refresh(x.1, dialog_id_clone@) && x.0 == session_expires@ / 2)
            || (is_expired(x.1, dialog_id_clone@) && i == final(run).log@.len() - 1 && (i == 1) == is_refresher && session_expires@ - 1 <= x.0 <= session_expires@ && !final(run).cancelled@
                && current(final(run).seen@, dialog_id_clone@, expiry_time) && final(run).tasks@ == final(run).seen@.remove(dialog_id_clone@))
        },
        // not cancelled: it does announce both
        !final(run).cancelled@ && current(final(run).seen@, dialog_id_clone@, expiry_time) ==> final(run).log@.len() == (if is_refresher { 2int } else { 1 }),
        !final(run).cancelled@ && !current(final(run).seen@, dialog_id_clone@, expiry_time) ==> final(run).log@.len() == (if is_refresher { 1int } else { 0 }) && final(run).tasks@ == final(run).seen@,
        is_refresher && !final(run).cancelled@ ==> final(run).log@.len() >= 1,
//@end
} // verus!
