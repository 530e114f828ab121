//@include base
//@include str
//@include strx
//@include slx
//@include time
//@include smol
//@include sipcore
//@rewrite ( $a ..= $b ) . contains ( & $*c ) ==> ($a <= $c && $c <= $b)
//@rewrite Duration :: ZERO ==> Duration::from_secs(0)
verus! {
broadcast use {prel::str_ext, tm::mkd_view, tm::d_range};
/// what goes on the wire for a message (the serializer itself is P17's)
pub uninterp spec fn ser_q(r: Request) -> Seq<u8>;
pub uninterp spec fn ser_a(r: Response) -> Seq<u8>;
#[verifier::external_body] pub fn serialize_request(r: &Request) -> (b: Bytes) ensures b@ == ser_q(*r) { unimplemented!() }
#[verifier::external_body] pub fn serialize_response(r: &Response) -> (b: Bytes) ensures b@ == ser_a(*r) { unimplemented!() }
impl Clone for Response { #[verifier::external_body] fn clone(&self) -> (r: Response) ensures r == *self { unimplemented!() } }
//@file crates/sip-transaction/src/lib.rs
//@enum TransactionTimer derive=Clone,Copy,PartialEq,Eq,Structural
//@enum ClientInviteState derive=Clone,Copy,PartialEq,Eq,Structural
//@enum ServerInviteState derive=Clone,Copy,PartialEq,Eq,Structural
//@enum ClientNonInviteState derive=Clone,Copy,PartialEq,Eq,Structural
//@enum ServerNonInviteState derive=Clone,Copy,PartialEq,Eq,Structural
//@file crates/sip-transaction/src/timers.rs
//@enum Transport derive=Clone,Copy,PartialEq,Eq,Structural
//@struct TimerDefaults
//@struct TransportAwareTimers
pub open spec fn reliable(t: Transport) -> bool { t != Transport::Udp }
/// 64 times the base value (saturating at the longest representable span)
pub open spec fn sixty_four(t: int) -> int { if 64 * t <= dmax() { 64 * t } else { dmax() } }
/// the documented value of every timer
pub open spec fn timer_ns(t: TransportAwareTimers, k: TransactionTimer) -> int {
    let d = t.defaults; let rel = reliable(t.transport);
    match k {
        TransactionTimer::T1 => d.t1@,
        TransactionTimer::T2 => d.t2@,
        TransactionTimer::T4 => d.t4@,
        TransactionTimer::A | TransactionTimer::E | TransactionTimer::G => if rel { 0 } else { d.t1@ },
        TransactionTimer::B | TransactionTimer::F | TransactionTimer::H => sixty_four(d.t1@),
        TransactionTimer::D => if rel { 0 } else { 32_000_000_000 },
        TransactionTimer::I | TransactionTimer::K => if rel { 0 } else { d.t4@ },
        TransactionTimer::J => if rel { 0 } else { sixty_four(d.t1@) },
        TransactionTimer::C => 180_000_000_000,
    }
}
impl Transport {
//@fn Transport::is_reliable
    ensures r == reliable(self), // [P24]
//@end
//@fn Transport::is_unreliable
    ensures r == !reliable(self), // [P24]
//@end
}
impl TimerDefaults {
//@fn TimerDefaults::default trait=Default
    ensures r.t1@ == 500_000_000, r.t2@ == 4_000_000_000, r.t4@ == 5_000_000_000, // [P24]
//@end
}
impl TransportAwareTimers {
//@fn TransportAwareTimers::new
    ensures r.transport == transport, r.defaults.t1@ == 500_000_000, r.defaults.t2@ == 4_000_000_000, r.defaults.t4@ == 5_000_000_000, // [P24]
//@end
//@fn TransportAwareTimers::with_defaults
    ensures r.transport == transport, r.defaults == defaults, // [P24]
//@end
//@fn TransportAwareTimers::duration
    ensures r@ == timer_ns(*self, timer), // [P24]
//@end
//@fn TransportAwareTimers::should_retransmit
    ensures r == !reliable(self.transport), // [P24]
//@end
//@fn TransportAwareTimers::transport
    ensures r == self.transport, // [P24]
//@end
}
//@file crates/sip-transaction/src/fsm.rs
//@enum TransportKind derive=Clone,Copy,PartialEq,Eq,Structural
//@enum ClientNonInviteEvent
//@enum ClientAction
//@enum ClientInviteEvent
//@enum ClientInviteAction
//@enum ServerNonInviteEvent
//@enum ServerAction
//@enum ServerInviteEvent
//@enum ServerInviteAction
//@struct ClientNonInviteFsm
//@struct ClientInviteFsm
//@struct ServerNonInviteFsm
//@struct ServerInviteFsm
// ---- what a machine asks of its runtime, in one vocabulary ----
pub enum Act { Send(Seq<u8>), Up(Response), Ack(Response, bool), Prack(Response), Arm(TransactionTimer, int), Disarm(TransactionTimer), End }
pub open spec fn act_c(a: ClientAction) -> Act {
    match a {
        ClientAction::Transmit { bytes, transport } => Act::Send(bytes@),
        ClientAction::Deliver(r) => Act::Up(r),
        ClientAction::Schedule { timer, duration } => Act::Arm(timer, duration@),
        ClientAction::Cancel(t) => Act::Disarm(t),
        ClientAction::Terminate { reason } => Act::End,
    }
}
pub open spec fn act_ci(a: ClientInviteAction) -> Act {
    match a {
        ClientInviteAction::Transmit { bytes, transport } => Act::Send(bytes@),
        ClientInviteAction::Deliver(r) => Act::Up(r),
        ClientInviteAction::ExpectPrack(r) => Act::Prack(r),
        ClientInviteAction::GenerateAck { response, is_2xx } => Act::Ack(response, is_2xx),
        ClientInviteAction::Schedule { timer, duration } => Act::Arm(timer, duration@),
        ClientInviteAction::Cancel(t) => Act::Disarm(t),
        ClientInviteAction::Terminate { reason } => Act::End,
    }
}
pub open spec fn act_s(a: ServerAction) -> Act {
    match a {
        ServerAction::Transmit { bytes, transport } => Act::Send(bytes@),
        ServerAction::Schedule { timer, duration } => Act::Arm(timer, duration@),
        ServerAction::Cancel(t) => Act::Disarm(t),
        ServerAction::Terminate { reason } => Act::End,
    }
}
pub open spec fn act_si(a: ServerInviteAction) -> Act {
    match a {
        ServerInviteAction::Transmit { bytes, transport } => Act::Send(bytes@),
        ServerInviteAction::Schedule { timer, duration } => Act::Arm(timer, duration@),
        ServerInviteAction::Cancel(t) => Act::Disarm(t),
        ServerInviteAction::Terminate { reason } => Act::End,
    }
}
pub open spec fn acts_c(v: Seq<ClientAction>) -> Seq<Act> { Seq::new(v.len(), |i: int| act_c(v[i])) }
pub open spec fn acts_ci(v: Seq<ClientInviteAction>) -> Seq<Act> { Seq::new(v.len(), |i: int| act_ci(v[i])) }
pub open spec fn acts_s(v: Seq<ServerAction>) -> Seq<Act> { Seq::new(v.len(), |i: int| act_s(v[i])) }
pub open spec fn acts_si(v: Seq<ServerInviteAction>) -> Seq<Act> { Seq::new(v.len(), |i: int| act_si(v[i])) }
pub open spec fn at_is(s: Seq<Act>, i: int, a: Act) -> bool { i < s.len() && s[i] == a }
/// asked for (no step asks for more than eight things)
pub open spec fn asks(s: Seq<Act>, a: Act) -> bool {
    at_is(s, 0, a) || at_is(s, 1, a) || at_is(s, 2, a) || at_is(s, 3, a) || at_is(s, 4, a) || at_is(s, 5, a) || at_is(s, 6, a) || at_is(s, 7, a)
}
/// messages to the peer or the user, which must not be doubled
pub open spec fn is_msg(a: Act) -> int { match a { Act::Send(_) => 1, Act::Up(_) => 2, Act::Ack(_, _) => 3, Act::Prack(_) => 4, _ => 0 } }
pub open spec fn no_twice(s: Seq<Act>) -> bool { s.len() <= 8 && forall|i: int, j: int| 0 <= i < j < s.len() && is_msg(#[trigger] s[i]) > 0 ==> is_msg(#[trigger] s[j]) != is_msg(s[i]) }
/// the span asked of a timer of that state
pub open spec fn arms_ok(a: Act, t: TransportAwareTimers, k: TransactionTimer) -> bool { a == Act::Arm(k, timer_ns(t, k)) }
/// twice as long, at most the cap
pub open spec fn twice(t: TransportAwareTimers, i: int) -> int {
    let d = if i * 2 <= dmax() { i * 2 } else { dmax() };
    if d <= t.defaults.t2@ { d } else { t.defaults.t2@ }
}
pub open spec fn is_2xx(r: Response) -> bool { 200 <= r.start.code <= 299 }
pub open spec fn lists(vals: Seq<Seq<char>>, n: int) -> bool decreases n {
    n > 0 && (token_in(fields(vals[n - 1], ','), fields(vals[n - 1], ',').len() as int) || lists(vals, n - 1))
}
pub open spec fn token_in(f: Seq<Seq<char>>, n: int) -> bool decreases n { n > 0 && (eq_ci(trim_s(f[n - 1]), "100rel"@) || token_in(f, n - 1)) }
/// a provisional response the peer expects to be acknowledged
pub open spec fn reliable_1xx(r: Response) -> bool {
    let rq = hall(r.headers, "Require"@); let su = hall(r.headers, "Supported"@);
    hget(r.headers, "RSeq"@).is_some() && (lists(rq, rq.len() as int) || lists(su, su.len() as int) || hget(r.headers, "Require"@).is_none())
}
/// the helper the extraction puts in place of the iterator chain get_all_smol(n).flat_map(split ',').any(trim == 100rel)
pub fn x_lists_100rel(h: &Headers, n: &str) -> (r: bool)
    ensures r == lists(hall(*h, n@), hall(*h, n@).len() as int),
{
    let vs = h.get_all_smol(n);
    let mut i: usize = 0;
    while i < vs.len()
        invariant_except_break !lists(hall(*h, n@), i as int),
        invariant 0 <= i <= vs.len(), smols(vs@) =~= hall(*h, n@), vs@.len() == hall(*h, n@).len(),
        ensures i == vs.len(), !lists(hall(*h, n@), i as int),
        decreases vs.len() - i,
    {
        let fs = vs[i].as_str().x_split_c(',');
        assert(smols(vs@)[i as int] == vs[i as int]@);
        let ghost ff = fields(hall(*h, n@)[i as int], ',');
        let mut j: usize = 0;
        while j < fs.len()
            invariant 0 <= j <= fs.len(), fs@.len() == ff.len(), forall|q: int| 0 <= q < ff.len() ==> (#[trigger] fs@[q])@ == ff[q], !token_in(ff, j as int),
                0 <= i < vs@.len(), vs@.len() == hall(*h, n@).len(), ff == fields(hall(*h, n@)[i as int], ','),
            decreases fs.len() - j,
        {
            if fs[j].trim().eq_ignore_ascii_case("100rel") {
                proof { lem_token(ff, j as int + 1, ff.len() as int); lem_lists(hall(*h, n@), i as int + 1, hall(*h, n@).len() as int); }
                return true;
            }
            j += 1;
        }
        i += 1;
    }
    false
}
pub proof fn lem_token(f: Seq<Seq<char>>, i: int, n: int) requires token_in(f, i), i <= n ensures token_in(f, n) decreases n - i { if i < n { lem_token(f, i, n - 1); } }
pub proof fn lem_lists(f: Seq<Seq<char>>, i: int, n: int) requires lists(f, i), i <= n ensures lists(f, n) decreases n - i { if i < n { lem_lists(f, i, n - 1); } }
//@fn response_requires_prack
@rewrite response . headers ( ) . get_all_smol ( $s ) . flat_map ( | value | value . split ( ',' ) ) . any ( | token | token . trim ( ) . eq_ignore_ascii_case ( "100rel" ) ) ==> x_lists_100rel(response.headers(), $s)
    ensures r == reliable_1xx(*response), // [P23]
//@end

// ================= client INVITE (RFC 3261 17.1.1) =================
/// timers a state waits on: they must not be cancelled on entry to it
pub open spec fn ci_needs(s: ClientInviteState, k: TransactionTimer) -> bool {
    match s { ClientInviteState::Calling => k == TransactionTimer::A || k == TransactionTimer::B, ClientInviteState::Completed => k == TransactionTimer::D, _ => false }
}
pub open spec fn idle_disarm_ci(a: Act, s: ClientInviteState) -> bool { a matches Act::Disarm(k) && !ci_needs(s, k) }
pub open spec fn ci_wf(f: ClientInviteFsm) -> bool { f.state == ClientInviteState::Calling ==> f.a_interval@ <= dmax() }
pub open spec fn ci_frame(f0: ClientInviteFsm, f1: ClientInviteFsm) -> bool {
    f1.timers == f0.timers && f1.a_interval == f0.a_interval && f1.last_invite == f0.last_invite
}
pub open spec fn ci_stay(f0: ClientInviteFsm, f1: ClientInviteFsm, a: Seq<Act>) -> bool { ci_frame(f0, f1) && f1.state == f0.state && a.len() == 0 }
pub open spec fn ci_ends(f0: ClientInviteFsm, f1: ClientInviteFsm, a: Seq<Act>) -> bool {
    &&& ci_frame(f0, f1) && f1.state == ClientInviteState::Terminated && no_twice(a) && asks(a, Act::End)
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::End || a[i] is Disarm
}
pub open spec fn ci_2xx(f0: ClientInviteFsm, x: Response, f1: ClientInviteFsm, a: Seq<Act>) -> bool {
    &&& ci_frame(f0, f1) && f1.state == ClientInviteState::Terminated && no_twice(a)
    &&& asks(a, Act::Up(x)) && asks(a, Act::Ack(x, true)) && asks(a, Act::Disarm(TransactionTimer::A)) && asks(a, Act::Disarm(TransactionTimer::B))
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Up(x) || a[i] == Act::Ack(x, true) || a[i] is Disarm
}
/// one step of the client INVITE machine
pub open spec fn ci_step(f0: ClientInviteFsm, ev: ClientInviteEvent, f1: ClientInviteFsm, a: Seq<Act>) -> bool {
    let s = f0.state; let t = f0.timers;
    match ev {
        ClientInviteEvent::SendInvite(q) => if s != ClientInviteState::Calling { ci_stay(f0, f1, a) } else {
            &&& f1.state == s && f1.timers == t && no_twice(a)
            &&& holds(f1.last_invite, ser_q(q))
            &&& f1.a_interval == f0.a_interval || f1.a_interval@ == timer_ns(t, TransactionTimer::A)
            &&& asks(a, Act::Send(ser_q(q))) && asks(a, Act::Arm(TransactionTimer::B, timer_ns(t, TransactionTimer::B)))
            &&& timer_ns(t, TransactionTimer::A) > 0 ==> asks(a, Act::Arm(TransactionTimer::A, timer_ns(t, TransactionTimer::A)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_q(q)) || arms_ok(a[i], t, TransactionTimer::B)
                || (arms_ok(a[i], t, TransactionTimer::A) && timer_ns(t, TransactionTimer::A) > 0)
        },
        ClientInviteEvent::ReceiveProvisional(x) => if s != ClientInviteState::Calling && s != ClientInviteState::Proceeding { ci_stay(f0, f1, a) } else {
            &&& ci_frame(f0, f1) && f1.state == ClientInviteState::Proceeding && no_twice(a)
            &&& asks(a, Act::Up(x)) && asks(a, Act::Disarm(TransactionTimer::A))
            &&& reliable_1xx(x) ==> asks(a, Act::Prack(x))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Up(x) || (a[i] == Act::Prack(x) && reliable_1xx(x)) || idle_disarm_ci(a[i], f1.state)
        },
        ClientInviteEvent::ReceiveFinal(x) => if is_2xx(x) { if s == ClientInviteState::Confirmed { ci_stay(f0, f1, a) } else { ci_2xx(f0, x, f1, a) } }
            else if s == ClientInviteState::Confirmed || s == ClientInviteState::Terminated { ci_stay(f0, f1, a) }
            else {
            &&& ci_frame(f0, f1) && f1.state == ClientInviteState::Completed && no_twice(a) && asks(a, Act::Ack(x, false))
            &&& s != ClientInviteState::Completed ==> asks(a, Act::Up(x)) && asks(a, Act::Disarm(TransactionTimer::A)) && asks(a, Act::Disarm(TransactionTimer::B))
                && asks(a, Act::Arm(TransactionTimer::D, timer_ns(t, TransactionTimer::D)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Ack(x, false) || idle_disarm_ci(a[i], f1.state)
                || (s != ClientInviteState::Completed && (a[i] == Act::Up(x) || arms_ok(a[i], t, TransactionTimer::D)))
            },
        ClientInviteEvent::TimerFired(k) => if s == ClientInviteState::Calling && k == TransactionTimer::A {
                if timer_ns(t, TransactionTimer::A) == 0 { ci_stay(f0, f1, a) } else {
                    &&& f1.state == s && f1.timers == t && f1.last_invite == f0.last_invite && no_twice(a)
                    &&& match f0.last_invite {
                        Some(b) => {
                            &&& f1.a_interval@ == twice(t, f0.a_interval@)
                            &&& asks(a, Act::Send(b@)) && asks(a, Act::Arm(TransactionTimer::A, f1.a_interval@))
                            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(b@) || a[i] == Act::Arm(TransactionTimer::A, f1.a_interval@)
                        },
                        None => a.len() == 0 && (f1.a_interval == f0.a_interval || f1.a_interval@ == twice(t, f0.a_interval@)),
                    }
                }
            } else if s == ClientInviteState::Calling && k == TransactionTimer::B { ci_ends(f0, f1, a) && asks(a, Act::Disarm(TransactionTimer::A)) }
            else if s == ClientInviteState::Completed && k == TransactionTimer::D {
                ci_frame(f0, f1) && f1.state == ClientInviteState::Terminated && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Disarm || a[i] == Act::End
            } else { ci_stay(f0, f1, a) },
        ClientInviteEvent::TransportError => ci_ends(f0, f1, a),
    }
}
impl ClientInviteFsm {
//@fn ClientInviteFsm::state
    ensures r == self.state, // [P23]
//@end
//@fn ClientInviteFsm::new
    ensures r.state == ClientInviteState::Calling, r.timers == timers, r.a_interval@ == timer_ns(timers, TransactionTimer::A), r.last_invite.is_none(), // [P23] [P24]
//@end
//@fn ClientInviteFsm::on_event
@rewrite use crate :: ClientInviteState :: * ==> use crate::ClientInviteState::*
    ensures ci_step(*old(self), event, *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_send_invite
    requires old(self).state == ClientInviteState::Calling,
    ensures ci_step(*old(self), ClientInviteEvent::SendInvite(request), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_provisional
    requires old(self).state == ClientInviteState::Calling || old(self).state == ClientInviteState::Proceeding,
    ensures ci_step(*old(self), ClientInviteEvent::ReceiveProvisional(response), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_final
    requires old(self).state == current_state, old(self).state == ClientInviteState::Calling || old(self).state == ClientInviteState::Proceeding || old(self).state == ClientInviteState::Completed,
    ensures ci_step(*old(self), ClientInviteEvent::ReceiveFinal(response), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_final_2xx
    requires is_2xx(response), old(self).state != ClientInviteState::Confirmed,
    ensures ci_step(*old(self), ClientInviteEvent::ReceiveFinal(response), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_final_non_2xx
    requires !is_2xx(response), old(self).state == current_state, old(self).state == ClientInviteState::Calling || old(self).state == ClientInviteState::Proceeding || old(self).state == ClientInviteState::Completed,
    ensures ci_step(*old(self), ClientInviteEvent::ReceiveFinal(response), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_timer_a
    requires old(self).state == ClientInviteState::Calling,
    ensures ci_step(*old(self), ClientInviteEvent::TimerFired(TransactionTimer::A), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_timer_b
    requires old(self).state == ClientInviteState::Calling,
    ensures ci_step(*old(self), ClientInviteEvent::TimerFired(TransactionTimer::B), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_timer_d
    requires old(self).state == ClientInviteState::Completed,
    ensures ci_step(*old(self), ClientInviteEvent::TimerFired(TransactionTimer::D), *final(self), acts_ci(r@)), // [P23] [P24]
//@end
//@fn ClientInviteFsm::handle_transport_error
    ensures ci_step(*old(self), ClientInviteEvent::TransportError, *final(self), acts_ci(r@)), // [P23] [P24]
//@end
}

// ================= client non-INVITE (RFC 3261 17.1.2) =================
pub open spec fn c_needs(s: ClientNonInviteState, k: TransactionTimer) -> bool {
    match s { ClientNonInviteState::Trying | ClientNonInviteState::Proceeding => k == TransactionTimer::E || k == TransactionTimer::F, ClientNonInviteState::Completed => k == TransactionTimer::K, _ => false }
}
pub open spec fn c_open(s: ClientNonInviteState) -> bool { s == ClientNonInviteState::Trying || s == ClientNonInviteState::Proceeding }
pub open spec fn idle_disarm_c(a: Act, s: ClientNonInviteState) -> bool { a matches Act::Disarm(k) && !c_needs(s, k) }
pub open spec fn c_frame(f0: ClientNonInviteFsm, f1: ClientNonInviteFsm) -> bool {
    f1.timers == f0.timers && f1.e_interval == f0.e_interval && f1.last_request == f0.last_request
}
pub open spec fn c_stay(f0: ClientNonInviteFsm, f1: ClientNonInviteFsm, a: Seq<Act>) -> bool { c_frame(f0, f1) && f1.state == f0.state && a.len() == 0 }
pub open spec fn c_ends(f0: ClientNonInviteFsm, f1: ClientNonInviteFsm, a: Seq<Act>) -> bool {
    &&& c_frame(f0, f1) && f1.state == ClientNonInviteState::Terminated && no_twice(a) && asks(a, Act::End)
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::End || a[i] is Disarm
}
pub open spec fn c_step(f0: ClientNonInviteFsm, ev: ClientNonInviteEvent, f1: ClientNonInviteFsm, a: Seq<Act>) -> bool {
    let s = f0.state; let t = f0.timers;
    match ev {
        ClientNonInviteEvent::SendRequest(q) => if s != ClientNonInviteState::Trying { c_stay(f0, f1, a) } else {
            &&& f1.state == s && f1.timers == t && no_twice(a)
            &&& holds(f1.last_request, ser_q(q))
            &&& f1.e_interval == f0.e_interval || f1.e_interval@ == timer_ns(t, TransactionTimer::E)
            &&& asks(a, Act::Send(ser_q(q))) && asks(a, Act::Arm(TransactionTimer::F, timer_ns(t, TransactionTimer::F)))
            &&& timer_ns(t, TransactionTimer::E) > 0 ==> asks(a, Act::Arm(TransactionTimer::E, timer_ns(t, TransactionTimer::E)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_q(q)) || arms_ok(a[i], t, TransactionTimer::F)
                || (arms_ok(a[i], t, TransactionTimer::E) && timer_ns(t, TransactionTimer::E) > 0)
        },
        ClientNonInviteEvent::ReceiveProvisional(x) => if !c_open(s) { c_stay(f0, f1, a) } else {
            &&& c_frame(f0, f1) && f1.state == ClientNonInviteState::Proceeding && no_twice(a) && asks(a, Act::Up(x))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Up(x) || idle_disarm_c(a[i], f1.state)
        },
        ClientNonInviteEvent::ReceiveFinal(x) => if !c_open(s) { c_stay(f0, f1, a) } else {
            &&& c_frame(f0, f1) && f1.state == ClientNonInviteState::Completed && no_twice(a) && asks(a, Act::Up(x))
            &&& asks(a, Act::Disarm(TransactionTimer::E)) && asks(a, Act::Disarm(TransactionTimer::F)) && asks(a, Act::Arm(TransactionTimer::K, timer_ns(t, TransactionTimer::K)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Up(x) || arms_ok(a[i], t, TransactionTimer::K) || idle_disarm_c(a[i], f1.state)
        },
        ClientNonInviteEvent::TimerFired(k) => if c_open(s) && k == TransactionTimer::E {
                if timer_ns(t, TransactionTimer::E) == 0 { c_stay(f0, f1, a) } else {
                    &&& f1.state == s && f1.timers == t && f1.last_request == f0.last_request && no_twice(a)
                    &&& match f0.last_request {
                        Some(b) => {
                            &&& f1.e_interval@ == twice(t, f0.e_interval@)
                            &&& asks(a, Act::Send(b@)) && asks(a, Act::Arm(TransactionTimer::E, f1.e_interval@))
                            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(b@) || a[i] == Act::Arm(TransactionTimer::E, f1.e_interval@)
                        },
                        None => a.len() == 0 && (f1.e_interval == f0.e_interval || f1.e_interval@ == twice(t, f0.e_interval@)),
                    }
                }
            } else if c_open(s) && k == TransactionTimer::F { c_ends(f0, f1, a) && asks(a, Act::Disarm(TransactionTimer::E)) }
            else if s == ClientNonInviteState::Completed && k == TransactionTimer::K {
                c_frame(f0, f1) && f1.state == ClientNonInviteState::Terminated && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Disarm || a[i] == Act::End
            } else { c_stay(f0, f1, a) },
        ClientNonInviteEvent::TransportError => c_ends(f0, f1, a),
    }
}
impl ClientNonInviteFsm {
//@fn ClientNonInviteFsm::state
    ensures r == self.state, // [P23]
//@end
//@fn ClientNonInviteFsm::new
    ensures r.state == ClientNonInviteState::Trying, r.timers == timers, r.e_interval@ == timer_ns(timers, TransactionTimer::E), r.last_request.is_none(), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::on_event
    ensures c_step(*old(self), event, *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_initial_send
    requires old(self).state == ClientNonInviteState::Trying,
    ensures c_step(*old(self), ClientNonInviteEvent::SendRequest(request), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_provisional
    requires c_open(old(self).state),
    ensures c_step(*old(self), ClientNonInviteEvent::ReceiveProvisional(response), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_final
    requires c_open(old(self).state),
    ensures c_step(*old(self), ClientNonInviteEvent::ReceiveFinal(response), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_timer_e
    requires c_open(old(self).state),
    ensures c_step(*old(self), ClientNonInviteEvent::TimerFired(TransactionTimer::E), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_timer_f
    requires c_open(old(self).state),
    ensures c_step(*old(self), ClientNonInviteEvent::TimerFired(TransactionTimer::F), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_timer_k
    requires old(self).state == ClientNonInviteState::Completed,
    ensures c_step(*old(self), ClientNonInviteEvent::TimerFired(TransactionTimer::K), *final(self), acts_c(r@)), // [P23] [P24]
//@end
//@fn ClientNonInviteFsm::handle_transport_error
    ensures c_step(*old(self), ClientNonInviteEvent::TransportError, *final(self), acts_c(r@)), // [P23] [P24]
//@end
}

// ================= server non-INVITE (RFC 3261 17.2.2) =================
pub open spec fn s_frame(f0: ServerNonInviteFsm, f1: ServerNonInviteFsm) -> bool { f1.timers == f0.timers && f1.last_response == f0.last_response }
pub open spec fn s_stay(f0: ServerNonInviteFsm, f1: ServerNonInviteFsm, a: Seq<Act>) -> bool { s_frame(f0, f1) && f1.state == f0.state && a.len() == 0 }
pub open spec fn s_ends(f0: ServerNonInviteFsm, f1: ServerNonInviteFsm, a: Seq<Act>) -> bool {
    &&& s_frame(f0, f1) && f1.state == ServerNonInviteState::Terminated && no_twice(a) && asks(a, Act::End)
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::End || a[i] is Disarm
}
pub open spec fn s_step(f0: ServerNonInviteFsm, ev: ServerNonInviteEvent, f1: ServerNonInviteFsm, a: Seq<Act>) -> bool {
    let s = f0.state; let t = f0.timers;
    match ev {
        ServerNonInviteEvent::ReceiveRequest(q) => if s != ServerNonInviteState::Trying { s_stay(f0, f1, a) } else { s_frame(f0, f1) && f1.state == ServerNonInviteState::Proceeding && a.len() == 0 },
        ServerNonInviteEvent::SendProvisional(x) => if s != ServerNonInviteState::Proceeding { s_stay(f0, f1, a) } else {
            &&& f1.state == s && f1.timers == t && holds(f1.last_response, ser_a(x))
            &&& no_twice(a) && asks(a, Act::Send(ser_a(x)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_a(x))
        },
        ServerNonInviteEvent::SendFinal(x) => if s != ServerNonInviteState::Trying && s != ServerNonInviteState::Proceeding { s_stay(f0, f1, a) } else {
            &&& f1.state == ServerNonInviteState::Completed && f1.timers == t && holds(f1.last_response, ser_a(x))
            &&& no_twice(a) && asks(a, Act::Send(ser_a(x))) && asks(a, Act::Arm(TransactionTimer::J, timer_ns(t, TransactionTimer::J)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_a(x)) || arms_ok(a[i], t, TransactionTimer::J)
        },
        ServerNonInviteEvent::AckReceived => if s != ServerNonInviteState::Completed { s_stay(f0, f1, a) } else { s_ends(f0, f1, a) },
        ServerNonInviteEvent::TimerFired(k) => if s == ServerNonInviteState::Completed && k == TransactionTimer::J { s_ends(f0, f1, a) } else { s_stay(f0, f1, a) },
        ServerNonInviteEvent::TransportError => s_ends(f0, f1, a),
    }
}
impl ServerNonInviteFsm {
//@fn ServerNonInviteFsm::state
    ensures r == self.state, // [P23]
//@end
//@fn ServerNonInviteFsm::new
    ensures r.state == ServerNonInviteState::Trying, r.timers == timers, r.last_response.is_none(), // [P23]
//@end
//@fn ServerNonInviteFsm::on_event
    ensures s_step(*old(self), event, *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::on_retransmit
    ensures ({
        let on = self.state == ServerNonInviteState::Proceeding || self.state == ServerNonInviteState::Completed;
        match self.last_response { Some(b) => if on { acts_s(r@) =~= seq![Act::Send(b@)] } else { r@.len() == 0 }, None => r@.len() == 0 }
    }), // [P23]
//@end
//@fn ServerNonInviteFsm::handle_request
    requires old(self).state == ServerNonInviteState::Trying,
    ensures s_step(*old(self), ServerNonInviteEvent::ReceiveRequest(request), *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::handle_provisional
    requires old(self).state == ServerNonInviteState::Proceeding,
    ensures s_step(*old(self), ServerNonInviteEvent::SendProvisional(response), *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::handle_final
    requires old(self).state == ServerNonInviteState::Trying || old(self).state == ServerNonInviteState::Proceeding,
    ensures s_step(*old(self), ServerNonInviteEvent::SendFinal(response), *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::handle_ack
    requires old(self).state == ServerNonInviteState::Completed,
    ensures s_step(*old(self), ServerNonInviteEvent::AckReceived, *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::handle_timer_j
    requires old(self).state == ServerNonInviteState::Completed,
    ensures s_step(*old(self), ServerNonInviteEvent::TimerFired(TransactionTimer::J), *final(self), acts_s(r@)), // [P23] [P24]
//@end
//@fn ServerNonInviteFsm::handle_transport_error
    ensures s_step(*old(self), ServerNonInviteEvent::TransportError, *final(self), acts_s(r@)), // [P23] [P24]
//@end
}

// ================= server INVITE (RFC 3261 17.2.1) =================
pub open spec fn si_needs(s: ServerInviteState, k: TransactionTimer) -> bool {
    match s { ServerInviteState::Completed => k == TransactionTimer::G || k == TransactionTimer::H, ServerInviteState::Confirmed => k == TransactionTimer::I, _ => false }
}
pub open spec fn si_frame(f0: ServerInviteFsm, f1: ServerInviteFsm) -> bool {
    f1.timers == f0.timers && f1.g_interval == f0.g_interval && f1.last_response == f0.last_response && f1.last_final == f0.last_final
}
pub open spec fn si_stay(f0: ServerInviteFsm, f1: ServerInviteFsm, a: Seq<Act>) -> bool { si_frame(f0, f1) && f1.state == f0.state && a.len() == 0 }
pub open spec fn si_ends(f0: ServerInviteFsm, f1: ServerInviteFsm, a: Seq<Act>) -> bool {
    &&& si_frame(f0, f1) && f1.state == ServerInviteState::Terminated && no_twice(a) && asks(a, Act::End)
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::End || a[i] is Disarm
}
pub open spec fn holds(o: Option<Bytes>, b: Seq<u8>) -> bool { o matches Some(x) && x@ == b }
pub open spec fn si_step(f0: ServerInviteFsm, ev: ServerInviteEvent, f1: ServerInviteFsm, a: Seq<Act>) -> bool {
    let s = f0.state; let t = f0.timers;
    match ev {
        ServerInviteEvent::ReceiveInvite(_) => si_stay(f0, f1, a),
        ServerInviteEvent::ReceiveCancel => si_stay(f0, f1, a),
        ServerInviteEvent::SendProvisional(x) => if s != ServerInviteState::Proceeding { si_stay(f0, f1, a) } else {
            &&& f1.state == s && f1.timers == t && f1.g_interval == f0.g_interval && f1.last_final == f0.last_final && holds(f1.last_response, ser_a(x))
            &&& no_twice(a) && asks(a, Act::Send(ser_a(x)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_a(x))
        },
        ServerInviteEvent::SendFinal(x) => if s != ServerInviteState::Proceeding { si_stay(f0, f1, a) } else if is_2xx(x) {
            &&& f1.state == ServerInviteState::Terminated && f1.timers == t
            &&& no_twice(a) && asks(a, Act::Send(ser_a(x))) && asks(a, Act::End)
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_a(x)) || a[i] == Act::End || a[i] is Disarm
        } else {
            &&& f1.state == ServerInviteState::Completed && f1.timers == t && holds(f1.last_response, ser_a(x)) && holds(f1.last_final, ser_a(x))
            &&& f1.g_interval@ == timer_ns(t, TransactionTimer::G)
            &&& no_twice(a) && asks(a, Act::Send(ser_a(x))) && asks(a, Act::Arm(TransactionTimer::H, timer_ns(t, TransactionTimer::H)))
            &&& timer_ns(t, TransactionTimer::G) > 0 ==> asks(a, Act::Arm(TransactionTimer::G, timer_ns(t, TransactionTimer::G)))
            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(ser_a(x)) || arms_ok(a[i], t, TransactionTimer::H)
                || (arms_ok(a[i], t, TransactionTimer::G) && timer_ns(t, TransactionTimer::G) > 0)
        },
        ServerInviteEvent::ReceiveAck => if s != ServerInviteState::Completed { si_stay(f0, f1, a) } else {
            &&& si_frame(f0, f1) && f1.state == ServerInviteState::Confirmed && no_twice(a)
            &&& asks(a, Act::Disarm(TransactionTimer::G)) && asks(a, Act::Disarm(TransactionTimer::H)) && asks(a, Act::Arm(TransactionTimer::I, timer_ns(t, TransactionTimer::I)))
            &&& forall|i: int| 0 <= i < a.len() ==> arms_ok(#[trigger] a[i], t, TransactionTimer::I) || (a[i] matches Act::Disarm(k) && !si_needs(f1.state, k))
        },
        ServerInviteEvent::TimerFired(k) => if s == ServerInviteState::Completed && k == TransactionTimer::G {
                if timer_ns(t, TransactionTimer::G) == 0 { si_stay(f0, f1, a) } else {
                    &&& f1.state == s && f1.timers == t && f1.last_response == f0.last_response && f1.last_final == f0.last_final && no_twice(a)
                    &&& match f0.last_final {
                        Some(b) => {
                            &&& f1.g_interval@ == twice(t, f0.g_interval@)
                            &&& asks(a, Act::Send(b@)) && asks(a, Act::Arm(TransactionTimer::G, f1.g_interval@))
                            &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Act::Send(b@) || a[i] == Act::Arm(TransactionTimer::G, f1.g_interval@)
                        },
                        None => a.len() == 0,
                    }
                }
            } else if (s == ServerInviteState::Completed && k == TransactionTimer::H) || (s == ServerInviteState::Confirmed && k == TransactionTimer::I) { si_ends(f0, f1, a) }
            else { si_stay(f0, f1, a) },
        ServerInviteEvent::TransportError => si_ends(f0, f1, a),
    }
}
impl ServerInviteFsm {
//@fn ServerInviteFsm::state
    ensures r == self.state, // [P23]
//@end
//@fn ServerInviteFsm::new
    ensures r.state == ServerInviteState::Proceeding, r.timers == timers, r.last_response.is_none(), r.last_final.is_none(), // [P23]
//@end
//@fn ServerInviteFsm::on_event
    ensures si_step(*old(self), event, *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_receive_invite
    ensures si_stay(*old(self), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::on_retransmit
    ensures ({
        let on = self.state == ServerInviteState::Proceeding || self.state == ServerInviteState::Completed;
        match self.last_response { Some(b) => if on { acts_si(r@) =~= seq![Act::Send(b@)] } else { r@.len() == 0 }, None => r@.len() == 0 }
    }), // [P23]
//@end
//@fn ServerInviteFsm::handle_cancel
    ensures si_stay(*old(self), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::send_provisional
    requires old(self).state == ServerInviteState::Proceeding,
    ensures si_step(*old(self), ServerInviteEvent::SendProvisional(response), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::send_final
    requires old(self).state == ServerInviteState::Proceeding,
    ensures si_step(*old(self), ServerInviteEvent::SendFinal(response), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_ack
    ensures si_step(*old(self), ServerInviteEvent::ReceiveAck, *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_timer_g
    requires old(self).state == ServerInviteState::Completed,
    ensures si_step(*old(self), ServerInviteEvent::TimerFired(TransactionTimer::G), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_timer_h
    requires old(self).state == ServerInviteState::Completed,
    ensures si_step(*old(self), ServerInviteEvent::TimerFired(TransactionTimer::H), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_timer_i
    requires old(self).state == ServerInviteState::Confirmed,
    ensures si_step(*old(self), ServerInviteEvent::TimerFired(TransactionTimer::I), *final(self), acts_si(r@)), // [P23] [P24]
//@end
//@fn ServerInviteFsm::handle_transport_error
    ensures si_step(*old(self), ServerInviteEvent::TransportError, *final(self), acts_si(r@)), // [P23] [P24]
//@end
}

// ================= histories =================
pub struct CiStep { pub f0: ClientInviteFsm, pub ev: ClientInviteEvent, pub f1: ClientInviteFsm, pub a: Seq<Act> }
pub struct CStep { pub f0: ClientNonInviteFsm, pub ev: ClientNonInviteEvent, pub f1: ClientNonInviteFsm, pub a: Seq<Act> }
pub struct SStep { pub f0: ServerNonInviteFsm, pub ev: ServerNonInviteEvent, pub f1: ServerNonInviteFsm, pub a: Seq<Act> }
pub struct SiStep { pub f0: ServerInviteFsm, pub ev: ServerInviteEvent, pub f1: ServerInviteFsm, pub a: Seq<Act> }
pub open spec fn ci_at(h: Seq<CiStep>, i: int) -> bool { ci_step(h[i].f0, h[i].ev, h[i].f1, h[i].a) && (i > 0 ==> h[i].f0 == h[i - 1].f1) }
pub open spec fn ci_run(h: Seq<CiStep>) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] ci_at(h, i) }
pub open spec fn c_at(h: Seq<CStep>, i: int) -> bool { c_step(h[i].f0, h[i].ev, h[i].f1, h[i].a) && (i > 0 ==> h[i].f0 == h[i - 1].f1) }
pub open spec fn c_run(h: Seq<CStep>) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] c_at(h, i) }
pub open spec fn s_at(h: Seq<SStep>, i: int) -> bool { s_step(h[i].f0, h[i].ev, h[i].f1, h[i].a) && (i > 0 ==> h[i].f0 == h[i - 1].f1) }
pub open spec fn s_run(h: Seq<SStep>) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] s_at(h, i) }
pub open spec fn si_at(h: Seq<SiStep>, i: int) -> bool { si_step(h[i].f0, h[i].ev, h[i].f1, h[i].a) && (i > 0 ==> h[i].f0 == h[i - 1].f1) }
pub open spec fn si_run(h: Seq<SiStep>) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] si_at(h, i) }
pub open spec fn ci_rank(s: ClientInviteState) -> int { match s { ClientInviteState::Calling => 0, ClientInviteState::Proceeding => 1, ClientInviteState::Completed => 2, ClientInviteState::Confirmed => 3, ClientInviteState::Terminated => 4 } }
pub open spec fn c_rank(s: ClientNonInviteState) -> int { match s { ClientNonInviteState::Trying => 0, ClientNonInviteState::Proceeding => 1, ClientNonInviteState::Completed => 2, ClientNonInviteState::Terminated => 4 } }
pub open spec fn s_rank(s: ServerNonInviteState) -> int { match s { ServerNonInviteState::Trying => 0, ServerNonInviteState::Proceeding => 1, ServerNonInviteState::Completed => 2, ServerNonInviteState::Terminated => 4 } }
pub open spec fn si_rank(s: ServerInviteState) -> int { match s { ServerInviteState::Proceeding => 1, ServerInviteState::Completed => 2, ServerInviteState::Confirmed => 3, ServerInviteState::Terminated => 4 } }
/// no history moves a machine backwards, and nothing leaves Terminated
pub proof fn thm_ci_forward(h: Seq<CiStep>, i: int, j: int) // [P23]
    requires ci_run(h), 0 <= i <= j < h.len()
    ensures ci_rank(h[i].f0.state) <= ci_rank(h[j].f0.state) <= ci_rank(h[j].f1.state), i < j ==> ci_rank(h[i].f1.state) <= ci_rank(h[j].f0.state),
        h[i].f0.state == ClientInviteState::Terminated ==> h[j].f1.state == ClientInviteState::Terminated,
        h[j].f0.timers == h[i].f0.timers,
    decreases j - i
{
    assert(ci_at(h, j));
    assert(ci_at(h, i));
    if i < j { thm_ci_forward(h, i, j - 1); assert(h[j].f0 == h[j - 1].f1); assert(ci_at(h, j - 1)); }
}
pub proof fn thm_c_forward(h: Seq<CStep>, i: int, j: int) // [P23]
    requires c_run(h), 0 <= i <= j < h.len()
    ensures c_rank(h[i].f0.state) <= c_rank(h[j].f0.state) <= c_rank(h[j].f1.state), i < j ==> c_rank(h[i].f1.state) <= c_rank(h[j].f0.state),
        h[i].f0.state == ClientNonInviteState::Terminated ==> h[j].f1.state == ClientNonInviteState::Terminated,
        h[j].f0.timers == h[i].f0.timers,
    decreases j - i
{
    assert(c_at(h, j));
    assert(c_at(h, i));
    if i < j { thm_c_forward(h, i, j - 1); assert(h[j].f0 == h[j - 1].f1); assert(c_at(h, j - 1)); }
}
pub proof fn thm_s_forward(h: Seq<SStep>, i: int, j: int) // [P23]
    requires s_run(h), 0 <= i <= j < h.len()
    ensures s_rank(h[i].f0.state) <= s_rank(h[j].f0.state) <= s_rank(h[j].f1.state), i < j ==> s_rank(h[i].f1.state) <= s_rank(h[j].f0.state),
        h[i].f0.state == ServerNonInviteState::Terminated ==> h[j].f1.state == ServerNonInviteState::Terminated,
    decreases j - i
{
    assert(s_at(h, j));
    assert(s_at(h, i));
    if i < j { thm_s_forward(h, i, j - 1); assert(h[j].f0 == h[j - 1].f1); assert(s_at(h, j - 1)); }
}
pub proof fn thm_si_forward(h: Seq<SiStep>, i: int, j: int) // [P23]
    requires si_run(h), 0 <= i <= j < h.len()
    ensures si_rank(h[i].f0.state) <= si_rank(h[j].f0.state) <= si_rank(h[j].f1.state), i < j ==> si_rank(h[i].f1.state) <= si_rank(h[j].f0.state),
        h[i].f0.state == ServerInviteState::Terminated ==> h[j].f1.state == ServerInviteState::Terminated,
    decreases j - i
{
    assert(si_at(h, j));
    assert(si_at(h, i));
    if i < j { thm_si_forward(h, i, j - 1); assert(h[j].f0 == h[j - 1].f1); assert(si_at(h, j - 1)); }
}
/// a non-2xx final response reaches the INVITE user at most once in any history
pub proof fn thm_ci_final_once(h: Seq<CiStep>, i: int, j: int, x: Response, y: Response) // [P23]
    requires ci_run(h), 0 <= i < j < h.len(), h[i].a.contains(Act::Up(x)), h[i].ev == ClientInviteEvent::ReceiveFinal(x), !is_2xx(x), h[j].ev == ClientInviteEvent::ReceiveFinal(y), !is_2xx(y)
    ensures !h[j].a.contains(Act::Up(y))
{
    thm_ci_forward(h, i, j);
    assert(ci_at(h, i)); assert(ci_at(h, j));
    let p = choose|p: int| 0 <= p < h[i].a.len() && h[i].a[p] == Act::Up(x);
    assert(h[i].a[p] == Act::Up(x));
}
/// a final response of any class reaches the non-INVITE user at most once
pub proof fn thm_c_final_once(h: Seq<CStep>, i: int, j: int, x: Response, y: Response) // [P23]
    requires c_run(h), 0 <= i < j < h.len(), h[i].a.contains(Act::Up(x)), h[i].ev == ClientNonInviteEvent::ReceiveFinal(x), h[j].ev == ClientNonInviteEvent::ReceiveFinal(y)
    ensures h[j].a.len() == 0
{
    thm_c_forward(h, i, j);
    assert(c_at(h, i)); assert(c_at(h, j));
}
/// once a server INVITE transaction has sent a final response, no other one is ever sent
pub proof fn thm_si_first_final(h: Seq<SiStep>, i: int, j: int, x: Response, y: Response) // [P23]
    requires si_run(h), 0 <= i < j < h.len(), h[i].ev == ServerInviteEvent::SendFinal(x), h[i].a.len() > 0, h[j].ev == ServerInviteEvent::SendFinal(y) || h[j].ev == ServerInviteEvent::SendProvisional(y)
    ensures h[j].a.len() == 0
{
    thm_si_forward(h, i, j);
    assert(si_at(h, i)); assert(si_at(h, j));
}
pub proof fn thm_s_first_final(h: Seq<SStep>, i: int, j: int, x: Response, y: Response) // [P23]
    requires s_run(h), 0 <= i < j < h.len(), h[i].ev == ServerNonInviteEvent::SendFinal(x), h[i].a.len() > 0, h[j].ev == ServerNonInviteEvent::SendFinal(y) || h[j].ev == ServerNonInviteEvent::SendProvisional(y)
    ensures h[j].a.len() == 0
{
    thm_s_forward(h, i, j);
    assert(s_at(h, i)); assert(s_at(h, j));
}
/// the k-th interval
pub open spec fn backoff(t1: int, t2: int, k: nat) -> int decreases k { if k == 0 { t1 } else { let d = 2 * backoff(t1, t2, (k - 1) as nat); if d <= t2 { d } else { t2 } } }
pub open spec fn pow2(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * pow2((k - 1) as nat) } }
/// doubles each time and never exceeds the cap
pub proof fn thm_backoff(t1: int, t2: int, k: nat) // [P24]
    requires 0 <= t1 <= t2
    ensures backoff(t1, t2, k) == (if pow2(k) * t1 <= t2 { pow2(k) * t1 } else { t2 }), 0 <= backoff(t1, t2, k) <= t2, pow2(k) >= 1
    decreases k
{
    if k > 0 {
        thm_backoff(t1, t2, (k - 1) as nat);
        let p = pow2((k - 1) as nat);
        assert(2 * (p * t1) == (2 * p) * t1) by (nonlinear_arith);
        assert(p * t1 >= 0) by (nonlinear_arith) requires p >= 1, t1 >= 0;
    }
}
/// an INVITE followed by n retransmission timers: the k-th retransmission re-arms the timer with min(2^k T1, T2)
pub proof fn thm_ci_schedule(h: Seq<CiStep>, n: int) // [P24]
    requires ci_run(h), 0 <= n < h.len(), !reliable(h[0].f0.timers.transport), 0 < h[0].f0.timers.defaults.t1@ <= h[0].f0.timers.defaults.t2@ <= dmax(),
        h[0].f0.state == ClientInviteState::Calling, h[0].f0.a_interval@ == timer_ns(h[0].f0.timers, TransactionTimer::A), h[0].ev is SendInvite,
        forall|i: int| 0 < i <= n ==> #[trigger] h[i].ev == ClientInviteEvent::TimerFired(TransactionTimer::A),
    ensures h[n].f1.state == ClientInviteState::Calling, h[n].f1.last_invite.is_some(), h[n].f1.timers == h[0].f0.timers,
        h[n].f1.a_interval@ == backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat),
        asks(h[n].a, Act::Arm(TransactionTimer::A, backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat))),
        h[n].f1.last_invite matches Some(b) ==> asks(h[n].a, Act::Send(b@)),
    decreases n
{
    assert(ci_at(h, 0)); assert(ci_at(h, n));
    if n > 0 { thm_ci_schedule(h, n - 1); assert(h[n].f0 == h[n - 1].f1); thm_backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, (n - 1) as nat); }
}
pub proof fn thm_c_schedule(h: Seq<CStep>, n: int) // [P24]
    requires c_run(h), 0 <= n < h.len(), !reliable(h[0].f0.timers.transport), 0 < h[0].f0.timers.defaults.t1@ <= h[0].f0.timers.defaults.t2@ <= dmax(),
        h[0].f0.state == ClientNonInviteState::Trying, h[0].f0.e_interval@ == timer_ns(h[0].f0.timers, TransactionTimer::E), h[0].ev is SendRequest,
        forall|i: int| 0 < i <= n ==> #[trigger] h[i].ev == ClientNonInviteEvent::TimerFired(TransactionTimer::E),
    ensures c_open(h[n].f1.state), h[n].f1.last_request.is_some(), h[n].f1.timers == h[0].f0.timers,
        h[n].f1.e_interval@ == backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat),
        asks(h[n].a, Act::Arm(TransactionTimer::E, backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat))),
        h[n].f1.last_request matches Some(b) ==> asks(h[n].a, Act::Send(b@)),
    decreases n
{
    assert(c_at(h, 0)); assert(c_at(h, n));
    if n > 0 { thm_c_schedule(h, n - 1); assert(h[n].f0 == h[n - 1].f1); thm_backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, (n - 1) as nat); }
}
pub proof fn thm_si_schedule(h: Seq<SiStep>, n: int, x: Response) // [P24]
    requires si_run(h), 0 <= n < h.len(), !reliable(h[0].f0.timers.transport), 0 < h[0].f0.timers.defaults.t1@ <= h[0].f0.timers.defaults.t2@ <= dmax(),
        h[0].f0.state == ServerInviteState::Proceeding, h[0].ev == ServerInviteEvent::SendFinal(x), !is_2xx(x),
        forall|i: int| 0 < i <= n ==> #[trigger] h[i].ev == ServerInviteEvent::TimerFired(TransactionTimer::G),
    ensures h[n].f1.state == ServerInviteState::Completed, holds(h[n].f1.last_final, ser_a(x)), h[n].f1.timers == h[0].f0.timers,
        h[n].f1.g_interval@ == backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat),
        asks(h[n].a, Act::Arm(TransactionTimer::G, backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, n as nat))),
        asks(h[n].a, Act::Send(ser_a(x))),
    decreases n
{
    assert(si_at(h, 0)); assert(si_at(h, n));
    if n > 0 { thm_si_schedule(h, n - 1, x); assert(h[n].f0 == h[n - 1].f1); thm_backoff(h[0].f0.timers.defaults.t1@, h[0].f0.timers.defaults.t2@, (n - 1) as nat); }
}
/// over a reliable transport no timer ever retransmits, in any state
pub proof fn thm_reliable_silent(a: CiStep, b: CStep, c: SiStep, k: TransactionTimer) // [P24]
    requires ci_step(a.f0, a.ev, a.f1, a.a), c_step(b.f0, b.ev, b.f1, b.a), si_step(c.f0, c.ev, c.f1, c.a), a.ev == ClientInviteEvent::TimerFired(k), b.ev == ClientNonInviteEvent::TimerFired(k), c.ev == ServerInviteEvent::TimerFired(k),
    ensures forall|i: int| reliable(a.f0.timers.transport) && 0 <= i < a.a.len() ==> !(a.a[i] is Send), forall|i: int| reliable(b.f0.timers.transport) && 0 <= i < b.a.len() ==> !(b.a[i] is Send), forall|i: int| reliable(c.f0.timers.transport) && 0 <= i < c.a.len() ==> !(c.a[i] is Send)
{
}
} // verus!
