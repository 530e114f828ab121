//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@include errx
//@include anyhow
//@include time
//@include dmap
//@include iters
//@rewrite Arc < DashMap < SmolStr , Vec < StoredBinding > > > ==> DMap<SmolStr, Vec<StoredBinding>>
//@rewrite Arc :: new ( DashMap :: new ( ) ) ==> DMap::new()
//@rewrite self . inner . iter ( ) . map ( | entry | entry . len ( ) ) . sum ( ) ==> { let ks__ = self.inner.keys_vec(); proof { keyed(self.inner@, ks__@); } let mut n__: usize = 0; let mut i__: usize = 0; while i__ < ks__.len() { let k__ = &ks__[i__]; i__ += 1; if let Some(entry) = self.inner.get(k__) { n__ += entry.len(); } } proof { sum_all(self.inner@, kviews(ks__@)); } n__ }
//@rewrite self . inner . entry ( aor_key . clone ( ) ) . or_default ( ) ==> self.inner.entry_or_insert(aor_key.clone(), Vec::new())
//@rewrite anyhow :: AErr ==> AErr
//@rewrite Result < usize > ==> Result<usize, AErr>
//@rewrite Result < Vec < Binding > > ==> Result<Vec<Binding>, AErr>
//@rewrite . map ( SmolStr :: new ) ==> .x_map_smol()
//@rewrite . as_deref ( ) ==> .x_deref()
verus! {
pub mod loc0 {
use super::*;
/// opaque in this unit
#[verifier::external_body] pub struct PathHeader { x: u128 }
impl Clone for PathHeader { #[verifier::external_body] fn clone(&self) -> (r: PathHeader) ensures r == *self { unimplemented!() } }
pub trait XDeref { spec fn dv(&self) -> Option<Seq<char>>; fn x_deref(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.dv() == Some(t@), None => self.dv().is_none() }; }
impl XDeref for Option<SmolStr> { open spec fn dv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
pub trait XMapSmol { spec fn mv(&self) -> Option<Seq<char>>; fn x_map_smol(self) -> (r: Option<SmolStr>) ensures match r { Some(t) => self.mv() == Some(t@), None => self.mv().is_none() }; }
impl XMapSmol for Option<&str> { open spec fn mv(&self) -> Option<Seq<char>> { match *self { Some(t) => Some(t@), None => None } } #[verifier::external_body] fn x_map_smol(self) -> (r: Option<SmolStr>) { unimplemented!() } }
/// option.cloned()
pub trait XCl<T> { spec fn clv(&self) -> Option<T>; fn x_cloned(&self) -> (r: Option<T>) ensures r == self.clv(); }
impl XCl<PathHeader> for Option<&PathHeader> { open spec fn clv(&self) -> Option<PathHeader> { match *self { Some(t) => Some(*t), None => None } } #[verifier::external_body] fn x_cloned(&self) -> (r: Option<PathHeader>) { unimplemented!() } }
}
use loc0::*;
pub mod loc {
use super::*;
broadcast use {prel::str_ext, sm::smol_ext, tm::mkd_view, tm::mki_view, tm::d_range, tm::i_ext};
//@file crates/sip-registrar/src/lib.rs
//@const MAX_BINDINGS_PER_AOR
//@const MAX_TOTAL_BINDINGS
//@struct Binding
//@struct StoredBinding
//@struct MemoryLocationStore
impl Clone for StoredBinding { #[verifier::external_body] fn clone(&self) -> (r: StoredBinding) ensures r == *self { unimplemented!() } }
impl Binding {
//@fn Binding::aor
@rewrite & self . aor ==> self.aor.as_str()
    ensures r@ == self.aor@,
//@end
//@fn Binding::contact
@rewrite & self . contact ==> self.contact.as_str()
    ensures r@ == self.contact@,
//@end
//@fn Binding::expires
    ensures r == self.expires,
//@end
//@fn Binding::call_id
@rewrite & self . call_id ==> self.call_id.as_str()
    ensures r@ == self.call_id@,
//@end
//@fn Binding::cseq
    ensures r == self.cseq,
//@end
//@fn Binding::q_value
    ensures r == self.q_value,
//@end
//@fn Binding::user_agent
    ensures otext(r) == stext(self.user_agent),
//@end
//@fn Binding::path
@prewrite self . path . as_ref ( ) ==> self.path.as_ref()
    ensures match r { Some(p) => self.path == Some(*p), None => self.path.is_none() },
//@end
//@fn Binding::flow_token
    ensures otext(r) == stext(self.flow_token),
//@end
//@fn Binding::instance_id
    ensures otext(r) == stext(self.instance_id),
//@end
//@fn Binding::reg_id
    ensures r == self.reg_id,
//@end
}
pub open spec fn otext(o: Option<&str>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn stext(o: Option<SmolStr>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }

// ---- the content of the store ----------------------------------------------------------------------
pub type Content = Map<Seq<char>, Vec<StoredBinding>>;
/// still valid at time t
pub open spec fn live(t: int) -> spec_fn(StoredBinding) -> bool { |b: StoredBinding| b.expires_at@ > t }
pub open spec fn other(c: Seq<char>) -> spec_fn(StoredBinding) -> bool { |b: StoredBinding| b.contact@ != c }
/// everything stored for an address-of-record
pub open spec fn list(m: Content, a: Seq<char>) -> Seq<StoredBinding> { if m.contains_key(a) { m[a]@ } else { Seq::empty() } }
pub open spec fn list_of(m: Content, a: Seq<char>) -> Seq<StoredBinding> { list(m, a) }
/// what a user of the store can see at time t
pub open spec fn seen(m: Content, a: Seq<char>, t: int) -> Seq<StoredBinding> { kept(list(m, a), live(t)) }
/// the binding as stored at time t
pub open spec fn stored(b: Binding, t: int) -> StoredBinding {
    StoredBinding { contact: b.contact, expires_at: tm::mki(t + b.expires@), call_id: b.call_id, cseq: b.cseq, q_value: b.q_value,
        user_agent: b.user_agent, path: b.path, flow_token: b.flow_token, instance_id: b.instance_id, reg_id: b.reg_id }
}
/// what a lookup reports for a stored binding at time t
pub open spec fn shown(a: Seq<char>, s: StoredBinding, t: int, b: Binding) -> bool {
    b.aor@ == a && b.contact == s.contact && b.expires@ == s.expires_at@ - t && b.call_id == s.call_id && b.cseq == s.cseq && b.q_value == s.q_value
        && b.user_agent == s.user_agent && b.path == s.path && b.flow_token == s.flow_token && b.instance_id == s.instance_id && b.reg_id == s.reg_id
}
pub open spec fn shown_all(a: Seq<char>, s: Seq<StoredBinding>, t: int, v: Seq<Binding>) -> bool
{ v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> shown(a, #[trigger] s[i], t, v[i]) }
pub open spec fn distinct(s: Seq<StoredBinding>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).contact@ != (#[trigger] s[j]).contact@ }
/// how many bindings are stored in all
pub open spec fn total(m: Content) -> nat decreases m.dom().len() via total_dec
{ if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k]@.len() + total(m.remove(k)) } }
#[via_fn]
proof fn total_dec(m: Content) { if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); } }
proof fn total_pick(m: Content, k: Seq<char>)
    requires m.contains_key(k)
    ensures total(m) == m[k]@.len() + total(m.remove(k))
    decreases m.dom().len()
{
    assert(m.dom().contains(k));
    assert(m.dom().len() != 0);
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    if c != k {
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        assert(m.remove(k).dom() =~= m.dom().remove(k));
        total_pick(m.remove(c), k);
        total_pick(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
proof fn total_set(m: Content, k: Seq<char>, v: Vec<StoredBinding>)
    ensures total(m.insert(k, v)) == total(m) - list(m, k).len() + v@.len(), total(m) >= list(m, k).len()
{
    total_pick(m.insert(k, v), k);
    if m.contains_key(k) { total_pick(m, k); assert(m.insert(k, v).remove(k) =~= m.remove(k)); }
    else { assert(m.insert(k, v).remove(k) =~= m); }
}
proof fn total_cut(m: Content, k: Seq<char>)
    ensures total(m.remove(k)) == total(m) - list(m, k).len()
{ if m.contains_key(k) { total_pick(m, k); } else { assert(m.remove(k) =~= m); } }
pub open spec fn kviews(v: Seq<SmolStr>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// stored under the first keys of a list
pub open spec fn sum(m: Content, ks: Seq<Seq<char>>) -> nat decreases ks.len() { if ks.len() == 0 { 0 } else { sum(m, ks.drop_last()) + list(m, ks.last()).len() } }
pub open spec fn without(m: Content, ks: Seq<Seq<char>>) -> Content decreases ks.len() { if ks.len() == 0 { m } else { without(m, ks.drop_last()).remove(ks.last()) } }
pub open spec fn uniq(ks: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] }
proof fn without_has(m: Content, ks: Seq<Seq<char>>)
    ensures forall|k: Seq<char>| #[trigger] without(m, ks).contains_key(k) == (m.contains_key(k) && !ks.contains(k)), forall|k: Seq<char>| #[trigger] without(m, ks).contains_key(k) ==> without(m, ks)[k] == m[k]
    decreases ks.len()
{
    if ks.len() > 0 {
        without_has(m, ks.drop_last());
        assert forall|k: Seq<char>| ks.contains(k) == (ks.drop_last().contains(k) || k == ks.last()) by {
            if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; if i < ks.len() - 1 { assert(ks.drop_last()[i] == k); } }
            if ks.drop_last().contains(k) { let i = choose|i: int| 0 <= i < ks.len() - 1 && ks.drop_last()[i] == k; assert(ks[i] == k); }
            if k == ks.last() { assert(ks[ks.len() - 1] == k); }
        }
        let p = without(m, ks.drop_last());
        assert forall|k: Seq<char>| #[trigger] without(m, ks).contains_key(k) implies without(m, ks)[k] == m[k] by { assert(p.contains_key(k)); }
        assert forall|k: Seq<char>| #[trigger] without(m, ks).contains_key(k) == (m.contains_key(k) && !ks.contains(k)) by { assert(p.contains_key(k) == (m.contains_key(k) && !ks.drop_last().contains(k))); }
    }
}
pub proof fn sum_total(m: Content, ks: Seq<Seq<char>>)
    requires uniq(ks)
    ensures total(m) == sum(m, ks) + total(without(m, ks))
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        assert(uniq(p)) by { assert(forall|i: int, j: int| 0 <= i < j < p.len() ==> ks[i] != ks[j]); }
        sum_total(m, p);
        without_has(m, p);
        assert(!p.contains(ks.last())) by { if p.contains(ks.last()) { let i = choose|i: int| 0 <= i < p.len() && p[i] == ks.last(); assert(ks[i] == ks[ks.len() - 1]); } }
        total_cut(without(m, p), ks.last());
        assert(list(without(m, p), ks.last()) == list(m, ks.last()));
    }
}
/// adding up the lengths under every key gives the total
pub proof fn sum_all(m: Content, ks: Seq<Seq<char>>)
    requires uniq(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> ks.contains(k)
    ensures sum(m, ks.take(ks.len() as int)) == total(m)
{
    assert(ks.take(ks.len() as int) =~= ks);
    sum_total(m, ks);
    without_has(m, ks);
    assert(without(m, ks).dom() =~= Set::empty());
}
/// the limits, and one binding per contact
pub open spec fn within(m: Content) -> bool {
    total(m) <= 100_000 && forall|a: Seq<char>| #[trigger] m.contains_key(a) ==> m[a]@.len() <= 20 && distinct(m[a]@)
}
// ---- what an operation may do -----------------------------------------------------------------------
pub enum Op { Put(Seq<char>, Binding), Drop(Seq<char>, Seq<char>), DropAll(Seq<char>), Nothing }
/// what the operation at time t makes of what can be seen for a
pub open spec fn effect(op: Op, a: Seq<char>, s: Seq<StoredBinding>, t: int) -> Seq<StoredBinding> {
    match op {
        Op::Put(x, b) => if x == a { kept(kept(s, other(b.contact@)).push(stored(b, t)), live(t)) } else { s },
        Op::Drop(x, c) => if x == a { kept(s, other(c)) } else { s },
        Op::DropAll(x) => if x == a { Seq::empty() } else { s },
        Op::Nothing => s,
    }
}
/// exactly that, for every address-of-record
pub open spec fn did(m: Content, op: Op, n: Content, t: int) -> bool { forall|a: Seq<char>| #[trigger] seen(n, a, t) == effect(op, a, seen(m, a, t), t) }

pub proof fn kept_and<T>(s: Seq<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
    ensures kept(kept(s, f), g) == kept(kept(s, g), f)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let l = s.last();
        kept_and(t, f, g);
        if f(l) { assert(kept(s, f).drop_last() =~= kept(t, f)); assert(kept(s, f).last() == l); }
        if g(l) { assert(kept(s, g).drop_last() =~= kept(t, g)); assert(kept(s, g).last() == l); }
    }
}
pub proof fn kept_id<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])
    ensures kept(s, f) == s
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]); kept_id(t, f); assert(f(s[s.len() - 1])); assert(t.push(s.last()) =~= s); } }
pub proof fn kept_all<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < kept(s, f).len() ==> f(#[trigger] kept(s, f)[i])
{ kept_sub(s, f); }
pub proof fn kept_twice<T>(s: Seq<T>, f: spec_fn(T) -> bool) ensures kept(kept(s, f), f) == kept(s, f) { kept_all(s, f); kept_id(kept(s, f), f); }
pub proof fn kept_push<T>(s: Seq<T>, x: T, f: spec_fn(T) -> bool) ensures kept(s.push(x), f) == (if f(x) { kept(s, f).push(x) } else { kept(s, f) })
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn kept_distinct(s: Seq<StoredBinding>, f: spec_fn(StoredBinding) -> bool)
    requires distinct(s)
    ensures distinct(kept(s, f))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(distinct(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).contact@ != (#[trigger] t[j]).contact@ by { assert(s[i].contact@ != s[j].contact@); } }
        kept_distinct(t, f);
        if f(s.last()) {
            let k = kept(s, f);
            kept_sub(t, f);
            assert forall|i: int, j: int| 0 <= i < j < k.len() implies (#[trigger] k[i]).contact@ != (#[trigger] k[j]).contact@ by {
                if j < k.len() - 1 { assert(kept(t, f)[i].contact@ != kept(t, f)[j].contact@); }
                else { assert(t.contains(kept(t, f)[i])); let x = choose|x: int| 0 <= x < t.len() && t[x] == kept(t, f)[i]; assert(s[x].contact@ != s[s.len() - 1].contact@); }
            }
        }
    }
}
/// dropping what has expired does not change what can be seen
proof fn purge_seen(m: Content, a: Seq<char>, v: Vec<StoredBinding>, t: int)
    requires v@ == kept(list(m, a), live(t))
    ensures did(m, Op::Nothing, m.insert(a, v), t)
{ kept_twice(list(m, a), live(t)); }
/// the store after what has expired was dropped from one list
proof fn purged(m: Content, a: Seq<char>, v: Vec<StoredBinding>, t: int)
    requires within(m), m.contains_key(a), v@ == kept(m[a]@, live(t))
    ensures within(m.insert(a, v)), did(m, Op::Nothing, m.insert(a, v), t), list(m.insert(a, v), a) == seen(m, a, t)
{ purge_seen(m, a, v, t); total_set(m, a, v); kept_distinct(m[a]@, live(t)); kept_sub(m[a]@, live(t)); }
/// changing one list
proof fn set_seen(m: Content, k: Seq<char>, v: Vec<StoredBinding>, t: int)
    ensures forall|a: Seq<char>| a != k ==> #[trigger] seen(m.insert(k, v), a, t) == seen(m, a, t), seen(m.insert(k, v), k, t) == kept(v@, live(t))
{}
/// the store after one list was emptied of what has expired and of one contact, or left as it was without it
proof fn took(m: Content, a: Seq<char>, c: Seq<char>, v: Vec<StoredBinding>, t: int)
    requires within(m), m.contains_key(a), v@ == kept(m[a]@, other(c))
    ensures within(m.insert(a, v)), did(m, Op::Drop(a, c), m.insert(a, v), t)
{
    total_set(m, a, v); kept_distinct(m[a]@, other(c)); kept_sub(m[a]@, other(c)); kept_and(m[a]@, other(c), live(t));
    set_seen(m, a, v, t);
    assert forall|x: Seq<char>| #[trigger] seen(m.insert(a, v), x, t) == effect(Op::Drop(a, c), x, seen(m, x, t), t) by { }
}
proof fn none_stored(m: Content, a: Seq<char>, op: Op, t: int)
    requires !m.contains_key(a), op matches Op::Drop(x, _) && x == a || op == Op::DropAll(a)
    ensures did(m, op, m, t)
{
    assert(seen(m, a, t) =~= Seq::empty());
    assert forall|x: Seq<char>| #[trigger] seen(m, x, t) == effect(op, x, seen(m, x, t), t) by { if x == a { assert(effect(op, x, seen(m, x, t), t) =~= Seq::empty()); } }
}
proof fn cleared(m: Content, a: Seq<char>, t: int)
    requires within(m)
    ensures within(m.remove(a)), did(m, Op::DropAll(a), m.remove(a), t)
{
    total_cut(m, a);
    assert(seen(m.remove(a), a, t) =~= Seq::empty());
    assert forall|x: Seq<char>| #[trigger] seen(m.remove(a), x, t) == effect(Op::DropAll(a), x, seen(m, x, t), t) by { if x != a { assert(list(m.remove(a), x) == list(m, x)); } }
}
proof fn same_did(m: Content, n: Content, o: Content, op: Op, t: int)
    requires did(m, Op::Nothing, n, t), did(n, op, o, t)
    ensures did(m, op, o, t)
{ assert forall|x: Seq<char>| #[trigger] seen(o, x, t) == effect(op, x, seen(m, x, t), t) by { assert(seen(n, x, t) == seen(m, x, t)); } }
proof fn did_nothing(m: Content, t: int) ensures did(m, Op::Nothing, m, t) {}
/// an empty list is as good as none
proof fn dropped_empty(m: Content, a: Seq<char>, t: int)
    requires within(m), list(m, a).len() == 0
    ensures within(m.remove(a)), did(m, Op::Nothing, m.remove(a), t), total(m.remove(a)) == total(m)
{
    total_cut(m, a);
    assert(list(m, a) =~= Seq::empty());
    assert forall|x: Seq<char>| #[trigger] seen(m.remove(a), x, t) == seen(m, x, t) by { assert(list(m.remove(a), x) =~= list(m, x)); }
}
pub open spec fn holdsc(s: Seq<StoredBinding>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contact@ == c }
proof fn kept_other_len(s: Seq<StoredBinding>, c: Seq<char>)
    ensures kept(s, other(c)).len() <= s.len(), holdsc(s, c) ==> kept(s, other(c)).len() + 1 <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        kept_other_len(t, c);
        if holdsc(s, c) && s.last().contact@ != c { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contact@ == c; assert(t[i].contact@ == c); }
    }
}
proof fn within_total(m: Content) requires within(m) ensures total(m) <= 100_000 {}
/// the store after a list that may not have been there was purged
proof fn put_purge(m: Content, a: Seq<char>, v: Vec<StoredBinding>, t: int)
    requires within(m), v@ == kept(list(m, a), live(t))
    ensures within(m.insert(a, v)), did(m, Op::Nothing, m.insert(a, v), t), total(m) <= 100_000
{ if m.contains_key(a) { purged(m, a, v, t); } else { total_set(m, a, v); purge_seen(m, a, v, t); kept_sub(list(m, a), live(t)); } }
/// the store after a binding was put in the list v0 (which replaces what is stored for a)
proof fn putting(m: Content, a: Seq<char>, b: Binding, sb: StoredBinding, l0: Seq<StoredBinding>, v: Vec<StoredBinding>, t: int)
    requires within(m), l0 == list(m, a), v@ == kept(kept(l0, live(t)), other(b.contact@)).push(sb), sb == stored(b, t),
        kept(kept(l0, live(t)), other(b.contact@)).len() < 20,
        total(m) < 100_000 || (holdsc(l0, b.contact@) && forall|i: int| 0 <= i < l0.len() ==> live(t)(#[trigger] l0[i])),
    ensures within(m.insert(a, v)), did(m, Op::Put(a, b), m.insert(a, v), t)
{
    let k = kept(kept(l0, live(t)), other(b.contact@));
    assert(m.contains_key(a) ==> distinct(l0));
    kept_distinct(l0, live(t)); kept_distinct(kept(l0, live(t)), other(b.contact@));
    kept_sub(kept(l0, live(t)), other(b.contact@));
    kept_sub(l0, live(t));
    kept_other_len(l0, b.contact@);
    if total(m) >= 100_000 { kept_id(l0, live(t)); }
    total_set(m, a, v);
    assert(distinct(v@)) by { assert forall|i: int, j: int| 0 <= i < j < v@.len() implies (#[trigger] v@[i]).contact@ != (#[trigger] v@[j]).contact@ by { if j < k.len() { assert(k[i].contact@ != k[j].contact@); } else { assert(other(b.contact@)(k[i])); } } }
    set_seen(m, a, v, t);
    assert forall|x: Seq<char>| #[trigger] seen(m.insert(a, v), x, t) == effect(Op::Put(a, b), x, seen(m, x, t), t) by { }
}
proof fn sum_some(m: Content, ks: Seq<Seq<char>>, i: int)
    requires uniq(ks), 0 <= i < ks.len()
    ensures sum(m, ks.take(i + 1)) == sum(m, ks.take(i)) + list(m, ks[i]).len(), sum(m, ks.take(i + 1)) <= total(m)
{
    assert(ks.take(i + 1).drop_last() =~= ks.take(i));
    assert(uniq(ks.take(i + 1))) by { assert(forall|x: int, y: int| 0 <= x < y < i + 1 ==> ks[x] != ks[y]); }
    sum_total(m, ks.take(i + 1));
}
proof fn keyed(m: Content, ks: Seq<SmolStr>)
    requires forall|k: Seq<char>| m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i]@ == k, forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks[i]@ != ks[j]@
    ensures uniq(kviews(ks)), forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> kviews(ks).contains(k)
{
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies kviews(ks).contains(k) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i]@ == k; assert(kviews(ks)[i] == k); }
}
/// nothing expired is stored under the first i keys
pub open spec fn clean(m: Content, ks: Seq<Seq<char>>, i: int, t: int) -> bool { forall|j: int| 0 <= j < i && j < ks.len() ==> kept(list(m, #[trigger] ks[j]), live(t)) == list(m, ks[j]) }
pub open spec fn all_live(m: Content, t: int) -> bool { forall|a: Seq<char>| #[trigger] list(m, a) == seen(m, a, t) }
impl MemoryLocationStore {
//@fn MemoryLocationStore::new
    ensures within(r.inner@), forall|a: Seq<char>, t: int| #[trigger] seen(r.inner@, a, t) == Seq::<StoredBinding>::empty(),
@entry
    proof { assert(total(Map::<Seq<char>, Vec<StoredBinding>>::empty()) == 0); }
//@end
//@fn MemoryLocationStore::purge_expired
@sig (&mut self, aor: &SmolStr)
@rewrite let Some ( mut entry ) ==> let Some(entry)
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()),
        list(final(self).inner@, aor@) == seen(old(self).inner@, aor@, now_ns()),
@entry
    hide(within); hide(did); hide(total);
    proof { if !self.inner@.contains_key(aor@) { reveal(did); assert(seen(self.inner@, aor@, now_ns()) =~= Seq::empty()); } }
@loop 1
    invariant 0 <= i__ <= entry@.len(), retaining(v0__, entry@, i__ as int, j__, live(now_ns())), v0__ == old(self).inner@[aor@]@,
    decreases v0__.len() - j__,
@afterloop 1
    proof { assert(v0__.take(v0__.len() as int) =~= v0__); assert(v0__.skip(v0__.len() as int) =~= Seq::empty()); assert(entry@ =~= kept(v0__, live(now_ns()))); purged(old(self).inner@, aor@, *entry, now_ns()); }
//@end
//@fn MemoryLocationStore::cleanup_expired trait=LocationStore as=t_cleanup
@sig (&mut self) -> Result<usize, AErr>
@rewrite for mut entry in self . inner . iter_mut ( ) { $*b } ==> let kk__ = self.inner.keys_vec(); proof { keyed(self.inner@, kk__@); } let mut q__: usize = 0; while q__ < kk__.len() { let k__ = &kk__[q__]; q__ += 1; if let Some(entry) = self.inner.get_mut(k__) { $b } }
@rewrite self . inner . retain ( | _ , bindings | $*c ) ==> let ks__ = self.inner.keys_vec(); let mut q__: usize = 0; while q__ < ks__.len() { let k__ = &ks__[q__]; q__ += 1; let keep__ = match self.inner.get(k__) { Some(bindings) => $c, None => true }; if !keep__ { self.inner.remove(k__); } }
@rewrite let mut count = 0 ==> let mut count: usize = 0
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()), all_live(final(self).inner@, now_ns()),
        r matches Ok(n) && n == total(old(self).inner@) - total(final(self).inner@),
@entry
    hide(within); hide(did); hide(total);
    proof { did_nothing(self.inner@, now_ns()); }
    let ghost m0__ = self.inner@;
@loop 1
    invariant 0 <= q__ <= kk__@.len(), now == tm::mki(now_ns()), within(self.inner@), within(m0__), did(m0__, Op::Nothing, self.inner@, now_ns()), m0__ == old(self).inner@,
        self.inner@.dom() == m0__.dom(), uniq(kviews(kk__@)), forall|k: Seq<char>| #[trigger] m0__.contains_key(k) ==> kviews(kk__@).contains(k),
        clean(self.inner@, kviews(kk__@), q__ as int, now_ns()), count == total(m0__) - total(self.inner@),
    decreases kk__@.len() - q__,
@loopbody 1
    proof { reveal(within); }
    let ghost m1__ = self.inner@;
@loop 2
    invariant 0 <= i__ <= entry@.len(), retaining(v0__, entry@, i__ as int, j__, live(now_ns())), v0__ == m1__[k__@]@, now == tm::mki(now_ns()),
    decreases v0__.len() - j__,
@afterloop 2
    proof { assert(v0__.take(v0__.len() as int) =~= v0__); assert(v0__.skip(v0__.len() as int) =~= Seq::empty()); assert(entry@ =~= kept(v0__, live(now_ns()))); kept_sub(v0__, live(now_ns()));
        purged(m1__, k__@, *entry, now_ns()); same_did(m0__, m1__, m1__.insert(k__@, *entry), Op::Nothing, now_ns()); total_set(m1__, k__@, *entry); kept_twice(v0__, live(now_ns()));
        let kv = kviews(kk__@); assert(kv[q__ - 1] == k__@);
        assert(m1__.insert(k__@, *entry).dom() =~= m0__.dom());
        assert(clean(m1__.insert(k__@, *entry), kv, q__ as int, now_ns())) by { assert forall|j: int| 0 <= j < q__ && j < kv.len() implies kept(list(m1__.insert(k__@, *entry), #[trigger] kv[j]), live(now_ns())) == list(m1__.insert(k__@, *entry), kv[j]) by { if j < q__ - 1 { assert(kv[j] != kv[q__ - 1]); } } }
    }
@afterloop 1
    proof { assert(all_live(self.inner@, now_ns())) by { assert forall|a: Seq<char>| #[trigger] list(self.inner@, a) == seen(self.inner@, a, now_ns()) by {
        if self.inner@.contains_key(a) { assert(m0__.contains_key(a)); let j = choose|j: int| 0 <= j < kviews(kk__@).len() && kviews(kk__@)[j] == a; assert(clean(self.inner@, kviews(kk__@), q__ as int, now_ns())); } else { assert(seen(self.inner@, a, now_ns()) =~= Seq::empty()); } } } }
    let ghost m2__ = self.inner@;
@loop 3
    invariant 0 <= q__ <= ks__@.len(), within(self.inner@), did(m0__, Op::Nothing, self.inner@, now_ns()), all_live(self.inner@, now_ns()), total(self.inner@) == total(m2__), count == total(m0__) - total(m2__), m0__ == old(self).inner@,
    decreases ks__@.len() - q__,
@loopbody 3
    let ghost m3__ = self.inner@;
    proof { if list(m3__, ks__[q__ as int]@).len() == 0 { let a0 = ks__[q__ as int]@; dropped_empty(m3__, a0, now_ns()); same_did(m0__, m3__, m3__.remove(a0), Op::Nothing, now_ns());
        assert forall|a: Seq<char>| #[trigger] list(m3__.remove(a0), a) == seen(m3__.remove(a0), a, now_ns()) by { assert(list(m3__, a) == seen(m3__, a, now_ns())); if a == a0 { assert(seen(m3__.remove(a0), a, now_ns()) =~= Seq::empty()); } else { assert(list(m3__.remove(a0), a) == list(m3__, a)); } } } }
//@end
//@fn MemoryLocationStore::upsert trait=LocationStore as=t_upsert
@sig (&mut self, binding: Binding) -> Result<(), AErr>
@rewrite LocationStore :: cleanup_expired ( self ) ? ==> { self.t_cleanup()?; proof { within_total(self.inner@); } }
@rewrite b . contact == binding . contact ( ) ==> b.contact.as_str() == binding.contact()
@rewrite b . contact != binding . contact ( ) ==> b.contact.as_str() != binding.contact()
@rewrite list . iter ( ) . any ( | b | $*c ) ==> { let mut f__ = false; let mut i__: usize = 0; while i__ < list.len() { let b = &list[i__]; if $c { f__ = true; break; } i__ += 1; } f__ }
@rewrite list . iter ( ) . filter ( | b | $*c ) . count ( ) ==> { let mut n__: usize = 0; let mut i__: usize = 0; while i__ < list.len() { let b = &list[i__]; i__ += 1; if $c { n__ += 1; } } n__ }
@rewrite let mut list = ==> let ghost m1__ = self.inner@; let ghost a0__ = aor_key@; let list =
@rewrite if total_bindings >= MAX_TOTAL_BINDINGS && ! replaces { ==> proof { within_total(self.inner@); reveal(did); assert(seen(self.inner@, aor_key@, now_ns()) == seen(old(self).inner@, aor_key@, now_ns())); assert(all_live(self.inner@, now_ns()) ==> list(self.inner@, aor_key@) == seen(self.inner@, aor_key@, now_ns())); kept_all(list(self.inner@, aor_key@), live(now_ns())); } if total_bindings >= MAX_TOTAL_BINDINGS && !replaces {
@rewrite list . push ( StoredBinding { $*x } ) ; ==> list.push(StoredBinding { $x }); proof { assert(list@ == kept(l1__, other(binding.contact@)).push(list@.last())); assert(list@.last() == stored(binding, now_ns())); putting(m1__, a0__, binding, list@.last(), list_of(m1__, a0__), *list, now_ns()); same_did(old(self).inner@, m1__, m1__.insert(a0__, *list), Op::Put(a0__, binding), now_ns()); }
@rewrite . cloned ( ) ==> .x_cloned()
    requires within(old(self).inner@),
    ensures within(final(self).inner@),
        r is Ok ==> did(old(self).inner@, Op::Put(binding.aor@, binding), final(self).inner@, now_ns()),
        r is Err ==> did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns())
            && (kept(seen(old(self).inner@, binding.aor@, now_ns()), other(binding.contact@)).len() >= 20
                || (all_live(final(self).inner@, now_ns()) && total(final(self).inner@) >= 100_000 && !holdsc(seen(old(self).inner@, binding.aor@, now_ns()), binding.contact@))),
@entry
    hide(within); hide(did); hide(total);
    proof { did_nothing(self.inner@, now_ns()); within_total(self.inner@); }
@loop 1
    invariant 0 <= i__ <= ks__@.len(), uniq(kviews(ks__@)), n__ == sum(self.inner@, kviews(ks__@).take(i__ as int)), within(self.inner@), total(self.inner@) <= 100_000, self.inner@ == old(self).inner@,
    decreases ks__@.len() - i__,
@loopbody 1
    proof { sum_some(self.inner@, kviews(ks__@), i__ as int); }
@loop 2
    invariant 0 <= i__ <= ks__@.len(), uniq(kviews(ks__@)), n__ == sum(self.inner@, kviews(ks__@).take(i__ as int)), total(self.inner@) <= 100_000, all_live(self.inner@, now_ns()),
    decreases ks__@.len() - i__,
@loopbody 2
    proof { sum_some(self.inner@, kviews(ks__@), i__ as int); }
@loop 3
    invariant_except_break !f__, forall|j: int| 0 <= j < i__ ==> (#[trigger] list@[j]).contact@ != binding.contact@,
    invariant 0 <= i__ <= list@.len(),
    ensures f__ == holdsc(list@, binding.contact@),
    decreases list@.len() - i__,
@loop 4
    invariant 0 <= i__ <= list@.len(), retaining(v0__, list@, i__ as int, j__, live(now_ns())), v0__ == list_of(m1__, aor_key@),
    decreases v0__.len() - j__,
@afterloop 4
    proof { assert(v0__.take(v0__.len() as int) =~= v0__); assert(v0__.skip(v0__.len() as int) =~= Seq::empty()); assert(list@ =~= kept(v0__, live(now_ns()))); put_purge(m1__, aor_key@, *list, now_ns()); same_did(old(self).inner@, m1__, m1__.insert(aor_key@, *list), Op::Nothing, now_ns()); }
    let ghost l1__ = list@;
@loop 5
    invariant 0 <= i__ <= list@.len(), n__ == kept(list@.take(i__ as int), other(binding.contact@)).len(), n__ <= i__,
    decreases list@.len() - i__,
@loopbody 5
    proof { assert(list@.take(i__ + 1).drop_last() =~= list@.take(i__ as int)); }
@afterloop 5
    proof { assert(list@.take(list@.len() as int) =~= list@); }
@loop 6
    invariant 0 <= i__ <= list@.len(), retaining(v0__, list@, i__ as int, j__, other(binding.contact@)), v0__ == l1__,
    decreases v0__.len() - j__,
@afterloop 6
    proof { assert(v0__.take(v0__.len() as int) =~= v0__); assert(v0__.skip(v0__.len() as int) =~= Seq::empty()); assert(list@ =~= kept(l1__, other(binding.contact@))); }
//@end
//@fn MemoryLocationStore::remove trait=LocationStore as=t_remove
@sig (&mut self, aor: &str, contact: &str) -> Result<(), AErr>
@rewrite let Some ( mut entry ) ==> let Some(entry)
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::Drop(aor@, contact@), final(self).inner@, now_ns()),
@entry
    hide(within); hide(did); hide(total);
    proof { if !self.inner@.contains_key(aor@) { none_stored(self.inner@, aor@, Op::Drop(aor@, contact@), now_ns()); } }
@loop 1
    invariant 0 <= i__ <= entry@.len(), retaining(v0__, entry@, i__ as int, j__, other(contact@)), v0__ == old(self).inner@[aor@]@,
    decreases v0__.len() - j__,
@afterloop 1
    proof { assert(v0__.take(v0__.len() as int) =~= v0__); assert(v0__.skip(v0__.len() as int) =~= Seq::empty()); assert(entry@ =~= kept(v0__, other(contact@))); took(old(self).inner@, aor@, contact@, *entry, now_ns()); }
//@end
//@fn MemoryLocationStore::remove_all trait=LocationStore as=t_remove_all
@sig (&mut self, aor: &str) -> Result<(), AErr>
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::DropAll(aor@), final(self).inner@, now_ns()),
@entry
    proof { cleared(self.inner@, aor@, now_ns()); }
//@end
//@fn MemoryLocationStore::lookup trait=LocationStore as=t_lookup
@sig (&mut self, aor: &str) -> Result<Vec<Binding>, AErr>
@rewrite Ok ( entry . iter ( ) . filter_map ( | b | { $*c } ) . collect ( ) ) ==> Ok({ let mut o__: Vec<Binding> = Vec::new(); let mut i__: usize = 0; while i__ < entry.len() { let b = &entry[i__]; i__ += 1; let x__: Option<Binding> = { $c }; if let Some(y__) = x__ { o__.push(y__); } } o__ })
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()),
        r matches Ok(v) && shown_all(aor@, seen(old(self).inner@, aor@, now_ns()), now_ns(), v@) && distinct(seen(old(self).inner@, aor@, now_ns())),
@entry
    hide(within); hide(did); hide(total);
    let ghost m0__ = self.inner@;
    proof { kept_twice(list(m0__, aor@), live(now_ns())); reveal(within); if m0__.contains_key(aor@) { kept_distinct(m0__[aor@]@, live(now_ns())); } else { assert(seen(m0__, aor@, now_ns()) =~= Seq::empty()); } }
@loop 1
    invariant 0 <= i__ <= entry@.len(), now == tm::mki(now_ns()), entry@ == seen(m0__, aor@, now_ns()), kept(entry@, live(now_ns())) == entry@, aor_key@ == aor@,
        o__@.len() == i__, forall|j: int| 0 <= j < i__ ==> shown(aor@, #[trigger] entry@[j], now_ns(), o__@[j]),
    decreases entry@.len() - i__,
@loopbody 1
    proof { kept_all(entry@, live(now_ns())); assert(live(now_ns())(entry@[i__ as int])); }
//@end
//@fn MemoryLocationStore::upsert
@sig (&mut self, binding: Binding) -> Result<(), AErr>
@rewrite LocationStore :: upsert ( self , ==> self.t_upsert(
    requires within(old(self).inner@),
    ensures within(final(self).inner@),
        did(old(self).inner@, if r is Ok { Op::Put(binding.aor@, binding) } else { Op::Nothing }, final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::remove
@sig (&mut self, aor: &str, contact: &str) -> Result<(), AErr>
@rewrite LocationStore :: remove ( self , ==> self.t_remove(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::Drop(aor@, contact@), final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::remove_all
@sig (&mut self, aor: &str) -> Result<(), AErr>
@rewrite LocationStore :: remove_all ( self , ==> self.t_remove_all(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::DropAll(aor@), final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::lookup
@sig (&mut self, aor: &str) -> Result<Vec<Binding>, AErr>
@rewrite LocationStore :: lookup ( self , ==> self.t_lookup(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()),
        r matches Ok(v) && shown_all(aor@, seen(old(self).inner@, aor@, now_ns()), now_ns(), v@),
//@end
//@fn MemoryLocationStore::cleanup_expired
@sig (&mut self) -> Result<usize, AErr>
@rewrite LocationStore :: cleanup_expired ( self ) ==> self.t_cleanup()
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()), all_live(final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::upsert trait=AsyncLocationStore as=a_upsert
@sig (&mut self, binding: Binding) -> Result<(), AErr>
@rewrite LocationStore :: upsert ( self , ==> self.t_upsert(
    requires within(old(self).inner@),
    ensures within(final(self).inner@),
        did(old(self).inner@, if r is Ok { Op::Put(binding.aor@, binding) } else { Op::Nothing }, final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::remove trait=AsyncLocationStore as=a_remove
@sig (&mut self, aor: &str, contact: &str) -> Result<(), AErr>
@rewrite LocationStore :: remove ( self , ==> self.t_remove(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::Drop(aor@, contact@), final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::remove_all trait=AsyncLocationStore as=a_remove_all
@sig (&mut self, aor: &str) -> Result<(), AErr>
@rewrite LocationStore :: remove_all ( self , ==> self.t_remove_all(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), r is Ok, did(old(self).inner@, Op::DropAll(aor@), final(self).inner@, now_ns()),
//@end
//@fn MemoryLocationStore::lookup trait=AsyncLocationStore as=a_lookup
@sig (&mut self, aor: &str) -> Result<Vec<Binding>, AErr>
@rewrite LocationStore :: lookup ( self , ==> self.t_lookup(
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()),
        r matches Ok(v) && shown_all(aor@, seen(old(self).inner@, aor@, now_ns()), now_ns(), v@),
//@end
//@fn MemoryLocationStore::cleanup_expired trait=AsyncLocationStore as=a_cleanup
@sig (&mut self) -> Result<usize, AErr>
@rewrite LocationStore :: cleanup_expired ( self ) ==> self.t_cleanup()
    requires within(old(self).inner@),
    ensures within(final(self).inner@), did(old(self).inner@, Op::Nothing, final(self).inner@, now_ns()), all_live(final(self).inner@, now_ns()),
//@end
}
// ---- histories -------------------------------------------------------------------------------------------
pub struct Step { pub op: Op, pub at: int }
pub open spec fn at_i(h: Seq<Step>, i: int) -> int { h[i].at }
/// m[i] is the content before step i of h; the clock does not go back
pub open spec fn ran(m: Seq<Content>, h: Seq<Step>) -> bool {
    m.len() == h.len() + 1 && (forall|a: Seq<char>, t: int| #[trigger] seen(m[0], a, t) == Seq::<StoredBinding>::empty())
        && (forall|i: int| 0 <= i < h.len() ==> #[trigger] did(m[i], h[i].op, m[i + 1], h[i].at))
        && (forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] at_i(h, i) <= #[trigger] at_i(h, j))
}
/// what the history says is registered for contact c of a (whether or not it has expired since)
pub open spec fn latest(h: Seq<Step>, a: Seq<char>, c: Seq<char>) -> Option<StoredBinding> decreases h.len() {
    if h.len() == 0 { None } else {
        let before = latest(h.drop_last(), a, c);
        match h.last().op {
            Op::Put(x, b) => if x == a && b.contact@ == c { Some(stored(b, h.last().at)) } else { before },
            Op::Drop(x, d) => if x == a && d == c { None } else { before },
            Op::DropAll(x) => if x == a { None } else { before },
            Op::Nothing => before,
        }
    }
}
proof fn kept_has<T>(s: Seq<T>, f: spec_fn(T) -> bool, x: T) ensures kept(s, f).contains(x) == (s.contains(x) && f(x))
{
    kept_sub(s, f);
    if kept(s, f).contains(x) { let i = choose|i: int| 0 <= i < kept(s, f).len() && kept(s, f)[i] == x; assert(f(kept(s, f)[i])); }
    if s.contains(x) && f(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(kept(s, f).contains(s[i])); }
}
proof fn later_live(s: Seq<StoredBinding>, t: int, u: int)
    requires t <= u
    ensures kept(kept(s, live(t)), live(u)) == kept(s, live(u))
{ kept_and(s, live(t), live(u)); kept_all(s, live(u)); let k = kept(s, live(u)); assert forall|i: int| 0 <= i < k.len() implies live(t)(#[trigger] k[i]) by { assert(live(u)(k[i])); } kept_id(k, live(t)); }
/// [P05] whatever was done to the store: at any later time, a lookup shows a binding exactly when it is what the last accepted operation on
/// that contact of that user stored, and it has not expired
pub proof fn lookup_is_latest(m: Seq<Content>, h: Seq<Step>, a: Seq<char>, t: int, b: StoredBinding)
    requires ran(m, h), h.len() > 0 ==> h.last().at <= t
    ensures seen(m.last(), a, t).contains(b) == (latest(h, a, b.contact@) == Some(b) && b.expires_at@ > t)
    decreases h.len()
{
    if h.len() == 0 { assert(m.last() == m[0]); assert(seen(m[0], a, t).len() == 0); }
    else {
        let p = h.drop_last(); let q = m.drop_last(); let n = h.len() as int; let u = h.last().at;
        assert(ran(q, p)) by {
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] did(q[i], p[i].op, q[i + 1], p[i].at) by { assert(did(m[i], h[i].op, m[i + 1], h[i].at)); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] at_i(p, i) <= #[trigger] at_i(p, j) by { assert(at_i(h, i) <= at_i(h, j)); }
        }
        assert(p.len() > 0 ==> p.last().at <= u) by { if p.len() > 0 { assert(at_i(h, n - 2) <= at_i(h, n - 1)); } }
        lookup_is_latest(q, p, a, u, b);
        assert(did(m[n - 1], h[n - 1].op, m[n], h[n - 1].at));
        assert(q.last() == m[n - 1]);
        let s = seen(q.last(), a, u);
        assert(seen(m.last(), a, u) == effect(h.last().op, a, s, u));
        later_live(list(m.last(), a), u, t);
        kept_has(seen(m.last(), a, u), live(t), b);
        match h.last().op {
            Op::Put(x, pb) => if x == a {
                let k = kept(s, other(pb.contact@)); let sb = stored(pb, u);
                kept_has(k.push(sb), live(u), b);
                kept_has(s, other(pb.contact@), b);
                assert(k.push(sb).contains(b) == (k.contains(b) || b == sb)) by {
                    if k.contains(b) { let i = choose|i: int| 0 <= i < k.len() && k[i] == b; assert(k.push(sb)[i] == b); }
                    if b == sb { assert(k.push(sb)[k.len() as int] == b); }
                    if k.push(sb).contains(b) { let i = choose|i: int| 0 <= i < k.push(sb).len() && k.push(sb)[i] == b; if i < k.len() { assert(k[i] == b); } }
                }
            },
            Op::Drop(x, c) => if x == a { kept_has(s, other(c), b); },
            Op::DropAll(x) => {},
            Op::Nothing => {},
        }
    }
}
/// [P05] and never the same contact twice
pub proof fn one_per_contact(m: Content, a: Seq<char>, t: int)
    requires within(m)
    ensures distinct(seen(m, a, t)), seen(m, a, t).len() <= 20
{ if m.contains_key(a) { kept_distinct(m[a]@, live(t)); kept_sub(m[a]@, live(t)); } else { assert(seen(m, a, t) =~= Seq::empty()); } }
/// [P05] an operation on one user's address-of-record shows nowhere else
pub proof fn others_untouched(m: Content, op: Op, n: Content, t: int, a: Seq<char>)
    requires did(m, op, n, t), match op { Op::Put(x, _) => x != a, Op::Drop(x, _) => x != a, Op::DropAll(x) => x != a, Op::Nothing => true }
    ensures seen(n, a, t) == seen(m, a, t)
{}
} // mod
}
