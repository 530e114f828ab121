//@rewrite $v . iter ( ) . position ( | $p | $*c ) ==> { let mut f__: Option<usize> = None; let mut i__: usize = 0; while i__ < $v.len() { let $p = &$v[i__]; if $c { f__ = Some(i__); break; } i__ += 1; } f__ }
//@rewrite $v . retain ( | $p | $*c ) ; ==> let ghost v0__ = $v@; let ghost mut j__: int = 0; let mut i__: usize = 0; while i__ < $v.len() { let keep__ = { let $p = &$v[i__]; $c }; proof { assert(v0__.take(j__ + 1).drop_last() =~= v0__.take(j__)); j__ = j__ + 1; } if keep__ { i__ += 1; } else { $v.remove(i__); } } proof { assert(v0__.take(v0__.len() as int) =~= v0__); }
verus! {
pub mod itx {
    use vstd::prelude::*;
    /// the elements satisfying f, in order
    pub open spec fn kept<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T>
        decreases s.len()
    { if s.len() == 0 { s } else if f(s.last()) { kept(s.drop_last(), f).push(s.last()) } else { kept(s.drop_last(), f) } }
    /// state of an expanded retain after j of the v0 elements
    pub open spec fn retaining<T>(v0: Seq<T>, v: Seq<T>, i: int, j: int, f: spec_fn(T) -> bool) -> bool {
        0 <= j <= v0.len() && v =~= kept(v0.take(j), f) + v0.skip(j) && i == kept(v0.take(j), f).len()
    }
    #[verifier::external_body]
    pub fn drain_front<T>(v: &mut Vec<T>, n: usize)
        requires n <= old(v)@.len(), ensures final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
    pub proof fn kept_sub<T>(s: Seq<T>, f: spec_fn(T) -> bool)
        ensures forall|i: int| 0 <= i < kept(s, f).len() ==> f(#[trigger] kept(s, f)[i]) && s.contains(kept(s, f)[i]),
            forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) ==> kept(s, f).contains(s[i]),
            kept(s, f).len() <= s.len(),
        decreases s.len()
    {
        if s.len() > 0 {
            let t = s.drop_last();
            kept_sub(t, f);
            let k = kept(s, f); let kt = kept(t, f);
            assert forall|i: int| 0 <= i < k.len() implies f(#[trigger] k[i]) && s.contains(k[i]) by {
                if i < kt.len() { assert(k[i] == kt[i]); assert(t.contains(kt[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == kt[i]; assert(s[j] == k[i]); }
                else { assert(k[i] == s.last()); assert(s[s.len() - 1] == k[i]); }
            }
            assert forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) implies k.contains(s[i]) by {
                if i < t.len() { assert(t[i] == s[i]); assert(kt.contains(t[i])); let j = choose|j: int| 0 <= j < kt.len() && kt[j] == t[i]; assert(k[j] == s[i]); }
                else { assert(k[k.len() - 1] == s[i]); }
            }
        }
    }
}
use itx::*;
} // verus!
