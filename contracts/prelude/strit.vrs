//@rewrite for $x in parts { $*b } ==> while let Some($x) = parts.next() { $b }
verus! {
/// iterators over the pieces of a text, and ordered maps keyed by text (assumed contracts on std)
pub mod sit {
    use vstd::prelude::*;
    use super::st::*;
    use super::sx::*;
    use super::sl::*;
    use super::sm::*;
    /// str::split(char) / split_whitespace() as an iterator: the pieces and how many were taken
    pub struct XIt<'a> { pub v: Vec<&'a str>, pub i: usize }
    impl<'a> XIt<'a> {
        pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
        pub open spec fn rest(&self) -> Seq<Seq<char>> { views(self.v@).skip(self.i as int) }
        pub fn next(&mut self) -> (r: Option<&'a str>)
            requires old(self).wf(),
            ensures final(self).wf(), final(self).v == old(self).v,
                match r { Some(t) => old(self).i < old(self).v@.len() && t@ == views(old(self).v@)[old(self).i as int] && final(self).i == old(self).i + 1
                        && old(self).rest().len() > 0 && t@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                    None => old(self).i == old(self).v@.len() && *final(self) == *old(self) && old(self).rest().len() == 0 },
        { if self.i < self.v.len() { let t = self.v[self.i]; self.i = self.i + 1; proof { assert(views(old(self).v@).skip(self.i as int) =~= views(old(self).v@).skip(self.i - 1).drop_first()); } Some(t) } else { None } }
    }
    pub trait XIter {
        spec fn xi(&self) -> Seq<char>;
        fn x_split_it<'a>(&'a self, c: char) -> (r: XIt<'a>) ensures r.wf(), r.i == 0, views(r.v@) == fields(self.xi(), c), r.rest() == fields(self.xi(), c), r.v@.len() >= 1;
        fn x_ws_it<'a>(&'a self) -> (r: XIt<'a>) ensures r.wf(), r.i == 0, views(r.v@) == ws_fields(self.xi()), r.rest() == ws_fields(self.xi());
    }
    impl XIter for str {
        open spec fn xi(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_split_it<'a>(&'a self, c: char) -> (r: XIt<'a>) { unimplemented!() }
        #[verifier::external_body] fn x_ws_it<'a>(&'a self) -> (r: XIt<'a>) { unimplemented!() }
    }
    /// BTreeMap<SmolStr, V>: a map, and its keys in order
    #[verifier::external_body]
    #[verifier::reject_recursive_types(V)]
    pub struct BMap<V> { m: std::marker::PhantomData<V> }
    impl<V> BMap<V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        /// the keys in iteration order
        pub uninterp spec fn ks(&self) -> Seq<Seq<char>>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty(), r@.dom().len() == 0 { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len(), self@.dom().finite() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), self@.dom().finite() { unimplemented!() }
        #[verifier::external_body] pub fn contains_key(&self, k: &SmolStr) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &SmolStr) -> (r: Option<&V>)
            ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: SmolStr, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k@, v), final(self)@.dom().finite(),
                match r { Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn remove(&mut self, k: &SmolStr) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(k@), final(self)@.dom().finite(),
                match r { Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
        /// the entries, in order (used to expand iteration)
        #[verifier::external_body] pub fn pairs(&self) -> (r: Vec<(&SmolStr, &V)>)
            ensures r@.len() == self.ks().len(), r@.len() == self@.dom().len(), self@.dom().finite(),
                forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.ks()[i] && self@.contains_key(self.ks()[i]) && *r@[i].1 == self@[self.ks()[i]],
                forall|i: int, j: int| 0 <= i < j < r@.len() ==> self.ks()[i] != self.ks()[j],
                forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> self.ks().contains(k) { unimplemented!() }
    }
    /// the map is finite (it lives in memory)
    pub broadcast axiom fn bmap_finite<V>(m: &BMap<V>) ensures (#[trigger] m@).dom().finite();
    /// the iteration order lists every key once
    pub axiom fn bmap_ks<V>(m: &BMap<V>) ensures m@.dom().finite(), m.ks().len() == m@.dom().len(),
        forall|i: int| 0 <= i < m.ks().len() ==> m@.contains_key(#[trigger] m.ks()[i]),
        forall|i: int, j: int| 0 <= i < j < m.ks().len() ==> m.ks()[i] != m.ks()[j],
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> m.ks().contains(k);
    impl<V> Clone for BMap<V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
use sit::*;
} // verus!
