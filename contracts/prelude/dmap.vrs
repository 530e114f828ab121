verus! {
/// DashMap / RwLock<HashMap> / HashMap as the contracts see them: a mathematical map from the key's
/// view to the value (interior mutability made explicit: &self becomes &mut self; each call is one
/// atomic step).
pub mod dm {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct DMap<K, V> { m: std::marker::PhantomData<(K, V)> }
    impl<K: View, V> DMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K::V, V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len(), self@.dom().finite() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), self@.dom().finite() { unimplemented!() }
        #[verifier::external_body] pub fn contains_key<Q: View<V = <K as View>::V> + ?Sized>(&self, k: &Q) -> (r: bool)
            ensures r == self@.contains_key(k@) { unimplemented!() }
        #[verifier::external_body] pub fn get<Q: View<V = <K as View>::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
            ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn get_mut<Q: View<V = <K as View>::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
            ensures match r {
                Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
                None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ } { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k@, v),
                match r { Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: View<V = <K as View>::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(k@),
                match r { Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K::V, V>::empty() { unimplemented!() }
        /// entry(k).or_insert(v)
        #[verifier::external_body] pub fn entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
            ensures old(self)@.contains_key(k@) ==> *r == old(self)@[k@],
                !old(self)@.contains_key(k@) ==> *r == v,
                final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
        /// a snapshot of the keys, in some order (used to expand retain / iteration)
        #[verifier::external_body] pub fn keys_vec(&self) -> (r: Vec<K>)
            ensures self@.dom().finite(), r.len() == self@.dom().len(),
                forall|i: int| #![auto] 0 <= i < r.len() ==> self@.contains_key(r[i]@),
                forall|k: K::V| self@.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && #[trigger] r[i]@ == k,
                forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i]@ != r[j]@ { unimplemented!() }
    }
}
use dm::*;
/// relaxed atomics as plain counters
pub mod at {
    use vstd::prelude::*;
    pub enum Ordering { Relaxed, SeqCst, Acquire, Release, AcqRel }
    pub struct AtomicU64 { pub v: u64 }
    impl AtomicU64 {
        pub fn new(v: u64) -> (r: AtomicU64) ensures r.v == v { AtomicU64 { v } }
        pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.v { self.v }
        pub fn store(&mut self, v: u64, o: Ordering) ensures final(self).v == v { self.v = v; }
        pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64)
            ensures r == old(self).v, final(self).v == ((old(self).v as int + n as int) % 0x1_0000_0000_0000_0000) as u64
        { let r = self.v; self.v = (((r as u128) + (n as u128)) % 0x1_0000_0000_0000_0000) as u64; r }
        #[verifier::external_body]
        pub fn compare_exchange(&mut self, a: u64, b: u64, x: Ordering, y: Ordering) -> (r: Result<u64, u64>)
            ensures match r { Ok(o) => o == old(self).v && a == old(self).v && final(self).v == b,
                Err(o) => o == old(self).v && final(self).v == old(self).v } { unimplemented!() }
    }
}
use at::*;
} // verus!
