verus! {
/// smol_str::SmolStr and bytes::Bytes: immutable text / bytes (assumed contracts)
pub mod sm {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct SmolStr { x: u128 }
    impl View for SmolStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    pub broadcast axiom fn smol_ext(a: SmolStr, b: SmolStr) ensures #[trigger] (a@) == #[trigger] (b@) ==> a == b;
    impl SmolStr {
        #[verifier::external_body] pub fn new(s: &str) -> (r: SmolStr) ensures r@ == s@ { unimplemented!() }
        #[verifier::external_body] pub fn from_string(s: String) -> (r: SmolStr) ensures r@ == s@ { unimplemented!() }
        #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: String) ensures r@ == super::sx::lower(self@) { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == super::st::blen(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == super::sx::eq_ci(self@, o@) { unimplemented!() }
    }
    impl Clone for SmolStr { #[verifier::external_body] fn clone(&self) -> (r: SmolStr) ensures r == *self { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for SmolStr {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &SmolStr) -> bool { self@ == other@ }
    }
    impl PartialEq for SmolStr { #[verifier::external_body] fn eq(&self, o: &SmolStr) -> (r: bool) { unimplemented!() } }
    impl Eq for SmolStr {}
    /// impl Into<SmolStr>
    pub trait ToSmol: Sized { spec fn tv(&self) -> Seq<char>; fn to_smol(self) -> (r: SmolStr) ensures r@ == self.tv(); }
    impl ToSmol for SmolStr { open spec fn tv(&self) -> Seq<char> { self@ } fn to_smol(self) -> (r: SmolStr) { self } }
    impl ToSmol for &str { open spec fn tv(&self) -> Seq<char> { self@ } fn to_smol(self) -> (r: SmolStr) { SmolStr::new(self) } }
    impl ToSmol for String { open spec fn tv(&self) -> Seq<char> { self@ } fn to_smol(self) -> (r: SmolStr) { SmolStr::from_string(self) } }
    #[verifier::external_body]
    pub struct Bytes { x: u128 }
    impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Bytes {
        #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    }
    impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
}
use sm::*;
} // verus!
